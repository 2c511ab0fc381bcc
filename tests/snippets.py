"""Python constructs and library functions, one per function: tests/interp_test.py compares the abstract interpreter
with CPython on each (a test of the machinery; nothing of /repo is involved)."""
from __future__ import annotations
import abc, collections, contextlib, copy, dataclasses, enum, functools, io, itertools, math, operator, os, os.path as osp, re, string, struct, sys, textwrap, typing, types
from collections import ChainMap, Counter, OrderedDict, defaultdict, deque, namedtuple
from collections.abc import Callable, Iterable, Mapping
from dataclasses import dataclass, field
from enum import Enum, IntEnum, auto
from functools import cached_property, lru_cache, partial, reduce, singledispatch, wraps, total_ordering
from io import BytesIO, StringIO
from pathlib import Path
from typing import (Any, ClassVar, Final, Generic, NamedTuple, Optional, Protocol, TypeVar, Union, cast)
T = TypeVar("T")


def walrus():
    out = []
    xs = [1, 2, 3]
    while (n := len(xs)) > 0:
        out.append(n); xs.pop()
    if (m := re.match(r"(\d+)", "12a")):
        out.append(m.group(1))
    return out, [y := 3, y ** 2], y


def match_all():
    @dataclass
    class P:
        x: int
        y: int
    out = []
    for v in (1, "a", None, True, [1, 2], [1, 2, 3], (4, 5), {"k": 1, "z": 2}, P(1, 2), P(0, 7), 2.5, [], {}):
        match v:
            case None: out.append("none")
            case True | False: out.append("bool")
            case int(n) if n > 0: out.append(("int", n))
            case str(): out.append("str")
            case [a, b]: out.append(("two", a, b))
            case [a, *rest]: out.append(("rest", a, rest))
            case {"k": k, **kw}: out.append(("map", k, kw))
            case P(x=0, y=yy): out.append(("p0", yy))
            case P(a, b): out.append(("p", a, b))
            case float() as f: out.append(f)
            case _: out.append("other")
    return out


def match_attr():
    class E(Enum):
        A = 1
        B = 2
    out = []
    for e in E:
        match e:
            case E.A: out.append("a")
            case E.B: out.append("b")
    match ("go", 3):
        case ("go", int() as n): out.append(n)
    match {"a": 1}:
        case {"b": _}: out.append("no")
        case {"a": 1 | 2 as q}: out.append(q)
    return out


def star_args():
    def f(a, b=2, *c, d=4, **e): return a, b, c, d, sorted(e.items())
    def g(*, x, y=1): return x, y
    def h(a, /, b): return a, b
    a, *b, c = range(6)
    d = {"d": 9, "z": 1}
    return f(1), f(1, 3, 5, 6, d=7, q=8), f(*[1, 2, 3], **d), g(x=3), h(1, b=2), a, b, c, [*b, *"xy"], {**d, "w": 0}, (*b,)


def generators():
    def g(n):
        for i in range(n):
            x = yield i
        return "end"
    def h():
        r = yield from g(2)
        yield r
    def inf():
        n = 0
        while True:
            yield n
            n += 1
    it = g(3)
    return list(g(3)), list(h()), next(it), next(it), [x for x in zip(inf(), "abc")], list(itertools.islice(inf(), 4)), sum(x for x in range(5)), next(iter([]), 7)


def gen_lazy():
    log = []
    def g():
        log.append("s")
        yield 1
        log.append("m")
        yield 2
        log.append("e")
    it = g()
    log.append("made")
    for x in it:
        log.append(x)
    return log


def gen_try():
    log = []
    def g():
        try:
            yield 1
            yield 2
        finally:
            log.append("fin")
    for x in g():
        log.append(x)
    return log


def comprehension():
    return ([x * y for x in range(3) for y in range(3) if x != y], {x: x * x for x in range(3)}, {x % 2 for x in range(5)},
            [[c for c in r] for r in ("ab", "cd")], dict((k, v) for k, v in zip("ab", (1, 2))), any(x > 2 for x in range(4)), all([]))


def itertools_all():
    i = itertools
    return (list(i.chain([1], (2,), "a")), list(i.chain.from_iterable([[1], [2, 3]])), list(i.product("ab", repeat=2)), list(i.zip_longest("ab", "c", fillvalue="-")),
            list(i.takewhile(lambda x: x < 3, [1, 2, 5, 1])), list(i.dropwhile(lambda x: x < 3, [1, 2, 5, 1])), [(k, list(g)) for k, g in i.groupby("aab")],
            list(i.accumulate([1, 2, 3])), list(i.pairwise("abc")), list(i.combinations("abc", 2)), list(i.permutations([1, 2])), list(i.starmap(pow, [(2, 3)])),
            list(i.islice("abcdef", 1, 5, 2)), list(i.repeat(1, 3)), list(i.compress("abc", [1, 0, 1])), list(i.filterfalse(None, [0, 1])), list(zip(i.count(1), "ab")), [next(i.cycle([5])) for _ in range(1)])


def functools_all():
    @lru_cache(maxsize=None)
    def fib(n): return n if n < 2 else fib(n - 1) + fib(n - 2)
    @functools.cache
    def sq(n): return n * n
    def deco(fn):
        @wraps(fn)
        def w(*a, **k): return ("w", fn(*a, **k))
        return w
    @deco
    def f(a): return a + 1
    class C:
        @cached_property
        def v(self): return [1]
    c = C()
    return fib(20), sq(4), f(1), f.__name__, partial(pow, 2)(5), partial(int, base=2)("101"), reduce(lambda a, b: a * b, [1, 2, 3], 1), c.v is c.v, reduce(operator.add, [1, 2])


def contexts():
    log = []
    @contextlib.contextmanager
    def m(n):
        log.append(("in", n))
        try:
            yield n * 2
        finally:
            log.append(("out", n))
    with m(1) as a, m(2) as b:
        log.append((a, b))
    try:
        with m(3):
            raise ValueError("x")
    except ValueError as e:
        log.append(str(e))
    class K:
        def __enter__(self): log.append("e"); return self
        def __exit__(self, t, v, tb): log.append(t.__name__ if t else None); return True
    with K():
        raise KeyError("q")
    with K(): pass
    with contextlib.suppress(KeyError, IndexError):
        [][1]
    with contextlib.ExitStack() as st:
        st.enter_context(m(4))
        st.callback(log.append, "cb")
    with contextlib.nullcontext(5) as z:
        log.append(z)
    def ret():
        with m(9):
            return 1
    ret()
    for i in range(2):
        with m(7):
            if i == 0: continue
            break
    return log


def exceptions():
    out = []
    class E1(Exception):
        def __init__(self, a, b=2):
            super().__init__(a)
            self.b = b
    class E2(E1): pass
    for k in range(7):
        try:
            if k == 0: raise E2("m")
            if k == 1: {}["z"]
            if k == 2: [][0]
            if k == 3: int("x")
            if k == 4: raise E1
            if k == 5: None.foo
            out.append("fine")
        except E2 as e: out.append((e.b, str(e), e.args))
        except (KeyError, IndexError) as e: out.append(type(e).__name__)
        except ValueError: out.append("ve")
        except Exception as e: out.append(type(e).__name__)
        else: out.append("else")
        finally: out.append("f")
    def nested():
        try:
            try:
                raise ValueError("a")
            except ValueError as e:
                raise RuntimeError("b") from e
        except RuntimeError as r:
            return str(r), str(r.__cause__)
    def fin():
        for i in range(3):
            try:
                if i == 1: continue
                if i == 2: return i
            finally:
                out.append(i)
    def reraise():
        try:
            try: 1 // 0
            except ZeroDivisionError:
                out.append("z"); raise
        except ArithmeticError as e: return type(e).__name__
    try: assert 1 == 2, "msg"
    except AssertionError as e: out.append(str(e))
    return out, nested(), fin(), reraise()


def try_in_loop():
    out = []
    it = iter([1, 2, 3])
    while True:
        try:
            out.append(next(it))
        except StopIteration:
            break
    return out


def classes():
    class A:
        n = 0
        __slots__ = ("a", "b")
        def __init__(self, a): self.a = a; A.n += 1
        def __eq__(self, o): return isinstance(o, A) and o.a == self.a
        def __hash__(self): return hash(self.a)
        def __repr__(self): return f"A({self.a!r})"
        def __lt__(self, o): return self.a < o.a
        def __contains__(self, x): return x == self.a
        def __getitem__(self, i): return (self.a, i)
        def __setitem__(self, i, v): self.b = (i, v)
        def __len__(self): return 3
        def __iter__(self): return iter([self.a] * 2)
        def __call__(self, *a): return a
        def __add__(self, o): return A(self.a + o.a)
        def __radd__(self, o): return o
        def __iadd__(self, o): self.a += 1; return self
        def __neg__(self): return A(-self.a)
        def __enter__(self): return self
        def __exit__(self, *a): pass
        @property
        def p(self): return self.a * 2
        @p.setter
        def p(self, v): self.a = v
        @staticmethod
        def s(x): return x
        @classmethod
        def make(cls, *a): return cls(*a)
    x, y = A(1), A.make(2)
    x[4] = 5
    x.p = 3
    z = x + y
    x += 1
    return x == A(3), x == y, {A(1): 2}[A(1)], repr(x), sorted([y, x])[0].a, 3 in x, x[7], x.b, len(x), list(x), x(1, 2), z.a, (-x).a, x.p, A.s(4), A.n, bool(x), sum([x], 5), str(y), max(x, y).a, A.__name__, type(x).__name__, x != y


def inheritance():
    class B(abc.ABC):
        kind: ClassVar[str] = "b"
        def __init__(self, *a, **k): self.a = a; self.k = k
        @abc.abstractmethod
        def f(self): ...
        def t(self): return self.f() + 1
        def __init_subclass__(cls, **kw): cls.reg = cls.__name__.lower()
    class M:
        def f(self): return 10
    class C(M, B):
        def __init__(self, x): super().__init__(x, k=x); self.x = x
        def t(self): return super().t() * 2
    class D(C):
        kind = "d"
        def f(self): return super().f() + super(C, self).f()
    d = D(4)
    return d.t(), d.a, d.k, D.kind, C.kind, [c.__name__ for c in D.__mro__[:4]], isinstance(d, B), issubclass(D, M), D.reg, getattr(d, "zz", 1), hasattr(d, "x"), d.__class__.__name__, vars(d)["x"], d.__dict__["x"], type(d) is D, type(d) == C, callable(d.t)


def dyn_attr():
    class V:
        def visit(self, n): return getattr(self, f"visit_{type(n).__name__}", self.generic)(n)
        def visit_int(self, n): return n + 1
        def generic(self, n): return "g"
        def __getattr__(self, n):
            if n.startswith("_"): raise AttributeError(n)
            return ("dyn", n)
    v = V()
    setattr(v, "q", 5)
    delattr(v, "q")
    v.z = 1
    return v.visit(1), v.visit_str, v.q, v.z, hasattr(v, "_p"), getattr(v, "_k", None)


def datacls():
    @dataclass
    class P:
        x: int
        y: list[int] = field(default_factory=list)
        z: int = 3
        w: int = field(default=0, init=False, repr=False, compare=False)
        def __post_init__(self): self.w = self.x + self.z
    @dataclass(frozen=True, order=True)
    class F:
        a: int
        b: str = "q"
    @dataclass(kw_only=True, slots=True)
    class K(object):
        a: int = 1
        b: int = 2
    @dataclass
    class S(P):
        s: str = "s"
    p = P(1)
    q = dataclasses.replace(p, x=2)
    err = 0
    try: F(1).a = 2
    except Exception: err = 1
    return p == P(1), p.w, q.x, repr(p), F(1) < F(2), {F(1): 3}[F(1)], K(b=5).b, S(1, s="t").s, S(1).y, dataclasses.asdict(p), [f.name for f in dataclasses.fields(p)], err, P.z, dataclasses.astuple(F(1)), dataclasses.is_dataclass(p)


def enums():
    class T(Enum):
        A = "a"
        B = auto()
        C = "c"
        def low(self): return self.name.lower()
        @property
        def pr(self): return self.value
        @classmethod
        def of(cls, v): return cls(v)
    class I(IntEnum):
        X = 0
        Y = auto()
        Z = auto()
    class S(str, Enum):
        K = "k"
    class A2(Enum):
        P = auto()
        Q = auto()
    return T.A.name, T("c").name, T["A"].value, [t.name for t in T], len(T), T.A.low(), T.A is T("a"), T.A == T.C, I.Y + 1, int(I.Z), I.X < I.Y, list(I)[2].name, S.K == "k", A2.Q.value, T.of("a").pr, {T.A: 1}[T.A], T.A in T, isinstance(T.A, T), T.__members__["A"].value, f"{T.A.name}", I(1).name, T.A in (T.A, T.C), sorted(i.value for i in A2), str(T.A), repr(I.Y), f"{S.K.value}"


def enum_iter():
    class O(IntEnum):
        A = 0
        B = 1
        @staticmethod
        def num(): return 2
    d = {o.name: o.value for o in O}
    return d, O.num(), [int(o) for o in O], O.A.value.to_bytes(2, "big"), bytes([O.B]), O["B"], O(0), bool(O.A), hash(O.B) == hash(1), O.B == 1, {1: 2}[O.B], [0, 1][O.B], max(O), "%d" % O.B


def namedtuples():
    P = namedtuple("P", "x y")
    class N(NamedTuple):
        a: int
        b: str = "d"
        def f(self): return self.a + 1
    p = P(1, 2)
    x, y = p
    n = N(3)
    return p.x, p[1], p == (1, 2), x + y, n.b, n.f(), p._replace(x=5), p._asdict(), N._fields, len(n), repr(n), {p: 1}[(1, 2)], isinstance(p, tuple), list(n), tuple(p) + (3,)


def containers():
    d = defaultdict(list)
    d["a"].append(1); d["a"].append(2)
    c = Counter("aab"); c["z"] += 1; c.update("ab")
    o = OrderedDict([("x", 1), ("y", 2)]); o.move_to_end("x")
    q = deque([1, 2], maxlen=3); q.appendleft(0); q.append(5); q.rotate(1)
    ch = ChainMap({"a": 1}, {"a": 2, "b": 3})
    dd = defaultdict(lambda: 7)
    dd[1] += 1
    return dict(d), c["a"], c.most_common(1), list(o), list(q), q.popleft(), q.pop(), ch["a"], ch["b"], "z" in d, d.get("q"), dd[1], dd[5], sorted(dd), list(c.elements())[:2], len(q), bool(deque()), c["none"]


def dicts():
    d = {"a": 1, "b": 2}
    d.setdefault("c", []).append(3)
    d.update(e=5); d.update({"f": 6}); d |= {"g": 7}
    k = d.pop("a"); n = d.pop("zz", None)
    del d["b"]
    e = d | {"h": 1}
    first = next(iter(d))
    li = d.popitem()
    return d, k, n, e, first, li, list(d.items()), list(reversed(d)), "c" in d, d.keys() & {"c"}, dict.fromkeys("ab", 0), sorted(d, key=str), min(d.values(), key=str), dict(zip("ab", [1, 2])), d == dict(d), {**d}, d.copy() is d, [k for k in d], {v: k for k, v in {"q": 1}.items()}, len(d), max({"a": 3, "b": 1}.items(), key=lambda t: t[1]), d.get("c", 4), dict([("a", 1)], b=2), {}.get(None)


def lists():
    a = [3, 1, 2]
    a.sort(); b = sorted(a, reverse=True); a.extend([9, 8]); a.insert(0, 7); a += (1,); a.remove(9); p = a.pop(); q = a.pop(0)
    a[1:2] = [10, 11]; del a[0]; c = a[:]; c.reverse(); c.clear()
    z = [0] * 3; z[-1] = 4
    s = sorted([("b", 1), ("a", 2)], key=lambda t: t[0]); s.sort(key=operator.itemgetter(1), reverse=True)
    a[::2] = [0] * len(a[::2])
    return a, b, p, q, c, z, s, a.index(11), [1, 2].count(1), list(reversed([1, 2])), [1, 2] + [3], [1, 2] < [1, 3], [[0]] * 2, a[-1], a[::-1], list(enumerate("ab", 1)), list(map(lambda x, y: x + y, [1], [2])), list(filter(None, [0, 1])), sum([[1], [2]], []), any([0, 1]), max([1, 3], default=0), min([], default=5), list("ab"), a.copy() == a, tuple(a), 2 in [1], not [], [1, 2] == [1, 2], [1] * 2, divmod(7, 2), abs(-3), round(2.5), pow(2, 3, 5), bin(5), hex(255), oct(8), chr(97), ord("a"), list(range(5, 0, -2)), range(3)[1], len(range(4)), 3 in range(4), range(2) == range(2)


def sets():
    s = {1, 2}; s.add(3); s.discard(9); s.update([4]); s |= {5}; s -= {1}
    f = frozenset([1, 2])
    return sorted(s), s & {2}, s | {9}, sorted(s ^ {2, 7}), {1} <= {1, 2}, {1}.issubset({1}), {1}.isdisjoint({2}), f, {f: 1}[frozenset([2, 1])], sorted(s.union([8], [9])), set("aa"), len(s), 3 in s, s.copy() == s, {1} < {1, 2}, set() or 5, sorted(s.difference({2})), sorted(s.intersection([2, 3])), {1, 2} - {2}


def strings():
    s = "Hello, World"
    t = str.maketrans({"a": "b"})
    return (s.lower(), s.split(", "), ",".join("abc"), s.replace("l", "L", 1), s.startswith(("He", "x")), s.endswith("d"), s.find("o"), s.rfind("o"), s.index("W"), s.upper(), s.strip("Hd"), "a b  c".split(), "a,b,c".split(",", 1), "a,b,c".rsplit(",", 1),
            "abc".isalpha(), "12".isdigit(), "a1".isalnum(), " ".isspace(), "Ab".swapcase(), "ab".capitalize(), "ab cd".title(), "x".center(5, "-"), "x".ljust(3) + "|", "x".rjust(3), "7".zfill(3), "a=b".partition("="), "a=b".rpartition("="), "l1\nl2".splitlines(), "aXb".casefold(),
            "%s-%d-%05.2f-%r" % ("a", 3, 2.5, "q"), "{}-{b}-{!r:>4}".format("x", 5, b=2), f"{3:>5}|{3.14159:.2f}|{'a'!r}|{5:03d}|{255:x}|{1 + 1}|{'x':^5}|{10:,}", "abc"[::-1], "abc"[-2:], "a" * 3, "b" in "abc", "a" < "b", s.count("l"), "abc".translate(t), "\t".expandtabs(2), s.removeprefix("Hello"), s.removesuffix("ld"), "a-b".isidentifier(), "ab".isidentifier(), "é".encode(), b"ab".decode("utf-8"), str(3), str(None), str([1, "a"]), repr("a'b"), "ab".__len__(), "x".isupper(), "abc".islower(), f"{s=}", f"{3!s:>4}", f"{'a':{5}}|", "a\\n", r"a\n", """t
q""", "a" "b", ascii("é"), string.digits, string.ascii_letters[:3], textwrap.dedent("  a\n  b"))


def bytes_ops():
    b = bytearray(b"ab"); b.append(99); b += b"d"; b.extend([101]); b[0] = 65; b[1:2] = b"ZZ"
    bio = BytesIO(b"abc"); bio.read(1); st = StringIO("l1\nl2\n")
    l1 = st.readline()
    o = StringIO(); o.write("q"); print("z", file=o)
    return bytes(b), b.hex(), int.from_bytes(b"\x01\x02", "big"), (258).to_bytes(2, "big"), (-3).to_bytes(8, "little", signed=True), struct.pack(">HB", 1, 2), struct.unpack(">H", b"\x00\x05"), struct.pack("<q", 5), struct.pack("<d", 1.5), bytes([1, 2]), b"a" + b"b", b"ab"[0], list(b"ab"), bytes(2), bio.read(), l1, list(st), o.getvalue(), struct.calcsize(">HH"), b"".join([b"a", b"c"]), b"abc".find(b"c"), len(b), memoryview(b"ab")[0], b"a\x00".rstrip(b"\x00"), struct.pack_into


def regex():
    p = re.compile(r"(?P<w>\w+)\s*(\d+)?")
    m = p.match("ab 12")
    return m.group("w"), m.groups(), m.start(), m.end(), m.span(2), re.sub(r"\d", "#", "a1b2"), re.split(r",\s*", "a, b,c"), re.findall(r"\d+", "1 22"), [x.group() for x in re.finditer("a", "aba")], bool(re.fullmatch("a+", "aaa")), re.sub("(a)", lambda m: m.group(1).upper(), "aba"), re.search("z", "abc"), m[0], m.lastgroup, re.escape("a.b"), re.compile("A", re.I).match("a") is not None, m.groupdict()


def copying():
    class N:
        def __init__(self): self.l = [1]; self.s = self
    n = N(); c = copy.copy(n); d = copy.deepcopy(n)
    return c.l is n.l, d.l is n.l, d.l == n.l, d.s is d, copy.deepcopy({"a": [1]}), copy.copy([1])


def scoping():
    x = 1
    def inc():
        nonlocal x
        x += 1
        return x
    fs = [lambda i=i: i for i in range(3)]
    gs = [lambda: i for i in range(3)]
    def outer():
        def inner(): return x
        return inner()
    inc()
    y = 5
    del y
    global _G
    _G = 3
    r = [x for x in range(2)]
    return inc(), [f() for f in fs], [g() for g in gs], outer(), x, r, _G


def cond():
    a = 5
    return (1 if a > 3 else 2), (a and 0) or "x", not a, 1 < a <= 5, a == 5 != 6, a is not None, (lambda *a, **k: (a, k))(1, b=2), (None or []), a if a else b, bool("") or None, 0 or False, [] and 1, 1 and "q"


def loops():
    out = []
    for i in range(3):
        if i == 5: break
    else: out.append("e1")
    for i in range(3):
        if i == 1: break
    else: out.append("e2")
    while i < 3: i += 1
    else: out.append("e3")
    for (a, b), c in [((1, 2), 3)]: out.append(a + b + c)
    for i, x in enumerate(reversed("ab")): out.append((i, x))
    for k, v in {"a": 1}.items(): out.append((k, v))
    for a, *b in [(1, 2, 3)]: out.append(b)
    for x in (d := {"q": 1}): out.append(x)
    i = 0
    while True:
        i += 1
        if i % 2: continue
        if i > 5: break
        out.append(i)
    xs = [1, 2]
    for x in xs:
        if len(xs) < 4: xs.append(x)
    return out, xs


def assigns():
    a = b = [1]
    c, (d, e) = 1, (2, 3)
    [f, g] = "xy"
    a[0], b = 5, 6
    h: int = 4
    i: int
    x = y = 0
    x += 2; x *= 3; x -= 1; x //= 2; x **= 2; x %= 3; x <<= 3; x |= 1; x &= 0xff; x ^= 2; x >>= 1
    z = 7; z /= 2
    class O: pass
    o = O(); o.l = {}; o.l["k"] = [1]; o.l["k"][0] += 5; o.n = o.m = 3
    return a, b, c, d, e, f, g, h, x, y, z, o.l, o.n, 7 // 2, -7 // 2, -7 % 3, 7 / 2, 2 ** 10, 2 ** -1, ~5, 1_000, 0x1f, 0b11, 1e3, 5 & 3, 1 << 4, +3, -(-3), not 1, 3 @ 2 if False else 0, ...is Ellipsis


def generics():
    class Box(Generic[T]):
        def __init__(self, v: T) -> None: self.v = v
        def get(self) -> Optional[T]: return self.v
    class Pr(Protocol):
        def m(self) -> int: ...
    Alias = Union[int, str]
    A2 = int | None
    def over(x: Alias) -> "list[int]": return [cast(int, x)]
    b = Box[int](3)
    X: Final = 3
    return b.get(), over(3), isinstance(3, int | str), isinstance("a", (int, str)), typing.TYPE_CHECKING, X


def closures_counter():
    def mk():
        n = 0
        def f():
            nonlocal n
            n += 1
            return n
        return f
    a, b = mk(), mk()
    return a(), a(), b()


def sort_stable():
    return sorted(["b", "A", "c"], key=str.lower), sorted([(1, "b"), (0, "z"), (1, "a")]), sorted({3: 1, 1: 2}.items()), list(sorted("cab")), sorted([1, 2, 3], key=lambda x: -x), min("b", "a"), max([("a", 2), ("b", 1)], key=operator.itemgetter(1)), sorted([2, 1], key=functools.cmp_to_key(lambda a, b: a - b))


def operators_mod():
    class O: a = 3
    return operator.attrgetter("a")(O()), operator.itemgetter(1, 0)([5, 6]), operator.methodcaller("upper")("a"), operator.eq(1, 1), operator.not_(0), operator.contains([1], 1), operator.is_(None, None), operator.or_(1, 2)


def paths():
    p = Path("/a/b/c.txt")
    return os.path.join("a", "b"), osp.basename("/x/y.ama"), osp.dirname("/x/y"), osp.splitext("a.b"), os.path.normpath("/a/../b"), os.sep, osp.split("/a/b"), osp.isabs("/a"), osp.relpath("/a/b", "/a"), osp.commonprefix(["ab", "ac"]), p.name, p.stem, p.suffix, str(p.parent), str(Path("a") / "b"), p.parts, os.path.commonpath(["/a/b", "/a/c"]), p.with_suffix(".x").name


def isinst():
    return isinstance(1, int), isinstance(True, int), isinstance([], list), isinstance({}, (list, dict)), type(1) is int, type("") == str, isinstance(None, type(None)), issubclass(bool, int), callable(len), isinstance(lambda: 1, Callable), isinstance([], Iterable), isinstance({}, Mapping), type([]).__name__, int("7"), float("1.5"), int(3.9), bool([]), str(True), list((1, 2)), tuple([1]), dict(a=1), set([1]), isinstance(1.0, float), isinstance(b"", bytes), id(None) == id(None), hash("a") == hash("a"), len("ab"), repr(1.0), int("ff", 16), complex(1, 2).real, slice(1, 2).start, type(print).__name__ is not None


def decorators():
    reg = {}
    def register(name):
        def d(fn):
            reg[name] = fn
            return fn
        return d
    @register("a")
    def fa(x): return x + 1
    class H:
        tab = {}
        @register("m")
        def m(self): return 7
    def cls_deco(c):
        c.extra = 9
        return c
    @cls_deco
    class Q: pass
    @singledispatch
    def sd(x): return "o"
    @sd.register
    def _(x: int): return "i"
    @sd.register(str)
    def _(x): return "s"
    return reg["a"](1), reg["m"](None), Q.extra, sorted(reg), sd(1), sd("a"), sd(2.0)


def dispatch_tables():
    class V:
        def a(self, x): return ("a", x)
        def b(self, x): return ("b", x)
        T = {"a": a, "b": b}
        def go(self, k, x): return self.T[k](self, x)
        def go2(self, k, x): return {"a": self.a, "b": self.b}[k](x)
    v = V()
    return v.go("a", 1), v.go2("b", 2), [f(v, 1) for f in (V.a, V.b)], (lambda f: f(3))(v.a), dict(x=v.a)["x"](1)


def metaclass():
    class Meta(type):
        def __new__(m, n, b, d):
            c = super().__new__(m, n, b, d)
            c.tag = n
            return c
    class A(metaclass=Meta): pass
    return A.tag


def descriptors():
    class Des:
        def __set_name__(self, o, n): self.n = "_" + n
        def __get__(self, o, t=None): return getattr(o, self.n, 0)
        def __set__(self, o, v): setattr(o, self.n, v + 1)
    class C:
        f = Des()
    c = C()
    c.f = 4
    return c.f, c._f


def iter_protocol():
    class R:
        def __init__(self, n): self.n = n; self.i = 0
        def __iter__(self): return self
        def __next__(self):
            if self.i >= self.n: raise StopIteration
            self.i += 1
            return self.i
    class G:
        def __init__(self, xs): self.xs = xs
        def __iter__(self):
            for x in self.xs: yield x
        def __reversed__(self): return reversed(self.xs)
        def __bool__(self): return False
    it = iter([1, 2, 3])
    h = next(it)
    rest = list(it)
    a, b = R(2)
    return list(R(3)), [x for x in G([1, 2])], h, rest, a, b, sum(R(3)), 2 in R(3), list(reversed(G([1, 2]))), 1 if G([1]) else 0, list(iter(lambda l=[1, 0]: l.pop(0), 0)), dict(zip(R(2), "ab")), max(R(3)), "".join(G(["a"])), tuple(R(2)), set(R(2)), [*R(2)], list(map(str, R(2)))


def recursion():
    def walk(n):
        if isinstance(n, list):
            for x in n: yield from walk(x)
        else: yield n
    def depth(n): return 1 + max(map(depth, n), default=0) if isinstance(n, list) else 0
    return list(walk([1, [2, [3]]])), depth([[], [[]]])


def simple_ns():
    n = types.SimpleNamespace(a=1, b=2)
    n.c = 3
    t = types.MappingProxyType({"a": 1})
    return n.a + n.c, t["a"]


def stack_machine():
    class Stack(list):
        def peek(self): return self[-1]
        def push(self, x): self.append(x)
    class D(dict):
        def __missing__(self, k): return k * 2
    class St(str):
        def shout(self): return self.upper() + "!"
    s = Stack(); s.push(1); s.push(2)
    d = D(a=1)
    return s.peek(), len(s), list(s), d["a"], d["zz"], s[0], isinstance(s, list), St("a").shout(), s == [1, 2], bool(Stack()), dict(d)


def total_order():
    @total_ordering
    class V:
        def __init__(self, n): self.n = n
        def __eq__(self, o): return self.n == o.n
        def __lt__(self, o): return self.n < o.n
    return V(1) <= V(2), V(3) > V(2), V(1) >= V(2)


def misc():
    x = [1, 2, 3]
    print("hi", end="")
    return (*x,), {*x}, x[slice(1, None)], sum(map(len, ["a", "bc"])), math.floor(2.5), math.inf > 1, sys.maxsize > 0, zip.__name__, [i for i, _ in enumerate(x)], list(zip(*[(1, 2), (3, 4)])), "".join(sorted("ba")), f"{x[0]}{x[1:]}", f"{{}}", not any(x > 3 for x in x), all(isinstance(i, int) for i in x), (lambda: (yield))() is not None, list(zip("ab", "c", strict=False)), __name__ is not None, [i for i in x if i > 1 if i < 3], print, x is x and True


def type_stmt():
    def f(x: int) -> str:
        """doc"""
        return str(x)
    return f.__doc__, f.__name__, f.__annotations__ is not None


def local_import():
    import os.path
    from collections import deque as dq
    import itertools as it
    return os.path.join("a", "b"), list(dq([1])), list(it.chain([1], [2]))


def async_free():
    def gen():
        got = yield 1
        yield got
    g = gen()
    next(g)
    v = g.send(5)
    g.close()
    return v


def property_deleter():
    class C:
        def __init__(self): self._v = 1
        v = property(lambda self: self._v, lambda self, x: setattr(self, "_v", x))
    c = C(); c.v = 6
    return c.v


def ann_class():
    class A:
        x: int
        y: int = 3
        def __init__(self, x): self.x = x
        def replace(self, **kw):
            n = A(self.x)
            for k, v in kw.items(): setattr(n, k, v)
            return n
    return A(1).replace(x=5, y=9).y, list(A.__annotations__), A(2).y
