"""What the abstract interpreter knows about the standard library: pure functions on constants, containers, decorators."""
from __future__ import annotations
import ast
import collections as _co
import copy as _copy
import functools as _ft
import io as _io
import itertools as _it
import operator as _op
import posixpath
import string as _string
import types as _types
import bisect, collections.abc, decimal, difflib, fractions, heapq, json, keyword, math, pathlib, re, statistics, struct, textwrap, unicodedata  # noqa: E401

from .interp import (
    Sym, Obj, ClassV, EnumM, FuncV, BoundV, NativeV, StaticV, ClassMethodV, PropertyV, Ext, UnionTy, IterV, HostV, FieldSpec,
    is_const, term_of, PyRaise, AnalysisError, MISSING, IOV, TypeConst, Binder, PYTYPES, EXC_NAMES, Env, DictView,
)

# modules whose functions compute a value from their arguments and nothing else
HOST_MODULES = {
    "re": re, "math": math, "string": _string, "textwrap": textwrap, "struct": struct, "keyword": keyword, "bisect": bisect,
    "heapq": heapq, "unicodedata": unicodedata, "itertools": _it, "json": json, "decimal": decimal, "fractions": fractions,
    "statistics": statistics, "difflib": difflib, "operator": _op, "types": _types, "collections": _co, "functools": _ft,
}
PURE = {"re", "math", "string", "textwrap", "struct", "keyword", "bisect", "heapq", "unicodedata", "itertools", "json", "decimal", "fractions",
        "statistics", "difflib"}
TYPES = {"SimpleNamespace", "MappingProxyType"}
COLL = {"defaultdict", "OrderedDict", "Counter", "deque", "ChainMap"}
PATHS = {"join", "split", "dirname", "basename", "splitext", "normpath", "isabs", "commonprefix", "commonpath", "normcase", "splitdrive"}
NOT_PURE = {"json.load", "json.dump", "re.template"}
_cache = {}


def host_of(name):
    """the host object behind a dotted library name when it is pure, MISSING otherwise"""
    r = _cache.get(name)
    if r is None:
        r = _cache[name] = _host_of(name)
    return r


def _host_of(name):
    mod, _, rest = name.partition(".")
    if name.startswith("os.path.") and name[8:] in PATHS:
        return getattr(posixpath, name[8:])
    if mod == "pathlib" and rest in ("Path", "PurePath", "PurePosixPath", "PosixPath"):
        return pathlib.PurePosixPath
    if mod == "pathlib" and rest.split(".")[0] in ("Path", "PurePath") and rest.count(".") == 1 and rest.split(".")[1] not in ("cwd", "home"):
        return getattr(pathlib.PurePosixPath, rest.split(".")[1], MISSING)
    if mod == "types" and rest in TYPES or mod == "collections" and rest in COLL:
        return getattr(HOST_MODULES[mod], rest)
    if mod == "io" and rest in ("SEEK_SET", "SEEK_CUR", "SEEK_END", "DEFAULT_BUFFER_SIZE", "UnsupportedOperation"):
        return getattr(_io, rest)
    if mod not in PURE or name in NOT_PURE or not rest:
        return MISSING
    h = HOST_MODULES[mod]
    for part in rest.split("."):
        h = getattr(h, part, MISSING)
        if h is MISSING:
            return MISSING
    return MISSING if isinstance(h, _types.ModuleType) else h


def host_choice(ip, n, a, k):
    """what the host chooses anew on every run (clock, random numbers, process): a value of its own for each choice"""
    c = ip.choice
    mod, _, f = n.partition(".")
    if mod in ("random", "secrets") and ip.rng is not None:
        h = getattr(ip.rng, {"randbelow": "randrange", "token_hex": "random", "token_bytes": "random", "token_urlsafe": "random", "SystemRandom": "random"}.get(f, f), MISSING)
        if h is MISSING or not callable(h) or any(isinstance(x, Sym) for x in a):
            return MISSING
        a = [list(ip.iter_(x)) if isinstance(x, (IterV, DictView, set, frozenset)) and f in ("choice", "sample", "choices") else x for x in a]
        return str(h()) if f.startswith("token_") else ip.native(h, *a, **k)
    if mod == "time" and f in ("time", "monotonic", "perf_counter", "process_time", "thread_time"):
        return 1700000000.5 + 7919.25 * c
    if mod == "time" and f in ("time_ns", "monotonic_ns", "perf_counter_ns", "process_time_ns"):
        return 1700000000500000000 + 7919250000007 * c
    if n in ("time.ctime", "time.asctime", "time.strftime") or mod == "uuid":
        return f"{n} {c}"
    if n in ("os.getpid", "os.getppid", "threading.get_ident", "threading.get_native_id", "os.path.getmtime", "os.path.getctime", "os.path.getatime"):
        return 4711 + c
    if n == "os.urandom":
        return bytes([65 + c] * a[0])
    if n in ("tempfile.mktemp", "tempfile.mkdtemp", "tempfile.gettempdir"):
        return f"/tmp/{c}"
    if n in ("datetime.datetime.now", "datetime.datetime.utcnow", "datetime.datetime.today", "datetime.date.today"):
        import datetime
        t = datetime.datetime(2024, 1, 1 + c, 3, 4, 5 + c, 6 + c)
        return HostV(t if "date.today" not in n.replace("datetime.datetime", "") else t.date())
    return MISSING


LIB = {}
# decorators that leave what they decorate as it is
PASS = {"abc.abstractmethod", "typing.overload", "typing.final", "typing.override", "typing_extensions.override", "typing.no_type_check",
        "typing.runtime_checkable", "enum.unique", "typing.runtime", "functools.total_ordering", "typing_extensions.final", "enum.member",
        "typing.dataclass_transform", "types.coroutine", "warnings.deprecated", "typing_extensions.deprecated", "atexit.register"}


def lib(*names):
    def d(fn):
        for n in names:
            LIB[n] = fn
        return fn
    return d


for _n in PASS:
    LIB[_n] = lambda ip, a, k: a[0] if a else None


# ------------------------------------------------------------------ typing, enum
@lib("typing.cast")
def _(ip, a, k):
    return a[1]


@lib("typing.TypeVar", "typing.ParamSpec", "typing.TypeVarTuple", "typing.ForwardRef", "typing.TypedDict")
def _(ip, a, k):
    return Ext("typing.Any")


@lib("typing.NewType")
def _(ip, a, k):
    return NativeV(a[0], lambda x, kk: x[0])


@lib("typing.assert_never")
def _(ip, a, k):
    ip.raise_py("AssertionError", f"Expected code to be unreachable, but got: {ip.to_repr(a[0])}")


@lib("typing.assert_type", "typing.reveal_type")
def _(ip, a, k):
    return a[0]


@lib("typing.get_type_hints", "typing.get_args", "inspect.get_annotations")
def _(ip, a, k):
    v = a[0]
    if isinstance(v, UnionTy):
        return tuple(v.items)
    return ip.getattr(v, "__annotations__", {})


@lib("enum.auto")
def _(ip, a, k):
    return Ext("enum.auto()")


@lib("enum.nonmember", "enum.property", "types.DynamicClassAttribute")
def _(ip, a, k):
    return PropertyV(a[0]) if isinstance(a[0], FuncV) else a[0]


def _module(ip):
    return ip.stack[-1].module if ip.stack else next(iter(ip.modules.values()), None)


def enum_of(ip, base, a, k):
    name, members = a[0], a[1] if len(a) > 1 else k["names"]
    cls = ClassV(name, name, [base], {}, _module(ip), None)
    cls.dc_eq = cls.dc_init = False
    cls.is_enum = True
    if isinstance(members, str):
        members = members.replace(",", " ").split()
    if isinstance(members, dict):
        members = list(members.items())
    for i, m in enumerate(ip.iterate(members)):
        n, v = m if isinstance(m, tuple) else (m, k.get("start", 1) + i)
        cls.enum_members[n] = cls.ns[n] = EnumM(cls, n, v)
    cls.done = True
    return cls


for _n in ("Enum", "IntEnum", "StrEnum", "Flag", "IntFlag"):
    LIB["enum." + _n] = lambda ip, a, k, b=Ext("enum." + _n): enum_of(ip, b, a, k)


@lib("collections.namedtuple", "typing.NamedTuple")
def _(ip, a, k):
    name, fields = a[0], a[1] if len(a) > 1 else k.get("field_names", [])
    if isinstance(fields, str):
        fields = fields.replace(",", " ").split()
    fields = [x[0] if isinstance(x, tuple) else x for x in ip.iterate(fields)]
    cls = ClassV(name, name, [Ext("tuple")], {}, _module(ip), None)
    cls.dc_eq = cls.dc_init = False
    cls.nt = fields
    d = ip.iterate(k["defaults"]) if k.get("defaults") is not None else []
    cls.nt_defaults = dict(zip(fields[len(fields) - len(d):], d))
    cls.done = True
    return cls


@lib("types.new_class")
def _(ip, a, k):
    ns = {}
    cls = ip.meta_new([None, a[0], tuple(a[1]) if len(a) > 1 else (), ns])
    if len(a) > 3:
        ip.call(a[3], [cls.ns], {})
    return cls


# ------------------------------------------------------------------ io, copy
@lib("io.StringIO")
def _(ip, a, k):
    return IOV(False, a or ([k["initial_value"]] if k.get("initial_value") else []))


@lib("io.BytesIO")
def _(ip, a, k):
    return IOV(True, a or ([k["initial_bytes"]] if k.get("initial_bytes") else []))


@lib("copy.copy")
def _(ip, a, k):
    return ip.copy_val(a[0], False, {})


@lib("copy.deepcopy")
def _(ip, a, k):
    return ip.copy_val(a[0], True, {})


# ------------------------------------------------------------------ dataclasses
@lib("dataclasses.field")
def _(ip, a, k):
    return FieldSpec(k.get("default"), k.get("default_factory"), "default" in k, **{n: v for n, v in k.items() if n in ("init", "repr", "compare", "kw_only")})


@lib("dataclasses.dataclass")
def _(ip, a, k):
    if a and isinstance(a[0], ClassV):
        return ip.make_dataclass(a[0], k)
    return NativeV("dataclass", lambda x, kk: ip.make_dataclass(x[0], k))


@lib("dataclasses.is_dataclass")
def _(ip, a, k):
    c = a[0] if isinstance(a[0], ClassV) else getattr(a[0], "cls", None)
    return isinstance(c, ClassV) and any(isinstance(x, ClassV) and x.dataclass for x in c.mro())


@lib("dataclasses.fields")
def _(ip, a, k):
    return tuple(ip.dc_fields_of(a[0] if isinstance(a[0], ClassV) else a[0].cls).values())


@lib("dataclasses.replace", "copy.replace")
def _(ip, a, k):
    o = a[0]
    vals = {n: ip.getattr(o, n) for n, sp in ip.dc_field_names(o.cls).items() if sp.init}
    vals.update(k)
    return ip.instantiate(o.cls, [], vals)


def _asdict(ip, v, tup):
    if isinstance(v, Obj) and v.cls is not None and ip.dc_field_names(v.cls):
        fs = [(n, _asdict(ip, ip.getattr(v, n), tup)) for n in ip.dc_field_names(v.cls)]
        return tuple(x for _, x in fs) if tup else dict(fs)
    if isinstance(v, (list, tuple)):
        return type(v)(_asdict(ip, x, tup) for x in v)
    if isinstance(v, dict):
        return {kk: _asdict(ip, x, tup) for kk, x in v.items()}
    return ip.copy_val(v, True, {})


LIB["dataclasses.asdict"] = lambda ip, a, k: _asdict(ip, a[0], False)
LIB["dataclasses.astuple"] = lambda ip, a, k: _asdict(ip, a[0], True)


# ------------------------------------------------------------------ functools
class MemoFunc(Binder):
    """functools.lru_cache / cache: the memo lives as long as the path"""

    def __init__(self, ip, fn):
        self.fn = fn
        self.memo = {}
        ip.memos.append(self.memo)

    def call(self, ip, args, kw):
        key = (tuple(args), tuple(sorted(kw.items())))
        try:
            return self.memo[key]
        except KeyError:
            pass
        except TypeError as e:
            raise PyRaise(e, crash=True, where=ip.loc)
        r = self.memo[key] = ip.call(self.fn, args, kw)
        return r

    def attr(self, ip, name):
        if name == "cache_clear":
            return NativeV(name, lambda a, k: self.memo.clear())
        if name == "cache_info":
            return NativeV(name, lambda a, k: None)
        if name == "__wrapped__":
            return self.fn
        return ip.getattr(self.fn, name)


@lib("functools.lru_cache", "functools.cache")
def _(ip, a, k):
    if a and isinstance(a[0], (FuncV, NativeV, BoundV, StaticV, ClassMethodV, Binder)):
        return MemoFunc(ip, a[0])
    return NativeV("lru_cache", lambda x, kk: MemoFunc(ip, x[0]))


class CachedProp(Binder):
    def __init__(self, fn):
        self.fn = fn

    def bind(self, ip, self_v, name):
        if name in self_v.attrs:
            return self_v.attrs[name]
        r = self_v.attrs[name] = ip.call(self.fn, [self_v], {})
        return r


LIB["functools.cached_property"] = lambda ip, a, k: CachedProp(a[0])


class SingleDispatch(Binder):
    def __init__(self, fn, method=False):
        self.fn = fn
        self.method = method
        self.table = []

    def call(self, ip, args, kw):
        v = args[1 if self.method else 0]
        best = None
        for t, f in self.table:
            if ip.isinstance_(v, t) and (best is None or ip.issubclass_(t, best[0])):
                best = (t, f)
        return ip.call(best[1] if best else self.fn, args, kw)

    def attr(self, ip, name):
        if name == "register":
            def register(a, k):
                if len(a) == 2:
                    self.table.append((a[0], a[1]))
                    return a[1]
                if isinstance(a[0], FuncV):
                    ps = a[0].node.args.posonlyargs + a[0].node.args.args
                    ann = ps[1 if self.method else 0].annotation
                    t = ip.eval(ast.parse(ann.value, mode="eval").body if isinstance(ann, ast.Constant) else ann, a[0].env)
                    for x in t.items if isinstance(t, UnionTy) else [t]:
                        self.table.append((x, a[0]))
                    return a[0]
                return NativeV("register", lambda x, kk: (self.table.append((a[0], x[0])), x[0])[1])
            return NativeV(name, register)
        if name == "dispatch":
            return NativeV(name, lambda a, k: next((f for t, f in reversed(self.table) if ip.issubclass_(a[0], t)), self.fn))
        return ip.getattr(self.fn, name)


LIB["functools.singledispatch"] = lambda ip, a, k: SingleDispatch(a[0])
LIB["functools.singledispatchmethod"] = lambda ip, a, k: SingleDispatch(a[0], True)


class PartialV(Binder):
    def __init__(self, fn, args, kw, method=False):
        self.fn, self.args, self.kw, self.method = fn, args, kw, method

    def bind(self, ip, self_v, name):
        return PartialV(self.fn, [self_v] + self.args, self.kw) if self.method else self

    def call(self, ip, args, kw):
        return ip.call(self.fn, list(self.args) + list(args), {**self.kw, **kw})

    def attr(self, ip, name):
        if name == "func":
            return self.fn
        if name == "args":
            return tuple(self.args)
        if name == "keywords":
            return self.kw
        ip.raise_py("AttributeError", name)


LIB["functools.partial"] = lambda ip, a, k: PartialV(a[0], a[1:], k)
LIB["functools.partialmethod"] = lambda ip, a, k: PartialV(a[0], a[1:], k, True)


def _wrap(ip, w, f):
    if isinstance(w, (FuncV, NativeV)):
        for n in ("__name__", "__qualname__", "__doc__", "__module__"):
            w.attrs[n] = ip.getattr(f, n, None)
        w.attrs["__wrapped__"] = f
        if isinstance(f, FuncV):
            for n, x in f.attrs.items():
                w.attrs.setdefault(n, x)
    return w


LIB["functools.wraps"] = lambda ip, a, k: NativeV("wraps", lambda x, kk: _wrap(ip, x[0], a[0]))
LIB["functools.update_wrapper"] = lambda ip, a, k: _wrap(ip, a[0], a[1])


@lib("functools.reduce")
def _(ip, a, k):
    it = ip.iter_(a[1])
    if len(a) > 2:
        acc = a[2]
    else:
        acc = next(it, MISSING)
        if acc is MISSING:
            ip.raise_py("TypeError", "reduce() of empty iterable with no initial value")
    for x in it:
        acc = ip.call(a[0], [acc, x], {})
    return acc


@lib("functools.cmp_to_key")
def _(ip, a, k):
    def r(x):
        return ip.call(a[0], x, {})
    return NativeV("K", lambda x, kk: HostV(_ft.cmp_to_key(lambda p, q: r([p, q]))(x[0])))


# ------------------------------------------------------------------ itertools: predicates decide by abstract truth
def _pred(ip, p):
    return (lambda x: ip.truth(x)) if p is None else lambda x: ip.truth(ip.call(p, [x], {}))


for _n in ("takewhile", "dropwhile", "filterfalse"):
    LIB["itertools." + _n] = lambda ip, a, k, h=getattr(_it, _n): IterV(h(_pred(ip, a[0]), ip.iter_(a[1])))
for _n in ("chain", "product", "zip_longest", "pairwise", "combinations", "permutations", "combinations_with_replacement", "islice", "cycle", "tee", "batched"):
    def _mk(h):
        def f(ip, a, k):
            a = [x if is_const(x) and not isinstance(x, (str, bytes, tuple)) else x if isinstance(x, int) else ip.iter_(x) for x in a]
            r = ip.native(h, *a, **{n: x for n, x in k.items()})
            return tuple(IterV(x) for x in r) if h is _it.tee else IterV(ip.guard(r))
        return f
    if hasattr(_it, _n):
        LIB["itertools." + _n] = _mk(getattr(_it, _n))
LIB["itertools.chain.from_iterable"] = lambda ip, a, k: IterV(y for x in ip.iter_(a[0]) for y in ip.iter_(x))
LIB["itertools.compress"] = lambda ip, a, k: IterV(x for x, s in zip(ip.iter_(a[0]), ip.iter_(a[1])) if ip.truth(s))
LIB["itertools.starmap"] = lambda ip, a, k: IterV(ip.call(a[0], ip.iterate(t), {}) for t in ip.iter_(a[1]))
LIB["itertools.count"] = lambda ip, a, k: IterV(_it.count(*a, **k))


@lib("itertools.accumulate")
def _(ip, a, k):
    f = a[1] if len(a) > 1 else k.get("func")
    op = (lambda x, y: ip.binop(ast.Add, x, y)) if f is None else lambda x, y: ip.call(f, [x, y], {})
    return IterV(_it.accumulate(ip.iter_(a[0]), op, **({"initial": k["initial"]} if "initial" in k else {})))


@lib("itertools.groupby")
def _(ip, a, k):
    key = a[1] if len(a) > 1 else k.get("key")

    def gen():
        it = ip.iter_(a[0])
        cur = []
        ck = MISSING
        for x in it:
            kx = x if key is None else ip.call(key, [x], {})
            if ck is not MISSING and ip.eq(ck, kx):
                cur.append(x)
                continue
            if ck is not MISSING:
                yield (ck, IterV(cur))
            ck, cur = kx, [x]
        if ck is not MISSING:
            yield (ck, IterV(cur))
    return IterV(gen())


# ------------------------------------------------------------------ collections
@lib("collections.defaultdict")
def _(ip, a, k):
    f = a[0] if a else None
    d = _co.defaultdict(None if f is None else (lambda: ip.call(f, [], {})))
    if len(a) > 1:
        ip.dict_update(d, a[1])
    d.update(k)
    return d


@lib("collections.OrderedDict")
def _(ip, a, k):
    d = _co.OrderedDict()
    if a:
        ip.dict_update(d, a[0])
    d.update(k)
    return d


@lib("collections.Counter")
def _(ip, a, k):
    d = _co.Counter()
    if a and a[0] is not None:
        if isinstance(a[0], dict):
            d.update(a[0])
        else:
            for x in ip.iter_(a[0]):
                d[x] += 1
    d.update(k)
    return d


@lib("collections.deque")
def _(ip, a, k):
    return _co.deque(ip.iter_(a[0]) if a else (), *a[1:], **{n: v for n, v in k.items() if n == "maxlen"})


LIB["collections.ChainMap"] = lambda ip, a, k: _co.ChainMap(*a)
for _n in ("weakref.WeakKeyDictionary", "weakref.WeakValueDictionary"):
    LIB[_n] = lambda ip, a, k: {}
LIB["weakref.WeakSet"] = lambda ip, a, k: set()
LIB["weakref.ref"] = lambda ip, a, k: NativeV("ref", lambda x, kk: a[0])
LIB["weakref.proxy"] = lambda ip, a, k: a[0]
for _n, _t in (("typing.List", "list"), ("typing.Dict", "dict"), ("typing.Set", "set"), ("typing.Tuple", "tuple"), ("typing.FrozenSet", "frozenset")):
    LIB[_n] = lambda ip, a, k, t=_t: ip.builtins[t].fn(a, k)
LIB["typing.DefaultDict"] = LIB["collections.defaultdict"]
LIB["typing.Deque"] = LIB["collections.deque"]

# ------------------------------------------------------------------ operator
from .interp_data import BINOPS, CMPOPS, DUNDER  # noqa: E402
for _o, (_s, _f) in BINOPS.items():
    for _n in (_f.__name__, DUNDER[_s], f"__{DUNDER[_s]}__"):
        LIB["operator." + _n] = lambda ip, a, k, o=_o: ip.binop(o, a[0], a[1])
    LIB["operator.i" + DUNDER[_s]] = lambda ip, a, k, o=_o: ip.aug_op(o, a[0], a[1])
for _o, (_s, _f) in CMPOPS.items():
    LIB["operator." + DUNDER[_s]] = lambda ip, a, k, o=_o: ip.compare(o, a[0], a[1])
LIB.update({
    "operator.eq": lambda ip, a, k: ip.eq(a[0], a[1]), "operator.ne": lambda ip, a, k: ip.ne(a[0], a[1]),
    "operator.is_": lambda ip, a, k: ip.is_(a[0], a[1]), "operator.is_not": lambda ip, a, k: not ip.is_(a[0], a[1]),
    "operator.not_": lambda ip, a, k: not ip.truth(a[0]), "operator.truth": lambda ip, a, k: ip.truth(a[0]),
    "operator.contains": lambda ip, a, k: ip.contains(a[0], a[1]), "operator.getitem": lambda ip, a, k: ip.getitem(a[0], a[1]),
    "operator.setitem": lambda ip, a, k: ip.setitem(*a), "operator.delitem": lambda ip, a, k: ip.delitem(*a),
    "operator.concat": lambda ip, a, k: ip.binop(ast.Add, a[0], a[1]),
    "operator.length_hint": lambda ip, a, k: ip.builtin_len(a[0]), "operator.index": lambda ip, a, k: ip._index(a[0]),
    "operator.neg": lambda ip, a, k: ip.native(_op.neg, ip.to_host(a[0])), "operator.pos": lambda ip, a, k: a[0],
    "operator.invert": lambda ip, a, k: ip.native(_op.invert, ip.to_host(a[0])), "operator.abs": lambda ip, a, k: ip.builtins["abs"].fn(a, k),
    "operator.countOf": lambda ip, a, k: sum(1 for x in ip.iter_(a[0]) if ip.eq(x, a[1])),
    "operator.indexOf": lambda ip, a, k: ip.call_method(ip.iterate(a[0]), "index", [a[1]]),
})


def _many(get):
    def f(ip, a, k):
        fs = [(lambda o, n=n: get(ip, o, n)) for n in a]
        return NativeV("getter", lambda x, kk: fs[0](x[0]) if len(fs) == 1 else tuple(g(x[0]) for g in fs))
    return f


def _path(ip, o, n):
    for p in n.split("."):
        o = ip.getattr(o, p)
    return o


LIB["operator.attrgetter"] = _many(_path)
LIB["operator.itemgetter"] = _many(lambda ip, o, n: ip.getitem(o, n))
LIB["operator.methodcaller"] = lambda ip, a, k: NativeV("methodcaller", lambda x, kk: ip.call_method(x[0], a[0], a[1:], k))


# ------------------------------------------------------------------ contextlib
class Ctx(Binder):
    def __init__(self, enter, leave):
        self.enter = enter
        self.leave = leave

    def attr(self, ip, name):
        if name == "__enter__":
            return NativeV(name, lambda a, k: self.enter(ip))
        if name == "__exit__":
            return NativeV(name, lambda a, k: self.leave(ip, None if a[0] is None else PyRaise(a[1])))
        ip.raise_py("AttributeError", name)


LIB["contextlib.suppress"] = lambda ip, a, k: Ctx(lambda ip: None, lambda ip, e: e is not None and ip.exc_match(e, tuple(a)))
LIB["contextlib.nullcontext"] = lambda ip, a, k: Ctx(lambda ip: (a or [k.get("enter_result")])[0], lambda ip, e: False)


@lib("contextlib.closing")
def _(ip, a, k):
    def leave(ip, e):
        ip.call_method(a[0], "close", [])
        return False
    return Ctx(lambda ip: a[0], leave)


@lib("contextlib.redirect_stdout", "contextlib.redirect_stderr")
def _(ip, a, k):
    return Ctx(lambda ip: a[0], lambda ip, e: False)


class ExitStack(Binder):
    def __init__(self):
        self.exits = []

    def enter(self, ip):
        return self

    def leave(self, ip, e):
        swallowed = False
        while self.exits:
            x = self.exits.pop()
            try:
                if x(e) and e is not None:
                    e, swallowed = None, True
            except PyRaise as n:
                if n is not e:
                    e, swallowed = n, False
                    new = n
        if e is not None and "new" in locals() and e is new:
            raise e
        return swallowed

    def attr(self, ip, name):
        def f(a, k):
            if name == "enter_context":
                v, leave = ip.ctx_enter(a[0])
                self.exits.append(leave)
                return v
            if name == "callback":
                self.exits.append(lambda e: ip.call(a[0], a[1:], k) and False)
                return a[0]
            if name == "push":
                self.exits.append(lambda e: ip.truth(ip.call(a[0], [None, None, None] if e is None else [ip.type_of(e.value), e.value, None], {})))
                return a[0]
            if name == "pop_all":
                n = ExitStack()
                n.exits, self.exits = self.exits, []
                return n
            if name == "close":
                self.leave(ip, None)
                return None
            if name == "__enter__":
                return self
            if name == "__exit__":
                return self.leave(ip, None if a[0] is None else PyRaise(a[1]))
            ip.raise_py("AttributeError", name)
        return NativeV(name, f)


LIB["contextlib.ExitStack"] = lambda ip, a, k: ExitStack()


# ------------------------------------------------------------------ os, sys and friends
@lib("os.fspath")
def _(ip, a, k):
    return str(a[0].h) if isinstance(a[0], HostV) else ip.call_method(a[0], "__fspath__", []) if isinstance(a[0], Obj) else a[0]


@lib("os.path.relpath")
def _(ip, a, k):
    a = [ip.to_host(x) for x in a]
    if all(isinstance(x, str) and x.startswith("/") for x in a) and len(a) == 2:
        return posixpath.relpath(*a)
    h = ip.hooks.get("ext:os.path.abspath")
    if h is not None and all(isinstance(x, str) for x in a):
        return posixpath.relpath(h(ip, [a[0]], {}), h(ip, [a[1] if len(a) > 1 else "."], {}))
    return Sym(("ext", "os.path.relpath") + tuple(term_of(x) for x in a), "str")


@lib("os.path.expanduser", "os.path.expandvars")
def _(ip, a, k):
    return a[0]


@lib("os.getenv", "os.environ.get")
def _(ip, a, k):
    return Sym(("env", term_of(a[0])), "str")


@lib("os.getcwd")
def _(ip, a, k):
    h = ip.hooks.get("ext:os.path.abspath")
    return h(ip, ["."], {}) if h is not None else ip.fresh("cwd", "str")


@lib("pathlib.Path.cwd")
def _(ip, a, k):
    return HostV(pathlib.PurePosixPath(LIB["os.getcwd"](ip, [], {})))


@lib("sys.intern")
def _(ip, a, k):
    return a[0]


@lib("sys.setrecursionlimit", "gc.collect", "gc.disable", "gc.enable", "warnings.warn", "warnings.simplefilter", "warnings.filterwarnings",
     "logging.debug", "logging.info", "logging.warning", "logging.error", "logging.basicConfig", "logging.getLogger.debug")
def _(ip, a, k):
    return None


LIB["sys.getrecursionlimit"] = lambda ip, a, k: 1000
LIB["sys.getsizeof"] = lambda ip, a, k: 64


@lib("sys.exc_info")
def _(ip, a, k):
    e = ip.data.get("current_exc")
    return (None, None, None) if e is None else (ip.type_of(e.value), e.value, None)


@lib("types.MethodType")
def _(ip, a, k):
    return BoundV(a[1], a[0])


@lib("types.MappingProxyType")
def _(ip, a, k):
    return a[0].copy() if False else HostV(_types.MappingProxyType(a[0]))


@lib("types.SimpleNamespace")
def _(ip, a, k):
    return HostV(_types.SimpleNamespace(**k))


for _n in ("inspect.isclass", "inspect.isfunction", "inspect.ismethod", "inspect.isgenerator"):
    LIB[_n] = lambda ip, a, k, n=_n[10:]: isinstance(a[0], {"class": (ClassV,), "function": (FuncV,), "method": (BoundV,), "generator": (IterV,)}[n])


@lib("inspect.getmembers")
def _(ip, a, k):
    out = []
    for n in ip.builtins["dir"].fn([a[0]], {}):
        v = ip.getattr(a[0], n)
        if len(a) < 2 or ip.truth(ip.call(a[1], [v], {})):
            out.append((n, v))
    return out


@lib("threading.local")
def _(ip, a, k):
    return HostV(_types.SimpleNamespace())


@lib("threading.Lock", "threading.RLock", "multiprocessing.Lock")
def _(ip, a, k):
    return Ctx(lambda ip: True, lambda ip, e: False)


for _n in ("heappush", "heapify", "heappop", "heappushpop", "heapreplace", "nlargest", "nsmallest"):
    LIB["heapq." + _n] = lambda ip, a, k, h=getattr(heapq, _n): ip.host_call(h, a, k)
for _n in ("insort", "insort_right", "insort_left"):
    LIB["bisect." + _n] = lambda ip, a, k, h=getattr(bisect, _n): ip.host_call(h, a, k)
