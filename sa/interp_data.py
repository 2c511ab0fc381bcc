"""Built-in functions, containers, iteration and operators of the abstract interpreter."""
from __future__ import annotations
import ast
import builtins as _bi
import collections as _co
import functools as _ft
import itertools as _it
import operator as _op
import string as _string

from .interp_lib import host_of
from .interp import (
    Sym, Obj, ClassV, EnumM, FuncV, BoundV, NativeV, StaticV, ClassMethodV, PropertyV, Ext, UnionTy, SuperV, IterV, HostV,
    EXC_NAMES, is_const, deep_const, term_of, PyRaise, Prune, AnalysisError, MISSING, IOV, OpenType, TypeConst, DictView,
    Binder, PYTYPES, ModuleV,
)

BINOPS = {
    ast.Add: ("+", _op.add), ast.Sub: ("-", _op.sub), ast.Mult: ("*", _op.mul),
    ast.Div: ("/", _op.truediv), ast.FloorDiv: ("//", _op.floordiv), ast.Mod: ("%", _op.mod),
    ast.Pow: ("**", _op.pow), ast.LShift: ("<<", _op.lshift), ast.RShift: (">>", _op.rshift),
    ast.BitOr: ("|", _op.or_), ast.BitAnd: ("&", _op.and_), ast.BitXor: ("^", _op.xor),
    ast.MatMult: ("@", _op.matmul),
}
CMPOPS = {
    ast.Lt: ("<", _op.lt), ast.LtE: ("<=", _op.le), ast.Gt: (">", _op.gt), ast.GtE: (">=", _op.ge),
}
DUNDER = {"+": "add", "-": "sub", "*": "mul", "/": "truediv", "//": "floordiv", "%": "mod", "**": "pow", "<<": "lshift",
          ">>": "rshift", "|": "or", "&": "and", "^": "xor", "@": "matmul", "<": "lt", "<=": "le", ">": "gt", ">=": "ge"}
NEG = {"<": ">=", ">=": "<", ">": "<=", "<=": ">"}
SWAP = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}


MISSING2 = object()
CONTAINERS = (list, tuple, dict, set, str, bytes, range, frozenset, bytearray, _co.deque)


class _Unknown(Exception):
    """a text that depends on an unknown value"""


class Shown:
    """an abstract value inside host text formatting"""

    def __init__(self, ip, v):
        self.__dict__["_ip"], self.__dict__["_v"] = ip, v

    def _s(self, r):
        if not isinstance(r, str):
            raise _Unknown()
        return r

    def __str__(self):
        return self._s(self._ip.to_str(self._v))

    def __repr__(self):
        return self._s(self._ip.to_repr(self._v))

    def __format__(self, spec):
        return self._s(self._ip.format_(self._v, spec))

    def __getattr__(self, n):
        return show(self._ip, self._ip.getattr(self._v, n))

    def __getitem__(self, i):
        return show(self._ip, self._ip.getitem(self._v, i))

    def __index__(self):
        if isinstance(self._v, EnumM):
            return self._v.value
        raise TypeError("not an integer")

    __int__ = __index__


def show(ip, v):
    return v if is_const(v) else Shown(ip, v)


class DataOps:
    # ------------------------------------------------------------ builtins
    def _make_builtins(self):
        b = {}

        def reg(name):
            def deco(fn):
                b[name] = NativeV(name, fn)
                return fn
            return deco

        S = self

        @reg("len")
        def _(a, k):
            return S.builtin_len(a[0])

        @reg("isinstance")
        def _(a, k):
            return S.isinstance_(a[0], a[1])

        @reg("issubclass")
        def _(a, k):
            return S.issubclass_(a[0], a[1])

        @reg("type")
        def _(a, k):
            if len(a) == 3:
                return S.meta_new([None] + list(a))
            return S.type_of(a[0])

        @reg("super")
        def _(a, k):
            return SuperV(a[0], a[1])

        @reg("getattr")
        def _(a, k):
            nm = a[1]
            if isinstance(nm, Sym):
                return Sym(("getattr", term_of(a[0]), nm.term))
            return S.getattr(a[0], nm.native if isinstance(nm, Obj) else nm, *a[2:3])

        @reg("setattr")
        def _(a, k):
            if isinstance(a[1], Sym):
                S.emit("setattr", target=a[0], name=a[1], value=a[2])
                return
            S.setattr(a[0], a[1], a[2])

        @reg("delattr")
        def _(a, k):
            S.delattr(a[0], a[1])

        @reg("hasattr")
        def _(a, k):
            return S.getattr(a[0], a[1], MISSING2) is not MISSING2

        @reg("print")
        def _(a, k):
            f = k.get("file")
            if isinstance(f, (IOV, Obj)):
                xs = [S.to_str(x) for x in a]
                t = k.get("sep") or " "
                e = k.get("end", "\n")
                S.call_method(f, "write", [t.join(xs) + ("\n" if e is None else e) if all(isinstance(x, str) for x in xs) else S.fresh("text", "str")])
                return
            S.emit("ext", name="print", args=a, kwargs=k)

        @reg("id")
        def _(a, k):
            return id(a[0]) if not S.choice else (1 << 62) - id(a[0]) if S.choice == 1 else id(a[0]) ^ 0x5AF0

        @reg("hash")
        def _(a, k):
            if isinstance(a[0], Sym):
                return Sym(("hash", a[0].term), "int")
            return S.hash_of(a[0])

        @reg("repr")
        def _(a, k):
            return S.to_repr(a[0])

        @reg("ascii")
        def _(a, k):
            r = S.to_repr(a[0])
            return r.encode("ascii", "backslashreplace").decode() if isinstance(r, str) else r

        @reg("str")
        def _(a, k):
            if len(a) > 1 or k and a:
                return S.call_method(a[0], "decode", a[1:], k)
            return S.to_str(a[0]) if a else ""

        @reg("int")
        def _(a, k):
            if not a:
                return 0
            x = a[0]
            if isinstance(x, EnumM):
                return x.value
            if isinstance(x, Obj):
                for m in ("__int__", "__index__", "__trunc__"):
                    f = x.cls.lookup(m)[0] if x.cls is not None else None
                    if f is not None:
                        return S.call(BoundV(x, f), [], {})
                if x.native is not None:
                    x = x.native
            if isinstance(x, HostV):
                return S.native(int, x.h)
            if all(is_const(y) for y in a[1:]) and (is_const(x) or isinstance(x, bytearray)):
                return S.native(int, x, *a[1:], **k)
            if isinstance(x, Sym):
                return Sym(("int",) + tuple(term_of(y) for y in a), "int")
            S.raise_py("TypeError", "int() argument must be a string, a bytes-like object or a real number")

        @reg("float")
        def _(a, k):
            if not a:
                return 0.0
            x = a[0]
            if isinstance(x, Obj) and x.cls is not None and x.cls.lookup("__float__")[0] is not None:
                return S.call_method(x, "__float__", [])
            x = x.h if isinstance(x, HostV) else x.value if isinstance(x, EnumM) else x.native if isinstance(x, Obj) else x
            if is_const(x):
                return S.native(float, x)
            return Sym(("float", term_of(a[0])), "float")

        @reg("complex")
        def _(a, k):
            return S.native(complex, *a, **k)

        @reg("bool")
        def _(a, k):
            return S.truth(a[0]) if a else False

        def mkbytes(cls):
            def f(a, k):
                if not a:
                    return cls()
                x = a[0]
                if isinstance(x, Sym):
                    return Sym(("bytes", term_of(x)), "bytes")
                if isinstance(x, str):
                    return S.native(cls, x, *a[1:], **k)
                if isinstance(x, (int, bytes, bytearray)):
                    return S.native(cls, x)
                if isinstance(x, Obj) and x.cls.lookup("__bytes__")[0] is not None:
                    return S.call_method(x, "__bytes__", [])
                xs = [y.value if isinstance(y, EnumM) else y for y in S.iterate(x)]
                if not any(isinstance(y, Sym) for y in xs):
                    return S.native(cls, xs)
                return Sym(("bytes",) + tuple(term_of(y) for y in xs), "bytes", {"items": xs})
            return f
        b["bytes"] = NativeV("bytes", mkbytes(bytes))
        b["bytearray"] = NativeV("bytearray", mkbytes(bytearray))
        b["memoryview"] = NativeV("memoryview", lambda a, k: bytes(a[0]) if isinstance(a[0], (bytes, bytearray)) else a[0])

        @reg("list")
        def _(a, k):
            return list(S.iterate(a[0])) if a else []

        @reg("tuple")
        def _(a, k):
            return tuple(S.iterate(a[0])) if a else ()

        @reg("set")
        def _(a, k):
            return S.mkset(S.iter_(a[0])) if a else set()

        @reg("frozenset")
        def _(a, k):
            return frozenset(S.mkset(S.iter_(a[0]))) if a else frozenset()

        @reg("dict")
        def _(a, k):
            d = {}
            if a:
                S.dict_update(d, a[0])
            d.update(k)
            return d

        @reg("range")
        def _(a, k):
            a = [x.value if isinstance(x, EnumM) and S._enum_int(x) else x for x in a]
            if not any(isinstance(x, Sym) for x in a):
                return S.native(range, *a)
            return Sym(("range",) + tuple(term_of(x) for x in a), "range")

        @reg("enumerate")
        def _(a, k):
            st = a[1] if len(a) > 1 else k.get("start", 0)
            if not isinstance(st, int):
                return IterV((S.fresh("int"), x) for x in S.iter_(a[0]))
            return IterV(enumerate(S.iter_(a[0]), st))

        @reg("zip")
        def _(a, k):
            its = [S.iter_(x) for x in a]
            if k.get("strict"):
                return IterV(S.guard(zip(*its, strict=True)))
            return IterV(zip(*its))

        @reg("map")
        def _(a, k):
            f = a[0]
            if len(a) == 2:
                return IterV(S.call(f, [x], {}) for x in S.iter_(a[1]))
            return IterV(S.call(f, list(t), {}) for t in zip(*[S.iter_(x) for x in a[1:]]))

        @reg("filter")
        def _(a, k):
            f = a[0]
            return IterV(x for x in S.iter_(a[1]) if S.truth(x if f is None else S.call(f, [x], {})))

        @reg("any")
        def _(a, k):
            for x in S.iter_(a[0]):
                if S.truth(x):
                    return True
            return False

        @reg("all")
        def _(a, k):
            for x in S.iter_(a[0]):
                if not S.truth(x):
                    return False
            return True

        @reg("sum")
        def _(a, k):
            acc = a[1] if len(a) > 1 else k.get("start", 0)
            for x in S.iter_(a[0]):
                acc = S.binop(ast.Add, acc, x)
            return acc

        @reg("reversed")
        def _(a, k):
            v = a[0]
            if isinstance(v, Obj):
                f = v.cls.lookup("__reversed__")[0]
                if f is not None:
                    return S.call(BoundV(v, f), [], {})
                v = v.native if v.native is not None else v
                if isinstance(v, Obj):
                    n = S.builtin_len(v)
                    return IterV(S.getitem(v, i) for i in range(n - 1, -1, -1))
            if isinstance(v, (list, tuple, str, bytes, range, _co.deque, bytearray, dict)):
                return IterV(reversed(v))
            if isinstance(v, DictView):
                return IterV(reversed(v.host()))
            if isinstance(v, (IterV, set, frozenset)) or v is None or isinstance(v, (int, float)):
                S.raise_py("TypeError", f"'{type(v).__name__}' object is not reversible")
            return IterV(list(reversed(S.iterate(v))))

        @reg("sorted")
        def _(a, k):
            xs = list(S.iterate(a[0]))
            key = k.get("key")
            ks = [S.call(key, [x], {}) if key is not None else x for x in xs]
            rev = S.truth(k.get("reverse", False))
            try:
                order = S.order(ks, rev)
            except _Unknown:
                return xs
            return [xs[i] for i in order]

        def minmax(name, pick):
            @reg(name)
            def _(a, k):
                xs = list(S.iterate(a[0])) if len(a) == 1 else list(a)
                if not xs:
                    if "default" in k:
                        return k["default"]
                    S.raise_py("ValueError", f"{name}() iterable argument is empty")
                key = k.get("key")
                ks = [S.call(key, [x], {}) if key is not None else x for x in xs]
                if len(xs) == 1:
                    return xs[0]
                if any(isinstance(x, Sym) for x in ks):
                    return Sym((name,) + tuple(term_of(x) for x in xs))
                m = 0
                for i in range(1, len(xs)):
                    if S.compare(pick, ks[i], ks[m]):
                        m = i
                return xs[m]

        minmax("max", ast.Gt)
        minmax("min", ast.Lt)

        @reg("iter")
        def _(a, k):
            if len(a) == 2:
                def gen():
                    while True:
                        x = S.call(a[0], [], {})
                        if S.eq(x, a[1]):
                            return
                        yield x
                return IterV(gen())
            v = a[0]
            if isinstance(v, IterV):
                return v
            if isinstance(v, Obj) and v.cls is not None:
                f = v.cls.lookup("__iter__")[0]
                if f is not None:
                    return S.call(BoundV(v, f), [], {})
            return IterV(S.iter_(v))

        @reg("next")
        def _(a, k):
            it = a[0]
            if isinstance(it, (IterV, IOV)):
                try:
                    if isinstance(it, IOV):
                        r = it.h.readline()
                        if not r:
                            raise StopIteration
                        return r
                    return next(it.it)
                except StopIteration as e:
                    if len(a) > 1:
                        return a[1]
                    raise PyRaise(StopIteration(*([e.value] if e.value is not None else [])), crash=True, where=S.loc)
            if isinstance(it, Obj):
                f, _ = it.cls.lookup("__next__")
                if f is None:
                    S.raise_py("TypeError", f"'{it.cls.name}' object is not an iterator")
                try:
                    return S.call(BoundV(it, f), [], {})
                except PyRaise as e:
                    if len(a) > 1 and e.name() == "StopIteration":
                        return a[1]
                    raise
            if isinstance(it, Sym):
                return S.fresh("next")
            S.raise_py("TypeError", f"'{type(it).__name__}' object is not an iterator")

        @reg("abs")
        def _(a, k):
            x = a[0].value if isinstance(a[0], EnumM) else a[0]
            if isinstance(x, Sym):
                return Sym(("abs", x.term))
            if isinstance(x, Obj):
                return S.call_method(x, "__abs__", [])
            return S.from_host(S.native(abs, S.to_host(x)))

        @reg("ord")
        def _(a, k):
            return Sym(("ord", term_of(a[0])), "int") if isinstance(a[0], Sym) else S.native(ord, S.to_host(a[0]))

        @reg("chr")
        def _(a, k):
            return Sym(("chr", term_of(a[0])), "str") if isinstance(a[0], Sym) else S.native(chr, S.to_host(a[0]))

        @reg("divmod")
        def _(a, k):
            if all(is_const(x) for x in a):
                return S.native(divmod, *a)
            return (S.binop(ast.FloorDiv, *a), S.binop(ast.Mod, *a))

        @reg("pow")
        def _(a, k):
            return S.native(pow, *a, **k) if all(map(is_const, a)) else Sym(("pow",) + tuple(map(term_of, a)))

        @reg("round")
        def _(a, k):
            if all(map(is_const, a)) or isinstance(a[0], HostV):
                return S.from_host(S.native(round, *[S.to_host(x) for x in a], **k))
            return Sym(("round",) + tuple(map(term_of, a)))

        @reg("callable")
        def _(a, k):
            v = a[0]
            if isinstance(v, Obj):
                return v.cls.lookup("__call__")[0] is not None
            if isinstance(v, HostV):
                return callable(v.h)
            return isinstance(v, (FuncV, BoundV, NativeV, ClassV, Ext, Binder, TypeConst, OpenType))

        @reg("globals")
        def _(a, k):
            m = S.stack[-1].module if S.stack else None
            d = dict(m.ns) if m else {}
            d["__builtins__"] = {n: 1 for n in dir(_bi)}
            return d

        @reg("vars")
        def _(a, k):
            v = a[0]
            if isinstance(v, (ModuleV, ClassV)):
                return v.ns
            return S.getattr(v, "__dict__")

        @reg("dir")
        def _(a, k):
            v = a[0]
            names = set(getattr(v, "attrs", ()) or ()) | set(getattr(v, "ns", ()) or ())
            c = v if isinstance(v, ClassV) else getattr(v, "cls", None)
            if isinstance(c, ClassV):
                for x in c.mro():
                    if isinstance(x, ClassV):
                        names |= set(x.ns)
            return sorted(names)

        @reg("slice")
        def _(a, k):
            return slice(*a)

        @reg("open")
        def _(a, k):
            return S.call_ext(Ext("open"), a, k)

        @reg("input")
        def _(a, k):
            return S.fresh("input", "str")

        @reg("format")
        def _(a, k):
            return S.format_(a[0], a[1] if len(a) > 1 else "")

        for nm in ("hex", "bin", "oct"):
            def mk(nm):
                fn = getattr(_bi, nm)

                @reg(nm)
                def _(a, k):
                    return Sym((nm,) + tuple(map(term_of, a)), "str") if isinstance(a[0], Sym) else S.native(fn, a[0].value if isinstance(a[0], EnumM) else a[0])
            mk(nm)
        b["staticmethod"] = NativeV("staticmethod", lambda a, k: StaticV(a[0]))
        b["classmethod"] = NativeV("classmethod", lambda a, k: ClassMethodV(a[0]))
        b["property"] = NativeV("property", lambda a, k: PropertyV(*[a[i] if len(a) > i else k.get(n) for i, n in enumerate(("fget", "fset", "fdel"))]))
        b["object"] = Ext("object")
        b["NotImplemented"] = Ext("NotImplemented")
        b["Ellipsis"] = Ellipsis
        b["__debug__"] = True
        for n in EXC_NAMES:
            b[n] = Ext(n)
        b["exit"] = Ext("exit")
        b["quit"] = Ext("quit")
        return b

    def order(self, ks, rev):
        """stable order of the keys, by the analysed comparison"""
        def unknown(x):
            return isinstance(x, Sym) or isinstance(x, (tuple, list)) and any(map(unknown, x))
        if any(map(unknown, ks)):
            raise _Unknown()
        n = range(len(ks))
        if all(is_const(x) for x in ks):
            return self.native(lambda: sorted(n, key=lambda i: ks[i], reverse=rev))

        class K:
            __slots__ = ("v",)

            def __init__(s, i):
                s.v = ks[i]

            def __lt__(s, o):
                return self.truth(self.compare(ast.Lt, s.v, o.v))
        return sorted(n, key=K, reverse=rev)

    def guard(self, it):
        """elements of a host iterator; its own exceptions are exceptions of the analysed program"""
        while True:
            try:
                x = next(it)
            except StopIteration:
                return
            except (PyRaise, Prune, AnalysisError):
                raise
            except (ValueError, RuntimeError, TypeError, KeyError, IndexError, AttributeError, ArithmeticError) as e:
                if isinstance(e, RecursionError):
                    raise
                raise PyRaise(e, crash=True, where=self.loc)
            yield x

    def issubclass_(self, c, t):
        if isinstance(t, (tuple, list)):
            return any(self.issubclass_(c, x) for x in t)
        if isinstance(t, UnionTy):
            return any(self.issubclass_(c, x) for x in t.items)
        if isinstance(c, OpenType):
            return self.isinstance_(c.obj, t)
        name = getattr(t, "name", None)
        if isinstance(c, ClassV):
            if isinstance(t, ClassV):
                return c.issub(t)
            if name == "object" or any(getattr(b, "name", None) == name for b in c.mro() if not isinstance(b, ClassV)):
                return True
            short = (name or "").split(".")[-1]
            if short in EXC_NAMES:
                return any(isinstance(b, Ext) and b.name.split(".")[-1] in EXC_NAMES and issubclass(EXC_NAMES[b.name.split(".")[-1]], EXC_NAMES[short]) for b in c.mro())
            if short == "Enum":
                return c.is_enum
            return False
        if isinstance(c, (NativeV, Ext, TypeConst)):
            if isinstance(t, ClassV):
                return False
            x, y = [EXC_NAMES.get(n.split(".")[-1]) or PYTYPES.get(n.split(".")[-1]) for n in (c.name, name)]
            if x is not None and y is not None:
                return issubclass(x, y)
            return c.name == name or name == "object"
        if isinstance(c, Sym):
            return self.decide(("issubclass", c.term, term_of(t)))
        self.raise_py("TypeError", "issubclass() arg 1 must be a class")

    def mkset(self, it):
        s = set()
        for x in it:
            if self.find_key(s, x) is MISSING:
                s.add(x)
        return s

    def dict_update(self, d, src):
        if isinstance(src, Obj):
            if isinstance(src.native, dict):
                src = src.native
            elif src.cls.lookup("keys")[0] is not None:
                for k in self.iter_(self.call_method(src, "keys", [])):
                    self.setitem(d, k, self.getitem(src, k))
                return
        if isinstance(src, HostV) and hasattr(src.h, "keys"):
            src = dict(src.h)
        if isinstance(src, dict):
            if isinstance(d, _co.Counter):
                _co.Counter.update(d, src)
                return
            if not any(isinstance(k, Sym) for k in d) and not any(isinstance(k, Sym) for k in src):
                d.update(src)
            else:
                for k, v in src.items():
                    self.setitem(d, k, v)
            return
        if isinstance(d, _co.Counter):
            for x in self.iter_(src):
                d[x] += 1
            return
        for p in self.iter_(src):
            xy = self.iterate(p)
            if len(xy) != 2:
                self.raise_py("ValueError", f"dictionary update sequence element has length {len(xy)}; 2 is required")
            self.setitem(d, xy[0], xy[1])

    def native(self, fn, *a, **k):
        try:
            return fn(*a, **k)
        except (PyRaise, Prune, AnalysisError, RecursionError, _Unknown):
            raise
        except Exception as e:
            raise PyRaise(e, crash=True, where=self.loc)

    def builtin_len(self, v):
        if isinstance(v, CONTAINERS) or isinstance(v, DictView):
            return len(v)
        if isinstance(v, ClassV):
            if v.is_enum:
                return len(set(map(id, v.enum_members.values())))
            if v.meta is not None:
                f, _ = v.meta.lookup("__len__")
                if f is not None:
                    return self.call(BoundV(v, f), [], {})
        if isinstance(v, Obj) and v.cls is not None:
            f, _ = v.cls.lookup("__len__")
            if f is not None:
                return self.call(BoundV(v, f), [], {})
            if v.native is not None:
                return self.builtin_len(v.native)
        if isinstance(v, Sym):
            return Sym(("len", v.term), "int")
        if isinstance(v, HostV):
            return self.native(len, v.h)
        if isinstance(v, EnumM) and not v.plain and isinstance(v.value, str):
            return len(v.value)
        self.raise_py("TypeError", f"object of type '{type(v).__name__}' has no len()")

    def to_str(self, v):
        if isinstance(v, str):
            return v
        if isinstance(v, Obj):
            for m in ("__str__", "__repr__"):
                f, owner = v.cls.lookup(m) if v.cls else (None, None)
                if m == "__repr__" and isinstance(v.native, str):
                    return v.native
                if f is not None:
                    if m == "__repr__" or self.isinstance_(v, Ext("BaseException")) and False:
                        return self.to_repr(v)
                    return self.call(self._bind(f, v, v.cls), [], {})
            return self.obj_str(v) if v.cls is not None else Sym(("str", v.term), "str")
        if isinstance(v, EnumM):
            f, _ = v.cls.lookup("__str__")
            if isinstance(f, FuncV):
                return self.call(BoundV(v, f), [], {})
            if any(isinstance(x, Ext) and x.name in ("enum.IntEnum", "enum.IntFlag", "enum.StrEnum") for x in v.cls.mro()):
                return str(v.value)
            return f"{v.cls.name}.{v.name}"
        if is_const(v):
            return str(v)
        if isinstance(v, Sym):
            return v if v.kind == "str" else Sym(("str", v.term), "str")
        if isinstance(v, BaseException):
            return str(v)
        if isinstance(v, HostV):
            return str(v.h)
        return self.to_repr(v)

    def format_(self, v, spec):
        if isinstance(spec, Obj):
            spec = spec.native
        if isinstance(v, Sym) or isinstance(spec, Sym):
            if spec == "":
                return self.to_str(v)
            return Sym(("format", term_of(v), term_of(spec)), "str")
        if isinstance(v, Obj):
            f = v.cls.lookup("__format__")[0] if v.cls is not None else None
            if f is not None:
                return self.call(BoundV(v, f), [spec], {})
            if isinstance(v.native, (str, int, float)) and v.cls.lookup("__str__")[0] is None:
                return self.native(format, v.native, spec)
            return self.format_(self.to_str(v), spec)
        if isinstance(v, EnumM):
            if any(isinstance(x, Ext) and x.name in ("enum.IntEnum", "enum.IntFlag", "enum.StrEnum") for x in v.cls.mro()) and v.cls.lookup("__str__")[0] is None:
                return self.native(format, v.value, spec)
            return self.format_(self.to_str(v), spec)
        if isinstance(v, HostV):
            return self.native(format, v.h, spec)
        if is_const(v) and not isinstance(v, tuple):
            return self.native(format, v, spec)
        if spec == "":
            return self.to_str(v)
        self.raise_py("TypeError", f"unsupported format string passed to {type(v).__name__}.__format__")

    def native_method(self, v, name, a, k):
        try:
            return self._native_method(v, name, list(a), k)
        except (PyRaise, Prune, AnalysisError, RecursionError):
            raise
        except _Unknown:
            return Sym(("call", ("attr", term_of(v), name)) + tuple(term_of(x) for x in a), "str")
        except Exception as e:
            raise PyRaise(e, crash=True, where=self.loc)

    def find_key(self, d, key):
        """key of d equal to `key` under abstract equality, or MISSING"""
        try:
            if key in d:
                return key
        except TypeError as e:
            raise PyRaise(e, crash=True, where=self.loc)
        if isinstance(key, Sym):
            for k in list(d):
                if self.eq(key, k):
                    return k
            return MISSING
        for k in d:
            if isinstance(k, Sym):
                break
        else:
            return MISSING
        for k in list(d):
            if isinstance(k, Sym) and self.eq(key, k):
                return k
        return MISSING

    def contains(self, c, x):
        if isinstance(c, (list, tuple, range, _co.deque)):
            for y in c:
                if self.eq(x, y):
                    return True
            return False
        if isinstance(c, (dict, set, frozenset)):
            if isinstance(c, _co.ChainMap):
                return any(self.contains(m, x) for m in c.maps)
            return self.find_key(c, x) is not MISSING
        if isinstance(c, DictView):
            return self.find_key(c.d, x) is not MISSING if c.k == "k" else self.contains(c.list(), x)
        if isinstance(c, (str, bytes, bytearray)):
            if isinstance(x, Obj):
                x = x.native
            if isinstance(x, EnumM) and not x.plain:
                x = x.value
            if not isinstance(x, Sym):
                return self.native(_op.contains, c, x)
            return self.decide(("in", term_of(x), repr(c)))
        if isinstance(c, ClassV):
            if c.is_enum:
                return any(x is m for m in c.enum_members.values()) or not isinstance(x, EnumM) and any(self.eq(m.value, x) for m in c.enum_members.values())
            f = c.meta.lookup("__contains__")[0] if c.meta is not None else None
            if f is not None:
                return self.truth(self.call(BoundV(c, f), [x], {}))
        if isinstance(c, IterV):
            for y in c.it:
                if self.eq(x, y):
                    return True
            return False
        if isinstance(c, Obj) and c.cls is not None:
            f, _ = c.cls.lookup("__contains__")
            if f is not None:
                return self.truth(self.call(BoundV(c, f), [x], {}))
            if c.cls.lookup("__iter__")[0] is None and c.native is not None:
                return self.contains(c.native, x)
            if c.cls.lookup("__iter__")[0] is not None or c.cls.lookup("__getitem__")[0] is not None:
                for y in self.iter_(c):
                    if self.eq(x, y):
                        return True
                return False
        if isinstance(c, Sym):
            return self.decide(("in", term_of(x), c.term))
        if isinstance(c, HostV):
            return self.native(_op.contains, c.h, self.to_host(x))
        if isinstance(c, EnumM) and not c.plain:
            return self.contains(c.value, x)
        if isinstance(c, IOV):
            return self.contains(self.iterate(c), x)
        self.raise_py("TypeError", f"argument of type '{type(c).__name__}' is not iterable")

    # ------------------------------------------------------------ methods of built-in values
    def _plain(self, x):
        """argument of a method of text or bytes"""
        if isinstance(x, Obj) and x.native is not None:
            return x.native
        if isinstance(x, EnumM) and not x.plain:
            return x.value
        if isinstance(x, HostV):
            return x.h
        if isinstance(x, tuple):
            return tuple(self._plain(y) for y in x)
        return x

    def _native_method(self, v, name, a, k):
        if isinstance(v, IOV):
            return self._io_method(v, name, a, k)
        if name.startswith("__"):
            r = self._dunder(v, name, a, k)
            if r is not MISSING:
                return r
        if isinstance(v, IterV):
            if name == "send":
                try:
                    return v.it.send(a[0])
                except StopIteration as e:
                    raise PyRaise(StopIteration(*([e.value] if e.value is not None else [])), crash=True, where=self.loc)
            if name == "close":
                v.it.close()
                return None
            if name == "throw":
                e = a[0] if len(a) < 2 else a[1]
                if isinstance(e, (ClassV, Ext)):
                    e = self.call(e, [], {})
                try:
                    return v.it.throw(PyRaise(e, where=self.loc))
                except StopIteration as s:
                    raise PyRaise(StopIteration(*([s.value] if s.value is not None else [])), crash=True, where=self.loc)
        if isinstance(v, DictView):
            if name == "isdisjoint":
                return not any(self.contains(v, x) for x in self.iter_(a[0]))
            if name == "mapping":
                return v.d
        if isinstance(v, str):
            if name == "join":
                xs = [self._plain(x) for x in self.iterate(a[0])]
                if any(isinstance(x, Sym) for x in xs):
                    return Sym(("join", v) + tuple(term_of(x) for x in xs), "str")
                return v.join(xs)
            if name == "format":
                if any(isinstance(x, Sym) for x in list(a) + list(k.values())) and True:
                    return Sym(("fmt", v) + tuple(term_of(x) for x in a) + tuple((n, term_of(x)) for n, x in sorted(k.items())), "str")
                try:
                    return v.format(*[show(self, x) for x in a], **{n: show(self, x) for n, x in k.items()})
                except _Unknown:
                    return Sym(("fmt", v) + tuple(term_of(x) for x in a), "str")
            if name == "format_map":
                return self._native_method(v, "format", [], dict(self.to_host(a[0])))
            if name == "translate":
                return v.translate({kk: x for kk, x in self.to_host(a[0]).items()})
            if any(isinstance(x, Sym) for x in a):
                return Sym(("call", ("attr", repr(v), name)) + tuple(term_of(x) for x in a))
            return getattr(v, name)(*[self._plain(x) for x in a], **k)
        if isinstance(v, (bytes, bytearray)):
            if name == "join":
                xs = [self._plain(x) for x in self.iterate(a[0])]
                if any(isinstance(x, Sym) for x in xs):
                    return Sym(("join", bytes(v)) + tuple(term_of(x) for x in xs), "bytes", {"parts": xs})
                return v.join(xs)
            if name == "extend":
                v.extend([x.value if isinstance(x, EnumM) else x for x in self.iterate(a[0])])
                return None
            if any(isinstance(x, Sym) for x in a):
                return Sym(("call", ("attr", repr(v), name)) + tuple(term_of(x) for x in a))
            return getattr(v, name)(*[self._plain(x) for x in a], **k)
        if isinstance(v, (int, float, complex)):
            return getattr(v, name)(*[self._plain(x) for x in a], **k)
        if isinstance(v, (set, frozenset)):
            return self._set_method(v, name, a, k)
        if isinstance(v, (list, _co.deque)):
            if name in ("index", "remove", "count"):
                lo, hi, _s = slice(*(a[1:3] if len(a) == 3 else [a[1], None] if len(a) == 2 else [None, None])).indices(len(v))
                if name == "count":
                    return sum(1 for x in list(v) if self.eq(x, a[0]))
                for i in range(lo, hi):
                    if i >= len(v):
                        break
                    if self.eq(v[i], a[0]):
                        if name == "index":
                            return i
                        del v[i]
                        return None
                raise ValueError(f"{self.to_repr(a[0])} is not in list" if name == "index" else "list.remove(x): x not in list")
            if name in ("extend", "extendleft"):
                src = a[0]
                getattr(v, name)(list(src) if src is v else self.iter_(src))
                return None
            if name == "sort":
                r = self.builtins["sorted"].fn([v], k)
                v[:] = r
                return None
            if name in ("insert", "pop", "rotate") and a:
                if isinstance(a[0], Sym):
                    self.unsupported(f"list.{name} at unknown index")
                a[0] = self._plain(a[0])
            return getattr(v, name)(*a, **k)
        if isinstance(v, tuple):
            if name == "index":
                for i, x in enumerate(v):
                    if self.eq(x, a[0]):
                        return i
                raise ValueError("tuple.index(x): x not in tuple")
            if name == "count":
                return sum(1 for x in v if self.eq(x, a[0]))
            return getattr(v, name)(*a)
        if isinstance(v, range):
            return getattr(v, name)(*[self._plain(x) for x in a])
        if isinstance(v, dict) or isinstance(v, _co.ChainMap):
            return self._dict_method(v, name, a, k)
        if isinstance(v, slice):
            return getattr(v, name)(*a)
        self.unsupported(f"method {name} of {type(v).__name__}")

    def _dunder(self, v, name, a, k):
        n = name[2:-2]
        if n == "next":
            return self.builtins["next"].fn([v] + a, {})
        if n == "iter":
            return v if isinstance(v, IterV) else IterV(self.iter_(v))
        if n == "len":
            return self.builtin_len(v)
        if n == "contains":
            return self.contains(v, a[0])
        if n == "getitem":
            return self.getitem(v, a[0])
        if n == "setitem":
            return self.setitem(v, a[0], a[1])
        if n == "delitem":
            return self.delitem(v, a[0])
        if n == "eq":
            return self.eq(v, a[0])
        if n == "ne":
            return not self.eq(v, a[0])
        if n == "hash":
            return self.hash_of(v)
        if n == "bool":
            return self.truth(v)
        if n == "str":
            return self.to_str(v)
        if n == "repr":
            return self.to_repr(v)
        if n == "format":
            return self.format_(v, a[0])
        if n == "reversed":
            return self.builtins["reversed"].fn([v], {})
        for op, (sym, _f) in BINOPS.items():
            if DUNDER[sym] == n:
                return self.binop(op, v, a[0])
            if "r" + DUNDER[sym] == n:
                return self.binop(op, a[0], v)
            if "i" + DUNDER[sym] == n:
                return self.aug_op(op, v, a[0])
        for op, (sym, _f) in CMPOPS.items():
            if DUNDER[sym] == n:
                return self.compare(op, v, a[0])
        if n == "init" and isinstance(v, (list, dict, set)):
            v.clear()
            if a:
                (self.dict_update if isinstance(v, dict) else lambda d, s: d.extend(self.iter_(s)) if isinstance(d, list) else d.update(self.iter_(s)))(v, a[0])
            if k:
                v.update(k)
            return None
        return MISSING

    def _set_method(self, v, name, a, k):
        if name == "add":
            if self.find_key(v, a[0]) is MISSING:
                v.add(a[0])
            return None
        if name in ("discard", "remove"):
            kk = self.find_key(v, a[0])
            if kk is MISSING:
                if name == "remove":
                    raise KeyError(a[0])
                return None
            v.discard(kk)
            return None
        if name == "pop" and v:
            x = self.iterate(v)[0]
            v.discard(x)
            return x
        if name == "update":
            for x in a:
                for y in self.iterate(x):
                    if self.find_key(v, y) is MISSING:
                        v.add(y)
            return None
        return getattr(v, name)(*[self.mkset(self.iter_(x)) for x in a])

    def _dict_method(self, v, name, a, k):
        if name == "get":
            kk = self.find_key(v, a[0])
            return v[kk] if kk is not MISSING else (a[1] if len(a) > 1 else k.get("default"))
        if name == "setdefault":
            kk = self.find_key(v, a[0])
            if kk is MISSING:
                v[a[0]] = a[1] if len(a) > 1 else None
                return v[a[0]]
            return v[kk]
        if name == "pop":
            kk = self.find_key(v, a[0])
            if kk is MISSING:
                if len(a) > 1:
                    return a[1]
                if "default" in k:
                    return k["default"]
                raise KeyError(a[0])
            return v.pop(kk)
        if name == "keys":
            return DictView(v, "k")
        if name == "values":
            return DictView(v, "v")
        if name == "items":
            return DictView(v, "i")
        if name in ("update", "subtract"):
            if name == "subtract":
                v.subtract(a[0] if isinstance(a[0], dict) else self.iterate(a[0]))
                return None
            if a:
                self.dict_update(v, a[0])
            if k:
                self.dict_update(v, k)
            return None
        if name == "fromkeys":
            return {x: (a[1] if len(a) > 1 else None) for x in self.iterate(a[0])}
        r = getattr(v, name)
        if not callable(r):
            return r
        return self.from_host(r(*a, **k))

    def _io_method(self, v, name, a, k):
        h = v.h
        if name == "__enter__":
            return v
        if name == "__exit__":
            h.close()
            return None
        if name == "__iter__":
            return v
        if name == "__next__":
            return self.builtins["next"].fn([v], {})
        if v.parts is not None or a and isinstance(a[0], Sym) and name == "write":
            if v.parts is None:
                v.parts = [h.getvalue()]
            if name == "write":
                v.parts.append(a[0])
                return self.builtin_len(a[0])
            if name == "getvalue":
                return Sym(("concat",) + tuple(term_of(p) for p in v.parts), "bytes" if v.binary else "str", {"parts": list(v.parts)})
            self.fresh_n += 1
            self.emit("ioread", name=name)
            return Sym(("io", name, self.fresh_n), "str")
        if name == "writelines":
            for x in self.iter_(a[0]):
                self._io_method(v, "write", [x], {})
            return None
        a = [self._plain(x) for x in a]
        if name == "write" and not v.binary and not isinstance(a[0], str):
            raise TypeError(f"string argument expected, got '{type(a[0]).__name__}'")
        return getattr(h, name)(*a, **k)

    # ------------------------------------------------------------ iteration / items
    def iterate(self, v):
        """list of abstract elements"""
        t = type(v)
        if t is list or t is tuple or t is dict or t is range or t is str or t is bytes:
            return list(v)
        if t is IterV:
            return list(v.it)
        if t is DictView:
            return v.list()
        return list(self.iter_(v))

    def set_list(self, v):
        try:
            out = sorted(v, key=lambda x: (str(type(x)), repr(x)))
        except Exception:
            out = list(v)
        if self.set_order == 1:
            out.reverse()
        elif self.set_order == 2:
            out = out[1::2] + out[0::2]
        return out

    def hash_of(self, v):
        """hash(v); that of texts is salted by the host anew on every run"""
        if not self.choice:
            return self.native(hash, v)
        if isinstance(v, (str, bytes)):
            return self.native(hash, (self.choice, v))
        if type(v) is tuple:
            return self.native(hash, tuple(self.hash_of(x) for x in v))
        return self.native(hash, v)

    # what the host chooses anew on every run: None leaves it open
    choice = None
    rng = None

    # the order in which sets are gone through is up to the host: 0 ascending, 1 descending, 2 shuffled
    set_order = 0

    def iter_(self, v):
        """host iterator over the abstract elements"""
        t = type(v)
        if t is list or t is tuple or t is range or t is str or t is bytes:
            return iter(v)
        if t is IterV:
            return v.it
        if isinstance(v, (dict, DictView, _co.deque)):
            return self.guard(iter(v))
        if isinstance(v, (set, frozenset)):
            return self._set_iter(v)
        if isinstance(v, (list, tuple, str, bytes, range, bytearray)):
            return iter(v)
        if isinstance(v, ClassV):
            if v.is_enum:
                out = []
                for m in v.enum_members.values():
                    if not any(m is x for x in out):
                        out.append(m)
                return iter(out)
            f = v.meta.lookup("__iter__")[0] if v.meta is not None else None
            if f is not None:
                return self.iter_(self.call(BoundV(v, f), [], {}))
            self.raise_py("TypeError", "'type' object is not iterable")
        if isinstance(v, Obj) and v.cls is not None:
            f, _ = v.cls.lookup("__iter__")
            if f is not None:
                r = self.call(self._bind(f, v, v.cls), [], {})
                if isinstance(r, Obj) and r.cls.lookup("__next__")[0] is not None:
                    return self._obj_iter(r)
                if not isinstance(r, (IterV, Sym, HostV, IOV)):
                    self.raise_py("TypeError", f"iter() returned non-iterator of type '{type(r).__name__}'")
                return self.iter_(r)
            if v.native is not None:
                return self.iter_(v.native)
            if v.cls.lookup("__getitem__")[0] is not None:
                return self._getitem_iter(v)
            self.raise_py("TypeError", f"'{v.cls.name}' object is not iterable")
        if isinstance(v, Sym):
            key = ("iter", v.term)
            if key in self.data:
                return iter(list(self.data[key]))
            n = self.choose(self.seq_bound + 1, ("len", v.term))
            items = [Sym(("elem", v.term, i)) for i in range(n)]
            self.data[key] = items
            return iter(list(items))
        if isinstance(v, IOV):
            if v.parts is not None:
                return self.iter_(self._io_method(v, "readlines", [], {}))
            return iter(v.h.readline, b"" if v.binary else "")
        if isinstance(v, HostV):
            it = self.native(iter, v.h)
            return (self.from_host(x) for x in self.guard(it))
        if isinstance(v, EnumM) and not v.plain and isinstance(v.value, str):
            return iter(v.value)
        if v is None:
            self.raise_py("TypeError", "'NoneType' object is not iterable")
        if isinstance(v, (int, float, FuncV, BoundV, EnumM, NativeV)):
            self.raise_py("TypeError", f"'{type(v).__name__}' object is not iterable")
        self.unsupported(f"iteration over {v!r}")

    def _set_iter(self, v):
        n = len(v)
        for x in self.set_list(v):
            if len(v) != n:
                self.raise_py("RuntimeError", "Set changed size during iteration")
            yield x

    def _obj_iter(self, r):
        f = r.cls.lookup("__next__")[0]
        while True:
            try:
                x = self.call(BoundV(r, f), [], {})
            except PyRaise as e:
                if e.name() == "StopIteration":
                    return
                raise
            yield x

    def _getitem_iter(self, v):
        for i in _it.count():
            try:
                x = self.getitem(v, i)
            except PyRaise as e:
                if e.name() in ("IndexError", "StopIteration"):
                    return
                raise
            yield x

    def _index(self, i):
        if isinstance(i, (int, Sym)):
            return i
        if isinstance(i, slice):
            return slice(*[None if x is None else self._index(x) for x in (i.start, i.stop, i.step)])
        if isinstance(i, EnumM) and self._enum_int(i):
            return i.value
        if isinstance(i, Obj):
            if isinstance(i.native, int):
                return i.native
            f = i.cls.lookup("__index__")[0] if i.cls is not None else None
            if f is not None:
                return self.call(BoundV(i, f), [], {})
        return i

    def getitem(self, c, i):
        if isinstance(c, (dict, _co.ChainMap)):
            k = self.find_key(c, i)
            if k is MISSING:
                if type(c) is not dict and not isinstance(i, Sym):
                    return self.native(lambda: c[i])
                raise PyRaise(KeyError(i if is_const(i) else repr(i)), crash=True, where=self.loc)
            return c[k]
        if isinstance(c, (list, tuple, str, bytes, range, bytearray, _co.deque)):
            i = self._index(i)
            if isinstance(i, Sym):
                return Sym(("item", term_of(c), i.term))
            if isinstance(i, slice) and any(isinstance(x, Sym) for x in (i.start, i.stop, i.step)):
                return Sym(("slice", term_of(c) if not isinstance(c, str) else repr(c), self._slice_term(i)))
            return self.native(_op.getitem, c, i)
        if isinstance(c, ClassV):
            if c.is_enum:
                if isinstance(i, str):
                    if i not in c.enum_members:
                        self.raise_py("KeyError", i)
                    return c.enum_members[i]
                return Sym(("enumitem", c.qualname, term_of(i)))
            f = c.meta.lookup("__getitem__")[0] if c.meta is not None else None
            if f is not None:
                return self.call(BoundV(c, f), [i], {})
            f = c.lookup("__class_getitem__")[0]
            if f is not None:
                return self.call(BoundV(c, f.func if isinstance(f, ClassMethodV) else f), [i], {})
            return c
        if isinstance(c, (Ext, NativeV, UnionTy, TypeConst)):
            return c if isinstance(c, Ext) else Ext(getattr(c, "name", "typing"))
        if isinstance(c, Sym):
            if isinstance(i, slice):
                return Sym(("slice", c.term, self._slice_term(i)), c.kind)
            return Sym(("item", c.term, term_of(i)))
        if isinstance(c, Obj) and c.cls is not None:
            f, _ = c.cls.lookup("__getitem__")
            if f is not None:
                return self.call(self._bind(f, c, c.cls), [i], {})
            if c.native is not None:
                if isinstance(c.native, dict) and self.find_key(c.native, i) is MISSING:
                    f, _ = c.cls.lookup("__missing__")
                    if f is not None:
                        return self.call(BoundV(c, f), [i], {})
                return self.getitem(c.native, i)
            self.raise_py("TypeError", f"'{c.cls.name}' object is not subscriptable")
        if isinstance(c, HostV):
            return self.from_host(self.native(lambda: c.h[self.to_host(i)]))
        if isinstance(c, EnumM) and not c.plain and isinstance(c.value, str):
            return self.getitem(c.value, i)
        if c is None or isinstance(c, (int, float, set, frozenset, IterV, FuncV, BoundV, EnumM, DictView)):
            self.raise_py("TypeError", f"'{type(c).__name__}' object is not subscriptable")
        self.unsupported(f"subscript of {c!r}")

    def _slice_term(self, s):
        return ("sl", term_of(s.start), term_of(s.stop), term_of(s.step))

    def setitem(self, c, i, v):
        if isinstance(c, _co.ChainMap):
            c = c.maps[0]
        if isinstance(c, dict):
            k = self.find_key(c, i)
            c[i if k is MISSING else k] = v
            return
        if isinstance(c, (list, bytearray, _co.deque)):
            i = self._index(i)
            if isinstance(i, Sym):
                self.unsupported("list store at unknown index")
            if isinstance(i, slice):
                v = self.iterate(v)
            elif isinstance(c, bytearray):
                v = self._index(v)
            self.native(_op.setitem, c, i, v)
            return
        if isinstance(c, Obj) and c.cls is not None:
            f, _ = c.cls.lookup("__setitem__")
            if f is not None:
                self.call(self._bind(f, c, c.cls), [i, v], {})
                return
            if c.native is not None:
                self.setitem(c.native, i, v)
                return
            self.raise_py("TypeError", f"'{c.cls.name}' object does not support item assignment")
        if isinstance(c, Sym):
            self.emit("setitem", target=c, index=i, value=v)
            return
        if c is None or is_const(c) or isinstance(c, (tuple, set, frozenset, EnumM, range, DictView, FuncV, IterV)):
            self.raise_py("TypeError", f"'{type(c).__name__}' object does not support item assignment")
        if isinstance(c, HostV):
            self.native(_op.setitem, c.h, self.to_host(i), v)
            return
        if isinstance(c, Ext):
            self.emit("ext", name="setitem:" + c.name, args=[i, v], kwargs={})
            return
        self.unsupported(f"item store on {c!r}")

    def delitem(self, c, i):
        if isinstance(c, dict):
            k = self.find_key(c, i)
            if k is MISSING:
                raise PyRaise(KeyError(i if is_const(i) else repr(i)), crash=True, where=self.loc)
            del c[k]
        elif isinstance(c, (list, bytearray, _co.deque)):
            self.native(_op.delitem, c, self._index(i))
        elif isinstance(c, Obj) and c.cls is not None:
            f, _ = c.cls.lookup("__delitem__")
            if f is not None:
                self.call(BoundV(c, f), [i], {})
            elif c.native is not None:
                self.delitem(c.native, i)
            else:
                self.raise_py("TypeError", f"'{c.cls.name}' object doesn't support item deletion")
        elif isinstance(c, Sym):
            self.emit("delitem", target=c, index=i)
        else:
            self.raise_py("TypeError", f"'{type(c).__name__}' object doesn't support item deletion")

    def delattr(self, o, name):
        if isinstance(o, Obj):
            f = o.cls.lookup("__delattr__")[0] if o.cls is not None else None
            if f is not None:
                self.call(BoundV(o, f), [name], {})
                return
            cv = o.cls.lookup(name)[0] if o.cls is not None else None
            if isinstance(cv, PropertyV):
                if cv.fdel is None:
                    self.raise_py("AttributeError", f"property '{name}' has no deleter")
                self.call(cv.fdel, [o], {})
                return
            if isinstance(cv, Obj) and cv.cls.lookup("__delete__")[0] is not None:
                self.call_method(cv, "__delete__", [o])
                return
            if name not in o.attrs:
                self.raise_py("AttributeError", name)
            del o.attrs[name]
            return
        d = o.ns if isinstance(o, (ClassV, ModuleV)) else o.attrs if isinstance(o, (FuncV, EnumM, NativeV)) else None
        if isinstance(o, Sym):
            self.emit("delattr", target=o, name=name)
            return
        if d is None or name not in d:
            self.raise_py("AttributeError", name)
        del d[name]
        if isinstance(o, ClassV):
            ClassV.epoch += 1

    # ------------------------------------------------------------ operators
    def _op_method(self, x, m):
        """analysed special method of an operand"""
        if isinstance(x, (Obj, EnumM)) and x.cls is not None:
            f = x.cls.lookup(m)[0]
            return f
        if isinstance(x, ClassV) and x.meta is not None:
            return x.meta.lookup(m)[0]
        return None

    def binop(self, opcls, a, b):
        sym, fn = BINOPS[opcls]
        ta, tb = type(a), type(b)
        if ta in (str, int, float, bytes) and tb in (str, int, float, bytes) and not (ta is str and sym == "%"):
            if sym in ("**", "<<") and tb is int and b > 4096:
                self.unsupported("huge shift/power")
            if ta is str and tb is int and sym == "*" and b > 10 ** 7:
                self.unsupported("huge text")
            try:
                return fn(a, b)
            except Exception as e:
                raise PyRaise(e, crash=True, where=self.loc)
        if isinstance(a, (Obj, EnumM, ClassV)) or isinstance(b, (Obj, EnumM, ClassV)):
            m = DUNDER[sym]
            fa, fb = self._op_method(a, f"__{m}__"), self._op_method(b, f"__r{m}__")
            if fa is not None and fb is not None and isinstance(a, Obj) and isinstance(b, Obj) and a.cls is not b.cls and b.cls.issub(a.cls):
                pairs = ((fb, b, a), (fa, a, b))
            else:
                pairs = ((fa, a, b), (fb, b, a))
            for f, x, y in pairs:
                if f is not None:
                    r = self.call(self._bind(f, x, x.cls if not isinstance(x, ClassV) else x.meta), [y], {})
                    if not (isinstance(r, Ext) and r.name == "NotImplemented"):
                        return r
            na, nb = a, b
            if isinstance(a, EnumM) and not a.plain:
                na = a.value
            elif isinstance(a, Obj) and a.native is not None:
                na = a.native
            if isinstance(b, EnumM) and not b.plain:
                nb = b.value
            elif isinstance(b, Obj) and b.native is not None:
                nb = b.native
            if (na is not a or nb is not b):
                flag = next((x for x in (a, b) if isinstance(x, EnumM) and any(isinstance(c, Ext) and c.name == "enum.IntFlag" for c in x.cls.mro())), None)
                r = self.binop(opcls, na, nb)
                if flag is not None:
                    return next((m for m in flag.cls.enum_members.values() if m.value == r), r)
                return r
            if isinstance(a, EnumM) and isinstance(b, EnumM) and a.cls is b.cls and sym in "|&^" and isinstance(a.value, int):
                r = fn(a.value, b.value)
                return next((m for m in a.cls.enum_members.values() if m.value == r), None) or self._flag(a.cls, r)
        if isinstance(a, Sym) or isinstance(b, Sym):
            kind = "str" if (isinstance(a, str) or isinstance(b, str) or getattr(a, "kind", None) == "str") and sym == "+" else "int" if (
                getattr(a, "kind", None) == "int" or getattr(b, "kind", None) == "int") else None
            if isinstance(a, str) and sym == "%":
                return Sym(("fmt%", a, term_of(b)), "str")
            return Sym(("op", sym, term_of(a), term_of(b)), kind)
        if sym == "|" and all(isinstance(x, (ClassV, Ext, UnionTy, NativeV, TypeConst, type(None), str)) for x in (a, b)) and not (isinstance(a, str) and isinstance(b, str)):
            items = []
            for x in (a, b):
                items += x.items if isinstance(x, UnionTy) else [Ext(x.name) if isinstance(x, NativeV) else x]
            return UnionTy(items)
        if isinstance(a, (str, bytes)) and sym == "%":
            if isinstance(b, dict):
                y = {kk: show(self, x) for kk, x in b.items()}
            elif isinstance(b, tuple):
                if any(isinstance(x, Sym) for x in b):
                    return Sym(("fmt%", a, term_of(b)), "str")
                y = tuple(show(self, x) for x in b)
            else:
                y = show(self, b)
            try:
                return self.native(fn, a, y)
            except _Unknown:
                return Sym(("fmt%", a, term_of(b)), "str")
        if isinstance(a, DictView) or isinstance(b, DictView):
            if sym in "&|-^":
                a, b = [x if isinstance(x, (set, frozenset)) else self.mkset(self.iter_(x)) for x in (a, b)]
        if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)) and (any(isinstance(x, Sym) for x in a) or any(isinstance(x, Sym) for x in b)):
            if sym == "|":
                return self.mkset(list(a) + list(b))
            if sym in "&-":
                return {x for x in self.set_list(a) if (self.find_key(b, x) is not MISSING) == (sym == "&")}
        if isinstance(a, HostV) or isinstance(b, HostV) or isinstance(a, Ext) and host_of(a.name) is not MISSING or isinstance(b, Ext) and host_of(b.name) is not MISSING:
            return self.from_host(self.native(fn, self.to_host(a), self.to_host(b)))
        if isinstance(a, list) and isinstance(b, int) and sym == "*" and len(a) * b > 10 ** 7:
            self.unsupported("huge list")
        if isinstance(a, (list, tuple, dict, set, frozenset, bytearray, _co.deque, int, float, complex, str, bytes, type(None))) and isinstance(
                b, (list, tuple, dict, set, frozenset, bytearray, _co.deque, int, float, complex, str, bytes, type(None))):
            return self.native(fn, a, b)
        self.raise_py("TypeError", f"unsupported operand type(s) for {sym}: {a!r} and {b!r}")

    def _flag(self, cls, value):
        m = EnumM(cls, None, value)
        return m

    def compare(self, opn, a, b):
        sym, fn = CMPOPS[opn]
        ta, tb = type(a), type(b)
        if ta is int and tb is int or ta is str and tb is str:
            return fn(a, b)
        if isinstance(a, (Obj, EnumM, ClassV)) or isinstance(b, (Obj, EnumM, ClassV)):
            r = self._obj_compare(opn, sym, a, b)
            if r is not MISSING:
                return r
            na = a.value if isinstance(a, EnumM) and not a.plain else a.native if isinstance(a, Obj) and a.native is not None else a
            nb = b.value if isinstance(b, EnumM) and not b.plain else b.native if isinstance(b, Obj) and b.native is not None else b
            if na is not a or nb is not b:
                return self.compare(opn, na, nb)
            self.raise_py("TypeError", f"'{sym}' not supported between instances of {a!r} and {b!r}")
        if isinstance(a, Sym) or isinstance(b, Sym):
            ta, tb = term_of(a), term_of(b)
            if isinstance(a, Sym) and a.term in self.eqc and is_const(b):
                return self.native(fn, self.eqc[a.term], b)
            if isinstance(b, Sym) and b.term in self.eqc and is_const(a):
                return self.native(fn, a, self.eqc[b.term])
            # canonical: only < and <=
            if sym in (">", ">="):
                ta, tb, sym = tb, ta, SWAP[sym]
            if sym == "<=":
                return not self.decide(("<", tb, ta))
            return self.decide(("<", ta, tb))
        if is_const(a) and is_const(b):
            return self.native(fn, a, b)
        if isinstance(a, (list, tuple, _co.deque)) and type(a) is type(b):
            for x, y in zip(a, b):
                if not self.eq(x, y):
                    return self.compare(opn, x, y)
            return fn(len(a), len(b))
        if isinstance(a, (set, frozenset, DictView)) and isinstance(b, (set, frozenset, DictView)):
            a, b = [self.mkset(self.iter_(x)) for x in (a, b)]
            return fn(a, b)
        if isinstance(a, HostV) or isinstance(b, HostV):
            return self.native(fn, self.to_host(a), self.to_host(b))
        if isinstance(a, (bytearray, bytes, _co.Counter)) and isinstance(b, (bytearray, bytes, _co.Counter)):
            return self.native(fn, a, b)
        self.raise_py("TypeError", f"'{sym}' not supported between instances of '{type(a).__name__}' and '{type(b).__name__}'")

    def _obj_compare(self, opn, sym, a, b):
        m, w = f"__{DUNDER[sym]}__", f"__{DUNDER[SWAP[sym]]}__"
        for x, nm, y in ((a, m, b), (b, w, a)):
            f = self._op_method(x, nm)
            if f is not None:
                r = self.call(self._bind(f, x, x.cls if not isinstance(x, ClassV) else x.meta), [y], {})
                if not (isinstance(r, Ext) and r.name == "NotImplemented"):
                    return r
        if isinstance(a, Obj) and isinstance(b, Obj) and a.cls is b.cls and a.cls is not None:
            if any(isinstance(c, ClassV) and c.dc_order for c in a.cls.mro()):
                names = [n for n, sp in self.dc_field_names(a.cls).items() if sp.compare]
                return self.compare(opn, tuple(self.getattr(a, n) for n in names), tuple(self.getattr(b, n) for n in names))
        for x, s, y in ((a, sym, b), (b, SWAP[sym], a)):
            if isinstance(x, (Obj, EnumM)) and x.cls is not None and any(isinstance(c, ClassV) and c.total for c in x.cls.mro()):
                for have, neg, extra in (("<", s in (">", ">="), {"<": None, "<=": "or", ">": "and", ">=": None}),
                                         ("<=", s in (">", ">="), {"<=": None, "<": "and", ">": None, ">=": "or"}),
                                         (">", s in ("<", "<="), {">": None, ">=": "or", "<": "and", "<=": None}),
                                         (">=", s in ("<", "<="), {">=": None, ">": "and", "<": None, "<=": "or"})):
                    f = self._op_method(x, f"__{DUNDER[have]}__")
                    if f is None:
                        continue
                    r = self.call(BoundV(x, f), [y], {})
                    if isinstance(r, Ext) and r.name == "NotImplemented":
                        break
                    r = self.truth(r)
                    r = r != neg
                    if extra[s] == "or":
                        return r or self.eq(x, y)
                    if extra[s] == "and":
                        return r and not self.eq(x, y)
                    return r
        return MISSING

    def aug_op(self, op, cur, v):
        sym, fn = BINOPS[op]
        if isinstance(cur, (Obj, EnumM)):
            f = self._op_method(cur, f"__i{DUNDER[sym]}__")
            if f is not None:
                r = self.call(BoundV(cur, f), [v], {})
                if not (isinstance(r, Ext) and r.name == "NotImplemented"):
                    return r
            if isinstance(cur, Obj) and isinstance(cur.native, (list, dict, set, _co.deque, bytearray)) and self._op_method(cur, f"__{DUNDER[sym]}__") is None:
                self.aug_op(op, cur.native, v)
                return cur
        if isinstance(cur, (list, _co.deque, bytearray)) and sym == "+":
            if isinstance(cur, bytearray):
                v = self._plain(v)
                cur.extend(v if isinstance(v, (bytes, bytearray)) else self.iterate(v))
            else:
                cur.extend(list(v) if v is cur else self.iter_(v))
            return cur
        if isinstance(cur, (list, _co.deque)) and sym == "*" and isinstance(v, int):
            cur *= v
            return cur
        if isinstance(cur, _co.Counter) and not isinstance(v, Sym):
            return self.native(getattr(_op, "i" + {"or": "or", "and": "and"}.get(DUNDER[sym], DUNDER[sym])), cur, v)
        if isinstance(cur, dict) and sym == "|":
            self.dict_update(cur, v)
            return cur
        if isinstance(cur, set) and sym in "|&-^" and isinstance(v, (set, frozenset, DictView)) or isinstance(cur, set) and isinstance(v, Obj) and v.native is not None:
            if sym == "|":
                self._set_method(cur, "update", [v], {})
                return cur
            r = self.binop(op, cur, v)
            cur.clear()
            cur.update(r)
            return cur
        if isinstance(cur, bool) and sym == "|" and isinstance(v, Sym):
            return self.truth(v) or cur
        return self.binop(op, cur, v)
