"""Transfer functions of the abstract interpreter (see interp.py)."""
from __future__ import annotations
import ast
import struct as _struct
import posixpath
import keyword as _keyword
import operator as _op
import builtins as _bi
import collections as _co
import functools as _ft
import io as _io
import types as _types
import copy as _copy
import itertools as _it
from .interp import (
    Sym, Obj, ModuleV, ClassV, EnumM, FuncV, BoundV, NativeV, StaticV, ClassMethodV,
    PropertyV, Ext, UnionTy, SuperV, IterV, HostV, FieldSpec, CONST_TYPES, EXC_NAMES,
    is_const, deep_const, term_of, Env, Path, Result, PyRaise, Prune, AnalysisError,
    _Return, _Break, _Continue, _local_names, _has_yield, MISSING, IOV, OpenType, TypeConst, DictView,
    Binder, CUR, PYTYPES,
)
from .interp_lib import host_of, host_choice, HOST_MODULES, LIB
from .interp_data import DataOps, BINOPS, CMPOPS, DUNDER, NEG, SWAP
from .interp_exec import ExecOps, CtxFunc, CtxMgrV

EXT_PURE = {
    "struct.pack": _struct.pack, "struct.unpack": _struct.unpack,
    "keyword.iskeyword": _keyword.iskeyword,
    "os.path.join": posixpath.join, "os.path.split": posixpath.split,
    "os.path.dirname": posixpath.dirname, "os.path.basename": posixpath.basename,
    "os.path.splitext": posixpath.splitext, "os.path.normpath": posixpath.normpath,
    "os.path.isabs": posixpath.isabs,
}
DECOR_PASS = {
    "abc.abstractmethod", "functools.lru_cache", "functools.cache", "functools.wraps",
    "typing.overload", "typing.final", "typing.override", "typing_extensions.override",
    "typing.no_type_check", "functools.total_ordering", "typing.runtime_checkable", "enum.unique",
    "typing.runtime", "contextlib.contextmanager",
}


ABC_NEEDS = {"Iterable": ("__iter__",), "Iterator": ("__iter__", "__next__"), "Sized": ("__len__",), "Container": ("__contains__",),
             "Callable": ("__call__",), "Hashable": (), "Collection": ("__len__", "__iter__", "__contains__"), "Reversible": ("__reversed__",),
             "SupportsInt": ("__int__",), "ContextManager": ("__enter__", "__exit__"), "AbstractContextManager": ("__enter__", "__exit__")}


class Interp(DataOps, ExecOps):
    def __init__(self, program, hooks=None, seq_bound=2, while_bound=4, max_depth=120,
                 max_steps=200000):
        self.prog = program
        self.modules = {}
        self.hooks = dict(hooks or {})
        self.seq_bound = seq_bound
        self.while_bound = while_bound
        self.max_depth = max_depth
        self.max_steps = max_steps
        self.memos = []
        CUR.ip = self
        self.path = Path([])
        self.reset_path([])
        self.builtins = self._make_builtins()
        self.snapshot_data = None
        self.in_repr = set()
        self.analysed = {}  # qualname -> file:line of every function body entered
        self.ext_calls = {}

    # ------------------------------------------------------------ paths
    def reset_path(self, prefix):
        self.path = Path(prefix)
        self.facts = {}
        self.isa_pos = {}
        self.isa_neg = {}
        self.dom = {}
        self.eqc = {}
        self.events = []
        self.stack = []
        self.steps = 0
        self.fresh_n = 0
        self.loc = ("?", 0)
        self.data = {}
        Obj._n = 0
        CUR.ip = self
        for m in self.memos:
            m.clear()

    def choose(self, n, label=""):
        return self.path.choose(n, label)

    def decide(self, atom, label=None):
        """truth of an atomic proposition, consistent along the path"""
        if atom in self.facts:
            return self.facts[atom]
        v = self.choose(2, label or atom) == 0
        self.facts[atom] = v
        return v

    def fresh(self, kind="fresh", typ=None):
        self.fresh_n += 1
        return Sym((kind, self.fresh_n), typ)

    def emit(self, kind, **kw):
        kw["kind"] = kind
        kw["loc"] = self.loc
        kw["fn"] = self.stack[-1].qualname if self.stack else "?"
        self.events.append(kw)
        return kw

    def explore(self, entry, max_paths=20000):
        """entry(interp) is evaluated on every path; yields Result"""
        self.snapshot()
        todo = [[]]
        n = 0
        while todo:
            prefix = todo.pop()
            n += 1
            if n > max_paths:
                raise AnalysisError(f"more than {max_paths} paths")
            self.restore()
            self.reset_path(prefix)
            exc = None
            value = None
            try:
                value = entry(self)
                outcome = "return"
            except PyRaise as e:
                exc = e
                outcome = "exit" if e.name() == "SystemExit" else "raise"
            except Prune as e:
                outcome = "prune"
                exc = e
            trace = self.path.trace
            self.path = Path([])       # generators that are still suspended belong to a path that is over
            for i in range(len(prefix), len(trace)):
                c, k, l = trace[i]
                for alt in range(c + 1, k):
                    todo.append([t[0] for t in trace[:i]] + [alt])
            yield Result(outcome, value, self.events, self.facts, list(trace), exc, self.data)

    def snapshot(self):
        if self.snapshot_data is not None:
            return
        saved = []
        seen = set()
        work = [m for m in self.modules.values()]
        while work:
            v = work.pop()
            if isinstance(v, (CONST_TYPES, Sym)) or id(v) in seen:
                continue
            seen.add(id(v))
            if isinstance(v, ModuleV):
                work.append(v.ns)
            elif isinstance(v, ClassV):
                work.append(v.ns)
                work.extend(v.enum_members.values())
            elif isinstance(v, Obj):
                work.append(v.attrs)
                if v.native is not None:
                    work.append(v.native)
            elif isinstance(v, (EnumM, NativeV)):
                work.append(v.attrs)
            elif isinstance(v, FuncV):
                work.append(v.attrs)
                work.extend(v.defaults)
                work.extend(x for x in v.kw_defaults if x is not MISSING)
                e = v.env
                while e is not None:
                    work.append(e.vars)
                    e = e.parent
            elif isinstance(v, BoundV):
                work.append(v.func)
                work.append(v.self_v)
            elif isinstance(v, (StaticV, ClassMethodV)):
                work.append(v.func)
            elif isinstance(v, PropertyV):
                work.extend((v.fget, v.fset, v.fdel))
            elif isinstance(v, dict):
                saved.append((v, dict(v)))
                work.extend(v.values())
                work.extend(v.keys())
            elif isinstance(v, (list, _co.deque)):
                saved.append((v, list(v)))
                work.extend(v)
            elif isinstance(v, set):
                saved.append((v, set(v)))
            elif isinstance(v, tuple):
                work.extend(v)
            elif isinstance(v, bytearray):
                saved.append((v, bytes(v)))
            elif isinstance(v, IterV) and isinstance(v.it, _it.count):
                saved.append((v, _copy.copy(v.it)))
            elif isinstance(v, HostV) and isinstance(v.h, _types.SimpleNamespace):
                work.append(v.h.__dict__)
            elif isinstance(v, Binder):
                work.extend(x for x in vars(v).values() if not isinstance(x, _types.FunctionType))
        self.snapshot_data = saved

    def restore(self):
        for c, copy in self.snapshot_data or ():
            t = type(c)
            if t is list:
                c[:] = copy
            elif isinstance(c, (dict, set)):
                c.clear()
                c.update(copy)
            elif t is IterV:
                c.it = _copy.copy(copy)
            elif isinstance(c, _co.deque):
                c.clear()
                c.extend(copy)
            else:
                c[:] = copy

    # ------------------------------------------------------------ modules
    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        path = self.prog.find(name)
        if path is None:
            raise AnalysisError(f"module {name} not found in the project")
        m = ModuleV(name, path)
        self.modules[name] = m
        m.ns["__name__"] = name
        if "." in name:
            par, _, leaf = name.rpartition(".")
            if self.prog.find(par):
                pm = self.load(par)
                pm.ns.setdefault(leaf, m)
        if path.endswith(".py"):
            tree = self.prog.tree(path)
            env = Env(m.ns, None, m)
            saved = self.loc
            self.exec_block(tree.body, env)
            self.loc = saved
        m.loaded = True
        return m

    def is_project(self, name):
        return self.prog.find(name) is not None

    def get(self, dotted):
        """module attr path e.g. amanda.compiler.codegen:ByteGen.append_op"""
        mod, _, rest = dotted.partition(":")
        v = self.load(mod)
        for part in rest.split(".") if rest else []:
            if isinstance(v, ModuleV):
                if part not in v.ns:
                    raise AnalysisError(f"anchor vanished: {dotted}")
                v = v.ns[part]
            elif isinstance(v, ClassV):
                x, _ = v.lookup(part)
                if x is None and part in v.enum_members:
                    x = v.enum_members[part]
                if x is None:
                    raise AnalysisError(f"anchor vanished: {dotted}")
                v = x
            else:
                raise AnalysisError(f"anchor vanished: {dotted}")
        return v

    # ------------------------------------------------------------ errors
    def raise_py(self, excname, msg="", crash=True):
        cls = EXC_NAMES.get(excname, Exception)
        try:
            e = cls(msg)
        except Exception:
            e = Exception(msg)
        raise PyRaise(e, crash=crash, where=self.loc)

    def unsupported(self, what, node=None):
        raise AnalysisError(f"unsupported construct {what} at {self.loc[0]}:{getattr(node, 'lineno', self.loc[1])}")

    # ------------------------------------------------------------ truth, equality
    def truth(self, v):
        if v is True or v is False:
            return v
        if v is None or isinstance(v, (bool, int, float, str, bytes, list, dict, set, tuple, frozenset, range, bytearray, _co.deque, DictView)):
            return bool(v)
        if isinstance(v, HostV):
            return bool(v.h)
        if isinstance(v, Sym):
            if v.kind == "bool" or True:
                t = v.term
                if isinstance(t, tuple) and t[0] == "not":
                    return not self.truth(Sym(t[1]))
                if ("is_none", t) in self.facts and self.facts[("is_none", t)]:
                    return False
                if t in self.eqc:
                    return bool(self.eqc[t])
                return self.decide(("truthy", t))
        if isinstance(v, Obj):
            if v.cls is not None:
                f, _ = v.cls.lookup("__bool__")
                if f is not None:
                    return self.truth(self.call(BoundV(v, f), [], {}))
                f, _ = v.cls.lookup("__len__")
                if f is not None:
                    return self.truth(self.call(BoundV(v, f), [], {}))
            if v.native is not None:
                return self.truth(v.native)
            return True
        if isinstance(v, EnumM):
            f, _ = v.cls.lookup("__bool__")
            if f is not None:
                return self.truth(self.call(BoundV(v, f), [], {}))
            if self._enum_int(v):
                return bool(v.value)
            return True
        if isinstance(v, IterV):
            return True
        return True

    def _enum_int(self, m):
        return any(isinstance(b, Ext) and b.name in ("enum.IntEnum", "enum.IntFlag", "int") for b in m.cls.mro())

    def eq(self, a, b):
        if a is b:
            return True
        if type(a) is str and type(b) is str or type(a) is int and type(b) is int:
            return a == b
        if type(a) is EnumM and type(b) is EnumM and a.cls is b.cls:
            return False
        if isinstance(a, Sym) or isinstance(b, Sym):
            if isinstance(a, Sym) and isinstance(b, Sym):
                if a.term == b.term:
                    return True
                x, y = sorted((a.term, b.term), key=repr)
                return self.decide(("eq", x, y))
            if isinstance(b, Sym):
                a, b = b, a
            # a Sym, b known
            if b is None:
                return self.is_none(a)
            t = a.term
            dom = self.dom.get(t) or (a.info or {}).get("dom") if isinstance(a.info, dict) or t in self.dom else None
            if dom is not None:
                if not any(self._same(b, d) for d in dom):
                    return False
                if len(dom) == 1:
                    return True
                r = self.decide(("eq", t, term_of(b)))
                self.dom[t] = [d for d in dom if self._same(b, d) == r]
                return r
            if t in self.eqc:
                return self._same(self.eqc[t], b)
            if self.facts.get(("is_none", t)):
                return False
            r = self.decide(("eq", t, term_of(b)))
            if r and (is_const(b) or isinstance(b, EnumM)):
                self.eqc[t] = b
            return r
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Obj) and x.cls is not None:
                f, owner = x.cls.lookup("__eq__")
                dc = self._dc_eq_owner(x.cls)
                if dc is not None and (owner is None or self._before(x.cls, dc, owner)):
                    if not isinstance(y, Obj) or y.cls is not x.cls:
                        continue
                    for fn, spec in self.dc_field_names(x.cls).items():
                        if spec.compare and not self.eq(self.getattr(x, fn), self.getattr(y, fn)):
                            return False
                    return True
                if isinstance(f, FuncV):
                    r = self.call(BoundV(x, f), [y], {})
                    if isinstance(r, Ext) and r.name == "NotImplemented":
                        continue
                    return self.truth(r)
        if isinstance(a, Obj) and a.native is not None:
            return self.eq(a.native, b)
        if isinstance(b, Obj) and b.native is not None:
            return self.eq(a, b.native)
        if isinstance(a, EnumM) or isinstance(b, EnumM):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, EnumM):
                    f = x.cls.lookup("__eq__")[0]
                    if isinstance(f, FuncV):
                        return self.truth(self.call(BoundV(x, f), [y], {}))
            if isinstance(a, EnumM) and isinstance(b, EnumM):
                if a.cls is b.cls:
                    return a is b
                if self._enum_int(a) and self._enum_int(b):
                    return a.value == b.value
                return False
            m, o = (a, b) if isinstance(a, EnumM) else (b, a)
            if self._enum_int(m) and isinstance(o, (int, float)):
                return m.value == o
            if any(isinstance(x, Ext) and x.name in ("enum.StrEnum", "str") for x in m.cls.mro()) and isinstance(o, str):
                return m.value == o
            return False
        if isinstance(a, (list, tuple, _co.deque)) and type(a) is type(b):
            return len(a) == len(b) and all(self.eq(x, y) for x, y in zip(a, b))
        if isinstance(a, dict) and isinstance(b, dict):
            if len(a) != len(b):
                return False
            for k in a:
                kk = self.find_key(b, k)
                if kk is MISSING or not self.eq(a[k], b[kk]):
                    return False
            return True
        if isinstance(a, (set, frozenset, DictView)) and isinstance(b, (set, frozenset, DictView)):
            a, b = [x.list() if isinstance(x, DictView) else x for x in (a, b)]
            return len(a) == len(b) and all(self.find_key(b, x) is not MISSING for x in a)
        if isinstance(a, (HostV, bytearray, range)) or isinstance(b, (HostV, bytearray, range)):
            return self.native(_op.eq, getattr(a, "h", a), getattr(b, "h", b))
        if isinstance(a, Ext) and isinstance(b, Ext):
            return a == b
        if isinstance(a, TypeConst) or isinstance(b, TypeConst):
            return a == b
        if is_const(a) and is_const(b):
            return a == b
        if isinstance(a, BoundV) and isinstance(b, BoundV):
            return a.func is b.func and a.self_v is b.self_v
        return False

    def _same(self, a, b):
        return a is b or (is_const(a) and is_const(b) and a == b and type(a) is type(b)) or (
            is_const(a) and is_const(b) and a == b)

    def _dc_eq_owner(self, cls):
        for c in cls.mro():
            if isinstance(c, ClassV) and c.dataclass and c.dc_eq and "__eq__" not in c.ns:
                return c
            if isinstance(c, ClassV) and "__eq__" in c.ns:
                return None
        return None

    def _before(self, cls, a, b):
        mro = cls.mro()
        return mro.index(a) <= mro.index(b)

    def is_none(self, v):
        if v is None:
            return True
        if isinstance(v, Sym):
            t = v.term
            if self.facts.get(("truthy", t)) or t in self.eqc or t in self.dom:
                return False
            if isinstance(v.info, dict) and v.info.get("not_none"):
                return False
            if t in self.isa_pos:
                return False
            return self.decide(("is_none", t))
        return False

    def is_(self, a, b):
        if a is b:
            return True
        if a is None or b is None:
            return self.is_none(a if b is None else b)
        if isinstance(a, Sym) or isinstance(b, Sym):
            return self.eq(a, b)
        if isinstance(a, (bool,)) or isinstance(b, bool):
            return a is b
        if isinstance(a, TypeConst) or isinstance(b, TypeConst):
            return self.eq(a, b)
        if isinstance(a, Ext) and isinstance(b, Ext):
            return a == b
        if isinstance(a, BoundV) and isinstance(b, BoundV):
            return False
        if is_const(a) and is_const(b) and type(a) is type(b) and isinstance(a, (int, str)):
            return a == b
        return False

    # ------------------------------------------------------------ isinstance
    def isinstance_(self, v, c):
        if isinstance(c, tuple) or isinstance(c, list):
            return any(self.isinstance_(v, x) for x in c)
        if isinstance(c, UnionTy):
            return any(self.isinstance_(v, x) for x in c.items)
        if c is None:
            return v is None
        if isinstance(c, (NativeV, TypeConst)):
            c = Ext(c.name)
        if isinstance(v, Obj):
            if v.cls is None:
                return self.decide(("isinstance", v.term, term_of(c)))
            if v.cls.issub(c):
                return True
            if isinstance(c, Ext):
                n = c.name.split(".")[-1]
                if n == "object":
                    return True
                if n in EXC_NAMES and "." not in c.name:
                    return any(isinstance(b, Ext) and b.name.split(".")[-1] in EXC_NAMES and issubclass(EXC_NAMES[b.name.split(".")[-1]], EXC_NAMES[n])
                               for b in v.cls.ext_bases())
                if n in ABC_NEEDS and c.name.split(".")[0] in ("collections", "typing"):
                    if v.native is not None and self.isinstance_(v.native, c):
                        return True
                    return all(v.cls.lookup(m)[0] is not None for m in ABC_NEEDS[n])
                if v.native is not None:
                    return self.isinstance_(v.native, c)
            if v.tag == "open" and isinstance(c, ClassV) and c.issub(v.cls):
                neg = self.isa_neg.setdefault(v.term, [])
                if any(c.issub(n) for n in neg):
                    return False
                if self.decide(("isinstance", v.term, c.qualname)):
                    v.cls = c
                    return True
                neg.append(c)
                return False
            return False
        if isinstance(v, Sym):
            t = v.term
            if isinstance(c, (Ext, NativeV)) and c.name in ("str", "int", "list", "dict", "bytes", "float", "bool") and v.kind:
                if v.kind == c.name:
                    return True
                if v.kind in ("str", "int", "list", "dict", "bytes", "float", "bool"):
                    return v.kind == "bool" and c.name == "int"
            for p in self.isa_pos.get(t, []):
                if p.issub(c):
                    return True
                if isinstance(c, ClassV) and not c.issub(p):
                    return False
                if isinstance(c, Ext):
                    return False
            for n in self.isa_neg.get(t, []):
                if isinstance(c, ClassV) and c.issub(n):
                    return False
            r = self.decide(("isinstance", t, term_of(c)))
            if isinstance(c, ClassV):
                (self.isa_pos if r else self.isa_neg).setdefault(t, []).append(c)
            return r
        name = c.name if isinstance(c, (Ext, TypeConst, NativeV)) else None
        if isinstance(v, EnumM):
            if isinstance(c, ClassV):
                return v.cls.issub(c)
            if name in ("str", "object") and any(isinstance(b, Ext) and b.name in (name, "enum.StrEnum") for b in v.cls.mro()) or name == "object":
                return True
            return name == "enum.Enum" or (name == "int" and self._enum_int(v)) or v.cls.issub(c) if name else False
        if isinstance(c, ClassV):
            if isinstance(v, BaseException):
                return False
            return False
        if name is None:
            self.unsupported(f"isinstance with {c}")
        if isinstance(v, HostV):
            h = host_of(name)
            if h is not MISSING and isinstance(h, type):
                return isinstance(v.h, h) or (name == "pathlib.Path" and hasattr(v.h, "parts"))
            return name == "object"
        name = name.split(".")[-1]
        if name == "object":
            return True
        if isinstance(v, IterV):
            return name in ("Iterable", "Iterator") or v.gen and name in ("Generator", "GeneratorType")
        if isinstance(v, IOV):
            return name in ("StringIO", "TextIO", "TextIOBase", "IOBase", "TextIOWrapper", "IO") if not v.binary else name in ("BytesIO", "IOBase", "BinaryIO", "IO")
        py = {"str": str, "int": int, "float": float, "bool": bool, "bytes": bytes, "list": list,
              "dict": dict, "set": set, "tuple": tuple, "object": object, "frozenset": frozenset,
              "Sequence": (list, tuple, str, range, bytes), "Iterable": (list, tuple, str, dict, set, frozenset, DictView, range, bytes, _co.deque),
              "Collection": (list, tuple, str, dict, set, frozenset, DictView, range, bytes), "Container": (list, tuple, str, dict, set, frozenset, range),
              "Sized": (list, tuple, str, dict, set, frozenset, DictView, range, bytes, _co.deque), "Reversible": (list, tuple, str, dict, range),
              "Hashable": (str, int, float, bytes, tuple, frozenset, type(None)), "MutableSequence": (list, bytearray, _co.deque), "Set": (set, frozenset),
              "MutableSet": set, "MutableMapping": dict, "Number": (int, float), "Integral": int, "Real": (int, float), "List": list, "Dict": dict, "Tuple": tuple, "Text": str,
              "bytearray": bytearray, "range": range, "deque": _co.deque, "defaultdict": _co.defaultdict, "OrderedDict": _co.OrderedDict,
              "Counter": _co.Counter, "complex": complex, "slice": slice, "FunctionType": FuncV, "MethodType": BoundV, "LambdaType": FuncV,
              "BuiltinFunctionType": NativeV, "EllipsisType": type(Ellipsis), "property": PropertyV, "staticmethod": StaticV, "classmethod": ClassMethodV,
              "Mapping": dict, "NoneType": type(None), "type": (ClassV, TypeConst),
              "Callable": (FuncV, BoundV, NativeV, ClassV)}.get(name)
        if name == "type" and isinstance(v, NativeV):
            return v.name in PYTYPES
        if py is None and name in EXC_NAMES:
            py = EXC_NAMES[name]
        if py is None:
            return False
        return isinstance(v, py)

    # ------------------------------------------------------------ attributes
    def getattr(self, v, name, default=MISSING):
        try:
            return self._getattr(v, name)
        except PyRaise as e:
            if default is not MISSING and e.name() == "AttributeError":
                return default
            raise

    def _getattr(self, v, name):
        if isinstance(v, Obj):
            r = v.attrs.get(name, MISSING)
            if r is not MISSING:
                return r
            if name == "__class__":
                return v.cls
            if name == "__dict__":
                return v.attrs
            cv, owner = v.cls.lookup(name) if v.cls is not None else (None, None)
            if isinstance(cv, (FuncV, PropertyV, StaticV, ClassMethodV, NativeV, Binder)):
                return self._bind(cv, v, v.cls, name)
            if isinstance(cv, Obj) and cv.cls.lookup("__get__")[0] is not None:
                return self.call_method(cv, "__get__", [v, v.cls])
            if v.lazy is not None:
                r = v.lazy(self, v, name)
                if r is not MISSING:
                    v.attrs[name] = r
                    return r
            if owner is not None:
                return cv
            if v.cls is not None and any(b.name.split(".")[-1] in EXC_NAMES for b in v.cls.ext_bases() if isinstance(b, Ext)):
                if name == "args":
                    return ()
                if name in ("__cause__", "__context__", "__traceback__", "__suppress_context__"):
                    return None
                if name == "with_traceback":
                    return NativeV(name, lambda a, k: v)
                if name == "add_note":
                    return NativeV(name, lambda a, k: v.attrs.setdefault("__notes__", []).append(a[0]))
                if name == "code" and v.attrs.get("args"):
                    return v.attrs["args"][0]
            if v.native is not None and not name.startswith("__"):
                nv = v.native
                if isinstance(nv, tuple) and name == "_replace":
                    return NativeV(name, lambda a, k: self.make_tuple(v.cls, [k.get(f, x) for f, x in zip(v.cls.nt, nv)]))
                if isinstance(nv, tuple) and name == "_asdict":
                    return NativeV(name, lambda a, k: dict(zip(v.cls.nt, nv)))
                return self._getattr(nv, name)
            ga, _ = v.cls.lookup("__getattr__") if v.cls is not None else (None, None)
            if ga is not None:
                return self.call(BoundV(v, ga), [name], {})
            r = self.object_attr(v, name)
            if r is not MISSING:
                return r
            self.raise_py("AttributeError", f"'{v.cls.name if v.cls else '?'}' object has no attribute '{name}'")
        if isinstance(v, Sym):
            if v.info and isinstance(v.info, dict) and name in v.info.get("attrs", {}):
                return v.info["attrs"][name]
            if v.kind in ("str", "int", "bytes", "list", "dict", "float") or True:
                return Sym(("attr", v.term, name))
        if isinstance(v, ModuleV):
            if name in v.ns:
                return v.ns[name]
            sub = v.name + "." + name
            if self.prog.find(sub):
                return self.load(sub)
            self.raise_py("AttributeError", f"module {v.name} has no attribute {name}")
        if isinstance(v, ClassV):
            if name in ("__name__", "__qualname__"):
                return v.name
            if name == "__mro__":
                return tuple(v.mro())
            if name == "mro":
                return NativeV("mro", lambda a, k: list(v.mro()))
            if name == "__bases__":
                return tuple(v.bases)
            if name == "__base__":
                return v.bases[0]
            if name == "__class__":
                return v.meta or self.builtins["type"]
            if name == "__subclasses__":
                return NativeV(name, lambda a, k: list(v.subs))
            if name == "__doc__":
                return ast.get_docstring(v.node) if v.node is not None else None
            if name == "__module__":
                return v.module.name
            if name == "__annotations__":
                return dict(v.ns.get("__annotations__", {}))
            if name == "__members__" and not v.is_enum:
                pass
            if name in ("_fields", "__match_args__") and getattr(v, "nt", None):
                return tuple(v.nt)
            if name == "_make" and getattr(v, "nt", None):
                return NativeV(name, lambda a, k: self.make_tuple(v, self.iterate(a[0])))
            if name == "__dataclass_fields__" and v.dataclass:
                return self.dc_fields_of(v)
            if v.is_enum:
                if name == "__members__":
                    return dict(v.enum_members)
                if name in v.enum_members:
                    return v.enum_members[name]
            cv, owner = v.lookup(name)
            if owner is not None:
                if isinstance(cv, ClassMethodV):
                    return BoundV(v, cv.func)
                if isinstance(cv, StaticV):
                    return cv.func
                if isinstance(cv, Obj) and cv.cls.lookup("__get__")[0] is not None:
                    return self.call_method(cv, "__get__", [None, v])
                return cv
            if name == "__dict__":
                return v.ns
            if v.meta is not None:
                cv, owner = v.meta.lookup(name)
                if owner is not None:
                    return self._bind(cv, v, v.meta, name)
            if name == "__init__":
                def init(a, k, c=v):
                    if c.dataclass and c.dc_init:
                        return self._dc_init(a[0], c, a[1:], k)
                    if a and isinstance(a[0], Obj) and any(isinstance(b, Ext) and b.name.split(".")[-1] in EXC_NAMES for b in c.ext_bases()):
                        a[0].attrs["args"] = tuple(a[1:])
                return NativeV("object.__init__", init)
            if name == "__new__":
                return NativeV("object.__new__", lambda a, k: self.raw_new(a[0], a[1:], k))
            if name in ("__str__", "__repr__", "__eq__", "__hash__", "__setattr__", "__getattribute__", "__delattr__", "__ne__"):
                return NativeV(name, lambda a, k: self.call(self.object_attr(a[0], name), list(a[1:]), k))
            if name in ("__init_subclass__",):
                return NativeV(name, lambda a, k: None)
            if name in ("__abstractmethods__",):
                return frozenset()
            for b in v.ext_bases():
                nb = b.name.split(".")[-1]
                if nb in PYTYPES and nb not in ("object", "type") and hasattr(PYTYPES[nb], name):
                    return NativeV(f"{nb}.{name}", lambda a, k: self.call_method(a[0].native if isinstance(a[0], Obj) else a[0], name, a[1:], k))
                if name.startswith("__") and name.endswith("__"):
                    continue
                if nb not in EXC_NAMES and b.name.split(".")[0] not in ("object", "abc", "typing", "enum", "typing_extensions", "collections"):
                    return Ext(f"{b.name}.{name}")
            self.raise_py("AttributeError", f"type object '{v.name}' has no attribute '{name}'")
        if isinstance(v, EnumM):
            if name in v.attrs:
                return v.attrs[name]
            if name == "value" or name == "_value_":
                return v.value
            if name == "name" or name == "_name_":
                return v.name
            if name in v.cls.enum_members:
                return v.cls.enum_members[name]
            if name == "__class__":
                return v.cls
            cv, owner = v.cls.lookup(name)
            if owner is not None:
                return self._bind(cv, v, v.cls, name)
            if not name.startswith("__") and isinstance(v.value, (int, str)) and any(
                    isinstance(b, Ext) and b.name in ("enum.IntEnum", "enum.IntFlag", "int", "str", "enum.StrEnum") for b in v.cls.mro()):
                return self._getattr(v.value, name)
            r = self.object_attr(v, name)
            if r is not MISSING:
                return r
            self.raise_py("AttributeError", f"'{v.cls.name}' object has no attribute '{name}'")
        if isinstance(v, FuncV):
            if name in v.attrs:
                return v.attrs[name]
            if name in ("__name__", "__qualname__"):
                return v.name
            if name == "__doc__":
                return ast.get_docstring(v.node) if not isinstance(v.node, ast.Lambda) else None
            if name == "__module__":
                return v.module.name
            if name == "__dict__":
                return v.attrs
            if name == "__annotations__":
                return {x.arg: ast.unparse(x.annotation) for x in v.node.args.posonlyargs + v.node.args.args + v.node.args.kwonlyargs if x.annotation}
            if name == "__defaults__":
                return tuple(v.defaults) or None
            if name == "__call__":
                return v
            if name == "__get__":
                return NativeV(name, lambda a, k: v if a[0] is None else BoundV(a[0], v))
            if name == "__code__":
                a = v.node.args
                vs = [x.arg for x in a.posonlyargs + a.args]
                return HostV(_types.SimpleNamespace(co_argcount=len(vs), co_varnames=tuple(vs + [x.arg for x in a.kwonlyargs]), co_name=v.name,
                                                    co_filename=v.module.path, co_firstlineno=getattr(v.node, "lineno", 0)))
            self.raise_py("AttributeError", f"'function' object has no attribute '{name}'")
        if isinstance(v, BoundV):
            if name == "__call__":
                return v
            if name == "__func__":
                return v.func
            if name == "__self__":
                return v.self_v
            return self._getattr(v.func, name)
        if isinstance(v, PropertyV):
            if name == "setter":
                def setter(a, k, p=v):
                    return PropertyV(p.fget, a[0], p.fdel)
                return NativeV("property.setter", setter)
            if name == "deleter":
                return NativeV("property.deleter", lambda a, k: PropertyV(v.fget, v.fset, a[0]))
            if name == "getter":
                return NativeV("property.getter", lambda a, k: PropertyV(a[0], v.fset, v.fdel))
            if name in ("fget", "fset", "fdel"):
                return getattr(v, name)
            if name == "__get__":
                return NativeV(name, lambda a, k: v if a[0] is None else self.call(v.fget, [a[0]], {}))
            self.raise_py("AttributeError", f"'property' object has no attribute '{name}'")
        if isinstance(v, SuperV):
            start = v.self_v.cls if isinstance(v.self_v, (Obj, EnumM)) else v.self_v
            if not isinstance(start, ClassV):
                start = v.cls
            mro = start.mro()
            i = mro.index(v.cls) + 1 if v.cls in mro else 1
            for c in mro[i:]:
                if isinstance(c, ClassV) and name in c.ns:
                    cv = c.ns[name]
                    if isinstance(v.self_v, ClassV) and isinstance(cv, FuncV):
                        if name in ("__new__", "__init_subclass__", "__class_getitem__"):
                            return cv if name == "__new__" else BoundV(v.self_v, cv)
                        return BoundV(v.self_v, cv) if v.self_v.meta is not None and c in v.self_v.meta.mro() else cv
                    return self._bind(cv, v.self_v, start, name)
                if isinstance(c, ClassV) and c.dataclass and name == "__init__" and c.dc_init:
                    return NativeV("dc.__init__", lambda a, k, c=c: self._dc_init(v.self_v, c, a, k))
                if isinstance(c, ClassV) and c.dataclass and name in ("__eq__", "__repr__"):
                    break
            if name == "__init__":
                def ext_init(a, k):
                    o = v.self_v
                    if isinstance(o, Obj):
                        if o.native is not None and a:
                            self.fill_native(o, a, k)
                        elif o.native is None:
                            o.attrs["args"] = tuple(a)
                return NativeV("ext.__init__", ext_init)
            if name == "__new__":
                def ext_new(a, k):
                    if v.cls is not None and any(isinstance(b, (Ext, NativeV)) and b.name == "type" for b in v.cls.mro()) and len(a) >= 4:
                        return self.meta_new(a)
                    return self.raw_new(a[0], a[1:], k)
                return NativeV("ext.__new__", ext_new)
            if name == "__call__" and isinstance(v.self_v, ClassV):
                return NativeV("type.__call__", lambda a, k: self.instantiate(v.self_v, a, k, meta=False))
            if name in ("__init_subclass__", "__set_name__", "__prepare__"):
                return NativeV(name, lambda a, k: {} if name == "__prepare__" else None)
            if isinstance(v.self_v, Obj):
                if v.self_v.native is not None:
                    return self._getattr(v.self_v.native, name)
                r = self.object_attr(v.self_v, name)
                if r is not MISSING:
                    return r
                if name == "__getattr__" or name == "__getattribute__":
                    return NativeV(name, lambda a, k: self.raise_py("AttributeError", f"'{v.self_v.cls.name}' object has no attribute '{a[0]}'"))
                if any(isinstance(b, Ext) and b.name not in ("object", "abc.ABC", "typing.Generic", "typing.Protocol") for b in start.ext_bases()):
                    return Ext(f"super.{name}")
            elif isinstance(v.self_v, EnumM):
                r = self.object_attr(v.self_v, name)
                if r is not MISSING:
                    return r
            self.raise_py("AttributeError", f"'super' object has no attribute '{name}'")
        if isinstance(v, Ext):
            if name == "__name__":
                return v.name.split(".")[-1]
            return self.ext_attr(v, name)
        if isinstance(v, OpenType):
            if name in ("__name__", "__qualname__"):
                if v.obj.tag != "open":
                    return v.obj.cls.name
                return Sym(("typename", v.obj.term), "str")
            return self._getattr(v.obj.cls, name)
        if isinstance(v, TypeConst):
            if name == "__name__" or name == "__qualname__":
                return v.name
            return NativeV(f"{v.name}.{name}", lambda a, k: self.call_method(a[0], name, a[1:], k))
        if isinstance(v, HostV):
            return self.host_attr(v, name)
        if isinstance(v, Binder):
            return v.attr(self, name)
        if isinstance(v, (IOV, IterV, list, dict, set, tuple, str, bytes, int, float, frozenset, bytearray, _co.deque, range, DictView, slice, complex)):
            if name == "__class__":
                return self.type_of(v)
            if name == "__len__":
                return NativeV("len", lambda a, k: self.builtin_len(v))
            if isinstance(v, IOV) and name in ("closed", "name"):
                return v.closed if name == "closed" else "<file>"
            h = v.h if isinstance(v, IOV) else {}.keys() if isinstance(v, DictView) else v
            if isinstance(v, IterV):
                if name not in ("__next__", "__iter__", "send", "close", "throw"):
                    self.raise_py("AttributeError", f"'generator' object has no attribute '{name}'")
            elif name not in ("__enter__", "__exit__") and not hasattr(h, name):
                self.raise_py("AttributeError", f"'{type(h).__name__}' object has no attribute '{name}'")
            if isinstance(v, (int, float, complex)) and name in ("real", "imag", "numerator", "denominator") or isinstance(v, (slice, range)) and name in ("start", "stop", "step"):
                return getattr(v, name)
            if isinstance(v, _co.defaultdict) and name == "default_factory" or isinstance(v, _co.deque) and name == "maxlen" or name == "__doc__":
                return getattr(v, name)
            if name == "maps":
                return getattr(v, name)
            return NativeV(f"{type(v).__name__}.{name}", lambda a, k: self.native_method(v, name, a, k))
        if v is None:
            self.raise_py("AttributeError", f"'NoneType' object has no attribute '{name}'")
        if isinstance(v, BaseException):
            if name == "args":
                return tuple(v.args)
            if name == "code":
                return v.args[0] if v.args else None
            if name == "__class__":
                return Ext(type(v).__name__)
            if name == "with_traceback":
                return NativeV(name, lambda a, k: v)
            if name in ("__traceback__", "__cause__", "__context__"):
                return getattr(v, "_sa" + name, None)
            if name == "add_note":
                return NativeV(name, lambda a, k: None)
            if not hasattr(v, name):
                self.raise_py("AttributeError", f"'{type(v).__name__}' object has no attribute '{name}'")
            r = getattr(v, name)
            if callable(r):
                return NativeV(name, lambda a, k: self.native(r, *a))
            return self.from_host(r)
        if isinstance(v, NativeV):
            if name in ("__name__", "__qualname__"):
                return v.name
            if name in v.attrs:
                return v.attrs[name]
            if name == "__doc__":
                return None
            if name == "__call__":
                return v
            if name == "__class__":
                return self.builtins["type"]
            if v.name in PYTYPES:
                if v.name == "object" and name in ("__setattr__", "__new__", "__init__", "__eq__", "__hash__", "__repr__", "__str__", "__getattribute__", "__delattr__"):
                    if name == "__new__":
                        return NativeV(name, lambda a, k: self.raw_new(a[0], a[1:], k))
                    return NativeV("object." + name, lambda a, k: self.call(self.object_attr(a[0], name), list(a[1:]), k))
                if v.name == "type" and name in ("__new__", "__call__", "__init__"):
                    return NativeV(name, lambda a, k: self.meta_new(a) if name == "__new__" else self.instantiate(a[0], a[1:], k, meta=False) if name == "__call__" else None)
                if v.name == "str" and name == "maketrans":
                    return NativeV(name, lambda a, k: self.native(str.maketrans, *a))
                if v.name == "bytes" and name == "fromhex":
                    return NativeV(name, lambda a, k: self.native(bytes.fromhex, *a))
                if v.name == "float" and name == "fromhex":
                    return NativeV(name, lambda a, k: self.native(float.fromhex, *a))
                if name == "__mro__":
                    return tuple(Ext(c.__name__) for c in PYTYPES[v.name].__mro__)
                if not hasattr(PYTYPES[v.name], name):
                    self.raise_py("AttributeError", f"type object '{v.name}' has no attribute '{name}'")
                if v.name == "dict" and name == "fromkeys":
                    return NativeV("dict.fromkeys", lambda a, k: {x: (a[1] if len(a) > 1 else None) for x in self.iterate(a[0])})
                if v.name == "int" and name == "from_bytes":
                    return NativeV("int.from_bytes", lambda a, k: int.from_bytes(*a, **k) if all(map(is_const, a)) else self.fresh("int", "int"))
                return NativeV(f"{v.name}.{name}", lambda a, k: self.call_method(a[0], name, a[1:], k))
            self.raise_py("AttributeError", f"'function' object has no attribute '{name}'")
        if isinstance(v, (UnionTy,)):
            if name == "__args__":
                return tuple(v.items)
            self.raise_py("AttributeError", name)
        if v is Ellipsis:
            self.raise_py("AttributeError", name)
        self.unsupported(f"attribute {name} of {v!r}")

    def ext_attr(self, v, name):
        full = f"{v.name}.{name}"
        if full in self.EXT_CONST:
            x = self.EXT_CONST[full]
            return dict(x) if isinstance(x, dict) else x
        if full == "os.path" or full == "posixpath":
            return Ext("os.path")
        h = host_of(full)
        if h is not MISSING and not callable(h) and not isinstance(h, type(posixpath)):
            return self.from_host(h)
        if h is MISSING and v.name in HOST_MODULES:
            m = HOST_MODULES[v.name]
            if not hasattr(m, name):
                self.raise_py("AttributeError", f"module '{v.name}' has no attribute '{name}'")
        return Ext(full)

    EXT_CONST = {"typing.TYPE_CHECKING": False, "sys.platform": "linux", "sys.byteorder": "little", "sys.maxsize": 2 ** 63 - 1,
                 "os.sep": "/", "os.path.sep": "/", "os.linesep": "\n", "os.name": "posix", "os.pathsep": ":", "os.curdir": ".", "os.pardir": "..",
                 "os.environ": {}, "sys.argv": ("amanda",), "sys.version_info": (3, 12, 3, "final", 0), "sys.path": (), "sys.flags.optimize": 0,
                 "sys.hexversion": 0x030c03f0, "os.path.altsep": None, "sys.executable": "/usr/bin/python3", "os.path.pardir": ".."}

    def _bind(self, cv, self_v, cls, name=None):
        if isinstance(cv, FuncV):
            return BoundV(self_v, cv)
        if isinstance(cv, StaticV):
            return cv.func
        if isinstance(cv, ClassMethodV):
            if isinstance(cv.func, PropertyV):
                return self.call(cv.func.fget, [cls], {})
            return BoundV(cls, cv.func)
        if isinstance(cv, PropertyV):
            return self.call(cv.fget, [self_v], {})
        if isinstance(cv, Binder):
            return cv.bind(self, self_v, name)
        if isinstance(cv, Obj) and cv.cls.lookup("__get__")[0] is not None:
            return self.call_method(cv, "__get__", [self_v, cls])
        return cv

    def type_of(self, v):
        if isinstance(v, Obj):
            return OpenType(v) if v.tag == "open" else v.cls
        if isinstance(v, EnumM):
            return v.cls
        if isinstance(v, Sym):
            return Sym(("type", v.term))
        if isinstance(v, ClassV):
            return v.meta or self.builtins["type"]
        if isinstance(v, FuncV):
            return Ext("types.FunctionType")
        if isinstance(v, BoundV):
            return Ext("types.MethodType")
        if isinstance(v, BaseException):
            return Ext(type(v).__name__)
        if isinstance(v, HostV):
            return Ext(f"{type(v.h).__module__}.{type(v.h).__name__}")
        n = type(v).__name__
        if isinstance(v, NativeV):
            return self.builtins["type"] if v.name in PYTYPES else TypeConst("builtin_function_or_method")
        if isinstance(v, IterV):
            return Ext("types.GeneratorType")
        if n in self.builtins and n in PYTYPES:
            return self.builtins[n]
        if n in ("defaultdict", "OrderedDict", "Counter", "deque", "ChainMap"):
            return Ext("collections." + n)
        return TypeConst(n)

    def object_attr(self, v, name):
        """what object itself defines"""
        if name == "__eq__":
            return NativeV(name, lambda a, k: True if v is a[0] else Ext("NotImplemented") if not (
                isinstance(v, Obj) and v.cls.dataclass and isinstance(a[0], Obj)) else self.eq(v, a[0]))
        if name == "__ne__":
            return NativeV(name, lambda a, k: v is not a[0])
        if name == "__hash__":
            return NativeV(name, lambda a, k: id(v))
        if name in ("__str__", "__repr__"):
            if isinstance(v, EnumM):
                return NativeV(name, lambda a, k: f"{v.cls.name}.{v.name}" if name == "__str__" else f"<{v.cls.name}.{v.name}: {self.to_repr(v.value)}>")
            return NativeV(name, lambda a, k: self.obj_str(v) if name == "__str__" else self.obj_repr(v))
        if name == "__format__":
            return NativeV(name, lambda a, k: self.native(format, self.to_str(v), *a))
        if name == "__setattr__":
            return NativeV(name, lambda a, k: self.setattr(v, a[0], a[1], raw=True))
        if name == "__getattribute__":
            return NativeV(name, lambda a, k: self._getattr(v, a[0]))
        if name == "__delattr__":
            return NativeV(name, lambda a, k: v.attrs.pop(a[0], None) and None)
        if name == "__doc__":
            return ast.get_docstring(v.cls.node) if v.cls.node is not None else None
        if name == "__module__":
            return v.cls.module.name
        if name == "__init__":
            return NativeV(name, lambda a, k: None)
        if name == "__init_subclass__":
            return NativeV(name, lambda a, k: None)
        return MISSING

    def setattr(self, v, name, value, raw=False):
        if isinstance(v, Obj):
            cv, _ = v.cls.lookup(name) if v.cls is not None else (None, None)
            if not raw and v.cls is not None:
                sa, _ = v.cls.lookup("__setattr__")
                if isinstance(sa, FuncV):
                    self.call(BoundV(v, sa), [name, value], {})
                    return
                if v.cls.dc_frozen and not getattr(v, "native", None):
                    self.raise_py("AttributeError", f"cannot assign to field '{name}'")
            if isinstance(cv, Obj) and cv.cls.lookup("__set__")[0] is not None:
                self.call_method(cv, "__set__", [v, value])
                return
            if isinstance(v.native, tuple) and name in v.attrs:
                self.raise_py("AttributeError", "can't set attribute")
            if isinstance(cv, PropertyV):
                if cv.fset is None:
                    self.raise_py("AttributeError", f"can't set attribute {name}")
                self.call(cv.fset, [v, value], {})
                return
            h = self.hooks.get("setattr")
            if h:
                h(self, v, name, value)
            v.attrs[name] = value
            return
        if isinstance(v, ClassV):
            v.ns[name] = value
            ClassV.epoch += 1
            return
        if isinstance(v, ModuleV):
            v.ns[name] = value
            return
        if isinstance(v, FuncV):
            v.attrs[name] = value
            return
        if isinstance(v, Sym):
            if v.info is None:
                v.info = {}
            if isinstance(v.info, dict):
                v.info.setdefault("attrs", {})[name] = value
            self.emit("setattr", target=v, name=name, value=value)
            return
        if isinstance(v, EnumM):
            v.attrs[name] = value
            return
        if isinstance(v, HostV) and isinstance(v.h, _types.SimpleNamespace):
            setattr(v.h, name, value)
            return
        if isinstance(v, NativeV):
            v.attrs[name] = value
            return
        if isinstance(v, BoundV):
            self.raise_py("AttributeError", f"'method' object has no attribute '{name}'")
        if isinstance(v, BaseException):
            if name.startswith("__"):
                v.__dict__["_sa" + name] = value
            else:
                setattr(v, name, value)
            return
        if isinstance(v, Ext):
            self.emit("ext", name="setattr:" + v.name, args=[name, value], kwargs={})
            return
        if v is None or is_const(v) or isinstance(v, (list, dict, set)):
            self.raise_py("AttributeError", f"'{type(v).__name__}' object has no attribute '{name}'")
        self.unsupported(f"setattr on {v!r}")

    # ------------------------------------------------------------ calls
    def call_method(self, v, name, args, kw=None):
        return self.call(self.getattr(v, name), list(args), kw or {})

    def call(self, f, args, kw, node=None):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Prune("step bound")
        if isinstance(f, BoundV):
            return self.call_func(f.func, [f.self_v] + list(args), kw) if isinstance(f.func, FuncV) else self.call(f.func, [f.self_v] + list(args), kw)
        if isinstance(f, FuncV):
            return self.call_func(f, args, kw)
        if isinstance(f, NativeV):
            return f.fn(args, kw)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kw)
        if isinstance(f, Ext):
            return self.call_ext(f, args, kw)
        if isinstance(f, StaticV) or isinstance(f, ClassMethodV):
            return self.call(f.func, args, kw)
        if isinstance(f, TypeConst):
            return self.call(self.builtins[f.name], args, kw)
        if isinstance(f, Sym):
            return self.call_sym(f, args, kw)
        if isinstance(f, Obj):
            c, _ = f.cls.lookup("__call__") if f.cls is not None else (None, None)
            if c is not None:
                return self.call(self._bind(c, f, f.cls), args, kw)
        if isinstance(f, Binder):
            return f.call(self, args, kw)
        if isinstance(f, HostV) and callable(f.h):
            return self.host_call(f.h, args, kw)
        if isinstance(f, UnionTy):
            self.raise_py("TypeError", "'UnionType' object is not callable")
        if f is None or is_const(f) or isinstance(f, (list, dict, set, EnumM, Obj, HostV, IterV)):
            self.raise_py("TypeError", f"'{type(f).__name__}' object is not callable")
        self.unsupported(f"call of {f!r}")

    def call_sym(self, f, args, kw):
        h = self.hooks.get("call_sym")
        if h:
            r = h(self, f, args, kw)
            if r is not NotImplemented:
                return r
        pure = False
        t = f.term
        if isinstance(t, tuple) and t[0] == "attr":
            base = t[1]
            pure = True
        self.emit("symcall", fn_term=f.term, args=args, kwargs=kw)
        if pure and all(not isinstance(a, (list, dict, set)) for a in args) and t[2] in (
            "isspace", "isdigit", "isalpha", "isalnum", "strip", "replace", "split", "lower", "upper",
            "startswith", "endswith", "format", "encode", "decode", "find", "rfind", "join", "rstrip",
            "lstrip", "isidentifier", "isnumeric", "isdecimal", "splitlines", "rpartition", "partition",
        ):
            return Sym(("call", t) + tuple(term_of(a) for a in args) + tuple((k, term_of(v)) for k, v in sorted(kw.items())))
        self.fresh_n += 1
        return Sym(("call", t) + tuple(term_of(a) for a in args) + (("#", self.fresh_n),))

    def bind_args(self, f, args, kw):
        a = f.node.args
        if not kw:
            try:
                pos = a._simple
            except AttributeError:
                pos = a._simple = None if a.vararg or a.kwarg or a.kwonlyargs else tuple(x.arg for x in a.posonlyargs + a.args)
            if pos is not None and len(pos) == len(args):
                return dict(zip(pos, args))
        out = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kw = dict(kw)
        n = len(pos)
        for i, name in enumerate(pos):
            if i < len(args):
                out[name] = args[i]
            elif name in kw:
                out[name] = kw.pop(name)
            else:
                di = i - (n - len(f.defaults))
                if di >= 0:
                    out[name] = f.defaults[di]
                else:
                    self.raise_py("TypeError", f"{f.name}() missing argument '{name}'")
        for name in pos[: len(args)]:
            if name in kw:
                self.raise_py("TypeError", f"{f.name}() got multiple values for argument '{name}'")
        extra = args[n:]
        if a.vararg:
            out[a.vararg.arg] = tuple(extra)
        elif extra:
            self.raise_py("TypeError", f"{f.name}() takes {n} positional arguments but {len(args)} were given")
        for i, x in enumerate(a.kwonlyargs):
            if x.arg in kw:
                out[x.arg] = kw.pop(x.arg)
            elif f.kw_defaults[i] is not MISSING:
                out[x.arg] = f.kw_defaults[i]
            else:
                self.raise_py("TypeError", f"{f.name}() missing keyword argument '{x.arg}'")
        if a.kwarg:
            out[a.kwarg.arg] = kw
        elif kw:
            self.raise_py("TypeError", f"{f.name}() got an unexpected keyword argument '{next(iter(kw))}'")
        return out

    def call_func(self, f, args, kw):
        if type(f) is CtxFunc:
            return CtxMgrV(IterV(self.gen_run(f, self.func_env(f, self.bind_args(f, args, kw))), gen=True))
        bound = self.bind_args(f, args, kw)
        h = self.hooks.get(f.qualname) if f.qualname in self.hooks else None
        if h is not None:
            r = h(self, f, bound)
            if r is not NotImplemented:
                return r
        return self.run_func(f, bound)

    def run_func(self, f, bound):
        if len(self.stack) >= self.max_depth:
            raise Prune(f"call depth at {f.qualname}")
        env = self.func_env(f, bound)
        if f.qualname not in self.analysed:
            self.analysed[f.qualname] = f"{f.module.path}:{getattr(f.node, 'lineno', 0)}"
        if f.is_gen is None:
            f.is_gen = _has_yield(f.node)
        if f.is_gen:
            return IterV(self.gen_run(f, env), gen=True)
        saved = self.loc
        self.stack.append(f)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, env)
            try:
                self.exec_block(f.node.body, env)
            except _Return as r:
                return r.value
            return None
        finally:
            self.stack.pop()
            self.loc = saved

    def func_env(self, f, bound):
        loc, gl, nl = self._locals(f)
        return Env(dict(bound), f.env, f.module, f.cls, False, loc, gl, nl)

    def _locals(self, f):
        try:
            return f.node._sa_locals
        except AttributeError:
            c = f.node._sa_locals = _local_names(f.node)
            return c

    # ------------------------------------------------------------ classes
    def dc_field_names(self, cls):
        out = {}
        for c in reversed(cls.mro()):
            if isinstance(c, ClassV) and c.dataclass:
                for n, spec in c.dc_fields:
                    out[n] = spec
        return out

    def dc_fields_of(self, cls):
        out = {}
        for n, spec in self.dc_field_names(cls).items():
            out[n] = HostV(_types.SimpleNamespace(name=n, default=spec.default, default_factory=spec.factory, init=spec.init, repr=spec.repr,
                                                  compare=spec.compare, kw_only=spec.kw_only))
        return out

    def _dc_init(self, obj, cls, args, kw):
        fields = self.dc_field_names(cls)
        names = [n for n, sp in fields.items() if sp.init and not sp.kw_only and not cls.dc_kw]
        args = list(args)
        kw = dict(kw)
        if len(args) > len(names):
            self.raise_py("TypeError", f"{cls.name}.__init__() takes {len(names) + 1} positional arguments but {len(args) + 1} were given")
        given = dict(zip(names, args))
        extra = {}
        for n, spec in fields.items():
            if n in given:
                if n in kw:
                    self.raise_py("TypeError", f"{cls.name}.__init__() got multiple values for argument '{n}'")
                v = given[n]
            elif n in kw and spec.init:
                v = kw.pop(n)
            else:
                if spec.factory is not None:
                    v = self.call(spec.factory, [], {})
                elif spec.has_default:
                    v = spec.default
                elif not spec.init:
                    continue
                else:
                    self.raise_py("TypeError", f"{cls.name}.__init__() missing 1 required positional argument: '{n}'")
            if spec.initvar:
                extra[n] = v
                continue
            cv = cls.lookup(n)[0]
            if isinstance(cv, PropertyV) and cv.fset is not None:
                self.call(cv.fset, [obj, v], {})
            else:
                obj.attrs[n] = v
        if kw:
            self.raise_py("TypeError", f"{cls.name}.__init__() got an unexpected keyword argument '{next(iter(kw))}'")
        p, _ = cls.lookup("__post_init__")
        if p is not None:
            self.call(BoundV(obj, p), list(extra.values()), {})

    def make_tuple(self, cls, items):
        o = Obj(cls)
        o.native = tuple(items)
        o.attrs.update(zip(cls.nt, o.native))
        return o

    def fill_native(self, o, args, kw):
        if isinstance(o.native, list):
            o.native[:] = self.iterate(args[0]) if args else []
        elif isinstance(o.native, dict):
            o.native.update(self.builtins["dict"].fn(args, kw))
        elif isinstance(o.native, set):
            o.native.update(self.iterate(args[0]) if args else [])
        elif isinstance(o.native, _co.deque):
            o.native.extend(self.iterate(args[0]) if args else [])

    def raw_new(self, cls, args, kw):
        """object.__new__ / list.__new__ / str.__new__ ..."""
        if not isinstance(cls, ClassV):
            return self.call(cls, list(args), kw)
        obj = Obj(cls)
        for b in cls.ext_bases():
            n = b.name.split(".")[-1] if isinstance(b, Ext) else getattr(b, "name", "")
            if n in ("list", "UserList"):
                obj.native = []
            elif n in ("dict", "OrderedDict", "UserDict"):
                obj.native = {}
            elif n == "defaultdict":
                obj.native = _co.defaultdict()
            elif n == "Counter":
                obj.native = _co.Counter()
            elif n == "deque":
                obj.native = _co.deque()
            elif n == "set":
                obj.native = set()
            elif n in ("str", "int", "float", "tuple", "bytes", "frozenset"):
                obj.native = self.builtins[n].fn(list(args), kw)
            else:
                continue
            break
        if any(isinstance(b, Ext) and b.name.split(".")[-1] in EXC_NAMES for b in cls.ext_bases()):
            obj.attrs["args"] = tuple(args)
        return obj

    def meta_new(self, a):
        """type.__new__(meta, name, bases, namespace)"""
        pre = self.data.get("metacls") if not isinstance(a[0], NativeV) else None
        if pre is not None:
            pre.ns.update(a[3] if a[3] is not pre.ns else {})
            return pre
        ns = dict(a[3])
        cls = ClassV(a[1], a[1], list(a[2]) or [Ext("object")], ns, self.stack[-1].module if self.stack else None, None)
        cls.dc_eq = cls.dc_init = False
        cls.meta = a[0] if isinstance(a[0], ClassV) else None
        cls.done = True
        return cls

    def instantiate(self, cls, args, kw, meta=True):
        if cls.is_enum:
            v = args[0]
            for m in cls.enum_members.values():
                if m is v or self.eq(m.value, v):
                    return m
            f, _ = cls.lookup("_missing_")
            if f is not None:
                r = self.call(self._bind(f, None, cls), [v], {})
                if r is not None:
                    return r
            self.raise_py("ValueError", f"{self.to_repr(v)} is not a valid {cls.name}")
        if meta and cls.meta is not None:
            f, _ = cls.meta.lookup("__call__")
            if f is not None:
                return self.call(BoundV(cls, f), args, kw)
        h = self.hooks.get("new:" + cls.qualname)
        if h is not None:
            r = h(self, cls, args, kw)
            if r is not NotImplemented:
                return r
        if getattr(cls, "nt", None) and cls.lookup("__new__")[0] is None:
            return self.nt_new(cls, args, kw)
        new, _ = cls.lookup("__new__")
        if new is not None:
            obj = self.call(new.func if isinstance(new, (StaticV, ClassMethodV)) else new, [cls] + list(args), kw)
            if not isinstance(obj, Obj) or not obj.cls.issub(cls):
                return obj
        elif cls.plain:
            obj = Obj(cls)
        else:
            obj = self.raw_new(cls, args, kw)
        for c in cls.mro():
            if not isinstance(c, ClassV):
                continue
            if "__init__" in c.ns:
                f = c.ns["__init__"]
                r = self.call_func(f, [obj] + list(args), kw) if isinstance(f, FuncV) else self.call(self._bind(f, obj, cls), args, kw)
                if r is not None:
                    self.raise_py("TypeError", f"__init__() should return None, not '{type(r).__name__}'")
                return obj
            if c.dataclass and c.dc_init:
                self._dc_init(obj, c if c.dc_kw or cls.dataclass is False else c, args, kw)
                return obj
        if obj.native is not None:
            self.fill_native(obj, args, kw)
            return obj
        ext = [b.name.split(".")[-1] for b in cls.ext_bases() if isinstance(b, Ext)]
        if any(e in EXC_NAMES for e in ext):
            obj.attrs["args"] = tuple(args)
        elif (args or kw) and new is None:
            if any(e not in ("object", "ABC", "Protocol", "Generic") for e in ext):
                obj.attrs["args"] = tuple(args)
            else:
                self.raise_py("TypeError", f"{cls.name}() takes no arguments")
        return obj

    def nt_new(self, cls, args, kw):
        vals = list(args)
        if len(vals) > len(cls.nt):
            self.raise_py("TypeError", f"{cls.name}.__new__() takes {len(cls.nt) + 1} positional arguments but {len(vals) + 1} were given")
        kw = dict(kw)
        for n in cls.nt[len(vals):]:
            if n in kw:
                vals.append(kw.pop(n))
            elif n in cls.nt_defaults:
                vals.append(cls.nt_defaults[n])
            else:
                self.raise_py("TypeError", f"{cls.name}.__new__() missing 1 required positional argument: '{n}'")
        if kw:
            self.raise_py("TypeError", f"{cls.name}.__new__() got an unexpected keyword argument '{next(iter(kw))}'")
        return self.make_tuple(cls, vals)

    def make_class(self, node, env):
        bases = []
        for b in node.bases:
            if isinstance(b, ast.Starred):
                bases.extend(self.iterate(self.eval(b.value, env)))
                continue
            v = self.eval(b, env)
            if isinstance(v, UnionTy) or isinstance(v, Sym):
                v = Ext("typing.Any")
            if isinstance(v, NativeV):
                v = Ext("typing.NamedTuple" if v.name == "NamedTuple" else v.name)
            bases.append(v)
        kws = {}
        meta = None
        for k in node.keywords:
            if k.arg == "metaclass":
                meta = self.eval(k.value, env)
            elif k.arg is not None:
                kws[k.arg] = self.eval(k.value, env)
        if not isinstance(meta, ClassV):
            meta = next((b.meta for b in bases if isinstance(b, ClassV) and b.meta is not None), None)
        qual = (env.module.name + "." + node.name) if env.cls is None else f"{env.cls}.{node.name}"
        if env.cls is None and env.parent is not None and self.stack:
            qual = f"{self.stack[-1].qualname}.<locals>.{node.name}"
        ns = {}
        cls = ClassV(node.name, qual, bases or [Ext("object")], ns, env.module, node)
        cls.dc_eq = cls.dc_init = False
        cls.meta = meta
        cenv = Env(ns, env, env.module, cls=cls, is_class=True)
        ext = [b.name for b in cls.ext_bases() if isinstance(b, Ext)]
        cls.is_enum = any(e in ("enum.Enum", "enum.IntEnum", "enum.Flag", "enum.IntFlag", "enum.StrEnum") for e in ext) or any(
            isinstance(b, ClassV) and b.is_enum for b in bases)
        for b in bases:
            if isinstance(b, ClassV):
                b.subs.append(cls)
        nt = any(isinstance(b, Ext) and b.name == "typing.NamedTuple" for b in bases)
        if not nt:
            for b in cls.mro()[1:]:
                if isinstance(b, ClassV) and getattr(b, "nt", None):
                    cls.nt, cls.nt_defaults = b.nt, b.nt_defaults
                    break
        fields = []
        kwonly = False
        if cls.is_enum:
            self._enum_body(cls, node, cenv)
        else:
            anns = {}
            for st in node.body:
                if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                    ann = ast.unparse(st.annotation)
                    nm = self.mangle(st.target.id, cenv)
                    anns[nm] = ann
                    if "KW_ONLY" in ann:
                        kwonly = True
                        continue
                    if st.value is not None:
                        v = self.eval(st.value, cenv)
                        if isinstance(v, FieldSpec):
                            spec = v
                            if v.has_default:
                                ns[nm] = v.default
                        else:
                            spec = FieldSpec(default=v, has_default=True)
                            ns[nm] = v
                    else:
                        spec = FieldSpec()
                    spec.kw_only = spec.kw_only or kwonly
                    spec.initvar = "InitVar" in ann
                    if "ClassVar" not in ann:
                        fields = [x for x in fields if x[0] != nm]
                        fields.append((nm, spec))
                else:
                    self.exec_stmt(st, cenv)
            if anns:
                ns["__annotations__"] = anns
        cls.dc_fields = fields
        if nt:
            cls.nt = [n for n, _ in fields]
            cls.nt_defaults = {n: sp.default for n, sp in fields if sp.has_default}
            for n in cls.nt:
                ns.pop(n, None)
            cls.bases = [Ext("tuple") if isinstance(b, Ext) and b.name == "typing.NamedTuple" else b for b in cls.bases]
            cls._mro = None
        cls.plain = all(isinstance(b, ClassV) or b.name in ("object", "abc.ABC", "typing.Generic", "typing.Protocol") for b in cls.mro() if isinstance(b, (ClassV, Ext)))
        cls.done = True
        ClassV.epoch += 1
        if meta is not None:
            saved = self.data.get("metacls")
            self.data["metacls"] = cls
            try:
                f, _ = meta.lookup("__new__")
                if f is not None:
                    self.call(f.func if isinstance(f, StaticV) else f, [meta, node.name, tuple(bases), ns], kws)
                f, _ = meta.lookup("__init__")
                if f is not None:
                    self.call(BoundV(cls, f), [node.name, tuple(bases), ns], kws)
            finally:
                self.data["metacls"] = saved
        for n, v in list(ns.items()):
            if isinstance(v, Obj) and v.cls is not None:
                f, _ = v.cls.lookup("__set_name__")
                if f is not None:
                    self.call(BoundV(v, f), [cls, n], {})
        for b in cls.mro()[1:]:
            if isinstance(b, ClassV) and "__init_subclass__" in b.ns:
                f = b.ns["__init_subclass__"]
                self.call(f.func if isinstance(f, ClassMethodV) else f, [cls], kws)
                break
        ClassV.epoch += 1
        result = cls
        for d in reversed(node.decorator_list):
            dv = d.func if isinstance(d, ast.Call) else d
            v = self.eval(dv, env)
            nm = v.name if isinstance(v, (Ext, NativeV)) else None
            if nm in ("dataclasses.dataclass", "dataclass"):
                opts = {k.arg: self.eval(k.value, env) for k in d.keywords} if isinstance(d, ast.Call) else {}
                self.make_dataclass(cls, opts)
            elif nm == "functools.total_ordering":
                cls.total = True
            elif isinstance(v, Ext):
                pass
            else:
                result = self.call(self.eval(d, env), [result], {})
        return result

    def make_dataclass(self, cls, opts):
        cls.dataclass = True
        cls.dc_eq = opts.get("eq", True)
        cls.dc_init = opts.get("init", True) and "__init__" not in cls.ns
        cls.dc_order = opts.get("order", False)
        cls.dc_frozen = opts.get("frozen", False)
        cls.dc_hash = cls.dc_frozen or opts.get("unsafe_hash", False)
        cls.dc_kw = opts.get("kw_only", False)
        cls.dc_repr = opts.get("repr", True) and "__repr__" not in cls.ns
        if cls.dc_kw:
            for _, sp in cls.dc_fields:
                sp.kw_only = True
            cls.dc_kw = False
        return cls

    def mangle(self, name, env):
        if name.startswith("__") and not name.endswith("__") and env.cls is not None:
            return f"_{env.cls.name.lstrip('_')}{name}"
        return name

    def _enum_body(self, cls, node, cenv):
        vals = {}
        last = [None]

        def member(name, v):
            if name.startswith("_"):
                cls.ns[name] = v
                return
            if isinstance(v, (FuncV, PropertyV, StaticV, ClassMethodV, Binder)) or isinstance(v, Ext) and v.name == "enum.nonmember()":
                cls.ns[name] = v
                return
            if isinstance(v, Ext) and v.name == "enum.auto()":
                g, _ = cls.lookup("_generate_next_value_")
                if g is not None:
                    v = self.call(g.func if isinstance(g, StaticV) else g, [name, 1, len(vals), list(vals.values())], {})
                elif any(isinstance(b, Ext) and b.name == "enum.StrEnum" for b in cls.mro()):
                    v = name.lower()
                elif any(isinstance(b, Ext) and b.name in ("enum.Flag", "enum.IntFlag") for b in cls.mro()):
                    v = 1 << len(vals)
                else:
                    ints = [x for x in vals.values() if isinstance(x, int)]
                    # CPython >= 3.11: highest value so far + 1; the project supports older: last + 1
                    v = (last[0] + 1) if isinstance(last[0], int) else (max(ints) + 1 if ints else 1)
            last[0] = v
            vals[name] = v
            for m in list(cls.enum_members.values()):
                if type(m.value) is type(v) and self.eq(m.value, v):
                    cls.enum_members[name] = m
                    break
            else:
                m = cls.enum_members[name] = EnumM(cls, name, v)
                new, _ = cls.lookup("__new__")
                if isinstance(new, FuncV):
                    o = self.call(new, [cls] + (list(v) if isinstance(v, tuple) else [v]), {})
                    if isinstance(o, Obj):
                        m.attrs.update({k: x for k, x in o.attrs.items() if k != "_value_"})
                        if "_value_" in o.attrs:
                            m.value = o.attrs["_value_"]
                todo.append((m, v))
            cls.ns[name] = cls.enum_members[name]

        todo = []
        for st in node.body:
            if isinstance(st, ast.Assign) and all(isinstance(t, ast.Name) for t in st.targets):
                v = self.eval(st.value, cenv)
                for t in st.targets:
                    member(t.id, v)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                member(st.target.id, self.eval(st.value, cenv))
            elif isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Tuple):
                for t, v in zip(st.targets[0].elts, self.iterate(self.eval(st.value, cenv))):
                    member(t.id, v)
            elif isinstance(st, ast.AnnAssign):
                pass
            else:
                self.exec_stmt(st, cenv)
        init, _ = cls.lookup("__init__")
        if isinstance(init, FuncV):
            for m, v in todo:
                self.call(BoundV(m, init), list(v) if isinstance(v, tuple) else [v], {})

    # ------------------------------------------------------------ external calls
    def call_ext(self, f, args, kw):
        n = f.name
        h = self.hooks.get("ext:" + n)
        if h is not None:
            r = h(self, args, kw)
            if r is not NotImplemented:
                return r
        if n in EXT_PURE and all(is_const(a) for a in args):
            if all(is_const(a) for a in args) and not kw:
                try:
                    return EXT_PURE[n](*args)
                except Exception as e:
                    raise PyRaise(e, crash=True, where=self.loc)
            return Sym(("ext", n) + tuple(term_of(a) for a in args))
        short = n.split(".")[-1]
        if self.choice is not None and n.split(".")[0] in ("random", "secrets", "time", "uuid", "datetime", "os", "tempfile", "threading"):
            r = host_choice(self, n, args, kw)
            if r is not MISSING:
                return r
        f = LIB.get(n)
        if f is not None:
            return f(self, list(args), kw)
        if n in ("sys.exit", "os._exit", "exit", "quit"):
            self.emit("exit", args=args, ext=n)
            raise PyRaise(SystemExit(*args), where=self.loc)
        if n.endswith("()"):
            self.raise_py("TypeError", f"'{n}' object is not callable")
        h = host_of(n)
        if h is not MISSING and callable(h):
            if isinstance(h, type) and issubclass(h, BaseException):
                return self.native(h, *args)
            if not any(isinstance(x, Sym) or isinstance(x, Ext) and host_of(x.name) is MISSING for x in list(args) + list(kw.values())):
                return self.host_call(h, args, kw)
            return Sym(("ext", n) + tuple(term_of(a) for a in list(args) + list(kw.values())))
        if short in EXC_NAMES and "." not in n:
            try:
                return EXC_NAMES[short](*args)
            except Exception:
                return EXC_NAMES[short]()
        if short == "__init__" or n.startswith("super.") or short == "__init_subclass__":
            return None
        ev = self.emit("ext", name=n, args=args, kwargs=kw)
        self.ext_calls[n] = self.ext_calls.get(n, 0) + 1
        self.fresh_n += 1
        r = Sym(("ext", n) + tuple(term_of(a) for a in args) + (("#", self.fresh_n),))
        ev["result"] = r
        return r

    def copy_val(self, v, deep, memo):
        if id(v) in memo:
            return memo[id(v)]
        rec = (lambda x: self.copy_val(x, True, memo)) if deep else (lambda x: x)
        if isinstance(v, Obj):
            m = v.cls.lookup("__deepcopy__" if deep else "__copy__")[0] if v.cls is not None else None
            if m is not None:
                return self.call(BoundV(v, m), [memo] if deep else [], {})
            o = Obj(v.cls, {}, None, v.lazy, v.tag)
            memo[id(v)] = o
            o.term = ("copy", v.term, o.term)
            if v.native is not None:
                o.native = self.copy_val(v.native, deep, memo) if deep else _copy.copy(v.native)
            for k, x in v.attrs.items():
                o.attrs[k] = rec(x)
            return o
        if isinstance(v, (list, _co.deque)):
            out = memo[id(v)] = [] if isinstance(v, list) else _co.deque(maxlen=v.maxlen)
            out.extend(rec(x) for x in v)
            return out
        if isinstance(v, dict):
            out = memo[id(v)] = v.copy()
            out.clear()
            for k, x in v.items():
                out[rec(k)] = rec(x)
            return out
        if isinstance(v, set):
            return {rec(x) for x in v} if deep else set(v)
        if isinstance(v, tuple):
            return tuple(rec(x) for x in v)
        if isinstance(v, bytearray):
            return bytearray(v)
        return v

    # ------------------------------------------------------------ pure library code
    def to_host(self, v):
        if isinstance(v, HostV) or isinstance(v, IOV):
            return v.h
        if isinstance(v, IterV):
            return v.it
        if isinstance(v, DictView):
            return v.list()
        if isinstance(v, (FuncV, BoundV, NativeV, ClassV, Binder)) and not (isinstance(v, NativeV) and v.name in PYTYPES):
            return lambda *a, **k: self.to_host(self.call(v, [self.from_host(x) for x in a], {n: self.from_host(x) for n, x in k.items()}))
        if isinstance(v, NativeV):
            return PYTYPES[v.name]
        if isinstance(v, Obj) and v.native is not None:
            return v.native
        if isinstance(v, EnumM) and self._enum_int(v):
            return v.value
        if isinstance(v, Obj) and v.cls is not None and v.cls.lookup("__iter__")[0] is not None:
            return self.iter_(v)
        if isinstance(v, Ext):
            h = host_of(v.name)
            return v if h is MISSING else h
        if isinstance(v, (list, tuple)) and any(isinstance(x, (HostV, EnumM)) for x in v):
            return type(v)(self.to_host(x) for x in v)
        return v

    def from_host(self, r):
        if is_const(r) or isinstance(r, (list, dict, set, tuple, frozenset, _co.deque, bytearray, range, Sym, Obj, EnumM, ClassV, FuncV, BoundV, NativeV,
                                         Ext, IterV, HostV, ModuleV, UnionTy, PropertyV, StaticV, ClassMethodV, SuperV, FieldSpec, TypeConst, Binder,
                                         DictView, IOV, slice, complex, BaseException)):
            return r
        if hasattr(r, "__next__"):
            return IterV(map(self.from_host, r))
        if isinstance(r, type) and r.__name__ in PYTYPES:
            return self.builtins[r.__name__]
        if isinstance(r, (_io.StringIO, _io.BytesIO)):
            o = IOV(isinstance(r, _io.BytesIO))
            o.h = r
            return o
        return HostV(r)

    def host_call(self, h, args, kw):
        a = [self.to_host(x) for x in args]
        k = {n: self.to_host(x) for n, x in kw.items()}
        try:
            return self.from_host(h(*a, **k))
        except (PyRaise, Prune, AnalysisError):
            raise
        except RecursionError:
            raise
        except Exception as e:
            if any(isinstance(x, (Obj, Sym, Ext)) for x in a):
                self.unsupported(f"library call {getattr(h, '__name__', h)} with analysed objects ({type(e).__name__}: {e})")
            raise PyRaise(e, crash=True, where=self.loc)

    def host_attr(self, v, name):
        h = v.h
        if hasattr(h, "parts") and name in ("exists", "is_file", "is_dir", "resolve", "absolute", "open", "read_text", "read_bytes", "expanduser", "write_text", "write_bytes",
                                              "unlink", "mkdir", "samefile"):
            def path_method(a, k):
                if name in ("unlink", "mkdir"):
                    return self.call_ext(Ext("os." + name), [str(h)] + list(a), dict(k))
                if name == "samefile":
                    return str(h) == str(self.to_host(a[0]))
                if name in ("write_text", "write_bytes"):
                    names = ("data", "encoding", "errors", "newline")
                    k = {**dict(zip(names, a)), **k}
                    text = k.pop("data")
                    f = self.call_ext(Ext("open"), [str(h), "wb" if name == "write_bytes" else "w"], k)
                    self.call_method(f, "write", [text])
                    self.call_method(f, "close", [])
                    return len(text) if isinstance(text, (str, bytes)) else None
                if name in ("resolve", "absolute", "expanduser"):
                    return HostV(type(h)(self.call_ext(Ext("os.path.abspath"), [str(h)], {}))) if name != "expanduser" else v
                if name in ("exists", "is_file", "is_dir"):
                    return self.call_ext(Ext("os.path." + {"exists": "exists", "is_file": "isfile", "is_dir": "isdir"}[name]), [str(h)], {})
                f = self.call_ext(Ext("open"), [str(h)] + (a if name == "open" else (["rb"] if name == "read_bytes" else [])), k if name == "open" else {})
                return f if name == "open" else self.call_method(f, "read", [])
            return NativeV(name, path_method)
        if not hasattr(h, name):
            self.raise_py("AttributeError", f"'{type(h).__name__}' object has no attribute '{name}'")
        r = getattr(h, name)
        if callable(r) and not isinstance(r, (Obj, ClassV, FuncV, BoundV, NativeV)):
            return NativeV(name, lambda a, k: self.host_call(r, a, k))
        return self.from_host(r)

    # ------------------------------------------------------------ text of values
    def to_repr(self, v):
        if isinstance(v, Obj):
            f = v.cls.lookup("__repr__")[0] if v.cls is not None else None
            dc = next((c for c in v.cls.mro() if isinstance(c, ClassV) and (c.dataclass and getattr(c, "dc_repr", False) or "__repr__" in c.ns)), None)
            if f is not None and not (dc is not None and dc.dataclass and "__repr__" not in dc.ns):
                return self.call(self._bind(f, v, v.cls), [], {})
            return self.obj_repr(v)
        if isinstance(v, EnumM):
            f, _ = v.cls.lookup("__repr__")
            if isinstance(f, FuncV):
                return self.call(BoundV(v, f), [], {})
            return f"<{v.cls.name}.{v.name}: {self.to_repr(v.value)}>"
        if isinstance(v, Sym):
            return Sym(("repr", v.term), "str")
        if is_const(v) or isinstance(v, (BaseException, range, bytearray, slice, complex)):
            return repr(v)
        if isinstance(v, HostV):
            return repr(v.h)
        if isinstance(v, (list, tuple, set, frozenset, _co.deque)):
            xs = [self.to_repr(x) for x in (self.iterate(v))]
            if not all(isinstance(x, str) for x in xs):
                return Sym(("repr", term_of(v)), "str")
            if isinstance(v, list):
                return "[" + ", ".join(xs) + "]"
            if isinstance(v, tuple):
                return "(" + ", ".join(xs) + ("," if len(xs) == 1 else "") + ")"
            if isinstance(v, _co.deque):
                return "deque([" + ", ".join(xs) + "]" + (f", maxlen={v.maxlen}" if v.maxlen is not None else "") + ")"
            if not xs:
                return f"{type(v).__name__}()"
            return ("frozenset({" if isinstance(v, frozenset) else "{") + ", ".join(xs) + ("})" if isinstance(v, frozenset) else "}")
        if isinstance(v, dict):
            xs = [(self.to_repr(k), self.to_repr(x)) for k, x in v.items()]
            if not all(isinstance(x, str) for t in xs for x in t):
                return Sym(("repr", term_of(v)), "str")
            r = "{" + ", ".join(f"{a}: {b}" for a, b in xs) + "}"
            if isinstance(v, _co.defaultdict):
                return f"defaultdict({self.to_repr(getattr(v, 'default_factory', None))}, {r})"
            return r if type(v) is dict else f"{type(v).__name__}({r if xs else ''})"
        if isinstance(v, DictView):
            n = {"k": "dict_keys", "v": "dict_values", "i": "dict_items"}[v.k]
            return f"{n}({self.to_repr(v.list())})"
        if isinstance(v, ClassV):
            return f"<class '{v.module.name + '.' if v.module else ''}{v.name}'>"
        if isinstance(v, NativeV) and v.name in PYTYPES:
            return f"<class '{v.name}'>"
        if isinstance(v, FuncV):
            return f"<function {v.name} at 0x7f>"
        if isinstance(v, Ext):
            return f"<{v.name}>"
        return Sym(("repr", term_of(v)), "str")

    def obj_repr(self, v):
        if v.cls is not None and v.cls.lookup("__repr__")[0] is None or v.cls.dataclass:
            if getattr(v.cls, "nt", None):
                return f"{v.cls.name}(" + ", ".join(f"{n}={self.to_repr(x)}" for n, x in zip(v.cls.nt, v.native)) + ")"
            if v.cls.dataclass:
                if id(v) in self.in_repr:
                    return "..."
                self.in_repr.add(id(v))
                try:
                    q = v.cls.qualname[len(v.cls.module.name) + 1:] if v.cls.module else v.cls.name
                    return f"{q}(" + ", ".join(f"{n}={self.to_repr(v.attrs.get(n))}" for n, sp in self.dc_field_names(v.cls).items() if sp.repr) + ")"
                finally:
                    self.in_repr.discard(id(v))
        if v.native is not None:
            return self.to_repr(v.native)
        if self.isinstance_(v, Ext("BaseException")):
            a = v.attrs.get("args", ())
            return v.cls.name + (self.to_repr(a) if len(a) != 1 else f"({self.to_repr(a[0])})")
        return f"<{v.cls.module.name if v.cls.module else ''}.{v.cls.name} object at 0x7f{'' if self.choice is None else self.choice}>"

    def obj_str(self, v):
        if self.isinstance_(v, Ext("BaseException")):
            a = v.attrs.get("args", ())
            return "" if not a else self.to_str(a[0]) if len(a) == 1 else self.to_repr(tuple(a))
        if isinstance(v.native, str):
            return v.native
        return self.to_repr(v)

