"""Path-sensitive abstract interpreter for Python source text.

Nothing of the analysed project is imported or executed: modules are parsed
with `ast` and their statements are given an abstract semantics here.

Abstract domain
  * constants (None, bool, int, float, str, bytes, tuples)   - constant domain
  * Obj     - an allocation site instance of an analysed class, with a field map
  * Sym     - an unknown value, identified by a structural term
  * list/dict/set - containers of abstract values
  * ClassV / FuncV / BoundV / EnumM / ModuleV / Ext          - code values
A test on a value the domain does not determine splits the path; the decision
is recorded as a fact on the atom so that it is answered consistently on the
rest of that path.  All paths are enumerated (decision sequences are replayed),
loops over unknown iterables are analysed for every length up to a bound.
"""
from __future__ import annotations
import ast
import os
import sys
import io
import struct as _struct
import posixpath

sys.setrecursionlimit(20000)


class AnalysisError(Exception):
    """The analysis cannot decide (unsupported construct, vanished anchor...)"""


class Prune(Exception):
    """Path abandoned (bounds)."""


class PyRaise(Exception):
    """An exception raised by the analysed program on this path."""

    def __init__(self, value, crash=False, where=None):
        self.value = value
        self.crash = crash
        self.where = where

    def name(self):
        v = self.value
        if isinstance(v, Obj):
            return v.cls.name
        if isinstance(v, BaseException):
            return type(v).__name__
        return str(v)


class _Return(Exception):
    def __init__(self, value):
        self.value = value


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


# ---------------------------------------------------------------- values
MISSING = object()


class CUR:
    """the interpreter at work: equality, hashing and calls of abstract values inside host containers go through it"""
    ip = None


PYTYPES = {"str": str, "int": int, "float": float, "bool": bool, "bytes": bytes, "list": list, "dict": dict, "set": set, "tuple": tuple,
           "frozenset": frozenset, "bytearray": bytearray, "range": range, "slice": slice, "complex": complex, "object": object,
           "type": type, "property": property, "staticmethod": staticmethod, "classmethod": classmethod, "memoryview": memoryview}


class Sym:
    __slots__ = ("term", "kind", "info")

    def __init__(self, term, kind=None, info=None):
        self.term = term
        self.kind = kind
        self.info = info

    def __hash__(self):
        return hash(("sym", self.term))

    def __eq__(self, o):
        return isinstance(o, Sym) and o.term == self.term

    def __repr__(self):
        return f"‹{show_term(self.term)}›"


def show_term(t):
    if isinstance(t, tuple):
        if t and t[0] == "attr" and len(t) == 3:
            return f"{show_term(t[1])}.{t[2]}"
        return "(" + " ".join(show_term(x) for x in t) + ")"
    return str(t)


class Obj:
    __slots__ = ("cls", "attrs", "term", "lazy", "tag", "native")
    _n = 0

    def __init__(self, cls, attrs=None, term=None, lazy=None, tag=None):
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}
        if term is None:
            Obj._n += 1
            term = ("obj", cls.name if cls else "?", Obj._n)
        self.term = term
        self.lazy = lazy
        self.tag = tag
        self.native = None

    def __eq__(self, o):
        if self is o:
            return True
        if self.cls is not None and self.cls.hashing() != "id" or self.native is not None:
            return CUR.ip.eq(self, o)
        return False

    def __hash__(self):
        if self.cls is None:
            return id(self) >> 4
        k = self.cls.hashing()
        if k == "id":
            if self.native is None:
                return id(self) >> 4
            return hash(self.native)
        if k == "fields":
            return hash(tuple(self.attrs.get(n) for n, sp in CUR.ip.dc_field_names(self.cls).items() if sp.compare))
        if k == "none":
            raise TypeError(f"unhashable type: '{self.cls.name}'")
        return CUR.ip.call(BoundV(self, k), [], {})

    def __lt__(self, o):
        return CUR.ip.compare(ast.Lt, self, o)

    def __repr__(self):
        return f"<{self.cls.name if self.cls else '?'} {show_term(self.term)}>"


class ModuleV:
    def __init__(self, name, path):
        self.name = name
        self.path = path
        self.ns = {}
        self.loaded = False

    def __repr__(self):
        return f"<module {self.name}>"


class ClassV:
    def __init__(self, name, qualname, bases, ns, module, node):
        self.name = name
        self.qualname = qualname
        self.bases = bases
        self.ns = ns
        self.module = module
        self.node = node
        self.is_enum = False
        self.enum_members = {}
        self.dataclass = False
        self.dc_fields = []
        self._mro = None
        self.cache = None
        self.done = False
        self.subs = []
        self.meta = None
        self.dc_order = self.dc_frozen = self.dc_kw = False
        self.total = False
        self.plain = False
        self.dc_repr = self.dc_hash = False
        self.nt = None
        self.nt_defaults = {}

    def mro(self):
        if self._mro is None:
            self._mro = _c3(self)
        return self._mro

    epoch = 0          # changes whenever an attribute of any class is set

    def lookup(self, name):
        ca = self.cache
        if ca is None or ca[0] != ClassV.epoch:
            ca = self.cache = (ClassV.epoch, {})
        r = ca[1].get(name)
        if r is None:
            r = (None, None)
            for c in self.mro():
                if isinstance(c, ClassV) and name in c.ns:
                    r = (c.ns[name], c)
                    break
            if self.done:
                ca[1][name] = r
        return r

    def hashing(self):
        """how instances hash: "id", "fields" (dataclass), "none" (unhashable) or the analysed __hash__"""
        ca = self.cache
        if ca is None or ca[0] != ClassV.epoch:
            ca = self.cache = (ClassV.epoch, {})
        r = ca[1].get("#hash")
        if r is None:
            r = "id"
            for c in self.mro():
                if not isinstance(c, ClassV):
                    continue
                if "__hash__" in c.ns:
                    r = c.ns["__hash__"] or "none"
                    break
                if c.dataclass and c.dc_eq and "__eq__" not in c.ns:
                    r = "fields" if c.dc_hash else "none"
                    break
                if "__eq__" in c.ns:
                    r = "none"
                    break
            if not self.done:
                return r
            ca[1]["#hash"] = r
        return r

    def __call__(self, *a, **k):
        return CUR.ip.call(self, a, k)

    def ext_bases(self):
        return [c for c in self.mro() if not isinstance(c, ClassV)]

    def issub(self, other):
        return any(c is other or (isinstance(c, Ext) and isinstance(other, Ext) and c.name == other.name) for c in self.mro())

    def __repr__(self):
        return f"<class {self.qualname}>"


def _c3(cls):
    def merge(seqs):
        out = []
        seqs = [list(s) for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                raise AnalysisError(f"mro of {cls}")
            out.append(h)
            seqs = [[x for x in s if x is not h and not (isinstance(x, Ext) and x == h)] for s in seqs]
            seqs = [s for s in seqs if s]
        return out

    obj = lambda b: isinstance(b, Ext) and b.name == "object"
    seqs = [(b.mro() if isinstance(b, ClassV) else [b]) for b in cls.bases] + [list(cls.bases)]
    last = [b for s in seqs for b in s if obj(b)][:1]
    return [cls] + merge([[b for b in s if not obj(b)] for s in seqs]) + last


class EnumM:
    def __init__(self, cls, name, value):
        self.cls = cls
        self.name = name
        self.value = value
        self.attrs = {}
        self.plain = not any(isinstance(b, Ext) and b.name in ("enum.IntEnum", "enum.IntFlag", "enum.StrEnum", "int", "str") for b in cls.mro())

    def __eq__(self, o):
        if self is o:
            return True
        if self.plain and not (isinstance(o, EnumM) and not o.plain) and self.cls.lookup("__eq__")[0] is None:
            return False
        return CUR.ip.eq(self, o)

    def __hash__(self):
        if self.plain:
            return id(self) >> 4
        return hash(self.value)

    def __lt__(self, o):
        return CUR.ip.compare(ast.Lt, self, o)

    def __index__(self):
        if isinstance(self.value, int) and not self.plain:
            return self.value
        raise TypeError(f"'{self.cls.name}' object cannot be interpreted as an integer")

    def __repr__(self):
        return f"{self.cls.name}.{self.name}"


class FuncV:
    def __init__(self, node, module, qualname, env, defaults, kw_defaults, cls=None):
        self.node = node
        self.module = module
        self.qualname = qualname
        self.env = env
        self.defaults = defaults
        self.kw_defaults = kw_defaults
        self.cls = cls
        self.is_gen = None
        self.attrs = {}

    @property
    def name(self):
        return getattr(self.node, "name", "<lambda>")

    def __call__(self, *a, **k):
        return CUR.ip.call(self, a, k)

    def __repr__(self):
        return f"<func {self.qualname}>"


class BoundV:
    def __init__(self, self_v, func):
        self.self_v = self_v
        self.func = func

    def __eq__(self, o):
        return isinstance(o, BoundV) and o.func is self.func and o.self_v is self.self_v

    def __hash__(self):
        return hash((id(self.func), id(self.self_v)))

    def __call__(self, *a, **k):
        return CUR.ip.call(self, a, k)

    def __repr__(self):
        return f"<bound {self.func} of {self.self_v}>"


class NativeV:
    """A builtin implemented by the interpreter."""

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn
        self.attrs = {}

    def __call__(self, *a, **k):
        return self.fn(list(a), k)

    def __repr__(self):
        return f"<native {self.name}>"


class StaticV:
    def __init__(self, func):
        self.func = func


class ClassMethodV:
    def __init__(self, func):
        self.func = func


class PropertyV:
    def __init__(self, fget, fset=None, fdel=None):
        self.fget = fget
        self.fset = fset
        self.fdel = fdel


class Ext:
    """Name from outside the analysed project."""

    def __init__(self, name):
        self.name = name

    def __hash__(self):
        return hash(("ext", self.name))

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __repr__(self):
        return f"<ext {self.name}>"


class UnionTy:
    def __init__(self, items):
        self.items = items


class SuperV:
    def __init__(self, cls, self_v):
        self.cls = cls
        self.self_v = self_v


class IterV:
    """A consumable, lazy iterator over abstract values; `gen` is set when it is the run of a generator function"""

    def __init__(self, items, gen=False):
        self.it = iter(items)
        self.gen = gen

    def __iter__(self):
        return self.it


class HostV:
    """A value of a pure library class (regular expression match, path, number ...)"""

    def __init__(self, h):
        self.h = h

    def __eq__(self, o):
        return isinstance(o, HostV) and self.h == o.h

    def __hash__(self):
        return hash(self.h)

    def __repr__(self):
        return f"<{self.h!r}>"


class FieldSpec:
    def __init__(self, default=None, factory=None, has_default=False, **opt):
        self.default = default
        self.factory = factory
        self.has_default = has_default
        self.init = opt.get("init", True)
        self.repr = opt.get("repr", True)
        self.compare = opt.get("compare", True)
        self.kw_only = opt.get("kw_only", False)
        self.name = None
        self.initvar = False


class IOV:
    """io.StringIO / io.BytesIO / an open virtual file"""

    def __init__(self, binary, parts=()):
        self.binary = binary
        self.h = (io.BytesIO if binary else io.StringIO)(*list(parts)[:1])
        self.parts = None

    @property
    def closed(self):
        return self.h.closed


class OpenType:
    def __init__(self, obj):
        self.obj = obj
        self.name = obj.cls.name


class TypeConst:
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, (TypeConst, Ext)) and o.name == self.name

    def __hash__(self):
        return hash(("ext", self.name))

    def __repr__(self):
        return f"<type {self.name}>"


class DictView:
    def __init__(self, d, k):
        self.d = d
        self.k = k

    def host(self):
        return self.d.keys() if self.k == "k" else self.d.values() if self.k == "v" else self.d.items()

    def list(self):
        return list(self.host())

    def __iter__(self):
        return iter(self.host())

    def __len__(self):
        return len(self.d)


class Binder:
    """a callable of the library that may sit in a class body (cached function, single dispatch ...)"""

    def bind(self, ip, self_v, name):
        return BoundV(self_v, self)

    def call(self, ip, args, kw):
        raise AnalysisError(f"call of {self}")

    def attr(self, ip, name):
        ip.raise_py("AttributeError", name)

    def __call__(self, *a, **k):
        return self.call(CUR.ip, list(a), k)


CONST_TYPES = (type(None), bool, int, float, str, bytes, type(Ellipsis))
EXC_NAMES = {
    n: getattr(__import__("builtins"), n)
    for n in dir(__import__("builtins"))
    if isinstance(getattr(__import__("builtins"), n), type)
    and issubclass(getattr(__import__("builtins"), n), BaseException)
}


def is_const(v):
    if isinstance(v, CONST_TYPES):
        return True
    if isinstance(v, (tuple, frozenset)):
        return all(is_const(x) for x in v)
    return False


def deep_const(v):
    if isinstance(v, (list, set)):
        return all(deep_const(x) for x in v)
    if isinstance(v, dict):
        return all(deep_const(k) and deep_const(x) for k, x in v.items())
    if isinstance(v, tuple):
        return all(deep_const(x) for x in v)
    return is_const(v)


def term_of(v):
    if isinstance(v, Sym):
        return v.term
    if isinstance(v, Obj):
        return v.term
    if isinstance(v, EnumM):
        return f"{v.cls.name}.{v.name}"
    if isinstance(v, (ClassV, FuncV)):
        return v.qualname
    if isinstance(v, Ext):
        return v.name
    if isinstance(v, tuple):
        return ("tuple",) + tuple(term_of(x) for x in v)
    if isinstance(v, list):
        return ("list", id(v))
    if isinstance(v, (dict, set)):
        return ("cont", id(v))
    if isinstance(v, BoundV):
        return ("bound", term_of(v.self_v), v.func.qualname)
    if isinstance(v, CONST_TYPES):
        return repr(v)
    return ("v", id(v))


# ---------------------------------------------------------------- program
class Program:
    """Parsed source files of the project; nothing is executed."""

    _cache = {}

    def __init__(self, root):
        self.root = root
        self.files = {}

    def find(self, modname):
        base = os.path.join(self.root, *modname.split("."))
        if os.path.isfile(base + ".py"):
            return base + ".py"
        if os.path.isfile(os.path.join(base, "__init__.py")):
            return os.path.join(base, "__init__.py")
        if os.path.isdir(base):
            return base
        return None

    def tree(self, path):
        key = (path, os.stat(path).st_mtime_ns)
        if key not in Program._cache:
            with open(path, encoding="utf-8") as f:
                Program._cache[key] = ast.parse(f.read(), path)
        self.files[path] = 1
        return Program._cache[key]


class Env:
    __slots__ = ("vars", "parent", "globals_", "nonlocals", "module", "cls", "is_class", "locals_")

    def __init__(self, vars, parent, module, cls=None, is_class=False, locals_=None, globals_=frozenset(), nonlocals=frozenset()):
        self.vars = vars
        self.parent = parent
        self.module = module
        self.globals_ = globals_
        self.nonlocals = nonlocals
        self.cls = cls
        self.is_class = is_class
        self.locals_ = locals_


def _local_names(node):
    """names assigned in a function body (Python scoping)"""
    out = set()
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        out.add(x.arg)
    if a.vararg:
        out.add(a.vararg.arg)
    if a.kwarg:
        out.add(a.kwarg.arg)

    class V(ast.NodeVisitor):
        def visit_Name(s, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

        def visit_FunctionDef(s, n):
            out.add(n.name)
            for d in n.decorator_list:
                s.visit(d)

        visit_AsyncFunctionDef = visit_FunctionDef

        def visit_ClassDef(s, n):
            out.add(n.name)

        def visit_Lambda(s, n):
            pass

        def _comp(s, n):
            # walrus inside binds outside
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    out.add(x.target.id)

        visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

        def visit_Import(s, n):
            for al in n.names:
                out.add((al.asname or al.name).split(".")[0])

        def visit_ImportFrom(s, n):
            for al in n.names:
                out.add(al.asname or al.name)

        def visit_ExceptHandler(s, n):
            if n.name:
                out.add(n.name)
            s.generic_visit(n)

        def visit_MatchAs(s, n):
            if n.name:
                out.add(n.name)
            s.generic_visit(n)

        def visit_MatchStar(s, n):
            if n.name:
                out.add(n.name)

        def visit_MatchMapping(s, n):
            if n.rest:
                out.add(n.rest)
            s.generic_visit(n)

        def visit_Global(s, n):
            gl.update(n.names)

        def visit_Nonlocal(s, n):
            nl.update(n.names)

    gl, nl = set(), set()
    body = node.body if isinstance(node.body, list) else [ast.Expr(node.body)]
    v = V()
    for st in body:
        v.visit(st)
    return out - gl - nl, gl, nl


def _has_yield(node):
    found = False

    class V(ast.NodeVisitor):
        def visit_FunctionDef(s, n):
            pass

        visit_Lambda = visit_AsyncFunctionDef = visit_ClassDef = visit_FunctionDef

        def visit_Yield(s, n):
            nonlocal found
            found = True

        visit_YieldFrom = visit_Yield

    for st in node.body if isinstance(node.body, list) else [node.body]:
        V().visit(st)
    return found


class Path:
    """Decision sequence of one path"""

    def __init__(self, prefix):
        self.prefix = prefix
        self.trace = []  # (choice, n, label)

    def choose(self, n, label):
        i = len(self.trace)
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.trace.append((c, n, label))
        return c


class Result:
    def __init__(self, outcome, value, events, facts, trace, exc=None, extra=None):
        self.outcome = outcome  # 'return' | 'raise' | 'exit' | 'prune'
        self.value = value
        self.events = events
        self.facts = facts
        self.trace = trace
        self.exc = exc
        self.extra = extra

    def choices(self):
        return [(l, c) for c, n, l in self.trace]


from .interp_core import Interp  # noqa: E402
