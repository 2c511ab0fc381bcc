"""Names, expressions, statements and generators of the abstract interpreter."""
from __future__ import annotations
import ast
import collections as _co
import copy as _copy
import operator as _op
import struct as _struct
import sys

from .interp import (
    Sym, Obj, ClassV, EnumM, FuncV, BoundV, NativeV, PropertyV, Ext, UnionTy, SuperV, IterV, HostV, EXC_NAMES, is_const, term_of,
    Env, PyRaise, Prune, AnalysisError, _Return, _Break, _Continue, MISSING, IOV, OpenType, TypeConst, DictView, Binder,
)
from .interp_lib import host_of
from .interp_data import MISSING2

_EVAL = {}
_EXEC = {}
from .interp import PYTYPES as PYT  # noqa: E402


class _CompScope(frozenset):
    pass


COMP = _CompScope()


class CtxFunc(FuncV):
    """a function decorated with contextlib.contextmanager"""

    def __init__(self, f):
        FuncV.__init__(self, f.node, f.module, f.qualname, f.env, f.defaults, f.kw_defaults, f.cls)
        self.is_gen = True
        self.attrs = f.attrs


class CtxMgrV:
    """the context manager a CtxFunc makes"""

    def __init__(self, gen):
        self.gen = gen


def has_y(n):
    """does the statement or expression contain a yield of this function"""
    try:
        return n._sa_y
    except AttributeError:
        pass
    r = isinstance(n, (ast.Yield, ast.YieldFrom))
    if not r and not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
        r = any(has_y(c) for c in ast.iter_child_nodes(n))
    n._sa_y = r
    return r


def stale(path):
    def f(ip):
        return ip.path is not path
    return f


class ExecOps:
    # ------------------------------------------------------------ names
    def lookup(self, name, env):
        e = env
        first = True
        if name in env.globals_:
            return self._global(name, env.module)
        while e is not None:
            if first or not e.is_class:
                if name in e.vars:
                    return e.vars[name]
                if e.locals_ is not None and name in e.locals_ and name not in e.globals_:
                    self.raise_py("UnboundLocalError", f"local variable '{name}' referenced before assignment")
            first = False
            e = e.parent
        return self._global(name, env.module)

    def _global(self, name, module):
        if name in module.ns:
            return module.ns[name]
        if name in self.builtins:
            return self.builtins[name]
        if name in ("__file__",):
            return module.path
        if name in ("__doc__", "__spec__", "__loader__"):
            return None
        if name == "__package__":
            return module.name.rpartition(".")[0]
        self.raise_py("NameError", f"name '{name}' is not defined")

    def store(self, name, value, env):
        if name in env.globals_:
            env.module.ns[name] = value
            return
        if name in env.nonlocals:
            e = env.parent
            while e is not None:
                if not e.is_class and (name in e.vars or (e.locals_ and name in e.locals_)):
                    e.vars[name] = value
                    return
                e = e.parent
        env.vars[name] = value

    # ------------------------------------------------------------ expressions
    def eval(self, n, env):
        try:
            return _EVAL[type(n)](self, n, env)
        except KeyError:
            if type(n) in _EVAL:
                raise
        m = getattr(type(self), "e_" + type(n).__name__, None)
        if m is None:
            self.unsupported(type(n).__name__, n)
        _EVAL[type(n)] = m
        return m(self, n, env)

    def e_Constant(self, n, env):
        return n.value

    def e_Name(self, n, env):
        v = env.vars.get(n.id, MISSING)
        if v is not MISSING and n.id not in env.globals_:
            return v
        return self.lookup(n.id, env)

    def e_Attribute(self, n, env):
        v = self.eval(n.value, env)
        self.loc = (env.module.path, n.lineno)
        attr = n.attr
        if attr[:2] == "__" and attr[-2:] != "__" and env.cls is not None:
            attr = self.mangle(attr, env)
        t = type(v)
        if t is Obj:
            r = v.attrs.get(attr, MISSING)
            if r is not MISSING:
                return r
        elif t is ClassV and v.is_enum:
            r = v.enum_members.get(attr)
            if r is not None:
                return r
        return self._getattr(v, attr)

    def super_(self, env):
        fn = self.stack[-1]
        a = fn.node.args
        ps = a.posonlyargs + a.args
        first = ps[0].arg if ps else a.vararg.arg if a.vararg else None
        e = env
        while first is None or first not in e.vars:
            e = e.parent
            if e is None:
                self.unsupported("super()")
        v = e.vars[first]
        return SuperV(fn.cls, v[0] if a.vararg and not ps else v)

    def e_Call(self, n, env):
        try:
            plain = n._plain
        except AttributeError:
            plain = n._plain = not (n.keywords or any(isinstance(a, ast.Starred) for a in n.args)
                                    or isinstance(n.func, ast.Name) and n.func.id in ("super", "locals"))
        if plain:
            fn = n.func
            if type(fn) is ast.Attribute and (fn.attr[:2] != "__" or fn.attr[-2:] == "__"):
                v = self.eval(fn.value, env)
                self.loc = (env.module.path, fn.lineno)
                if type(v) is Obj and fn.attr not in v.attrs and v.cls is not None:
                    f = v.cls.lookup(fn.attr)[0]
                    if type(f) is FuncV:
                        args = [v]
                        for a in n.args:
                            args.append(_EVAL[type(a)](self, a, env) if type(a) in _EVAL else self.eval(a, env))
                        self.loc = (env.module.path, n.lineno)
                        self.steps += 1
                        if self.steps > self.max_steps:
                            raise Prune("step bound")
                        return self.call_func(f, args, {})
                f = self.getattr(v, fn.attr)
            else:
                f = self.eval(fn, env)
            args = [_EVAL[type(a)](self, a, env) if type(a) in _EVAL else self.eval(a, env) for a in n.args]
            self.loc = (env.module.path, n.lineno)
            return self.call(f, args, {}, n)
        f = None
        if isinstance(n.func, ast.Name) and n.func.id in ("super", "locals") and not n.args:
            f = self.lookup(n.func.id, env) if n.func.id == "super" else None
            if isinstance(f, NativeV) and f.name == "super":
                return self.super_(env)
            if f is None and "locals" not in env.vars and "locals" not in env.module.ns:
                return dict(env.vars)
        f = self.eval(n.func, env)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.eval(a.value, env)))
            else:
                args.append(self.eval(a, env))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                for kk, vv in self.mapping(self.eval(k.value, env), n).items():
                    if kk in kw:
                        self.raise_py("TypeError", f"got multiple values for keyword argument '{kk}'")
                    kw[kk] = vv
            else:
                kw[k.arg] = self.eval(k.value, env)
        self.loc = (env.module.path, n.lineno)
        return self.call(f, args, kw, n)

    def mapping(self, d, n):
        if isinstance(d, Obj) and isinstance(d.native, dict):
            d = d.native
        if isinstance(d, Obj) and d.cls.lookup("keys")[0] is not None:
            out = {}
            self.dict_update(out, d)
            return out
        if isinstance(d, HostV) and hasattr(d.h, "keys"):
            return dict(d.h)
        if d is None or is_const(d) or isinstance(d, (list, Obj)):
            self.raise_py("TypeError", "argument after ** must be a mapping")
        if not hasattr(d, "items"):
            self.unsupported("** of unknown mapping", n)
        return d

    def e_BinOp(self, n, env):
        a = self.eval(n.left, env)
        b = self.eval(n.right, env)
        self.loc = (env.module.path, n.lineno)
        return self.binop(type(n.op), a, b)

    def e_UnaryOp(self, n, env):
        v = self.eval(n.operand, env)
        op = n.op
        if isinstance(op, ast.Not):
            return not self.truth(v)
        if isinstance(v, Sym):
            return Sym(("neg" if isinstance(op, ast.USub) else type(op).__name__, v.term), v.kind)
        m, fn = {ast.USub: ("__neg__", _op.neg), ast.UAdd: ("__pos__", _op.pos), ast.Invert: ("__invert__", _op.invert)}[type(op)]
        if isinstance(v, (Obj, EnumM)) and v.cls is not None:
            f = v.cls.lookup(m)[0]
            if f is not None:
                return self.call(BoundV(v, f), [], {})
            v = v.value if isinstance(v, EnumM) and not v.plain else v.native if isinstance(v, Obj) and v.native is not None else v
            if isinstance(v, (Obj, EnumM)):
                self.raise_py("TypeError", f"bad operand type for unary operator: '{v.cls.name}'")
        return self.from_host(self.native(fn, self.to_host(v)))

    def e_BoolOp(self, n, env):
        isand = isinstance(n.op, ast.And)
        v = None
        for i, x in enumerate(n.values):
            v = self.eval(x, env)
            if i == len(n.values) - 1:
                return v
            t = self.truth(v)
            if t != isand:
                if isinstance(v, Sym):
                    # its truth is decided; keep the value but it is known falsy/truthy
                    return v
                return v
        return v

    def e_Compare(self, n, env):
        left = self.eval(n.left, env)
        r = True
        for op, c in zip(n.ops, n.comparators):
            right = self.eval(c, env)
            self.loc = (env.module.path, n.lineno)
            r = self.cmp1(op, left, right)
            if not r:
                return False
            left = right
        return r

    def cmp1(self, op, a, b):
        if isinstance(a, OpenType) or isinstance(b, OpenType):
            r = self._opentype_eq(a, b)
            return r if isinstance(op, (ast.Eq, ast.Is)) else not r
        if isinstance(op, ast.Eq):
            return self.eq(self._ty(a), self._ty(b))
        if isinstance(op, ast.NotEq):
            return self.ne(self._ty(a), self._ty(b))
        if isinstance(op, ast.Is):
            return self.is_(self._ty(a), self._ty(b))
        if isinstance(op, ast.IsNot):
            return not self.is_(self._ty(a), self._ty(b))
        if isinstance(op, ast.In):
            return self.contains(b, a) if not isinstance(a, TypeConst) else any(self.eq(self._ty(x), a) for x in self.iterate(b))
        if isinstance(op, ast.NotIn):
            return not self.contains(b, a)
        return self.compare(type(op), a, b)

    def _ty(self, v):
        if type(v) is NativeV and v.name in PYT:
            return TypeConst(v.name)
        return v

    def ne(self, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Obj):
                f, _ = x.cls.lookup("__ne__") if x.cls is not None else (None, None)
                if isinstance(f, FuncV):
                    r = self.call(BoundV(x, f), [y], {})
                    if isinstance(r, Ext) and r.name == "NotImplemented":
                        continue
                    return self.truth(r)
        return not self.eq(a, b)

    def _opentype_eq(self, a, b):
        if isinstance(b, OpenType):
            a, b = b, a
        if isinstance(b, OpenType):
            return a.obj is b.obj
        if not isinstance(b, ClassV):
            return False
        o = a.obj
        if o.tag != "open":
            return o.cls is b
        if not b.issub(o.cls):
            return False
        neg = self.isa_neg.get(o.term, [])
        if any(b.issub(x) for x in neg):
            return False
        if self.decide(("exact", o.term, b.qualname)):
            o.cls = b
            o.tag = None
            return True
        return False

    def e_IfExp(self, n, env):
        return self.eval(n.body if self.truth(self.eval(n.test, env)) else n.orelse, env)

    def e_Tuple(self, n, env):
        return tuple(self._elts(n.elts, env))

    def e_List(self, n, env):
        return list(self._elts(n.elts, env))

    def e_Set(self, n, env):
        return self.mkset(self._elts(n.elts, env))

    def _elts(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.eval(x.value, env)))
            else:
                out.append(self.eval(x, env))
        return out

    def e_Dict(self, n, env):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.dict_update(d, self.mapping(self.eval(v, env), n))
            else:
                kk = self.eval(k, env)
                vv = self.eval(v, env)
                self.setitem(d, kk, vv)
        return d

    def e_JoinedStr(self, n, env):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
                continue
            x = self.eval(v.value, env)
            if v.conversion == 114:
                x = self.to_repr(x)
            elif v.conversion == 115:
                x = self.to_str(x)
            elif v.conversion == 97:
                x = self.builtins["ascii"].fn([x], {})
            parts.append(x if type(x) is str and v.format_spec is None else self.format_(x, "" if v.format_spec is None else self.eval(v.format_spec, env)))
        if all(isinstance(p, str) for p in parts):
            return "".join(parts)
        return Sym(("fstr",) + tuple(p if isinstance(p, str) else term_of(p) for p in parts), "str")

    def e_Subscript(self, n, env):
        c = self.eval(n.value, env)
        if isinstance(c, (Ext, NativeV, UnionTy)) or isinstance(c, ClassV) and not c.is_enum and (c.meta is None or c.meta.lookup("__getitem__")[0] is None) \
                and c.lookup("__class_getitem__")[0] is None:
            if isinstance(c, Ext) and c.name in ("typing.Union", "typing.Optional"):
                try:
                    i = self.eval(n.slice, env)
                except PyRaise:
                    return c
                return UnionTy([*(i if isinstance(i, tuple) else (i,)), *((None,) if c.name.endswith("Optional") else ())])
            if isinstance(c, Ext) and c.name in ("os.environ", "sys.modules"):
                return self.fresh("env")
            return c if not isinstance(c, NativeV) else Ext(c.name)
        i = self.eval(n.slice, env)
        self.loc = (env.module.path, n.lineno)
        return self.getitem(c, i)

    def e_Slice(self, n, env):
        return slice(*[self.eval(x, env) if x is not None else None for x in (n.lower, n.upper, n.step)])

    def e_Lambda(self, n, env):
        return self.make_func(n, env)

    def e_NamedExpr(self, n, env):
        v = self.eval(n.value, env)
        e = env
        while e.is_class or e.locals_ is COMP:
            e = e.parent
        self.store(n.target.id, v, e)
        return v

    def e_Starred(self, n, env):
        self.unsupported("starred", n)

    def e_Await(self, n, env):
        self.unsupported("await", n)

    # ------------------------------------------------------------ comprehensions
    def _comp(self, gens, env, emit):
        def rec(i, e):
            if i == len(gens):
                emit(e)
                return
            g = gens[i]
            for x in (first if i == 0 else self.iter_(self.eval(g.iter, e))):
                self.steps += 1
                if self.steps > self.max_steps:
                    raise Prune("step bound")
                self.assign(g.target, x, e)
                for c in g.ifs:
                    if not self.truth(self.eval(c, e)):
                        break
                else:
                    rec(i + 1, e)
        first = self.iter_(self.eval(gens[0].iter, env))
        e = Env({}, env, env.module, cls=env.cls, locals_=COMP)
        rec(0, e)

    def e_ListComp(self, n, env):
        out = []
        self._comp(n.generators, env, lambda e: out.append(self.eval(n.elt, e)))
        return out

    def e_SetComp(self, n, env):
        out = set()

        def add(e):
            x = self.eval(n.elt, e)
            if self.find_key(out, x) is MISSING:
                out.add(x)
        self._comp(n.generators, env, add)
        return out

    def e_DictComp(self, n, env):
        out = {}
        self._comp(n.generators, env, lambda e: self.setitem(out, self.eval(n.key, e), self.eval(n.value, e)))
        return out

    def e_GeneratorExp(self, n, env):
        first = self.iter_(self.eval(n.generators[0].iter, env))
        e = Env({}, env, env.module, cls=env.cls, locals_=COMP)
        return IterV(self._gen_comp(n, 0, first, e), gen=True)

    def _gen_comp(self, n, i, it, e):
        g = n.generators[i]
        for x in it:
            self.steps += 1
            if self.steps > self.max_steps:
                raise Prune("step bound")
            self.assign(g.target, x, e)
            for c in g.ifs:
                if not self.truth(self.eval(c, e)):
                    break
            else:
                if i + 1 == len(n.generators):
                    yield self.eval(n.elt, e)
                else:
                    yield from self._gen_comp(n, i + 1, self.iter_(self.eval(n.generators[i + 1].iter, e)), e)

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.store(t.id, v, env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            self.loc = (env.module.path, t.lineno)
            self.setattr(o, self.mangle(t.attr, env), v)
        elif isinstance(t, ast.Subscript):
            c = self.eval(t.value, env)
            i = self.eval(t.slice, env)
            self.loc = (env.module.path, t.lineno)
            self.setitem(c, i, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Sym):
                xs = [Sym(("item", v.term, repr(i))) for i in range(len(t.elts))]
            else:
                xs = self.iterate(v)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(xs) < len(t.elts) - 1:
                    self.raise_py("ValueError", "not enough values to unpack")
                for e, x in zip(t.elts[:i], xs):
                    self.assign(e, x, env)
                self.assign(t.elts[i].value, xs[i:len(xs) - after], env)
                for e, x in zip(t.elts[i + 1:], xs[len(xs) - after:]):
                    self.assign(e, x, env)
            else:
                if len(xs) != len(t.elts):
                    self.raise_py("ValueError", f"cannot unpack {len(xs)} values into {len(t.elts)}")
                for e, x in zip(t.elts, xs):
                    self.assign(e, x, env)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env)
        else:
            self.unsupported(f"assignment to {type(t).__name__}", t)

    # ------------------------------------------------------------ statements
    def exec_block(self, body, env):
        for st in body:
            m = _EXEC.get(type(st))
            if m is None:
                self.exec_stmt(st, env)
            else:
                self.loc = (env.module.path, st.lineno)
                m(self, st, env)

    def exec_stmt(self, st, env):
        self.loc = (env.module.path, st.lineno)
        m = _EXEC.get(type(st))
        if m is None:
            m = getattr(type(self), "s_" + type(st).__name__, None)
            if m is None:
                self.unsupported(type(st).__name__, st)
            _EXEC[type(st)] = m
        m(self, st, env)

    def s_Expr(self, st, env):
        self.eval(st.value, env)

    def s_Pass(self, st, env):
        pass

    def s_Assign(self, st, env):
        v = self.eval(st.value, env)
        if len(st.targets) == 1 and type(st.targets[0]) is ast.Name and not env.globals_ and not env.nonlocals:
            env.vars[st.targets[0].id] = v
            return
        for t in st.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, env), env)

    def s_AugAssign(self, st, env):
        t = st.target
        op = type(st.op)
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, env)
            r = self.aug_op(op, cur, self.eval(st.value, env))
            self.store(t.id, r, env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            attr = self.mangle(t.attr, env)
            cur = self.getattr(o, attr)
            r = self.aug_op(op, cur, self.eval(st.value, env))
            self.loc = (env.module.path, st.lineno)
            self.setattr(o, attr, r)
        else:
            c = self.eval(t.value, env)
            i = self.eval(t.slice, env)
            cur = self.getitem(c, i)
            r = self.aug_op(op, cur, self.eval(st.value, env))
            self.setitem(c, i, r)

    def s_Return(self, st, env):
        raise _Return(self.eval(st.value, env) if st.value is not None else None)

    def s_If(self, st, env):
        if self.truth(self.eval(st.test, env)):
            self.exec_block(st.body, env)
        else:
            self.exec_block(st.orelse, env)

    def s_While(self, st, env):
        n = 0
        sym_iters = 0
        while True:
            before = len(self.path.trace)
            if not self.truth(self.eval(st.test, env)):
                self.exec_block(st.orelse, env)
                return
            n += 1
            if len(self.path.trace) > before or True:
                sym_iters += 1
            try:
                self.exec_block(st.body, env)
            except _Break:
                return
            except _Continue:
                pass
            if len(self.path.trace) > before:
                if n > self.while_bound:
                    raise Prune(f"loop bound at {self.loc}")
            elif n > 100000:
                raise Prune(f"loop without progress at {self.loc}")

    def s_For(self, st, env):
        items = self.iter_(self.eval(st.iter, env))
        for x in items:
            self.steps += 1
            if self.steps > self.max_steps:
                raise Prune("step bound")
            self.assign(st.target, x, env)
            try:
                self.exec_block(st.body, env)
            except _Break:
                return
            except _Continue:
                continue
        self.exec_block(st.orelse, env)

    def s_Break(self, st, env):
        raise _Break()

    def s_Continue(self, st, env):
        raise _Continue()

    def s_Raise(self, st, env):
        if st.exc is None:
            cur = self.data.get("current_exc")
            if cur:
                raise cur
            self.raise_py("RuntimeError", "No active exception to reraise")
        v = self.eval(st.exc, env)
        cause = self.eval(st.cause, env) if st.cause is not None else MISSING
        self.loc = (env.module.path, st.lineno)
        if isinstance(v, ClassV):
            v = self.instantiate(v, [], {})
        elif isinstance(v, Ext):
            v = self.call_ext(v, [], {})
        elif isinstance(v, HostV) and isinstance(v.h, type) and issubclass(v.h, BaseException):
            v = v.h()
        if not isinstance(v, (BaseException, Sym)) and not (isinstance(v, Obj) and self.isinstance_(v, Ext("BaseException"))):
            self.raise_py("TypeError", "exceptions must derive from BaseException")
        if cause is not MISSING:
            if isinstance(cause, ClassV):
                cause = self.instantiate(cause, [], {})
            if isinstance(v, Obj):
                v.attrs["__cause__"] = cause
            elif isinstance(v, BaseException):
                v._sa__cause__ = cause
        raise PyRaise(v, where=self.loc)

    def s_Assert(self, st, env):
        v = self.eval(st.test, env)
        if isinstance(v, Sym):
            t = v.term
            if ("truthy", t) not in self.facts:
                self.facts[("truthy", t)] = True
                return
        if not self.truth(v):
            if st.msg is None:
                raise PyRaise(AssertionError(), crash=True, where=(env.module.path, st.lineno))
            m = self.eval(st.msg, env)
            raise PyRaise(AssertionError(m if is_const(m) else self.to_str(m)), crash=True, where=(env.module.path, st.lineno))

    def _handler(self, st, e, env):
        """the except clause that takes the exception"""
        for h in st.handlers:
            if h.type is None or self.exc_match(e, self.eval(h.type, env)):
                return h
        return None

    def s_Try(self, st, env):
        try:
            try:
                self.exec_block(st.body, env)
            except PyRaise as e:
                h = self._handler(st, e, env)
                if h is None:
                    raise
                if h.name:
                    self.store(h.name, e.value, env)
                prev = self.data.get("current_exc")
                self.data["current_exc"] = e
                try:
                    self.exec_block(h.body, env)
                finally:
                    self.data["current_exc"] = prev
                    if h.name:
                        env.vars.pop(h.name, None)
            else:
                self.exec_block(st.orelse, env)
        finally:
            if st.finalbody and not isinstance(sys.exc_info()[1], (Prune, AnalysisError)):
                self.exec_block(st.finalbody, env)

    s_TryStar = s_Try

    def exc_match(self, e, t):
        if isinstance(t, (tuple, list)):
            return any(self.exc_match(e, x) for x in t)
        v = e.value
        if isinstance(t, TypeConst):
            t = Ext(t.name)
        if isinstance(v, Obj):
            return v.cls.issub(t) or (isinstance(t, Ext) and any(
                isinstance(b, Ext) and b.name.split(".")[-1] in EXC_NAMES and t.name.split(".")[-1] in EXC_NAMES
                and issubclass(EXC_NAMES[b.name.split(".")[-1]], EXC_NAMES[t.name.split(".")[-1]])
                for b in v.cls.ext_bases()))
        if isinstance(v, BaseException):
            if isinstance(t, Ext):
                n = t.name.split(".")[-1]
                if n in EXC_NAMES and "." not in t.name:
                    return isinstance(v, EXC_NAMES[n])
                if t.name == "struct.error":
                    return isinstance(v, _struct.error)
                h = host_of(t.name)
                if isinstance(h, type) and issubclass(h, BaseException):
                    return isinstance(v, h)
            return False
        return self.decide(("excmatch", term_of(v), term_of(t)))

    # ------------------------------------------------------------ context managers
    def ctx_enter(self, m):
        """(value of `as`, exit): exit(exception or None) tells whether the exception is swallowed"""
        if isinstance(m, CtxMgrV):
            g = m.gen
            try:
                v = next(g.it)
            except StopIteration:
                self.raise_py("RuntimeError", "generator didn't yield")

            def leave(e):
                try:
                    if e is None:
                        next(g.it)
                    else:
                        g.it.throw(e)
                except StopIteration:
                    return e is not None
                except PyRaise as x:
                    if e is not None and x is e:
                        return False
                    raise
                self.raise_py("RuntimeError", "generator didn't stop")
            return v, leave
        if isinstance(m, Obj) and m.cls is not None and m.native is None:
            ent, _ = m.cls.lookup("__enter__")
            ex, _ = m.cls.lookup("__exit__")
            if ent is None or ex is None:
                self.raise_py("TypeError", f"'{m.cls.name}' object does not support the context manager protocol")
            v = self.call(self._bind(ent, m, m.cls), [], {})

            def leave(e):
                args = [None, None, None] if e is None else [self.type_of(e.value), e.value, None]
                return self.truth(self.call(self._bind(ex, m, m.cls), args, {}))
            return v, leave
        if isinstance(m, IOV):
            self.emit("with_enter", target=m)

            def leave(e):
                self.emit("with_exit", target=m)
                self._io_method(m, "close", [], {})
                return False
            return m, leave
        if isinstance(m, Binder):
            return m.enter(self), lambda e: m.leave(self, e)
        if m is None or is_const(m) or isinstance(m, (list, dict, set, FuncV)):
            self.raise_py("TypeError", f"'{type(m).__name__}' object does not support the context manager protocol")
        v = m if isinstance(m, Sym) else Sym(("enter", term_of(m)))
        self.emit("with_enter", target=m)

        def leave(e):
            self.emit("with_exit", target=m)
            return False
        return v, leave

    def s_With(self, st, env):
        self._with(st, 0, env)

    def _with(self, st, i, env):
        if i == len(st.items):
            self.exec_block(st.body, env)
            return
        it = st.items[i]
        v, leave = self.ctx_enter(self.eval(it.context_expr, env))
        try:
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
            self._with(st, i + 1, env)
        except PyRaise as e:
            prev = self.data.get("current_exc")
            self.data["current_exc"] = e
            try:
                if not leave(e):
                    raise
            finally:
                self.data["current_exc"] = prev
            return
        except (_Return, _Break, _Continue):
            leave(None)
            raise
        leave(None)

    def s_FunctionDef(self, st, env):
        decs = [self.eval(d, env) for d in st.decorator_list]
        v = self.make_func(st, env)
        for dv in reversed(decs):
            if isinstance(dv, Sym):
                continue
            if isinstance(dv, Ext):
                v = self.decorate(dv.name, v)
                continue
            v = self.call(dv, [v], {})
        self.store(self.mangle(st.name, env), v, env)

    def decorate(self, name, v):
        from .interp_lib import LIB, PASS
        if name == "contextlib.contextmanager":
            return CtxFunc(v)
        if name in PASS or name not in LIB:
            return v
        return LIB[name](self, [v], {})

    def s_ClassDef(self, st, env):
        self.store(st.name, self.make_class(st, env), env)

    def make_func(self, n, env):
        a = n.args
        defaults = [self.eval(d, env) for d in a.defaults]
        kwd = [self.eval(d, env) if d is not None else MISSING for d in a.kw_defaults]
        cls = env.cls if env.is_class else None
        name = getattr(n, "name", "<lambda>")
        if env.is_class:
            q = f"{env.cls.qualname}.{name}"
        elif self.stack and env.parent is not None or (self.stack and env.locals_ is not None):
            q = f"{self.stack[-1].qualname}.{name}"
        else:
            q = f"{env.module.name}.{name}"
        penv = env
        f = FuncV(n, env.module, q, penv, defaults, kwd, cls)
        if not env.is_class and self.stack:
            f.cls = self.stack[-1].cls
        return f

    def s_Import(self, st, env):
        for al in st.names:
            if self.is_project(al.name):
                m = self.load(al.name)
                if al.asname:
                    self.store(al.asname, m, env)
                else:
                    top = al.name.split(".")[0]
                    self.store(top, self.load(top), env)
            else:
                if al.asname:
                    self.store(al.asname, Ext(self._extname(al.name)), env)
                else:
                    top = al.name.split(".")[0]
                    self.store(top, Ext(self._extname(top)), env)

    def _extname(self, n):
        return {"posixpath": "os.path"}.get(n, n)

    def s_ImportFrom(self, st, env):
        mod = st.module or ""
        if st.level:
            base = env.module.name.split(".")
            if not env.module.path.endswith("__init__.py"):
                base = base[:-1]
            base = base[: len(base) - (st.level - 1)]
            mod = ".".join(base + ([mod] if mod else []))
        if mod == "__future__":
            return
        for al in st.names:
            nm = al.asname or al.name
            if self.is_project(mod):
                m = self.load(mod)
                if al.name == "*":
                    names = m.ns.get("__all__")
                    for k in list(names if names is not None else [k for k in m.ns if not k.startswith("_")]):
                        self.store(k, m.ns[k], env)
                    continue
                if al.name in m.ns:
                    self.store(nm, m.ns[al.name], env)
                elif self.is_project(mod + "." + al.name):
                    self.store(nm, self.load(mod + "." + al.name), env)
                else:
                    self.raise_py("ImportError", f"cannot import name '{al.name}' from '{mod}'")
            else:
                if al.name == "*":
                    from .interp_lib import HOST_MODULES
                    h = HOST_MODULES.get(mod)
                    for x in (getattr(h, "__all__", None) or [y for y in dir(h) if not y.startswith("_")]) if h is not None else self.unsupported(f"from {mod} import *", st):
                        self.store(x, self.ext_attr(Ext(self._extname(mod)), x), env)
                    continue
                self.store(nm, self.ext_attr(Ext(self._extname(mod)), al.name), env)

    def s_Global(self, st, env):
        pass

    def s_Nonlocal(self, st, env):
        pass

    def s_Delete(self, st, env):
        for t in st.targets:
            self._delete(t, env)

    def _delete(self, t, env):
        if isinstance(t, ast.Name):
            e = env
            if t.id in env.globals_:
                vs = env.module.ns
            else:
                while t.id in env.nonlocals and t.id not in e.vars and e.parent is not None:
                    e = e.parent
                vs = e.vars
            if t.id not in vs:
                self.lookup(t.id, env)
                self.raise_py("NameError", f"name '{t.id}' is not defined")
            del vs[t.id]
        elif isinstance(t, ast.Subscript):
            c = self.eval(t.value, env)
            i = self.eval(t.slice, env)
            self.loc = (env.module.path, t.lineno)
            self.delitem(c, i)
        elif isinstance(t, ast.Attribute):
            self.delattr(self.eval(t.value, env), self.mangle(t.attr, env))
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self._delete(x, env)

    def s_TypeAlias(self, st, env):
        self.store(st.name.id, Ext("typing.Any"), env)

    # ------------------------------------------------------------ match
    def s_Match(self, st, env):
        subj = self.eval(st.subject, env)
        for case in st.cases:
            if self._case(case, subj, env):
                self.exec_block(case.body, env)
                return

    def _case(self, case, subj, env):
        binds = {}
        if not self.match(case.pattern, subj, env, binds):
            return False
        for k, v in binds.items():
            self.store(k, v, env)
        return case.guard is None or self.truth(self.eval(case.guard, env))

    def match(self, p, v, env, b):
        if isinstance(p, ast.MatchValue):
            return self.eq(v, self.eval(p.value, env))
        if isinstance(p, ast.MatchSingleton):
            return self.is_(v, p.value)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, env, b):
                return False
            if p.name:
                b[p.name] = v
            return True
        if isinstance(p, ast.MatchOr):
            for x in p.patterns:
                bb = dict(b)
                if self.match(x, v, env, bb):
                    b.update(bb)
                    return True
            return False
        if isinstance(p, ast.MatchSequence):
            if isinstance(v, Sym):
                self.unsupported("sequence pattern on unknown value", p)
            if isinstance(v, Obj):
                v = v.native
            if isinstance(v, (_co.deque, range)):
                v = list(v)
            if not isinstance(v, (list, tuple)):
                return False
            star = [i for i, x in enumerate(p.patterns) if isinstance(x, ast.MatchStar)]
            if not star:
                return len(v) == len(p.patterns) and all(self.match(x, y, env, b) for x, y in zip(p.patterns, v))
            i = star[0]
            after = len(p.patterns) - i - 1
            if len(v) < len(p.patterns) - 1:
                return False
            if not all(self.match(x, y, env, b) for x, y in zip(p.patterns[:i], v[:i])):
                return False
            if p.patterns[i].name:
                b[p.patterns[i].name] = list(v[i:len(v) - after])
            return all(self.match(x, y, env, b) for x, y in zip(p.patterns[i + 1:], v[len(v) - after:]))
        if isinstance(p, ast.MatchClass):
            c = self.eval(p.cls, env)
            if isinstance(c, (NativeV, TypeConst)):
                c = Ext(c.name)
            if not self.isinstance_(v, c):
                return False
            if p.patterns:
                if isinstance(c, Ext) and len(p.patterns) == 1 or isinstance(c, ClassV) and getattr(c, "nt", None) is None and c.lookup("__match_args__")[0] is None \
                        and isinstance(v, Obj) and v.native is not None and not c.dataclass:
                    if not self.match(p.patterns[0], v, env, b):
                        return False
                else:
                    ma, _ = c.lookup("__match_args__")
                    if ma is None:
                        ma = self._match_args(c)
                    if len(p.patterns) > len(ma):
                        self.raise_py("TypeError", f"{c.name}() accepts {len(ma)} positional sub-patterns")
                    for x, nm in zip(p.patterns, ma):
                        if not self.match(x, self.getattr(v, nm), env, b):
                            return False
            for nm, x in zip(p.kwd_attrs, p.kwd_patterns):
                r = self.getattr(v, nm, MISSING2)
                if r is MISSING2 or not self.match(x, r, env, b):
                    return False
            return True
        if isinstance(p, ast.MatchMapping):
            if isinstance(v, Obj):
                v = v.native
            if not isinstance(v, dict):
                return False
            seen = set()
            for k, x in zip(p.keys, p.patterns):
                kk = self.find_key(v, self.eval(k, env))
                if kk is MISSING or not self.match(x, v[kk], env, b):
                    return False
                seen.add(kk)
            if p.rest:
                b[p.rest] = {k: x for k, x in v.items() if k not in seen}
            return True
        self.unsupported(type(p).__name__, p)

    def _match_args(self, c):
        if getattr(c, "nt", None):
            return list(c.nt)
        for k in c.mro():
            if isinstance(k, ClassV) and k.dataclass:
                return list(self.dc_field_names(k))
        return []

    # ------------------------------------------------------------ generators
    def gen_run(self, f, env):
        """the run of a generator function, as a host generator over abstract values"""
        path = self.path
        g = self.gen_body(f.node, env, stale(path))
        send = exc = None
        while True:
            if self.path is not path:
                return
            if len(self.stack) >= self.max_depth:
                raise Prune(f"call depth at {f.qualname}")
            self.stack.append(f)
            saved = self.loc
            try:
                if exc is not None:
                    x, exc = exc, None
                    v = g.throw(x)
                else:
                    v = g.send(send)
            except StopIteration as s:
                return s.value
            except PyRaise as e:
                if e.name() == "StopIteration":
                    raise PyRaise(RuntimeError("generator raised StopIteration"), crash=True, where=self.loc)
                raise
            finally:
                self.stack.pop()
                self.loc = saved
            try:
                send = yield v
            except PyRaise as e:
                exc, send = e, None
            except GeneratorExit:
                if self.path is path:
                    self.stack.append(f)
                    try:
                        g.close()
                    finally:
                        self.stack.pop()
                raise

    def gen_body(self, node, env, over):
        try:
            if isinstance(node, ast.Lambda):
                return (yield from self.gen_expr(node.body, env))
            yield from self.gen_block(node.body, env, over)
        except _Return as r:
            return r.value

    def gen_block(self, body, env, over):
        for st in body:
            if has_y(st):
                self.loc = (env.module.path, st.lineno)
                m = getattr(self, "g_" + type(st).__name__, None)
                if m is not None:
                    yield from m(st, env, over)
                else:
                    yield from self.gen_hoist(st, env)
            else:
                self.exec_stmt(st, env)

    def gen_expr(self, n, env):
        if not has_y(n):
            return self.eval(n, env)
        if isinstance(n, ast.Yield):
            v = (yield from self.gen_expr(n.value, env)) if n.value is not None else None
            return (yield v)
        if isinstance(n, ast.YieldFrom):
            src = yield from self.gen_expr(n.value, env)
            return (yield from self.iter_(src))
        if isinstance(n, ast.IfExp):
            t = self.truth((yield from self.gen_expr(n.test, env)))
            return (yield from self.gen_expr(n.body if t else n.orelse, env))
        if isinstance(n, ast.BoolOp):
            for x in n.values:
                v = yield from self.gen_expr(x, env)
                if x is n.values[-1] or self.truth(v) != isinstance(n.op, ast.And):
                    return v
        r = yield from self.gen_hoisted(n, env)
        return self.eval(r, env)

    def gen_hoist(self, st, env):
        """a simple statement: its yields are evaluated first, in order"""
        r = yield from self.gen_hoisted(st, env)
        self.exec_stmt(r, env)

    def gen_hoisted(self, n, env):
        try:
            ys, new = n._sa_hoist
        except AttributeError:
            ys = []

            class T(ast.NodeTransformer):
                def visit(s, x):
                    if isinstance(x, (ast.Yield, ast.YieldFrom)):
                        ys.append(x)
                        return ast.copy_location(ast.Name(f"__y{len(ys)}", ast.Load()), x)
                    if isinstance(x, (ast.Lambda, ast.FunctionDef)):
                        return x
                    return s.generic_visit(x)
            new = T().visit(_copy.deepcopy(n))
            for x in ast.walk(new):
                for a in ("_plain", "_sa_y"):
                    if hasattr(x, a):
                        delattr(x, a)
            n._sa_hoist = ys, new
        for i, y in enumerate(ys):
            env.vars[f"__y{i + 1}"] = yield from self.gen_expr(y, env)
        return new

    def g_Expr(self, st, env, over):
        yield from self.gen_expr(st.value, env)

    def g_Assign(self, st, env, over):
        v = yield from self.gen_expr(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def g_AnnAssign(self, st, env, over):
        if st.value is not None:
            self.assign(st.target, (yield from self.gen_expr(st.value, env)), env)

    def g_Return(self, st, env, over):
        raise _Return((yield from self.gen_expr(st.value, env)))

    def g_If(self, st, env, over):
        t = self.truth((yield from self.gen_expr(st.test, env)))
        yield from self.gen_block(st.body if t else st.orelse, env, over)

    def g_While(self, st, env, over):
        n = 0
        while True:
            before = len(self.path.trace)
            if not self.truth((yield from self.gen_expr(st.test, env))):
                yield from self.gen_block(st.orelse, env, over)
                return
            n += 1
            try:
                yield from self.gen_block(st.body, env, over)
            except _Break:
                return
            except _Continue:
                pass
            if len(self.path.trace) > before:
                if n > self.while_bound:
                    raise Prune(f"loop bound at {self.loc}")
            elif n > 100000:
                raise Prune(f"loop without progress at {self.loc}")

    def g_For(self, st, env, over):
        for x in self.iter_((yield from self.gen_expr(st.iter, env))):
            self.steps += 1
            if self.steps > self.max_steps:
                raise Prune("step bound")
            self.assign(st.target, x, env)
            try:
                yield from self.gen_block(st.body, env, over)
            except _Break:
                return
            except _Continue:
                continue
        yield from self.gen_block(st.orelse, env, over)

    def g_Try(self, st, env, over):
        try:
            try:
                yield from self.gen_block(st.body, env, over)
            except PyRaise as e:
                h = self._handler(st, e, env)
                if h is None:
                    raise
                if h.name:
                    self.store(h.name, e.value, env)
                prev = self.data.get("current_exc")
                self.data["current_exc"] = e
                try:
                    yield from self.gen_block(h.body, env, over)
                finally:
                    self.data["current_exc"] = prev
                    if h.name:
                        env.vars.pop(h.name, None)
            else:
                yield from self.gen_block(st.orelse, env, over)
        finally:
            x = sys.exc_info()[1]
            if st.finalbody and not isinstance(x, (Prune, AnalysisError)):
                if not isinstance(x, GeneratorExit):
                    yield from self.gen_block(st.finalbody, env, over)
                elif not over(self):
                    for _ in self.gen_block(st.finalbody, env, over):
                        self.raise_py("RuntimeError", "generator ignored GeneratorExit")

    def g_With(self, st, env, over):
        yield from self._gen_with(st, 0, env, over)

    def _gen_with(self, st, i, env, over):
        if i == len(st.items):
            yield from self.gen_block(st.body, env, over)
            return
        it = st.items[i]
        v, leave = self.ctx_enter((yield from self.gen_expr(it.context_expr, env)))
        try:
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
            yield from self._gen_with(st, i + 1, env, over)
        except PyRaise as e:
            if not leave(e):
                raise
            return
        except (_Return, _Break, _Continue):
            leave(None)
            raise
        except GeneratorExit:
            if not over(self):
                leave(PyRaise(GeneratorExit()))
            raise
        leave(None)

    def g_Match(self, st, env, over):
        subj = yield from self.gen_expr(st.subject, env)
        for case in st.cases:
            if self._case(case, subj, env):
                yield from self.gen_block(case.body, env, over)
                return
