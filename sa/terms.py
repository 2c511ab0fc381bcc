"""The value domain shared by the abstract bytecode machine and the reference.

Values are terms: constants, results of opaque calls (any value of the declared
type), and uninterpreted operations on them. Only constants are folded, so two
computations agree when they apply the same operations to the same operands.
Heap objects carry identity.
"""


class Fault(Exception):
    """the machine leaves its defined behaviour (bad stack, operand kind, address …)"""


class RtErr(Exception):
    """a run-time error the language defines (null access, index …)"""


class NeedDecision(Exception):
    def __init__(self, atom):
        self.atom = atom


class Stop(Exception):
    """bound on the trace length reached"""


class Vec:
    def __init__(self, items):
        self.items = items


class Rec:
    def __init__(self, reg, fields):
        self.reg = reg
        self.fields = fields


class Var:
    def __init__(self, tag, args):
        self.tag = tag
        self.args = args


TRUE = ("k", "bool", True)
FALSE = ("k", "bool", False)
NULO = ("k", "nulo", None)
UNDEF = ("undef",)
MAXI = 2 ** 63 - 1
MINI = -2 ** 63


def kint(n):
    return ("k", "int", n)


def ktxt(s):
    return ("k", "texto", s)


def kind(t):
    """static kind of a term where known"""
    if isinstance(t, Vec):
        return "vec"
    if isinstance(t, Rec):
        return "reg"
    if isinstance(t, Var):
        return "var"
    h = t[0]
    if h == "k":
        return t[1]
    if h == "q":
        return t[2]
    if h == "op":
        return t[2]
    if h == "un":
        return t[2]
    if h == "cast":
        return t[1]
    if h == "str":
        return "texto"
    if h in ("isnull", "not"):
        return "bool"
    return h


def real_text(v):
    if v != v or v in (float("inf"), float("-inf")):
        return repr(v)
    if v == int(v):
        return f"{int(v)}.0"
    return repr(v)


def display(t):
    """text of a constant, as the machine shows it"""
    k, v = t[1], t[2]
    if k == "bool":
        return "verdadeiro" if v else "falso"
    if k == "nulo":
        return "nulo"
    if k == "real":
        return real_text(v)
    return str(v)


def unreal(t):
    """operand of arithmetic: an int promoted to real compares as the int"""
    if not isinstance(t, (Vec, Rec, Var)) and t[0] == "cast" and t[1] == "real" and kind(t[2]) == "int":
        return t[2]
    if not isinstance(t, (Vec, Rec, Var)) and t[0] == "k" and t[1] == "int":
        return ("k", "real", float(t[2]))
    return t


def binop(op, a, b):
    if op in ("==", "!="):
        # any two values compare; values of different kinds differ, objects are equal to themselves only
        if isinstance(a, (Vec, Rec, Var)) or isinstance(b, (Vec, Rec, Var)):
            return ("k", "bool", (a is b and not isinstance(a, Var)) == (op == "=="))
        ka, kb = kind(a), kind(b)
        if not (ka == kb or {ka, kb} == {"int", "real"}):
            return ("k", "bool", op == "!=")
        if ka == "nulo":
            return ("k", "bool", op == "==")
    for x in (a, b):
        if isinstance(x, (Vec, Rec, Var)):
            raise Fault(f"operator {op} applied to a {kind(x)} value")
    ka, kb = kind(a), kind(b)
    num = ("int", "real")
    if op in ("+", "-", "*", "/", "//", "%"):
        if ka not in num or kb not in num:
            raise Fault(f"operator {op} applied to {ka} and {kb}")
        rk = "real" if "real" in (ka, kb) or op == "/" else "int"
        if a[0] == "k" and b[0] == "k":
            r = fold(op, a, b, rk)
            if r is not None:
                return r
        if "real" in (ka, kb) or op == "/":
            a, b = unreal(a), unreal(b)
        if op in ("+", "*") and repr(b) < repr(a):
            a, b = b, a
        return ("op", op, rk, a, b)
    if op in ("<", "<=", ">", ">="):
        if ka not in num or kb not in num:
            raise Fault(f"operator {op} applied to {ka} and {kb}")
        if a[0] == "k" and b[0] == "k":
            x, y = a[2], b[2]
            return ("k", "bool", {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op])
        if "real" in (ka, kb):
            a, b = unreal(a), unreal(b)
        if op in (">", ">="):
            op, a, b = {">": "<", ">=": "<="}[op], b, a
        if op == "<=" and (ka, kb) == ("int", "int"):
            return ("not", ("op", "<", "bool", b, a))
        return ("op", op, "bool", a, b)
    if op in ("==", "!="):
        ok = (ka in num and kb in num) or ka == kb and ka in ("bool", "texto")
        if not ok:
            raise Fault(f"operator {op} applied to {ka} and {kb}")
        if a[0] == "k" and b[0] == "k":
            return ("k", "bool", (a[2] == b[2]) == (op == "=="))
        if "real" in (ka, kb):
            a, b = unreal(a), unreal(b)
        if repr(b) < repr(a):
            a, b = b, a
        r = ("op", "==", "bool", a, b)
        return r if op == "==" else ("not", r)
    if op in ("e", "ou"):
        if ka != "bool" or kb != "bool":
            raise Fault(f"operator {op} applied to {ka} and {kb}")
        if a[0] == "k" and b[0] == "k":
            return ("k", "bool", (a[2] and b[2]) if op == "e" else (a[2] or b[2]))
        return ("op", op, "bool", a, b)
    raise Fault(f"unknown operator {op}")


def fold(op, a, b, rk):
    x, y = a[2], b[2]
    if op in ("/", "//", "%"):
        if y == 0 or (op == "//" and int(y) == 0):
            raise RtErr("division by zero")
        if rk == "int" or op == "//":
            x, y = int(x), int(y)
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            return ("k", rk, float(q) if rk == "real" else q) if op == "//" else ("k", rk, x - q * y)
        if op == "%":
            import math
            return ("k", "real", math.fmod(x, y))
        return ("k", "real", x / y)
    v = {"+": x + y, "-": x - y, "*": x * y}[op]
    if rk == "int":
        if not MINI <= v <= MAXI:
            raise RtErr("integer overflow")
        return ("k", "int", v)
    return ("k", "real", float(v))


def neg(a):
    k = kind(a)
    if k not in ("int", "real"):
        raise Fault(f"negation of {k}")
    if a[0] == "k":
        return ("k", k, -a[2])
    return ("un", "-", k, a)


def lnot(a):
    if kind(a) != "bool":
        raise Fault(f"nao applied to {kind(a)}")
    if a[0] == "k":
        return ("k", "bool", not a[2])
    if a[0] == "not":
        return a[1]
    return ("not", a)


CASTS = {("real", "int"), ("texto", "int"), ("int", "real"), ("texto", "real"),
         ("int", "bool"), ("real", "bool"), ("texto", "bool")}


def cast(a, ty):
    k = kind(a)
    if ty == "texto":
        if not isinstance(a, (Vec, Rec, Var)) and a[0] == "k":
            return ktxt(display(a))
        if k == "texto":
            return a
        return ("cast", ty, snap(a))
    if (k, ty) not in CASTS:
        raise Fault(f"machine has no conversion from {k} to {ty}")
    if a[0] == "k":
        v = a[2]
        if ty == "real" and k == "int":
            return ("k", "real", float(v))
        if ty == "int" and k == "real":
            return ("k", "int", int(v))
        if ty == "bool":
            return ("k", "bool", v != "" if k == "texto" else v != 0)
    return ("cast", ty, a)


def mkstr(parts):
    out = []
    for p in parts:
        if not isinstance(p, (Vec, Rec, Var)) and p[0] == "str":
            out.extend(p[1])
        elif not isinstance(p, (Vec, Rec, Var)) and p[0] == "k":
            out.append(ktxt(display(p)))
        else:
            out.append(snap(p))
    m = []
    for p in out:
        if m and p[0] == "k" and m[-1][0] == "k":
            m[-1] = ktxt(m[-1][2] + p[2])
        elif p != ktxt(""):
            m.append(p)
    if not m:
        return ktxt("")
    if len(m) == 1 and m[0][0] == "k":
        return m[0]
    return ("str", tuple(m))


def snap(v, seen=()):
    """an immutable picture of a value, for events"""
    if isinstance(v, (Vec, Rec, Var)):
        if any(v is s for s in seen):
            return ("cycle",)
        seen = seen + (v,)
        if isinstance(v, Vec):
            return ("vec", tuple(snap(x, seen) for x in v.items))
        if isinstance(v, Rec):
            return ("reg", v.reg, tuple(sorted((k, snap(x, seen)) for k, x in v.fields.items())))
        return ("var", len(v.args), tuple(snap(x, seen) for x in v.args))
    return v


def show(t):
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return "()"
    if t[0] == "k":
        return repr(t[2]) if t[1] != "bool" else display(t)
    if t[0] == "q":
        return f"{t[1]}#{t[3]}"
    if t[0] == "op":
        return f"({show(t[3])} {t[1]} {show(t[4])})"
    if t[0] == "un":
        return f"-{show(t[3])}"
    if t[0] == "not":
        return f"nao {show(t[1])}"
    if t[0] == "cast":
        return f"{show(t[2])} :> {t[1]}"
    if t[0] == "vec":
        return "[" + ", ".join(map(show, t[1])) + "]"
    if t[0] == "reg":
        return f"{t[1]}(" + ", ".join(f"{k}={show(x)}" for k, x in t[2]) + ")"
    if t[0] == "str":
        return "f" + repr([show(x) for x in t[1]])
    return "(" + " ".join(show(x) if isinstance(x, tuple) else str(x) for x in t) + ")"


OPAQUE_KINDS = {"i": "int", "r": "real", "b": "bool", "t": "texto", "v": "nulo"}


def opaque(name):
    """qi, qi1, qb_x … : functions whose body is not interpreted"""
    import re
    m = re.fullmatch(r"q([irbtv])\d*(_\w+)?", name)
    return OPAQUE_KINDS[m.group(1)] if m else None


class Trace:
    """events under a fixed assignment of the symbolic decisions"""

    def __init__(self, decisions, limit=40):
        self.events = []
        self.decisions = decisions
        self.limit = limit
        self.ncalls = 0

    def emit(self, *ev):
        self.events.append(ev)
        if len(self.events) >= self.limit:
            raise Stop()

    def call(self, name, args):
        self.ncalls += 1
        k = opaque(name)
        n = self.ncalls
        self.emit("call", name, tuple(snap(a) for a in args))
        if k == "nulo":
            return None
        return ("q", name, k, n)

    def decide(self, t):
        if isinstance(t, (Vec, Rec, Var)) or kind(t) != "bool":
            raise Fault(f"condition of kind {kind(t)}")
        if t[0] == "k":
            return t[2]
        if t[0] == "not":
            return not self.decide(t[1])
        if t not in self.decisions:
            v = implied(t, self.decisions)
            if v is None:
                raise NeedDecision(t)
            return v
        return self.decisions[t]


def split(t):
    """(op, unknown, constant, constant first) of a comparison of an unknown whole number or text with a constant"""
    if t[0] == "op" and t[1] in ("==", "<"):
        a, b = t[3], t[4]
        for x, k, first in ((b, a, True), (a, b, False)):
            if isinstance(k, tuple) and k[0] == "k" and k[1] in ("int", "texto") and isinstance(x, tuple) and x[0] == "q" and x[2] == k[1]:
                return t[1], x, k[2], first
    return None


def implied(t, decisions):
    """the truth of a condition that the decisions so far leave no choice about"""
    s = split(t)
    if s is None:
        return None
    op, x, k, first = s
    lo, hi, others, eq = None, None, set(), None
    for u, v in decisions.items():
        w = split(u)
        if w is None or w[1] != x:
            continue
        if w[0] == "==":
            if v:
                eq = (w[2],)
            else:
                others.add(w[2])
        else:
            # k < x, not k < x, x < k, not x < k
            if w[3] == v:
                b = w[2] + 1 if v else w[2]
                lo = b if lo is None else max(lo, b)
            else:
                b = w[2] if w[3] else w[2] - 1
                hi = b if hi is None else min(hi, b)
    if eq is not None:
        return (eq[0] == k) if op == "==" else (k < eq[0] if first else eq[0] < k)
    if op == "==":
        if lo is not None and k < lo or hi is not None and k > hi:
            return False
        if lo is not None and lo == hi == k:
            return True
        return None
    if first:
        return True if lo is not None and k < lo else False if hi is not None and hi <= k else None
    return True if hi is not None and hi < k else False if lo is not None and k <= lo else None
