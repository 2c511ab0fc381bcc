"""Abstract machine for the byte code the front end emits.

It follows the contract of amanda/vm (sa.vmspec reads opcode numbers and operand
widths from the Rust source): operand order, big-endian arguments, call frames
with arguments in the first local slots. Values are terms (sa.terms).
"""
import struct
from .terms import *

BINOPS = {"OpAdd": "+", "OpMinus": "-", "OpMul": "*", "OpDiv": "/", "OpFloorDiv": "//", "OpModulo": "%",
          "OpAnd": "e", "OpOr": "ou", "OpEq": "==", "OpNotEq": "!=", "OpGreater": ">", "OpGreaterEq": ">=",
          "OpLess": "<", "OpLessEq": "<="}

NATIVES = {"leia", "leia_int", "leia_real", "escreva", "escrevaln", "vec", "tam", "anexa", "remova", "txt_contem"}
NATIVE_KIND = {"leia": "texto", "leia_int": "int", "leia_real": "real", "txt_contem": "bool"}
TYPES = {"int", "real", "bool", "texto", "vec", "indef", "vazio", "nulo"}


def parse_const(c):
    """a constant-table entry as the machine loads it"""
    if isinstance(c, bool):
        raise Fault("boolean in the constant table")
    if isinstance(c, int):
        return kint(c)
    if isinstance(c, float):
        return ("k", "real", c)
    if not isinstance(c, str):
        raise Fault(f"constant of type {type(c).__name__}")
    if c in ("verdadeiro", "falso"):
        return ("k", "bool", c == "verdadeiro")
    if c == "nulo":
        return NULO
    import re
    if re.fullmatch(r"[+-]?[0-9]+", c) and MINI <= int(c) <= MAXI:
        return kint(int(c))
    if re.fullmatch(r"[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?|[+-]?(inf|infinity|nan)", c, re.I):
        return ("k", "real", float(c))
    if c == "":
        raise Fault("empty constant text")
    if not c[0].isascii():
        raise Fault("constant text starts with a multi-byte character")
    if c[0] in "\"'":
        if len(c) < 2:
            raise Fault("unterminated text constant")
        return ktxt(c[1:-1])
    return ktxt(c)


class Mod:
    def __init__(self, d, spec, index):
        self.d = d
        self.name = d["name"]
        self.builtin = bool(d["builtin"])
        self.index = index
        self.code = d["ops"]
        self.names = d["names"]
        self.raw_consts = d["constants"]
        self.functions = d["functions"]
        self.registos = d["registos"]
        self.src_map = d["src_map"]
        self.globals = {}
        self.instr = {}
        self.spec = spec
        if not isinstance(self.code, (bytes, bytearray)):
            raise Fault(f"module {self.name}: code is not a byte string")

    def decode(self):
        """instructions by offset; every byte belongs to exactly one"""
        i = 0
        code = self.code
        out = {}
        while i < len(code):
            op = self.spec.by_number.get(code[i])
            if op is None:
                raise Fault(f"offset {i}: byte {code[i]} is no opcode of the machine")
            w = self.spec.widths[op]
            args = []
            j = i + 1
            for n in w:
                if j + n > len(code):
                    raise Fault(f"offset {i}: {op} is truncated")
                args.append(int.from_bytes(code[j:j + n], "big"))
                j += n
            out[i] = (op, tuple(args), j)
            i = j
        self.instr = out
        return out


class Frame:
    def __init__(self, mod, ip, base, nlocals, name):
        self.mod = mod
        self.ip = ip
        self.base = base
        self.nlocals = nlocals
        self.name = name
        self.last = ip


class Machine:
    def __init__(self, out, spec, trace, max_steps=20000, lines=False):
        self.spec = spec
        self.trace = trace
        self.imports = [Mod(m, spec, i) for i, m in enumerate(out["imports"])]
        self.main = Mod(out, spec, -1)
        self.max_steps = max_steps
        self.lines = lines
        self.cover = set()

    def run(self):
        t = self.trace
        try:
            for m in self.imports + [self.main]:
                m.decode()
            for m in self.imports:
                self.run_module(m)
            self.run_module(self.main)
            t.events.append(("end",))
        except RtErr as e:
            t.events.append(("error", str(e)) + ((tuple((fr.mod.name, self.line(fr)) for fr in self.frames),) if self.lines else ()))
        except Fault as e:
            t.events.append(("fault", str(e)))
        except Stop:
            pass

    def init_globals(self, m):
        if m.builtin:
            if m.name == "embutidos":
                for n in NATIVES:
                    m.globals[n] = ("native", n)
                for n in TYPES:
                    m.globals[n] = ("type", n) if n not in NATIVES else ("native", n)
            else:
                m.globals = None     # another native module: every name is a native
        else:
            for f in m.functions:
                m.globals[f["name"]] = ("fn", m, f)

    def mod_of(self, i, what):
        if not 0 <= i < len(self.imports):
            raise Fault(f"{what} refers to import {i} of {len(self.imports)}")
        return self.imports[i]

    def run_module(self, m):
        self.init_globals(m)
        self.stack = []
        nl = m.d["entry_locals"]
        self.stack = [UNDEF] * nl
        self.frames = [Frame(m, 0, 0, nl, "_inicio_")]
        n = 0
        while True:
            n += 1
            if n > self.max_steps:
                raise Fault("no progress: instruction bound reached without an event")
            f = self.frames[-1]
            ins = f.mod.instr.get(f.ip)
            if ins is None:
                raise Fault(f"{f.mod.name}: control reaches offset {f.ip}, which is not an instruction")
            op, args, nxt = ins
            f.last = f.ip
            self.cover.add((f.mod.index, f.ip))
            h = getattr(self, "i_" + op, None)
            if op in BINOPS:
                b = self.pop()
                a = self.pop()
                self.push(binop(BINOPS[op], a, b))
            elif op == "Halt":
                if len(self.frames) != 1:
                    raise Fault(f"end of program inside function {f.name}")
                return
            elif h is None:
                raise Fault(f"no transfer function for {op}")
            else:
                r = h(f, args, nxt)
                if r is not None:
                    continue
            f.ip = nxt

    # -------------------------------------------------------------- operands
    def push(self, v):
        self.stack.append(v)

    def pop(self):
        f = self.frames[-1]
        if len(self.stack) <= f.base + f.nlocals:
            raise Fault(f"{f.name}: operand stack is empty at offset {f.ip} ({f.mod.instr[f.ip][0]})")
        return self.stack.pop()

    def popn(self, n):
        r = [self.pop() for _ in range(n)]
        r.reverse()
        return r

    def pick(self, seq, i, what):
        if not 0 <= i < len(seq):
            raise Fault(f"{what} index {i} outside a table of {len(seq)}")
        return seq[i]

    # ---------------------------------------------------------- instructions
    def ev(self, *e):
        if self.lines:
            f = self.frames[-1]
            e = e + (tuple((fr.mod.name, self.line(fr)) for fr in self.frames),)
        self.trace.emit(*e)

    def line(self, fr):
        off = fr.last      # the instruction being executed, or the call in progress
        sm = fr.mod.src_map
        for i in range(0, len(sm) - 2, 3):
            if sm[i] <= off <= sm[i + 1]:
                return sm[i + 2]
        return -1

    def i_Mostra(self, f, a, nxt):
        v = self.pop()
        if v[0] in ("native", "fn", "type") if isinstance(v, tuple) else False:
            raise Fault(f"mostra of a {v[0]}")
        self.ev("show", snap(v))

    def i_LoadConst(self, f, a, nxt):
        self.push(parse_const(self.pick(f.mod.raw_consts, a[0], "constant")))

    def i_LoadName(self, f, a, nxt):
        self.push(("name", self.pick(f.mod.names, a[0], "name")))

    def i_LoadRegisto(self, f, a, nxt):
        self.push(("regdef", f.mod, self.pick(f.mod.registos, a[0], "registo")))

    def i_LoadModuleDef(self, f, a, nxt):
        m = self.mod_of(a[0], "LOAD_MODULE_DEF")
        name = self.pick(f.mod.names, a[1], "name")
        if m.globals is None:
            self.push(("q", name, "real", 0) if name.isupper() else ("native", name))
            return
        if name not in m.globals:
            raise Fault(f"module {m.name} has no definition '{name}' at run time")
        self.push(m.globals[name])

    def i_GetGlobal(self, f, a, nxt):
        name = self.pick(f.mod.names, a[0], "name")
        if name not in f.mod.globals:
            raise Fault(f"global '{name}' is read before any definition in module {f.mod.name}")
        self.push(f.mod.globals[name])

    def i_SetGlobal(self, f, a, nxt):
        name = self.pick(f.mod.names, a[0], "name")
        f.mod.globals[name] = self.pop()

    def i_Jump(self, f, a, nxt):
        f.ip = a[0]
        return True

    def i_JumpIfFalse(self, f, a, nxt):
        v = self.pop()
        if not self.trace.decide(v):
            f.ip = a[0]
            return True

    def slot(self, f, i):
        if i >= f.nlocals:
            raise Fault(f"{f.name}: local slot {i} of {f.nlocals}")
        return f.base + i

    def i_GetLocal(self, f, a, nxt):
        v = self.stack[self.slot(f, a[0])]
        self.push(v)

    def i_SetLocal(self, f, a, nxt):
        v = self.pop()
        self.stack[self.slot(f, a[0])] = v

    def i_CallFunction(self, f, a, nxt):
        fn = self.pop()
        if not isinstance(fn, tuple) or fn[0] not in ("fn", "native"):
            raise Fault(f"call of {show(snap(fn))}")
        args = self.popn(a[0])
        if fn[0] == "native":
            self.push(self.native(fn[1], args))
            return
        _, m, d = fn
        if opaque(d["name"].split("::")[-1]):
            r = self.trace.call(d["name"].split("::")[-1], args)
            self.push(FALSE if r is None else r)
            return
        if d["locals"] < len(args):
            raise Fault(f"function {d['name']} has {d['locals']} slots for {len(args)} arguments")
        f.ip = nxt
        base = len(self.stack)
        self.stack.extend(args)
        self.stack.extend([UNDEF] * (d["locals"] - len(args)))
        # the frame's module is the one recorded in the function, not the one it was found in
        mi = d["module"]
        mod = self.main if mi < 0 else self.mod_of(mi, f"function {d['name']}")
        if len(self.frames) > 60:
            raise Stop()
        self.frames.append(Frame(mod, d["start_ip"], base, d["locals"], d["name"]))
        return True

    def i_Return(self, f, a, nxt):
        if len(self.frames) == 1:
            raise Fault("return outside a function")
        v = self.pop()
        del self.stack[f.base:]
        self.frames.pop()
        self.push(v)
        return True

    def i_Cast(self, f, a, nxt):
        ty = self.pop()
        v = self.pop()
        if not (isinstance(ty, tuple) and ty[0] == "type"):
            raise Fault("CAST without a type on top of the stack")
        if a[0] == 0:
            self.push(cast(v, ty[1]))
        elif a[0] == 1:
            self.trace.emit("check", ty[1], snap(v))
            self.push(v)
        else:
            self.push(v)

    def i_BuildStr(self, f, a, nxt):
        self.push(mkstr(self.popn(a[0])))

    def i_BuildVec(self, f, a, nxt):
        self.push(Vec(self.popn(a[0])))

    def i_BuildObj(self, f, a, nxt):
        reg = self.pop()
        if not (isinstance(reg, tuple) and reg[0] == "regdef"):
            raise Fault("BUILD_OBJ without a registo on top of the stack")
        xs = self.popn(2 * a[0])
        fields = {}
        for i in range(0, len(xs), 2):
            if not (isinstance(xs[i], tuple) and xs[i][0] == "name"):
                raise Fault("BUILD_OBJ operand is not a field name")
            if xs[i][1] not in reg[2]["fields"]:
                raise Fault(f"registo {reg[2]['name']} has no field '{xs[i][1]}' at run time")
            fields[xs[i][1]] = xs[i + 1]
        self.push(Rec(reg[2]["name"], fields))

    def rec(self, v, what):
        if not isinstance(v, Rec):
            raise Fault(f"{what} of a {kind(v)} value")
        return v

    def field(self, n):
        if not (isinstance(n, tuple) and n[0] == "name"):
            raise Fault("field operand is not a name")
        return n[1]

    def i_GetProp(self, f, a, nxt):
        n = self.field(self.pop())
        r = self.rec(self.pop(), "GET_PROP")
        if n not in r.fields:
            raise Fault(f"instance of {r.reg} has no field '{n}'")
        self.push(r.fields[n])

    def i_SetProp(self, f, a, nxt):
        v = self.pop()
        n = self.field(self.pop())
        r = self.rec(self.pop(), "SET_PROP")
        if n not in r.fields:
            raise Fault(f"instance of {r.reg} has no field '{n}'")
        r.fields[n] = v

    def i_Unwrap(self, f, a, nxt):
        d = self.pop() if a[0] == 1 else None
        v = self.pop()
        if v == NULO:
            if a[0] != 1:
                raise RtErr("null access")
            self.push(d)
        else:
            self.push(v)

    def i_IsNull(self, f, a, nxt):
        v = self.pop()
        self.push(TRUE if v == NULO else FALSE)

    def i_BuildVariant(self, f, a, nxt):
        tag = self.pop()
        if kind(tag) != "int" or tag[0] != "k":
            raise Fault("variant tag is not an integer constant")
        self.push(Var(tag[2], self.popn(a[0])))

    def i_MatchVariant(self, f, a, nxt):
        v = self.pop()
        if not isinstance(v, Var):
            raise Fault(f"MATCH_VARIANT on a {kind(v)} value")
        self.push(TRUE if v.tag == a[0] else FALSE)

    def i_BindMatchArgs(self, f, a, nxt):
        idx = self.popn(a[0])
        v = self.pop()
        if not isinstance(v, Var) or len(v.args) < len(idx):
            raise Fault("BIND_MATCH_ARGS on a value without that many arguments")
        for i, x in enumerate(idx):
            if kind(x) != "int" or x[0] != "k":
                raise Fault("local index is not an integer constant")
            self.stack[self.slot(f, x[2])] = v.args[i]

    def i_OpInvert(self, f, a, nxt):
        self.push(neg(self.pop()))

    def i_OpNot(self, f, a, nxt):
        self.push(lnot(self.pop()))

    def i_OpIndexGet(self, f, a, nxt):
        i = self.pop()
        v = self.pop()
        self.push(index_get(v, i))

    def i_OpIndexSet(self, f, a, nxt):
        x = self.pop()
        i = self.pop()
        v = self.pop()
        index_set(v, i, x)

    def native(self, n, args):
        return native(self.trace, n, args)


def index_get(v, i):
    if kind(i) != "int":
        raise Fault(f"index of kind {kind(i)}")
    if isinstance(v, Vec):
        if i[0] != "k":
            ks = {kind(x) for x in v.items}
            if len(ks) != 1 or ks & {"vec", "reg", "var"}:
                raise Stop()
            return ("op", "at", ks.pop(), snap(v), i)
        if not 0 <= i[2] < len(v.items):
            raise RtErr("index")
        return v.items[i[2]]
    if kind(v) != "texto":
        raise Fault(f"index of a {kind(v)} value")
    return ("op", "[]", "texto", v, i)


def index_set(v, i, x):
    if not isinstance(v, Vec) or kind(i) != "int":
        raise Fault(f"indexed assignment to a {kind(v)} value at {kind(i)}")
    if i[0] != "k":
        raise Stop()
    if not 0 <= i[2] < len(v.items):
        raise RtErr("index")
    v.items[i[2]] = x


NARGS = {"leia": 1, "leia_int": 1, "leia_real": 1, "escreva": 1, "escrevaln": 1, "tam": 1, "anexa": 2,
         "remova": 2, "txt_contem": 2}
DEFAULTS = {"int": kint(0), "real": ("k", "real", 0.0), "bool": FALSE, "texto": ktxt("")}


def native(trace, n, args):
    if n in NARGS and len(args) != NARGS[n]:
        raise Fault(f"native {n} called with {len(args)} arguments")
    if n == "tam":
        v = args[0]
        if isinstance(v, Vec):
            return kint(len(v.items))
        if kind(v) != "texto":
            raise Fault(f"tam of a {kind(v)} value")
        if v[0] == "k":
            return kint(len(v[2]))
        return ("op", "tam", "int", v, v)
    if n == "anexa":
        if not isinstance(args[0], Vec):
            raise Fault("anexa on a value that is no vector")
        args[0].items.append(args[1])
        return FALSE
    if n == "remova":
        if not isinstance(args[0], Vec) or kind(args[1]) != "int":
            raise Fault("remova on a value that is no vector")
        if args[1][0] != "k":
            raise Stop()
        if not 0 <= args[1][2] < len(args[0].items):
            raise RtErr("index")
        return args[0].items.pop(args[1][2])
    if n == "vec":
        ty = args[0]
        if not (isinstance(ty, tuple) and ty[0] == "type" or ty == "anytype"):
            ty = ("type", None) if isinstance(ty, tuple) and ty[0] == "regdef" else ty
        sizes = args[1:]
        if any(kind(s) != "int" for s in sizes):
            raise Fault("vector size is no int")
        if any(s[0] != "k" for s in sizes):
            trace.emit("call", "vec", tuple(snap(s) for s in sizes))
            raise Stop()

        def mk(ss):
            if not ss:
                return DEFAULTS.get(ty[1], NULO)
            if ss[0][2] < 0:
                raise RtErr("vec size")
            return Vec([mk(ss[1:]) for _ in range(ss[0][2])])
        return mk(list(sizes))
    trace.emit("call", n, tuple(snap(a) for a in args))
    trace.ncalls += 1
    k = NATIVE_KIND.get(n)
    if k:
        return ("q", n, k, trace.ncalls)
    if n in NARGS:
        return FALSE
    return ("q", n, "real", trace.ncalls)
