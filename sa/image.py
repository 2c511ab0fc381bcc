"""Images: decoding the bytes as the loader of the machine does, and verifying every instruction of every path.

The verifier is a dataflow analysis over the control flow graph of each function of each module of an image
(reachable or not from the program's start): operand-stack depth, kinds of the topmost values, locals.
"""
import os
import re
import struct
from .bcvm import parse_const, Mod, BINOPS
from .terms import Fault
from .vmspec import strip_rust


class Bad(Exception):
    pass


# ------------------------------------------------------------- the loader
NEEDS = {
    "module": {"name": str, "builtin": int, "entry_locals": int, "constants": list, "names": list, "ops": bytes, "functions": list, "registos": list, "src_map": list},
    "function": {"name": str, "start_ip": int, "locals": int, "module": int},
    "registo": {"name": str, "fields": list},
}


def loader_keys(root):
    """the keys the loader takes out of a document, read from its source"""
    src = open(os.path.join(root, "amanda/vm/src/binload.rs"), encoding="utf-8").read().split("#[cfg(test)]")[0]
    return set(re.findall(r'remove\(\s*"(\w+)"\s*\)', src))


def decode(data):
    """the document the loader reads from the bytes; every byte has to be accounted for"""
    def need(i, n):
        if i + n > len(data):
            raise Bad(f"the image ends inside a value at byte {i}")

    def key(i):
        j = data.find(b"\0", i)
        if j < 0:
            raise Bad(f"unterminated key at byte {i}")
        return data[i:j].decode("latin-1"), j + 1

    def doc(i, array):
        need(i, 4)
        i += 4
        out = [] if array else {}
        while True:
            need(i, 1)
            t = data[i]
            i += 1
            if t == 0:
                return out, i
            k, i = key(i)
            v, i = value(t, i)
            if array:
                if k != str(len(out)):
                    raise Bad(f"element {len(out)} of an array has key {k}")
                out.append(v)
            elif k in out:
                raise Bad(f"key {k} twice")
            else:
                out[k] = v

    def value(t, i):
        if t == 1:
            need(i, 8)
            return struct.unpack_from("<d", data, i)[0], i + 8
        if t == 2:
            need(i, 4)
            n = struct.unpack_from("<i", data, i)[0]
            if n < 0:
                raise Bad(f"text of length {n}")
            need(i + 4, n + 1)
            if data[i + 4 + n] != 0:
                raise Bad(f"the text at byte {i} is not followed by its end")
            try:
                return data[i + 4:i + 4 + n].decode("utf-8"), i + 5 + n
            except UnicodeDecodeError:
                raise Bad(f"the text at byte {i} is no UTF-8")
        if t in (3, 4):
            return doc(i, t == 4)
        if t == 5:
            need(i, 5)
            n = struct.unpack_from("<i", data, i)[0]
            if n < 0:
                raise Bad(f"byte string of length {n}")
            need(i + 5, n)
            return data[i + 5:i + 5 + n], i + 5 + n
        if t == 0x12:
            need(i, 8)
            return struct.unpack_from("<q", data, i)[0], i + 8
        raise Bad(f"value of type {t:#x} at byte {i}")
    d, i = doc(0, False)
    if i != len(data):
        raise Bad(f"{len(data) - i} bytes after the end of the image")
    return d


def shape(d, what="module", path="image"):
    """the keys and kinds the loader insists on"""
    out = []
    if not isinstance(d, dict):
        return [f"{path} is no document"]
    for k, t in NEEDS[what].items():
        if k not in d:
            out.append(f"{path} lacks {k}")
        elif type(d[k]) is not t:
            out.append(f"{path}.{k} is of kind {type(d[k]).__name__}, not {t.__name__}")
    if out:
        return out
    if what == "function" and (d["start_ip"] < 0 or d["locals"] < 0):
        out.append(f"{path}: negative offset or number of locals")
    if what == "registo":
        out += [f"{path}.fields[{i}] is no text" for i, x in enumerate(d["fields"]) if type(x) is not str]
    if what == "module":
        out += [f"{path}.names[{i}] is no text" for i, x in enumerate(d["names"]) if type(x) is not str]
        out += [f"{path}.constants[{i}] is a {type(x).__name__}" for i, x in enumerate(d["constants"]) if type(x) not in (str, int, float)]
        out += [f"{path}.src_map[{i}] is no number" for i, x in enumerate(d["src_map"]) if type(x) is not int]
        for k, w in (("functions", "function"), ("registos", "registo")):
            for i, x in enumerate(d[k]):
                out += shape(x, w, f"{path}.{k}[{i}]")
        if d["entry_locals"] < 0:
            out.append(f"{path}: negative number of locals")
    return out


# ----------------------------------------------------------- the verifier
POPS = {"Mostra": (1, 0), "LoadConst": (0, 1), "LoadName": (0, 1), "LoadRegisto": (0, 1), "LoadModuleDef": (0, 1), "GetGlobal": (0, 1), "SetGlobal": (1, 0), "Jump": (0, 0),
        "JumpIfFalse": (1, 0), "GetLocal": (0, 1), "SetLocal": (1, 0), "Return": (1, 0), "Cast": (2, 1), "GetProp": (2, 1), "SetProp": (3, 0), "IsNull": (1, 1), "MatchVariant": (1, 1),
        "OpInvert": (1, 1), "OpNot": (1, 1), "OpIndexGet": (2, 1), "OpIndexSet": (3, 0), "Halt": (0, 0)}


def effect(op, a):
    if op in BINOPS:
        return 2, 1
    if op in POPS:
        return POPS[op]
    if op == "CallFunction":
        return a[0] + 1, 1
    if op in ("BuildStr", "BuildVec"):
        return a[0], 1
    if op == "BuildObj":
        return 2 * a[0] + 1, 1
    if op == "Unwrap":
        return (2, 1) if a[0] == 1 else (1, 1)
    if op == "BuildVariant":
        return a[0] + 1, 1
    if op == "BindMatchArgs":
        return a[0] + 1, 0
    return None


class Verifier:
    def __init__(self, image, spec, sources=None):
        self.image = image
        self.spec = spec
        self.sources = sources or {}
        self.errors = []
        self.n = {"modules": 0, "functions": 0, "instructions": 0, "edges": 0}

    def err(self, m, what):
        self.errors.append(f"module {m.name}: {what}")

    def run(self):
        mods = [Mod(x, self.spec, i) for i, x in enumerate(self.image["imports"])]
        main = Mod(self.image, self.spec, -1)
        names = [m.name for m in mods]
        self.mods, self.main = mods, main
        for m in mods + [main]:
            self.module(m)
        for m in mods:
            if m.d.get("imports"):
                self.err(m, "imports of an imported module are never loaded")
        return self.errors

    def module(self, m):
        self.n["modules"] += 1
        try:
            m.decode()
        except Fault as e:
            return self.err(m, str(e))
        self.consts = []
        for i, c in enumerate(m.raw_consts):
            try:
                self.consts.append(parse_const(c))
            except Fault as e:
                self.consts.append(None)
                self.err(m, f"constant {i}: {e}")
        for w, xs in (("name", m.names), ("constant", m.raw_consts)):
            if len(set(xs)) != len(xs):
                self.err(m, f"{w} table with repeated entries")
        idx = -1 if m is self.main else m.index
        entries = {0: ("_inicio_", m.d["entry_locals"])}
        for f in m.functions:
            if f["module"] != idx:
                self.err(m, f"function {f['name']} claims to be of module {f['module']}, it is of {idx}")
            if f["start_ip"] not in m.instr:
                self.err(m, f"function {f['name']} starts at {f['start_ip']}, which is no instruction")
                continue
            if f["start_ip"] in entries:
                self.err(m, f"function {f['name']} starts where {entries[f['start_ip']][0]} does")
                continue
            entries[f["start_ip"]] = (f["name"], f["locals"])
        if len({f["name"] for f in m.functions}) != len(m.functions):
            self.err(m, "two functions of one name")
        owner = {}
        for e, (n, loc) in sorted(entries.items()):
            self.function(m, e, n, loc, owner, entries)
        self.lines(m)

    def function(self, m, entry, name, nlocals, owner, entries):
        """depth of the operand stack (the least over the paths that meet) and the topmost integer constants"""
        self.n["functions"] += 1
        tests = {nxt for op, a, nxt in m.instr.values() if op == "MatchVariant"}
        state = {entry: (0, ())}
        work = [entry]
        late = []
        said = set()

        def err(at, what):
            if what not in said:
                said.add(what)
                self.err(m, f"{name} at {at} ({m.instr[at][0]}): {what}")
        while work or late:
            if not work:
                # the failing edge of the last test of an exhaustive match is never taken; such an edge meets
                # the arms with the value of the match missing
                s, d2, t2 = late.pop(0)
                if s in state and d2 < state[s][0]:
                    continue
                self.flow(state, work, s, d2, t2)
                continue
            at = work.pop()
            if owner.setdefault(at, name) != name:
                self.err(m, f"control runs from {name} into {owner[at]} at {at}")
                return
            depth, top = state[at]
            op, a, nxt = m.instr[at]
            self.n["instructions"] += 1
            e = effect(op, a)
            if e is None:
                err(at, "no transfer rule")
                return
            pops, pushes = e
            if depth < pops:
                err(at, f"needs {pops} values, has {depth}")
                return
            for what, n, table in self.operands(m, op, a):
                if not 0 <= n < len(table):
                    err(at, f"{what} {n} of {len(table)}")
                    return
            if op in ("GetLocal", "SetLocal") and a[0] >= nlocals:
                err(at, f"local {a[0]} of {nlocals}")
            if op in ("BindMatchArgs", "BuildVariant"):
                ks = top[-a[0]:] if a[0] and op == "BindMatchArgs" else top[-1:] if op == "BuildVariant" else ()
                if op == "BindMatchArgs":
                    if len(ks) != a[0] or any(k is None for k in ks):
                        err(at, "a local to bind is not a constant")
                    else:
                        if any(not 0 <= k < nlocals for k in ks):
                            err(at, f"binds locals {list(ks)} of {nlocals}")
                        if len(set(ks)) != len(ks):
                            err(at, f"binds one local twice: {list(ks)}")
                elif not ks or ks[0] is None:
                    err(at, "the tag of a variant is not a constant")
            if op in ("Unwrap", "Cast") and a[0] not in (0, 1):
                err(at, f"mode {a[0]}")
            d2 = depth - pops + pushes
            t2 = top[:max(0, len(top) - pops)]
            if pushes:
                c = self.consts[a[0]] if op == "LoadConst" else None
                t2 = (t2 + ((c[2] if c and c[0] == "k" and c[1] == "int" else None),))[-8:]
            if op in ("Halt", "Return"):
                if op == "Halt" and entry != 0:
                    err(at, "the program ends inside a function")
                if op == "Return" and entry == 0:
                    err(at, "return outside a function")
                continue
            succ = [a[0]] if op == "Jump" else [nxt, a[0]] if op == "JumpIfFalse" else [nxt]
            for s in succ:
                self.n["edges"] += 1
                if s not in m.instr:
                    err(at, f"control goes to {s}, which is no instruction")
                    continue
                if s in entries and s != entry:
                    err(at, f"control runs into {entries[s][0]}")
                    continue
                if op == "JumpIfFalse" and s == a[0] and at in tests:
                    late.append((s, d2, t2))
                else:
                    self.flow(state, work, s, d2, t2)

    def flow(self, state, work, s, d2, t2):
        old = state.get(s)
        if old is None:
            new = (d2, t2)
        else:
            k = 0
            while k < min(len(old[1]), len(t2)) and old[1][-1 - k] == t2[-1 - k]:
                k += 1
            new = (min(old[0], d2), old[1][len(old[1]) - k:])
        if new != old:
            state[s] = new
            work.append(s)

    def operands(self, m, op, a):
        if op == "LoadConst":
            yield "constant", a[0], m.raw_consts
        elif op in ("LoadName", "GetGlobal", "SetGlobal"):
            yield "name", a[0], m.names
        elif op == "LoadRegisto":
            yield "registo", a[0], m.registos
        elif op == "LoadModuleDef":
            yield "module", a[0], self.mods
            yield "name", a[1], m.names

    def lines(self, m):
        sm = m.src_map
        if m.builtin:
            return
        if len(sm) % 3:
            return self.err(m, f"line table of {len(sm)} numbers")
        last = -1
        nl = self.sources.get(m.name)
        for i in range(0, len(sm), 3):
            a, b, ln = sm[i:i + 3]
            if not last < a <= b:
                self.err(m, f"line table: run {a}..{b} after {last}")
                return
            last = b
            if ln < 1 or nl and ln > nl:
                self.err(m, f"line table: line {ln} of {nl}")
                return
