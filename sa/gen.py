"""Mixed schemas: programs put together at random (fixed seeds) from all the constructs of the language, so that
constructs meet in combinations no family lists. About a third get one fault, whose verdict the definition decides."""
import random

from .cases import Case, ind

PRIMS = ["int", "real", "bool", "texto"]
Q = {"int": "qi", "real": "qr", "bool": "qb", "texto": "qt"}
LIT = {"int": ["0", "1", "2", "7", "300"], "real": ["0.5", "2.25", "3.0"], "bool": ["verdadeiro", "falso"], "texto": ["'a'", "'bc'", "''", "\"q\""]}

PROFILES = {
    # weights of the statements: (control, decl, assign, show, call, match, optional, vector, record)
    "misto": dict(ctrl=4, decl=4, assign=3, show=4, call=2, match=2, jump=2, vec=2, rec=2, block=1),
    "controlo": dict(ctrl=9, decl=1, assign=2, show=4, call=1, match=2, jump=5, vec=0, rec=0, block=2),
    "caso": dict(ctrl=2, decl=2, assign=1, show=3, call=1, match=8, jump=1, vec=0, rec=1, block=1),
    "valores": dict(ctrl=1, decl=6, assign=6, show=6, call=3, match=1, jump=0, vec=3, rec=3, block=0),
    "dados": dict(ctrl=2, decl=3, assign=3, show=4, call=2, match=1, jump=1, vec=7, rec=7, block=1),
    "funcoes": dict(ctrl=3, decl=3, assign=2, show=3, call=7, match=1, jump=3, vec=1, rec=3, block=1),
    "nomes": dict(ctrl=5, decl=8, assign=4, show=5, call=2, match=3, jump=0, vec=0, rec=0, block=4),
}


class Scope:
    def __init__(self, up=None, func=None, loop=False):
        self.v = {}
        self.up = up
        self.func = func if func is not None or up is None else up.func
        self.loop = loop or (up.loop if up else False)

    def all(self):
        out = {}
        s = self
        while s:
            for k, t in s.v.items():
                out.setdefault(k, t)
            s = s.up
        return out


class G:
    def __init__(self, seed, profile):
        self.r = random.Random(seed)
        self.w = PROFILES[profile]
        self.profile = profile
        self.nq = 0
        self.nv = 0
        self.nm = 0
        self.budget = self.r.randint(10, 22)
        self.regs, self.unis, self.funcs, self.mets = {}, {}, {}, {}
        self.globals = Scope()

    def pick(self, xs):
        return self.r.choice(xs)

    def chance(self, p):
        return self.r.random() < p

    # ------------------------------------------------------------- types
    def type(self, d=1):
        r = self.r.random()
        if r < .6 or d == 0:
            return self.pick(PRIMS)
        c = []
        if self.regs:
            c += list(self.regs)
        if self.unis:
            c += list(self.unis)
        c += ["[" + self.type(0) + "]", self.pick(PRIMS) + "?"]
        if self.chance(.15):
            c.append("[[int]]")
        if self.regs and self.chance(.3):
            c += ["[" + self.pick(list(self.regs)) + "]", self.pick(list(self.regs)) + "?"]
        return self.pick(c)

    def fresh(self, p="v"):
        self.nv += 1
        return f"{p}{self.nv}"

    def opaque(self, t):
        self.nq = self.nq % 9 + 1
        return f"{Q[t]}{self.nq}()"

    # -------------------------------------------------------- expressions
    def paths(self, t, sc):
        """readable places of type t"""
        out = []
        for n, ty in sc.all().items():
            out += self._paths(n, ty, t, 2)
        return out

    def _paths(self, e, ty, t, d):
        out = []
        if ty == t:
            out.append(e)
        if d == 0:
            return out
        if ty in self.regs:
            for f, ft in self.regs[ty]:
                out += self._paths(f"{e}.{f}", ft, t, d - 1)
        elif ty.startswith("["):
            out += self._paths(f"{e}[{self.pick(['0', '1', self.opaque('int')])}]", ty[1:-1], t, d - 1)
        elif ty.endswith("?"):
            if ty[:-1] == t:
                out.append(f"{e}.valor")
        return out

    def expr(self, t, sc, d=2):
        r = self.r.random()
        p = self.paths(t, sc)
        if p and r < .35:
            return self.pick(p)
        if t in PRIMS:
            if d == 0 or r < .55:
                return self.pick(LIT[t]) if self.chance(.35) else self.opaque(t)
            return self.compound(t, sc, d - 1)
        if t.endswith("?"):
            if r < .5:
                return "nulo"
            return self.expr(t[:-1], sc, d - 1 if d else 0)
        if t.startswith("["):
            el = t[1:-1]
            n = self.r.randint(1, 3)
            if self.chance(.1) and el in PRIMS:
                return f"vec({el}, {self.pick(['2', '3'])})"
            return f"[{el}: " + ", ".join(self.expr(el, sc, max(0, d - 1)) for _ in range(n)) + "]"
        fs = [n for n, (ps, rt) in self.funcs.items() if rt == t]
        if fs and d and self.chance(.3):
            return self.callf(self.pick(fs), sc, d - 1)
        if t in self.regs:
            fl = list(self.regs[t])
            self.r.shuffle(fl)
            return f"{t}({', '.join(f'{f}: {self.expr(ft, sc, max(0, d - 1))}' for f, ft in fl)})"
        if t in self.unis:
            vs = self.unis[t]
            cands = [v for v in vs if t not in v[1]] or vs
            n, ps = self.pick(vs if d else cands)
            return f"{t}::{n}" + (f"({', '.join(self.expr(x, sc, max(0, d - 1)) for x in ps)})" if ps else "")
        return "nulo"

    def callf(self, n, sc, d):
        ps, rt = self.funcs[n]
        return f"{n}({', '.join(self.expr(x, sc, d) for x in ps)})"

    def callm(self, m, sc, d):
        ty, n = m
        ps, rt = self.mets[m]
        obj = self.expr(ty, sc, d)
        if ty in PRIMS and not obj[0].isalpha() or obj[:1] == "-":
            obj = f"({obj})"
        return f"{obj}.{n}({', '.join(self.expr(x, sc, d) for x in ps)})"

    def par(self, e):
        return f"({e})" if self.chance(.35) else e

    def compound(self, t, sc, d):
        opts = ["bin", "bin", "call", "met", "par", "ou", "ig", "elem"]
        if t == "texto":
            opts += ["fstr", "cast", "idx"]
        if t == "int":
            opts += ["tam", "neg", "cast", "rem"]
        if t == "real":
            opts += ["div", "neg", "mix", "cast"]
        if t == "bool":
            opts += ["rel", "eq", "nao", "nul", "rel"]
        for _ in range(6):
            o = self.pick(opts)
            if o == "bin":
                op = {"int": ["+", "-", "*", "%", "//"], "real": ["+", "-", "*", "/"], "bool": ["e", "ou"]}.get(t)
                if op is None:
                    continue
                return self.par(f"{self.par(self.expr(t, sc, d))} {self.pick(op)} {self.par(self.expr(t, sc, d))}")
            if o == "call":
                fs = [n for n, (ps, rt) in self.funcs.items() if rt == t]
                if fs:
                    return self.callf(self.pick(fs), sc, d)
            if o == "met":
                ms = [m for m, (ps, rt) in self.mets.items() if rt == t]
                if ms:
                    return self.callm(self.pick(ms), sc, d)
            if o == "par":
                return f"({self.expr(t, sc, d)})"
            if o == "ou":
                p = self.paths(t + "?", sc)
                if p:
                    return f"{self.pick(p)}.valor_ou({self.expr(t, sc, d)})"
            if o == "ig" and self.chance(.5):
                a = self.pick(["int", "texto"])
                arms = ", ".join(f"{x} => {self.expr(t, sc, 0)}" for x in ({"int": ["1", "2"], "texto": ["'a'", "'z'"]}[a][:self.r.randint(1, 2)]))
                return f"(iguala {self.expr(a, sc, 0)} {arms}, _ => {self.expr(t, sc, d)} fim)"
            if o == "elem" and self.chance(.4):
                return f"[{t}: {self.expr(t, sc, 0)}, {self.expr(t, sc, 0)}][{self.pick(['0', '1'])}]"
            if o == "fstr":
                parts = "".join(self.pick(["a", " ", "-", "x"]) + "{" + self.expr(self.pick(PRIMS), Scope(), 0).replace("'", "").replace('"', "") + "}" for _ in range(self.r.randint(1, 3)))
                if "{}" in parts or "{a}" in parts or "{bc}" in parts or "{q}" in parts:
                    continue
                return f'f"{parts}"'
            if o == "cast":
                s = self.pick({"texto": ["int", "real", "bool"], "int": ["real", "texto"], "real": ["int", "texto"]}[t])
                return f"(({self.expr(s, sc, 0)}) :> {t})"
            if o == "idx":
                return f"{self.opaque('texto')}[{self.expr('int', sc, 0)}]"
            if o == "tam":
                p = [x for n, ty in sc.all().items() if ty.startswith("[") for x in [n]]
                return f"tam({self.pick(p) if p and self.chance(.7) else self.opaque('texto')})"
            if o == "rem":
                p = self.paths("[int]", sc)
                if p:
                    return f"remova({self.pick(p)}, {self.pick(['0', '1'])})"
            if o == "neg":
                return f"-{self.opaque(t)}" if self.chance(.5) else f"-({self.expr(t, sc, d)})"
            if o == "div":
                return f"{self.expr('int', sc, 0)} / {self.opaque('int')}"
            if o == "mix":
                a, b = self.pick([("int", "real"), ("real", "int")])
                return self.par(f"{self.opaque(a)} {self.pick(['+', '-', '*', '/'])} {self.par(self.expr(b, sc, d))}")
            if o == "rel":
                a, b = self.pick([("int", "int"), ("real", "real"), ("int", "real"), ("real", "int")])
                return self.par(f"{self.par(self.expr(a, sc, d))} {self.pick(['<', '<=', '>', '>='])} {self.par(self.expr(b, sc, d))}")
            if o == "eq":
                a = self.pick(["int", "texto", "bool", "real"])
                return f"({self.par(self.expr(a, sc, d))} {self.pick(['==', '!='])} {self.par(self.expr(a, sc, d))})"
            if o == "nao":
                return f"nao {self.opaque('bool')}" if self.chance(.5) else f"nao ({self.expr('bool', sc, d)})"
            if o == "nul":
                p = [x for b in PRIMS for x in self.paths(b + "?", sc)]
                if p:
                    return f"{self.pick(p)} {self.pick(['==', '!='])} nulo"
        return self.opaque(t)

    # ---------------------------------------------------------- statements
    def show(self, n, t, sc):
        """statements that show everything in a value"""
        if t in PRIMS:
            return f"mostra {n}\n"
        if t.endswith("?"):
            if t[:-1] in PRIMS:
                return f"se {n} != nulo entao\n mostra {n}.valor\nsenao\n mostra 'n'\nfim\n"
            return f"mostra {n} == nulo\n"
        if t.startswith("["):
            if t[1:-1] in PRIMS:
                return f"mostra tam({n})\nmostra {n}[0]\n"
            return f"mostra tam({n})\n"
        if t in self.regs:
            return "".join(f"mostra {n}.{f}\n" for f, ft in self.regs[t] if ft in PRIMS) or "mostra 'r'\n"
        return f"se iguala {n} => {t}::{self.unis[t][0][0]}" + (f"({', '.join('_' for _ in self.unis[t][0][1])})" if len(self.unis[t][0][1]) == 1 else
                                                              f"({', '.join(f'zz{i}' for i in range(len(self.unis[t][0][1])))})" if self.unis[t][0][1] else "") + " entao\n mostra 'u'\nfim\n"

    def block(self, sc, n=None, depth=0):
        out = ""
        for _ in range(n or self.r.randint(1, 3)):
            if self.budget <= 0:
                break
            self.budget -= 1
            out += self.stmt(sc, depth)
        return out or f"mostra {self.r.randint(10, 99)}\n"

    def stmt(self, sc, depth):
        w = dict(self.w)
        if depth >= 3:
            w["ctrl"] = w["match"] = w["block"] = 0
        ks = [k for k in w if w[k]]
        for _ in range(8):
            k = self.r.choices(ks, [w[x] for x in ks])[0]
            s = getattr(self, "s_" + k)(sc, depth)
            if s:
                return s
        return f"mostra {self.expr('int', sc, 1)}\n"

    def s_block(self, sc, depth):
        i = Scope(sc)
        return f"se {self.expr('bool', sc, 1)} entao\n{ind(self.block(i, None, depth + 1))}fim\n"

    def s_ctrl(self, sc, depth):
        k = self.pick(["se", "senao", "se3", "enq", "para", "parai", "esc", "esct"])
        B = lambda loop=False, pre=None: ind(self.block(self.sub(sc, loop, pre), None, depth + 1))
        c = lambda: self.expr("bool", sc, 1)
        if k == "se":
            return f"se {c()} entao\n{B()}fim\n"
        if k == "senao":
            return f"se {c()} entao\n{B()}senao\n{B()}fim\n"
        if k == "se3":
            return f"se {c()} entao\n{B()}senaose {c()} entao\n{B()}" + (f"senaose {c()} entao\n{B()}" if self.chance(.4) else "") + (f"senao\n{B()}" if self.chance(.6) else "") + "fim\n"
        if k == "enq":
            self.nm += 1
            # every turn of a loop is seen
            return f"enquanto {c()} faca\n mostra {1000 + self.nm}\n{B(True)}fim\n"
        if k in ("para", "parai"):
            v = self.name("i", sc)
            a = self.pick(["0", "1", "5"]) if self.chance(.7) else self.expr("int", sc, 0)
            b = self.pick(["2", "3"]) if self.chance(.7) else self.expr("int", sc, 1)
            inc = f" inc {self.pick(['1', '2', '3'])}" if k == "parai" else ""
            return f"para {v} de {a}..{b}{inc} faca\n{B(True, {v: 'int'})}fim\n"
        t = "int" if k == "esc" else "texto"
        cs = {"int": ["1", "2", "5", self.opaque("int")], "texto": ["'a'", "'b'", self.opaque("texto")]}[t]
        self.r.shuffle(cs)
        n = self.r.randint(1, 3)
        return f"escolha {self.expr(t, sc, 1)}:\n" + "".join(f" caso {x}:\n{ind(B().rstrip(chr(10)) + chr(10))}" for x in cs[:n]) + (f" senao:\n{ind(B())}" if self.chance(.6) else "") + "fim\n"

    def sub(self, sc, loop=False, pre=None):
        i = Scope(sc, loop=loop)
        i.v.update(pre or {})
        return i

    def name(self, p, sc):
        """a new name, sometimes one that hides a name of an outer scope"""
        if sc.up is not None and self.chance(.35 if self.profile == "nomes" else .08):
            outer = [n for n in sc.all() if n not in sc.v and n != "alvo"]
            if outer:
                return self.pick(outer)
        return self.fresh(p)

    def s_decl(self, sc, depth):
        t = self.type()
        e = self.expr(t, sc, 2)
        if t in PRIMS and self.chance(.12):
            n = self.name("v", sc)
            if n in sc.v:
                return None
            sc.v[n] = t
            return f"{n}: {t}\nmostra {n}\n"
        if t == "real" and self.chance(.3):
            e = self.expr("int", sc, 1)
        n = self.name("v", sc)
        if n in sc.v:
            return None
        if n in e:
            e = self.expr(t, Scope(), 1)
        sc.v[n] = t
        return f"{n}: {t} = {e}\n" + (self.show(n, t, sc) if self.chance(.4) else "")

    def s_assign(self, sc, depth):
        t = self.type()
        p = [x for x in self.paths(t, sc) if ".valor" not in x]
        p = [x for x in p if x.split(".")[0].split("[")[0] != x or x != "alvo"]
        if not p:
            return None
        x = self.pick(p)
        if x == "alvo":
            return None
        if t in ("int", "real") and self.chance(.45):
            op = self.pick("+-*" if t == "int" else "+-*/")
            return f"{x} {op}= {self.expr('int' if self.chance(.3) else t, sc, 1)}\nmostra {x}\n"
        if t == "real" and self.chance(.3):
            return f"{x} = {self.expr('int', sc, 1)}\nmostra {x}\n"
        return f"{x} = {self.expr(t, sc, 2)}\n" + self.show(x, t, sc)

    def s_show(self, sc, depth):
        return f"mostra {self.expr(self.pick(PRIMS), sc, 2)}\n"

    def s_call(self, sc, depth):
        if self.mets and self.chance(.4):
            return self.callm(self.pick(list(self.mets)), sc, 1) + "\n"
        if self.funcs:
            return self.callf(self.pick(list(self.funcs)), sc, 1) + "\n"

    def s_vec(self, sc, depth):
        ps = [(x, t) for t in PRIMS for x in self.paths(f"[{t}]", sc)]
        if not ps:
            return None
        x, t = self.pick(ps)
        k = self.pick(["anexa", "rem", "set", "tam"])
        if k == "anexa":
            return f"anexa({x}, {self.expr(t, sc, 1)})\nmostra tam({x})\n"
        if k == "rem":
            return f"mostra remova({x}, 0)\n"
        if k == "set":
            return f"{x}[{self.pick(['0', '1', self.opaque('int')])}] = {self.expr(t, sc, 1)}\nmostra {x}[0]\n"
        return f"mostra tam({x})\n"

    def s_rec(self, sc, depth):
        if not self.regs:
            return None
        t = self.pick(list(self.regs))
        p = [x for x in self.paths(t, sc) if ".valor" not in x]
        if not p:
            n = self.fresh("r")
            sc.v[n] = t
            return f"{n}: {t} = {self.expr(t, Scope(), 1)}\n"
        x = self.pick(p)
        f, ft = self.pick(self.regs[t])
        if ft in ("int", "real") and self.chance(.4):
            return f"{x}.{f} {self.pick('+-*')}= {self.expr(ft, sc, 1)}\nmostra {x}.{f}\n"
        return f"{x}.{f} = {self.expr(ft, sc, 1)}\n" + self.show(f"{x}.{f}", ft, sc)

    def pattern(self, t, d, binds):
        if t in self.unis and d:
            n, ps = self.pick(self.unis[t])
            return f"{t}::{n}" + (f"({', '.join(self.pattern(x, d - 1, binds) for x in ps)})" if ps else "")
        r = self.r.random()
        if t in ("int", "texto") and r < .35:
            return self.pick({"int": ["1", "2", "3"], "texto": ["'a'", "'b'"]}[t])
        if r < .75 and not binds.get("_no"):
            b = self.fresh("b")
            binds[b] = t
            return b
        if "_" in binds:
            b = self.fresh("b")
            binds[b] = t
            return b
        binds["_"] = None
        return "_"

    def s_match(self, sc, depth):
        ts = list(self.unis) * 3 + ["int", "texto"]
        t = self.pick(ts)
        tgt = self.expr(t, sc, 2)
        if self.chance(.5) and t in self.unis:
            p = self.paths(t, sc)
            if p:
                tgt = self.pick(p)
        mk = [n for n, (ps, rt) in self.funcs.items() if rt == t and not ps]
        if mk and self.chance(.5):
            tgt = f"{self.pick(mk)}()"
        if self.chance(.3):
            b = {}
            p = self.pattern(t, 2, b)
            b.pop("_", None)
            body = "".join(self.show(x, ty, sc) for x, ty in b.items() if ty)
            i = self.sub(sc, False, b)
            s = f"se iguala {tgt} => {p} entao\n{ind(body + self.block(i, 1, depth + 1))}"
            return s + (f"senao\n{ind(self.block(self.sub(sc), 1, depth + 1))}fim\n" if self.chance(.6) else "fim\n")
        arms = []
        for k in range(self.r.randint(1, 4)):
            b = {}
            p = self.pattern(t, 2, b)
            arms.append((p, b))
        r = self.r.random()
        if t in self.unis and r < .5:
            for n, ps in self.unis[t]:
                b = {}
                bs = [self.fresh("b") for _ in ps]
                b.update(zip(bs, ps))
                arms.append((f"{t}::{n}" + (f"({', '.join(bs)})" if ps else ""), b))
        elif r < .93:
            if self.chance(.5):
                arms.append(("_", {}))
            else:
                n = self.fresh("b")
                arms.append((n, {n: t}))
        # an arm hidden by an earlier one that takes everything is still a valid program
        value = self.chance(.25)
        vt = self.pick(PRIMS)
        out = []
        for p, b in arms:
            b.pop("_", None)
            i = self.sub(sc, False, b)
            if value and self.chance(.6):
                out.append(f" {p} => {self.expr(vt, i, 1)}")
                continue
            body = "".join(self.show(x, ty, sc) for x, ty in b.items() if self.chance(.7))
            body += self.block(i, 1, depth + 1)
            if value:
                if "retorna" in body or "quebra" in body or "continua" in body:
                    body = ""
                body += f"produz {self.expr(vt, i, 1)}\n"
            out.append(f" {p} => faca\n{ind(body, 2)} fim")
        text = f"iguala {tgt}\n" + ",\n".join(out) + "\nfim\n"
        if value:
            n = self.fresh("v")
            sc.v[n] = vt
            return f"{n}: {vt} = {text}mostra {n}\n"
        return text

    def s_jump(self, sc, depth):
        if sc.up is None:
            return None
        f = sc.func
        c = ["quebra", "continua"] if sc.loop else []
        if f is not None:
            c.append("retorna" if f[1] is None else f"retorna {self.expr(f[1], sc, 1)}")
        if not c:
            return None
        j = self.pick(c)
        if self.chance(.8):
            return f"se {self.expr('bool', sc, 0)} entao\n {j}\nfim\n"
        return j + "\n"

    # -------------------------------------------------------- declarations
    def program(self):
        out = ""
        for i in range(self.r.randint(0, 2)):
            n = f"R{i}"
            fl = []
            for j in range(self.r.randint(1, 4)):
                t = self.type(1)
                fl.append((f"f{j}", t))
            self.regs[n] = fl
            out += f"registo {n}\n" + "".join(f" {f}: {t}\n" for f, t in fl) + "fim\n"
        for i in range(self.r.randint(1 if self.profile == "caso" else 0, 2)):
            n = f"U{i}"
            vs = []
            for j in range(self.r.randint(2, 4)):
                ps = [self.pick(PRIMS[:1] + ["texto", "int"] + [u for u in self.unis] + (["real"] if self.chance(.3) else [])) for _ in range(self.pick([0, 0, 1, 1, 2, 3]))]
                vs.append((f"{'ABCD'[j]}{i}", ps))
            self.unis[n] = vs
            out += f"uniao {n}\n " + ", ".join(v + (f"({', '.join(ps)})" if ps else "") for v, ps in vs) + "\nfim\n"
            body = ""
            for v, ps in vs[:-1]:
                body += f"se {self.opaque('bool')} entao\n retorna {n}::{v}" + (f"({', '.join(self.expr(x, Scope(), 0) for x in ps)})" if ps else "") + "\nfim\n"
            v, ps = vs[-1]
            body += f"retorna {n}::{v}" + (f"({', '.join(self.expr(x, Scope(), 0) for x in ps)})" if ps else "") + "\n"
            out += f"func mk{n}(): {n}\n{ind(body)}fim\n"
            self.funcs[f"mk{n}"] = ([], n)
        if self.chance(.6):
            for i in range(self.r.randint(1, 2)):
                out += self.s_decl(self.globals, 3) or ""
        for i in range(self.r.randint(0, 3 if self.profile == "funcoes" else 2)):
            out += self.function(i)
        if (self.regs or self.chance(.3)) and self.chance(.7):
            out += self.method(0)
            if self.profile == "funcoes" or self.chance(.3):
                out += self.method(1)
        while self.budget > 0:
            self.budget -= 1
            out += self.stmt(self.globals, 0)
        return out + "mostra 'z'\n"

    def function(self, i):
        n = f"fn{i}"
        ps = [self.type() for _ in range(self.r.randint(0, 4))]
        rt = self.type() if self.chance(.65) else None
        names = [f"p{j}" for j in range(len(ps))]
        sc = Scope(self.globals, func=(n, rt))
        sc.v.update(zip(names, ps))
        save, self.budget = self.budget, self.r.randint(2, 6)
        body = self.block(sc, 6, 0)
        if rt:
            body += f"retorna {self.expr(rt, sc, 1)}\n"
        self.budget = save
        self.funcs[n] = (ps, rt)
        return f"func {n}({', '.join(f'{a}: {t}' for a, t in zip(names, ps))})" + (f": {rt}" if rt else "") + f"\n{ind(body)}fim\n"

    def method(self, i):
        ty = self.pick(list(self.regs) * 2 + list(self.unis) + ["int", "texto"])
        n = f"me{i}"
        ps = [self.type() for _ in range(self.r.randint(0, 3))]
        rt = self.type() if self.chance(.65) else None
        names = [f"p{j}" for j in range(len(ps))]
        sc = Scope(self.globals, func=(n, rt))
        sc.v.update(zip(names, ps))
        sc.v["alvo"] = ty
        save, self.budget = self.budget, self.r.randint(1, 5)
        body = self.block(sc, 5, 0)
        if rt:
            body += f"retorna {self.expr(rt, sc, 1)}\n"
        self.budget = save
        self.mets[(ty, n)] = (ps, rt)
        return f"met {ty}::{n}({', '.join(['alvo'] + [f'{a}: {t}' for a, t in zip(names, ps)])})" + (f": {rt}" if rt else "") + f"\n{ind(body)}fim\n"


def fault(text, r):
    """one change that may make the program invalid"""
    lines = text.split("\n")
    for _ in range(20):
        i = r.randrange(len(lines))
        l = lines[i]
        k = r.choice(["tipo", "nome", "apaga", "lit", "arg", "op", "jump", "dup"])
        import re
        if k == "tipo":
            m = list(re.finditer(r"\b(int|real|bool|texto)\b", l))
            if m and not l.strip().startswith("met "):
                m = r.choice(m)
                return "\n".join(lines[:i] + [l[:m.start()] + r.choice([x for x in PRIMS if x != m.group()]) + l[m.end():]] + lines[i + 1:])
        elif k == "nome":
            m = list(re.finditer(r"\b([vbpif]\d+)\b", l))
            if m:
                m = r.choice(m)
                o = re.findall(r"\b([vbpif]\d+)\b", text)
                return "\n".join(lines[:i] + [l[:m.start()] + r.choice(o) + l[m.end():]] + lines[i + 1:])
        elif k == "apaga":
            if l.strip() and l.strip().split()[0] in ("retorna", "mostra", "produz") or ": " in l and "=" in l and "=>" not in l:
                return "\n".join(lines[:i] + lines[i + 1:])
        elif k == "lit":
            m = list(re.finditer(r"\bq[irbt]\d\(\)", l))
            if m and not l.startswith("func"):
                m = r.choice(m)
                return "\n".join(lines[:i] + [l[:m.start()] + r.choice(["1", "'a'", "2.5", "falso", "nulo", "qv1()"]) + l[m.end():]] + lines[i + 1:])
        elif k == "arg":
            m = list(re.finditer(r", [^,()\[\]]+\)", l))
            if m and "func" not in l and "met " not in l:
                m = r.choice(m)
                return "\n".join(lines[:i] + [l[:m.start()] + ")" + l[m.end():]] + lines[i + 1:])
        elif k == "op":
            m = list(re.finditer(r" (\+|-|\*|<|==|e|ou|!=) ", l))
            if m:
                m = r.choice(m)
                return "\n".join(lines[:i] + [l[:m.start()] + f" {r.choice(['+', '-', '<', '==', 'e', 'ou', '%', '/'])} " + l[m.end():]] + lines[i + 1:])
        elif k == "jump":
            if l.strip().startswith("mostra"):
                return "\n".join(lines[:i] + [l[:len(l) - len(l.lstrip())] + r.choice(["quebra", "continua", "retorna", "retorna 1", "produz 1"])] + lines[i + 1:])
        elif k == "dup":
            if ": " in l and " = " in l and "=>" not in l:
                return "\n".join(lines[:i + 1] + [l] + lines[i + 1:])
    return text


def mixed(profile="misto", n=300, start=0, faults=.3):
    for s in range(start, start + n):
        g = G(f"{profile}/{s}", profile)
        t = g.program()
        if g.chance(faults):
            t = fault(t, g.r)
        yield Case(f"misto/{profile}/{s}", t, limit=60)
