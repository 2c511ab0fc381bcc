"""Independent definition of the language: lexer, parser, typing rules, meaning.

Written from the language's documented rules, not from the compiler's code; it is
the oracle the abstract front end and abstract machine are compared with. The
meaning is given on the term domain of sa.terms (opaque calls return any value).
"""
import posixpath
from .terms import *
from .bcvm import native, index_get, index_set

KW = ("mostra e ou nao verdadeiro falso caso retorna produz se senao senaose escolha entao enquanto para faca de "
      "continua quebra usa como alvo registo iguala inc fim func met nulo vazio nativa uniao classe").split()


class Reject(Exception):
    def __init__(self, line, why, file=None):
        Exception.__init__(self, f"line {line}: {why}")
        self.line = line
        self.why = why
        self.file = file


class Skip(Exception):
    """the schema uses something this definition does not cover"""


class N:
    def __init__(self, k, line, **a):
        self.k = k
        self.line = line
        self.ty = None
        self.conv = None
        self.__dict__.update(a)

    def __repr__(self):
        return f"{self.k}@{self.line}"


# ------------------------------------------------------------------- lexer
DIGITS = "0123456789"
TWO = ("==", "!=", "<=", ">=", "//", "+=", "-=", "*=", "/=", "=>", "..", "::", ":>", "@@")
ONE = "()[],:;.=+-*/%<>?@"


def lex(src):
    toks = []
    i, line = 0, 1
    n = len(src)
    while i < n:
        c = src[i]
        if c == "\n" and i == n - 1:
            break
        if c == "\n":
            toks.append(("nl", "\\n", line))
            line += 1
            i += 1
        elif c.isspace():
            i += 1
        elif c == "#":
            while i < n and src[i] != "\n":
                i += 1
        elif c in "'\"" or c == "f" and i + 1 < n and src[i + 1] in "'\"":
            f = c == "f"
            if f:
                i += 1
            q = src[i]
            i += 1
            start = line
            out = []
            while True:
                if i >= n:
                    toks.append(("bad", "unterminated text", start))
                    return toks
                c = src[i]
                if c == q:
                    break
                if c == "\\" and i + 1 < n and src[i + 1] in "n'\"":
                    out.append({"n": "\n"}.get(src[i + 1], src[i + 1]))
                    i += 2
                    continue
                if c == "\n":
                    line += 1
                out.append(c)
                i += 1
            i += 1
            toks.append(("fstr" if f else "str", "".join(out), start))
        elif c.isalpha() or c == "_":
            j = i
            while j < n and (src[j].isalnum() or src[j] == "_"):
                j += 1
            w = src[i:j]
            toks.append(("kw" if w in KW else "id", w, line))
            i = j
        elif c in DIGITS:
            j = i
            while j < n and src[j] in DIGITS:
                j += 1
            if j + 1 < n and src[j] == "." and src[j + 1] in DIGITS:
                j += 1
                while j < n and src[j] in DIGITS:
                    j += 1
                toks.append(("real", float(src[i:j]), line))
            else:
                toks.append(("int", int(src[i:j]), line))
            i = j
        elif src[i:i + 2] in TWO:
            toks.append(("op", src[i:i + 2], line))
            i += 2
        elif c in ONE:
            toks.append(("op", c, line))
            i += 1
        else:
            toks.append(("bad", f"unknown symbol {c!r}", line))
            return toks
    toks.append(("eof", "", line))
    return toks


# ------------------------------------------------------------------ parser
LEVELS = [("==", "!="), ("<", "<=", ">", ">="), ("+", "-", "ou"), ("*", "/", "//", "%", "e")]


class P:
    def __init__(self, src, line0=None):
        self.t = [(k, v, ln if line0 is None else line0) for k, v, ln in lex(src)]
        self.i = 0

    # token helpers
    @property
    def cur(self):
        t = self.t[self.i]
        if t[0] == "bad":
            raise Reject(t[2], t[1])
        return t

    def at(self, v):
        k, x, _ = self.cur
        return k in ("op", "kw") and x == v

    def kind(self, k):
        return self.cur[0] == k

    def fail(self, why):
        raise Reject(self.cur[2], why)

    def eat(self, v, nl=False):
        if nl:
            self.nls()
        if not self.at(v):
            self.fail(f"expected {v}, got {self.cur[1]!r}")
        self.i += 1
        return self.t[self.i - 1]

    def ident(self, nl=False):
        if nl:
            self.nls()
        if not self.kind("id"):
            self.fail("expected an identifier")
        self.i += 1
        return self.t[self.i - 1]

    def nls(self):
        while self.kind("nl"):
            self.i += 1

    def end(self):
        if self.kind("nl") or self.at(";"):
            self.i += 1
        elif not self.kind("eof"):
            self.fail("statement not terminated")

    # program
    def program(self):
        self.nls()
        anns = []
        while self.at("@@"):
            self.i += 1
            anns.append(self.annotation())
        body = []
        self.nls()
        while self.at("usa"):
            body.append(self.usa())
            self.nls()
        while not self.kind("eof"):
            if self.kind("nl"):
                self.i += 1
            else:
                body += self.decl()
        return N("prog", 1, body=body, anns=anns)

    def annotation(self):
        name = self.ident()[1]
        attrs = {}
        if self.at("("):
            self.i += 1
            if self.at(")"):
                self.fail("empty annotation")
            while not self.at(")"):
                k = self.ident()[1]
                self.eat("=")
                if not self.kind("str"):
                    self.fail("text expected")
                attrs[k] = self.cur[1]
                self.i += 1
                if self.at(","):
                    self.i += 1
            self.i += 1
        return name, attrs

    def usa(self):
        ln = self.eat("usa")[2]
        if not self.kind("str"):
            self.fail("module path expected")
        path = self.cur[1]
        self.i += 1
        if not self.at("=>"):
            self.end()
            return N("usa", ln, mode="global", path=path)
        self.i += 1
        if self.kind("id"):
            return N("usa", ln, mode="alias", path=path, alias=self.ident()[1])
        self.eat("[")
        items = [self.ident()[1]]
        while self.at(","):
            self.i += 1
            items.append(self.ident()[1])
        self.eat("]")
        return N("usa", ln, mode="items", path=path, items=items)

    STOP = ("fim", "senao", "senaose", "caso")

    def block(self):
        out = []
        while not self.kind("eof") and not any(self.at(s) for s in self.STOP):
            if self.kind("nl"):
                self.i += 1
            else:
                out += self.decl()
        return out

    def decl(self):
        anns = []
        while self.at("@"):
            self.i += 1
            anns.append(self.annotation())
        if anns:
            self.nls()
            if not any(self.at(x) for x in ("func", "met", "registo", "uniao")):
                self.fail("annotation without a declaration")
        if self.at("func"):
            return [self.func(anns)]
        if self.at("met"):
            return [self.met(anns)]
        if self.at("registo"):
            return [self.registo(anns)]
        if self.at("uniao"):
            return [self.uniao()]
        return self.stmt()

    def type(self):
        ln = self.cur[2]
        if self.kind("id"):
            comps = [self.ident()[1]]
            while self.at("."):
                self.i += 1
                comps.append(self.ident()[1])
            gen = self.generics()
            t = N("T", ln, path=comps, gen=gen)
        elif self.at("["):
            self.i += 1
            el = self.type()
            self.eat("]")
            t = N("TV", ln, el=el)
        else:
            self.fail("invalid type")
        t.opt = False
        if self.at("?"):
            self.i += 1
            t.opt = True
        return t

    def generics(self):
        if not self.at("["):
            return None
        self.i += 1
        if self.at("]"):
            self.fail("no generic argument")
        out = []
        while not self.at("]"):
            out.append(self.type())
            if self.at(","):
                self.i += 1
        self.i += 1
        return out

    def gparams(self):
        if not self.at("["):
            return []
        self.i += 1
        if self.at("]"):
            self.fail("no generic parameter")
        out = []
        while not self.at("]"):
            out.append(self.ident()[1])
            if self.at(","):
                self.i += 1
        self.i += 1
        return out

    def params(self):
        out = []
        self.nls()
        if self.kind("id"):
            while True:
                nm = self.ident(nl=True)
                self.eat(":")
                out.append((nm[1], self.type(), nm[2]))
                if len(out) > 1:
                    self.nls()
                if self.at(")"):
                    break
                self.eat(",", nl=True)
        return out

    def func(self, anns):
        self.eat("func")
        nat = self.at("nativa")
        if nat:
            self.i += 1
        name = self.ident()
        self.eat("(")
        ps = self.params()
        self.eat(")")
        rt = self.ret_type(True)
        body = []
        if nat:
            self.end()
        else:
            body = self.block()
            self.eat("fim")
        return N("func", name[2], name=name[1], params=ps, rt=rt, body=body, anns=anns, native=nat)

    def ret_type(self, vazio):
        if not self.at(":"):
            return None
        self.i += 1
        if vazio and self.at("vazio"):
            self.i += 1
            return None
        return self.type()

    def met(self, anns):
        self.eat("met")
        gp = self.gparams()
        ty = self.type()
        self.eat("::")
        name = self.ident()
        self.eat("(")
        self.eat("alvo")
        ps = []
        if self.at(","):
            self.i += 1
            ps = self.params()
        self.eat(")")
        rt = self.ret_type(False)
        body = self.block()
        self.eat("fim")
        return N("met", name[2], name=name[1], params=ps, rt=rt, body=body, anns=anns, target=ty, gp=gp)

    def registo(self, anns):
        self.eat("registo")
        name = self.ident()
        gp = self.gparams()
        fields = []
        while not self.at("fim"):
            if self.kind("eof"):
                self.fail("registo not closed")
            if self.kind("nl"):
                self.i += 1
                continue
            if not self.kind("id"):
                self.fail("registo body holds fields only")
            nm = self.ident()
            if not (self.at(":") or self.at(",")):
                self.fail("field without a type")
            fields += self.vardecl(nm)
            self.end()
        self.eat("fim")
        return N("registo", name[2], name=name[1], fields=fields, gp=gp)

    def uniao(self):
        self.eat("uniao")
        name = self.ident()
        gp = self.gparams()
        vs = []
        self.nls()
        if self.kind("id"):
            vs.append(self.variant())
            self.nls()
            while self.at(","):
                self.i += 1
                self.nls()
                vs.append(self.variant())
        self.nls()
        self.eat("fim")
        return N("uniao", name[2], name=name[1], variants=vs, gp=gp)

    def variant(self):
        nm = self.ident()
        ps = []
        if self.at("("):
            self.i += 1
            self.nls()
            ps.append(self.type())
            while self.at(","):
                self.i += 1
                self.nls()
                ps.append(self.type())
                self.nls()
            self.eat(")")
        return nm[1], ps, nm[2]

    # statements
    def stmt(self):
        k, v, ln = self.cur
        if k == "kw":
            if v in ("mostra", "produz"):
                self.i += 1
                e = self.expr()
                self.end()
                return [N(v, ln, e=e)]
            if v == "retorna":
                self.i += 1
                e = None if self.kind("nl") or self.at(";") else self.expr()
                self.end()
                return [N("retorna", ln, e=e)]
            if v == "enquanto":
                self.i += 1
                c = self.expr()
                self.eat("faca")
                b = self.block()
                self.eat("fim")
                return [N("enquanto", ln, c=c, body=b)]
            if v == "se":
                return [self.se()]
            if v == "para":
                return [self.para()]
            if v == "escolha":
                return [self.escolha()]
            if v in ("quebra", "continua"):
                self.i += 1
                self.end()
                return [N(v, ln)]
            if v == "iguala":
                return [self.iguala()]
        return self.simple()

    def se(self):
        ln = self.eat("se")[2]
        if self.at("iguala"):
            self.i += 1
            e = self.expr()
            self.eat("=>")
            p = self.pattern()
            self.eat("entao")
            a = self.block()
            b = []
            if self.at("senao"):
                self.i += 1
                b = self.block()
            self.eat("fim")
            return N("iguala", ln, e=e, arms=[(p, a, p.line), (N("pbind", ln, name="_"), b, ln)])
        c = self.expr()
        self.eat("entao")
        branches = [(c, self.block(), ln)]
        els = None
        while self.at("senaose"):
            l2 = self.eat("senaose")[2]
            c = self.expr()
            self.eat("entao")
            branches.append((c, self.block(), l2))
        if self.at("senao"):
            self.i += 1
            els = self.block()
        self.eat("fim")
        return N("se", ln, branches=branches, els=els)

    def para(self):
        ln = self.eat("para")[2]
        nm = self.ident()[1]
        self.eat("de")
        a = self.expr()
        self.eat("..")
        b = self.expr()
        inc = None
        if self.at("inc"):
            self.i += 1
            inc = self.expr()
        self.eat("faca")
        body = self.block()
        self.eat("fim")
        return N("para", ln, name=nm, a=a, b=b, inc=inc, body=body)

    def escolha(self):
        ln = self.eat("escolha")[2]
        e = self.expr()
        self.eat(":")
        self.nls()
        cases, els = [], None
        while self.at("caso"):
            l2 = self.eat("caso")[2]
            c = self.expr()
            self.eat(":")
            cases.append((c, self.block(), l2))
        if self.at("senao"):
            self.i += 1
            self.eat(":")
            els = self.block()
        self.eat("fim")
        return N("escolha", ln, e=e, cases=cases, els=els)

    def pattern(self):
        ln = self.cur[2]
        e = self.primary()
        if e.k == "const" and e.t in ("int", "str"):
            return N("pconst", ln, v=e.v[2], t=e.t)
        if e.k in ("name", "path"):
            path = [e.name] if e.k == "name" else e.path
            if self.at("("):
                self.i += 1
                args = [self.pattern()]
                self.nls()
                while self.at(","):
                    self.i += 1
                    args.append(self.pattern())
                self.eat(")")
                return N("padt", ln, path=path, args=args)
            if len(path) > 1:
                return N("padt", ln, path=path, args=[])
            return N("pbind", ln, name=path[0])
        self.fail("invalid pattern")

    def arm(self):
        self.nls()
        p = self.pattern()
        ln = self.eat("=>")[2]
        self.nls()
        if self.at("faca"):
            self.i += 1
            b = self.block()
            self.eat("fim")
        else:
            e = self.expr()
            b = [N("produz", e.line, e=e)]
        self.nls()
        return p, b, ln

    def iguala(self):
        ln = self.eat("iguala")[2]
        e = self.expr()
        arms = []
        while not self.at("fim"):
            arms.append(self.arm())
            while self.at(","):
                self.i += 1
                arms.append(self.arm())
        self.eat("fim")
        return N("iguala", ln, e=e, arms=arms)

    def vardecl(self, nm):
        names = [nm]
        while self.at(","):
            self.i += 1
            names.append(self.ident())
        ln = self.eat(":")[2]
        ty = self.type()
        init = None
        if len(names) == 1 and self.at("="):
            self.i += 1
            init = self.expr()
        return [N("var", ln, name=x[1], t=ty, init=init) for x in names]

    def simple(self):
        first = self.cur[2]
        out = self.simple_()
        for s in out:
            s.first = first
        return out

    def simple_(self):
        e = self.expr()
        if e.k == "name" and (self.at(":") or self.at(",")):
            out = self.vardecl(("id", e.name, e.line))
            self.end()
            return out
        for op in ("+=", "-=", "*=", "/="):
            if self.at(op):
                if e.k not in ("name", "get", "index"):
                    self.fail("not assignable")
                ln = self.cur[2]
                self.i += 1
                r = self.expr()
                if self.at("="):
                    self.fail("bad compound assignment")
                self.end()
                return [N("assign", ln, l=e, r=N("bin", ln, op=op[0], a=e, b=r))]
        e = self.assign_rhs(e)
        self.end()
        return [e if e.k == "assign" else N("expr", e.line, e=e)]

    def assign_rhs(self, e):
        if not self.at("="):
            return e
        ln = self.eat("=")[2]
        if e.k not in ("name", "get", "index"):
            self.fail("not assignable")
        r = self.assign_rhs(self.expr())
        return N("assign", ln, l=e, r=r)

    # expressions
    def expr(self, lv=0):
        if lv == len(LEVELS):
            return self.unary()
        a = self.expr(lv + 1)
        while any(self.at(o) for o in LEVELS[lv]):
            op, ln = self.cur[1], self.cur[2]
            self.i += 1
            a = N("bin", ln, op=op, a=a, b=self.expr(lv + 1))
        return a

    def unary(self):
        if self.at("+") or self.at("-") or self.at("nao"):
            op, ln = self.cur[1], self.cur[2]
            self.i += 1
            return N("un", ln, op=op, a=self.unary())
        return self.postfix()

    def postfix(self):
        e = self.primary()
        while True:
            if self.at("("):
                self.i += 1
                args = self.args()
                ln = self.eat(")")[2]
                e = N("call", ln, f=e, args=args)
            elif self.at("["):
                self.i += 1
                ix = self.expr()
                ln = self.eat("]")[2]
                e = N("index", ln, v=e, i=ix)
            elif self.at("."):
                self.i += 1
                m = self.ident()
                e = N("get", m[2], o=e, name=m[1])
            else:
                break
        if self.at(":>"):
            ln = self.eat(":>")[2]
            return N("conv", ln, e=e, t=self.type())
        return e

    def args(self):
        out = []
        self.nls()
        if not self.at(")"):
            out.append(self.arg())
        self.nls()
        while self.at(","):
            self.i += 1
            self.nls()
            out.append(self.arg())
            self.nls()
        return out

    def arg(self):
        e = self.expr()
        if e.k == "name" and self.at(":"):
            self.i += 1
            return N("named", e.line, name=e.name, e=self.expr())
        return e

    def primary(self):
        k, v, ln = self.cur
        if k == "id":
            self.i += 1
            if self.at("::"):
                path = [v]
                while self.at("::"):
                    self.i += 1
                    path.append(self.ident()[1])
                return N("path", ln, path=path)
            return N("name", ln, name=v)
        if k in ("int", "real", "str"):
            self.i += 1
            return N("const", ln, v={"int": kint, "real": lambda x: ("k", "real", x), "str": ktxt}[k](v), t=k)
        if k == "kw" and v in ("verdadeiro", "falso", "nulo"):
            self.i += 1
            return N("const", ln, v={"verdadeiro": TRUE, "falso": FALSE, "nulo": NULO}[v],
                     t="nulo" if v == "nulo" else "bool")
        if k == "kw" and v == "alvo":
            self.i += 1
            return N("alvo", ln)
        if k == "kw" and v == "iguala":
            return self.iguala()
        if k == "fstr":
            self.i += 1
            return self.fstr(v, ln)
        if self.at("("):
            self.i += 1
            e = self.expr()
            self.eat(")")
            return e
        if self.at("["):
            self.i += 1
            self.nls()
            t = self.type()
            self.eat(":")
            items = []
            if not self.at("]"):
                self.nls()
                items.append(self.expr())
                while not self.at("]"):
                    self.eat(",", nl=True)
                    self.nls()
                    items.append(self.expr())
                    self.nls()
            self.eat("]", nl=True)
            return N("list", ln, t=t, items=items)
        self.fail(f"invalid start of an expression: {v!r}")

    def fstr(self, s, ln):
        parts, buf, i, n = [], "", 0, len(s)
        has = False
        while i < n:
            if s[i] == "{" and i + 1 < n and s[i + 1] == "{":
                buf += "{"
                i += 2
            elif s[i] == "{":
                j = s.find("}", i)
                if j < 0:
                    raise Reject(self.t[self.i][2], "f-string expression not closed")
                frag = s[i + 1:j]
                if not frag.strip():
                    raise Reject(self.t[self.i][2], "empty f-string expression")
                if frag.strip()[:2] in ("f'", 'f"'):
                    raise Reject(self.t[self.i][2], "nested f-string")
                if buf:
                    parts.append(N("const", ln, v=ktxt(buf), t="str"))
                    buf = ""
                has = True
                try:
                    q = P(frag, ln)
                    parts.append(q.expr())
                    q.nls()
                    if not q.kind("eof"):
                        q.fail("text after the expression")
                except Reject as e:
                    raise Reject(ln, e.why)
                i = j + 1
            else:
                buf += s[i]
                i += 1
        if buf:
            parts.append(N("const", ln, v=ktxt(buf), t="str"))
        if not has:
            return parts[0] if parts else N("const", ln, v=ktxt(""), t="str")
        return N("fstr", ln, parts=parts)


# ------------------------------------------------------------------- types
INT, REAL, BOOL, TEXTO, INDEF, VAZIO, TNULO = (("int",), ("real",), ("bool",), ("texto",), ("indef",),
                                               ("vazio",), ("nulo",))
PRIMS = (INT, REAL, BOOL, TEXTO, INDEF)
ZERO = {INT: kint(0), REAL: ("k", "real", 0.0), BOOL: FALSE, TEXTO: ktxt("")}


def tname(t):
    if t[0] == "vec":
        return f"[{tname(t[1])}]"
    if t[0] == "opt":
        return f"{tname(t[1])}?"
    if t[0] in ("reg", "uni"):
        return t[1]
    return t[0]


def promotes(a, b):
    """a value of type a may be used where b is expected, beyond equality"""
    if b == INDEF:
        return a in (INT, REAL, BOOL, TEXTO) or a[0] in ("vec", "reg", "uni", "opt")
    if a == INT and b == REAL:
        return True
    if b[0] == "opt":
        return a == TNULO or a == b[1] or promotes(a, b[1])
    return False


def fits(exp, got):
    return exp == got or promotes(got, exp)


def castable(a, b):
    if b[0] == "opt":
        return a == TNULO or a[0] in ("int", "real", "bool", "texto", "indef") and castable(a, b[1])
    if a == b and len(a) == 1:
        return True
    if a in (INT, REAL, TEXTO):
        return b in PRIMS
    if a == BOOL:
        return b in (TEXTO, INDEF)
    if a == INDEF:
        return b in PRIMS
    return False


def bin_type(op, a, b):
    num = (INT, REAL)
    if op in ("+", "-", "*", "/", "//", "%"):
        if a in num and b in num:
            return INT if a == b == INT and op != "/" else REAL
        return None
    if op in ("<", "<=", ">", ">="):
        return BOOL if a in num and b in num else None
    if op in ("e", "ou"):
        return BOOL if a == b == BOOL else None
    if a[0] == "reg" and b[0] == "reg" or a[0] == "opt":
        return BOOL
    prims = (INT, REAL, BOOL, TEXTO, TNULO)
    if a in num and b in num or a == b and a in prims:
        return BOOL
    return None


# ------------------------------------------------------------------ checker
class Sym:
    def __init__(self, kind, name, mod, **a):
        self.kind = kind      # var func reg uni type mod
        self.name = name
        self.mod = mod
        self.__dict__.update(a)


class Scope:
    def __init__(self, up=None):
        self.up = up
        self.d = {}

    def get(self, n):
        s = self
        while s:
            if n in s.d:
                return s.d[n]
            s = s.up
        return None


BUILTIN_FUNCS = {"leia": ([TEXTO], TEXTO), "leia_int": ([TEXTO], INT), "leia_real": ([TEXTO], REAL),
                 "escreva": ([INDEF], VAZIO), "escrevaln": ([INDEF], VAZIO),
                 "txt_contem": ([TEXTO, TEXTO], BOOL), "vec": None, "tam": None, "anexa": None, "remova": None}


class Modl:
    def __init__(self, path):
        self.path = path
        self.name = posixpath.basename(path)[:-4]
        self.loaded = False
        self.tree = None
        self.scope = None
        self.native = False


class Checker:
    def __init__(self, files, main="main.ama", std=None):
        self.files = files
        self.std = std or {}
        self.mods = {}
        self.order = []
        self.methods = {}

    def error(self, line, why):
        raise Reject(line, why, self.m.path)

    def parse(self, m, text):
        try:
            m.tree = P(text).program()
        except Reject as e:
            e.file = m.path
            raise

    def check(self, main):
        m = Modl(main)
        self.parse(m, self.files[main])
        self.main = m
        g = self.base_scope()
        self.module(m, g)
        m.scope = g
        return m

    def base_scope(self):
        g = Scope()
        for t in (INT, REAL, BOOL, TEXTO, VAZIO, INDEF, TNULO):
            g.d[t[0]] = Sym("type", t[0], None, ty=t)
        for n, s in BUILTIN_FUNCS.items():
            g.d[n] = Sym("func", n, None, builtin=True, ps=s and s[0], rt=s and s[1], ext="embutidos")
        g.d["Opcao"] = Sym("opcao", "Opcao", None)
        return g

    def module(self, m, g):
        self.m, self.g = m, g
        self.scope = g
        self.depth = 0
        self.fn = None
        self.loop = False
        self.yb = None
        self.meth = None
        if any(a[0] == "embutido" for a in m.tree.anns):
            m.native = True
            if m.path not in self.std:
                self.error(m.tree.line, "only native modules")
        for s in m.tree.body:
            self.stmt(s)
        m.scope = g

    # ------------------------------------------------------------- imports
    def resolve(self, p):
        head, tail = posixpath.split(p)
        if not tail:
            return None
        if tail.split(".")[-1] != "ama":
            tail += ".ama"
        p = posixpath.normpath(posixpath.join(head, tail))
        if p in self.files:
            return p
        if p in self.std:
            return p
        return None

    def s_usa(self, s):
        p = self.resolve(s.path)
        if not p:
            self.error(s.line, "no such module")
        m = self.mods.get(p)
        if not m and posixpath.basename(p) == "embutidos.ama" and p in self.std and p not in self.files:
            m = Modl(p)
            m.loaded, m.native, m.scope = True, True, self.base_scope()
        if m and not m.loaded:
            self.error(s.line, "cyclic import")
        if not m:
            m = Modl(p)
            self.mods[p] = m
            self.parse(m, self.files[p] if p in self.files else self.std[p])
            save = (self.m, self.g, self.scope)
            self.module(m, self.base_scope())
            self.m, self.g, self.scope = save
            m.loaded = True
            self.order.append(m)
        if s.mode == "global":
            known = self.base_scope().d
            for n, x in m.scope.d.items():
                if n not in known and self.g.d.get(n) is not x:
                    self.fresh(n, s.line)
                    self.g.d[n] = x
        elif s.mode == "alias":
            self.fresh(s.alias, s.line)
            self.g.d[s.alias] = Sym("mod", s.alias, m, target=m)
        elif s.mode == "items":
            for it in s.items:
                x = m.scope.get(it)
                if not x:
                    self.error(s.line, f"no item {it}")
                self.fresh(it, s.line)
                self.g.d[it] = x

    # -------------------------------------------------------------- helpers
    def fresh(self, name, line):
        if name in self.scope.d:
            self.error(line, f"{name} already declared")

    def type(self, t):
        if t is None:
            return VAZIO
        if t.k == "TV":
            r = ("vec", self.type(t.el))
        elif len(t.path) == 1:
            s = self.scope.get(t.path[0])
            if not s or s.kind not in ("type", "reg", "uni", "opcao"):
                self.error(t.line, f"type {t.path[0]} not declared")
            if s.kind == "opcao":
                if not t.gen or len(t.gen) != 1:
                    raise Skip("bare Opcao")
                r = ("opt", self.type(t.gen[0]))
            elif t.gen or getattr(s, "gp", None):
                raise Skip("generics")
            else:
                r = s.ty
        else:
            m = self.scope.get(t.path[0])
            if not m or m.kind != "mod":
                self.error(t.line, f"{t.path[0]} is no module")
            for c in t.path[1:-1]:
                m = m.target.scope.get(c)
                if not m or m.kind != "mod":
                    self.error(t.line, f"{c} is no module")
            s = m.target.scope.get(t.path[-1])
            if not s or s.kind not in ("type", "reg", "uni"):
                self.error(t.line, f"module has no type {t.path[-1]}")
            r = s.ty
        return ("opt", r) if t.opt else r

    def need(self, exp, e, line, why):
        if not fits(exp, e.ty):
            self.error(line, f"{why}: {tname(e.ty)} where {tname(exp)} is expected")
        e.conv = exp

    def block(self, body, scope=None):
        save = self.scope
        self.scope = scope or Scope(save)
        self.depth += 1
        for s in body:
            self.stmt(s)
        self.depth -= 1
        self.scope = save

    def stmt(self, s):
        getattr(self, "s_" + s.k)(s)

    def expr(self, e, callee=False):
        h = getattr(self, "e_" + e.k)
        e.ty = h(e, callee) if e.k in ("get", "path") else h(e)
        return e.ty

    # ----------------------------------------------------------- statements
    def s_var(self, s):
        self.fresh(s.name, s.line)
        t = self.type(s.t)
        s.vty = t
        if s.init is None:
            if t not in ZERO:
                self.error(s.line, "must be initialised")
        else:
            tmp = Sym("var", s.name, self.m, ty=t, glob=False, being=True)
            self.scope.d[s.name] = tmp
            self.expr(s.init)
            self.need(t, s.init, s.line, "initial value")
        sym = Sym("var", s.name, self.m, ty=t, glob=self.depth == 0)
        self.scope.d[s.name] = sym
        s.sym = sym

    def s_assign(self, s):
        self.assign(s)

    def assign(self, s):
        l = s.l
        if l.k == "get":
            self.expr(l)
            if l.o.ty[0] == "mod":
                self.error(s.line, "variable of another module")
            if l.o.ty[0] == "opt":
                self.error(s.line, "value of an optional as target")
        if s.r.k == "assign":
            self.assign(s.r)
        elif l.k != "index":
            self.expr(s.r)
        if l.k == "name":
            self.expr(l)
            if l.sym.kind == "mod" or l.sym.mod is not self.m:
                self.error(s.line, "variable of another module")
        elif l.k == "index":
            self.expr(l)
            if l.v.ty[0] != "vec":
                self.error(s.line, "text is immutable")
            if s.r.k != "assign":
                self.expr(s.r)
        if l.k == "get" and not l.is_field:
            self.error(s.line, "method as target")
        s.ty = l.ty
        self.need(l.ty, s.r, s.line, "assigned value")

    def s_expr(self, s):
        self.expr(s.e)

    def s_mostra(self, s):
        self.expr(s.e)
        if s.e.ty[0] == "mod" or (s.e.k == "iguala" and s.e.ty == VAZIO):
            self.error(s.line, "mostra of what has no value")

    def s_retorna(self, s):
        if not self.fn:
            self.error(s.line, "retorna outside a function")
        rt = self.fn.rt_
        if rt == VAZIO and s.e is not None:
            self.error(s.line, "value from a void function")
        if rt != VAZIO and s.e is None:
            self.error(s.line, "empty retorna in a typed function")
        if self.yb is not None:
            self.yb["ret"] = True
        if s.e is None:
            return
        self.expr(s.e)
        self.need(rt, s.e, s.line, "returned value")

    def s_produz(self, s):
        if self.yb is None:
            self.error(s.line, "produz outside a block")
        if not self.yb["body"] or self.yb["body"][-1] is not s:
            self.error(s.line, "produz must be last")
        self.expr(s.e)
        self.yb["ty"] = s.e.ty

    def cond(self, e, line):
        self.expr(e)
        if e.ty != BOOL:
            self.error(line, "condition is not a bool")

    def s_se(self, s):
        for c, b, ln in s.branches:
            self.cond(c, ln)
            self.block(b)
        if s.els is not None:
            self.block(s.els)

    def s_enquanto(self, s):
        self.cond(s.c, s.line)
        self.in_loop(s.body)

    def in_loop(self, body, scope=None):
        save, self.loop = self.loop, True
        self.block(body, scope)
        self.loop = save

    def s_para(self, s):
        for e in (s.a, s.b, s.inc):
            if e is not None:
                self.expr(e)
        for e in (s.a, s.b, s.inc):
            if e is not None and e.ty != INT:
                self.error(s.line, "range of int only")
        sc = Scope(self.scope)
        s.sym = Sym("var", s.name, self.m, ty=INT, glob=False)
        sc.d[s.name] = s.sym
        self.in_loop(s.body, sc)

    def s_escolha(self, s):
        self.expr(s.e)
        if s.e.ty not in (INT, TEXTO):
            self.error(s.line, "escolha of int or texto only")
        for c, b, ln in s.cases:
            self.expr(c)
            if not fits(s.e.ty, c.ty):
                self.error(ln, "case of another type")
            self.block(b)
        if s.els is not None:
            self.block(s.els)

    def s_quebra(self, s):
        if not self.loop:
            self.error(s.line, f"{s.k} outside a loop")

    s_continua = s_quebra

    def s_iguala(self, s):
        self.expr(s)

    # ---------------------------------------------------------- declarations
    def returns(self, body):
        return any(self.returns1(s) for s in body)

    def returns1(self, s):
        if s.k == "retorna":
            return True
        if s.k == "se":
            return s.els is not None and all(self.returns(b) for _, b, _ in s.branches) and self.returns(s.els)
        if s.k == "iguala":
            return all(self.returns(b) for _, b, _ in s.arms) and any(p.k == "pbind" for p, _, _ in s.arms)
        if s.k == "expr" and s.e.k == "iguala":
            return self.returns1(s.e)
        if s.k in ("enquanto", "para"):
            return self.returns(s.body)      # the project's own tests fix this reading (nested_return.ama)
        return False

    def sig(self, s):
        ps = []
        for n, t, ln in s.params:
            if any(n == x for x, _ in ps):
                self.error(s.line, "duplicate parameter")
            ps.append((n, self.type(t)))
        return ps

    def body(self, s, alvo=None):
        sc = Scope(self.scope)
        for n, t in s.ps_:
            sc.d[n] = Sym("var", n, self.m, ty=t, glob=False)
        s.alvo_ty = alvo
        save = self.fn, self.loop, self.yb
        self.fn, self.loop, self.yb = s, False, None
        self.block(s.body, sc)
        self.fn, self.loop, self.yb = save

    def s_func(self, s):
        if self.depth > 0:
            self.error(s.line, "function in a local scope")
        self.fresh(s.name, s.line)
        if len(s.params) > 255:
            self.error(s.line, "too many parameters")
        s.rt_ = self.type(s.rt)
        emb = any(a[0] == "embutido" for a in s.anns) or s.native
        sym = Sym("func", s.name, self.m, builtin=False, rt=s.rt_, node=s, native=emb, glob=True)
        self.scope.d[s.name] = sym
        s.ps_ = self.sig(s)
        sym.ps = [t for _, t in s.ps_]
        s.sym = sym
        s.mod = self.m
        if emb:
            return
        if s.rt_ != VAZIO and not self.returns(s.body):
            self.error(s.line, "function may end without retorna")
        self.body(s)

    def s_met(self, s):
        if s.gp:
            raise Skip("generic method")
        t = self.type(s.target)
        if t[0] in ("vec", "opt"):
            raise Skip("method on vec/opt")
        if self.prop(t, s.name):
            self.error(s.line, "property already declared")
        if self.depth > 0:
            self.error(s.line, "method in a local scope")
        s.rt_ = self.type(s.rt)
        s.ps_ = self.sig(s)
        if s.rt_ != VAZIO and not self.returns(s.body):
            self.error(s.line, "method may end without retorna")
        sym = Sym("met", s.name, self.m, rt=s.rt_, node=s, ps=[x for _, x in s.ps_], native=False)
        s.sym = sym
        s.mod = self.m
        self.body(s, t)
        self.methods[(t, s.name)] = sym

    def s_registo(self, s):
        self.fresh(s.name, s.line)
        if s.gp:
            raise Skip("generic registo")
        t = ("reg", s.name, self.m.path)
        sym = Sym("reg", s.name, self.m, ty=t, fields={}, glob=True)
        self.scope.d[s.name] = sym
        self.regs = getattr(self, "regs", {})
        self.regs[t] = sym
        for f in s.fields:
            if f.name in sym.fields:
                self.error(f.line, "duplicate field")
            sym.fields[f.name] = self.type(f.t)

    def s_uniao(self, s):
        self.fresh(s.name, s.line)
        if s.gp:
            raise Skip("generic uniao")
        t = ("uni", s.name, self.m.path)
        sym = Sym("uni", s.name, self.m, ty=t, variants={}, glob=True)
        self.scope.d[s.name] = sym
        self.unis = getattr(self, "unis", {})
        self.unis[t] = sym
        for n, ps, ln in s.variants:
            if n in sym.variants:
                self.error(ln, "duplicate variant")
            sym.variants[n] = [self.type(p) for p in ps]

    # ---------------------------------------------------------- expressions
    def e_const(self, e):
        if e.t == "int" and e.v[2] > MAXI:
            self.error(e.line, "integer too large")
        return {"int": INT, "real": REAL, "str": TEXTO, "bool": BOOL, "nulo": TNULO}[e.t]

    def e_fstr(self, e):
        for p in e.parts:
            self.expr(p)
            if not castable(p.ty, TEXTO):
                self.error(e.line, "not convertible to texto")
        return TEXTO

    def e_name(self, e):
        s = self.scope.get(e.name)
        if not s:
            self.error(e.line, f"{e.name} not declared")
        if s.kind not in ("var", "mod"):
            self.error(e.line, f"{e.name} is no value")
        if getattr(s, "being", False):
            self.error(e.line, f"{e.name} is being declared")
        e.sym = s
        return s.ty if s.kind == "var" else ("mod", s.target)

    def e_alvo(self, e):
        if not self.fn or self.fn.k != "met":
            self.error(e.line, "alvo outside a method")
        return self.fn.alvo_ty

    def e_path(self, e, callee=False):
        s = self.scope.get(e.path[0])
        if not s:
            self.error(e.line, f"{e.path[0]} not declared")
        if s.kind != "uni" or len(e.path) != 2:
            self.error(e.line, "no sub-item")
        if e.path[1] not in s.variants:
            self.error(e.line, f"no variant {e.path[1]}")
        ps = s.variants[e.path[1]]
        if ps and not callee:
            self.error(e.line, "variant needs arguments")
        e.sym, e.ps, e.tag = s, ps, e.path[1]
        return s.ty

    def prop(self, t, name):
        if t[0] == "reg" and name in self.regs[t].fields:
            return ("field", self.regs[t].fields[name])
        if t[0] == "opt" and name == "valor":
            return ("field", t[1])
        if t[0] == "opt" and name == "valor_ou":
            return ("or", t[1])
        m = self.methods.get((t, name))
        return ("met", m) if m else None

    def e_get(self, e, callee=False):
        self.expr(e.o)
        t = e.o.ty
        if t[0] == "mod":
            s = t[1].scope.get(e.name)
            if not s:
                self.error(e.line, f"module has no {e.name}")
            e.sym = s
            e.is_field = True
            if s.kind == "var":
                e.how = "modvar"
                return s.ty
            if s.kind == "mod":
                raise Skip("nested module path")
            if not callee:
                self.error(e.line, "no value")
            e.how = "mod"
            return s.ty if s.kind in ("reg", "uni") else VAZIO
        p = self.prop(t, e.name)
        if not p:
            self.error(e.line, f"{tname(t)} has no {e.name}")
        e.how = p[0]
        e.is_field = p[0] == "field"
        if p[0] == "field":
            return p[1]
        if not callee:
            self.error(e.line, "method is no value")
        e.met = p[1]
        return VAZIO

    def e_index(self, e):
        self.expr(e.v)
        self.expr(e.i)
        if e.v.ty != TEXTO and e.v.ty[0] != "vec":
            self.error(e.line, "not indexable")
        if e.i.ty != INT:
            self.error(e.line, "index is no int")
        return TEXTO if e.v.ty == TEXTO else e.v.ty[1]

    def e_conv(self, e):
        self.expr(e.e)
        t = self.type(e.t)
        if not castable(e.e.ty, t):
            self.error(e.line, f"no conversion from {tname(e.e.ty)} to {tname(t)}")
        return t

    def e_bin(self, e):
        self.expr(e.a)
        self.expr(e.b)
        t = bin_type(e.op, e.a.ty, e.b.ty)
        if not t:
            self.error(e.line, f"{tname(e.a.ty)} {e.op} {tname(e.b.ty)}")
        return t

    def e_un(self, e):
        t = self.expr(e.a)
        ok = t == BOOL if e.op == "nao" else t in (INT, REAL)
        if not ok:
            self.error(e.line, f"{e.op} {tname(t)}")
        return t

    def e_list(self, e):
        t = self.type(e.t)
        for x in e.items:
            self.expr(x)
            self.need(t, x, e.line, "element")
        return ("vec", t)

    def e_named(self, e):
        self.expr(e.e)
        return e.e.ty

    def e_call(self, e):
        f = e.f
        if f.k == "name":
            s = self.scope.get(f.name)
            if not s:
                self.error(e.line, f"{f.name} not declared")
        elif f.k == "get":
            self.expr(f, True)
            if f.how in ("modvar", "field"):
                self.error(e.line, "not callable")
            if f.how == "or":
                self.arity(e, [f.met])
                e.how = "or"
                return f.met
            s = f.sym if f.how == "mod" else f.met
        elif f.k == "path":
            self.expr(f, True)
            if not f.ps:
                self.error(e.line, "variant takes no argument")
            self.arity(e, f.ps)
            e.how = "variant"
            return f.ty
        else:
            self.error(e.line, "not callable")
        e.target = s
        if s.kind == "func" and s.builtin and s.ps is None:
            e.how = "builtin"
            return getattr(self, "b_" + s.name)(e)
        if s.kind == "reg":
            e.how = "reg"
            return self.init(e, s)
        if s.kind == "met":
            e.how = "met"
            self.arity(e, s.ps)
            return s.rt
        if s.kind != "func":
            self.error(e.line, "not callable")
        e.how = "func"
        self.arity(e, s.ps)
        return s.rt

    def arity(self, e, ps):
        for a in e.args:
            if a.k == "named":
                self.error(a.line, "named argument")
            self.expr(a)
        if len(e.args) != len(ps):
            self.error(e.line, "number of arguments")
        for a, t in zip(e.args, ps):
            self.need(t, a, e.line, "argument")

    def init(self, e, s):
        if len(e.args) != len(s.fields):
            self.error(e.line, "number of fields")
        seen = set()
        for a in e.args:
            if a.k != "named":
                self.error(e.line, "field without a name")
            self.expr(a)
            if a.name not in s.fields:
                self.error(e.line, f"no field {a.name}")
            if a.name in seen:
                self.error(e.line, "field given twice")
            seen.add(a.name)
            self.need(s.fields[a.name], a.e, e.line, "field value")
            a.conv = None
        return s.ty

    def nargs(self, e, n):
        for a in e.args:
            if a.k == "named":
                self.error(a.line, "named argument")
        if len(e.args) != n:
            self.error(e.line, "number of arguments")
        for a in e.args:
            self.expr(a)

    def b_vec(self, e):
        for a in e.args:
            if a.k == "named":
                self.error(a.line, "named argument")
        if len(e.args) < 2:
            self.error(e.line, "vec needs a size")
        for a in e.args[1:]:
            self.expr(a)
            if a.ty != INT:
                self.error(e.line, "size is no int")
        t = e.args[0]
        if t.k != "name":
            self.error(e.line, "vec of what")
        s = self.scope.get(t.name)
        if not s or s.kind not in ("type", "reg", "uni"):
            self.error(e.line, "not a type")
        r = s.ty
        if r not in (INT, REAL, BOOL, TEXTO):
            self.error(e.line, f"the elements of {s.name} have no value to start with")
        e.el = r
        for _ in e.args[1:]:
            r = ("vec", r)
        return r

    def b_tam(self, e):
        self.nargs(e, 1)
        if e.args[0].ty != TEXTO and e.args[0].ty[0] != "vec":
            self.error(e.line, "tam of texto or vec")
        return INT

    def b_anexa(self, e):
        self.nargs(e, 2)
        t = e.args[0].ty
        if t[0] != "vec":
            self.error(e.line, "anexa to a vec")
        self.need(t[1], e.args[1], e.line, "element")
        return VAZIO

    def b_remova(self, e):
        self.nargs(e, 2)
        t = e.args[0].ty
        if t[0] != "vec":
            self.error(e.line, "remova from a vec")
        if e.args[1].ty != INT:
            self.error(e.line, "index is no int")
        return t[1]

    # --------------------------------------------------------------- iguala
    def e_iguala(self, e):
        self.expr(e.e)
        t = e.e.ty
        if t == VAZIO:
            self.error(e.line, "iguala of a void value")
        arms = []
        outer = self.scope
        self.scope = Scope(outer)
        for p, b, ln in e.arms:
            sc = Scope(self.scope)
            self.pattern(p, t, sc)
            arms.append((p, b, sc, ln))
        pats = [p for p, *_ in e.arms]
        if not self.exhaustive(pats, t):
            try:
                self.error(e.line, "not exhaustive")
            except Reject as r:
                r.match = (self, pats, t)
                raise
        first = None
        for p, b, sc, ln in arms:
            yb = dict(body=b, ty=VAZIO, ret=False)
            save, self.yb = self.yb, yb
            self.block(b, sc)
            self.yb = save
            if yb["ty"] != VAZIO and yb["ret"]:
                self.error(None, "produz and retorna")
            if first is None:
                first = yb["ty"]
            elif first != yb["ty"]:
                self.error(None, "arms of different types")
        self.scope = outer
        return first

    def pattern(self, p, t, sc):
        if p.k == "pbind":
            p.sym = None
            if p.name in sc.d and p.name == "_":
                return              # the wildcards after the first bind nothing
            if p.name in sc.d:
                self.error(p.line, "binding used twice")
            sc.d[p.name] = Sym("var", p.name, self.m, ty=t, glob=False)
            p.sym = sc.d[p.name]
            return
        if p.k == "pconst":
            pt = INT if p.t == "int" else TEXTO
            if pt != t:
                self.error(None, "pattern of another type")
            return
        s = self.scope.get(p.path[0])
        if not s:
            self.error(p.line, f"{p.path[0]} not declared")
        if s.kind != "uni" or len(p.path) != 2 or p.path[1] not in s.variants:
            self.error(p.line, "no such variant")
        if s.ty != t:
            self.error(None, "pattern of another type")
        ps = s.variants[p.path[1]]
        if len(ps) != len(p.args):
            self.error(p.line, "pattern arity")
        p.sym = s
        for a, x in zip(p.args, ps):
            self.pattern(a, x, sc)

    def exhaustive(self, pats, t):
        return not self.use([[p] for p in pats], [None], [t])

    def use(self, rows, q, ts):
        """is there a value vector matched by q and by no row (Maranget)"""
        if not ts or not rows:
            return not rows
        t = ts[0]
        head = q[0]
        wild = head is None or head.k == "pbind"

        def spec(con, n, sub):
            out = []
            for r in rows:
                h = r[0]
                if h is None or h.k == "pbind":
                    out.append([None] * n + r[1:])
                elif self.con(h) == con:
                    out.append(list(h.args if h.k == "padt" else []) + r[1:])
            return out
        if not wild:
            c = self.con(head)
            sub = self.unis[t].variants[c] if head.k == "padt" else []
            args = list(head.args) if head.k == "padt" else []
            return self.use(spec(c, len(sub), sub), args + q[1:], list(sub) + ts[1:])
        if t[0] == "uni":
            if not any(r[0] is not None and r[0].k == "padt" for r in rows):
                return self.use([r[1:] for r in rows], q[1:], ts[1:])
            return any(self.use(spec(c, len(sub), sub), [None] * len(sub) + q[1:], list(sub) + ts[1:])
                       for c, sub in self.unis[t].variants.items())
        consts = {self.con(r[0]) for r in rows if r[0] is not None and r[0].k == "pconst"}
        default = [r[1:] for r in rows if r[0] is None or r[0].k == "pbind"]
        if self.use(default, q[1:], ts[1:]):
            return True
        return any(self.use(spec(c, 0, []), q[1:], ts[1:]) for c in consts)

    def con(self, p):
        return p.path[1] if p.k == "padt" else (p.t, p.v)


# ------------------------------------------------------------------- meaning
class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cnt(Exception):
    pass


class Produced(Exception):
    def __init__(self, v):
        self.v = v


class Env:
    def __init__(self, up=None):
        self.up = up
        self.d = {}

    def find(self, n):
        s = self
        while s:
            if n in s.d:
                return s
            s = s.up
        return None


def convert(v, frm, to):
    """a value of static type frm used where to is expected"""
    if to is None:
        return v
    if to[0] == "opt":
        to = to[1]
    if to == REAL and (frm == INT or frm == ("opt", INT)) and v != NULO:
        return cast(v, "real")
    return v


class Eval:
    def __init__(self, checker, trace, lines=False):
        self.c = checker
        self.t = trace
        self.lines = lines
        self.g = {}
        self.stack = []

    def run(self):
        t = self.t
        try:
            for m in self.c.order + [self.c.main]:
                if m.native:
                    continue
                self.g[m.path] = Env()
                self.mod = m
                self.env = self.g[m.path]
                self.stack = [[m.name, 0]]
                self.alvo = None
                self.depth = 0
                for s in m.tree.body:
                    self.stmt(s)
            t.events.append(("end",))
        except RtErr as e:
            t.events.append(("error", str(e)) + ((tuple((a, b) for a, b in self.stack),) if self.lines else ()))
        except Stop:
            pass

    def ev(self, *e):
        if self.lines:
            e = e + (tuple((a, b) for a, b in self.stack),)
        self.t.emit(*e)

    def stmt(self, s):
        self.stack[-1][1] = getattr(s, "first", s.line)
        getattr(self, "s_" + s.k)(s)

    def block(self, body, env=None):
        save = self.env
        self.env = env or Env(save)
        try:
            for s in body:
                self.stmt(s)
        finally:
            self.env = save

    def nop(self, s):
        pass
    s_usa = s_func = s_met = s_registo = s_uniao = nop

    def s_var(self, s):
        if s.init is None:
            v = ZERO[s.vty]
        else:
            v = self.val(s.init)
        self.env.d[s.name] = v

    def s_assign(self, s):
        self.assign(s)

    def assign(self, s):
        l = s.l
        if l.k == "name":
            v = self.rhs(s)
            e = self.env.find(l.name)
            if not e:
                e = self.g[self.mod.path]
            e.d[l.name] = v
        elif l.k == "get":
            o = self.val(l.o)
            v = self.rhs(s)
            o.fields[l.name] = v
        else:
            a = self.val(l.v)
            i = self.val(l.i)
            v = self.rhs(s)
            index_set(a, i, v)
        return v

    def rhs(self, s):
        if s.r.k == "assign":
            v = self.assign(s.r)
            if s.r.l.k != "name":
                v = self.val(s.r.l)
            return convert(v, s.r.ty, s.r.conv)
        return self.val(s.r)

    def s_expr(self, s):
        self.val(s.e)

    def s_mostra(self, s):
        self.ev("show", snap(self.val(s.e)))

    def s_retorna(self, s):
        raise Ret(FALSE if s.e is None else self.val(s.e))

    def s_produz(self, s):
        raise Produced(self.val(s.e))

    def s_se(self, s):
        for c, b, ln in s.branches:
            self.stack[-1][1] = ln
            if self.t.decide(self.val(c)):
                return self.block(b)
        if s.els is not None:
            self.block(s.els)

    def spin(self):
        self.n = getattr(self, "n", 0) + 1
        if self.n > 400:
            raise Stop()

    def s_enquanto(self, s):
        while True:
            self.spin()
            self.stack[-1][1] = s.line
            if not self.t.decide(self.val(s.c)):
                return
            try:
                self.block(s.body)
            except Brk:
                return
            except Cnt:
                pass

    def s_para(self, s):
        # the series belongs to the scope around the loop: it does not see the variable of the loop
        env = Env(self.env)
        env.d[s.name] = self.val(s.a)
        while True:
            self.spin()
            self.stack[-1][1] = s.line
            if not self.t.decide(binop("<", env.d[s.name], self.val(s.b))):
                return
            try:
                self.block(s.body, env)
            except Brk:
                return
            except Cnt:
                pass
            self.stack[-1][1] = s.line
            inc = kint(1) if s.inc is None else self.val(s.inc)
            env.d[s.name] = binop("+", inc, env.d[s.name])

    def s_escolha(self, s):
        v = self.val(s.e)
        for c, b, ln in s.cases:
            self.stack[-1][1] = ln
            if self.t.decide(binop("==", self.val(c), v)):
                return self.block(b)
        if s.els is not None:
            self.block(s.els)

    def s_quebra(self, s):
        raise Brk()

    def s_continua(self, s):
        raise Cnt()

    def s_iguala(self, s):
        self.e_iguala(s)

    # -------------------------------------------------------- expressions
    def val(self, e):
        v = getattr(self, "e_" + e.k)(e)
        return convert(v, e.ty, e.conv)

    def e_const(self, e):
        return e.v

    def e_fstr(self, e):
        return mkstr([self.val(p) for p in e.parts])

    def e_name(self, e):
        s = self.env.find(e.name)
        if s:
            return s.d[e.name]
        m = e.sym.mod
        if m.native:
            return ("q", e.sym.name, e.ty[0], 0)
        return self.g[m.path].d[e.sym.name]

    def e_alvo(self, e):
        return self.alvo

    def e_path(self, e):
        return Var((e.sym.ty, e.tag), [])

    def e_get(self, e):
        if e.how == "modvar":
            m = e.sym.mod
            if m.native:
                return ("q", e.name, e.ty[0], 0)
            return self.g[m.path].d[e.name]
        o = self.val(e.o)
        if e.o.ty[0] == "opt":
            if o == NULO:
                raise RtErr("null access")
            return o
        return o.fields[e.name]

    def e_index(self, e):
        v = self.val(e.v)
        return index_get(v, self.val(e.i))

    def e_conv(self, e):
        v = self.val(e.e)
        a, b = e.e.ty, e.ty
        if a == b or b == INDEF:
            return v
        if b[0] == "opt":
            raise Skip("conversion to an optional")
        if a == INDEF:
            self.t.emit("check", b[0], snap(v))
            return v
        return cast(v, b[0])

    def e_bin(self, e):
        for x, y in ((e.a, e.b), (e.b, e.a)):
            if e.op in ("==", "!=") and x.ty == TNULO:
                v = self.val(y)
                r = v == NULO
                return TRUE if r == (e.op == "==") else FALSE
        a = self.val(e.a)
        b = self.val(e.b)
        return binop(e.op, a, b)

    def e_un(self, e):
        v = self.val(e.a)
        return v if e.op == "+" else neg(v) if e.op == "-" else lnot(v)

    def e_list(self, e):
        return Vec([self.val(x) for x in e.items])

    def e_call(self, e):
        h = e.how
        if h == "builtin":
            n = e.target.name
            if n == "vec":
                ss = [self.val(a) for a in e.args[1:]]
                return native(self.t, "vec", [("type", e.el[0])] + ss)
            return native(self.t, n, [self.val(a) for a in e.args])
        if h == "or":
            o = self.val(e.f.o)
            d = self.val(e.args[0])
            return d if o == NULO else o
        if h == "variant":
            return Var((e.f.sym.ty, e.f.tag), [self.val(a) for a in e.args])
        if h == "reg":
            return Rec(e.target.name, {a.name: self.val(a.e) for a in e.args})
        alvo = None
        if h == "met":
            alvo = self.val(e.f.o)
        args = [self.val(a) for a in e.args]
        s = e.target
        if s.kind == "func" and (s.builtin or s.native):
            return native(self.t, s.name, args)
        if opaque(s.name):
            full = args if h != "met" else [alvo] + args
            r = self.t.call(s.name, full)
            return FALSE if r is None else r
        return self.call(s, alvo, args)

    def call(self, s, alvo, args):
        f = s.node
        self.depth += 1
        if self.depth > 59:
            raise Stop()
        save = self.env, self.mod, self.alvo
        self.mod = s.mod
        self.env = Env(self.g[s.mod.path])
        self.alvo = alvo
        for (n, _), v in zip(f.ps_, args):
            self.env.d[n] = v
        self.stack.append([s.mod.name, f.line])
        try:
            for x in f.body:
                self.stmt(x)
            r = FALSE
        except Ret as e:
            r = e.v
        self.stack.pop()
        self.env, self.mod, self.alvo = save
        self.depth -= 1
        return r

    def e_iguala(self, e):
        v = self.val(e.e)
        for p, b, ln in e.arms:
            binds = {}
            if self.match(p, v, binds):
                env = Env(self.env)
                env.d.update(binds)
                top, ln = self.stack[-1], self.stack[-1][1]
                try:
                    self.block(b, env)
                except Produced as x:
                    top[1] = ln
                    return x.v
                top[1] = ln
                return FALSE
        raise RtErr("no arm matches")

    def match(self, p, v, binds):
        if p.k == "pbind":
            if p.sym:
                binds[p.name] = v
            return True
        if p.k == "pconst":
            return self.t.decide(binop("==", v, (kint if p.t == "int" else ktxt)(p.v)))
        if v.tag[1] != p.path[1]:
            return False
        return all(self.match(a, x, binds) for a, x in zip(p.args, v.args))


def analyse(files, main="main.ama", std=None):
    c = Checker(files, main, std)
    c.check(main)
    return c
