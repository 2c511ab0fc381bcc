"""Schema families: each yields Case objects; grouped by the part of the language they exercise."""
import itertools
from .cases import *

ARITH = ["+", "-", "*", "/", "//", "%"]
REL = ["<", "<=", ">", ">="]
EQ = ["==", "!="]
LOGIC = ["e", "ou"]
OPS = ARITH + REL + EQ + LOGIC
NAME = {"+": "mais", "-": "menos", "*": "vezes", "/": "div", "//": "divint", "%": "mod", "<": "lt", "<=": "le",
        ">": "gt", ">=": "ge", "==": "eq", "!=": "ne", "e": "e", "ou": "ou"}


# ------------------------------------------------------------ expressions
def expr_pairs(kinds="irb"):
    """two binary operators without and with parentheses, over leaves of one kind"""
    for k in kinds:
        q = [f"q{k}{n}()" for n in (1, 2, 3)]
        for a, b in itertools.product(OPS, repeat=2):
            for form, t in (("p", f"{q[0]} {a} {q[1]} {b} {q[2]}"), ("d", f"{q[0]} {a} ({q[1]} {b} {q[2]})"),
                            ("e", f"({q[0]} {a} {q[1]}) {b} {q[2]}")):
                yield Case(f"exprpair/{k}/{NAME[a]}.{NAME[b]}/{form}", f"mostra {t}\n")


def expr_mixed():
    """three operators of different levels and kinds: grouping decides the verdict and the events"""
    I = ["qi1()", "qi2()", "qi3()", "qi4()"]
    for a, b, c in itertools.product(["+", "-", "*", "//"], REL[:2] + EQ, ["+", "-", "*", "%"]):
        yield Case(f"exprmixed/rel/{NAME[a]}.{NAME[b]}.{NAME[c]}", f"mostra {I[0]} {a} {I[1]} {b} {I[2]} {c} {I[3]}\n")
    for a, b in itertools.product(REL, LOGIC):
        yield Case(f"exprmixed/log/{NAME[a]}.{NAME[b]}",
                   f"mostra ({I[0]} {a} {I[1]}) {b} ({I[2]} {a} {I[3]})\n")
        yield Case(f"exprmixed/logp/{NAME[a]}.{NAME[b]}", f"mostra {I[0]} {a} {I[1]} {b} {I[2]} {a} {I[3]}\n")
    for a, b, c in itertools.product(LOGIC + EQ, repeat=3):
        yield Case(f"exprmixed/bool/{NAME[a]}.{NAME[b]}.{NAME[c]}", f"mostra qb1() {a} qb2() {b} qb3() {c} qb4()\n")
    for a, b, c in itertools.product(ARITH, repeat=3):
        yield Case(f"exprmixed/arit/{NAME[a]}.{NAME[b]}.{NAME[c]}", f"mostra qi1() {a} qr2() {b} qi3() {c} qr4()\n")


def expr_unary():
    for u, k in (("-", "i"), ("-", "r"), ("nao", "b"), ("nao nao", "b"), ("- -", "i"), ("-", "b"), ("nao", "i"),
                 ("-", "t"), ("nao", "t"), ("- - -", "r")):
        for form, t in (("x", "{u} {q}1()"), ("bin1", "{u} {q}1() {o} {q}2()"), ("bin2", "{q}1() {o} {u} {q}2()"),
                        ("par", "{u} ({q}1() {o} {q}2())"), ("cast", "{u} {q}1() :> texto"),
                        ("pcast", "({u} {q}1()) :> texto")):
            for o in ("+", "*", "==", "<", "e", "ou", "-"):
                if "{o}" not in t and o != "+":
                    continue
                yield Case(f"exprunary/{u.replace(' ', '')}.{k}/{form}/{NAME[o]}",
                           "mostra " + t.format(u=u, q="q" + k, o=o) + "\n")


# positions where an expression of kind k occurs: (name, declarations, statement with {e}, kind)
def positions(k):
    T = RT[k]
    P = [("mostra", "", "mostra {e}\n"),
         ("decl", "", f"x: {T} = {{e}}\nmostra x\n"),
         ("atrib", "", f"x: {T}\nx = {{e}}\nmostra x\n"),
         ("arg", f"func qv1_f(a: {T})\nfim\n", "qv1_f({e})\n"),
         ("arg2", f"func qv1_f(a: int, b: {T}, c: texto)\nfim\n", "qv1_f(qi7(), {e}, qt7())\n"),
         ("ret", "", f"func ff(): {T}\n retorna {{e}}\nfim\nmostra ff()\n"),
         ("campo", f"registo R\n x: int\n y: {T}\nfim\n", "r: R = R(y: {e}, x: qi7())\nmostra r.y\nmostra r.x\n"),
         ("setcampo", f"registo R\n x: int\n y: {T}\nfim\nr: R = R(x: 1, y: {DEF[k]})\n", "r.y = {e}\nmostra r.y\nmostra r.x\n"),
         ("elem", "", f"v: [{T}] = [{T}: {{e}}, {DEF[k]}]\nmostra v[0]\nmostra v[1]\n"),
         ("setelem", f"v: [{T}] = [{T}: {DEF[k]}, {DEF[k]}]\n", "v[1] = {e}\nmostra v[0]\nmostra v[1]\n"),
         ("anexa", f"v: [{T}] = [{T}: {DEF[k]}]\n", "anexa(v, {e})\nmostra v[1]\n"),
         ("variante", f"uniao W\n K(int, {T})\nfim\n", "w: W = W::K(qi7(), {e})\nse iguala w => W::K(a, b) entao\n mostra b\n mostra a\nfim\n"),
         ("par", "", "mostra ({e})\n"),
         ("fstr", "", "mostra f'a{{{e}}}b'\n"),
         ("opt", "", f"x: {T}? = {{e}}\nmostra x.valor\n"),
         ("valorou", f"o: {T}? = nulo\n", "mostra o.valor_ou({e})\n"),
         ("produz", "", "mostra iguala qi7()\n 1 => {e},\n _ => {e}\nfim\n"),
         ("met", f"registo R\n x: int\nfim\nmet R::qv1_m(alvo, a: {T})\nfim\n", "R(x: qi7()).qv1_m({e})\n"),
         ("indef", "", "x: indef = {e}\nmostra x\n")]
    if k == "b":
        P += [("se", "", "se {e} entao\n mostra 1\nsenao\n mostra 2\nfim\n"),
              ("senaose", "", "se qb7() entao\n mostra 1\nsenaose {e} entao\n mostra 2\nfim\n"),
              ("enquanto", "", "enquanto {e} faca\n mostra 1\nfim\n"),
              ("nao", "", "mostra nao ({e})\n")]
    if k == "i":
        P += [("idx", "v: [int] = [int: 4, 5, 6]\n", "mostra v[{e}]\n"), ("idxset", "v: [int] = [int: 4, 5, 6]\n", "v[{e}] = qi7()\n"),
              ("de", "", "para i de {e}..3 faca\n mostra i\nfim\n"), ("ate", "", "para i de 0..{e} faca\n mostra i\nfim\n"),
              ("inc", "", "para i de 0..9 inc {e} faca\n mostra i\nfim\n"),
              ("escolha", "", "z: int = {e}\nescolha z:\n caso 1:\n  mostra 1\n senao:\n  mostra 2\nfim\n"),
              ("caso", "z: int = qi7()\n", "escolha z:\n caso {e}:\n  mostra 1\n senao:\n  mostra 2\nfim\n"),
              ("neg", "", "mostra -({e})\n"), ("vec", "", "v: [int] = vec(int, {e})\nmostra tam(v)\n"),
              ("remova", "v: [int] = [int: 4, 5, 6]\n", "mostra remova(v, {e})\n"),
              ("iguala", "", "iguala {e}\n 1 => faca\n  mostra 1\n fim,\n _ => faca\n  mostra 2\n fim\nfim\n")]
    if k == "t":
        P += [("tam", "", "mostra tam({e})\n"), ("idxtxt", "", "mostra ({e})[0]\n"),
              ("escolhat", "", "z: texto = {e}\nescolha z:\n caso 'a':\n  mostra 1\n senao:\n  mostra 2\nfim\n"),
              ("igualat", "", "iguala {e}\n 'a' => faca\n  mostra 1\n fim,\n _ => faca\n  mostra 2\n fim\nfim\n")]
    return P


# shapes of an expression of kind k made of opaque parts: (name, declarations, text)
def shapes(k):
    T = RT[k]
    q = f"q{k}"
    S = [("q", "", f"{q}1()"),
         ("const", "", {"i": "42", "r": "2.5", "b": "verdadeiro", "t": "'abc'"}[k]),
         ("var", f"vv: {T} = {q}1()\n", "vv"),
         ("call2", f"func fx(a: int, b: {T}): {T}\n mostra a\n retorna b\nfim\n", f"fx(qi1(), {q}2())"),
         ("campo", f"registo Q\n z: {T}\nfim\n", f"Q(z: {q}1()).z"),
         ("elem", "", f"[{T}: {q}1(), {q}2()][1]"),
         ("met", f"registo Q\n z: {T}\nfim\nmet Q::pega(alvo, n: int): {T}\n mostra n\n retorna alvo.z\nfim\n",
          f"Q(z: {q}1()).pega(qi2())"),
         ("valorou", f"oo: {T}? = {q}1()\n", f"oo.valor_ou({q}2())"),
         ("iguala", "", f"iguala qi1()\n 1 => {q}2(),\n 2 => {q}3(),\n _ => {q}4()\nfim"),
         ("par", "", f"({q}1())")]
    if k == "i":
        S += [("soma", "", "qi1() + qi2() * qi3()"), ("neg", "", "-qi1() - qi2()"), ("mod", "", "qi1() % (qi2() - qi3())"),
              ("tam", "v9: [int] = [int: 1]\n", "tam(v9) + qi1()"), ("conv", "", "qr1() :> int"),
              ("rem", "v9: [int] = [int: 1, 2]\n", "remova(v9, qi1())")]
    if k == "r":
        S += [("soma", "", "qr1() + qi2() * qr3()"), ("neg", "", "-qr1() / qr2()"), ("div", "", "qi1() / qi2()"),
              ("conv", "", "qi1() :> real"), ("int", "", "qi1()"), ("intsoma", "", "qi1() + qi2()"), ("intconst", "", "7")]
    if k == "b":
        S += [("rel", "", "qi1() < qi2() + qi3()"), ("eq", "", "qt1() == qt2()"), ("log", "", "qb1() e qb2() ou nao qb3()"),
              ("eqb", "", "(qi1() > qi2()) == (qr1() <= qr2())"), ("nul", "on: int? = nulo\n", "on != nulo"),
              ("mixed", "", "qi1() >= qr2()"), ("conv", "", "qi1() :> bool")]
    if k == "t":
        S += [("fstr", "", "f\"{qi1()}-{qt2()}{qb3()}\""), ("conv", "", "qi1() :> texto"), ("idx", "", "qt1()[qi2()]"),
              ("convr", "", "(qi1() + qi2()) :> texto")]
    return S


def expr_positions(kinds="irbt", ctxs=("top", "func", "met")):
    for k in kinds:
        for (sn, sd, s), (pn, pd, p) in itertools.product(shapes(k), positions(k)):
            if sn == "fstr" and pn == "fstr" or pn == "fstr" and ("'" in s or "\n" in s or "{" in s):
                continue
            if pn == "produz" and sn == "iguala":
                continue
            for ctx in ctxs:
                if ctx != "top" and pn == "ret":
                    continue
                st = p.format(e=s)
                decl = pd + sd
                top, loc = split_decls(decl)
                if ctx == "top":
                    text = decl + st
                else:
                    if pn == "ret":
                        continue
                    text = top + wrap(ctx, loc + st)
                yield Case(f"exprpos/{k}/{sn}/{pn}/{ctx}", text)


def split_decls(d):
    """top-level declarations and variable declarations of a declaration text"""
    top, loc, depth = "", "", 0
    for l in d.splitlines():
        w = l.split()
        if depth == 0 and w and w[0] not in ("func", "met", "registo", "uniao"):
            loc += l + "\n"
            continue
        top += l + "\n"
        if w and w[0] in ("func", "met", "registo", "uniao"):
            depth += 1
        if l.strip() == "fim":
            depth -= 1
    return top, loc


def eval_order():
    """every composite form with opaque operands: each is evaluated once, in the order of the text"""
    F = [
        ("args", "func fx(a: int, b: int, c: int): int\n retorna a - b * c\nfim\n", "mostra fx(qi1(), qi2(), qi3())\n"),
        ("argsnest", "func fx(a: int, b: int): int\n retorna a - b\nfim\n", "mostra fx(fx(qi1(), qi2()), fx(qi3(), fx(qi4(), qi5())))\n"),
        ("vec", "", "v: [int] = [int: qi1(), qi2(), qi3(), qi4()]\nmostra v\n"),
        ("vecvec", "", "v: [[int]] = [[int]: [int: qi1(), qi2()], [int: qi3()]]\nmostra v\nmostra v[0][1]\n"),
        ("reg", "registo R\n a: int\n b: texto\n c: real\nfim\n", "r: R = R(c: qr1(), a: qi2(), b: qt3())\nmostra r.a\nmostra r.b\nmostra r.c\n"),
        ("idx", "v: [[int]] = [[int]: [int: 1, 2], [int: 3, 4]]\n", "mostra v[qi1()][qi2()]\n"),
        ("idxset", "v: [int] = [int: 1, 2, 3]\n", "v[qi1()] = qi2()\n"),
        ("idxset2", "v: [[int]] = [[int]: [int: 1, 2], [int: 3, 4]]\n", "v[1][qi1()] = qi2()\n"),
        ("idxcall", "v: [int] = [int: 1, 2, 3]\nfunc pv(): [int]\n qv1()\n retorna v\nfim\n", "pv()[0] = qi2()\nmostra v[0]\nmostra pv()[0]\n"),
        ("setget", "registo R\n a: int\nfim\nr: R = R(a: 1)\nfunc pr(): R\n qv1()\n retorna r\nfim\n", "pr().a = qi2()\nmostra r.a\nmostra pr().a\n"),
        ("fstr", "", "mostra f\"{qi1()} e {qr2()}{qb3()} fim {qt4()}\"\n"),
        ("fstr1", "", "mostra f\"{qi1()}\"\n"),
        ("fstrops", "", "mostra f\"x{qi1() + qi2() * qi3()}y{qb1() e qb2()}z\"\n"),
        ("meto", "registo R\n a: int\nfim\nmet R::m(alvo, x: int, y: int): int\n retorna alvo.a + x * y\nfim\n", "mostra R(a: qi1()).m(qi2(), qi3())\n"),
        ("metchain", "registo R\n a: int\nfim\nmet R::m(alvo, x: int): R\n mostra x\n retorna R(a: alvo.a + x)\nfim\n", "mostra R(a: qi1()).m(qi2()).m(qi3()).a\n"),
        ("variante", "uniao W\n K(int, texto, bool)\nfim\n", "iguala W::K(qi1(), qt2(), qb3())\n W::K(a, b, c) => faca\n  mostra c\n  mostra b\n  mostra a\n fim\nfim\n"),
        ("chain", "a: int\nb: int\nc: int\n", "a = b = c = qi1()\nmostra a\nmostra b\nmostra c\n"),
        ("chainidx", "v: [int] = [int: 1, 2]\na: int\n", "v[0] = a = qi1()\nmostra a\nmostra v[0]\nmostra v[1]\n"),
        ("comp", "a: int = qi1()\n", "a += qi2()\nmostra a\na -= qi3()\nmostra a\na *= qi4()\nmostra a\n"),
        ("compr", "a: real = qr1()\n", "a += qi2()\nmostra a\na -= qr3()\nmostra a\na *= qi4()\nmostra a\na /= qi5()\nmostra a\n"),
        ("compexpr", "a: int = qi1()\n", "a += qi2() * qi3() - qi4()\nmostra a\na *= qi5() + qi6()\nmostra a\na -= qi1() - qi2()\nmostra a\n"),
        ("compidx", "v: [int] = [int: 1, 2, 3]\n", "v[1] += qi2()\nmostra v[1]\nv[2] *= qi3() - qi4()\nmostra v[2]\nmostra v[0]\n"),
        ("compcampo", "registo R\n a: int\n b: real\nfim\nr: R = R(a: qi1(), b: qr1())\n", "r.a += qi2()\nmostra r.a\nr.b *= qr3() - qr4()\nmostra r.b\nr.b -= qi5()\nmostra r.b\nr.a -= qi6()\nmostra r.a\n"),
        ("valorou", "func po(): int?\n retorna qi1()\nfim\n", "mostra po().valor_ou(qi2())\n"),
        ("discard", "func fx(a: int): int\n mostra a\n retorna a + 1\nfim\n", "fx(qi1())\nqi2()\nqi3() + qi4()\nmostra 1\n"),
        ("discard2", "v: [int] = [int: 1, 2]\n", "v[0]\n'abc'\n5\nqb1() e qb2()\nmostra v[1]\n"),
        ("aninha", "func fx(a: int): int\n mostra a\n retorna a + qi9()\nfim\n", "mostra fx(qi1() + fx(qi2())) * fx(qi3())\n"),
        ("curto", "", "mostra qb1() e qb2()\nmostra qb3() ou qb4()\n"),
        ("curtose", "", "se qb1() e qb2() ou qb3() entao\n mostra 1\nsenao\n mostra 2\nfim\n"),
        ("cmp", "", "mostra (qi1() < qi2()) == (qi3() >= qi4())\n"),
        ("builtin", "v: [int] = [int: 1, 2, 3]\n", "mostra remova(v, qi1()) + tam(v) * qi2()\n"),
        ("vecdim", "", "v: [[int]] = vec(int, qi1(), qi2())\nmostra tam(v)\n"),
        ("conv", "", "mostra (qi1() :> real) / (qt2() :> real)\nmostra qi3() + (qr4() :> int)\n"),
    ]
    for n, d, s in F:
        top, loc = split_decls(d)
        yield Case(f"ordem/{n}/top", d + s)
        if n not in ("idxcall", "setget"):
            for ctx in ("func", "param", "met"):
                yield Case(f"ordem/{n}/{ctx}", top + wrap(ctx, loc + s))


# ------------------------------------------------------------- type matrix
LEAVES = {
    "int": ("", "qi1()"), "real": ("", "qr1()"), "bool": ("", "qb1()"), "texto": ("", "qt1()"), "kint": ("", "3"),
    "kreal": ("", "1.5"), "ktexto": ("", "'a'"), "kbool": ("", "falso"), "nulo": ("", "nulo"),
    "veci": ("lvi: [int] = [int: 1]\n", "lvi"), "vecr": ("lvr: [real] = [real: 1.0]\n", "lvr"),
    "vecvec": ("lvv: [[int]] = [[int]: [int: 1]]\n", "lvv"),
    "reg": ("registo LR\n x: int\nfim\nlr: LR = LR(x: 1)\n", "lr"),
    "reg2": ("registo LS\n x: int\nfim\nls: LS = LS(x: 1)\n", "ls"),
    "uni": ("uniao LU\n A, B(int)\nfim\nlu: LU = LU::A\n", "lu"),
    "opti": ("lo: int? = qi1()\n", "lo"), "optr": ("lor: real? = qr1()\n", "lor"), "optt": ("lot: texto? = qt1()\n", "lot"),
    "void": ("", "qv1()"), "indef": ("lx: indef = qi1()\n", "lx"),
    "func": ("", "qi1"), "tipo": ("", "int"), "nada": ("", "naodeclarado"), "list": ("", "[int: 1, 2]"),
}
CORE = ["int", "real", "bool", "texto", "nulo", "veci", "reg", "uni", "opti", "void", "indef"]


def ops_matrix(leaves=CORE):
    for a, b in itertools.product(leaves, repeat=2):
        da, ea = LEAVES[a]
        db, eb = LEAVES[b]
        d = da if a == b else da + db
        for o in OPS:
            if o in ("//", "%", "-", "*", ">", "<=", ">=") and not {a, b} <= {"int", "real", "bool", "texto", "opti"}:
                continue
            if o in EQ and {a, b} <= {"reg", "opti", "optr", "optt"}:
                continue      # the machine has no comparison of two of these
            if o in EQ and {a, b} <= {"reg", "opti", "nulo"} and a != b and "nulo" not in (a, b):
                continue
            if o in EQ and "indef" in (a, b):
                continue      # comparison of values of unknown type is left to the machine
            if o in EQ and a in ("opti",) and b not in ("nulo",) or o in EQ and b in ("opti",) and a not in ("nulo",):
                continue
            yield Case(f"opmat/{a}.{b}/{NAME[o]}", d + f"mostra {ea} {o} {eb}\n")
    for a in leaves:
        d, e = LEAVES[a]
        for u in ("-", "nao"):
            yield Case(f"opmat/{u}{a}", d + f"mostra {u} {e}\n")


def compound_matrix():
    for t in ("int", "real", "bool", "texto", "[int]"):
        init = {"int": "1", "real": "1.0", "bool": "falso", "texto": "'a'", "[int]": "[int: 1]"}[t]
        for leaf in ("int", "real", "bool", "texto", "nulo", "veci"):
            d, e = LEAVES[leaf]
            for o in "+-*/":
                yield Case(f"composta/var/{t}/{leaf}/{NAME[o]}", d + f"x: {t} = {init}\nx {o}= {e}\nmostra x\n")
                if t in ("int", "real"):
                    yield Case(f"composta/campo/{t}/{leaf}/{NAME[o]}",
                               f"registo G\n x: {t}\n z: int\nfim\n" + d + f"g: G = G(z: 3, x: {init})\ng.x {o}= {e}\nmostra g.x\nmostra g.z\n")
                    yield Case(f"composta/elem/{t}/{leaf}/{NAME[o]}",
                               d + f"w: [{t}] = [{t}: {init}, {init}]\nw[1] {o}= {e}\nmostra w[1]\nmostra w[0]\n")


# slots: places that expect a type E. (name, declarations, use) with {T} the type and {e} the expression
SLOTS = {
    "decl": ("", "x: {T} = {e}\n"),
    "atrib": ("func mk(): {T}\n retorna {z}\nfim\nx: {T} = mk()\n", "x = {e}\n"),
    "arg": ("func fa(a: {T})\n mostra 1\nfim\n", "fa({e})\n"),
    "arg2": ("func fa(b: int, a: {T})\n mostra b\nfim\n", "fa(2, {e})\n"),
    "ret": ("func fr(): {T}\n retorna {e}\nfim\n", "fr()\n"),
    "retmet": ("registo RM\n x: int\nfim\nmet RM::m(alvo): {T}\n retorna {e}\nfim\n", "RM(x: 1).m()\n"),
    "campo": ("registo G\n x: {T}\nfim\n", "G(x: {e})\n"),
    "setcampo": ("registo G\n x: {T}\nfim\nfunc mk(): {T}\n retorna {z}\nfim\ng: G = G(x: mk())\n", "g.x = {e}\n"),
    "elem": ("", "[{T}: {e}]\n"),
    "elem2": ("func mk(): {T}\n retorna {z}\nfim\n", "[{T}: mk(), {e}]\n"),
    "setelem": ("func mk(): {T}\n retorna {z}\nfim\nw: [{T}] = [{T}: mk()]\n", "w[0] = {e}\n"),
    "anexa": ("func mk(): {T}\n retorna {z}\nfim\nw: [{T}] = [{T}: mk()]\n", "anexa(w, {e})\n"),
    "variante": ("uniao V\n K(int, {T})\nfim\n", "V::K(1, {e})\n"),
    "metarg": ("registo RM\n x: int\nfim\nmet RM::m(alvo, b: int, a: {T})\n mostra b\nfim\n", "RM(x: 1).m(2, {e})\n"),
    "cadeia": ("func mk(): {T}\n retorna {z}\nfim\nx: {T} = mk()\ny: {T} = mk()\n", "x = y = {e}\n"),
}
EXPECT = {"int": "0", "real": "0.0", "bool": "falso", "texto": "''", "[int]": "[int: 1]", "[real]": "[real: 1.0]",
          "LR": "LR(x: 1)", "LU": "LU::A", "int?": "nulo", "real?": "nulo", "texto?": "nulo", "indef": "1", "[[int]]": "[[int]: [int: 1]]"}
NEEDS = {"LR": "reg", "LU": "uni"}


def slot_case(slot, T, leaf):
    d, u = SLOTS[slot]
    ld, le = LEAVES[leaf]
    pre = ""
    if T in NEEDS and NEEDS[T] != leaf:
        pre = split_decls(LEAVES[NEEDS[T]][0])[0]
    f = {"T": T, "z": EXPECT[T], "e": le}
    return Case(f"slot/{slot}/{T}/{leaf}", pre + ld + d.format(**f) + u.format(**f) + "mostra 'fim'\n")


def slots(types=EXPECT, leaves=LEAVES, names=SLOTS):
    for s, T, l in itertools.product(names, types, leaves):
        if T == "indef" and l in ("nulo", "void"):
            continue
        yield slot_case(s, T, l)


# places that expect one fixed type
FIXED = {
    "se": "se {e} entao\n mostra 1\nfim\n", "senaose": "se qb7() entao\n mostra 1\nsenaose {e} entao\n mostra 2\nfim\n",
    "enquanto": "enquanto {e} faca\n mostra 1\nfim\n", "idx": "w: [int] = [int: 1]\nmostra w[{e}]\n",
    "idxset": "w: [int] = [int: 1]\nw[{e}] = 2\n", "idxtxt": "mostra 'abc'[{e}]\n", "de": "para i de {e}..3 faca\n mostra i\nfim\n",
    "ate": "para i de 0..{e} faca\n mostra i\nfim\n", "inc": "para i de 0..3 inc {e} faca\n mostra i\nfim\n",
    "vecdim": "w: [int] = vec(int, {e})\n", "vecdim2": "w: [[int]] = vec(int, 2, {e})\n", "remova": "w: [int] = [int: 1]\nremova(w, {e})\n",
    "removade": "remova({e}, 0)\n", "anexade": "anexa({e}, 1)\n", "tam": "mostra tam({e})\n", "indexado": "mostra ({e})[0]\n",
    "indexadoset": "zz: [int] = [int: 1]\n({e})[0] = 1\n", "escolha": "escolha {e}:\n caso 1:\n  mostra 1\n senao:\n  mostra 2\nfim\n",
    "escolhat": "escolha {e}:\n caso 'a':\n  mostra 1\n senao:\n  mostra 2\nfim\n", "caso": "escolha qi7():\n caso {e}:\n  mostra 1\n senao:\n  mostra 2\nfim\n",
    "casot": "escolha qt7():\n caso {e}:\n  mostra 1\n senao:\n  mostra 2\nfim\n", "mostra": "mostra {e}\n", "instr": "{e}\n",
    "fstr": "mostra f\"{{{e}}}\"\n", "chama": "({e})(1)\n", "campo": "mostra ({e}).x\n", "valor": "mostra ({e}).valor\n",
    "valorou": "mostra ({e}).valor_ou(1)\n", "iguala": "iguala {e}\n _ => faca\n  mostra 1\n fim\nfim\n",
    "igualai": "iguala {e}\n 1 => faca\n  mostra 2\n fim,\n _ => faca\n  mostra 1\n fim\nfim\n", "nao": "mostra nao {e}\n",
    "convint": "mostra {e} :> int\n", "convreal": "mostra {e} :> real\n", "convbool": "mostra {e} :> bool\n", "convtexto": "mostra {e} :> texto\n",
    "convindef": "x: indef = {e} :> indef\n", "retvazio": "func fv()\n retorna {e}\nfim\nfv()\n", "leia": "mostra leia({e})\n",
    "escreva": "escreva({e})\n", "convvec": "mostra {e} :> [int]\n",
}


def fixed_slots(leaves=LEAVES, names=FIXED):
    for s, l in itertools.product(names, leaves):
        d, e = LEAVES[l]
        if s == "fstr" and ("'" in e or '"' in e):
            continue
        if s == "mostra" and l == "void" or s == "instr" and l == "nulo":
            pass
        yield Case(f"fixo/{s}/{l}", d + FIXED[s].format(e=e))
