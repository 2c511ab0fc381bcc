"""Schema families: results of operators against expected types, names that look like keywords, named arguments that
are not names, texts over several lines before a fault, images of many sizes."""
import itertools
import zlib
from .cases import *
from . import fams as F
from .fams5 import via

OPER = {"int": ["qi1()", "7", "li"], "real": ["qr1()", "1.5", "lr"], "bool": ["qb1()", "verdadeiro", "lb"], "texto": ["qt1()", "'a'", "lt"]}
BIN = ["+", "-", "*", "/", "//", "%", "==", "!=", "<", ">", "<=", ">=", "e", "ou"]
EXPECT = ["int", "real", "bool", "texto", "int?", "real?", "[int]", "indef"]
SHOW = {"int?": ".valor_ou(0)", "real?": ".valor_ou(0.5)", "[int]": "[0]"}
DECL = "li: int = qi5()\nlr: real = qr5()\nlb: bool = qb5()\nlt: texto = qt5()\n"


def uses(t, e):
    """places that expect a value of the type, with the line that shows what arrived"""
    yield "var", f"x: {t} = {e}\nmostra x{SHOW.get(t, '')}\n"
    yield "arg", f"func pega(p: {t})\n mostra p{SHOW.get(t, '')}\nfim\npega({e})\n"
    yield "ret", f"func da(): {t}\n retorna {e}\nfim\nmostra da(){SHOW.get(t, '')}\n" if "l" not in e.replace("falso", "") else f"func da(li: int, lr: real, lb: bool, lt: texto): {t}\n retorna {e}\nfim\nmostra da(li, lr, lb, lt){SHOW.get(t, '')}\n"
    yield "campo", f"registo R\n c: {t}\nfim\nmostra R(c: {e}).c{SHOW.get(t, '')}\n"
    yield "vec", f"v: [{t}] = [{t}: {e}]\nmostra v[0]{SHOW.get(t, '')}\n"


def op_results():
    """the type of the result of every operator, held against every type a place can expect"""
    for (a, b) in itertools.product(OPER, OPER):
        for op in BIN:
            for t in EXPECT:
                h = zlib.crc32(f"{a}{op}{b}{t}".encode())
                ops = [f"{OPER[a][h % 3]} {op} {OPER[b][(h // 3) % 3]}", f"{OPER[a][(h + 1) % 3]} {op} {OPER[b][(h // 3 + 2) % 3]}"]
                us = list(uses(t, ops[0]))
                yield Case(f"resultado/{a}{op}{b}/{t}/{us[h % 5][0]}", DECL + us[h % 5][1])
                if a == b or {a, b} <= {"int", "real"}:
                    us = list(uses(t, ops[1]))
                    yield Case(f"resultado2/{a}{op}{b}/{t}/{us[(h + 1) % 5][0]}", DECL + us[(h + 1) % 5][1])
    for a in OPER:
        for op in ("-", "+", "nao "):
            for t in EXPECT:
                for n, (k, u) in enumerate(uses(t, f"{op}{OPER[a][len(t) % 3]}")):
                    if n == (len(t) + len(a)) % 5 or t == a:
                        yield Case(f"unario/{op.strip()}{a}/{t}/{k}", DECL + u)
    # results of operators as operands of operators, and where a condition is expected
    for a, b in itertools.product(("int", "real"), repeat=2):
        for op in BIN:
            e = f"({OPER[a][0]} {op} {OPER[b][1]})"
            for k, s in {"soma": "mostra {e} + 1\n", "resto": "mostra {e} % 2\n", "meio": "mostra {e} // 2\n", "indice": "v: [int] = [int: 1, 2]\nmostra v[{e}]\n", "se": "se {e} entao\n mostra 1\nfim\n",
                         "enq": "enquanto {e} faca\n mostra 1\nfim\n", "para": "para i de 0..{e} faca\n mostra i\nfim\n", "neg": "mostra -{e}\n", "nao": "mostra nao {e}\n", "cmp": "mostra {e} < 2.5\n",
                         "igual": "mostra {e} == 2\n", "fstr": "mostra f'{{{e}}}'\n", "mais=": "li += {e}\nmostra li\n", "rmais=": "lr += {e}\nmostra lr\n", "esc": "escolha {e}:\n caso 1:\n  mostra 1\n caso 2:\n  mostra 2\nfim\n",
                         "ig": "iguala {e}\n 1 => faca\n  mostra 1\n fim,\n _ => faca\n  mostra 2\n fim\nfim\n", "conv": "x: int = {e} :> int\nmostra x\n", "vector": "x: [int] = vec(int, {e})\nmostra tam(x)\n"}.items():
                yield Case(f"operando/{a}{op}{b}/{k}", DECL + s.format(e=e))


KW = ["E", "Ou", "OU", "NAO", "Nao", "Fim", "FIM", "Se", "SE", "Entao", "Para", "De", "Inc", "Func", "Mostra", "Nulo", "NULO", "Verdadeiro", "Falso", "Alvo", "Caso", "Senao", "Usa", "Met", "Registo", "Vazio", "Produz",
      "Quebra", "Continua", "Iguala", "INT", "Int", "Texto", "Real", "Bool", "Vec", "Tam", "Opcao", "e\u0301", "fím", "sé", "não", "então", "faça", "vazio_", "senaose1", "nativa", "escolha_"]


def case_names():
    """names that differ from words of the language by a capital or an accent"""
    for n, x in enumerate(KW):
        yield Case(f"quase/var/{n}", f"{x}: int = 1\nmostra {x}\n{x} = {x} + 2\nmostra f'{{{x}}}'\n")
        yield Case(f"quase/func/{n}", f"func {x}(a: int): int\n retorna a\nfim\nmostra {x}(3)\n")
        yield Case(f"quase/param/{n}", f"func g({x}: int): int\n retorna {x} + 1\nfim\nmostra g({x}: 2)\nmostra g(3)\n")
        yield Case(f"quase/campo/{n}", f"registo R\n {x}: int\n b: int\nfim\nr: R = R({x}: 1, b: 2)\nmostra r.{x}\n")
        yield Case(f"quase/tipo/{n}", f"registo {x}\n a: int\nfim\nr: {x} = {x}(a: 1)\nmostra r.a\n")
        yield Case(f"quase/variante/{n}", f"uniao U\n {x}, Z(int)\nfim\nu: U = U::{x}\niguala u\n U::{x} => faca\n  mostra 1\n fim,\n U::Z(a) => faca\n  mostra a\n fim\nfim\n")
        yield Case(f"quase/op/{n}", f"mostra qb1() {x} qb2()\n")
        yield Case(f"quase/instr/{n}", f"{x}\nmostra 1\n")
        yield Case(f"quase/fim/{n}", f"se qb1() entao\n mostra 1\n{x}\nmostra 2\nfim\n")
        yield Case(f"quase/valor/{n}", f"mostra {x}\n")
        yield Case(f"quase/ligado/{n}", f"iguala qi1()\n 1 => faca\n  mostra 1\n fim,\n {x} => faca\n  mostra {x}\n fim\nfim\n")


def arg_names():
    """named arguments whose name is anything, in any position"""
    pre = "registo S\n q: int\nfim\nregisto R\n a: int\n b: int\nfim\nfunc f(a: int, b: int): int\n retorna a - b\nfim\nfunc g(a: int)\n mostra a\nfim\ns: S = S(q: 3)\nx: int = 4\nv: [int] = [int: 5, 6]\n"
    N = ["a", "b", "c", "(a)", "(b)", "-b", "s.b", "s.q", "S::b", "f()", "f(1, 2)", "v[0]", "b[0]", "b.a", "1", "'b'", "f'b'", "nulo", "verdadeiro", "alvo", "nao b", "b + 1", "a b", "b?", "[int: 1]", "", "_", "int", "R", "x", "b = 1", "b()", "S(q: 1)",
         "f(a: 1, b: 2)", "R(a: 1, b: 2).b", "(iguala 1\n _ => b\nfim)", "b :> int"]
    for n, x in enumerate(N):
        for k, s in {"reg1": "mostra R({x}: 1, b: 2).a\n", "reg2": "mostra R(a: 1, {x}: 2).b\n", "reg3": "mostra R(a: 1, b: 2, {x}: 3).b\n", "reg0": "mostra R({x}: 1).a\n", "func1": "mostra f({x}: 1, b: 2)\n", "func2": "mostra f(a: 1, {x}: 2)\n",
                     "func3": "mostra f(1, {x}: 2)\n", "func4": "mostra f({x}: 1, 2)\n", "func5": "g({x}: 1)\n", "met": "met S::k(alvo, b: int): int\n retorna b\nfim\nmostra s.k({x}: 7)\n", "uniao": "uniao U\n K(int, int)\nfim\nu: U = U::K(1, {x}: 2)\n",
                     "emb": "escreva({x}: 'o')\n", "ou": "o: int? = nulo\nmostra o.valor_ou({x}: 2)\n", "anexa": "anexa(v, {x}: 2)\n", "anexa1": "anexa({x}: v, 2)\n", "remova": "remova(v, {x}: 1)\n", "vec": "w: [int] = vec(int, {x}: 2)\n", "vec0": "w: [int] = vec({x}: int, 2)\n", "valor": "mostra R(a: 1, b: {x}).b\n", "misto": "mostra R({x}, b: 1).b\n", "misto2": "mostra R(a: 1, {x}).a\n", "tam": "mostra tam({x}: v)\n", "cham": "mostra v[0]({x}: 1)\n", "fechado": "mostra R(a: 1, {x}:).a\n",
                     "duplo": "mostra R(a: 1, {x}: 2: 3).a\n", "seta": "mostra R(a: 1, {x} = 2).a\n"}.items():
            yield Case(f"nomeado/{k}/{n}", pre + s.format(x=x), reject_line="\n" not in x)


def fields():
    """the bodies of records and unions: fields, commas, types and lines in every arrangement"""
    B = ["a: int", "a, b: int", "a", "a\n b: int", "a:", "a: ", "a int", "a: int b: int", "a: int, b: int", "a: int\n\n\n b: int", "a,\n b: int", "a\n, b: int", "a :\n int", "a: int;b: int", ", a: int", "a,: int", "a,, b: int", "a: int,", "a, b", "a, b\n c: int",
         "a: int = 1", "a()", "a(int)", "1: int", "a.b: int", "a: int?", "a: [int]", "a: [[int]?]?", "a: [int", "a: int]", "a: (int)", "a: R", "a: R?", "a: U", "a: Nada", "a: vazio", "a: nulo", "a: int\n a: int", "a, a: int", "a: int\n b, a: texto", "mostra 1", "a: int # c",
         "# c\n a: int", "a: int\n fim\n b: int", "func g()\n fim", "a: int\n registo Z\n  b: int\n fim", "se: int", "fim: int", "_: int", "alvo: int", "a: alvo", "a: func", "a: int int", "a b: int", "a: texto\n\n", ""]
    for n, b in enumerate(B):
        rl = "fim" not in b and "registo" not in b
        yield Case(f"corpo/registo/{n}", f"registo R\n {b}\nfim\nmostra 1\n", reject_line=rl)
        yield Case(f"corpo/registo-usa/{n}", f"registo R\n {b}\n z: int\nfim\nmostra R(z: 1, a: 2, b: 3).z\n", reject_line=rl)
        yield Case(f"corpo/registo-linha/{n}", f"registo R {b} fim\nmostra 1\n", reject_line=False)
        yield Case(f"corpo/uniao/{n}", f"uniao U\n {b.replace(': ', '')}\nfim\nmostra 1\n", reject_line=rl)
        yield Case(f"corpo/params/{n}", f"func g({b})\n mostra 1\nfim\nmostra 2\n", reject_line=rl)
        yield Case(f"corpo/var/{n}", f"{b}\nmostra 1\n", reject_line=False)
    V = ["A", "A, B", "A(int)", "A(int), B", "A(int, texto), B(U), C", "A()", "A(", "A(,)", "A(int,)", "A(,int)", "A(int texto)", "A(x: int)", "A(1)", "A B", "A\n B", "A,\n B", "A\n, B", "A(\nint)", "A(int\n)", "A(int,\n texto)", "A,", ", A", "A,,B", "A, A", "A(int), A",
         "A(Nada)", "A(U?)", "A([U])", "A(vazio)", "A: int", "a::b", "A.B", "1", "'A'", "A(int)(int)", "A = 1", "A; B", "# c\n A", "A # c\n", "fim", "se", "A(R)", "A(int), B(A)", "_", "U", "A()\n, B", "A, B(int), "]
    for n, b in enumerate(V):
        yield Case(f"variantes/{n}", f"registo R\n a: int\nfim\nuniao U\n {b}\nfim\nmostra 1\n", reject_line="\n" not in b and b != "fim")
        yield Case(f"variantes/usa/{n}", f"registo R\n a: int\nfim\nuniao U\n {b}\nfim\nu: U = U::A\niguala u\n U::A => faca\n  mostra 1\n fim,\n _ => faca\n  mostra 2\n fim\nfim\n", reject_line="\n" not in b and b != "fim")


def line_layouts():
    """what can stretch over lines, before and around what fails or is rejected"""
    L = {"t1": "t: texto = 'a\nb'\n", "t2": 't: texto = "a\nb\n\nc"\n', "t3": "mostra 'a\n'\n", "t4": 'mostra "\n\n\n"\n', "f1": "mostra f'a\n{qi2()}'\n", "f2": 'mostra f"{qi2()}\n\n{qi3()}\n"\n', "f3": "mostra f'\n{'\n",
         "f4": "mostra f'{qi2()\n}'\n", "c1": "# a\n# 'b\n# \"c\n", "c2": "mostra 1 # 'x\n", "n": "\n\n\n", "s": "  \n\t\n", "v": "z: [int] = [int:\n 1,\n\n 2\n]\n", "g": "mostra g(\n 1,\n 2\n)\n", "p": "mostra (1 +\n 2)\n", "p2": "mostra (\n(\n1\n)\n)\n",
         "pv": "mostra 1; mostra 2; mostra 'a\nb'; mostra 3\n", "e": "mostra 'a\\nb'\n", "e2": "mostra 'a\\\nb'\n", "a": "@a(b='c\nd')\nfunc h()\nfim\n", "a2": "@a(\nb='c'\n)\nfunc h()\nfim\n", "q": "mostra '\"\n'\nmostra \"'\n\"\n", "m": "mostra 'a\nb' == 'c\nd'\n",
         "fm": "mostra f'{g(1,\n2)}'\n", "ig": "iguala 'a\nb'\n 'a\nb' => faca\n  mostra 1\n fim,\n _ => faca\n fim\nfim\n", "esc": "escolha 'a\nb':\n caso 'c\nd':\n  mostra 1\n caso 'a\nb':\n  mostra 2\nfim\n", "cr": "mostra 'a\rb'\n", "us": "usa \"mat\" => [\nPI,\nabs\n]\n"}
    D = {"falha": "v: [int] = [int: 1]\nmostra v[qi1()]\n", "falha-linha": "v: [int] = [int: 1]\nmostra v[(\nqi1()\n)]\n", "opcao": "o: int? = nulo\nmostra o.valor\n", "nome": "mostra naoexiste\n", "tipo": "y: int = 'a'\n", "tipo2": "y: int = 'a\nb'\n", "sint": "mostra )\n", "sint2": "y: = 1\n",
         "simb": "mostra $\n", "abre": "mostra 'abc\n\n", "fim": "fim\n", "ret": "func k(): int\n mostra 1\nfim\n", "arg": "mostra g('a\nb', 1)\n", "arg2": "mostra g(1,\n'a')\n", "func": "func k(x: int): int\n mostra 'a\nb'\n retorna [int: 1][x]\nfim\nmostra k(\nqi1()\n)\n",
         "div": "mostra qi1() // qi2()\n", "conv": "mostra 'a\nb' :> int\n", "fstr": "mostra f'a\n{naoexiste}'\n", "fstr2": "mostra f'{1}\n{'a' - 1}'\n".replace("'a'", '"a"'), "dup": "g: int = 1\n", "ig": "iguala qi1()\n 'a\nb' => faca\n fim,\n _ => faca\n fim\nfim\n"}
    pre = "func g(a: int, b: int): int\n retorna a - b\nfim\n"
    for (a, s), (b, d) in itertools.product(L.items(), D.items()):
        text = pre + s + d
        if s.startswith("usa"):
            text = s + pre + d
        soft = b in ("tipo2", "arg", "arg2", "abre", "ret", "fstr2", "fstr") or a in ("f3", "f4", "fm", "e2")
        yield Case(f"linhas/{a}/{b}", text, lines=True, reject_line=not soft)
        if zlib.crc32((a + b).encode()) % 3 == 0:
            yield Case(f"linhas/func/{a}/{b}", pre + "func corre()\n" + "".join(" " + l + "\n" if i == 0 else l + "\n" for i, l in enumerate(s.rstrip("\n").split("\n"))) + "fim\ncorre()\n" + d, lines=True, reject_line=not soft) if not s.startswith(("usa", "@")) else Case(f"linhas/antes/{a}/{b}", "\n\n" + text, lines=True, reject_line=not soft)
    for a, b in itertools.product(L, repeat=2):
        if zlib.crc32((a + b + "2").encode()) % 4 == 0 and "us" not in (a, b) and not (a == b and a[0] in "tva"):
            yield Case(f"linhas2/{a}/{b}", pre + L[a] + L[b].replace("t: ", "t2: ").replace("z: ", "z2: ").replace("func h", "func h2") + D["falha"], lines=True, reject_line=False)


def sizes():
    """images of many sizes handed to the machine"""
    def big():
        for n in (1, 100, 250, 256, 1000, 32000, 65536, 70000):
            yield Case(f"tamanho/texto/{n}", "mostra '" + "x" * n + "'\nmostra 'fim'\n")
            if n > 200:
                yield Case(f"tamanho/unicode/{n}", "mostra '" + "é" * (n // 2) + "'\nmostra 'fim'\n")
        for n in (10, 200, 2000):
            yield Case(f"tamanho/mostra/{n}", "mostra qi1()\n" * n, limit=n + 5)
        yield Case("tamanho/modulo", None, files={"main.ama": 'usa "m" => m\nmostra m.t\n', "m.ama": "t: texto = '" + "y" * 70000 + "'\n"})
    yield from via(big(), "cmd")
    yield from via((c for c in big() if "texto" in c.name), "img")


def generics():
    """parameters of types, which the definition does not speak of: the compiler must not break down on them"""
    D = {"r1": "registo C[T]\n v: T\nfim\n", "r2": "registo C[T, K]\n v: T\n w: K\nfim\n", "r0": "registo C[]\n v: int\nfim\n", "rd": "registo C[T, T]\n v: T\nfim\n", "rn": "registo C[int]\n v: int\nfim\n", "rr": "registo C[C]\n v: int\nfim\n", "rv": "registo C[T]\n v: [T]\n w: T?\nfim\n",
         "rs": "registo C[T]\n v: C[T]?\nfim\n", "ru": "registo C[T]\n v: T[int]\nfim\n", "rl": "registo C[\nT]\n v: T\nfim\n", "r,": "registo C[T,]\n v: T\nfim\n", "r1n": "registo C[1]\n v: int\nfim\n", "r_": "registo C[T\n v: T\nfim\n",
         "u1": "uniao C[T]\n A, B(T)\nfim\n", "u2": "uniao C[T, K]\n A(K), B(T)\nfim\n", "u0": "uniao C[]\n A\nfim\n", "us": "uniao C[T]\n A, B(C[T])\nfim\n", "f1": "func C[T](v: T): T\n retorna v\nfim\n", "s": "registo C\n v: int\nfim\n", "su": "uniao C\n A, B(int)\nfim\n", "n": ""}
    U = {"nada": "", "t1": "x: C[int]\n", "t2": "func g(x: C[int])\n mostra 1\nfim\n", "t3": "func g(x: C[int, texto]): C[int]\n retorna x\nfim\n", "t4": "func g(x: C)\n mostra 1\nfim\n", "t5": "func g(x: [C[int]])\n mostra 1\nfim\n", "t6": "func g(x: C[int]?)\n mostra 1\nfim\n",
         "t7": "func g(x: C[C[int]])\n mostra 1\nfim\n", "t8": "func g(x: C[])\n mostra 1\nfim\n", "t9": "func g(x: C[Nada])\n mostra 1\nfim\n", "ta": "func g(x: C[[int]])\n mostra 1\nfim\n", "tb": "func g(x: C[int?])\n mostra 1\nfim\n", "tc": "func g(x: int[int])\n mostra 1\nfim\n",
         "td": "func g(x: vazio[int])\n mostra 1\nfim\n", "i1": "x: C[int] = C(v: 1)\nmostra x.v\n", "i2": "mostra C(v: 1).v\n", "i3": "x: C[int] = C(v: 'a')\nmostra x.v\n", "i4": "x: C[texto] = C(v: 1)\n", "i5": "x: C[int, texto] = C(v: 1, w: 'a')\nmostra x.w\n", "i6": "x: C = C(v: 1)\n",
         "i7": "x: C[int] = nulo\n", "i8": "x: C[int]? = nulo\nmostra x == nulo\n", "i9": "x: [C[int]] = [C[int]: C(v: 1)]\nmostra x[0].v\n", "a1": "x: C[int] = C::A\n", "a2": "x: C[int] = C::B(1)\n", "a3": "x: C = C::B(1)\niguala x\n C::A => faca\n  mostra 1\n fim,\n C::B(k) => faca\n  mostra k\n fim\nfim\n",
         "m1": "met[T] C[T]::tira(alvo): T\n retorna alvo.v\nfim\n", "m2": "met[T] C[T]::tira(alvo, p: T): T\n retorna p\nfim\nx: C[int] = C(v: 1)\nmostra x.tira(2)\n", "m3": "met C[T]::tira(alvo)\nfim\n", "m4": "met C::tira(alvo): int\n retorna 1\nfim\nmostra C(v: 1).tira()\n",
         "m5": "met C[int]::tira(alvo): int\n retorna 1\nfim\nmostra C(v: 1).tira()\n", "m6": "met[T] C::tira(alvo, x: T)\nfim\n", "m7": "met[K] C[K]::tira(alvo): K?\n retorna nulo\nfim\n", "m8": "met[T] T::tira(alvo)\nfim\n", "m9": "met[] C::k(alvo)\nfim\n", "ma": "met[T] int::k(alvo, x: T): T\n retorna x\nfim\nmostra 1.k(2)\n",
         "mb": "met [int]::k(alvo): int\n retorna tam(alvo)\nfim\nv: [int] = [int: 1]\nmostra v.k()\n", "mc": "met int?::k(alvo): int\n retorna 1\nfim\no: int? = 1\nmostra o.k()\n", "md": "met[T] Opcao[T]::k(alvo): int\n retorna 1\nfim\no: int? = 1\nmostra o.k()\n", "me": "met Opcao[int]::k(alvo): int\n retorna 1\nfim\no: int? = 1\nmostra o.k()\n",
         "mf": "met Opcao::k(alvo): int\n retorna 1\nfim\no: int? = 1\nmostra o.k()\n", "mg": "met[T] [T]::k(alvo): int\n retorna 1\nfim\n", "mh": "met[T] C[T]::v(alvo): T\n retorna alvo.v\nfim\n", "mi": "met[T, K] C[K]::z(alvo, a: T): K\n retorna alvo.v\nfim\nmostra C(v: 1).z('a')\n",
         "o1": "x: Opcao[int] = nulo\nmostra x == nulo\n", "o2": "x: Opcao[int] = 3\nmostra x.valor\n", "o3": "x: Opcao = nulo\n", "o4": "x: Opcao[int, int] = nulo\n", "o5": "x: Opcao[Opcao[int]] = nulo\n", "o6": "x: int? = 3\ny: Opcao[int] = x\nmostra y.valor_ou(1)\n", "o7": "x: Opcao[int] = Opcao(valor: 1)\n",
         "o8": "mostra Opcao\n", "o9": "mostra Opcao(valor: 1)\n", "oa": "x: Opcao[int?] = 1\n", "ob": "x: int?? = 1\n", "oc": "x: [int?]? = nulo\nmostra x == nulo\n", "od": "x: Opcao[] = nulo\n", "oe": "x: Opcao[C] = nulo\n", "of": "mostra 1 :> Opcao[int]\n", "og": "mostra 1 :> int?\n", "oh": "x: int? = 1\nmostra x :> int\n", "oi": "mostra nulo :> int?\n",
         "oj": "x: indef = 1\nmostra x :> int?\n", "ok": "registo Opcao\n a: int\nfim\n", "ol": "uniao Opcao\n A\nfim\n", "om": "Opcao: int = 1\nx: int? = nulo\n", "on": "func Opcao()\nfim\nx: int? = nulo\n", "oo": "func g(Opcao: int)\n x: int? = nulo\n mostra Opcao\nfim\ng(1)\n"}
    for (a, d), (b, u) in itertools.product(D.items(), U.items()):
        if b[0] in "om" and b not in ("oe", "m1", "m2", "m3", "m4", "m5", "m6", "m7", "mh", "mi") and a not in ("n", "s"):
            continue
        yield Case(f"generico/{a}/{b}", d + u, reject_line=False)
        if zlib.crc32((a + b).encode()) % 4 == 0:
            yield Case(f"generico/f/{a}/{b}", d + "func corre()\n" + ind(u or "mostra 1\n") + "fim\ncorre()\n", reject_line=False)
