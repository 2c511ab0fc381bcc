"""Schema families: literals and lexemes, grammatical and ungrammatical programs."""
import itertools
import random
import zlib
from .cases import *

# ------------------------------------------------------------------ literals
INTS = ["0", "1", "7", "007", "10", "255", "256", "65535", "65536", "2147483647", "2147483648", "4294967296", "9007199254740993",
        "9223372036854775807", "9223372036854775808", "18446744073709551616", "00009223372036854775807"]
REALS = ["0.0", "1.0", "1.5", "0.1", "3.14159265358979", "100.50", "00.25", "0.000001", "0.00000000012345", "123456789012345680.0",
         "1234567890123456789012.5", "9007199254740993.0", "1" + "0" * 308 + ".0", "0.30000000000000004", "2.50"]
TEXTS = ["", "a", "ola mundo", "123", "007", "1.50", "-3", "+4", "1e5", "verdadeiro", "falso", "nulo", "inf", "NaN", " 1", "1 ", "é", "ação x", "日本",
         "# nao e comentario", "fim", "a'b", 'a"b', "''", '""', "'", '"', "'1'", "a\\nb", "\\n", "a\\\\b", "\\t", "\\'", '\\"', "a\\'b\\\"c", "\\x41",
         "a\nb", "\n", "tab\tx", "{", "}", "{}", "{x}", "a{b", "%d %s", "a,b;c", "; mostra 9", "\\nfim", "\\", "x\\", "\\\\n", "ª", "😀", "_f", "f'x'"]


def quoted(s):
    """the ways to write a text whose source characters between the quotes are `s`"""
    for q in "'\"":
        yield q + s + q


def usable(s, q):
    """s can stand between quotes q without ending the text early"""
    i = 0
    while i < len(s):
        if s[i] == "\\" and i + 1 < len(s) and s[i + 1] in "n'\"":
            i += 2
            continue
        if s[i] == q:
            return False
        i += 1
    return not (s.endswith("\\") and not s.endswith("\\\\n"))


SLOT = {
    "mostra": "mostra {L}\nmostra 'z'\n",
    "var": "v: {T} = {L}\nmostra v\nv = {L}\nmostra v\n",
    "arg": "func id(p: {T}): {T}\n retorna p\nfim\nmostra id({L})\n",
    "nomeado": "registo R\n a: {T}\n b: int\nfim\nfunc g(r: R)\n mostra r.a\n mostra r.b\nfim\ng(R(b: 1, a: {L}))\n",
    "campo": "registo R\n a: {T}\n b: int\nfim\nr: R = R(a: {L}, b: 1)\nmostra r.a\nr.a = {L}\nmostra r.a\n",
    "vec": "v: [{T}] = [{T}: {L}, {L}]\nmostra v[0]\nmostra v[1]\nmostra tam(v)\n",
    "ret": "func g(): {T}\n retorna {L}\nfim\nmostra g()\n",
    "opc": "o: {T}? = {L}\nmostra o.valor\nmostra o.valor_ou({L})\n",
    "var_uniao": "uniao W\n K({T})\nfim\nw: W = W::K({L})\niguala w\n W::K(x) => faca\n  mostra x\n fim\nfim\n",
    "fstr": "mostra f\"[{{{L}}}]\"\n",
    "local": "func g()\n v: {T} = {L}\n enquanto qb1() faca\n  w: {T} = {L}\n  mostra w\n fim\n mostra v\nfim\ng()\n",
    "igual": "mostra q{K}1() == {L}\nmostra {L} == q{K}1()\nmostra {L} == {L}\n",
    "indef": "x: indef = {L}\nmostra x\n",
}


def literals():
    """every kind of literal in every position: its value reaches the machine unchanged"""
    for (s, S) in SLOT.items():
        for n, lit in enumerate(INTS):
            yield Case(f"literal/int/{s}/{n}", S.format(L=lit, T="int", K="i"))
            if s in ("mostra", "var", "arg"):
                yield Case(f"literal/neg/{s}/{n}", S.format(L="-" + lit, T="int", K="i"))
            if s in ("var", "arg", "campo", "ret"):
                yield Case(f"literal/int-real/{s}/{n}", S.format(L=lit, T="real", K="r"))
        for n, lit in enumerate(REALS):
            yield Case(f"literal/real/{s}/{n}", S.format(L=lit, T="real", K="r"))
            if s == "mostra":
                yield Case(f"literal/realneg/{s}/{n}", S.format(L="-" + lit, T="real", K="r"))
        for lit in ("verdadeiro", "falso"):
            yield Case(f"literal/bool/{s}/{lit}", S.format(L=lit, T="bool", K="b"))
        for n, t in enumerate(TEXTS):
            for q, lit in zip("12", quoted(t)):
                if not usable(t, lit[0]):
                    if s == "mostra":
                        yield Case(f"literal/texto-mau/{n}/{q}", S.format(L=lit, T="texto", K="t"))
                    continue
                if s == "fstr":
                    # the literal inside a text of the other kind
                    o = "'" if lit[0] == '"' else '"'
                    if o in t or "}" in t or "\\" in t:
                        continue
                    yield Case(f"literal/texto/{s}/{n}/{q}", f"mostra f{o}[{{{lit}}}]{o}\n")
                    continue
                yield Case(f"literal/texto/{s}/{n}/{q}", S.format(L=lit, T="texto", K="t"))
    for n, t in enumerate(TEXTS):
        for q in "12":
            o = "'\""[int(q) - 1]
            if not usable(t, o):
                continue
            for m, f in enumerate(("{t}", "{t}{{qi1()}}", "{{qi1()}}{t}", "{{qi1()}}{t}{{qt2()}}", "{t}{{qi1()}}{t}")):
                yield Case(f"literal/fragmento/{n}/{q}/{m}", f"mostra f{o}{f.format(t=t)}{o}\nmostra 'z'\n")
            yield Case(f"literal/junto/{n}/{q}", f"mostra {o}{t}{o} == qt1()\nx: texto = f{o}{t}{o}\nmostra x\nmostra x == {o}{t}{o}\nmostra tam({o}{t}{o})\n")
            if "\n" not in t:
                yield Case(f"literal/caso/{n}/{q}", f"escolha qt1():\n caso {o}{t}{o}:\n  mostra 1\n senao:\n  mostra 2\nfim\n"
                           f"iguala qt2()\n {o}{t}{o} => faca\n  mostra 3\n fim,\n _ => faca\n  mostra 4\n fim\nfim\n")
    # many constants, equal and different ones, of several kinds
    for n in (20, 130, 300):
        yield Case(f"literal/muitos/{n}", "".join(f"mostra {i}\nmostra {i}.5\nmostra '{i}'\nmostra \"{i}\"\n" for i in range(n)) +
                   "".join(f"mostra {i}\n" for i in range(n)), limit=n * 5 + 10)
    for a, b in itertools.combinations(("1", "1.0", "'1'", '"1"', "'1.0'", "verdadeiro", "'verdadeiro'", "01", "'01'", "nulo_", "f'1'", "-1", "'-1'"), 2):
        if "nulo_" in (a, b):
            continue
        yield Case(f"literal/par/{a}/{b}".replace("'", "´"), f"mostra {a}\nmostra {b}\nmostra {a}\n")


# ------------------------------------------------------------------- lexemes
NAMES = ["sea", "fimx", "e1", "ou_", "_", "_x", "f", "ff", "fx", "f1", "alvo1", "nuloo", "mostra_", "ação", "Índice", "x1y2", "X", "tipo", "inteiro",
         "verdade", "usar", "e_", "nao1", "caso_", "iguala1", "ª", "µx", "日本", "retornar", "produzir", "de1", "func1", "registos", "main", "self", "print",
         "int1", "listax", "None", "True", "class", "_eof_", "valor", "len", "x" * 300]
SPELL = [  # (name, text)
    ("justo", "a: int=1\nb:int=a+2*3-4//2%2\nmostra a+b\nmostra(a)\nmostra-a\nmostra a==b\nmostra a!=b\nmostra a<=b\nmostra a>=b\nmostra a<b\nmostra a>b\n"),
    ("largo", "a : int = 1\nb  :  int  =  a  +  2  *  3\nmostra   a   +   b\nmostra ( a )\nmostra - a\n\tmostra a\n"),
    ("intervalo", "para i de 0..3 faca\n mostra i\nfim\npara j de 1 .. 4 inc 2 faca\n mostra j\nfim\npara k de 0..qi1()faca\n mostra k\nfim\n"),
    ("mais-igual", "a: int = 1\na+=2\na -=3\na*= 4\nmostra a\nr: real = 1.0\nr/=2\nmostra r\n"),
    ("mais = ", "a: int = 1\na + = 2\n"), ("menos-seta", "a: int = 1\na =- 2\nmostra a\n"), ("igual-igual", "a: int = 1\nmostra a = = 1\n"),
    ("real-ponto", "mostra 1.5\nmostra 1 .5\n"), ("ponto-real", "mostra .5\n"), ("real-sem", "mostra 1.\n"), ("real-dois", "mostra 1.2.3\n"),
    ("ponto-metodo", "met int::dobra(alvo): int\n retorna alvo * 2\nfim\nmostra 3.dobra()\nmostra 1.5\nmostra (3).dobra()\n"),
    ("num-letra", "mostra 12abc\n"), ("num-letra2", "a: int = 1x\n"), ("num_", "mostra 1_000\n"),
    ("f-espaco", "f: int = 1\nmostra f\nmostra f 'x'\n"), ("f-var", "f: int = 1\nmostra f\nmostra f + 1\nmostra f'{f}'\n"), ("ff-texto", "ff: int = 1\nmostra ff'x'\n"),
    ("coment", "# tudo\nmostra 1 # fim\n#mostra 2\nmostra 3#\n   # x\n#\n##\nmostra 4\n"), ("coment-fim", "mostra 1\n# sem fim de linha"),
    ("coment-fim2", "mostra 1 # x"), ("sem-nl", "mostra 1"), ("so-nl", "\n\n\n"), ("vazio", ""), ("espacos", "   \t  \n  \n"), ("nl-antes", "\n\n  \nmostra 1\n\n\n"),
    ("pv", "mostra 1; mostra 2\nmostra 3;\n"), ("pv2", "a: int = 1; b: int = 2; mostra a + b; mostra b\n"), ("pv-vazio", "mostra 1;;\n"), ("pv-so", ";\n"),
    ("pv-bloco", "se qb1() entao mostra 1; mostra 2 fim\n"), ("linha-unica", "se qb1() entao mostra 1\nsenao mostra 2\nfim\n"),
    ("bloco-linha", "enquanto qb1() faca mostra 1\nfim\n"), ("func-linha", "func g(): int retorna 1\nfim\nmostra g()\n"),
    ("expr-linhas", "mostra (1 +\n2)\n"), ("args-linhas", "func g(a: int, b: int): int\n retorna a - b\nfim\nmostra g(\n1,\n\n2\n)\nmostra g(1,\n2)\nmostra g(\n1, 2)\n"),
    ("params-linhas", "func g(\n a: int,\n b: int\n): int\n retorna a - b\nfim\nmostra g(5, 3)\n"), ("vec-linhas", "v: [int] = [int:\n1,\n2,\n3\n]\nmostra v[2]\n"),
    ("op-linha", "mostra 1 +\n2\n"), ("op-linha2", "mostra 1\n+ 2\n"), ("parent-linha", "mostra qi1\n()\n"), ("indice-linha", "v: [int] = [int: 1]\nmostra v\n[0]\n"),
    ("ponto-linha", "registo R\n a: int\nfim\nr: R = R(a: 1)\nmostra r\n.a\n"), ("cab-linha", "se qb1()\nentao\n mostra 1\nfim\n"),
    ("seta-linha", "iguala qi1()\n 1\n =>\n faca\n  mostra 1\n fim,\n _ => faca\n fim\nfim\n"), ("dp-linha", "a:\nint = 1\n"), ("ig-linha", "a: int =\n1\n"),
    ("simb-@", "mostra 1 @ 2\n"), ("simb-!", "mostra !verdadeiro\n"), ("simb-!2", "mostra 1 ! 2\n"), ("simb-&", "mostra 1 & 2\n"), ("simb-$", "$x: int = 1\n"), ("simb-^", "mostra 2 ^ 3\n"),
    ("simb-~", "mostra ~1\n"), ("simb-`", "mostra `a`\n"), ("simb-bs", "mostra 1 \\\n+ 2\n"), ("simb-chav", "se qb1() { mostra 1 }\n"), ("simb-chav2", "mostra {1}\n"), ("simb-|", "mostra 1 | 2\n"),
    ("simb-?", "mostra ?\n"), ("simb-::", "mostra ::\n"), ("simb-euro", "mostra 5€\n"), ("simb-nbsp", "mostra 1\u00a0+ 2\n"), ("simb-bom", "\ufeffmostra 1\n"), ("simb-nul", "mostra 1\0\n"),
    ("digito-arabe", "mostra ٣\n"), ("digito-misto", "mostra 1٣\n"), ("digito-sup", "mostra 2²\n"), ("nome-sup", "x²: int = 1\nmostra x²\n"), ("nome-arabe", "x٣: int = 1\nmostra x٣\n"),
    ("texto-aberto", "mostra 'abc\nmostra 1\n"), ("texto-aberto2", "mostra \"abc"), ("texto-aberto3", "mostra 1\nmostra 'abc\\'\n"), ("texto-misto", "mostra 'abc\"\n"),
    ("texto-linhas", "mostra 'a\nb\nc'\nmostra 1\nmostra x\n"), ("texto-linhas2", "mostra 'a\n\n' == 'b\n'\nmostra x\n"), ("fstr-linhas", "mostra f'a\n{qi1()}\n'\nmostra x\n"),
    ("fstr-aberta", "mostra f'a{qi1()'\n"), ("fstr-vazia", "mostra f'a{}'\n"), ("fstr-vazia2", "mostra f'a{ }'\n"), ("fstr-nada", "mostra f''\nmostra f\"\"\nx: texto = f''\nmostra x\nmostra tam(x)\n"),
    ("fstr-dupla", "mostra f'{{qi1()}}'\nmostra f'{{'\nmostra f'a{{b{{{qi1()}'\nmostra f'}'\nmostra f'{qi1()}}'\n"), ("fstr-aninhada", "mostra f'{f\"a\"}'\n"),
    ("fstr-resto", "mostra f'{qi1() qi2()}'\n"), ("fstr-resto2", "mostra f'{qi1(),}'\n"), ("fstr-resto3", "mostra f'{qi1();}'\n"), ("fstr-atrib", "a: int = 1\nmostra f'{a = 2}'\n"),
    ("fstr-expr", "mostra f'{1 + 2 * 3}{\"x\"}{(4)}{qi1() == 2}'\nmostra f'{ 1 }'\n"), ("fstr-instr", "mostra f'{mostra 1}'\n"), ("fstr-comentario", "mostra f'{1 # x}'\n"),
    ("fstr-indice", "v: [int] = [int: 1, 2]\nmostra f'{v[1]}-{tam(v)}'\n"), ("fstr-campo", "registo R\n a: texto\nfim\nr: R = R(a: 'x')\nmostra f'{r.a}{r.a}'\n"),
    ("fstr-escape", "mostra f'a\\n{qi1()}\\'b\\'\"c\"'\nmostra f\"{qt1()}'x'\"\n"), ("fstr-aspas", "mostra f\"'ola' {qi1()}\"\nmostra f'\"ola\" {qi1()} \"x'\nmostra f\"{qi1()}'\"\n"),
    ("fstr-numeros", "mostra f'1.50 {qi1()} 007'\nmostra f'1.50{qi1()}007'\nmostra f'{qi1()}1.50{qi2()}nulo'\nx: texto = f'12'\nmostra tam(x)\nmostra x == '12'\nmostra f'12' == '12'\n"),
    ("fstr-unicode", "mostra f'é{qi1()}ção'\nmostra f'é'\n"),
    ("anotacao", "@a\nfunc g()\n mostra 1\nfim\ng()\n"), ("anotacao2", "@a(b='c', d=\"e\")\nfunc g()\n mostra 1\nfim\ng()\n"), ("anotacao-solta", "@a\nmostra 1\n"), ("anotacao-vazia", "@a()\nfunc g()\nfim\n"),
    ("anotacao-linha", "@a\n\n\nfunc g()\n mostra 1\nfim\ng()\n"), ("anotacao-duas", "@a\n@b\nfunc g()\n mostra 1\nfim\ng()\n"), ("anotacao-espaco", "@ a\nfunc g()\n mostra 1\nfim\ng()\n"),
    ("mod-anotacao", "@@x\nmostra 1\n"), ("mod-anotacao2", "mostra 1\n@@x\n"),
]


def lexemes():
    """names, spacing, comments, line ends, symbols"""
    for n, s in SPELL:
        yield Case(f"lexema/{n}", s)
        for t in ("\n", " ", "\n\n", "\t\n ", " # x"):
            if s.endswith("\n") and t != "\n":
                yield Case(f"lexema/{n}/fim{len(t)}{ord(t[0])}{ord(t[-1])}", s[:-1] + t)
    for n, x in enumerate(NAMES):
        yield Case(f"nome/var/{n}", f"{x}: int = 1\nmostra {x}\n{x} = 2\nmostra f'{{{x}}}'\nmostra {x}+{x}\n")
        yield Case(f"nome/func/{n}", f"func {x}(a: int): int\n retorna a\nfim\nmostra {x}(3)\n")
        yield Case(f"nome/param/{n}", f"func g({x}: int): int\n retorna {x} + 1\nfim\nmostra g({x}: 2)\nmostra g(3)\n")
        yield Case(f"nome/campo/{n}", f"registo R\n {x}: int\nfim\nr: R = R({x}: 1)\nmostra r.{x}\nr.{x} = 2\nmostra r.{x}\n")
        yield Case(f"nome/tipo/{n}", f"registo {x}\n a: int\nfim\nr: {x} = {x}(a: 1)\nmostra r.a\n")
        yield Case(f"nome/uniao/{n}", f"uniao U\n {x}, Z(int)\nfim\nu: U = U::{x}\niguala u\n U::{x} => faca\n  mostra 1\n fim,\n U::Z(a) => faca\n  mostra a\n fim\nfim\n")
        yield Case(f"nome/met/{n}", f"registo R\n a: int\nfim\nmet R::{x}(alvo): int\n retorna alvo.a\nfim\nmostra R(a: 4).{x}()\n")
        yield Case(f"nome/ligado/{n}", f"uniao U\n A(int)\nfim\nu: U = U::A(3)\niguala u\n U::A({x}) => faca\n  mostra {x}\n fim\nfim\n")
        yield Case(f"nome/ciclo/{n}", f"para {x} de 0..2 faca\n mostra {x}\nfim\n")


# ------------------------------------------------------------------ grammar
def tokens(text):
    """the lexemes of a well-formed text, line ends included"""
    out = []
    pat = re.compile(r"[ \t]+|#[^\n]*|\n|f?'(?:\\.|[^'\\])*'|f?\"(?:\\.|[^\"\\])*\"|\d+\.\d+|\d+|\w+|==|!=|<=|>=|//|\+=|-=|\*=|/=|=>|\.\.|::|:>|@@|.", re.S)
    for m in pat.finditer(text):
        t = m.group(0)
        if not t.strip(" \t") or t[0] == "#":
            continue
        out.append(t)
    return out


def untok(ts):
    out = []
    for t in ts:
        out.append(t if t == "\n" else t + " ")
    return "".join(out)


FILL = ["fim", "senao", "entao", "faca", "mostra", "retorna", "func", "se", "caso", "(", ")", "[", "]", ",", ":", ";", "=", "+", "-", "nao", "e", ".", "..", "::", "=>",
        "==", "?", "1", "1.5", "'t'", "x", "int", "\n", "nulo", "alvo", "quebra", "produz", ":>", "inc", "de", "usa", "registo", "uniao", "met", "iguala", "vazio",
        "nativa", "escolha", "enquanto", "para", "verdadeiro", "+=", "@", "f'{1}'", "senaose"]
BASES = {
    "vars": "a: int = 1\nb: texto\nc, d: real\na = a + 1\na += 2\nc = d = 1.5\nmostra a\n",
    "expr": "a: bool = nao (1 + 2 * 3 == 4) e verdadeiro\nmostra a ou falso\nmostra -2 + 3\nmostra 1.5 :> int\nmostra 5 // 2 % 3\n",
    "se": "se qb1() entao\n mostra 1\nsenaose qb2() entao\n mostra 2\nsenao\n mostra 3\nfim\nmostra 4\n",
    "enq": "enquanto qb1() faca\n se qb2() entao\n  quebra\n fim\n continua\nfim\n", "para": "para i de 0..3 inc 1 faca\n mostra i\nfim\npara j de 2..3 faca\n mostra j\nfim\n",
    "esc": "escolha qi1():\n caso 1:\n  mostra 1\n caso 2:\n  mostra 2\n senao:\n  mostra 3\nfim\n",
    "func": "func g(a: int, b: texto?): int\n se a == 1 entao\n  retorna 2\n fim\n retorna a\nfim\nmostra g(1, nulo)\nmostra g(3, 'x')\n",
    "vazia": "func h()\n retorna\nfim\nh()\nfunc k()\nfim\nk()\n", "vec": "v: [int] = [int: 1, 2, 3]\nv[0] = 4\nv[1] += 2\nmostra v[0] + tam(v)\nw: [[texto]] = [[texto]: [texto: 'a'], [texto:]]\nmostra w[0][0]\n",
    "reg": "registo R\n a: int\n b: [R]\nfim\nr: R = R(a: 1, b: [R:])\nr.a = 2\nr.a += 3\nmostra r.a\n", "met": "registo P\n x: int\nfim\nmet P::soma(alvo, k: int): int\n retorna alvo.x + k\nfim\nmostra P(x: 1).soma(2)\n",
    "uni": "uniao U\n A, B(int), C(int, texto)\nfim\nu: U = U::B(3)\nx: U = U::A\nmostra 1\n",
    "ig": "uniao U\n A, B(int)\nfim\nfunc g(u: U): int\n retorna iguala u\n  U::A => 1,\n  U::B(n) => faca\n   mostra n\n   produz n\n  fim\n fim\nfim\nmostra g(U::B(2))\n",
    "igs": "iguala qi1()\n 1 => faca\n  mostra 1\n fim,\n 2 => faca\n fim,\n _ => faca\n  mostra 2\n fim\nfim\n",
    "seig": "uniao U\n A, B(int)\nfim\nu: U = U::B(2)\nse iguala u => U::B(x) entao\n mostra x\nsenao\n mostra 0\nfim\n",
    "fstr": "a: int = 1\nmostra f'x{a + 1}y{a}'\n", "opc": "o: int? = nulo\no = 3\nmostra o.valor_ou(1)\nmostra o == nulo\n", "anot": "@a(b='c')\nfunc g()\n mostra 1\nfim\ng()\n",
    "usa": "usa \"mat\" => m\nmostra 1\n", "pv": "mostra 1; mostra 2; a: int = 1; mostra a\n", "indef": "x: indef = 1\ny: int = x :> int\nmostra y\n", "tipos": "func g(a: [int], b: [[int]], c: int?, d: [int?]): int\n retorna 1\nfim\nx: int? = nulo\nmostra g([int:], [[int]:], nulo, [int?: nulo])\n",
    "usa2": "usa \"mat\" => [PI, abs]\nusa 'mat'\nmostra 1\n", "igt": "iguala qt1()\n 'a' => faca\n  mostra 1\n fim,\n x => faca\n  mostra x\n fim\nfim\n",
    "met2": "met int::dobra(alvo): int\n retorna alvo * 2\nfim\nmostra 3.dobra()\na: int = 4\nmostra a.dobra()\n",
}


def mutants(per=None, seed=0):
    """programs one lexeme away from a well-formed one: accepted and meaning what they say, or rejected, never a breakdown"""
    for b, text in BASES.items():
        ts = tokens(text)
        out = {}
        for i in range(len(ts)):
            out[f"tira/{i}"] = ts[:i] + ts[i + 1:]
            out[f"dobra/{i}"] = ts[:i + 1] + ts[i:]
            if i + 1 < len(ts) and ts[i] != ts[i + 1]:
                out[f"troca/{i}"] = ts[:i] + [ts[i + 1], ts[i]] + ts[i + 2:]
            out[f"corta/{i}"] = ts[:i]
            for n, f in enumerate(FILL):
                if f != ts[i]:
                    out[f"muda/{i}/{n}"] = ts[:i] + [f] + ts[i + 1:]
                out[f"insere/{i}/{n}"] = ts[:i] + [f] + ts[i:]
        for n, f in enumerate(FILL):
            out[f"insere/{len(ts)}/{n}"] = ts + [f]
        ks = list(out)
        if per and len(ks) > per:
            ks = random.Random(zlib.crc32(f"{b}{seed}".encode())).sample(ks, per)
        for k in ks:
            # with a line end added inside a construct the line to blame is a matter of taste
            yield Case(f"mutante/{b}/{k}", None, files={"main.ama": prologue(text) + untok(out[k])}, reject_line=FILL[int(k.split("/")[2])] != "\n" if k.count("/") == 2 else True)


def wellformed():
    for b, text in BASES.items():
        yield Case(f"base/{b}", text)
        yield Case(f"base/{b}/espacos", None, files={"main.ama": prologue(text) + untok(tokens(text))})
        yield Case(f"base/{b}/linhas", "\n" + text.replace("\n", "\n\n # c\n"))


def chains():
    """assignments of assignments, to every kind of target"""
    pre = ("registo P\n i: int\n r: real\n o: real?\n t: texto\nfim\np: P = P(i: 1, r: 2.0, o: nulo, t: 'a')\nvi: [int] = [int: 1, 2]\nvr: [real] = [real: 1.0, 2.0]\n"
           "gi: int = 5\ngr: real = 6.0\nfunc pp(): P\n qv1()\n retorna p\nfim\nfunc ix(): int\n qv2()\n retorna 1\nfim\n")
    end = "mostra p.i\nmostra p.r\nmostra p.t\nmostra vi[0]\nmostra vi[1]\nmostra vr[0]\nmostra vr[1]\nmostra gi\nmostra gr\nmostra p.o.valor_ou(9.5)\n"
    T = {"gi": "i", "gr": "r", "p.i": "i", "p.r": "r", "vi[0]": "i", "vr[0]": "r", "pp().i": "i", "pp().r": "r", "vi[ix()]": "i", "vr[ix()]": "r", "li": "i", "lr": "r",
         "p.o": "o", "p.t": "t"}
    for a, b in itertools.product(T, T):
        for v in ("qi1()", "qr1()"):
            if v == "qr1()" and "i" in (T[a], T[b]) and zlib.crc32((a + b).encode()) % 4:
                continue
            body = f"li: int = 7\nlr: real = 8.0\n{a} = {b} = {v}\nmostra li\nmostra lr\n"
            ctx = "func" if "l" in (a[0], b[0]) or zlib.crc32((a + b).encode()) % 2 else "top"
            yield Case(f"cadeia/{ctx}/{a}/{b}/{v}", pre + (f"func corre()\n{ind(body)}fim\ncorre()\n" if ctx == "func" else body) + end)
    for a, b, c in itertools.product(("gi", "p.i", "vi[0]", "gr", "vr[1]"), repeat=3):
        yield Case(f"cadeia3/{a}/{b}/{c}", pre + f"{a} = {b} = {c} = qi1()\n" + end)
    for a in T:
        for s in (f"{a} = 1 += 2", f"{a} += gi = 2", f"{a} + 1 = 2", f"({a}) = 3", f"-{a} = 3", f"{a} = gi + 1 = 2", f"{a} == 1 = 2", f"{a} = = 1", f"f(1) = {a}", f"1 = {a}", f"{a} :> int = 3",
                  f"mostra {a} = 2", f"x: int = {a} = 2", f"se {a} = 2 entao\nfim", f"gi = ({a} = 2)", f"{a} -= vi[0] = 2", f"tam(vi) = {a}", f"vi = {a}", f"gi = p = {a}", f"ix = {a}", f"ix() = {a}", f"P = {a}"):
            yield Case(f"alvo/{a}/{s}".replace("\n", ";"), pre + ("li: int = 7\nlr: real = 8.0\n" if a in ("li", "lr") else "") + s + "\n" + end)


def valueless():
    """what has no value used as if it had one, and types that are paths"""
    I = "iguala qi1()\n 1 => faca\n  mostra 1\n fim,\n _ => faca\n  mostra 2\n fim\nfim"
    M = "iguala qi1()\n 1 => 5,\n _ => faca\n  mostra 2\n fim\nfim"
    V = {"ig": I, "misto": M, "cham": "qv1()", "igcham": "iguala qi1()\n 1 => qv1(),\n _ => qv2()\nfim", "func": "qi1", "tipo": "int", "reg": "R", "met": "r.m", "metv": "r.m()",
         "uni": "U", "var": "U::K", "mod": "m", "modv": "m.PI", "modf": "m.abs", "nulo": "nulo", "vazio": "vazio", "emb": "tam", "opc": "Opcao", "alvo": "alvo", "vec0": "[int:]",
         "inst": "r", "uval": "U::B"}
    pre = "usa \"mat\" => m\nregisto R\n a: int\nfim\nuniao U\n K(int), B\nfim\nmet R::m(alvo)\n mostra alvo.a\nfim\nfunc fi(x: indef)\n mostra 9\nfim\nfunc ft(x: int)\n mostra x\nfim\nr: R = R(a: 1)\nv: [int] = [int: 1, 2]\no: int? = 3\n"
    P = {"mostra": "mostra {v}\n", "indef": "x: indef = {v}\n", "int": "x: int = {v}\n", "opc": "x: int? = {v}\n", "arg": "fi({v})\n", "argi": "ft({v})\n", "esc": "escreva({v})\n", "soma": "mostra 1 + ({v})\n",
         "igual": "mostra ({v}) == 1\n", "igual2": "mostra 1 == ({v})\n", "igualn": "mostra ({v}) == nulo\n", "nao": "mostra nao ({v})\n", "neg": "mostra -({v})\n", "se": "se {v} entao\n mostra 1\nfim\n",
         "enq": "enquanto {v} faca\n mostra 1\nfim\n", "para": "para i de 0..({v}) faca\n mostra i\nfim\n", "indice": "mostra v[{v}]\n", "indexa": "mostra ({v})[0]\n", "campo": "mostra ({v}).a\n", "cham": "({v})()\n", "cham1": "({v})(1)\n",
         "ret": "func g(): int\n retorna {v}\nfim\n", "retv": "func g()\n retorna {v}\nfim\n", "vec": "x: [int] = [int: {v}]\n", "fstr": "mostra f\"{{{v}}}\"\n", "ig": "iguala {v}\n 1 => faca\n  mostra 3\n fim,\n _ => faca\n  mostra 4\n fim\nfim\n",
         "escolha": "escolha {v}:\n caso 1:\n  mostra 1\nfim\n", "conv": "mostra ({v}) :> texto\n", "convi": "x: int = ({v}) :> int\n", "instr": "{v}\n", "atrib": "v[0] = {v}\n", "atribr": "r.a = {v}\n", "alvo": "{v} = 1\n", "alvo+": "{v} += 1\n",
         "reg": "x: R = R(a: {v})\n", "uni": "x: U = U::K({v})\n", "tam": "mostra tam({v})\n", "anexa": "anexa(v, {v})\n", "anexa0": "anexa({v}, 1)\n", "vec_": "x: [int] = vec(int, {v})\n", "valor": "mostra ({v}).valor\n", "valor_ou": "mostra o.valor_ou({v})\n",
         "caso": "escolha qi3():\n caso {v}:\n  mostra 1\nfim\n", "prod": "x: int = iguala qi5()\n 1 => {v},\n _ => 2\nfim\n", "tipo": "x: {v}\n", "tipo2": "func h(x: {v})\n mostra 1\nfim\n", "tipov": "x: [{v}] = [{v}:]\n",
         "conv2": "mostra 1 :> {v}\n", "met": "met {v}::k(alvo)\nfim\n", "usa": "mostra {v}.x\n", "sub": "mostra {v}::K\n", "subt": "x: {v}.a = 1\n", "subt2": "x: {v}.R? = nulo\n", "gen": "x: {v}[int] = nulo\n", "pad": "iguala U::B\n {v} => faca\n  mostra 1\n fim,\n _ => faca\n fim\nfim\n",
         "pad1": "iguala U::B\n {v}(z) => faca\n  mostra z\n fim,\n _ => faca\n fim\nfim\n"}
    for (v, t), (p, s) in itertools.product(V.items(), P.items()):
        rl = "\n" not in t
        yield Case(f"semvalor/{v}/{p}", pre + s.format(v=t), reject_line=rl)
        if zlib.crc32((v + p).encode()) % 3 == 0 and p not in ("met",) and "func" not in s:
            yield Case(f"semvalor/func/{v}/{p}", pre + "func corre()\n" + ind(s.format(v=t)) + "fim\ncorre()\n", reject_line=rl)


def equalities():
    """== and != between every two kinds of values"""
    pre = ("registo R\n a: int\nfim\nuniao U\n A, B(int)\nfim\nr: R = R(a: 1)\nr2: R = r\nr3: R = R(a: 1)\nv: [int] = [int: 1]\nv2: [int] = v\nu: U = U::A\nub: U = U::B(1)\noi: int? = 3\non: int? = nulo\n"
           "oj: int? = oi\nor_: real? = 1\not: texto? = 'a'\norr: R? = r\norn: R? = nulo\nov: [int]? = nulo\nx: indef = 3\ny: indef = 't'\nz: indef = r\nw: indef = nulo\n")
    V = ["qi1()", "qr2()", "qt3()", "qb4()", "1", "1.0", "'1'", "verdadeiro", "nulo", "r", "r2", "r3", "v", "v2", "u", "ub", "U::A", "U::B(1)", "oi", "on", "oj", "or_", "ot", "orr", "orn",
         "ov", "x", "y", "z", "w", "oi.valor", "on.valor_ou(qi5())", "R(a: 1)", "[int: 1]", "U", "qi1", "r.a", "v[0]"]
    for a, b in itertools.product(V, V):
        for op in ("==", "!="):
            h = zlib.crc32((a + op + b).encode()) % 3
            e = f"{a} {op} {b}"
            if h == 0:
                t = f"mostra {e}\n"
            elif h == 1:
                t = f"se {e} entao\n mostra 1\nsenao\n mostra 2\nfim\n"
            else:
                t = f"c: bool = nao ({e})\nmostra c\n"
            yield Case(f"igualdade/{a}{op}{b}", pre + t)


def wildcards():
    """wildcards, once and repeated, beside and around variables of the same pattern"""
    pre = ("uniao U\n A, B(int), C(int, texto), D(texto, int, int)\nfim\nuniao W\n N, P(U, U), Q(U, int)\nfim\nfunc mkU(): U\n se qb8() entao\n  retorna U::B(qi8())\n senaose qb9() entao\n  retorna U::A\n fim\n"
           " retorna U::C(qi9(), qt9())\nfim\nfunc mkW(): W\n se qb6() entao\n  retorna W::P(mkU(), U::C(4, 'k'))\n fim\n retorna W::Q(mkU(), qi6())\nfim\n")
    pats = {"U": ["U::C(_, _)", "U::C(_, x)", "U::C(x, _)", "U::D(_, _, _)", "U::D(_, x, _)", "U::D(x, _, _)", "U::D(_, _, x)", "U::C(1, _)", "U::D(_, 1, _)", "U::D('a', _, _)", "U::C(x, x)", "U::B(_)"],
            "W": ["W::P(_, _)", "W::P(U::C(_, _), _)", "W::P(_, U::C(_, _))", "W::P(U::C(_, x), U::C(_, _))", "W::P(U::C(_, _), U::C(y, _))", "W::Q(_, _)", "W::Q(U::C(_, _), _)", "W::Q(U::C(_, _), x)",
                  "W::Q(U::B(_), _)", "W::P(U::B(_), U::C(_, x))", "W::P(U::B(_), U::B(_))", "W::P(U::D(_, _, x), U::C(_, _))", "W::P(x, U::C(_, x))"]}
    for t, ps in pats.items():
        for p in ps:
            vs = re.findall(r"\b[xy]\b", p)
            for n, body in (("lit", "mostra 'a'\n"), ("var", "".join(f"mostra {v}\n" for v in vs)), ("curinga", "mostra _\n"), ("fora", "mostra k\n")):
                if n == "var" and not vs or "U)" in p and n == "curinga":
                    continue
                if t == "W" and n in ("var", "curinga") and re.search(r"P\(x|P\(_|Q\(_", p):
                    body = "mostra 2\n"
                    if n == "curinga":
                        continue
                for m, text in (("instr", f"iguala mk{t}()\n {p} => faca\n{ind(body, 2)} fim,\n _ => faca\n  mostra 0\n fim\nfim\nmostra k\n"), ("se", f"se iguala mk{t}() => {p} entao\n{ind(body)}senao\n mostra 0\nfim\nmostra k\n"),
                                ("func", f"func ff(u: {t}, _: int)\n iguala u\n  {p} => faca\n{ind(body, 3)}  fim,\n  _ => faca\n   mostra 1\n  fim\n fim\n mostra _\nfim\nff(mk{t}(), 5)\n")):
                    yield Case(f"curinga/{n}/{m}/{p}", pre + "k: int = 3\n" + text)
