"""Program schemas: Amanda programs whose leaves are opaque (any value), enumerated over the constructs of the
language and the contexts they can occur in."""
import itertools
import random
import re
import zlib


class Case:
    mode = "tv"          # how the schema is decided (sa.run.MODES)
    argv = None
    expect = None

    def __init__(self, name, text, main="main.ama", lines=False, limit=None, files=None, reject_line=True, prelude=True):
        self.name = name
        if files is None:
            head = re.match(r"(?:usa [^\n]*\n)*", text).end()
            files = {main: text[:head] + prologue(text) + text[head:] if prelude else text}
        self.files = files
        self.main = main
        self.lines = lines
        self.limit = limit
        self.reject_line = reject_line


RT = {"i": "int", "r": "real", "b": "bool", "t": "texto", "v": None}
DEF = {"i": "0", "r": "0.0", "b": "falso", "t": "''"}


def prologue(text):
    """declarations of the opaque functions a schema calls without declaring them"""
    out = ""
    if re.search(r"\bmkU\(", text) and "func mkU" not in text:
        out += MKU
    if re.search(r"\bmko\(", text) and "func mko" not in text:
        out += MKO
    seen = []
    for m in re.finditer(r"\b(q([irbtv])\d*)\(\)", text + out):
        n, k = m.group(1), m.group(2)
        if n in seen or f"func {n}(" in text:
            continue
        seen.append(n)
    pre = ""
    for n in seen:
        k = n[1]
        pre += f"func {n}(){': ' + RT[k] if RT[k] else ''}\n{' retorna ' + DEF[k] if k in DEF else ''}\nfim\n"
    return pre + out


MKU = """uniao U
 A, B(int), C(int, texto)
fim
func mkU(): U
 se qb8() entao
  retorna U::A
 senaose qb9() entao
  retorna U::B(qi8())
 fim
 retorna U::C(qi9(), qt9())
fim
"""
MKO = """func mko(): int?
 se qb9() entao
  retorna nulo
 fim
 retorna qi9()
fim
"""


def ind(s, n=1):
    return "".join(" " * n + l + "\n" if l else "\n" for l in s.rstrip("\n").split("\n"))


def func(body, ret=""):
    return "func corre()" + (f": {ret}" if ret else "") + "\n" + ind(body) + "fim\n"


def wrap(ctx, body, ret=None):
    """the statement sequence at top level, in a function, in a method"""
    if ctx == "top":
        return body
    if ctx == "func":
        return func(body + (f"retorna {ret[1]}\n" if ret else ""), ret[0] if ret else "") + \
            ("mostra corre()\n" if ret else "corre()\n") + "mostra 'depois'\n"
    if ctx == "param":
        return ("func corre(p1: int, p2: texto)\n" + ind("l0: int = 7\n" + body + "mostra p1\nmostra p2\nmostra l0\n")
                + "fim\ncorre(qi7(), qt7())\nmostra 'depois'\n")
    if ctx == "met":
        return ("registo Alvo\n x: int\nfim\nmet Alvo::corre(alvo, p1: int)\n" +
                ind(body + "mostra p1\nmostra alvo.x\n") + "fim\nAlvo(x: 5).corre(6)\nmostra 'depois'\n")
    raise ValueError(ctx)


class Gen:
    """fresh markers and opaque names"""

    def __init__(self):
        self.n = 0
        self.b = 0

    def m(self):
        self.n += 1
        return f"mostra {self.n}\n"

    def qb(self):
        self.b += 1
        return f"qb{self.b % 8}()"


def blk(g, inner, loop):
    return inner


# ------------------------------------------------------------- control flow
def c_se(g, f, loop):
    return f"se {g.qb()} entao\n{ind(f(g, loop))}fim\n"


def c_senao(g, f, loop):
    return f"se {g.qb()} entao\n{ind(g.m())}senao\n{ind(f(g, loop))}fim\n"


def c_se3(g, f, loop):
    a = g.qb()
    x = f(g, loop)
    return f"se {a} entao\n{ind(x)}senaose {g.qb()} entao\n{ind(f(g, loop))}senao\n{ind(g.m())}fim\n"


def c_se4(g, f, loop):
    a = g.qb()
    x = g.m()
    return (f"se {a} entao\n{ind(x)}senaose {g.qb()} entao\n{ind(g.m())}senaose {g.qb()} entao\n"
            f"{ind(f(g, loop))}fim\n")


def c_enq(g, f, loop):
    return f"enquanto {g.qb()} faca\n{ind(g.m() + f(g, True))}fim\n"


def c_para(g, f, loop):
    g.n += 1
    v = f"i{g.n}"
    return f"para {v} de 0..2 faca\n{ind(f'mostra {v}' + chr(10) + f(g, True))}fim\n"


def c_parainc(g, f, loop):
    g.n += 1
    v = f"i{g.n}"
    return f"para {v} de 1..6 inc 2 faca\n{ind(f(g, True) + f'mostra {v}' + chr(10))}fim\n"


def c_esc(g, f, loop):
    v = f"ev{g.n}"
    g.n += 1
    return (f"{v}: int = qi1()\nescolha {v}:\n caso 1:\n{ind(g.m(), 2)} caso 2:\n{ind(f(g, loop), 2)} senao:\n"
            f"{ind(g.m(), 2)}fim\n")


def c_esct(g, f, loop):
    v = f"ev{g.n}"
    g.n += 1
    return f"{v}: texto = qt1()\nescolha {v}:\n caso 'a':\n{ind(f(g, loop), 2)} caso 'b':\n{ind(g.m(), 2)}fim\n"


def c_seig(g, f, loop):
    v = f"u{g.n}"
    g.n += 1
    return f"{v}: U = mkU()\nse iguala {v} => U::B(bx) entao\n{ind('mostra bx' + chr(10) + f(g, loop))}senao\n{ind(g.m())}fim\n"


def c_ig(g, f, loop):
    v = f"u{g.n}"
    g.n += 1
    return (f"{v}: U = mkU()\niguala {v}\n U::A => faca\n{ind(g.m(), 2)} fim,\n U::B(bx) => faca\n"
            f"{ind(f(g, loop) + 'mostra bx' + chr(10), 2)} fim,\n U::C(cx, cy) => faca\n{ind('mostra cy' + chr(10) + 'mostra cx' + chr(10), 2)} fim\nfim\n")


CTRL = {"se": c_se, "senao": c_senao, "se3": c_se3, "se4": c_se4, "enquanto": c_enq, "para": c_para,
        "parainc": c_parainc, "escolha": c_esc, "escolhatexto": c_esct, "seiguala": c_seig, "iguala": c_ig}
CTRL1 = {k: v for k, v in CTRL.items() if "iguala" not in k}


def l_mark(g, loop):
    return g.m()


def l_quebra(g, loop):
    return f"{g.m()}quebra\n" if loop else g.m()


def l_cond(word):
    def f(g, loop):
        if word == "retorna" or loop:
            return f"se {g.qb()} entao\n{ind(g.m())} {word}\nfim\n{g.m()}"
        return g.m()
    return f


LEAF = {"mostra": l_mark, "quebra": l_quebra, "sequebra": l_cond("quebra"), "secontinua": l_cond("continua"),
        "seretorna": l_cond("retorna")}


def control(depth=2, ctxs=("top", "func"), kinds=None):
    kinds = kinds or CTRL1
    for ctx in ctxs:
        for combo in itertools.product(kinds, repeat=depth):
            for lname, leaf in LEAF.items():
                if lname == "seretorna" and ctx == "top":
                    continue
                if "break" in lname and not any(c in ("enquanto", "para", "parainc") for c in combo):
                    continue
                if lname in ("quebra", "sequebra", "secontinua") and not any(
                        c in ("enquanto", "para", "parainc") for c in combo):
                    continue
                g = Gen()

                def build(i):
                    if i == len(combo):
                        return leaf
                    k = CTRL[combo[i]]
                    return lambda g, loop: g.m() + k(g, build(i + 1), loop) + g.m()
                body = build(0)(g, False)
                yield Case(f"control/{ctx}/{'>'.join(combo)}/{lname}", wrap(ctx, body))


def lined(gen, noisy=True):
    """the same schemas with the line of every event and of its callers compared too, and lines that mean nothing
    put in between"""
    for c in gen:
        if noisy and len(c.files) == 1:
            (n, text), = c.files.items()
            r = random.Random(zlib.crc32(c.name.encode()))
            out = []
            for l in text.split("\n"):
                k = r.random()
                if k < 0.12:
                    out.append("")
                elif k < 0.24:
                    out.append("# nota: fim se func")
                elif k < 0.27:
                    out += ["", "", "   # nota"]
                out.append(l + ("   # nota" if k > 0.9 and l.strip() else ""))
            yield Case(c.name + "/linhas", None, files={n: "\n".join(out)}, main=c.main, lines=True, limit=c.limit,
                       reject_line=c.reject_line)
        else:
            yield Case(c.name + "/linhas", None, files=c.files, main=c.main, lines=True, limit=c.limit,
                       reject_line=c.reject_line)
