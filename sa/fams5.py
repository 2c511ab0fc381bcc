"""Schema families decided on the whole command, on images and on repeated compilation."""
import copy
import itertools
import zlib
from .cases import *
from . import fams as F
from . import fams2 as G
from . import fams4 as K


def via(cases, mode, argv=None, tag=""):
    for c in cases:
        c = copy.copy(c)
        c.mode = mode
        if argv:
            c.argv = argv
        c.name = f"{mode}{tag}/{c.name}"
        yield c


def commands():
    """the command on valid and rejected programs, on files that are not there, and with its options"""
    def cmd(name, files, argv=None, main="main.ama", expect=None):
        c = Case("cmd/" + name, None, files=files, main=main)
        c.mode, c.argv, c.expect = "cmd", argv, expect
        return c
    for t, f in (("mostra", "mostra 1\n"), ("vazio", ""), ("mau", "mostra x\n"), ("sint", "mostra\n"), ("func", "func g(): int\n retorna 1\nfim\nmostra g()\n")):
        for n, a in (("rel", ["main.ama"]), ("ponto", ["./main.ama"]), ("abs", ["/v/main.ama"]), ("d", ["-d", "main.ama"]), ("d2", ["main.ama", "--debug"])):
            yield cmd(f"arg/{t}/{n}", {"main.ama": f}, a)
        yield cmd(f"arg/{t}/dir", {"sub/prog.ama": f}, ["sub/prog.ama"], main="sub/prog.ama")
        yield cmd(f"arg/{t}/ext", {"prog.txt": f}, ["prog.txt"], main="prog.txt") if t in ("mostra", "mau") else cmd(f"arg/{t}/ext", {"a b.ama": f}, ["a b.ama"], main="a b.ama")
    yield cmd("falta", {"main.ama": "mostra 1\n"}, ["nada.ama"], expect="nada.ama")
    yield cmd("falta/d", {"main.ama": "mostra 1\n"}, ["-d", "nada.ama"], expect="nada.ama")
    yield cmd("falta/ext", {"main.ama": "mostra 1\n"}, ["main"], expect="main")
    yield cmd("falta/dir", {"sub/main.ama": "mostra 1\n"}, ["sub"], expect="sub")
    yield cmd("falta/arg", {"main.ama": "mostra 1\n"}, ["-d"], expect="file")
    yield cmd("opcao", {"main.ama": "mostra 1\n"}, ["-x", "main.ama"], expect="-x")
    yield cmd("muitos", {"main.ama": "mostra 1\n", "b.ama": ""}, ["main.ama", "b.ama"], expect="b.ama")
    for n in (255, 256):
        v = ", ".join(["1"] * n)
        yield cmd(f"limite/vec/{n}", {"main.ama": f"mostra 1\nv: [int] = [int: {v}]\nmostra v[0]\n"})
        yield cmd(f"limite/modulo/{n}", {"main.ama": "usa \"m\"\nmostra 1\n", "m.ama": f"\n\nx: [int] = [int: {v}]\n"})
    # the end of the text, however it is written, cut after every word
    for b, text in K.BASES.items():
        ts = K.tokens(text)
        for i in range(0, len(ts) + 1):
            cut = prologue(text) + K.untok(ts[:i]).rstrip(" ")
            for n, e in enumerate(("", "\n", "\n\n  \n", " # c", "\n# c\n")):
                if n in (0, 1) or zlib.crc32(f"{b}{i}{n}".encode()) % 5 == 0:
                    yield cmd(f"fim/{b}/{i}/{n}", {"main.ama": cut + e})
    for n, t in enumerate(("mostra 'abc", "mostra 'abc\n", "mostra f'a{", "mostra f'a{1'\n", "mostra (1", "mostra (1\n\n", "x: int = \n", "usa", "usa \n", "usa \"x", "@", "@\n", "@@\n", "@a(", "@a\n", "@a", "# c", "\n", "se",
                            "func", "func g(\n", "\n\n\nfunc g(): int\n\nfim\n\n", "func g(): int\n", "registo R\n", "uniao U\n", "iguala 1\n", "retorna", "quebra", "produz 1", "\tmostra x", "x", "fim", "\n\nfim", "\n\n\n   fim   \n\n", "mostra {x}\n",
                            "mostra '{}' + 1\n", "mostra %s\n", "x: {} = 1\n", "mostra x {0}\n", "mostra '\\n' + x\n", "mostra é\n", "é: int = 'a'\n")):
        yield cmd(f"texto/{n}", {"main.ama": t})
        yield cmd(f"modulo/{n}", {"main.ama": "# um\n\nusa \"m\" => m\nmostra 1\n", "m.ama": t})
        yield cmd(f"modulo2/{n}", {"main.ama": "# um\n\nusa \"a/m\"\nmostra 1\n", "a/m.ama": "usa \"b\" => [x]\n", "b.ama": t})


def sources(tier_k=1):
    """programs that use every construct, accepted and rejected"""
    yield from G.modules()
    yield from G.redeclare()
    yield from G.registos()
    yield from G.calls()
    yield from G.optionals()
    yield from G.vectors()
    yield from G.iguala_value()
    yield from G.iguala_bad()
    yield from G.iguala_nested()
    yield from G.declarations()
    yield from F.expr_mixed()
    yield from F.eval_order()
    yield from K.lexemes()
    yield from K.wellformed()


def sources_cmd():
    yield from via(sources(), "cmd")


def sources_debug():
    yield from via(sources(), "cmd", ["-d", "main.ama"], "-d")


def images(tier_k=1):
    yield from via(sources(), "img")


def images_mixed(tier):
    from .gen import mixed
    n = 400 if tier == "thorough" else 12
    for p in ("misto", "controlo", "caso", "valores", "dados", "funcoes", "nomes"):
        yield from via(mixed(p, n), "img")


def loads():
    yield from via(lined_(sources()), "load")


def lined_(cs):
    return lined(cs)


# ------------------------------------------------------------ documents
def doc(name, d, ok=True):
    c = Case("doc/" + name, None, files={})
    c.mode, c.doc = "dump", (d, ok)
    return c


INTS = [0, 1, -1, 127, 128, 255, 256, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**53, 2**53 + 1, 2**63 - 1, -2**31, -2**31 - 1, -2**63, -256, -128]
REALS = [0.0, -0.0, 1.0, -1.5, 0.1, 1e308, 5e-324, float("inf"), float("-inf"), float("nan"), 1e16, 123456789.123456789, 2.0**63, 3.0]
TEXTS = ["", "a", "'a'", "\"x\"", "ação", "\u4e2d\u6587", "\U0001f600", "a\0b", "\0", "x" * 127, "x" * 128, "y" * 255, "y" * 256, "é" * 128, "\n\t\r", "a" * 70000, "\x7f\x80\xff", "\ud7ff\ue000", "verdadeiro", "0", "é\0é"]
BLOBS = [b"", b"\0", b"\xff", bytes(range(256)), b"\0\0\0\0", b"a" * 255, b"a" * 256, b"a" * 65536, b"\x80", b"\x02a\0"]


def documents():
    kinds = {"int": INTS, "real": REALS, "texto": TEXTS, "bytes": BLOBS}
    for k, xs in kinds.items():
        for i, x in enumerate(xs):
            yield doc(f"{k}/{i}/so", {"a": x})
            yield doc(f"{k}/{i}/lista", {"a": [x, x]})
            yield doc(f"{k}/{i}/antes", {"a": x, "b": 7})
            yield doc(f"{k}/{i}/dentro", {"a": [{"b": x}, {"b": [x], "c": x}], "d": {"e": x}})
    for n in (0, 1, 2, 3, 9, 10, 11, 12, 99, 100, 101, 255, 256, 257, 999, 1000, 1001):
        yield doc(f"tamanho/ints/{n}", {"a": list(range(n)), "z": 1})
        yield doc(f"tamanho/textos/{n}", {"a": [str(i) for i in range(n)], "z": 1})
        if n < 300:
            yield doc(f"tamanho/docs/{n}", {"a": [{"n": f"f{i}", "i": i} for i in range(n)], "z": 1})
            yield doc(f"tamanho/listas/{n}", {"a": [[i] for i in range(n)], "z": 1})
            yield doc(f"tamanho/chaves/{n}", {f"k{i}": i for i in range(n)})
            yield doc(f"tamanho/reais/{n}", {"a": [i / 2 for i in range(n)], "z": 1})
    for n in (0, 1, 2, 5, 12):
        d = {"x": n}
        li = [n]
        for i in range(n):
            d = {"m": d, "q": i}
            li = [li, i]
        yield doc(f"fundo/doc/{n}", d)
        yield doc(f"fundo/lista/{n}", {"a": li})
    flat = [("i", 5), ("t", "t"), ("r", 0.5), ("b", b"b"), ("l", [1]), ("d", {"x": 1}), ("v", []), ("w", {})]
    for n in range(0, 4):
        for c in itertools.permutations(flat, n):
            if n < 3 or zlib.crc32(repr(c).encode()) % 3 == 0:
                yield doc("ordem/" + "".join(k for k, _ in c) + "_", dict(c))
                if n:
                    yield doc("mistura/" + "".join(k for k, _ in c), {"a": [v for _, v in c], "z": "fim"})
    big = {"name": "m", "builtin": 0, "entry_locals": 3, "constants": ["verdadeiro", "falso", "\"x\"", "1", "-2.5", 7, 0.5], "names": ["a", "é"], "ops": bytes(range(256)),
           "functions": [{"name": "f", "start_ip": 9, "locals": 2, "module": -1}], "registos": [{"name": "R", "fields": ["x", "y"]}], "src_map": [0, 8, 1, 9, 10, 2], "imports": []}
    for n in range(4):
        m = copy.deepcopy(big)
        m["imports"] = [dict(copy.deepcopy(big), name=f"i{i}") for i in range(n)]
        yield doc(f"modulo/{n}", m)
    for i, x in enumerate((2**63, -2**63 - 1, 2**64, None, 1j, [None], [2**63], {"x": None})):
        yield doc(f"recusado/{i}", {"a": x}, ok=False)


# ------------------------------------------------------- instructions and limits
def instructions(root="/repo"):
    from .vmspec import VMSpec
    import os
    spec = VMSpec(os.environ.get("SA_REPO", root))
    c = Case("op/todas", None, files={})
    c.mode, c.op = "op", ("*", ())
    yield c
    vals = {1: (0, 1, 2, 127, 128, 254, 255, 256, 257, 511, 65536, -1), 2: (0, 1, 2, 127, 128, 255, 256, 257, 511, 512, 4660, 32767, 32768, 65279, 65280, 65534, 65535, 65536, 65537, 131072, -1),
            8: (0, 1, 9, 127, 128, 255, 256, 65535, 65536, 65537, 16777216, 305419896, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**40 + 7, 2**56, 2**63 - 1, 2**63, 2**64 - 1, 2**64, -1, 0x0102030405060708)}
    for op, ws in sorted(spec.widths.items()):
        if not ws:
            sets = [()]
        elif len(ws) == 1:
            sets = [(v,) for v in vals[ws[0]]]
        else:
            sets = [(a, b) for a in vals[ws[0]] for b in vals[ws[1]] if a in (0, 1, 256, 65536, 2**63) or b in (0, 1, 256, 65536, 2**63)]
        for t in sets:
            if "Jump" in op and not 0 <= t[0] < 2**64:
                continue
            c = Case(f"op/{op}/{'_'.join(map(str, t))}", None, files={})
            c.mode, c.op = "op", (op, t)
            yield c


def vecs(n):
    """a vector literal nested n deep"""
    return f"[{'[' * (n - 1)}int{']' * (n - 1)}: {vecs(n - 1)}]" if n else "qi1()"


def limits():
    """one construct with more and more parts"""
    def lim(name, text, over=None):
        c = Case("lim/" + name, text)
        c.mode, c.over = "lim", over
        return c
    for n in (127, 128, 254, 255, 256, 257, 300):
        over = (lambda line: line if n > 255 else None)
        pre = prologue("qi1()").count("\n")
        yield lim(f"vec/{n}", f"v: [int] = [int: {', '.join(str(i) for i in range(n - 1))}, qi1()]\nmostra v[{n - 1}]\nmostra v[{n // 2}]\n", over(pre + 1))
        yield lim(f"vec/linha/{n}", "mostra 1\n\nv: [int] = [int: " + ", ".join("1" for i in range(n)) + "]\nmostra v[0]\n", over(3))
        yield lim(f"texto/{n}", "mostra f'" + "".join("{%d}" % i for i in range(n)) + "'\n", over(1))
        yield lim(f"texto/misto/{n}", "mostra 0\nmostra f'" + "".join("a{%d}" % i for i in range(n // 2)) + "'\n", over(2))
        ps = ", ".join(f"p{i}: int" for i in range(n))
        args = ", ".join(str(i) for i in range(n))
        yield lim(f"func/{n}", f"func g({ps}): int\n retorna p{n - 1} - p0\nfim\nmostra g({args})\n", over(1))
        fs = "\n".join(f" c{i}: int" for i in range(n))
        yield lim(f"registo/{n}", f"registo R\n{fs}\nfim\nr: R = R({', '.join(f'c{i}: {i}' for i in range(n))})\nmostra r.c{n - 1}\nmostra r.c0\n", over(n + 3))
        yield lim(f"metodo/{n}", f"registo R\n x: int\nfim\nmet R::g(alvo, {ps}): int\n retorna p{n - 1} - p0\nfim\nr: R = R(x: 1)\nmostra r.g({args})\n", True if n >= 255 else None)
        if n < 300:
            ts = ", ".join("int" for i in range(n))
            yield lim(f"uniao/{n}", f"uniao U\n A({ts})\nfim\nu: U = U::A({args})\nmostra iguala u\n U::A(x{', _' * 0}{''.join(f', y{i}' for i in range(n - 1))}) => x + y{n - 2}\nfim\n", True if n > 255 else None)
    for n in (100, 254, 255, 256, 257, 300, 520):
        yield lim(f"constantes/{n}", "\n".join(f"mostra {i}" for i in range(2000, 2000 + n)) + "\n")
        yield lim(f"textos/{n}", "\n".join(f"mostra 't{i}'" for i in range(n)) + "\nmostra 't0'\n")
        yield lim(f"globais/{n}", "\n".join(f"g{i}: int = {i}" for i in range(n)) + f"\nmostra g{n - 1}\nmostra g0\nmostra g{n // 2}\n")
        yield lim(f"locais/{n}", "func f(): int\n" + "\n".join(f" l{i}: int = {i}" for i in range(n)) + f"\n mostra l{n - 1}\n mostra l{n // 2}\n retorna l0\nfim\nmostra f()\n")
        yield lim(f"ramos/{n}", "x: int = qi1()\nse x == 0 entao\n mostra 0\n" + "".join(f"senaose x == {i} entao\n mostra {i}\n" for i in range(1, n // 8)) + "senao\n mostra x\nfim\n")
        yield lim(f"variantes/{n}", "uniao U\n " + ", ".join(f"V{i}" for i in range(n)) + f"\nfim\nu: U = U::V{n - 1}\nmostra iguala u\n U::V0 => 0,\n U::V{n - 1} => 1,\n _ => 2\nfim\n") if n < 300 else lim(f"variantes/{n}", "mostra 1\n")
        yield lim(f"funcoes/{n}", "".join(f"func f{i}(): int\n retorna {i}\nfim\n" for i in range(n)) + f"mostra f{n - 1}()\nmostra f0()\n")
        if n < 300:
            yield lim(f"registos/{n}", "".join(f"registo R{i}\n a: int\nfim\n" for i in range(n)) + f"r: R{n - 1} = R{n - 1}(a: 1)\nmostra r.a\nmostra R0(a: 2).a\n")
    # tables that are nearly full
    for table, line in (("const_table", "mostra {0}{0}\n"), ("names", "")):
        for n in (250, 254, 255, 256, 65000, 65520, 65525, 65528, 65529, 65530, 65531, 65532, 65533, 65534, 65535, 65536, 70000):
            if table == "names":
                text = "".join(f"g{i}: int = {i}\nmostra g{i}\n" for i in range(4)) + "func f(): int\n retorna 5\nfim\nmostra f()\nregisto R\n a: int\nfim\nr: R = R(a: 7)\nmostra r.a\n"
            else:
                text = "".join(f"mostra {i}{i}\n" for i in range(10, 16)) + "mostra 'a'\nmostra 'a'\nmostra 0.5\nmostra qi1() + 3\n"
            c = lim(f"tabela/{table}/{n}", text, True if n > 65500 else None)
            c.preset = (table, n)
            yield c
    # constructs nested deep
    for n in (10, 40, 80):
        yield lim(f"fundo/par/{n}", "mostra " + "(" * n + "qi1()" + ")" * n + "\n")
        yield lim(f"fundo/menos/{n}", "mostra " + "- " * n + "qi1()\n")
        yield lim(f"fundo/soma/{n}", "mostra " + "qi1() + " * n + "1\n")
        v = "[" * (n // 5) + "int: qi1()" + "]" * (n // 5)
        yield lim(f"fundo/vec/{n}", f"v: {'[' * (n // 5)}int{']' * (n // 5)} = {vecs(n // 5)}\nmostra v{'[0]' * (n // 5)}\n")
        yield lim(f"fundo/se/{n}", "".join(" " * i + f"se qb{i % 3}() entao\n" for i in range(n)) + "mostra 1\n" + "fim\n" * n)
        yield lim(f"fundo/enquanto/{n}", "".join("enquanto qb1() faca\n" for i in range(n)) + "mostra 1\n" + "fim\n" * n)
        yield lim(f"fundo/chamadas/{n}", "func g(x: int): int\n retorna x\nfim\nmostra " + "g(" * n + "qi1()" + ")" * n + "\n")


def repeats():
    yield from via(sources(), "rep")
    yield from via(G.iguala_flat(2), "rep")


def missing():
    yield from via(G.iguala_flat(3), "missing")
    yield from via(G.iguala_nested(), "missing")
    yield from via(G.iguala_bad(), "missing")
    yield from via(uncovered(), "missing")


def uncovered():
    """matches over nested unions with a few of the patterns of depth two"""
    pre = ("uniao A\n A0, A1(B), A2(B, int), A3(A)\nfim\nuniao B\n B0, B1, B2(texto)\nfim\nuniao S\n S1(A, B)\nfim\n").split("fim\n")
    pre = pre[1] + "fim\n" + pre[0] + "fim\n" + pre[2] + "fim\n"
    bs = ["B::B0", "B::B1", "B::B2(_)", "B::B2('a')", "_"]
    av = ["A::A0"] + [f"A::A1({b})" for b in bs] + [f"A::A2({b}, {i})" for b in bs for i in ("_", "1")] + ["A::A3(_)", "A::A3(A::A0)", "A::A3(A::A1(B::B0))", "A::A3(A::A3(_))"]
    import random
    rnd = random.Random(7)
    for i in range(400):
        k = rnd.randint(1, 6)
        if i % 3 == 2:
            arms = [f"S::S1({rnd.choice(av + ['_'])}, {rnd.choice(bs)})" for _ in range(k)]
            t, e = "S", "S::S1(A::A0, B::B0)"
        elif i % 3 == 1:
            arms = rnd.sample(bs[:4], min(k, 4))
            t, e = "B", "B::B1"
        else:
            arms = rnd.sample(av, k)
            t, e = "A", "A::A0"
        text = pre + f"v: {t} = {e}\niguala v\n" + ",\n".join(f" {p.replace('_', 'x%d' % j, 1) if j % 2 and p.count('_') == 1 else p} => faca\n  mostra {j}\n fim" for j, p in enumerate(arms)) + "\nfim\n"
        yield Case(f"falta/{i}", text)
