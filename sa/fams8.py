"""Schema families: operators on constants, as a compiler that computes ahead would see them."""
import itertools
import random
import zlib
from .cases import *

INTS = ["0", "1", "2", "3", "7", "10", "255", "256", "65536", "4294967296", "9223372036854775807"]
REALS = ["0.0", "1.0", "0.5", "2.5", "7.0", "0.1", "100.25", "9007199254740993.0"]
ARITH = ["+", "-", "*", "/", "//", "%"]
COMP = ["==", "!=", "<", "<=", ">", ">="]
SIGN = ["", "-", "+", "- -"]


def const_ops():
    """every operator on every two constants of a kind, with signs, and chains of constants"""
    def lines(exprs):
        return "".join((f"mostra {e}\n", f"se {e} entao\n mostra 1\nsenao\n mostra 2\nfim\n" if c else f"mostra f'{{{e}}}'\n")[n % 3 == 2] for n, (e, c) in enumerate(exprs))
    both = [(a, b) for a, b in itertools.product(INTS, INTS)] + [(a, b) for a, b in itertools.product(REALS, REALS)] + list(itertools.product(INTS[:6], REALS[:5])) + list(itertools.product(REALS[:5], INTS[:6]))
    for n, (a, b) in enumerate(both):
        for s, t in ((SIGN[0], SIGN[0]), (SIGN[n % 4], SIGN[(n // 4) % 4])) if n % 4 or (n // 4) % 4 else ((SIGN[0], SIGN[0]),):
            zero = float(b) == 0
            es = [(f"{s}{a} {o} {t}{b}", False) for o in ARITH if not (zero and o in ("/", "//", "%"))] + [(f"{s}{a} {o} {t}{b}", True) for o in COMP]
            yield Case(f"const/{s.replace(' ', '')}{a}/{t.replace(' ', '')}{b}", lines(es), limit=40)
            if zero and s == t == "":
                for o in ("/", "//", "%"):
                    yield Case(f"constzero/{a}/{o}{b}", f"mostra 1\nmostra {a} {o} {b}\nmostra 2\n")
    B = ["verdadeiro", "falso"]
    for a, b in itertools.product(B, B):
        yield Case(f"const/{a}/{b}", lines([(f"{n}{a} {o} {m}{b}", True) for o in ("e", "ou", "==", "!=") for n in ("", "nao ") for m in ("", "nao ")]), limit=40)
    T = ["''", "'a'", "'A'", "\"a\"", "'ab'", "'1'", "' a'", "'verdadeiro'"]
    for a, b in itertools.product(T, T):
        yield Case(f"const/{a}/{b}", lines([(f"{a} {o} {b}", True) for o in ("==", "!=")]))
    r = random.Random(11)
    for n in range(220):
        kind = n % 4
        vals = {0: INTS[:8], 1: REALS[:6], 2: INTS[:6] + REALS[:5], 3: INTS[1:6] + ["vi"]}[kind]

        def tree(d):
            if d == 0 or r.random() < .2:
                return r.choice(vals)
            o = r.choice(ARITH[:3] if kind != 1 else ARITH[:4])
            e = f"{tree(d - 1)} {o} {tree(d - 1)}"
            c = r.random()
            return f"({e})" if c < .4 else f"-({e})" if c < .5 else e
        es = [tree(3) for _ in range(4)]
        yield Case(f"constarv/{n}", "vi: int = qi1()\n" + "".join(f"mostra {e}\n" for e in es) + f"se {es[0]} < {es[1]} entao\n mostra 1\nfim\nk: real = {es[2]}\nmostra k\n", limit=30)
    for n, (o, v) in enumerate(itertools.product(["+=", "-=", "*=", "/="], INTS[:5] + REALS[:4])):
        for t, k in (("int", "5"), ("real", "5.5")):
            yield Case(f"constcomp/{t}/{o}{v}", f"x: {t} = {k}\nx {o} {v}\nmostra x\nx {o} {v}\nmostra x\n")


def import_graphs():
    """random graphs of two to five modules, each import in a random form, names used with and without a right to them"""
    r = random.Random(23)
    for n in range(420):
        k = r.randint(1, 4)
        files = {}
        for i in range(k, -1, -1):
            src, order = "", [j for j in range(i + 1, k + 1) if r.random() < (.9 if j == i + 1 else .5)]
            if i == 0 and r.random() < .6:
                order = [j for j in range(1, k + 1) if r.random() < .7] or [1]
            r.shuffle(order)
            names = [f"v{i}", f"f{i}", f"R{i}"]
            for j in order:
                form = r.choice("aaiggg")
                if form == "a":
                    src += f"usa \"m{j}\" => q{j}\n"
                    names += [f"q{j}.v{j}", f"q{j}.f{j}", f"q{j}.R{j}"] + [f"q{j}.v{x}" for x in range(j + 1, k + 1) if r.random() < .3]
                elif form == "i":
                    its = [x for x in (f"v{j}", f"f{j}", f"R{j}") if r.random() < .6] or [f"f{j}"]
                    if r.random() < .12:
                        its.append(f"v{r.randint(1, k)}")
                    src += f"usa \"m{j}\" => [{', '.join(its)}]\n"
                    names += its
                else:
                    src += f"usa \"m{j}\"\n"
                    names += [f"v{j}", f"f{j}", f"R{j}"] + [f"{c}{x}" for x in range(j + 1, k + 1) for c in "vf" if r.random() < .25]
            if r.random() < .06:
                names.append(f"{r.choice('vfR')}{r.randint(0, k)}")
            src += f"registo R{i}\n c: int\nfim\nv{i}: int = {10 * i + 1}\nfunc f{i}(): int\n v{i} = v{i} + {i + 1}\n retorna v{i}\nfim\nmostra 'm{i}'\n"
            if r.random() < .12:
                src += f"k: int = {i}\nmostra k\n"
            if r.random() < .04:
                src += f"f{r.randint(0, k)}: int = 0\n"
            uses = [r.choice(names) for _ in range(r.randint(2, 4))]
            for z, u in enumerate(uses):
                t = u.split(".")[-1][0]
                src += f"mostra {u}\n" if t == "v" else f"mostra {u}()\n" if t == "f" else f"z{i}{z}: {u} = {u}(c: {z})\nmostra z{i}{z}.c\n" if r.random() < .97 else f"{u} = 3\n"
            files["main.ama" if i == 0 else f"m{i}.ama"] = src
        yield Case(f"grafo/{n}", None, files=files)


KINDS = {  # spellings of an expression of a type, one syntax node each
    "int": {"const": "7", "chamada": "qi1()", "var": "vi", "indice": "ni[0]", "campo": "p.i", "soma": "vi + 1", "grupo": "(vi)", "menos": "-vi", "conv": "vr :> int"},
    "real": {"const": "7.5", "chamada": "qr1()", "var": "vr", "indice": "nr[0]", "campo": "p.r", "soma": "vr + 1", "grupo": "(vr)", "menos": "-vr", "conv": "vi :> real"},
    "texto": {"const": "'a'", "chamada": "qt1()", "var": "vt", "indice": "nt[0]", "campo": "p.t", "soma": "f'{vi}'", "grupo": "(vt)", "menos": "f'{vt}'", "conv": "vi :> texto"},
    "bool": {"const": "falso", "chamada": "qb1()", "var": "vb", "indice": "nb[0]", "campo": "p.b", "soma": "vi > 1", "grupo": "(vb)", "menos": "nao vb", "conv": "vi :> bool"},
}
HEAD = ("registo P\n i: int\n r: real\n t: texto\n b: bool\nfim\nvi: int = qi2()\nvr: real = qr2()\nvt: texto = qt2()\nvb: bool = qb2()\n"
        "ni: [int] = [int: vi]\nnr: [real] = [real: vr]\nnt: [texto] = [texto: vt]\nnb: [bool] = [bool: vb]\np: P = P(i: vi, r: vr, t: vt, b: vb)\n")


def late_member():
    """a list of members (vector, arguments, fields, parameters of a variant, cases, arms, parts of a text) of one kind of
    expression each, where one member alone is of another type"""
    r = random.Random(5)
    for ty, other, k in itertools.product(KINDS, KINDS, KINDS["int"]):
        if k == "menos" and ty == "texto":
            continue
        for n in (1, 2, 3, 4, 5, 6, 8, 9):
            at = r.choice([n - 1, n - 1, r.randrange(n)])
            es = [KINDS[other if i == at else ty][k] for i in range(n)]
            form = ("vetor", "args", "campos", "variante", "casos", "bracos", "metodo", "interno")[(len(k) + n + len(ty) * 3 + len(other)) % 8]
            ps = ", ".join(f"a{i}: {ty}" for i in range(n))
            show = "".join(f" mostra a{i}\n" for i in range(n))
            if form == "vetor":
                s = f"v: [{ty}] = [{ty}: {', '.join(es)}]\nmostra v\nmostra v[{n - 1}]\n"
            elif form == "args":
                s = f"func f({ps}): vazio\n{show}fim\nf({', '.join(es)})\n"
            elif form == "metodo":
                s = f"registo M\n c: int\nfim\nmet M::f(alvo, {ps})\n{show}fim\nm: M = M(c: 1)\nm.f({', '.join(es)})\n"
            elif form == "campos":
                s = "registo M\n" + "".join(f" a{i}: {ty}\n" for i in range(n)) + f"fim\nm: M = M({', '.join(f'a{i}: {e}' for i, e in enumerate(es))})\n" + "".join(f"mostra m.a{i}\n" for i in range(n))
            elif form == "variante":
                s = f"uniao W\n Z({', '.join([ty] * n)})\nfim\nw: W = W::Z({', '.join(es)})\niguala w\n W::Z({', '.join(f'a{i}' for i in range(n))}) => faca\n{show} fim\nfim\n"
            elif form == "casos":
                s = f"escolha {KINDS[ty]['var']}:\n" + "".join(f"caso {e}:\n mostra {i}\n" for i, e in enumerate(es)) + "senao:\n mostra 99\nfim\n"
            elif form == "bracos":
                s = f"x: {ty} = iguala vi\n" + "".join(f" {i} => {e},\n" for i, e in enumerate(es)) + f" _ => {KINDS[ty]['var']}\nfim\nmostra x\n"
            else:
                s = f"v: [[{ty}]] = [[{ty}]: [{ty}: {KINDS[ty]['var']}], [{ty}: {', '.join(es)}]]\nmostra v[1][{n - 1}]\nv[1][0] = {es[-1]}\nmostra v\n"
            yield Case(f"tarde/{form}/{k}/{ty}/{other}/{n}", HEAD + s)


def casts_in_place():
    """a conversion as a direct part of every construct, its operand of every spelling, beside operands of every type"""
    prim = ["int", "real", "texto", "bool"]
    n = 0
    for a, t in itertools.product(prim, prim):
        for k in ("chamada", "var", "indice", "campo", "grupo"):
            e = f"{KINDS[a][k]} :> {t}"
            n += 1
            out = []
            for o in ARITH + COMP + ["e", "ou"]:
                for x in (KINDS[a]["var"] + f" :> {t}", KINDS[t]["var"], KINDS["int" if t == "real" else "real"]["var"] + f" :> {t}", KINDS["real" if t == "int" else t]["chamada"]):
                    out += [f"{e} {o} {x}", f"{x} {o} {e}", f"{e} {o} {x} {o} {e}"]
            for i, x in enumerate(out):
                if (i + n) % 5 == 0:
                    yield Case(f"convem/{a}/{t}/{k}/{i}", HEAD + f"mostra {x}\nmostra ({x})\n")
            for i, s in enumerate((f"mostra {e}\n", f"mostra -{e}\n", f"mostra f'{{{e}}}'\n", f"x: {t} = {e}\nmostra x\nx = {e}\nmostra x\n", f"x: real = {e}\nx += {e}\nmostra x\n", f"v: [{t}] = [{t}: {e}, {e}]\nmostra v\nv[0] = {e}\n",
                                   f"func f(x: {t}): {t}\n retorna {KINDS[a]['var']} :> {t}\nfim\nmostra f({e})\n", f"se {e} entao\n mostra 1\nfim\n", f"enquanto {e} faca\n mostra 1\n vb = falso\n vi = 0\nfim\n",
                                   f"para i de {e}..{e} faca\n mostra i\nfim\n", f"mostra nt[{e}]\n", f"escolha {e}:\ncaso {e}:\n mostra 1\ncaso {KINDS[t]['const']}:\n mostra 2\nfim\n", f"mostra (({e}) :> {a})\n", f"mostra ({e}) :> texto\n",
                                   f"x: {t}? = {e}\nmostra x.valor\n", f"w: indef = {e}\nmostra w\nmostra w :> {t}\n", f"mostra nao {e}\n")):
                yield Case(f"convem/{a}/{t}/{k}/s{i}", HEAD + s)


def many_branches():
    """conditions and matches with many branches, one of them not returning, or with statements after a return"""
    r = random.Random(3)
    for n, miss in ((n, m) for n in range(1, 7) for m in list(range(n)) + [None, "tail"]):
        for form in ("se", "se_aninhado", "iguala", "iguala_bind", "escolha", "depois"):
            def ret(i):
                if miss == i:
                    return r.choice([f"mostra {i}", f"enquanto qb9() faca\n  mostra {i}\n fim", f"para z de 0..qi9() faca\n  mostra z\n fim", f"se qb8() entao\n  retorna {i}\n fim", f"z: int = {i}"])
                return r.choice([f"retorna {i}", f"se qb7() entao\n  retorna {i}\n senao\n  retorna {i + 20}\n fim", f"mostra {i}\n retorna {i}"])
            tail = "" if miss == "tail" else f" {ret(n)}\n"
            if form.startswith("se"):
                b = "".join(f"{'se' if i == 0 else 'senaose'} x == {i} entao\n {ret(i)}\n" for i in range(n)) + (f"senao\n{tail}" if tail else "") + "fim\n"
                if form == "se_aninhado":
                    b = f"se qb6() entao\n{b}senao\n retorna 90\nfim\n"
            elif form.startswith("iguala"):
                last = f"{'_' if form == 'iguala' else 'resto'} => faca\n {ret(n)}\n fim\n"
                b = "iguala x\n" + "".join(f" {i} => faca\n {ret(i)}\n fim,\n" for i in range(n)) + (last if tail else "") + "fim\n"
            elif form == "escolha":
                b = "escolha x:\n" + "".join(f"caso {i}:\n {ret(i)}\n" for i in range(n)) + (f"senao:\n{tail}" if tail else "") + "fim\n"
            else:
                b = "".join(f" se x == {i} entao\n  {ret(i)}\n fim\n" for i in range(n)) + (tail or " mostra 91\n")
            yield Case(f"ramos/{form}/{n}/{miss}", f"func f(x: int): int\n{b}fim\nmostra f(qi1())\nmostra f({n - 1})\n")
            if form != "depois":
                yield Case(f"ramosapos/{form}/{n}/{miss}", f"func f(x: int): int\n{b} mostra 92\n retorna 93\nfim\nmostra f(qi1())\n")


def pairs_of_names():
    """lists of up to eight names with the same name twice, at every two places"""
    def lst(n, i, j, f):
        return [f(x, "n" + str(i if x == j else x)) for x in range(n)]
    for n in (2, 3, 4, 6, 8):
        for i, j in [(i, j) for i in range(n) for j in range(i, n)]:
            if i == j and i != n - 1:
                continue
            t = f"{n}/{i}/{j}"
            T = ["int", "real", "texto"]
            ps = ", ".join(lst(n, i, j, lambda x, m: f"{m}: {T[x % 2]}"))
            yield Case(f"par/func/{t}", f"func f({ps}): vazio\n mostra n0\nfim\nf({', '.join(['1'] * n)})\n")
            yield Case(f"par/met/{t}", f"registo M\n c: int\nfim\nmet M::f(alvo, {ps})\n mostra n0\nfim\nm: M = M(c: 1)\nm.f({', '.join(['1'] * n)})\n")
            yield Case(f"par/campos/{t}", "registo M\n" + "".join(lst(n, i, j, lambda x, m: f" {m}: int\n")) + "fim\nmostra 1\n")
            yield Case(f"par/init/{t}", "registo M\n" + "".join(f" n{x}: int\n" for x in range(n)) + f"fim\nm: M = M({', '.join(lst(n, i, j, lambda x, m: f'{m}: {x}'))})\nmostra m.n0\nmostra m.n{n - 1}\n")
            yield Case(f"par/variantes/{t}", "uniao W\n" + ",\n".join(lst(n, i, j, lambda x, m: f" {m}(int)")) + f"\nfim\nw: W = W::n0(1)\niguala w\n W::n0(a) => faca\n  mostra a\n fim,\n _ => faca\n  mostra 2\n fim\nfim\n")
            yield Case(f"par/padrao/{t}", f"uniao W\n Z({', '.join(['int'] * n)})\nfim\nw: W = W::Z({', '.join(map(str, range(n)))})\niguala w\n W::Z({', '.join(lst(n, i, j, lambda x, m: m))}) => faca\n  mostra n0\n fim\nfim\n")
            yield Case(f"par/vars/{t}", "".join(lst(n, i, j, lambda x, m: f"{m}: int = {x}\n")) + "mostra n0\n")
            yield Case(f"par/locais/{t}", "func f(): vazio\n" + "".join(lst(n, i, j, lambda x, m: f" {m}: int = {x}\n")) + " mostra n0\nfim\nf()\n")
            yield Case(f"par/multi/{t}", ", ".join(lst(n, i, j, lambda x, m: m)) + ": int\nmostra n0\n")
            yield Case(f"par/funcs/{t}", "".join(lst(n, i, j, lambda x, m: f"func {m}(): int\n retorna {x}\nfim\n")) + "mostra n0()\n")
            yield Case(f"par/mets/{t}", "registo M\n c: int\nfim\n" + "".join(lst(n, i, j, lambda x, m: f"met M::{m}(alvo): int\n retorna {x}\nfim\n")) + "m: M = M(c: 1)\nmostra m.n0()\n")
            yield Case(f"par/tipos/{t}", "".join(lst(n, i, j, lambda x, m: f"registo {m}\n c: int\nfim\n")) + "mostra 1\n")
            yield Case(f"par/itens/{t}", None, files={"main.ama": f"usa \"m\" => [{', '.join(lst(n, i, j, lambda x, m: m))}]\nmostra n0\n", "m.ama": "".join(f"n{x}: int = {x}\n" for x in range(n))})


NUMS = [0, 1, 2, 10, 255, 256, 257, 65535, 65536, 2147483647, 2147483648, 4294967295, 4294967296, 9007199254740992, 9007199254740993, 9223372036854775807]
TXTS = ["", "a", "A", "b", "ab", "ba", " ", "a ", " a", "1", "01", "abc", "abcd", "abcdefghij", "abcdefghik"]


def match_values():
    """matches on whole numbers and texts that are easily confused"""
    for kind, vals in (("i", NUMS), ("t", TXTS)):
        q = (lambda v: str(v)) if kind == "i" else (lambda v: f"'{v}'")
        for n, (a, b) in enumerate(itertools.permutations(vals, 2)):
            c = vals[(n * 7 + 3) % len(vals)]
            arms = "".join(f" {q(v)} => faca\n  mostra {i}\n fim,\n" for i, v in enumerate((a, b, c)[:2 + n % 2]))
            e = ("q%s1()" % kind, q(b), q(a))[n % 3]
            yield Case(f"valor/{kind}/{a}/{b}", f"iguala {e}\n{arms} _ => faca\n  mostra 9\n fim\nfim\n")
        arms = "".join(f" {q(v)} => {i},\n" for i, v in enumerate(vals))
        yield Case(f"valor/{kind}/todos", f"mostra iguala q{kind}1()\n{arms} _ => 99\nfim\n")


def match_tables(count=420):
    """matches of two to four columns and up to seven rows over small domains"""
    r = random.Random(17)
    dom = {"int": ["0", "1", "2"], "texto": ["'a'", "'b'", "''"], "U": ["U::A", "U::B(%s)", "U::C(%s, %s)"], "bool": ["verdadeiro", "falso"]}
    for n in range(count):
        k = r.randint(1, 4)
        cols = [r.choice(["int", "int", "texto", "U"]) for _ in range(k)]
        args = {"U::B(%s)": ["int"], "U::C(%s, %s)": ["texto", "int"], "U::A": []}

        def pat(t, names, d=0):
            c = r.random()
            if c < (.3 if d == 0 else .4):
                if r.random() < .6:
                    return "_"
                m = f"b{len(names)}"
                names.append(m)
                return m
            v = r.choice(dom[t])
            return v % tuple(pat(x, names, d + 1) for x in args[v]) if t == "U" and args[v] else v
        rows = []
        for i in range(r.randint(2, 7)):
            names = []
            p = ", ".join(pat(c, names) for c in cols)
            rows.append(f" W::Z({p}) => faca\n  mostra {i}\n" + "".join(f"  mostra {m}\n" for m in names if "U" not in cols) + " fim")
        if r.random() < .75:
            rows.append(" _ => faca\n  mostra 99\n fim")
        qs = {"int": "qi%d()", "texto": "qt%d()", "U": "mkV(qi%d())"}
        decl = ("uniao U\n A,\n B(int),\n C(texto, int)\nfim\nuniao W\n Z(" + ", ".join(cols) + ")\nfim\n"
                "func mkV(n: int): U\n se n == 0 entao\n  retorna U::A\n senaose n == 1 entao\n  retorna U::B(qi8())\n senao\n  retorna U::C(qt8(), qi9())\n fim\nfim\n")
        yield Case(f"tabela/{n}", decl + f"w: W = W::Z({', '.join(qs[c] % i for i, c in enumerate(cols))})\niguala w\n" + ",\n".join(rows) + "\nfim\n")


def own_bound():
    """a loop whose bounds name a variable of the loop variable's name"""
    n = 0
    for t in ("int", "real", "texto", None):
        for b in ("i..9", "0..i", "i..i + 2", "0..9 inc i", "i..9 inc i", "0..k inc 2", "i - 1..k", "0..f(i)"):
            for wrap in ("%s", "func g(): vazio\n%sfim\ng()\n", "se qb1() entao\n%sfim\n", "para j de 0..2 faca\n%sfim\n", "para i de 0..2 faca\n%sfim\n", "func g(i: int): vazio\n%sfim\ng(3)\n"):
                for after in ("", "mostra i\n", "para i de 0..2 faca\nmostra i\nfim\n"):
                    n += 1
                    d = {"int": "i: int = 2\n", "real": "i: real = 2.5\n", "texto": "i: texto = 'a'\n", None: ""}[t]
                    body = f"para i de {b} faca\nmostra i\n{'i = i + 1' if n % 5 == 0 else 'k = k + i' if n % 7 == 0 else 'mostra k'}\nfim\n{after}"
                    pre = "func f(x: int): int\n retorna x + 2\nfim\nk: int = 3\n"
                    yield Case(f"laco/{t}/{b}/{n}", pre + (d + wrap % body if n % 2 else wrap % (d + body)), limit=12)


def members_of_modules(count=300):
    """functions, types and methods that share their names across types, modules and main, used in random orders"""
    r = random.Random(29)
    for n in range(count):
        k = r.randint(1, 3)
        files, uses = {}, []
        for i in range(1, k + 1):
            regs = r.sample(["R", "S", "T"], r.randint(1, 3))
            s = f"g: int = {i * 100}\n"
            for t in regs:
                s += f"registo {t}\n c: int\nfim\n"
            body = []
            for t in regs:
                for m in r.sample(["f", "h", "c2"], r.randint(1, 3)):
                    body.append(f"met {t}::{m}(alvo, x: int): int\n mostra '{i}{t}{m}'\n g = g + x\n retorna alvo.c + g\nfim\n")
                    uses.append((i, "met", t, m))
            for m in r.sample(["f", "h", "R2"], r.randint(0, 2)):
                body.append(f"func {m}(x: int): int\n mostra '{i}{m}'\n g = g + x\n retorna g\nfim\n")
                uses.append((i, "func", m, None))
            r.shuffle(body)
            s += "".join(body)
            for t in regs[:1] if r.random() < .5 else []:
                u = [x for x in uses if x[:3] == (i, "met", t)][0]
                s += f"p: {t} = {t}(c: 5)\nmostra p.{u[3]}(1)\n"
            if i > 1 and r.random() < .5:
                j = r.randint(1, i - 1)
                u = [x for x in uses if x[0] == j and x[1] == "met"]
                t = r.choice(u)
                s = f"usa \"m{j}\" => z{j}\n" + s + f"p{j}: z{j}.{t[2]} = z{j}.{t[2]}(c: 6)\nmostra p{j}.{t[3]}(2)\n"
            files[f"m{i}.ama"] = s
        form = r.choice("aaag") if k == 1 else "a"
        q = lambda i: f"q{i}." if form == "a" else ""
        main = "".join(f"usa \"m{i}\"" + (f" => q{i}" if form == "a" else "") + "\n" for i in range(1, k + 1))
        if form == "a" and r.random() < .6:
            main += "registo R\n c: int\nfim\nmet R::f(alvo, x: int): int\n retorna alvo.c + x\nfim\nfunc f(x: int): int\n retorna x\nfim\n"
            uses += [(0, "met", "R", "f"), (0, "func", "f", None)] * 2
        inside = r.random() < .4
        body = ""
        for z, (i, kind, a, b) in enumerate([r.choice(uses) for _ in range(r.randint(3, 7))]):
            p = q(i) if i else ""
            body += f"mostra {p}{a}({z})\n" if kind == "func" else f"x{z}: {p}{a} = {p}{a}(c: {z})\nmostra x{z}.{b}({z + 1})\n" if r.random() < .8 else f"mostra {p}{a}(c: {z}).{b}({z})\n"
        files["main.ama"] = main + (f"func tudo(): vazio\n{body}fim\ntudo()\ntudo()\n" if inside else body)
        yield Case(f"membros/{n}", None, files=files, limit=60)


def optional_places():
    """optional values of every type from every producer in every place that takes or asks for one"""
    head = ("registo R\n c: int\nfim\nuniao U\n A,\n B(int)\nfim\nregisto P\n o: {T}?\nfim\nfunc ser(): {T}?\n se qb1() entao\n  retorna nulo\n fim\n retorna {v}\nfim\nfunc dar(x: {T}?): {T}?\n mostra x == nulo\n retorna x\nfim\n"
            "a: {T}? = nulo\nb: {T}? = {v}\np: P = P(o: {v})\nw: [{T}?] = [{T}?: nulo, {v}]\nx: {T} = {v}\n")
    vals = {"int": "qi1()", "real": "qr1()", "texto": "qt1()", "bool": "qb2()", "[int]": "[int: qi2(), 4]", "R": "R(c: qi3())", "[int?]": "[int?: nulo, 3]", "real ": "qi1()"}
    prod = ["nulo", "{v}", "a", "b", "ser()", "dar(a)", "dar({v})", "p.o", "w[0]", "w[1]", "(b)", "x", "dar(nulo)", "5", "'t'", "2.5"]
    sink = ["y: {T}? = {e}\nmostra y == nulo\n", "a = {e}\nmostra a != nulo\n", "y: {T}? = dar({e})\nmostra y == nulo\n", "p.o = {e}\nmostra p.o == nulo\n", "w[0] = {e}\nmostra w[0] == nulo\n", "anexa(w, {e})\nmostra tam(w)\n", "q: P = P(o: {e})\nmostra q.o == nulo\n",
            "mostra {e} == nulo\n", "mostra nulo == {e}\n", "mostra {e} != nulo\n", "mostra nulo != {e}\n", "se {e} == nulo entao\n mostra 1\nsenao\n mostra 2\nfim\n", "enquanto {e} != nulo faca\n mostra 1\n a = nulo\n b = nulo\nfim\n",
            "z: {T} = {e}.valor\nmostra 7\n", "z: {T} = {e}.valor_ou({v})\nmostra 8\n", "z: {T} = a.valor_ou({e})\nmostra 8\n", "z: {T} = {e}\nmostra 9\n", "mostra {e} == a\n", "mostra a != {e}\n", "func f(): {T}?\n retorna {e}\nfim\nmostra f() == nulo\n",
            "k: [{T}?] = [{T}?: a, {e}, b]\nmostra k[1] == nulo\n", "x = {e}.valor_ou(x)\nmostra 3\n", "mostra {e}.valor\n", "mostra {e}.valor_ou({v})\n", "mostra f'{{{e} == nulo}} {{a == nulo}}'\n", "y: indef = {e}\nmostra 4\n", "y: {T}? = b\ny = {e}\ny = a\nmostra y == nulo\n",
            "mostra ({e} == nulo) ou (a == nulo) e (nulo != b)\n", "y: {T}? = iguala qi9()\n 1 => {e},\n 2 => nulo,\n _ => b\nfim\nmostra y == nulo\n"]
    for T, v in vals.items():
        for i, s in enumerate(sink):
            for j, e in enumerate(prod):
                e = e.replace("{v}", v)
                if "{" in s.replace("{T}", "").replace("{e}", "").replace("{v}", ""):
                    t = s.replace("{{{e} == nulo}}", "{" + e + " == nulo}").replace("{{a == nulo}}", "{a == nulo}")
                else:
                    t = s.replace("{T}", T.strip()).replace("{e}", e).replace("{v}", v)
                yield Case(f"opcional/{T}/{i}/{j}", head.replace("{T}", T.strip()).replace("{v}", v) + t, limit=20)
    both = ["nulo", "qi1()", "(nulo)", "o", "7", "'t'", "qt1()", "qb1()", "r", "v"]
    for l, o, t in itertools.product(both, ["==", "!=", "<", "+", "e", "ou", "%"], both):
        if "nulo" in l + t or o in ("==", "!="):
            yield Case(f"nulo/{l}/{o}/{t}", f"registo R\n c: int\nfim\no: int? = 5\nr: R = R(c: 1)\nv: [int] = [int: 1]\nmostra {l} {o} {t}\nse {l} {o} {t} entao\n mostra 1\nfim\n")


def literal_sizes():
    """literals, names, texts and comments of every length, and texts with every character at every place"""
    r = random.Random(41)
    for n in range(1, 24):
        for k in range(3):
            d = "".join(r.choice("0123456789" if i else "123456789") for i in range(n)) if k else "9" * n
            if int(d) < 2 ** 63:
                yield Case(f"tam/int/{n}/{k}", f"mostra {d}\nx: int = {d}\nmostra -x\nmostra f'{{{d}}}'\nse x == {d} entao\n mostra 1\nfim\n")
            else:
                yield Case(f"tam/int/{n}/{k}", f"mostra 1\nx: int = {d}\n")
            z = "0" * (n - 1) + r.choice("0123456789")
            yield Case(f"tam/zeros/{n}/{k}", f"mostra {z}\nmostra {z}.{z}\n")
            f = "".join(r.choice("0123456789") for _ in range(r.randint(1, 18)))
            w = d[:r.randint(1, 15)]
            yield Case(f"tam/real/{n}/{k}", f"mostra {w}.{f}\nx: real = {f}.{d[:17]}\nmostra x\nmostra 0.{'0' * n}{w[:5]}\n")
    chars = [chr(c) for c in range(32, 127)] + list("\t áçãéíóúÀÇÕñßüœ€–“”•…日本語☃😀́​  ÿĀſıK¼½²")
    for i, c in enumerate(chars):
        for q in "'\"":
            if c in (q, "\\"):
                continue
            t = lambda a, b: q + a + c + b + q
            yield Case(f"car/texto/{i}/{ord(q)}", f"mostra {t('', '')}\nmostra {t('ab', '')}\nmostra {t('', 'ab')}\nmostra {t('a', 'b')}\nmostra {t(c * 2, c)}\nx: texto = {t(' ', ' ')}\nmostra x\nmostra {q}\\{c}{q}\nmostra 7\n"
                       if c not in "ntrbaf0vxuN" else f"mostra {t('', '')}\nmostra {t('a', 'b')}\nmostra {t(c * 3, '')}\n", limit=30)
            if c not in "{}":
                yield Case(f"car/fstr/{i}/{ord(q)}", f"mostra f{t('', '')}\nmostra f{t('{1}', '')}\nmostra f{t('', '{2}')}\nmostra f{t('{3}', '{4}')}\nmostra f{t('a{5}b', 'c{6}d')}\n")
        yield Case(f"car/coment/{i}", f"mostra 1 # {c}\n# {c}{c}\nmostra 2 #{c}\n#{c}\nmostra 3 # a {c} b 'x' \"y\" fim\n", lines=True)
        yield Case(f"car/nome/{i}", f"a{c}b: int = 1\nmostra a{c}b\n")
        yield Case(f"car/inicio/{i}", f"mostra 1\n{c}\nmostra 2\n")
        yield Case(f"car/entre/{i}", f"x: int = 1{c}2\nmostra x\n")
    for n in list(range(0, 40)) + [63, 64, 65, 127, 128, 200, 255, 256, 257, 300, 1000]:
        t = "".join(r.choice("abcçxyz 0123456789") for _ in range(n))
        yield Case(f"tam/texto/{n}", f"mostra '{t}'\nmostra f'{t}{{1}}{t}'\nx: texto = \"{t}\"\nmostra x\nse x == '{t}' entao\n mostra 1\nfim\n")
        nm = "a" + "".join(r.choice("abcdxyz_0123456789") for _ in range(n))
        yield Case(f"tam/nome/{n}", f"{nm}: int = 1\nfunc {nm}_(p{nm}: int): int\n {nm}l: int = p{nm}\n retorna {nm}l\nfim\nmostra {nm} + {nm}_(4)\nregisto R{nm}\n c{nm}: int\nfim\nr: R{nm} = R{nm}(c{nm}: 3)\nmostra r.c{nm}\n")
        if n < 70:
            yield Case(f"tam/espacos/{n}", f"{' ' * n}mostra{' ' * (n + 1)}1{' ' * n}+{' ' * n}2{' ' * n}\n{' ' * n}# c\n{chr(9) * n}mostra 3{chr(9) * n}\n", lines=True)
            yield Case(f"tam/linhas/{n}", f"mostra 1{chr(10) * (n + 1)}mostra 2{(chr(10) + ' ') * n}\n# c\n{('# c' + chr(10)) * n}mostra 3\nmostra 4 / 0\n", lines=True)


def long_chains():
    """chains of up to twelve parts of each construct that may be chained or nested"""
    r = random.Random(43)
    for n in range(2, 13):
        V = [f"q{'ir'[i % 5 == 4]}{i}()" for i in range(n)]
        I = [f"qi{i}()" for i in range(n)]
        B = [f"qb{i}()" for i in range(n)]
        for o in ("+", "-", "*", "/", "//", "%"):
            yield Case(f"cadeia/{o}/{n}", f"mostra {f' {o} '.join(I if o in ('//', '%') else V)}\nx: int = 3\nmostra {f' {o} '.join(['x', '2', '7'] * n)}\n", limit=60)
        for k in range(6):
            e = "".join(v + (f" {r.choice('+-*/')} " if i < n - 1 else "") for i, v in enumerate(V))
            yield Case(f"cadeia/mista/{n}/{k}", f"mostra {e}\nmostra ({e}) * 2\n", limit=60)
            ops = [r.choice(["e", "ou"]) for _ in range(n - 1)]
            e = "".join(r.choice(["", "", "nao "]) + b + (f" {ops[i]} " if i < n - 1 else "") for i, b in enumerate(B))
            yield Case(f"cadeia/logica/{n}/{k}", f"mostra {e}\n", limit=60)
            par = "".join((("(" if i % 3 == k % 3 and i < n - 1 else "") + v + (")" if (i - 1) % 3 == k % 3 and i else "") + (f" {r.choice('+-*')} " if i < n - 1 else "")) for i, v in enumerate(I))
            yield Case(f"cadeia/grupos/{n}/{k}", f"mostra {par}\n", limit=60)
        yield Case(f"cadeia/par/{n}", f"mostra {'(' * n}qi1(){' + 1)' * n}\nmostra {'-' * n}qi1()\nmostra {'nao ' * n}qb1()\nmostra {'-(' * n}qi1(){')' * n}\nmostra {'+ - ' * n}qi2()\n")
        yield Case(f"cadeia/pard/{n}", f"mostra {'(1 - ' * n}qi1(){')' * n}\nmostra {'(2 * qi3() + ' * n}1{')' * n}\n", limit=60)
        yield Case(f"cadeia/atrib/{n}", "".join(f"a{i}: {'real' if i < n // 2 else 'int'} = {i}\n" for i in range(n)) + " = ".join(f"a{i}" for i in range(n)) + " = qi1()\n" + "".join(f"mostra a{i}\n" for i in range(n)), limit=60)
        yield Case(f"cadeia/chamada/{n}", "func f(x: int): int\n mostra x\n retorna x + 1\nfim\nmostra " + "f(" * n + "qi1()" + ")" * n + "\n", limit=60)
        yield Case(f"cadeia/indice/{n}", f"v: {'[' * min(n, 8)}int{']' * min(n, 8)} = vec(int, {', '.join(['2'] * min(n, 8))})\nv{'[1]' * min(n, 8)} = qi1()\nmostra v{'[1]' * min(n, 8)}\nmostra v{'[0]' * (min(n, 8) - 1)}\n", limit=60)
        yield Case(f"cadeia/campo/{n}", "registo R0\n c: int\nfim\n" + "".join(f"registo R{i}\n c: R{i - 1}\nfim\n" for i in range(1, n)) + f"r: R{n - 1} = " + "".join(f"R{i}(c: " for i in range(n - 1, -1, -1)) + "qi1()" + ")" * n + f"\nmostra r{'.c' * n}\nr{'.c' * n} = 5\nr{'.c' * n} += qi2()\nmostra r{'.c' * n}\n")
        yield Case(f"cadeia/fstr/{n}", "mostra f'" + "".join("{qi%d()}" % i + ("" if i % 3 else "t") for i in range(n)) + "'\nmostra f'" + "a{1}{2}" * n + "'\n", limit=60)
        for form, (a, b) in {"se": ("se qb{} entao\n", "fim\n"), "senao": ("se qb{} entao\n mostra 1{}\nsenao\n", "fim\n"), "enquanto": ("enquanto qb{} faca\n", "quebra\nfim\n"), "para": ("para i{} de 0..1 faca\n", "fim\n"),
                             "escolha": ("escolha qi{}:\ncaso 1:\n", "senao:\n mostra 1\nfim\n"), "iguala": ("iguala qi{}\n 1 => faca\n", "fim,\n _ => faca\n mostra 2\n fim\nfim\n"), "mistura": (None, None)}.items():
            kinds = ["se qb{} entao\n", "para i{} de 0..2 faca\n", "enquanto qb{} faca\n"]
            for inside in (False, True):
                s, end = "", ""
                for i in range(n):
                    s += (a or r.choice(kinds)).replace("qb{}", f"qb{i}()").replace("qi{}", f"qi{i}()").replace("i{}", f"i{i}").replace("{}", str(i))
                    s += f"x{i}: int = {i}\nmostra x{i}\n" if i % 2 else f"y: int = {i}\n" if i == 0 else ""
                s += "mostra 'fundo'\nmostra y\n" + "".join(f"mostra x{i}\n" for i in range(1, n, 2))
                for i in range(n - 1, -1, -1):
                    s += f"mostra {i} + y\n" + (b or "fim\n")
                yield Case(f"fundo/{form}/{n}/{int(inside)}", (f"func f(): vazio\n{s}fim\nf()\nmostra 1\n" if inside else s + "mostra 1\n"), limit=70)
        yield Case(f"fundo/funcs/{n}", "".join(f"func f{i}(a: int, b: int): int\n c: int = a + {i}\n" + (f" c = c + f{i - 1}(c, b)\n" if i else "") + " mostra c\n retorna c - b\nfim\n" for i in range(n)) + f"mostra f{n - 1}(qi1(), 2)\n", limit=60)
        yield Case(f"fundo/recursao/{n}", f"func f(n: int, a: int): int\n b: int = a + n\n se n == 0 entao\n  retorna b\n fim\n c: int = f(n - 1, b)\n mostra c + b + n + a\n retorna c\nfim\nmostra f({n}, qi1())\n", limit=60)
        yield Case(f"fundo/valigu/{n}", "x: int = " + "".join(f"iguala qi{i}()\n 1 => " for i in range(n)) + "7" + "".join(f",\n _ => {i}\nfim" for i in range(n)) + "\nmostra x\n", limit=60)
        yield Case(f"cadeia/comp/{n}", "x: int = 1\nv: [int] = [int: 1, 2]\n" + "".join(f"x {r.choice(['+=', '-=', '*='])} {r.choice(['v[0]', 'x', 'qi1()', '3'])}\nv[{i % 2}] {r.choice(['+=', '-=', '*='])} x\n" for i in range(n)) + "mostra x\nmostra v\n", limit=60)


def short_texts():
    """every short sequence over the pieces of format texts, of plain texts, of numbers, of operators, of comments and of line ends"""
    def seqs(al, lo, hi):
        for n in range(lo, hi + 1):
            yield from itertools.product(al, repeat=n)
    def several(name, exprs, per=6):
        # accepted ones together: one schema shows several; each also has to stand alone when rejected
        exprs = list(exprs)
        for i in range(0, len(exprs), per):
            yield Case(f"{name}/{i}", "".join(f"mostra {e}\n" for e in exprs[i:i + per]))
    for q in ("'", '"'):
        yield from several(f"curto/fmt{ord(q)}", (f"f{q}{''.join(s)}{q}" for s in seqs(["{{", "}", "{1}", "a", " "], 1, 4)))
        yield from several(f"curto/txt{ord(q)}", (f"{q}{''.join(s)}{q}" for s in seqs(["\\\\", "\\n", "\\" + q, "a", "\\'" if q == '"' else '\\"', "é", "\n", "{"], 1, 3)))
        for i, s in enumerate(seqs(["{", "}", "1", "a", "\\", "{1}", q, "#"], 1, 3)):
            yield Case(f"curto/fmtmau{ord(q)}/{i}", f"mostra 1\nmostra f{q}{''.join(s)}{q}\nmostra 2\n")
        for i, s in enumerate(seqs(["\\", "a", q, "\n", "#", "f" + q], 1, 3)):
            yield Case(f"curto/txtmau{ord(q)}/{i}", f"mostra 1\nmostra {q}{''.join(s)}{q}\nmostra 2\n")
    for i, s in enumerate(seqs(["0", "1", "9", ".", "..", "_", "e", "a", "-", " "], 1, 4)):
        if len(s) < 4 or zlib.crc32(repr(s).encode()) % 8 == 0:
            yield Case(f"curto/num/{i}", f"a: int = 1\nmostra 1{''.join(s)}\nmostra 2\n")
    ops = list("=!<>+-*/%.:,;|&()[]?@{}") + ["e", "ou", "nao"]
    for i, s in enumerate(seqs(ops, 1, 3)):
        if len(s) < 3 or zlib.crc32(repr(s).encode()) % 14 == 0:
            yield Case(f"curto/op/{i}", f"x: int = 5\nmostra x {''.join(s) if i % 2 else ' '.join(s)} 2\nmostra x\n")
            yield Case(f"curto/opv/{i}", f"x: int = 5\nx {''.join(s)} 2\nmostra x\n")
    for i, s in enumerate(seqs(["\n", " ", ";", "#", "\t", "mostra 1", "\\", "fim"], 1, 4)):
        if len(s) < 4 or zlib.crc32(repr(s).encode()) % 6 == 0:
            yield Case(f"curto/linha/{i}", f"mostra 0{''.join(s)}\nmostra 2\n", lines=True)


def deep_jumps(count=260):
    """loops, conditions and matches nested up to seven deep, with jumps before, inside and after the inner ones"""
    r = random.Random(47)
    for n in range(count):
        seq = [0]
        func = n % 3 == 0

        def fresh():
            seq[0] += 1
            return seq[0]

        def jump(loop):
            k = fresh()
            j = r.choice((["quebra", "continua"] if loop else []) + (["retorna"] if func else []) or [f"mostra {k}"])
            return f"se qb{k}() entao\n{j}\nfim\n" if r.random() < .8 else f"mostra {k}\n"

        def body(d, loop):
            out = [f"mostra {fresh()}\n"]
            if d:
                if r.random() < .35 and loop:
                    out.append(jump(loop))
                for _ in range(1 if d > 2 else r.randint(1, 2)):
                    kind = r.choice(["para", "para", "enq", "se", "escolha", "iguala"])
                    k = fresh()
                    if kind == "para":
                        out.append(f"para i{k} de 0..2 faca\n{body(d - 1, True)}fim\n")
                    elif kind == "enq":
                        out.append(f"enquanto qb{k}() faca\n{body(d - 1, True)}fim\n")
                    elif kind == "se":
                        out.append(f"se qb{k}() entao\n{body(d - 1, loop)}" + (f"senao\nmostra {fresh()}\n" if r.random() < .4 else "") + "fim\n")
                    elif kind == "escolha":
                        out.append(f"escolha qi{k}():\ncaso 1:\n{body(d - 1, loop)}senao:\nmostra {fresh()}\nfim\n")
                    else:
                        out.append(f"iguala qi{k}()\n 1 => faca\n{body(d - 1, loop)}fim,\n _ => faca\nmostra {fresh()}\nfim\nfim\n")
                    if loop and r.random() < .75:
                        out.append(jump(loop))
                out.append(f"mostra {fresh()}\n")
            return "".join(out)
        d = r.randint(2, 7)
        b = f"para ext de 0..2 faca\n{body(d, True)}fim\nmostra 'f'\n" if n % 2 else f"enquanto qb0() faca\n{body(d, True)}fim\nmostra 'f'\n"
        yield Case(f"salto/{n}", f"func f(): vazio\n{b}fim\nf()\nmostra 'z'\n" if func else b, limit=24)
