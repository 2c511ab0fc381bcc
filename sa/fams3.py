"""Schema families: sequences of constructs, wide declarations, payload patterns."""
import itertools
from .cases import *
from .fams import LEAVES, NAME

# constructs that may stand before a jump or a use: (name, text with {n} a number)
BEFORE = {
    "enq": "enquanto qb{n}() faca\n mostra 1{n}\nfim\n", "para": "para k{n} de 0..1 faca\n mostra k{n}\nfim\n",
    "paraq": "para k{n} de 0..2 faca\n se qb{n}() entao\n  quebra\n fim\n mostra k{n}\nfim\n",
    "enqc": "enquanto qb{n}() faca\n se qb5() entao\n  continua\n fim\n mostra 1{n}\nfim\n",
    "se": "se qb{n}() entao\n mostra 1{n}\nsenao\n mostra 2{n}\nfim\n",
    "esc": "escolha qi{n}():\n caso 1:\n  mostra 1{n}\n senao:\n  mostra 2{n}\nfim\n",
    "ig": "iguala qi{n}()\n 1 => faca\n  mostra 1{n}\n fim,\n _ => faca\n  mostra 2{n}\n fim\nfim\n",
    "seig": "se iguala mkU() => U::B(w{n}) entao\n mostra w{n}\nfim\n",
    "igv": "g{n}: int = iguala qi{n}()\n 1 => faca\n  mostra 3\n  produz 1\n fim,\n _ => 2\nfim\nmostra g{n}\n",
    "cham": "qv{n}()\n", "met": "mostra qi{n}().dobra{n}()\n",
}
OUTER = {
    "enq": "enquanto qb1() faca\n mostra 'a'\n{s} mostra 'b'\nfim\n", "para": "para i de 0..2 faca\n mostra i\n{s} mostra 'b'\nfim\n",
    "parai": "para i de 3..9 inc 3 faca\n{s} mostra i\nfim\n", "se": "se qb1() entao\n mostra 'a'\n{s} mostra 'b'\nsenao\n mostra 'c'\nfim\n",
    "senao": "se qb1() entao\n mostra 'c'\nsenao\n{s} mostra 'b'\nfim\n", "esc": "escolha qi1():\n caso 1:\n{s} caso 2:\n  mostra 'b'\n senao:\n  mostra 'c'\nfim\n",
    "ig": "iguala qi1()\n 1 => faca\n{s}  mostra 'b'\n fim,\n _ => faca\n  mostra 'c'\n fim\nfim\n", "": "{s}",
}


def _met(t):
    return "".join(f"met int::dobra{n}(alvo): int\n retorna alvo * 2\nfim\n" for n in range(2, 5) if f"dobra{n}(" in t)


def sequences():
    """a construct, then a jump or another construct, inside an enclosing construct"""
    J = {"quebra": "se qb7() entao\n quebra\nfim\n", "continua": "se qb7() entao\n continua\nfim\n", "retorna": "se qb7() entao\n retorna\nfim\n",
         "q": "quebra\n", "c": "continua\n", "r": "retorna\n"}
    for (o, O), (b, B), (j, s) in itertools.product(OUTER.items(), BEFORE.items(), J.items()):
        if j in ("quebra", "continua", "q", "c") and o not in ("enq", "para", "parai"):
            continue
        if j == "r" and o in ("enq", "para"):
            continue
        body = O.format(s=ind(B.format(n=2) + s, 1 if o else 0) if o else B.format(n=2) + s) + "mostra 'z'\n"
        if "retorna" in s:
            yield Case(f"seq/func/{o}/{b}/{j}", _met(body) + wrap("func", body))
            continue
        yield Case(f"seq/topo/{o}/{b}/{j}", _met(body) + body)
        yield Case(f"seq/func/{o}/{b}/{j}", _met(body) + wrap("param", body))
    for (o, O), (a, A), (b, B) in itertools.product(OUTER.items(), BEFORE.items(), BEFORE.items()):
        body = O.format(s=ind(A.format(n=2) + B.format(n=3))) + "mostra 'z'\n"
        yield Case(f"seq/dois/{o}/{a}/{b}", _met(body) + (wrap("func", body) if (len(a) + len(b) + len(o)) % 2 else body))


def jumps_after():
    """a jump that stands after the end of a loop, in every place outside one"""
    for j in ("quebra", "continua"):
        for l, L in (("enq", "enquanto falso faca\n mostra 1\nfim\n"), ("para", "para i de 0..2 faca\n mostra 1\nfim\n"),
                     ("enq2", "enquanto falso faca\n para i de 0..2 faca\n  mostra 1\n fim\nfim\n"), ("par2", "para i de 0..2 faca\n enquanto falso faca\n  mostra 1\n fim\nfim\n"),
                     ("enqq", "enquanto verdadeiro faca\n quebra\nfim\n"), ("vazio", "enquanto falso faca\nfim\n")):
            for p, P in (("", "{s}"), ("se", "se qb1() entao\n{s}fim\n"), ("ig", "iguala qi1()\n 1 => faca\n{s} fim,\n _ => faca\n fim\nfim\n"),
                         ("esc", "escolha qi1():\n caso 1:\n{s}fim\n")):
                for c, C in (("topo", "{s}"), ("func", "func ff()\n{s}fim\nff()\n"), ("met", "registo R\n a: int\nfim\nmet R::m(alvo)\n{s}fim\nR(a: 1).m()\n")):
                    yield Case(f"apos/{j}/{l}/{p}/{c}", C.format(s=ind(L + P.format(s=ind(j + "\n")))))
                    yield Case(f"apos/dentro/{j}/{l}/{p}/{c}", C.format(s=ind(P.format(s=ind(L + j + "\n")))))
        yield Case(f"apos/{j}/funcemlaco", f"func f()\n se qb1() entao\n  {j}\n fim\nfim\nenquanto qb2() faca\n f()\nfim\n")
        yield Case(f"apos/{j}/funclaco", f"func g()\n enquanto qb1() faca\n  mostra 1\n fim\nfim\nfunc f()\n {j}\nfim\n")


def wide():
    """declarations and calls with many parts: each part keeps its own place"""
    for n in (3, 4, 5, 6, 8, 12):
        T = ["int", "texto", "real", "bool"]
        ty = [T[(i * i + i // 3) % 4] for i in range(n)]
        names = [f"p{i}" for i in range(n)]
        vals = [f"q{ty[i][0]}{i}()" for i in range(n)]
        shows = "".join(f"mostra {x}\n" for x in reversed(names))
        yield Case(f"largo/func/{n}", f"func ff({', '.join(f'{a}: {t}' for a, t in zip(names, ty))})\n{ind(shows)}fim\nff({', '.join(vals)})\n")
        yield Case(f"largo/funclocal/{n}", f"func ff({', '.join(f'{a}: {t}' for a, t in zip(names, ty))})\n l1: int = 3\n se qb1() entao\n  l2: texto = 'x'\n  mostra l2\n fim\n{ind(shows)} mostra l1\nfim\nff({', '.join(vals)})\n")
        yield Case(f"largo/met/{n}", f"registo R\n z: int\nfim\nmet R::ff(alvo, {', '.join(f'{a}: {t}' for a, t in zip(names, ty))})\n{ind(shows)} mostra alvo.z\nfim\nR(z: qi9()).ff({', '.join(vals)})\n")
        fld = "".join(f" {a}: {t}\n" for a, t in zip(names, ty))
        yield Case(f"largo/reg/{n}", f"registo R\n{fld}fim\nr: R = R({', '.join(f'{a}: {v}' for a, v in zip(names, vals))})\n" + "".join(f"mostra r.{a}\n" for a in reversed(names)) + f"r.p1 = qt9()\nr.p{n - 1} = {vals[-1]}\n" + "".join(f"mostra r.{a}\n" for a in names))
        yield Case(f"largo/regrev/{n}", f"registo R\n{fld}fim\nr: R = R({', '.join(f'{a}: {v}' for a, v in reversed(list(zip(names, vals))))})\n" + "".join(f"mostra r.{a}\n" for a in names))
        yield Case(f"largo/variante/{n}", f"uniao V\n A, K({', '.join(ty)}), B(int)\nfim\nv: V = V::K({', '.join(vals)})\niguala v\n V::K({', '.join(names)}) => faca\n{ind(shows, 2)} fim,\n _ => faca\n  mostra 0\n fim\nfim\n")
        yield Case(f"largo/uniao/{n}", "uniao V\n " + ", ".join(f"A{i}" + ("" if i % 2 else "(int)") for i in range(n)) + "\nfim\nfunc fa(v: V)\n iguala v\n" + ",\n".join(
            f"  V::A{i}" + ("" if i % 2 else "(x)") + f" => faca\n   mostra {i + 10}\n" + ("" if i % 2 else "   mostra x\n") + "  fim" for i in range(n)) + "\n fim\nfim\n" +
            "".join(f"fa(V::A{i}" + ("" if i % 2 else f"(qi{i}())") + ")\n" for i in range(n)))
        yield Case(f"largo/uniaoperm/{n}", "uniao V\n " + ", ".join(f"A{i}" + ("" if i % 2 else "(int)") for i in range(n)) + "\nfim\nfunc fa(v: V): int\n retorna iguala v\n" + ",\n".join(
            f"  V::A{i}" + ("" if i % 2 else "(x)") + " => " + (str(i) if i % 2 else "x") for i in [*range(1, n, 2), *range(n - 1 - (n - 1) % 2, -1, -2)]) + "\n fim\nfim\n" +
            "".join(f"mostra fa(V::A{i}" + ("" if i % 2 else f"(qi{i}())") + ")\n" for i in range(n)))
        yield Case(f"largo/vec/{n}", f"v: [int] = [int: {', '.join(f'qi{i}()' for i in range(n))}]\nv[{n - 1}] = 5\n" + "".join(f"mostra v[{i}]\n" for i in range(n)))
        yield Case(f"largo/esc/{n}", "escolha qi1():\n" + "".join(f" caso {i}:\n  mostra {i + 10}\n" for i in range(n)) + " senao:\n  mostra 9\nfim\nmostra 8\n")
        yield Case(f"largo/ig/{n}", "iguala qi1()\n" + "".join(f" {i} => faca\n  mostra {i + 10}\n fim,\n" for i in range(n)) + " _ => faca\n  mostra 9\n fim\nfim\nmostra 8\n", limit=60)
        yield Case(f"largo/se/{n}", "se qb0() entao\n mostra 0\n" + "".join(f"senaose qb{i}() entao\n mostra {i + 10}\n" for i in range(1, n)) + "senao\n mostra 9\nfim\nmostra 8\n", limit=60)
        yield Case(f"largo/fstr/{n}", "mostra f\"" + "".join(f"{i}{{qi{i}()}}" for i in range(n)) + "\"\n")
        yield Case(f"largo/funcs/{n}", "".join(f"func f{i}(a: int): int\n b: int = a + {i}\n retorna b\nfim\n" for i in range(n)) + "mostra " + " + ".join(f"f{i}(qi{i}())" for i in range(n)) + "\n")
        yield Case(f"largo/globais/{n}", "".join(f"g{i}: int = qi{i}()\n" for i in range(n)) + "func m()\n" + "".join(f" g{i} = g{(i + 1) % n} + {i}\n" for i in range(n)) + "fim\nm()\n" + "".join(f"mostra g{i}\n" for i in range(n)))
    for a in (255, 256, 257, 300):
        yield Case(f"largo/consts/{a}", "x: int = 0\n" + "".join(f"x = {i}\n" for i in range(1000, 1000 + a)) + "mostra x\nmostra 77\n")
        yield Case(f"largo/nomes/{a}", "".join(f"n{i}: int = {i % 9}\n" for i in range(a)) + f"mostra n0\nmostra n{a // 2}\nmostra n{a - 1}\nn3 = 5\nmostra n3\nmostra n4\n")
    for a in (40, 90):
        yield Case(f"largo/salto/{a}", "se qb1() entao\n" + "".join(f" mostra {i} + {i + 1} * qi1()\n" for i in range(a)) + "senao\n mostra 1\nfim\nmostra 2\nenquanto qb2() faca\n" + "".join(f" mostra {i} - qi2()\n" for i in range(a)) + "fim\nmostra 3\n", limit=10)


PROM = [("int", "real", "qi1()", "2.5"), ("int", "real", "7", "2.5"), ("int", "int?", "qi1()", "nulo"), ("real", "real?", "qr1()", "nulo"), ("int", "real?", "qi1()", "nulo"), ("int", "indef", "qi1()", "'a'"),
        ("[int]", "[int]", "[int: 1]", "[int: 2]"), ("texto", "texto?", "qt1()", "nulo")]


def promotions():
    """each position of each form that takes several values, given a value that needs conversion"""
    for n in (1, 2, 3):
        for pos in range(n):
            for a, b, e, z in PROM:
                other = ["texto", "int", "bool"]
                ty = [b if i == pos else other[i] for i in range(n)]
                val = [e if i == pos else f"q{other[i][0]}{i + 4}()" for i in range(n)]
                nm = [f"p{i}" for i in range(n)]
                sh = "mostra 'x'\n" if b == "indef" and False else ""
                use = {"real?": "se p{0} != nulo entao\n mostra p{0}.valor\nfim\n", "int?": "mostra p{0}.valor_ou(3)\n", "texto?": "mostra p{0}.valor\n", "[int]": "mostra p{0}[0]\n"}.get(b, "mostra p{0}\n")
                shows = "".join((use.format(i) if i == pos else f"mostra p{i}\n") for i in range(n))
                fld = lambda r: shows.replace("p", r + ".p") if False else "".join((use.format(i) if i == pos else f"mostra p{i}\n").replace(f"p{i}", f"{r}.p{i}") for i in range(n))
                t = f"{n}/{pos}/{a}.{b}/{'k' if e[0].isdigit() else 'q'}"
                sig = ", ".join(f"{x}: {y}" for x, y in zip(nm, ty))
                yield Case(f"promo/func/{t}", f"func ff({sig})\n{ind(shows)}fim\nff({', '.join(val)})\n")
                yield Case(f"promo/met/{t}", f"registo R\n z: int\nfim\nmet R::mm(alvo, {sig})\n{ind(shows)}fim\nR(z: 1).mm({', '.join(val)})\n")
                yield Case(f"promo/variante/{t}", f"uniao V\n A, K({', '.join(ty)})\nfim\niguala V::K({', '.join(val)})\n V::K({', '.join(nm)}) => faca\n{ind(shows, 2)} fim,\n _ => faca\n  mostra 0\n fim\nfim\n")
                yield Case(f"promo/reg/{t}", f"registo R\n{''.join(f' {x}: {y}' + chr(10) for x, y in zip(nm, ty))}fim\nr: R = R({', '.join(f'{x}: {v}' for x, v in reversed(list(zip(nm, val))))})\n{fld('r')}")
                if pos == 0:
                    vs = [e] * n
                    vs[-1] = z
                    yield Case(f"promo/vec/{t}", f"v: [{b}] = [{b}: {', '.join(vs)}]\n" + (f"mostra tam(v)\n" if b in ("indef",) else "") + "".join(use.replace("p{0}", f"v[{i}]") for i in range(n - 1)))
                    yield Case(f"promo/vecr/{t}", f"v: [{b}] = [{b}: {', '.join(reversed(vs))}]\n" + "".join(use.replace("p{0}", f"v[{i}]") for i in range(1, n)))
    for a, b, e, z in PROM:
        t = f"{a}.{b}/{'k' if e[0].isdigit() else 'q'}"
        use = {"real?": "mostra p.valor\n", "int?": "mostra p.valor_ou(3)\n", "texto?": "mostra p.valor\n", "[int]": "mostra p[0]\n"}.get(b, "mostra p\n")
        for n, s in (("local", f"func ff()\n p: {b} = {e}\n{ind(use)}fim\nff()\n"), ("atriblocal", f"func ff()\n p: {b} = {z}\n p = {e}\n{ind(use)}fim\nff()\n"), ("bloco", f"se qb1() entao\n p: {b} = {e}\n{ind(use)}fim\n"),
                     ("ret", f"func ff(): {b}\n se qb1() entao\n  retorna {e}\n fim\n retorna {z}\nfim\np: {b} = ff()\nmostra 'r'\n"), ("retmet", f"registo R\n z: int\nfim\nmet R::mm(alvo): {b}\n retorna {e}\nfim\np: {b} = R(z: 1).mm()\n{use}"),
                     ("cadeia", f"p: {b} = {z}\nw: {b} = {z}\nw = p = {e}\n{use}"), ("campo", f"registo R\n a: int\n p: {b}\nfim\nr: R = R(a: 1, p: {z})\nr.p = {e}\np: {b} = r.p\n{use}"),
                     ("elem", f"v: [{b}] = [{b}: {z}, {z}]\nv[1] = {e}\np: {b} = v[1]\n{use}"), ("anexa", f"v: [{b}] = [{b}: {z}]\nanexa(v, {e})\np: {b} = v[1]\n{use}"), ("elem2", f"v: [[{b}]] = [[{b}]: [{b}: {z}], [{b}: {e}]]\nv[0][0] = {e}\np: {b} = v[0][0]\n{use}"),
                     ("iguala", f"p: {b} = iguala qi7()\n 1 => {e},\n _ => {e}\nfim\n{use}"), ("recur", f"func ff(n: int, p: {b}): int\n se n == 0 entao\n {ind(use)} retorna 1\n fim\n retorna ff(n - 1, {e})\nfim\nmostra ff(1, {z})\n")):
            yield Case(f"promo/um/{n}/{t}", s)
    for o in ("+", "-", "*", "/", "<", "<=", ">", ">=", "==", "!="):
        for x, y in (("qi1()", "qr2()"), ("qr1()", "qi2()"), ("3", "qr2()"), ("qr1()", "3"), ("qi1()", "2.5"), ("qi1()", "qi2()"), ("qr1()", "qr2()")):
            yield Case(f"promo/op/{NAME[o]}/{x}.{y}".replace("()", ""), f"mostra {x} {o} {y}\n")
            yield Case(f"promo/opp/{NAME[o]}/{x}.{y}".replace("()", ""), f"func ff(a: int, b: real)\n mostra (a {o} b) == (b {o} a)\n mostra ({x} {o} {y}) == ({y} {o} {x})\nfim\nff(qi3(), qr4())\n")


def payload_patterns():
    """patterns nested in parts that carry values"""
    D = "uniao D\n X(int), Y(int, texto), Z\nfim\nuniao T\n P(D, D), Q(int, D), N\nfim\n"
    mk = ("func mkD(n: int): D\n se qb6() entao\n  retorna D::X(n)\n senaose qb7() entao\n  retorna D::Y(n, qt1())\n fim\n retorna D::Z\nfim\n"
          "func mk(): T\n se qb8() entao\n  retorna T::P(mkD(qi1()), mkD(qi2()))\n senaose qb9() entao\n  retorna T::Q(qi3(), mkD(qi4()))\n fim\n retorna T::N\nfim\n")
    P = [("T::P(D::X(a), D::X(b))", "ab"), ("T::P(D::X(a), D::Y(b, c))", "abc"), ("T::P(D::Y(a, b), D::X(c))", "abc"), ("T::P(D::X(1), _)", ""), ("T::P(a, D::Z)", ""), ("T::P(D::Z, D::X(2))", ""), ("T::P(D::Y(1, 'a'), D::Y(2, 'b'))", ""),
         ("T::Q(1, D::X(a))", "a"), ("T::Q(a, D::Y(b, _))", "ab"), ("T::Q(a, b)", "a"), ("T::P(a, b)", ""), ("T::N", ""), ("_", ""), ("x", ""), ("T::P(D::X(_), D::X(b))", "b"), ("T::P(_, D::X(b))", "b"), ("T::Q(_, D::X(_))", "")]
    sets = [[i, 12] for i in range(len(P)) if i not in (12, 13)] + [[a, b, 12] for a in range(9) for b in range(11) if a != b] + [
        [0, 1, 2, 7, 8, 12], [3, 0, 10, 9, 11], [4, 5, 6, 10, 7, 9, 13], [15, 14, 0, 10, 9, 11], [6, 1, 0, 10, 7, 9, 11], [16, 9, 10, 11], [8, 7, 9, 11, 10], [0, 10, 9], [7, 8, 11, 10], [2, 2, 12], [5, 4, 3, 13], [1, 15, 4, 10, 16, 9, 11]]
    for c in sets:
        arms = ",\n".join(f" {P[i][0]} => faca\n  mostra {k + 1}\n" + "".join(f"  mostra {v}\n" for v in P[i][1]) + " fim" for k, i in enumerate(c))
        yield Case(f"ig/carga/{'.'.join(map(str, c))}", D + mk + f"v: T = mk()\niguala v\n{arms}\nfim\nmostra 'd'\n", limit=60)
    for i, (p, vs) in enumerate(P):
        if i in (12, 13):
            continue
        body = "".join(f"  mostra {v}\n" for v in vs)
        yield Case(f"ig/carga/se/{i}", D + mk + f"func f(v: T, k: int)\n se iguala v => {p} entao\n  mostra 1\n{body} senao\n  mostra 2\n fim\n mostra k\nfim\nf(mk(), qi5())\n", limit=60)
        yield Case(f"ig/carga/seqq/{i}", D + mk + f"v: T = mk()\nse qb1() entao\n mostra 0\nsenao\n se iguala v => {p} entao\n  mostra 1\n{body} fim\nfim\n", limit=60)
