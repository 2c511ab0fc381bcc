"""Schema families: names, declarations, functions, matching, records, unions, locals, vectors, modules."""
import itertools
from .cases import *
from .fams import NAME, split_decls

# ------------------------------------------------------------------- names
# declarations of the name x: (name, text)
DECLS = {
    "var": "x: int = 1\n", "vart": "x: texto = 'a'\n", "func": "func x(): int\n retorna 1\nfim\n", "reg": "registo x\n a: int\nfim\n",
    "uni": "uniao x\n A, B(int)\nfim\n", "multi": "x, y: int\n", "para": "para x de 0..2 faca\n mostra 1\nfim\n",
}
USES = {
    "ler": "mostra x\n", "soma": "mostra x + 1\n", "chama": "mostra x()\n", "atrib": "x = 5\nmostra x\n", "tipo": "func us(p: x)\n mostra 1\nfim\n",
    "init": "x(a: 1)\n", "variante": "x::A\n", "fstr": "mostra f\"{x}\"\n", "comp": "x += 2\nmostra x\n", "idx": "mostra x[0]\n",
}


def names_use():
    """each kind of declaration against each kind of use, before and after it, at each level"""
    for d, u in itertools.product(DECLS, USES):
        D, U = DECLS[d], USES[u]
        yield Case(f"nome/depois/{d}/{u}", D + U)
        yield Case(f"nome/antes/{d}/{u}", U + D)
        if u == "tipo":
            continue
        yield Case(f"nome/emfunc/{d}/{u}", D + "func ff()\n" + ind(U) + "fim\nff()\n")
        yield Case(f"nome/funcantes/{d}/{u}", "func ff()\n" + ind(U) + "fim\n" + D + "ff()\n")
        yield Case(f"nome/embloco/{d}/{u}", D + "se qb1() entao\n" + ind(U) + "fim\n")
        if d in ("var", "vart", "multi", "para"):
            yield Case(f"nome/local/{d}/{u}", "func ff()\n" + ind(D + U) + "fim\nff()\n")
            yield Case(f"nome/foradobloco/{d}/{u}", "se qb1() entao\n" + ind(D) + "fim\n" + U)
            yield Case(f"nome/foradafunc/{d}/{u}", "func ff()\n" + ind(D) + "fim\n" + U)
            yield Case(f"nome/outrafunc/{d}/{u}", "func ff()\n" + ind(D) + "fim\nfunc gg()\n" + ind(U) + "fim\ngg()\n")
            yield Case(f"nome/blocoirmao/{d}/{u}", "se qb1() entao\n" + ind(D) + "senao\n" + ind(U) + "fim\n")
            yield Case(f"nome/aninhado/{d}/{u}", "func ff()\n" + ind(D + "enquanto qb1() faca\n se qb2() entao\n" + ind(U, 2) + " fim\nfim\n") + "fim\nff()\n")


# places that introduce x as an int, with the use {u} inside
INTRO = {
    "param": "func ff(x: int)\n{u}fim\nff(7)\n", "para": "para x de 7..9 faca\n{u}fim\n", "parafunc": "func ff()\n para x de 7..9 faca\n {u} fim\nfim\nff()\n",
    "ligacao": "uniao V\n K(int)\nfim\nk: V = V::K(7)\niguala k\n V::K(x) => faca\n  {u} fim\nfim\n",
    "ligatudo": "iguala 7\n x => faca\n  {u} fim\nfim\n", "seiguala": "uniao V\n K(int)\nfim\nk: V = V::K(7)\nse iguala k => V::K(x) entao\n {u}fim\n",
    "parammet": "registo R\n a: int\nfim\nmet R::m(alvo, x: int)\n{u}fim\nR(a: 1).m(7)\n", "local": "func ff()\n x: int = 7\n {u}fim\nff()\n",
    "bloco": "se qb1() entao\n x: int = 7\n {u}fim\n", "mod": "",
}


def shadowing():
    for i, t in INTRO.items():
        if not t:
            continue
        for g, G in (("", ""), ("global", "x: int = 1\n"), ("texto", "x: texto = 'g'\n"), ("func", "func x(): int\n retorna 3\nfim\n")):
            for un, u in (("ler", "mostra x\n"), ("atrib", "x = x + 1\nmostra x\n"), ("redecl", "x: int = 2\nmostra x\n"),
                          ("interno", "se qb2() entao\n  x: texto = 'i'\n  mostra x\n fim\n mostra x\n")):
                after = "mostra x\n" if g in ("global", "texto") else "mostra x()\n" if g == "func" else ""
                yield Case(f"sombra/{i}/{g or 'nada'}/{un}", G + t.format(u=" " + u) + after)
        yield Case(f"sombra/{i}/fora/ler", t.format(u=" mostra x\n") + "mostra x\n")


def redeclare():
    """the same name declared twice in one scope"""
    for a, b in itertools.product(DECLS, repeat=2):
        yield Case(f"redecl/topo/{a}/{b}", DECLS[a] + DECLS[b] + "mostra 1\n")
    L = [k for k in ("var", "vart", "multi", "para")]
    for a, b in itertools.product(L, repeat=2):
        yield Case(f"redecl/local/{a}/{b}", "func ff()\n" + ind(DECLS[a] + DECLS[b]) + " mostra 1\nfim\nff()\n")
        yield Case(f"redecl/bloco/{a}/{b}", "func ff()\n" + ind(DECLS[a]) + " se qb1() entao\n" + ind(DECLS[b], 2) + " fim\n mostra 1\nfim\nff()\n")
        yield Case(f"redecl/param/{a}/{b}", "func ff(x: int)\n" + ind(DECLS[b]) + " mostra x\nfim\nff(1)\n") if a == "var" else \
            Case(f"redecl/irmaos/{a}/{b}", "se qb1() entao\n" + ind(DECLS[a]) + "fim\nse qb2() entao\n" + ind(DECLS[b]) + "fim\nmostra 2\n")
    for n in ("int", "real", "texto", "bool", "tam", "vec", "leia", "escreva", "Opcao", "anexa", "remova", "indef", "vazio"):
        yield Case(f"redecl/embutido/var/{n}", f"{n}: int = 1\nmostra 1\n")
        yield Case(f"redecl/embutido/func/{n}", f"func {n}()\n mostra 1\nfim\n")
        yield Case(f"redecl/embutido/reg/{n}", f"registo {n}\n a: int\nfim\n")
        yield Case(f"redecl/embutido/uni/{n}", f"uniao {n}\n A\nfim\n")
        if n != "Opcao":
            yield Case(f"redecl/embutido/local/{n}", f"func ff()\n {n}: int = 1\n mostra 2\nfim\nff()\n")
    yield Case("redecl/params", "func ff(a: int, a: int)\n mostra 1\nfim\n")
    yield Case("redecl/params3", "func ff(a: int, b: texto, a: texto)\n mostra 1\nfim\n")
    yield Case("redecl/paramsmet", "registo R\n a: int\nfim\nmet R::m(alvo, a: int, a: int)\n mostra 1\nfim\n")
    yield Case("redecl/campos", "registo R\n a: int\n b: int\n a: texto\nfim\n")
    yield Case("redecl/camposmulti", "registo R\n a, b, a: int\nfim\n")
    yield Case("redecl/variantes", "uniao V\n A, B, A\nfim\n")
    yield Case("redecl/variantes2", "uniao V\n A, A(int)\nfim\n")
    yield Case("redecl/metodo", "registo R\n a: int\nfim\nmet R::m(alvo)\n mostra 1\nfim\nmet R::m(alvo)\n mostra 2\nfim\n")
    yield Case("redecl/metodocampo", "registo R\n a: int\nfim\nmet R::a(alvo)\n mostra 1\nfim\n")
    yield Case("redecl/metodo2", "registo R\n a: int\nfim\nregisto S\n a: int\nfim\nmet R::m(alvo)\n mostra 1\nfim\nmet S::m(alvo)\n mostra 2\nfim\nR(a: 1).m()\nS(a: 1).m()\n")
    yield Case("redecl/campovar", "a: int = 4\nregisto R\n a: int\nfim\nr: R = R(a: 5)\nmostra r.a\nmostra a\n")
    yield Case("redecl/metfunc", "registo R\n a: int\nfim\nmet R::m(alvo)\n mostra 1\nfim\nfunc m()\n mostra 2\nfim\nR(a: 1).m()\nm()\n")
    yield Case("redecl/metvar", "m: int = 3\nregisto R\n a: int\nfim\nmet R::m(alvo)\n mostra 1\nfim\nR(a: 1).m()\nmostra m\n")
    yield Case("redecl/variantefunc", "uniao V\n A\nfim\nfunc A()\n mostra 2\nfim\nA()\n")
    yield Case("redecl/uniao2", "uniao V\n A, B\nfim\nuniao W\n A, B(int)\nfim\niguala V::B\n V::A => faca\n mostra 1\n fim,\n V::B => faca\n mostra 2\n fim\nfim\niguala W::B(3)\n W::A => faca\n mostra 1\n fim,\n W::B(z) => faca\n mostra z\n fim\nfim\n")


def declarations():
    """what may be declared where, and with which limits"""
    D = {"func": "func g()\n mostra 1\nfim\n", "met": "met int::g(alvo)\n mostra 1\nfim\n", "registo": "registo G\n a: int\nfim\n", "uniao": "uniao G\n A\nfim\n", "usa": "usa \"mat\" => m\n"}
    for k, d in D.items():
        yield Case(f"decl/topo/{k}", d + "mostra 2\n")
        if k in ("registo", "uniao", "usa"):
            continue
        yield Case(f"decl/emfunc/{k}", "func ff()\n" + ind(d) + "fim\n")
        yield Case(f"decl/emse/{k}", "se qb1() entao\n" + ind(d) + "fim\n")
        yield Case(f"decl/emenquanto/{k}", "enquanto qb1() faca\n" + ind(d) + "fim\n")
        yield Case(f"decl/emmet/{k}", "registo R\n a: int\nfim\nmet R::m(alvo)\n" + ind(d) + "fim\n")
    for n in (0, 1, 2, 5, 254, 255, 256, 257):
        ps = ", ".join(f"a{i}: int" for i in range(n))
        yield Case(f"decl/nparams/{n}", f"func ff({ps})\n mostra 1\nfim\n")
    for n in (1, 3, 200, 255):
        yield Case(f"decl/nargs/{n}", "func ff(" + ", ".join(f"a{i}: int" for i in range(n)) + f")\n mostra a{n - 1}\n mostra a0\nfim\nff(" + ", ".join(str(i + 3) for i in range(n)) + ")\n")
    for t in ("int", "real", "bool", "texto", "int?", "[int]", "R", "V", "indef", "naoha", "vazio", "nulo", "qi1", "R?", "[R]", "[[int]]", "[texto?]"):
        pre = "registo R\n a: int\nfim\nuniao V\n A\nfim\n" if t[:1] in "RV[" else ""
        yield Case(f"decl/seminit/{t}", pre + f"x: {t}\nmostra 1\n" + ("mostra x\n" if t in ("int", "real", "bool", "texto") else "") + ("qi1()\n" if t == "qi1" else ""))
        yield Case(f"decl/param/{t}", pre + f"func ff(x: {t})\n mostra 1\nfim\n" + ("qi1()\n" if t == "qi1" else ""))
        yield Case(f"decl/campo/{t}", pre + f"registo S\n x: {t}\n y: int\nfim\n" + ("qi1()\n" if t == "qi1" else ""))
        yield Case(f"decl/variante/{t}", pre + f"uniao W\n K({t}, int)\nfim\n" + ("qi1()\n" if t == "qi1" else ""))
        yield Case(f"decl/vec/{t}", pre + f"x: [{t}] = [{t}:]\nmostra tam(x)\n" + ("qi1()\n" if t == "qi1" else ""))
        yield Case(f"decl/semlocal/{t}", pre + f"func ff()\n x: {t}\n mostra 1\n" + (" mostra x\n" if t in ("int", "real", "bool", "texto") else "") + "fim\nff()\n" + ("qi1()\n" if t == "qi1" else ""))
    for n in (1, 2, 3, 7):
        vs = ", ".join(f"v{i}" for i in range(n))
        yield Case(f"decl/multi/{n}", f"{vs}: int\n" + "".join(f"v{i} = {i + 4}\n" for i in range(n)) + "".join(f"mostra v{i}\n" for i in range(n)))
        yield Case(f"decl/multilocal/{n}", f"func ff()\n {vs}: int\n" + "".join(f" v{i} = {i + 4}\n" for i in range(n)) + "".join(f" mostra v{i}\n" for i in range(n)) + "fim\nff()\n")
    yield Case("decl/self", "x: int = x + 1\n")
    yield Case("decl/self2", "x: int = qi1() + x\n")
    yield Case("decl/self3", "func ff(x: int): int\n retorna x\nfim\nx: int = 1\ny: int = ff(y)\n")
    yield Case("decl/self4", "x: int = 3\nfunc ff()\n x: int = x\n mostra x\nfim\nff()\n")
    yield Case("decl/self5", "x: texto = f\"{x}\"\n")
    yield Case("decl/self6", "registo R\n x: int\nfim\nr: R = R(x: 3)\nx: int = r.x\nmostra x\n")
    yield Case("decl/self7", "registo R\n x: int\nfim\nx: R = R(x: 3)\nmostra x.x\n")
    yield Case("decl/self8", "uniao V\n K(int)\nfim\nv: V = V::K(3)\nx: int = iguala v\n V::K(x) => x\nfim\nmostra x\n")
    yield Case("decl/recreg", "registo N\n v: int\n p: N?\nfim\na: N = N(v: 1, p: nulo)\nb: N = N(v: 2, p: a)\nmostra b.p.valor.v\nmostra b.v\n")
    yield Case("decl/recuni", "uniao L\n F, N(int, L)\nfim\na: L = L::N(4, L::N(5, L::F))\niguala a\n L::N(x, L::N(y, _)) => faca\n mostra x\n mostra y\n fim,\n _ => faca\n mostra 0\n fim\nfim\n")
    yield Case("decl/mutua", "registo A\n b: B?\nfim\nregisto B\n a: A?\nfim\n")
    yield Case("decl/funcvaz", "func f()\nfim\nf()\nmostra 1\n")
    yield Case("decl/regvaz", "registo R\nfim\nr: R = R()\nmostra 1\n")


# ------------------------------------------------------------- returns, jumps
def _ret_stmts(depth):
    if depth == 0:
        return {"ret": "retorna 1\n", "mos": "mostra 1\n"}
    sub = _ret_stmts(depth - 1)
    out = dict(_ret_stmts(0))
    for a, A in sub.items():
        out[f"se({a})"] = f"se qb1() entao\n{ind(A)}fim\n"
        out[f"enq({a})"] = f"enquanto qb1() faca\n{ind(A)}fim\n"
        out[f"para({a})"] = f"para i de 0..2 faca\n{ind(A)}fim\n"
        out[f"esc({a})"] = f"escolha qi1():\n caso 1:\n{ind(A, 2)} senao:\n{ind(A, 2)}fim\n"
        out[f"seig({a})"] = f"se iguala qi1() => 1 entao\n{ind(A)}senao\n{ind(A)}fim\n"
        for b, B in sub.items():
            out[f"sn({a},{b})"] = f"se qb1() entao\n{ind(A)}senao\n{ind(B)}fim\n"
            out[f"ig({a},{b})"] = f"iguala qi1()\n 1 => faca\n{ind(A, 2)} fim,\n _ => faca\n{ind(B, 2)} fim\nfim\n"
            if depth == 1:
                for c, C in sub.items():
                    out[f"s3({a},{b},{c})"] = f"se qb1() entao\n{ind(A)}senaose qb2() entao\n{ind(B)}senao\n{ind(C)}fim\n"
                    out[f"i3({a},{b},{c})"] = (f"iguala mkU()\n U::A => faca\n{ind(A, 2)} fim,\n U::B(_) => faca\n{ind(B, 2)} fim,\n"
                                               f" U::C(_, z) => faca\n{ind(C, 2)} fim\nfim\n")
                out[f"s2({a},{b})"] = f"se qb1() entao\n{ind(A)}senaose qb2() entao\n{ind(B)}fim\n"
    return out


def returns(depth=2):
    seen = set()
    for n, body in _ret_stmts(depth).items():
        if n in seen:
            continue
        seen.add(n)
        yield Case(f"retorno/{n}", "func ff(): int\n" + ind(body) + "fim\nmostra ff()\nmostra 'd'\n")
        if n.count("(") == 1:
            yield Case(f"retorno/ant/{n}", "func ff(): int\n mostra 0\n" + ind(body) + "fim\nmostra ff()\nmostra 'd'\n")
            yield Case(f"retorno/dep/{n}", "func ff(): int\n" + ind(body) + " retorna 9\nfim\nmostra ff()\nmostra 'd'\n")
            yield Case(f"retorno/met/{n}", "registo R\n a: int\nfim\nmet R::m(alvo): int\n" + ind(body) + "fim\nmostra R(a: 1).m()\nmostra 'd'\n")
            yield Case(f"retorno/vazio/{n}", "func ff()\n" + ind(body.replace("retorna 1", "retorna")) + "fim\nff()\nmostra 'd'\n")
            yield Case(f"retorno/valvazio/{n}", "func ff()\n" + ind(body) + "fim\nff()\n")
            yield Case(f"retorno/semval/{n}", "func ff(): int\n" + ind(body.replace("retorna 1", "retorna")) + " retorna 1\nfim\nmostra ff()\n")


BLOCKS = {
    "topo": "{s}", "func": "func ff()\n{s}fim\nff()\n", "met": "registo R\n a: int\nfim\nmet R::m(alvo)\n{s}fim\nR(a: 1).m()\n",
    "se": "se qb1() entao\n{s}fim\n", "senao": "se qb1() entao\n mostra 7\nsenao\n{s}fim\n", "senaose": "se qb1() entao\n mostra 7\nsenaose qb2() entao\n{s}fim\n",
    "enquanto": "enquanto qb1() faca\n{s}fim\n", "para": "para i de 0..3 faca\n{s}fim\n", "caso": "escolha qi1():\n caso 1:\n{s}fim\n",
    "escsenao": "escolha qi1():\n caso 1:\n  mostra 7\n senao:\n{s}fim\n", "braco": "iguala qi1()\n 1 => faca\n{s} fim,\n _ => faca\n mostra 7\n fim\nfim\n",
    "seiguala": "se iguala qi1() => 1 entao\n{s}fim\n", "seigsenao": "se iguala qi1() => 1 entao\n mostra 7\nsenao\n{s}fim\n",
}


def jumps():
    """quebra, continua, retorna, produz, alvo in every pair of enclosing blocks"""
    J = {"quebra": "quebra\n", "continua": "continua\n", "retorna": "retorna\n", "produz": "produz 1\n", "alvo": "mostra alvo.a\n", "retval": "retorna 1\n"}
    nest = [(a,) for a in BLOCKS] + [(a, b) for a in BLOCKS for b in BLOCKS if a != "topo" and b not in ("topo", "func", "met")]
    for ns in nest:
        for j, s in J.items():
            if ns == ("func",) and j == "retval":
                continue
            t = f"mostra 1\n{s}"
            for b in reversed(ns):
                t = BLOCKS[b].format(s=ind(t))
            yield Case(f"salto/{j}/{'>'.join(ns)}", t + "mostra 9\n")
    for j in ("quebra", "continua"):
        yield Case(f"salto/{j}/depois", f"enquanto qb1() faca\n mostra 1\nfim\n{j}\n")
        yield Case(f"salto/{j}/depoispara", f"para i de 0..2 faca\n mostra 1\nfim\n{j}\n")
        yield Case(f"salto/{j}/depoisinterno", f"enquanto qb1() faca\n para i de 0..2 faca\n  mostra 1\n fim\n {j}\n mostra 2\nfim\nmostra 3\n")
        yield Case(f"salto/{j}/funcdepois", f"enquanto qb1() faca\n mostra 1\nfim\nfunc ff()\n {j}\nfim\n")
        yield Case(f"salto/{j}/interno", f"para i de 0..2 faca\n para j de 0..2 faca\n  mostra j\n  se qb1() entao\n   {j}\n  fim\n  mostra 5\n fim\n mostra i\nfim\n")
        yield Case(f"salto/{j}/dupla", f"enquanto qb1() faca\n enquanto qb2() faca\n  {j}\n fim\n mostra 4\n {j}\nfim\nmostra 3\n")
    for s, t in (("produzfim", "mostra iguala qi1()\n 1 => faca\n  mostra 5\n  produz 2\n fim,\n _ => faca\n  produz 3\n fim\nfim\n"),
                 ("produzmeio", "mostra iguala qi1()\n 1 => faca\n  produz 2\n  mostra 5\n fim,\n _ => 3\nfim\n"),
                 ("produzse", "mostra iguala qi1()\n 1 => faca\n  se qb1() entao\n   produz 2\n  fim\n  produz 4\n fim,\n _ => 3\nfim\n"),
                 ("produztipos", "mostra iguala qi1()\n 1 => 2,\n _ => 'a'\nfim\n"), ("produzreal", "mostra iguala qi1()\n 1 => 2,\n _ => 1.5\nfim\n"),
                 ("produzfalta", "mostra iguala qi1()\n 1 => 2,\n _ => faca\n  mostra 1\n fim\nfim\n"),
                 ("produzret", "func ff(): int\n x: int = iguala qi1()\n  1 => faca\n   se qb1() entao\n    retorna 7\n   fim\n   produz 2\n  fim,\n  _ => 3\n fim\n retorna x\nfim\nmostra ff()\n"),
                 ("retnobraco", "func ff(): int\n iguala qi1()\n  1 => faca\n   retorna 5\n  fim,\n  _ => faca\n   retorna 6\n  fim\n fim\nfim\nmostra ff()\n"),
                 ("aninhado", "mostra iguala qi1()\n 1 => iguala qi2()\n  2 => 20,\n  _ => 21\n fim,\n _ => 3\nfim\n"),
                 ("aninhado2", "mostra iguala qi1()\n 1 => faca\n  x: int = iguala qi2()\n   2 => 20,\n   _ => 21\n  fim\n  produz x + 1\n fim,\n _ => 3\nfim\n"),
                 ("laco", "para i de 0..3 faca\n mostra iguala qi1()\n  1 => i,\n  _ => i + 10\n fim\nfim\n"),
                 ("quebranobraco", "para i de 0..3 faca\n iguala qi1()\n  1 => faca\n   quebra\n  fim,\n  _ => faca\n   mostra i\n  fim\n fim\n mostra 8\nfim\nmostra 9\n"),
                 ("continuanobraco", "para i de 0..3 faca\n iguala i\n  1 => faca\n   continua\n  fim,\n  z => faca\n   mostra z\n  fim\n fim\n mostra 8\nfim\nmostra 9\n")):
        yield Case(f"salto/bloco/{s}", t)


# ----------------------------------------------------------------- matching
UN = "uniao T\n A, B(int), C(int, texto)\nfim\n"
UN2 = "uniao D\n X, Y\nfim\nuniao T\n N, P(D, D), Q(D)\nfim\n"


def iguala_flat(n=3):
    """every sequence of up to n arms over the patterns of one type"""
    P = {"u": ["T::A", "T::B(a)", "T::C(a, b)", "T::B(1)", "T::C(a, 'x')", "_", "z"], "i": ["1", "2", "_", "n"], "t": ["'a'", "'b'", "''", "_", "s"]}
    tgt = {"u": "v", "i": "qi7()", "t": "qt7()"}
    show = {"T::B(a)": "mostra a\n", "T::C(a, b)": "mostra b\nmostra a\n", "T::C(a, 'x')": "mostra a\n", "z": "", "n": "mostra n\n", "s": "mostra s\n"}
    for k in P:
        for L in range(1, n + 1):
            for combo in itertools.product(range(len(P[k])), repeat=L):
                if len(set(combo)) < L and L == 3:
                    continue
                arms = ",\n".join(f" {P[k][c]} => faca\n{ind(f'mostra {i + 1}' + chr(10) + show.get(P[k][c], ''), 2)} fim" for i, c in enumerate(combo))
                st = f"iguala {tgt[k]}\n{arms}\nfim\nmostra 'd'\n"
                if k == "u":
                    pre = UN + "func mk(): T\n se qb8() entao\n  retorna T::A\n senaose qb9() entao\n  retorna T::B(qi8())\n fim\n retorna T::C(qi9(), qt9())\nfim\nv: T = mk()\n"
                else:
                    pre = ""
                yield Case(f"ig/{k}/{'.'.join(map(str, combo))}", pre + st)


def iguala_nested(maxarms=3):
    P = ["T::N", "T::P(D::X, D::X)", "T::P(D::X, _)", "T::P(_, D::Y)", "T::P(a, b)", "T::Q(D::X)", "T::Q(q)", "T::P(D::Y, D::X)", "_"]
    mk = ("func mkD(): D\n se qb8() entao\n  retorna D::X\n fim\n retorna D::Y\nfim\nfunc mk(): T\n se qb6() entao\n  retorna T::N\n"
          " senaose qb7() entao\n  retorna T::P(mkD(), mkD())\n fim\n retorna T::Q(mkD())\nfim\n")
    full = [[0, 1, 2, 3, 7, 6], [4, 0, 6], [0, 2, 3, 7, 5, 8], [1, 3, 2, 8], [3, 2, 7, 0, 6], [2, 4, 0, 6], [6, 4, 0], [5, 6, 4, 0], [0, 4, 5], [1, 2, 3, 0, 6], [8],
            [0, 5, 8], [7, 1, 2, 3, 0, 6], [3, 1, 7, 2, 5, 0, 8], [0, 1, 2, 7, 3, 5, 6], [4, 5, 0], [2, 7, 3, 0, 5], [2, 7, 0, 6]]
    for combo in full + [list(c) for c in itertools.permutations(range(len(P)), 2)]:
        arms = ",\n".join(f" {P[c]} => faca\n  mostra {i + 1}\n fim" for i, c in enumerate(combo))
        yield Case(f"ig/aninhado/{'.'.join(map(str, combo))}", UN2 + mk + f"v: T = mk()\niguala v\n{arms}\nfim\nmostra 'd'\n")
    nat = "uniao M\n Z, S(M)\nfim\nfunc mkM(): M\n se qb6() entao\n  retorna M::Z\n senaose qb7() entao\n  retorna M::S(M::Z)\n fim\n retorna M::S(M::S(M::Z))\nfim\nv: M = mkM()\n"
    for i, a in enumerate((["M::Z", "M::S(x)"], ["M::Z", "M::S(M::Z)", "M::S(M::S(x))"], ["M::S(M::S(M::Z))", "M::S(M::Z)", "M::Z", "_"], ["M::Z", "M::S(M::Z)"], ["M::S(M::S(_))", "x"],
                           ["M::S(x)", "M::S(M::Z)", "M::Z"], ["M::S(M::S(y))", "M::S(y)", "y"])):
        arms = ",\n".join(f" {p} => faca\n  mostra {j + 1}\n fim" for j, p in enumerate(a))
        yield Case(f"ig/rec/{i}", nat + f"iguala v\n{arms}\nfim\nmostra 'd'\n")
    lit = "uniao T\n K(int, texto), L(int)\nfim\nfunc mk(): T\n se qb6() entao\n  retorna T::K(qi1(), qt1())\n fim\n retorna T::L(qi2())\nfim\n"
    LP = ["T::K(1, 'a')", "T::K(1, b)", "T::K(a, 'a')", "T::K(x, y)", "T::L(1)", "T::L(2)", "T::L(n)", "_"]
    sh = {3: "mostra y\n  mostra x\n", 6: "mostra n\n", 1: "mostra b\n", 2: "mostra a\n"}
    for combo in ([0, 1, 2, 3, 4, 6], [3, 6], [6, 3], [4, 5, 6, 3], [1, 2, 7], [2, 1, 3, 7], [0, 3, 4, 5, 7], [4, 6, 0, 3], [0, 7], [5, 4, 7], [1, 3, 5, 6], [2, 0, 3, 6], [0, 4, 7], [3, 4, 5], [3, 7, 6], [1, 6, 7]):
        arms = ",\n".join(f" {LP[c]} => faca\n  mostra {i + 1}\n  {sh.get(c, '')} fim" for i, c in enumerate(combo))
        for tv, T in (("var", "v: T = mk()\niguala v\n"), ("expr", "iguala mk()\n"), ("func", "")):
            body = T + arms + "\nfim\nmostra 'd'\n"
            if tv == "func":
                body = wrap("param", "v: T = mk()\niguala v\n" + arms + "\nfim\n")
            yield Case(f"ig/lit/{tv}/{'.'.join(map(str, combo))}", lit + body)


def iguala_bad():
    """patterns that do not fit the value"""
    vals = {"int": "qi1()", "texto": "qt1()", "real": "qr1()", "bool": "qb1()", "T": "T::A", "O": "O::A", "int?": "oo", "[int]": "[int: 1]", "R": "R(a: 1)", "vazio": "qv1()"}
    pats = ["1", "'a'", "T::A", "T::B(x)", "T::B", "T::A(x)", "T::B(x, y)", "T::C(x, 'a')", "T::C('a', x)", "T::B('a')", "T::C(x, x)", "T::Z", "Z::A", "O::A", "x", "_", "R", "qi1", "T::B(T::A)", "T::B(O::A)",
            "T", "1.5", "falso", "nulo", "T::A::B"]
    pre = UN + "uniao O\n A, B(int)\nfim\nregisto R\n a: int\nfim\noo: int? = 3\n"
    for (v, e), p in itertools.product(vals.items(), pats):
        if v not in ("T", "int", "texto") and p in ("T::C(x, 'a')", "T::C(x, x)", "T::B(O::A)", "T::Z"):
            continue
        yield Case(f"ig/mau/{v}/{p}", pre + f"iguala {e}\n {p} => faca\n  mostra 1\n fim,\n _ => faca\n  mostra 2\n fim\nfim\n" + ("qi1()\n" if p == "qi1" else ""))
        yield Case(f"ig/mau/se/{v}/{p}", pre + f"se iguala {e} => {p} entao\n mostra 1\nsenao\n mostra 2\nfim\n" + ("qi1()\n" if p == "qi1" else ""))


def iguala_value():
    """matching as an expression: the produced value reaches the place that uses it"""
    pre = MKU
    for t, vals in (("int", ["1", "qi1()", "2 + qi2()"]), ("texto", ["'a'", "qt1()", "f\"{qi2()}\""]), ("bool", ["falso", "qb1()", "qi1() < qi2()"])):
        e = f"iguala mkU()\n U::A => {vals[0]},\n U::B(_) => {vals[1]},\n U::C(_, x) => {vals[2]}\nfim"
        for n, s in (("mostra", "mostra {e}\n"), ("decl", f"x: {t} = {{e}}\nmostra x\n"), ("ret", f"func ff(): {t}\n retorna {{e}}\nfim\nmostra ff()\n"),
                     ("arg", f"func ff(a: int, x: {t}, b: int)\n mostra a\n mostra x\n mostra b\nfim\nff(1, {{e}}, 2)\n"), ("campo", f"registo R\n a: int\n x: {t}\nfim\nr: R = R(a: 1, x: {{e}})\nmostra r.x\n"),
                     ("instr", "{e}\nmostra 1\n"), ("produz", "mostra iguala qi7()\n 1 => {e},\n _ => {e}\nfim\n")):
            yield Case(f"ig/valor/{t}/{n}", pre + s.format(e=e))
    yield Case("ig/valor/real", pre + "x: real = iguala mkU()\n U::A => 1.5,\n U::B(z) => 2.5,\n _ => qr1()\nfim\nmostra x\n")
    yield Case("ig/valor/intreal", pre + "x: real = iguala mkU()\n U::A => 1,\n U::B(z) => z,\n _ => qi1()\nfim\nmostra x\n")
    yield Case("ig/valor/opt", pre + "x: int? = iguala mkU()\n U::A => 1,\n U::B(z) => z,\n _ => 3\nfim\nmostra x.valor\n")
    for n, s in (("global", "a: U = mkU()\niguala a\n U::B(x) => faca\n  a = U::A\n  mostra x\n fim,\n _ => faca\n  mostra 0\n fim\nfim\nse iguala a => U::A entao\n mostra 1\nfim\n"),
                 ("bindatrib", "iguala mkU()\n U::B(x) => faca\n  x = x + 1\n  mostra x\n fim,\n _ => faca\n  mostra 0\n fim\nfim\n"),
                 ("doisaninh", "a: U = mkU()\niguala a\n U::B(x) => faca\n  iguala a\n   U::B(y) => faca\n    mostra x\n    mostra y\n   fim,\n   _ => faca\n    mostra 5\n   fim\n  fim\n  mostra x\n fim,\n _ => faca\n  mostra 0\n fim\nfim\n"),
                 ("mesmonome", "a: U = mkU()\niguala a\n U::B(x) => faca\n  iguala a\n   U::B(x) => faca\n    mostra x\n   fim,\n   _ => faca\n    mostra 5\n   fim\n  fim\n  mostra x\n fim,\n _ => faca\n  mostra 0\n fim\nfim\n"),
                 ("param", "func ff(u: U, k: int)\n iguala u\n  U::B(x) => faca\n   mostra x + k\n  fim,\n  U::C(x, y) => faca\n   mostra y\n   mostra x - k\n  fim,\n  _ => faca\n   mostra k\n  fim\n fim\n mostra k\nfim\nff(mkU(), qi5())\n"),
                 ("alvo", "met U::mm(alvo, k: int): int\n retorna iguala alvo\n  U::B(x) => x + k,\n  U::C(x, _) => x - k,\n  U::A => k\n fim\nfim\nmostra mkU().mm(qi5())\n"),
                 ("recurs", "uniao L\n F, N(int, L)\nfim\nfunc soma(l: L): int\n iguala l\n  L::F => faca\n   retorna 0\n  fim,\n  L::N(h, t) => faca\n   retorna h + soma(t)\n  fim,\n  _ => faca\n   retorna 9\n  fim\n fim\nfim\nmostra soma(L::N(qi1(), L::N(qi2(), L::F)))\n"),
                 ("local", "func ff()\n p: int = 1\n u: U = mkU()\n q: int = 2\n iguala u\n  U::C(x, y) => faca\n   z: int = x\n   mostra z\n   mostra y\n  fim,\n  _ => faca\n   w: int = 3\n   mostra w\n  fim\n fim\n mostra p\n mostra q\nfim\nff()\n")):
        yield Case(f"ig/uso/{n}", pre + s)


# ---------------------------------------------------------------- registos
def registos():
    R = "registo P\n x: int\n y: real\n z: texto\nfim\nregisto L\n a: P\n b: P\n n: int\nfim\n"
    for perm in itertools.permutations(range(3)):
        parts = ["x: qi1()", "y: qr2()", "z: qt3()"]
        yield Case(f"reg/ordem/{''.join(map(str, perm))}", R + "p: P = P(" + ", ".join(parts[i] for i in perm) + ")\nmostra p.x\nmostra p.y\nmostra p.z\n")
    for n, a in (("falta", "x: 1, y: 2.0"), ("mais", "x: 1, y: 2.0, z: 'a', w: 1"), ("repete", "x: 1, y: 2.0, x: 2"), ("outro", "x: 1, y: 2.0, w: 'a'"), ("semnome", "1, 2.0, 'a'"),
                 ("misto", "x: 1, 2.0, z: 'a'"), ("tipo", "x: 'a', y: 2.0, z: 'b'"), ("troca", "x: 1, y: 'a', z: 2.0"), ("int", "x: 1, y: 2, z: 'a'"), ("realint", "x: 1.5, y: 2.0, z: 'a'"), ("vazio", "")):
        yield Case(f"reg/args/{n}", R + f"p: P = P({a})\nmostra p.y\n")
    base = R + "l: L = L(b: P(x: 1, y: 1.5, z: 'a'), a: P(x: 2, y: 2.5, z: 'b'), n: 3)\n"
    for t, k in (("l.a.x", "i"), ("l.b.y", "r"), ("l.b.z", "t"), ("l.n", "i")):
        yield Case(f"reg/set/{t}", base + f"{t} = q{k}1()\n" + "".join(f"mostra l.{f}\n" for f in ("a.x", "a.y", "a.z", "b.x", "b.y", "b.z", "n")))
        if k != "t":
            for o in "+-*/":
                yield Case(f"reg/comp/{t}/{NAME[o]}", base + f"{t} {o}= q{k}1()\n" + "".join(f"mostra l.{f}\n" for f in ("a.x", "b.y", "n")))
    yield Case("reg/setint", base + "l.a.y = qi1()\nmostra l.a.y\nl.b.y += qi2()\nmostra l.b.y\n")
    yield Case("reg/alias", base + "q: P = l.a\nq.x = qi1()\nmostra l.a.x\nl.a = l.b\nl.b.x = qi2()\nmostra l.a.x\nmostra q.x\n")
    yield Case("reg/param", R + "func muda(p: P, n: int)\n p.x = n\n p.y += n\nfim\np: P = P(x: 1, y: 1.0, z: 'a')\nmuda(p, qi1())\nmostra p.x\nmostra p.y\nmostra p.z\n")
    yield Case("reg/retorno", R + "func faz(n: int): P\n retorna P(z: 'a', x: n, y: n)\nfim\nmostra faz(qi1()).x\nmostra faz(qi2()).y\n")
    yield Case("reg/vec", R + "v: [P] = [P: P(x: 1, y: 1.0, z: 'a'), P(x: 2, y: 2.0, z: 'b')]\nv[1].x = qi1()\nmostra v[0].x\nmostra v[1].x\nv[0].x += qi2()\nmostra v[0].x\nv[0] = v[1]\nmostra v[0].z\n")
    yield Case("reg/campovec", "registo V\n a: [int]\n n: int\nfim\nv: V = V(n: 1, a: [int: 1, 2])\nv.a[1] = qi1()\nmostra v.a[0]\nmostra v.a[1]\nv.a[0] += qi2()\nmostra v.a[0]\nanexa(v.a, qi3())\nmostra tam(v.a)\nmostra v.a[2]\n")
    yield Case("reg/cadeia", R + "p: P = P(x: 1, y: 1.0, z: 'a')\nk: int\np.x = k = qi1()\nmostra p.x\nmostra k\n")
    yield Case("reg/cadeiareal", R + "p: P = P(x: 1, y: 1.0, z: 'a')\nk: int\np.y = k = qi1()\nmostra p.y\nmostra k\n")
    yield Case("reg/global", base + "func ff()\n l.n = qi1()\n l.a.x += l.n\n mostra l.a.x\nfim\nff()\nmostra l.n\n")
    yield Case("reg/semcampo", base + "mostra l.w\n")
    yield Case("reg/semcampo2", base + "l.a.w = 1\n")
    yield Case("reg/campoerr", base + "l.n.x = 1\n")
    yield Case("reg/tipoerr", base + "l.n = 'a'\n")
    yield Case("reg/tipoerr2", base + "l.a = l\n")
    yield Case("reg/comperr", base + "l.b.z += 'a'\n")
    yield Case("reg/compreal", base + "l.n += 1.5\n")
    yield Case("reg/div", base + "l.n /= 2\n")
    yield Case("reg/nula", R + "p: P = nulo\n")
    yield Case("reg/chama", base + "l.n()\n")
    yield Case("reg/metset", base + "met L::m(alvo)\n mostra 1\nfim\nl.m = 1\n")
    yield Case("reg/metler", base + "met L::m(alvo)\n mostra 1\nfim\nmostra l.m\n")
    yield Case("reg/novo", R + "P\n")
    yield Case("reg/fstr", base + "mostra f\"{l.a.x} {l.b.z}\"\n")
    yield Case("reg/mesmonome", "registo A\n v: int\n w: int\nfim\nregisto B\n w: int\n v: int\nfim\na: A = A(v: 1, w: 2)\nb: B = B(v: 3, w: 4)\nmostra a.v\nmostra b.v\na.w = 9\nb.v = 8\nmostra a.w\nmostra b.w\nmostra b.v\n")


# ----------------------------------------------------------- calls, methods
def calls():
    for nm in ((), ("int",), ("int", "texto"), ("texto", "int", "bool"), ("real", "real", "int", "texto")):
        ps = ", ".join(f"p{i}: {t}" for i, t in enumerate(nm))
        body = "".join(f" mostra p{i}\n" for i in range(len(nm)))
        good = [f"q{t[0]}{i + 1}()" for i, t in enumerate(nm)]
        tag = "-".join(nm) or "nada"
        for extra in (-2, -1, 0, 1, 2):
            n = len(nm) + extra
            if n < 0:
                continue
            args = (good + ["qi8()", "qi9()"])[:n]
            for kind, decl, call in (("func", f"func ff({ps})\n{body} mostra 'f'\nfim\n", "ff"),
                                     ("met", f"registo R\n a: int\nfim\nmet R::mm(alvo{', ' + ps if ps else ''})\n{body} mostra alvo.a\nfim\n", "R(a: 4).mm"),
                                     ("variante", f"uniao V\n K{'(' + ', '.join(nm) + ')' if nm else ''}\nfim\n", "V::K")):
                yield Case(f"cham/arid/{kind}/{tag}/{extra}", decl + f"{call}({', '.join(args)})\nmostra 'd'\n")
        for i, j in itertools.combinations(range(len(nm)), 2):
            a = list(good)
            a[i], a[j] = a[j], a[i]
            yield Case(f"cham/troca/{tag}/{i}{j}", f"func ff({ps})\n{body}fim\nff({', '.join(a)})\n")
    T = [
        ("rec", "func fat(n: int): int\n se n < 2 entao\n  retorna 1\n fim\n retorna n * fat(n - 1)\nfim\nmostra fat(5)\n"),
        ("recsim", "func cont(n: int): int\n mostra n\n se qb1() entao\n  retorna n\n fim\n retorna cont(n + 1) + n\nfim\nmostra cont(qi1())\n"),
        ("recdupla", "func fib(n: int): int\n se n < 2 entao\n  retorna n\n fim\n retorna fib(n - 1) + fib(n - 2)\nfim\nmostra fib(4)\n"),
        ("mutua", "func a(n: int): int\n retorna b(n)\nfim\nfunc b(n: int): int\n retorna n\nfim\nmostra a(1)\n"),
        ("locais", "func f(n: int): int\n a: int = n + 1\n b: int = g(a)\n retorna a + b + n\nfim\n"),
        ("locais2", "func g(n: int): int\n a: int = n * 2\n c: int = a - 1\n retorna c\nfim\nfunc f(n: int): int\n a: int = n + 1\n b: int = g(a)\n c: int = g(b) + g(n)\n retorna a + b * c - n\nfim\nmostra f(qi1())\n"),
        ("params", "func f(a: int, b: int, c: int): int\n a = b\n b = c\n retorna a * 100 + b * 10 + c\nfim\nx: int = qi1()\nmostra f(x, qi2(), qi3())\nmostra x\n"),
        ("cond", "func f(a: int): bool\n mostra a\n retorna a > qi9()\nfim\nse f(qi1()) e f(qi2()) entao\n mostra 1\nsenao\n mostra 2\nfim\n"),
        ("emlaco", "func f(a: int): int\n se qb1() entao\n  retorna a\n fim\n retorna 0 - a\nfim\npara i de 1..3 faca\n mostra f(i)\nfim\n"),
        ("retlaco", "func f(n: int): int\n para i de 0..3 faca\n  enquanto qb1() faca\n   retorna i * 10 + n\n  fim\n fim\n retorna 7\nfim\nmostra f(qi1())\nmostra f(qi2())\n"),
        ("retbloco", "func f(n: int): int\n se qb1() entao\n  a: int = n\n  se qb2() entao\n   b: int = a + 1\n   retorna b\n  fim\n fim\n retorna n\nfim\nmostra f(qi1())\n"),
        ("vazia", "func f()\n se qb1() entao\n  retorna\n fim\n mostra 1\nfim\nf()\nf()\n"),
        ("vazianada", "func f()\nfim\nf()\nmostra 2\n"),
        ("global", "g: int = 1\nfunc f(): int\n g = g + qi1()\n retorna g\nfim\nmostra f() + f()\nmostra g\n"),
        ("naofunc", "x: int = 1\nx()\n"), ("naofunc2", "'a'()\n"), ("naofunc3", "(1 + 2)()\n"), ("dupla", "func f(): int\n retorna 1\nfim\nf()()\n"), ("tipo", "int(1)\n"), ("nada", "naoha(1)\n"),
        ("nomeado", "func f(a: int)\n mostra a\nfim\nf(a: 1)\n"), ("valor", "func f()\n mostra 1\nfim\nx: int = f\n"), ("voidval", "func f()\n mostra 1\nfim\nx: int = f()\n"),
        ("mostravoid", "func f()\n mostra 1\nfim\nmostra f() + 1\n"),
        ("convarg", "func f(a: real, b: int): real\n retorna a / b\nfim\nmostra f(qi1(), qi2())\nmostra f(1, 2)\n"),
        ("ordem", "func f(): int\n mostra 1\n retorna 2\nfim\nmostra 0\nf()\nmostra f()\nmostra 3\n"),
        ("metnum", "met int::dobro(alvo): int\n retorna alvo * 2\nfim\nx: int = qi1()\nmostra x.dobro()\nmostra x.dobro().dobro()\nmostra (x + 1).dobro()\n"),
        ("mettexto", "met texto::rep(alvo, n: int): texto\n retorna f\"{alvo}{n}\"\nfim\nmostra 'a'.rep(qi1())\nx: texto = qt1()\nmostra x.rep(1).rep(2)\n"),
        ("metreal", "met real::meio(alvo): real\n retorna alvo / 2\nfim\nmostra qr1().meio()\n"),
        ("metbool", "met bool::inv(alvo): bool\n retorna nao alvo\nfim\nmostra qb1().inv()\n"),
        ("metuni", "uniao V\n A, B(int)\nfim\nmet V::n(alvo, k: int): int\n iguala alvo\n  V::A => faca\n   retorna k\n  fim,\n  V::B(x) => faca\n   retorna x + k\n  fim,\n  _ => faca\n   retorna 0\n  fim\n fim\nfim\nmostra V::B(qi1()).n(qi2())\n"),
        ("metset", "registo R\n a: int\nfim\nmet R::inc(alvo, n: int)\n alvo.a = alvo.a + n\nfim\nmet R::dobra(alvo)\n alvo.a *= 2\n alvo.inc(1)\nfim\nr: R = R(a: qi1())\nr.inc(qi2())\nr.dobra()\nmostra r.a\n"),
        ("metmet", "registo R\n a: int\nfim\nmet R::p(alvo): int\n retorna alvo.a + 1\nfim\nmet R::q(alvo, k: int): int\n retorna alvo.p() * k + alvo.p()\nfim\nmostra R(a: qi1()).q(qi2())\n"),
        ("metcampo", "registo R\n a: int\nfim\nregisto S\n r: R\nfim\nmet R::m(alvo, k: int): int\n retorna alvo.a - k\nfim\nmostra S(r: R(a: qi1())).r.m(qi2())\n"),
        ("metnao", "registo R\n a: int\nfim\nR(a: 1).m()\n"), ("metoutro", "registo R\n a: int\nfim\nregisto S\n a: int\nfim\nmet R::m(alvo)\n mostra 1\nfim\nS(a: 1).m()\n"),
        ("metantes", "registo R\n a: int\nfim\nR(a: 1).m()\nmet R::m(alvo)\n mostra 1\nfim\n"),
        ("alvofunc", "func f()\n mostra alvo\nfim\n"), ("alvotopo", "mostra alvo\n"), ("alvoatrib", "registo R\n a: int\nfim\nmet R::m(alvo)\n alvo = R(a: 1)\nfim\n"),
        ("mettipo", "met naoha::m(alvo)\n mostra 1\nfim\n"), ("metfunc", "func g()\n mostra 1\nfim\nmet g::m(alvo)\n mostra 1\nfim\n"),
        ("metconv", "registo R\n a: real\nfim\nmet R::m(alvo, k: real): real\n retorna k\nfim\nmostra R(a: qi1()).m(qi2())\n"),
        ("metvazio", "registo R\n a: int\nfim\nmet R::m(alvo)\nfim\nR(a: 1).m()\nmostra 1\n"),
        ("metlocais", "registo R\n a: int\nfim\nmet R::m(alvo, k: int, j: int): int\n l: int = k\n alvo.a = j\n se qb1() entao\n  l2: int = l + 1\n  retorna l2 + alvo.a\n fim\n retorna l - alvo.a\nfim\nmostra R(a: qi1()).m(qi2(), qi3())\n"),
        ("mesmonome", "registo R\n a: int\nfim\nregisto S\n a: int\nfim\nmet R::m(alvo, x: int): int\n retorna alvo.a + x\nfim\nmet S::m(alvo, x: int, y: int): int\n retorna alvo.a * x - y\nfim\nmostra R(a: qi1()).m(qi2())\nmostra S(a: qi3()).m(qi4(), qi5())\n"),
        ("mesmonome2", "met int::m(alvo): int\n retorna alvo + 1\nfim\nmet texto::m(alvo): texto\n retorna f\"{alvo}!\"\nfim\nmostra 'a'.m()\nx: int = 1\nmostra x.m()\n"),
    ]
    for n, t in T:
        yield Case(f"cham/{n}", t)


# ------------------------------------------------------------ local storage
def locals_nest():
    """locals of nested and sibling blocks keep their own values"""
    def decl(n, k):
        return f"{n}: int = {k}\n"
    K = {"se": "se qb{b}() entao\n{s}fim\n", "senao": "se qb{b}() entao\n sa{b}: int = 50\n mostra sa{b}\nsenao\n{s}fim\n", "enq": "enquanto qb{b}() faca\n{s}fim\n",
         "para": "para pi{b} de 30..32 faca\n{s} mostra pi{b}\nfim\n", "esc": "escolha qi{b}():\n caso 1:\n{s} senao:\n  sb{b}: int = 60\n  mostra sb{b}\nfim\n",
         "ig": "iguala qi{b}()\n 1 => faca\n{s} fim,\n nn{b} => faca\n  mostra nn{b}\n fim\nfim\n",
         "seig": "uv{b}: U = mkU()\nse iguala uv{b} => U::C(pa{b}, pb{b}) entao\n{s} mostra pa{b}\n mostra pb{b}\nfim\n"}
    for a, b in itertools.product(K, repeat=2):
        for ctx in ("func", "top", "met"):
            inner = K[b].format(b=2, s=ind("c: int = 3\nd: texto = 'd'\nmostra c\na = a + 1\nb = b + c\nmostra d\n"))
            outer = K[a].format(b=1, s=ind("b: int = 2\n" + inner + "e: int = 5\nmostra e\nmostra b\nmostra a\n"))
            sib = K[b].format(b=3, s=ind("g: int = 8\nmostra g\nmostra a\n"))
            body = "a: int = 1\n" + outer + "h: int = 9\n" + sib + "mostra h\nmostra a\n"
            yield Case(f"local/{ctx}/{a}.{b}", wrap(ctx, body))
    for a, b in itertools.product(K, repeat=2):
        body = "x: int = 1\n" + K[a].format(b=1, s=ind("x: int = 2\n" + K[b].format(b=2, s=ind("x: int = 3\nmostra x\nx = 4\nmostra x\n")) + "mostra x\nx = 5\nmostra x\n")) + "mostra x\n"
        yield Case(f"local/mesmo/{a}.{b}", wrap("func", body))
    for n in (3, 10, 40, 130, 200):
        body = "".join(f"v{i}: int = qi1() + {i}\n" for i in range(3)) + "".join(f"w{i}: int = {i}\n" for i in range(n)) + "".join(f"mostra w{i}\n" for i in (0, n // 2, n - 1)) + "mostra v0\nmostra v2\n"
        yield Case(f"local/muitas/{n}", wrap("param", body))
    yield Case("local/reinicia", wrap("func", "para i de 0..3 faca\n x: int\n mostra x\n x = x + 5\n mostra x\n t: texto\n mostra t\n t = 'q'\nfim\n"))
    yield Case("local/reiniciatopo", "para i de 0..3 faca\n x: int\n mostra x\n x = x + 5\n mostra x\nfim\n")
    yield Case("local/reiniciaenq", wrap("func", "enquanto qb1() faca\n x: int\n mostra x\n x = x + 5\nfim\n"))
    yield Case("local/parasoma", wrap("func", "s: int = 0\npara i de 0..3 faca\n para j de 0..2 faca\n  s += i * j + 1\n fim\n k: int = s\n mostra k\nfim\nmostra s\n"))
    yield Case("local/paramesmo", wrap("func", "para i de 0..2 faca\n mostra i\nfim\npara i de 5..7 faca\n mostra i\nfim\n"))
    yield Case("local/paraninh", wrap("func", "para i de 0..2 faca\n para i de 5..7 faca\n  mostra i\n fim\n mostra i\nfim\n"))
    yield Case("local/paralim", wrap("func", "n: int = 3\npara i de 0..n faca\n n = n - 1\n mostra i\nfim\nmostra n\n"))
    yield Case("local/paramuda", wrap("func", "para i de 0..6 faca\n mostra i\n i = i + 1\nfim\n"))
    yield Case("local/funcs", "func f(a: int): int\n x: int = a\n y: int = x + 1\n retorna y\nfim\nfunc g(b: texto, a: int): int\n y: int = f(a)\n x: int = f(y)\n mostra b\n retorna x + y\nfim\nmostra g(qt1(), qi1())\n")


# ------------------------------------------------------- vectors, optionals
def vectors():
    T = []
    for el, z, k in (("int", ["1", "2", "3"], "i"), ("texto", ["'a'", "'b'", "'c'"], "t"), ("bool", ["falso", "verdadeiro", "falso"], "b"), ("real", ["1.5", "2", "3"], "r")):
        base = f"v: [{el}] = [{el}: {', '.join(z)}]\n"
        T += [(f"{el}/ler", base + "mostra v[0]\nmostra v[1]\nmostra v[2]\nmostra tam(v)\n"), (f"{el}/set", base + f"v[0] = q{k}1()\nv[2] = q{k}2()\nmostra v\n"),
              (f"{el}/anexa", base + f"anexa(v, q{k}1())\nmostra tam(v)\nmostra v[3]\nanexa(v, {z[0]})\nmostra v\n"), (f"{el}/remova", base + f"mostra remova(v, 1)\nmostra tam(v)\nmostra v[1]\nremova(v, 0)\nmostra v\n"),
              (f"{el}/fora", base + "mostra 1\nmostra v[3]\nmostra 2\n"), (f"{el}/alias", base + f"w: [{el}] = v\nw[0] = q{k}1()\nmostra v[0]\n"),
              (f"{el}/param", f"func f(a: [{el}], n: int): {el}\n a[0] = q{k}1()\n retorna a[n]\nfim\n" + base + "mostra f(v, 1)\nmostra v[0]\n"),
              (f"{el}/ret", f"func f(): [{el}]\n retorna [{el}: {', '.join(z)}]\nfim\nmostra f()[1]\nmostra tam(f())\n"), (f"{el}/vazio", f"v: [{el}] = [{el}:]\nmostra tam(v)\nanexa(v, q{k}1())\nmostra v[0]\n"),
              (f"{el}/vec", f"v: [{el}] = vec({el}, 3)\nmostra tam(v)\n"), (f"{el}/vec2", f"v: [[{el}]] = vec({el}, 2, 3)\nmostra tam(v)\n"),
              (f"{el}/vec3", f"v: [[{el}]] = vec({el}, 2)\n"), (f"{el}/vec4", f"v: [{el}] = vec({el})\n"), (f"{el}/laco", base + "para i de 0..tam(v) faca\n mostra v[i]\nfim\n"),
              (f"{el}/aninh", f"v: [[{el}]] = [[{el}]: [{el}: {z[0]}], [{el}: {z[1]}, {z[2]}]]\nmostra v[1][1]\nv[0][0] = q{k}1()\nmostra v[0][0]\nv[1] = v[0]\nmostra v[1][0]\nmostra tam(v[0])\nanexa(v[0], {z[2]})\nmostra tam(v[1])\n"),
              (f"{el}/texto", base + "mostra v['a']\n"), (f"{el}/realidx", base + "mostra v[1.5]\n"), (f"{el}/campo", base + "mostra v.x\n"), (f"{el}/chama", base + "v()\n"),
              (f"{el}/mistura", f"v: [{el}] = [{el}: {z[0]}, nulo]\n"), (f"{el}/tipoerr", f"v: [{el}] = [{'int' if el != 'int' else 'texto'}: ]\n"), (f"{el}/prof", base + "mostra v[0][0]\n")]
        for o in "+-*/":
            T.append((f"{el}/comp{NAME[o]}", base + f"v[1] {o}= q{k}1()\nmostra v\n"))
    T += [("fora0", "v: [int] = [int:]\nmostra v[0]\n"), ("neg", "v: [int] = [int: 1]\nmostra v[-1]\n"), ("idxtxt", "t: texto = 'abc'\nmostra t[0]\nmostra t[2]\nmostra tam(t)\n"), ("txtset", "t: texto = 'abc'\nt[0] = 'x'\n"),
          ("txtsim", "t: texto = qt1()\nmostra t[qi1()]\nmostra tam(t)\n"), ("regs", "registo R\n a: int\nfim\nv: [R] = [R: R(a: 1), R(a: 2)]\nv[0].a = qi1()\nmostra v[0].a\nanexa(v, R(a: 5))\nmostra v[2].a\nmostra remova(v, 0).a\n"),
          ("unis", "uniao V\n A, B(int)\nfim\nv: [V] = [V: V::A, V::B(4)]\niguala v[1]\n V::B(x) => faca\n  mostra x\n fim,\n _ => faca\n  mostra 0\n fim\nfim\n"),
          ("opts", "v: [int?] = [int?: 1, nulo]\nmostra v[0].valor\nmostra v[1] == nulo\nv[1] = qi1()\nmostra v[1].valor\n"), ("cadeia", "v: [int] = [int: 1, 2]\na: int\nv[0] = a = qi1()\nmostra v\nmostra a\n"),
          ("realint", "v: [real] = [real: qi1(), 2, qr3()]\nmostra v\nv[0] = qi4()\nanexa(v, qi5())\nmostra v\n"), ("anexareal", "v: [int] = [int: 1]\nanexa(v, 1.5)\n"), ("anexatxt", "anexa('abc', 'd')\n"), ("removatxt", "remova('abc', 0)\n"),
          ("tamint", "mostra tam(1)\n"), ("tam2", "mostra tam('a', 'b')\n"), ("tam0", "mostra tam()\n"), ("anexa1", "v: [int] = [int: 1]\nanexa(v)\n"), ("anexa3", "v: [int] = [int: 1]\nanexa(v, 1, 2)\n"), ("remova1", "v: [int] = [int: 1]\nremova(v)\n"),
          ("escreva", "escreva('a')\nescrevaln(1)\n"), ("leia", "x: texto = leia('?')\nmostra x\ny: int = leia_int('?')\nmostra y + 1\nz: real = leia_real('?')\nmostra z\n"), ("contem", "mostra txt_contem(qt1(), 'a')\n"),
          ("contemerr", "mostra txt_contem(1, 'a')\n"), ("vecreg", "registo R\n a: int\nfim\nv: [R] = vec(R, 2)\nmostra tam(v)\n"), ("veclit", "v: [int] = vec(3, 2)\n"), ("vectxt", "v: [int] = vec('int', 2)\n"),
          ("tamvec", "v: [[int]] = [[int]: [int: 1, 2, 3]]\nmostra tam(v[0]) + tam(v)\n"), ("func", "func f(v: [int], i: int)\n v[i] = v[i] + 1\n v[i] *= 2\nfim\nw: [int] = [int: 4, 5]\nf(w, 1)\nmostra w\n")]
    for n, t in T:
        yield Case(f"vec/{n}", t)
        if n.split("/")[-1] in ("ler", "set", "anexa", "remova", "aninh", "compmais", "regs", "cadeia", "opts", "alias"):
            top, loc = split_decls(t)
            yield Case(f"vec/func/{n}", top + wrap("param", loc))


def optionals():
    T = [("ler", "x: int? = qi1()\nmostra x.valor\n"), ("nulo", "x: int? = nulo\nmostra 1\nmostra x.valor\nmostra 2\n"), ("ou", "x: int? = nulo\nmostra x.valor_ou(qi1())\nx = qi2()\nmostra x.valor_ou(qi3())\n"),
         ("eq", "x: int? = mko()\nmostra x == nulo\nmostra nulo == x\nmostra x != nulo\nmostra nulo != x\n"), ("se", "x: int? = mko()\nse x != nulo entao\n mostra x.valor\nsenao\n mostra 0\nfim\n"),
         ("se2", "x: int? = mko()\nse nulo == x entao\n mostra 0\nsenao\n mostra x.valor\nfim\n"), ("param", "func f(a: int?, b: int): int\n retorna a.valor_ou(b)\nfim\nmostra f(nulo, qi1())\nmostra f(qi2(), qi3())\nmostra f(mko(), 4)\n"),
         ("ret", "func f(n: int): int?\n se n > 0 entao\n  retorna n\n fim\n retorna nulo\nfim\nmostra f(qi1()).valor_ou(9)\n"), ("real", "x: real? = qi1()\nmostra x.valor\nx = 2\nmostra x.valor_ou(3)\nmostra x.valor_ou(qr1())\n"),
         ("realou", "x: real? = nulo\nmostra x.valor_ou(qi1())\n"), ("texto", "x: texto? = qt1()\nmostra f\"{x.valor}\"\n"), ("reg", "registo R\n a: int\nfim\nx: R? = R(a: qi1())\nmostra x.valor.a\nx.valor.a = qi2()\nmostra x.valor.a\n"),
         ("campo", "registo N\n v: int\n p: N?\nfim\na: N = N(v: 1, p: nulo)\nb: N = N(v: qi1(), p: a)\nmostra b.p.valor.v\nmostra b.p == nulo\nmostra a.p == nulo\na.p = b\nmostra a.p.valor.v\nb.p = nulo\nmostra b.p == nulo\n"),
         ("dupla", "registo N\n v: int\n p: N?\nfim\na: N = N(v: 1, p: nulo)\nmostra a.p.valor.v\nmostra 2\n"), ("arit", "x: int? = 1\nmostra x + 1\n"), ("cmp", "x: int? = 1\nmostra x < 1\n"), ("nuloint", "x: int = nulo\n"),
         ("optint", "x: int? = 1\ny: int = x\n"), ("optopt", "x: int? = 1\ny: int? = x\nmostra y.valor\n"), ("optreal", "x: int? = mko()\ny: real? = x\nmostra 1\n"), ("realopt", "x: real? = 1.5\ny: int? = x\n"), ("optxt", "x: int? = 'a'\n"),
         ("set", "x: int? = 1\nx.valor = 2\n"), ("membro", "x: int? = 1\nmostra x.abc\n"), ("ouargs", "x: int? = 1\nmostra x.valor_ou()\n"), ("ouargs2", "x: int? = 1\nmostra x.valor_ou(1, 2)\n"), ("outipo", "x: int? = 1\nmostra x.valor_ou('a')\n"),
         ("valorcham", "x: int? = 1\nmostra x.valor()\n"), ("ousem", "x: int? = 1\nmostra x.valor_ou\n"), ("seminit", "x: int?\n"), ("nulosolto", "mostra nulo == nulo\n"), ("retnulo", "func f(): int\n retorna nulo\nfim\n"),
         ("vec", "x: [int]? = [int: 1, 2]\nmostra x.valor[1]\nanexa(x.valor, 3)\nmostra tam(x.valor)\n"), ("cond", "x: bool? = verdadeiro\nse x entao\n mostra 1\nfim\n"), ("exprou", "x: int? = mko()\nmostra x.valor_ou(1) + x.valor_ou(2) * 3\n"),
         ("ordem", "func f(): int?\n mostra 1\n retorna qi1()\nfim\nfunc g(): int\n mostra 2\n retorna 3\nfim\nmostra f().valor_ou(g())\n"), ("uni", "uniao V\n A\nfim\nx: V? = V::A\niguala x.valor\n V::A => faca\n mostra 1\n fim\nfim\n"),
         ("local", "func f()\n x: int? = mko()\n y: int = x.valor_ou(5)\n x = nulo\n mostra y\n mostra x == nulo\nfim\nf()\n"), ("seiguala", "x: int? = mko()\nse x == nulo ou qb1() entao\n mostra 1\nsenao\n mostra x.valor\nfim\n"),
         ("atrib", "x: int? = nulo\nx = 5\nmostra x.valor\nx = nulo\nmostra x == nulo\n"), ("comp", "x: int? = 1\nx += 1\n"), ("nulotexto", "x: texto = nulo\n"), ("anexa", "v: [int?] = [int?:]\nanexa(v, nulo)\nanexa(v, 3)\nmostra v[1].valor\nmostra v[0] == nulo\n")]
    for n, t in T:
        yield Case(f"opt/{n}", t)


# ----------------------------------------------------------------- modules
def modules():
    lib = ("registo Pt\n x: int\n y: int\nfim\nuniao Cor\n Az, Vm(int)\nfim\nfunc soma(a: int, b: int): int\n retorna a + b\nfim\nfunc faz(n: int): Pt\n retorna Pt(x: n, y: n + 1)\nfim\n"
           "conta: int = 10\nfunc passo(): int\n conta = conta + 1\n retorna conta\nfim\nmet Pt::tam2(alvo): int\n retorna alvo.x + alvo.y\nfim\nmostra 'lib'\n")
    U = [("alias", "usa \"lib\" => l\n", {"func": "mostra l.soma(1, 2)\n", "var": "mostra l.conta\n", "estado": "mostra l.passo()\nmostra l.passo()\nmostra l.conta\n", "reg": "p: l.Pt = l.faz(4)\nmostra p.x\nmostra p.tam2()\n",
                                           "init": "p: l.Pt = l.Pt(y: 3, x: 4)\nmostra p.x\nmostra p.tam2()\n", "nao": "mostra l.naoha\n", "naof": "mostra l.naoha(1)\n", "set": "l.conta = 5\n", "comp": "l.conta += 5\n", "sem": "mostra soma(1, 2)\n",
                                           "arg": "mostra l.soma(1, 'a')\n", "arid": "mostra l.soma(1)\n", "valor": "x: int = l\n", "redecl": "l: int = 3\n", "tiponao": "p: l.Naoha = 1\n", "campo": "p: l.Pt = l.faz(4)\np.x = 9\np.y += 2\nmostra p.tam2()\n",
                                           "emfunc": "func f(l2: int): int\n retorna l.soma(l2, l.conta)\nfim\nmostra f(3)\n", "sombra": "func f(l: int): int\n retorna l + 1\nfim\nmostra f(3)\nmostra l.soma(1, 1)\n", "valfunc": "mostra l.soma\n", "conv": "x: real = l.soma(1, 2)\nmostra x\n",
                                           "nested": "mostra l.soma(l.soma(1, 2), l.passo())\n", "vec": "v: [l.Pt] = [l.Pt: l.faz(1), l.faz(2)]\nmostra v[1].y\n", "mesmonome": "func soma(a: int): int\n retorna a * 100\nfim\nmostra soma(2)\nmostra l.soma(2, 3)\n", "mesmavar": "conta: int = 77\nmostra conta\nmostra l.conta\nmostra l.passo()\nmostra conta\n"}),
         ("itens", "usa \"lib\" => [soma, Pt, conta, passo, faz]\n", {"func": "mostra soma(1, 2)\n", "var": "mostra conta\nmostra passo()\nmostra conta\n", "reg": "p: Pt = Pt(y: 3, x: 4)\nmostra p.tam2()\n", "faz": "p: Pt = faz(3)\nmostra p.y\n", "set": "conta = 5\n", "comp": "conta += 1\n",
                                                                     "redecl": "soma: int = 1\n", "redeclf": "func soma()\n mostra 1\nfim\n", "arg": "mostra soma(1, 'a')\n", "emfunc": "func f(a: int): int\n retorna soma(a, conta)\nfim\nmostra f(3)\n"}),
         ("itensuni", "usa \"lib\" => [Cor]\n", {"uso": "c: Cor = Cor::Vm(3)\niguala c\n Cor::Vm(x) => faca\n  mostra x\n fim,\n Cor::Az => faca\n  mostra 0\n fim\nfim\n", "nao": "c: Cor = Cor::Pr\n"}),
         ("itensnao", "usa \"lib\" => [soma, naoha]\n", {"x": "mostra 1\n"}), ("itensrep", "usa \"lib\" => [soma, soma]\n", {"x": "mostra 1\n"}),
         ("global", "usa \"lib\"\n", {"func": "mostra soma(1, 2)\n", "var": "mostra conta\nmostra passo()\nmostra conta\n", "reg": "p: Pt = Pt(y: 3, x: 4)\nmostra p.tam2()\n", "redecl": "soma: int = 1\n", "uni": "c: Cor = Cor::Vm(3)\niguala c\n Cor::Vm(x) => faca\n  mostra x\n fim,\n Cor::Az => faca\n  mostra 0\n fim\nfim\n", "set": "conta = 5\n"}),
         ("naoha", "usa \"naoha\" => n\n", {"x": "mostra 1\n"}), ("ama", "usa \"lib.ama\" => l\n", {"func": "mostra l.soma(1, 2)\n"}), ("vazio", "usa \"\" => l\n", {"x": "mostra 1\n"}), ("dois", "usa \"lib\" => a\nusa \"lib\" => b\n", {"x": "mostra a.passo()\nmostra b.passo()\nmostra a.conta\n"}),
         ("doisnome", "usa \"lib\" => a\nusa \"lib\" => a\n", {"x": "mostra 1\n"}), ("misto", "usa \"lib\" => a\nusa \"lib\" => [soma]\n", {"x": "mostra a.soma(1, 2)\nmostra soma(3, 4)\n"}), ("mat", "usa \"mat\" => m\n", {"x": "mostra m.abs(qi1())\n", "pi": "mostra m.pi\n"}),
         ("eu", "usa \"main\" => e\n", {"x": "mostra 1\n"})]
    for n, h, bodies in U:
        for b, t in bodies.items():
            yield Case(f"mod/{n}/{b}", None, files={"main.ama": h + prologue(t) + t, "lib.ama": lib})
    cyc = {"main.ama": "usa \"a\" => a\nmostra 1\n", "a.ama": "usa \"b\" => b\nmostra 2\n", "b.ama": "usa \"a\" => a\nmostra 3\n"}
    yield Case("mod/ciclo", None, files=cyc)
    yield Case("mod/ciclomain", None, files={"main.ama": "usa \"a\" => a\nmostra 1\n", "a.ama": "usa \"main\" => b\nmostra 2\n"})
    dia = {"main.ama": "usa \"a\" => a\nusa \"b\" => b\nmostra a.pega()\nmostra b.pega()\nmostra a.pega()\n", "a.ama": "usa \"c\" => c\nmostra 'a'\nfunc pega(): int\n retorna c.mais()\nfim\n",
           "b.ama": "usa \"c\" => c\nmostra 'b'\nfunc pega(): int\n retorna c.mais() * 10\nfim\n", "c.ama": "n: int = 0\nmostra 'c'\nfunc mais(): int\n n = n + 1\n retorna n\nfim\n"}
    yield Case("mod/diamante", None, files=dia)
    sub = {"main.ama": "usa \"dir/x\" => x\nmostra x.f()\n", "dir/x.ama": "usa \"y\" => y\nfunc f(): int\n retorna y.g() + 1\nfim\n", "dir/y.ama": "func g(): int\n retorna 41\nfim\n"}
    yield Case("mod/dir", None, files={**sub, "y.ama": "func g(): int\n retorna 41\nfim\n"})
    yield Case("mod/erro", None, files={"main.ama": "usa \"a\" => a\nmostra 1\n", "a.ama": "mostra 1\nx: int = 'a'\n"})
    yield Case("mod/errosint", None, files={"main.ama": "usa \"a\" => a\nmostra 1\n", "a.ama": "mostra 1\nmostra\n"})
    yield Case("mod/erroprox", None, files={"main.ama": "usa \"a\" => a\n\n\nmostra a.f('x')\n", "a.ama": "func f(n: int)\n mostra n\nfim\n"})
    yield Case("mod/tipos", None, files={"main.ama": "usa \"a\" => a\nusa \"b\" => b\nx: a.R = b.mk(4)\nmostra x.v\n", "a.ama": "registo R\n v: int\nfim\n", "b.ama": "usa \"a\" => q\nfunc mk(n: int): q.R\n retorna q.R(v: n)\nfim\n"})
    yield Case("mod/tiposdif", None, files={"main.ama": "usa \"a\" => a\nusa \"b\" => b\nx: a.R = b.mk(4)\nmostra x.v\n", "a.ama": "registo R\n v: int\nfim\n", "b.ama": "registo R\n v: int\nfim\nfunc mk(n: int): R\n retorna R(v: n)\nfim\n"})
    yield Case("mod/uniext", None, files={"main.ama": "usa \"a\" => [V, mk]\nv: V = mk(qi1())\niguala v\n V::B(x) => faca\n  mostra x\n fim,\n V::A => faca\n  mostra 0\n fim\nfim\n" + "", "a.ama": "uniao V\n A, B(int)\nfim\nfunc mk(n: int): V\n retorna V::B(n)\nfim\n"}) if False else \
        Case("mod/uniext", None, files={"main.ama": "usa \"a\" => [V, mk]\nv: V = mk(3)\niguala v\n V::B(x) => faca\n  mostra x\n fim,\n V::A => faca\n  mostra 0\n fim\nfim\n", "a.ama": "uniao V\n A, B(int)\nfim\nfunc mk(n: int): V\n retorna V::B(n)\nfim\n"})
    yield Case("mod/metext", None, files={"main.ama": "usa \"a\" => a\nr: a.R = a.R(v: 3)\nmet a.R::dobro(alvo): int\n retorna alvo.v * 2\nfim\nmostra r.dobro()\nmostra r.um()\n", "a.ama": "registo R\n v: int\nfim\nmet R::um(alvo): int\n retorna alvo.v + 1\nfim\n"})
    yield Case("mod/ordemexec", None, files={"main.ama": "usa \"b\" => b\nusa \"a\" => a\nmostra 'm'\n", "a.ama": "mostra 'a'\n", "b.ama": "mostra 'b'\n"})
    yield Case("mod/tres", None, files={"main.ama": "usa \"a\" => a\nmostra a.f(2)\n", "a.ama": "usa \"b\" => b\nfunc f(n: int): int\n retorna b.g(n) + b.k\nfim\n", "b.ama": "k: int = 5\nfunc g(n: int): int\n retorna n * k\nfim\n"})
