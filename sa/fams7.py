"""Schema families: every form an expression can be written in at every place one can stand, series (para) with every
form of bounds and bodies that interfere, modules that share names, directories or contents."""
import itertools
import zlib
from .cases import *
from . import fams as F

# expression forms of a kind, besides those of fams.shapes: (name, declarations, text)
def forms(k):
    T = F.RT[k]
    q = f"q{k}"
    decl = f"vv: {T} = {q}5()\nvw: {T} = {q}6()\n"
    S = [("igual", decl, "vv"), ("parpar", "", f"(({q}1()))"), ("elemvar", f"ve: [{T}] = [{T}: {q}5(), {q}6()]\n", "ve[qi1()]"),
         ("campovar", f"registo Qc\n z: {T}\nfim\nrc: Qc = Qc(z: {q}5())\n", "rc.z"), ("valor", f"oo: {T}? = {q}5()\n", "oo.valor"),
         ("func0", f"func f0(): {T}\n retorna {q}5()\nfim\n", "f0()"), ("metvar", f"registo Qm\n z: {T}\nfim\nmet Qm::pega(alvo): {T}\n retorna alvo.z\nfim\nrm: Qm = Qm(z: {q}5())\n", "rm.pega()"),
         ("fundo", f"registo Qd\n z: [{T}]\nfim\nrd: [Qd] = [Qd: Qd(z: [{T}: {q}5(), {q}6()])]\n", "rd[0].z[qi1()]"),
         ("conv", "", {"i": "qt1() :> int", "r": "qt1() :> real", "b": "qt1() :> bool", "t": "qb1() :> texto"}[k]),
         ("convmesmo", "", f"{q}1() :> {T}")]
    if k == "i":
        S += [(n, decl, e) for n, e in (
            ("zero", "0"), ("um", "1"), ("menosum", "-1"), ("menosvar", "-vv"), ("menosmenos", "-(-vv)"), ("menosmenos2", "- - vv"), ("menospar", "-(vv + vw)"),
            ("maiszero", "vv + 0"), ("vezesum", "vv * 1"), ("vezeszero", "vv * 0"), ("zeromais", "0 + vv"), ("menosum2", "vv - 1"), ("umenos", "1 - vv"), ("divum", "vv // 1"), ("modum", "vv % 1"),
            ("simesmo", "vv - vv"), ("soma2", "vv + vv"), ("consts", "2 + 3 * 4"), ("consts2", "7 - 2 - 1"), ("consts3", "2 * (3 + 4)"), ("dir", "vv - (vw - vv)"), ("esq", "vv - vw - vv"),
            ("grande", "9223372036854775807"), ("menosconst", "-5 + vv"), ("mult2", "vv * -1"), ("boolint", "qb1() :> int"), ("realint", "-2.5 :> int"), ("mais", "+vv"))]
    if k == "r":
        S += [(n, decl, e) for n, e in (
            ("zero", "0.0"), ("um", "1.0"), ("menosum", "-1.0"), ("menosvar", "-vv"), ("menosmenos", "-(-vv)"), ("intneg", "-3"), ("intvar", "qi1() + 1"), ("maiszero", "vv + 0"), ("vezesum", "vv * 1"),
            ("zeromais", "0 + vv"), ("divint", "qi1() / 2"), ("divdiv", "vv / vw / vv"), ("consts", "1 / 2"), ("consts2", "1.5 * 2"), ("simesmo", "vv - vv"), ("dir", "vv / (vw / vv)"), ("pequeno", "0.1 + 0.2"),
            ("intdivint", "qi1() // qi2()"), ("realdivint", "vv // 2.0"), ("mod", "vv % 2"), ("mais", "+vv"))]
    if k == "b":
        S += [(n, decl, e) for n, e in (
            ("falso", "falso"), ("naovar", "nao vv"), ("naonao", "nao nao vv"), ("everd", "vv e verdadeiro"), ("efalso", "vv e falso"), ("ouverd", "vv ou verdadeiro"), ("falsoe", "falso e vv"), ("verdou", "verdadeiro ou vv"),
            ("simesmo", "vv == vv"), ("naoeq", "nao (vv == vw)"), ("naolt", "nao (qi1() < qi2())"), ("consts", "1 < 2"), ("consts2", "'a' == 'b'"), ("difverd", "vv != verdadeiro"), ("eqfalso", "vv == falso"),
            ("naoe", "nao vv e vw"), ("naopar", "nao (vv e vw)"), ("naoou", "nao (vv ou nao vw)"), ("nuloesq", "nulo == nulo"), ("eqreal", "qi1() == qr1()"), ("nereal", "qr1() != qi1()"))]
    if k == "t":
        S += [(n, decl, e) for n, e in (
            ("vaziot", "''"), ("espaco", "' a  b '"), ("aspas", '"a\'b"'), ("fstrvar", "f'{vv}'"), ("fstrsem", "f'abc'"), ("fstr2", "f'{vv}{vw}'"), ("fstrop", "f'{1 + 2}'"), ("idxconst", "'abc'[1]"), ("convneg", "-3 :> texto"),
            ("convreal", "2.0 :> texto"), ("convnum", "qi1() + 1 :> texto"), ("acento", "'ação'"), ("escape", "'a\\nb'"))]
    return S


def form_cases(names=None):
    """every place an expression can stand, with every form of expression in it"""
    for k in "irbt":
        for (pn, pd, ps) in F.positions(k):
            if names and pn not in names:
                continue
            for (sn, sd, e) in forms(k):
                if pn == "fstr" and ("'" in e or '"' in e) or (pn, sn) == ("vec", "grande"):
                    continue
                h = zlib.crc32((pn + sn + k).encode()) % 3
                if h == 0:
                    decls = "".join(x for x in sd.splitlines(True))
                    body = ps.replace("{e}", e)
                    if "func " in body or "registo " in sd + pd or "func " in sd + pd or "uniao " in pd:
                        h = 1
                    else:
                        yield Case(f"forma/f/{k}/{pn}/{sn}", "func corre()\n" + ind(decls + pd + body) + "fim\ncorre()\n")
                        continue
                if pn == "ret" and "v" in sd[:3]:
                    yield Case(f"forma/{k}/{pn}/{sn}", f"func ff(): {F.RT[k]}\n" + ind(sd if "registo" not in sd and "func " not in sd else "") + f" retorna {e}\nfim\n" + "mostra ff()\n")
                    continue
                yield Case(f"forma/{k}/{pn}/{sn}", sd + pd + ps.replace("{e}", e))


BOUND = [("c", "0", "4"), ("neg", "-2", "2"), ("negs", "-3", "-1"), ("vazia", "3", "3"), ("inversa", "4", "1"), ("var", "va", "vb"), ("op", "va + 1", "vb * 2"), ("cham", "qi1()", "qi2()"), ("mesma", "va", "va"), ("par", "(1)", "(2 + 1)"), ("tam", "0", "tam(vv)"), ("campo", "rr.a", "rr.b"), ("elem", "vv[0]", "vv[2]")]
INC = [("", ""), ("um", " inc 1"), ("dois", " inc 2"), ("menos", " inc -1"), ("menos2", " inc -2"), ("menospar", " inc -(1)"), ("mm", " inc -(-1)"), ("mm2", " inc - - 2"), ("par", " inc (1)"), ("zero", " inc 0"), ("var", " inc vi"), ("menosvar", " inc -vi"), ("op", " inc vi + 1"), ("dif", " inc vi - 2"),
       ("cham", " inc qi3()"), ("grande", " inc 100"), ("campo", " inc rr.b"), ("elem", " inc vv[0]"), ("conv", " inc '2' :> int"), ("valor", " inc oo.valor"), ("ig", " inc iguala vi\n 1 => 2,\n _ => 3\nfim")]
BODY = [("", ""), ("muda", "i = i + 1\n"), ("mudafim", "vb = vb + 1\n"), ("mudainc", "vi = vi + 1\n"), ("quebra", "se i == 2 entao\n quebra\nfim\n"), ("cont", "se i == 1 entao\n continua\nfim\n"), ("dentro", "para j de 0..2 faca\n mostra j\nfim\n"), ("mesmo", "para i de 5..7 faca\n mostra i\nfim\n"),
        ("sombra", "va: int = 9\nmostra va\n"), ("local", "k: int = i * 2\nmostra k\n"), ("enq", "enquanto qb1() faca\n quebra\nfim\n"), ("mudatam", "anexa(vv, i)\n"), ("se", "se i > 0 entao\n k: int = i\n mostra k\nsenao\n mostra 'z'\nfim\n")]
AFTER = [("", ""), ("usa", "mostra i\n"), ("outra", "i: int = 7\nmostra i\n"), ("repete", "para i de 0..2 faca\n mostra i\nfim\n")]
PRE = "registo Rr\n a: int\n b: int\nfim\n"
VARS = "va: int = 1\nvb: int = 3\nvi: int = 1\nvv: [int] = [int: 2, 1, 3]\nrr: Rr = Rr(a: 0, b: 2)\noo: int? = 2\n"


def series():
    """para with every form of bounds and increment, bodies that change what it is made of, and what follows it"""
    def case(name, a, b, inc, body, after, ctx):
        loop = f"para i de {a}..{b}{inc} faca\n mostra i\n{ind(body)} mostra 'p'\nfim\n{after}mostra 'fim'\n"
        if ctx == "top":
            t = PRE + VARS + loop
        elif ctx == "func":
            t = PRE + "func corre()\n" + ind(VARS + loop) + "fim\ncorre()\n"
        elif ctx == "glob":
            t = PRE + VARS + "func corre()\n" + ind(loop) + "fim\ncorre()\n"
        elif ctx == "param":
            t = PRE + "func corre(va: int, vb: int, vi: int, vv: [int], rr: Rr, oo: int?)\n" + ind(loop) + "fim\ncorre(0, 3, 1, [int: 2, 1, 3], Rr(a: 1, b: 2), 1)\n"
        elif ctx == "met":
            t = PRE + VARS + "met Rr::corre(alvo)\n" + ind(loop) + "fim\nrr.corre()\n"
        else:
            t = PRE + VARS + "se qb9() entao\n" + ind(loop) + "fim\n"
        return Case("serie/" + name, t, limit=26)
    CT = ["top", "func", "glob", "param", "met", "bloco"]
    for n, ((bn, a, b), (inn, inc)) in enumerate(itertools.product(BOUND, INC)):
        yield case(f"{bn}/{inn}", a, b, inc, "", "", CT[zlib.crc32((bn + inn).encode()) % 6])
    for (bdn, body), (inn, inc), (bn, a, b) in itertools.product(BODY[1:], [INC[i] for i in (0, 2, 3, 10)], [BOUND[i] for i in (0, 5, 10)]):
        yield case(f"{bn}/{inn}/{bdn}", a, b, inc, body, "", CT[zlib.crc32((bn + inn + bdn).encode()) % 6])
    for (an, after), (bdn, body), c in itertools.product(AFTER[1:], BODY[:6], CT):
        yield case(f"c/{bdn}/{an}/{c}", "0", "3", "", body, after, c)


def same_names():
    """modules with the same file name, the same contents, the same names inside; main among them"""
    def f(name, **files):
        return Case("mesmos/" + name, None, files={k.replace("__", "/") + ".ama": v for k, v in files.items()})
    one = "n: int = {0}\nmostra {0}\nfunc f(): int\n n = n + 1\n retorna n\nfim\nregisto R\n v: int\nfim\nuniao U\n A, B(int)\nfim\nmet R::tira(alvo): int\n retorna alvo.v + {0}\nfim\n"
    A = {"a__m": one.format(10), "b__m": one.format(20)}
    U = {"var": "mostra x.n\nmostra y.n\n", "func": "mostra x.f()\nmostra y.f()\nmostra x.f()\nmostra x.n\n", "reg": "p: x.R = x.R(v: 1)\nq: y.R = y.R(v: 2)\nmostra p.v\nmostra q.v\n", "met": "p: x.R = x.R(v: 1)\nq: y.R = y.R(v: 2)\nmostra p.tira()\nmostra q.tira()\n",
         "troca": "p: x.R = y.R(v: 1)\n", "uni": "mostra 1\n", "vetor": "w: [x.R] = [x.R: x.R(v: 4)]\nmostra w[0].tira()\n", "vetortroca": "w: [x.R] = [x.R: y.R(v: 4)]\n", "arg": "func g(p: x.R)\n mostra p.v\nfim\ng(y.R(v: 3))\n", "opt": "o: x.R? = y.R(v: 1)\n", "opt2": "o: x.R? = x.R(v: 1)\nmostra o.valor.tira()\n"}
    for n, t in U.items():
        yield f("dirs/" + n, main='usa "a/m" => x\nusa "b/m" => y\n' + t, **A)
        yield f("troca/" + n, main='usa "b/m" => y\nusa "a/m" => x\n' + t, **A)
        yield f("raiz/" + n, main='usa "m" => x\nusa "a/m" => y\n' + t, m=one.format(1), a__m=one.format(2))
        yield f("main/" + n, main='usa "a/main" => x\nusa "b/m" => y\n' + t, a__main=one.format(3), b__m=one.format(4))
        yield f("tres/" + n, main='usa "a/m" => x\nusa "b/m" => y\nusa "c/m" => z\n' + t + "mostra z.f()\n", c__m=one.format(30), **A)
        yield f("iguais/" + n, main='usa "a" => x\nusa "b" => y\n' + t, a=one.format(7), b=one.format(7))
        yield f("via/" + n, main='usa "p" => x\nusa "q" => y\n' + t.replace("x.", "x.").replace("y.", "y."), p='usa "a/m" => i\n' + one.format(5), q='usa "b/m" => i\n' + one.format(6), **A)
        yield f("mesmofich/" + n, main='usa "a/m" => x\nusa "a/m" => y\n' + t, **A)
    # a name of main, of a module and of a module of a module
    for kind, decl, use in (("var", "k: int = {0}\n", "mostra k\n"), ("func", "func k(): int\n retorna {0}\nfim\n", "mostra k()\n"), ("reg", "registo k\n v: int\nfim\n", "mostra k(v: {0}).v\n"),
                            ("met", "registo r\n v: int\nfim\nmet r::k(alvo): int\n retorna {0}\nfim\n", "mostra r(v: 1).k()\n"), ("uni", "uniao k\n A, B(int)\nfim\n", "x: k = k::B({0})\niguala x\n k::A => faca\n  mostra 0\n fim,\n k::B(z) => faca\n  mostra z\n fim\nfim\n")):
        m = lambda n, dep="": dep + decl.format(n) + use.format(n)
        yield f("nivel/" + kind, main=m(1, 'usa "a" => a\n'), a=m(2, 'usa "b" => b\n'), b=m(3))
        yield f("nivel2/" + kind, main=m(1, 'usa "a" => a\nusa "b" => b\n'), a=m(2, 'usa "b" => b\n'), b=m(3))
        yield f("nivel3/" + kind, main='usa "a" => a\n' + use.format(1), a=m(2))
        yield f("nivel4/" + kind, main='usa "a"\n' + m(1), a=m(2))
        yield f("nivel5/" + kind, main='usa "a"\n' + use.format(1), a=m(2))
        yield f("nivel6/" + kind, main='usa "a"\nusa "b"\n' + use.format(1), a=m(2), b=m(3))
        yield f("nivel7/" + kind, main='usa "a"\n' + use.format(1), a='usa "b"\n' + use.format(2), b=m(3))
        yield f("nivel8/" + kind, main='usa "a"\n' + use.format(1), a='usa "b"\nmostra 2\n', b=m(3))
        yield f("nivel9/" + kind, main='usa "a" => a\nusa "a"\n' + use.format(1), a=m(3))
        yield f("nivel10/" + kind, main='usa "a"\nusa "a"\n' + use.format(1), a=m(3))
    # the shape of the graph of modules
    say = lambda n, deps: "".join(f'usa "{d}" => {d}\n' for d in deps) + f"mostra '{n}'\nfunc diz(): texto\n retorna '{n}'\nfim\n" + "".join(f"mostra {d}.diz()\n" for d in deps)
    for i, g in enumerate(({"main": "ab", "a": "", "b": ""}, {"main": "ab", "a": "b", "b": ""}, {"main": "ba", "a": "b", "b": ""}, {"main": "abc", "a": "c", "b": "c", "c": ""}, {"main": "a", "a": "b", "b": "c", "c": "d", "d": ""},
                           {"main": "abcd", "a": "bcd", "b": "cd", "c": "d", "d": ""}, {"main": "dcba", "a": "bcd", "b": "cd", "c": "d", "d": ""}, {"main": "ab", "a": "c", "b": "d", "c": "d", "d": ""}, {"main": "a", "a": "a"}, {"main": "a", "a": "b", "b": "c", "c": "a"},
                           {"main": "ab", "a": "b", "b": "a"}, {"main": "ab", "a": "", "b": "c", "c": "b"}, {"main": "aab", "a": "", "b": "a"})):
        yield f(f"grafo/{i}", **{n: say(n, d) for n, d in g.items()})
    # paths to modules
    lib = "func f(): int\n retorna 5\nfim\nmostra 'l'\n"
    for i, p in enumerate(("d/l", "d/l.ama", "./d/l", "d/../d/l", "d//l", "d/./l", "/d/l", "../l", "d/l/", "d", ".", "..", "d\\l", " d/l", "d/l ", "D/L", "d/l.AMA", "d/l.ama.ama")):
        yield f(f"caminho/{i}", main=f'usa "{p}" => x\nmostra x.f()\n', d__l=lib)
    for i, (p, q) in enumerate((("d/l", "d/l.ama"), ("d/l", "./d/l"), ("d/l", "d/../d/l"), ("d/l", "d//l"))):
        yield f(f"caminhos2/{i}", main=f'usa "{p}" => x\nusa "{q}" => y\nmostra x.f()\nmostra y.f()\n', d__l=lib)
    # the standard library and files of its names
    for i, (fs) in enumerate(({"main": 'usa "mat" => m\nmostra m.f()\n', "mat": lib}, {"main": 'usa "d/l" => x\nmostra x.g()\n', "d__l": 'usa "mat" => m\nfunc g(): int\n retorna m.f()\nfim\n', "mat": lib}, {"main": 'usa "embutidos" => m\nmostra m.f()\n', "embutidos": lib},
                              {"main": 'usa "mat" => m\nmostra m.f()\n', "d__mat": lib}, {"main": 'usa "d/mat" => m\nusa "mat" => n\nmostra m.f()\n', "d__mat": lib})):
        yield f(f"padrao/{i}", **fs)


def many():
    """many of everything a table or a message lists: fields, variants, names, constants, functions, modules, patterns"""
    names = ["zeta", "alfa", "m1", "bravo", "x", "ultimo", "k9", "delta", "n", "charlie", "y2", "foxtrot"]
    n12 = list(enumerate(names))
    reg = "registo Rg\n" + "".join(f" {n}: int\n" for n in names) + "fim\n"
    ini = "Rg(" + ", ".join(f"{n}: {i}" for i, n in reversed(n12)) + ")"
    uni = "uniao Un\n " + ", ".join(f"V{n}" + ("(int)" if i % 3 == 0 else "(texto, int)" if i % 3 == 1 else "") for i, n in n12) + "\nfim\n"
    var = lambda i, n: f"Un::V{n}" + (f"({i})" if i % 3 == 0 else f"('{n}', {i})" if i % 3 == 1 else "")
    pat = lambda i, n, k="_": f"Un::V{n}" + (f"({k})" if i % 3 == 0 else f"({k}, _)" if i % 3 == 1 else "")
    P = {
        "campos": reg + f"r: Rg = {ini}\n" + "".join(f"mostra r.{n}\n" for n in names),
        "camposerr": reg + "r: Rg = Rg(" + ", ".join(f"{n}: {i}" for i, n in n12[::2]) + ")\nmostra r.naoha\n",
        "camposerr2": reg + "r: Rg = Rg(naoha: 1, tambem: 2, nem: 3)\n",
        "variantes": uni + "".join(f"u{i}: Un = {var(i, n)}\n" for i, n in n12) + "iguala u3\n" + "".join(f" {pat(i, n)} => faca\n  mostra '{n}'\n fim,\n" for i, n in reversed(n12))[:-2] + "\nfim\n",
        "variantesfalta": uni + "u: Un = Un::Vm1\niguala u\n" + "".join(f" {pat(i, n)} => faca\n  mostra '{n}'\n fim,\n" for i, n in n12[::4])[:-2] + "\nfim\n",
        "variantesfalta2": uni + "u: Un = Un::Vm1\nse qb1() entao\n iguala u\n  Un::Vzeta(3) => faca\n   mostra 1\n  fim\n fim\nfim\n",
        "varianteserr": uni + "u: Un = Un::Vnada\n",
        "constantes": "".join(f"mostra {c}\n" for c in ("1", "1.0", "'1'", "verdadeiro", "falso", "2.5", "'verdadeiro'", "9", "'9'", "10", "'a'", "'b'", "0.5", "77", "'zz'", "100.25")),
        "globais": "".join(f"{n}: int = {i}\n" for i, n in n12) + "".join(f"mostra {n}\n" for n in reversed(names)),
        "locais": "func corre()\n" + "".join(f" {n}: int = {i}\n" for i, n in n12) + "".join(f" mostra {n}\n" for n in reversed(names)) + "fim\ncorre()\n",
        "blocos": "se qb1() entao\n" + "".join(f" {n}: int = {i}\n" for i, n in n12) + "".join(f" mostra {n}\n" for n in reversed(names)) + "fim\n",
        "params": "func corre(" + ", ".join(f"{n}: int" for n in names) + ")\n" + "".join(f" mostra {n}\n" for n in reversed(names)) + "fim\ncorre(" + ", ".join(str(i) for i in range(12)) + ")\n",
        "funcoes": "".join(f"func {n}(a: int): int\n retorna a + {i}\nfim\n" for i, n in n12) + "".join(f"mostra {n}({i})\n" for i, n in reversed(n12)),
        "metodos": "registo Q\n a: int\nfim\n" + "".join(f"met Q::{n}(alvo): int\n retorna alvo.a + {i}\nfim\n" for i, n in n12) + "q: Q = Q(a: 1)\n" + "".join(f"mostra q.{n}()\n" for n in reversed(names)),
        "registos": "".join(f"registo T{n}\n a: int\n b: texto\nfim\n" for n in names) + "".join(f"t{i}: T{n} = T{n}(b: 'x', a: {i})\nmostra t{i}.a\n" for i, n in reversed(n12)),
        "unioes": "".join(f"uniao T{n}\n A{i}, B{i}(int)\nfim\n" for i, n in n12) + "".join(f"t{i}: T{n} = T{n}::B{i}({i})\nse iguala t{i} => T{n}::B{i}(k) entao\n mostra k\nfim\n" for i, n in reversed(n12)),
        "casos": "escolha qi1():\n" + "".join(f" caso {i * 7}:\n  mostra '{n}'\n" for i, n in n12) + " senao:\n  mostra 'z'\nfim\n",
        "igualas": "mostra iguala qi1()\n" + "".join(f" {i * 7} => '{n}',\n" for i, n in n12) + " _ => 'z'\nfim\n",
        "capturas": "uniao W\n K(int, int, int, int, int, int)\nfim\nw: W = W::K(1, 2, 3, 4, 5, 6)\niguala w\n W::K(zeta, alfa, m1, bravo, x, k9) => faca\n  mostra zeta\n  mostra alfa\n  mostra k9\n fim\nfim\n",
        "texto": "mostra f'" + "".join(f"{{{i}}}-" for i in range(12)) + "'\n",
        "aninhados": uni + "uniao P\n Pr(Un, Un), Nd\nfim\np: P = P::Nd\niguala p\n P::Pr(Un::Vzeta(_), _) => faca\n  mostra 1\n fim,\n P::Pr(_, Un::Valfa(_, 3)) => faca\n  mostra 2\n fim\nfim\n",
    }
    for k, t in P.items():
        yield Case("muitos/" + k, t)
    mods = {f"{n}.ama": f"mostra '{n}'\nv{n}: int = {i}\nfunc f{n}(): int\n retorna v{n}\nfim\nregisto R{n}\n a: int\nfim\nuniao U{n}\n A, B(int)\nfim\n" for i, n in n12}
    yield Case("muitos/modulos", None, files={"main.ama": "".join(f'usa "{n}" => {n}\n' for n in names) + "".join(f"mostra {n}.f{n}()\n" for n in reversed(names)), **mods})
    yield Case("muitos/modulositens", None, files={"main.ama": "".join(f'usa "{n}" => [f{n}, R{n}, v{n}, U{n}]\n' for n in names) + "".join(f"mostra f{n}()\nmostra R{n}(a: 1).a\n" for n in reversed(names)), **mods})
    yield Case("muitos/modulosglobais", None, files={"main.ama": "".join(f'usa "{n}"\n' for n in names) + "".join(f"mostra f{n}()\n" for n in reversed(names)), **mods})
    yield Case("muitos/itens", None, files={"main.ama": 'usa "lib" => [' + ", ".join(names) + "]\n" + "".join(f"mostra {n}()\n" for n in reversed(names)), "lib.ama": "".join(f"func {n}(): int\n retorna {i}\nfim\n" for i, n in n12)})
    yield Case("muitos/itensnao", None, files={"main.ama": 'usa "lib" => [' + ", ".join(names) + "]\n", "lib.ama": "".join(f"func {n}(): int\n retorna {i}\nfim\n" for i, n in n12[5:])})
    yield Case("muitos/genericos", "registo C[T, K]\n v: T\n w: K\nfim\nx: C[int, texto] = C(v: 1, w: 'a')\nmostra x.v\nmostra x.w\n")
    for i, t in enumerate(("mostra naodeclarado\n", "x: int = 'a'\n", "mostra 1.naoha\n", "registo R\n a: int\nfim\nr: R = R(a: 1)\nmostra r.b\n", "r: int? = 1\nmostra r.naoha\n", "func f(a: int)\nfim\nmostra f.x\n", "uniao U\n A\nfim\nmostra U.A\n", "mostra qi1\n", "x: [int] = [texto: 'a']\n", "registo R\n a: int\nfim\nx: int = R(a: 1)\n",
                           "uniao U\n A\nfim\nx: int = U::A\n", "registo R\n a: int\nfim\nx: [R?] = [int: 1]\n", "func f(): int\n retorna nulo\nfim\n", "registo R\n a: int\nfim\nmostra R + 1\n", "mostra int + 1\n", "registo R\n a: int\nfim\nr: R = R(a: 1)\nmostra r + r\n", "registo R\n a: int\nfim\nr: R = R(a: 1)\nr()\n", "registo R\n a: int\nfim\nr: R = R(a: 1)\nr[0] = 1\n",
                           "usa \"mat\" => m\nmostra m\n", "usa \"mat\" => m\nx: int = m\n", "usa \"mat\" => m\nmostra m.naoha\n", "usa \"mat\" => m\nm.naoha()\n", "registo R\n a: int\nfim\nr: R = R(a: 1)\nmostra r :> int\n", "uniao U\n A\nfim\nu: U = U::A\nmostra u :> texto\n", "uniao U\n A, B(int)\nfim\nu: U = U::B\n", "uniao U\n A, B(int)\nfim\nmostra U::B\n")):
        yield Case(f"muitos/erro/{i}", t)
