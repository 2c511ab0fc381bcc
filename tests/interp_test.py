"""Compares the abstract interpreter with CPython on tests/snippets.py: python3 tests/interp_test.py [name...]"""
import os, sys, io, contextlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.path.insert(0, HERE)
from sa.interp import *
from sa.run import roomy
import ast


def norm(v):
    if isinstance(v, EnumM):
        return ("E", v.name)
    import enum
    if isinstance(v, enum.Enum):
        return ("E", v.name)
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    if isinstance(v, (set, frozenset)):
        return ("set", sorted(map(repr, map(norm, v))))
    if isinstance(v, dict):
        return {repr(norm(k)): norm(x) for k, x in v.items()}
    if isinstance(v, Obj):
        if v.native is not None:
            return norm(v.native)
        return "obj"
    if isinstance(v, (NativeV, FuncV, BoundV, Ext, ClassV)) or callable(v):
        return "fn"
    return v


def one(name):
    import snippets
    with contextlib.redirect_stdout(io.StringIO()):
        want = getattr(snippets, name)()
    ip = Interp(Program(HERE), {}, seq_bound=2, while_bound=4000, max_depth=300, max_steps=3_000_000)
    try:
        ip.load("snippets")
        f = ip.get("snippets:" + name)
        res = list(ip.explore(lambda ip: ip.call(f, [], {}), max_paths=4))
    except AnalysisError as e:
        return f"UNSUPPORTED {e}"
    if len(res) != 1:
        return f"{len(res)} paths"
    r = res[0]
    if r.outcome != "return":
        v = getattr(r.exc, "value", r.exc)
        return f"{r.outcome} {r.exc.name() if hasattr(r.exc, 'name') else r.exc}: {v} {ip.loc}"
    a, b = norm(want), norm(r.value)
    if a != b or repr(a) != repr(b):
        if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
            d = [(i, x, y) for i, (x, y) in enumerate(zip(a, b)) if x != y or repr(x) != repr(y)]
            return f"DIFFERENT {d}"
        return f"DIFFERENT {a} / {b}"


if __name__ == "__main__":
    names = sys.argv[1:] or [n.name for n in ast.parse(open(HERE + "/snippets.py").read()).body if isinstance(n, ast.FunctionDef)]
    bad = 0
    for n in names:
        try:
            r = roomy(one, n)
        except Exception as e:
            r = f"EXC {type(e).__name__}: {e}"
            if os.environ.get("TB"): raise
        if r:
            bad += 1
            print(n, r)
    print(len(names), "snippets,", bad, "bad")
