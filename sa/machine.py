"""Rules over the Rust source of the machine: a few handlers whose faults no image of the compiler can make up for."""
import os
import re

from .interp import AnalysisError
from .vmspec import block, strip_rust

OPS = {"OpAdd": "+", "OpMinus": "-", "OpMul": "*", "OpModulo": "%", "OpGreater": ">", "OpGreaterEq": ">=", "OpLess": "<", "OpLessEq": "<="}


def sources(rep):
    """the Rust files of the machine, without comments and texts"""
    from . import run
    root = os.path.join(run.REPO, "amanda/vm/src")
    out = {}
    for d, _, fs in os.walk(root):
        for f in sorted(fs):
            if f.endswith(".rs"):
                p = os.path.join(d, f)
                out[p] = strip_rust(open(p, encoding="utf-8").read())
    rep.add("rust_files", len(out))
    return out


def at(path, src, i):
    return f"{path}:{src.count(chr(10), 0, i) + 1}"


def bodies(src):
    """name, offset and body of every function"""
    for m in re.finditer(r"\bfn\s+(\w+)[^;{]*\{", src):
        try:
            yield m.group(1), m.start(), block(src, m.end() - 1)[0]
        except AnalysisError:
            continue


def chains(text):
    """the if-chains of a text: (offset, blocks, whether a last else closes it)"""
    for m in re.finditer(r"(?<!else )\bif\b", text):
        i, parts, closed = m.start(), [], False
        try:
            b, i = block(text, i)
            parts.append(b)
            while True:
                e = re.match(r"\s*else\s*(if\b)?", text[i:])
                if not e:
                    break
                b, i = block(text, i + e.end())
                parts.append(b)
                if not e.group(1):
                    closed = True
                    break
        except (AnalysisError, ValueError):
            continue
        yield m.start(), parts, closed


def frames_of_modules(rep):
    """the frame in which the code of an imported module runs belongs to that module, so that calls return to it"""
    src = sources(rep)
    mains = [(p, s, m) for p, s in src.items() for m in re.finditer(r"\bmain\s*:\s*AmaFunc\s*\{", s)]
    rep.add("machine_constructs", len(mains))
    given = any(re.search(r"\.\s*module\s*=[^=]", s) for s in src.values())
    for p, s, m in mains:
        if re.search(r"\bmodule\s*:\s*FuncModule\s*::\s*Main\b", block(s, m.end() - 1)[0]) and not given:
            rep.find("maquina/modulo", at(p, s, m.start()), "the frame of every module's code belongs to the main module, and nothing gives it the module it runs: a function called by an imported module returns to the code of the main module")


def lines_of_frames(rep):
    """the line of each active call is looked up in the line table of the module of that call"""
    for p, s in sources(rep).items():
        for m in re.finditer(r"\boffset_to_line\s*\(", s):
            d, j = 1, m.end()
            while j < len(s) and d:
                d += (s[j] == "(") - (s[j] == ")")
                j += 1
            rep.add("machine_constructs")
            if re.search(r"\bctx_module\b", s[m.end():j]):
                rep.find("maquina/linhas", at(p, s, m.start()), "the line of a call is looked up in the line table of the module that failed, which need not be the module of the call")


def base_of_frames(rep):
    """every call of a function gives its frame a base, so that what the function leaves on the stack is dropped"""
    for p, s in sources(rep).items():
        for m in re.finditer(r"OpCode::CallFunction\s*=>\s*\{", s):
            arm = block(s, m.end() - 1)[0]
            rep.add("machine_constructs")
            for i, parts, closed in chains(arm):
                sets = [bool(re.search(r"\.\s*bp\s*=[^=]", b)) for b in parts]
                if any(sets) and not (closed and all(sets)) and not re.search(r"\.\s*bp\s*=[^=]", arm[:i]):
                    rep.find("maquina/base", at(p, s, m.start()), "a function without parameters and locals gets no base for its frame: the values it leaves on the stack become operands of its caller")
                    break


def inner_vectors(rep):
    """vec builds each inner vector anew"""
    for p, s in sources(rep).items():
        for name, i, body in bodies(s):
            for m in re.finditer(rf"\blet\s+(?:mut\s+)?(\w+)\s*(?::[^=;]*)?=\s*{name}\s*\(", body):
                rep.add("machine_constructs")
                if re.search(rf"\b{m.group(1)}\s*\.\s*clone\s*\(\s*\)", body[m.end():]):
                    rep.find("maquina/vec", at(p, s, i), "the inner vectors of a vector of several dimensions are copies of one, which share the vectors they contain")


def operators(rep):
    """each operator of the machine computes with the operation it is named after, on its operands in their order"""
    for p, s in sources(rep).items():
        for m in re.finditer(r"OpCode::(\w+)\s*=>\s*(?:arith_ops|comp_ops)!\s*\(\s*\w+\s*,\s*(\w+)\s*,\s*([^\s,\w]+)\s*,\s*(?:\w+\s*,\s*)?(\w+)\s*\)", s):
            op, a, sign, b = m.groups()
            rep.add("machine_constructs")
            if op in OPS and (OPS[op] != sign or (a, b) == ("right", "left")):
                rep.find(f"maquina/{op}", at(p, s, m.start()), f"{op} computes {a} {sign} {b}")
