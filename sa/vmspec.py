"""Opcode numbers and operand widths, read from the Rust source of the VM."""
import os
import re
from .interp import AnalysisError


def strip_rust(src):
    """source without comments, string and char literals (blanked, newlines kept)"""
    out = []
    i = 0
    n = len(src)
    while i < n:
        c = src[i]
        if src.startswith("//", i):
            j = src.find("\n", i)
            j = n if j < 0 else j
            i = j
        elif src.startswith("/*", i):
            depth = 1
            j = i + 2
            while j < n and depth:
                if src.startswith("/*", j):
                    depth += 1
                    j += 2
                elif src.startswith("*/", j):
                    depth -= 1
                    j += 2
                else:
                    j += 1
            out.append("\n" * src[i:j].count("\n"))
            i = j
        elif c == '"':
            j = i + 1
            while j < n and src[j] != '"':
                j += 2 if src[j] == "\\" else 1
            out.append('""' + "\n" * src[i:j].count("\n"))
            i = j + 1
        elif c == "'" and re.match(r"'(\\.[^']*|[^\\'])'", src[i:i + 12]):
            m = re.match(r"'(\\.[^']*|[^\\'])'", src[i:i + 12])
            out.append("' '")
            i += m.end()
        else:
            out.append(c)
            i += 1
    return "".join(out)


def block(src, i):
    """text between the braces opening at or after i, and the end offset"""
    j = src.index("{", i)
    d = 0
    for k in range(j, len(src)):
        if src[k] == "{":
            d += 1
        elif src[k] == "}":
            d -= 1
            if d == 0:
                return src[j + 1:k], k + 1
    raise AnalysisError("unbalanced braces in Rust source")


class VMSpec:
    def __init__(self, root):
        vm = os.path.join(root, "amanda/vm/src")
        self.path = os.path.join(vm, "opcode.rs")
        src = strip_rust(open(self.path, encoding="utf-8").read())
        m = re.search(r"enum\s+OpCode\b", src)
        if not m:
            raise AnalysisError("enum OpCode not found in opcode.rs")
        body, _ = block(src, m.end())
        self.discr = {}
        n = 0
        for part in body.split(","):
            part = part.strip()
            mm = re.fullmatch(r"(\w+)(?:\s*=\s*(\w+))?", part)
            if not part:
                continue
            if not mm:
                raise AnalysisError(f"unreadable OpCode variant {part!r}")
            if mm.group(2):
                n = int(mm.group(2), 0)
            self.discr[mm.group(1)] = n
            n += 1
        # decode table: impl From<&u8> for OpCode
        m = re.search(r"impl\s+From\s*<\s*&\s*u8\s*>\s*for\s+OpCode", src)
        if not m:
            raise AnalysisError("impl From<&u8> for OpCode not found")
        body, _ = block(src, m.end())
        self.by_number = {}
        arr = re.search(r"=\s*\[((?:\s*(?:OpCode|Self)::\w+\s*,?)+)\s*\]", body)
        if arr:
            for i, v in enumerate(re.findall(r"(?:OpCode|Self)::(\w+)", arr.group(1))):
                self.by_number[i] = v
        for num, v in re.findall(r"(0x[0-9a-fA-F]+|\d+)\s*(?:=>|\{)\s*(?:OpCode|Self)::(\w+)", body):
            self.by_number[int(num, 0)] = v
        for num, v in re.findall(r"==\s*(0x[0-9a-fA-F]+|\d+)\s*\{\s*(?:return\s+)?(?:OpCode|Self)::(\w+)", body):
            self.by_number[int(num, 0)] = v
        # operand widths: the reads in the arm of the dispatch loop
        self.vm_path = os.path.join(vm, "vm.rs")
        v = strip_rust(open(self.vm_path, encoding="utf-8").read())
        m = re.search(r"match\s+OpCode::from\s*\([^)]*\)", v)
        if not m:
            raise AnalysisError("dispatch match of the VM not found")
        body, _ = block(v, m.end())
        self.arms = {}
        i = 0
        pat = re.compile(r"\s*\|?\s*((?:OpCode::\w+\s*\|?\s*)+)=>\s*")
        while True:
            mm = pat.match(body, i)
            if not mm:
                break
            names = re.findall(r"OpCode::(\w+)", mm.group(1))
            i = mm.end()
            if body[i] == "{":
                text, i = block(body, i)
                i += len(re.match(r"\s*,?", body[i:]).group(0))
            else:
                d = 0
                j = i
                while j < len(body) and not (body[j] == "," and d == 0):
                    d += body[j] in "([{"
                    d -= body[j] in ")]}"
                    j += 1
                text = body[i:j]
                i = j + 1
            for nm in names:
                self.arms[nm] = text
        sizes = {"get_byte": 1, "get_u16_arg": 2, "get_u64_arg": 8}
        self.widths = {}
        for nm in self.discr:
            if nm not in self.arms:
                raise AnalysisError(f"no dispatch arm for OpCode::{nm}")
            self.widths[nm] = [sizes[x] for x in re.findall(r"self\s*\.\s*(get_byte|get_u16_arg|get_u64_arg)\s*\(", self.arms[nm])]
