"""setup: checks that the analysed tree and the interpreter are there (nothing has to be built)"""
import os
import sys

if __name__ == "__main__":
    root = os.environ.get("SA_REPO", "/repo")
    for p in ("amanda/compiler/codegen.py", "amanda/vm/src/opcode.rs", "std"):
        if not os.path.exists(os.path.join(root, p)):
            sys.exit(f"missing {p}")
    print("nothing to build, python", sys.version.split()[0])
