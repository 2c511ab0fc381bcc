"""Abstract evaluation of the whole front end on a program schema.

Nothing of /repo is imported or executed by Python: the syntax trees of its
modules are walked by sa.interp_core, on a virtual file system that holds the
schema and the repository's own standard-library sources.
"""
import os
import sys
import threading
from .interp import *
from .interp_core import IOV

V = "/v"           # the virtual directory of a schema's files
sys.setrecursionlimit(200000)
threading.stack_size(512 * 1024 * 1024)


class Outcome:
    """accept (with the compiled module dictionary), reject or crash"""

    def __init__(self, kind, module=None, message=None, line=None, exc=None, where=None, stage=None,
                 fpath=None, extra=None, err_type=None):
        self.kind = kind
        self.module = module
        self.message = message
        self.line = line
        self.exc = exc
        self.where = where
        self.stage = stage
        self.fpath = fpath
        self.err_type = err_type
        self.extra = extra or {}

    def __repr__(self):
        if self.kind == "accept":
            return "accept"
        if self.kind == "reject":
            return f"reject at line {self.line}: {self.message}"
        return f"crash in {self.stage}: {self.exc} ({self.where})"


class Front:
    MODULES = ["amanda.compiler.codegen", "amanda.compiler.check.core", "amanda.compiler.parse",
               "amanda.compiler.transform", "amanda.compiler.bindump", "amanda.compiler.error",
               "amanda.compiler.module"]

    def __init__(self, root="/repo", max_steps=3_000_000):
        self.root = root
        self.program = Program(root)
        self.files = {}
        hooks = {
            "ext:open": self._open, "open": self._open, "ext:builtins.open": self._open,
            "ext:io.open": self._open,
            "ext:os.path.isfile": self._isfile, "ext:os.path.isdir": self._isdir,
            "ext:os.path.exists": self._exists,
            "ext:os.path.abspath": self._abspath, "ext:os.path.realpath": self._abspath,
        }
        self.ip = Interp(self.program, hooks, seq_bound=2, while_bound=4000, max_depth=700, max_steps=max_steps)
        ip = self.ip
        self.cfg = ip.load("amanda.config")
        self.cfg.ns["BUNDLED"] = False
        self.std = os.path.join(root, "std")
        self.cfg.ns["STD_LIB"] = self.std
        for m in self.MODULES:
            ip.load(m)
        self.g = ip.get
        self.std_trees = {}
        self.memo = True
        ip.hooks["amanda.compiler.parse.parse"] = self._parse
        self.runs = 0

    # ------------------------------------------------------------- virtual fs
    def _norm(self, p):
        p = os.fspath(p)
        return os.path.normpath(os.path.join(V, p))

    def _parse(self, ip, f, bound):
        """trees of the standard library are evaluated once and copied afterwards"""
        p = bound.get("filename", next(iter(bound.values())))
        if not self.memo or not isinstance(p, str) or not self._norm(p).startswith(self.std + "/"):
            return NotImplemented
        p = self._norm(p)
        if p not in self.std_trees:
            self.std_trees[p] = ip.run_func(f, bound)
        return ip.copy_val(self.std_trees[p], True, {})

    def _content(self, p):
        p = self._norm(p)
        if p in self.files:
            return self.files[p]
        if p.startswith(self.std + "/") and os.path.isfile(p):
            return open(p, encoding="utf-8").read()
        return None

    def _open(self, ip, a, k):
        mode = k.get("mode", a[1] if len(a) > 1 else "r")
        ip.emit("open", path=a[0], mode=mode)
        c = self._content(a[0])
        if c is None:
            raise PyRaise(FileNotFoundError(a[0]), crash=True, where=ip.loc)
        return IOV("b" in mode, [c.encode() if "b" in mode else c])

    def _isfile(self, ip, a, k):
        return self._content(a[0]) is not None

    def _isdir(self, ip, a, k):
        p = self._norm(a[0])
        return p in (V, self.std) or any(f.startswith(p + "/") for f in self.files)

    def _exists(self, ip, a, k):
        return self._isfile(ip, a, k) or self._isdir(ip, a, k)

    def _abspath(self, ip, a, k):
        return self._norm(a[0])

    # ---------------------------------------------------------------- driving
    def compile(self, files, main="main.ama", raw=False, want=None, upto="codegen", prep=None):
        """files: {name: text} or text. Evaluates parse → analysis → code generation."""
        if isinstance(files, str):
            files = {main: files}
        self.files = {os.path.join(V, n): t for n, t in files.items()}
        fpath = os.path.join(V, main)
        st = {"stage": "parse"}
        self.runs += 1
        self.ip.analysed = {}

        def entry(ip):
            st["stage"] = "parse"
            tree = ip.call(self.g("amanda.compiler.parse:parse"), [fpath], {})
            st["tree"] = tree
            if upto == "parse":
                return tree
            st["stage"] = "analysis"
            mod = ip.instantiate(self.g("amanda.compiler.module:Module"), [fpath], {})
            an = ip.instantiate(self.g("amanda.compiler.check.core:Analyzer"), [fpath, [], mod], {})
            st["analyzer"] = an
            r = ip.call_method(an, "visit_module", [tree])
            m, imports = ip.iterate(r)
            st["module"] = m
            st["imports"] = imports
            if upto == "analysis":
                return None
            st["stage"] = "codegen"
            bg = ip.instantiate(self.g("amanda.compiler.codegen:ByteGen"), [m], {})
            st["bytegen"] = bg
            if prep:
                prep(ip, bg)
            out = ip.call_method(bg, "compile", [imports], {"raw": raw})
            if want:
                want(ip, st)
            return out
        res = list(self.ip.explore(entry, max_paths=8))
        if len(res) != 1:
            raise AnalysisError(f"{len(res)} paths on a closed schema: " +
                                "; ".join(str(r.trace) for r in res[:3]))
        r = res[0]
        if r.outcome == "return":
            return Outcome("accept", r.value, extra=dict(st, events=r.events))
        if r.outcome == "prune":
            return Outcome("crash", None, exc=f"no termination within the bound ({r.exc})", where=self.ip.loc,
                           stage=st["stage"], extra=dict(st, events=r.events))
        e = r.exc
        v = e.value
        if isinstance(v, Obj) and v.cls.name == "AmandaError":
            g = lambda n: self.ip.getattr(v, n, None)
            return Outcome("reject", None, g("message"), g("line"), stage=st["stage"], fpath=g("fpath"),
                           err_type=g("err_type"), extra=dict(st, events=r.events, exc_obj=v), where=e.where)
        return Outcome("crash", None, exc=f"{e.name()}: {v}", where=e.where, stage=st["stage"],
                       extra=dict(st, events=r.events))
