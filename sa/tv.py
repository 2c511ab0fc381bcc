"""Comparison of the compiler (abstractly interpreted) with the language definition on one program schema."""
from . import ref
from .bcvm import Machine
from .front import Front
from .interp import AnalysisError
from .terms import *


class Diff:
    def __init__(self, kind, detail, line=None, where=None):
        self.kind = kind          # verdict, line, crash, behaviour
        self.detail = detail
        self.line = line
        self.where = where

    def __repr__(self):
        return f"[{self.kind}] {self.detail}"


def show_ev(ev):
    at = ""
    if isinstance(ev[-1], tuple) and ev[-1] and isinstance(ev[-1][0], tuple) and len(ev[-1][0]) == 2 and isinstance(ev[-1][0][1], int):
        at = " at line " + " called from line ".join(str(n) for _, n in reversed(ev[-1]))
        ev = ev[:-1]
    return show_ev1(ev) + at


def show_ev1(ev):
    if ev[0] == "show":
        return "mostra " + show(ev[1])
    if ev[0] == "call":
        return f"{ev[1]}({', '.join(show(a) for a in ev[2])})"
    return " ".join(show(x) if isinstance(x, tuple) else str(x) for x in ev)


def show_path(d):
    return " & ".join(("" if v else "not ") + show(k) for k, v in d.items()) or "always"


class TV:
    def __init__(self, front=None, spec=None, root="/repo", limit=30, maxd=6, maxpaths=64):
        from .vmspec import VMSpec
        self.front = front or Front(root)
        self.spec = spec or VMSpec(root)
        self.limit, self.maxd, self.maxpaths = limit, maxd, maxpaths
        self.stats = dict(schemas=0, accepted=0, rejected=0, paths=0, events=0, instructions=0)

    def std(self):
        import os
        if not hasattr(self, "_std"):
            self._std = {n: open(os.path.join(self.front.std, n), encoding="utf-8").read()
                         for n in sorted(os.listdir(self.front.std)) if n.endswith(".ama")}
        return self._std

    def reference(self, files, main):
        try:
            return ("accept", ref.analyse(files, main, self.std()))
        except ref.Reject as e:
            return ("reject", e)

    def check(self, files, main="main.ama", lines=False, reject_line=True, limit=None, prep=None):
        """list of Diff; [] when the compiler agrees with the definition on every path"""
        if isinstance(files, str):
            files = {main: files}
        self.stats["schemas"] += 1
        try:
            want, r = self.reference(files, main)
        except ref.Skip:
            # a program the definition does not speak of: the compiler must not break down on it all the same
            o = self.front.compile(files, main, prep=prep)
            if o.kind == "crash":
                return [Diff("crash", f"the compiler breaks down: {o.exc} (in {o.stage})", where=o.where)]
            raise
        o = self.front.compile(files, main, prep=prep)
        self.last = (want, r, o)
        if o.kind == "crash":
            if want == "reject":
                return [Diff("crash", f"the compiler breaks down ({o.exc}, in {o.stage}) instead of rejecting: {r}",
                             where=o.where)]
            return [Diff("crash", f"the compiler breaks down on a valid program: {o.exc} (in {o.stage})",
                         where=o.where)]
        if want != o.kind:
            if want == "reject":
                return [Diff("verdict", f"accepted, but the language rejects it: {r}", r.line)]
            return [Diff("verdict", f"rejected at line {o.line}, but it is valid: {o.message}", o.line, o.where)]
        if want == "reject":
            self.stats["rejected"] += 1
            if reject_line and r.line is not None and o.line != r.line:
                return [Diff("line", f"rejected at line {o.line} instead of {r.line}: {o.message} / {r.why}", r.line)]
            if r.file in files and (not isinstance(o.fpath, str) or self.front._norm(o.fpath) != self.front._norm(r.file)):
                return [Diff("line", f"rejected in file {o.fpath} instead of {r.file}: {o.message} / {r.why}", r.line)]
            return []
        self.stats["accepted"] += 1
        return self.behaviour(r, o.module, lines, limit or self.limit)

    def behaviour(self, checker, module, lines, limit):
        todo = [{}]
        n = 0
        cover = set()
        while todo:
            d = todo.pop()
            n += 1
            if n > self.maxpaths:
                break
            tr = Trace(d, limit)
            stop_at = None
            ev = ref.Eval(checker, tr, lines)
            undefined = False
            try:
                ev.run()
            except Fault:
                undefined = True          # the definition gives this path no meaning beyond this point
            except NeedDecision as e:
                if len(d) < self.maxd:
                    todo.append({**d, e.atom: True})
                    todo.append({**d, e.atom: False})
                    continue
                stop_at = e.atom
            tm = Trace(d, limit)
            m = Machine(module, self.spec, tm, lines=lines)
            asked = None
            try:
                m.run()
            except NeedDecision as e:
                asked = e.atom
            cover |= m.cover
            self.stats["paths"] += 1
            self.stats["events"] += len(tr.events)
            if asked is not None and asked != stop_at and len(d) < self.maxd + 3:
                # the order in which pure conditions are looked at is not observable
                k = min(len(tr.events), len(tm.events))
                if tr.events[:k] == tm.events[:k]:
                    todo.append({**d, asked: True})
                    todo.append({**d, asked: False})
                    continue
            k = min(len(tr.events), len(tm.events))
            if undefined:
                self.stats["undefined"] = self.stats.get("undefined", 0) + 1
                if tr.events != tm.events[:len(tr.events)]:
                    return [Diff("behaviour", self.explain(d, tr.events, tm.events, stop_at, asked))]
                continue
            if stop_at is not None and asked != stop_at and tr.events[:k] == tm.events[:k]:
                # the definition stops at a decision the compiled code does not need (yet): look further
                if len(d) < self.maxd + 5:
                    todo.append({**d, stop_at: True})
                    todo.append({**d, stop_at: False})
                else:
                    self.stats["cut"] = self.stats.get("cut", 0) + 1
                continue
            if tr.events != tm.events or asked != stop_at:
                return [Diff("behaviour", self.explain(d, tr.events, tm.events, stop_at, asked))]
        self.stats["instructions"] += len(cover)
        return []

    def explain(self, d, a, b, sa, sb):
        i = 0
        while i < len(a) and i < len(b) and a[i] == b[i]:
            i += 1
        ga = show_ev(a[i]) if i < len(a) else f"a decision on {show(sa)}" if sa else "nothing more"
        gb = show_ev(b[i]) if i < len(b) else f"a decision on {show(sb)}" if sb else "nothing more"
        pre = "; ".join(show_ev(e) for e in a[max(0, i - 3):i])
        return f"on the path [{show_path(d)}] after [{pre}] the language gives <{ga}>, the compiled code <{gb}>"
