"""Runs the check of one property: python3 -m sa.run <id> [--tier quick|thorough]"""
import argparse
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

from .modes import MODES
from .ref import Skip

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")
EVID = os.path.join(HERE, "evidence")
T = None


def init():
    global T
    from .tv import TV
    T = TV(root=REPO)


def roomy(f, x):
    return f(x)


# one large chunk of the interpreter's own frame stack instead of many small ones taken and given back
roomy.__code__ = roomy.__code__.replace(co_stacksize=(1 << 20) + 1000)


def work(case):
    return roomy(work1, case)


def work1(case):
    try:
        diffs = MODES[case.mode](case, T, REPO)
        ents = dict(T.front.ip.analysed)
        st, T.stats = T.stats, {k: 0 for k in T.stats}
        return case.name, diffs, ents, st, T.last[0], None
    except Skip as e:
        st, T.stats = T.stats, {k: 0 for k in T.stats}
        st["outside_the_definition"] = 1
        return case.name, [], {}, st, "skip", None
    except Exception as e:
        st, T.stats = T.stats, {k: 0 for k in T.stats}
        return case.name, [], {}, st, None, f"{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}"


def load_known():
    p = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p, encoding="utf-8"):
            l = l.strip()
            if l.startswith("{"):
                out.append(json.loads(l))
    return out


class Report:
    """what a check found and covered"""

    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.findings = []        # (key, construct, text, extra)
        self.errors = []
        self.cov = {}
        self.functions = {}
        self.samples = []
        self.families = {}
        self.evaluations = 0
        self.distinct = set()
        self.rules = []

    def find(self, key, construct, text, extra=None):
        self.findings.append((key, construct, text, extra or {}))

    def add(self, k, n=1):
        self.cov[k] = self.cov.get(k, 0) + n


def run_cases(rep, cases, sample=8):
    cases = list(cases)
    names = set()
    for c in cases:
        if c.name in names:
            raise SystemExit(f"duplicate schema name {c.name}")
        names.add(c.name)
    by = {c.name: c for c in cases}
    passing, failing, ents_of = {}, [], {}
    init()
    fam = {}
    with mp.Pool(min(8, os.cpu_count() or 1)) as pool:
        for name, diffs, ents, st, verdict, err in pool.imap_unordered(work, cases, chunksize=4):
            for k, v in st.items():
                rep.add(k, v)
            rep.evaluations += 1
            rep.functions.update(ents)
            f = name.split("/")[0]
            d = fam.setdefault(f, {"schemas": 0, "accept": 0, "reject": 0, "skip": 0})
            d["schemas"] += 1
            if verdict:
                d[verdict] += 1
            rep.distinct.add(name)
            if err:
                rep.errors.append(f"{name}: {err}")
            elif diffs:
                failing.append((name, diffs, set(ents)))
                ents_of.update(ents)
            else:
                for e in ents:
                    passing[e] = passing.get(e, 0) + 1
    for name, diffs, ents in sorted(failing, key=lambda x: x[0]):
        rank = sorted((e for e in ents if "compiler" in e), key=lambda e: (passing.get(e, 0), e))[:5]
        cons = ", ".join(f"{e.split(':')[-1]} ({os.path.relpath(ents_of[e].rsplit(':', 1)[0], REPO)}"
                         f":{ents_of[e].rsplit(':', 1)[1]})" for e in rank)
        for kind, detail, where in diffs:
            if where:
                detail += f" [at {where}]"
            rep.find(f"{name}#{kind}", cons, detail, {"files": by[name].files, "main": by[name].main})
    rep.families.update(fam)
    ok = [c for c in cases if c.name not in {x[0] for x in failing}]
    step = max(1, len(ok) // sample)
    rep.samples += [{"schema": c.name, "text": "\n".join(c.files.values())[:600]} for c in ok[::step][:sample]]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default="quick")
    a = ap.parse_args()
    t0 = time.time()
    from . import checks
    c = checks.CHECKS[a.pid]
    rep = Report(a.pid, a.tier)
    try:
        c.run(rep)
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        rep.errors.append(f"{type(e).__name__}: {e}\n{traceback.format_exc()[-2500:]}")
    finish(rep, c, t0)


def finish(rep, c, t0):
    known = [k for k in load_known() if k["property"] == rep.pid]
    viol, hit = [], {}
    for key, cons, text, extra in rep.findings:
        k = next((k for k in known if k["key"] == key and k.get("contains", "") in text), None)
        if k:
            hit.setdefault(k["key"], k)
        else:
            viol.append((key, cons, text, extra))
    os.makedirs(EVID, exist_ok=True)
    for k in hit.values():
        print(f"KNOWN-FINDING: property={rep.pid} {k['key']}: {k['what']}")
    for n, (k, floor) in enumerate(c.floors.items() if hasattr(c, "floors") else ()):
        pass
    short = [f"{k}: {rep.cov.get(k, 0)} < {v}" for k, v in getattr(c, "floors", {}).items()
             if rep.cov.get(k, 0) < v]
    if short and not viol:
        rep.errors.append("coverage fell below the confirmed floor: " + "; ".join(short))
    vdir = os.path.join(EVID, "violations")
    paths = []
    for n, (key, cons, text, extra) in enumerate(viol[:40]):
        os.makedirs(vdir, exist_ok=True)
        p = os.path.join(vdir, f"{rep.pid}-{n}.json")
        json.dump({"property": rep.pid, "key": key, "construct": cons, "detail": text, **extra},
                  open(p, "w"), ensure_ascii=False, indent=1)
        paths.append(p)
        print(f"VIOLATION property={rep.pid} replay={p}")
        print(f"  {key}\n  {text[:700]}\n  construct: {cons}")
    cov = {k: v for k, v in rep.cov.items() if v}
    cov.update(functions_analysed=len(rep.functions), families=rep.families, rules=rep.rules or c.rules)
    cov["explanation"] = c.explain
    if c.level == "translation_validation":
        cov.update(programs=rep.evaluations, disagreements_checked=rep.cov.get("paths", 0), samples=rep.samples)
    elif c.level == "exploration":
        cov.update(evaluations=rep.evaluations, distinct_nontrivial=len(rep.distinct),
                   rule="; ".join(rep.rules or c.rules), samples=rep.samples)
    ev = {"property": rep.pid, "tier": rep.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": c.level,
          "coverage": cov, "wall_s": round(time.time() - t0, 2)}
    ev["assumptions"] = list(getattr(c, "assumptions", []))
    if viol:
        ev["violations"] = [{"key": k, "construct": co, "detail": t[:500]} for k, co, t, _ in viol[:40]]
    json.dump(ev, open(os.path.join(EVID, rep.pid + ".json"), "w"), ensure_ascii=False, indent=1)
    print(f"{rep.pid}: {rep.evaluations} schemas, {json.dumps({k: v for k, v in rep.cov.items()})}, "
          f"{len(rep.functions)} functions analysed, {len(viol)} violations, {len(hit)} known, "
          f"{round(time.time() - t0, 1)} s")
    for e in rep.errors[:5]:
        print("ANALYSIS-ERROR:", e, file=sys.stderr)
    if viol:
        sys.exit(1)
    if rep.errors:
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
