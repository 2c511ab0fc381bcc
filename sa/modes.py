"""How the families other than translation validation are decided. Each takes a case and the worker's TV."""
import copy
import random
import struct
from . import driver, image, ref
from .interp import *

DRV = None


def drv(root):
    global DRV
    if DRV is None:
        DRV = driver.Driver(root)
    return DRV


def by_translation(case, T, root):
    diffs = T.check(case.files, case.main, lines=case.lines, reject_line=case.reject_line, limit=case.limit)
    return [(d.kind, d.detail, d.where) for d in diffs]


def by_command(case, T, root):
    """the whole command on the schema: what it starts, prints, writes and ends with"""
    d = drv(root)
    T.stats["schemas"] += 1
    if case.expect:
        T.last = ("reject", None, None)
        return [(k, t, None) for k, t in driver.decide(d, case, case.expect, None, None)]
    want, r = T.reference(case.files, case.main)
    o = T.front.compile(case.files, case.main)
    T.last = (want, r, o)
    T.stats["accepted" if want == "accept" else "rejected"] += 1
    if want != o.kind and o.kind != "crash":
        # whether the program is valid is decided elsewhere; the command has to follow the decision
        want = o.kind
    out = driver.decide(d, case, want, r, o)
    T.front.ip.analysed.update(d.ip.analysed)
    return [(k, t, None) for k, t in out]


def the_image(case, T, root):
    """the bytes the machine is given for the schema; None when it is not started"""
    T.stats["schemas"] += 1
    d = drv(root)
    T.last = (None, None, None)
    bs = [x.runs[0]["data"] for x in d.command(case.files, [case.main]) if x.runs and isinstance(x.runs[0]["data"], bytes)]
    T.front.ip.analysed = dict(d.ip.analysed)
    if not bs:
        T.last = ("reject", None, None)
        T.stats["rejected"] += 1
        return None
    T.last = ("accept", None, None)
    T.stats["accepted"] += 1
    T.stats["bytes"] = T.stats.get("bytes", 0) + len(bs[0])
    return bs[0]


def open_image(data):
    d = image.decode(data)
    bad = image.shape(d)
    if not bad:
        if not isinstance(d.get("imports"), list):
            bad = ["image lacks the list of imports"]
        else:
            for i, x in enumerate(d["imports"]):
                bad += image.shape(x, path=f"image.imports[{i}]")
    return d, bad


def by_image(case, T, root):
    """every instruction of every function of the image, on every path"""
    data = the_image(case, T, root)
    if data is None:
        return []
    try:
        d, bad = open_image(data)
    except image.Bad as e:
        return [("image", str(e), None)]
    if bad:
        return [("image", "; ".join(bad[:3]), None)]
    nl = {n.rsplit("/", 1)[-1].replace(".ama", ""): t.count("\n") + 1 for n, t in case.files.items()}
    v = image.Verifier(d, T.spec, nl)
    v.run()
    for k, n in v.n.items():
        T.stats["image_" + k] = T.stats.get("image_" + k, 0) + n
    return [("image", "; ".join(v.errors[:3]), None)] if v.errors else []


def by_loading(case, T, root):
    """the image as the loader reads it behaves as the definition says, line table included"""
    data = the_image(case, T, root)
    if data is None:
        return []
    want, r = T.reference(case.files, case.main)
    T.last = (want, r, None)
    if want != "accept":
        return []
    try:
        d, bad = open_image(data)
    except image.Bad as e:
        return [("loading", str(e), None)]
    if bad:
        return [("loading", "; ".join(bad[:3]), None)]
    diffs = T.behaviour(r, d, case.lines, case.limit or T.limit)
    return [(x.kind, "read back from the image: " + x.detail, None) for x in diffs]


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, float):
        return struct.pack("<d", a) == struct.pack("<d", b)
    return a == b


def where_differs(a, b, p="document"):
    if type(a) is type(b):
        if isinstance(a, dict):
            for k in a:
                if k not in b:
                    return f"{p} lacks {k!r}"
                if not same(a[k], b[k]):
                    return where_differs(a[k], b[k], f"{p}.{k}")
            return f"{p} has {sorted(set(b) - set(a))} as well"
        if isinstance(a, list):
            for i, x in enumerate(a[:len(b)]):
                if not same(x, b[i]):
                    return where_differs(x, b[i], f"{p}[{i}]")
            return f"{p} has {len(b)} elements, not {len(a)}"
    return f"{p} is read as {str(b)[:80]!r}, it is {str(a)[:80]!r}"


def by_dump(case, T, root):
    """the serialiser on a document: the loader reads the document back, or it is refused"""
    ip = T.front.ip
    ip.analysed = {}
    T.stats["schemas"] += 1
    f = ip.get("amanda.compiler.bindump:dumps")
    doc, ok = case.doc
    T.last = ("accept" if ok else "reject", None, None)
    out = []
    for r in ip.explore(lambda ip: ip.call(f, [copy.deepcopy(doc)], {}), max_paths=4):
        if r.outcome == "raise":
            if ok:
                out.append(("dump", f"a document the machine can load is refused: {r.exc.name()}: {r.exc.value}", None))
        elif r.outcome != "return" or not isinstance(r.value, (bytes, bytearray)):
            out.append(("dump", f"no bytes: {r.outcome} {str(r.value)[:80]}", None))
        elif ok:
            try:
                back = image.decode(bytes(r.value))
            except image.Bad as e:
                out.append(("dump", str(e), None))
                continue
            if not same(doc, back):
                out.append(("dump", where_differs(doc, back), None))
        else:
            out.append(("dump", "a value the machine cannot load is written all the same", None))
    return out


def norm(n):
    """the name of an instruction without the habits of either side"""
    n = n.replace("_", "").lower()
    return n[2:] if n.startswith("op") else n


def by_encoding(case, T, root):
    """one instruction with the operands of the case: the bytes written, the size counted, what the machine decodes"""
    ip, spec = T.front.ip, T.spec
    ip.analysed = {}
    T.stats["schemas"] += 1
    T.last = ("accept", None, None)
    OpCode = ip.get("amanda.compiler.codegen:OpCode")
    ByteGen = ip.get("amanda.compiler.codegen:ByteGen")
    if any(ByteGen.lookup(n)[0] is None for n in ("new_label", "patch_label_loc", "append_op", "write_op_bytes")):
        T.stats["encoder_out_of_reach"] = T.stats.get("encoder_out_of_reach", 0) + 1
        return []                    # named otherwise: the encoding is still seen through the programs
    members = {norm(n): m for n, m in enum_members(OpCode).items()}
    theirs = {norm(n): n for n in spec.discr}
    op, args = case.op
    if op == "*":
        lost = [m.name for n, m in members.items() if n not in theirs]
        return [("encoding", f"the machine has no instruction {x}", None) for x in lost]
    m, their = members.get(norm(op)), theirs[norm(op)]
    if m is None:
        return []                    # an instruction of the machine the compiler has no name for
    widths = spec.widths[their]
    if len(widths) != len(args):
        raise AnalysisError(f"{their} takes {len(widths)} operands")
    fits = all(0 <= a < 256 ** w for a, w in zip(args, widths))
    jump = "jump" in norm(op)

    def entry(ip):
        mod = ip.instantiate(ip.get("amanda.compiler.module:Module"), ["/v/main.ama"], {})
        bg = ip.instantiate(ByteGen, [mod], {})
        if jump:
            label = ip.call_method(bg, "new_label", [])
            ip.setattr(bg, "ip", args[0])
            ip.call_method(bg, "patch_label_loc", [label])
        ip.setattr(bg, "ip", 0)
        ip.setattr(bg, "lineno", 1)
        ip.call_method(bg, "append_op", [m] + ([label] if jump else list(args)))
        out = b""
        for x in ip.iterate(ip.getattr(bg, "ops")):
            out += bytes(ip.call_method(bg, "write_op_bytes", [x]))
        return (out, ip.getattr(bg, "ip"))
    out = []
    said = f"{m.name} {' '.join(map(str, args))}".strip()
    for r in ip.explore(entry, max_paths=4):
        if r.outcome == "raise":
            if fits:
                out.append(("encoding", f"{said} cannot be written: {r.exc.name()}: {r.exc.value}", None))
            continue
        if r.outcome != "return":
            raise AnalysisError(f"{r.outcome} on {said}")
        data, size = r.value
        if size != len(data):
            out.append(("encoding", f"{said} takes {len(data)} bytes and is counted as {size}", None))
        got = spec.by_number.get(data[0]) if data else None
        if got != their:
            out.append(("encoding", f"{said} is written as the number {data[:1].hex()}, which the machine takes for {got}", None))
            continue
        vals, i = [], 1
        for w in widths:
            vals.append(int.from_bytes(data[i:i + w], "big"))
            i += w
        if i != len(data):
            out.append(("encoding", f"{said} takes {len(data)} bytes, the machine reads {i}", None))
        elif vals != list(args):
            out.append(("encoding", f"{said} is read by the machine as {their} {vals}", None))
    return out


def enum_members(c):
    return {n: m for n, m in c.members.items()} if hasattr(c, "members") else {n: m for n, m in c.ns.items() if isinstance(m, EnumM)}


def by_limit(case, T, root):
    """a program of extreme size: it works, or it is rejected on its line with a diagnosis"""
    prep = None
    if getattr(case, "preset", None):
        def prep(ip, bg):
            table, n = case.preset
            t = bg.attrs.get(table)
            if not hasattr(t, "__setitem__"):
                return               # kept otherwise: the program is compiled as it is
            for i in range(len(t), n):
                t[f"'ocupado {i}'"] = i
    diffs = T.check(case.files, case.main, lines=case.lines, limit=case.limit, prep=prep)
    want, r, o = T.last
    if want == "accept" and o.kind == "reject" and case.over:
        ok = case.over is True or o.line == case.over
        diffs = [] if ok else [type("D", (), dict(kind="line", detail=f"rejected at line {o.line} instead of {case.over}: {o.message}", where=None))]
    return [(d.kind, d.detail, d.where) for d in diffs]


def by_repetition(case, T, root):
    """the command under every order the host may give sets and every spelling of the file's path"""
    T.stats["schemas"] += 1
    d = drv(root)
    first, out, ents = None, [], {}
    try:
        for argv, order in (([case.main], 0), ([case.main], 1), ([case.main], 2), (["./" + case.main], 1), (["/v/" + case.main], 2)):
            d.ip.set_order = d.ip.choice = order
            d.ip.rng = random.Random(order)
            rs = d.command(case.files, argv)
            ents.update(d.ip.analysed)
            T.stats["runs"] = T.stats.get("runs", 0) + len(rs)
            got = [(x.status, x.crash and x.crash.split(" at ")[0], x.err, x.out, [e["data"] for e in x.runs]) for x in rs]
            free = {repr(g[1:]) for g in got} if len({bool(g[4]) for g in got}) == 1 and got[0][4] else {repr(g) for g in got} if len(got) > 1 else ()
            if len(free) > 1 or any(not isinstance(x, bytes) for g in got for x in g[4]):
                out.append(("repetition", f"what is printed or handed to the machine depends on something the source does not settle: {sorted(free)[-1][-300:]}", None))
                T.last = ("accept", None, None)
                break
            if first is None:
                first = got
                T.last = ("accept" if any(g[4] for g in got) else "reject", None, None)
                continue
            if got != first:
                a, b = next(((a, b) for a, b in zip(first, got) if a != b), (first, got))
                what = ("the status", "the breakdown", "the diagnosis", "the output", "the image")
                i = next(i for i in range(5) if a[i] != b[i]) if len(first) == len(got) else 0
                say = lambda v: v[i][0].hex()[:60] + "..." if i == 4 and v[i] else repr(v[i])[-300:]
                out.append(("repetition", f"{what[i]} depends on " + ("a choice of the host (order of a set, clock, random numbers, addresses)" if argv == [case.main] else "how the path is written or a choice of the host")
                            + f": {say(a)} / {say(b)}", None))
                break
    finally:
        d.ip.set_order = 0
        d.ip.choice = d.ip.rng = None
    T.stats["accepted" if T.last[0] == "accept" else "rejected"] += 1
    T.front.ip.analysed = ents
    return out


def by_missing(case, T, root):
    """the patterns a rejection of a match lists as missing: each fits a value left out, together they leave none out"""
    T.stats["schemas"] += 1
    want, r = T.reference(case.files, case.main)
    o = T.front.compile(case.files, case.main)
    T.last = (want, r, o)
    T.stats["accepted" if want == "accept" else "rejected"] += 1
    if want != "reject" or o.kind != "reject" or getattr(r, "match", None) is None or not isinstance(o.message, str):
        return []
    c, pats, t = r.match
    lines = [x.strip().rstrip(".").strip() for x in o.message.split("\n")]
    listed = [x.lstrip("*").split("=>")[0].strip() for x in lines if x.startswith("*")]
    if not listed:
        return [("missing", f"the rejection names no missing pattern: {o.message}", None)]
    rows = [[p] for p in pats]
    trees = []
    for x in listed:
        try:
            q = ref.P(x + "\n").pattern()
            c.pattern(q, t, ref.Scope(c.scope))
        except ref.Reject as e:
            return [("missing", f"the pattern {x!r} listed as missing is no pattern of the value: {e}", None)]
        T.stats["patterns"] = T.stats.get("patterns", 0) + 1
        if not c.use(rows, [q], [t]):
            return [("missing", f"the pattern {x!r} listed as missing only fits values the arms already cover", None)]
        trees.append(q)
    if len(set(listed)) != len(listed):
        return [("missing", f"a pattern is listed twice: {listed}", None)]
    if c.use(rows + [[q] for q in trees], [None], [t]):
        return [("missing", f"with the listed patterns {listed} some value would still be left out", None)]
    return []


MODES = {"tv": by_translation, "cmd": by_command, "img": by_image, "load": by_loading, "dump": by_dump, "op": by_encoding, "lim": by_limit, "rep": by_repetition, "missing": by_missing}
