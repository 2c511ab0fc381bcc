"""Abstract evaluation of the whole command: argument, front end, diagnosis, image handed to the machine, exit status.

`amanda.__main__:main` is interpreted like the rest of the compiler. The machine is a stand-in that records
the bytes it is given and answers with an unknown status, so that every way the command can end is a path.
"""
import argparse
import ctypes
import os
import re
from .front import Front, V
from . import interp_lib
from .interp import *
from .interp_core import IOV

interp_lib.HOST_MODULES["ctypes"] = ctypes
interp_lib.PURE.add("ctypes")
interp_lib.NOT_PURE.update({"ctypes.CDLL", "ctypes.cdll", "ctypes.PyDLL", "ctypes.memmove", "ctypes.string_at"})


STATUSES = (0, 1, 101)


class Lib:
    """stands for the shared library of the machine"""

    def __init__(self, drv):
        self.drv = drv
        self.run_module = Entry(drv)


class Entry:
    __name__ = "run_module"

    def __init__(self, drv):
        self.drv = drv
        self.argtypes = self.restype = None

    def __call__(self, *a):
        ip = self.drv.ip
        data, size, bad = None, None, None
        if len(a) != 2:
            bad = f"{len(a)} arguments"
        else:
            x = a[0]
            x = getattr(x, "_obj", x)
            try:
                data = bytes(x) if not isinstance(x, ctypes.c_char_p) else x.value
            except Exception:
                data = getattr(x, "value", None)
            size = getattr(a[1], "value", a[1])
            if not isinstance(data, bytes) or not isinstance(size, int):
                bad = f"arguments {a!r}"
        ip.emit("run", data=data, size=size, bad=bad)
        if bad is None and not 0 <= size <= len(data):
            ip.emit("run-bad", size=size, have=len(data))
        return STATUSES[ip.choose(len(STATUSES), "status of the machine")]


class Result:
    """one way the command can end"""

    def __init__(self, r, drv):
        self.events = r.events
        ch = [c for c in getattr(r, "trace", ()) or () if c[2] == "status of the machine"]
        self.machine = [STATUSES[c[0]] for c in ch]
        self.runs = [e for e in r.events if e["kind"] == "run"]
        self.bad_runs = [e for e in r.events if e["kind"] == "run-bad"]
        self.err = "".join(t for s, t in drv.texts(r.events) if s == "stderr")
        self.out = "".join(t for s, t in drv.texts(r.events) if s == "stdout")
        self.writes = [e for e in r.events if e["kind"] == "open" and any(c in str(e["mode"]) for c in "wax+")]
        self.crash = None
        self.status = None
        if r.outcome == "exit":
            a = r.exc.value.args
            c = a[0] if len(a) == 1 else (None if not a else a)
            self.status = 0 if c is None else c
            if isinstance(c, str):
                self.err += c + "\n"
                self.status = 1
        elif r.outcome == "return":
            self.status = 0
        elif r.outcome == "raise":
            self.crash = f"{r.exc.name()}: {r.exc.value} at {r.exc.where}"
        else:
            self.crash = f"no end within the bound ({r.exc})"


class Driver(Front):
    MODULES = Front.MODULES + ["amanda.libamanda", "amanda.__main__"]

    def __init__(self, root="/repo"):
        super().__init__(root)
        self.argv = []
        h = self.ip.hooks
        h["ext:ctypes.CDLL"] = h["ext:ctypes.PyDLL"] = h["ext:ctypes.cdll.LoadLibrary"] = lambda ip, a, k: HostV(Lib(self))
        h["ext:argparse.ArgumentParser"] = self._parser

    def _parser(self, ip, a, k):
        drv = self

        class Parser(argparse.ArgumentParser):
            def parse_args(self, args=None, namespace=None):
                return super().parse_args(list(drv.argv) if args is None else list(args), namespace)

            def _print_message(self, message, file=None):
                ip.emit("ext", name="sys.stderr.write", args=[message or ""], kwargs={})

            def exit(self, status=0, message=None):
                if message:
                    self._print_message(message)
                raise PyRaise(SystemExit(status), where=ip.loc)

            def error(self, message):
                self.exit(2, message + "\n")
        kk = {n: ip.to_host(v) for n, v in k.items()}
        kk.setdefault("prog", "amanda")
        return HostV(Parser(*a, **kk))

    def _open(self, ip, a, k):
        mode = k.get("mode", a[1] if len(a) > 1 else "r")
        if isinstance(mode, str) and any(c in mode for c in "wax+"):
            ip.emit("open", path=a[0], mode=mode)
            return IOV("b" in mode, [])
        return super()._open(ip, a, k)

    def texts(self, events):
        for e in events:
            if e["kind"] != "ext":
                continue
            n = e["name"]
            if n in ("sys.stderr.write", "sys.__stderr__.write", "sys.stdout.write", "sys.stdout.writelines", "sys.stderr.writelines"):
                for t in e["args"]:
                    yield n.split(".")[1].strip("_"), t if isinstance(t, str) else f"<{t}>"
            elif n == "print":
                f = e["kwargs"].get("file")
                to = "stderr" if f is not None and "stderr" in str(getattr(f, "name", f)) else "stdout"
                sep = e["kwargs"].get("sep") or " "
                end = e["kwargs"].get("end", "\n")
                yield to, sep.join(x if isinstance(x, str) else f"<{x}>" for x in e["args"]) + (end if isinstance(end, str) else "\n")

    def command(self, files, argv=("main.ama",), via="argv"):
        """the ways `amanda argv` ends on these files"""
        self.files = {os.path.join(V, n): t for n, t in files.items()}
        self.argv = list(argv)
        self.ip.analysed = {}
        main = self.ip.get("amanda.__main__:main")

        def entry(ip):
            return ip.call(main, list(argv) if via == "call" else [], {})
        return [Result(r, self) for r in self.ip.explore(entry, max_paths=16)]


def decide(drv, case, want, r, o):
    """the rules of a command on one schema: list of (kind, text)"""
    argv = getattr(case, "argv", None) or [case.main]
    debug = any(a in ("-d", "--debug") for a in argv)
    out = []
    for x in drv.command(case.files, argv):
        if x.crash:
            out.append(("breakdown", f"`amanda {' '.join(argv)}` breaks down: {x.crash}"))
            continue
        bad = lambda t, k="command": out.append((k, f"`amanda {' '.join(argv)}`: {t}"))
        names = [str(w["path"]) for w in x.writes]
        if x.out:
            bad(f"prints {x.out[:100]!r} on the program's output")
        if want == "accept" and o.kind == "accept":
            if len(x.runs) != 1:
                bad(f"the machine is started {len(x.runs)} times")
                continue
            run = x.runs[0]
            if run["bad"]:
                bad(f"the machine is started with {run['bad']}")
            elif x.bad_runs:
                bad(f"the machine is given {x.bad_runs[0]['have']} bytes and told {x.bad_runs[0]['size']}")
            elif run["size"] != len(run["data"]):
                bad(f"the machine is given {len(run['data'])} bytes and told {run['size']}")
            st = x.machine[0] if x.machine else 0
            if (x.status == 0) != (st == 0) or not isinstance(x.status, int):
                bad(f"ends with status {x.status} when the machine ends with {st}")
            if x.err:
                bad(f"reports {x.err[:200]!r} for a valid program")
            if names and not debug or len(names) > 1:
                bad(f"writes {names}")
        else:
            if x.runs:
                bad("the machine is started on a rejected program")
            if names:
                bad(f"writes {names} for a rejected program")
            if not x.status or not isinstance(x.status, int):
                bad(f"ends with status {x.status!r} for a rejected program")
            if o is None:
                if want not in x.err:
                    bad(f"the diagnosis {x.err!r} does not name {want}")
                continue
            src = (o.fpath or "").rsplit("/", 1)[-1]
            if src not in x.err:
                bad(f"the diagnosis {x.err[:200]!r} does not name the file {src}")
            if f"linha {o.line}" not in re.findall(r"linha \d+", x.err):
                bad(f"the diagnosis {x.err[:200]!r} does not name line {o.line}")
            if not isinstance(o.message, str) or not o.message.strip() or o.message not in x.err:
                bad(f"the diagnosis {x.err[:200]!r} lacks the message {o.message!r}")
            text = drv._content(o.fpath) or ""
            ls = text.split("\n")
            if isinstance(o.line, int) and 1 <= o.line <= len(ls) and ls[o.line - 1].strip() not in x.err:
                bad(f"the diagnosis {x.err[:200]!r} does not show line {o.line}")
    return out[:3]
