"""Programs run as .pyc files, the way the `xpython` command runs them.

Only the outermost part differs from diff.Diff: the program is compiled, written to a
bytecode file of the version, read back by x-python and run as __main__; the reference
runs the same source as __main__ of the host."""
import ast
import builtins
import os
import re
import shutil
import sys
import tempfile
import types

import minicc
import pyc
import runner
from diff import Diff
from runner import HOST_DEPTH, VM_DEPTH, Hang, Result, captured, depth, guard, outcome_of
import world
from world import SimLimit, World

PROLOGUE = """import sys
import __main__
log('args', __name__, sys.argv[1:], where(sys.argv[0]), where(sys.path[0]), where(__file__), __main__ is sys.modules['__main__'])
"""
EPILOGUE = """log('self', __main__.m0 is m0)
"""
SHIFT = PROLOGUE.count("\n")


def status(code):
    """Exit status for SystemExit(code)."""
    if code is None:
        return 0
    if isinstance(code, int):
        return code & 0xFF
    return 1


class scratch:
    """A directory of its own, removed afterwards."""

    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="xpysim")
        return self

    def path(self, name):
        return os.path.join(self.dir, name)

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)
        return False


class hosted:
    """The world's names as builtins; host state noted before and put back after."""

    def __init__(self, names):
        self.names = names

    def __enter__(self):
        self.b = dict(builtins.__dict__)
        self.state = self.look()
        self.keep = (sys.argv, list(sys.argv), list(sys.path), sys.modules["__main__"])
        builtins.__dict__.update(self.names)
        return self

    def look(self):
        return dict(argv=(id(sys.argv), list(sys.argv)), path=list(sys.path), main=id(sys.modules.get("__main__")),
                    stdout=id(sys.stdout), stderr=id(sys.stderr), cwd=os.getcwd())

    def changed(self):
        now = self.look()
        return sorted(k for k in now if now[k] != self.state[k])

    def __exit__(self, *a):
        builtins.__dict__.clear()
        builtins.__dict__.update(self.b)
        sys.argv = self.keep[0]
        sys.argv[:] = self.keep[1]
        sys.path[:] = self.keep[2]
        sys.modules["__main__"] = self.keep[3]
        return False


def names(w, dirname):
    ns = w.namespace()

    def where(p):
        return str(p).replace(dirname, "<dir>")
    ns["where"] = where
    return ns


def host_file(src, w, filename, args, cpu, version):
    """The reference: the source as __main__ of the host."""
    r = Result()
    code = runner.py2.reference(src, version)
    d = os.path.dirname(filename)
    with hosted(names(w, d)), captured() as cap, guard(cpu), depth(HOST_DEPTH) as deep:
        main = types.ModuleType("__main__")
        main.__file__ = "<sim>"
        main.__builtins__ = builtins
        sys.modules["__main__"] = main
        sys.argv = [filename] + list(args)
        sys.path[0] = d
        r.extra = dict(frames=[], exc=None)
        try:
            exec(code, main.__dict__)
            r.outcome, rc = "ok", 0
        except SimLimit:
            r.outcome, rc = "limit", None
        except Hang:
            r.outcome, rc = "hang", None
        except BaseException as e:
            r.outcome = outcome_of(type(e), e)
            rc = status(e.code) if isinstance(e, SystemExit) else 1
            r.extra["frames"] = tb_frames(e.__traceback__)
            r.extra["exc"] = (type(e).__name__, text(e))
            e.__traceback__ = None
        main.__dict__.clear()
    if w.n >= w.limit:
        r.outcome = "limit"
    if deep.hit:
        r.outcome = "too deep"
    w.finish()
    r.log, r.fired, r.fired_at = w.log, w.fired, w.fired_at
    r.vars = {}
    r.out = cap.out.getvalue()
    r.extra["rc"] = rc
    return r


def tb_frames(tb):
    out = []
    while tb is not None:
        c = tb.tb_frame.f_code
        if c.co_filename == "<sim>":
            out.append((c.co_name, tb.tb_lineno))
        tb = tb.tb_next
    return out


def command(argv):
    """The `xpython` command; returns the exit status."""
    import click
    from xpython import __main__ as xm
    try:
        xm.main(args=argv, prog_name="xpython", standalone_mode=True)
    except SystemExit as e:
        return status(e.code)
    except click.exceptions.Abort:
        return 1
    return 0


def call(filename, args):
    """The API function behind the command."""
    from xpython import execfile
    try:
        execfile.run_python_file(filename, args)
    except SystemExit as e:
        return status(e.code)
    return 0


def vm_file(w, filename, args, how, cpu):
    r = Result()
    d = os.path.dirname(filename)
    saved = sys.getrecursionlimit()
    with captured() as cap, hosted(names(w, d)) as h, guard(cpu):
        sys.setrecursionlimit(VM_DEPTH)
        rc = None
        try:
            if how == "command":
                rc = command([filename] + list(args))
            else:
                rc = call(filename, args)
            r.outcome = "ended"
        except SimLimit:
            r.outcome = "limit"
        except Hang:
            r.outcome = "hang"
        except KeyboardInterrupt:
            r.outcome, rc = "ended", 1
        except BaseException as e:
            r.outcome = outcome_of(type(e), e)
        sys.setrecursionlimit(saved)
        changed = h.changed()
    if w.n >= w.limit:
        r.outcome = "limit"
    w.finish()
    r.log, r.fired, r.fired_at = w.log, w.fired, w.fired_at
    r.vars = {}
    r.out = cap.out.getvalue()
    r.extra = dict(rc=rc, err=cap.err.getvalue(), changed=changed)
    return r


def parse_report(err):
    """(frames, last line) of a traceback on stderr."""
    frames, last = [], None
    for line in err.splitlines():
        if line.startswith('  File "'):
            try:
                _, rest = line.split('", line ', 1)
                n, name = rest.split(", in ", 1)
                frames.append((name.strip(), int(n)))
            except ValueError:
                frames.append((line, 0))
        elif line.strip() and not line.startswith(" "):
            last = line
    return frames, last


HIDDEN = ("raise ValueError('@shy')", "return 5", "return self.missing", "return [].pop()", "raise Shy('@again')",
          "return '@' + self.args[0]")


def hidden(rng, body):
    """The program with exceptions that may not have a text."""
    what = rng.choice(HIDDEN)
    body = re.sub(r"\braise E\d\(", lambda m: "raise Shy(" if rng.random() < 0.5 else m.group(), body)
    if rng.random() < 0.5:
        body += "raise Shy('@e')\n"
    return "class Shy(Exception):\n    def __str__(self):\n        %s\n" % what + body


def text(e):
    """What is said about an exception."""
    try:
        return str(e)
    except Exception:
        return "@none"


class FileDiff(Diff):
    chunk = 40
    what = "run"

    def case(self, rng, i):
        c = super().case(rng, i)
        if c is None:
            return None
        body = c["source"]
        if rng.random() < 0.2:
            body += "sys.exit(upto(4))\n"
        elif rng.random() < 0.06:
            body += "raise SystemExit('@bye')\n"
        elif rng.random() < 0.15:
            body = hidden(rng, body)
        c["source"] = PROLOGUE + body.replace("log('end', m0)\n", "log('end', m0)\n" + EPILOGUE)
        c["how"] = rng.choice(("command", "call"))
        c["args"] = [rng.choice(("a", "b c", "", "x=1", "\u00e9", "*")) for _ in range(rng.choice((0, 0, 1, 2, 4)))]
        c["hashed"] = rng.random() < 0.3
        try:
            minicc.compile_for(c["source"], tuple(c["version"]))
        except minicc.CompileUnsupported:
            return None
        return c

    def execute(self, case, cpu=None):
        v = tuple(case["version"])
        src = case["source"]
        world.of_version(v)
        code = minicc.compile_for(src, v)
        keep = {k: case[k] for k in ("how", "args", "hashed")}
        if "faults" in case:
            w = World(case["world"], faults={int(k): f for k, f in case["faults"].items()}, limit=self.limit)
        else:
            w = World(case["world"], rates=case["rates"], limit=self.limit, kinds=case.get("spots"))
        with scratch() as s:
            path = s.path("prog.pyc")
            with open(path, "wb") as f:
                f.write(pyc.dumps(code, v, case["hashed"] and v >= (3, 7)))
            a = host_file(src, w, path, case["args"], cpu or self.cpu, v)
            if a.outcome in ("limit", "hang", "too deep"):
                return None, a, None, None
            b = vm_file(World(case["world"], faults=a.fired, limit=2 * self.limit), path, case["args"], case["how"],
                        cpu or self.cpu)
        explicit = dict(keep, version=list(v), source=src, world=case["world"],
                        faults={str(k): f for k, f in a.fired.items()})
        return self.compare(a, b, src, code, v), a, b, explicit

    def compare(self, a, b, src, code, v):
        n = min(len(a.log), len(b.log))
        for i in range(n):
            if a.log[i] != b.log[i]:
                return ("event", i, a.log[i], b.log[i])
        if len(a.log) != len(b.log):
            return ("event", n, a.log[n] if len(a.log) > n else "end:" + a.outcome,
                    b.log[n] if len(b.log) > n else "end:" + b.outcome + repr(b.extra))
        if b.outcome != "ended":
            return ("outcome", n, a.outcome, b.outcome)
        if a.extra["rc"] != b.extra["rc"]:
            return ("exit status", n, "rc %r(%s)" % (a.extra["rc"], a.outcome), "rc %r(%s)" % (b.extra["rc"], b.extra["err"]))
        if a.out != b.out:
            return ("stdout", n, a.out[-200:], b.out[-200:])
        if b.extra["changed"]:
            return ("host state", n, "as before", "changed: " + " ".join(b.extra["changed"]))
        return None


def lossy_lines(code):
    """xdis drops the bytes above 0x7f of the line tables of 2.x files."""
    return max(code.co_lnotab or "\0") >= "\x80" or any(lossy_lines(c) for c in code.co_consts if pyc.iscode(c))


def same_frames(want, got, src):
    if len(want) != len(got):
        return False
    spans = None
    for (wn, wl), (gn, gl) in zip(want, got):
        if wn != gn:
            return False
        if wl != gl:
            # Versions differ in the line that leaving a "with" statement and applying
            # decorators count for.
            if spans is None:
                spans = []
                for n in ast.walk(ast.parse(src)):
                    if isinstance(n, ast.With):
                        spans.append((n.lineno, n.lineno, n.end_lineno))
                    elif getattr(n, "decorator_list", None):
                        spans.append((n.decorator_list[0].lineno, n.lineno, n.lineno))
            if not any(lo <= wl <= hi and lo <= gl <= end for lo, hi, end in spans):
                return False
    return True


class Report(FileDiff):
    """The report of an uncaught exception."""

    def reached(self, a):
        return len(a.extra["frames"]) > 1

    def compare(self, a, b, src, code, v):
        d = FileDiff.compare(self, a, b, src, code, v)
        if d:
            return d
        e = a.extra["exc"]
        if e is None or e[0] == "SystemExit" or e[0] == "KeyboardInterrupt":
            return None
        frames, last = parse_report(b.extra["err"])
        frames = [f for f in frames if f[0] not in ("<listcomp>", "<setcomp>", "<dictcomp>")]
        if v < (3, 0) and lossy_lines(code):
            return None
        if not same_frames(a.extra["frames"], frames, src):
            return ("report", len(a.log), "frames %r" % (a.extra["frames"],), "frames %r" % (frames,))
        name = e[0]
        if e[1].startswith("@"):
            want = "%s: %s" % (name, "<exception str() failed>" if e[1] == "@none" else e[1])
            if last != want:
                return ("report", len(a.log), want, last)
        elif not last or last.split(":")[0].replace("UnboundLocalError", "NameError") != name.replace("UnboundLocalError", "NameError"):
            return ("report", len(a.log), name, last)
        return None
