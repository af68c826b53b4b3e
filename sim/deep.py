"""Programs that run out of stack.

The fault is the end of the interpreter's stack, at a depth the seed chooses: x-python runs the program with so many
frames left and no more.  It is noted where in the program each overflow happened - after how many events - and the
reference fails at exactly those calls (it raises RecursionError at the start of the function that is called), so that
both have to unwind, run handlers and go on in the same way.
"""
import sys

import minicc
import py2
import runner
import world
from diff import Diff, sig_of, spelled
from engine import Outcome, digest

class Gen:
    """Functions that call each other without end, each in a way of its own, and logging around each call."""

    def __init__(self, rng, version):
        self.r = rng
        self.v = version
        self.lines = []
        self.k = rng.randint(1, 4)
        self.top = rng.choice((8, 25, 60, 400))
        self.calls = rng.random() < 0.5         # calls in handlers too
        kinds = ["fun", "fun", "fun", "kw", "meth", "meth", "prop", "op", "item", "attr", "call", "gen", "gen", "lam",
                 "map", "closure", "init", "key", "attrset"]
        if version >= (3, 3):
            kinds += ["yf", "yf"]
        if version >= (3, 0):
            kinds += ["kwonly"]
        self.kinds = [rng.choice(kinds) for _ in range(self.k)]
        self.n = 0

    def w(self, depth, text):
        self.lines.append("    " * depth + text)

    def fresh(self):
        self.n += 1
        return self.n

    def call(self, i, arg):
        kind = self.kinds[i]
        r = self.r
        if kind in ("fun", "lam", "closure"):
            return "r%d(%s)" % (i, arg)
        if kind == "kw":
            return r.choice(("r%d(n=%s)", "r%d(*(%s,))", "r%d(**{'n': %s})", "r%d(%s, 5)", "r%d(m=2, n=%s)")) % (i, arg)
        if kind == "kwonly":
            return "r%d(n=%s)" % (i, arg)
        if kind == "meth":
            return r.choice(("K%d().go(%s)", "K%d().go(n=%s)")) % (i, arg)
        if kind == "prop":
            return "K%d(%s).p" % (i, arg)
        if kind == "op":
            return "(K%d() + (%s))" % (i, arg)
        if kind == "item":
            return "K%d()[%s]" % (i, arg)
        if kind == "attr":
            return "getattr(K%d(), 'a%%d' %% (%s))" % (i, arg)
        if kind == "attrset":
            return "setattr(K%d(), 'x', %s)" % (i, arg)
        if kind == "call":
            return "K%d()(%s)" % (i, arg)
        if kind == "init":
            return "K%d(%s).v" % (i, arg)
        if kind in ("gen", "yf"):
            return r.choice(("list(r%d(%s))", "[].extend(r%d(%s))", "tuple(r%d(%s))")) % (i, arg)
        if kind == "map":
            return "list(map(r%d, [%s]))" % (i, arg)
        if kind == "key":
            return "sorted([%s], key=r%d)" % (arg, i)
        raise AssertionError(kind)

    def recurse(self, d):
        j = self.r.randrange(self.k)
        self.w(d, "log(('c', %d, n))" % self.fresh())
        self.w(d, "res = %s" % self.call(j, "n + 1"))

    def action(self, d, ret):
        r = self.r
        k = r.random()
        if k < 0.25:
            self.w(d, "raise")
        elif k < 0.35:
            self.w(d, "raise ValueError(%d)" % self.fresh())
        elif k < 0.5 and ret:
            self.w(d, "return %d" % self.fresh())
        elif k < 0.65 and self.calls:
            self.w(d, "log(('hc', %d))" % self.fresh())
            self.w(d, "res = h(%d)" % r.randint(0, 9))
        elif k < 0.8:
            self.w(d, "if fuel:")
            self.w(d + 1, "fuel.pop()")
            self.recurse(d + 1)
        else:
            self.w(d, "res = %d" % self.fresh())

    def stmt(self, d, ret, depth=0):
        r = self.r
        k = r.random() if depth < 3 else 0
        m = self.fresh()
        if k < 0.2:
            self.recurse(d)
        elif k < 0.4:
            self.w(d, "try:")
            self.stmt(d + 1, ret, depth + 1)
            self.w(d, "finally:")
            self.w(d + 1, "log(('fin', %d, n))" % m)
            if r.random() < 0.2:
                self.w(d + 1, "res = %d" % m)
            elif self.calls and r.random() < 0.3:
                self.w(d + 1, "h(%d)" % m)
        elif k < 0.62:
            self.w(d, "try:")
            self.stmt(d + 1, ret, depth + 1)
            for t in r.sample(["ValueError", "KeyError"], r.randint(0, 1)) + (["RuntimeError"] if r.random() < 0.7 else ["TypeError"]):
                self.w(d, "except %s:" % t)
                self.w(d + 1, "log(('caught', %d, n))" % m)
                self.action(d + 1, ret)
            if r.random() < 0.4:
                self.w(d, "else:")
                self.w(d + 1, "log(('else', %d, n))" % m)
        elif k < 0.75 and self.v >= (2, 6):
            self.w(d, "with C(n, %s):" % r.choice(("0", "0", "0", "n % 5 == 4")))
            self.stmt(d + 1, ret, depth + 1)
        elif k < 0.87:
            self.w(d, "for i in (1, 2):")
            self.stmt(d + 1, ret, depth + 1)
            self.w(d + 1, r.choice(("break", "if not fuel: break\n%sfuel.pop()" % ("    " * (d + 1)))))
        else:
            self.w(d, "log(('cls', %d, n))" % m)
            self.w(d, "class T:")
            self.w(d + 1, "log(('body', %d))" % m)
            self.w(d + 1, "res = %s" % self.call(r.randrange(self.k), "n + 1"))

    def body(self, i, d, yields=False):
        """The body of a function of n."""
        self.w(d, "log(('in', %d, n))" % i)
        self.w(d, "res = None")
        self.w(d, "if n < %d:" % self.top)
        self.stmt(d + 1, not yields)
        if self.r.random() < 0.5:
            self.w(d, "log(('out', %d, n))" % i)
        if yields:
            self.w(d, "yield n")
        else:
            self.w(d, "return n")

    def define(self, i):
        kind = self.kinds[i]
        if kind in ("fun", "map", "key"):
            self.w(0, "def r%d(n):" % i)
            self.body(i, 1)
        elif kind == "gen":
            self.w(0, "def r%d(n):" % i)
            self.body(i, 1, True)
        elif kind == "yf":
            j = self.r.choice([j for j in range(self.k) if self.kinds[j] in ("gen", "yf")])
            self.w(0, "def r%d(n):" % i)
            self.w(1, "log(('in', %d, n))" % i)
            self.w(1, "res = None")
            self.w(1, "if n < %d:" % self.top)
            self.w(2, "try:")
            self.w(3, "log(('yf', n))")
            self.w(3, "res = yield from r%d(n + 1)" % j)
            self.w(2, "finally:")
            self.w(3, "log(('yfin', n))")
            self.w(1, "yield n")
        elif kind == "kw":
            self.w(0, "def r%d(n, m=3, *a, **k):" % i)
            self.body(i, 1)
        elif kind == "kwonly":
            self.w(0, "def r%d(*, n, m=3):" % i)
            self.body(i, 1)
        elif kind == "lam":
            j = self.r.randrange(self.k)
            self.w(0, "r%d = lambda n: (log(('in', %d, n)), n < %d and (%s))[0]" % (i, i, self.top, self.call(j, "n + 1")))
        elif kind == "closure":
            self.w(0, "def r%d(n):" % i)
            self.w(1, "log(('outer', n))")
            self.w(1, "def inner(x):")
            self.body(i, 2)
            self.w(1, "log(('to inner', n))")
            self.w(1, "return inner(3)")
        else:
            base = self.r.choice(("", "(object)")) if kind in ("meth", "item", "call") else "(object)"
            self.w(0, "class K%d%s:" % (i, base))
            if kind in ("prop",):
                self.w(1, "def __init__(self, n):")
                self.w(2, "log(('init', n))")
                self.w(2, "self.n = n")
                self.w(1, "def g(self):")
                self.w(2, "n = self.n")
                self.body(i, 2)
                self.w(1, "p = property(g)")
            elif kind == "attr":
                self.w(1, "def __getattr__(self, name):")
                self.w(2, "n = int(name[1:])")
                self.body(i, 2)
            elif kind == "attrset":
                self.w(1, "def __setattr__(self, name, n):")
                self.body(i, 2)
            elif kind == "init":
                self.w(1, "v = 1")
                self.w(1, "def __init__(self, n):")
                self.body(i, 2)
                self.lines[-1] = self.lines[-1].replace("return n", "return")
            else:
                name = {"meth": "go", "op": "__add__", "item": "__getitem__", "call": "__call__"}[kind]
                self.w(1, "def %s(self, n):" % name)
                self.body(i, 2)

    def program(self):
        r = self.r
        self.w(0, "def h(x):")
        self.w(1, "log(('h', x))")
        self.w(1, "return x * 2")
        if self.v >= (2, 6):
            self.w(0, "class C(object):")
            self.w(1, "def __init__(self, n, hide):")
            self.w(2, "log(('new', n))")
            self.w(2, "self.n = n")
            self.w(2, "self.hide = hide")
            self.w(1, "def __enter__(self):")
            self.w(2, "log(('enter', self.n))")
            self.w(1, "def __exit__(self, t, v, tb):")
            self.w(2, "log(('exit', self.n, t is not None and issubclass(t, RuntimeError)))")
            self.w(2, "return self.hide")
        for i in range(self.k):
            self.define(i)
        for k in range(r.randint(1, 3)):
            j = r.randrange(self.k)
            if r.random() < 0.85:
                self.w(0, "try:")
                self.w(1, "log('go')")
                self.w(1, "m%d = %s" % (k, self.call(j, "0")))
                self.w(0, "except %s:" % r.choice(("RuntimeError", "RuntimeError", "(RuntimeError, ValueError)")))
                self.w(1, "log('top')")
                self.w(1, "m%d = 'overflow'" % k)
            else:
                self.w(0, "log('go')")
                self.w(0, "m%d = %s" % (k, self.call(j, "0")))
            self.w(0, "log(('well', h(%d)))" % k)
        return "\n".join(self.lines) + "\n"


class Overflows:
    """Notes each new RecursionError, and after how many events it came."""
    TOOL = 3

    def __init__(self, room, log):
        self.room, self.log = room, log
        self.at, self.seen = [], []

    def __enter__(self):
        k, f = 0, sys._getframe()
        while f:
            k, f = k + 1, f.f_back
        mon = sys.monitoring
        ev = mon.events
        mon.use_tool_id(self.TOOL, "stack")
        for e in (ev.RAISE, ev.PY_UNWIND, ev.EXCEPTION_HANDLED):
            mon.register_callback(self.TOOL, e, self.note)
        mon.set_events(self.TOOL, ev.RAISE | ev.PY_UNWIND | ev.EXCEPTION_HANDLED)
        self.saved = sys.getrecursionlimit()
        sys.setrecursionlimit(k + self.room)
        return self

    def note(self, code, offset, exc):
        if type(exc) is RecursionError:
            for e in self.seen:
                if e is exc:
                    return
            self.seen.append(exc)
            self.at.append(len(self.log))

    def __exit__(self, *a):
        sys.setrecursionlimit(self.saved)
        mon = sys.monitoring
        mon.set_events(self.TOOL, 0)
        for e in (mon.events.RAISE, mon.events.PY_UNWIND, mon.events.EXCEPTION_HANDLED):
            mon.register_callback(self.TOOL, e, None)
        mon.free_tool_id(self.TOOL)
        for e in self.seen:
            e.__traceback__ = e.__context__ = None
        self.seen = []
        return False


class Fails:
    """Functions of the program fail to start when that many events have been."""
    TOOL = 3

    def __init__(self, at, log, filename):
        self.at, self.log, self.filename = list(at), log, filename

    def __enter__(self):
        mon = sys.monitoring
        mon.use_tool_id(self.TOOL, "stack")
        for e in (mon.events.PY_START, mon.events.PY_RESUME):
            mon.register_callback(self.TOOL, e, self.start)
        mon.set_events(self.TOOL, mon.events.PY_START | mon.events.PY_RESUME)
        self.saved = sys.getrecursionlimit()
        sys.setrecursionlimit(5000)
        return self

    def start(self, code, offset):
        if code.co_filename != self.filename:
            return sys.monitoring.DISABLE
        if self.at and len(self.log) >= self.at[0]:
            if len(self.log) == self.at.pop(0):
                raise RecursionError("simulated")

    def __exit__(self, *a):
        sys.setrecursionlimit(self.saved)
        mon = sys.monitoring
        mon.set_events(self.TOOL, 0)
        for e in (mon.events.PY_START, mon.events.PY_RESUME):
            mon.register_callback(self.TOOL, e, None)
        mon.free_tool_id(self.TOOL)
        return False


class Diverged(BaseException):
    """The reference is about to do something else than x-python did."""


def space(log, fuel):
    return {"__name__": "sim", "__builtins__": __builtins__, "log": log, "fuel": [1] * fuel}


def final(ns):
    return dict((k, repr(v)) for k, v in ns.items() if k[0] == "m" and k[1:].isdigit())


def see(event, offset, *a):
    return see


def run_vm(code, version, room, fuel, cpu, traced):
    log = []
    ns = space(log.append, fuel)
    if traced:
        from xpython.vmtrace import PyVMTraced
        vm = PyVMTraced(see, version, False)
    else:
        vm = runner.make_vm(version)
    with runner.captured(), runner.guard(cpu), Overflows(room, log) as o:
        try:
            outcome = runner.vm_outcome(vm.run_code(code, ns), vm)
        except runner.Hang:
            outcome = "hang"
        except BaseException as e:
            outcome = "raised " + type(e).__name__
    outcome = outcome.split("(")[0]
    return log, outcome, final(ns), o.at, len(ns["fuel"])


def run_host(src, version, at, fuel, cpu, want):
    log = []

    def add(x):
        if len(log) > len(want) or len(log) and log[-1] != want[len(log) - 1]:
            raise Diverged()
        log.append(x)

    ns = space(add, fuel)
    code = py2.reference(src, version)
    with runner.captured(), runner.guard(cpu), Fails(at, log, code.co_filename) as f:
        try:
            exec(code, ns)
            outcome = "ok"
        except runner.Hang:
            outcome = "hang"
        except BaseException as e:
            outcome = "raised " + type(e).__name__
    return log, outcome, final(ns), f.at, len(ns["fuel"])


def first(a, b):
    for i in range(min(len(a), len(b))):
        if a[i] != b[i]:
            return i
    return min(len(a), len(b))


class Deep(Diff):
    chunk = 60

    def __init__(self, name, **kw):
        Diff.__init__(self, name, None, **kw)

    def case(self, rng, i):
        v = rng.choice(self.versions)
        for _ in range(6):
            src = Gen(rng, v[:2]).program()
            try:
                minicc.compile_for(src, v)
            except minicc.CompileUnsupported:
                continue
            room = rng.choice((rng.randint(20, 90), rng.randint(60, 300), rng.randint(60, 300), rng.randint(200, 700)))
            return dict(version=list(v), source=src, room=room, fuel=rng.choice((0, 2, 6)), faults={},
                        traced=rng.random() < 0.15)
        return None

    def execute(self, case, cpu=None):
        v = tuple(case["version"])
        src = case["source"]
        world.of_version(v)
        code = minicc.compile_for(src, v)
        b = run_vm(code, v, case["room"], case["fuel"], cpu or self.cpu, case["traced"])
        a = run_host(src, v, b[3], case["fuel"], cpu or self.cpu, b[0])
        d = None
        i = first(a[0], b[0])
        if len(a[0]) != len(b[0]) or i < len(a[0]):
            d = ("event", i, a[0][i] if i < len(a[0]) else "end", b[0][i] if i < len(b[0]) else "end")
        elif a[1] != b[1]:
            d = ("outcome", i, a[1], b[1])
        elif a[3]:
            d = ("overflow", i, "none", "at event %d, where nothing is called" % a[3][0])
        elif a[2] != b[2]:
            d = ("variable", i, a[2], b[2])
        elif a[4] != b[4]:
            d = ("variable", i, a[4], b[4])
        return d, a, b, dict(case)

    def run(self, case):
        d, a, b, explicit = self.execute(case)
        v = tuple(case["version"])
        if b[1] == "hang" and a[1] == "hang":
            return Outcome("discard", note="hang")
        o = Outcome("ok", digest=digest(v, a[0], a[1], sorted(a[2].items()), b[:4]), state=digest(v, a[0], a[1]),
                    nontrivial=bool(b[3]) and len(a[0]) > 5, events=len(a[0]) + len(b[0]), faults=["stack exhausted"] * len(b[3]),
                    case=explicit)
        o.stats = {"version " + spelled(v): 1, "reached mechanism": int(bool(b[3])),
                   "several overflows": int(len(b[3]) > 1), "traced": int(case["traced"]), "program ended by exception": int(a[1] != "ok")}
        if d:
            o.status = "violation"
            o.sig = sig_of(d)
            out = ["Python %s bytecode; frames of the interpreter left at the start: %d; fuel %d; %soverflows after events %s"
                   % (spelled(v), case["room"], case["fuel"], "traced; " if case["traced"] else "", b[3][:10])]
            out += ["    " + line for line in case["source"].rstrip().split("\n")]
            out.append("first difference: %s at event %d" % (d[0], d[1]))
            out.append("  common history: %s" % (a[0][max(0, d[1] - 5):d[1]],))
            out.append("  expected (CPython, failing at those calls): %s" % (d[2],))
            out.append("  x-python: %s" % (d[3],))
            out.append("  outcomes: expected %s, x-python %s" % (a[1], b[1]))
            o.detail = "\n".join(out)
        return o

    def relevant(self, case, o):
        return bool(o.faults)
