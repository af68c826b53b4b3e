"""Runs one simulated program on the host interpreter and on x-python.

An execution is (source, bytecode version, world seed, fault table).  The result of
each side is its event log, its outcome and the final values of the program's own
globals, all in canonical form; the first difference is the divergence.
"""
import contextlib
import io
import os
import signal
import sys
import types

REPO = os.environ.get("XPY_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import minicc  # noqa: E402
import py2  # noqa: E402
import world  # noqa: E402
from world import World, show, show_exc  # noqa: E402

import logging  # noqa: E402

logging.disable(logging.CRITICAL)


class Hang(BaseException):
    """CPU budget of one simulated run used up."""


def _on_timer(signum, frame):
    raise Hang()


class guard:
    """CPU-time guard: fires repeatedly so that code which swallows the exception
    cannot run on for ever."""

    def __init__(self, cpu):
        self.cpu = cpu

    def __enter__(self):
        signal.signal(signal.SIGVTALRM, _on_timer)
        signal.setitimer(signal.ITIMER_VIRTUAL, self.cpu, 0.05)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0, 0)
        return False


HOST_DEPTH = 200        # deeper programs are out of scope (runaway recursion)
VM_DEPTH = 12000        # the interpreter's own frames for that depth


class depth:
    """A recursion limit, relative to the caller; notes whether it was reached."""
    TOOL = 3

    def __init__(self, n):
        self.n, self.hit = n, False

    def __enter__(self):
        k, f = 0, sys._getframe()
        while f:
            k, f = k + 1, f.f_back
        self.saved = sys.getrecursionlimit()
        sys.setrecursionlimit(k + self.n)
        mon = sys.monitoring
        mon.use_tool_id(self.TOOL, "sim")
        mon.register_callback(self.TOOL, mon.events.RAISE, self.on_raise)
        mon.set_events(self.TOOL, mon.events.RAISE)
        return self

    def on_raise(self, code, offset, exc):
        if type(exc) is RecursionError:
            self.hit = True

    def __exit__(self, *a):
        mon = sys.monitoring
        mon.set_events(self.TOOL, 0)
        mon.register_callback(self.TOOL, mon.events.RAISE, None)
        mon.free_tool_id(self.TOOL)
        sys.setrecursionlimit(self.saved)
        return False


class captured:
    """stdout and stderr go to memory (and nowhere else)."""

    def __init__(self):
        self.out = io.StringIO()
        self.err = io.StringIO()

    def __enter__(self):
        self.saved = (sys.stdout, sys.stderr)
        sys.stdout, sys.stderr = self.out, self.err
        return self

    def __exit__(self, *a):
        sys.stdout, sys.stderr = self.saved
        return False


class Result:
    """What one execution did."""
    __slots__ = ("log", "outcome", "vars", "out", "fired", "fired_at", "exc", "extra", "npid", "fault", "disk")

    def __init__(self):
        self.extra = None


PRIVATE = ("m", "q", "gs")


def final_vars(ns):
    out = {}
    for k, v in ns.items():
        if len(k) > 1 and k[0] in "mvo" and k[1:].isdigit():
            out[k] = show(v)
    return out


def outcome_of(etype, exc):
    return "raised " + show_exc(etype, exc)


def run_host(src, w, cpu=10.0, version=None):
    """The reference: the host CPython running the same source."""
    r = Result()
    ns = w.namespace()
    ns["__name__"] = "sim"
    ns["__builtins__"] = __builtins__
    code = py2.reference(src, version)
    with captured() as cap, guard(cpu), depth(HOST_DEPTH) as deep:
        try:
            exec(code, ns)
            r.outcome = "ok"
        except world.SimLimit:
            r.outcome = "limit"
        except Hang:
            r.outcome = "hang"
        except BaseException as e:
            r.outcome = outcome_of(type(e), e)
            e.__traceback__ = None
    if w.n >= w.limit:
        r.outcome = "limit"
    if deep.hit:
        r.outcome = "too deep"
    w.finish()
    r.log, r.fired, r.fired_at = w.log, w.fired, w.fired_at
    r.vars = final_vars(ns)
    r.out = world.plain(cap.out.getvalue())
    r.npid = w.npid
    return r


def make_vm(version, cls=None, **kw):
    from xpython.vm import PyVM
    return (cls or PyVM)(version[:2], minicc.implementation(version), **kw)


def vm_outcome(rc, vm):
    """Outcome of run_code: an uncaught program exception is reported as a non-zero
    result with the exception in last_exception."""
    if not rc:
        return "ok"
    le = getattr(vm, "last_exception", None)
    if not le:
        return "failed rc=%r" % (rc,)
    return outcome_of(le[0], le[1])


def run_vm(src, version, w, cpu=10.0, code=None, vm=None, ns=None, entry=None, own=True):
    """own: look after what belongs to the process (recursion limit, stdout, CPU time)"""
    r = Result()
    if code is None:
        code = minicc.compile_for(src, version)
    if ns is None:
        ns = w.namespace()
        ns["__name__"] = "sim"
        ns["__builtins__"] = __builtins__
    saved = sys.getrecursionlimit()
    if own:
        sys.setrecursionlimit(VM_DEPTH)
    with captured() if own else contextlib.nullcontext() as cap, guard(cpu) if own else contextlib.nullcontext():
        try:
            if vm is None:
                vm = make_vm(version)
            rc = entry(vm, code, ns) if entry else vm.run_code(code, ns)
            r.outcome = vm_outcome(rc, vm)
        except world.SimLimit:
            r.outcome = "limit"
        except Hang:
            r.outcome = "hang"
            if not own:
                raise
        except BaseException as e:
            r.outcome = outcome_of(type(e), e)
            r.exc = e
    if own:
        sys.setrecursionlimit(saved)
    if w.n >= w.limit:
        r.outcome = "limit"
    w.finish()
    r.log, r.fired, r.fired_at = w.log, w.fired, w.fired_at
    r.vars = final_vars(ns)
    r.out = world.plain(cap.out.getvalue()) if own else ""
    r.npid = w.npid
    return r


def diverge(a, b):
    """First difference between reference result a and x-python result b, or None."""
    n = min(len(a.log), len(b.log))
    for i in range(n):
        if a.log[i] != b.log[i]:
            return ("event", i, a.log[i], b.log[i])
    if len(a.log) != len(b.log):
        return ("event", n,
                a.log[n] if len(a.log) > n else "end:" + a.outcome,
                b.log[n] if len(b.log) > n else "end:" + b.outcome)
    if a.outcome != b.outcome:
        return ("outcome", n, a.outcome, b.outcome)
    if a.vars != b.vars:
        ks = sorted(k for k in set(a.vars) | set(b.vars) if a.vars.get(k) != b.vars.get(k))
        return ("variable " + ks[0], n, a.vars.get(ks[0]), b.vars.get(ks[0]))
    if a.outcome == "ok" and a.out != b.out:
        return ("stdout", n, a.out[-200:], b.out[-200:])
    return None
