"""Several programs, each on a virtual machine of its own, in one process at the same time - or one after the other
on the same machine.

The scheduler owns every switch: the machines run in threads of which exactly one holds the baton, and at each
scheduling point - an operation of a program on its world, and in "fine" runs each source line of x-python itself - a
pure function of (schedule seed, step) says whether and to whom the baton passes.  Each program has to do what it does
alone.
"""
import contextlib
import ctypes
import random
import sys
import threading

import gen
import minicc
import runner
import shrink
from diff import VERSIONS, Diff, explain, pick_rates, sig_of
from engine import Outcome, digest
import world
from world import SimLimit, World, decide

XP = runner.REPO + "/xpython/"


class Baton:
    """Passes control between k threads by seed, or by an explicit list of switches."""
    TOOL = 4

    def __init__(self, k, seed, p, fine, switches=None):
        self.k = k
        self.seed = seed
        self.p = int(p * 2**32)
        self.fine = int(fine * 2**32)
        self.explicit = None if switches is None else dict((s, t) for s, t in switches)
        self.sems = [threading.Semaphore(0) for _ in range(k)]
        self.live = set(range(k))
        self.done = threading.Semaphore(0)
        self.step = 0
        self.made = []
        self.order = []             # who held the baton, run-length encoded
        self.abort = False
        self.ids = {}

    def me(self):
        return self.ids.get(threading.get_ident())

    def point(self, p):
        """A scheduling point."""
        if self.abort:
            return
        me = self.me()
        if me is None:
            return
        s = self.step
        self.step = s + 1
        if len(self.live) < 2:
            return
        if self.explicit is not None:
            to = self.explicit.get(s)
            if to is None or to not in self.live:
                return
        else:
            if decide(self.seed, s, "sw") >= p:
                return
            others = sorted(self.live - {me})
            to = others[(decide(self.seed, s, "to") >> 5) % len(others)]
        if to == me:
            return
        self.made.append([s, to])
        self.order.append(to)
        self.sems[to].release()
        self.sems[me].acquire()

    def on_event(self, w, kind):
        self.point(self.p)

    def on_line(self, code, line):
        if not code.co_filename.startswith(XP):
            return sys.monitoring.DISABLE
        self.point(self.fine)

    def leave(self, me):
        self.live.discard(me)
        if self.live:
            ls = sorted(self.live)
            to = ls[(decide(self.seed, self.step, "end") >> 5) % len(ls)]
            self.order.append(to)
            self.sems[to].release()
        else:
            self.done.release()

    def run(self, bodies, first, cpu):
        def main(k):
            self.ids[threading.get_ident()] = k
            ready.release()
            try:
                self.sems[k].acquire()
                bodies[k]()
            except BaseException:
                pass
            finally:
                self.leave(k)

        ready = threading.Semaphore(0)
        ts = []
        threading.stack_size(256 << 20)
        for k in range(self.k):
            t = threading.Thread(target=main, args=(k,), daemon=True)
            ts.append(t)
            t.start()
        threading.stack_size(0)
        for t in ts:
            ready.acquire()
        mon = sys.monitoring
        if self.fine:
            mon.use_tool_id(self.TOOL, "baton")
            mon.register_callback(self.TOOL, mon.events.LINE, self.on_line)
            mon.set_events(self.TOOL, mon.events.LINE)
        hung = False
        try:
            with runner.guard(cpu):
                self.sems[first].release()
                if not self.done.acquire(timeout=60):
                    raise RuntimeError("the machines block each other: %r" % (self.live,))
        except runner.Hang:
            hung = True
        finally:
            if self.fine:
                mon.set_events(self.TOOL, 0)
                mon.register_callback(self.TOOL, mon.events.LINE, None)
                mon.free_tool_id(self.TOOL)
            if hung:
                self.abort = True
                for _ in range(200):
                    alive = [t for t in ts if t.is_alive()]
                    if not alive:
                        break
                    for t in alive:
                        ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(t.ident),
                                                                   ctypes.py_object(runner.Hang))
                    for s in self.sems:
                        s.release()
                    alive[0].join(0.05)
            else:
                for t in ts:
                    t.join()
        return hung


def part(code, w, version, vm=None):
    """Runs one program on x-python: like runner.run_vm, without what belongs to the process."""
    return runner.run_vm(None, version, w, code=code, vm=vm, own=False)


LOADED = []


def load():
    """Everything x-python imports on demand is imported (a thread must not lose the baton inside an import)."""
    if not LOADED:
        for v in VERSIONS:
            runner.run_vm("x = [y for y in (1, 2)]\n", v, World(1, limit=9))
        LOADED.append(1)


class Together(Diff):
    """modes: "threads" (interleaved at world events), "fine" (at lines of x-python too), "nested" (one inside an
    operation of another), "again" (one after the other on the same machine)"""
    chunk = 40

    def __init__(self, name, profiles, modes, **kw):
        Diff.__init__(self, name, None, **kw)
        self.profiles = profiles
        self.modes = modes

    def case(self, rng, i):
        mode = rng.choice(self.modes)
        k = rng.choice((2, 2, 2, 3))
        v = rng.choice(self.versions)
        progs = []
        for j in range(k):
            if mode != "again" and rng.random() < 0.75:
                v = rng.choice(self.versions)
            rates, spots = pick_rates(rng, self.kinds, self.soft, self.levels)
            for _ in range(6):
                src = gen.generate(rng, v, rng.choice(self.profiles))
                try:
                    minicc.compile_for(src, v)
                except minicc.CompileUnsupported:
                    continue
                break
            else:
                return None
            progs.append(dict(version=list(v), source=src, world=rng.getrandbits(31), rates=rates, spots=spots))
            if rng.random() < 0.12:
                progs[-1]["cut"] = rng.randint(1, 60)
        p = rng.choice((0.02, 0.1, 0.3, 0.7))
        fine = rng.choice((0.0003, 0.002, 0.01)) if mode == "fine" else 0
        return dict(mode=mode, programs=progs, seed=rng.getrandbits(31), p=p, fine=fine)

    # ------------------------------------------------------------ one execution
    def reference(self, g, cpu):
        if "faults" in g:
            w = World(g["world"], faults={int(n): f for n, f in g["faults"].items()}, limit=self.limit)
        else:
            w = World(g["world"], rates=g["rates"], limit=self.limit, kinds=g.get("spots"))
        return runner.run_host(g["source"], w, cpu, tuple(g["version"]))

    def execute(self, case, cpu=None):
        cpu = cpu or self.cpu
        load()
        progs = case["programs"]
        refs = []
        world.of_version(min(tuple(g["version"]) for g in progs))
        for g in progs:
            a = self.reference(g, cpu)
            if a.outcome in ("limit", "hang", "too deep"):
                return None, refs, None, a.outcome, None
            refs.append(a)
        codes = [minicc.compile_for(g["source"], tuple(g["version"])) for g in progs]
        worlds = [World(g["world"], faults=a.fired, limit=g.get("cut", 2 * self.limit))
                  for g, a in zip(progs, refs)]
        got = [None] * len(progs)
        explicit = dict(case, programs=[
            dict({k: g[k] for k in g if k not in ("rates", "spots")}, faults={str(n): f for n, f in a.fired.items()})
            for g, a in zip(progs, refs)])
        hung, baton = False, None
        saved = sys.getrecursionlimit()
        sys.setrecursionlimit(runner.VM_DEPTH)
        try:
            with runner.captured():
                if case["mode"] == "again":
                    hung = self.again(case, codes, worlds, got, cpu)
                elif case["mode"] == "nested":
                    hung = self.nested(case, codes, worlds, got, cpu)
                else:
                    baton = Baton(len(progs), case["seed"], case["p"], case["fine"], case.get("switches"))

                    def body(k):
                        worlds[k].hook = baton.on_event

                        def run():
                            got[k] = part(codes[k], worlds[k], tuple(progs[k]["version"]))
                        return run
                    hung = baton.run([body(k) for k in range(len(progs))], case["seed"] % len(progs), 2 * cpu)
                    explicit["switches"] = baton.made
        finally:
            sys.setrecursionlimit(saved)
        d = None
        for k, (g, a, b) in enumerate(zip(progs, refs, got)):
            if b is None:
                d = d or (k, ("outcome", 0, a.outcome, "hang" if hung else "no result"))
                continue
            if "cut" in g and len(b.log) < len(a.log) or b.outcome == "limit" and "cut" in g:
                n = len(b.log)
                x = next((i for i in range(n) if i >= len(a.log) or a.log[i] != b.log[i]), None)
                x = None if x is None else ("event", x, a.log[x] if x < len(a.log) else "end", b.log[x])
            else:
                b.out = a.out           # (the process has one stdout)
                x = runner.diverge(a, b)
            if x and d is None:
                d = (k, x)
        return d, refs, got, None, (explicit, baton)

    def again(self, case, codes, worlds, got, cpu):
        vm = runner.make_vm(tuple(case["programs"][0]["version"]))
        try:
            with runner.guard(cpu):
                for k in range(len(codes)):
                    got[k] = part(codes[k], worlds[k], None, vm)
        except runner.Hang:
            return True
        return False

    def nested(self, case, codes, worlds, got, cpu):
        progs = case["programs"]
        todo = list(range(1, len(codes)))

        def at(w, kind):
            if todo and not w.stopped:
                at.step += 1
                if decide(case["seed"], at.step, "sw") < int(case["p"] * 2**32):
                    start(todo.pop(0))
        at.step = 0

        def start(k):
            worlds[k].hook = at
            got[k] = part(codes[k], worlds[k], tuple(progs[k]["version"]))

        try:
            with runner.guard(cpu):
                start(0)
                while todo:
                    start(todo.pop(0))
        except runner.Hang:
            return True
        return False

    def run(self, case):
        d, refs, got, note, extra = self.execute(case)
        if got is None:
            return Outcome("discard", note=note)
        explicit, baton = extra
        order = baton.order if baton else []
        logs = [(b.log, b.outcome, sorted(b.vars.items())) if b else None for b in got]
        o = Outcome("ok", digest=digest(case["mode"], [a.log for a in refs], logs, explicit.get("switches"), order),
                    state=digest(case["mode"], [(a.log, a.outcome) for a in refs], order),
                    nontrivial=len(order) > 2 if baton else sum(len(a.log) > 5 for a in refs) > 1,
                    events=sum(len(a.log) for a in refs) * 2,
                    faults=[f for a in refs for f in a.fired.values()], case=explicit)
        o.stats = {"mode " + case["mode"]: 1, "switches": len(order), "programs": len(refs),
                   "programs ended by exception": sum(a.outcome != "ok" for a in refs),
                   "programs cut off": sum("cut" in g and b is not None and b.outcome == "limit"
                                           for g, b in zip(case["programs"], got))}
        if d:
            k, x = d
            g = case["programs"][k]
            o.status = "violation"
            o.sig = sig_of(x)
            b = got[k] or runner.Result()
            if got[k] is None:
                b.log, b.outcome = [], "hang"
            o.detail = "mode %s: program %d of %d does not do what it does alone; %d switches\n" % (
                case["mode"], k + 1, len(refs), len(order)) + explain(
                g["source"], tuple(g["version"]), refs[k].fired, refs[k], b, x) + "".join(
                "\nwith program %d (Python %s):\n    %s" % (j + 1, ".".join(map(str, h["version"])),
                                                          h["source"].rstrip().replace("\n", "\n    "))
                for j, h in enumerate(case["programs"]) if j != k)
        return o

    def relevant(self, case, o):
        """Does the program do the right thing alone?  (If not, this is another property's.)"""
        for g in case["programs"]:
            a = self.reference(g, self.cpu)
            if a.outcome in ("limit", "hang", "too deep"):
                continue
            v = tuple(g["version"])
            b = runner.run_vm(g["source"], v, World(g["world"], faults=a.fired, limit=2 * self.limit), self.cpu)
            if runner.diverge(a, b):
                return False
        return True

    # ------------------------------------------------------------ minimisation
    def shrink(self, case, o):
        best = [o.case]

        def fails(c):
            try:
                d, refs, got, note, extra = self.execute(c, 0.5)
            except minicc.CompileUnsupported:
                return None
            except Exception:
                return None
            if d:
                return extra[0]
            return None

        def attempt(c):
            """as it is, or with a few fresh schedules"""
            r = fails(c)
            if r is None and "switches" in c:
                for s in range(6):
                    e = {k: x for k, x in c.items() if k != "switches"}
                    r = fails(dict(e, seed=s))
                    if r is not None:
                        break
            if r is not None:
                best[0] = r
                return True
            return False

        def drop_switches():
            n = max(1, len(best[0].get("switches") or ()) // 2)
            while n and best[0].get("switches"):
                i = 0
                while i < len(best[0]["switches"]):
                    sw = best[0]["switches"]
                    r = fails(dict(best[0], switches=sw[:i] + sw[i + n:]))
                    if r is not None and len(r["switches"]) < len(sw):
                        best[0] = r
                    else:
                        i += n
                n //= 2

        for k in reversed(range(len(case["programs"]))):
            if len(best[0]["programs"]) > 1:
                ps = best[0]["programs"]
                attempt(dict({x: y for x, y in best[0].items() if x != "switches"}, programs=ps[:k] + ps[k + 1:]))
        drop_switches()
        for k in range(len(best[0]["programs"])):
            def put(**kw):
                ps = list(best[0]["programs"])
                ps[k] = dict(ps[k], **kw)
                return dict(best[0], programs=ps)

            shrink.shrink_source(best[0]["programs"][k]["source"], tuple(best[0]["programs"][k]["version"]),
                                 lambda s: attempt(put(source=s)))
            for n in sorted(best[0]["programs"][k]["faults"], key=int):
                fs = best[0]["programs"][k]["faults"]
                attempt(put(faults={j: f for j, f in fs.items() if j != n}))
        drop_switches()
        so = self.run(best[0])
        if so.status != "violation":
            return case, o
        return so.case, so
