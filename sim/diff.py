"""Differential scenario: the same program in the same simulated world, run by the
reference (the host CPython) and by x-python as version-V bytecode."""
import ast
import random

import gen
import minicc
import runner
import shrink
import world
from engine import Outcome, digest
from world import World

VERSIONS = [(2, 4), (2, 5), (2, 6), (2, 7), (3, 1), (3, 2), (3, 3), (3, 4), (3, 5), (3, 6),
            (3, 7), (3, 8), (3, 9), (3, 10)]

PYPY = [(2, 7, "pypy"), (3, 2, "pypy"), (3, 5, "pypy"), (3, 6, "pypy"), (3, 7, "pypy")]

HARD = [k for k in world.FAULTS]
ORDINARY = [k for k in HARD if k not in ("KeyboardInterrupt", "SystemExit", "MemoryError")]
INTERRUPTS = ["KeyboardInterrupt", "SystemExit", "MemoryError"]
SOFT = ["short", "long", "end", "suppress"]


def spelled(version):
    return ("PyPy " if "pypy" in version else "") + "%d.%d" % tuple(version[:2])


def shape(x):
    if isinstance(x, tuple):
        return x[0].split("|")[0]
    if isinstance(x, str):
        return x.split("(")[0]
    return str(type(x).__name__)


def sig_of(d):
    kind, i, ref, got = d
    if kind.startswith("variable"):
        return "variable"
    return "%s/%s/%s" % (kind, shape(ref), shape(got))


def explain(src, version, faults, a, b, d):
    kind, i, ref, got = d
    out = ["Python %s bytecode; faults: %s" % (spelled(version), faults or "none")]
    out += ["    " + line for line in src.rstrip().split("\n")]
    lo = max(0, min(i, len(a.log)) - 4)
    out.append("first difference: %s at event %d" % (kind, i))
    out.append("  common history: %s" % (a.log[lo:i],))
    out.append("  expected (CPython): %s" % (ref,))
    out.append("  x-python:           %s" % (got,))
    out.append("  outcomes: expected %s, x-python %s" % (a.outcome, b.outcome))
    return "\n".join(out)


LEVELS = (0, 0, 0.005, 0.02, 0.05, 0.12)
SPOTS = (("exit", "enter"), ("next", "iter"), ("log",), ("call", "callm", "getattr"), ("bool", "contains"),
         ("cb", "cbs", "cb-end", "cbs-end"))


def pick_rates(rng, kinds, soft, levels=LEVELS):
    """Swarm: which fault kinds, how often, and at times only at some kind of event."""
    p = rng.choice(levels)
    if not p:
        return [], None
    kinds, soft = list(kinds), list(soft)
    ks = rng.sample(kinds, rng.randint(1, min(5, len(kinds))))
    spots = None
    if rng.random() < 0.3:
        spots = sorted(set(sum(rng.sample(SPOTS, 2), ())))
        p = min(0.3, p * 4)
    rates = [(k, int(p * 2**32 * (0.4 + 1.2 * rng.random()) / len(ks))) for k in ks]
    for k in soft:
        if rng.random() < 0.6:
            rates.append((k, int(rng.choice((0.03, 0.1, 0.4)) * 2**32)))
    return rates, spots


class Diff:
    limit = 1500
    chunk = 60
    cpu = 4.0

    def __init__(self, name, profile, focus=None, hit=None, versions=VERSIONS, kinds=HARD, soft=SOFT,
                 quick=9000, thorough=200000, levels=LEVELS, need=0.85):
        self.name = name
        self.profile = profile
        self.focus = focus          # AST -> bool: concerns the property
        self.hit = hit              # event log -> bool: the run reached the mechanism
        self.versions = versions
        self.kinds = kinds
        self.soft = soft
        self.runs = dict(quick=quick, thorough=thorough)
        self.levels = levels
        self.need = need

    def case(self, rng, i):
        v = rng.choice(self.versions)
        rates, spots = pick_rates(rng, self.kinds, self.soft, self.levels)
        ws = rng.getrandbits(31)
        for _ in range(6):
            src = gen.generate(rng, v[:2], self.profile)
            if self.focus and not self.focus(ast.parse(src)) and rng.random() < self.need:
                continue
            try:
                minicc.compile_for(src, v)
            except minicc.CompileUnsupported:
                continue
            return dict(version=list(v), source=src, world=ws, rates=rates, spots=spots)
        return None

    def execute(self, case, cpu=None):
        v = tuple(case["version"])
        src = case["source"]
        world.of_version(v)
        code = minicc.compile_for(src, v)
        if "faults" in case:
            w = World(case["world"], faults={int(k): f for k, f in case["faults"].items()}, limit=self.limit)
        else:
            w = World(case["world"], rates=case["rates"], limit=self.limit, kinds=case.get("spots"))
        a = runner.run_host(src, w, cpu or self.cpu, v)
        if a.outcome in ("limit", "hang", "too deep"):
            return None, a, None, None
        b = runner.run_vm(src, v, World(case["world"], faults=a.fired, limit=2 * self.limit), cpu or self.cpu, code=code)
        return runner.diverge(a, b), a, b, dict(version=list(v), source=src, world=case["world"],
                                                faults={str(k): f for k, f in a.fired.items()})

    def reached(self, a):
        return bool(self.hit(a.log)) if self.hit else len(a.log) > 5

    def run(self, case):
        d, a, b, explicit = self.execute(case)
        if b is None:
            return Outcome("discard", note=a.outcome)
        v = tuple(case["version"])
        hit = self.reached(a)
        o = Outcome("ok", digest=digest(v, a.log, a.outcome, sorted(a.vars.items()), b.log, b.outcome,
                                        sorted(b.vars.items()), a.out, b.out),
                    state=digest(v, a.log, a.outcome), nontrivial=hit, events=len(a.log) + len(b.log),
                    faults=list(a.fired.values()), case=explicit)
        o.stats = {"version " + spelled(v): 1, "reached mechanism": int(hit),
                   "program ended by exception": int(a.outcome != "ok"),
                   "fault inside handler/finally/exit": 0}
        for n, k in a.fired_at.items():
            if k.startswith("exit") or k == "enter":
                o.stats["fault in enter/exit"] = o.stats.get("fault in enter/exit", 0) + 1
            elif k in ("next", "iter"):
                o.stats["fault in iteration"] = o.stats.get("fault in iteration", 0) + 1
        del o.stats["fault inside handler/finally/exit"]
        if d:
            o.status = "violation"
            o.sig = self.sig_of(d)
            o.detail = explain(case["source"], v, a.fired, a, b, d)
        return o

    def sig_of(self, d):
        return sig_of(d)

    # ------------------------------------------------------------ minimisation
    def shrink(self, case, o):
        case = dict(o.case)
        sig = o.sig
        best = [case]

        def fails(c):
            try:
                d, a, b, ex = self.execute(c, 0.5)
            except minicc.CompileUnsupported:
                return None
            except Exception:
                return None
            if d and self.sig_of(d) == sig:
                return ex
            return None

        def try_source(s):
            c = dict(best[0], source=s)
            fs = c["faults"]
            r = fails(c)
            if r is None and fs:
                for d in range(1, 9):
                    sh = {str(int(k) - d): f for k, f in fs.items() if int(k) >= d}
                    if len(sh) == len(fs):
                        r = fails(dict(c, faults=sh))
                        if r is not None:
                            break
            if r is not None:
                best[0] = r
                return True
            return False

        for k in sorted(case["faults"], key=int):
            c = dict(best[0])
            c["faults"] = {j: f for j, f in c["faults"].items() if j != k}
            r = fails(c)
            if r is not None:
                best[0] = r
        shrink.shrink_source(case["source"], tuple(case["version"][:2]), try_source)
        for k in sorted(best[0]["faults"], key=int):
            c = dict(best[0])
            c["faults"] = {j: f for j, f in c["faults"].items() if j != k}
            r = fails(c)
            if r is not None:
                best[0] = r
        so = self.run(best[0])
        if so.status != "violation":
            return case, o
        return so.case, so

    def relevant(self, case, o):
        return self.focus is None or self.focus(ast.parse(case["source"]))
