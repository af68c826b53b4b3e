"""Seeds, workers, evidence, replay files and known findings.

A check is a list of *scenarios* for one property; scenario objects provide

    name                                         a short name
    case(rng, i) -> dict                         the i-th simulated run (JSON-able)
    run(case) -> Outcome                         executes it; a pure function of the
                                                 case and the code under test
    shrink(case, outcome) -> case                optional
    relevant(case, outcome) -> bool              optional: does the (minimised)
                                                 violation concern this property?
"""
import collections
import gc
import hashlib
import json
import multiprocessing
import os
import random
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("VERIF_OUT", os.path.join(VERIF, "out"))
DEADLINE = float(os.environ.get("VERIF_DEADLINE", "0"))


class Outcome:
    """What one simulated run did.

    status: "ok", "discard" (the case is outside of the scenario's scope),
    "violation" or "error" (of the harness)."""

    __slots__ = ("status", "sig", "detail", "digest", "state", "nontrivial", "events",
                 "faults", "stats", "case", "note")

    def __init__(self, status, sig=None, detail=None, digest="", state=None, nontrivial=False,
                 events=0, faults=(), stats=None, case=None, note=None):
        self.status = status
        self.sig = sig              # class of the violation; kept by minimisation
        self.detail = detail        # human readable
        self.digest = digest        # of everything observed
        self.state = state          # what is counted as "distinct"
        self.nontrivial = nontrivial
        self.events = events
        self.faults = faults        # fault kinds that fired
        self.stats = stats or {}
        self.case = case            # the case, made explicit (fault table instead of rates)
        self.note = note


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(repr(p).encode("utf-8", "backslashreplace"))
        h.update(b"\0")
    return h.hexdigest()[:16]


def seed_of(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:7], "big")


def run_one(scn, seed, prop, i):
    rng = random.Random(seed_of(seed, prop, scn.name, i))
    gc.collect()
    try:
        case = scn.case(rng, i)
        if case is None:
            return Outcome("discard")
        o = scn.run(case)
        if o.case is None:
            o.case = case
        return o
    except Exception:
        return Outcome("error", detail=traceback.format_exc())


# ---------------------------------------------------------------- workers
_check = None


def _chunk(job):
    si, seed, lo, hi = job
    scn = _check.scenarios[si]
    agg = Agg()
    for i in range(lo, hi):
        agg.add(scn, i, run_one(scn, seed, _check.prop, i))
    agg.pack()
    return si, lo, agg


class Agg:
    """Totals over runs; addition is associative so worker counts do not matter."""

    def __init__(self):
        self.n = self.ok = self.discard = self.violation = self.error = 0
        self.events = 0
        self.faults = collections.Counter()
        self.stats = collections.Counter()
        self.states = set()
        self.nontrivial = set()
        self.found = []
        self.errors = []
        self.samples = []
        self.digests = []
        self.faulty_runs = 0

    def add(self, scn, i, o):
        self.n += 1
        setattr(self, o.status, getattr(self, o.status) + 1)
        self.events += o.events
        self.faults.update(o.faults)
        self.stats.update(o.stats)
        if o.status != "discard" and o.faults:
            self.faulty_runs += 1
        if o.state is not None:
            self.states.add(o.state)
            if o.nontrivial:
                self.nontrivial.add(o.state)
        self.digests.append((i, o.status, o.digest))
        if o.status == "violation" and len(self.found) < 6:
            self.found.append((scn.name, i, o.case, o.sig, o.detail, o.digest))
        elif o.status == "error" and len(self.errors) < 3:
            self.errors.append((scn.name, i, o.detail))
        elif o.status == "ok" and o.nontrivial and len(self.samples) < 2:
            self.samples.append((scn.name, i, o.case, o.digest))

    def pack(self):
        self.digests = digest(self.digests)

    def merge(self, b):
        for k in ("n", "ok", "discard", "violation", "error", "events", "faulty_runs"):
            setattr(self, k, getattr(self, k) + getattr(b, k))
        self.faults.update(b.faults)
        self.stats.update(b.stats)
        self.states |= b.states
        self.nontrivial |= b.nontrivial
        self.found += b.found
        self.errors += b.errors
        if len(self.samples) < 4:
            self.samples += b.samples
        self.digests.append(b.digests)


def _init():
    import signal
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    sys.unraisablehook = lambda a: None
    # No garbage collection at moments of the collector's choice: it would finish
    # abandoned generators.  run_one collects between runs.
    gc.collect()
    gc.freeze()
    gc.disable()
    import warnings
    warnings.simplefilter("ignore")


def explore(check, seed, tier, jobs, scale=1.0):
    """Runs all scenarios; returns {scenario index: Agg}."""
    global _check
    _check = check
    work = []
    for si, scn in enumerate(check.scenarios):
        n = int(scn.runs[tier] * scale)
        step = scn.chunk
        work += [(si, seed, lo, min(n, lo + step)) for lo in range(0, n, step)]
    # interleave the scenarios so that an early stop is fair to all of them
    work.sort(key=lambda j: (j[2] / max(1, check.scenarios[j[0]].runs[tier]), j[0]))
    out = {si: Agg() for si in range(len(check.scenarios))}
    start = time.time()
    stop = None
    if jobs == 1:
        it = map(_chunk, work)
        pool = None
        _init()
    else:
        ctx = multiprocessing.get_context("fork")
        pool = ctx.Pool(jobs, _init, maxtasksperchild=40)
        it = pool.imap(_chunk, work)
    try:
        found = 0
        for _ in work:
            if pool is None or not DEADLINE:
                r = next(it)
            else:
                left = start + DEADLINE - time.time()
                try:
                    r = it.next(max(left, 0.1))
                except multiprocessing.TimeoutError:
                    stop = "deadline"
                    break
            si, lo, agg = r
            out[si].merge(agg)
            found += agg.violation
            if found >= check.enough:
                stop = "violations"
                break
            if sum(a.error for a in out.values()) > 20:
                stop = "errors"
                break
    finally:
        if pool is not None:
            pool.terminate()
            pool.join()
    return out, stop


# ---------------------------------------------------------------- known findings
def known_findings():
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and line[0] == "{":
                out.append(json.loads(line))
    return out


# ---------------------------------------------------------------- replay files
def write_replay(check, scn, case, outcome, seed, index, original):
    os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
    name = "%s-%s.json" % (check.prop, digest(scn.name, case))
    p = os.path.join(OUT, "replays", name)
    data = dict(property=check.prop, scenario=scn.name, case=case, signature=outcome.sig,
                detail=outcome.detail, digest=outcome.digest, verif_seed=seed, index=index,
                unminimised=original)
    with open(p, "w") as f:
        json.dump(data, f, indent=1)
        f.write("\n")
    return p


def replay(check, path):
    data = json.load(open(path))
    scn = [s for s in check.scenarios if s.name == data["scenario"]][0]
    _init()
    o = scn.run(data["case"])
    print("scenario %s: %s" % (scn.name, o.status))
    if o.detail:
        print(o.detail)
    if o.status == "violation":
        same = o.digest == data["digest"]
        print("digest %s %s" % (o.digest, "reproduced exactly" if same else "DIFFERS from " + data["digest"]))
        print("VIOLATION property=%s replay=%s" % (check.prop, path))
        return 1
    if o.status == "error":
        return 2
    return 0


# ---------------------------------------------------------------- a whole check
def main(check, argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--only")
    ap.add_argument("--replay")
    ap.add_argument("--digest", action="store_true", help="print the digest over all runs")
    ap.add_argument("--index", type=int, help="execute one seeded run and show it")
    a = ap.parse_args(argv)
    if a.only:
        check.scenarios = [s for s in check.scenarios if s.name == a.only]
    if a.replay:
        return replay(check, a.replay)
    if a.index is not None:
        _init()
        for scn in check.scenarios:
            o = run_one(scn, a.seed, check.prop, a.index)
            print(scn.name, o.status, o.sig, o.digest)
            print(o.detail or "")
            for k, v in (o.case or {}).items():
                print("%s: %s" % (k, v))
        return 0
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    _init()
    start = time.time()
    print("%s seed=%d tier=%s jobs=%d" % (check.prop, a.seed, tier, a.jobs), flush=True)
    known = []
    for k in known_findings():
        if k["property"] == check.prop and k.get("scenario") in [s.name for s in check.scenarios]:
            scn = [s for s in check.scenarios if s.name == k["scenario"]][0]
            o = scn.run(k["case"])
            if o.status == "violation":
                print("KNOWN-FINDING: property=%s %s" % (check.prop, k["what"]))
                known.append(k)
    aggs, stop = explore(check, a.seed, tier, a.jobs, a.scale)
    total = Agg()
    for si in sorted(aggs):
        total.merge(aggs[si])
    explored = time.time() - start
    for name, i, text in total.errors[:3]:
        print("HARNESS ERROR %s #%d\n%s" % (name, i, text))
    # Violations: minimise candidates until one is about this property.
    reported = None
    elsewhere = 0
    kinds = collections.Counter(f[3] if isinstance(f[3], str) else repr(f[3]) for f in total.found)
    seen = set()
    cands = sorted(total.found, key=lambda f: (len(json.dumps(f[2])), f[0], f[1]))
    t_min = time.time()
    for name, i, case, sig, detail, dg in cands:
        if time.time() - t_min > 150 or len(seen) > 12:
            break
        scn = [s for s in check.scenarios if s.name == name][0]
        o = scn.run(case)
        if o.status != "violation":
            print("HARNESS ERROR violation of %s #%d does not reproduce" % (name, i))
            total.error += 1
            continue
        small, so = case, o
        if hasattr(scn, "shrink"):
            try:
                small, so = scn.shrink(case, o)
            except Exception:
                traceback.print_exc()
        key = digest(name, small)
        if key in seen:
            continue
        seen.add(key)
        if known and any(match_known(k, scn, small, so) for k in known):
            continue
        if hasattr(scn, "relevant") and not scn.relevant(small, so):
            elsewhere += 1
            print("note: divergence outside of %s (%s)" % (check.prop, so.sig))
            p = write_replay(check, scn, small, so, a.seed, i, case)
            print("      ", p)
            continue
        p = write_replay(check, scn, small, so, a.seed, i, case)
        print(so.detail)
        print("VIOLATION property=%s replay=%s" % (check.prop, p))
        reported = p
        break
    wall = time.time() - start
    cov = dict(
        evaluations=total.n - total.discard,
        distinct_nontrivial=len(total.nontrivial),
        rule=check.rule,
        samples=[dict(scenario=n, index=i, digest=d, case=c) for n, i, c, d in total.samples[:3]],
        generated=total.n,
        discarded=total.discard,
        distinct_executions=len(total.states),
        runs_with_faults=total.faulty_runs,
        runs_without_faults=total.n - total.discard - total.faulty_runs,
        world_events=total.events,
        simulated_time="event-counted: %d world events (the code under test reads no clock)" % total.events,
        faults_fired=dict(sorted(total.faults.items())),
        runs_per_hour=int((total.n - total.discard) / explored * 3600) if explored else 0,
        seeds_per_hour=int(total.n / explored * 3600) if explored else 0,
        reach=dict(sorted(total.stats.items())),
        scenarios={check.scenarios[si].name: dict(runs=g.n - g.discard, discarded=g.discard,
                                                  distinct=len(g.nontrivial), violations=g.violation)
                   for si, g in sorted(aggs.items())},
        real_components=check.real,
        stubs=check.stubs,
        stopped_early=stop,
        digest=digest(*[(si, g.digests) for si, g in sorted(aggs.items())]),
        harness_errors=total.error,
        divergences_outside_property=elsewhere,
        known_findings=len(known),
    )
    ev = dict(property=check.prop, tier=tier, seed=a.seed, level=check.level, coverage=cov,
              assumptions=check.assumptions, wall_s=round(wall, 2), violations=total.violation)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", check.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s: %d runs (%d discarded), %d distinct, %d faults, %d violations, %d errors, %.1fs%s" % (
        check.prop, total.n, total.discard, len(total.nontrivial), sum(total.faults.values()),
        total.violation, total.error, wall, " stopped: " + stop if stop else ""))
    if a.digest:
        print("digest", cov["digest"])
    if total.violation and not reported:
        print("divergence classes: %s" % kinds.most_common(5))
    if reported:
        return 1
    if total.error or stop in ("deadline", "errors"):
        return 2
    return 0


def match_known(k, scn, case, o):
    m = k.get("match") or {}
    if k.get("scenario") and k["scenario"] != scn.name:
        return False
    return all(str(case.get(f)) == str(v) if f != "sig" else str(o.sig) == str(v) for f, v in m.items())


def selftest(checks, n=24):
    """Determinism: some seeds of every check, twice, at two worker counts, and in a
    fresh interpreter with another hash seed; all digests have to agree."""
    import subprocess
    if os.environ.get("VERIF_SELFTEST") == "child":
        for p in sorted(checks):
            print(p, _selftest_digest(checks[p], n, 1))
        return 0
    env = dict(os.environ, VERIF_SELFTEST="child", PYTHONHASHSEED="12345")
    child = subprocess.Popen([sys.executable, sys.argv[0], "--selftest"], env=env, stdout=subprocess.PIPE, text=True,
                             stderr=subprocess.DEVNULL)
    mine = {p: _selftest_digest(checks[p], n, 3) for p in sorted(checks)}
    out = child.communicate()[0]
    theirs = dict(line.split(" ", 1) for line in out.splitlines() if " " in line)
    bad = [p for p in mine if theirs.get(p) != mine[p]]
    print("determinism: %d checks, %d seeds each, twice: %s" % (len(mine), n, "differ: %s" % bad if bad else "ok"))
    return 0


def _selftest_digest(check, n, jobs):
    for s in check.scenarios:
        s.runs = {"quick": n}
        s.chunk = 8
    check.enough = 10 ** 9
    aggs, stop = explore(check, 4242, "quick", jobs)
    return digest([(si, g.digests, g.n, g.violation, g.error) for si, g in sorted(aggs.items())])
