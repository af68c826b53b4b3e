"""Showing: the same program with x-python's -v and -vv, that is with the loggers of its virtual machine enabled.

The program has to do what it does otherwise; and what is shown has to be what is done: each instruction, in order, at
the depth of its frame, with the line it begins and the operands of the operation that follows.
"""
import logging
import random
import re

import gen
import minicc
import runner
import world
from diff import Diff, VERSIONS, explain, pick_rates, sig_of, spelled
from engine import Outcome, digest
from world import World

LINE = re.compile(r"( *(?:L\. (\d+) *)?)@ *(\d+): (\S+)(?: (.*))?$", re.S)
PROBE = re.compile(r"P(\d+)$")
NAMED = re.compile(r"(f|g)\d+$|main$")
CALLED = re.compile(r"\((\w+)\)")
METHOD = re.compile(r"(\w+)\(([^()]*)\) ")

# Objects that are not easily shown.
SHY = {
    "raises": "raise ValueError('shy')",
    "interrupted": "raise MemoryError",
    "no string": "return 5",
    "falls": "return [].pop()",
    "handles": "try:\n            raise KeyError(1)\n        except KeyError:\n            return 'shy'",
    "calls": "return ''.join([str(x) for x in [1, 2]])",
    "asks": "return self.missing",
}


class Lines(logging.Handler):
    """What is shown, each line with the number of events before it."""

    def __init__(self, w):
        logging.Handler.__init__(self)
        self.w = w
        self.got = []
        self.other = 0

    def emit(self, record):
        try:
            text = record.getMessage()
        except Exception:
            # (The handlers of logging complain about this, and go on.)
            self.other += 1
            return
        if record.levelno == logging.INFO:
            m = LINE.match(text)
            if m:
                self.got.append((len(self.w.log), m))
                return
        self.other += 1


class shown:
    """Logging is on."""

    def __init__(self, level, handler):
        self.level, self.handler = level, handler

    def __enter__(self):
        self.log = logging.getLogger("xpython")
        self.saved = (self.log.level, self.log.propagate)
        self.log.propagate = False
        self.log.addHandler(self.handler)
        self.log.setLevel(self.level)
        logging.disable(logging.NOTSET)

    def __exit__(self, *a):
        logging.disable(logging.CRITICAL)
        self.log.removeHandler(self.handler)
        self.log.setLevel(self.saved[0])
        self.log.propagate = self.saved[1]
        return False


class Steps:
    """The instructions a program runs, by way of tracing."""

    def __init__(self):
        self.got = []
        self.codes = []
        self.given = {}

    def __call__(self, event, offset, name, code, line, *a):
        if event in ("line", "instruction"):
            self.got.append((len(a[-1].frames), line, offset, name))
            frame = a[-1].frame
            self.codes.append(frame.f_code.co_name)
            if len(self.got) > 1 and self.got[-2][0] < self.got[-1][0]:
                self.given[len(self.got) - 1] = [frame.f_locals.get(n) for n in
                                                 frame.f_code.co_varnames[:frame.f_code.co_argcount]]
        return self


# The operands of a comparison, none of which has elements.
PLAIN = re.compile(r"\([^\[({<]*\) (?!in$|not in$)")


def shy(rng, src):
    """Puts objects that cannot be shown in the place of probes."""
    kinds = rng.sample(sorted(SHY), rng.randint(1, 3))
    out = []
    for i, k in enumerate(kinds):
        out.append("class Shy%d(object):\n    def __repr__(self):\n        %s\n" % (i, SHY[k]))
    p = rng.choice((0.1, 0.3, 0.6))
    body = re.sub(r"\bP\(\d+\)", lambda m: "Shy%d()" % rng.randrange(len(kinds)) if rng.random() < p else m.group(), src)
    return "".join(out) + body


def operands(e):
    """What an event of an operator says its operands are, or None."""
    m = len(e) in (2, 3) and e[0].startswith("__") and PROBE.match(e[1])
    if not m or e[0] in ("__contains__", "__hash__", "__bool__", "__len__", "__index__"):
        return None
    if len(e) == 2:
        return "(r%s)" % m.group(1)
    o = PROBE.match(e[2])
    if (o or e[2].isdigit()) and (not e[0].startswith("__r") or e[0] == "__rshift__"):
        return "(r%s, %s)" % (m.group(1), "r" + o.group(1) if o else e[2])
    return None


class Verbose(Diff):
    chunk = 40

    def __init__(self, name, profiles, **kw):
        Diff.__init__(self, name, None, **kw)
        self.profiles = profiles

    def case(self, rng, i):
        v = rng.choice(self.versions)
        rates, spots = pick_rates(rng, self.kinds, self.soft, self.levels)
        ws = rng.getrandbits(31)
        for _ in range(6):
            src = gen.generate(rng, v[:2], rng.choice(self.profiles))
            is_shy = rng.random() < 0.3
            if is_shy:
                src = shy(rng, src)
            try:
                minicc.compile_for(src, v)
            except minicc.CompileUnsupported:
                continue
            return dict(version=list(v), source=src, world=ws, rates=rates, spots=spots, shy=is_shy,
                        level=rng.choice(("INFO", "DEBUG")))
        return None

    def execute(self, case, cpu=None):
        v = tuple(case["version"])
        src = case["source"]
        cpu = cpu or 2 * self.cpu
        world.of_version(v)
        code = minicc.compile_for(src, v)
        if "faults" in case:
            w = World(case["world"], faults={int(k): f for k, f in case["faults"].items()}, limit=self.limit)
        else:
            w = World(case["world"], rates=case["rates"], limit=self.limit, kinds=case.get("spots"))
        a = runner.run_host(src, w, cpu, v)
        if a.outcome in ("limit", "hang", "too deep"):
            return None, a, None, None
        explicit = dict(version=list(v), source=src, world=case["world"], shy=case["shy"], level=case["level"],
                        faults={str(k): f for k, f in a.fired.items()})
        w = World(case["world"], faults=a.fired, limit=2 * self.limit)
        lines = Lines(w)
        with shown(getattr(logging, case["level"]), lines):
            b = runner.run_vm(src, v, w, cpu, code=code)
        b.extra = len(lines.got)
        d = runner.diverge(a, b)
        if b.outcome == "hang":
            # Showing takes time.
            return None, b, None, None
        if d:
            return d, a, b, explicit
        for k, (n, m) in enumerate(lines.got):
            if m.group(4).startswith(("BINARY_", "INPLACE_", "UNARY_", "COMPARE_")) and m.group(4) != "BINARY_SUBSCR":
                nxt = lines.got[k + 1][0] if k + 1 < len(lines.got) else len(b.log)
                if nxt > n:
                    want = operands(b.log[n])
                    if m.group(4).startswith("COMPARE_") and not PLAIN.match(m.group(5) or ""):
                        # Python compares the elements of what is compared or searched.
                        continue
                    shown_as = [want]
                    if want and m.group(4).startswith("COMPARE_"):
                        # (Python may ask the second operand.)
                        shown_as.append("(%s, %s)" % tuple(reversed(want[1:-1].split(", "))))
                    if want and not any((m.group(5) or "").startswith(x + " ") for x in shown_as):
                        return ("operands shown", n, want, m.group(5)), a, b, explicit
        from xpython.vmtrace import PyVMTraced
        see = Steps()
        c = runner.run_vm(src, v, World(case["world"], faults=a.fired, limit=2 * self.limit), cpu, code=code,
                          vm=PyVMTraced(see, v[:2], "pypy" in v))
        if c.outcome == "hang":
            return None, c, None, None
        got = [((len(m.group(1)) - 7) // 4 + 1, int(m.group(2)) if m.group(2) else None, int(m.group(3)), m.group(4))
               for n, m in lines.got]
        if got != see.got:
            i = 0
            while i < min(len(got), len(see.got)) and got[i] == see.got[i]:
                i += 1
            return ("instruction shown", i, see.got[i] if i < len(see.got) else "end", got[i] if i < len(got) else "end"), \
                a, b, explicit
        for k in range(len(got) - 1):
            if got[k][3].startswith("CALL_") and got[k + 1][0] > got[k][0] and NAMED.match(see.codes[k + 1]):
                m = METHOD.match(lines.got[k][1].group(5) or "")
                if m:
                    got_args = m.group(2).split(", ") if m.group(2) else []
                    want = [repr(x) if isinstance(x, world.P) else None for x in see.given.get(k + 1, ())][1:]
                    if m.group(1) == see.codes[k + 1] and any(x and re.match(r"r\d+$", y) and x != y for x, y in zip(want, got_args)) \
                            or NAMED.match(m.group(1)) and m.group(1) != see.codes[k + 1]:
                        return ("callee shown", k, "%s %r" % (see.codes[k + 1], want), lines.got[k][1].group(5)), a, b, explicit
                    continue
                m = CALLED.match(lines.got[k][1].group(5) or "")
                if m:
                    wrong = NAMED.match(m.group(1)) and m.group(1) != see.codes[k + 1]
                else:
                    wrong = got[k][3] == "CALL_FUNCTION" and lines.got[k][0] == lines.got[k + 1][0]
                if wrong:
                    return ("callee shown", k, see.codes[k + 1], lines.got[k][1].group(5)), a, b, explicit
        return None, a, b, explicit

    def run(self, case):
        d, a, b, explicit = self.execute(case)
        if b is None:
            return Outcome("discard", note=a.outcome)
        v = tuple(case["version"])
        o = Outcome("ok", digest=digest(v, a.log, a.outcome, sorted(a.vars.items()), b.log, b.outcome,
                                        sorted(b.vars.items()), b.extra),
                    state=digest(v, a.log, a.outcome, case["level"]), nontrivial=len(a.log) > 5,
                    events=len(a.log) + b.extra, faults=list(a.fired.values()), case=explicit)
        o.stats = {"version " + spelled(v): 1, "instructions shown": b.extra, "with objects not easily shown": int(case["shy"]),
                   "level " + case["level"]: 1, "program ended by exception": int(a.outcome != "ok")}
        if d:
            o.status = "violation"
            o.sig = self.sig_of(d)
            o.detail = "shown at level %s\n" % case["level"] + explain(case["source"], v, a.fired, a, b, d)
        return o

    def sig_of(self, d):
        return d[0] if d[0].endswith("shown") else sig_of(d)

    def relevant(self, case, o):
        """The program behaves when nothing is shown."""
        w = World(case["world"], faults={int(k): f for k, f in case["faults"].items()}, limit=2 * self.limit)
        v = tuple(case["version"])
        a = runner.run_host(case["source"], w, self.cpu, v)
        b = runner.run_vm(case["source"], v, World(case["world"], faults=a.fired, limit=2 * self.limit), self.cpu)
        return runner.diverge(a, b) is None
