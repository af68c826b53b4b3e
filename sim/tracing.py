"""Tracing: the same program under PyVMTraced, with the debugger simulated.

Three things are compared.  The calls, returns, yields, resumptions and unwindings of
the program's functions, in one history with the world's events, against those that
sys.monitoring reports for the reference.  Each step against this module's own reading
of the bytecode.  And what reaches the callback under some setting of event flags and
some scripted behaviour of the debugger against a model of the flags, which turns the
full record of the program into the events it should get.
"""
import ast
import copy
import re
import sys
import zlib

import minicc
import runner
from diff import Diff, explain, sig_of
from engine import Outcome, digest
import world
from world import World, show, show_exc

INSTRUCTION, LINE, CALL, RETURN, EXCEPTION, YIELD, FATAL, STEP_OVER = 1, 2, 4, 8, 16, 32, 64, 128
ALL = 127
INLINED = ("<listcomp>", "<setcomp>", "<dictcomp>")
STUB = 77
PLAIN = re.compile("[a-z][0-9]+$|main$").match
MODES = ("plain", "plain", "off", "finish", "flags", "step", "bp", "bp", "bp", "mix", "stub", "skip", "skip")


def is_class(code):
    return not code.co_flags & 1 and code.co_name != "<module>"


def what(exc):
    t = type(exc)
    if t in (StopIteration, RuntimeError):
        return "StopIteration|RuntimeError"     # PEP 479 makes the one the other
    return show_exc(t, exc)


class monitored:
    """Function-level events of the reference, in the world's log."""
    TOOL = 4

    def __init__(self, w):
        self.w = w

    def put(self, kind, code, value=None):
        if code.co_filename == "<sim>" and code.co_name not in INLINED and not self.w.stopped:
            if is_class(code):
                value = None
            self.w.log.append(("t", kind, code.co_name, value))

    def __enter__(self):
        mon = sys.monitoring
        e = mon.events
        mon.use_tool_id(self.TOOL, "trace")
        mon.register_callback(self.TOOL, e.PY_START, lambda c, o: self.put("call", c))
        mon.register_callback(self.TOOL, e.PY_RESUME, lambda c, o: self.put("yield", c))
        mon.register_callback(self.TOOL, e.PY_THROW, lambda c, o, x: self.put("yield", c))
        mon.register_callback(self.TOOL, e.PY_RETURN, lambda c, o, v: self.put("return", c, show(v)))
        mon.register_callback(self.TOOL, e.PY_YIELD, lambda c, o, v: self.put("return", c, show(v)))
        mon.register_callback(self.TOOL, e.PY_UNWIND, lambda c, o, x: self.put("exception", c, what(x)))
        mon.set_events(self.TOOL, e.PY_START | e.PY_RESUME | e.PY_THROW | e.PY_RETURN | e.PY_YIELD | e.PY_UNWIND)
        return self

    def __exit__(self, *a):
        mon = sys.monitoring
        mon.set_events(self.TOOL, 0)
        e = mon.events
        for k in (e.PY_START, e.PY_RESUME, e.PY_THROW, e.PY_RETURN, e.PY_YIELD, e.PY_UNWIND):
            mon.register_callback(self.TOOL, k, None)
        mon.free_tool_id(self.TOOL)
        return False


# ------------------------------------------------------------------ bytecode
class Instr:
    __slots__ = ("start", "offset", "next", "op", "name", "arg", "value", "target")


class Text:
    """This module's reading of a code object."""

    def __init__(self, code, version):
        opc = minicc.opc_for(version)
        self.code, self.version = code, version
        self.bytes = code.co_code
        self.at = {}
        self.starts = []
        self.targets = set()
        co, i, n = code.co_code, 0, len(code.co_code)
        word = version >= (3, 6)
        while i < n:
            s = Instr()
            s.start, ext = i, 0
            while True:
                s.offset, s.op = i, co[i]
                if word:
                    s.arg = co[i + 1] | ext if s.op >= 90 else None
                    i += 2
                elif s.op >= 90:
                    s.arg = (co[i + 1] | co[i + 2] << 8) + ext
                    i += 3
                else:
                    s.arg = None
                    i += 1
                if s.op != opc.EXTENDED_ARG:
                    break
                ext = s.arg << 8 if word else s.arg << 16
            s.next, s.name, s.target = i, opc.opname[s.op], None
            unit = 2 if version >= (3, 10) else 1
            if s.op in opc.hasjrel:
                s.target = i + s.arg * unit
            elif s.op in opc.hasjabs:
                s.target = s.arg * unit
            if s.target is not None:
                self.targets.add(s.target)
            if s.name == "CALL_FINALLY":
                self.targets.add(s.next)
            s.value = self.argument(s, opc)
            self.at[s.offset] = s
            self.starts.append(s.start)
        self.by_start = {s.start: s for s in self.at.values()}
        self.lines()

    def argument(self, s, opc):
        c = self.code
        if s.arg is None:
            return None
        if s.target is not None:
            return s.target
        if s.op in opc.hasconst:
            v = c.co_consts[s.arg]
            return "code" if hasattr(v, "co_code") else show(v)
        if s.op in opc.hasfree:
            return (tuple(c.co_cellvars) + tuple(c.co_freevars))[s.arg]
        if s.op in opc.hasname:
            return c.co_names[s.arg]
        if s.op in opc.haslocal:
            return c.co_varnames[s.arg]
        return s.arg

    def lines(self):
        """line_of[offset]: the line an instruction belongs to; begins: the offsets
        where the line changes."""
        c, v = self.code, self.version
        tab, spans = getattr(c, "co_linetable" if v >= (3, 10) else "co_lnotab"), []
        if isinstance(tab, str):
            tab = tab.encode("latin-1")
        line, addr = c.co_firstlineno, 0
        for i in range(0, len(tab) - 1, 2):
            a, d = tab[i], tab[i + 1]
            if v >= (3, 6) and d >= 128:
                d -= 256
            if v >= (3, 10):
                line += d
                if a:
                    spans.append((addr, line))
                addr += a
            else:
                if a:
                    spans.append((addr, line))
                addr += a
                line += d
        if v < (3, 10):
            spans.append((addr, line))
        self.begins, last = {}, None
        for a, ln in spans:
            if ln != last:
                self.begins[a] = ln
            last = ln
        self.line_of, k = {}, -1
        for s in self.starts:
            while k + 1 < len(spans) and spans[k + 1][0] <= s:
                k += 1
            self.line_of[s] = spans[k][1] if k >= 0 else c.co_firstlineno


LEAVERS = ("RETURN_VALUE", "YIELD_VALUE", "YIELD_FROM", "END_FINALLY", "WITH_CLEANUP", "WITH_CLEANUP_FINISH", "POP_BLOCK",
           "POP_EXCEPT")


class Act:
    """One activation of a code object."""
    __slots__ = ("frame", "text", "last", "n", "serial", "bps")


class Observer:
    """The callback of the first run: records everything and checks it as it comes."""

    def __init__(self, w, version):
        self.w, self.version = w, version
        self.texts = {}
        self.acts = {}
        self.stack = []
        self.record = []
        self.wrong = None
        self.skip = ()
        self.stub = self.via = None
        self.steps = 0

    def text(self, code):
        t = self.texts.get(id(code))
        if t is None:
            t = self.texts[id(code)] = Text(code, self.version)
        return t

    def bad(self, what, want=None, got=None):
        if self.wrong is None:
            self.wrong = ("trace " + what, len(self.w.log), repr(want), repr(got))

    def put(self, kind, act, value=None):
        c = act.text.code
        if c.co_name not in INLINED and not self.w.stopped:
            if is_class(c):
                value = None
            self.w.log.append(("t", kind, c.co_name, value))

    def __call__(self, event, offset, opname, op, line, arg, event_arg, vm):
        f = vm.frame
        if event == "call" or event == "yield":
            a = self.acts.get(id(f))
            if a is None:
                a = Act()
                a.frame, a.text, a.last, a.n, a.serial = f, self.text(f.f_code), None, 0, len(self.acts)
                a.bps = {}
                self.acts[id(f)] = a
                if event != "call":
                    self.bad("kind of entry", "call", event)
            elif event != "yield":
                self.bad("kind of entry", "yield", event)
            if self.stack and f.f_back is not self.stack[-1].frame:
                self.bad("caller", self.stack[-1].text.code.co_name, "another")
            self.stack.append(a)
            self.put(event, a)
            self.record.append((event, a.serial, None, None))
            if event == "call":
                if a.text.code.co_name == self.stub:
                    if self.via == "call":
                        vm.return_value = STUB
                        return "return"
                    a.bps[0] = "return"
                for s in a.text.by_start.values():
                    if s.name in self.skip:
                        a.bps[s.start] = "skip"
                if self.via == "breakpoint":
                    for k in a.bps:
                        vm.add_breakpoint(f, k)
            return True
        if event == "line" or event == "instruction":
            return self.step(event, offset, opname, op, line, arg, event_arg, vm, f)
        if event == "breakpoint":
            a = self.stack[-1]
            if a.frame is not f or offset not in a.bps:
                return self.bad("breakpoint", sorted(a.bps), offset)
            s = a.text.by_start[offset]
            if self.via != "breakpoint" or (opname, op) != (s.name, s.op):
                self.bad("breakpoint at %d" % offset, (s.name, s.op), (opname, op))
            if a.bps[offset] == "return":
                vm.return_value = STUB
            return a.bps[offset]
        if event == "return" or event == "exception":
            if not self.stack:
                return self.bad("leaving", "an activation", event)
            a = self.stack.pop()
            if event == "exception":
                if f is not a.frame:
                    self.bad("frame left", a.text.code.co_name, f.f_code.co_name)
                if not isinstance(event_arg, tuple):
                    return self.bad("exception", "(type, value, traceback)", event_arg)
                v = event_arg[1] if isinstance(event_arg[1], BaseException) else event_arg[0]()
                value = what(v)
            else:
                value = show(event_arg)
                if a.last is not None and a.last.name not in LEAVERS and a.text.code.co_name != self.stub:
                    self.bad("return after", LEAVERS, a.last.name)
            self.put(event, a, value)
            self.record.append((event, a.serial, None, value if event == "exception" or not is_class(a.text.code) else None))
            return True
        self.bad("event", "an event", event)

    def step(self, event, offset, opname, op, line, arg, event_arg, vm, f):
        if not self.stack or self.stack[-1].frame is not f:
            self.bad("frame of a step", self.stack and self.stack[-1].text.code.co_name, f.f_code.co_name)
            return True
        a = self.stack[-1]
        t = a.text
        self.steps += 1
        s = t.at.get(offset)
        if opname == "BRKPT" and self.via == "breakpoint" and offset in a.bps:
            s = t.by_start[offset]
            opname, op, arg, event_arg, offset = s.name, s.op, s.arg, None, s.offset
        if s is None:
            return self.bad("offset", "an instruction", offset)
        if (opname, op) != (s.name, s.op):
            self.bad("instruction at %d" % offset, (s.name, s.op), (opname, op))
        if s.target is None and arg != s.arg:
            self.bad("operand of " + s.name, s.arg, arg)
        if s.arg is not None and event_arg is not None:
            v = event_arg[0]
            v = "code" if hasattr(v, "co_code") else show(v) if s.op in vm.opc.CONST_OPS else v
            if v != s.value:
                self.bad("argument of " + s.name, s.value, v)
        if f.f_lasti != (offset if event_arg is not None else s.start):
            self.bad("f_lasti", offset, f.f_lasti)
        want = t.begins.get(s.start)
        if want is not None and (event, line) != ("line", want):
            self.bad("line event at %d" % offset, ("line", want), (event, line))
        elif event == "line" and line != t.line_of[s.start]:
            self.bad("line at %d" % offset, t.line_of[s.start], line)
        if self.version < (3, 6) and line is None and f.f_lineno not in t.line_of.values():
            self.bad("current line", t.line_of[s.start], f.f_lineno)
        p = a.last
        if p is None:
            if s.start != 0:
                self.bad("first step", 0, s.start)
        elif s.start != p.next and s.start not in t.targets and not (s.start == p.start and p.name == "YIELD_FROM"):
            self.bad("step after %s at %d" % (p.name, p.offset), p.next, s.start)
        a.last = s
        a.n += 1
        self.record.append((event, a.serial, s, line))
        if s.start in a.bps and self.via != "breakpoint":
            if a.bps[s.start] == "return":
                vm.return_value = STUB
            return a.bps[s.start]
        return True


# ------------------------------------------------------------------ the debugger
class Script:
    """What the debugger does: a pure function of the number of the event delivered to
    it and of the kind of event."""

    def __init__(self, plan):
        self.plan = plan
        self.mode = plan["mode"]

    def pick(self, j, k, salt):
        return (zlib.crc32(b"%d:%d:%s" % (self.plan["seed"], j, salt)) >> 5) % k

    def act(self, j, kind):
        """(command, argument)"""
        if self.pick(j, 100, b"go") >= self.plan["rate"]:
            return None, None
        m = self.mode
        if m == "mix":
            m = ("off", "finish", "flags", "step", "bp")[self.pick(j, 5, b"mix")]
        step = kind in ("line", "instruction")
        if m == "off" and step:
            return "off", None
        if m == "finish" and (step or kind == "call"):
            return "finish", None
        if m == "flags" and (step or kind in ("call", "yield")):
            return "flags", self.pick(j, 256, b"fl") | self.pick(j, 128, b"f2")
        if m == "step" and (step or kind in ("call", "yield")):
            return "flags", ALL | STEP_OVER
        if m == "bp" and (kind == "call" or step):
            return "bp", self.pick(j, 10000, b"at")
        return None, None

    def truthy(self, j):
        return (True, 1, "go on", len, [0])[self.pick(j, 5, b"t")]

    def once(self, j):
        return self.pick(j, 3, b"once") == 0


class Debugger:
    """The callback of the second run."""

    def __init__(self, plan, version, limit):
        self.s = Script(plan)
        self.version = version
        self.got = []
        self.texts = {}
        self.frames = []
        self.set = {}
        self.limit = limit

    def text(self, f):
        t = self.texts.get(id(f))
        if t is None:
            t = self.texts[id(f)] = Text(f.f_code, self.version)
            self.frames.append(f)
        return t

    def __call__(self, event, offset, opname, op, line, arg, event_arg, vm):
        j = len(self.got)
        if j > self.limit:
            raise runner.Hang()
        f = vm.frame
        if event in ("call", "yield"):
            t = self.text(f)
            self.got.append((event, f.f_code.co_name, None, None))
        elif event in ("line", "instruction", "breakpoint"):
            t = self.text(f)
            self.got.append((event, f.f_code.co_name, offset, opname))
        elif event == "exception":
            v = event_arg[1] if isinstance(event_arg[1], BaseException) else event_arg[0]()
            self.got.append((event, f.f_code.co_name, None, what(v)))
        else:
            self.got.append((event, None, None, show(event_arg)))
        if event == "breakpoint":
            if self.s.once(j):
                vm.remove_breakpoint(f, offset)
            return self.s.truthy(j)
        c, x = self.s.act(j, event)
        if c == "off":
            return None
        if c == "finish":
            return "finish"
        if c == "flags":
            f.event_flags = x
        elif c == "bp":
            vm.add_breakpoint(f, t.starts[x % len(t.starts)])
        return self.s.truthy(j)


def predict(plan, record, texts):
    """The events that should reach the debugger, from the full record."""
    s = Script(plan)
    out, stack, bps = [], [], {}
    for kind, serial, a, b in record:
        t = texts[serial]
        name = t.code.co_name
        if kind in ("call", "yield"):
            flags, tracing = (stack[-1][0], stack[-1][1]) if stack else (plan["flags"], True)
            if flags & STEP_OVER:
                flags = 0
            cur = [flags, tracing]
            stack.append(cur)
            bit = CALL if kind == "call" else YIELD
            if not (tracing and flags & bit):
                continue
            j = len(out)
            out.append((kind, name, None, None))
            c, x = s.act(j, kind)
            if c == "finish":
                cur[:] = [RETURN | YIELD, False]
            elif c == "flags":
                cur[0] = x
            elif c == "bp":
                bps.setdefault(serial, set()).add(t.starts[x % len(t.starts)])
        elif kind in ("line", "instruction"):
            cur = stack[-1]
            at = bps.get(serial, ())
            hit = a.start if a.start in at else None
            if cur[1] and (cur[0] & INSTRUCTION or (kind == "line" and cur[0] & LINE)):
                j = len(out)
                out.append((kind, name, a.offset if hit is None else hit, a.name if hit is None else "BRKPT"))
                c, x = s.act(j, kind)
                if c == "off":
                    cur[0] = 0
                elif c == "finish":
                    cur[1] = False
                elif c == "flags":
                    cur[0] = x
                elif c == "bp":
                    bps.setdefault(serial, set()).add(t.starts[x % len(t.starts)])
            if hit is not None:
                j = len(out)
                out.append(("breakpoint", name, hit, a.name))
                if s.once(j):
                    bps[serial].discard(hit)
        else:
            cur = stack.pop()
            if kind == "exception" and cur[0] & EXCEPTION:
                out.append((kind, name, None, b))
            elif kind == "return" and cur[0] & RETURN:
                out.append((kind, None, None, b))
    return out


# ------------------------------------------------------------------ the scenario
class Unsign(ast.NodeTransformer):
    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not) or isinstance(n.operand, ast.Constant):
            return n
        return n.operand


def without_signs(src):
    return ast.unparse(ast.fix_missing_locations(Unsign().visit(ast.parse(src))))


def generator(node):
    return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(node))


def stubbable(src):
    t = ast.parse(src)
    names = [n.name for n in ast.walk(t) if isinstance(n, (ast.FunctionDef, ast.ClassDef))]
    return sorted(n.name for n in ast.walk(t) if isinstance(n, ast.FunctionDef) and not generator(n)
                  and names.count(n.name) == 1 and PLAIN(n.name))


def stubbed(src, name):
    t = ast.parse(src)
    for n in ast.walk(t):
        if isinstance(n, ast.FunctionDef) and n.name == name:
            n.body = ast.parse("return %d" % STUB).body
    return ast.unparse(ast.fix_missing_locations(t))


class Traced(Diff):
    chunk = 40
    cpu = 6.0

    def case(self, rng, i):
        c = Diff.case(self, rng, i)
        if c is None:
            return None
        mode = rng.choice(MODES)
        flags = rng.choice((ALL, ALL, ALL, LINE | CALL | RETURN | EXCEPTION, INSTRUCTION, LINE, rng.getrandbits(7)))
        if mode == "stub":
            names = stubbable(c["source"])
            if not names:
                mode = "plain"
            else:
                c["stub"] = rng.choice(names)
        c["plan"] = dict(mode=mode, via=rng.choice(("call", "line", "breakpoint")), flags=flags, seed=rng.getrandbits(31), rate=rng.choice((1, 4, 15, 50)))
        return c

    def execute(self, case, cpu=None):
        v = tuple(case["version"])
        src, plan = case["source"], case["plan"]
        world.of_version(v)
        code = minicc.compile_for(src, v)
        cpu = cpu or self.cpu
        if "faults" in case:
            w = World(case["world"], faults={int(k): f for k, f in case["faults"].items()}, limit=self.limit)
        else:
            w = World(case["world"], rates=case["rates"], limit=self.limit, kinds=case.get("spots"))
        ref = src
        if plan["mode"] == "stub":
            ref = stubbed(src, case["stub"])
        elif plan["mode"] == "skip":
            ref = without_signs(src)
        with monitored(w):
            a = runner.run_host(ref, w, cpu, v)
        if a.outcome in ("limit", "hang", "too deep"):
            return None, a, None, None
        explicit = dict(plan=plan, version=list(v), source=src, world=case["world"],
                        faults={str(k): f for k, f in a.fired.items()})
        if "stub" in case:
            explicit["stub"] = case["stub"]
        from xpython.vmtrace import PyVMTraced
        w = World(case["world"], faults=a.fired, limit=2 * self.limit)
        see = Observer(w, v)
        see.via = plan["via"]
        if plan["mode"] == "stub":
            see.stub = case["stub"]
        elif plan["mode"] == "skip":
            see.skip = ("UNARY_NEGATIVE", "UNARY_POSITIVE", "UNARY_INVERT")
        b = runner.run_vm(src, v, w, cpu, code=code, vm=PyVMTraced(see, v, False))
        b.extra = see.steps
        d = runner.diverge(a, b) or see.wrong
        if d or plan["mode"] in ("stub", "skip"):
            return d, a, b, explicit
        if see.stack:
            return ("trace left over", len(b.log), "all left", [x.text.code.co_name for x in see.stack]), a, b, explicit
        # Second run: the debugger.
        texts = {x.serial: x.text for x in see.acts.values()}
        want = predict(plan, see.record, texts)
        dbg = Debugger(plan, v, 2 * len(want) + 2 * len(see.record) + 100)
        c = runner.run_vm(src, v, World(case["world"], faults=a.fired, limit=2 * self.limit), cpu, code=code,
                          vm=PyVMTraced(dbg, v, False, event_flags=plan["flags"]))
        c.extra = see.steps
        a2 = copy.copy(a)
        a2.log = [e for e in a.log if e[0] != "t"]
        c.fault = dbg
        d = runner.diverge(a2, c)
        if d:
            return ("debugged " + d[0],) + d[1:], a2, c, explicit
        for i in range(max(len(want), len(dbg.got))):
            x = want[i] if i < len(want) else "no event"
            y = dbg.got[i] if i < len(dbg.got) else "no event"
            if x != y and not (isinstance(x, tuple) and x[0] == y[0] == "return" and x[3] is None):
                return ("delivered", len(a2.log), "%d: %r (after %r)" % (i, x, want[max(0, i - 3):i]),
                        "%d: %r" % (i, y)), a2, c, explicit
        return None, a, b, explicit

    def run(self, case):
        o = Diff.run(self, case)
        if o.status != "discard":
            o.stats["debugger: " + case["plan"]["mode"]] = 1
            if o.status == "violation":
                o.detail += "\ndebugger: %s %s" % (case["plan"], case.get("stub", ""))
        return o

    def relevant(self, case, o):
        return True
