"""The checks: one per property."""
import ast

from files import FileDiff, Report
from storage import Storage
from tracing import Traced
from deep import Deep
from together import Together
from verbose import Verbose
from diff import Diff, HARD, INTERRUPTS, ORDINARY, PYPY, SOFT, VERSIONS

REAL = ["xpython.vm (frames, block stack, dispatch)", "xpython.byteop.* (opcodes of the version)",
        "xpython.pyobj (functions, generators, cells, frames)", "xpython.builtins", "xdis opcode tables"]
STUBS = ["world: every object the program operates on is a probe of the simulator (values, iterators, "
         "context managers, native callbacks)",
         "compiler: /verif/sim/minicc.py emits the bytecode of each version from the same source",
         "reference: the host CPython runs the same source in the same world"]


class Check:
    enough = 12
    level = "exploration"
    real = REAL
    stubs = STUBS
    assumptions = [
        "the host CPython is a correct reference for the constructs the generator uses (they mean the same in "
        "every version)",
        "minicc lays bytecode out the way the CPython compiler of the version does; divergences on the unchanged "
        "tree would show where it does not",
    ]

    def __init__(self, prop, scenarios, rule, technique="seeded differential simulation with fault injection",
                 **kw):
        self.prop = prop
        self.scenarios = scenarios
        self.rule = rule
        self.technique = technique
        for k, v in kw.items():
            setattr(self, k, v)


# ------------------------------------------------------------------ AST predicates
def has(*types):
    return lambda t: any(isinstance(n, types) for n in ast.walk(t))


def has_finally(t):
    return any(isinstance(n, ast.Try) and n.finalbody for n in ast.walk(t))


def has_handler(t):
    return any(isinstance(n, ast.ExceptHandler) for n in ast.walk(t))


def nested_scopes(t):
    fn = (ast.FunctionDef, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)
    for n in ast.walk(t):
        if isinstance(n, ast.FunctionDef):
            for m in ast.walk(n):
                if m is not n and isinstance(m, fn):
                    return True
    return False


def called_function(t):
    names = {n.name for n in ast.walk(t) if isinstance(n, ast.FunctionDef)}
    for n in ast.walk(t):
        if isinstance(n, ast.Name) and n.id in names and isinstance(n.ctx, ast.Load):
            return True
        if isinstance(n, (ast.ClassDef, ast.Lambda, ast.ListComp, ast.GeneratorExp)):
            return True
    return False


def handler_raises(t):
    """something is (re-)raised or can fail inside a handler, or after one"""
    for n in ast.walk(t):
        if isinstance(n, ast.Raise) and (n.exc is None or n.cause is not None):
            return True
        if isinstance(n, ast.ExceptHandler):
            for m in ast.walk(n):
                if isinstance(m, (ast.Raise, ast.Try)):
                    return True
    return False


def iterates(t):
    for n in ast.walk(t):
        if isinstance(n, (ast.For, ast.While, ast.comprehension, ast.Starred)):
            return True
        if isinstance(n, ast.Tuple) and isinstance(n.ctx, ast.Store):
            return True
    return False


def star_or_kw(t):
    for n in ast.walk(t):
        if isinstance(n, ast.Call) and (n.keywords or any(isinstance(a, ast.Starred) for a in n.args)):
            return True
        if isinstance(n, ast.FunctionDef) and n.args.args:
            return True
        if isinstance(n, ast.Lambda):
            return True
    return False


def kinds(*ks):
    ks = set(ks)

    def f(log):
        return any(e[0] in ks or e[0].split(":")[0] in ks for e in log)
    return f


def logged(*words):
    ws = set("'%s'" % w for w in words)

    def f(log):
        return any(e[0] == "log" and len(e) > 1 and e[1] in ws for e in log)
    return f


def logged_fin(log):
    return any(e[0] == "log" and len(e) > 1 and e[1].startswith("'fin") for e in log)


def faulted(log):
    return any(e[0] == "!" for e in log)


# ------------------------------------------------------------------ profiles
TRY = dict(try_except=9, try_finally=6, try_full=5, raise_=4, reraise=4, return_=4, break_=3, continue_=3, for_=5,
           while_=2)

CHECKS = {}


def check(prop, *scenarios, **kw):
    CHECKS[prop] = Check(prop, list(scenarios), **kw)


check(
    "C01",
    Diff("routing", dict(gens=0.1, stmts=dict(TRY, try_except=14, try_finally=2), keep=["try_except", "raise_"]),
         focus=has_handler, hit=logged("caught")),
    rule="seeded programs around try/except in 14 bytecode versions x fault tables; non-trivial: a handler caught "
         "something and logged it",
)
check(
    "C02",
    Diff("finally", dict(gens=0.1, stmts=dict(TRY, try_finally=14, try_full=8, try_except=4), exit_in_finally=0.4,
                         keep=["try_finally"]),
         focus=has_finally, hit=logged_fin),
    rule="seeded programs around try/finally x every exit route x fault tables; non-trivial: a finally clause ran",
)
check(
    "C03",
    Diff("with", dict(gens=0.1, stmts=dict(TRY, with_=16), keep=["with_"]), versions=VERSIONS[1:],
         focus=has(ast.With), hit=kinds("exit")),
    rule="seeded programs around with statements (2.5-3.10) x faults in enter, exit and body, suppression decided "
         "by the world; non-trivial: an __exit__ ran",
)
check(
    "C04",
    Diff("calls", dict(gens=0.15, nfuncs=4, stmts=dict(try_except=5, try_finally=3, raise_=4, def_=4, return_=5,
                                                      recdef=2, recurse=3),
                       exprs=dict(callf=12, cb=6, cbs=5, native=3, lambda_=2, lcomp=2), keep=["callf"]),
         focus=called_function, hit=kinds("cb", "cbs", "log")),
    rule="seeded programs of nested, recursive and native-mediated calls x fault tables; non-trivial: more than "
         "five world events and a logged call",
)
check(
    "C05",
    Diff("current", dict(gens=0.15, stmts=dict(TRY, reraise=14, raise_from=4, try_except=12, curexc=7), keep=["reraise", "try_except"], exc_info=0.15,
                         exprs=dict(callf=8)),
         focus=handler_raises, hit=logged("caught")),
    rule="seeded programs that re-raise, chain and raise inside handlers, across calls and generators; "
         "non-trivial: a handler caught something",
)

GEN = dict(gens=0.75, nfuncs=3, budget=26)
check(
    "C06",
    Diff("interleave", dict(GEN, stmts=dict(genloop=3, drive=9, yield_=10, yieldfrom=1.5, for_=5, try_except=4, with_=3,
                                            try_finally=3), keep=["drive", "yield_"]),
         focus=has(ast.Yield, ast.YieldFrom, ast.GeneratorExp), hit=logged("nx", "sent")),
    rule="seeded generators resumed in an order drawn by the scheduler (next/send) x fault tables; distinct = "
         "distinct interleaved event histories; non-trivial: a generator was resumed by hand",
)
check(
    "C07",
    Diff("finish", dict(GEN, stmts=dict(genloop=9, drive=3, yield_=8, return_=5, raise_=4, try_except=4, try_finally=5),
                        keep=["genloop", "yield_"], exprs=dict(gexp=3)),
         focus=has(ast.Yield, ast.YieldFrom, ast.GeneratorExp), hit=logged("stop", "gx")),
    rule="seeded generators driven to and past their end, failing and returning at any point; non-trivial: "
         "a StopIteration or a failure reached the consumer",
)
check(
    "C08",
    Diff("delegate", dict(GEN, stmts=dict(genloop=5, drive=3, yield_=6, yieldfrom=14, return_=4, try_except=3, try_finally=3),
                          keep=["yieldfrom", "yield_", "genloop"]), versions=[v for v in VERSIONS if v >= (3, 3)],
         focus=has(ast.YieldFrom), hit=logged("yf", "nx", "sent")),
    rule="seeded delegation chains over generators, iterators and iterables (3.3-3.10) x fault tables; non-trivial: "
         "a delegation produced or finished",
)
PLAIN_OFF = ("try_except", "try_finally", "try_full", "with_", "class_", "family", "genloop", "drive", "yield_", "yieldfrom",
             "reraise", "classfail")
check(
    "C09",
    Diff("order", dict(gens=0.0, off=PLAIN_OFF, budget=26, stmts=dict(expr=10, assign=10, aug=5, aug_attr=4, aug_sub=4,
         store_attr=5, store_sub=5, multi=4, dele=4, slices=5, def_=1),
         exprs=dict(chain=3, tern=3, bool_=5, dict_=2, set_=1, kw=2, star=1.5, in_=2, fstr=1.5)),
         focus=None, hit=lambda log: len(log) > 8),
    rule="seeded straight-line and branching programs over probes (each operation an event) x fault tables; "
         "non-trivial: more than eight operations",
)
check(
    "C10",
    Diff("loops", dict(gens=0.25, stmts=dict(for_=14, while_=5, while_else=5, for_else=6, break_=8, continue_=8, unpack=8,
                                             unpack_ex=5, try_except=2, try_finally=2), keep=["for_"],
                       exprs=dict(lcomp=4, scomp=2, dcomp=2, gexp=3, star=2)),
         focus=iterates, hit=kinds("next")),
    rule="seeded loops, comprehensions and unpackings over iterators that end early, late or fail; non-trivial: "
         "an iterator was advanced",
)
check(
    "C11",
    Diff("cells", dict(gens=0.3, nfuncs=3, capture=0.95, stmts=dict(def_=9, cellprobe=9, nest=9, recdef=5, recurse=3, nonlocal_=6, class_=1.5,
                                                                 try_except=2),
                       keep=["def_", "cellprobe", "nest"], exprs=dict(lambda_=5, lcomp=3, gexp=3, callf=8)),
         focus=nested_scopes, hit=logged("cells", "in", "gc", "after", "n", "nest", "kept")),
    rule="seeded nested functions that share, rebind and outlive captured variables, several activations live at "
         "once x fault tables; non-trivial: a captured variable was observed",
)
check(
    "C12",
    Diff("classes", dict(gens=0.1, stmts=dict(class_=8, classfail=8, family=16, try_except=3, with_=2), keep=["class_", "classfail", "family"]),
         focus=has(ast.ClassDef), hit=logged("init", "cf", "m", "cl")),
    rule="seeded class bodies and instances whose evaluation fails at any operation; non-trivial: a class body or "
         "instance got to log",
)
check(
    "C13",
    Diff("arguments", dict(gens=0.1, nfuncs=4, stmts=dict(def_=2, class_=2, sigdef=12), exprs=dict(callf=8, star=4, kw=4, cb=2, callsig=14, lamsig=3, callodd=5,
                           lambda_=4, meth=5), keep=["callf", "sigdef", "callsig"]),
         focus=star_or_kw, hit=kinds("call", "callm", "log")),
    rule="seeded calls with positional, default, keyword and unpacked arguments from failing iterators; "
         "non-trivial: a call was made",
)
check(
    "C14",
    Diff("interrupts", dict(gens=0.25, stmts=dict(TRY, with_=5), keep=["try_finally", "with_", "try_except"]),
         kinds=INTERRUPTS, soft=("suppress",), levels=(0.01, 0.03, 0.08, 0.2), focus=None, hit=faulted),
    rule="seeded programs of handlers, finally clauses and context managers interrupted at any operation by "
         "KeyboardInterrupt, SystemExit or MemoryError; non-trivial: an interrupt fired",
)

MIXED = dict(gens=0.3, nfuncs=3, stmts=dict(try_except=4, try_finally=3, with_=3, for_=4, raise_=3, def_=3, class_=2, family=1,
             genloop=2, drive=2, cellprobe=3, sigdef=1), exprs=dict(callf=6, lambda_=2, lcomp=2, gexp=2))
FILE_REAL = ["xpython.__main__ (command)", "xpython.execfile.run_python_file", "xdis.load_module"] + REAL
check(
    "C15",
    FileDiff("file", MIXED, focus=None, hit=lambda log: len(log) > 5, quick=6000, thorough=150000),
    rule="seeded programs of every kind, written as .pyc files of 14 versions and run by the command or "
         "run_python_file x fault tables; non-trivial: more than five events",
    real=FILE_REAL,
)
check(
    "C16",
    Storage("storage", dict(MIXED, budget=10), focus=None, hit=None, quick=6000, thorough=150000),
    rule="a fault of the storage (missing, short, torn, foreign or unreadable program file; an error of each open or "
         "read) x programs x 14 versions, then a run with the storage healed",
    real=FILE_REAL,
)
check(
    "C17",
    Report("report", dict(MIXED, guard=0.1, main_fn=0.3, nfuncs=4), focus=None, hit=None, quick=6000, thorough=150000),
    rule="seeded programs that end by an uncaught exception x fault tables, run as .pyc files",
    real=FILE_REAL,
)
check(
    "C18",
    Traced("traced", dict(MIXED, exprs=dict(MIXED["exprs"], unary=3)), focus=None, hit=lambda log: len(log) > 8,
           quick=3000, thorough=100000),
    rule="seeded programs run under PyVMTraced by a simulated debugger (event flags, tracing turned off, step over, "
         "breakpoints, skipped instructions, forced returns) x fault tables; non-trivial: more than eight events",
    real=["xpython.vmtrace (PyVMTraced, breakpoints)"] + REAL,
)

check(
    "C19",
    Diff("names", dict(gens=0.1, nfuncs=1, main_fn=0.1, guard=0.3, stmts=dict(names=30, def_=1, class_=0.5), keep=["names"]),
         focus=None, hit=logged("n", "loc", "ev", "x", "d", "r")),
    rule="seeded programs that bind, unbind and read a few names at every level of nested functions, generators and "
         "classes, directly and by locals, vars, dir, globals, eval and exec x fault tables; non-trivial: one of "
         "these logged",
)

check(
    "C20",
    Diff("two", dict(gens=0.1, nfuncs=1, main_fn=0.3, guard=0.5, stmts=dict(divide=12, print=12, oldnames=8, raise3=6, convert=2),
                     keep=["divide", "print", "oldnames"]),
         focus=None, hit=logged("div", "d", "t", "i") , versions=[v for v in VERSIONS if v < (3, 0)]),
    rule="seeded programs of Python 2 that print, divide, raise, iterate over and ask the truth of their own objects "
         "x fault tables; non-trivial: one of these logged",
)

check(
    "C21",
    Diff("imports", dict(gens=0.1, nfuncs=1, main_fn=0.1, guard=0.3, stmts=dict(imports=90, def_=1, class_=0.5), keep=["imports"]),
         focus=None, hit=logged("m", "b", "x", "r")),
    rule="seeded programs that import from a simulated store of modules, in every form, at every kind of scope, again "
         "after a failure and while a module is being run x faults of finding, running and reading modules; "
         "non-trivial: something imported was logged",
)

check(
    "C22",
    Diff("functions", dict(gens=0.1, nfuncs=1, main_fn=0.2, guard=0.3, stmts=dict(funcs=60, def_=1), keep=["funcs"]),
         focus=None, hit=logged("r", "a", "x", "is", "mm", "ma", "mr", "fs", "l")),
    rule="seeded programs that look at, set and copy the attributes of functions and methods, compare and bind them, "
         "between calls of them x fault tables; non-trivial: one of these logged",
)

SMALL = [dict(MIXED, budget=14), dict(MIXED, budget=14), dict(GEN, budget=14), dict(budget=14, stmts=dict(TRY, with_=5)),
         dict(budget=14, gens=0.1, nfuncs=1, main_fn=0.1, guard=0.3, stmts=dict(names=30, def_=1, class_=0.5), keep=["names"]),
         dict(budget=14, gens=0.1, nfuncs=1, main_fn=0.2, guard=0.3, stmts=dict(funcs=60, def_=1), keep=["funcs"])]
check(
    "C23",
    Together("machines", SMALL, ("threads", "threads", "fine", "nested", "again"), quick=5000, thorough=100000),
    rule="two or three seeded programs, each on its own virtual machine, interleaved by a seeded scheduler at world "
         "events or lines of x-python, nested in each other's operations, or one after the other on one machine x fault "
         "tables; non-trivial: more than two switches, or more than one program of more than five events",
)
PYPY_ARGS = dict(gens=0.1, nfuncs=4, stmts=dict(def_=2, class_=2, sigdef=12), exprs=dict(callf=8, star=4, kw=4, cb=2, callsig=14,
                 lamsig=3, callodd=5, lambda_=4, meth=8), keep=["callf", "sigdef", "callsig"])
check(
    "C24",
    Diff("pypy", dict(MIXED, exprs=dict(MIXED["exprs"], meth=5, lcomp=4, kw=3), stmts=dict(MIXED["stmts"], assert_=4)),
         focus=None, hit=lambda log: len(log) > 5, versions=PYPY, quick=3600),
    Diff("pypy-calls", PYPY_ARGS, focus=star_or_kw, hit=kinds("call", "callm", "log"), versions=PYPY, quick=2400),
    Diff("pypy-methods", dict(gens=0.1, nfuncs=2, guard=0.2, stmts=dict(class_=6, family=8, funcs=25, assert_=3), exprs=dict(meth=6)),
         focus=None, hit=lambda log: len(log) > 5, versions=PYPY, quick=1800),
    Diff("pypy-generators", dict(GEN, stmts=dict(genloop=6, drive=6, yield_=8, yieldfrom=3, with_=4, try_finally=4, try_except=4)),
         focus=None, hit=lambda log: len(log) > 5, versions=PYPY, quick=1800),
    Diff("pypy-two", dict(gens=0.1, nfuncs=1, main_fn=0.3, guard=0.5, stmts=dict(divide=12, print=12, oldnames=8, raise3=6, convert=2)),
         focus=None, hit=lambda log: len(log) > 5, versions=PYPY[:1], quick=600),
    rule="seeded programs of every kind, laid out as PyPy's compiler lays them out, of PyPy 2.7, 3.2, 3.5, 3.6 and 3.7, "
         "run on a virtual machine for PyPy x fault tables; non-trivial: more than five events",
)
check(
    "C25",
    Deep("stack", quick=6000, thorough=150000),
    rule="seeded programs of functions that call each other without end, in all the ways calls can be made, x stack limit; "
         "non-trivial: the stack overflowed at least once",
)
check(
    "C26",
    Verbose("shown", SMALL + [dict(PYPY_ARGS, budget=16), dict(PYPY_ARGS, budget=16), dict(budget=16, gens=0.1, stmts=dict(
        class_=8, classfail=4, family=14, def_=3))], versions=VERSIONS + PYPY, quick=9000, thorough=100000),
    rule="seeded programs of every kind, with objects that cannot be shown in a third of them, run with the loggers of the "
         "virtual machine enabled at level INFO or DEBUG x fault tables; non-trivial: more than five events",
)
check(
    "C27",
    Diff("chains", dict(gens=0.2, chains=0.6, stmts=dict(TRY, raise_=8, reraise=5, raise_from=5, try_except=14, try_full=5, with_=6,
                                                      again=10, keepexc=5, later=5, chain=4), keep=["raise_", "try_except"], guard=0.8),
         versions=[v for v in VERSIONS + PYPY if v >= (3, 0)], focus=None, hit=logged("ch"), quick=7000),
    Diff("chains-generators", dict(GEN, chains=0.7, stmts=dict(genloop=6, drive=7, yield_=9, yieldfrom=2, for_=4, try_except=9, with_=4,
                                                               try_finally=5, raise_=5, again=8, keepexc=2, later=2, chain=6),
                                   keep=["drive", "yield_", "try_except"]),
         versions=[v for v in VERSIONS if v >= (3, 0)], focus=has(ast.Yield, ast.YieldFrom), hit=logged("ch"), quick=4000),
    Diff("chains-calls", dict(MIXED, chains=0.6, stmts=dict(MIXED["stmts"], again=7, keepexc=2, later=2, chain=4, family=6, imports=5,
                                                            names=4, unpack=4, dele=4, assert_=3, try_except=9)),
         versions=[v for v in VERSIONS if v >= (3, 0)], focus=None, hit=logged("ch"), quick=4000),
    rule="seeded programs that raise exceptions while others are handled, again, later and from others, of 3.1-3.10 x fault "
         "tables; non-trivial: a chain was looked at",
)
THROWS = dict(GEN, throws=0.7)
check(
    "C28",
    Diff("throws", dict(THROWS, stmts=dict(genloop=8, drive=9, yield_=11, try_except=8, try_finally=6, try_full=4, with_=5, for_=4,
                                           return_=3, raise_=3), keep=["genloop", "drive", "yield_", "try_except", "try_finally"]),
         versions=[v for v in VERSIONS + PYPY if v >= (2, 5)], focus=has(ast.Yield, ast.YieldFrom), hit=logged("threw", "closed"), quick=4000),
    Diff("throws-delegates", dict(THROWS, stmts=dict(genloop=6, drive=9, yield_=6, yieldfrom=14, return_=4, try_except=6,
                                                     try_finally=5), keep=["yieldfrom", "yield_", "genloop", "drive"]),
         versions=[v for v in VERSIONS if v >= (3, 3)], focus=has(ast.YieldFrom), hit=logged("threw", "closed"), quick=3000),
    Diff("throws-relay", dict(THROWS, budget=12, nfuncs=1, stmts=dict(relay=40)),
         versions=[v for v in VERSIONS if v >= (2, 5)] + [v for v in VERSIONS + PYPY if v >= (3, 3)], focus=has(ast.Yield, ast.YieldFrom),
         hit=logged("caught", "fin", "out", "threw", "closed", "more", "was running"), quick=6000),
    rule="seeded generators resumed, thrown into and closed in an order drawn by the scheduler, delegating to others or not x "
         "fault tables; non-trivial: an exception was thrown into a generator, or it was closed, and that did not fail",
)
