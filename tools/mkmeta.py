#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
V = "bytecode of any supported CPython version (2.4-2.7, 3.1-3.10)"
DIFF = "seeded differential simulation against the host interpreter, with fault injection"

VM = "xpython/vm.py"
B24, B25, B27 = "xpython/byteop/byteop24.py", "xpython/byteop/byteop25.py", "xpython/byteop/byteop27.py"
B32, B33, B38, B39 = ("xpython/byteop/byteop32.py", "xpython/byteop/byteop33.py", "xpython/byteop/byteop38.py",
                      "xpython/byteop/byteop39.py")
OBJ = "xpython/pyobj.py"

P = []


def prop(pid, title, statement, over, text, why, files, mechanism, state=(), observe=(), technique=DIFF,
         level_note=None, na=None):
    P.append(dict(
        row=dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=text),
                 why_tests_cant=why,
                 anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                              state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                              observe_at=list(observe), hook_needed=None)),
        technique=technique, level_note=level_note, na=na))


NOTE = ("Sampled, not exhaustive: every run is one seeded program in one seeded world with one fault table, compared "
        "event by event with the host CPython; trusts the host as reference and /verif/sim/minicc.py as compiler.")
WORLD = ["the sequence of operations the program performs on objects of the simulated world, the outcome of the run "
         "and the final variables"]

prop("C01", "Exceptions reach exactly the right handler",
     "In " + V + ", an exception raised by any operation is handled by the innermost enclosing handler whose type "
     "matches, the handlers being asked in order and at most one of them running, with the exception itself as its "
     "value. If none matches it leaves the program with its type and arguments unchanged, and code after the failing "
     "operation in that block does not run.",
     ["programs", "fault_sequences", "configurations"],
     "all programs built from nested try/except/else, loops, calls and returns x every operation that can fail x "
     "every exception x every version",
     "The tests run one fixed program per construct, in which the exception comes from one chosen place; where the "
     "failing operation sits relative to the block stack is what matters and that is sampled at a handful of points.",
     [VM, B24, B32, B38, B39],
     [("unwinding of the block stack", VM + " manage_block_stack, unwind_block"),
      ("dispatch turns a failing operation into an exception", VM + " dispatch"),
      ("end of handler", B24 + " END_FINALLY; " + B32 + " POP_EXCEPT; " + B39 + " RERAISE")],
     [("block stack", "active loops, handlers and finally clauses of a frame", OBJ + " Frame.block_stack"),
      ("last exception", "what is being raised or handled", VM + " last_exception")],
     WORLD, level_note=NOTE)

prop("C02", "A finally clause runs exactly once on every way out",
     "In " + V + ", a finally clause runs exactly once however its body is left - falling off the end, return, break, "
     "continue or an exception from any operation - and the pending return value, jump or exception then takes "
     "effect. If the clause itself returns, breaks or raises, that replaces what was pending.",
     ["programs", "fault_sequences", "configurations"],
     "all nestings of try/finally with loops, handlers, with statements and calls x each exit route x a fault at "
     "each operation, those of the clause itself included",
     "The exit route is chosen by the program and by where a fault falls; the tests fix both, a few times.",
     [VM, B24, B38, B39],
     [("unwinding into finally", VM + " manage_block_stack"), ("END_FINALLY and successors", B24 + ", " + B38 + ", " + B39)],
     [("pending reason", "why a block is being left, kept on the value stack during the clause", VM)],
     WORLD, level_note=NOTE)

prop("C03", "with enters and exits its context managers exactly once",
     "In bytecode of 2.5-2.7 and 3.1-3.10, a with statement calls the context manager's enter once before the body "
     "and, if that succeeded, its exit exactly once after it, on every way out, innermost first, with the exception's "
     "type and value or with three Nones. The exception is suppressed exactly if exit returns something true; an "
     "exception from exit replaces it.",
     ["programs", "fault_sequences", "configurations"],
     "all nestings of with statements x exit routes x faults in enter, body and exit x the world deciding suppression",
     "Each test has one manager and one way out; failures of enter and exit themselves, nested managers and "
     "suppression under return or break are combinations no fixed list covers.",
     [VM, B25, B27, B32, B38, B39],
     [("setup", B27 + " SETUP_WITH; " + B25 + " WITH_CLEANUP"), ("3.9 protocol", B39 + " WITH_EXCEPT_START")],
     [], WORLD, level_note=NOTE)

prop("C04", "Results and exceptions cross call boundaries intact",
     "In " + V + ", the result of a call is the value its function returned, and an exception that leaves a function "
     "arises at the point of the call in its caller, where it can be handled - through any depth of calls, recursion "
     "and native code that calls back in. An invocation leaves nothing behind in its callers: their variables, pending "
     "operations, handlers and loops are as they were.",
     ["programs", "fault_sequences", "configurations"],
     "all call trees over interpreted functions, lambdas, comprehensions and native callbacks x a fault at any operation "
     "at any depth",
     "A failure deep inside a call tree with handlers at several levels is a history, and the tests contain only the "
     "ones somebody wrote down.",
     [VM, OBJ, B24],
     [("frame push and pop", VM + " run_frame, push_frame, pop_frame"), ("function call", OBJ + " Function.__call__"),
      ("calls", VM + " call_function, call_function_with_args_resolved")],
     [("current frame", "innermost activation", VM + " frame")], WORLD, level_note=NOTE)

prop("C05", "The exception being handled is tracked correctly",
     "In " + V + ", a bare raise re-raises the exception its handler is handling, unchanged, also after other "
     "exceptions were raised and handled in the meantime by callees, generators or (Python 3) nested handlers. An "
     "exception raised inside a handler, or raised 'from' another, propagates in place of the one being handled.",
     ["programs", "fault_sequences", "configurations"],
     "all programs that raise, re-raise and chain inside handlers, with calls and generators in between x faults",
     "What a re-raise means depends on the history of exceptions of the frame and its callees, not on one statement.",
     [VM, B24, B27, B32, B38, B39],
     [("raise", B24 + " RAISE_VARARGS; xpython/byteop/byteop30.py"), ("handled exception", VM + " handled_exception")],
     [("handler entries of the value stack", "exceptions being handled, innermost last", OBJ + " Frame.stack")],
     WORLD, level_note=NOTE)

prop("C06", "Interleaved generators keep their own state",
     "In " + V + ", each generator resumes exactly where it left off, with its own variables, loops, handlers and "
     "pending operations and with the value sent to it, whatever other generators and calls ran in between. Between "
     "resumptions it does nothing.",
     ["schedules", "programs", "fault_sequences", "configurations"],
     "all interleavings of resumptions (next and send) of several live generators x programs x faults",
     "The tests run a generator to its end before the next one starts; interleavings are schedules.",
     [VM, OBJ, B24, B33],
     [("suspend and resume", VM + " resume_frame, eval loop; " + B24 + " YIELD_VALUE"), ("send", OBJ + " Generator.send")],
     [("frame of the generator", "its variables, value stack, block stack and position", OBJ + " Generator.gi_frame")],
     WORLD, level_note=NOTE)

prop("C07", "A generator ends once and stays ended",
     "In " + V + ", a generator that returns raises StopIteration (with its return value from 3.3 on) to its consumer, "
     "one that fails passes its exception to the consumer once, and from then on it only raises StopIteration and runs "
     "no code. Resuming a generator that is running is an error, and from 3.7 on StopIteration leaking out of its body "
     "is a RuntimeError.",
     ["schedules", "programs", "fault_sequences", "configurations"],
     "all programs whose generators return or fail at any operation x any resumption sequence that goes on afterwards",
     "The tests stop at the first StopIteration of a generator that does not fail.",
     [OBJ, VM, B24],
     [("end of a generator", OBJ + " Generator.send; " + B24 + " RETURN_VALUE, YIELD_VALUE, END_FINALLY")],
     [("finished, running", "state of a generator", OBJ + " Generator")], WORLD, level_note=NOTE)

prop("C08", "yield from delegates values, results and failures",
     "In bytecode of 3.3-3.10, a generator delegating to an iterable passes every value on in order, hands what its "
     "consumer sends to the innermost delegate, continues with the delegate's return value as the value of the "
     "expression, and sees the delegate's exceptions at the point of delegation.",
     ["schedules", "programs", "fault_sequences", "configurations"],
     "all delegation chains over generators, iterators and iterables x resumption sequences x faults",
     "The tests delegate to a list or range once; chains, sends and failures part-way are histories.",
     [B33, OBJ], [("delegation", B33 + " YIELD_FROM"), ("iterator of the delegate", "xpython/byteop/byteop35.py GET_YIELD_FROM_ITER")],
     [], WORLD, level_note=NOTE)

prop("C09", "Operations happen once each and in program order",
     "In " + V + ", the operations of expressions, assignments, augmented assignments, attribute, item and slice "
     "accesses, comparisons, boolean operators and deletions are performed on their operands exactly once, in the order "
     "of the language, short-circuits included. When one of them fails, none of the later ones happens.",
     ["programs", "fault_sequences", "configurations"],
     "all expressions and statements over objects whose every operation is observable x a failure of any of them",
     "The tests compare printed results; an operation done twice, skipped or out of order on a value without visible "
     "side effects prints the same.",
     [VM, B24, B25, B27, B32, "xpython/byteop/byteop36.py", "xpython/byteop/byteop37.py"],
     [("operators", VM + " binaryOperator, inplaceOperator, sliceOperator, COMPARE_OP"), ("loads and stores", B24)],
     [("value stack", "pending operands", OBJ + " Frame.stack")], WORLD, level_note=NOTE)

prop("C10", "Loops and unpacking survive any iterator behaviour",
     "In " + V + ", a loop, comprehension or unpacking asks its iterator for exactly the items it needs, in order, runs "
     "its body once per item and the else clause exactly if it was not broken out of. If the iterator ends early or "
     "late or fails, the loop ends, the unpacking raises ValueError, or the failure arises at that point, with nothing "
     "else disturbed.",
     ["programs", "fault_sequences", "configurations"],
     "all nestings of for, while, comprehensions, break, continue, else and (starred) unpacking x iterators that end "
     "early, late or fail at any step",
     "Iterators in the tests are ranges and lists that never misbehave.",
     [VM, B24, B32, B38],
     [("iteration", B24 + " FOR_ITER, GET_ITER, UNPACK_SEQUENCE; " + B32 + " UNPACK_EX"), ("break and continue", VM + " manage_block_stack")],
     [], WORLD, level_note=NOTE)

prop("C11", "Captured variables are shared by the right closures only",
     "In " + V + ", a variable captured by nested functions, lambdas, comprehensions or generators is one variable for all of "
     "them and its own function: each sees the latest binding, also after the function has returned. Every invocation, "
     "recursive ones included, has its own, and reading one before it is bound is a NameError.",
     ["programs", "histories", "configurations"],
     "all histories of creating, rebinding and calling closures over several activations that are live at once x faults",
     "Sharing between live activations is a matter of history; the tests have one closure alive at a time.",
     [OBJ, VM, B24, B25, "xpython/byteop/byteop34.py"],
     [("cells", OBJ + " Cell, Frame.cells"), ("closures", B24 + " MAKE_CLOSURE, LOAD_CLOSURE, LOAD_DEREF, STORE_DEREF")],
     [("cells of a frame", "captured variables", OBJ + " Frame.cells")], WORLD, level_note=NOTE)

prop("C12", "A class exists completely or not at all",
     "In " + V + ", a class statement runs its body once, in its own namespace with the enclosing variables visible, and "
     "binds the class only if everything succeeded; a failure in the body or bases leaves the name as it was. Instances, "
     "inherited and overridden methods and special methods then behave like native ones.",
     ["programs", "fault_sequences", "configurations"],
     "all class bodies and bases x a failure at any operation x uses of the class and its instances",
     "The tests define classes that never fail.",
     [VM, B24, "xpython/builtins.py"],
     [("class construction", "xpython/builtins.py build_class; " + B24 + " BUILD_CLASS")], [], WORLD, level_note=NOTE)

prop("C13", "Arguments arrive where the call put them",
     "In " + V + ", a call evaluates the callee and its arguments once each, in order, and binds positional, keyword, default "
     "and unpacked arguments to the parameters they belong to; what does not fit is a TypeError in the caller. If "
     "evaluating or unpacking an argument fails, the function does not run.",
     ["programs", "fault_sequences", "configurations"],
     "all call shapes x callees (interpreted functions, lambdas, methods, classes, native callables) x iterators and "
     "argument expressions that fail",
     "The calling sequences differ in every version, and the tests cover few of the shapes and no failing argument.",
     [VM, OBJ, B24, "xpython/byteop/byteop35.py", "xpython/byteop/byteop36.py", "xpython/byteop/byteop37.py"],
     [("calls", VM + " call_function*; CALL_FUNCTION, CALL_FUNCTION_VAR, CALL_FUNCTION_KW, CALL_FUNCTION_EX, CALL_METHOD")],
     [], WORLD, level_note=NOTE)

prop("C14", "Interrupts unwind through cleanup and are never lost",
     "In " + V + ", a KeyboardInterrupt, SystemExit or MemoryError that strikes at any operation runs every finally clause "
     "and context-manager exit on its way out, exactly once and in order. The first two are not caught by 'except "
     "Exception', and what is not caught leaves the program as itself.",
     ["fault_sequences", "programs", "configurations"],
     "an interrupt at every operation of every program of handlers, finally clauses, context managers, calls and "
     "generators",
     "An interrupt arrives at an arbitrary instant; no test interrupts anything.",
     [VM, B24, B32, B38, B39],
     [("dispatch", VM + " dispatch"), ("unwinding", VM + " manage_block_stack")], [], WORLD, level_note=NOTE)

# ---- more properties are appended by mkmeta_more.py
try:
    from mkmeta_more import extend
except ImportError:
    extend = None
if extend:
    extend(prop, V, NOTE)


def main():
    P.sort(key=lambda p: p["row"]["id"])
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["row"]["title"]) <= 80, p["row"]["title"]
            f.write(json.dumps(p["row"]) + "\n")
    checks, na = [], []
    for p in P:
        i = p["row"]["id"]
        if p["na"]:
            na.append(dict(property=i, reason=p["na"]))
            continue
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i,
                           thorough_cmd="python3 check.py %s --tier thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=p["technique"], level="exploration",
                           level_note=p["level_note"]))
    m = dict(version=1, setup_cmd="python3 check.py --selftest",
             hooks=dict(guard="XPYTHON_SIM", enable="no hooks were needed: the simulator drives the public interfaces; "
                        "setting the variable changes nothing", source_commits=[]),
             checks=checks, not_applicable=na,
             notes="All checks run /repo's working tree in process under /verif/sim; see DESIGN.md.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
