"""How each property is decided (text for DESIGN.md)."""
D = {
"C01": "Programs around nested try/except/else in loops, functions and branches; at each event any of a dozen exceptions may fire. Decided: which handler runs, with which value, and what runs afterwards (every probe operation and log after the failing one is an event). Tests cannot: the handler that runs depends on the block stack at the failing operation, i.e. on where in the history the fault falls.",
"C02": "try/finally nested in loops, handlers and with; routes out drawn by the generator, faults by the world, also inside the clause. Each clause logs, so running twice or not at all, or a lost pending jump/return/exception, is an event difference.",
"C03": "Context managers are probes: enter and exit are events, may fail, suppression is drawn by the world. Also exit() arguments are logged (type and value, or None).",
"C04": "Call trees over interpreted functions, lambdas, comprehensions and native callbacks that call back in; faults at any depth; callers log their variables afterwards.",
"C05": "Bare raise, raise from, raise inside handlers, with generators and calls in between; the identity of the propagated exception is in the log (exceptions carry the number of the event that raised them).",
"C06": "The world draws which of several live generators is resumed next and how (next/send); every step of every generator is an event, so the histories of the two sides are compared interleaving by interleaving.",
"C07": "Generators driven to and beyond their end; return, failure and exhaustion at any point; StopIteration values from 3.3.",
"C08": "Delegation chains over interpreted generators, probe iterators (no send) and iterables; sends and faults at any depth.",
"C09": "Every operation on a probe is an event, so the order and the number of evaluations is the history itself. Faults anywhere cut it short, which also shows what was evaluated before.",
"C10": "Iterators are probes that end early, go on longer, or fail; loops with else, break, continue; unpacking and starred assignment of such iterators.",
"C11": "Nested functions share, rebind, delete and outlive variables; several activations live at once; probes read the cells back at later events.",
"C12": "Class bodies, decorators, methods and instances whose evaluation fails at any event.",
"C13": "Positional, default, keyword and unpacked arguments, from iterators that fail or end early; binding errors compared too.",
"C14": "Only KeyboardInterrupt, SystemExit and MemoryError, at up to one operation in five: what was entered is left, in order.",
"C15": "The programs of the other checks, written as .pyc files by an independent writer (sim/pyc.py) and run by the command or the API, with arguments and world faults; the reference runs the same source as __main__ of the host. Besides the history, the exit status and the host's state afterwards are compared.",
"C16": "Every operation on the file (open, each 64-byte read) is an event and one of them fails, or the file is missing, empty, cut at any byte, zero-filled from any byte, a directory or of a foreign magic number; then the storage heals and the same program runs again. A file that lacks only the end of its line table may run, in full.",
"C17": "The traceback on stderr against the host's own, frame by frame and line by line. (A 'with' statement being left counts for its own or its last line, depending on the version; xdis drops bytes above 0x7f of the line tables of 2.x files, so reports of such programs are not compared.)",
"C18": "First run, all events on: calls, resumptions, returns, yields and unwindings go into the same history as the world's events and are compared with what sys.monitoring reports of the reference, and each step is checked against this project's own decoding of the bytecode (which instruction, operand, line; the next one or a jump target). Second run: a debugger whose every move is drawn from the seed sets flags, turns tracing off, steps over, sets and removes breakpoints; a small model of the flags turns the first run's record into the events that must reach it. Skipped instructions are the signs + - ~ and forced returns replace a function; the reference then runs the source without them.",
"C19": "A pool of five names (two of them built-ins) is bound, deleted and read at every level of nested functions, generators and classes, with global and nonlocal declarations, and through locals(), vars(), dir(), globals(), eval and exec; every read and every view of a namespace is logged, so the first view that differs shows.",
"C20": "Probes count and can fail in every division, conversion and write; files are probes that do or do not keep softspace; the reference runs the same source with these statements spelled out as calls of a small model of what ceval.c of 2.7 does (sim/py2.py), and with the names of 2.x methods replaced by those of 3.x.",
"C21": "The modules live in a store of the simulator (sim/mods.py), a finder in front of sys.meta_path: what a module contains, whether it has __all__ (a list, a tuple, a sequence that only knows []), a module-level __getattr__, a submodule, puts a probe in its place, fails late or imports another is drawn from the seed, and finding, running and reading are events where faults strike. Programs import, forget and import again, and may be called back while a module is being run. After each import the names bound are logged. (Before 3.5 CPython cannot take a module that is being run from its package: the generator does not ask for it there.)",
"C22": "Programs hold functions of every shape (defaults with effects, keyword-only and, in 2.x, tuple parameters, captured variables, decorators, generators, the same definition evaluated several times) and between calls set, delete and read their attributes, swap their code, change cells, put them into classes and instances, bind, compare, hash, copy and wrap them. Each look is logged and each call logs its arguments, so a setting that has no effect, or one on another function, shows at the next call. minicc spells the attributes func_* and im_* in half of the lines of 2.6 and 2.7 and in all of 2.4 and 2.5.",
"C23": "Two or three programs, each on a machine of its own in a thread of its own; exactly one thread holds the baton, and at every world event - in fine runs at every source line of x-python, by sys.monitoring - a function of the schedule seed and the step says whether and to whom it passes. Or one program runs nested in an operation of another, or the same machine runs them one after the other. Any of them may fail, be interrupted or be abandoned at an event. Each program's history has to be that of the reference running it alone; a violation that the program shows alone too is left to the other checks. The list of switches made is in the replay file and is minimised with the programs.",
"C24": "minicc has a second back end for PyPy: LOOKUP_METHOD/CALL_METHOD (and CALL_METHOD_KW), JUMP_IF_NOT_DEBUG, BUILD_LIST_FROM_ARG, calls of 3.6 in the manner of 3.5, tests compiled to jumps, POP_EXCEPT after the clean-up of a handler's name; its layout was compared with the PyPy files of the repository's tests. The programs are those of the other checks (mixed statements, argument passing, methods and functions as objects, generators, and Python 2 for PyPy 2.7), each on a machine made for PyPy, against the host's CPython in the same world with the same faults. Where PyPy itself differs from CPython in the order of reading * and ** arguments, the programs keep to what is the same.",
"C25": "The fault is the end of the stack. A seeded program of one to four functions of every kind (plain, keyword-only, lambda, closure, method, property, operator, __getitem__, __getattr__, __setattr__, __call__, __init__, generator, yield from, called through map or sorted) call each other without end, or to a depth that may or may not fit, in statements nested in try, with, for and class bodies, with handlers that go on, raise, return, call or recurse again. x-python runs it with the recursion limit a seeded number of frames above the caller (20 to 700), plain or traced; sys.monitoring notes after how many events each new RecursionError appeared. The reference then runs with a deep stack and raises RecursionError at the start of the function called after just so many events. Events before each call make the place unique: an overflow anywhere but at a call, a clause passed over, a frame left behind or an overflow that is not felt ends in a difference. Both logs, outcomes, variables and the failures left over have to agree.",
"C26": "A seeded program (the mixes of C06, C13, C15, C19 and C22, with classes, PyPy included) runs on the host and on x-python with its loggers at INFO or DEBUG and a handler of the simulator; in a third of the programs, objects take part whose __repr__ raises, returns no string, runs code, handles an exception or asks for attributes. Both histories have to agree. Every line shown carries the number of events before it: the operands shown before a binary operation are compared with the operation the world then saw, the callee shown with the frame entered next, and the whole sequence (depth, line, offset, name) with the instructions a traced run of the same program reports.",
"C27": "Seeded programs of nested handlers, finally clauses and with statements in functions, classes and generators (three mixes: handlers, generators, calls with imports and names) raise exceptions while others are handled: new ones, the one handled, an outer one, ones kept from handlers left long ago, from others and from None; operations of the world fail wherever the fault table says. Where an exception is caught, at the end of handlers and later, the program logs its whole chain - each context, its cause and whether the context is hidden - through a function of the world, which walks it without side effects. The host runs the same source; every chain has to be the same, so that a missing link, a wrong or extra one (of exceptions handled inside x-python) or a cycle is a difference in the history.",
"C28": "A seeded program makes generators that yield inside try, finally, with and loops, or delegate to generators, lists and delegates of the world with and without throw() and close(). Its driver resumes them, sends to them, throws exceptions into them (classes, instances, instances and classes with arguments, things that are no exceptions) and closes them, in an order that the scheduler draws - before they started, while they are suspended, from within themselves and after they ended -, handles what comes out and goes on with the same generator; a third of the programs are relays of one to three generators, each with clauses and clean-ups of its own, that are also resumed, thrown into and closed from within while they run. Operations of the world, those of the delegates among them, fail where the fault table says. The host runs the same source; every value, exception, clean-up and state afterwards has to be the same.",
}
