"""Properties beyond the differential ones."""


def extend(prop, V, NOTE):
    EXE, MAIN = "xpython/execfile.py", "xpython/__main__.py"
    prop("C15", "Running a bytecode file is running the program it was compiled from",
         "In " + V + ", `xpython FILE.pyc ARGS` (and run_python_file) runs the program as __main__, with its arguments in "
         "sys.argv, the directory of the file first on sys.path and its own module as sys.modules['__main__']; it does "
         "exactly what the source does, whatever it fails at, and ends with the exit status CPython would end with: 0, the "
         "status given to sys.exit(), or non-zero for an uncaught exception. sys.argv, sys.path, sys.modules['__main__'] and "
         "the standard streams of the host are afterwards as they were, however the program ended.",
         ["programs", "fault_sequences", "configurations"],
         "all programs x argument lists x files of every version (time-stamped and hash-based) x a fault at each operation",
         "The tests run the example files to their normal end; the state of the host after a failure part-way, exit statuses "
         "and closures read back from files are histories and combinations they do not contain.",
         [EXE, MAIN, "xpython/vm.py"],
         [("set-up and restoration", EXE + " run_python_file"), ("execution", EXE + " exec_code_object"),
          ("exit status", MAIN + " main")],
         [("host state", "sys.argv, sys.path[0], sys.modules['__main__']", EXE + " run_python_file")],
         ["the sequence of operations of the program, the exit status, standard output, and the host's state afterwards"],
         level_note=NOTE)
    prop("C16", "A program file that cannot be read whole is refused and nothing runs",
         "If the program file is missing, is a directory, ends early, was only partly written, is of an unsupported version, or "
         "cannot be opened or read at any point, then no part of the program runs, the failure is reported as documented "
         "(NoSourceError, exit status 2; WrongBytecodeError, status 3; wrong usage, status 4), the host's state is as before, "
         "and running the file again once the storage has healed behaves as if nothing had happened.",
         ["fault_sequences", "crash_points", "configurations"],
         "all byte positions at which a file can be cut or zero-filled, every operation on it that can fail x error codes x "
         "versions",
         "The tests only read intact files.",
         [EXE, MAIN],
         [("loading", EXE + " run_python_file"), ("error to exit status", MAIN + " main")],
         [("host state", "sys.argv, sys.path[0], sys.modules['__main__']", EXE + " run_python_file")],
         ["exit status or exception, standard output, operations of the program (none), the host's state afterwards"],
         technique="simulated storage with fault injection on every file operation", level_note=NOTE)
    prop("C17", "The report of an uncaught exception says what failed and where",
         "In " + V + ", when an exception leaves the program, the report on standard error lists the active calls from the "
         "program's outermost to the one that failed, each with the name of the function and the line it had reached, also when "
         "the exception passed through finally clauses, handlers that raised it again, generators or native code, and ends "
         "with the type and the text of that exception.",
         ["programs", "fault_sequences", "configurations"],
         "all call histories x a fault at any operation x every version",
         "Tests compare what programs print when they succeed; where an exception ends up being reported from depends on the "
         "exceptions dealt with before it.",
         ["xpython/vm.py", "xpython/pyobj.py"],
         [("report", "xpython/vm.py run_code"), ("where it was raised", "xpython/vm.py dispatch, restore_traceback"),
          ("frames", "xpython/pyobj.py Traceback, traceback_from_frame"), ("lines", "xpython/pyobj.py Frame.line_number")],
         [("last traceback", "where the exception that was raised last was raised", "xpython/vm.py last_traceback")],
         ["standard error of the run"], level_note=NOTE)
    TR = "xpython/vmtrace.py"
    prop("C18", "Tracing a program does not change it, and tells what it does",
         "In " + V + ", a program run under PyVMTraced does what it does untraced, whatever events are asked for and wherever "
         "breakpoints are set and removed. With all events on, the callback gets one call event when a function, class body, "
         "module or generator starts, one yield event when a generator is resumed, one line or instruction event (line where "
         "a new line starts) before each instruction, with its offset, name, operand and line, and one return or exception "
         "event when a frame is left, with the value or the exception; a breakpoint event comes each time the frame it was "
         "set in is about to run the instruction it was set at. With fewer events asked for (event_flags of the machine, or "
         "of a frame as the callback sets them; a frame starts with those of its caller), with tracing turned off by "
         "returning None or \"finish\", or with step over, exactly the events left are delivered. \"skip\" leaves an "
         "instruction out and \"return\" leaves the frame with the machine's return_value.",
         ["programs", "schedules", "fault_sequences", "configurations"],
         "all programs x event flags x scripts of what the debugger does at each event x a fault at any operation x versions",
         "No test traces a program of another version, and what reaches the callback depends on the history of calls, "
         "resumptions, failures and commands so far.",
         [TR, "xpython/vm.py", "xpython/byteop/byteop24.py"],
         [("traced execution", TR + " eval_frame"), ("breakpoints", TR + " add_breakpoint, remove_breakpoint"),
          ("breakpoint opcode", "xpython/byteop/byteop24.py BRKPT"), ("decoding", "xpython/vm.py parse_byte_and_args")],
         [("event flags and callback of each frame", "which events are wanted", TR + " eval_frame"),
          ("breakpoints of a frame", "the opcodes replaced", "xpython/pyobj.py Frame.brkpt")],
         ["the events delivered to the callback, and the program's own history"],
         technique="simulated debugger against a model of the events, with fault injection", level_note=NOTE)
    BO = "xpython/byteop/"
    prop("C19", "A name means the variable CPython's scoping rules say, however it is reached",
         "In " + V + ", reading, binding and deleting a name in a module, class body, function or generator affects the "
         "variable of the scope CPython would choose (local, captured, global, built-in), and a name unbound there fails with "
         "NameError. locals(), vars() and dir() tell what is bound where they are called (in a function locals() is one "
         "dictionary, brought up to date by each call, and writing into it does not change the variables); globals() is the "
         "module's namespace itself; eval and exec (statement or function) run in the namespaces given, or those of the caller "
         "when none are, and what they bind and unbind is seen afterwards.",
         ["programs", "fault_sequences", "histories", "configurations"],
         "all histories of binding, unbinding and reading names at nested scopes, directly and by locals, globals, eval and "
         "exec x faults x versions",
         "The tests read each kind of name once, when it is bound; that a namespace shows exactly what is bound at that point "
         "of the history, whatever was done through another view of it, is not what a few fixed programs settle.",
         [BO + "byteop24.py", BO + "byteop.py", BO + "byteop34.py", "xpython/pyobj.py", "xpython/builtins.py"],
         [("names", BO + "byteop24.py LOAD_NAME, STORE_NAME, DELETE_NAME, LOAD_GLOBAL, LOAD_FAST, DELETE_FAST"),
          ("namespaces", BO + "byteop.py with_namespaces, call_function_with_args_resolved"),
          ("locals()", "xpython/pyobj.py Frame.locals"), ("exec", BO + "byteop24.py EXEC_STMT")],
         [("variables", "the local variables of a frame", "xpython/pyobj.py Frame.f_locals"),
          ("captured variables", "cells", "xpython/pyobj.py Frame.cells")],
         ["values read, namespaces seen by the program, exceptions"], level_note=NOTE)
    prop("C20", "The statements and protocols that only Python 2 has mean what they mean there",
         "In bytecode of Python 2.4 to 2.7, `print` writes the items of the statement, converted by str() in order, to the file "
         "given or else to the host's standard output, with the separating spaces and line ends that CPython 2 puts there "
         "(softspace included); `/` and `/=` divide integers with rounding down and everything else as true division does, asking "
         "__div__, __rdiv__ and __idiv__; the truth of an object and the next item of an iterator come from the __nonzero__ and "
         "next() of the program's own classes; `raise` with several arguments raises the exception those "
         "stand for, also given a tuple, a class or an instance, and refuses what is no traceback; backquotes give repr().",
         ["programs", "fault_sequences", "histories", "configurations"],
         "all sequences of these statements and operations in functions, loops, generators and handlers x faults of the "
         "operands, files and conversions x the four versions",
         "The tests run programs of 2.x to their end, with operands of built-in types and standard output only.",
         [BO + "byteop.py", BO + "byteop24.py", BO + "byteop27.py"],
         [("print", BO + "byteop24.py PRINT_ITEM, PRINT_NEWLINE, PRINT_ITEM_TO, PRINT_NEWLINE_TO"),
          ("division", BO + "byteop.py classic_divide"), ("raise", BO + "byteop24.py RAISE_VARARGS, do_raise"),
          ("classes", BO + "byteop24.py BUILD_CLASS")],
         [("output", "softspace of the file printed to", BO + "byteop24.py")],
         ["what is written to each file and standard output, values and exceptions, as seen by the program"], level_note=NOTE)
    prop("C21", "An import binds what CPython would bind, and loads what it would load",
         "In " + V + ", `import a.b`, `import a.b as c`, `from m import n`, `from m import *`, relative imports and calls of "
         "__import__() find and run the modules CPython would (each once while it stays in sys.modules, again after it was "
         "removed or failed), bind the names given and only those in the scope of the statement, read each attribute "
         "once, take what __all__ lists (else what does not start with an underscore), accept a module that puts another object in "
         "its place or (from 3.5) is still being run, and raise ImportError for what is missing. "
         "Whatever fails while a module is found, run or read comes out of the import statement. `import sys` gives one "
         "module object for the whole program and binds it only where it says.",
         ["programs", "fault_sequences", "histories", "configurations"],
         "all histories of importing, forgetting and importing again, in every form and scope and from within modules being "
         "run x faults of finding, running and reading x versions",
         "The tests import a few modules of the standard library that exist and succeed.",
         [BO + "byteop24.py", BO + "byteop25.py", BO + "byteop35.py", BO + "byteop.py"],
         [("import", BO + "byteop24.py import_module, IMPORT_NAME, IMPORT_FROM, IMPORT_STAR"), ("import", BO + "byteop25.py IMPORT_NAME"),
          ("sys", BO + "byteop.py setup_sys_module")],
         [("modules", "sys.modules and the attributes of packages", BO + "byteop24.py import_module"),
          ("sys", "the program's copy of sys", BO + "byteop.py setup_sys_module")],
         ["the modules found and run, attributes read and names bound, in order, and exceptions"], level_note=NOTE)
    prop("C22", "What a program sets on functions and methods counts from the next call",
         "In " + V + ", each evaluation of a def or lambda gives a new function with its own defaults and attributes. A program "
         "reads its name, docstring, module, qualified name, defaults, annotations, code and cells as CPython gives them, under the names "
         "of its version; what it sets or deletes there (of the right type; else an exception and no change) determines the calls that "
         "follow and no other function; attributes of its own have no other effect. Methods are equal and hash alike when they bind "
         "the same function to the same object, give the attributes of the function and bind its first argument however they are "
         "reached (attribute, class, __get__, staticmethod, classmethod, property, partial, callback); functions kept in instances bind "
         "nothing. Functions can be copied, wrapped, weakly referenced and used as keys.",
         ["programs", "fault_sequences", "histories", "configurations"],
         "all histories of defining, changing, binding and calling functions x faults of defaults, decorators, arguments and "
         "bodies x versions",
         "The tests define functions and call them; what was set between two calls, and on which of several functions made by "
         "one definition, is a matter of history.",
         ["xpython/pyobj.py", "xpython/stdlib/inspect2.py", "xpython/stdlib/inspect3.py", BO + "byteop24.py", BO + "byteop36.py"],
         [("functions", "xpython/pyobj.py Function"), ("methods", "xpython/pyobj.py Method"), ("cells", "xpython/pyobj.py Cell"),
          ("calls", "xpython/stdlib/inspect3.py getcallargs, xpython/stdlib/inspect2.py getcallargs"),
          ("definitions", BO + "byteop24.py, byteop33.py, byteop34.py, byteop36.py MAKE_FUNCTION, MAKE_CLOSURE")],
         [("functions", "defaults, code, name, attributes", "xpython/pyobj.py Function"), ("cells", "captured variables", "xpython/pyobj.py Cell")],
         ["attributes read, arguments bound, comparisons and exceptions, as seen by the program"], level_note=NOTE)
    prop("C23", "Virtual machines of one process do not disturb each other",
         "Programs run by several virtual machines of one process, of the same or of different versions in " + V + ", whether "
         "one machine's program calls native code that runs another machine, or the machines run in threads and are interrupted "
         "anywhere, each do what they do alone: the same operations in the same order, the same values, exceptions and outcome; "
         "also when one of them fails, is interrupted or is abandoned in the middle. A machine whose program has ended - "
         "normally, by an exception or by an interrupt - runs the next program as a new machine does.",
         ["schedules", "fault_sequences", "histories", "crash_points"],
         "all interleavings of two or three machines at world events and at lines of x-python x programs x versions x faults x "
         "points at which a machine is abandoned",
         "Each test runs one program on one new machine.",
         ["xpython/vm.py", "xpython/pyobj.py", "xpython/byteop/__init__.py", BO + "byteop.py"],
         [("machine", "xpython/vm.py PyVM.__init__, run_code, push_frame, pop_frame"), ("operations", "xpython/byteop/__init__.py get_byteop"),
          ("functions", "xpython/pyobj.py Function (its machine), Generator, Frame")],
         [("machine", "frames, last_exception, return_value", "xpython/vm.py PyVM"), ("operations", "its machine", BO + "byteop.py ByteOpBase")],
         ["each program's operations on its world, in order, its outcome and final variables"],
         technique="seeded scheduling of several machines, with fault injection, against each program run alone",
         level_note="Switches at every world event and, in fine runs, at lines of x-python; not within one line.")
    prop("C24", "Programs compiled by PyPy mean what they mean under PyPy",
         "Bytecode of PyPy 2.7, 3.2, 3.5, 3.6 and 3.7, which has operations and calling conventions of its own (calls of "
         "methods, assert statements, lists made by comprehensions, keyword and unpacked arguments), does what the program "
         "says: statements, calls, methods, generators and functions as objects do the same operations in the same order, with "
         "the same values, exceptions and outcome, as CPython running the same source.",
         ["fault_sequences", "histories", "inputs"],
         "all programs x PyPy versions x failures at any operation",
         "The tests run a few dozen compiled files per version, none of which has an operation that fails in such a place.",
         [BO + "byteoppypy.py", BO + "byteop27pypy.py", BO + "byteop32pypy.py", BO + "byteop35pypy.py", BO + "byteop36pypy.py",
          BO + "byteop37pypy.py"],
         [("methods", BO + "byteoppypy.py LOOKUP_METHOD, CALL_METHOD; byteop37pypy.py CALL_METHOD_KW"),
          ("assert", BO + "byteoppypy.py JUMP_IF_NOT_DEBUG"), ("lists", BO + "byteoppypy.py BUILD_LIST_FROM_ARG"),
          ("calls", BO + "byteop36pypy.py, " + BO + "byteop35.py")],
         [("value stack", "method, placeholder, arguments", BO + "byteoppypy.py")],
         ["operations on the world in order, values, exceptions, outcome, final variables"],
         level_note="The compiler follows PyPy's; the 112 PyPy files of the tests were compared with what it emits. PyPy 3.8 and "
                    "3.9, of which the repository has three samples each, are not covered.")
    prop("C25", "A program that runs out of stack gets an error it can handle",
         "When calls of a program in " + V + " nest deeper than the interpreter's stack allows - calls of functions, methods, "
         "special methods, properties, class bodies, generators, or by native code - the call that does not fit raises "
         "RuntimeError (RecursionError) at that call and nothing of the callee runs. It unwinds like any exception: every "
         "finally clause, with statement and handler of the active calls takes part once, in order; handled, at any depth, the "
         "program goes on, recurses again or returns, with its variables, frames and generators as they should be; not handled, "
         "it is how the program ends. So it is too when the program is traced.",
         ["programs", "fault_sequences", "crash_points", "configurations"],
         "all programs that recurse x stack sizes, so that the overflow falls on every point of the interpreter's own work x "
         "versions",
         "Where the stack ends, relative to the work of the interpreter on an instruction, is up to the depth at which the "
         "program is started; no test runs out of stack.",
         ["xpython/vm.py", "xpython/vmtrace.py", "xpython/pyobj.py", BO + "byteop24.py"],
         [("room for a frame", "xpython/vm.py reserve_stack, eval_frame"), ("room for a frame", "xpython/vmtrace.py eval_frame"),
          ("failure of an operation", "xpython/vm.py dispatch")],
         [("frames", "the active frames", "xpython/vm.py PyVM.frames"), ("generators", "running", "xpython/pyobj.py Generator")],
         ["the events each program logs around its calls, in order, the final variables and the outcome"],
         technique="seeded simulation of stack exhaustion, against the host interpreter failing at the same calls",
         level_note="The overflow is a real one, of a stack whose size the seed chooses; the reference is made to fail at the "
                    "calls where it happened, known by the number of events before it.")
    prop("C26", "Showing the instructions of a program (-v, -vv) does not change it",
         "Running a program in " + V + " or of PyPy with the loggers of the virtual machine enabled at level INFO or DEBUG "
         "(-v and -vv) leaves the program as it is: the same operations in the same order, results, exceptions, handlers and "
         "final state as without, and no code of the program is run on behalf of showing other than __repr__; objects whose "
         "__repr__ fails or runs anything are shown somehow. What is shown is what is done: every instruction executed, once, "
         "in order, at the depth of its frame, with its offset, name and the line that begins there; before a binary or "
         "in-place operation the operands it is about to work on, before a call the name of the function that is entered.",
         ["programs", "fault_sequences", "configurations"],
         "all programs x operands, including objects that cannot be shown, x failures of operations x versions x levels",
         "Which operands are on the stack, and whether asking them what they look like has effects, depends on the history of "
         "the program; no test looks at what is shown.",
         ["xpython/vm.py", "xpython/byteop/byteop.py", BO + "byteop24.py", BO + "byteop36.py", BO + "byteop37pypy.py"],
         [("showing an instruction", "xpython/vm.py format_instruction, PyVM.log"),
          ("operands", BO + "byteop.py fmt_binary_op, fmt_unary_op"), ("callees", BO + "byteop24.py fmt_call_function"),
          ("failures shown", "xpython/vm.py dispatch")],
         [("stack", "read before the operation", "xpython/vm.py PyVM.peek")],
         ["the operations and results of the program, shown and not shown; the lines logged, against a traced run"],
         technique="seeded simulation with the loggers enabled, against the host interpreter and a traced run",
         level_note="The handler of the logger is the simulator's: it notes after how many events of the program each line came.")
    prop("C27", "An exception remembers the one being handled, and its cause",
         "For a program in 3.1-3.10 bytecode, or of PyPy for these: an exception raised - by a raise statement, an operation, "
         "native code or a call, in any frame or generator - while another one is being handled there or by a caller has that one "
         "as its __context__, and no exception that x-python itself raised and dealt with shows up there. Raising an exception "
         "again does not make a cycle and takes the context of the new place; a bare raise, a finally clause that ends and frames "
         "that are left change nothing. raise X from Y sets __cause__ and hides the context, as from None does (3.3 on).",
         ["programs", "fault_sequences"],
         "all programs of nested handlers, finally clauses, with statements, calls and generators x failures of operations",
         "What is being handled where an operation fails depends on the history of failures so far; tests look at no chain.",
         ["xpython/vm.py", "xpython/vmtrace.py", BO + "byteop.py", BO + "byteop32.py"],
         [("context", "xpython/vm.py chain_exception, is_chained"), ("cause", BO + "byteop.py do_raise"),
          ("leaving a frame", "xpython/vm.py eval_frame")],
         [("handled", "the exception being handled", "xpython/vm.py handled_exception")],
         ["the chain of contexts, causes and __suppress_context__ of exceptions where they are caught and later"],
         technique="seeded simulation with fault injection, against the host interpreter",
         level_note="The reference is CPython 3.12, whose rules for chains are those of 3.1 on but for from None before 3.3, "
                    "which is left out there.")
    prop("C28", "Generators can be thrown into and closed where they are suspended",
         "For a program in 2.5-2.7 or 3.1-3.10 bytecode, or of PyPy for these: an exception thrown into a suspended generator is "
         "raised at its yield - its handlers, finally clauses and with statements take part as for any other - and throw() gives the "
         "next value, or raises what leaves the generator. close() raises GeneratorExit there, returns when the generator ends, and is "
         "an error when it yields instead. A generator that has not started or has ended runs nothing; one that is running refuses. "
         "In yield from, both go to what it waits for: to its throw() or close() if there is one; its result or exception "
         "continues the outer generator after, or at, the yield from.",
         ["programs", "schedules", "fault_sequences"],
         "all programs with generators x orders of next(), send(), throw() and close() x failures of operations",
         "Where a generator is suspended when an exception arrives depends on the order of resumptions; no test throws into one.",
         ["xpython/pyobj.py", "xpython/vm.py", "xpython/vmtrace.py", BO + "byteop33.py"],
         [("throw, close", "xpython/pyobj.py Generator"), ("raised where it is suspended", "xpython/vm.py throw_into"),
          ("yield from", BO + "byteop33.py YIELD_FROM")],
         [("suspended", "the place it goes on from", "xpython/pyobj.py Frame.f_lasti, stack, block_stack"),
          ("delegate", "what its yield from waits for", "xpython/pyobj.py Generator.delegate")],
         ["values, exceptions and clean-ups of generators under next(), send(), throw() and close()"],
         technique="seeded simulation of resumption schedules with fault injection, against the host interpreter",
         level_note="Generators are not closed when they are dropped (the garbage collector's doing), and 2.4 had neither method.")
    prop("C90", "Values of built-in types are computed as CPython computes them",
         "For operands of built-in types, every arithmetic, comparison, container and formatting operation of the "
         "interpreted program yields the same value as the running Python does.",
         ["inputs"], "all operand values of built-in types",
         "It is a question about values; the tests sample a few.",
         ["xpython/vm.py"], [("operators", "xpython/vm.py BINARY_OPERATORS")],
         na="A pure function of its operands, which x-python hands to the running Python's own operators: there is no "
            "schedule, clock, fault or history in it for a simulation to vary. That operators are applied once, to the "
            "right operands and in order, is C09.")
    prop("C91", "Bytecode of every version is decoded into the right instructions",
         "Every code object of a supported version is decoded into the instructions, operands and line numbers its "
         "compiler put there.",
         ["inputs"], "all code objects of all versions",
         "The tests decode the few files they ship.",
         ["xpython/vm.py"], [("decoding", "xpython/vm.py parse_byte_and_args (tables from xdis)")],
         na="A pure function of the code object (and mostly the external xdis library's); simulation has nothing to "
            "vary. Misdecoded operands do show up as divergences in C01-C14.")
