"""minicc: a small Python compiler that emits bytecode of *other* Python versions.

Source (parsed by the host's ``ast``) -> xdis portable code object for CPython
2.4 .. 2.7 and 3.1 .. 3.10, following what the real compilers of those versions
emitted (block set-up opcodes, ``with`` lowering, call opcodes, jump forms, word
code, line tables ...).  It is the workload generator of the simulation: the same
source is run by the host CPython (the reference) and, as version-V bytecode, by
the interpreter under test.

Only a subset of the language is supported; ``CompileUnsupported`` is raised for
the rest so that a workload is never silently different from its source.
"""
import ast

from xdis.codetype import to_portable
from xdis.op_imports import get_opcode_module
from xdis.version_info import PythonImplementation


class CompileUnsupported(Exception):
    pass


CO_OPTIMIZED, CO_NEWLOCALS, CO_VARARGS, CO_VARKEYWORDS = 1, 2, 4, 8
CO_NESTED, CO_GENERATOR, CO_NOFREE = 16, 32, 64

_OPC = {}


def implementation(version):
    """PyPy's versions are written (3, 6, "pypy")."""
    return PythonImplementation.PyPy if "pypy" in version else PythonImplementation.CPython


def opc_for(version):
    version = tuple(version)
    if version not in _OPC:
        _OPC[version] = get_opcode_module(version[:2], implementation(version))
    return _OPC[version]


BINOPS = {
    ast.Add: "ADD", ast.Sub: "SUBTRACT", ast.Mult: "MULTIPLY", ast.Div: "TRUE_DIVIDE",
    ast.Mod: "MODULO", ast.Pow: "POWER", ast.LShift: "LSHIFT", ast.RShift: "RSHIFT",
    ast.BitOr: "OR", ast.BitXor: "XOR", ast.BitAnd: "AND", ast.FloorDiv: "FLOOR_DIVIDE",
    ast.MatMult: "MATRIX_MULTIPLY",
}
UNOPS = {ast.UAdd: "POSITIVE", ast.USub: "NEGATIVE", ast.Not: "NOT", ast.Invert: "INVERT"}
CMPOPS = {ast.Lt: 0, ast.LtE: 1, ast.Eq: 2, ast.NotEq: 3, ast.Gt: 4, ast.GtE: 5,
          ast.In: 6, ast.NotIn: 7, ast.Is: 8, ast.IsNot: 9}
EXC_MATCH = 10
# What methods are called in 2.x.
OLD_NAMES = {"__bool__": "__nonzero__", "__next__": "next", "__truediv__": "__div__", "__rtruediv__": "__rdiv__",
             "__itruediv__": "__idiv__"}
# What the attributes of functions and methods were called (2.6 and 2.7 know both names).
FUNC_NAMES = {"__code__": "func_code", "__defaults__": "func_defaults", "__globals__": "func_globals",
              "__closure__": "func_closure", "__self__": "im_self", "__func__": "im_func"}
FUNC_ONLY = {"__name__": "func_name", "__doc__": "func_doc", "__dict__": "func_dict"}


# --------------------------------------------------------------------- scopes
class Scope:
    def __init__(self, kind, node, parent, version):
        self.kind, self.node, self.parent, self.version = kind, node, parent, version
        self.bound, self.used, self.globals, self.nonlocals = [], [], set(), set()
        self.params = []
        self.children = {}
        self.free, self.cell = [], []
        self.is_generator = False
        self.needs_class_cell = False
        self.annotated = False

    def bind(self, name):
        if name not in self.bound:
            self.bound.append(name)

    def use(self, name):
        if name not in self.used:
            self.used.append(name)

    def local(self, name):
        return name in self.bound and name not in self.globals and name not in self.nonlocals


def chain(scope):
    while scope is not None:
        yield scope
        scope = scope.parent


def annotations(node):
    """The annotations of a function, as (name, expression), in the order in which
    compilers evaluate them."""
    if not isinstance(node, ast.FunctionDef):
        return []
    a = node.args
    out = [(p.arg, p.annotation) for p in a.args + a.posonlyargs]
    if a.vararg:
        out.append((a.vararg.arg, a.vararg.annotation))
    out += [(p.arg, p.annotation) for p in a.kwonlyargs]
    if a.kwarg:
        out.append((a.kwarg.arg, a.kwarg.annotation))
    out.append(("return", node.returns))
    return [(n, x) for n, x in out if x is not None]


def quiet(x):
    """Evaluating x does nothing that could be noticed."""
    return isinstance(x, (ast.Constant, ast.Name))


class ScopeBuilder(ast.NodeVisitor):
    def __init__(self, version):
        self.version = version
        self.cur = None

    def build(self, tree):
        top = Scope("module", tree, None, self.version)
        self.cur = top
        for s in tree.body:
            self.visit(s)
        self.resolve(top, [])
        return top

    def new(self, kind, node):
        s = Scope(kind, node, self.cur, self.version)
        self.cur.children[node] = s
        return s

    def visit_Name(self, node):
        if isinstance(node.ctx, ast.Load):
            self.cur.use(node.id)
            if node.id == "super" and self.cur.kind == "function" and self.version >= (3, 0):
                self.cur.use("__class__")
        else:
            self.cur.bind(node.id)

    def visit_Global(self, node):
        self.cur.globals.update(node.names)

    def visit_Nonlocal(self, node):
        self.cur.nonlocals.update(node.names)
        for n in node.names:
            self.cur.use(n)

    def visit_Import(self, node):
        for a in node.names:
            self.cur.bind((a.asname or a.name).split(".")[0])

    visit_ImportFrom = visit_Import

    def visit_ExceptHandler(self, node):
        if node.type:
            self.visit(node.type)
        if node.name:
            self.cur.bind(node.name)
        for s in node.body:
            self.visit(s)

    def visit_NamedExpr(self, node):
        if isinstance(self.cur.node, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            raise CompileUnsupported("assignment expression in a comprehension")
        self.generic_visit(node)

    def visit_AnnAssign(self, node):
        if self.version < (3, 6):
            raise CompileUnsupported("variable annotation")
        if self.cur.kind != "function":
            self.cur.annotated = True
            self.visit(node.annotation)
        elif not isinstance(node.target, ast.Name):
            self.visit(node.annotation)
        self.visit(node.target)
        if node.value is not None:
            self.visit(node.value)

    def visit_Yield(self, node):
        self.cur.is_generator = True
        self.generic_visit(node)

    def visit_YieldFrom(self, node):
        self.cur.is_generator = True
        self.generic_visit(node)

    def visit_With(self, node):
        if self.version < (2, 6) or self.version == (3, 1):
            # hidden temporaries hold __exit__ (and the entered value)
            n = len([b for b in self.cur.bound if b.startswith("_[")])
            node._tmp_exit = "_[%d]" % (n + 1)
            self.cur.bind(node._tmp_exit)
            if node.items[0].optional_vars is not None:
                node._tmp_val = "_[%d]" % (n + 2)
                self.cur.bind(node._tmp_val)
        self.generic_visit(node)

    def visit_FunctionDef(self, node):
        self.cur.bind(node.name)
        for d in node.decorator_list:
            self.visit(d)
        self.function(node)

    def visit_Lambda(self, node):
        self.function(node)

    def function(self, node):
        a = node.args
        for d in a.defaults + [d for d in a.kw_defaults if d is not None]:
            self.visit(d)
        for _, d in annotations(node):
            self.visit(d)
        if a.posonlyargs and self.version < (3, 8):
            raise CompileUnsupported("posonly")
        s = self.new("function", node)
        saved, self.cur = self.cur, s
        for p in a.posonlyargs + a.args + a.kwonlyargs:
            s.bind(p.arg)
            s.params.append(p.arg)
        for p in (a.vararg, a.kwarg):
            if p:
                s.bind(p.arg)
                s.params.append(p.arg)
        body = node.body if isinstance(node.body, list) else [node.body]
        for st in body:
            self.visit(st)
        self.cur = saved

    def visit_ClassDef(self, node):
        self.cur.bind(node.name)
        for d in node.decorator_list:
            self.visit(d)
        for b in node.bases:
            self.visit(b)
        if self.version >= (3, 0):
            for k in node.keywords:
                self.visit(k.value)
        s = self.new("class", node)
        saved, self.cur = self.cur, s
        if self.version < (3, 0):
            for k in node.keywords:
                self.visit(k.value)
        for st in node.body:
            self.visit(st)
        self.cur = saved

    def comprehension(self, node, elts):
        g0 = node.generators[0]
        self.visit(g0.iter)
        if isinstance(node, ast.ListComp) and self.version < (3, 0):
            if self.version < (2, 7):
                n = len([b for b in self.cur.bound if b.startswith("_[")])
                node._tmp = "_[%d]" % (n + 1)
                self.cur.bind(node._tmp)
            s, saved = self.cur, self.cur
        else:
            s = self.new("function", node)
            s.bind(".0")
            s.params.append(".0")
            saved, self.cur = self.cur, s
        self.visit(g0.target)
        for c in g0.ifs:
            self.visit(c)
        for g in node.generators[1:]:
            self.visit(g.iter)
            self.visit(g.target)
            for c in g.ifs:
                self.visit(c)
        for e in elts:
            self.visit(e)
        if isinstance(node, ast.GeneratorExp):
            s.is_generator = True
        self.cur = saved

    def visit_ListComp(self, node):
        self.comprehension(node, [node.elt])

    visit_SetComp = visit_GeneratorExp = visit_ListComp

    def visit_DictComp(self, node):
        self.comprehension(node, [node.key, node.value])

    def resolve(self, scope, enclosing):
        """Return the names free in `scope`; fill in free and cell variables."""
        inner = enclosing + [scope] if scope.kind == "function" else enclosing
        wanted = []
        for child in scope.children.values():
            for n in self.resolve(child, inner):
                if n not in wanted:
                    wanted.append(n)
        free = []
        if scope.kind != "module":
            for n in scope.used + scope.bound:
                if n in scope.globals or scope.local(n):
                    continue
                if n in scope.bound and n not in scope.nonlocals:
                    continue
                holders = [e for e in reversed(enclosing) if n in e.globals or e.local(n)]
                if n not in free and ((holders and n not in holders[0].globals) or (
                        n == "__class__" and scope.kind == "function" and any(k.kind == "class" for k in chain(scope)))):
                    free.append(n)
        for n in wanted:
            if n == "__class__" and scope.kind == "class":
                scope.needs_class_cell = True
                if n not in scope.cell:
                    scope.cell.append(n)
            elif scope.kind == "function" and scope.local(n):
                if n not in scope.cell:
                    scope.cell.append(n)
            elif scope.kind != "module" and n not in free:
                free.append(n)
        scope.free = free
        return list(free)


# -------------------------------------------------------------------- compiler
class Label:
    __slots__ = ("pos",)

    def __init__(self):
        self.pos = None


class Unit:
    """One code object under construction."""

    def __init__(self, cc, scope, name, qualname, firstlineno):
        self.cc, self.scope, self.unit_name = cc, scope, name
        self.qualname, self.firstlineno = qualname, firstlineno
        self.v = cc.version
        self.instrs = []  # [op, arg or Label or None, lineno]
        self.consts, self.const_keys = [], {}
        self.names, self.varnames = [], list(scope.params)
        self.cellvars = sorted(scope.cell) if self.v >= (3, 0) else list(scope.cell)
        self.freevars = sorted(scope.free)
        self.fblocks = []
        self.lineno = firstlineno
        self.last_label = -1

    # -- emission
    def emit(self, op, arg=None):
        self.instrs.append([op, arg, self.lineno])

    def here(self, label):
        label.pos = self.last_label = len(self.instrs)

    def implicit_return(self):
        """`return None` at the end, unless the end cannot be reached."""
        n = len(self.instrs)
        if n and self.instrs[-1][0] == "RETURN_VALUE" and self.last_label != n:
            return
        self.load_const(None)
        self.emit("RETURN_VALUE")

    def const(self, value):
        key = (type(value).__name__, repr(value)) if not hasattr(value, "co_code") else id(value)
        if isinstance(value, tuple):
            key = ("tuple", tuple((type(x).__name__, repr(x)) for x in value))
        if key not in self.const_keys:
            self.const_keys[key] = len(self.consts)
            self.consts.append(value)
        return self.const_keys[key]

    def load_const(self, value):
        self.emit("LOAD_CONST", self.const(value))

    def name(self, n):
        if n not in self.names:
            self.names.append(n)
        return self.names.index(n)

    def var(self, n):
        if n not in self.varnames:
            self.varnames.append(n)
        return self.varnames.index(n)

    def deref(self, n):
        return (self.cellvars + self.freevars).index(n)

    # -- assembling
    def thread_jumps(self):
        """What the peephole optimizer of every CPython does: a test whose outcome
        the test at its target is bound to repeat goes straight to the end."""

        def label(pos):
            l = Label()
            l.pos = pos
            return l

        instrs = self.instrs
        again = True
        while again:
            again = False
            for i in instrs:
                op, target = i[0], i[1]
                if op not in ("JUMP_IF_FALSE", "JUMP_IF_TRUE", "JUMP_IF_FALSE_OR_POP", "JUMP_IF_TRUE_OR_POP"):
                    continue
                op2, target2 = instrs[target.pos][:2] if target.pos < len(instrs) else (None, None)
                if op2 is None or "JUMP_IF_" not in op2 or not isinstance(target2, Label):
                    continue
                same = ("TRUE" in op) == ("TRUE" in op2)
                if op.endswith("_OR_POP"):
                    if not same:
                        i[0], i[1] = "POP_" + op[: -len("_OR_POP")], label(target.pos + 1)
                    elif op2.startswith("POP_"):
                        i[0], i[1] = "POP_" + op[: -len("_OR_POP")], target2
                    else:
                        i[1] = target2
                else:
                    i[1] = target2 if same else label(target.pos + 1)
                again = True

    def assemble(self):
        if not self.cc.pypy:
            self.thread_jumps()
        opc = opc_for(self.cc.target)
        opmap = opc.opmap
        jrel, jabs = set(opc.hasjrel), set(opc.hasjabs)
        word = self.v >= (3, 6)
        n = len(self.instrs)
        args = []
        for op, arg, _ in self.instrs:
            args.append(arg if not isinstance(arg, Label) else 0)

        def size(i):
            opn = opmap[self.instrs[i][0]]
            a = args[i]
            if word:
                a = a or 0
                return 2 if a < 1 << 8 else 4 if a < 1 << 16 else 6 if a < 1 << 24 else 8
            if opn < opc.HAVE_ARGUMENT:
                return 1
            return 3 if a < 1 << 16 else 6

        for op, arg, _ in self.instrs:
            if op not in opmap:
                raise CompileUnsupported("no %s in %s" % (op, self.v))
            if not word and (opmap[op] >= opc.HAVE_ARGUMENT) != (arg is not None):
                raise AssertionError((op, arg, self.v))
        sizes = [size(i) for i in range(n)]
        while True:
            offs = [0]
            for s in sizes:
                offs.append(offs[-1] + s)
            unit = 2 if self.v >= (3, 10) else 1
            for i, (op, arg, _) in enumerate(self.instrs):
                if isinstance(arg, Label):
                    target = offs[arg.pos]
                    if opmap[op] in jrel:
                        args[i] = (target - offs[i] - sizes[i]) // unit
                        assert args[i] >= 0, (op, self.v)
                    else:
                        assert opmap[op] in jabs, (op, self.v)
                        args[i] = target // unit
            new = [max(sizes[i], size(i)) for i in range(n)]
            if new == sizes:
                break
            sizes = new
        code = bytearray()
        for i, (op, _, _) in enumerate(self.instrs):
            opn, a, sz = opmap[op], args[i], sizes[i]
            if word:
                a = a or 0
                ext = [(a >> 24) & 255, (a >> 16) & 255, (a >> 8) & 255][3 - (sz // 2 - 1):]
                for e in ext:
                    code += bytes((opc.EXTENDED_ARG, e))
                code += bytes((opn, a & 255))
            elif opn < opc.HAVE_ARGUMENT:
                code.append(opn)
            else:
                if sz == 6:
                    code += bytes((opc.EXTENDED_ARG, (a >> 16) & 255, a >> 24))
                code += bytes((opn, a & 255, (a >> 8) & 255))
        return bytes(code), offs

    def lnotab(self, offs, end):
        """Classic co_lnotab."""
        out = bytearray()
        addr, line = 0, self.firstlineno
        for i, (_, _, ln) in enumerate(self.instrs):
            if ln == line:
                continue
            if self.v < (3, 6) and ln < line:
                continue  # line deltas were unsigned before 3.6
            d_addr, d_line = offs[i] - addr, ln - line
            while d_addr > 255:
                out += bytes((255, 0))
                d_addr -= 255
            if d_line > 0:
                while d_line > 127:
                    out += bytes((d_addr, 127))
                    d_addr, d_line = 0, d_line - 127
            else:
                while d_line < -128:
                    out += bytes((d_addr, 0x80))
                    d_addr, d_line = 0, d_line + 128
            out += bytes((d_addr, d_line & 255))
            addr, line = offs[i], ln
        return bytes(out)

    def linetable(self, offs, end):
        """PEP 626 co_linetable (3.10)."""
        out = bytearray()
        line = self.firstlineno
        i, n = 0, len(self.instrs)
        while i < n:
            j = i
            while j < n and self.instrs[j][2] == self.instrs[i][2]:
                j += 1
            delta, size = self.instrs[i][2] - line, offs[j] - offs[i]
            line = self.instrs[i][2]
            while delta > 127 or delta < -127:
                step = 127 if delta > 0 else -127
                out += bytes((0, step & 255))
                delta -= step
            while size > 254:
                out += bytes((254, delta & 255))
                size, delta = size - 254, 0
            out += bytes((size, delta & 255))
            i = j
        return bytes(out)

    def code(self):
        scope, v = self.scope, self.v
        bytecode, offs = self.assemble()
        flags = 0
        argcount = kwonly = posonly = 0
        if scope.kind == "function":
            flags |= CO_OPTIMIZED | CO_NEWLOCALS
            if isinstance(scope.node, (ast.FunctionDef, ast.Lambda)):
                a = scope.node.args
                argcount, kwonly = len(a.posonlyargs) + len(a.args), len(a.kwonlyargs)
                posonly = len(a.posonlyargs)
                if a.vararg:
                    flags |= CO_VARARGS
                if a.kwarg:
                    flags |= CO_VARKEYWORDS
            else:
                argcount = 1
            if scope.is_generator:
                flags |= CO_GENERATOR
        elif scope.kind == "class":
            flags |= 0 if v >= (3, 4) else CO_NEWLOCALS
            if v < (3, 4) and v >= (3, 0):
                argcount = 1
        if not self.cellvars and not self.freevars:
            flags |= CO_NOFREE
        if scope.parent is not None and scope.parent.kind == "function":
            flags |= CO_NESTED
        if v >= (3, 10):
            lines = self.linetable(offs, offs[-1])
        else:
            lines = self.lnotab(offs, offs[-1])
            if v < (3, 0):
                lines = lines.decode("latin-1")
        return to_portable(
            co_argcount=argcount, co_posonlyargcount=posonly, co_kwonlyargcount=kwonly,
            co_nlocals=len(self.varnames), co_stacksize=200, co_flags=flags, co_code=bytecode,
            co_consts=tuple(self.consts), co_names=tuple(self.names),
            co_varnames=tuple(self.varnames), co_filename=self.cc.filename,
            co_name=self.unit_name, co_qualname=self.qualname, co_firstlineno=self.firstlineno,
            co_lnotab=lines, co_freevars=tuple(self.freevars), co_cellvars=tuple(self.cellvars),
            version_triple=tuple(v) + (0,) if len(v) == 2 else v,
        )


class SplitWith(ast.NodeTransformer):
    """`with a, b:` is `with a: with b:`."""

    def visit_With(self, node):
        self.generic_visit(node)
        while len(node.items) > 1:
            inner = ast.copy_location(ast.With(items=node.items[-1:], body=node.body), node)
            node = ast.copy_location(ast.With(items=node.items[:-1], body=[inner]), node)
        return node


class TupleParameters(ast.NodeTransformer):
    """`def f(a, (b, c))` is written `def f(a, _t1): b, c = _t1`, which is what it is
    but for the name of the parameter."""

    def rename(self, n):
        return "." + n[2:] if n[:2] == "_t" and n[2:].isdigit() else n

    def visit_Name(self, node):
        node.id = self.rename(node.id)
        return node

    def visit_arg(self, node):
        node.arg = self.rename(node.arg)
        return node


class Compiler:
    def __init__(self, source, version, filename="<sim>"):
        self.version = tuple(version[:2])
        self.pypy = "pypy" in version
        self.target = self.version + ("pypy",) if self.pypy else self.version
        self.filename = filename
        self.tree = SplitWith().visit(ast.parse(source))
        if self.version < (3, 0):
            self.tree = TupleParameters().visit(self.tree)
        self.top = ScopeBuilder(self.version).build(self.tree)
        self.u = None
        self.stack = []

    # ----------------------------------------------------------- units
    def enter(self, scope, name, firstlineno, qualname=None):
        u = Unit(self, scope, name, qualname, firstlineno)
        self.stack.append(self.u)
        self.u = u
        return u

    def leave(self):
        u, self.u = self.u, self.stack.pop()
        return u.code()

    def qualname(self, name):
        parts = []
        for u in self.stack[1:] + [self.u]:
            if u is None or u.scope.kind == "module":
                continue
            parts.append(u.unit_name)
            if u.scope.kind == "function":
                parts.append("<locals>")
        return ".".join(parts + [name])

    def compile(self):
        self.enter(self.top, "<module>", 1 if self.version >= (3, 8) else self.tree.body[0].lineno)
        self.u.qualname = "<module>"
        if self.version < (3, 8):
            self.u.firstlineno = 1
        if self.top.annotated:
            self.e("SETUP_ANNOTATIONS")
        self.docstring(self.tree)
        self.body(self.tree.body)
        self.u.implicit_return()
        return self.leave()

    def docstring(self, node):
        if ast.get_docstring(node, clean=False) is not None:
            self.u.lineno = node.body[0].lineno
            self.u.load_const(node.body[0].value.value)
            self.store_name("__doc__")

    # ----------------------------------------------------------- helpers
    def e(self, op, arg=None):
        self.u.emit(op, arg)

    def ge(self, *v):
        return self.version >= v

    def body(self, stmts):
        for s in stmts:
            self.stmt(s)

    def load_name(self, n):
        self.name_op("LOAD", n)

    def attr(self, n, of=None):
        if not self.ge(3, 0):
            if n in FUNC_NAMES and (not self.ge(2, 6) or self.u.lineno % 2):
                n = FUNC_NAMES[n]
            elif n in FUNC_ONLY and self.u.lineno % 2 and isinstance(of, ast.Name) and of.id.startswith("fq"):
                n = FUNC_ONLY[n]
            n = OLD_NAMES.get(n, n)
        return self.u.name(n)

    def store_name(self, n):
        self.name_op("STORE", n)

    def name_op(self, kind, n):
        u, s = self.u, self.u.scope
        if n.startswith("_[") or n[0] == ".":
            if s.kind == "function":
                self.e(kind + "_FAST", u.var(n))
            else:
                self.e(kind + "_NAME", u.name(n))
            return
        if kind == "LOAD" and self.ge(3, 0) and n in ("None", "True", "False"):
            raise AssertionError
        if n in s.globals:
            self.e(kind + "_GLOBAL", u.name(n))
        elif s.kind == "class" and n in s.bound and n not in s.nonlocals:
            # (It may be a free variable as well, for the methods.)
            if not self.ge(3, 0):
                n = OLD_NAMES.get(n, n)
            self.e(kind + "_NAME", u.name(n))
        elif n in u.freevars or n in u.cellvars:
            if kind == "LOAD" and s.kind == "class" and self.ge(3, 4):
                self.e("LOAD_CLASSDEREF", u.deref(n))
            elif kind == "DELETE" and not self.ge(3, 2):
                raise CompileUnsupported("delete of a cell variable")
            else:
                self.e(kind + "_DEREF", u.deref(n))
        elif s.kind == "function":
            if n in s.bound:
                self.e(kind + "_FAST", u.var(n))
            else:
                self.e(kind + "_GLOBAL", u.name(n))
        else:
            self.e(kind + "_NAME", u.name(n))

    # ----------------------------------------------------------- jumps
    def cond_jump(self, test, label, when):
        """Jump to `label` if truth of `test` is `when`, consuming it.  Before 2.7
        the value stays on the stack on both ways; so the caller must POP_TOP at
        the label: see `cond_label`."""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not) and (self.pypy or self.ge(3, 7)):
            return self.cond_jump(test.operand, label, not when)
        if (self.pypy or self.ge(3, 7)) and isinstance(test, ast.BoolOp):
            want = isinstance(test.op, ast.Or)
            if want == when:
                for v in test.values:
                    self.cond_jump(v, label, when)
            else:
                skip = Label()
                for v in test.values[:-1]:
                    self.cond_jump(v, skip, want)
                self.cond_jump(test.values[-1], label, when)
                self.u.here(skip)
            return
        self.expr(test)
        self.pop_jump(label, when)

    def pop_jump(self, label, when):
        if self.ge(2, 7) and self.version != (3, 0):
            pass
        if self.old_jumps():
            self.e("JUMP_IF_TRUE" if when else "JUMP_IF_FALSE", label)
            self.e("POP_TOP")
        else:
            self.e("POP_JUMP_IF_TRUE" if when else "POP_JUMP_IF_FALSE", label)

    def old_jumps(self):
        return self.version < (2, 7) or self.version == (3, 0)

    def cond_label(self, label):
        self.u.here(label)
        if self.old_jumps():
            self.e("POP_TOP")

    # ----------------------------------------------------------- statements
    def stmt(self, s):
        self.u.lineno = s.lineno
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise CompileUnsupported(type(s).__name__)
        m(s)

    def s_Pass(self, s):
        if self.ge(3, 8):
            self.e("NOP")

    def s_Global(self, s):
        pass

    s_Nonlocal = s_Global

    def s_Expr(self, s):
        v = s.value
        if isinstance(v, ast.Constant):
            return
        if not self.ge(3, 0) and isinstance(v, ast.Call) and isinstance(v.func, ast.Name) \
                and v.func.id == "print":
            return self.print_stmt(v)
        if not self.ge(3, 0) and isinstance(v, ast.Call) and isinstance(v.func, ast.Name) \
                and v.func.id == "exec":
            return self.exec_stmt(v)
        if isinstance(v, ast.Yield) and self.version < (2, 5):
            if v.value is None:
                self.u.load_const(None)
            else:
                self.expr(v.value)
            self.e("YIELD_VALUE")
            return
        self.expr(v)
        self.e("POP_TOP")

    def exec_stmt(self, call):
        """`exec s`, `exec s in g, l` or (what 2.x also takes) `exec (s, g, l)`"""
        args = call.args
        if len(args) > 1 and call.lineno % 2:
            for a in args:
                self.expr(a)
            self.e("BUILD_TUPLE", len(args))
            args = args[:1]
        else:
            self.expr(args[0])
        if len(args) == 1:
            self.u.load_const(None)
            self.e("DUP_TOP")
        else:
            self.expr(args[1])
            if len(args) > 2:
                self.expr(args[2])
            else:
                self.e("DUP_TOP")
        self.e("EXEC_STMT")

    def print_stmt(self, call):
        dest, end = None, True
        for k in call.keywords:
            if k.arg == "file":
                dest = k.value
            elif k.arg == "end" and isinstance(k.value, ast.Constant) and k.value.value == " ":
                end = False
            else:
                raise CompileUnsupported("print keyword")
        if dest is not None:
            self.expr(dest)
        for a in call.args:
            if dest is not None:
                self.e("DUP_TOP")
                self.expr(a)
                self.e("ROT_TWO")
                self.e("PRINT_ITEM_TO")
            else:
                self.expr(a)
                self.e("PRINT_ITEM")
        if end:
            self.e("PRINT_NEWLINE_TO" if dest is not None else "PRINT_NEWLINE")
        elif dest is not None:
            self.e("POP_TOP")

    def s_Assign(self, s):
        self.expr(s.value)
        for i, t in enumerate(s.targets):
            if i < len(s.targets) - 1:
                self.e("DUP_TOP")
            self.store(t)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.expr(s.value)
            self.store(s.target)
        if not isinstance(s.target, ast.Name):
            raise CompileUnsupported("annotated target")
        if self.u.scope.kind == "function" or not s.simple:
            return
        self.expr(s.annotation)
        if self.ge(3, 7):
            self.e("LOAD_NAME", self.u.name("__annotations__"))
            self.u.load_const(s.target.id)
            self.e("STORE_SUBSCR")
        else:
            self.e("STORE_ANNOTATION", self.u.name(s.target.id))

    def s_AugAssign(self, s):
        t = s.target
        op = BINOPS[type(s.op)]
        if op == "TRUE_DIVIDE" and not self.ge(3, 0):
            op = "DIVIDE"
        op = "INPLACE_" + op
        if isinstance(t, ast.Name):
            self.load_name(t.id)
            self.expr(s.value)
            self.e(op)
            self.store_name(t.id)
        elif isinstance(t, ast.Attribute):
            self.expr(t.value)
            self.e("DUP_TOP")
            self.e("LOAD_ATTR", self.attr(t.attr, t.value))
            self.expr(s.value)
            self.e(op)
            self.e("ROT_TWO")
            self.e("STORE_ATTR", self.attr(t.attr, t.value))
        elif isinstance(t, ast.Subscript):
            self.expr(t.value)
            if isinstance(t.slice, ast.Slice):
                raise CompileUnsupported("aug slice")
            self.expr(t.slice)
            if self.ge(3, 2):
                self.e("DUP_TOP_TWO")
            else:
                self.e("DUP_TOPX", 2)
            self.e("BINARY_SUBSCR")
            self.expr(s.value)
            self.e(op)
            self.e("ROT_THREE")
            self.e("STORE_SUBSCR")
        else:
            raise CompileUnsupported("augassign target")

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.name_op("DELETE", t.id)
            elif isinstance(t, ast.Attribute):
                self.expr(t.value)
                self.e("DELETE_ATTR", self.attr(t.attr, t.value))
            elif isinstance(t, ast.Subscript):
                self.subscript(t, "DELETE")
            else:
                raise CompileUnsupported("delete target")

    def store(self, t):
        if isinstance(t, ast.Name):
            self.store_name(t.id)
        elif isinstance(t, ast.Attribute):
            self.expr(t.value)
            self.e("STORE_ATTR", self.attr(t.attr, t.value))
        elif isinstance(t, ast.Subscript):
            self.subscript(t, "STORE")
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(x, ast.Starred) for x in t.elts):
                if not self.ge(3, 0):
                    raise CompileUnsupported("star target in Python 2")
                i = [isinstance(x, ast.Starred) for x in t.elts].index(True)
                self.e("UNPACK_EX", i | (len(t.elts) - i - 1) << 8)
            else:
                self.e("UNPACK_SEQUENCE", len(t.elts))
            for x in t.elts:
                self.store(x.value if isinstance(x, ast.Starred) else x)
        else:
            raise CompileUnsupported("target " + type(t).__name__)

    def subscript(self, t, kind):
        sl = t.slice
        if isinstance(sl, ast.Slice):
            self.expr(t.value)
            if not self.ge(3, 0) and sl.step is None:
                n = 0
                if sl.lower is not None:
                    self.expr(sl.lower)
                    n |= 1
                if sl.upper is not None:
                    self.expr(sl.upper)
                    n |= 2
                pre = {"LOAD": "", "STORE": "STORE_", "DELETE": "DELETE_"}[kind]
                self.e("%sSLICE_%d" % (pre, n))
                return
            for x in (sl.lower, sl.upper):
                if x is None:
                    self.u.load_const(None)
                else:
                    self.expr(x)
            if sl.step is not None:
                self.expr(sl.step)
            self.e("BUILD_SLICE", 3 if sl.step is not None else 2)
        else:
            self.expr(t.value)
            self.expr(sl)
        self.e({"LOAD": "BINARY_SUBSCR", "STORE": "STORE_SUBSCR", "DELETE": "DELETE_SUBSCR"}[kind])

    def s_Return(self, s):
        if not self.ge(3, 8):
            if s.value is None:
                self.u.load_const(None)
            else:
                self.expr(s.value)
            self.e("RETURN_VALUE")
            return
        const = s.value is None or isinstance(s.value, ast.Constant)
        preserve = not const
        if preserve:
            self.expr(s.value)
        self.unwind_all(preserve)
        if s.value is None:
            self.u.load_const(None)
        elif const:
            self.expr(s.value)
        self.e("RETURN_VALUE")

    # -- 3.8+ unwinding
    def unwind_all(self, preserve, stop=None):
        saved = list(self.u.fblocks)
        while self.u.fblocks:
            fb = self.u.fblocks[-1]
            if stop is not None and fb is stop:
                break
            self.u.fblocks.pop()
            self.unwind(fb, preserve)
        self.u.fblocks = saved

    def unwind(self, fb, preserve):
        kind, e = fb[0], self.e
        if kind == "while":
            pass
        elif kind == "for":
            if preserve:
                e("ROT_TWO")
            e("POP_TOP")
        elif kind == "except":
            e("POP_BLOCK")
        elif kind == "finally_try":
            e("POP_BLOCK")
            if self.version == (3, 8):
                e("CALL_FINALLY", fb[1])
            else:
                if preserve:
                    self.u.fblocks.append(("pop_value",))
                ln = self.u.lineno
                self.body(fb[2])
                self.u.lineno = ln
                if preserve:
                    self.u.fblocks.pop()
        elif kind == "finally_try2":  # 3.8: finally bodies with a break/continue/return
            e("POP_BLOCK")
            if preserve:
                e("ROT_TWO")
                e("POP_TOP")
                e("CALL_FINALLY", fb[1])
            else:
                e("CALL_FINALLY", fb[1])
                e("POP_TOP")
        elif kind == "finally_end":
            if self.version == (3, 8):
                e("POP_FINALLY", 1 if preserve else 0)
            else:
                if preserve:
                    e("ROT_FOUR")
                e("POP_TOP")
                e("POP_TOP")
                e("POP_TOP")
                if preserve:
                    e("ROT_FOUR")
                e("POP_EXCEPT")
        elif kind == "with":
            e("POP_BLOCK")
            if preserve:
                e("ROT_TWO")
            if self.version == (3, 8):
                e("BEGIN_FINALLY")
                e("WITH_CLEANUP_START")
                e("WITH_CLEANUP_FINISH")
                e("POP_FINALLY", 0)
            else:
                self.exit_with_nones()
                e("POP_TOP")
        elif kind == "handler":
            if self.version == (3, 8):
                if preserve:
                    e("ROT_FOUR")
                if fb[1] is not None:
                    e("POP_BLOCK")
                    e("POP_EXCEPT")
                    e("CALL_FINALLY", fb[1])
                else:
                    e("POP_EXCEPT")
            else:
                if fb[1]:
                    e("POP_BLOCK")
                if preserve:
                    e("ROT_FOUR")
                e("POP_EXCEPT")
                if fb[1]:
                    self.u.load_const(None)
                    self.store_name(fb[1])
                    self.name_op("DELETE", fb[1])
        elif kind == "pop_value":
            if preserve:
                e("ROT_TWO")
            e("POP_TOP")
        else:
            raise AssertionError(kind)

    def exit_with_nones(self):
        self.u.load_const(None)
        self.e("DUP_TOP")
        self.e("DUP_TOP")
        self.e("CALL_FUNCTION", 3)

    # -- loops
    def s_If(self, s):
        els, end = Label(), Label()
        self.cond_jump(s.test, els, False)
        self.body(s.body)
        if s.orelse or self.old_jumps():
            self.e("JUMP_FORWARD", end)
        self.cond_label(els)
        self.body(s.orelse)
        self.u.here(end)

    def s_While(self, s):
        u = self.u
        start, anchor, end = Label(), Label(), Label()
        old = not self.ge(3, 8)
        forever = isinstance(s.test, ast.Constant) and s.test.value is True
        if old:
            self.e("SETUP_LOOP", end)
        u.here(start)
        if not forever:
            self.cond_jump(s.test, anchor, False)
        fb = ("loop", start) if old else ("while", start, end)
        u.fblocks.append(fb)
        self.body(s.body)
        self.e("JUMP_ABSOLUTE", start)
        u.fblocks.pop()
        if not forever:
            self.cond_label(anchor)
            if old:
                self.e("POP_BLOCK")
        elif old and self.ge(3, 0):
            pass
        self.body(s.orelse)
        u.here(end)

    def s_For(self, s):
        u = self.u
        start, cleanup, end = Label(), Label(), Label()
        old = not self.ge(3, 8)
        if old:
            self.e("SETUP_LOOP", end)
        self.expr(s.iter)
        self.e("GET_ITER")
        u.here(start)
        self.e("FOR_ITER", cleanup)
        fb = ("loop", start) if old else ("for", start, end)
        u.fblocks.append(fb)
        self.store(s.target)
        self.body(s.body)
        self.e("JUMP_ABSOLUTE", start)
        u.fblocks.pop()
        u.here(cleanup)
        if old:
            self.e("POP_BLOCK")
        self.body(s.orelse)
        u.here(end)

    def s_Break(self, s):
        if not self.ge(3, 8):
            self.e("BREAK_LOOP")
            return
        fb = [f for f in self.u.fblocks if f[0] in ("for", "while")][-1]
        self.unwind_all(False, stop=fb)
        # leave the loop itself
        saved = list(self.u.fblocks)
        self.u.fblocks = self.u.fblocks[: self.u.fblocks.index(fb)]
        self.unwind(fb, False)
        self.u.fblocks = saved
        self.e("JUMP_ABSOLUTE", fb[2])

    def s_Continue(self, s):
        if not self.ge(3, 8):
            top = self.u.fblocks[-1]
            if top[0] == "loop":
                self.e("JUMP_ABSOLUTE", top[1])
                return
            for fb in reversed(self.u.fblocks):
                if fb[0] == "loop":
                    break
                if fb[0] == "finally_end":
                    raise CompileUnsupported("continue in finally")
            self.e("CONTINUE_LOOP", fb[1])
            return
        fb = [f for f in self.u.fblocks if f[0] in ("for", "while")][-1]
        self.unwind_all(False, stop=fb)
        self.e("JUMP_ABSOLUTE", fb[1])

    # -- try
    def s_Try(self, s):
        if s.finalbody:
            if s.handlers or s.orelse:
                inner = lambda: self.try_except(s)
                if self.version < (2, 5):
                    # one statement only since 2.5; nested ones mean the same
                    pass
            else:
                inner = lambda: self.body(s.body)
            self.try_finally(s, inner)
        else:
            self.try_except(s)

    def try_finally(self, s, inner):
        u, e = self.u, self.e
        end, exit_ = Label(), Label()
        if not self.ge(3, 8):
            e("SETUP_FINALLY", end)
            u.fblocks.append(("finally_try",))
            inner()
            e("POP_BLOCK")
            u.fblocks.pop()
            u.load_const(None)
            u.here(end)
            u.fblocks.append(("finally_end",))
            self.body(s.finalbody)
            e("END_FINALLY")
            u.fblocks.pop()
        elif self.version == (3, 8):
            # A break, continue or return inside the finally body makes it "try2".
            leaves = any(self.leaves(x) for x in s.finalbody)
            if leaves:
                u.load_const(None)
                e("SETUP_FINALLY", end)
                u.fblocks.append(("finally_try2", end))
                inner()
                e("POP_BLOCK")
                e("BEGIN_FINALLY")
                u.fblocks.pop()
                u.here(end)
                u.fblocks.append(("pop_value",))
                u.fblocks.append(("finally_end", end))
                self.body(s.finalbody)
                e("END_FINALLY")
                e("POP_TOP")
                u.fblocks.pop()
                u.fblocks.pop()
            else:
                e("SETUP_FINALLY", end)
                u.fblocks.append(("finally_try", end))
                inner()
                e("POP_BLOCK")
                e("BEGIN_FINALLY")
                u.fblocks.pop()
                u.here(end)
                u.fblocks.append(("finally_end", end))
                self.body(s.finalbody)
                e("END_FINALLY")
                u.fblocks.pop()
        else:
            e("SETUP_FINALLY", end)
            u.fblocks.append(("finally_try", end, s.finalbody))
            inner()
            e("POP_BLOCK")
            u.fblocks.pop()
            self.body(s.finalbody)
            e("JUMP_FORWARD", exit_)
            u.here(end)
            u.fblocks.append(("finally_end", end))
            self.body(s.finalbody)
            u.fblocks.pop()
            self.reraise(0)
            u.here(exit_)

    def leaves(self, node, in_loop=False):
        if isinstance(node, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            return False
        if isinstance(node, ast.Return):
            return True
        if isinstance(node, (ast.Break, ast.Continue)):
            return not in_loop
        if isinstance(node, (ast.For, ast.While)):
            return any(self.leaves(c, True) for c in node.body) or \
                any(self.leaves(c, in_loop) for c in node.orelse)
        return any(self.leaves(c, in_loop) for c in ast.iter_child_nodes(node))

    def reraise(self, arg):
        if self.ge(3, 10):
            self.e("RERAISE", arg)
        else:
            self.e("RERAISE")

    def try_except(self, s):
        u, e = self.u, self.e
        handlers, orelse, end = Label(), Label(), Label()
        e("SETUP_FINALLY" if self.ge(3, 8) else "SETUP_EXCEPT", handlers)
        u.fblocks.append(("except",))
        self.body(s.body)
        e("POP_BLOCK")
        u.fblocks.pop()
        e("JUMP_FORWARD", orelse)
        u.here(handlers)
        for h in s.handlers:
            self.handler(h, end)
        if self.ge(3, 9):
            self.reraise(0)
        else:
            e("END_FINALLY")
        u.here(orelse)
        self.body(s.orelse)
        u.here(end)

    def handler(self, h, end):
        u, e = self.u, self.e
        u.lineno = h.lineno
        nxt = Label()
        if h.type is not None:
            e("DUP_TOP")
            self.expr(h.type)
            if self.ge(3, 9):
                e("JUMP_IF_NOT_EXC_MATCH", nxt)
            else:
                e("COMPARE_OP", EXC_MATCH)
                self.pop_jump(nxt, False)
        e("POP_TOP")
        py3 = self.ge(3, 0)
        if h.name is None:
            e("POP_TOP")
            e("POP_TOP")
            if self.ge(3, 8):
                u.fblocks.append(("handler", None))
            else:
                u.fblocks.append(("finally_try",) if py3 else ("except",))
            if not py3:
                u.fblocks.pop()
            self.body(h.body)
            if py3:
                u.fblocks.pop()
                e("POP_EXCEPT")
        elif not py3:
            self.store_name(h.name)
            e("POP_TOP")
            self.body(h.body)
        elif not self.ge(3, 9):
            cleanup = Label()
            self.store_name(h.name)
            e("POP_TOP")
            e("SETUP_FINALLY", cleanup)
            u.fblocks.append(("handler", cleanup) if self.ge(3, 8) else ("finally_try",))
            self.body(h.body)
            e("POP_BLOCK")
            if self.ge(3, 8):
                e("BEGIN_FINALLY")
            else:
                if self.pop_except_early():
                    e("POP_EXCEPT")
                u.load_const(None)
            u.fblocks.pop()
            u.here(cleanup)
            u.fblocks.append(("finally_end", cleanup))
            u.load_const(None)
            self.store_name(h.name)
            self.name_op("DELETE", h.name)
            e("END_FINALLY")
            if self.ge(3, 8) or not self.pop_except_early():
                e("POP_EXCEPT")
            u.fblocks.pop()
        else:
            cleanup = Label()
            self.store_name(h.name)
            e("POP_TOP")
            e("SETUP_FINALLY", cleanup)
            u.fblocks.append(("handler", h.name))
            self.body(h.body)
            u.fblocks.pop()
            e("POP_BLOCK")
            e("POP_EXCEPT")
            u.load_const(None)
            self.store_name(h.name)
            self.name_op("DELETE", h.name)
            e("JUMP_FORWARD", end)
            u.here(cleanup)
            u.load_const(None)
            self.store_name(h.name)
            self.name_op("DELETE", h.name)
            self.reraise(1)
            if h.type is not None:
                u.here(nxt)
            return
        e("JUMP_FORWARD", end)
        if h.type is not None:
            u.here(nxt)
            if self.old_jumps():
                e("POP_TOP")

    def pop_except_early(self):
        return self.version < (3, 7) and not self.pypy

    def s_With(self, s):
        if len(s.items) > 1:
            inner = ast.With(items=s.items[1:], body=s.body)
            ast.copy_location(inner, s)
            outer = ast.With(items=s.items[:1], body=[inner])
            ast.copy_location(outer, s)
            return self.s_With(outer)
        if self.version < (2, 5):
            raise CompileUnsupported("with")
        u, e = self.u, self.e
        item = s.items[0]
        L, L2, end = Label(), Label(), Label()
        if self.version < (2, 6) or self.version == (3, 1):
            self.expr(item.context_expr)
            e("DUP_TOP")
            e("LOAD_ATTR", u.name("__exit__"))
            self.store_name(s._tmp_exit)
            e("LOAD_ATTR", u.name("__enter__"))
            e("CALL_FUNCTION", 0)
            if item.optional_vars is not None:
                self.store_name(s._tmp_val)
            else:
                e("POP_TOP")
            e("SETUP_FINALLY", L)
            u.fblocks.append(("finally_try",))
            if item.optional_vars is not None:
                self.load_name(s._tmp_val)
                self.name_op("DELETE", s._tmp_val)
                self.store(item.optional_vars)
            self.body(s.body)
            e("POP_BLOCK")
            u.fblocks.pop()
            u.load_const(None)
            u.here(L)
            self.load_name(s._tmp_exit)
            self.name_op("DELETE", s._tmp_exit)
            e("WITH_CLEANUP")
            e("END_FINALLY")
            return
        if self.version < (2, 7):
            self.expr(item.context_expr)
            e("DUP_TOP")
            e("LOAD_ATTR", u.name("__exit__"))
            e("ROT_TWO")
            e("LOAD_ATTR", u.name("__enter__"))
            e("CALL_FUNCTION", 0)
            if item.optional_vars is None:
                e("POP_TOP")
                e("SETUP_FINALLY", L)
            else:
                # 2.6 keeps the entered value in a hidden local
                if not hasattr(s, "_tmp_val"):
                    u._wtmp = getattr(u, "_wtmp", 0) + 1
                    s._tmp_val = "_[w%d]" % u._wtmp
                self.store_name(s._tmp_val)
                e("SETUP_FINALLY", L)
            u.fblocks.append(("finally_try",))
            if item.optional_vars is not None:
                self.load_name(s._tmp_val)
                self.name_op("DELETE", s._tmp_val)
                self.store(item.optional_vars)
            self.body(s.body)
            e("POP_BLOCK")
            u.fblocks.pop()
            u.load_const(None)
            u.here(L)
            e("WITH_CLEANUP")
            e("END_FINALLY")
            return
        self.expr(item.context_expr)
        e("SETUP_WITH", L)
        u.fblocks.append(("with", L))
        if item.optional_vars is None:
            e("POP_TOP")
        else:
            self.store(item.optional_vars)
        self.body(s.body)
        e("POP_BLOCK")
        u.fblocks.pop()
        if self.version == (3, 8):
            e("BEGIN_FINALLY")
        elif not self.ge(3, 8):
            u.load_const(None)
        if not self.ge(3, 9):
            u.here(L)
            u.fblocks.append(("finally_end", L))
            if self.ge(3, 5):
                e("WITH_CLEANUP_START")
                e("WITH_CLEANUP_FINISH")
            else:
                e("WITH_CLEANUP")
            e("END_FINALLY")
            u.fblocks.pop()
            return
        u.lineno = s.lineno
        self.exit_with_nones()
        e("POP_TOP")
        e("JUMP_FORWARD", end)
        u.here(L)
        e("WITH_EXCEPT_START")
        e("POP_JUMP_IF_TRUE", L2)
        self.reraise(1)
        u.here(L2)
        for _ in range(3):
            e("POP_TOP")
        e("POP_EXCEPT")
        e("POP_TOP")
        u.here(end)

    def s_Raise(self, s):
        if s.exc is None:
            self.e("RAISE_VARARGS", 0)
            return
        if not self.ge(3, 0) and isinstance(s.exc, ast.Call) and isinstance(s.exc.func, ast.Name) \
                and s.exc.func.id == "raise_":
            for a in s.exc.args:
                self.expr(a)
            self.e("RAISE_VARARGS", len(s.exc.args))
            return
        self.expr(s.exc)
        n = 1
        if s.cause is not None:
            if not self.ge(3, 0):
                raise CompileUnsupported("raise from")
            self.expr(s.cause)
            n = 2
        self.e("RAISE_VARARGS", n)

    def s_Assert(self, s):
        end = Label()
        if self.pypy and not self.ge(3, 6):
            self.e("JUMP_IF_NOT_DEBUG", end)
        self.cond_jump(s.test, end, True)
        if self.ge(3, 9):
            self.e("LOAD_ASSERTION_ERROR")
        else:
            self.e("LOAD_GLOBAL", self.u.name("AssertionError"))
        n = 1
        if s.msg is not None:
            self.expr(s.msg)
            if self.ge(2, 7):
                self.e("CALL_FUNCTION", 1)
            else:
                n = 2
        self.e("RAISE_VARARGS", n)
        self.cond_label(end)

    def s_Import(self, s):
        for a in s.names:
            if self.ge(2, 5):
                self.u.load_const(0 if self.ge(3, 0) else -1)
            self.u.load_const(None)
            self.e("IMPORT_NAME", self.u.name(a.name))
            parts = a.name.split(".")
            if a.asname and len(parts) > 1:
                for n, p in enumerate(parts[1:]):
                    if self.ge(3, 7):
                        self.e("IMPORT_FROM", self.u.name(p))
                        if n < len(parts) - 2:
                            self.e("ROT_TWO")
                            self.e("POP_TOP")
                    else:
                        self.e("LOAD_ATTR", self.u.name(p))
                self.store_name(a.asname)
                if self.ge(3, 7):
                    self.e("POP_TOP")
            else:
                self.store_name(a.asname or parts[0])

    def s_ImportFrom(self, s):
        if self.ge(2, 5):
            self.u.load_const(s.level if s.level else (0 if self.ge(3, 0) else -1))
        self.u.load_const(tuple(a.name for a in s.names))
        self.e("IMPORT_NAME", self.u.name(s.module or ""))
        if s.names[0].name == "*":
            self.e("IMPORT_STAR")
            return
        for a in s.names:
            self.e("IMPORT_FROM", self.u.name(a.name))
            self.store_name(a.asname or a.name)
        self.e("POP_TOP")

    # -- functions and classes
    def s_FunctionDef(self, s):
        for d in s.decorator_list:
            self.expr(d)
        self.function(s, s.name, s.body)
        for d in s.decorator_list:
            self.e("CALL_FUNCTION", 1)
        self.store_name(s.name)

    def function(self, node, name, body):
        a = node.args
        flags = 0
        kwpairs = [(p.arg, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        notes = annotations(node)
        if (a.kwonlyargs or notes) and not self.ge(3, 0):
            raise CompileUnsupported("keyword-only parameter or annotation")
        if self.ge(3, 6):
            if a.defaults:
                if self.ge(3, 0) and all(isinstance(d, ast.Constant) for d in a.defaults):
                    self.u.load_const(tuple(d.value for d in a.defaults))
                else:
                    for d in a.defaults:
                        self.expr(d)
                    self.e("BUILD_TUPLE", len(a.defaults))
                flags |= 1
            if kwpairs:
                for _, d in kwpairs:
                    self.expr(d)
                self.u.load_const(tuple(k for k, _ in kwpairs))
                self.e("BUILD_CONST_KEY_MAP", len(kwpairs))
                flags |= 2
            if notes:
                if self.ge(3, 10):
                    for n, x in notes:
                        self.u.load_const(n)
                        self.expr(x)
                    self.e("BUILD_TUPLE", 2 * len(notes))
                else:
                    for _, x in notes:
                        self.expr(x)
                    self.u.load_const(tuple(n for n, _ in notes))
                    self.e("BUILD_CONST_KEY_MAP", len(notes))
                flags |= 4
        else:
            def positional():
                for d in a.defaults:
                    self.expr(d)

            if self.ge(3, 4):
                positional()
            elif not (all(quiet(d) for _, d in kwpairs) or all(quiet(d) for d in a.defaults)):
                raise CompileUnsupported("order of defaults")
            for k, d in kwpairs:
                self.u.load_const(k)
                self.expr(d)
            if not self.ge(3, 4):
                positional()
            for _, x in notes:
                self.expr(x)
            if notes:
                self.u.load_const(tuple(n for n, _ in notes))
            flags = len(a.defaults) | len(kwpairs) << 8 | (len(notes) + 1 if notes else 0) << 16
        scope = self.u.scope.children[node]
        qual = self.qualname(name)
        line = node.lineno
        if isinstance(node, ast.FunctionDef) and node.decorator_list:
            line = node.decorator_list[0].lineno
        self.enter(scope, name, line, qual)
        if isinstance(body, list):
            self.u.const(ast.get_docstring(node, clean=False))
            if self.ge(3, 10) and scope.is_generator:
                self.e("GEN_START", 0)
            self.body(body)
            self.u.implicit_return()
        else:
            # (no docstring)
            self.u.const(None)
            self.expr(body)
            self.e("RETURN_VALUE")
        code = self.leave()
        self.make_closure(code, scope, flags, qual)

    def make_closure(self, code, scope, flags, qual):
        u, e = self.u, self.e
        if self.ge(3, 6):
            if scope.free:
                for n in code.co_freevars:
                    e("LOAD_CLOSURE", u.deref(n))
                e("BUILD_TUPLE", len(code.co_freevars))
                flags |= 8
            u.load_const(code)
            u.load_const(qual)
            e("MAKE_FUNCTION", flags)
            return
        if scope.free:
            for n in code.co_freevars:
                e("LOAD_CLOSURE", u.deref(n))
            if self.ge(2, 5):
                e("BUILD_TUPLE", len(code.co_freevars))
        u.load_const(code)
        if self.ge(3, 3):
            u.load_const(qual)
        e("MAKE_CLOSURE" if scope.free else "MAKE_FUNCTION", flags)

    def s_ClassDef(self, s):
        u, e = self.u, self.e
        scope = u.scope.children[s]
        qual = self.qualname(s.name)
        for d in s.decorator_list:
            self.expr(d)
        meta = None
        if s.keywords and not self.ge(3, 0):
            # class C(metaclass=M) was spelled __metaclass__ = M in the body
            meta = s.keywords[0]
            if len(s.keywords) > 1 or meta.arg != "metaclass" or not isinstance(meta.value, ast.Name):
                raise CompileUnsupported("class keywords")
        if any(k.arg is None for k in s.keywords):
            raise CompileUnsupported("class keywords")
        if not self.ge(3, 0):
            u.load_const(s.name)
            for b in s.bases:
                self.expr(b)
            e("BUILD_TUPLE", len(s.bases))
        else:
            e("LOAD_BUILD_CLASS")
        self.enter(scope, s.name, s.lineno, qual)
        u = self.u
        if self.ge(3, 0) and not self.ge(3, 4):
            scope.params.append("__locals__")
            u.varnames.insert(0, "__locals__")
            e("LOAD_FAST", 0)
            e("STORE_LOCALS")
        e("LOAD_NAME", u.name("__name__"))
        e("STORE_NAME", u.name("__module__"))
        if self.ge(3, 3):
            u.load_const(qual)
            e("STORE_NAME", u.name("__qualname__"))
        if scope.annotated:
            e("SETUP_ANNOTATIONS")
        if meta is not None:
            self.expr(meta.value)
            e("STORE_NAME", u.name("__metaclass__"))
        self.docstring(s)
        self.body(s.body)
        if not self.ge(3, 0):
            e("LOAD_LOCALS")
        elif scope.needs_class_cell:
            e("LOAD_CLOSURE", u.deref("__class__"))
            if self.ge(3, 6):
                e("DUP_TOP")
                e("STORE_NAME", u.name("__classcell__"))
        else:
            u.load_const(None)
        e("RETURN_VALUE")
        code = self.leave()
        u = self.u
        if not self.ge(3, 0):
            self.make_closure(code, scope, 0, qual)
            e("CALL_FUNCTION", 0)
            e("BUILD_CLASS")
        else:
            # class body function name is the class name
            self.make_closure(code, scope, 0, s.name)
            u.load_const(s.name)
            for b in s.bases:
                self.expr(b)
            n = 2 + len(s.bases)
            if not s.keywords:
                e("CALL_FUNCTION", n)
            elif self.ge(3, 7 if self.pypy else 6):
                for k in s.keywords:
                    self.expr(k.value)
                u.load_const(tuple(k.arg for k in s.keywords))
                e("CALL_FUNCTION_KW", n + len(s.keywords))
            else:
                for k in s.keywords:
                    u.load_const(k.arg)
                    self.expr(k.value)
                e("CALL_FUNCTION", n | len(s.keywords) << 8)
        for d in s.decorator_list:
            e("CALL_FUNCTION", 1)
        self.store_name(s.name)

    # ----------------------------------------------------------- expressions
    def expr(self, x):
        m = getattr(self, "e_" + type(x).__name__, None)
        if m is None:
            raise CompileUnsupported(type(x).__name__)
        ln = self.u.lineno
        if self.ge(3, 8) and x.lineno != ln:
            self.u.lineno = x.lineno
            m(x)
            self.u.lineno = ln
        else:
            m(x)

    def e_Constant(self, x):
        v = x.value
        if not self.ge(3, 0) and (v is True or v is False):
            self.load_name("True" if v else "False")
            return
        if v is Ellipsis and not self.ge(3, 0):
            raise CompileUnsupported("Ellipsis")
        self.u.load_const(v)

    def e_Name(self, x):
        self.load_name(x.id)

    def e_Attribute(self, x):
        self.expr(x.value)
        self.e("LOAD_ATTR", self.attr(x.attr, x.value))

    def e_Subscript(self, x):
        self.subscript(x, "LOAD")

    def e_BinOp(self, x):
        self.expr(x.left)
        self.expr(x.right)
        op = BINOPS[type(x.op)]
        if op == "TRUE_DIVIDE" and not self.ge(3, 0):
            op = "DIVIDE"
        self.e("BINARY_" + op)

    def e_UnaryOp(self, x):
        self.expr(x.operand)
        self.e("UNARY_" + UNOPS[type(x.op)])

    def e_BoolOp(self, x):
        end = Label()
        is_or = isinstance(x.op, ast.Or)
        for v in x.values[:-1]:
            self.expr(v)
            if self.old_jumps():
                self.e("JUMP_IF_TRUE" if is_or else "JUMP_IF_FALSE", end)
                self.e("POP_TOP")
            else:
                self.e("JUMP_IF_TRUE_OR_POP" if is_or else "JUMP_IF_FALSE_OR_POP", end)
        self.expr(x.values[-1])
        self.u.here(end)

    def e_IfExp(self, x):
        els, end = Label(), Label()
        self.cond_jump(x.test, els, False)
        self.expr(x.body)
        self.e("JUMP_FORWARD", end)
        self.cond_label(els)
        self.expr(x.orelse)
        self.u.here(end)

    def compare_op(self, op):
        if self.ge(3, 9):
            if isinstance(op, (ast.Is, ast.IsNot)):
                return self.e("IS_OP", int(isinstance(op, ast.IsNot)))
            if isinstance(op, (ast.In, ast.NotIn)):
                return self.e("CONTAINS_OP", int(isinstance(op, ast.NotIn)))
        self.e("COMPARE_OP", CMPOPS[type(op)])

    def e_Compare(self, x):
        self.expr(x.left)
        if len(x.ops) == 1:
            self.expr(x.comparators[0])
            self.compare_op(x.ops[0])
            return
        cleanup, end = Label(), Label()
        for op, c in list(zip(x.ops, x.comparators))[:-1]:
            self.expr(c)
            self.e("DUP_TOP")
            self.e("ROT_THREE")
            self.compare_op(op)
            if self.old_jumps():
                self.e("JUMP_IF_FALSE", cleanup)
                self.e("POP_TOP")
            else:
                self.e("JUMP_IF_FALSE_OR_POP", cleanup)
        self.expr(x.comparators[-1])
        self.compare_op(x.ops[-1])
        self.e("JUMP_FORWARD", end)
        self.u.here(cleanup)
        self.e("ROT_TWO")
        self.e("POP_TOP")
        self.u.here(end)

    def e_Tuple(self, x):
        self.sequence(x, "TUPLE")

    def e_List(self, x):
        self.sequence(x, "LIST")

    def e_Set(self, x):
        if not self.ge(2, 7):
            raise CompileUnsupported("set display")
        self.sequence(x, "SET")

    def sequence(self, x, what):
        if any(isinstance(i, ast.Starred) for i in x.elts):
            return self.unpacked(x.elts, what)
        const = all(isinstance(i, ast.Constant) for i in x.elts)
        if what == "TUPLE" and const and self.ge(2, 5):
            if self.ge(3, 0) or not any(i.value in (True, False) and isinstance(i.value, bool) for i in x.elts):
                self.u.load_const(tuple(i.value for i in x.elts))
                return
        if what != "TUPLE" and const and self.ge(3, 9) and len(x.elts) > 2:
            self.e("BUILD_" + what, 0)
            items = tuple(i.value for i in x.elts)
            self.u.load_const(items if what == "LIST" else frozenset(items))
            self.e("LIST_EXTEND" if what == "LIST" else "SET_UPDATE", 1)
            return
        for i in x.elts:
            self.expr(i)
        self.e("BUILD_" + what, len(x.elts))

    def unpacked(self, elts, what, call=False):
        """a display or argument list with starred elements"""
        if not self.ge(3, 5):
            raise CompileUnsupported("starred display")
        n = 0
        if self.ge(3, 9):
            build, add, extend = ("SET", "SET_ADD", "SET_UPDATE") if what == "SET" else ("LIST", "LIST_APPEND", "LIST_EXTEND")
            built = False
            for i in elts:
                if isinstance(i, ast.Starred):
                    if not built:
                        self.e("BUILD_" + build, n)
                        built = True
                    self.expr(i.value)
                    self.e(extend, 1)
                else:
                    self.expr(i)
                    if built:
                        self.e(add, 1)
                    else:
                        n += 1
            if what == "TUPLE":
                self.e("LIST_TO_TUPLE")
            return
        first = [isinstance(i, ast.Starred) for i in elts].index(True)
        if not all(quiet(i.value if isinstance(i, ast.Starred) else i) for i in elts[first + 1:]):
            # These compilers evaluate all the elements before they iterate.
            raise CompileUnsupported("order of unpacking")
        if what == "SET" and not all(isinstance(i, ast.Constant) for i in elts[first + 1:]):
            # ... and hash and compare those that are not starred.
            raise CompileUnsupported("order of unpacking")
        parts = 0
        inner = "SET" if what == "SET" else "TUPLE"
        for i in elts:
            if isinstance(i, ast.Starred):
                if n:
                    self.e("BUILD_" + inner, n)
                    n = 0
                    parts += 1
                self.expr(i.value)
                parts += 1
            else:
                self.expr(i)
                n += 1
        if n:
            self.e("BUILD_" + inner, n)
            parts += 1
        if not call:
            self.e("BUILD_%s_UNPACK" % what, parts)
        elif parts > 1:
            self.e("BUILD_TUPLE_UNPACK" if self.pypy else "BUILD_TUPLE_UNPACK_WITH_CALL", parts)

    def subdict(self, keys, values):
        n = len(keys)
        if self.ge(3, 6) and n > (0 if self.pypy and self.ge(3, 7) else 1) and all(isinstance(k, ast.Constant) for k in keys):
            for v in values:
                self.expr(v)
            self.u.load_const(tuple(k.value for k in keys))
            self.e("BUILD_CONST_KEY_MAP", n)
            return
        for k, v in zip(keys, values):
            self.expr(k)
            self.expr(v)
        self.e("BUILD_MAP", n)

    def merged(self, keys, values, call=False):
        """a dict display, or keyword arguments, with ** elements"""
        if not self.ge(3, 5):
            raise CompileUnsupported("dict unpacking")
        groups = []     # lists of keys and values between the ** elements
        for k, v in zip(keys, values):
            if k is None:
                groups.append(v)
            elif groups and isinstance(groups[-1], tuple):
                groups[-1][0].append(k)
                groups[-1][1].append(v)
            else:
                groups.append(([k], [v]))
        if self.ge(3, 9):
            have = False
            op = "DICT_MERGE" if call else "DICT_UPDATE"
            for g in groups:
                if isinstance(g, tuple):
                    self.subdict(*g)
                    if have:
                        self.e(op, 1)
                else:
                    if not have:
                        self.e("BUILD_MAP", 0)
                    self.expr(g)
                    self.e(op, 1)
                have = True
            return
        first = keys.index(None)
        if not all(quiet(v) for v in values[first + 1:]):
            raise CompileUnsupported("order of unpacking")
        for g in groups:
            if isinstance(g, tuple):
                self.subdict(*g)
            else:
                self.expr(g)
        if not call:
            self.e("BUILD_MAP_UNPACK", len(groups))
        elif len(groups) > 1:
            self.e("BUILD_MAP_UNPACK_WITH_CALL", len(groups))

    def e_Dict(self, x):
        if any(k is None for k in x.keys):
            return self.merged(x.keys, x.values)
        n = len(x.keys)
        if self.ge(3, 5):
            self.subdict(x.keys, x.values)
            return
        # older compilers evaluate the value before the key
        self.e("BUILD_MAP", n if self.ge(2, 6) else 0)
        for k, v in zip(x.keys, x.values):
            if not isinstance(k, ast.Constant):
                raise CompileUnsupported("key/value order")
            if self.ge(2, 6):
                self.expr(v)
                self.expr(k)
                self.e("STORE_MAP")
            else:
                self.e("DUP_TOP")
                self.expr(v)
                self.e("ROT_TWO")
                self.expr(k)
                self.e("STORE_SUBSCR")

    def e_JoinedStr(self, x):
        if not self.ge(3, 5 if self.pypy else 6):
            raise CompileUnsupported("f-string")
        for v in x.values:
            if isinstance(v, ast.Constant):
                self.u.load_const(v.value)
            else:
                self.expr(v.value)
                flags = {-1: 0, 115: 1, 114: 2, 97: 3}[v.conversion]
                if v.format_spec is not None:
                    self.expr(v.format_spec)
                    flags |= 4
                self.e("FORMAT_VALUE", flags)
        if len(x.values) != 1:
            self.e("BUILD_STRING", len(x.values))

    def e_Lambda(self, x):
        self.function(x, "<lambda>", x.body)

    def e_NamedExpr(self, x):
        if not self.ge(3, 8):
            raise CompileUnsupported("assignment expression")
        self.expr(x.value)
        self.e("DUP_TOP")
        self.store_name(x.target.id)

    def e_Yield(self, x):
        if self.version < (2, 5):
            raise CompileUnsupported("yield expression")
        if x.value is None:
            self.u.load_const(None)
        else:
            self.expr(x.value)
        self.e("YIELD_VALUE")

    def e_YieldFrom(self, x):
        if not self.ge(3, 3):
            raise CompileUnsupported("yield from")
        self.expr(x.value)
        self.e("GET_YIELD_FROM_ITER" if self.ge(3, 5) else "GET_ITER")
        self.u.load_const(None)
        self.e("YIELD_FROM")

    def e_Call(self, x):
        if not self.ge(3, 0) and isinstance(x.func, ast.Name) and x.func.id == "convert_":
            self.expr(x.args[0])
            self.e("UNARY_CONVERT")
            return
        star = [a for a in x.args if isinstance(a, ast.Starred)]
        dstar = [k for k in x.keywords if k.arg is None]
        kws = [k for k in x.keywords if k.arg is not None]
        pos = [a for a in x.args if not isinstance(a, ast.Starred)]
        shape = len(star) > 1 or len(dstar) > 1 or (star and x.args[-1] is not star[0]) or \
            (dstar and x.keywords[-1] is not dstar[0])
        if shape and not self.ge(3, 5):
            raise CompileUnsupported("call shape")
        if self.pypy:
            loud = not all(isinstance(a.value, (ast.List, ast.Tuple)) for a in star)
            if loud and dstar and not self.ge(3, 7):
                # PyPy reads * before **, unlike CPython
                if self.version == (3, 6) or not all(isinstance(k.value, ast.Dict) for k in dstar):
                    raise CompileUnsupported("order of unpacking")
            if loud and self.version == (3, 6) and not all(quiet(k.value) for k in kws):
                # ... and reads * when it calls, like 3.5 and unlike 3.6
                raise CompileUnsupported("order of unpacking")
            if dstar and self.version == (3, 6) and x.keywords[0].arg is not None:
                # ... and ** all before it looks for keywords given twice
                raise CompileUnsupported("order of unpacking")
            if not star and not dstar and isinstance(x.func, ast.Attribute):
                return self.call_method(x, pos, kws)
        elif self.ge(3, 7) and not star and not dstar and not kws and isinstance(x.func, ast.Attribute):
            self.expr(x.func.value)
            self.e("LOAD_METHOD", self.u.name(x.func.attr))
            for a in pos:
                self.expr(a)
            self.e("CALL_METHOD", len(pos))
            return
        self.expr(x.func)
        if not self.ge(3, 5):
            for a in pos:
                self.expr(a)
            for k in kws:
                self.u.load_const(k.arg)
                self.expr(k.value)
            for a in star:
                self.expr(a.value)
            for k in dstar:
                self.expr(k.value)
            op = "CALL_FUNCTION" + ("_VAR" if star else "") + ("_KW" if dstar else "")
            self.e(op, len(pos) | len(kws) << 8)
            return
        if not self.ge(3, 7 if self.pypy else 6):
            return self.call35(x, star, dstar)
        if not star and not dstar:
            for a in pos:
                self.expr(a)
            for k in kws:
                self.expr(k.value)
            if kws:
                self.u.load_const(tuple(k.arg for k in kws))
                self.e("CALL_FUNCTION_KW", len(pos) + len(kws))
            else:
                self.e("CALL_FUNCTION", len(pos))
            return
        if star and len(x.args) == 1:
            self.expr(star[0].value)
        elif star:
            self.unpacked(x.args, "TUPLE", call=True)
        else:
            for a in pos:
                self.expr(a)
            self.e("BUILD_TUPLE", len(pos))
        if x.keywords:
            keys = [ast.Constant(k.arg, lineno=x.lineno) if k.arg else None for k in x.keywords]
            values = [k.value for k in x.keywords]
            if dstar:
                self.merged(keys, values, call=True)
            else:
                self.subdict(keys, values)
        self.e("CALL_FUNCTION_EX", 1 if x.keywords else 0)

    def call_method(self, x, pos, kws):
        self.expr(x.func.value)
        self.e("LOOKUP_METHOD", self.attr(x.func.attr, x.func.value))
        for a in pos:
            self.expr(a)
        for k in kws:
            if not self.ge(3, 7):
                self.u.load_const(k.arg)
            self.expr(k.value)
        if not self.ge(3, 7):
            self.e("CALL_METHOD", len(pos) | len(kws) << 8)
        elif kws:
            self.u.load_const(tuple(k.arg for k in kws))
            self.e("CALL_METHOD_KW", len(pos) + len(kws))
        else:
            self.e("CALL_METHOD", len(pos))

    def call35(self, x, star, dstar):
        """3.5 puts the unpacked arguments below the keyword arguments."""
        if star:
            first = x.args.index(star[0])
            if len(star) > 1 or first < len(x.args) - 1:
                rest = [a.value if isinstance(a, ast.Starred) else a for a in x.args[first + 1:]]
                if not all(quiet(a) for a in rest):
                    raise CompileUnsupported("order of unpacking")
        n = seen = parts = 0
        for a in x.args:
            if isinstance(a, ast.Starred):
                if seen:
                    self.e("BUILD_LIST", seen)
                    seen = 0
                    parts += 1
                self.expr(a.value)
                parts += 1
            else:
                self.expr(a)
                if parts:
                    seen += 1
                else:
                    n += 1
        if seen:
            self.e("BUILD_LIST", seen)
            parts += 1
        if parts > 1:
            self.e("BUILD_LIST_UNPACK", parts)
        nkw = seen = maps = 0
        if dstar:
            first = x.keywords.index(dstar[0])
            if not all(quiet(k.value) for k in x.keywords[first + 1:]):
                raise CompileUnsupported("order of unpacking")
        for k in x.keywords:
            if k.arg is None:
                if seen:
                    self.e("BUILD_MAP", seen)
                    seen = 0
                    maps += 1
                self.expr(k.value)
                maps += 1
            else:
                self.u.load_const(k.arg)
                self.expr(k.value)
                if maps:
                    seen += 1
                else:
                    nkw += 1
        if seen:
            self.e("BUILD_MAP", seen)
            maps += 1
        if maps > 1:
            # The position of the function, counted from the first of the maps.
            self.e("BUILD_MAP_UNPACK_WITH_CALL", maps | (1 + n + (1 if parts else 0) + 2 * nkw) << 8)
        op = "CALL_FUNCTION" + ("_VAR" if star else "") + ("_KW" if dstar else "")
        self.e(op, n | nkw << 8)

    # -- comprehensions
    def e_ListComp(self, x):
        if not self.ge(3, 0):
            if self.ge(2, 7):
                if not self.from_arg(x):
                    self.e("BUILD_LIST", 0)
                self.comp_body(x, 0, "list", outer=True)
            else:
                self.e("BUILD_LIST", 0)
                self.e("DUP_TOP")
                self.store_name(x._tmp)
                self.comp_body(x, 0, "list24", outer=True)
                self.name_op("DELETE", x._tmp)
            return
        self.comp(x, "<listcomp>", "list")

    def from_arg(self, x):
        """PyPy makes some lists knowing what they are made from."""
        return self.pypy and isinstance(x, ast.ListComp) and len(x.generators) == 1 and \
            not x.generators[0].ifs and self.version not in ((3, 2), (3, 5))

    def e_SetComp(self, x):
        if not self.ge(2, 7):
            raise CompileUnsupported("set comprehension")
        self.comp(x, "<setcomp>", "set")

    def e_DictComp(self, x):
        if not self.ge(2, 7):
            raise CompileUnsupported("dict comprehension")
        self.comp(x, "<dictcomp>", "dict")

    def e_GeneratorExp(self, x):
        self.comp(x, "<genexpr>", "gen")

    def comp(self, x, name, kind):
        scope = self.u.scope.children[x]
        qual = self.qualname(name)
        self.enter(scope, name, x.lineno, qual)
        if kind == "gen":
            if self.ge(3, 10):
                self.e("GEN_START", 0)
        elif not self.from_arg(x):
            self.e({"list": "BUILD_LIST", "set": "BUILD_SET", "dict": "BUILD_MAP"}[kind], 0)
        self.comp_body(x, 0, kind)
        if kind == "gen":
            self.u.load_const(None)
        self.e("RETURN_VALUE")
        code = self.leave()
        self.make_closure(code, scope, 0, qual)
        self.expr(x.generators[0].iter)
        self.e("GET_ITER")
        self.e("CALL_FUNCTION", 1)

    def comp_body(self, x, i, kind, outer=False):
        g = x.generators[i]
        u, e = self.u, self.e
        start, end, end_block = Label(), Label(), Label()
        # 2.4 wraps generator expressions in SETUP_LOOP; later ones do not need it
        if i == 0 and not outer:
            e("LOAD_FAST", u.var(".0"))
            if self.from_arg(x):
                e("BUILD_LIST_FROM_ARG", 0)
        else:
            self.expr(g.iter)
            if outer and self.from_arg(x):
                e("BUILD_LIST_FROM_ARG", 0)
            e("GET_ITER")
        u.here(start)
        e("FOR_ITER", end)
        self.store(g.target)
        pops = []
        for c in g.ifs:
            lab = Label() if self.old_jumps() else start
            if self.pypy:
                self.cond_jump(c, lab, False)
            else:
                self.expr(c)
                self.pop_jump(lab, False)
            if self.old_jumps():
                pops.append(lab)
        if i + 1 < len(x.generators):
            self.comp_body(x, i + 1, kind, outer)
        else:
            depth = len(x.generators) + 1
            if kind == "gen":
                self.expr(x.elt)
                e("YIELD_VALUE")
                if self.ge(2, 5):
                    e("POP_TOP")
            elif kind == "list24":
                self.load_name(x._tmp)
                self.expr(x.elt)
                e("LIST_APPEND")
            elif kind == "list":
                self.expr(x.elt)
                e("LIST_APPEND", depth)
            elif kind == "set":
                self.expr(x.elt)
                e("SET_ADD", depth)
            else:
                if self.ge(3, 8):
                    self.expr(x.key)
                    self.expr(x.value)
                else:
                    # value first before 3.8
                    if not isinstance(x.key, (ast.Name, ast.Constant)):
                        raise CompileUnsupported("dict comprehension order")
                    self.expr(x.value)
                    self.expr(x.key)
                e("MAP_ADD", depth)
        e("JUMP_ABSOLUTE", start)
        for lab in reversed(pops):
            u.here(lab)
            e("POP_TOP")
            if len(pops) > 1 and lab is not pops[0]:
                e("JUMP_ABSOLUTE", start)
        if pops:
            e("JUMP_ABSOLUTE", start)
        u.here(end)


_last = [None, None]


def compile_for(source, version):
    """As `compile_source`; remembers the last result."""
    k = (source, version)
    if _last[0] != k:
        _last[1] = compile_source(source, version)
        _last[0] = k
    return _last[1]


def compile_source(source, version, filename="<sim>"):
    """Compile `source` to a code object for bytecode `version`.  For the host's own
    version the host compiler is used."""
    import sys

    if tuple(version[:2]) == sys.version_info[:2]:
        return compile(source, filename, "exec", dont_inherit=True)
    return Compiler(source, version, filename).compile()
