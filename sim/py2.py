"""What Python 2 means by print, / and raise with several arguments: the reference runs
on a host of Python 3, so these are spelled out in its copy of the program (and the
functions they are spelled out with are in every program's namespace)."""
import ast
import operator
import sys


def numbers(a, b):
    return type(a) in (int, bool) and type(b) in (int, bool)


def div(a, b):
    return a // b if numbers(a, b) else a / b


def idiv(a, b):
    return a // b if numbers(a, b) else operator.itruediv(a, b)


class Aug:
    """obj.name /= x and obj[key] /= x"""

    def __init__(self, obj, key, get, put):
        self.obj, self.key, self.put = obj, key, put
        self.value = get(obj, key)

    def div(self, x):
        self.put(self.obj, self.key, idiv(self.value, x))


def augattr(obj, name):
    return Aug(obj, name, getattr, setattr)


def augitem(obj, key):
    return Aug(obj, key, operator.getitem, operator.setitem)


def softspace(to, value):
    try:
        old = to.softspace
    except Exception:
        old = 0
    try:
        to.softspace = value
    except Exception:
        pass
    return old


class Print:
    """A print statement (Python/ceval.c of 2.7, PRINT_ITEM and PRINT_NEWLINE)."""

    def __init__(self, to=None):
        self.to = to

    def stream(self):
        return sys.stdout if self.to is None else self.to

    def item(self, x):
        to = self.stream()
        if softspace(to, 0):
            to.write(" ")
        write = to.write
        write(str(x))
        if not isinstance(x, str) or not x or not x[-1].isspace() or x[-1] == " ":
            softspace(to, 1)
        return self

    def newline(self):
        to = self.stream()
        to.write("\n")
        softspace(to, 0)


def raised(etype, value=None, tb=None):
    """The exception of `raise etype, value, tb`"""
    if tb is not None:
        raise TypeError("raise: arg 3 must be a traceback or None")
    if isinstance(etype, type) and issubclass(etype, BaseException):
        if isinstance(value, etype):
            return value
        if value is None:
            return etype()
        if isinstance(value, tuple):
            return etype(*value)
        return etype(value)
    if isinstance(etype, BaseException):
        if value is not None:
            raise TypeError("instance exception may not have a separate value")
        return etype
    raise TypeError("exceptions must be classes or instances")


NAMES = {"div_": div, "idiv_": idiv, "augattr_": augattr, "augitem_": augitem, "print_": Print, "raise_": raised,
         "convert_": repr}


class Reference(ast.NodeTransformer):
    def call(self, node, f, *args):
        if isinstance(f, str):
            f = ast.Name(f, ast.Load())
        return ast.fix_missing_locations(ast.copy_location(ast.Call(f, list(args), []), node))

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Div):
            return self.call(node, "div_", node.left, node.right)
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if not isinstance(node.op, ast.Div):
            return node
        t = node.target
        if isinstance(t, ast.Name):
            return ast.fix_missing_locations(ast.copy_location(
                ast.Assign([t], self.call(node, "idiv_", ast.Name(t.id, ast.Load()), node.value)), node))
        if isinstance(t, ast.Attribute):
            aug = self.call(node, "augattr_", t.value, ast.Constant(t.attr))
        else:
            aug = self.call(node, "augitem_", t.value, t.slice)
        return ast.fix_missing_locations(ast.copy_location(
            ast.Expr(self.call(node, ast.Attribute(aug, "div", ast.Load()), node.value)), node))

    def visit_Expr(self, node):
        self.generic_visit(node)
        x = node.value
        if not (isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "print"):
            return node
        end, to = True, []
        for k in x.keywords:
            if k.arg == "file":
                to = [k.value]
            else:
                end = False
        out = self.call(x, "print_", *to)
        for a in x.args:
            out = self.call(x, ast.Attribute(out, "item", ast.Load()), a)
        if end:
            out = self.call(x, ast.Attribute(out, "newline", ast.Load()))
        node.value = out
        return ast.fix_missing_locations(node)


def reference(src, version, filename="<sim>"):
    """The host's code for a program of `version`."""
    tree = ast.parse(src)
    if version is not None and tuple(version) < (3, 0):
        tree = Reference().visit(tree)
    return compile(tree, filename, "exec", dont_inherit=True)
