"""Minimises a failing simulated program: statements, expressions and faults."""
import ast
import copy
import time

from gen import bad_raises


def blocks(tree):
    """(node, field) of every statement list, outermost first."""
    for n in ast.walk(tree):
        for f in ("body", "orelse", "finalbody", "handlers"):
            x = getattr(n, f, None)
            if isinstance(x, list) and x:
                yield n, f


def is_counter(s):
    return (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)
            and s.targets[0].id[0] == "w" and isinstance(s.value, ast.BinOp))


def is_limit(s):
    return (isinstance(s, ast.If) and isinstance(s.test, ast.Compare) and isinstance(s.test.left, ast.Name)
            and s.test.left.id[0] == "w" and s.test.left.id[1:].isdigit())


TESTY = (ast.BoolOp, ast.IfExp)


def complex_test(x):
    return (isinstance(x, TESTY) or (isinstance(x, ast.Compare) and len(x.ops) > 1)
            or (isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Not)))


def wellformed(tree, version):
    """Keeps to the constructs whose meaning does not depend on the version."""
    for n in ast.walk(tree):
        if isinstance(n, ast.BoolOp):
            if any(complex_test(v) for v in n.values):
                return False
        elif isinstance(n, ast.IfExp):
            if complex_test(n.test) or complex_test(n.body) or complex_test(n.orelse):
                return False
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            if complex_test(n.operand):
                return False
        elif isinstance(n, (ast.If, ast.While, ast.Assert)):
            if isinstance(n.test, ast.Compare) and len(n.test.ops) > 1:
                return False
            if isinstance(n.test, ast.Constant) and not (isinstance(n, ast.While) and n.test.value is True):
                return False
        elif isinstance(n, ast.comprehension):
            if any(isinstance(i, ast.Compare) and len(i.ops) > 1 for i in n.ifs):
                return False
    return version >= (3, 0) or not bad_raises(tree)


KEEP_CALLS = ("keep", "list", "log", "sched", "upto", "cm")


def stmt_edits(tree):
    """Edits that remove or unwrap statements; each is a function tree -> None."""
    bl = list(blocks(tree))
    for bi, (n, f) in enumerate(bl):
        x = getattr(n, f)
        size = len(x)
        step = size
        while step >= 1:
            for lo in range(0, size, step):
                part = x[lo:lo + step]
                if any(is_counter(s) or is_limit(s) for s in part):
                    continue
                yield ("rm", bi, lo, lo + step)
            step //= 2
    for bi, (n, f) in enumerate(bl):
        if f == "handlers":
            continue
        for i, s in enumerate(getattr(n, f)):
            for g in ("body", "orelse", "finalbody"):
                if isinstance(s, (ast.If, ast.For, ast.While, ast.With, ast.Try)) and getattr(s, g, None):
                    yield ("unwrap", bi, i, g)
            if isinstance(s, ast.Try):
                for j in range(len(s.handlers)):
                    yield ("unwraph", bi, i, j)
                if s.finalbody and s.handlers:
                    yield ("nofin", bi, i, 0)
                    yield ("nohan", bi, i, 0)
            if isinstance(s, ast.With) and len(s.items) > 1:
                for j in range(len(s.items)):
                    yield ("item", bi, i, j)
            if isinstance(s, ast.Assign) and not is_counter(s):
                yield ("value", bi, i, 0)


def apply_stmt(tree, e):
    kind, bi, a, b = e
    t = copy.deepcopy(tree)
    n, f = list(blocks(t))[bi]
    x = getattr(n, f)
    if kind == "rm":
        del x[a:b]
        if not x:
            if f == "body":
                x.append(ast.Pass())
            elif f == "handlers" and not n.finalbody:
                return None
            elif f == "finalbody" and not n.handlers:
                return None
            if f == "handlers" and n.orelse:
                n.orelse = []
    elif kind == "unwrap":
        x[a:a + 1] = getattr(x[a], b)
    elif kind == "unwraph":
        x[a:a + 1] = x[a].handlers[b].body
    elif kind == "nofin":
        x[a].finalbody = []
    elif kind == "nohan":
        x[a].handlers = []
        x[a].orelse = []
    elif kind == "item":
        del x[a].items[b]
    elif kind == "value":
        x[a] = ast.Expr(x[a].value)
    return t


def exprs(tree):
    """(parent, field, index) of every expression that may be replaced."""
    for n in ast.walk(tree):
        if isinstance(n, (ast.arguments, ast.ExceptHandler)):
            continue
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("sched", "upto", "keep"):
            continue
        if isinstance(n, (ast.Assign,)) and is_counter(n):
            continue
        for f, x in ast.iter_fields(n):
            if f in ("targets", "target", "decorator_list", "func", "bases", "slice", "optional_vars", "exc", "cause"):
                continue
            if isinstance(n, ast.Raise):
                continue
            if isinstance(x, ast.expr):
                if isinstance(getattr(x, "ctx", None), (ast.Store, ast.Del)):
                    continue
                yield n, f, None
            elif isinstance(x, list):
                for i, y in enumerate(x):
                    if isinstance(y, ast.expr) and not isinstance(getattr(y, "ctx", None), (ast.Store, ast.Del)) \
                            and not isinstance(y, ast.Starred):
                        yield n, f, i


def subexprs(x):
    if isinstance(x, ast.Call):
        if isinstance(x.func, ast.Name):
            return []
        return [a for a in x.args if not isinstance(a, ast.Starred)]
    if isinstance(x, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.JoinedStr,
                      ast.Yield, ast.YieldFrom, ast.NamedExpr)):
        return []
    if isinstance(x, ast.Subscript) and isinstance(x.value, ast.List) and len(x.value.elts) == 1:
        return [x.value.elts[0]]
    return [y for y in ast.iter_child_nodes(x) if isinstance(y, ast.expr) and not isinstance(y, (ast.Slice, ast.Starred))]


def simple(x):
    if isinstance(x, ast.Constant):
        return True
    return isinstance(x, ast.Name)


def expr_edits(tree):
    for ei, (n, f, i) in enumerate(exprs(tree)):
        x = getattr(n, f) if i is None else getattr(n, f)[i]
        if isinstance(x, ast.Constant):
            continue
        if not (isinstance(n, (ast.If, ast.While, ast.Assert)) and f == "test"):
            yield ("const", ei, 0)
        if not (isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "P"):
            yield ("probe", ei, 0)
        for j, s in enumerate(subexprs(x)):
            yield ("sub", ei, j)
        if i is not None and f in ("args", "elts"):
            yield ("drop", ei, 0)


def apply_expr(tree, e):
    kind, ei, j = e
    t = copy.deepcopy(tree)
    n, f, i = list(exprs(t))[ei]
    x = getattr(n, f) if i is None else getattr(n, f)[i]
    if kind == "const":
        y = ast.Constant(0)
    elif kind == "probe":
        y = ast.parse("P(0)", mode="eval").body
    elif kind == "sub":
        y = subexprs(x)[j]
    elif kind == "drop":
        del getattr(n, f)[i]
        return t
    if i is None:
        setattr(n, f, y)
    else:
        getattr(n, f)[i] = y
    return t


def shrink_source(src, version, test, budget=1200, seconds=40):
    """`test(source)` -> truthy when the source still fails the same way."""
    tree = ast.parse(src)
    left = [budget]
    stop = time.time() + seconds

    def ok(t):
        if t is None or left[0] <= 0 or time.time() > stop:
            return None
        try:
            ast.fix_missing_locations(t)
            if not wellformed(t, version):
                return None
            s = ast.unparse(t) + "\n"
            if len(s) >= len(cur[0]):
                return None
            compile(s, "<sim>", "exec", dont_inherit=True)
            t2 = ast.parse(s)
        except Exception:
            return None
        left[0] -= 1
        if test(s):
            cur[0] = s
            return t2
        return None

    cur = [src + " " * 100]
    changed = True
    while changed and left[0] > 0 and time.time() < stop:
        changed = False
        for edits, app in ((stmt_edits, apply_stmt), (expr_edits, apply_expr)):
            again = True
            skip = 0
            while again:
                again = False
                es = list(edits(tree))
                # continue where the last success was, then wrap around
                for k in range(len(es)):
                    e = es[(k + skip) % len(es)]
                    try:
                        t = ok(app(tree, e))
                    except (IndexError, AttributeError, TypeError, ValueError):
                        t = None
                    if t is not None:
                        tree = t
                        skip = (k + skip) % len(es)
                        again = changed = True
                        break
                    if left[0] <= 0 or time.time() > stop:
                        break
    return cur[0].rstrip(" ")
