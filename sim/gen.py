"""Seeded generator of simulated programs.

``generate(rng, version, profile)`` returns Python source.  Programs only use
constructs whose meaning is the same in every bytecode version they are generated
for, so that the host CPython is a valid reference for what version-V bytecode of
the same source has to do.  A profile weighs statement and expression kinds; each
run additionally switches a random subset of the optional kinds off (swarm).
"""

import ast
import re

from gen2 import Gen2
from genchains import GenChains
from gencalls import GenCalls
from genclass import GenClass
from genfuncs import GenFuncs
from genimports import GenImports
from gennames import GenNames

BIN = "+ - * // % << >> & | ^ / **".split()
CMP = "< <= == != > >=".split()
EXC = ["E1", "E2", "E3", "ValueError", "KeyError", "TypeError", "OSError", "LookupError",
       "IndexError"]
CATCH = EXC + ["SimError", "Exception", "BaseException", "(E1, ValueError)", "(E3, OSError, KeyError)"]

STMTS = dict(
    expr=6, assign=10, aug=2, aug_attr=1, aug_sub=1, unpack=2, unpack_ex=1, store_attr=2,
    store_sub=2, dele=1, if_=6, while_=2, for_=4, try_except=4, try_finally=3, try_full=2,
    with_=3, raise_=1.5, reraise=2, raise_from=0.6, return_=2, break_=2.5, continue_=2,
    log=8, def_=2, class_=1, assert_=0.8, global_=0.6, nonlocal_=0.8, multi=1,
    genloop=0, drive=0, relay=0, yield_=0, yieldfrom=0, slices=0.8, unbound=0.3, annotate=0.4, delname=0.6, recdef=0.3,
    cellprobe=0, nest=0, names=0, imports=0, divide=0, print=0, oldnames=0, raise3=0, convert=0, classfail=0, recurse=0.5, curexc=0, while_else=0.7, for_else=1, sigdef=0.7, family=0.5,
)
EXPRS = dict(
    const=3, var=12, probe=4, bin=6, unary=1.5, cmp=3, bool_=3, not_=1, tern=1.5, call=3,
    meth=3, attr=3, sub=2.5, tuple_=1.2, list_=1, dict_=0.8, lambda_=0.7, lcomp=1,
    scomp=0.4, dcomp=0.3, gexp=0.6, callf=4, cb=1, cbs=0.6, star=0.7, kw=0.8, chain=1, in_=1,
    is_=0.5, fstr=0.4, disp=0.5, ddisp=0.4, walrus=0.3, native=0.5, set_=0.3, callsig=1, lamsig=0.2, callodd=0.3,
)

# Statement/expression kinds that a swarm run may switch off.
OPTIONAL_S = [k for k in STMTS if k not in ("expr", "assign", "log")]
OPTIONAL_E = [k for k in EXPRS if k not in ("const", "var", "probe")]


PROBEY = {"callodd", "var", "probe", "bin", "unary", "call", "meth", "attr", "sub", "callf", "lambda_", "cb", "star", "kw", "tern"}


class Fn:
    def __init__(self, name, kind, params, scope, ndef=0, method=False):
        self.name, self.kind, self.params, self.scope = name, kind, params, scope
        self.ndef = ndef


class Scope:
    def __init__(self, kind, parent, name):
        self.kind, self.parent, self.name = kind, parent, name
        self.vars = []          # names assigned in this scope
        self.outer = []         # names read from enclosing functions / module
        self.fns = []           # callables visible by name here
        self.nonlocals = set()
        self.globals = set()
        self.maybe = set()      # names that may be unbound
        self.exs = []           # names of the exceptions being handled

    def readable(self):
        return [v for v in self.vars if v not in self.maybe] + self.outer


class Ctx:
    """Lexical context of a statement."""
    __slots__ = ("loop", "handler", "final", "depth", "nofin")

    def __init__(self, loop=0, handler=0, final=0, depth=0, nofin=0):
        self.loop, self.handler, self.final, self.depth = loop, handler, final, depth
        self.nofin = nofin

    def sub(self, **k):
        c = Ctx(self.loop, self.handler, self.final, self.depth + 1, self.nofin)
        for a, b in k.items():
            setattr(c, a, b)
        return c


class Gen(GenChains, GenCalls, GenClass, GenNames, GenImports, GenFuncs, Gen2):
    def __init__(self, rng, version, profile):
        self.r = rng
        self.v = version
        self.p = profile
        self.lines = []
        self.ind = 0
        self.need_sys = False
        self.nf = self.nc = self.ne = self.nx = self.nw = 0
        self.sw = dict(STMTS)
        self.ew = dict(EXPRS)
        self.sw.update(profile.get("stmts", {}))
        self.ew.update(profile.get("exprs", {}))
        self.budget = profile.get("budget", 30)
        self.budget = rng.randint(max(6, self.budget // 3), self.budget)
        self.maxdepth = profile.get("depth", 5)
        keep = set(profile.get("keep", ()))
        frac = rng.choice((0.0, 0.3, 0.6))
        for k in OPTIONAL_S:
            if k not in keep and rng.random() < frac:
                self.sw[k] = 0
        for k in OPTIONAL_E:
            if k not in keep and rng.random() < frac:
                self.ew[k] = 0
        v = version
        if v < (3, 0):
            for k in ("unpack_ex", "raise_from", "nonlocal_", "curexc"):
                self.sw[k] = 0
        if v < (3, 3):
            self.sw["yieldfrom"] = 0
        if v < (2, 7):
            for k in ("scomp", "dcomp", "set_"):
                self.ew[k] = 0
        if v < (3, 6):
            self.ew["fstr"] = 0
            self.sw["annotate"] = 0
        if v < (3, 5):
            self.ew["disp"] = self.ew["ddisp"] = 0
        if v < (3, 8):
            self.ew["walrus"] = 0
        if v < (2, 5):
            self.sw["with_"] = 0
        for k in profile.get("off", ()):
            if k in self.sw:
                self.sw[k] = 0
            if k in self.ew:
                self.ew[k] = 0
        self.sdist = {}
        self.edist = None

    # ------------------------------------------------------------ helpers
    def w(self, s):
        self.lines.append("    " * self.ind + s)

    def chance(self, p):
        return self.r.random() < p

    def choose(self, weights):
        items = [(k, x) for k, x in weights.items() if x > 0]
        t = sum(x for _, x in items)
        y = self.r.random() * t
        for k, x in items:
            y -= x
            if y <= 0:
                return k
        return items[-1][0]

    # ------------------------------------------------------------ expressions
    def e(self, sc, d=0):
        r = self.r
        if d >= 3:
            k = r.choice(("var", "var", "const", "probe", "probe"))
        else:
            k = self.choose(self.ew)
        s = getattr(self, "e_" + k)(sc, d)
        return s if s is not None else self.e_var(sc, d)

    def ve(self, sc, d=0):
        """the value of a variable, argument or result: most likely a probe, so that
        the program can go on operating on it"""
        if self.chance(self.p.get("anyval", 0.12)):
            return self.e(sc, d)
        if d >= 3:
            return self.pe(sc, d)
        for _ in range(6):
            k = self.choose(self.ew)
            if k in PROBEY:
                break
        else:
            k = self.r.choice(("var", "probe"))
        s = getattr(self, "e_" + k)(sc, d)
        if s is None or (k == "callf" and s.startswith("list(")):
            return self.e_probe(sc, d)
        return s

    def pe(self, sc, d=0):
        """an expression that is most likely a probe"""
        if self.chance(0.55):
            return self.e_var(sc, d)
        return self.e_probe(sc, d)

    def e_const(self, sc, d):
        r = self.r
        return r.choice(("%d" % r.randint(0, 4), "'k%d'" % r.randint(0, 3), "None", "%d" % r.randint(0, 400)))

    def e_var(self, sc, d):
        vs = sc.readable()
        if not vs:
            return self.e_probe(sc, d)
        return self.r.choice(vs)

    def e_probe(self, sc, d):
        return "P(%d)" % self.r.randint(0, 9)

    def e_bin(self, sc, d):
        return "(%s %s %s)" % (self.pe(sc, d + 1), self.r.choice(BIN), self.e(sc, d + 1))

    def e_unary(self, sc, d):
        return "(%s%s)" % (self.r.choice("-+~"), self.pe(sc, d + 1))

    def e_cmp(self, sc, d):
        return "(%s %s %s)" % (self.pe(sc, d + 1), self.r.choice(CMP), self.e(sc, d + 1))

    def e_chain(self, sc, d):
        return "(%s %s %s %s %s)" % (
            self.pe(sc, d + 1), self.r.choice(CMP), self.pe(sc, d + 1), self.r.choice(CMP), self.e(sc, d + 1))

    def e_bool_(self, sc, d):
        op = self.r.choice((" and ", " or "))
        return "(" + op.join(self.tested(sc, d) for _ in range(self.r.randint(2, 3))) + ")"

    def tested(self, sc, d):
        """An expression whose truth is tested, such that all versions of CPython
        ask for it once.  (How often they ask for that of the operands of an
        operand depends on how well they optimize jumps.)"""
        s = self.e(sc, d + 1)
        if s.startswith("("):
            x = ast.parse(s, mode="eval").body
            if isinstance(x, (ast.BoolOp, ast.IfExp)) or (isinstance(x, ast.Compare) and len(x.ops) > 1) or (
                isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Not)
            ):
                return "[%s][0]" % s
        return s

    def cond(self, sc, d):
        """The test of a statement; see `tested`."""
        s = self.e(sc, d)
        if s.startswith("("):
            x = ast.parse(s, mode="eval").body
            if isinstance(x, ast.Compare) and len(x.ops) > 1:
                return "[%s][0]" % s
        return s

    def e_not_(self, sc, d):
        return "(not %s)" % self.tested(sc, d)

    def e_tern(self, sc, d):
        return "(%s if %s else %s)" % (self.tested(sc, d), self.tested(sc, d), self.tested(sc, d))

    def args(self, sc, d, n):
        return ", ".join(self.ve(sc, d + 1) for _ in range(n))

    def e_call(self, sc, d):
        return "%s(%s)" % (self.pe(sc, d + 1), self.args(sc, d, self.r.randint(0, 2)))

    def e_meth(self, sc, d):
        return "%s.m_%s(%s)" % (self.pe(sc, d + 1), self.r.choice("abc"), self.args(sc, d, self.r.randint(0, 2)))

    def e_attr(self, sc, d):
        return "%s.x_%s" % (self.pe(sc, d + 1), self.r.choice("abc"))

    def e_sub(self, sc, d):
        return "%s[%s]" % (self.pe(sc, d + 1), self.e(sc, d + 1))

    def e_tuple_(self, sc, d):
        return "(%s,)" % ", ".join(self.e(sc, d + 1) for _ in range(self.r.randint(1, 3)))

    def e_list_(self, sc, d):
        return "[%s]" % self.args(sc, d, self.r.randint(0, 3))

    def e_set_(self, sc, d):
        return "{%s}" % ", ".join(self.pe(sc, d + 1) for _ in range(self.r.randint(1, 3)))

    def e_dict_(self, sc, d):
        return "{%s}" % ", ".join("'d%d': %s" % (i, self.e(sc, d + 1)) for i in range(self.r.randint(0, 2)))

    def e_lambda_(self, sc, d):
        self.nx += 1
        x = "x%d" % self.nx
        inner = Scope("fn", sc, "<lambda>")
        inner.vars = [x]
        inner.outer = [v for v in sc.readable() if self.capturable(sc, v)]
        inner.fns = self.callables(sc)
        body = self.e(inner, d + 2)
        if self.chance(0.3):
            return "(lambda %s=%s: %s)" % (x, self.e(sc, d + 1), body)
        return "(lambda %s: %s)(%s)" % (x, body, self.ve(sc, d + 1))

    def comp(self, sc, d, fmt):
        self.nx += 1
        x = "y%d" % self.nx
        inner = Scope("fn", sc, "<comp>")
        inner.vars = [x]
        inner.outer = [v for v in sc.readable() if self.capturable(sc, v)]
        inner.fns = self.callables(sc)
        s = "for %s in %s" % (x, self.iterable(sc, d + 1))
        if self.chance(0.3):
            s += " if %s" % self.cond(inner, d + 2)
        elif self.chance(0.15):
            self.nx += 1
            x2 = "y%d" % self.nx
            s += " for %s in %s" % (x2, self.iterable(inner, d + 2))
            inner.vars.append(x2)
        return fmt % (self.e(inner, d + 2), s)

    def e_lcomp(self, sc, d):
        if sc.kind == "cls":
            return None
        return self.comp(sc, d, "[%s %s]")

    def e_scomp(self, sc, d):
        if sc.kind == "cls":
            return None
        return self.comp(sc, d, "len({%s %s})")

    def e_dcomp(self, sc, d):
        if sc.kind == "cls":
            return None
        return self.comp(sc, d, "len({0: %s %s})")

    def e_gexp(self, sc, d):
        if sc.kind == "cls":
            return None
        return self.comp(sc, d, "list(keep(%s %s))")

    def iterable(self, sc, d):
        r = self.r
        k = r.random()
        if k < 0.45:
            return "it(%d)" % r.randint(0, 4)
        if k < 0.65:
            return "itr(%d)" % r.randint(0, 3)
        if k < 0.75:
            return "[%s]" % self.args(sc, d, r.randint(0, 3))
        if k < 0.85:
            gens = [f for f in self.callables(sc) if f.kind == "gen"]
            if gens:
                return "keep(%s)" % self.callstr(sc, d, r.choice(gens))
        if k < 0.93:
            return "(%s, %s)" % (self.e(sc, d + 1), self.e(sc, d + 1))
        return self.pe(sc, d + 1)

    def callables(self, sc):
        out, s = [], sc
        while s is not None:
            if s is sc or s.kind != "cls":
                out.extend(f for f in s.fns if f.kind != "model")
            s = s.parent
        return out

    def callstr(self, sc, d, f, probes=False):
        r = self.r
        g = self.pe if probes else self.e
        n = len(f.params)
        given = n - r.randint(0, f.ndef) if f.ndef else n
        parts = []
        kwstart = r.randint(0, given) if self.chance(0.25) else given
        for i in range(given):
            a = g(sc, d + 1)
            if i >= kwstart and f.kind != "cls":
                a = "%s=%s" % (f.params[i], a)
            parts.append(a)
        if self.chance(0.04):
            parts = parts[:-1]
        return "%s(%s)" % (f.name, ", ".join(parts))

    def e_callf(self, sc, d):
        fs = [f for f in self.callables(sc)]
        if not fs:
            return None
        f = self.r.choice(fs)
        s = self.callstr(sc, d, f)
        if f.kind == "gen":
            # (A generator itself never becomes an operand: what attributes it takes
            # is a matter of its implementation.)
            return "list(keep(%s))" % s
        return s

    def e_cb(self, sc, d, nm="cb"):
        fs = [f for f in self.callables(sc) if f.kind == "fn"]
        if not fs:
            return None
        f = self.r.choice(fs)
        return "%s(%s)" % (nm, ", ".join([f.name] + [self.ve(sc, d + 1) for _ in f.params]))

    def e_cbs(self, sc, d):
        return self.e_cb(sc, d, "cbs")

    def e_native(self, sc, d):
        fs = [f for f in self.callables(sc) if f.kind == "fn" and len(f.params) - f.ndef <= 1 <= len(f.params)]
        if not fs:
            return None
        f = self.r.choice(fs)
        k = self.r.random()
        if k < 0.5:
            return "list(map(%s, it(%d)))" % (f.name, self.r.randint(1, 3))
        if k < 0.75:
            return "list(filter(%s, it(%d)))" % (f.name, self.r.randint(1, 3))
        return "len(sorted(it(%d), key=lambda z: [%s(z), 0][1]))" % (self.r.randint(1, 3), f.name)

    def e_star(self, sc, d):
        fs = [f for f in self.callables(sc) if f.kind == "fn"]
        if fs and self.chance(0.6):
            f = self.r.choice(fs)
            n = len(f.params)
            k = self.r.randint(0, n)
            return "%s(%s)" % (f.name, ", ".join([self.ve(sc, d + 1) for _ in range(n - k)] + ["*it(%d)" % k]))
        s = "%s(%s, *it(%d)" % (self.pe(sc, d + 1), self.e(sc, d + 1), self.r.randint(0, 2))
        if self.chance(0.4):
            # When the iterable is read, before or after the keyword values are
            # evaluated, depends on the version.
            s += ", **{'z': %s}" % self.r.choice(["None", "1", "'z'"])
        return s + ")"

    def e_kw(self, sc, d):
        return "%s(%s, b=%s, c=%s)" % (self.pe(sc, d + 1), self.e(sc, d + 1), self.e(sc, d + 1), self.e(sc, d + 1))

    def e_in_(self, sc, d):
        return "(%s %s %s)" % (self.e(sc, d + 1), self.r.choice(("in", "not in")), self.pe(sc, d + 1))

    def e_is_(self, sc, d):
        return "(%s %s %s)" % (self.e_var(sc, d), self.r.choice(("is", "is not")), self.r.choice(("None", self.e_var(sc, d))))

    def e_fstr(self, sc, d):
        return "f'%s'" % "".join(self.r.choice(("a", "", "{%s}", "{%s!s}", "{%s!r}", "{%s!a}", "{%s:x}", "{%s!s:>4}", "{%s:{P(1)[0]}}"))
                                 .replace("%s", self.fvar(sc)) for _ in range(self.r.randint(1, 3)))

    def later(self, sc):
        """a variable or constant: reading it comes to the same before and after
        something else (elements that follow a starred one; see minicc)"""
        vs = [v for v in sc.vars if v not in sc.maybe and v not in sc.globals] if sc.kind == "fn" else []
        return self.r.choice(vs) if vs and self.chance(0.7) else self.e_const(sc, 3)

    def e_disp(self, sc, d):
        r = self.r
        parts = [self.ve(sc, d + 1) for _ in range(r.randint(0, 2))]
        parts.append("*" + self.iterable(sc, d + 1))
        for _ in range(r.randint(0, 2)):
            if self.v >= (3, 9):
                parts.append(self.ve(sc, d + 1) if self.chance(0.6) else "*" + self.iterable(sc, d + 1))
            else:
                parts.append(self.later(sc) if self.chance(0.7) else "*[%s, %s]" % (self.later(sc), self.later(sc)))
        k = r.random()
        if k < 0.5:
            return "[%s]" % ", ".join(parts)
        if k < 0.75:
            return "(%s,)" % ", ".join(parts)
        return "{%s}" % ", ".join(parts)

    def e_ddisp(self, sc, d):
        r = self.r
        parts = ["'d%d': %s" % (r.randint(0, 2), self.ve(sc, d + 1)) for _ in range(r.randint(0, 2))]
        names = ", ".join("'d%d'" % i for i in range(r.randint(0, 3)))
        parts.append("**%s" % (self.pe(sc, d + 1) if self.chance(0.1) else "mp(%s)" % names))
        for _ in range(r.randint(0, 2)):
            parts.append("'d%d': %s" % (r.randint(0, 3), self.ve(sc, d + 1) if self.v >= (3, 9) else self.later(sc)))
        return "{%s}" % ", ".join(parts)

    def e_walrus(self, sc, d):
        if sc.kind == "cls" or sc.name in ("<lambda>", "<comp>"):
            return None
        vs = [v for v in sc.vars if v not in sc.maybe and v[0] in "vma"]
        if not vs:
            return None
        return "(%s := %s)" % (self.r.choice(vs), self.ve(sc, d + 1))

    def fvar(self, sc):
        # (Not any variable: functions and iterators show their address.)
        return self.r.choice(("P(%d)", "P(%d)", "P(%d).x_f", "P(%d)[0]")) % self.r.randint(0, 9)

    # ------------------------------------------------------------ variables
    def capturable(self, sc, v):
        """may a nested function of scope `sc` read v?"""
        return sc.kind != "cls"

    def target(self, sc):
        """a name to assign to"""
        r = self.r
        pool = [v for v in sc.vars]
        if sc.kind in ("fn", "gen") and sc.nonlocals and self.chance(0.4):
            return r.choice(sorted(sc.nonlocals))
        if sc.globals and self.chance(0.3):
            return r.choice(sorted(sc.globals))
        if pool and self.chance(0.8):
            return r.choice(pool)
        base = {"mod": "m", "cls": "c"}.get(sc.kind, "v")
        n = base + str(r.randint(0, 3))
        return n

    def assigned(self, sc, n, ctx):
        if n in sc.nonlocals or n in sc.globals:
            return
        if n not in sc.vars:
            sc.vars.append(n)
            if ctx is not None and ctx.depth > 0:
                sc.maybe.add(n)
        elif n in sc.maybe and (ctx is None or ctx.depth == 0):
            sc.maybe.discard(n)

    # ------------------------------------------------------------ statements
    def block(self, sc, ctx, n=None):
        self.ind += 1
        start = len(self.lines)
        n = n if n is not None else self.r.choice((1, 1, 2, 2, 3))
        for _ in range(n):
            if self.budget <= 0 and len(self.lines) > start:
                break
            done = self.stmt(sc, ctx)
            if done == "end":
                break
        if len(self.lines) == start:
            self.w("pass")
        self.ind -= 1

    def stmt(self, sc, ctx):
        self.budget -= 1
        for _ in range(8):
            k = self.choose(self.sw)
            if ctx.depth >= self.maxdepth and k in (
                "if_", "while_", "for_", "try_except", "try_finally", "try_full", "with_", "def_",
                "class_", "while_else", "for_else", "genloop", "drive", "recdef", "cellprobe", "classfail", "relay",
                "nest", "names", "imports", "funcs", "sigdef", "family", "recurse", "curexc",
            ):
                continue
            x = getattr(self, "s_" + k)(sc, ctx)
            if x is not False:
                return x
        self.w("log(%s)" % self.e(sc, 1))

    def s_expr(self, sc, ctx):
        self.w(self.e(sc))

    def s_log(self, sc, ctx):
        self.w("log('t%d', %s)" % (self.r.randint(0, 99), ", ".join(self.e_var(sc, 0) for _ in range(self.r.randint(0, 2))) or "0"))

    def s_assign(self, sc, ctx):
        x = self.ve(sc)
        t = self.target(sc)
        self.w("%s = %s" % (t, x))
        self.assigned(sc, t, ctx)

    def s_multi(self, sc, ctx):
        x = self.ve(sc)
        t1, t2 = self.target(sc), self.target(sc)
        self.w("%s = %s.x_q = %s = %s" % (t1, self.pe(sc, 1), t2, x))
        self.assigned(sc, t1, ctx)
        self.assigned(sc, t2, ctx)

    def s_aug(self, sc, ctx):
        vs = [v for v in sc.vars if v not in sc.maybe] + sorted(sc.nonlocals) + sorted(sc.globals)
        if not vs:
            return False
        self.w("%s %s= %s" % (self.r.choice(vs), self.r.choice(BIN), self.e(sc)))

    def s_aug_attr(self, sc, ctx):
        self.w("%s.x_%s %s= %s" % (self.pe(sc, 1), self.r.choice("ab"), self.r.choice(BIN), self.e(sc)))

    def s_aug_sub(self, sc, ctx):
        self.w("%s[%s] %s= %s" % (self.pe(sc, 1), self.e(sc, 1), self.r.choice(BIN), self.e(sc)))

    def s_unpack(self, sc, ctx):
        r = self.r
        n = r.randint(1, 3)
        k = r.random()
        if k < 0.45:
            src = "it(%d)" % (n if self.chance(0.8) else r.randint(0, 4))
        elif k < 0.6:
            src = "itr(%d)" % n
        elif k < 0.9:
            src = "(%s,)" % ", ".join(self.ve(sc, 1) for _ in range(n))
        else:
            src = self.e(sc, 1)
        ts = [self.target(sc) for _ in range(n)]
        if self.chance(0.2):
            ts[0] = "%s.x_u" % self.pe(sc, 1)
        if n == 3 and self.chance(0.2):
            ts = [ts[0], "(%s, %s)" % (ts[1], ts[2])]
        self.w("%s, = %s" % (", ".join(ts), src))
        for t in ts:
            for q in t.strip("()").split(", "):
                if "." not in q:
                    self.assigned(sc, q, ctx)

    def s_unpack_ex(self, sc, ctx):
        n = self.r.randint(1, 3)
        ts = [self.target(sc) for _ in range(n)]
        i = self.r.randrange(n)
        self.w("%s, = it(%d)" % (", ".join(("*" if j == i else "") + t for j, t in enumerate(ts)), self.r.randint(0, 5)))
        for t in ts:
            self.assigned(sc, t, ctx)

    def s_store_attr(self, sc, ctx):
        self.w("%s.x_%s = %s" % (self.pe(sc, 1), self.r.choice("abc"), self.e(sc)))

    def s_store_sub(self, sc, ctx):
        self.w("%s[%s] = %s" % (self.pe(sc, 1), self.e(sc, 1), self.e(sc)))

    def s_slices(self, sc, ctx):
        r = self.r
        lo = self.e(sc, 2) if self.chance(0.7) else ""
        hi = self.e(sc, 2) if self.chance(0.7) else ""
        k = r.random()
        o = self.pe(sc, 1)
        if k < 0.6:
            st = ":%s" % self.e(sc, 2) if self.chance(0.3) else ""
            t = self.target(sc)
            self.w("%s = %s[%s:%s%s]" % (t, o, lo, hi, st))
            self.assigned(sc, t, ctx)
        elif k < 0.85:
            self.w("%s[%s:%s] = %s" % (o, lo, hi, self.e(sc, 1)))
        else:
            self.w("del %s[%s:%s]" % (o, lo, hi))

    def s_dele(self, sc, ctx):
        r = self.r
        if self.chance(0.5):
            self.w("del %s.x_%s" % (self.pe(sc, 1), r.choice("ab")))
        else:
            self.w("del %s[%s]" % (self.pe(sc, 1), self.e(sc, 1)))

    def s_annotate(self, sc, ctx):
        """annotated assignments (3.6 and later)"""
        if sc.kind not in ("fn", "gen", "mod", "cls"):
            return False
        t = self.target(sc)
        if t in sc.nonlocals or t in sc.globals or (sc.kind in ("fn", "gen") and t in getattr(sc, "params", ())):
            return False
        if self.chance(0.3) and t in sc.vars:
            self.w("%s: %s" % (t, self.e(sc, 1)))
        else:
            self.w("%s: %s = %s" % (t, self.e(sc, 1), self.ve(sc, 1)))
            self.assigned(sc, t, ctx)

    def s_delname(self, sc, ctx):
        """unbind a variable; then read it, and bind it again"""
        if ctx.nofin:
            return False
        vs = [v for v in sc.vars if v not in sc.maybe and v[0] in "vmac" and len(v) == 2]
        if not vs:
            return False
        v = self.r.choice(vs)
        self.w("del %s" % v)
        if self.chance(0.6):
            self.w("try:")
            self.w("    log('gone', %s)" % v)
            self.w("except NameError:")
            self.w("    log('unbound')")
        self.w("%s = %s" % (v, self.e_probe(sc, 1)))

    def s_unbound(self, sc, ctx):
        """read a name that may not be bound (yet)"""
        if sc.kind == "cls":
            return False
        c = sorted(v for v in sc.maybe)
        if c:
            self.w("log('u', %s)" % self.r.choice(c))
        elif sc.kind == "mod":
            self.w("log('u', undefined_name)")
        else:
            return False

    def s_global_(self, sc, ctx):
        if sc.kind not in ("fn", "gen") or not sc.globals:
            return False
        g = self.r.choice(sorted(sc.globals))
        self.w("%s = %s" % (g, self.ve(sc)))

    def s_nonlocal_(self, sc, ctx):
        if not sc.nonlocals:
            return False
        g = self.r.choice(sorted(sc.nonlocals))
        self.w("%s = %s" % (g, self.ve(sc)))

    def s_if_(self, sc, ctx):
        self.w("if %s:" % self.cond(sc, 0))
        self.block(sc, ctx.sub())
        while self.chance(0.2):
            self.w("elif %s:" % self.cond(sc, 0))
            self.block(sc, ctx.sub())
        if self.chance(0.4):
            self.w("else:")
            self.block(sc, ctx.sub())

    def s_while_(self, sc, ctx, orelse=None):
        self.nw += 1
        c = "w%d" % self.nw
        self.w("%s = 0" % c)
        if self.chance(0.3):
            self.w("while True:")
            lim = "if %s > %d: break" % (c, self.r.randint(1, 3))
        else:
            self.w("while %s < %d%s:" % (c, self.r.randint(1, 3), " and " + self.tested(sc, 0) if self.chance(0.4) else ""))
            lim = None
        self.ind += 1
        self.w("%s = %s + 1" % (c, c))
        if lim:
            self.w(lim)
        self.ind -= 1
        self.block(sc, ctx.sub(loop=1, final=0))
        if orelse if orelse is not None else self.chance(0.15):
            self.w("else:")
            self.block(sc, ctx.sub())

    def s_while_else(self, sc, ctx):
        return self.s_while_(sc, ctx, True)

    def s_for_(self, sc, ctx, orelse=None):
        t = self.target(sc)
        if self.chance(0.1):
            t2 = self.target(sc)
            self.w("for %s, %s in [(%s, %s), it(2)]:" % (t, t2, self.ve(sc, 1), self.ve(sc, 1)))
            self.assigned(sc, t2, ctx.sub())
        else:
            self.w("for %s in %s:" % (t, self.iterable(sc, 0)))
        self.assigned(sc, t, ctx.sub())
        self.block(sc, ctx.sub(loop=1, final=0))
        if orelse if orelse is not None else self.chance(0.15):
            self.w("else:")
            self.block(sc, ctx.sub())

    def s_for_else(self, sc, ctx):
        return self.s_for_(sc, ctx, True)

    def handlers(self, sc, ctx, n=None):
        r = self.r
        n = n or r.choice((1, 1, 1, 2, 3))
        for i in range(n):
            k = r.random()
            if k < 0.12 and i == n - 1:
                self.w("except:")
                self.caught()
                self.block(sc, ctx.sub(handler=1))
            elif k < 0.5:
                self.ne += 1
                x = "ex%d" % self.ne
                self.w("except %s as %s:" % (r.choice(CATCH), x))
                self.ind += 1
                self.w("log('caught', %s)" % x)
                if self.chance(self.p.get("exc_info", 0)):
                    self.w("log('xi', %s)" % r.choice(("sys.exc_info()[1] is %s" % x, "sys.exc_info()[:2]")))
                    self.need_sys = True
                if self.chance(self.p.get("chains", 0)):
                    self.w("log('ch', chain(%s))" % x)
                self.ind -= 1
                sc.exs.append(x)
                self.block(sc, ctx.sub(handler=1))
                sc.exs.pop()
            elif k < 0.56:
                # the exception class is itself an expression with effects
                self.w("except [%s, %s][1]:" % (self.e(sc, 1), r.choice(CATCH)))
                self.block(sc, ctx.sub(handler=1))
            elif k < 0.58 and self.v >= (3, 0):
                # what is no exception class (an error, when an exception gets there)
                self.w("except %s:" % r.choice(("5", "[%s][0]" % self.e(sc, 1), "(E1, None)", "(ValueError, (E1, E2))", "int",
                                                "(E3, object)", "()", "'E1'")))
                self.block(sc, ctx.sub(handler=1))
            else:
                self.w("except %s:" % r.choice(CATCH))
                self.caught()
                self.block(sc, ctx.sub(handler=1))

    def trybody(self, sc, ctx):
        """The body of a "try": often something that does raise."""
        c = ctx.sub()
        self.block(sc, c)
        if not ctx.nofin and self.chance(self.p.get("hot", 0.4)):
            self.ind += 1
            self.hot(sc)
            self.ind -= 1

    def hot(self, sc):
        r = self.r
        self.nx += 1
        k = r.random()
        s = "raise %s('@h%d')" % (r.choice(EXC), self.nx)
        fs = [f for f in self.callables(sc) if f.kind == "fn" and not f.scope.kind == "cls"]
        if k < 0.25 and fs:
            f = r.choice(fs)
            self.w("%s(%s)" % (f.name, ", ".join("P(%d)" % i for i in range(len(f.params)))))
            self.w(s)
        elif k < 0.5:
            self.w("if flag(%d):" % self.nx)
            self.w("    " + s)
        elif k < 0.6:
            self.w("it(2).x_no")
        elif k < 0.7:
            self.w("None + P(1)" if r.random() < 0.2 else "None[0]")
        else:
            self.w(s)

    def caught(self):
        if self.chance(0.6):
            self.w("    log('caught')")

    def s_try_except(self, sc, ctx):
        self.w("try:")
        self.trybody(sc, ctx)
        self.handlers(sc, ctx)
        if self.chance(0.25):
            self.w("else:")
            self.block(sc, ctx.sub())

    def finbody(self, sc, ctx):
        self.ind += 1
        self.w("log('fin%d')" % self.r.randint(0, 99))
        self.ind -= 1
        c = ctx.sub(final=1)
        if not self.chance(self.p.get("exit_in_finally", 0.25)):
            c.nofin = 1      # nothing may leave this finally body
        if self.chance(0.5):
            self.block(sc, c)

    def s_try_finally(self, sc, ctx):
        self.w("try:")
        self.trybody(sc, ctx)
        self.w("finally:")
        self.finbody(sc, ctx)

    def s_try_full(self, sc, ctx):
        self.w("try:")
        self.trybody(sc, ctx)
        self.handlers(sc, ctx)
        if self.chance(0.25):
            self.w("else:")
            self.block(sc, ctx.sub())
        self.w("finally:")
        self.finbody(sc, ctx)

    def s_with_(self, sc, ctx):
        r = self.r
        items = []
        tgts = []
        for _ in range(r.choice((1, 1, 1, 2))):
            s = "cm(%d)" % r.randint(0, 9)
            if self.chance(0.5):
                t = self.target(sc)
                s += " as " + t
                tgts.append(t)
            items.append(s)
        self.w("with %s:" % ", ".join(items))
        for t in tgts:
            self.assigned(sc, t, ctx.sub())
        self.block(sc, ctx.sub())

    def s_raise_(self, sc, ctx):
        r = self.r
        k = r.random()
        x = r.choice(EXC)
        self.nx += 1
        if ctx.nofin and not self.chance(0.3):
            return False
        if k < 0.6:
            s = "raise %s('@r%d')" % (x, self.nx)
        elif k < 0.85:
            s = "raise %s" % x
        else:
            s = "raise %s('@r%d', %s)" % (x.replace("OSError", "E3"), self.nx, self.e(sc, 1))
        if self.chance(0.6):
            self.w("if %s:" % self.cond(sc, 1))
            self.ind += 1
            self.w(s)
            self.ind -= 1
            return
        self.w(s)
        return "end"

    def s_reraise(self, sc, ctx):
        if not ctx.handler:
            return False
        if self.chance(0.5):
            self.w("if %s:" % self.cond(sc, 1))
            self.ind += 1
            self.w("raise")
            self.ind -= 1
            return
        self.w("raise")
        return "end"

    def s_raise_from(self, sc, ctx):
        if ctx.nofin:
            return False
        self.nx += 1
        self.w("raise %s('@f%d') from %s('@c%d')" % (self.r.choice(EXC), self.nx, self.r.choice(EXC), self.nx))
        return "end"

    def s_assert_(self, sc, ctx):
        if ctx.nofin:
            return False
        self.w("assert %s%s" % (self.cond(sc, 1), ", '@a%d'" % self.r.randint(0, 9) if self.chance(0.5) else ""))

    def s_return_(self, sc, ctx):
        if sc.kind not in ("fn", "gen") or ctx.nofin:
            return False
        if sc.kind == "gen":
            if self.v < (3, 3) or self.chance(0.3):
                s = "return"
            else:
                s = "return %s" % self.ve(sc, 1)
        else:
            s = "return %s" % self.ve(sc)
        if self.chance(0.5):
            self.w("if %s:" % self.cond(sc, 1))
            self.ind += 1
            self.w(s)
            self.ind -= 1
            return
        self.w(s)
        return "end"

    def s_break_(self, sc, ctx, kw="break"):
        if not ctx.loop or ctx.nofin:
            return False
        if self.chance(0.6):
            self.w("if %s:" % self.cond(sc, 1))
            self.ind += 1
            self.w(kw)
            self.ind -= 1
            return
        self.w(kw)
        return "end"

    def s_continue_(self, sc, ctx):
        if ctx.final:
            return False
        return self.s_break_(sc, ctx, "continue")

    # ------------------------------------------------------------ functions
    def def_fn(self, sc, name, kind="fn", params=None, method=False, ndef=0, n=None, extra=None, reg=True, decor=None):
        """Emit a function definition."""
        r = self.r
        if params is None:
            params = ["a%d" % i for i in range(r.randint(0, 2))]
            ndef = r.randint(0, len(params)) if self.chance(0.25) else 0
        inner = Scope("gen" if kind == "gen" else "fn", sc, name)
        inner.vars = list(params)
        sig = list(params)
        for i in range(len(params) - ndef, len(params)):
            sig[i] += "=" + self.ve(sc, 2)
        if decor:
            self.w("@%s" % decor)
        self.w("def %s(%s):" % (name, ", ".join((["self"] if method else []) + sig)))
        if method:
            inner.vars.append("self")
            # `self` is an interpreter-made object: keep it out of operator soup
            inner.vars.remove("self")
        self.ind += 1
        enclosing = []
        s = sc
        while s is not None:
            if s.kind in ("fn", "gen"):
                enclosing += [v for v in s.vars if v not in s.maybe and v not in s.globals]
            s = s.parent
        mod = self.module
        own = ["v%d" % i for i in range(4)]
        if enclosing and self.chance(self.p.get("capture", 0.6)):
            free = [v for v in enclosing if v not in params and self.chance(0.5)]
            free = sorted(set(free))
            if self.v >= (3, 0) and free and self.chance(0.5):
                nl = [v for v in free if self.chance(0.6)]
                if nl:
                    self.w("nonlocal %s" % ", ".join(nl))
                    inner.nonlocals = set(nl)
            inner.outer = list(free)
            own = [v for v in own if v not in free]
        if mod and self.chance(0.4):
            ms = [v for v in mod.vars if v not in mod.maybe and v.startswith("m")]
            if ms and sc.kind != "cls":
                g = r.choice(ms)
                if self.chance(0.5):
                    self.w("global %s" % g)
                    inner.globals = {g}
                inner.outer = inner.outer + [g]
        if own:
            for v in own[:r.randint(0, min(2, len(own)))]:
                self.w("%s = %s" % (v, self.ve(inner, 2)))
                if v not in inner.vars:
                    inner.vars.append(v)
        self.ind -= 1
        f = Fn(name, kind, params, sc, ndef)
        ctx = Ctx(0, 0, 0, 0)
        if extra:
            self.ind += 1
            extra(inner)
            self.ind -= 1
        # in a generated function, only names in inner.vars may be assigned
        saved = self.target
        allowed = own + params

        def target(s, inner=inner, allowed=allowed, saved=saved):
            if s is not inner:
                return saved(s)
            if inner.nonlocals and self.chance(0.35):
                return r.choice(sorted(inner.nonlocals))
            if inner.globals and self.chance(0.2):
                return r.choice(sorted(inner.globals))
            return r.choice(allowed) if allowed else "vz"
        self.target = target
        self.block(inner, ctx, n or r.randint(2, 5))
        if kind == "gen":
            self.ind += 1
            self.w("yield %s" % self.ve(inner, 2))
            self.ind -= 1
        elif self.chance(0.8):
            self.ind += 1
            self.w("return %s" % self.ve(inner, 1))
            self.ind -= 1
        self.target = saved
        # a name assigned in some nested block only, but declared: nothing to do
        if reg:
            sc.fns = sc.fns + [f]
        return f

    def s_def_(self, sc, ctx):
        if ctx.depth > 2 and self.chance(0.6):
            return False
        if sc.kind == "cls":
            return False
        self.nf += 1
        kind = "gen" if self.p.get("gens") and self.chance(self.p["gens"]) else "fn"
        before = sc.fns
        self.def_fn(sc, "f%d" % self.nf, kind)
        if ctx.depth:
            # defined in a nested block: only known to be bound there
            f = sc.fns[-1]
            self.w("log(%s)" % f.name)
            if f.kind == "fn":
                self.w("log('r', %s)" % self.callstr(sc, 1, f))
            sc.fns = before

    def s_recdef(self, sc, ctx):
        """a recursive function with captured variables"""
        if ctx.depth or sc.kind == "cls":
            return False
        self.nf += 1
        n = "f%d" % self.nf
        r = self.r
        self.w("def %s(a0, a1):" % n)
        self.ind += 1
        inner = Scope("fn", sc, n)
        inner.vars = ["a1"]
        self.w("v0 = %s" % self.ve(inner, 1))
        inner.vars = ["a1", "v0"]
        self.w("def g(z):")
        self.ind += 1
        gsc = Scope("fn", inner, "g")
        gsc.vars = ["z"]
        gsc.outer = ["v0", "a1"]
        if self.v >= (3, 0) and self.chance(0.5):
            self.w("nonlocal v0")
            self.w("v0 = %s" % self.ve(gsc, 1))
        self.w("log('g', v0, a1, z)")
        self.w("return %s" % self.ve(gsc, 1))
        self.ind -= 1
        if self.chance(0.7):
            self.w("if a0 > 0:")
            self.ind += 1
            self.w("try:" if self.chance(0.5) else "if True:")
            t = self.lines[-1].strip()
            self.ind += 1
            self.w("log('rec', %s(a0 - 1, %s))" % (n, self.ve(inner, 1)))
            self.ind -= 1
            if t == "try:":
                self.w("finally:")
                self.ind += 1
                self.w("log('un', a0, v0)")
                self.ind -= 1
            self.ind -= 1
        self.w("log('after', a0, v0, a1)")
        self.w("v0 = %s" % self.ve(inner, 1))
        self.w("log('gc', g(%s))" % self.ve(inner, 1))
        self.w("return %s" % r.choice(("g", "v0", "g(1)")))
        self.ind -= 1
        self.w("log('top', %s(%d, %s))" % (n, r.randint(0, 3), self.ve(sc, 1)))

    def s_recurse(self, sc, ctx):
        """a recursive function some of whose variables are bound in some of its calls only"""
        if ctx.depth or sc.kind == "cls":
            return False
        self.nf += 1
        r = self.r
        n = "f%d" % self.nf
        gen = self.v >= (2, 5) and self.chance(self.p.get("gens", 0) and 0.35)
        self.w("def %s(a0, a1):" % n)
        self.ind += 1
        inner = Scope("fn", sc, n)
        inner.vars = ["a1"]
        names = ["v%d" % i for i in range(r.randint(1, 3))]
        closed = self.chance(0.35)
        if closed:
            self.w("def g():")
            self.w("    return %s" % r.choice(names))
        again = "%s(a0 - 1, %s)"
        if gen:
            again = "list(keep(%s))" % again
        rec = False
        for _ in range(r.randint(3, 7)):
            v = r.choice(names)
            k = r.random()
            if k < 0.35:
                self.w("if a0 %s %d:" % (r.choice(("==", "==", "!=", ">", "<")), r.randint(0, 2)))
                self.w("    %s = %s" % (v, self.ve(inner, 1)))
            elif k < 0.65:
                self.w("try:")
                self.w("    log('v', a0, %s)" % ("g()" if closed and self.chance(0.5) else v))
                self.w("except NameError:")
                self.w("    log('unbound', a0)")
            elif k < 0.72:
                self.w("try:")
                self.w("    log('d')") if closed and self.v < (3, 2) else self.w("    del %s" % v)
                self.w("except NameError:")
                self.w("    log('unbound', a0)")
            elif k < 0.8 and gen:
                self.w("yield %s" % self.ve(inner, 1))
            elif k < 0.85:
                self.w("for %s in it(a0):" % v)
                self.w("    log('l', a0, %s)" % v)
            else:
                rec = True
                self.w("if a0 > 0:")
                self.w("    log('rec', %s)" % (again % (n, self.ve(inner, 1))))
        if not rec:
            self.w("if a0 > 0:")
            self.w("    log('rec', %s)" % (again % (n, self.ve(inner, 1))))
        v = r.choice(names)
        self.w("try:")
        self.w("    log('v', a0, %s)" % v)
        self.w("except NameError:")
        self.w("    log('unbound', a0)")
        self.w("yield a1" if gen else "return a1")
        self.ind -= 1
        call = "%s(%d, %s)" % (n, r.randint(1, 2), self.ve(sc, 1))
        self.w("log('top', %s)" % ("list(keep(%s))" % call if gen else call))

    def s_curexc(self, sc, ctx):
        """a function or a generator that asks for the exception handled by its caller;
        the generator is resumed from several places (3.x)"""
        if ctx.depth or sc.kind == "cls":
            return False
        self.nf += 1
        r = self.r
        n = self.nf
        gen = self.chance(0.7)
        self.w("def f%d(a0):" % n)
        self.ind += 1
        inner = Scope("fn", sc, "f%d" % n)
        inner.vars = ["a0"]
        for i in range(r.randint(1, 4)):
            k = r.random()
            if k < 0.5:
                self.ask(n, i)
            elif k < 0.7:
                self.w("try:")
                self.w("    raise %s('@q%d_%d')" % (r.choice(EXC), n, i))
                self.w("except Exception as eq:")
                self.ind += 1
                self.w("log('own', eq)")
                if gen and self.chance(0.5):
                    self.w("log('sent', (yield %s))" % self.ve(inner, 1))
                self.w("try:")
                self.w("    raise")
                self.w("except Exception as er:")
                self.w("    log('again', er)")
                self.ind -= 1
            elif k < 0.8:
                self.w("log(%s)" % self.e(inner, 1))
            else:
                self.ask(n, i)
            if gen:
                self.w("yield %s" % self.ve(inner, 1))
        if self.chance(0.3):
            self.w("raise")
        self.w("log('over', a0)")
        self.ind -= 1
        use = "next(q%d)" % n if gen else "f%d(%s)" % (n, self.ve(sc, 1))
        if gen:
            self.w("q%d = keep(f%d(%s))" % (n, n, self.ve(sc, 1)))
        if gen and self.chance(0.4):
            self.w("def u%d():" % n)
            self.w("    return next(q%d)" % n)
            use2 = "u%d()" % n
        else:
            use2 = use
        for i in range(r.randint(2, 5)):
            u = r.choice((use, use2))
            if self.chance(0.5):
                # from a function of its own
                self.w("def h%d_%d():" % (n, i))
                self.ind += 1
                self.use_curexc(u, n, i)
                self.ind -= 1
                self.w("h%d_%d()" % (n, i))
            else:
                self.use_curexc(u, n, i)

    def use_curexc(self, u, n, i):
        r = self.r
        k = r.random()
        if k < 0.35:
            self.w("try:")
            self.w("    log('nx', %s)" % u)
            self.w("except Exception as es:")
            self.w("    log('gx', es)")
        elif k < 0.9:
            self.w("try:")
            self.w("    raise %s('@w%d_%d')" % (r.choice(EXC), n, i))
            self.w("except Exception as es:")
            self.ind += 1
            self.w("try:")
            self.w("    log('nx', %s)" % u)
            self.w("except Exception as et:")
            self.w("    log('gx', et)")
            if self.chance(0.6):
                self.w("try:")
                self.w("    raise")
                self.w("except Exception as et:")
                self.w("    log('mine', et)")
            self.ind -= 1
        else:
            self.w("try:")
            self.w("    try:")
            self.w("        raise %s('@w%d_%d')" % (r.choice(EXC), n, i))
            self.w("    finally:")
            self.w("        log('nx', %s)" % u)
            self.w("except Exception as es:")
            self.w("    log('gx', es)")

    def ask(self, n, i):
        if self.chance(0.4):
            self.w("log('xi', sys.exc_info()[:2])")
            self.need_sys = True
            return
        self.w("try:")
        self.w("    raise")
        self.w("except Exception as eq:")
        self.w("    log('cur', eq)")

    def s_cellprobe(self, sc, ctx):
        """several closures over the same and over different variables"""
        if ctx.depth or sc.kind == "cls":
            return False
        self.nf += 1
        n = "f%d" % self.nf
        r = self.r
        self.w("def %s(a0):" % n)
        self.ind += 1
        self.w("v1 = [a0]")
        bound_late = self.chance(0.4)
        if not bound_late:
            self.w("v0 = P(1)")
        self.w("def get():")
        self.w("    return (v0, v1)")
        if self.v >= (3, 0):
            self.w("def put(x):")
            self.w("    nonlocal v0")
            self.w("    v0 = x")
            self.w("    return v0")
        else:
            self.w("def put(x):")
            self.w("    v1.append(x)")
            self.w("    return x")
        if bound_late and self.chance(0.5):
            self.w("try:")
            self.w("    log('early', get())")
            self.w("except NameError:")
            self.w("    log('unbound')")
        self.w("v0 = P(2)")
        if self.chance(0.4):
            self.w("for v0 in it(2):")
            self.w("    log('l', get())")
        self.w("log('in', get())")
        self.w("return (get, put)")
        self.ind -= 1
        x, y = "q%da" % self.nf, "q%db" % self.nf
        self.w("%s = %s(%s)" % (x, n, self.ve(sc, 1)))
        self.w("%s = %s(%s)" % (y, n, self.ve(sc, 1)))
        for _ in range(r.randint(1, 4)):
            z = r.choice((x, y))
            if self.chance(0.5):
                self.w("%s[1](%s)" % (z, self.ve(sc, 1)))
            self.w("log('cells', %s[0](), %s[0]())" % (x, y))

    def s_nest(self, sc, ctx):
        """functions nested several levels deep over the same variables; the inner ones
        are kept and called after the outer ones have rebound, deleted or left them"""
        if ctx.depth or sc.kind == "cls":
            return False
        self.nf += 1
        n = self.nf
        self.w("ks%d = []" % n)
        depth = self.r.randint(2, 4)
        self.nest_level(sc, n, 1, depth, [])
        for _ in range(self.r.randint(1, 2)):
            self.w("try:")
            self.w("    log('nest', f%d_1(%s))" % (n, self.ve(sc, 1)))
            self.w("except NameError:")
            self.w("    log('unbound')")
        self.w("for k%d in ks%d[:6]:" % (n, n))
        self.w("    try:")
        self.w("        log('kept', k%d(%s))" % (n, self.ve(sc, 1)))
        self.w("    except NameError:")
        self.w("        log('unbound')")

    def nest_level(self, sc, n, lv, depth, above):
        """`above`: the variables of the enclosing functions"""
        r = self.r
        kind = "def"
        if 1 < lv and self.chance(0.2):
            kind = r.choice(("lambda", "gen", "cls" if lv < depth else "lambda"))
        own = ["n%d" % (i + 3 * lv) for i in range(r.randint(0 if lv > 1 else 1, 2))]
        a = "b%d" % lv
        if above and self.chance(0.2):
            own.append(r.choice(above))         # a variable of its own, of that name
        if kind == "lambda" and above:
            v = r.choice(above)
            self.w("f%d_%d = lambda %s: [%s, (lambda: %s)()]" % (n, lv, a, v, r.choice(above)))
            return
        if kind == "gen" and above:
            self.w("f%d_%d = lambda %s: list(keep((%s, q) for q in it(2) if [%s][0] is not None))" % (
                n, lv, a, r.choice(above), r.choice(above)))
            return
        if kind == "cls" and above:
            # the class body in between has its own names
            self.w("class N%d_%d(object):" % (n, lv))
            self.ind += 1
            v = r.choice(above)
            if self.chance(0.4) and self.v >= (3, 0):
                self.w("log('cls', %s)" % v)
            if self.chance(0.4):
                self.w("%s = 'own'" % v)
            self.w("def m(self, %s):" % a)
            self.w("    return (%s, %s)" % (v, r.choice(above)))
            self.ind -= 1
            self.w("def f%d_%d(%s):" % (n, lv, a))
            self.w("    return N%d_%d().m(%s)" % (n, lv, a))
            return
        self.w("def f%d_%d(%s):" % (n, lv, a))
        self.ind += 1
        inner = Scope("fn", sc, "nest")
        inner.vars = [a]
        vis = sorted(set(above) | set(own) | {a})
        up = [v for v in above if v not in own and v != a]
        nl = []
        if up and self.v >= (3, 0) and self.chance(0.5):
            nl = [v for v in up if self.chance(0.5)]
            if nl:
                self.w("nonlocal %s" % ", ".join(nl))
        settable = own + nl + [a]
        for v in own:
            if self.chance(0.75):
                self.w("%s = %s" % (v, self.ve(inner, 1)))
        made = lv >= depth
        for _ in range(r.randint(2, 6)):
            k = r.random()
            if not made and k < 0.4:
                self.nest_level(sc, n, lv + 1, depth, vis)
                made = True
            elif k < 0.5:
                self.w("%s = %s" % (r.choice(settable), self.ve(inner, 1)))
            elif k < 0.7:
                self.w("log('n', %s)" % r.choice(vis))
            elif k < 0.75 and self.v >= (3, 2):
                v = r.choice(settable)
                self.w("del %s" % v)
                if self.chance(0.6):
                    self.w("%s = %s" % (v, self.ve(inner, 1)))
            elif k < 0.8:
                v = r.choice(settable)
                self.w("for %s in it(2):" % v)
                self.w("    log('l', %s)" % v)
            elif made and lv < depth:
                f = "f%d_%d" % (n, lv + 1)
                if self.chance(0.4):
                    self.w("ks%d.append(%s)" % (n, f))
                else:
                    self.w("log('c', %s(%s))" % (f, self.ve(inner, 1)))
        if not made:
            self.nest_level(sc, n, lv + 1, depth, vis)
        if lv < depth:
            self.w("ks%d.append(f%d_%d)" % (n, n, lv + 1))
            if self.chance(0.5):
                self.w("%s = %s" % (r.choice(settable), self.ve(inner, 1)))
            if self.chance(0.5):
                self.w("log('c', f%d_%d(%s))" % (n, lv + 1, self.ve(inner, 1)))
        self.w("return (%s,)" % ", ".join(r.sample(vis, min(2, len(vis)))))
        self.ind -= 1

    # ------------------------------------------------------------ classes
    def s_class_(self, sc, ctx):
        if ctx.depth > 1 or sc.kind == "cls" or ctx.handler:
            return False
        r = self.r
        self.nc += 1
        n = "C%d" % self.nc
        bases = [f for f in self.callables(sc) if f.kind == "cls" and f.scope is sc]
        base = r.choice(bases).name if bases and self.chance(0.5) else "object"
        cls = Scope("cls", sc, n)
        self.w("class %s(%s):" % (n, base))
        self.ind += 1
        cls.outer = [v for v in sc.readable() if sc.kind == "mod" or self.chance(0.5)]
        for _ in range(r.randint(0, 2)):
            if self.chance(0.6):
                t = "c%d" % r.randint(0, 2)
                self.w("%s = %s" % (t, self.ve(cls, 1)))
                if t not in cls.vars:
                    cls.vars.append(t)
            else:
                self.w("log(%s)" % self.e(cls, 1))
        if base == "object":
            nargs = r.randint(0, 1)
            self.w("def __init__(self%s):" % ", a0" * nargs)
            self.ind += 1
            isc = Scope("fn", cls, "__init__")
            isc.vars = ["a0"] * nargs
            isc.outer = [v for v in sc.readable()] if sc.kind == "mod" else []
            self.w("self.y = %s" % self.ve(isc, 1))
            self.w("log('init')")
            self.ind -= 1
            kinds = r.sample(["m0", "m1", "__getitem__", "__call__", "__add__", "__bool__", "ctx", "iter"], r.randint(1, 3))
        else:
            nargs = len([f for f in bases if f.name == base][0].params)
            kinds = r.sample(["m0", "m1"], r.randint(0, 2))
        for k in kinds:
            if k == "ctx":
                self.w("def __enter__(self):")
                self.w("    log('E', self.y)")
                self.w("    return self.y")
                self.w("def __exit__(self, t, v, tb):")
                self.w("    log('X', v)")
                self.w("    return %s" % r.choice(("None", "flag(1)", "False")))
            elif k == "iter":
                self.w("def __iter__(self):")
                self.w("    return it(2)")
            elif k == "__bool__":
                self.w("def __bool__(self):")
                self.w("    return flag(2)")
            elif k in ("__getitem__", "__add__"):
                self.def_fn(cls, k, params=["a0"], method=True, n=1, reg=False)
            elif k == "__call__":
                self.def_fn(cls, k, params=[], method=True, n=1, reg=False)
            else:
                self.def_fn(cls, k, params=["a0"], method=True, n=r.randint(1, 3), reg=False)
        self.ind -= 1
        f = Fn(n, "cls", ["a0"] * nargs, sc)
        o = "o%d" % self.nc
        self.w("%s = %s(%s)" % (o, n, self.args(sc, 1, nargs)))
        uses = list(kinds) + (["m0"] if base != "object" else [])
        for k in uses:
            if self.chance(0.3):
                continue
            if k == "ctx":
                self.w("with %s:" % o)
                self.block(sc, ctx.sub())
            elif k == "iter":
                self.w("for z in %s:" % o)
                self.block(sc, ctx.sub(loop=1, final=0), 1)
            elif k == "__bool__":
                self.w("if %s:" % o)
                self.block(sc, ctx.sub(), 1)
            elif k == "__getitem__":
                self.w("log(%s[%s])" % (o, self.ve(sc, 1)))
            elif k == "__add__":
                self.w("log(%s + %s)" % (o, self.ve(sc, 1)))
            elif k == "__call__":
                self.w("log(%s())" % o)
            else:
                self.w("log(%s.%s(%s))" % (o, k, self.ve(sc, 1)))
        self.w("log(%s.y)" % o)
        if ctx.depth == 0:
            sc.fns = sc.fns + [f]

    def s_classfail(self, sc, ctx):
        if sc.kind == "cls":
            return False
        r = self.r
        self.nc += 1
        n = "K%d" % self.nc
        self.w("%s = None" % n)
        self.w("try:")
        self.ind += 1
        base = r.choice(("object", "[%s, object][1]" % self.e(sc, 1)))
        self.w("class %s(%s):" % (n, base))
        cls = Scope("cls", sc, n)
        cls.outer = [v for v in sc.readable()] if sc.kind == "mod" else []
        self.ind += 1
        for i in range(r.randint(1, 3)):
            self.w("c%d = %s" % (i, self.ve(cls, 1)))
            cls.vars.append("c%d" % i)
        self.w("def m(self):")
        self.w("    return (self.c0, log('m'))")
        if self.chance(0.4):
            self.w("for c3 in it(2):")
            self.w("    log('cl', c3, c0)")
        if self.chance(0.4):
            self.w("try:")
            self.w("    c4 = %s" % self.e(cls, 1))
            self.w("except Exception:")
            self.w("    c4 = 'x'")
        self.ind -= 1
        self.ind -= 1
        self.w("except %s as exk%d:" % (r.choice(("Exception", "E1", "SimError")), self.nc))
        self.w("    log('cf', exk%d)" % self.nc)
        self.w("if %s is not None:" % n)
        self.w("    log(%s, %s().m())" % (n, n))

    # ------------------------------------------------------------ generators
    def s_yield_(self, sc, ctx):
        if sc.kind != "gen":
            return False
        if ctx.final and self.v < (2, 5):
            return False
        if self.v >= (2, 5) and self.chance(0.45):
            t = self.target(sc)
            self.w("%s = yield %s" % (t, self.ve(sc, 1)))
            self.assigned(sc, t, ctx)
            self.w("log('got', %s)" % t)
        else:
            self.w("yield %s" % self.ve(sc, 1))

    def s_yieldfrom(self, sc, ctx):
        if sc.kind != "gen":
            return False
        gens = [f for f in self.callables(sc) if f.kind == "gen"]
        if gens and self.chance(0.75):
            src = "keep(%s)" % self.callstr(sc, 1, self.r.choice(gens))
        else:
            src = self.r.choice(("it(%d)" % self.r.randint(0, 3), "itr(%d)" % self.r.randint(0, 3), "[1, %s]" % self.e(sc, 1)))
            if self.chance(self.p.get("throws", 0)):
                src = "dl(%d)" % self.r.randint(0, 4)
        if self.chance(0.6):
            t = self.target(sc)
            self.w("%s = yield from %s" % (t, src))
            self.assigned(sc, t, ctx)
            self.w("log('yf', %s)" % t)
        else:
            self.w("yield from %s" % src)

    def s_genloop(self, sc, ctx):
        """consume one generator by hand"""
        gens = [f for f in self.callables(sc) if f.kind == "gen"]
        if not gens or sc.kind == "cls":
            return False
        f = self.r.choice(gens)
        self.nx += 1
        g = "g%d" % self.nx
        self.w("%s = keep(%s)" % (g, self.callstr(sc, 1, f)))
        self.w("for i%d in sched(3, %d):" % (self.nx, self.r.randint(1, 8)))
        self.ind += 1
        self.drive_one(sc, g, "i%d" % self.nx)
        self.ind -= 1

    def drive_one(self, sc, g, i):
        self.nx += 1
        x = "exg%d" % self.nx
        self.w("try:")
        self.ind += 1
        if self.v >= (2, 5):
            self.w("if %s == 0:" % i)
            self.w("    log('sent', %s.send(%s))" % (g, self.ve(sc, 1)))
            self.throws(g, i)
            self.w("else:")
            self.w("    log('nx', next(%s))" % g)
        else:
            self.w("log('nx', next(%s))" % g)
        self.ind -= 1
        self.w("except StopIteration as %s:" % x)
        if self.v >= (3, 3):
            self.w("    log('stop', %s.value)" % x)
        else:
            self.w("    log('stop')")
        if self.chance(0.8):
            self.w("except %s as %sb:" % (self.r.choice(("Exception", "SimError", "Exception")), x))
            self.w("    log('gx', %sb)" % x)

    def s_drive(self, sc, ctx):
        """interleave several generators"""
        gens = [f for f in self.callables(sc) if f.kind == "gen"]
        if not gens or sc.kind == "cls" or ctx.loop:
            return False
        self.nx += 1
        n = self.nx
        k = self.r.randint(2, 3)
        self.w("gs%d = [%s]" % (n, ", ".join("keep(%s)" % self.callstr(sc, 1, self.r.choice(gens)) for _ in range(k))))
        self.w("for t%d in sched(%d, %d):" % (n, k, self.r.randint(3, 14)))
        self.ind += 1
        self.w("g%d = gs%d[t%d]" % (n, n, n))
        if self.v >= (2, 5):
            self.w("u%d = upto(4)" % n)
        self.drive_one(sc, "g%d" % n, "u%d" % n)
        self.ind -= 1

    # ------------------------------------------------------------ program
    def program(self):
        r = self.r
        self.module = Scope("mod", None, "<module>")
        m = self.module
        self.w("m0 = P(0)")
        m.vars.append("m0")
        if self.chance(0.6):
            self.w("m1 = P(1)")
            m.vars.append("m1")
        for i in range(self.p.get("nfuncs", 2) and r.randint(1, self.p.get("nfuncs", 2))):
            self.nf += 1
            kind = "gen" if self.p.get("gens") and self.chance(self.p["gens"]) else "fn"
            self.def_fn(m, "f%d" % self.nf, kind)
        ctx = Ctx()
        if self.chance(self.p.get("main_fn", 0.5)):
            # the main part as a function (fast locals)
            self.def_fn(m, "main", "fn", params=[], n=r.randint(3, 7))
            if "try_except" not in self.p.get("off", ()) and self.chance(0.6):
                self.w("try:")
                self.w("    log('main', main())")
                self.w("except Exception as et:")
                self.w("    log('goes on', et)")
            else:
                self.w("log('main', main())")
        n = r.randint(2, 6)
        guard = self.p.get("guard", 0.7) if "try_except" not in self.p.get("off", ()) else 0
        for _ in range(n):
            if self.chance(guard):
                # so that the program gets further
                self.w("try:")
                self.block(m, ctx.sub(), 1)
                self.w("except Exception as et:")
                self.w("    log('goes on', et)")
                if self.p.get("chains"):
                    self.w("    log('ch', chain(et))")
            elif self.stmt(m, ctx) == "end":
                break
        self.w("log('end', m0)")
        if self.need_sys:
            self.lines.insert(0, "import sys")
        return "\n".join(self.lines) + "\n"


def bad_raises(tree):
    """Bare raises that mean something else in Python 2, where the exception being
    handled is a matter of the function and not of the handler."""
    out = []

    def visit(n, handler):
        for m in ast.iter_child_nodes(n):
            if isinstance(m, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                visit(m, None)
            elif isinstance(m, ast.ExceptHandler):
                visit(m, m)
            elif isinstance(m, (ast.Try, ast.With)):
                visit(m, None)
            else:
                if isinstance(m, ast.Raise) and m.exc is None:
                    if handler is None or any(isinstance(k, (ast.Try, ast.With)) for k in ast.walk(handler)):
                        out.append(m)
                visit(m, handler)
    visit(tree, None)
    return out


def generate(rng, version, profile):
    """Source of one simulated program; always valid for the host compiler."""
    for _ in range(40):
        src = Gen(rng, version, profile).program()
        if profile.get("chains"):
            src = re.sub(r"^( *)(except .* as (\w+):)$", lambda m: m.group() + (
                "\n%s    log('ch', chain(%s))" % (m.group(1), m.group(3)) if rng.random() < 0.3 else ""), src, flags=re.M)
        try:
            compile(src, "<sim>", "exec", dont_inherit=True)
        except SyntaxError:
            continue
        if version < (3, 0):
            bad = bad_raises(ast.parse(src))
            if bad:
                lines = src.split("\n")
                for n in bad:
                    lines[n.lineno - 1] = lines[n.lineno - 1][:n.col_offset] + "raise E1('@rr%d')" % n.lineno
                src = "\n".join(lines)
        return src
    raise RuntimeError("generator produced no valid program")
