"""Imports (mixed into gen.Gen): modules of the simulated store (mods.py) imported in every
form, at every kind of scope, again after they were forgotten or have failed, and while they
are being run."""
from mods import NAMES

TOP = ("sim_a", "sim_b", "sim_c", "sim_p")
SUBS = ("sim_p.s", "sim_p.t", "sim_p.q", "sim_p.q.s", "sim_p.q.u")
BELOW = {"sim_p": ("s", "t", "q"), "sim_p.q": ("s", "u")}


class GenImports:
    def s_imports(self, sc, ctx):
        if ctx.depth or sc.kind != "mod":
            return False
        r = self.r
        if not getattr(self, "opened", False):
            self.opened = True
            self.w("mods()")
            if self.v >= (2, 5) and self.chance(0.3):
                # in a package
                self.inpack = True
                self.w("__package__ = 'sim_p'")
                self.w("__name__ = 'sim_p.main'")
                self.import_guard(["import sim_p"])
        for _ in range(r.randint(2, 5)):
            self.import_item("mod", 0)

    def import_guard(self, lines, also=""):
        self.w("try:")
        for s in lines:
            self.w("    " + s)
        k = self.r.random()
        if k < 0.7:
            self.w("except (ImportError, AttributeError%s) as et:" % also)
        else:
            self.w("except (Exception,) as et:" if k < 0.9 else "except ImportError as et:")
        self.w("    log('failed', et)")

    def modname(self, p_sub=0.35):
        r = self.r
        return r.choice(SUBS) if self.chance(p_sub) else r.choice(TOP + ("sim_p",) + (("sim_none",) if self.chance(0.2) else ()))

    def from_names(self, m):
        r = self.r
        pool = list(NAMES) + ["nope"]
        if m in BELOW and not self.loading():
            pool += BELOW[m] * 3
        out = []
        for n in r.sample(pool, r.choice((1, 1, 2, 3))):
            out.append(n if self.chance(0.7) else "%s as %s" % (n, r.choice(("i0", "i1", "n0"))))
        return ", ".join(out)

    def loading(self):
        """(before 3.5 a module that is being run cannot be taken from its package)"""
        return self.v < (3, 5) and getattr(self, "inload", False)

    def as_ok(self, m):
        # (before 3.7 the parts after the first are attributes, which gives another exception
        # if one is missing; modules may put something else in their place)
        return "." not in m or self.v >= (3, 7)

    def import_stmt(self, kind):
        """one import statement and what to look at afterwards"""
        r = self.r
        k = r.random()
        if k < 0.3:
            parts, look = [], []
            for _ in range(r.choice((1, 1, 1, 2))):
                m = self.modname()
                if self.chance(0.35) and self.as_ok(m):
                    a = r.choice(("i0", "i1", "n1"))
                    parts.append("%s as %s" % (m, a))
                    look.append(a)
                else:
                    parts.append(m)
                    look.append(r.choice((m.split(".")[0], m)))
            return ["import " + ", ".join(parts)], look
        if k < 0.62:
            m = self.modname()
            names = self.from_names(m)
            return (["from %s import %s" % (m, names)], [n.split(" as ")[-1] for n in names.split(", ")])
        if k < 0.78 and kind == "mod":
            return ["from %s import *" % self.modname()], ["n0"] if self.chance(0.3) else []
        if k < 0.9 and getattr(self, "inpack", False):
            m = r.choice((".", ".", ".s", ".q", ".q.s", ".nope", "..x"))
            if self.loading() and m in (".", ".q"):
                m = ".s"
            if m == ".":
                names = r.choice(("s", "t", "q", "s, t", "n0", "q as i0", "nope"))
            elif m == ".q":
                names = r.choice(("s", "u", "n0", "u as i1"))
            else:
                names = r.choice(("n0", "x_1", "max as i2"))
            # (that there is no package above is a ValueError or an ImportError)
            if m == "..x" and self.v < (3, 0):
                m = ".s"
            return (["from %s import %s" % (m, names)], [n.split(" as ")[-1] for n in names.split(", ")])
        m = self.modname()
        a = r.choice(("i0", "i1"))
        return (["%s = __import__(%r%s)" % (a, m, r.choice(("", "", ", globals()", ", globals(), locals(), ['s', 'n0']")))], [a])

    def import_item(self, kind, depth):
        r = self.r
        k = r.random()
        if k < 0.5:
            lines, look = self.import_stmt(kind)
            for n in look:
                if self.chance(0.7):
                    lines.append("log('m', %s)" % n)
            if self.chance(0.25):
                lines.append("log('x', %s.%s)" % (look[0] if look else "sim_p", r.choice(NAMES)))
            self.import_guard(lines, ", NameError")
            if self.chance(0.5):
                self.w("log('b', bound(%s))" % r.choice(("globals()", "locals()")))
        elif k < 0.6:
            self.w("forget(%r)" % r.choice(TOP + SUBS))
        elif k < 0.63:
            m = r.choice(TOP if self.v < (3, 5) else TOP + ("sim_p",))
            new = r.choice(("sim_b", "sim_c", "sim_none", "os") + (("sim_p",) if self.v >= (3, 5) else ()))
            self.import_guard(["import %s" % m, "%s.__name__ = %r" % (m, new)], ", NameError")
        elif k < 0.67:
            n = r.choice(("n0", "n1", "sim_a", "sim_p", "i0", "s", "_u0"))
            self.import_guard(["del %s" % n], ", NameError")
        elif k < 0.7:
            # a package without its module as an attribute
            if self.v >= (3, 5):
                self.import_guard(["del sim_p.%s" % r.choice("stq")], ", NameError")
        elif k < 0.76:
            c = r.random()
            if c < 0.4:
                self.w("log('sys', 'sys' in globals())")
            elif c < 0.6:
                self.w("sys = %r" % r.choice(("s", 5)))
            else:
                self.w("import sys as i2%s" % r.choice(("", ", sys")))
                self.w("log('v', i2 is sys if 'sys' in globals() else i2.getrecursionlimit() > 0)"
                       if kind == "mod" else "log('v', i2.getrecursionlimit() > 0)")
        elif k < 0.83:
            m = r.choice(("os", "os.path", "collections"))
            c = r.random()
            if c < 0.4:
                self.import_guard(["import %s" % m, "log('m', %s)" % m])
            elif c < 0.6:
                self.import_guard(["import %s as i1" % m, "log('m', i1)"])
            else:
                n = {"os": "sep", "os.path": "join", "collections": "deque"}[m]
                self.import_guard(["from %s import %s as i1, %s" % (m, n, r.choice((n, n, "nope"))), "log('m', i1)"])
        elif k < 0.89 and depth == 0:
            self.nf += 1
            f = "h%d" % self.nf
            self.w("def %s(name):" % f)
            self.ind += 1
            self.w("log('while', name)")
            self.inload = True
            for _ in range(r.randint(1, 2)):
                lines, look = self.import_stmt("fn")
                self.import_guard(lines + ["log('m', %s)" % n for n in look[:1]], ", NameError")
            self.ind -= 1
            self.inload = False
            m = r.choice(TOP + SUBS[:3])
            self.w("onload(%r, %s)" % (m, f))
            self.w("forget(%r)" % m)
        elif depth < 2:
            self.import_scope(depth)
        else:
            self.w("log('b', bound(locals()))")

    def import_scope(self, depth):
        r = self.r
        self.nf += 1
        f = "h%d" % self.nf
        new = r.choice(("fn", "fn", "cls", "gen"))
        self.w("class %s(object):" % f if new == "cls" else "def %s():" % f)
        self.ind += 1
        if self.chance(0.4):
            self.w("global %s" % r.choice(("n0", "i0", "sim_a", "s")))
        if self.chance(0.3):
            self.w("i1 = 1")
        for _ in range(r.randint(1, 4)):
            self.import_item(new, depth + 1)
        if new == "gen":
            self.w("yield bound(locals())")
        elif new == "fn":
            self.w("return bound(locals())")
        self.ind -= 1
        if new == "cls":
            self.w("log('cls', bound(%s.__dict__))" % f)
        else:
            self.import_guard(["log('r', %s)" % ("list(keep(%s()))" % f if new == "gen" else f + "()")], ", NameError")
            if self.chance(0.3):
                self.import_guard(["log('again', %s)" % ("list(keep(%s()))" % f if new == "gen" else "cb(%s)" % f)], ", NameError")
