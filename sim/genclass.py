"""Class hierarchies (mixed into gen.Gen): inheritance, every kind of method, special
methods asked for by opcodes and by native code, super, descriptors, decorators,
metaclasses - the uses follow from a model of what each class has."""
import ast  # noqa: F401


class Model:
    """What the generator knows about a class; `mirror` gives its method resolution."""

    def __init__(self, name, bases, scope):
        self.name, self.bases, self.scope = name, bases, scope
        self.own = {}               # name -> (kind, Sig)
        self.mirror = type(name, tuple(b.mirror for b in bases) or (object,), {"model": None})
        self.mirror.model = self

    def mro(self):
        return [c.__dict__["model"] for c in self.mirror.__mro__ if "model" in c.__dict__]

    def find(self, name):
        for c in self.mro():
            if name in c.own:
                return c.own[name]
        return None

    def after(self, name):
        """what super().name finds from this class in its own mro"""
        for c in self.mro()[1:]:
            if name in c.own:
                return c.own[name]
        return None

    def all(self):
        out = {}
        for c in reversed(self.mro()):
            out.update(c.own)
        return out


# name: (parameters after self, how it is used)
SPECIAL = {
    "__getitem__": ("i", "%s[{ve}]"),
    "__setitem__": ("i, x", "%s[{ve}] = {ve}"),
    "__delitem__": ("i", "del %s[{ve}]"),
    "__add__": ("x", "log(%s + {ve})"),
    "__radd__": ("x", "log(3 + %s)"),
    "__iadd__": ("x", "AUG"),
    "__sub__": ("x", "log(%s - {ve})"),
    "__neg__": ("", "log(-%s)"),
    "__call__": ("SIG", "CALL"),
    "__bool__": ("", "BOOL"),
    "__len__": ("", "log(len(%s))"),
    "__contains__": ("x", "log({ve} in %s)"),
    "__iter__": ("", "FOR"),
    "__enter__": ("", "WITH"),
    "__eq__": ("x", "log(%s == {ve})"),
    "__lt__": ("x", "log(%s < {ve})"),
    "__hash__": ("", "log(len({%s: 1}))"),
    "__str__": ("", "log(str(%s))"),
    "__getattr__": ("n", "log(%s.zz)"),
    "__setattr__": ("n, x", "%s.y9 = {ve}"),
    "__getattribute__": ("n", "log(%s.y0)"),
}


class GenClass:
    def s_family(self, sc, ctx):
        if ctx.depth > 1 or sc.kind == "cls" or ctx.handler:
            return False
        r = self.r
        known = [f.model for f in sc.fns if f.kind == "model"]
        before = sc.fns
        for _ in range(r.choice((1, 2, 2, 3))):
            c = self.emit_class(sc, ctx, known)
            known.append(c)
        if ctx.depth:
            sc.fns = before
        for _ in range(r.randint(1, 3)):
            self.use_class(sc, ctx, r.choice(known[-3:]))

    # ------------------------------------------------------------ definition
    def emit_class(self, sc, ctx, known):
        from gen import Fn, Scope
        r = self.r
        self.nc += 1
        n = "D%d" % self.nc
        bases = []
        if known and self.chance(0.75):
            bases = [r.choice(known)]
            if len(known) > 1 and self.chance(0.35):
                other = r.choice([k for k in known if k is not bases[0]])
                try:
                    type("x", (bases[0].mirror, other.mirror), {})
                    bases.append(other)
                except TypeError:
                    try:
                        type("x", (other.mirror, bases[0].mirror), {})
                        bases.insert(0, other)
                    except TypeError:
                        pass
        if len({b.meta for b in bases if b.meta}) > 1 and self.v < (3, 0):
            bases = bases[:1]       # (2.x notices the conflict only after the body)
        m = Model(n, bases, sc)
        fn = Fn(n, "model", [], sc)
        fn.model = m
        m.meta = None
        head = [b.name for b in bases] or ["object"]
        if self.chance(0.12):
            head[0] = "[%s, %s][1]" % (self.ve(sc, 1), head[0])
        metas = [b.meta for b in bases if b.meta]
        if metas:
            m.meta = metas[0]
        meta = None
        if (not metas and not any(b.meta for c in bases for b in c.mro()) and self.chance(0.16)) or (
                len(set(metas)) == 1 and self.chance(0.3)):
            meta = self.emit_meta(sc, metas[0] if metas else "type")
            m.meta = meta
            head.append("metaclass=%s" % (meta if self.v < (3, 0) or self.chance(0.7) else "[%s, %s][1]" % (self.ve(sc, 1), meta)))
        if self.v >= (3, 6) and any("__init_subclass__" in c.own for c in m.mro()) and self.chance(0.8):
            head.append("opt=%s" % self.ve(sc, 1))
        if self.v >= (2, 6) and self.chance(0.15):
            for _ in range(r.randint(1, 2)):
                self.w("@deco(%d)" % r.randint(0, 9))
        cls = Scope("cls", sc, n)
        cls.outer = [v for v in sc.readable() if sc.kind == "mod" or self.chance(0.5)]
        self.w("class %s(%s):" % (n, ", ".join(head)))
        self.ind += 1
        if self.chance(0.15):
            self.w("'''about %s'''" % n)
        items = []
        for k in ("m0", "m1", "m2"):
            p = 0.5 if not m.after(k) else 0.45
            if self.chance(p):
                items.append((k, "inst"))
        for k, kind in (("t0", "static"), ("k0", "cls"), ("p0", "prop"), ("g0", "gen"), ("d0", "desc")):
            if self.chance(0.16):
                items.append((k, kind))
        for k in r.sample(sorted(SPECIAL), r.choice((0, 0, 1, 2, 3))):
            items.append((k, "special"))
        if self.chance(0.6 if not bases else 0.3):
            items.append(("__init__", "init"))
        if self.chance(0.08):
            items.append(("__new__", "new"))
        if self.v >= (3, 6) and self.chance(0.08):
            items.append(("__init_subclass__", "sub"))
        for _ in range(r.randint(0, 2)):
            items.append((None, "stmt"))
        if self.chance(0.08):
            items.append(("N", "nested"))
        r.shuffle(items)
        # the kind of a name stays the same in the whole family
        for k, kind in items:
            old = m.after(k) if k else None
            if old and old[0] != kind:
                continue
            self.member(m, cls, k, kind)
        if not items:
            self.w("pass")
        self.ind -= 1
        if ctx.depth == 0:
            sc.fns = sc.fns + [fn]
        if self.chance(0.25):
            what = ["%s.__name__" % n, "[b.__name__ for b in %s.__mro__]" % n]
            if self.v >= (3, 0):
                what.append("%s.__doc__" % n)
                what.append("%s.__module__" % n)
            if self.v >= (3, 4) and sc.kind == "mod":
                what.append("%s.__qualname__" % n)
            self.w("log('class', %s)" % r.choice(what))
        return m

    def emit_meta(self, sc, base="type"):
        from gen import Scope  # noqa: F401
        r = self.r
        self.nc += 1
        n = "M%d" % self.nc
        self.w("class %s(%s):" % (n, base))
        self.ind += 1
        ks = r.sample(("__new__", "__init__", "__call__", "__prepare__" if self.v >= (3, 0) else "mm", "mm"), r.randint(1, 3))
        for k in ks:
            if k == "__new__":
                self.w("def __new__(mcs, name, bases, ns):")
                self.w("    log('new', name, bases)")
                self.w("    return type.__new__(mcs, name, bases, dict(ns))")
            elif k == "__init__":
                self.w("def __init__(cls, name, bases, ns):")
                keep = "list" if self.v >= (3, 6) else "sorted"
                self.w("    log('minit', name, %s(k for k in ns if k[0] != '_'))" % keep)
                self.w("    type.__init__(cls, name, bases, dict(ns))")
            elif k == "__call__":
                self.w("def __call__(cls, *a, **k):")
                self.w("    log('make', a)")
                self.w("    return type.__call__(cls, *a, **k)")
            elif k == "__prepare__":
                self.w("def prep(mcs, name, bases):")
                self.w("    log('prep', name, bases)")
                self.w("    return {'c7': 7}")
                self.w("__prepare__ = classmethod(prep)")
            else:
                self.w("def mm(cls):")
                self.w("    return ('mm', cls.__name__)")
        self.ind -= 1
        return n

    def member(self, m, cls, k, kind):
        r = self.r
        n = m.name
        if kind == "stmt":
            c = r.random()
            t = "c%d" % r.randint(0, 2)
            if c < 0.5:
                self.w("%s = %s" % (t, self.ve(cls, 1)))
                cls.vars.append(t) if t not in cls.vars else None
                m.own[t] = ("attr", None)
            elif c < 0.7:
                self.w("log('body', %s)" % self.e(cls, 1))
            elif c < 0.85:
                self.w("for %s in it(%d):" % (t, r.randint(1, 2)))
                self.w("    log('cl', %s)" % t)
            else:
                self.w("if %s:" % self.cond(cls, 1))
                self.w("    c5 = %s" % self.ve(cls, 1))
            return
        if kind == "nested":
            self.w("class N(object):")
            self.w("    c0 = %s" % self.ve(cls, 2))
            self.w("    def m(self):")
            self.w("        return ('N', self.c0)")
            m.own["N"] = ("nested", None)
            return
        if kind == "desc":
            if m.after("d0"):
                return
            set_ = self.chance(0.5)
            self.w("class DD(object):")
            self.w("    def __get__(self, o, t=None):")
            self.w("        log('get', o is None, t.__name__)")
            self.w("        return %s" % r.choice(("P(1)", "5", "t")))
            if set_:
                self.w("    def __set__(self, o, x):")
                self.w("        log('set', x)")
            if self.v >= (3, 6):
                self.w("    def __set_name__(self, o, n):")
                self.w("        log('named', n)")
            self.w("d0 = DD()")
            m.own["d0"] = ("desc", set_)
            return
        if kind == "new":
            if m.find("__init__") is None and "__init__" not in m.own or True:
                self.w("def __new__(cls, *a, **k):")
                self.w("    log('new', cls.__name__, a)")
                if self.chance(0.15):
                    self.w("    if flag(4):")
                    self.w("        return P(7)")
                self.w("    return object.__new__(cls)")
                m.own["__new__"] = ("new", None)
            return
        if kind == "sub":
            self.w("def __init_subclass__(cls, opt=None, **k):")
            self.w("    log('sub', cls.__name__, opt)")
            m.own[k] = ("sub", None)
            return
        sig = m.after(k)
        sig = sig[1] if sig and sig[1] is not None and self.chance(0.8) else None
        if kind in ("special", "prop"):
            sig = self.simple_sig(k, cls, SPECIAL[k][0] if kind == "special" and SPECIAL[k][0] != "SIG" else "")
            if kind == "special" and SPECIAL[k][0] == "SIG":
                sig = self.make_sig(k, cls, True)
        elif sig is None:
            sig = self.make_sig(k, cls, True)
            if self.chance(0.6):
                sig = self.simple_sig(k, cls, r.choice(("", "a0", "a0", "a0, b0")))
        else:
            sig = self.resig(sig, k, cls)
        if kind == "static":
            if self.chance(0.5):
                self.w("@staticmethod")
                post = None
            else:
                post = "t0 = staticmethod(t0)"
        elif kind == "cls":
            post = None
            if self.chance(0.5):
                self.w("@classmethod")
            else:
                post = "k0 = classmethod(k0)"
        elif kind == "prop":
            post = None
            self.w("@property")
        else:
            post = None
            if kind == "inst" and self.chance(0.06) and self.v >= (2, 4):
                self.w("@deco(%d)" % r.randint(0, 9))
        self.method(m, cls, k, kind, sig)
        # (calling the method in the class body is not for all versions the same)
        cls.outer = [x for x in cls.outer if x != k]
        if post:
            self.w(post)
        if kind == "prop" and self.v >= (2, 6) and self.chance(0.5):
            self.w("@p0.setter")
            self.w("def p0(self, x):")
            self.w("    log('setter', x)")
            self.w("    self.y1 = x")
            m.own["p0"] = ("prop", True)
            return
        if k == "__enter__":
            self.w("def __exit__(self, t, v, tb):")
            self.w("    log('X', t is None, v)")
            self.w("    return %s" % r.choice(("None", "flag(1)", "False")))
        if k == "__eq__" and "__hash__" not in m.own:
            self.w("__hash__ = object.__hash__")
        m.own[k] = (kind, sig if kind != "prop" else None)

    def simple_sig(self, name, cls, params):
        from gencalls import Sig
        return Sig(name, cls, [p for p in params.split(", ") if p], 0)

    def resig(self, s, name, cls):
        from gencalls import Sig
        return Sig(name, cls, list(s.params), s.ndef, s.posonly, s.star, s.kwonly, s.dstar)

    def method(self, m, cls, k, kind, sig):
        from gen import Ctx, Scope
        r = self.r
        first = {"static": None, "cls": "cls"}.get(kind, "self")
        text, ret = self.sig_text(sig, cls, first=first)
        self.w("def %s(%s)%s:" % (k, text, ret))
        self.ind += 1
        if k == "__str__":
            # quiet: error messages ask for it, in some versions
            self.w("return 'str%d'" % r.randint(0, 9))
            self.ind -= 1
            return
        inner = Scope("fn", cls, k)
        inner.vars = list(sig.params) + [x for x, _ in sig.kwonly]
        if kind == "special" and k in ("__getattr__", "__setattr__", "__getattribute__"):
            inner.vars = ["x"] if "x" in sig.params else []
        if cls.parent.kind == "mod":
            inner.outer = list(cls.outer)
        names = self.sig_names(sig)
        if self.chance(0.1):
            self.w("'''doc'''")
        if k == "__getattr__":
            self.w("if n[0] == '_':")
            self.w("    raise AttributeError(n)")
        if k == "__getattribute__":
            self.w("if n[0] != 'y':")
            # (2.5, 2.6 and 3.1 compile "with" to plain attribute access)
            old = self.v < (2, 7) or self.v == (3, 1)
            self.w("    if n not in ('__qualname__'%s):" % (", '__enter__', '__exit__'" if old else ","))
            self.w("        log('touch', n)")
            self.w("    return object.__getattribute__(self, n)")
        what = ["'%s.%s'" % (m.name, k)] + names
        if k == "__setattr__":
            self.w("object.__setattr__(self, n, x)")
        self.w("log(%s)" % ", ".join(what))
        if kind == "init":
            self.w("self.y0 = %s" % self.ve(inner, 1))
        elif kind in ("inst", "special") and k not in ("__setattr__", "__getattribute__", "__getattr__"):
            if self.chance(0.3):
                self.w("self.y%d = %s" % (r.randint(0, 2), self.ve(inner, 1)))
            if self.chance(0.2):
                self.w("log('self', isinstance(self, %s))" % m.name)
        if kind in ("inst", "init", "cls") and self.chance(0.5 if m.bases else 0.1):
            self.super_call(m, inner, k, kind)
        if kind == "inst":
            for j in ("m0", "m1"):
                if j < k and m.find(j) and self.chance(0.4):
                    o = m.find(j)
                    self.w("log('via', self.%s(%s))" % (j, self.sigargs(inner, 1, o[1])))
                    break
        if self.chance(0.35):
            self.ind -= 1
            self.scoped_block(inner, names, Ctx(depth=2), r.randint(1, 2))
            self.ind += 1
        if kind == "gen":
            self.w("yield %s" % self.ve(inner, 1))
            if self.chance(0.5):
                self.w("for z in %s:" % self.iterable(inner, 1))
                self.w("    yield z")
        elif kind == "init" or k in ("__setattr__", "__setitem__", "__delitem__"):
            pass
        elif k == "__len__":
            self.w("return upto(3)")
        elif k == "__bool__":
            self.w("return flag(2)")
        elif k in ("__contains__", "__eq__", "__lt__") and self.chance(0.7):
            self.w("return %s" % r.choice(("flag(3)", "NotImplemented" if k != "__contains__" else "flag(2)", self.ve(inner, 1))))
        elif k == "__hash__":
            self.w("return upto(3)")
        elif k == "__iter__":
            self.w("return %s" % r.choice(("it(2)", "itr(1)", "iter([1, P(2)])")))
        elif k in ("__iadd__", "__enter__"):
            self.w("return %s" % r.choice(("self", self.ve(inner, 1))))
        elif k in ("__add__", "__radd__", "__sub__") and self.chance(0.15):
            self.w("return NotImplemented")
        elif self.chance(0.85):
            self.w("return %s" % (r.choice(inner.vars) if inner.vars and self.chance(0.5) else self.ve(inner, 1)))
        self.ind -= 1

    def scoped_block(self, inner, params, ctx, n):
        """A block whose assignments stay within the function `inner`."""
        saved = self.target
        allowed = [p for p in params if p not in ("rest", "more")] + ["v0", "v1"]

        def target(s):
            return saved(s) if s is not inner else self.r.choice(allowed)
        self.target = target
        self.block(inner, ctx, n)
        self.target = saved

    def super_call(self, m, inner, k, kind):
        r = self.r
        o = m.after(k)
        first = "cls" if kind == "cls" else "self"
        how = []
        if m.bases and o:
            how = ["super(%s, %s).%s(" % (m.name, first, k)] * 2
            if self.v >= (3, 0):
                how += ["super().%s(" % k] * 2
            definer = [c for c in m.mro()[1:] if k in c.own][0]
            if kind != "cls":
                how += ["%s.%s(self, " % (definer.name, k)] * 2
                how += ["%s.%s(self, " % (b.name, k) for b in m.bases if b.find(k)]
        elif self.chance(0.3):
            # nothing to be found there (unless a sibling has it)
            how = ["super(%s, %s).%s(" % (m.name, first, k)]
        if not how:
            return
        h = r.choice(how)
        args = self.sigargs(inner, 1, o[1], pre=h.endswith(", ")) if o else ""
        s = (h + args + ")").replace("self, )", "self)")
        if kind == "init":
            self.w(s)
        else:
            self.w("log('super', %s)" % s)

    # ------------------------------------------------------------ use
    def use_class(self, sc, ctx, m):
        r = self.r
        self.nx += 1
        o = "ob%d" % self.nx
        init = m.find("__init__")
        args = self.sigargs(sc, 1, init[1]) if init else ("" if self.chance(0.95) else "1")
        guard = not self.ctx_plain and self.sw.get("try_except") and self.chance(0.5)
        if guard:
            self.w("%s = None" % o)
            self.w("try:")
            self.ind += 1
        self.w("%s = %s(%s)" % (o, m.name, args))
        names = m.all()
        uses = []
        for k in sorted(names):
            kind, s = names[k]
            if self.chance(0.7):
                uses.append((k, kind, s))
        r.shuffle(uses)
        for k, kind, s in uses[:5]:
            self.use_member(sc, ctx, m, o, k, kind, s)
        c = r.random()
        if c < 0.2:
            self.w("log('y', %s.y%d)" % (o, r.randint(0, 2)))
        elif c < 0.3:
            self.w("log('is', isinstance(%s, %s), issubclass(%s, object))" % (o, m.name, m.name))
        elif c < 0.4:
            self.w("%s.c1 = %s" % (r.choice((o, m.name)), self.ve(sc, 1)))
            self.w("log(%s.c1)" % o)
        elif c < 0.45 and m.meta:
            self.w("log(%s.mm())" % m.name)
        if guard:
            self.ind -= 1
            self.w("except %s as ex%s:" % (r.choice(("TypeError", "AttributeError", "Exception", "Exception")), o))
            self.w("    log('use', ex%s)" % o)

    def use_member(self, sc, ctx, m, o, k, kind, s):
        r = self.r
        if kind in ("inst", "gen"):
            call = "%s.%s(%s)" % (o, k, self.sigargs(sc, 1, s))
            c = r.random()
            if kind == "gen":
                call = "list(keep(%s))" % call
            elif c < 0.15 and not (m.find("__new__") and self.v < (3, 0)):
                # the class's own attribute, called with the instance
                a = self.sigargs(sc, 1, s, pre=True)
                call = "%s.%s(%s)" % (m.name, k, ", ".join(x for x in (o, a) if x))
            elif c < 0.35:
                # the bound method as a value, used after other things happened
                self.w("b%s = %s.%s" % (o, o, k))
                self.w("%s.y1 = %s" % (o, self.ve(sc, 1)))
                call = "b%s(%s)" % (o, self.sigargs(sc, 1, s))
            elif c < 0.45 and not s.params and not s.kwonly:
                call = "cb(%s.%s)" % (o, k)
            self.w("log('r', %s)" % call)
        elif kind in ("static", "cls"):
            self.w("log('r', %s.%s(%s))" % (r.choice((o, m.name)), k, self.sigargs(sc, 1, s)))
        elif kind == "prop":
            if self.chance(0.4):
                self.w("%s.p0 = %s" % (o, self.ve(sc, 1)))
            self.w("log('p', %s.p0)" % o)
        elif kind == "desc":
            c = r.random()
            if c < 0.35:
                self.w("%s.d0 = %s" % (o, self.ve(sc, 1)))
            self.w("log('d', %s.d0)" % r.choice((o, o, m.name)))
        elif kind == "attr":
            self.w("log(%s.%s)" % (r.choice((o, o, m.name)), k))
        elif kind == "nested":
            self.w("log(%s.N().m())" % r.choice((o, m.name)))
        elif kind == "special":
            how = SPECIAL[k][1]
            if how == "AUG":
                self.w("a%s = %s" % (o, o))
                self.w("a%s += %s" % (o, self.ve(sc, 1)))
                self.w("log(a%s is %s)" % (o, o))
            elif how == "CALL":
                self.w("log(%s(%s))" % (o, self.sigargs(sc, 1, s)))
            elif how == "BOOL":
                self.w(r.choice(("log(not %s)", "log(%s and 1)", "log(bool(%s))", "log([z for z in [1, 2] if %s])")) % o)
            elif how == "FOR":
                if self.chance(0.5):
                    self.w("for z in %s:" % o)
                    self.block(sc, ctx.sub(loop=1, final=0), 1)
                else:
                    self.w("log(%s)" % (r.choice(("list(%s)", "[z for z in %s]", "max([0, 1], [z for z in %s])")) % o))
            elif how == "WITH":
                if self.v < (2, 5):
                    return
                self.w("with %s as v%s:" % (o, o))
                self.block(sc, ctx.sub(), 1)
            else:
                s = how % o if "%" in how else how
                s = s.replace("{ve}", self.ve(sc, 1), 1) if "{ve}" in s else s
                while "{ve}" in s:
                    s = s.replace("{ve}", self.ve(sc, 1), 1)
                self.w(s)
