"""Functions and methods as objects (mixed into gen.Gen): what a program sees of them, sets
on them between calls, and does with them other than calling them."""

SAFE = "(TypeError, AttributeError, ValueError)"


class Fq:
    """A function of the program: its parameters, how many are likely to be needed, and
    whether it captures variables or is a generator."""

    def __init__(self, name, params, kwonly=(), free=0, gen=False, lam=False, wrapped=False):
        self.name, self.params, self.kwonly = name, params, list(kwonly)
        self.free, self.gen, self.lam, self.wrapped = free, gen, lam, wrapped


class GenFuncs:
    def s_funcs(self, sc, ctx):
        if ctx.depth or sc.kind not in ("mod", "fn"):
            return False
        r = self.r
        if sc.kind == "mod" and not getattr(self, "fq_open", False):
            self.fq_open = True
            self.w("import functools, copy, weakref")
        self.fqs = []
        for _ in range(r.choice((1, 2, 2, 3))):
            self.fq_def(sc)
        for _ in range(r.randint(3, 9)):
            if self.chance(0.12):
                self.fq_def(sc)
            else:
                self.fq_use(sc)

    # ---------------------------------------------------------- definitions
    def fq_params(self, sc):
        """the parameter list, and the names of its parameters"""
        r = self.r
        n = r.choice((0, 1, 1, 2, 2, 3))
        ps = ["abc"[i] + "0" for i in range(n)]
        ndef = r.randint(0, n)
        out, unpack = [], []
        loud = True
        for i, p in enumerate(ps):
            if self.v < (3, 0) and self.chance(0.12):
                q = "_t%d" % i
                unpack.append(("%s, %s" % (p, "xyz"[i] + "0"), q))
                p = q
            s = p
            if i >= n - ndef:
                s += "=" + r.choice((self.ve(sc, 2), self.ve(sc, 2), "[]", "'d%d'" % i, "(1, 2)", "None"))
            out.append(s)
        kwonly = []
        if self.chance(0.2):
            out.append("*rest")
        if self.v >= (3, 0) and self.chance(0.4):
            if out[-1:] != ["*rest"]:
                out.append("*")
            for k in r.sample(("k0", "k1", "j0"), r.randint(1, 2)):
                has = self.chance(0.6)
                kwonly.append(k)
                # (up to 3.3 these defaults are evaluated before the others)
                out.append(k + ("=" + (r.choice(("'kd'", "5")) if self.v < (3, 4) else self.ve(sc, 2)) if has else ""))
            if self.v < (3, 4):
                out = [s if "=" not in s or s[0] in "kj" else s.split("=")[0] + "=" + r.choice(("1", "'e'", "None")) for s in out]
        if self.v >= (3, 0) and self.chance(0.25) and not kwonly and out and out[0] != "*rest":
            p = out[0].split("=")
            out[0] = "%s: %s%s" % (p[0], r.choice(("'an'", "5", "P(1)")), "=" + "=".join(p[1:]) if len(p) > 1 else "")
        return ", ".join(out), ps, kwonly, unpack

    def fq_def(self, sc):
        r = self.r
        self.nx += 1
        f = "fq%d" % self.nx
        plist, ps, kwonly, unpack = self.fq_params(sc)
        free = r.choice((0, 0, 0, 1, 1, 2))
        gen = self.chance(0.12)
        if self.chance(0.15) and not unpack and ":" not in plist:
            body = "[%s]" % ", ".join(ps + kwonly)
            if free:
                self.w("def mk%s(u0, u1=%s):" % (f, self.ve(sc, 2)))
                self.w("    return lambda %s: [%s, %s]" % (plist, body, "u0, u1" if free == 2 else "u0"))
                self.w("%s = mk%s(%s)" % (f, f, self.ve(sc, 1)))
            else:
                self.w("%s = lambda %s: %s" % (f, plist, body))
            self.fqs.append(Fq(f, ps, kwonly, free, False, True))
            return
        if free:
            self.w("def mk%s(u0, u1=%s):" % (f, self.ve(sc, 2)))
            self.ind += 1
        deco = self.chance(0.25)
        wrapped = False
        if deco:
            k = r.random()
            self.w("def d%s(f):" % f)
            self.w("    log('deco', f, f.__name__, f.__defaults__)")
            if k < 0.35:
                self.w("    f.x_d = %s" % self.ve(sc, 2))
                self.w("    return f")
            elif k < 0.75:
                wrapped = True
                self.w("    def w%s(*a, **k):" % f)
                self.w("        log('wrapper', a, k)")
                self.w("        return f(*a, **k)")
                if self.chance(0.7):
                    self.w("    return functools.update_wrapper(w%s, f%s)" % (
                        f, r.choice(("", "", ", ['__name__', '__doc__']", ", assigned=('__module__',)", ", updated=()"))
                        if self.v >= (2, 5) and self.v < (2, 6) or self.v >= (3, 2) else ""))
                else:
                    self.w("    w%s.__name__ = f.__name__" % f)
                    self.w("    w%s.__dict__.update(f.__dict__)" % f)
                    self.w("    return w%s" % f)
            else:
                self.w("    f.__name__ = 'renamed'")
                self.w("    f.__doc__ = f.__doc__ or %s" % r.choice(("'other'", "None", self.ve(sc, 2))))
                self.w("    return f")
            self.w("@d%s" % f)
        self.w("def %s(%s):" % (f, plist))
        self.ind += 1
        if self.chance(0.4):
            self.w(r.choice(("'doc'", "'''d\n%s'''" % ("    " * self.ind), "'doc %s'" % f)))
        for to, q in unpack:
            self.w("%s = %s" % (to, q))
        seen = ps + kwonly + ["xyz"[i] + "0" for i, p in enumerate(ps) if any(q == "_t%d" % i for _, q in unpack)]
        if "*rest" in plist:
            seen.append("rest")
        if free:
            seen += ["u0", "u1"][:free]
        self.w("log('in %s'%s)" % (f, "".join(", " + s for s in seen)))
        if free and self.v >= (3, 0) and self.chance(0.3):
            self.w("nonlocal u0")
            self.lines[-1], self.lines[-2] = self.lines[-2], self.lines[-1]
            self.w("u0 = %s" % r.choice((seen[0], self.ve(sc, 2), "5")))
        if ps and self.chance(0.2) and ps[-1] + "=[]" in plist:
            self.w("%s.append(len(%s))" % (ps[-1], ps[-1]))
        if self.chance(0.15):
            self.w("log('self', %s.__name__, %s.__defaults__)" % (f, f))
        if gen:
            self.w("yield %s" % (seen[0] if seen else "1"))
            self.w("yield 'end'")
        else:
            self.w("return %s" % (r.choice(seen) if seen and self.chance(0.6) else r.choice(("'r'", "('s', %s)" % (seen[0] if seen else "1")))))
        self.ind -= 1
        if free:
            self.w("return %s" % f)
            self.ind -= 1
            self.w("%s = mk%s(%s)" % (f, f, self.ve(sc, 1)))
            if self.chance(0.3):
                g = f + "b"
                self.w("%s = mk%s(%s, %s)" % (g, f, self.ve(sc, 1), self.ve(sc, 1)))
                self.fqs.append(Fq(g, ps, kwonly, free, gen, False, wrapped))
        self.fqs.append(Fq(f, ps, kwonly, free, gen, False, wrapped))

    # ------------------------------------------------------------------ uses
    def fq_args(self, sc, f):
        r = self.r
        n = len(f.params)
        k = r.choice((n, n, n, n - 1, n - 1, 0, n - 2, n + 1))
        args = [self.fq_arg(sc) for _ in range(max(0, k))]
        if f.kwonly and self.chance(0.6):
            args += ["%s=%s" % (q, self.fq_arg(sc)) for q in f.kwonly if self.chance(0.75)]
        elif n and k >= 1 and self.chance(0.15) and k <= n:
            args[-1] = "%s=%s" % (f.params[k - 1], args[-1])
        return args

    def fq_arg(self, sc):
        r = self.r
        return r.choice((self.ve(sc, 1), self.e_probe(sc, 1), "(P(1), 2)", "'s'", "7"))

    def fq_call(self, sc, f, head=None, front=()):
        args = ", ".join(list(front) + self.fq_args(sc, f))
        k = self.r.random()
        h = head or f.name
        if k < 0.2 and "=" not in args:
            c = "cb(%s)" % ", ".join([h] + ([args] if args else []))
        else:
            c = "%s(%s)" % (h, args)
        return "list(keep(%s))" % c if f.gen and not f.wrapped else c

    def fq_use(self, sc):
        r = self.r
        f = r.choice(self.fqs)
        n = f.name
        k = r.random()
        if k < 0.2:
            self.attempt(["log('r', %s)" % self.fq_call(sc, f)], SAFE)
        elif k < 0.32:
            self.attempt(["log('a', %s)" % ", ".join(self.fq_attr(f) for _ in range(r.randint(1, 3)))], SAFE)
        elif k < 0.52:
            self.fq_set(sc, f)
        elif k < 0.64:
            self.fq_dict(sc, f)
        elif k < 0.74:
            self.fq_same(sc, f)
        elif k < 0.9:
            self.fq_method(sc, f)
        elif k < 0.95 and self.fqs:
            self.fq_loop(sc)
        else:
            h = "functools.partial(%s)" % ", ".join([n] + ([self.fq_arg(sc)] if f.params else []))
            if self.v >= (2, 5):
                self.attempt(["log('r', %s)" % self.fq_call(sc, f, h)], SAFE)

    def fq_attr(self, f):
        r = self.r
        n = f.name
        pool = ["%s.__name__", "%s.__doc__", "%s.__defaults__", "%s.__defaults__", "%s.__code__.co_name", "%s.__code__.co_argcount",
                "%s.__code__.co_freevars", "%s.__globals__ is globals()", "%s.__closure__ is None", "callable(%s)",
                "%s.__module__", "getattr(%s, 'x_1', 'none')", "%s.x_1", "%s.__code__.co_flags & 44"]
        if self.v >= (3, 0):
            pool += ["%s.__kwdefaults__", "%s.__kwdefaults__", "%s.__annotations__", "%s.__code__.co_kwonlyargcount"]
        if self.v >= (3, 3):
            pool += ["%s.__qualname__"] * 2
        if f.free and self.v >= (2, 5):
            pool += ["[z.cell_contents for z in %s.__closure__]"] * 3
        return r.choice(pool) % n

    def fq_set(self, sc, f):
        """set something on a function, and see what it did to it"""
        r = self.r
        n = f.name
        look = None
        k = r.random()
        if k < 0.35:
            a = "__defaults__"
            v = r.choice(("()", "(%s,)", "(%s,)", "(%s, 'd')", "(1, %s, 3)", "(1, 2, 3, 4, %s)", "None", "None", "[%s]", "5"))
        elif k < 0.5 and self.v >= (3, 0):
            a = "__kwdefaults__"
            v = r.choice(("{}", "{'k0': %s}", "{'k0': 1, 'j0': %s}", "{'k1': %s}", "{'a0': %s}", "None", "5", "(1, 2)", "dict(%s.__kwdefaults__ or {}, k1=7)"
                          % n))
            if "dict(" not in v and self.chance(0.4):
                self.attempt(["%s.__kwdefaults__[%r] = %s" % (n, r.choice(("k0", "j0")), self.fq_arg(sc)),
                              "log('r', %s)" % self.fq_call(sc, f)], "(TypeError, AttributeError, KeyError)")
                return
        elif k < 0.62:
            a, look = "__name__", "%s.__name__, %s.__code__.co_name, %s" % (n, n, n)
            v = r.choice(("'nn'", "'other'", "5", "''"))
        elif k < 0.7:
            a, look = "__doc__", "%s.__doc__" % n
            v = r.choice(("'new'", "5", "None", "%s"))
        elif k < 0.85:
            a = "__code__"
            g = r.choice(self.fqs)
            v = r.choice((g.name + ".__code__",) * 6 + ("5", "None"))
            look = "%s.__code__ is %s.__code__, %s.__name__, %s.__defaults__" % (n, g.name, n, n)
        elif k < 0.93 and f.free and self.v >= (3, 7):
            c = "%s.__closure__[0].cell_contents" % n
            self.attempt(["%s = %s" % (c, self.fq_arg(sc)), "log('r', %s)" % self.fq_call(sc, f)], SAFE)
            if self.chance(0.3):
                self.attempt(["del %s" % c, "log('r', %s)" % self.fq_call(sc, f)], SAFE[:-1] + ", NameError)")
                self.attempt(["log('cell', %s)" % c], "ValueError")
            return
        elif self.v >= (3, 0):
            a = "__annotations__"
            v = r.choice(("{}", "{'z': %s}", "None", "5", "[]"))
            look = "%s.__annotations__" % n
        else:
            a, v, look = "__globals__", "{}", "%s.__closure__ is None" % n
        if a not in ("__code__", "__annotations__") and self.chance(0.15) and (a != "__name__" or self.v >= (3, 0)):
            line = "del %s.%s" % (n, a)
        elif a == "__globals__" or self.chance(0.05):
            line = "%s.%s = %s" % (n, r.choice(("__globals__", "__closure__")), r.choice(("{}", "None", "()")))
        else:
            line = "%s.%s = %s" % (n, a, v % self.fq_arg(sc) if "%s" in v else v)
        self.attempt([line] + (["log('set')"] if self.chance(0.4) else []), SAFE)
        if look and self.chance(0.7):
            self.w("log('l', %s)" % look)
        if self.chance(0.75):
            self.attempt(["log('r', %s)" % self.fq_call(sc, f)], SAFE[:-1] + ", NameError)")
        elif not look:
            self.w("log('l', %s.%s)" % (n, a))

    def fq_dict(self, sc, f):
        """attributes of the program's own"""
        r = self.r
        n = f.name
        x = r.choice(("x_1", "x_1", "x_2", "x_d", "func", "version"))
        k = r.random()
        if k < 0.35:
            lines = [r.choice(("%s.%s = %s" % (n, x, self.ve(sc, 1)), "setattr(%s, %r, %s)" % (n, x, self.ve(sc, 1)),
                               "%s.__dict__[%r] = %s" % (n, x, self.ve(sc, 1)), "vars(%s)[%r] = %s" % (n, x, self.ve(sc, 1)),
                               "%s.__dict__.update(%s=%s)" % (n, x, self.ve(sc, 1))))]
        elif k < 0.5:
            lines = [r.choice(("del %s.%s" % (n, x), "delattr(%s, %r)" % (n, x), "del %s.__dict__[%r]" % (n, x),
                               "%s.__dict__.pop(%r, None)" % (n, x), "%s.__dict__.clear()" % n))]
        elif k < 0.6:
            lines = ["%s.x_1 = 1" % n, "%s.x_1 += %s" % (n, self.ve(sc, 1)), "log('x', %s.x_1)" % n]
        elif k < 0.7:
            lines = ["%s.__dict__ = %s" % (n, r.choice(("{}", "{'x_2': %s}" % self.ve(sc, 1), "{'x_1': 1, 'x_d': 2}")))]
        else:
            lines = []
        look = r.choice(("log('x', %s.%s)" % (n, x), "log('x', getattr(%s, %r, 'none'))" % (n, x), "log('x', hasattr(%s, %r))" % (n, x),
                         "log('x', %s([z for z in %s.__dict__ if z[:2] != '__']))" % ("list" if self.v >= (3, 6) else "sorted", n),
                         "log('x', %r in %s.__dict__, len([z for z in dir(%s) if z[:2] == 'x_']))" % (x, n, n)))
        self.attempt(lines + [look], "(AttributeError, KeyError)")

    def fq_same(self, sc, f):
        r = self.r
        n = f.name
        g = r.choice(self.fqs).name
        pool = ["log('is', %s is %s, %s == %s, %s != %s)" % (n, g, n, g, n, g),
                "log('is', {%s: 1}.get(%s), [%s].count(%s), %s in (1, %s))" % (n, g, n, g, n, g),
                "log('is', hash(%s) == hash(%s), type(%s) is type(%s))" % (n, n, n, g),
                "log('is', copy.copy(%s) is %s, copy.deepcopy([%s])[0] is %s)" % (n, n, n, n),
                "log('is', weakref.ref(%s)() is %s)" % (n, n),
                "log('is', len(set([%s, %s, %s])))" % (n, g, n),
                "log('is', (not %s), (%s and 1), isinstance(%s, type(%s)))" % (n, n, n, g),
                "log('is', callable(%s.__call__), hasattr(%s, 'x_9'))" % (n, n),
                ]
        self.attempt([r.choice(pool)], SAFE)

    def fq_loop(self, sc):
        """the same definition evaluated again"""
        r = self.r
        self.nx += 1
        f = "fq%d" % self.nx
        self.w("fs%s = []" % f)
        self.w("for z in it(3):")
        self.ind += 1
        plain = self.chance(0.4)
        if plain:
            self.w(r.choice(("def %s():", "def %s(*a0):", "def %s(a0):")) % f)
            self.w("    return %s" % r.choice(("%s.__name__" % f, "'p'", "a0" if "a0" in self.lines[-1] else "getattr(%s, 'x_1', 0)" % f)))
        else:
            self.fq_again(sc, f)
        if self.chance(0.5):
            self.w("%s.%s = z" % (f, r.choice(("x_1", "x_1", "__doc__"))))
        self.w("fs%s.append(%s)" % (f, f))
        self.ind -= 1
        self.w("for z in fs%s:" % f)
        self.ind += 1
        self.attempt(["log('fs', z is %s, z.__code__ is %s.__code__, z.__defaults__, getattr(z, 'x_1', 0), z.__doc__)" % (f, f),
                      "log('r', z(%s))" % ("" if self.chance(0.5) else self.fq_arg(sc))], SAFE[:-1] + ", NameError)")
        if self.chance(0.4):
            self.attempt(["z.__defaults__ = (z.__defaults__ or ())[:1] + ('n',)"], SAFE)
        self.ind -= 1

    def fq_again(self, sc, f):
        r = self.r
        self.w("def %s(a0%s, b0=%s):" % (f, "=" + r.choice(("z", "[]")) if self.chance(0.8) else "=None", r.choice(("[]", "z", self.ve(sc, 2)))))
        self.w("    b0 = [b0, a0]")
        self.w("    return b0")

    # --------------------------------------------------------------- methods
    def fq_method(self, sc, f):
        r = self.r
        n = f.name
        self.nx += 1
        c, o, p = "Q%d" % self.nx, "q%d" % self.nx, "p%d" % self.nx
        self.w("class %s(object):" % c)
        self.ind += 1
        if self.chance(0.3):
            self.w("'cdoc'")
        self.w("def m(self%s):" % r.choice(("", ", x=%s" % self.ve(sc, 2), ", x=None, *rest")))
        if self.chance(0.4):
            self.w("    'mdoc'")
        self.w("    log('m', self)")
        self.w("    return self")
        if self.chance(0.3):
            self.w("m.x_1 = %s" % self.ve(sc, 2))
        self.w("q = %s" % n)
        kind = r.choice(("", "staticmethod", "classmethod", "property"))
        if kind:
            self.w("%s = %s(%s)" % ("s", kind, n))
        self.ind -= 1
        self.w("%s, %s = %s(), %s()" % (o, p, c, c))
        if self.chance(0.3):
            self.w("%s.i = %s" % (o, n))
        for _ in range(r.randint(1, 4)):
            k = r.random()
            a, b = r.choice(((o, o), (o, p)))
            if k < 0.3:
                line = r.choice(("log('mm', %s.m == %s.m, %s.m != %s.m)" % (a, b, a, b),
                                 "log('mm', {%s.m: 1}.get(%s.m), %s.m in [%s.m])" % (a, b, a, b),
                                 "log('mm', hash(%s.m) == hash(%s.m), len(set([%s.m, %s.m])))" % (a, a, a, b),
                                 "log('mm', %s.m == %s.q, %s.m == %s)" % (a, b, a, n),
                                 "log('mm', %s.m is %s.m, %s.m == %s.m)" % (c, c, c, c) if self.v >= (3, 0) else
                                 "log('mm', %s.m == %s.m)" % (c, c),
                                 "log('mm', %s.m.__func__ is %s.__dict__['m'], %s.m.__self__ is %s)" % (a, c, a, b)))
            elif k < 0.5:
                line = r.choice(("log('ma', %s.m.__name__, %s.m.__doc__)", "log('ma', %s.m.__defaults__, %s.m.__code__.co_name)",
                                 "log('ma', getattr(%s.m, 'x_1', 'none'), hasattr(%s.m, 'x_2'))", "%s.m.x_1 = %s",
                                 "log('ma', %s.m.x_2, %s)", "log('ma', callable(%s.m), %s.m.__module__)",
                                 "log('ma', %s.m.__self__.m().__class__ is %s.__class__)",
                                 "log('ma', %s.q.__func__ is %s.q.__func__)")) % (o, o)
            elif k < 0.62:
                line = r.choice(("%s.__dict__['m'].x_1 = %s" % (c, self.ve(sc, 2)), "%s.__dict__['m'].__defaults__ = (%s,)" % (c, self.ve(sc, 2)),
                                 "%s.m = %s" % (o, n), "%s.m = %s" % (c, n), "%s.m = %s.m" % (o, p), "del %s.m" % r.choice((o, c)),
                                 "%s.__dict__['m'].__code__ = %s.__code__" % (c, n)))
            else:
                line = "log('mr', %s)" % r.choice((
                    "%s.m()" % o, "cb(%s.m)" % o, "%s.m(%s)" % (o, self.fq_arg(sc)), "%s.m(%s)" % (c, o),
                    self.fq_call(sc, f, o + ".q"), self.fq_call(sc, f, c + ".q", (o,)),
                    self.fq_call(sc, f, o + ".i"), self.fq_call(sc, f, "%s.__get__(%s, %s)" % (n, o, c)),
                    self.fq_call(sc, f, "%s.__get__(5)" % n),
                    ("%s.s" % o if kind == "property" and not f.gen else self.fq_call(sc, f, o + ".s")) if kind else "%s.m().m()" % o,
                    "list(map(%s.m, [1]))" % o, "functools.partial(%s.m)()" % o if self.v >= (2, 5) else "%s.m()" % p,
                    "%s.m.__get__(%s)()" % (o, p), "%s.m.__func__(%s)" % (o, p)))
            self.attempt([line], SAFE)
