"""What is different in Python 2 (mixed into gen.Gen): print, /, truth and iteration of the
program's own classes, raise with several arguments, backquotes."""


class Gen2:
    def number(self):
        r = self.r
        return r.choice(("7", "2", "-7", "0", "1", "True", "100", "-1", "2.5", "4.0", "-3", "3", "10", "0.0", "10 ** 20"))

    def divisor(self, sc):
        r = self.r
        return r.choice((self.number(), self.number(), self.number(), self.ve(sc, 1), "P(3)", "'a'", "1j"))

    def s_divide(self, sc, ctx):
        r = self.r
        k = r.random()
        self.nx += 1
        d = "d%d" % self.nx
        if k < 0.3:
            lines = ["log('div', %s / %s)" % (self.divisor(sc), self.divisor(sc))]
        elif k < 0.4:
            lines = ["log('div', %s / %s / %s)" % (self.number(), self.divisor(sc), self.number())]
        elif k < 0.65:
            lines = ["%s = %s" % (d, self.divisor(sc)), "%s /= %s" % (d, self.divisor(sc)), "log('div', %s)" % d]
        elif k < 0.8:
            lines = ["%s = [%s, %s]" % (d, self.divisor(sc), self.number()),
                     "%s[%s] /= %s" % (d, r.choice(("0", "1", "1", "2", "upto(2)")), self.divisor(sc)), "log('div', %s)" % d]
        elif k < 0.9:
            lines = ["%s.x_a /= %s" % (self.pe(sc, 1), self.divisor(sc))]
        else:
            lines = ["log('mix', %s / %s, %s // %s, %s %% %s)" % tuple(self.number() for _ in range(6))]
        if self.chance(0.7):
            self.attempt(lines, "(ZeroDivisionError, TypeError)")
        else:
            for s in lines:
                self.w(s)

    def attempt(self, lines, types):
        self.w("try:")
        for s in lines:
            self.w("    " + s)
        self.w("except %s as et:" % types)
        self.w("    log('failed', et)")

    # ---------------------------------------------------------------- print
    def item(self, sc):
        r = self.r
        return r.choice(("m0", "[m0, 's']", "log('item')", "'a'", "'a\\n'", "'b '", "'c\\t'", "''", "5", "None", "2.5", "P(1)", "'x\\ny'",
                         "('t', 1)", "'\\n'"))

    def s_print(self, sc, ctx):
        r = self.r
        if ctx.depth > 2:
            return False
        self.nx += 1
        o = "out%d" % self.nx
        dest = None
        k = r.random()
        if k < 0.15 and sc.kind != "cls":
            self.w("class W%d(object):" % self.nx)
            if self.chance(0.5):
                self.w("    softspace = %d" % r.randint(0, 1))
            if self.chance(0.3):
                self.w("    def __getattr__(self, n):")
                self.w("        log('ga', n)")
                self.w("        raise AttributeError(n)")
            if self.chance(0.3):
                self.w("    def %s(self):" % r.choice(("__len__", "__bool__")))
                self.w("        log('truth')")
                self.w("        return %s" % ("upto(2)" if "len" in self.lines[-2] else "flag(1)"))
            self.w("    def write(self, s):")
            self.w("        log('w', s%s)" % r.choice(("", "", ", self.softspace" if False else "")))
            if self.chance(0.2):
                self.w("        " + r.choice(("return 5", "raise E2('@w%d')" % self.nx, "self.y = s")))
            self.w("%s = W%d()" % (o, self.nx))
            dest = o
        elif k < 0.75:
            self.w("%s = out(%d)" % (o, r.randint(0, 1)))
            dest = o
        elif k < 0.8:
            dest = r.choice(("None", "5", "it(1)"))
        lines = []
        for _ in range(r.choice((1, 2, 3, 4))):
            args = [self.item(sc) for _ in range(r.choice((0, 1, 1, 2, 3)))]
            if dest:
                args.append("file=%s" % r.choice((dest, dest, "keep(%s)" % dest)))
            if self.chance(0.4) and (len(args) > 1 or args and not dest):
                args.append("end=' '")
            lines.append("print(%s)" % ", ".join(args))
            if self.chance(0.2):
                lines.append("log('between')")
        if self.chance(0.2):
            self.w("for z in it(2):")
            for s in lines:
                self.w("    " + s)
        elif self.chance(0.5):
            self.attempt(lines, "(E1, E2, AttributeError, TypeError, ValueError)")
        else:
            for s in lines:
                self.w(s)
        if dest == o and self.chance(0.5):
            self.w("log('soft', getattr(%s, 'softspace', 'none'))" % o)

    # ------------------------------------------------------------- classes
    def s_oldnames(self, sc, ctx):
        """A class whose truth, iteration or division the program defines."""
        r = self.r
        if sc.kind == "cls" or ctx.depth > 1:
            return False
        self.nx += 1
        c, o = "K%d" % self.nx, "k%d" % self.nx
        kinds = r.sample(("truth", "len", "iter", "div", "rdiv", "idiv"), r.randint(1, 4))
        if "iter" in kinds and "len" in kinds:
            kinds.remove("len")
        base = "object"
        if self.chance(0.35):
            self.w("class B%s(object):" % c)
            for k in r.sample(("truth", "iter", "div", "rdiv", "idiv"), r.randint(1, 3)):
                self.old_method(sc, k, "B")
            base = "B" + c
        self.w("class %s(%s):" % (c, base))
        self.w("    n = 0")
        for k in kinds:
            self.old_method(sc, k, "K")
        make = "%s()" % c
        self.w("%s = %s" % (o, make))
        other = "B%s()" % c if base != "object" else r.choice((make, "5", "P(2)", "2.5"))
        for _ in range(r.randint(2, 5)):
            use = r.choice(("truth", "truth", "div", "div", "iter", "iter") if "iter" in kinds else ("truth", "div"))
            if use == "truth":
                line = r.choice(("log('t', not %s)", "log('t', %s and 1)", "log('t', %s or 2)", "log('t', bool(%s))",
                                 "log('t', 1 if %s else 0)", "log('t', [z for z in (1, 2) if %s])", "assert %s",
                                 "log('t', list(filter(None, [%s, 1])))", "log('t', any([0, %s]))")) % o
            elif use == "div":
                a, b = r.choice(((o, other), (other, o), (o, o), (o, "3"), ("3", o), (o, make)))
                if self.chance(0.4):
                    line = "a%s = %s; a%s /= %s; log('d', a%s is %s)" % (o, a, o, b, o, o)
                else:
                    line = "log('d', %s / %s)" % (a, b)
            else:
                line = r.choice(("log('i', list(%s))", "log('i', [z for z in %s])", "for z in %s: log('z', z)",
                                 "a0, a1 = %s", "log('i', max([0], %s))" if False else "log('i', tuple(%s))",
                                 "log('i', %s.__next__())", "log('i', 5 in %s)", "log('i', cb(%s.__next__))")) % o
                if self.chance(0.5):
                    self.w("%s.n = 0" % o)
            self.attempt([line], "(TypeError, ValueError, StopIteration, AssertionError, E1)")

    def old_method(self, sc, k, who):
        r = self.r
        ret = lambda *a: r.choice(a)
        if k == "truth":
            self.w("    def __bool__(self):")
            self.w("        log('%s truth')" % who)
            self.w("        return %s" % ret("flag(1)", "flag(1)", "True", "False", "5" if False else "flag(0)"))
        elif k == "len":
            self.w("    def __len__(self):")
            self.w("        log('%s len')" % who)
            self.w("        return upto(2)")
        elif k == "iter":
            self.w("    def __iter__(self):")
            self.w("        log('%s iter')" % who)
            self.w("        return self")
            self.w("    def __next__(self):")
            self.w("        self.n = getattr(self, 'n', 0) + 1")
            self.w("        if self.n > %d:" % r.randint(1, 3))
            self.w("            raise StopIteration")
            self.w("        return %s" % ret("self.n", "log('%s next', self.n)" % who, "P(self.n)"))
        else:
            name = {"div": "__truediv__", "rdiv": "__rtruediv__", "idiv": "__itruediv__"}[k]
            self.w("    def %s(self, x):" % name)
            self.w("        log('%s %s', x)" % (who, k))
            self.w("        return %s" % ret("self", "NotImplemented", "NotImplemented", "5", "P(4)", "x"))

    # ------------------------------------------------------- raise, backquotes
    def s_raise3(self, sc, ctx):
        r = self.r
        if ctx.depth > 2 or self.v >= (3, 0) and False:
            return False
        self.nx += 1
        t = r.choice(("E1", "E1", "E2", "E3", "ValueError", "E1('@i%d')" % self.nx, "P(1)", "5"))
        v = r.choice(("'@r%d'" % self.nx, "'@r%d'" % self.nx, "('@r%d', 2)" % self.nx, "None", "E1('@v%d')" % self.nx, "E3('@v%d')" % self.nx,
                      "()", "5"))
        args = [t, v] + (["None"] if self.chance(0.3) else [])
        if self.chance(0.05):
            args = [t, v, "5"]
        self.w("try:")
        self.w("    raise raise_(%s)" % ", ".join(args))
        self.w("except %s as et:" % r.choice(("E1", "E2", "(E1, E2, TypeError)", "Exception")))
        self.w("    log('caught', et)")

    def s_convert(self, sc, ctx):
        self.w("log('rep', convert_(%s))" % self.r.choice((self.item(sc), "[%s, 'q']" % self.item(sc))))
