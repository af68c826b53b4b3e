"""What an exception remembers: raising exceptions again, from others, later and while others are handled
(mixed into gen.Gen)."""

CLASSES = ("E1", "E2", "E3", "ValueError", "KeyError", "OSError")


class GenChains:
    def throws(self, g, i):
        """Throws an exception into a generator, or closes it."""
        r = self.r
        n = 1
        while n < 3 and self.chance(self.p.get("throws", 0)):
            self.nx += 1
            x = r.choice(CLASSES)
            what = r.choice(("%s('@t%d')" % (x, self.nx), "%s('@t%d')" % (x, self.nx), x, "%s, '@t%d'" % (x, self.nx), "GeneratorExit",
                             "%s, %s('@t%d')" % (x, x, self.nx), "KeyboardInterrupt('@t%d')" % self.nx, "5", "E1('@t'), 5",
                             "%s, ('@t%d', 1)" % (x, self.nx)))
            self.w("elif %s == %d:" % (i, n))
            self.w("    log('threw', %s.throw(%s))" % (g, what) if r.random() < 0.65 else "    log('closed', %s.close())" % g)
            n += 1

    def s_relay(self, sc, ctx):
        """Generators that delegate to each other, resumed, thrown into and closed from outside and from within."""
        if sc.kind == "cls" or ctx.depth >= self.maxdepth:
            return False
        r = self.r
        self.nx += 1
        n = self.nx
        hold = "hold%d" % n
        self.w("%s = []" % hold)
        levels = r.choice((1, 2, 2, 3)) if self.v >= (3, 3) else 1
        for k in range(levels):
            self.w("def r%d_%d():" % (n, k))
            self.ind += 1
            tried = r.random() < 0.85
            if tried:
                self.w("try:")
                self.ind += 1
            for j in range(r.choice((1, 1, 2))):
                if k:
                    src = r.choice(["keep(r%d_%d())" % (n, k - 1)] * 4 + ["dl(%d)" % r.randint(0, 4)] * 2 + ["it(2)", "[1, P(3)]"])
                    if self.chance(0.3):
                        src = "dl(%d)" % r.randint(1, 4)
                    self.w(r.choice(("log('out', [%d, (yield from %s)])", "log('out', %d, (yield from %s))")) % (j, src))
                else:
                    self.w(r.choice(("yield P(%d)", "log('in', [%d, (yield 4)])", "log('in', (yield %d))")) % j)
                if self.chance(0.2):
                    self.busy(hold)
            if tried:
                self.ind -= 1
                fin = r.random() < 0.4
                if not fin or self.chance(0.6):
                    self.w("except %s:" % r.choice(("E1", "Exception", "GeneratorExit", "(E2, GeneratorExit)", "BaseException", "(E1, ValueError)")))
                    self.ind += 1
                    self.w("log('caught', %d)" % k)
                    self.answer(k, hold)
                    self.ind -= 1
                    if fin and (2, 5) > self.v:
                        fin = False
                else:
                    fin = True
                if fin:
                    self.w("finally:")
                    self.ind += 1
                    self.w("log('fin', %d)" % k)
                    if self.chance(0.15):
                        self.w("yield 'f'")
                    self.ind -= 1
            if self.v >= (3, 3) and self.chance(0.6):
                self.w("return 'r%d'" % k)
            elif self.chance(0.3):
                self.w("yield 'last'")
            self.ind -= 1
        self.w("%s.append(keep(r%d_%d()))" % (hold, n, levels - 1))
        self.w("for i%d in sched(%d, %d):" % (n, r.choice((4, 5, 7)), r.randint(2, 9)))
        self.ind += 1
        self.w("try:")
        self.ind += 1
        g = hold + "[0]"
        self.w("if i%d == 0:" % n)
        self.w("    log('threw', %s.throw(%s))" % (g, self.thrown()))
        self.w("elif i%d == 1:" % n)
        self.w("    " + r.choice(("log('threw', %s.throw(%s))" % (g, self.thrown()), "log('closed', %s.close())" % g)))
        self.w("elif i%d == 2:" % n)
        self.w("    log('sent', %s.send(%s))" % (g, r.choice(("P(5)", "None", "7"))))
        self.w("else:")
        self.w("    log('nx', next(%s))" % g)
        self.ind -= 1
        self.w("except StopIteration as ey%d:" % n)
        self.w("    log('stop'%s)" % (", ey%d.value" % n if self.v >= (3, 3) else ""))
        self.w("except (Exception, GeneratorExit) as ez%d:" % n)
        self.w("    log('gx', ez%d)" % n)
        self.ind -= 1

    def thrown(self):
        self.nx += 1
        x = self.r.choice(CLASSES)
        return self.r.choice(("%s('@t%d')" % (x, self.nx), "%s('@t%d')" % (x, self.nx), x, "%s, '@t%d'" % (x, self.nx), "GeneratorExit",
                              "GeneratorExit('@g%d')" % self.nx, "GeneratorExit, '@v'", "E4('@e%d')" % self.nx, "%s, None" % x,
                              "%s, None, None" % x, "%s, E1('@t%d')" % (x, self.nx), "5", "E1, 1, None, 2"))

    def answer(self, k, hold):
        """What a generator does with what it caught."""
        r = self.r
        a = r.choice(("raise", "raise", "raise E2('@a%d')" % k, "yield 9", "pass", "return 5" if self.v >= (3, 3) else "return", "again"))
        if a == "again" and self.v >= (3, 3):
            a = "log('more', (yield from dl(2)))"
        elif a == "again":
            a = "log('more', (yield 8))"
        if self.chance(0.2):
            self.busy(hold)
        self.w(a)

    def busy(self, hold):
        """A generator that is running is asked for more."""
        self.w("try:")
        self.w("    log('busy', %s)" % self.r.choice(("next(%s[0])", "%s[0].throw(E1('@b'))", "%s[0].close()", "%s[0].throw(GeneratorExit)")) % hold)
        self.w("except ValueError:")
        self.w("    log('was running')")

    def s_again(self, sc, ctx):
        """Raises an exception that was raised before, or from one."""
        r = self.r
        if ctx.nofin or not sc.exs:
            return False
        x = r.choice(sc.exs)
        self.nx += 1
        new = "%s('@n%d')" % (r.choice(CLASSES), self.nx)
        k = r.random()
        if k < 0.3:
            s = "raise %s" % x
        elif k < 0.42:
            s = "raise %s from %s" % (new, r.choice(sc.exs))
        elif k < 0.6:
            s = "raise %s from %s" % (x, r.choice([new, new] + sc.exs))
        elif k < 0.7:
            s = "raise %s from %s" % (r.choice((x, new)), r.choice(("None", "None", "E1", "5", "[]")) if self.v >= (3, 3) else "E1")
        elif k < 0.85:
            s = "raise %s" % new
        else:
            s = "raise"
        if self.chance(0.4):
            self.w("if %s:" % self.cond(sc, 1))
            self.w("    " + s)
            return
        self.w(s)
        return "end"

    def s_keepexc(self, sc, ctx):
        if not sc.exs:
            return False
        self.w("kept.append(%s)" % self.r.choice(sc.exs))

    def s_later(self, sc, ctx):
        """Raises an exception that was handled long ago."""
        if ctx.nofin:
            return False
        self.nx += 1
        kept = "kept[%s]" % self.r.choice(("0", "-1", "upto(len(kept) - 1)"))
        k = self.r.random()
        self.w("if kept:")
        if k < 0.6:
            self.w("    raise %s" % kept)
        elif k < 0.9:
            self.w("    raise %s from %s" % (kept, self.r.choice(["%s('@l%d')" % (self.r.choice(CLASSES), self.nx), "kept[0]"] + sc.exs)))
        else:
            self.w("    raise %s('@l%d') from %s" % (self.r.choice(CLASSES), self.nx, kept))

    def s_chain(self, sc, ctx):
        k = self.r.random()
        if sc.exs and k < 0.5:
            self.w("log('ch', chain(%s))" % self.r.choice(sc.exs))
        elif k < 0.8:
            self.w("log('ch', chain(sys.exc_info()[1]))")
            self.need_sys = True
        else:
            self.w("for ek in kept:")
            self.w("    log('ch', chain(ek))")
