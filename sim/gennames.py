"""Names and namespaces (mixed into gen.Gen): the same few names bound, unbound and read
at every level of nested scopes, and seen through locals(), vars(), dir(), globals(),
eval and exec."""

POOL = ("n0", "n1", "n2", "abs", "max")


class GenNames:
    def s_names(self, sc, ctx):
        if ctx.depth or sc.kind != "mod":
            return False
        r = self.r
        self.nscope = r.randint(4, 12)
        for _ in range(r.randint(2, 5)):
            self.name_item("mod", 0, {}, None)

    def nv(self):
        """a value"""
        r = self.r
        self.nx += 1
        return r.choice(("P(%d)" % r.randint(0, 9), "%d" % (100 + self.nx), "'s%d'" % self.nx, "log(%d)" % self.nx))

    def name_guard(self, *lines):
        self.w("try:")
        for s in lines:
            self.w("    " + s)
        if self.chance(0.15):
            self.w("except KeyError:")
            self.w("    log('key')")
        self.w("except %s:" % self.r.choice(("NameError", "NameError", "(NameError, KeyError, AttributeError)")))
        self.w("    log('unbound')")

    def name_item(self, kind, depth, info, parent):
        """one statement at scope `kind`; `info`: name -> "local", "global", "nonlocal",
        what the names are here"""
        r = self.r
        n = r.choice(POOL)
        fn = kind in ("fn", "gen")
        k = r.random()
        # (Before 3.4 a class read the variables of the functions around it without a look
        # at its own namespace.)
        early = kind == "cls" and depth > 1 and self.v < (3, 4)
        if k < 0.16:
            self.w("%s = %s" % (n, self.nv()))
        elif k < 0.24:
            if fn and self.v < (3, 2):
                # (2.x and 3.1 cannot delete a variable that is captured; which
                # that are is only known later)
                self.w("%s = %s" % (n, self.nv()))
            else:
                self.name_guard("del %s" % n)
        elif k < 0.42:
            self.name_guard("log('n', %s)" % n)
        elif k < 0.52 and self.nscope > 0 and depth < 3:
            self.name_scope(kind, depth, info)
        elif k < 0.58:
            self.w("log('loc', names(%s))" % r.choice(("locals()", "locals()", "vars()")))
        elif k < 0.61:
            self.w("log('dir', names(dir()))")
        elif k < 0.66 and early:
            pass
        elif k < 0.66:
            self.nx += 1
            d = "dd%d" % self.nx
            self.w("%s = locals()" % d)
            c = r.random()
            if c < 0.4:
                self.w("%s[%r] = %s" % (d, n, self.nv()))
                self.name_guard("log('w', %s)" % n)
            elif c < 0.6:
                self.w("%s.pop(%r, None)" % (d, n))
                self.name_guard("log('w', %s)" % n)
            elif c < 0.8:
                self.w("%s = %s" % (n, self.nv()))
                self.w("log('old', names(%s))" % d)
            self.w("log('again', names(locals()), names(%s), locals() is %s)" % (d, d))
        elif k < 0.72:
            c = r.random()
            if c < 0.4:
                self.w("globals()[%r] = %s" % (n, self.nv()))
            elif c < 0.5:
                self.w("globals().pop(%r, None)" % n)
            else:
                self.w("log('glob', names(globals()))")
            self.name_guard("log('n', %s)" % n)
        elif k < 0.84:
            self.name_guard("log('ev', %s)" % self.eval_call(n))
        elif k < 0.94:
            if not early:
                self.exec_call(kind, n)
        elif k < 0.97:
            self.w("for %s in it(2):" % n)
            self.w("    log('l', %s)" % n)
        else:
            self.name_guard("log('comp', %s)" % r.choice((
                "[%s for z in it(1)]" % n if kind != "cls" else "[z for z in [%s]]" % n,
                "list(keep(%s for z in it(1)))" % n,
                "(lambda: %s)()" % n,
                "(lambda %s: %s)(5)" % (n, n),
                "(lambda z=%s: z)()" % n)))

    def name_dict(self):
        r = self.r
        return "{%s}" % ", ".join("%r: %s" % (m, self.nv()) for m in r.sample(POOL, r.randint(0, 3)))

    def eval_call(self, n):
        r = self.r
        src = r.choice((n, n, n, "names(locals())", "names(globals())", "(lambda: %s)()" % n, "[%s, log('in')]" % n,
                        "names(vars())", "names(dir())", "eval(%r)" % n))
        c = r.random()
        # (what a dictionary of one's own lacks: the world's functions)
        full = "dict(globals(), **%s)" % self.name_dict()
        if c < 0.5:
            return "eval(%r)" % src
        if c < 0.6:
            return "eval(%r, globals())" % src
        if c < 0.7:
            return "eval(%r, %s)" % (src, full)
        if c < 0.8:
            return "eval(%r, %s, %s)" % (src, full, self.name_dict())
        if c < 0.9:
            return "eval(%r, globals(), %s)" % (src, r.choice((self.name_dict(), "locals()")))
        if c < 0.95:
            return "eval(%r, None)" % src
        return "eval(%r, None, %s)" % (src, self.name_dict())

    def exec_call(self, kind, n):
        r = self.r
        m = r.choice(POOL)
        src = r.choice(("%s = 41" % n, "%s = %s" % (n, m), "del %s" % n, "log('ex', %s)" % n, "%s = log('ex')" % n,
                        "def h():\\n    return %s\\nlog('h', h())" % n if False else "def h(): return %s" % n,
                        "raise E1('@exec')", "log('exl', names(locals()), names(globals()))",
                        "for %s in it(1): log('f')" % n, "global %s; %s = 'ge'" % (n, n), "%s = 1; log(%s)" % (n, m)))
        c = r.random()
        self.nx += 1
        d = "ed%d" % self.nx
        full = "dict(globals(), **%s)" % self.name_dict()
        lines = []
        if c < 0.4 and (self.v >= (3, 0) or kind == "mod"):
            lines.append("exec(%r)" % src)
            lines.append("log('x', names(locals()))")
        elif c < 0.45 and (self.v >= (3, 0) or kind == "mod"):
            lines.append("exec(%r, None)" % src if self.v >= (3, 0) else "exec(%r)" % src)
        elif c < 0.55:
            lines.append("exec(%r, globals())" % src)
            lines.append("log('g', names(globals()))")
        elif c < 0.75:
            self.w("%s = %s" % (d, full))
            lines.append("exec(%r, %s)" % (src, d))
            lines.append("log('d', names(%s))" % d)
        elif c < 0.9:
            self.w("%s = %s" % (d, self.name_dict()))
            lines.append("exec(%r, globals(), %s)" % (src, d))
            lines.append("log('d', names(%s))" % d)
        else:
            self.w("%s = %s" % (d, self.name_dict()))
            lines.append("exec(%r, %s, %s)" % (src, full, d))
            lines.append("log('d', names(%s))" % d)
        self.w("try:")
        for s in lines:
            self.w("    " + s)
        self.w("except (NameError, E1):")
        self.w("    log('failed')")

    def name_scope(self, kind, depth, info):
        r = self.r
        self.nscope -= 1
        self.nf += 1
        new = r.choice(("fn", "fn", "fn", "cls", "gen"))
        f = "h%d" % self.nf
        params = []
        if new == "cls":
            self.w("class %s(object):" % f)
        else:
            params = r.sample(POOL, r.choice((0, 0, 1)))
            self.w("def %s(%s):" % (f, ", ".join(params)))
        self.ind += 1
        inner = {}
        free = [m for m in POOL if m not in params]
        # what the enclosing functions have bound
        outer = info.get("bound", set())
        declared = []
        if self.chance(0.35):
            m = r.choice(free)
            self.w("global %s" % m)
            declared.append(m)
        if self.v >= (3, 0) and outer and self.chance(0.3):
            ms = sorted(set(outer) - set(declared) - set(params))
            if ms:
                m = r.choice(ms)
                self.w("nonlocal %s" % m)
                declared.append(m)
        start = len(self.lines)
        inner["bound"] = set(outer)
        if new != "cls":
            bind = r.sample([m for m in POOL if m not in declared and m not in params] or ["n9"], 1)
            for m in bind:
                if self.chance(0.6):
                    self.w("%s = %s" % (m, self.nv()))
                    inner["bound"].add(m)
            inner["bound"].update(params)
            inner["bound"] -= {m for m in declared}
        for _ in range(r.randint(2, 5)):
            self.name_item(new, depth + 1, inner, info)
        if new == "gen":
            self.w("yield names(locals())")
            if self.chance(0.5):
                self.name_item(new, depth + 1, inner, info)
                self.w("yield names(locals())")
        elif new == "fn":
            self.w("return names(locals())")
        self.ind -= 1
        args = ", ".join(self.nv() for _ in params)
        if new == "cls":
            self.w("log('cls', names(%s.__dict__))" % f)
            for m in POOL[:2]:
                if self.chance(0.3):
                    self.w("log('attr', getattr(%s, %r, 'none'))" % (f, m))
        else:
            call = "%s(%s)" % (f, args)
            if new == "gen":
                call = "list(keep(%s))" % call
            for _ in range(r.choice((1, 1, 2))):
                self.name_guard("log('r', %s)" % call)
            if new == "fn" and self.chance(0.15):
                self.name_guard("log('again', cb(%s))" % ", ".join([f] + [self.nv() for _ in params]))
