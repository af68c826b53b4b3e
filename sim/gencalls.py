"""Function signatures and call shapes (mixed into gen.Gen)."""

import ast



def loud_elements(display):
    """Can the evaluation of this list or tuple display be observed?"""
    return any(not isinstance(e, ast.Constant) for e in ast.parse(display, mode="eval").body.elts)


class Sig:
    """What the generator knows about a function with a full signature."""
    kind = "sig"

    def __init__(self, name, scope, params, ndef, posonly=0, star=None, kwonly=(), dstar=None):
        self.name, self.scope = name, scope
        self.params, self.ndef, self.posonly = params, ndef, posonly
        self.star, self.kwonly, self.dstar = star, list(kwonly), dstar


class GenCalls:
    # ------------------------------------------------------------ definitions
    def quiet(self, sc):
        """an operand without events: a constant or a bound variable (mostly bound: so
        not where the order of evaluation depends on the version)"""
        r = self.r
        vs = sc.readable() if self.v >= (3, 5) else ()
        if vs and self.chance(0.6):
            return r.choice(vs)
        return r.choice(("None", "1", "'q'", "7", "()", "(1, 2)"))

    def make_sig(self, name, sc, method=False):
        r = self.r
        n = r.choice((0, 1, 1, 2, 2, 3))
        params = ["abc"[i] + "0" for i in range(n)]
        r.shuffle(params)
        if n and not method and self.chance(0.06):
            params[r.randrange(n)] = r.choice(("self", "func", "args", "kwargs"))
        ndef = r.randint(0, n) if self.chance(0.5) else 0
        posonly = r.randint(1, n) if self.v >= (3, 8) and n and self.chance(0.25) else 0
        star = "rest" if self.chance(0.35) else None
        kwonly = []
        if self.v >= (3, 0) and self.chance(0.45):
            ks = ["k0", "k1", "j0"]
            r.shuffle(ks)
            kwonly = [(k, self.chance(0.5)) for k in ks[:r.randint(1, 3)]]
        dstar = "more" if self.chance(0.35) else None
        return Sig(name, sc, params, ndef, posonly, star, kwonly, dstar)

    def ann(self, sc):
        return ": %s" % self.ve(sc, 2) if self.annotate and self.chance(0.5) else ""

    def sig_text(self, f, sc, first=None, lam=False):
        """The parameter list of f; default and annotation expressions have effects."""
        r = self.r
        self.annotate = not lam and self.v >= (3, 0) and self.chance(0.3)
        out = [first] if first else []
        n = len(f.params)
        loudpos = True
        for i, p in enumerate(f.params):
            s = p + self.ann(sc)
            if i >= n - f.ndef:
                s += "=" + (self.ve(sc, 2) if self.chance(0.7) else self.quiet(sc))
            out.append(s)
            if i + 1 == f.posonly:
                out.append("/")
        # Up to 3.3 the defaults of keyword-only parameters are evaluated first.
        if self.v < (3, 4) and f.ndef:
            loudpos = False
        if f.star:
            out.append("*" + f.star + self.ann(sc))
        elif f.kwonly:
            out.append("*")
        for k, has in f.kwonly:
            s = k + self.ann(sc)
            if has:
                s += "=" + (self.ve(sc, 2) if loudpos and self.chance(0.7) else r.choice(("None", "3", "'kd'")))
            out.append(s)
        if f.dstar:
            out.append("**" + f.dstar + self.ann(sc))
        ret = ""
        if self.annotate and self.chance(0.5):
            ret = " -> %s" % self.ve(sc, 2)
        return ", ".join(out), ret

    def sig_names(self, f):
        return (list(f.params) + ([f.star] if f.star else []) + [k for k, _ in f.kwonly] +
                ([f.dstar] if f.dstar else []))

    def emit_sig(self, f, sc, scope_cls, decor=()):
        r = self.r
        for x in decor:
            self.w("@" + x)
        text, ret = self.sig_text(f, sc)
        self.w("def %s(%s)%s:" % (f.name, text, ret))
        self.ind += 1
        inner = scope_cls("fn", sc, f.name)
        inner.vars = list(f.params) + [k for k, _ in f.kwonly]
        names = self.sig_names(f)
        if self.chance(0.15):
            self.w(r.choice(("'doc'", "'''some text'''")))
        self.w("log(%s)" % ", ".join(["'%s'" % f.name] + names))
        if f.dstar and self.v >= (3, 6):
            self.w("log('order', list(%s))" % f.dstar)
        if self.chance(0.3) and names:
            # parameters are variables, and may be captured
            x = r.choice(names)
            self.w("%s = (lambda: [%s])()" % (r.choice(names), x))
        if self.chance(0.3) and inner.vars:
            self.w("log(%s)" % self.e(inner, 1))
        self.w("return %s" % (r.choice(inner.vars) if inner.vars and self.chance(0.7) else self.ve(inner, 2)))
        self.ind -= 1

    def s_sigdef(self, sc, ctx):
        if sc.kind == "cls" or ctx.depth > 1:
            return False
        from gen import Scope
        r = self.r
        self.nf += 1
        f = self.make_sig("s%d" % self.nf, sc)
        decor = []
        if self.chance(0.25):
            decor = ["deco(%d)" % r.randint(0, 5) for _ in range(r.randint(1, 2))]
        self.emit_sig(f, sc, Scope, decor=decor)
        if self.chance(0.35):
            self.w("log('about', %s.__name__%s)" % (f.name, self.about(f)))
        if ctx.depth == 0:
            sc.fns = sc.fns + [f]
            n = r.randint(0, 2)
        else:
            n = r.randint(1, 2)
        for _ in range(n):
            self.guarded(sc, ctx, "log('c', %s(%s))" % (f.name, self.sigargs(sc, 1, f)))

    def about(self, f):
        s = ""
        if self.v >= (3, 0):
            s += ", " + f.name + ".__annotations__"
        if f.ndef:
            s += ", " + f.name + ".__defaults__"
        if [k for k in f.kwonly if k[1]]:
            s += ", " + f.name + ".__kwdefaults__"
        return s

    def guarded(self, sc, ctx, line):
        if self.sw.get("try_except") and not self.ctx_plain and self.chance(0.6):
            self.w("try:")
            self.w("    " + line)
            self.w("except TypeError:")
            self.w("    log('bad call')")
        else:
            self.w(line)

    ctx_plain = False

    # ------------------------------------------------------------ calls
    def e_callsig(self, sc, d):
        fs = [f for f in self.callables(sc) if f.kind == "sig"]
        if not fs:
            return None
        f = self.r.choice(fs)
        return "%s(%s)" % (f.name, self.sigargs(sc, d, f))

    def e_lamsig(self, sc, d):
        if sc.kind == "cls":
            return None
        from gen import Scope
        f = self.make_sig("<lambda>", sc)
        inner = Scope("fn", sc, "<lambda>")
        inner.vars = list(f.params) + [k for k, _ in f.kwonly]
        names = self.sig_names(f)
        text, _ = self.sig_text(f, sc, lam=True)
        body = "[log('lam', %s), %s][1]" % (", ".join(names or ["0"]), self.e(inner, d + 2))
        return "(lambda %s: %s)(%s)" % (text, body, self.sigargs(sc, d + 1, f))

    def e_callodd(self, sc, d):
        """any callable of the world with a full set of call shapes"""
        f = Sig("x", sc, [], 0, star="r", dstar="k")
        if self.chance(0.5):
            return "%s(%s)" % (self.pe(sc, d + 1), self.sigargs(sc, d, f, True))
        return "%s.m_%s(%s)" % (self.pe(sc, d + 1), self.r.choice("abc"), self.sigargs(sc, d, f, True))

    def sigargs(self, sc, d, f, native=False, pre=False):
        r = self.r
        v = self.v
        np_ = len(f.params)
        req = np_ - f.ndef
        lo = min(f.posonly, req)
        k = r.randint(lo, np_) if np_ else 0
        npos = k
        kws = []
        for i in range(k, np_):
            if i < f.posonly:
                continue
            if i < req or self.chance(0.5):
                kws.append(f.params[i])
        if k == np_ and f.star and self.chance(0.6):
            npos += r.randint(1, 2)
        for kw, has in f.kwonly:
            if not has or self.chance(0.5):
                kws.append(kw)
        if f.dstar:
            kws += r.sample(["z0", "y0", "b0", "t0"], r.randint(0, 2))
        dup = None
        if self.chance(0.12):
            c = r.random()
            if c < 0.25 and npos:
                npos -= 1
            elif c < 0.5:
                npos += 1
            elif c < 0.7:
                kws.append("u0")
            elif c < 0.85 and f.params:
                kws.append(r.choice(f.params))
            elif kws:
                kws.remove(r.choice(kws))
        kws = list(dict.fromkeys(kws))
        r.shuffle(kws)
        parts = []
        # positional part
        loudstar = False
        nplain = npos
        star = self.chance(0.3)
        multi = star and v >= (3, 5) and self.chance(0.35)
        ns = r.randint(0, npos) if star else 0
        nplain = npos - ns
        parts += [self.ve(sc, d + 1) for _ in range(nplain)]
        before = pre or nplain > 0
        if star:
            n1 = r.randint(0, ns) if multi else ns
            s, loudstar = self.starred(sc, d, n1)
            loudstar = loudstar or v < (3, 5) and loud_elements(s)
            parts.append("*" + s)
            left = ns - n1
            while multi and left > 0:
                hush = loudstar and v < (3, 9)
                if self.chance(0.5):
                    parts.append(self.quiet(sc) if hush else self.ve(sc, d + 1))
                    left -= 1
                else:
                    m = r.randint(0, left)
                    s, loud = self.starred(sc, d, m, hush)
                    parts.append("*" + s)
                    loudstar = loudstar or loud
                    left -= m
                before = True
        # keyword part
        hush = loudstar and v < (3, 6)
        maps = []
        plain = kws
        if kws and self.chance(0.35) or self.chance(0.04):
            m = r.randint(0, len(kws))
            maps, plain = kws[:m], kws[m:]
        else:
            maps = None
        out = []
        for kw in plain:
            out.append("%s=%s" % (kw, self.quiet(sc) if hush else self.ve(sc, d + 1)))
        if maps is not None:
            if v >= (3, 5) and self.chance(0.3):
                m = r.randint(0, len(maps))
                first, maps = maps[:m], maps[m:]
                out.insert(r.randint(0, len(out)) if not hush else 0, "**" + self.dictx(sc, d, first, True))
            if v >= (3, 9):
                loudok = True
            elif v >= (3, 6):
                loudok = True
            else:
                loudok = not loudstar or not before
            if plain and self.chance(0.08) and (v >= (3, 6) or not loudstar):
                out.append("**" + self.dictx(sc, d, maps + [r.choice(plain)], v < (3, 6)))
            else:
                out.append("**" + self.dictx(sc, d, maps, not loudok))
        return ", ".join(parts + out)

    def starred(self, sc, d, n, hush=False):
        r = self.r
        k = r.random()
        if not hush and k < 0.5:
            if k < 0.03:
                return r.choice(("None", "5")), True
            return "%s(%d)" % (r.choice(("it", "it", "itr")), n), True
        es = [self.quiet(sc) if hush or self.chance(0.6) else self.ve(sc, d + 1) for _ in range(n)]
        if k < 0.75:
            return ("[%s]" % ", ".join(es)), False
        return ("(%s)" % "".join(e + ", " for e in es)), False

    def dictx(self, sc, d, names, hush):
        r = self.r
        if not hush and self.chance(0.45):
            if self.chance(0.05):
                return r.choice(("None", "P(1)", "[1]"))
            return "mp(%s)" % ", ".join("'%s'" % n for n in names)
        return "{%s}" % ", ".join(
            "'%s': %s" % (n, self.quiet(sc) if hush or self.chance(0.5) else self.ve(sc, d + 1)) for n in names)
