"""The simulated world an interpreted program acts on.

Everything a simulated program can observe or do goes through the probe objects
below.  Each such operation is one *world event*: it gets an ordinal, is appended
to the event log with its operands, and the simulator decides its outcome - a
value, an early end of an iteration, suppression of an exception, a re-entrant
call, or a fault (an exception, an interrupt, memory exhaustion, an I/O error ...).

All decisions are pure functions of (seed, ordinal), or come from an explicit
fault table {ordinal: fault} - so the same program under the same plan sees the
same world whether the host CPython (the reference) or x-python runs it, for as
long as both perform the same sequence of operations.
"""
import operator
import re
import types
import zlib

import py2


class Falsy(type):
    def __bool__(cls):
        return False


class SimError(Exception, metaclass=Falsy):
    """Base of the faults that only the world raises.  (These exceptions and their
    classes are false: an interpreter has no business asking.)"""

    def __bool__(self):
        return False


class E1(SimError):
    pass


class E2(E1):
    pass


class E3(SimError):
    pass


class SimLimit(BaseException):
    """The run went past the event limit."""


class SimStopped(BaseException):
    """The world was used after the run was over."""


FAULTS = {
    "E1": E1, "E2": E2, "E3": E3, "ValueError": ValueError, "KeyError": KeyError,
    "TypeError": TypeError, "AttributeError": AttributeError, "OSError": OSError,
    "IndexError": IndexError, "NameError": NameError, "RuntimeError": RuntimeError,
    "MemoryError": MemoryError, "LookupError": LookupError,
    "KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit,
    "AssertionError": AssertionError, "StopIteration": StopIteration,
    "RecursionError": RecursionError, "ImportError": ImportError,
}

TAG = "@"


def decide(seed, n, salt):
    return zlib.crc32(b"%d:%d:%s" % (seed, n, salt.encode()))


def show_exc(etype, exc):
    """Canonical form of an exception: world and program exceptions carry a tag as
    their first argument; of the interpreter's own exceptions only the type counts
    (their wording differs between Python versions)."""
    if etype is None and exc is None:
        return "None"
    t = etype if isinstance(etype, type) else type(exc)
    name = t.__name__
    if name == "UnboundLocalError":
        name = "NameError"
    args = getattr(exc, "args", None)
    if isinstance(args, tuple) and args and isinstance(args[0], str) and args[0].startswith(TAG):
        return "%s(%s)" % (name, ",".join(show(a) for a in args))
    return name


_GEN = ("generator", "Generator")
_FN = ("function", "Function")
_METH = ("method", "Method")


ordered = False      # the order of the items of a dict counts


def of_version(version):
    """Dicts keep the order of insertion since 3.6, and those of PyPy always did."""
    global ordered
    ordered = version >= (3, 6) or "pypy" in version


def show(v, d=0):
    """Canonical, address-free, side-effect-free rendering of a value."""
    t = type(v)
    if t is P:
        return "P%d" % object.__getattribute__(v, "_pid")
    if v is None or t is bool or t is int or t is str or t is float:
        return repr(plain(v) if t is str and " at 0x" in v else v)
    if d > 4:
        return "..."
    if t is tuple:
        return "(" + ",".join(show(x, d + 1) for x in v) + ")"
    if t is list:
        return "[" + ",".join(show(x, d + 1) for x in v) + "]"
    if t is dict:
        items = [show(k, d + 1) + ":" + show(x, d + 1) for k, x in v.items()]
        return "{" + ",".join(items if ordered else sorted(items)) + "}"
    if t is set or t is frozenset:
        return "S{" + ",".join(sorted(show(x, d + 1) for x in v)) + "}"
    if t is slice:
        return "slice(%s,%s,%s)" % (show(v.start), show(v.stop), show(v.step))
    # (isinstance() would ask the program's own __class__ or __getattribute__)
    if issubclass(t, BaseException):
        return show_exc(t, v)
    n = t.__name__
    if n in _GEN:
        return "<gen>"
    if n in _FN:
        return "<fn %s>" % v.__name__
    if n in _METH:
        # (an unbound method of 2.x is a function in 3.x)
        return "<%s %s>" % ("fn" if v.__self__ is None else "meth", v.__name__)
    if issubclass(t, type):
        return "<class %s>" % type.__getattribute__(v, "__name__")
    if t in (PM, It, CM, Mp, Itr, Deco, Out, SoftOut):
        return "%s%d" % (n, v._pid)
    if n == "SM":
        return "<module %s>" % types.ModuleType.__getattribute__(v, "__name__")
    if n == "builtin_function_or_method" or n == "module":
        return "<%s %s>" % (n, v.__name__)
    return "<%s>" % n


class World:
    def __init__(self, seed, rates=None, faults=None, limit=4000, kinds=None):
        self.seed = seed
        self.rates = rates          # [(fault name, per-event probability * 2**32)]
        self.faults = faults        # explicit {ordinal: fault name}
        self.limit = limit
        self.log = []
        self.n = 0
        self.npid = 0
        self.fired = {}             # ordinal -> fault (those that really fired)
        self.fired_at = {}          # ordinal -> event kind
        self.stopped = False
        self.kept = []
        self.kinds = kinds          # event kinds that faults may strike (None: any)
        self.hook = None            # called before every event (scheduling point)
        self.switches = 0
        self.closers = []           # what to undo at the end

    # ------------------------------------------------------------ events
    def event(self, kind, *args):
        """Record one event; returns its ordinal.  Raises the planned fault."""
        if self.stopped:
            raise SimStopped()
        if self.hook is not None:
            self.hook(self, kind)
        n = self.n
        self.n = n + 1
        if n >= self.limit:
            self.stopped = True
            raise SimLimit(n)
        self.log.append((kind,) + tuple(show(a) for a in args))
        f = self.fault(n, kind)
        if f is not None:
            self.strike(n, kind, f)
        return n

    def fault(self, n, kind):
        if self.faults is not None:
            return self.faults.get(n)
        if self.rates and (self.kinds is None or kind.split(":")[0] in self.kinds):
            x = decide(self.seed, n, "f")
            for name, p in self.rates:
                if x < p:
                    return name
                x -= p
        return None

    def strike(self, n, kind, f):
        if f in FAULTS:
            if f == "StopIteration" and kind != "next":
                return
            if f in ("KeyError", "AttributeError") and kind in ("keys", "mapping"):
                # Calls translate these (or not, depending on the version).
                return
            self.note_fault(n, kind, f)
            self.log.append(("!", f))
            raise FAULTS[f](TAG + str(n))

    def note_fault(self, n, kind, f):
        self.fired[n] = f
        self.fired_at[n] = kind

    def soft(self, n, kind, name):
        """A fault that is an outcome rather than an exception ("short", "suppress"...)."""
        if self.faults is not None:
            hit = self.faults.get(n) == name
        else:
            hit = False
            if self.rates:
                x = decide(self.seed, n, name)
                for nm, p in self.rates:
                    if nm == name:
                        hit = x < p
        if hit:
            self.note_fault(n, kind, name)
        return hit

    def bit(self, n, salt="b"):
        return bool(decide(self.seed, n, salt) >> 7 & 1)

    def pick(self, n, k, salt="p"):
        return (decide(self.seed, n, salt) >> 5) % k

    def new(self, cls=None):
        p = (cls or P).__new__(cls or P)
        object.__setattr__(p, "_w", self)
        object.__setattr__(p, "_pid", self.npid)
        self.npid += 1
        return p

    def value(self, n):
        """The default result of an operation: mostly a fresh probe, at times a plain
        value."""
        k = self.pick(n, 40, "v")
        if k == 0:
            return n % 5
        if k == 1:
            return "s%d" % (n % 3)
        return self.new()

    # ------------------------------------------------------------ program's globals
    def namespace(self):
        w = self

        def mk(*a):
            """P(...): a fresh probe"""
            w.event("P", *a)
            return w.new()

        def log(*a):
            w.event("log", *a)

        def it(n):
            """an iterator over n items"""
            e = w.event("it", n)
            x = w.new(It)
            k = n
            if w.soft(e, "it", "short"):
                k = max(0, n - 1 - w.pick(e, 2))
            elif w.soft(e, "it", "long"):
                k = n + 1 + w.pick(e, 2)
            x._left = k
            return x

        def dl(n):
            """an iterator over n items to delegate to"""
            w.event("dl", n)
            x = w.new(Dl)
            x._left = n
            return x

        def itr(n):
            """an iterable (not an iterator) over n items"""
            w.event("itr", n)
            x = w.new(Itr)
            x._n = n
            return x

        def cm(*a):
            """a context manager"""
            w.event("cm", *a)
            return w.new(CM)

        def cb(f, *a):
            """native code that calls back: 1 or 2 calls"""
            e = w.event("cb", f, *a)
            r = None
            for _ in range(1 + w.pick(e, 2)):
                r = f(*a)
            w.event("cb-end", r)
            return r

        def cbs(f, *a):
            """native code that calls back and swallows ordinary exceptions"""
            w.event("cbs", f, *a)
            try:
                r = f(*a)
            except Exception as exc:
                w.event("cbs-caught", exc)
                return None
            w.event("cbs-end", r)
            return r

        def mp(*names):
            """a mapping with the given keys"""
            w.event("mp", *names)
            x = w.new(Mp)
            x._names = names
            return x

        def deco(*a):
            """a decorator"""
            w.event("deco", *a)
            return w.new(Deco)

        def keep(g):
            """keep an object alive to the end of the run"""
            w.kept.append(g)
            return g

        def sched(k, n):
            """an interleaving: n picks among k tasks"""
            e = w.event("sched", k, n)
            return [(decide(w.seed, e, "s%d" % i) >> 4) % k for i in range(n)]

        def flag(*a):
            """a decision of the world"""
            return w.bit(w.event("flag", *a))

        def upto(n):
            """a number below n"""
            return w.pick(w.event("upto", n), n)

        def names(d):
            """what a namespace (or a list of names) says of a few names"""
            if isinstance(d, (list, tuple)):
                return [k for k in d if k in POOL]
            if ordered and type(d) is types.MappingProxyType:
                return [(k, d[k]) for k in list(d) if k in POOL]
            return [(k, d[k]) for k in POOL if k in d]

        def out(soft):
            """a file"""
            w.event("out", soft)
            return w.new(SoftOut if soft else Out)

        def chain(e):
            """what an exception remembers, as far as the text says"""
            got = []
            while e is not None and len(got) < 12:
                c = e.__cause__
                got.append((show_exc(type(e), e), "from" if e.__suppress_context__ else "", "" if c is None else show_exc(type(c), c)))
                e = e.__context__
            return got

        ns = {}
        mods.install(self, ns)
        return dict(py2.NAMES, **ns, **{
            "names": names, "out": out, "chain": chain, "dl": dl, "kept": [E1('@k0'), E2('@k1')],
            "P": mk, "log": log, "it": it, "itr": itr, "cm": cm, "cb": cb, "cbs": cbs,
            "keep": keep, "mp": mp, "deco": deco, "sched": sched, "flag": flag, "upto": upto,
            "E1": E1, "E2": E2, "E3": E3, "SimError": SimError,
        })

    def finish(self):
        self.stopped = True
        for f in self.closers:
            f()


POOL = ("n0", "n1", "n2", "abs", "max")


def plain(s):
    """without addresses"""
    return re.sub("<.* at 0x[0-9a-f]+>", "<...>", s) if isinstance(s, str) else s


class Truth(object):
    """An object that notes when its truth is asked for."""
    __slots__ = ()

    def __bool__(self):
        w = self._w
        return w.bit(w.event("bool", self))


class Out(Truth):
    """A file to print to, which cannot have an attribute "softspace"."""
    __slots__ = ("_w", "_pid")

    def write(self, s):
        self._w.event("write", self, plain(s))


class SoftOut(Truth):
    """One that notes each use of "softspace"."""

    def write(self, s):
        self._w.event("write", self, plain(s))

    @property
    def softspace(self):
        self._w.log.append(("softspace?", show(self)))
        return self._soft if "_soft" in self.__dict__ else 0

    @softspace.setter
    def softspace(self, x):
        self._w.log.append(("softspace", show(self), show(x)))
        self.__dict__["_soft"] = x


class PM(Truth):
    """A method of a probe."""

    def __call__(self, *a, **k):
        w = self._w
        n = w.event("callm:" + self._name, self._of, a, k)
        return w.value(n)


class It(Truth):
    def __iter__(self):
        self._w.event("iter", self)
        return self

    def __next__(self):
        w = self._w
        n = w.event("next", self)
        if self._left <= 0 or w.soft(n, "next", "end"):
            self._left = 0
            raise StopIteration
        self._left -= 1
        return w.new()


class Dl(It):
    """an iterator that takes what is sent and thrown"""

    def send(self, v):
        self._w.event("send", self, v)
        return self.__next__()

    def throw(self, *a):
        w = self._w
        n = w.event("throw", self, *a)
        k = w.pick(n, 4)
        if k == 0:
            return w.new()
        if k == 1:
            raise StopIteration("@over")
        if k == 2:
            raise E2("@other")
        raise a[0] if isinstance(a[0], BaseException) else E1("@thrown")

    def close(self):
        w = self._w
        if w.pick(w.event("close", self), 4) == 1:
            raise E2("@close")


class Itr(Truth):
    def __iter__(self):
        w = self._w
        w.event("iter", self)
        x = w.new(It)
        x._left = self._n
        return x


class Mp(Truth):
    def keys(self):
        self._w.event("keys", self)
        return list(self._names)

    def __getitem__(self, k):
        w = self._w
        w.event("mapping", self, k)
        return w.new()


class Deco(Truth):
    def __call__(self, f):
        self._w.event("decorate", self, f)
        return f


class CM(Truth):
    def __enter__(self):
        w = self._w
        n = w.event("enter", self)
        return w.new() if w.pick(n, 6, "e") else self

    def __exit__(self, t, v, tb):
        w = self._w
        if t is not None and not isinstance(t, type):
            what = "?" + show(t)
        else:
            what = show_exc(t, v)
        if t is not None and not isinstance(v, BaseException):
            what += "|value:" + show(v)
        n = w.event("exit:" + what, self)
        if w.soft(n, "exit", "suppress"):
            return w.new() if w.bit(n, "x") else True
        return [None, False, 0, ""][w.pick(n, 4, "xf")]


class P(object):
    """A probe: every operation on it is a world event."""

    def __getattr__(self, name):
        # Only the names programs use; anything else (the interpreter's own
        # introspection) is simply absent.
        if name[:2] == "x_":
            w = object.__getattribute__(self, "_w")
            n = w.event("getattr:" + name, self)
            return w.value(n)
        if name[:2] == "m_":
            w = object.__getattribute__(self, "_w")
            w.event("getattr:" + name, self)
            m = w.new(PM)
            m._name = name
            m._of = self
            return m
        if name == "__qualname__":
            return "P"
        raise AttributeError(name)

    def __setattr__(self, name, v):
        object.__getattribute__(self, "_w").event("setattr:" + name, self, v)

    def __delattr__(self, name):
        object.__getattribute__(self, "_w").event("delattr:" + name, self)

    def __call__(self, *a, **k):
        w = self._w
        return w.value(w.event("call", self, a, k))

    def __bool__(self):
        w = self._w
        return w.bit(w.event("bool", self))

    def __contains__(self, x):
        w = self._w
        return w.bit(w.event("contains", self, x))

    def __getitem__(self, k):
        w = self._w
        return w.value(w.event("getitem", self, k))

    def __setitem__(self, k, v):
        self._w.event("setitem", self, k, v)

    def __delitem__(self, k):
        self._w.event("delitem", self, k)

    def __iter__(self):
        w = self._w
        n = w.event("iter", self)
        x = w.new(It)
        x._left = w.pick(n, 4, "len")
        return x

    def __enter__(self):
        w = self._w
        w.event("enter", self)
        return self

    def __exit__(self, t, v, tb):
        return CM.__exit__(self, t, v, tb)

    def __format__(self, spec):
        self._w.event("format", self, spec)
        return "f%d" % self._pid

    def __str__(self):
        self._w.event("str", self)
        return "s%d" % self._pid

    def __repr__(self):
        return "r%d" % self._pid

    def __len__(self):
        w = self._w
        return w.pick(w.event("len", self), 4, "len")

    def __hash__(self):
        # (not the one of a number: when a set compares its items depends on the version)
        return 1000003 + self._pid


def _binop(name):
    def f(self, o):
        w = self._w
        return w.value(w.event(name, self, o))
    f.__name__ = name
    return f


def _unop(name):
    def f(self):
        w = self._w
        return w.value(w.event(name, self))
    f.__name__ = name
    return f


def _cmp(name):
    def f(self, o):
        w = self._w
        n = w.event(name, self, o)
        if w.pick(n, 6, "cp") == 0:
            return w.new()
        return w.bit(n)
    f.__name__ = name
    return f


for _n in ("add sub mul truediv floordiv mod pow lshift rshift and or xor matmul").split():
    for _pre in ("", "r", "i"):
        _f = "__%s%s__" % (_pre, _n)
        setattr(P, _f, _binop(_f))
for _pre in ("", "r", "i"):
    # (2.x)
    setattr(P, "__%sdiv__" % _pre, getattr(P, "__%struediv__" % _pre))
for _n in "neg pos invert".split():
    setattr(P, "__%s__" % _n, _unop("__%s__" % _n))
for _n in "lt le eq ne gt ge".split():
    setattr(P, "__%s__" % _n, _cmp("__%s__" % _n))

import mods  # noqa: E402 (which needs the above)
