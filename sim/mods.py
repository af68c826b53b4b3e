"""The simulated store of modules that programs import from: a finder at the front of
sys.meta_path for the names below ``sim_``. What a module has is a function of the
world's seed and its name; finding one, running it and (for some) each read of its
attributes are world events, where faults may strike."""
import importlib.machinery
import sys
import types

from world import POOL, decide, show

# name -> is it a package
TREE = {"sim_a": 0, "sim_b": 0, "sim_c": 0, "sim_p": 1, "sim_p.s": 0, "sim_p.t": 0, "sim_p.q": 1, "sim_p.q.s": 0,
        "sim_p.q.u": 0}
NAMES = POOL + ("_u0", "x_1", "x_2")
SEEN = NAMES + ("__all__", "s", "t", "q", "u", "nope")


class SM(types.ModuleType):
    """A module of which each read of an attribute is an event."""

    def __getattribute__(self, name):
        if name in SEEN:
            object.__getattribute__(self, "_w").event("modget:" + name, self)
        return types.ModuleType.__getattribute__(self, name)


class Seq(object):
    """An __all__ that is not a list."""

    def __init__(self, w, names):
        self.w, self.names = w, names

    def __getitem__(self, i):
        self.w.event("all", i)
        return self.names[i]

    def __iter__(self):
        # (importlib iterates over the one of a package)
        return iter(self.names)


class Store:
    def __init__(self, w):
        self.w = w
        self.ran = {}           # how often each module was run
        self.calls = {}         # module name -> program's function to call while it is run

    def open(self):
        self.close()
        sys.meta_path.insert(0, self)

    def close(self):
        sys.meta_path[:] = [x for x in sys.meta_path if type(x).__name__ != "Store"]
        self.forget("sim_")

    def forget(self, prefix):
        for k in [k for k in sys.modules if k.startswith(prefix)]:
            del sys.modules[k]

    def pick(self, name, salt, k):
        return decide(self.w.seed, self.ran.get(name, 0), "%s/%s" % (name, salt)) // 64 % k

    # the finder
    def find_spec(self, name, path=None, target=None):
        if not name.startswith("sim_"):
            return None
        self.w.event("find:" + name)
        if name not in TREE:
            raise ModuleNotFoundError("no module", name=name)
        return importlib.machinery.ModuleSpec(name, self, is_package=bool(TREE[name]))

    # the loader
    def create_module(self, spec):
        if self.pick(spec.name, "kind", 3):
            m = SM(spec.name)
            m._w = self.w
            return m
        return None

    def exec_module(self, m):
        w = self.w
        d = m.__dict__
        name = m.__spec__.name
        n = w.event("exec:" + name, m)
        self.ran[name] = self.ran.get(name, 0) + 1
        have = [k for i, k in enumerate(NAMES) if self.pick(name, "n%d" % i, 5) < 2]
        for k in have:
            d[k] = w.new() if self.pick(name, "v" + k, 3) else k + "." + name
        c = self.pick(name, "all", 9)
        if c < 5:
            some = [k for i, k in enumerate(have) if self.pick(name, "a%d" % i, 3)]
            if c == 1:
                some.append("nope")
            if TREE[name] and self.pick(name, "sub", 2):
                some += ["s"]
            d["__all__"] = tuple(some) if c == 2 else Seq(w, some) if c == 3 else some
        if self.pick(name, "getattr", 4) == 0:
            def ga(k):
                if k in SEEN and k != "__all__":
                    e = w.event("modattr:" + k, name)
                    if w.bit(e, "ma"):
                        return w.value(e)
                raise AttributeError(k)
            d["__getattr__"] = ga
        f = self.calls.get(name)
        if f is not None:
            f(name)
        c = self.pick(name, "then", 12)
        if c == 0:
            # It puts something else in its place.
            sys.modules[name] = w.new()
        elif c == 1 and name != "sim_b":
            __import__("sim_b")
        elif c == 2:
            w.event("late:" + name)


def install(w, ns):
    store = Store(w)

    def mods():
        """open the store"""
        w.event("mods")
        store.open()
        w.closers.append(store.close)

    def forget(name):
        """a module (with what is below it) that is imported afresh the next time"""
        w.event("forget", name)
        store.forget(name)

    def onload(name, f):
        """call f while the module is run"""
        w.event("onload", name, f)
        store.calls[name] = f

    def bound(d):
        """what of the store is bound in a namespace"""
        return [(k, show(d[k])) for k in sorted(d) if k in ALLNAMES]

    ns.update(mods=mods, forget=forget, onload=onload, bound=bound)


ALLNAMES = set(NAMES) | {"sim_a", "sim_b", "sim_c", "sim_p", "s", "t", "q", "u", "i0", "i1", "i2", "sys"}
