"""Storage faults while a program file is read.

Every operation on the file (open, each read, close) is an event with an ordinal; the
simulator fails one of them, or hands over a file that is missing, short, torn or not
what it claims to be.  Nothing of the program may run then, the failure has to be
reported the documented way, the host left as it was, and the next attempt, with the
storage healed, must run the program as if nothing had happened."""
import errno
import io
import os
import struct

import files
import minicc
import pyc
from diff import VERSIONS
from engine import Outcome, digest
from files import FileDiff, hosted, scratch
import world
from world import World

ERRORS = {"EIO": errno.EIO, "EACCES": errno.EACCES, "ENOENT": errno.ENOENT, "EMFILE": errno.EMFILE,
          "ENOMEM": errno.ENOMEM, "ESTALE": errno.ESTALE, "EINTR": errno.EINTR}
UNSUPPORTED = [62011, 62021, 62041, 60202, 60717, 50428, 20121, 3000, 3010, 3103, 3111, 3131, 3600, 3571, 3655, 1, 0, 65535, 1000,
               12345]


class Disk:
    """Storage with one planned fault."""

    def __init__(self, path, at=None, error=None):
        self.path = path
        self.at = at
        self.error = error
        self.n = 0
        self.log = []
        self.fired = False
        self.real = open

    def op(self, what):
        n = self.n
        self.n += 1
        self.log.append(what)
        if n == self.at:
            self.fired = True
            self.log.append("!" + self.error)
            e = ERRORS[self.error]
            raise OSError(e, os.strerror(e))

    def open(self, file, mode="r", *a, **k):
        if file != self.path or "r" not in mode:
            return self.real(file, mode, *a, **k)
        self.op("open")
        f = File(self, self.real(file, "rb", buffering=0))
        b = io.BufferedReader(f, 64)
        if "b" in mode:
            return b
        return io.TextIOWrapper(b, *a[1:], **{k_: v for k_, v in k.items() if k_ in ("encoding", "errors", "newline")})


class File(io.RawIOBase):
    def __init__(self, disk, f):
        self.disk, self.f = disk, f

    def readable(self):
        return True

    def seekable(self):
        return True

    def readinto(self, b):
        self.disk.op("read")
        return self.f.readinto(b)

    def seek(self, *a):
        return self.f.seek(*a)

    def tell(self):
        return self.f.tell()

    def fileno(self):
        return self.f.fileno()

    def close(self):
        if not self.closed:
            self.f.close()
            super().close()


FAULTS = ("missing", "empty", "short", "short", "torn", "torn", "magic", "io", "io", "io", "directory", "source", "usage", "none")


class Storage(FileDiff):
    chunk = 40

    def case(self, rng, i):
        c = super().case(rng, i)
        if c is None:
            return None
        c["fault"] = f = rng.choice(FAULTS)
        c["pos"] = rng.random()
        c["magic"] = rng.choice(UNSUPPORTED)
        c["error"] = rng.choice(sorted(ERRORS))
        c["source_fault"] = rng.choice(("missing", "syntax", "encoding", "io"))
        c["fault"] = f
        return c

    def attempt(self, case, w, path, disk, args=None):
        import tokenize
        real = tokenize._builtin_open
        tokenize._builtin_open = disk.open
        w_names = files.names
        try:
            files.names = lambda w_, d: dict(w_names(w_, d), open=disk.open)
            if args is not None:
                return command_only(w, args, self.cpu)
            return files.vm_file(w, path, case["args"], case["how"], self.cpu)
        finally:
            files.names = w_names
            tokenize._builtin_open = real

    def execute(self, case, cpu=None):
        v = tuple(case["version"])
        src, fault = case["source"], case["fault"]
        world.of_version(v)
        code = minicc.compile_for(src, v)
        data = pyc.dumps(code, v, case["hashed"] and v >= (3, 7))
        if "faults" in case:
            w = World(case["world"], faults={int(k): f for k, f in case["faults"].items()}, limit=self.limit)
        else:
            w = World(case["world"], rates=case["rates"], limit=self.limit, kinds=case.get("spots"))
        with scratch() as s:
            path = s.path("prog.pyc")
            with open(path, "wb") as f:
                f.write(data)
            a = files.host_file(src, w, path, case["args"], cpu or self.cpu, v)
            if a.outcome in ("limit", "hang", "too deep"):
                return None, a, None, None
            explicit = {k: case[k] for k in ("how", "args", "hashed", "fault", "pos", "magic", "error", "source_fault")}
            explicit.update(version=list(v), source=src, world=case["world"], faults={str(k): f for k, f in a.fired.items()})
            disk = Disk(path)
            args = None
            ran_in_full_is_fine = fault == "none"
            want = (2,)
            if fault == "missing":
                os.unlink(path)
            elif fault == "empty":
                rewrite(path, b"")
            elif fault == "short":
                n = int(case["pos"] * (len(data) - 1))
                rewrite(path, data[:n])
                # all that is missing may be the end of the line table of the module
                ran_in_full_is_fine = n >= len(data) - tail(code)
            elif fault == "torn":
                # the end of the file was never written
                n = int(case["pos"] * (len(data) - 1 - tail(code)))
                rewrite(path, data[:n] + b"\0" * (len(data) - n))
                want = (2, 3)
                ran_in_full_is_fine = not any(data[n:])
                if n >= len(data) - tail(code) - 5 or n < 2:
                    ran_in_full_is_fine = True
            elif fault == "magic":
                rewrite(path, struct.pack("<H", case["magic"]) + data[2:])
                want = (2, 3)
            elif fault == "io":
                counting = Disk(path)
                self.attempt(case, World(case["world"], faults=a.fired, limit=2 * self.limit), path, counting)
                disk = Disk(path, int(case["pos"] * counting.n), case["error"])
                ran_in_full_is_fine = case["error"] == "EINTR"      # (read again)
            elif fault == "directory":
                os.unlink(path)
                os.mkdir(path)
            elif fault == "source":
                path = s.path("prog.py")
                disk = Disk(path)
                sf = case["source_fault"]
                if sf == "syntax":
                    rewrite(path, b"log('never')\ndef f(:\n")
                    want = (1, 2, "SyntaxError")
                elif sf == "encoding":
                    rewrite(path, b"# coding: no-such-code\nlog('never')\n")
                    want = (1, 2, "SyntaxError")
                elif sf == "io":
                    rewrite(path, b"log('never')\n" * 40)
                    disk = Disk(path, int(case["pos"] * 3), case["error"] if case["error"] != "EINTR" else "EIO")
            elif fault == "usage":
                args = [] if case["pos"] < 0.5 else ["-c", "log('never')", path]
                want = (4,)
            b = self.attempt(case, World(case["world"], faults=a.fired, limit=2 * self.limit), path, disk, args)
            d = self.judge(a, b, want, ran_in_full_is_fine, src, code, v)
            if d is None and path.endswith("pyc") and args is None:
                # healed
                if os.path.isdir(path):
                    os.rmdir(path)
                rewrite(path, data)
                c = self.attempt(case, World(case["world"], faults=a.fired, limit=2 * self.limit), path, Disk(path))
                d = self.compare(a, c, src, code, v)
                if d:
                    d = ("healed " + d[0],) + d[1:]
            b.out = b.out.replace(s.dir, "<dir>")
            b.fault = fault
            b.disk = list(disk.log)
        return d, a, b, explicit

    def judge(self, a, b, want, full_is_fine, src, code, v):
        if full_is_fine and self.compare(a, b, src, code, v) is None:
            return None
        if b.log:
            return ("event", 0, "nothing runs", b.log[0])
        if b.extra["changed"]:
            return ("host state", 0, "as before", "changed: " + " ".join(b.extra["changed"]))
        if b.outcome == "ended":
            if b.extra["rc"] not in want:
                return ("exit status", 0, "status in %r" % (want,), "status %r(%s)" % (b.extra["rc"], b.extra["err"][-300:]))
            if b.extra["rc"] in (2, 3, 4) and not b.out.strip():
                return ("message", 0, "a message", "none")
            return None
        names = {2: "raised NoSourceError", 3: "raised WrongBytecodeError", "SyntaxError": "raised SyntaxError",
                 1: "raised CannotCompileError"}
        if b.outcome not in [names.get(x) for x in want]:
            return ("outcome", 0, "one of %r" % ([names.get(x) for x in want],), b.outcome)
        return None

    def run(self, case):
        o = super().run(case)
        if o.status != "discard":
            k = "storage:" + case["fault"] + ("-" + case["source_fault"] if case["fault"] == "source" else "")
            o.nontrivial = True
            if case["fault"] != "none":
                o.faults = list(o.faults) + [k]
            o.state = digest(o.state, case["fault"], case["pos"], case["magic"])
        return o


def command_only(w, args, cpu):
    """The command with arguments of its own."""
    r = files.Result()
    with files.captured() as cap, hosted(files.names(w, "/nowhere")) as h, files.guard(cpu):
        try:
            rc = files.command(args)
            r.outcome = "ended"
        except BaseException as e:
            r.outcome, rc = files.outcome_of(type(e), e), None
        changed = h.changed()
    r.log, r.fired, r.fired_at, r.vars = w.log, w.fired, w.fired_at, {}
    r.out = cap.out.getvalue()
    r.extra = dict(rc=rc, err=cap.err.getvalue(), changed=changed)
    return r


def tail(code):
    """Bytes at the end of the file that hold the line table."""
    b = code.co_linetable if hasattr(code, "co_linetable") else code.co_lnotab
    return len(b) + 1


def rewrite(path, data):
    with open(path, "wb") as f:
        f.write(data)
