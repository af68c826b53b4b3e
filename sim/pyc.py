"""Writes the code objects of minicc as .pyc files, in the format of each version (an
independent writer: the reader under test is xdis through xpython.execfile)."""
import struct

MAGIC = {(2, 4): 62061, (2, 5): 62131, (2, 6): 62161, (2, 7): 62211, (3, 1): 3151, (3, 2): 3180, (3, 3): 3230,
         (3, 4): 3310, (3, 5): 3351, (3, 6): 3379, (3, 7): 3394, (3, 8): 3413, (3, 9): 3425, (3, 10): 3439}


def iscode(x):
    return hasattr(x, "co_code")


class Writer:
    def __init__(self, version):
        self.v = version
        self.out = bytearray()
        self.interned = {}
        self.nref = 0

    def byte(self, c):
        self.out += c.encode("latin-1")

    def u32(self, n):
        self.out += struct.pack("<I", n & 0xFFFFFFFF)

    def raw(self, b):
        self.u32(len(b))
        self.out += b

    def bytes_(self, b):
        self.byte("s")
        self.raw(b)

    def text(self, s, intern=False):
        """A str of the version: 8-bit in 2.x, unicode in 3.x."""
        v = self.v
        if v < (3, 0):
            b = s.encode("utf-8")
            if intern:
                if s in self.interned:
                    self.byte("R")
                    self.u32(self.interned[s])
                    return
                self.interned[s] = len(self.interned)
                self.byte("t")
            else:
                self.byte("s")
            self.raw(b)
            return
        if v < (3, 4):
            self.byte("u")
            self.raw(s.encode("utf-8", "surrogatepass"))
            return
        if intern and s in self.interned:
            self.byte("r")
            self.u32(self.interned[s])
            return
        flag = 0
        if intern:
            flag = 0x80
            self.interned[s] = self.nref
            self.nref += 1
        if s.isascii():
            if len(s) < 256:
                self.out.append(ord("Z" if intern else "z") | flag)
                self.out.append(len(s))
                self.out += s.encode()
            else:
                self.out.append(ord("A" if intern else "a") | flag)
                self.raw(s.encode())
        else:
            self.out.append(ord("t" if intern else "u") | flag)
            self.raw(s.encode("utf-8", "surrogatepass"))

    def tuple_(self, xs, item):
        if self.v >= (3, 4) and len(xs) < 256:
            self.byte(")")
            self.out.append(len(xs))
        else:
            self.byte("(")
            self.u32(len(xs))
        for x in xs:
            item(x)

    def name(self, s):
        self.text(s, True)

    def long_(self, n):
        self.byte("l")
        digits, m = [], abs(n)
        while m:
            digits.append(m & 0x7FFF)
            m >>= 15
        self.out += struct.pack("<i", len(digits) if n > 0 else -len(digits))
        for d in digits:
            self.out += struct.pack("<H", d)

    def float_(self, x):
        if self.v >= (2, 5):
            self.out += struct.pack("<d", x)
        else:
            r = repr(x).encode()
            self.out.append(len(r))
            self.out += r

    def obj(self, x):
        t = type(x)
        if x is None:
            self.byte("N")
        elif x is True:
            self.byte("T")
        elif x is False:
            self.byte("F")
        elif x is Ellipsis:
            self.byte(".")
        elif t is int:
            if -2 ** 31 <= x < 2 ** 31:
                self.byte("i")
                self.out += struct.pack("<i", x)
            else:
                self.long_(x)
        elif t is float:
            self.byte("g" if self.v >= (2, 5) else "f")
            self.float_(x)
        elif t is complex:
            self.byte("y" if self.v >= (2, 5) else "x")
            self.float_(x.real)
            self.float_(x.imag)
        elif t is str:
            self.text(x, x.isidentifier())
        elif t is bytes:
            self.bytes_(x)
        elif t is tuple:
            self.tuple_(x, self.obj)
        elif t is frozenset:
            self.byte(">")
            xs = sorted(x, key=repr)
            self.u32(len(xs))
            for y in xs:
                self.obj(y)
        elif iscode(x):
            self.code(x)
        else:
            raise TypeError("cannot marshal %r" % (x,))

    def code(self, c):
        v = self.v
        if v >= (3, 4) and not self.nref:
            self.out.append(ord("c") | 0x80)
            self.nref += 1
        else:
            self.byte("c")
        self.u32(c.co_argcount)
        if v >= (3, 8):
            self.u32(c.co_posonlyargcount or 0)
        if v >= (3, 0):
            self.u32(c.co_kwonlyargcount or 0)
        self.u32(c.co_nlocals)
        self.u32(c.co_stacksize)
        self.u32(c.co_flags)
        b = c.co_code
        self.bytes_(b if isinstance(b, bytes) else b.encode("latin-1"))
        self.tuple_(c.co_consts, self.obj)
        self.tuple_(c.co_names, self.name)
        self.tuple_(c.co_varnames, self.name)
        self.tuple_(c.co_freevars, self.name)
        self.tuple_(c.co_cellvars, self.name)
        self.text(c.co_filename)
        self.name(c.co_name)
        self.u32(c.co_firstlineno)
        b = c.co_linetable if v >= (3, 10) else c.co_lnotab
        self.bytes_(b if isinstance(b, bytes) else b.encode("latin-1"))


def dumps(code, version, hashed=False, mtime=1700000000, size=1234):
    w = Writer(version)
    out = struct.pack("<H", MAGIC[version]) + b"\r\n"
    if version >= (3, 7):
        out += struct.pack("<I", 1 if hashed else 0)
        if hashed:
            out += b"SIPHASH8"
    if not (version >= (3, 7) and hashed):
        out += struct.pack("<I", mtime)
        if version >= (3, 3):
            out += struct.pack("<I", size)
    w.obj(code)
    return bytes(out + w.out)
