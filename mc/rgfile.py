"""An independent reader and writer of RangeGrid v1 file pairs, from the description of the format."""
import struct
from fractions import Fraction as F
from mc.core import need

SIZES = (1, 2, 4, 8)


def vlv(n):
    out = [n & 127]
    while n >> 7:
        n >>= 7
        out.insert(0, 128 | (n & 127))
    return bytes(out)


def svlv(n):
    return (b"\xff" if n < 0 else b"\0") + vlv(abs(n))


def isize(lo, hi, nl):
    return [s for s in SIZES if hi - lo + 1 + nl <= 256 ** s][0]


def size(f):
    return f[2] if f[0] == "s" else f[4] if f[0] == "r" else isize(f[2], f[3], f[-1])


def descriptor(f):
    """f: ("i", name, lo, hi, nullable), ("r", name, lo, hi, size, nullable), ("s", name, size, nullable)"""
    d = f[1].encode("ascii") + b"\0" + bytes(["irs".index(f[0]), 1 if f[-1] else 0]) + vlv(size(f))
    return d + (svlv(f[2]) + svlv(f[3]) if f[0] != "s" else b"")


def code(f, v):
    n = size(f)
    if f[0] == "s":
        return b"\xff" * n if v is None else v.encode("utf8") + bytes(n - len(v.encode("utf8")))
    if v is None:
        k = 256 ** n - 1
    elif f[0] == "i":
        k = v - f[2]
    else:
        k = round(F(F(v) - f[2]) * (256 ** n - 1 - (1 if f[-1] else 0)) / (f[3] - f[2]))
    return k.to_bytes(n, "big")


def close(f, v, data):
    """Is data a right code of v? (of the two nearest codes when v lies between)"""
    if f[0] != "r" or v is None:
        return data == code(f, v)
    n = size(f)
    top = 256 ** n - 1 - (1 if f[-1] else 0)
    k = int.from_bytes(data, "big")
    exact = F(F(v) - f[2]) * top / (f[3] - f[2])
    slack = F(top * 8, 2 ** 53) * max(1, F(max(abs(f[2]), abs(f[3])), f[3] - f[2]))
    return len(data) == n and k <= top and abs(k - exact) <= F(1, 2) + slack


def files(fields, ents):
    """The two files' contents for entities [(id, [[row, ...], ...])]."""
    rows = [r for _, segs in ents for s in segs for r in s]
    rg = b"RG\x01" + bytes([len(fields)]) + struct.pack("=I", len(rows)) + b"".join(descriptor(f) for f in fields)
    rg += b"".join(code(f, v) for r in rows for f, v in zip(fields, r))
    md = "%d\n" % len(ents) + "".join("%s %d\n%s\n" % (i, len(segs), " ".join(str(len(s)) for s in segs)) for i, segs in ents)
    return rg, md.encode()


class Cut:
    def __init__(self, data):
        self.data, self.pos = data, 0

    def take(self, n):
        need(self.pos + n <= len(self.data), "the file ends early, at byte {} of {}", self.pos, len(self.data))
        self.pos += n
        return self.data[self.pos - n:self.pos]

    def vlv(self):
        n = 0
        while True:
            b = self.take(1)[0]
            n = n << 7 | b & 127
            if b < 128:
                return n

    def svlv(self):
        sign = self.take(1)
        n = self.vlv()
        need(sign == b"\0" or n and sign == b"\xff", "the sign byte of {} is {!r}", n, sign)
        return -n if sign != b"\0" else n


def verify(rg, md, fields, ents, what):
    c = Cut(rg)
    need(c.take(3) == b"RG\x01", "{}: signature {!r}", what, rg[:3])
    n = c.take(1)[0]
    need(n == len(fields), "{}: {} columns in the header", what, n)
    rows = [r for _, segs in ents for s in segs for r in s]
    n, = struct.unpack("=I", c.take(4))
    need(n == len(rows), "{}: {} rows in the header, {} written", what, n, len(rows))
    for f in fields:
        name = b""
        while not name.endswith(b"\0"):
            name += c.take(1)
        need(name[:-1] == f[1].encode("ascii"), "{}: column name {!r}", what, name)
        kind, nl = c.take(1)[0], c.take(1)[0]
        need(kind == "irs".index(f[0]) and nl == int(f[-1]), "{}: column {} has type {}, nullable {}", what, f[1], kind, nl)
        n = c.vlv()
        need(n == size(f), "{}: column {} has size {}", what, f[1], n)
        if f[0] != "s":
            lo, hi = c.svlv(), c.svlv()
            need((lo, hi) == f[2:4], "{}: column {} has range {}..{}", what, f[1], lo, hi)
    for r in rows:
        for f, v in zip(fields, r):
            d = c.take(size(f))
            need(close(f, v, d), "{}: {!r} of column {} is stored as {!r}", what, v, f[1], d)
    need(c.pos == len(rg), "{}: {} bytes after the last row", what, len(rg) - c.pos)
    lines = md.decode().split("\n")
    need(lines[-1] == "", "{}: index without final newline", what)
    need(int(lines[0]) == len(ents) and len(lines) == 2 + 2 * len(ents), "{}: index {!r}", what, md)
    for k, (i, segs) in enumerate(ents):
        need(lines[1 + 2 * k] == "%s %d" % (i, len(segs)), "{}: index line {!r}", what, lines[1 + 2 * k])
        need([int(x) for x in lines[2 + 2 * k].split()] == [len(s) for s in segs], "{}: index line {!r}", what, lines[2 + 2 * k])
