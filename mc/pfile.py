"""Independent reader of P files (format v0), used as oracle."""
import math, struct
from fractions import Fraction

U = 65535


class Cut(Exception):
    pass


def parse(data):
    pos = 0

    def take(n):
        nonlocal pos
        if pos + n > len(data):
            raise Cut
        pos += n
        return data[pos - n:pos]

    def vlv():
        v = 0
        while True:
            b = take(1)[0]
            v = v * 128 + (b & 127)
            if b < 128:
                return v
    if take(3) != b"PF\0":
        raise Cut
    size = take(1)[0]
    nrows = vlv()
    ents = []
    for _ in range(vlv()):
        name = b""
        while True:
            b = take(1)
            if b == b"\0":
                break
            name += b
        nparts = vlv()
        x0, x1, y0, y1 = struct.unpack(">4H", take(8))
        ents.append([name.decode("ascii"), (x0 * 360 / U - 180, x1 * 360 / U - 180, y0 * 180 / U - 90, y1 * 180 / U - 90),
                     [vlv() for _ in range(nparts)]])
    if sum(sum(e[2]) for e in ents) != nrows:
        raise ValueError("row count %d" % nrows)
    fmt = ">" + {1: "B", 2: "H", 4: "I", 8: "Q"}[size] * 2
    m = 256 ** size - 1
    out = []
    for name, box, lens in ents:
        x0, x1, y0, y1 = box
        parts = []
        for n in lens:
            part = []
            for _ in range(n):
                u, v = struct.unpack(fmt, take(2 * size))
                part.append((x0 + u / m * (x1 - x0), y0 + v / m * (y1 - y0)))
            parts.append(part)
        out.append((name, box, parts))
    if pos != len(data):
        raise ValueError("%d bytes after the end" % (len(data) - pos))
    return size, out


def drop(part):
    part = [tuple(p) for p in part]
    return part[:-1] if len(part) > 1 and part[0] == part[-1] else part


def fold(lon):
    """Into [-180, 180], exactly but for one rounding."""
    x = Fraction(lon)
    if x > 180:
        return float(x - 360 * math.ceil((x - 180) / 360))
    if x < -180:
        return float(x + 360 * math.ceil((-180 - x) / 360))
    return lon


def vlv(v):
    out = [v & 127]
    while v > 127:
        v >>= 7
        out.insert(0, v & 127 | 128)
    return bytes(out)


def encode(size, ents):
    """A file of entities (name, box in 1/65535 of the globe: x0, x1, y0, y1, parts of index pairs)."""
    fmt = ">" + {1: "B", 2: "H", 4: "I", 8: "Q"}[size] * 2
    b = b"PF\0" + bytes([size]) + vlv(sum(len(p) for _, _, ps in ents for p in ps)) + vlv(len(ents))
    for name, box, parts in ents:
        b += name.encode("ascii") + b"\0" + vlv(len(parts)) + struct.pack(">4H", *box)
        b += b"".join(vlv(len(p)) for p in parts)
    return b + b"".join(struct.pack(fmt, *q) for _, _, ps in ents for p in ps for q in p)


def where(size, box, q):
    """The exact place of an index pair, as fractions."""
    m = 256 ** size - 1
    x0, x1, y0, y1 = (Fraction(v, U) for v in box)
    return (x0 + Fraction(q[0], m) * (x1 - x0)) * 360 - 180, (y0 + Fraction(q[1], m) * (y1 - y0)) * 180 - 90
