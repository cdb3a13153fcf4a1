"""An independent reader and writer of P files, version 0 (mc/pfile.py). Files made by the independent writer are read by the
library: every list of up to 2 (thorough: 3) entities over a catalogue of boxes (the globe, its corners and edges, one step wide) and parts of
extreme and middle indexes, in every size and reading order; every single byte value of size 1 and both ends and every power of two
of the others. Files the library writes are parsed, and their box and every index compared with the exact place of each point.
Counts of entities, parts, points and letters around 127/128 and 16383/16384 in both directions."""
import itertools
from fractions import Fraction
from mc.core import same, need, scratch, fresh
from mc import pfile
from coral import pf

LEVEL = "exploration"
RULE = "list of entities x size, in one direction; non-trivial: at least one point is stored"
ASSUMPTIONS = ["read coordinates are within 1e-9 degrees of the exact place of the stored indexes; stored ones within half a storage step of the point (and rounding errors of 1e-12 degrees)"]
LIMIT = 40
SIZES = (1, 2, 4, 8)
TOP = 65535

BOXES = ((0, TOP, 0, TOP), (0, 1, 0, 1), (TOP - 1, TOP, TOP - 1, TOP), (0, TOP, 32767, 32768), (32767, 32769, 0, TOP), (1, 258, 255, 256), (40000, 50000, 20000, 65280))
# indexes in 1/6 of the span
FORMS = (((0, 0),), ((0, 6), (6, 0)), ((3, 3), (6, 6), (2, 5)), ((0, 0), (6, 0), (6, 6), (0, 0)))
PARTS = ((0,), (1,), (2,), (3,), (1, 0), (0, 2, 3), (0, 0))
NAMES = ("a", "", "a", "x Y~ 3")

WRITE = (
    [[(0, 0), (10, 0), (5, 10)]], [[(-180, -90), (180, 90)]], [[(12.345678901, -45.678)]], [[(-0.001, 0.001), (0.0015, -0.002)], [(0.0005, 0)]],
    [[(179.999, 89.999), (180, 90)]], [[(-180, -90)]], [[(180, 90)]], [[(1, 2), (1, 50)]], [[(1, 2), (70, 2)]],
    [[(100 / 3, 50 / 7), (-100 / 9, 0.1), (33.3, -7)], [(5, 5), (6, 6), (5, 7), (5, 5)]],
)


def cases(tier):
    deep = tier != "quick"
    ents = list(itertools.product(range(len(BOXES)), range(len(PARTS))))
    for size in SIZES:
        yield ("read", size, ())
        for e in ents:
            yield ("read", size, (e,))
        for es in itertools.product(ents, repeat=2):
            if deep or (es[0][0] + es[1][1]) % 2 == size // 2 % 2:
                yield ("read", size, es)
        for n in (0, 1, 2, 3) if deep else (0, 1, 2):
            for w in itertools.product(range(len(WRITE)), repeat=n):
                yield ("write", size, w)
        for b in range(len(BOXES)):
            yield ("index", size, b)
    if deep:
        for size in (2, 8):
            for es in itertools.product([(b, p) for b in (1, 3, 6) for p in (1, 4, 5)], repeat=3):
                yield ("read", size, es)
    for n in (1, 2, 126, 127, 128, 129, 255, 256, 16383, 16384, 16385):
        for kind in ("ents", "parts", "points", "name"):
            yield ("many", kind, n)


def read(size, ents, what):
    path = scratch("r.p")
    with open(path, "wb") as f:
        f.write(pfile.encode(size, ents))
    want = [[[pfile.where(size, box, q) for q in p] for p in parts] for _, box, parts in ents]
    r = pf.Reader(path)
    same(len(r), len(ents), what + ": entities")
    same(list(r.names), [e[0] for e in ents], what + ": names")
    n = len(ents)
    idx = list(range(n)) if n < 300 else [0, 1, 126, 127, 128, n // 2, n - 2, n - 1]
    for order in (idx, idx[::-1]):
        for i in order:
            for got, w in ((r.read(i), want[i]), (r.get(ents[i][0]), want[next(k for k, e in enumerate(ents) if e[0] == ents[i][0])])):
                same([len(p) for p in got], [len(p) for p in w], what + ": points per part of entity %d" % i)
                for gp, wp in zip(got, w):
                    for g, q in zip(gp, wp):
                        same(len(g), 2, what + ": coordinates of a point")
                        need(abs(g[0] - q[0]) <= 1e-9 and abs(g[1] - q[1]) <= 1e-9,
                             "{}: entity {}: the stored point {} is read as {}", what, i, tuple(map(float, q)), g)
    r.close()
    return sum(len(p) for _, _, ps in ents for p in ps)


def write(size, ents, what):
    path = scratch("w.p")
    w = pf.Writer(path, size)
    for name, parts in ents:
        w.write(name, [list(p) for p in parts])
    w.close()
    with open(path, "rb") as f:
        data = f.read()
    gsize, got = pfile.parse(data)
    same(gsize, size, what + ": size")
    same([e[0] for e in got], [e[0] for e in ents], what + ": names")
    m = 256 ** size - 1
    for (name, box, gp), (_, parts) in zip(got, ents):
        want = [pfile.drop(p) for p in parts]
        same([len(p) for p in gp], [len(p) for p in want], what + ": points per part of %r" % name)
        x0, x1, y0, y1 = box
        xs, ys = [p[0] for l in want for p in l], [p[1] for l in want for p in l]
        need(x0 < x1 and y0 < y1, "{}: empty box {}", what, box)
        need(x0 <= min(xs) + 1e-9 and x1 >= max(xs) - 1e-9 and y0 <= min(ys) + 1e-9 and y1 >= max(ys) - 1e-9, "{}: box {}", what, box)
        need(x0 >= min(xs) - 0.012 and x1 <= max(xs) + 0.012 and y0 >= min(ys) - 0.006 and y1 <= max(ys) + 0.006, "{}: wide box {}", what, box)
        for g, q in zip([p for l in gp for p in l], [p for l in want for p in l]):
            need(abs(g[0] - q[0]) <= (x1 - x0) / m * 0.5001 + 1e-12 + 1e-13 * abs(q[0]) and abs(g[1] - q[1]) <= (y1 - y0) / m * 0.5001 + 1e-12 + 1e-13 * abs(q[1]),
                 "{}: {} is stored as {}", what, q, g)
    return sum(len(p) for _, ps in ents for p in ps)


def check(case):
    fresh()
    kind, what = case[0], "case %r" % (case,)
    if kind == "read":
        _, size, es = case
        m = 256 ** size - 1
        ents = [(NAMES[k], BOXES[b], [[(u * m // 6, v * m // 6) for u, v in FORMS[f]] for f in PARTS[p]]) for k, (b, p) in enumerate(es)]
        n = read(size, ents, what)
        return case if n else None
    if kind == "write":
        _, size, ws = case
        write(size, [(NAMES[k], WRITE[w]) for k, w in enumerate(ws)], what)
        return case if ws else None
    if kind == "index":
        _, size, b = case
        m = 256 ** size - 1
        vals = list(range(256)) if size == 1 else sorted({min(2 ** k + e, m) for k in range(8 * size) for e in (-1, 0, 1) if 2 ** k + e >= 0} | {m, m - 1, m // 3, 0x0102030405060708 & m})
        read(size, [("q", BOXES[b], [[(v, m - v), (v, v)] for v in vals])], what)
        return case
    _, kind, n = case
    box = (0, TOP, 0, TOP)
    if kind == "ents":
        ents = [("n%d" % i, box, [[(i % 256, 255 - i % 256)] * (1 + i % 3)]) for i in range(n)]
    elif kind == "parts":
        ents = [("p", box, [[(i % 256, i % 255)] * (1 + i % 2) for i in range(n)]), ("q", box, [[(1, 2)]])]
    elif kind == "points":
        ents = [("p", box, [[(i % 256, i % 255) for i in range(n)], [(7, 9)]]), ("q", box, [[(1, 2)]])]
    else:
        ents = [("x" * n, box, [[(1, 1), (2, 2)]]), ("y" * (n - 1), box, [[(3, 3)]])]
    read(1, ents, what)
    write(2, [(nm, [[(u - 100, v / 4) for u, v in p] for p in ps]) for nm, _, ps in ents], what)
    return case
