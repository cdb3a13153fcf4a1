"""All lists of up to 2 (thorough: 3) shapes over a catalogue of 12 part lists (one to three parts, closed and open, single points, one
repeated ring, parts far apart, across the whole globe, degenerate) x 6 shape types x 4 coordinate sizes x naming functions (also blanks around names, equal, empty and long names), lists of up to 3 (4) shapes with every set of deleted records, from an
independent shapefile encoder, read back by an independent P file parser; over an older, longer file; larger files (1200 shapes, 300 parts)."""
import itertools, math, os, struct
from mc.core import same, need, scratch, fresh, Bad
from mc import esri, geo, pfile
from coral import pf

LEVEL = "exploration"
RULE = "one case is one shapefile with one coordinate size and naming function; non-trivial: at least one shape"

PARTS = (
    [[(0, 0), (0, 10), (10, 10), (0, 0)]],
    [[(0, 0), (0, 10), (10, 10)]],
    [[(20, 20), (20, 40), (40, 40), (20, 20)], [(25, 30), (26, 30), (26, 31), (25, 30)]],
    [[(-170, -80), (170, 80)], [(0, 0), (1, 1)], [(5, 5), (6, 6), (5, 5)]],
    [[(12.5, -3.25)]],
    [[(1, 1), (2, 2)], [(3, 3)]],
    [[(-180, -90), (-180, 90), (180, 90), (180, -90), (-180, -90)]],
    [[(7, 7), (7, 7)]],
    [[(0.001, 0.002), (0.003, 0.001), (0.0015, 0.0035), (0.001, 0.002)]],
    [[(100, 50), (101, 50), (100, 50), (101, 51), (100, 50)]],
    [[(-10, 5), (30, 5)]],
    [[(3, 3), (4, 4), (3, 3)], [(3, 3), (4, 4), (3, 3)], [(3, 3), (4, 4), (3, 3)]],
)
NAMES = ("first", "code", "both")
FUNC = {"first": lambda r: r[0], "code": lambda r: str(r[1]), "both": lambda r: "%s/%s" % (r[0], r[1]), "blank": lambda r: "  %s " % r[0],
        "same": lambda r: "x", "none": lambda r: "", "control": lambda r: "\t%s\n\x7f" % r[1], "long": lambda r: r[0] * 200}


def cases(tier):
    deep = tier != "quick"
    for t in (3, 5, 13, 15, 23, 25):
        for size in (1, 2, 4, 8, None):
            for n in (0, 1, 2):
                for c in itertools.product(range(len(PARTS)), repeat=n):
                    for name in NAMES if n == 1 or deep else NAMES[:1]:
                        yield ("small", t, size, c, name)
    for t in (3, 5, 13):
        for size in (1, 4, None):
            for n in (1, 2):
                for c in itertools.product((0, 2, 4, 11), repeat=n):
                    for name in ("blank", "same", "none", "control", "long"):
                        yield ("small", t, size, c, name)
            # some of the records are marked as deleted, and their shapes are left out with them
            for n in (1, 2, 3) + ((4,) if deep else ()):
                for mask in range(1, 1 << n):
                    for c in itertools.permutations((0, 2, 4, 11), n):
                        yield ("small", t, size, c, "both", mask)
    if deep:
        for t, size in ((5, 4), (13, 2)):
            for c in itertools.product(range(len(PARTS)), repeat=3):
                yield ("small", t, size, c, "both")
    for n in (40, 129, 150, 300):
        yield ("parts", 5, 4, n)
    for n in (127, 128, 300, 1200):
        yield ("large", 5, 4, n)
        yield ("large", 13, 2, n)


def dbf(records, gone=0):
    head = [("NAME", b"C", 8, 0), ("CODE", b"N", 6, 0)]
    b = struct.pack("<4BIHH20x", 3, 114, 1, 1, len(records), 32 * 3 + 1, 15)
    for n, t, s, d in head:
        b += struct.pack("<11sc4xBB14x", n.encode(), t, s, d)
    b += b"\r"
    for i, (a, c) in enumerate(records):
        b += (b"*" if gone >> i & 1 else b" ") + a.encode().ljust(8) + str(c).encode().rjust(6)
    return b + b"\x1a"


def check(case):
    fresh()
    kind, t, size, c = case[:4]
    name = case[4] if kind == "small" else "both"
    if kind == "small":
        parts = [PARTS[i] for i in c]
    elif kind == "parts":
        # islands, one of them of many points
        parts = [[[(i % 17 + k / 8, i // 17 + k % 2 + j) for k in range(3 + i % 3 + 100 * (i == c - 2))] for i in range(c - j)] for j in range(2)]
    else:
        parts = [[[(i % 90 - 45 + k, j * 3 + k % 2) for k in range(2 + i % 4)] for j in range(1 + i % 3)] for i in range(c)]
        parts[c // 2] = [[(k % 300 - 150, k % 170 - 85) for k in range(c)] for j in range(2)]
    gone = case[5] if len(case) > 5 else 0
    recs = [("n%d" % (i // 2), 10 * i - 10) for i in range(len(parts))]
    model = [esri.expected(3 if t == 5 else {15: 13, 25: 23}.get(t, t), ("line", [[p + (i, 7.5) for p in l] for l in ps]))
             for i, ps in enumerate(parts)]
    for m in model:
        m["type"] = t
    bs, bx = esri.encode(t, model)
    for ext, data in (("shp", bs), ("shx", bx), ("dbf", dbf(recs, gone))):
        with open(scratch("in." + ext), "wb") as f:
            f.write(data)
    out = scratch("out.p")
    if gone:
        recs = [r for i, r in enumerate(recs) if not gone >> i & 1]
        parts = [r for i, r in enumerate(parts) if not gone >> i & 1]
    with open(out, "wb") as f:
        f.write(b"old" * 1000)
    args = () if size is None else (size,)
    asked = []
    errs = pf.sf2pf(scratch("in") + (".shp" if len(parts) % 2 else ""), out, lambda r: (asked.append(list(r)), FUNC[name](r))[1], *args)
    same(asked, [list(r) for r in recs], "records handed to the naming function")
    with open(out, "rb") as f:
        got_size, ents = pfile.parse(f.read())
    same(got_size, size or 4, "coordinate size")
    same([e[0] for e in ents], [FUNC[name](r) for r in recs], "names")
    stored = []
    for (nm, box, gp), ps in zip(ents, parts):
        want = [pfile.drop(p) for p in ps]
        same([len(p) for p in gp], [len(p) for p in want], "points per part of " + nm)
        x0, x1, y0, y1 = box
        xs, ys = [p[0] for l in want for p in l], [p[1] for l in want for p in l]
        need(x0 <= min(xs) + 1e-9 and x1 >= max(xs) - 1e-9 and y0 <= min(ys) + 1e-9 and y1 >= max(ys) - 1e-9, "box of {}", nm)
        # the box is snapped outwards to 1/65535 of the globe, and at least one step wide
        need(x0 >= min(xs) - 0.012 and x1 <= max(xs) + 0.012 and y0 >= min(ys) - 0.006 and y1 <= max(ys) + 0.006, "wide box of {}", nm)
        m = 256 ** got_size - 1
        for g, w in zip(gp, want):
            for p, q in zip(g, w):
                need(abs(p[0] - q[0]) <= (x1 - x0) / m * 0.5001 + 1e-12 and abs(p[1] - q[1]) <= (y1 - y0) / m * 0.5001 + 1e-12,
                     "{}: {} stored as {}", nm, q, p)
                stored.append((p, q))
    same(len(errs), len(stored), "number of displacements")
    for e, (p, q) in zip(errs, stored):
        d = geo.arc(*(p + tuple(q)))
        need(d * 6.35e6 - 1e-2 <= e <= d * 6.385e6 + 1e-2, "displacement of {}: {} m", q, e)
    # the repository's own reader agrees
    r = pf.Reader(out)
    same(len(r), len(parts), "entities read")
    for i, (nm, box, gp) in enumerate(ents):
        mine = r.read(i)
        same([len(l) for l in mine], [len(l) for l in gp], "points per part of entity %d" % i)
        for a, b in zip(mine, gp):
            for p, q in zip(a, b):
                need(abs(p[0] - q[0]) < 1e-9 and abs(p[1] - q[1]) < 1e-9, "entity {}: {} instead of {}", i, p, q)
    r.close()
    return (t, size, tuple(c) if kind == "small" else c, name) if parts else None
