"""Every list of up to 2 (thorough: 3) entities of a catalogue (several polygons, lines, points, repeated names, names with
blanks, at every position relative to the frame box: inside, outside, around, touching each edge from either side, only one of
two polygons inside) x frame boxes x projections, through a real P file; points and outlines at several scales;
caches of up to 5000 names or a megabyte, names of up to 70000 letters, outlines of up to 70000 points."""
import itertools, math
from mc.core import same, need, scratch, fresh, Bad
from coral import bbox, coord, frame, pf, proj

LEVEL = "exploration"
RULE = "one case is one P file with one frame, or one point/outline with one frame and scale; non-trivial: the file has entities"

SQ = lambda x, y, s: [(x, y), (x + s, y), (x + s, y + s), (x, y + s)]
ENT = (
    ("in", [SQ(2, 2, 3)]),
    ("far", [SQ(100, 40, 5)]),
    ("around", [SQ(-60, -60, 120)]),
    ("second", [SQ(100, 40, 5), SQ(1, 1, 1)]),
    ("in", [SQ(-100, -40, 5)]),             # a name used twice, for a place elsewhere
    ("far", [SQ(5, 5, 2)]),
    (" a b ", [SQ(8, 8, 10)]),
    ("", [SQ(3, -3, 4)]),
    ("line", [[(-20, 5), (40, 5)]]),
    ("point", [[(5, 5)]]),
    ("out\t", [[(60, 60)], [(-60, 5), (-50, 5)]]),
    ("left", [SQ(-10, 0, 4), SQ(-20, 0, 3)]),
    ("below", [SQ(0, -30, 4)]),
    ("cross", [SQ(9, -20, 200 / 7)]),
)
PRJ = {"Mercator": lambda: proj.Mercator((0, 0), 1000.0), "Shifted": lambda: proj.Mercator((90, 0), 1000.0),
       "Eckert": lambda: proj.EckertIV((0, 0), 50.0), "Equidistant": lambda: proj.AzimuthalEquidistant((10, 10), 1000.0),
       "Conic": lambda: proj.ConicEqualArea((20, 60)), "Ellipsoid": lambda: proj.EMercator((0, 0), proj.GRS80)}
# boxes in geographic degrees: corners are projected
BOX = (((0, 0), (10, 10)), ((-30, -30), (30, 30)), ((95, 35), (101, 41)), ((4, -60), (6, 60)))


# all characters a name may begin and end with
ENT += tuple((chr(c) + "n" + chr(c) if c % 2 else "n" + chr(c), [SQ(2, 2, 3)]) for c in range(33, 127))
# control characters other than line breaks
ENT += tuple((chr(c) + "n" + chr(c) + chr(c), [SQ(2, 2, 3)]) for c in range(1, 33) if c not in (10, 13))
NAMED = tuple(range(14, len(ENT)))
# names a line-based cache cannot hold
BROKEN = ("a\nb", "\n", "a\r", "\r\n", "\rb", "\n\n")
ENT, MANY = ENT[:14], ENT


def cases(tier):
    yield ("names", "Mercator", 0, NAMED)
    for name in BROKEN:
        for inside in (True, False):
            for at in (0, 1, 2):
                yield ("broken", "Mercator", name, inside, at)
    yield ("names", "Eckert", 1, tuple(range(14)) * 20)
    yield ("names", "Mercator", 0, (0, 2) * 2100)
    for n in (255, 256, 511, 512, 513, 1025, 4097, 70000):
        yield ("long", n, 3)
    for n, k in ((60, 2000), (3, 5000), (1000, 1100)):
        yield ("long", n, k)
    for n in (300, 5001, 20000, 70000):
        for closed in (True, False):
            yield ("coast", n, closed)
    yield ("names", "Mercator", 0, (1,) * 1025 + (0,) + (1,) * 1025 + (2,))
    for p in PRJ:
        for b in range(len(BOX)):
            for n in (0, 1, 2) if tier == "quick" else (0, 1, 2, 3):
                for c in itertools.product(range(len(ENT)), repeat=n):
                    yield ("names", p, b, c)
            for e in range(len(ENT)):
                # an edge of the frame exactly at an edge of the entity, from either side
                for side in range(4):
                    for out in (0, 1):
                        yield ("edge", p, e, side, out)
    for p in PRJ:
        for scale in (1, 7, 100, 0.5, 1e5):
            for e in range(len(ENT)):
                for closed in (True, False, None):
                    yield ("draw", p, scale, e, closed)


def half(a0, a1, b0, b1):
    """Half-open overlap; a box without extent is its lower corner."""
    return a0 <= b0 < a1 or b0 <= a0 < b1


def check(case):
    fresh()
    if case[0] == "long":
        _, n, k = case
        prj = PRJ["Mercator"]()
        want = [chr(97 + i % 26) * (n - 1 - i % 2) + str(i % 10) for i in range(k)]
        with open(scratch("x.p"), "wb"):
            pass
        w = pf.Writer(scratch("x.p"), 1)
        for i, name in enumerate(want):
            w.write(name, [SQ(2, 2, 3)] if i % 7 else [SQ(2, 2, 1), SQ(50, 50, 1)])
        w.close()
        r = pf.Reader(scratch("x.p"))
        fr = frame.Frame(prj, bbox.BBox(prj.geo2rect(0, 0), prj.geo2rect(10, 10)))
        same(fr.cachenames(scratch("k"), r), k, "number of cached names")
        need(list(fr.loadnames(scratch("k"))) == want, "the cache of {} names of {} letters is read differently", k, n)
        r.close()
        return case
    if case[0] == "coast":
        _, n, closed = case
        prj = PRJ["Mercator"]()
        ring = [(i % 300 / 2 - 70 + i % 7, i // 300 / 5 - 20 + i % 3) for i in range(n)]
        fr = frame.Frame(prj, bbox.BBox((0, 0), (1, 1)))
        got = list(fr.planify(7, ring, closed))
        same(got == list(coord.simplify(iter([prj.geo2rect(*q) for q in ring]), 7, closed=closed)), True, "outline of %d points" % n)
        return (n, len(got))
    kind, p = case[:2]
    prj = PRJ[p]()
    if kind == "draw":
        scale, e, closed = case[2:]
        fr = frame.Frame(prj, bbox.BBox((0, 0), (1, 1)))
        out = []
        for ring in ENT[e][1]:
            xys = [prj.geo2rect(*q) for q in ring]
            for q, xy in zip(ring, xys):
                got = tuple(fr.point(scale, q))
                want = tuple(math.floor(v / scale) for v in xy)
                # the quotient may round up to the next integer
                ok = all(g == w or (g == w - 1 and abs(v / scale - w) < 1e-9) for g, w, v in zip(got, want, xy))
                need(ok and len(got) == 2, "point {} at scale {}: got {}, expected {}", q, scale, got, want)
            kw = {} if closed is None else {"closed": closed}
            got = list(fr.planify(scale, ring, **kw))
            want = list(coord.simplify(iter(xys), scale, closed=closed is not False))
            same(got, want, "outline at scale %r, closed=%r" % (scale, closed))
            out.append(tuple(got))
        return tuple(out)
    if kind == "broken":
        name, inside, at = case[2:]
        names = ["x", "y"]
        names.insert(at, name)
        w = pf.Writer(scratch("x.p"), 4)
        for n in names:
            w.write(n, [SQ(2, 2, 3) if inside or n != name else SQ(100, 40, 5)])
        w.close()
        r = pf.Reader(scratch("x.p"))
        fr = frame.Frame(prj, bbox.BBox(prj.geo2rect(0, 0), prj.geo2rect(10, 10)))
        with open(scratch("k.names"), "w") as f:
            f.write("old\n")
        want = [n for n in names if inside or n != name]
        try:
            n = fr.cachenames(scratch("k"), r)
        except ValueError:
            need(inside, "refused although {!r} is not in the frame", name)
            want = ["old"]
        else:
            same(n, len(want), "number of cached names")
        same(list(fr.loadnames(scratch("k"))), want, "names in the cache")
        r.close()
        return (name, inside, at)
    if kind == "edge":
        ents = (case[2],)
    else:
        ents = case[3]
    w = pf.Writer(scratch("x.p"), 4)
    for i in ents:
        w.write(MANY[i][0], [list(q) for q in MANY[i][1]])
    w.close()
    r = pf.Reader(scratch("x.p"))
    boxes = []
    for i in range(len(ents)):
        l = []
        for part in r.read(i):
            xy = [prj.geo2rect(*q) for q in part]
            l.append((min(q[0] for q in xy), min(q[1] for q in xy), max(q[0] for q in xy), max(q[1] for q in xy)))
        boxes.append(l)
    if kind == "edge":
        side, out = case[3:]
        x0, y0, x1, y1 = boxes[0][0]
        d = 10.0
        fx0, fy0, fx1, fy1 = x0 - d, y0 - d, x1 + d, y1 + d
        if side == 0:
            fx0, fx1 = (x0, fx1) if not out else (fx0, x0)
        elif side == 1:
            fx0, fx1 = (fx0, x1) if not out else (x1, fx1)
        elif side == 2:
            fy0, fy1 = (y0, fy1) if not out else (fy0, y0)
        else:
            fy0, fy1 = (fy0, y1) if not out else (y1, fy1)
    else:
        (a, b), (c, d) = BOX[case[2]]
        fx0, fy0 = prj.geo2rect(a, b)
        fx1, fy1 = prj.geo2rect(c, d)
        fx0, fx1 = sorted((fx0, fx1))
        fy0, fy1 = sorted((fy0, fy1))
    fr = frame.Frame(prj, bbox.BBox((fx0, fy0), (fx1, fy1)))
    want = []
    for i, l in zip(ents, boxes):
        if any(half(fx0, fx1, x0, x1) and half(fy0, fy1, y0, y1) for x0, y0, x1, y1 in l):
            want.append(MANY[i][0])
    for key in ("k", "dir.k"):
        same(fr.cachenames(scratch(key), r), len(want), "number of cached names")
    same(list(fr.loadnames(scratch("k"))), want, "names in the cache")
    # once more over another cache, and by another frame
    far = frame.Frame(prj, bbox.BBox((1e30, 1e30), (2e30, 2e30)))
    same(far.cachenames(scratch("k"), r), 0, "number of names far away")
    same(list(fr.loadnames(scratch("k"))), [], "names far away")
    same(list(fr.loadnames(scratch("dir.k"))), want, "names in the other cache")
    r.close()
    return (tuple(want), len(ents)) if ents else None
