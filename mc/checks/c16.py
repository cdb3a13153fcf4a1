"""For each coordinate size: all single points, all ordered pairs and (for a smaller lattice) all triples of a lattice that holds
the limits of the globe, both sides of the antimeridian and beyond it, values exactly on, just beside and between the codes of
the stored box, tiny and full extents; straight lines along meridians and parallels, entities of several parts mixing points,
lines and areas; longitudes up to 1e300; parts of up to 140000 points. One case writes all entities that start at one lattice point."""
import itertools, math
from mc.core import same, need, scratch, fresh
from mc import geo, pfile
from coral import pf, proj

LEVEL = "exploration"
RULE = "size x starting point, all entities with that start in one file; non-trivial: at least one entity with extent"
ASSUMPTIONS = ["floating-point rounding allowance 1e-11 degree"]
U = 65535
G = [k * 360 / U - 180 for k in (0, 1, 20000, 32768, 65534, 65535)]
H = [k * 180 / U - 90 for k in (0, 1, 30000, 65534, 65535)]
LONS = sorted(set(G) | {-180, -179.9999, -90.5, -1e-9, 0, 1e-9, 1 / 3, 12.345678901, 90, 179.99, 180, 181, -200.25, 540})
LATS = sorted(set(H) | {-90, -89.9999, -45.5, -1e-9, 0, 1 / 3, 47.123456789, 89.99, 90})
SMALL = [(-180, -90), (180, 90), (0, 0), (G[2], H[2]), (G[2] + 1e-7, H[2] - 1e-7), (12.345678901, 47.123456789), (185, 10)]


HUGE = (720, 719.75, 1000000.5, 360 * 10 ** 9, 2.0 ** 40, 2.0 ** 53, 1e17, 1e20, 1e38, 1e300)


def cases(tier):
    for size in (1, 2, 4, 8):
        for p in itertools.product(LONS, LATS):
            yield ("pairs", size, p)
        for p in SMALL:
            yield ("triples", size, p)
        yield ("parts", size)
        yield ("huge", size)
        yield ("long", size)
        if tier != "quick":
            for i in range(0, 65536, 8):
                yield ("codes", size, i)


def entities(case):
    kind, size = case[:2]
    if kind == "pairs":
        p = case[2]
        yield [[p]]
        yield [[p, p]]
        for q in itertools.product(LONS, LATS):
            yield [[p, q]]
            yield [[p], [q]]
    elif kind == "triples":
        p = case[2]
        for q, r in itertools.product(SMALL, repeat=2):
            yield [[p, q, r]]
            yield [[p, q, r, p]]
            yield [[p], [q, r]]
            yield [[p, q], [r], [p, r]]
    elif kind == "huge":
        for x in HUGE:
            for s in (1, -1):
                yield [[(s * x, 5)]]
                yield [[(0, 0), (s * x, 5), (1, 10)]]
    elif kind == "long":
        for n in (129, 16385, 140000):
            yield [[(i % 359 - 179.5 + i / n, i * 7 % 179 - 89.5) for i in range(n)], [(5, 5)], [(1, 1), (2, 2)]]
            yield [[(i % 31 / 7, i * i % 29 / 11)] for i in range(n // 10)]
    elif kind == "codes":
        for i in range(case[2], case[2] + 8):
            x, y = i * 360 / U - 180, i * 180 / U - 90
            for e in (-1e-10, 0, 1e-10):
                a = min(max(x + e, -180), 180)
                b = min(max(y + e, -90), 90)
                yield [[(a, b)]]
                yield [[(a, 0), (a, b)]]
                yield [[(-180, b), (a, b), (a, b / 2)]]
    else:
        line = [(10, y / 4) for y in range(-8, 9)]
        par = [(x / 3, -20.123) for x in range(-20, 21)]
        area = [(0, 0), (3, 0), (3, 2), (0, 2), (0, 0)]
        for ps in itertools.chain.from_iterable(itertools.permutations((line, par, area, [(50, 50)], [(-180, 0), (180, 0)]), n) for n in (1, 2, 3)):
            yield [list(p) for p in ps]


def check(case):
    fresh()
    path = scratch("x.p")
    size = case[1]
    w = pf.Writer(path, size)
    want = []
    for k, polys in enumerate(entities(case)):
        w.write("e%d" % k, polys)
        want.append([pfile.drop([(pfile.fold(x), y) for x, y in p]) for p in polys])
    errs = list(w.close())
    with open(path, "rb") as f:
        fsize, ents = pfile.parse(f.read())
    same((fsize, len(ents)), (size, len(want)), "size and number of entities")
    same(len(errs), sum(len(p) for e in want for p in e), "number of reported displacements")
    r = pf.Reader(path)
    m = 256 ** size - 1
    eps = 1e-11
    k = 0
    wide = 0
    for i, parts in enumerate(want):
        x0, x1, y0, y1 = ents[i][1]
        pts = [p for part in parts for p in part]
        for lo, hi, a, b, unit in ((x0, x1, min(p[0] for p in pts), max(p[0] for p in pts), 360 / U),
                                   (y0, y1, min(p[1] for p in pts), max(p[1] for p in pts), 180 / U)):
            need(lo <= a + eps and b - eps <= hi, "box {} of {} does not contain its points", ents[i][1], parts)
            slack = sorted((a - lo, hi - b))
            need(slack[0] < unit + eps and slack[1] < unit * (2 if a == b else 1) + eps, "box {} of {} exceeds its points", ents[i][1], parts)
            need(lo < hi, "box {} of {}", ents[i][1], parts)
        wide += x1 > x0
        got = r.read(i)
        same([len(p) for p in got], [len(p) for p in parts], "number of points of %r" % (parts,))
        for gp, wp in zip(got, parts):
            for g, p in zip(gp, wp):
                need(abs(g[0] - p[0]) <= (x1 - x0) / m / 2 + eps and abs(g[1] - p[1]) <= (y1 - y0) / m / 2 + eps,
                     "size {}: {} of {} comes back as {} (box {})", size, p, parts, g, ents[i][1])
                t = math.radians((p[1] + g[1]) / 2)
                a, b = geo.WGS84.a, geo.WGS84.b
                den = math.hypot(a * math.cos(t), b * math.sin(t))
                R = math.hypot(a * a * math.cos(t) / den, b * b * math.sin(t) / den)
                d = R * geo.arc(*p, *g)
                need(abs(errs[k] - d) <= 1e-5 + 1e-6 * d, "size {}: displacement of {} -> {} reported as {}, is {}", size, p, g, errs[k], d)
                k += 1
    r.close()
    return (size, len(want), wide) + tuple(case[2:]) if wide else None
