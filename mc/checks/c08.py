"""Regions built from a catalogue of small polygons (triangle, square, concave, sliver, comb, ring with a hole, cap around a
point, several parts; also archipelagos of up to 300 islands and a coast of 6000 points) placed at every centre of a longitude x latitude lattice (both poles, antimeridian, equator) in sizes
from 0.01 to 80 degrees radius; for each, every rotation of each vertex list, both directions, every order of polygons, rings
closed and open, with parts that have no area; started in three boxes around it, and with convergence thresholds from 1e-9 to 0.01 degrees."""
import itertools, math
from mc.core import same, need
from mc import geo
from coral import coord, bbox

LEVEL = "exploration"
RULE = "catalogue x centre x size; each case compares all equivalent ways of writing the region; all are non-trivial"
ASSUMPTIONS = ["the reported place is compared within 4e-12 rad (1.2e-11 rad for regions of more than 40 degrees radius), next to the default convergence threshold of 1e-10 degree"]
LIMIT = 20

SHAPES = {
    "triangle": [[(0, 0), (1, 0), (0, 1)]],
    "square": [[(-1, -1), (1, -1), (1, 1), (-1, 1)]],
    "concave": [[(-1, -1), (1, -1), (1, 1), (0, -0.5), (-1, 1)]],
    "sliver": [[(-1, 0), (1, 0), (1, 0.05)]],
    "cap": [[(math.cos(t * math.pi / 4), math.sin(t * math.pi / 4)) for t in range(8)]],
    "hole": [[(-1, -1), (1, -1), (1, 1), (-1, 1)], [(0, 0), (0, 0.5), (0.75, 0.5), (0.75, 0)]],
    "islands": [[(-1, -1), (0, -1), (-1, 0)], [(0.25, 0.25), (1, 0.25), (1, 1), (0.25, 1)]],
    "ring": [[(-1, -1), (1, -1), (1, 1), (-1, 1)], [(-0.5, -0.5), (-0.5, 0.5), (0.5, 0.5), (0.5, -0.5)]],
    "three": [[(-1, -1), (0, -1), (-1, 0)], [(0.5, 0.5), (1, 0.5), (1, 1)], [(-0.5, 0.5), (-0.25, 1), (-0.75, 1)]],
}


SHAPES.update({"archipelago%d" % n: [[(x + 0.3 * u, y + 0.2 * v * (1 + i % 3)) for u, v in ((0, 0), (1, 0), (1, 1), (0, 1))[: 3 + i % 2]]
                                   for i in range(n) for x, y in ((-1 + 1.4 * (i * 37 % n) / n, -1 + 1.3 * i / n),)] for n in (5, 6, 8, 9, 15, 16, 17, 31, 33, 70, 300)})
SHAPES["coast"] = [[(math.cos(t * math.pi / 3000) * (1 + 0.2 * (t % 2)), math.sin(t * math.pi / 3000)) for t in range(6000)]]
LARGE = [n for n in SHAPES if n[:5] in ("archi", "coast")]


def cases(tier):
    for name in LARGE:
        for size, lon, lat in ((5, 0, 0), (40, 180, 30), (1, -100, 90), (5, 47, -45)):
            yield (name, size, lon, lat)
    lons = (-180, -100, 0, 47, 180) if tier == "quick" else (-180, -179, -135, -100, -45, 0, 13, 47, 90, 179, 180)
    lats = (-90, -45, 0, 30, 89, 90) if tier == "quick" else (-90, -89.9, -60, -45, -10, 0, 30, 52, 75, 89, 90)
    sizes = (0.01, 5, 40) if tier == "quick" else (0.001, 0.01, 1, 5, 20, 40)
    for name in SHAPES:
        if name in LARGE:
            continue
        for size in sizes:
            for lon, lat in itertools.product(lons, lats):
                yield (name, size, lon, lat)
        for size in (60, 70, 80):
            for lon, lat in ((0, 0), (180, 30), (-100, 90), (47, -45)):
                yield (name, size, lon, lat)


def place(shape, size, lon0, lat0):
    """Tangent-plane polar placement on the sphere about the centre (independent of the code)."""
    v0 = geo.vec(lon0, lat0)
    l, p = math.radians(lon0), math.radians(lat0)
    north = (-math.sin(p) * math.cos(l), -math.sin(p) * math.sin(l), math.cos(p))
    east = (-math.sin(l), math.cos(l), 0.0)
    out = []
    for poly in shape:
        pts = []
        for x, y in poly:
            r = math.hypot(x, y)
            a = math.radians(size) * r / math.sqrt(2)
            d = tuple((east[i] * x + north[i] * y) / (r or 1) for i in range(3))
            pts.append(geo.lonlat(tuple(v0[i] * math.cos(a) + d[i] * math.sin(a) for i in range(3))))
        out.append(pts)
    return out


def laea(c, p):
    """Lambert azimuthal equal-area about c, from vectors."""
    vc, v = geo.vec(*c), geo.vec(*p)
    l, f = math.radians(c[0]), math.radians(c[1])
    north = (-math.sin(f) * math.cos(l), -math.sin(f) * math.sin(l), math.cos(f))
    east = (-math.sin(l), math.cos(l), 0.0)
    k = math.sqrt(2 / (1 + geo.dot(vc, v)))
    return k * geo.dot(v, east), k * geo.dot(v, north)


def offset(c, region):
    """Area-weighted centroid of the region drawn about c."""
    sx = sy = sa = 0.0
    for poly in region:
        q = [laea(c, p) for p in poly]
        # relative to the first vertex for accuracy
        ox, oy = q[0]
        a = mx = my = 0.0
        for (x0, y0), (x1, y1) in zip(q, q[1:] + q[:1]):
            x0, y0, x1, y1 = x0 - ox, y0 - oy, x1 - ox, y1 - oy
            f = x0 * y1 - x1 * y0
            a += f / 2
            mx += (x0 + x1) * f / 6
            my += (y0 + y1) * f / 6
        sa += a
        sx += mx + ox * a
        sy += my + oy * a
    return sx / sa, sy / sa


def variants(region):
    yield "rings closed", [p + p[:1] for p in region]
    for i, poly in enumerate(region if len(region) < 5 else region[:1]):
        for s in range(1, len(poly)) if len(poly) < 20 else (1, 7, len(poly) // 2):
            yield "polygon %d rotated by %d" % (i, s), region[:i] + [poly[s:] + poly[:s]] + region[i + 1:]
    yield "reversed", [p[::-1] for p in region]
    yield "reversed and closed", [p[::-1] + p[-1:] for p in region]
    for o in itertools.permutations(range(len(region))) if len(region) < 5 else (tuple(range(len(region)))[k:] + tuple(range(k)) for k in (1, 7, 31) if k < len(region)):
        yield "order %r" % (o,), [region[j] for j in o]
    p, q = region[0][0], region[-1][-1]
    for null in ([p, q], [q, p, q], [p], [p, p, p], [p, q, p, q], []):      # parts without area
        yield "with the part %r" % (null,), region + [null]
        yield "after the part %r" % (null,), [null] + region
    for t in (90, 180, -77.7):
        yield ("turn", t), [[(geo.wrap(lon + t), lat) for lon, lat in p] for p in region]


def check(case):
    name, size, lon0, lat0 = case
    region = place(SHAPES[name], size, lon0, lat0)
    c = coord.geocentroid(region)
    what = "centroid %r of %r" % (c, region)
    if size <= 40:
        need(all(geo.arc(*c, *p) < math.pi / 2 for poly in region for p in poly), "{}: not in the region's hemisphere", what)
    need(geo.arc(*c, lon0, lat0) < math.pi / 2, "{}: not in the hemisphere about {}", what, (lon0, lat0))
    tol = 4e-12 if size <= 40 else 1.2e-11      # the default threshold is 1.75e-12; large regions converge slowly
    off = math.hypot(*offset(c, region))
    need(off <= tol, "{}: the region's centroid on the map centred there is {} off", what, off)
    v = geo.vec(*c)
    for how, r in variants(region):
        d = coord.geocentroid(r)
        want = v
        if how[0] == "turn":
            want = geo.turn(v, (0, 0, 1), math.radians(how[1]))
        e = geo.angle(geo.vec(*d), want)
        need(e <= tol, "{}: {} gives {}, {} rad away", what, how, d, e)
    lons, lats = [[p[k] for poly in region for p in poly] for k in (0, 1)]
    w, e, b, t = min(lons), max(lons), min(lats), max(lats)
    if e - w < 180 and -89.9 < b and t < 89.9:        # the region lies in an ordinary box
        boxes = [(w, b, e, t), (w - 0.5, b - 0.25, e, t), (w, b, e + 1, t + 0.125)]
        for box in boxes:
            d = coord.geocentroid(region, bb=bbox.BBox([box[:2], box[2:]]))
            need(geo.angle(geo.vec(*d), v) <= tol, "{}: started in the box {}, it is {}", what, box, d)
        d = coord.geocentroid(region, bbox.BBox([(w, b), (e, t)]), 1e-7)
        need(geo.angle(geo.vec(*d), v) <= tol + math.radians(1e-7), "{}: with the box and 1e-7, it is {}", what, d)
    for eps in (1e-9, 1e-5, 1e-2):
        d = coord.geocentroid(region, epsilon=eps)
        need(geo.angle(geo.vec(*d), v) <= tol + math.radians(eps), "{}: to {} degrees, it is {}", what, eps, d)
    return (round(off, 12), tuple(round(x, 6) for x in v))
