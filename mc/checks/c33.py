"""Every projection of the shared catalogue (8 spherical kinds x centres x radii, ellipsoidal Mercator x 4 ellipsoids, conic x
parallels; also centres with all their decimals) with a box of a catalogue (integral, fractional, huge, tiny, empty, negative), saved and loaded twice (also over a
longer file), compared on a lattice of places; every cut of a saved file."""
import math
from mc.core import same, need, scratch, fresh, Bad
from mc.checks import projs
from coral import bbox, frame

LEVEL = "exploration"
RULE = "one case is one projection with one box (or one cut of one saved frame); non-trivial: places were compared"

BOXES = (((0, 0), (10, 10)), ((-1e7, -2.5e6), (1e7 + 0.1, 1 / 3)), ((0.1 + 0.2, -1e-300), (1e300, 5e-324)), ((0, 0), (0, 0)),
         ((-20037508.342789244, -7), (20037508.342789244, 7)), ((1e-12, 2 / 3), (1 / 3, 1e5 + 1e-11)),
         ((-1 / 3, -1e-15), (1e-13, 0.1 + 0.2)), ((-1e21, -123456789.123456789), (-2 / 3, 1e-7)),
         ((5, 7), (-5, -7.5)))
PLACES = ((0, 0), (10, 50), (-70.5, -33.25), (179, 1), (-179, -60), (33, 20), (120, 89), (-120, -89), (90.5, 45), (-3, 0.5))


def cases(tier):
    for i, cfg in enumerate(projs.configs(tier)):
        for j in range(len(BOXES)) if tier != "quick" else (i % len(BOXES), (i + 1) % len(BOXES)):
            yield ("trip", cfg, j)
    # centres, parallels, radii that are no round numbers
    for lon0, lat0 in ((10 / 3, 20 / 7), (1e-7, -1e-7), (-179.123456789012, 89.876543210987), (123.45678901234567, -1 / 3), (2 ** -20, 45 + 2 ** -30)):
        for r in (None, 1.0, 6371.0088, 6378137 / 3, 1e-3, 1e9):
            for name in projs.SPHERE:
                yield ("trip", (name, (lon0, lat0), r), 1)
            yield ("trip", ("ConicEqualArea", (lat0 / 2, lat0 + 0.1), r), 2)
            yield ("trip", ("ConicEqualArea", (-lat0, -lat0 / 3), r), 2)
        for e in projs.ELL:
            yield ("trip", ("EMercator", (lon0, 0), e), 4)
    for cfg in (("Mercator", (10, 20), None), ("EMercator", (-54, 0), "GRS80"), ("ConicEqualArea", (-60, -30), 2.0)):
        for k in range(0, 700, 1):
            yield ("cut", cfg, k)


def check(case):
    fresh()
    kind, cfg, j = case
    prj = projs.make(cfg)
    path = scratch("f.json")
    if kind == "cut":
        frame.Frame(prj, bbox.BBox(*BOXES[1])).save(path)
        with open(path, "rb") as f:
            data = f.read()
        # Everything but the trailing blanks is needed.
        if j >= len(data.rstrip()):
            return None
        with open(path, "wb") as f:
            f.write(data[:j])
        try:
            r = frame.load(path)
        except Exception as e:
            return (type(e).__name__, j)
        raise Bad("a frame file cut after %d bytes was loaded: %r" % (j, r))
    a = frame.Frame(prj, bbox.BBox(*BOXES[j]))
    with open(path, "w") as f:
        f.write("x" * 3000)
    n = 0
    first = None
    for turn in (1, 2):
        a.save(path)
        b = frame.load(path)
        for q in ("x0", "y0", "x1", "y1"):
            same(getattr(b.bounding, q), getattr(bbox.BBox(*BOXES[j]), q), "edge %s of the loaded box" % q)
        same(type(b.projection).__name__, cfg[0], "kind of projection")
        r = projs.radius(cfg)
        for lon, lat in PLACES:
            if projs.singular(cfg, lon, lat) < 0.1 or projs.tear(cfg, lon, lat):
                continue
            p, q = prj.geo2rect(lon, lat), b.projection.geo2rect(lon, lat)
            d = math.hypot(p[0] - q[0], p[1] - q[1]) / r
            need(d < 1e-12 * (1 + math.hypot(*p) / r) ** 2, "{} is at {} before and at {} after loading (turn {})", (lon, lat), p, q, turn)
            n += 1
            u, v = prj.rect2geo(*p), b.projection.rect2geo(*p)
            need(math.isclose(u[1], v[1], abs_tol=1e-5) and
                 abs(math.remainder(u[0] - v[0], 360)) * math.cos(math.radians(u[1])) < 1e-5,
                 "{} is inverted as {} before and as {} after loading", p, u, v)
            if first is None:
                first = (round(q[0] / r, 6), round(q[1] / r, 6))
        a = b
    return (cfg[0], j, n, first)
