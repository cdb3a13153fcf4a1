"""The published constants of the two ellipsoids; the configuration and place lattice of C09: plane coordinates against the published definitions computed from unit vectors,
linearity in the radius, the place of the origin, independence of adding 360 degrees, and conformality or equal area of the
real map by 4-point differences."""
import math
from mc.core import same, need
from mc import geo
from mc.checks import projs, c09
from coral import proj

LEVEL = "exploration"
RULE = c09.RULE
ASSUMPTIONS = c09.ASSUMPTIONS + ["plane coordinates are compared within 1e-9 radii (1e-5 for Eckert IV, whose iteration stops at 1e-6); derivatives within 1e-5"]


def cases(tier):
    for name in ("WGS84", "GRS80"):
        yield ("ellipsoid", name)
    yield from c09.cases(tier)


CONFORMAL = ("Mercator", "EMercator", "TransMercator", "ObliqMercator", "Stereographic")
EQUALAREA = ("EckertIV", "AzimuthalEqualArea", "ConicEqualArea")


def check(case):
    if case[0] == "ellipsoid":
        got, want = getattr(proj, case[1]), getattr(geo, case[1])
        for k in "abef":
            need(abs(getattr(got, k) / getattr(want, k) - 1) < 1e-11, "{} of {}: {}, published {}", k, case[1], getattr(got, k), getattr(want, k))
        return case
    cfg, lons = case[:2]
    name = cfg[0]
    p = projs.make(cfg)
    r = projs.radius(cfg)
    out = []
    if name in projs.AZIM or name in ("TransMercator",):
        o = projs.origin(cfg)
        if name == "TransMercator" and abs(o[1]) == 90:
            o = (o[0], o[1])
        x, y = p.geo2rect(*o)
        need(math.hypot(x, y) <= 1e-9 * r, "{}: the origin is drawn at {}", cfg, (x, y))
    if name == "ConicEqualArea":
        x, y = p.geo2rect(0, 0)
        need(math.hypot(x, y) <= 1e-9 * r, "{}: (0, 0) is drawn at {}", cfg, (x, y))
    for lon, lat in c09.places(case):
        sing = projs.singular(cfg, lon, lat)
        if sing < 0.9e-5:
            continue
        x, y = p.geo2rect(lon, lat)
        want = projs.definition(cfg, lon, lat)
        size = max(1.0, math.hypot(*want)) ** 2
        tol = 1e-5 if name == "EckertIV" else 1e-9 * size + 4e-15 / math.radians(sing) ** 2 * math.hypot(*want)
        if name == "ConicEqualArea" and abs(lat) == 90:
            tol = 1e-7      # a square root of a difference that may vanish at the apex
        if name == "EckertIV":
            ref = min((abs(x / r - s * want[0]) for s in ((1, -1) if projs.tear(cfg, lon, lat) else (1,))))
            err = max(ref, abs(y / r - want[1]))
        else:
            err = projs.gap(cfg, (x / r, y / r), want, projs.tear(cfg, lon, lat))
        need(err <= tol, "{}: {} is drawn at {} radii, defined at {}", cfg, (lon, lat), (x / r, y / r), want)
        if name in projs.POLAR_FREE and projs.origin(cfg)[0] == 0 and abs(lon) == 180 and abs(lat) < 90:
            need(x * lon > 0, "{}: {} is drawn at {} radii, on the wrong side", cfg, (lon, lat), (x / r, y / r))
        if not projs.tear(cfg, lon, lat):
            for turn in (360, -360):
                x2, y2 = p.geo2rect(lon + turn, lat)
                err = projs.gap(cfg, (x / r, y / r), (x2 / r, y2 / r), False)
                need(err <= tol, "{}: {} and {} are drawn {} radii apart", cfg, (lon, lat), (lon + turn, lat), err)
        out.append((round(want[0], 6), round(want[1], 6)))
        if abs(lat) > 89 or sing < 1 or projs.tear(cfg, lon, lat) or name == "AzimuthalEquidistant" or name == "EckertIV" and lons[0] == "near":
            continue
        if name in projs.AZIM and geo.arc(lon, lat, *projs.origin(cfg)) < 1e-4:
            continue
        e, n = projs.jacobian(p.geo2rect, cfg, lon, lat)
        det = e[0] * n[1] - e[1] * n[0]
        k = math.hypot(*n)
        if name in CONFORMAL:
            ok = math.hypot(e[0] - n[1], e[1] + n[0]) <= 1e-5 * k
            need(ok and det > 0, "{}: not conformal at {}: east {}, north {}", cfg, (lon, lat), e, n)
        elif name in EQUALAREA:
            need(abs(det - 1) <= 1e-4, "{}: area is scaled by {} at {}", cfg, det, (lon, lat))
    return tuple(out) or None
