"""Every configuration of the projections that report a scale (both Mercators, transverse, oblique, Albers) on the place
lattice of C09: the reported factor against the stretch of the real map in the east and north direction by 4-point
differences, and against the closed form from unit vectors."""
import math
from mc.core import same, need, Bad
from mc import geo
from mc.checks import projs, c09

LEVEL = "exploration"
RULE = c09.RULE
ASSUMPTIONS = ["places nearer than 1 degree to a singular place, and poles, are left out; relative tolerance 1e-5 for differences, 1e-9 for closed forms"]
NAMES = ("Mercator", "EMercator", "TransMercator", "ObliqMercator", "ConicEqualArea")


def cases(tier):
    for c in c09.cases(tier):
        if c[0][0] in NAMES:
            yield c
        elif c[2] in (0, 30) and c[1][0] != "near":
            yield c             # it has no scale: it must say so


def closed(cfg, lon, lat):
    v = geo.vec(lon, lat)
    lon0, lat0 = projs.origin(cfg)
    if cfg[0] == "Mercator":
        pole = (0, 0, 1)
    elif cfg[0] == "TransMercator":
        pole = geo.vec(lon0 + 90, 0)
    elif cfg[0] == "ObliqMercator":
        pole = geo.vec(lon0 - 90, lat0)
    else:
        return None
    return 1 / geo.norm(geo.cross(v, pole))


def check(case):
    cfg = case[0]
    p = projs.make(cfg)
    out = []
    if cfg[0] not in NAMES:
        for lon, lat in c09.places(case):
            try:
                k = p.scale(lon, lat)
            except NotImplementedError:
                continue
            raise Bad("{}: scale at {} is {!r}, without being defined".format(cfg, (lon, lat), k))
        return ("none", cfg[0])
    for lon, lat in c09.places(case):
        if abs(lat) > 89.92 or projs.singular(cfg, lon, lat) < 1:
            continue
        k = p.scale(lon, lat)
        c = closed(cfg, lon, lat)
        if c is not None:
            need(abs(k - c) <= 1e-9 * c, "{}: scale at {} is {}, expected {}", cfg, (lon, lat), k, c)
        if not projs.tear(cfg, lon, lat):
            e, n = projs.jacobian(p.geo2rect, cfg, lon, lat, 1e-3 if abs(lat) < 89 else 1e-4)
            dirs = [("north", n)] if cfg[0] == "ConicEqualArea" else [("north", n), ("east", e)]
            for d, g in dirs:
                s = math.hypot(*g)
                need(abs(k - s) <= 1e-5 * max(s, k), "{}: scale at {} is {}, the map stretches {} by {}", cfg, (lon, lat), k, d, s)
        out.append(round(k, 8))
    return tuple(out) or None
