"""Every projection on a lattice of origins (poles, equator, both antimeridian forms, odd values) or parallel pairs, two radii
or four ellipsoids, times a lattice of places (poles, near-poles, antimeridian, projection centre and its surroundings down to
1e-6 degree, points beyond 90 degrees), and the ellipsoidal Mercator on a fine lattice of latitudes; one case is one projection and one latitude row of places."""
import math
from mc.core import same, need
from mc import geo
from mc.checks import projs

LEVEL = "exploration"
RULE = "configuration x latitude row; non-trivial: at least one place of the row is in the domain"
ASSUMPTIONS = ["places nearer than 1e-5 degree to a singular place of the map are left out"]


def cases(tier):
    lons, lats = projs.points(tier)
    # the inverse iterates: many latitudes, so that it is seen to end
    for e in projs.ELL:
        for i in range(-899, 900, 7 if tier == "quick" else 1):
            yield (("EMercator", (33, 0), e), (0, 77.7), i / 10)
    for cfg in projs.configs(tier):
        for lat in lats:
            yield (cfg, tuple(lons), lat)
        o = projs.origin(cfg) if cfg[0] != "ConicEqualArea" else (0, 0)
        for d in (0, 1e-6, 1e-3, -0.5, 5):
            lat = o[1] + d if abs(o[1] + d) <= 90 else o[1] - d
            yield (cfg, tuple(geo.wrap(o[0] + t) for t in (0, 1e-6, -1e-3, 0.5, -5, 91, 179, 180)) + (o[0],), lat)
        # close to the places that the map sends to infinity, and to its origin
        for k in range(len(projs.specials(cfg))):
            for d in NEAR if tier == "quick" else NEAR + tuple(m * 10.0 ** -e for m in (2, 3.3, 5, 7) for e in range(0, 6)):
                yield (cfg, ("near", k, d), BEARINGS)


NEAR = (2, 0.3, 0.07, 0.04, 0.01, 1e-3, 1e-4, 1e-5)
BEARINGS = (0, 33, 90, 150, 180, 222, 270, 301)


def places(case):
    cfg, lons, lat = case
    if lons[0] == "near":
        o = projs.specials(cfg)[lons[1]]
        return [projs.away(*o, b, lons[2]) for b in lat]
    return [(lon, lat) for lon in lons]


def check(case):
    cfg = case[0]
    p = projs.make(cfg)
    tol = math.radians(2e-4 if cfg[0] == "EckertIV" else 1e-5) * 1.01
    out = []
    for lon, lat in places(case):
        if projs.singular(cfg, lon, lat) < 0.9e-5:
            continue
        x, y = p.geo2rect(lon, lat)
        lon2, lat2 = p.rect2geo(x, y)
        need(-90.001 < lat2 < 90.001, "{}: {} -> {} -> {}", cfg, (lon, lat), (x, y), (lon2, lat2))
        if cfg[0] in ("EckertIV", "ConicEqualArea") and abs(lat) == 90:
            err = math.radians(abs(lat2 - lat))
            if cfg[0] == "EckertIV":
                err = max(err, 0)
        else:
            err = geo.arc(lon, lat, lon2, lat2)
        need(err <= tol, "{}: {} -> {} -> {}: {} degrees off", cfg, (lon, lat), (x, y), (lon2, lat2), math.degrees(err))
        out.append((round(x / projs.radius(cfg), 6), round(y / projs.radius(cfg), 6)))
    return tuple(out) or None
