"""All ordered pairs from a lattice of longitudes (both forms of the antimeridian, quarters, odd and nearly equal values) and
latitudes (poles, near-poles, equator, both hemispheres), with several radii and whole turns added to either longitude; default radius and ellipsoid radius on a latitude
lattice for two ellipsoids. Destinations also for every bearing of a 30-degree (thorough 15) rose and distances up to the
half circumference and of several turns; antipodal pairs and trips along meridians to both poles on a finer lattice. Thorough: denser lattice."""
import itertools, math
from mc.core import same, need, Bad
from mc import geo
from coral import coord, proj

LEVEL = "exploration"
RULE = "every ordered pair of lattice places; non-trivial: the places are neither coinciding nor antipodal"
ASSUMPTIONS = ["places are compared as unit vectors within 1e-7 rad; angles within 1e-9 rad (6e-8 near the antipode, where the haversine form is ill-conditioned)"]
LONS = (-180, -179.5, -120, -90, -33.3, -1e-6, 0, 1e-6, 45, 90, 135, 179.5, 180)
LATS = (-90, -89.999, -60, -45, -30, -23.4, -0.5, 0, 1e-6, 0.37, 30, 45, 60, 66.5, 90)


def cases(tier):
    lons, lats = LONS, LATS
    if tier != "quick":
        lons = tuple(sorted(set(LONS + tuple(range(-180, 181, 20)))))
        lats = tuple(sorted(set(LATS + tuple(range(-90, 91, 15)))))
    for p in itertools.product(lons, lats):
        yield ("rose", p, 30 if tier == "quick" else 15)
        yield ("pairs", p, tuple(itertools.product(lons, lats)))
    for lat in sorted(set(tuple(range(-90, 91, 5)) + LATS)):
        yield ("radius", lat)
    step = 1 if tier == "quick" else 0.25
    fine = [-90 + step * i for i in range(int(180 / step) + 1)]
    for lon in (-180, -97.5, -40.56, 0, 13, 77, 180):
        for j in range(0, len(fine), 20):
            yield ("antipodes", lon, tuple(fine[j:j + 20]))
    for lon in (-180, 0, 13.7):
        for j in range(0, len(fine), 20):
            yield ("poles", lon, tuple(l + f for l in fine[j:j + 20] for f in (0, 0.0175, 0.37) if l + f <= 90))


def near(lon, lat, want, what, tol=1e-7):
    need(lat == lat and -90.0000001 <= lat <= 90.0000001, "{}: latitude {}", what, lat)
    d = geo.angle(geo.vec(lon, lat), want)
    need(d <= tol, "{}: ({}, {}) is {} rad away from the right place {}", what, lon, lat, d, geo.lonlat(want))


def mean(va, vb):
    m = tuple(x + y for x, y in zip(va, vb))
    n = geo.norm(m)
    return tuple(x / n for x in m)


def pair(a, b):
    va, vb = geo.vec(*a), geo.vec(*b)
    ang = geo.angle(va, vb)
    tol = 1e-9 if ang < 3.0 else 6e-8
    for R in (1, 6371000.0):
        d = coord.haversine(*a, *b, R)
        need(abs(d - R * ang) <= R * tol, "distance {}-{} on radius {}: {}, expected {}", a, b, R, d, R * ang)
        need(0 <= d <= math.pi * R * (1 + 1e-12), "distance {}-{} on radius {}: {}", a, b, R, d)
        need(abs(d - coord.haversine(*b, *a, R)) <= 1e-12 * R, "distance {}-{} is not symmetric", a, b)
    for R in (0.25, 3.7, 1e-3, 149597870700.0):
        d = coord.haversine(*a, *b, R)
        need(abs(d - R * ang) <= R * tol, "distance {}-{} on radius {}: {}, expected {}", a, b, R, d, R * ang)
    if a == b:
        same(coord.haversine(*a, *b, 7), 0, "distance of %r to itself" % (a,))
    dd = coord.haversine(*a, *b)
    rr = coord.radiusat((a[1] + b[1]) / 2)
    need(abs(dd - rr * ang) <= rr * tol, "default distance {}-{}: {}, expected {}", a, b, dd, rr * ang)
    need(abs(dd - coord.haversine(*b, *a)) <= 1e-12 * rr, "default distance {}-{} is not symmetric", a, b)
    # whole turns of either longitude name the same place
    for s, t in ((360, 0), (0, 360), (-360, 360), (720, 0), (0, -1080)):
        c, e = (a[0] + s, a[1]), (b[0] + t, b[1])
        d = coord.haversine(*c, *e, 1)
        need(abs(d - ang) <= tol + 1e-9, "distance {}-{}: {}, expected {}", c, e, d, ang)
        if 1e-5 < ang < math.pi - 1e-5:
            w = coord.bearing(*c, *e)
            need(abs(geo.wrap(w + geo.azimuth(*a, *b))) * math.sin(ang) <= 1e-6, "bearing {}->{}: {}", c, e, w)
            near(*coord.destination(*c, w, ang, 1), vb, "going from %r to %r" % (c, e), 1.5e-7)
        if ang < math.pi - 1e-3:
            near(*coord.midpoint(*c, *e), mean(va, vb), "midpoint of %r and %r" % (c, e))
    br = coord.bearing(*a, *b)
    if 1e-9 < ang < math.pi - 1e-6:
        want = -geo.azimuth(*a, *b)
        err = abs(geo.wrap(br - want)) * math.sin(ang)
        need(err <= 1e-6, "bearing {}->{}: {}, expected {}", a, b, br, want)
    for R in (1, 6371000.0):
        lon, lat = coord.destination(*a, br, coord.haversine(*a, *b, R), R)
        near(lon, lat, vb, "going from %r to %r with radius %r" % (a, b, R), 1.5e-7)
        need(-180.0000001 <= lon <= 180.0000001, "destination longitude {} from {} to {}", lon, a, b)
    lon, lat = coord.destination(*a, br, ang * coord.radiusat(a[1]))
    near(lon, lat, vb, "going from %r to %r without a radius" % (a, b), 1.5e-7)
    if ang < math.pi - 1e-3:
        near(*coord.midpoint(*a, *b), mean(va, vb), "midpoint of %r and %r" % (a, b))
    return round(ang, 6) if 1e-9 < ang < math.pi - 1e-6 else None


def check(case):
    if case[0] == "pairs":
        return tuple(pair(tuple(case[1]), tuple(b)) for b in case[2])
    if case[0] == "rose":
        lon, lat = case[1]
        v = geo.vec(lon, lat)
        rlon, rlat = math.radians(lon), math.radians(lat)
        north = (-math.sin(rlat) * math.cos(rlon), -math.sin(rlat) * math.sin(rlon), math.cos(rlat))
        west = (math.sin(rlon), -math.cos(rlon), 0.0)
        for b in range(-360, 361, case[2]):
            t = math.radians(b)
            d = tuple(north[i] * math.cos(t) + west[i] * math.sin(t) for i in range(3))
            for R in (2, 6371000.0, 0.25):
                for frac in (0, 1e-5, 0.1, 0.5, 0.77, 1, 1.5, 2, 2.25, 3.9, 7.3, 100.6):
                    s = frac * math.pi
                    want = tuple(v[i] * math.cos(s) + d[i] * math.sin(s) for i in range(3))
                    near(*coord.destination(lon, lat, b, s * R, R), want, "destination from %r, bearing %r, %r rad" % ((lon, lat), b, s))
        return ("rose", case[1])
    if case[0] == "antipodes":
        lon, out = case[1], 0
        for lat in case[2]:
            for f in (0, 0.1, 1 / 3):
                a = (lon, lat + f if lat + f <= 90 else lat)
                b = (lon + 180 if lon <= 0 else lon - 180, -a[1])
                for x, y in ((a, b), (b, a)):
                    d = coord.haversine(*x, *y, 1)
                    need(abs(d - math.pi) <= 6e-8, "distance between the antipodes {} and {}: {}", x, y, d)
                    near(*coord.destination(*x, coord.bearing(*x, *y), math.pi, 1), geo.vec(*y), "going from %r to its antipode" % (x,))
                    out += 1
        return ("antipodes", out)
    if case[0] == "poles":
        lon = case[1]
        for lat in case[2]:
            for pole, b in ((90, 0), (-90, 180), (90, 360), (-90, -180)):
                for R in (1, 6371000.0):
                    near(*coord.destination(lon, lat, b, math.radians(abs(pole - lat)) * R, R), geo.vec(lon, pole), "going from %r to the pole %r" % ((lon, lat), pole))
        return ("poles", lon, case[2][0])
    lat = case[1]
    for ell, e in ((proj.WGS84, geo.WGS84), (proj.GRS80, geo.GRS80), (proj.Ellipsoid(3.0, 2.0, math.sqrt(5) / 3, 1 / 3), None), (None, geo.WGS84)):
        r = coord.radiusat(lat, ell) if ell is not None else coord.radiusat(lat)
        e = e or ell
        # parametric point of the meridian ellipse with this geodetic latitude
        t = math.radians(lat)
        den = math.hypot(e.a * math.cos(t), e.b * math.sin(t))
        want = math.hypot(e.a * e.a * math.cos(t) / den, e.b * e.b * math.sin(t) / den)
        need(abs(r - want) <= 1e-9 * want, "radius at {} on {}: {}, expected {}", lat, e, r, want)
        need(e.b * (1 - 1e-12) <= r <= e.a * (1 + 1e-12), "radius at {}: {}", lat, r)
        if lat == 0:
            need(abs(r - e.a) < 1e-9 * e.a, "equatorial radius {}", r)
        if abs(lat) == 90:
            need(abs(r - e.b) < 1e-9 * e.b, "polar radius {}", r)
    return ("radius", lat)
