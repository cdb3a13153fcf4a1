"""Shared lattice of projections and points, and the published definitions by an independent (vector) route."""
import itertools, math
from mc import geo
from coral import proj

R0 = (geo.WGS84.a + geo.WGS84.b) / 2
ELL = {"WGS84": proj.WGS84, "GRS80": proj.GRS80, "flat": proj.Ellipsoid(1.0, 0.8, 0.6, 0.2), "disc": proj.Ellipsoid(2.0, 0.2, 0.99 ** 0.5, 0.9), "none": None}
PUB = dict(ELL, WGS84=geo.WGS84, GRS80=geo.GRS80, none=geo.WGS84)
SPHERE = ("Mercator", "TransMercator", "ObliqMercator", "EckertIV", "Stereographic", "AzimuthalEquidistant", "AzimuthalEqualArea")
AZIM = SPHERE[4:]
POLAR_FREE = ("Mercator", "EMercator", "EckertIV")   # the latitude of the origin plays no part


def configs(tier):
    lons = (-180, -120, 0, 33, 90, 180)
    lats = (-90, -45, 0, 20, 60, 90)
    if tier != "quick":
        lons = (-180, -179.5, -120, -90, -1, 0, 33, 90, 135, 180)
        lats = (-90, -89.5, -60, -45, -30, -1, 0, 10, 20, 45, 60, 75, 90)
    for name in SPHERE:
        for lon0, lat0 in itertools.product(lons, (0, 40) if name in POLAR_FREE else lats):
            for r in (None, 2.0):
                yield (name, (lon0, lat0), r)
        if name not in POLAR_FREE:
            for o in ((33, 89.5), (-57, -89), (0, 89.99), (12.5, -88), (-150, 85)):
                yield (name, o, None)
        for r in (0.75, 6371008.7714, 1 / 3, 1e-3, 1e12):
            yield (name, (33, 20 if name not in POLAR_FREE else 0), r)
        yield (name, None, None)
    for lon0 in lons:
        for e in ELL:
            yield ("EMercator", (lon0, 0), e)
    yield ("EMercator", None, "none")
    par = (-90, -60, -30, -5, 0, 20, 45, 60, 90) if tier == "quick" else tuple(range(-90, 91, 15)) + (-5, 7)
    for a, b in itertools.product(par, repeat=2):
        if a + b:
            for r in (None, 2.0):
                yield ("ConicEqualArea", (a, b), r)
    for a, b in ((30, 30.5), (45, 44), (-44, -45), (10, 10.001), (60, -30.5), (29.5, 45.5), (-2, -22)):
        yield ("ConicEqualArea", (a, b), None)
        yield ("ConicEqualArea", (a, b), 0.75)


def make(cfg):
    name, o, r = cfg
    cls = getattr(proj, name)
    if name == "EMercator":
        r = ELL[r]
    if o is None and r is None:
        return cls()
    if r is None:
        return cls(o)
    return cls(o, r)


def radius(cfg):
    name, o, r = cfg
    if name == "EMercator":
        return PUB[r].a
    return R0 if r is None else r


def points(tier):
    lons = sorted(set(range(-180, 181, 30)) | {-179.9, -57, -0.001, 12.5, 33, 147, 179.9})
    lats = sorted(set(range(-90, 91, 30)) | {-89.9, -45, -20, 0.001, 20, 45, 89.9})
    if tier != "quick":
        lons = sorted(set(lons) | set(range(-180, 181, 10)))
        lats = sorted(set(lats) | set(range(-90, 91, 10)))
    return lons, lats


def axes(lon0, lat0):
    """Up, east, north unit vectors at a place (polar places keep the frame of their longitude)."""
    l, p = math.radians(lon0), math.radians(lat0)
    return ((math.cos(p) * math.cos(l), math.cos(p) * math.sin(l), math.sin(p)), (-math.sin(l), math.cos(l), 0.0),
            (-math.sin(p) * math.cos(l), -math.sin(p) * math.sin(l), math.cos(p)))


def origin(cfg):
    return cfg[1] if cfg[1] is not None else (0, 0)


def singular(cfg, lon, lat):
    """Angle in degrees to the nearest place that the map sends to infinity or tears into a curve (poles of cylindrical maps,
    antipode of azimuthal maps, apex-side pole of a conic, and for conics nothing else)."""
    name = cfg[0]
    lon0, lat0 = origin(cfg)
    d = lambda a, b: math.degrees(geo.arc(lon, lat, a, b))
    if name in ("Mercator", "EMercator"):
        return 90 - abs(lat)
    if name == "EckertIV":
        return 180
    if name == "TransMercator":
        return min(d(lon0 + 90, 0), d(lon0 - 90, 0))
    if name == "ObliqMercator":
        return min(d(lon0 - 90, lat0), d(lon0 + 90, -lat0))
    if name == "ConicEqualArea":
        return 180
    return d(lon0 + 180, -lat0)


def away(lon, lat, bearing, d):
    """The place at d degrees in a direction, from unit vectors."""
    up, east, north = axes(lon, lat)
    b, d = math.radians(bearing), math.radians(d)
    v = [math.cos(d) * u + math.sin(d) * (math.sin(b) * e + math.cos(b) * n) for u, e, n in zip(up, east, north)]
    return math.degrees(math.atan2(v[1], v[0])), math.degrees(math.atan2(v[2], math.hypot(v[0], v[1])))


def specials(cfg):
    """The places that the map sends to infinity or tears, and the origin."""
    name = cfg[0]
    lon0, lat0 = origin(cfg)
    if name in POLAR_FREE:
        return (lon0, 90), (lon0, -90), (lon0, lat0)
    if name == "TransMercator":
        return (lon0 + 90, 0), (lon0 - 90, 0), (lon0, lat0)
    if name == "ObliqMercator":
        return (lon0 - 90, lat0), (lon0 + 90, -lat0), (lon0, lat0)
    if name == "ConicEqualArea":
        return (0, 90), (0, -90), (0, 0)
    return (lon0 + 180, -lat0), (lon0, lat0)


def tear(cfg, lon, lat):
    """True when the place lies (nearly) on the cut of the map, where both edges are right."""
    name = cfg[0]
    lon0, lat0 = origin(cfg)
    v = geo.vec(lon, lat)
    if name in ("Mercator", "EMercator", "EckertIV"):
        return abs(abs(geo.wrap(lon - lon0)) - 180) < 0.02
    if name == "TransMercator":
        up, east, north = axes(lon0, 0)
        y = math.degrees(math.atan2(geo.dot(v, north), geo.dot(v, up))) - lat0
        return abs(abs(geo.wrap(y)) - 180) < 0.02
    if name == "ObliqMercator":
        e1 = geo.vec(lon0, 0)
        e2 = geo.vec(lon0 + 90, 90 - lat0)
        return abs(abs(math.degrees(math.atan2(geo.dot(v, e2), geo.dot(v, e1)))) - 180) < 0.02
    if name == "ConicEqualArea":
        return abs(lon) > 179.95
    return False


def definition(cfg, lon, lat):
    """Published plane coordinates for radius 1 (semi-major axis 1)."""
    name = cfg[0]
    lon0, lat0 = origin(cfg)
    v = geo.vec(lon, lat)
    if name in ("Mercator", "EMercator"):
        s = math.sin(math.radians(lat))
        y = math.asinh(math.tan(math.radians(lat)))
        if name == "EMercator":
            ell = PUB[cfg[2]]
            e = math.sqrt(1 - (ell.b / ell.a) ** 2)
            y -= e * math.atanh(e * s)
        return math.radians(geo.wrap(lon - lon0)), y
    if name == "TransMercator":
        up, east, north = axes(lon0, 0)
        y = math.atan2(geo.dot(v, north), geo.dot(v, up)) - math.radians(lat0)
        return math.atanh(geo.dot(v, east)), math.radians(geo.wrap(math.degrees(y)))
    if name == "ObliqMercator":
        pole = geo.vec(lon0 - 90, lat0)
        e1 = geo.vec(lon0, 0)
        e2 = geo.cross(pole, e1)
        return math.atan2(geo.dot(v, e2), geo.dot(v, e1)), math.atanh(geo.dot(v, pole))
    if name == "EckertIV":
        target = (2 + math.pi / 2) * math.sin(math.radians(lat))
        lo, hi = -math.pi / 2, math.pi / 2
        for _ in range(70):
            t = (lo + hi) / 2
            if t + math.sin(t) * math.cos(t) + 2 * math.sin(t) < target:
                lo = t
            else:
                hi = t
        t = (lo + hi) / 2
        return (2 / math.sqrt(math.pi * (4 + math.pi)) * math.radians(geo.wrap(lon - lon0)) * (1 + math.cos(t)),
                2 * math.sqrt(math.pi / (4 + math.pi)) * math.sin(t))
    if name in AZIM:
        up, east, north = axes(lon0, lat0)
        ex, ny = geo.dot(v, east), geo.dot(v, north)
        h = math.hypot(ex, ny)
        if h == 0:
            return 0.0, 0.0
        c = math.atan2(h, geo.dot(v, up))
        rho = {"Stereographic": 2 * math.tan(c / 2), "AzimuthalEquidistant": c, "AzimuthalEqualArea": 2 * math.sin(c / 2)}[name]
        return rho * ex / h, rho * ny / h
    a, b = math.radians(cfg[1][0]), math.radians(cfg[1][1])
    n = (math.sin(a) + math.sin(b)) / 2
    # true scale on the first parallel and equal area elsewhere
    rho1 = math.cos(a) / n
    rho = lambda s: math.copysign(math.sqrt(max(rho1 * rho1 + 2 * (math.sin(a) - s) / n, 0)), n)
    s = math.sin(math.radians(lat))
    t = n * math.radians(lon)
    return rho(s) * math.sin(t), rho(0) - rho(s) * math.cos(t)


def gap(cfg, p, q, cut):
    """Distance on the plane (units of the radius); on the cut of a cylindrical map, modulo its period."""
    dx, dy = p[0] - q[0], p[1] - q[1]
    if not cut:
        return math.hypot(dx, dy)
    if cfg[0] in ("Mercator", "EMercator", "ObliqMercator"):
        dx = math.radians(geo.wrap(math.degrees(dx)))
    if cfg[0] == "TransMercator":
        dy = math.radians(geo.wrap(math.degrees(dy)))
    return math.hypot(dx, dy)


def jacobian(f, cfg, lon, lat, h=1e-3):
    """East and north derivative of the map per ground radian (sphere of radius 1 / ellipsoid with a = 1), by 4-point
    differences; h in degrees."""
    r = radius(cfg)
    hr = math.radians(h)
    x0, y0 = f(lon, lat)
    period = 2 * math.pi * r

    def rel(p):
        """Relative to the centre, across the cut of a cylindrical map."""
        dx, dy = p[0] - x0, p[1] - y0
        if cfg[0] in ("Mercator", "EMercator", "ObliqMercator"):
            dx -= period * round(dx / period)
        if cfg[0] == "TransMercator":
            dy -= period * round(dy / period)
        return dx, dy

    def d(g):
        a, b, c, e = (rel(g(k * h)) for k in (-2, -1, 1, 2))
        return tuple((a[i] - 8 * b[i] + 8 * c[i] - e[i]) / (12 * hr) / r for i in (0, 1))
    de = d(lambda t: f(lon + t, lat))
    dn = d(lambda t: f(lon, lat + t))
    s, c = math.sin(math.radians(lat)), math.cos(math.radians(lat))
    if cfg[0] == "EMercator":
        ell = PUB[cfg[2]]
        e2 = 1 - (ell.b / ell.a) ** 2
        w = 1 - e2 * s * s
        ge, gn = c / math.sqrt(w), (1 - e2) / w ** 1.5
    else:
        ge, gn = c, 1.0
    return tuple(x / ge for x in de), tuple(x / gn for x in dn)
