"""Independent spherical geometry used as oracle (3-D vectors)."""
import collections, math

Ell = collections.namedtuple("Ell", "a b e f")


def ellipsoid(a, inv):
    f = 1 / inv
    return Ell(a, a - a / inv, math.sqrt(f * (2 - f)), f)


# as published
WGS84, GRS80 = ellipsoid(6378137.0, 298.257223563), ellipsoid(6378137.0, 298.257222101)


def vec(lon, lat):
    lon, lat = math.radians(lon), math.radians(lat)
    c = math.cos(lat)
    if abs(lat) == math.pi / 2:
        c = 0.0
    return (c * math.cos(lon), c * math.sin(lon), math.sin(lat))


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def norm(a):
    return math.sqrt(dot(a, a))


def angle(a, b):
    return math.atan2(norm(cross(a, b)), dot(a, b))


def arc(lon1, lat1, lon2, lat2):
    """Angle between two places in radians."""
    return angle(vec(lon1, lat1), vec(lon2, lat2))


def azimuth(lon1, lat1, lon2, lat2):
    """Clockwise from the local north (defined by lon1 also at the poles), degrees."""
    lon, lat = math.radians(lon1), math.radians(lat1)
    north = (-math.sin(lat) * math.cos(lon), -math.sin(lat) * math.sin(lon), math.cos(lat))
    east = (-math.sin(lon), math.cos(lon), 0.0)
    v = vec(lon2, lat2)
    return math.degrees(math.atan2(dot(v, east), dot(v, north)))


def wrap(d):
    """Degrees into [-180, 180)."""
    return (d + 180.0) % 360.0 - 180.0


def turn(v, axis, ang):
    """Rotates v about the unit axis by ang radians."""
    c, s = math.cos(ang), math.sin(ang)
    k = cross(axis, v)
    d = dot(axis, v) * (1 - c)
    return tuple(v[i] * c + k[i] * s + axis[i] * d for i in range(3))


def lonlat(v):
    return math.degrees(math.atan2(v[1], v[0])), math.degrees(math.atan2(v[2], math.hypot(v[0], v[1])))
