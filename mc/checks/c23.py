"""Rings: all closed rings of 3 (thorough: 4) corners over a 3x3 grid with non-zero area, in nine places and sizes (near and far from the
origin, 1e-9 to 1e7), each as the second ring of a polygon, through every polygon type; all sequences of up to 4 (thorough: 5) rings of five
forms starting clockwise; up to 70000 points in a part and 70000 (rings: 3000) parts; all point, multipoint and line shapes of the shapefile catalogue. Shapes come from the reader
(files of an independent encoder) and from the writer."""
import io, itertools
from fractions import Fraction as F
from mc.core import same, need
from mc import esri
from coral import shapefile

LEVEL = "exploration"
RULE = "one case is one shape or one family of rings; non-trivial: at least one point"
GRID = [(x, y) for x in (0, 1, 3) for y in (0, 2, 3)]
PLACES = ((0, 0, 1), (-2, -1.5, 1), (179, -90, 1), (500000, 4500000, 1), (0, 0, 2.0 ** -30), (179, -90, 2.0 ** -17), (5, 50, 2.0 ** -26),
          (500000, 4500000, 1 / 256), (0, 0, 2.0 ** 24))
SQ = [(0, 0), (0, 4), (4, 4), (4, 0)]
FORMS = [SQ, [(1, 1), (3, 1), (3, 3), (1, 3)], [(10, 0), (10, 5), (11, 1), (15, 0)], [(11, 0.25), (11.5, 0.25), (11, 0.5)],
         [(-3, 0), (-3, 1), (-5, 3), (-2, 2)], [(1, 1), (2, 2), (3, 3), (2, 2)]]


def area2(ring):
    return sum(F(a[0]) * F(b[1]) - F(b[0]) * F(a[1]) for a, b in zip(ring, ring[1:] + ring[:1]))


def cases(tier):
    k = 4 if tier == "thorough" else 3
    for t in esri.TYPES:
        if t in esri.POLYGONS or t in (0, 31):
            continue
        for i in range(1, len(esri.catalogue(t))):
            yield "one", t, i
    for t in (3, 13, 23):
        for sizes in itertools.product((1, 2, 3), repeat=3):
            yield "line", t, sizes
    for n in (127, 128, 255, 256, 1000, 32768, 65535, 65536, 65537, 70000):
        for t in (3, 23, 8, 18, 5, 15):
            for many in (1, 2) if n < 300 else (1,):
                yield "large", t, n, many
            if t != 5 or n < 33000:
                yield "parts", t, n if t not in (5, 15) else min(n, 3000)
    for place in PLACES:
        for corners in itertools.permutations(GRID, k - 1):
            yield "ring", place, corners
    for t in esri.POLYGONS:
        for n in range(1, k + 2):
            for ids in itertools.product(range(len(FORMS)), repeat=n):
                for turn in range(4):
                    yield "rings", t, ids, turn


def plain(c):
    """Nested tuples; the innermost coordinates reduced to x and y."""
    if not c:
        return ()
    if isinstance(c[0], (int, float)):
        return tuple(float(v) for v in c[:2])
    return tuple(plain(x) for x in c)


def interfaces(t, parts):
    """The geometry interface of the shape as written and as read back."""
    shape = ("point", parts[0][0]) if t in esri.POINTS else ("poly", tuple(parts))
    b, x = esri.encode(t, [esri.expected(t, shape)])
    yield shapefile.Reader(shp=io.BytesIO(b), shx=io.BytesIO(x)).shape(0).__geo_interface__
    w = shapefile.Writer(t)
    esri.add(w, t, shape)
    yield w.shapes()[0].__geo_interface__


def judge(t, parts):
    closed = [list(p) + ([p[0]] if t in esri.POLYGONS and p[0] != p[-1] else []) for p in parts]
    want = [tuple(plain(p) for p in part) for part in closed]
    if t in esri.POINTS:
        e = ("Point", want[0][0])
    elif t in esri.MULTI:
        e = ("MultiPoint", tuple(p for part in want for p in part))
    elif not parts:
        e = ("Polygon" if t in esri.POLYGONS else "LineString", ())
    elif t in esri.POLYGONS:
        groups = []
        for part, ring in zip(parts, want):
            if area2(list(part)) < 0:
                groups.append((ring,))
            else:
                groups[-1] += (ring,)
        e = ("Polygon", groups[0]) if len(groups) == 1 else ("MultiPolygon", tuple(groups))
    else:
        e = ("LineString", want[0]) if len(want) == 1 else ("MultiLineString", tuple(want))
    for g in interfaces(t, parts):
        same((g["type"], plain(g["coordinates"])), e, "geometry interface of type %d" % t)
    return repr(e)


def check(case):
    kind = case[0]
    if kind == "one":
        _, t, i = case
        s = esri.catalogue(t)[i]
        return judge(t, [[s[1]]] if s[0] == "point" else list(s[1]))
    if kind == "line":
        _, t, sizes = case
        return judge(t, [[(i, j, i + j) for j in range(n)] for i, n in enumerate(sizes)])
    if kind == "large":
        _, t, n, many = case
        if t in esri.POLYGONS:     # zigzag rings, the first of n corners, then n - 1
            return len(judge(t, [[(j, 3 * k + (j % 2 if j else 0) / 4) for j in range(n - k)] + [(n - k, 3 * k - 2), (0, 3 * k - 2)]
                                 for k in range(many + 1)]))
        return len(judge(t, [[(i, j % 1000) for j in range(n - i)] for i in range(many)] + [[(0, 0), (1, 1)]] * (many - 1)
                         + [[(5, j) for j in range(n)]]))
    if kind == "parts":
        _, t, n = case
        if t in esri.POLYGONS:     # an outer ring with n - 1 holes, and as many outer rings
            hole = lambda i: [(4 * i, 0), (4 * i + 1, 0), (4 * i + 1, 1)]
            return len(judge(t, [[(-1, -1), (-1, 2), (4 * n, 2), (4 * n, -1)]] + [hole(i) for i in range(n - 1)])) + \
                len(judge(t, [hole(i)[::-1] for i in range(n)]))
        return len(judge(t, [[(i, j) for j in range(1 + i % 3)] for i in range(n)]))
    if kind == "rings":
        _, t, ids, turn = case
        parts = []
        for i, f in enumerate(ids):
            ring = FORMS[f]
            k = turn % len(ring)
            ring = [(x + 20 * i, y) for x, y in ring[k:] + ring[:k]]
            parts.append(ring)
        if area2(parts[0]) >= 0:
            parts[0] = [(0, 0), (0, 40), (40, 40), (40, 0)]
        return judge(t, parts)
    _, (dx, dy, scale), corners = case
    out = []
    for last in GRID:
        ring = [(x * scale + dx, y * scale + dy) for x, y in corners + (last,)]
        a = area2(ring)
        if last in corners or not a:
            continue
        s = shapefile.signed_area(ring + ring[:1])
        need((s > 0) == (a > 0) and s != 0, "signed area of {} is {}, the enclosed area has sign {}", ring, s, 1 if a > 0 else -1)
        outer = [(x * scale + dx, y * scale + dy) for x, y in ((-9, -9), (-9, 9), (9, 9), (9, -9))]
        out.append(judge(5, [outer, ring]))
    return repr(out) if out else None
