"""All open paths of up to 4 points (thorough: 5) over a 3x3 grid, all lattice walks of up to 8 (thorough: 9) unit steps,
all walks of up to 6 (7) steps over a two-armed alphabet of short and long steps, with every buffer size 1, 2, 4, 8; all pairs
and triples of fractional coordinates at, next to and between halves for pixel sizes 1, 2, 0.5, 10, 1.5.
Long paths with buffers to 64: combs, spirals, staircases, straight runs, dead-end excursions of every length to 20 (thorough:
40) and some to 300, retraced fully or partly, repeated along the way, plain, mirrored, reversed, far from the origin and
with pixel sizes 0.001 to 1000. Paths of three almost straight steps of up to 1000 pixels, to 2**40 pixels away, and of up to 2**33 pixels."""
import collections, itertools, math
from fractions import Fraction
from mc.core import same, need, Bad
from coral import coord

LEVEL = "exploration"
RULE = "every path of the bounded families, each with all four buffer sizes; non-trivial: at least two distinct snapped points"
KS = (1, 2, 4, 8)
KLONG = (1, 2, 4, 8, 16, 64)
GRID = [(x, y) for x in (-1, 0, 1) for y in (-1, 0, 1)]
UNIT = ((1, 0), (0, 1), (-1, 0), (0, -1))
MIXED = ((1, 0), (-2, 0), (0, 1), (0, -1), (1, 1), (-1, -1))
FRAC = (-1.5, -0.51, -0.5, -0.49, 0, 0.25, 0.5, 0.75, 1.5, 2.49, 2.5)


def cases(tier):
    deep = tier != "quick"
    yield ("grid", ())
    for n in range(1, 6 if deep else 5):
        for p in itertools.product(GRID, repeat=n):
            yield ("grid", p)
    for n in range(1, 10 if deep else 9):
        for w in itertools.product(range(4), repeat=n):
            if w[0] == 0:       # first step fixed: the other three are rotations; the grid family covers the axes
                yield ("unit", w)
    for n in range(1, 8 if deep else 7):
        for w in itertools.product(range(6), repeat=n):
            yield ("mixed", w)
    for m in (1, 2, 0.5, 10, 1.5):
        for a in FRAC:
            for b in FRAC:
                yield ("frac", m, ((a, b), (b, a), (a, -b)))
    # whole and half pixels for many pixel sizes
    for m in list(range(3, 257)) + [1e5, 1 / 4, 3 / 8, 49 / 16, 103 / 8]:
        yield ("frac", m, tuple((k / 2, (7 * k - 3) / 2 if k % 2 else -k / 2) for k in range(-41, 42)))
        if m > 20:
            yield ("frac", m, tuple((k / 2 + 1 / 1024 * (k % 3 - 1), k * 1.5) for k in range(-41, 42)))
    # almost straight, far away (the coordinates are still exact)
    for b in (0, 1 << 20, 1 << 31, 1 << 40):
        for x, y in ((b, b), (-b, b), (b, 0), (7, -b)):
            for (dx, dy), (ex, ey) in itertools.product(((1000, 1000), (1, 0), (3, -1000), (-501, 500)), repeat=2):
                for e in ((0, 0), (1, 0), (0, -1)):
                    yield ("grid", ((x, y), (x + dx, y + dy), (x + dx + ex + e[0], y + dy + ey + e[1]), (x + 2 * dx + ex + e[0], y + 2 * dy + ey + e[1])))
    # almost straight, with very long steps
    for n in (10 ** 4, 10 ** 6 + 1, 3 * 10 ** 7, 1 << 33):
        for (dx, dy), (ex, ey) in itertools.product(((n, 1), (1, n), (n + 1, 1), (-n, 2), (n, n - 1), (-2, 1 - n), (-1, 2 - n)), repeat=2):
            yield ("grid", ((3, 4), (3 + dx, 4 + dy), (3 + dx + ex, 4 + dy + ey), (3 + 2 * dx + ex, 4 + 2 * dy + ey)))
    for kind in sorted(LONG):
        yield ("long", kind, 70000 if kind in ("dots", "straight", "zigzag", "dead end", "half back") else 1001, 1, 0)
    for n in (list(range(1, 41)) if deep else list(range(1, 21)) + [31, 32, 33]) + [63, 64, 65, 100, 300]:
        for kind in sorted(LONG):
            for m in (1,) if n % 4 else (1, 0.001, 0.1, 1000, 1.5, 2.5, 0.7):
                for v in (0, 1, 2, 3) if m == 1 else (0,):
                    yield ("long", kind, n, m, v)


def zigzag(n):
    """n steps alternating between two directions"""
    return [((i + 1) // 2, i // 2) for i in range(n + 1)]


def comb(n):
    """n teeth, slits in between and a slit at the seam"""
    pts = [(0, 0)]
    for i in range(n):
        pts += [(2 * i, 2), (2 * i + 1, 2), (2 * i + 1, 1), (2 * i + 1, 3), (2 * i + 1, 1), (2 * i + 2, 1)]
    return pts + [(2 * n, -1), (0, -1)]


def spiral(n):
    pts, x, y = [(0, 0)], 0, 0
    for i in range(1, n + 1):
        dx, dy = UNIT[i % 4]
        x, y = x + dx * i, y + dy * i
        pts.append((x, y))
    return pts


def excursion(n, back, then):
    """Out along a zigzag of n steps, back along it by `back` steps, then on."""
    z = zigzag(n)
    b = z[::-1][1:back + 1]
    x, y = (z + b)[-1]
    return [(-3, 0)] + z + b + [(x + a, y + b) for a, b in then]


LONG = {
    "straight": lambda n: [(i, 0) for i in range(n + 1)],
    "diagonal": lambda n: [(2 * i, 3 * i) for i in range(n + 1)],
    "there and back": lambda n: [(i, 0) for i in range(n + 1)] + [(i, 0) for i in range(n, -1, -1)],
    "swing": lambda n: [(i * (-1) ** i, 0) for i in range(min(n, 64) + 1)],
    "fading swing": lambda n: [(i * (-1) ** i, 0) for i in range(min(n, 64), -1, -1)],
    "dots": lambda n: [(0, 0)] * n + [(1, 1)] * n + [(0, 0)],
    "zigzag": zigzag,
    "comb": lambda n: comb(min(n, 40)),
    "spiral": lambda n: spiral(min(n, 40)),
    "in and out": lambda n: spiral(min(n, 40)) + spiral(min(n, 40))[::-1],
    "dead end": lambda n: excursion(n, n, [(0, -1), (0, -2), (5, -2)]),
    "dead end, stop": lambda n: excursion(n, n, []),
    "half back": lambda n: excursion(n, n // 2, [(-1, 1), (-5, 7)]),
    "almost back": lambda n: excursion(n, n - 1, [(-1, 1), (3, 1)]),
    "again": lambda n: excursion(n, n, [])[1:] * 3 + [(7, -7)],
    "branches": lambda n: [q for i in range(min(n, 40)) for q in ((3 * i, 0), (3 * i, 5), (3 * i + 1, 5), (3 * i, 5), (3 * i, 0))],
    "tree": lambda n: [q for i in range(min(n, 40)) for q in ((0, i), (i + 1, i), (0, i))] + [(0, i) for i in range(min(n, 40), -1, -1)],
}


def expand(case):
    if case[0] == "long":
        _, kind, n, m, v = case
        pts = LONG[kind](n)
        if v == 1:
            pts = pts[::-1]
        if v == 2:
            pts = [(-y - 100000, x + 7) for x, y in pts]
        if v == 3:
            pts = [(x + 0.4 * (-1) ** i, y - 0.3) for i, (x, y) in enumerate(pts)]
        return ([(x * m, y * m) for x, y in pts] if m != 1 else pts), m
    if case[0] == "frac":
        m = case[1]
        return [(x * m, y * m) for x, y in case[2]], m
    if case[0] == "grid":
        return list(case[1]), 1
    steps = UNIT if case[0] == "unit" else MIXED
    x = y = 0
    pts = [(0, 0)]
    for i in case[1]:
        x += steps[i][0]
        y += steps[i][1]
        pts.append((x, y))
    return pts, 1


def near(x, m):
    q = Fraction(x) / Fraction(m)
    return int(math.copysign(math.floor(abs(q) + Fraction(1, 2)), q)) if q else 0


def chain(pts):
    """Net coverage of a polyline: where it changes along each straight line; opposite traversals cancel."""
    c = {}
    for (x0, y0), (x1, y1) in zip(pts, pts[1:]):
        dx, dy = x1 - x0, y1 - y0
        g = math.gcd(dx, dy)
        if not g:
            continue
        if (dx, dy) < (0, 0):
            g = -g
        dx //= g
        dy //= g
        for x, y, s in ((x0, y0, 1), (x1, y1, -1)):
            k = dx, dy, dx * y - dy * x, dx * x + dy * y
            v = c.get(k, 0) + s
            if v:
                c[k] = v
            else:
                del c[k]
    return c


def line(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) == (c[0] - a[0]) * (b[1] - a[1])


def check(case):
    pts, m = expand(case)
    snapped = [(near(x, m), near(y, m)) for x, y in pts]
    ded = [p for i, p in enumerate(snapped) if i == 0 or p != snapped[i - 1]]
    corners = sum(not line(*ded[i:i + 3]) for i in range(len(ded) - 2))
    want = chain(snapped)
    outs = []
    for k in KS if case[0] != "long" else KLONG:
        out = list(coord.simplify(iter(pts) if k == 2 else pts, m, closed=False, k=k))
        what = "path %r (pixel %r, k=%d) -> %r" % (pts, m, k, out)
        need(len(out) <= max(2, len(snapped)), "{}: more points than given", what)
        if not pts:
            same(out, [], what)
            continue
        need(out and out[0] == snapped[0] and out[-1] == snapped[-1], "{}: ends differ", what)
        need(len(pts) > 1 or len(out) == 1, "{}: single point", what)
        need(set(out) <= set(snapped), "{}: foreign points", what)
        if chain(out) != want:
            raise Bad("%s: different line, snapped path is %r" % (what, snapped))
        if corners <= k:
            for a, b, c in zip(out, out[1:], out[2:]):
                need(b in (out[0], out[-1]) or not line(a, b, c), "{}: {} is not a corner", what, b)
        outs.append(tuple(out))
        if k == 8:
            same(list(coord.simplify(pts, m)), out, "default arguments: %r" % (pts,))
    return tuple(outs) if len(ded) > 1 else None
