"""All pairs of pixels of a 9x9 canvas (thorough: 17x17) and of narrow canvases, and on and up to 3 (6) pixels beyond three small ones, gray and colour, two backgrounds and inks (gray level
plain and as tuple): every pixel of the canvas against the exact weights; all polygons of 1 to 3 corners (thorough: 4) over a
4x4 grid stroked with anti-aliasing, given and by default; all pairs of a lattice of pixels on canvases of 200x150 and up to 2500 long;
end points between pixels: pairs of points in steps of a quarter pixel and just beside pixels' edges and centres, not within one column (row)."""
import itertools, math
from fractions import Fraction as F
from mc.core import same, need
from coral import raster

LEVEL = "exploration"
RULE = "one case is one start pixel with every end pixel, or one polygon family; all are non-trivial"
ASSUMPTIONS = ["a level may differ by one where the exact blend is within 1e-6 of a tie; two or more blends of the same pixel may differ by one each"]
G = [(x, y) for y in (0, 1, 4, 6) for x in (0, 2, 5, 6)]
SETUPS = [("Gray", 255, 0), ("Gray", 10, (200,)), ("Color", (255, 255, 255), (0, 60, 255)), ("Color", (0, 9, 99), (255, 0, 7)),
          ("Gray", 255, (100,))]


def cases(tier):
    n = 17 if tier == "thorough" else 9
    for w, h in ((n, n), (1, 7), (7, 1), (2, 9), (9, 2)):
        for y in range(h):
            for x in range(w):
                yield "line", w, h, (x, y)
    q = [F(i, 4) for i in range(0, 25, 1 if tier == "thorough" else 3)]
    for a in itertools.product(q, repeat=2):
        yield "between", a
    for a in itertools.product((F(497, 1000), F(2501, 1000), F(3998, 1000), F(-3, 1000), F(-503, 1000), F(5)), repeat=2):
        yield "between", a
    m = 6 if tier == "thorough" else 3
    for w, h in ((5, 4), (1, 3), (3, 1)):
        for y in range(-m, h + m):
            for x in range(-m, w + m):
                yield "off", w, h, (x, y), m
    for w, h in ((200, 150), (600, 3), (2, 600), (2500, 3), (2, 2500)):
        for a in lattice(w, h) if max(w, h) < 1000 or tier != "quick" else ((0, 0), (w - 1, h - 1), (0, h - 1)):
            yield "long", w, h, a
    for k in range(0, 4 if tier == "thorough" else 3):
        for a in G:
            yield "poly", (a,), k


def lattice(w, h):
    xs = sorted({x for x in (0, 1, 100, 127, 128, w - 1) if 0 <= x < w})
    ys = sorted({y for y in (0, 1, 2, 77, 128, h - 1) if 0 <= y < h})
    return [(x, y) for x in xs for y in ys]


def weights(a, b):
    """[(pixel, weight)] in drawing order."""
    if a == b:
        return [(a, F(1, 2)), (a, F(1, 2))]
    steep = abs(b[1] - a[1]) > abs(b[0] - a[0])
    if steep:
        a, b = a[::-1], b[::-1]
    if a[0] > b[0]:
        a, b = b, a
    out = []
    a, b = tuple(map(F, a)), tuple(map(F, b))
    first, last = math.floor(a[0] + F(1, 2)), math.floor(b[0] + F(1, 2))
    for x in range(first, last + 1):
        y = a[1] + (b[1] - a[1]) * (x - a[0]) / (b[0] - a[0])
        # of the first and last column, the share that the line covers
        k = x + F(1, 2) - a[0] if x == first else b[0] - (x - F(1, 2)) if x == last else 1
        f = y - (y.numerator // y.denominator)
        i = int(y - f)
        for j, wt in ((i, 1 - f), (i + 1, f)):
            if wt:
                out.append(((j, x) if steep else (x, j), wt * k))
    return out


class Model:
    """Exact levels with an interval for ties."""

    def __init__(self, w, h, bg):
        self.v = {(x, y): [(c, c) for c in bg] for x in range(w) for y in range(h)}

    def blend(self, p, ink, a):
        if p not in self.v:
            return
        self.v[p] = [(self.near(lo * (1 - a) + i * a, -1), self.near(hi * (1 - a) + i * a, 1))
                     for (lo, hi), i in zip(self.v[p], ink)]

    @staticmethod
    def near(v, side):
        return int(v + F(1, 2) + side * F(1, 10 ** 6))

    def compare(self, c, what):
        for p, ranges in self.v.items():
            g = c[p]
            for x, (lo, hi) in zip(g if isinstance(g, tuple) else (g,), ranges):
                need(lo <= x <= hi, "{}: pixel {} is {}, expected {}", what, p, g, ranges)


def tup(x):
    return x if isinstance(x, tuple) else (x,)


def check(case):
    if case[0] == "line":
        _, w, h, a = case
        for y in range(h):
            for x in range(w):
                for kind, bg, ink in SETUPS[(x + y) % 3::3] if w > 2 and h > 2 else SETUPS:
                    c = getattr(raster, kind + "Canvas")(w, h, bg)
                    c.aaline(a, (x, y), ink)
                    m = Model(w, h, tup(bg))
                    for p, wt in weights(a, (x, y)):
                        m.blend(p, tup(ink), wt)
                    m.compare(c, "%s line %s-%s on %dx%d with %r" % (kind, a, (x, y), w, h, ink))
        return case
    if case[0] == "between":
        # end points between pixels, in different columns (rows)
        a = tuple(map(float, case[1]))
        n = 0
        for b in itertools.product([i / 4 for i in range(0, 25)], repeat=2):
            i = abs(b[1] - a[1]) > abs(b[0] - a[0])
            if math.floor(a[i] + 0.5) == math.floor(b[i] + 0.5):
                continue
            kind, bg, ink = SETUPS[int(abs(4 * (a[0] + b[1] + b[0]))) % len(SETUPS)]
            c = getattr(raster, kind + "Canvas")(7, 8, bg)
            c.aaline(a, b, ink)
            m = Model(7, 8, tup(bg))
            for p, wt in weights(a, b):
                m.blend(p, tup(ink), wt)
            m.compare(c, "%s line %s-%s with %r" % (kind, a, b, ink))
            n += 1
        return a, n
    if case[0] == "off":
        _, w, h, a, k = case
        for y in range(-k, h + k):
            for x in range(-k, w + k):
                for kind, bg, ink in SETUPS[(x - y) % 3::3]:
                    c = getattr(raster, kind + "Canvas")(w, h, bg)
                    c.aaline(a, (x, y), ink)
                    m = Model(w, h, tup(bg))
                    for p, wt in weights(a, (x, y)):
                        m.blend(p, tup(ink), wt)
                    m.compare(c, "%s line %s-%s on %dx%d with %r" % (kind, a, (x, y), w, h, ink))
        return case
    if case[0] == "long":
        _, w, h, a = case
        for b in lattice(w, h):
            kind, bg, ink = SETUPS[(a[0] + b[1] + b[0]) % len(SETUPS)]
            c = getattr(raster, kind + "Canvas")(w, h, bg)
            c.aaline(a, b, ink)
            ws = weights(a, b)
            m = Model(0, 0, tup(bg))
            for p, wt in ws:
                m.v.setdefault(p, [(x, x) for x in tup(bg)])
            for p, wt in ws:
                m.blend(p, tup(ink), wt)
            m.compare(c, "%s line %s-%s on %dx%d with %r" % (kind, a, b, w, h, ink))
            for x in range(max(0, min(a[0], b[0]) - 2), min(w, max(a[0], b[0]) + 3)):
                for y in range(max(0, min(a[1], b[1]) - 2), min(h, max(a[1], b[1]) + 3)):
                    if (x, y) not in m.v:
                        need(c[x, y] == bg, "%s line %s-%s on %dx%d: pixel {} is {}" % (kind, a, b, w, h), (x, y), c[x, y])
        return case
    _, start, k = case
    for rest in itertools.product(G, repeat=k):
        pts = list(start + rest)
        kind, bg, ink = SETUPS[sum(p[0] + p[1] for p in pts) % len(SETUPS)]
        m = Model(7, 7, tup(bg))
        for a, b in zip(pts, pts[1:] + pts[:1]):
            for p, wt in weights(a, b):
                m.blend(p, tup(ink), wt)
        for kw in ({}, dict(aa=True)):
            c = getattr(raster, kind + "Canvas")(7, 7, bg)
            c.strokepolygon(list(pts), ink, **kw)
            m.compare(c, "%s polygon %r" % (kind, pts))
    return case
