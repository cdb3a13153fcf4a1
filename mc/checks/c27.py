"""All pairs of pixels of an 11x11 canvas (thorough: 21x21), and of 1xN and Nx1 canvases, on canvases of all three kinds; all pairs of pixels on and
up to 4 (thorough: 7) pixels beyond four small canvases; all
polygons of 1 to 4 corners over a 4x4 grid (thorough: 5 over 3x3) stroked without anti-aliasing; all pairs of a lattice of pixels
on a 270x230 canvas and on canvases 1000 to 66000 long; polygons of up to 500 corners;
all triangles over a 5x4 lattice that mostly lies off a 5x4 canvas."""
import itertools
from fractions import Fraction as F
from mc.core import same, need
from coral import raster

LEVEL = "exploration"
RULE = "one case is one start pixel with every end pixel, or one polygon family; all are non-trivial"
G = [(x, y) for y in (0, 1, 4, 6) for x in (0, 2, 5, 6)]
G3 = [(x, y) for y in (0, 3, 5) for x in (0, 1, 6)]
OFF = [(x, y) for y in (-12, -1, 1, 9) for x in (-15, -2, 2, 5, 14)]
KINDS = ("BW", "Gray", "Color")
INK = dict(BW=1, Gray=9, Color=(9, 8, 7))


def cases(tier):
    n = 21 if tier == "thorough" else 11
    for w, h in ((n, n), (1, 13), (13, 1), (2, 9), (9, 2), (3, 17), (17, 3)):
        for y in range(h):
            for x in range(w):
                yield "line", w, h, (x, y)
    m = 7 if tier == "thorough" else 4
    for w, h in ((5, 4), (1, 3), (3, 1), (9, 2)):
        for y in range(-m, h + m):
            for x in range(-m, w + m):
                yield "off", w, h, (x, y), m
    for w, h in ((270, 230), (1000, 3), (2, 1000), (33000, 2), (1, 66000)):
        for a in lattice(w, h):
            yield "long", w, h, a
    for n in (5, 16, 100, 500):
        for step in (1, 3, 7):
            yield "many", n, step
    for k in (1, 2, 3):
        for a in G:
            yield "poly", (a,), k
    for a in OFF:
        for b in OFF:
            yield "polyoff", (a, b)
    for a in G:
        for b in G:
            yield "poly4", (a, b), 2
    if tier == "thorough":
        for a in G3:
            for b in G3:
                yield "poly5", (a, b), 3


def lattice(w, h):
    xs = sorted({x for x in (0, 127, 128, 256, w - 1) if 0 <= x < w})
    ys = sorted({y for y in (0, 1, 128, 200, h - 1) if 0 <= y < h})
    return [(x, y) for x in xs for y in ys]


def painted(c, kind):
    bg = type(c)(1, 1)[0, 0]
    out = set()
    for y in range(c.height):
        for x in range(c.width):
            v = c[x, y]
            if v != bg:
                same(v, INK[kind], "colour of pixel %r" % ((x, y),))
                out.add((x, y))
    return out


def is_line(px, a, b):
    """px is a gap-free line from a to b: one pixel per step of the longer axis, within half a pixel, touching."""
    need(a in px and b in px, "end point missing: {} and {} in {}", a, b, sorted(px))
    dx, dy = b[0] - a[0], b[1] - a[1]
    steep = abs(dy) > abs(dx)
    if steep:
        a, b = a[::-1], b[::-1]
        px = {p[::-1] for p in px}
        dx, dy = dy, dx
    lo, hi = min(a[0], b[0]), max(a[0], b[0])
    by = {}
    for x, y in px:
        by.setdefault(x, []).append(y)
    same(sorted(by), list(range(lo, hi + 1)), "columns (rows) covered")
    last = None
    for x in range(lo, hi + 1):
        need(len(by[x]) == 1, "{} pixels in column {}", len(by[x]), x)
        y = by[x][0]
        ideal = a[1] + (F(dy * (x - a[0]), dx) if dx else 0)
        need(abs(y - ideal) <= F(1, 2), "pixel {} is {} off the line", (x, y), abs(y - ideal))
        need(last is None or abs(y - last) <= 1, "gap at column {}", x)
        last = y


def line(w, h, a, b, kind):
    c = getattr(raster, kind + "Canvas")(w, h)
    c.line(a, b, INK[kind])
    return painted(c, kind)


def check(case):
    if case[0] == "line":
        _, w, h, a = case
        for y in range(h):
            for x in range(w):
                try:
                    is_line(line(w, h, a, (x, y), KINDS[(x + y) % 3 if w < 11 else 0]), a, (x, y))
                except Exception as e:
                    e.args = ("line %s-%s on %dx%d: %s" % (a, (x, y), w, h, e),) + e.args[1:]
                    raise
        return case
    if case[0] == "long":
        _, w, h, a = case
        for b in lattice(w, h):
            kind = KINDS[(a[0] + b[1]) % 3]
            c = getattr(raster, kind + "Canvas")(w, h)
            c.line(a, b, INK[kind])
            # only the box of the line is looked at closely; outside, the raw count of painted pixels must agree
            box = [(x, y) for x in range(min(a[0], b[0]), max(a[0], b[0]) + 1) for y in range(max(0, min(a[1], b[1]) - 1), min(h, max(a[1], b[1]) + 2))]
            px = {p for p in box if c[p] == INK[kind]}
            try:
                is_line(px, a, b)
            except Exception as e:
                e.args = ("line %s-%s on %dx%d: %s" % (a, b, w, h, e),) + e.args[1:]
                raise
            if (a[0] + b[0] + b[1]) % 4 == 0:
                same(len(painted(c, kind)), len(px), "pixels painted by the line %r-%r" % (a, b))
        return case
    if case[0] == "off":
        # the line on a canvas that holds all of it, cut out
        _, w, h, a, m = case
        for y in range(-m, h + m):
            for x in range(-m, w + m):
                kind = KINDS[(x - y) % 3]
                px = line(w + 2 * m, h + 2 * m, (a[0] + m, a[1] + m), (x + m, y + m), kind)
                is_line(px, (a[0] + m, a[1] + m), (x + m, y + m))
                want = {(p - m, q - m) for p, q in px}
                same(sorted(line(w, h, a, (x, y), kind)), sorted(p for p in want if 0 <= p[0] < w and 0 <= p[1] < h), "line %r-%r on %dx%d" % (a, (x, y), w, h))
        return case
    if case[0] == "many":
        _, n, step = case
        pts = [((i * step * 5) % 41, (i * i + step) % 37) for i in range(n)]
        c = raster.GrayCanvas(41, 37)
        c.strokepolygon(list(pts), INK["Gray"], aa=False)
        want = set()
        for a, b in set(zip(pts, pts[1:] + pts[:1])):
            want |= line(41, 37, a, b, "Gray")
        same(sorted(painted(c, "Gray")), sorted(want), "stroked polygon of %d corners" % n)
        return case
    if case[0] == "polyoff":
        a, b = case[1]
        for d in OFF:
            pts = [a, b, d]
            kind = KINDS[(d[0] + d[1]) % 3]
            c = getattr(raster, kind + "Canvas")(5, 4)
            c.strokepolygon(list(pts), INK[kind], aa=False)
            want = set()
            for p, q in zip(pts, pts[1:] + pts[:1]):
                want |= line(5, 4, p, q, kind)
            same(sorted(painted(c, kind)), sorted(want), "stroked polygon %r, partly off the canvas" % (pts,))
        return case
    kind, start, k = case
    grid = G3 if kind == "poly5" else G
    for n in range(k + 1) if kind == "poly" and k == 1 else (k if kind != "poly" else k - 1,):
        for rest in itertools.product(grid, repeat=n):
            pts = list(start + rest)
            ck = KINDS[len(pts) % 3]
            c = getattr(raster, ck + "Canvas")(7, 7)
            c.strokepolygon(list(pts), INK[ck], aa=False)
            want = set()
            for a, b in zip(pts, pts[1:] + pts[:1]):
                want |= line(7, 7, a, b, ck)
            same(sorted(painted(c, ck)), sorted(want), "stroked polygon %r" % (pts,))
            if ck == "BW":
                d = raster.BWCanvas(7, 7)
                d.strokepolygon(list(pts), 1)
                same(sorted(painted(d, ck)), sorted(want), "stroked polygon %r, anti-aliasing not given" % (pts,))
    return case
