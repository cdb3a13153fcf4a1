"""Every sequence of up to 2 figures (thorough: 3) from a catalogue of 25 (polygons, polylines, horizontal, vertical, single points,
circles, rounded polygons, gray and colour images; given as lists and iterators), saved with three margins, without size and
with three sizes, with and without background: the box after every call, the declared box, and the painted figures in device
space from the executed program; after resetting the box too. Figures and pairs again at five
scales and places (metres, degrees, many digits). Sequences of 40 figures walking the catalogue from every start with
every stride, and figures of up to 3000 points whose extreme points stand at every position."""
import itertools, math
from mc.core import same, need, scratch
from mc import ps
from coral import vector, bbox

LEVEL = "exploration"
RULE = "one case is one sequence of figures with all ways of saving; non-trivial: the box is not empty"
INF = float("inf")
FIGS = [
    ("polygon", ((0, 0), (4, 1), (2, 5))), ("polygon", ((-3, 2), (-3, 8))), ("polygon", ((1, 1),)), ("polygon", ((9, 9), (3, 3), (5, 20))),
    ("polyline", ((0, 0), (10, 0))), ("polyline", ((2, -7), (2, 3), (2, 1))), ("polyline", ((5, 5),)), ("polyline", ()),
    ("polyline", ((0.5, 0.25), (-1.5, 2), (-1.5, -8))), ("polyline", ((7, 7), (7, 7))), ("polyline", ((-20, 4), (-10, 4), (-30, 4))),
    ("circle", (0, 0), 1), ("circle", (-5.5, 3), 0.5), ("circle", (100, 40), 25), ("circle", (3, 3), 0),
    ("rounded", ((0, 0), (8, 0), (8, 6), (0, 6)), 1), ("rounded", ((-4, -4), (-2, 9), (1, 0)), 0.25),
    ("image", 2, 3, None, 1, False), ("image", 3, 1, (-6, 2), 2, False), ("image", 2, 2, (1, -9), 0.5, True),
    ("text",), ("polygon", ()),
    ("image", 2, 3, (0, 5), 1, False), ("image", 3, 1, (-6, 0), 2, False), ("image", 1, 1, (0, 0), 3, True),
]
# (factor, horizontal and vertical shift): many digits, large and small numbers
PLACES = [(1, 0, 0), (1234567, 0, 7654321), (123.4567, -98765.4321, 0.5), (1e-3, 0.1, -0.2), (1e8 + 1, -1e9, 12345678), (1 / 3, 2 / 3, 100000.25)]


def placed(fig, place):
    m, x, y = place
    if place == PLACES[0]:
        return fig
    k = fig[0]
    if k in ("polygon", "polyline"):
        return k, tuple((a * m + x, b * m + y) for a, b in fig[1])
    if k == "rounded":
        return k, tuple((a * m + x, b * m + y) for a, b in fig[1]), fig[2] * m
    if k == "circle":
        return k, (fig[1][0] * m + x, fig[1][1] * m + y), fig[2] * m
    if k == "image" and fig[3] is not None:
        return k, fig[1], fig[2], (fig[3][0] * m + x, fig[3][1] * m + y), fig[4] * m, fig[5]
    return fig


def cases(tier):
    n = 3 if tier == "thorough" else 2
    for k in range(n + 1):
        for ids in itertools.product(range(len(FIGS)), repeat=k):
            yield ids, False
            if k == 2:
                yield ids, True
    for p in range(1, len(PLACES)):
        for k in (1, 2):
            for ids in itertools.product(range(len(FIGS)), repeat=k):
                yield ids, False, p
    for n in (1000, 25000):
        for kind in range(5):
            yield "crowd", n, kind
    for s in range(len(FIGS)):
        for stride in (1, 3, 5, 7):
            yield tuple((s + i * stride) % len(FIGS) for i in range(40)), False
    for n in (3, 10, 127, 128, 129, 256, 257, 1000, 3000):
        for at in sorted({0, 1, 2, n // 2, n - 2, n - 1} & set(range(n))):
            for side in range(4):
                yield "extreme", n, at, side


def extent(fig):
    k = fig[0]
    if k == "circle":
        (x, y), r = fig[1:]
        return x - r, y - r, x + r, y + r
    if k == "image":
        w, h, pos, s, color = fig[1:]
        x, y = pos or (0, 0)
        return x, y, x + w * s, y + h * s
    if k == "text" or not fig[1]:
        return INF, INF, -INF, -INF
    xs, ys = zip(*fig[1])
    return min(xs), min(ys), max(xs), max(ys)


def draw(c, fig, i):
    k = fig[0]
    if k == "circle":
        c.addcircle(fig[1], fig[2], fill=0, stroke=1)
    elif k == "image":
        w, h, pos, s, color = fig[1:]
        c.addimage(list(range(w * h * (3 if color else 1))), w, position=pos, scale=s, color=color)
    elif k == "text":
        c.addtext((500, 500), "far", 5)
    elif k == "rounded":
        c.addroundedpolygon(list(fig[1]), fig[2], stroke=0)
    else:
        pts = iter(fig[1]) if i % 2 else list(fig[1])
        (c.addpolygon if k == "polygon" else c.addpolyline)(pts, stroke=0)


def union(a, b):
    if b[2] <= b[0] and b[3] <= b[1]:
        return a
    return min(a[0], b[0]), min(a[1], b[1]), max(a[2], b[2]), max(a[3], b[3])


def close(a, b, what, slack=0):
    need(len(a) == len(b) and all(abs(x - y) <= 1e-9 * max(1, abs(y)) + slack for x, y in zip(a, b)), "{}: got {}, expected {}", what, a, b)


def path_box(path):
    pts = []
    for s in path:
        if s[0] in ("m", "l"):
            pts.append(s[1])
        elif s[0] == "arc":
            (x, y), r = s[1:3]
            pts += [(x - r, y - r), (x + r, y + r)]
        elif s[0] == "rnd":
            pts += s[1:3]
    xs, ys = zip(*pts)
    return min(xs), min(ys), max(xs), max(ys)


def extreme(n, at, side):
    """One point sticks out of the others, at one position of a long figure; more points stick out by themselves."""
    pts = [(i % 7, (i * 3) % 5) for i in range(n)]
    pts[at] = [(-9, 2), (3, -9), (19, 2), (3, 19)][side]
    xs, ys = zip(*pts)
    want = min(xs), min(ys), max(xs), max(ys)
    for how in ("polygon", "polyline", "rounded"):
        for arg in (pts, [(y, x) for x, y in pts]):
            c = vector.Canvas()
            w = want if arg is pts else (want[1], want[0], want[3], want[2])
            if how == "rounded":
                c.addroundedpolygon(list(arg), 1, stroke=0)
            else:
                getattr(c, "add" + how)(iter(arg), stroke=0)
            b = c.bbox
            same((b.x0, b.y0, b.x1, b.y1), w, "box of a %s of %d points with %r at %d" % (how, n, pts[at], at))
    c.save(scratch("c.ps"), margin=1)
    box, ev = ps.run_file(scratch("c.ps"))
    close(box, (w[0] - 1, w[1] - 1, w[2] + 1, w[3] + 1), "declared box")
    return n, at, side


def crowd(n, kind):
    """The last of many figures sticks out."""
    c = vector.Canvas()
    for i in range(n - 1):
        c.addcircle((i % 300, i // 300), 1, fill=0)
    last = [("polygon", ((0, 0), (400, 700), (2, -5))), ("polyline", ((0, 0), (400, 700), (2, -5))), ("circle", (-90, 500), 7),
            ("image", 2, 3, (-900, 2), 2, True), ("rounded", ((-4, -4), (-2, 900), (1, 0)), 0.25)][kind]
    b = c.bbox
    box = (-1, -1, min(n - 1, 300), (n - 2) // 300 + 1)
    same((b.x0, b.y0, b.x1, b.y1), box, "box of %d circles" % (n - 1))
    draw(c, last, 0)
    b = c.bbox
    box = union(box, extent(last))
    same((b.x0, b.y0, b.x1, b.y1), box, "box of %d circles and %r" % (n - 1, last))
    c.save(scratch("c.ps"))
    got, ev = ps.run_file(scratch("c.ps"))
    close(got, box, "declared box")
    same(len([e for e in ev if e[0] == "fill"]), n - 1 + (kind == 2), "painted circles")
    return n, kind


def check(case):
    if case[0] == "crowd":
        return crowd(*case[1:])
    if case[0] == "extreme":
        return extreme(*case[1:])
    ids, reset = case[:2]
    figures = [placed(f, PLACES[case[2] if len(case) > 2 else 0]) for f in FIGS]
    path = scratch("c.ps")
    for bg in (None, (0, 0.5, 1)):
        c = vector.Canvas(bg)
        want = (INF, INF, -INF, -INF)
        figs = []
        for i, j in enumerate(ids):
            if reset and i == 1:
                c.resetbbox()
                want = (INF, INF, -INF, -INF)
            draw(c, figures[j], i)
            if FIGS[j][0] != "text" and (FIGS[j][0] in ("circle", "image") or FIGS[j][1]):
                figs.append(figures[j])
            want = union(want, extent(figures[j]))
            b = c.bbox
            same((b.x0, b.y0, b.x1, b.y1), (0, 0, 0, 0) if want[0] > want[2] else want, "box after drawing %r" % (figures[j],))
        empty = want[0] > want[2]
        x0, y0, x1, y1 = (0, 0, 0, 0) if empty else want
        for margin in (0, 2.5, 7):
            for size in (None, 10, 64, 333.5):
                c.save(path, size, margin) if margin else c.save(path, size=size)
                box, events = ps.run_file(path)
                if size is None:
                    m, ox, oy = 1, 0, 0
                    if not empty:
                        close(box, (x0 - margin, y0 - margin, x1 + margin, y1 + margin), "declared box with margin %g" % margin)
                else:
                    m = (size - margin) / (max(x1 - x0, y1 - y0) or 1)
                    ox, oy = size / 2 - (x0 + x1) / 2 * m, size / 2 - (y0 + y1) / 2 * m
                    same(box, (0, 0, size, size), "declared box with size %g" % size)
                if bg is not None:
                    e = events.pop(0)
                    same(e[0], "fill", "background")
                    close(path_box(e[1]), box, "background box")
                if empty:
                    continue
                shown = [e for e in events if e[0] != "show"]
                it = iter(shown)
                for f in figs:
                    e = next(it, None)
                    need(e is not None, "figure {} is missing", f)
                    if f[0] == "circle":
                        e2 = next(it)
                        same((e[0], e2[0]), ("fill", "stroke"), "circle")
                    if e[0] == "image":
                        xs, ys = zip(*e[5])
                        got = min(xs), min(ys), max(xs), max(ys)
                    else:
                        got = path_box(e[1])
                    a, b, d, g = extent(f)
                    if f[0] == "rounded":
                        r = e[1][1][3]
                        close((r,), (f[2] * m,), "radius of rounded corners")
                    close(got, (a * m + ox, b * m + oy, d * m + ox, g * m + oy), "place of %r with size %r margin %g" % (f, size, margin),
                          1e-13 * m * max(abs(v) for v in want))
                need(next(it, None) is None, "more is painted than was drawn")
    return (case, want) if not empty else None
