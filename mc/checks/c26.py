"""All polygons of 3 corners and closed ones of 4 (thorough: 5 on a smaller grid) over a 4x4 grid with 0..6 coordinates, in both
directions and all rotations, including concave, degenerate and self-crossing ones; all ordered pairs of rectangles and
triangles from a catalogue (apart, touching, overlapping, nested, holes) scanned together, and triples; on canvases of all
three kinds exactly as large as the polygons and larger. All histories of three steps on one canvas, each step a polygon filled,
scanned without being filled, or filled on another canvas of the same kind. Moved: every catalogue shape and pair displaced by up to 9 columns and rows, so that it lies partly or all off the canvas on
any side, and blown up far beyond it. Large: the catalogue shapes, pairs of them, stars,
combs and grids of squares (to 400 polygons) blown up 16 to 40 times with odd offsets on canvases of up to 330x330."""
import itertools, math
from fractions import Fraction as F
from mc.core import same, need
from coral import raster

LEVEL = "exploration"
RULE = "one case is one family of polygons sharing their first corners or one set of polygons; non-trivial: at least one pixel filled"
ASSUMPTIONS = ["where an edge crosses a row exactly between two columns either rounding is accepted",
               "regions wound in opposite directions that cancel are outside (non-zero winding)"]
C = (0, 2, 3, 6)
GRID = [(x, y) for y in C for x in C]


HIST = (0, 2, 7, 5, 4, 8, 12, 9)


def rect(x0, y0, x1, y1):
    return [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]


SHAPES = [rect(0, 0, 4, 3), rect(4, 0, 8, 3), rect(2, 1, 6, 5), rect(0, 3, 4, 7), rect(1, 1, 3, 2), rect(5, 5, 8, 8),
          rect(0, 0, 8, 8), [(0, 0), (8, 1), (3, 7)], [(2, 2), (7, 8), (0, 5)], [(1, 0), (4, 5), (7, 0), (7, 8), (1, 8)],
          rect(3, 2, 3, 6), rect(2, 4, 7, 4)]
SHAPES += [s[::-1] for s in SHAPES]


def cases(tier):
    for a in GRID:
        for b in GRID:
            if a != b:
                yield "ring", (a, b), 1
                yield "ring", (a, b), 2
    for n in (1, 2):
        for ids in itertools.product(range(len(SHAPES)), repeat=n):
            yield "set", ids
    for ids in itertools.product(range(0, len(SHAPES), 1 if tier == "thorough" else 3), repeat=3):
        yield "set", ids
    steps = [(k, i) for k in ("fill", "drop", "other") for i in HIST[:4 if tier == "quick" else 8]]
    for n in (2, 3):
        for h in itertools.product(steps, repeat=n):
            if h[-1][0] == "fill":
                yield "history", h
    for k in (16, 33, 40):
        for n in (1, 2):
            for ids in itertools.product(range(0, len(SHAPES), 1 if n == 1 else 5), repeat=n):
                yield "large", k, ids
    deltas = range(-9, 10) if tier != "quick" else (-9, -8, -7, -5, -2, -1, 0, 1, 3, 6, 7, 8, 9)
    for i in range(len(SHAPES)):
        for dx, dy in itertools.product(deltas, repeat=2):
            yield "off", (i,), dx, dy
            yield "off", (i, (i + 5) % len(SHAPES)), dx, dy
    for i in range(len(SHAPES)):
        for k in (2, 5, 100):
            yield "over", i, k
    for n in (3, 8, 17, 60, 150):
        for f in ("star", "comb", "squares", "needles", "onion"):
            yield "family", f, n
    if tier == "thorough":
        small = GRID[::2] + GRID[1::3]
        for a, b in itertools.permutations(small, 2):
            yield "ring", (a, b), 3
        for ids in itertools.product(range(0, len(SHAPES), 4), repeat=4):
            yield "set", ids


def fill_model(polys, w, h):
    """{pixel: True/False/None}: None where the rounding of an edge is a tie."""
    out = {}
    for y in range(h):
        marks, ties = [], set()
        for pts in polys:
            for (x0, y0), (x1, y1) in zip(pts, pts[1:] + pts[:1]):
                if min(y0, y1) <= y < max(y0, y1):
                    x = F(x0) + F((y - y0) * (x1 - x0), y1 - y0)
                    r = math.floor(x + F(1, 2))
                    if x + F(1, 2) == r:
                        ties.add(r - 1)
                    marks.append((r, 1 if y0 < y1 else -1))
        for x in range(w):
            out[x, y] = None if x in ties else sum(d for r, d in marks if r <= x) != 0
    return out


def rows_model(polys, w, h):
    """The same as fill_model, for large canvases: {row: ([filled columns], ties)} by sweeping."""
    out = {}
    edges = [[] for _ in range(h)]
    for pts in polys:
        for (x0, y0), (x1, y1) in zip(pts, pts[1:] + pts[:1]):
            for y in range(min(y0, y1), max(y0, y1)):
                num, den = (y - y0) * (x1 - x0), y1 - y0
                r2 = 2 * (x0 * den + num) + den         # 2 * den * (x + 1/2)
                d2 = 2 * den
                r = r2 // d2
                edges[y].append((r, 1 if y0 < y1 else -1, r2 % d2 == 0))
    for y in range(h):
        row, wind = [], 0
        marks = [0] * (w + 1)
        ties = set()
        for r, d, tie in edges[y]:
            marks[min(r, w)] += d
            if tie:
                ties.add(r - 1)
        for x in range(w):
            wind += marks[x]
            row.append(None if x in ties else wind != 0)
        out[y] = row
    return out


def sweep(polys, w, h, kind="BW"):
    c = getattr(raster, kind + "Canvas")(w, h)
    bg = c[0, 0]
    color = dict(BW=1, Gray=7, Color=(1, 2, 3))[kind]
    scans = None
    for p in polys:
        scans = c.scanpolygon([tuple(q) for q in p], scans)
    c.fillpolygons(scans, color)
    n = 0
    for y, row in rows_model(polys, w, h).items():
        for x, v in enumerate(row):
            g = c[x, y]
            need(g in (bg, color), "pixel {} is {}", (x, y), g)
            need(v is None or (g == color) == v, "pixel {} {} filled ({} at {}x{}, {} polygons, first {})", (x, y), "should be" if v else "must not be", kind, w, h, len(polys), polys[0])
            n += g == color
    return n


def family(f, n):
    """Polygons and the canvas size."""
    if f == "star":
        m = max(n, 5) | 1
        ring = [(150 + int(140 * ((i * 7 % m) - m // 2) / m), (i * i * 3) % 280) for i in range(m)]
        return [[p for i, p in enumerate(ring) if p != ring[i - 1]]], 300, 290
    if f == "comb":
        pts = []
        for i in range(n):
            pts += [(2 * i, 0), (2 * i, 50 + i), (2 * i + 1, 50 + i), (2 * i + 1, 0)]
        return [pts[1:-1] + [(2 * n - 1, 210), (0, 210)]], 2 * n + 2, 211
    if f == "squares":
        k = min(n, 20)
        return [rect(7 * i, 5 * j, 7 * i + 4 + (i + j) % 4, 5 * j + 3 + i % 3) for i in range(k) for j in range(k)], 7 * k + 8, 5 * k + 8
    if f == "needles":
        return [[(i, 0), (2 * n - i, 97), (2 * n - i + 1, 97)] for i in range(n)], 2 * n + 3, 98
    return [rect(i, i, 2 * n - i, 2 * n - i)[::1 if i % 2 == 0 else -1] for i in range(n)], 2 * n + 1, 2 * n + 1


def judge(polys, w, h, kind="BW"):
    c = getattr(raster, kind + "Canvas")(w, h)
    bg = c[0, 0]
    color = dict(BW=1, Gray=7, Color=(1, 2, 3))[kind]
    scans = None
    for p in polys:
        arg = [tuple(q) for q in p]
        scans = c.scanpolygon(arg) if scans is None else c.scanpolygon(arg, scans)
        same(arg, [tuple(q) for q in p], "the caller's points")
    c.fillpolygons(scans, color)
    filled = 0
    for k, v in fill_model(polys, w, h).items():
        g = c[k]
        need(g in (bg, color), "pixel {} is {}", k, g)
        if v is not None:
            need((g == color) == v, "pixel {} {} filled ({} at {}x{}, polygons {})", k, "should be" if v else "must not be", kind,
                 w, h, polys)
        filled += g == color
    return filled


def history(steps):
    c, o = raster.GrayCanvas(8, 8), raster.GrayCanvas(8, 8)
    want = {}
    for n, (kind, i) in enumerate(steps):
        scans = (o if kind == "other" else c).scanpolygon(list(SHAPES[i]))
        if kind != "drop":
            (o if kind == "other" else c).fillpolygons(scans, n + 1)
        if kind == "fill":
            for k, v in fill_model([SHAPES[i]], 8, 8).items():
                if v is not False:
                    want[k] = {n + 1} if v else want.get(k, {255}) | {n + 1}
    for x in range(8):
        for y in range(8):
            need(c[x, y] in want.get((x, y), {255}), "pixel {} is {} after {}", (x, y), c[x, y], steps)


def check(case):
    if case[0] == "history":
        history(case[1])
        return case
    if case[0] == "large":
        _, k, ids = case
        polys = [[(x * k + (3 if x else 0), y * k + (5 if y else 0)) for x, y in SHAPES[i]] for i in ids]
        return (k, ids, sweep(polys, 8 * k + 3, 8 * k + 5, ("BW", "Gray", "Color")[sum(ids) % 3]))
    if case[0] == "family":
        polys, w, h = family(*case[1:])
        return case[1:] + (sweep(polys, w, h, ("BW", "Gray", "Color")[case[2] % 3]),)
    if case[0] == "off":
        _, ids, dx, dy = case
        polys = [[(x + dx, y + dy) for x, y in SHAPES[i]] for i in ids]
        n = judge(polys, 8, 8) + judge(polys, 5, 9, "Gray") + judge(polys[::-1], 11, 4, "Color")
        return (n, case[1:]) if n else None
    if case[0] == "over":
        # much larger than the canvas, on all sides
        _, i, k = case
        n = 0
        for dx, dy in itertools.product((0, 3 * k, 8 * k - 5), repeat=2):
            polys = [[(x * k - dx, y * k - dy) for x, y in SHAPES[i]]]
            n += judge(polys, 7, 6, ("BW", "Gray", "Color")[i % 3])
        return case + (n,) if n else None
    if case[0] == "set":
        polys = [SHAPES[i] for i in case[1]]
        n = judge(polys, 8, 8) + judge(polys, 10, 9, ("Gray", "Color")[sum(case[1]) % 2])
        return (n, case[1]) if n else None
    _, start, k = case
    out = []
    grid = GRID if k < 3 else GRID[::2] + GRID[1::3]
    for rest in itertools.product(grid, repeat=k):
        pts = list(start + rest)
        if any(a == b for a, b in zip(pts, pts[1:] + pts[:1])):
            continue
        out.append(judge([pts], 6, 6))
        if k == 1:
            out.append(judge([pts], 7, 8, "Color"))
    return tuple(out) if any(out) else None
