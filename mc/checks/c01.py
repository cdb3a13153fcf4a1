"""All point sequences of length 1..4 (thorough: 5) over a 3x3 signed grid with a fractional coordinate,
as list, tuple, iterator and generator; length 6 (7) sequences over a diagonal alphabet, and sequences of up to 100001 points with
the extreme point of each side at every critical position."""
import itertools
from mc.core import same
from coral import bbox

LEVEL = "exploration"
RULE = "every point sequence over the grid, each built four ways; non-trivial: at least two distinct points"

GRID = [(x, y) for x in (-1, 0.5, 2) for y in (-2, 0, 3)]
DIAG = [(0, 0), (1, 1), (-1, -1), (1, -1), (-1, 1), (0, 2)]


def cases(tier):
    for n in range(1, 5 if tier == "quick" else 6):
        yield from itertools.product(GRID, repeat=n)
    for n in (5,) if tier == "quick" else (5, 6, 7):
        yield from itertools.product(DIAG, repeat=n)
    big = 10 ** 12
    yield from itertools.product([(-big, big), (big, -big), (0, 0), (1e-9, -1e-9)], repeat=4)
    # long sequences with the extreme at every critical position
    for n in (8, 16, 17, 31, 32, 33, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1025) + (5000, 32769, 65537, 100001):
        for at in sorted({0, 1, 2, n // 2, n - 3, n - 2, n - 1} | ({i for i in range(n)} if n < 34 else set())):
            for ext in ((-9, 0.5), (9, 0.25), (0.5, -9), (0.75, 9)):
                yield ("long", n, at, ext)
    # lists as points (as a shapefile delivers them)
    yield from itertools.product([[0, 0], [1, 2], [-3, 1]], repeat=3)


def check(case):
    if case[0] == "long":
        _, n, at, ext = case
        pts = [((i * 7 % 5) / 4 - 0.5, (i * 3 % 7) / 4 - 0.5) for i in range(n)]
        pts[at] = ext
    else:
        pts = list(case)
    want = (min(p[0] for p in pts), min(p[1] for p in pts), max(p[0] for p in pts), max(p[1] for p in pts))
    for how, arg in (("list", list(pts)), ("tuple", tuple(pts)), ("iterator", iter(pts)), ("generator", (p for p in pts))):
        b = bbox.BBox(arg)
        same((b.x0, b.y0, b.x1, b.y1), want, "edges of BBox(%s of %r)" % (how, pts[:9]))
    return want if len(set(map(tuple, pts))) > 1 else None
