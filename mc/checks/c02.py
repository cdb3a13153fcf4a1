"""All boxes with corners on {-2,-1,0,1,3} (x) by {-2,-1,0,2} (y), all ordered pairs, the standard empty box, all lattice
and half-lattice points, vectors and factors; thorough: grid widened to 6x5 and half-integers. Also pairs with float/int
representations and large and hash-colliding coordinates."""
import itertools, math
from mc.core import same, need, refused
from coral import bbox

LEVEL = "exploration"
RULE = "every ordered pair of boxes on the grid (one case checks all binary operations both ways) and every box x point/vector/factor; non-trivial: at least one box has positive area"


def intervals(vals):
    return [(a, b) for a in vals for b in vals if a <= b]


def boxes(tier):
    xs, ys = ((-2, -1, 0, 1, 3), (-2, -1, 0, 2)) if tier == "quick" else ((-2, -1, 0, 1, 2.5, 3), (-3, -2, -1, 0, 2))
    return [(x0, y0, x1, y1) for x0, x1 in intervals(xs) for y0, y1 in intervals(ys)]


def cases(tier):
    bs = boxes(tier)
    for b in bs:
        yield ("one", b)
    for a in bs:
        yield ("pairs", a, bs[0:len(bs)])
    m = 2 ** 61 - 1     # CPython hashes integers modulo this prime
    special = [(0, 0, 1, 1), (m, m, m + 1, m + 1), (-1, 0, 5, 5), (-2, 0, 5, 5), (0, -1, 5, 5), (0, -2, 5, 5),
               (-1.0, 0.0, 5.0, 5.0), (0.1, 0.2, 0.3, 0.4), (0.1, 0.2, 0.30000000000000004, 0.4), (-180, -90, 180, 90),
               (1e-9, 1e-9, 2e-9, 2e-9), (1e15, 1e15, 1e15 + 1, 1e15 + 1), (m - 1, 0, m, 1), (-5, -5, -2, -1), (-5, -5, -1, -2)]
    for a in special:
        yield ("one", a)
        yield ("pairs", a, special)
    for s in (1e-13, 1e13):      # the same at other scales
        few = [tuple(v * s for v in b) for b in boxes("quick") if b[0] in (-1, 0) and b[1] >= -1]
        for a in few:
            yield ("pairs", a, few)


def mk(e):
    return bbox.BBox((e[0], e[1]), (e[2], e[3]))


def ed(b):
    return (b.x0, b.y0, b.x1, b.y1)


def area(e):
    return (e[2] - e[0]) * (e[3] - e[1])


def null(e):
    return e[0] == e[2] and e[1] == e[3]


def one(e):
    b = mk(e)
    w, h = e[2] - e[0], e[3] - e[1]
    same((b.width(), b.height(), b.area()), (w, h, w * h), "width/height/area of %r" % (e,))
    need(math.isclose(b.hypot(), math.sqrt(w * w + h * h), rel_tol=1e-12), "diagonal of {}: {}", e, b.hypot())
    c = b.center()
    same((c[0], c[1]), ((e[0] + e[2]) / 2, (e[1] + e[3]) / 2), "centre of %r" % (e,))
    same(bool(b), w * h != 0, "truth value of %r" % (e,))
    if w and h and max(w, h) < 1e9:
        for s in (1e200, 1e-200):
            d = bbox.BBox((0, 0), (w * s, h * s)).hypot()
            need(math.isclose(d, math.sqrt(w * w + h * h) * s, rel_tol=1e-12), "diagonal of {} times {}: {}", e, s, d)
    k = b.copy()
    need(k is not b and ed(k) == e and k == b, "copy of {} is {}", e, ed(k))
    xs = sorted({e[0] - 1, e[0], (e[0] + e[2]) / 2, e[2], e[2] + 1, e[2] - 0.25, e[0] - 0.25})
    ys = sorted({e[1] - 1, e[1], (e[1] + e[3]) / 2, e[3], e[3] + 1, e[3] - 0.25, e[1] - 0.25})
    for x in xs:
        for y in ys:
            want = e[0] <= x < e[2] and e[1] <= y < e[3]
            same(b.has_point((x, y)), want, "has_point(%r) of %r" % ((x, y), e))
            same((x, y) in b, want, "%r in %r" % ((x, y), e))
    same(ed(eval(repr(b), {"BBox": bbox.BBox})), e, "the printed form %r" % (repr(b),))
    for other in (None, 0, "box", e, [e], (e[:2], e[2:]), object()):
        need(not (b == other) and b != other and not (other == b), "{} equals {!r}", e, other)
    need(b in [b] and b in {b} and mk(e) in {b: 1}, "{} is lost in a collection", e)
    for item in (5, "ab", None, (1, 2, 3), (1,), [1, 2]):
        if not isinstance(item, list):
            refused(b.__contains__, "%r in a box" % (item,), item)
    big = max(abs(v) for v in e)
    for d in ((-2.75, -0.125), (1e9, -1e9), (-1e-9, 1e-9), (1e-300, 7), (12345678, -3), (0, -0.5), [1, 2.5]):
        dx, dy = d
        for how, t, s in (("translate", b.translate(dx, dy), 1), ("+", b + d, 1), ("-", b - d, -1)):
            same(ed(t), (e[0] + s * dx, e[1] + s * dy, e[2] + s * dx, e[3] + s * dy), "%r %s %r" % (e, how, d))
    for dx, dy in itertools.product((-3, 0, 0.5, 2), (-1, 0, 4)):
        for how, t, s in (("translate", b.translate(dx, dy), 1), ("+", b + (dx, dy), 1), ("-", b - (dx, dy), -1)):
            want = (e[0] + s * dx, e[1] + s * dy, e[2] + s * dx, e[3] + s * dy)
            same(ed(t), want, "%r %s %r" % (e, how, (dx, dy)))
    for f in (0, 0.0003, 0.5, 1, 1.5, 2, 3, 10, 2345.5, 1e7):
        cx, cy = (e[0] + e[2]) / 2, (e[1] + e[3]) / 2
        want = (cx - w * f / 2, cy - h * f / 2, cx + w * f / 2, cy + h * f / 2)
        res = [("scale", b.scale(f)), ("*", b * f)]
        if f:
            res.append(("/", b / (1 / f)))
        for how, t in res:
            need(all(math.isclose(g, v, rel_tol=1e-9, abs_tol=1e-9 * max(big * max(f, 1), 1e-9)) for g, v in zip(ed(t), want)),
                 "{} {} {} is {}, expected {}", e, how, f, ed(t), want)
    same(ed(b), e, "box after operations on it")


def pair(a, c):
    A, B = mk(a), mk(c)
    eq = a == c
    same(A == B, eq, "%r == %r" % (a, c))
    same(A != B, not eq, "%r != %r" % (a, c))
    if eq:
        same(hash(A), hash(B), "hashes of equal boxes %r %r" % (a, c))
    same(A < B, area(a) < area(c), "%r < %r" % (a, c))
    same(A > B, not (area(a) < area(c)) and not eq, "%r > %r" % (a, c)) if area(a) != area(c) or eq else None
    # union
    want = a if null(c) else c if null(a) else \
        (min(a[0], c[0]), min(a[1], c[1]), max(a[2], c[2]), max(a[3], c[3]))
    u = A | B
    if null(a) and null(c):
        need(ed(u) in (a, c), "{} | {} is {}", a, c, ed(u))
    else:
        same(ed(u), want, "%r | %r" % (a, c))
    # intersection
    i = (max(a[0], c[0]), max(a[1], c[1]), min(a[2], c[2]), min(a[3], c[3]))
    overlap = i[0] < i[2] and i[1] < i[3]
    n = A & B
    same(ed(n), i if overlap else (0, 0, 0, 0), "%r & %r" % (a, c))
    if area(a) and area(c):
        same(A.collide(B), overlap, "collide %r %r" % (a, c))
    inside = all(a[0] <= x < a[2] and a[1] <= y < a[3] for x, y in ((c[0], c[1]), (c[2], c[3])))
    same(A.has_bbox(B), inside, "has_bbox %r %r" % (a, c))
    same(B in A, inside, "%r in %r" % (c, a))
    same((ed(A), ed(B)), (a, c), "operands after the operations")
    return (eq, overlap, inside)


def check(case):
    if case[0] == "one":
        e = tuple(case[1])
        one(e)
        return ("one",) + tuple(e) if area(e) else None
    a = tuple(case[1])
    outs = []
    E = bbox.BBox()
    same(ed(E), (0, 0, 0, 0), "BBox()")
    same(ed(E | mk(a)) if not null(a) else a, a, "empty | %r" % (a,))
    same(ed(mk(a) | E) if not null(a) else a, a, "%r | empty" % (a,))
    same(ed(mk(a) & E), (0, 0, 0, 0), "%r & empty" % (a,))
    for c in case[2]:
        outs.append(pair(a, tuple(c)))
    return tuple(outs) if area(a) else None
