"""All rings of up to 4 points (thorough: 5) over a 3x3 grid, given open and with the first point repeated, all closed and
open lattice walks of up to 8 (9) unit steps and 6 (7) mixed steps, combs and spirals with 4 to 40 corners in all
rotations, with every buffer size 1, 2, 4, 8; the long paths of C04 as rings, with buffers to 64."""
import itertools, math
from mc.core import same, need, Bad
from mc.checks import c04
from mc.checks.c04 import chain, near, expand, comb, spiral, GRID, KS, KLONG
from coral import coord

LEVEL = "exploration"
RULE = "every ring of the bounded families, with and without the repeated first point, with all four buffer sizes; non-trivial: encloses or traverses something (non-empty directed outline)"


def online(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) == (b[1] - a[1]) * (c[0] - a[0])


def cases(tier):
    deep = tier != "quick"
    for c in c04.cases(tier):
        if c[0] == "frac" and c[1] not in (2, 1.5):
            continue
        yield c
    for n in (1, 2, 3, 4, 6):
        for f in ("comb", "spiral"):
            pts = comb(n) if f == "comb" else spiral(3 * n + 1)
            for i in range(len(pts)):
                yield ("grid", tuple(pts[i:] + pts[:i]))
                yield ("grid", tuple((pts[i:] + pts[:i])[::-1]))
    # a slit hanging out at the seam: tip first
    body = [(0, 0), (4, 0), (4, 4), (3, 4), (3, 3), (2, 3), (2, 5), (1, 5), (1, 6), (0, 6)]
    for tip in ([(-1, -1)], [(-1, 0), (-2, 3)], [(0, 0)], [(1, 1), (2, 1), (2, 2)]):
        yield ("grid", tuple(tip[::-1] + body + [(0, 0)] + tip))
        yield ("grid", tuple(tip[::-1] + body * 3 + [(0, 0)] + tip))


def check(case):
    pts, m = expand(case)
    outs = []
    snapped = [(near(x, m), near(y, m)) for x, y in pts]
    want = chain(snapped + snapped[:1])
    path = [p for p, q in zip(snapped, [None] + snapped) if p != q] + snapped[:1]
    corners = sum(1 for t in zip(path, path[1:], path[2:]) if not online(*t))
    for rep in (0, 1):
        ring = pts + pts[:1] * rep
        for k in KS if case[0] != "long" else KLONG:
            out = list(coord.simplify(iter(ring) if k == 4 else ring, m, closed=True, k=k))
            what = "ring %r (pixel %r, k=%d)" % (ring, m, k)
            need(set(out) <= set(snapped), "{} -> {}: foreign points", what, out)
            need(bool(out) == bool(pts), "{} -> {}", what, out)
            need(len(out) <= len(ring), "{} -> {}: more points than given", what, out)
            if rep and corners <= k:
                for a, b, c in zip(out[-1:] + out, out, out[1:] + out[:1]):
                    if len(out) > 2 and b != snapped[0] and online(a, b, c):
                        raise Bad("%s -> %r: %r is superfluous" % (what, out, b))
            if chain(out + out[:1]) != want:
                raise Bad("%s -> %r: different outline" % (what, out))
            outs.append(tuple(out))
    return tuple(outs) if want else None
