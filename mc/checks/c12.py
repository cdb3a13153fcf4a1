"""All orders of all stop sets with up to 4 stops (thorough: 5) from a position lattice (with and without 0 and 1) and a
colour alphabet, and sets of 6 to 33 stops in four orders, queried on a fine lattice of positions in two opposite orders, plus the hexadecimal form; the predefined
gradients on a lattice of 1/240."""
import itertools
from fractions import Fraction as F
from mc.core import same, need
from coral import gradient

LEVEL = "exploration"
RULE = "every stop set in every order; non-trivial: at least two different colours"
POS = (0, 0.125, 0.25, 0.5, 0.75, 1)
COL = ((0, 0, 0), (1, 0.5, 0.25), (0, 1, 1), (0.75, 0.25, 1))
PRE = {
    "gray": ((0, 0, 0), (1, 1, 1)), "bwr": ((0, 0, 1), (1, 0, 0)), "heat": ((0, 0, 1), (1, 0, 0)),
    "height": ((0.00, 0.36, 0.18), (1.00, 1.00, 1.00)),
}
MID = {"gray": ((0.5, (0.5, 0.5, 0.5)),), "bwr": ((0.5, (1, 1, 1)), (0.25, (0.5, 0.5, 1))), "heat": ((0.25, (0, 1, 1)), (0.5, (0, 1, 0)), (0.75, (1, 1, 0))),
       "height": ((0.25, (0.84, 0.84, 0.39)), (0.57, (0.63, 0.39, 0.00)))}


def cases(tier):
    for n in range(1, 5 if tier == "quick" else 6):
        for pos in itertools.combinations(POS, n):
            for shift in range(len(COL)):
                cols = [COL[(i + shift) % len(COL)] for i in range(n)]
                for order in itertools.permutations(range(n)):
                    yield ("stops", tuple((pos[i], cols[i]) for i in order))
    for cols in itertools.product(COL, repeat=2):
        yield ("stops", ((0, cols[0]), (1, cols[1])))
        yield ("stops", ((1.0, cols[0]), (0.0, cols[1])))
        yield ("stops", ((0.7, cols[0]), (0.3, cols[1])))
    # many stops, in four orders
    for n in (6, 8, 9, 11, 16, 17, 33):
        for lo, hi in ((0, n - 1), (-1, n), (0, n), (-1, n - 1)):
            for mul in (1, -1, 5, 7):
                order = sorted(range(n), key=lambda i: i * mul % (n + (n % 5 == 0 or n % 7 == 0)) if abs(mul) > 1 else i * mul)
                yield ("stops", tuple(((i - lo) / (hi - lo), COL[(i * i + i // 3) % 4]) for i in order))
    # stops next to the ends, to each other, and beyond floating-point display
    for k in list(range(4, 31)) + [52]:
        e = 2.0 ** -k
        for pos in ((e, 1), (0, 1 - e), (e, 1 - e), (0, 0.5, 0.5 + e, 1), (0.5 - e, 0.5), (e, 2 * e, 3 * e)):
            yield ("stops", tuple((p, COL[(i + k) % 4]) for i, p in enumerate(pos)))
    for k in range(1, 1000, 1 if tier != "quick" else 7):
        yield ("stops", ((k / 1000, COL[1]), (1, COL[2]), (0, COL[3])))
        yield ("stops", ((k / 1000, COL[1]), ((k + 1) / 1000, COL[2])))
    for n in (100, 129, 257, 1000):
        for mul in (1, -1):
            yield ("stops", tuple((i / n, COL[(i * i + i // 3) % 4]) for i in range(n)[::mul]))
    # steps: two stops at one place, in the order given
    for pos in ((0, 0.5, 0.5, 1), (0.25, 0.25), (0, 0.125, 0.125, 0.75, 0.75, 1), (0, 0, 1), (0, 1, 1), (0.5, 0.5, 1)):
        for cols in itertools.product(COL, repeat=2):
            for turn in range(len(pos)):
                s = [(p, cols[i % 2]) for i, p in enumerate(pos)]
                yield ("steps", tuple(s[turn:] + s[:turn]))
    for name in PRE:
        yield ("pre", name)


def blend(stops, x):
    s = sorted(stops)
    x = F(x)
    if x <= F(s[0][0]):
        return [F(c) for c in s[0][1]]
    if x >= F(s[-1][0]):
        return [F(c) for c in s[-1][1]]
    for (pa, ca), (pb, cb) in zip(s, s[1:]):
        pa, pb = F(pa), F(pb)
        if pa <= x <= pb:
            return [F(a) + (F(b) - F(a)) * (x - pa) / (pb - pa) for a, b in zip(ca, cb)]


def query(g, stops, x, what):
    want = blend(stops, x)
    got = g.get(x)
    need(len(got) == 3 and all(abs(F(a) - b) < F(1, 10**12) for a, b in zip(got, want)), "{} at {}: {}, expected {}", what, x, got,
         [float(w) for w in want])
    for p, c in stops:
        if p == x:
            same(tuple(got), tuple(c), "%s at its own stop %r" % (what, x))
    h = g.get_hex(x)
    need(len(h) == 4 and h[0] == "#", "{} at {}: hex {!r}", what, x, h)
    for d, w, c in zip(h[1:], want, got):
        w *= 15
        ok = {int(w - F(1, 10**9)), int(w + F(1, 10**9))}
        if any(p == x for p, _ in stops) and (F(c) * 15).denominator == 1:
            ok = {int(F(c) * 15)}
        need(d in "0123456789abcdef" and int(d, 16) in ok, "{} at {}: hex {!r}, channel {}", what, x, h, float(w))
    return tuple(got)


def steps(stops):
    """Between two places of stops, from the colour of the last stop given for one to that of the first given for the other."""
    g = gradient.Gradient(stops)
    s = sorted(stops, key=lambda p: p[0])
    out = []
    for (pa, ca), (pb, cb) in zip(s, s[1:]):
        if pa < pb:
            for k in (1, 2, 3):
                x = pa + (pb - pa) * k / 4
                got = g.get(x)
                want = [a + (b - a) * k / 4 for a, b in zip(ca, cb)]
                need(all(abs(u - w) < 1e-12 for u, w in zip(got, want)), "gradient of {} at {}: {}, expected {}", stops, x, got, want)
                out.append(tuple(got))
        else:
            need(tuple(g.get(pa)) in (ca, cb), "gradient of {} at {}: {}, one of {} expected", stops, pa, g.get(pa), (ca, cb))
    return tuple(out) if len({c for _, c in stops}) > 1 else None


def check(case):
    if case[0] == "pre":
        g = getattr(gradient, case[1])
        a, b = PRE[case[1]]
        same((tuple(g.get(0)), tuple(g.get(1))), (a, b), "ends of %s" % case[1])
        stops = [(0, a), (1, b)] + list(MID[case[1]])
        return tuple(query(g, stops, i / 240, case[1]) for i in range(241))
    if case[0] == "steps":
        return steps(list(case[1]))
    stops = list(case[1])
    kept = list(stops)
    g = gradient.Gradient(stops)
    same(stops, kept, "the caller's stops")
    what = "gradient of %r" % (stops,)
    xs = sorted({i / 32 for i in range(33)} | {p for p, _ in stops} | {0.1, 0.9, 0.3, 1 / 3})
    near = sorted({0.0, 1.0} | {float(p) for p, _ in stops})
    xs = sorted(set(xs) | {(a + b) / 2 for a, b in zip(near, near[1:])} | {a + (b - a) / 3 for a, b in zip(near, near[1:])})
    first = [query(g, kept, x, what) for x in xs]
    again = [query(g, kept, x, what + " (asked backwards)") for x in reversed(xs)]
    same(again[::-1], first, what + " after earlier queries")
    same(stops, kept, "the caller's stops after queries")
    g2 = gradient.Gradient(stops)
    same(tuple(g2.get(0.4)), tuple(g.get(0.4)), what + " built twice")
    return tuple(first) if len({c for _, c in kept}) > 1 else None
