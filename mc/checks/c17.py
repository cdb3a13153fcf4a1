"""All write histories of up to 3 (thorough: 4 in a reduced alphabet) steps over good entities (1 to 3 parts, closed rings, single points, repeated
and empty names) and twelve kinds of refused ones (also infinite coordinates, names the format can not hold); for each, all read histories of 3 steps by index and name over two readers.
Larger: names, parts, points and entities in numbers around 127/128 and 16383/16384, and 70000; unordered reads of all entities."""
import itertools
from mc.core import same, need, refused, scratch, fresh
from mc import pfile
from coral import pf

LEVEL = "exploration"
RULE = "write history x size with all read histories inside; non-trivial: at least one accepted entity"
ASSUMPTIONS = ["points are compared within the storage step (C16 bounds it); coordinates here differ by far more"]
LIMIT = 60

GOOD = {
    "tri": [[(0, 0), (10, 0), (5, 10)]],
    "ring": [[(20, 20), (40, 20), (30, 40), (20, 20)]],
    "parts": [[(-50, -50), (-40, -50), (-45, -40)], [(-48, -48)], [(-60, -60), (-59, -60), (-59, -59), (-60, -59), (-60, -60)]],
    "point": [[(100, 50)]],
    "line": [[(70, 10), (80, 10)]],
    "twice": [[(1, 1), (30, 2)], [(1, 1), (30, 2)]],
    "pair": [[(12, 3), (12, 3)], [(15, 3), (15, 4), (15, 3)]],
    "turn": [[(170, 1), (178, 5), (174, 9), (530, 1)], [(-170, 2), (-172, 4), (190, 2)]],
}
BAD = {
    "none": [], "hollow": [[(0, 0), (1, 1)], []], "text": [[(0, 0), ("a", 1)]], "nothing": [[(0, 0), (None, 1)]], "triple": [[(0, 0, 0), (1, 1, 1)]],
    "notname": [[(0, 0), (1, 1)]], "late": [[(0, 0), (1, 1)], [(5, 5), (1j, 0)]], "nan": [[(0, 0), (float("nan"), 1)]],
    "inf": [[(0, 0), (float("inf"), 1)]], "far": [[(0, 0)], [(1, 1), (0, -float("inf"))]], "nul": [[(0, 0), (1, 1)]], "accent": [[(0, 0), (1, 1)]],
}
NAMES = ("a", "b", "a", "")


def cases(tier):
    deep = tier != "quick"
    al = list(GOOD) + list(BAD)
    for size in (1, 2, 4, 8):
        yield ("hist", size, ())
        for n in (1, 2):
            for h in itertools.product(al, repeat=n):
                yield ("hist", size, h)
    for h in itertools.product(al if deep else ("tri", "parts", "point", "none", "text", "late"), repeat=3):
        yield ("hist", 2, h)
    if deep:
        for h in itertools.product(("tri", "parts", "point", "none", "late"), repeat=4):
            yield ("hist", 4, h)
    for n in (126, 127, 128, 129, 300):
        yield ("many", "ents", n)
        yield ("many", "parts", n)
        yield ("many", "name", n)
    for n in (127, 128, 129, 255, 256, 16383, 16384, 16385):
        yield ("many", "points", n)
    yield ("many", "ents", 70000)
    yield ("many", "parts", 70000)
    for n in (16384,) if not deep else (16383, 16384, 16385):
        yield ("many", "ents", n)
        yield ("many", "parts", n)
        yield ("many", "name", n)


def name_of(k):
    return NAMES[k % len(NAMES)]


def near(got, want, what):
    same([len(p) for p in got], [len(p) for p in want], what + ": points per part")
    xs = [p for part in want for p in part]
    ex = (max(p[0] for p in xs) - min(p[0] for p in xs) + 0.02) / 255
    ey = (max(p[1] for p in xs) - min(p[1] for p in xs) + 0.02) / 255
    for gp, wp in zip(got, want):
        for g, p in zip(gp, wp):
            need(abs(g[0] - p[0]) <= ex and abs(g[1] - p[1]) <= ey, "{}: {} instead of {}", what, g, p)


def reads(path, want, hist, what):
    rs = [pf.Reader(path), pf.Reader(path)]
    for i, (who, op, arg) in enumerate(hist):
        w = "%s, reads %r" % (what, hist[:i + 1])
        same(len(rs[who]), len(want), w + ": length")
        same(list(rs[who].names), [n for n, _ in want], w + ": names")
        if op == "i":
            if arg >= len(want):
                refused(lambda: rs[who].read(arg), w + ": no such position")
                continue
            near(rs[who].read(arg), want[arg][1], w)
        elif arg in [n for n, _ in want]:
            near(rs[who].get(arg), next(p for n, p in want if n == arg), w)
        else:
            refused(lambda: rs[who].get(arg), w)
    for r in rs:
        r.close()


def check(case):
    fresh()
    path = scratch("x.p")
    if case[0] == "hist":
        size, h = case[1:]
        w = pf.Writer(path, size)
        want = []
        npts = 0
        for k, ev in enumerate(h):
            if ev in GOOD:
                arg = [list(p) for p in GOOD[ev]]
                w.write(name_of(k), arg)
                same(arg, GOOD[ev], "the caller's polygons")
                want.append((name_of(k), [pfile.drop([(pfile.fold(x), y) for x, y in p]) for p in GOOD[ev]]))
                npts += sum(len(p) for p in want[-1][1])
            else:
                refused(lambda: w.write({"notname": 17, "nul": "a\0b", "accent": "\u00e9"}.get(ev, name_of(k)), [list(p) for p in BAD[ev]]), "entity %r" % ev)
        errs = w.close()
        same(len(errs), npts, "displacements after %r" % (h,))
        with open(path, "rb") as f:
            data = f.read()
        same(tuple(w.close()), tuple(errs), "displacements of a second close")
        with open(path, "rb") as f:
            same(f.read(), data, "file of a second close")
        what = "size %d, entities %r" % (size, h)
        pfile.parse(data)
        ops = [("i", i) for i in range(len(want) + 1)] + [("n", n) for n in sorted({n for n, _ in want} | {"zz"})]
        for hist in itertools.product([(r, o, a) for r in (0, 1) for o, a in ops], repeat=3 if len(want) < 2 else 2):
            if hist[0][0] == 0:
                reads(path, want, hist, what)
        reads(path, want, [(0, "i", i) for i in reversed(range(len(want)))] + [(0, "i", i) for i in range(len(want))], what)
        return (size,) + h if want else None
    kind, n = case[1:]
    want = []
    if kind == "ents":
        for i in range(n):
            want.append(("n%d" % i, [[(i % 360 - 180, i % 180 - 90), (0.5, 0.25), (i % 7, 50)][:1 + i % 3]]))
    elif kind == "parts":
        want = [("p", [[(i % 50, i % 40)] * 1 + [(i % 31 + 60, 5)] * (i % 2) for i in range(n)]), ("q", [[(1, 1), (2, 2)]])]
    elif kind == "name":
        want = [("x" * n, [[(0, 0), (1, 1)]]), ("y" * (n - 1), [[(5, 5), (6, 7)]])]
    else:
        want = [("p", [[(i % 360 - 180, i % 180 - 90) for i in range(n)], [(7, 7)]]), ("q", [[(1, 1), (2, 2)]])]
        want[0][1][0][-1] = (3, 3)
    w = pf.Writer(path, 4)
    for nm, polys in want:
        w.write(nm, polys)
    w.close()
    want = [(nm, [pfile.drop(p) for p in polys]) for nm, polys in want]
    sel = range(len(want)) if len(want) < 400 else list(range(5)) + [127, 128, n // 2, n - 1]
    reads(path, want, [(0, "i", i) for i in sel] + [(0, "n", want[i][0]) for i in reversed(sel)], "case %r" % (case,))
    return case
