"""For each of the 36 short programs of C52, on two data sets, with points as lists and as tuples: all sets of moments (after any of
its calls) at which the caller overwrites, empties and rearranges every list, array, dictionary and shape it has handed in, got back,
or both; arguments are compared with a snapshot after every call up to then, lazily read ones to the end; thorough: next to a second,
undisturbed instance on shared or equal arguments, in three interleavings. 27 calls with arguments of 3 to 5000 (70000) items. Every call must show what it shows when the program runs
undisturbed in a new process."""
import collections, contextlib, io, itertools, math
from mc.core import same, freeze, scratch, Bad
from mc import scripts
from mc.checks.c52 import SIZES
from coral import bbox, coord, frame, gradient, grid, names, pf, proj, raster, rg, shapefile, table, tqdm, vector

LEVEL = "exploration"
RULE = "one case is one program with one set of moments; non-trivial: something is changed by the caller"
LIMIT = 60

_want = {}
REPS = {"list": list, "tuple": tuple}


def _pts(n, closed=True):
    p = [[(k * 7 % 90) + k % 2 / 4, (k * 5 % 60) - 30 + k % 3 / 8] for k in range(n)]
    return p + [list(p[0])] if closed else p


def _tuples(p):
    return [tuple(x) for x in p]


def _writer(t):
    w = shapefile.Writer(t)
    w.field("a", "C", 9, 0)
    return w


# one call with a large argument each: size -> (argument, what is called)
BIG = {
    "pf": lambda n: ([_pts(n), _pts(n + 1, False)], lambda a: pf.Writer("no", 2).write("x", a)),
    "rg": lambda n: ([[[i % 9] for i in range(n)], [[1]] * n], lambda a: _rg(a)),
    "poly": lambda n: ([_pts(n), _pts(n, False)], lambda a: _writer(5).poly(a)),
    "polyz": lambda n: ([[p + [1, 2] for p in _pts(n)], [p + [1] for p in _pts(n, False)]], lambda a: _writer(15).poly(a, 15)),
    "patch": lambda n: ([_pts(n), _pts(n, False)], lambda a: _writer(31).poly(a, 31, [2, 3])),
    "record": lambda n: ([["r%d" % i] for i in range(n)], lambda a: (lambda w: [w.record(*r) for r in a])(_writer(1))),
    "open": lambda n: (_pts(n), lambda a: list(coord.simplify(a, .5))),
    "ring": lambda n: (_pts(n), lambda a: list(coord.simplify(a, .5, True))),
    "centroid": lambda n: ([[[20 * math.cos(6.283 * k / n), 10 * math.sin(6.283 * k / n)] for k in range(n)]], lambda a: coord.geocentroid(a, None, 1e-3)),
    "box": lambda n: (_pts(n), lambda a: bbox.BBox(a)),
    "polyline": lambda n: (_pts(n), lambda a: vector.Canvas().addpolyline(a, 1)),
    "polygon": lambda n: (_pts(n), lambda a: vector.Canvas().addpolygon(a, 0, 1)),
    "rounded": lambda n: (_pts(n, False), lambda a: vector.Canvas().addroundedpolygon(a, 1, 0, 1)),
    "image": lambda n: ([k % 256 for k in range(3 * n)], lambda a: vector.Canvas().addimage(a, n, None, 1, True)),
    "dash": lambda n: ([1 + k % 5 for k in range(n)], lambda a: vector.Canvas().setdash(a, 1)),
    "stroke": lambda n: ([[int(x), int(y)] for x, y in _pts(n)], lambda a: raster.GrayCanvas(9, 9).strokepolygon(a, 7, False)),
    "aastroke": lambda n: ([[int(x), int(y)] for x, y in _pts(n)], lambda a: raster.GrayCanvas(9, 9).strokepolygon(a, 7, True)),
    "scan": lambda n: ([[int(x), int(y)] for x, y in _pts(n)], lambda a: raster.GrayCanvas(9, 9).scanpolygon(a)),
    "gradient": lambda n: ([[(k * 7 % n) / n, (0, k / n, 1)] for k in range(n)], lambda a: gradient.Gradient(a).get(.3)),
    "mapping": lambda n: ([["k%d" % (i % 7) for i in range(min(n, 60))], ["v%d" % i for i in range(min(n, 60))]], lambda a: names.mapping(*a)),
    "abbreviations": lambda n: ([["name %d" % i for i in range(min(n, 99))], ["of"]], lambda a: names.abbreviations(a[0], 7, a[1])),
    "table": lambda n: ([ROW("k%d" % (i * 7 % n), "b%d" % i) for i in range(min(n, 300))], lambda a: (
        table.join(a, a[::-1]), list(table.getall(a, "k", "k1")), table.indexby(a, "k"), list(table.delkeys(a, ["k"])), list(table.addkey(a, "n", lambda r: r.b)))),
    "writefile": lambda n: ([ROW("k%d" % (i * 7 % n), "b%d" % i) for i in range(n)], lambda a: table.writefile(scratch("t"), a, ["b", "k"])),
    "pprint": lambda n: ([ROW("k%d" % (i * 7 % n), "b%d" % i) for i in range(n)], lambda a: _quiet(lambda: table.pprint(a))),
    "tqdm": lambda n: (list(range(n)), lambda a: list(tqdm.tqdm(a, file=io.StringIO()))),
    "planify": lambda n: (_pts(n), lambda a: list(frame.Frame(proj.Mercator(), bbox.BBox()).planify(1000, a))),
    "animation": lambda n: ([vector.Canvas() for i in range(min(n, 12))], None),
}
ROW = collections.namedtuple("ROW", "k b")


def _rg(a):
    w = rg.Writer(scratch("d"), grid.GRow(grid.IVar("n", 0, 9)))
    w.write(a, "x")
    w.close()


def _quiet(f):
    with contextlib.redirect_stdout(io.StringIO()):
        f()


def big(name, n, way):
    arg, call = BIG[name](n)
    if call is None:
        for c in arg:
            c.addpolygon([(0, 0), (3, 0), (3, 3)], 0)
        arg, call = arg, lambda a: vector.animation(scratch("no such folder/x.gif"), a)
        old, vector.subprocess.call = vector.subprocess.call, lambda *a, **k: 0
    else:
        old = vector.subprocess.call
    if way == "tuples":
        arg = [_tuples(a) if isinstance(a[0], list) and a else a for a in arg] if isinstance(arg[0], list) and isinstance(arg[0][0], list) else [
            tuple(a) if isinstance(a, list) else a for a in arg]
    before = freeze(arg)
    try:
        for _ in range(2):
            call(arg)
            same(freeze(arg) == before, True, "the argument of %s (%d items, %s) is as it was" % (name, n, way))
    finally:
        vector.subprocess.call = old
    return name, n, way


def cases(tier):
    deep = tier != "quick"
    for name in BIG:
        for n in (3, 4, 7, 8, 9, 50, 128, 300, 1001) + ((2500, 5000, 70000) if deep else (5000,)):
            for way in ("lists", "tuples"):
                yield ("big", name, n, way)
    for n in sorted(SIZES):
        for v, rep in itertools.product((0, 1), REPS):
            for m in range(1 << SIZES[n]):
                for what in ((1, 0), (0, 1), (1, 1)) if m else ((0, 0),):
                    yield (n, v, rep, what, m, 0)
                    if deep:
                        for other in (1, 2, 3):
                            yield (n, v, rep, what, m, other)


def check(case):
    if case[0] == "big":
        return big(*case[1:])
    name, v, rep, what, mask, other = case
    if not _want:
        _want.update(scripts.pristine([(n, w, r) for n in SIZES for w in (0, 1) for r in REPS.values()]))
    kind, want = _want[(name, v, REPS[rep])]
    if kind == "bad":
        raise Bad(want)
    c = scripts.Ctx("own", rep=REPS[rep])
    g = scripts.SCRIPTS[name](c, v)
    if other:
        c2 = scripts.Ctx("other", rep=REPS[rep])
        g2 = scripts.SCRIPTS[name](c2, v)
    for i in range(len(want)):
        if other and i >= (other - 1) * 2:
            same(freeze(next(g2)), want[i - (other - 1) * 2], "call %d of the other instance" % (i - (other - 1) * 2))
            c2.settled()
        same(freeze(next(g)), want[i], "call %d" % i)
        c.settled()
        if mask >> i & 1:
            c.spoil(*what)
    if other:
        for j in range(max(0, len(want) - (other - 1) * 2), len(want)):
            same(freeze(next(g2)), want[j], "call %d of the other instance" % j)
            c2.settled()
    return (name, v, rep, what, mask, other) if mask else None
