"""For each of 36 short programs (one per class or family of functions: buffers, simplification, gradients, writers, readers,
iterators and editors of the three formats, drawings and their copies, the three raster canvases, progress meters, the nine
projections, frames, boxes, fields, statistics, tables, names, geodesy, conversion) of 4..7 calls: all interleavings of two
instances, on equal data with shared arguments, on equal data, and on different data; all pairs of different programs in all
interleavings of their thirds; thorough: of all their calls up to 252 schedules (fifths), and three instances by halves. Every call
must show what it shows when the program runs alone in a new process."""
import itertools
from mc.core import same, freeze, Bad
from mc import scripts

LEVEL = "exploration"
RULE = "one case is one schedule of the calls of two or three programs; non-trivial: the calls of different programs alternate"
ASSUMPTIONS = ["calls are atomic: the library starts no threads"]
LIMIT = 60

_want = {}


SIZES = {"buffer": 6, "simplify": 6, "gradient": 5, "rgwriter": 6, "rgreader": 6, "pfwriter": 6, "pfreader": 6, "shpwriter": 5,
         "shpreader": 6, "shpiter": 5, "editor": 5, "canvas": 6, "figures": 5, "copies": 6, "bw": 6, "gray": 6, "color": 6, "tqdm": 5,
         "frame": 6, "bbox": 5, "fields": 4, "stats": 5, "table": 6, "names": 4, "coord": 5, "convert": 5, "shpz": 5}
SIZES.update({"proj " + k: 4 for k in scripts.PROJ})


def merges(*ns):
    """All orders of the calls of several programs."""
    if not any(ns):
        yield ""
    for i, n in enumerate(ns):
        if n:
            for rest in merges(*(m - (j == i) for j, m in enumerate(ns))):
                yield str(i) + rest


def cases(tier):
    deep = tier != "quick"
    names = sorted(SIZES)
    for n in names:
        for va, vb, shared in ((0, 1, 0), (0, 0, 1), (1, 1, 0)):
            for m in merges(SIZES[n], SIZES[n]):
                yield (((n, va), (n, vb)), shared, 0, m)
    for a, b in itertools.combinations(names, 2):
        k = 5 if deep else 3
        for va, vb in ((0, 1), (1, 0)) if deep else ((0, 1),):
            for m in merges(k, k):
                yield (((a, va), (b, vb)), 0, k, m)
    if deep:
        for n in names:
            for m in merges(3, 3, 3):
                yield (((n, 0), (n, 1), (n, 0)), 0, 3, m)
        for l in itertools.combinations(names, 3):
            for m in merges(2, 2, 2):
                yield (tuple((n, i & 1) for i, n in enumerate(l)), 0, 2, m)


def check(case):
    progs, shared, parts, sched = case
    if not _want:
        _want.update(scripts.pristine([(n, v, list) for n in SIZES for v in (0, 1)]))
    wants = []
    for n, v in progs:
        kind, w = _want[(n, v, list)]
        if kind == "bad":
            raise Bad(w)
        same(len(w), SIZES[n], "calls of " + n)
        wants.append(w)
    args = {} if shared else None
    ctx = [scripts.Ctx("i%d" % i, args) for i in range(len(progs))]
    gens = [scripts.SCRIPTS[n](ctx[i], v) for i, (n, v) in enumerate(progs)]
    done = [0] * len(progs)
    turn = [0] * len(progs)
    for s in sched:
        i = int(s)
        turn[i] += 1
        goal = SIZES[progs[i][0]] * turn[i] // parts if parts else turn[i]
        while done[i] < goal:
            got = freeze(next(gens[i]))
            same(got, wants[i][done[i]], "call %d of %s %s among %s" % ((done[i],) + progs[i] + ([p for j, p in enumerate(progs) if j != i],)))
            done[i] += 1
            for c in ctx:
                c.settled()
    same(done, [len(w) for w in wants], "calls")
    return (progs, len(sched), "01" in sched and "10" in sched)
