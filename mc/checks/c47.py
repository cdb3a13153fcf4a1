"""An independent reader and writer of RangeGrid v1 files (mc/rgfile.py). For every data set of up to 2 (thorough: 3) entities
over an entity catalogue, in every layout of 1 or 2 columns (thorough: 3) over a column catalogue, and for column sizes,
bounds, counts of rows, segments, entities and columns around 127/128, 255/256, 16383/16384 and 65535/65536 (and column names that the format cannot hold): the files the library writes are
decoded by the independent reader, and the files the independent writer makes are read by the library, by id and in sequence."""
import itertools
from mc.core import same, need, refused, scratch, fresh
from mc import rgfile
from coral import rg
from coral.grid import IVar, FVar, SVar, GRow
from mc.checks.c14 import plain

LEVEL = "exploration"
RULE = "layout x data set, in both directions; non-trivial: at least one row is stored"
LIMIT = 40

COLS = (
    (("i", "n", 0, 255, False), (0, 255, 128)),
    (("i", "n", 0, 254, True), (0, 254, None)),
    (("i", "k", -70000, 5, False), (-70000, 5, -1)),
    (("i", "m", -2 ** 63, 2 ** 63 - 1, False), (-2 ** 63, 2 ** 63 - 1, 0)),
    (("i", "m", 128, 2 ** 40, True), (128, 2 ** 40, None)),
    (("r", "lon", -180, 180, 1, False), (-180, 180, 0.4)),
    (("r", "x", -1, 1, 2, True), (-1, 1, None)),
    (("r", "y", -90, 90, 4, False), (-90, 90, 1.25)),
    (("r", "lat", 0, 359, 8, False), (0, 359, 100.1)),
    (("s", "t", 1, False), ("", "a", "~")),
    (("s", "name", 5, True), ("", "\u20acab", None)),
    (("s", "note", 130, False), ("x" * 130, "a b\nc", "")),
)
ENTS = (
    (), ((),), ((0,),), ((0, 1), (2,)), ((), (1,), ()), ((2, 2, 0),),
)
IDS = (("a", "b", "c"), ("x y", "3", ""), (0, 1, 2), ("same", "same", "same"))


def make(f):
    return {"i": IVar, "r": FVar, "s": SVar}[f[0]](*f[1:])


def bare(f):
    """The same field, with the nullable argument left out."""
    return {"i": IVar, "r": FVar, "s": SVar}[f[0]](*f[1:-1])


def cases(tier):
    deep = tier != "quick"
    for k in range(len(COLS)):
        for n in (0, 1, 2, 3) if deep else (0, 1, 2):
            for es in itertools.product(range(len(ENTS)), repeat=n):
                for i in range(len(IDS)) if n else (0,):
                    yield ("set", (k,), es, i)
    for ks in itertools.product(range(len(COLS)), repeat=2):
        for es in itertools.product(range(2, len(ENTS)), repeat=2):
            yield ("set", ks, es, (ks[0] + es[0]) % 4)
    if deep:
        for ks in itertools.product(range(len(COLS)), repeat=3):
            yield ("set", ks, (3, 4, 5), 1)
    edge = (1, 2, 126, 127, 128, 129, 254, 255, 256, 257)
    for n in edge + (16383, 16384, 16385):
        yield ("size", n)
        yield ("many", n if n < 1000 else 1000, 1, 1)
        yield ("many", 1, n, 1)
        yield ("many", 2, 1, n)
    for n in (65535, 65536, 70000):
        yield ("many", 1, 1, n)
        yield ("size", n)
    for n in ("\0", "a\0", "\0a", "a\0b", "\u00e9", "a\u20ac"):
        for k in range(len(COLS)):
            yield ("badname", n, k)
    for n in edge[:8]:
        yield ("cols", n)
        yield ("name", n)
    for b in range(64):
        for e in (-1, 0, 1):
            if 2 ** b + e > 0:
                yield ("bounds", 2 ** b + e)


def write(fields, ents, path, mk=make, defaults=False):
    w = rg.Writer(path, GRow(*map(mk, fields)))
    for k, (i, segs) in enumerate(ents):
        if defaults:
            w.write([list(s) for s in segs])
        else:
            w.write([list(s) for s in segs], i)
    w.close()


def slurp(path):
    with open(path + ".rg", "rb") as f, open(path + ".md", "rb") as g:
        return f.read(), g.read()


def near(f, v, got):
    if f[0] != "r" or v is None:
        return got == v and type(got) == type(v)
    top = 256 ** rgfile.size(f) - 1 - (1 if f[-1] else 0)
    return abs(got - v) <= (f[3] - f[2]) / top / 2 + 1e-15 * 8 * max(abs(f[2]), abs(f[3]), f[3] - f[2])


def both(fields, ents, what):
    path = scratch("w")
    writers = [make] + ([bare] if not any(f[-1] for f in fields) else [])
    for mk in writers:
        write(fields, ents, path, mk)
        rgfile.verify(*slurp(path), fields, ents, what)
    if [i for i, _ in ents] == list(range(len(ents))):
        write(fields, ents, path, defaults=True)
        rgfile.verify(*slurp(path), fields, ents, what + " (default ids)")
    a, b = rgfile.files(fields, ents)
    path = scratch("r")
    with open(path + ".rg", "wb") as f, open(path + ".md", "wb") as g:
        f.write(a)
        g.write(b)
    names = tuple(f[1] for f in fields)
    rd = rg.Reader(path)
    ids = [str(i) for i, _ in ents]
    for order in (None, range(len(ents) - 1, -1, -1)):
        for k in range(len(ents)) if order is None else order:
            got = rd.read() if order is None else rd.read(ents[k][0])
            want = ents[k][1] if order is None else ents[ids.index(ids[k])][1]
            same([len(s) for s in got], [len(s) for s in want], what + ": rows of entity %d" % k)
            for s, t in zip(got, want):
                for x, y in zip(s, t):
                    need(len(x) == len(y) and all(near(f, v, g) for f, v, g in zip(fields, y, x)), "{}: {!r} of a stored file is read as {!r}", what, y, tuple(x))
                    same(tuple(getattr(x, n) for n in names), tuple(x), what + ": by name")
    rd.close()
    return len(a)


def check(case):
    fresh()
    kind, what = case[0], "case %r" % (case,)
    if kind == "badname":
        f = COLS[case[2]][0]
        refused(lambda: rg.Writer(scratch("w"), GRow(make(("i", "k", 0, 9, False)), make(f[:1] + (case[1],) + f[2:]))), what)
        return case
    if kind == "set":
        _, ks, es, i = case
        fields = []
        for j, k in enumerate(ks):
            f = COLS[k][0]
            fields.append(f[:1] + (f[1] + "_%d" % j if j else f[1],) + f[2:])
        vals = [COLS[k][1] for k in ks]
        ents = [(IDS[i][j], [[tuple(v[(r + j + m) % 3] for m, v in enumerate(vals)) for r in seg] for seg in ENTS[e]]) for j, e in enumerate(es)]
        both(fields, ents, what)
        return (ks, sum(len(s) for _, e in ents for s in e)) if any(s for _, e in ents for s in e) else None
    if kind == "size":
        n = case[1]
        fields = [("i", "k", 0, 3, False), ("s", "t", n, True)]
        ents = [("q", [[(1, "x" * n), (2, None), (3, "y" * (n - 1)), (0, "")]])]
    elif kind == "many":
        _, ne, ns, nr = case
        fields = [("i", "n", 0, 99999, False)]
        c = itertools.count()
        ents = [(e, [[(next(c),) for _ in range(nr)] for _ in range(ns)]) for e in range(ne)]
    elif kind == "cols":
        fields = [("i", "c%d" % j, -j, j + 1, j % 2 == 1) for j in range(case[1])]
        ents = [("q", [[tuple(range(case[1])), tuple(-j for j in range(case[1]))]])]
    elif kind == "name":
        fields = [("i", "n" * case[1], 0, 1, False), ("s", "x" * case[1], 2, False)]
        ents = [("i" * case[1], [[(1, "ab")]])]
    else:
        b = case[1]
        # real bounds far apart: the arithmetic on doubles loses their last digits
        fields = [("i", "a", -b, b, False) if 2 * b < 2 ** 64 - 1 else ("i", "a", 0, b, False), ("i", "b", b, b + 300, True), ("i", "c", -b - 3, -b, False), ("r", "d", -b, b, 2, False)]
        ents = [("q", [[(0, b, -b, -b), (b, None, -b - 3, b), (b - 1, b + 300, -b - 1, 0)]])]
    both(fields, ents, what)
    return case
