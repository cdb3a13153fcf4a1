"""All data sets of up to 3 entities (thorough: 4 in a reduced alphabet) with entity forms of 0 to 3 segments and 0 to 2 rows
per segment, ids by default, number, text, text with blanks, empty and repeated, in ten column layouts (every type,
nullable, negative bounds, names that are no identifiers or occur twice); for each, all read histories of up to 3 (thorough: 4) steps over two open readers: next, by each
id, by an unknown id. Larger: 127/128/129, 300 and 1000 entities, segments, rows, and 16384-byte fields, long column names, 255 columns."""
import itertools, keyword
from mc.core import same, need, refused, scratch, fresh
from coral import rg
from coral.grid import IVar, FVar, SVar, GRow

LEVEL = "exploration"
RULE = "data set x layout, with all read histories inside; non-trivial: at least one row is stored"
LIMIT = 40

SHAPES = ((), (0,), (1,), (2,), (1, 0, 2), (0, 1), (2, 1))
IDS = (None, "a", 7, "a b", " x ", "", "1", "a b 2")
LAYOUTS = (
    ("f", (("FVar", "lon", -128, 127, 1),), ((-128,), (127,), (5,), (0,))),
    ("i", (("IVar", "n", -70000, 5),), ((-70000,), (5,), (-1,), (0,))),
    ("s", (("SVar", "t", 5),), (("",), ("abc",), ("\u00e9\u20ac",), ("a b\nc",))),
    ("n", (("IVar", "a", 0, 254, True), ("FVar", "b", -1, 1, 2, True), ("SVar", "c", 2, True)),
     ((None, None, None), (254, 1, "xy"), (0, -1, ""), (1, None, "z"))),
    ("m", (("SVar", "name", 4), ("IVar", "n", 128, 2 ** 40), ("FVar", "x", -1000000, -128, 8)),
     (("abcd", 128, -128), ("", 2 ** 40, -1000000), ("q", 129, -1000000), ("r", 2 ** 39, -128))),
    ("q", (("IVar", "no id", 0, 9), ("SVar", "class", 3), ("FVar", "x", 0, 1, 1), ("IVar", "x", 3, 4), ("IVar", "_y", 0, 9), ("IVar", "", 0, 9)),
     ((0, "a", 0, 3, 0, 9), (9, "abc", 1, 4, 9, 0), (1, "", 0, 3, 5, 5), (2, "b", 1, 4, 1, 1))),
    ("u", (("FVar", "b", -3, 4, 8, True), ("IVar", "a", -2 ** 40, 2 ** 40, True), ("SVar", "c", 8, True), ("FVar", "d", 0, 1, 1, True), ("FVar", "e", 0, 1, 4, True)),
     ((4, None, None, 1, None), (None, -2 ** 40, "x" * 8, None, 1), (-3, 2 ** 40, "", 0, 0), (None,) * 5)),
    ("c", (("IVar", "class", 0, 9),), ((0,), (9,), (3,), (5,))),
    ("e", (("SVar", "", 3),), (("a",), ("",), ("abc",), ("b",))),
    ("z", (("IVar", "n", -2 ** 63, 2 ** 63 - 1), ("IVar", "m", 0, 16384)), ((-2 ** 63, 0), (2 ** 63 - 1, 16384), (0, 127), (-1, 128))),
)


def layout(name):
    for n, fields, rows in LAYOUTS:
        if n == name:
            return GRow(*(dict(IVar=IVar, FVar=FVar, SVar=SVar)[f[0]](*f[1:]) for f in fields)), tuple(f[1] for f in fields), rows


def cases(tier):
    deep = tier != "quick"
    ents = list(itertools.product(SHAPES, IDS))
    for name, _, _ in LAYOUTS:
        yield ("hist", name, ())
        for e in ents:
            yield ("hist", name, (e,))
        for es in itertools.product(SHAPES if deep else SHAPES[:5], repeat=2):
            for ids in ((None, None), ("a", "a"), ("a", "b"), (None, "0"), ("1", None), ("a b", "a"), ("a", "a b"), (2, 1), (1, 0), (-1, -2)):
                yield ("hist", name, tuple(zip(es, ids)))
    for ids in itertools.permutations(("a", " a", "a ", " a ", "A", "a\t", "\ta", "a  b", "a b", "\u00e1", "a\u0301"), 3 if deep else 2):
        for m in (1, -1):
            yield ("hist", "f", tuple(zip(((1,), (2,), (1, 0, 2))[::m], ids)))
    for ids in (("1", "01", "1.0"), (1, 1.0, "1"), (True, 1, "True"), ("None", None, "0"), (-1, "-1", 1), (0, "", " "), (b"a", "a", "b'a'"), (2, 0, 1), (1, 2, 0), (2, 1, 0), (0, 2, 1), (3, 2, 1)):
        yield ("hist", "f", tuple(zip(((1,), (2,), (1, 0, 2)), ids)))
    for name in ("f", "n"):
        for es in itertools.product(SHAPES[:4] if not deep else SHAPES, repeat=3):
            for ids in ((None,) * 3, ("a", "b", "a"), ("b", None, "a")):
                yield ("hist", name, tuple(zip(es, ids)))
    for n in (127, 128, 129, 300, 1000):
        yield ("many", n, 1, 1)
        yield ("many", 2, n, 1)
        yield ("many", 2, 1, n)
    for size in (127, 128, 129, 16383, 16384, 16385, 70000):
        yield ("wide", size)
    for n in (1, 2, 127, 128, 254, 255):
        yield ("cols", n)
    for b in (1, 63, 64, 127, 128, 129, 255, 256, 16383, 16384, 2 ** 21, 2 ** 31, 2 ** 32, 2 ** 62):
        yield ("bounds", b)


def build(shape, rows, k):
    out, i = [], k
    for n in shape:
        seg = []
        for _ in range(n):
            seg.append(rows[i % len(rows)])
            i += 1
        out.append(seg)
    return out


def plainname(n):
    return n.isidentifier() and not keyword.iskeyword(n) and not n.startswith("_")


def plain(segs):
    return [[tuple(r) for r in seg] for seg in segs]


def write(row, ents, path):
    w = rg.Writer(path, row)
    for k, (segs, id_) in enumerate(ents):
        arg = segs if k % 2 == 0 else (iter(seg) for seg in segs)
        if id_ is None:
            w.write(arg)
        else:
            w.write(arg, id_)
    w.close()
    return [(segs, str(k if id_ is None else id_)) for k, (segs, id_) in enumerate(ents)]


def history(names, want, ids, path, hist, what):
    readers = [rg.Reader(path), rg.Reader(path)]
    pos = [0, 0]
    for step in hist:
        r, op = step
        w = "%s, history %r" % (what, hist)
        if op == "next":
            if pos[r] >= len(want):
                refused(lambda: readers[r].read(), w + ": reading past the last entity")
                continue
            got = readers[r].read()
            k = pos[r]
        elif op == "?":
            refused(lambda: readers[r].read("unknown id"), w + ": unknown id")
            continue
        else:
            got = readers[r].read(op)
            k = ids.index(str(op))
        same(plain(got), want[k], w)
        for seg in got:
            for x in seg:
                for i, n in enumerate(names):
                    if plainname(n) and n not in names[:i]:
                        same(getattr(x, n), x[i], w + ": value of column " + n)
        pos[r] = k + 1
    for r in readers:
        r.close()


def check(case):
    fresh()
    path = scratch("set")
    if case[0] == "hist":
        row, names, rows = layout(case[1])
        ents = [(build(shape, rows, k), id_) for k, (shape, id_) in enumerate(case[2])]
        stored = write(row, ents, path)
        want = [plain(segs) for segs, _ in stored]
        ids = [i for _, i in stored]
        what = "layout %s, entities %r" % (case[1], [(s, e[1]) for s, e in zip((c[0] for c in case[2]), ents)])
        asked = [k if e[1] is None else e[1] for k, e in enumerate(case[2])]     # numbers are asked for as numbers
        ops = ["next", "?"] + [a for k, a in enumerate(asked) if ids.index(str(a)) == k and a not in ("next", "?")]
        n = 3 if len(ents) < 3 else 2
        if case[1] != "f" and len(ents) > 1:
            n = 2
        for hist in itertools.product([(r, op) for r in (0, 1) for op in ops], repeat=n):
            if hist[0][0] == 0:
                history(names, want, ids, path, hist, what)
        history(names, want, ids, path, [(0, "next")] * (len(want) + 1) + [(1, "next")] * len(want), what)
        if want:
            history(names, want, ids, path, [(0, i) for i in reversed(ids)] + [(0, "next")], what)
            history(names, want, ids, path, [(0, i) for i in asked] + [(0, "next")] * 2, what)
        return (case[1], tuple(c[0] for c in case[2])) if any(sum(c[0]) for c in case[2]) else None
    if case[0] == "many":
        _, ne, ns, nr = case
        row = GRow(IVar("n", 0, 100000))
        k, ents = 0, []
        for e in range(ne):
            segs = []
            for s in range(ns):
                segs.append([(k + j,) for j in range(nr)])
                k += nr
            ents.append((segs, None))
        names = ("n",)
    elif case[0] == "wide":
        row = GRow(SVar("text", case[1]), IVar("k", 0, 3))
        ents = [([[("x" * case[1], 1)], [("", 2), ("y", 3)]], "w"), ([[("z" * (case[1] - 1), 0)]], "v")]
        names = ("text", "k")
    elif case[0] == "cols":
        names = tuple("c%d_%s" % (i, "n" * (i % 40)) for i in range(case[1]))
        row = GRow(*(IVar(n, -i - 1, i + 1) for i, n in enumerate(names)))
        ents = [([[tuple(range(1, case[1] + 1)), tuple(-i for i in range(1, case[1] + 1))]], None)] * 2
    else:
        b = case[1]
        c = min(b, 2 ** 31)     # real bounds stay within float precision
        row = GRow(IVar("a", -b, b), IVar("b", b, b + 3), IVar("c", -b - 3, -b), FVar("d", -b, b, 8), FVar("e", c, c + 1, 2))
        ents = [([[(-b, b, -b, -b, c), (b, b + 3, -b - 3, b, c + 1), (0, b + 1, -b - 1, b, c)]], "q")]
        names = tuple("abcde")
    stored = write(row, ents, path)
    want = [plain(segs) for segs, _ in stored]
    ids = [i for _, i in stored]
    what = "case %r" % (case,)
    history(names, want, ids, path, [(0, "next")] * (len(want) + 1) + [(1, "next")], what)
    history(names, want, ids, path, [(0, ids[-1]), (1, ids[0]), (0, "next"), (0, ids[len(ids) // 2]), (0, "next"), (1, "next")][:6 if len(ids) > 1 else 3], what)
    return case
