"""All pairs of tables of up to 2x2 (thorough: 3x2) rows over two-valued columns, sharing none, one or two columns, with every
choice of pivots and of 1..all result columns; all tables of up to 3 rows for search, index, added and deleted columns; and the
default join in processes with 8 different hash seeds; joins and the other operations with up to 300 rows or 65 columns, and 5000 rows on either side; a single column
of up to 65 that decides; empty cells in every place; cells that look alike when put together or as text; columns whose names are parts of one another."""
import collections, itertools, os, subprocess, sys
from mc.core import same, need, scratch, fresh, REPO, Bad
from coral import table

LEVEL = "exploration"
RULE = "one case is one table (pair) with one choice of columns; non-trivial: always"
LIMIT = 30

V = ("0", "1")
SHAPES = ((("a", "b"), ("a", "c")), (("a", "b"), ("b", "a")), (("a", "b"), ("a", "b", "c")), (("a",), ("c",)), (("a", "b"), ("c", "b")),
          (("x", "a", "b"), ("a", "b", "y")))
SCRIPT = """
import sys, collections
sys.dont_write_bytecode = True
sys.path.insert(0, %r)
from coral import table
for k1, k2 in (("name pop code uf".split(), "uf code area name".split()), (["a", "b"], ["c", "b"]), (list("abcdef"), list("fedxyz"))):
    R, S = collections.namedtuple("R", k1), collections.namedtuple("S", k2)
    t = table.join([R(*k1), R(*range(len(k1)))], [S(*k2), S(*k2)])
    print([(r._fields, tuple(r)) for r in t])
""" % REPO


def tables(keys, sizes):
    for n in sizes:
        for cells in itertools.product(V, repeat=n * len(keys)):
            yield tuple(cells[i * len(keys):(i + 1) * len(keys)] for i in range(n))


def cases(tier):
    deep = tier != "quick"
    yield ("seeds",)
    for vals in itertools.product(("", "0", None, 0), repeat=3):
        yield ("blank",) + vals
    for vals in itertools.combinations(("", "a", "b", ",", "a,", ",a", "a,b", "a|b", "a b", "a\tb", "'a', 'b'"), 2):
        yield ("mixed",) + vals
    for vals in itertools.combinations((1, "1", 2, "2", None, "None", (1,), "(1,)", b"1", "b'1'", 0, "", 1.5, "1.5"), 2):
        yield ("types",) + vals
    for keys in itertools.permutations(("id", "i", "d", "identity")):
        yield ("alike", keys)
    for n, m, nv in itertools.product((3, 17, 128, 300), (3, 100, 257), (2, 7, 1000)):
        yield ("large", n, m, nv)
    for n in range(4, 17):
        yield ("large", n, 17 - n, 5)
        yield ("large", n, n, 1000)
    yield ("large", 3, 5000, 10 ** 6)
    yield ("large", 5000, 3, 10 ** 6)
    for n in (2, 100, 300, 1000, 5000):
        for at in (0, n // 2, n - 1):
            yield ("far", n, at)
    for nc in (3, 9, 10, 17, 33, 65):
        for at in range(nc):
            yield ("decides", nc, at)
    for nc in (10, 60):
        yield ("columns", nc)
    for i, (k1, k2) in enumerate(SHAPES):
        small = len(k1) + len(k2) > 4
        s1 = (1, 2)
        s2 = (1, 2) if small or not deep else (1, 2, 3)
        if small:
            s1, s2 = ((1, 2), (1, 2)) if deep else ((1,), (1, 2))
        for r1 in tables(k1, s1):
            for r2 in tables(k2, s2):
                yield ("join", i, r1, r2)
    for keys in (("a",), ("a", "b"), ("b", "k", "a")):
        for rows in tables(keys, (1, 2, 3) if len(keys) < 3 or deep else (1, 2)):
            yield ("ops", keys, rows)


def mk(keys, rows):
    Row = collections.namedtuple("Row", keys)
    return [Row(*r) for r in rows]


def plain(rows):
    return [(tuple(r._fields), tuple(r)) for r in rows]


def check(case):
    if case[0] == "seeds":
        outs = set()
        for s in range(8):
            env = dict(os.environ, PYTHONHASHSEED=str(s))
            p = subprocess.run([sys.executable, "-c", SCRIPT], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
            need(p.returncode == 0, "join fails: {}", p.stderr[-300:])
            outs.add(p.stdout)
        need(len(outs) == 1, "joins depend on hash randomisation: {}", outs)
        return len(outs)
    if case[0] == "blank":
        # what is found replaces what was there, whatever it is
        v, w, x = case[1:]
        t1, t2 = mk(("k", "a", "b"), [("1", v, "y"), ("2", "z", v)]), mk(("b", "k", "a", "c"), [(w, "1", x, v), ("n", "1", "n", "n")])
        got = table.join(t1, t2, ["k"])
        same([tuple(getattr(g, k) for k in "kabc") for g in got], [("1", x, w, v), ("2", "z", v, "")], "join with empty cells")
        same([tuple(r) for r in table.addkey(t1, "n", lambda r: r.a)], [("1", v, "y", v), ("2", "z", v, "z")], "a new column of empty cells")
        same({q: tuple(r) for q, r in table.indexby(t1, "k").items()}, {"1": (v, "y"), "2": ("z", v)}, "index with empty cells")
        same([tuple(r) for r in table.delkeys(t1, ["k"])], [(v, "y"), ("z", v)], "empty cells without a column")
        same([tuple(r) for r in table.getall(t1, "a", v)], [r for r in (("1", v, "y"), ("2", "z", v)) if r[1] == v], "rows with an empty cell")
        return case
    if case[0] == "mixed":
        # cells that look alike when put together
        pairs = list(itertools.product(case[1:] + ("b", "a,b", "a"), repeat=2))
        t1, t2 = mk(("k", "l", "x"), [p + ("x%d" % i,) for i, p in enumerate(pairs)]), mk(("y", "l", "k"), [("y%d" % i,) + p[::-1] for i, p in enumerate(pairs[::-1])])
        for piv in (None, ["k", "l"], ["l", "k"]):
            got = table.join(t1, t2, piv)
            same([(g.k, g.l, g.x, g.y) for g in got], [p + ("x%d" % i, "y%d" % pairs[::-1].index(p)) for i, p in enumerate(pairs)], "join of cells that look alike together")
        return case
    if case[0] == "types":
        # cells that look alike as text
        v, w = case[1:]
        t1, t2 = mk(("k", "a"), [(v, "a0"), (w, "a1"), ("z", "a2")]), mk(("b", "k"), [("b0", w), ("b1", v), ("b2", w)])
        for piv in (None, ["k"]):
            same([tuple(getattr(g, c) for c in "kab") for g in table.join(t1, t2, piv)], [(v, "a0", "b1"), (w, "a1", "b0"), ("z", "a2", "")], "join of %r and %r" % (v, w))
        for q, at in ((v, [0]), (w, [1]), ("q", [])):
            same([tuple(r) for r in table.getall(t1, "k", q)], [tuple(t1[i]) for i in at], "rows where k is %r" % (q,))
            got = table.getone(t1, "k", q)
            same(got and tuple(got), tuple(t1[at[0]]) if at else None, "first row where k is %r" % (q,))
        same({q: tuple(r) for q, r in table.indexby(t2, "k").items()}, {v: ("b1",), w: ("b2",)}, "index by %r and %r" % (v, w))
        return case
    if case[0] == "alike":
        keys = case[1]
        rows = [tuple("%s%d" % (k, i) for k in keys) for i in range(3)]
        t = mk(keys, rows)
        for i, k in enumerate(keys):
            got = table.indexby(t, k)
            same({q: (r._fields, tuple(r)) for q, r in got.items()},
                 {r[i]: (keys[:i] + keys[i + 1:], r[:i] + r[i + 1:]) for r in rows}, "index by %s of %r" % (k, keys))
            for r in rows:
                same(tuple(table.getone(t, k, r[i])), r, "row by " + k)
                same(table.getone(t, k, r[i][:-1]), None, "row by part of a value")
        for n in range(4):
            for dels in itertools.combinations(keys, n):
                keep = [i for i, k in enumerate(keys) if k not in dels]
                for d in (list(dels), tuple(dels), set(dels), dict.fromkeys(dels)):
                    same(plain(table.delkeys(t, d)), [(tuple(keys[i] for i in keep), tuple(r[i] for i in keep)) for r in rows],
                         "%r without %r" % (keys, dels))
        o = mk(("idx", "i", "other"), [("x", "i1", "o")])
        got = table.join(t, o)
        same([{k: getattr(g, k) for k in g._fields} for g in got],
             [dict(zip(keys, r), **({"idx": "x", "other": "o"} if j == 1 else {"idx": "", "other": ""})) for j, r in enumerate(rows)], "join by i only")
        return case
    if case[0] == "join":
        (k1, k2), r1, r2 = SHAPES[case[1]], case[2], case[3]
        t1, t2 = mk(k1, r1), mk(k2, r2)
        shared = [k for k in k1 if k in k2]
        allk = list(k1) + [k for k in k2 if k not in k1]
        out = []
        choices = [None] + [list(p) for n in range(1, len(shared) + 1) for p in itertools.permutations(shared, n)]
        for piv in choices:
            sel = [None] + [list(p) for n in range(1, len(allk) + 1) for p in itertools.permutations(allk, n)][:: 1 if len(allk) < 4 else 5]
            for keys in sel:
                got = table.join(t1, t2, piv, keys)
                want = []
                for a in r1:
                    d = dict(zip(k1, a))
                    for b in r2:
                        e = dict(zip(k2, b))
                        if all(d[k] == e[k] for k in (shared if piv is None else piv)):
                            d = dict(d, **e)
                            break
                    want.append(d)
                same(len(got), len(want), "rows of the join")
                for g, d in zip(got, want):
                    if keys is None:
                        same(sorted(g._fields), sorted(allk), "columns of the join")
                    else:
                        same(tuple(g._fields), tuple(keys), "columns of the join")
                    for k in g._fields:
                        same(getattr(g, k), d.get(k, ""), "column %s of a joined row (pivots %r)" % (k, piv))
                out.append(tuple(map(tuple, got)))
                same((plain(t1), plain(t2)), (plain(mk(k1, r1)), plain(mk(k2, r2))), "the joined tables")
        return tuple(out[:2])
    if case[0] == "large":
        _, n, m, nv = case
        k1, k2 = ("id", "a", "b"), ("b", "x", "id")
        r1 = [(str(i), str(i * i % nv), str(i * 3 % nv)) for i in range(n)]
        r2 = [(str(i * 5 % nv), "x%d" % i, str(i * 2)) for i in range(m)]
        t1, t2 = mk(k1, r1), mk(k2, r2)
        for piv in (["b"], ["id"], ["id", "b"], None):
            got = table.join(t1, t2, piv, ["id", "a", "b", "x"])
            for g, a in zip(got, r1):
                f = next((e for e in r2 if ("b" not in (piv or "id b") or e[0] == a[2]) and ("id" not in (piv or "id b") or e[2] == a[0])), None)
                want = a + ("",) if f is None else ((f[2], a[1], f[0], f[1]))
                same(tuple(g), want, "joined row of %r by %r" % (a, piv))
            same(len(got), n, "rows of the join")
        keys, rows = k1, tuple(r1)
        t = t1
        for q in ("0", "1", str(n - 1), "zz") + tuple(str(i) for i in range(2, n)) * (n < 17):
            for i, k in enumerate(keys):
                want = [r for r in rows if r[i] == q]
                got = table.getone(t, k, q)
                same(None if got is None else tuple(got), want[0] if want else None, "first row where %s is %s" % (k, q))
                same([tuple(r) for r in table.getall(t, k, q)], want, "rows where %s is %s" % (k, q))
        for i, k in enumerate(keys):
            same({q: tuple(r) for q, r in table.indexby(t, k).items()}, {r[i]: tuple(v for j, v in enumerate(r) if j != i) for r in rows}, "index by " + k)
        same([tuple(r) for r in table.addkey(t, "new", lambda r: r.id * 2)], [r + (r[0] * 2,) for r in rows], "table with a new column")
        same([tuple(r) for r in table.delkeys(t, ["a"])], [(r[0], r[2]) for r in rows], "table without a column")
        return case
    if case[0] == "far":
        _, n, at = case
        t2 = mk(("k", "v"), [("k%d" % (i if i != at else -1), "v%d" % i) for i in range(n)])
        t1 = mk(("own", "k"), [("a", "k-1"), ("b", "none"), ("c", "k%d" % ((at + 1) % n))])
        got = [tuple(getattr(g, c) for c in ("own", "k", "v")) for g in table.join(t1, t2)]
        same(got, [("a", "k-1", "v%d" % at), ("b", "none", ""), ("c", "k%d" % ((at + 1) % n), "v%d" % ((at + 1) % n))], "join with %d rows" % n)
        return case
    if case[0] == "decides":
        # two rows that differ in one of the shared columns only
        _, nc, at = case
        ks = ["k%d" % i for i in range(nc)]
        a = tuple("v%d" % i for i in range(nc))
        b = tuple("w" if i == at else v for i, v in enumerate(a))
        t1, t2 = mk(ks + ["own"], [a + ("A",), b + ("B",)]), mk(["r"] + ks[::-1], [("RB",) + b[::-1], ("RA",) + a[::-1]])
        for piv in (None, ks, ks[::-1]):
            got = table.join(t1, t2, piv)
            same([[getattr(g, k) for k in ks + ["own", "r"]] for g in got], [list(a + ("A", "RA")), list(b + ("B", "RB"))],
                 "join where column %d of %d decides" % (at, nc))
        return case
    if case[0] == "columns":
        nc = case[1]
        k1, k2 = ["k%d" % i for i in range(nc)], ["k%d" % i for i in range(nc // 2, nc + nc // 2)]
        r1 = [tuple("%d" % (i % 3 + r) for i in range(nc)) for r in range(3)]
        r2 = [tuple("%d" % ((i + nc // 2) % 3 + r) for i in range(nc)) for r in (2, 0)]
        t1, t2 = mk(k1, r1), mk(k2, r2)
        got = table.join(t1, t2)
        for a, g in zip(r1, got):
            d = dict.fromkeys(k2, "")
            d.update(zip(k1, a))
            for b in r2:
                e = dict(zip(k2, b))
                if all(e[k] == d[k] for k in k1 if k in e):
                    d.update(e)
                    break
            same({k: getattr(g, k) for k in g._fields}, d, "row of a wide join")
        same([tuple(r) for r in table.delkeys(t1, k1[::2])], [r[1::2] for r in r1], "every second column")
        return case
    keys, rows = case[1:]
    t = mk(keys, rows)
    for i, k in enumerate(keys):
        for q in V + ("2",):
            want = [r for r in rows if r[i] == q]
            got = table.getone(t, k, q)
            same(None if got is None else tuple(got), want[0] if want else None, "first row where %s is %s" % (k, q))
            got = list(table.getall(t, k, q))
            same([tuple(r) for r in got], want, "rows where %s is %s" % (k, q))
        got = table.indexby(t, k)
        rest = [x for x in keys if x != k]
        same({q: tuple(r) for q, r in got.items()}, {r[i]: tuple(v for j, v in enumerate(r) if j != i) for r in rows},
             "index by " + k)
        for r in got.values():
            same(list(r._fields), rest, "columns of the index by " + k)
    seen = []
    got = list(table.addkey(t, "new", lambda r: (seen.append(r), "".join(r) + "!")[1]))
    same(plain(got), [(keys + ("new",), r + ("".join(r) + "!",)) for r in rows], "table with a new column")
    same([tuple(r) for r in seen], list(rows), "rows handed to the column function")
    for n in range(0, len(keys)):
        for dels in itertools.permutations(keys, n):
            for make in (list, tuple, set):
                got = list(table.delkeys(t, make(dels)))
                keep = [i for i, k in enumerate(keys) if k not in dels]
                same(plain(got), [(tuple(keys[i] for i in keep), tuple(r[i] for i in keep)) for r in rows], "without %r" % (dels,))
    same(list(table.delkeys(t, ["zzz"])), t, "table without a missing column")
    same(plain(t), plain(mk(keys, rows)), "the table itself")
    return (keys, rows)
