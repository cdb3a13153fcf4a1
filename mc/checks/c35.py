"""All tables of up to 3 columns and 2 rows over a catalogue of 4 values (thorough: 5, and 3 rows of 2 columns) for 7 separators
(incl. blanks and several characters), all ordered column selections on writing and reading, all placements of comment, blank
and commented lines in a file (LF and CRLF, two comment marks), long and non-ASCII values around the reading chunk sizes, and
files without header; tables of up to 70000 rows or 200 columns."""
import collections, itertools
from mc.core import same, need, refused, scratch, fresh
from coral import table

LEVEL = "exploration"
RULE = "one case is one table with one separator, one selection pair, or one decorated file; non-trivial: at least one row"
LIMIT = 4

SEPS = (",", ";", "\t", " ", "|", "::", ", ")
VALS = ("", "a", "b c", "é-1", '"q"')
KEYS = ("id", "Name", "x1", "pop")
NOISE = ("", "# comment", "   ", "  # a,b,c", "#", "# b #c,d, #")


def cases(tier):
    deep = tier != "quick"
    for text in ("", "\n", "# only\n", "\n\n  \n", "#", "   ", "#a\n#b\n\n"):
        yield ("none", text)
    vals = VALS if deep else VALS[:4]
    for sep in SEPS:
        for nc, nr in ((1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (3, 2)) + (((2, 3),) if deep else ()):
            if nc * nr == 6 and not deep and sep not in (",", "\t"):
                vs = vals[:3]
            else:
                vs = vals
            for cells in itertools.product(range(len(vs)), repeat=nc * nr):
                rows = tuple(tuple(vs[i] for i in cells[r * nc:r * nc + nc]) for r in range(nr))
                if all(r[0] for r in rows) and not any(sep in v for r in rows for v in r):
                    yield ("trip", sep, KEYS[:nc], rows)
    # values with pieces of the separator, where the line can still be taken apart
    for sep, vs in (("->", ("", "-", ">", "x-", ">x", "a")), ("::", ("", ":", ":x", "x:", "a")), (", ", ("", ",", "x,", "a")),
                    ("<=>", ("", "<", ">", "=", "x<=", "=>x"))):
        for nc, nr in ((1, 1), (2, 1), (3, 1), (2, 2)):
            for cells in itertools.product(vs, repeat=nc * nr):
                rows = tuple(cells[r * nc:r * nc + nc] for r in range(nr))
                if all(r[0] for r in rows) and all(tuple(sep.join(r).split(sep)) == r for r in rows):
                    yield ("trip", sep, KEYS[:nc], rows)
    for sep in SEPS:
        for nc in (1, 2, 3, 4):
            rows = tuple(tuple("%s%d" % (k, r) for k in KEYS[:nc]) for r in (1, 2))
            for nw in range(1, nc + 1):
                for wk in itertools.permutations(KEYS[:nc], nw):
                    for n in range(1, nw + 1):
                        for rk in itertools.permutations(wk, n):
                            yield ("select", sep, KEYS[:nc], rows, wk, rk)
                    yield ("select", sep, KEYS[:nc], rows, wk, None)
    for n in (1, 2, 3) if deep else (1, 2):
        for spots in itertools.product(range(len(NOISE) + 1), repeat=n + 2):
            for eol in ("\n", "\r\n"):
                for tail in ("", "#t", "  # t,u", ":last", " # t # u", "## t,", "#,#,#"):
                    yield ("noise", n, spots, eol, tail)
    for k in list(range(60, 80)) + list(range(135, 150)) + list(range(8180, 8200)) + [70000]:
        for c in "xé€":
            yield ("long", k, c)
    for nr, nc in itertools.product((1, 2, 9, 10, 11, 127, 128, 255, 256, 257, 1000, 3000), (1, 2, 10, 100, 200)):
        if nr * nc <= 30000:
            yield ("large", nr, nc)
    yield ("large", 70000, 2)
    for rk in (("nope",), ("id", "nope"), ("nope", "id")):
        yield ("absent", rk)


def mk(keys, rows):
    Row = collections.namedtuple("Row", keys)
    return [Row(*r) for r in rows]


def agree(got, keys, rows, what):
    same(len(got), len(rows), what + ": number of rows")
    for g, r in zip(got, rows):
        same(tuple(g._fields), tuple(keys), what + ": columns")
        same(tuple(g), tuple(r), what + ": row")
        for k, v in zip(keys, r):
            same(getattr(g, k), v, what + ": column " + k)


def check(case):
    fresh()
    path = scratch("t.csv")
    kind = case[0]
    if kind == "none":
        with open(path, "w") as f:
            f.write(case[1])
        return refused(table.readfile, "a file without header", path)
    if kind == "trip":
        sep, keys, rows = case[1:]
        t = mk(keys, rows)
        table.writefile(path, t, sep=sep)
        same(t, mk(keys, rows), "the written table")
        agree(table.readfile(path, sep=sep), keys, rows, "table")
        with open(path, "rb") as f:
            text = f.read()
        table.writefile(path, table.readfile(path, sep=sep), None, sep)
        with open(path, "rb") as f:
            same(f.read(), text, "file written again")
        return (keys, rows)
    if kind == "select":
        sep, keys, rows, wk, rk = case[1:]
        t = mk(keys, rows)
        for make in (list, tuple):
            table.writefile(path, t, make(wk), sep)
            want = rk or wk
            got = table.readfile(path, rk and make(rk), sep)
            agree(got, want, [[r[keys.index(k)] for k in want] for r in rows], "selection %r of %r" % (rk, wk))
        return (wk, rk)
    if kind == "noise":
        n, spots, eol, tail = case[1:]
        keys = KEYS[:3]
        rows = [("r%d" % i, "v %d" % i, "") for i in range(n)]
        for comm in ("#", "%%"):
            lines = []
            for i, s in enumerate(spots):
                if s:
                    lines.append(NOISE[s - 1].replace("#", comm))
                if i == 0:
                    lines.append(",".join(keys) + (tail.replace("#", comm) if tail != ":last" else ""))
                elif i <= n:
                    lines.append(",".join(rows[i - 1]) + (tail.replace("#", comm) if tail != ":last" else ""))
            text = eol.join(lines)
            if tail != ":last":
                text += eol
            with open(path, "wb") as f:
                f.write(text.encode("utf8"))
            if comm == "#":
                agree(table.readfile(path), keys, rows, "decorated file")
            agree(table.readfile(path, comm=comm), keys, rows, "decorated file")
            if n < 3 and not any(spots[1:]):
                with open(path, "wb") as f:
                    f.write(eol.join("  %s \t" % l if l and comm not in l else l for l in lines).encode("utf8"))
                agree(table.readfile(path, comm=comm), keys, rows, "indented file")
            agree(table.readfile(path, ["pop2"][:0] + ["x1", "id"], comm=comm), ("x1", "id"), [(r[2], r[0]) for r in rows],
                  "decorated file")
        return (n, spots)
    if kind == "large":
        nr, nc = case[1:]
        keys = ["k%d" % i for i in range(nc)]
        rows = [tuple("%d.%d" % (r, c) if (r + c) % 7 or not c else "" for c in range(nc)) for r in range(nr)]
        t = mk(keys, rows)
        table.writefile(path, t, sep=";")
        agree(table.readfile(path, sep=";"), keys, rows, "large table")
        sel = keys[::-3]
        table.writefile(path, t, sel)
        agree(table.readfile(path, sel[::2]), sel[::2], [[r[keys.index(k)] for k in sel[::2]] for r in rows], "selection of a large table") if (nc - 1) % 3 == 0 else None
        return case
    if kind == "long":
        k, c = case[1:]
        rows = [("a", c * k, "z"), (c * (k + 1), "", "y"), ("last", c, c * k)]
        table.writefile(path, mk(KEYS[:3], rows))
        agree(table.readfile(path), KEYS[:3], rows, "long table")
        return (k, c)
    table.writefile(path, mk(KEYS[:2], [("1", "2")]))
    return refused(table.readfile, "a missing column", path, list(case[1]))
