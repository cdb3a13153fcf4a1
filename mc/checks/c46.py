"""All tables of up to 3 columns and 2 rows (1 column: 3 rows) over a catalogue of 7 texts (empty, shorter and longer than the column
name, with blanks, percent signs and bars, non-ASCII), pairs of 8 unusual column names, all ordered selections of the columns, tables of up to 256 (thorough: 1001) rows with the longest text in any row, tables of up to 300 columns and columns
of up to 5000 characters, printed through a captured stream."""
import collections, contextlib, io, itertools
from mc.core import same, need
from coral import table

LEVEL = "exploration"
RULE = "one case is one table with one selection of columns; non-trivial: all"
KEYS = ("id", "Name", "x")
VALS = ("", "a", "b c ", "São Tomé", "%d %s%%", "| x |", "  long long value  ")


def cases(tier):
    deep = tier != "quick"
    for n in (3, 5, 7, 8, 9, 10, 11, 16, 20, 21, 25, 26, 32, 33, 50, 51, 64, 65, 99, 100, 101) + ((127, 128, 129, 200, 255, 256, 257, 1000, 1001) if deep else (200, 256)):
        for at in range(n) if n < 70 else (0, 1, n // 2, n - 2, n - 1):
            for col in range(3):
                yield (KEYS, (n, at, col), None)
                yield (KEYS, (n, at, col), KEYS[::-1][:2])
    for nc, w in ((1, 79), (1, 80), (1, 200), (1, 1000), (1, 5000), (2, 300), (9, 9), (10, 20), (30, 3), (100, 12), (255, 2), (300, 1)):
        for way in (1, -1):
            ks = tuple("c%d" % i for i in range(nc))
            yield (ks, tuple(tuple("%s%d" % ("ab"[r] * ((w * (i + 1 - r)) // (i + 1)), i) for i in range(nc)) for r in (0, 1))[::way], None)
            yield (ks, tuple(tuple("%s%d" % ("é" * w, i) for i in range(nc)) for r in (0, 1)), ks[::-way])
    odd = ("a_b", "ñandú_É", "N1", "long_column_name", "if_", "a__", "A", "a")
    for ks in itertools.permutations(odd, 2):
        for rows in ((("1", "22"),), (("a_b", "%(a)s"), ("", "long_column_name 2"))):
            yield (ks, rows, None)
            yield (ks, rows, ks[1:])
    for nc, nr in ((1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (3, 1)) + (((3, 2),) if deep else ()):
        vals = VALS if nc * nr < 4 or deep and nc * nr < 6 else VALS[:5] if nc * nr < 6 else VALS[2:6]
        for cells in itertools.product(vals, repeat=nc * nr):
            rows = tuple(cells[r * nc:r * nc + nc] for r in range(nr))
            yield (KEYS[:nc], rows, None)
            for n in range(1, nc + 1):
                for ks in itertools.permutations(KEYS[:nc], n):
                    yield (KEYS[:nc], rows, ks)


def expand(n, at, col):
    """n rows, the longest text of the column in row `at`."""
    rows = [["r%d" % i, "%d" % (i * i), "x" * (i % 3)] for i in range(n)]
    rows[at][col] = "the longest text of all"
    return tuple(map(tuple, rows))


def check(case):
    keys, rows, sel = case
    if isinstance(rows[0], int):
        rows = expand(*rows)
    Row = collections.namedtuple("Row", keys)
    t = [Row(*r) for r in rows]
    before = list(t)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        if sel is None:
            table.pprint(t)
        else:
            table.pprint(t, list(sel) if len(rows) % 2 else sel)
    same(t, before, "the printed table")
    text = out.getvalue()
    need(text.endswith("\n"), "the last line is not ended: {!r}", text)
    lines = text.split("\n")[:-1]
    same(len(lines), len(rows) + 2, "number of lines of %r" % text)
    cols = sel or keys
    want = [cols] + [None] + [tuple(r[keys.index(k)] for k in cols) for r in rows]
    widths = [max(len(w[i]) for w in want if w) for i in range(len(cols))]
    for line, w in zip(lines, want):
        same(len(line), sum(widths) + 3 * (len(cols) - 1), "length of line %r" % line)
        at = 0
        for i, n in enumerate(widths):
            cell = line[at:at + n]
            same(cell, "-" * n if w is None else w[i].ljust(n), "cell of line %r" % line)
            at += n
            if i < len(cols) - 1:
                same(line[at:at + 3], "-+-" if w is None else " | ", "border in line %r" % line)
                at += 3
    return text
