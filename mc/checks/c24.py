"""For every shape type (null, points, lines, polygons, multipoints, their Z and M variants, multipatch), files of 0 to 3 entries
(with a deleted record or not) opened in an editor: every history of up to 3 (two Z points or three polygons: 4; thorough: 5 for all) edits out of deleting each index (also
negative and outside), moving the points of the first shape, adding a point, adding a record, saving; the content of every save is read back with an independent
reader. Files of 129 and 300 (1200) entries: every history of up to 2 (1) edits, deletions around every power of two."""
import io
from mc.core import same, need, refused, scratch, fresh, freeze, Bad
from mc import esri
from coral import shapefile

LEVEL = "model_checking"
FIELDS = (("name", "C", 4, 0), ("v", "N", 5, 1), ("d", "D", 8, 0), ("ok", "L", 1, 0))
RECS = (("abc", 1.5, "20240229", "T"), ("", "", "", ""), ("x y", -20, "19991231", "F"))
ROWS = ((b"abc ", b"  1.5", b"20240229", b"T"), (b"    ", b"     ", b"        ", b" "),
        (b"x y ", None, b"19991231", b"F"))
BLANK = ROWS[1]


def inits(tier):
    out = []
    for t in esri.TYPES:
        for n in range(4):
            for dead in (None, 1):
                if (n > 1 or dead is None) and (t or n < 2):
                    out.append((t, n, dead, 5 if tier == "thorough" else 4 if t == 11 and n == 2 or t == 5 and n == 3 else 3))
    for t in (1, 3, 5, 18):
        for n in (129, 300):
            out += [(t, n, None, 2), (t, n, 128, 2)]
    for t in (1, 5):
        out.append((t, 1200, None, 1))
    return out


def depth(tier):
    return 5 if tier == "thorough" else 4


def rows_equal(got, want, what):
    same(len(got), len(want), what + ": number of records")
    for i, (g, w) in enumerate(zip(got, want)):
        for a, b in zip(g, w):
            if b is None:
                same(float(a), -20, "%s: number in record %d" % (what, i))
            else:
                same(a.strip(), b.strip(), "%s: record %d" % (what, i))


def run(init, hist):
    t, n, dead, limit = init
    fresh()
    cat = esri.catalogue(t)
    chosen = [cat[(i * 2 + 1) % len(cat)] for i in range(n)]      # two real shapes around one more, last may be closed
    if n > 2:
        chosen[1] = cat[0]
    w = shapefile.Writer(t)
    for f in FIELDS:
        w.field(*f)
    for i, s in enumerate(chosen):
        esri.add(w, t, s)
        w.record(*RECS[i % 3])
    w.save(scratch("a"))
    if dead is not None:
        with open(scratch("a.dbf"), "r+b") as f:
            f.seek(33 + 32 * len(FIELDS) + dead * 19)
            f.write(b"*")
    # model: list of (shape or None, row or None) slots; added points and records pair up in order
    shapes = [esri.expected(t, s) for i, s in enumerate(chosen) if i != dead]
    rows = [ROWS[i % 3] for i in range(n) if i != dead]
    before = dict((k, open(scratch("a." + k), "rb").read()) for k in ("shp", "shx", "dbf"))
    e = shapefile.Editor(scratch("a"))
    points = t in esri.POINTS
    added = 0
    for op in hist:
        if op[0] == "delete":
            i = op[1]
            if -len(shapes) <= i < len(shapes):
                e.delete(i)
                i %= len(shapes)
                del shapes[i]
                if i < len(rows):
                    del rows[i]
            else:
                refused(e.delete, "deleting %d of %d" % (i, len(shapes)), i)
        elif op[0] == "move":
            m = e.shape(0)
            m.points = [[p[0] + 1.0, p[1] - 2.0] + list(p[2:]) for p in m.points]
            shapes[0] = dict(shapes[0], points=[(x + 1, y - 2) for x, y in shapes[0]["points"]])
        elif op[0] == "point":
            args = [(7, -8.5), (0, 0, 3, 4)][op[1]]
            e.point(*args)
            shapes.append(esri.expected(t, ("point", args)))
        elif op[0] == "record":
            if op[1] == 0:
                e.record("new", 3, "20000101", "F")
                rows.append((b"new ", b"    3", b"20000101", b"F"))
            else:
                e.record(name="q")
                rows.append((b"q   ",) + BLANK[1:])
        else:
            name = "a" if op[0] == "over" else "b"
            e.save(scratch(name))
            while len(shapes) < len(rows):
                shapes.append(esri.expected(t, ("null",)))
            while len(rows) < len(shapes):
                rows.append(BLANK)
            data = [open(scratch(name + "." + k), "rb").read() for k in ("shp", "shx", "dbf")]
            ftype = t or next((s["type"] for s in shapes if s["type"]), 0)
            esri.conform(data[0], data[1], ftype, shapes)
            f, r, flags = esri.dbf(data[2])
            same(f, [(n_.encode(), k.encode(), s, d) for n_, k, s, d in FIELDS], "fields of the saved file")
            rows_equal(r, rows, "saved file")
            same(flags, [b" "] * len(rows), "deletion flags of the saved file")
            if name == "b" and ("over",) not in hist:
                for k in before:
                    same(open(scratch("a." + k), "rb").read(), before[k], "the original .%s after saving elsewhere" % k)
            rd = shapefile.Reader(scratch(name))
            same([esri.got(s) for s in rd.shapes()], shapes, "shapes of the saved file")
    key = (freeze((e._shapes, e.records, e.fields, e.shapeType)), hist[-1:] if hist and hist[-1][0] in ("save", "over") else (), repr(shapes), repr(rows), len(e.shapes()),
           ("over",) in hist, ("save",) in hist, len(hist) if ("record" in [o[0] for o in hist]) else 0,
           tuple(o for o in hist if o[0] in ("point", "record")))
    ops = [("save",), ("over",), ("delete", 0), ("delete", -1), ("delete", len(shapes))]
    if len(shapes) > 1:
        ops.append(("delete", 1))
    if shapes and shapes[0]["points"] and ("move",) not in hist:
        ops.append(("move",))
    if n > 9:
        ops += [("delete", i) for i in (64, 126, 127, -127, -128, 254, 255, 256, -256)]
    if points:
        ops += [("point", 0), ("point", 1)]
    ops += [("record", 0), ("record", 1)]
    return key, ops if len(hist) < limit else []
