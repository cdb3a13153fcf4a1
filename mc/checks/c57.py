"""Seven kinds of files with a reader (P file, RangeGrid, shapefile by its parts, shapefile in an editor, frame, names of a frame, table), five contents
each, chosen so that several have the same length but another layout (columns, lengths, names or fields in the other order): all
histories of 2 (thorough: 3) steps and two closing ones; a step writes one content at one of two places of the same base name, in place or by moving a
new file there, or swaps the two places, or takes one away; all files bear the same time stamp. After each step every file that is there is opened
afresh - by its absolute name, or by a name relative to the folder the process is in - and read in every way, and what was
returned is spoiled afterwards; what was taken away must be refused."""
import itertools, os
from mc.core import same, need, refused, scratch, fresh
from coral import bbox, frame, grid, pf, proj, rg, shapefile, table

LEVEL = "exploration"
RULE = "one case is one history of writing, moving, removing and reading files; non-trivial: a file is read at a place where another one was read before"
A, B, C = [(1, 1), (2, 1), (2, 2)], [(5, 5), (7, 5), (7, 8), (5, 8)], [(-3, 0), (0, 0), (0, -4)]


# every kind: extensions, contents, write(path, k), look(path) -> plain data, want(k)
def w_pf(path, k):
    w = pf.Writer(path + ".p", 8 if k < 4 else 4)
    for name, polys in P[k]:
        w.write(name, polys)
    w.close()


P = ([("a", [A]), ("bc", [B, C])], [("bc", [B, C]), ("a", [A])], [("a", [B, C]), ("bc", [A])], [("x", [C])], [("a", [C]), ("bc", [A, B])])


def l_pf(path):
    r = pf.Reader(path + ".p")
    ents = [r.read(i) for i in range(len(r))]
    by = [(n, r.get(n)) for n in sorted(r.names)]
    names = list(r.names)
    r.close()
    plain = lambda polys: [[(round(x, 2), round(y, 2)) for x, y in poly] for poly in polys]
    out = names, [plain(e) for e in ents], [(n, plain(e)) for n, e in by]
    for e in ents:
        for poly in e:
            poly.reverse()
        e.append([])
    return out


def m_pf(k):
    ents = [[[(float(x), float(y)) for x, y in p] for p in polys] for _, polys in P[k]]
    names = [n for n, _ in P[k]]
    return names, ents, sorted(zip(names, ents))


N, M = grid.IVar("n", 0, 200), grid.IVar("m", 0, 200)
R = ((("n", "m"), (("a", [[(1, 2)], [(3, 4), (5, 6)]]), ("b", [[(7, 8)]]))),
     (("m", "n"), (("a", [[(1, 2)], [(3, 4), (5, 6)]]), ("b", [[(7, 8)]]))),
     (("n", "m"), (("b", [[(1, 2), (3, 4)], [(5, 6)]]), ("a", [[(7, 8)]]))),
     (("n",), (("a", [[(9,)]]),)),
     (("n", "m"), (("a", [[(1, 2)]]), ("b", [[(3, 4)], [(5, 6), (7, 8)]]))))


def w_rg(path, k):
    cols, ents = R[k]
    w = rg.Writer(path, grid.GRow(*({"n": N, "m": M}[c] for c in cols)))
    for i, segs in ents:
        w.write(segs, i)
    w.close()


def l_rg(path):
    r = rg.Reader(path)
    row = lambda t: (t._fields, tuple(t))
    plain = lambda segs: [[row(t) for t in seg] for seg in segs]
    ids = [i for i, _ in r.index]
    seq = [r.read() for _ in ids]
    by = [(i, plain(r.read(i))) for i in sorted(ids)]
    r.close()
    out = ids, [plain(s) for s in seq], by
    for s in seq:
        s.reverse()
        s.append(None)
    return out


def m_rg(k):
    cols, ents = R[k]
    segs = [[[(cols, row) for row in seg] for seg in s] for _, s in ents]
    return [i for i, _ in ents], segs, sorted(zip((i for i, _ in ents), segs))


# (type, [lines], fields, records, extensions kept)
F1, F2 = ("a", "N", 3, 0), ("b", "C", 5, 0)
S = ((3, (A, B), (F1, F2), ((1, "x"), (2, "yy")), "shp shx dbf"),
     (3, (B, A), (F2, F1), (("x", 1), ("yy", 2)), "shp shx dbf"),
     (3, (B, A), (F1, F2), ((2, "x"), (1, "yy")), "shp dbf"),
     (3, (A, C, C), (F1,), ((7,), (8,), (9,)), "shp shx dbf"),
     (13, (A, B), (F1, F2), ((3, "x"), (4, "yy")), "shp shx dbf"))


def w_shp(path, k):
    typ, lines, fields, recs, keep = S[k]
    for e in ("shp", "shx", "dbf"):
        if os.path.exists(path + "." + e):
            os.unlink(path + "." + e)
    w = shapefile.Writer(typ)
    for f in fields:
        w.field(*f)
    for l, r in zip(lines, recs):
        w.poly([l], typ)
        w.record(*r)
    w.save(path)
    for e in ("shp", "shx", "dbf"):
        if e not in keep:
            os.unlink(path + "." + e)


def _pts(s):
    return [tuple(p)[:2] for p in s.points]


def l_shp(path):
    r = shapefile.Reader(path)
    n = r.numRecords
    one = [_pts(r.shape(i)) for i in range(n)]
    shapes = r.shapes()
    recs = r.records()
    out = ([_pts(s) for s in shapes], one, [_pts(s) for s in r.iterShapes()], [list(x) for x in recs], [r.record(i) for i in range(n)],
           [(_pts(x.shape), x.record) for x in r.shapeRecords()], [list(f) for f in r.fields[1:]], r.shapeType, [float(v) for v in r.bbox])
    for f in (r.shp, r.shx, r.dbf):
        if f:
            f.close()
    for x in shapes:
        x.points.append((0, 0))
    for x in recs:
        x.reverse()
    r.fields.append(("z", "C", 1, 0))
    return out


def l_edit(path):
    e = shapefile.Editor(path)
    e.delete(0)
    e.poly([C], e.shapeType)
    e.record(*([5] if len(e.fields) == 2 else [6, "q"] if e.fields[1][0] == "a" else ["q", 6]))
    e.save(scratch("other"))
    return [_pts(s) for s in e.shapes()], [list(r) for r in e.records], [list(r) for r in shapefile.Reader(scratch("other")).records()]


def m_shp(k):
    typ, lines, fields, recs, keep = S[k]
    lines = [[(float(x), float(y)) for x, y in l] for l in lines]
    recs = [list(r) for r in recs]
    xs, ys = [x for l in lines for x, _ in l], [y for l in lines for _, y in l]
    return (lines, lines, lines, recs, recs, list(zip(lines, recs)), [list(f) for f in fields], typ, [min(xs), min(ys), max(xs), max(ys)])


def m_edit(k):
    typ, lines, fields, recs, keep = S[k]
    lines = [[(float(x), float(y)) for x, y in l] for l in lines[1:] + (C,)]
    recs = [list(r) for r in recs[1:]] + [[5] if len(fields) == 1 else [6, "q"] if fields[0] == F1 else ["q", 6]]
    return lines, recs, recs


FR = (("Mercator", (10, 20), 1000, (1, 2, 3, 4)), ("Mercator", (20, 10), 1000, (1, 2, 3, 4)), ("Mercator", (10, 20), 2000, (1, 2, 3, 5)),
      ("ConicEqualArea", (20, 40), 1000, (1, 2, 3, 4)), ("EMercator", (10, 20), None, (1, 2, 3, 4)))


def w_frame(path, k):
    name, c, r, (x0, y0, x1, y1) = FR[k]
    frame.Frame(getattr(proj, name)(c, r) if r else getattr(proj, name)(c), bbox.BBox((x0, y0), (x1, y1))).save(path + ".f")


def l_frame(path):
    f = frame.load(path + ".f")
    p, b = f.projection, f.bounding
    c = (p.lat1, p.lat2) if isinstance(p, proj.CProj) else (p.lon0, p.lat0)
    out = type(p).__name__, [round(v * 180 / 3.141592653589793, 6) for v in c], None if isinstance(p, proj.EProj) else p.r, (b.x0, b.y0, b.x1, b.y1)
    b.x0 = 77
    p.r = 5
    return out


def m_frame(k):
    name, c, r, b = FR[k]
    return name, [float(v) for v in c], r, b


NM = (("ab", "c"), ("c", "ab"), ("x", "yz"), (), ("ab", "c", "d"))


def w_names(path, k):
    w = pf.Writer(scratch("src.p"), 4)
    for n in NM[k]:
        w.write(n, [A])
    w.write("far", [[(-100, -50), (-101, -50), (-101, -51)]])
    w.close()
    r = pf.Reader(scratch("src.p"))
    same(FRAME.cachenames(path, r), len(NM[k]), "number of names kept")
    r.close()


FRAME = frame.Frame(proj.Mercator((0, 0), 1), bbox.BBox((-.1, -.1), (.1, .1)))


def l_names(path):
    out = FRAME.loadnames(path)
    copy = list(out)
    out.append("spoilt")
    return copy


T = ((("a", "b"), (("1", "2"), ("3", "4"))), (("b", "a"), (("1", "2"), ("3", "4"))), (("a", "b"), (("3", "4"), ("1", "2"))),
     (("a",), (("9",),)), (("a", "b", "c"), (("1", "2", "5"),)))


def w_table(path, k):
    keys, rows = T[k]
    Row = table.collections.namedtuple("Row", keys)
    table.writefile(path + ".t", [Row(*r) for r in rows])


def l_table(path):
    t = table.readfile(path + ".t")
    u = table.readfile(path + ".t", ["a"])
    out = [(r._fields, tuple(r)) for r in t], [(r._fields, tuple(r)) for r in u]
    t.reverse()
    u.append(None)
    return out


def m_table(k):
    keys, rows = T[k]
    return [(keys, r) for r in rows], [(("a",), (r[keys.index("a")],)) for r in rows]


KINDS = {
    "pf": ((".p",), w_pf, l_pf, m_pf), "rg": ((".rg", ".md"), w_rg, l_rg, m_rg), "shp": ((".shp", ".shx", ".dbf"), w_shp, l_shp, m_shp),
    "edit": ((".shp", ".shx", ".dbf"), w_shp, l_edit, m_edit), "frame": ((".f",), w_frame, l_frame, m_frame),
    "names": ((".names",), w_names, l_names, lambda k: list(NM[k])), "table": ((".t",), w_table, l_table, m_table),
}
PLACES = ("d0/x", "d1/x")


def steps():
    for k in range(5):
        for p in (0, 1):
            for how in ("in place", "moved"):
                yield "write", k, p, how
    yield ("swap",)
    yield "gone", 0
    yield "gone", 1


def cases(tier):
    n = 3
    for kind in KINDS:
        for naming in ("absolute", "relative"):
            for hist in itertools.product(list(steps()), repeat=n - 1 if tier == "quick" else n):
                if hist[0][0] != "write" or hist[0][2]:
                    continue            # the places are alike: begin at the first
                yield kind, naming, hist


def _move(exts, a, b):
    for e in exts:
        if os.path.exists(a + e):
            os.replace(a + e, b + e)
        elif os.path.exists(b + e):
            os.unlink(b + e)


def _read(kind, naming, state, what):
    exts, _, look, model = KINDS[kind]
    home = os.getcwd()
    for p, k in enumerate(state):
        name = scratch(PLACES[p])
        for e in exts:
            if os.path.exists(name + e):
                os.utime(name + e, (10 ** 9, 10 ** 9))
        if naming == "relative":
            d, name = os.path.split(name)
            os.chdir(d)
        try:
            if k is None:
                if kind != "edit":      # an editor without a file starts a new one
                    refused(lambda: look(name), "%s: reading what was taken away", what)
            else:
                same(look(name), model(k), "%s: what is read at place %d" % (what, p))
        finally:
            os.chdir(home)


def check(case):
    kind, naming, hist = case
    fresh()
    exts, write, look, model = KINDS[kind]
    for d in ("d0", "d1"):
        os.mkdir(scratch(d))
    state = [None, None]
    read = 0
    # after the given steps, every content once more at the first place
    for i, step in enumerate(hist + (("write", 1, 0, "in place"), ("write", 0, 0, "moved"))):
        what = "%s by %s names, %r, step %d" % (kind, naming, hist, i + 1)
        if step[0] == "write":
            _, k, p, how = step
            if how == "in place":
                write(scratch(PLACES[p]), k)
            else:
                write(scratch("new"), k)
                _move(exts, scratch("new"), scratch(PLACES[p]))
            read += state[p] is not None
            state[p] = k
        elif step[0] == "gone":
            for e in exts:
                if os.path.exists(scratch(PLACES[step[1]]) + e):
                    os.unlink(scratch(PLACES[step[1]]) + e)
            state[step[1]] = None
        else:
            _move(exts, scratch(PLACES[0]), scratch("tmp"))
            _move(exts, scratch(PLACES[1]), scratch(PLACES[0]))
            _move(exts, scratch("tmp"), scratch(PLACES[1]))
            state.reverse()
        _read(kind, naming, state, what)
    return (kind, naming, read) if read else None
