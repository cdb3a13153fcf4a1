"""14 ways of writing files (P file, RangeGrid, shapefile by name, to open files and by parts, editor over its own data set, conversion, three raster
canvases, drawing, table, frame, names of a frame), four contents each, of different length (also none): all histories of up to 3 (4)
saves to the same name, over no file, a longer one, a shorter one, and 4 names (blanks, accents, a folder, relative); new objects for each save
or, where an object can be saved again, one object whose content grows, or four objects saved in turn. Other files with similar names lie beside it. After each save
all bytes of the folder are read at once, with the writing objects still in use."""
import itertools, os
from mc.core import same, need, scratch, fresh, Bad
from mc import scripts
from mc.scripts import TRI, FAR, content, given
from coral import bbox, frame, pf, proj, raster, rg, shapefile, table, vector

LEVEL = "exploration"
RULE = "one case is one history of saves of one kind to one name; non-trivial: at least two saves or a file that was there before"
LIMIT = 60


def w_pf(path, k, keep):
    w = pf.Writer(path + ".p", (4, 1, 2, 8)[k])
    ents = [[("a", [TRI]), ("bb", [FAR, TRI])], [], [("c", [[[1, 1]]])], [("name%d" % i, [TRI, FAR]) for i in range(9)]][k]
    for n, p in ents:
        w.write(n, p)
    w.close()
    keep.append(w)
    return [path + ".p"]


def w_rg(path, k, keep):
    w = rg.Writer(path, scripts.grow(k & 1))
    for i in range((1, 0, 2, 7)[k]):
        w.write(scripts.ROWS[k & 1][i & 1], "id%d" % i)
    w.close()
    keep.append(w)
    return [path + ".rg", path + ".md"]


def shp(k):
    w = shapefile.Writer((shapefile.POLYGON, shapefile.POINT, None, shapefile.POLYLINEZ)[k])
    w.field("NAME", "C", (9, 4, 1, 40)[k])
    for i in range((2, 1, 0, 6)[k]):
        if k == 0:
            w.poly([TRI] * (i + 1))
        elif k == 1:
            w.point(i, 4)
        else:
            w.poly([FAR, TRI], shapefile.POLYLINEZ)
        w.record("n%d" % i)
    return w


def w_shp(path, k, keep):
    w = shp(k)
    w.save(path)
    keep.append(w)
    return [path + e for e in (".shp", ".shx", ".dbf")]


def w_parts(path, k, keep):
    w = shp(k)
    w.save(shp=path + ".shp", dbf=path + ".x.dbf")
    w.saveShx(path + ".shx")
    keep.append(w)
    return [path + ".shp", path + ".shx", path + ".x.dbf"]


def w_open(path, k, keep):
    """To files that the caller has opened, with whatever they hold."""
    w = shp(k)
    fs = {}
    for e in ("shp", "shx", "dbf"):
        n = path + "." + e
        fs[e] = open(n, "r+b" if os.path.exists(n) else "w+b")
        if k & 1:
            fs[e].seek(0, 2)
    w.save(**fs)
    for f in fs.values():
        f.flush()
        if len(keep) > 9:
            f.close()
    keep.append((w, fs))
    return [path + e for e in (".shp", ".shx", ".dbf")]


def w_editor(path, k, keep):
    """Over the data set that is there, whatever it was; the result is that of the same edit on prepared files."""
    src = shp((0, 1, 0, 3)[k])
    src.save(path)
    e = shapefile.Editor(path)
    if k == 0:
        e.delete(0)
    elif k == 1:
        e.point(1, 2)
        e.record("z")
    elif k == 3:
        for i in range(5):
            e.delete(-1)
    e.save(path)
    keep.append((src, e))
    return [path + x for x in (".shp", ".shx", ".dbf")]


def w_convert(path, k, keep):
    keep.append(pf.sf2pf(given(k & 1, "y"), path + ".p", lambda r: r[0] * (k + 1), (1, 8, 4, 2)[k]))
    return [path + ".p"]


def _ras(make):
    def w(path, k, keep):
        c = make(((9, 5), (1, 1), (8, 2), (30, 20))[k])
        c.line((0, 0), (4, 3), (1, 1, 1) if isinstance(c, raster.ColorCanvas) else 1)
        c.save(path + ".pnm")
        keep.append(c)
        return [path + ".pnm"]
    return w


def draw(k):
    c = vector.Canvas((None, 1, 0.5, (1, 0, 0))[k])
    for i in range((1, 0, 2, 9)[k]):
        c.addpolygon(TRI, fill=(i / 10, 0, 0), stroke=0)
    if k == 3:
        c.addtext((0, 0), "t", 4, anchor="c")
    return c


def w_vec(path, k, keep):
    c = draw(k)
    c.save(path + ".ps", (None, 10, None, 200)[k], k)
    keep.append(c)
    return [path + ".ps"]


def w_table(path, k, keep):
    import collections
    R = collections.namedtuple("R", "k name")
    t = [R(str(i), "näme" * i) for i in range((2, 1, 3, 12)[k])]
    table.writefile(path + ".csv", t, (None, ["name"], ["name", "k"], None)[k], ",;,,"[k])
    keep.append(t)
    return [path + ".csv"]


def w_frame(path, k, keep):
    p = (proj.Mercator(), proj.EMercator((1.5, 0)), proj.ConicEqualArea((20, 50), 3), proj.Stereographic((-12.345678901, 7.1)))[k]
    f = frame.Frame(p, bbox.BBox((0, 0), (10 ** (k * 4), 1 / 3 if k == 3 else 1)))
    f.save(path + ".json")
    keep.append(f)
    return [path + ".json"]


class _Many:
    def __init__(self, k):
        self.names = ["name %d" % i * (k + 1) for i in range((3, 1, 0, 20)[k])]

    def read(self, i):
        return [[(0, 0), (5, 1), (3, 4)]]


def w_names(path, k, keep):
    f = frame.Frame(proj.Mercator(None, 1), bbox.BBox((-9, -9), (9, 9)))
    keep.append((f, f.cachenames(path, _Many(k))))
    return [path + ".names"]


KINDS = {"pf": w_pf, "rg": w_rg, "shp": w_shp, "open": w_open, "parts": w_parts, "editor": w_editor, "convert": w_convert, "bw": _ras(lambda s: raster.BWCanvas(*s)),
         "gray": _ras(lambda s: raster.GrayCanvas(*s)), "color": _ras(lambda s: raster.ColorCanvas(*s)), "vec": w_vec, "table": w_table,
         "frame": w_frame, "names": w_names}


class Grow:
    """One object, saved again after it got more."""

    def __init__(self, kind):
        self.kind = kind
        if kind == "pf":
            self.o = None
        elif kind == "shp":
            self.o = shapefile.Writer(shapefile.POLYGON)
            self.o.field("NAME", "C", 5)
        elif kind == "vec":
            self.o = vector.Canvas()
        elif kind == "gray":
            self.o = raster.GrayCanvas(9, 6)
        elif kind == "bw":
            self.o = raster.BWCanvas(9, 6)
        elif kind == "frame":
            self.o = frame.Frame(proj.Mercator(), bbox.BBox((0, 0), (1, 1)))

    def add(self, path, k):
        o = self.o
        if self.kind == "pf":
            if o is None:
                o = self.o = pf.Writer(path + ".p", 2)
            for i in range(k):
                o.write("n%d" % i, [TRI, FAR])
        elif self.kind == "shp":
            for i in range(k):
                o.poly([FAR])
                o.record("abc")
        elif self.kind == "vec":
            for i in range(k):
                o.addpolygon(TRI, fill=i / 4)
        elif self.kind == "frame":
            o.bounding = bbox.BBox((0, 0), (10 ** k, 2))
        else:
            for i in range(k):
                o.line((i, 0), (8, 5), 1)

    def save(self, path, k):
        o = self.o
        if self.kind == "pf":
            o.close()
            return [path + ".p"]
        if self.kind == "shp":
            o.save(path)
            return [path + e for e in (".shp", ".shx", ".dbf")]
        if self.kind == "vec":
            o.save(path + ".ps", (None, 50)[k & 1])
            return [path + ".ps"]
        if self.kind == "frame":
            o.save(path + ".json")
            return [path + ".json"]
        o.save(path + ".pnm")
        return [path + ".pnm"]


class Turns:
    """Four objects of different content, each saved when its turn comes."""

    def __init__(self, kind):
        self.kind = kind
        self.o = {}

    def save(self, path, k):
        if self.kind == "pf":
            if not self.o:
                for i in range(4):
                    w = self.o[i] = pf.Writer(path + ".p", (4, 1, 2, 8)[i])
                    for n in range((2, 0, 1, 9)[i]):
                        w.write("n" * n, [TRI] * n + [FAR])
            self.o[k].close()
            return [path + ".p"]
        if not self.o:
            make = dict(shp=shp, vec=draw, gray=lambda i: raster.GrayCanvas(1 + 4 * i, 3, 9 * i), bw=lambda i: raster.BWCanvas(30 - 9 * i, 2, i & 1),
                        color=lambda i: raster.ColorCanvas(1 + i * i, 2, (i, i, 9)),
                        frame=lambda i: frame.Frame(proj.Mercator(), bbox.BBox((0, 0), (10 ** (5 - i), 1))))[self.kind]
            for i in range(4):
                self.o[i] = make(i)
        ext = dict(shp="", vec=".ps", frame=".json").get(self.kind, ".pnm")
        if self.kind == "vec":
            self.o[k].save(path + ext, (None, 9)[k & 1], k)
        else:
            self.o[k].save(path + ext)
        return [path + ext] if ext else [path + e for e in (".shp", ".shx", ".dbf")]


TURNS = ("pf", "shp", "vec", "gray", "bw", "color", "frame")
GROW = ("pf", "shp", "vec", "gray", "bw", "frame")
NAMES = ("d", "d é", "sub/d-v1", "r")       # the last one relative to the working directory
JUNK = (None, b"older, longer content\n" * 2000, b"!")


def cases(tier):
    n = 3 if tier == "quick" else 4
    for mode, kinds in (("new", KINDS), ("grow", GROW), ("turns", TURNS)):
        for kind in kinds:
            for l in range(1, n + 1):
                for h in itertools.product(range(4), repeat=l):
                    for name in range(len(NAMES)) if l < 3 else (0,):
                        for junk in range(len(JUNK)):
                            yield (mode, kind, h, name, junk)


_want = {}


def alone(mode, kind, h, name):
    """Bytes of the last save of a history, by an object of its own under a name never used before."""
    d = scratch("alone")
    os.makedirs(os.path.join(d, "sub"))
    p = os.path.join(d, NAMES[name])
    if name == 3:
        os.chdir(d)
        p = NAMES[name]
    if mode == "new":
        fs = KINDS[kind](p, h[-1], [])
    elif mode == "grow":
        g = Grow(kind)
        for k in h:
            g.add(p, k)
        fs = g.save(p, h[-1])
    else:
        fs = Turns(kind).save(p, h[-1])
    return {os.path.relpath(os.path.join(d, f), d): content(f) for f in fs}


def want(mode, kind, h, name):
    key = (mode, kind, h if mode == "grow" else h[-1], name)
    if key not in _want:
        import shutil
        try:
            _want[key] = alone(mode, kind, h, name)
        finally:
            os.chdir(scratch())
            shutil.rmtree(scratch("alone"), ignore_errors=True)
    return _want[key]


NEAR = {"d": b"neighbour", "d2": b"n2", "d.p~": b"n3", "dd.shp": b"n4", "d.dbf.bak": b"n5", "sub/d": b"n6", "sub/d-v1.old": b"n7", "sub/x.md": b"n8"}


def check(case):
    mode, kind, h, name, junk = case
    for k in (0, 1):
        given(k, "y")
    wants = [want(mode, kind, h[:i + 1], name) for i in range(len(h))]
    d = scratch("work")
    import shutil
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "sub"))
    for n, b in NEAR.items():
        with open(os.path.join(d, n), "wb") as f:
            f.write(b)
    p = os.path.join(d, NAMES[name])
    if JUNK[junk] is not None:
        for n in wants[0]:
            with open(os.path.join(d, n), "wb") as f:
                f.write(JUNK[junk])
    if name == 3:
        os.chdir(d)
        p = NAMES[name]
    try:
        return history(case, wants, d, p)
    finally:
        os.chdir(scratch())


def history(case, wants, d, p):
    mode, kind, h, name, junk = case
    keep = []
    g = Grow(kind) if mode == "grow" else Turns(kind)
    for i, k in enumerate(h):
        if mode == "grow":
            g.add(p, k)
        if mode != "new":
            g.save(p, k)
        else:
            KINDS[kind](p, k, keep)
        have = {os.path.relpath(os.path.join(a, f), d): os.path.join(a, f) for a, ds, fs in os.walk(d) for f in fs}
        same(sorted(have), sorted(list(wants[i]) + list(NEAR)), "files after save %d" % i)
        for n, q in have.items():
            if n in NEAR:
                with open(q, "rb") as f:
                    same(f.read(), NEAR[n], "the other file %s after save %d" % (n, i))
            else:
                same(content(q), wants[i][n], "%s after save %d" % (n, i))
    return (kind, h, len(h) > 1 or junk) if len(h) > 1 or junk else None
