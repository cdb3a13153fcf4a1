"""Short programs, one for each class and family of functions, written as generators: each step makes one call and yields what it
shows. Ctx gives every instance its own files, keeps snapshots of what is handed in, and can spoil what was handed in or out."""
import array, os
from mc.core import freeze, Bad, scratch
from mc import tq

T = tq.load()                       # coral.tqdm bound to the fake clock
from coral import bbox, coord, frame, gradient, grid, names, pf, proj, raster, rg, shapefile, stats, table, vector  # noqa: E402


class Ctx:
    def __init__(self, tag, shared=None, rep=list):
        self.tag, self.rep = tag, rep
        self.shared = shared                    # arguments shared with another instance, by key
        self.args, self.out = [], []

    def path(self, name=""):
        d = scratch(self.tag)
        os.makedirs(d, exist_ok=True)
        return os.path.join(d, name)

    def a(self, make, lazy=False):
        """An argument: make() gives it. It must stay as it is, and, unless it is used lazily, may be spoilt once the step is over."""
        if self.shared is not None:
            k = len(self.args)
            if k not in self.shared:
                self.shared[k] = make()
            x = self.shared[k]
        else:
            x = make()
        self.args.append([x, freeze(x), not lazy])
        return x

    def pts(self, l, lazy=False):
        """Points as an argument: a list of points, or of lists of points, the points lists or tuples."""
        return self.a(lambda: deep(l, self.rep), lazy)

    def r(self, x):
        """A result that belongs to the caller."""
        s = freeze(x)
        self.out.append(x)
        return s

    def settled(self):
        for x, s, live in self.args:
            if live is not None and freeze(x) != s:
                raise Bad("an argument was changed: %r" % (x,))

    def spoil(self, args, results):
        """Changes everything handed in or out so far."""
        for e in self.args:
            if args and e[2]:
                ruin(e[0])
                e[2] = None
        if results:
            for x in self.out:
                ruin(x)
        self.out = []


def deep(l, rep):
    return rep(l) if not isinstance(l[0], (list, tuple)) else [deep(x, rep) for x in l]


def ruin(o):
    if isinstance(o, tuple):
        for x in o:
            ruin(x)
    elif isinstance(o, list):
        for x in o:
            ruin(x)
        for i, x in enumerate(o):
            if isinstance(x, (int, float)) and not isinstance(x, bool):
                o[i] = -77.5
            elif isinstance(x, str):
                o[i] = "ruined"
        o.reverse()
        if o:
            o.append(o.pop(0))
        del o[1:2]
        o.append("junk")
    elif isinstance(o, dict):
        for x in o.values():
            ruin(x)
        o.clear()
        o["junk"] = "junk"
    elif isinstance(o, (array.array, bytearray)):
        for i in range(len(o)):
            o[i] = 1
        o.append(1)
    elif isinstance(o, set):
        o.clear()
    elif type(o).__name__ in ("_Shape", "_ShapeRecord"):
        for x in list(vars(o).values()):
            ruin(x)
        vars(o).clear()


def content(path):
    with open(path, "rb") as f:
        b = f.read()
    if path.endswith(".dbf"):
        b = b[:1] + b"..." + b[4:]       # the date
    return b


TRI = [[0, 0], [40, 10], [20, 50], [5, 30]]
FAR = [[-60.5, -10.25], [-55, -12], [-57, -3.5], [-60.5, -10.25]]
V = lambda v, a, b: a if v == 0 else b      # noqa: E731


def s_buffer(c, v):
    b = coord.Buffer(V(v, 4, 2))
    yield str(b)
    b.push(c.tag)
    yield str(b).replace(c.tag, "tag")
    b.push(V(v, 5, (1, 2)))
    yield repr(b), b.isfull()
    yield b.shift() == c.tag
    yield b.peek()
    yield b.pop(), b.isempty()


def s_simplify(c, v):
    xys = c.pts(V(v, [[0, 0], [1, 0], [1, 1], [1, 2], [3, 2], [1, 2], [0, 2], [0, 5]], [[0.4, 0], [9, 0], [9, 7], [4, 4], [4, 7], [0, 7]]), True)
    o = coord.simplify(iter(xys), V(v, 1, 2), closed=False, k=2)
    yield None
    yield c.r(next(o))
    yield c.r(next(o))
    z = coord.simplify(xys[:], V(v, 1, 2), closed=True)
    yield c.r(next(z))
    yield c.r(list(o))
    yield c.r(list(z))


def s_gradient(c, v):
    g = gradient.Gradient(c.a(lambda: V(v, [(0.8, (1, 0, 0)), (0.2, (0, 0.5, 1))], [(0.5, (1, 1, 1))])))
    yield None
    yield c.r(g.get(0.5))
    yield g.get_hex(V(v, 0.8, 0.1))
    yield c.r(g.get(0)), c.r(g.get(1))
    yield c.r(gradient.heat.get(V(v, 0.3, 0.6)))


def grow(v):
    return V(v, lambda: grid.GRow(grid.IVar("n", -3, 9, True), grid.SVar("t", 5)),
             lambda: grid.GRow(grid.FVar("lon", -180, 180, 4), grid.FVar("lat", -90, 90, 4)))()


ROWS = ([[[(1, "a"), (None, "bcd")], [(9, "")]], [[(-3, "x")]], [[(0, "toolong")]]],
        [[[(0.5, 7), (-180, 90)]], [[(1, 2), (3, 4)], [(5, 6)]], [[(400, 0)]]])


def s_rgwriter(c, v):
    w = rg.Writer(c.path("d"), grow(v))
    yield None
    w.write(c.a(lambda: deep(ROWS[v][0], list)), "first")
    yield None
    try:
        w.write(c.a(lambda: deep(ROWS[v][2], list)))
        yield "accepted"
    except Exception:
        yield "refused"
    w.write(c.a(lambda: deep(ROWS[v][1], tuple)))
    yield None
    w.close()
    yield content(c.path("d.rg")), content(c.path("d.md"))
    r = rg.Reader(c.path("d"))
    yield c.r(r.read()), c.r(r.read(1)), c.r(r.read("first"))


def s_rgreader(c, v):
    r = rg.Reader(given(v, "rg"))
    yield c.r(r.read())
    yield c.r(r.read("b"))
    yield c.r(r.read("first"))
    yield c.r(r.read())
    yield c.r(r.read("b"))
    r.close()
    yield None


ENT = ([("a", [FAR]), ("b", [TRI, [[1, 1], [2, 1], [2, 2]]])], [("x", [[[190, 0], [200, 5], [195, 9]]]), ("", [[[7, 7]]])])


def s_pfwriter(c, v):
    w = pf.Writer(c.path("d.p"), V(v, 4, 2))
    yield None
    w.write(ENT[v][0][0], c.pts(ENT[v][0][1]))
    yield None
    w.write(ENT[v][1][0], c.pts(ENT[v][1][1]))
    yield None
    yield c.r(w.close())
    yield content(c.path("d.p"))
    r = pf.Reader(c.path("d.p"))
    yield c.r(r.read(1)), c.r(r.get(ENT[v][0][0]))


def s_pfreader(c, v):
    r = pf.Reader(given(v, "p"))
    yield len(r)
    yield c.r(r.read(1))
    yield c.r(r.get(ENT[v][0][0]))
    yield c.r(r.read(0))
    yield c.r(r.get(ENT[v][1][0]))
    r.close()
    yield None


def s_shpwriter(c, v):
    w = shapefile.Writer(V(v, shapefile.POLYGON, None))
    w.field("NAME", "C", 12)
    w.field("N", "N", V(v, 5, 8), V(v, 0, 2))
    yield None
    if v:
        w.point(1.5, -2)
        w.record(N=2.5, NAME="p")
    else:
        w.poly(c.pts([TRI, FAR]))
        w.record("tri", 77)
    yield c.r(w.bbox())
    if v:
        w.null()
        w.record("none", 0)
    else:
        w.poly(parts=c.pts([FAR]))
        w.record("far", -5)
    yield None
    w.save(c.path("d"))
    yield [content(c.path("d" + e)) for e in (".shp", ".shx", ".dbf")]
    r = shapefile.Reader(c.path("d"))
    yield c.r(r.shapeRecord(0)), c.r(r.records())


Z = [[1, 2, 3, 4], [5, 6], [7, 8, 9], [1, 2, 0, 1]]


def s_shpz(c, v):
    w = shapefile.Writer(V(v, shapefile.POLYLINEZ, shapefile.MULTIPATCH))
    w.field("D", "D", "8")
    w.poly(c.pts([Z, FAR]), V(v, shapefile.POLYLINEZ, shapefile.MULTIPATCH), c.a(lambda: [2, 0]))
    yield c.r(w.zbox()), c.r(w.mbox())
    w.record(V(v, "20140203", "19991231"))
    w.poly(c.pts([Z[1:]]), V(v, shapefile.POLYLINEZ, shapefile.MULTIPATCH))
    w.record("")
    yield c.r(w.bbox()), c.r(w.zbox())
    w.save(c.path("z"))
    yield [content(c.path("z" + e)) for e in (".shp", ".shx", ".dbf")]
    r = shapefile.Reader(c.path("z"))
    yield c.r(r.shapeRecords()), c.r(r.shape(0))
    yield c.r(r.shape(0)), c.r(r.record(0)), c.r(r.record(0))


def s_shpreader(c, v):
    r = shapefile.Reader(given(v, "s"))
    yield c.r(r.shape(1))
    yield c.r(r.record(0))
    yield c.r(r.shapes())
    yield c.r(r.shapeRecords())
    yield c.r(r.shape(1)), c.r(r.record(-1)), c.r(r.records())
    s = r.shape(0)
    s.points[0][0] = 1e6
    yield c.r(r.shape(0)), freeze(list(r.fields))


def s_shpiter(c, v):
    r = shapefile.Reader(given(v, "s"))
    a, b = r.iterShapes(), r.iterRecords()
    yield c.r(next(a))
    yield c.r(next(b))
    yield c.r(next(b))
    yield c.r(next(a))
    r.load(given(1 - v, "s"))
    yield c.r(r.shape(0)), c.r(r.record(1))


def s_editor(c, v):
    e = shapefile.Editor(given(v, "s"))
    yield None
    e.delete(V(v, 0, 1))
    yield None
    if v:
        e.point(9, 8)
    else:
        e.poly(c.pts([FAR]), shapefile.POLYGON)
    yield None
    e.record("new", 4)
    yield None
    e.save(c.path("e"))
    yield [content(c.path("e" + x)) for x in (".shp", ".shx", ".dbf")]


def s_canvas(c, v):
    k = vector.Canvas(V(v, None, (0, 1, 0)))
    yield None
    k.setwidth(V(v, 2, 0.5))
    k.setdash(c.a(lambda: V(v, [3, 1], [])))
    yield None
    k.addpolygon(c.pts(TRI), fill=V(v, (1, 0, 0), 0.5), stroke=V(v, 0, 0.5))
    yield None
    k.addpolyline(c.pts(FAR), stroke=0.5)
    yield None
    k.addtext((3, V(v, 4, 5)), "te(xt", 8, anchor=V(v, "c", "tr"))
    yield freeze(k.bbox)
    k.save(c.path("o.ps"))
    yield content(c.path("o.ps"))


def s_figures(c, v):
    k = vector.Canvas()
    k.addcircle((V(v, 3, -3), 4), 5, stroke=(0, 0, 1))
    yield None
    k.addroundedpolygon(c.pts(TRI), 2, fill=V(v, 0, (0, 0, 0)))
    yield None
    k.addimage(c.a(lambda: array.array("B", range(12))), 4, (V(v, 0, 9), 7), 2, color=False)
    yield None
    k.addimage(c.a(lambda: bytearray(range(12))), 2, None, 1, color=True)
    yield None
    k.save(c.path("o.ps"), V(v, 100, None), 3)
    yield content(c.path("o.ps"))


def s_copies(c, v):
    k = vector.Canvas(V(v, 1, None))
    k.addpolygon(c.pts(TRI), fill=0)
    yield None
    k2 = k.copy()
    yield freeze(k2.bbox)
    k2.addpolyline(c.pts(FAR), stroke=V(v, 0, 0.25))
    k2.setwidth(3)
    yield None
    k.addtext((0, 0), "x", V(v, 9, 8))
    yield freeze(k.bbox), freeze(k2.bbox)
    k2.resetbbox()
    k2.addcircle((0, 0), 1, 0, 1)
    yield None
    k.save(c.path("1.ps"))
    k2.save(c.path("2.ps"), margin=2)
    yield content(c.path("1.ps")), content(c.path("2.ps"))


def _raster(make, col):
    def s(c, v):
        k = make(v)
        yield None
        col0, col1 = col
        scans = k.scanpolygon(c.pts([[1, 1], [V(v, 8, 5), 2], [4, 6]]))
        yield None
        scans = k.scanpolygon(c.pts([[2, 2], [3, 5], [5, 4]]), scans)
        k.fillpolygons(scans, c.a(lambda: col0))
        yield k[3, 3], c.r(k[4, 3])
        k.line(c.a(lambda: (0, V(v, 0, 3))), (8, 4), col1)
        yield None
        k.strokepolygon(c.pts([[0, 0], [7, 1], [6, V(v, 5, 3)]]), col1)
        yield c.r(k[7, 1])
        k[2, 0] = col0
        k.save(c.path("i.pnm"))
        yield content(c.path("i.pnm"))
    return s


s_bw = _raster(lambda v: raster.BWCanvas(V(v, 11, 9), 7, V(v, 0, 1)), (1, 0))
s_gray = _raster(lambda v: raster.GrayCanvas(V(v, 11, 9), 7, V(v, 200, 0)), (90, 10))
s_color = _raster(lambda v: raster.ColorCanvas(V(v, 11, 9), 7, V(v, (255, 250, 0), (0, 0, 0))), ((1, 2, 3), (9, 200, 77)))


def s_tqdm(c, v):
    tq.NOW[0] = 1000.0
    f = tq.Stream()
    it = T.tqdm(c.a(lambda: V(v, [5, [6], 7], [1, 2, 3, 4]), True), V(v, "d", ""), None, V(v, True, False), f, 0)
    yield None
    yield freeze(next(it)), f.text
    yield freeze(next(it)), f.text
    yield freeze(next(it)), f.text
    yield freeze(list(it)), f.text


def _proj(cls, v0, v1):
    def s(c, v):
        k = getattr(proj, cls)(*c.a(lambda: V(v, v0, v1)))
        yield None
        yield k.geo2rect(V(v, 12, -40), V(v, 30, 10))
        yield k.rect2geo(*k.geo2rect(5, 6))
        yield k.geo2rect(-3, 8)
    return s


ELL = proj.Ellipsoid(2.0, 1.6, 0.6, 0.2)
PROJ = {n: _proj(n, ((10, 20),), ((-30, 40), 3)) for n in ("Mercator", "TransMercator", "ObliqMercator", "EckertIV", "Stereographic",
        "AzimuthalEquidistant", "AzimuthalEqualArea", "ConicEqualArea")}
PROJ["EMercator"] = _proj("EMercator", ((10, 0),), ((-30, 0), ELL))


def s_frame(c, v):
    f = frame.Frame(proj.Mercator((V(v, 0, 10), 0), V(v, 1, 57)), bbox.BBox((-2, -2), (2, V(v, 2, 100))))
    yield c.r(f.point(0.01, c.a(lambda: (12, 3))))
    p = f.planify(0.01, c.pts(TRI, True))
    yield c.r(next(p))
    f.save(c.path("f.json"))
    yield content(c.path("f.json"))
    yield c.r(list(p))
    yield f.cachenames(c.path("k"), pf.Reader(given(v, "p")))
    g = frame.load(c.path("f.json"))
    yield freeze(g.bounding), c.r(g.loadnames(c.path("k"))), g.projection.geo2rect(1, 2)


def s_bbox(c, v):
    b = bbox.BBox(c.pts(V(v, TRI, FAR)))
    yield repr(b)
    d = bbox.BBox(c.a(lambda: (1, 2)), (30, 40))
    yield repr(b | d), repr(b & d)
    yield repr(b.scale(V(v, 2, 0.5))), repr(b + (1, 2)), c.r(b.center())
    e = b.copy()
    b.x0 -= 5
    yield repr(b), repr(e), (1, 2) in b
    e |= d
    yield repr(e), repr(d), repr(b), hash(d) == hash(bbox.BBox((1, 2), (30, 40)))


def s_fields(c, v):
    row = grow(v)
    yield str(row.fields[0]), row.size, len(row)
    x = row.encode(*c.a(lambda: ROWS[v][0][0][0]))
    yield x
    y = row.encode(*ROWS[v][1][0][0])
    yield c.r(row.decode(x)), c.r(row.decode(y))
    z = grid.SVar("q", 4, True)
    yield z.encode(None), z.decode(z.encode("ab"))


def s_stats(c, v):
    t = V(v, (1.0, 2.5, 7, 7), (3, 3.5, -1, 0))
    yield stats.sum(t), stats.len(t), stats.max(t), stats.min(t)
    yield stats.avg(t), stats.var(t), stats.std_dev(t)
    u = V(v, (2, 1, 0, 5), (1, 1, 1.5, 1))
    yield stats.covar(t, u), stats.corr(t, u)
    if v:
        stats.cache_clear()
    yield stats.gini_deaton(u), stats.gini_kakwani(u)
    yield stats.avg(t), stats.covar(u, t)


def s_table(c, v):
    p = given(v, "csv")
    t = table.readfile(p)
    yield c.r([tuple(x) for x in t])
    t2 = table.readfile(p, c.a(lambda: ["k", "z"]))
    g = table.addkey(t, "new", lambda r: r.k + "!")
    yield tuple(next(g))
    a = table.getall(t, "z", "1")
    yield tuple(next(a))
    j = table.join(c.a(lambda: t2), c.a(lambda: list(g)), c.a(lambda: ["k"]), c.a(lambda: ["new", "k", "y"]))
    yield c.r([tuple(x) for x in j]), j[0]._fields
    table.writefile(c.path("t.csv"), c.a(lambda: j), c.a(lambda: ["k", "new"]), ";")
    yield content(c.path("t.csv")), [tuple(x) for x in a]
    d = list(table.delkeys(t, c.a(lambda: ["z"])))
    ix = table.indexby(d, "k")
    yield c.r([tuple(x) for x in d]), c.r({k: tuple(x) for k, x in ix.items()}), tuple(table.getone(t, "k", "b"))


def s_names(c, v):
    l = V(v, ["Sao Paulo", "Santo Andre", "Rio"], ["Acre", "Rio Grande do Sul", "Rio Grande do Norte"])
    yield c.r(names.abbreviations(c.a(lambda: list(l)), 3, c.a(lambda: ["DO"])))
    m = names.mapping(c.a(lambda: list(l)), c.a(lambda: ["Rio", "Acres", "Santos"]))
    yield [tuple(x) for x in m]
    c.r(m)
    yield names.damlev(l[0], l[1]), names.jaro(l[1], l[2]), names.jaro_winkler(l[1], l[2])
    yield c.r(names.abbreviations(c.a(lambda: list(l)), 2))


def s_coord(c, v):
    yield coord.haversine(1, 2, V(v, 3, 33), 4), coord.bearing(1, V(v, 2, -2), 3, 4)
    yield coord.destination(V(v, 1, 8), 2, 30, 1e6), coord.midpoint(1, 2, 3, V(v, 4, 5))
    reg = c.pts(V(v, [TRI, [[50, 50], [60, 50], [60, 55]]], [FAR[:3]]), True)
    yield c.r(coord.geocentroid(reg))
    yield c.r(coord.geocentroid(reg, bbox.BBox((V(v, 10, -60), 0), (V(v, 30, -50), 10))))
    yield coord.bearing2cardinal(V(v, 30, 200)), coord.bearing2hours(V(v, 30, 200)), coord.radiusat(V(v, 0, 45))


def s_convert(c, v):
    yield c.r(pf.sf2pf(given(v, "y"), c.path("c.p"), lambda r: r[0], V(v, 4, 8)))
    yield content(c.path("c.p"))
    w = pf.Writer(c.path("w.p"))
    w.write("q", c.pts([TRI]))
    yield None
    yield c.r(pf.sf2pf(given(1 - v, "y"), c.path("c.p"), lambda r: r[0] * 2))
    yield c.r(w.close()), content(c.path("w.p")), content(c.path("c.p"))


def given(v, kind):
    """Prepared files, made once for each worker."""
    d = scratch("given")
    p = os.path.join(d, "%s%d" % (kind, v))
    if os.path.isdir(d) and any(n.startswith("%s%d" % (kind, v)) for n in os.listdir(d)):
        return p
    os.makedirs(d, exist_ok=True)
    if kind == "rg":
        w = rg.Writer(p, grow(v))
        w.write(ROWS[v][0], "first")
        w.write(ROWS[v][1], "b")
        w.close()
    elif kind == "p":
        w = pf.Writer(p, V(v, 4, 2))
        for n, parts in ENT[v]:
            w.write(n, parts)
        w.close()
    elif kind in "sy":
        poly = v == 0 or kind == "y"
        w = shapefile.Writer(shapefile.POLYGON if poly else shapefile.POINT)
        w.field("NAME", "C", 8)
        w.field("N", "N", V(v, 4, 6), V(v, 0, 1))
        for i in range(3):
            if poly:
                w.poly([[[x + i, y - v] for x, y in TRI]] + [FAR] * i)
            else:
                w.point(i, 2 * i)
            w.record("r%d%d" % (v, i), i * 11)
        w.save(p)
    else:
        with open(p, "w") as f:
            f.write(V(v, "k,z,y\na,1,p\nb,2,q\nc,1,r\n", "z,y,k\n1,o,b\n1,n,a\n"))
    return p


SCRIPTS = {k[2:]: f for k, f in list(globals().items()) if k.startswith("s_")}
SCRIPTS.update({"proj " + k: f for k, f in PROJ.items()})


def solo(name, v, tag="solo", rep=list):
    """What a script shows when it runs alone."""
    return [freeze(o) for o in SCRIPTS[name](Ctx(tag, rep=rep), v)]


def pristine(jobs):
    """Runs each job (name, v, rep) in a process of its own and returns what they show."""
    import pickle
    for v in (0, 1):
        for k in ("rg", "p", "s", "y", "csv"):
            given(v, k)
    res = {}
    for j in jobs:
        r, w = os.pipe()
        pid = os.fork()
        if not pid:
            try:
                try:
                    name, v, rep = j
                    out = ("ok", solo(name, v, "solo", rep))
                except Exception as e:
                    out = ("bad", "%s %r alone: %s: %s" % (name, v, type(e).__name__, e))
                with os.fdopen(w, "wb") as f:
                    pickle.dump(out, f)
            finally:
                os._exit(0)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            k, x = pickle.load(f)
        os.waitpid(pid, 0)
        res[j] = (k, x)
    return res
