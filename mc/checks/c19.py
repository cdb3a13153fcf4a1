"""For each of the 14 shape types, all lists of 0 to 3 shapes (thorough: 4) from a catalogue of six (null; one or several parts,
open and closed rings, points given with two, three and four coordinates as tuples and lists, no-data measures), with the type
given to the writer or left to it, saved to files or to streams, after other writers have been used. All part types of up to three
(four) parts of a multipatch; shapes of related types, with and without parts, in one file. Counts of shapes, parts and
points around 127, 255 and 1000 (and 32768 and 65537 for points, lines,
polygons and multipoints; thorough: for every type)."""
import io, itertools
from mc.core import same, need, scratch, fresh
from mc import esri
from coral import shapefile

LEVEL = "exploration"
RULE = "type x list of shapes x way of saving; non-trivial: at least one shape that is not null"


def cases(tier):
    n = 4 if tier == "thorough" else 3
    for k in range(n + 1):
        for t in esri.TYPES:
            cat = esri.catalogue(t)
            for ids in itertools.product(range(len(cat)), repeat=k):
                for given in (True, False):
                    yield t, ids, given, sum(ids) % 2 == 0 if k > 1 else True
                    if k <= 1:
                        yield t, ids, given, False
    # rings whose ends agree in some of the coordinates only
    for t in esri.POLYGONS + (31,):
        for end in itertools.product((0, 1), repeat=4):
            for more in (0, 1):
                yield "rings", t, end, more
    # part types; shapes of the related types, also with no parts, in a file of one type
    for k in range(1, 4 if tier != "thorough" else 5):
        for types in itertools.product(range(6), repeat=k):
            yield "patch", types
    for family in ((3, 13, 23), (5, 15, 25), (8, 18, 28)):
        for k in range(1, 4):
            for kinds in itertools.product(range(6), repeat=k):
                for given in family + (None,):
                    yield "family", family, kinds, given
    big = (2, 127, 128, 129, 255, 256, 257, 1000) + ((16383, 16384, 65535, 65536) if tier == "thorough" else ())
    for t in (1, 3, 15, 28):
        for n in (32768, 65537):
            yield "large", t, n, 1, 3
            if t in esri.PARTS:
                yield "large", t, 1, n, 2
            if t != 1:
                yield "large", t, 1, 1, n
    for t in esri.TYPES:
        for n in big:
            yield "large", t, n, 1, 4
            if t and t not in esri.POINTS:
                yield "large", t, 2, 1, n
                yield "large", t, 2, n, 3
            if t in esri.PARTS and n <= 300:
                yield "large", t, n, n // 4, 7


def large(t, n, parts, points):
    """n shapes with counting coordinates."""
    c = 0
    for i in range(n):
        if not t or i % 5 == 4:
            yield ("null",)
        elif t in esri.POINTS:
            yield ("point", (i, -i, i + 0.5, 2 * i))
        else:
            ps = []
            for k in range(max(1, parts)):
                ps.append([(c + j, -(j * j) % 97, c - j, j) for j in range(points)])
                c += points
            yield ("poly", tuple(ps))


def patch(types):
    parts = tuple(((esri.A, esri.C, esri.B, esri.D)[i] for i in range(len(types))))
    return write(31, 31, [(31, ("poly", parts, types)), (31, ("null",)), (31, ("poly", parts[::-1], types))])


def family(types, kinds, given):
    """Shapes of three related types, with parts and without."""
    t = given or types[kinds[0] % 3]
    return write(given, t, [(types[k % 3], ("poly", (esri.A, esri.C) if k < 3 else ())) for k in kinds])


def write(given, t, shapes):
    w = shapefile.Writer(given)
    w.field("id", "N", 6, 0)
    for i, (typ, s) in enumerate(shapes):
        esri.add(w, typ, s)
        w.record(i)
    exp = [esri.expected(t, s) for typ, s in shapes]
    fs = dict((k, io.BytesIO()) for k in ("shp", "shx", "dbf"))
    w.save(**fs)
    esri.conform(fs["shp"].getvalue(), fs["shx"].getvalue(), t, exp)
    r = shapefile.Reader(**fs)
    same([esri.got(s) for s in r.shapes()], exp, "shapes read back")
    for i in range(len(exp)):
        same(esri.got(r.shape(i)), exp[i], "shape %d" % i)
    same(r.records(), [[i] for i in range(len(exp))], "records")
    return t, repr(shapes)


def checklarge(t, n, parts, points):
    shapes = list(large(t, n, parts, points))
    w = shapefile.Writer(t)
    w.field("id", "N", 6, 0)
    for i, s in enumerate(shapes):
        esri.add(w, t, s)
        w.record(i)
    exp = [esri.expected(t, s) for s in shapes]
    fs = dict((k, io.BytesIO()) for k in ("shp", "shx", "dbf"))
    w.save(**fs)
    esri.conform(fs["shp"].getvalue(), fs["shx"].getvalue(), t, exp)
    r = shapefile.Reader(**fs)
    need([esri.got(s) for s in r.shapes()] == exp, "all shapes of {} x {} parts x {} points, type {}, differ", n, parts, points, t)
    same(r.records(), [[i] for i in range(n)], "records")
    for i in sorted({0, min(1, n - 1), n // 2, n - 1, min(127, n - 1), min(128, n - 1), min(255, n - 1), min(256, n - 1)}):
        need(esri.got(r.shape(i)) == exp[i], "shape {} of {} x {} parts x {} points, type {}, differs", i, n, parts, points, t)
        same(r.record(i), [i], "record %d" % i)
        g = r.shapeRecord(i - n)
        need(esri.got(g.shape) == exp[i] and g.record == [i], "shape-record {} of {}", i, n)
    return t, n, parts, points


def rings(t, end, more):
    start = (3, 4, 5, 6)
    ring = [start, (3, 9, 5, 6), (8, 9, 1, 1), (8, 4, 0, 7), tuple(a + 10 * d for a, d in zip(start, end))]
    shape = ("poly", (ring, esri.A)[:1 + more])
    fs = dict((k, io.BytesIO()) for k in ("shp", "shx", "dbf"))
    w = shapefile.Writer(t)
    esri.add(w, t, shape)
    w.save(**fs)
    r = shapefile.Reader(**fs)
    same([esri.got(s) for s in r.shapes()], [esri.expected(t, shape)], "shape read back")
    return t, end, more


def check(case):
    if case[0] == "rings":
        return rings(*case[1:])
    if case[0] == "patch":
        return patch(case[1])
    if case[0] == "family":
        return family(*case[1:])
    if case[0] == "large":
        return checklarge(*case[1:])
    t, ids, given, files = case
    cat = esri.catalogue(t)
    other = shapefile.Writer(shapefile.MULTIPATCH)
    other.poly([[[9, 9], [8, 9], [8, 8]]], shapefile.MULTIPATCH)
    other.poly([[[9, 9], [8, 9], [8, 8]]], shapefile.POLYGON)
    w = shapefile.Writer(t) if given else shapefile.Writer()
    model = []
    for i in ids:
        if given or t not in (11, 21):
            esri.add(w, t, cat[i])
        else:       # without a type the writer makes plain points
            w.null() if cat[i][0] == "null" else w.point(*cat[i][1][:2])
        model.append(cat[i])
    if not given and t in (11, 21):
        t = 1
    exp = [esri.expected(t, s) for s in model]
    w.field("id", "N", 4, 0)
    for i in range(len(ids)):
        w.record(i)
    if files:
        fresh()
        w.save(scratch("s"))
        r = shapefile.Reader(scratch("s"))
    else:
        fs = dict((k, io.BytesIO()) for k in ("shp", "shx", "dbf"))
        w.save(**fs)
        r = shapefile.Reader(**fs)
    ftype = t if given else next((e["type"] for e in exp if e["type"]), 0)
    same(r.shapeType, ftype, "file type")
    same([esri.got(s) for s in r.shapes()], exp, "shapes read back")
    for i, e in enumerate(exp):
        same(esri.got(r.shape(i)), e, "shape %d read back" % i)
    return repr(exp) if any(e["type"] for e in exp) else None
