"""For each of the 14 shape types, all lists of 0 to 3 shapes (thorough: 4) from the shapefile catalogue: the writer's box and
ranges after every addition and after saving, the reader's type, box, ranges, counts and fields and every shape's box, after
every way of reading; and files of an independent encoder whose headers carry values of their own."""
import io, itertools, struct
from mc.core import same, need, scratch, fresh
from mc import esri
from coral import shapefile

LEVEL = "exploration"
RULE = "type x list of shapes x way of opening; non-trivial: at least one point"
FIELDS = (("id", "N", 4, 0), ("NAME", "C", 12, 0), ("v", "N", 9, 3), ("d", "D", 8, 0), ("ok", "L", 1, 0))
HEADS = ((0, 0, 0, 0, 0, 0, 0, 0), (-180, -90, 180, 90, 1, 2, 3, 4), (1e-5, -7.25, 5e9, 6, -8, 0, -1e39, 0.5))


def cases(tier):
    n = 4 if tier == "thorough" else 3
    for t in esri.HAS_M:
        for ms in itertools.product((3.5, -7, -9.9e38, -1.5e38, -1e39, -2e39, -1.7976931348623157e308, None), repeat=3):
            yield "measures", t, ms
    for t in esri.TYPES:
        for k in (300, 2500):
            cat = esri.catalogue(t)
            yield "own", t, (0,) * (k - 2) + (len(cat) - 1, 0), True
            yield "own", t, tuple(i % len(cat) for i in range(k)), True
    for k in range(n + 1):
        for t in esri.TYPES:
            cat = esri.catalogue(t)
            for ids in itertools.product(range(len(cat)), repeat=k):
                yield "own", t, ids
                if k < 3:
                    for h in range(len(HEADS)):
                        yield "foreign", t, ids, h


def pts(model):
    return [p for e in model for p in e["points"]]


def range_of(model, k):
    return esri.span([v for e in model for v in e[k] or []])


def boxes(got, model, what):
    same(len(got), len(model), what)
    for i, (s, e) in enumerate(zip(got, model)):
        if e["points"] and e["type"] not in esri.POINTS:
            same(tuple(s.bbox), esri.boxof(e["points"]), "%s: box of shape %d" % (what, i))


def own(t, ids, large=False):
    cat = esri.catalogue(t)
    w = shapefile.Writer(t)
    for f in FIELDS[:1 + len(ids)]:
        w.field(*f)
    model = []

    def ask(when):
        if pts(model):
            same(tuple(w.bbox()), esri.boxof(pts(model)), "the writer's box " + when)
            if t in esri.HAS_Z:
                same(tuple(w.zbox()), range_of(model, "z"), "the writer's elevations " + when)
            if t in esri.HAS_M and range_of(model, "m"):
                same(tuple(w.mbox()), range_of(model, "m"), "the writer's measures " + when)
        same(len(w.shapes()), len(model), "the writer's shapes " + when)
        for i in range(len(model)):
            same(w.shape(i).shapeType, model[i]["type"], "the writer's shape %d" % i)
            same([tuple(map(float, p[:2])) for p in w.shape(i).points], model[i]["points"], "the writer's points of shape %d" % i)
    for i in ids:
        esri.add(w, t, cat[i])
        model.append(esri.expected(t, cat[i]))
        w.record(*([len(model)] + ["a", 1.5, "20200101", "T"])[:1 + len(ids)])
        if not large or len(model) == len(ids):
            ask("after %d shapes" % len(model))
    fresh()
    w.save(scratch("s"))
    ask("after saving")
    b = dict((k, open(scratch("s." + k), "rb").read()) for k in ("shp", "shx", "dbf"))
    for opener in (lambda: shapefile.Reader(scratch("s")), lambda: shapefile.Reader(**dict((k, io.BytesIO(v)) for k, v in b.items()))):
        r = opener()
        for step in (None, r.shapes, r.records, r.shapeRecords, lambda: list(r.iterShapes()), lambda: list(r.iterRecords())):
            if step:
                step()
            what = "the reader, after %s" % getattr(step, "__name__", "opening")
            same(r.shapeType, t, what + ": type")
            if pts(model):
                same(tuple(r.bbox), esri.boxof(pts(model)), what + ": box")
            if t in esri.HAS_Z and pts(model):
                same(tuple(r.elevation), range_of(model, "z"), what + ": elevations")
            if t in esri.HAS_M and range_of(model, "m"):
                same(tuple(r.measure), range_of(model, "m"), what + ": measures")
            same(r.numRecords, len(model), what + ": number of records")
            same([tuple(f[:4]) for f in r.fields if f[0] != "DeletionFlag"], list(FIELDS[:1 + len(ids)]), what + ": fields")
        boxes(r.shapes(), model, "all shapes")
        boxes(list(r.iterShapes()), model, "iterated shapes")
        boxes([r.shape(i) for i in range(len(model))], model, "shapes by index")
        boxes([g.shape for g in r.shapeRecords()], model, "shape-records")
    return (t, ids) if pts(model) else None


def foreign(t, ids, h):
    cat = esri.catalogue(t)
    model = [esri.expected(t, cat[i]) for i in ids]
    b, x = esri.encode(t, model)
    head = struct.pack("<8d", *HEADS[h])
    b, x = b[:36] + head + b[100:], x[:36] + head + x[100:]
    for kw in (dict(shp=io.BytesIO(b), shx=io.BytesIO(x)), dict(shp=io.BytesIO(b))):
        r = shapefile.Reader(**kw)
        for again in range(2):
            same((r.shapeType, tuple(r.bbox), tuple(r.elevation), tuple(r.measure)), (t, HEADS[h][:4], HEADS[h][4:6], HEADS[h][6:]), "header of another writer")
            boxes(r.shapes(), model, "shapes of another writer")
    return (t, ids, h) if pts(model) else None


def measures(t, ms):
    """Everything up to -10e38 is no measure."""
    w = shapefile.Writer(t)
    if t in esri.POINTS:
        for i, m in enumerate(ms):
            w.point(i, 1, 2, m)
    else:
        w.poly([[[i, i % 2, 2, m] for i, m in enumerate(ms)] + [[0, 0, 2, ms[0]]]], t)
    true = [m for m in ms if m is not None and m > esri.NODATA]
    if true:
        same(tuple(w.mbox()), (min(true), max(true)), "the writer's measures")
    fs = dict((k, io.BytesIO()) for k in ("shp", "shx"))
    w.save(**fs)
    r = shapefile.Reader(**fs)
    if true:
        same(tuple(r.measure), (min(true), max(true)), "the reader's measures")
    if t not in esri.POINTS:
        head = dict((k, v) for k, v in esri.shp(fs["shp"].getvalue())[4][0].items())
        if true:
            same(tuple(head["mr"]), (min(true), max(true)), "the measures of the shape")
        same(list(r.shape(0).m), [m if m in true else None for m in ms + ms[:1]], "measures read back")
    return (t, ms) if true else None


def check(case):
    if case[0] == "measures":
        return measures(*case[1:])
    return own(*case[1:]) if case[0] == "own" else foreign(*case[1:])
