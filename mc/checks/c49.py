"""Save targets: every way of naming one (plain, with each extension, in missing folders to depth 3, none at all, each file by
itself, streams singly and in every subset) for every pair of writers out of a catalogue, saved after each other, also over
existing longer and shorter files, with every file of the folder compared with what an independent decoder expects; names
generated without a target must be new. Readers: every history of up to 4 (thorough: 5) steps of loading one of five data sets
(complete, without index, geometry only, attributes only, other type and fields) by name or extension, or a missing one, and
reading in seven ways, starting from names or streams."""
import io, itertools, os
from mc.core import same, need, refused, scratch, fresh
from mc import esri
from coral import shapefile

LEVEL = "exploration"
RULE = "one case is one pair of writers with a pair of targets, or the first step of reader histories with all continuations inside; every case is non-trivial"
EXT = ("shp", "shx", "dbf")
TARGETS = ("a", "a.shp", "a.dbf", "a.shx", "sub/a", "x/y/z/a.shp", "sp ace\u00e9", "v1.2/a", "a.b/c.d/e.2014.shp", None)
PLANS = {
    "points": (1, (("point", (1, 2)), ("point", (-3, 4.5))), (("n", "N", 3, 0),), ((1,), (2,)), ((b"  1",), (b"  2",))),
    "lines": (13, (("poly", (esri.B, esri.C)), ("null",), ("poly", (esri.D,))), (("t", "C", 4, 0), ("k", "N", 2, 0)),
              (("ab", 1), ("", 2), ("long", 3)), ((b"ab  ", b" 1"), (b"    ", b" 2"), (b"long", b" 3"))),
    "none": (5, (), (("t", "C", 9, 0),), (), ()),
    "big": (5, (("poly", (esri.A,)),) * 40, (("n", "N", 3, 0),), tuple((i,) for i in range(40)), tuple((b"%3d" % i,) for i in range(40))),
}
OPS = ("load", "ext", "missing", "shapes", "shape", "records", "record", "pairs", "iter")
SETS = {"A": ("points", EXT), "B": ("lines", ("shp", "dbf")), "C": ("lines", ("dbf",)), "D": ("big", ("shp",)), "E": ("lines", EXT)}


def make(name):
    t, shapes, fields, recs, _ = PLANS[name]
    w = shapefile.Writer(t)
    for f in fields:
        w.field(*f)
    for s, r in zip(shapes, recs):
        esri.add(w, t, s)
        w.record(*r)
    return w


def judge(name, data):
    """data: bytes by extension, any subset of the files."""
    t, shapes, fields, recs, rows = PLANS[name]
    if "shp" in data and "shx" in data:
        esri.conform(data["shp"], data["shx"], t, [esri.expected(t, s) for s in shapes])
    elif "shp" in data:
        typ, _, _, _, got = esri.shp(data["shp"])
        same((typ, len(got)), (t, len(shapes)), "type and number of shapes")
    if "dbf" in data:
        f, r, flags = esri.dbf(data["dbf"])
        same([x[0] for x in f], [x[0].encode() for x in fields], "fields")
        same([tuple(x) for x in r], list(rows), "records")


def cases(tier):
    for a, b in itertools.product(PLANS, repeat=2):
        for ta, tb in itertools.product(TARGETS, repeat=2):
            yield "names", a, b, ta, tb
        for k in (1, 2, 3):
            for keys in itertools.permutations(EXT, k):
                if not ("shx" in keys and "shp" not in keys):       # the index needs the geometry's record lengths
                    yield "streams", a, b, keys
        yield "parts", a, b
    for start in ("A", "B", "E", "streams A", "streams E", "streams C"):
        for first in steps():
            yield "load", start, first, 4 if tier == "quick" else 5


def tree():
    out = {}
    for d, _, files in os.walk(scratch()):
        for f in files:
            p = os.path.join(d, f)
            with open(p, "rb") as g:
                out[os.path.relpath(p, scratch())] = g.read()
    return out


def names(a, b, ta, tb):
    fresh()
    want = {}
    for plan, target in ((a, ta), (b, tb)):
        w = make(plan)
        before = set(tree())
        if target is None:
            base = w.save()
            need(isinstance(base, str) and os.path.dirname(os.path.abspath(base)) == scratch(), "the generated name is {!r}", base)
            base = os.path.relpath(os.path.abspath(base), scratch())
            need(not any(base + "." + e in before for e in EXT), "the generated name {!r} is not new", base)
            rd = shapefile.Reader(base)
        else:
            path = scratch(target)
            w.save(path)
            base = os.path.splitext(target)[0]
            rd = shapefile.Reader(path)
        want[base] = plan
        t, shapes, fields, recs, rows = PLANS[plan]
        same([esri.got(s) for s in rd.shapes()], [esri.expected(t, s) for s in shapes], "shapes read from %r" % (target,))
        same(rd.records(), [list(r) for r in recs], "records read from %r" % (target,))
        got = tree()
        same(set(got), {n + "." + e for n in want for e in EXT}, "files after saving to %r" % (target,))
        for n, p in want.items():
            judge(p, dict((e, got[n + "." + e]) for e in EXT))
    return a, b, ta, tb


def streams(a, b, keys):
    fresh()
    kept = None
    for plan in (a, b):
        w = make(plan)
        fs = dict((k, io.BytesIO()) for k in keys)
        w.save(**fs)
        got = dict((k, f.getvalue()) for k, f in fs.items())
        judge(plan, got)
        if kept:
            same(dict((k, f.getvalue()) for k, f in kept.items()), kept_data, "the first writer's streams")
        kept, kept_data = fs, got
    same(tree(), {}, "files left by saving to streams")
    # the second data set over the first in the same streams
    w = make(a)
    w.save(**fs)
    judge(a, dict((k, f.getvalue()) for k, f in fs.items()))
    return a, b, keys


def parts(a, b):
    fresh()
    for plan, ends in ((a, ("", "", "")), (b, (".shp", ".dbf", ".shp"))):
        w = make(plan)
        w.saveShp(scratch("d/p" + ends[0]))
        same(sorted(tree()) if plan == a and not ends[0] else ["d/p.shp"], ["d/p.shp"], "files after saving the geometry")
        judge(plan, {"shp": tree()["d/p.shp"]})
        w.saveShx(scratch("d/p" + ends[1]))
        w.saveDbf(scratch("d/p" + ends[2]))
        got = tree()
        same(sorted(got), ["d/p.dbf", "d/p.shp", "d/p.shx"], "files after saving one by one")
        judge(plan, dict((e, got["d/p." + e]) for e in EXT))
    return a, b


def steps():
    return [("load", s) for s in "ABCDE"] + [("ext", s) for s in "BC"] + [("missing",)] + [(o,) for o in OPS[3:]]


def build():
    fresh()
    for s, (plan, have) in SETS.items():
        make(plan).save(scratch(s))
        for e in EXT:
            if e not in have:
                os.unlink(scratch(s + "." + e))


def play(start, hist):
    if start.startswith("streams"):
        cur = start[-1]
        r = shapefile.Reader(**dict((e, open(scratch(cur + "." + e), "rb")) for e in SETS[cur][1]))
    else:
        cur = start
        r = shapefile.Reader(scratch(cur))
    for op in hist:
        what = "history %r from %s: %r" % (hist, start, op)
        if op[0] in ("load", "ext"):
            cur = op[1]
            r.load(scratch(cur) + ("" if op[0] == "load" else ".dbf" if cur == "C" else ".shp"))
            continue
        if op[0] == "missing":
            refused(lambda: shapefile.Reader(scratch("nothing")), what)
            continue
        plan, have = SETS[cur]
        t, shapes, fields, recs, _ = PLANS[plan]
        same([f[0] for f in r.fields if f[0] != "DeletionFlag"], [f[0] for f in fields] if "dbf" in have else [], what + ": fields")
        model = [esri.expected(t, s) for s in shapes]
        shp, dbf = "shp" in have, "dbf" in have
        if op[0] == "shapes":
            if not shp:
                refused(r.shapes, what)
                continue
            same(r.shapeType, t, what)
            need([esri.got(s) for s in r.shapes()] == model, "{}: other shapes", what)
        elif op[0] == "iter":
            if shp:
                need([esri.got(s) for s in r.iterShapes()] == model, "{}: other shapes", what)
            else:
                refused(lambda: list(r.iterShapes()), what)
            if dbf:
                same(list(r.iterRecords()), [list(x) for x in recs], what)
            else:
                refused(lambda: list(r.iterRecords()), what)
        elif op[0] == "shape":
            for i in (0, -1, len(model) // 2):
                if shp:
                    same(esri.got(r.shape(i)), model[i], what)
                else:
                    refused(r.shape, what, i)
            refused(r.shape, what, len(model))
        elif op[0] == "records":
            if dbf:
                same(r.records(), [list(x) for x in recs], what)
                same([f[0] for f in r.fields if f[0] != "DeletionFlag"], [f[0] for f in fields], what)
                same(r.numRecords, len(recs), what)
            else:
                refused(r.records, what)
        elif op[0] == "record":
            for i in (0, -1):
                if dbf:
                    same(r.record(i), list(recs[i]), what)
                else:
                    refused(r.record, what, i)
        else:
            if shp and dbf:
                same([(esri.got(g.shape), g.record) for g in r.shapeRecords()], [(m, list(x)) for m, x in zip(model, recs)], what)
            else:
                refused(r.shapeRecords, what)


def check(case):
    if case[0] == "names":
        return names(*case[1:])
    if case[0] == "streams":
        return streams(*case[1:])
    if case[0] == "parts":
        return parts(*case[1:])
    _, start, first, n = case
    build()
    for rest in itertools.product(steps(), repeat=n - 2):
        hist = (first,) + rest
        # reading after loading is what matters: end with every way of reading
        for last in OPS[3:]:
            play(start, hist + ((last,),))
    return start, first
