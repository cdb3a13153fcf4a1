"""Every history of 3 (thorough: 4) reads on one reader, out of single reads at every index (also negative and outside), whole
reads, pairs, and two interleaved iterators over shapes and two over records, on files of 0, 1 and 3 entries, with a deleted
record (also a blank one) in each place, opened by name and as streams, with and without index file, and with the shapes or the attributes
only; histories of 5 (8) steps for interleaved iterators with single reads. The same reads on files of 127 to 70000 entries,
at both ends and in between, in pairs of orders. Files with more shapes than
records or fewer. Also single-shape files of every type from an
independent encoder, with and without the optional measures and padding after the shape."""
import io, itertools, os, struct
from mc.core import same, need, refused, scratch, fresh, Bad
from mc import esri
from coral import shapefile

LEVEL = "exploration"
RULE = "data x way of opening x first two reads, with all continuations inside; non-trivial: every history"
MODES = ("name", "name-shx", "streams", "streams-shx", "shp", "shp+shx", "dbf", "name-dbf")
SHAPES = [("poly", (esri.A,)), ("null",), ("poly", (esri.C, esri.A)), ("poly", (esri.D,))]
WIDE = [("shape", i) for i in (0, 2, -1, 3)] + [("record", i) for i in (0, 1, -3, -4)] + \
    [("pair", i) for i in (1, -1, 5)] + [("shapes",), ("records",), ("pairs",), ("S", 0), ("S", 1), ("R", 0), ("R", 1)]
DEEP = [("S", 0), ("R", 0), ("shape", 1), ("record", 0), ("S", 1)]


def data(d):
    """Returns (bytes by extension, expected shapes, expected records with None for deleted)."""
    n, dead = d
    model = [esri.expected(3, s) for s in SHAPES[:n]]
    b = esri.encode(3, model)
    w = shapefile.Writer(3)
    w.field("name", "C", 6, 0)
    w.field("v", "N", 4, 0)
    recs = []
    for i in range(n):
        recs.append([["n0", 0], ["", 7], ["", ""], ["n3", 21]][i])
        w.record(*recs[-1])
    out = io.BytesIO()
    w.saveDbf(out)
    dbf = bytearray(out.getvalue())
    if dead is not None:
        dbf[32 * 2 + 33 + 11 * dead] = ord("*")
        recs[dead] = None
    return dict(shp=b[0], shx=b[1], dbf=bytes(dbf)), model, recs


DATA = [(0, None), (1, None), (1, 0), (3, None), (3, 0), (3, 1), (3, 2), (4, 3)]


def cases(tier):
    for d in DATA:
        for m in MODES:
            for ops in itertools.product(WIDE, repeat=2):
                yield "wide", d, m, ops, 4 if tier == "thorough" else 3
    for d in DATA[3:6]:
        for m in MODES[:4]:
            for ops in itertools.product(DEEP, repeat=3):
                yield "deep", d, m, ops, 8 if tier == "thorough" else 5
    for a, b in itertools.product(range(5), repeat=2):
        if a != b:
            for m in MODES:
                yield "uneven", a, b, m
    for n in (127, 128, 129, 255, 256, 257, 999, 4096, 16384, 32767, 32768, 32769, 65535, 65536, 65537, 70000):
        for m in MODES if n < 5000 or tier == "thorough" else ("name", "streams-shx", "dbf") if n in (32769, 65537, 70000) else ():
            yield "large", n, m
    for t in esri.TYPES:
        for i in range(len(esri.catalogue(t))):
            for m in (True, False):
                for pad in (0, 4, 40) if m else (0, 4):
                    yield "foreign", t, i, m, pad


def open_reader(b, mode):
    have = {"name": "shp shx dbf", "streams": "shp shx dbf", "name-shx": "shp dbf", "streams-shx": "shp dbf", "shp": "shp",
            "shp+shx": "shp shx", "dbf": "dbf", "name-dbf": "shp shx"}[mode].split()
    if mode.startswith("name"):
        fresh()
        for k in have:
            with open(scratch("f." + k), "wb") as f:
                f.write(b[k])
        return have, lambda: shapefile.Reader(scratch("f"))
    return have, lambda: shapefile.Reader(**dict((k, io.BytesIO(b[k])) for k in have))


def content(s):
    return esri.got(s)


def play(reader, hist, have, model, recs):
    shp, dbf = "shp" in have, "dbf" in have
    n = len(model)
    its = {}
    for op in hist:
        k = op[0]
        if k in ("shape", "record", "pair"):
            i = op[1]
            able = (shp if k == "shape" else dbf if k == "record" else shp and dbf) and -n <= i < n
            f = dict(shape=reader.shape, record=reader.record, pair=reader.shapeRecord)[k]
            if not able:
                refused(f, "%s(%d) of %d" % (k, i, n), i)
                continue
            e = (model[i], recs[i])
            if e[1] is None and k != "shape":
                try:
                    g = f(i)
                except Exception:
                    continue
                if k == "pair":
                    same(g.record, None, "deleted record in a pair")
                else:
                    same(g, None, "deleted record")
            elif k == "shape":
                same(content(f(i)), e[0], "shape %d" % i)
            elif k == "record":
                same(f(i), e[1], "record %d" % i)
            else:
                g = f(i)
                same((content(g.shape), g.record), e, "shape-record %d" % i)
        elif k in ("shapes", "records", "pairs"):
            able = shp if k == "shapes" else dbf if k == "records" else shp and dbf
            f = dict(shapes=reader.shapes, records=reader.records, pairs=reader.shapeRecords)[k]
            if not able:
                refused(f, k)
            elif k == "shapes":
                same([content(s) for s in f()], model, "all shapes")
            elif k == "records":
                same(f(), [r for r in recs if r is not None], "all records")
            else:
                same([(content(g.shape), g.record) for g in f()],
                     [(s, r) for s, r in zip(model, recs) if r is not None], "all shape-records")
        else:
            able = shp if k == "S" else dbf
            want = model if k == "S" else [r for r in recs if r is not None]
            if op not in its:
                f = reader.iterShapes if k == "S" else reader.iterRecords
                if not able:
                    refused(lambda: next(iter(f())), "iterator without its file")
                    continue
                its[op] = [iter(f()), 0]
            it = its[op]
            try:
                g = next(it[0])
            except StopIteration:
                same(it[1], len(want), "items before the end of iterator %r" % (op,))
                continue
            need(it[1] < len(want), "iterator {} yields more than {} items", op, len(want))
            same(content(g) if k == "S" else g, want[it[1]], "item %d of iterator %r" % (it[1], op))
            it[1] += 1


LONG = {}


def long_data(n):
    if n not in LONG:
        LONG.clear()
        model = [esri.expected(1, ("null",) if i % 7 == 3 else ("point", (i, -i / 4))) for i in range(n)]
        b = esri.encode(1, model)
        rows = b"".join((b"*" if i % 1000 == 998 else b" ") + b"%5d%-3d" % (i, i % 997) for i in range(n))
        head = struct.pack("<4BLHH20x", 3, 99, 1, 1, n, 32 * 3 + 1, 9)
        for name, kind, size in ((b"v", b"N", 5), (b"name", b"C", 3)):
            head += name.ljust(11, b"\0") + kind + b"\0" * 4 + bytes((size, 0)) + b"\0" * 14
        LONG[n] = dict(shp=b[0], shx=b[1], dbf=head + b"\r" + rows + b"\x1a"), model, \
            [None if i % 1000 == 998 else [i, str(i % 997)] for i in range(n)]
    return LONG[n]


def large(n, mode):
    b, model, recs = long_data(n)
    have, opener = open_reader(b, mode)
    at = sorted(set(i for j in (0, 1, 127, 255, n // 2, 32767, 65535, n - 2) for i in (j, j + 1, j - n) if -n <= i < n))
    single = [(k, i) for i in at + [n, n + 1, -n - 1] for k in ("shape", "record", "pair")]
    whole = [("shapes",), ("records",), ("pairs",)]
    for hist in (single, whole[:2] + single[::-1], [("S", 0), ("R", 0)] * 300 + single + [("S", 0), ("R", 0)] * 2, whole[2:]):
        play(opener(), hist, have, model, recs)
    r = opener()
    if "dbf" in have:
        same(sum(1 for x in r.iterRecords()), n - n // 1000 - (n % 1000 > 998), "records of the iterator")
        need(all(x == y for x, y in zip(r.iterRecords(), (x for x in recs if x is not None))), "records of the iterator differ")
    if "shp" in have:
        need([content(s) for s in r.iterShapes()] == model, "shapes of the iterator differ, {} shapes", n)
    return n, mode


def uneven(a, b, mode):
    """More shapes than records, or fewer."""
    blob, model, recs = data((max(a, b) if max(a, b) < 5 else 4, None))
    x, y = data((a, None))[0], data((b, None))[0]
    model, recs = model[:a], recs[:b]
    have, opener = open_reader(dict(shp=x["shp"], shx=x["shx"], dbf=y["dbf"]), mode)
    shp, dbf = "shp" in have, "dbf" in have
    asks = [("shape", i) for i in range(-a - 1, a + 1)] * shp + [("record", i) for i in range(-b - 1, b + 1)] * dbf + \
        [("pair", i) for i in range(min(a, b))] * (shp and dbf) + [("shapes",), ("iterShapes",)] * shp + \
        [("records",), ("iterRecords",)] * dbf + [("pairs",)] * (shp and dbf)
    for first in asks:
        r = opener()
        for k, *i in (first,) + tuple(asks) + tuple(reversed(asks)):
            what = "%s%r of %d shapes and %d records" % (k, tuple(i), a, b)
            if k in ("shape", "record"):
                f, l = (r.shape, model) if k == "shape" else (r.record, recs)
                if -len(l) <= i[0] < len(l):
                    g = f(*i)
                    same(content(g) if k == "shape" else g, l[i[0]], what)
                else:
                    refused(f, what, *i)
            elif k == "pair":
                g = r.shapeRecord(*i)
                same((content(g.shape), g.record), (model[i[0]], recs[i[0]]), what)
            elif k in ("shapes", "iterShapes"):
                same([content(s) for s in getattr(r, k)()], model, what)
            elif k in ("records", "iterRecords"):
                same(list(getattr(r, k)()), recs, what)
            else:
                same([(content(g.shape), g.record) for g in r.shapeRecords()], list(zip(model, recs)), what)
    return a, b, mode


def check(case):
    if case[0] == "uneven":
        return uneven(*case[1:])
    if case[0] == "large":
        return large(*case[1:])
    if case[0] == "foreign":
        _, t, i, m, pad = case
        e = esri.expected(t, esri.catalogue(t)[i])
        b, x = esri.encode(t, [e, e], m, pad)
        if not m and t != 21:
            e["m"] = None
        for kw in (dict(shp=io.BytesIO(b), shx=io.BytesIO(x)), dict(shp=io.BytesIO(b))):
            r = shapefile.Reader(**kw)
            g = [esri.got(s) for s in r.shapes()]
            same(g, [e, e], "shapes of another writer")
            same([esri.got(r.shape(j)) for j in (0, 1, -1)], [e] * 3, "shapes of another writer by index")
        return t, i, m, pad
    kind, d, mode, start, length = case
    b, model, recs = data(d)
    have, opener = open_reader(b, mode)
    alphabet = WIDE if kind == "wide" else DEEP
    for rest in itertools.product(alphabet, repeat=length - len(start)):
        hist = start + rest
        try:
            play(opener(), hist, have, model, recs)
        except Bad as e:
            raise Bad("reads %r: %s" % (hist, e))
    return case
