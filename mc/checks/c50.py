"""Every cut, at every byte, of each file of shapefiles of several types (the other files whole, or cut at the same record), and every
crash state of saving one under a new name (each line of the saving code, buffered and unbuffered, with torn writes); each read
by name and as streams in eight histories of whole, single, interleaved and repeated reads that go on after refusals."""
import io, itertools, sys
from mc.core import same, need, scratch, fresh, Bad, _guard
from mc import crash, esri
from coral import shapefile

LEVEL = "fault_enumeration"
RULE = "one case is one set of files (cut or crash state) with all read histories inside; non-trivial: some file is cut and something is read"
ASSUMPTIONS = ["a dying process loses what the interpreter still buffers and may tear the last write at any byte"]
LIMIT = 20
# type, shapes, fields, records
SETS = {
    "point": (1, [("point", (1, 2)), ("point", (0.0, 0.0)), ("point", (-3.25, 1e9))], [("a", "C", 4, 0)], [["x"], ["y z"], ["w"]]),
    "line": (3, [("poly", (esri.A[:2],)), ("null",), ("poly", (esri.C, esri.A))], [("name", "C", 6, 0), ("v", "N", 8, 2)],
             [["n0", 1.5], ["", -2], ["n2", 31]]),
    "poly": (5, [("poly", (esri.A,)), ("poly", ([(0, 0), (0, 3), (3, 3), (3, 0), (0, 0)], esri.A)), ("poly", (esri.C,))],
             [("v", "N", 3, 0)], [[1], [12], [123]]),
    "multi": (8, [("poly", (esri.E1,)), ("poly", (esri.A,))], [("ok", "L", 1, 0), ("d", "D", 8, 0)], [["T", "20141118"], ["F", "19991231"]]),
    "z": (13, [("poly", (esri.B,)), ("poly", (esri.D, esri.E1))], [("n", "C", 3, 0)], [["a"], ["b"]]),
    "pz": (11, [("point", (5, 5, 1, -2)), ("point", (1, 1, 2, 3))], [("n", "C", 3, 0)], [["a"], ["b"]]),
    "m": (25, [("poly", (esri.B,)), ("null",)], [("n", "C", 3, 0)], [["a"], ["b"]]),
    "patch": (31, [("poly", (esri.A, esri.C), (0, 3))], [("n", "C", 3, 0)], [["a"]]),
    "none": (5, [], [("n", "C", 3, 0)], []),
    "nulls": (0, [("null",)] * 3, [("n", "N", 2, 0)], [[7], [8], [9]]),
}
EXTS = ("shp", "shx", "dbf")


def writer(name):
    t, shapes, fields, recs = SETS[name]
    w = shapefile.Writer(t)
    for f in fields:
        w.field(*f)
    for s, r in zip(shapes, recs):
        esri.add(w, t, s)
        w.record(*r)
    return w


def truth(name):
    """Files, shapes and records; from the independent encoder as far as the geometry goes."""
    t, shapes, fields, recs = SETS[name]
    model = [esri.expected(t, s) for s in shapes]
    d = io.BytesIO()
    writer(name).saveDbf(d)
    shp, shx = esri.encode(t, model)
    rows = [[[int(v[:4]), int(v[4:6]), int(v[6:])] if f[1] == "D" else v for f, v in zip(fields, r)] for r in recs]
    return dict(shp=shp, shx=shx, dbf=d.getvalue()), model, rows


TRUTH = {}


def known(name):
    if name not in TRUTH:
        TRUTH[name] = truth(name)
    return TRUTH[name]


def guarded(f, *args):
    return _guard(sys.modules[__name__], f, *args)


def crashes(name):
    return crash.states(fresh, lambda: writer(name).save(scratch("f")), scratch())


def cases(tier):
    for name in SETS:
        ok, res = guarded(known, name)
        if not ok:
            yield ("broken", name, res)
            continue
        b = res[0]
        for e in EXTS:
            for k in range(len(b[e]) + 1):
                for others in ((), tuple(x for x in EXTS if x != e)):
                    if e != "shx" or others or tier != "quick":
                        yield ("cut", name, ((e, k),) + tuple((x, None) for x in others))
        for e in ("shp", "shx"):
            # the other file cut too
            o = "shx" if e == "shp" else "shp"
            for k in range(0, len(b[e]) + 1, 1 if tier != "quick" else 4):
                for j in sorted({100, 104, 108, 116, len(b[o]) - 8, len(b[o]) - 1} - {x for x in (104, 108, 116) if x >= len(b[o])}):
                    if j >= 100:
                        yield ("cut", name, ((e, k), (o, j), ("dbf", None)))
        ok, res = guarded(crashes, name)
        if not ok:
            yield ("broken", name, res)
            continue
        for s in res:
            yield ("state", name, s)


class Judge:
    def __init__(self, name, files):
        self.whole, self.model, self.recs = known(name)
        self.files = files
        self.n = len(self.model)
        self.seen = 0

    def shape(self, i, f, pair=False):
        try:
            g = f(i)
        except Exception:
            return
        if i < 0:
            x = self.files.get("shx")
            if x is None:
                return              # counts what is there
            i += self.n
        need(0 <= i < self.n, "shape {} of {} is given out", i, self.n)
        same(esri.got(g.shape if pair else g), self.model[i], "shape %d" % i)
        if pair:
            same(g.record, self.recs[i], "record %d" % i)
        self.seen += 1

    def record(self, i, f):
        try:
            g = f(i)
        except Exception:
            return
        need(-self.n <= i < self.n, "record {} of {} is given out", i, self.n)
        same(g, self.recs[i], "record %d" % i)
        self.seen += 1

    def items(self, f, what):
        """Takes items until a refusal; they must be the first ones."""
        want = {"s": self.model, "r": self.recs, "p": list(zip(self.model, self.recs))}[what]
        got = []
        try:
            it = iter(f())
            while 1:
                g = next(it)
                got.append(esri.got(g) if what == "s" else g if what == "r" else (esri.got(g.shape), g.record))
                need(len(got) <= self.n, "more than {} items", self.n)
                yield
        except StopIteration:
            # a complete run over the records has them all
            if what == "r":
                same(len(got), self.n, "number of records")
        except Bad:
            raise
        except Exception:
            pass
        same(got, want[:len(got)], "items " + what)
        self.seen += len(got)

    def run(self, f, what):
        for _ in self.items(f, what):
            pass


def histories(j, r, h):
    idx = [i for k in range(j.n + 1) for i in (k, -k - 1)]
    if h == 0:
        j.run(r.shapes, "s"); j.run(r.records, "r"); j.run(r.shapeRecords, "p")
    elif h == 1:
        for i in idx:
            j.shape(i, r.shape); j.record(i, r.record)
    elif h == 2:
        for i in idx[::-1]:
            j.shape(i, r.shapeRecord, True); j.record(i, r.record); j.shape(i, r.shape)
    elif h == 3:
        for t in itertools.zip_longest(j.items(r.iterShapes, "s"), j.items(r.iterRecords, "r"), j.items(r.iterShapes, "s")):
            pass
    elif h == 4:
        k = 0
        for _ in j.items(r.iterShapes, "s"):
            j.shape(-1, r.shape); j.shape(k, r.shape); j.record(k, r.record)
            k += 1
        j.shape(-1, r.shape)
    elif h == 5:
        k = 0
        for _ in j.items(r.iterRecords, "r"):
            j.record(-1, r.record); j.shape(k, r.shape); j.run(r.records, "r")
            k += 1
        j.run(r.shapeRecords, "p")
    elif h == 6:
        for i in (-1, -1, 0, -1, j.n - 1, -j.n):
            j.shape(i, r.shape); j.shape(i, r.shapeRecord, True)
        j.run(r.shapes, "s")
    else:
        try:
            r.load()
        except Exception:
            pass
        j.run(r.shapes, "s"); j.run(r.iterShapes, "s"); j.run(r.records, "r")


def check(case):
    if case[0] == "broken":
        raise Bad("making %r: %s" % (case[1], case[2]))
    name = case[1]
    b = known(name)[0]
    if case[0] == "cut":
        files = {e: b[e][:k] for e, k in case[2]}
    else:
        files = {n.split(".")[-1]: c for n, c in case[2]}
    j = Judge(name, files)
    full = [e for e in files if len(files[e]) == len(b[e])]
    for way in ("name", "streams"):
        for h in range(8):
            if way == "name":
                fresh()
                for e, c in files.items():
                    with open(scratch("f." + e), "wb") as f:
                        f.write(c)
            try:
                r = shapefile.Reader(scratch("f")) if way == "name" else shapefile.Reader(**{e: io.BytesIO(c) for e, c in files.items()})
            except Exception:
                need(len(full) < len(files) or not ("shp" in files or "dbf" in files), "complete files are refused")
                continue
            try:
                before = j.seen
                histories(j, r, h)
                if h == 0 and len(full) == 3 and case[0] == "cut":
                    same(j.seen - before, 3 * j.n, "items read from complete files")
            except Bad as e:
                raise Bad("%s, read history %d by %s: %s" % ({e: (len(c), len(b[e])) for e, c in files.items()}, h, way, e))
    return (name, tuple(sorted((e, len(c)) for e, c in files.items()))) if j.seen and len(full) < 3 else None
