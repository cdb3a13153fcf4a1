"""Saving with room for n bytes per file only (a real limit of the system: writes beyond it fail or are cut short), for every n from 0 to the size of
the longest file (around buffer sizes, and every 211th, for contents of 20 to 60 kB), for 16 ways of writing files x 2 contents x 3 earlier
contents; then, with room again, the same object is saved again, or another one is saved under the name before the first is dropped. RangeGrid data sets: all histories
of 3 (thorough: 4) entities of 1, 600 or 1500 rows, some of which find no room, with room again from any step on. Exported images: also no room for the image."""
import gc, itertools, os, resource, shutil, tempfile
from mc.core import same, need, scratch, fresh, Bad
from mc.scripts import TRI, FAR, content, given
from coral import bbox, frame, pf, proj, raster, rg, shapefile, table, vector
from coral.grid import IVar, SVar, GRow

LEVEL = "fault_enumeration"
RULE = "one case is one save (or history of writes) with room for n bytes and what is done afterwards; non-trivial: the save fails"
ASSUMPTIONS = ["lack of room is what the system's file size limit makes of it: a write is cut short at the limit, the next one fails"]
LIMIT = 60
INF = resource.RLIM_INFINITY


class Room:
    def __init__(self, n):
        self.n = n

    def __enter__(self):
        resource.setrlimit(resource.RLIMIT_FSIZE, (self.n, INF))

    def __exit__(self, *a):
        resource.setrlimit(resource.RLIMIT_FSIZE, (INF, INF))


class Pf:
    def __init__(self, p, k):
        self.files = [p + ".p"]
        self.w = pf.Writer(p + ".p", (2, 8)[k])
        for i in range((2, 900)[k]):
            self.w.write("n%d" % i, [TRI, FAR])

    def save(self):
        self.w.close()


class Shp:
    def __init__(self, p, k):
        self.p = p
        self.files = [p + e for e in (".shp", ".shx", ".dbf")]
        self.w = w = shapefile.Writer((shapefile.POLYGON, shapefile.POLYLINEZ)[k])
        w.field("NAME", "C", (4, 40)[k])
        for i in range((2, 400)[k]):
            w.poly([TRI, FAR] if i % 2 else [FAR], w.shapeType)
            w.record("n%d" % i)

    def save(self):
        self.w.save(self.p)


class Parts(Shp):
    def save(self):
        self.w.saveShp(self.p)
        self.w.saveShx(self.p + ".shx")
        self.w.saveDbf(self.p)


class Editor(Shp):
    """The data set is there already; two shapes are added, or the first one is deleted."""

    def __init__(self, p, k):
        Shp.__init__(self, p, k)
        self.w.save(p)
        self.w = shapefile.Editor(p)
        if k:
            self.w.delete(0)
        else:
            for i in range(2):
                self.w.poly([TRI])
                self.w.record("new")


class Convert:
    def __init__(self, p, k):
        self.files = [p + ".p"]
        self.src = given(k, "y")
        self.p = p

    def save(self):
        pf.sf2pf(self.src, self.p + ".p", lambda r: r[0], 8)


class Ras:
    def __init__(self, make, ink, p, k):
        self.files = [p + ".pnm"]
        self.c = make(*((9, 5), (250, 90))[k])
        self.c.line((0, 0), (8, 4), ink)

    def save(self):
        self.c.save(self.files[0])


class Vec:
    def __init__(self, p, k):
        self.files = [p + ".ps"]
        self.c = vector.Canvas()
        self.k = k
        for i in range((1, 300)[k]):
            self.c.addpolygon([(x + i, y) for x, y in TRI], fill=0.5)

    def save(self):
        self.c.save(self.files[0], (None, 100)[self.k])


class Table:
    def __init__(self, p, k):
        import collections
        R = collections.namedtuple("R", "k name")
        self.files = [p + ".csv"]
        self.t = [R(str(i), "n\u00e4me%d" % i) for i in range((3, 1500)[k])]

    def save(self):
        table.writefile(self.files[0], self.t)


class Frame:
    def __init__(self, p, k):
        self.files = [p + ".json"]
        self.f = frame.Frame((proj.Mercator(), proj.EMercator())[k], bbox.BBox((0, 0), (1 / 3, 1e6)))

    def save(self):
        self.f.save(self.files[0])


class _Many:
    def __init__(self, n):
        self.names = ["name %d" % i for i in range(n)]

    def read(self, i):
        return [[(0, 0), (5, 1), (3, 4)]]


class Names:
    def __init__(self, p, k):
        self.files = [p + ".names"]
        self.p, self.n = p, (3, 2000)[k]
        self.f = frame.Frame(proj.Mercator(None, 1), bbox.BBox((-9, -9), (9, 9)))

    def save(self):
        self.f.cachenames(self.p, _Many(self.n))


class Rg:
    def __init__(self, p, k):
        self.files = [p + ".rg", p + ".md"]
        self.p, self.n = p, (2, 700)[k]

    def save(self):
        w = rg.Writer(self.p, GRow(IVar("n", 0, 10 ** 6), SVar("text", 9)))
        for i in range(self.n):
            w.write([[(i, "t%d" % i)] * (1 + i % 3)], "id%d" % i)
        w.close()


GS = """#!/bin/sh
for a; do case $a in -sOutputFile=*) out=${a#-sOutputFile=};; esac; in=$a; done
cat "$in" "$in" > "$out"
"""


class Export(Vec):
    """The image is twice as long as the drawing."""

    def __init__(self, p, k):
        Vec.__init__(self, p, k)
        self.files = [p + ".png"]
        self.d = os.path.dirname(p)
        os.makedirs(self.d + "/bin")
        os.makedirs(self.d + "/tmp")
        with open(self.d + "/bin/gs", "w") as f:
            f.write(GS)
        os.chmod(self.d + "/bin/gs", 0o755)

    def save(self):
        old = os.environ["PATH"], tempfile.tempdir
        os.environ["PATH"], tempfile.tempdir = self.d + "/bin:" + old[0], self.d + "/tmp"
        try:
            if self.c.export(self.files[0]) != 0:
                raise Bad("status")
        finally:
            os.environ["PATH"], tempfile.tempdir = old
            same(os.listdir(self.d + "/tmp"), [], "temporary files left behind")


KINDS = {"pf": Pf, "shp": Shp, "parts": Parts, "editor": Editor, "convert": Convert, "vec": Vec, "table": Table, "frame": Frame, "names": Names, "rg": Rg,
         "bw": lambda p, k: Ras(raster.BWCanvas, 1, p, k), "gray": lambda p, k: Ras(raster.GrayCanvas, 9, p, k),
         "color": lambda p, k: Ras(raster.ColorCanvas, (1, 2, 3), p, k), "export": Export}
OLD = (None, b"older\n" * 20000, b"?")
THEN = ("same", "new", "other")


def folder(n):
    d = scratch(n)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d + "/d"


_want = {}


def want(kind, k):
    if (kind, k) not in _want:
        o = KINDS[kind](folder("alone"), k)
        o.save()
        _want[kind, k] = [content(f) for f in o.files]
        del o
        folder("alone")
    return _want[kind, k]


def limits(top, deep, step=211):
    if top < 3000:
        return range(top + 1)
    edge = {b + e for b in [4096 * i for i in range(1, top // 4096 + 1)] + [top] for e in (-2, -1, 0, 1, 2)}
    return sorted(n for n in edge | set(range(0, 130, 7)) | set(range(0, top, step if deep else 7 * step)) if 0 <= n <= top)


def cases(tier):
    deep = tier != "quick"
    for i in (0, 1):
        given(i, "y")
    for kind in KINDS:
        for k in (0, 1):
            try:
                top = max(len(b) for b in want(kind, k))
            except Exception:
                top = 2000
            if kind == "export":
                ns = [0, 1, top // 4, top // 2 - 1, top // 2, top // 2 + 1, top - 1, top]
            else:
                ns = limits(top, deep)
            for n in ns:
                for old in range(3) if kind != "editor" else (0,):
                    for then in THEN if deep or not old and (n < 300 or n % 3 == 0) else (THEN[(n + old) % 3],):
                        yield (kind, k, old, n, then)
    sizes = (1, 600, 1500)
    for l in (1, 2, 3) + ((4,) if deep else ()):
        for es in itertools.product(sizes, repeat=l):
            total = 40 + sum(es) * 16
            ends = [26 + 16 * sum(es[:i]) for i in range(l + 1)]
            ns = {e + d for e in ends for d in (-17, -16, -8, -1, 0, 1, 9)} | set(range(0, 30, 3))
            if deep or l < 3:
                ns |= {4096 * i + d for i in range(total // 4096 + 1) for d in (-1, 0, 1)}
            for n in sorted(n for n in ns if 0 <= n <= total):
                for j in range(l + 2):
                    yield ("rows", es, n, j)


def fds():
    out = set()
    for f in os.listdir("/proc/self/fd"):
        try:
            t = os.readlink("/proc/self/fd/" + f)
        except OSError:
            continue
        if t.startswith(scratch()):
            out.add((f, t))
    return out


_frozen = []


def check(case):
    if not _frozen:
        # what is there already needs no second look by the collector
        gc.collect()
        gc.freeze()
        _frozen.append(1)
    gc.collect()
    base = fds()
    if case[0] == "rows":
        return rows(case, base)
    kind, k, old, n, then = case
    if kind == "convert":
        given(k, "y")
        given(1 - k, "y")
    wants = want(kind, k)
    p = folder("work")
    what = "%s, room for %d of %r bytes" % (kind, n, [len(b) for b in wants])
    if kind != "editor" and OLD[old] is not None:
        o = KINDS[kind](p, k)
        for f in o.files:
            with open(f, "wb") as g:
                g.write(OLD[old])
        del o
        p = p if kind != "export" else p
        shutil.rmtree(os.path.dirname(p) + "/bin", ignore_errors=True)
        shutil.rmtree(os.path.dirname(p) + "/tmp", ignore_errors=True)
    o = KINDS[kind](p, k)
    names = o.files
    failed = False
    with Room(n):
        try:
            o.save()
        except Exception as e:
            failed = str(e) or "error"
    if not failed:
        same([content(f) for f in names], wants, what + ": the save returned, but the files")
        return None
    if kind != "export":
        need(n < max(map(len, wants)), "{} is enough, but the save fails: {}", what, failed)
    if then == "same":
        o.save()
        same([content(f) for f in names], wants, what + ": files of a second save")
    elif then == "new":
        del o
        gc.collect()
        o = Again(kind, p, k)
        o.save()
        same([content(f) for f in names], wants, what + ": files of a new object")
    else:
        # another object saves under the name while the first one is still there
        other = Again(kind, p, 1 - k)
        wants = want(kind, 1 - k)
        other.save()
        same([content(f) for f in names], wants, what + ": files of another object")
        del o
        gc.collect()
        same([content(f) for f in names], wants, what + ": files once the first object is dropped")
        del other
    o = None
    gc.collect()
    same([content(f) for f in names], wants, what + ": files once the object is dropped")
    same(fds() - base, set(), what + ": files left open")
    return (kind, k, old, then)


def Again(kind, p, k):
    if kind == "export":
        shutil.rmtree(os.path.dirname(p) + "/bin")
        shutil.rmtree(os.path.dirname(p) + "/tmp")
    return KINDS[kind](p, k)


def rows(case, base):
    _, es, n, j = case
    p = folder("work")
    row = GRow(IVar("n", 0, 10 ** 6), SVar("text", 12))
    ents = [[[(1000 * e + i, "t%d" % i) for i in range(c)]] for e, c in enumerate(es)]
    good, closed, lost, w = [], False, 0, None

    def step(i, f):
        if i < j:
            with Room(n):
                return f()
        return f()
    try:
        w = step(0, lambda: rg.Writer(p, row))
    except Exception:
        return None
    for i, e in enumerate(ents):
        try:
            step(i, lambda: w.write(e, "e%d" % i))
            good.append((i, e))
        except Exception:
            lost += 1
    for t in range(2):
        try:
            step(len(ents) if t == 0 else j, w.close)
            closed = True
            break
        except Exception:
            lost += 1
    del w
    gc.collect()
    what = "entities of %r rows with room for %d bytes until step %d" % (es, n, j)
    try:
        r = rg.Reader(p)
    except Exception:
        need(not closed, "{}: closed without an error, but can not be read", what)
        return ("refused", es, j)
    if closed:
        same([i for i, _ in r.index] if hasattr(r, "index") else None, ["e%d" % i for i, _ in good] if hasattr(r, "index") else None, what + ": ids")
    for i, e in enumerate(ents):
        try:
            got = r.read("e%d" % i)
        except Exception:
            need(not closed or i not in [g for g, _ in good], "{}: entity {} can not be read", what, i)
            continue
        same([[tuple(x) for x in s] for s in got], e, what + ": rows of entity %d" % i)
        need(i in [g for g, _ in good], "{}: entity {} was refused, but is there", what, i)
    r.close()
    del r
    same(fds() - base, set(), what + ": files left open")
    return ("read", es, j) if lost else None
