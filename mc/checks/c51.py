"""The documented ways of making a map, end to end: every list of up to 2 (thorough: 3) countries out of a catalogue of 9 (one to four
parts, islands too small to draw, slits, repeated names, accents, another continent) x 5 projections x 2 pixel sizes x 4 recipes:
straight from a shapefile with black borders; in colour on a background with the box kept for parts that begin outside; from a P
file made of the shapefile, by a table of names; through a frame with cached names, saved and loaded, on a square page."""
import contextlib, io, itertools, math, struct
from mc.core import same, need, scratch, fresh, Bad
from mc import esri, ps
from mc.checks.c04 import near, chain
from mc.checks.c30 import floats
from coral import bbox, coord, frame, pf, proj, shapefile, table, tqdm, vector

LEVEL = "exploration"
RULE = "one case is one list of countries with one projection, pixel size and recipe; non-trivial: some part is drawn"
LIMIT = 20


def ring(x, y, w, h, n):
    """A rectangle, drawn clockwise with n points on each side."""
    c = [(x, y), (x, y + h), (x + w, y + h), (x + w, y), (x, y)]
    out = []
    for (a, b), (p, q) in zip(c, c[1:]):
        out += [(a + (p - a) * i / n, b + (q - b) * i / n) for i in range(n)]
    return out + c[:1]


CITY = (
    ("Mali", "Africa", "ML", [ring(0, 0, 10, 8, 4)]),
    ("Côte", "Africa", "CI", [ring(-20, -10, 12.5, 7.25, 3), ring(20, 20, 1, 1, 1), ring(-3, -3, 2, 5, 2)]),
    ("Spit", "Africa", "SP", [[(5, 5), (5, 9), (5, 15), (5, 9), (9, 9), (9, 5), (5, 5)]]),
    ("Fran", "Europe", "FR", [ring(-4, 42, 12, 9, 5), ring(9, 41, 0.75, 2, 2), ring(-60, 3, 5, 4, 3), ring(55.2, -21, 0.6, 0.5, 1)]),
    ("Nørd", "Europe", "NO", [[(5, 58), (5, 62), (12, 66), (30, 70), (28, 68), (14, 64), (12, 59), (5, 58)]]),
    ("Star", "Europe", "ST", [[(20, 50), (22, 54), (20.5, 60.125), (24, 55), (30, 54), (25, 52), (26, 47), (22, 51), (20, 50)]]),
    ("Mali", "Europe", "M2", [ring(30, 40, 3, 3, 2)]),
    ("Tiny", "Africa", "TN", [ring(12, 1, 0.001, 0.001, 1)]),
    ("Seam", "Africa", "SE", [[(34, -8), (30, -8), (30, -4), (38, -4), (38, -8), (34, -8)], [(31, -10), (31, -9), (31.5, -9.5), (31, -10)]]),
)
PRJ = (lambda: proj.TransMercator(), lambda: proj.Mercator((10, 0)), lambda: proj.ConicEqualArea((41.2, 65.8)),
       lambda: proj.AzimuthalEqualArea((15, 45)), lambda: proj.EckertIV())
REGION = (-25, 41, 35, 72)
LAND, BORDER, OCEAN = (0.4, 0.9, 0.2), (1, 1, 1), (0.5, 0.8, 0.9)
INKS = ((LAND, BORDER), (BORDER, BORDER), (BORDER, LAND), (OCEAN, OCEAN), (LAND, LAND), (0.25, 0.25), (BORDER, 0.25))     # in turn
RECIPES = ("africa", "europe", "table", "frame")


def cases(tier):
    for n in (0, 1, 2) if tier == "quick" else (0, 1, 2, 3):
        for c in itertools.product(range(len(CITY)), repeat=n):
            for p in range(len(PRJ)):
                for px in (50000, 333333):
                    for r in RECIPES:
                        if n < 3 or (px == 50000 and p < 3):
                            yield c, p, px, r


def dbf(rows, enc):
    head = [(b"NAME", 8), (b"CONTINENT", 10), (b"CODE", 3)]
    b = struct.pack("<4BIHH20x", 3, 114, 1, 1, len(rows), 32 * len(head) + 33, 1 + sum(s for _, s in head))
    for n, s in head:
        b += struct.pack("<11sc4xBB14x", n, b"C", s, 0)
    b += b"\r"
    for r in rows:
        b += b" " + b"".join(v.encode(enc).ljust(s) for v, (_, s) in zip(r, head))
    return b + b"\x1a"


def expect(parts, prj, px):
    return [[(near(x, px), near(y, px)) for x, y in (prj.geo2rect(*q) for q in part)] for part in parts]


def compare(got, want, back, what):
    """got: (figures as painted, ink by ink); want: [(snapped points, fill, stroke)]; returns [(snapped points, drawn points)]."""
    if back is not None:
        need(got and got[0][0] == "fill", "{}: no background", what)
        same(floats(got[0][2]), floats(back), what + ": background")
        got = got[1:]
    seq = []
    for snapped, fill, stroke in want:
        if fill is not None:
            seq.append(("fill", snapped, fill))
        if stroke is not None:
            seq.append(("stroke", snapped, stroke))
    same([g[0] for g in got], [s[0] for s in seq], what + ": what is painted")
    drawn = []
    for g, (_, snapped, ink) in zip(got, seq):
        subs = ps.shape(g[1])
        need(len(subs) <= 1, "{}: {} paths in one figure", what, len(subs))
        pts = [q[1:] for q in subs[0][0]] if subs else []
        if subs:
            need(subs[0][1], "{}: an open path", what)
            need(all(q[0] == "p" for q in subs[0][0]), "{}: not only lines", what)
        for q in pts:
            need(q in snapped, "{}: point {} is drawn, the part has {}", what, q, snapped)
        if chain(pts + pts[:1]) != chain(snapped + snapped[:1]):
            raise Bad("%s: outline %r is drawn for %r" % (what, pts, snapped))
        want_ink = ink if isinstance(ink, tuple) else (ink,) * 3
        g_ink = g[2] if isinstance(g[2], tuple) else (g[2],) * 3
        same(floats(g_ink), floats(want_ink), what + ": ink")
        drawn.append((snapped, pts))
    return drawn


def bounds(rings):
    """Of all but the figures without extent."""
    rings = [r for r in rings if len(set(r)) > 1]
    xs, ys = [p[0] for r in rings for p in r], [p[1] for r in rings for p in r]
    return (min(xs), min(ys), max(xs), max(ys)) if xs else (0, 0, 0, 0)


def check(case):
    fresh()
    c, p, px, recipe = case
    rows = [CITY[i] for i in c]
    model = [esri.expected(5, ("poly", tuple(r[3]))) for r in rows]
    bs, bx = esri.encode(5, model)
    for ext, data in (("shp", bs), ("shx", bx), ("dbf", dbf([r[:3] for r in rows], "latin1" if recipe in ("africa", "europe") else "utf8"))):
        with open(scratch("in." + ext), "wb") as f:
            f.write(data)
    prj = PRJ[p]()
    out = scratch("map.eps")
    what = "%s of %r, projection %d, pixel %d" % (recipe, [r[2] for r in rows], p, px)
    with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
        drawn = {"africa": africa, "europe": europe, "table": by_table, "frame": by_frame}[recipe](rows, prj, px, out, what)
    return case if drawn else None


def africa(rows, prj, px, out, what):
    sf = shapefile.Reader(scratch("in"), encoding="latin1")
    cvs = vector.Canvas()
    for sr in tqdm.tqdm(sf.shapeRecords()):
        if sr.record[1] != "Africa":
            continue
        points = sr.shape.points
        offsets = list(sr.shape.parts) + [len(points)]
        for a, b in zip(offsets[:-1], offsets[1:]):
            if b - a < 6:
                continue
            polygon = (prj.geo2rect(lon, lat) for lon, lat in points[a:b])
            polygon = coord.simplify(polygon, px)
            cvs.addpolygon(polygon, stroke=0)
    cvs.save(out)
    want = [(s, None, 0) for r in rows if r[1] == "Africa" for s in expect([q for q in r[3] if len(q) >= 6], prj, px)]
    box, got = ps.run_file(out)
    drawn = compare(got, want, None, what)
    same(box, bounds([d[1] for d in drawn]), what + ": bounding box")
    return len(want)


def europe(rows, prj, px, out, what):
    lon0, lon1, lat0, lat1 = REGION
    sf = shapefile.Reader(scratch("in"), encoding="latin1")
    cvs = vector.Canvas(OCEAN)
    n = 0
    for sr in tqdm.tqdm(sf.shapeRecords()):
        if sr.record[1] != "Europe":
            continue
        points = sr.shape.points
        offsets = list(sr.shape.parts) + [len(points)]
        for a, b in zip(offsets[:-1], offsets[1:]):
            lon, lat = points[a]
            outside = not lon0 < lon < lon1 or not lat0 < lat < lat1
            if outside:
                bb = cvs.bbox
            polygon = (prj.geo2rect(lon, lat) for lon, lat in points[a:b])
            polygon = coord.simplify(polygon, px)
            fill, stroke = INKS[n % len(INKS)]
            n += 1
            cvs.addpolygon(polygon, fill=fill, stroke=stroke)
            if outside:
                cvs.bbox = bb
    cvs.save(out)
    want, inner = [], []
    for r in rows:
        if r[1] == "Europe":
            for q, s in zip(r[3], expect(r[3], prj, px)):
                want.append((s,) + INKS[len(want) % len(INKS)])
                inner.append(lon0 < q[0][0] < lon1 and lat0 < q[0][1] < lat1)
    box, got = ps.run_file(out)
    drawn = compare(got, want, OCEAN, what)
    b = bounds([d[1] for d, k in zip(drawn[::2], inner) if k])
    same(box, b, what + ": bounding box")
    same(sorted({q[1:] for q in ps.shape(got[0][1])[0][0]}), sorted({(x, y) for x in b[::2] for y in b[1::2]}), what + ": corners of the background")
    return len(want)


def stored(rows, prj, px):
    """The P file keeps points only roughly: what is drawn is compared with the points it gives back."""
    errs = pf.sf2pf(scratch("in"), scratch("x.p"), lambda r: r[2], 4)
    r = pf.Reader(scratch("x.p"))
    same(list(r.names), [q[2] for q in rows], "entities of the P file")
    parts = [[list(l) for l in r.read(i)] for i in range(len(rows))]
    for got, row in zip(parts, rows):
        same([len(l) for l in got], [len(l) - 1 for l in row[3]], "points of the parts of " + row[2])
        for l, m in zip(got, row[3]):
            for (a, b), (x, y) in zip(l, m):
                need(abs(a - x) < 1e-6 and abs(b - y) < 1e-6, "{} is stored as {}", (x, y), (a, b))
    return r, parts


def by_table(rows, prj, px, out, what):
    pff, parts = stored(rows, prj, px)
    order = rows[::-1]
    with open(scratch("uf.csv"), "w", encoding="utf8") as f:
        f.write("# countries\n\nname,uf_id # both\n" + "".join("%s,%s  # %d\n" % (r[0], r[2], i) for i, r in enumerate(order)))
    page = vector.Canvas()
    for uf in tqdm.tqdm(table.readfile(scratch("uf.csv"))):
        for poly in pff.get(uf.uf_id):
            poly = [prj.geo2rect(lon, lat) for lon, lat in poly]
            poly = list(coord.simplify(poly, px, closed=True))
            if len(poly) < 3:
                continue
            page.addpolygon(poly, stroke=0.25)
    page.save(out, margin=5)
    first = {}
    for r, q in zip(rows, parts):
        first.setdefault(r[2], q)
    want = [(s, None, 0.25) for r in order for s in expect(first[r[2]], prj, px)]
    # what has no corners left is not drawn
    flat = [w for w in want if not chain(w[0] + w[0][:1])]
    box, got = ps.run_file(out)
    if len(got) != len(want):
        want = [w for w in want if w not in flat]
    drawn = compare(got, want, None, what)
    b = bounds([d[1] for d in drawn])
    need(not want or box == (b[0] - 5, b[1] - 5, b[2] + 5, b[3] + 5), "{}: bounding box {}, expected 5 around {}", what, box, b)
    return len(want)


def by_frame(rows, prj, px, out, what):
    pff, parts = stored(rows, prj, px)
    lon0, lon1, lat0, lat1 = REGION
    corners = [prj.geo2rect(lon, lat) for lon in (-5, 25) for lat in (-5, 60)]
    fr = frame.Frame(prj, bbox.BBox(corners))
    fr.save(scratch("frame.json"))
    fr = frame.load(scratch("frame.json"))
    n = fr.cachenames(scratch("cache"), pff)
    names = fr.loadnames(scratch("cache"))
    b = fr.bounding
    inside = []
    for r, q in zip(rows, parts):
        for l in q:
            xy = [prj.geo2rect(*t) for t in l]
            x0, y0, x1, y1 = bounds([xy])
            if max(x0, b.x0) < min(x1, b.x1) and max(y0, b.y0) < min(y1, b.y1):
                inside.append(r[2])
                break
    same(names, inside, what + ": names in the frame")
    same(n, len(inside), what + ": number of names in the frame")
    cvs = vector.Canvas(0.5)
    for nm in names:
        for poly in pff.get(nm):
            cvs.addpolygon(fr.planify(px, poly), fill=LAND, stroke=0)
    size, margin = 400, 40
    cvs.save(out, size, margin)
    first = {}
    for r, q in zip(rows, parts):
        first.setdefault(r[2], q)
    want = [(s, LAND, 0) for nm in inside for s in expect(first[nm], prj, px)]
    box, got = ps.run_file(out)
    same(box, (0, 0, size, size), what + ": bounding box")
    # slits are not drawn, so that they do not count
    x0, y0, x1, y1 = bounds([list(fr.planify(px, l)) for nm in inside for l in first[nm]])
    scl = (size - margin) / (max(x1 - x0, y1 - y0) or 1)

    def undo(seg):
        if seg[0] not in "ml":
            return seg
        x, y = ((seg[1][0] - size / 2) / scl + (x0 + x1) / 2, (seg[1][1] - size / 2) / scl + (y0 + y1) / 2)
        need(abs(x - round(x)) < 1e-6 and abs(y - round(y)) < 1e-6, "{}: {} is drawn, which is {} on the plane", what, seg, (x, y))
        return (seg[0], (round(x), round(y)))
    compare(got[:1] + [(g[0], tuple(undo(s) for s in g[1])) + g[2:] for g in got[1:]], want, (0.5, 0.5, 0.5), what)
    return len(want)
