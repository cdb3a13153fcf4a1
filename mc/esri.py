"""Independent strict reader of the ESRI shapefile layout, and the shapes used by C19, C21-C24."""
import copy, struct
from mc.core import need, same

NULL, POINT, LINE, POLYGON, MPOINT = 0, 1, 3, 5, 8
TYPES = (0, 1, 3, 5, 8, 11, 13, 15, 18, 21, 23, 25, 28, 31)
HAS_Z = (11, 13, 15, 18, 31)
HAS_M = HAS_Z + (21, 23, 25, 28)
POINTS = (1, 11, 21)
PARTS = (3, 5, 13, 15, 23, 25, 31)
POLYGONS = (5, 15, 25)
MULTI = (8, 18, 28)
NODATA = -1e39


def take(b, pos, fmt):
    n = struct.calcsize(fmt)
    need(pos + n <= len(b), "the record ends early (at byte {} of {})", pos, len(b))
    return struct.unpack_from(fmt, b, pos), pos + n


def header(b, what):
    need(len(b) >= 100, "{}: only {} bytes", what, len(b))
    code, *unused = struct.unpack_from(">6i", b, 0)
    same((code, unused), (9994, [0] * 5), what + ": file code and unused bytes")
    length, = struct.unpack_from(">i", b, 24)
    same(length * 2, len(b), what + ": file length in the header")
    version, typ = struct.unpack_from("<2i", b, 28)
    same(version, 1000, what + ": version")
    box = struct.unpack_from("<8d", b, 36)
    return typ, box[:4], box[4:6], box[6:8]


def shp(b):
    """Returns (type, box, zrange, mrange, shapes); every record must fill its declared length exactly."""
    typ, box, zr, mr = header(b, ".shp")
    shapes = []
    pos = 100
    while pos < len(b):
        (num, length), p = take(b, pos, ">2i")
        same(num, len(shapes) + 1, "record number")
        end = p + 2 * length
        need(end <= len(b), "record {} exceeds the file", num)
        (t,), p = take(b, p, "<i")
        s = dict(type=t, offset=pos, length=length, parts=None, points=[], z=None, m=None, partTypes=None, box=None,
                 zr=None, mr=None)
        if t == 0:
            pass
        elif t in POINTS:
            pt, p = take(b, p, "<2d")
            s["points"] = [pt]
            if t == 11:
                s["z"], p = take(b, p, "<d")
            if t in (11, 21):
                s["m"], p = take(b, p, "<d")
        else:
            need(t in TYPES, "unknown shape type {}", t)
            s["box"], p = take(b, p, "<4d")
            k = 0
            if t in PARTS:
                (k,), p = take(b, p, "<i")
            (n,), p = take(b, p, "<i")
            need(k >= 0 and n >= 0, "negative counts")
            if t in PARTS:
                parts, p = take(b, p, "<%di" % k)
                s["parts"] = list(parts)
            if t == 31:
                pts, p = take(b, p, "<%di" % k)
                s["partTypes"] = list(pts)
            xy, p = take(b, p, "<%dd" % (2 * n))
            s["points"] = list(zip(xy[::2], xy[1::2]))
            if t in HAS_Z:
                s["zr"], p = take(b, p, "<2d")
                s["z"], p = take(b, p, "<%dd" % n)
            if t in HAS_M and p < end:
                s["mr"], p = take(b, p, "<2d")
                s["m"], p = take(b, p, "<%dd" % n)
        same(p, end, "end of record %d" % num)
        shapes.append(s)
        pos = end
    return typ, box, zr, mr, shapes


def shx(b):
    typ, box, zr, mr = header(b, ".shx")
    need((len(b) - 100) % 8 == 0, ".shx: odd size {}", len(b))
    return (typ, box, zr, mr), [struct.unpack_from(">2i", b, p) for p in range(100, len(b), 8)]


def dbf(b):
    """Returns (fields, rows of bytes, deletion flags)."""
    need(len(b) >= 33, ".dbf: only {} bytes", len(b))
    count, hlen, rlen = struct.unpack_from("<LHH", b, 4)
    need(b[0] & 7 == 3, ".dbf: version {}", b[0])
    need((hlen - 33) % 32 == 0 and hlen >= 33, ".dbf: header length {}", hlen)
    need(len(b) >= hlen and b[hlen - 1:hlen] == b"\r", ".dbf: header is not terminated at its length")
    fields = []
    for p in range(32, hlen - 1, 32):
        name, typ, size, dec = struct.unpack_from("<11sc4xBB", b, p)
        need(b"\0" in name, ".dbf: field name {} is not terminated", name)
        need(not name.rstrip(b"\0").count(b"\0"), ".dbf: field name {} is not padded with zeros", name)
        fields.append((name.rstrip(b"\0"), typ, size, dec))
    same(rlen, 1 + sum(f[2] for f in fields), ".dbf: record length")
    body = b[hlen:]
    need(len(body) in (count * rlen, count * rlen + 1), ".dbf: {} bytes of records, header says {} of {}", len(body),
         count, rlen)
    need(len(body) == count * rlen or body[-1:] == b"\x1a", ".dbf: trailing byte")
    rows, flags = [], []
    for i in range(count):
        r = body[i * rlen:(i + 1) * rlen]
        flags.append(r[:1])
        p, row = 1, []
        for f in fields:
            row.append(r[p:p + f[2]])
            p += f[2]
        rows.append(row)
    return fields, rows, flags


# --- shapes to write: ("null",) | ("point", coordinates) | ("poly", parts[, part types])

A = [(0, 0), (0, 2), (2, 2), (2, 0)]                                    # open, clockwise
B = [[1, 1, 5, 2.5], [3.5, 1, -7, 1], [3, -2, 6.25, 9], [1, 1, 5, 2.5]]     # closed, counter-clockwise? (z, m)
C = [(-1.5, 1e-7, 3), (7e5, -2e9, 4), [1, 1, 4]]                        # open, three coordinates
D = [(0.1, 0.2, -3, None), (5, 6, -1, 4), (5, -0.25, -2, NODATA), (0.1, 0.2, -3, None)]
E1 = [(3, -4, 8, 6)]


def catalogue(t, small=False):
    """Shapes of a type, simplest first."""
    if t == 0:
        return [("null",)]
    if t in POINTS:
        out = [("null",), ("point", (1, 2)), ("point", (-3.25, 1e9, 7)), ("point", (0, -5, -6.5, 3)),
               ("point", (5, 5, 0, -2)), ("point", (1e-300, 0.1, 1, NODATA))]
    elif t in MULTI:
        out = [("null",), ("poly", (E1,)), ("poly", (A,)), ("poly", (B[:3],)), ("poly", (D,)), ("poly", (C, A))]
    elif t == 31:
        out = [("null",), ("poly", (A,)), ("poly", (A, C, B), (0, 1, 5)), ("poly", (D, C), (2, 3)), ("poly", (B, D)),
               ("poly", (C,), (4,))]
    elif t in POLYGONS:
        out = [("null",), ("poly", (A,)), ("poly", (B,)), ("poly", (A, D)), ("poly", (C, B, A)), ("poly", (D,))]
    else:
        out = [("null",), ("poly", (A[:2],)), ("poly", (B,)), ("poly", (C, A)), ("poly", (D, E1, C)), ("poly", (D,))]
    if t not in POINTS:     # a shape without any points
        out.append(("poly", ()) if t != 31 else ("poly", (), ()))
    return out[:4] if small else out


def add(w, t, shape):
    """Adds a shape to a writer the documented way; the caller's lists must not change."""
    arg = copy.deepcopy(shape)
    if shape[0] == "null":
        w.null()
    elif shape[0] == "point":
        w.point(*arg[1])
    else:
        parts = list(arg[1])
        args = [list(arg[2])] if len(arg) > 2 else []
        if t in (3, 13, 23):
            w.line(parts, t)
        else:
            w.poly(parts, t, *args)
        same((tuple(parts),) + tuple(tuple(a) for a in args), tuple(shape[1:]), "the caller's lists after adding a shape")


def floats(seq):
    return [NODATA if v is None else float(v) for v in seq]


def expected(t, shape):
    """What must be stored: dict(type, parts, points, z, m, partTypes)."""
    if shape[0] == "null":
        return dict(type=0, parts=None, points=[], z=None, m=None, partTypes=None)
    if shape[0] == "point":
        parts = [[shape[1]]]
        ptypes = None
    else:
        parts = [list(p) for p in shape[1]]
        ptypes = list(shape[2]) if len(shape) > 2 else [5] * len(parts)
    parts = [[tuple(floats(tuple(p) + (0,) * (4 - len(p)))) for p in part] for part in parts]
    if t in POLYGONS or t == 31:
        for i, part in enumerate(parts):
            if part[0] != part[-1] and (t != 31 or ptypes[i] not in (0, 1)):
                part.append(part[0])
    starts, n = [], 0
    for p in parts:
        starts.append(n)
        n += len(p)
    pts = [p for part in parts for p in part]
    return dict(type=t, parts=starts if t in PARTS else None, points=[p[:2] for p in pts],
                z=[p[2] for p in pts] if t in HAS_Z else None,
                m=[p[3] for p in pts] if t in HAS_M else None,
                partTypes=ptypes if t == 31 else None)


def got(s):
    """The observable content of a shape of the reader, in the form of expected()."""
    t = s.shapeType
    m = getattr(s, "m", None)
    return dict(type=t, parts=list(s.parts) if t in PARTS else None, points=[tuple(p[:2]) for p in s.points],
                z=list(s.z) if t in HAS_Z else None,
                m=None if t not in HAS_M or m is None else [measure(t, v) for v in m],
                partTypes=list(s.partTypes) if t == 31 else None)


def measure(t, v):
    """Missing measures are None, except in single points."""
    if v is None:
        return NODATA
    return v if v > NODATA or t in POINTS else "no data as %r" % v


def span(values):
    v = [x for x in values if x > NODATA]
    return (min(v), max(v)) if v else None


def conform(b_shp, b_shx, t, model):
    """Checks the bytes of both files against the list of expected() shapes."""
    typ, box, zr, mr, shapes = shp(b_shp)
    head, index = shx(b_shx)
    same(head, (typ, box, zr, mr), ".shx header (type, box, ranges) against .shp")
    same(typ, t, "file type")
    same(len(shapes), len(model), "number of records")
    same(index, [(s["offset"] // 2, s["length"]) for s in shapes], "index entries")
    for i, (s, e) in enumerate(zip(shapes, model)):
        for k in ("type", "parts", "partTypes"):
            same(s[k], e[k], "%s of record %d" % (k, i + 1))
        same([tuple(p) for p in s["points"]], e["points"], "points of record %d" % (i + 1))
        for k in ("z", "m"):
            same(None if s[k] is None else list(s[k]), e[k], "%s of record %d" % (k, i + 1))
        if s["box"] is not None and e["points"]:
            same(s["box"], boxof(e["points"]), "box of record %d" % (i + 1))
        if s["zr"] is not None and e["z"]:
            same(s["zr"], span(e["z"]), "elevation range of record %d" % (i + 1))
        if s["mr"] is not None and span(e["m"]):
            same(s["mr"], span(e["m"]), "measure range of record %d" % (i + 1))
    pts = [p for e in model for p in e["points"]]
    if pts:
        same(box, boxof(pts), "box of the file")
    if t in HAS_Z:
        r = span([z for e in model for z in e["z"] or []])
        same(zr, r or zr, "elevation range of the file")
    else:
        same(zr, (0, 0), "elevation range of a file without elevations")
    if t in HAS_M:
        r = span([m for e in model for m in e["m"] or []])
        same(mr, r or mr, "measure range of the file")
    else:
        same(mr, (0, 0), "measure range of a file without measures")


def boxof(pts):
    xs, ys = zip(*pts)
    return min(xs), min(ys), max(xs), max(ys)


def encode(t, model, with_m=True, pad=0):
    """Independent writer: bytes of .shp and .shx for expected() shapes; measures are optional in the layout, and a record may be
    longer than its shape (pad bytes, also in null shapes, as left by lazy deletion)."""
    body, index = bytearray(), bytearray()
    for i, e in enumerate(model):
        c = struct.pack("<i", e["type"])
        if e["type"] in POINTS:
            c += struct.pack("<2d", *e["points"][0])
            if t == 11:
                c += struct.pack("<d", *e["z"])
            if t == 21 or t == 11 and with_m:
                c += struct.pack("<d", *e["m"])
        elif e["type"]:
            c += struct.pack("<4d", *(boxof(e["points"]) if e["points"] else (0,) * 4))
            if e["parts"] is not None:
                c += struct.pack("<i", len(e["parts"]))
            c += struct.pack("<i", len(e["points"]))
            for k in ("parts", "partTypes"):
                if e[k] is not None:
                    c += struct.pack("<%di" % len(e[k]), *e[k])
            c += b"".join(struct.pack("<2d", *p) for p in e["points"])
            for k, on in (("z", True), ("m", with_m)):
                if e[k] is not None and on:
                    c += struct.pack("<2d", *(span(e[k]) or (0, 0)))
                    c += struct.pack("<%dd" % len(e[k]), *e[k])
        c += b"\x07" * pad
        index += struct.pack(">2i", (100 + len(body)) // 2, len(c) // 2)
        body += struct.pack(">2i", i + 1, len(c) // 2) + c

    def head(size):
        pts = [p for e in model for p in e["points"]]
        return (struct.pack(">7i", 9994, 0, 0, 0, 0, 0, (100 + size) // 2) + struct.pack("<2i", 1000, t)
                + struct.pack("<8d", *(boxof(pts) if pts else (0,) * 4), 0, 0, 0, 0))
    return head(len(body)) + bytes(body), head(len(index)) + bytes(index)
