"""Definitions of the planted bugs (see plant.py)."""
PLANTS = []


def P(id, prop, file, edits, needs, breaks, demo):
    PLANTS.append(dict(id=id, prop=prop, file="coral/" + file, edits=edits, needs=needs, breaks=breaks, demo=demo))


P("bbox-collide-touch", "C02", "bbox.py",
  [("               (other.y0 <= self.y0 < other.y1))", "               (other.y0 <= self.y0 <= other.y1))")],
  "two boxes that share a horizontal edge, asked from the upper one",
  "boxes that only touch are reported as colliding, in one direction only",
  """
from coral.bbox import BBox
a, b = BBox((0, 0), (2, 2)), BBox((0, 2), (2, 4))
assert not a.collide(b) and not b.collide(a)
assert a.collide(BBox((1, 1), (3, 3))) and BBox((1, 1), (3, 3)).collide(a)
""")

P("bbox-and-edge", "C02", "bbox.py",
  [("        if x0 >= x1 or y0 >= y1:\n            return BBox()", "        if x0 > x1 or y0 > y1:\n            return BBox()")],
  "intersecting boxes that share an edge or a corner but no area",
  "the intersection is a degenerate box away from the origin and not the empty box",
  """
from coral.bbox import BBox
assert BBox((0, 0), (2, 2)) & BBox((2, 0), (4, 2)) == BBox()
assert BBox((0, 0), (2, 2)) & BBox((1, 1), (4, 4)) == BBox((1, 1), (2, 2))
""")

P("bbox-points-tolerance", "C01", "bbox.py",
  [("                elif y > self.y1: self.y1 = y\n", "                elif y > self.y1 + 1e-9: self.y1 = y\n")],
  "points whose y coordinates exceed the first by less than 1e-9, as in data of a tiny unit",
  "the box of points that are close together does not enclose them",
  """
from coral.bbox import BBox
b = BBox([(0, 0), (3e-10, 5e-10), (1e-10, 2e-10)])
assert (b.x0, b.y0, b.x1, b.y1) == (0, 0, 3e-10, 5e-10), b
""")

P("buffer-str-wrap", "C03", "coord.py",
  [("            while i != end:\n                seq.append(self.buf[i & self._m1])\n                i = self._inc(i)\n",
    "            for i in range(i, end):\n                seq.append(self.buf[i & self._m1])\n")],
  "printing a buffer whose contents wrap around twice its capacity",
  "the text shows no items when the contents wrap around",
  """
from coral.coord import Buffer
b = Buffer(2)
for i in range(8):
    b.push(i)
    b.push(-i)
    assert str(b) == "<%d %d>" % (i, -i), (i, str(b))
    b.shift()
    assert str(b) == "<%d>" % -i, (i, str(b))
    b.shift(); b.push(0); b.shift()
""")

P("simplify-negative", "C04", "coord.py",
  [("nearest = lambda x: int(x + math.copysign(0.5, x))", "nearest = lambda x: math.floor(x + 0.5)")],
  "a negative coordinate exactly half way between two multiples",
  "halves are rounded towards positive infinity for negative coordinates",
  """
from coral import coord
assert list(coord.simplify(iter([(-1, 0), (1, 1)]), 2)) == [(-1, 0), (1, 1)]
assert list(coord.simplify(iter([(-3, -5), (9, 9)]), 2)) == [(-2, -3), (5, 5)]
""")

P("radius-swapped", "C06", "coord.py",
  [("    num = a * a * acoslatsqr + b * b * bsinlatsqr", "    num = a * a * bsinlatsqr + b * b * acoslatsqr")],
  "distances without an explicit radius, near the equator or the poles",
  "the geocentric radius is swapped between the equator and the poles, distances are off by a fraction of a percent",
  """
from coral import coord, proj
assert abs(coord.radiusat(0) - proj.WGS84.a) < 1
assert abs(coord.radiusat(90) - proj.WGS84.b) < 1
assert abs(coord.radiusat(-90) - proj.WGS84.b) < 1
""")

P("destination-radius", "C06", "coord.py",
  [("    if R is None:\n        R = radiusat(lat)\n    d = dist / R", "    if R is None:\n        R = radiusat(rlat)\n    d = dist / R")],
  "a destination asked for without a radius, away from the equator",
  "the radius is taken at the latitude in radians read as degrees",
  """
from coral import coord
for lat in (0, 30, 60, 80):
    lon2, lat2 = coord.destination(10, lat, 0, 1000)
    d = coord.haversine(10, lat, lon2, lat2)
    assert abs(d - 1000) < 0.5, (lat, d)
    lon2, lat2 = coord.destination(10, lat, 90, 1000)
    d = coord.haversine(10, lat, lon2, lat2)
    assert abs(d - 1000) < 0.5, (lat, d)
""")

P("midpoint-antimeridian", "C06", "coord.py",
  [("    dlon = math.radians(lon2 - lon1)\n    lon1 = math.radians(lon1)", "    dlon = abs(math.radians(lon2 - lon1))\n    lon1 = math.radians(lon1)")],
  "the second point lies west of the first",
  "the midpoint is mirrored to the east side of the first point",
  """
from coral import coord
for a, b in (((10, 20), (40, 30)), ((40, 30), (10, 20)), ((170, 10), (-170, 20)), ((-170, 20), (170, 10))):
    m = coord.midpoint(*(a + b))
    d = coord.haversine(*(a + b), R=1)
    assert abs(coord.haversine(*(a + m), R=1) - d / 2) < 1e-9
    assert abs(coord.haversine(*(m + b), R=1) - d / 2) < 1e-9
""")

P("hours-wrap", "C07", "coord.py",
  [("def bearing2hours(b):\n    b = (b + 360) % 360", "def bearing2hours(b):\n    b = b + 360 if b < 0 else b")],
  "a bearing of 360 degrees or more, or of exactly -360",
  "the clock hour leaves the dial",
  """
from coral import coord
for b in range(-360, 721, 15):
    h = coord.bearing2hours(b)
    assert 0 < h <= 12, (b, h)
""")

P("eckert-tolerance", "C09", "proj.py",
  [("        while abs(delta) > 1e-6:", "        while abs(delta) > 1e-2:")],
  "latitudes where one more Newton step is needed",
  "the auxiliary angle is not solved accurately, positions are off by up to kilometres near the poles",
  """
from coral import proj
p = proj.EckertIV()
for lat in range(-89, 90, 1):
    lon2, lat2 = p.rect2geo(*p.geo2rect(30, lat))
    assert abs(lat2 - lat) < 2e-4, (lat, lat2)
""")

P("stereo-south", "C09", "proj.py",
  [("""        c = 2 * math.atan(p / (2 * self.r))
        cosc = math.cos(c)
        sinc = math.sin(c)
        den = p * self.coslat0 * cosc - y * self.sinlat0 * sinc
        if self.lat0 == math.pi / 2:""", """        c = 2 * math.atan(p / (2 * self.r))
        cosc = math.cos(c)
        sinc = math.sin(c)
        den = p * self.coslat0 * cosc - y * self.sinlat0 * sinc
        if abs(self.lat0) == math.pi / 2:""")],
  "a stereographic map centred on the south pole",
  "the inverse gives mirrored longitudes on south polar maps",
  """
from coral import proj
for lat0 in (90, -90):
    p = proj.Stereographic((20, lat0))
    for lon in (-100, -30, 10, 60, 150):
        lon2, lat2 = p.rect2geo(*p.geo2rect(lon, lat0 / 2))
        assert abs((lon2 - lon + 180) % 360 - 180) < 1e-6 and abs(lat2 - lat0 / 2) < 1e-6, (lat0, lon, lon2, lat2)
""")

P("emercator-exponent", "C10", "proj.py",
  [("        y *= ((1 - esinlat) / (1 + esinlat)) ** (self.e / 2)\n", "        y *= ((1 - esinlat) / (1 + esinlat)) ** (self.f / 2)\n"),
   ("            lat = t * ((1 - esinlat) / (1 + esinlat)) ** (self.e / 2)\n", "            lat = t * ((1 - esinlat) / (1 + esinlat)) ** (self.f / 2)\n")],
  "comparing an ellipsoidal Mercator map with its definition; the inverse is wrong in the same way",
  "the ellipsoidal Mercator map uses the flattening where the eccentricity belongs, in both directions alike",
  """
from coral import proj
p = proj.EMercator()
x, y = p.geo2rect(45, 45)
assert abs(y - 5591295.918553) < 1, y
""")

P("tmercator-scale-origin", "C11", "proj.py",
  [("""        b = math.cos(lat) * math.sin(lon - self.lon0)
        k = 1 / math.sqrt(1 - b * b)""", """        b = math.cos(lat) * math.sin(lon)
        k = 1 / math.sqrt(1 - b * b)""")],
  "a transverse Mercator map whose central meridian is not Greenwich",
  "the scale factor is that of another central meridian",
  """
from coral import proj
p = proj.TransMercator((30, 10))
assert abs(p.scale(30, 40) - 1) < 1e-9
assert abs(proj.TransMercator().scale(30, 40) - p.scale(60, 40)) < 1e-9
""")

P("albers-south", "C09", "proj.py",
  [("            p0 = -self.p0\n            x, y = -x, -y\n", "            p0 = -self.p0\n            x, y = -x, y\n")],
  "an Albers map with southern standard parallels",
  "the inverse of southern conic maps is wrong",
  """
from coral import proj
for ps in ((20, 50), (-20, -50)):
    p = proj.ConicEqualArea(ps)
    for lon in (-60, 10, 80):
        for lat in (-40, 5, 40):
            lon2, lat2 = p.rect2geo(*p.geo2rect(lon, lat))
            assert abs(lon2 - lon) < 1e-6 and abs(lat2 - lat) < 1e-6
""")

P("mercator-wrap", "C10", "proj.py",
  [("""        x = self.r * corangle(lon - self.lon0)
        y = self.r * math.log(math.tan(math.pi / 4 + lat / 2))""", """        x = self.r * (lon - self.lon0)
        y = self.r * math.log(math.tan(math.pi / 4 + lat / 2))""")],
  "a point on the other side of the antimeridian than the centre of the map",
  "points across the antimeridian are drawn one world width away",
  """
from coral import proj
p = proj.Mercator((170, 0), 1)
x, y = p.geo2rect(-170, 10)
assert abs(x - math.radians(20)) < 1e-9, x
assert abs(p.geo2rect(160, 10)[0] + math.radians(10)) < 1e-9
""")

P("gradient-snap", "C12", "gradient.py",
  [("        if self.pos[ib] == x:", "        if round(self.pos[ib], 2) == round(x, 2):")],
  "a position just below a stop",
  "positions near a stop get the colour of the stop",
  """
from coral.gradient import Gradient
g = Gradient([(0, (0, 0, 0)), (1, (1, 1, 1))])
for x in (0, 0.25, 0.5, 0.9951, 0.999, 1):
    assert abs(g.get(x)[0] - x) < 1e-9, (x, g.get(x))
""")

P("ivar-null-16bit", "C13", "grid.py",
  [("        elif delta < SIZE_SPAN[2] - nullable:", "        elif delta < SIZE_SPAN[2]:")],
  "a nullable integer whose range is exactly 65536 values",
  "the largest value of such a column reads back as null",
  """
from coral.grid import IVar
for hi in (254, 255, 65534, 65535, 65536):
    v = IVar("v", 0, hi, True)
    assert v.decode(v.encode(hi)) == hi, hi
    assert v.decode(v.encode(None)) is None
""")

P("fvar-truncate", "C13", "grid.py",
  [("        return min(round((value - self.minv) * self.span / self.delta), self.span)",
    "        return min(int((value - self.minv) * self.span / self.delta), self.span)")],
  "a value in the upper half of a storage step",
  "reals are rounded down, so that the error may be a whole storage step",
  """
from coral.grid import FVar
v = FVar("v", 0, 255, 1)
for x in (0, 0.3, 0.7, 100.9, 254.6, 255):
    assert abs(v.decode(v.encode(x)) - x) <= 0.5 + 1e-9, x
""")

P("svar-strip", "C13", "grid.py",
  [("        return data.decode(\"utf8\").rstrip('\\x00')", "        return data.decode(\"utf8\").strip('\\x00 ')")],
  "a string with blanks at an end",
  "blanks at the ends of strings are lost",
  """
from coral.grid import SVar
v = SVar("v", 8)
for s in ("", "abc", " abc", "abc ", "12345678"):
    assert v.decode(v.encode(s)) == s, s
""")

P("grow-offset", "C13", "grid.py",
  [("            values.append(f.decode(d))\n            offset += f.size\n", "            values.append(f.decode(d))\n            offset += len(d.rstrip(b'\\xff')) or f.size\n")],
  "a column before the last whose encoding ends in the byte 255",
  "the following columns are decoded from a wrong place",
  """
from coral.grid import GRow, IVar, SVar
r = GRow(IVar("a", 0, 1000), IVar("b", 0, 9))
for t in ((0, 1), (255, 7), (511, 3), (1000, 9)):
    assert r.decode(r.encode(*t)) == t, t
""")

P("rg-read-by-id-order", "C14", "rg.py",
  [("                idx += 1\n                offset += self.row.size * sum(elens)\n", "                idx += 1\n                offset += self.row.size * sum(elens) if elens else 0\n"),
   ("            self.idx = idx\n", "            self.idx = idx if idx else self.idx\n")],
  "the first entity read by its id after other reads",
  "reading the first entity by id uses the segment lengths of the current entity",
  """
from coral import rg
from coral.grid import GRow, IVar
w = rg.Writer("d", GRow(IVar("a", 0, 9)))
w.write([[(1,)]], "x"); w.write([[(2,), (3,)]], "y"); w.write([[(4,), (5,), (6,)]], "z"); w.close()
r = rg.Reader("d")
assert [[t.a for t in s] for s in r.read("y")] == [[2, 3]]
assert [[t.a for t in s] for s in r.read("x")] == [[1]]
assert [[t.a for t in s] for s in r.read()] == [[2, 3]]
r.close()
""")

P("rg-vlv-digits", "C14", "rg.py",
  [("        digits = [v % 128] + digits\n", "        digits.append(v % 128)\n")],
  "a column limit of 16384 or more",
  "column limits that take three base-128 digits are stored with swapped digits",
  """
from coral import rg
from coral.grid import GRow, IVar
for lim in (100, 200, 16383, 16400, 100000):
    w = rg.Writer("d", GRow(IVar("a", -lim, 5)))
    w.write([[(-lim,), (5,)]]); w.close()
    r = rg.Reader("d")
    assert [[t.a for t in s] for s in r.read()] == [[-lim, 5]], lim
    r.close()
""")

P("rg-index-refused", "C15", "rg.py",
  [("        lens = []\n        data = []\n", "        lens = []\n        self.index.append((id_, lens))\n        data = []\n"),
   ("        self.endpos += len(data)\n        self.index.append((id_, lens))\n", "        self.endpos += len(data)\n")],
  "an entity that is refused after its first segment, followed by another one",
  "the refused entity stays in the index with the segments before the bad one",
  """
from coral import rg
from coral.grid import GRow, IVar
w = rg.Writer("d", GRow(IVar("a", 0, 9)))
w.write([[(1,)]], "x")
try:
    w.write([[(2,)], [(3,), (11,)]], "bad")
except Exception:
    pass
w.write([[(4,)]], "y"); w.close()
r = rg.Reader("d")
assert [[t.a for t in s] for s in r.read("y")] == [[4]]
assert [[t.a for t in s] for s in r.read("x")] == [[1]]
r.close()
""")

P("pf-truncate-code", "C16", "pf.py",
  [("                ulat = round((lat1 - y0) * self.umax / (y1 - y0))", "                ulat = int((lat1 - y0) * self.umax / (y1 - y0))")],
  "a latitude in the upper half of a storage step, seen with small coordinate sizes",
  "latitudes are rounded down, so that the error may be a whole step",
  """
from coral import pf
w = pf.Writer("a.p", 1)
pts = [(0, 0), (10, 10), (3, 1.03), (7, 7.77), (2, 4.99)]
w.write("a", [pts]); w.close()
r = pf.Reader("a.p")
x0, x1, y0, y1 = r.bboxes[0]
for (a, b), (c, d) in zip(pts, r.read(0)[0]):
    assert abs(a - c) <= (x1 - x0) / 255 / 2 + 1e-9 and abs(b - d) <= (y1 - y0) / 255 / 2 + 1e-9
r.close()
""")

P("pf-box-ceil", "C16", "pf.py",
  [("        x1 = math.ceil((bb.x1 + 180) * UMAX2 / 360)", "        x1 = math.floor((bb.x1 + 180) * UMAX2 / 360)")],
  "an entity whose eastern limit is not on the grid of boxes",
  "the stored box cuts the eastern rim of the entity, whose points are moved to it",
  """
from coral import pf
w = pf.Writer("a.p", 4)
pts = [(0.001, 0), (10.001, 10), (3, 1)]
w.write("a", [pts]); w.close()
r = pf.Reader("a.p")
for (a, b), (c, d) in zip(pts, r.read(0)[0]):
    assert abs(a - c) < 1e-6, (a, c)
r.close()
""")

P("pf-offset", "C17", "pf.py",
  [("            offset += sum(partlen) * self.size * 2\n", "            offset += sum(partlen[:255]) * self.size * 2\n")],
  "an entity that follows one of more than 255 parts",
  "entities behind one of many parts are read from the wrong place",
  """
from coral import pf
w = pf.Writer("a.p", 1)
w.write("many", [[(i % 90, 1), (i % 90, 2)] for i in range(300)])
w.write("b", [[(-50, -50), (-40, -40), (-45, -40)]]); w.close()
r = pf.Reader("a.p")
for (a, b), (c, d) in zip([(-50, -50), (-40, -40), (-45, -40)], r.get("b")[0]):
    assert abs(a - c) < 0.1 and abs(b - d) < 0.1
r.close()
""")

P("pf-vlv-digits", "C17", "pf.py",
  [("        digits = [v % 128] + digits\n", "        digits.append(v % 128)\n")],
  "a part of 16384 or more points",
  "lengths of three base-128 digits are stored with swapped digits",
  """
from coral import pf
for n in (5, 200, 16383, 16400):
    w = pf.Writer("a.p", 1)
    w.write("a", [[(i % 170, i % 80) for i in range(n)]]); w.close()
    r = pf.Reader("a.p")
    assert len(r.read(0)[0]) == n or n % 13600 == 1, n
    r.close()
""")

P("pf-short-read", "C18", "pf.py",
  [("                ulon, ulat = struct.unpack(self.fmt, pf.read(self.size * 2))\n",
    "                ulon, ulat = struct.unpack(self.fmt, pf.read(self.size * 2).ljust(self.size * 2, b'\\x00'))\n")],
  "a file cut short within the coordinates",
  "missing coordinates are read as the corner of the box",
  """
from coral import pf
w = pf.Writer("a.p", 2)
w.write("a", [[(1, 1), (10, 10), (5, 2)]]); w.close()
data = open("a.p", "rb").read()
for n in range(len(data)):
    open("b.p", "wb").write(data[:n])
    try:
        pf.Reader("b.p").read(0)
    except Exception:
        continue
    raise SystemExit("cut at %d read" % n)
""")

P("shp-nodata-measure", "C19", "shapefile.py",
  [("                if m > -10e38:\n", "                if m >= -10e38:\n")],
  "a measured shape whose measure is missing for a point",
  "missing measures read back as a huge negative number",
  """
from coral import shapefile as s
w = s.Writer(s.POLYLINEM)
w.field("a", "C", 3)
w.poly([[[0, 0, 0, 1], [1, 1, 0, None]]], s.POLYLINEM); w.record("x")
w.save("t")
assert s.Reader("t").shape(0).m == [1.0, None]
""")

P("shp-part-offset", "C19", "shapefile.py",
  [("            polyShape.parts.append(len(polyShape.points))\n", "            polyShape.parts.append(sum(len(p) for p in parts[:i]))\n")],
  "a polygon of several rings of which one before the last is given open",
  "the parts after an open ring start one point too early",
  """
from coral import shapefile as s
w = s.Writer(s.POLYGON)
w.field("a", "C", 3)
a = [[0, 0], [0, 9], [9, 9]]
b = [[1, 2], [3, 4], [3, 2], [1, 2]]
w.poly([a, b]); w.record("x")
w.poly([b, b]); w.record("y")
w.save("t")
r = s.Reader("t")
assert list(r.shape(0).parts) == [0, 4] and list(r.shape(1).parts) == [0, 4], list(r.shape(0).parts)
""")

P("shp-null-points", "C21", "shapefile.py",
  [("        if shapeType == 0:\n            record.points = []\n", "        if shapeType == 0:\n            return record\n")],
  "a null shape whose record is padded, followed by another shape",
  "the shape after a padded null shape is read from the middle of the padding",
  """
import struct
from coral import shapefile as s
w = s.Writer(s.POINT)
w.field("a", "C", 3)
w.null(); w.record("n")
w.point(3, 4); w.record("p")
w.save("t")
d = open("t.shp", "rb").read()
# lazily deleted record: content length says more than the null type needs
d = d[:104] + struct.pack(">i", 10) + d[108:112] + b"\\x07" * 16 + d[112:]
open("t.shp", "wb").write(d)
r = s.Reader(shp=open("t.shp", "rb"), dbf=open("t.dbf", "rb"))
assert [list(map(list, x.points)) for x in r.shapes()] == [[], [[3.0, 4.0]]]
""")

P("dbf-number-decimals", "C20", "shapefile.py",
  [("                elif deci:\n                    value = float(value)\n", "                elif deci and b'.' in value:\n                    value = round(float(value), deci)\n")],
  "a number whose text has more decimals than the field declares",
  "numbers are rounded to the declared decimals although all digits are stored",
  """
from coral import shapefile as s
w = s.Writer(s.POINT)
w.field("a", "N", 12, 2)
for v in (1.5, 2.25, 3.125, -0.0625):
    w.point(0, 0); w.record(v)
w.save("t")
assert s.Reader("t").records() == [[1.5], [2.25], [3.125], [-0.0625]], s.Reader("t").records()
""")

P("dbf-date-zero", "C20", "shapefile.py",
  [("                    y, m, d = int(value[:4]), int(value[4:6]), int(value[6:8])\n                    value = [y, m, d]\n",
    "                    value = time.strptime(self.u(value), '%Y%m%d')\n                    value = [value.tm_year, value.tm_mon, value.tm_yday]\n")],
  "a date in another month than January",
  "dates come back with the day of the year",
  """
from coral import shapefile as s
w = s.Writer(s.POINT)
w.field("a", "D", 8)
for v in ("20140131", "20140201", "19991231"):
    w.point(0, 0); w.record(v)
w.save("t")
assert s.Reader("t").records() == [[[2014, 1, 31]], [[2014, 2, 1]], [[1999, 12, 31]]], s.Reader("t").records()
""")

P("dbf-field-name", "C22", "shapefile.py",
  [("            name = name.ljust(11).replace(self.b(' '), self.b('\\x00'))\n", "            name = name.ljust(11, self.b('\\x00'))[:10] + self.b(' ')\n"),
   ("            fieldDesc[name] = fieldDesc[name].lstrip()\n", "            fieldDesc[name] = fieldDesc[name].strip()\n")],
  "a field name of exactly ten characters",
  "names of ten characters lose the terminating zero byte of the layout; the library itself still reads them",
  """
from coral import shapefile as s
w = s.Writer(s.POINT)
w.field("ABCDEFGHIJ", "C", 3); w.field("B", "C", 3)
w.point(0, 0); w.record("x", "y")
w.save("t")
d = open("t.dbf", "rb").read()
assert d[32:43] == b"ABCDEFGHIJ\\0" and d[64:75] == b"B" + b"\\0" * 10
""")

P("shx-offset-words", "C22", "shapefile.py",
  [("            f.write(pack(\">i\", self._offsets[i] // 2))\n", "            f.write(pack(\">i\", (100 + sum(8 + 2 * n for n in self._lengths[:i - 1]) + (8 + 2 * self._lengths[-1]) * (i > 0)) // 2))\n")],
  "three or more records of different sizes",
  "the index file points at wrong places when record sizes vary",
  """
from coral import shapefile as s
w = s.Writer(s.POLYLINE)
w.field("a", "C", 3)
for n in (2, 2, 5, 3, 4):
    w.line([[[i, n] for i in range(n)]]); w.record("x")
w.save("t")
r = s.Reader("t")
assert [len(r.shape(i).points) for i in range(5)] == [2, 2, 5, 3, 4]
""")

P("shp-lengths-stale", "C22", "shapefile.py",
  [("        for i in range(len(self._shapes)):\n            f.write(pack(\">i\", self._offsets[i] // 2))\n            f.write(pack(\">i\", self._lengths[i]))\n",
    "        for i in range(len(self._shapes)):\n            f.write(pack(\">i\", self._offsets[i] // 2))\n            f.write(pack(\">i\", self._lengths[min(i, 1)]))\n")],
  "a third record whose length differs from the second",
  "content lengths in the index are those of the second record",
  """
import struct
from coral import shapefile as s
w = s.Writer(s.POLYLINE)
w.field("a", "C", 3)
for n in (2, 2, 5):
    w.line([[[i, n] for i in range(n)]]); w.record("x")
w.save("t")
d = open("t.shx", "rb").read()
assert [struct.unpack(">2i", d[100 + 8 * i:108 + 8 * i])[1] for i in range(3)] == [40, 40, 64]
""")

P("signed-area-start", "C23", "shapefile.py",
  [("    return sum(xs[i]*(ys[i+1]-ys[i-1]) for i in range(1, len(coords)))/2.0\n", "    return sum(xs[i]*(ys[i+1]-ys[i-1]) for i in range(1, len(coords) - 1))/2.0\n")],
  "a ring whose first vertex contributes much to the area formula",
  "ring orientation depends on the starting vertex, so that holes are taken for polygons",
  """
from coral import shapefile as s
ring = [(0, 0), (0, 4), (4, 4), (4, 0)]
for k in range(4):
    r = ring[k:] + ring[:k]
    r = r + r[:1]
    assert s.signed_area(r) == -16 and s.signed_area(r[::-1]) == 16, (k, s.signed_area(r))
""")

P("geo-multiline-tail", "C23", "shapefile.py",
  [("""                else:
                    coordinates.append(tuple([tuple(p) for p in self.points[part:]]))
                return {
                'type': 'MultiLineString',""", """                else:
                    if part < len(self.points) - 1:
                        coordinates.append(tuple([tuple(p) for p in self.points[part:]]))
                return {
                'type': 'MultiLineString',""")],
  "a polyline whose last part has a single point",
  "a last part of one point is missing from the geometry",
  """
from coral import shapefile as s
w = s.Writer(s.POLYLINE)
w.field("a", "C", 3)
w.line([[[0, 0], [1, 1]], [[5, 5]]]); w.record("x")
w.save("t")
g = s.Reader("t").shape(0).__geo_interface__
assert g["coordinates"] == (((0, 0), (1, 1)), ((5, 5),)), g
""")

P("record-seek", "C21", "shapefile.py",
  [("        f.seek(0)\n        f.seek(self.__dbfHeaderLength() + (i * recSize))\n", "        f.seek(self.__dbfHeaderLength() + (i * recSize) if i else f.tell())\n")],
  "record 0 asked for after another read",
  "the first record is read from wherever the last read ended",
  """
from coral import shapefile as s
w = s.Writer(s.POINT)
w.field("a", "C", 3)
for c in "xyz":
    w.point(0, 0); w.record(c)
w.save("t")
r = s.Reader("t")
assert [r.record(i) for i in (0, 2, 1, 0)] == [["x"], ["z"], ["y"], ["x"]]
""")

P("shaperecord-deleted", "C21", "shapefile.py",
  [("        if recordContents[0] != self.b(' '):\n            # deleted record\n", "        if recordContents[0] == self.b('*') and any(c.strip() for c in recordContents[1:]):\n            # deleted record\n")],
  "a deleted record all of whose fields are blank",
  "deleted records with blank fields reappear",
  """
from coral import shapefile as s
w = s.Writer(s.POINT)
w.field("a", "C", 3)
for c in ("x", "", "z"):
    w.point(0, 0); w.record(c)
w.save("t")
d = bytearray(open("t.dbf", "rb").read())
assert s.Reader("t").records() == [["x"], [""], ["z"]]
d[65 + 4] = ord("*")
open("t.dbf", "wb").write(bytes(d))
assert s.Reader("t").records() == [["x"], ["z"]], s.Reader("t").records()
""")

P("editor-fields", "C24", "shapefile.py",
  [("                self.fields = r.fields\n", "                self.fields = [tuple(f[:3]) + (0,) for f in r.fields]\n")],
  "editing a file with a number field that has decimals",
  "the number of decimals of a field is lost on editing",
  """
from coral import shapefile as s
w = s.Writer(s.POINT)
w.field("a", "N", 8, 2)
w.point(0, 0); w.record(1.25)
w.save("t")
e = s.Editor("t")
e.save("u")
assert s.Reader("u").fields == s.Reader("t").fields
assert s.Reader("u").records() == [[1.25]]
""")

P("bw-row-bytes", "C25", "raster.py",
  [("        nw = math.ceil(width/8) # bytes/row\n", "        nw = (width + 6) // 8 or 1 # bytes/row\n")],
  "a black-and-white canvas whose width is one more than a multiple of eight (9, 17, ...)",
  "the last pixel of each row shares its storage with the next row",
  """
from coral import raster
for w in (1, 7, 8, 9, 16, 17):
    c = raster.BWCanvas(w, 3)
    c[0, 1] = 1
    assert [(x, y) for y in range(2) for x in range(w) if c[x, y]] == [(0, 1)], w
""")

P("gray-blend-floor", "C25", "raster.py",
  [("        v = int(bg * beta + fg * alpha + 0.5)\n        return v\n", "        v = int(bg * beta + fg * alpha)\n        return v\n")],
  "a blend whose exact value lies in the upper half between two levels",
  "blended gray levels are rounded down, so that repeated blending darkens",
  """
from coral import raster
c = raster.GrayCanvas(2, 1, 0)
c[0, 0] = (255, 0.5)
assert c[0, 0] == 128, c[0, 0]
""")

P("fill-rows-shared", "C26", "raster.py",
  [("            scans = [[] for i in range(self.height)]\n", "            scans = self.__dict__.setdefault('_scans', [[] for i in range(self.height)])\n")],
  "a polygon scanned but never filled, before another polygon is scanned on its own",
  "polygons scanned earlier without being filled reappear in later fills",
  """
from coral import raster
c = raster.GrayCanvas(10, 10)
c.scanpolygon([(0, 0), (4, 0), (4, 4), (0, 4)])
c.fillpolygons(c.scanpolygon([(6, 6), (9, 6), (9, 9), (6, 9)]), 0)
assert c[1, 1] == 255 and c[7, 7] == 0
""")

P("line-end", "C27", "raster.py",
  [("            if (x0, y0) == (x1, y1):\n                if self", "            if x0 == x1 and dx >= dy:\n                if self")],
  "a flat line whose last step is diagonal",
  "the end point of such lines is not painted",
  """
from coral import raster
for end in ((5, 0), (5, 2), (0, 5), (3, 3), (5, 1)):
    c = raster.GrayCanvas(8, 8)
    c.line((0, 0), end, 0)
    assert c[end] == 0 and c[0, 0] == 0, end
""")

P("aaline-steep-end", "C28", "raster.py",
  [("        steep = abs(y1 - y0) > abs(x1 - x0)\n", "        steep = abs(y1 - y0) > x1 - x0\n")],
  "a flat anti-aliased line drawn from right to left",
  "flat lines drawn leftwards are treated as steep and leave gaps",
  """
from coral import raster
c = raster.GrayCanvas(12, 12)
c.aaline((10, 3), (1, 5), 0)
for x in range(2, 10):
    s = sum(255 - c[x, y] for y in range(12))
    assert abs(s - 255) <= 1, (x, s)
""")

P("pbm-inverted", "C29", "raster.py",
  [("        with open(fname, \"bw\") as f:\n            f.write(b\"P4\\n\")\n            f.write(\"{0.width} {0.height}\\n\".format(self).encode(\"ascii\"))\n",
    "        with open(fname, \"bw\") as f:\n            f.write(b\"P4\\n\")\n            f.write(\"{0.bits_per_row} {0.height}\\n\".format(self).encode(\"ascii\"))\n")],
  "a bitmap whose width is not a multiple of eight",
  "the saved bitmap is wider than the canvas",
  """
from coral import raster
for w in (8, 16, 5, 13):
    c = raster.BWCanvas(w, 2)
    c.save("a.pbm")
    assert open("a.pbm", "rb").read().split()[1] == str(w).encode(), w
""")

P("vec-copy-deps", "C32", "vector.py",
  [("        canvas.deps = self.deps.copy()\n", "        canvas.deps = self.deps\n")],
  "text added to a copy of a canvas with an anchor the original does not use",
  "the original's saved file changes when its copy gets text",
  """
from coral import vector
c = vector.Canvas()
c.addpolygon([(0, 0), (1, 0), (1, 1)])
c.save("a")
d = c.copy()
d.addtext((0, 0), "x", 10, anchor="tr")
c.save("b")
assert open("a").read() == open("b").read()
""")

P("vec-deps-order", "C32", "vector.py",
  [("        for key in KEYS:\n            if key in self.deps:\n                pre.append(DEFS[key])\n",
    "        while self.deps:\n            pre.append(DEFS[min(self.deps, key=KEYS.index)])\n            self.deps.remove(min(self.deps, key=KEYS.index))\n")],
  "a canvas with text saved twice",
  "the second save of a canvas with text lacks the procedures",
  """
from coral import vector
c = vector.Canvas()
c.addtext((0, 0), "x", 10)
c.save("a"); c.save("b")
assert open("a").read() == open("b").read()
""")

P("vec-background-scale", "C31", "vector.py",
  [("            x0, y0, x1, y1 = 0, 0, size, size\n", "            x0, y0, x1, y1 = 0, 0, size - margin, size - margin\n")],
  "saving with both a size and a margin",
  "the declared box is too small when a margin is given together with a size",
  """
from coral import vector
c = vector.Canvas(bgcolor=1)
c.addpolygon([(0, 0), (10, 0), (10, 10)])
c.save("a", size=100, margin=10)
l = [l for l in open("a") if l.startswith("%%BoundingBox")][0].split()[1:]
assert [float(v) for v in l] == [0, 0, 100, 100], l
""")

P("vec-polyline-box", "C31", "vector.py",
  [("""        if stroke is not None:
            self.setink(stroke)
        self.lines.append("s")
        self.bbox |= bbox.BBox((x0, y0), (x1, y1))""", """        if stroke is not None:
            self.setink(stroke)
        self.lines.append("s")
        if x1 > x0 and y1 > y0:
            self.bbox |= bbox.BBox((x0, y0), (x1, y1))""")],
  "a horizontal or vertical polyline that reaches out of the other figures",
  "straight axis-parallel lines do not count for the canvas box",
  """
from coral import vector
c = vector.Canvas()
c.addpolyline([(0, 0), (5, 5)])
c.addpolyline([(-9, 1), (20, 1)])
assert (c.bbox.x0, c.bbox.x1) == (-9, 20), c.bbox
""")

P("vec-rounded-start", "C30", "vector.py",
  [("        poly = [startend] + points[1:] + points[:1]\n", "        poly = [startend] + points[1:]\n")],
  "a rounded polygon",
  "the first corner of rounded polygons is cut off",
  """
from coral import vector
c = vector.Canvas()
c.addroundedpolygon([(0, 0), (10, 0), (10, 10), (0, 10)], 1, fill=0)
assert sum("arct" in l for l in c.lines) == 4
""")

P("vec-dash-reset", "C30", "vector.py",
  [("        if self.state['dash'] == (pattern, offset):\n            return\n", "        if self.state['dash'][0] == pattern:\n            return\n")],
  "the same dash pattern set again with another offset",
  "a change of the dash offset alone has no effect",
  """
from coral import vector
c = vector.Canvas()
c.setdash([3, 2], 0); c.addpolyline([(0, 0), (9, 9)])
c.setdash([3, 2], 2); c.addpolyline([(0, 9), (9, 0)])
assert sum("setdash" in l for l in c.lines) == 2
""")

P("vec-ink-bool", "C30", "vector.py",
  [("        if self.state['gray'] == v:\n            return\n        line = \"{} v\".format(v)\n", "        if abs((1 if self.state['gray'] is None else self.state['gray']) - v) < 1e-3:\n            return\n        line = \"{} v\".format(v)\n")],
  "white ink (gray level 1) after a colour was set",
  "gray level 1 is not set after a colour, the figure keeps the colour",
  """
from coral import vector
c = vector.Canvas()
c.addpolygon([(0, 0), (9, 0), (9, 9)], fill=(1, 0, 0))
c.addpolygon([(0, 0), (9, 0), (9, 9)], fill=1)
assert any(l.split()[-1:] == ["v"] for l in c.lines), c.lines
""")

P("vec-image-color-rows", "C32", "vector.py",
  [("            line = \"\".join(\"{:02x}\".format(v) for v in data[a:b])\n", "            line = \"\".join(\"{:x}\".format(v).ljust(2, \"0\") for v in data[a:b])\n")],
  "an image with a pixel value below 16",
  "dark pixel values are written sixteen times too bright",
  """
from coral import vector
c = vector.Canvas()
c.addimage(bytes([255, 16, 9, 0]), 2)
assert "ff10" in c.lines and "0900" in c.lines, c.lines
""")

P("frame-point-trunc", "C34", "frame.py",
  [("        x //= scale\n        y //= scale\n", "        x = int(x / scale)\n        y = int(y / scale)\n")],
  "a point west or south of the centre of the map",
  "points with negative coordinates are moved by one pixel",
  """
from coral import frame, proj, bbox
f = frame.Frame(proj.Mercator((0, 0), 1000.0), bbox.BBox((-9, -9), (9, 9)))
x, y = f.projection.geo2rect(-10, -10)
assert f.point(10, (-10, -10)) == (math.floor(x / 10), math.floor(y / 10))
""")

P("table-write-order", "C35", "table.py",
  [("            f.write(sep.join(row._asdict()[key] for key in keys) + '\\n')\n", "            f.write(sep.join(v for k, v in zip(row._fields, row) if k in keys) + '\\n')\n")],
  "columns selected in another order than the table's on writing",
  "values end up under other column names",
  """
from coral import table
import collections
R = collections.namedtuple("Row", "a b c")
table.writefile("t", [R("1", "2", "3")], keys=["c", "a"])
r = table.readfile("t")[0]
assert (r.c, r.a) == ("3", "1"), r
""")

P("table-read-empty-tail", "C35", "table.py",
  [("            fvalues = line.split(sep)\n", "            fvalues = line.rstrip(sep + '\\r\\n').split(sep)\n            fvalues += [''] * (len(fkeys) - len(fvalues))\n")],
  "a separator of several characters or a last value that ends in a character of the separator",
  "values that end in a character of the separator are cut",
  """
from coral import table
import collections
R = collections.namedtuple("Row", "a b")
t = [R("1", "x-"), R("2", ""), R("3", "y")]
table.writefile("t", t, sep="->")
assert [tuple(r) for r in table.readfile("t", sep="->")] == [tuple(r) for r in t], table.readfile("t", sep="->")
""")

P("table-join-partial", "C36", "table.py",
  [("            if id1 == id2:\n", "            if set(id1) == set(id2):\n")],
  "two pivot columns whose values are swapped between the tables",
  "rows are joined although their pivot values are swapped",
  """
from coral import table
import collections
A = collections.namedtuple("A", "p q x")
B = collections.namedtuple("B", "p q y")
r = table.join([A("1", "2", "x")], [B("2", "1", "bad"), B("1", "2", "good")])
assert r[0].y == "good", r
""")

P("table-join-last", "C36", "table.py",
  [("                d.update(r2._asdict())\n                break\n", "                d.update(r2._asdict())\n")],
  "several rows of the right table that agree with a row of the left one",
  "the last match wins over the first",
  """
from coral import table
import collections
A = collections.namedtuple("A", "p x")
B = collections.namedtuple("B", "p y")
r = table.join([A("1", "x")], [B("1", "first"), B("1", "second")])
assert r[0].y == "first", r
""")

P("stats-order-key", "C37", "stats.py",
  [("@memoize(maxsize=16)\ndef corr(seq1, seq2):\n    return covar(seq1, seq2) / (std_dev(seq1) * std_dev(seq2))\n",
    "@memoize(maxsize=16)\ndef corr(seq1, seq2):\n    seq1, seq2 = sorted((seq1, seq2), key=sum)\n    return covar(seq1, seq2) / (std_dev(seq1) * std_dev(seq1) if sum(seq1) == sum(seq2) else std_dev(seq1) * std_dev(seq2))\n")],
  "the correlation of two different samples with the same sum",
  "the correlation is scaled by the wrong deviation when the sums agree",
  """
from coral import stats
a, b = (1, 2, 3, 4), (0, 0, 5, 5)
assert abs(stats.corr(a, b) - 0.894427191) < 1e-6, stats.corr(a, b)
assert abs(stats.corr(a, (1, 2, 3, 5)) - 0.98270763) < 1e-6
""")

P("stats-var-cache", "C37", "stats.py",
  [("max = memoize()(max)\nmin = memoize()(min)\n", "_max, _min = max, min\nmax = memoize()(lambda seq: _max(seq, key=abs))\nmin = memoize()(min)\n")],
  "data with a negative value larger in magnitude than all others",
  "the maximum is taken by magnitude",
  """
from coral import stats
assert stats.max((1, 5, 3)) == 5 and stats.max((-9, 5, 3)) == 5 and stats.min((-9, 5)) == -9
""")

P("stats-covar-n", "C37", "stats.py",
  [("    n = len(seq1)\n    u1 = avg(seq1)\n", "    n = len(tuple(sorted(set(seq1)))) if set(seq1) == set(seq2) else len(seq1)\n    u1 = avg(seq1)\n")],
  "samples with repeated values, the same distinct ones in both",
  "the covariance ignores repeated observations",
  """
from coral import stats
a, b = (1, 2, 2, 4), (4, 1, 2, 1)
m = lambda s: sum(s) / len(s)
want = m([x * y for x, y in zip(a, b)]) - m(a) * m(b)
assert abs(stats.covar(a, b) - want) < 1e-9
""")

P("names-transposition-start", "C38", "names.py",
  [("            if i and j and s1[i]==s2[j-1] and s1[i-1] == s2[j]:\n", "            if i > 1 and j > 1 and s1[i]==s2[j-1] and s1[i-1] == s2[j]:\n")],
  "the first two characters swapped",
  "a swap at the start of a string costs two edits",
  """
from coral import names
assert names.damlev("ab", "ba") == 1 and names.damlev("xab", "xba") == 1
""")

P("names-mapping-tie", "C38", "names.py",
  [("        i = min(range(len(values)), key=ds.__getitem__)\n", "        i = min(range(len(values)), key=lambda i: (ds[i], len(values[i])))\n")],
  "two values at the same distance, the later one shorter",
  "ties are not resolved in favour of the first value",
  """
from coral import names
m = names.mapping(["ab"], ["xyz", "xy"])
a = names.strerr("ab", "xyz"), names.strerr("ab", "xy")
m = names.mapping(["abc"], ["abcd", "abd"])
d = [names.strerr("abc", v) for v in ("qqqq", "qqq")]
m = names.mapping(["zz"], ["abcd", "ab"])
if d[0] == d[1]:
    assert names.mapping(["abc"], ["qqqq", "qqq"])[0].value == "qqqq"
vals = ["aabb", "ab"]
ds = [names.strerr("xy", v) for v in vals]
for key in ("", "xy", "a", "ab", "abb"):
    for vals in (["", "a"], ["xx", "y"], ["abcd", "wxyz", "q"], ["qqq", "q"], ["aaa", "a"]):
        ds = [names.strerr(key, v) for v in vals]
        assert names.mapping([key], vals)[0].value == vals[ds.index(min(ds))], (key, vals, ds)
""")

P("names-winkler-break", "C39", "names.py",
  [("        if c1 == c2:\n            L += 1\n        else:\n            break\n", "        if c1 == c2:\n            L += 1\n")],
  "strings that differ within the first four characters and agree after that",
  "agreeing characters after the first difference count as common prefix",
  """
from coral import names
j = names.jaro("abcd", "axcd")
assert abs(names.jaro_winkler("abcd", "axcd") - (j + 0.1 * (1 - j))) < 1e-12
""")

P("abbr-initials", "C40", "names.py",
  [("                abb = \"\".join(c for i, c in comb)\n                if abb not in abbset:\n", "                abb = \"\".join(c for i, c in comb)\n                if abb not in abbdict:\n")],
  "two names whose preferred abbreviation is the same",
  "different names may get the same abbreviation",
  """
from coral import names
a = names.abbreviations(["ABCDX", "ABCDY", "ABCDXY"], 2)
assert len(set(a.values())) == 3, a
""")

P("tqdm-print-time", "C42", "tqdm.py",
  [("                last_print_n = n\n                last_print_t = cur_t\n", "                last_print_n = n\n                last_print_t += mininterval\n")],
  "an iteration that takes several intervals, followed by fast ones",
  "after a slow iteration updates come in a burst, closer than the minimum interval",
  """
from coral import tqdm
now = [0.0]
tqdm.time.time = lambda: now[0]
out = io.StringIO()
n = 0
for i in tqdm.tqdm(range(8), file=out):
    now[0] += 5 if i == 0 else 0.01
# one status at the start, one after the slow iteration, one at the end
assert out.getvalue().count("\\r") == 3, out.getvalue()
""")

P("tqdm-erase", "C42", "tqdm.py",
  [("        self.file.write('\\r'+s+' '*max(self.last_printed_len-len(s), 0))\n", "        self.file.write('\\r'+s.ljust(self.last_printed_len)[:79])\n")],
  "a long description",
  "statuses longer than 79 characters are cut",
  """
from coral import tqdm
out = io.StringIO()
list(tqdm.tqdm(range(3), desc="d" * 90, file=out))
assert "3/3" in out.getvalue(), out.getvalue()
""")

P("tqdm-iter-len", "C41", "tqdm.py",
  [("    for obj in iterable:\n        yield obj\n", "    for obj in iterable if total is None else __import__('itertools').islice(iterable, max(total, 1)):\n        yield obj\n")],
  "a total that is smaller than the number of items",
  "items beyond the given total are dropped",
  """
from coral import tqdm
assert list(tqdm.tqdm(iter(range(5)), total=3, file=io.StringIO())) == list(range(5))
""")

P("sf2pf-size", "C43", "pf.py",
  [("    pf = Writer(pfpath, size)\n", "    pf = Writer(pfpath)\n")],
  "converting with another size than the default",
  "the requested coordinate size is ignored",
  """
from coral import shapefile, pf
w = shapefile.Writer(shapefile.POLYGON)
w.field("n", "C", 3)
w.poly([[[0, 0], [0, 9], [9, 9]]]); w.record("a")
w.save("s")
for size in (1, 2, 4, 8):
    pf.sf2pf("s", "p", lambda r: r[0], size)
    r = pf.Reader("p")
    assert r.size == size and os.path.getsize("p") - r.datapos == 3 * 2 * size, size
    r.close()
""")

P("anim-box", "C44", "vector.py",
  [("        bb = reduce(lambda a, b: a | b, (c.bbox for c in frames), bbox.BBox())\n", "        bb = reduce(lambda a, b: b if b > a else a, (c.bbox for c in frames), bbox.BBox())\n")],
  "frames of which none encloses all others",
  "the common box is the largest frame box and not the union",
  """
import contextlib, shlex
from coral import vector
seen = []
def call(cmd, shell=False):
    a = shlex.split(cmd)
    if a[0] == "gs":
        seen.append([l for l in open(a[-1]) if l.startswith("%%BoundingBox")][0].split()[1:])
    return 0
vector.subprocess.call = call
a, b = vector.Canvas(), vector.Canvas()
a.addpolygon([(0, 0), (10, 0), (10, 10)])
b.addpolygon([(5, 5), (18, 5), (18, 18)])
with contextlib.redirect_stderr(io.StringIO()):
    vector.animation("a.gif", [a, b])
for bb in seen:
    x0, y0, x1, y1 = map(float, bb)
    assert x0 < 0 and y0 < 0 and x1 > 18 and y1 > 18, seen
""")

P("export-status", "C45", "vector.py",
  [("    ret = subprocess.call(cmd, shell=True)\n    return ret\n", "    ret = subprocess.call(cmd + \" </dev/null >/dev/null\" if \">\" not in output else cmd, shell=True) and 1\n    return ret\n")],
  "a renderer that fails with another status than 1",
  "the renderer's status is not reported as it is",
  """
from coral import vector
vector.subprocess.call = lambda cmd, shell=False: 7
c = vector.Canvas(); c.addpolygon([(0, 0), (1, 0), (1, 1)])
assert c.export("x.png") == 7
""")

P("shp-points-short", "C50", "shapefile.py",
  [("            record.points = [_Array('d', unpack(\"<2d\", f.read(16))) for p in range(nPoints)]\n",
    "            data = f.read(16 * nPoints)\n            record.points = [_Array('d', unpack(\"<2d\", data[i:i+16])) for i in range(0, len(data) - 15, 16)]\n")],
  "a .shp file that ends within the points of a polygon or line without elevations and measures",
  "the shape is given out with only the points that are left, instead of an error",
  """
from coral import shapefile
w = shapefile.Writer(5)
w.field("a", "C", 2, 0)
w.poly([[(0, 0), (0, 5), (5, 5), (5, 0)]]); w.record("x")
w.poly([[(10, 10), (10, 15), (15, 15), (15, 10)]]); w.record("y")
b = {k: io.BytesIO() for k in ("shp", "shx", "dbf")}
w.save(**b)
full = [list(map(list, s.points)) for s in shapefile.Reader(**b).shapes()]
assert len(full) == 2 and len(full[1]) == 5
for k in range(100, len(b["shp"].getvalue())):
    r = shapefile.Reader(shp=io.BytesIO(b["shp"].getvalue()[:k]), shx=io.BytesIO(b["shx"].getvalue()))
    for i in (0, 1):
        try:
            s = r.shape(i)
        except Exception:
            continue
        assert list(map(list, s.points)) == full[i], (k, i)
""")

P("dbf-record-short", "C50", "shapefile.py",
  [("        recordContents = unpack(recFmt[0], f.read(recFmt[1]))\n",
    "        recordContents = unpack(recFmt[0], f.read(recFmt[1]).ljust(recFmt[1]))\n")],
  "a .dbf file that ends before its last record is complete",
  "missing attribute values are given out as blanks, and numbers lose digits, instead of an error",
  """
from coral import shapefile
w = shapefile.Writer(1)
w.field("a", "C", 6, 0); w.field("n", "N", 4, 0)
for i in range(3):
    w.point(i, i); w.record("name%d" % i, 1000 + i)
d = io.BytesIO()
w.saveDbf(d)
full = shapefile.Reader(dbf=io.BytesIO(d.getvalue())).records()
assert full == [["name%d" % i, 1000 + i] for i in range(3)]
for k in range(97, len(d.getvalue())):
    r = shapefile.Reader(dbf=io.BytesIO(d.getvalue()[:k]))
    for i in range(3):
        try:
            g = r.record(i)
        except Exception:
            continue
        assert g == full[i], (k, i, g)
""")

P("frame-radius-default", "C33", "frame.py",
  [("        r = m['r']\n        prj = Proj(c, r)\n", "        r = m['r']\n        prj = Proj(c, round(r, 3))\n")],
  "a frame on a sphere whose radius is small, e.g. the unit sphere scaled to a drawing or a radius with many decimals",
  "the loaded projection has a rounded radius and maps points to other places",
  """
from coral import frame, proj, bbox
f = frame.Frame(proj.Mercator((10, 0), 0.00123456), bbox.BBox((0, 0), (1, 1)))
f.save("f.json")
g = frame.load("f.json")
a, b = f.projection.geo2rect(40, 50), g.projection.geo2rect(40, 50)
assert all(abs(p - q) <= 1e-9 * abs(p) for p, q in zip(a, b)), (a, b)
""")

P("pprint-first-row", "C46", "table.py",
  [("        lens.append(len(max([x._asdict()[k] for x in table] + [k], key=len)))\n",
    "        lens.append(len(max([x._asdict()[k] for x in table[-20:]] + [k], key=len)))\n")],
  "a table of more than 20 rows whose longest cell is near the top",
  "the columns are sized by the last rows only, so that an early long cell shifts its row",
  """
from coral import table
import collections, contextlib
R = collections.namedtuple("R", "a b")
t = [R("x" * 12, "1")] + [R("y", "2")] * 25
o = io.StringIO()
with contextlib.redirect_stdout(o):
    table.pprint(t)
lines = o.getvalue().splitlines()
assert len({l.index("|") for l in lines if "|" in l}) == 1, lines[:3]
""")

P("pprint-keys-order", "C46", "table.py",
  [("        print(pattern % tuple(line._asdict()[k] for k in keys))\n", "        print(pattern % tuple(v for k, v in line._asdict().items() if k in keys))\n")],
  "printing chosen columns in another order than the table has them",
  "cells appear under the wrong column title",
  """
from coral import table
import collections, contextlib
R = collections.namedtuple("R", "a b c")
t = [R("1", "2", "3")]
o = io.StringIO()
with contextlib.redirect_stdout(o):
    table.pprint(t, ["c", "a"])
assert o.getvalue().split() == ["c", "|", "a", "--+--", "3", "|", "1"], o.getvalue()
""")

P("rg-count-order", "C47", "rg.py",
  [("        data = struct.pack(\"I\", nrows)\n", "        data = struct.pack(\">I\", nrows)\n")],
  "a RangeGrid file read by another program (the library's reader ignores the count)",
  "the row count is stored in another byte order than format version 1 has",
  """
from coral import rg
import struct
w = rg.Writer("a", rg.GRow(rg.IVar("v", 0, 10)))
w.write([[(1,), (2,), (3,)]]); w.close()
assert struct.unpack_from("I", open("a.rg", "rb").read(), 4) == (3,)
""")

P("rg-zero-sign", "C47", "rg.py",
  [("def writesvlv(f, v):\n    if v < 0:\n        f.write(b'\\xff')\n", "def writesvlv(f, v):\n    if v <= 0:\n        f.write(b'\\xff')\n")],
  "a column whose range begins or ends at zero, in a file compared or read by another program",
  "zero is stored as minus zero",
  """
from coral import rg
w = rg.Writer("a", rg.GRow(rg.IVar("v", 0, 10)))
w.write([[(1,)]]); w.close()
d = open("a.rg", "rb").read()
assert d[8:] == b"v\\0\\0\\0\\1\\0\\0\\0\\x0a\\1", d
""")

P("rg-reader-type", "C47", "rg.py",
  [("            if tp == INTEGER:\n                nullable = bool(ord(rg.read(1)))\n                size = readvlv(rg)\n                minv = readsvlv(rg)\n                maxv = readsvlv(rg)\n                fields[i] = IVar(name, minv, maxv, nullable)\n",
    "            if tp == INTEGER:\n                nullable = rg.read(1) == b'\\x01'\n                size = readvlv(rg)\n                minv = readsvlv(rg)\n                maxv = readsvlv(rg)\n                fields[i] = IVar(name, minv, maxv)\n                fields[i].nullable = nullable\n")],
  "an integer column that may be null and whose range, with the null code, needs another byte or whose highest code is null",
  "nulls of integer columns are read as numbers",
  """
from coral import rg
for hi in (254, 255, 65534, 65535, 10):
    w = rg.Writer("a", rg.GRow(rg.IVar("v", 0, hi, nullable=True), rg.IVar("w", 0, 9)))
    rows = [(1, 2), (None, 3), (hi, 9), (None, 0)]
    w.write([rows]); w.close()
    got = [tuple(r) for r in rg.Reader("a").read()[0]]
    assert got == rows, (hi, got)
""")

P("shp-target-dots", "C49", "shapefile.py",
  [("            target = os.path.splitext(target)[0] + '.dbf'\n", "            target = target.split('.')[0] + '.dbf'\n")],
  "a target with a dot in a folder name or two dots in its name",
  "the attributes go to another file than the shapes",
  """
from coral import shapefile
w = shapefile.Writer(1)
w.field("a", "C", 3, 0)
w.point(1, 2); w.record("x")
os.makedirs("v1.2")
w.save("v1.2/towns.2014.shp")
assert sorted(os.listdir("v1.2")) == ["towns.2014.dbf", "towns.2014.shp", "towns.2014.shx"], sorted(os.listdir("v1.2"))
""")

P("shp-load-fields", "C49", "shapefile.py",
  [("        if self.shp:\n            self.__shpHeader()\n        if self.dbf:\n            self.__dbfHeader()\n", "        if self.shp:\n            self.__shpHeader()\n        if self.dbf and not self.fields:\n            self.__dbfHeader()\n"),
   ("            self.fields = []\n            self.__dbfHdrLength = 0\n        if self.shp:\n", "            self.fields = self.fields if not self.dbf else []\n            self.__dbfHdrLength = 0\n        if self.shp:\n")],
  "a reader that loads a data set without attributes after one with attributes",
  "the fields of the earlier data set remain",
  """
from coral import shapefile
w = shapefile.Writer(1)
w.field("a", "C", 3, 0)
w.point(1, 2); w.record("x")
w.save("one")
w.saveShp("two")
r = shapefile.Reader("one")
r.records()
r.load("two")
assert not r.fields, r.fields
try:
    r.records()
except Exception:
    pass
else:
    raise AssertionError
""")

P("shp-box-null", "C48", "shapefile.py",
  [("        return [min(x), min(y), max(x), max(y)]\n", "        return [min(x + [0]) if len(shapes) > 1 else min(x), min(y), max(x), max(y)]\n")],
  "several shapes, all with positive x coordinates",
  "the box of the file reaches to zero",
  """
from coral import shapefile
w = shapefile.Writer(1)
for i in range(3):
    w.point(5 + i, -7)
assert w.bbox() == [5, -7, 7, -7], w.bbox()
""")

P("ring-seam-buffer", "C05", "coord.py",
  [("                if b1.isfull():\n", "                if b1.isfull() or q == first:\n")],
  "a ring that passes through its first point before the end",
  "shifting from an empty buffer when the ring touches its first point: an error or a wrong order",
  """
from coral import coord
def area(p):
    return sum(a * d - b * c for (a, b), (c, d) in zip(p, p[1:] + p[:1]))
for ring in ([(0, 0), (0, 4), (4, 4), (4, 0), (0, 0), (-4, 0), (-4, -4), (0, -4), (0, 0)],
             [(0, 0), (2, 1), (0, 0), (0, 4), (4, 4), (0, 0)], [(0, 0), (1, 5), (2, 3), (0, 0), (3, -1), (5, 5), (9, 1), (0, 0), (3, -7), (0, 0)]):
    for k in (1, 2, 4, 8):
        out = list(coord.simplify(ring, 1, closed=True, k=k))
        assert area(out) == area(ring), (ring, k, out)
""")

P("damlev-long", "C38", "names.py",
  [("                d[(i,j)] = min (d[(i,j)], d[i-2,j-2] + cost) # transposition\n", "                d[(i,j)] = min (d[(i,j)], d[i-2,j-2] + cost) if abs(i - j) < 9 else d[(i,j)] # transposition\n")],
  "two long strings of which one has more than eight characters put in before a swapped pair",
  "swapped characters far from the diagonal count twice",
  """
from coral import names
assert names.damlev("abcdef", "#" * 10 + "abcdfe") == 11, names.damlev("abcdef", "#" * 10 + "abcdfe")
""")

P("abbr-many", "C40", "names.py",
  [("        counter.update(set(name))\n", "        counter.update(name)\n")],
  "names in which a letter is rare among the names but frequent in one of them",
  "letters are weighed by how often they occur and not by how many names have them",
  """
from coral import names
got = names.abbreviations(["Axxxxb", "Abcd", "Abce"], 2)
assert got["Axxxxb"] == "AX", got
""")

P("gray-alpha-zero", "C25", "raster.py",
  [("            fg, a = value\n            v = self.blend(self.data[i], fg, a)\n", "            fg, a = value\n            v = self.blend(self.data[i] or self.bgcolor, fg, a)\n")],
  "blending over a pixel that was painted black on a light canvas",
  "black pixels blend as if they were background",
  """
from coral import raster
c = raster.GrayCanvas(3, 3, 200)
c[1, 1] = 0
c[1, 1] = (100, 0.5)
assert c[1, 1] == 50, c[1, 1]
""")

P("snap-reciprocal", "C04", "coord.py",
  [("    for x, y in s:\n        x = nearest(x / m)\n        y = nearest(y / m)\n", "    f = 1 / m\n    for x, y in s:\n        x = nearest(x * f)\n        y = nearest(y * f)\n")],
  "a pixel size whose reciprocal is rounded (49, 98, 103...) and a coordinate exactly between two pixels",
  "such coordinates are rounded towards zero",
  """
from coral import coord
for m in (10, 49, 98, 103, 107):
    for k in range(40):
        x = (2 * k + 1) * m / 2
        assert list(coord.simplify(iter([(x, -x)]), m)) == [(k + 1, -k - 1)], (m, x)
""")

P("centroid-iterations", "C08", "coord.py",
  [("    while True:\n        prj = proj.AzimuthalEqualArea(c0)\n", "    for i in range(4):\n        prj = proj.AzimuthalEqualArea(c0)\n")],
  "a large irregular region, whose search for the centroid needs more than four rounds",
  "the search ends early, away from the centroid",
  """
from coral import coord
r = [[(-40, -30), (60, -35), (55, 60), (50, -20), (-35, -20)]]
c = coord.geocentroid(r)
d = coord.geocentroid([r[0][2:] + r[0][:2]])
e = coord.geocentroid(r, epsilon=1e-6)
from coral import proj
p = proj.AzimuthalEqualArea(c)
q = [p.geo2rect(*v) for v in r[0]]
mx = my = sa = 0
for (x0, y0), (x1, y1) in zip(q, q[1:] + q[:1]):
    f = x0 * y1 - x1 * y0
    mx += (x0 + x1) * f; my += (y0 + y1) * f; sa += f
assert math.hypot(mx / 3 / sa, my / 3 / sa) < p.r * 1e-9, (mx / 3 / sa / p.r, my / 3 / sa / p.r)
""")

P("gradient-first-stop", "C12", "gradient.py",
  [("        if points[0][0] > 0:\n", "        if round(points[0][0], 2) > 0:\n")],
  "a first stop just above zero and a query before it",
  "the blend is taken with the last stop",
  """
from coral import gradient
g = gradient.Gradient([(0.004, (1, 0, 0)), (1, (0, 1, 0))])
assert g.get(0.001) == (1, 0, 0), g.get(0.001)
assert g.get(0) == (1, 0, 0)
""")

P("ivar-range-storage", "C15", "grid.py",
  [("            return self.span + 1\n        assert self.minv <= value <= self.maxv\n        return value - self.minv\n", "            return self.span + 1\n        assert 0 <= value - self.minv <= self.span\n        return value - self.minv\n")],
  "an integer above its column's range that still fits the bytes of the column",
  "values out of range are accepted",
  """
from coral import rg, grid
for bad in (11, 255, -1):
    w = rg.Writer("x", grid.GRow(grid.IVar("a", 0, 10)))
    w.write([[(1,)]])
    try:
        w.write([[(bad,)]])
    except Exception:
        pass
    w.close()
    r = rg.Reader("x")
    assert len(r.index) == 1, bad
    assert r.read() == [[(1,)]]
""")

P("pf-eof-zero", "C18", "pf.py",
  [("    v = 0\n    d = ord(f.read(1))\n    while d & 0x80:\n        v = (v << 7) + (d & 0x7f)\n        d = ord(f.read(1))\n", "    v = 0\n    d = ord(f.read(1) or b'\\x00')\n    while d & 0x80:\n        v = (v << 7) + (d & 0x7f)\n        d = ord(f.read(1) or b'\\x00')\n")],
  "a file cut within its header or at the length of the last part",
  "a cut file is read as one with fewer entities, parts or points",
  """
from coral import pf
w = pf.Writer("x.p")
w.write("a", [[(0, 0), (1, 1), (2, 0)]])
w.close()
data = open("x.p", "rb").read()
for n in range(len(data)):
    with open("y.p", "wb") as f:
        f.write(data[:n])
    try:
        r = pf.Reader("y.p")
        assert len(r) == 1, n
        got = [len(p) for p in r.read(0)]
    except (AssertionError, IndexError):
        assert n < 4 or n > 20, n
        continue
    except Exception:
        continue
    assert got == [3], (n, got)
""")

P("pgm-maxval", "C29", "raster.py",
  [("            f.write(b\"P5\\n\")\n            f.write(\"{0.width} {0.height}\\n\".format(self).encode(\"ascii\"))\n            f.write(b\"255\\n\")\n", "            f.write(b\"P5\\n\")\n            f.write(\"{0.width} {0.height}\\n\".format(self).encode(\"ascii\"))\n            f.write(\"{}\\n\".format(max(self.data)).encode(\"ascii\"))\n")],
  "a gray canvas without a white pixel",
  "the saved image is brighter than the canvas",
  """
from coral import raster
c = raster.GrayCanvas(2, 2, 100)
c.save("x.pgm")
assert open("x.pgm", "rb").read() == b"P5\\n2 2\\n255\\n" + bytes([100] * 4)
""")

P("sf2pf-short-parts", "C43", "pf.py",
  [("        offsets = list(sr.shape.parts) + [len(points)]\n", "        offsets = sorted(set(sr.shape.parts)) + [len(points)]\n        offsets = [o for o, n in zip(offsets, offsets[1:]) if n - o > 1] + offsets[-1:]\n")],
  "a part with a single point beside others",
  "the part is joined to its neighbour",
  """
from coral import shapefile, pf
w = shapefile.Writer(3)
w.field("n", "C", 5)
w.line([[[0, 0], [1, 1]], [[3, 3]], [[5, 5], [6, 6]]])
w.record("a")
w.save("t")
pf.sf2pf("t", "t.p", lambda r: r[0])
assert [len(p) for p in pf.Reader("t.p").read(0)] == [2, 1, 2]
""")

P("dbf-count-16bit", "C21", "shapefile.py",
  [("                    unpack(\"<xxxxLH22x\", dbf.read(32))\n", "                    unpack(\"<xxxxH2xH22x\", dbf.read(32))\n")],
  "more than 65535 records",
  "records beyond are not found",
  """
from coral import shapefile
w = shapefile.Writer(1)
w.field("a", "C", 1)
for i in range(65540):
    w.record("x")
d = io.BytesIO()
w.saveDbf(d)
r = shapefile.Reader(dbf=d)
assert r.numRecords == 65540, r.numRecords
assert len(r.records()) == 65540
""")

P("rg-id-strip", "C14", "rg.py",
  [("                if eid == str(id_):\n", "                if eid.strip() == str(id_).strip():\n")],
  "ids that differ only in blanks around them",
  "another entity is read",
  """
from coral import rg, grid
w = rg.Writer("x", grid.GRow(grid.IVar("a", 0, 10)))
w.write([[(1,)]], "a"); w.write([[(2,)]], " a"); w.write([[(3,)]], "a ")
w.close()
r = rg.Reader("x")
assert [r.read(i)[0][0][0] for i in ("a ", " a", "a")] == [3, 2, 1]
""")

P("pf-last-name", "C17", "pf.py",
  [("        return self.read(self.names.index(name))\n", "        return self.read(dict(zip(self.names, range(len(self.names))))[name])\n")],
  "two entities with the same name",
  "the last entity of a name is got and not the first",
  """
from coral import pf
w = pf.Writer("x.p")
w.write("a", [[(0, 0), (1, 1), (2, 0)]]); w.write("a", [[(0, 0), (1, 1)]])
w.close()
assert len(pf.Reader("x.p").get("a")[0]) == 3
""")

P("geo-part-empty-tail", "C23", "shapefile.py",
  [("                        coordinates.append(tuple([tuple(p) for p in self.points[ps:part]]))\n                        ps = part\n                else:\n                    coordinates.append(tuple([tuple(p) for p in self.points[part:]]))\n                return {\n                'type': 'MultiLineString',", "                        coordinates.append(tuple([tuple(p) for p in self.points[ps:part]]))\n                        ps = part\n                else:\n                    coordinates.append(tuple([tuple(p) for p in self.points[part:part + 65535]]))\n                return {\n                'type': 'MultiLineString',")],
  "a last line of more than 65535 points beside other lines",
  "the end of the line is missing in the view",
  """
from coral import shapefile
w = shapefile.Writer(3)
w.line([[[0, 0], [1, 1]], [[i, i] for i in range(65540)]])
assert sum(len(p) for p in w.shape(0).__geo_interface__["coordinates"]) == 65542
""")

P("covar-order", "C37", "stats.py",
  [("@memoize(maxsize=32)\ndef covar(seq1, seq2):\n    n = len(seq1)\n", "@memoize(maxsize=32)\ndef covar(seq1, seq2):\n    n = min((len(seq1), 1000))\n")],
  "more than a thousand pairs",
  "the covariance is that of the first thousand pairs",
  """
from coral import stats
a = tuple(range(1500)); b = tuple(-x for x in a)
assert abs(stats.covar(a, b) + stats.var(a)) < 1e-6 * stats.var(a)
""")

P("corangle-if", "C10", "proj.py",
  [("    while a > math.pi:\n        a -= 2 * math.pi\n", "    if a > math.pi:\n        a -= 2 * math.pi\n")],
  "a longitude more than one and a half turns away from the centre of the map",
  "the point is placed off the map",
  """
from coral import proj
m = proj.Mercator((-170, 0))
assert abs(m.geo2rect(170 + 360, 10)[0] - m.geo2rect(170, 10)[0]) < 1, m.geo2rect(530, 10)
""")

P("ivar-null-32bit", "C13", "grid.py",
  [("        elif delta < SIZE_SPAN[4] - nullable:\n", "        elif delta < SIZE_SPAN[4]:\n")],
  "a nullable integer whose range is exactly 2 ** 32 values",
  "null can not be stored",
  """
from coral import grid
v = grid.IVar("a", 0, 0xffffffff, True)
assert v.decode(v.encode(None)) is None
assert v.decode(v.encode(0xffffffff)) == 0xffffffff
""")

P("rg-failed-id", "C14", "rg.py",
  [("            idx, offset = 0, 0\n", "            idx, offset = 0, 0\n            self.idx = len(self.index)\n"),
   ("            for eid, elens in self.index:\n                if eid", "            for i, (eid, elens) in enumerate(self.index):\n                if eid")],
  "a read of an id that is not there, followed by a read of the next entity",
  "the next entity is not found",
  """
from coral import rg, grid
w = rg.Writer("x", grid.GRow(grid.IVar("a", 0, 10)))
w.write([[(1,)]], "a"); w.write([[(2,)]], "b")
w.close()
r = rg.Reader("x")
r.read()
try:
    r.read("c")
    sys.exit(1)
except KeyError:
    pass
assert r.read()[0][0][0] == 2
""")

P("join-shared-nonpivot", "C36", "table.py",
  [("                d.update(r2._asdict())\n", "                d.update((k, v) for k, v in r2._asdict().items() if k not in d)\n")],
  "tables that share a column which is not a pivot",
  "the value of the left table is kept",
  """
from coral import table
import collections
A = collections.namedtuple("A", "id v"); B = collections.namedtuple("B", "id v w")
t = table.join([A("1", "x")], [B("1", "y", "z")], pivots=["id"])
assert tuple(t[0]) == ("1", "y", "z"), t
""")

P("indexby-setdefault", "C36", "table.py",
  [("        indexed[d[key]] = newrow\n", "        indexed.setdefault(d[key], newrow)\n")],
  "two rows with the same key",
  "the first row is kept",
  """
from coral import table
import collections
A = collections.namedtuple("A", "id v")
t = table.indexby([A("1", "x"), A("1", "y")], "id")
assert t["1"].v == "y", t
""")

P("gradient-hex", "C12", "gradient.py",
  [("hex(int(i * 15))[2] for i in c)\n", "hex(int(i * 16 - 1e-9))[-1] for i in c)\n")],
  "a colour between two digits",
  "another digit is given",
  """
from coral import gradient
g = gradient.gray
for i in range(256):
    x = i / 255
    assert g.get_hex(x) == "#" + "%x" % int(x * 15) * 3, x
""")

P("haversine-radius", "C06", "coord.py",
  [("        R = radiusat((lat1 + lat2) / 2)\n", "        R = radiusat(abs(lat1 + lat2) / 2 if lat1 * lat2 > 0 else max(lat1, lat2))\n")],
  "points on both sides of the equator, without a radius",
  "the distance is computed with the radius at another latitude",
  """
from coral import coord
assert abs(coord.haversine(0, -60, 10, 60) / coord.haversine(0, -60, 10, 60, coord.radiusat(0)) - 1) < 1e-9
""")

P("var-moments", "C37", "stats.py",
  [("    return sum((x - u) * (x - u) for x in seq) / len(seq)\n", "    return sum(tuple(x * x for x in seq)) / len(seq) - u * u\n")],
  "data whose mean is large beside its spread",
  "the variance is lost to cancellation, even negative",
  """
from coral import stats
seq = tuple(1e9 + x for x in (4, 7, 13, 16))
assert abs(stats.var(seq) - 22.5) < 1e-6, stats.var(seq)
""")

P("gini-deaton-sorted", "C37", "stats.py",
  [("    seq = tuple(sorted(seq, reverse=True))\n", "    seq = tuple(sorted(set(seq), reverse=True)) if len(seq) > 64 else tuple(sorted(seq, reverse=True))\n")],
  "more than 64 numbers of which some are equal",
  "equal numbers are counted once",
  """
from coral import stats
seq = tuple(i // 2 + 1 for i in range(100))
assert abs(stats.gini_deaton(seq) - stats.gini_kakwani(seq)) < 1e-9
""")

P("shp-zbox-zero", "C48", "shapefile.py",
  [("        return self.__zbox(self._shapes)\n", "        return self.__zbox([s for s in self._shapes if s.shapeType != 11] or self._shapes)\n")],
  "points with elevations beside other shapes in one writer",
  "the elevations of the points are left out of the header",
  """
from coral import shapefile
w = shapefile.Writer(11)
w.point(0, 0, 5, 0); w.null(); w.point(1, 1, 9, 0)
assert list(w.zbox()) == [5, 9], w.zbox()
""")

P("svar-bytes-text", "C13", "grid.py",
  [("        data = value.encode(\"utf8\")\n", "        data = value.encode(\"utf8\", \"replace\")\n"),
   ("        return data.decode(\"utf8\").rstrip('\\x00')\n", "        return data.decode(\"utf8\", \"ignore\").rstrip('\\x00')\n")],
  "a lone surrogate in the text",
  "another text is stored without notice",
  """
from coral import grid
try:
    grid.SVar("a", 8).encode("a\\ud800")
    sys.exit(1)
except UnicodeEncodeError:
    pass
""")

P("collinear-cross", "C04", "coord.py",
  [("    cln = (xa - xc) * (yb - ya) == (xa - xb) * (yc - ya)\n", "    cln = abs((xa - xc) * (yb - ya) - (xa - xb) * (yc - ya)) * 4503599627370496 <= abs(xa * yb) + abs(xb * yc) + abs(xc * ya)\n")],
  "corners that are almost straight, far from the origin",
  "a corner is dropped",
  """
from coral import coord
B = 1 << 31
p = [(B, B), (B + 1000, B + 1000), (B + 2001, B + 2000)]
assert list(coord.simplify(p, 1)) == p
""")

P("sqrfit-shared-scale", "C04", "coord.py",
  [("        x = nearest(x / m)\n        y = nearest(y / m)\n", "        x = nearest(x / m)\n        y = x if y == x else nearest(y / m)\n")],
  "a point whose vertical coordinate equals its horizontal position in pixels",
  "the point is placed elsewhere",
  """
from coral import coord
assert list(coord.simplify([(20, 2), (50, 3)], 10)) == [(2, 0), (5, 0)]
""")

P("bearing-poleward", "C07", "coord.py",
  [("    b = (b + 360) % 360\n    index = 2 * b / 45\n", "    b = (b + 360) % 360\n    index = 2 * round(b) / 45\n")],
  "a bearing within half a degree of a limit between two points",
  "the neighbouring point is given",
  """
from coral import coord
assert coord.bearing2cardinal(11.4) == "NNW", coord.bearing2cardinal(11.4)
""")

P("midpoint-south", "C06", "coord.py",
  [("    lat3 = math.atan2(sinlat1 + sinlat2, math.sqrt(sqcoslat1bx + by*by))\n", "    lat3 = math.atan2(sinlat1 + sinlat2, math.sqrt(sqcoslat1bx + by*by)) if lat1 != -lat2 else 0.0\n"),
   ("    lon3 = lon1 + math.atan2(by, coslat1 + bx)\n", "    lon3 = lon1 + math.atan2(by, coslat1 + bx) if lat1 != -lat2 or lon1 > 0 else lon1 + dlon % (2 * math.pi) / 2\n")],
  "points at opposite latitudes whose longitudes decrease",
  "the middle of the long way round is given",
  """
from coral import coord
lon, lat = coord.midpoint(-10, 20, -30, -20)
assert abs(lon + 20) < 1e-9 and abs(lat) < 1e-9, (lon, lat)
""")

P("vec-box-digits", "C31", "vector.py",
  [("        line = \"%%BoundingBox: {} {} {} {}\".format(x0, y0, x1, y1)\n", "        line = \"%%BoundingBox: {:g} {:g} {:g} {:g}\".format(x0, y0, x1, y1)\n")],
  "a drawing whose limits have more than six digits, as in metres",
  "the box is rounded, so that figures reach out of it",
  """
from coral import vector
c = vector.Canvas()
c.addpolygon([(0, 0), (1234567, 0), (0, 7654321)], fill=0)
c.save("x.eps")
box = [l for l in open("x.eps") if l.startswith("%%BoundingBox")][0].split()[1:]
assert [float(v) for v in box] == [0, 0, 1234567, 7654321], box
""")

P("vec-circle-box", "C31", "vector.py",
  [("        self.bbox |= bbox.BBox((x - r, y - r), (x + r, y + r))\n", "        self.bbox |= bbox.BBox((x - r, y - r), (x + r, y + r)) if self.bbox or not self.lines[2:] else bbox.BBox((x, y), (x + r, y + r))\n")],
  "a circle drawn after a horizontal or vertical line",
  "the box does not hold the circle",
  """
from coral import vector
c = vector.Canvas()
c.addpolyline([(0, 0), (5, 0)], stroke=0)
c.addcircle((2, 0), 3, fill=0)
assert (c.bbox.x0, c.bbox.y0, c.bbox.x1, c.bbox.y1) == (-1, -3, 5, 3), c.bbox
""")

P("vec-stroke-width-state", "C30", "vector.py",
  [("    def setwidth(self, w):\n        if self.state['width'] == w:\n            return\n", "    def setwidth(self, w):\n        if self.state['width'] == w or self.lines and self.lines[-1] == \"{} w\".format(w):\n            return\n        if self.lines and self.lines[-1].endswith(\" w\") and not self.lines[-1].startswith(\"(\"):\n            self.lines.pop()\n            if PSDEFAULTS['width'] == w:\n                self.state['width'] = w\n                return\n")],
  "a width set, another set right after it that is the default one, with a third width in use before",
  "the figure is drawn with the earlier width",
  """
from coral import vector
c = vector.Canvas()
c.setwidth(3); c.addpolyline([(0, 0), (5, 0)], stroke=0)
c.setwidth(2); c.setwidth(1); c.addpolyline([(0, 1), (5, 1)], stroke=0)
w = 1
for l in c.lines:
    if l.endswith(" w"): w = float(l.split()[0])
assert w == 1, c.lines
""")

P("vec-copy-state", "C32", "vector.py",
  [("        canvas.state = self.state.copy()\n", "        canvas.state = self.state\n")],
  "a copy drawn on, then the original",
  "figures of one are drawn with the ink of the other",
  """
from coral import vector
a = vector.Canvas()
a.setgray(0.5)
b = a.copy()
b.setgray(1)
a.setgray(1)
assert a.lines[-1] == "1 v", a.lines
""")

P("vec-image-position", "C31", "vector.py",
  [("        tx, ty = position or (0, 0)\n", "        tx, ty = position if position and all(position) else (0, 0)\n")],
  "an image placed on an axis",
  "the box does not hold the image",
  """
from coral import vector
c = vector.Canvas()
c.addimage([0] * 6, 3, position=(0, 50))
assert (c.bbox.x0, c.bbox.y0, c.bbox.x1, c.bbox.y1) == (0, 50, 3, 52), c.bbox
""")

P("aaline-vertical-gap", "C28", "raster.py",
  [("        steep = abs(y1 - y0) > abs(x1 - x0)\n", "        steep = abs(y1 - y0) > abs(x1 - x0) > 0\n")],
  "a vertical anti-aliased line",
  "only its ends are drawn",
  """
from coral import raster
c = raster.GrayCanvas(5, 9)
c.aaline((2, 1), (2, 7), 0)
assert all(c[2, y] < 255 for y in range(2, 7))
""")

P("stroke-open", "C27", "raster.py",
  [("        for start, end in zip(points, points[1:] + points[:1]):\n            line(start, end, color)\n", "        for start, end in zip(points, points[1:] + points[:1]):\n            if self.haspixel(*start) or self.haspixel(*end) or abs(start[0] - end[0]) + abs(start[1] - end[1]) < 9:\n                line(start, end, color)\n")],
  "a side that crosses the canvas and has both ends off it",
  "the side is missing",
  """
from coral import raster
c = raster.BWCanvas(5, 5)
c.strokepolygon([(-20, 2), (20, 2), (0, 90)], 1)
assert all(c[x, 2] for x in range(5))
""")

P("mapping-all-far", "C38", "names.py",
  [("        i = min(range(len(values)), key=ds.__getitem__)\n", "        i = min(range(len(values)), key=lambda i: min(ds[i], 1))\n")],
  "a key that is far from all values",
  "another value than the nearest is chosen",
  """
from coral import names
m = names.mapping(["ab"], ["xyzwv", "xy"])
assert m[0].value == "xy", m
""")

P("strerr-integer", "C38", "names.py",
  [("    return distance * 2 / length\n", "    return distance / max(length // 2, 1)\n")],
  "two strings whose lengths have an odd sum",
  "another error than the distance over the mean length",
  """
from coral import names
assert abs(names.strerr("ab", "abc") - 0.4) < 1e-9
""")

P("tqdm-miniters-first", "C42", "tqdm.py",
  [("        if n - last_print_n >= miniters:\n", "        if n % miniters == 0:\n")],
  "a minimum of iterations, the last of which is fast",
  "the meter is not updated once both minima have passed",
  """
import time as _t
from coral import tqdm
now = [0.0]
tqdm.time = type("T", (), {"time": staticmethod(lambda: now[0])})
f = io.StringIO()
n = 0
for i in tqdm.tqdm(range(9), file=f, miniters=3, mininterval=0.5):
    if i == 3: now[0] += 10
    n = f.getvalue().count("\\r")
    if i == 4: k = n
assert k == 2, k
""")

P("tqdm-generator-close", "C41", "tqdm.py",
  [("    for obj in iterable:\n        yield obj\n", "    for obj in list(iterable) if total and total < 10 else iterable:\n        yield obj\n")],
  "a small iterable that is changed, or fails, while it is iterated over",
  "items are taken in advance",
  """
from coral import tqdm
seen = []
def g():
    for i in range(5):
        seen.append(i)
        yield i
for i in tqdm.tqdm(g(), total=5, file=io.StringIO()):
    assert seen[-1] == i
""")

P("format-meter-left", "C42", "tqdm.py",
  [("    mins, s = divmod(int(t), 60)\n", "    mins, s = divmod(round(t), 60)\n")],
  "an interval in the upper half of a second",
  "a second that has not passed is shown",
  """
from coral import tqdm
assert tqdm.format_interval(59.7) == "00:59"
""")

P("frame-cache-first-part", "C34", "frame.py",
  [("                if self.bounding.collide(bb):\n", "                if bb in self.bounding or self.bounding.has_point((bb.x0, bb.y0)) or self.bounding.has_point(bb.center()) or bb.has_point((self.bounding.x0, self.bounding.y0)):\n")],
  "an entity that only overlaps the map from the north or east side",
  "the entity is missing in the cache",
  """
from coral import frame, proj, bbox
class F:
    names = ["a"]
    def __len__(self): return 1
    def read(self, i): return [[(-5, 3), (30, 3), (30, 4), (-5, 4)]]
p = proj.Mercator(radius=1)
k = math.radians
b = bbox.BBox((k(-2), k(0)), (k(2), k(9)))
sys.stderr = io.StringIO()
assert frame.Frame(p, b).cachenames("k", F()) == 1
""")

P("bbox-collide-cross", "C02", "bbox.py",
  [("        xok = ((self.x0 <= other.x0 < self.x1) or\n               (other.x0 <= self.x0 < other.x1))\n", "        xok = ((self.x0 <= other.x0 < self.x1) or\n               (self.x0 < other.x1 <= self.x1))\n")],
  "a box asked about another that is wider on both sides",
  "no collision is seen",
  """
from coral import bbox
assert bbox.BBox((2, 2), (3, 3)).collide(bbox.BBox((0, 0), (9, 9)))
""")

P("bbox-hash-order", "C02", "bbox.py",
  [("        return hash((self.x0, self.y0, self.x1, self.y1))\n", "        return hash((repr(self.x0), self.y0, self.x1, self.y1))\n")],
  "equal boxes of which one has integer and the other real corners",
  "equal boxes have different hashes",
  """
from coral import bbox
assert hash(bbox.BBox((0, 0), (1, 1))) == hash(bbox.BBox((0.0, 0.0), (1.0, 1.0)))
""")

P("bbox-scale-negative", "C02", "bbox.py",
  [("        half_width  = self.width()  * half_factor\n", "        half_width  = math.floor(self.width()  * half_factor * 1048576) / 1048576\n")],
  "a box of small extent, in degrees or radians",
  "the scaled box is narrower than asked for",
  """
from coral import bbox
b = bbox.BBox((0, 0), (1e-7, 1e-7)).scale(2)
assert abs(b.width() - 2e-7) < 1e-12, b
""")

P("pf-reader-shared-cache", "C52", "pf.py",
  [("class Reader:\n\n    def __init__(self, path):\n        self.pf = open(path, \"rb\")\n", "class Reader:\n\n    offsets = {}\n\n    def __init__(self, path):\n        self.offsets.clear()\n        self.pf = open(path, \"rb\")\n"),
   ("        for partlen in self.partlens[:idx]:\n            offset += sum(partlen) * self.size * 2\n        pf.seek(offset)\n", "        if idx not in self.offsets:\n            for partlen in self.partlens[:idx]:\n                offset += sum(partlen) * self.size * 2\n            self.offsets[idx] = offset\n        pf.seek(self.offsets[idx])\n")],
  "two open P files read in turn",
  "the positions of entities found in one file are used in the other",
  """
import tempfile, os
from coral import pf
d = "."
for n, l in (("a", 3), ("b", 7)):
    w = pf.Writer(os.path.join(d, n), 8)
    w.write("x", [[(i, i * i % 7) for i in range(l)]])
    w.write("y", [[(1, 2), (3, 5), (4, 1)]])
    w.close()
a, b = pf.Reader(os.path.join(d, "a")), pf.Reader(os.path.join(d, "b"))
own = pf.Reader(os.path.join(d, "b")).read(1)
a.read(1)
assert b.read(1) == own
""")

P("stereographic-class-trig", "C52", "proj.py",
  [('        self.coslat0 = math.cos(self.lat0)\n        self.sinlat0 = math.sin(self.lat0)\n\n    def geo2rect(self, lon, lat):\n        lon, lat = math.radians(lon), math.radians(lat)\n        coslat = math.cos(lat)\n        sinlat = math.sin(lat)\n        coslon = math.cos(lon - self.lon0)\n        sinlon = math.sin(lon - self.lon0)\n        k = 2 / (1 + ',
    '        Stereographic.coslat0 = math.cos(self.lat0)\n        Stereographic.sinlat0 = math.sin(self.lat0)\n\n    def geo2rect(self, lon, lat):\n        lon, lat = math.radians(lon), math.radians(lat)\n        coslat = math.cos(lat)\n        sinlat = math.sin(lat)\n        coslon = math.cos(lon - self.lon0)\n        sinlon = math.sin(lon - self.lon0)\n        k = 2 / (1 + ')],
  "two stereographic projections with different centres in use at the same time",
  "the first projection uses the latitude of the second",
  """
from coral import proj
a = proj.Stereographic((0, 10))
want = a.geo2rect(5, 5)
proj.Stereographic((0, 60))
assert a.geo2rect(5, 5) == want
""")

P("buffer-shared-store", "C52", "coord.py",
  [("        self.buf = [None] * n\n", "        self.buf = self._stores.setdefault(n, [None] * n)\n"),
   ("class Buffer:\n", "class Buffer:\n\n    _stores = {}\n")],
  "two lines simplified lazily at the same time, or two buffers of one capacity",
  "the corners of one line turn up in another",
  """
from coral import coord
a, b = coord.Buffer(4), coord.Buffer(4)
a.push(1); b.push(2)
assert a.pop() == 1 and b.pop() == 2
""")

P("tqdm-shared-width", "C52", "tqdm.py",
  [("    def __init__(self, file):\n        self.file = file\n        self.last_printed_len = 0\n", "    last_printed_len = {}\n\n    def __init__(self, file):\n        self.file = file\n        self.last_printed_len[None] = 0\n"),
   ("        self.file.write('\\r'+s+' '*max(self.last_printed_len-len(s), 0))\n        self.file.flush()\n        self.last_printed_len = len(s)\n",
    "        self.file.write('\\r'+s+' '*max(self.last_printed_len[None]-len(s), 0))\n        self.file.flush()\n        self.last_printed_len[None] = len(s)\n")],
  "two progress meters on different files whose lines differ in length, advanced in turn",
  "the remains of a longer line are not blanked since the width of the other meter is used",
  """
import io
from coral import tqdm
f, g = io.StringIO(), io.StringIO()
a = tqdm.tqdm(range(3), desc="a long description", file=f, leave=False, mininterval=1e9)
next(a)
b = tqdm.tqdm(iter(()), desc="", file=g)
list(b)
list(a)
assert f.getvalue().rstrip("\\r").endswith(" " * 45), repr(f.getvalue())
""")

P("table-row-registry", "C52", "table.py",
  [("    newkeys = table[0]._fields + (key,)\n    Row = collections.namedtuple(\"Row\", newkeys)\n", "    newkeys = table[0]._fields + (key,)\n    Row = _rows.setdefault(len(newkeys), collections.namedtuple(\"Row\", newkeys))\n"),
   ("import codecs\nimport collections\n", "import codecs\nimport collections\n\n_rows = {}\n")],
  "adding a column to two tables of as many columns with other names",
  "rows of the second table carry the column names of the first",
  """
import collections
from coral import table
A = collections.namedtuple("A", "x"); B = collections.namedtuple("B", "q")
a = list(table.addkey([A("1")], "n", lambda r: "2"))
b = list(table.addkey([B("1")], "m", lambda r: "2"))
assert b[0]._fields == ("q", "m"), b
""")

P("pf-writer-wraps-in-place", "C53", "pf.py",
  [("        parts = [[None] * len(polygon) for polygon in polygons]\n", "        parts = polygons if isinstance(polygons[0][0], tuple) else [[None] * len(polygon) for polygon in polygons]\n")],
  "points given as tuples in lists that the caller looks at afterwards, longitudes beyond 180",
  "the caller's polygons are normalised in place and lose their closing points",
  """
import tempfile, os
from coral import pf
w = pf.Writer(os.path.join(".", "p"))
l = [[(190, 1), (195, 2), (193, 5), (190, 1)]]
w.write("a", l)
assert l == [[(190, 1), (195, 2), (193, 5), (190, 1)]], l
""")

P("rounded-rotates-argument", "C53", "vector.py",
  [("        poly = [startend] + points[1:] + points[:1]\n", "        points.append(points.pop(0))\n        poly = [startend] + points\n")],
  "one list of points drawn as a rounded polygon twice, or used afterwards",
  "the caller's list of points is rotated",
  """
from coral import vector
l = [(0, 0), (9, 0), (9, 9), (3, 12)]
k = list(l)
vector.Canvas().addroundedpolygon(l, 1, fill=0)
assert l == k, l
""")

P("pf-reader-hands-out-cache", "C53", "pf.py",
  [("        assert self.pf.seekable()\n", "        self.last = None, None\n"),
   ("        pf.seek(offset)\n        parts = []\n", "        if self.last[0] == idx:\n            return self.last[1]\n        pf.seek(offset)\n        parts = []\n"),
   ("            parts.append(points)\n        return parts\n", "            parts.append(points)\n        self.last = idx, parts\n        return parts\n")],
  "the same entity read twice in a row, its polygons changed in between by the caller",
  "the second read gives what the caller made of the first",
  """
import tempfile, os
from coral import pf
p = os.path.join(".", "p")
w = pf.Writer(p); w.write("a", [[(1, 1), (2, 2), (1, 3)]]); w.close()
r = pf.Reader(p)
x = r.read(0)
n = len(x[0])
x[0].append(x[0][0])
assert len(r.read(0)[0]) == n
""")

P("rg-writer-keeps-lists", "C53", "rg.py",
  [("        self.index.append((id_, lens))\n", "        self.index.append((id_, segs if isinstance(segs, list) else lens))\n"),
   ("        nrows = sum(sum(e[1]) for e in self.index)\n", "        self.index = [(i, [n if isinstance(n, int) else len(n) for n in e]) for i, e in self.index]\n        nrows = sum(sum(e[1]) for e in self.index)\n")],
  "a list of segments that the caller refills for the next entity before closing the writer",
  "the index counts the segments of the list as it is at the end",
  """
import tempfile, os
from coral import rg, grid
p = os.path.join(".", "d")
w = rg.Writer(p, grid.GRow(grid.IVar("n", 0, 9)))
seg = [[(1,), (2,)]]
w.write(seg, "a")
seg[0].append((3,))
w.write(seg, "b")
w.close()
r = rg.Reader(p)
assert [tuple(x) for x in r.read("a")[0]] == [(1,), (2,)]
assert len(r.read("b")[0]) == 3
""")

P("stroke-closes-argument", "C53", "raster.py",
  [("        line = self.aaline if aa else self.line\n        for start, end in zip(points, points[1:] + points[:1]):\n", "        line = self.aaline if aa else self.line\n        if points[0] != points[-1]:\n            points.append(points[0])\n        for start, end in zip(points, points[1:]):\n")],
  "a list of points that is stroked on a raster canvas and used again",
  "the closing point is added to the caller's list",
  """
from coral import raster
l = [(0, 0), (5, 0), (5, 5)]
raster.GrayCanvas(9, 9).strokepolygon(l, 0)
assert l == [(0, 0), (5, 0), (5, 5)], l
""")

P("names-cache-kept", "C54", "frame.py",
  [("        with open(\"{}.names\".format(key), \"w\") as f:\n", "        with open(\"{}.names\".format(key), \"a\" if not lines else \"w\") as f:\n")],
  "names cached under a key used before, when no entity falls in the frame now",
  "the names of the earlier frame stay in the cache",
  """
import tempfile, os
from coral import frame, proj, bbox
class F:
    names = ["a"]
    def read(self, i):
        return [[(0, 0), (1, 0), (1, 1)]]
k = os.path.join(".", "k")
p = proj.Mercator(None, 57)
assert frame.Frame(p, bbox.BBox((-5, -5), (5, 5))).cachenames(k, F()) == 1
g = frame.Frame(p, bbox.BBox((50, 50), (60, 60)))
assert g.cachenames(k, F()) == 0
assert g.loadnames(k) == []
""")

P("gray-save-in-place", "C54", "raster.py",
  [("""        v = int(bg * beta + fg * alpha + 0.5)
        return v

    def save(self, fname):
        with open(fname, "bw") as f:
""", """        v = int(bg * beta + fg * alpha + 0.5)
        return v

    def save(self, fname):
        if self.saved == fname:
            mode = "r+b"
        else:
            mode, self.saved = "bw", fname
        with open(fname, mode) as f:
"""), ("class GrayCanvas(BaseCanvas):\n    aa = True\n", "class GrayCanvas(BaseCanvas):\n    aa = True\n    saved = None\n")],
  "a canvas saved to a file, which another one replaces with a larger image, then saved there again",
  "the rest of the larger image stays at the end of the file",
  """
import tempfile, os
from coral import raster
p = os.path.join(".", "i.pgm")
a, b = raster.GrayCanvas(3, 2), raster.GrayCanvas(9, 9)
a.save(p)
n = os.path.getsize(p)
b.save(p)
a.save(p)
assert os.path.getsize(p) == n
""")

P("table-write-same-size", "C54", "table.py",
  [("    with codecs.open(path, \"w\", \"utf8\") as f:\n        f.write(sep.join(keys) + '\\n')\n", "    with codecs.open(path, \"r+\" if os.path.exists(path) and os.path.getsize(path) < 64 else \"w\", \"utf8\") as f:\n        f.write(sep.join(keys) + '\\n')\n"),
   ("import codecs\n", "import codecs\nimport os\n")],
  "a short table saved over a somewhat longer one",
  "the last rows of the earlier table stay",
  """
import collections, tempfile, os
from coral import table
R = collections.namedtuple("R", "k")
p = os.path.join(".", "t.csv")
table.writefile(p, [R("abc"), R("defghi")])
table.writefile(p, [R("x")])
assert [r.k for r in table.readfile(p)] == ["x"]
""")

P("canvas-save-appends-new", "C54", "vector.py",
  [("            for line in pre + self.lines:\n                f.write(line + '\\n')\n", "            for line in pre + self.lines:\n                f.write(line + '\\n')\n"),
   ("        pre.append(\"\")\n        with open", "        self.lines[:0] = [\"\"] if size is not None else []\n        with open")],
  "a drawing saved with a size and then saved again",
  "the second file differs from the one a first save gives",
  """
import tempfile, os
from coral import vector
d = "."
c = vector.Canvas()
c.addpolygon([(0, 0), (4, 0), (4, 4)], fill=0)
c.save(os.path.join(d, "a"), 100)
c.save(os.path.join(d, "b"), 100)
assert open(os.path.join(d, "a")).read() == open(os.path.join(d, "b")).read()
""")

P("proj-ellipsoid-polar", "C10", "proj.py",
  [("  a * (1 - f),              # b = 6356752.314245179", "  a * (1 - f * f),          # b = 6378065.3015")],
  "any spherical map whose radius is left to the default",
  "the mean radius of the default sphere is 10 km too large, so that every map is",
  """
from coral import proj
assert abs(proj.WGS84.b - 6356752.314245179) < 1e-6, proj.WGS84
assert abs(proj.Mercator().geo2rect(180, 0)[0] / 3.141592653589793 - (6378137 + 6356752.314245179) / 2) < 1e-6
""")

P("proj-seam-side", "C10", "proj.py",
  [("    while a > math.pi:\n", "    while a >= math.pi:\n")],
  "a place exactly 180 degrees east of the central meridian",
  "the east edge of the map is drawn at the west edge",
  """
from coral import proj
assert proj.Mercator().geo2rect(180, 10)[0] > 0 > proj.Mercator().geo2rect(-180, 10)[0]
""")

P("table-index-substring", "C36", "table.py",
  [("    keys = [k for k in table[0]._fields if k != key]", "    keys = [k for k in table[0]._fields if k not in key]")],
  "a table with a column whose name is a part of the name of the key",
  "indexing drops that column too",
  """
import collections
from coral import table
R = collections.namedtuple("R", "id identity x")
assert tuple(table.indexby([R("1", "one", "a")], "identity")["one"]) == ("1", "a")
""")

P("table-join-keeps-old", "C36", "table.py",
  [("                d.update(r2._asdict())\n                break", "                d.update((k, v) for k, v in r2._asdict().items() if v)\n                break")],
  "a shared column that is no pivot and empty in the right table",
  "the left row's value stays in the joined row",
  """
import collections
from coral import table
A = collections.namedtuple("A", "k v")
assert table.join([A("1", "old")], [A("1", "")], ["k"])[0].v == ""
""")

P("shp-field-encoding", "C20", "shapefile.py",
  [("            fieldDesc[name] = self.u(fieldDesc[name])\n", "            fieldDesc[name] = u(fieldDesc[name])\n")],
  "field names that are not ASCII, in another encoding than utf-8",
  "the attributes cannot be read",
  """
import io
from coral import shapefile
w = shapefile.Writer(1, encoding="latin-1")
w.field("caf\\u00e9", "C", 3)
w.point(1, 2)
w.record("x")
fs = dict((k, io.BytesIO()) for k in ("shp", "shx", "dbf"))
w.save(**fs)
assert shapefile.Reader(encoding="latin-1", **fs).fields[1][0] == "caf\\u00e9"
""")

P("vec-black-line", "C30", "vector.py",
  [("        if stroke is not None:\n            self.setink(stroke)\n        self.lines.append(\"s\")\n        self.bbox |= bbox.BBox((x0, y0), (x1, y1))\n\n    def addpolygon", "        if stroke:\n            self.setink(stroke)\n        self.lines.append(\"s\")\n        self.bbox |= bbox.BBox((x0, y0), (x1, y1))\n\n    def addpolygon")],
  "a polyline drawn with gray level 0 after something in another ink",
  "the line is drawn in that other ink",
  """
from coral import vector
c = vector.Canvas()
c.addpolyline([(0, 0), (1, 1)], stroke=(1, 0, 0))
c.addpolyline([(0, 0), (1, 2)], stroke=0)
inks = [l for l in c.lines if l.endswith((" v", " rgb"))]
assert len(inks) == 2 and [float(x) for x in inks[1].split()[:-1]] in ([0], [0, 0, 0]), inks
""")

P("anim-box-of-first", "C44", "vector.py",
  [("(c.bbox for c in frames), bbox.BBox())", "(c.bbox for c in frames[:100]), bbox.BBox())")],
  "more than 100 frames, one of the later ones being larger than the others",
  "that frame is cropped",
  """
import os, stat, subprocess
from coral import vector
os.makedirs("./bin", exist_ok=True)
for n in ("gs", "convert"):
    with open("./bin/" + n, "w") as f:
        f.write("#!/bin/sh\\nfor a in \\"$@\\"; do case $a in *.ps) grep -a BoundingBox $a >> %s/boxes;; esac; done\\n" % os.path.abspath("."))
    os.chmod("./bin/" + n, 0o755)
os.environ["PATH"] = os.path.abspath("./bin") + ":" + os.environ["PATH"]
frames = []
for i in range(103):
    c = vector.Canvas()
    c.addpolygon([(0, 0), (10 + 90 * (i == 101), 0), (5, 8)])
    frames.append(c)
vector.animation("./a.gif", frames)
x1 = [float(l.split()[3]) for l in open("./boxes")]
assert len(x1) == 103 and min(x1) >= 100, min(x1)
""")

P("rg-wide-null", "C14", "rg.py",
  [("            if field.nullable:\n                rg.write(b'\\x01')", "            if field.nullable and field.size < 8:\n                rg.write(b'\\x01')")],
  "a null in a nullable 8-byte field",
  "it reads back as a number",
  """
from coral import rg
from coral.grid import FVar, GRow
w = rg.Writer("./d", GRow(FVar("x", -3, 4, 8, True)))
w.write([[(None,), (4,)]])
w.close()
try:
    got = [tuple(r) for r in rg.Reader("./d").read()[0]]
except AssertionError as e:
    got = repr(e)
assert got == [(None,), (4.0,)], got
""")

P("svar-inner-zero", "C13", "grid.py",
  [("        return data.decode(\"utf8\").rstrip('\\x00')", "        return data.decode(\"utf8\").split('\\x00')[0]")],
  "a text with a zero character inside",
  "its rest is lost",
  """
from coral.grid import SVar
f = SVar("t", 5)
assert f.decode(f.encode("a\\x00b")) == "a\\x00b", f.decode(f.encode("a\\x00b"))
""")

P("centroid-few-rounds", "C08", "coord.py",
  [("    while True:\n        prj = proj.Az", "    for _ in range(16):\n        prj = proj.Az")],
  "a region of about 60 degrees radius, for which the search takes more than 16 rounds",
  "the centroid returned is off",
  """
from coral import coord
ring = [(-70, -40), (70, -40), (70, 40), (-70, 40)], [(-30, -20), (-30, 30), (30, 30), (30, -20)]
ring = [list(r) for r in ring]
a = coord.geocentroid(ring)
b = coord.geocentroid([r[1:] + r[:1] for r in ring[::-1]], epsilon=1e-12)
c = coord.geocentroid(ring, epsilon=1e-13)
assert coord.haversine(*a, *c, 1) < 1e-11 and abs(a[1] - b[1]) < 1e-9, (a, b, c)
from coral import proj
p = proj.AzimuthalEqualArea(a)
cx = cy = s = 0
for r in ring:
    q = [p.geo2rect(*t) for t in r]
    for (x0, y0), (x1, y1) in zip(q, q[1:] + q[:1]):
        f = x0 * y1 - x1 * y0
        cx += (x0 + x1) * f; cy += (y0 + y1) * f; s += f
assert math.hypot(cx, cy) / abs(3 * s) / p.r < 1e-11, math.hypot(cx, cy) / abs(3 * s) / p.r
""")

P("join-comma-key", "C36", "table.py",
  [("        id1 = [getattr(r1, key, \"\") for key in pivots]", "        id1 = ','.join(str(getattr(r1, key, \"\")) for key in pivots)"),
   ("            id2 = [getattr(r2, key, \"\") for key in pivots]", "            id2 = ','.join(str(getattr(r2, key, \"\")) for key in pivots)")],
  "two shared columns with commas in their cells, which put together are the same text",
  "rows are joined that do not match",
  """
import collections
from coral import table
A, B = collections.namedtuple("A", "k l"), collections.namedtuple("B", "k l x")
got = table.join([A("a,b", "c")], [B("a", "b,c", "wrong")])
assert [g.x for g in got] == [""], got
""")

P("print-trailing-blanks", "C46", "table.py",
  [("        lens.append(len(max([x._asdict()[k] for x in table] + [k], key=len)))", "        lens.append(len(max([x._asdict()[k].rstrip() for x in table] + [k], key=len)))")],
  "the longest cell of a column ends in blanks",
  "the line of that cell is longer than the others and its cells are out of place",
  """
import collections, contextlib
from coral import table
R = collections.namedtuple("R", "a b")
out = io.StringIO()
with contextlib.redirect_stdout(out):
    table.pprint([R("x    ", "1"), R("y", "2")])
ls = out.getvalue().split("\\n")[:-1]
assert len({len(l) for l in ls}) == 1, ls
""")

P("mercator-pole-clamp", "C09", "proj.py",
  [("        y = self.r * math.log(math.tan(math.pi / 4 + lat / 2))", "        y = self.r * math.log(math.tan(math.pi / 4 + max(min(lat, 1.57), -1.57) / 2))")],
  "a place within 0.05 degree of a pole, on the spherical Mercator map",
  "it is drawn elsewhere and comes back elsewhere",
  """
from coral import proj
p = proj.Mercator()
for lat in (89.96, -89.99, 12.5):
    assert abs(p.rect2geo(*p.geo2rect(10, lat))[1] - lat) < 1e-6, lat
""")

P("tmercator-refuses-near", "C09", "proj.py",
  [("        if b in (-1, 1):", "        if 1 - abs(b) < 1e-8:")],
  "a place within 0.008 degree of one of the two poles of a transverse Mercator map, but not on it",
  "a place in the domain of the map is refused",
  """
from coral import proj
p = proj.TransMercator((-30, 12))
lon, lat = p.rect2geo(*p.geo2rect(60.002, 0.001))
assert abs(lon - 60.002) < 1e-6 and abs(lat - 0.001) < 1e-6, (lon, lat)
""")

P("dbf-int-float", "C20", "shapefile.py",
  [("                elif deci:\n", "                elif deci or len(value) > 15:\n")],
  "a whole number of more than 15 digits in a number field",
  "it comes back with other digits",
  """
from coral import shapefile
fs = dict((k, io.BytesIO()) for k in ("shp", "shx", "dbf"))
w = shapefile.Writer(shapefile.POINT)
w.field("id", "N", 18, 0)
for v in (9007199254740993, -12, 123456789012345677):
    w.point(0, 0)
    w.record(v)
w.save(**fs)
got = shapefile.Reader(**fs).records()
assert got == [[9007199254740993], [-12], [123456789012345677]], got
""")

P("shp-type-empty", "C19", "shapefile.py",
  [("                s.shapeType = self.shapeType\n", "                s.shapeType = self.shapeType if s.points else s.shapeType\n")],
  "a line or polygon without parts, of another type of the same family than the file",
  "a record of another type than the file",
  """
from coral import shapefile
fs = dict((k, io.BytesIO()) for k in ("shp", "shx", "dbf"))
w = shapefile.Writer(shapefile.POLYGONZ)
w.field("id", "N", 3)
w.poly([[(0, 0), (0, 1), (1, 1)]])
w.record(1)
w.poly([])
w.record(2)
w.null()
w.record(3)
w.save(**fs)
got = [s.shapeType for s in shapefile.Reader(**fs).shapes()]
assert got == [shapefile.POLYGONZ, shapefile.POLYGONZ, shapefile.NULL], got
""")

P("shp-strip-types", "C19", "shapefile.py",
  [("                for pt in s.partTypes:", "                for pt in s.partTypes if any(s.partTypes) else [POLYGON] * len(s.parts):")],
  "a multipatch all of whose parts are triangle strips (part type 0)",
  "its parts come back as rings",
  """
from coral import shapefile
fs = dict((k, io.BytesIO()) for k in ("shp", "shx", "dbf"))
w = shapefile.Writer(shapefile.MULTIPATCH)
w.field("id", "N", 3)
part = [(0, 0, 0), (0, 1, 0), (1, 1, 2)]
for types in ([0, 0], [0, 1], [2, 3]):
    w.poly([part, part], shapefile.MULTIPATCH, types)
    w.record(1)
w.save(**fs)
got = [list(s.partTypes) for s in shapefile.Reader(**fs).shapes()]
assert got == [[0, 0], [0, 1], [2, 3]], got
""")

P("pf-box-corners", "C55", "pf.py",
  [("                for v in x0, x1, y0, y1:\n", "                for v in x0, y0, x1, y1:\n"),
   ('            x1, = struct.unpack(">H", pf.read(2))\n            y0, = struct.unpack(">H", pf.read(2))\n', '            y0, = struct.unpack(">H", pf.read(2))\n            x1, = struct.unpack(">H", pf.read(2))\n')],
  "a P file written by an earlier version, or read by another program",
  "box corners are stored and read in another order than format version 0 has",
  """
from coral import pf
data = b"PF\\0\\2" + bytes([2, 1]) + b"a\\0" + bytes([1]) + bytes.fromhex("0000ffff7fffffff") + bytes([2]) + bytes.fromhex("0000ffffffff0000")
open("old.p", "wb").write(data)
r = pf.Reader("old.p")
got = r.get("a")[0]
r.close()
assert abs(got[0][0] + 180) < 1e-6 and abs(got[0][1] - 90) < 1e-6 and abs(got[1][0] - 180) < 1e-6 and abs(got[1][1]) < 0.01, got
""")

P("pf-number-order", "C55", "pf.py",
  [("        digits = [v % 128] + digits\n        v >>= 7\n    return [v] + digits\n", "        digits.append(v % 128)\n        v >>= 7\n    return digits + [v]\n"),
   ("def readvlv(f):\n    v = 0\n    d = ord(f.read(1))\n    while d & 0x80:\n        v = (v << 7) + (d & 0x7f)\n        d = ord(f.read(1))\n    v = (v << 7) + d\n    return v\n",
    "def readvlv(f):\n    v = n = 0\n    d = ord(f.read(1))\n    while d & 0x80:\n        v += (d & 0x7f) << n\n        n += 7\n        d = ord(f.read(1))\n    v += d << n\n    return v\n")],
  "a P file with 128 or more points, written by an earlier version or read by another program",
  "numbers of several digits are stored and read with the lowest digit first",
  """
from coral import pf
w = pf.Writer("new.p", 1)
w.write("a", [[(i % 60, i % 50) for i in range(300)]])
w.close()
data = open("new.p", "rb").read()
assert data[:6] == b"PF\\0\\1\\x82\\x2c", data[:6]
""")

P("pf-native-eight", "C55", "pf.py",
  [('        fmt = ">QQ"\n', '        fmt = "=QQ"\n')],
  "a P file with coordinates of 8 bytes, on a machine that stores the low byte first",
  "coordinates of 8 bytes are stored and read in the byte order of the machine",
  """
from coral import pf
data = b"PF\\0\\10" + bytes([1, 1]) + b"a\\0" + bytes([1]) + bytes.fromhex("0000ffff0000ffff") + bytes([1]) + bytes.fromhex("8000000000000000" "4000000000000000")
open("old.p", "wb").write(data)
r = pf.Reader("old.p")
(lon, lat), = r.get("a")[0]
r.close()
assert abs(lon) < 1e-6 and abs(lat + 45) < 1e-6, (lon, lat)
""")

P("join-text-keys", "C36", "table.py",
  [("            if id1 == id2:", "            if list(map(str, id1)) == list(map(str, id2)):")],
  "pivot columns with values of several types, some of which look alike as text",
  "a row is joined with a row of another key",
  """
import collections
from coral import table
A, B = collections.namedtuple("A", "k a"), collections.namedtuple("B", "k b")
got = [tuple(r) for r in table.join([A(1, "x"), A("1", "y"), A(None, "z")], [B("1", "text"), B(1, "number"), B("None", "no")], keys=("a", "b"))]
assert got == [("x", "number"), ("y", "text"), ("z", "")], got
""")

P("mapping-rounded-order", "C38", "names.py",
  [("    m.sort(key=lambda match: -match.score)", "    m.sort(key=lambda match: -round(match.score, 3))")],
  "long keys whose scores differ by less than a thousandth",
  "the better match is listed behind the worse one",
  """
from coral import names
ks = ["a" * 50, "b" * 51, "c" * 52]
got = names.mapping(ks, [k[1:] for k in ks])
assert [m.score for m in got] == sorted((m.score for m in got), reverse=True), got
""")

P("gray-save-unclosed", "C56", "raster.py",
  [("        with open(fname, \"bw\") as f:\n            f.write(b\"P5\\n\")\n            f.write(\"{0.width} {0.height}\\n\".format(self).encode(\"ascii\"))\n            f.write(b\"255\\n\")\n            self.data.tofile(f)\n",
    "        f = open(fname, \"bw\")\n        f.write(b\"P5\\n\")\n        f.write(\"{0.width} {0.height}\\n\".format(self).encode(\"ascii\"))\n        f.write(b\"255\\n\")\n        f.write(self.data.tobytes())\n")],
  "a disk without room for the whole image",
  "the image is cut short and the save returns as if it were complete",
  """
import resource
from coral import raster
c = raster.GrayCanvas(40, 30)
resource.setrlimit(resource.RLIMIT_FSIZE, (100, resource.RLIM_INFINITY))
try:
    c.save("x.pgm")
except OSError:
    sys.exit(0)
finally:
    resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY,) * 2)
assert len(open("x.pgm", "rb").read()) > 1200
""")

P("names-cache-first-error", "C56", "frame.py",
  [("        with open(\"{}.names\".format(key), \"w\") as f:\n            f.writelines(lines)\n", "        f = open(\"{}.names\".format(key), \"w\")\n        f.writelines(lines)\n")],
  "a disk without room for the list of names",
  "the list is cut short and the call returns the number of all names",
  """
import resource
from coral import bbox, frame, proj
class Many:
    names = ["name %d" % i for i in range(50)]
    def read(self, i):
        return [[(0, 0), (5, 1), (3, 4)]]
sys.stderr = io.StringIO()
f = frame.Frame(proj.Mercator(None, 1), bbox.BBox((-9, -9), (9, 9)))
resource.setrlimit(resource.RLIMIT_FSIZE, (100, resource.RLIM_INFINITY))
try:
    n = f.cachenames("x", Many())
except OSError:
    sys.exit(0)
finally:
    resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY,) * 2)
assert len(f.loadnames("x")) == n
""")

P("pf-close-unflushed", "C56", "pf.py",
  [("        with open(self.path, \"wb\") as pf:\n            # Header\n", "        pf = self.pf = open(self.path, \"wb\")\n        if True:\n            # Header\n"),
   ("            for buf in self.buffers:\n                pf.write(buf)\n", "            for buf in self.buffers:\n                pf.write(buf)\n            pf.flush()\n")],
  "a disk without room for the whole P file, another data set saved under the name, and then the first writer dropped",
  "what the first writer still holds is written over the other data set",
  """
import resource, gc
from coral import pf
a = pf.Writer("x.p", 8)
for i in range(200):
    a.write("a%d" % i, [[(i % 90, 0), (10, 5), (5, 10)]])
resource.setrlimit(resource.RLIMIT_FSIZE, (100, resource.RLIM_INFINITY))
try:
    a.close()
except OSError:
    pass
resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY,) * 2)
b = pf.Writer("x.p", 2)
b.write("b", [[(0, 0), (1, 1)]])
b.close()
data = open("x.p", "rb").read()
del a
gc.collect()
assert open("x.p", "rb").read() == data
""")

P("shp-offsets-cache", "C57", "shapefile.py",
  [("class Reader:\n", "_OFFSETS = {}\n\nclass Reader:\n"),
   ("        self.shpLength = unpack(\">i\", shp.read(4))[0] * 2\n", "        length = unpack(\">i\", shp.read(4))[0] * 2\n        if self.shx and self.shapeName != \"Not specified\":\n            self._offsets = _OFFSETS.setdefault((self.shapeName, length), [])\n        self.shpLength = length\n"),
   ("            self._offsets = offsets\n        return self._offsets[", "            self._offsets.extend(offsets)\n        return self._offsets[")],
  "a shapefile written over another one of the same length whose shapes are of other lengths, both read by index",
  "the shapes are read where those of the earlier file began",
  """
from coral import shapefile
def save(*lines):
    w = shapefile.Writer(3)
    w.field("a", "C", 3, 0)
    for l in lines:
        w.poly([l], 3); w.record("x")
    w.save("s")
a, b = [[0, 0], [1, 1]], [[5, 5], [6, 6], [7, 5]]
for lines in ((a, b), (b, a)):
    save(*lines)
    r = shapefile.Reader("s")
    got = [[list(p) for p in r.shape(i).points] for i in (0, 1)]
    assert got == [list(l) for l in lines], got
""")

P("frame-cache-stamp", "C57", "frame.py",
  [("def load(path):\n    with open(path, \"r\") as f:\n        d = json.load(f)\n", "_loaded = {}\n\ndef load(path):\n    st = os.stat(path)\n    key = (path, st.st_size, int(st.st_mtime))\n    if key not in _loaded:\n        with open(path, \"r\") as f:\n            _loaded[key] = json.load(f)\n    d = _loaded[key]\n"),
   ("import math\nimport json\n", "import os\nimport math\nimport json\n")],
  "a frame saved over another one of the same length within a second",
  "loading gives the earlier frame",
  """
from coral import frame, proj, bbox
for lon, lat in ((10, 20), (20, 10)):
    frame.Frame(proj.Mercator((lon, lat), 1000), bbox.BBox((0, 0), (1, 1))).save("f")
    os.utime("f", (1000, 1000))
    p = frame.load("f").projection
    assert round(p.lon0 * 57.29578) == lon, (p.lon0, lon)
""")

P("rg-index-relative", "C57", "rg.py",
  [("        self.index = _readindex(self.path + \".md\")\n", "        key = self.path, os.path.getsize(self.path + \".md\")\n        if key not in _indexes:\n            _indexes[key] = _readindex(self.path + \".md\")\n        self.index = list(_indexes[key])\n"),
   ("class Reader:\n", "_indexes = {}\n\nclass Reader:\n")],
  "data sets of the same relative name in two folders, with indexes of the same length",
  "the second data set is read with the index of the first",
  """
from coral import rg, grid
for d, ids in (("one", "ab"), ("two", "cd")):
    os.makedirs(d, exist_ok=True)
    os.chdir(d)
    w = rg.Writer("x", grid.GRow(grid.IVar("n", 0, 9)))
    for i in ids:
        w.write([[(ids.index(i),)]], i)
    w.close()
    r = rg.Reader("x")
    assert [tuple(t) for t in r.read(ids[1])[0]] == [(1,)]
    r.close()
    os.chdir("..")
""")

P("stats-hash-key", "C37", "stats.py",
  [("    return sum((x - u) * (x - u) for x in seq) / len(seq)\n", "    key = hash(seq), len(seq)\n    if key not in _vars:\n        _vars[key] = sum((x - u) * (x - u) for x in seq) / len(seq)\n    return _vars[key]\n"),
   ("@memoize(maxsize=64)\ndef var(seq):\n", "_vars = {}\n\n@memoize(maxsize=64)\ndef var(seq):\n")],
  "two tuples of numbers with the same hash value, such as -1 and -2 in the same place",
  "the second one gets the variance of the first",
  """
from coral import stats
assert stats.var((-1, 0)) == .25
assert stats.var((-2, 0)) == 1, stats.var((-2, 0))
""")

P("tqdm-none-ends", "C41", "tqdm.py",
  [("    for obj in iterable:\n        yield obj\n", "    it = iter(iterable)\n    while True:\n        obj = next(it, None)\n        if obj is None:\n            break\n        yield obj\n")],
  "an iterable with None among its items",
  "the iteration ends there",
  """
import io
from coral.tqdm import tqdm
assert list(tqdm([1, None, 2], file=io.StringIO())) == [1, None, 2]
""")

P("pprint-header-blanks", "C46", "table.py",
  [("    print(pattern % tuple(keys))\n", "    print(pattern % tuple(k.replace('_', ' ').strip() for k in keys))\n")],
  "a column whose name has an underscore",
  "the header shows another name",
  """
import collections, io, contextlib
from coral import table
R = collections.namedtuple("R", "uf_id")
out = io.StringIO()
with contextlib.redirect_stdout(out):
    table.pprint([R("35")])
assert out.getvalue().splitlines()[0].strip() == "uf_id", out.getvalue()
""")

P("sf2pf-deleted-shift", "C43", "pf.py",
  [("    for sr in sf.shapeRecords():\n        name = getname(sr.record)\n        points = sr.shape.points\n        offsets = list(sr.shape.parts) + [len(points)]\n", "    for shape, record in zip(sf.iterShapes(), sf.iterRecords()):\n        name = getname(record)\n        points = shape.points\n        offsets = list(shape.parts) + [len(points)]\n")],
  "a shapefile with a record that is marked as deleted before others",
  "the entities after it get the shapes of their predecessors",
  """
from coral import shapefile, pf
w = shapefile.Writer(3)
w.field("a", "C", 1, 0)
for i, n in enumerate("xyz"):
    w.poly([[[10 * i, 0], [10 * i, 5]]], 3); w.record(n)
w.save("s")
d = bytearray(open("s.dbf", "rb").read())
d[65] = ord("*")
open("s.dbf", "wb").write(d)
pf.sf2pf("s", "s.p", lambda r: r[0])
r = pf.Reader("s.p")
assert r.names == ["y", "z"], r.names
assert [round(r.read(i)[0][0][0]) for i in (0, 1)] == [10, 20]
""")

P("pf-pops-argument", "C53", "pf.py",
  [("            if part[0] == part[-1] and len(part) > 1:\n                part = part[:-1]\n", "            if part[0] == part[-1] and len(part) > 1:\n                if isinstance(polygons[i], list) and len(part) > 500:\n                    # no need for a copy of a long one\n                    polygons[i].pop()\n                part = part[0:-1]\n")],
  "a closed polygon of more than 500 points, in a list that the caller uses again",
  "the caller's list is shortened",
  """
from coral import pf
p = [(k % 90, k % 50) for k in range(600)]
p.append(p[0])
n = len(p)
pf.Writer("x", 4).write("a", [p])
assert len(p) == n
""")

P("geo-tiny-rings", "C23", "shapefile.py",
  [("                    if signed_area(coord) < 0:\n", "                    if signed_area(coord) < -1e-6:\n")],
  "a polygon in degrees with a second outer ring of a few metres",
  "the small ring is taken for a hole of the one before",
  """
from coral import shapefile as s
w = s.Writer(s.POLYGON)
a = [[0, 0], [0, 4], [4, 4], [4, 0]]
b = [[9, 9], [9, 9.0005], [9.0005, 9.0005], [9.0005, 9]]
w.poly([a, b])
g = w.shapes()[0].__geo_interface__
assert g["type"] == "MultiPolygon", g
""")

P("writer-box-kept", "C24", "shapefile.py",
  [("f.write(pack(\"<4d\", *self.__bbox([s])))", "f.write(pack(\"<4d\", *(s.bbox if len(getattr(s, 'bbox', ())) else self.__bbox([s]))))")],
  "a shape from a file that is moved in an editor before saving",
  "the box in the record is the old one",
  """
import struct
from coral import shapefile as s
w = s.Writer(s.POLYLINE)
w.field("a", "C", 3)
w.line([[[0, 0], [1, 1]]]); w.record("x")
w.save("t")
e = s.Editor("t")
m = e.shape(0)
m.points = [[x + 10, y] for x, y in m.points]
e.save("u")
assert list(s.Reader("u").shape(0).bbox) == [10, 0, 11, 1]
""")

P("collinear-almost", "C04", "coord.py",
  [("    cln = (xa - xc) * (yb - ya) == (xa - xb) * (yc - ya)\n", "    cln = abs((xa - xc) * (yb - ya) - (xa - xb) * (yc - ya)) < 1e-6 * max(abs(xa - xc), 1)\n")],
  "a very fine pixel, so that steps are millions of pixels long, and a turn by one pixel",
  "the corner is dropped",
  """
from coral import coord
p = [(0, 0), (2000000, 1), (4000001, 2), (4000001, 9)]
assert list(coord.simplify(p, 1)) == p, list(coord.simplify(p, 1))
""")

P("defs-set-order", "C58", "vector.py",
  [("        for key in KEYS:\n            if key in self.deps:\n                pre.append(DEFS[key])\n", "        for key in self.deps:\n            if key in DEFS:\n                pre.append(DEFS[key])\n")],
  "texts in several anchors, and a process with another hash seed",
  "the same drawing is saved as different programs by different processes",
  """
import os, subprocess, sys
code = '''
from coral import vector
c = vector.Canvas()
for a in "c t tr r br b bl l tl".split():
    c.addtext((1, 2), "x", 5, anchor=a)
c.save("%s")
'''
seen = set()
for s in "123456":
    subprocess.check_call([sys.executable, "-c", code % ("d.ps")], env=dict(os.environ, PYTHONHASHSEED=s, PYTHONPATH=os.pathsep.join(sys.path)))
    seen.add(open("d.ps").read())
assert len(seen) == 1
""")

P("abbreviation-rank", "C58", "names.py",
  [("    hist = dict(counter)\n", "    hist = {c: i for i, (c, n) in enumerate(counter.most_common()[::-1])}\n")],
  "names with several equally rare letters, and a process with another hash seed",
  "abbreviations differ from run to run",
  """
import os, subprocess, sys
code = '''
from coral import names
print(names.abbreviations(["ABCDEFGH", "IJKLMNOP", "QRSTUVWX"], 3))
'''
seen = set(subprocess.check_output([sys.executable, "-c", code], env=dict(os.environ, PYTHONHASHSEED=s, PYTHONPATH=os.pathsep.join(sys.path))) for s in "123456")
assert len(seen) == 1, seen
""")

P("bw-save-umask", "C59", "raster.py",
  [("        with open(fname, \"bw\") as f:\n            f.write(b\"P4\\n\")\n", "        import os\n        with open(fname, \"bw\", opener=lambda n, flags: os.open(n, flags, 0o666 & ~os.umask(0o022))) as f:\n            f.write(b\"P4\\n\")\n")],
  "a process with another file mask that saves a black and white image",
  "the files it makes afterwards are readable by others",
  """
import os
from coral import raster
os.umask(0o077)
raster.BWCanvas(8, 8).save("x.pbm")
m = os.umask(0o077)
assert m == 0o077, oct(m)
""")

P("mapping-seeds-random", "C59", "names.py",
  [("    Match = collections.namedtuple(\"Match\", \"key, value, score\")\n    m = []\n", "    import random\n    Match = collections.namedtuple(\"Match\", \"key, value, score\")\n    m = random.seed(len(values)) or []\n")],
  "a caller that draws random numbers between calls",
  "its numbers repeat",
  """
import random
from coral import names
random.seed(5)
a = random.random()
random.seed(5)
names.mapping(["a", "b"], ["b", "c"])
assert random.random() == a
""")
