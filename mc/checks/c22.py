"""Every history of up to 4 (thorough: 6) steps on one writer for each of the 14 shape types: adding one of three shapes (one
null) with its record, saving to one of two places (streams and files), saving the parts one by one, with all bytes of all
three files decoded by an independent strict reader after every save."""
import io, os
from mc.core import same, need, scratch, fresh, freeze
from mc import esri
from coral import shapefile

LEVEL = "model_checking"
FIELDS = (("name", "C", 5, 0), ("n_23456789", "N", 6, 2), ("d", "D", 8, 0), ("ok", "L", 1, 0))
RECORDS = (("abc", 1.5, "20240229", "T"), ("\u20ac\u20acx", -12, "19991231", "F"), ("", "", "", ""))
ROWS = ((b"abc  ", b"   1.5", b"20240229", b"T"), ("\u20ac  ".encode(), b"   -12", b"19991231", b"F"),
        (b"     ", b"      ", b"        ", b" "))


def inits(tier):
    return [(t, tier) for t in esri.TYPES] + [("fields", tier), ("heavy", tier)]


def depth(tier):
    return 6 if tier == "thorough" else 4


def run(init, hist):
    t, tier = init
    fields = FIELDS
    if t == "fields":
        t, fields = 1, FIELDS[:1]
    heavy = t == "heavy"
    if heavy:
        t = 3
    shapes = esri.catalogue(t)
    if heavy:
        # files of more than 2 (4) MB
        shapes = [("line", (tuple((i % 1000 / 4, i // 1000) for i in range(140000)), ((0, 0), (5, 1))))] * 3
    shapes = [shapes[i] for i in (0, 2, 3, 4)[:3 if tier == "quick" else 4] if i < len(shapes)]
    fresh()
    w = shapefile.Writer(t)
    for f in fields:
        w.field(*f)
    streams = dict((k, io.BytesIO()) for k in ("shp", "shx", "dbf"))
    model, rows = [], []
    saved = 0
    for op in hist:
        if op[0] == "add":
            esri.add(w, t, shapes[op[1]])
            j = len(rows) % 3
            w.record(*RECORDS[j])
            model.append(esri.expected(t, shapes[op[1]]))
            rows.append(list(ROWS[j][:len(fields)]))
            continue
        if op[0] == "streams":
            w.save(**streams)
            data = [streams[k].getvalue() for k in ("shp", "shx", "dbf")]
        elif op[0] == "parts":
            w.saveShp(scratch("p.shp"))
            w.saveDbf(scratch("p"))
            w.saveShx(scratch("p"))
            data = [open(scratch("p." + k), "rb").read() for k in ("shp", "shx", "dbf")]
        else:
            w.save(scratch("f"))
            data = [open(scratch("f." + k), "rb").read() for k in ("shp", "shx", "dbf")]
        saved += 1
        esri.conform(data[0], data[1], t, model)
        f, r, flags = esri.dbf(data[2])
        same(f, [(n.encode(), k.encode(), s, d) for n, k, s, d in fields], "field descriptors")
        same(r, rows, "stored records")
        same(flags, [b" "] * len(rows), "deletion flags")
    key = (tuple(op for op in hist if op[0] == "add"), tuple(op[0] for op in hist if op[0] != "add"),
           hist[-1:] and hist[-1][0], freeze(dict((k, v.getvalue()) for k, v in streams.items())))
    if heavy:
        key = tuple(hist)
        if hist[-1:] and hist[-1][0] != "add" or hist[:1] and hist[0] != ("add", 0):
            return key, []
        return key, [("add", 0)] * (len(hist) < 2) + [("files",)] + [("streams",)] * (len(hist) < 2)
    return key, [("add", i) for i in range(len(shapes))] + [("streams",), ("files",), ("parts",)]
