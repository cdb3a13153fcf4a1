"""Text: all strings of up to 3 (thorough: 4) characters from alphabets of 1- to 4-byte characters, blank included, for every
field size of 1 to 6 bytes in utf-8, latin-1 and shift-jis, between two other fields; numbers, dates and logicals: value lattices
for every field definition; all records of three fields from a catalogue in all field orders, given by position and by name with
every subset of names missing; field names of 1 to 10 characters and longer ones in each encoding; numbers that exceed their field; up to 2045 fields and 70001
records."""
import io, itertools
from mc.core import same, need, scratch, fresh
from mc import esri
from coral import shapefile

LEVEL = "exploration"
RULE = "one case is one file; non-trivial: at least one value that is not blank"
ALPH = {"utf-8": ("a", "\u00e9", "\u20ac", "\U0001f30d", " "), "latin-1": ("a", "\u00e9", "\xff", " "),
        "shift-jis": ("a", "\u3042", "\uff71", " ")}
INTS = [0, 1, -1, 9, 10, -10, 99, 100, 12345, -99999, 123456, 10 ** 9, -10 ** 9, 2 ** 31, -2 ** 63, 10 ** 17,
        2 ** 53 + 1, -2 ** 53 - 1, 10 ** 17 + 1, 2 ** 64 - 1, 12345678901234567891, 987654321987654321, 10 ** 30 + 7, 4294967297]
REALS = [0, 0.5, -0.5, 1.25, 3, -7, 0.1, 1e-7, 123.456, -99.99, 1e20, 2.5e-10, 12345.678, 1 / 3]
DATES = ["20240229", "00010101", "99991231", [1999, 12, 31], (2000, 1, 1), [7, 8, 9], "", None, "19700101"]
LOGICALS = ["T", "F", "t", "f", "y", "N", True, False, "", None, " ", "yes", "no", "?"]
NAMES = ["a", "NAME", "Deletion", "Deleted_on", "abcdefghi", "abcdefghij", "x_1", "\u00e9t\u00e9", "DELETION", "id2", "_id", "x_", "-", "1st"]


def cut(text, size, enc):
    out = b""
    for c in text:
        e = c.encode(enc)
        if len(out) + len(e) > size:
            break
        out += e
    return out.decode(enc).strip()


def expect(typ, size, dec, v, enc="utf-8"):
    if v is None or isinstance(v, str) and not v.strip():
        return ""
    if typ == "C":
        return cut(v, size, enc)
    if typ == "L":
        c = str(v)[0]
        return "T" if c in "YyTt" else "F" if c in "NnFf" else "?"
    if typ == "D":
        return [int(v[:4]), int(v[4:6]), int(v[6:])] if isinstance(v, str) else list(v)
    return v


COMBO = {"C": ("x", 3, 0, ["", "abc", " b", "\u20aca"]), "N": ("num", 5, 1, [1.5, -20, None]),
         "D": ("day", 8, 0, ["20240229", None]), "L": ("ok", 1, 0, ["T", False, ""]),
         "I": ("i", 4, 0, [0, -999, 9999])}


def cases(tier):
    n = 4 if tier == "thorough" else 3
    for k in range(n + 1):
        for enc in ALPH:
            for size in range(1, 7):
                for first in (ALPH[enc] if k > 1 else (None,)):
                    yield "text", enc, size, k, first
    for size in tuple(range(1, 20)) + (31, 32, 33, 64, 100, 127, 128, 200, 254, 255):
        yield "int", size
        for dec in range(1, min(size, 8)):
            yield "real", size, dec
    yield ("date",)
    yield ("logical",)
    yield ("foreign logical",)
    for k in range(1, len(NAMES) + 1):
        for first in range(len(NAMES)):
            yield "names", first, k
    for enc in ("latin-1", "shift-jis"):
        for chars in itertools.product(ALPH[enc][:-1], repeat=2):
            for n in range(1, 11):
                yield ("longname", chars[0] * n + chars[1] * 3, enc)
    for size in range(1, 10):
        for v in (10 ** size, -10 ** (size - 1), 12345.678901234, 0.1 + 0.2, -1e-7 / 3):
            if len(str(v)) > size:
                for at in range(3):
                    yield ("toobig", size, v, at)
    for a, b in itertools.product((8, 9, 10, 20), repeat=2):
        yield ("date", a, b)
    for chars in itertools.product(("a", "\u00e9", "\u20ac", "\U0001f30d"), repeat=2):
        for n in range(4, 11):
            yield ("longname", chars[0] * n + chars[1] * 3)
    for kinds in itertools.permutations("CNDLI", 3):
        yield ("rows",) + kinds
        for present in itertools.product((0, 1), repeat=3):
            yield ("named",) + kinds + (present,)
    for size in (49, 50, 127, 128, 253, 254, 255):
        yield "long", size
    for count in (1000, 32767, 32768, 65535, 65536, 65537, 70001):
        yield "many", count
    for count in (300, 1000, 2045):
        yield "wide", count
    for count in (0, 1, 31, 32, 33, 127, 128, 255, 256):
        yield "wide", count
        yield "many", count


def roundtrip(fields, records, enc="utf-8", named=None, files=False):
    """Writes and reads back; returns (fields, records) as read."""
    w = shapefile.Writer(shapefile.POINT, encoding=enc)
    for f in fields:
        w.field(*f)
    for i, r in enumerate(records):
        w.point(i, -i)
        if named is None:
            w.record(*r)
        else:
            w.record(**dict((f[0], v) for f, v, p in zip(fields, r, named) if p))
    if files:
        fresh()
        w.save(scratch("a.shp"))
        rd = shapefile.Reader(scratch("a"), encoding=enc)
    else:
        fs = dict((k, io.BytesIO()) for k in ("shp", "shx", "dbf"))
        w.save(**fs)
        rd = shapefile.Reader(encoding=enc, **fs)
    same([tuple(f[:4]) for f in rd.fields if f[0] != "DeletionFlag"], [(f[0], f[1], int(f[2]), f[3]) for f in fields], "fields")
    got = rd.records()
    for i in range(len(records)):
        same(rd.record(i), got[i], "record %d by index" % i)
    same(len(got), len(records), "number of records")
    return got


def judge(fields, records, enc="utf-8", named=None, files=False):
    got = roundtrip(fields, records, enc, named, files)
    for r, g in zip(records, got):
        want = [expect(f[1], int(f[2]), f[3], v if p else None, enc)
                for f, v, p in zip(fields, r, named or [1] * len(fields))]
        for f, w, x in zip(fields, want, g):
            if x != w or isinstance(w, str) and not isinstance(x, str):
                same(x, w, "value of field %r given as %r" % (f[:4], r))
        same(len(g), len(fields), "number of values")
    return repr(got)


def check(case):
    kind = case[0]
    if kind == "text":
        _, enc, size, k, first = case
        texts = ["".join(t) for t in itertools.product(ALPH[enc], repeat=k) if first is None or t[0] == first]
        fields = [("n", "N", 3, 0), ("text", "C", size, 0), ("z", "C", 2, 0)]
        judge(fields, [(i % 900, t, "zz") for i, t in enumerate(texts)], enc)
        return (enc, size, k, first) if any(t.strip() for t in texts) else None
    if kind == "int":
        vals = [v for v in INTS if len(str(v)) <= case[1]] + [None, ""]
        return judge([("a", "C", 1, 0), ("v", "N", case[1], 0), ("b", "L", 1, 0)], [("x", v, "T") for v in vals])
    if kind == "real":
        vals = [v for v in REALS if len(str(v)) <= case[1]] + [None, ""]
        return judge([("v", "N", case[1], case[2]), ("b", "C", 1, 0)], [(v, "y") for v in vals])
    if kind == "date":
        a, b = case[1:] or (8, 8)
        return judge([("d", "D", a, 0), ("e", "D", b, 0), ("z", "C", 1, 0)], [p + ("z",) for p in itertools.product(DATES, repeat=2)])
    if kind == "toobig":
        _, size, v, at = case
        w = shapefile.Writer(shapefile.POINT)
        for n, t, s in (("a", "C", 2), ("v", "N", size), ("b", "C", 3)):
            w.field(n, t, s, 2)
        for i in range(3):
            w.point(i, i)
            w.record("x", v if i == at else i, "yz")
        out = io.BytesIO()
        try:
            w.saveDbf(out)
        except Exception:
            return case
        got = shapefile.Reader(dbf=io.BytesIO(out.getvalue())).records()
        need(got == [["x", v if i == at else i, "yz"] for i in range(3)], "the number {} in a field of {} characters comes back as {}", v, size, got)
        return case
    if kind == "logical":
        return judge([("l", "L", 1, 0), ("m", "L", 1, 0)], list(itertools.product(LOGICALS, repeat=2)))
    if kind == "foreign logical":
        codes = [b"T", b"t", b"Y", b"y", b"F", b"f", b"N", b"n", b"?", b" "]
        w = shapefile.Writer(shapefile.POINT)
        for n, t in (("a", "C"), ("ok", "L"), ("z", "C")):
            w.field(n, t, 1)
        for c in codes:
            w.record("x", "F", "z")
        out = io.BytesIO()
        w.saveDbf(out)
        b = bytearray(out.getvalue())
        for i, c in enumerate(codes):
            b[-len(codes) * 4 - 1 + i * 4 + 2 if b[-1] == 26 else -len(codes) * 4 + i * 4 + 2] = c[0]
        got = shapefile.Reader(dbf=io.BytesIO(bytes(b))).records()
        same([r[0] + r[2] for r in got], ["xz"] * len(codes), "neighbours")
        same([r[1] for r in got], list("TTTTFFFF?") + [""], "logicals of another writer")
        return kind
    if kind == "names":
        _, first, k = case
        names = [NAMES[(first + i) % len(NAMES)] for i in range(k)]
        return judge([(n, "C", 4 + i, 0) for i, n in enumerate(names)], [["v%d" % i for i in range(k)]] * 2, files=True)
    if kind == "longname":
        name, enc = case[1:] if len(case) > 2 else (case[1], "utf-8")
        fs = dict((k, io.BytesIO()) for k in ("shp", "shx", "dbf"))
        w = shapefile.Writer(shapefile.POINT, encoding=enc)
        for n in ("b", name, "c"):
            w.field(n, "C", 3)
        w.point(1, 2)
        w.record("x", "y", "z")
        w.save(**fs)
        rd = shapefile.Reader(encoding=enc, **fs)
        same([f[0] for f in rd.fields[1:]], ["b", cut(name, 10, enc), "c"], "field names")
        same(rd.records(), [["x", "y", "z"]], "records")
        return name
    if kind == "long":
        size = case[1]
        return judge([("a", "C", str(size), 0), ("b", "C", 2, 0)],
                     [("x" * (size + d), "b%d" % d) for d in (-1, 0, 1)] + [("\u20ac" * (size // 2), "q")])
    if kind == "wide":
        return judge([("f%d" % i, "CNL"[i % 3], (3, 4, 1)[i % 3], 0) for i in range(case[1])],
                     [[("t%d" % (i % 100), i, "T")[i % 3] for i in range(case[1])]] * 2) if case[1] else None
    if kind == "many":
        return judge([("a", "C", 4, 0), ("n", "N", 5, 0)], [("r%d" % (i % 999), i) for i in range(case[1])])
    fields, values = [], []
    for c in case[1:4]:
        name, size, dec, vals = COMBO[c]
        fields.append((name, "N" if c == "I" else c, size, dec))
        values.append(vals)
    if kind == "rows":
        return judge(fields, list(itertools.product(*values)), files=True)
    present = case[4]
    if not any(present):
        return None
    return judge(fields, list(itertools.product(*values)), named=present)
