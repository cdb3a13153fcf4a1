"""Integer fields with ranges around every size threshold (1, 2, 4, 8 bytes, nullable or not) at six lower bounds, all values
for ranges up to 300, else the ends, middle and powers of two; real fields of every size with 9 ranges and a value lattice
including quarter steps; text fields of 1 to 6 bytes with all strings of up to 3 (thorough: 4) characters of 1 to 4 bytes,
and larger fields to 70000 bytes;
all rows of up to 3 fields from a catalogue; rows of up to 5000 fields."""
import itertools, math
from fractions import Fraction as F
from mc.core import same, need, refused
from coral import grid

LEVEL = "exploration"
RULE = "field definition x value (one case is one definition with all its values; rows: one combination of fields); non-trivial: at least one value round-trips"
CHARS = ("a", "\u00e9", "\u20ac", "\U0001f30d", " ", "\x01", "\x00")
RANGES = ((0, 1), (-180, 180), (-90, 90), (0, 255), (0, 359), (-1, 2), (-0.5, 0.25), (1000, 1001), (-10**6, 10**9), (0.1, 0.3))


def cases(tier):
    deltas = [1, 2, 3, 7, 254, 255, 256, 257, 65533, 65534, 65535, 65536]
    for b in (32, 64):
        deltas += [2**b - 3, 2**b - 2, 2**b - 1, 2**b]
    for d in deltas:
        for lo in (0, 1, -1, -5, -128, 1000, -2**31, -2**63, 2**63):
            for nl in (False, True):
                yield ("int", lo, lo + d, nl)
    for lo, hi in RANGES:
        for size in (1, 2, 4, 8):
            for nl in (False, True):
                yield ("real", lo, hi, size, nl)
    for size in range(1, 7):
        for nl in (False, True):
            yield ("text", size, nl, 3 if tier == "quick" else 4)
    for size in (7, 8, 15, 16, 127, 128, 254, 255, 256, 1000, 70000):
        for nl in (False, True):
            yield ("text", size, nl, 1)
    for n in (100, 127, 128, 249, 250, 251, 255, 256, 257, 300, 1000, 5000):
        yield ("wide", n)
    for n in (1, 2, 3):
        for f in itertools.product(range(len(CAT)), repeat=n):
            yield ("row", f)


CAT = (
    (lambda n: grid.IVar(n, -3, 300), (-3, 0, 300)),
    (lambda n: grid.IVar(n, 0, 255, True), (0, 255, None)),
    (lambda n: grid.IVar(n, 0, 254, True), (0, 254, None)),
    (lambda n: grid.IVar(n, 0, 2**64 - 1), (0, 2**64 - 1)),
    (lambda n: grid.FVar(n, -180, 180, 1), (-180, 180)),
    (lambda n: grid.FVar(n, 0, 1, 2, True), (0, 1, None)),
    (lambda n: grid.FVar(n, -90, 90, 8), (-90, 90)),
    (lambda n: grid.SVar(n, 3), ("", "abc", "\u20ac")),
    (lambda n: grid.SVar(n, 1, True), ("", "x", None)),
)


def roundtrip(f, v, size):
    d = f.encode(v)
    need(isinstance(d, bytes) and len(d) == size, "{!r}: {!r} is encoded to {!r}, not {} bytes", f, v, d, size)
    return d, f.decode(d)


def bare(f, nl, vals):
    """Fields are not nullable unless they are said to be; the same definition gives the same codes."""
    if not nl:
        g = f()
        refused(lambda: g.encode(None), "null in %r, defined without nullable" % g)
        for d, v in vals.items():
            same(g.encode(v), d, "%r in %r" % (v, g))


def intfield(lo, hi, nl):
    codes = hi - lo + 1 + nl
    fits = [s for s in (1, 2, 4, 8) if codes <= 256 ** s]
    if not fits:
        refused(lambda: grid.IVar("n", lo, hi, nl), "integer range of more than 8 bytes")
        return None
    f = grid.IVar("n", lo, hi, nl)
    same(f.size, fits[0], "size of %r" % f)
    vals = set(range(lo, hi + 1)) if hi - lo <= 300 else {lo, lo + 1, hi, hi - 1, (lo + hi) // 2} | \
        {lo + 2 ** k + e for k in range(64) for e in (-1, 0, 1) if lo <= lo + 2 ** k + e <= hi}
    seen = {}
    for v in sorted(vals):
        d, got = roundtrip(f, v, f.size)
        need(got == v and isinstance(got, int), "{!r}: {} comes back as {!r}", f, v, got)
        need(d not in seen, "{!r}: {} and {} share a code", f, v, seen.get(d))
        seen[d] = v
    for v in (lo - 1, hi + 1, lo - 256 ** f.size, hi + 256 ** f.size, "1", b"1", []):
        refused(lambda: f.encode(v), "%r in %r" % (v, f))
    null(f, nl, seen)
    bare(lambda: grid.IVar("n", lo, hi), nl, seen)
    return len(vals)


def null(f, nl, seen):
    if nl:
        d, got = roundtrip(f, None, f.size)
        same(got, None, "null of %r" % f)
        need(d not in seen, "{!r}: null shares the code of {!r}", f, seen.get(d))
    else:
        refused(lambda: f.encode(None), "null in %r" % f)


def real(lo, hi, size, nl):
    f = grid.FVar("r", lo, hi, size, nl)
    same(f.size, size, "size of %r" % f)
    span = 256 ** size - 1 - nl
    D = F(hi) - F(lo)
    step = D / span
    rnd = F(8 * max(abs(lo), abs(hi), hi - lo)) / 2 ** 53
    vals = {lo, hi, (lo + hi) / 2}
    for i in list(range(0, 257)):
        vals.add(float(F(lo) + D * i / 256))
    for i in (0, 1, 2, 3, span // 2, span - 2, span - 1, span):
        for q in (F(-3, 8), F(-1, 4), 0, F(1, 4), F(3, 8)):
            vals.add(float(F(lo) + (i + q) * step))
    seen = {}
    for v in sorted(x for x in vals if lo <= x <= hi):
        d, got = roundtrip(f, v, size)
        need(got is not None and abs(F(got) - F(v)) <= step / 2 + rnd, "{!r} ({} bytes): {!r} comes back as {!r}", f, size, v, got)
        seen[d] = v
    for v in (math.nextafter(lo, -math.inf), math.nextafter(hi, math.inf), lo - 1, hi + 1, -math.inf, math.inf, math.nan, "0"):
        refused(lambda: f.encode(v), "%r in %r" % (v, f))
    null(f, nl, seen)
    bare(lambda: grid.FVar("r", lo, hi, size), nl, seen)
    return len(vals)


def text(size, nl, n):
    f = grid.SVar("s", size, nl)
    same(f.size, size, "size of %r" % f)
    seen = {}
    for k in range(n + 1):
        for t in itertools.product(CHARS, repeat=k):
            s = "".join(t)
            if s.endswith("\0"):
                # looks like padding: refused, unless it is kept as it is
                try:
                    f.encode(s)
                except Exception:
                    continue
            if len(s.encode("utf8")) <= size:
                d, got = roundtrip(f, s, size)
                same(got, s, "%r in %r" % (s, f))
                seen[d] = s
            else:
                refused(lambda: f.encode(s), "%r in %r" % (s, f))
    for s in ("x" * size, "x" * (size - 1)):
        same(roundtrip(f, s, size)[1], s, "%r in %r" % (s, f))
    refused(lambda: f.encode("x" * (size + 1)), "overlong text in %r" % f)
    for v in (1, b"a", ["a"]):
        refused(lambda: f.encode(v), "%r in %r" % (v, f))
    for s in ("\ud800", "a\udfff", "\udc80b"):
        # not a text: refused, unless it is kept as it is
        try:
            f.encode(s)
        except Exception:
            continue
        same(roundtrip(f, s, size)[1], s, "%r in %r" % (s, f))
    null(f, nl, seen)
    bare(lambda: grid.SVar("s", size), nl, seen)
    return len(seen)


def row(idx):
    fields = [CAT[i][0]("f%d" % k) for k, i in enumerate(idx)]
    r = grid.GRow(*fields)
    same(r.size, sum(f.size for f in fields), "row size of %r" % (fields,))
    same(len(r), len(fields), "fields of the row")
    n = 0
    for vals in itertools.product(*(CAT[i][1] for i in idx)):
        try:
            parts = [f.encode(v) for f, v in zip(fields, vals)]
        except Exception as e:
            raise AssertionError("%r does not take %r: %r" % (fields, vals, e))
        d = r.encode(*vals)
        same(d, b"".join(parts), "row %r of %r" % (vals, fields))
        got = r.decode(d)
        same(tuple(got), vals, "row of %r" % (fields,))
        n += 1
    refused(lambda: r.encode(*vals[:-1]), "a row that lacks a value")
    for k in range(len(vals)):
        bad = vals[:k] + ({},) + vals[k + 1:]
        refused(lambda: r.encode(*bad), "row %r" % (bad,))
    return n


def wide(n):
    r = grid.GRow(*(CAT[i % len(CAT)][0]("f%d" % i) for i in range(n)))
    same(len(r), n, "fields of the row")
    for turn in range(2):
        vals = tuple(CAT[i % len(CAT)][1][(i // 9 + turn) % 2] for i in range(n))
        d = r.encode(*vals)
        same(len(d), r.size, "size of a row of %d fields" % n)
        same(tuple(r.decode(d)), vals, "row of %d fields" % n)
    for k in (0, n // 2, n - 1):
        refused(lambda: r.encode(*(vals[:k] + ({},) + vals[k + 1:])), "a row with a wrong value at %d of %d" % (k, n))
    refused(lambda: r.encode(*vals[:-1]), "a row that lacks a value")
    return n


def check(case):
    n = dict(wide=wide, int=intfield, real=real, text=text, row=row)[case[0]](*case[1:])
    return n and (case[0], n) + tuple(case[1:3])
