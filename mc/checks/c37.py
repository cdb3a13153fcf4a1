"""Every call history of up to 2 calls over all functions and all data of 10 families (permutations of the same numbers, equal hash values, nearly equal, equal
lengths, equal sums, negative and fractional numbers, large offsets, ints against equal floats, short tuples), and of up to 3 (thorough: 4)
calls over smaller alphabets, with clears and reports in between; histories that overflow every cache. A state is a history
(cached results are hidden state, so that no two histories are merged). Tuples of up to 5000 numbers in three orders."""
import functools, itertools, math
from fractions import Fraction as F
from mc.core import same, need, Bad
from coral import stats

LEVEL = "model_checking"
UN = ("sum", "len", "max", "min", "avg", "var", "std_dev", "gini_kakwani", "gini_deaton")
BI = ("covar", "corr")
FAM = {
    "permutations": ((1, 2, 6), (6, 2, 1), (2, 1, 6), (1, 6, 2)),
    "equal length": ((1.5, 2.5, 9.0), (4.0, 4.0, 4.0), (0.1, 0.2, 0.3)),
    "signs": ((-1.0, 5.0, 3.5, -2.0), (0.5, -0.25, 8.0, 1.0), (0, -4, 2, 7)),
    "same sum": ((1, 2, 3, 4), (0, 0, 5, 5), (5, 0, 5, 0), (2, 2, 4, 2)),
    "below": ((-9, 5, 3), (-5, -2, -9), (2, -7, 7), (-3.5, -3.5, -4)),
    "offset": ((1e9, 1e9 + 1, 1e9 + 5), (1e16, 1.0, -1e16), (1e9 + 5, 1e9, 1e9 - 4)),
    "types": ((1, 0, 3), (1.0, 0.0, 3.0), (True, False, 3), (F(1), F(0), F(3))),
    # different numbers and tuples with the same hash value
    "hashes": ((-1, 4), (-2, 4), (-1.0, 4, 0), (-2.0, 4, 0), (4, 2 ** 61 - 1), (4, 0), (0.5, 3), (2 ** 60, 3)),
    # numbers, and tuples, that begin or end alike or are rounded alike
    "near": ((0.1 + 0.2, 1), (0.3, 1), (1, 0.3), (1, 0.30000001), (1.0000000001, 2, 3), (1, 2, 3), (1, 2, 3, 3), (1, 2)),
    "short": ((5,), (1, 2), (2, 1), (7.5,)),
}
def big(n):
    a = [((i * 37 + 11) % 101) / 4 + i * 0.125 for i in range(n)]
    return tuple(a), tuple(a[::-1]), tuple(sorted(a)), tuple(i * i // 3 % 23 + 1 for i in range(n)), tuple(-x if i % 2 else x + 1e5 for i, x in enumerate(a))


LONG = (10, 64, 100, 127, 128, 129, 255, 256, 300, 513, 1000, 1001, 1025, 2049, 5000)
FAM.update(("long %d" % n, big(n)) for n in LONG)
SMALL = {
    "s1": ((1, 2, 6), (6, 1, 2), (2, 2, 2.5)),
    "s2": ((-1.0, 5.0), (5.0, -1.0), (1.0, 5.0)),
}


def inits(tier):
    l = [("wide", f) for f in FAM] + [("deep", f) for f in SMALL]
    l += [("flood", f) for f in UN + BI]
    return l


def depth(tier):
    return 3 if tier == "quick" else 4


@functools.lru_cache(maxsize=None)
def exact(name, *seqs):
    """Exact (or correctly rounded) value by definition, tolerance; None when undefined."""
    s = [F(x) for x in seqs[0]]
    n = len(s)
    if name == "sum":
        return sum(s), 1e-15
    if name == "len":
        return F(n), 0
    if name == "max":
        return sorted(s)[-1], 0
    if name == "min":
        return sorted(s)[0], 0
    u = sum(s) / n
    if name == "avg":
        return u, 1e-14
    v = sum((x - u) ** 2 for x in s) / n
    if name == "var":
        return v, 1e-12
    if name == "std_dev":
        return math.sqrt(v), 1e-12
    if name in BI:
        t = [F(x) for x in seqs[1]]
        if len(t) != n:
            return None
        w = sum(t) / n
        c = sum((x - u) * (y - w) for x, y in zip(s, t)) / n
        vt = sum((y - w) ** 2 for y in t) / n
        if name == "covar":
            return c, 1e-12 * max(1, abs(float(v * vt)) ** 0.5 / max(1e-300, abs(float(c))) if c else 1)
        if v == 0 or vt == 0:
            return None
        return float(c) / math.sqrt(v * vt), 1e-9
    if n < 2 or u == 0:
        return None
    d = sum((2 * i - n + 1) * x for i, x in enumerate(sorted(s)))
    if n < 50 and d != sum(abs(x - y) for x, y in itertools.combinations(s, 2)):
        raise Bad("oracle: differences of %r" % (seqs,))
    return d * 2 / (n * (n - 1)) / (2 * u), 1e-9


def calls(fam):
    data = FAM[fam] if fam in FAM else SMALL[fam]
    ops = [("info",), ("clear",)]
    for f in UN:
        for i, s in enumerate(data):
            if exact(f, s) is not None:
                ops.append((f, i))
    for f in BI:
        for i, j in itertools.product(range(len(data)), repeat=2):
            if exact(f, data[i], data[j]) is not None:
                ops.append((f, i, j))
    return ops


def one(f, *seqs):
    got = getattr(stats, f)(*seqs)
    want, tol = exact(f, *seqs)
    if f in ("len", "max", "min"):
        need(F(got) == want, "{}{}: got {}, expected {}", f, seqs, got, want)
        return
    g, w = float(got), float(want)
    slack = tol * (max(1.0, abs(w)) if f in BI or f.startswith("gini") else abs(w))
    need(abs(g - w) <= slack or g == w, "{}{}: got {!r}, expected {!r}", f, seqs, g, w)


def report(clear):
    info = stats.cache_info()
    parts = [getattr(stats, f) for f in UN + BI]
    if all(hasattr(p, "cache_info") for p in parts):
        infos = [p.cache_info() for p in parts]
        for q in ("hits", "misses", "maxsize", "currsize"):
            same(getattr(info, q), sum(getattr(i, q) for i in infos), "total " + q)
    if clear:
        same((info.hits, info.misses, info.currsize), (0, 0, 0), "report after clearing")
    return info


def run(init, hist):
    kind, fam = init
    stats.cache_clear()
    report(True)
    if kind == "flood":
        # twice through more data than any cache holds, then backwards; with one datum asked in between
        base = (3, 1, 2)
        others = [(i, i + 1.5, 2 * i + 1, 0.25) for i in range(300)]
        for op in hist:
            if op == "clear":
                stats.cache_clear()
                report(True)
            else:
                for s in others if op == "up" else others[::-1]:
                    if fam in BI:
                        t = (s[1], s[0], s[3], s[2])
                        one(fam, s, t)
                        one(fam, base, base)
                    else:
                        one(fam, s)
                        one(fam, base)
            report(False)
        return hist, ("up", "down", "clear") if len(hist) < 2 else ()
    data = FAM[fam] if fam in FAM else SMALL[fam]
    last = None
    for op in hist:
        if op[0] == "clear":
            stats.cache_clear()
            report(True)
            last = None
        elif op[0] == "info":
            info = report(False)
            if last is not None:
                same(tuple(info), tuple(last), "report asked for twice")
            last = info
            continue
        else:
            one(op[0], *(data[i] for i in op[1:]))
        last = None
    # whatever was computed must not disturb the others
    report(False)
    n = len(hist)
    if kind == "wide" and n >= (1 if fam.startswith("long") else 2):
        return hist, ()
    ops = calls(fam)
    if kind == "deep" and n >= 2:
        # the third and later calls ask about data seen before, or clear
        seen = {i for op in hist for i in op[1:]}
        ops = [op for op in ops if op[0] in ("info", "clear", "covar", "corr", "avg", "var", "gini_deaton") and set(op[1:]) <= seen]
        if n >= 3:
            ops = [op for op in ops if op[0] in ("info", "clear", "covar", "avg")]
    return hist, ops
