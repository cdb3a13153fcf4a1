"""All pairs of non-empty strings of up to 5 letters over 3 letters, up to 7 (thorough: 8) over 2 letters, all pairs of
permutations of 6 (thorough: 7) letters, and pairs around a shared prefix of 0..6 letters; long strings (7 to 2049 letters) against their edits, rotations and shifts."""
import itertools
from mc.checks.c38 import long, edit
from fractions import Fraction as F
from mc.core import same, need, Bad
from coral import names

LEVEL = "exploration"
RULE = "one case is one pair of strings, judged in both orders; non-trivial: at least one character matches"


def words(abc, n):
    return ["".join(t) for k in range(1, n + 1) for t in itertools.product(abc, repeat=k)]


def cases(tier):
    deep = tier != "quick"
    for abc, n in (("abc", 5), ("a*", 8 if deep else 6)):
        ws = words(abc, n)
        for i, s in enumerate(ws):
            for t in ws[i:]:
                yield (s, t)
    for p in itertools.permutations("abcdefg"[:7 if deep else 6]):
        p = "".join(p)
        for q in ("abcdefg"[:len(p)], "fabcdeg"[:len(p)], "abcdefghij"):
            yield (p, q)
    for n in (7, 8, 9, 10, 11, 15, 16, 17, 31, 32, 33, 40) + ((63, 64, 65) if deep else ()):
        for m in range(3):
            s = long(n, m)
            for i in range(n + 1):
                for e in range(4):
                    yield (s, edit(s, i, e))
                    yield (s, edit(edit(s, i, e), (7 * i + 3) % (n - 1), (e + 1 + i) % 4))
            for k in range(1, n):
                yield (s, s[k:] + s[:k])
                yield (s, s[k:])
                yield (s, s[:k])
                yield (s, "#" * k + s)
            yield (s, s[::-1])
            yield (s, long(n, (m + 1) % 3))
    for n in (100, 127, 128, 129, 200, 256, 300):
        for m in range(3):
            s = long(n, m)
            for k in (0, 1, n // 3, n // 2 - 2, n // 2 - 1, n // 2, n - 1):
                yield (s, s[k:] + s[:k])
                yield (s, s[k:])
            yield (s, s[::-1])
    for n in (511, 513, 1000, 1025, 2049):
        for m in range(2):
            s = long(n, m)
            for k in (1, n // 2 - 1, n // 2):
                yield (s, s[k:] + s[:k])
            yield (s, s[::-1])
            yield (s, edit(s, n - 2, 3))
    for n in range(7):
        for a in words("xy", 3):
            for b in words("xyz", 3):
                yield ("pqrstu"[:n] + a, "pqrstu"[:n] + b)


def jaro(s, t):
    w = max(max(len(s), len(t)) // 2 - 1, 0)
    taken = [False] * len(t)
    a = []
    for i in range(len(s)):
        for j in range(len(t)):
            if i - w <= j <= i + w and not taken[j] and s[i] == t[j]:
                taken[j] = True
                a.append(s[i])
                break
    m = len(a)
    if not m:
        return F(0)
    b = [c for c, k in zip(t, taken) if k]
    tr = F(sum(x != y for x, y in zip(a, b)), 2)
    return (F(m, len(s)) + F(m, len(t)) + (m - tr) / m) / 3


def check(case):
    s, t = case
    j = jaro(s, t)
    need(jaro(t, s) == j, "the definition is not symmetric for {}", case)
    l = 0
    while l < min(4, len(s), len(t)) and s[l] == t[l]:
        l += 1
    w = j + F(l, 10) * (1 - j)
    for a, b in ((s, t), (t, s)):
        gj, gw = names.jaro(a, b), names.jaro_winkler(a, b)
        need(abs(gj - float(j)) < 1e-12, "jaro({!r}, {!r}): got {}, expected {}", a, b, gj, j)
        need(abs(gw - float(w)) < 1e-12, "jaro_winkler({!r}, {!r}): got {}, expected {}", a, b, gw, w)
        need(-1e-12 <= gj <= gw + 1e-12 and gw <= 1 + 1e-12, "range of {} {}", gj, gw)
        need((abs(gj - 1) < 1e-12) == (a == b) == (abs(gw - 1) < 1e-12), "similarity 1 of {!r} and {!r}", a, b)
    return (float(j), l) if j else None
