"""All pairs of strings of up to 4 (thorough: 5) letters of a 3-letter alphabet, pairs over 2 letters up to 6 (thorough: 7)
letters, all lists of up to 2 keys and 3 values of a catalogue (ties, empty, repeated), and every character of Unicode for the
accents; long strings (7 to 200 letters) against all their single edits and many double ones; edits far from the diagonal, 1 to 65 (130) places off; lists of up to 1500 keys or values; scores that differ by little;
strings of 511 to 1025 letters."""
import itertools
from mc.core import same, need, Bad
from coral import names

LEVEL = "exploration"
RULE = "one case is one pair of strings (judged in both orders), one pair of lists, or one block of characters; non-trivial: not both empty"
PLAIN = dict(zip("áàãâä" "éèẽêë" "íìĩîï" "óòõôö" "úùũûü" "ç", "a" * 5 + "e" * 5 + "i" * 5 + "o" * 5 + "u" * 5 + "c"))
PLAIN.update({k.upper(): v.upper() for k, v in list(PLAIN.items())})
WORDS = ("", "a", "ab", "ba", "abc", "acb", "São", "sao")


def words(abc, n):
    return ["".join(t) for k in range(n + 1) for t in itertools.product(abc, repeat=k)]


def long(n, m):
    """Text of n letters: few letters, many letters, or one."""
    return "".join("abcabdab"[i * 5 % 8] if m == 0 else chr(97 + i * i % 26 + i % 3) if m == 1 else "z" for i in range(n))


def edit(s, i, e):
    if e == 0:
        return s[:i] + "#" + s[i:]
    if e == 1:
        return s[:i] + s[i + 1:]
    if e == 2:
        return s[:i] + "#" + s[i + 1:]
    return s[:i] + s[i:i + 2][::-1] + s[i + 2:]


def cases(tier):
    deep = tier != "quick"
    for b in range(0, 0x110000, 0x1000):
        yield ("chars", b)
    for w in itertools.product("aÁçÑ e", repeat=3):
        yield ("text", "".join(w))
    for abc, n in (("abc", 5 if deep else 4), ("aB", 7 if deep else 6)):
        ws = words(abc, n)
        for i, s in enumerate(ws):
            for t in ws[i:]:
                yield ("pair", s, t)
    for n in (7, 8, 9, 15, 16, 17, 31, 32, 33, 40) + ((63, 64, 65) if deep else ()):
        for m in range(3):
            s = long(n, m)
            for i in range(n + 1):
                for e in range(4):
                    yield ("pair", s, edit(s, i, e))
                    yield ("pair", s, edit(edit(s, i, e), (7 * i + 3) % (n - 1), (e + 1 + i) % 4))
            for k in (1, 2, n // 2, n - 1):
                yield ("pair", s, s[k:] + s[:k])
                yield ("pair", s, s[k:])
                yield ("pair", s, s[:k])
            yield ("pair", s, s[::-1])
            yield ("pair", s, long(n, (m + 1) % 3))
    # edits far from the diagonal: text put in or left out before, between or behind
    for n in tuple(range(1, 25)) + (30, 31, 32, 33, 40, 64, 65) + ((100, 127, 128, 129, 130) if deep else ()):
        for s in ("abcdef", "aabb", "abcabcabcabcabcab"):
            for e in range(4):
                for i in {0, 1, len(s) - 2}:
                    t = edit(s, i, e)
                    for j in (0, len(s) // 2, len(s)):
                        for f in ("#" * n, (s * n)[:n]):
                            yield ("pair", s, t[:j] + f + t[j:])
    for n in (100, 127, 128, 129, 200) + ((255, 256, 257) if deep else ()):
        s = long(n, n % 3)
        for i in (0, n // 2, n):
            for e in range(4):
                yield ("pair", s, edit(s, i, e))
        yield ("pair", s, s[::-1])
        yield ("pair", s, "")
    for n in (511, 513, 1000, 1025):
        s = long(n, n % 2)
        for i, e in ((0, 0), (n // 2, 3), (n, 1)):
            yield ("pair", s, edit(s, i, e))
        yield ("pair", s, s[n // 2:])
    for nk, nv in tuple((n, m) for n in range(4, 11) for m in (1, 4, n, 11 - n // 2)) + ((1, 150), (150, 1), (20, 40), (12, 100), (100, 12), (11, 11), (1, 1500), (2, 257), (700, 2)):
        for m in (1, 3, 7):
            yield ("map", tuple("k%dx%d" % (i * m % 50, i % 5) for i in range(nk)), tuple("%dx%d" % (i * m % 60, i % 4) for i in range(nv)))
    # scores that differ by very little
    for n in (20, 40, 60, 100, 150):
        for m in (1, -1, 3):
            ks = [(("abcdefg"[i * m % 7]) * (n + i * m % 7), "abcdefg"[i * m % 7] * (n - 1 + i * m % 7)) for i in range(7)]
            yield ("map", tuple(k for k, _ in ks), tuple(v for _, v in ks[::-1]))
    for n in (65, 130, 201, 300, 1100):
        for at in (0, n // 2, n - 2, n - 1):
            yield ("map", ("key",), tuple("value %d" % i if i != at else "ley" for i in range(n)))
    for nk in (0, 1, 2, 3) if deep else (0, 1, 2):
        for ks in itertools.product(WORDS, repeat=nk):
            for nv in (1, 2, 3):
                for vs in itertools.product(WORDS[:6] if nk > 1 else WORDS, repeat=nv):
                    yield ("map", ks, vs)


def osa(s, t):
    """Fewest edits by recursion on the last characters, row by row."""
    rows = [list(range(len(t) + 1))]
    for i in range(1, len(s) + 1):
        r = [i]
        for j in range(1, len(t) + 1):
            v = min(rows[-1][j] + 1, r[-1] + 1, rows[-1][j - 1] + (s[i - 1] != t[j - 1]))
            if i > 1 and j > 1 and s[i - 1] == t[j - 2] and s[i - 2] == t[j - 1]:
                v = min(v, rows[-2][j - 2] + 1)
            r.append(v)
        rows.append(r)
    return rows[-1][-1]


def err(s, t):
    return 2 * osa(s, t) / (len(s) + len(t)) if s or t else 0


def check(case):
    if case[0] == "chars":
        cs = [chr(c) for c in range(case[1], case[1] + 0x1000) if not 0xd800 <= c < 0xe000]
        same(names.ascii("".join(cs)), "".join(PLAIN.get(c, c) for c in cs), "text without accents")
        return case[1]
    if case[0] == "text":
        same(names.ascii(case[1]), "".join(PLAIN.get(c, c) for c in case[1]), "text without accents")
        return case[1]
    if case[0] == "pair":
        s, t = case[1:]
        d = osa(s, t)
        need((d == 0) == (s == t), "oracle")
        for a, b in ((s, t), (t, s)):
            same(names.damlev(a, b), d, "distance of %r and %r" % (a, b))
            need(abs(names.strerr(a, b) - err(a, b)) < 1e-12, "relative error of {!r} and {!r}: {}", a, b, names.strerr(a, b))
        return (d, len(s), len(t)) if s or t else None
    ks, vs = case[1:]
    got = names.mapping(list(ks), list(vs))
    need(all(a.score >= b.score for a, b in zip(got, got[1:])), "scores rise: {}", got)
    want = []
    for k in ks:
        es = [err(k, v) for v in vs]
        i = es.index(min(es))
        want.append((k, vs[i], 1 - es[i]))
    same(sorted((g.key, g.value, round(g.score, 9)) for g in got), sorted((k, v, round(s, 9)) for k, v, s in want), "matches")
    for g in got:
        same(tuple(g), (g.key, g.value, g.score), "match")
    return (len(ks), tuple((g.key, g.value) for g in got)) if ks else None
