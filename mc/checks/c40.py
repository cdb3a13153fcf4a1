"""All ordered lists of up to 3 names of a catalogue of 22 (one to four words, accents, both cases, repeated letters, shared
letters, equal after upper-casing) with lengths 1..5 (thorough: lists of 4 and lengths 1..8), and lists of up to 12 names that
crowd the abbreviations; lists of 27 to 200 names; lists that leave one free abbreviation; all lists of up to 3 names of 15 with words to leave out and words that only look like them."""
import itertools
from mc.core import same, need, Bad
from coral import names

LEVEL = "exploration"
RULE = "one case is one list of names with one length; non-trivial: some name is longer than the length"
CAT = ("A", "B", "AB", "ab", "BA", "ABC", "ACB", "Sao Paulo", "São Pedro", "Rio de Janeiro", "A B", "A B C", "AA AA", "aaa", "Acre",
       "Amapá", "Amazonas", "Mato Grosso", "Mato Grosso do Sul", "x y z w", "Á É", "Bahia")
CROWD = (("A", "a"), ("É", "e", "é"), ("A", "B", "a", "B B"), ("x", "X X", "X"), ("AAA", "AAB", "ABA", "ABB", "BAA", "BAB", "BBA", "BBB"), ("AAA", "AAAA", "AAAAA"),
         ("abcd", "abdc", "acbd", "acdb", "adbc", "adcb", "bacd", "badc", "bcad", "bcda", "bdac", "bdca"),
         ("Acre", "Alagoas", "Amapá", "Amazonas", "Bahia", "Ceará", "Paraíba", "Paraná", "Pará", "Pernambuco", "Piauí"))


EXTRA = ("ROSA DE LIMA", "Rosa Delima", "Rosa de Lima e Silva", "DE LIMA", "Lima de", "ROSA LIMA", "Rosa DEDE Lima", "Rio do Sul",
         "Rio Dos Sul", "Á de É", "A DE B", "A B", "ADEB", "Rosa E Rosa", "E", "Rosa de de de Lima", "A e E de DE e e B")


def cases(tier):
    deep = tier != "quick"
    for n in (1, 2, 3):
        for t in itertools.permutations(EXTRA, n):
            for x in (("DE",), ("DE", "DO", "E"), ("E", "DE")) if n < 3 or deep else (("DE", "E"),):
                for k in (1, 2, 3, 5, 9, 12, 20) if n < 3 else (2, 5, 9):
                    yield (t, k, x)
    for n in (0, 1, 2, 3):
        for t in itertools.permutations(CAT if n < 3 or deep else CAT[2:18:1], n):
            for k in range(1, 9 if deep and n < 3 else 6 if n < 3 or deep else 4):
                yield (t, k)
    if deep:
        for t in itertools.permutations(CAT[:11], 4):
            for k in (1, 2, 3):
                yield (t, k)
    for c, ks in (("states", range(1, 21)), ("cities", range(2, 12)), ("longs", (1, 2, 3, 4, 5, 30, 31, 32, 36, 37, 40)), ("words", range(1, 6)),
                  ("same", range(1, 14)), ("crowd", (6, 7, 8))):
        for k in ks:
            for way in (1, -1):
                for x in ((), ("DE", "DO", "DA", "E")):
                    yield ("big", c, k, way, x)
    # all words of k letters but one are taken; the long name holds them all
    for al, k in (("AB", 2), ("AB", 3), ("AB", 4), ("AB", 5), ("AB", 6), ("ABC", 2), ("ABC", 3)):
        for j in range(0, len(al) ** k, 1 if k < 5 or deep else 5):
            for at in (0, -1):
                yield ("only", al, k, j, at)
    for c in CROWD:
        for n in range(1, len(c) + 1):
            for k in range(1, 8):
                yield (c[:n], k)
                yield (c[:n][::-1], k)


STATES = ("Acre", "Alagoas", "Amapá", "Amazonas", "Bahia", "Ceará", "Distrito Federal", "Espírito Santo", "Goiás", "Maranhão",
          "Mato Grosso", "Mato Grosso do Sul", "Minas Gerais", "Pará", "Paraíba", "Paraná", "Pernambuco", "Piauí", "Rio de Janeiro",
          "Rio Grande do Norte", "Rio Grande do Sul", "Rondônia", "Roraima", "Santa Catarina", "São Paulo", "Sergipe", "Tocantins")
CITIES = tuple("%s %s" % (a, b) for a in ("Vila", "Santa", "São", "Boa", "Nova", "Porto", "Monte", "Campo", "Ponte", "Barra")
               for b in ("Maria", "Vista", "Velho", "Alegre", "Grande", "Nova", "José", "Verde", "Ouro", "Luz", "Rita", "Bela", "do Sul", "de Minas", "Á",
                         "Uruçuí", "Belém", "Óbidos", "Xapuri", "Zé"))
LONGNAMES = ("Vila Bela da Santíssima Trindade", "São José do Vale do Rio Preto", "Santo Antônio do Monte Alegre de Cima", "Vila Bela da Santa Trindade",
             "VBST", "Vila", "Pindamonhangaba", "Itaquaquecetuba")
BIG = {"states": STATES, "cities": CITIES, "longs": LONGNAMES, "words": tuple("".join(w) for w in itertools.product("ABC", repeat=4)),
       "crowd": tuple("".join("AB"[i >> j & 1] for j in range(9)) for i in range(0, 512, 11)),
       "same": tuple("%s%d" % ("A" * (i % 9 + 1), i) for i in range(120))}
PLAIN = dict(zip("ÁÀÃÂÄÉÈẼÊËÍÌĨÎÏÓÒÕÔÖÚÙŨÛÜÇ", "A" * 5 + "E" * 5 + "I" * 5 + "O" * 5 + "U" * 5 + "C"))


def norm(s):
    return "".join(PLAIN.get(c, c) for c in s.upper())


def sub(a, s):
    it = iter(s)
    return all(c in it for c in a)


_cand = {}


def candidates(s, k):
    """Abbreviations of exactly k letters (or all of them) of a long name."""
    if (s, k) not in _cand:
        l = s.replace(" ", "")
        _cand[s, k] = {"".join(c) for c in itertools.combinations(l, min(k, len(l)))}
    return _cand[s, k]


def count(c, full):
    return sum(c in s for s in full)


def rarity(s, a, full):
    """In how many names each letter of an abbreviation occurs."""
    return [count(c, full) for c in a]


def ideal(s, k, full):
    """Initials, then the letters found in the fewest names (the first of those), in their order."""
    pos = [i for i, c in enumerate(s) if c != " " and (i == 0 or s[i - 1] == " ")]
    rest = sorted((i for i, c in enumerate(s) if c != " " and i not in pos), key=lambda i: (count(s[i], full), i))
    return "".join(s[i] for i in sorted((pos + rest)[:k]))


def check(case):
    if case[0] == "big":
        case = (BIG[case[1]][::case[3]], case[2]) + (case[4:] if case[4] else ())
    if case[0] == "only":
        _, al, k, j, at = case
        ws = ["".join(w) for w in itertools.product(al, repeat=k)]
        missing = ws.pop(j)
        ws.insert(at if at == 0 else len(ws), al * k)
        try:
            same(names.abbreviations(list(ws), k)[al * k], missing, "the only free abbreviation of %r" % (al * k))
        except Exception as e:
            if isinstance(e, Bad):
                raise
            raise Bad("%r can only become %r, but %r" % (al * k, missing, e))
        return case
    ns, k = case[:2]
    up = [norm(n) for n in ns]
    try:
        if case[2:]:
            # an extra word between others does not count
            for i, s in enumerate(up):
                w = s.split(" ")
                up[i] = " ".join(x for j, x in enumerate(w) if not (0 < j < len(w) - 1 and x in case[2]))
            got = names.abbreviations(list(ns), k, list(case[2])) if k % 2 else names.abbreviations(list(ns), k, extras=case[2])
        else:
            got = names.abbreviations(list(ns), k)
    except Exception as e:
        # allowed only when all abbreviations of a name may be taken by the others
        for i, s in enumerate(up):
            if len(s) <= k and up.count(s) == 1:
                continue                        # nobody can take its place
            mine = candidates(s, k)
            others = [({t} if len(t) <= k else set()) | candidates(t, k) for j, t in enumerate(up) if j != i]
            if len(mine) <= len(others) and all(any(c in o for o in others) for c in mine):
                return (type(e).__name__, len(ns), k)
        raise
    same(set(got), set(ns), "names")
    same(len(set(got.values())), len(got), "number of different abbreviations in %r" % (got,))
    for n, s in zip(ns, up):
        a = got[n]
        need(1 <= len(a) <= k, "{!r} is abbreviated {!r}, longer than {}", n, a, k)
        need(sub(a, s), "{!r} is abbreviated {!r}", n, a)
        if len(s) <= k and up.count(s) == 1:
            same(a, s, "name that fits")
        elif len(s) > k:
            need(" " not in a, "{!r} is abbreviated {!r}", n, a)
    # where nobody competes: initials first, then the letters found in the fewest names
    full = [norm(n) for n in ns]
    best = [s if len(s) <= k else ideal(s, k, full) for s in up]
    if len(set(best)) == len(best):
        for n, s, b in zip(ns, up, best):
            if len(s) > k:
                same(sorted(rarity(s, got[n], full)), sorted(rarity(s, b, full)), "letters of %r, abbreviated %r, in how many names" % (n, got[n]))
                ini = [w[0] for w in s.split(" ")][:k]
                left = list(got[n])
                for c in ini:
                    need(c in left, "{!r} is abbreviated {!r} without its initial {}", n, got[n], c)
                    left.remove(c)
    return tuple(got.items()) if any(len(s) > k for s in up) else None
