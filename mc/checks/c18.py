"""Every cut, at every byte, of every P file of a catalogue (all coordinate sizes, several parts, points, long names, 2-byte
counts), and every crash state of saving one, fresh or over another file: each line of the saving code, buffered and
unbuffered, with torn writes."""
import sys
from mc.core import same, need, scratch, fresh, Bad, _guard
from mc import crash, pfile
from coral import pf

LEVEL = "fault_enumeration"
RULE = "one case is one file content (cut or crash state); non-trivial: the file exists and is not empty"
ASSUMPTIONS = ["a dying process loses what the interpreter still buffers and may tear the last write at any byte"]
LIMIT = 10

CAT = {
    "none": (2, ()),
    "one": (1, (("a", [[(0, 0), (10, 0), (5, 10)]]),)),
    "two": (2, (("Ab c", [[(0, 0), (10, 0), (5, 10)], [(3, 3)]]), ("b", [[(-100, 20), (-90, 20), (-95, 40), (-100, 20)]]))),
    "four": (4, (("x", [[(-180, -90), (180, 90)]]), ("", [[(1, 1), (2, 3)]]), ("x", [[(5, 5)]]))),
    "eight": (8, (("name" * 5, [[(12.5, 13.25), (14, 15), (16, 11)]] * 2),)),
    "long": (1, (("n" * 200, [[(i % 13, i % 7) for i in range(130)]]), ("m", [[(i, i)] for i in range(130)]))),
    "big": (4, tuple(("e%d" % i, [[(i % 90 + j, i % 45 + j * 2) for j in range(20)]]) for i in range(150))),
}


def put(name, path):
    size, ents = CAT[name]
    w = pf.Writer(path, size)
    for n, polys in ents:
        w.write(n, [list(p) for p in polys])
    w.close()


def whole(name):
    fresh()
    put(name, scratch("x.p"))
    with open(scratch("x.p"), "rb") as f:
        data = f.read()
    return data


def crashes(old, new, small):
    def prepare():
        fresh()
        if old:
            put(old, scratch("x.p"))
    if small:
        return crash.states(prepare, lambda: put(new, scratch("x.p")), scratch())
    prepare()
    return crash.photographs(lambda: put(new, scratch("x.p")), scratch(), False)


def guarded(f, *args):
    return _guard(sys.modules[__name__], f, *args)


def cases(tier):
    for name in CAT:
        ok, data = guarded(whole, name)
        if not ok:
            yield ("broken", name, data)
            continue
        step = 1 if len(data) < 5000 or tier != "quick" else 13
        for k in range(0, len(data) + 1, step):
            yield ("file", (name,), data[:k])
    for old, new in ((None, "one"), (None, "two"), (None, "four"), ("two", "one"), ("one", "two"), ("four", "eight"), ("eight", "none"), (None, "long")) + ((None, "big"), ("big", "two")):
        ok, res = guarded(crashes, old, new, "big" not in (old, new) and new != "long")
        if not ok:
            yield ("broken", new, res)
            continue
        for s in res:
            for n, c in s:
                if n == "x.p":
                    yield ("file", tuple(x for x in (old, new) if x), c)
            if len(s) > 1:
                yield ("state", tuple(x for x in (old, new) if x), s)


EXP = {}


def expected(name):
    if name not in EXP:
        EXP[name] = pfile.parse(whole(name))[1]
    return EXP[name]


def agrees(got, want):
    return [len(p) for p in got] == [len(p) for p in want] and all(
        abs(g[0] - w[0]) < 1e-9 and abs(g[1] - w[1]) < 1e-9 for gp, wp in zip(got, want) for g, w in zip(gp, wp))


def check(case):
    if case[0] == "broken":
        raise Bad("writing %r: %s" % (case[1], case[2]))
    names = case[1]
    want = {n: expected(n) for n in names}
    fresh()
    files = (("x.p", case[2]),) if case[0] == "file" else case[2]
    crash.restore(files, scratch())
    data = dict(files).get("x.p", b"")
    try:
        r = pf.Reader(scratch("x.p"))
    except Exception:
        for n in names:
            need(data != whole_file(n), "the complete file {} is refused", n)
        return ("refused", len(data)) if data else None
    n = len(r)
    got = {}
    for i in list(range(n))[:200]:
        try:
            got[i] = r.read(i)
        except Exception:
            continue
    byname = {}
    for nm in list(r.names)[:200]:
        try:
            byname[nm] = r.get(nm)
        except Exception:
            continue
    r.close()
    fit = []
    for k in names:
        ents = want[k]
        ok = n == len(ents)
        ok = ok and all(agrees(p, ents[i][2]) for i, p in got.items())
        ok = ok and all(agrees(p, next((e[2] for e in ents if e[0] == nm), [[]])) for nm, p in byname.items())
        if ok and data == whole_file(k):
            ok = len(got) == min(n, 200)
        fit.append(ok)
    need(any(fit), "{} bytes of {} are read as {} entities: {}", len(data), names, n, list(got.items())[:3])
    return ("read", n, len(got), len(data))


WHOLE = {}


def whole_file(name):
    if name not in WHOLE:
        import os
        keep = crash.snap(scratch())
        WHOLE[name] = whole(name)
        crash.restore(keep, scratch())
    return WHOLE[name]
