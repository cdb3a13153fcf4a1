"""Crash states: for every pair (data set on disk or none, data set being written) of a catalogue, every file state photographed
before each executed line of the writer, buffered and unbuffered, and every torn write between them; every single-file cut of
the complete pair of files at every byte and all pairs of cuts of a small one. Refusals: every history of up to 3 (thorough: 4) entity writes over
good entities and nine ways of refusal (bad value in first, middle, last row, wrong type, missing or superfluous value, failing iterator, id with a line break)."""
import itertools, os
from mc.core import same, need, refused, scratch, fresh, Bad, _guard
from mc import crash
from coral import rg
from coral.grid import IVar, FVar, SVar, GRow
from mc.checks.c14 import plain
import sys

LEVEL = "fault_enumeration"
RULE = "one case is one file state (crash or cut) or one write history with refusals; non-trivial: a state with any file present, a history with a refusal"
LIMIT = 10
ASSUMPTIONS = ["a dying process loses what the interpreter still buffers and may tear the last write at any byte; the operating system itself keeps completed writes in order (power loss is not modelled)"]

ROWS = {"t": lambda: GRow(IVar("n", 0, 300), SVar("t", 3)), "f": lambda: GRow(FVar("x", 0, 255, 1)), "g": lambda: GRow(IVar("n", 0, 300), SVar("u", 3))}
SETS = {
    "empty": ("t", ()),
    "one": ("t", (("a", (((1, "ab"), (2, "")),)),)),
    "two": ("t", (("a", (((7, "x"),), ((300, "abc"), (0, "")))), ("b b", (((5, "y"),),)))),
    # same number of rows as 'two', split differently
    "twin": ("t", (("a", (((8, "p"), (9, "q")),)), ("b b", (((10, "r"),), ((11, "s"),))))),
    "holes": ("t", (("a", ()), ("b b", ((), ((3, "z"),))), ("c", ((),)))),
    "f3": ("f", (("a", (((1,), (2,), (3,)),)), ("c", (((4,),),)))),
    "blank": ("f", (("a", ((),)), ("b b", ()))),
    "g2": ("g", (("b b", (((12, "x"), (13, "y")),)), ("a", (((14, "w"),), ((15, "v"),))))),
    "big": ("t", tuple(("k%d" % i, (tuple((i, "abc") for _ in range(40)),)) for i in range(80))),
}
PAIRS = [(None, n) for n in SETS if n != "big"] + [("two", "twin"), ("twin", "two"), ("one", "two"), ("two", "one"), ("f3", "two"), ("two", "f3"),
         ("two", "empty"), ("empty", "two"), ("blank", "holes"), ("holes", "blank"), ("two", "two"), ("two", "g2"), ("g2", "twin"), ("blank", "f3"), ("one", "empty")]


def put(name, path):
    row, ents = SETS[name]
    w = rg.Writer(path, ROWS[row]())
    for id_, segs in ents:
        w.write([list(s) for s in segs], id_)
    w.close()


def crashstates(old, new):
    d = scratch()

    def prepare():
        fresh()
        if old is not None:
            put(old, scratch("set"))
    return crash.states(prepare, lambda: put(new, scratch("set")), d)


def whole(name):
    fresh()
    put(name, scratch("set"))
    return crash.snap(scratch())


def guarded(f, *args):
    return _guard(sys.modules[__name__], f, *args)


def cases(tier):
    deep = tier != "quick"
    for ev in ("good",) + BAD:
        yield ("refuse", (ev,))
    for n in (2, 3, 4) if deep else (2, 3):
        for h in itertools.product(("good", "other", "empty") + BAD, repeat=n):
            yield ("refuse", h)
    for old, new in PAIRS:
        ok, res = guarded(crashstates, old, new)
        if not ok:
            yield ("broken", old, new, res)
            continue
        for s in res:
            yield ("state", tuple(x for x in (old, new) if x), s)
    for name in SETS:
        if name == "big":
            continue
        ok, files = guarded(whole, name)
        if not ok:
            yield ("broken", None, name, files)
            continue
        for i, (n, c) in enumerate(files):
            for k in range(len(c)):
                yield ("state", (name,), files[:i] + ((n, c[:k]),) + files[i + 1:])
        if name in ("one", "holes") and len(files) == 2:
            for k in range(len(files[0][1])):
                for j in range(len(files[1][1])):
                    yield ("state", (name,), ((files[0][0], files[0][1][:k]), (files[1][0], files[1][1][:j])))
    # a data set larger than the interpreter's buffers: several flushes while writing
    for old, new in ((None, "big"), ("big", "two")) + ((("two", "big"),) if deep else ()):
        ok, res = guarded(bigstates, old, new)
        if not ok:
            yield ("broken", old, new, res)
            continue
        for s in res:
            yield ("state", tuple(x for x in (old, new) if x), s)


def bigstates(old, new):
    fresh()
    if old:
        put(old, scratch("set"))
    shots = crash.photographs(lambda: put(new, scratch("set")), scratch(), False)
    out = []
    for s in shots:
        out.append(s)
        for i, (n, c) in enumerate(s):
            for k in range(0, len(c), 997):
                out.append(s[:i] + ((n, c[:k]),) + s[i + 1:])
    return out


BAD = ("range", "last", "type", "short", "raise", "null", "long", "line", "return")


def entity(ev, k):
    good = [[(k, "g%d" % k), (k + 1, "h")], [], [(k + 2, "")]]
    if ev == "good":
        return good, good
    if ev == "other":
        return [[(100 + k, "o")]], [[(100 + k, "o")]]
    if ev == "empty":
        return [], []
    if ev == "range":
        return [[(301, "x"), (1, "y")]], None
    if ev == "last":
        return [[(k, "x"), (1, "y")], [(2, "z"), (3, "toolong")]], None
    if ev == "type":
        return [[(k, "x"), (2, 17)], [(1, "y")]], None
    if ev == "short":
        return [[(k, "x"), (2,)], [(1, "y")]], None
    if ev == "long":
        return [[(k, "x"), (2, "y", 3)], [(1, "y")]], None
    if ev in ("line", "return"):
        return good, None
    if ev == "null":
        return [[(k, "x")], [(None, "x")]], None

    def failing():
        yield [(k, "x")]
        yield [(k + 1, "y")]
        raise ZeroDivisionError
    return failing(), None


def check(case):
    path = scratch("set")
    if case[0] == "broken":
        raise Bad("writing %r over %r: %s" % (case[2], case[1], case[3]))
    if case[0] == "refuse":
        fresh()
        w = rg.Writer(path, ROWS["t"]())
        want = []
        for k, ev in enumerate(case[1]):
            arg, res = entity(ev, k)
            if res is None:
                refused(lambda: w.write(arg, "e%d%s" % (k, {"line": "\n1", "return": "\r"}.get(ev, ""))), "entity %r" % ev)
            else:
                w.write(arg, "e%d" % k)
                want.append(("e%d" % k, plain(res)))
        w.close()
        r = rg.Reader(path)
        for id_, segs in want:
            same(plain(r.read()), segs, "entity %s after history %r" % (id_, case[1]))
        refused(lambda: r.read(), "reading past the end after %r" % (case[1],))
        for id_, segs in reversed(want):
            same(plain(r.read(id_)), segs, "entity %s by id after history %r" % (id_, case[1]))
        r.close()
        return case[1] if any(e in BAD for e in case[1]) else None
    names, state = case[1], case[2]
    crash.restore(state, scratch())
    got = {}
    ids = sorted({id_ for n in names for id_, _ in SETS[n][1]}) + ["x", "b"]
    try:
        r = rg.Reader(path)
    except Exception:
        return ("refused", len(state)) if state else None
    # sequential
    seq = []
    try:
        while len(seq) < 200:
            seq.append(plain(r.read()))
    except Exception:
        pass
    for id_ in ids:
        try:
            got[id_] = plain(rg.Reader(path).read(id_))
        except Exception:
            pass
    fits = []
    for n in names:
        ents = [(id_, [[tuple(x) for x in s] for s in segs]) for id_, segs in SETS[n][1]]
        ok = seq == [s for _, s in ents][:len(seq)] and len(seq) <= len(ents)
        for id_, segs in got.items():
            ok = ok and segs == dict(ents).get(id_)
        fits.append(ok)
    need(any(fits), "files {} are read as {} / {}, which is none of the complete data sets {}", [(n, len(c), c[:200]) for n, c in state], seq[:5], list(got.items())[:5], names)
    return ("read", len(seq), len(got), len(state))
