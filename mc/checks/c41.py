"""All iterable shapes (list, tuple, text, dict, set, range, generator, endless generator, iterator, sized and wrongly sized
objects, objects whose length is refused, failing at every position) with 0..4 items x total (none, 0, short, exact, long) x
leave x miniters x mininterval x all clock behaviours over 5 (thorough: 6) increments incl. standing still and going backwards,
each stopped early at every position; items of 31 kinds (none, false, empty, exceptions, iterators) at every place; ranges with all small arguments."""
import itertools, sys
from mc.core import same, need, Bad
from mc import tq

LEVEL = "exploration"
RULE = "one case is one iterable shape, number of items, option set and clock behaviour, stopped at every position; non-trivial: at least one item"
T = tq.load()
SHAPES = ("list", "tuple", "str", "dict", "set", "range", "gen", "iter", "sized", "over", "under", "nolen", "fail", "endless")
STEPS = (0, 0.25, 0.5, 3700, -1)


def cases(tier):
    deep = tier != "quick"
    for shape in SHAPES:
        for n in range(0, 5 if deep else 4):
            for total in (None, 0, "short", "exact", "long"):
                for leave in (True, False):
                    for miniters in (0, 1, 2):
                        for mini in (0, 0.5):
                            for clock in itertools.product(range(len(STEPS)), repeat=n):
                                yield ("wrap", shape, n, total, leave, miniters, mini, clock)
    # many items, with totals that are exceeded and missed
    for n in (9, 10, 11, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 1000, 1024, 5000, 65537):
        for total in (None, 0, 1, 7, 10, 99, 100, n // 2, n - 1, n, n + 1, 10 * n, 10 ** 6):
            for shape in ("list", "gen", "range", "over", "under", "nolen", "fail"):
                yield ("many", shape, n, total)
    # items of every kind, which must be passed on as they are
    for k in range(len(KINDS)):
        for rest in ((), (0,), (len(KINDS) - 1, 1)):
            for at in range(len(rest) + 1):
                for shape in ("list", "gen", "sized", "nolen"):
                    for total in (None, 0, 1, 9):
                        yield ("kinds", shape, rest[:at] + (k,) + rest[at:], total)
    for a in itertools.chain(itertools.product(range(-2, 4), repeat=1), itertools.product(range(-2, 4), repeat=2),
                             itertools.product(range(-2, 4), range(-2, 4), (-2, -1, 1, 2))):
        yield ("range", a)


def _gen():
    yield 1


KINDS = ("i", None, False, True, 0, 0.0, -1, float("nan"), "", b"", (), [], {}, set(), StopIteration, StopIteration("x"), GeneratorExit(), ValueError("v"),
         Ellipsis, NotImplemented, _gen, _gen(), iter(()), object(), "\n", "\r", 10 ** 30, (None,), [[]], type, sys)


class Sized:
    def __init__(self, items, n, log):
        self.items, self.n, self.log = items, n, log

    def __len__(self):
        if self.n is None:
            raise TypeError("no length")
        return self.n

    def __iter__(self):
        for i, x in enumerate(self.items):
            self.log.append(("fetch", i))
            yield x


class Boom(Exception):
    pass


def build(shape, n, log):
    items = ["i%d" % k for k in range(n)]

    def gen(extra=None):
        for i, x in enumerate(items):
            log.append(("fetch", i))
            yield x
        log.append(("fetch", n))
        if extra == "fail":
            raise Boom("at %d" % n)
        i = n
        while extra == "endless":
            yield "more%d" % i
            i += 1
            log.append(("fetch", i))
    if shape == "list":
        return items, items
    if shape == "tuple":
        return tuple(items), items
    if shape == "str":
        return "abcd"[:n], list("abcd"[:n])
    if shape == "dict":
        return dict.fromkeys(items, 1), items
    if shape == "set":
        s = set(items)
        return s, list(s)
    if shape == "range":
        return range(5, 5 + n), list(range(5, 5 + n))
    if shape == "iter":
        return iter(items), items
    if shape in ("gen", "fail", "endless"):
        return gen(shape), items
    return Sized(items, {"sized": n, "over": n + 2, "under": max(n - 1, 0), "nolen": None}[shape], log), items


def check(case):
    if case[0] == "range":
        with tq.Quiet() as q:
            tq.NOW[0] = 0.0
            for kw in ({}, {"leave": False}):
                s = tq.Stream()
                same(list(T.trange(*case[1], file=s, **kw)), list(range(*case[1])), "range through a meter")
                need(s.text, "nothing is shown")
            need(not q.out.text and not q.err.text, "written elsewhere: {!r} {!r}", q.out.text, q.err.text)
        return len(range(*case[1])) or None
    if case[0] == "kinds":
        _, shape, which, total = case
        items = [KINDS[k] for k in which]
        src = {"list": lambda: items, "gen": lambda: (x for x in items), "sized": lambda: Sized(items, len(items), []),
               "nolen": lambda: Sized(items, None, [])}[shape]()
        with tq.Quiet() as q:
            tq.NOW[0] = 1000.0
            got = list(T.tqdm(src, total=total, file=tq.Stream()))
            need(len(got) == len(items) and all(a is b for a, b in zip(got, items)), "passed on: {!r}, given: {!r}", got, items)
            need(not q.out.text and not q.err.text, "written elsewhere: {!r} {!r}", q.out.text, q.err.text)
        return case
    if case[0] == "many":
        _, shape, n, total = case
        for kw in ({}, {"leave": False, "miniters": 10, "mininterval": 0}) if n < 5000 else ({},):
            log = []
            src, items = build(shape, n, log)
            s = tq.Stream()
            with tq.Quiet() as q:
                tq.NOW[0] = 1000.0
                got = []
                try:
                    for x in T.tqdm(src, total=total, file=s, **kw):
                        got.append(x)
                        tq.NOW[0] += 0.125
                        need(len(log) <= len(got), "items are fetched before they are asked for")
                except Boom as e:
                    same((shape, str(e)), ("fail", "at %d" % n), "error of the iterable")
                else:
                    need(shape != "fail", "the error of the iterable is lost")
                need(got == list(items), "{} of {} items are passed on, or others", len(got), n)
                need(not q.out.text and not q.err.text, "written elsewhere: {!r} {!r}", q.out.text, q.err.text)
        return (shape, n, total, len(s.text))
    shape, n, total, leave, miniters, mini, clock = case[1:]
    total = {"short": max(n - 1, 1), "exact": n, "long": n + 3}.get(total, total)
    for stop in range(n + 1) if shape in ("gen", "endless", "list") else (n,):
        log = []
        src, items = build(shape, n, log)
        s = tq.Stream()
        with tq.Quiet() as q:
            tq.NOW[0] = 1000.0
            it = iter(T.tqdm(src, "d" * (stop % 2), total, leave, s, mini, miniters))
            need(not [e for e in log if e[0] == "fetch"], "an item is fetched before it is asked for: {}", log)
            got = []
            for k in range(stop):
                got.append(next(it))
                same(got[-1], items[k], "item %d" % k)
                need(len(log) <= k + 1, "items are fetched before they are asked for: {}", log)
                tq.NOW[0] += STEPS[clock[k]]
            if stop < n or shape == "endless":
                it.close()
                need(len(log) <= stop, "items are fetched after stopping: {}", log)
            else:
                try:
                    next(it)
                except StopIteration:
                    need(shape != "fail", "the error of the iterable is lost")
                except Boom as e:
                    same(str(e), "at %d" % n, "error of the iterable")
                else:
                    raise Bad("more items than there are")
            need(not q.out.text and not q.err.text, "written elsewhere: {!r} {!r}", q.out.text, q.err.text)
    return (shape, n, len(s.text)) if n else None
