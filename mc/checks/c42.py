"""All clock behaviours over 4 (thorough: 5) increments for 0..4 (thorough: 5) items x total (none, 0, short, exact, long) x
leave x miniters x mininterval (also left out) x description, runs of 99 to 1000 (thorough: 10007) items under repeating clocks, the stream emulated as a terminal after every step; and all final states of n out
of total (0..120 and around 3600 s) with elapsed times on a grid."""
import itertools
from mc.core import same, need, Bad
from mc import tq

LEVEL = "exploration"
RULE = "one case is one schedule of items and clock steps with one option set; non-trivial: a status with at least one item"
T = tq.load()
STEPS = (0, 0.25, 0.5, 4000)


def cases(tier):
    deep = tier != "quick"
    steps = len(STEPS)
    for n in range(0, 6 if deep else 5):
        for total in (None, 0, "short", "exact", "long"):
            for leave in (True, False):
                for miniters in (1, 2, 3):
                    for mini in (0, 0.5, 1):
                        for clock in itertools.product(range(steps), repeat=n):
                            yield ("run", n, total, leave, miniters, mini, clock)
        for total in (None, "short", "exact", "long"):
            for clock in itertools.product(range(steps), repeat=n):
                yield ("run", n, total, None, None, None, clock)
    # long runs under a steady or stuttering clock
    for n in (99, 100, 101, 1000) + ((4096, 10007) if deep else ()):
        for total in (None, "short", "exact", "long"):
            for miniters, mini in ((1, 0.5), (7, 0), (10, 1), (None, None)):
                for pat in ((1,), (0, 0, 2), (1, 0), (3,) + (0,) * 40):
                    yield ("run", n, total, True, miniters, mini, pat)
    for n in list(range(0, 121)) if deep else list(range(0, 40)) + [57, 58, 99, 100, 113, 115]:
        for total in (None, 0, 1, 3, 7, 10, 29, 50, 99, 100, 101, 115, 116, 1000, 10 ** 6):
            for el in (0, 0.5, 1, 59.75, 60, 3599.5, 3600, 36000, 1e-3):
                yield ("end", n, total, el)


def check(case):
    if case[0] == "end":
        n, total, el = case[1:]
        with tq.Quiet():
            tq.NOW[0] = 1e6
            s = tq.Stream()
            it = iter(T.tqdm(iter(range(n)), "", total, True, s, 1e9, 10 ** 9))
            for i in range(n):
                next(it)
            tq.NOW[0] += el
            need(next(it, None) is None, "more items than there are")
        el = 1e6 + el - 1e6
        lines, cur, pos = s.visible()
        same((len(lines), cur, pos), (1, "", 0), "line break at the end")
        wrong = tq.judge(lines[0], "", n, total, el if n else 0)
        need(not wrong, "{} of {!r} with {} of {} in {} s", wrong, lines[0], n, total, el)
        return lines[0] if n else None
    n, total, leave, miniters, mini, clock = case[1:]
    given = {"short": max(n - 1, 1), "exact": n, "long": n + 3}.get(total, total)
    outs = []
    keep = (mini, miniters, leave)
    for desc, sized in (("", False), ("some", True)):
        mini, miniters, leave = keep
        shown = given if given is not None or not sized else n
        src = list(range(n)) if sized else (i for i in range(n))
        s = tq.Stream()
        with tq.Quiet():
            t0 = tq.NOW[0] = 1000.0
            opts = {k: v for k, v in (("total", given), ("leave", leave), ("mininterval", mini), ("miniters", miniters)) if v is not None}
            it = iter(T.tqdm(src, desc=desc, file=s, **opts))
            if mini is None:            # the defaults
                mini, miniters = 0.5, 1
            if leave is None:
                leave = True
            pn, pt, pe = 0, t0, 0.0
            count = size = shows = 0
            for k in range(n + 1):
                try:
                    next(it)
                    done = False
                except StopIteration:
                    done = True
                same(done, k == n, "end of the iteration at step %d" % k)
                if k:
                    if k - pn >= miniters and tq.NOW[0] - pt >= mini:
                        pn, pt, pe = k, tq.NOW[0], tq.NOW[0] - t0
                        count += 1
                if done:
                    break
                if n > 5 and len(s.text) == size:
                    wrong = pn != shows and "missing update"
                    need(not wrong, "{} at step {}", wrong, k)
                    tq.NOW[0] += STEPS[clock[k % len(clock)]]
                    continue
                size, shows = len(s.text), pn
                lines, cur, pos = s.visible() if n < 200 or k < 50 else ([], s.text.rsplit("\r", 1)[1].rstrip(), 0)
                same(lines, [], "finished lines at step %d" % k)
                same(s.flushed, len(s.text), "flushed part of the text")
                need(n > 5 or s.widest() <= max(len(x.rstrip()) for x in s.text.split("\r")), "blanks beyond any status at step {}: {!r}", k, s.text)
                wrong = tq.judge(cur, desc, pn, shown, pe)
                need(not wrong, "{} of {!r} at step {}: {} of {} in {} s", wrong, cur, k, pn, shown, pe)
                tq.NOW[0] += STEPS[clock[k % len(clock)]]
            lines, cur, pos = s.visible()
            if not leave:
                same((lines, cur, pos), ([], "", 0), "line left behind")
            else:
                if pn < n:
                    pn, pe = n, tq.NOW[0] - t0
                same((len(lines), cur, pos), (1, "", 0), "line break at the end")
                wrong = tq.judge(lines[0], desc, pn, shown, pe)
                need(not wrong, "{} of {!r} at the end: {} of {} in {} s", wrong, lines[0], pn, shown, pe)
        outs.append((s.text.replace("\r", "<"), count))
    return tuple(outs) if n else None
