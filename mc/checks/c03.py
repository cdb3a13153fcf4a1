"""Every history of push, pop, peek, shift, isempty, isfull and str, including refused ones, on buffers of capacity 1, 2, 4, 8
(thorough: 16), breadth-first until the state space (cursor positions and contents; pushed values cycle through 3 symbols)
closes or the depth bound: all interior wrap-arounds of both cursors are reached. Buffers of 8 to 1024 (and shorter histories of 4096 and 131072): all histories of three
blocks of equal operations (one, half, all but one, all) from 16 starting positions of the cursors."""
import collections
from mc.core import same, need, refused, freeze, Bad
from coral import coord

LEVEL = "model_checking"
ASSUMPTIONS = ["items are only stored and returned, never inspected, so three symbols stand for all items"]
OPS = ("push", "pop", "peek", "shift")


def inits(tier):
    big = [(n, s) for n in (8, 16, 32, 64, 128, 1024) for s in range(0, 2 * n, max(1, n // 8))]
    big += [(4096, 0), (4096, 4095), (1 << 17, 0), (1 << 17, 1 << 16)]
    return ([1, 2, 4] if tier == "quick" else [1, 2, 4, 8]) + big


def depth(tier):
    return 24 if tier == "quick" else 40


def view(b, m, n, what):
    same(bool(b.isempty()), len(m) == 0, what + ": isempty")
    same(bool(b.isfull()), len(m) == n, what + ": isfull")
    same(str(b), "<" + " ".join(map(str, m)) + ">", what + ": str")
    if m:
        same(b.peek(), m[-1], what + ": peek")


def sweep(n, start, hist):
    """Large buffers: blocks of operations from every cursor position."""
    b = coord.Buffer(n)
    m = collections.deque()
    nxt = 0
    for i in range(start):
        b.push(i)
        same(b.shift(), i, "turning a buffer of %d" % n)
    view(b, m, n, "turned buffer of %d" % n)
    for op, k in hist:
        k = {"all": n, "half": n // 2, "one": 1, "most": n - 1}[k]
        for i in range(k):
            if op == "push":
                if len(m) == n:
                    refused(lambda: b.push(nxt), "push on a full buffer")
                    break
                b.push(nxt)
                m.append(nxt)
                nxt += 1
            elif not m:
                refused(getattr(b, op), "%s on an empty buffer" % op)
                break
            else:
                same(getattr(b, op)(), m.pop() if op == "pop" else m.popleft(), "%s on a buffer of %d" % (op, n))
            same((bool(b.isempty()), bool(b.isfull())), (not m, len(m) == n), "state of a buffer of %d with %d items" % (n, len(m)))
        view(b, m, n, "buffer of %d" % n)
    return hist, [(o, k) for o in ("push", "pop", "shift") for k in ("all", "half", "one", "most")] if len(hist) < (3 if n < 2000 else 2 if n < 5000 else 1) else []


def run(n, hist):
    if isinstance(n, tuple):
        return sweep(*n, hist)
    b = coord.Buffer(n)
    m = collections.deque()
    nxt = 0
    view(b, m, n, "new buffer of %d" % n)
    for i, op in enumerate(hist):
        what = "after %s on capacity %d" % (" ".join(hist[:i + 1]), n)
        if op == "push":
            if len(m) == n:
                refused(lambda: b.push(nxt), "push on a full buffer")
            else:
                b.push(nxt)
                m.append(nxt)
                nxt = (nxt + 1) % 3
        elif not m:
            refused(getattr(b, op), "%s on an empty buffer" % op)
        else:
            want = m[-1] if op == "peek" else m.pop() if op == "pop" else m.popleft()
            same(getattr(b, op)(), want, what)
        view(b, m, n, what)
    # drain a copy of the contents through the public interface on a replayed object
    if hist and len(hist) <= 6 or len(hist) % 4 == 0:
        for want in list(m):
            same(b.shift(), want, "draining after %s" % " ".join(hist))
        same(b.isempty(), True, "drained")
        b2 = coord.Buffer(n)
        nxt2 = 0
        cnt = 0
        for op in hist:
            try:
                if op == "push":
                    b2.push(nxt2)
                    nxt2 = (nxt2 + 1) % 3
                else:
                    getattr(b2, op)()
            except Exception:
                pass
        b = b2
    return (freeze(b), tuple(m), nxt), OPS
