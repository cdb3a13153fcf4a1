"""Enumerates the file states a dying process can leave behind.

The action runs twice under a line tracer that photographs the scratch directory before every executed line of the code under
test: once with the interpreter's own buffering (what a kill leaves) and once with every write flushed at once (the latest
any buffering could write). Between two photographs that differ in one file, every torn intermediate state of that file is
added: the new content cut at every byte, completed by the old content where that was longer."""
import builtins, os, sys


class Flushing:
    """A file whose writes reach the operating system at once."""

    def __init__(self, f):
        self.__dict__["_f"] = f

    def write(self, data):
        n = self._f.write(data)
        self._f.flush()
        return n

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def __enter__(self):
        self._f.__enter__()
        return self

    def __exit__(self, *a):
        return self._f.__exit__(*a)

    def __iter__(self):
        return iter(self._f)

    def __getattr__(self, n):
        return getattr(self._f, n)


def snap(d):
    out = []
    for n in sorted(os.listdir(d)):
        p = os.path.join(d, n)
        if os.path.isfile(p):
            with _open(p, "rb") as f:
                out.append((n, f.read()))
    return tuple(out)


_open = builtins.open


def photographs(action, d, flushing):
    shots = [snap(d)]

    def take():
        s = snap(d)
        if s != shots[-1]:
            shots.append(s)

    def tracer(frame, event, arg):
        if "/coral/" not in frame.f_code.co_filename:
            return None
        take()
        return local

    def local(frame, event, arg):
        take()
        return local
    if flushing:
        builtins.open = lambda *a, **k: Flushing(_open(*a, **k))
    old = sys.gettrace()
    sys.settrace(tracer)
    try:
        action()
    finally:
        sys.settrace(old)
        builtins.open = _open
    take()
    return shots


def torn(a, b):
    """States between photographs a and b, when exactly one file's content changed."""
    A, B = dict(a), dict(b)
    diff = [n for n in set(A) | set(B) if A.get(n) != B.get(n)]
    if len(diff) != 1 or diff[0] not in B:
        return
    n = diff[0]
    old, new = A.get(n, b""), B[n]
    for i in range(len(new) + 1):
        c = new[:i] + old[i:]
        if c == new:
            break
        D = dict(A)
        D[n] = c
        yield tuple(sorted(D.items()))
        if old and not new.startswith(old):
            D[n] = new[:i]
            yield tuple(sorted(D.items()))


def states(prepare, action, d):
    """All distinct states, in order of appearance; prepare() must empty and refill d."""
    seen, out = set(), []

    def add(s):
        if s not in seen:
            seen.add(s)
            out.append(s)
    for flushing in (False, True):
        prepare()
        shots = photographs(action, d, flushing)
        for i, s in enumerate(shots):
            if i:
                for t in torn(shots[i - 1], s):
                    add(t)
            add(s)
    return out


def restore(state, d):
    for n in os.listdir(d):
        os.unlink(os.path.join(d, n))
    for n, c in state:
        with _open(os.path.join(d, n), "wb") as f:
            f.write(c)
