"""A progress meter under a fake clock, with its stream and the standard ones recorded."""
import importlib, re, sys, time

NOW = [None]
_real = {n: getattr(time, n) for n in ("time", "monotonic", "perf_counter")}


def _tramp(n):
    def f():
        return _real[n]() if NOW[0] is None else NOW[0]
    return f


def load():
    """The meter module, bound to the fake clock however it imports it."""
    for n in _real:
        setattr(time, n, _tramp(n))
    import coral.tqdm as m
    return importlib.reload(m)


class Stream:
    def __init__(self):
        self.text = ""
        self.other = []
        self.flushed = 0

    def write(self, s):
        self.text += s
        return len(s)

    def flush(self):
        self.flushed = len(self.text)

    def isatty(self):
        return True

    def widest(self):
        """Columns touched on the screen."""
        return max(len(x) for x in self.text.replace("\n", "\r").split("\r"))

    def visible(self):
        """Finished lines, current line and cursor of a terminal showing the text."""
        lines, line, pos = [], [], 0
        for c in self.text:
            if c == "\r":
                pos = 0
            elif c == "\n":
                lines.append("".join(line).rstrip())
                line, pos = [], 0
            else:
                line[pos:pos + 1] = [c]
                pos += 1
        return lines, "".join(line).rstrip(), pos


class Quiet:
    """Standard streams that must not be used."""

    def __enter__(self):
        self.keep = sys.stdout, sys.stderr
        self.out, self.err = sys.stdout, sys.stderr = Stream(), Stream()
        return self

    def __exit__(self, *a):
        sys.stdout, sys.stderr = self.keep
        NOW[0] = None


BAR = re.compile(r"\|(#*)(-*)\| (\d+)/(\d+) +(\d+)% \[elapsed: ([\d:]+) left: ([\d:]+|\?), +(\S+) iters/sec\]$")
COUNT = re.compile(r"(\d+) \[elapsed: ([\d:]+), +(\S+) iters/sec\]$")


def clock(s):
    l = [int(x) for x in s.split(":")]
    return sum(x * 60 ** i for i, x in enumerate(reversed(l)))


def span(t):
    """Seconds as text."""
    t = int(t)
    return "%d:%02d:%02d" % (t // 3600, t // 60 % 60, t % 60) if t >= 3600 else "%02d:%02d" % (t // 60, t % 60)


def judge(text, desc, n, total, elapsed):
    """None, or what is wrong with a status line."""
    head = desc + ": " if desc else ""
    if not text.startswith(head):
        return "description"
    text = text[len(head):]

    def rate(s):
        if not elapsed:
            return s == "?"
        return abs(float(s) - n / elapsed) <= 0.0051
    if not total or n > total:
        m = COUNT.match(text)
        if not m:
            return "form"
        if int(m.group(1)) != n:
            return "count"
        if m.group(2) != span(elapsed):
            return "elapsed time"
        return None if rate(m.group(3)) else "rate"
    m = BAR.match(text)
    if not m:
        return "form"
    done, left, c, t, pc, el, rem, r = m.groups()
    if int(c) != n or int(t) != total:
        return "count"
    if int(pc) != n * 100 // total:
        return "percentage"
    if len(done) != n * 10 // total or len(done) + len(left) != 10:
        return "bar"
    if el != span(elapsed):
        return "elapsed time"
    if not n:
        ok = rem == "?"
    else:
        w = elapsed * (total - n) / n
        ok = rem in (span(w + 1e-6), span(max(w - 1e-6, 0)))
    if not ok:
        return "remaining time"
    return None if rate(r) else "rate"
