"""Every history of 2 (thorough: 3) drawing calls from an alphabet of 38, and of 3 (thorough: 4) calls from 14 of them (inks as gray levels and colours that
look alike, widths, dashes also as a list the caller changes, polygons, circles, polylines, rounded polygons with every
combination of fill and stroke, texts, images, copies), on five backgrounds, and of 2 (thorough: 3) settings out of 24, equal,
nearly equal and different ones, each followed by a painted figure or by none; every first value of an attribute out of 21 to 62; every history of
5 (thorough: 6) steps over three settings of one attribute and a line; the saved program is executed and every paint
event compared: path, ink, line width, dash, order. Histories of 80 (thorough: 400) calls that walk the alphabet from every start
with every stride; paths of up to 140000 points and with coordinates from 1e-12 to 1e15."""
import itertools
from mc.core import same, need, scratch, fresh, Bad
from mc import ps
from coral import vector

LEVEL = "exploration"
RULE = "background x first call (x second), with all continuations inside; non-trivial: something is painted"
LIMIT = 60
K, R, H, HG = (0, 0, 0), (1, 0, 0), (0.5, 0.5, 0.5), 0.5
BACK = [None, 0, 0.5, R, (0, 0, 0)]
PTS = [(0, 0), (10, 0.5), (3, 7)]
PAINT = [(None, None), (R, None), (None, HG), (0, R), (HG, HG), (R, K), (H, HG)]
OPS = [("ink", 0), ("ink", HG), ("ink", K), ("ink", R), ("gray", 0), ("gray", HG), ("gray", 1), ("color", 0, 0, 0),
       ("color", 1, 0, 0), ("color", 0.5, 0.5, 0.5), ("width", 1), ("width", 2.5), ("dash", (), 0), ("dash", (3, 1), 0),
       ("dash", (3, 1), 2), ("mutate",), ("text",), ("image",), ("copy",),
       ("polyline", None), ("polyline", R), ("polyline", HG), ("polyline", 0), ("circle", None, None), ("rounded", 0, R)] + \
      [("polygon", f, s) for f, s in PAINT] + [("circle", R, None), ("circle", None, HG), ("circle", 0, R), ("circle", HG, HG),
                                               ("rounded", None, None), ("rounded", HG, None), ("rounded", None, K)]
SMALL = [("gray", HG), ("color", 1, 0, 0), ("width", 2.5), ("dash", (3, 1), 0), ("mutate",), ("polyline", None), ("polyline", K),
         ("polygon", R, K), ("polygon", HG, HG), ("polygon", None, None), ("circle", 0, R), ("circle", R, None), ("text",), ("copy",)]


# inks, widths and dashes that differ in one component or by little, are equal but of other types, or look alike
SETS = [("gray", 0), ("gray", 1), ("gray", HG), ("gray", 0.9996), ("gray", 0.0004), ("gray", 0.5004), ("ink", 1.0), ("color", 0, 0, 0),
        ("color", 1, 1, 1), ("color", 1, 0, 0), ("color", 0, 1, 0), ("color", 0, 0, 1), ("color", 1, 0.0004, 0), ("color", 0.5, 0.5, 0.5),
        ("width", 0), ("width", 1), ("width", 1.0004), ("width", 2.5), ("dash", (), 0), ("dash", (), 2), ("dash", (3,), 0),
        ("dash", (3,), 2), ("dash", (3, 3), 0), ("dash", (1, 3), 0)]
PAINTERS = [("polyline", None), ("polygon", 1, 0), ("polygon", None, HG), ("circle", R, None), ("rounded", 1, 1), ("polyline", 1), ("polyline", 0)]
ATTR = {
    "width": [("width", 1), ("width", 2.5), ("width", 3)],
    "dash": [("dash", (), 0), ("dash", (3, 1), 0), ("dash", (3, 1), 2)],
    "gray": [("gray", 0), ("gray", HG), ("color", 0, 0, 0)],
    "color": [("color", 0, 0, 1), ("gray", 0), ("color", 0, 0, 0)],
    "fill": [("polygon", R, K), ("ink", R), ("circle", 0, HG)],
}

# values an attribute may get first
FIRST = ([("width", w / 4) for w in range(0, 49)] + [("width", w) for w in range(0, 13)] + [("width", 100)] +
         [("gray", g / 20) for g in range(21)] + [("color",) + c for c in itertools.product((0, 0.5, 1), repeat=3)] +
         [("color",) + c for c in itertools.product((0.1, 0.9), repeat=3)] +
         [("dash", d, o) for d in ((), (1,), (2,), (4,), (1, 1), (2, 1), (4, 2), (5, 5), (1, 2, 3), (0.5,)) for o in (0, 1, 2.5)])


def cases(tier):
    for b in BACK:
        for a in OPS:
            yield b, (a,), 3 if tier == "thorough" else 2, "OPS"
        for a in itertools.product(SMALL, repeat=2):
            yield b, a, 4 if tier == "thorough" else 3, "SMALL"
    for a in SETS:
        for p in PAINTERS:
            yield None, (a, p), 4, "SETS"
            if tier == "thorough":
                for b in SETS:
                    yield None, (a, b, p), 5, "SETS"
    for p in PAINTERS:
        yield None, (p,), 3, "SETS"
    for f in range(len(FIRST)):
        yield None, (f,), 2 if tier == "quick" else 3, "FIRST"
    # everything that can happen to one attribute in a few steps
    for k in ATTR:
        for a in itertools.product(range(4), repeat=2):
            yield None, (k,) + a, 5 if tier == "quick" else 6, "ATTR"
    for s in range(len(OPS)):
        for stride in (1, 5, 7, 11, 13):
            yield BACK[s % len(BACK)], (s, stride), 80 if tier == "quick" else 400, "LONG"
    for n in tuple(range(2, 18)) + (31, 32, 33, 63, 64, 65, 99, 100, 101, 255, 256, 257, 1000, 2000, 32768, 65537, 140000):
        for k in ("polyline", "polygon", "rounded"):
            yield None, (k, n), 1, "POINTS"
    for x in (1e-12, -1e-7, 1e-5, 0.1 + 0.2, 123456.789, 1e6 + 1 / 3, 12345678901, -1e15, 2.5e21, 1e16, 7):
        for y in (0, -0.0, 3, 1e-9, -4e15):
            yield None, (x, y), 1, "VALUES"


def rgb(ink):
    return tuple(float(v) for v in (ink if isinstance(ink, tuple) else (ink,) * 3))


def play(back, hist):
    """Returns (canvas, expected events); an expected ink may be a set of acceptable ones."""
    c = vector.Canvas(back)
    ev = []
    ink, maybe = K, K            # set explicitly; set by whatever came last
    width, dash = 1, ((), 0)
    lst = [3, 1]
    for i, op in enumerate(hist):
        k = op[0]
        if k in ("ink", "gray", "color"):
            v = op[1] if k != "color" else op[1:]
            {"ink": c.setink, "gray": c.setgray, "color": c.setcolor}[k](*(op[1:]))
            ink = maybe = v
        elif k == "width":
            c.setwidth(op[1])
            width = op[1]
        elif k == "dash":
            p = list(op[1])
            c.setdash(p, op[2]) if op[2] or i % 2 else c.setdash(p)
            p.append(99)
            dash = op[1:]
        elif k == "mutate":
            lst[0] += i
            c.setdash(lst)
            dash = (tuple(lst), 0)
        elif k == "text":
            c.addtext((1, 2), "ab", 4)
            ev.append(("show", "ab", ("ink", ink, maybe)))
        elif k == "image":
            c.addimage([1, 2], 2)
            ev.append(("image",))
        elif k == "copy":
            c = c.copy()
        else:
            pts = [(x + i, y) for x, y in PTS]
            if k == "polyline":
                arg = iter(pts) if i % 2 else list(pts)
                c.addpolyline(arg) if op[1] is None else c.addpolyline(arg, op[1])
                path = ((tuple(("p",) + p for p in pts), False),)
                fill, stroke = None, ("ink", ink, maybe) if op[1] is None else op[1]
                if op[1] is not None:
                    maybe = op[1]
            else:
                fill, stroke = op[1:]
                if k == "circle":
                    c.addcircle((5, i), 2, fill, stroke)
                    path = (((("arc", (5, i), 2, 0, 360),), True),)
                elif k == "polygon":
                    c.addpolygon(iter(pts) if i % 2 else list(pts), fill=fill, stroke=stroke)
                    path = ((tuple(("p",) + p for p in pts), True),)
                else:
                    c.addroundedpolygon(pts, 1, fill=fill, stroke=stroke)
                    a, b, d = pts
                    mid = ("p", (a[0] + b[0]) / 2, (a[1] + b[1]) / 2)
                    path = (((mid, ("rnd", b, d, 1), ("rnd", d, a, 1), ("rnd", a, mid[1:], 1)), True),)
            if fill is not None:
                ev.append(("fill", path, fill))
                maybe = fill
            if stroke is not None:
                ev.append(("stroke", path, stroke, width, dash))
                if not (isinstance(stroke, tuple) and stroke[:1] == ("ink",)):
                    maybe = stroke
    return c, ev


def floats(x):
    if isinstance(x, (tuple, list)):
        return tuple(floats(v) for v in x)
    return float(x) if isinstance(x, (int, float)) and not isinstance(x, bool) else x


def ink_ok(got, want, what):
    if isinstance(want, tuple) and want[:1] == ("ink",):
        need(floats(got) in (rgb(want[1]), rgb(want[2])), "{}: ink {}, expected {}", what, got, want[1])
    else:
        same(floats(got), rgb(want), what + ": ink")


def figures(case):
    """Large paths and unusual coordinates."""
    back, arg, n, kind = case
    c = vector.Canvas(back)
    want = []
    if kind == "POINTS":
        k, m = arg
        pts = [((i * 37) % 1001 - 500.5, (i * i) % 997 + i / 8) for i in range(m)]
        if k == "polyline":
            c.addpolyline(iter(pts), R)
            want.append(("stroke", ((tuple(("p",) + p for p in pts), False),), R))
        elif k == "polygon":
            c.addpolygon(iter(pts), 0.5, R)
            path = ((tuple(("p",) + p for p in pts), True),)
            want += [("fill", path, 0.5), ("stroke", path, R)]
        elif m > 2:
            c.addroundedpolygon(list(pts), 2, R, 0.5)
            mid = ((pts[0][0] + pts[1][0]) / 2, (pts[0][1] + pts[1][1]) / 2)
            ring = pts[1:] + pts[:1] + [mid]
            path = (((("p",) + mid,) + tuple(("rnd", a, b, 2) for a, b in zip(ring, ring[1:])), True),)
            want += [("fill", path, R), ("stroke", path, 0.5)]
    else:
        x, y = arg
        c.setwidth(abs(x))
        c.setdash([abs(x), 3], 1)
        c.addpolyline([(x, y), (y, x), (1, 2)], 0)
        want.append(("stroke", ((tuple([("p", x, y), ("p", y, x), ("p", 1, 2)]), False),), 0))
        c.addcircle((x, y), abs(x), R)
        want.append(("fill", (((("arc", (x, y), abs(x), 0, 360),), True),), R))
    path = scratch("c.ps")
    c.save(path)
    got = ps.run_file(path)[1]
    same([e[0] for e in got], [e[0] for e in want], "what is painted: %r" % (case,))
    for g, w in zip(got, want):
        need(floats(ps.shape(g[1])) == floats(w[1]), "{}: another path is painted", case)
        ink_ok(g[2], w[2], repr(case))
        if kind == "VALUES" and g[0] == "stroke":
            same(floats(g[3:]), floats((abs(x), ((abs(x), 3), 1))), "line width and dash: %r" % (case,))
    return case if want else None


def check(case):
    if case[3] in ("POINTS", "VALUES"):
        return figures(case)
    back, start, n, alphabet = case
    painted = 0
    path = scratch("c.ps")
    if alphabet == "LONG":
        s, stride = start
        rests, start = [tuple(OPS[(s + i * stride + (i * i) // 97) % len(OPS)] for i in range(n))], ()
    elif alphabet == "ATTR":
        ops = ATTR[start[0]] + [("polyline", None)]
        start = tuple(ops[i] for i in start[1:])
        rests = [r + ops[-1:] for r in map(list, itertools.product(ops, repeat=n - 2))]
        rests = [tuple(r) for r in rests]
    elif alphabet == "FIRST":
        start = (FIRST[start[0]],)
        like = [x for x in FIRST if x[0] == start[0][0]]
        rests = [r + (p,) for k in range(n) for r in itertools.product(like, repeat=k) for p in (("polyline", None), ("polygon", R, None))]
    elif alphabet == "SETS":
        rests = list(itertools.product(SETS, PAINTERS)) if n - len(start) == 2 else list(itertools.product(SETS, SETS, PAINTERS))
        rests = [r for r in rests if r[-1] in (("polyline", None), start[-1])]
    else:
        rests = itertools.product(OPS if alphabet == "OPS" else SMALL, repeat=n - len(start))
    for rest in rests:
        hist = start + rest
        c, want = play(back, hist)
        c.save(path)
        box, got = ps.run_file(path)
        what = "background %r, calls %r" % (back, hist)
        if back is not None:
            need(got and got[0][0] == "fill", "{}: the background is not painted first", what)
            ink_ok(got[0][2], back, what + ", background")
            got = got[1:]
        need(ps.JOINS <= {1}, "{}: line joins {}, not round", what, ps.JOINS)
        same([e[0] for e in got], [e[0] for e in want], what + ": what is painted")
        for g, w in zip(got, want):
            if w[0] == "show":
                same(g[1], w[1], what + ": text")
                ink_ok(g[5], w[2], what + ", text")
            elif w[0] != "image":
                same(floats(ps.shape(g[1])), floats(w[1]), what + ": path")
                ink_ok(g[2], w[2], what)
                if w[0] == "stroke":
                    same(floats(g[3:]), floats(w[3:]), what + ": line width and dash")
        painted += len(want)
    return (case, painted) if painted else None
