"""Texts: every single printable ASCII character, every pair and triple (thorough: quadruple) over the characters special to the
language plus two plain ones, in all nine anchors, three sizes, fonts and places, before and after figures. Images: every size up
to 4x3 in gray and colour with all-distinct bytes, and all one-pixel and two-pixel contents over a byte lattice, from lists,
bytes and tuples. Copies: every history of 4 (thorough: 5) steps out of drawing on, copying and saving either canvas. Every
program is executed: procedures defined before use, stacks balanced. Texts of up to 70000 characters, 300 texts on a canvas, images of
up to 300 pixels a side."""
import itertools
from mc.core import same, need, scratch
from mc import ps
from coral import vector

LEVEL = "exploration"
RULE = "one case is one family of texts or images or one history; all are non-trivial"
ANCHORS = {"c": (.5, .5), "t": (.5, 1), "tr": (1, 1), "r": (1, .5), "br": (1, 0), "b": (.5, 0), "bl": (0, 0), "l": (0, .5),
           "tl": (0, 1)}
ASCII = [chr(i) for i in range(32, 127)]
SPECIAL = "()\\%/a {"
SETTINGS = [((0, 0), 10, "Times-Bold"), ((-3.5, 7), 2.5, "Helvetica"), ((100, -20), 1, "Courier-BoldOblique")]
STEPS = [("draw", 0), ("draw", 1), ("copy", 0), ("copy", 1), ("save", 0), ("save", 1), ("ink", 0), ("ink", 1), ("bg", 0)]


def cases(tier):
    for a in ANCHORS:
        for s in range(len(SETTINGS)):
            yield "texts", a, s
    for n in (2, 3, 4) if tier == "thorough" else (2, 3):
        for first in itertools.product(SPECIAL, repeat=n - 1):
            yield "specials", first
    for anchors in itertools.permutations(ANCHORS, 2):
        yield "order", anchors
    for w in range(1, 5):
        for h in range(1, 4):
            yield "image", w, h
    for w, h in ((127, 1), (128, 2), (129, 1), (255, 3), (256, 2), (257, 2), (1, 300), (3, 257), (300, 40)):
        yield "image", w, h
    for n in (16, 100, 127, 128, 254, 255, 256, 257, 1000, 2000, 4096, 4097, 20000, 70000):
        yield "longtext", n
    for v in (0, 1, 9, 10, 15, 16, 127, 128, 254, 255):
        yield "bytes", v
    for hist in itertools.product(STEPS, repeat=5 if tier == "thorough" else 4):
        yield "copies", hist


def run(c, seen=None):
    p = scratch("c.ps")
    c.save(p)
    with open(p, "rb") as f:
        a = f.read()
    if seen is not None:
        if seen:
            need(seen[0] == a, "a canvas nobody touched is saved differently")
        seen[:] = [a]
    state = (c.bbox.x0, c.bbox.y0, c.bbox.x1, c.bbox.y1, c.bgcolor)
    c.save(p)
    with open(p, "rb") as f:
        same(f.read() == a, True, "the second save gives the same file")
    same((c.bbox.x0, c.bbox.y0, c.bbox.x1, c.bbox.y1, c.bgcolor), state, "box and background after saving")
    return ps.run_file(p)[1]


def show_ok(e, text, setting, anchor):
    (x, y), size, font = SETTINGS[setting]
    same(e[0], "show", "event")
    same(e[1], text, "text")
    same(e[3], font, "font")
    need(abs(e[4] - size) < 1e-9, "size {} instead of {}", e[4], size)
    fx, fy = ANCHORS[anchor]
    want = (x - fx * ps.WIDTH * size * len(text), y - fy * ps.HEIGHT * size)
    need(abs(e[2][0] - want[0]) < 1e-6 and abs(e[2][1] - want[1]) < 1e-6, "text {!r} anchored {} starts at {}, expected {}", text,
         anchor, e[2], want)


def put(c, text, setting, anchor):
    (x, y), size, font = SETTINGS[setting]
    if anchor == "l" and font == "Times-Bold":
        c.addtext((x, y), text, size)
    else:
        c.addtext((x, y), text, size, font, anchor)


def check(case):
    kind = case[0]
    if kind == "texts":
        _, anchor, s = case
        texts = ASCII + ["".join(ASCII), "Hello, world (1)", "\\n", "\\", "((", "))", ")("]
        c = vector.Canvas()
        for t in texts:
            put(c, t, s, anchor)
        ev = run(c)
        same(len(ev), len(texts), "number of texts")
        for e, t in zip(ev, texts):
            show_ok(e, t, s, anchor)
        return case
    if kind == "longtext":
        n = case[1]
        c = vector.Canvas()
        texts = ["x" * n, "(" * n, ")" * n, "\\" * n, "".join(ASCII[i * 7 % 95] for i in range(n))]
        texts += ["%d" % i for i in range(min(n, 300))]
        for i, t in enumerate(texts):
            put(c, t, i % 3, list(ANCHORS)[i % 9])
        ev = run(c)
        same(len(ev), len(texts), "number of texts")
        for i, (e, t) in enumerate(zip(ev, texts)):
            show_ok(e, t, i % 3, list(ANCHORS)[i % 9])
        return case
    if kind == "specials":
        c = vector.Canvas(0.5)
        texts = ["".join(case[1]) + x for x in SPECIAL]
        for i, t in enumerate(texts):
            put(c, t, i % 3, list(ANCHORS)[i])
        ev = run(c)[1:]
        same(len(ev), len(texts), "number of texts")
        for i, (e, t) in enumerate(zip(ev, texts)):
            show_ok(e, t, i % 3, list(ANCHORS)[i])
        return case
    if kind == "order":
        a, b = case[1]
        for pre in range(5):
            c = vector.Canvas()
            if pre == 1:
                c.addcircle((900, 900), 10)                     # left unpainted
            elif pre == 2:
                c.addpolygon([(900, 900), (500, 0), (0, 700)])  # left unpainted
            elif pre == 3:
                c.addpolyline([(900, 900), (500, 0)])
            elif pre == 4:
                c.addroundedpolygon([(900, 900), (500, 0), (0, 700)], 3)
            put(c, "one", 1, a)
            put(c, "(two", 2, b)
            c.addcircle((1, 1), 3, stroke=0)
            ev = [e for e in run(c) if pre != 3 or e[0] != "stroke" or ps.shape(e[1])[0][1]]
            same([e[0] for e in ev], ["show", "show", "stroke"], "events")
            show_ok(ev[0], "one", 1, a)
            show_ok(ev[1], "(two", 2, b)
            same(ps.shape(ev[2][1]), (((("arc", (1, 1), 3, 0, 360),), True),), "circle after texts")
        return case
    if kind in ("image", "bytes"):
        out = []
        for color in (False, True):
            k = 3 if color else 1
            if kind == "image":
                w, h = case[1:]
                contents = [[(i * 37 + 5) % 256 for i in range(w * h * k)]]
            else:
                w, h = 2, 1
                contents = [([case[1], v] * k)[:2 * k] for v in range(0, 256, 5)]
            for data in contents:
                for conv in (list, bytes, tuple):
                    for pos, scale in ((None, 1), ((3, -4.5), 2), ((0, 7), 0.25)):
                        if (pos or kind == "bytes") and conv is not list and pos:
                            continue
                        c = vector.Canvas()
                        if scale == 1:
                            c.addimage(conv(data), w, color=color) if color else c.addimage(conv(data), w)
                        else:
                            c.addimage(conv(data), w, pos, scale, color)
                        ev = run(c)
                        same([e[0] for e in ev], ["image"], "events")
                        e = ev[0]
                        same(e[1:5], (w, h, 8, k), "image size, depth and components")
                        same(e[6], bytes(data), "image bytes")
                        x, y = pos or (0, 0)
                        X, Y = x + w * scale, y + h * scale
                        want = ((x, Y), (X, Y), (X, y), (x, y))     # first row on top
                        need(all(abs(p - q) < 1e-9 for a, b in zip(e[5], want) for p, q in zip(a, b)),
                             "image corners {}, expected {}", e[5], want)
                        out.append(len(ev))
        return case, len(out)
    canvases = [vector.Canvas(), None]
    model = [[], None]          # expected events: ("stroke", x, ink)
    inks = [0, None]
    bgs = [None, None]
    seen = [[], []]             # the file of each canvas, until it is touched
    for i, (op, k) in enumerate(case[1]):
        c = canvases[k]
        if op == "copy":
            if c is not None:
                canvases[1 - k] = c.copy()
                model[1 - k] = list(model[k])
                inks[1 - k] = inks[k]
                bgs[1 - k] = bgs[k]
                seen[1 - k] = list(seen[k])
            continue
        if c is None:
            continue
        if op != "save":
            seen[k].clear()
        if op == "draw":
            ink = (0, (1, 0, 0))[(i + k) % 2]
            c.addpolyline([(i, 0), (i, 5), (9, i)], ink)
            c.addtext((0, 0), "t", 1, anchor="tr" if k else "bl")
            model[k].append((i, ink))
        elif op == "ink":
            c.setink(0.5)
            c.addpolyline([(i, 0), (1, 1)])
            model[k].append((i, 0.5))
        elif op == "bg":
            c.bgcolor = 1
            bgs[k] = 1
        else:
            run(c, seen[k])
    for c, m, bg, s in zip(canvases, model, bgs, seen):
        if c is None:
            continue
        ev = run(c, s)
        if bg is not None:
            same(ev[0][0], "fill", "background")
            ev = ev[1:]
        got = [(e[1][0][1][0], tuple(e[2])) for e in ev if e[0] == "stroke"]
        want = [(x, ink if isinstance(ink, tuple) else (ink,) * 3) for x, ink in m]
        same(got, want, "lines of a canvas after %r" % (case[1],))
        xs = [p[0] for e in ev if e[0] == "stroke" for s in e[1] for p in s[1:]]
        ys = [p[1] for e in ev if e[0] == "stroke" for s in e[1] for p in s[1:]]
        b = c.bbox
        if xs:
            same((b.x0, b.y0, b.x1, b.y1), (min(xs), min(ys), max(xs), max(ys)), "box of a canvas after %r" % (case[1],))
    return case
