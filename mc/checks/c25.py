"""Canvases of every kind and sizes from 1x1 to 17x2, every background of a lattice: every history of pixel writes (every pixel
of the canvas, plain colours and blends with alpha), breadth-first until the pixel contents close (small black-and-white
canvases: 3x2, 9x1, 4x2 completely) or to depth 2-3 (thorough: one more); after every write all pixels are read. Large canvases
(sides of 127 to 66000, areas of up to 160000): every pair of writes at corners and around multiples of 8, 128 and 256."""
import itertools
from fractions import Fraction as F
from mc.core import same, need, freeze, Bad
from coral import raster

LEVEL = "model_checking"
BW = [(1, 1), (2, 1), (1, 2), (3, 2), (4, 2), (8, 1), (9, 1), (2, 3), (7, 2), (8, 2), (9, 2), (16, 1), (17, 2), (1, 9)]
FULL = 8           # pixels up to which black-and-white canvases are explored to the end
GRAY = [(1, 1), (2, 1), (1, 3), (2, 2), (5, 2), (3, 4)]
BIG = [(127, 2), (128, 1), (129, 3), (255, 1), (256, 2), (257, 2), (3, 257), (1, 300), (1000, 1), (33000, 1), (1, 66000), (400, 400)]
COLOR = [(1, 1), (2, 1), (1, 2), (2, 2), (3, 2)]


def inits(tier):
    x = tier == "thorough"
    out = []
    for w, h in BW:
        for bg in (None, 0, 1) + ((True, False, 255, 2, -1) if w * h < 20 else ()):
            out.append(("BW", w, h, bg, 99 if w * h <= FULL + 2 * x else 2 + x))
    for w, h in GRAY:
        for bg in (None, 0, 100, 255):
            out.append(("Gray", w, h, bg, 2 + x if w * h < 10 else 1 + x))
    for w, h in COLOR:
        for bg in (None, (0, 0, 0), (10, 200, 255)):
            out.append(("Color", w, h, bg, 2 + x if w * h < 6 else 1 + x))
    for w, h in BIG:
        for kind, bg in (("BW", 0), ("BW", 1), ("Gray", None), ("Gray", 3), ("Color", None), ("Color", (1, 2, 250))):
            if w * h < 2000 or bg in (0, 3, (1, 2, 250)):
                out.append((kind, w, h, bg, 2 if w * h < 2000 else 1))
    return out


def depth(tier):
    return 12


VALUES = dict(BW=[0, 1], Gray=[0, 1, 254, 255, 128, (0, 0.25), (255, 0.5), (77, 0), (30, 1), (200, 0.9)],
              Color=[(0, 0, 0), (255, 254, 1), (9, 90, 200), (255, 0, 100, 0.5), (1, 2, 3, 0), (250, 5, 128, 1),
                     (12, 255, 99, 0.3)])
DEFAULT = dict(BW=0, Gray=255, Color=(255, 255, 255))


def canvas(kind, w, h, bg):
    c = getattr(raster, kind + "Canvas")
    return c(w, h) if bg is None else c(w, h, bg)


def level(old, new, a):
    """Set of acceptable levels: nearest to the exact blend (either one at a tie)."""
    v = F(old) * (1 - F(a)) + F(new) * F(a)
    out = {int(v + F(1, 2))}
    if abs((v + F(1, 2)) % 1 - 0) < F(1, 10 ** 9) or (v + F(1, 2)) % 1 > 1 - F(1, 10 ** 9):
        out |= {int(v + F(1, 2)) - 1, round(v), int(v + F(1, 2) + F(1, 10 ** 9))}
    return out


def run(init, hist):
    kind, w, h, bg, limit = init
    c = canvas(kind, w, h, bg)
    back = DEFAULT[kind] if bg is None else int(bool(bg)) if kind == "BW" else bg
    model = {(x, y): back for x in range(w) for y in range(h)}

    def compare(skip=None):
        for k, v in model.items():
            if k != skip:
                same(c[k], v, "pixel %r after %r" % (k, hist))
    same((c.width, c.height), (w, h), "size")
    compare()
    for x, y, v in hist:
        c[x, y] = v
        compare((x, y))
        got = c[x, y]
        old = model[x, y]
        if kind == "Gray" and isinstance(v, tuple):
            need(got in level(old, *v), "pixel {} blended from {} with {} is {}", (x, y), old, v, got)
        elif kind == "Color" and len(v) == 4:
            need(len(got) == 3, "pixel has {} channels", len(got))
            for o, n, g in zip(old, v, got):
                need(g in level(o, n, v[3]), "pixel {} blended from {} with {} is {}", (x, y), old, v, got)
        else:
            same(got, int(bool(v)) if kind == "BW" else v, "pixel %r as written" % ((x, y),))
        model[x, y] = got
    if (w, h) in BIG:
        key = tuple(sorted((k, v) for k, v in model.items() if v != back))
        xs = sorted({x for x in (0, 7, 8, 128, 255, 256, 32768, w - 1) if x < w})
        ys = sorted({y for y in (0, 128, 255, 256, 65536, h - 1) if y < h})
        spots = sorted(set([(x, y) for x in xs for y in (ys[0], ys[-1])] + [(x, y) for x in (xs[0], xs[-1]) for y in ys]))
        if hist:        # the second write: next to, above and below the first, and the far corners
            a, b = hist[0][:2]
            spots = [p for p in ((a, b), (a + 1, b), (a, b - 1), (w - 1, h - 1)) if 0 <= p[0] < w and 0 <= p[1] < h]
        return (key, len(hist)), [] if len(hist) >= limit else [(x, y, v) for x, y in spots for v in (VALUES[kind][1:2] + VALUES[kind][-1:])[-1 if hist else -2:]]
    key = tuple(model[k] for k in sorted(model)), freeze(c)
    if len(hist) >= limit:
        return (key, len(hist)), []
    return (key, None if limit == 99 else len(hist)), [(x, y, v) for y in range(h) for x in range(w)
                                                     for v in (VALUES[kind] if kind != "BW" or limit == 99 or len(hist) else [0, 1, True, 255, 2, -1, False])]
