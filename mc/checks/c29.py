"""Black-and-white: all contents of all canvases with up to 10 pixels (thorough: 14) and widths up to 17 with each single pixel
set or cleared; gray and colour: all contents over {0, 10, 32, 255} of canvases with up to 4 samples, and larger sizes up to
13x11 with contents that make every sample distinct; each saved over nothing, over a longer and over a shorter file; sides of 127 to 70000 with patterned contents."""
import itertools, os
from mc.core import same, need, scratch, fresh
from coral import raster

LEVEL = "exploration"
RULE = "one case is one size and kind with a family of contents; all are non-trivial"
LEVELS = (0, 10, 32, 255)


def cases(tier):
    n = 14 if tier == "thorough" else 10
    for w in range(1, 18):
        for h in range(1, 7):
            if w * h <= n:
                yield "bw-all", w, h
            yield "bw-one", w, h
    for w in range(1, 6):
        for h in range(1, 5):
            if w * h <= (6 if tier == "thorough" else 4):
                yield "gray-all", w, h
            if w * h <= (2 if tier == "thorough" else 1):
                yield "color-all", w, h
    for w in range(1, 14):
        for h in range(1, 12):
            yield "gray-one", w, h
            yield "color-one", w, h


    for w in (31, 32, 33, 127, 128, 129, 255, 256, 257, 1000):
        for h in (1, 2, 3):
            for k in ("bw", "gray", "color"):
                yield k + "-big", w, h
                yield k + "-big", h, w
    for k in ("bw", "gray", "color"):
        for w, h in ((300, 257), (65535, 1), (65536, 2), (65537, 1), (1, 65537), (2, 70000), (1001, 500)):
            yield k + "-big", w, h


def decode(b):
    """Decodes a binary PNM file: (kind, width, height, pixels row by row)."""
    magic = b[:2]
    pos = 2
    values = []
    while len(values) < (2 if magic == b"P4" else 3):
        start = pos
        while pos < len(b) and b[pos] in b" \t\n\r\x0b\x0c#":
            if b[pos] == ord("#"):
                while pos < len(b) and b[pos] not in b"\n\r":
                    pos += 1
            else:
                pos += 1
        need(pos > start, "no white space in the header")
        t = pos
        while pos < len(b) and b[pos:pos + 1].isdigit():
            pos += 1
        need(pos > t, "no number in the header")
        values.append(int(b[t:pos]))
    need(b[pos:pos + 1].isspace(), "no white space after the header")
    data = b[pos + 1:]
    w, h = values[:2]
    if magic == b"P4":
        row = (w + 7) // 8
        same(len(data), row * h, "size of the bitmap")
        return "BW", w, h, [[(data[y * row + x // 8] >> (7 - x % 8)) & 1 for x in range(w)] for y in range(h)]
    same(values[2], 255, "maximum level")
    if magic == b"P5":
        same(len(data), w * h, "size of the graymap")
        return "Gray", w, h, [list(data[y * w:(y + 1) * w]) for y in range(h)]
    same(magic, b"P6", "file type")
    same(len(data), 3 * w * h, "size of the pixmap")
    return "Color", w, h, [[tuple(data[3 * (y * w + x):3 * (y * w + x) + 3]) for x in range(w)] for y in range(h)]


def judge(c, kind, before=None):
    p = scratch("img")
    if before is None:
        if os.path.exists(p):
            os.unlink(p)
    else:
        with open(p, "wb") as f:
            f.write(b"x" * before)
    pix = [[c[x, y] for x in range(c.width)] for y in range(c.height)]
    c.save(p)
    with open(p, "rb") as f:
        k, w, h, px = decode(f.read())
    same((k, w, h), (kind, c.width, c.height), "kind and size")
    # in a bitmap 1 is black: the canvas keeps exactly the stored bits
    same(px, pix, "decoded pixels")
    same([[c[x, y] for x in range(w)] for y in range(h)], pix, "pixels after saving")


def check(case):
    what, w, h = case
    kind, mode = what.split("-")
    K = dict(bw="BW", gray="Gray", color="Color")[kind]
    cls = getattr(raster, K + "Canvas")
    pixels = [(x, y) for y in range(h) for x in range(w)]
    if mode == "all":
        values = dict(bw=(0, 1), gray=LEVELS, color=list(itertools.product(LEVELS, repeat=3)))[kind]
        c = cls(w, h)
        for content in itertools.product(values, repeat=w * h):
            for p, v in zip(pixels, content):
                c[p] = v
            judge(c, K)
        return case
    if mode == "big":
        for bg in dict(bw=(0, 1), gray=(255,), color=((13, 10, 32),))[kind]:
            c = cls(w, h, bg)
            judge(c, K, 2000)
            for i, p in enumerate(pixels):
                c[p] = (i * i + i // 3) % 7 % 2 if kind == "bw" else (i * 7 + i // 256) % 256 if kind == "gray" else ((i * 7) % 256, (i * 3 + 1) % 256, (i // 5) % 256)
            judge(c, K, 3)
        return case
    for bg in dict(bw=(0, 1, 255, True), gray=(0, 255, 13), color=((0, 0, 0), (13, 10, 32)))[kind]:
        c = cls(w, h, bg)
        judge(c, K, 2000)
        for i, p in enumerate(pixels):
            if kind == "bw":
                c[p] = 255 * (not bg)
                judge(c, K, 3)
                c[p] = bg
            else:
                c[p] = (i * 7) % 256 if kind == "gray" else ((i * 7) % 256, (i * 3 + 1) % 256, 255 - i)
        judge(c, K, 3)
    return case
