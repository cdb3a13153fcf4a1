"""All lists of up to 3 canvases of a catalogue (lines, boxes, empty, backgrounds, overlapping and far apart), and lists of 9..12,
99..101, 257 and 1001 canvases (also with one that exceeds the others, in each place), x delays x targets (blanks, quotes, shell characters) x export options x answers of the programs; the external
programs are replaced by recorders that a real shell hands the arguments to; drawings are executed by the interpreter of C31."""
import itertools, os, shlex, subprocess, sys, tempfile
from mc.core import same, need, scratch, fresh, Bad
from mc import procs, ps
from coral import bbox, vector

LEVEL = "exploration"
RULE = "one case is one list of canvases with one set of options; non-trivial: at least one canvas"
ASSUMPTIONS = ["the renderer and the assembler are stand-ins: gs reads the drawing when called and writes its output file"]
LIMIT = 60

CAT = {
    "tri": lambda c: c.addpolygon([(0, 0), (4, 1), (2, 5)], fill=(1, 0, 0)),
    "far": lambda c: c.addpolygon([(100, 50), (110, 51), (102, 60)], fill=0.5, stroke=(0, 0, 1)),
    "line": lambda c: c.addpolyline([(-10, 3), (20, 3)], stroke=0.25),
    "empty": lambda c: None,
    "circle": lambda c: c.addcircle((-50, -7.5), 2.5, fill=0, stroke=1),
    "text": lambda c: c.addtext((3, 3), "A (b)", 5),
}
BG = {"tri": None, "far": 0.5, "line": (0, 1, 0), "empty": 1, "circle": None, "text": None}
BOX = {"tri": (0, 0, 4, 5), "far": (100, 50, 110, 60), "line": (-10, 3, 20, 3), "circle": (-52.5, -10, -47.5, -5)}
TARGETS = ("out.gif", "my film.gif", "it's $HOME.gif", "a;b&c(1)*.gif", "-x.gif", "sub/ü.gif")
OPTS = (((), {}), (("pngmono",), {}), ((), {"device": "png16", "size": 200}), (("pngalpha", 7), {}), ((), {"margin": 3}), ((), {"size": 50, "margin": 5}))


def cases(tier):
    deep = tier != "quick"
    for n in (1, 2, 3):
        for l in itertools.product(CAT, repeat=n):
            yield (l, 10, 0, 0, (0, 0))
    yield (tuple(list(CAT)[i * i % 6] for i in range(1001)), 5, 0, 0, (0, 0))
    for o in range(len(OPTS)):
        for t in range(len(TARGETS)):
            for d in (None, 0, 1, 10, 99, 100, 250, 65536):
                yield (("tri", "far"), d, t, o, (0, 0))
    for rc in itertools.product((0, 1, 3), (0, 1, 2, 127)):
        yield (("line", "tri"), 10, 0, 0, rc)
    # the box is decided by one frame only
    for n in (2, 3, 10, 101, 257):
        for at in sorted({0, 1, n // 2, n - 1}):
            for k in ("far", "circle"):
                yield (tuple(k if i == at else "tri" for i in range(n)), 10, 0, 0, (0, 0))
    for n in (9, 10, 11, 12, 13, 21, 99, 100, 101) + ((102, 111, 202) if deep else ()):
        l = list(CAT)
        yield (tuple(l[i * i % 6] for i in range(n)), 5, 0, 0, (0, 0))


def make(name):
    c = vector.Canvas(BG[name])
    CAT[name](c)
    return c


def listing(d):
    return sorted(os.path.join(p, f)[len(d):] for p, ds, fs in os.walk(d) for f in fs + ds)


def litter():
    return {n for n in os.listdir("/tmp") if n.endswith((".ps", ".eps", ".png")) and os.path.isfile("/tmp/" + n)}


def check(case):
    frames, delay, t, o, (rc_gs, rc_conv) = case
    fresh()
    os.mkdir(scratch("tmp dir"))
    os.mkdir(scratch("work"))
    os.mkdir(scratch("work/sub"))
    tempfile.tempdir = scratch("tmp dir")
    target = os.path.join(scratch("work"), TARGETS[t]) if TARGETS[t][0] != "-" else scratch("work/" + TARGETS[t])
    args, kw = OPTS[o]
    cs = [make(n) for n in frames]
    before = [ps_of(c.copy(), None, (), {}) for c in cs]
    boxes = [BOX[n] for n in frames if n in BOX]
    if boxes:
        x0, y0 = min(b[0] for b in boxes), min(b[1] for b in boxes)
        x1, y1 = max(b[2] for b in boxes), max(b[3] for b in boxes)
    else:
        x0 = y0 = x1 = y1 = 0
    dx, dy = (x1 - x0) * 0.025, (y1 - y0) * 0.025
    common = (x0 - dx, y0 - dy, x1 + dx, y1 + dy)
    device = kw.get("device", args[0] if args else "png256")
    saveargs = tuple(args[1:])
    savekw = {k: v for k, v in kw.items() if k != "device"}
    rendered, films, paths = {}, [], []
    keep = litter()

    def handler(a):
        if a[0] == "gs":
            dev, out, src = procs.gs(a)
            same(dev, device, "device")
            need(out not in rendered, "two images are written to {}", out)
            rendered[out] = ps.run_file(src)
            paths.append(out)
            with open(out, "w") as f:
                f.write("image %d" % len(paths))
            return rc_gs
        same(a[0], "convert", "program")
        films.append(procs.convert(a))
        for p in films[-1][1]:
            need(os.path.exists(p), "the image {} is missing", p)
        with open(films[-1][2], "w") as f:
            f.write("film")
        return rc_conv
    extra = () if delay is None else (delay,)
    if args and delay is None:
        extra = (10,)
    with procs.Programs(handler):
        try:
            status = vector.animation(target, list(cs), *extra, *args, **kw)
        except subprocess.CalledProcessError as e:
            raise Bad("animation raises %r" % e)
    tempfile.tempdir = None
    same(len(films), 1, "number of assembler calls")
    same(films[0][0], str(10 if delay is None else delay), "delay")
    same(films[0][2], target, "target")
    same(len(films[0][1]), len(frames), "number of images in the film")
    same(len(paths), len(frames), "number of rendered images")
    same(status, rc_conv, "status")
    for i, (p, c) in enumerate(zip(films[0][1], cs)):
        need(p in rendered, "image {} of the film was never rendered", p)
        b = bbox.BBox(common[:2], common[2:])
        want = ps_of(c.copy(), b, saveargs, savekw)
        close(rendered[p], want, "frame %d (%s)" % (i, frames[i]))
    same(listing(scratch("tmp dir")), [], "temporary files left behind")
    same(litter() - keep, set(), "temporary files left behind")
    same([x for x in listing(scratch("work")) if x != "/sub"], ["/" + TARGETS[t]], "files in the working directory")
    same([ps_of(c, None, (), {}) for c in cs], before, "the given canvases")
    return (frames, delay, t, o, status)


def ps_of(c, box, args, kw):
    if box is not None:
        c.bbox = box
    c.save(scratch("own.ps"), *args, **kw)
    r = ps.run_file(scratch("own.ps"))
    os.unlink(scratch("own.ps"))
    return r


def close(a, b, what):
    """Equal up to the rounding of the common box."""
    if isinstance(a, float) or isinstance(b, float):
        need(isinstance(a, (int, float)) and isinstance(b, (int, float)) and abs(a - b) <= 1e-6 * (1 + abs(b)), "{}: {} instead of {}", what, a, b)
    elif isinstance(a, (list, tuple)):
        need(isinstance(b, (list, tuple)) and len(a) == len(b), "{}: {} instead of {}", what, a, b)
        for x, y in zip(a, b):
            close(x, y, what)
    else:
        need(a == b, "{}: {} instead of {}", what, a, b)
