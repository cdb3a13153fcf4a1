"""All schedules with at most 2 (thorough: 3) preemptions of two exports at the same time, and with at most 1 (2) of a canvas and a
saved file, equal drawings, different options, three exports, and an export next to an animation, with different renderer answers, switching
at every executed line of the code under test and inside the renderer; every output path of a catalogue of unusual names; and
every renderer answer and failing save alone."""
import itertools, os, tempfile
from mc.core import same, need, scratch, fresh, Bad, _guard
from mc import procs, sched
from coral import vector
import sys

LEVEL = "exploration"
RULE = "one case is one first deviation of one scenario, with all further deviations within the bound inside; non-trivial: always"
ASSUMPTIONS = ["the renderer is a stand-in that reads its input, then writes its output; processes switch between source lines"]
LIMIT = 120

NAMES = ("a.png", "with blank.png", "it's.png", 'q"uote.png', "d$HOME.png", "b`id`.png", "a;b|c&d.png", "(1)*?[x].png", "back\\slash.png",
         "-dash.png", "#x.png", "~.png", "é.png", "new\nline.png", "%d.png", "{a,b}.png", "!1.png", "<x>.png", " .png", "n" * 200 + ".png", "/".join(["a folder's name " * 6] * 9) + "/a.png")
SCEN = {
    "two": ("c0", "c1"),
    "same": ("c0", "c0"),
    "file": ("c0", "f1"),
    "opts": ("o0", "o1"),
    "three": ("c0", "c1", "c2"),
    "film": ("c0", "m1"),
}


def bound(s, tier):
    if tier == "quick":
        return 2 if s == "two" else 1
    return 3 if s == "two" else 2


def canvas(i):
    c = vector.Canvas((None, 0.5, (1, 0, 0))[i])
    c.addcircle((i, 2 * i), 1 + i, fill=i / 4, stroke=0)
    return c


def traced(code):
    return code.co_filename == vector.__file__ and code.co_name not in ("read_defs",)


def build(scen):
    """make(point) for the scheduler, and the verdict on one run."""
    state = {}

    def make(point):
        fresh()
        os.mkdir(scratch("tmp"))
        tempfile.tempdir = scratch("tmp")
        state["rendered"] = []
        state["films"] = []
        bodies, want, statuses = [], {}, []
        for i, k in enumerate(SCEN[scen]):
            j = int(k[1])
            out = scratch("out%d.png" % i)
            if k[0] == "c":
                c = canvas(j)
                bodies.append(lambda c=c, out=out: c.export(out))
                want[out] = ("png256", alone(c))
            elif k[0] == "o":
                c = canvas(j)
                args = (("pngmono", 50 + j, j) if j else ("png16",))
                bodies.append(lambda c=c, out=out, args=args: c.export(out, *args))
                want[out] = (args[0], alone(c, *args[1:]))
            elif k[0] == "f":
                with open(scratch("drawing.ps"), "w") as f:
                    f.write("%!PS own file\n")
                bodies.append(lambda out=out: vector.export(scratch("drawing.ps"), out, "pnggray"))
                want[out] = ("pnggray", b"%!PS own file\n")
            else:
                cs = [canvas(0), canvas(1)]
                bodies.append(lambda cs=cs: vector.animation(scratch("film.gif"), cs, 7))
            statuses.append(i + 3)
        state["want"], state["statuses"] = want, statuses

        def handler(a):
            if a[0] == "gs":
                dev, out, src = procs.gs(a)
                point()
                with open(src, "rb") as f:
                    text = f.read()
                point()
                with open(out, "wb") as f:
                    f.write(text)
                state["rendered"].append((out, dev, text))
                n = os.path.basename(out)
                return int(n[3]) + 3 if n.startswith("out") else 0
            _, paths, target = procs.convert(a)
            point()
            state["films"].append([open(p, "rb").read() for p in paths])
            return 4
        progs.handler = handler
        return bodies

    def verdict(run):
        for e in run.errors:
            if e is not None:
                if isinstance(e, Bad):
                    raise e
                raise Bad("%s of schedule %s: %r" % (scen, brief(run), e))
        same(run.results, state["statuses"], "statuses in schedule %s" % brief(run))
        got = {}
        for out, dev, text in state["rendered"]:
            if out in state["want"]:
                need(out not in got, "{} is rendered twice in schedule {}", out, brief(run))
                got[out] = (dev, text)
        same(got, state["want"], "rendered drawings in schedule %s" % brief(run))
        if "m1" in SCEN[scen]:
            a, b = canvas(0), canvas(1)
            bb = (a.bbox | b.bbox).scale(1.05)
            a.bbox = b.bbox = bb
            same(state["films"], [[alone(a), alone(b)]], "frames of the film in schedule %s" % brief(run))
        left = [n for n in os.listdir(scratch("tmp"))] + sorted(litter() - keep)
        same(left, [], "temporary files left behind in schedule %s" % brief(run))
    return make, verdict


progs = procs.Programs(None)
keep = set()


def brief(run):
    return " ".join("%d:%d" % (i, k) for i, (_, k, _) in enumerate(run.points) if k) or "(none)"


def litter():
    return {n for n in os.listdir("/tmp") if n.endswith((".ps", ".eps", ".png")) and os.path.isfile("/tmp/" + n)}


def alone(c, *args):
    p = scratch("alone.ps")
    c.save(p, *args)
    with open(p, "rb") as f:
        text = f.read()
    os.unlink(p)
    return text


def firsts(scen, b):
    """(prefix, whole subtree?) so that every schedule within the bound is covered once: the schedules without preemption alone,
    and the first preemption of each with everything below."""
    make, verdict = build(scen)
    out = []

    def walk(prefix):
        run = sched.one(make, prefix, traced)
        out.append((prefix, False))
        for p in sched.branches(run, len(prefix), b):
            if run.points[len(p) - 1][2]:
                out.append((p, True))
            else:
                walk(p)
    with progs:
        try:
            walk([])
        finally:
            tempfile.tempdir = None
    return out


def cases(tier):
    for dev in ("png256", "pngmono", "x"):
        for rc in (0, 1, 127, 255):
            yield ("answer", dev, rc)
    for n in NAMES:
        yield ("name", n)
    for k in range(4):
        yield ("fail", k)
    for s in SCEN:
        b = bound(s, tier)
        yield ("plain", s)
        ok, l = _guard(sys.modules[__name__], firsts, s, b)
        if not ok:
            yield ("broken", s, l)
            continue
        for p, deep in l:
            yield ("sched", s, b if deep else 0, tuple(p))


def tally(case, res):
    if case[0] == "sched":
        return {"schedules": res[1], "scheduling_points": res[2]}
    return {}


def check(case):
    keep.clear()
    keep.update(litter())
    try:
        with progs:
            return check1(case)
    finally:
        tempfile.tempdir = None


def check1(case):
    kind = case[0]
    if kind == "broken":
        raise Bad("%s: %s" % case[1:])
    if kind in ("plain", "sched"):
        make, verdict = build(case[1])
        if kind == "plain":
            run = sched.one(make, [], traced)
            verdict(run)
            again = sched.one(make, [], traced)
            if [p for p in run.points] != [p for p in again.points]:
                raise Exception("the schedule does not repeat itself")
            return (case[1], len(run.points))
        if not case[2]:
            run = sched.one(make, list(case[3]), traced)
            verdict(run)
            return (case[1], 1, len(run.points))
        return (case[1],) + sched.explore(make, list(case[3]), case[2], verdict, traced)
    fresh()
    os.mkdir(scratch("tmp"))
    tempfile.tempdir = scratch("tmp")
    log = []
    rc = case[2] if kind == "answer" else 0

    def handler(a):
        dev, out, src = procs.gs(a)
        with open(src, "rb") as f:
            log.append((dev, out, f.read()))
        return rc
    progs.handler = handler
    c = canvas(1)
    if kind == "fail":
        bad = (lambda: c.export(scratch("x.png"), "png256", "no", "number"), lambda: c.export(scratch("x.png"), "png256", size="no"),
               lambda: c.export(scratch("x.png"), nothing=1), lambda: vector.Canvas((1, 2)).export(scratch("x.png")))[case[1]]
        try:
            bad()
        except Exception as e:
            same(log, [], "renderer calls of a failed export")
            same(os.listdir(scratch("tmp")), [], "temporary files of a failed export")
            same(litter() - keep, set(), "temporary files of a failed export")
            return type(e).__name__
        raise Bad("a drawing that can not be saved is exported")
    if kind == "answer":
        same(c.export(scratch("x.png"), case[1]), rc, "status")
        same(log, [(case[1], scratch("x.png"), alone(c))], "renderer call")
        with open(scratch("d.ps"), "w") as f:
            f.write("drawing")
        same(vector.export(scratch("d.ps"), scratch("y.png"), case[1]), rc, "status")
        same(log[1:], [(case[1], scratch("y.png"), b"drawing")], "renderer call")
        with open(scratch("d.ps")) as f:
            same(f.read(), "drawing", "the exported file")
    else:
        os.mkdir(scratch("some dir"))
        name = case[1]
        out = scratch("some dir/" + name)
        os.makedirs(os.path.dirname(out), exist_ok=True)
        os.makedirs(os.path.dirname(scratch(name)), exist_ok=True)
        same(c.export(out), 0, "status")
        if "\n" not in name:
            src = scratch(name.replace(".png", ".ps"))
            with open(src, "wb") as f:
                f.write(b"drawing")
            same(vector.export(src, out), 0, "status")
            same(log[1:], [("png256", out, b"drawing")], "renderer call")
        same(log[0], ("png256", out, alone(c)), "renderer call")
    same(os.listdir(scratch("tmp")), [], "temporary files left behind")
    same(litter() - keep, set(), "temporary files left behind")
    return case
