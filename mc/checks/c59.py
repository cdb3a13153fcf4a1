"""The 36 programs of C52 and six on larger data and exports, each on two sets of data, cut off after every call (the objects are then dropped), and
the same with every call preceded by a refused one on the same kind of file. After every call the settings of the process are as they
were before it: folder, environment, file mask, resource limits, signal handlers, random, decimal, locale and recursion settings,
standard streams, import path, hooks, warning filters, builtins, threads, children, garbage collection; once the objects are dropped, the
same files are open as before, and nothing appeared outside the folder the program was given."""
import builtins, decimal, gc, locale, os, random, resource, signal, sys, tempfile, threading, time, warnings
from mc.core import same, need, refused, scratch, fresh
from mc import scripts, battery

LEVEL = "exploration"
RULE = "one case is one program, data set and cut; all are non-trivial"


def cases(tier):
    for n in sorted(scripts.SCRIPTS) + sorted(battery.WIDE):
        for v in (0, 1):
            for cut in range(1, 9):
                for bad in (0, 1):
                    yield (n, v, cut, bad)


def files():
    return sorted(os.readlink("/proc/self/fd/" + n) for n in os.listdir("/proc/self/fd") if os.path.exists("/proc/self/fd/" + n))


def children():
    try:
        return os.waitpid(-1, os.WNOHANG)
    except ChildProcessError:
        return None


def mask():
    m = os.umask(0)
    os.umask(m)
    return m


def state():
    return {
        "folder": os.getcwd(), "environment": dict(os.environ), "file mask": mask(), "random state": random.getstate(),
        "decimal context": repr(decimal.getcontext()), "locale": locale.setlocale(locale.LC_ALL), "recursion limit": sys.getrecursionlimit(),
        "standard streams": [id(f) for f in (sys.stdin, sys.stdout, sys.stderr)], "import path": list(sys.path), "arguments": list(sys.argv),
        "signal handlers": [repr(signal.getsignal(s)) for s in sorted(signal.valid_signals())], "warning filters": repr(warnings.filters),
        "hooks": [repr(f) for f in (sys.excepthook, sys.displayhook, sys.gettrace(), sys.getprofile(), threading.excepthook, sys.unraisablehook)],
        "limits": [resource.getrlimit(r) for r in (resource.RLIMIT_NOFILE, resource.RLIMIT_STACK, resource.RLIMIT_FSIZE, resource.RLIMIT_AS)],
        "builtins": sorted((k, id(v)) for k, v in vars(builtins).items() if k != "_"), "threads": threading.active_count(), "children": children(),
        "garbage collection": (gc.isenabled(), gc.get_threshold(), gc.get_debug()), "temporary folder": tempfile.tempdir, "priority": os.nice(0),
        "switch interval": sys.getswitchinterval(), "time zone": time.tzname, "meta path": [repr(type(f)) for f in sys.meta_path],
        "float text": repr(0.1), "file system encoding": sys.getfilesystemencoding()}


def unchanged(before, what):
    now = state()
    for k in before:
        same(now[k], before[k], "%s, %s" % (k, what))


def wrong():
    """Calls that fail."""
    from coral import frame, pf, rg, shapefile, table, raster
    d = scratch("wrong")
    os.makedirs(d, exist_ok=True)
    for n in ("x.p", "x.rg", "x.md", "x.shp", "x.dbf", "x.csv", "x.frame"):
        open(os.path.join(d, n), "wb").write(b"\x00\x01garbage\n\n")
    p = os.path.join(d, "x")
    for f in (lambda: pf.Reader(p + ".p"), lambda: rg.Reader(p), lambda: shapefile.Reader(p).shapes(), lambda: shapefile.Editor(p),
              lambda: table.readfile(p + ".frame", keys=["nokey"]), lambda: frame.load(p + ".frame"), lambda: pf.sf2pf(p, p + ".q", lambda r: r[0]),
              lambda: raster.ColorCanvas(0, -1).save(os.path.join(d, "no", "x")), lambda: pf.Writer(os.path.join(d, "no", "x"), 4).close(),
              lambda: shapefile.Writer(1).save(os.path.join(p + ".shp", "x"))):
        yield f


def check(case):
    # settings that nobody else would choose
    old = os.umask(0o026), sys.getrecursionlimit(), gc.get_threshold(), decimal.getcontext().prec, sys.getswitchinterval()
    filters = list(warnings.filters)
    sys.setrecursionlimit(1234)
    gc.set_threshold(654, 9, 8)
    decimal.getcontext().prec = 23
    sys.setswitchinterval(0.007)
    random.seed(str(case))
    os.environ["CORAL_MC_OWN"] = "1"
    signal.signal(signal.SIGINT, lambda *a: None)
    warnings.filterwarnings("error", "never seen")
    try:
        return explore(case)
    finally:
        os.umask(old[0])
        sys.setrecursionlimit(old[1])
        gc.set_threshold(*old[2])
        decimal.getcontext().prec = old[3]
        sys.setswitchinterval(old[4])
        del os.environ["CORAL_MC_OWN"]
        signal.signal(signal.SIGINT, signal.default_int_handler)
        warnings.filters[:] = filters


def explore(case):
    n, v, cut, bad = case
    fresh()
    tempfile.gettempdir()               # remembered by the standard library
    for k in ("rg", "p", "s", "y", "csv"):
        scripts.given(0, k)
        scripts.given(1, k)
    gc.collect()
    open_before, first = files(), state()
    there = sorted(os.listdir("."))
    c = scripts.Ctx("own")
    g = scripts.SCRIPTS[n](c, v) if n in scripts.SCRIPTS else battery.WIDE[n](v)
    w = wrong()
    calls = 0
    for i in range(cut):
        before = state()
        if bad:
            f = next(w, None)
            if f:
                try:
                    f()
                except Exception:
                    pass
                unchanged(before, "after a failing call")
        if next(g, g) is g:
            break
        calls += 1
        unchanged(before, "after call %d of %s" % (i, n))
    g.close()
    del g, c, w
    gc.collect()
    unchanged(first, "after %d calls of %s" % (calls, n))
    same(files(), open_before, "open files once %d calls of %s are done with" % (calls, n))
    new = sorted(set(os.listdir(".")) - set(there) - {"own", "wrong"} - ({"d.ps", "t.csv"} if n not in scripts.SCRIPTS else set()))
    same(new, [], "new files")
    return (n, v, calls, bad)
