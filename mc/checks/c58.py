"""The 36 programs of C52 and six on larger data, full of ties, and on exports, each on two sets of data, in a process of their own under every one of
these conditions: hash seeds 0..23 (thorough: 0..255); each module imported first; development mode and three other interpreter options; ASCII,
POSIX and UTF-8 locales; four file masks; four working folders; other states of the random and decimal modules; frequent, rare and no garbage
collection; as a thread; without standard input, output or both; an empty environment. Thorough: all pairs of conditions of
different kinds. Every call must show what it shows in the plain process."""
import itertools, os, pickle, subprocess, sys
from mc import core
from mc.core import same, need, scratch, fresh, Bad

LEVEL = "exploration"
RULE = "one case is one condition (or pair of conditions) and all programs; non-trivial: all of them (the conditions differ from the plain process)"
ASSUMPTIONS = ["assertions are on (-O asks for values not to be checked)", "there is a standard error stream"]
LIMIT = 120
NAMES = ("buffer simplify gradient rgwriter rgreader pfwriter pfreader shpwriter shpreader shpiter editor canvas figures copies bw gray color "
         "tqdm frame bbox fields stats table names coord convert shpz").split()
MODULES = "bbox coord frame gradient grid names pf proj raster rg shapefile stats table tqdm vector".split()

# kind -> conditions: (environment, interpreter options, settings made by mc/alone.py)
CONDITIONS = {
    "first": [({}, (), {"first": (m,)}) for m in MODULES] + [({}, (), {"first": tuple(MODULES[::-1])})],
    "options": [({}, o, {}) for o in (("-X", "dev"), ("-B", "-q"), ("-b",), ("-I",))],
    "locale": [(dict(e, PYTHONUTF8="0", PYTHONCOERCECLOCALE="0"), (), {}) for e in ({"LC_ALL": "C"}, {"LC_ALL": "POSIX"}, {"LC_ALL": "C.UTF-8"}, {"LANG": "xx_YY", "LC_ALL": ""})],
    "umask": [({}, (), {"umask": u}) for u in (0, 0o77, 0o27, 0o2)],
    "cwd": [({}, (), {"cwd": d}) for d in ("a b", "\u00e9", "a/b/c", "x" * 200)],
    "random": [({}, (), {"random": r}) for r in (0, 1)],
    "decimal": [({}, (), {"decimal": p}) for p in (1, 6)],
    "gc": [({}, (), {"gc": g}) for g in ((1, 1, 1), (0, 0, 0), (100000, 1, 1))],
    "thread": [({}, (), {"thread": 1})],
    "close": [({}, (), {"close": c}) for c in ((0,), (1,), (0, 1))],
    "environment": [(None, (), {}), ({"COLUMNS": "10", "LINES": "2", "TERM": "dumb", "NO_COLOR": "1"}, (), {}), ({"HOME": "/nonexistent", "TMPDIR": "/tmp"}, (), {})],
}


def cases(tier):
    for s in range(24 if tier == "quick" else 256):
        yield ("seed", s)
    for k in sorted(CONDITIONS):
        for i in range(len(CONDITIONS[k])):
            yield (k, i)
    if tier != "quick":
        for k, l in itertools.combinations(sorted(CONDITIONS), 2):
            for i, j in itertools.product(range(len(CONDITIONS[k])), range(len(CONDITIONS[l]))):
                if (k, i, l) != ("cwd", 1, "locale"):      # such a folder has no name there
                    yield (k, i, l, j)


def shown(conds):
    env, opts, settings = {"PYTHONHASHSEED": "0", "PATH": os.environ.get("PATH", "/bin"), "LC_ALL": "C.UTF-8", "PYTHONDONTWRITEBYTECODE": "1"}, (), {}
    for e, o, s in conds:
        if e is None:
            env = {k: v for k, v in env.items() if k.startswith("PYTHONHASH")}
        else:
            env.update(e)
        opts += o
        settings.update(s)
    out = scratch("out")
    from mc import scripts
    jobs = [(n, v) for n in NAMES + ["proj " + k for k in sorted(scripts.PROJ)]
            + ["w names", "w table", "w drawing", "w stats", "w export", "w words"] for v in (0, 1)]
    p = subprocess.run([sys.executable, "-B"] + list(opts) + [os.path.join(core.VERIF, "mc", "alone.py"), core.VERIF, core.REPO, out, ascii(settings), ascii(jobs)],
                       stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=120)
    need(p.returncode == 0, "the process fails: {}", p.stderr[-300:].decode("utf-8", "replace"))
    with open(out, "rb") as f:
        res = pickle.load(f)
    os.unlink(out)
    return jobs, res


_plain = []


def check(case):
    fresh()
    if not _plain:
        _plain.append(shown([])[1])
    if case[0] == "seed":
        conds = [({"PYTHONHASHSEED": str(case[1])}, (), {})]
    else:
        conds = [CONDITIONS[k][i] for k, i in zip(case[::2], case[1::2])]
    for again in range(2):
        jobs, res = shown(conds)
        if res != _plain[0] and not again:
            # midnight may have passed
            _plain[0] = shown([])[1]
            continue
        break
    for j in jobs:
        kind, want = _plain[0][j]
        need(kind == "ok", "{} fails in a plain process: {}", j, want)
        kind, got = res[j]
        need(kind == "ok", "{} fails under {}: {}", j, conds, got)
        for i, (g, w) in enumerate(itertools.zip_longest(got, want)):
            same(g, w, "call %d of %s under %r" % (i, j, conds))
    return case
