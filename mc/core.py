"""Exhaustive explorer: runs every element of a bounded space on the real code.

A check module (mc/checks/<id>.py) provides either

  exploration / fault enumeration:
     LEVEL = "exploration" | "fault_enumeration"
     RULE  = how cases are made and what makes one non-trivial
     cases(tier)  -> iterable of cases (literals), deterministic, simplest first
     check(case)  -> observed outcome (hashable; None = trivial); raises on disagreement

or explicit-state search:
     LEVEL = "model_checking"
     inits(tier)      -> list of initial configurations
     depth(tier)      -> bound on history length
     run(init, hist)  -> (key, enabled_ops): replays hist from scratch on a fresh real object in
                         lock step with the reference model; raises on disagreement

and optionally ASSUMPTIONS, LIMIT (CPU seconds per case), tally(case, outcome) -> further counts to add up.
"""
import ast, hashlib, importlib, itertools, json, multiprocessing, os, pickle, resource, shutil, signal
import sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.abspath(os.environ.get("CORAL_MC_REPO", "/repo"))     # a scratch copy when bugs are planted
MP = multiprocessing.get_context("fork")
NPROC = max(1, min(int(os.environ.get("CORAL_MC_NPROC", 8)), len(os.sched_getaffinity(0))))


class Bad(Exception):
    """The real code disagrees with the property."""


class Hang(BaseException):
    """A case used more than its CPU allowance."""


def need(cond, fmt, *args):
    if not cond:
        raise Bad(fmt.format(*args))


def same(got, want, what):
    if got != want:
        raise Bad("%s: got %r, expected %r" % (what, got, want))


def refused(f, what, *args):
    """f must raise an ordinary exception."""
    try:
        r = f(*args)
    except Exception as e:
        return type(e).__name__
    raise Bad("%s was accepted (returned %r)" % (what, r))


def _alarm(signum, frame):
    raise Hang()


SCRATCH = None      # per worker process scratch directory (also its working directory)


def scratch(name=""):
    return os.path.join(SCRATCH, name) if name else SCRATCH


def fresh():
    """Empties the scratch directory."""
    for n in os.listdir(SCRATCH):
        p = os.path.join(SCRATCH, n)
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p)
        else:
            os.unlink(p)
    return SCRATCH


def freeze(o, depth=0, _seen=None):
    """Deep hashable snapshot of a real object (private state included; over-fine is sound)."""
    if _seen is None:
        _seen = {}
    if o is None or isinstance(o, (int, float, str, bytes, bool, complex)):
        return (type(o).__name__, o) if not isinstance(o, float) else ("float", repr(o))
    if id(o) in _seen:
        return ("ref", _seen[id(o)])
    _seen[id(o)] = len(_seen)
    if isinstance(o, (list, tuple)) or type(o).__name__ in ("deque",):
        return (type(o).__name__,) + tuple(getattr(o, "_fields", ())) + tuple(freeze(x, depth + 1, _seen) for x in o)
    if isinstance(o, (set, frozenset)):
        return (type(o).__name__,) + tuple(sorted((repr(freeze(x, depth + 1, _seen)) for x in o)))
    if isinstance(o, dict):
        return ("dict",) + tuple((freeze(k, depth + 1, _seen), freeze(v, depth + 1, _seen)) for k, v in o.items())
    if hasattr(o, "tobytes"):
        return (type(o).__name__, o.tobytes())
    if callable(o) and not hasattr(o, "__dict__"):
        return ("callable", getattr(o, "__qualname__", "?"))
    if isinstance(o, type) or callable(o):
        return ("callable", getattr(o, "__qualname__", type(o).__name__))
    d = {}
    for c in type(o).__mro__:
        s = c.__dict__.get("__slots__", ())
        for n in ((s,) if isinstance(s, str) else s):
            if hasattr(o, n):
                d[n] = getattr(o, n)
    d.update(getattr(o, "__dict__", {}))
    return (type(o).__name__,) + tuple((k, freeze(d[k], depth + 1, _seen)) for k in sorted(d))


# ---------------------------------------------------------------------------------------------------

def _setup_worker():
    global SCRATCH
    SCRATCH = tempfile.mkdtemp(prefix="coral-mc-")
    os.chdir(SCRATCH)
    devnull = os.open(os.devnull, os.O_RDWR)
    for fd in (0, 1, 2):
        os.dup2(devnull, fd)
    sys.stdout = open(os.devnull, "w")
    sys.stderr = open(os.devnull, "w")
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.signal(signal.SIGALRM, _alarm)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def _guard(mod, f, *args):
    """Runs f under the alarms; returns (True, result) or (False, message)."""
    limit = getattr(mod, "LIMIT", 20)
    try:
        try:
            signal.setitimer(signal.ITIMER_VIRTUAL, limit, 1)
            signal.setitimer(signal.ITIMER_REAL, 10 * limit, 1)
            return True, f(*args)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            signal.setitimer(signal.ITIMER_REAL, 0)
    except Bad as e:
        return False, str(e)
    except Hang:
        return False, "did not terminate within %g CPU seconds" % limit
    except (Exception, AssertionError, SystemExit, RecursionError, MemoryError) as e:
        tb = traceback.extract_tb(e.__traceback__)
        fr = ([fr for fr in tb if "/coral/" in fr.filename] or list(tb))[-1]
        return False, "unexpected %s: %s (at %s:%s)" % (type(e).__name__, e, os.path.basename(fr.filename), fr.lineno)


def _parallel(fn, nproc):
    """Runs fn(w, n) in nproc forked workers, returns the list of results."""
    jobs = []
    for w in range(nproc):
        r, wr = MP.Pipe(duplex=False)

        def body(w=w, wr=wr):
            code = 0
            try:
                _setup_worker()
                try:
                    res = ("ok", fn(w, nproc))
                except BaseException as e:
                    res = ("blame", _blame(e)) if _blame(e) else ("error", traceback.format_exc())
                wr.send(res)
                wr.close()
            except BaseException:
                code = 1
            finally:
                if SCRATCH:
                    os.chdir("/")
                    shutil.rmtree(SCRATCH, ignore_errors=True)
                os._exit(code)
        p = MP.Process(target=body)
        p.start()
        wr.close()
        jobs.append((p, r))
    out = []
    for p, r in jobs:
        try:
            out.append(r.recv())
        except EOFError:
            out.append(("error", "worker died (exit %s)" % p.exitcode))
        p.join()
    errs = [m for k, m in out if k == "error"]
    if errs:
        raise HarnessError(errs[0])
    for k, m in out:
        if k == "blame":
            raise Broken(m)
    return [m for k, m in out]


class HarnessError(Exception):
    pass


class Broken(Exception):
    """The code under test failed outside a case: on import, or while cases are made with its help."""


def _blame(e):
    """'unexpected ...' when the innermost frame of an error is the code under test (or something it called), else None."""
    tb = traceback.extract_tb(e.__traceback__)
    own = [i for i, fr in enumerate(tb) if os.path.abspath(fr.filename).startswith(VERIF + "/")]
    cor = [i for i, fr in enumerate(tb) if os.path.abspath(fr.filename).startswith(REPO + "/coral/")]
    if isinstance(e, SyntaxError) and (e.filename or "").startswith(REPO + "/"):
        return "unexpected %s: %s" % (type(e).__name__, e)
    if not cor or own and own[-1] > cor[-1]:
        return None
    return "unexpected %s: %s (at %s:%s)" % (type(e).__name__, e, os.path.basename(tb[cor[-1]].filename), tb[cor[-1]].lineno)


def _h(o):
    return hash(repr(o))


def explore_cases(mod, tier, known):
    def work(w, n):
        evals = 0
        seen, outs = set(), set()
        samples, fails, kn = [], [], []
        last = None
        tally = {}
        for i, case in enumerate(mod.cases(tier)):
            if i % n != w:
                continue
            evals += 1
            ok, res = _guard(mod, mod.check, case)
            if not ok:
                r = repr(case)
                if r in known:
                    kn.append((i, r, res))
                    continue
                fails.append((i, r, res))
                break
            if hasattr(mod, "tally"):
                for k, v in mod.tally(case, res).items():
                    tally[k] = tally.get(k, 0) + v
            if res is not None:
                seen.add(_h(case))
                outs.add(_h(res))
                if len(samples) < 1:
                    samples.append((i, repr(case)[:600], repr(res)[:200]))
                last = (i, case, res)
        if last:
            samples.append((last[0], repr(last[1])[:600], repr(last[2])[:200]))
        return evals, seen, outs, samples, fails, kn, tally
    nproc = min(NPROC, getattr(mod, "NPROC", NPROC))
    res = _parallel(work, nproc)
    evals = sum(r[0] for r in res)
    seen = set().union(*(r[1] for r in res))
    outs = set().union(*(r[2] for r in res))
    samples = sorted(s for r in res for s in r[3])
    fails = sorted(f for r in res for f in r[4])
    kn = sorted(f for r in res for f in r[5])
    cov = dict(evaluations=evals, distinct_nontrivial=len(seen), distinct_outcomes=len(outs), rule=mod.RULE,
               exhaustive=not fails,
               samples=[dict(index=i, case=c, outcome=o) for i, c, o in samples[:3] + samples[-3:]])
    for r in res:
        for k, v in r[6].items():
            cov[k] = cov.get(k, 0) + v
    return cov, [(c, m) for i, c, m in fails], [(c, m) for i, c, m in kn]


def explore_states(mod, tier, known):
    """Level-synchronous breadth-first search; every transition is replayed from scratch on the real code."""
    bound = mod.depth(tier)
    seen = {}
    states = transitions = leaves = 0
    samples, kn = [], []
    # level 0
    frontier = []
    todo = [(init, ()) for init in mod.inits(tier)]
    level = 0
    maxdepth = 0
    capped = False
    while todo:
        chunks = todo

        def work(w, n, chunks=chunks):
            out = []
            for i in range(w, len(chunks), n):
                init, hist = chunks[i]
                ok, res = _guard(mod, mod.run, init, hist)
                if not ok:
                    out.append((i, False, res, None))
                    if repr((init, hist)) not in known:
                        break
                else:
                    key, enabled = res
                    out.append((i, True, hashlib.blake2b(repr((init, key)).encode(), digest_size=16).digest(),
                                list(enabled)))
            return out
        nproc = NPROC if len(todo) > 64 else 1
        res = sorted(x for part in _parallel(work, nproc) for x in part)
        fails = [(i, m) for i, ok, m, _ in res if not ok and repr(chunks[i]) not in known]
        kn += [(repr(chunks[i]), m) for i, ok, m, _ in res if not ok and repr(chunks[i]) in known]
        if level:
            transitions += len(res)
        nxt = []
        for i, ok, key, enabled in res:
            if not ok:
                continue
            init, hist = chunks[i]
            if key in seen:
                leaves += 1
                continue
            seen[key] = level
            states += 1
            maxdepth = max(maxdepth, level)
            if level >= bound or not enabled:
                leaves += 1
                if level >= bound and enabled:
                    capped = True
                if len(samples) < 6:
                    samples.append(dict(init=repr(init)[:200], history=repr(hist)[:500]))
                continue
            nxt += [(init, hist + (op,)) for op in enabled]
        if fails:
            cov = dict(states=states, transitions=transitions, traces_validated_against_impl=leaves, samples=samples,
                       exhaustive=False, max_depth=level)
            return cov, [(repr(chunks[i]), m) for i, m in fails], kn
        todo = nxt
        level += 1
    if not samples:
        samples = [dict(init=repr(mod.inits(tier)[0]), history="()")]
    cov = dict(states=states, transitions=transitions, traces_validated_against_impl=leaves, samples=samples,
               exhaustive=True, max_depth=maxdepth, depth_bound=bound,
               bound_reached=capped,
               explanation="breadth-first search over real objects; %s. Each history is re-executed from scratch on the real "
               "code next to the reference model; traces_validated_against_impl counts the maximal ones (ending in an "
               "already known state or at the bound)." %
               ("the depth bound cut the search: complete up to that depth" if capped else
                "the reachable state space closed before the depth bound"))
    return cov, [], kn


def load_known(pid):
    """known_findings.txt: 'finding: property=<id> case=<repr> :: what fails' and 'fixed: ...' lines."""
    known = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("finding: property=%s " % pid):
                rest = line.split(" case=", 1)[1]
                case, what = rest.rsplit(" :: ", 1)
                known[case] = what.strip()
    return known


def import_coral():
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    import coral
    assert os.path.abspath(coral.__file__).startswith(REPO + "/"), coral.__file__


def broken(pid, tier, seed, t0, msg):
    """The code under test cannot even be loaded or used to make the cases: a violation of everything it promises."""
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    cov = dict(evaluations=1, distinct_nontrivial=1, rule="none could be made", exhaustive=False, samples=[dict(what=msg)], bounds="")
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=cov, assumptions=[],
                       wall_s=round(time.time() - t0, 3), violations=1), f, indent=1)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    path = os.path.join(VERIF, "replays", pid + ".json")
    with open(path, "w") as f:
        json.dump(dict(property=pid, case="None", message=msg), f, indent=1)
    print("what: " + msg[:2000])
    print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    i = 1
    while i < len(argv):
        if argv[i] == "--tier":
            tier = argv[i + 1]; i += 2
        elif argv[i] == "--replay":
            replay = argv[i + 1]; i += 2
        else:
            raise SystemExit(2)
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    t0 = time.time()
    sys.setrecursionlimit(5000)
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, 60)
    try:
        import_coral()
        mod = importlib.import_module("mc.checks." + pid.lower())
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    except Hang:
        return broken(pid, tier, seed, t0, "importing the package does not terminate")
    except Exception as e:
        if not _blame(e):
            raise
        return broken(pid, tier, seed, t0, "importing the package: " + _blame(e))
    if replay:
        with open(replay) as f:
            d = json.load(f)
        case = ast.literal_eval(d["case"])

        def work(w, n):
            if hasattr(mod, "check"):
                return _guard(mod, mod.check, case)
            return _guard(mod, mod.run, *case)
        (ok, res), = _parallel(work, 1)
        print("replay of %s: %s" % (pid, "held" if ok else res))
        if not ok:
            print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 0 if ok else 1
    known = load_known(pid)
    try:
        if mod.LEVEL == "model_checking":
            cov, fails, kn = explore_states(mod, tier, known)
        else:
            cov, fails, kn = explore_cases(mod, tier, known)
    except Broken as e:
        return broken(pid, tier, seed, t0, "preparing the cases: %s" % e)
    if mod.LEVEL != "model_checking":
        if mod.LEVEL not in ("exploration", "fault_enumeration"):
            raise HarnessError("bad level")
    if not fails and not cov.get("states", cov.get("distinct_nontrivial")):
        raise HarnessError("vacuous exploration")
    cov["bounds"] = " ".join((mod.__doc__ or "").split())
    ev = dict(property=pid, tier=tier, seed=seed, level=mod.LEVEL, coverage=cov,
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])), wall_s=round(time.time() - t0, 3),
              violations=len(fails))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for c, m in kn:
        print("KNOWN-FINDING: property=%s %s" % (pid, known[c]))
    short = {k: v for k, v in cov.items() if isinstance(v, (int, bool))}
    print("%s %s %s wall=%.1fs" % (pid, tier, short, time.time() - t0))
    if fails:
        case, msg = fails[0]
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", pid + ".json")
        with open(path, "w") as f:
            json.dump(dict(property=pid, case=case, message=msg), f, indent=1)
        print("case: " + case[:2000])
        print("what: " + msg[:2000])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    return 0


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1:])
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
