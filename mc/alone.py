"""Runs all programs of scripts.py in this process, under conditions given on the command line, and stores what they show."""
import sys


def main(verif, repo, out, cond, jobs):
    sys.path[:0] = [verif, repo]
    import ast, importlib, pickle
    cond, jobs = ast.literal_eval(cond), ast.literal_eval(jobs)
    for m in cond.get("first", ()):
        importlib.import_module("coral." + m)
    import gc, os, random, tempfile, threading, shutil
    from mc import core
    core.SCRATCH = tempfile.mkdtemp(prefix="coral-mc-")
    work = tempfile.mkdtemp(prefix="coral-mc-")
    res = {}
    try:
        os.makedirs(os.path.join(work, cond.get("cwd", ".")), exist_ok=True)
        os.chdir(os.path.join(work, cond.get("cwd", ".")))
        if "umask" in cond:
            os.umask(cond["umask"])
        if "random" in cond:
            random.seed(cond["random"])
        if "gc" in cond:
            gc.set_threshold(*cond["gc"])
        if "decimal" in cond:
            import decimal
            decimal.getcontext().prec = cond["decimal"]
            decimal.DefaultContext.prec = cond["decimal"]
        for fd in cond.get("close", ()):
            os.close(fd)
            setattr(sys, ("stdin", "stdout", "stderr")[fd], None)
        from mc import battery

        def run():
            for j in jobs:
                try:
                    res[j] = ("ok", battery.show(*j))
                except Exception as e:
                    res[j] = ("bad", "%s: %s" % (type(e).__name__, e))
        if cond.get("thread"):
            t = threading.Thread(target=run)
            t.start()
            t.join()
        else:
            run()
        with open(out, "wb") as f:
            pickle.dump(res, f)
    finally:
        os.chdir("/")
        shutil.rmtree(core.SCRATCH, ignore_errors=True)
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    main(*sys.argv[1:])
