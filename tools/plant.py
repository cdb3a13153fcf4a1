"""Confirms planted bugs in scratch copies and writes /verif/seeded.  usage: plant.py [--all] [id prefix ...]

Definitions are in tools/plants.py: id, prop, file, edits [(old, new)], needs, breaks, demo (Python source).
"""
import json, os, re, shutil, subprocess, sys
V = "/verif"
sys.path.insert(0, V + "/tools")
sys.dont_write_bytecode = True
from plants import PLANTS
PY = "/opt/venv/bin/python"
BASE = "9482272"
args = sys.argv[1:]
allc = "--all" in args
args = [a for a in args if a != "--all"]
DEMO_SH = """#!/bin/bash
PY=/opt/venv/bin/python
[ -x "$PY" ] || PY=python3
export PYTHONDONTWRITEBYTECODE=1
exec "$PY" -B "$(dirname "$0")/demo.py"
"""
DEMO_HEAD = """import os, sys, tempfile, math, shutil, io
sys.path.insert(0, os.getcwd())
_dir = tempfile.mkdtemp(prefix="demo-")
import atexit
atexit.register(shutil.rmtree, _dir, True)
os.chdir(_dir)
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def blame(f):
    out = sh(["git", "-C", "/repo", "blame", "-s", BASE + "..", "--", f]).stdout.splitlines()
    return [l.startswith("^") for l in out]


def one(p):
    d = "/tmp/plant-" + p["id"]
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copytree("/repo", d + "/repo", symlinks=True)
    r = d + "/repo"
    try:
        for f, old, new in [(e if len(e) == 3 else (p["file"],) + tuple(e)) for e in p["edits"]]:
            s = open(r + "/" + f).read()
            if s.count(old) != 1:
                return "EDIT MATCHES %d TIMES: %r" % (s.count(old), old)
            open(r + "/" + f, "w").write(s.replace(old, new))
        diff = sh(["git", "-C", r, "diff"]).stdout
        orig = tot = 0
        cur = None
        for l in diff.splitlines():
            if l.startswith("+++"):
                cur = l[6:]; bl = blame(cur)
            elif l.startswith("@@"):
                n = int(re.match(r"@@ -(\d+)", l).group(1))
            elif l.startswith("-") and not l.startswith("---"):
                tot += 1; orig += bl[n - 1]; n += 1
            elif l.startswith(" "):
                n += 1
        warn = "" if orig == tot and tot else " [orig %d/%d]" % (orig, tot)
        s = V + "/seeded/" + p["id"]
        os.makedirs(s, exist_ok=True)
        open(s + "/patch.diff", "w").write(diff)
        open(s + "/demo.py", "w").write(DEMO_HEAD + p["demo"].strip() + "\n")
        open(s + "/demo.sh", "w").write(DEMO_SH)
        os.chmod(s + "/demo.sh", 0o755)
        json.dump(dict(property=p["prop"], needs=p["needs"], what_it_breaks=p["breaks"]), open(s + "/meta.json", "w"), indent=1)
        t = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--doctest-modules", "--ignore=coral/recipes.py", "tests", "coral"],
               cwd=r, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
        if "11 passed" not in t.stdout or "failed" in t.stdout:
            return "TESTS: " + t.stdout[-600:] + warn
        a = sh([s + "/demo.sh"], cwd="/repo", timeout=200)
        b = sh([s + "/demo.sh"], cwd=r, timeout=200)
        if a.returncode != 0:
            return "DEMO FAILS ON CLEAN TREE: " + a.stdout[-500:] + warn
        if b.returncode == 0:
            return "DEMO PASSES WITH PATCH" + warn
        env = dict(os.environ, CORAL_MC_REPO=r)
        v = d + "/verif"
        shutil.copytree(V, v, ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "replays"))
        ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")] if allc else [p["prop"]]
        res = []
        for i in ids:
            c = sh(["./check", i], cwd=v, env=env)
            if c.returncode:
                what = [l for l in c.stdout.splitlines() if l.startswith("what:")]
                res.append("%s=%d %s" % (i, c.returncode, what[0][:160] if what else c.stdout[-300:]))
        own = any(x.startswith(p["prop"] + "=1") for x in res)
        return ("caught  " if own else "MISSED  ") + " | ".join(res) + warn
    finally:
        shutil.rmtree(d, ignore_errors=True)


for p in PLANTS:
    if args and not any(p["id"].startswith(a) for a in args):
        continue
    print(p["id"], p["prop"], one(p), flush=True)
