"""Which classes of arguments do the checks hand to every function of coral?  Runs the checks on an instrumented scratch copy and
prints, per function and argument, the classes that were seen; to find inputs that no check ever uses.

usage: inputs.py OUT [Cnn ...]
"""
import glob, os, shutil, subprocess, sys
V, PY = "/verif", "/opt/venv/bin/python"
FOOT = '''

def _watch():
    import functools, math, os, types
    out, seen = %r, set()
    counts = {}

    def mag(x):
        if x == 0:
            return "0"
        if x != x or x in (math.inf, -math.inf):
            return repr(x)
        e = math.floor(math.log10(abs(x)))
        return ("-" if x < 0 else "") + "1e%%d" %% (e if -3 <= e <= 9 else e // 3 * 3) + ("" if x == int(x) else "f")

    def size(n):
        return str(n) if n <= 20 else "<%%d" %% (1 << n.bit_length())

    def kinds(x, d=0):
        t = type(x).__name__
        if x is None or isinstance(x, bool):
            return [repr(x)]
        if isinstance(x, (int, float)):
            return [t + " " + mag(x)]
        if isinstance(x, (str, bytes)):
            o = [t + " len " + size(len(x))]
            if isinstance(x, str):
                for c in set(x[:200]):
                    o.append("str " + ("letter" if c.isascii() and c.islower() else "LETTER" if c.isascii() and c.isupper() else
                                       "digit" if c.isascii() and c.isdigit() else repr(c) if c.isascii() else "u%%d" %% len(c.encode())))
            return o
        if isinstance(x, (list, tuple)):
            o = [t + " len " + size(len(x))]
            if d < 2:
                for y in x[:6]:
                    o += [t + "[" + k + "]" for k in kinds(y, d + 1)]
            return o
        return [t]

    def note(key):
        if key not in seen:
            seen.add(key)
            fd = os.open(out, os.O_WRONLY | os.O_APPEND | os.O_CREAT)
            os.write(fd, (key + "\\n").encode("utf-8", "backslashreplace"))
            os.close(fd)

    def wrap(f, name):
        args = f.__code__.co_varnames[:f.__code__.co_argcount]

        @functools.wraps(f)
        def g(*a, **k):
            try:
                for n, v in list(zip(args, a)) + list(k.items()):
                    if n == "self":
                        m = getattr(v, "_calls_" + f.__name__, 0) + 1 if hasattr(v, "__dict__") else 0
                        if m and 0:
                            object.__setattr__(v, "_calls_" + f.__name__, m)
                        continue
                    for c in kinds(v):
                        note(name + "." + n + "\\t" + c)
                note(name + "\\tcalled with " + ",".join(list(args[:len(a)]) + sorted(k)))
            except Exception as e:
                note(name + "\\t!" + repr(e))
            return f(*a, **k)
        return g
    mod = __name__.split(".")[-1]
    for n, v in list(globals().items()):
        if isinstance(v, types.FunctionType) and v.__module__ == __name__ and n != "_watch":
            globals()[n] = wrap(v, mod + "." + n)
        elif isinstance(v, type) and v.__module__ == __name__:
            for m, w in list(vars(v).items()):
                if isinstance(w, types.FunctionType):
                    setattr(v, m, wrap(w, mod + "." + n + "." + m))


_watch()
'''


def main():
    out = os.path.abspath(sys.argv[1])
    checks = sys.argv[2:] or sorted(os.path.basename(f)[:-3].upper() for f in glob.glob(V + "/mc/checks/c[0-9][0-9].py"))
    d = "/tmp/inputs-repo"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, ignore=shutil.ignore_patterns(".git", "__pycache__"))
    for f in glob.glob(d + "/coral/*.py"):
        if os.path.basename(f) not in ("__init__.py", "recipes.py"):
            with open(f) as g:
                s = g.read()
            i = s.find("\nif __name__ ==")
            foot = FOOT % (out + ".raw")
            s = s + foot if i < 0 else s[:i] + foot + s[i:]
            with open(f, "w") as g:
                g.write(s)
    if os.path.exists(out + ".raw"):
        os.unlink(out + ".raw")
    for c in checks:
        r = subprocess.run(["./check", c], cwd=V, env=dict(os.environ, CORAL_MC_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print(c, r.returncode, [l for l in r.stdout.splitlines() if l.startswith("what")][:1], flush=True)
    seen = {}
    with open(out + ".raw") as f:
        for line in f:
            k, v = line.rstrip("\n").split("\t", 1)
            seen.setdefault(k, set()).add(v)
    with open(out, "w") as f:
        for k in sorted(seen):
            f.write("%s: %s\n" % (k, "; ".join(sorted(seen[k]))))
    shutil.rmtree(d)


main()
