"""Mutation analysis of the checks: applies every first-order mutant of one module in a scratch copy and runs the checks that
cover the module on it.  usage: mutate.py module [out.jsonl] [--from N] ; survivors are printed with their source line."""
import ast, copy, json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
import queue
MAP = {"bbox": "C02 C01 C31", "coord": "C03 C06 C07 C04 C05 C08 C34", "proj": "C10 C09 C11", "gradient": "C12", "grid": "C13 C14 C47",
       "rg": "C47 C14 C15", "pf": "C17 C16 C43 C18", "shapefile": "C48 C49 C19 C20 C22 C21 C23 C24 C50", "raster": "C25 C29 C27 C26 C28",
       "vector": "C30 C32 C31 C45 C44", "frame": "C33 C34", "table": "C46 C35 C36", "stats": "C37", "names": "C38 C39 C40", "tqdm": "C42 C41"}
CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt], ast.Eq: [ast.NotEq],
       ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Div], ast.Mod: [ast.Add],
       ast.Pow: [ast.Mult], ast.LShift: [ast.RShift], ast.RShift: [ast.LShift], ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd],
       ast.BitXor: [ast.BitOr]}
NAMES = {"min": "max", "max": "min", "sin": "cos", "cos": "sin", "floor": "ceil", "ceil": "floor", "round": "int", "radians": "degrees",
         "degrees": "radians", "append": None, "asin": "acos", "acos": "asin", "sorted": "list", "any": "all", "all": "any", "range": None}


def mutants(src):
    """Yields (line, description, new source)."""
    tree = ast.parse(src)
    nodes = [n for n in ast.walk(tree)]
    docs, skip = set(), set()
    for n in nodes:
        if isinstance(n, (ast.Module, ast.FunctionDef, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr) and \
                isinstance(n.body[0].value, ast.Constant):
            docs.add(id(n.body[0])); docs.add(id(n.body[0].value))
        if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and getattr(n.test.left, "id", "") == "__name__":
            skip.update(id(m) for m in ast.walk(n))
        if isinstance(n, ast.FunctionDef) and n.name == "__main__":
            skip.update(id(m) for m in ast.walk(n))
        if isinstance(n, ast.Raise):
            skip.update(id(m) for m in ast.walk(n))

    def out(n, what):
        return getattr(n, "lineno", 0), what, ast.unparse(ast.fix_missing_locations(tree))
    for n in nodes:
        if id(n) in docs or id(n) in skip:
            continue
        if isinstance(n, ast.Compare):
            for i, o in enumerate(n.ops):
                for new in CMP.get(type(o), []):
                    n.ops[i] = new()
                    yield out(n, "%s->%s" % (type(o).__name__, new.__name__))
                n.ops[i] = o
        if isinstance(n, (ast.BinOp, ast.AugAssign)):
            o = n.op
            if not (isinstance(o, ast.Mod) and isinstance(getattr(n, "left", None), ast.Constant) and isinstance(n.left.value, str)):
                for new in BIN.get(type(o), []):
                    n.op = new()
                    yield out(n, "%s->%s" % (type(o).__name__, new.__name__))
                n.op = o
        if isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)) and n.value is not None and n.value is not Ellipsis:
            v = n.value
            for new in ([not v] if isinstance(v, bool) else [v + 1, v - 1] if isinstance(v, int) else [v * 1.01, v + 1]):
                n.value = new
                yield out(n, "%r->%r" % (v, new))
            n.value = v
        if isinstance(n, ast.Constant) and isinstance(n.value, (str, bytes)) and n.value and id(n) not in docs:
            v = n.value
            news = []
            if isinstance(v, str):
                if v[0] in "<>" and len(v) < 12:
                    news.append({"<": ">", ">": "<"}[v[0]] + v[1:])
                news += [v + "x", v[:-1]]
            else:
                news += [v + b"x", v[:-1]]
            for new in news:
                n.value = new
                yield out(n, "%r->%r" % (v[:40], new[:40]))
            n.value = v
        if isinstance(n, ast.BoolOp):
            o = n.op
            n.op = ast.Or() if isinstance(o, ast.And) else ast.And()
            yield out(n, "and<->or")
            n.op = o
            vs = n.values
            for i in range(len(vs)):
                if len(vs) > 1:
                    n.values = vs[:i] + vs[i + 1:]
                    if len(n.values) == 1:
                        n.values = n.values * 2
                    yield out(n, "drop operand %d" % i)
            n.values = vs
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            o = n.op
            n.op = ast.UAdd() if isinstance(o, ast.USub) else ast.Not()
            if isinstance(o, ast.USub):
                yield out(n, "-x -> x")
            else:
                x = n.operand
                n.operand = ast.UnaryOp(ast.Not(), x)
                yield out(n, "not x -> x")
                n.operand = x
            n.op = o
        if isinstance(n, (ast.If, ast.IfExp)):
            t = n.test
            for v in (True, False):
                n.test = ast.Constant(v)
                yield out(n, "test->%s" % v)
            n.test = t
        if isinstance(n, ast.Call):
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                a = n.args
                for i in range(len(a) - 1):
                    n.args = a[:i] + [a[i + 1], a[i]] + a[i + 2:]
                    yield out(n, "swap args %d,%d" % (i, i + 1))
                n.args = a
            if n.keywords:
                k = n.keywords
                for i in range(len(k)):
                    n.keywords = k[:i] + k[i + 1:]
                    yield out(n, "drop keyword %s" % k[i].arg)
                n.keywords = k
        for field in ("id", "attr"):
            nm = getattr(n, field, None)
            if isinstance(nm, str) and NAMES.get(nm) and isinstance(getattr(n, "ctx", None), ast.Load):
                setattr(n, field, NAMES[nm])
                yield out(n, "%s->%s" % (nm, NAMES[nm]))
                setattr(n, field, nm)
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            for f in ("lower", "upper"):
                x = getattr(n.slice, f)
                if x is not None:
                    setattr(n.slice, f, None)
                    yield out(n, "slice without " + f)
                    setattr(n.slice, f, ast.BinOp(x, ast.Add(), ast.Constant(1)))
                    yield out(n, "slice %s + 1" % f)
                    setattr(n.slice, f, x)
        for fld in ("body", "orelse", "finalbody"):
            b = getattr(n, fld, None)
            if not isinstance(b, list):
                continue
            for i, st in enumerate(b):
                if id(st) in docs or id(st) in skip or not isinstance(st, ast.stmt):
                    continue
                if isinstance(st, (ast.Assign, ast.AugAssign, ast.Expr, ast.Return, ast.Break, ast.Continue, ast.Delete)) and not (
                        isinstance(n, ast.Module)):
                    b[i] = ast.Pass()
                    yield out(st, "delete statement")
                    if isinstance(st, ast.Break):
                        b[i] = ast.Continue()
                        yield out(st, "break->continue")
                    if isinstance(st, ast.Continue):
                        b[i] = ast.Break()
                        yield out(st, "continue->break")
                    b[i] = st


def sh(cmd, **kw):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600, start_new_session=True, **kw)
    except subprocess.TimeoutExpired as e:
        class R: returncode = 99; stdout = "timeout"
        return R


def main():
    mod = sys.argv[1]
    out = sys.argv[2] if len(sys.argv) > 2 else "/tmp/mut-%s.jsonl" % mod
    first = int(sys.argv[sys.argv.index("--from") + 1]) if "--from" in sys.argv else 0
    base = "/tmp/mut-%s-%d" % (mod, os.getpid())
    shutil.rmtree(base, ignore_errors=True)
    slots = queue.Queue()
    N = int(os.environ.get("WORKERS", "8"))
    for i in range(N):
        d = "%s/%d" % (base, i)
        os.makedirs(d)
        shutil.copytree("/repo", d + "/repo", symlinks=True)
        shutil.copytree("/verif", d + "/verif", ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "replays"))
        slots.put(d)
    src = open("/repo/coral/%s.py" % mod).read()
    lines = src.splitlines()
    ref = ast.unparse(ast.parse(src))
    todo, seen = [], {ref}
    for line, what, new in mutants(src):
        if new not in seen:
            seen.add(new)
            todo.append((line, what, new))
    print(mod, len(todo), "mutants", flush=True)
    log = open(out, "a")

    def one(k):
        line, what, new = todo[k]
        d = slots.get()
        f = d + "/repo/coral/%s.py" % mod
        try:
            open(f, "w").write(new)
            env = dict(os.environ, CORAL_MC_REPO=d + "/repo", CORAL_MC_NPROC="1", TMPDIR=d)
            res = None
            for c in MAP[mod].split():
                r = sh(["./check", c], cwd=d + "/verif", env=env)
                if r.returncode:
                    res = "%s=%d" % (c, r.returncode)
                    if r.returncode != 1:
                        res += " " + r.stdout[-200:]
                    break
            if res is None:
                t = sh(["/opt/venv/bin/python", "-B", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--doctest-modules",
                        "--ignore=coral/recipes.py", "tests", "coral"], cwd=d + "/repo")
                res = "SURVIVED" if "11 passed" in t.stdout and "failed" not in t.stdout else "tests"
            log.write(json.dumps([k, line, what, res]) + "\n"); log.flush()
            if res == "SURVIVED" or "=1" not in res and res != "tests":
                print(k, res, "%s:%d" % (mod, line), what, "|", lines[line - 1].strip(), flush=True)
        finally:
            shutil.copy("/repo/coral/%s.py" % mod, f)
            slots.put(d)
    with ThreadPoolExecutor(N) as ex:
        only = [int(x) for x in sys.argv[sys.argv.index("--only") + 1].split(",")] if "--only" in sys.argv else range(first, len(todo))
        list(ex.map(one, only))
    shutil.rmtree(base, ignore_errors=True)
    print("done", mod, flush=True)


main()
