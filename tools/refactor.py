"""Rewrites all of /repo/coral without changing what it does, in a scratch copy, and runs the checks: they have to stay quiet.

usage: refactor.py [rewriting ...] [--only Cnn,...] [--tier thorough]
"""
import ast, json, os, shutil, subprocess, sys
V, PY = "/verif", "/opt/venv/bin/python"
FUN = (ast.FunctionDef,)


def names_stored(fn):
    """Local names of a function, without its arguments; None if it has functions inside or declares names."""
    out = set()
    for n in ast.walk(fn):
        if n is not fn and isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.Global, ast.Nonlocal, ast.Import, ast.ImportFrom)):
            return set()
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            return set()
    a = fn.args
    return out - {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs + [y for y in (a.vararg, a.kwarg) if y]}


class Rename(ast.NodeTransformer):
    def visit_FunctionDef(self, fn):
        loc = names_stored(fn)
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and n.id in loc:
                n.id = "local_" + n.id
        return self.generic_visit(fn)


class Extract(ast.NodeTransformer):
    """The body of every plain function and method goes into a helper beside it."""
    def scope(self, body, method):
        out = []
        for s in body:
            if isinstance(s, ast.FunctionDef) and not s.decorator_list and not s.args.posonlyargs and not any(
                    isinstance(n, ast.Name) and n.id in ("super", "locals", "__class__") for n in ast.walk(s)):
                a = s.args
                h = ast.FunctionDef(name="_do_" + s.name.strip("_"), args=ast.arguments([], [ast.arg(x.arg) for x in a.args], a.vararg and ast.arg(a.vararg.arg),
                                    [ast.arg(x.arg) for x in a.kwonlyargs], [None] * len(a.kwonlyargs), a.kwarg and ast.arg(a.kwarg.arg), []), body=s.body, decorator_list=[])
                args = [ast.Name(x.arg, ast.Load()) for x in a.args]
                if method:
                    f = ast.Attribute(args.pop(0), h.name, ast.Load()) if args else None
                else:
                    f = ast.Name(h.name, ast.Load())
                if f is None or any(isinstance(o, ast.FunctionDef) and o.name == h.name for o in out):
                    out.append(s)
                    continue
                if a.vararg:
                    args.append(ast.Starred(ast.Name(a.vararg.arg, ast.Load()), ast.Load()))
                kw = [ast.keyword(x.arg, ast.Name(x.arg, ast.Load())) for x in a.kwonlyargs]
                if a.kwarg:
                    kw.append(ast.keyword(None, ast.Name(a.kwarg.arg, ast.Load())))
                s.body = [ast.Return(ast.Call(f, args, kw))]
                out += [h, s]
            else:
                if isinstance(s, ast.ClassDef):
                    # an overridden helper must not be taken for the base class's
                    s.body = self.scope(s.body, s.name) if not s.bases else s.body
                out.append(s)
        return out

    def visit_Module(self, m):
        m.body = self.scope(m.body, None)
        return m


class Returns(ast.NodeTransformer):
    def visit_Return(self, n):
        if n.value is None:
            return n
        return [ast.Assign([ast.Name("result_", ast.Store())], n.value), ast.Return(ast.Name("result_", ast.Load()))]

    def visit_Lambda(self, n):
        return n


class Invert(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if not n.orelse:
            return ast.If(n.test, [ast.Pass()] + n.body, [])
        return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)


class Loops(ast.NodeTransformer):
    n = 0

    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse:
            return n
        Loops.n += 1
        it = "loop_%d" % Loops.n
        step = ast.Try([ast.Assign([n.target], ast.Call(ast.Attribute(ast.Name(it, ast.Load()), "__next__", ast.Load()), [], []))],
                       [ast.ExceptHandler(ast.Name("StopIteration", ast.Load()), None, [ast.Break()])], [], [])
        return [ast.Assign([ast.Name(it, ast.Store())], ast.Call(ast.Name("iter", ast.Load()), [n.iter], [])),
                ast.While(ast.Constant(True), [step] + n.body, [])]


class Lists(ast.NodeTransformer):
    def visit_ListComp(self, n):
        self.generic_visit(n)
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n)):
            return n
        return ast.Call(ast.Name("list", ast.Load()), [ast.GeneratorExp(n.elt, n.generators)], [])


class Compare(ast.NodeTransformer):
    """a < b for plain names and numbers becomes b > a."""
    SWAP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.SWAP and all(isinstance(x, (ast.Name, ast.Constant)) for x in (n.left, n.comparators[0])):
            return ast.Compare(n.comparators[0], [self.SWAP[type(n.ops[0])]()], [n.left])
        return n


class Noise(ast.NodeTransformer):
    """A statement that does nothing at the head of every function and loop."""
    def noise(self, n):
        self.generic_visit(n)
        at = 1 if isinstance(n, ast.FunctionDef) and ast.get_docstring(n) is not None else 0
        n.body[at:at] = ast.parse("None").body + ast.parse("unused_ = 0").body
        return n
    visit_FunctionDef = visit_For = visit_While = noise


def shift(src):
    """Same code, other line numbers."""
    return "# moved\n" * 57 + src


REWRITE = {"unparse": None, "rename": Rename, "extract": Extract, "returns": Returns, "invert": Invert, "loops": Loops, "lists": Lists, "compare": Compare, "noise": Noise}


def rewrite(src, how):
    if how == "shift":
        return shift(src)
    tree = ast.parse(src)
    if REWRITE[how]:
        tree = REWRITE[how]().visit(tree)
    return ast.unparse(ast.fix_missing_locations(tree)) + "\n"


def main(args):
    only = tier = None
    if "--only" in args:
        i = args.index("--only"); only = args[i + 1].split(","); del args[i:i + 2]
    tier = []
    if "--tier" in args:
        i = args.index("--tier"); tier = args[i:i + 2]; del args[i:i + 2]
    for how in args or list(REWRITE) + ["shift"]:
        d = "/tmp/refactor-" + how
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        shutil.copytree("/repo", d + "/repo", symlinks=True)
        shutil.copytree(V, d + "/verif", ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "replays"))
        try:
            for f in sorted(os.listdir(d + "/repo/coral")):
                if f.endswith(".py") and f != "recipes.py":        # that one is a document
                    p = d + "/repo/coral/" + f
                    s = open(p, encoding="utf8").read()
                    open(p, "w", encoding="utf8").write(rewrite(s, how))
            t = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--doctest-modules", "--ignore=coral/recipes.py", "tests", "coral"], cwd=d + "/repo",
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            print(how, "tests:", t.stdout.strip().splitlines()[-1], flush=True)
            for i in only or [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]:
                c = subprocess.run(["./check", i] + tier, cwd=d + "/verif", env=dict(os.environ, CORAL_MC_REPO=d + "/repo"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if c.returncode:
                    print("  ALARM" if c.returncode == 1 else "  NO ANSWER", how, i, c.stdout[-700:], flush=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        print("done", how, flush=True)


main(sys.argv[1:])
