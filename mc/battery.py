"""What the library shows for the programs of scripts.py and for some larger data, where orders and ties matter."""
import collections, itertools, os
from mc import scripts
from mc.core import freeze, scratch, fresh

WORDS = ["Rio %s %s" % (a, b) for a, b in itertools.product(("Preto", "Claro", "do Sul", "de Ouro", "Grande"), ("Norte", "Leste", "Acima", "Alto"))] + \
    ["S\u00e3o Jos\u00e9", "Sao Jose", "Itu", "Ita", "Ibi", "Ubu", "Uba", "Bau", "Aub"]


def w_names(v):
    from coral import names
    ws = WORDS[::-1] if v else WORDS
    yield list(names.abbreviations(ws, 3 + v, [" DO ", "DE"][v:]).items())
    yield [tuple(m) for m in names.mapping(ws, [w.upper() for w in ws[::2]] + ["Rio Preto", "Iba"])]
    yield [names.jaro_winkler(a, b) for a in ws for b in ws]


def w_table(v):
    from coral import table
    A = collections.namedtuple("A", ["k%d" % i for i in range(9)] + ["zeta", "alpha"])
    B = collections.namedtuple("B", ["alpha", "mu", "k3", "zeta"] + ["q%d" % i for i in range(9)])
    ta = [A(*["%d%s" % (i * j % 7, "xy"[j % 2]) for j in range(11)]) for i in range(9)]
    tb = [B(*["%d%s" % (i * j % 5, "xy"[j % 2]) for j in range(13)]) for i in range(9)]
    for t in ([table.join(ta, tb, ["zeta"]), table.join(tb, ta, ["alpha", "zeta"]), table.join(ta, tb)][v:] + [list(table.indexby(ta, "k1").values())]
              + [table.delkeys(ta, ["alpha", "k2"]), table.addkey(tb, "new", lambda r: r.mu + r.k3)]):
        yield [(type(r)._fields, tuple(r)) for r in t]
    table.writefile(scratch("t.csv"), ta)
    yield open(scratch("t.csv"), "rb").read()


def w_drawing(v):
    from coral import vector
    d = vector.Canvas((0.1, 0.2, 0.3) if v else None)
    for i in range(9):
        d.setcolor(i / 8, 0.5, 1 - i / 8)
        d.setwidth(1 + i % 3)
        d.setdash([1, i + 1])
        d.addcircle((i, 2 * i), 1 + i, i % 2 == 0, i % 3 == 0)
        d.addpolyline([(0, i), (i, 3), (5, 5)])
        d.addpolygon([(0, i), (i, 3), (5, 5)], i % 2 == 0, True)
        d.addtext((i, -i), "abc"[i % 3], 4, anchor="c t tr r br b bl l tl".split()[i])
    d.addimage([1, 2, 3, 4], 2, (3, 4))
    d.save(scratch("d.ps"), 100, 3)
    yield open(scratch("d.ps"), "rb").read()


def w_stats(v):
    from coral import stats
    a, b = tuple(0.1 * (i * 7 % 11) for i in range(60)), tuple(1e3 - i * i % 13 for i in range(60))
    for f in sorted(n for n in dir(stats) if n[0] != "_" and callable(getattr(stats, n)) and getattr(getattr(stats, n), "__module__", "") == "coral.stats"):
        for args in ((a,), (b,), (a, b), (b, a)):
            try:
                yield f, repr(getattr(stats, f)(*args))
            except TypeError:
                yield f, "TypeError"


def w_export(v):
    from coral import vector
    from mc import procs
    seen = []

    def handler(a):
        if a[0] == "gs":
            dev, out, src = procs.gs(a)
            seen.append((dev, open(src, "rb").read()))
            with open(out, "wb") as f:
                f.write(b"image")
        else:
            delay, paths, target = procs.convert(a)
            seen.append((delay, [open(p, "rb").read() for p in paths]))
            with open(target, "wb") as f:
                f.write(b"film")
        return 3 * v
    cs = []
    for i in range(3):
        cs.append(vector.Canvas())
        cs[-1].addcircle((i, v), 2 + i)
        cs[-1].addtext((i, v), "t", 4, anchor="t")
    own = scratch("own")
    os.makedirs(own, exist_ok=True)
    with procs.Programs(handler):
        r = cs[0].export(os.path.join(own, "a.png"))
    yield r, seen
    with procs.Programs(handler):
        r = cs[1].export(os.path.join(own, "a b.png"), "pnggray", 50, margin=2)
    yield r, seen
    with procs.Programs(handler):
        r = vector.animation(os.path.join(own, "f.gif"), cs, 7)
    yield r, seen, sorted(os.listdir(own))


def w_words(v):
    from coral import names
    ws = ["A DE LA B", "A DE LA DE C", "DE LA", "X DE DE LA Y", "LA LA DE E"]
    for extras in (["DE", "DE LA", "LA DE"], ["DE LA", "LA DE", "DE"], ("LA", "DE LA", "A DE"), {"DE LA": 1, "DE": 2, "LA": 3}):
        yield sorted(names.abbreviations(ws, 3 + v, extras).items())


WIDE = {"w " + k[2:]: f for k, f in list(globals().items()) if k.startswith("w_")}


def show(name, v):
    fresh()
    if name in WIDE:
        return [freeze(x) for x in WIDE[name](v)]
    return scripts.solo(name, v, "solo")
