"""A small PostScript interpreter: runs a saved drawing and returns what it paints, in device space.

Events: ("fill", path, ink) ("stroke", path, ink, width, dash) ("show", text, (x, y), font, size, ink)
        ("image", width, height, bits, components, unit square corners, bytes)
path = tuple of segments ("m", p) ("l", p) ("arc", centre, radius, a0, a1) ("rnd", p1, p2, radius) ("cp",)
"""
import math, re
from mc.core import need, Bad

TOKEN = re.compile(r"%[^\n\r]*|\s+|\(|<<|>>|<[0-9a-fA-F\s]*>|[\[\]{}]|/?[^\s()<>\[\]{}/%]+|/")
NUM = re.compile(r"^[+-]?(\d+\.?\d*([eE][+-]?\d+)?|\.\d+([eE][+-]?\d+)?)$")
ESC = dict(n="\n", r="\r", t="\t", b="\b", f="\f")
# fake metrics: every character is 0.5 em wide, the box of a text is 0.75 em high and starts at its origin
WIDTH, HEIGHT = 0.5, 0.75


class Name(str):
    pass


class Lit(str):
    pass


class Mark:
    pass


def tokens(src):
    out = []
    pos = 0
    while pos < len(src):
        m = TOKEN.match(src, pos)
        need(m is not None, "bad character {!r} in the program", src[pos:pos + 20])
        t = m.group()
        pos = m.end()
        if t.isspace() or t[0] == "%":
            continue
        if t == "(":
            s, depth = [], 1
            while True:
                need(pos < len(src), "string without end")
                c = src[pos]
                pos += 1
                if c == "\\":
                    need(pos < len(src), "string without end")
                    c = src[pos]
                    pos += 1
                    if c in "01234567":
                        o = c
                        while len(o) < 3 and src[pos:pos + 1] in tuple("01234567"):
                            o += src[pos]
                            pos += 1
                        s.append(chr(int(o, 8) & 255))
                    elif c == "\n":
                        pass
                    else:
                        s.append(ESC.get(c, c))
                    continue
                if c == "(":
                    depth += 1
                elif c == ")":
                    depth -= 1
                    if not depth:
                        break
                s.append(c)
            out.append(("s", "".join(s)))
        elif t[0] == "<" and t not in ("<<",):
            h = re.sub(r"\s", "", t[1:-1])
            out.append(("s", bytes.fromhex(h + "0" * (len(h) % 2))))
        elif t in "[]{}" or t in ("<<", ">>"):
            out.append(("d", t))
        elif NUM.match(t):
            out.append(("n", float(t) if re.search("[.eE]", t) else int(t)))
        elif t[0] == "/":
            out.append(("l", Lit(t[1:])))
        else:
            out.append(("x", Name(t)))
    return out


def parse(toks):
    """Nested lists for procedures."""
    stack = [[]]
    for k, v in toks:
        if (k, v) == ("d", "{"):
            stack.append([])
        elif (k, v) == ("d", "}"):
            need(len(stack) > 1, "unmatched }}")
            p = stack.pop()
            stack[-1].append(("p", p))
        else:
            stack[-1].append((k, v))
    need(len(stack) == 1, "unmatched {{")
    return stack[0]


class PS:
    def __init__(self):
        self.stack = []
        self.names = {}
        self.events = []
        self.g = dict(ctm=(1, 0, 0, 1, 0, 0), ink=(0, 0, 0), width=1, dash=((), 0), font=None, path=[], cur=None, start=None,
                      join=0)
        self.saved = []
        self.steps = 0

    # --- geometry
    def dev(self, x, y):
        a, b, c, d, e, f = self.g["ctm"]
        return a * x + c * y + e, b * x + d * y + f

    def concat(self, m):
        a, b, c, d, e, f = self.g["ctm"]
        A, B, C, D, E, F = m
        self.g["ctm"] = (a * A + c * B, b * A + d * B, a * C + c * D, b * C + d * D, a * E + c * F + e, b * E + d * F + f)

    def length(self, r):
        a, b, c, d = self.g["ctm"][:4]
        need(abs(a * d - b * c - a * a - b * b) < 1e-9 * (a * a + b * b) , "scaling is not uniform")
        return r * math.hypot(a, b)

    def pop(self, kind=None):
        need(self.stack, "operand stack underflow")
        v = self.stack.pop()
        if kind == "n":
            need(isinstance(v, (int, float)) and not isinstance(v, bool), "number expected, got {!r}", v)
        elif kind == "s":
            need(isinstance(v, (str, bytes)) and not isinstance(v, Lit), "string expected, got {!r}", v)
        elif kind == "l":
            need(isinstance(v, Lit), "name expected, got {!r}", v)
        elif kind == "p":
            need(isinstance(v, tuple) and v[0] == "proc", "procedure expected, got {!r}", v)
        elif kind == "a":
            need(isinstance(v, list), "array expected, got {!r}", v)
        return v

    def nums(self, n):
        return [self.pop("n") for i in range(n)][::-1]

    def add(self, *seg):
        self.g["path"].append(seg)

    def current(self):
        need(self.g["cur"] is not None, "no current point")
        return self.g["cur"]

    # --- execution
    def run(self, src):
        self.execute(parse(tokens(src)))
        need(not self.stack, "operands left on the stack: {}", self.stack)
        need(not self.saved, "{} gsave without grestore", len(self.saved))
        return self.events

    def execute(self, prog):
        for k, v in prog:
            self.steps += 1
            need(self.steps < 10 ** 7, "the program does not end")
            if k in "nls":
                self.stack.append(v)
            elif k == "p":
                self.stack.append(("proc", v))
            elif k == "d":
                if v in ("[", "<<"):
                    self.stack.append(Mark())
                else:
                    a = []
                    while True:
                        x = self.pop()
                        if isinstance(x, Mark):
                            break
                        a.append(x)
                    self.stack.append(a[::-1])
            else:
                self.call(v)

    def call(self, name):
        if name in self.names:
            v = self.names[name]
            if isinstance(v, tuple) and v[0] == "proc":
                self.execute(v[1])
            else:
                self.stack.append(v)
            return
        f = getattr(self, "op_" + name, None)
        need(f is not None, "undefined: {}", name)
        f()

    def op_bind(self):
        need(self.stack and isinstance(self.stack[-1], tuple), "bind without a procedure")

    def op_def(self):
        v = self.pop()
        self.names[str(self.pop("l"))] = v

    def op_pop(self):
        self.pop()

    def op_dup(self):
        v = self.pop()
        self.stack += [v, v]

    def op_exch(self):
        a = self.pop()
        b = self.pop()
        self.stack += [a, b]

    def op_index(self):
        n = self.pop("n")
        need(0 <= n < len(self.stack), "bad index")
        self.stack.append(self.stack[-1 - n])

    def op_copy(self):
        n = self.pop("n")
        need(0 <= n <= len(self.stack), "bad copy")
        self.stack += self.stack[len(self.stack) - n:]

    def op_roll(self):
        n, j = self.nums(2)
        need(0 <= n <= len(self.stack), "operand stack underflow in roll")
        if n:
            top = self.stack[-n:]
            j %= n
            self.stack[-n:] = top[-j:] + top[:-j] if j else top

    def arith(self, f):
        a, b = self.nums(2)
        self.stack.append(f(a, b))

    def op_add(self):
        self.arith(lambda a, b: a + b)

    def op_sub(self):
        self.arith(lambda a, b: a - b)

    def op_mul(self):
        self.arith(lambda a, b: a * b)

    def op_div(self):
        self.arith(lambda a, b: a / b)

    def op_neg(self):
        self.stack.append(-self.pop("n"))

    def op_repeat(self):
        p = self.pop("p")
        for i in range(self.pop("n")):
            self.execute(p[1])

    def op_exec(self):
        self.execute(self.pop("p")[1])

    def op_gsave(self):
        self.saved.append(dict(self.g, path=list(self.g["path"])))

    def op_grestore(self):
        need(self.saved, "grestore without gsave")
        self.g = self.saved.pop()

    def op_showpage(self):
        pass

    # --- paths
    def op_newpath(self):
        self.g.update(path=[], cur=None, start=None)

    def to(self, x, y, kind):
        p = self.dev(x, y)
        self.add(kind, p)
        self.g["cur"] = p
        if kind == "m":
            self.g["start"] = p

    def op_moveto(self):
        self.to(*self.nums(2), "m")

    def rel(self, kind):
        x, y = self.nums(2)
        a, b, c, d = self.g["ctm"][:4]
        cx, cy = self.current()
        p = (cx + a * x + c * y, cy + b * x + d * y)
        self.add(kind, p)
        self.g["cur"] = p
        if kind == "m":
            self.g["start"] = p

    def op_rmoveto(self):
        self.rel("m")

    def op_lineto(self):
        self.current()
        self.to(*self.nums(2), "l")

    def op_rlineto(self):
        self.rel("l")

    def op_closepath(self):
        if self.g["cur"] is not None:
            self.add("cp")
            self.g["cur"] = self.g["start"]

    def op_arc(self):
        x, y, r, a0, a1 = self.nums(5)
        need(r >= 0, "negative radius")
        first = self.dev(x + r * math.cos(math.radians(a0)), y + r * math.sin(math.radians(a0)))
        if self.g["cur"] is None:
            self.g["start"] = first
        else:
            self.add("l", first)        # a line from the current point
        self.add("arc", self.dev(x, y), self.length(r), a0, a1)
        self.g["cur"] = self.dev(x + r * math.cos(math.radians(a1)), y + r * math.sin(math.radians(a1)))

    def round_corner(self):
        x1, y1, x2, y2, r = self.nums(5)
        x0, y0 = self.current()
        (X1, Y1), (X2, Y2) = self.dev(x1, y1), self.dev(x2, y2)
        self.add("rnd", (X1, Y1), (X2, Y2), self.length(r))
        u = (x0 - X1, y0 - Y1)
        v = (X2 - X1, Y2 - Y1)
        lu, lv = math.hypot(*u), math.hypot(*v)
        if lu and lv:
            cosang = max(-1, min(1, (u[0] * v[0] + u[1] * v[1]) / lu / lv))
            half = math.acos(cosang) / 2
            t = self.length(r) / math.tan(half) if half else 0
            self.g["cur"] = (X1 + v[0] / lv * t, Y1 + v[1] / lv * t)
        else:
            self.g["cur"] = X1, Y1

    def op_arct(self):
        self.round_corner()

    def op_arcto(self):
        self.round_corner()
        self.stack += [0, 0, 0, 0]

    # --- painting
    def op_setlinewidth(self):
        self.g["width"], = self.nums(1)

    def op_setlinejoin(self):
        self.g["join"], = self.nums(1)

    def op_setlinecap(self):
        self.nums(1)

    def op_setgray(self):
        v, = self.nums(1)
        self.g["ink"] = (v, v, v)

    def op_setrgbcolor(self):
        self.g["ink"] = tuple(self.nums(3))

    def op_setdash(self):
        off = self.pop("n")
        a = self.pop("a")
        self.g["dash"] = (tuple(a), off)

    def op_translate(self):
        self.concat((1, 0, 0, 1) + tuple(self.nums(2)))

    def op_scale(self):
        x, y = self.nums(2)
        self.concat((x, 0, 0, y, 0, 0))

    def op_fill(self):
        self.events.append(("fill", tuple(self.g["path"]), self.g["ink"]))
        self.op_newpath()

    def op_eofill(self):
        self.op_fill()

    def op_stroke(self):
        JOINS.add(self.g["join"])
        self.events.append(("stroke", tuple(self.g["path"]), self.g["ink"], self.g["width"], self.g["dash"]))
        self.op_newpath()

    # --- text
    def op_findfont(self):
        self.stack.append(("font", str(self.pop("l")), 1))

    def op_scalefont(self):
        s = self.pop("n")
        f = self.pop()
        need(isinstance(f, tuple) and f[0] == "font", "font expected, got {!r}", f)
        self.stack.append(("font", f[1], f[2] * s))

    def op_setfont(self):
        f = self.pop()
        need(isinstance(f, tuple) and f[0] == "font", "font expected, got {!r}", f)
        self.g["font"] = f

    def op_charpath(self):
        v = self.pop()
        need(isinstance(v, Name) or v in (True, False), "charpath flag {!r}", v)
        t = self.pop("s")
        f = self.g["font"]
        need(f, "no font")
        x, y = self.current()
        w, h = self.length(f[2]) * WIDTH * len(t), self.length(f[2]) * HEIGHT
        if t:
            for p in ((x, y), (x + w, y), (x + w, y + h), (x, y + h)):
                self.add("l" if p != (x, y) else "m", p)
            self.add("cp")

    def op_true(self):
        self.stack.append(True)

    def op_false(self):
        self.stack.append(False)

    def op_flattenpath(self):
        pass

    def op_pathbbox(self):
        pts = []
        path = self.g["path"]
        for i, s in enumerate(path):
            if s[0] == "m" and i + 1 < len(path) and path[i + 1][0] == "m":
                continue
            if s[0] in "ml":
                pts.append(s[1])
            elif s[0] == "arc":
                (x, y), r = s[1], s[2]
                pts += [(x - r, y - r), (x + r, y + r)]
            elif s[0] == "rnd":
                pts += s[1:3]
        need(pts, "pathbbox without a path")
        a, b, c, d, e, f = self.g["ctm"]
        need(b == c == 0 and a and d, "pathbbox under rotation")
        xs = [(p[0] - e) / a for p in pts]
        ys = [(p[1] - f) / d for p in pts]
        self.stack += [min(xs), min(ys), max(xs), max(ys)]

    def op_show(self):
        t = self.pop("s")
        f = self.g["font"]
        need(f, "no font")
        x, y = self.current()
        self.events.append(("show", t, (x, y), f[1], self.length(f[2]), self.g["ink"]))
        self.g["cur"] = (x + self.length(f[2]) * WIDTH * len(t), y)

    # --- images
    def picture(self, comps):
        src = self.pop("p")
        m = self.pop("a")
        w, h, bits = self.nums(3)
        need(len(m) == 6 and all(isinstance(v, (int, float)) for v in m), "image matrix {!r}", m)
        need(isinstance(w, int) and isinstance(h, int) and bits == 8, "image size {!r} {!r} {!r}", w, h, bits)
        data = b""
        while len(data) < w * h * comps:
            before = len(self.stack)
            self.execute(src[1])
            chunk = self.pop("s")
            need(len(self.stack) == before, "the image procedure changes the stack")
            need(chunk, "the image data end early")
            data += chunk if isinstance(chunk, bytes) else chunk.encode("latin-1")
        A, B, C, D, E, F = m
        det = A * D - B * C
        need(det, "singular image matrix")

        def unit(u, v):     # image space -> device
            x, y = (D * (u - E) - C * (v - F)) / det, (A * (v - F) - B * (u - E)) / det
            return self.dev(x, y)
        self.events.append(("image", w, h, bits, comps, (unit(0, 0), unit(w, 0), unit(w, h), unit(0, h)), data))

    def op_image(self):
        self.picture(1)

    def op_colorimage(self):
        n = self.pop("n")
        multi = self.pop()
        need(multi is False, "more than one data source")
        self.picture(n)


JOINS = set()       # line joins of the strokes of the last file


def run_file(path):
    """Returns (bounding box line as numbers, events)."""
    JOINS.clear()
    with open(path, "rb") as f:
        src = f.read().decode("latin-1")
    need(re.match(r"%!PS-Adobe-3\.\d EPSF-3\.\d[ \t]*\r?\n", src), "no header of an Encapsulated PostScript file")
    boxes = re.findall(r"^%%BoundingBox: (.*)$", src, re.M)
    need(len(boxes) == 1, "{} bounding boxes", len(boxes))
    try:
        box = tuple(float(v) for v in boxes[0].split())
    except ValueError:
        raise Bad("bounding box %r" % boxes[0])
    need(len(box) == 4 and all(math.isfinite(v) for v in box), "bounding box {}", boxes[0])
    return box, PS().run(src)


def shape(path):
    """Plain form of a path: tuple of subpaths, each (points or arcs ..., closed)."""
    out, sub, closed = [], None, False
    for s in path:
        if s[0] == "m":
            if sub and len(sub) > 1:
                out.append((tuple(sub), False))
            sub = [("p",) + s[1]]
        elif s[0] == "cp":
            if sub:
                out.append((tuple(sub), True))
            sub = None
        else:
            if sub is None:
                sub = []
            sub.append(("p",) + s[1] if s[0] == "l" else s)
    if sub and (len(sub) > 1 or sub[0][0] != "p"):
        out.append((tuple(sub), False))
    return tuple(out)
