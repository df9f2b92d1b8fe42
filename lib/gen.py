"""Histories of public calls, as scripts for the recording harness (harness/m4x.c).

Nothing here knows what a call should return: the scripts only say which calls
are made on which inputs.  What they may do is decided by spec/M4rie.tla.
"""
import heapq
import random


def pdeg(a):
    return a.bit_length() - 1


def pmod(a, p):
    e = pdeg(p)
    while a and a.bit_length() - 1 >= e:
        a ^= p << (a.bit_length() - 1 - e)
    return a


def irreducible(p):
    e = pdeg(p)
    for q in range(2, 1 << (e // 2 + 1)):
        if pmod(p, q) == 0:
            return False
    return True


_IRR = {}


def irreducibles(e):
    if e not in _IRR:
        _IRR[e] = [p for p in range(1 << e, 2 << e) if irreducible(p)]
    return _IRR[e]


def some_irreducible(r, e):
    if e <= 8:
        return r.choice(irreducibles(e))
    while True:
        p = (1 << e) | (r.getrandbits(e)) | 1
        if irreducible(p):
            return p


def width(e):
    return 2 if e <= 2 else 4 if e <= 4 else 8 if e <= 8 else 16


DEGREES = list(range(2, 17))


class Hist:
    def __init__(self, g):
        self.g = g
        self.r = g.r
        self.lines = []
        self.nid = 0
        self.info = {}        # id -> (kind, field, m, n)
        self.fields = {}      # id -> degree
        self.polys = {}
        self.roots = set()    # matrices that are not windows
        self.w = 0            # weight: rough cost

    def id(self):
        self.nid += 1
        assert self.nid < 500
        return self.nid

    def op(self, name, *a):
        self.lines.append(" ".join([name] + [str(x) for x in a]))

    # ---- construction
    def field(self, e, p=None):
        i = self.id()
        p = p or some_irreducible(self.r, e)
        self.op("field", i, p)
        self.fields[i] = e
        self.polys[i] = p
        return i

    def seed(self):
        return self.r.getrandbits(30)

    def new(self, kind, f, m, n):
        i = self.id()
        self.op("mzed_init" if kind == "E" else "mzd_slice_init", i, f, m, n)
        self.info[i] = (kind, f, m, n)
        self.roots.add(i)
        self.w += m * n
        return i

    def fill(self, i, *spec):
        self.op("fill", i, spec[0], self.seed(), *spec[1:])
        return i

    def rfill(self, i, kinds=None):
        """fill with some interesting content"""
        r = self.r
        k, f, m, n = self.info[i]
        c = r.choice(kinds or ["rand"] * 5 + ["rank"] * 3 + ["sparse", "sparse", "const", "diag", "single", "reprow", "lowzero", "band", "zero", "bits", "perm", "index"])
        mn = max(1, min(m, n))
        if c == "rank":
            a = (r.randrange(0, mn + 1), r.randrange(4))
        elif c == "sparse":
            a = (r.choice([5, 20, 100, 300, 600]),)
        elif c == "const":
            a = (r.choice([-1, 1, 2, 3]),)
        elif c == "diag":
            a = (r.choice([-1, 1, 2]),)
        elif c == "single":
            a = (r.randrange(max(1, m)), r.randrange(max(1, n)))
        elif c == "reprow":
            a = (r.randrange(1, 4),)
        elif c == "lowzero":
            a = (r.randrange(0, n + 1), r.randrange(0, m + 1))
        elif c == "band":
            a = tuple(sorted([r.randrange(0, n + 1), r.randrange(0, n + 1)]))
        elif c == "bits":
            a = (1 << r.randrange(self.fields[f]),)
        elif c == "perm":
            a = (r.randrange(2),)
        elif c == "index":
            a = (r.randrange(100),)
        else:
            a = ()
        return self.fill(i, c, *a)

    def window(self, par, r0, c0, r1, c1):
        k, f, m, n = self.info[par]
        i = self.id()
        self.op("mzed_init_window" if k == "E" else "mzd_slice_init_window", i, par, r0, c0, r1, c1)
        self.info[i] = (k, f, r1 - r0, c1 - c0)
        return i

    def mat(self, kind, f, m, n, fill=None, win=0.0, edge=False):
        """a matrix, possibly as a window of a larger one filled with other data;
        edge: only windows that reach to the right edge of the larger one"""
        r = self.r
        if win and self.g.windowed:
            win = .85
        if r.random() < win:
            step = 64 if kind == "S" else 64 // width(self.fields[f])
            c0 = step * r.choice([0, 0, 1, 1, 2])
            r0 = r.choice([0, 1, 2, 5])
            p = self.new(kind, f, r0 + m + r.choice([0, 1, 3]), c0 + n + (0 if edge else r.choice([0, 1, 2, step, step + 3])))
            self.fill(p, "rand")
            if r.random() < .2:
                # a window of a window
                r1, c1 = r.randrange(r0 + 1), step * r.randrange(c0 // step + 1)
                pm, pn = self.info[p][2:]
                p = self.window(p, r1, c1, r.randrange(r0 + m, pm + 1), pn if edge else r.randrange(c0 + n, pn + 1))
                r0, c0 = r0 - r1, c0 - c1
            i = self.window(p, r0, c0, r0 + m, c0 + n)
        else:
            i = self.new(kind, f, m, n)
        if fill == "r":
            self.rfill(i)
        elif isinstance(fill, tuple):
            self.fill(i, *fill)
        return i

    def perm(self, n, mode=None):
        i = self.id()
        self.op("mzp_init", i, n)
        self.info[i] = ("P", 0, 1, n)
        if mode is not None:
            self.fill(i, "pids", mode)
        return i

    def poly(self, deg, m, n, fill="rand"):
        i = self.id()
        self.op("mzd_poly_init", i, deg, m, n)
        self.info[i] = ("Y", 0, m, n)
        self.w += m * n
        if fill:
            self.fill(i, fill)
        return i

    # ---- results
    def nw(self, name, kind, f, m, n, *a):
        """a call that is given no result object and creates one"""
        i = self.id()
        self.op(name + "!", i, *a)
        self.info[i] = (kind, f, m, n)
        self.w += m * n
        return i

    def into(self, name, kind, f, m, n, args, tail=(), p_new=0.4, win=0.0, fill="rand", edge=False):
        """call name on args, into an existing object or a new one"""
        if self.r.random() < p_new:
            return self.nw(name, kind, f, m, n, *args, *tail)
        c = self.mat(kind, f, m, n, None, win, edge)
        if fill:
            self.fill(c, fill)
        self.op(name, c, *args, *tail)
        return c


class Gen:
    def __init__(self, seed, tier):
        self.r = random.Random(seed)
        self.tier = tier
        self.thorough = tier == "thorough"
        self.hists = []
        self.windowed = False     # wherever a window can be used, mostly use one

    def hist(self):
        h = Hist(self)
        self.hists.append(h)
        return h

    def dims(self, kind, e, hi=None):
        """an interesting number of columns (or rows)"""
        r = self.r
        step = 64 if kind == "S" else 64 // width(e)
        c = [1, 1, 2, 3, 4, 5, 7, step - 1, step, step + 1, 2 * step - 1, 2 * step, 2 * step + 1, 3 * step, r.randrange(1, 40)]
        if r.random() < 0.3:
            c += [r.randrange(1, 150)]
        v = max(1, r.choice(c))
        return min(v, hi) if hi else v

    def big(self, kind, e):
        """sizes beyond those of the tests: many rows, many words per row, or both"""
        r = self.r
        step = 64 if kind == "S" else 64 // width(e)
        return r.choice([
            (r.choice([63, 64, 65, 100, 130]), r.choice([1, 2, step, step + 1, 3 * step])),
            (r.choice([511, 512, 513, 520, 600]), r.choice([1, 2, 3, step])),
            (r.choice([1, 2, 3, 5]), r.choice([511, 512, 513, 576, 640, 1025, 1100])),
            (r.choice([1, 2, 4]), step * r.choice([3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 20]) + r.choice([0, 0, 1, -1])),
            (r.choice([1, 2, 3]), step * r.choice([3, 4, 5, 6, 7, 8, 9, 12, 16, 17]) + r.choice([0, 0, 1, -1])),
        ])

    def script(self, hs):
        out = []
        for i, h in hs:
            out.append("H %d" % i)
            out += h.lines
        return "\n".join(out) + "\n"


# --------------------------------------------------------------------------- P01
def fields(g):
    r = g.r
    for e in range(1, 17):
        h = g.hist()
        h.op("irreducibles", e)
        h.w = 1 << e
    for e in DEGREES:
        if e <= 8:
            ps = irreducibles(e)
        else:
            # the least and the greatest, and a sample
            ps = [next(p for p in rng if irreducible(p)) for rng in (range(1 << e, 2 << e), range((2 << e) - 1, 1 << e, -1))]
            ps += list({some_irreducible(r, e) for _ in range(30 if g.thorough else 6)} - set(ps))
        for p in ps:
            h = g.hist()
            f = h.field(e, p)
            h.op("gf_info", f)
            q = 1 << e
            h.w = 10000 + min(q, 5000) + (q * q if e <= 8 else 0)
            if e <= 7 or (e == 8 and (g.thorough or p in (ps[0], ps[-1]) or r.random() < .3)):
                for a in range(q):
                    h.op("gf_row", f, a, 0, q)
            else:
                for a in [0, 1, 2, 3, q - 1, q // 2] + [r.randrange(q) for _ in range(10)]:
                    s = r.randrange(max(1, q - 300)) if q > 300 else 0
                    h.op("gf_row", f, a, s, min(q, 300))
                for i in range(e):
                    for j in range(e):
                        h.op("gf_row", f, 1 << i, 1 << j, 1)
                # every remainder of a high part
                if e <= 11 or p in ps[:2] or g.thorough:
                    for s in range(0, q, 8192):
                        h.op("gf_row", f, 1 << (e - 1), s, min(8192, q - s))
            h.op("gf_pairs", f, h.seed(), 1500)
            if e <= 12 or g.thorough or p in ps[:2]:
                for s in range(1, q, 4096):
                    h.op("gf_inv", f, s, min(4096, q - s))
            else:
                for _ in range(4):
                    h.op("gf_inv", f, r.randrange(1, q - 300), 300)
            for a in range(q) if q <= 8 else [0, 1, 2, 3, q - 1, q // 2] + [1 << r.randrange(e) for _ in range(2)] + [r.randrange(q) for _ in range(8 if e > 8 else 4)]:
                h.op("gf_t16", f, a, h.seed(), 600)
            h.op("field_free", f)
    for _ in range(3000 if g.thorough else 1200):
        h = g.hist() if _ % 100 == 0 else g.hists[-1]
        da, db = r.randrange(0, 32), r.randrange(0, 32)
        a = r.getrandbits(da + 1) | (1 << da if r.random() < .5 else 0)
        b = r.getrandbits(db + 1) | (1 << db)
        h.op("gf2x_mul", a, b, min(32, max(da, db) + 1 + r.randrange(0, 3)))
        h.op("gf2x_deg", r.choice([a, b, 0, 1, 2, 3, r.getrandbits(63), 1 << 62]))
        big = r.getrandbits(r.randrange(1, 64))
        h.op("gf2x_divmod", big, b)
        h.op("gf2x_divmod", a, b)
        e = r.randrange(1, 17)
        p = some_irreducible(r, e)
        x = r.randrange(1, 1 << e)
        h.op("gf2x_invmod", x, p, e)


# --------------------------------------------------------------------------- P02
def conversion(g):
    r = g.r
    n = 4000 if g.thorough else 1620
    for k in range(n):
        e = DEGREES[k % 15]
        h = g.hist()
        f = h.field(e)
        m, c = g.dims("E", e, 12), g.dims(r.choice("ES"), e)
        if k % 37 == 0:
            c = r.choice([255, 256, 257, 300, 513])
        if k % 22 == 0:
            m, c = g.big(r.choice("ES"), e)
        if k // 15 < width(e):     # every number of words that a row of each degree can end with
            c = 64 // width(e) * (k // 15 + width(e) * r.choice([0, 0, 1])) + r.randrange(1, 64 // width(e) + 1)
        win = 0.3
        a = h.mat("E", f, m, c, "r", win)
        s = h.into("mzed_slice", "S", f, m, c, (a,), win=win)
        b = h.into("mzed_cling", "E", f, m, c, (s,), win=win)
        h.op("mzed_cmp", a, b)
        t = h.mat("S", f, m, c, "r", win)
        b2 = h.into("mzed_cling", "E", f, m, c, (t,), win=win)
        if r.random() < .5:
            h.op("mzed_read_all", b2)
        h.into("mzed_slice", "S", f, m, c, (b2,), win=win)
        if r.random() < .5:
            h.op("mzd_slice_read_all", t)


# --------------------------------------------------------------------------- P03
def structure(g):
    r = g.r
    n = 3000 if g.thorough else 1260
    for k in range(n):
        e = DEGREES[k % 15]
        h = g.hist()
        f = h.field(e)
        kind = r.choice("ES")
        pre = "mzed" if kind == "E" else "mzd_slice"
        q = 1 << e
        m, c = g.dims(kind, e, 14), g.dims(kind, e)
        if k % 22 == 0:
            m, c = g.big(kind, e)
        win = .25
        edge = True      # libm4ri assembles whole words: see known-findings
        a = h.mat(kind, f, m, c, "r", win, edge)
        for _ in range(6):
            if not m or not c:
                break
            i, j, x = r.randrange(m), r.choice([0, c - 1, r.randrange(c)]), r.choice([0, 1, q - 1, r.randrange(q)])
            o = r.choice(["read", "write", "add"])
            if o == "read":
                h.op(pre + "_read_elem", a, i, j)
            else:
                h.op("%s_%s_elem" % (pre, o), a, i, j, x)
        h.op(pre + "_read_all", a)
        h.op(pre + "_print", a)
        if kind == "S" and a in h.roots and r.random() < .3:
            for d in [r.randrange(e, 17), r.randrange(e, 17), e]:
                h.op("mzd_slice_adapt_depth", a, d)
                h.op("mzd_slice_read_elem", a, m - 1, c - 1)
                h.op("mzd_slice_is_zero", a)
                h.op("mzd_slice_row_swap", a, 0, m - 1)
                h.op("mzd_slice_col_swap", a, 0, c - 1)
            h.op("mzd_slice_read_all", a)
        b = h.into(pre + "_copy", kind, f, m, c, (a,), win=win)
        if k % 9 == 0:
            h.op(pre + "_copy", b, b)
        h.op(pre + "_set_ui", b, r.choice([0, 1, q - 1, r.randrange(q)]))
        h.op(pre + "_randomize", b, h.seed())
        if m and c:
            step = 64 if kind == "S" else 64 // width(e)
            r0 = r.randrange(m)
            c0 = r.randrange(c)
            if r.random() < .5:
                c0 = c0 // step * step
            r1, c1 = r.randrange(r0 + 1, m + 1), r.randrange(c0 + 1, c + 1)
            h.into(pre + "_submatrix", kind, f, r1 - r0, c1 - c0, (a,), (r0, c0, r1, c1), win=win, edge=edge)
        c2 = g.dims(kind, e, 70) or 1
        d = h.mat(kind, f, m, c2, "r", win, edge)
        h.into(pre + "_concat", kind, f, m, c + c2, (a, d), win=win, edge=edge)
        if r.random() < .2:
            h.into(pre + "_concat", kind, f, m, c + c, (a, a), win=win, edge=edge)
            h.into(pre + "_stack", kind, f, m + m, c, (a, a), win=win, edge=edge)
        m2 = r.randrange(1, 6)
        d = h.mat(kind, f, m2, c, "r", win, edge)
        h.into(pre + "_stack", kind, f, m + m2, c, (a, d), win=win, edge=edge)
        h.op(pre + "_print", d)
        h.op("free", b)


# --------------------------------------------------------------------------- P04
def all_positions(g):
    """row operations that start, and rows that end, at each position within a word"""
    r, short = g.r, False
    for w in (2, 4, 8, 16):
        for end in [x for x in range(1, 64 // w + 1) for _ in range(2)]:
            e = r.choice([e for e in DEGREES if width(e) == w])
            h = g.hist()
            f = h.field(e)
            short = not short
            c = end + 64 // w * (0 if short else r.choice([1, 1, 2]))
            a = h.mat("E", f, 3, c, ("rand",), .3)
            b = h.mat("E", f, 2, c, ("rand",), .3)
            starts = r.sample(range(c), min(c, 6))
            for st in starts:
                h.op("mzed_rescale_row", a, r.randrange(3), st, r.randrange(2, 1 << e))
                h.op("mzed_add_multiple_of_row", a, r.randrange(3), b, r.randrange(2), r.randrange(2, 1 << e), st)
            h.op("mzed_add_row", a, r.randrange(3), b, r.randrange(2), r.choice(starts))


def rowcol(g):
    r = g.r
    all_positions(g)
    n = 3000 if g.thorough else 1440
    for k in range(n):
        e = DEGREES[k % 15]
        h = g.hist()
        f = h.field(e)
        kind = r.choice("ES")
        pre = "mzed" if kind == "E" else "mzd_slice"
        q = 1 << e
        m, c = max(2, g.dims(kind, e, 16)), max(1, g.dims(kind, e))
        if k % 22 == 0:
            m, c = g.big(kind, e)
            m = max(m, 2)
        win = .3
        a = h.mat(kind, f, m, c, "r", win)
        b = h.mat(kind, f, r.randrange(1, 5), c, "r", win)
        b2 = h.mat(kind, f, 2, r.randrange(1, c + 1), ("rand",), win)
        step = 64 if kind == "S" else 64 // width(e)
        ops = ["row_swap", "copy_row", "col_swap", "col_swap_in_rows", "row_add", "rescale_row", "copy_row2"]
        if kind == "E":
            ops += ["add_multiple_of_row", "add_multiple_of_row", "add_row"]
        for _ in range(9):
            o = r.choice(ops)
            i, j = r.randrange(m), r.randrange(m)
            ca, cb = r.choice([0, c - 1, r.randrange(c)]), r.randrange(c)
            st = r.choice([0, c - 1, r.randrange(c), min(c - 1, r.randrange(4) * step)])
            x = r.choice([0, 1, 2, q - 1, r.randrange(q), r.randrange(q)])
            if o == "row_swap":
                h.op(pre + "_row_swap", a, i, j)
            elif o == "copy_row":
                if r.random() < .3:
                    h.op(pre + "_copy_row", a, i, a, j)
                else:
                    h.op(pre + "_copy_row", a, i, b, r.randrange(h.info[b][2]))
            elif o == "copy_row2":
                h.op(pre + "_copy_row", a, i, b2, r.randrange(2))
            elif o == "col_swap":
                h.op(pre + "_col_swap", a, ca, cb)
            elif o == "col_swap_in_rows":
                lo, hi = sorted([r.randrange(m + 1), r.randrange(m + 1)])
                lo = min(lo, m - 1)
                h.op(pre + "_col_swap_in_rows", a, ca, cb, lo, hi)
            elif o == "row_add":
                # (a row added to itself through a window: see known-findings)
                if i != j or a in h.roots:
                    h.op(pre + "_row_add", a, i, j)
            elif o == "rescale_row":
                h.op(pre + "_rescale_row", a, i, st, x)
            elif o == "add_multiple_of_row":
                if r.random() < .5:
                    h.op(pre + "_add_multiple_of_row", a, i, a, j, x, st)
                else:
                    h.op(pre + "_add_multiple_of_row", a, i, b, r.randrange(h.info[b][2]), x, st)
            elif o == "add_row":
                if r.random() < .5:
                    h.op(pre + "_add_row", a, i, a, j, st)
                else:
                    h.op(pre + "_add_row", a, i, b, r.randrange(h.info[b][2]), st)
        for _ in range(3):
            o = r.choice(["left", "left_trans", "right", "right_trans"] + (["right_trans_tri"] if kind == "S" else []))
            md = r.choice([0, 0, 0, 1, 2, 3] + ([4, 4] if not o.endswith("tri") else []))
            p = h.perm(m if o.startswith("left") else c, md)
            h.op("%s_apply_p_%s" % (pre, o), a, p)


# --------------------------------------------------------------------------- P05
def windows(g):
    """several windows of one matrix, every family of calls through them; the histories of the
    other suites on windows; large windows"""
    r = g.r
    for name in ("conversion", "structure", "rowcol", "linear", "mul", "addmul", "echelon", "ple", "trsm", "inverse", "compare", "same"):
        o = Gen(r.getrandbits(40), "quick")
        o.windowed = True
        if name == "same":
            same_operand(o, 0)
            same_operand(o, 1)
        else:
            SUITES[name](o)
        hs = [h for h in o.hists if len(h.lines) < 200 and any("init_window" in l for l in h.lines)]
        g.hists += select(r, [h for h in hs if h.w < 60000], 200 if g.thorough else 60)
        g.hists += select(r, [h for h in hs if 60000 <= h.w < 1000000], 4)
    big_windows(g)
    n = 2500 if g.thorough else 900
    for k in range(n):
        e = DEGREES[k % 15]
        h = g.hist()
        f = h.field(e)
        kind = r.choice("ES")
        pre = "mzed" if kind == "E" else "mzd_slice"
        q = 1 << e
        step = 64 if kind == "S" else 64 // width(e)
        s = r.choice([2, 3, 5, 8])
        # root with a grid of disjoint s x s windows
        C = 2 * step + s + r.choice([0, 1, 3])
        R = 2 * s + 3
        if s > step:
            s = step
        root = h.mat(kind, f, R, C, ("rand",))
        ws = [h.window(root, r0, c0, r0 + s, c0 + s) for r0 in (0, s + 1) for c0 in (0, step, 2 * step)]
        other = h.mat(kind, f, s, s, "r")
        for _ in range(7):
            x, y, z = r.sample(ws, 3)
            if r.random() < .25:
                y = other
            t = r.choice(["add", "mul", "addmul", "scal", "copy", "set", "ech", "inv", "trsm", "wr", "swap", "perm", "ple", "conv", "sub", "rand", "mulx"])
            if t == "add":
                h.op(pre + "_add", x, y, z)
            elif t == "mul":
                h.op(pre + "_mul", x, y, z)
            elif t == "mulx":
                if kind == "E":
                    h.op(r.choice(["mzed_mul_naive", "mzed_mul_newton_john", "mzed_mul_karatsuba"]), x, y, z)
                else:
                    h.op("mzd_slice_mul_karatsuba", x, y, z)
            elif t == "addmul":
                if kind == "E":
                    h.op(r.choice(["mzed_addmul", "mzed_addmul_naive", "mzed_addmul_newton_john", "mzed_addmul_karatsuba"]), x, y, z)
                else:
                    h.op("mzd_slice_addmul", x, y, z)
            elif t == "scal":
                h.op(pre + "_mul_scalar", x, r.randrange(q), y)
                if kind == "S":
                    h.op("mzd_slice_addmul_scalar", z, r.randrange(q), y)
            elif t == "copy":
                h.op(pre + "_copy", x, y)
            elif t == "set":
                h.op(pre + "_set_ui", x, r.randrange(q))
            elif t == "rand":
                h.op(pre + "_randomize", x, h.seed())
            elif t == "ech":
                if kind == "E":
                    h.op(r.choice(["mzed_echelonize", "mzed_echelonize_naive", "mzed_echelonize_newton_john", "mzed_echelonize_ple"]), x, r.randrange(2))
                else:
                    h.op("mzd_slice_echelonize", x, r.randrange(2))
            elif t == "inv":
                if kind == "E":
                    h.fill(y, "inv")
                    h.op("mzed_invert_newton_john", x, y)
            elif t == "trsm":
                h.fill(y, r.choice(["upper", "lower"]), 1, 1)
                u = h.lines[-1].split()[2]
                h.op("%s_trsm_%s_left%s" % (pre, u, r.choice(["", "_naive", "_newton_john"])), y, x)
            elif t == "wr":
                h.op(pre + "_write_elem", x, r.randrange(s), r.randrange(s), r.randrange(q))
            elif t == "swap":
                h.op(pre + "_row_swap", x, r.randrange(s), r.randrange(s))
                h.op(pre + "_col_swap", x, r.randrange(s), r.randrange(s))
            elif t == "perm":
                p = h.perm(s, 0)
                h.op("%s_apply_p_%s" % (pre, r.choice(["left", "left_trans", "right", "right_trans"])), x, p)
            elif t == "ple":
                p, qq = h.perm(s), h.perm(s)
                h.op(r.choice(["mzed_ple", "mzed_ple_naive", "mzed_ple_newton_john"] if kind == "E" else ["mzd_slice_ple", "mzd_slice_pluq"]), x, p, qq)
            elif t == "conv":
                if kind == "E":
                    tmp = h.nw("mzed_slice", "S", f, s, s, y)
                    h.op("mzed_cling", x, tmp)
                else:
                    tmp = h.nw("mzed_cling", "E", f, s, s, y)
                    h.op("mzed_slice", x, tmp)
            elif t == "sub":
                h.nw(pre + "_submatrix", kind, f, s, s, root, 0, 0, s, s)
        # a window of a window
        w2 = h.window(ws[-1], 1, 0, s, max(1, s - 1))
        h.op(pre + "_set_ui", w2, r.randrange(q))
        h.op("free", w2)
        h.op("free", ws[0])
        h.op(pre + "_read_all", root)


def big_windows(g):
    """windows of the sizes at which functions change their ways"""
    r = g.r
    for e in r.sample(range(2, 9), 5 if g.thorough else 3) + [r.randrange(9, 17)]:
        h = g.hist()
        f = h.field(e)
        step = 64 // width(e)
        m = r.choice([130, 260])
        c = (1 << 17) // m + r.choice([1, 2, 3])
        if c % step == 0:
            c += 1
        r0, c0 = r.choice([0, 1, 3]), step * r.choice([0, 1, 2])
        rt = h.mat("E", f, r0 + m + 1, c0 + c + r.choice([1, 2, step]), ("rand",))
        x = h.window(rt, r0, c0, r0 + m, c0 + c)
        b = h.mat("E", f, m, c, ("rand",))
        h.op("mzed_mul_scalar", x, r.randrange(2, 1 << e), b)
        if e < 5:
            h.op("mzed_mul_scalar", b, r.randrange(2, 1 << e), x)
            h.op("mzed_add", x, x, b)
        s = h.nw("mzed_slice", "S", f, m, c, x)
        h.op("mzed_set_ui", x, r.randrange(1 << e))
        h.op("mzed_cling", x, s)
    for kind, e in (("E", 2), ("S", 3), ("E", 7)):
        h = g.hist()
        f = h.field(e)
        step = 64 // (width(e) if kind == "E" else 1)
        m, c = r.choice([140, 200]), r.choice([131, 150, 195])
        rt = h.mat(kind, f, m + 2, 64 + c + 40, ("rand",))
        x = h.window(rt, 1, 64, m + 1, 64 + c)
        b = h.mat(kind, f, m, c, ("rand",))
        pre = "mzed" if kind == "E" else "mzd_slice"
        a = h.mat(kind, f, c, c, ("rand",))
        h.op(pre + "_mul", x, b, a)
        h.op(pre + "_addmul", x, b, a)
        y = h.window(rt, 0, 0, c, c) if c < m else h.window(rt, 0, 0, m, m)
        k = min(c, m)
        t = h.mat(kind, f, k, k, ("upper", 1, 1))
        h.op(pre + "_trsm_upper_left", t, y)
        t = h.mat(kind, f, k, k, ("lower", 1, 1))
        h.op(pre + "_trsm_lower_left", t, y)
        h.op(pre + "_echelonize" if kind == "E" else "mzd_slice_echelonize", h.window(rt, 1, 64, 60, 64 + 50), 1)


# --------------------------------------------------------------------------- P06
def linear(g):
    r = g.r
    n = 3000 if g.thorough else 1260
    for k in range(n):
        e = DEGREES[k % 15]
        h = g.hist()
        f = h.field(e)
        kind = r.choice("ES")
        pre = "mzed" if kind == "E" else "mzd_slice"
        q = 1 << e
        m, c = g.dims(kind, e, 14), g.dims(kind, e)
        if k % 22 == 0:
            m, c = g.big(kind, e)
        win = .25
        a, b = h.mat(kind, f, m, c, "r", win), h.mat(kind, f, m, c, "r", win)
        for nm in ["%s_add" % pre, "_%s_add" % pre, "%s_sub" % pre]:
            if nm[0] == "_":
                d = h.mat(kind, f, m, c, ("rand",), win)
                h.op(nm, d, a, b)
            else:
                h.into(nm, kind, f, m, c, (a, b), win=win)
        for x in [0, 1, q - 1, r.randrange(q), r.randrange(q)]:
            h.into(pre + "_mul_scalar", kind, f, m, c, (x, b), win=win)
            if kind == "S":
                d = h.mat(kind, f, m, c, ("rand",), win)
                h.op("mzd_slice_addmul_scalar", d, x, b)
        if r.random() < .3:
            h.op(pre + "_add", a, a, b)
        if r.random() < .3:
            h.op(pre + "_add", b, a, b)
        if r.random() < .2:
            h.op("_%s_add" % pre, b, a, b)
        if r.random() < .2:
            h.op("_%s_add" % pre, a, a, b)
        if r.random() < .2:
            h.op(pre + "_sub", *r.choice([(a, a, b), (b, a, b), (a, a, a)]))
        if r.random() < .1:
            h.op(r.choice(["%s_add", "_%s_add"]) % pre, a, a, a)
    # large matrices switch the scalar product to a table of 2^16 words
    for e in (DEGREES[:7] if not g.thorough else DEGREES):
        h = g.hist()
        f = h.field(e)
        m = r.choice([260, 300])
        c = (1 << 17) // m + r.choice([1, 2, 9, 30])
        b = h.mat("E", f, m, c, ("rand",))
        h.nw("mzed_mul_scalar", "E", f, m, c, r.randrange(2, 1 << e), b)
        if e < 5:
            d = h.mat("E", f, m, c, ("rand",))
            h.op("mzed_mul_scalar", d, r.randrange(2, 1 << e), b)
        if e == 3:
            h.op("mzed_mul_scalar", d, r.choice([0, 1]), b)
        if e % 2 == 0:
            h.op("mzed_mul_scalar", b, r.randrange(2, 1 << e), b)


# --------------------------------------------------------------------------- P07 / P08
E_MUL = ["mzed_mul", "mzed_mul_naive", "mzed_mul_newton_john", "mzed_mul_karatsuba", "mzed_mul_blm", "mzed_mul_strassen"]
E_ADDMUL = ["mzed_addmul", "mzed_addmul_naive", "mzed_addmul_newton_john", "mzed_addmul_karatsuba", "mzed_addmul_blm", "mzed_addmul_strassen"]
S_MUL = ["mzd_slice_mul", "mzd_slice_mul_karatsuba", "mzd_slice_mul_blm"]
S_ADDMUL = ["mzd_slice_addmul", "mzd_slice_addmul_karatsuba", "_mzd_slice_addmul_karatsuba", "_mzd_slice_addmul_naive", "mzd_slice_addmul_blm"]


# accumulating functions that create their target when given none
NEW_ADDMUL = ["mzed_addmul", "mzed_addmul_naive", "mzed_addmul_newton_john", "mzed_addmul_strassen", "_mzed_addmul_karatsuba", "_mzed_addmul_blm",
              "_mzd_slice_addmul_karatsuba", "_mzd_slice_addmul_naive"]


def blm(h, f, e, djb=None):
    i = h.id()
    h.op("blm_init_crt", i, f, e, e, h.r.randrange(2) if djb is None else djb)
    return i


def mul_dims(g, kind, e, skew=False):
    r = g.r
    if skew:          # one or two dimensions beyond the sizes of the tests
        big = [r.choice([511, 512, 513, 600, 1030, 64 * r.choice([3, 4, 5, 6, 9, 12, 16, 17]) + r.choice([0, 1, -1])]) for _ in range(2)]
        v = [r.choice([1, 2, 3, 4, 5]) for _ in range(3)]
        v[r.randrange(3)] = big[0]
        if r.random() < .1:
            v[r.randrange(3)] = 130
        return v
    if r.random() < .5:
        return [r.choice([1, 2, 3, 4, 5, 8, 13, 17]) for _ in range(3)]
    v = [g.dims(kind, e, 70) for _ in range(3)]
    return v


def products(g, acc):
    r = g.r
    n = 3500 if g.thorough else 1440
    for k in range(n):
        e = DEGREES[k % 15]
        h = g.hist()
        f = h.field(e)
        kind = "S" if r.random() < .4 else "E"
        win = .2
        m, l, c = mul_dims(g, kind, e, k % 14 == 0)
        a, b = h.mat(kind, f, m, l, "r", win), h.mat(kind, f, l, c, "r", win)
        names = (E_ADDMUL if acc else E_MUL) if kind == "E" else (S_ADDMUL if acc else S_MUL)
        for nm in r.sample(names, min(len(names), 4 if kind == "E" else 3)):
            tail = ()
            if nm.endswith("_blm") and kind == "S":
                tail = (r.choice([0, blm(h, f, e)]),)
            elif nm.endswith("strassen"):
                if min(m, l, c) == 0:
                    continue
                tail = (r.choice([96 // width(e), 96 // width(e), 64, 0]),)
            if acc and nm in NEW_ADDMUL and r.random() < .15:
                h.nw(nm, kind, f, m, c, a, b, *tail)
            elif acc:
                d = h.mat(kind, f, m, c, r.choice([("rand",), ("rand",), ("zero",)]), win)
                h.op(nm, d, a, b, *tail)
            else:
                h.into(nm, kind, f, m, c, (a, b), tail, win=win)
        if k % 7 == 0 and kind == "E":
            if acc:
                for nm in ["_mzed_addmul", "_mzed_mul_naive", "_mzed_mul_newton_john", "_mzed_mul_newton_john0", "_mzed_addmul_karatsuba", "_mzed_addmul_blm"]:
                    if nm in NEW_ADDMUL and r.random() < .3:
                        h.nw(nm, kind, f, m, c, a, b)
                        continue
                    d = h.mat(kind, f, m, c, ("rand",), win)
                    h.op(nm, d, a, b)
            else:
                h.into("_mzed_mul_init1", kind, f, m, c, (a, b), win=win)


def big_products(g, acc):
    """sizes at which the top-level functions change algorithm, and deep recursion"""
    r = g.r
    # packed product, at least 512 in every dimension: bit-sliced Karatsuba
    for k, e in enumerate([r.choice([2, 2, 3]), r.choice([4, 5, 6])] if not g.thorough else [2, 3, 4, 5, 7, 8, 9]):
        h = g.hist()
        f = h.field(e)
        m, l, c = 512 + r.randrange(3), 512 + r.randrange(3), 512 + r.randrange(3)
        win = [1, 0][k % 2]
        if k % 2:
            m = l = c
        a = h.mat("E", f, m, l, ("rand",), win)
        b = a if k % 2 and acc else h.mat("E", f, l, c, ("rand",), win)
        d = h.mat("E", f, m, c, ("rand",), win)
        if acc:
            h.op("mzed_addmul", d, a, b)
        elif k % 2:
            h.nw("mzed_mul", "E", f, m, c, a, b)
        else:
            h.op("mzed_mul", d, a, b)
    # Strassen: two or three levels, with and without remainders in each dimension
    for k in range(60 if g.thorough else 14):
        e = DEGREES[(k * 4 + r.randrange(4)) % 15]
        st = 64 // width(e)
        h = g.hist()
        f = h.field(e)
        # below a cut-over of 1.5 words the blocks, rounded to words, are empty
        lv = r.choice({4: [1, 2, 3, 4], 8: [1, 2, 3], 16: [1, 2], 32: [1, 1, 1, 2]}[st])
        base = st * (2 ** lv)
        m, l, c = [base * r.choice([1, 1, 2] if base < 40 else [1]) + r.choice([0, 0, 1, st - 1, st, st + 1]) for _ in range(3)]
        a, b = h.mat("E", f, m, l, "r", .3), h.mat("E", f, l, c, "r", .3)
        for cut in r.sample([3 * st // 2, 3 * st // 2 + 1, 2 * st, 64], 2):
            if acc:
                d = h.mat("E", f, m, c, ("rand",), .3)
                h.op(r.choice(["mzed_addmul_strassen", "_mzed_addmul_strassen"]), d, a, b, cut)
            else:
                d = h.mat("E", f, m, c, ("rand",), .3)
                h.op(r.choice(["mzed_mul_strassen", "_mzed_mul_strassen"]), d, a, b, cut)
    # Strassen: one dimension much larger than the others
    for k in range(30 if g.thorough else 9):
        e = r.choice([9, 10, 11, 12, 13, 14, 15, 16] if k % 3 else [5, 6, 7, 8])
        st = 64 // width(e)
        h = g.hist()
        f = h.field(e)
        v = [4 * st + r.choice([0, 1, st - 1, st]) for _ in range(3)]
        v[k // 3 % 3] = r.choice([129, 130, 200, 257])
        a, b = h.mat("E", f, v[0], v[1], ("rand",), .2), h.mat("E", f, v[1], v[2], ("rand",), .2)
        d = h.mat("E", f, v[0], v[2], ("rand",), .2)
        h.op("mzed_addmul_strassen" if acc else "mzed_mul_strassen", d, a, b, 3 * st // 2)
    # Newton-John: many rows (giant steps), many columns (eight tables at once and the rest)
    for k in range(12 if g.thorough else 3):
        h = g.hist()
        e = 2 if k % 3 == 0 else r.choice([2, 2, 3, 4]) if g.thorough else r.choice([2, 3])
        f = h.field(e)
        m = 2048 * width(e) + r.choice([0, 1, 700])
        l, c = r.choice([8, 9, 17]), r.choice([3, 33])
        win = [0, 1, .4][k % 3]
        a, b = h.mat("E", f, m, l, ("rand",), win), h.mat("E", f, l, c, ("rand",), win)
        d = h.mat("E", f, m, c, ("rand",), win)
        h.op("mzed_addmul_newton_john" if acc else "mzed_mul_newton_john", d, a, b)
    for k in range(60 if g.thorough else 15):
        e = DEGREES[k % 15] if g.thorough else 2 + k % 10
        h = g.hist()
        f = h.field(e)
        m, l, c = e + r.choice([0, 1, 20]), r.choice([7, 8, 9, 16, 31, 40]), r.choice([1, 5, 40, 130])
        a, b = h.mat("E", f, m, l, "r", .2), h.mat("E", f, l, c, "r", .2)
        nm = "mzed_addmul_newton_john" if acc else "mzed_mul_newton_john"
        d = h.mat("E", f, m, c, ("rand",), .2)
        h.op(nm, d, a, b)
    # every number of tables left over, for every degree
    for e in DEGREES:
        for rem in range(8):
            h = g.hist()
            f = h.field(e)
            m, l, c = e + r.choice([0, 1, 2]), rem + r.choice([8, 8, 0, 16] if rem else [8, 16]), r.choice([1, 2, 5])
            a, b = h.mat("E", f, m, l, ("rand",), .2), h.mat("E", f, l, c, ("rand",), .2)
            d = h.mat("E", f, m, c, ("rand",), .2)
            h.op("mzed_addmul_newton_john" if acc else "mzed_mul_newton_john", d, a, b)
    # bit-sliced, every degree, larger
    for e in DEGREES:
        h = g.hist()
        f = h.field(e)
        m, l, c = r.choice([65, 70, 130]), r.choice([65, 128, 130]), r.choice([64, 100, 193])
        a, b = h.mat("S", f, m, l, ("rand",), .3), h.mat("S", f, l, c, ("rand",), .3)
        d = h.mat("S", f, m, c, ("rand",), .3)
        h.op(r.choice(S_ADDMUL[:4] if acc else S_MUL[:2]), d, a, b)


def basis_products(g, acc):
    """A bilinear map is determined by its values on pairs of basis elements: a column holding
    x^0, x^1, ... times a row holding them has every product of two basis elements as an entry.
    Every irreducible polynomial up to degree 8 (10), a sample above."""
    r = g.r
    for e in DEGREES:
        ps = irreducibles(e) if e <= (10 if g.thorough else 8) else [some_irreducible(r, e) for _ in range(60 if g.thorough else 12)]
        for p in ps:
            h = g.hist()
            f = h.field(e, p)
            for kind in "ES":
                names = (E_ADDMUL if acc else E_MUL) if kind == "E" else (S_ADDMUL if acc else S_MUL)
                if len(ps) > 20:
                    names = r.sample(names, 2)
                n = e if r.random() < .7 else r.choice([64 // width(e) + 1, 65])
                h.w += e * n * 20
                a, b = h.new(kind, f, e, 1), h.new(kind, f, 1, n)
                h.op("set", a, *[1 << i for i in range(e)])
                h.op("set", b, *[1 << (j % e) for j in range(n)])
                for nm in names:
                    if nm.endswith("strassen") and min(e, n) < 2:
                        continue
                    tail = (64,) if nm.endswith("strassen") else (0,) if nm.endswith("_blm") and kind == "S" else ()
                    if acc:
                        d = h.mat(kind, f, e, n, ("rand",))
                        h.op(nm, d, a, b, *tail)
                    else:
                        h.into(nm, kind, f, e, n, (a, b), tail)


def same_operand(g, acc):
    """the same matrix as both factors, or two windows of one matrix, for every function and degree"""
    r = g.r
    for k in range(180 if g.thorough else 60):
        e = DEGREES[k % 15]
        h = g.hist()
        f = h.field(e)
        kind = "SE"[k // 15 % 2]
        n = r.choice([2, 3, 5, 9, 17]) if k < 30 else r.choice([1, 33, 64, 65, 70])
        a = h.mat(kind, f, n, n, "r", .3)
        b = a
        how = r.randrange(4)
        if how == 3:
            # overlapping rectangles, or the same one, under two names
            root = h.mat(kind, f, n + 1, n + 1, "r")
            d = r.randrange(2)
            a, b = h.window(root, 0, 0, n, n), h.window(root, d, 0, n + d, n)
        names = (E_ADDMUL if acc else E_MUL) if kind == "E" else (S_ADDMUL if acc else S_MUL)
        for nm in names if k < 30 else r.sample(names, 2):
            tail = (max(64, 96 // width(e)),) if nm.endswith("strassen") else (0,) if nm.endswith("_blm") and kind == "S" else ()
            if acc:
                d = h.mat(kind, f, n, n, ("rand",), .2)
                h.op(nm, d, a, b, *tail)
            else:
                h.into(nm, kind, f, n, n, (a, b), tail, win=.2)


def mul(g):
    products(g, False)
    basis_products(g, False)
    same_operand(g, False)
    big_products(g, False)


def addmul(g):
    products(g, True)
    basis_products(g, True)
    same_operand(g, True)
    big_products(g, True)


# --------------------------------------------------------------------------- P09
E_ECH = ["mzed_echelonize", "mzed_echelonize_naive", "mzed_echelonize_newton_john", "mzed_echelonize_ple"]
ECH_FILL = ["rand"] * 3 + ["rank"] * 6 + ["sparse", "sparse", "const", "diag", "single", "reprow", "reprow", "lowzero", "lowzero", "zero", "bits", "perm"]


def every_matrix(g, what):
    """All matrices of a small shape over a small field: (degree, rows, columns).
    what(history, kind, field, a, values) makes calls about the matrix a."""
    r = g.r
    shapes = [(2, 1, 1), (2, 1, 2), (2, 2, 1), (2, 2, 2), (2, 1, 3), (2, 3, 1), (3, 1, 1), (3, 1, 2), (3, 2, 1)]
    large = [(2, 2, 3), (2, 3, 2), (3, 2, 2)]
    for e, m, n in shapes + large:
        tot = 1 << (e * m * n)
        idx = list(range(tot))
        if (e, m, n) in large and not g.thorough:
            idx = r.sample(idx, 700)
        for kind in "ES":
            for k in range(0, len(idx), 48):
                h = g.hist()
                f = h.field(e)
                a = h.new(kind, f, m, n)
                for v in idx[k:k + 48]:
                    vals = [(v >> (e * t)) & ((1 << e) - 1) for t in range(m * n)]
                    h.op("set", a, *vals)
                    what(h, kind, f, a, m, n, vals)


def copy_of(h, kind, f, m, n, a):
    """a copy of a in an object of this history that is used again and again"""
    if getattr(h, "scratch", None) is None:
        h.scratch = h.new(kind, f, m, n)
    h.op("mzed_copy" if kind == "E" else "mzd_slice_copy", h.scratch, a)
    return h.scratch


def pivots_of(digits, bl, n):
    """the number of pivots that a profile asks for"""
    t = 0
    for i, d in enumerate(digits):
        w = min(bl, n - i * bl)
        t += (0, 1, 1, min(3, w), w, (w + 1) // 2, w - 1, w - w // 2)[d]
    return t


def profiles(g, kind):
    """matrices with prescribed pivot columns: every pair of kinds of two blocks of columns, samples
    of three and four; a block is a word, or what tables take in one step. Yields (h, f, a, m, n)."""
    r = g.r
    pairs = [(i, j) for i in range(8) for j in range(8)]
    more = [tuple(r.randrange(8) for _ in range(r.choice([3, 3, 4]))) for _ in range(300 if g.thorough else 90)]
    for k, ds in enumerate(pairs * (4 if g.thorough else 1) + more):
        e = r.choice(DEGREES)
        h = g.hist()
        f = h.field(e)
        bl = 64 if kind == "S" else r.choice([64 // width(e), 64 // width(e), 6, 42 // e or 1, r.randrange(25, 65)])
        if bl == 1:
            bl = 2
        tail = r.choice([1, 2, (bl + 1) // 2, bl - 1, bl])
        n = bl * (len(ds) - 1) + tail
        m = pivots_of(ds, bl, n) + r.choice([-2, 0, 0, 1, 1, 2, 5])
        m = min(max(m, 1), 150)
        a = h.mat(kind, f, m, n)
        h.fill(a, "profile", sum(d << (3 * i) for i, d in enumerate(ds)), 16 * bl + 8 * (r.random() < .3) + r.choice([0, 0, 0, 1, 2, 3, 4]))
        yield h, f, a, m, n


def flag(r):
    """0: not reduced, anything else: reduced"""
    return r.choice([0, 0, 0, 0, 1, 1, 1, 2, -1, 64])


def echelon(g):
    r = g.r

    def all_forms(h, kind, f, a, m, n, vals):
        for nm in (r.sample(E_ECH, 2) if kind == "E" else ["mzd_slice_echelonize"]):
            h.op(nm, copy_of(h, kind, f, m, n, a), flag(r) if r.random() < .5 else 1)
    every_matrix(g, all_forms)
    n = 3500 if g.thorough else 1440
    for k in range(n):
        e = DEGREES[k % 15]
        h = g.hist()
        f = h.field(e)
        kind = "S" if r.random() < .4 else "E"
        if r.random() < .4:
            m, c = r.randrange(1, 25), r.randrange(1, 25)
        else:
            m, c = g.dims(kind, e, r.choice([20, 80])) or 1, g.dims(kind, e)
        if k % 22 == 0:
            m, c = g.big(kind, e)
        a = h.mat(kind, f, m, c, None, .25)
        h.rfill(a, ECH_FILL)
        if kind == "S":
            h.op("mzd_slice_echelonize", a, flag(r))
            h.op("mzd_slice_echelonize", a, 1)
        else:
            for nm in r.sample(E_ECH, 2):
                b = h.mat(kind, f, m, c, None, .25)
                h.op("mzed_copy", b, a)
                h.op(nm, b, flag(r))
                if b in h.roots:
                    h.op("mzed_first_zero_row", b)
                h.op(r.choice(E_ECH), b, r.choice([1, 1, 1, 2]))
    for h, f, a, m, n in profiles(g, "S"):
        full = int(r.randrange(3) > 0)
        h.op("mzd_slice_echelonize", a, full and r.choice([1, 1, 1, 2, -1, 64]))
    for h, f, a, m, n in profiles(g, "E"):
        for nm in E_ECH:
            h.op(nm, copy_of(h, "E", f, m, n, a), flag(r))
            if nm == "mzed_echelonize_naive" or r.random() < .3:
                h.op(nm, copy_of(h, "E", f, m, n, a), flag(r))
    # more pivots per step, larger ranks
    for k in range(100 if g.thorough else 26):
        e = DEGREES[k % 6] if k < 20 else DEGREES[k % 15]
        h = g.hist()
        f = h.field(e)
        m, c = r.choice([40, 65, 90, 129, 150]), r.choice([40, 64, 65, 100, 128, 129, 140, 200])
        kind = r.choice("SE")
        a = h.new(kind, f, m, c)
        h.fill(a, *r.choice([("rand",), ("rank", min(m, c) // 2, 3), ("rank", min(m, c) - 1, 1), ("rank", min(64, m, c), 0), ("rank", min(63, m, c), 3), ("sparse", 60)]))
        full = r.choice([1, 1, 0])
        h.op(r.choice(E_ECH[1:3]) if kind == "E" and r.random() < .6 else "mzed_echelonize_ple" if kind == "E" else "mzd_slice_echelonize", a, full)
    # matrices above the size at which block decomposition is used
    for k in range(12 if g.thorough else 3):
        h = g.hist()
        e = [16, 4, 9, 2, 7, 13][k % 6]
        w = width(e)
        f = h.field(e)
        c = r.choice([70, 129, 200])
        if e == 16:
            m, c = 4200000 // (w * 2000) + 1, 2001
        else:
            m = max(4200000 // (w * c) + 1, e)
        if k % 2 == 1 and e <= 4:
            m, c = c, m
        a = h.new("E", f, m, c)
        h.fill(a, *r.choice([("rank", 60, 1), ("rank", 66, 3), ("rank", 40, 0)]))
        h.op("mzed_echelonize", a, r.choice([1, 0]))


# --------------------------------------------------------------------------- P10
def ple(g):
    r = g.r

    def all_decompositions(h, kind, f, a, m, n, vals):
        if not hasattr(h, "pq"):
            h.pq = (h.perm(m), h.perm(n))
        for nm in r.sample(["mzed_ple_naive", "mzed_ple_newton_john", "mzed_ple"], 2) if kind == "E" else ["mzd_slice_ple", "mzd_slice_pluq"]:
            h.op(nm, copy_of(h, kind, f, m, n, a), *h.pq)
    every_matrix(g, all_decompositions)
    n = 3500 if g.thorough else 1620
    for k in range(n):
        e = DEGREES[k % 15]
        h = g.hist()
        f = h.field(e)
        kind = r.choice("SE")
        big = r.random() < .25
        if big:
            m, c = r.choice([3, 20, 63, 64, 65, 70, 100]), r.choice([65, 66, 100, 128, 129, 130, 191, 193, 200, 257])
        else:
            m, c = r.randrange(1, 25), r.randrange(1, 40)
        if k % 22 == 0:
            big = True
            m, c = g.big(kind, e)
        a = h.mat(kind, f, m, c, None, .2)
        h.rfill(a, ECH_FILL)
        ops = (["mzed_ple_naive", "mzed_ple_newton_john", "mzed_ple", "_mzed_ple"] if kind == "E" else
               ["mzd_slice_ple", "_mzd_slice_ple", "_mzd_slice_ple", "mzd_slice_pluq", "_mzd_slice_pluq", "_mzd_slice_pluq"])
        if big and k % 3:
            ops = [o for o in ops if o[0] == "_"]
        for o in r.sample(ops, 2 if not big else 1):
            b = h.mat(kind, f, m, c, None, .2, edge=kind == "S")   # see known-findings
            h.op("mzed_copy" if kind == "E" else "mzd_slice_copy", b, a)
            p, q = h.perm(m), h.perm(c)
            if r.random() < .5:
                h.fill(p, "pids", 0)
                h.fill(q, "pids", 0)
            h.op(o, b, p, q, *([r.choice([1, 1, 500, 5000] + [0] * (kind == "E"))] if o[0] == "_" else []))
    for h, f, a, m, n in profiles(g, "S"):
        o = r.choice(["_mzd_slice_ple", "_mzd_slice_ple", "_mzd_slice_pluq"])
        h.op(o, a, h.perm(m), h.perm(n), r.choice([1, 1, 2000]))
    for h, f, a, m, n in profiles(g, "E"):
        for o in ["mzed_ple_naive", "mzed_ple_newton_john"] + r.sample(["mzed_ple", "_mzed_ple"], 1):
            h.op(o, copy_of(h, "E", f, m, n, a), h.perm(m), h.perm(n), *([1] if o[0] == "_" else []))


# --------------------------------------------------------------------------- P11
def trsm(g):
    r = g.r

    def rhs():
        return r.choice(["r", "r", ("sparse", r.choice([5, 20, 60]))])

    def all_systems(h, kind, f, a, m, n, vals):
        if m != n or any(vals[i * n + i] == 0 for i in range(n)):
            return
        if not hasattr(h, "rhs"):
            h.rhs = h.mat(kind, f, m, r.choice([1, 2, 3]), ("rand",))
        pre = "mzed" if kind == "E" else "mzd_slice"
        for u in ("upper", "lower"):
            h.op("%s_trsm_%s_left%s" % (pre, u, r.choice(["", "_naive", "_newton_john"])), a, h.rhs)
    every_matrix(g, all_systems)
    n = 3500 if g.thorough else 1620
    for k in range(n):
        e = DEGREES[k % 15]
        h = g.hist()
        f = h.field(e)
        kind = r.choice("SE")
        pre = "mzed" if kind == "E" else "mzd_slice"
        big = r.random() < .16
        m = r.choice([65, 66, 100, 127, 128, 129]) if big else r.choice([1, 2, 3, 5, 8, 9, 17, 20, 33])
        c = r.choice([1, 2, 5, 17, 33, 64, 65]) if not big else r.choice([1, 2, 3, 20, 65])
        if k % 22 == 0:
            m, c = g.big(kind, e)[::r.choice([1, -1])]
            if m > 150:
                m = r.choice([1, 2, 3, 4, 9])
        u = r.choice(["upper", "lower"])
        t = h.mat(kind, f, m, m, (u, r.choice([0, 1, 1, 1]), r.choice([0, 1, 1, 2, 3])), .25)
        b = h.mat(kind, f, m, c, rhs(), .25)
        h.op("%s_trsm_%s_left%s" % (pre, u, r.choice(["", "_naive", "_newton_john"])), t, b)
        b = h.mat(kind, f, m, c, rhs(), .25)
        h.op("_%s_trsm_%s_left" % (pre, u), t, b, r.choice([64, 64, 65, 100, 0x10000]))
    # tables instead of element-wise elimination: more rows than the field has elements
    for k in range(80 if g.thorough else 24):
        e = r.choice([2, 2, 3, 3, 4, 5])
        h = g.hist()
        f = h.field(e)
        kind = r.choice("SE")
        pre = "mzed" if kind == "E" else "mzd_slice"
        m = 2 ** e + r.choice([0, 1, 2, 20])
        c = r.choice([1, 3, 33, 70, 9 * 64 // width(e), 600 if e < 4 else 150])
        for u in ("upper", "lower"):
            t = h.mat(kind, f, m, m, (u, 1, 1), .25)
            b = h.mat(kind, f, m, c, rhs(), .25)
            h.op("%s_trsm_%s_left%s" % (pre, u, r.choice(["", "_newton_john"])), t, b)
    for e in [6, 7, 8, 8, 9] * (3 if g.thorough else 1):
        for kind in "SE":
            h = g.hist()
            f = h.field(e)
            pre = "mzed" if kind == "E" else "mzd_slice"
            m = 2 ** e + r.choice([1, 2, 7])
            for u in ("upper", "lower"):
                t = h.mat(kind, f, m, m, (u, 1, 1))
                b = h.mat(kind, f, m, r.choice([1, 2, 9]), ("rand",), .25)
                h.op("%s_trsm_%s_left_newton_john" % (pre, u), t, b)
                h.op("%s_trsm_%s_left" % (pre, u), t, b)
    # halves, for every degree
    for e in range(2, 17):
        for kind in "SE":
            h = g.hist()
            f = h.field(e)
            pre = "mzed" if kind == "E" else "mzd_slice"
            for u in ("upper", "lower"):
                m = r.choice([65, 66, 100, 127, 128, 129])
                t = h.mat(kind, f, m, m, (u, 1, r.choice([1, 2])))
                b = h.mat(kind, f, m, r.choice([65, 66, 70]), ("rand",), .2)
                h.op("_%s_trsm_%s_left" % (pre, u), t, b, 64)
    # default cut-over
    for k in range(8 if g.thorough else 2):
        h = g.hist()
        f = h.field([2, 5, 9, 3][k % 4])
        kind = r.choice("SE")
        pre = "mzed" if kind == "E" else "mzd_slice"
        u = ["upper", "lower"][(k // 2 + r.randrange(2)) % 2]
        t = h.mat(kind, f, 515, 515, (u, 1, 1))
        b = h.mat(kind, f, 515, 514, ("rand",))
        h.op("%s_trsm_%s_left" % (pre, u), t, b)


# --------------------------------------------------------------------------- P12
def inverse(g):
    r = g.r

    def all_inverses(h, kind, f, a, m, n, vals):
        # (a singular matrix ends the program, so these are not put into one history with others)
        if m != n or kind != "E" or m > 2:
            return
        e = h.fields[f]
        p = h.polys[f]

        def mulp(x, y):
            z = 0
            for i in range(e):
                if y >> i & 1:
                    z ^= x << i
            return pmod(z, p)
        det = vals[0] if m == 1 else mulp(vals[0], vals[3]) ^ mulp(vals[1], vals[2])
        if det:
            if not hasattr(h, "tgt"):
                h.tgt = h.mat(kind, f, m, m, ("rand",))
            h.op("mzed_invert_newton_john", h.tgt, a)
    every_matrix(g, all_inverses)
    n = 2500 if g.thorough else 1080
    for k in range(n):
        e = DEGREES[k % 15]
        h = g.hist()
        f = h.field(e)
        m = r.choice([1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 20, 31, 32, 33, 40] + ([64, 65, 90] if r.random() < .2 else []))
        if k % 180 == 0:
            m = r.choice([127, 128, 129, 150, 193])
        a = h.mat("E", f, m, m, None, .25)
        if r.random() < .85:
            h.fill(a, *r.choice([("inv",), ("inv", 3), ("inv", 10), ("perm", 1), ("diag", -1), ("upper", 1, 0), ("lower", 0, 0)]))
        else:
            h.fill(a, *r.choice([("rank", m - 1, 0), ("rank", m // 2, 3), ("zero",), ("lowzero", 1, 0), ("reprow", 1), ("const", 1)]))
        if r.random() < .15:
            # in place
            h.op("mzed_invert_newton_john", a, a)
        b = h.into("mzed_invert_newton_john", "E", f, m, m, (a,), win=.25)
        h.nw("mzed_mul", "E", f, m, m, a, b)
        h.into("mzed_invert_newton_john", "E", f, m, m, (b,), win=.25)


# --------------------------------------------------------------------------- P13
IRR_COUNT = {1: 2, 2: 1, 3: 2, 4: 3, 5: 6, 6: 9, 7: 18, 8: 30, 9: 56, 10: 99, 11: 186, 12: 335, 13: 630, 14: 1161, 15: 2182, 16: 4080}


def plan_ok(p):
    """can the moduli be taken as irreducibles and, failing that, their squares, 4th, 8th powers?"""
    used = {d: 0 for d in range(17)}
    for d in range(1, 17):
        for _ in range(p[d]):
            if used[d] < IRR_COUNT[d]:
                used[d] += 1
            elif d % 2 == 0 and used[d // 2] < IRR_COUNT[d // 2]:
                used[d // 2] += 1
            elif d % 4 == 0 and used[d // 4] < IRR_COUNT[d // 4]:
                used[d // 4] += 1
            elif d % 8 == 0 and used[d // 8] < IRR_COUNT[d // 8]:
                used[d // 8] += 1
            else:
                return False
    return True


def crt_for(r, need, maxdeg):
    """a random set of moduli: p[0] points at infinity, p[d] irreducibles (or powers) of degree d"""
    p = [0] * 17
    p[0] = r.choice([0, 0, 1, 2, 3])
    have = p[0]
    tries = 0
    while have < need:
        tries += 1
        if tries > 40 and maxdeg < 16:
            maxdeg, tries = maxdeg + 1, 0
        d = r.randrange(1, maxdeg + 1)
        p[d] += 1
        if plan_ok(p):
            have += d
        else:
            p[d] -= 1
    return p


def bilinear(g):
    r = g.r
    cases = []
    for fn in range(1, 17):
        cases.append((fn, fn))
    for fn in range(1, 17):
        for gn in range(1, 17):
            if fn != gn and (g.thorough or r.random() < .3):
                cases.append((fn, gn))
    # rows of F, G and H longer than a word
    big = [(64, 2), (65, 65), (2, 66), (33, 32), (32, 33)]
    big += [r.choice([(r.randrange(17, 80), r.randrange(1, 80)), (r.randrange(1, 80), r.randrange(17, 80)),
                      (r.choice([63, 64, 65, 127, 128, 129]), r.randrange(1, 8))]) for _ in range(30 if g.thorough else 8)]
    for fn, gn in big:
        h = g.hist()
        h.w = fn * gn * 30
        h.op("blm_init_crt", h.id(), 0, fn, gn, r.randrange(2))
        i = h.id()
        h.op("blm_init_crt", i, 0, fn, gn, r.randrange(2), *crt_for(r, fn + gn - 1, r.choice([8, 10, 12, 16])))
        h.op("free", i)
    for fn, gn in cases:
        h = g.hist()
        h.w = fn * gn * 5
        for dj in (0, 1):
            i = h.id()
            h.op("blm_init_crt", i, 0, fn, gn, dj)
            h.op("free", i)
        for _ in range(2):
            p = crt_for(r, fn + gn - 1, r.choice([2, 3, 4, 6, 8]) if fn + gn < 26 else r.choice([5, 6, 8, 10]))
            h.op("blm_init_crt", h.id(), 0, fn, gn, r.randrange(2), *p)
        if fn == gn and fn > 1:
            for _ in range(3):
                f = h.field(fn)
                h.op("blm_init_crt", h.id(), f, fn, fn, r.randrange(2))
    for k in range(1500 if g.thorough else 260):
        h = g.hist()
        m, l, c = [r.choice([1, 2, 3, 5, 10, 63, 64, 65]) if k % 4 else r.choice([1, 2, 5, 9]) for _ in range(3)]
        if k % 13 == 0:
            m, l, c = mul_dims(g, "S", 8, True)
        da = r.choice([15, 14]) if k % 16 == 0 else r.randrange(0, 16)
        db = da if k % 2 == 0 else r.randrange(0, 16)
        if k % 10 == 7:     # a long one and a short one
            da = r.randrange(16, 31)
            db = r.choice([0, 30 - da, r.randrange(0, 31 - da)])
            if r.random() < .5:
                da, db = db, da
        if k % 4:       # large coefficients or many of them
            while m * l * c > 20000 and (da + 1) * (db + 1) > 60:
                m, l, c = (m + 1) // 2, (l + 1) // 2, (c + 1) // 2
        if k % 9 == 1:
            # a square
            m = l = c = min(m, l, c)
            db = da = min(da, 15)
        a = h.poly(da, m, l)
        b = a if k % 9 == 1 else h.poly(db, l, c)
        fn, gn = da + 1, db + 1
        h.w = fn * gn * m * l * c // 60 + 40
        ops = ["naive", "naive"]
        if da == db:
            ops += ["karatsuba", "karatsuba", "karatsuba"]
        for o in r.sample(ops, 2):
            d = h.poly(da + db, m, c, r.choice(["rand", "rand", "zero"]))
            h.op("mzd_poly_addmul_" + o, d, a, b)
        if r.random() < .4:
            i = h.id()
            h.op("mzd_poly_addmul_" + r.choice(ops) + "!", i, a, b)
        bl = h.id()
        h.op("blm_init_crt", bl, 0, fn, gn, r.randrange(2), *([] if r.random() < .6 else crt_for(r, fn + gn - 1, r.choice([3, 4, 6, 8]))))
        for o in r.sample(["blm", "crt", "ext1"], 2 if k % 3 else 3):
            d = h.poly(da + db, m, c, r.choice(["rand", "rand", "zero"]))
            h.op("mzd_poly_addmul_" + o, d, a, b, *([bl] if o == "blm" else []))
        if r.random() < .3:
            i = h.id()
            h.op("mzd_poly_addmul_blm!", i, a, b, bl)
        h.op("free", bl)
    # results of more coefficients than any other operation makes
    for k in range(300 if g.thorough else 40):
        h = g.hist()
        m, l, c = [r.choice([1, 2, 3, 5, 9]) for _ in range(3)]
        if k % 8 == 0:
            m, l, c = r.choice([(64, 3, 2), (2, 65, 2), (1, 3, 70), (65, 2, 1)])
        da = r.choice([0, 1, 15, 16, 30, 31, 32, r.randrange(0, 50)])
        db = r.randrange(max(0, 31 - da), 70 - da) if k % 3 else max(0, 31 - da)
        a, b = h.poly(da, m, l), h.poly(db, l, c)
        h.w = (da + 1) * (db + 1) * m * l * c // 30 + 400
        for o in r.sample(["naive", "blm", "crt", "ext1"], 2):
            bl = h.id()
            if o == "blm":
                h.op("blm_init_crt", bl, 0, da + 1, db + 1, r.randrange(2))
            if k % 5 == 4 and o in ("naive", "blm"):
                h.op("mzd_poly_addmul_" + o + "!", h.id(), a, b, *([bl] if o == "blm" else []))
            else:
                d = h.poly(da + db, m, c, r.choice(["rand", "rand", "zero"]))
                h.op("mzd_poly_addmul_" + o, d, a, b, *([bl] if o == "blm" else []))
        dd = r.choice([31, 32, 33, 34, 40, 64])
        x, y, z = h.poly(dd, m, c), h.poly(dd, m, c), h.poly(dd, m, c)
        h.op("mzd_poly_add", *r.choice([(z, x, y), (x, x, y), (y, x, y), (x, x, x), (z, x, x)]))
        h.op("mzd_poly_randomize", y, h.seed())
        h.op("mzd_poly_cmp", x, y)
        h.op("mzd_poly_add", z, y, z)
        h.op("mzd_poly_cmp", z, z)
        h.op("free", x)
    for k in range(400 if g.thorough else 60):
        h = g.hist()
        m, c, d = r.choice([1, 2, 5, 64, 65]), r.choice([1, 3, 64, 65]), (k % 31)
        a, b = h.poly(d, m, c), h.poly(d, m, c)
        t = h.poly(d, m, c)
        h.op("mzd_poly_add", t, a, b)
        h.op("mzd_poly_cmp", a, b)
        h.op("mzd_poly_cmp", a, a)
        h.op("mzd_poly_randomize", b, h.seed())
        h.op("mzd_poly_adapt_depth", a, r.randrange(0, 32))
        h.op("mzd_poly_cmp", a, b)
        h.op("mzd_poly_adapt_depth", a, d + 1)
        h.op("mzd_poly_add", a, b, t)
        h.op("mzd_poly_cmp", a, b)
        h.op("mzd_poly_add", *r.choice([(a, a, b), (a, b, a), (b, a, a), (a, a, a)]))
        if d < 29:
            off = r.randrange(0, 29 - d + 1)
            u = h.poly(d + off + r.randrange(0, 29 - d - off + 1), m, c)
            h.op("_mzd_poly_add", u, a, t, off)
            h.op("_mzd_poly_add", t, t, b, 0)
    # matrices over GF(2^e) multiplied through a bilinear map
    for k in range(300 if g.thorough else 75):
        e = DEGREES[k % 15]
        h = g.hist()
        f = h.field(e)
        m, l, c = [r.choice([1, 2, 3, 5, 20, 65]) for _ in range(3)] if k % 4 else mul_dims(g, "S", e, True)
        h.w = e * m * l * c // 100 + e * e * 4
        a, b = h.mat("S", f, m, l, "r", .2), h.mat("S", f, l, c, "r", .2)
        bl = 0
        if r.random() < .7:
            bl = h.id()
            h.op("blm_init_crt", bl, f, e, e, r.randrange(2), *([] if r.random() < .5 else crt_for(r, 2 * e - 1, r.choice([3, 4, 6, 8]) if e < 12 else 8)))
        h.into("mzd_slice_mul_blm", "S", f, m, c, (a, b), (bl,), win=.2)
        d = h.mat("S", f, m, c, ("rand",), .2)
        h.op("mzd_slice_addmul_blm", d, a, b, bl)


# --------------------------------------------------------------------------- P14
def refuse(g):
    """one mismatch per history (the process ends there)"""
    r = g.r
    kinds = ["a_rows", "a_cols", "b_rows", "b_cols", "c_rows", "c_cols", "a_t", "b_t", "c_t", "c_area", "c_row",
             "a_field", "b_field", "c_field", "a_poly", "b_poly", "c_poly", "c_same", "none"]
    calls = []
    for pre, kind in (("mzed", "E"), ("mzd_slice", "S")):
        calls += [("add", kind, pre + "_add"), ("add", kind, pre + "_sub")]
        calls += [("mul", kind, x) for x in (E_MUL + E_ADDMUL if kind == "E" else S_MUL + S_ADDMUL[:2] + S_ADDMUL[4:])]
    calls += [("copy", "E", "mzed_copy"), ("concat", "E", "mzed_concat"), ("stack", "E", "mzed_stack"), ("scal", "E", "mzed_mul_scalar"),
              ("smaller", "S", "mzd_slice_copy"), ("concat", "S", "mzd_slice_concat"), ("stack", "S", "mzd_slice_stack")]
    k = r.randrange(15)
    for rep in range(6 if g.thorough else 1):
        for fam, kind, nm in calls:
            for wrong in kinds:
                for win in (0, .4):
                    k += 1
                    e = DEGREES[k % 15]
                    # products of areas coincide more easily on composite sizes
                    small = r.random() < .7
                    m, l, c = [r.choice([1, 2, 3, 4, 4, 6, 6, 8, 12]) if small else r.choice([1, 5, 31, 32, 33, 63, 64, 65, 66]) for _ in range(3)]
                    D = {"a": [m, l], "b": [l, c], "c": [m, c]}
                    if fam == "add":
                        D = {"a": [m, c], "b": [m, c], "c": [m, c]}
                    elif fam in ("copy", "smaller", "scal"):
                        D = {"a": [m, c], "b": [1, 1], "c": [m, c]}
                    elif fam == "concat":
                        D = {"a": [m, l], "b": [m, c], "c": [m, l + c]}
                    elif fam == "stack":
                        D = {"a": [m, c], "b": [l, c], "c": [m + l, c]}
                    x, how = (wrong + "_").split("_")[:2]
                    if fam in ("copy", "smaller", "concat", "stack") and how in ("field", "poly", "same") or fam in ("concat", "stack") and win:
                        continue
                    if how in ("rows", "cols"):
                        i = 0 if how == "rows" else 1
                        D[x][i] = max(1, D[x][i] + r.choice([-1, 1, 1, 2, 7, -2, 64]))
                    elif how == "t":
                        D[x].reverse()
                    elif how == "area":
                        u, v = D[x]
                        d = r.choice([d for d in range(1, u * v + 1) if u * v % d == 0 and u * v // d <= 160 and d <= 160])
                        D[x] = [d, u * v // d]
                    elif how == "row":
                        D[x] = [1, D[x][0]]
                    h = g.hist()
                    f = h.field(e)
                    f2 = f
                    if how == "field":
                        f2 = h.field(r.choice([q for q in DEGREES if q != e] + [q for q in DEGREES if q != e and width(q) == width(e)] * 4))
                    elif how == "poly":
                        f2 = h.field(e)
                    a, b, d = [h.mat(kind, f2 if how in ("field", "poly") and x == y else f, *D[y], ("rand",), win) for y in "abc"]
                    bang = ""
                    if x != "c" and r.random() < .3 and nm not in E_ADDMUL and nm not in S_ADDMUL:
                        bang, d = "!", h.id()
                    if fam == "scal":
                        h.op(nm + bang, d, r.choice([0, 1, r.randrange(1 << e)]), a)
                    elif fam == "smaller" and (D["c"][0] > D["a"][0] or D["c"][1] > D["a"][1]) and D["c"][0] >= D["a"][0] and D["c"][1] >= D["a"][1]:
                        pass
                    elif fam in ("copy", "smaller"):
                        h.op(nm + bang, d, a)
                    else:
                        h.op(nm + bang, d, a, b, *([0] if nm.endswith("_blm") and kind == "S" else [64] if nm.endswith("strassen") else []))
    # large matrices are multiplied by a table, which nothing else looks after
    for k in range(21 if g.thorough else 7):
        h = g.hist()
        e = r.randrange(2, 9)
        f, f2 = h.field(e), h.field(e)
        m = 1024 >> k % 3
        b = h.mat("E", f, m, (1 << 17) // m + 1, ("const", 1))
        d = h.mat("E", *[(f, m - 1, (1 << 17) // m + 1), (f, m, (1 << 17) // m), (f, m, (1 << 17) // m + 2), (f2, m, (1 << 17) // m + 1), (f, m, 1),
                        (f, m + 1, (1 << 17) // m + 1), (f, (1 << 17) // m + 1, m)][k % 7], ("rand",) if k % 7 == 4 else ("zero",))
        h.op("mzed_mul_scalar", d, r.choice([1, r.randrange(1 << e)]), b)
    for k in range(120 if g.thorough else 30):
        e = DEGREES[k % 15]
        h = g.hist()
        f = h.field(e)
        m = r.randrange(1, 12)
        a = h.mat("E", f, m, m, None)
        h.fill(a, *r.choice([("rank", m - 1, 0), ("rank", m // 2, 3), ("zero",), ("lowzero", 1, 0), ("lowzero", 0, 1), ("inv",)]))
        h.into("mzed_invert_newton_john", "E", f, m, m, (a,))


# --------------------------------------------------------------------------- P15
def compare(g):
    r = g.r
    for k in range(2500 if g.thorough else 1400):
        e = DEGREES[k % 15]
        h = g.hist()
        f = h.field(e)
        kind = r.choice("SE")
        pre = "mzed" if kind == "E" else "mzd_slice"
        m, c = g.dims(kind, e, 12), g.dims(kind, e)
        if k % 22 == 0:
            m, c = g.big(kind, e)
        q = 1 << e
        a = h.mat(kind, f, m, c, "r", .25)
        b = h.mat(kind, f, m, c, None, .25)
        h.op(pre + "_copy", b, a)
        h.op(pre + "_cmp", a, b)
        h.op(pre + "_cmp", a, a)
        if m and c:
            for _ in range(3):
                i, j = r.choice([0, m - 1, r.randrange(m)]), r.choice([0, c - 1, r.randrange(c)])
                h.op("poke", b, i, j, r.randrange(q))
                h.op(pre + "_cmp", a, b)
                h.op(pre + "_cmp", b, a)
        z = h.mat(kind, f, m, c, ("zero",), .5)
        h.op(pre + "_is_zero", z)
        h.op(pre + "_is_zero", a)
        if m and c:
            h.op("poke", z, r.choice([0, m - 1, r.randrange(m)]), r.choice([0, c - 1, r.randrange(c)]), r.choice([1, q - 1, 1 << r.randrange(e)]))
            h.op(pre + "_is_zero", z)
            d = h.mat(kind, f, r.choice([m, m + 1]), r.choice([c, c + 1]), "r")
            h.op(pre + "_cmp", a, d)
            h.op(pre + "_cmp", d, a)
        if kind == "E" and m and c:
            t = h.mat(kind, f, m, c, None, .25)
            h.rfill(t, ECH_FILL)
            h.op("mzed_echelonize_naive", t, 1)
            if t in h.roots:
                h.op("mzed_first_zero_row", t)


# --------------------------------------------------------------------------- P16
def tables(g):
    """Newton-John tables and the elimination of rows with them"""
    r = g.r
    for k in range(5000 if g.thorough else 1600):
        e = DEGREES[k % 15] if r.random() < .25 else r.choice(DEGREES[:7])
        h = g.hist()
        f = h.field(e)
        c = max(1, g.dims("E", e, 100))
        if e > 9:
            c = min(c, 9)
        if k % 9 == 0:
            c = g.big("E", e)[1]
            if e > 9:
                c = min(c, 130)
        kk = r.randrange(1, 7) if e <= 8 or r.random() < .5 else 1
        m = kk + (r.randrange(1, 12) if k % 17 else r.choice([60, 64, 65, 130, 513]))
        c = max(c, kk)
        a = h.mat("E", f, m, c, ("rand",), .2 if kk == 1 else 0)    # see known-findings
        if e <= 8 or r.random() < .3:
            again = (r.randrange(m), r.choice([0, 0, r.randrange(c)])) if r.random() < .5 else ()
            h.op("mzed_make_table", a, r.randrange(m), r.choice([0, 0, c - 1, r.randrange(c)]), *again)
        st = r.randrange(0, c - kk + 1)
        r0 = r.choice([0, m - kk, r.randrange(m - kk + 1)])
        # identity block in the pivot rows, zeros before it
        h.op("pivots", a, r0, kk, st)
        pr = "mzed_process_rows" if k % 3 else "mzed_process_rows_again"
        h.op(pr, a, r0 + kk, m, st, *range(r0, r0 + kk))
        h.op(pr, a, 0, r0, st, *range(r0, r0 + kk))


    # every number of words from the start column on (the sum is unrolled eightfold), and before it
    for wide in list(range(1, 11)) + [15, 16, 17]:
        for home in (0, 1, 2, 3, 7, 8, 9, 10):
            e = r.choice([2, 2, 3, 4, 5 if wide + home < 12 else 2])
            st = 64 // width(e)
            h = g.hist()
            f = h.field(e)
            c = st * (home + wide - 1) + r.choice([1, st - 1, st, r.randrange(1, st + 1)])
            a = h.mat("E", f, 4, c, ("rand",), .1)
            c0 = min(c - 1, st * home + r.choice([0, r.randrange(st)]))
            first = () if r.random() < .3 else (r.randrange(4), r.randrange(c))
            h.op("mzed_make_table", a, r.randrange(4), c0, *first)
            h.op("pivots", a, 0, 1, c0)
            h.op("mzed_process_rows", a, 1, 4, c0, 0)

    kept_tables(g)


def kept_tables(g):
    """tables that stay, made again and again for the same and other places while the matrices change"""
    r = g.r
    for k in range(900 if g.thorough else 260):
        e = r.choice([2, 2, 3, 4, 4, 5] + ([6, 8, 9] if k % 5 == 0 else []))
        h = g.hist()
        f = h.field(e)
        step = 64 // width(e)
        c = max(7, g.dims("E", e, 100))
        if k % 6 == 0:
            c = step * r.choice([3, 4, 5, 8, 9]) + r.choice([0, 1, step - 1])
        if e > 5:
            c = min(c, 30 if e < 9 else 10)
        m = r.choice([2, 3, 5, 9])
        a = h.mat("E", f, m, c, ("rand",), .15)
        b = h.mat("E", f, r.choice([1, 2, 4, m]), c, ("rand",), .15)
        t = []
        for _ in range(r.choice([1, 2, 2, 3])):
            i = h.id()
            h.info[i] = ("J", f, 1 << e, c)
            if r.random() < .5:
                h.op("njt_mzed_init", i, f, c)
                col = None
            else:
                col = r.choice([0, c - 1, r.randrange(c)])
                s = r.choice([a, b])
                h.op("njt_make!", i, s, r.randrange(h.info[s][2]), col)
            t.append([i, col, a, 0])
        for _ in range(r.randrange(5, 14)):
            what = r.choice(["make", "make", "remake", "remake", "write", "write", "use", "use", "use", "row"])
            x = r.choice([a, b])
            mx = h.info[x][2]
            i = r.choice(t)
            if what == "make":
                i[1:] = [r.choice([0, c - 1, r.randrange(c), i[1] or 0]), x, r.randrange(mx)]
                h.op("njt_make", i[0], i[2], i[3], i[1])
            elif what == "remake":
                # the same place, where something else may stand now
                if r.random() < .6:
                    h.op("mzed_write_elem", i[2], i[3], r.choice([0, c - 1, r.randrange(c)]), r.randrange(1 << e))
                i[1] = i[1] or 0
                h.op("njt_make", i[0], i[2], i[3], i[1])
            elif what == "write":
                h.op("mzed_write_elem", x, r.randrange(mx), r.randrange(c), r.randrange(1 << e))
            elif what == "row":
                h.op("mzed_row_swap", x, r.randrange(mx), r.randrange(mx))
            else:
                j = r.choice(t)
                if i[1] is None:
                    continue
                use = [i[0]]
                st = max(0, i[1] - r.randrange(3))
                while x in h.roots and len(use) < 6 and j[1] is not None and st <= j[1] <= st + 5 and r.random() < .7:
                    use.append(j[0])
                    j = r.choice(t)
                if st + len(use) > c:
                    use, st = use[:1], i[1]
                lo = r.randrange(mx)
                h.op("njt_process", x, lo, r.randrange(lo, mx + 1), st, *use)


# --------------------------------------------------------------------------- P17
MAKERS = {"mzed_init", "mzd_slice_init", "mzp_init", "mzd_poly_init", "mzed_init_window", "mzd_slice_init_window", "blm_init_crt", "njt_mzed_init"}


def made(lines):
    """what a history leaves behind: [(handle, call that made it)], [fields], windows first"""
    live, flds = [], []
    for l in lines:
        t = l.split()
        if t[0] == "field":
            flds.append(t[1])
        elif t[0] == "field_free":
            flds.remove(t[1])
        elif t[0] == "free":
            live = [x for x in live if x[0] != t[1]]
        elif t[0] in MAKERS or t[0][-1] == "!":
            live.append((t[1], t[0]))
    return live, flds


def features(h):
    """what a history does: each call with the kind of its operands"""
    fs, filled = set(), {}
    for l in h.lines:
        t = l.split()
        op = t[0]
        if op in ("fill", "poke", "pivots", "set", "form"):
            filled[t[1]] = t[2] if op == "fill" else op
            continue
        if op in ("field", "free", "field_free", "audit"):
            continue
        fs.add(op)
        for k, x in enumerate(t[1:4]):
            if not x.isdigit() or int(x) not in h.info or (k > 0 and int(x) <= 1):
                continue
            kind, f, m, n = h.info[int(x)]
            if kind not in "ES":
                continue
            e = h.fields[f]
            words = n * (width(e) if kind == "E" else 1) // 64
            fs.add((op, kind, e if k == 1 else 0))
            fs.add((op, k, kind, min(words, 3) if words < 8 else 8, words == 0 or (n * width(e)) % 64 == 0))
            fs.add((op, k, kind, "rows", m >= 64, m >= 512, m > 1 << e, m < e, m < n, m * n >= 1 << 17))
            if k == 0:
                fs.add((op, filled.get(x)))
        if t[-1] in ("0", "1", "64"):
            fs.add((op, t[-1]))
    return fs


def select(r, hs, n, cost=60000):
    """n of the histories, so that together they do as much as possible of what all of them do"""
    pool = []
    for k, h in enumerate(hs):
        fs = features(h)
        pool.append((-len(fs) / (1 + h.w / cost), r.random(), k, fs))
    heapq.heapify(pool)
    seen, out = set(), []
    while pool and len(out) < n:
        _, t, k, fs = heapq.heappop(pool)
        gain = len(fs - seen) / (1 + hs[k].w / cost)
        if pool and gain < -pool[0][0]:
            if gain:
                heapq.heappush(pool, (-gain, t, k, fs))
            continue
        if not gain:
            break
        seen |= fs
        out.append(k)
    rest = [k for k in range(len(hs)) if k not in set(out)]
    out += r.sample(rest, min(n - len(out), len(rest)))
    return [hs[k] for k in out]


# --------------------------------------------------------------------------- P18
def again(g):
    """the same calls again, with everything released in between and created anew: other
    minimal polynomials of the same degree, other contents, most likely the same addresses"""
    r = g.r
    for name, suite in SUITES.items():
        if name in ("memory", "refuse", "again", "windows"):
            continue
        o = Gen(r.getrandbits(40), "quick")
        suite(o)
        hs = [h for h in o.hists if h.w < 60000 and len(h.lines) < 100]
        big = [h for h in o.hists if 60000 <= h.w < 600000 and len(h.lines) < 20]
        for h0 in select(r, hs, 70 if g.thorough else 24) + (big if name == "linear" else select(r, big, 2)):
            h = g.hist()
            h.w = 3 * h0.w
            live, flds = made(h0.lines)
            for k in range(3):
                for l in h0.lines:
                    t = l.split()
                    if t[0] == "field" and k:
                        e = int(t[2]).bit_length() - 1
                        ps = irreducibles(e) if e <= 8 else [some_irreducible(r, e)]
                        t[2] = str(r.choice([p for p in ps if p != int(t[2])] or ps))
                    elif t[0] == "fill" and k:
                        t[3] = str(h.seed())
                    h.lines.append(" ".join(t))
                r.shuffle(live)
                live.sort(key=lambda x: 0 if "window" in x[1] else 1)
                for i, _ in live:
                    h.op("free", i)
                for i in flds:
                    h.op("field_free", i)


def memory(g):
    """histories of all the other suites, with accounts of what the library holds: after
    every call, or at the end, when everything has been given back"""
    r = g.r
    per = 260 if g.thorough else 90
    for name, suite in SUITES.items():
        if name in ("memory", "refuse", "again"):
            continue
        o = Gen(r.getrandbits(40), "quick")
        suite(o)
        hs = [h for h in o.hists if h.w < 60000 and len(h.lines) < 200]
        big = [h for h in o.hists if 60000 <= h.w < 400000 and len(h.lines) < 200]
        huge = [h for h in o.hists if 400000 <= h.w < 1500000 and len(h.lines) < 20]
        for h0 in select(r, hs, per) + select(r, big, 4) + select(r, huge, 1):
            h = g.hist()
            h.w = h0.w
            every = r.random() < .5
            live, flds, maps = [], [], 0
            for l in h0.lines:
                t = l.split()
                h.lines.append(l)
                if t[0] == "field":
                    flds.append(t[1])
                elif t[0] == "field_free":
                    flds.remove(t[1])
                elif t[0] == "free":
                    live = [x for x in live if x[0] != t[1]]
                elif t[0] in MAKERS or t[0][-1] == "!":
                    live.append((t[1], t[0]))
                else:
                    if t[0] in ("fill", "poke", "pivots", "set"):
                        continue
                if every and not any(x[1] == "blm_init_crt" for x in live):
                    h.op("audit")
            # windows before the matrices they show, otherwise in any order
            r.shuffle(live)
            live.sort(key=lambda x: 0 if "window" in x[1] else 1)
            for i, _ in live:
                h.op("free", i)
            h.op("audit")
            for i in flds:
                h.op("field_free", i)
            h.op("audit")


SUITES = {
    "memory": memory, "again": again,
    "fields": fields, "conversion": conversion, "structure": structure, "rowcol": rowcol, "windows": windows,
    "linear": linear, "mul": mul, "addmul": addmul, "echelon": echelon, "ple": ple, "trsm": trsm, "inverse": inverse,
    "bilinear": bilinear, "refuse": refuse, "compare": compare, "tables": tables,
}
