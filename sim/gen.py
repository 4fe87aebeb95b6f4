"""Seeded generation of scenarios: meshes, elevations, session scripts."""
import math
import random

from . import ops
from .mesh import Mesh


def r6(x):
    return round(x, 6)


def gen_mesh(r, size=None, kind=None):
    size = size or r.choices(["tiny", "small", "mid", "big", "line"],
                             [2, 10, 5, 0.4, 0.5])[0]
    kind = kind or r.choices("svu", [5, 3, 2])[0]
    if size == "tiny":
        nr, nc = r.randint(1, 3), r.randint(1, 3)
        if nr * nc < 2 and r.random() < 0.7:
            nc = 2
    elif size == "small":
        nr, nc = r.randint(2, 6), r.randint(2, 6)
    elif size == "mid":
        nr, nc = r.randint(4, 10), r.randint(4, 10)
    elif size == "big":
        nr, nc = r.randint(14, 22), r.randint(14, 22)
    elif size == "line":
        nr, nc = 1, r.randint(4, 40)
        if r.random() < 0.5:
            nr, nc = nc, nr
    elif size == "river":
        nr, nc = 1, r.choice([r.randint(105, 160), r.randint(105, 160),
                              r.randint(505, 640)])
        if r.random() < 0.5:
            nr, nc = nc, nr
    elif size == "chain":
        nr, nc = 1, r.randint(1050, 1400)
    sp = {"kind": kind}
    u = r.random()
    if u < 0.45:
        dx = r.choice([1.0, 10.0, 250.0, 33.5])
        sp["delr"] = [dx] * nc
        sp["delc"] = [dx if r.random() < 0.7 else dx] * nr
    elif u < 0.6:
        sp["delr"] = [r.choice([10.0, 20.0])] * nc
        sp["delc"] = [r.choice([10.0, 5.0])] * nr
    else:
        sp["delr"] = [r6(r.uniform(3, 30)) for _ in range(nc)]
        sp["delc"] = [r6(r.uniform(3, 30)) for _ in range(nr)]
    if r.random() < 0.06:
        # degrees or kilometres
        k = r.choice([0.01, 1e-3, 1e-4, 1e3])
        sp["delr"] = [float("%.6g" % (x * k)) for x in sp["delr"]]
        sp["delc"] = [float("%.6g" % (x * k)) for x in sp["delc"]]
    elif r.random() < 0.25:
        sp["xoff"], sp["yoff"] = r.choice([1000.0, -20.5]), r.choice([5e4, 7.25])
    if r.random() < 0.2:
        sp["angrot"] = r.choice([15.0, -30.0, 90.0, 45.0])
    if r.random() < 0.12:
        p = r.choice([0.1, 0.4])
        sp["idom"] = [c for c in range(nr * nc) if r.random() < p]
    if kind != "u" and r.random() < 0.2:
        sp["nlay"] = r.randint(2, 3)
    if kind != "s" and r.random() < 0.3:
        sp["pert"] = r.randint(1, 1 << 20)
    if kind != "s" and r.random() < 0.3:
        sp["close"] = 1
    if kind != "s" and r.random() < 0.2:
        sp["jit"] = r.randint(1, 1 << 20)
    if kind != "s" and r.random() < 0.5:
        sp["perm"] = r.randint(1, 1 << 20)
    if kind != "s" and r.random() < 0.7:
        p = r.choice([0.2, 0.5, 1.0])
        modes = r.choice([[1], [2], [1, 2], [3], [1, 2, 3], [4], [4, 0, 0],
                          [3, 4]])
        if nr * nc > 60:
            modes = [x for x in modes if x != 4] or [1]
        sp["cut"] = {
            str(i): r.choice(modes) for i in range(nr * nc) if r.random() < p
        }
    if kind != "s" and nr * nc > 2 and r.random() < 0.15:
        # no cells here and there: holes, islands, corners that just touch
        u = r.random()
        if u < 0.4:
            sp["gone"] = [c for c in range(nr * nc) if r.random() < 0.15]
        elif u < 0.6:
            i, j = r.randrange(nr), r.randrange(nc)
            sp["gone"] = [c for c in range(nr * nc)
                          if (c // nc == i if nr > nc else c % nc == j)]
        elif u < 0.8:
            sp["gone"] = [c for c in range(nr * nc)
                          if (c // nc + c % nc) % 2 and r.random() < 0.8]
        else:
            sp["gone"] = [c for c in range(nr * nc)
                          if 0 < c // nc < nr - 1 and 0 < c % nc < nc - 1]
    return sp


def sibling(r, sp):
    """another mesh with as many cells: nothing may be shared between them"""
    sp = dict(sp)
    nr, nc = len(sp["delc"]), len(sp["delr"])
    u = r.random()
    if u < 0.35:
        # same layout, other sizes
        sp["delr"] = [float("%.6g" % (x * 1.7)) for x in sp["delr"]]
        sp["delc"] = list(reversed(sp["delc"]))
    elif u < 0.85:
        # other layout
        n = nr * nc
        can = [k for k in range(1, n + 1) if n % k == 0 and k != nr
               and max(k, n // k) <= 400]
        k = nc if nc != nr and r.random() < 0.5 else r.choice(can or [nr])
        a = r.choice([1.0, 10.0, sp["delc"][0]])
        sp["delc"] = [a] * k
        b = a if r.random() < 0.7 else sp["delr"][0]
        sp["delr"] = [b] * (n // k)
    else:
        sp["kind"] = r.choice([k for k in "svu" if k != sp["kind"]])
        if sp["kind"] == "u":
            sp.pop("nlay", None)
    if r.random() < 0.5 or sp["kind"] == "s":
        sp.pop("cut", None)
    return sp


def gen_dem(r, m, style=None):
    """elevations without missing values"""
    n = m.n
    style = style or r.choices(
        ["rand", "int", "tilt", "cone", "pits", "tree", "flat", "ridge", "ties"],
        [4, 4, 2, 2, 3, 3, 0.6, 1.5, 1.5])[0]
    base = r.choice([0.0, 0.0, 100.0, -50.0, 1500.0])
    if style == "rand":
        s = r.choice([1.0, 10.0, 1000.0])
        z = [r.random() * s for _ in range(n)]
    elif style == "int":
        k = r.choice([2, 3, 4, 8, 30])
        z = [float(r.randrange(k)) for _ in range(n)]
    elif style == "ties":
        # many equally steep ways down
        z = ties(r, m)
    elif style == "flat":
        z = [5.0] * n
        for _ in range(r.randint(0, 2)):
            z[r.randrange(n)] += r.choice([-1.0, 1.0])
    else:
        x0, y0 = m.xc.min(), m.yc.min()
        lx = (m.xc.max() - x0) or 1.0
        ly = (m.yc.max() - y0) or 1.0
        xs = [(x - x0) / lx for x in m.xc]
        ys = [(y - y0) / ly for y in m.yc]
        if style == "tilt":
            a, b = r.choice([0.0, 1.0, 2.0, -1.0]), r.choice([1.0, 3.0, -2.0])
            z = [10 * (a * x + b * y) for x, y in zip(xs, ys)]
        elif style == "cone":
            cx, cy = r.random(), r.random()
            sg = r.choice([1, -1])
            z = [sg * 20 * math.hypot(x - cx, y - cy) for x, y in zip(xs, ys)]
        elif style == "pits":
            z = [10 * y + 3 * abs(x - 0.5) for x, y in zip(xs, ys)]
            for _ in range(r.randint(1, max(1, n // 6))):
                z[r.randrange(n)] -= r.choice([0.5, 3.0, 20.0])
        elif style == "ridge":
            z = [10 * abs(x - 0.5) * (1 if r.random() < 0.9 else -1) + 2 * y
                 for x, y in zip(xs, ys)]
        else:                       # tree: drains by construction
            return tree_dem(r, m, base)
    z = [v + base for v in z]
    d = r.choice([0, 1, 3, 6])
    z = [float(round(v, d)) for v in z]
    if r.random() < 0.06:
        # numbers that mean something elsewhere
        v = r.choice([-9999.0, -9999.0, -32768.0, 9999.0, 0.0, -1.0, 1e6])
        for c in r.sample(range(n), r.randint(1, max(1, n // 5))):
            z[c] = v
    return z


def wide_dem(m, style, seed):
    """elevations of grids too large to be written down"""
    r = random.Random(seed)
    n = m.n
    style, gaps = style.rstrip("?"), style.endswith("?")
    if style == "up":
        z = [0.5 * c for c in range(n)]
    elif style == "down":
        z = [0.5 * (n - c) for c in range(n)]
    elif style.startswith("flat"):
        z = [1.0] * n
        for c in r.sample(range(n), int(style[4:] or 0)):
            z[c] = 0.5
    elif style == "rand":
        z = [r.random() for c in range(n)]
    elif style == "bed":
        # a slope with pits
        z = [0.5 * c - 3.0 * (r.random() < 0.2) for c in range(n)]
    elif style == "tree":
        z = tree_dem(r, m, 0.0, [r.randrange(n)])
    else:
        c = r.randrange(n)
        z = [0.1 * math.hypot(x - m.xc[c], y - m.yc[c]) + r.random()
             for x, y in zip(m.xc, m.yc)]
        z[c] = -5.0
    if gaps:
        for c in range(n):
            if r.random() < 0.1 or 100 < c < n // 3:
                z[c] = math.nan
        if style == "up" and 1 in (len(m.spec["delr"]), len(m.spec["delc"])):
            # filled from one end, a cell in each round
            z[-1030:] = [math.nan] * 1030
    return z


def ties(r, m):
    nc = len(m.spec["delr"])
    how = r.choice(["two", "three", "board", "roof", "rings", "posts"])
    if how in ("two", "three"):
        k = 2 if how == "two" else 3
        return [float(r.randrange(k)) for _ in range(m.n)]
    if how == "posts":
        z = [0.0] * m.n
        for c in range(m.n):
            if r.random() < 0.4 and all(z[k] == 0 for k in m.adj[c]):
                z[c] = float(r.choice([1, 2]))
        return z
    i = [c // nc for c in range(m.n)]
    j = [c % nc for c in range(m.n)]
    if how == "board":
        return [float((a + b) % 2) for a, b in zip(i, j)]
    if how == "roof":
        w = r.choice([2, 3, 4])
        return [float(abs(b % (2 * w) - w)) for b in j]
    a0, b0 = r.choice(i), r.choice(j)
    sg = r.choice([1.0, -1.0])
    return [sg * (max(abs(a - a0), abs(b - b0)) if how == "rings"
                  else abs(a - a0) + abs(b - b0)) for a, b in zip(i, j)]


def tree_dem(r, m, base, roots=None):
    """every cell but the roots has a strictly lower neighbour"""
    n = m.n
    k = 1 if r.random() < 0.6 else r.randint(1, 3)
    roots = roots or [r.randrange(n) for _ in range(k)]
    z = [None] * n
    front = []
    if m.parts > 1:
        # every island has a lowest cell of its own
        roots = list(roots)
        for p in set(range(m.parts)) - {m.part[c] for c in roots}:
            c = r.choice([c for c in range(n) if m.part[c] == p])
            z[c] = base + r.choice([1.0, 0.25, 7.5])
            front.append(c)
    for c in roots:
        z[c] = base
        front.append(c)
    step = r.choice([[1.0], [0.5, 1.0], [0.1, 3.0], None, [4e-7, 0.5],
                     [9e-7, 2e-6]] if r.random() < 0.5 else
                    [[1.0], [0.5, 1.0], [0.1, 3.0], None])
    mode = r.random()
    while front:
        i = r.randrange(len(front)) if mode < 0.5 else (
            0 if mode < 0.75 else len(front) - 1)
        c = front[i]
        nb = [q for q in m.adj[c] if z[q] is None]
        if not nb:
            front.pop(i)
            continue
        q = r.choice(nb)
        z[q] = z[c] + (r.choice(step) if step else r.uniform(0.01, 4))
        front.append(q)
    z = [float(round(v, 8)) for v in z]
    if r.random() < 0.1 and m.adj[roots[0]]:
        # a second cell just above the lowest
        q = r.choice(m.adj[roots[0]])
        if q not in roots:
            z[q] = z[roots[0]] + r.choice([1e-9, 1e-12, 1e-7])
    return z


def holes(r, m, p=None):
    """indices of missing cells"""
    n = m.n
    style = r.choice(["few", "few", "half", "cluster", "region", "all"])
    if n > 300 and style not in ("few", "cluster"):
        # gaps are closed in quadratic time
        style = "few"
    if style == "few":
        return [c for c in range(n) if r.random() < 0.1]
    if style == "half":
        return [c for c in range(n) if r.random() < r.choice([0.5, 0.9])]
    if style == "all":
        return list(range(n)) if r.random() < 0.3 else list(range(1, n))
    c = r.randrange(n)
    out = {c}
    for _ in range(r.randint(1, max(1, n // (4 if style == "cluster" else 2)))):
        b = r.choice(sorted(out))
        if m.adj[b]:
            out.add(r.choice(m.adj[b]))
    if r.random() < 0.5:
        for b in list(out):
            if r.random() < 0.3:
                out.update(m.adj[b])
    return sorted(out)


EPS = [None, None, 2e-6, 1e-4, 1e-3, 0.01, 0.5, 1.0, 1e-5, 4e-7, 2e-8, 1e-9]
FMT = ["", "", "", "", "F", "F", "view", "view", "flat", "flat", "neg", "3d",
       "be", "ro"]
# how stream arrays come
SFMT = ["i8", "i8", "F", "flat", "", "b1", "u1", "f4", "roi8", "3di8", "bei8"]


class Script:
    """builds the operation list of one session"""

    def __init__(self, g, tag):
        self.g = g
        self.r = g.r
        self.tag = tag
        self.ops = []
        self.k = 0
        self.dems = []      # (name, grid) arrays without missing values
        self.fas = []       # dicts
        self.sts = []
        self.objs = []
        self.nans = []
        self.bounds = []    # (name, grid) watersheds kept
        self.graphs = []    # (name, stream object) connectivity kept
        self.anyd = {}

    def name(self, p):
        self.k += 1
        return f"{self.tag}{p}{self.k}"

    def add(self, **a):
        self.ops.append({k: v for k, v in a.items() if v is not None})
        return self.ops[-1]

    def mesh(self, g):
        return self.g.mesh(g)

    def again(self):
        """whether the caller hands in an array it overwrites for each call"""
        return 1 if self.r.random() < 0.4 else None

    # -- pieces -------------------------------------------------------------
    def grid(self, mid=None):
        mid = mid or self.g.any_mesh()
        n = self.name("g")
        self.add(o="mk", g=mid, r=n)
        self.g.gridmesh[n] = mid
        return n

    def ask(self, g):
        how = self.r.choice(["rook", "rook", "rook!", "default", "one", "queen",
                             "queen!"])
        self.add(o="ask", g=g, how=how,
                 n=self.r.randrange(self.mesh(g).n) if how == "one" else None)

    def dem(self, g, style=None, nan=False, fmt=None, into=None):
        r, m = self.r, self.mesh(g)
        z = gen_dem(r, m, style)
        f = r.choice(FMT) if fmt is None else fmt
        if nan:
            gone = holes(r, m)
            if nan == "some":
                gone = gone[:m.n - 1]
            for c in gone:
                z[c] = None
            if r.random() < 0.1:
                f += "f4"
        elif r.random() < 0.12:
            if all(abs(v) < 4000 and float(v).is_integer() for v in z):
                f += r.choice(["i8", "i4", "f4"])
            else:
                f += "f4"
        n = self.name("d")
        self.add(o="dem", g=self.g.gridmesh[g], r=n, v=z, fmt=f or None, into=into)
        return n

    def fillnan(self, g):
        r = self.r
        into = None
        if self.nans and r.random() < 0.3:
            into, fmt = self.nans[-1]
            d = self.dem(g, nan=True, fmt=fmt, into=into)
        else:
            fmt = r.choice(FMT)
            d = self.dem(g, nan=True, fmt=fmt)
        self.nans.append((d, fmt))
        n = self.name("n")
        self.add(o="fillnan", g=g, d=d, r=n,
                 method=self.r.choice([None, "mean", "median", "min", "max", "MEAN"]))
        return n

    def fill(self, g, d=None, mask=None, drain=None):
        r, m = self.r, self.mesh(g)
        if d is None:
            d = self.dem(g)
        n = self.name("f")
        a = {"o": "fill", "g": g, "d": d, "r": n}
        e = r.choice(EPS)
        if e is not None:
            a["eps"] = e
        meth = r.choice([None, None, "priority", "complete", "drain",
                         r.choice(["Priority", "COMPLETE", "Complete", "Drain"])])
        if drain:
            meth = r.choice([None, "priority", "drain"])
        if (meth or "").lower() == "drain" and m.n > 130:
            meth = None
        if meth:
            a["method"] = meth
        if mask is None and r.random() < 0.25:
            mask = self.cells(m, r.randint(1, max(1, m.n // 4)))
            if r.random() < 0.5:
                mask = self.line(m)
        if mask:
            a["mask"] = sorted(mask)
            a["mfmt"] = r.choice(["", "i8", "b1", "F", "flat", "ro", "f4",
                                    "neg"])
            if r.random() < 0.3:
                a["mnum"] = r.choice([2, 5, 1000])
            if r.random() < 0.4:
                a["buf"] = 1
        self.ops.append(a)
        return n

    def cells(self, m, k):
        return sorted(self.r.sample(range(m.n), min(m.n, k)))

    def line(self, m):
        c = self.r.randrange(m.n)
        out = [c]
        for _ in range(self.r.randint(1, 2 + int(math.sqrt(m.n)) * 2)):
            nb = [k for k in m.adj[out[-1]] if k not in out]
            if not nb:
                break
            out.append(self.r.choice(nb))
        return sorted(set(out))

    def fa(self, g, d=None, style=None):
        """a flow-direction object over draining elevations"""
        r, m = self.r, self.mesh(g)
        src = None
        a = {"check": False}
        fd = {}
        if d is None:
            src = style or (self.g.lean if r.random() < 0.7 else None) \
                or r.choices(
                ["tree", "any", "filled", "outlet", "nan", "inner", "ties",
                 "flats"],
                [3, 3, 3, 2, 1, 1, 2.5, 1.5])[0]
            if src == "tree":
                root = [r.randrange(m.n)]
                if r.random() < 0.2:
                    # several cells at the lowest elevation
                    root = self.cells(m, r.randint(2, 4))
                z = tree_dem(r, m, r.choice([0.0, 50.0]), root)
                d = self.name("d")
                self.add(o="dem", g=self.g.gridmesh[g], r=d, v=z,
                         fmt=r.choice(FMT) or None)
                if len(root) == 1:
                    a["check"] = r.choice([True, True, False, None])
            elif src == "any":
                old = self.anyd.get(g)
                if old and r.random() < 0.4:
                    d = self.dem(g, fmt=old[1], into=old[0])
                    fmt = old[1]
                else:
                    fmt = r.choice(FMT)
                    d = self.dem(g, fmt=fmt if r.random() < 0.6 else None)
                self.anyd[g] = (d, fmt)
                fd["minima"] = True
            elif src == "ties":
                d = self.dem(g, "ties")
                fd["minima"] = True
            elif src == "flats":
                # flat areas that are left to the object to resolve
                d = self.flats(g)
                fd.update(raw=1, loose=1)
            elif src == "nan":
                d = self.dem(g, nan="some")
                fd["minima"] = True
            elif src == "filled":
                d = self.fill(g, drain=True)
                fd["minima"] = True
            elif src == "outlet":
                z = gen_dem(r, m)
                c = r.randrange(m.n)
                z[c] = min(z) - 1.0
                d0 = self.name("d")
                self.add(o="dem", g=self.g.gridmesh[g], r=d0, v=z)
                d = self.fill(g, d0, mask=[c], drain=True)
                fd["minima"] = r.random() < 0.2 or None
                a["check"] = r.choice([True, False])
            else:
                # closed basins: the pits are named as terminal cells
                d = self.dem(g, style="pits")
                fd["minima"] = True
        else:
            fd["minima"] = True
        if m.parts > 1:
            fd.update(minima=True, loose=1)
        n = self.name("a")
        if r.random() < 0.08:
            # the default: elevations with several lowest cells are refused
            self.add(o="fa", g=g, d=d, r=self.name("q"))
        self.add(o="fa", g=g, d=d, r=n, **a)
        f = {"n": n, "g": g, "fd": fd, "src": src, "d": d}
        self.fas.append(f)
        self.fdir(f)
        return f

    def flats(self, g):
        r, m = self.r, self.mesh(g)
        if r.random() < 0.4:
            z = [float(r.randrange(r.choice([2, 3, 4]))) for _ in range(m.n)]
        else:
            # terraces
            z = [float(int(v)) for v in tree_dem(r, m, 3.0)]
        z[r.choice(m.edges)] = -1.0
        if r.random() < 0.3:
            z = [v + r.choice([0.0, 0.0, 3e-7, 1e-3]) for v in z]
        d = self.name("d")
        self.add(o="dem", g=self.g.gridmesh[g], r=d, v=z)
        if r.random() < 0.6:
            d = self.fill(g, d)
            self.ops[-1]["method"] = "complete"
            self.ops[-1].pop("mask", None)
        return d

    def fdir(self, f, **over):
        r, m = self.r, self.mesh(f["g"])
        a = dict(f["fd"])
        if r.random() < 0.25:
            a["term"] = self.cells(m, r.randint(1, 3))
            if r.random() < 0.3:
                a["np"] = 1
        if r.random() < 0.4:
            a["form"] = "rc"
            a["tup"] = r.random() < 0.5 or None
        if r.random() < 0.4:
            a["buf"] = 1
        if r.random() < 0.3:
            a["thr"] = r.choice([1e-6, 1e-4, 0.01, 0.6, 0.0])
        a.update(over)
        self.add(o="fdir", f=f["n"], **a)

    def facc(self, f):
        self.add(o="facc", f=f["n"],
                 cells=self.r.choice([None, None, True, False]))

    def query(self, f, what=None):
        r, m = self.r, self.mesh(f["g"])
        what = what or r.choice(["ws", "ws", "sub", "sub", "nidp", "terrain",
                                 "terrain", "terrain"])
        j = [r6(r.random()), r6(r.random())] if r.random() < 0.4 else None
        if what == "ws":
            self.add(o="ws", f=f["n"], c=self.pour(f), j=j, r=self.kept(f),
                     form=r.choice(ops.POINT_FORMS))
        elif what == "sub":
            k = r.choice([1, 2, 2, 3, 4, 6])
            cs = [self.pour(f) for _ in range(k)]
            if m.n < 500 and r.random() < 0.03 + 0.15 * (m.n > 100):
                # every cell, or nearly
                cs = self.cells(m, r.choice([m.n, m.n - 1, m.n * 2 // 3]))
            cs = cs or [0]
            if r.random() < 0.15:
                cs.append(cs[0])
            if r.random() < 0.2:
                cs.append(0)
            r.shuffle(cs)
            form = r.choice(ops.POINTS_FORMS)
            if r.random() < 0.015:
                cs, form = [], "list"
            self.add(o="sub", f=f["n"], cs=cs, j=j, buf=self.again(),
                     r=self.kept(f) if r.random() < 0.4 else None, form=form)
        elif what == "nidp":
            self.add(o="nidp", f=f["n"])
        else:
            self.add(o="terrain", f=f["n"], what=r.choice(
                ["slope", "aspect", "vectors", "hru_len", "area"]))

    def kept(self, f):
        """a name for a watershed that is used as a basin boundary later"""
        if self.r.random() < 0.3:
            return None
        n = self.name("w")
        self.bounds.append((n, f["g"]))
        return n

    def pour(self, f):
        r, m = self.r, self.mesh(f["g"])
        return r.randrange(m.n)

    def strm(self, f, kind=None):
        r = self.r
        k = kind or r.choice(["sfr6", "sfr2005", "prms"])
        n = self.name("s")
        self.add(o="strm", k=k, g=f["g"], f=f["n"], r=n)
        s = {"n": n, "k": k, "f": f, "g": f["g"]}
        self.sts.append(s)
        return s

    def delin(self, s):
        r, m = self.r, self.mesh(s["g"])
        u = r.random()
        bd = self.boundary(s, 0.35)
        buf = self.again()
        if u < 0.6:
            self.add(o="delin", s=s["n"], t=0, buf=buf, rank=r6(r.choice(
                [0.0, r.random() * 0.4, r.random() * 0.8, r.random()]
                + [0.0, 0.003] * (m.n > 100))), **bd)
        elif u < 0.75:
            self.add(o="delin", s=s["n"], t=r.choice([0, 1, 2, 3, 50.0, 500.0]),
                     buf=buf, **bd)
        elif u < 0.85:
            ta = [r.choice([0.0, 2.0, 50.0, 300.0, 1e9]) for _ in range(m.n)]
            self.add(o="delin", s=s["n"], ta=ta, buf=buf, fmt=r.choice(
                ["", "F", "flat", "f4", "view", "ro", "be"]), **bd)
        elif u < 0.93:
            self.add(o="setarr", s=s["n"], cells=self.cells(
                m, r.randint(1, max(1, m.n // 3))),
                fmt=r.choice(SFMT + ["i4", "view"]),
                keep=self.name("v"))
        else:
            self.ctrl(s, True)

    def swaps(self, s, define):
        """streams of equal size in turn"""
        r, m = self.r, self.mesh(s["g"])
        k = r.randint(1, max(1, m.n // 3))
        x = None
        for _ in range(r.randint(2, 3)):
            if x is not None and r.random() < 0.3:
                # the same picture elsewhere
                by = r.randrange(m.n)
                x = sorted((c + by) % m.n for c in x)
            else:
                x = self.cells(m, k)
            self.add(o="setarr", s=s["n"], cells=x, fmt=r.choice(SFMT))
            define()

    def ctrl(self, s, use=None):
        r, m = self.r, self.mesh(s["g"])
        n = self.name("t")
        t = r.choice([None, 1e12, 1e12, 1e9 + 0.5, 3, 120.5, 0])
        self.add(o="ctrl", s=s["n"], r=n, t=t, buf=self.again(),
                 cs=[r.randrange(m.n) for _ in range(r.choice([1, 1, 2, 3]))],
                 form=r.choice(ops.POINTS_FORMS))
        if use or r.random() < 0.6:
            self.add(o="delin", s=s["n"], tv=n)

    def explicit(self, s, p=0.15):
        r, m = self.r, self.mesh(s["g"])
        if r.random() < p:
            x = self.cells(m, r.randint(1, max(1, m.n // 3)))
            if r.random() < 0.5:
                x = self.line(m)
            return x, r.choice(SFMT + ["i8num", "i8num", "Fi8num"])
        return None, None

    def handed(self, s):
        """(own stream array handed in, other streams handed in, format)"""
        r = self.r
        u = r.random()
        if u < 0.2:
            return True, None, r.choice(["i8", "F", "flat", "nan"])
        if u < 0.3:
            x, f = self.explicit(s, 1.0)
            return None, x, f
        return None, None, None

    def boundary(self, s, q=0.5):
        """a basin boundary: drawn, or a watershed computed before"""
        r, m = self.r, self.mesh(s["g"])
        if r.random() >= q:
            return {}
        had = [n for n, g in self.bounds if g == s["g"]]
        if had and r.random() < 0.7:
            return {"bv": r.choice(had)}
        p = r.choice([0.7, 0.9, 0.5])
        vals = r.choice([[1], [1, 1, 3], [1, -1], [1, 2, 3, 4], [0.5, 1],
                         [-1], [7], [1e-3, 1]])
        b = [r.choice(vals) if r.random() < p else 0 for _ in range(m.n)]
        return {"b": b, "bfmt": r.choice(["i8", "F", "flat", "b1", "", "i4",
                                          "view", "ro", "3d"])}

    def export(self, s, what=None):
        r, m = self.r, self.mesh(s["g"])
        k = s["k"]
        choices = {
            "sfr6": ["conn", "cdata", "cdata", "pdata", "pdata", "vec", "getarr",
                     "cpass"],
            "sfr2005": ["conn", "rdata", "rdata", "sdata", "irun", "irun", "vec",
                        "build", "getarr"],
            "prms": ["conn", "casc", "casc", "build", "vec", "getarr"],
        }[k]
        what = what if what in choices else r.choice(choices)
        grp = r.choice([None, None, True, False])
        if what == "conn":
            x, f = self.explicit(s)
            n = self.name("k")
            self.graphs.append((n, s["n"]))
            self.add(o="conn", s=s["n"], x=x, fmt=f, r=n,
                     grp=grp if k != "sfr6" else None)
        elif what == "cdata":
            self.add(o="cdata", s=s["n"])
        elif what == "cpass":
            if self.graphs and r.random() < 0.85:
                self.add(o="cdata", s=s["n"], **{
                    "pass": r.choice(self.graphs)[0]})
            else:
                k = r.choice([1, 2, 5, 9])
                gx = [[i, r.choice([0] + list(range(i + 1, k + 1)))]
                      for i in range(1, k + 1)]
                r.shuffle(gx)
                self.add(o="cdata", s=s["n"], gx=gx)
        elif what == "pdata":
            x, f = self.explicit(s)
            self.add(o="pdata", s=s["n"], x=x, fmt=f,
                     det=True if r.random() < 0.3 else None)
        elif what in ("rdata", "sdata"):
            x, f = self.explicit(s)
            self.add(o=what, s=s["n"], x=x, fmt=f, grp=grp)
        elif what == "irun":
            mine = [n for n, t in self.graphs if t == s["n"]]
            if mine and r.random() < 0.6:
                self.add(o="irun", s=s["n"], sg=mine[-1],
                         bare=r.choice([None, True]),
                         fmt=r.choice(["i8", "F", "flat", "nan"]))
            else:
                own, x, f = self.handed(s)
                self.add(o="irun", s=s["n"], grp=grp, own=own, x=x, fmt=f)
        elif what == "vec":
            x, f = self.explicit(s)
            self.add(o="vec", s=s["n"], x=x, fmt=f, grp=grp,
                     nan=True if x and r.random() < 0.4 else None)
        elif what == "casc":
            bd = self.boundary(s)
            own, x, xf = self.handed(s)
            self.add(o="casc", s=s["n"], grp=grp, buf=self.again(),
                     own=own, x=x, fmt=xf, **bd,
                     m2m=r.choice([None, True, True, False]))
        elif what == "build":
            n = self.name("o")
            if k == "prms":
                bd = self.boundary(s)
                own, x, xf = self.handed(s)
                if xf == "nan":
                    own = None
                self.add(o="build", s=s["n"], r=n, grp=grp,
                         buf=self.again(), **bd,
                         own=own, x=x, fmt=xf,
                         m2m=r.choice([None, True, False]))
                self.objs.append((n, "C"))
            else:
                self.add(o="build", s=s["n"], r=n, grp=grp,
                         roughch=r.choice([None, None, 0.04]),
                         mx=r.choice([None, None, 0.05]),
                         sup=r.choice([None, None, "r", "s", "rs", "rsi"]),
                         defaults=r.choice([None, None, False]),
                         kw=self.keywords())
                if m.kind == "s":
                    self.objs.append((n, "S"))
        elif what == "getarr":
            self.add(o="getarr", s=s["n"])

    def keywords(self):
        """parameters the caller gives to the pyGSFLOW builder"""
        r = random.Random(f"{self.g.seed} {len(self.ops)}")
        if r.random() < 0.6:
            return None
        names = r.sample(sorted(KEYWORDS), r.choice([1, 1, 2, 3, 12]))
        return {k: r.choice(KEYWORDS[k]) for k in names}


KEYWORDS = {
    "strhc1": [0.02, 3.5], "strthick": [0.5, 2.0], "etsw": [0.001],
    "flow": [0.0, 12.5], "icalc": [2, 0], "iprior": [1], "pptsw": [0.003],
    "runoff": [0.25], "width1": [4.5, 30], "width2": [7.25],
    "default_slope": [0.004, 0.02, 1e-7], "min_slope": [1e-5, 0.003],
}


class Gen:
    def __init__(self, seed):
        self.seed = seed
        self.r = random.Random(seed)
        self.meshes = {}
        self._m = {}
        self.gridmesh = {}
        # elevations most flow objects of a scenario start from
        self.lean = self.r.choices(
            [None, "ties", "tree", "filled", "nan"], [6, 3, 1, 1, 0.5])[0]

    def add_mesh(self, sp):
        k = f"M{len(self.meshes)}"
        self.meshes[k] = sp
        self._m[k] = Mesh(sp)
        return k

    def any_mesh(self):
        """mostly reuse a mesh; sometimes one with equal cell count"""
        if self.meshes and self.r.random() < 0.7:
            return self.r.choice(sorted(self.meshes))
        if self.meshes and self.r.random() < 0.5:
            return self.add_mesh(sibling(self.r, self.r.choice(
                [self.meshes[k] for k in sorted(self.meshes)])))
        return self.add_mesh(gen_mesh(self.r))

    def mesh(self, g):
        return self._m[self.gridmesh[g]]

    def scenario(self, setup, sessions, closing, **kw):
        out = {
            "seed": self.seed, "meshes": self.meshes, "setup": setup,
            "sessions": sessions, "closing": closing,
        }
        out.update(kw)
        return out
