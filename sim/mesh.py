"""Meshes: one JSON description gives the flopy grid (what dany sees) and an
independent geometric model of the same cells (what the oracles use)."""
import math
import random

import numpy as np


def _quads(spec):
    """list of cells as vertex-id lists plus local vertex coordinates"""
    delr, delc = spec["delr"], spec["delc"]
    nr, nc = len(delc), len(delr)
    xe = [0.0]
    for d in delr:
        xe.append(xe[-1] + d)
    ye = [sum(delc)]
    for d in delc:
        ye.append(ye[-1] - d)
    # the last edge is exactly zero in flopy
    verts = []
    for i in range(nr + 1):
        for j in range(nc + 1):
            verts.append((xe[j], ye[i]))

    def v(i, j):
        return i * (nc + 1) + j

    cells = []
    for i in range(nr):
        for j in range(nc):
            cells.append([v(i, j), v(i, j + 1), v(i + 1, j + 1), v(i + 1, j)])
    return nr, nc, verts, cells


def _centroid(pts):
    return (
        sum(p[0] for p in pts) / len(pts),
        sum(p[1] for p in pts) / len(pts),
    )


class Mesh:
    def __init__(self, spec):
        self.spec = spec
        self.kind = spec["kind"]
        nr, nc, verts, cells = _quads(spec)
        self.nr, self.nc = nr, nc
        if self.kind != "s":
            out = []
            cut = spec.get("cut") or {}
            skip = set(k for k in spec.get("gone") or () if k < len(cells))
            if len(skip) == len(cells):
                skip.discard(0)
            mids = {}

            def mid(u, w):
                # the vertex in the middle of a side, also for its neighbour
                e = (min(u, w), max(u, w))
                if e not in mids:
                    mids[e] = len(verts)
                    verts.append(((verts[u][0] + verts[w][0]) / 2,
                                  (verts[u][1] + verts[w][1]) / 2))
                return mids[e]

            for idx, q in enumerate(cells):
                if idx in skip:
                    continue
                how = cut.get(str(idx), 0)
                a, b, c, d = q
                if how == 1:
                    out.append([a, b, c])
                    out.append([a, c, d])
                elif how == 2:
                    out.append([a, b, d])
                    out.append([b, c, d])
                elif how == 3 and (idx % nc) + 1 < nc and idx + 1 not in skip \
                        and not cut.get(str(idx + 1), 0):
                    # merged with its eastern neighbour: a six-sided cell
                    _, b2, c2, _ = cells[idx + 1]
                    out.append([a, b, b2, c2, c, d])
                    skip.add(idx + 1)
                elif how == 4:
                    # refined into quarters
                    ab, bc, cd, da = mid(a, b), mid(b, c), mid(c, d), mid(d, a)
                    o = len(verts)
                    verts.append(((verts[a][0] + verts[c][0]) / 2,
                                  (verts[a][1] + verts[c][1]) / 2))
                    out += [[a, ab, o, da], [ab, b, bc, o], [o, bc, c, cd],
                            [da, o, cd, d]]
                else:
                    out.append(q)
            cells = [
                [v for x, u in enumerate(c) for v in
                 [u] + [mids[e] for e in [tuple(sorted((u, c[(x + 1) % len(c)])))]
                        if e in mids]]
                for c in out
            ]
            if spec.get("pert") and not mids:
                # irregular polygons
                r = random.Random(spec["pert"])
                h = 0.2 * min(spec["delr"] + spec["delc"])
                verts = [(x + r.uniform(-h, h), y + r.uniform(-h, h))
                         for x, y in verts]
        if spec.get("perm") and self.kind != "s":
            # cells, vertices and the vertices of a cell in any order
            r = random.Random(spec["perm"])
            if r.random() < 0.8:
                r.shuffle(cells)
            else:
                cells.reverse()
            if r.random() < 0.5:
                to = list(range(len(verts)))
                r.shuffle(to)
                old, verts = verts, [None] * len(verts)
                for k, v in enumerate(to):
                    verts[v] = old[k]
                cells = [[to[v] for v in c] for c in cells]
            turn = r.choice([0, 0, 1, 2])
            for k, c in enumerate(cells):
                if turn == 1 or turn == 2 and r.random() < 0.5:
                    c = c[::-1]
                x = r.randrange(len(c))
                cells[k] = c[x:] + c[:x]
        self.cells = cells
        self.local = verts
        self.n = len(cells)
        ang = math.radians(spec.get("angrot", 0.0))
        ca, sa = math.cos(ang), math.sin(ang)
        xo, yo = spec.get("xoff", 0.0), spec.get("yoff", 0.0)

        def tr(p):
            return (p[0] * ca - p[1] * sa + xo, p[0] * sa + p[1] * ca + yo)

        self.verts = [tr(p) for p in verts]
        self.center_local = [_centroid([verts[k] for k in c]) for c in cells]
        if spec.get("jit") and self.kind != "s":
            # centres as an outside tool would round them
            r = random.Random(spec["jit"])

            def ulps(x):
                return x + r.choice([-1, 0, 0, 1]) * math.ulp(x)
            self.center_local = [
                (ulps(p[0]), ulps(p[1])) for p in self.center_local]
        cen = [tr(p) for p in self.center_local]
        self.xc = np.array([p[0] for p in cen])
        self.yc = np.array([p[1] for p in cen])
        byv = {}
        for k, c in enumerate(cells):
            for vv in c:
                byv.setdefault(vv, set()).add(k)
        self.adj = []
        for k, c in enumerate(cells):
            s = set()
            for vv in c:
                s |= byv[vv]
            s.discard(k)
            self.adj.append(sorted(s))
        # connected parts of the mesh
        self.part = [None] * self.n
        self.parts = 0
        for k in range(self.n):
            if self.part[k] is None:
                self.part[k] = self.parts
                todo = [k]
                while todo:
                    for q in self.adj[todo.pop()]:
                        if self.part[q] is None:
                            self.part[q] = self.parts
                            todo.append(q)
                self.parts += 1
        bye = {}
        for k, c in enumerate(cells):
            for x in range(len(c)):
                e = tuple(sorted((c[x - 1], c[x])))
                bye.setdefault(e, set()).add(k)
        self.edges = sorted(
            {next(iter(ks)) for ks in bye.values() if len(ks) == 1}
        )
        self.rook = [set() for _ in cells]
        for ks in bye.values():
            if len(ks) == 2:
                a, b = ks
                self.rook[a].add(b)
                self.rook[b].add(a)
        self.area = np.array([self._area(c) for c in cells])
        # what rounding of coordinates far from the origin may do
        far = [max(abs(p[k]) for p in self.verts) for k in (0, 1)]
        self.fuzz = 1e-12 * max(far)
        self.area_fuzz = 1e-14 * far[0] * far[1]

    def _area(self, c):
        s = 0.0
        for x in range(len(c)):
            x0, y0 = self.local[c[x - 1]]
            x1, y1 = self.local[c[x]]
            s += x0 * y1 - y0 * x1
        return abs(s) / 2

    @property
    def shape(self):
        return (self.nr, self.nc) if self.kind == "s" else (self.n,)

    def dist(self, a, b):
        return math.hypot(self.xc[a] - self.xc[b], self.yc[a] - self.yc[b])

    def cellid(self, node):
        if self.kind == "s":
            return (0, node // self.nc, node % self.nc)
        if self.kind == "v":
            return (0, node)
        return (node,)

    def point(self, node, jitter=(0.0, 0.0)):
        """a point well inside the cell"""
        c = self.cells[node]
        k = int(jitter[0] * len(c)) % len(c)
        f = jitter[1] * 0.4
        vx, vy = self.verts[c[k]]
        return (
            float(self.xc[node] + f * (vx - self.xc[node])),
            float(self.yc[node] + f * (vy - self.yc[node])),
        )

    def idomain(self):
        """the cells a model will compute (no concern of dany's)"""
        a = np.ones(self.n, dtype=int)
        a[[c for c in self.spec.get("idom") or () if c < self.n]] = 0
        return a

    def grid(self):
        """a new flopy grid object"""
        from flopy.discretization import (
            StructuredGrid, UnstructuredGrid, VertexGrid,
        )
        sp = self.spec
        kw = dict(
            xoff=sp.get("xoff", 0.0), yoff=sp.get("yoff", 0.0),
            angrot=sp.get("angrot", 0.0),
        )
        nlay = sp.get("nlay", 1)
        n = self.n
        idom = self.idomain()
        if self.kind == "s":
            shp = (self.nr, self.nc)
            return StructuredGrid(
                delc=np.array(sp["delc"], float),
                delr=np.array(sp["delr"], float),
                top=np.full(shp, 100.0),
                botm=np.stack([np.full(shp, -10.0 * (k + 1)) for k in range(nlay)]),
                idomain=np.stack([idom.reshape(shp)] * nlay), nlay=nlay, **kw
            )
        # some tools close the polygons
        shown = [list(c) + ([c[0]] if sp.get("close") else [])
                 for c in self.cells]
        v2 = [[k, p[0], p[1]] for k, p in enumerate(self.local)]
        if self.kind == "v":
            cell2d = [
                [k, self.center_local[k][0], self.center_local[k][1], len(c)] + c
                for k, c in enumerate(shown)
            ]
            return VertexGrid(
                vertices=v2, cell2d=cell2d, top=np.full(n, 100.0),
                botm=np.stack([np.full(n, -10.0 * (k + 1)) for k in range(nlay)]),
                idomain=np.stack([idom] * nlay), nlay=nlay, ncpl=n, **kw
            )
        return UnstructuredGrid(
            vertices=v2, iverts=shown,
            xcenters=np.array([p[0] for p in self.center_local]),
            ycenters=np.array([p[1] for p in self.center_local]),
            ncpl=np.array([n]), top=np.full(n, 100.0), botm=np.full(n, -10.0),
            idomain=idom, **kw
        )


# --------------------------------------------------------------------------
# reference models on a mesh
# --------------------------------------------------------------------------
def flood(mesh, dem, seeds, rise=0.0):
    """lowest surface W >= dem with W(seed) = dem(seed) and, along some path
    from every cell to a seed, W(cell) >= W(next) + rise or W(cell) = dem"""
    import heapq
    w = [None] * mesh.n
    heap = [(float(dem[s]), s) for s in seeds]
    heapq.heapify(heap)
    while heap:
        e, c = heapq.heappop(heap)
        if w[c] is not None:
            continue
        w[c] = e
        for k in mesh.adj[c]:
            if w[k] is None:
                heapq.heappush(heap, (max(float(dem[k]), e + rise), k))
    return w


def terminals_ok(fdir):
    """None when following fdir from anywhere reaches a self-directed cell,
    otherwise the first offending cell"""
    n = len(fdir)
    state = [0] * n
    for c in range(n):
        path = []
        k = c
        while True:
            if not 0 <= k < n:
                return c
            if state[k] == 2:
                break
            if state[k] == 1:
                return c
            state[k] = 1
            path.append(k)
            if fdir[k] == k:
                break
            k = int(fdir[k])
        for q in path:
            state[q] = 2
    return None


def first_on_path(fdir, labels):
    """label of the first cell with a non-zero label on each cell's path"""
    n = len(fdir)
    out = [None] * n
    for c in range(n):
        path = []
        k = c
        while True:
            if out[k] is not None:
                lab = out[k]
                break
            if labels[k]:
                lab = labels[k]
                path.append(k)
                break
            path.append(k)
            if fdir[k] == k:
                lab = 0
                break
            k = int(fdir[k])
        for q in path:
            out[q] = lab
    return out


def accumulate(fdir, own):
    n = len(fdir)
    indeg = [0] * n
    for c in range(n):
        if fdir[c] != c:
            indeg[int(fdir[c])] += 1
    acc = [float(a) for a in own]
    stack = [c for c in range(n) if indeg[c] == 0]
    while stack:
        c = stack.pop()
        d = int(fdir[c])
        if d != c:
            acc[d] += acc[c]
            indeg[d] -= 1
            if indeg[d] == 0:
                stack.append(d)
    return acc
