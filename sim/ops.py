"""Operations a simulated session can perform through dany's public API, and the
oracle of each: what the call must have returned according to the properties.

An operation is a JSON dict {"o": name, ...}.  ``run_<name>`` performs it (only
the dany call runs under the scheduler), ``chk_<name>`` judges the result
against the reference models and yields (property, message) pairs.  Oracles take
upstream results (e.g. the flow directions a watershed is computed from) from
the object under test, so each judges only its own property; they use public
API only."""
import gc
import hashlib
import math
import os
import pickle
import shutil
import tempfile
from pathlib import Path

import numpy as np

from . import mesh as M


# --------------------------------------------------------------------------
# digests
# --------------------------------------------------------------------------
def canon(x):
    """hashable, exact, representation-independent form of a result"""
    if isinstance(x, np.ndarray):
        if x.dtype.names or x.dtype.hasobject:
            return ("rec", x.shape, tuple(x.dtype.names or ()), repr(x.tolist()))
        a = np.ascontiguousarray(x)
        kind = a.dtype.kind
        if kind in "iub":
            a = a.astype(np.int64)
        elif kind == "f":
            a = a.astype(np.float64)
            a = np.where(np.isnan(a), np.nan, a)
        return ("arr", kind in "iub", x.shape,
                hashlib.sha1(a.tobytes()).hexdigest())
    if isinstance(x, dict):
        return ("dict", tuple(sorted(
            ((canon(k), canon(v)) for k, v in x.items()), key=repr)))
    if isinstance(x, (list, tuple)):
        return ("seq", tuple(canon(v) for v in x))
    if isinstance(x, (set, frozenset)):
        return ("set", tuple(sorted((canon(v) for v in x), key=repr)))
    if isinstance(x, (bool, np.bool_)):
        return int(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return "nan" if math.isnan(x) else float(x)
    if x is None or isinstance(x, (str, bytes)):
        return x
    if isinstance(x, Path):
        return str(x)
    if hasattr(x, "wkt"):
        return ("geo", x.wkt)
    if hasattr(x, "__geo_interface__"):
        return ("geo", repr(x.__geo_interface__))
    if hasattr(x, "__dict__"):
        return ("obj", type(x).__name__, canon(dict(vars(x))))
    return repr(x)


def dig(x):
    return hashlib.sha1(repr(canon(x)).encode()).hexdigest()[:16]


def raw_dig(x):
    """digest of the very contents of a caller-held object (dtype included)"""
    if isinstance(x, np.ndarray):
        if x.dtype.hasobject:
            return repr(x.tolist())
        return (str(x.dtype), x.shape, x.strides,
                hashlib.sha1(np.ascontiguousarray(x).tobytes()).hexdigest())
    return repr(canon(x))


class View:
    """one session's view of the world: shared objects, private scratch"""

    def __init__(self, world, sess):
        self.__dict__.update(world=world, sess=sess, args=[], pre={},
                             op=0, attempt=0, budget=0, watch=None,
                             state=None, after=None)

    def __getattr__(self, name):
        return getattr(self.world, name)

    def arg(self, label, x):
        if x is not None and not isinstance(x, (int, float, str)):
            self.args.append((label, x, raw_dig(x)))
        return x

    def buf(self, a, label, x):
        """the caller's own array or list, overwritten for every call"""
        if not a.get("buf"):
            return x
        if isinstance(x, np.ndarray):
            if not x.flags.writeable:
                return x
            key = (self.sess.tid, label, str(x.dtype), x.shape, x.strides)
        elif isinstance(x, list):
            key = (self.sess.tid, label, type(x))
        else:
            return x
        old = self.world.bufs.get(key)
        if old is None:
            self.world.bufs[key] = x
            return x
        overwrite(self.world, old, x)
        return old

    def sim_on(self):
        return _On(self)


def overwrite(w, old, new):
    """the caller edits what it handed in earlier"""
    if w.ledger is not None:
        w.ledger[:] = [
            e for e in w.ledger if e[1] is not old and not (
                isinstance(e[1], np.ndarray) and isinstance(old, np.ndarray)
                and np.shares_memory(e[1], old))
        ]
    if isinstance(old, list):
        old[:] = new
    else:
        old[...] = new


class _On:
    def __init__(self, v):
        self.v = v

    def __enter__(self):
        v = self.v
        if v.watch is not None:
            v.state = v.watch()
        v.sess.begin(v.op, v.attempt, v.budget)

    def __exit__(self, *exc):
        v = self.v
        v.sess.end()
        if v.watch is not None:
            v.after = v.watch()


class Skip(Exception):
    """the operation's precondition does not hold in this run"""


class World:
    """everything the sessions of one simulated process hold"""

    def __init__(self, dany, scn, disk=None, keep=False):
        self.dany = dany
        self.scn = scn
        self.mesh = scn["_meshes"]
        self.grid = {}
        self.gmeta = {}
        self.val = {}
        self.fa = {}
        self.fm = {}
        self.st = {}
        self.sm = {}
        self.obj = {}
        self.disk = disk
        self.ledger = [] if keep else None
        self.saved = {}
        self.bufs = {}
        self.cov = {}
        self.tmp = None

    def scratch(self):
        if self.tmp is None:
            self.tmp = tempfile.mkdtemp(prefix="danysim-")
        return self.tmp

    def close(self):
        if self.tmp is not None:
            shutil.rmtree(self.tmp, ignore_errors=True)
            self.tmp = None

    def probe(self, name, k=1):
        self.cov[name] = self.cov.get(name, 0) + k

    def give(self, label, x):
        if self.ledger is not None and x is not None and isinstance(x, (np.ndarray, list, dict, tuple)):
            self.ledger.append((label, x, raw_dig(x)))
        return x


def _need(d, k):
    if k not in d:
        raise Skip(k)
    return d[k]


# --------------------------------------------------------------------------
# arrays
# --------------------------------------------------------------------------
def fmt_array(mesh, vals, fmt, dtype=float):
    a = np.array(vals, dtype=dtype)
    if "f4" in fmt:
        a = a.astype(np.float32)
    if "i8" in fmt:
        a = a.astype(np.int64)
    if "i4" in fmt:
        a = a.astype(np.int32)
    if "u1" in fmt:
        a = (a != 0).astype(np.uint8)
    if "b1" in fmt:
        a = a.astype(bool)
    if "flat" not in fmt:
        a = a.reshape(mesh.shape)
    if "F" in fmt and a.ndim == 2:
        a = np.asfortranarray(a)
    elif "view" in fmt:
        b = np.zeros(a.shape[:-1] + (a.shape[-1] * 2,), dtype=a.dtype)
        b[..., ::2] = a
        a = b[..., ::2]
    elif "neg" in fmt:
        a = a[..., ::-1].copy()[..., ::-1]
    if "3d" in fmt:
        a = a.reshape((1,) + a.shape)
    if "be" in fmt:
        a = a.astype(a.dtype.newbyteorder(">"))
    if "ro" in fmt:
        a.flags.writeable = False
    return a


def run_dem(w, a):
    m = w.mesh[a["g"]]
    if "z" in a:
        from . import gen
        vals = gen.wide_dem(m, *a["z"])
    else:
        vals = [math.nan if v is None else v for v in a["v"]]
    x = fmt_array(m, vals, a.get("fmt", ""))
    old = w.val.get(a.get("into"))
    if old is not None and old.dtype == x.dtype and old.shape == x.shape \
            and old.flags.writeable:
        # the caller keeps one array and fills it with other elevations
        overwrite(w, old, x)
        w.val.pop(a["into"])
        x = old
    w.val[a["r"]] = x
    return None


def run_mk(w, a):
    w.grid[a["r"]] = w.mesh[a["g"]].grid()
    w.gmeta[a["r"]] = {"mesh": w.mesh[a["g"]], "cached": None,
                       "tops": [np.full(w.mesh[a["g"]].n, 100.0)],
                       "idom": w.mesh[a["g"]].idomain()}
    return None


def run_drop(w, a):
    """the caller forgets a grid and everything made from it"""
    g = a["g"]
    w.grid.pop(g, None)
    w.gmeta.pop(g, None)
    for d, meta in ((w.fa, w.fm), (w.st, w.sm)):
        for k in [k for k in d if meta[k]["g"] == g]:
            d.pop(k)
    gc.collect()
    return None


def run_ask(w, a):
    """a user asks the grid for neighbours himself (possibly another rule)"""
    g = _need(w.grid, a["g"])
    how = a["how"]
    if how == "rook":
        g.neighbors(method="rook")
    elif how == "rook!":
        g.neighbors(method="rook", reset=True)
    elif how == "default":
        g.neighbors()
    elif how == "one":
        g.neighbors(a.get("n", 0))
    elif how == "queen":
        g.neighbors(method="queen")
    elif how == "queen!":
        g.neighbors(method="queen", reset=True)
    meta = w.gmeta[a["g"]]
    rule = "queen" if how.startswith("queen") else "rook"
    if meta["cached"] is None or how.endswith("!"):
        meta["cached"] = rule
    return None


def run_top(w, a):
    """a user edits the (public) top elevation of the grid"""
    g = _need(w.grid, a["g"])
    m = w.gmeta[a["g"]]["mesh"]
    g._top = np.full(m.shape, float(a["v"]))
    _top_is(w, a["g"], np.full(m.n, float(a["v"])))
    return None


def run_idom(w, a):
    """a user restricts the model to some cells, as the examples do"""
    g = _need(w.grid, a["g"])
    meta = w.gmeta[a["g"]]
    act = np.ones(meta["mesh"].n, int)
    act[a["off"]] = 0
    g.idomain = np.tile(act, np.size(g.idomain) // act.size).reshape(
        np.shape(g.idomain))
    meta["idom"] = act
    return None


def _top_is(w, g, z, sure=True):
    """the grid top was set to z, or may have been"""
    meta = w.gmeta.get(g)
    if meta is None:
        return
    if sure and len(w.scn["sessions"]) < 2:
        meta["tops"] = []
    meta["tops"].append(np.array(z, float))


def top_ok(grid, meta):
    top = np.ravel(np.asarray(grid.top, float))
    return any(np.array_equal(top, z, equal_nan=True) for z in meta["tops"])


def run_scribble(w, a):
    """the caller overwrites an array it passed in earlier"""
    x = _need(w.val, a["d"])
    if not x.flags.writeable:
        raise Skip("ro")
    overwrite(w, x, a.get("v", 7))
    # the array is no longer the one later operations were written for
    w.val.pop(a["d"])
    return None


# --------------------------------------------------------------------------
# conditioning
# --------------------------------------------------------------------------
def run_fill(w, a):
    g = _need(w.grid, a["g"])
    d = w.arg("dem", _need(w.val, a["d"]))
    w.pre["dem"] = d.copy()
    kw = {}
    if "eps" in a:
        kw["eps"] = a["eps"]
    if "method" in a:
        kw["method"] = a["method"]
    if a.get("mask") is not None:
        m = w.gmeta[a["g"]]["mesh"]
        mask = np.zeros(m.n)
        mask[a["mask"]] = 1
        if a.get("mnum"):
            # numbers of streams or reaches instead of ones
            mask[a["mask"]] = [
                1 + k % a["mnum"] for k in range(len(a["mask"]))]
        kw["stream_mask"] = w.arg("stream_mask", w.buf(
            a, "mask", fmt_array(m, mask, a.get("mfmt", ""))))
    with w.sim_on():
        out = w.dany.fill_sinks(g, d, **kw)
    w.give("filled", out)
    if a.get("r"):
        w.val[a["r"]] = out
    return out


def chk_fill(w, a, out):
    m = w.gmeta[a["g"]]["mesh"]
    d = np.asarray(w.pre["dem"], dtype=float)
    if not isinstance(out, np.ndarray) or out.shape != w.pre["dem"].shape:
        yield "C01", f"shape {getattr(out, 'shape', None)} for {d.shape}"
        return
    if np.isnan(d).any():
        return
    z, f = d.ravel(), np.asarray(out, float).ravel()
    eps = a.get("eps", 2e-6)
    method = a.get("method", "priority").lower()
    mask = a.get("mask")
    if mask is not None and method not in ("priority", "complete"):
        method = "priority"
    if method == "complete":
        eps = 0.0
    scale = max(1.0, float(np.max(np.abs(z))))
    tol = 1e-12 * scale
    low = np.where(f < z)[0]
    if len(low):
        c = int(low[0])
        yield "C01", f"cell {c} lowered from {z[c]!r} to {f[c]!r}"
        return
    if np.isnan(f).any():
        yield "C01", "missing values in the filled elevations"
        return
    seeds = sorted(mask) if mask is not None else m.edges
    isseed = np.zeros(m.n, bool)
    isseed[seeds] = True
    if mask is None:
        for c in seeds:
            if f[c] != z[c]:
                yield "C01", f"edge cell {c} changed from {z[c]!r} to {f[c]!r}"
                return
    if m.parts > 1:
        # nothing is promised where there is no outlet at all
        have = {m.part[c] for c in seeds}
        isseed |= np.array([p not in have for p in m.part])
    if f.max() > z.max() + eps * m.n * (1 + 1e-6) + tol:
        yield "C01", f"filled above the highest ground: {f.max()!r} > {z.max()!r}"
        return
    if eps > 0:
        for c in range(m.n):
            if not isseed[c] and m.adj[c] and not min(f[k] for k in m.adj[c]) < f[c]:
                yield "C01", f"cell {c} has no lower neighbour after filling"
                return
    else:
        # every cell must still reach an outlet without climbing
        seen = [c for c in range(m.n) if isseed[c]]
        reach = isseed.copy()
        while seen:
            c = seen.pop()
            for k in m.adj[c]:
                if not reach[k] and f[k] >= f[c]:
                    reach[k] = True
                    seen.append(k)
        if not reach.all():
            yield "C01", f"cell {int(np.where(~reach)[0][0])} cannot reach an outlet without climbing"
            return
    if mask is not None:
        return
    spill = np.array(M.flood(m, z, seeds))
    if method == "complete":
        bad = np.where(f != spill)[0]
        if len(bad):
            c = int(bad[0])
            yield "C01", f"cell {c}: complete fill {f[c]!r}, spill elevation {spill[c]!r}"
    elif method == "priority":
        bad = np.where((f < spill - tol) | (f > spill + eps * m.n * (1 + 1e-6) + tol))[0]
        if len(bad):
            c = int(bad[0])
            yield "C01", f"cell {c}: priority fill {f[c]!r}, spill elevation {spill[c]!r}"
    else:
        low = np.array(M.flood(m, z, seeds, eps))
        bad = np.where(np.abs(f - low) > 1e-9 * scale + 1e-3 * eps)[0]
        if len(bad):
            c = int(bad[0])
            yield "C01", f"cell {c}: drain fill {f[c]!r}, lowest draining surface {low[c]!r}"


def run_fillnan(w, a):
    g = _need(w.grid, a["g"])
    d = w.arg("dem", _need(w.val, a["d"]))
    w.pre["dem"] = d.copy()
    kw = {}
    if "method" in a:
        kw["method"] = a["method"]
    with w.sim_on():
        out = w.dany.fill_nan_values(g, d, **kw)
    w.give("nanfilled", out)
    if a.get("r"):
        w.val[a["r"]] = out
    return out


_STAT = {"mean": np.mean, "median": np.median, "min": np.min, "max": np.max}


def chk_fillnan(w, a, out):
    m = w.gmeta[a["g"]]["mesh"]
    d = w.pre["dem"]
    if not isinstance(out, np.ndarray) or out.shape != d.shape:
        yield "C02", f"shape {getattr(out, 'shape', None)} for {d.shape}"
        return
    z, f = np.asarray(d, float).ravel(), np.asarray(out, float).ravel()
    nan = np.isnan(z)
    bad = np.where(~nan & (f != z))[0]
    if len(bad):
        c = int(bad[0])
        yield "C02", f"cell {c} had {z[c]!r} and was changed to {f[c]!r}"
        return
    reach = ~nan
    stack = [c for c in range(m.n) if reach[c]]
    reach = reach.copy()
    while stack:
        c = stack.pop()
        for k in m.adj[c]:
            if not reach[k]:
                reach[k] = True
                stack.append(k)
    stat = _STAT[a.get("method", "mean").lower()]
    for c in np.where(nan)[0]:
        c = int(c)
        if not reach[c]:
            if not np.isnan(f[c]):
                yield "C02", f"cell {c} got {f[c]!r} out of nothing"
                return
            continue
        if np.isnan(f[c]):
            yield "C02", f"cell {c} is still missing"
            return
        base = [z[k] for k in m.adj[c] if not nan[k]]
        more = [f[k] for k in m.adj[c] if nan[k]]
        tol = (1e-9 if d.dtype.itemsize > 4 else 2e-6) * max(1.0, abs(f[c]))
        if len(more) > 9:
            lo, hi = min(base + more), max(base + more)
            ok = lo - tol <= f[c] <= hi + tol
        else:
            ok = False
            for bits in range(1 << len(more)):
                vals = base + [v for i, v in enumerate(more) if bits >> i & 1]
                if vals and abs(stat(vals) - f[c]) <= tol:
                    ok = True
                    break
        if not ok:
            yield "C02", (f"cell {c} was filled with {f[c]!r}, not the "
                          f"{a.get('method', 'mean')} of its surroundings "
                          f"{base} + some of {more}")
            return


# --------------------------------------------------------------------------
# flow directions
# --------------------------------------------------------------------------
def run_fa(w, a):
    g = _need(w.grid, a["g"])
    d = w.arg("dem", _need(w.val, a["d"]))
    kw = {}
    if "check" in a:
        kw["check_elevations"] = a["check"]
    with w.sim_on():
        fa = w.dany.FlowDirections(g, d, **kw)
    w.fa[a["r"]] = fa
    w.fm[a["r"]] = {
        "g": a["g"], "mesh": w.gmeta[a["g"]]["mesh"],
        "dem": np.array(d, dtype=float).ravel().copy(), "fdir": False,
        "facc": None, "thr": 1e-6, "grid": g,
    }
    return None


def expect_fa(w, a, exc):
    d = np.asarray(w.val[a["d"]], float).ravel()
    z = d[~np.isnan(d)]
    return (
        isinstance(exc, AssertionError) and a.get("check", True)
        and np.count_nonzero(z == z.min()) > 1
    )


def chk_fa(w, a, out):
    fm = w.fm[a["r"]]
    d = w.fa[a["r"]].dem
    if d.shape != fm["mesh"].shape or not np.array_equal(
            np.asarray(d).ravel(), fm["dem"], equal_nan=True):
        yield "C03", "the elevations kept by the object are not those passed in"
    if a.get("check", True):
        z = fm["dem"][~np.isnan(fm["dem"])]
        if np.count_nonzero(z == z.min()) > 1:
            yield "C03", "several lowest cells were accepted"


def local_minima(m, z):
    out = []
    for c in range(m.n):
        if np.isnan(z[c]):
            continue
        nb = [z[k] for k in m.adj[c] if not np.isnan(z[k])]
        if not any(v < z[c] for v in nb):
            out.append(c)
    return out


def _terminals(w, a):
    """terminal cells to pass: explicit nodes and/or all local minima"""
    fm = w.fm[a["f"]]
    t = list(a.get("term") or [])
    if a.get("minima"):
        t += [c for c in local_minima(fm["mesh"], fm["dem"]) if c not in t]
    return t


def run_fdir(w, a):
    fa = _need(w.fa, a["f"])
    fm = w.fm[a["f"]]
    kw = {}
    if "thr" in a:
        kw["burn_threshold"] = a["thr"]
    t = _terminals(w, a)
    if t:
        if a.get("form") == "rc" and fm["mesh"].kind == "s":
            nc = fm["mesh"].nc
            t2 = [[c // nc, c % nc] for c in t]
            if a.get("tup"):
                t2 = [tuple(x) for x in t2]
        else:
            t2 = [np.int64(c) for c in t] if a.get("np") else list(t)
        kw["terminal_cells"] = w.arg("terminal_cells", w.buf(a, "term", t2))
    # cut short and given up, it may or may not have taken place
    fm.setdefault("terms", []).append(t)
    with w.sim_on():
        out = fa.flow_directions(**kw)
    # unless they drain, nothing that builds on them is promised
    fm["fdir"] = not a.get("loose") or M.terminals_ok(np.ravel(out)) is None
    fm["term"] = t
    fm["terms"] = []
    fm["facc"], fm["faccs"] = None, []
    fm["thr"] = a.get("thr", 1e-6)
    w.give("flow directions", out)
    return out


def expect_fdir(w, a, exc):
    """without a single elevation there is nothing to route"""
    return isinstance(exc, Exception) and bool(
        np.isnan(w.fm[a["f"]]["dem"]).all())


def chk_fdir(w, a, out):
    fa, fm = w.fa[a["f"]], w.fm[a["f"]]
    m, z = fm["mesh"], fm["dem"]
    if not isinstance(out, np.ndarray) or out.shape != m.shape:
        yield "C03", f"shape {getattr(out, 'shape', None)}"
        return
    if not np.array_equal(out, fa.flow_direction_array):
        yield "C03", "returned array differs from flow_direction_array"
        return
    fd = out.ravel()
    nan = np.isnan(z)
    if nan.all():
        return
    zmin = np.nanmin(z)
    term = set(fm["term"]) | set(np.where(z == zmin)[0].tolist())
    if fm["term"]:
        w.probe("terminal cells named")
    # precondition: every other cell with an elevation has a lower neighbour
    for c in range(m.n):
        if c in term or nan[c]:
            continue
        if not any(z[k] < z[c] for k in m.adj[c]):
            w.probe("fdir precondition not met")
            fm["drains"] = False
            return
    fm["drains"] = True
    for c in range(m.n):
        if c in term or nan[c]:
            if fd[c] != c:
                yield "C03", (f"terminal cell {c} drains to {int(fd[c])}"
                              if c in term else
                              f"cell {c} without elevation drains to {int(fd[c])}")
                return
            continue
        if fd[c] not in m.adj[c]:
            yield "C03", f"cell {c} drains to {int(fd[c])}, not a neighbour"
            return
        s = {k: (z[k] - z[c]) / m.dist(k, c) for k in m.adj[c] if not nan[k]}
        best = min(s.values())
        k = int(fd[c])
        if k not in s or s[k] > best + 1e-9 * abs(best):
            yield "C03", (f"cell {c} drains to {k} with slope {s.get(k)!r}, "
                          f"steepest is {best!r}")
            return
        ties = sum(1 for v in s.values() if v <= best + 1e-12 * abs(best))
        if ties > 1:
            w.probe("slope ties")
            if ties > 3:
                w.probe("slope ties >3")
    c = M.terminals_ok(fd)
    if c is not None:
        yield "C03", f"the path from cell {c} never reaches a terminal cell"


def _flow(w, name):
    """flow directions in force on an object, when they drain to terminals"""
    fa, fm = _need(w.fa, name), w.fm[name]
    if not fm["fdir"]:
        raise Skip("no directions")
    fd = np.asarray(fa.flow_direction_array).ravel().copy()
    if len(fd) != fm["mesh"].n or M.terminals_ok(fd) is not None:
        raise Skip("directions do not drain")
    return fa, fm, fd


def run_facc(w, a):
    fa = _need(w.fa, a["f"])
    fm = w.fm[a["f"]]
    if not fm["fdir"]:
        raise Skip("no directions")
    kw = {}
    if "cells" in a:
        kw["as_cells"] = a["cells"]
    fd = np.asarray(fa.flow_direction_array).ravel().tolist()
    fm.setdefault("faccs", []).append((bool(a.get("cells", False)), fd))
    with w.sim_on():
        out = fa.flow_accumulation(**kw)
    fm["facc"] = bool(a.get("cells", False))
    fm["facc_of"] = (fm["facc"], fd)
    fm["faccs"] = []
    w.give("flow accumulation", out)
    return out


def run_getfa(w, a):
    """what the object says it computed last"""
    fa, fm = _need(w.fa, a["f"]), w.fm[a["f"]]
    if not fm["fdir"]:
        raise Skip("no directions")
    with w.sim_on():
        out = [fa.flow_direction_array,
               fa.flow_accumulation_array if fm.get("facc_of") else None]
    w.give("flow arrays", out)
    return out


def chk_getfa(w, a, out):
    fm = w.fm[a["f"]]
    found = []
    term = fm["term"]
    for t in [term] + fm["terms"]:
        fm["term"] = t
        found.append(list(chk_fdir(w, a, out[0])))
    fm["term"] = term
    yield from min(found, key=len)
    if fm["facc"] is not None:
        yield from min((list(_acc(fm, *x, out[1]))
                        for x in [fm["facc_of"]] + fm["faccs"]), key=len)


def chk_facc(w, a, out):
    fa, fm, fd = _flow(w, a["f"])
    m = fm["mesh"]
    if not isinstance(out, np.ndarray) or out.shape != m.shape:
        yield "C04", f"shape {getattr(out, 'shape', None)}"
        return
    kept = fa.flow_accumulation_array
    if not np.array_equal(kept, out):
        yield "C04", "returned array differs from flow_accumulation_array"
        return
    yield from _acc(fm, fm["facc"], fd, out)


def _acc(fm, cells, fd, out):
    """out is the accumulation of cells or area along fd"""
    m = fm["mesh"]
    if M.terminals_ok(fd) is not None:
        return
    own = np.ones(m.n) if cells else m.area
    want = np.array(M.accumulate(fd, own))
    got = np.asarray(out, float).ravel()
    tol = 0.0 if cells else 1e-9 * (want + m.area.max()) + m.n * m.area_fuzz
    bad = np.where(~(np.abs(got - want) <= tol))[0]
    if len(bad):
        c = int(bad[0])
        yield "C04", f"cell {c} accumulates {got[c]!r}, upstream total is {want[c]!r}"


def run_nidp(w, a):
    fa = _need(w.fa, a["f"])
    if not w.fm[a["f"]]["fdir"]:
        raise Skip("no directions")
    with w.sim_on():
        out = fa.get_nidp()
    w.give("drainage inputs", out)
    return out


def chk_nidp(w, a, out):
    fa, fm, fd = _flow(w, a["f"])
    want = np.bincount(fd.astype(int), minlength=fm["mesh"].n)
    if not np.array_equal(np.ravel(out), want):
        yield "C04", "number of drainage inputs differs from the flow directions"


def make_point(x, y, form):
    if form == "list":
        return [x, y]
    if form == "array":
        return np.array([x, y])
    if form == "shapely":
        from shapely.geometry import Point
        return Point(x, y)
    if form == "shp":
        import shapefile
        s = shapefile.Shape(shapefile.POINT, [(x, y)])
        return s
    if form == "geojson":
        return {"type": "Point", "coordinates": [x, y]}
    if form == "flopy":
        from flopy.utils.geometry import Point
        return Point(x, y)
    return (x, y)


POINT_FORMS = ("tuple", "list", "array", "shapely", "flopy", "shp")


def run_ws(w, a):
    fa = _need(w.fa, a["f"])
    fm = w.fm[a["f"]]
    if not fm["fdir"]:
        raise Skip("no directions")
    x, y = fm["mesh"].point(a["c"], tuple(a.get("j", (0, 0))))
    p = w.arg("point", make_point(x, y, a.get("form", "tuple")))
    with w.sim_on():
        out = fa.get_watershed_boundary(p)
    w.give("watershed", out)
    if a.get("r"):
        w.val[a["r"]] = out
    return out


def chk_ws(w, a, out):
    fa, fm, fd = _flow(w, a["f"])
    m = fm["mesh"]
    if not isinstance(out, np.ndarray) or out.shape != m.shape:
        yield "C05", f"shape {getattr(out, 'shape', None)}"
        return
    lab = [0] * m.n
    lab[a["c"]] = 1
    want = np.array(M.first_on_path(fd, lab))
    got = out.ravel()
    if not np.array_equal(got, want):
        c = int(np.where(got != want)[0][0])
        yield "C05", (f"pour point in cell {a['c']}: cell {c} marked "
                      f"{got[c]!r}, should be {int(want[c])}")


POINTS_FORMS = ("tuple", "list", "array", "multi", "shapelys", "flopys", "shapes",
                "collection", "tuples", "mpoint", "frame", "series", "file",
                "path", "reader", "records")


def make_points(w, pts, form):
    """a collection of points in one of the documented forms"""
    if form == "array":
        return np.array(pts)
    if form == "list":
        return [list(p) for p in pts]
    if form == "tuples":
        return tuple(tuple(p) for p in pts)
    if form == "mpoint":
        from shapely.geometry import MultiPoint
        return MultiPoint(pts)
    if form in ("frame", "series"):
        import geopandas as gpd
        s = gpd.GeoSeries([make_point(*p, "shapely") for p in pts])
        return s if form == "series" else gpd.GeoDataFrame(geometry=s)
    if form in ("file", "path", "reader", "records"):
        import io
        import shapefile
        name = "points%d" % (w.op % 3)
        if form in ("file", "path"):
            # a shapefile the caller overwrites now and then
            base = os.path.join(w.scratch(), f"s{w.sess.tid}{name}")
            out = shapefile.Writer(base, shapeType=shapefile.POINT)
        else:
            mem = {k: io.BytesIO() for k in ("shp", "shx", "dbf")}
            out = shapefile.Writer(shapeType=shapefile.POINT, **mem)
        out.field("name", "N")
        for k, p in enumerate(pts):
            out.point(*p)
            out.record(k)
        out.close()
        if form == "file":
            return base + ".shp"
        if form == "path":
            return Path(base + ".shp")
        rd = shapefile.Reader(**mem)
        return rd if form == "reader" else rd.shapes()
    if form == "multi":
        from shapely.geometry import GeometryCollection, Point
        return GeometryCollection([Point(*p) for p in pts])
    if form == "shapelys":
        return [make_point(*p, "shapely") for p in pts]
    if form == "flopys":
        return [make_point(*p, "flopy") for p in pts]
    if form == "shapes":
        return [make_point(*p, "shp") for p in pts]
    if form == "collection":
        from flopy.utils.geometry import Collection
        return Collection([make_point(*p, "flopy") for p in pts])
    return [tuple(p) for p in pts]


def run_sub(w, a):
    fa = _need(w.fa, a["f"])
    fm = w.fm[a["f"]]
    if not fm["fdir"]:
        raise Skip("no directions")
    pts = [fm["mesh"].point(c, tuple(a.get("j", (0, 0)))) for c in a["cs"]]
    arg = make_points(w, pts, a.get("form", "tuple"))
    arg = w.arg("points", w.buf(a, "points", arg))
    with w.sim_on():
        out = fa.get_subbasins(arg)
    w.give("subbasins", out)
    if a.get("r"):
        w.val[a["r"]] = out
    return out


def chk_sub(w, a, out):
    fa, fm, fd = _flow(w, a["f"])
    m = fm["mesh"]
    if not isinstance(out, np.ndarray) or out.shape != m.shape:
        yield "C06", f"shape {getattr(out, 'shape', None)}"
        return
    got = out.ravel()
    outlets = sorted(set(a["cs"]))
    num = {c: int(got[c]) for c in outlets}
    if sorted(num.values()) != list(range(1, len(outlets) + 1)):
        yield "C06", f"outlet cells are numbered {num}"
        return
    lab = [0] * m.n
    for c in outlets:
        lab[c] = num[c]
    want = np.array(M.first_on_path(fd, lab))
    if not np.array_equal(got, want):
        c = int(np.where(got != want)[0][0])
        yield "C06", f"cell {c} is in subbasin {got[c]!r}, should be {int(want[c])} (outlets {num})"
        return
    for c in outlets:
        k = c
        while fd[k] != k:
            k = int(fd[k])
            if k in num and k != c:
                if not num[c] < num[k]:
                    yield "C06", f"outlet {c} (number {num[c]}) lies upstream of {k} (number {num[k]})"
                    return
                w.probe("nested outlets")
                break


def run_terrain(w, a):
    fa = _need(w.fa, a["f"])
    if not w.fm[a["f"]]["fdir"]:
        raise Skip("no directions")
    with w.sim_on():
        out = getattr(fa, a["what"])
    w.give(a["what"], out)
    return out


def shared_mid(m, a, b):
    sb = set(m.cells[b])
    pts = [m.verts[v] for v in m.cells[a] if v in sb]
    return M._centroid(pts)


def chk_terrain(w, a, out):
    fa, fm, fd = _flow(w, a["f"])
    m, z = fm["mesh"], fm["dem"]
    what = a["what"]
    if what == "vectors":
        got = (np.ravel(out[0]), np.ravel(out[1]))
    else:
        got = np.asarray(out, float).ravel()
        if got.size != m.n:
            yield "C07", f"{what} has {got.size} values for {m.n} cells"
            return
    if what in ("slope", "aspect") and np.shape(out) != m.shape:
        yield "C07", f"{what} has shape {np.shape(out)}"
        return
    if what == "area":
        bad = np.where(~(np.abs(got - m.area) <= 1e-9 * m.area + m.area_fuzz))[0]
        if len(bad):
            c = int(bad[0])
            yield "C07", f"area of cell {c} is {got[c]!r}, should be {m.area[c]!r}"
        return
    ups = {}
    if what == "hru_len":
        for c in range(m.n):
            ups.setdefault(int(fd[c]), []).append(c)
    for c in range(m.n):
        k = int(fd[c])
        dx, dy = m.xc[k] - m.xc[c], m.yc[k] - m.yc[c]
        if what == "slope":
            if k == c:
                want = 0.0
            else:
                drop = z[c] - z[k]
                if 0 < drop < 1e-6:
                    if drop > 1e-6 - 1e-12:
                        continue
                    want = 0.0
                else:
                    want = drop / math.hypot(dx, dy)
            ok = abs(got[c] - want) <= 1e-9 * max(1e-3, abs(want))
        elif what == "aspect":
            want = math.degrees(math.atan2(dy, dx)) % 360.0
            diff = abs(got[c] - want) % 360.0
            ok = min(diff, 360.0 - diff) < 1e-4 and 0 <= got[c] < 360
        elif what == "vectors":
            ang = math.atan2(dy, dx)
            want = (math.cos(ang), math.sin(ang))
            ok = abs(got[0][c] - want[0]) < 1e-6 and abs(got[1][c] - want[1]) < 1e-6
        else:
            pts = [shared_mid(m, c, k)] + [
                shared_mid(m, c, u) for u in ups.get(c, ())
            ]
            dd = [math.hypot(p[0] - m.xc[c], p[1] - m.yc[c]) for p in pts]
            want = 2 * sum(dd) / len(dd)
            ok = abs(got[c] - want) <= 1e-6 * want + m.fuzz
        if not ok:
            val = (got[0][c], got[1][c]) if what == "vectors" else got[c]
            yield "C07", f"{what} of cell {c} is {val!r}, should be {want!r}"
            return


# --------------------------------------------------------------------------
# stream objects
# --------------------------------------------------------------------------
def run_strm(w, a):
    g = _need(w.grid, a["g"])
    fa = _need(w.fa, a["f"])
    fm = w.fm[a["f"]]
    if not fm["fdir"] or fm["facc"] is None:
        raise Skip("flow object not complete")
    cls = {"sfr6": "Sfr6", "sfr2005": "Sfr2005", "prms": "PrmsStreams"}[a["k"]]
    _top_is(w, a["g"], fm["dem"], False)
    with w.sim_on():
        s = getattr(w.dany, cls)(g, fa)
    _top_is(w, a["g"], fm["dem"])
    sm = {
        "k": a["k"], "g": a["g"], "f": a["f"], "mesh": fm["mesh"],
        "fdir": np.array(fa.flow_direction_array).ravel().astype(int),
        "facc": np.array(fa.flow_accumulation_array, dtype=float).ravel(),
        "dem": fm["dem"].copy(), "thr": fm["thr"], "cells": None,
        "mode": None, "fa": fa,
    }
    w.st[a["r"]], w.sm[a["r"]] = s, sm
    return None


def chk_strm(w, a, out):
    meta = w.gmeta.get(a["g"])
    if meta is not None and not top_ok(w.grid[a["g"]], meta):
        yield "C14", "the grid top does not follow the elevations of the stream object"


def _net(w, name, streams=True):
    s, sm = _need(w.st, name), w.sm[name]
    if M.terminals_ok(sm["fdir"]) is not None:
        raise Skip("directions do not drain")
    if streams and (sm["cells"] is None or not sm["cells"]):
        raise Skip("no streams")
    return s, sm


def bound(w, a, sm):
    """the basin boundary of a call; w.pre["act"]: the active cells"""
    m = sm["mesh"]
    if a.get("bv") is not None:
        # a watershed or subbasin array computed before
        x = w.val.get(a["bv"])
        if x is None or x.size != m.n:
            raise Skip("no boundary")
    elif a.get("b") is not None:
        x = w.buf(a, "bound", fmt_array(m, a["b"], a.get("bfmt", "i8")))
    else:
        w.pre["act"] = np.ones(m.n, bool)
        return {}
    w.pre["act"] = np.ravel(x) != 0
    return {"basin_boundary": w.arg("basin_boundary", x)}


def run_delin(w, a):
    s, sm = _net(w, a["s"], False)
    m = sm["mesh"]
    kw = {}
    if "tv" in a:
        thr = w.arg("contrib_area", _need(w.val, a["tv"]))
        flat = np.asarray(thr, float).ravel()
    elif "ta" in a:
        thr = w.arg("contrib_area", w.buf(
            a, "thr", fmt_array(m, a["ta"], a.get("fmt", ""))))
        flat = np.asarray(thr, float).ravel()
    else:
        thr = a["t"]
        if a.get("rank") is not None:
            vals = sorted(set(sm["facc"].tolist()))
            thr = vals[int(a["rank"] * (len(vals) - 1))]
        flat = thr
    kw.update(bound(w, a, sm))
    want = (sm["facc"] >= flat) & w.pre["act"]
    with w.sim_on():
        out = s.delineate_streams(thr, **kw)
    sm["cells"] = set(np.where(want)[0].tolist())
    sm["mode"] = None
    w.give("stream array", out)
    return out


def chk_delin(w, a, out):
    s, sm = w.st[a["s"]], w.sm[a["s"]]
    m = sm["mesh"]
    if not isinstance(out, np.ndarray) or out.shape != m.shape:
        yield "C08", f"shape {getattr(out, 'shape', None)}"
        return
    want = np.zeros(m.n, bool)
    want[list(sm["cells"])] = True
    got = out.ravel()
    bad = np.where(got != want.astype(int))[0]
    if len(bad):
        c = int(bad[0])
        yield "C08", (f"cell {c} with accumulation {sm['facc'][c]!r} is "
                      f"{'a' if got[c] else 'no'} stream cell")
        return
    cur = s.stream_array
    if cur.shape != m.shape or not np.array_equal(cur.ravel(), got):
        yield "C08", "stream_array is not the delineated array"


def run_setarr(w, a):
    s, sm = _net(w, a["s"], False)
    m = sm["mesh"]
    cells = a.get("cells")
    if cells is None:
        v = _need(w.val, a["v"])
    else:
        z = np.zeros(m.n)
        z[cells] = 1
        v = fmt_array(m, z, a.get("fmt", "i8"))
        w.val[a.get("keep", "_")] = v
    w.arg("stream_array", v)
    with w.sim_on():
        s.set_stream_array(v)
    sm["cells"] = set(np.where(np.asarray(v).ravel() != 0)[0].tolist())
    sm["mode"] = None
    return None


def chk_setarr(w, a, out):
    s, sm = w.st[a["s"]], w.sm[a["s"]]
    cur = s.stream_array
    if cur.shape != sm["mesh"].shape or set(
            np.where(cur.ravel() != 0)[0].tolist()) != sm["cells"]:
        yield "C08", "stream_array is not the array that was set"


def run_getarr(w, a):
    s, sm = _net(w, a["s"])
    with w.sim_on():
        out = s.stream_array
    w.give("stream_array", out)
    return out


def chk_getarr(w, a, out):
    sm = w.sm[a["s"]]
    if out.shape != sm["mesh"].shape or set(
            np.where(out.ravel() != 0)[0].tolist()) != sm["cells"]:
        yield "C08", "stream_array does not hold the current stream cells"


def run_ctrl(w, a):
    s, sm = _net(w, a["s"], False)
    m = sm["mesh"]
    pts = [m.point(c, tuple(a.get("j", (0, 0)))) for c in a["cs"]]
    pts = make_points(w, pts, a.get("form", "tuple"))
    pts = w.arg("points", w.buf(a, "points", pts))
    kw = {}
    if "t" in a:
        kw["threshold"] = a["t"]
    with w.sim_on():
        out = s.threshold_from_control_points(pts, **kw)
    w.give("threshold", out)
    if a.get("r"):
        w.val[a["r"]] = out
    return out


def chk_ctrl(w, a, out):
    sm = w.sm[a["s"]]
    m, fd, fc = sm["mesh"], sm["fdir"], sm["facc"]
    base = a.get("t", 0)
    if not isinstance(out, np.ndarray) or out.shape != m.shape:
        yield "C08", f"control point threshold has shape {getattr(out, 'shape', None)}"
        return
    t = np.asarray(out, float).ravel()
    ups = {}
    for c in range(m.n):
        if fd[c] != c:
            ups.setdefault(int(fd[c]), []).append(c)
    # cells that may be on a main stem (ties branch), cells that must be
    may, must = set(), set()
    low = {}
    for c in range(m.n):
        low[c] = t[c] < fc[c]
    bad = None

    def best(c):
        u = ups.get(c)
        if not u:
            return []
        top = max(fc[k] for k in u)
        return [k for k in u if fc[k] >= top - 1e-9 * abs(top)]

    for c0 in a["cs"]:
        front, sure, order = {c0}, True, []
        while front and len(order) <= m.n:
            if sure and len(front) == 1:
                must |= front
            may |= front
            order += sorted(front)
            nxt = {k for c in front for k in best(c)}
            if len(nxt) != 1:
                sure = False
            front = nxt
        # some way up through the ties is marked to its end
        whole = {}
        for c in reversed(order):
            b = best(c)
            whole[c] = (low[c] or not fc[c] > 0) and (
                not b or any(whole[k] for k in b))
        if not whole[c0]:
            bad = c0
    for c in sorted(must):
        if not t[c] <= fc[c]:
            yield "C08", f"cell {c} on the main stem above a control point has threshold {t[c]!r} above its accumulation {fc[c]!r}"
            return
        if not low[c] and fc[c] > 0:
            yield "C08", f"cell {c} on the main stem is not marked below its accumulation"
            return
    if bad is not None:
        yield "C08", f"the main stem above control point cell {bad} is not marked to its end"
        return
    for c in range(m.n):
        if c not in may and t[c] != base:
            yield "C08", f"cell {c} off every main stem has threshold {t[c]!r} instead of {base!r}"
            return
    # tied contributors: exactly one of the branches may be taken
    if base > fc.max() + 10:
        marked = {c for c in range(m.n) if t[c] != base}
        seeds = set(a["cs"])
        for c in marked:
            d = int(fd[c])
            if c not in seeds and not (d in marked and d != c):
                yield "C08", f"cell {c} is marked without its downstream neighbour"
                return
        for c in marked:
            taken = [k for k in ups.get(c, ()) if k in marked and k not in seeds]
            if len(taken) > 1:
                # several control points above may both pass through c
                yield "C08", f"two contributors of cell {c} are both on its main stem"
                return
            if ups.get(c) and not [k for k in ups[c] if k in marked]:
                yield "C08", f"the main stem stops at cell {c}"
                return


def _explicit(w, a, sm):
    """stream array passed explicitly to a call, or None"""
    if a.get("x") is None:
        return None
    z = np.zeros(sm["mesh"].n)
    z[a["x"]] = 1
    if "num" in (a.get("fmt") or ""):
        # numbered by the caller, for some purpose of its own
        z = np.where(z != 0, 2 + np.arange(z.size) * 7 % 5, 0)
    return w.arg("stream_array", fmt_array(sm["mesh"], z, a.get("fmt", "i8")))


def _own(w, s, sm, a):
    """the stream array of the object itself, handed back to it"""
    x = np.array(s.stream_array)
    f = a.get("fmt") or "i8"
    if f == "nan" and getattr(s, "_seg_graph", None) is not None:
        x = np.where(x == 0, np.nan, x)
        return w.arg("stream_array", x)
    f = {"F": "Fi8", "flat": "flati8"}.get(f, "i8")
    return w.arg("stream_array", fmt_array(sm["mesh"], x.ravel(), f))


def _set_mode(sm, a, mode):
    if a.get("x") is not None:
        sm["cells"] = set(a["x"])
        sm["mode"] = mode
    elif sm["mode"] is None or a.get("o") == "conn":
        sm["mode"] = mode


def run_conn(w, a):
    """number the stream network"""
    s, sm = _net(w, a["s"], a.get("x") is None)
    x = _explicit(w, a, sm)
    kw = {}
    if x is not None:
        kw["stream_array"] = x
    if sm["k"] == "sfr6":
        mode = "mf6"
    else:
        dflt = sm["k"] == "sfr2005"
        grp = a.get("grp", None)
        if grp is not None:
            kw["group_segments"] = grp
        grp = dflt if grp is None else grp
        if sm["k"] == "prms":
            mode = "grp" if grp else "mf6"
        else:
            mode = "grp" if grp else "ung"
    with w.sim_on():
        out = s.get_stream_connectivity(**kw)
    _set_mode(sm, a, mode)
    w.give("connectivity", out)
    if a.get("r"):
        w.val[a["r"]] = out
    return out


def _prop(mode):
    return "C09" if mode == "mf6" else "C10"


def chk_conn(w, a, out):
    s, sm = w.st[a["s"]], w.sm[a["s"]]
    yield from check_network(w, s, sm, dict(out))


def order_segments(sm, arr):
    """cells of each number in flow order: {number: [cells]} or an error"""
    fd = sm["fdir"]
    by = {}
    for c in sorted(sm["cells"]):
        by.setdefault(int(arr[c]), []).append(c)
    out = {}
    for seg, cells in by.items():
        cs = set(cells)
        fed = {int(fd[k]) for k in cs if int(fd[k]) != k}
        heads = [c for c in cells if c not in fed]
        if len(heads) != 1:
            return None, f"segment {seg} has first cells {heads}"
        seq = [heads[0]]
        while len(seq) < len(cells):
            k = int(fd[seq[-1]])
            if k not in cs or k == seq[-1]:
                return None, f"segment {seg} is broken after cell {seq[-1]}"
            seq.append(k)
        out[seg] = seq
    return out, None


def check_network(w, s, sm, graph):
    mode = sm["mode"]
    p = _prop(mode)
    m, fd, cells = sm["mesh"], sm["fdir"], sm["cells"]
    arr = np.asarray(s.stream_array)
    if arr.shape != m.shape:
        yield p, f"stream array has shape {arr.shape}"
        return
    arr = arr.ravel()
    if set(np.where(arr != 0)[0].tolist()) != cells:
        yield p, "the numbered cells are not the stream cells"
        return
    nums = sorted(int(arr[c]) for c in cells)
    keys = sorted(int(k) for k in graph)
    graph = {int(k): int(v) for k, v in graph.items()}
    if keys != list(range(1, len(keys) + 1)) or sorted(set(nums)) != keys:
        yield p, f"numbers {nums[:8]}.. and connectivity keys {keys[:8]}.. are not 1..n"
        return
    if mode in ("mf6", "ung") and len(set(nums)) != len(nums):
        yield p, "two stream cells share a number"
        return
    seqs, err = order_segments(sm, arr)
    if err:
        yield p, err
        return
    if mode == "grp":
        ups = {}
        for c in cells:
            if fd[c] != c and int(fd[c]) in cells:
                ups.setdefault(int(fd[c]), []).append(c)
        starts = {q[0] for q in seqs.values()}
        for c in sorted(cells):
            nup = len(ups.get(c, ()))
            if nup != 1 and c not in starts:
                yield p, f"cell {c} with {nup} stream inflows does not start a segment"
                return
            if nup == 1 and c in starts and fd[c] != c:
                yield p, f"cell {c} starts a segment without being a confluence"
                return
            if nup > 1:
                w.probe("confluences")
    for seg, seq in seqs.items():
        last = seq[-1]
        k = int(fd[last])
        if k not in cells:
            want = (0,)
        elif k == last:
            want = (seg,) if mode == "mf6" else (0, seg)
            w.probe("terminal stream cells")
        else:
            want = (int(arr[k]),)
        if graph[seg] not in want:
            yield p, (f"number {seg} (cell {last}) is connected to {graph[seg]}, "
                      f"should be {want[-1]}")
            return
        if graph[seg] not in (0, seg) and graph[seg] < seg:
            yield p, f"number {seg} drains to the lower number {graph[seg]}"
            return


def run_cdata(w, a):
    s, sm = _net(w, a["s"])
    if sm["k"] != "sfr6":
        raise Skip("kind")
    kw = {}
    if a.get("pass"):
        # a graph obtained before, perhaps of other streams
        g = w.val.get(a["pass"])
        if g is None:
            raise Skip("no graph")
        kw["graph"] = w.arg("graph", g)
        w.pre["graph"] = {int(k): int(v) for k, v in g.items()}
    elif a.get("gx"):
        g = {int(k): v for k, v in a["gx"]}
        kw["graph"] = w.arg("graph", g)
        w.pre["graph"] = dict(g)
    with w.sim_on():
        out = s.connectiondata(**kw)
    if not kw:
        sm["mode"] = "mf6"
    w.give("connectiondata", out)
    return out


def _graph_from(sm, arr):
    g = {}
    for c in sm["cells"]:
        k = int(sm["fdir"][c])
        g[int(arr[c])] = int(arr[k]) if k in sm["cells"] else 0
    return g


def check_cdata(g, out):
    want = {}
    for r in g:
        want[r] = set()
    for r, t in g.items():
        if t not in (0, r):
            want[r].add(-(t - 1))
            want[t].add(r - 1)
    rows = {}
    for k, row in enumerate(out):
        if int(row[0]) != k:
            yield "C09", f"connection row {k} is for reach {row[0]}"
            return
        rows[k + 1] = [int(v) for v in row[1:]]
    if set(rows) != set(g):
        yield "C09", f"connection data has {len(rows)} rows for {len(g)} reaches"
        return
    for r in g:
        if len(rows[r]) != len(set(rows[r])) or set(rows[r]) != want[r]:
            yield "C09", f"reach {r - 1} is connected to {rows[r]}, should be {sorted(want[r])}"
            return


def chk_cdata(w, a, out):
    s, sm = w.st[a["s"]], w.sm[a["s"]]
    if "graph" in w.pre:
        yield from check_cdata(w.pre["graph"], out)
        return
    arr = np.asarray(s.stream_array).ravel()
    g = _graph_from(sm, arr)
    bad = False
    for v in check_network(w, s, sm, g):
        bad = True
        yield v
    if not bad:
        yield from check_cdata(g, out)


def run_pdata(w, a):
    s, sm = _net(w, a["s"], a.get("x") is None)
    if sm["k"] != "sfr6":
        raise Skip("kind")
    kw = {}
    x = _explicit(w, a, sm)
    if x is not None:
        kw["stream_array"] = x
    if a.get("det"):
        kw["detuple"] = True
    with w.sim_on():
        out = s.packagedata(**kw)
    _set_mode(sm, a, "mf6")
    sm["mode"] = "mf6"
    w.give("packagedata", out)
    return out


def near(x, want, tol):
    """within tolerance; NaN is near nothing but where NaN is due"""
    return bool(np.isnan(want) or abs(x - want) <= tol)


def chk_pdata(w, a, out):
    s, sm = w.st[a["s"]], w.sm[a["s"]]
    m, fd, z = sm["mesh"], sm["fdir"], sm["dem"]
    arr = np.asarray(s.stream_array).ravel()
    g = _graph_from(sm, arr)
    for v in check_network(w, s, sm, g):
        yield v
        return
    if len(out) != len(sm["cells"]):
        yield "C09", f"{len(out)} package rows for {len(sm['cells'])} stream cells"
        return
    ncon = {r: 0 for r in g}
    for r, t in g.items():
        if t not in (0, r):
            ncon[r] += 1
            ncon[t] += 1
    cell_of = {int(arr[c]): c for c in sm["cells"]}
    for k, row in enumerate(out):
        r = k + 1
        c = cell_of[r]
        if int(row["ifno"]) != k:
            yield "C09", f"package row {k} is for reach {row['ifno']}"
            return
        if a.get("det"):
            names = [n for n in out.dtype.names if n in ("k", "i", "j", "node")]
            cid = tuple(int(row[n]) for n in names)
        else:
            cid = tuple(int(v) for v in row["cellid"])
        if cid != m.cellid(c):
            yield "C09", f"reach {k} is in cell {cid}, should be {m.cellid(c)}"
            return
        d = int(fd[c])
        if d in sm["cells"] and d != c:
            want = 1.5 * m.dist(c, d)
            ok = abs(row["rlen"] - want) <= 1e-9 * want + m.fuzz
        else:
            pts = [m.verts[v] for v in m.cells[c]]
            sides = [math.dist(pts[i - 1], pts[i]) for i in range(len(pts))]
            want = "between the sides"
            ok = 1.5 * min(sides) * (1 - 1e-9) - m.fuzz <= row["rlen"] \
                <= 1.5 * max(sides) * (1 + 1e-9) + m.fuzz
        if not ok:
            yield "C09", f"reach {k} has length {row['rlen']!r}, should be {want!r}"
            return
        grad = 0.0
        if d != c:
            drop = z[c] - z[d]
            if not 0 < drop < 1e-6:
                grad = drop / m.dist(c, d)
        if not near(row["rgrd"], grad / 1.5, 1e-9 * max(1.0, abs(grad))):
            yield "C09", f"reach {k} has gradient {row['rgrd']!r}, should be {grad / 1.5!r}"
            return
        if row["rtp"] != z[c] and not (np.isnan(row["rtp"]) and np.isnan(z[c])):
            yield "C09", f"reach {k} has top {row['rtp']!r}, the elevation of its cell is {z[c]!r}"
            return
        if int(row["ncon"]) != ncon[r]:
            yield "C09", f"reach {k} has {row['ncon']} connections, should be {ncon[r]}"
            return


def _grp_kw(sm, a):
    kw = {}
    if a.get("grp") is not None:
        kw["group_segments"] = a["grp"]
    mode = "ung" if a.get("grp") is False else "grp"
    return kw, mode


def run_rdata(w, a):
    s, sm = _net(w, a["s"], a.get("x") is None)
    if sm["k"] != "sfr2005" or sm["mesh"].kind != "s":
        raise Skip("kind")
    kw, mode = _grp_kw(sm, a)
    x = _explicit(w, a, sm)
    if x is not None:
        kw["stream_array"] = x
    with w.sim_on():
        out = s.reach_data(**kw)
    _set_mode(sm, a, mode)
    w.give("reach_data", out)
    return out


def chk_rdata(w, a, out):
    s, sm = w.st[a["s"]], w.sm[a["s"]]
    arr = np.asarray(s.stream_array).ravel()
    yield from check_rdata(w, s, sm, arr, out)


def seg_graph_of(sm, arr):
    seqs, err = order_segments(sm, arr)
    if err:
        return None, None, err
    g = {}
    for seg, seq in seqs.items():
        k = int(sm["fdir"][seq[-1]])
        g[seg] = int(arr[k]) if k in sm["cells"] else 0
        if sm["mode"] == "ung" and g[seg] == seg:
            g[seg] = 0
    return seqs, g, None


def check_rdata(w, s, sm, arr, out, slopes=True):
    m, fd, z = sm["mesh"], sm["fdir"], sm["dem"]
    seqs, g, err = seg_graph_of(sm, arr)
    if err:
        yield "C10", err
        return
    for v in check_network(w, s, sm, g):
        yield v
        return
    want = []
    for seg in sorted(seqs):
        for k, c in enumerate(seqs[seg]):
            want.append((seg, k + 1, c))
    if len(out) != len(want):
        yield "C10", f"{len(out)} reach rows for {len(want)} stream cells"
        return
    for n, (row, (seg, k, c)) in enumerate(zip(out, want)):
        got = (int(row["iseg"]), int(row["ireach"]), int(row["node"]))
        if got != (seg, k, c):
            yield "C10", f"reach row (segment, reach, node) {got}, should be {(seg, k, c)}"
            return
        if (int(row["k"]), int(row["i"]), int(row["j"])) != m.cellid(c):
            yield "C10", f"reach in node {c} has k, i, j {(row['k'], row['i'], row['j'])}"
            return
        d = int(fd[c])
        if not near(row["strtop"], z[c], 1e-6 * max(1.0, abs(z[c]))):
            yield "C10", f"reach in node {c} has top {row['strtop']!r}, its elevation is {z[c]!r}"
            return
        if d in sm["cells"] and d != c:
            ln = 1.5 * m.dist(c, d)
            if not near(row["rchlen"], ln, 1e-5 * ln):
                yield "C10", f"reach in node {c} has length {row['rchlen']!r}, should be {ln!r}"
                return
            sl = (z[c] - z[d]) / ln
            if slopes and not near(row["slope"], sl, 1e-5 * max(1e-3, abs(sl))):
                yield "C10", f"reach in node {c} has slope {row['slope']!r}, should be {sl!r}"
                return
        else:
            ln = 1.5 * (m.spec["delr"][m.cellid(c)[2]]
                        + m.spec["delc"][m.cellid(c)[1]]) / 2
            if not near(row["rchlen"], ln, 1e-5 * ln):
                yield "C10", f"last reach in node {c} has length {row['rchlen']!r}, should be {ln!r}"
                return
            if slopes and not near(row["slope"], 1e-4, 1e-9):
                yield "C10", f"last reach in node {c} has slope {row['slope']!r}"
                return
        if int(row["reachID"]) != n + 1:
            yield "C10", f"reach row {n} has reachID {row['reachID']}"
            return


def run_sdata(w, a):
    s, sm = _net(w, a["s"], a.get("x") is None)
    if sm["k"] != "sfr2005":
        raise Skip("kind")
    kw, mode = _grp_kw(sm, a)
    x = _explicit(w, a, sm)
    if x is not None:
        kw["stream_array"] = x
    with w.sim_on():
        out = s.segment_data(**kw)
    _set_mode(sm, a, mode)
    w.give("segment_data", out)
    return out


def check_sdata(w, s, sm, arr, out):
    seqs, g, err = seg_graph_of(sm, arr)
    if err:
        yield "C10", err
        return
    for v in check_network(w, s, sm, g):
        yield v
        return
    nseg = [int(v) for v in out["nseg"]]
    if nseg != sorted(g):
        yield "C10", f"segment data lists segments {nseg[:10]}.. of {len(g)}"
        return
    for seg, o in zip(nseg, out["outseg"]):
        ok = (g[seg],) if g[seg] != seg else (0, seg)
        if int(o) not in ok:
            yield "C10", f"segment {seg} drains to {int(o)}, should be {g[seg]}"
            return


def chk_sdata(w, a, out):
    s, sm = w.st[a["s"]], w.sm[a["s"]]
    yield from check_sdata(w, s, sm, np.asarray(s.stream_array).ravel(), out)


def run_vec(w, a):
    s, sm = _net(w, a["s"], a.get("x") is None)
    kw, mode = _grp_kw(sm, a)
    x = None
    if a.get("x") is not None:
        z = np.zeros(sm["mesh"].n)
        z[a["x"]] = 1
        if a.get("nan"):
            z[z == 0] = np.nan
            x = fmt_array(sm["mesh"], z, "")
        else:
            x = fmt_array(sm["mesh"], z, a.get("fmt", "i8"))
        kw["stream_array"] = w.arg("stream_array", x)
    with w.sim_on():
        out = s.create_stream_vectors(**kw)
    if a.get("x") is not None:
        sm["cells"] = set(a["x"])
    sm["mode"] = mode
    w.give("vectors", out)
    return out


def chk_vec(w, a, out):
    s, sm = w.st[a["s"]], w.sm[a["s"]]
    m = sm["mesh"]
    arr = np.asarray(s.stream_array).ravel()
    seqs, g, err = seg_graph_of(sm, arr)
    if err:
        yield "C10", err
        return
    for v in check_network(w, s, sm, g):
        yield v
        return
    got = {int(k): v for k, v in out.items()}
    if not set(got) <= set(seqs):
        yield "C10", f"vectors for unknown segments {sorted(set(got) - set(seqs))}"
        return
    for seg, seq in seqs.items():
        cells = list(seq)
        if g[seg] not in (0, seg):
            cells.append(seqs[g[seg]][0])
        term = int(sm["fdir"][seq[-1]]) == seq[-1]
        pts = [(m.xc[c], m.yc[c]) for c in cells]
        if seg not in got:
            if len(cells) > 1:
                yield "C10", f"segment {seg} of {len(seq)} cells has no vector"
                return
            continue
        v = [(float(p[0]), float(p[1])) for p in got[seg]]
        opts = [pts]
        if term:
            opts.append(pts + [pts[0]])
        if not any(len(o) == len(v) and all(
                abs(p[0] - q[0]) < m.fuzz and abs(p[1] - q[1]) < m.fuzz
                for p, q in zip(o, v)) for o in opts):
            yield "C10", f"vector of segment {seg} is {v}, should be {pts}"
            return


def run_irun(w, a):
    s, sm = _net(w, a["s"], a.get("x") is None)
    if sm["k"] != "sfr2005":
        raise Skip("kind")
    kw, mode = _grp_kw(sm, a)
    if a.get("own") or a.get("sg"):
        kw["stream_array"] = _own(w, s, sm, a)
    elif a.get("x") is not None:
        kw["stream_array"] = _explicit(w, a, sm)
    if a.get("sg"):
        # numbered streams and their graph, both handed in
        g = w.val.get(a["sg"])
        if g is None or sm["mode"] is None or {int(k): int(v) for k, v in
                                               g.items()} != seg_graph_of(
                sm, np.ravel(s.stream_array).astype(int))[1]:
            raise Skip("no graph")
        kw["segment_graph"] = w.arg("graph", g)
        if a["o"] == "irun" and a.get("bare"):
            del kw["stream_array"]
    with w.sim_on():
        out = s.irunbnd(**kw)
    if not a.get("sg"):
        _set_mode(sm, a, mode)
    w.give("irunbnd", out)
    return out


def check_irun(sm, arr, out):
    m = sm["mesh"]
    if not isinstance(out, np.ndarray) or out.shape != m.shape:
        yield "C11", f"shape {getattr(out, 'shape', None)}"
        return
    want = np.array(M.first_on_path(sm["fdir"], [int(v) for v in arr]))
    got = out.ravel()
    if not np.array_equal(got, want):
        c = int(np.where(got != want)[0][0])
        yield "C11", f"cell {c} is routed to segment {int(got[c])}, first stream segment downstream is {int(want[c])}"


def chk_irun(w, a, out):
    s, sm = w.st[a["s"]], w.sm[a["s"]]
    arr = np.asarray(s.stream_array).ravel()
    seqs, g, err = seg_graph_of(sm, arr)
    if err:
        yield "C11", "segment numbering is inconsistent: " + err
        return
    for p, msg in check_network(w, s, sm, g):
        yield "C11", "segment numbering is inconsistent: " + msg
        return
    yield from check_irun(sm, arr, out)


def run_casc(w, a):
    s, sm = _net(w, a["s"], a.get("x") is None)
    if sm["k"] != "prms":
        raise Skip("kind")
    fm = w.fm.get(sm["f"])
    if fm is None or not fm["fdir"] or not np.array_equal(
            np.ravel(sm["fa"].flow_direction_array), sm["fdir"]):
        raise Skip("flow object moved on")
    kw = {}
    mode = "grp" if a.get("grp") else "mf6"
    if a.get("grp") is not None:
        kw["group_segments"] = a["grp"]
    kw.update(bound(w, a, sm))
    if a.get("m2m") is not None:
        kw["many2many"] = a["m2m"]
    if a.get("own"):
        kw["stream_array"] = _own(w, s, sm, dict(a, fmt=a.get("fmt") if a.get(
            "fmt") != "nan" else None))
    elif a.get("x") is not None:
        kw["stream_array"] = _explicit(w, a, sm)
    with w.sim_on():
        out = s.get_cascades(**kw)
    _set_mode(sm, a, mode)
    w.give("cascades", out)
    return out


def check_casc(w, s, sm, a, out, thr):
    m, fd, z = sm["mesh"], sm["fdir"], sm["dem"]
    up, dn, pct, strm = [np.asarray(v) for v in out]
    if not len(up) == len(dn) == len(pct) == len(strm):
        yield "C12", "cascade arrays differ in length"
        return
    arr = np.asarray(s.stream_array).ravel()
    act = w.pre["act"]
    links = {}
    for u, d, p, q in zip(up, dn, pct, strm):
        u, d, p, q = int(u) - 1, int(d) - 1, float(p), int(q)
        if not (0 <= u < m.n and 0 <= d < m.n):
            yield "C12", f"link {u + 1} -> {d + 1} leaves the grid"
            return
        if q != int(arr[d]):
            yield "C12", f"link {u + 1} -> {d + 1} carries stream {q}, the receiving cell has {int(arr[d])}"
            return
        if not a.get("m2m"):
            if p != 1.0:
                yield "C12", f"link {u + 1} -> {d + 1} has fraction {p!r}"
                return
        elif (u, d) in links:
            yield "C12", f"link {u + 1} -> {d + 1} is listed twice"
            return
        links[(u, d)] = p
    per = {}
    for (u, d), p in links.items():
        per.setdefault(u, {})[d] = p
    for c in range(m.n):
        mine = per.get(c, {})
        want = expected_links(m, fd, z, act, sm["cells"], c, a.get("m2m"), thr)
        if want is None:
            continue
        if set(mine) != set(want) or any(
                not near(mine[d], want[d], 1e-6) for d in want):
            yield "C12", (f"cell {c} passes its water to {mine}, should be {want}"
                          f"{' (outside the basin)' if not act[c] else ''}")
            return
        if len(want) > 1:
            w.probe("many-to-many cells")


def expected_links(m, fd, z, act, stream, c, m2m, thr):
    if not act[c]:
        return {}
    d = int(fd[c])
    if not m2m or c in stream:
        return {(d if act[d] else c): 1.0}
    s = {}
    for k in m.adj[c]:
        if act[k] and z[k] < z[c]:
            s[k] = (z[c] - z[k]) / m.dist(c, k)
    if not s:
        return {}
    tot = sum(s.values())
    if any(abs(v / tot - 0.01) < 1e-9 for v in s.values()):
        return None
    s = {k: v for k, v in s.items() if v / tot > 0.01}
    tot = sum(s.values())
    return {k: v / tot for k, v in s.items()}


def chk_casc(w, a, out):
    s, sm = w.st[a["s"]], w.sm[a["s"]]
    yield from check_casc(w, s, sm, a, out, sm["thr"])
    arr = np.asarray(s.stream_array).ravel()
    if set(np.where(arr != 0)[0].tolist()) != sm["cells"]:
        yield "C12", "the numbered cells are not the stream cells"
        return
    yield from check_numbers(w, s, sm, arr)


def check_numbers(w, s, sm, arr):
    """the numbers the links refer to are those of a network of the streams"""
    seqs, err = order_segments(sm, arr)
    g = {}
    for seg, seq in (seqs or {}).items():
        k = int(sm["fdir"][seq[-1]])
        if k not in sm["cells"]:
            g[seg] = 0
        else:
            g[seg] = int(arr[k]) if k != seq[-1] else seg
    for _, msg in ([(None, err)] if err else check_network(w, s, sm, g)):
        yield "C12", "stream numbers: " + msg
        return


OWNCOL = {"r": ("strhc1", 7.5), "s": ("roughch", 0.375)}


def run_build(w, a):
    """pyGSFLOW builder object of a PRMS or MODFLOW-2005 stream object"""
    s, sm = _net(w, a["s"], a.get("x") is None)
    kw = {}
    if sm["k"] == "prms":
        if not w.fm[sm["f"]]["fdir"] or not np.array_equal(
                np.ravel(sm["fa"].flow_direction_array), sm["fdir"]):
            raise Skip("flow object moved on")
        if a.get("grp") is not None:
            kw["group_segments"] = a["grp"]
        kw.update(bound(w, a, sm))
        if a.get("m2m") is not None:
            kw["many2many"] = a["m2m"]
        if a.get("own"):
            kw["stream_array"] = _own(w, s, sm, a)
        elif a.get("x") is not None:
            kw["stream_array"] = _explicit(w, a, sm)
        mode = "mf6" if a.get("grp") is False else "grp"
    elif sm["k"] == "sfr2005" and sm["mesh"].kind == "s":
        if a.get("grp") is not None:
            kw["group_segments"] = a["grp"]
        if a.get("roughch") is not None:
            kw["roughch"] = a["roughch"]
        if a.get("mx") is not None:
            kw["max_slope"] = a["mx"]
        kw.update(a.get("kw") or {})
        for key, call in (("r", "reach_data"), ("s", "segment_data"),
                          ("i", "irunbnd")):
            if key in a.get("sup", ""):
                g = {"group_segments": a["grp"]} if a.get("grp") is not None else {}
                with w.sim_on():
                    kw[call] = getattr(s, call)(**g)
                if key in OWNCOL and a.get("defaults") is False:
                    # values of the caller's own
                    kw[call] = kw[call].copy()
                    kw[call][OWNCOL[key][0]] = OWNCOL[key][1]
                w.arg(call, kw[call])
        if a.get("defaults") is not None:
            kw["apply_defaults"] = a["defaults"]
        mode = "ung" if a.get("grp") is False else "grp"
    else:
        raise Skip("kind")
    with w.sim_on():
        out = s.get_pygsflow_builder_object(**kw)
    if sm["k"] == "prms":
        if a.get("x") is not None:
            sm["cells"] = set(a["x"])
        sm["mode"] = mode
    else:
        _set_mode(sm, a, mode)
    w.obj[a["r"]] = out
    for k, v in sorted(vars(out).items()):
        if isinstance(v, np.ndarray):
            w.give("builder " + k, v)
    return out


def chk_build(w, a, out):
    s, sm = w.st[a["s"]], w.sm[a["s"]]
    m = sm["mesh"]
    arr = np.asarray(s.stream_array).ravel()
    if sm["k"] == "prms":
        links = (out.hru_up_id, out.hru_down_id, out.hru_pct_up,
                 out.hru_strmseg_down_id)
        yield from check_casc(w, s, sm, a, links, sm["thr"])
        if out.ncascade != len(out.hru_up_id):
            yield "C12", f"ncascade {out.ncascade} for {len(out.hru_up_id)} links"
        nseg = len(set(int(arr[c]) for c in sm["cells"]))
        if out.nsegments != nseg or out.nreaches != len(sm["cells"]):
            yield "C12", (f"{out.nsegments} segments and {out.nreaches} reaches "
                          f"for {nseg} and {len(sm['cells'])}")
        if out.cascade_flag != (0 if a.get("m2m") else 1):
            yield "C12", f"cascade flag {out.cascade_flag}"
        fa = sm["fa"]
        for name, want in (("hru_slope", fa.slope), ("hru_aspect", fa.aspect),
                           ("hru_area", fa.area)):
            if not np.array_equal(getattr(out, name), np.ravel(want)):
                yield "C12", f"{name} is not that of the flow object"
        yield from check_numbers(w, s, sm, arr)
        return
    yield from check_rdata(w, s, sm, arr, out.reach_data, slopes=False)
    yield from check_sdata(w, s, sm, arr, out.segment_data)
    yield from check_irun(sm, arr, out.irunbnd)
    if a.get("defaults", True):
        yield from check_defaults(sm, arr, a, out)
        return
    for key, tab in (("r", out.reach_data), ("s", out.segment_data)):
        if key in a.get("sup", ""):
            col, v = OWNCOL[key]
            if not np.allclose(tab[col], v):
                yield "C10", f"{col} is {tab[col][:5]}, the given table has {v}"
                return


def check_defaults(sm, arr, a, out):
    """the default values of a builder object's reaches and segments"""
    want = {"etsw": 0.0, "flow": 1.0, "icalc": 1, "iprior": 0, "pptsw": 0.0,
            "roughch": a.get("roughch") or 0.025, "runoff": 0.0, "width1": 10,
            "width2": 10}
    given = a.get("kw") or {}
    want.update({k: v for k, v in given.items() if k in want})
    for k, v in want.items():
        if not np.allclose(out.segment_data[k], v):
            yield "C10", f"default {k} of the segments is {out.segment_data[k][:5]}, should be {v}"
            return
    for k in ("strhc1", "strthick"):
        if not np.allclose(out.reach_data[k], given.get(k, 1.0)):
            yield "C10", f"default {k} of the reaches is {out.reach_data[k][:5]}"
            return
    m, fd, z = sm["mesh"], sm["fdir"], sm["dem"]
    top = a.get("mx") or 1.0
    low = given.get("min_slope", 1e-4)
    for row in out.reach_data:
        c = int(row["node"])
        d = int(fd[c])
        if d in sm["cells"] and d != c:
            sl = (z[c] - z[d]) / m.dist(c, d)
        else:
            sl = given.get("default_slope", 1e-3)
        sl = min(max(sl, low), top)
        if np.isnan(sl):
            continue
        if not near(row["slope"], sl, 1e-5 * sl):
            yield "C10", f"builder reach in node {c} has slope {row['slope']!r}, should be {sl!r}"
            return


# --------------------------------------------------------------------------
# calls that are refused
# --------------------------------------------------------------------------
def run_bad(w, a):
    """a call with arguments it cannot serve: it raises, and what follows must
    not notice"""
    k = a["k"]
    if "s" in a:
        s, sm = _need(w.st, a["s"]), w.sm[a["s"]]
        m = sm["mesh"]
        n = m.n + (3 if a.get("v", 0) % 2 else -1)
        if k == "setarr":
            x = w.arg("stream_array", np.ones(n, int))
            call = lambda: s.set_stream_array(x)
        elif k == "thr":
            x = w.arg("contrib_area", np.full(n, 0.5))
            call = lambda: s.delineate_streams(x)
        elif k == "bound":
            x = w.arg("basin_boundary", np.zeros(n, int))
            call = lambda: s.delineate_streams(0, basin_boundary=x)
        elif k == "ctrl":
            x = w.arg("points", [(1.0, 2.0, 3.0)])
            call = lambda: s.threshold_from_control_points(x, 3)
        elif k == "ctrlout":
            x = w.arg("points", _outside(m))
            call = lambda: s.threshold_from_control_points(x, 3)
        elif k == "kw":
            if sm["k"] != "sfr2005":
                raise Skip("kind")
            call = lambda: s.get_pygsflow_builder_object(
                roughch=0.9, max_slope=7.0, no_such_parameter=1)
        else:
            raise KeyError(k)
    elif "f" in a:
        fa, fm = _need(w.fa, a["f"]), w.fm[a["f"]]
        m = fm["mesh"]
        if k == "pt3":
            x = w.arg("point", [1.0, 2.0, 3.0])
            call = lambda: fa.get_watershed_boundary(x)
        elif k == "ptout":
            x = w.arg("point", _outside(m)[0])
            call = lambda: fa.get_watershed_boundary(x)
        elif k == "pts3":
            x = w.arg("points", [m.point(0, (0, 0)), (1.0, 2.0, 3.0)])
            call = lambda: fa.get_subbasins(x)
        elif k == "ptsout":
            x = w.arg("points", [m.point(0, (0, 0))] + _outside(m))
            call = lambda: fa.get_subbasins(x)
        elif k == "term":
            x = w.arg("terminal_cells", [0, m.n + 5])
            call = lambda: fa.flow_directions(
                burn_threshold=5.0, terminal_cells=x)
        elif k == "rc":
            if m.kind == "s":
                raise Skip("kind")
            x = w.arg("terminal_cells", [[0, 0]])
            call = lambda: fa.flow_directions(
                burn_threshold=5.0, terminal_cells=x)
        else:
            raise KeyError(k)
        if k not in ("term", "rc") and not fm["fdir"]:
            raise Skip("no directions")
    else:
        g = _need(w.grid, a["g"])
        m = w.gmeta[a["g"]]["mesh"]
        z = np.linspace(0, 1, m.n).reshape(m.shape)
        z.flat[0] = np.nan
        w.arg("dem", z)
        if k == "nan":
            call = lambda: w.dany.fill_nan_values(g, z, method="mode")
        elif k == "size":
            x = w.arg("dem", np.zeros(max(1, m.n - 2)))
            call = lambda: w.dany.fill_nan_values(g, x)
        elif k == "mask":
            x = w.arg("stream_mask", np.ones(m.n + 2))
            call = lambda: w.dany.fill_sinks(g, z, stream_mask=x)
        else:
            raise KeyError(k)
    with w.sim_on():
        call()
    # accepted after all: nothing is promised about these objects any more
    if "s" in a:
        sm["cells"] = None
    elif k in ("term", "rc"):
        fm["fdir"] = False
    return None


def _outside(m):
    far = 10.0 * (m.xc.max() - m.xc.min() + m.yc.max() - m.yc.min()) + 1e5
    return [(m.xc.max() + far, m.yc.max() + far)]


def expect_bad(w, a, exc):
    return isinstance(exc, Exception) and not isinstance(exc, RecursionError)


# --------------------------------------------------------------------------
# persistence
# --------------------------------------------------------------------------
def _path(w, a):
    p = os.path.join(w.disk, a["p"])
    return Path(p) if a.get("pathlib") else p


def run_tag(w, a):
    """the user adds or changes attributes of a builder object"""
    o = _need(w.obj, a["x"])
    v, new = a["v"], a.get("new")
    if new == "edit":
        # one value of one table or array; a saved file keeps its length
        for k in sorted(vars(o)):
            x = getattr(o, k)
            if isinstance(x, np.ndarray) and x.size and x.dtype.kind in "iuf":
                x = x.copy()
                x.flat[v % x.size] = x.flat[v % x.size] // 2 + v % 7
                setattr(o, k, x)
                if v % 3:
                    break
    elif new == "field":
        k = sorted(vars(o))[v % len(vars(o))]
        setattr(o, k, _TAGS[v % len(_TAGS)](v))
    elif new:
        x = np.arange(v, dtype=float)
        if new in ("_note", "__version__", "Extra"):
            x = _TAGS[v % len(_TAGS)](v)
        setattr(o, new, x)
    else:
        for k, x in vars(o).items():
            if isinstance(x, np.ndarray) and x.dtype.names is None and x.size:
                setattr(o, k, x.copy())
        o.note = {"run": v, "list": list(range(v))}
    return None


# values a user might keep on an object
_TAGS = [
    lambda v: None, lambda v: False, lambda v: v, lambda v: -v / 7.0,
    lambda v: f"run {v}", lambda v: (v, "a"), lambda v: [[v], {}],
    lambda v: np.full(3, np.nan), lambda v: np.arange(v % 50, dtype=">i2"),
    lambda v: np.asfortranarray(np.arange(12.0).reshape(3, 4) + v),
    lambda v: np.array(["x", "long name", ""]), lambda v: np.float32(v / 3),
    lambda v: np.array([1.5, None, "z"], dtype=object),
    lambda v: {"a": np.arange(v % 9), 3: [float("inf")]},
    lambda v: bytes(range(v % 256)), lambda v: 1 << (v % 90),
    lambda v: np.zeros((0, 4)), lambda v: complex(v, 1),
]


def run_write(w, a):
    o = _need(w.obj, a["x"])
    path = _path(w, a)
    key = a["p"]
    rec = w.saved.setdefault(key, {"acked": None, "complete": set(), "flight": None})
    d = dig(o)
    w.args.append(("saved object", o, raw_dig(o)))
    rec["flight"] = d
    rec["maybe"] = rec.get("maybe", set()) | {d}
    rec["clean"] = False
    with w.sim_on():
        o.write(path)
    rec["acked"] = d
    rec["flight"] = None
    rec["complete"].add(d)
    rec["clean"] = True
    return None


def chk_write(w, a, out):
    return ()


def run_read(w, a):
    rec = _need(w.saved, a["p"])
    path = _path(w, a)
    su = w.dany.stream_util
    cls = {"S": su.PygsflowStreams, "C": su.PygsflowCascades}[a.get("cls", "S")]
    with w.sim_on():
        out = cls.read(path)
    if a.get("r"):
        w.obj[a["r"]] = out
    return out


def expect_read(w, a, exc):
    """a read may fail only when the last save of the file did not succeed"""
    rec = w.saved.get(a["p"])
    return rec is not None and not rec["clean"] and isinstance(exc, Exception)


def chk_read(w, a, out):
    rec = w.saved[a["p"]]
    d = dig(out)
    if rec["clean"]:
        if d != rec["acked"]:
            yield "C13", "the object read is not the one last saved"
    elif d not in rec["maybe"]:
        yield "C13", "the object read was never saved to this file"
    else:
        w.probe("read after unsuccessful save returned a complete object")


RUN = {k[4:]: v for k, v in list(globals().items()) if k.startswith("run_")}
CHK = {k[4:]: v for k, v in list(globals().items()) if k.startswith("chk_")}
EXPECT = {k[7:]: v for k, v in list(globals().items()) if k.startswith("expect_")}


def undrained(w, a):
    """the flow directions in force were taken from raw elevations and leave
    cells that drain nowhere: calls on them may be refused"""
    fa = w.fa.get(a.get("f"))
    try:
        return bool((np.ravel(fa.flow_direction_array) < 0).any())
    except Exception:
        return False


# property an unexpected exception of an operation counts against
OWNER = {
    "fill": "C01", "fillnan": "C02", "fa": "C03", "fdir": "C03", "facc": "C04", "getfa": "C04",
    "nidp": "C04", "ws": "C05", "sub": "C06", "terrain": "C07", "strm": "C08",
    "delin": "C08", "setarr": "C08", "getarr": "C08", "ctrl": "C08",
    "cdata": "C09", "pdata": "C09", "rdata": "C10", "sdata": "C10",
    "vec": "C10", "irun": "C11", "casc": "C12", "write": "C13", "read": "C13",
}


def owner(w, a):
    o = a["o"]
    if o == "conn":
        k = w.sm.get(a["s"], {}).get("k")
        if k == "sfr6" or (k == "prms" and not a.get("grp")):
            return "C09"
        return "C10"
    if o == "build":
        return "C12" if w.sm.get(a["s"], {}).get("k") == "prms" else "C10"
    return OWNER.get(o)
