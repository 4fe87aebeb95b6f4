"""Executes one scenario under one plan as one deterministic simulated run and
collects what the oracles have to say about it."""
import gc
import os
import random
import shutil
import sys
import tempfile
import warnings

import numpy as np

from . import core, loader, ops
from . import mesh as M


def budget(world):
    """steps an operation may take: quadratic in the largest grid around"""
    n = max([m.n for m in world.mesh.values()])
    return 300_000 + 20 * n * n


class Violation(dict):
    pass


def violation(prop, phase, sess, op, name, msg):
    return {"property": prop, "phase": phase, "session": sess, "op": op,
            "name": name, "what": msg}


class Result:
    def __init__(self):
        self.violations = []
        self.out = {}          # (phase, session, op) -> outcome
        self.steps = {}        # (session, op) -> (steps, stores, nout, ndisk)
        self.attempts = {}
        self.cov = {}
        self.fired = {}
        self.trace = []
        self.nops = 0
        self.nsteps = 0
        self.nswitch = 0
        self.crashed = False

    def add(self, *a):
        self.violations.append(violation(*a))

    def unchecked(self, why):
        why = "unchecked: " + why
        self.cov[why] = self.cov.get(why, 0) + 1

    def digest(self):
        return ops.dig([sorted((str(k), v) for k, v in self.out.items()),
                        self.trace])


def build_meshes(scn):
    if "_meshes" not in scn:
        scn["_meshes"] = {k: M.Mesh(v) for k, v in scn["meshes"].items()}
    return scn


class Machine:
    """A simulated process running one scenario"""

    def __init__(self, scn, flags=()):
        self.scn = build_meshes(scn)
        self.flags = set(flags)
        self.res = Result()

    # -- one phase ----------------------------------------------------------
    def phase(self, name, world, sessions, plan=None, record=False):
        sim = core.Sim(plan, disk_root=world.disk, record=record,
                       buffer_size=self.scn.get("buffer", 8192))
        bodies = [self._body(name, world, oplist, record) for oplist in sessions]
        stdout = sys.stdout
        sys.stdout = core.SimStdout()
        try:
            sim.run(bodies)
        finally:
            sys.stdout = stdout
        r = self.res
        for k, v in sim.fired.items():
            r.fired[k] = r.fired.get(k, 0) + v
        r.trace += [[name] + t for t in sim.trace]
        r.nsteps += sim.steps
        r.nswitch += sim.nswitch
        r.crashed = r.crashed or sim.crashed
        return sim

    def _body(self, phase, world, oplist, record):
        def body(sess):
            view = ops.View(world, sess)
            for k, a in enumerate(oplist):
                if a is None:       # left out by the minimiser
                    continue
                if not self._op(phase, view, sess, k, a, record):
                    return
        return body

    def _op(self, phase, w, sess, k, a, record):
        r = self.res
        key = (phase, sess.tid, k)
        name = a["o"]
        for attempt in range(8):
            sess.sim.at_boundary(sess, k, attempt)
            w.op, w.attempt, w.budget = k, attempt, self.scn.get("budget") or budget(w)
            w.args, w.pre = [], {}
            sess.fired = []
            sess.step = 0
            sess.record = [] if record else None
            if "globals" in self.flags:
                w.watch = global_state
                w.state = w.after = None
            exc = None
            out = None
            try:
                out = ops.RUN[name](w, a)
            except ops.Skip as e:
                r.out[key] = ("skip",)
                return True
            except (core.SimAbort, core.SimCrash):
                r.out[key] = ("crash",)
                raise
            except core.SimHang as e:
                if self.scn.get("huge") and isinstance(e.args[0], int):
                    # more than is worth waiting for, which is not no end
                    r.unchecked("too long")
                    r.out[key] = ("skip",)
                    sess.sim.crashed = True
                    raise core.SimAbort()
                r.out[key] = ("hang",)
                p = ops.owner(w, a)
                for prop in {p, "C18"} - {None}:
                    r.add(prop, phase, sess.tid, k, name,
                          (f"no end after {e.args[0]} steps" if isinstance(e.args[0], int) else str(e.args[0])))
                sess.sim.crashed = True
                raise core.SimAbort()
            except core.HarnessError:
                raise
            except BaseException as e:
                exc = e
            if sess.sim.frozen:
                # died inside something that swallows exceptions (a destructor)
                r.out[key] = ("crash",)
                raise core.SimAbort()
            fired = list(sess.fired)
            r.nops += 1
            if record:
                r.steps[(sess.tid, k)] = (
                    sess.step, sess.record, sess.nout, sess.ndisk
                )
            if "globals" in self.flags:
                before, after = w.state, w.after
                if before != after:
                    diff = [n for n in before if before[n] != after[n]]
                    r.add("C17", phase, sess.tid, k, name,
                          f"the call changed the process-wide {', '.join(diff)}")
            if "args" in self.flags or name == "write":
                self._check_args(phase, w, sess, k, a)
            if exc is not None and fired:
                # cut short by an injected fault: the caller tries again
                r.attempts[key] = attempt + 1
                exc = None
                if a.get("giveup"):
                    r.out[key] = ("gaveup",)
                    return True
                continue
            if isinstance(exc, MemoryError) and self.scn.get("huge"):
                r.unchecked("too large")
                r.out[key] = ("skip",)
                sess.sim.crashed = True
                raise core.SimAbort()
            if exc is not None:
                expect = ops.EXPECT.get(name)
                allowed = bool(expect and expect(w, a, exc))
                if isinstance(exc, Exception) \
                        and not isinstance(exc, RecursionError) \
                        and (a.get("raw") or ops.undrained(w, a)):
                    allowed = True
                if name in ("mk", "dem", "ask", "drop", "tag", "top", "idom",
                            "scribble"):
                    import traceback
                    raise core.HarnessError(
                        "".join(traceback.format_exception(exc)))
                r.out[key] = ("exc", type(exc).__name__)
                if not allowed:
                    prop = ops.owner(w, a)
                    msg = f"unexpected {type(exc).__name__}: {exc}"
                    # an exception raised by harness code is not a verdict
                    tb = exc.__traceback__
                    last = None
                    through = False
                    while tb is not None:
                        last = tb.tb_frame.f_code
                        through = through or loader.is_dany_code(last)
                        tb = tb.tb_next
                    if not through and r.violations:
                        # after a violation the session's model may be off
                        return False
                    if not through:
                        import traceback
                        raise core.HarnessError(
                            "".join(traceback.format_exception(exc)))
                    r.add(prop, phase, sess.tid, k, name, msg)
                    if isinstance(exc, RecursionError):
                        r.add("C18", phase, sess.tid, k, name, msg)
                return True
            r.out[key] = ("ok", ops.dig(out))
            chk = ops.CHK.get(name)
            if chk is not None and not a.get("raw"):
                try:
                    found = list(chk(w, a, out))
                except ops.Skip as e:
                    r.unchecked(str(e))
                    found = []
                except Exception as e:
                    # not even of the documented form
                    prop = ops.owner(w, a)
                    found = [(prop, f"malformed result: {type(e).__name__}: {e}")]
                else:
                    r.cov["checked " + name] = r.cov.get("checked " + name, 0) + 1
                for prop, msg in found:
                    r.add(prop, phase, sess.tid, k, name, msg)
            return True
        raise core.HarnessError("operation never got through")

    def _check_args(self, phase, w, sess, k, a):
        for label, x, d in w.args:
            if ops.raw_dig(x) != d:
                self.res.add("C14", phase, sess.tid, k, a["o"],
                             f"the call changed its argument {label}")
                if a["o"] == "write":
                    self.res.add("C13", phase, sess.tid, k, a["o"],
                                 "saving changed the object")
        if "args" in self.flags:
            keep = []
            for label, x, d in w.ledger:
                if ops.raw_dig(x) != d:
                    self.res.add("C14", phase, sess.tid, k, a["o"],
                                 f"the call changed {label} handed back by an earlier call")
                else:
                    keep.append((label, x, d))
            w.ledger[:] = keep

    def _grids(self, world):
        """what the grids answer at the end of the session"""
        for name, g in world.grid.items():
            meta = world.gmeta[name]
            m = meta["mesh"]
            bad = None
            if not (np.allclose(np.ravel(g.xcellcenters), m.xc)
                    and np.allclose(np.ravel(g.ycellcenters), m.yc)):
                bad = "cell centres"
            elif [list(v)[:len(c)] for v, c in zip(g.iverts, m.cells)] != [
                    list(c) for c in m.cells] and m.kind != "s":
                bad = "cell vertices"
            elif m.kind == "s" and not (
                    np.allclose(g.delr, m.spec["delr"])
                    and np.allclose(g.delc, m.spec["delc"])):
                bad = "cell sizes"
            elif not np.array_equal(np.ravel(g.idomain), np.tile(
                    meta["idom"], np.size(g.idomain) // m.n)):
                bad = "idomain"
            elif not np.all(np.asarray(g.botm) < 0):
                bad = "bottom elevations"
            elif not ops.top_ok(g, meta):
                bad = "top elevations"
            else:
                rule = meta["cached"] or "rook"
                want = m.adj if rule == "queen" else [sorted(x) for x in m.rook]
                ans = g.neighbors()
                if [sorted(ans[k]) for k in range(m.n)] != want:
                    bad = "neighbours"
            if bad:
                self.res.add("C14", "closing", 0, -1, "grid",
                             f"grid {name} answers different {bad} than before")

    # -- the whole run ------------------------------------------------------
    def run(self, plan=None, record=False, only=None, hist=None, env=None,
            again=None):
        """plan: switches and faults of the concurrent phase; only: run just
        this session (solo); hist: a scenario the process ran before; env: seed
        of clock and global random state; again: repeat everything on "fresh"
        or on the "same" objects"""
        scn = self.scn
        disk = None
        worlds = []
        if scn.get("disk") or hist and hist.get("disk"):
            disk = os.path.realpath(tempfile.mkdtemp(prefix="danysim-"))
        env = Environment(scn.get("envseed", 0) if env is None else env)
        try:
            core.start_monitoring()
            with _quiet(), env:
                dany = loader.fresh()
                if hist:
                    hm = Machine(hist)
                    junk = ops.World(dany, hist, disk)
                    worlds.append(junk)
                    hm.phase("history", junk, [hist.get("setup", [])])
                    for s in hist.get("sessions", []):
                        hm.phase("history", junk, [s])
                    self.res.nsteps += hm.res.nsteps
                    junk.close()
                    worlds.remove(junk)
                    del junk, hm
                    gc.collect()
                world = ops.World(dany, scn, disk, "args" in self.flags)
                worlds.append(world)
                self.phase("setup", world, [scn.get("setup", [])])
                sessions = scn["sessions"]
                if only is not None:
                    sessions = [
                        s if i == only else [] for i, s in enumerate(sessions)
                    ]
                self.phase("main", world, sessions, plan, record)
                if self.res.crashed and disk is not None:
                    # the process died: only the disk survives
                    saved = world.saved
                    world = ops.World(loader.fresh(), scn, disk,
                                      "args" in self.flags)
                    world.saved = saved
                    worlds.append(world)
                if not self.res.crashed or disk is not None:
                    self.phase("closing", world, [scn.get("closing", [])])
                if again:
                    self.phase("again-setup", world,
                               [_repeat(scn.get("setup", []), again)])
                    for i, s in enumerate(sessions):
                        todo = [[] for _ in sessions]
                        todo[i] = _repeat(s, again)
                        self.phase("again", world, todo)
                if "args" in self.flags and not self.res.crashed:
                    self._grids(world)
                for k, v in world.cov.items():
                    self.res.cov[k] = self.res.cov.get(k, 0) + v
        finally:
            for x in worlds:
                x.close()
            core.close_files()
            if disk is not None:
                shutil.rmtree(disk, ignore_errors=True)
        return self.res


KEPT = ("mk", "drop", "dem", "fa", "strm", "scribble", "top", "idom", "tag")


def _repeat(lst, how):
    if how == "fresh":
        return lst
    return [None if a is None or a["o"] in KEPT else a for a in lst]


class _quiet:
    def __enter__(self):
        self.np = np.seterr(all="ignore")
        self.f = warnings.filters[:]
        warnings.simplefilter("ignore")

    def __exit__(self, *a):
        np.seterr(**self.np)
        warnings.filters[:] = self.f


class Environment:
    """clock and global random generators of the simulated process"""

    def __init__(self, seed):
        self.seed = seed

    def __enter__(self):
        self.np = np.random.get_state()
        self.rnd = random.getstate()
        random.seed(self.seed)
        np.random.seed(self.seed % (1 << 32))
        loader.seams(lambda: core._cur)
        loader.set_process(loader.Clock(self.seed), loader.Entropy(self.seed))
        return self

    def __exit__(self, *a):
        loader.set_process(None)
        np.random.set_state(self.np)
        random.setstate(self.rnd)


def global_state():
    st = np.random.get_state()
    return {
        "NumPy random state": (st[0], st[1].tobytes(), st[2], st[3], st[4]),
        "random state": random.getstate(),
        "NumPy error settings": tuple(sorted(np.geterr().items())),
        "NumPy print settings": repr(sorted(
            (k, repr(v)) for k, v in np.get_printoptions().items())),
        "warning filters": repr([
            (f[0], getattr(f[1], "pattern", f[1]), f[2].__name__,
             getattr(f[3], "pattern", f[3]), f[4]) for f in warnings.filters]),
        "working directory": os.getcwd(),
        "recursion limit": sys.getrecursionlimit(),
    }
