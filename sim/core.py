"""Deterministic scheduler and fault injector.

Every simulated session is a real thread, but exactly one of them holds the
baton at any time; who runs is decided only by the plan.  Yield and fault
points are the places where CPython really can switch threads, deliver a signal
or fail an allocation inside dany code: function entry, a call made by dany
code (before it and after it returned) and loop back-edges.  They are observed
with ``sys.monitoring`` on code objects whose file lies in the dany package, so
the shipped source is run unmodified and points do not depend on how a
statement is written.

A *plan* is fully explicit and JSON-able::

    {"switches": [[tid, op, attempt, step, to_tid], ...],
     "faults":   [[tid, op, attempt, channel, index, kind, arg], ...]}

channel "code": index is the step number inside the attempt (fault fires at the
first point with that number or later at which an exception may be raised),
channel "out": index of the console write, channel "disk": index of the raw
disk operation.
"""
import builtins
import dis
import errno
import io
import os
import shutil
import sys
import threading

from . import loader

MON = sys.monitoring
EV = MON.events
TOOL = 3
LOCAL = EV.CALL | EV.JUMP | EV.PY_START

_sim = None          # the simulator in charge of the current run
_cur = None          # session that holds the baton and is inside an operation
_started = False
_ex_calls = {}       # code -> offsets of calls with unpacked arguments
_post_store = {}     # code -> set of offsets directly after a store


class SimAbort(BaseException):
    """Unwinds a session: run is over (crash of the simulated process)."""


class SimHang(BaseException):
    """The step budget of an operation is exhausted."""


class SimCrash(BaseException):
    """The simulated process dies here."""


class HarnessError(Exception):
    """The harness itself misbehaved: never a verdict."""


def _stores(code):
    """offsets of calls that are the first call/entry after a store into shared
    state (attribute, subscript, global)"""
    out = _post_store.get(code)
    if out is None:
        out = set()
        dirty = False
        for ins in dis.get_instructions(code):
            op = ins.opname
            if op in ("STORE_ATTR", "STORE_SUBSCR", "STORE_GLOBAL",
                      "DELETE_ATTR", "DELETE_SUBSCR", "STORE_SLICE"):
                dirty = True
            elif op.startswith("CALL") or op.startswith("JUMP_BACKWARD"):
                if dirty:
                    out.add(ins.offset)
                dirty = False
        _post_store[code] = out
    return out


def _unsafe(code):
    """offsets of f(*args) calls: CPython 3.12 releases a non-tuple ``args``
    twice when a monitoring callback raises there, so nothing is injected
    before them (the next point takes over)"""
    out = _ex_calls.get(code)
    if out is None:
        out = _ex_calls[code] = {
            ins.offset for ins in dis.get_instructions(code)
            if ins.opname == "CALL_FUNCTION_EX"}
    return out


def _start(code, off):
    if not loader.is_dany_code(code):
        return MON.DISABLE
    if MON.get_local_events(TOOL, code) == 0:
        MON.set_local_events(TOOL, code, LOCAL)
    s = _cur
    if s is not None:
        s.step += 1
        if s.record is not None:
            s.record.append(s.step)
        if s.step >= s.stop:
            s.hit(True)


def _call(code, off, *a):
    s = _cur
    if s is not None:
        s.step += 1
        if s.record is not None and off in _stores(code):
            s.record.append(s.step)
        if s.step >= s.stop and off not in _unsafe(code):
            s.hit(True)


def _jump(code, off, dest):
    s = _cur
    if s is not None:
        s.step += 1
        # CPython looks for signals and other threads at backward jumps only
        if s.step >= s.stop and dest < off:
            s.hit(True)


def _cret(code, off, *a):
    if not loader.is_dany_code(code):
        return MON.DISABLE
    s = _cur
    if s is not None:
        s.step += 1
        if s.step >= s.stop:
            s.hit(True)


def start_monitoring():
    global _started
    if _started:
        return
    if MON.get_tool(TOOL) is None:
        MON.use_tool_id(TOOL, "dany-sim")
    MON.register_callback(TOOL, EV.PY_START, _start)
    MON.register_callback(TOOL, EV.CALL, _call)
    MON.register_callback(TOOL, EV.JUMP, _jump)
    MON.register_callback(TOOL, EV.C_RETURN, _cret)
    MON.set_events(TOOL, EV.PY_START)
    _started = True
    if _real["open"] is None:
        _real["open"] = builtins.open
        _real["io_open"] = io.open
        builtins.open = _sim_open
        io.open = _sim_open
        for name in ("replace", "rename", "remove", "unlink", "fsync"):
            _real[name] = getattr(os, name)
        os.replace = _os2("replace")
        os.rename = _os2("rename")
        os.remove = _os2("remove")
        os.unlink = _os2("unlink")
        os.fsync = _os_fsync
        for name in ("open", "write", "read", "close", "ftruncate",
                     "truncate", "link"):
            _real["os_" + name] = getattr(os, name)
        os.open = _fd_open
        os.write = _fd_write
        os.read = _fd_read
        os.close = _fd_close
        os.ftruncate = _fd_truncate
        for name in ("truncate", "link"):
            _real[name] = getattr(os, name)
            setattr(os, name, _os2(name))
        # copies go through read and write, where faults are injected
        shutil._USE_CP_SENDFILE = False
        threading.Lock = _lock_factory
        threading.RLock = _rlock_factory


# --------------------------------------------------------------------------
# disk seam
# --------------------------------------------------------------------------
_real = {"open": None}


def _managed(path):
    sim = _sim
    if sim is None or sim.disk_root is None or _cur is None:
        return None
    try:
        path = os.fspath(path)
    except TypeError:
        return None
    if isinstance(path, bytes):
        path = os.fsdecode(path)
    path = os.path.abspath(path)
    return path if path.startswith(sim.disk_root + os.sep) else None


# descriptors of files in the scratch directory that are open: fd -> session
_fds = {}


def _stamp(fd):
    """the time of the last change, as coarse as the simulated disk keeps it"""
    ns = loader.file_time()
    if ns is not None:
        os.utime(fd, ns=(ns, ns))


def _store(s, mv, write, fd):
    """what a write request of session s to the disk does"""
    act = s.disk("write", len(mv))
    if s.sim.frozen:
        return len(mv)
    if act is None:
        n = write(mv)
        _stamp(fd)
        return n
    kind, arg = act
    k = int(arg * len(mv)) if len(mv) else 0
    if kind == "short":
        return write(mv[:max(1, k)])
    if kind == "enospc":
        if k:
            write(mv[:k])
        raise OSError(errno.ENOSPC, "No space left on device (sim)")
    if kind == "eio":
        raise OSError(errno.EIO, "I/O error (sim)")
    if kind == "crash":
        if k:
            write(mv[:k])
        s.sim.crash(s)
    raise HarnessError(kind)


class _Raw(io.FileIO):
    """Raw file over the scratch directory whose every operation is a fault
    point of the simulated disk."""

    def __init__(self, path, mode, sess, closefd=True, opener=None):
        self._sess = sess
        if not isinstance(path, int):
            sess.disk("open", None)
        super().__init__(path, mode, closefd, opener)
        if "w" in mode or "x" in mode:
            _stamp(self.fileno())

    def write(self, b):
        return _store(self._sess, memoryview(b).cast("B"), super().write,
                      self.fileno())

    def readinto(self, b):
        act = self._sess.disk("read", len(b))
        if act is not None:
            kind, arg = act
            if kind == "short":
                mv = memoryview(b).cast("B")
                return super().readinto(mv[:max(1, int(len(mv) * arg))])
            if kind == "crash":
                self._sess.sim.crash(self._sess)
            raise OSError(errno.EIO, "I/O error (sim)")
        return super().readinto(b)

    def readall(self):
        act = self._sess.disk("read", 0)
        if act is not None:
            kind, arg = act
            if kind == "crash":
                self._sess.sim.crash(self._sess)
            if kind != "short":
                raise OSError(errno.EIO, "I/O error (sim)")
        return super().readall()

    def truncate(self, *a):
        if self._sess.sim.frozen:
            return 0
        return super().truncate(*a)

    def close(self):
        if self.closed:
            return
        sess = self._sess
        if self.closefd:
            _fds.pop(self.fileno(), None)
        if sess.sim.frozen or _cur is not sess:
            super().close()
            return
        act = None
        try:
            act = sess.disk("close", None)
        finally:
            super().close()
        if act is not None:
            if act[0] == "crash":
                sess.sim.crash(sess)
            raise OSError(errno.EIO, "I/O error on close (sim)")


def _sim_open(file, mode="r", buffering=-1, encoding=None, errors=None,
              newline=None, closefd=True, opener=None):
    path = None
    if isinstance(file, (str, bytes, os.PathLike)):
        path = _managed(file)
    elif isinstance(file, int) and file in _fds and _cur is _fds[file]:
        path = file
    if path is None:
        return _real["open"](file, mode, buffering, encoding, errors, newline,
                             closefd, opener)
    sess = _cur
    rawmode = "".join(c for c in mode if c in "rwax+")
    if sess.sim.frozen:
        raise OSError(errno.EIO, "process is dead (sim)")
    raw = _Raw(path, rawmode, sess, closefd, opener)
    if buffering == 0:
        return raw
    size = sess.sim.buffer_size
    if "+" in rawmode:
        buf = io.BufferedRandom(raw, size)
    elif rawmode.startswith("r"):
        buf = io.BufferedReader(raw, size)
    else:
        buf = io.BufferedWriter(raw, size)
    if "b" in mode:
        return buf
    return io.TextIOWrapper(buf, encoding, errors, newline)


def _os2(name):
    def f(*a, **k):
        if a and _managed(a[0]) is not None:
            sess = _cur
            act = sess.disk(name, None)
            if sess.sim.frozen:
                raise OSError(errno.EIO, "process is dead (sim)")
            if act is not None:
                if act[0] == "crash":
                    sess.sim.crash(sess)
                raise OSError(errno.EIO, "I/O error (sim)")
        return _real[name](*a, **k)
    return f


def _fd_open(path, flags, *a, **k):
    if _managed(path) is None:
        return _real["os_open"](path, flags, *a, **k)
    sess = _cur
    if sess.sim.frozen:
        raise OSError(errno.EIO, "process is dead (sim)")
    sess.disk("open", None)
    fd = _real["os_open"](path, flags, *a, **k)
    _fds[fd] = sess
    if flags & (os.O_CREAT | os.O_TRUNC):
        _stamp(fd)
    return fd


def _fd_write(fd, b):
    s = _fds.get(fd)
    if s is None or s is not _cur:
        return _real["os_write"](fd, b)
    return _store(s, memoryview(b).cast("B"),
                  lambda mv: _real["os_write"](fd, mv), fd)


def _fd_read(fd, n):
    s = _fds.get(fd)
    if s is not None and s is _cur:
        act = s.disk("read", n)
        if act is not None:
            if act[0] == "crash":
                s.sim.crash(s)
            if act[0] != "short":
                raise OSError(errno.EIO, "I/O error (sim)")
            n = max(1, int(n * act[1]))
    return _real["os_read"](fd, n)


def _fd_truncate(fd, n):
    s = _fds.get(fd)
    if s is not None and s.sim.frozen:
        return None
    return _real["os_ftruncate"](fd, n)


def _fd_close(fd):
    s = _fds.pop(fd, None)
    act = None
    try:
        if s is not None and s is _cur and not s.sim.frozen:
            act = s.disk("close", None)
    finally:
        _real["os_close"](fd)
    if act is not None:
        if act[0] == "crash":
            s.sim.crash(s)
        raise OSError(errno.EIO, "I/O error on close (sim)")


def close_files():
    """descriptors the code under test left open"""
    for fd in list(_fds):
        del _fds[fd]
        try:
            _real["os_close"](fd)
        except OSError:
            pass


def _os_fsync(fd):
    if _cur is not None and _sim is not None and _sim.disk_root:
        if _sim.frozen:
            return None
        act = _cur.disk("fsync", None)
        if act is not None and act[0] != "short":
            if act[0] == "crash":
                _sim.crash(_cur)
            raise OSError(errno.EIO, "I/O error (sim)")
    return _real["fsync"](fd)


# --------------------------------------------------------------------------
# lock seam: a lock created by dany code is handed over by the scheduler
# --------------------------------------------------------------------------
class SimLock:
    def __init__(self, reentrant=False):
        self._reentrant = reentrant
        self._owner = None
        self._n = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _cur if _cur is not None else "harness"
        while self._owner is not None and not (
            self._reentrant and self._owner is me
        ):
            if not blocking:
                return False
            if me == "harness" or all(
                t.done or t is me for t in me.sim.sessions
            ):
                raise SimHang("deadlock on a lock")
            me.step += 1
            if me.step >= me.budget:
                raise SimHang(me.step)
            me.sim.switch(me, None)
        self._owner = me
        self._n += 1
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        self._n -= 1
        if self._n == 0:
            self._owner = None

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


_real_lock = threading.Lock
_real_rlock = threading.RLock


def _lock_factory():
    if loader.is_dany_code(sys._getframe(1).f_code):
        return SimLock()
    return _real_lock()


def _rlock_factory(*a):
    if loader.is_dany_code(sys._getframe(1).f_code):
        return SimLock(True)
    return _real_rlock()


# --------------------------------------------------------------------------
# console seam
# --------------------------------------------------------------------------
class SimStdout(io.TextIOBase):
    """The console of the simulated process."""
    encoding = "utf-8"

    def write(self, text):
        s = _cur
        if s is not None:
            s.console(text)
        return len(text)

    def flush(self):
        pass

    def isatty(self):
        return False


# --------------------------------------------------------------------------
# sessions and scheduler
# --------------------------------------------------------------------------
_KINDS = {"kbd": KeyboardInterrupt, "mem": MemoryError}
BIG = 1 << 60


class Session:
    def __init__(self, sim, tid, body):
        self.sim = sim
        self.tid = tid
        self.body = body
        self.sem = threading.Semaphore(0)
        self.thread = None
        self.done = False
        self.error = None
        self.op = -1
        self.attempt = 0
        self.step = 0
        self.stop = BIG
        self.record = None
        self.inside = False
        self.total_steps = 0
        self.nout = 0
        self.ndisk = 0
        self.acts = []
        self.out_f = {}
        self.disk_f = {}
        self.fired = []
        self.pending = None
        self.budget = BIG

    # -- operation bracket -------------------------------------------------
    def begin(self, op, attempt, budget):
        self.op = op
        self.attempt = attempt
        self.step = 0
        self.nout = 0
        self.ndisk = 0
        self.fired = []
        self.pending = None
        self.budget = budget
        self.disk_log = []
        self.sticky = None
        key = (self.tid, op, attempt)
        self.acts = sorted(self.sim.code_acts.get(key, ()))
        self.out_f = self.sim.out_acts.get(key, {})
        self.disk_f = self.sim.disk_acts.get(key, {})
        self._next()
        self.inside = True
        global _cur
        _cur = self

    def end(self):
        global _cur
        _cur = None
        self.inside = False
        self.total_steps += self.step
        self.sim.steps += self.step

    def _next(self):
        if self.pending is not None:
            self.stop = 0
        elif self.acts:
            self.stop = min(self.acts[0][0], self.budget)
        else:
            self.stop = self.budget

    def hit(self, can_raise):
        if self.step >= self.budget:
            raise SimHang(self.step)
        if can_raise and sys.exc_info()[1] is not None:
            # an error is being dealt with already: one incident at a time
            can_raise = False
        fault = self.pending if can_raise else None
        if fault is not None:
            self.pending = None
        while self.acts and self.acts[0][0] <= self.step:
            step, order, kind, arg = self.acts.pop(0)
            if kind == "switch":
                self.sim.switch(self, arg)
            elif can_raise and fault is None:
                fault = kind
            elif self.pending is None:
                self.pending = kind
        self._next()
        if fault is not None:
            self.fire("code", fault)
            raise _KINDS[fault]("injected by simulator")

    def fire(self, channel, kind):
        self.fired.append((channel, kind))
        name = channel + ":" + kind
        self.sim.fired[name] = self.sim.fired.get(name, 0) + 1
        self.sim.trace.append(
            ["fault", self.tid, self.op, self.attempt, self.step, name]
        )

    def console(self, text):
        self.nout += 1
        kind = self.out_f.get(self.nout)
        if kind is not None:
            self.fire("out", kind)
            if kind == "epipe":
                raise BrokenPipeError(errno.EPIPE, "Broken pipe (sim)")
            raise OSError(errno.EIO, "console failure (sim)")

    def disk(self, what, nbytes):
        self.ndisk += 1
        self.disk_log.append(what)
        act = self.disk_f.get(self.ndisk)
        if self.sticky is not None and act is None:
            # the disk stays full, or dead, until the call is over
            if self.sim.frozen or (self.sticky == "enospc"
                                   and what not in ("open", "write")):
                return None
            return self._refuse(what, self.sticky, 0.0)
        if act is None:
            return None
        kind, arg = act
        if self.sim.frozen:
            return None
        if kind in ("full", "dead"):
            self.fire("disk", kind)
            kind = self.sticky = "enospc" if kind == "full" else "eio"
            if kind == "enospc" and what not in ("open", "write"):
                return None
            return self._refuse(what, kind, arg)
        if kind == "short" and what not in ("write", "read"):
            return None
        self.fire("disk", kind + "@" + what)
        return self._refuse(what, kind, arg)

    def _refuse(self, what, kind, arg):
        if what == "open":
            if kind == "crash":
                self.sim.crash(self)
            if kind != "short":
                code = errno.ENOSPC if kind == "enospc" else errno.EIO
                raise OSError(code, "open failed (sim)")
        return kind, arg


class Sim:
    def __init__(self, plan=None, disk_root=None, record=False,
                 buffer_size=8192):
        plan = plan or {}
        self.code_acts = {}
        self.out_acts = {}
        self.disk_acts = {}
        self.boundary = {}
        order = 0
        for tid, op, attempt, step, to in plan.get("switches", ()):
            order += 1
            if step == 0:
                self.boundary[(tid, op, attempt)] = to
            else:
                self.code_acts.setdefault((tid, op, attempt), []).append(
                    (step, order, "switch", to)
                )
        for tid, op, attempt, channel, index, kind, arg in plan.get("faults", ()):
            order += 1
            key = (tid, op, attempt)
            if channel == "code":
                self.code_acts.setdefault(key, []).append(
                    (index, order, kind, arg)
                )
            elif channel == "out":
                self.out_acts.setdefault(key, {})[index] = kind
            else:
                self.disk_acts.setdefault(key, {})[index] = (kind, arg)
        self.disk_root = disk_root
        self.buffer_size = buffer_size
        self.recording = record
        self.sessions = []
        self.frozen = False
        self.crashed = False
        self.fired = {}
        self.trace = []
        self.steps = 0
        self.nswitch = 0
        self.done_sem = threading.Semaphore(0)
        self.harness_error = None

    # -- crash -------------------------------------------------------------
    def crash(self, sess):
        self.frozen = True
        self.crashed = True
        self.trace.append(["crash", sess.tid, sess.op, sess.attempt, sess.step])
        raise SimCrash()

    # -- baton -------------------------------------------------------------
    def switch(self, me, to):
        """give the baton to another live session (no-op if there is none)"""
        global _cur
        target = None
        if isinstance(to, int) and to < len(self.sessions):
            t = self.sessions[to]
            if not t.done and t is not me:
                target = t
        if target is None:
            for t in self.sessions:
                if not t.done and t is not me:
                    target = t
                    break
        if target is None or self.crashed:
            return
        self.nswitch += 1
        self.trace.append(
            ["switch", me.tid, me.op, me.attempt, me.step, target.tid]
        )
        _cur = target if target.inside else None
        target.sem.release()
        me.sem.acquire()
        _cur = me if me.inside else None
        if self.crashed:
            raise SimAbort()

    def at_boundary(self, sess, op, attempt):
        to = self.boundary.get((sess.tid, op, attempt))
        if to is not None:
            sess.op, sess.attempt, sess.step = op, attempt, 0
            self.switch(sess, to)

    def _main(self, sess):
        global _cur
        sess.sem.acquire()
        _cur = None
        try:
            if not self.crashed:
                sess.body(sess)
        except (SimAbort, SimCrash):
            pass
        except BaseException as exc:   # noqa: harness bug, reported as such
            import traceback
            self.harness_error = traceback.format_exc()
        sess.done = True
        sess.inside = False
        _cur = None
        for t in self.sessions:
            if not t.done:
                t.sem.release()
                return
        self.done_sem.release()

    def run(self, bodies):
        """run the session bodies to completion under the plan"""
        global _sim, _cur
        start_monitoring()
        self.sessions = [
            Session(self, tid, body) for tid, body in enumerate(bodies)
        ]
        _sim = self
        _cur = None
        for s in self.sessions:
            s.thread = threading.Thread(target=self._main, args=(s,), daemon=True)
            s.thread.start()
        if self.sessions:
            self.sessions[0].sem.release()
            if not self.done_sem.acquire(timeout=240):
                raise HarnessError("simulation stalled")
            for s in self.sessions:
                s.thread.join(60)
        _sim = None
        _cur = None
        if self.harness_error:
            raise HarnessError(self.harness_error)


class paused:
    """Harness code inside a session that looks at dany objects: no points."""

    def __enter__(self):
        global _cur
        self.saved = _cur
        _cur = None

    def __exit__(self, *a):
        global _cur
        _cur = self.saved
