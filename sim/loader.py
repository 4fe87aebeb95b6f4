"""Loads the dany package from /repo's working tree, afresh for every simulated
process.  Source is compiled once per worker; every (re)start of the simulated
process executes the modules again, so module-level and class-level state never
leaks from one run into the next one."""
import builtins
import importlib
import importlib.abc
import importlib.util
import os
import random
import sys
import threading
import time
import weakref

REPO = os.environ.get("DANY_SIM_REPO", "/repo")
PKG = os.path.join(os.path.realpath(REPO), "dany")
_codes = {}


class _Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def get_code(self, fullname=None):
        code = _codes.get(self.path)
        if code is None:
            with open(self.path, "rb") as foo:
                code = compile(foo.read(), self.path, "exec", dont_inherit=True)
            _codes[self.path] = code
        return code

    def exec_module(self, module):
        # what dany's own code asks the allocator for is simulated as well
        module.__dict__["__builtins__"] = dict(
            vars(builtins), id=_addresses, __import__=_import)
        exec(self.get_code(), module.__dict__)


class Addresses:
    """``id`` as dany's modules see it: addresses are handed out in a fixed
    order, and the address of a dead object goes to the next new object of its
    type, as an allocator would do on a bad day."""

    def __init__(self):
        self.live = {}
        self.free = {}
        self.n = 0
        self.calls = 0

    def __call__(self, x):
        self.calls += 1
        real = id(x)
        e = self.live.get(real)
        if e is not None and e[0]() is x:
            return e[1]
        kind = type(x)
        pool = self.free.get(kind)
        if pool:
            addr = pool.pop()
        else:
            self.n += 1
            addr = 0x7F0000000000 + self.n * 0x40
        try:
            ref = weakref.ref(x)
            weakref.finalize(x, self._dead, real, addr, kind).atexit = False
        except TypeError:
            def ref(x=x):       # kept alive: its address is never used again
                return x
        self.live[real] = (ref, addr)
        return addr

    def _dead(self, real, addr, kind):
        e = self.live.get(real)
        if e is not None and e[1] == addr:
            del self.live[real]
        self.free.setdefault(kind, []).append(addr)


class Clock:
    """Clocks as dany's modules read them: the wall clock and the monotonic
    clocks advance by amounts a plan decides, from microseconds to hours, and
    the wall clock may be set back."""

    NAMES = ("time", "monotonic", "perf_counter", "process_time")
    REAL = {n: getattr(time, n) for k in NAMES for n in (k, k + "_ns")}

    def __init__(self, seed):
        r = self.r = random.Random(seed)
        self.wall = 1_000_000_000.0 + (seed % 1000) * 86400.5
        self.mono = r.random() * 1e6
        self.pace = r.choice([[1e-6, 1e-3], [0.25], [0.25, 45.0], [1e-3, 3600.0]])
        self.back = r.choice([0.0, 0.0, 0.05])
        # what file systems keep of the time of a change
        self.grain = r.choice([2e9, 1e9, 4e6, 1e6])
        self.reads = 0

    def read(self, name):
        self.reads += 1
        d = self.r.choice(self.pace)
        self.mono += d
        self.wall += d
        if self.back and self.r.random() < self.back:
            self.wall -= self.r.choice([0.5, 3600.0, 86400.0])
        t = self.wall if name.startswith("time") else self.mono
        return int(t * 1e9) if name.endswith("_ns") else t


def file_time():
    """time stamp of a file changed now, None when clocks are real"""
    c = _process.clock
    if c is None:
        return None
    c.read("time")
    return int(c.wall * 1e9 // c.grain * c.grain)


def _calendar(name):
    real = getattr(time, name)
    full = 2 if name == "strftime" else 1
    whole = name in ("strftime", "asctime")

    def read(*a):
        if len(a) < full and _process.clock is not None \
                and is_dany_code(sys._getframe(1).f_code):
            t = _process.clock.read("time")
            a += (time.localtime(t) if whole else t,)
        return real(*a)
    return read


def _dates():
    """the datetime module as dany's modules see it"""
    import datetime
    import types
    shim = types.ModuleType("datetime")
    shim.__dict__.update(vars(datetime))

    def now():
        c = _process.clock
        return c.read("time") if c is not None else time.time()

    class Meta(type):
        def __instancecheck__(cls, x):
            return isinstance(x, cls.__base__)

        def __subclasscheck__(cls, k):
            return issubclass(k, cls.__base__)

    class date(datetime.date, metaclass=Meta):
        def __new__(cls, *a, **k):
            return datetime.date(*a, **k)

        @classmethod
        def today(cls):
            return datetime.date.fromtimestamp(now())

    class datetime_(datetime.datetime, metaclass=Meta):
        def __new__(cls, *a, **k):
            return datetime.datetime(*a, **k)

        @classmethod
        def now(cls, tz=None):
            return datetime.datetime.fromtimestamp(now(), tz)

        @classmethod
        def today(cls):
            return datetime.datetime.fromtimestamp(now())

        @classmethod
        def utcnow(cls):
            return datetime.datetime.fromtimestamp(
                now(), datetime.timezone.utc).replace(tzinfo=None)

    shim.date, shim.datetime = date, datetime_
    return shim


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    if name == "datetime" and level == 0:
        if _process.dates is None:
            _process.dates = _dates()
        return _process.dates
    return builtins.__import__(name, globals, locals, fromlist, level)


def _clock(name):
    real = Clock.REAL[name]

    def read():
        # dany frames read the simulated clock, others the real one
        if _process.clock is not None and is_dany_code(sys._getframe(1).f_code):
            return _process.clock.read(name)
        return real()
    return read


class Entropy:
    """What the operating system tells the simulated process about itself: its
    number, random bytes and the numbers of its threads."""

    def __init__(self, seed):
        self.r = random.Random(f"os/{seed}")
        self.pid = self.r.randrange(300, 4_000_000)
        self.reads = 0

    def urandom(self, n):
        self.reads += 1
        return self.r.randbytes(n)


def _patch_os(current):
    real_random, real_pid, real_ident = os.urandom, os.getpid, threading.get_ident

    def urandom(n):
        # also through secrets, uuid, random.SystemRandom and NumPy
        if _process.entropy is not None and current() is not None:
            return _process.entropy.urandom(n)
        return real_random(n)

    def getpid():
        if _process.entropy is not None and is_dany_code(sys._getframe(1).f_code):
            return _process.entropy.pid
        return real_pid()

    def get_ident():
        s = current()
        if s is not None and is_dany_code(sys._getframe(1).f_code):
            return 0x7000 + s.tid       # numbers of dead threads come back
        return real_ident()

    os.urandom = random._urandom = urandom
    os.getpid = getpid
    threading.get_ident = get_ident


def seams(current):
    """current(): the session inside a call of dany, or None"""
    if getattr(os.getpid, "__module__", None) != __name__:
        _patch_os(current)


def set_process(clock, entropy=None):
    """None: dany reads the real clocks"""
    _process.clock = clock
    _process.entropy = entropy
    if getattr(time.time, "__module__", None) != __name__:
        # installed before dany is loaded, so names it imports are simulated
        for name in Clock.REAL:
            setattr(time, name, _clock(name))
        for name in ("localtime", "gmtime", "ctime", "asctime", "strftime"):
            setattr(time, name, _calendar(name))


def _addresses(x):
    return _process.ids(x)


class _process:
    ids = Addresses()
    dates = None
    clock = None
    entropy = None


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != "dany" and not name.startswith("dany."):
            return None
        parts = name.split(".")[1:]
        base = os.path.join(PKG, *parts)
        init = os.path.join(base, "__init__.py")
        if os.path.isfile(init):
            return importlib.util.spec_from_file_location(
                name, init, loader=_Loader(init),
                submodule_search_locations=[base],
            )
        if os.path.isfile(base + ".py"):
            return importlib.util.spec_from_file_location(
                name, base + ".py", loader=_Loader(base + ".py")
            )
        return None


def install():
    if not any(isinstance(f, _Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, _Finder())


def fresh():
    """Return a newly executed dany package (a new simulated process image)."""
    install()
    _process.ids = Addresses()
    for name in [m for m in sys.modules if m == "dany" or m.startswith("dany.")]:
        del sys.modules[name]
    return importlib.import_module("dany")


def is_dany_code(code):
    return code.co_filename.startswith(PKG + os.sep)
