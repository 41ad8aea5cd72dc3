"""Clock, randomness, locks, process identity: everything else nondeterministic, switched on once per worker.
All replacements fall through to the real thing while no simulated thread holds the baton."""
import _thread
import builtins
import datetime as _dtmod
import errno
import gc
import os
import random
import signal as _signal
import sys
import threading
import time as _time
import uuid

from . import kernel as K
from . import simfs
from . import simproc
from . import simuv

_installed = False

real = {}

R_LOCK = threading.Lock
R_RLOCK = threading.RLock
R_ALLOC = threading._allocate_lock
R_date = _dtmod.date
R_datetime = _dtmod.datetime


# ---- locks -------------------------------------------------------------------------------------------------------

class SimLock(object):
    def __init__(self):
        self._owner = None
        self._held = False
        self._waiters = []

    def acquire(self, blocking=True, timeout=-1):
        th = K.CUR
        if th is None:
            if self._held:
                raise K.HarnessError("harness blocks on a simulated lock")
            self._held = True
            return True
        w = th.world
        w.seam("lock")
        if not blocking:
            if self._held:
                return False
        elif self._held:
            w.count("lock_block")
            deadline = None if timeout is None or timeout < 0 else w.now + int(timeout * K.SEC)
            while self._held:
                if deadline is not None and w.now >= deadline:
                    return False
                self._waiters.append(th)
                try:
                    w.park(deadline)
                finally:
                    if th in self._waiters:
                        self._waiters.remove(th)
        self._held = True
        self._owner = th
        return True

    def release(self):
        if not self._held:
            raise RuntimeError("release unlocked lock")
        self._held = False
        self._owner = None
        th = K.CUR
        if self._waiters:
            nxt = self._waiters.pop(0)
            if th is not None:
                th.world.wake(nxt, "lock")
        if th is not None and not th.proc.dead and not th.world.aborting:
            th.world.seam("unlock_mutex")

    def locked(self):
        return self._held

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._held = False


class SimRLock(SimLock):
    def __init__(self):
        super().__init__()
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        th = K.CUR
        if self._held and self._owner is th:
            self._count += 1
            return True
        if super().acquire(blocking, timeout):
            self._owner = th
            self._count = 1
            return True
        return False

    def release(self):
        if not self._held or self._owner is not K.CUR:
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if self._count == 0:
            super().release()

    def _is_owned(self):
        return self._held and self._owner is K.CUR

    def _release_save(self):
        c = self._count
        self._count = 0
        SimLock.release(self)
        return c

    def _acquire_restore(self, c):
        SimLock.acquire(self)
        self._owner = K.CUR
        self._count = c


def p_lock():
    return SimLock() if K.CUR is not None else R_LOCK()


def p_rlock(*a):
    return SimRLock() if K.CUR is not None else R_RLOCK()


def p_alloc():
    return SimLock() if K.CUR is not None else R_ALLOC()


# ---- threads -----------------------------------------------------------------------------------------------------

R_start = threading.Thread.start
R_join = threading.Thread.join
R_alive = threading.Thread.is_alive


def p_thread_start(self):
    th = K.CUR
    if th is None:
        return R_start(self)
    w = th.world
    th.proc.nthreads = getattr(th.proc, "nthreads", 0) + 1
    st = w.spawn_thread(th.proc, self.run, "%s/t%d" % (th.proc.label, th.proc.nthreads), 1000)
    st.trace_prob = th.trace_prob
    self._sim = st
    st.pythread = self
    self._started._flag = True
    w.seam("thread_start")


def p_thread_join(self, timeout=None):
    st = getattr(self, "_sim", None)
    if st is None or K.CUR is None:
        return R_join(self, timeout)
    w = K.CUR.world
    dl = None if timeout is None else w.now + int(timeout * K.SEC)
    while not st.done and not (dl is not None and w.now >= dl):
        st.joiners.append(K.CUR)
        w.park(dl)


def p_thread_alive(self):
    st = getattr(self, "_sim", None)
    if st is None:
        return R_alive(self)
    return not st.done


R_current = threading.current_thread


def p_current_thread():
    th = K.CUR
    if th is None:
        return R_current()
    return th.pythread or threading.main_thread()


# ---- time --------------------------------------------------------------------------------------------------------

class time_mod(object):
    @staticmethod
    def time():
        th = K.CUR
        return real["time"]() if th is None else th.world.wall() / 1e9

    @staticmethod
    def time_ns():
        th = K.CUR
        return real["time_ns"]() if th is None else th.world.wall()

    @staticmethod
    def monotonic():
        th = K.CUR
        return real["monotonic"]() if th is None else th.world.now / 1e9

    @staticmethod
    def monotonic_ns():
        th = K.CUR
        return real["monotonic_ns"]() if th is None else th.world.now

    @staticmethod
    def perf_counter():
        th = K.CUR
        return real["perf_counter"]() if th is None else th.world.now / 1e9

    @staticmethod
    def perf_counter_ns():
        th = K.CUR
        return real["perf_counter_ns"]() if th is None else th.world.now

    @staticmethod
    def clock_gettime(c):
        th = K.CUR
        if th is None:
            return real["clock_gettime"](c)
        return th.world.wall() / 1e9 if c == _time.CLOCK_REALTIME else th.world.now / 1e9

    @staticmethod
    def sleep(d):
        th = K.CUR
        if th is None:
            return real["sleep"](d)
        if d < 0:
            raise ValueError("sleep length must be non-negative")
        w = th.world
        until = w.now + int(d * K.SEC)
        w.seam("sleep", "%.3f" % d)
        while w.now < until:
            w.park(until)
            p = th.proc
            if p.pysignals and th is p.main and not p.in_pysig:
                p.run_pysignals()
        w.seam("slept")

    @staticmethod
    def localtime(s=None):
        if s is None and K.CUR is not None:
            s = time_mod.time()
        return real["localtime"](s) if s is not None else real["localtime"]()

    @staticmethod
    def gmtime(s=None):
        if s is None and K.CUR is not None:
            s = time_mod.time()
        return real["gmtime"](s) if s is not None else real["gmtime"]()

    @staticmethod
    def ctime(s=None):
        if s is None and K.CUR is not None:
            s = time_mod.time()
        return real["ctime"](s) if s is not None else real["ctime"]()

    @staticmethod
    def strftime(f, t=None):
        if t is None:
            t = time_mod.localtime()
        return real["strftime"](f, t)


def _meta(base):
    class Meta(type(base)):
        def __instancecheck__(cls, obj):
            return isinstance(obj, base)

        def __subclasscheck__(cls, sub):
            return issubclass(sub, base)
    return Meta


class date(R_date, metaclass=_meta(R_date)):
    @classmethod
    def today(cls):
        th = K.CUR
        if th is None:
            return R_date.today()
        return R_date.fromtimestamp(th.world.wall() / 1e9)


class datetime(R_datetime, metaclass=_meta(R_datetime)):
    @classmethod
    def now(cls, tz=None):
        th = K.CUR
        if th is None:
            return R_datetime.now(tz)
        ns = th.world.wall()
        d = R_datetime.fromtimestamp(ns // 1000000000, tz)
        return d.replace(microsecond=(ns % 1000000000) // 1000)

    @classmethod
    def today(cls):
        return cls.now()

    @classmethod
    def utcnow(cls):
        th = K.CUR
        if th is None:
            return R_datetime.utcnow()
        return R_datetime.fromtimestamp(th.world.wall() / 1e9, _dtmod.timezone.utc).replace(tzinfo=None)

    # results are plain datetimes, exactly as without the simulator
    @classmethod
    def fromtimestamp(cls, *a, **k):
        return R_datetime.fromtimestamp(*a, **k)

    @classmethod
    def combine(cls, *a, **k):
        return R_datetime.combine(*a, **k)

    @classmethod
    def strptime(cls, *a, **k):
        return R_datetime.strptime(*a, **k)

    @classmethod
    def fromisoformat(cls, *a, **k):
        return R_datetime.fromisoformat(*a, **k)

    def __new__(cls, *a, **k):
        return R_datetime(*a, **k)


def _date_new(cls, *a, **k):
    return R_date(*a, **k)


date.__new__ = staticmethod(_date_new)


# ---- os ----------------------------------------------------------------------------------------------------------

def p_urandom(n):
    th = K.CUR
    if th is None:
        return real["urandom"](n)
    p = th.proc
    r = p.rand
    if p.rand_repeat and p.rand_seen and r.random() < p.rand_repeat:
        v = r.choice(p.rand_seen)
        th.world.fault("random_repeat")
        if len(v) == n:
            return v
    v = bytes(r.getrandbits(8) for _ in range(n))
    if p.rand_repeat and n == 16:
        p.rand_seen.append(v)
    return v


def p_seed(self, a=None, version=2):
    """random.Random() without a seed takes one from the operating system, behind os.urandom's back"""
    th = K.CUR
    if a is None and th is not None:
        a = th.proc.rand.getrandbits(128)
    real["rand_seed"](self, a, version)


def begin_run(seed, tmp):
    """State of library modules that outlives a run."""
    import tempfile
    random.seed(seed)
    tempfile._name_sequence = None
    tempfile.tempdir = tmp


def end_run():
    import tempfile
    tempfile._name_sequence = None
    tempfile.tempdir = None


def p_getpid():
    th = K.CUR
    return real["getpid"]() if th is None else th.proc.pid


def p_getppid():
    th = K.CUR
    return real["getppid"]() if th is None else th.proc.ppid


def p_kill(pid, sig):
    th = K.CUR
    if th is None:
        return real["kill"](pid, sig)
    w = th.world
    w.seam("kill", str(pid))
    e = w.table.get(pid)
    if e is None:
        raise ProcessLookupError(errno.ESRCH, "No such process")
    if sig == 0:
        return
    w.log("sent", by=th.proc.label, to=e.label, sig=int(sig))
    e.deliver(sig)


def p_exit(code):
    th = K.CUR
    if th is None:
        return real["_exit"](code)
    th.proc.finish(("exit", code))
    raise K.SimExit(code)


def p_nofork(*a, **k):
    th = K.CUR
    if th is None:
        return real["fork"](*a, **k)
    raise K.HarnessError("fork is not simulated")


def p_signal(signum, handler):
    th = K.CUR
    if th is None:
        return real["signal"](signum, handler)
    p = th.proc
    old = p.pyhandlers.get(int(signum), "default")
    if handler == _signal.SIG_IGN:
        p.pyhandlers[int(signum)] = "ignore"
    elif handler == _signal.SIG_DFL:
        p.pyhandlers[int(signum)] = "default"
    else:
        p.pyhandlers[int(signum)] = handler
    return {"default": _signal.SIG_DFL, "ignore": _signal.SIG_IGN}.get(old, old) if isinstance(old, str) else old


def install():
    global _installed
    if _installed:
        return
    _installed = True
    os.environ["TZ"] = "Asia/Shanghai"
    _time.tzset()
    sys.dont_write_bytecode = True
    # everything the code under test imports from outside is imported before the seams go in
    import _strptime                      # noqa: F401
    import argparse, json, shutil, heapq, logging, re, tempfile, warnings, inspect   # noqa: F401,E401
    import importlib
    import pandas as pd                   # noqa: F401
    import portalocker                    # noqa: F401
    import psutil                         # noqa: F401
    import io as _io
    pd.read_csv(_io.StringIO("a,b\n1,2\n,\n"), dtype={"a": str})   # warm caches
    R_datetime.strptime("20240101101010", "%Y%m%d%H%M%S")
    warnings.simplefilter("ignore")

    for n in ("time", "time_ns", "monotonic", "monotonic_ns", "perf_counter", "perf_counter_ns", "clock_gettime",
              "sleep", "localtime", "gmtime", "ctime", "strftime"):
        real[n] = getattr(_time, n)
        setattr(_time, n, getattr(time_mod, n))
    for n, f in (("urandom", p_urandom), ("getpid", p_getpid), ("getppid", p_getppid), ("kill", p_kill),
                 ("_exit", p_exit), ("fork", p_nofork)):
        real[n] = getattr(os, n)
        setattr(os, n, f)
    real["signal"] = _signal.signal
    _signal.signal = p_signal
    random._urandom = p_urandom
    real["rand_seed"] = random.Random.seed
    random.Random.seed = p_seed
    random.seed = random._inst.seed
    # uuid1 from what is simulated: the clock and random
    uuid._generate_time_safe = None
    uuid._node = 0x123456789abc
    _dtmod.datetime = datetime
    _dtmod.date = date
    threading.Lock = p_lock
    threading.RLock = p_rlock
    threading._allocate_lock = p_alloc
    threading.current_thread = threading.currentThread = p_current_thread
    threading.Thread.start = p_thread_start
    threading.Thread.join = p_thread_join
    threading.Thread.is_alive = p_thread_alive
    simfs.install(builtins)
    m, err = simuv.make_module()
    sys.modules["pyuv"] = m
    sys.modules["pyuv.error"] = err
    sys.modules["psutil"] = simproc.make_psutil()
    sys.modules.pop("jqtrade", None)
    sys.meta_path.insert(0, simproc.RepoFinder())
    simproc.PRISTINE.update(cwd=os.getcwd(), home=os.environ.get("HOME", "/"), path=[p for p in sys.path], path_list=sys.path, argv=sys.argv, stdout=sys.stdout,
                            stderr=sys.stderr, handlers=list(__import__("logging").root.handlers))
    sys.unraisablehook = lambda a: None
    threading.excepthook = lambda a: None
    gc.disable()
    # CPython 3.12 delivers byte-code events only to trace functions set after this flag has been raised once
    sys._getframe().f_trace_opcodes = True
