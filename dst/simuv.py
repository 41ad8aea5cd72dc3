"""Stub of pyuv on the virtual clock, with libuv's phase order:
   update time - timers - pending - idle - prepare - poll (async callbacks first, signals last) - check - closing."""
import sys
import traceback
import types
import warnings

from . import kernel as K

UV_RUN_DEFAULT, UV_RUN_ONCE, UV_RUN_NOWAIT = 0, 1, 2


class UVError(Exception):
    pass


class HandleError(UVError):
    pass


class HandleClosedError(HandleError):
    pass


def _world():
    th = K.CUR
    if th is None:
        raise K.HarnessError("pyuv used outside a simulated process")
    return th.world


class Loop(object):
    _default = {}

    def __init__(self):
        w = _world()
        self._w = w
        self._proc = K.CUR.proc
        self._thread = None
        self._handles = []
        self._timers = []
        self._tseq = 0
        self._stop = False
        self._asyncs = []
        self._sigq = []
        self._sent = False
        self._closing = []
        self._polling = False
        self._dq = []
        self.excepthook = None
        self._time = w.now // K.MS
        self._proc.loops.append(self)

    @classmethod
    def default_loop(cls):
        p = K.CUR.proc
        if getattr(p, "default_loop", None) is None:
            p.default_loop = cls()
        return p.default_loop

    @property
    def alive(self):
        return bool(self._closing) or any(h._active and h._ref for h in self._handles)

    @property
    def handles(self):
        return list(self._handles)

    def now(self):
        return self._time

    def update_time(self):
        self._time = max(self._time, self._w.now // K.MS)

    def stop(self):
        self._stop = True

    def queue_work(self, *a, **k):
        raise K.HarnessError("pyuv.Loop.queue_work is not simulated")

    def get_timeout(self):
        return (self._timeout_ms() or 0) / 1000.0

    def fileno(self):
        return -1

    def _call(self, fn, *args):
        """pyuv prints what a callback raises and carries on; SystemExit ends the process."""
        try:
            fn(*args)
        except (K.ProcessKilled, K.SimAbort, K.SimExit, SystemExit, K.HarnessError):
            raise
        except BaseException as e:
            self._proc.swallowed.append(repr(e))
            if self.excepthook is not None:
                try:
                    self.excepthook(*sys.exc_info())
                    return
                except Exception:
                    pass
            self._proc.stderr.write(traceback.format_exc())

    def _timeout_ms(self):
        if self._stop or self._closing:
            return 0
        if any(isinstance(h, Idle) and h._active for h in self._handles):
            return 0
        if not any(h._active and h._ref for h in self._handles):
            return 0
        if not self._timers:
            return None
        due = min(t._due for t in self._timers)
        return max(0, due - self._time)

    def _run_timers(self):
        while True:
            best = None
            for t in self._timers:
                if best is None or (t._due, t._seq) < (best._due, best._seq):
                    best = t
            if best is None or best._due > self._time:
                return
            best.stop()
            if best._repeat_ms:
                best._arm(best._repeat_ms)
            self._call(best._cb, best)

    def _run_kind(self, cls):
        for h in [h for h in self._handles if type(h) is cls and h._active]:
            if h._active:
                self._call(h._cb, h)

    def _poll(self, timeout):
        w = self._w
        w.count("poll_n")
        w.seam("poll", "" if timeout is None else str(timeout))
        if timeout is None or timeout > 0:
            # the timeout was reckoned from the time the round began, but the wait starts now
            deadline = None if timeout is None else w.now + timeout * K.MS
            self._polling = True
            while not self._sent and not self._sigq and not (deadline is not None and w.now >= deadline):
                w.park(deadline)
                p = self._proc
                if p.pysignals and K.CUR is p.main and not p.in_pysig:
                    break
            self._polling = False
            w.seam("polled", "")
        self.update_time()
        # libuv collects the ready descriptors in one go and handles signals last
        # (a signal raised by an async callback is handled in this round only if one was already waiting)
        sent, got = self._sent, bool(self._sigq)
        if sent:
            self._sent = False
            for a in list(self._asyncs):
                if a._pending and not a._closed:
                    a._pending = False
                    self._call(a._cb, a)
        sigs = []
        if got:
            sigs, self._sigq = self._sigq, []
        for h, signum in sigs:
            if h._active and h._signum == signum:
                self._call(h._cb, h, signum)

    def run(self, mode=UV_RUN_DEFAULT):
        w = self._w
        self._thread = K.CUR
        K.CUR.state = "loop"
        w.log("loop_run", p=self._proc.label)
        r = self.alive
        if not r:
            self.update_time()
        while r and not self._stop:
            self.update_time()
            self._run_timers()
            self._run_kind(Idle)
            self._run_kind(Prepare)
            self._poll(self._timeout_ms() if mode != UV_RUN_NOWAIT else 0)
            self._run_kind(Check)
            closing, self._closing = self._closing, []
            for h, cb in reversed(closing):
                if h in self._handles:
                    self._handles.remove(h)
                if cb is not None:
                    self._call(cb, h)
            if mode == UV_RUN_ONCE:
                self.update_time()
                self._run_timers()
            r = self.alive
            if mode != UV_RUN_DEFAULT:
                break
        self._stop = False
        w.seam("loop_end")
        return r


class Handle(object):
    def __init__(self, loop):
        self.loop = loop
        self._active = False
        self._ref = True
        self._closed = False
        self._cb = None
        loop._handles.append(self)

    @property
    def active(self):
        return self._active

    @property
    def closed(self):
        return self._closed

    @property
    def ref(self):
        return self._ref

    @ref.setter
    def ref(self, v):
        self._ref = bool(v)

    def _check(self):
        if self._closed:
            raise HandleClosedError("Handle is closing/closed")

    def close(self, callback=None):
        self._check()
        self._stop_handle()
        self._closed = True
        self._active = False
        self.loop._closing.append((self, callback))

    def _stop_handle(self):
        pass


class Async(Handle):
    def __init__(self, loop, callback):
        if not callable(callback):
            raise TypeError("a callable is required")
        super().__init__(loop)
        self._cb = callback
        self._pending = False
        self._active = True
        loop._asyncs.append(self)

    def send(self):
        self._check()
        w = self.loop._w
        w.seam("async_send")
        self._pending = True
        self.loop._sent = True
        if self.loop._polling:
            w.wake(self.loop._thread, "async")

    def _stop_handle(self):
        if self in self.loop._asyncs:
            self.loop._asyncs.remove(self)


class Timer(Handle):
    def __init__(self, loop):
        super().__init__(loop)
        self._due = 0
        self._seq = 0
        self._repeat_ms = 0

    @staticmethod
    def _ms(v, name):
        if v < 0.0:
            raise ValueError("a positive value or zero is required")
        ms = int(v * 1000)
        if v > 0.0 and ms == 0:
            warnings.warn("%s value is too small, rounded up to 1 ms" % name, RuntimeWarning)
            ms = 1
        return ms

    def _arm(self, ms):
        self.loop._tseq += 1
        self._seq = self.loop._tseq
        self._due = self.loop._time + ms
        if not self._active:
            self._active = True
            self.loop._timers.append(self)

    def start(self, callback, timeout, repeat):
        self._check()
        if not callable(callback):
            raise TypeError("a callable is required")
        t, r = self._ms(timeout, "timeout"), self._ms(repeat, "repeat")
        self.stop()
        self._cb = callback
        self._repeat_ms = r
        self._arm(t)

    def stop(self):
        self._check()
        self._active = False
        if self in self.loop._timers:
            self.loop._timers.remove(self)

    def again(self):
        self._check()
        if self._cb is None:
            raise UVError("EINVAL")
        if self._repeat_ms:
            self.stop()
            self._arm(self._repeat_ms)

    @property
    def repeat(self):
        return self._repeat_ms / 1000.0

    @repeat.setter
    def repeat(self, v):
        self._repeat_ms = self._ms(v, "repeat")

    def _stop_handle(self):
        self.stop()


class Signal(Handle):
    def __init__(self, loop):
        super().__init__(loop)
        self._signum = 0

    def start(self, callback, signum):
        self._check()
        if not callable(callback):
            raise TypeError("a callable is required")
        self._stop_handle()
        self._cb = callback
        self._signum = int(signum)
        self._active = True
        self.loop._proc.uvsignals.setdefault(self._signum, []).append(self)

    def stop(self):
        self._check()
        self._stop_handle()

    def _stop_handle(self):
        if self._active:
            self._active = False
            lst = self.loop._proc.uvsignals.get(self._signum, [])
            if self in lst:
                lst.remove(self)

    def _deliver(self, signum):
        self.loop._sigq.append((self, signum))
        if self.loop._polling:
            self.loop._w.wake(self.loop._thread, "signal")


class _Simple(Handle):
    def start(self, callback):
        self._check()
        self._cb = callback
        self._active = True

    def stop(self):
        self._check()
        self._active = False


class Idle(_Simple):
    pass


class Prepare(_Simple):
    pass


class Check(_Simple):
    pass


def make_module():
    m = types.ModuleType("pyuv")
    for n in ("Loop", "Async", "Timer", "Signal", "Idle", "Prepare", "Check", "Handle",
              "UV_RUN_DEFAULT", "UV_RUN_ONCE", "UV_RUN_NOWAIT"):
        setattr(m, n, globals()[n])
    m.__version__ = "1.4.0"
    m.LIBUV_VERSION = "1.13.2"
    err = types.ModuleType("pyuv.error")
    for n in ("UVError", "HandleError", "HandleClosedError"):
        setattr(err, n, globals()[n])
    m.error = err
    err.TimerError = err.AsyncError = err.SignalError = UVError
    m.errno = types.ModuleType("pyuv.errno")
    return m, err
