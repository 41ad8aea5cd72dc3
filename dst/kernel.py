"""Discrete-event simulation kernel.

One World = one run.  Simulated processes are real Python threads that are parked and released one at a time; the
baton changes hands only inside seam()/park().  Everything else (broker, lock holders, operators, faults) are events
executed on the main thread.  Every choice is drawn from PRNGs derived from the scenario, so a run is a pure function
of the scenario and of the code under test.
"""
import _thread
import ctypes
import hashlib
import heapq
import random
import re
import sys
import time as _rt
import zlib

real_time = _rt.time
real_monotonic = _rt.monotonic
real_process_time = _rt.process_time
real_sleep = _rt.sleep

MS = 1000000
SEC = 1000 * MS
ADDR = re.compile(r" at 0x[0-9a-f]+")


class ProcessKilled(BaseException):
    """Unwinds the threads of a killed simulated process."""


class SimAbort(BaseException):
    """Unwinds a thread when the run is torn down (end of run, step limit, stuck code)."""


class SimExit(BaseException):
    """os._exit in a simulated process."""
    def __init__(self, code):
        super().__init__(code)
        self.code = code


class HarnessError(Exception):
    """The harness itself is at fault: never a violation."""


CUR = None          # SimThread holding the baton, None while harness code runs
W = None            # current World


def current():
    return CUR


def subrng(seed, name):
    return random.Random((seed * 1000003) ^ zlib.crc32(name.encode()))


class SimThread(object):
    __slots__ = ("world", "proc", "fn", "name", "lock", "token", "reason", "done", "started", "rng", "ident",
                 "trace_rng", "trace_prob", "in_seam", "joiners", "deadcount", "state", "pythread")

    def __init__(self, world, proc, fn, name):
        self.world = world
        self.proc = proc
        self.fn = fn
        self.name = name
        self.lock = _thread.allocate_lock()
        self.lock.acquire()
        self.token = 0
        self.reason = None
        self.done = False
        self.started = False
        self.rng = subrng(world.sched_seed, name)
        self.ident = None
        self.trace_rng = None
        self.trace_prob = 0.0
        self.in_seam = False
        self.joiners = []
        self.deadcount = 0
        self.state = "new"
        self.pythread = None


class World(object):
    def __init__(self, sched_seed=0, wall0=0, mono0=10000 * SEC, end=None, max_steps=400000,
                 cost=(2000, 40000), stall_prob=0.0, stall_max=0, drift_ppm=0, keep_trace=False):
        self.sched_seed = sched_seed
        self.now = mono0
        self.mono0 = mono0
        self.w_base = wall0
        self.w_at = mono0
        self.drift = drift_ppm
        self.end = end
        self.max_steps = max_steps
        self.cost_lo, self.cost_hi = cost
        self.stall_prob = stall_prob
        self.stall_max = stall_max
        self.heap = []
        self.seq = 0
        self.steps = 0
        self.hb = 0
        self.main_lock = _thread.allocate_lock()
        self.main_lock.acquire()
        self.threads = []
        self.procs = []
        self.loaded = None
        self.stopped = False
        self.aborting = False
        self.abort_reason = None
        self.abort_where = None
        self.history = []
        self.hash = hashlib.blake2b(digest_size=16)
        self.ihash = hashlib.blake2b(digest_size=12)
        self.keep_trace = keep_trace
        self.trace = []
        self.counts = {}
        self.fault_fired = {}
        self.probes = {}
        self.fault_hook = None
        self.on_step = None
        self.write_hook = None
        self.log_hook = None
        self.lock_hook = None
        self.unlock_hook = None
        self.harness_error = None
        self.switches = 0
        self.last_run = None
        self.root = None        # scratch directory: its random name is no part of a run

    # ---- clocks -----------------------------------------------------------------------------------------------
    def wall(self):
        d = self.now - self.w_at
        return self.w_base + d + (d * self.drift) // 1000000

    def wall_at(self, mono):
        d = mono - self.w_at
        return self.w_base + d + (d * self.drift) // 1000000

    def mono_for_wall(self, wall):
        """mono instant at which the wall clock shows `wall` if it keeps running as now"""
        d = wall - self.w_base
        return self.w_at + (d * 1000000) // (1000000 + self.drift)

    def step_clock(self, delta):
        w = self.wall()
        self.w_base = w + delta
        self.w_at = self.now

    def set_drift(self, ppm):
        w = self.wall()
        self.w_base = w
        self.w_at = self.now
        self.drift = ppm

    # ---- bookkeeping ------------------------------------------------------------------------------------------
    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def fault(self, name, n=1):
        self.fault_fired[name] = self.fault_fired.get(name, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def note(self, who, kind, detail=""):
        s = "%d|%s|%s|%s" % (self.now, who, kind, detail)
        self.hash.update(s.encode("utf-8", "backslashreplace"))
        self.ihash.update(("%s|%s" % (who, kind)).encode())
        if self.keep_trace:
            self.trace.append(s)

    def log(self, kind, **kw):
        """Append to the history the oracles read."""
        self.seq += 1
        kw["k"] = kind
        kw["q"] = self.seq
        kw["t"] = self.now
        kw["w"] = self.wall()
        self.history.append(kw)
        text = repr(sorted((a, b) for a, b in kw.items() if a not in ("k", "t", "w", "obj")))
        if self.root and self.root in text:
            text = text.replace(self.root, "ROOT")
        if " at 0x" in text:
            text = ADDR.sub(" at 0x..", text)
        self.note("H", kind, text)
        if self.log_hook is not None:
            self.log_hook(kw)
        return kw

    # ---- events -----------------------------------------------------------------------------------------------
    def at(self, t, fn, *args):
        self.seq += 1
        if t < self.now:
            t = self.now
        heapq.heappush(self.heap, (t, self.seq, fn, args))

    def after(self, d, fn, *args):
        self.at(self.now + d, fn, *args)

    def at_wall(self, wall, fn, *args):
        self.at(self.mono_for_wall(wall), fn, *args)

    # ---- threads ----------------------------------------------------------------------------------------------
    def spawn_thread(self, proc, fn, name, delay=0):
        th = SimThread(self, proc, fn, name)
        self.threads.append(th)
        proc.threads.append(th)
        tok = th.token
        self.at(self.now + delay, self._resume_ev, th, tok, "start")
        return th

    def _thread_main(self, th):
        global CUR
        th.lock.acquire()
        th.state = "running"
        th.ident = _thread.get_ident()
        try:
            if self.aborting:
                raise SimAbort()
            if th.proc.dead:
                raise ProcessKilled()
            if th.trace_prob:
                th.trace_rng = subrng(self.sched_seed, "trace:" + th.name)
                sys.settrace(self.make_tracer(th))
            th.fn()
        except (ProcessKilled, SimAbort, SimExit):
            pass
        except BaseException as e:      # the boot wrapper of a process handles everything else
            if not self.aborting and not th.proc.dead:
                self.harness_error = self.harness_error or ("thread %s: %r" % (th.name, e))
        finally:
            sys.settrace(None)
            th.done = True
            th.fn = None
            CUR = None
            for j in th.joiners:
                self.wake(j, "joined")
            self.main_lock.release()

    def _resume_ev(self, th, token, reason):
        if th.token != token or th.done:
            return
        th.token += 1
        th.reason = reason
        self._give(th)

    def _give(self, th):
        """Main thread: hand the baton to th and wait until it comes back."""
        global CUR
        p = th.proc
        if self.loaded is not p:
            p.swap_in(self)
        if self.last_run is not th:
            self.switches += 1
            self.last_run = th
        CUR = th
        if not th.started:
            th.started = True
            _thread.start_new_thread(self._thread_main, (th,))
        th.lock.release()
        self.main_lock.acquire()
        CUR = None

    def park(self, until=None):
        """Current thread waits for wake() or until the absolute time; returns the reason."""
        global CUR
        th = CUR
        if self.aborting:
            raise SimAbort()
        if th.proc.dead:
            raise ProcessKilled()
        if until is not None:
            if until < self.now:
                until = self.now
            heap = self.heap
            if (not heap or heap[0][0] > until) and (self.end is None or until <= self.end) and not self.stopped:
                self.now = until
                self.hb += 1
                return "timeout"
            self.seq += 1
            heapq.heappush(heap, (until, self.seq, self._resume_ev, (th, th.token, "timeout")))
        CUR = None
        self.main_lock.release()
        th.lock.acquire()
        # _give() has set CUR again
        if self.aborting:
            raise SimAbort()
        if th.proc.dead:
            raise ProcessKilled()
        return th.reason

    def wake(self, th, reason="wake", delay=0):
        if th is None or th.done:
            return
        self.seq += 1
        heapq.heappush(self.heap, (self.now + delay, self.seq, self._resume_ev, (th, th.token, reason)))

    def cpu_cost(self, th):
        r = th.rng
        c = self.cost_lo + int((self.cost_hi - self.cost_lo) * (r.random() ** 3))
        if self.stall_prob and r.random() < self.stall_prob:
            s = int(self.stall_max * (r.random() ** 2))
            if s:
                self.fault("stall")
                c += s
        return c

    def seam(self, kind, detail="", obj=None, yields=True):
        """A point at which the simulator may switch threads or inject a fault.  Returns a fault directive or None."""
        th = CUR
        if th is None:
            return None
        if self.aborting:
            raise SimAbort()
        p = th.proc
        if p.dead:
            th.deadcount += 1
            raise ProcessKilled()
        self.hb += 1
        self.steps += 1
        if self.steps > self.max_steps:
            self.abort("steps")
            raise SimAbort()
        self.note(th.name, kind, detail)
        directive = None
        if self.fault_hook is not None:
            directive = self.fault_hook(th, kind, detail, obj)
        if yields:
            until = self.now + self.cpu_cost(th)
            self.park(until)
        if directive is not None and directive[0] == "kill":
            self.kill_self(directive[1] if len(directive) > 1 else "fault")
        if p.pysignals and th is p.main and not p.in_pysig:
            p.run_pysignals()
        return directive

    def kill_self(self, why):
        th = CUR
        p = th.proc
        self.mark_dead(p, why)
        self.at(self.now, self._unwind_all, p)
        raise ProcessKilled()

    def mark_dead(self, p, why):
        if p.dead:
            return
        p.dead = True
        p.on_dead(self, why)

    def kill(self, p, why):
        """From the main thread: the process ceases to exist now."""
        if p.dead or p.ended:
            return
        if CUR is not None:
            if CUR.proc is p:
                self.kill_self(why)
            self.mark_dead(p, why)
            self.at(self.now, self._unwind_all, p)
            return
        self.mark_dead(p, why)
        self._unwind_all(p)

    def _unwind_all(self, p):
        for th in list(p.threads):
            n = 0
            while not th.done and n < 50:
                n += 1
                th.token += 1
                th.reason = "killed"
                if not th.started:
                    th.done = True
                    break
                self._give(th)

    # ---- pre-emption at byte-code granularity -----------------------------------------------------------------
    def make_tracer(self, th):
        prefixes = self.trace_files
        rnd = th.trace_rng.random
        prob = th.trace_prob

        def local(frame, event, arg):
            if event == "opcode" and rnd() < prob:
                self.seam("preempt", "")
            return local

        def glob(frame, event, arg):
            fn = frame.f_code.co_filename
            if fn.startswith(prefixes):
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
                return local
            return None
        return glob
    trace_files = ()

    # ---- run --------------------------------------------------------------------------------------------------
    def abort(self, reason):
        if self.abort_reason is None:
            self.abort_reason = reason
            th = CUR
            if th is not None:
                h = th.proc.hook
                self.abort_where = (th.proc.label, h.in_call if h is not None else None)
        self.aborting = True
        self.stopped = True

    def stop(self):
        self.stopped = True

    def run(self):
        heap = self.heap
        while heap and not self.stopped:
            t, _, fn, args = heapq.heappop(heap)
            if self.end is not None and t > self.end:
                self.now = self.end
                break
            if t > self.now:
                self.now = t
            self.hb += 1
            self.steps += 1
            if self.steps > self.max_steps:
                self.abort("steps")
                break
            fn(*args)
            if self.on_step is not None:
                self.on_step()
        self.teardown()

    def teardown(self):
        self.aborting = True
        for th in self.threads:
            n = 0
            while th.started and not th.done and n < 50:
                n += 1
                th.token += 1
                self._give(th)
            if th.started and not th.done:
                self.harness_error = self.harness_error or ("thread %s does not unwind" % th.name)
        if self.loaded is not None:
            self.loaded.swap_out(self)


def async_raise(ident, exc):
    return ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(ident), ctypes.py_object(exc))
