"""Builds a World from a scenario: processes, clock events, kills, restarts, signals, lock holders, I/O faults."""
import calendar
import datetime as _dt
import errno
import fcntl
import gc
import logging
import os
import random
import shutil
import signal
import sys
import tempfile
import threading

from . import kernel as K
from . import hook as hookmod
from . import patches
from . import simfs
from . import simproc

SEC, MS = K.SEC, K.MS
TZ_OFF = 8 * 3600

ERRNO = {"EIO": errno.EIO, "ENOSPC": errno.ENOSPC, "EMFILE": errno.EMFILE, "EACCES": errno.EACCES,
         "ENOLCK": errno.ENOLCK, "EINTR": errno.EINTR, "EROFS": errno.EROFS, "ENOENT": errno.ENOENT}


def wall_ns(text):
    """'2024-03-05 09:29:50.123' in Asia/Shanghai -> ns since the epoch"""
    if "." in text:
        base, frac = text.split(".")
        ns = int(frac.ljust(9, "0")[:9])
    else:
        base, ns = text, 0
    t = calendar.timegm(__import__("time").strptime(base, "%Y-%m-%d %H:%M:%S"))
    return (t - TZ_OFF) * SEC + ns


def wall_dt(ns):
    return patches.R_datetime(1970, 1, 1) + _dt.timedelta(seconds=TZ_OFF) + _dt.timedelta(microseconds=ns // 1000)


def dt_ns(d):
    x = d - patches.R_datetime(1970, 1, 1) - _dt.timedelta(seconds=TZ_OFF)
    return ((x.days * 86400 + x.seconds) * 1000000 + x.microseconds) * 1000


def day_str(ns):
    return wall_dt(ns).strftime("%Y%m%d")


def scratch_root():
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
    return tempfile.mkdtemp(prefix="vsim_", dir=base)


class Stage(object):
    def __init__(self, scn, keep_trace=False):
        self.scn = scn
        self.root = scratch_root()
        cost = scn.get("cost", [2000, 40000])
        stall = scn.get("stall", [0.0, 0.0])
        clock = scn.get("clock", {})
        self.w = w = K.World(sched_seed=scn["seed"], wall0=wall_ns(scn["wall0"]),
                             mono0=int(scn.get("mono0", 10000.0) * SEC),
                             max_steps=scn.get("max_steps", 400000), cost=tuple(cost), stall_prob=stall[0],
                             stall_max=int(stall[1] * SEC), drift_ppm=clock.get("drift", 0), keep_trace=keep_trace)
        w.end = w.mono0 + int(scn["end"] * SEC)
        w.table = {}
        w.root = self.root
        self.t0 = w.mono0
        self.order_dir = os.path.join(self.root, "orders")
        self.run_dir = os.path.join(self.root, "run")
        self.data_dir = os.path.join(self.run_dir, "data")
        self.code_dir = os.path.join(self.root, "code")
        for name, text in sorted(scn.get("put", {}).items()):
            with simfs.real_open(os.path.join(self.root, name), "wb") as f:
                f.write(text.encode("utf-8"))
        self.tmp_dir = os.path.join(self.root, "tmp")
        os.mkdir(self.tmp_dir)
        for d in (self.order_dir, self.run_dir, self.code_dir):
            if d != self.run_dir or not scn.get("fresh"):
                os.mkdir(d)
        w.paths = {"ORDERS": self.order_dir, "RUN": self.run_dir, "NOWHERE": os.path.join(self.root, "nowhere"),
                   "HOME_RUN": "~/run", "REL_RUN": "run", "REL_ORDERS": "orders"}
        os.environ["HOME"] = self.root
        for name in scn.get("dirs", []):
            os.mkdir(os.path.join(self.root, name))
        simfs.FSYS = self.fs = simfs.FS(w, self.root)
        self.fs.order_dir = self.order_dir
        self.fs.data_dir = self.data_dir
        w.stage = self
        self.procs = {}          # task label -> list of incarnations
        self.shared = {}
        self.hooks = []
        self.faults = [dict(f) for f in scn.get("faults", [])]
        for f in self.faults:
            f["seen"] = 0
            f["left"] = f.get("times", 1)
        if self.faults:
            w.fault_hook = self.fault_hook
        self.lines_by = []       # (path, label, inc, bytes) in the order written
        self.lock_log = []
        self.locks = []
        w.write_hook = self.on_write
        w.lock_hook = self.on_lock
        w.unlock_hook = self.on_unlock
        K.W = w
        random.seed(scn["seed"])
        for ev in scn.get("clock", {}).get("steps", []):
            self.at(ev["t"], self.clock_step, ev["d"])
        for ev in scn.get("clock", {}).get("drifts", []):
            self.at(ev["t"], w.set_drift, ev["ppm"])
        for i, ev in enumerate(scn.get("events", [])):
            self.at(ev["t"], self.event, ev)

    def at(self, sec, fn, *a):
        self.w.at(self.t0 + int(sec * SEC), fn, *a)

    # ---- observers ----------------------------------------------------------------------------------------
    def on_write(self, th, rec, n):
        if rec.cls in ("order", "cancel"):
            p = th.proc
            self.w.log("fwrite", p=p.label, inc=getattr(p, "inc", 0), f=rec.cls, n=n,
                       path=os.path.basename(rec.path))

    def on_lock(self, path, proc, ok):
        self.lock_log.append((self.w.now, os.path.basename(path), proc.label if proc else None, ok))

    def on_unlock(self, path, proc):
        self.lock_log.append((self.w.now, os.path.basename(path), proc.label if proc else None, None))

    # ---- faults -------------------------------------------------------------------------------------------
    def fault_hook(self, th, kind, detail, obj):
        out = None
        p = th.proc
        for f in self.faults:
            if f["left"] <= 0:
                continue
            ops = f["op"]
            if kind not in ops and "*" not in ops:
                continue
            if "p" in f and p.label != f["p"]:
                continue
            if "inc" in f and getattr(p, "inc", 0) != f["inc"]:
                continue
            if "cls" in f and (obj is None or obj[1] not in f["cls"]):
                continue
            if "in" in f:
                h = p.hook
                if h is None or h.in_call not in f["in"]:
                    continue
            if "after" in f and self.w.now < self.t0 + int(f["after"] * SEC):
                continue
            if "until" in f and self.w.now > self.t0 + int(f["until"] * SEC):
                continue
            f["seen"] += 1
            if f["seen"] < f.get("n", 1):
                continue
            f["left"] -= 1
            do = f["do"]
            if do == "kill":
                self.w.fault("kill@" + kind)
                self.w.log("fault", what="kill", op=kind, p=p.label)
                out = ("kill", "fault")
            elif do == "stall":
                self.w.fault("stall@" + kind)
                self.w.now += 0
                self.w.park(self.w.now + int(f["s"] * SEC))
            elif do == "export":
                self.w.fault("export@" + kind)
                self.exporter.at_read(f)
            elif do == "vanish":
                self.vanish(detail)
            elif do == "mcrash":
                self.w.log("fault", what="kill", op=kind, p=p.label)
                self.disk.request()
                out = ("kill", "mcrash")
            elif do == "short":
                self.w.fault("short_" + kind)
                self.w.log("fault", what="short", op=kind, p=p.label)
                out = ("short", f.get("frac", 0.5))
            elif do in ERRNO:
                self.w.fault("%s_%s" % (do, kind))
                self.w.log("fault", what=do, op=kind, p=p.label, cls=obj[1] if obj else None)
                out = ("err", ERRNO[do])
            elif do == "sig":
                self.w.fault("signal@" + kind)
                p.deliver(f["sig"])
            else:
                raise K.HarnessError("unknown fault %r" % (f,))
        return out

    def clock_step(self, d):
        self.w.fault("clock_step_" + ("fwd" if d > 0 else "back"))
        self.w.step_clock(int(d * SEC))
        self.w.log("clock", d=d)

    # ---- events -------------------------------------------------------------------------------------------
    def event(self, ev):
        getattr(self, "ev_" + ev["do"])(ev)

    def live(self, label):
        for p in reversed(self.procs.get(label, [])):
            if p.alive:
                return p
        return None

    def ev_kill(self, ev):
        p = self.live(ev["p"])
        if p is not None:
            self.w.fault("kill")
            self.w.kill(p, "SIGKILL")

    def ev_sig(self, ev):
        p = self.live(ev["p"])
        if p is not None:
            self.w.fault("signal_%d" % ev["sig"])
            p.deliver(ev["sig"])

    def ev_start(self, ev):
        self.start_task(ev["p"])

    def ev_restart(self, ev):
        """Start the task again if it is not running."""
        ps = self.procs.get(ev["p"], [])
        if not ps or not ps[-1].alive:
            self.start_task(ev["p"])

    def out_size(self, proc, spec):
        """How much output is safe from the death of the process."""
        if not spec.get("out"):
            return proc.stdout.flushed
        try:
            return simfs.real_os_stat(os.path.join(self.root, spec["out"])).st_size
        except OSError:
            return 0

    def nlines(self, kind, oid):
        """Complete lines carrying this id in the order (cancel) files of all days."""
        pre = "algoOrder_" if kind == "order" else "algoOrderStop_"
        n = 0
        for name in simfs.real_listdir(self.order_dir):
            if name.startswith(pre):
                with simfs.real_open(os.path.join(self.order_dir, name), "rb") as f:
                    data = f.read()
                for line in data.split(b"\n")[:-1]:
                    it = line.split(b",")
                    if len(it) > 1 and it[1].strip() == oid.encode():
                        n += 1
        return n

    def ev_lock(self, ev):
        """Another program takes the advisory lock on an order/cancel file of the current day for ev['s'] seconds."""
        name = {"order": "algoOrder_", "cancel": "algoOrderStop_"}[ev["f"]] + day_str(self.w.wall()) + ".csv"
        path = os.path.join(self.order_dir, name)
        fp = simfs.real_open(path, "ab")
        try:
            simfs.real_flock(fp.fileno(), fcntl.LOCK_EX | fcntl.LOCK_NB)
        except BlockingIOError:
            fp.close()
            if ev.get("retry", 0) < 200:
                ev = dict(ev, retry=ev.get("retry", 0) + 1)
                self.w.after(3 * MS, self.ev_lock, ev)
            return
        self.w.fault("foreign_lock")
        self.w.log("lockhold", f=ev["f"], s=ev["s"], path=name)
        ent = [fp, self.w.now]
        self.locks.append(ent)
        self.w.after(int(ev["s"] * SEC), self.unlock, ent, name)

    def unlock(self, ent, name):
        fp = ent[0]
        if not fp.closed:
            fp.close()
            self.w.log("lockfree", path=name)

    # ---- processes ----------------------------------------------------------------------------------------
    def write_code(self, label, spec):
        mod = "vs_" + label
        path = os.path.join(self.code_dir, mod + ".py")
        if not os.path.exists(path):
            with simfs.real_open(path, "w") as f:
                f.write(hookmod.strategy_source(spec))
            if any(t.get("fn") == "helper" for t in spec.get("tasks", [])):
                with simfs.real_open(os.path.join(self.code_dir, "vh_help_%s.py" % label), "w") as f:
                    f.write(hookmod.helper_source(spec))
        return path

    def start_task(self, label, delay=0.0, spec=None):
        spec = spec or self.scn["procs"][label]
        spec = dict(spec)
        spec["helper"] = "vh_help_%s" % label
        inc = len(self.procs.setdefault(label, []))
        if inc == 0 and spec.get("opts0"):
            spec["opts"] = dict(spec["opts"], **spec["opts0"])
        code = self.write_code(label, spec)
        argv = ["jqtrade", "start_task", "-c", code, "-n", spec.get("name", label)]
        if spec.get("config") is not None:
            cpath = os.path.join(self.code_dir, "conf_%s.py" % label)
            with simfs.real_open(cpath, "w") as f:
                f.write(spec["config"])
            if spec.get("config_rel"):
                cpath = os.path.relpath(cpath, os.path.join(self.root, spec["cwd"][inc % len(spec["cwd"])]))
            argv += ["--config", cpath]
        for fname, src in sorted(spec.get("files", {}).items()):
            fp = os.path.join(self.code_dir, fname)
            if not os.path.exists(fp):
                with simfs.real_open(fp, "w") as f:
                    f.write(src)
        if spec.get("debug"):
            argv.append("--debug")
        if spec.get("out"):
            argv += ["-o", spec["out"] if spec.get("out_rel") else os.path.join(self.root, spec["out"])]
        p = simproc.Proc(self.w, label, argv, cmdline=["/usr/bin/python3"] + argv)
        p.inc = inc
        if spec.get("cwd"):
            p.cwd = os.path.join(self.root, spec["cwd"][inc % len(spec["cwd"])]).rstrip("/")
        p.rand_repeat = spec.get("rand_repeat", 0.0)
        if spec.get("log_out"):
            p.stdout.tap = lambda text: self.w.log("out", p=label, inc=inc, text=text.split("\n")[0])
        if spec.get("broken_out") is not None:
            p.stdout.broken = p.stderr.broken = self.t0 + int(spec["broken_out"] * SEC)
        self.procs[label].append(p)
        sh = self.shared.setdefault(label, {"ids": {}})
        h = hookmod.Hook(self.w, p, spec, inc, sh)
        p.hook = h
        self.hooks.append(h)
        m = hookmod.make_hook_module(h)
        p.modules["vh_hook"] = m
        p.modnames.append("vh_hook")
        self.add_to_table(p)
        p.start(simproc.boot_cli(p), int(delay * SEC))
        if inc:
            self.w.fault("restart")
        return p

    def add_to_table(self, p):
        self.w.table[p.pid] = p
        prev = p.on_exit

        def gone(_p):
            self.w.table.pop(p.pid, None)
            if prev:
                prev(p)
        p.on_exit = gone

    # ---- run ----------------------------------------------------------------------------------------------
    def run(self):
        w = self.w
        try:
            w.run()
        finally:
            pass
        return w

    def close(self):
        for fp, _ in self.locks:
            try:
                fp.close()
            except OSError:
                pass
        for h in self.hooks:
            h.g = None
            h.held = []
        for p in self.w.procs:
            p.modules = {}
            p.log_handlers = []
            p.loops = []
            p.uvsignals = {}
            p.hook = None
            for rec in list(p.files):
                rec.dead = True
        for fd in self.fs.orphans:
            try:
                simfs.real_os_close(fd)
            except OSError:
                pass
        simfs.FSYS = None
        K.W = None
        os.environ["HOME"] = simproc.PRISTINE["home"]
        logging.root.handlers = simproc.PRISTINE["handlers"]
        shutil.rmtree(self.root, ignore_errors=True)
        self.hooks = []

    def read_order_file(self, day, kind="order"):
        name = ("algoOrder_" if kind == "order" else "algoOrderStop_") + day + ".csv"
        try:
            with simfs.real_open(os.path.join(self.order_dir, name), "rb") as f:
                return f.read()
        except FileNotFoundError:
            return None


class Watchdog(object):
    """Real-time guard: code that burns CPU without reaching a seam is interrupted."""

    def __init__(self, cpu_limit=12.0):
        self.limit = cpu_limit
        self.world = None
        self.hb = -1
        self.cpu = 0.0
        self.t = None

    def start(self):
        if self.t is None:
            self.t = patches.R_start and threading.Thread(target=self.loop, daemon=True)
            patches.R_start(self.t)

    def watch(self, world):
        self.hb = -1
        self.world = world

    def loop(self):
        while True:
            K.real_sleep(0.5)
            w = self.world
            if w is None:
                continue
            c = K.real_process_time()
            if w.hb != self.hb:
                self.hb = w.hb
                self.cpu = c
                continue
            if c - self.cpu > self.limit:
                th = K.CUR
                self.cpu = c
                if th is not None and th.ident:
                    w.abort("stuck")
                    K.async_raise(th.ident, K.SimAbort)


WATCHDOG = Watchdog()
