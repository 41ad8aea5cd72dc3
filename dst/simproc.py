"""Simulated processes: module space, process table, signals, boot through the real command line entry point."""
import io
import logging
import os
import signal as _signal
import sys
import types
import importlib.abc
import importlib.machinery

from . import kernel as K
from . import simfs

REPO = os.environ.get("VERIF_REPO", "/repo")

CODE = {}          # module name -> (code, is_pkg, path)
PRISTINE = {}      # global interpreter state restored after every run


def load_code(repo=None):
    """Compile jqtrade from the current working tree."""
    repo = repo or REPO
    CODE.clear()
    base = os.path.join(repo, "jqtrade")
    for dp, dn, fn in os.walk(base):
        dn.sort()
        for f in sorted(fn):
            if not f.endswith(".py"):
                continue
            path = os.path.join(dp, f)
            rel = os.path.relpath(path, repo)[:-3].replace("/", ".")
            pkg = False
            if rel.endswith(".__init__"):
                rel, pkg = rel[:-9], True
            with simfs.real_open(path, "rb") as fp:
                src = fp.read()
            CODE[rel] = (compile(src, path, "exec", dont_inherit=True), pkg, path)
    return CODE


class _Loader(importlib.abc.Loader):
    def __init__(self, name):
        self.name = name

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        code, pkg, path = CODE[self.name]
        exec(code, module.__dict__)


class RepoFinder(importlib.abc.MetaPathFinder):
    """Serves jqtrade from CODE and remembers which modules belong to the loaded process."""

    def find_spec(self, name, path, target=None):
        root = name.split(".", 1)[0]
        if root == "jqtrade":
            ent = CODE.get(name)
            if ent is None:
                return None
            code, pkg, file = ent
            spec = importlib.machinery.ModuleSpec(name, _Loader(name), origin=file, is_package=pkg)
            spec.has_location = True
            spec.cached = None
            if pkg:
                spec.submodule_search_locations = [os.path.dirname(file)]
            self._own(name)
            return spec
        if root.startswith(("vs_", "vh_", "vc_")):
            self._own(name)
        return None

    @staticmethod
    def _own(name):
        if K.CUR is not None:
            K.CUR.proc.modnames.append(name)


class Out(io.TextIOBase):
    """stdout/stderr of a simulated process."""

    def __init__(self, cap=400000):
        self.parts = []
        self.size = 0
        self.cap = cap
        self.dead = False
        self.tap = None          # told of every write
        self.broken = None       # virtual time from which writing fails
        self.flushed = 0         # characters that have left the process (the rest is lost if it is killed)

    def writable(self):
        return True

    def write(self, s):
        self._alive()
        if self.tap is not None:
            self.tap(s)
        if self.size < self.cap or "[ERROR]" in s:
            self.parts.append(s)
            self.size += len(s)
        return len(s)

    def _alive(self):
        if self.broken is not None and K.CUR is not None and K.CUR.world.now >= self.broken:
            K.CUR.world.fault("terminal_gone")
            raise OSError(5, "Input/output error")

    def flush(self):
        if self.flushed < self.size:
            self._alive()
            self.flushed = self.size

    def text(self):
        return "".join(self.parts)


class Proc(object):
    def __init__(self, world, label, argv, ppid=1, name="python", cmdline=None, denied=False):
        self.world = world
        self.label = label
        world.next_pid = getattr(world, "next_pid", 1000) + 1
        self.pid = world.next_pid
        self.ppid = ppid
        self.argv = argv
        self.pname = name
        self.cmdline = cmdline if cmdline is not None else list(argv)
        self.denied = denied
        self.create = world.now
        self.dead = False           # killed
        self.ended = False          # finished by itself
        self.exit = None            # ("exit", code) | ("exc", exception) | ("killed", why)
        self.exit_t = None
        self.zombie = False
        self.threads = []
        self.files = []
        self.loops = []
        self.modnames = []
        self.modules = {}
        self.uvsignals = {}
        self.pysignals = []
        self.pyhandlers = {}
        self.in_pysig = False
        self.swallowed = []
        self.main = None
        self.stdout = Out()
        self.stderr = Out()
        self.log_handlers = []
        self.log_level = logging.WARNING
        self.path = list(PRISTINE["path"])
        self.cwd = None             # current directory (None: the simulator's own)
        self.hook = None
        self.signals_got = []
        self.rand = K.subrng(world.sched_seed, "rand:%s:%d" % (label, self.pid))
        self.rand_repeat = 0.0
        self.rand_seen = []
        self.on_exit = None
        world.procs.append(self)

    # -- interpreter state ----------------------------------------------------------------------------------
    def swap_in(self, world):
        old = world.loaded
        if old is not None:
            old.swap_out(world)
        sm = sys.modules
        for k, m in self.modules.items():
            sm[k] = m
        self.modules = {}
        sys.path = self.path
        sys.argv = self.argv
        sys.stdout = self.stdout
        sys.stderr = self.stderr
        root = logging.root
        root.handlers = self.log_handlers
        if root.level != self.log_level:
            root.setLevel(self.log_level)
        if self.cwd is not None:
            simfs.real_chdir(self.cwd)
        world.loaded = self

    def swap_out(self, world):
        sm = sys.modules
        mods = {}
        for k in self.modnames:
            m = sm.pop(k, None)
            if m is not None:
                mods[k] = m
        self.modules = mods
        self.path = sys.path
        self.log_handlers = logging.root.handlers
        self.log_level = logging.root.level
        sys.path = PRISTINE["path_list"]
        sys.argv = PRISTINE["argv"]
        sys.stdout = PRISTINE["stdout"]
        sys.stderr = PRISTINE["stderr"]
        logging.root.handlers = PRISTINE["handlers"]
        if self.cwd is not None:
            simfs.real_chdir(PRISTINE["cwd"])
        world.loaded = None

    # -- life ------------------------------------------------------------------------------------------------
    @property
    def alive(self):
        return not self.dead and not self.ended

    def on_dead(self, world, why):
        self.exit = ("killed", why)
        self.exit_t = world.now
        simfs.FSYS.close_all(self)
        world.log("exit", p=self.label, how="killed", why=str(why))
        if self.on_exit:
            world.at(world.now, self.on_exit, self)

    def finish(self, how):
        w = self.world
        if self.dead:
            return
        self.exit = how
        self.exit_t = w.now
        self.ended = True
        # the interpreter goes away: buffered files are finalised by CPython; nothing else survives
        for o in (self.stdout, self.stderr):
            if o.broken is None or w.now < o.broken:
                o.flushed = o.size
        w.log("exit", p=self.label, how=how[0], code=how[1] if how[0] == "exit" else type(how[1]).__name__)
        if self.on_exit:
            w.at(w.now, self.on_exit, self)

    def deliver(self, signum):
        """Main thread (or another process): a signal arrives."""
        if not self.alive:
            return False
        w = self.world
        self.signals_got.append((w.now, signum))
        w.log("signal", p=self.label, sig=int(signum))
        if signum == _signal.SIGKILL:
            w.kill(self, "SIGKILL")
            return True
        hs = list(self.uvsignals.get(int(signum), []))
        if hs:
            for h in hs:
                h._deliver(int(signum))
            return True
        h = self.pyhandlers.get(int(signum), "default")
        if h == "ignore":
            return True
        if h == "default":
            if signum == _signal.SIGINT:
                self.pysignals.append((int(signum), _signal.default_int_handler))
                if self.main is not None:
                    w.wake(self.main, "signal")
                return True
            w.kill(self, "signal %d" % signum)
            return True
        self.pysignals.append((int(signum), h))
        if self.main is not None:
            w.wake(self.main, "signal")
        return True

    def run_pysignals(self):
        self.in_pysig = True
        try:
            while self.pysignals:
                s, h = self.pysignals.pop(0)
                h(s, None)
        finally:
            self.in_pysig = False

    def start(self, body, delay=0, trace_prob=0.0):
        """body() runs on the main thread of the process."""
        w = self.world

        def main():
            self.run_main(body)
        self.main = w.spawn_thread(self, main, self.label, delay)
        self.main.trace_prob = trace_prob
        return self.main

    def run_main(self, body):
        w = self.world
        w.log("start", p=self.label)
        try:
            body()
        except (K.ProcessKilled, K.SimAbort):
            raise
        except K.SimExit as e:
            self.finish(("exit", e.code))
        except SystemExit as e:
            code = e.code
            if code is None:
                code = 0
            elif not isinstance(code, int):
                code = 1
            self.finish(("exit", code))
        except KeyboardInterrupt as e:
            self.finish(("exc", e))
        except Exception as e:
            import traceback
            self.stderr.write(traceback.format_exc())
            self.finish(("exc", e))
        else:
            self.finish(("exit", 0))


def boot_cli(proc):
    """What `python -m jqtrade ...` / the console script does."""
    def body():
        import importlib
        m = importlib.import_module("jqtrade.__main__")
        m.main()
    return body


# ---- psutil ------------------------------------------------------------------------------------------------------

def make_psutil():
    import psutil as real
    m = types.ModuleType("psutil")
    for n in ("Error", "NoSuchProcess", "ZombieProcess", "AccessDenied", "TimeoutExpired", "STATUS_ZOMBIE",
              "STATUS_RUNNING", "STATUS_SLEEPING", "POSIX", "LINUX", "WINDOWS", "__version__", "version_info"):
        setattr(m, n, getattr(real, n))

    def table():
        return K.CUR.world.table

    def lookup(pid):
        return table().get(pid)

    class Process(object):
        def __init__(self, pid=None):
            if pid is None:
                pid = K.CUR.proc.pid
            K.CUR.world.seam("ps_new", str(pid))
            e = lookup(pid)
            if e is None:
                raise real.NoSuchProcess(pid)
            self._pid = pid
            self._e = e
            self.info = {}

        @property
        def pid(self):
            return self._pid

        def _get(self, what):
            K.CUR.world.seam("ps_" + what, str(self._pid))
            e = lookup(self._pid)
            if e is not self._e:
                raise real.NoSuchProcess(self._pid)
            return e

        def __eq__(self, o):
            return isinstance(o, Process) and o._e is self._e

        def __hash__(self):
            return hash((self._pid, self._e.create))

        def cmdline(self):
            e = self._get("cmdline")
            if e.zombie:
                raise real.ZombieProcess(self._pid, e.pname, e.ppid)
            if e.denied:
                raise real.AccessDenied(self._pid, e.pname)
            return list(e.cmdline)

        def name(self):
            return self._get("name").pname

        def exe(self):
            e = self._get("exe")
            if e.denied:
                raise real.AccessDenied(self._pid, e.pname)
            return e.cmdline[0] if e.cmdline else ""

        def ppid(self):
            return self._get("ppid").ppid

        def parent(self):
            pp = self._get("ppid").ppid
            try:
                return Process(pp)
            except real.NoSuchProcess:
                return None

        def parents(self):
            out, p = [], self.parent()
            while p is not None:
                out.append(p)
                p = p.parent()
            return out

        def children(self, recursive=False):
            self._get("children")
            out = []
            for pid, e in sorted(table().items()):
                if e.ppid == self._pid:
                    c = Process(pid)
                    out.append(c)
                    if recursive:
                        out.extend(c.children(True))
            return out

        def status(self):
            e = self._get("status")
            return real.STATUS_ZOMBIE if e.zombie else real.STATUS_RUNNING

        def create_time(self):
            self._get("create_time")
            return self._e.create / 1e9

        def username(self):
            return "root"

        def uids(self):
            return (0, 0, 0)

        def cwd(self):
            return "/"

        def environ(self):
            return {}

        def is_running(self):
            K.CUR.world.seam("ps_running", str(self._pid))
            return lookup(self._pid) is self._e

        def oneshot(self):
            import contextlib
            return contextlib.nullcontext()

        def as_dict(self, attrs=None, ad_value=None):
            out = {}
            for a in attrs or ("pid", "name", "cmdline", "ppid", "status", "create_time"):
                try:
                    out[a] = self.pid if a == "pid" else getattr(self, a)()
                except (real.AccessDenied, real.ZombieProcess):
                    out[a] = ad_value
            return out

        def send_signal(self, sig):
            w = K.CUR.world
            e = self._get("signal")
            if e.zombie:
                return
            if e.denied:
                raise real.AccessDenied(self._pid, e.pname)
            w.log("sent", by=K.CUR.proc.label, to=e.label, sig=int(sig))
            e.deliver(sig)

        def kill(self):
            self.send_signal(_signal.SIGKILL)

        def terminate(self):
            self.send_signal(_signal.SIGTERM)

        def wait(self, timeout=None):
            w = K.CUR.world
            dl = None if timeout is None else w.now + int(timeout * K.SEC)
            while lookup(self._pid) is self._e and not self._e.zombie:
                if dl is not None and w.now >= dl:
                    raise real.TimeoutExpired(timeout, self._pid)
                w.park(w.now + 40 * K.MS)
            return None

        def __repr__(self):
            return "psutil.Process(pid=%d)" % self._pid

    def pids():
        K.CUR.world.seam("ps_pids")
        return sorted(table())

    def process_iter(attrs=None, ad_value=None):
        for pid in pids():
            try:
                p = Process(pid)
                if attrs is not None:
                    p.info = p.as_dict(attrs, ad_value)
            except real.NoSuchProcess:
                continue
            yield p

    def pid_exists(pid):
        K.CUR.world.seam("ps_exists", str(pid))
        return pid in table()

    m.Process = Process
    m.pids = pids
    m.process_iter = process_iter
    m.pid_exists = pid_exists
    m.cpu_count = lambda logical=True: 8
    m.wait_procs = lambda procs, timeout=None, callback=None: (_ for _ in ()).throw(
        K.HarnessError("psutil.wait_procs is not simulated"))
    return m
