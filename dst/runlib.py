"""Executes one scenario and judges it."""
import gc
import importlib
import random
import time

from . import kernel as K
from . import patches
from . import simproc
from . import stage as stagemod

_ready = False
FAMS = {}


def prepare(repo=None):
    global _ready
    if not _ready:
        patches.install()
        stagemod.WATCHDOG.start()
        _ready = True
    simproc.load_code(repo)


def fam(name):
    if name not in FAMS:
        FAMS[name] = importlib.import_module("dst.fam." + name)
    return FAMS[name]


def make(famname, prof, seed):
    r = random.Random("%s/%s/%d" % (famname, prof, seed))
    scn = fam(famname).gen(r, prof)
    scn["fam"] = famname
    scn["prof"] = prof
    scn["iseed"] = seed
    return scn


class Result(object):
    pass


def execute(scn, keep_trace=False):
    F = fam(scn["fam"])
    t0 = K.real_monotonic()
    st = F.build(scn, keep_trace)
    R = Result()
    R.error = None
    R.violations = []
    try:
        stagemod.WATCHDOG.watch(st.w)
        try:
            patches.begin_run(scn["seed"], st.tmp_dir)
            st.run()
        finally:
            patches.end_run()
            stagemod.WATCHDOG.world = None
        w = st.w
        if w.harness_error:
            R.error = w.harness_error
        else:
            try:
                R.violations = F.check(st)
            except K.HarnessError as e:
                R.error = repr(e)
        R.hash = w.hash.hexdigest()
        R.ihash = w.ihash.hexdigest()
        R.steps = w.steps
        R.sim = (w.now - w.mono0) / 1e9
        R.faults = w.fault_fired
        R.counts = w.counts
        R.probes = w.probes
        R.switches = w.switches
        R.nontrivial = bool(F.nontrivial(st))
        R.abort = w.abort_reason
        if keep_trace:
            R.trace = w.trace
            R.history = w.history
            R.stderr = {p.label + "#%d" % getattr(p, "inc", 0): p.stderr.text() for p in w.procs}
            R.stdout = {p.label + "#%d" % getattr(p, "inc", 0): p.stdout.text() for p in w.procs}
    finally:
        st.close()
    R.wall = K.real_monotonic() - t0
    return R


_n = 0


def collect():
    global _n
    _n += 1
    if _n % 8 == 0:
        gc.collect()
