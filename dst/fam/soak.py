"""Strategies that stay up for many days, and what the process holds meanwhile: S08."""
import collections
import datetime as dt
import functools
import gc
import logging
import os
import sys
import types

from .. import simfs
from ..broker import Broker
from ..hook import EXCS
from ..stage import Stage, SEC
from .bal import Exporter
from .cust import CODES, GATE_SRC, MAL_B, MAL_O, RAISES, GateSim
from .sched import hms

PROPS = ("S08",)

# operations without which a run says nothing about growth
ENOUGH = 300


def gen(r, prof="mix"):
    mode = r.choice(["sched", "cust", "cust", "file", "file"]) if prof == "mix" else prof
    day = dt.date(2023, 1, 1) + dt.timedelta(days=r.randrange(900))
    start = r.randrange(7 * 3600, 9 * 3600)
    days = r.choice([6, 9, 12])
    scn = {"fam": "soak", "mode": mode, "max_steps": 600000, "seed": r.getrandbits(40), "clock": {}, "events": [], "days": days,
           "wall0": "%s %s.%03d" % (day.isoformat(), hms(start), r.randrange(1000)), "cost": r.choice([[2000, 40000], [20000, 400000]])}
    # the time of day at which the process is looked at: nothing is scheduled around it
    scn["look"] = r.randrange(20 * 3600 + 100, 23 * 3600) if r.random() < 0.7 else r.randrange(3600, 6 * 3600)
    say = r.random() < 0.6

    def words():
        return r.choice([["log", r.choice(["info", "warning", "error"]), "x" * r.choice([3, 300])], ["print", "text 文", "plain"],
                         ["logarg", "info", "abc"], ["print", "y" * 50, "other"]])
    tasks = []
    opts = {"account_no": "1001", "runtime_dir": "RUN"}
    spec = {"tasks": tasks, "opts": opts, "pre": []}
    period = [[hms(36000), hms(36000 + r.choice([30, 60]) * 60)], [hms(50000), hms(50000 + r.choice([20, 60, 120]) * 60)]]
    if mode == "sched":
        opts["use_account"] = False
        opts["market_period"] = period
        tasks.append({"time": "every_minute", "acts": [words() for _ in range(r.choice([1, 2]))] if say else []})
        for _ in range(r.choice([0, 1, 3, 6])):
            tasks.append({"time": hms(r.randrange(30000, 60000)), "acts": [words()] if say else [["sleep", r.choice([0.01, 61])]],
                          "fn": r.choice(["top", "closure", "lambda", "method"])})
    else:
        opts["sync_internal"] = r.choice([60, 120, 180])
        if mode == "cust" and r.random() < 0.25:
            # around the clock
            opts["sync_internal"] = r.choice([300, 600])
            opts["sync_period"] = []
        else:
            opts["sync_period"] = period
        opts["sync_balance"] = r.random() < 0.8
        opts["sync_order"] = r.random() < 0.8 or not opts["sync_balance"]
        n = r.choice([1, 2, 4])
        for k in range(n):
            acts = []
            for _ in range(r.choice([3, 8, 20])):
                x = r.random()
                if x < 0.2:
                    acts.append(["cancel", "raw:%d" % r.randrange(10 ** 9, 2 * 10 ** 9)])
                elif x < 0.45:
                    acts.append(["syncb"])
                elif x < 0.7:
                    acts.append(["synco"])
                elif x < 0.8:
                    acts.append(["port"])
                elif x < 0.9:
                    acts.append(["query"])
                else:
                    acts.append(words() if say else ["query"])
            tasks.append({"time": hms(r.randrange(36000, 60000)), "acts": acts})
        orders = [["order", "o%d" % k, r.choice(CODES), r.choice([100, -100, 700]) + k, r.choice([None, ["l", 9.5]]), "long"]
                  for k in range(r.choice([0, 1, 3]))]
        if r.random() < 0.5:
            spec["pre"] = orders
        else:
            tasks[0]["acts"].insert(0, ["nth", 1, orders])
    if mode == "cust":
        spec["files"] = {"vc_gate.py": GATE_SRC}
        spec["config"] = "ACCOUNT_TRADE_GATE = 'vc_gate.Gate'\n"
        g = {"seed": r.getrandbits(30), "calls": {}, "orders": 0, "absent": r.choice([0, 0.3]), "cached": r.random() < 0.35,
             "short": r.choice([0, 0.5]), "zero": r.choice([0, 0.3]), "foreign": r.choice([0, 3])}
        fail = r.choice([0, 0.3, 0.9])
        for name in ("order", "cancel", "syncb", "synco"):
            lst = []
            for _ in range(r.choice([1, 7, 19])):
                if r.random() >= fail:
                    lst.append(["ok"])
                elif r.random() < 0.5 or name in ("order", "cancel"):
                    lst.append(["raise", r.choice(RAISES)])
                else:
                    lst.append(["mal", r.choice(MAL_B if name == "syncb" else MAL_O), r.random()])
            g["calls"][name] = lst
        scn["gate"] = g
    if mode == "file":
        opts["order_dir"] = "ORDERS"
        opts["sync_retry_kwargs"] = {"max_attempts": r.choice([1, 2]), "attempt_internal": 0.05}
        if r.random() < 0.2:
            opts["ignore_error_line"] = False
        scn["broker"] = {"seed": r.getrandbits(30), "enc": "utf-8", "eol": "\n", "poll": 300.0, "life": r.choice([1000.0, 20000.0]),
                         "until": days * 86400.0, "start": 0.0, "tear": r.choice([0, 0.5]), "gap": 2000.0, "header": True,
                         "bad": 0.5, "foreign": 0.5, "rows": r.choice([0, 5, 60]), "reject": 0.2, "files": 0,
                         "open_delay": r.choice([0, 40000.0])}
        exports = []
        for d in range(days):
            if r.random() < 0.15:
                continue        # a day without exports: every balance synchronisation fails
            for kind in ("asset", "position"):
                for _ in range(r.choice([1, 2, 6])):
                    exports.append({"t": round(d * 86400 + r.random() * 50000, 3), "kind": kind, "how": r.choice(["trunc", "rename", "gone"]),
                                    "pieces": r.choice([1, 3]), "gap": 2000.0})
        exports.sort(key=lambda e: e["t"])
        scn["export"] = {"seed": r.getrandbits(30), "list": exports, "asset_absent": 0, "others": 2, "bulk": r.choice([0, 20]),
                         "rows": 3, "zero": 0.2, "eol": "\n", "tail": True}
        fs = []
        for _ in range(r.choice([0, 0, 1, 2])):
            fs.append({"op": [r.choice(["open", "read", "write", "fsync", "rename", "flock"])], "n": 1,
                       "cls": [r.choice(["record", "update", "result", "asset", "position", "cancel"])],
                       "do": r.choice(["EIO", "EMFILE", "ENOSPC"]), "times": r.choice([10, 200, 10 ** 6]),
                       "after": 30000.0 * r.randrange(1, days)})
        scn["faults"] = fs
        for _ in range(r.choice([0, 0, 2])):
            scn["events"].append({"t": round(20000 + r.random() * 86400 * days, 3), "do": "lock", "f": "cancel", "s": 3000.0})
    if r.random() < 0.7:
        spec["out"] = "strategy.log"
    if r.random() < 0.1:
        spec["debug"] = True
    scn["procs"] = {"a": spec}
    scn["events"].append({"t": 0.2, "do": "start", "p": "a", "keep": True})
    scn["end"] = days * 86400.0 + 60
    return scn


def build(scn, keep_trace=False):
    st = Stage(scn, keep_trace)
    if "gate" in scn:
        st.gatesim = GateSim(st, scn["gate"])
    if "broker" in scn:
        st.broker = SoakBroker(st, scn["broker"])
    if "export" in scn:
        st.exporter = Exporter(st, scn["export"], scn["procs"]["a"]["opts"]["account_no"])
    st.looks = []
    h, m, s = [int(x) for x in scn["wall0"][11:19].split(":")]
    first = (scn["look"] - (h * 3600 + m * 60 + s)) % 86400
    for d in range(scn["days"]):
        for k in range(3):
            # three times; the smallest figures count
            st.at(first + d * 86400 + 0.37 + 1.5 * k, look, st, d)
    return st


class SoakBroker(Broker):
    """Foreign and damaged lines all day long."""

    def tick(self):
        Broker.tick(self)
        if (self.day, "update") in self.created and self.orders == {}:
            o = {"code": "600000.XSHG", "amount": 100, "action": "open", "filled": 0, "day": self.day, "r": self.r, "tm": "093001",
                 "state": "open", "cancel": False}
            self.noise("update", o, "M1")
            if (self.day, "result") in self.created:
                self.noise("result", o, "M1")


# ---- what the process holds --------------------------------------------------------------------------------------

SKIP = (types.ModuleType, types.FrameType, types.TracebackType, types.CodeType, logging.Logger, logging.Handler, logging.Manager,
        types.BuiltinFunctionType, types.GetSetDescriptorType, types.MemberDescriptorType, types.WrapperDescriptorType,
        types.MethodDescriptorType)


def footprint(proc, world):
    """Number of objects reachable from the state of jqtrade's modules, not through the strategy file or the simulator."""
    mods = [sys.modules.get(k) for k in proc.modnames] if world.loaded is proc else list(proc.modules.values())
    mods = [m for m in mods if m is not None and m.__name__.split(".")[0] == "jqtrade"]
    seen = set()
    stack = [v for m in mods for v in list(m.__dict__.values())]
    while stack:
        o = stack.pop()
        if id(o) in seen or isinstance(o, SKIP):
            continue
        t = type(o)
        tm = t.__module__
        if isinstance(tm, str) and tm.startswith("dst"):
            continue
        if isinstance(o, type):
            if str(o.__module__).startswith("jqtrade"):
                seen.add(id(o))
                stack.extend(v for k, v in list(vars(o).items()))
            continue
        seen.add(id(o))
        if isinstance(o, types.FunctionType):
            stack.extend(x for x in (o.__closure__, o.__defaults__, o.__kwdefaults__, o.__dict__) if x)
            continue
        if t in (str, int, float, bytes, bool):
            continue
        stack.extend(gc.get_referents(o))
    return len(seen)


def look(st, d):
    ps = st.procs.get("a", [])
    if not ps or not ps[-1].alive:
        return
    p = ps[-1]
    gc.collect()
    mem = footprint(p, st.w)
    fds = [os.path.basename(r.path) for r in p.files if not r.dead]
    active = sum(1 for lp in p.loops for h in lp._handles if h._active and not h.closed)
    threads = sum(1 for t in p.threads if not getattr(t, "done", False))
    files = sum(len(fn) for dp, dn, fn in os.walk(st.run_dir))
    st.looks.append({"d": d, "mem": mem, "fds": len(fds), "names": sorted(set(fds))[:4], "handles": active, "files": files,
                     "threads": threads, "q": len(st.w.history)})


def ops_until(st, q):
    n = 0
    for e in st.w.history[:q]:
        if e["k"] in ("task", "gcall", "synco_call", "syncb_call", "cancel_call", "log_call", "print_call"):
            n += 1
    return n


def check(st):
    w, scn = st.w, st.scn
    V = []
    if w.abort_reason:
        return [("S08", "no-progress", "the process spins (%s)" % w.abort_reason)]
    p = st.procs["a"][-1]
    if not p.alive:
        return [("S08", "died", "the strategy ended (%r) on its own: %s" % (p.exit, p.stderr.text()[-300:]))]
    day = {}
    for x in st.looks:
        b = day.setdefault(x["d"], dict(x))
        for k in ("mem", "fds", "handles", "threads", "files"):
            if x[k] < b[k]:
                b[k] = x[k]
    ds = sorted(day)
    st.days_seen = day
    if len(ds) < 5:
        return V
    # the first two days are for warming up; both halves of the rest must grow for the growth to count
    a, z = ds[1], ds[-1]
    m = ds[(1 + len(ds) - 1) // 2]
    A, M, Z = day[a], day[m], day[z]
    n1, n2 = ops_until(st, M["q"]) - ops_until(st, A["q"]), ops_until(st, Z["q"]) - ops_until(st, M["q"])
    if st.scn["mode"] == "file":
        # the periodic synchronisation is not in the history
        per = sum((sec(b) - sec(x)) // scn["procs"]["a"]["opts"]["sync_internal"] for x, b in scn["procs"]["a"]["opts"]["sync_period"])
        n1, n2 = n1 + (m - a) * per, n2 + (z - m) * per
    st.n_ops = n1 + n2
    if min(n1, n2) >= ENOUGH / 2:
        for k, unit, rate in (("mem", "objects", 0.3), ("handles", "active timers and handles", None), ("threads", "threads", None),
                              ("fds", "open files", None)):
            g1, g2 = M[k] - A[k], Z[k] - M[k]
            # what belongs to the orders and positions of the day varies; a leak grows every single day
            lim1, lim2 = (max(80, rate * n1), max(80, rate * n2)) if rate else (2, 2)
            steady = rate is None or all(day[y][k] > day[x][k] for x, y in zip(ds[1:], ds[2:]))
            if g1 >= lim1 and g2 >= lim2 and steady:
                V.append(("S08", k, "after %d, %d and %d days the process holds %d, %d and %d %s%s (%d and %d operations between)" % (
                    a + 1, m + 1, z + 1, A[k], M[k], Z[k], unit, " (%s)" % ", ".join(Z["names"]) if k == "fds" else "", n1, n2)))
    # a record per day and what belongs to it
    g = Z["files"] - A["files"]
    if g > 2 * (z - a) + 4:
        V.append(("S08", "files", "%d files were left behind in the runtime directory within %d days" % (g, z - a)))
    return V


def sec(t):
    h, m, s = [int(x) for x in t.split(":")]
    return h * 3600 + m * 60 + s


def nontrivial(st):
    return len(st.looks) >= 15 and getattr(st, "n_ops", 0) >= ENOUGH
