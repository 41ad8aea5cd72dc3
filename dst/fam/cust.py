"""A user-supplied trade gate behind the account: A10 (timetable), A11 (failures), S02 (ties with synchronisation), A12."""
import datetime as dt
import random

from .. import kernel as K
from ..hook import EXCS
from ..stage import Stage, wall_dt, wall_ns, dt_ns, SEC, MS
from .sched import hms, to_sec, occurrences

PROPS = ("A10", "A11", "S02", "A12", "A14")

GATE_SRC = '''# generated trade gate
import vh_hook
from jqtrade.account.trade_gate import AbsTradeGate
H = vh_hook.H


class Gate(AbsTradeGate):
    def setup(self, options):
        return H.gate("setup", options)

    def order(self, sys_order):
        return H.gate("order", sys_order)

    def cancel_order(self, order_id):
        return H.gate("cancel", order_id)

    def sync_balance(self):
        return H.gate("syncb", None)

    def sync_orders(self):
        return H.gate("synco", None)
'''

CODES = ["000001.XSHE", "600000.XSHG", "300750.XSHE", "688981.XSHG"]
RAISES = [x for x in EXCS if x != "BadStr"]
MAL_B = ["none", "list", "empty", "nocash", "nopos", "cash_none", "cash_no_total", "cash_no_avail", "cash_no_locked",
         "cash_str", "cash_null", "pos_none", "pos_no_code", "pos_no_amount", "pos_no_avail", "pos_no_cost", "pos_null",
         "pos_str", "pos_not_dict", "pos_bad_side", "pos_lazy", "int", "str"]
MAL_O = ["none", "int", "str", "dict", "no_id", "no_code", "no_price", "no_amount", "no_action", "no_status", "no_style",
         "bad_status", "bad_action", "bad_style", "bad_time", "not_dict", "lazy", "null_status", "null_action"]
MAYBE_O = ["no_ctime"]


# ---- generation --------------------------------------------------------------------------------------------------

def gen(r, prof="mal"):
    scn = {"fam": "cust", "mode": prof, "max_steps": 150000, "seed": r.getrandbits(40)}
    day = dt.date(2023, 1, 1) + dt.timedelta(days=r.randrange(900))
    start = r.choice([9 * 3600 + 1700, 9 * 3600 + 1795, 14 * 3600 + 3500, 100, 86400 - 20, 86400 - 2, r.randrange(86400)])
    scn["wall0"] = "%s %s.%03d" % (day.isoformat(), hms(start), r.choice([0, 999, r.randrange(1000)]))
    scn["cost"] = r.choice([[2000, 40000], [20000, 400000]])
    opts = {"account_no": "1001", "runtime_dir": "RUN"}
    conf = {}
    if prof == "sync":
        days = r.choice([0, 0, 1, 2, 3])
        T = days * 86400 + r.choice([30, 120, 400])
        budget = r.choice([300, 900, 1600])
        ival = r.choice([1, 1.5, 2, 2.5, 5, 5, 7, 10, 30, 60, 61, 600, 3600, 0.5, 0.7, 5.25])
        k = r.random()
        if k < 0.35:
            # around the clock: one period is a full day, so bound the number of points in it
            ival = r.choice([60, 61, 90.5, 333, 600, 3600, 7000])
            while T / ival > budget:
                ival *= 2
            period = r.choice([[], [], None, "absent"])
        else:
            period = []
            for _ in range(r.choice([1, 1, 2, 3])):
                a = (start + r.choice([-40, -5, 0, 1, 5, 20, 60, 3600])) % 86400
                ln = r.choice([0, 1, 5, 30, 90, 600])
                while (ln / ival) * (days + 1) > budget:
                    ln //= 2
                b = min(a + ln, 86399)
                period.append([hms(a), hms(b)])
            # disjoint or meeting at their ends, in any order
            period.sort()
            out = []
            for a, b in period:
                if not out or to_sec(a) > to_sec(out[-1][1]):
                    out.append([a, b])
            period = out
            if out and r.random() < 0.25:
                # the next window begins where the last one ends
                a = to_sec(out[-1][1])
                b = min(a + min(r.choice([0, 5, 30]), to_sec(out[-1][1]) - to_sec(out[-1][0])), 86399)
                period.append([hms(a), hms(b)])
            if r.random() < 0.3:
                r.shuffle(period)
        put(r, opts, conf, "sync_internal", ival, r.random() < 0.06 and ival >= 5)
        if period != "absent":
            put(r, opts, conf, "sync_period", period)
        for s in ("sync_balance", "sync_order"):
            if r.random() < 0.5:
                put(r, opts, conf, s, r.random() < 0.6)
    else:
        T = r.choice([15, 40, 90])
        days = 0
        if prof == "tie":
            T = r.choice([65, 130])
        b = (start + T + 3) % 86400
        ival = r.choice([1, 2, 5, 10])
        if b < start:
            period = [[hms(start), "23:59:59"], ["00:00:00", hms(b)]]
        else:
            period = [[hms(start), hms(b)]]
        if prof == "tie" and ival > 2:
            # make the timetable meet whole minutes
            period[0][0] = hms(start - start % 60)
        opts["sync_internal"] = ival
        opts["sync_period"] = period
        opts["sync_balance"] = r.random() < 0.75
        opts["sync_order"] = r.random() < 0.75
        if prof == "tie":
            opts["sync_balance"] = opts["sync_balance"] or not opts["sync_order"]
    n = [0]

    def order(base):
        n[0] += 1
        d = {"ref": "o%d" % n[0], "code": r.choice(CODES), "amount": r.choice([1, -1]) * (n[0] * 7 + r.choice([1, 100]))}
        if r.random() < 0.5:
            d["style"] = r.choice([["l", 9.5], ["m"]])
        if r.random() < 0.4:
            d["side"] = r.choice(["long", "short"])
        return d

    def acts(m):
        out = []
        for _ in range(m):
            k = r.random()
            if k < 0.14:
                out.append(["syncb"])
            elif k < 0.28:
                out.append(["synco"])
            elif k < 0.36:
                out.append(["port"])
            elif k < 0.42:
                out.append(["query"])
            elif k < 0.5:
                out.append(["sleep", round(r.random() ** 2 * 3, 3)])
            elif k < 0.78:
                d = order(0)
                out.append(["order", d["ref"], d["code"], d["amount"], d.get("style"), d.get("side", "long")])
                if r.random() < 0.4:
                    out.append(["port"])
            elif k < 0.88:
                out.append(["batch", "b%d" % n[0], [order(0) for _ in range(r.choice([1, 2, 4]))]])
            elif k < 0.89:
                out.append(["cancel", "raw:%d" % r.randrange(10 ** 9, 2 * 10 ** 9)])
            elif k < 0.95 and n[0]:
                out.append(["cancel", "o%d" % r.randrange(1, n[0] + 1)])
            elif n[0]:
                out.append(["bcancel", ["o%d" % r.randrange(1, n[0] + 1) for _ in range(r.choice([1, 2, 3]))]])
        return out
    tasks = []
    nt = r.choice([1, 2, 4]) if prof == "sync" else r.choice([2, 4, 7])
    for _ in range(nt):
        at = (start + 2 + r.randrange(max(1, min(T, 300)))) % 86400
        if prof == "tie" and r.random() < 0.7:
            at -= at % r.choice([5, 10, 60, 60])
        if prof == "sync":
            a = [["dur", [r.choice([0, 0, 0.2, 1.5])]]]
        else:
            a = acts(r.choice([1, 2, 4, 7]))
            if r.random() < 0.1:
                a = [["hold"], ["recheck"]] + a
        tasks.append({"time": hms(at), "acts": a})
    if prof == "tie":
        for _ in range(r.choice([1, 1, 2])):
            tasks.append({"time": "every_minute", "acts": r.choice([[], [["sleep", 0.5]], [["sleep", 61.5]], acts(1)])})
        mp = [[hms(start - start % 60), hms(min(start - start % 60 + 180, 86399))]]
        if r.random() < 0.5:
            opts["market_period"] = mp
        else:
            conf["SCHEDULER_MARKET_PERIOD"] = mp
        r.shuffle(tasks)
    spec = {"opts": opts, "tasks": tasks, "pre": acts(2) if r.random() < 0.2 and prof == "mal" else [], "watch_pos": True, "log_out": prof == "mal",
            "files": {"vc_gate.py": GATE_SRC}}
    # a configuration file always names the gate
    lines = ["import datetime", "ACCOUNT_TRADE_GATE = 'vc_gate.Gate'"]
    for k, v in sorted(conf.items()):
        if k.endswith("PERIOD"):
            v = "[" + ", ".join("(datetime.time(%d, %d, %d), datetime.time(%d, %d, %d))" % (
                tuple(int(x) for x in a.split(":")) + tuple(int(x) for x in b.split(":"))) for a, b in v or []) + "]"
        else:
            v = repr(v)
        lines.append("%s = %s" % (k, v))
    r.shuffle(lines[1:])
    spec["config"] = "\n".join(lines) + "\n"
    spec["conf"] = conf
    if r.random() < 0.3:
        spec["cwd"] = ["code"] if r.random() < 0.5 else [""]
        spec["config_rel"] = r.random() < 0.7
        if r.random() < 0.6:
            spec["cd0"] = "run"
    scn["procs"] = {"a": spec}
    scn["events"] = [{"t": round(0.2 + r.random(), 3), "do": "start", "p": "a", "keep": True}]
    g = {"seed": r.getrandbits(30), "calls": {}, "orders": r.choice([0, 2, 5]), "absent": r.choice([0, 0.3, 0.8]),
         "cached": r.random() < 0.35, "short": r.choice([0, 0.3, 0.7]), "zero": r.choice([0, 0.3]), "foreign": r.choice([0, 0, 2])}
    fail = {"sync": r.choice([0, 0, 0, 0.3]), "tie": 0.1, "mal": r.choice([0.15, 0.4, 0.8])}[prof]
    for name in ("order", "cancel", "syncb", "synco"):
        lst = []
        for _ in range(r.choice([5, 11, 17])):
            if r.random() < fail:
                k = r.random()
                if k < 0.4 or name in ("order", "cancel"):
                    lst.append(["raise", r.choice(RAISES)])
                else:
                    lst.append(["mal", r.choice(MAL_B if name == "syncb" else MAL_O + MAYBE_O), r.random()])
            elif r.random() < (0.1 if prof != "tie" else 0.25):
                lst.append(["slow", r.choice([0.01, 0.3, 1.2, 3.0]) if prof != "sync" else r.choice([0.01, 0.1, 0.5])])
            else:
                lst.append(["ok"])
        g["calls"][name] = lst
    scn["gate"] = g
    scn["clock"] = {}
    if r.random() < 0.2 and not days:
        scn["clock"]["drift"] = r.choice([-200, 200])
    scn["end"] = float(T + (20 if prof == "sync" else 90 if prof == "tie" else 30))
    if prof == "tie":
        scn["end"] += 62.0 * 6
    return scn


def put(r, opts, conf, key, val, both=False):
    """A setting goes into the options, into the configuration file, or into both (the options win)."""
    ck = "ACCOUNT_" + key.upper()
    k = r.random()
    if key == "sync_period" and val is None:
        opts[key] = val
    elif k < 0.5:
        opts[key] = val
    elif k < 0.85:
        conf[ck] = val
    else:
        opts[key] = val
        conf[ck] = {"sync_internal": 11, "sync_period": [["05:00:00", "05:00:10"]], "sync_balance": not val,
                    "sync_order": not val}[key]


# ---- the trade gate's world --------------------------------------------------------------------------------------

class GateSim(object):
    def __init__(self, st, cfg):
        self.st, self.w, self.cfg = st, st.w, cfg
        self.r = random.Random("gate/%s" % cfg["seed"])
        self.calls = {}
        self.n = 0
        self.book = {}       # order id -> record as returned
        self.last_b = None
        for i in range(cfg["foreign"]):
            self.add("7700%d" % i, {"code": self.r.choice(CODES), "price": 5.5, "amount": 10 + i, "action": "open",
                                    "style": "limit"})

    def add(self, oid, d):
        self.book[oid] = dict(d, order_id=oid, status="new", create_time=wall_dt(self.w.wall()).replace(microsecond=0))

    def call(self, hook, name, arg):
        w = self.w
        k = self.calls.get(name, 0)
        if name != "setup":
            self.calls[name] = k + 1
        beh = ["ok"] if name == "setup" else self.cfg["calls"][name][k % len(self.cfg["calls"][name])]
        g = hook.g
        sdt = None
        if g is not None and "context" in g:
            sdt = g["context"].strategy_dt
            sdt = str(sdt) if sdt is not None else None
        rec = dict(n=name, beh=beh, sdt=sdt, depth=hook.depth, boot=hook.in_call == "set_options", cur=hook.cur if hook.depth else None)
        if name == "order":
            o = arg
            rec["o"] = {"id": o.order_id, "code": o.code, "amount": o.amount, "action": o.action.value, "side": o.side.value,
                        "price": o.price, "style": o.style.value}
        elif name == "cancel":
            rec["o"] = arg
        hook.L("gcall", **rec)
        if beh[0] == "raise":
            self.w.fault("gate_%s_raises" % name)
            hook.L("gret", n=name, out="raise", exc=beh[1])
            raise EXCS[beh[1]]("gate failure %d" % k)
        if beh[0] == "slow":
            self.w.fault("gate_slow")
            hook.a_sleep(None, beh[1])
        out = view = sig = None
        kind = "ok"
        if name == "order":
            self.add(arg.order_id, {"code": arg.code, "price": arg.price, "amount": arg.amount, "action": arg.action.value,
                                    "style": arg.style.value, "side": arg.side.value})
        elif name == "syncb":
            out, view = self.balance()
            if beh[0] == "mal":
                kind = "bad"
                self.w.fault("gate_malformed_" + name)
                out = mal_balance(out, beh[1], beh[2])
        elif name == "synco":
            out, view = self.orders()
            sig = {o["order_id"]: repr(sorted(o.items(), key=lambda x: x[0])) for o in out}
            if beh[0] == "mal":
                self.w.fault("gate_malformed_" + name)
                kind = "maybe" if beh[1] in MAYBE_O else "bad"
                if not out and beh[1] not in ("none", "int", "str", "dict"):
                    beh = ["mal", "none", 0]
                    kind = "bad"
                out = mal_orders(out, beh[1], beh[2])
        hook.L("gret", n=name, out=kind, view=view, sig=sig)
        return out

    def balance(self):
        r, cfg = self.r, self.cfg
        if cfg["cached"] and self.last_b is not None and r.random() < 0.5:
            return self.last_b
        self.n += 1
        n = self.n
        cash = [1000 * n + 0.5, 100 * n, n]
        if r.random() < 0.1:
            cash = [n, 0, 0]
        pos, view = [], {}
        for c in CODES:
            for side in ("long", "short"):
                if r.random() > (0.7 if side == "long" else cfg["short"]):
                    continue
                amt = 0 if r.random() < cfg["zero"] else n * 10 + r.choice([100, 1000])
                av = r.choice([0, amt, amt // 2])
                p = {"code": c, "amount": amt, "available_amount": av, "avg_cost": 10 + n / 1000.0}
                if side == "short" or r.random() > cfg["absent"]:
                    p["side"] = side
                if r.random() >= cfg["absent"]:
                    p["last_price"] = 11 + n / 1000.0
                if r.random() >= cfg["absent"]:
                    p["position_value"] = amt * 11.0
                pos.append(p)
                view[side + ":" + c] = [amt, av, p["avg_cost"], p.get("last_price", "?"), p.get("position_value", "?"), side]
        r.shuffle(pos)
        out = {"cash": {"total_assert": cash[0], "available_cash": cash[1], "locked_cash": cash[2]}, "positions": pos}
        self.last_b = (out, {"cash": cash, "pos": view})
        return self.last_b

    def orders(self):
        r = self.r
        for oid, o in sorted(self.book.items()):
            if r.random() < 0.5:
                st = o["status"]
                # what happens between two queries is not seen: states may be skipped
                nx = {"new": ["open", "open", "rejected", "filling", "filled", "canceling", "canceled"],
                      "open": ["filling", "filled", "canceling", "rejected", "canceled", "partly_canceled"],
                      "filling": ["filling", "filled", "partly_canceled", "canceling"],
                      "canceling": ["canceled", "filled", "rejected", "partly_canceled", "filling", "open"]}.get(st)
                if nx:
                    o["status"] = r.choice(nx)
                    for f, v in (("filled_amount", r.randrange(o["amount"] + 1)), ("canceled_amount", r.randrange(9)),
                                 ("deal_balance", 1.5), ("avg_cost", 9.25), ("confirm_id", "c" + oid), ("err_msg", "e"),
                                 ("entrust_time", wall_dt(self.w.wall()).replace(microsecond=0))):
                        if r.random() >= self.cfg["absent"]:
                            o[f] = v
        # some gates hand out their own records
        res = list(self.book.values()) if self.cfg["cached"] else [dict(o) for o in self.book.values()]
        view = {}
        for o in res:
            v = {}
            for a, b in (("order_id", "order_id"), ("code", "code"), ("amount", "amount"), ("action", "action"), ("side", "side"),
                         ("status", "status"), ("price", "order_price"), ("filled_amount", "filled_amount"),
                         ("canceled_amount", "canceled_amount"), ("deal_balance", "deal_balance"), ("avg_cost", "avg_price"),
                         ("err_msg", "err_msg")):
                if a in o:
                    v[b] = o[a]
            v["style"] = {"market": "MarketOrderStyle", "limit": "LimitOrderStyle"}[o["style"]]
            for t in ("create_time", "entrust_time"):
                if t in o:
                    v[t] = str(o[t])
            view[o["order_id"]] = v
        return res, view


class Lazy(object):
    """A result that fails while it is being read."""
    def __init__(self, items, n):
        self.items, self.n = items, n

    def __iter__(self):
        for i, x in enumerate(self.items):
            if i == self.n:
                break
            yield x
        raise ConnectionError("connection lost")


def deep(x):
    if isinstance(x, dict):
        return {k: deep(v) for k, v in x.items()}
    if isinstance(x, list):
        return [deep(v) for v in x]
    return x


def mal_balance(out, how, u):
    o = deep(out)
    if how in ("none", "list", "empty", "int", "str"):
        return {"none": None, "list": [], "empty": {}, "int": -1, "str": "error: cash and positions unavailable"}[how]
    if how == "nocash":
        del o["cash"]
    elif how == "nopos":
        del o["positions"]
    elif how == "cash_none":
        o["cash"] = None
    elif how.startswith("cash_no_"):
        del o["cash"][{"total": "total_assert", "avail": "available_cash", "locked": "locked_cash"}[how[8:]]]
    elif how == "cash_str":
        o["cash"][sorted(o["cash"])[int(u * 3)]] = "n/a"
    elif how == "cash_null":
        o["cash"][sorted(o["cash"])[int(u * 3)]] = None
    elif how == "pos_none":
        o["positions"] = None
    elif how == "pos_lazy":
        o["positions"] = Lazy(o["positions"], int(u * (len(o["positions"]) + 1)))
    else:
        ps = o["positions"]
        if not ps:
            ps.append({"code": CODES[0], "amount": 5, "available_amount": 5, "avg_cost": 1.0})
        i = int(u * len(ps))
        p = ps[i]
        f = {"code": "code", "amount": "amount", "avail": "available_amount", "cost": "avg_cost"}
        if how.startswith("pos_no_"):
            if how == "pos_not_dict":
                pass
            else:
                del p[f[how[7:]]]
        if how == "pos_not_dict":
            ps[i] = 7
        elif how == "pos_null":
            p[["amount", "available_amount", "avg_cost"][int(u * 1000) % 3]] = None
        elif how == "pos_str":
            p[["amount", "available_amount", "avg_cost"][int(u * 1000) % 3]] = "n/a"
        elif how == "pos_bad_side":
            p["side"] = "both"
    return o


def mal_orders(out, how, u):
    o = deep(out)
    if how in ("none", "int", "str", "dict"):
        return {"none": None, "int": -1, "str": "error", "dict": {"error": 5}}[how]
    i = int(u * len(o))
    if how == "lazy":
        return Lazy(o, int(u * (len(o) + 1)))
    if how == "not_dict":
        o[i] = 7
    elif how == "no_ctime":
        del o[i]["create_time"]
    elif how.startswith("no_"):
        del o[i][{"id": "order_id"}.get(how[3:], how[3:])]
    elif how.startswith("bad_"):
        o[i][{"time": "create_time"}.get(how[4:], how[4:])] = "whatever"
    elif how.startswith("null_"):
        o[i][how[5:]] = None
    return o


def build(scn, keep_trace=False):
    st = Stage(scn, keep_trace)
    st.gatesim = GateSim(st, scn["gate"])
    return st


# ---- judging -----------------------------------------------------------------------------------------------------

def setting(spec, key, default):
    if key in spec["opts"]:
        return spec["opts"][key]
    return spec["conf"].get("ACCOUNT_" + key.upper(), default)


def check(st):
    V, seen = [], set()

    def bad(prop, code, msg):
        for prop in prop.split():
            if (prop, code) not in seen:
                seen.add((prop, code))
                V.append((prop, code, msg))
    w, scn = st.w, st.scn
    H = w.history
    spec = scn["procs"]["a"]
    proc = st.procs["a"][0]
    if w.abort_reason:
        bad("A10" if scn["mode"] == "sync" else "A11", "endless", "the process spins (%s) in %s" % (w.abort_reason, w.abort_where))
        return V
    inited = next((e for e in H if e["k"] == "inited"), None)
    exit_ = next((e for e in H if e["k"] == "exit"), None)
    if exit_ is not None or inited is None:
        what = "A10" if scn["mode"] == "sync" and not any(e["k"] == "gret" and e["out"] != "ok" for e in H) else "A11"
        bad(what, "died", "the strategy ended: %s" % proc.stderr.text()[-600:])
        return V
    judge_state(w, H, bad)
    if spec.get("log_out"):
        judge_log(w, H, bad)
    judge_order(w, H, spec, bad)
    judge_tasks(st, w, H, spec, bad)
    judge_timetable(st, w, H, spec, bad)
    return V


def busy_end(H):
    """for every history index: the latest end of earlier work (tasks, gate calls)"""


def judge_tasks(st, w, H, spec, bad):
    """Every due task ran exactly once, promptly after earlier work: whatever the gate does."""
    start = next(e for e in H if e["k"] == "start")
    lrun = next((e for e in H if e["k"] == "loop_run"), None)
    if lrun is None:
        bad("A10" if st.scn["mode"] == "sync" else "A11", "no-loop", "the event loop never ran")
        return
    sp = dict(spec, opts=dict(spec["opts"]))
    if "market_period" not in sp["opts"] and "SCHEDULER_MARKET_PERIOD" in spec["conf"]:
        sp["opts"]["market_period"] = spec["conf"]["SCHEDULER_MARKET_PERIOD"]
    runs = [e for e in H if e["k"] == "task"]
    ends = [e for e in H if e["k"] == "task_end"]
    if any(e["k"] == "task_exc" for e in H):
        bad("A11", "leaked", "a failure of the trade gate reached the strategy's task")
        return
    if len(runs) > len(ends):
        return
    fin = w.wall()
    for i, t in enumerate(spec["tasks"]):
        mine = [e["sdt"] for e in runs if e["i"] == i]
        occ = occurrences(sp, t, start["w"], fin - 3 * SEC)
        must = [str(wall_dt(o)) for o in occ if o >= lrun["w"]]
        miss = [o for o in must if o not in mine]
        # a long backlog at the end may still be outstanding
        if miss and not (w.mono0 + int(st.scn["end"] * SEC) - last_work(H) < 2 * SEC):
            bad("A11", "schedule", "task %d (%s) did not run at %s" % (i, t["time"], miss[0]))
        if len(set(mine)) != len(mine):
            bad("A11", "schedule", "task %d (%s) ran twice for the same time" % (i, t["time"]))


def last_work(H):
    return max([e["t"] for e in H if e["k"] in ("task_end", "gret")] or [0])


def judge_order(w, H, spec, bad):
    """S02: synchronisation, every-minute tasks, other tasks begin in the order of scheduled time and priority."""
    prev = None
    ready = False
    for e in H:
        if e["k"] == "loop_run":
            ready = True
        if not ready:
            continue
        if e["k"] == "gcall" and e["depth"] == 0:
            key, what = (e["sdt"] or "", 0), "synchronisation"
        elif e["k"] == "task":
            em = spec["tasks"][e["i"]]["time"] == "every_minute"
            key, what = (e["sdt"] or "", 1 if em else 2), "task %d" % e["i"]
        else:
            continue
        if prev is not None and key < prev[0]:
            bad("S02", "sync-order", "%s of %s began after %s of %s" % (what, key[0], prev[1], prev[0][0]))
            return
        prev = (key, what)


def judge_timetable(st, w, H, spec, bad):
    ival = float(setting(spec, "sync_internal", 5))
    period = setting(spec, "sync_period", [])
    up = int(-(-ival // 1)) * SEC
    lrun = next((e for e in H if e["k"] == "loop_run"), None)
    start = next(e for e in H if e["k"] == "start")
    fin = w.wall()
    drift = abs(st.scn["clock"].get("drift", 0))
    # latest end of earlier work, to judge lateness
    for kind, key in (("syncb", "sync_balance"), ("synco", "sync_order")):
        on = bool(setting(spec, key, True))
        boot = [e for e in H if e["k"] == "gcall" and e["n"] == kind and e["boot"]]
        auto = [e for e in H if e["k"] == "gcall" and e["n"] == kind and e["depth"] == 0 and not e["boot"] and
                lrun is not None and e["q"] > lrun["q"]]
        if not on:
            if boot or auto:
                bad("A10", "switched-off", "%s was called although it is switched off" % kind)
            continue
        if len(boot) != 1:
            bad("A10", "at-start", "%s was called %d times during start-up" % (kind, len(boot)))
        if lrun is None:
            return
        prev_end = {}
        busy, ends = lrun["t"], None
        sd = []
        for e in H:
            if e["q"] <= lrun["q"]:
                continue
            if e["k"] in ("task_end", "gret"):
                busy = e["t"]
            if e["k"] == "gcall" and e["n"] == kind and e["depth"] == 0:
                if e["sdt"] is None:
                    bad("A10", "no-time", "%s was called without a scheduled time" % kind)
                    return
                s = dt_ns(parse(e["sdt"]))
                if e["w"] + 2 * MS < s:
                    bad("A10", "early", "%s scheduled for %s was called at %s" % (kind, e["sdt"], wall_dt(e["w"])))
                free = max(busy, e["t"] - max(0, e["w"] - s))
                if e["t"] - free > SEC + (e["t"] - busy) * drift // 1000000 + 60 * st.scn["cost"][1]:
                    bad("A10", "late", "%s scheduled for %s was called at %s" % (kind, e["sdt"], wall_dt(e["w"])))
                sd.append(s)
        if len(set(sd)) < len(sd):
            twice = [s for s in sd if sd.count(s) > 1][0]
            bad("A10", "twice", "%s was called %d times for %s (interval %s, windows %s)" % (
                kind, sd.count(twice), wall_dt(twice), ival, period))
        day = wall_dt(start["w"]).date() - dt.timedelta(days=1)
        last = wall_dt(fin).date()
        wins = []
        if not period:
            wins.append((start["w"] - SEC, fin + SEC))
        else:
            while day <= last:
                b = dt_ns(dt.datetime(day.year, day.month, day.day))
                for x, y in period:
                    wins.append((b + to_sec(x) * SEC, b + to_sec(y) * SEC))
                day += dt.timedelta(days=1)
        wins.sort()
        for s in sd:
            if not any(a <= s <= b for a, b in wins):
                bad("A10", "outside", "%s was scheduled for %s, outside every window %s" % (kind, wall_dt(s), period))
                break
        # a backlog may be outstanding at the end
        horizon = fin - 3 * SEC
        pend = [e for e in H if e["k"] in ("task", "gcall")]
        if pend and w.now - last_work(H) < 2 * SEC and pend[-1]["w"] > dt_ns(parse(pend[-1]["sdt"])) + SEC if pend and pend[-1]["sdt"] else False:
            horizon = min(horizon, dt_ns(parse(pend[-1]["sdt"])) - SEC)
        for a, b in wins:
            lo = max(a, lrun["w"])
            hi = min(b, horizon)
            inside = [s for s in sd if a <= s <= b]
            pts = [lo] + [s for s in inside if lo <= s <= hi] + [hi]
            if hi < lo:
                continue
            for x, y in zip(pts, pts[1:]):
                if y - x > up:
                    bad("A10", "gap", "no %s between %s and %s (interval %s, windows %s)" % (
                        kind, wall_dt(x), wall_dt(y), ival, period))
                    break
            w.probe("window_checked")
            if not period:
                n, span = len(inside), (min(fin, b) - max(a, start["w"])) / 1e9
                n_days = span / 86400 + 1
                if n > span / ival + 2 + n_days:
                    bad("A10", "too-often", "%d calls of %s in %.0f seconds (interval %s)" % (n, kind, span, ival))
            elif len(inside) > (b - a) / 1e9 / ival + 2:
                bad("A10", "too-often", "%d calls of %s between %s and %s (interval %s)" % (
                    len(inside), kind, wall_dt(a), wall_dt(b), ival))


def parse(s):
    return dt.datetime.strptime(s, "%Y-%m-%d %H:%M:%S.%f" if "." in s else "%Y-%m-%d %H:%M:%S")


def same_view(have, want):
    return all(have.get(k) == v for k, v in want.items())


def same_pos(have, want):
    if set(have) != set(want):
        return False
    return all(x == y or y == "?" for k in have for x, y in zip(have[k], want[k]))


def judge_state(w, H, bad):
    """The account shown is the model: every valid result taken as a whole, every failed or malformed one ignored."""
    cash, pos = [0, 0, 0], {}
    orders = {}                   # id -> expected fields
    maybe = None                  # orders as they would be if an undecided result was taken
    pend = None
    gcalls = []
    depth0 = None
    for e in H:
        k = e["k"]
        if k == "gret" and e["n"] == "syncb" and e["out"] == "ok":
            cash = list(e["view"]["cash"])
            pos = {c: list(p) for c, p in e["view"]["pos"].items()}
            w.probe("good_balance")
        elif k == "gret" and e["n"] == "synco" and e["out"] in ("ok", "maybe"):
            new = dict(orders)
            for oid, v in e["view"].items():
                new[oid] = v
            if e["out"] == "ok":
                orders, maybe = new, None if maybe is None else dict(maybe, **e["view"])
                w.probe("good_orders")
            else:
                new = {oid: {f: x for f, x in v.items() if f != "create_time"} for oid, v in new.items()}
                maybe = new
        elif k in ("syncb_ret", "synco_ret"):
            if e["exc"]:
                bad("A11", "raised", "%s raised %s" % (k[:-4], e["exc"]))
        elif k == "gcall" and e["n"] in ("order", "cancel"):
            gcalls.append(e)
        elif k == "port":
            if e["exc"]:
                bad("A11", "query", "reading the portfolio failed: %s" % e["exc"])
            else:
                if e["cash"] != cash or not same_pos(e["pos"], pos):
                    # only what can be sold differs
                    sell = e["cash"] == cash and same_pos({c: p[:1] + p[2:] for c, p in e["pos"].items()},
                                                          {c: p[:1] + p[2:] for c, p in pos.items()})
                    bad("A11 A12" if sell else "A11", "balance", "the account shows %s %s, the gate's last complete answer is %s %s" % (
                        e["cash"], e["pos"], cash, pos))
                    return
                pv = [p[4] for c, p in e["pos"].items() if c.startswith("long:")]
                if all(isinstance(x, (int, float)) for x in pv) and not any(c.startswith("short:") for c in pos) and \
                        abs(e["pv"] - sum(pv)) > 1e-6:
                    bad("A11", "value", "position_value is %s, the positions add up to %s" % (e["pv"], sum(pv)))
        elif k == "orders":
            if e["orders"] is None:
                bad("A11", "query", "get_orders failed: %s" % e["exc"])
                continue
            ok = set(e["orders"]) == set(orders) and all(same_view(e["orders"][i], v) for i, v in orders.items())
            if not ok and maybe is not None:
                ok = set(e["orders"]) == set(maybe) and all(same_view(e["orders"][i], v) for i, v in maybe.items())
                if ok:
                    orders, maybe = maybe, None
            if not ok:
                d = sorted(set(e["orders"]) ^ set(orders)) or [i for i in orders if not same_view(e["orders"][i], orders[i])]
                bad("A11", "orders", "order %s shown as %s, the gate's last complete answer has %s" % (
                    d[0], e["orders"].get(d[0]), orders.get(d[0])))
                return
        elif k in ("order_call", "batch_call"):
            pend, gcalls = e, []
        elif k in ("order_ret", "batch_ret"):
            if k == "order_ret":
                items = [dict(code=pend["code"], amount=pend["amount"], style=pend["style"], side=pend["side"])]
                res = [e["id"]]
            else:
                items, res = pend["items"], e["res"]
            if e["exc"] or not isinstance(res, list) or len(res) != len(items):
                bad("A11", "order-raised", "an order call ended with %s / %s" % (e["exc"], res))
                return
            if len(gcalls) != len(items):
                bad("A11", "order-calls", "%d orders reached the gate for %d requests" % (len(gcalls), len(items)))
                return
            for it, rid, g in zip(items, res, gcalls):
                o = g["o"]
                failed = g["beh"][0] == "raise"
                if failed and rid is not None:
                    bad("A11", "order-ok", "the gate refused an order, the call returned %r" % rid)
                if not failed and rid != o["id"]:
                    bad("A11", "order-id", "the gate accepted order %s, the call returned %r" % (o["id"], rid))
                side = it.get("side") or "long"
                want = dict(code=it["code"], amount=abs(it["amount"]), action="close" if it["amount"] < 0 else "open", side=side)
                if any(o[f] != v for f, v in want.items()):
                    bad("A11", "order-fields", "requested %s, the gate received %s" % (want, o))
                if failed:
                    # shown as rejected, or not at all
                    orders[o["id"]] = {"status": "rejected"}
                    if maybe is not None:
                        maybe[o["id"]] = {"status": "rejected"}
                else:
                    v = dict(want, order_id=o["id"], status="new")
                    orders[o["id"]] = v
                    if maybe is not None:
                        maybe[o["id"]] = v
                    if it["amount"] < 0:
                        p = pos.get(side + ":" + it["code"])
                        if p is not None:
                            p[1] = max(p[1] - abs(it["amount"]), 0)
                            w.probe("sell_%s" % side)
        elif k in ("cancel_call", "bcancel_call"):
            pend, gcalls = e, []
        elif k in ("cancel_ret", "bcancel_ret"):
            if e["exc"]:
                bad("A11", "cancel-raised", "%s raised %s" % (k[:-4], e["exc"]))
            want = [i for i, kn in zip(pend["ids"], pend["known"]) if kn]
            got = [g["o"] for g in gcalls if g["n"] == "cancel"]
            if want != got:
                bad("A11", "cancel-calls", "cancel requests for %s reached the gate as %s" % (want, got))
        elif k == "reheld":
            if e["view"] != e["was"]:
                bad("A12", "snapshot", "an order object changed from %s to %s" % (e["was"], e["view"]))


FINISHED = ("filled", "partly_canceled", "canceled", "rejected")
SAYS = {"open": "订单已报", "filling": "订单部分成交", "filled": "订单全部成交", "canceling": "撤单已报", "partly_canceled": "订单已撤单",
        "canceled": "订单已撤单", "rejected": "订单被废单"}
WORDS = sorted(set(SAYS.values()))


def judge_log(w, H, bad):
    """A14: what a synchronisation changed is announced, once, and every failure leaves an error entry."""
    known = {}                    # id -> fields; None: not sure what the strategy knows
    i, n = 0, len(H)

    def following(j):
        out = []
        while j < n and H[j]["k"] == "out":
            out.append(H[j]["text"])
            j += 1
        return out, j < n
    for i, e in enumerate(H):
        k = e["k"]
        if k == "gret" and e["n"] != "setup":
            outs, whole = following(i + 1)
            errs = [t for t in outs if "[ERROR]" in t or "[CRITICAL]" in t]
            if e["out"] in ("raise", "bad"):
                if not errs and whole:
                    bad("A14", "unreported", "%s failed (%s) and the log has no error entry about it" % (e["n"], e.get("exc") or e["out"]))
                else:
                    w.probe("failure_reported")
            elif errs and e["out"] == "ok":
                bad("A14", "false-error", "%s succeeded, the log says %s" % (e["n"], errs[0]))
            says = []
            for t in outs:
                for x in WORDS:
                    if x in t:
                        says.append((x, t))
            want = []
            if e["n"] == "synco" and e["out"] == "maybe":
                for oid in e["view"]:
                    known[oid] = None
            elif e["n"] == "synco" and e["out"] == "ok":
                for oid, v in sorted(e["view"].items()):
                    old = known.get(oid, "new one")
                    known[oid] = dict(v, sig=e["sig"][oid])
                    if old == "new one":
                        continue
                    mine = [s for s in says if oid in s[1]]
                    a, b = (old or {}).get("status"), v["status"]
                    word = SAYS.get(b)
                    amount = v.get("filled_amount", 0)
                    need = word is not None and a is not None and a not in FINISHED and (
                        a != b and (b != "open" or a == "new") or
                        b == "filling" == a and amount != old.get("filled_amount", 0))
                    may = need or a is None or word is not None and a not in FINISHED and (
                        a != b or b == "filling" and old.get("sig") != e["sig"][oid])
                    if len(mine) > 1 or mine and not may:
                        bad("A14", "twice" if len(mine) > 1 else "unfounded", "order %s went from %s to %s, the log says %s" % (
                            oid, old, v, [t for x, t in mine]))
                    elif need and not mine and whole:
                        bad("A14", "unannounced", "order %s went from %s to %s and the log does not say so: %s" % (oid, a, b, outs))
                    elif mine and mine[0][0] != word:
                        bad("A14", "wrong-word", "order %s went from %s to %s, the log says %s" % (oid, a, b, mine[0][1]))
                    elif mine and b in ("filling", "filled") and "已成数量：%s" % amount not in mine[0][1]:
                        bad("A14", "wrong-fill", "order %s has %s filled, the log says %s" % (oid, amount, mine[0][1]))
                    if need and mine:
                        w.probe("announced_" + b)
                    says = [s for s in says if s not in mine]
            if says and e["out"] != "maybe":
                bad("A14", "unfounded", "the log announces %s after %s (%s)" % (says[0][1], e["n"], e["out"]))
        elif k == "gcall" and e["n"] == "order":
            known[e["o"]["id"]] = {"status": "new"} if e["beh"][0] != "raise" else {"status": "rejected"}
        elif k in ("cancel_ret", "bcancel_ret"):
            call = next(x for x in reversed(H[:i]) if x["k"] == k[:-3] + "call")
            miss = sum(1 for x in call["known"] if not x)
            errs = [x for x in H[:i] if x["k"] == "out" and x["q"] > call["q"] and ("[ERROR]" in x["text"] or "[CRITICAL]" in x["text"])]
            if len(errs) < miss:
                bad("A14", "unreported", "cancelling %s (known: %s) left %d error entries" % (call["ids"], call["known"], len(errs)))
            elif miss:
                w.probe("unknown_cancel_reported")


def nontrivial(st):
    return any(e["k"] == "gret" for e in st.w.history)
