"""The built-in trade gate against a simulated broker terminal: A01-A05, A07-A09, A12."""
import datetime as dt
import os
import re

from .. import kernel as K
from .. import simfs
from ..broker import Broker, same, FINAL
from ..stage import Stage, wall_dt, dt_ns, day_str, SEC, MS
from .sched import hms, to_sec

PROPS = ("A01", "A02", "A03", "A04", "A05", "A07", "A08", "A09", "A12", "A14")

HEADER = ["updTime", "custBatchNo", "acctType", "acct", "symbol", "tradeSide", "targetQty", "algoId", "priceType", "ticks",
          "highLimitPrice", "lowLimitPrice"]
CHEADER = ["updTime", "custBatchNo"]
CODES = ["000001.XSHE", "600000.XSHG", "300750.XSHE", "688981.XSHG", "002594.XSHE"]
LIVE = ("new", "open", "filling", "canceling")
CALLS = ("order", "batch", "cancel")


# ---- generation --------------------------------------------------------------------------------------------------

def gen(r, prof="mix"):
    mode = prof
    if prof == "mix":
        mode = r.choice(["order", "share", "kill", "stream", "bad", "midnight", "cancel", "lock"])
    G = Gen(r, mode)
    return G.make()


class Gen(object):
    def __init__(self, r, mode):
        self.r = r
        self.mode = mode
        self.qty = 100
        self.ref = 0

    def price(self):
        r, k = self.r, self.r.random()
        if k < 0.7:
            return round(5 + r.randrange(4000) / 100.0, 2)
        if k < 0.9:
            return round(0.5 + r.randrange(40000) / 1000.0, 3)
        return r.choice([7, 0, 0, 250, 3.14159, 1799.995, 12345678.125, 0.001, 1 / 3])

    def order(self, valid=None):
        r = self.r
        self.qty += r.choice([1, 1, 7, 100])
        self.ref += 1
        it = {"ref": "o%d" % self.ref, "code": r.choice(CODES), "amount": r.choice([1, 1, 1, -1]) * self.qty}
        k = r.random()
        if k < 0.45:
            it["style"] = ["l", self.price()]
        elif k < 0.6:
            it["style"] = ["m"]
        if r.random() < 0.15:
            it["side"] = "long"
        if valid is False or (valid is None and r.random() < 0.06):
            bad = r.choice(["code", "amount0", "amountf", "side", "short", "style", "nocode", "noamount"])
            if bad == "code":
                it["code"] = r.choice(["000001.XSH", "ABC.XSHE", "000001", "000001.SZ"])
            elif bad == "amount0":
                it["amount"] = 0
            elif bad == "amountf":
                it["amount"] = 100.5
            elif bad == "side":
                it["side"] = "up"
            elif bad == "short":
                it["side"] = "short"
            elif bad == "style":
                it["style"] = "cheap"
            elif bad == "nocode":
                it.pop("code")
            else:
                it.pop("amount")
            it["bad"] = bad
        return it

    def act_order(self):
        it = self.order()
        while it.get("bad") in ("nocode", "noamount", "style"):
            it = self.order()
        return ["order", it["ref"], it["code"], it["amount"], it.get("style"), it.get("side", "long")]

    def acts(self, w):
        """One task's actions; w: weights."""
        r = self.r
        out = []
        names = list(w)
        for _ in range(r.choice([1, 1, 2, 3, 4])):
            k = r.choices(names, [w[n] for n in names])[0]
            if k == "order":
                out.append(self.act_order())
            elif k == "batch":
                n = r.choice([1, 2, 3, 4, 5])
                out.append(["batch", "b%d" % self.ref, [self.order(None if r.random() < 0.8 else False) for _ in range(n)]])
            elif k == "cancel":
                if self.ref:
                    lo = max(1, self.ref - 6)
                    out.append(["cancel", "o%d" % r.randrange(lo, self.ref + 1)])
                    if r.random() < 0.1:
                        out.append(["cancel", "raw:%d" % r.randrange(10 ** 9)])
            elif k == "bcancel":
                if self.ref:
                    out.append(["bcancel", ["o%d" % r.randrange(1, self.ref + 1) for _ in range(r.choice([1, 2, 4]))] +
                                (["raw:424242"] if r.random() < 0.2 else [])])
            elif k == "recancel":
                # asked again while the broker still says "canceling"
                o = self.act_order()
                out += [o, ["sleep", r.choice([0.5, 1.5, 3])], ["cancel", o[1]], ["sleep", r.choice([0.3, 1, 2.5])],
                        ["synco"], ["cancel", o[1]], ["sleep", r.choice([0, 1])], ["synco"]]
            elif k == "cancel_all":
                out.append(["cancel_all", ["open", "filling", "new"]])
            elif k == "sync":
                out.append(["synco"])
            elif k == "query":
                out.append(["query"])
            elif k == "hold":
                out.append(["hold"])
            elif k == "recheck":
                out.append(["recheck"])
            elif k == "sleep":
                out.append(["sleep", round(r.random() ** 2 * 3, 3)])
        return out

    def make(self):
        r, mode = self.r, self.mode
        scn = {"fam": "gate", "mode": mode, "max_steps": 80000, "seed": r.getrandbits(40)}
        day = (dt.date(2023, 1, 1) + dt.timedelta(days=r.randrange(900))).isoformat()
        if mode == "midnight":
            start = 86400 - r.choice([3, 10, 30, 60])
        else:
            start = r.choice([9 * 3600 + 1800, 9 * 3600 + 59 * 60 + 55, 14 * 3600, 23 * 3600, 100, 8 * 3600])
        scn["wall0"] = "%s %s.%03d" % (day, hms(start), r.randrange(1000))
        scn["cost"] = r.choice([[2000, 40000], [2000, 400000], [20000, 3000000]])
        T = {"order": 20, "share": 15, "kill": 40, "stream": 40, "bad": 30, "midnight": r.choice([30, 80, 200]),
             "cancel": 30, "lock": 30}[mode]
        if mode == "midnight" and r.random() < 0.15:
            T = 86400 + 100
            scn["max_steps"] = 250000
        weights = {
            "order": {"order": 6, "batch": 3, "query": 2, "sync": 1, "cancel": 1, "sleep": 1},
            "share": {"order": 6, "batch": 3, "query": 1, "sync": 2, "cancel": 2},
            "kill": {"order": 6, "batch": 2, "query": 2, "sync": 3, "cancel": 2, "sleep": 1},
            "stream": {"order": 3, "batch": 1, "sync": 6, "sleep": 3, "query": 2, "cancel": 2, "hold": 1, "recheck": 1},
            "bad": {"order": 4, "batch": 1, "sync": 6, "sleep": 2, "cancel": 1},
            "midnight": {"order": 5, "batch": 1, "sync": 5, "query": 1, "cancel": 2, "sleep": 1},
            "cancel": {"order": 4, "batch": 3, "cancel": 5, "recancel": 1, "bcancel": 4, "cancel_all": 2, "sync": 3, "sleep": 1},
            "lock": {"order": 6, "batch": 2, "cancel": 3, "sync": 1},
        }[mode]
        enc = r.choice(["utf-8", "utf-8", "gbk"])
        nprocs = {"share": r.choice([2, 2, 3])}.get(mode, r.choice([1, 1, 1, 2]) if mode in ("kill", "lock") else 1)
        procs, events = {}, []
        together = nprocs > 1 and r.random() < 0.4
        if r.random() < 0.3:
            scn["fresh"] = True
        lock_opts = {}
        if mode == "lock" and r.random() < 0.85 or r.random() < 0.5:
            lock_opts = {"wait_lock_time_out": r.choice([0.3, 1, 2, 5]), "wait_lock_internal": r.choice([0.01, 0.05, 0.2, 0.5])}
        for n in range(nprocs):
            label = "abc"[n]
            opts = {"account_no": r.choice(["1001", 1001, "001001", "A1001x", 88001001]), "order_dir": "ORDERS", "runtime_dir": "RUN", "sync_balance": False,
                    "file_encoding": enc, "sync_retry_kwargs": {"max_attempts": 1, "attempt_internal": 0.05}}
            if enc == "utf-8" and r.random() < 0.5:
                opts.pop("file_encoding")
            opts.update(lock_opts)
            if r.random() < 0.15:
                opts["counter_type"] = r.choice(["UF0", "AT0"])
            k = r.random()
            if k < 0.4:
                opts["sync_order"] = False
            else:
                opts["sync_internal"] = r.choice([1, 2, 5, 30]) if T < 1000 else r.choice([60, 300])
                a = (start + r.choice([0, 3, 10])) % 86400
                opts["sync_period"] = [[hms(a), hms(min(a + T, 86399))]]
            if r.random() < 0.1:
                opts["ignore_error_line"] = False
            tasks = []
            pre = []
            for k in range(r.choice([1, 2, 4, 6, 8])):
                acts = self.acts(weights)
                if r.random() < 0.15:
                    pre += acts
                else:
                    x = start + 1 + r.randrange(max(2, min(T, 120)))
                    tasks.append({"time": hms(x), "acts": acts})
                    if mode == "midnight" and T > 86400:
                        tasks[-1]["time"] = hms(x)
            if mode == "midnight":
                for k in range(r.choice([1, 2, 3])):
                    tasks.append({"time": hms(r.choice([0, 1, 2, 5, r.randrange(60)])), "acts": self.acts(weights) if self.ref < 1 or r.random() < 0.7 else [
                                      ["cancel", "o%d" % r.randrange(max(1, self.ref - 6), self.ref + 1)]]})
            # settle: everything quiet, then a synchronisation with no faults
            fin = (start + T + 30) % 86400
            tasks.append({"time": hms(fin), "keep": True,
                          "acts": [["synco"], ["recheck"], ["cancel_all", list(LIVE)], ["query"]]})
            spec = {"opts": opts, "tasks": tasks, "pre": pre, "log_out": True}
            if mode == "kill" and r.random() < 0.2:
                # started with the wrong encoding first
                spec["opts0"] = {"file_encoding": "ascii"}
            if r.random() < 0.08:
                spec["rand_repeat"] = r.choice([0.2, 0.5])
            if r.random() < 0.05:
                spec["debug"] = True
            procs[label] = spec
            events.append({"t": round(0.2 + (r.random() * 2 if n and not together else 0), 3), "do": "restart", "p": label, "keep": True})
        if r.random() < 0.3:
            # names that differ in little only
            names = r.choice([["a-1", "a_1", "a.1"], ["demo", "Demo", "demo_"], ["策略一", "策略二", "策略"], ["g b", "g_b", "gb"],
                              ["x", "x.json", "x_20240304"], ["n" * 60 + "1", "n" * 60 + "2", "n" * 60 + "3"], ["1", "01", "1.0"]])
            r.shuffle(names)
            for label in procs:
                procs[label]["name"] = names["abc".index(label)]
        scn["procs"] = procs
        scn["broker"] = {"seed": r.getrandbits(30), "enc": enc, "eol": r.choice(["\n", "\n", "\r\n"]),
                         "poll": r.choice([0.05, 0.2, 1.0]) if T < 300 else 4.0,
                         "life": r.choice([0.2, 1.0, 4.0]), "until": T + 8.0, "start": 0.0,
                         "tear": {"stream": r.choice([0.0, 0.4, 0.9])}.get(mode, r.choice([0, 0, 0.3])),
                         "gap": r.choice([0.01, 0.3, 3.0]), "header": r.random() < 0.85,
                         "bad": {"bad": r.choice([0.3, 0.8])}.get(mode, 0.0),
                         "foreign": r.choice([0, 0, 0.2, 0.6]), "rows": r.choice([0, 0, 1, 5]),
                         "reject": r.choice([0.1, 0.1, 0.4]), "settle": r.choice([0, 0, 0.5]), "canceling": r.choice([0.3, 0.8]),
                         "slowcancel": r.choice([1, 1, 4]), "rawtext": r.choice([0, 0, 0.5]),
                         "files": r.choice([0, 0, 0, 3.0]), "open_delay": r.choice([0, 2.0]) if mode == "midnight" else 0}
        if mode == "midnight":
            scn["broker"]["rows"] = r.choice([0, 1, 5, 30])
        if mode in ("stream", "kill", "midnight") and r.random() < 0.08:
            scn["broker"]["burst"] = [[round(r.random() ** 2 * 8, 3), r.choice([300, 1500, 4000])] for _ in range(r.choice([1, 1, 2]))]
        faults = []
        quiet = T + 12.0
        if mode in ("order", "cancel", "midnight") and r.random() < 0.7 or r.random() < 0.15:
            for _ in range(r.choice([1, 1, 2, 3])):
                faults += self.iofault(quiet)
        if mode in ("bad", "stream") and r.random() < 0.4:
            faults.append({"op": [r.choice(["read", "read", "open"])], "cls": [r.choice(["update", "result"])],
                           "n": r.randrange(1, 8), "do": r.choice(["EIO", "EIO", "short", "EACCES"]),
                           "times": r.choice([1, 1, 3, 10 ** 6]), "until": quiet})
            if faults[-1]["op"] == ["open"] and faults[-1]["do"] == "short":
                faults[-1]["do"] = "EIO"
        if mode in ("share", "lock") and r.random() < 0.8:
            for _ in range(r.choice([1, 2, 4])):
                faults.append({"op": [r.choice(["open", "flock", "write", "unlock", "sleep", "fsync", "rename"])],
                               "in": list(CALLS), "n": r.randrange(1, 12), "do": "stall",
                               "s": round(r.random() ** 2 * 2.5, 3), "until": quiet})
        if mode == "kill" or (mode in ("share", "midnight") and r.random() < 0.3):
            for label in procs:
                if label != "a" and r.random() < 0.4:
                    continue
                for k in range(r.choice([1, 1, 2, 3])):
                    if r.random() < 0.75:
                        f = {"p": label, "inc": k, "do": "kill", "n": r.randrange(1, r.choice([6, 30, 80])), "until": quiet}
                        kk = r.random()
                        if kk < 0.6:
                            f["op"] = ["open", "write", "flock", "unlock", "rename", "fsync", "sleep", "truncate", "read"]
                            f["in"] = list(CALLS) + ["synco", "set_options"]
                        elif kk < 0.85:
                            f["op"] = ["open", "write", "fsync", "rename", "unlock", "truncate"]
                            f["cls"] = r.choice([["record"], ["order"], ["record", "order", "cancel"]])
                        else:
                            f["op"] = ["*"]
                            f["n"] = r.randrange(1, 600)
                        faults.append(f)
                    else:
                        events.append({"t": round(0.5 + r.random() * T, 3), "do": "kill", "p": label})
                    events.append({"t": round(2 + r.random() * T, 3), "do": "restart", "p": label})
            if any(f["do"] == "kill" for f in faults):
                faults = [f for f in faults if f["do"] != "short"]
        if mode == "lock" or r.random() < 0.12:
            for _ in range(r.choice([1, 2, 3, 5])):
                events.append({"t": round(0.5 + r.random() * T, 3), "do": "lock", "f": r.choice(["order", "order", "cancel"]),
                               "s": r.choice([0.02, 0.2, 0.9, 1.1, 2.0, 4.9, 5.2, 7.0, round(r.random() * 6, 2)])})
        clock = {}
        if mode == "lock" and r.random() < 0.5:
            clock["steps"] = [{"t": round(1 + r.random() * T, 3), "d": r.choice([-1, 1]) * r.choice([0.5, 3, 60, 300])}
                              for _ in range(r.choice([1, 2]))]
            clock["steps"].sort(key=lambda x: x["t"])
            if start < 1000:
                # not back over midnight: the broker stub does not go back to the files of the day before
                for x in clock["steps"]:
                    x["d"] = abs(x["d"])
        scn["clock"] = clock
        for label in procs:
            events.append({"t": T + 20.0, "do": "restart", "p": label, "keep": True})
        scn["events"] = events
        scn["faults"] = faults
        back = sum(-s["d"] for s in clock.get("steps", []) if s["d"] < 0)
        scn["end"] = T + 50.0 + back
        if r.random() < 0.25:
            # directories written with ~ or relative to the current directory, strategies that change it
            scn["dirs"] = ["w0", "w1"]
            for spec in procs.values():
                opts = spec["opts"]
                k = r.random()
                if k < 0.6:
                    opts["runtime_dir"] = "HOME_RUN"
                if k < 0.5:
                    spec["cwd"] = [r.choice(["", "w0", "w1"]) for _ in range(4)]
                else:
                    spec["cwd"] = [""]
                    if r.random() < 0.6:
                        opts["order_dir"] = "REL_ORDERS"
                    if opts["runtime_dir"] == "RUN" and r.random() < 0.6:
                        opts["runtime_dir"] = "REL_RUN"
                for t in spec["tasks"]:
                    if r.random() < 0.3:
                        t["acts"].insert(0, ["chdir", r.choice(["w0", "w1", ""])])
        return scn

    def iofault(self, quiet):
        r = self.r
        k = r.random()
        if k < 0.3:
            n = r.randrange(1, 10)
            cls = [r.choice(["order", "order", "cancel", "record"])]
            out = [{"op": ["write"], "cls": cls, "n": n, "do": "short", "frac": round(r.random(), 2), "until": quiet}]
            if r.random() < 0.8:
                out.append({"op": ["write"], "cls": cls, "n": n + 1, "do": r.choice(["ENOSPC", "EIO"]),
                            "times": r.choice([1, 1, 2, 30]), "until": quiet})
            return out
        if k < 0.6:
            return [{"op": ["write"], "cls": [r.choice(["order", "cancel", "record"])], "n": r.randrange(1, 10),
                     "do": r.choice(["ENOSPC", "EIO"]), "times": r.choice([1, 1, 2, 30]), "until": quiet}]
        if k < 0.8:
            return [{"op": ["open"], "cls": [r.choice(["order", "cancel", "record"])], "n": r.randrange(1, 10),
                     "do": r.choice(["EMFILE", "EACCES", "ENOSPC"]), "times": r.choice([1, 1, 3]), "until": quiet}]
        if k < 0.9:
            return [{"op": ["rename", "fsync"], "cls": ["record"], "n": r.randrange(1, 10), "do": r.choice(["EIO", "ENOSPC"]),
                     "times": r.choice([1, 1, 2, 30]), "until": quiet}]
        return [{"op": ["flock"], "cls": ["order", "cancel"], "n": r.randrange(1, 8), "do": "ENOLCK", "until": quiet}]


# ---- execution ---------------------------------------------------------------------------------------------------

def build(scn, keep_trace=False):
    st = Stage(scn, keep_trace)
    st.broker = Broker(st, scn["broker"])
    return st


# ---- judging -----------------------------------------------------------------------------------------------------

class Call(object):
    pass


def day_of(ns):
    return day_str(ns)


def read_files(st, kind):
    """-> {day: bytes}"""
    pre = "algoOrder_" if kind == "order" else "algoOrderStop_"
    out = {}
    for n in sorted(os.listdir(st.order_dir)):
        m = re.match(re.escape(pre) + r"(\d{8})\.csv$", n)
        if m:
            with simfs.real_open(os.path.join(st.order_dir, n), "rb") as f:
                out[m.group(1)] = f.read()
    return out


def requests(ev):
    """Items of an order or batch call: list of dicts ref/code/amount/style/side."""
    if ev["k"] == "order_call":
        return [{"ref": ev["ref"], "code": ev["code"], "amount": ev["amount"], "style": ev["style"], "side": ev["side"]}]
    return ev["items"]


def valid(it):
    code, amount = it.get("code"), it.get("amount")
    if code is None or amount is None:
        return False
    if not (isinstance(code, str) and re.match(r"^\d+\.(XSHE|XSHG)$", code)):
        return False
    if isinstance(amount, bool) or not isinstance(amount, int) or amount == 0:
        return False
    if it.get("style") is not None and not isinstance(it["style"], list):
        return False
    return it.get("side") in (None, "long")


def check(st):
    V = []
    seen = set()

    def bad(props, code, msg):
        for prop in dict.fromkeys(props.split()):
            if (prop, code) not in seen:
                seen.add((prop, code))
                V.append((prop, code, msg))
    w, scn, B = st.w, st.scn, st.broker
    H = w.history
    if w.abort_reason:
        where = w.abort_where or ("?", None)
        prop = {"order": "A09 A01", "batch": "A09 A08", "cancel": "A09 A08", "bcancel": "A09 A08"}.get(where[1], "A05 A04")
        if any(e["k"] == "restart" and e.get("inc") for e in H):
            prop += " A03"
        bad(prop, "endless", "the process spins (%s) inside %s" % (w.abort_reason, where))
        return V
    enc = scn["broker"]["enc"]
    life = {"lock": " A09", "bad": " A05", "midnight": " A07", "cancel": " A08", "stream": " A04", "order": " A01"}.get(
        scn["mode"], "")
    firstday = day_of(H[0]["w"]) if H else None

    def also(c, *more):
        """the other properties a failure at this call goes against"""
        out = " ".join(more)
        if c.inc:
            out += " A03"
        if c.day0 != firstday and not steps:
            out += " A07"
        return " " + out
    steps = [e for e in H if e["k"] == "clock"]

    # ---- history of calls -------------------------------------------------------------------------------
    openc = {}
    calls = []
    faults = {}          # (p, inc) -> list of q
    killq = {}
    pairs = {"order_ret": "order_call", "batch_ret": "batch_call", "cancel_ret": "cancel_call",
             "bcancel_ret": "bcancel_call", "synco_ret": "synco_call", "setopt_ret": "setopt_call"}
    for e in H:
        k = e["k"]
        if k in pairs.values():
            c = Call()
            c.kind, c.ev, c.ret, c.p, c.inc = k[:-5], e, None, e["p"], e["inc"]
            c.faults = []
            c.lq0 = None
            openc[(e["p"], e["inc"])] = c
            calls.append(c)
        elif k in pairs:
            c = openc.pop((e["p"], e["inc"]), None)
            if c is not None:
                c.ret = e
        elif k == "fault":
            p = e["p"]
            for (pp, inc), c in openc.items():
                if pp == p:
                    c.faults.append(e)
            faults.setdefault(p, []).append(e)
    for c in calls:
        c.day0 = day_of(c.ev["w"])
        c.day1 = day_of(c.ret["w"]) if c.ret else None
        c.straddle = c.ret is not None and c.day0 != c.day1 or any(
            s["q"] > c.ev["q"] and (c.ret is None or s["q"] < c.ret["q"]) and day_of(s["w"] - int(s["d"] * SEC)) != day_of(s["w"])
            for s in steps)

    # ---- the order and cancel files ---------------------------------------------------------------------
    ofiles, cfiles = read_files(st, "order"), read_files(st, "cancel")
    lines = []           # (day, items)
    clines = []
    for files, hdr, out, what in ((ofiles, HEADER, lines, "order"), (cfiles, CHEADER, clines, "cancel")):
        for day, data in files.items():
            if not data:
                continue
            if not data.endswith(b"\n"):
                bad("A02", what + "-fragment", "the %s file of %s ends with a partial line: %r" % (what, day, data[-60:]))
            try:
                text = data.decode(enc)
            except UnicodeDecodeError as e:
                bad("A02", what + "-bytes", "the %s file of %s cannot be decoded: %s" % (what, day, e))
                continue
            rows = text.split("\n")
            if rows and rows[-1] == "":
                rows.pop()
            for i, row in enumerate(rows):
                items = row.rstrip("\r").split(",")
                if i == 0:
                    if items != hdr:
                        bad("A02", what + "-header", "the %s file of %s begins with %r instead of its header" % (what, day, row))
                        if items[0] == hdr[0]:
                            continue
                    else:
                        continue
                elif items == hdr:
                    bad("A02", what + "-header", "the header is repeated in line %d of the %s file of %s" % (i + 1, what, day))
                    continue
                if len(items) != len(hdr) or not re.match(r"^\d{6}\.\d+$", items[0]) or not items[1]:
                    bad("A02", what + "-merged", "line %d of the %s file of %s is damaged: %r" % (i + 1, what, day, row))
                    continue
                out.append((day, items))
    byqty, byid = {}, {}
    for day, it in lines:
        byqty.setdefault(it[6], []).append((day, it))
        byid.setdefault(it[1], []).append((day, it))

    # ---- orders -----------------------------------------------------------------------------------------
    own = {}             # id -> info of acknowledged or submitted orders
    ids_by_p = {}
    for c in calls:
        if c.kind not in ("order", "batch"):
            continue
        items = requests(c.ev)
        ret = c.ret
        if c.kind == "batch" and ret is not None:
            if ret["exc"] or not isinstance(ret["res"], list) or len(ret["res"]) != len(items):
                bad("A08", "batch-result", "batch of %d items returned %r, exception %s" % (len(items), ret["res"], ret["exc"]))
                continue
        for n, it in enumerate(items):
            ok = valid(it)
            qty = str(abs(it["amount"])) if isinstance(it.get("amount"), int) else None
            mine = byqty.get(qty, []) if qty and qty != "0" else []
            rid = None
            if ret is not None:
                rid = ret["id"] if c.kind == "order" else ret["res"][n]
            if len(mine) > 1:
                bad("A01" + also(c, "A08" if c.kind == "batch" else ""), "twice", "%d lines in the order files for %s %s" % (len(mine), it["ref"], it))
            for day, row in mine:
                own.setdefault(row[1], {"it": it, "p": c.p, "inc": c.inc, "c": c, "day": day, "acked": None, "rid": rid})
            if ret is None:
                continue
            if rid is not None:
                if not ok:
                    bad("A01" if c.kind == "order" else "A08", "accepted-invalid",
                        "%s returned id %r for the invalid request %s" % (c.kind, rid, it))
                    continue
                if not isinstance(rid, str) or not rid:
                    bad("A01", "id-type", "order id %r is not a string" % (rid,))
                    continue
                dup = ids_by_p.setdefault(c.p, {})
                if rid in dup:
                    bad("A01", "id-reuse", "id %s returned for %s and for %s" % (rid, dup[rid], it["ref"]))
                dup[rid] = it["ref"]
                if len(mine) != 1 or mine[0][1][1] != rid:
                    bad("A01" + also(c, "A08" if c.kind == "batch" else "", "A02" if len(scn["procs"]) > 1 else ""), "not-handed-over", "%s: id %s was returned but the order files hold %r" % (
                        it["ref"], rid, [m[1] for m in mine]))
                    continue
                day, row = mine[0]
                own[rid]["acked"] = c
                if day not in (c.day0, c.day1) and not steps:
                    bad("A07 A01", "wrong-day", "order %s placed on %s is in the order file of %s" % (rid, c.day0, day))
                nl = ret["lines"] if c.kind == "order" else ret["lines"][n]
                if nl != 1:
                    bad("A01" + also(c, "A08" if c.kind == "batch" else ""), "not-at-return", "%s: %d complete lines in the order file when id %s was returned" % (
                        it["ref"], nl, rid))
                diff = compare(row, it, scn["procs"][c.p])
                if diff:
                    bad("A01" + also(c, "A08" if c.kind == "batch" else ""), "altered", "order %s was written as %r: %s" % (it, row, diff))
            else:
                if mine:
                    bad("A01" + also(c, "A08" if c.kind == "batch" else "", "A09" if scn["mode"] == "lock" else ""), "failed-but-written", "%s reported failure but the order file holds %r" % (it["ref"], mine[0][1]))
                clean = not c.faults and not c.straddle
                if ok and clean and c.kind == "batch" and not contended(st, c, "order"):
                    bad("A08", "batch-item", "item %s of a batch failed without any fault: %s" % (n, it))
                if ok and clean and c.kind == "order" and lock_was_free(st, c, "order", scn["procs"][c.p]):
                    bad("A09", "gave-up", "order %s failed although nothing held the order file: %s (exception %s)" % (
                        it["ref"], it, ret["exc"]))
        if c.kind == "order" and ret is not None and ok and ret["exc"]:
            bad("A11 A01" + (" A09" if scn["mode"] == "lock" else ""), "order-raised", "a valid order call raised %s" % ret["exc"])

    # ---- cancel requests --------------------------------------------------------------------------------
    ccount = {}
    for day, it in clines:
        ccount[it[1]] = ccount.get(it[1], 0) + 1
    acc = {}
    exact = {}
    for c in calls:
        if c.kind not in ("cancel", "bcancel"):
            continue
        ids = [c.ev["id"]] if c.kind == "cancel" else c.ev["ids"]
        known = c.ev["known"]
        for n, i in enumerate(ids):
            a = acc.setdefault(i, [0, 0])
            if c.ret is None:
                a[1] += 1
                continue
            if c.ret["exc"]:
                bad("A08" + also(c), "cancel-raised", "cancelling %s raised %s" % (ids, c.ret["exc"]))
            d = c.ret["lines"][n]
            m = ids.count(i)
            if not known[n]:
                if d:
                    bad("A08", "unknown-written", "cancelling the unknown id %s wrote %d lines" % (i, d))
                continue
            a[1] += 1
            clean = not c.faults and not c.straddle
            if d > m:
                bad("A08" + also(c), "cancel-twice", "one cancel request for %s wrote %d lines" % (i, d))
            if d < m and clean and not contended(st, c, "cancel"):
                bad("A08" + also(c), "cancel-lost", "cancelling the known order %s wrote %d lines instead of %d" % (i, d, m))
            elif d < m and clean and c.kind == "cancel" and lock_was_free(st, c, "cancel", scn["procs"][c.p]):
                bad("A09", "gave-up", "cancelling %s failed although nothing held the cancel file" % i)
            if d < m and not c.ret["logged"]:
                bad("A08", "cancel-silent", "cancelling %s failed and nothing was logged" % i)
            a[0] += 1 if d >= m else 0
    for i, n in ccount.items():
        lo, hi = acc.get(i, (0, 0))
        if n > hi:
            bad("A08", "cancel-extra", "%d cancel lines for %s after at most %d requests" % (n, i, hi))
    if not steps:
        days = {}
        for c in calls:
            if c.kind in ("cancel", "bcancel"):
                for i in [c.ev["id"]] if c.kind == "cancel" else c.ev["ids"]:
                    days.setdefault(i, []).append((c.day0, c.day1 or "9"))
        n = {}
        for day, it in clines:
            n[(it[1], day)] = n.get((it[1], day), 0) + 1
        for (i, day), k in n.items():
            if k > sum(1 for a, b in days.get(i, ()) if a <= day <= b):
                bad("A08 A07", "cancel-day", "%d cancel lines for %s in the file of %s, the requests were made on %s" % (
                    k, i, day, sorted(set(days.get(i, ())))))

    # ---- bounded waiting --------------------------------------------------------------------------------
    stall = sum(f["s"] for f in scn.get("faults", []) if f["do"] == "stall")
    for c in calls:
        if c.kind not in ("order", "batch", "cancel", "bcancel") or c.ret is None:
            continue
        o = scn["procs"][c.p]["opts"]
        to, iv = o.get("wait_lock_time_out", 5), o.get("wait_lock_internal", 0.05)
        n = 1 if c.kind in ("order", "cancel") else len(c.ev.get("items") or c.ev.get("ids"))
        dur = (c.ret["t"] - c.ev["t"]) / 1e9
        lim = n * (to + iv + 0.1 + 80 * scn["cost"][1] / 1e9) + stall
        if dur > lim:
            bad("A09", "too-long", "a %s call took %.3fs with a lock timeout of %ss and interval %ss" % (c.kind, dur, to, iv))

    # ---- process life -----------------------------------------------------------------------------------
    for e in H:
        if e["k"] == "exit" and e["how"] == "exc":
            pr = next((p for ps in st.procs.values() for p in ps if p.label == e["p"] and p.exit_t == e["t"]), None)
            hit = [f for f in faults.get(e["p"], []) if f["q"] < e["q"] and f["what"] not in ("kill",) and
                   pr and f["t"] >= pr.create]
            err = pr.stderr.text()[-500:] if pr else ""
            in_start = pr is not None and not any(h["k"] == "inited" and h["p"] == e["p"] and h["inc"] == pr.inc for h in H)
            if pr is not None and pr.inc > 0 and in_start and not hit:
                bad("A03" + (" A07" if day_of(e["w"]) != firstday and not steps else ""), "restart-failed", "the restarted process died during start-up: %s" % err)
            elif pr is not None and pr.inc == 0 and in_start and not hit and len(scn["procs"]) > 1:
                bad("A02", "start-failed", "one of the strategies sharing the account died during start-up: %s" % err)
            elif not (in_start and hit) and not invalid_call(H, e, pr):
                bad("A11" + life, "died", "the strategy died: %s" % err)

    # ---- what the strategies saw ------------------------------------------------------------------------
    judge_orders(st, H, calls, own, byid, lines, bad, scn, B)
    judge_log(st, H, calls, own, bad, scn)
    # ---- snapshots --------------------------------------------------------------------------------------
    for e in H:
        if e["k"] == "reheld" and e["view"] != e["was"]:
            diff = [f for f in e["was"] if e["was"][f] != e["view"].get(f)]
            bad("A12", "snapshot-changed", "an order object obtained earlier changed in %s: %r -> %r" % (
                diff, [e["was"][f] for f in diff], [e["view"].get(f) for f in diff]))
    return V


def invalid_call(H, e, pr):
    return False


def compare(row, it, spec):
    code = it["code"]
    st = it.get("style")
    want = {2: spec["opts"].get("counter_type", "UM0"), 3: str(spec["opts"]["account_no"]),
            4: code[:-4] + ("SH" if code.endswith("XSHG") else "SZ"), 5: "1" if it["amount"] > 0 else "2",
            6: str(abs(it["amount"])), 7: "DMA", 9: "0"}
    if st is not None and st[0] == "l":
        want[8] = "AT"
        for i in (10, 11):
            try:
                if float(row[i]) != float(st[1]):
                    return "price %s" % row[i]
            except ValueError:
                return "price %s" % row[i]
    else:
        want[8] = "P6" if it["amount"] > 0 else "P7"
        want[10] = want[11] = "0"
    for i, v in want.items():
        if row[i] != v:
            return "%s is %r, expected %r" % (HEADER[i], row[i], v)
    return None


def held_windows(st, base):
    """Intervals (t0, t1) during which somebody holds the lock of the given file, as (owner, t0, t1)."""
    out, cur = [], {}
    for e in st.w.history:
        if e["k"] == "lockhold" and e["path"] == base:
            cur["ext", e["q"]] = e["t"]
        elif e["k"] == "lockfree" and e["path"] == base:
            for k in list(cur):
                if k[0] == "ext":
                    out.append(("ext", cur.pop(k), e["t"]))
                    break
    for k, t in cur.items():
        out.append(("ext", t, 1 << 62))
    own = {}
    for t, path, label, ok in st.lock_log:
        if path != base:
            continue
        if ok is True:
            own[label] = t
        elif ok is None and label in own:
            out.append((label, own.pop(label), t))
    for label, t in own.items():
        out.append((label, t, 1 << 62))
    return out


def contended(st, c, what):
    base = {"order": "algoOrder_", "cancel": "algoOrderStop_"}[what]
    for day in {c.day0, c.day1}:
        for label, a, b in held_windows(st, base + day + ".csv"):
            if label != c.p and a <= c.ret["t"] and b >= c.ev["t"]:
                return True
    return False


def lock_was_free(st, c, what, spec):
    """True if the lock was free from some instant comfortably before the deadline until the call returned."""
    base = {"order": "algoOrder_", "cancel": "algoOrderStop_"}[what]
    o = spec["opts"]
    to, iv = o.get("wait_lock_time_out", 5), o.get("wait_lock_internal", 0.05)
    slack = 0.05 + 60 * st.scn["cost"][1] / 1e9
    slack += sum(f["s"] for f in st.scn.get("faults", []) if f["do"] == "stall")
    last = c.ev["t"]
    for label, a, b in held_windows(st, base + c.day0 + ".csv"):
        if label != c.p and a <= c.ret["t"] and b >= c.ev["t"]:
            last = max(last, b)
    return last <= c.ev["t"] + int((to - slack) * SEC)


def judge_orders(st, H, calls, own, byid, lines, bad, scn, B):
    w = st.w
    retq = {}
    for c in calls:
        if c.kind == "synco" and c.ret is not None:
            retq[c.ret["q"]] = c
    seen_idx = {}        # (p, id) -> index of the state observed last
    ctime = {}
    pubq = {}            # id -> list of q of publications (index 1..)
    pubt = {}
    for e in H:
        if e["k"] == "pub":
            pubq.setdefault(e["id"], []).append(e["q"])
            pubt.setdefault(e["id"], []).append(e)
    created = {}
    for e in H:
        if e["k"] == "created":
            created[(e["day"], e["f"])] = e["q"]
    calls_by = {}
    for c in calls:
        calls_by.setdefault((c.p, c.inc), []).append(c)
    lastsync = {}
    prev = {}
    stepped = any(h["k"] == "clock" for h in H)
    run_q, cur, first = {}, None, 0      # event -> when the calendar day it happened on began
    for h in H:
        if day_of(h["w"]) != cur:
            cur, first = day_of(h["w"]), h["q"]
        run_q[h["q"]] = first
    dropped = []         # (call, item): refused requests that left no trace
    failed = {}          # (p, inc) -> list of (q, item) of refused requests
    for c in calls:
        if c.kind in ("order", "batch") and c.ret is not None:
            for n, it in enumerate(requests(c.ev)):
                rid = c.ret["id"] if c.kind == "order" else (c.ret["res"][n] if isinstance(c.ret["res"], list) else None)
                if rid is None and isinstance(it.get("amount"), int):
                    failed.setdefault((c.p, c.inc), []).append((c.ret["q"], it))
                    # nothing but the order file was in the way: the record of the day does not hold it either
                    if not c.straddle and all(f.get("cls") == "order" for f in c.faults):
                        dropped.append((c, it))
    for e in H:
        if e["k"] == "synco_ret":
            lastsync[(e["p"], e["inc"])] = e
        if e["k"] != "orders":
            continue
        p, inc = e["p"], e["inc"]
        spec = scn["procs"][p]
        if e["exc"]:
            bad("A04" + (" A03" if inc else ""), "query-raised", "get_orders raised %s" % e["exc"])
            continue
        day = day_of(e["w"])
        orders = e["orders"]
        ctx = "A04" + (" A05" if scn["broker"]["bad"] else "") + (" A03" if inc else "") + (
            " A07" if day != day_of(H[0]["w"]) and not stepped else "")
        # whose orders are these, and are the states published ones in order?
        for oid, o in orders.items():
            if o["order_id"] != oid:
                bad("A04", "wrong-id", "get_orders lists order %s under id %s" % (o["order_id"], oid))
            info = own.get(oid)
            if info is not None:
                if info["p"] != p:
                    bad("A02", "adopted", "strategy %s lists order %s of strategy %s" % (p, oid, info["p"]))
                    continue
                it = info["it"]
                if not details(o, it):
                    bad("A03" if inc else "A01", "details", "order %s requested as %s is shown as %s" % (oid, it, o))
            else:
                # not in the file: a refused, cut off or foreign order
                if oid.startswith("M"):
                    bad("A02", "adopted", "strategy %s lists the foreign order %s" % (p, oid))
                    continue
                if not any(o["amount"] == abs(x["amount"]) for c in calls if c.p == p and c.kind in ("order", "batch")
                           for x in requests(c.ev) if isinstance(x.get("amount"), int)):
                    bad("A02", "invented", "strategy %s lists an order it never placed: %s" % (p, o))
            ct = ctime.setdefault((p, oid), o["create_time"])
            if ct != o["create_time"]:
                bad("A03", "create-time", "order %s: creation time changed from %s to %s" % (oid, ct, o["create_time"]))
            pubs = B.pubs.get(oid)
            rejected_locally = info is None and o["status"] == "rejected"
            if pubs is None:
                if not rejected_locally and (o["status"] != "new" or o["filled_amount"] or o["canceled_amount"]):
                    bad(ctx, "unpublished", "order %s the broker never reported on is shown as %s" % (oid, o))
                continue
            npub = 1 + sum(1 for q in pubq.get(oid, []) if q < e["q"])
            lo = seen_idx.get((p, oid), 0)
            hit = [k for k in range(npub) if same(pubs[k], o, not blind(scn, p, inc))]
            if not hit:
                # damage and torn lines show up here too
                bad(ctx, "unpublished",
                    "order %s is shown as %s, which the broker never published (%d states)" % (
                        oid, brief(o), len(pubs)))
            else:
                ge = [k for k in hit if k >= lo]
                if not ge:
                    bad(ctx, "backwards", "order %s went back from state %d to %d: %s" % (oid, lo, hit[-1], brief(o)))
                else:
                    seen_idx[(p, oid)] = ge[0]
        # refused orders are not live
        # (another day in between: the record is read again, and saving it may have failed as well)
        for q, it in failed.get((p, inc), []):
            if run_q[e["q"]] < q < e["q"]:
                for oid, o in orders.items():
                    if oid not in own and o["amount"] == abs(it["amount"]) and o["status"] in LIVE:
                        bad("A01", "refused-live", "the refused order %s is shown as a live order: %s" % (it, brief(o)))
            if q < e["q"] and valid(it) and not any(o["status"] == "rejected" and o["err_msg"] and o["amount"] == abs(it["amount"])
                                                    for oid, o in orders.items() if oid not in own):
                bad("A01", "refused-unlisted", "the refused order %s is not listed as rejected with a reason: %s" % (
                    it, [brief(o) for oid, o in orders.items() if oid not in own]))
        for c, it in dropped:
            if c.p == p and c.inc < inc and day_of(c.ev["w"]) == day and not stepped:
                w.probe("refused_then_restart")
                for oid, o in orders.items():
                    if oid not in own and o["amount"] == abs(it["amount"]) and o["status"] in LIVE:
                        bad("A01 A03", "refused-revived", "order %s, refused before the restart, is a live order after it: %s" % (
                            it, brief(o)))
        # acknowledged orders are there
        for oid, info in own.items():
            if info["p"] == p and info["inc"] == inc and info["acked"] and info["acked"].ret["q"] < e["q"]:
                if oid not in orders:
                    bad("A07" if info["day"] != day else "A01", "vanished",
                        "order %s of %s, acknowledged in this process, is not listed" % (oid, info["day"]))
        # right after a synchronisation without faults
        s = lastsync.get((p, inc))
        c = retq.get(s["q"]) if s else None
        if c is None or e["q"] - s["q"] > 1 or c.faults:
            continue
        if c.ret["exc"]:
            bad(ctx, "sync-raised", "sync_orders raised %s" % c.ret["exc"])
        if blind(scn, p, inc):
            continue
        d = c.day0
        # told not to ignore lines it cannot parse, it may stop at them
        if c.straddle or spec["opts"].get("ignore_error_line") is False and scn["broker"]["bad"]:
            continue
        if not all((d, k) in created and created[(d, k)] < c.ev["q"] for k in ("update", "result")):
            continue
        multi = any(h["k"] == "created" and h["day"] != d for h in H)
        for oid, info in own.items():
            if info["p"] != p or info["day"] != d or info["c"].straddle:
                continue
            if info["c"].ev["q"] > c.ev["q"]:
                continue
            if oid not in orders:
                prop = "A03 A04" if info["inc"] != inc else "A01 A04"
                if multi:
                    prop += " A07"
                bad(prop, "lost", "order %s (%s) is in the broker's order file but unknown after synchronising in %s#%d" % (
                    oid, info["it"]["ref"], p, inc))
                continue
            pubs = B.pubs.get(oid)
            if pubs is None:
                continue
            need = sum(1 for q in pubq.get(oid, []) if q < c.ev["q"])
            o = orders[oid]
            hit = [k for k in range(len(pubs)) if same(pubs[k], o)]
            if hit and hit[-1] < need:
                code = "stale"
                prop = "A04" + (" A05" if scn["broker"]["bad"] else "") + (" A07" if multi else "") + (
                    " A03" if inc and info["inc"] != inc else "")
                bad(prop, code, "order %s is shown in state %d (%s) although state %d (%s) was completely published before "
                    "the synchronisation began" % (oid, hit[-1], brief(o), need, pubs[need]))


def blind(scn, p, inc):
    """This process cannot decode the texts in the status files."""
    return inc == 0 and "opts0" in scn["procs"][p]


def is_error(e):
    return "[ERROR]" in e["text"] or "[CRITICAL]" in e["text"]


def judge_log(st, H, calls, own, bad, scn):
    """A14: failures and skipped lines leave error entries, refused cancels are announced, and nothing else is."""
    w = st.w
    outs = {}
    for e in H:
        if e["k"] == "out":
            outs.setdefault((e["p"], e["inc"]), []).append(e)
    created, damaged, refused = {}, [], []
    stepped = any(h["k"] == "clock" for h in H)
    for e in H:
        if e["k"] == "created":
            created[(e["day"], e["f"])] = e["q"]
        elif e["k"] == "damaged":
            damaged.append(e)
        elif e["k"] == "cancel_refused":
            refused.append(e)
    by = {}
    for c in calls:
        if c.ret is None or blind(scn, c.p, c.inc):
            continue
        by.setdefault((c.p, c.inc), []).append(c)
        errs = [e for e in outs.get((c.p, c.inc), []) if c.ev["q"] < e["q"] < c.ret["q"] and is_error(e)]
        c.synced = False
        if c.kind in ("order", "batch"):
            if c.kind == "order" and c.ret["exc"] or c.kind == "batch" and not isinstance(c.ret["res"], list):
                continue
            failed = c.ret["id"] is None if c.kind == "order" else c.ret["res"].count(None)
            if len(errs) < int(failed):
                bad("A14", "unreported", "%d orders of a call failed, the log has %d error entries about it: %s" % (
                    failed, len(errs), requests(c.ev)))
            elif failed:
                w.probe("failure_reported")
            elif errs and not c.faults and not c.straddle:
                bad("A14", "false-error", "the order call succeeded, the log says %s" % errs[0]["text"])
        elif c.kind == "synco":
            d = c.day0
            here = [(d, k) in created and created[(d, k)] < c.ev["q"] for k in ("update", "result")]
            if c.straddle:
                continue
            if all(here) and not c.faults:
                c.synced = True
                if errs and not any(x["q"] < c.ret["q"] for x in damaged):
                    bad("A14", "false-error", "nothing was wrong with the status files, the log says %s" % errs[0]["text"])
            elif not stepped and not all((d, k) in created and created[(d, k)] < c.ret["q"] for k in ("update", "result")):
                if not errs:
                    bad("A14", "unreported", "the synchronisation failed (a status file was missing) and the log has no error entry")
                else:
                    w.probe("missing_file_reported")
    if stepped:
        return
    for (p, inc), cs in by.items():
        good = [c for c in cs if c.kind == "synco" and c.synced]
        if not good:
            continue
        last, d = good[-1], good[-1].day0
        mine = outs.get((p, inc), [])
        strict = scn["procs"][p]["opts"].get("ignore_error_line") is False
        if not strict:
            need = 0
            for x in damaged:
                if x["day"] != d or x["q"] > last.ev["q"] or x["how"] in ("blank", "spaces"):
                    continue
                if x["f"] == "update" and x["how"] in ("num", "status", "date"):
                    o = own.get(x["id"])
                    if o is None or o["p"] != p or o["inc"] != inc or not o["acked"] or o["acked"].ret["q"] > x["q"]:
                        continue
                need += 1
            n = sum(1 for e in mine if e["q"] < last.ret["q"] and is_error(e))
            if n < need:
                bad("A14", "skipped-silently", "%d lines that cannot be parsed were skipped, the log has %d error entries" % (need, n))
            elif need:
                w.probe("skips_reported", need)
        first = good[0]
        ids = {x["id"] for x in refused}
        for oid in sorted(ids):
            n = sum(1 for e in mine if e["q"] < last.ret["q"] and "撤单失败" in e["text"] and oid in e["text"] and not is_error(e))
            most = sum(1 for x in refused if x["id"] == oid and x["q"] < last.ret["q"])
            if n > most:
                bad("A14", "twice", "%d refused cancels of %s were announced, the broker refused %d" % (n, oid, most))
            o = own.get(oid)
            if o is not None and o["p"] == p and o["day"] == d and not (strict and damaged):
                need = sum(1 for x in refused if x["id"] == oid and first.ret["q"] < x["q"] < last.ev["q"])
                if n < need:
                    bad("A14", "unannounced", "the broker refused to cancel %s %d times, the log says so %d times" % (oid, need, n))
                elif need:
                    w.probe("refused_cancel_announced")


def details(o, it):
    if o["code"] != it["code"] or o["amount"] != abs(it["amount"]):
        return False
    if o["action"] != ("open" if it["amount"] > 0 else "close") or o["side"] != (it.get("side") or "long"):
        return False
    st = it.get("style")
    if st is not None and st[0] == "l":
        return o["style"] == "LimitOrderStyle" and float(o["order_price"]) == float(st[1])
    return o["style"] == "MarketOrderStyle"


def brief(o):
    return "%s filled=%s canceled=%s balance=%s avg=%s msg=%r entrust=%s" % (
        o["status"], o["filled_amount"], o["canceled_amount"], o["deal_balance"], o["avg_price"], o["err_msg"],
        o["entrust_time"])


def nontrivial(st):
    m = st.scn["mode"]
    ks = set(e["k"] for e in st.w.history)
    if m in ("stream", "bad"):
        return "pub" in ks and "synco_ret" in ks
    if m == "kill":
        return any(len(v) > 1 for v in st.procs.values()) and "received" in ks
    if m == "cancel":
        return "cancel_ret" in ks or "bcancel_ret" in ks
    if m == "lock":
        return bool(st.w.fault_fired.get("lock_contention")) and "order_ret" in ks
    if m == "midnight":
        return len([e for e in st.w.history if e["k"] == "created"]) >= 4 and "received" in ks
    if m == "share":
        return len(set(e["p"] for e in st.w.history if e["k"] == "fwrite")) > 1
    return "order_ret" in ks or "batch_ret" in ks
