"""The broker terminal: polls the order and cancel files, publishes order states by appending to its status files in
arbitrary pieces.  Runs as events of the simulation (not as a jqtrade process); the only real party it stands for is the
vendor's desktop client."""
import os
import random

from . import kernel as K
from . import simfs
from .stage import SEC, MS, wall_dt, day_str

COLS = ("updTime", "orderDate", "orderTime", "acctType", "acct", "symbol", "tradeSide", "status", "orderQty",
        "orderPrice", "orderType", "filledQty", "avgPrice", "filledAmt", "cancelQty", "orderNo", "corrId",
        "custBatchNo", "text", "cliOrderId")
RCOLS = ("updTime", "resultType", "custBatchNo", "status", "errorCode", "errorMsg")
CODES = {"new": "7", "open": "0", "filling": "1", "filled": "2", "partly_canceled": "3", "canceled": "4",
         "rejected": "5", "canceling": "8"}
FINAL = ("filled", "partly_canceled", "canceled", "rejected")

TEXTS = ["", "", "ok", "部分成交", "已撤单 资金不足", "撮合一成交", "a b", "价格超限", "x" * 40]


class Broker(object):
    """cfg: seed, start, poll, enc, eol, tear (probability a line is split), gap (max seconds between pieces), bad
    (probability of a damaged line next to a real one), foreign (probability of a foreign line), life (speed), reject,
    files: delay between the creation of the two status files, rows: lines already in the files at creation, until"""

    def __init__(self, st, cfg):
        self.st = st
        self.w = st.w
        self.cfg = cfg
        self.r = random.Random("broker/%s" % cfg["seed"])
        self.enc = cfg.get("enc", "utf-8")
        self.eol = cfg.get("eol", "\n")
        self.day = None
        self.off = {}
        self.orders = {}         # id -> dict
        self.pubs = {}           # id -> list of views (index 0 is the initial one)
        self.free_at = {}        # file -> time the writer is free again
        self.created = {}        # (day, kind) -> q
        self.nforeign = 0
        self.pending = {}        # (day, kind) -> pieces waiting for the file to be created
        self.arrived = {}        # id -> number of order lines received
        self.quiet = st.t0 + int(cfg.get("until", 60) * SEC)
        st.at(cfg.get("start", 0.0), self.tick)

    def path(self, kind, day):
        return os.path.join(self.st.order_dir, {"update": "orderUpdate_", "result": "execResult_", "order": "algoOrder_",
                                                "cancel": "algoOrderStop_"}[kind] + day + ".csv")

    # ---- day handling -------------------------------------------------------------------------------------
    def tick(self):
        w = self.w
        day = day_str(w.wall())
        if day != self.day:
            first = self.day is None
            self.day = day
            self.orders = {}
            d1 = 0 if first and not self.cfg.get("files") else self.r.random() * self.cfg.get("open_delay", 0.0)
            kinds = ["update", "result"]
            self.r.shuffle(kinds)
            w.after(int(d1 * SEC), self.create, day, kinds[0])
            d2 = d1 + (self.r.random() * self.cfg.get("files", 0.0))
            w.after(int(d2 * SEC), self.create, day, kinds[1])
        self.poll("order")
        self.poll("cancel")
        w.after(max(1, int(self.cfg.get("poll", 0.2) * SEC)), self.tick)

    def create(self, day, kind):
        with simfs.real_open(self.path(kind, day), "ab") as f:
            hd = ",".join(COLS if kind == "update" else RCOLS) + self.eol
            if self.cfg.get("header", True):
                f.write(hd.encode(self.enc))
        q = self.w.log("created", f=kind, day=day)["q"]
        self.created[(day, kind)] = q
        for a in self.pending.pop((day, kind), ()):
            self.write(*a)
        for _ in range(self.cfg.get("rows", 0)):
            self.foreign(kind, day)
        for t, n in self.cfg.get("burst", ()):
            self.w.after(int(t * SEC) + 1, self.burst, kind, day, n)

    def burst(self, kind, day, n):
        """Many lines of other users of the account at once."""
        if day != self.day or self.free_at.get((kind, day), 0) > self.w.now:
            return
        lines = []
        r = self.r
        for _ in range(n):
            self.nforeign += 1
            fid = "M%d" % (90000 + self.nforeign)
            lines.append(",".join([self.stamp(), "1", fid, r.choice("01"), "0", "x"]) if kind == "result" else self.line(
                fid, {"code": "600000.XSHG", "amount": 100, "action": "open"}, view("open", 0, 0, 10.5)))
        self.w.fault("burst")
        self.write(kind, day, "".join(x + self.eol for x in lines).encode(self.enc), None, 0, 1)

    # ---- appending ----------------------------------------------------------------------------------------
    def append(self, kind, day, text, done=None, raw=None):
        """Append one line; it may reach the file in several pieces."""
        w, r = self.w, self.r
        data = raw if raw is not None else (text + self.eol).encode(self.enc)
        t = max(w.now, self.free_at.get((kind, day), 0))
        pieces = [data]
        if r.random() < self.cfg.get("tear", 0.0) and len(data) > 1:
            n = r.choice([1, 1, 1, 2, 3])
            if r.random() < 0.3:
                cuts = {len(data) - 1}
            else:
                cuts = set(r.randrange(1, len(data)) for _ in range(n))
            cuts = [0] + sorted(cuts) + [len(data)]
            pieces = [data[a:b] for a, b in zip(cuts, cuts[1:])]
        for k, p in enumerate(pieces):
            if k:
                t += int(r.random() ** 2 * self.cfg.get("gap", 1.0) * SEC) + 1
            w.at(t, self.write, kind, day, p, done if k == len(pieces) - 1 else None, k, len(pieces))
        self.free_at[(kind, day)] = t

    def write(self, kind, day, data, done, k, n):
        if day != self.day:
            return            # the terminal switched to the new day's files
        path = self.path(kind, day)
        if (day, kind) not in self.created:
            self.pending.setdefault((day, kind), []).append((kind, day, data, done, k, n))
            return
        with simfs.real_open(path, "ab") as f:
            f.write(data)
        if k == 0 and n > 1:
            self.w.fault("torn_append")
        if done:
            done()

    def foreign(self, kind, day):
        self.nforeign += 1
        r = self.r
        fid = "M%d" % (90000 + self.nforeign)
        if kind == "result":
            self.append("result", day, ",".join([self.stamp(), "1", fid, r.choice("01"), "0", r.choice(TEXTS)]))
        else:
            self.append("update", day, self.line(fid, {"code": "600000.XSHG", "amount": 100, "action": "open"},
                                                 view(r.choice(list(CODES)), r.randrange(100), 0, 10.5)))

    def stamp(self):
        return wall_dt(self.w.wall()).strftime("%H%M%S.%f")

    def line(self, oid, o, v, no="77"):
        d = {"updTime": self.stamp(), "orderDate": v.get("d") or self.day, "orderTime": v.get("tm") or "093001",
             "acctType": "UM0", "acct": "1001", "symbol": o["code"][:6] + "." + ("SH" if o["code"].endswith("G") else "SZ"),
             "tradeSide": "1" if o["action"] == "open" else "2", "status": CODES[v["status"]],
             "orderQty": str(o["amount"]), "orderPrice": "10.00", "orderType": "0", "filledQty": str(v["filled_amount"]),
             "avgPrice": "%.3f" % (v["avg_price"] or 0), "filledAmt": "%.2f" % v["deal_balance"],
             "cancelQty": str(v["canceled_amount"]), "orderNo": no, "corrId": "c1", "custBatchNo": oid,
             "text": v["err_msg"], "cliOrderId": "z"}
        return ",".join(d[c] for c in COLS)

    # ---- incoming -----------------------------------------------------------------------------------------
    def poll(self, kind):
        p = self.path(kind, self.day)
        try:
            size = os.stat(p).st_size
        except FileNotFoundError:
            return
        off = self.off.get(p, 0)
        if size <= off:
            return
        with simfs.real_open(p, "rb") as f:
            f.seek(off)
            data = f.read()
        while b"\n" in data:
            line, data = data.split(b"\n", 1)
            off += len(line) + 1
            try:
                items = line.decode(self.enc).strip().split(",")
            except UnicodeDecodeError:
                continue
            if items[0] == "updTime":
                continue
            if kind == "order" and len(items) == 12:
                self.incoming(items)
            elif kind == "cancel" and len(items) == 2:
                self.cancel(items[1])
        self.off[p] = off

    def incoming(self, it):
        oid = it[1]
        self.arrived[oid] = self.arrived.get(oid, 0) + 1
        if self.arrived[oid] > 1 or oid in self.pubs:
            return
        w = self.w
        try:
            qty = int(it[6])
        except ValueError:
            return
        code = it[4].replace(".SZ", ".XSHE").replace(".SH", ".XSHG")
        o = {"code": code, "amount": qty, "action": "open" if it[5] == "1" else "close", "day": self.day,
             "r": random.Random("%s/%d" % (self.cfg["seed"], qty)), "state": None, "filled": 0, "cancel": False}
        o["tm"] = wall_dt(w.wall()).strftime("%H%M%S")
        self.orders[oid] = o
        self.pubs[oid] = [initial()]
        w.log("received", id=oid, qty=qty, day=self.day)
        r = o["r"]
        d = self.delay(r)
        if r.random() < self.cfg.get("reject", 0.1):
            # refused at the counter: the exchange's feed never mentions it
            o["refused"] = True
            w.after(d, self.result_reject, oid, o)
            return
        if r.random() < 0.7:
            w.after(d, self.result_ok, oid, o)
        plan = []
        if r.random() < 0.4:
            plan.append("new")
        if r.random() < 0.1:
            plan.append("rejected")
        else:
            plan.append("open")
            k = r.choice([0, 0, 1, 2, 3])
            plan += ["filling"] * k
            if r.random() < 0.6:
                plan.append("filled")
        if r.random() < 0.25:
            plan.insert(r.randrange(1, len(plan) + 1), "text")
        t = d
        for s in plan:
            t += self.delay(r)
            w.after(t, self.advance, oid, o, s)

    def delay(self, r):
        return int(self.cfg.get("life", 2.0) * r.random() ** 2 * SEC)

    def alive(self, o):
        return o["day"] == self.day and o["state"] not in FINAL and self.w.now < self.quiet

    def view(self, o, status, text):
        avg = 10.0 + (o["amount"] % 37) / 8.0
        filled = o["filled"]
        v = view(status, filled, o["amount"] - filled if status in ("canceled", "partly_canceled") else 0, avg if filled else 0)
        v["err_msg"] = text
        v["d"], v["tm"] = o["day"], o["tm"]
        return v

    def result_ok(self, oid, o):
        if self.alive(o):
            self.append("result", o["day"], ",".join([self.stamp(), "1", oid, "0", "0", "ok"]))

    def result_reject(self, oid, o):
        if not self.alive(o):
            return
        o["state"] = "rejected"
        v = initial()
        v["status"] = "rejected"
        v["err_msg"] = o["r"].choice(["资金不足", "bad price", "非交易时间 x"])
        self.noise("result", o, oid)
        text = ",".join([self.stamp(), "1", oid, "1", "9", v["err_msg"]])
        raw = None
        if o["r"].random() < self.cfg.get("rawtext", 0.0):
            # a remark cut off inside a character: the rest of the line is readable
            raw = text.encode(self.enc) + b"\xe8\xb5" + self.eol.encode(self.enc)
            v["err_msg"] = None
            self.w.fault("cut_remark")
        self.append("result", o["day"], text, lambda: self.published(oid, v), raw=raw)
        self.noise("result", o, oid)

    def advance(self, oid, o, status):
        if not self.alive(o) or (o["cancel"] and status not in FINAL and status not in ("filling", "text", "canceling")):
            return
        r = o["r"]
        if status == "text":
            # the same figures once more with another remark
            if o["state"] is not None:
                self.publish(oid, o, self.view(o, o["state"], r.choice(TEXTS) + "*"))
            return
        if status == "filling":
            if o["state"] == "canceling" and r.random() < 0.7:
                status = "canceling"
            step = r.randrange(1, max(2, o["amount"] // 3))
            if o["filled"] + step >= o["amount"]:
                return
            o["filled"] += step
        elif status == "canceling" and r.random() < 0.4:
            o["filled"] = max(o["filled"], min(o["amount"] - 1, o["filled"] + 1 + o["amount"] // 4))
        elif status == "filled":
            o["filled"] = o["amount"]
        elif status == "canceled" and o["filled"]:
            status = "partly_canceled"
        o["state"] = status
        v = self.view(o, status, r.choice(TEXTS))
        self.publish(oid, o, v)
        if status in FINAL and r.random() < self.cfg.get("settle", 0.0):
            self.w.after(self.delay(r), self.settle, oid, o, v)

    def settle(self, oid, o, v):
        """The figures of a finished order once more, corrected."""
        if o["day"] == self.day and self.w.now < self.quiet:
            v = dict(v, err_msg=o["r"].choice(TEXTS) + "+", deal_balance=round(v["deal_balance"] + 1.25, 2))
            self.w.probe("settled")
            self.publish(oid, o, v)

    def publish(self, oid, o, v):
        self.noise("update", o, oid)
        # an order the exchange has not seen yet has no number there
        no = "" if v["status"] in ("new", "rejected") and o["r"].random() < 0.4 else "77"
        self.append("update", o["day"], self.line(oid, o, v, no), lambda: self.published(oid, v))
        self.noise("update", o, oid)

    def published(self, oid, v):
        self.pubs[oid].append(v)
        self.w.log("pub", id=oid, idx=len(self.pubs[oid]) - 1)

    def cancel(self, oid):
        o = self.orders.get(oid)
        w = self.w
        w.log("cancel_seen", id=oid)
        if o is None or not self.alive(o) or o["cancel"]:
            self.append("result", self.day, ",".join([self.stamp(), "2", oid, "1", "8", "无此委托"]),
                        lambda: w.log("cancel_refused", id=oid, day=day_str(w.wall())))
            return
        r = o["r"]
        o["cancel"] = True
        if r.random() < self.cfg.get("canceling", 0.3) and not o.get("refused"):
            w.after(self.delay(r), self.advance, oid, o, "canceling")
        w.after(self.delay(r) + int(self.cfg.get("life", 2.0) * self.cfg.get("slowcancel", 1) * SEC), self.advance, oid, o, "canceled")

    # ---- damaged and foreign lines ------------------------------------------------------------------------
    def noise(self, kind, o, oid):
        r, day = self.r, o["day"]
        if r.random() < self.cfg.get("foreign", 0.0):
            self.foreign(kind, day)
        if r.random() >= self.cfg.get("bad", 0.0):
            return
        self.w.fault("bad_line_" + kind)
        mark = "bad%d" % r.randrange(10 ** 6)
        k = r.choice(self.cfg.get("kinds") or ["short", "long", "blank", "num", "num", "status", "bytes", "date", "spaces",
                                               "one"])
        if kind == "result":
            base = [self.stamp(), "1", oid, "1", "9", mark]
            if k in ("num", "status", "date"):
                k = "short"
            if k == "short":
                base = base[:r.randrange(1, 6)]
            elif k == "long":
                base = base + ["x"] * r.choice([1, 3])
            elif k == "blank":
                base = [""]
            elif k == "spaces":
                base = ["   "]
            elif k == "one":
                base = ["x"]
            elif k == "bytes":
                self.append(kind, day, None, raw=b"\xff\xfe\x80,1,M1,1,9,\xff\xff" + self.eol.encode())
                return
            self.append(kind, day, ",".join(base), self.damaged(kind, day, oid, k))
            return
        v = self.view(o, r.choice(list(CODES)), mark)
        v["filled_amount"] = 1 + r.randrange(max(1, o["amount"]))
        it = self.line(oid, o, v, no="bad").split(",")
        ix = {c: i for i, c in enumerate(COLS)}
        if k == "short":
            it = it[:r.choice([1, 5, 12, 18, 19])]
        elif k == "long":
            it = it + ["y"] * r.choice([1, 2, 20])
        elif k == "blank":
            it = [""]
        elif k == "spaces":
            it = ["  \t "]
        elif k == "one":
            it = ["?"]
        elif k == "num":
            c = r.choice(["filledQty", "filledAmt", "cancelQty", "avgPrice"])
            it[ix[c]] = r.choice(["abc", "1..2", "0x1g", "--", "1e", "十二%"])
        elif k == "status":
            it[ix["status"]] = r.choice(["6", "99", "A", "-1", ""])
        elif k == "date":
            it[ix[r.choice(["orderDate", "orderTime"])]] = r.choice(["2024-13-45", "9:30", "xxxxxx"])
        elif k == "bytes":
            it[ix["text"]] = "@@"
            raw = (",".join(it) + self.eol).encode(self.enc).replace(b"@@", b"\xff\xff\x80" if self.enc != "latin-1" else b"")
            self.append(kind, day, None, self.damaged(kind, day, oid, k), raw=raw)
            return
        self.append(kind, day, ",".join(it), self.damaged(kind, day, oid, k))

    def damaged(self, kind, day, oid, k):
        return lambda: self.w.log("damaged", f=kind, day=day, id=oid, how=k)


def initial():
    return {"status": "new", "filled_amount": 0, "canceled_amount": 0, "deal_balance": 0, "avg_price": None,
            "err_msg": "", "d": None, "tm": None}


def view(status, filled, canceled, avg):
    return {"status": status, "filled_amount": filled, "canceled_amount": canceled,
            "deal_balance": round(filled * avg, 2), "avg_price": avg, "err_msg": "", "d": None, "tm": None}


def same(v, o, text=True):
    """Does the order object o (hook.order_view) show exactly the published view v?"""
    if o["status"] != v["status"] or o["filled_amount"] != v["filled_amount"] or \
            o["canceled_amount"] != v["canceled_amount"]:
        return False
    if abs((o["deal_balance"] or 0) - v["deal_balance"]) > 1e-6:
        return False
    if v["avg_price"] is None:
        if o["avg_price"] not in (None, 0):
            return False
    elif o["avg_price"] is None or abs(o["avg_price"] - round(v["avg_price"], 3)) > 1e-6:
        return False
    if text and v["err_msg"] is not None and (o["err_msg"] or "") != v["err_msg"]:
        return False
    if v["d"] is not None:
        want = "%s-%s-%s %s:%s:%s" % (v["d"][:4], v["d"][4:6], v["d"][6:], v["tm"][:2], v["tm"][2:4], v["tm"][4:])
        if o["entrust_time"] != want:
            return False
    return True
