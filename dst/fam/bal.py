"""Account figures from the broker's exports: A06, and the sellable quantity of A12."""
import datetime as dt
import os
import random

from .. import kernel as K
from .. import simfs
from ..stage import Stage, wall_dt, day_str, SEC, MS
from .sched import hms

PROPS = ("A06", "A12", "A14", "A15")

ACOLS = ("updTime", "acctType", "acct", "exchange", "enabledBalance", "currentBalance", "totalAsset")
PCOLS = ("updTime", "acctType", "acct", "symbol", "name", "currentQty", "enabledQty", "costPrice", "lastPrice", "mktValue")
POOL = ["%06d.%s" % (n, s) for n, s in [(1, "SZ"), (600000, "SH"), (300750, "SZ"), (688981, "SH"), (2594, "SZ"), (600519, "SH")]]


def jq(sym):
    return sym[:7] + ("XSHG" if sym.endswith("SH") else "XSHE")


# ---- generation --------------------------------------------------------------------------------------------------

def gen(r, prof="mix"):
    scn = {"fam": "bal", "mode": prof, "max_steps": 90000, "seed": r.getrandbits(40)}
    day = (dt.date(2023, 1, 1) + dt.timedelta(days=r.randrange(900))).isoformat()
    T = r.choice([10, 20, 40])
    night = r.random() < 0.12
    start = 86400 - T // 2 if night else r.choice([9 * 3600 + 1795, 13 * 3600, 100, 20 * 3600])
    scn["wall0"] = "%s %s.%03d" % (day, hms(start), r.randrange(1000))
    scn["cost"] = r.choice([[2000, 40000], [20000, 400000], [20000, 3000000]])
    acct = r.choice(["1001", "1001", "0010", "88012345678901", 1001])
    opts = {"account_no": acct, "order_dir": "ORDERS", "runtime_dir": "RUN", "sync_order": False,
            "sync_balance": r.random() < 0.3}
    if opts["sync_balance"]:
        opts["sync_internal"] = r.choice([1, 2, 5])
        if night:
            opts["sync_period"] = [[hms(start), "23:59:59"], ["00:00:00", hms(T)]]
        else:
            opts["sync_period"] = [[hms(start), hms(start + T + 5)]]
    k = r.random()
    if k < 0.6 or prof == "retry" and k < 0.8:
        opts["sync_retry_kwargs"] = {"max_attempts": r.choice([0, 1, 2, 3]), "attempt_internal": r.choice([0.01, 0.1, 0.3])}
    orders = prof == "sell" or prof == "mix" and r.random() < 0.5
    tasks, n = [], [0]

    def acts():
        out = []
        for _ in range(r.choice([1, 2, 3, 5])):
            k = r.random()
            if k < 0.45:
                out.append(["syncb"])
            elif k < 0.6:
                out.append(["port"])
            elif k < 0.7:
                out.append(["sleep", round(r.random() ** 2 * 2, 3)])
            elif not orders:
                out.append(["syncb"])
            else:
                def one():
                    n[0] += 1
                    sym = r.choice(POOL[:4])
                    d = {"ref": "o%d" % n[0], "code": jq(sym), "amount": r.choice([-1, -1, -1, 1]) * (
                        n[0] * 7 + r.choice([1, 50, 100, 300]))}
                    if r.random() < 0.4:
                        d["style"] = ["l", 9.5]
                    if r.random() < 0.15:
                        d["side"] = r.choice(["long", "short"])
                    if r.random() < 0.05:
                        d["amount"] = 0
                    return d
                if k < 0.9:
                    d = one()
                    out.append(["order", d["ref"], d["code"], d["amount"], d.get("style"), d.get("side", "long")])
                else:
                    out.append(["batch", "b%d" % n[0], [one() for _ in range(r.choice([1, 2, 4]))]])
                if r.random() < 0.3:
                    out.append(["port"])
        return out
    pre = acts() if r.random() < 0.3 else []
    for _ in range(r.choice([1, 3, 5, 8])):
        tasks.append({"time": hms(start + 1 + r.randrange(T)), "acts": acts()})
    tasks.append({"time": hms(start + T + 12), "keep": True, "acts": [["syncb"]]})
    scn["procs"] = {"a": {"opts": opts, "tasks": tasks, "pre": pre, "watch_pos": True, "log_out": True}}
    scn["events"] = [{"t": round(0.2 + r.random(), 3), "do": "start", "p": "a", "keep": True}]
    ex = []
    for kind in ("asset", "position"):
        first = r.choice([0.0, 0.0, 0.1, 2.0])
        if r.random() < 0.9:
            ex.append({"t": first, "kind": kind, "how": "trunc", "pieces": 1, "gap": 0})
        for _ in range(r.choice([0, 1, 3, 8, 20] if prof != "retry" else [0, 1, 3])):
            ex.append({"t": round(r.random() * T, 3), "kind": kind, "how": r.choice(["trunc"] * 6 + ["rename", "gone"]),
                       "pieces": r.choice([1, 1, 2, 3, 5] if prof != "retry" else [1, 2]),
                       "gap": r.choice([0.0002, 0.005, 0.05, 0.3, 2.0] if prof != "retry" else [0.02, 0.1, 0.3])})
        ex.append({"t": float(T + 2), "kind": kind, "how": "trunc", "pieces": 1, "gap": 0})
        if night:
            ex.append({"t": float(T // 2 + r.choice([1, 3, 6])), "kind": kind, "how": "trunc", "pieces": 1, "gap": 0})
    ex.sort(key=lambda x: x["t"])
    scn["export"] = {"seed": r.getrandbits(30), "list": ex, "rows": r.choice([0, 1, 4, 4, 6]),
                     "bulk": r.choice([0, 0, 0, 0, 60, 160]), "others": r.choice([0, 0, 1, 3]),
                     "zero": r.choice([0, 0.1, 0.5]), "eol": r.choice(["\n", "\r\n"]), "tail": r.choice(["\n", ""]),
                     "asset_absent": r.choice([0, 0, 0.2])}
    faults = []
    quiet = T + 1.5
    kw = opts.get("sync_retry_kwargs") or {"max_attempts": 3, "attempt_internal": 0.15}
    patience = max(0.01, kw["max_attempts"] * kw["attempt_internal"])
    for _ in range(r.choice([0, 1, 1, 2, 4] if prof != "retry" else [1, 3, 5, 8])):
        k = r.random() if prof != "retry" or r.random() < 0.3 else 0.0
        if k < 0.55:
            faults.append({"op": ["read", "open"] if r.random() < 0.3 else ["read"], "cls": [r.choice(["asset", "position"])],
                           "n": r.randrange(1, r.choice([4, 12, 40])), "do": "export", "until": quiet,
                           "kind": r.choice(["same", "same", "same", "other"]), "how": r.choice(["trunc", "trunc", "rename"]),
                           "keep": r.random() < 0.6, "pieces": r.choice([1, 1, 2] if prof != "retry" else [2, 3]),
                           "gap": r.choice([0.0005, 0.05] if prof != "retry" else [0.3 * patience, 0.8 * patience, 1.5 * patience])})
        elif k < 0.8:
            faults.append({"op": [r.choice(["read", "open"])], "cls": [r.choice(["asset", "position"])],
                           "n": r.randrange(1, 10), "do": r.choice(["EIO", "EACCES"]), "times": r.choice([1, 1, 2, 5]),
                           "until": quiet})
        elif k < 0.9:
            faults.append({"op": ["read"], "cls": [r.choice(["asset", "position"])], "n": r.randrange(1, 10), "do": "short",
                           "times": r.choice([1, 5]), "until": quiet, "frac": r.random()})
        else:
            faults.append({"op": ["write"], "cls": ["order"], "n": r.randrange(1, 6), "do": "ENOSPC", "times": r.choice([1, 3]),
                           "until": quiet})
    if scn["export"]["bulk"] and r.random() < 0.6:
        kind = r.choice(["position", "position", "asset"])
        faults.append({"op": ["open"], "cls": [kind], "n": r.randrange(1, 6), "do": "export", "until": quiet, "kind": "same",
                       "how": "trunc", "keep": True, "pieces": 1, "gap": 0, "twin": r.choice([2, 2, 3])})
    scn["faults"] = faults
    scn["clock"] = {}
    scn["end"] = T + 30.0
    return scn


# ---- the exporting terminal --------------------------------------------------------------------------------------

class Exporter(object):
    def __init__(self, st, cfg, acct):
        self.st, self.w, self.cfg = st, st.w, cfg
        self.acct = str(acct)
        self.r = random.Random("export/%s" % cfg["seed"])
        self.n = 0
        self.gen = {"asset": 0, "position": 0}       # write generation: an older write in progress stops
        self.place = {"asset": [], "position": []}   # [day, version, q from, q to, t from, t to]
        self.versions = []
        self.state = {}
        self.follow = None
        for e in cfg["list"]:
            st.at(e["t"], self.export, e["kind"], e["how"], e["pieces"], e["gap"])

    def path(self, kind, day):
        return os.path.join(self.st.order_dir, ("assetInfo_" if kind == "asset" else "positionInfo_") + day + ".csv")

    def other(self):
        return self.r.choice(["1002", "100", "10010", "2001", "1", self.acct + "1", self.acct[:-1] or "9", "0" + self.acct,
                              self.acct.lstrip("0")])

    def content(self, kind):
        """-> (version number, bytes).  Every version has figures of its own."""
        r, cfg = self.r, self.cfg
        self.state[kind] = r.getstate()
        self.n += 1
        n = self.n
        rows, view = [], None
        now = "%06d.000" % (n % 1000000)
        if kind == "asset":
            total, en, cur = 1000.0 * n + 0.25, 100.0 * n + 0.5, 100.0 * n + 0.5 + r.choice([0, 7.25, 1000.0])
            if r.random() < 0.3:
                total, en, cur = total + 0.0017, en + 0.0009, cur + 0.0009
            if r.random() < 0.15:
                en = 0.0
            if r.random() < 0.1:
                total, en, cur = float(n), 0.0, 0.0
            if r.random() >= cfg["asset_absent"]:
                view = [total, en, round(cur - en, 4)]
                ex = [["XSHE", "XSHG"], ["1"], []][r.randrange(3)]
                mine = [[now, "UM0", self.acct, x, "1.00", "2.00", "%.2f" % (3.0 + n)] for x in ex]
                mine.append([now, "UM0", self.acct, "", "%.4f" % en, "%.4f" % cur, "%.4f" % total])
            else:
                mine = []
            for _ in range(cfg["others"]):
                o = self.other()
                if o == self.acct:
                    continue
                rows.append([now, "UM0", o, "", "%.2f" % (5.0 + n), "%.2f" % (6.0 + n), "%.2f" % (7.0 + n)])
            rows.insert(r.randrange(len(rows) + 1), None)
            i = rows.index(None)
            rows[i:i + 1] = mine
            for k in range(cfg["bulk"]):
                rows.insert(0, [now, "UM0", "7%05d" % k, "", "1.00", "2.00", "%.2f" % k])
            if not rows:
                rows = [[now, "UM0", "7777", "", "1.00", "2.00", "3.00"]]
            cols = ACOLS
        else:
            view = {}
            syms = list(POOL)
            r.shuffle(syms)
            syms = syms[:cfg["rows"]] + ["%06d.SZ" % (100000 + k) for k in range(cfg["bulk"])]
            for s in syms:
                qty = 0 if r.random() < cfg["zero"] else r.choice([100, 300, 1000, 10000]) + n
                av = r.choice([0, qty, qty, qty // 2])
                cost, last = 10 + n / 1000.0, 11 + n / 1000.0
                k = r.random()
                if k < 0.06:
                    last = 0.0          # no price yet
                elif k < 0.12:
                    cost = -cost if k < 0.09 else 0.0
                rows.append([now, "UM0", self.acct, s, "证券%d" % (n % 7), str(qty), str(av), "%.3f" % cost, "%.3f" % last,
                             "%.4f" % (qty * last)])
                if qty:
                    view["long:" + jq(s)] = [qty, av, round(cost, 3), round(last, 3), float("%.4f" % (qty * last)), "long"]
            for _ in range(cfg["others"]):
                o = self.other()
                if o != self.acct:
                    rows.insert(r.randrange(len(rows) + 1), [now, "UM0", o, r.choice(POOL), "x", "500", "400", "5.000", "6.000",
                                                             "3000.00"])
            if not rows:
                rows = [[now, "UM0", "7777", POOL[0], "x", "5", "4", "5.000", "6.000", "30.00"]]
            cols = PCOLS
        eol = cfg["eol"]
        text = eol.join([",".join(cols)] + [",".join(x) for x in rows] + ["," * (len(cols) - 1)]) + (
            eol if cfg["tail"] else "")
        self.versions.append((kind, view))
        data = text.encode("utf-8")
        # everything but the closing empty row
        return len(self.versions) - 1, data, len(data) - len(data.rstrip(b"\r\n,")) - len(eol)

    def stampfile(self, path):
        t = self.w.wall()
        self.seqn = getattr(self, "seqn", 0) + 1
        os.utime(path, ns=(t, t + self.seqn % 97))

    def leave(self, kind):
        """The version in place, if any, is no longer complete."""
        for p in self.place[kind]:
            if p[3] is None:
                q = self.w.log("export_gone", f=kind, v=p[1])["q"]
                p[3], p[5] = q, self.w.now

    def export(self, kind, how, pieces, gap):
        day = day_str(self.w.wall())
        path = self.path(kind, day)
        self.gen[kind] += 1
        g = self.gen[kind]
        if how == "gone":
            self.leave(kind)
            try:
                simfs.real_unlink(path)
            except FileNotFoundError:
                pass
            self.w.log("export_file", f=kind, there=False)
            return
        v, data, closing = self.content(kind)
        enough = len(data) - closing + 1
        if how == "rename":
            with simfs.real_open(path + ".new", "wb") as f:
                f.write(data)
            self.leave(kind)
            simfs.real_replace(path + ".new", path)
            self.stampfile(path)
            self.w.log("export_file", f=kind, there=True)
            self.shown(kind, day, v)
            self.done(kind, day, v)
            return
        self.leave(kind)
        with simfs.real_open(path, "wb"):
            pass
        self.stampfile(path)
        self.w.log("export_file", f=kind, there=True)
        cuts = sorted({self.r.randrange(1, len(data)) for _ in range(pieces - 1)})
        cuts = [0] + cuts + [len(data)]
        t = 0.0
        for i, (a, b) in enumerate(zip(cuts, cuts[1:])):
            last = i == len(cuts) - 2
            if i == 0 and pieces == 1:
                self.piece(kind, g, path, data[a:b], day, v, a < enough <= b, last)
            else:
                t += self.r.random() * gap
                self.w.after(int(t * SEC) + 1, self.piece, kind, g, path, data[a:b], day, v, a < enough <= b, last)
        if pieces > 1:
            self.w.fault("export_in_pieces")

    def piece(self, kind, g, path, data, day, v, first, last):
        if self.gen[kind] != g:
            return
        with simfs.real_open(path, "ab") as f:
            f.write(data)
        self.stampfile(path)
        if first:
            self.shown(kind, day, v)
        if last:
            self.done(kind, day, v)

    def shown(self, kind, day, v):
        """All figures are in the file; at most a part of the closing row is missing."""
        q = self.w.log("export_data", f=kind, day=day, v=v)["q"]
        self.place[kind].append([day, v, q, None, self.w.now, None, None])

    def done(self, kind, day, v):
        self.place[kind][-1][6] = self.w.log("export", f=kind, day=day, v=v)["q"]

    def at_read(self, f):
        """A rewrite at exactly this read: aimed by the fault plan."""
        kind = self.cur_kind if f["kind"] == "same" else ("position" if self.cur_kind == "asset" else "asset")
        self.export(kind, f["how"], f["pieces"], f["gap"])
        if f.get("twin"):
            self.follow = [kind, f["twin"]]

    def next_read(self, kind):
        """Some reads after such a rewrite: once more, with figures of the same widths (and within the same second)."""
        if self.follow is None or self.follow[0] != kind:
            return
        self.follow[1] -= 1
        if self.follow[1]:
            return
        self.follow = None
        now = self.r.getstate()
        self.r.setstate(self.state[kind])
        self.export(kind, "trunc", 1, 0)
        self.r.setstate(now)
        self.w.fault("export_twin")


def build(scn, keep_trace=False):
    st = Stage(scn, keep_trace)
    st.exporter = Exporter(st, scn["export"], scn["procs"]["a"]["opts"]["account_no"])
    inner = st.fault_hook

    def fh(th, kind, detail, obj):
        if obj is not None and obj[1] in ("asset", "position"):
            st.exporter.cur_kind = obj[1]
            if kind == "read":
                st.exporter.next_read(obj[1])
        return inner(th, kind, detail, obj)
    if st.faults:
        st.w.fault_hook = fh
    return st


# ---- judging -----------------------------------------------------------------------------------------------------

def near(a, b):
    return isinstance(a, (int, float)) and not isinstance(a, bool) and abs(a - b) < 1e-6


def cash_is(c, v):
    return all(near(x, y) for x, y in zip(c, v))


def pos_is(p, v, skip):
    if set(p) != set(v):
        return False
    for k, a in p.items():
        b = v[k]
        for i in range(6):
            if i == 1 and skip:
                continue
            if i == 5:
                if a[i] != b[i]:
                    return False
            elif not near(a[i], b[i]):
                return False
    return True


def check(st):
    V, seen = [], set()

    def bad(prop, code, msg):
        if (prop, code) not in seen:
            seen.add((prop, code))
            V.append((prop, code, msg))
    w, scn, X = st.w, st.scn, st.exporter
    H = w.history
    if w.abort_reason:
        bad("A06", "endless", "the process spins (%s) in %s" % (w.abort_reason, w.abort_where))
        return V
    periodic = scn["procs"]["a"]["opts"]["sync_balance"]
    for e in H:
        if e["k"] == "exit" and e["how"] == "exc":
            pr = st.procs["a"][0]
            bad("A06", "died", "the strategy died: %s" % pr.stderr.text()[-600:])
            return V

    def placed(kind, day, q0, q1):
        return [p for p in X.place[kind] if p[0] in day and p[2] < q1 and (p[3] is None or p[3] > q0)]

    zero = ([0, 0, 0], {})
    cur = zero                  # what the strategy saw last
    closeable = {}              # code -> sellable quantity expected now, None: unknown
    known = not periodic
    sync = None
    last_q = 0
    lastday = None
    faultq = [e["q"] for e in H if e["k"] == "fault"]
    for n, e in enumerate(H):
        k = e["k"]
        if k == "syncb_call":
            sync = e
        elif k == "syncb_ret":
            if e["exc"]:
                bad("A06", "raised", "sync_balance raised %s" % e["exc"])
            errs = [x["text"] for x in H[:n] if x["k"] == "out" and x["q"] > sync["q"] and
                    ("[ERROR]" in x["text"] or "[CRITICAL]" in x["text"])]
            aa, pp = placed("asset", {day_str(sync["w"]), day_str(e["w"])}, sync["q"], e["q"]), placed(
                "position", {day_str(sync["w"]), day_str(e["w"])}, sync["q"], e["q"])
            if not (aa and pp) or all(X.versions[p[1]][1] is None for p in aa):
                w.probe("incomplete_reported")
                if not errs:
                    bad("A14", "unreported", "no complete export was in place during a balance synchronisation and the log has no error entry")
            elif not any(sync["q"] < q < e["q"] for q in faultq) and day_str(sync["w"]) == day_str(e["w"]) and errs and \
                    len(aa) == 1 and len(pp) == 1 and full(aa[0], sync["q"]) and full(pp[0], sync["q"]) and \
                    X.versions[aa[0][1]][1] is not None and (aa[0][3] is None or aa[0][3] > e["q"]) and \
                    (pp[0][3] is None or pp[0][3] > e["q"]):
                bad("A14", "false-error", "intact exports were in place, the log says %s" % errs[-1])
        elif k == "port":
            if e["exc"]:
                bad("A06", "query", "reading the portfolio failed: %s" % e["exc"])
                continue
            now = (e["cash"], e["pos"])
            explicit = sync is not None and H[n - 1]["k"] == "syncb_ret"
            days = {day_str(e["w"])}
            if sync is not None:
                days.add(day_str(sync["w"]))
            if periodic:
                days.add(lastday or day_str(H[0]["w"]))
            lastday = day_str(e["w"])
            if explicit:
                q0, t0, q1 = (sync["q"], sync["t"], e["q"])
            else:
                q0, q1 = last_q, e["q"]
            pv = sum(p[4] for p in e["pos"].values())
            if not near(e["pv"], pv):
                bad("A06", "value", "portfolio.position_value is %r, the positions add up to %r" % (e["pv"], pv))
            if periodic and explicit:
                q0p = last_q            # a periodic synchronisation may have come before as well
            else:
                q0p = q0
            same = cash_is(now[0], cur[0]) and pos_is(now[1], cur[1], True)
            if not explicit and not periodic:
                if not same:
                    bad("A06", "changed", "the account changed without a synchronisation: %s -> %s" % (short(cur), short(now)))
            else:
                aa = placed("asset", days, q0p, q1)
                pp = placed("position", days, q0p, q1)
                okc = any(X.versions[p[1]][1] is not None and cash_is(now[0], X.versions[p[1]][1]) for p in aa)
                okp = any(pos_is(now[1], X.versions[p[1]][1], periodic or not explicit) for p in pp)
                if not same and not (okc and okp):
                    what = "cash %s" % (now[0],) if not okc else "positions %s" % (short(now)[1],)
                    known_c = cash_is(now[0], cur[0])
                    known_p = pos_is(now[1], cur[1], True)
                    if okc and known_p or okp and known_c:
                        what = "half of an update (%s kept)" % ("positions" if known_p else "cash")
                    bad("A06", "never-exported", "the account shows %s; no complete export in place during the "
                        "synchronisation says so (before: %s)" % (what, short(cur)))
                if explicit and len(aa) == 1 and len(pp) == 1 and full(aa[0], sync["q"]) and full(pp[0], sync["q"]) and \
                        (aa[0][3] is None or aa[0][3] > e["q"]) and (pp[0][3] is None or pp[0][3] > e["q"]) and \
                        not any(sync["q"] < q < e["q"] for q in faultq) and len(days) == 1:
                    va, vp = X.versions[aa[0][1]][1], X.versions[pp[0][1]][1]
                    if va is not None and not (cash_is(now[0], va) and pos_is(now[1], vp, periodic)):
                        bad("A06", "not-taken", "intact exports (cash %s, %d positions) were in place, the account still shows %s" % (
                            va, len(vp), short(now)))
                    w.probe("intact_sync")
                if explicit and len(days) == 1:
                    judge_retry(scn, w, X, bad, H, sync, H[n - 1], aa, okc and okp)
            cur = now
            last_q = e["q"]
            if known:
                if not explicit:
                    for c, q in closeable.items():
                        have = now[1].get("long:" + c, [0, 0])[1]
                        if have != q:
                            bad("A12", "sellable-drift", "the sellable quantity of %s is %s, expected %s" % (c, have, q))
                # after an update the figures are new; an unsuccessful synchronisation keeps them
                if explicit:
                    if same:
                        for c, q in list(closeable.items()):
                            have = now[1].get("long:" + c, [0, 0])[1]
                            if have != q and not (placed("position", days, sync["q"], e["q"])):
                                bad("A12", "sellable-drift", "the sellable quantity of %s is %s after a failed "
                                    "synchronisation, expected %s" % (c, have, q))
                    closeable = {}
                closeable.update({c[5:]: p[1] for c, p in now[1].items()})
        elif k == "order_call":
            pend = e
        elif k == "order_ret":
            judge_close(bad, pend["code"], pend["amount"], e["id"] is not None, pend["close"], e["close"], pend["side"], w)
            if known and isinstance(e["close"], int):
                if pend["code"] in closeable and isinstance(pend["close"], int) and closeable[pend["code"]] != pend["close"]:
                    bad("A12", "sellable-drift", "the sellable quantity of %s changed from %s to %s on its own" % (
                        pend["code"], closeable[pend["code"]], pend["close"]))
                closeable[pend["code"]] = e["close"]
        elif k == "batch_call":
            pend = e
        elif k == "batch_ret":
            if isinstance(e["res"], list) and e["close"] is not None:
                for c, b in pend["close"].items():
                    want = b
                    for it, rid in zip(pend["items"], e["res"]):
                        if it.get("code") == c and rid is not None and it["amount"] < 0 and it.get("side", "long") == "long":
                            want = max(want - abs(it["amount"]), 0)
                    if e["close"][c] != want:
                        bad("A12", "sellable", "batch %s changed the sellable quantity of %s from %s to %s instead of %s" % (
                            [(it["code"], it["amount"], x) for it, x in zip(pend["items"], e["res"])], c, b, e["close"][c], want))
                    if known:
                        closeable[c] = e["close"][c]
    return V


def judge_retry(scn, w, X, bad, H, call, ret, aa, taken):
    """A15: as many attempts as configured, at the configured interval, and no more."""
    kw = scn["procs"]["a"]["opts"].get("sync_retry_kwargs") or {}
    n, iv = kw.get("max_attempts", 3), kw.get("attempt_internal", 0.15)
    limit = 2 * n * iv + 0.1 + 150 * scn["cost"][1] / 1e9
    if (ret["t"] - call["t"]) / SEC > limit:
        bad("A15", "too-long", "a synchronisation took %.3f s with %d retries every %s s" % ((ret["t"] - call["t"]) / SEC, n, iv))
    if any(X.versions[p[1]][1] is None for p in aa):
        return
    inside = [e for e in H[H.index(call):] if call["q"] < e["q"] < ret["q"]]
    faults = [e for e in inside if e["k"] == "fault"]
    ready = call["t"]
    for kind in ("asset", "position"):
        last = X.place[kind][-1] if X.place[kind] else None
        for p in X.place[kind]:
            if p[3] is None or p[3] > ret["q"]:
                last = p
                break
        else:
            return
        if last[6] is None or last[6] > ret["q"]:
            return
        if any(e["k"] == "export_file" and e["f"] == kind and not e["there"] for e in inside):
            return
        there = [e for e in H if e["k"] == "export_file" and e["f"] == kind and e["q"] < call["q"]]
        if not there or not there[-1]["there"]:
            return
        if last[0] != day_str(call["w"]):
            return
        ready = max(ready, next(e["t"] for e in H if e["q"] == last[6]))
        if last[6] > call["q"]:
            # the attempt during which an export is replaced may fail
            ready = max(ready, call["t"] + 1)
    if faults:
        if ready > call["t"] or len(faults) > n:
            return
    elif ready > call["t"] + int(n * iv * SEC):
        return
    if not taken:
        bad("A15", "gave-up", "%s; %d retries every %s s were configured, but the synchronisation failed" % (
            "%d reads failed" % len(faults) if faults else "the exports were complete %.3f s after the synchronisation began" % (
                (ready - call["t"]) / SEC), n, iv))
    elif faults or ready > call["t"]:
        w.probe("retried")


def judge_close(bad, code, amount, accepted, before, after, side, w):
    if not isinstance(before, int) or not isinstance(after, int):
        if isinstance(before, str) or isinstance(after, str):
            bad("A12", "query", "reading a position failed: %s %s" % (before, after))
        return
    want = before
    if accepted and amount < 0 and side == "long":
        want = max(before - abs(amount), 0)
        w.probe("sell_accepted" if before else "sell_accepted_flat")
    if after != want:
        bad("A12", "sellable", "%s order %s of %s: the sellable quantity went from %s to %s instead of %s" % (
            "an accepted" if accepted else "a refused", amount, code, before, after, want))


def full(p, q):
    return p[6] is not None and p[6] < q


def short(x):
    return [x[0], {c: p[:2] for c, p in list(x[1].items())[:4]}]


def nontrivial(st):
    ks = set(e["k"] for e in st.w.history)
    return "port" in ks and "export" in ks
