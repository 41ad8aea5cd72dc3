"""Machine crashes: the order record found on restart is one that had been saved completely before (A13)."""
import datetime as dt
import os
import random

from .. import kernel as K
from .. import simfs
from ..broker import Broker, same
from ..stage import Stage, day_str, SEC
from .gate import Gen, Call, requests, details, brief, day_of
from .sched import hms

PROPS = ("A13",)


# ---- generation --------------------------------------------------------------------------------------------------

def gen(r, prof="mix"):
    g = Gen(r, "kill")
    day = (dt.date(2023, 1, 1) + dt.timedelta(days=r.randrange(900))).isoformat()
    start = r.choice([9 * 3600 + 1800, 14 * 3600, 60, 20 * 3600])
    T = r.choice([20, 60, 150])
    enc = r.choice(["utf-8", "gbk"])
    weights = {"order": 6, "batch": 2, "sync": 3, "query": 1, "cancel": 1, "sleep": 1}
    opts = {"account_no": "1001", "order_dir": "ORDERS", "runtime_dir": "RUN", "sync_balance": False, "file_encoding": enc,
            "sync_retry_kwargs": {"max_attempts": 1, "attempt_internal": 0.05}}
    if r.random() < 0.5:
        opts["sync_order"] = False
    else:
        opts["sync_internal"] = r.choice([1, 5, 30])
        opts["sync_period"] = [[hms(start), hms(start + T + 30)]]
    tasks = [{"time": hms(start + 1 + r.randrange(T)), "acts": g.acts(weights)} for _ in range(r.choice([2, 4, 6, 10]))]
    scn = {"fam": "crash", "mode": "crash", "max_steps": 80000, "seed": r.getrandbits(40),
           "wall0": "%s %s.%03d" % (day, hms(start), r.randrange(1000)),
           "cost": r.choice([[2000, 40000], [2000, 400000], [20000, 3000000]]),
           "procs": {"a": {"opts": opts, "tasks": tasks, "pre": [["synco"], ["sleep", 0.01]]}},
           "broker": {"seed": r.getrandbits(30), "enc": enc, "eol": "\n", "poll": r.choice([0.05, 1.0]),
                      "life": r.choice([0.2, 2.0]), "until": T + 8.0, "start": 0.0, "tear": 0, "gap": 0.1, "header": True,
                      "bad": 0.0, "foreign": 0.0, "rows": 0, "reject": 0.2, "files": 0, "open_delay": 0}}
    ev = [{"t": 0.2, "do": "restart", "p": "a", "keep": True}]
    faults = []
    n = r.choice([1, 1, 2, 3, 5])
    for k in range(n):
        if r.random() < 0.7:
            kk = r.random()
            f = {"p": "a", "inc": k, "do": "mcrash", "n": r.randrange(1, r.choice([5, 15, 40])), "until": T + 15.0}
            if kk < 0.6:
                f["op"] = ["open", "write", "fsync", "rename", "truncate", "unlink"]
                f["cls"] = ["record"]
            elif kk < 0.9:
                f["op"] = ["open", "write", "flock", "unlock", "rename", "fsync", "truncate", "read"]
                f["in"] = ["order", "batch", "cancel", "synco"]
            else:
                f["op"] = ["*"]
                f["n"] = r.randrange(1, 500)
            faults.append(f)
        else:
            ev.append({"t": round(0.5 + r.random() * T, 3), "do": "mcrash"})
        ev.append({"t": round(1 + r.random() * T, 3), "do": "restart", "p": "a"})
    if r.random() < 0.3:
        ev.append({"t": round(0.5 + r.random() * T, 3), "do": "kill", "p": "a"})
    for _ in range(r.choice([0, 0, 1, 2, 4])):
        ev.append({"t": round(r.random() * T, 3), "do": "writeback"})
    if r.random() < 0.2:
        faults.append({"op": [r.choice(["write", "fsync", "rename"])], "cls": ["record"], "in": ["order", "batch"],
                       "n": r.randrange(1, 8), "do": r.choice(["ENOSPC", "EIO"]), "times": r.choice([1, 2])})
    ev.append({"t": T + 20.0, "do": "mcrash"})
    ev.append({"t": T + 21.0, "do": "restart", "p": "a", "keep": True})
    scn["events"] = ev
    scn["faults"] = faults
    scn["survive"] = r.getrandbits(30)
    scn["end"] = T + 30.0
    return scn


# ---- the disk ----------------------------------------------------------------------------------------------------

class Disk(object):
    """What of the data directory is certain to survive, and the operations since.  Directory operations (create, rename,
    unlink) reach the disk in order; an fsync makes the file's data and all directory operations before it durable; other
    writes may or may not have reached the disk, also partly."""

    def __init__(self, st):
        self.st = st
        self.r = random.Random("disk/%s" % st.scn["survive"])
        self.crashes = 0
        self.whole = {}      # path -> every content it had when a save was complete
        self.left = {}       # path -> content the last crash left behind
        st.w.log_hook = self.on_log
        st.fs.jhook = self.on_op
        st.fs.read_hook = self.on_read
        self.settle()

    def settle(self):
        """Everything written so far is durable."""
        d = self.st.data_dir
        self.base = []
        if os.path.isdir(d):
            for n in sorted(simfs.real_listdir(d)):
                p = os.path.join(d, n)
                with simfs.real_open(p, "rb") as f:
                    self.base.append((p, simfs.real_os_stat(p).st_ino, f.read()))
        self.st.fs.journal = []

    def note_whole(self, p):
        try:
            with simfs.real_open(p, "rb") as f:
                self.whole.setdefault(p, set()).add(f.read())
        except OSError:
            pass

    def on_log(self, e):
        # nothing is being saved when a call of the strategy has returned
        if e["k"].endswith("_ret") or e["k"] == "inited":
            d = self.st.data_dir
            if os.path.isdir(d):
                for n in simfs.real_listdir(d):
                    self.note_whole(os.path.join(d, n))

    def on_op(self, op):
        if op[0] == "rename":
            self.note_whole(op[2])
        elif op[0] == "fsync":
            for n in simfs.real_listdir(self.st.data_dir):
                self.note_whole(os.path.join(self.st.data_dir, n))

    def on_read(self, p):
        data = self.left.pop(p, None)
        if data is None:
            return
        with simfs.real_open(p, "rb") as f:
            now = f.read()
        if now == data and data not in self.whole.get(p, ()):
            self.st.w.log("damaged", file=os.path.basename(p), size=len(data), sizes=sorted(len(x) for x in self.whole.get(p, ())))

    def request(self):
        self.st.w.at(self.st.w.now, self.crash)

    def crash(self):
        st, w = self.st, self.st.w
        for p in list(w.procs):
            if p.alive:
                w.kill(p, "POWER")
        self.crashes += 1
        w.fault("machine_crash")
        names, kind = self.survivors()
        d = st.data_dir
        if os.path.isdir(d):
            for n in simfs.real_listdir(d):
                simfs.real_unlink(os.path.join(d, n))
            for p, data in sorted(names.items()):
                with simfs.real_open(p, "wb") as f:
                    f.write(data)
        self.left = dict(names)
        w.log("mcrash", kept=kind, files={os.path.basename(p): len(x) for p, x in names.items()})
        self.settle()

    def survivors(self):
        r, J = self.r, self.st.fs.journal
        objs = []            # [bytes so far]
        durable_upto = {}    # obj -> index of its last fsync
        cur, names = {}, {}
        for p, ino, data in self.base:
            objs.append(bytearray(data))
            cur[ino] = len(objs) - 1
            names[p] = len(objs) - 1
        opobj = []
        meta = []
        lastsync = -1
        c2 = dict(cur)
        nobj = len(objs)
        for k, op in enumerate(J):
            o = None
            if op[0] == "create":
                c2[op[2]] = o = nobj
                nobj += 1
                meta.append(k)
            elif op[0] in ("rename", "unlink"):
                meta.append(k)
            else:
                o = c2.get(op[1])
                if op[0] == "fsync":
                    lastsync = k
                    if o is not None:
                        durable_upto[o] = k
            opobj.append(o)
        objs += [bytearray() for _ in range(nobj - len(objs))]
        lo = sum(1 for k in meta if k < lastsync)
        cut = r.choice([lo, len(meta), r.randint(lo, len(meta))])
        style = r.choice(["drop", "keep", "mix", "mix", "torn"])
        kept = lost = 0
        for k, op in enumerate(J):
            o = opobj[k]
            if o is None or op[0] not in ("write", "trunc"):
                continue
            frac = 1.0
            if k > durable_upto.get(o, -1):
                frac = {"drop": 0.0, "keep": 1.0, "mix": float(r.random() < 0.5), "torn": r.random()}[style]
            b = objs[o]
            if op[0] == "trunc":
                if frac > 0.5:
                    if len(b) > op[2]:
                        del b[op[2]:]
                    else:
                        b.extend(b"\0" * (op[2] - len(b)))
                continue
            data = op[3][:int(len(op[3]) * frac + 0.5)]
            kept += frac == 1.0
            lost += frac < 1.0
            if data:
                if len(b) < op[2]:
                    b.extend(b"\0" * (op[2] - len(b)))
                b[op[2]:op[2] + len(data)] = data
        for k in meta[:cut]:
            op = J[k]
            if op[0] == "create":
                names[op[1]] = opobj[k]
            elif op[0] == "rename":
                if op[1] in names:
                    names[op[2]] = names.pop(op[1])
            else:
                names.pop(op[1], None)
        if lost:
            self.st.w.fault("lost_write", lost)
        if cut < len(meta):
            self.st.w.fault("lost_directory_op", len(meta) - cut)
        return {p: bytes(objs[o]) for p, o in names.items()}, [kept, lost, cut, len(meta)]


class CrashStage(Stage):
    def ev_mcrash(self, ev):
        self.disk.crash()

    def ev_writeback(self, ev):
        self.w.fault("writeback")
        self.w.log("writeback")
        self.disk.settle()


def build(scn, keep_trace=False):
    st = CrashStage(scn, keep_trace)
    st.broker = Broker(st, scn["broker"])
    st.disk = Disk(st)
    return st


# ---- judging -----------------------------------------------------------------------------------------------------

def check(st):
    V, seen = [], set()

    def bad(prop, code, msg):
        if (prop, code) not in seen:
            seen.add((prop, code))
            V.append((prop, code, msg))
    w = st.w
    H = w.history
    if w.abort_reason:
        bad("A13", "endless", "the process spins (%s) inside %s" % (w.abort_reason, w.abort_where))
        return V
    att = []             # [amount, item, "acked" / "refused" / "open", call event, ret event]
    openi = []
    floor = {}           # amount -> state index that must be shown at least
    shown = {}           # amount -> state index shown last
    ack = {}             # amount -> id
    crashed = None
    pubs = {}
    ids = {}
    for e in H:
        k = e["k"]
        if k in ("order_call", "batch_call"):
            openi = []
            for it in requests(e):
                a = it.get("amount")
                if isinstance(a, int) and a:
                    ent = [abs(a), it, "open", e]
                    att.append(ent)
                    openi.append(ent)
                else:
                    openi.append(None)
        elif k in ("order_ret", "batch_ret"):
            res = [e["id"]] if k == "order_ret" else e["res"]
            for ent, rid in zip(openi, res if isinstance(res, list) else []):
                if ent is not None:
                    ent[2] = "acked" if rid else "refused"
                    if rid:
                        ids[ent[0]] = rid
            openi = []
        elif k == "pub":
            pubs[e["id"]] = e["idx"] + 1
        elif k == "writeback" and crashed is None:
            for ent in att:
                if ent[2] == "acked":
                    floor[ent[0]] = max(floor.get(ent[0], 0), shown.get(ent[0], 0))
        elif k == "mcrash":
            crashed = e
        elif k == "damaged":
            bad("A13", "damaged", "the record %s read after the crash (%d bytes) is not one that had been saved (%s bytes)" % (
                e["file"], e["size"], e["sizes"][-8:]))
        elif k == "orders" and e["exc"]:
            bad("A13", "query-raised", "get_orders raised %s" % e["exc"])
        elif k == "orders":
            first = crashed is not None
            have = {}
            for oid, o in e["orders"].items():
                have[o["amount"]] = o
                P = st.broker.pubs.get(oid)
                ent = next((x for x in att if x[0] == o["amount"]), None)
                if ent is None:
                    bad("A13", "invented", "an order nobody placed is listed: %s" % brief(o))
                    continue
                if not details(o, ent[1]):
                    bad("A13", "details", "order %s is shown as %s" % (ent[1], o))
                if o["amount"] in ids and ids[o["amount"]] != oid:
                    bad("A13", "other-id", "order %s of id %s is shown under id %s" % (ent[1], ids[o["amount"]], oid))
                n = pubs.get(oid, 1)
                hit = [j for j in range(n) if same(P[j], o)] if P else []
                if not hit and o["status"] not in ("new", "rejected"):
                    bad("A13", "unpublished", "order %s is shown as %s, which the broker never published" % (oid, brief(o)))
                if hit:
                    shown[o["amount"]] = hit[0]
            if first:
                for a in floor:
                    if a not in have:
                        bad("A13", "older-record", "order %s was in a record that had reached the disk before the crash, but "
                            "is unknown after it" % ids.get(a))
                gap = None
                for ent in att:
                    if ent[2] == "acked" and ent[0] not in have:
                        gap = gap or ent
                    elif gap and ent[0] in have:
                        bad("A13", "mixed", "after the crash order %s is known but the earlier order %s is not" % (
                            ent[1], gap[1]))
                # orders lost in the crash stay unknown; what is known now is on the disk
                att = [x for x in att if x[0] in have]
                for a, o in have.items():
                    floor[a] = max(floor.get(a, 0), shown.get(a, 0))
                    ids.setdefault(a, o["order_id"])
                for ent in att:
                    ent[2] = "acked"
                crashed = None
        elif k == "exit" and e["how"] == "exc":
            pr = next((p for ps in st.procs.values() for p in ps if p.label == e["p"] and p.exit_t == e["t"]), None)
            bad("A13" if crashed is not None else "A03", "restart-failed",
                "the strategy died %s: %s" % ("when restarted after the crash" if crashed is not None else "",
                                              pr.stderr.text()[-500:] if pr else ""))
        elif k == "synco_ret" and e["exc"]:
            bad("A13", "sync-raised", "sync_orders raised %s" % e["exc"])
    return V


def nontrivial(st):
    ks = [e["k"] for e in st.w.history]
    return "mcrash" in ks and any(len(v) > 1 for v in st.procs.values()) and "received" in ks
