"""What a strategy logs and prints, with kills, shared files, full disks and lost terminals: S07."""
import os

from .. import simfs
from ..stage import Stage, SEC, MS, wall_ns, wall_dt

PROPS = ("S07",)

LEVELS = ["info", "info", "info", "warning", "error", "debug"]
OLD = ["", "", "2024-03-04 an earlier line\n", "旧日志第一行\n<a.0.1>x</1>\nlast\n"]


def body(r, big=False):
    k = r.random()
    if k < 0.5:
        return "".join(r.choice("abcdefghij 0123456789") for _ in range(r.choice([0, 5, 20, 60]))).strip()
    if k < 0.6:
        return "委托成功 " * r.choice([1, 3, 30])
    if k < 0.7:
        return "100% {done} %s %d \\n \t end"
    if k < 0.8:
        return "first line\n  second line\nthird"
    if k < 0.95 or not big:
        return "x" * r.choice([100, 400, 700, 1500])
    return "y" * r.choice([4000, 8170, 9000, 30000])


def gen(r, prof="mix"):
    mode = r.choice(["kill", "kill", "share", "full", "full", "tty", "hangup"]) if prof == "mix" else prof
    base = r.choice([9 * 3600 + 1800, 36000, 12345, 50000])
    wall0 = "2024-%02d-%02d %02d:%02d:%02d.%03d" % (r.randrange(1, 13), r.randrange(1, 29), base // 3600, base // 60 % 60,
                                                   base % 60, r.randrange(1000))
    scn = {"fam": "logs", "mode": mode, "seed": r.getrandbits(40), "wall0": wall0, "clock": {}, "events": [],
           "cost": r.choice([[2000, 40000], [2000, 400000], [50000, 3000000]])}
    horizon = r.choice([20, 40, 90])
    labels = ["a"]
    if mode == "share" or mode == "full" and r.random() < 0.25:
        labels = ["a", "b"] if r.random() < 0.7 else ["a", "b", "c"]
    scn["procs"] = {}
    same = [r.randrange(3, horizon) for _ in range(4)]
    out = None if mode in ("tty", "hangup") else "strategy.log"
    if out and r.random() < 0.6:
        scn["put"] = {out: r.choice(OLD)}
    big = mode == "kill"
    for label in labels:
        tasks = []
        for i in range(r.choice([1, 2, 3, 4])):
            x = base + (r.choice(same) if r.random() < 0.6 else r.randrange(3, horizon))
            acts = []
            for _ in range(r.choice([1, 2, 3, 4, 6])):
                k = r.random()
                if k < 0.5:
                    acts.append([r.choice(["log", "log", "logarg", "logexc", "logobj"]), r.choice(LEVELS), body(r, big)])
                elif k < 0.88:
                    acts.append(["print", body(r, big), r.choice(["plain", "plain", "parts", "noflush", "other", "open", "obj"])])
                else:
                    acts.append(["sleep", r.choice([0.001, 0.05, 0.7, 2.5])])
            tasks.append({"time": "%02d:%02d:%02d" % (x // 3600, x // 60 % 60, x % 60), "fn": "top", "acts": acts})
        pre = []
        if r.random() < 0.4:
            pre = [[r.choice(["log", "logarg"]), r.choice(LEVELS), body(r)], ["print", body(r), "plain"]]
        p = {"opts": {"use_account": False, "runtime_dir": "RUN"}, "tasks": tasks, "pre": pre}
        if out:
            p["out"] = out
        if r.random() < 0.3:
            p["debug"] = True
        scn["procs"][label] = p
        scn["events"].append({"t": r.choice([0.0, 0.0, round(r.random(), 3)]), "do": "start", "p": label})
    if mode in ("kill", "share", "tty"):
        for label in labels:
            for _ in range(r.choice([0, 1, 1, 2])):
                t = round(0.2 + r.random() * horizon, 3)
                scn["events"].append({"t": t, "do": r.choice(["kill", "kill", "sig"]), "p": label, "sig": 15})
                scn["events"].append({"t": round(t + r.choice([0.5, 1.5, 4]), 3), "do": "restart", "p": label})
        if r.random() < 0.75:
            n = r.choice([1, 1, 2])
            for i in range(n):
                f = {"op": r.choice([["write"], ["write", "open"], ["open", "write", "poll", "sleep"]]),
                     "n": r.randrange(1, 14), "do": "kill", "p": r.choice(labels), "in": ["log", "print"]}
                if "poll" in f["op"]:
                    f.pop("in")
                    f["after"] = 0.5
                f["inc"] = i
                scn.setdefault("faults", []).append(f)
                for k in range(3):
                    scn["events"].append({"t": round((k + 1) * horizon / 4.0 + 0.01 * i, 3), "do": "restart", "p": f["p"]})
    elif mode == "full":
        fs = []
        for _ in range(r.choice([1, 1, 2])):
            f = {"op": r.choice([["write"], ["write"], ["write", "open"]]), "cls": ["log"],
                 "do": r.choice(["ENOSPC", "ENOSPC", "EIO"]), "n": r.randrange(1, 8), "times": r.choice([1, 2, 5, 1000])}
            if "open" in f["op"] or r.random() < 0.7:
                f["in"] = ["log", "print"]
            else:
                f["n"] += 3
            if f["times"] == 1000:
                f["until"] = round(horizon * r.choice([0.3, 0.6, 0.9, 2]), 2)
            if r.random() < 0.4:
                f["after"] = round(r.random() * horizon, 2)
            fs.append(f)
        scn["faults"] = fs
    elif mode == "hangup":
        for p in scn["procs"].values():
            p["broken_out"] = round(r.random() * horizon, 2)
    if r.random() < 0.3:
        # started with a path relative to the current directory, which the strategy then changes
        scn["dirs"] = ["w0"]
        for p in scn["procs"].values():
            p["cwd"] = [""]
            if out:
                p["out_rel"] = True
            (p["pre"] if r.random() < 0.3 else r.choice(p["tasks"])["acts"]).insert(0, ["chdir", r.choice(["w0", ""])])
    scn["end"] = horizon + 40
    return scn


def build(scn, keep_trace=False):
    return Stage(scn, keep_trace)


def check(st):
    w, scn = st.w, st.scn
    H = w.history
    V = []
    mode = scn["mode"]

    def bad(kind, msg):
        if not any(k == kind for _, k, _ in V):
            V.append(("S07", kind, msg))
    faults = [e for e in H if e["k"] == "fault" and e["what"] != "kill"]
    first_fault = min([e["q"] for e in faults] or [0])
    last_fault = max([e["q"] for e in faults] or [-1])
    streams = {}
    procs = scn["procs"]
    for label, spec in procs.items():
        if not spec.get("out"):
            for p in st.procs.get(label, []):
                t = p.stdout.text()
                streams[label, p.inc] = (t[:p.stdout.flushed] if p.dead else t).encode("utf-8", "replace")
    path = next((os.path.join(st.root, s["out"]) for s in procs.values() if s.get("out")), None)
    old = b""
    if path:
        try:
            with simfs.real_open(path, "rb") as f:
                data = f.read()
        except OSError:
            data = b""
        old = scn.get("put", {}).get(os.path.basename(path), "").encode("utf-8")
        if not data.startswith(old):
            bad("overwritten", "what the log file held before the start is not there any more")
            return V
        streams["file"] = data
    others = {}
    for label in procs:
        try:
            with simfs.real_open(os.path.join(st.root, "other_%s.txt" % label), "rb") as f:
                others[label] = f.read()
        except OSError:
            others[label] = b""
    # each emission
    calls, cur = [], {}
    for e in H:
        if e["k"] in ("log_call", "print_call"):
            c = {"e": e, "ret": None, "kind": e["k"][:-5]}
            calls.append(c)
            cur[e["n"], e["p"], e["inc"]] = c
        elif e["k"] in ("log_ret", "print_ret"):
            cur[e["n"], e["p"], e["inc"]]["ret"] = e
    # a message too large for one write can be cut by a kill
    cut = any(c["ret"] is None and len(c["e"]["text"].encode()) > 4000 for c in calls)
    for c in calls:
        e, ret = c["e"], c["ret"]
        spec = procs[e["p"]]
        what = "%s of task %s at %s (%s)" % (c["kind"], e["p"], wall_dt(e["w"]), e["text"][:40])
        other = c["kind"] == "print" and e["how"] == "other"
        key = "file" if spec.get("out") else (e["p"], e["inc"])
        data = streams.get(key, b"")
        text = e["text"].encode("utf-8")
        # the strategy asked for it to stay in the process
        lazy = e["how"] == "noflush" and not spec.get("out")
        hurt = False
        if mode == "full" and e["q"] <= last_fault and (ret is None or ret["q"] > first_fault):
            hurt = True
        if mode == "hangup" and e["t"] + 5 * MS >= st.t0 + int(spec["broken_out"] * SEC) - 5 * MS:
            hurt = True
        if ret is not None and ret["exc"] is not None:
            if c["kind"] == "log":
                bad("raised", "%s raised %s" % (what, ret["exc"]))
                continue
            if not hurt or other:
                bad("print-raised", "%s raised %s" % (what, ret["exc"]))
                continue
        if other:
            n = others[e["p"]].count(text + b"\n")
            if data.count(text):
                bad("misdirected", "%s went to the log although file= was given" % what)
            if n > 1 or ret is not None and n != 1:
                bad("other-file", "%s is %d times in the file it was sent to" % (what, n))
            continue
        n = data.count(text, len(old) if key == "file" else 0)
        enabled = c["kind"] == "print" or e["how"] != "debug" or spec.get("debug")
        if n > 1:
            bad("twice", "%s is %d times in the log" % (what, n))
            continue
        if not enabled:
            if n:
                bad("debug", "%s is in the log without debug mode" % what)
            continue
        if n == 0:
            if ret is not None and not hurt and not lazy:
                bad("lost", "%s is not in the log" % what)
            continue
        pos = data.index(text, len(old) if key == "file" else 0)
        end = pos + len(text)
        if data[end:end + 1] != (b"#" if e["how"] == "open" else b"\n") and not cut:
            if ret is not None or data[end:] != b"":
                bad("torn", "%s is followed by %r" % (what, data[end:end + 30]))
        nl = data.rfind(b"\n", 0, pos) + 1
        # after print(..., end="#")
        nl = max(nl, data.rfind(b">#", 0, pos) + 2) if data.rfind(b">#", nl, pos) >= 0 else nl
        if b"</" in data[nl:pos] and not cut:
            bad("mixed", "%s shares its line with %r" % (what, data[nl:pos][:60]))
        if c["kind"] == "print" and nl != pos and not hurt and not cut:
            bad("mixed", "%s does not start its line: %r" % (what, data[nl:pos][:60]))
        if ret is not None and not hurt and not lazy and ret["size"] is not None:
            size = ret["size"]
            if key != "file":
                size = len(st_out(st, e).text()[:size].encode("utf-8", "replace"))
            if end + 1 > size:
                bad("late", "%s had not left the process when the call returned" % what)
        if not hurt:
            if ret is not None and not lazy:
                c["pos"] = pos
                c["key"] = key
    # order across processes: an emission begun after another had returned stands after it
    done = {}
    for e in H:
        if e["k"] in ("log_ret", "print_ret"):
            c = cur[e["n"], e["p"], e["inc"]]
            if "pos" in c:
                k = c["key"]
                if c["pos"] > done.get(k, (-1, 0))[0]:
                    done[k] = (c["pos"], c["e"]["text"][:40])
        elif e["k"] in ("log_call", "print_call"):
            c = cur[e["n"], e["p"], e["inc"]]
            if "pos" in c and done.get(c["key"], (-1,))[0] > c["pos"]:
                bad("order", "%s stands before %s, which was written earlier" % (
                    c["e"]["text"][:40], done[c["key"]][1]))
    # the tasks are not disturbed
    if w.abort_reason:
        bad("no-progress", "a process spins (%s)" % w.abort_reason)
        return V
    if mode in ("full", "hangup"):
        for label, spec in procs.items():
            ex = next((e for e in H if e["k"] == "exit" and e["p"] == label), None)
            ini = next((e for e in H if e["k"] == "inited" and e["p"] == label), None)
            if ex is not None:
                bad("stopped", "%s ended (%s %s) although only its log could not be written" % (label, ex["how"], ex.get("code")))
                continue
            if ini is None:
                bad("stopped", "%s never came up although only its log could not be written" % label)
                continue
            runs = [e for e in H if e["k"] == "task" and e["p"] == label]
            ends = [e for e in H if e["k"] in ("task_end", "task_exc") and e["p"] == label]
            for i, t in enumerate(spec["tasks"]):
                h, m, s = [int(x) for x in t["time"].split(":")]
                due = wall_ns(scn["wall0"][:11] + t["time"])
                mine = [e for e in runs if e["i"] == i]
                if len(mine) != 1:
                    bad("task", "task %d of %s (%s) ran %d times" % (i, label, t["time"], len(mine)))
                    continue
                free = max([x["w"] for x in ends if x["q"] < mine[0]["q"]] + [due, ini["w"]])
                if mine[0]["w"] < due or mine[0]["w"] > free + SEC + 60 * scn["cost"][1]:
                    bad("task", "task %d of %s (%s) ran at %s" % (i, label, t["time"], wall_dt(mine[0]["w"])))
    return V


def st_out(st, e):
    return next(p for p in st.procs[e["p"]] if p.inc == e["inc"]).stdout


def nontrivial(st):
    return any(e["k"] in ("log_ret", "print_ret") for e in st.w.history)
