"""Event loop and queue under several submitting threads, pre-empted between byte codes: S06."""
import os

from .. import kernel as K
from .. import simproc
from ..stage import Stage, wall_ns, SEC, MS

PROPS = ("S06",)


def gen(r, prof="mix"):
    mode = r.choice(["loop", "loop", "queue"]) if prof == "mix" else prof
    scn = {"fam": "threads", "mode": mode, "seed": r.getrandbits(40), "wall0": "2024-03-05 10:00:%02d.%03d" % (
        r.randrange(60), r.randrange(1000)), "events": [], "clock": {}}
    scn["cost"] = r.choice([[2000, 40000], [2000, 4000], [1000, 300000]])
    scn["trace"] = r.choice([0.0, 0.02, 0.05, 0.1, 0.2])
    nt = r.choice([1, 2, 2, 3, 4, 6])
    threads = []
    base = [0.05, 0.05, 0.0501, 0.3, 1.0]
    sync = r.random() < 0.5
    if mode == "loop":
        offs = [r.choice([0, 0, 1, 5, 10, 50, 300, 1000, r.randrange(3000)]) for _ in range(3)]
        for _ in range(nt):
            ops = []
            for _ in range(r.choice([1, 2, 3, 5, 8])):
                k = r.random()
                dur = r.choice([0, 0, 0, 0.001, 0.01, 0.2, r.random()])
                sub = r.choice([None, None, None, ["defer", r.choice([0, 1, 100]), 0, None], ["msg", 0, 1, 0, None]])
                if k < 0.45:
                    ops.append(["defer", r.choice([0, 0, 1, 2, 10, r.choice(offs)]), dur, sub])
                elif k < 0.85:
                    ops.append(["msg", r.choice([0, r.choice(offs), r.choice(offs), -5]), r.choice([0, 0, 1, 2]), dur, sub])
                else:
                    ops.append(["sleep", r.choice([0.0005, 0.001, 0.01, 0.3])])
            threads.append({"start": base[0] if sync else r.choice(base), "ops": ops})
        if r.random() < 0.2:
            scn["pre"] = [["msg", r.choice(offs), 0, 0.001, None] for _ in range(r.choice([1, 3]))]
        scn["until"] = 8.0
        scn["end"] = 60
        if r.random() < 0.08:
            # far more entries waiting at once than a strategy normally has
            span = r.choice([0, 5, 50, 3000])
            n = r.choice([30, 70, 140, 300, 600, r.randrange(1300)])
            fl = [["msg", r.randrange(span + 1), r.choice([0, 0, 1]), 0, None] for _ in range(n)]
            scn["trace"] = r.choice([0.0, 0.005, 0.02])
            if r.random() < 0.5:
                scn["pre"] = scn.get("pre", []) + fl
            else:
                th = r.choice(threads)
                k = r.randrange(len(th["ops"]) + 1)
                th["ops"][k:k] = fl
    else:
        for _ in range(max(2, min(nt, 4))):
            ops = []
            for _ in range(r.choice([2, 3, 4, 5])):
                k = r.random()
                if k < 0.5:
                    ops.append(["push", r.randrange(4)])
                elif k < 0.8:
                    ops.append(["pop"])
                elif k < 0.92:
                    ops.append(["top"])
                else:
                    ops.append(["empty"])
            threads.append({"start": base[0], "ops": ops})
        scn["end"] = 20
        scn["trace"] = r.choice([0.02, 0.05, 0.1, 0.3])
        if r.random() < 0.1:
            scn["fill"] = [r.randrange(4) for _ in range(r.choice([5, 70, 300, 1100]))]
    scn["threads"] = threads
    return scn


def build(scn, keep_trace=False):
    st = Stage(scn, keep_trace)
    w = st.w
    w.trace_files = (os.path.join(simproc.REPO, "jqtrade", "scheduler") + "/",)
    p = simproc.Proc(w, "a", ["t"])
    st.procs["a"] = [p]
    st.p = p
    p.start(loop_body(st, scn) if scn["mode"] == "loop" else queue_body(st, scn), 0)
    return st


def loop_body(st, scn):
    w = st.w

    def body():
        import threading
        import time
        import importlib
        loopm = importlib.import_module("jqtrade.scheduler.loop")
        msgm = importlib.import_module("jqtrade.scheduler.message")
        loop = loopm.EventLoop()
        t00 = int(time.time() * 1000)
        cnt = [0]
        mainth = K.CUR

        def submit(op, who):
            cnt[0] += 1
            n = cnt[0]
            kind = op[0]
            dur, sub = op[-2], op[-1]

            def cb(**kw):
                w.log("cb", n=n, th=K.CUR.name, main=K.CUR is mainth, ms=w.wall() // MS)
                if dur:
                    time.sleep(dur)
                if sub:
                    submit(sub, "loop")
                w.log("cb_end", n=n)
            lo = w.wall()
            c = w.log("sub_call", n=n, op=kind, who=who, a=op[1], prio=op[2] if kind == "msg" else 0)
            try:
                if kind == "defer":
                    loop.defer(op[1], cb)
                    due = None
                else:
                    due = lo // MS + op[1]
                    loop.push_message(msgm.Message(due, cb, priority=op[2]))
                w.log("sub_ret", n=n, exc=None, due=due)
            except Exception as e:
                w.log("sub_ret", n=n, exc=repr(e), due=None)

        def runner(i, spec):
            def run():
                th = K.CUR
                th.trace_prob = 0
                d = spec["start"] - (w.now - w.mono0) / 1e9
                if d > 0:
                    time.sleep(d)
                for op in spec["ops"]:
                    if op[0] == "sleep":
                        time.sleep(op[1])
                    else:
                        submit(op, "t%d" % i)
                w.log("thread_done", i=i)
            return run

        for op in scn.get("pre", []):
            submit(op, "main")

        def stop():
            w.log("sentinel")
            loop.stop()
        loop.push_message(msgm.Message(t00 + int(scn["until"] * 1000), stop))
        mainth.trace_prob = scn["trace"]
        ts = [threading.Thread(target=runner(i, s)) for i, s in enumerate(scn["threads"])]
        for t in ts:
            t.start()
        if scn["trace"]:
            import sys
            mainth.trace_rng = K.subrng(w.sched_seed, "trace:main")
            sys.settrace(w.make_tracer(mainth))
        w.log("running")
        loop.run()
        w.log("loop_done")
    return body


def queue_body(st, scn):
    w = st.w

    def body():
        import threading
        import time
        import importlib
        qm = importlib.import_module("jqtrade.scheduler.queue")
        q = qm.ThreadSafeQueue()
        n = [0]

        def runner(i, spec):
            def run():
                d = spec["start"] - (w.now - w.mono0) / 1e9
                if d > 0:
                    time.sleep(d)
                for op in spec["ops"]:
                    if op[0] == "push":
                        n[0] += 1
                        item = n[0]
                    else:
                        item = None
                    c = w.log("q_call", th=i, op=op[0], key=op[1] if item else None, item=item)
                    try:
                        if op[0] == "push":
                            q.push(item, (op[1], item))
                            res = None
                        else:
                            res = getattr(q, op[0])()
                    except qm.QueueEmptyError:
                        res = "EMPTY"
                    except Exception as e:
                        res = "EXC " + repr(e)
                    w.log("q_ret", th=i, of=c["q"], res=res)
            return run
        for key in scn.get("fill", []):
            n[0] += 1
            q.push(n[0], (key, n[0]))
        K.CUR.trace_prob = scn["trace"]
        ts = [threading.Thread(target=runner(i, s)) for i, s in enumerate(scn["threads"])]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        rest = []
        while True:
            try:
                rest.append(q.pop())
            except qm.QueueEmptyError:
                break
        w.log("q_rest", rest=rest)
    return body


def check(st):
    if st.scn["mode"] == "queue":
        return check_queue(st)
    return check_loop(st)


def check_loop(st):
    w, scn = st.w, st.scn
    H = w.history
    V = []
    if w.abort_reason:
        return [("S06", "hang", "no progress: %s" % w.abort_reason)]
    subs = {}
    for e in H:
        if e["k"] == "sub_call":
            subs[e["n"]] = {"c": e, "r": None}
        elif e["k"] == "sub_ret":
            subs[e["n"]]["r"] = e
    for n, s in sorted(subs.items()):
        if s["r"] is None:
            V.append(("S06", "submit-hangs", "submission %d never returned" % n))
        elif s["r"]["exc"]:
            V.append(("S06", "rejected", "submission %d from %s was refused: %s" % (n, s["c"]["who"], s["r"]["exc"])))
    if V:
        return V
    done = next((e for e in H if e["k"] == "loop_done"), None)
    sent = next((e for e in H if e["k"] == "sentinel"), None)
    exit_ = next((e for e in H if e["k"] == "exit"), None)
    if exit_ is not None and exit_["how"] == "exc":
        return [("S06", "crash", "the loop raised %r" % (st.p.exit[1],))]
    if st.p.swallowed:
        return [("S06", "crash", "an exception was swallowed by the event loop: %s" % st.p.swallowed[:2])]
    cbs = [e for e in H if e["k"] == "cb"]
    ends = {e["n"]: e for e in H if e["k"] == "cb_end"}
    runs = {}
    for e in cbs:
        runs.setdefault(e["n"], []).append(e)
    late_limit = SEC // 2
    if sent is None:
        return [("S06", "lost-wakeup", "the loop never ran the last message: still waiting %.1fs after it was due" % (
            (w.now - w.mono0) / 1e9 - scn["until"]))]
    # due windows (ms)
    for s in subs.values():
        c, r = s["c"], s["r"]
        if r["due"] is not None:
            s["lo"] = s["hi"] = r["due"]
        else:
            s["lo"], s["hi"] = c["w"] // MS + int(c["a"]), (r["w"] + 1000) // MS + int(c["a"])
        s["prio"] = c["prio"]
    for n, s in sorted(subs.items()):
        rs = runs.get(n, [])
        if len(rs) > 1:
            V.append(("S06", "twice", "callback %d was executed %d times" % (n, len(rs))))
            continue
        if not rs:
            if s["hi"] < sent["w"] // MS - 1000 and s["r"]["t"] < sent["t"] - SEC:
                V.append(("S06", "lost", "callback %d (due %d, submitted by %s) was never executed" % (
                    n, s["hi"], s["c"]["who"])))
            continue
        e = rs[0]
        if not e["main"]:
            V.append(("S06", "wrong-thread", "callback %d ran on thread %s" % (n, e["th"])))
        # time.time() is a float: a quarter of a microsecond
        if e["w"] + 1000 < s["lo"] * MS:
            V.append(("S06", "early", "callback %d due at %d ms ran at %d ms" % (n, s["lo"], e["ms"])))
    # order: what was completely submitted before the previous callback ended competes
    prev_end = next((e for e in H if e["k"] == "running"), {"q": 0, "t": 0})
    executed = set()
    for e in cbs:
        n = e["n"]
        x = subs[n]
        for m, y in subs.items():
            if m == n or m in executed or not runs.get(m):
                continue
            if y["r"]["q"] >= prev_end["q"]:
                continue
            first = (y["hi"] < x["lo"]) or (y["lo"] == y["hi"] == x["lo"] == x["hi"] and (
                y["prio"] > x["prio"] or (y["prio"] == x["prio"] and y["r"]["q"] < x["c"]["q"])))
            if first and runs[m][0]["q"] > e["q"]:
                V.append(("S06", "order", "callback %d (due %d-%d prio %d) ran before callback %d (due %d-%d prio %d)" % (
                    n, x["lo"], x["hi"], x["prio"], m, y["lo"], y["hi"], y["prio"])))
                return V
        # promptness: not later than due, submission and the end of the previous callback allow
        ready = max(x["r"]["t"], prev_end["t"], e["t"] - max(0, (e["w"] - x["hi"] * MS)))
        if e["t"] - ready > late_limit:
            V.append(("S06", "lost-wakeup", "callback %d was ready but started %.3fs later" % (
                n, (e["t"] - ready) / 1e9)))
            return V
        executed.add(n)
        prev_end = ends.get(n, e)
    return V


def check_queue(st):
    w = st.w
    H = w.history
    ops = []
    by = {}
    if w.abort_reason:
        return [("S06", "hang", "no progress: %s" % w.abort_reason)]
    for e in H:
        if e["k"] == "q_call":
            o = {"op": e["op"], "key": e["key"], "item": e["item"], "c": e["q"], "r": None, "res": None}
            by[e["q"]] = o
            ops.append(o)
        elif e["k"] == "q_ret":
            o = by[e["of"]]
            o["r"] = e["q"]
            o["res"] = e["res"]
    for o in ops:
        if o["r"] is None:
            return [("S06", "queue-hangs", "%s never returned" % o["op"])]
        if isinstance(o["res"], str) and o["res"].startswith("EXC"):
            return [("S06", "queue-error", "%s raised %s" % (o["op"], o["res"]))]
    rest = next((e["rest"] for e in H if e["k"] == "q_rest"), None)
    if rest is None:
        return [("S06", "queue-hangs", "the final drain did not finish")]
    fill = [(key, i + 1) for i, key in enumerate(st.scn.get("fill", []))]
    if not linearizable(ops, rest, fill):
        return [("S06", "not-atomic", "no sequential order explains the results %s, rest %s%s" % (
            [(o["op"], o["key"], o["item"], o["res"]) for o in ops], rest[:40], " (%d)" % len(rest) if len(rest) > 40 else ""))]
    return []


def linearizable(ops, rest, fill=()):
    """Wing & Gong search with memoisation against a sorted list."""
    n = len(ops)
    key = {o["item"]: (o["key"], o["item"]) for o in ops if o["op"] == "push"}
    seen = set()
    stack = [(0, tuple(sorted(fill)))]
    full = (1 << n) - 1
    while stack:
        mask, state = stack.pop()
        if mask == full:
            if [x for _, x in state] == rest:
                return True
            continue
        if (mask, state) in seen:
            continue
        seen.add((mask, state))
        lim = min(o["r"] for i, o in enumerate(ops) if not mask >> i & 1)
        for i, o in enumerate(ops):
            if mask >> i & 1 or o["c"] > lim:
                continue
            if o["op"] == "push":
                ns = tuple(sorted(state + (key[o["item"]],)))
            elif o["op"] == "empty":
                if o["res"] != (not state):
                    continue
                ns = state
            else:
                want = state[0][1] if state else "EMPTY"
                if o["res"] != want:
                    continue
                ns = state[1:] if o["op"] == "pop" and state else state
            stack.append((mask | 1 << i, ns))
    return False


def nontrivial(st):
    return st.w.switches > 6
