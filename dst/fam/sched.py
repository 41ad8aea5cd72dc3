"""Scheduling of one strategy process: S01 S02 S03 S04 S05."""
import datetime as dt
import signal

from ..stage import Stage, wall_ns, wall_dt, dt_ns, SEC, MS

PROPS = ("S01", "S02", "S03", "S04", "S05")

DAY0 = dt.datetime(2024, 1, 1)
SPECIAL_DAYS = ["2024-02-28", "2024-02-29", "2023-12-31", "2024-03-01", "2024-03-08", "2024-03-09", "2024-06-30",
                "2025-02-28", "2024-12-31", "2024-04-30"]


def rand_start(r):
    if r.random() < 0.4:
        day = r.choice(SPECIAL_DAYS)
    else:
        day = (dt.date(2023, 1, 1) + dt.timedelta(days=r.randrange(900))).isoformat()
    m = r.random()
    if m < 0.25:
        sec = 9 * 3600 + 29 * 60 + r.randrange(0, 120)
    elif m < 0.4:
        sec = 86400 - r.randrange(1, 180)
    elif m < 0.5:
        sec = r.randrange(0, 20)
    elif m < 0.6:
        sec = 15 * 3600 - r.randrange(0, 120)
    else:
        sec = r.randrange(0, 86000)
    frac = r.choice([0, 0, 1, 999, r.randrange(1000)])
    return "%s %02d:%02d:%02d.%03d" % (day, sec // 3600, sec // 60 % 60, sec % 60, frac)


def hms(sec):
    sec = int(sec) % 86400
    return "%02d:%02d:%02d" % (sec // 3600, sec // 60 % 60, sec % 60)


def gen(r, prof="mix"):
    mode = prof
    if prof == "mix":
        mode = r.choice(["short", "short", "short", "day", "long", "signal", "fail", "clock", "night", "night"])
    wall0 = rand_start(r)
    if mode == "night":
        wall0 = wall0[:11] + "23:%02d:%02d.%03d" % (r.choice([40, 50, 55, 57, 58, 59]), r.randrange(60), r.randrange(1000))
    s0 = dt.datetime.strptime(wall0.split(".")[0], "%Y-%m-%d %H:%M:%S")
    base = s0.hour * 3600 + s0.minute * 60 + s0.second
    scn = {"fam": "sched", "mode": mode, "seed": r.getrandbits(40), "wall0": wall0, "mono0": r.choice(
        [10000.0, 1.0, 77777.7777, 4000000.123456])}
    opts = {"use_account": False, "runtime_dir": "RUN"}
    start_at = round(r.random() * 2, 3)
    tasks = []
    fns = r.choice([["top"], ["top"], ["top", "helper", "closure", "lambda", "same", "method"]])
    horizon = {"short": r.choice([60, 300, 900]), "signal": r.choice([30, 60, 300]), "fail": r.choice([30, 120, 400]),
               "clock": r.choice([600, 7200, 90000]), "day": 86400 * r.choice([1, 2, 3, 5]),
               "night": r.choice([1500, 4000, 90000, 180000]), "long": 86400 * r.choice([330, 366, 367, 380, 400, 740, 800])}[mode]
    lo = base + int(start_at) + 1
    span = min(horizon, 86400) if mode not in ("long", "day") else 86400
    custom = None
    if r.random() < 0.6:
        o = (lo + r.randrange(0, max(1, min(span, 1200)))) % 86400
        if o > 86000:
            o = 86000
        periods = []
        cur = o - r.choice([0, 0, 5, 61])
        if cur < 0:
            cur = 0
        for _ in range(r.choice([1, 1, 2, 3])):
            ln = r.choice([60, 120, 180, 300, 30, 59, 600])
            if cur + ln >= 86399:
                break
            periods.append([hms(cur), hms(cur + ln)])
            # the next session may begin where this one ends, or before
            cur += max(1, ln + r.choice([0, 0, 1, 30, 60, 600, -30, -60]))
            if cur >= 86000:
                break
        if mode == "night":
            # sessions that reach the last minute of the day and start again with the first
            periods = [["23:%02d:00" % r.choice([45, 54, 57, 58]), r.choice(["23:59:00", "23:59:00", "23:59:59", "23:58:30"])]]
            if r.random() < 0.7:
                periods.insert(0, [r.choice(["00:00:00", "00:00:00", "00:00:30", "00:01:00"]), "00:0%d:00" % r.choice([2, 5])])
        if periods:
            custom = periods
            opts["market_period"] = periods
    nt = r.choice([1, 2, 3, 4, 6, 8])
    if mode == "long":
        nt = r.choice([1, 2])
    pool = [hms(lo + r.randrange(0, max(2, span))) for _ in range(2)]
    pool += [hms(lo + r.randrange(0, max(2, min(span, 60)))) for _ in range(3)]
    for i in range(nt):
        k = r.random()
        if mode == "long":
            t = r.choice([hms(r.randrange(86400)), "open", "close", "00:00:00", "23:59:59", "12:00"])
        elif k < 0.5:
            t = r.choice(pool)
        elif k < 0.6:
            t = hms(lo + r.randrange(0, max(2, span)))[:5]
        elif k < 0.72:
            t = r.choice(["open", "close", "before_open", "after_close"])
        elif k < 0.82:
            t = r.choice(["open", "close"]) + r.choice("+-") + r.choice(["1m", "30s", "90s", "1h", "2h3m4s", "59s", "5m",
                                                                       "0m"])
        elif mode in ("day", "night") and r.random() < 0.7:
            t = r.choice(["00:00:00", "23:59:59", "00:00:01", "09:30:00"])
        elif (custom or mode in ("short", "signal", "fail")) and mode != "night" or mode == "night" and custom:
            t = "every_minute"
        else:
            t = r.choice(pool)
        dm = r.random()
        if mode == "long":
            durs = [0]
        elif mode == "night" and dm < 0.6:
            durs = [r.choice([0, 0, 1]) for _ in range(r.randrange(6))] + [r.choice([61, 130, 400, 900, 3000, 87000, 180000])
                                                                        if horizon > 5000 else r.choice([61, 130, 400])] + [
                r.choice([0, 0, 1, 70]) for _ in range(6)]
        elif dm < 0.45:
            durs = [0]
        elif dm < 0.75:
            durs = [round(r.random() * 3, 3) for _ in range(3)]
        elif dm < 0.9:
            durs = [0, 0, r.choice([5, 30, 61, 130]), 1]
        else:
            durs = [r.choice([10, 70, 200]), r.choice([0, 600 if horizon > 3600 else 20])]
        acts = [["dur", durs]] if durs != [0] else []
        tasks.append({"time": t, "fn": r.choice(fns), "acts": acts})
    # a session that leaves the calendar day is out of scope: keep offsets inside
    op, cl = (9 * 3600 + 1800, 15 * 3600)
    if custom:
        op = to_sec(custom[0][0])
        cl = to_sec(custom[-1][1])
    for t in tasks:
        for _ in range(3):
            x = expr_sec(t["time"], op, cl)
            if x is not None and not (0 <= x < 86400):
                t["time"] = r.choice(["open", "close"])
    p = {"opts": opts, "tasks": tasks}
    if r.random() < 0.15:
        p["pre"] = [["sleep", round(r.random() * 4, 2)]]
    if r.random() < 0.1:
        p["debug"] = True
    scn["procs"] = {"a": p}
    scn["events"] = [{"t": start_at, "do": "start", "p": "a"}]
    clock = {}
    if mode in ("clock", "short", "day") and r.random() < 0.5:
        clock["drift"] = r.choice([-300, -50, 50, 200])
    if mode == "clock" or mode == "night" and r.random() < 0.4:
        n = r.choice([1, 1, 2, 3])
        clock["steps"] = [{"t": round(start_at + 0.5 + r.random() * horizon * 0.8, 3),
                           "d": r.choice([-1, 1]) * r.choice(([0.001] if mode != "night" else [86400, 172800, 90000, 300]) + [ 0.5, 1, 2, 60, 61, 3600, 7200,
                                                               round(r.random() * 100, 2)])} for _ in range(n)]
        clock["steps"].sort(key=lambda x: x["t"])
    scn["clock"] = clock
    if mode == "fail":
        i = r.randrange(len(tasks))
        tasks[i]["acts"] = tasks[i]["acts"] + [["failat", r.choice([1, 1, 2, 3]),
                                               r.choice(["ValueError", "KeyError", "OSError", "RuntimeError", "Custom",
                                                         "StopIteration", "TimeoutError", "ZeroDivisionError",
                                                         "BlockingIOError", "Falsy", "BadStr", "Frozen"])]]
    if mode == "signal" or (mode == "fail" and r.random() < 0.25):
        n = r.choice([1, 1, 1, 2, 3])
        if r.random() < 0.6 and tasks:
            # aim at tasks: shortly before, at, and after the instants at which work happens
            anchors = [start_at + 0.3]
            for t in tasks:
                x = expr_sec(t["time"], op, cl)
                if x is not None:
                    anchors.append((x - base - s_frac(wall0)) % 86400)
            t1 = r.choice(anchors) + r.choice([0, 0, -0.001, 0.001, 0.002, 0.01, 0.5, 1.0, r.random() * 5])
        else:
            t1 = start_at + 0.5 + r.random() * horizon
        t1 = max(t1, start_at + 0.05)
        scn["events"] += [{"t": round(t1 + r.random() * 2 * j, 4), "do": "sig", "p": "a",
                           "sig": r.choice([15, 15, 15, 2])} for j in range(n)]
    if mode in ("signal",) and r.random() < 0.4:
        scn["faults"] = [{"op": ["poll", "polled", "async_send", "sleep", "slept", "loop_end"], "n": r.randrange(1, 60),
                          "do": "sig", "sig": r.choice([15, 2]), "after": start_at + 0.01}]
    # quiet period at the end so that every backlog drains
    tail = 0
    for t in tasks:
        for a in t["acts"]:
            if a[0] == "dur":
                tail = max(tail, max(a[1]))
    scn["end"] = horizon + 2 * tail * (nt + 2) + 60 + sum(max(0, x["d"]) for x in clock.get("steps", []))
    if mode != "long":
        scn["end"] = min(scn["end"], 86400 * 6)
    cost = r.choice([[2000, 40000], [2000, 400000], [50000, 3000000]])
    if mode == "long":
        cost = [2000, 40000]
    scn["cost"] = cost
    return scn


def s_frac(wall0):
    return float("0." + wall0.split(".")[1])


def to_sec(t):
    p = [int(x) for x in t.split(":")]
    return p[0] * 3600 + p[1] * 60 + (p[2] if len(p) > 2 else 0)


def expr_sec(t, op, cl):
    """Second of the day a time expression denotes (None for every_minute)."""
    if t == "every_minute":
        return None
    t = {"before_open": "open-30m", "after_close": "close+30m"}.get(t, t)
    if ":" in t:
        return to_sec(t)
    base = op if t.startswith("open") else cl
    rest = t[4:] if t.startswith("open") else t[5:]
    if not rest:
        return base
    sign = 1 if rest[0] == "+" else -1
    tot, num = 0, ""
    for c in rest[1:]:
        if c.isdigit():
            num += c
        else:
            tot += int(num) * {"h": 3600, "m": 60, "s": 1}[c]
            num = ""
    return base + sign * tot


def day_secs(spec, t):
    mp = spec.get("opts", {}).get("market_period") or [["09:30:00", "11:30:00"], ["13:00:00", "15:00:00"]]
    if t["time"] == "every_minute":
        out = []
        for a, b in mp:
            s = to_sec(a)
            while s <= to_sec(b):
                out.append(s)
                s += 60
        return sorted(set(out))
    return [expr_sec(t["time"], to_sec(mp[0][0]), to_sec(mp[-1][1]))]


def occurrences(spec, t, start_ns, end_ns):
    """Scheduled instants (wall ns) of a task with start_ns <= instant <= end_ns."""
    secs = day_secs(spec, t)
    d = wall_dt(start_ns).date()
    last = wall_dt(end_ns).date()
    out = []
    while d <= last:
        b = dt_ns(dt.datetime(d.year, d.month, d.day))
        for s in secs:
            x = b + s * SEC
            if start_ns <= x <= end_ns:
                out.append(x)
        d += dt.timedelta(days=1)
    return out


def build(scn, keep_trace=False):
    return Stage(scn, keep_trace)


def check(st):
    w, scn = st.w, st.scn
    V = []
    H = w.history
    spec = scn["procs"]["a"]
    tasks = spec["tasks"]
    proc = st.procs.get("a", [None])[0]
    if proc is None:
        return V
    start = next((e for e in H if e["k"] == "start"), None)
    inited = next((e for e in H if e["k"] == "inited"), None)
    exit_ = next((e for e in H if e["k"] == "exit"), None)
    runs = [e for e in H if e["k"] == "task"]
    ends = [e for e in H if e["k"] in ("task_end", "task_exc")]
    sigs = [e for e in H if e["k"] == "signal"]
    steps = [e for e in H if e["k"] == "clock"]
    fails = [e for e in H if e["k"] == "task_exc"]
    if w.abort_reason:
        V.append(("S03", "no-progress", "the process spins without making progress (%s) at %s" % (
            w.abort_reason, wall_dt(w.wall()))))
        if inited is not None and fails:
            V.append(("S05", "hang", "the process spins without ending after a task failed"))
        elif inited is not None and sigs:
            V.append(("S04", "not-stopped", "the process spins without ending after a stop signal"))
        elif inited is not None:
            V.append(("S01", "missed", "the process spins and runs no further task"))
        if w.abort_reason == "stuck" or inited is None:
            return V
    if inited is None:
        if exit_ is not None and not sigs:
            V.append(("S03", "start-failed", "start-up ended with %s: %s" % (exit_["how"], proc.stderr.text()[-400:])))
        return V
    lrun = next((e for e in H if e["k"] == "loop_run"), None)
    sig_in_boot = bool(sigs) and (lrun is None or sigs[0]["q"] < lrun["q"])

    # --- wall clock maximum over time -------------------------------------------------------------------
    end_t = exit_["t"] if exit_ else w.now
    final_wall = exit_["w"] if exit_ else w.wall()

    def max_wall_until(t, wall_now):
        m = wall_now
        for s in steps:
            if s["t"] <= t:
                m = max(m, s["w"] - int(s["d"] * SEC))
        return m
    max_wall = max_wall_until(end_t, final_wall)
    # work scheduled while the process is still starting up is optional
    ready_w = max_wall_until(lrun["t"], lrun["w"]) if lrun else max_wall

    # a step back while starting up makes earlier times lie ahead again
    first_w = min([start["w"]] + [x["w"] for x in steps if start["t"] <= x["t"] and (lrun is None or x["t"] <= lrun["t"])])

    stopped_early = bool(sigs) or bool(fails)
    if proc.swallowed and not fails:
        V.append(("S05", "swallowed", "an exception was swallowed by the event loop: %s" % proc.swallowed[:2]))

    # --- S02: no overlap, order, logical time -----------------------------------------------------------
    prio = {}
    for i, t in enumerate(tasks):
        prio[i] = 1 if t["time"] == "every_minute" else 0
    for e in runs:
        if e["depth"] != 1:
            V.append(("S02", "overlap", "task %d began at %s while another task was running" % (e["i"], wall_dt(e["w"]))))
            break
    # --- S01: exactly once, never early -----------------------------------------------------------------
    busy_until = None
    matched = []
    for i, t in enumerate(tasks):
        mine = [e for e in runs if e["i"] == i]
        occ = occurrences(spec, t, first_w, max_wall)
        opt = [o for o in occ if o < ready_w]
        must = [o for o in occ if o >= ready_w]
        # optional ones: those that were run carry their time in sdt; count them by elimination
        skipped_opt = len(opt)
        ran_opt = [e for e in mine if e["sdt"] and any(str(wall_dt(o)) == e["sdt"] for o in opt)]
        seq = sorted(set(o for o in opt if any(e["sdt"] == str(wall_dt(o)) for e in ran_opt))) + must
        for k, e in enumerate(mine):
            if k >= len(seq):
                V.append(("S01", "extra", "task %d (%s) ran once more than scheduled at %s (strategy_dt %s)" % (
                    i, t["time"], wall_dt(e["w"]), e["sdt"])))
                break
            o = seq[k]
            matched.append((e, o, i))
            if max_wall_until(e["t"], e["w"]) + 2000 < o:
                V.append(("S01", "early", "run %d of task %d (%s) scheduled for %s began early at %s (strategy_dt %s)" % (
                    k, i, t["time"], wall_dt(o), wall_dt(e["w"]), e["sdt"])))
                break
        if not stopped_early and not w.abort_reason:
            # everything due before the end (with time to drain) must have run
            # an armed timer runs on the monotonic clock: forward steps and drift of the wall clock delay it
            margin = 3 * SEC + sum(max(0, int(s["d"] * SEC)) for s in steps) + \
                2 * 86400 * SEC * abs(scn.get("clock", {}).get("drift", 0)) // 1000000
            due = [o for o in seq if o <= min(final_wall, w.wall()) - margin]
            pend = running_backlog(runs, ends, w)
            if len(mine) < len(due) and not pend:
                sd = set(e["sdt"] for e in mine)
                miss = [o for o in due if str(wall_dt(o)) not in sd] or due[len(mine):]
                V.append(("S01", "missed", "task %d (%s): %d of %d scheduled runs happened; first missing %s; process %s" % (
                    i, t["time"], len(mine), len(due), wall_dt(miss[0]), exit_["how"] if exit_ else "up")))
    # --- S02 order and logical time ---------------------------------------------------------------------
    matched.sort(key=lambda x: x[0]["q"])
    if not any(v[0] == "S01" for v in V):
        prev = None
        for e, o, i in matched:
            if e["sdt"] != str(wall_dt(o)):
                V.append(("S02", "logical-time", "task %d scheduled for %s saw strategy_dt %s" % (
                    i, wall_dt(o), e["sdt"])))
                break
            c = wall_dt(e["w"])
            cs = e["cdt"]
            exp = c.replace(microsecond=c.microsecond // 1000 * 1000)
            if abs(dt_ns(parse(cs)) - dt_ns(exp)) > 2 * MS:
                V.append(("S02", "current-time", "task %d saw current_dt %s at wall clock %s" % (i, cs, c)))
                break
            key = (o, -prio[i])
            if prev is not None and key < prev[0]:
                V.append(("S02", "order", "task %d scheduled for %s began after task %d scheduled for %s" % (
                    i, wall_dt(o), prev[1], wall_dt(prev[0][0]))))
                break
            prev = (key, i)
        # --- S03 promptness -----------------------------------------------------------------------------
        last_free = inited["t"]
        ei = {}
        for e in ends:
            ei.setdefault((e["i"],), []).append(e)
        allends = sorted(ends, key=lambda x: x["q"])
        k = 0
        prev_end = inited["t"]
        drift = abs(scn.get("clock", {}).get("drift", 0))
        for e, o, i in matched:
            while k < len(allends) and allends[k]["q"] < e["q"]:
                prev_end = max(prev_end, allends[k]["t"])
                k += 1
            # a clock step while waiting makes the instant at which the work became due ambiguous
            if any(prev_end - SEC <= s["t"] <= e["t"] for s in steps):
                continue
            late_from = max(prev_end, e["t"] - max(0, e["w"] - o))
            slack = SEC + (e["t"] - prev_end) * drift // 1000000 + 3 * scn["cost"][1] * 20
            if e["t"] - late_from > slack:
                V.append(("S03", "late", "task %d scheduled for %s began at %s, %.3fs after it could have" % (
                    i, wall_dt(o), wall_dt(e["w"]), (e["t"] - late_from) / 1e9)))
                break
    polls = w.counts.get("poll_n", 0)
    ndays = scn["end"] / 86400.0 + 1
    if polls > 60 * (len(runs) + ndays + 10 + len(sigs) + len(steps)) + 200:
        V.append(("S03", "spin", "%d event loop wake-ups for %d task runs" % (polls, len(runs))))
    # --- premature exit ---------------------------------------------------------------------------------
    if exit_ is not None and not stopped_early:
        for prop in ("S03", "S01"):
            V.append((prop, "exited", "the process ended (%s %s) at %s although tasks remain" % (
                exit_["how"], exit_.get("code"), wall_dt(exit_["w"]))))
    # --- S05 --------------------------------------------------------------------------------------------
    if fails:
        f = fails[0]
        after = [e for e in runs if e["q"] > f["q"]]
        if after:
            V.append(("S05", "continued", "task %d began after task %d had failed" % (after[0]["i"], f["i"])))
        if exit_ is None:
            if w.now - f["t"] > 2 * SEC:
                V.append(("S05", "hang", "the process is still up %.1fs after a task failed" % ((w.now - f["t"]) / 1e9)))
        elif exit_["how"] == "exit":
            V.append(("S05", "wrong-exit", "the process exited with status %s after a task failed" % exit_["code"]))
        elif exit_["how"] == "exc":
            want = st.shared["a"].get("raised")
            if proc.exit[1] is not want and not caused_by(proc.exit[1], want):
                V.append(("S05", "wrong-error", "the process ended with %r instead of the task's error %r" % (
                    proc.exit[1], want)))
    elif exit_ is not None and exit_["how"] == "exc" and not sig_in_boot:
        V.append(("S03", "crashed", "the process died with %r" % (proc.exit[1],)))
    # --- S04 --------------------------------------------------------------------------------------------
    if sigs and not sig_in_boot:
        s = sigs[0]
        if not (fails and fails[0]["q"] < s["q"]):
            cur = None
            for e in runs:
                if e["q"] < s["q"]:
                    done = [x for x in ends if x["q"] > e["q"] and x["i"] == e["i"]]
                    if not done or done[0]["q"] > s["q"]:
                        cur = (e, done[0] if done else None)
            after = [e for e in runs if e["q"] > s["q"]]
            w.probe("sig_in_task" if cur else "sig_between")
            allowed = 0
            if cur is None and after and after[0]["t"] - s["t"] <= 20 * scn["cost"][1]:
                allowed = 1
            if len(after) > allowed:
                V.append(("S04", "started-after-stop", "task %d (strategy_dt %s) began %.3fs after the stop signal" % (
                    after[-1]["i"], after[-1]["sdt"], (after[-1]["t"] - s["t"]) / 1e9)))
            free = s["t"]
            if cur and cur[1]:
                free = max(free, cur[1]["t"])
            if after:
                for x in ends:
                    if x["q"] > after[-1]["q"]:
                        free = max(free, x["t"])
            if cur and cur[1] is None and exit_ is not None:
                V.append(("S04", "task-cut", "the process ended (%s) before the task in progress had finished" % exit_["how"]))
            elif exit_ is None:
                if not (cur and cur[1] is None) and w.now - free > SEC + 40 * scn["cost"][1] and not \
                        running_backlog(runs, ends, w):
                    V.append(("S04", "not-stopped", "still running %.1fs after the stop signal" % ((w.now - free) / 1e9)))
            else:
                if exit_["t"] - free > SEC + 40 * scn["cost"][1]:
                    V.append(("S04", "slow-stop", "ended %.3fs after it could have" % ((exit_["t"] - free) / 1e9)))
                if not fails and not (exit_["how"] == "exit" and exit_["code"] == 0):
                    V.append(("S04", "wrong-exit", "ended with %s %s after a stop signal" % (exit_["how"], exit_.get("code"))))
    elif exit_ is None and False:
        pass
    return V


def caused_by(e, want):
    seen = 0
    while e is not None and seen < 10:
        if e is want:
            return True
        e = e.__cause__ or e.__context__
        seen += 1
    return False


def running_backlog(runs, ends, w):
    """A task is still running at the end of the simulation (only then may due work be outstanding)."""
    return len(runs) > len(ends)


def parse(s):
    if "." in s:
        return dt.datetime.strptime(s, "%Y-%m-%d %H:%M:%S.%f")
    return dt.datetime.strptime(s, "%Y-%m-%d %H:%M:%S")


def nontrivial(st):
    return any(e["k"] == "task" for e in st.w.history)
