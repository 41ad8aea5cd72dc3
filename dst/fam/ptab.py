"""Start, stop and list commands over a live process table (P01, P02)."""
import datetime as dt
import os
import random
import re
import signal

from .. import hook as hookmod
from .. import kernel as K
from .. import simfs
from .. import simproc
from ..stage import Stage, SEC, MS
from .sched import hms

PROPS = ("P01", "P02")
PY = ["/usr/bin/python3", "python", "/opt/venv/bin/python3.12"]


# ---- generation --------------------------------------------------------------------------------------------------

NAMES = [["demo", "demo1"], ["a", "b"], ["demo", "dem"], ["start_task", "x"], ["demo one", "demo"], ["策略一", "策略"],
         ["jqtrade", "jq"], ["-x", "x"], ["1001", "10"], ["stop_task", "python"], ["demo", "Demo"], ["a", "a "],
         ["1", "01"], ["a.b", "axb"]]


def spell(r, name, code):
    """Arguments of one start command in one of the accepted spellings."""
    k = r.random()
    if name.startswith("-"):
        n = [r.choice(["--name=%s", "-n%s", "--nam=%s"]) % name]
    elif k < 0.5:
        n = ["-n", name]
    elif k < 0.7:
        n = ["--name", name]
    elif k < 0.8:
        n = ["--name=" + name]
    elif k < 0.9:
        n = ["-n" + name]
    else:
        n = [r.choice(["--nam", "--n", "--na"]), name]
    k = r.random()
    c = ["-c", code] if k < 0.6 else ["--code", code] if k < 0.75 else ["--code=" + code] if k < 0.9 else ["-c" + code]
    parts = [n, c]
    if r.random() < 0.2:
        parts.append(["--debug"])
    if r.random() < 0.2:
        parts.append(r.choice([["-o", "LOG"], ["--out=LOG"]]))
    if r.random() < 0.2:
        parts.append(r.choice([["-e", "VC_A=1;VC_B=2"], ["--env", "VC_A=name"], ["--env=VC_A=-n"]]))
    r.shuffle(parts)
    return sum(parts, [])


UNRELATED = [
    (["vim", "/home/u/jqtrade/start_task.py"], "vim"),
    (["grep", "-rn", "start_task", "jqtrade"], "grep"),
    (["tail", "-f", "/var/log/jqtrade", "start_task"], "tail"),
    (["less", "start_task"], "less"),
    (["/usr/bin/python3", "-m", "jqtrade", "get_tasks"], "python3"),
    (["/usr/bin/python3", "-m", "jqtrade", "stop_task", "-n", "start_task"], "python3"),
    (["/usr/bin/python3", "/home/u/run.py", "--name", "NAME"], "python3"),
    (["/usr/bin/python3", "-m", "pytest", "-k", "start_task", "-c", "jqtrade.cfg"], "python3"),
    (["/usr/bin/python3", "-c", "import jqtrade", "start_task"], "python3"),
    (["bash", "-c", "python -m jqtrade start_task -c /x.py -n NAME"], "bash"),
    (["ssh", "host", "jqtrade start_task -n NAME -c x"], "ssh"),
    ([], "kworker/0:1"),
    (["/usr/lib/systemd/systemd"], "systemd"),
    (["watch", "ps aux | grep start_task"], "watch"),
    (["/usr/bin/python3", "-m", "http.server"], "python3"),
    (["git", "log", "jqtrade", "start_task"], "git"),
    (["man", "NAME"], "man"),
]


def gen(r, prof="mix"):
    day = (dt.date(2023, 1, 1) + dt.timedelta(days=r.randrange(900))).isoformat()
    start = r.choice([9 * 3600 + 1800, 14 * 3600, 60])
    T = r.choice([5, 20, 60])
    scn = {"fam": "ptab", "mode": prof, "max_steps": 60000, "seed": r.getrandbits(40),
           "wall0": "%s %s.%03d" % (day, hms(start), r.randrange(1000)),
           "cost": r.choice([[2000, 40000], [2000, 2000000], [200000, 20000000]]),
           "pids": r.getrandbits(30), "wrap": r.random() < 0.5, "reuse": r.choice([0, 0, 0.2]),
           "procs": {}, "faults": [], "end": T + 40.0}
    names = list(r.choice(NAMES))
    if r.random() < 0.3:
        names.append("other")
    ev = []
    n = 0

    def task(t, name):
        nonlocal n
        n += 1
        label = "s%d" % n
        tasks = []
        for _ in range(r.choice([0, 1, 2, 3])):
            acts = [["sleep", round(r.random() ** 2 * 4, 3)]]
            if r.random() < 0.08:
                acts.append(["raise", "ValueError"])
            tasks.append({"time": hms(start + r.randrange(T + 5)), "acts": acts})
        tasks.append({"time": "23:59:50", "acts": []})
        spec = {"tasks": tasks, "pre": [], "logbind": True, "label": label}
        if r.random() < 0.15:
            spec["pre"] = [["sleep", round(r.random() * 2, 3)]]
        scn["procs"][label] = spec
        code = r.choice(["CODE", "CODE", "CODE"])
        ev.append({"t": t, "do": "launch", "p": label, "name": name, "args": spell(r, name, code),
                   "via": r.choice(["m", "m", "script", "main"]), "py": r.choice(PY),
                   "wrap": r.choice(["", "", "", "sudo", "sudo2", "sh", "timeout"]),
                   "fork": round(r.random() ** 3 * 0.2, 4), "linger": round(r.random() ** 2 * 0.5, 4)})
        return label
    clusters = [round(r.random() * T, 3) for _ in range(r.choice([1, 2, 3]))]

    def when():
        if r.random() < 0.6:
            return max(0.0, round(r.choice(clusters) + (r.random() ** 2) * r.choice([0.001, 0.02, 0.3]), 5))
        return round(r.random() * (T + 3), 3)
    for _ in range(r.choice([1, 2, 3, 5])):
        task(round(r.random() * 0.5, 3) if r.random() < 0.5 else when(), r.choice(names))
    if prof == "start" or r.random() < 0.4:
        t = when()
        nm = r.choice(names)
        for _ in range(r.choice([2, 2, 3, 4])):
            task(round(t + r.random() ** 2 * r.choice([0.0, 0.002, 0.05]), 6), nm)
    labels = list(scn["procs"])
    if r.random() < 0.4:
        # tasks that start other tasks (a task may only start its own name through a shell: see DESIGN)
        for e in ev:
            if r.random() < 0.5:
                by = r.choice([x for x in ev])
                if by["t"] < e["t"] and (by["name"] != e["name"] or e["wrap"] == "sh"):
                    e["by"] = by["p"]
    for _ in range(r.choice([0, 1, 2, 4]) if prof != "stop" else r.choice([2, 3, 5, 8])):
        k = r.random()
        t = when()
        if k < 0.25:
            ev.append({"t": t, "do": "cmd", "argv": ["get_tasks"]})
        elif k < 0.55:
            nm = r.choice(names)
            a = ["--name=" + nm] if nm.startswith("-") else r.choice([["-n", nm], ["--name", nm]])
            ev.append({"t": t, "do": "cmd", "argv": ["stop_task"] + a, "sel": ["name", nm]})
        elif k < 0.75:
            ev.append({"t": t, "do": "cmd", "argv": ["stop_task", "-p", "PID"], "sel": ["pid", r.choice(labels)]})
        elif k < 0.8:
            ev.append({"t": t, "do": "cmd", "argv": ["stop_task", "--pid", "PID"], "sel": ["upid", r.randrange(100)]})
        else:
            ev.append({"t": t, "do": "cmd", "argv": ["stop_task", "--all"], "sel": ["all"]})
        e = ev[-1]
        if e["argv"][0] == "stop_task" and r.random() < 0.4:
            e["argv"].insert(r.choice([1, len(e["argv"])]), r.choice(["-f", "--force"]))
            e["force"] = True
        if r.random() < 0.2:
            e["sudo"] = True
    if r.random() < 0.5:
        for _ in range(r.choice([1, 2])):
            ev.append({"t": when(), "do": "sig", "p": r.choice(labels), "sig": r.choice([9, 9, 15])})
    if r.random() < 0.5:
        ev.append({"t": round(T + 4 + r.random(), 3), "do": "cmd", "argv": ["get_tasks"]})
    for _ in range(r.choice([0, 2, 5, 12])):
        cl, nm = r.choice(UNRELATED)
        cl = [x.replace("NAME", names[0]) for x in cl]
        e = {"t": when() if r.random() < 0.6 else 0.0, "do": "other", "cmdline": cl, "name": nm,
             "life": None if r.random() < 0.5 else round(r.random() ** 3 * 5, 4)}
        if r.random() < 0.1:
            e["zombie"] = True
        elif r.random() < 0.15 and "python" not in nm:
            e["denied"] = True
        elif r.random() < 0.02:
            e["denied"] = True
        ev.append(e)
    if r.random() < 0.5:
        for e in ev:
            if e["do"] == "launch" and r.random() < 0.3:
                e["zomb"] = round(r.random() * 3, 3)
    if r.random() < 0.5:
        for _ in range(r.choice([1, 1, 2, 3])):
            f = {"op": r.choice([["ps_cmdline"], ["ps_cmdline"], ["ps_ppid", "ps_name", "ps_signal", "ps_new"],
                                 ["ps_cmdline", "ps_ppid", "ps_signal", "ps_name", "ps_running", "ps_status"]]),
                 "n": r.randrange(1, r.choice([4, 12, 30])), "do": "vanish"}
            k = r.random()
            ncmd = sum(1 for e in ev if e["do"] == "cmd")
            if k < 0.6 and ncmd:
                f["p"] = "c%d" % r.randrange(1, ncmd + 1)
            elif k < 0.8:
                f["p"] = r.choice(labels)
            scn["faults"].append(f)
    ev.sort(key=lambda e: e["t"])
    scn["events"] = ev
    return scn


# ---- processes ---------------------------------------------------------------------------------------------------

class Passive(simproc.Proc):
    """A process that is not jqtrade: only its table entry matters."""
    kind = "other"
    child = None

    def deliver(self, signum):
        if not self.alive:
            return False
        if self.kind == "wrapper" and signum != signal.SIGKILL and self.child is not None and self.child.alive:
            self.signals_got.append((self.world.now, signum))
            self.world.log("signal", p=self.label, sig=int(signum))
            self.world.log("relay", p=self.label, sig=int(signum), to=self.child.label)
            self.child.deliver(signum)
            return True
        return super().deliver(signum)


class PStage(Stage):
    def __init__(self, scn, keep_trace=False):
        super().__init__(scn, keep_trace)
        self.pr = random.Random("pids/%s" % scn["pids"])
        self.freed = []
        self.life = []            # every entry that was in the table: [proc, appeared, vanished or None, kind, name]
        self.w.next_pid = 1000 + self.pr.randrange(3000)
        self.ncmd = self.nother = 0

    def new_pid(self):
        r, w = self.pr, self.w
        used = set(w.table)
        if self.freed and r.random() < self.scn["reuse"]:
            p = r.choice(self.freed)
            if p not in used:
                w.next_pid = p - 1
                w.fault("pid_reuse")
                return
        p = w.next_pid + r.choice([0, 0, 0, 1, 5, 40])
        if self.scn["wrap"] and r.random() < 0.15:
            p = 300 + r.randrange(5000)
        if used and r.random() < 0.1:
            p = r.choice(sorted(used)) * 10 + r.randrange(10) - 1
        while p + 1 in used:
            p += 1
        w.next_pid = p

    def enter(self, p, kind, name):
        ent = [p, self.w.now, None, kind, name]
        self.life.append(ent)
        p.ent = ent
        self.w.table[p.pid] = p
        self.w.log("appear", p=p.label, pid=p.pid, what=kind)
        p.on_exit = self.leave

    def leave(self, p):
        w = self.w
        p.ent[2] = p.exit_t
        p.zombie = True
        z = getattr(p, "zomb", 0)
        for q in list(w.table.values()):
            if q.ppid == p.pid and q is not p:
                q.ppid = 1
        if z:
            w.fault("zombie")
            w.after(int(z * SEC), self.reap, p)
        else:
            self.reap(p)
        wr = getattr(p, "wrapper", None)
        if wr is not None and wr.alive:
            w.after(int(getattr(wr, "linger", 0) * SEC), self.end_wrapper, wr)

    def reap(self, p):
        if self.w.table.get(p.pid) is p:
            del self.w.table[p.pid]
            self.freed.append(p.pid)

    def end_wrapper(self, wr):
        if wr.alive:
            wr.finish(("exit", 0))

    def ev_launch(self, ev):
        ppid = 1
        ps = self.procs.get(ev.get("by"))
        if ps and ps[-1].alive:
            self.w.fault("started_by_task")
            ppid = ps[-1].pid
        self.launch(ev, 0, ppid, None)

    def launch(self, ev, level, ppid, parent):
        """Start the chain of wrappers and finally the task itself."""
        w = self.w
        if parent is not None and not parent.alive:
            return
        label = ev["p"]
        code = self.write_code(label, self.scn["procs"][label])
        log = os.path.join(self.run_dir, label + ".log")
        args = [a.replace("CODE", code).replace("LOG", log) for a in ev["args"]]
        pre = {"m": ["-m", "jqtrade"], "script": ["/usr/local/bin/jqtrade"], "main": ["/repo/jqtrade/__main__.py"]}[ev["via"]]
        cmd = [ev["py"]] + pre + ["start_task"] + args
        chain = {"": [], "sudo": [["sudo"]], "sudo2": [["sudo", "-u", "trader"]] * 2, "timeout": [["timeout", "86400"]],
                 "sh": [None]}[ev["wrap"]]
        self.new_pid()
        if level < len(chain):
            pre = chain[level]
            cl = pre + cmd if pre else ["sh", "-c", " ".join(cmd)]
            p = Passive(w, "%s.w%d" % (label, level), cl, ppid=ppid, name=(pre or ["sh"])[0], cmdline=cl)
            p.kind = "wrapper"
            p.linger = ev["linger"]
            if parent is not None:
                p.wrapper = parent
                parent.child = p
            self.enter(p, "wrapper", ev["name"])
            w.fault("wrapper_" + ev["wrap"])
            w.after(int(ev["fork"] * SEC) + 1, self.launch, ev, level + 1, p.pid, p)
            return
        spec = dict(self.scn["procs"][label])
        p = simproc.Proc(w, label, ["jqtrade", "start_task"] + args, ppid=ppid, name=os.path.basename(ev["py"]), cmdline=cmd)
        p.inc = 0
        p.zomb = ev.get("zomb", 0)
        self.procs.setdefault(label, []).append(p)
        if parent is not None:
            p.wrapper = parent
            parent.child = p
        sh = self.shared.setdefault(label, {"ids": {}})
        h = hookmod.Hook(w, p, spec, 0, sh)
        p.hook = h
        self.hooks.append(h)
        p.modules["vh_hook"] = hookmod.make_hook_module(h)
        p.modnames.append("vh_hook")
        self.enter(p, "task", ev["name"])
        p.start(simproc.boot_cli(p), 0)

    def ev_cmd(self, ev):
        w = self.w
        self.ncmd += 1
        label = "c%d" % self.ncmd
        argv = list(ev["argv"])
        pid = None
        if ev.get("sel", [""])[0] == "pid":
            ps = self.procs.get(ev["sel"][1])
            pid = ps[-1].pid if ps else 99999999
        elif ev.get("sel", [""])[0] == "upid":
            others = [p for p in w.table.values() if getattr(p, "kind", "") == "other"]
            pid = others[ev["sel"][1] % len(others)].pid if others else 88888888
        argv = [str(pid) if a == "PID" else a for a in argv]
        cmd = ["/usr/bin/python3", "-m", "jqtrade"] + argv
        ppid = 1
        if ev.get("sudo"):
            self.new_pid()
            q = Passive(w, label + ".w", ["sudo"] + cmd, name="sudo", cmdline=["sudo"] + cmd)
            q.kind = "wrapper"
            self.enter(q, "cmdwrapper", None)
            ppid = q.pid
        self.new_pid()
        p = simproc.Proc(w, label, ["jqtrade"] + argv, ppid=ppid, name="python3", cmdline=cmd)
        p.inc = 0
        if ev.get("sudo"):
            p.wrapper = q
            q.child = p
        self.procs.setdefault(label, []).append(p)
        self.enter(p, "cmd", None)
        w.log("cmd", p=label, argv=argv, sel=ev.get("sel"), force=bool(ev.get("force")), pid=pid)
        p.start(simproc.boot_cli(p), 0)

    def ev_other(self, ev):
        w = self.w
        self.nother += 1
        self.new_pid()
        p = Passive(w, "u%d" % self.nother, ev["cmdline"], name=ev["name"], cmdline=ev["cmdline"],
                    denied=bool(ev.get("denied")))
        self.enter(p, "other", None)
        if ev.get("denied"):
            w.fault("inaccessible")
        if ev.get("zombie"):
            p.zomb = 10 ** 4
            p.finish(("exit", 0))
        elif ev["life"] is not None:
            w.fault("vanishing")
            w.after(int(ev["life"] * SEC), self.end_wrapper, p)

    def vanish(self, pid):
        """The process being looked at is killed at this very moment."""
        p = self.w.table.get(int(pid)) if pid.isdigit() else None
        if p is not None and p.alive and p is not K.CUR.proc and getattr(p, "child", None) is not K.CUR.proc:
            self.w.fault("vanish_when_looked_at")
            p.deliver(signal.SIGKILL)

    def ev_sig(self, ev):
        ps = self.procs.get(ev["p"])
        if ps and ps[-1].alive:
            self.w.fault("signal_%d" % ev["sig"])
            ps[-1].deliver(ev["sig"])


def build(scn, keep_trace=False):
    st = PStage(scn, keep_trace)
    st.env0 = dict(os.environ)
    close = st.close

    def restore():
        for k in list(os.environ):
            if k not in st.env0:
                del os.environ[k]
        close()
    st.close = restore
    return st


# ---- judging -----------------------------------------------------------------------------------------------------

def check(st):
    V, seen = [], set()

    def bad(prop, code, msg):
        if (prop, code) not in seen:
            seen.add((prop, code))
            V.append((prop, code, msg))
    w = st.w
    H = w.history
    if w.abort_reason:
        for prop in ("P01", "P02"):
            bad(prop, "endless", "a process spins (%s)" % w.abort_reason)
        return V
    END = 1 << 62
    life = [(p, a, b if b is not None else END, kind, name) for p, a, b, kind, name in st.life]
    tasks = [x for x in life if x[3] == "task"]
    bound = {}
    for e in H:
        if e["k"] == "bound":
            bound[e["p"]] = e["t"]
    # python processes nobody may look at make every command fail: tolerated
    blind = [(a, b if not p.zombie else END) for p, a, b, kind, name in life if p.denied and "python" in p.pname]

    def blinded(t0, t1):
        return any(a <= t1 and b >= t0 for a, b in blind)
    runs = [(p, bound[p.label], b, name) for p, a, b, kind, name in tasks if p.label in bound]
    # ---- one at a time
    for i, x in enumerate(runs):
        for y in runs[i + 1:]:
            if x[3] == y[3] and x[1] < y[2] and y[1] < x[2]:
                bad("P01", "two-running", "two processes of task %r run at the same time: %s (pid %d) and %s (pid %d)" % (
                    x[3], x[0].label, x[0].pid, y[0].label, y[0].pid))
    # ---- starts
    for p, a, b, kind, name in tasks:
        if p.label in bound or b == END:
            continue
        how = p.exit
        if how[0] == "killed":
            continue
        if how[0] == "exit" and how[1] == 0:
            bad("P01", "silent-refusal", "the start of %r ended without running and without an error" % name)
        # refused: somebody of that name must have been around
        mine = {p.label}
        q = p
        while getattr(q, "wrapper", None) is not None:
            q = q.wrapper
            mine.add(q.label)
        if any(x[0].label in mine and x[2] < b for x in life):
            continue                  # its own wrappers came apart
        rivals = [x for x in life if x[4] == name and x[0].label not in mine and x[1] <= b and x[2] >= a]
        if not rivals and not blinded(a, b):
            bad("P01", "false-refusal", "the start of %r was refused although no process of that name existed: %s" % (
                name, p.stderr.text()[-400:]))
    for p, a, b, kind, name in tasks:
        if p.label in bound:
            # in use all the time while it started?
            for x in runs:
                if x[3] == name and x[0] is not p and x[1] <= a and x[2] >= bound[p.label]:
                    bad("P01", "two-running", "task %r was started while it was running" % name)
    # ---- commands
    sent = {}
    for e in H:
        if e["k"] == "sent":
            sent.setdefault(e["by"], []).append(e)
    for e in H:
        if e["k"] != "cmd":
            continue
        p = st.procs[e["p"]][-1]
        t0, t1 = e["t"], p.exit_t if p.exit_t is not None else END
        if p.exit is None:
            bad("P02", "hangs", "%s did not end" % e["argv"])
            continue
        if p.exit[0] == "killed" or blinded(t0, t1):
            continue
        if p.exit[0] != "exit" or p.exit[1] != 0:
            bad("P02", "command-failed", "%s failed: %s" % (e["argv"], p.stderr.text()[-400:]))
            continue
        out = p.stdout.text()
        if e["argv"][0] == "get_tasks":
            for q, b0, b1, name in runs:
                if b0 < t0 and b1 > t1:
                    if not re.search(r"(?<!\d)%d(?!\d)" % q.pid, out) or name not in out:
                        bad("P02", "not-listed", "the running task %r (pid %d) is not listed" % (name, q.pid))
                    m = re.search(r"名称: (.*)\npid: %d\n" % q.pid, out)
                    if m and m.group(1) != name:
                        bad("P02", "listed-wrong", "task %r (pid %d) is listed as %r" % (name, q.pid, m.group(1)))
            for q, a, b, kind, name in life:
                if re.search(r"(?m)^pid: %d$" % q.pid, out) and kind in ("other", "cmd", "cmdwrapper") and \
                        not any(x[0].pid == q.pid and x[3] not in ("other", "cmd", "cmdwrapper") for x in life):
                    bad("P02", "listed-other", "pid %d (%s) is listed as a task" % (q.pid, q.cmdline))
            continue
        sel = e["sel"]
        want = signal.SIGKILL if e["force"] else signal.SIGTERM
        got = sent.get(e["p"], [])

        def chosen(q, name):
            return sel[0] == "all" or (sel[0] == "name" and sel[1] == name) or (sel[0] in ("pid", "upid") and q.pid == e["pid"])
        for s in got:
            x = next(x for x in life if x[0].label == s["to"])
            q, a, b, kind, name = x
            if s["sig"] != int(want):
                bad("P02", "wrong-signal", "%s sent signal %d" % (e["argv"], s["sig"]))
            if kind == "task" and chosen(q, name):
                continue
            if kind == "wrapper" and chosen(q, name):
                # a wrapper stands for its task while something of the chain below it is missing
                c, whole = q, True
                while getattr(c, "child", None) is not None:
                    c = c.child
                    y = next(y for y in life if y[0] is c)
                    whole = whole and y[1] < t0 and y[2] > t1
                if not whole or not any(y[0] is c for y in tasks):
                    continue
            bad("P02", "wrong-target", "%s sent a signal to %s (%s)" % (e["argv"], q.label, q.cmdline))
        for q, b0, b1, name in runs:
            if not chosen(q, name) or not b0 < t0:
                continue
            n = [s for s in got if s["to"] == q.label]
            if len(n) > 1:
                bad("P02", "signalled-twice", "%s signalled %s %d times" % (e["argv"], q.label, len(n)))
            if n or b1 <= t1:
                continue
            bad("P02", "not-signalled", "%s did not signal the running task %r (pid %d)" % (e["argv"], name, q.pid))
    return V


def nontrivial(st):
    ks = set(e["k"] for e in st.w.history)
    n = {}
    for p, a, b, kind, name in st.life:
        if kind == "task":
            n[name] = n.get(name, 0) + 1
    return "bound" in ks and (max(n.values()) > 1 or "cmd" in ks)
