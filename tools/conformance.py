#!/opt/venv/bin/python
"""conformance.py [FROM] [TO]: runs random event-loop programs against the real pyuv (real time, in a child process) and
against the stub (virtual time) and compares the order of callbacks.  Timers lie on a 12 ms grid so that the jitter of real
time seldom matters; where it does, some timing of the stub has to give what the real loop did."""
import json
import os
import random
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
G = 12


def program(seed):
    r = random.Random("conf/%d" % seed)
    n = [0]

    def acts(depth):
        out = []
        for _ in range(r.choice([0, 1, 1, 2, 3] if depth else [3, 4, 6])):
            k = r.random()
            n[0] += 1
            i = n[0]
            if k < 0.4 and depth < 4:
                out.append(["timer", i, r.choice([0, 0, 1, 1, 2, 3, 5]) * G, 0, acts(depth + 1)])
            elif k < 0.6:
                out.append(["send", r.randrange(3)])
            elif k < 0.68:
                out.append(["kill", r.choice([signal.SIGUSR1, signal.SIGUSR2])])
            elif k < 0.76:
                out.append(["sleep", r.choice([0, 1, 2]) * G + 4])
            elif k < 0.84:
                out.append(["stop", r.randrange(1, i + 1)])
            elif k < 0.9:
                out.append(["close", r.randrange(1, i + 1)])
            elif k < 0.94:
                out.append(["raise"])
            elif k < 0.98:
                out.append(["again", r.randrange(1, i + 1)])
            else:
                out.append(["loopstop"])
        return out
    return {"first": acts(0), "on_async": [acts(2) if r.random() < 0.5 else [] for _ in range(3)],
            "on_signal": [acts(3) if r.random() < 0.3 else [] for _ in range(2)]}


def execute(prog, pyuv, sleep, kill):
    log = []
    loop = pyuv.Loop.default_loop()
    timers, every, left = {}, [], [60]

    def excepthook(t, v, tb):
        log.append("excepthook %s" % v)
    loop.excepthook = excepthook

    def do(acts):
        for a in acts:
            left[0] -= 1
            if left[0] < 0:
                return
            if a[0] == "timer":
                t = timers[a[1]] = pyuv.Timer(loop)
                every.append(t)
                t.start(lambda h, a=a: cb("timer %d" % a[1], a[4]), a[2] / 1000.0, a[3] / 1000.0)
            elif a[0] == "send":
                asyncs[a[1]].send()
            elif a[0] == "kill":
                kill(a[1])
            elif a[0] == "sleep":
                sleep(a[1] / 1000.0)
            elif a[0] in ("stop", "close", "again"):
                t = timers.get(a[1])
                if t is not None and not t.closed:
                    try:
                        if a[0] == "stop":
                            t.stop()
                        elif a[0] == "again":
                            t.again()
                        else:
                            t.close(lambda h, i=a[1]: log.append("closed %d" % i))
                    except pyuv.error.UVError as e:
                        log.append("%s %d %s" % (a[0], a[1], type(e).__name__))
            elif a[0] == "raise":
                raise ValueError("oops")
            elif a[0] == "loopstop":
                loop.stop()

    def cb(name, acts):
        log.append(name)
        do(acts)
    asyncs = [pyuv.Async(loop, lambda h, i=i: cb("async %d" % i, prog["on_async"][i])) for i in range(3)]
    sigs = []
    for i, s in enumerate((signal.SIGUSR1, signal.SIGUSR2)):
        h = pyuv.Signal(loop)
        h.start(lambda h, num, i=i: cb("signal %d" % i, prog["on_signal"][i]), s)
        sigs.append(h)
    end = pyuv.Timer(loop)
    over = []

    def finish(h):
        log.append("end")
        over.append(1)
        left[0] = 0
        for t in every:
            if not t.closed:
                t.close()
        for h in asyncs + sigs + [end]:
            h.close()
    end.start(finish, 30 * G / 1000.0, 0)
    try:
        do(prog["first"])
    except ValueError:
        log.append("first raised")
    for _ in range(20):
        loop.run()
        log.append("run returned")
        if over:
            break
    return log


def real(seed):
    import pyuv
    print(json.dumps(execute(program(seed), pyuv, time.sleep, lambda s: os.kill(os.getpid(), s))))


def stub(seeds, jitter=None):
    from dst import kernel as K, patches, runlib, simproc, simfs
    from dst.stage import Stage
    runlib.prepare()
    out = {}
    for seed in seeds:
        scn = {"seed": seed, "wall0": "2024-03-05 10:00:00.000", "end": 100, "cost": [1000, 2000]}
        if jitter is not None:
            scn.update(seed=seed + 1000003 * jitter, cost=[1000, (50000, 200000, 600000, 1500000)[jitter % 4]])
        st = Stage(scn, False)
        res = []

        def body():
            import pyuv as stubuv
            res.append(execute(program(seed), stubuv, time.sleep, lambda s: os.kill(os.getpid(), s)))
        try:
            p = simproc.Proc(st.w, "conf", ["conf"])
            st.w.table[p.pid] = p
            p.start(body)
            st.run()
            out[seed] = res[0] if res else ["stub failed: %s %s" % (st.w.harness_error, p.stderr.text()[-600:])]
        finally:
            st.close()
        runlib.collect()
    return out


def ask(seed):
    r = subprocess.run([sys.executable, os.path.abspath(__file__), "--real", str(seed)], capture_output=True, text=True,
                       timeout=30)
    try:
        return json.loads(r.stdout)
    except ValueError:
        return ["real failed: " + r.stderr[-400:]]


if __name__ == "__main__":
    if sys.argv[1:2] == ["--real"]:
        real(int(sys.argv[2]))
        sys.exit()
    a, b = (int(x) for x in (sys.argv[1:3] or (0, 200)))
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(6) as ex:
        reals = dict(zip(range(a, b), ex.map(ask, range(a, b))))
    stubs = stub(range(a, b))
    bad = varied = 0
    for s in range(a, b):
        n = 0
        while reals[s] != stubs[s] and n < 60:
            # real time is a jittery clock: some timing of the stub must give what the real loop did
            stubs[s] = stub([s], n)[s]
            n += 1
            if n % 3 == 0:
                reals[s] = ask(s)
        varied += n > 0
        if reals[s] != stubs[s]:
            bad += 1
            if bad <= 5:
                print("seed %d\n real %s\n stub %s\n prog %s" % (s, reals[s], stubs[s], json.dumps(program(s))[:1500]))
    print("%d programs (%d needed another timing), %d differ, %d callbacks" % (b - a, varied, bad, sum(len(x) for x in stubs.values())))
    sys.exit(1 if bad else 0)
