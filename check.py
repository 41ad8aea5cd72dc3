#!/opt/venv/bin/python
"""Decides one property by seeded deterministic simulation.

  check.py PROP [--tier quick|thorough] [--seed N] [--runs K] [--jobs J]
  check.py --replay FILE        re-executes a replay file and says whether the violation is reproduced exactly

Exit 0: no violation in any simulated run.  Exit 1 + "VIOLATION property=<id> replay=<path>": violated.
Exit 2: the harness itself failed (never a verdict)."""
import argparse
import hashlib
import json
import os
import selectors
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from dst.plan import PLAN, REAL, STUB      # noqa: E402

PY = sys.executable


class Worker(object):
    def __init__(self, i):
        env = dict(os.environ, PYTHONHASHSEED=str(i), TZ="Asia/Shanghai", PYTHONDONTWRITEBYTECODE="1",
                   OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1")
        self.i = i
        self.errpath = os.path.join(HERE, "out", "worker%d.%d.err" % (os.getpid(), i))
        self.err = open(self.errpath, "wb")
        self.p = subprocess.Popen([PY, "-m", "dst.worker"], cwd=HERE, env=env, stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=self.err, start_new_session=True)
        self.buf = b""
        self.job = None
        self.since = None
        self.ready = False

    def send(self, job):
        self.job = job
        self.since = time.monotonic()
        self.p.stdin.write((json.dumps(job) + "\n").encode())
        self.p.stdin.flush()

    def read(self):
        """-> list of messages, or None at end of file"""
        d = os.read(self.p.stdout.fileno(), 1 << 20)
        if not d:
            return None
        self.buf += d
        out = []
        while b"\n" in self.buf:
            line, self.buf = self.buf.split(b"\n", 1)
            out.append(json.loads(line))
        return out

    def close(self):
        try:
            self.p.kill()
        except OSError:
            pass
        self.p.wait()
        self.err.close()
        tail = ""
        try:
            with open(self.errpath, "rb") as f:
                tail = f.read()[-3000:].decode("utf-8", "replace")
            os.unlink(self.errpath)
        except OSError:
            pass
        return tail


class Pool(object):
    def __init__(self, n):
        self.ws = [Worker(i) for i in range(n)]
        self.sel = selectors.DefaultSelector()
        for w in self.ws:
            self.sel.register(w.p.stdout, selectors.EVENT_READ, w)
        self.fail = []

    def run(self, jobs, deadline, on_result, stop=lambda: False, job_limit=300):
        """jobs: iterator.  Feeds idle workers until the iterator is exhausted, the deadline passes or stop()."""
        it = iter(jobs)
        done = False
        while True:
            for w in self.ws:
                if w.ready and w.job is None and not done:
                    if time.monotonic() > deadline or stop():
                        done = True
                        break
                    try:
                        w.send(next(it))
                    except StopIteration:
                        done = True
                    except (BrokenPipeError, OSError):
                        pass
            if done and not any(w.job for w in self.ws):
                return
            if not self.ws:
                return
            for key, _ in self.sel.select(1.0):
                w = key.data
                msgs = w.read()
                if msgs is None:
                    self.drop(w, "worker died during %r" % (w.job,))
                    continue
                for m in msgs:
                    if m.get("ready"):
                        w.ready = True
                        continue
                    j, w.job = w.job, None
                    on_result(j, m)
            now = time.monotonic()
            for w in list(self.ws):
                if w.job is not None and now - w.since > job_limit:
                    self.drop(w, "worker stuck for %ds in %r" % (job_limit, w.job))

    def drop(self, w, why):
        self.sel.unregister(w.p.stdout)
        self.ws.remove(w)
        tail = w.close()
        self.fail.append(why[:300] + "\n" + tail)

    def one(self, job, limit=300):
        res = []
        self.run([job], time.monotonic() + limit, lambda j, m: res.append(m), job_limit=limit)
        return res[0] if res else None

    def close(self):
        for w in self.ws:
            w.close()
        self.ws = []


def known_findings():
    out = []
    path = os.path.join(HERE, "KNOWN_FINDINGS")
    try:
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith("finding:"):
                    d = dict(x.split("=", 1) for x in line[8:].split(None, 3)[:2])
                    d["text"] = line.split(None, 3)[3] if len(line.split(None, 3)) > 3 else ""
                    out.append(d)
    except FileNotFoundError:
        pass
    return out


def die(msg):
    print("HARNESS ERROR: " + msg)
    sys.stdout.flush()
    sys.exit(2)


def jobs_for(plan, seed, tier, scale, props):
    """Interleaves the families so that a run that is cut short has seen all of them."""
    lanes = []
    for k, (fam, prof, q, t) in enumerate(plan):
        n = int((q if tier == "quick" else t) * scale)
        base = (seed * 1000003 + k * 7919) % 2000000011
        step = max(1, min(25, n // 8 or 1))
        lanes.append([{"do": "range", "fam": fam, "prof": prof, "a": base + a, "b": base + min(a + step, n),
                       "props": props, "sample": a == 0} for a in range(0, n, step)])
    total = sum(len(x) for x in lanes)
    pos = [0] * len(lanes)
    for i in range(total):
        # always the lane that is furthest behind in relative terms
        k = min((p / float(len(l)), j) for j, (p, l) in enumerate(zip(pos, lanes)) if p < len(l))[1]
        yield lanes[k][pos[k]]
        pos[k] += 1


def replay(path):
    with open(path) as f:
        d = json.load(f)
    pool = Pool(1)
    try:
        m = pool.one({"do": "one", "scn": d["scenario"]})
    finally:
        pool.close()
    if m is None or m.get("error"):
        die("replay failed: %r %r" % (m, pool.fail))
    same = [v for v in m["violations"] if v[0] == d["property"] and v[1] == d["code"]]
    for v in same:
        print("%s [%s] %s" % (v[0], v[1], v[2]))
    if same:
        print("trace hash %s (%s)" % (m["hash"], "identical to the recorded run" if m["hash"] == d["hash"] else
                                      "DIFFERENT from the recorded run %s: the code changed" % d["hash"]))
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1
    print("the violation %s/%s does not occur (trace hash %s, recorded %s)" % (
        d["property"], d["code"], m["hash"], d["hash"]))
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=float, default=1.0, help="scale factor on the number of runs")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1))
    ap.add_argument("--replay")
    ap.add_argument("--budget", type=float, default=0, help="wall-clock cap in seconds")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    os.makedirs(os.path.join(HERE, "out"), exist_ok=True)
    if a.replay:
        return replay(a.replay)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    prop = a.prop
    if prop not in PLAN:
        die("unknown property %r" % prop)
    budget = a.budget or (240 if tier == "quick" else 3 * 3600)
    t0 = time.monotonic()
    pool = Pool(a.jobs)
    known = known_findings()
    T = {"n": 0, "nontrivial": 0, "steps": 0, "sim": 0.0, "switches": 0, "faults": {}, "probes": {}, "counts": {},
         "errors": [], "samples": [], "viol": [], "knownhits": {}, "perfam": {}, "other": {}}
    keys = set()

    # 1. determinism: the same scenarios in different processes (different hash seeds) give the same trace
    det = {}
    nondet = []
    dj = []
    for k, (fam, prof, q, t) in enumerate(PLAN[prop]):
        base = (a.seed * 1000003 + k * 7919) % 2000000011
        for rep in range(2):
            dj.append({"do": "range", "fam": fam, "prof": prof, "a": base, "b": base + 4, "props": [], "hashes": True,
                       "rep": rep})
    # first and second repetition on different workers: feed them in two batches over rotated workers
    for rep in range(2):
        pool.ws = pool.ws[1:] + pool.ws[:1]

        def got(j, m):
            det.setdefault((j["fam"], j["prof"]), []).append(m["hashes"])
        pool.run([j for j in dj if j["rep"] == rep], time.monotonic() + 200, got)
    for k, v in det.items():
        if len(v) == 2 and v[0] != v[1]:
            nondet.append("runs are not deterministic: %r %r" % (k, v))
    if pool.fail:
        pool.close()
        die("; ".join(pool.fail))

    # 2. search
    def on_result(j, m):
        if "n" not in m:
            T["errors"].append([0, repr(m)[:300]])
            return
        for f in ("n", "nontrivial", "steps", "sim", "switches"):
            T[f] += m[f]
        pf = T["perfam"].setdefault("%s/%s" % (j["fam"], j["prof"]), {"runs": 0, "nontrivial": 0, "cpu_s": 0.0})
        pf["runs"] += m["n"]
        pf["nontrivial"] += m["nontrivial"]
        pf["cpu_s"] = round(pf["cpu_s"] + m["wall"], 2)
        for f in ("faults", "probes", "counts", "other"):
            for k, v in m[f].items():
                T[f][k] = T[f].get(k, 0) + v
        T["errors"].extend(m["errors"])
        keys.update(m["keys"])
        if m["sample"] and len(T["samples"]) < 3:
            T["samples"].append(m["sample"])
        for seed, p, code, msg in m["viol"]:
            hit = [k for k in known if k.get("property") == p and k.get("code") == code]
            if hit:
                T["knownhits"].setdefault((p, code), hit[0])
            else:
                T["viol"].append((j["fam"], j["prof"], seed, p, code, msg))

    t1 = time.monotonic()
    pool.run(jobs_for(PLAN[prop], a.seed, tier, a.runs, [prop]), t0 + budget, on_result,
             stop=lambda: bool(T["viol"]) or len(T["errors"]) > 20 or bool(pool.fail))
    search_s = time.monotonic() - t1
    wall = time.monotonic() - t0

    # 3. report
    if not a.no_evidence:
        write_evidence(prop, tier, a, T, keys, search_s, wall)
    rc = 0
    if T["viol"]:
        rc = report(pool, T, prop)
    pool.close()
    if rc == 0 and nondet:
        die("; ".join(nondet))
    if rc == 0 and (T["errors"] or pool.fail):
        die("%d harness errors, e.g. %r %r" % (len(T["errors"]), T["errors"][:2], [f[-1500:] for f in pool.fail[:1]]))
    for (p, code), k in sorted(T["knownhits"].items()):
        print("KNOWN-FINDING: property=%s %s" % (p, k["text"]))
    if rc == 0:
        print("%s: %d simulated runs (%d distinct non-trivial), %.1f simulated hours, %d scheduler steps, %.1fs: held" % (
            prop, T["n"], len(keys), T["sim"] / 3600, T["steps"], wall))
    return rc


def report(pool, T, prop):
    T["viol"].sort(key=lambda v: (v[4], v[2]))
    tried = set()
    for famn, prof, seed, p, code, msg in T["viol"]:
        if code in tried and len(tried) > 6:
            continue
        tried.add(code)
        r = subprocess.run([PY, "-c", "import sys,json; sys.path.insert(0, %r)\nfrom dst import runlib\nrunlib.prepare()\n"
                            "sys.stdout.write(json.dumps(runlib.make(%r, %r, %d)))" % (HERE, famn, prof, seed)],
                           stdout=subprocess.PIPE, cwd=HERE)
        scn = json.loads(r.stdout)
        m = pool.one({"do": "shrink", "scn": scn, "prop": p, "code": code, "budget": 40}, 200)
        if m is None or m.get("error"):
            continue
        small = m["scn"]
        m1 = pool.one({"do": "one", "scn": small})
        m2 = pool.one({"do": "trace", "scn": small, "n": 250})
        if not m1 or not m2 or m1["hash"] != m2["hash"]:
            continue
        hits = [v for v in m1["violations"] if v[0] == p and v[1] == code]
        if not hits:
            continue
        d = {"property": p, "code": code, "message": hits[0][2], "hash": m1["hash"], "found_with": {
            "family": famn, "profile": prof, "seed": seed}, "minimised": {"tried": m["tried"], "kept": m["kept"]},
            "scenario": small, "history_tail": m2["history"], "trace_tail": m2["trace"]}
        os.makedirs(os.path.join(HERE, "out", "replay"), exist_ok=True)
        name = "%s-%s-%s.json" % (p, code, hashlib.sha1(json.dumps(small, sort_keys=True).encode()).hexdigest()[:10])
        path = os.path.join(HERE, "out", "replay", name)
        with open(path, "w") as f:
            json.dump(d, f, indent=1, default=str)
        print("%s [%s] %s" % (p, code, hits[0][2]))
        print("seed %s/%s/%d; minimised in %d tries; replay twice gave trace %s both times" % (
            famn, prof, seed, m["tried"], m1["hash"]))
        print("VIOLATION property=%s replay=%s" % (p, path))
        return 1
    die("violations did not reproduce: %r" % (T["viol"][:3],))


def write_evidence(prop, tier, a, T, keys, search_s, wall):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    from dst.plan import RULES, ASSUME
    samples = T["samples"][:2] or [{"note": "no non-trivial run"}]
    cov = {
        "evaluations": T["n"],
        "distinct_nontrivial": len(keys),
        "rule": RULES.get(prop, RULES["*"]),
        "samples": samples,
        "runs_per_hour": int(T["n"] / max(search_s, 1e-6) * 3600),
        "simulated_hours": round(T["sim"] / 3600, 2),
        "scheduler_steps": T["steps"],
        "context_switches": T["switches"],
        "faults_injected": dict(sorted(T["faults"].items())),
        "reached": dict(sorted(T["probes"].items())),
        "per_family": T["perfam"],
        "distinct_measure": "hash of the sequence of (thread, seam) pairs and history events of a run",
        "real_code": REAL, "stubs": STUB,
        "determinism": "first scenarios of every family executed twice in different processes with different "
                       "PYTHONHASHSEED; trace hashes equal",
        "repo": os.environ.get("VERIF_REPO", "/repo"),
    }
    if T["viol"]:
        cov["violation_seeds"] = [list(v[:5]) for v in T["viol"][:10]]
    ev = {"property": prop, "tier": tier, "seed": a.seed, "level": "exploration", "coverage": cov,
          "assumptions": ASSUME, "wall_s": round(wall, 2), "violations": len(T["viol"])}
    s = json.dumps(ev, indent=1, default=str)
    if len(s) > 60000:
        cov["samples"] = [{"truncated": json.dumps(samples[0], default=str)[:20000]}]
        s = json.dumps(ev, indent=1, default=str)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        f.write(s + "\n")


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
