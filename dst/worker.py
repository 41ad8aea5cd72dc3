"""One worker process: executes ranges of seeds, single scenarios and minimisations on request (JSON lines)."""
import json
import os
import sys


def main():
    out = os.dup(1)
    os.dup2(2, 1)
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from dst import runlib, shrink
    from dst import kernel as K
    runlib.prepare()

    def put(o):
        b = (json.dumps(o) + "\n").encode()
        while b:
            b = b[os.write(out, b):]

    put({"ready": True})
    for line in sys.stdin:
        job = json.loads(line)
        if job["do"] == "range":
            put(do_range(runlib, K, job))
        elif job["do"] == "one":
            R = runlib.execute(job["scn"])
            put({"violations": R.violations, "hash": R.hash, "error": R.error, "wall": R.wall})
        elif job["do"] == "shrink":
            put(shrink.minimise(job["scn"], job["prop"], job["code"], job.get("budget", 40)))
        elif job["do"] == "trace":
            R = runlib.execute(job["scn"], keep_trace=True)
            hist = [{k: v for k, v in h.items() if k != "obj"} for h in R.history]
            put({"trace": R.trace[-job.get("n", 300):], "history": hist[-job.get("n", 300):], "hash": R.hash,
                 "violations": R.violations, "error": R.error})
        else:
            put({"error": "unknown job"})


def do_range(runlib, K, job):
    agg = {"n": 0, "nontrivial": 0, "steps": 0, "sim": 0.0, "wall": 0.0, "faults": {}, "probes": {}, "counts": {},
           "viol": [], "errors": [], "keys": [], "switches": 0, "hashes": [], "sample": None, "other": {}}
    for seed in range(job["a"], job["b"]):
        scn = runlib.make(job["fam"], job["prof"], seed)
        R = runlib.execute(scn)
        agg["n"] += 1
        agg["steps"] += R.steps
        agg["switches"] += R.switches
        agg["sim"] += R.sim
        agg["wall"] += R.wall
        if R.nontrivial:
            agg["nontrivial"] += 1
            agg["keys"].append(R.ihash[:16])
        for src, dst in ((R.faults, agg["faults"]), (R.probes, agg["probes"]), (R.counts, agg["counts"])):
            for k, v in src.items():
                dst[k] = dst.get(k, 0) + v
        if R.error:
            agg["errors"].append([seed, str(R.error)[:500]])
        for v in R.violations:
            if v[0] in job["props"]:
                if len(agg["viol"]) < 20:
                    agg["viol"].append([seed, v[0], v[1], str(v[2])[:600]])
            else:
                agg["other"][v[0]] = agg["other"].get(v[0], 0) + 1
        if job.get("hashes"):
            agg["hashes"].append(R.hash)
        if agg["sample"] is None and R.nontrivial and job.get("sample"):
            agg["sample"] = {"scenario": scn, "steps": R.steps, "faults": R.faults, "sim_s": R.sim, "hash": R.hash}
        runlib.collect()
    return agg


if __name__ == "__main__":
    main()
