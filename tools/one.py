#!/opt/venv/bin/python
"""one.py FAM PROF SEED [-t]: run one seed verbosely."""
import sys, os, json, pprint
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dst import runlib
runlib.prepare()
if sys.argv[1] == "-f":
    d = json.load(open(sys.argv[2])); scn = d.get("scenario", d)
else:
    scn = runlib.make(sys.argv[1], sys.argv[2], int(sys.argv[3]))
R = runlib.execute(scn, keep_trace=True)
print(json.dumps(scn, indent=None))
if "-h" in sys.argv or "-t" not in sys.argv:
    for h in R.history[:400]:
        print({k: v for k, v in h.items() if k not in ("t", "w")}, round((h["t"])/1e9, 4))
if "-t" in sys.argv:
    for l in R.trace: print(l)
for k, v in R.stderr.items():
    if v: print("STDERR", k, v[-2500:])
if "-o" in sys.argv:
    for k, v in R.stdout.items(): print("STDOUT", k, v[-6000:])
for v in R.violations: print("VIOL", v)
print("err", R.error, "abort", R.abort, "steps", R.steps, "wall", R.wall, R.hash)
