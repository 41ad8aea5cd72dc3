#!/opt/venv/bin/python
"""det.py FAM PROF A B REPS: repeats seeds in one process and shows the first difference between traces."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dst import runlib
runlib.prepare()
fam, prof, a, b, reps = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5])
ref = {}
bad = 0
for rep in range(reps):
    for s in range(a, b):
        R = runlib.execute(runlib.make(fam, prof, s), keep_trace=True)
        if s not in ref: ref[s] = R.trace
        elif ref[s] != R.trace:
            bad += 1
            for i, (x, y) in enumerate(zip(ref[s], R.trace)):
                if x != y:
                    print("seed", s, "rep", rep, "line", i); print("\n".join(ref[s][max(0,i-4):i+3])); print("--"); print("\n".join(R.trace[i:i+3])); break
            else: print("seed", s, "length", len(ref[s]), len(R.trace))
        runlib.collect()
print("differences", bad)
