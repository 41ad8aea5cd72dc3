#!/opt/venv/bin/python
"""Development driver: try.py FAM PROF FROM TO  -- runs seeds serially and summarises violations."""
import sys, os, time, collections
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dst import runlib
runlib.prepare()
fam, prof, a, b = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
t0 = time.monotonic(); agg = collections.OrderedDict(); faults = collections.Counter(); probes=collections.Counter(); nt = 0; ih=set(); sim=0
slow = []
for s in range(a, b):
    scn = runlib.make(fam, prof, s)
    R = runlib.execute(scn)
    if R.error: print("HARNESS", s, R.error)
    for p, c, m in R.violations:
        agg.setdefault((p, c), []).append((s, m))
    faults.update(R.faults); probes.update(R.probes); nt += R.nontrivial; ih.add(R.ihash); sim += R.sim
    slow.append((R.wall, s))
    runlib.collect()
for k, v in agg.items():
    print(k, len(v), "first:", v[0], [x[0] for x in v[1:6]])
print("runs", b - a, "wall", round(time.monotonic() - t0, 2), "nontrivial", nt, "distinct", len(ih), "sim days", sim/86400)
print("slowest", sorted(slow)[-4:])
print(dict(faults)); print(dict(probes))
