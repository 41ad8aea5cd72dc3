import json, os, shutil, stat, sys
sys.path.insert(0, "/verif/tools")
from plant import plant
COMMON = open("/verif/tools/bugs/common.py").read()
ES, LOOP, STRAT, MSG = ("jqtrade/scheduler/%s.py" % n for n in ("event_source", "loop", "strategy", "message"))
GATE, ACC, API, POS = ("jqtrade/account/%s.py" % n for n in ("trade_gate", "account", "api", "position"))
UT, RUN, MAIN = "jqtrade/scheduler/utils.py", "jqtrade/scheduler/runner.py", "jqtrade/__main__.py"
UTIL = "jqtrade/common/utils.py"
only = sys.argv[1:]
def bug(bid, prop, needs, breaks, edits, demo):
    if only and bid not in only: return
    plant(bid, edits)
    d = "/verif/seeded/" + bid
    open(d + "/demo.py", "w").write("# -*- coding: utf-8 -*-\n" + COMMON + "\n\n# ---- the demonstration\n" + demo.lstrip("\n"))
    open(d + "/demo.sh", "w").write('#!/bin/bash\n# run in the repository; 0: behaves, 1: broken\nPY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3\nexec timeout 250 "$PY" "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1, ensure_ascii=False)
    print("planted", bid)
exec(open("/verif/tools/bugs/bugs.py").read())
