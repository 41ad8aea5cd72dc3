"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | property | what it breaks | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob(root + "/seeded/*")):
    m = json.load(open(d + "/meta.json"))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(d), m["property"], m["what_it_breaks"].replace("|", "/"), m["property"]))
p = root + "/DESIGN.md"
t = open(p).read()
t = re.sub(r"\| planted bug \|.*?\n\n", lambda _: "\n".join(rows) + "\n\n", t, count=1, flags=re.S)
open(p, "w").write(t)
