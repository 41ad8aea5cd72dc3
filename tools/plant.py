#!/usr/bin/env python3
"""plant.py ID FILE OLD NEW [FILE OLD NEW ...]: write seeded/ID/patch.diff from textual replacements on /repo HEAD."""
import os, subprocess, sys, tempfile, shutil
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
def plant(bid, edits):
    tmp = tempfile.mkdtemp(prefix="plant_")
    try:
        for side in "ab":
            os.makedirs(os.path.join(tmp, side))
        new = {}
        for f, old, rep in edits:
            src = new.get(f) or open(os.path.join(REPO, f), encoding="utf-8", newline="").read()
            assert src.count(old) == 1, (bid, f, src.count(old), old)
            new[f] = src.replace(old, rep)
        diff = ""
        for f in sorted(new):
            for side, text in (("a", open(os.path.join(REPO, f), encoding="utf-8", newline="").read()), ("b", new[f])):
                p = os.path.join(tmp, side, f)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, "w", encoding="utf-8", newline="").write(text)
            r = subprocess.run(["diff", "-u", "a/" + f, "b/" + f], cwd=tmp, capture_output=True, text=True)
            diff += "\n".join(l.split("\t")[0] if l.startswith(("--- ", "+++ ")) else l for l in r.stdout.split("\n"))
        d = os.path.join(VERIF, "seeded", bid)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w", encoding="utf-8").write(diff)
        subprocess.run(["git", "-C", REPO, "apply", "--check", os.path.join(d, "patch.diff")], check=True)
        subprocess.run([sys.executable, "-m", "py_compile"] + [os.path.join(tmp, "b", f) for f in new], check=True)
    finally:
        shutil.rmtree(tmp)
if __name__ == "__main__":
    a = sys.argv[2:]
    plant(sys.argv[1], [tuple(a[i:i + 3]) for i in range(0, len(a), 3)])
