#!/usr/bin/env python3
"""mut.py FILE OLD NEW -- CMD...: runs CMD with VERIF_REPO pointing at a copy of /repo in which OLD is replaced by NEW."""
import os, shutil, subprocess, sys, tempfile
i = sys.argv.index("--")
edits = sys.argv[1:i]
d = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
try:
    shutil.copytree("/repo/jqtrade", d + "/jqtrade", ignore=shutil.ignore_patterns("__pycache__"))
    while edits:
        f, old, new = edits[:3]
        edits = edits[3:]
        p = os.path.join(d, f)
        s = open(p).read()
        old, new = old.encode().decode("unicode_escape") if False else old, new
        if s.count(old) != 1:
            sys.exit("%d matches of %r" % (s.count(old), old))
        open(p, "w").write(s.replace(old, new))
    sys.exit(subprocess.call(sys.argv[i + 1:], env=dict(os.environ, VERIF_REPO=d)))
finally:
    shutil.rmtree(d)
