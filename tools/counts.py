#!/usr/bin/env python3
"""Which planted bugs edit a line of the original repository (base commit given, default: root of the fixes)?"""
import os, re, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = os.environ.get("BASE", "b07129a")
def git(*a, env=None, stdin=None):
    return subprocess.run(["git", "-C", "/repo", *a], input=stdin, stdout=subprocess.PIPE, check=True,
                          env={**os.environ, **(env or {})}).stdout.decode()
def added(path):
    out = set()
    for m in re.finditer(r"(?m)^@@ -\S+ \+(\d+)(?:,(\d+))? @@", git("diff-tree", "-r", "-p", "-U0", BASE, "HEAD", "--", path)):
        out.update(range(int(m[1]), int(m[1]) + int(m[2] or 1)))
    return out
for i in sorted(sys.argv[1:] or os.listdir(V + "/seeded")):
    with tempfile.TemporaryDirectory() as d:
        env = {"GIT_INDEX_FILE": d + "/index"}
        git("read-tree", "HEAD", env=env)
        git("apply", "--cached", "%s/seeded/%s/patch.diff" % (V, i), env=env)
        tree = git("write-tree", env=env).strip()
    ok = []
    for path in git("diff-tree", "-r", "--name-only", "HEAD", tree).split():
        a = added(path)
        for m in re.finditer(r"(?m)^@@ -(\d+)(?:,(\d+))? ", git("diff-tree", "-r", "-p", "-U0", "HEAD", tree, "--", path)):
            at, n = int(m[1]), int(m[2] or 1)
            old = [x not in a for x in (range(at, at + n) if n else (at, at + 1)) if x >= 1]
            ok.append(any(old) if n else all(old))
    if not any(ok):
        print("does not count:", i)
