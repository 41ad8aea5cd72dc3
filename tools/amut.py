#!/opt/venv/bin/python
"""amut.py OUT FILE... : automatic mutants of the given jqtrade modules, each run against a sample of every family.

Development tool (no registered check uses it).  Writes one line per mutant to OUT: killed/alive, where, what.
"""
import ast, copy, json, os, shutil, subprocess, sys, tempfile, concurrent.futures as cf
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SWAP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
        ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
ARITH = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.FloorDiv, ast.Div: ast.Mult}


def islog(n):
    return isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and "logger" in ast.unparse(n.value.func) or \
        isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)


def inlog(n):
    return isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and ast.unparse(n.func.value) == "logger"


def mutants(src):
    """yields (line, description, new source)"""
    base = ast.parse(src)
    jobs = []

    def walk(n, path):
        if inlog(n) or isinstance(n, ast.JoinedStr):
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in SWAP:
            jobs.append((path, "cmp"))
        if isinstance(n, ast.BoolOp):
            jobs.append((path, "bool"))
            jobs.append((path, "left"))
            jobs.append((path, "right"))
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            jobs.append((path, "true"))
            jobs.append((path, "false"))
        if isinstance(n, ast.BinOp) and type(n.op) in ARITH:
            jobs.append((path, "arith"))
        if isinstance(n, ast.Constant) and type(n.value) in (int, float):
            jobs.append((path, "plus"))
            if n.value:
                jobs.append((path, "zero"))
        if isinstance(n, ast.Constant) and type(n.value) is bool:
            jobs.append((path, "not"))
        if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            jobs.append((path, "none"))
        if isinstance(n, (ast.Break, ast.Continue)):
            jobs.append((path, "loop"))
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Delete)) and not islog(n):
            jobs.append((path, "drop"))
        if isinstance(n, ast.Try) and n.handlers:
            jobs.append((path, "nohandler"))
        if isinstance(n, ast.Try) and n.finalbody:
            jobs.append((path, "nofinal"))
        if isinstance(n, ast.With):
            jobs.append((path, "unwith"))
        if isinstance(n, ast.Call) and len(n.args) == 1 and isinstance(n.func, ast.Name) and n.func.id in (
                "list", "dict", "copy", "deepcopy", "sorted", "abs", "str", "int", "float", "reversed", "round"):
            jobs.append((path, "unwrap"))
        if isinstance(n, ast.Call) and n.keywords and all(k.arg for k in n.keywords):
            for i in range(len(n.keywords)):
                jobs.append((path, "kw%d" % i))
        for f, v in ast.iter_fields(n):
            if isinstance(v, ast.AST):
                walk(v, path + [(f, None)])
            elif isinstance(v, list):
                for i, x in enumerate(v):
                    if isinstance(x, ast.AST):
                        walk(x, path + [(f, i)])

    walk(base, [])
    seen = set()
    for path, kind in jobs:
        t = copy.deepcopy(base)
        parent, n = None, t
        for f, i in path:
            parent, n, at = n, (getattr(n, f) if i is None else getattr(n, f)[i]), (f, i)
        line = getattr(n, "lineno", 0)
        old = ast.unparse(n).split("\n")[0][:100]

        def put(x):
            f, i = at
            if i is None:
                setattr(parent, f, x)
            else:
                getattr(parent, f)[i] = x
        if kind == "cmp":
            n.ops[0] = SWAP[type(n.ops[0])]()
        elif kind == "bool":
            n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
        elif kind == "left":
            put(n.values[0])
        elif kind == "right":
            put(n.values[-1])
        elif kind == "true":
            n.test = ast.Constant(True)
        elif kind == "false":
            n.test = ast.Constant(False)
        elif kind == "arith":
            n.op = ARITH[type(n.op)]()
        elif kind == "plus":
            n.value = n.value + 1
        elif kind == "zero":
            n.value = 0
        elif kind == "not":
            n.value = not n.value
        elif kind == "none":
            n.value = ast.Constant(None)
        elif kind == "loop":
            put(ast.Continue() if isinstance(n, ast.Break) else ast.Break())
        elif kind == "drop":
            put(ast.Pass())
        elif kind == "nohandler":
            for h in n.handlers:
                h.body = [ast.Raise()]
        elif kind == "nofinal":
            n.finalbody = []
            if not n.handlers:
                n.orelse = []
                put(ast.If(test=ast.Constant(True), body=n.body, orelse=[]))
        elif kind == "unwith":
            if n.items[0].optional_vars is not None:
                continue
            put(ast.If(test=ast.Constant(True), body=n.body, orelse=[]))
        elif kind == "unwrap":
            put(n.args[0])
        elif kind.startswith("kw"):
            del n.keywords[int(kind[2:])]
        try:
            s = ast.unparse(ast.fix_missing_locations(t))
            compile(s, "x", "exec")
        except Exception:
            continue
        if s in seen:
            continue
        seen.add(s)
        yield line, "%s: %s" % (kind, old), s


RUN = r'''
import sys, os, time, signal
sys.path.insert(0, %r)
signal.alarm(200)
from dst import runlib, plan
runlib.prepare()
jobs = []
FAMS = os.environ["AM_FAMS"].split(",")
for p, l in plan.PLAN.items():
    for fam, prof, q, t in l:
        if fam not in FAMS:
            continue
        n = max(20, q // 16)
        jobs.append((fam, prof, n))
best = {}
for fam, prof, n in jobs:
    best[(fam, prof)] = max(best.get((fam, prof), 0), n)
done = 0
for part in range(5):
    for (fam, prof), n in best.items():
        for s in range(part * n // 5, (part + 1) * n // 5):
            scn = runlib.make(fam, prof, 10 ** 6 + s)
            R = runlib.execute(scn)
            done += 1
            if R.error:
                print("KILLED", "harness", fam, prof, s, str(R.error)[-200:].replace("\n", " | ")); sys.exit()
            for v in R.violations:
                print("KILLED", v[0], v[1], fam, prof, s); sys.exit()
            runlib.collect()
print("ALIVE", done)
''' % HERE


def fams(f):
    if "account/" in f:
        return "gate,bal,cust,crash"
    if f.endswith(("__main__.py", "utils.py", "config.py")):
        return "ptab,sched,cust,gate"
    if f.endswith("log.py"):
        return "sched,ptab"
    return "sched,threads,cust"


def run(job):
    f, line, what, s = job
    d = tempfile.mkdtemp(prefix="am_", dir="/tmp/am")
    try:
        shutil.copytree(REPO + "/jqtrade", d + "/jqtrade", ignore=shutil.ignore_patterns("__pycache__"))
        open(os.path.join(d, f), "w").write(s)
        env = dict(os.environ, VERIF_REPO=d, AM_FAMS=fams(f), PYTHONHASHSEED="0", TZ="Asia/Shanghai", PYTHONDONTWRITEBYTECODE="1", PYTHONWARNINGS="ignore")
        try:
            p = subprocess.run(["/opt/venv/bin/python", "-c", RUN], cwd=HERE, env=env, timeout=300, capture_output=True, text=True)
            out = [l for l in p.stdout.split("\n") if l.startswith(("KILLED", "ALIVE"))]
            res = out[-1] if out else "KILLED crash %s %s" % (p.returncode, p.stderr[-150:].replace("\n", " | "))
        except subprocess.TimeoutExpired:
            res = "KILLED timeout"
    finally:
        shutil.rmtree(d, True)
    return res, f, line, what


def main():
    out = open(sys.argv[1], "a")
    jobs = []
    for f in sys.argv[2:]:
        for line, what, s in mutants(open(os.path.join(REPO, f)).read()):
            jobs.append((f, line, what, s))
    print(len(jobs), "mutants")
    if os.environ.get("COUNT"):
        return
    with cf.ThreadPoolExecutor(int(os.environ.get("J", "6"))) as ex:
        for res, f, line, what in (x.result() for x in cf.as_completed([ex.submit(run, j) for j in jobs])):
            out.write("%s\t%s:%d\t%s\n" % (res, f, line, what))
            out.flush()


if __name__ == "__main__":
    main()
