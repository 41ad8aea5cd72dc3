import os, sys, time, shutil, atexit, tempfile, textwrap, subprocess, datetime
sys.dont_write_bytecode = True
REPO = os.getcwd()
sys.path.insert(0, REPO)
TMP = tempfile.mkdtemp(prefix="demo_")
atexit.register(shutil.rmtree, TMP, True)


def tz_at(h, m=12, s=0):
    """a TZ value with which the local time is now h:m:s"""
    off = (int(time.time()) - (h * 3600 + m * 60 + s)) % 86400
    if off > 43200:
        off -= 86400
    sign, off = ("-", -off) if off < 0 else ("+", off)
    return "DMO%s%02d:%02d:%02d" % (sign, off // 3600, off // 60 % 60, off % 60)


def use_tz(tz):
    os.environ["TZ"] = tz
    time.tzset()


def start(name, script, tz=None, config=None, module=None):
    """starts a strategy through the command line"""
    path = os.path.join(TMP, (module or name) + ".py")
    with open(path, "w", encoding="utf-8") as f:
        f.write(textwrap.dedent(script))
    env = dict(os.environ, PYTHONPATH=REPO + os.pathsep + TMP, PYTHONDONTWRITEBYTECODE="1", HOME=TMP,
               DEMO=TMP, PYTHONIOENCODING="utf-8")
    if tz:
        env["TZ"] = tz
    cmd = [sys.executable, "-m", "jqtrade", "start_task", "-c", path, "-n", "%s_%d" % (name, os.getpid())]
    if config:
        cmd += ["--config", config]
    log = open(os.path.join(TMP, "%s.%d.log" % (name, time.time_ns())), "wb")
    p = subprocess.Popen(cmd, cwd=TMP, env=env, stdout=log, stderr=subprocess.STDOUT)
    p.log = log.name
    atexit.register(p.kill)
    return p


def finish(p, timeout=60):
    try:
        return p.wait(timeout)
    except subprocess.TimeoutExpired:
        return "still running"


def fail(msg):
    print("BROKEN:", msg)
    sys.exit(1)


def orders_dir(tz=None):
    d = os.path.join(TMP, "orders")
    os.makedirs(d, exist_ok=True)
    return d


# text put at the top of strategy files that talk to the broker's files
BROKER = r'''
import os, datetime
DIR = os.path.join(os.environ["DEMO"], "orders")
os.makedirs(DIR, exist_ok=True)
def path(kind):
    return os.path.join(DIR, "%s_%s.csv" % (kind, datetime.date.today().strftime("%Y%m%d")))
def put(kind, *lines):
    with open(path(kind), "ab") as f:
        for l in lines:
            f.write((l + os.linesep).encode("utf-8"))
def headers():
    put("orderUpdate", "updTime,orderDate,orderTime,acctType,acct,symbol,tradeSide,status,orderQty,orderPrice,"
        "orderType,filledQty,avgPrice,filledAmt,cancelQty,orderNo,corrId,custBatchNo,text,cliOrderId")
    put("execResult", "updTime,resultType,custBatchNo,status,errorCode,errorMsg")
def update(oid, status, filled=0, text="", more="", code="600000.SH"):
    put("orderUpdate", "100000.000,%s,100000,UM0,1,%s,1,%s,100,10.0,0,%d,%s,%s,0,77,c,%s,%s,x%s" % (
        datetime.date.today().strftime("%Y%m%d"), code, status, filled, 10.0 if filled else 0, filled * 10.0, oid, text,
        more))
def options(**kw):
    d = dict(account_no="1", order_dir=DIR, runtime_dir=os.path.join(os.environ["DEMO"], "rt"), sync_balance=False,
             sync_internal=3600)
    d.update(kw)
    return d
def state(oid):
    o = get_orders().get(oid)
    return None if o is None else o.status
def say(*a):
    with open(os.path.join(os.environ["DEMO"], "said.txt"), "a", encoding="utf-8") as f:
        f.write(" ".join(str(i) for i in a) + "\n")
'''


def said():
    try:
        with open(os.path.join(TMP, "said.txt"), encoding="utf-8") as f:
            return f.read().split("\n")[:-1]
    except FileNotFoundError:
        return []


def show(p):
    with open(p.log, "rb") as f:
        sys.stdout.write(f.read().decode("utf-8", "replace")[-3000:])
