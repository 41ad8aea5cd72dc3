bug("s01-coalesce-overdue", "S01", "two scheduled times of the same every-minute task overdue at once (a run that lasts longer than a minute)",
"A task whose next scheduled time is already due when the previous run ends drops the overdue run instead of making it up.",
[(ES, """            dt, evt = dt_evt
            ctx.event_bus.emit(evt)
""", """            dt, evt = dt_evt
            # 已经有更新的事件到期时只执行最新的一个，避免积压
            upcoming = None if config.ENABLE_HISTORY_START else event_source.peek_next_event()
            while upcoming and upcoming[0] <= ctx.loop.current_dt:
                dt, evt = event_source.get_next_event()
                upcoming = event_source.peek_next_event()
            ctx.event_bus.emit(evt)
""")], '''
use_tz(tz_at(12))
from jqtrade.scheduler.bus import EventBus
from jqtrade.scheduler.context import Context
from jqtrade.scheduler.event import create_event_class
from jqtrade.scheduler.event_source import EventSource, EventSourceScheduler
from jqtrade.scheduler.loop import EventLoop

loop, bus, sched = EventLoop(), EventBus(), EventSourceScheduler()
ctx = Context(task_name="demo", event_bus=bus, loop=loop, scheduler=sched, loader=None, debug=False,
              config=None, out=None)
cls = create_event_class("Demo")
src = EventSource()
src.setup()
first = datetime.datetime.now().replace(microsecond=0) + datetime.timedelta(seconds=2)
for i in range(4):
    src.daily(cls, (first + datetime.timedelta(seconds=i)).strftime("%H:%M:%S"))
ran = []


def work(event):
    ran.append(loop.strategy_dt)
    if len(ran) == 1:
        time.sleep(2.5)
    if loop.current_dt > first + datetime.timedelta(seconds=3):
        loop.defer(300, loop.stop)


bus.register(cls, work)
sched.schedule(src)
loop.defer(9000, loop.stop)
loop.run()
want = [first + datetime.timedelta(seconds=i) for i in range(4)]
if ran != want:
    fail("ran for %s instead of %s" % (ran, want))
''')

bug("s01-drop-late-day", "S01", "the last run of a day ends (or the clock is stepped) past the first scheduled time of the next day",
"Events of a new day that are already due when that day is expanded are dropped, so the runs never happen.",
[(ES, """        if dt < self._start:
            return
""", """        start = self._start if config.ENABLE_HISTORY_START else datetime.datetime.now()
        if dt < start:
            return
""")], '''
use_tz(tz_at(23, 59, 56))
from jqtrade.scheduler.bus import EventBus
from jqtrade.scheduler.context import Context
from jqtrade.scheduler.event import create_event_class
from jqtrade.scheduler.event_source import EventSource, EventSourceScheduler
from jqtrade.scheduler.loop import EventLoop

loop, bus, sched = EventLoop(), EventBus(), EventSourceScheduler()
ctx = Context(task_name="demo", event_bus=bus, loop=loop, scheduler=sched, loader=None, debug=False,
              config=None, out=None)
cls = create_event_class("Demo")
src = EventSource()
src.setup()
src.daily(cls, "00:00:01")
src.daily(cls, "00:00:04")
src.daily(cls, "23:59:59")
ran = []


def work(event):
    ran.append(loop.strategy_dt.strftime("%H:%M:%S"))
    if len(ran) == 1:
        time.sleep(3)


bus.register(cls, work)
sched.schedule(src)
loop.defer(11000, loop.stop)
loop.run()
if ran != ["23:59:59", "00:00:01", "00:00:04"]:
    fail("runs: %s" % ran)
''')

bug("s01-monotonic-now", "S01", "the wall clock is stepped back while the strategy waits for the next task",
"The loop's idea of the current time ignores wall-clock steps, so tasks begin before the wall clock has reached their time.",
[(LOOP, """logger = sys_logger.getChild("loop")
""", """logger = sys_logger.getChild("loop")

# 用单调时钟推算当前时间，避免系统时间抖动
_CLOCK_OFFSET = time.time() - time.monotonic()
"""), (LOOP, """        return int(time.time() * 1000)
""", """        return int((_CLOCK_OFFSET + time.monotonic()) * 1000)
""")], '''
from jqtrade.scheduler.loop import EventLoop
from jqtrade.scheduler.message import Message
import threading

real, shift = time.time, [0.0]
time.time = lambda: real() + shift[0]
loop = EventLoop()
due = int(time.time() * 1000) + 1500
seen = []


def work():
    seen.append(int(time.time() * 1000))
    loop.stop()


loop.push_message(Message(time=due, callback=work))
loop.push_message(Message(time=due + 60000, callback=work))
threading.Timer(0.5, lambda: shift.__setitem__(0, -2.0)).start()
threading.Timer(8, os._exit, (1,)).start()
loop.run()
if seen[0] < due:
    fail("ran %d ms early" % (due - seen[0]))
os._exit(0)
''')

bug("s02-minute-priority", "S02", "a lower-priority task scheduled in the same minute as, but some seconds before, higher-priority work",
"Within a minute work is ordered by priority instead of by its time: later high-priority work overtakes (and delays) an earlier task.",
[(MSG, """        return self.time, -self.priority, self.seq_number
""", """        # 同一分钟内的消息按优先级排序
        return self.time // 60000, -self.priority, self.time, self.seq_number
""")], '''
while time.time() % 60 > 50:
    time.sleep(1)
from jqtrade.scheduler.loop import EventLoop
from jqtrade.scheduler.message import Message

loop = EventLoop()
base = int(time.time() * 1000)
ran = []
for name, delay, prio in (("sync", 2000, 2), ("task", 700, 0)):
    loop.push_message(Message(time=base + delay, callback=lambda name=name: ran.append(name), priority=prio))
loop.defer(3000, loop.stop)
loop.run()
if ran != ["task", "sync"]:
    fail("order: %s" % ran)
''')

bug("s03-session-wrap", "S03", "an every-minute task with a market session that ends in the last minute of the day",
"Comparing times of day instead of instants makes the session expansion wrap around midnight and never end: the strategy never starts.",
[(STRAT, """                    while _current_dt <= _end_dt:
""", """                    while _current_dt.time() <= _end:
""")], '''
import resource
resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
p = start("wrap", """
    import os
    def tick(context):
        pass
    def process_initialize(context):
        set_options(use_account=False, runtime_dir=os.environ["DEMO"], market_period=[("23:50:00", "23:59:00")])
        run_daily(tick, "every_minute")
        run_daily(done, "12:00:12")
    def done(context):
        os._exit(7)
    """, tz=tz_at(12, 0, 0))
code = finish(p, 40)
if code != 7:
    fail("did not reach its task: %s" % code)
''')

bug("s04-stop-queued", "S04", "a stop signal arrives while a task runs and another task is already overdue",
"The stop request is queued behind the work that is already due, so overdue tasks still start after the signal.",
[(LOOP, """        logger.info(f"handle signal: {sig}")
        self.stop()
""", """        logger.info(f"handle signal: {sig}")
        # 排队退出，避免打断正在处理的消息
        self.defer(0, self.stop)
""")], '''
import signal
p = start("stopper", """
    import os, time
    def say(s):
        open(os.path.join(os.environ["DEMO"], "said.txt"), "a").write(s + "\\\\n")
    def first(context):
        say("first")
        time.sleep(4)
        say("end")
    def second(context):
        say("second")
    def process_initialize(context):
        set_options(use_account=False, runtime_dir=os.environ["DEMO"])
        run_daily(first, "12:00:08")
        run_daily(second, "12:00:09")
    """, tz=tz_at(12, 0, 0))
for _ in range(200):
    if said():
        break
    time.sleep(0.1)
time.sleep(2)
p.send_signal(signal.SIGTERM)
code = finish(p, 20)
if code != 0 or said() != ["first", "end"]:
    show(p)
    fail("exit %s, ran %s" % (code, said()))
''')

bug("s05-signal-hides-error", "S05", "a stop signal arrives while the failing task is still running",
"An exception of a task is dropped when a stop signal came in as well: the process exits as if successful.",
[(LOOP, """        if self._exception is not None:
            raise self._exception
""", """        if self._exception is not None and not self._signaled:
            raise self._exception
"""), (LOOP, """        self._exception = None

""", """        self._exception = None
        self._signaled = False

"""), (LOOP, """        logger.info(f"handle signal: {sig}")
""", """        logger.info(f"handle signal: {sig}")
        self._signaled = True
""")], '''
import signal
p = start("failer", """
    import os, time
    def first(context):
        open(os.path.join(os.environ["DEMO"], "said.txt"), "a").write("first\\\\n")
        time.sleep(3)
        raise RuntimeError("task failed")
    def process_initialize(context):
        set_options(use_account=False, runtime_dir=os.environ["DEMO"])
        run_daily(first, "12:00:08")
    """, tz=tz_at(12, 0, 0))
for _ in range(200):
    if said():
        break
    time.sleep(0.1)
time.sleep(1)
p.send_signal(signal.SIGTERM)
code = finish(p, 20)
if code in (0, "still running"):
    show(p)
    fail("exit status %s although the task failed" % code)
''')

bug("s06-lost-wakeup", "S06", "a submission from another thread races with the loop taking the message it was compared with",
"The loop is only woken when the new message is the earliest one; the check and the insertion are not atomic, so a due callback waits for the next timer.",
[(LOOP, """        self._queue.push(message, message.sort_key)

        if notify:
""", """        # 只有最早的消息变化时才需要唤醒事件循环
        notify = notify and (self._queue.empty() or message.time < self._queue.top().time)
        self._queue.push(message, message.sort_key)

        if notify:
""")], '''
import threading
from jqtrade.scheduler.loop import EventLoop
from jqtrade.scheduler.message import Message

sys.setswitchinterval(1e-5)
loop = EventLoop()
N, T = 1500, 4
ran = []
loop.defer(60000, loop.stop)


def submit(k):
    for i in range(N):
        loop.defer(0, ran.append, (k, i))
        if i % 7 == 0:
            time.sleep(0.001)


threads = [threading.Thread(target=submit, args=(k,), daemon=True) for k in range(T)]
for t in threads:
    t.start()


def watch():
    for t in threads:
        t.join()
    for _ in range(100):
        if len(ran) == N * T:
            break
        time.sleep(0.1)
    print("%d of %d ran" % (len(ran), N * T), flush=True)
    os._exit(0 if sorted(ran) == [(k, i) for k in range(T) for i in range(N)] else 1)


threading.Thread(target=watch, daemon=True).start()
loop.run()
fail("loop ended: %d of %d ran" % (len(ran), N * T))
''')

bug("a01-price-digits", "A01", "an order whose limit price has three decimals (exchange-traded funds)",
"Prices are rounded to two decimals when the order line is written, so the broker receives another price than the one acknowledged.",
[(GATE, """        order_info = [str(i) for i in order_info]
        order_line = ",".join(order_info) + os.linesep
""", """        order_info = [f"{i:.2f}" if isinstance(i, float) else str(i) for i in order_info]
        order_line = ",".join(order_info) + os.linesep
""")], '''
p = start("price", BROKER + """
def process_initialize(context):
    headers()
    set_options(**options())
    for price in (1.5, 1.234, 12.0):
        say(order("510050.XSHG", 100, LimitOrderStyle(price)), price)
    say(open(path("algoOrder"), encoding="utf-8").read().replace(os.linesep, "|"))
    os._exit(0)
""", tz=tz_at(12))
code = finish(p)
out = said()
if code != 0 or len(out) != 4:
    show(p)
    fail("exit %s %s" % (code, out))
lines = [l.split(",") for l in out[3].split("|") if l]
for o in out[:3]:
    oid, price = o.split()
    mine = [l for l in lines if oid in l]
    if len(mine) != 1 or float(mine[0][-1]) != float(price):
        fail("order %s reached the broker as %s" % (o, mine))
''')

bug("a02-shared-lock", "A02", "two strategies write the first line of the day's file at the same time",
"The append is done under a shared lock, so two writers get past the empty-file check together and the header is written twice.",
[(GATE, "portalocker.lock(fp, portalocker.LOCK_EX | portalocker.LOCK_NB)  # no block",
  "portalocker.lock(fp, portalocker.LOCK_SH | portalocker.LOCK_NB)  # no block")], '''
script = BROKER + """
import time, codecs
def encode(text, errors="strict"):
    # a slow machine: the order line is being prepared for half a second
    time.sleep(0.7)
    return text.encode("utf-8"), len(text)
def find(name):
    if name == "slowutf":
        return codecs.CodecInfo(encode, codecs.lookup("utf-8").decode, name="slowutf")
codecs.register(find)
def process_initialize(context):
    set_options(**options(sync_order=False, file_encoding="slowutf"))
    me, other = NAMES
    open(os.path.join(os.environ["DEMO"], me), "w").close()
    for _ in range(3000):
        if os.path.exists(os.path.join(os.environ["DEMO"], other)):
            break
        time.sleep(0.01)
    say(order("600000.XSHG", 100, LimitOrderStyle(10.0)))
    os._exit(0)
"""
tz = tz_at(12)
orders_dir()
ps = [start(n, script.replace("NAMES", repr(names)), tz=tz) for n, names in (("one", ("a", "b")), ("two", ("b", "a")))]
codes = [finish(p) for p in ps]
ids = said()
if codes != [0, 0] or len(ids) != 2 or "None" in ids:
    for p in ps:
        show(p)
    fail("exit %s, ids %s" % (codes, ids))
name = [f for f in os.listdir(os.path.join(TMP, "orders")) if f.startswith("algoOrder_")]
lines = open(os.path.join(TMP, "orders", name[0]), encoding="utf-8").read().split()
if len(lines) != 3 or not lines[0].startswith("updTime") or any(l.startswith("updTime") for l in lines[1:]):
    fail("order file: %s" % lines)
''')

bug("a03-forget-finished", "A03", "a restart after some orders have finished",
"Only unfinished orders are restored from the saved record; finished ones are unknown after a restart (and dropped from the record).",
[(GATE, """                orders = json.load(rf)
""", """                orders = json.load(rf)
                # 已完成的订单不会再变化，无需恢复
                orders = {_id: _info for _id, _info in orders.items()
                          if _info["status"] not in ("filled", "canceled", "partly_canceled", "rejected")}
""")], '''
tz = tz_at(12)
p = start("again", BROKER + """
def process_initialize(context):
    headers()
    set_options(**options())
    a = order("600000.XSHG", 100, LimitOrderStyle(10.0))
    b = order("600000.XSHG", 200, LimitOrderStyle(10.0))
    update(a, 2, filled=100)
    update(b, 0)
    sync_orders()
    say(a, state(a))
    say(b, state(b))
    os._exit(9)
""", tz=tz)
code = finish(p)
want = said()
if code != 9 or [l.split()[1] for l in want] != ["filled", "open"]:
    show(p)
    fail("exit %s %s" % (code, want))
p = start("again", BROKER + """
def process_initialize(context):
    set_options(**options())
    sync_orders()
    for oid, o in get_orders().items():
        say(oid, o.status)
    os._exit(0)
""", tz=tz)
code = finish(p)
got = said()[2:]
if code != 0 or sorted(got) != sorted(want):
    show(p)
    fail("before the restart %s, after it %s" % (want, got))
''')

bug("a03-shared-temp", "A03", "two strategies with the same runtime directory save their records at the same time",
"All strategies of a runtime directory write their record through the same temporary file, so one's record is replaced by (or lost to) another's.",
[(GATE, """        tmp_file = self._data_file + ".tmp"
""", """        tmp_file = os.path.join(self._data_dir, "orders.tmp")
""")], '''
tz = tz_at(12)
orders_dir()
first = BROKER + """
import time
def process_initialize(context):
    set_options(**options(sync_order=False))
    me, other = NAMES
    open(os.path.join(os.environ["DEMO"], me), "w").close()
    for _ in range(3000):
        if os.path.exists(os.path.join(os.environ["DEMO"], other)):
            break
        time.sleep(0.01)
    for i in range(150):
        say(me, order("600000.XSHG", 100 + i, LimitOrderStyle(10.0)))
    os._exit(9)
"""
ps = [start(n, first.replace("NAMES", repr(names)), tz=tz) for n, names in (("one", ("a", "b")), ("two", ("b", "a")))]
codes = [finish(p, 100) for p in ps]
if codes != [9, 9]:
    for p in ps:
        show(p)
    fail("exit %s" % codes)
acked = {k: set(l.split()[1] for l in said() if l.startswith(k + " ")) - {"None"} for k in "ab"}
if len(acked["a"]) != 150 or len(acked["b"]) != 150:
    fail("refused orders: %s" % {k: 150 - len(v) for k, v in acked.items()})
for n, me in (("one", "a"), ("two", "b")):
    p = start(n, BROKER + """
headers()
def process_initialize(context):
    set_options(**options())
    sync_orders()
    for oid in get_orders():
        say("after", oid)
    os._exit(0)
""", tz=tz)
    before = len(said())
    code = finish(p)
    got = set(l.split()[1] for l in said()[before:])
    if code != 0 or got != acked[me]:
        fail("%s lost %d and adopted %d orders" % (n, len(acked[me] - got), len(got - acked[me])))
''')

bug("a04-only-changed", "A04", "reading the order-update file fails in a synchronisation in which the result file had news",
"A synchronisation returns only the orders it changed; what it had already consumed before an I/O error is never reported again.",
[(GATE, """        pre_order_update_offset = self._order_update_offset
        pre_order_result_offset = self._order_result_offset
""", """        pre_order_update_offset = self._order_update_offset
        pre_order_result_offset = self._order_result_offset
        # 首次同步返回全部订单，之后只返回有变化的订单
        changed = set() if self._has_synced else None
"""), (GATE, """                            _order["err_msg"] = _order_result_line.errorMsg
""", """                            _order["err_msg"] = _order_result_line.errorMsg
                            if changed is not None:
                                changed.add(_order_result_line.custBatchNo)
"""), (GATE, """                    self._update_order(self._orders[order_line.custBatchNo], order_line)
""", """                    self._update_order(self._orders[order_line.custBatchNo], order_line)
                    if changed is not None:
                        changed.add(order_line.custBatchNo)
"""), (GATE, """        for _order in self._orders.values():
            data.append(_order.copy())
""", """        for _order_id, _order in self._orders.items():
            if changed is None or _order_id in changed:
                data.append(_order.copy())
""")], '''
p = start("changed", BROKER + """
def process_initialize(context):
    headers()
    set_options(**options())
    a = order("600000.XSHG", 100, LimitOrderStyle(10.0))
    b = order("600000.XSHG", 200, LimitOrderStyle(10.0))
    sync_orders()
    say(state(a), state(b))
    put("execResult", "1,1,%s,1,9,refused" % a)
    os.rename(path("orderUpdate"), path("orderUpdate") + ".away")
    os.mkdir(path("orderUpdate"))
    sync_orders()
    os.rmdir(path("orderUpdate"))
    os.rename(path("orderUpdate") + ".away", path("orderUpdate"))
    update(b, 0)
    sync_orders()
    sync_orders()
    say(state(a), state(b))
    os._exit(0)
""", tz=tz_at(12))
code = finish(p)
if code != 0 or said() != ["new new", "rejected open"]:
    show(p)
    fail("exit %s, states %s" % (code, said()))
''')

bug("a05-extra-columns", "A05", "a status line with more columns than documented (two lines run together, a comma in a text)",
"Surplus columns are folded into the last field instead of making the line invalid, so a damaged line takes effect.",
[(GATE, """                    _items = [_s.strip() for _s in _line.split(",")]
                    if len(_items) != len(self.ORDER_LINE_COLS):
""", """                    _items = [_s.strip() for _s in _line.split(",", len(self.ORDER_LINE_COLS) - 1)]
                    if len(_items) != len(self.ORDER_LINE_COLS):
""")], '''
p = start("columns", BROKER + """
def process_initialize(context):
    headers()
    set_options(**options())
    a = order("600000.XSHG", 100, LimitOrderStyle(10.0))
    update(a, 0)
    sync_orders()
    say(state(a))
    update(a, 2, filled=100, more=",20231106,20231106,100000,UM0")
    sync_orders()
    say(state(a))
    update(a, 1, filled=50)
    sync_orders()
    say(state(a))
    os._exit(0)
""", tz=tz_at(12))
code = finish(p)
if code != 0 or said() != ["open", "open", "filling"]:
    show(p)
    fail("exit %s, states %s" % (code, said()))
''')
BAL = '''
ASSET = ("acct,exchange,currency,totalAsset,enabledBalance,currentBalance", "1,,CNY,%s,%s,%s")
def asset(total, free, cur, end=True):
    with open(path("assetInfo"), "wb") as f:
        f.write((ASSET[0] + os.linesep + ASSET[1] % (total, free, cur) + (os.linesep + ",,,,," + os.linesep if end else "")).encode())
POS = "acct,symbol,currentQty,enabledQty,costPrice,lastPrice,mktValue"
def positions(*rows, end=True):
    with open(path("positionInfo"), "wb") as f:
        f.write((os.linesep.join((POS,) + rows) + (os.linesep + ",,,,,," + os.linesep if end else "")).encode())
'''
bug("a06-torn-export", "A06", "a synchronisation finds the export cut off in the middle of a row that has an empty field",
"The completeness check accepts any last row with an empty field, so a cut-off export is taken for a complete one.",
[(GATE, """        if not df.loc[len(df)-1].isna().all():
""", """        if not df.loc[len(df)-1].isna().any():
""")], '''
p = start("torn", BROKER + """''' + BAL + '''
def process_initialize(context):
    headers()
    asset("10000.0", "9000.0", "9500.0")
    positions("1,600000.SH,100,100,10.0,10.5,1050.0", "1,000001.SZ,300,200,11.0,11.5,3450.0")
    set_options(**options(sync_balance=True, sync_retry_kwargs={"max_attempts": 1, "attempt_internal": 0.05}))
    pf = context.portfolio
    say(pf.total_value, pf.available_cash, sorted((c, p.total_amount) for c, p in pf.long_positions.items()))
    # the broker is in the middle of rewriting the exports
    asset("20000.0", "8000.0", "9500.0")
    positions("1,600000.SH,700,100,10.0,10.5,", end=False)
    sync_balance()
    say(pf.total_value, pf.available_cash, sorted((c, p.total_amount) for c, p in pf.long_positions.items()))
    positions("1,600000.SH,700,100,10.0,10.5,7350.0", "1,000001.SZ,300,200,11.0,11.5,3450.0")
    sync_balance()
    say(pf.total_value, pf.available_cash, sorted((c, p.total_amount) for c, p in pf.long_positions.items()))
    os._exit(0)
""", tz=tz_at(12))
code = finish(p)
old = "10000.0 9000.0 [('000001.XSHE', 300), ('600000.XSHG', 100)]"
new = "20000.0 8000.0 [('000001.XSHE', 300), ('600000.XSHG', 700)]"
if code != 0 or said() != [old, old, new]:
    show(p)
    fail("exit %s, figures %s" % (code, said()))
''')

bug("a07-cached-path", "A07", "the process stays up past midnight and an order of the new day is refused through the result file",
"The path of the result file is computed once, so after midnight yesterday's file is still the one being read.",
[(GATE, """    @property
    def _order_result_csv(self):
""", """    @functools.cached_property
    def _order_result_csv(self):
"""), (GATE, """import time
import json
""", """import time
import json
import functools
""")], '''
p = start("nightly", BROKER + """
import time
def process_initialize(context):
    headers()
    set_options(**options())
    a = order("600000.XSHG", 100, LimitOrderStyle(10.0))
    sync_orders()
    put("execResult", "1,1,%s,1,9,refused" % a)
    sync_orders()
    say(state(a))
    day = datetime.date.today()
    while datetime.date.today() == day:
        time.sleep(0.2)
    headers()
    b = order("600000.XSHG", 100, LimitOrderStyle(10.0))
    c = order("600000.XSHG", 100, LimitOrderStyle(10.0))
    sync_orders()
    put("execResult", "1,1,%s,1,9,refused" % c)
    update(b, 0)
    sync_orders()
    say(state(b), state(c))
    os._exit(0)
""", tz=tz_at(23, 59, 48))
code = finish(p)
if code != 0 or said() != ["rejected", "open rejected"]:
    show(p)
    fail("exit %s, states %s" % (code, said()))
''')

bug("a08-sticky-style", "A08", "a batch in which an item without a style follows an item with one",
"An item of a batch that leaves out style or side inherits them from the previous item.",
[(API, """    order_ids = []
    for _order_info in orders:
        _code""", """    order_ids = []
    _style, _side = None, None
    for _order_info in orders:
        _code"""), (API, """        _style = _order_info.get("style")
        _side = _order_info.get("side")
""", """        _style = _order_info.get("style", _style)
        _side = _order_info.get("side", _side)
""")], '''
p = start("batch", BROKER + """
def process_initialize(context):
    headers()
    set_options(**options())
    ids = batch_submit_orders([dict(code="600000.XSHG", amount=100, style=LimitOrderStyle(10.0)),
                               dict(code="000001.XSHE", amount=200)])
    say(*ids)
    say(open(path("algoOrder"), encoding="utf-8").read().replace(os.linesep, "|"))
    os._exit(0)
""", tz=tz_at(12))
code = finish(p)
out = said()
if code != 0 or len(out) != 2:
    show(p)
    fail("exit %s %s" % (code, out))
ids = out[0].split()
lines = {l.split(",")[1]: l.split(",") for l in out[1].split("|") if l}
if lines[ids[0]][8] != "AT" or lines[ids[1]][8] != "P6":
    fail("order file: %s" % lines)
''')

bug("a08-cancel-once", "A08", "a cancel that failed (the file was locked) is requested again",
"A cancel request is remembered before it has been handed over, so repeating a failed one silently does nothing.",
[(ACC, """            logger.info(f"提交撤单，被撤订单id：{order_id}")
            self._ctx.trade_gate.cancel_order(order_id)
""", """            if order_id in self._cancel_submitted:
                logger.info(f"撤单已提交过，忽略重复撤单，被撤订单id：{order_id}")
                return

            logger.info(f"提交撤单，被撤订单id：{order_id}")
            self._cancel_submitted.add(order_id)
            self._ctx.trade_gate.cancel_order(order_id)
"""), (ACC, """        self.has_synced = False

""", """        self.has_synced = False

        # 已提交过撤单的订单
        self._cancel_submitted = set()

""")], '''
p = start("cancel", BROKER + """
import portalocker
def process_initialize(context):
    headers()
    set_options(**options(wait_lock_time_out=0.5))
    a = order("600000.XSHG", 100, LimitOrderStyle(10.0))
    put("algoOrderStop", "updTime,custBatchNo")
    with open(path("algoOrderStop"), "ab") as f:
        portalocker.lock(f, portalocker.LOCK_EX | portalocker.LOCK_NB)
        cancel_order(a)
        portalocker.unlock(f)
    say(open(path("algoOrderStop")).read().count(a))
    cancel_order(a)
    say(open(path("algoOrderStop")).read().count(a))
    os._exit(0)
""", tz=tz_at(12))
code = finish(p)
if code != 0 or said() != ["0", "1"]:
    show(p)
    fail("exit %s, cancel lines %s" % (code, said()))
''')

bug("a09-blocking-lock", "A09", "another program holds the order file locked for longer than the timeout",
"The lock is awaited inside the operating system, so the timeout is never applied while another program holds the file.",
[(GATE, "portalocker.lock(fp, portalocker.LOCK_EX | portalocker.LOCK_NB)  # no block", "portalocker.lock(fp, portalocker.LOCK_EX)")], '''
open(os.path.join(TMP, "hold.py"), "w").write("""
import sys, time, portalocker
f = open(sys.argv[1], "ab")
portalocker.lock(f, portalocker.LOCK_EX)
print("held", flush=True)
time.sleep(8)
""")
p = start("locked", BROKER + """
import subprocess, sys, time
def process_initialize(context):
    headers()
    set_options(**options(wait_lock_time_out=1))
    put("algoOrder", "updTime,custBatchNo,acctType,acct,symbol,tradeSide,targetQty,algoId,priceType,ticks,highLimitPrice,lowLimitPrice")
    h = subprocess.Popen([sys.executable, os.path.join(os.environ["DEMO"], "hold.py"), path("algoOrder")], stdout=subprocess.PIPE)
    h.stdout.readline()
    t = time.monotonic()
    r = order("600000.XSHG", 100, LimitOrderStyle(10.0))
    say(r, time.monotonic() - t)
    h.kill()
    h.wait()
    say(order("600000.XSHG", 100, LimitOrderStyle(10.0)) is not None)
    os._exit(0)
""", tz=tz_at(12))
code = finish(p)
out = said()
if code != 0 or len(out) != 2 or out[1] != "True" or not out[0].startswith("None ") or float(out[0].split()[1]) > 4:
    show(p)
    fail("exit %s %s" % (code, out))
''')

GATEMOD = '''
open(os.path.join(TMP, "demo_gate.py"), "w").write("""
import os, datetime
from jqtrade.account.trade_gate import AbsTradeGate
def say(*a):
    with open(os.path.join(os.environ["DEMO"], "said.txt"), "a", encoding="utf-8") as f:
        f.write(" ".join(str(i) for i in a) + "\\\\n")
%s
""")
open(os.path.join(TMP, "demo_config.py"), "w").write('ACCOUNT_TRADE_GATE = "demo_gate.Gate"\\n')
CONFIG = os.path.join(TMP, "demo_config.py")
'''
bug("a10-end-of-day", "A10", "the process is still up on the next day",
"The synchronisation timetable ends with the day on which the process was started.",
[(ACC, """        event_source = EventSource(start=self._ctx.start, end=self._ctx.end)
        now = datetime.datetime.now().replace(microsecond=0)
""", """        now = datetime.datetime.now().replace(microsecond=0)
        end = self._ctx.end or datetime.datetime.combine(now.date(), datetime.time(23, 59, 59))
        event_source = EventSource(start=self._ctx.start, end=end)
""")], GATEMOD.replace('%s', '''
class Gate(AbsTradeGate):
    def setup(self, options):
        pass
    def sync_balance(self):
        say(datetime.date.today(), "balance")
        return {"cash": {"total_assert": 1, "available_cash": 1, "locked_cash": 0}, "positions": []}
    def sync_orders(self):
        say(datetime.date.today(), "orders")
        return []
''') + '''
p = start("days", """
    import os
    def done(context):
        os._exit(7)
    def process_initialize(context):
        set_options(account_no="1", runtime_dir=os.environ["DEMO"], sync_internal=1)
        run_daily(done, "00:00:08")
    """, tz=tz_at(23, 59, 50), config=CONFIG)
code = finish(p)
days = [l.split()[0] for l in said() if l.endswith("balance")]
if code != 7 or len(set(days)) != 2 or days.count(max(days)) < 5:
    show(p)
    fail("exit %s, synchronisations per day %s" % (code, {d: days.count(d) for d in days}))
''')

bug("a11-known-errors", "A11", "a trade gate raises an exception of its own class while synchronising",
"Only I/O and value errors of a trade gate are contained while synchronising orders; any other exception ends the strategy.",
[(ACC, """        except Exception as e:
            logger.exception(f"同步订单失败，error={e}")
""", """        except (OSError, LookupError, ValueError, TypeError) as e:
            logger.exception(f"同步订单失败，error={e}")
""")], GATEMOD.replace('%s', '''
class GateDown(Exception):
    pass
class Gate(AbsTradeGate):
    n = 0
    def setup(self, options):
        pass
    def sync_balance(self):
        return {"cash": {"total_assert": 1, "available_cash": 1, "locked_cash": 0}, "positions": []}
    def sync_orders(self):
        self.n += 1
        if self.n == 3:
            raise GateDown("connection lost")
        return []
''') + '''
p = start("down", """
    import os
    def done(context):
        os._exit(7)
    def process_initialize(context):
        set_options(account_no="1", runtime_dir=os.environ["DEMO"], sync_internal=1)
        run_daily(done, "12:00:10")
    """, tz=tz_at(12, 0, 0), config=CONFIG)
code = finish(p)
if code != 7:
    show(p)
    fail("the strategy did not survive: %s" % code)
''')

bug("a12-update-in-place", "A12", "an order object kept across a synchronisation that changes figures but not the status",
"An order whose status did not change is updated in place, so order objects obtained earlier change under the strategy's hands.",
[(ACC, """                _local_order = self._orders.get(_order_id)
                if _local_order is None:
""", """                _local_order = self._orders.get(_order_id)
                if _local_order is not None and _local_order.status == _remote_order.status:
                    # 状态未变化时直接刷新成交信息
                    _local_order.__dict__.update(_remote_order.__dict__)
                if _local_order is None:
""")], '''
p = start("snap", BROKER + """
def process_initialize(context):
    headers()
    set_options(**options())
    a = order("600000.XSHG", 100, LimitOrderStyle(10.0))
    update(a, 1, filled=20)
    sync_orders()
    old = get_orders()[a]
    say(old.status, old.filled_amount)
    update(a, 1, filled=60)
    sync_orders()
    say(old.status, old.filled_amount)
    new = get_orders()[a]
    say(new.status, new.filled_amount)
    os._exit(0)
""", tz=tz_at(12))
code = finish(p)
if code != 0 or said() != ["filling 20", "filling 20", "filling 60"]:
    show(p)
    fail("exit %s %s" % (code, said()))
''')

bug("a12-oversell", "A12", "a sell order for more than the sellable quantity is accepted",
"A sell that exceeds the sellable quantity leaves it unchanged instead of lowering it to zero.",
[(POS, """        if order.action == OrderAction.close:
""", """        if order.action == OrderAction.close and order.amount <= self._available_amount:
""")], '''
p = start("sell", BROKER + """''' + BAL + '''
def process_initialize(context):
    headers()
    asset("10000.0", "9000.0", "9500.0")
    positions("1,600000.SH,300,300,10.0,10.5,3150.0")
    set_options(**options(sync_balance=True))
    pf = context.portfolio
    say(pf.long_positions["600000.XSHG"].closeable_amount)
    say(order("600000.XSHG", -200, LimitOrderStyle(10.0)) is not None, pf.long_positions["600000.XSHG"].closeable_amount)
    say(order("600000.XSHG", -200, LimitOrderStyle(10.0)) is not None, pf.long_positions["600000.XSHG"].closeable_amount)
    os._exit(0)
""", tz=tz_at(12))
code = finish(p)
if code != 0 or said() != ["300", "True 100", "True 0"]:
    show(p)
    fail("exit %s %s" % (code, said()))
''')

bug("a13-first-save-direct", "A13", "the machine crashes while the very first record of a day is being saved",
"The first record of a day is written directly to its final name, so a crash leaves an empty or cut-off record.",
[(GATE, """        tmp_file = self._data_file + ".tmp"
        with open(tmp_file, "w") as wf:
""", """        # 首次保存时没有旧数据需要保护，直接写入
        tmp_file = self._data_file + ".tmp" if os.path.exists(self._data_file) else self._data_file
        with open(tmp_file, "w") as wf:
""")], '''
# the process is stopped for good at the moment the record is first handed to the disk: what has its final name by then must be whole
p = start("crash", BROKER + """
import json
def rec():
    d = os.path.join(os.environ["DEMO"], "rt", "data")
    return [os.path.join(d, f) for f in os.listdir(d) if f.endswith(".json")]
real = json.JSONEncoder.iterencode
def piecewise(self, *a, **k):
    for i, c in enumerate(real(self, *a, **k)):
        yield c
        if ARMED and i == 3:
            for f in rec():
                say(open(f).read() != "")
                try:
                    json.load(open(f))
                    say("whole")
                except ValueError:
                    say("damaged")
            say("crash")
            os._exit(9)
json.JSONEncoder.iterencode = piecewise
ARMED = False
def process_initialize(context):
    global ARMED
    set_options(**options(sync_order=False))
    ARMED = True
    order("600000.XSHG", 100, LimitOrderStyle(10.0))
    ARMED = False
    for f in rec():
        json.load(open(f))
    os._exit(0)
""", tz=tz_at(12))
code = finish(p)
if code not in (0, 9):
    show(p)
    fail("exit %s" % code)
if "damaged" in said():
    fail("the record was damaged when the machine went down: %s" % said())
''')

bug("p01-same-parent", "P01", "the second start comes from the same parent process (shell, supervisor) as the first",
"Processes that share the starter's parent are taken for the starter's own wrappers, so a task can be started twice from one shell.",
[(RUN, """        if _task.pid in (current_pid, parent_pid):
            continue
""", """        # 通过sudo等方式启动时，当前进程与包装进程属于同一个父进程
        if _task.pid in (current_pid, parent_pid) or _task.ppid() == parent_pid:
            continue
""")], '''
script = """
    import os
    def run(context):
        os._exit(7)
    def process_initialize(context):
        open(os.path.join(os.environ["DEMO"], "said.txt"), "a").write("running\\\\n")
        set_options(use_account=False, runtime_dir=os.environ["DEMO"])
        run_daily(run, "12:00:30")
    """
tz = tz_at(12, 0, 0)
a = start("twin", script, tz=tz)
for _ in range(200):
    if said():
        break
    time.sleep(0.1)
b = start("twin", script, tz=tz)
code = finish(b, 20)
if a.poll() is not None:
    show(a)
    fail("the first one ended: %s" % a.poll())
a.kill()
if code in (0, 7, "still running") or said() != ["running"]:
    fail("the second start was not refused: %s %s" % (code, said()))
''')

bug("p02-stop-at-vanished", "P02", "an unrelated process exits while stop_task or get_tasks walks the process table",
"The walk over the process table ends at a process that has just exited, so tasks behind it are neither stopped nor listed.",
[(UT, """            except psutil.NoSuchProcess:
                pass

""", """            except psutil.NoSuchProcess:
                break

""")], '''
import signal
script = """
    import os
    def run(context):
        pass
    def process_initialize(context):
        open(os.path.join(os.environ["DEMO"], "said.txt"), "a").write("running\\\\n")
        set_options(use_account=False, runtime_dir=os.environ["DEMO"])
        run_daily(run, "18:00:00")
    """
a = start("victim", script, tz=tz_at(12))
for _ in range(200):
    if said():
        break
    time.sleep(0.1)
time.sleep(1)
import psutil
gone = subprocess.Popen(["sleep", "60"])
ghost = psutil.Process(gone.pid)
gone.kill()
gone.wait()
real = psutil.process_iter


def walk(*args, **kw):
    yield ghost
    for p in real(*args, **kw):
        yield p


psutil.process_iter = walk
from jqtrade.__main__ import main
sys.argv = ["jqtrade", "stop_task", "-n", "victim_%d" % os.getpid()]
main()
code = finish(a, 15)
if code != 0:
    fail("the task was not stopped: %s" % code)
''')


LOG = "jqtrade/common/log.py"
SAPI = "jqtrade/scheduler/api.py"

bug("s07-fresh-log", "S07", "a strategy is killed and started again with the same -o file",
"The log file is emptied at every start, so a restart wipes out what was logged before the crash.",
[(LOG, "    file_handler = logging.FileHandler(file)\n", "    file_handler = logging.FileHandler(file, mode=\"w\", encoding=\"utf-8\")\n")], '''
import signal
script = """
    import time
    def run(context):
        pass
    def process_initialize(context):
        set_options(use_account=False, runtime_dir=os.environ["DEMO"])
        log.info("<%s>" % os.environ["MARK"])
        print("printed <%s>" % os.environ["MARK"])
        run_daily(run, "18:00:00")
    """
script = "import os\\n" + textwrap.dedent(script)
path = os.path.join(TMP, "logger.py")
open(path, "w").write(script)
out = os.path.join(TMP, "strategy.log")
open(out, "w").write("an older line\\n")


def text():
    return open(out, encoding="utf-8", errors="replace").read()


for mark in ("one", "two"):
    env = dict(os.environ, PYTHONPATH=REPO, MARK=mark, TZ=tz_at(12), HOME=TMP, DEMO=TMP, PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.Popen([sys.executable, "-m", "jqtrade", "start_task", "-c", path, "-n", "l%d" % os.getpid(), "-o", out],
                         env=env, cwd=TMP, stdout=subprocess.DEVNULL)
    for _ in range(200):
        if "printed <%s>" % mark in text():
            break
        time.sleep(0.1)
    time.sleep(0.3)
    p.kill()
    p.wait()
t = text()
for w in ("an older line", "] <one>", "printed <one>", "] <two>", "printed <two>"):
    if t.count(w) != 1:
        fail("%r is %d times in the log:\\n%s" % (w, t.count(w), t))
''')

bug("s07-held-output", "S07", "the strategy is killed (or the log is read) soon after a message was logged",
"Messages up to INFO are held back in memory until eight of them have come together or something worse is logged; a kill loses them and prints overtake them.",
[(LOG, """    logging.getLogger().addHandler(file_handler)
""", """    # collect routine messages: one write for several of them
    file_handler = logging.handlers.MemoryHandler(8, logging.WARNING, file_handler)
    file_handler.setLevel(level)
    logging.getLogger().addHandler(file_handler)
"""), (LOG, "import logging\nimport datetime\n", "import logging\nimport logging.handlers\nimport datetime\n")], '''
script = """
    import os
    def run(context):
        pass
    def process_initialize(context):
        set_options(use_account=False, runtime_dir=os.environ["DEMO"])
        run_daily(run, "18:00:00")
        for i in range(20):
            log.info("<msg %d>" % i)
            print("<said %d>" % i)
        os.kill(os.getpid(), 9)
    """
path = os.path.join(TMP, "logger.py")
open(path, "w").write(textwrap.dedent(script))
out = os.path.join(TMP, "strategy.log")
env = dict(os.environ, PYTHONPATH=REPO, TZ=tz_at(12), HOME=TMP, DEMO=TMP, PYTHONDONTWRITEBYTECODE="1")
p = subprocess.Popen([sys.executable, "-m", "jqtrade", "start_task", "-c", path, "-n", "l%d" % os.getpid(), "-o", out],
                     env=env, cwd=TMP, stdout=subprocess.DEVNULL)
finish(p, 60)
t = open(out, encoding="utf-8", errors="replace").read()
want = []
for i in range(20):
    want += ["<msg %d>" % i, "<said %d>" % i]
import re
got = re.findall(r"<(?:msg|said) \\d+>", t)
if got != want:
    fail("the log holds %s" % got)
''')

bug("s07-print-rewrite", "S07", "two strategies share a log file and print at the same moment",
"Print opens the log for updating and seeks to its end instead of appending, so two strategies printing at the same time overwrite each other.",
[(SAPI, """        with open(ctx.out, "a") as wf:
            kwargs["file"] = wf
            print(*args, **kwargs)
""", """        with open(ctx.out, "r+") as wf:
            wf.seek(0, 2)
            kwargs["file"] = wf
            print(*args, **kwargs)
""")], '''
script = """
    import os, threading
    real = open
    def run(context):
        pass
    def process_initialize(context):
        set_options(use_account=False, runtime_dir=os.environ["DEMO"])
        run_daily(run, "18:00:00")
        me = os.environ["MARK"]
        for i in range(3000):
            print("<%s %d>" % (me, i))
        os.kill(os.getpid(), 9)
    """
path = os.path.join(TMP, "logger.py")
open(path, "w").write(textwrap.dedent(script))
out = os.path.join(TMP, "strategy.log")
ps = []
for mark in "ABCD":
    env = dict(os.environ, PYTHONPATH=REPO, MARK=mark, TZ=tz_at(12), HOME=TMP, DEMO=TMP, PYTHONDONTWRITEBYTECODE="1")
    ps.append(subprocess.Popen([sys.executable, "-m", "jqtrade", "start_task", "-c", path, "-n", mark + "%d" % os.getpid(),
                                "-o", out], env=env, cwd=TMP, stdout=subprocess.DEVNULL))
for p in ps:
    finish(p, 60)
lines = set(open(out, encoding="utf-8", errors="replace").read().split("\\n"))
for mark in "ABCD":
    lost = [i for i in range(3000) if "<%s %d>" % (mark, i) not in lines]
    if lost:
        fail("%d lines of %s are missing" % (len(lost), mark))
''')

bug("a14-partial-fills", "A14", "an order is filled in several parts at the same price",
"A further partial fill is announced only if it changed the average price.",
[(ACC, """            if remote_order.status == OrderStatus.filling:
                self._notify_deal(local_order, remote_order)

    @staticmethod
""", """            # 重复推送的成交回报不再提示
            if remote_order.status == OrderStatus.filling and remote_order.avg_cost != local_order.avg_cost:
                self._notify_deal(local_order, remote_order)

    @staticmethod
""")], '''
p = start("parts", BROKER + """
def process_initialize(context):
    headers()
    set_options(**options())
    a = order("600000.XSHG", 100, LimitOrderStyle(10.0))
    sync_orders()
    for n in (10, 30, 60):
        update(a, 1, n)
        sync_orders()
        sync_orders()
    update(a, 2, 100)
    sync_orders()
    say(a, state(a))
    os._exit(0)
""", tz=tz_at(12))
code = finish(p)
out = said()
if code != 0 or len(out) != 1:
    show(p)
    fail("exit %s, %s" % (code, out))
oid = out[0].split()[0]
log = open(p.log, encoding="utf-8").read().split("\\n")
part = [l for l in log if "订单部分成交" in l and oid in l]
full = [l for l in log if "订单全部成交" in l and oid in l]
if len(part) != 3 or len(full) != 1 or [("已成数量：%d，" % n) in l for n, l in zip((10, 30, 60), part)] != [True] * 3:
    fail("announced: %s" % (part + full))
''')

bug("a14-quiet-repeat", "A14", "a synchronisation fails, a later one succeeds and then it fails for the same reason again",
"A failed synchronisation is only reported when the error differs from the last one reported, so a fault that comes back goes unnoticed.",
[(ACC, """        except Exception as e:
            logger.exception(f"同步订单失败，error={e}")
""", """        except Exception as e:
            # 同一个错误不重复打印堆栈
            if str(e) == self._last_sync_error:
                logger.debug(f"同步订单失败，error={e}")
            else:
                logger.exception(f"同步订单失败，error={e}")
            self._last_sync_error = str(e)
"""), (ACC, """        self.has_synced = False

""", """        self.has_synced = False

        self._last_sync_error = None

""")], '''
p = start("again", BROKER + """
def process_initialize(context):
    set_options(**options())
    print("<1>", flush=True)
    sync_orders()
    print("<2>", flush=True)
    headers()
    sync_orders()
    print("<3>", flush=True)
    os.rename(path("orderUpdate"), path("orderUpdate") + ".away")
    os.rename(path("execResult"), path("execResult") + ".away")
    sync_orders()
    print("<4>", flush=True)
    os._exit(0)
""", tz=tz_at(12))
code = finish(p)
t = open(p.log, encoding="utf-8").read()
if code != 0 or "<4>" not in t:
    show(p)
    fail("exit %s" % code)
errors = [t.split("<%d>" % i)[1].split("<%d>" % (i + 1))[0].count("Traceback") > 0 for i in (1, 2, 3)]
if errors != [True, False, True]:
    show(p)
    fail("failures reported: %s" % errors)
''')

bug("a14-short-result", "A14", "a line of the result file is damaged by the loss of its tail",
"Lines of the result file with too few columns are completed with empty ones instead of being reported as damaged.",
[(GATE, """                    _items = [_s.strip() for _s in _line.split(",")]
                    if len(_items) != len(self.ORDER_RESULT_COLS):
""", """                    _items = [_s.strip() for _s in (_line + "," * (len(self.ORDER_RESULT_COLS) - 1 - _line.count(","))).split(",")]
                    if len(_items) != len(self.ORDER_RESULT_COLS):
""")], '''
p = start("short", BROKER + """
def process_initialize(context):
    headers()
    set_options(**options())
    a = order("600000.XSHG", 100, LimitOrderStyle(10.0))
    sync_orders()
    print("<1>", flush=True)
    put("execResult", "1,1,%s,1,9" % a)
    sync_orders()
    print("<2>", flush=True)
    update(a, 0)
    sync_orders()
    print("<3>", flush=True)
    say(state(a))
    os._exit(0)
""", tz=tz_at(12))
code = finish(p)
t = open(p.log, encoding="utf-8").read()
if code != 0 or said() != ["open"]:
    show(p)
    fail("exit %s, %s" % (code, said()))
errors = [t.split("<%d>" % i)[1].split("<%d>" % (i + 1))[0].count("Traceback") > 0 for i in (1, 2)]
if errors != [True, False]:
    show(p)
    fail("failures reported: %s" % errors)
''')

bug("a14-new-day-mute", "A14", "the process stays up past midnight and the first synchronisation of the new day finds a refused cancel request",
"The new day is treated like a start of the process: what the result file already holds is consumed without announcing refused cancels.",
[(GATE, """                        if self._has_synced:
""", """                        # 从头读取的结果文件，其中的撤单失败视为历史信息
                        if pre_order_result_offset > 0:
""")], '''
p = start("nightly", BROKER + """
import time
def process_initialize(context):
    headers()
    set_options(**options())
    a = order("600000.XSHG", 100, LimitOrderStyle(10.0))
    sync_orders()
    day = datetime.date.today()
    while datetime.date.today() == day:
        time.sleep(0.2)
    headers()
    b = order("600000.XSHG", 100, LimitOrderStyle(10.0))
    update(b, 0)
    cancel_order(b)
    put("execResult", "1,2,%s,1,9,too_late" % b)
    sync_orders()
    say(b, state(b))
    os._exit(0)
""", tz=tz_at(23, 59, 48))
code = finish(p)
out = said()
if code != 0 or len(out) != 1 or out[0].split()[1] != "open":
    show(p)
    fail("exit %s, %s" % (code, out))
log = open(p.log, encoding="utf-8").read().split("\\n")
if len([l for l in log if "撤单失败" in l and out[0].split()[0] in l and "too_late" in l]) != 1:
    show(p)
    fail("the refused cancel was not announced")
''')

bug("a03-kept-offset", "A03", "status lines that cannot be decoded (a wrong file_encoding), then a restart with the right encoding",
"The position reached in the status files is kept over a restart, so lines skipped by the earlier process are never read again.",
[(GATE, """        # shutil.move在重命名失败时会退化为逐字节拷贝，中途崩溃会破坏缓存文件
        os.replace(tmp_file, self._data_file)
""", """        # shutil.move在重命名失败时会退化为逐字节拷贝，中途崩溃会破坏缓存文件
        os.replace(tmp_file, self._data_file)

        # 记录已解析到的位置，重启后不需要从头解析
        with open(tmp_file, "w") as wf:
            json.dump([self._order_update_offset, self._order_result_offset], wf)
        os.replace(tmp_file, self._data_file + ".pos")
"""), (GATE, """                self._orders = orders
        except Exception as e:
""", """                self._orders = orders
            if os.path.exists(self._data_file + ".pos"):
                with open(self._data_file + ".pos", "r") as rf:
                    self._order_update_offset, self._order_result_offset = json.load(rf)
        except Exception as e:
""")], '''
script = BROKER + """
def process_initialize(context):
    first = not os.path.exists(os.path.join(DIR, "id"))
    if first:
        headers()
        set_options(**options(file_encoding="ascii"))
        a = order("600000.XSHG", 100, LimitOrderStyle(10.0))
        open(os.path.join(DIR, "id"), "w").write(a)
        update(a, 0)
        sync_orders()
        update(a, 2, 100, text="全部成交")
        sync_orders()
        say(state(a))
        os.kill(os.getpid(), 9)
    set_options(**options(file_encoding="utf-8"))
    a = open(os.path.join(DIR, "id")).read()
    sync_orders()
    say(state(a))
    os._exit(0)
"""
tz = tz_at(12)
finish(start("decode", script, tz=tz))
p = start("decode", script, tz=tz)
code = finish(p)
if code != 0 or said() != ["open", "filled"]:
    show(p)
    fail("exit %s, states %s" % (code, said()))
''')

bug("a15-retry-budget", "A15", "several synchronisations of one process meet an export that is being rewritten",
"The number of attempts is counted over the life of the process instead of per reading: once the retries are used up, no synchronisation waits for a half-written export any more.",
[(UTIL, """    def _wrap(func):
        def _retry(*args, **kwargs):
            attempts = 0
            while True:
""", """    def _wrap(func):
        attempts = 0

        def _retry(*args, **kwargs):
            nonlocal attempts
            while True:
""")], '''
p = start("budget", BROKER + """''' + BAL + '''
import threading
def process_initialize(context):
    headers()
    asset("10000.0", "9000.0", "9500.0")
    positions("1,600000.SH,100,100,10.0,10.5,1050.0")
    set_options(**options(sync_balance=True, sync_retry_kwargs={"max_attempts": 2, "attempt_internal": 1.0}))
    for n in range(2, 6):
        # the terminal is in the middle of rewriting the export
        rows = "1,600000.SH,%d00,100,10.0,10.5,1050.0" % n, "1,000001.SZ,300,200,11.0,11.5,3450.0"
        positions(*rows, end=False)
        t = threading.Timer(0.3, positions, rows)
        t.start()
        sync_balance()
        t.join()
        say(context.portfolio.long_positions["600000.XSHG"].total_amount)
    os._exit(0)
""", tz=tz_at(12))
code = finish(p)
if code != 0 or said() != ["200", "300", "400", "500"]:
    show(p)
    fail("exit %s, positions %s" % (code, said()))
''')

bug("a15-known-errors", "A15", "the attempt at an export falls into the moment at which the file is still empty",
"Only I/O errors are retried; an export that is empty or cut off in mid-row makes the synchronisation give up at once.",
[(GATE, """        AnXinDMATradeGate._read_csv = simple_retry(**_sync_retry_kwargs)(AnXinDMATradeGate._read_csv)
""", """        AnXinDMATradeGate._read_csv = simple_retry(on_exception=lambda e: isinstance(e, OSError),
                                                   **_sync_retry_kwargs)(AnXinDMATradeGate._read_csv)
""")], '''
p = start("empty", BROKER + """''' + BAL + '''
import threading
def process_initialize(context):
    headers()
    asset("10000.0", "9000.0", "9500.0")
    positions("1,600000.SH,100,100,10.0,10.5,1050.0")
    set_options(**options(sync_balance=True, sync_retry_kwargs={"max_attempts": 2, "attempt_internal": 1.0}))
    for n in range(2, 4):
        # the terminal has just begun to rewrite the export
        open(path("positionInfo"), "wb").close()
        t = threading.Timer(0.3, positions, ("1,600000.SH,%d00,100,10.0,10.5,1050.0" % n,))
        t.start()
        sync_balance()
        t.join()
        say(context.portfolio.long_positions["600000.XSHG"].total_amount)
    os._exit(0)
""", tz=tz_at(12))
code = finish(p)
if code != 0 or said() != ["200", "300"]:
    show(p)
    fail("exit %s, positions %s" % (code, said()))
''')

bug("a06-account-zeros", "A06", "the exports also list an account whose number differs from the strategy's in leading zeros only",
"Account numbers are compared without leading zeros, so the positions of another account are taken for the strategy's own.",
[(GATE, """            if _pos.acct != acct_no:
""", """            # 部分版本导出持仓时会丢掉资金账号的前导0
            if str(_pos.acct).lstrip("0") != acct_no.lstrip("0"):
""")], '''
p = start("zeros", BROKER + """''' + BAL + '''
def process_initialize(context):
    headers()
    asset("10000.0", "9000.0", "9500.0")
    positions("1,600000.SH,100,100,10.0,10.5,1050.0", "01,000001.SZ,300,200,11.0,11.5,3450.0", "001,600000.SH,700,0,11.0,11.5,8050.0",
              "10,000002.SZ,300,200,11.0,11.5,3450.0")
    set_options(**options(sync_balance=True))
    pf = context.portfolio
    say(pf.total_value, pf.available_cash, sorted((c, p.total_amount) for c, p in pf.long_positions.items()))
    os._exit(0)
""", tz=tz_at(12))
code = finish(p)
if code != 0 or said() != ["10000.0 9000.0 [('600000.XSHG', 100)]"]:
    show(p)
    fail("exit %s, figures %s" % (code, said()))
''')

bug("a04-chunked-sync", "A04", "more than 500 lines (of other users of the account) are published between two synchronisations",
"One synchronisation consumes at most 500 status lines, so it shows an outdated state when more were published.",
[(GATE, """            rf.seek(pre_order_update_offset)
            while True:
""", """            rf.seek(pre_order_update_offset)
            # 限制单次同步处理的行数，避免阻塞策略的其他任务
            for _ in range(500):
""")], '''
p = start("chunk", BROKER + """
def process_initialize(context):
    headers()
    set_options(**options())
    a = order("600000.XSHG", 100, LimitOrderStyle(10.0))
    sync_orders()
    for k in range(700):
        update("8%05d" % k, 0)
    update(a, 1, 30)
    sync_orders()
    say(state(a))
    for k in range(20):
        update("9%05d" % k, 0)
    update(a, 2, 100)
    sync_orders()
    say(state(a))
    os._exit(0)
""", tz=tz_at(12))
code = finish(p)
if code != 0 or said() != ["filling", "filled"]:
    show(p)
    fail("exit %s, %s" % (code, said()))
''')

bug("p01-grandparent", "P01", "a running strategy starts its own name again through a shell",
"The parent of the starter's parent is excluded from the check as well, so a task can be started a second time from a shell that the running task opened.",
[(RUN, """        if _task.pid in (current_pid, parent_pid):
            continue
""", """        # 可能经过多层包装（如sudo sh -c）启动
        if _task.pid in (current_pid, parent_pid, psutil.Process(parent_pid).ppid()):
            continue
""")], '''
script = """
    import os, subprocess, shlex, psutil
    OUT = os.path.join(os.environ["DEMO"], "said.txt")
    def process_initialize(context):
        first = not os.path.exists(OUT)
        with open(OUT, "a") as f:
            f.write("running\\\\n")
        if not first:
            os._exit(7)
        cmd = " ".join(shlex.quote(x) for x in psutil.Process().cmdline())
        code = subprocess.call(["sh", "-c", cmd + "; code=$?; exit $code"])
        with open(OUT, "a") as f:
            f.write("refused\\\\n" if code not in (0, 7) else "started\\\\n")
        os._exit(0)
    """
p = start("again", script, tz=tz_at(12))
code = finish(p)
if code != 0 or said() != ["running", "refused"]:
    show(p)
    fail("exit %s, %s" % (code, said()))
''')

bug("s08-event-cursor", "S08", "the process is up for many days (the events of all past days stay in memory)",
"Instead of taking events off the front of the list a cursor is moved along it, and the days that have passed are never dropped.",
[(ES, """        self._events = []
        self._days = []
""", """        self._events = []
        self._cursor = 0
        self._days = []
"""), (ES, """        self._events = []
        self._has_gen_his_days = False
""", """        self._events = []
        self._cursor = 0
        self._has_gen_his_days = False
"""), (ES, """        self.gen_events()
        if len(self._events) == 0:
            logger.debug("peek_next_event. events empty")
            return

        evt_dt = self._events[0]
""", """        self.gen_events()
        if self._cursor == len(self._events):
            logger.debug("peek_next_event. events empty")
            return

        evt_dt = self._events[self._cursor]
"""), (ES, """        self.gen_events()
        if len(self._events) == 0:
            logger.debug("get_next_event. events empty")
            return

        evt_dt = self._events.pop(0)
""", """        self.gen_events()
        if self._cursor == len(self._events):
            logger.debug("get_next_event. events empty")
            return

        # 列表头部弹出是O(n)的，使用游标代替
        evt_dt = self._events[self._cursor]
        self._cursor += 1
"""), (ES, """        if len(self._events):
            return
""", """        if self._cursor < len(self._events):
            return
"""), (ES, """        while len(self._events) == 0 and self._daily:
""", """        while self._cursor == len(self._events) and self._daily:
""")], r'''
import tracemalloc, gc
use_tz(tz_at(0, 0, 1))
from jqtrade.scheduler.event_source import EventSource
from jqtrade.scheduler.event import create_event_class
cls = create_event_class("DemoEvent")
es = EventSource()
es.setup()
for i in range(240):
    es.daily(cls, "%02d:%02d:00" % (9 + i // 60, i % 60))


def days(n):
    last = None
    while n:
        when = es.get_next_event()[0]
        if last is not None and when.date() != last.date():
            n -= 1
        last = when
    gc.collect()
    return tracemalloc.get_traced_memory()[0]


tracemalloc.start()
first = days(10)
second = days(100)
if second - first > 300000:
    fail("%d bytes more after 100 days" % (second - first))
''')

bug("s08-error-memo", "S08", "thousands of failing synchronisations whose messages differ (a time or request number in them)",
"To print the stack of each failure only once every message seen is remembered, without any limit.",
[(ACC, """        self.has_synced = False

""", """        self.has_synced = False

        # 已打印过完整堆栈的错误
        self._known_errors = set()

"""), (ACC, """            logger.exception(f"同步资金和持仓失败，error={e}")
""", """            message = f"同步资金和持仓失败，error={e}"
            logger.error(message, exc_info=message not in self._known_errors)
            self._known_errors.add(message)
""")], GATEMOD.replace('%s', '''
class Gate(AbsTradeGate):
    n = 0
    def setup(self, options):
        pass
    def sync_balance(self):
        self.n += 1
        raise ConnectionError("request %d: %s" % (self.n, "gateway did not answer " * 20))
    def sync_orders(self):
        return []
''') + '''
p = start("memo", """
    import os, gc, tracemalloc, logging
    def used():
        gc.collect()
        return tracemalloc.get_traced_memory()[0]
    def process_initialize(context):
        set_options(account_no="1", runtime_dir=os.environ["DEMO"], sync_internal=3600)
        for i in range(300):
            sync_balance()
        tracemalloc.start()
        a = used()
        for i in range(2000):
            sync_balance()
        b = used()
        print("more", b - a)
        os._exit(7 if b - a < 300000 else 3)
    """, tz=tz_at(12, 0, 0), config=CONFIG)
code = finish(p)
if code != 7:
    show(p)
    fail("exit %s" % code)
''')

bug("s08-foreign-memo", "S08", "a great many lines of other users of the account in the broker's status file",
"The ids of foreign lines are remembered so that each is logged only once; the memory they take is never given back.",
[(GATE, """                    if order_line.custBatchNo not in self._orders:
                        self._order_update_offset = rf.tell()
                        continue
""", """                    if order_line.custBatchNo not in self._orders:
                        if order_line not in self._foreign:
                            self._foreign.append(order_line)
                            logger.debug(f"忽略其他策略的订单：{order_line.custBatchNo}")
                        self._order_update_offset = rf.tell()
                        continue
"""), (GATE, """        self._wait_lock_internal = None
""", """        self._foreign = []
        self._wait_lock_internal = None
""")], '''
p = start("foreign", BROKER + """
import gc, tracemalloc
def used():
    gc.collect()
    return tracemalloc.get_traced_memory()[0]
def process_initialize(context):
    headers()
    set_options(**options())
    a = order("600000.XSHG", 100, LimitOrderStyle(10.0))
    n = [0]
    def more(k):
        with open(path("orderUpdate"), "ab") as f:
            for i in range(k):
                n[0] += 1
                f.write(("100000.000,%s,100000,UM0,1,600000.SH,1,0,100,10.0,0,0,0,0,0,77,c,F%d,,x%s" % (
                    datetime.date.today().strftime("%Y%m%d"), n[0], os.linesep)).encode())
        sync_orders()
    more(200)
    tracemalloc.start()
    more(1)
    b = used()
    more(2500)
    c = used()
    update(a, 2, filled=100)
    sync_orders()
    say(state(a))
    print("more", c - b)
    os._exit(7 if c - b < 400000 else 3)
""", tz=tz_at(12))
code = finish(p)
if code != 7 or said() != ["filled"]:
    show(p)
    fail("exit %s %s" % (code, said()))
''')

bug("a14-cancel-end-mute", "A14", "the order was seen in the state canceling before it reaches its final state",
"An order that is being cancelled counts as finished, so how the cancel ended (cancelled, or filled after all) is never announced.",
[("jqtrade/account/order.py", """        return self._status in OrderStatus.finished_status()
""", """        # 已报撤的订单不会再有新的成交
        return self._status == OrderStatus.canceling or self._status in OrderStatus.finished_status()
""")], '''
p = start("canceling", BROKER + """
def process_initialize(context):
    headers()
    set_options(**options())
    for end in (4, 2):
        a = order("600000.XSHG", 100, LimitOrderStyle(10.0))
        sync_orders()
        update(a, 0)
        sync_orders()
        cancel_order(a)
        update(a, 8)
        sync_orders()
        update(a, end, 100 if end == 2 else 0)
        sync_orders()
        say(a, state(a))
    os._exit(0)
""", tz=tz_at(12))
code = finish(p)
out = said()
if code != 0 or len(out) != 2:
    show(p)
    fail("exit %s, %s" % (code, out))
log = open(p.log, encoding="utf-8").read().split("\\n")
for line, word in zip(out, ("订单已撤单", "订单全部成交")):
    n = len([l for l in log if word in l and line.split()[0] in l])
    if n != 1:
        fail("the end of %s was announced %d times" % (line, n))
''')

bug("a04-canceling-sticks", "A04", "the exchange refuses a cancel it had already acknowledged: the order goes on trading after the state canceling",
"Once an order is being cancelled only its final state is taken over, so fills while the cancel is pending (or after it was refused) are not shown.",
[(GATE, """                    self._update_order(self._orders[order_line.custBatchNo], order_line)
""", """                    _cached = self._orders[order_line.custBatchNo]
                    if _cached["status"] == OrderStatus.canceling.value \\
                            and self._parse_status(order_line.status) not in OrderStatus.finished_status():
                        # 撤单已报之后才到的中间状态已经过期
                        self._order_update_offset = rf.tell()
                        continue

                    self._update_order(_cached, order_line)
""")], '''
p = start("sticks", BROKER + """
def process_initialize(context):
    headers()
    set_options(**options())
    a = order("600000.XSHG", 100, LimitOrderStyle(10.0))
    update(a, 0)
    update(a, 8)
    sync_orders()
    update(a, 1, 30)
    update(a, 1, 60)
    sync_orders()
    o = get_orders(order_id=a)
    o = list(o.values())[0] if isinstance(o, dict) else o[0]
    say(o.status, o.filled_amount)
    os._exit(0)
""", tz=tz_at(12))
code = finish(p)
if code != 0 or len(said()) != 1 or not said()[0].endswith(" 60") or "canceling" in said()[0]:
    show(p)
    fail("exit %s, %s" % (code, said()))
''')

bug("a08-canceling-refused", "A08", "an order the broker already shows as being cancelled is cancelled again",
"A cancel of an order in the state canceling is dropped with an information message: nothing is handed over and no failure is reported.",
[(ACC, """            logger.info(f"提交撤单，被撤订单id：{order_id}")
            self._ctx.trade_gate.cancel_order(order_id)
""", """            if self._orders[order_id].status == OrderStatus.canceling:
                logger.info(f"订单正在撤单中，被撤订单id：{order_id}")
                return

            logger.info(f"提交撤单，被撤订单id：{order_id}")
            self._ctx.trade_gate.cancel_order(order_id)
""")], '''
p = start("again", BROKER + """
def process_initialize(context):
    headers()
    set_options(**options())
    a = order("600000.XSHG", 100, LimitOrderStyle(10.0))
    for status in (0, 8, 8):
        update(a, status)
        sync_orders()
        cancel_order(a)
    say(open(path("algoOrderStop")).read().count(a))
    os._exit(0)
""", tz=tz_at(12))
code = finish(p)
if code != 0 or said() != ["3"]:
    show(p)
    fail("exit %s, cancel lines %s" % (code, said()))
''')

bug("s07-partial-line", "S07", "print is called with an end other than a newline and the process is killed before it prints a newline",
"Output is only written out at the end of a line: what was printed without one stays in the process.",
[(SAPI, """    kwargs.setdefault("flush", True)
""", """    # 行缓冲
    kwargs.setdefault("flush", str(kwargs.get("end") or "\\n").endswith("\\n"))
""")], '''
os.environ.pop("PYTHONUNBUFFERED", None)
p = start("partial", """
import os
def process_initialize(context):
    print("first", 1)
    for i in range(3):
        print("<step %d>" % i, end=" ")
    os.kill(os.getpid(), 9)
""", tz=tz_at(12))
finish(p)
t = open(p.log, encoding="utf-8").read()
for s in ("first 1", "<step 0>", "<step 1>", "<step 2>"):
    if t.count(s) != 1:
        fail("%s is %d times in the output: %s" % (s, t.count(s), t))
''')

bug("a02-name-normalised", "A02", "two strategies whose names differ only in punctuation, with one runtime directory",
"Task names are normalised for use in file names, so 'grid-1' and 'grid_1' keep one order record between them: each overwrites it and takes over what the other left.",
[("jqtrade/scheduler/context.py", """        self._task_name = task_name
""", """        # 任务名称会用于文件名，替换掉特殊字符
        self._task_name = re.sub(r"\\W", "_", task_name)
"""), ("jqtrade/scheduler/context.py", """# -*- coding: utf-8 -*-
""", """# -*- coding: utf-8 -*-
import re
""")], r'''
import json
body = BROKER + """
def process_initialize(context):
    if not os.path.exists(path("orderUpdate")):
        headers()
    set_options(**options())
    sync_orders()
    say(WHO, "before", len(get_orders()))
    order("600000.XSHG", QTY, LimitOrderStyle(10.0))
    say(WHO, "after", len(get_orders()))
    os._exit(0)
"""
tag = os.getpid()
seen = []
for who, name, qty in (("a", "grid-%d" % tag, 100), ("b", "grid_%d" % tag, 200), ("a", "grid-%d" % tag, 300), ("b", "grid_%d" % tag, 400)):
    f = os.path.join(TMP, "s_%s_%d.py" % (who, qty))
    open(f, "w", encoding="utf-8").write("WHO, QTY = %r, %d\n" % (who, qty) + body)
    env = dict(os.environ, PYTHONPATH=REPO + os.pathsep + TMP, PYTHONDONTWRITEBYTECODE="1", HOME=TMP, DEMO=TMP, TZ=tz_at(12))
    p = subprocess.Popen([sys.executable, "-m", "jqtrade", "start_task", "-c", f, "-n", name], cwd=TMP, env=env,
                         stdout=subprocess.DEVNULL, stderr=subprocess.STDOUT)
    if finish(p) != 0:
        fail("a strategy ended with an error")
out = said()
if out != ["a before 0", "a after 1", "b before 0", "b after 1", "a before 1", "a after 2", "b before 1", "b after 2"]:
    fail("orders known: %s" % out)
''')

bug("a03-short-record-name", "A03", "two strategies whose long names have the first 48 characters in common, one of them restarted",
"The name of the order record is cut to a fixed length, so strategies with long similar names replace each other's record and lose orders on restart.",
[("jqtrade/scheduler/context.py", """        self._task_name = task_name
""", """        # 避免文件名过长
        self._task_name = task_name[:48]
""")], r'''
body = BROKER + """
def process_initialize(context):
    if not os.path.exists(path("orderUpdate")):
        headers()
    set_options(**options())
    sync_orders()
    say(WHO, "before", sorted(o.amount for o in (get_orders().values() if isinstance(get_orders(), dict) else get_orders())))
    order("600000.XSHG", QTY, LimitOrderStyle(10.0))
    say(WHO, "after", len(get_orders()))
    os._exit(0)
"""
tag = "%d" % os.getpid() + "l" * 60
for who, name, qty in (("a", tag + "1", 100), ("b", tag + "2", 200), ("a", tag + "1", 300)):
    f = os.path.join(TMP, "s_%s_%d.py" % (who, qty))
    open(f, "w", encoding="utf-8").write("WHO, QTY = %r, %d\n" % (who, qty) + body)
    env = dict(os.environ, PYTHONPATH=REPO + os.pathsep + TMP, PYTHONDONTWRITEBYTECODE="1", HOME=TMP, DEMO=TMP, TZ=tz_at(12))
    p = subprocess.Popen([sys.executable, "-m", "jqtrade", "start_task", "-c", f, "-n", name], cwd=TMP, env=env,
                         stdout=subprocess.DEVNULL, stderr=subprocess.STDOUT)
    if finish(p) != 0:
        fail("a strategy ended with an error")
out = said()
if out != ["a before []", "a after 1", "b before []", "b after 1", "a before [100]", "a after 2"]:
    fail("orders known: %s" % out)
''')
