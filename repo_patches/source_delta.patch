From 3f452387057a867d423ecdae7e61dcca5533361e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:06 +0000
Subject: [PATCH 01/30] fix: run the function registered with run_daily itself
 instead of looking its name up in the strategy module

---
 jqtrade/scheduler/strategy.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/jqtrade/scheduler/strategy.py b/jqtrade/scheduler/strategy.py
index 0f29ef1..4200316 100644
--- a/jqtrade/scheduler/strategy.py
+++ b/jqtrade/scheduler/strategy.py
@@ -99,7 +99,7 @@ class Strategy(object):
         for _desc in self._schedules:
             logger.info(f"设置定时任务: {_desc}")
 
-            _callback = self._get_handle(_desc['name'])
+            _callback = _desc['func']
             _cls_name = f"Scheduler_{_desc['name']}_{self._schedule_count}"
 
             event_source = EventSource(start=self._ctx.start, end=self._ctx.end)
@@ -137,11 +137,12 @@ class Strategy(object):
 
         time = self.TIME_DICT.get(time) or time
 
-        module, func = self._check_handle(func)
+        module, name = self._check_handle(func)
 
         desc = {
             'module': module,
-            'name': func,
+            'name': name,
+            'func': func,
             'time': time,
         }
         self._schedules.append(desc)
@@ -152,9 +153,6 @@ class Strategy(object):
             raise InvalidParam(f"{func} is not callable")
         return func.__module__, func.__name__
 
-    def _get_handle(self, func_name):
-        return getattr(self._user_module, func_name, None)
-
     @property
     def user_module(self):
         return self._user_module
-- 
2.43.0


From 0ac61f4f1a4a340f968bc1d5aba5b52d08c80580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:06 +0000
Subject: [PATCH 02/30] fix: continue with the following day when the generated
 event days are used up

---
 jqtrade/scheduler/event_source.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/jqtrade/scheduler/event_source.py b/jqtrade/scheduler/event_source.py
index d35df7f..1b07bd5 100644
--- a/jqtrade/scheduler/event_source.py
+++ b/jqtrade/scheduler/event_source.py
@@ -32,6 +32,7 @@ class EventSource(object):
         self._daily = []
         self._events = []
         self._days = []
+        self._next_day = None
 
         self._start = start
         self._end = end
@@ -59,7 +60,7 @@ class EventSource(object):
         self._days = self._get_days()
         self._need_regenerate_events = False
 
-    def _get_days(self, count=config.EVENT_DAYS_COUNT):
+    def _get_days(self, count=config.EVENT_DAYS_COUNT, start=None):
         days = []
 
         if config.ENABLE_HISTORY_START or self._end:
@@ -70,7 +71,7 @@ class EventSource(object):
             end = self._end.date() if self._end else None
             count = (end - start).days + 1 if end else count
         else:
-            start = datetime.date.today()
+            start = start or datetime.date.today()
 
         for _delta in range(count):
             days.append(start + datetime.timedelta(days=_delta))
@@ -120,12 +121,14 @@ class EventSource(object):
 
         while len(self._events) == 0:
             if len(self._days) == 0:
-                self._days = self._get_days()
+                # 实盘模式下，从已生成事件的最后一天之后接着生成，避免重复生成最后一天的事件
+                self._days = self._get_days(start=self._next_day)
 
             if not self._days:
                 break
 
             day = self._days.pop(0)
+            self._next_day = day + datetime.timedelta(days=1)
             self.add_daily_events(day)
 
         self._events.sort(key=lambda e: e[0])
-- 
2.43.0


From d1ee52c2aeea11a15b8ff1cf5f89eaf19c0e4952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:06 +0000
Subject: [PATCH 03/30] fix: do not loop forever generating events of an event
 source without timed tasks

---
 jqtrade/scheduler/event_source.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jqtrade/scheduler/event_source.py b/jqtrade/scheduler/event_source.py
index 1b07bd5..fe6017e 100644
--- a/jqtrade/scheduler/event_source.py
+++ b/jqtrade/scheduler/event_source.py
@@ -119,7 +119,8 @@ class EventSource(object):
         if len(self._events):
             return
 
-        while len(self._events) == 0:
+        # 没有任何定时任务时不会生成事件，直接返回避免死循环
+        while len(self._events) == 0 and self._daily:
             if len(self._days) == 0:
                 # 实盘模式下，从已生成事件的最后一天之后接着生成，避免重复生成最后一天的事件
                 self._days = self._get_days(start=self._next_day)
-- 
2.43.0


From 1ccf692eb4e763c257550ec935048e4ef8b8641c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:48 +0000
Subject: [PATCH 04/30] fix: handle a stop signal before the next overdue
 message

---
 jqtrade/scheduler/loop.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/jqtrade/scheduler/loop.py b/jqtrade/scheduler/loop.py
index 3e826ac..76bffb1 100644
--- a/jqtrade/scheduler/loop.py
+++ b/jqtrade/scheduler/loop.py
@@ -26,7 +26,7 @@ class EventLoop(object):
         self._queue = ThreadSafeQueue()
 
         self._uvloop = pyuv.Loop()
-        self._loop_notifier = pyuv.Async(self._uvloop, self.check_queue)
+        self._loop_notifier = pyuv.Async(self._uvloop, self._on_notified)
         self._timer = pyuv.Timer(self._uvloop)
 
         self._stop_requested = False
@@ -89,6 +89,9 @@ class EventLoop(object):
                 break
             else:
                 self.handle_message(message)
+                # 每轮循环只处理一个消息，让已收到的信号有机会在下一个消息之前得到处理
+                self._notify_loop()
+                break
 
         if self._stop_requested:
             self._uvloop.stop()
@@ -104,6 +107,11 @@ class EventLoop(object):
             self._exception = e
             self.stop()
 
+    def _on_notified(self, *args, **kwargs):
+        # 不在此处直接处理消息：同一轮循环中信号回调可能排在此回调之后，等信号处理完后由定时器触发check_queue
+        self._timer.stop()
+        self._timer.start(self.check_queue, timeout=0, repeat=0)
+
     def _notify_loop(self):
         self._loop_notifier.send()
 
-- 
2.43.0


From 9eb8830213fbadf4838ef289817a5a1600095d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:48 +0000
Subject: [PATCH 05/30] fix: stop with the task's error whatever the exception
 object looks like

---
 jqtrade/scheduler/loop.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jqtrade/scheduler/loop.py b/jqtrade/scheduler/loop.py
index 76bffb1..c461345 100644
--- a/jqtrade/scheduler/loop.py
+++ b/jqtrade/scheduler/loop.py
@@ -51,7 +51,7 @@ class EventLoop(object):
         self.setup()
         self._uvloop.run()
 
-        if self._exception:
+        if self._exception is not None:
             raise self._exception
 
     def stop(self):
@@ -102,10 +102,10 @@ class EventLoop(object):
             self._strategy_time = message.time
             message.callback(**message.callback_data)
         except Exception as e:
-            logger.exception(f"handle message failed. message={message}, error={e}")
-            e.tb = traceback.format_exc()
             self._exception = e
             self.stop()
+            logger.exception(f"handle message failed. message={message}, error={e}")
+            e.tb = traceback.format_exc()
 
     def _on_notified(self, *args, **kwargs):
         # 不在此处直接处理消息：同一轮循环中信号回调可能排在此回调之后，等信号处理完后由定时器触发check_queue
-- 
2.43.0


From 9b8504afd026c9200d60333c2f83af134b74255d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:19 +0000
Subject: [PATCH 06/30] fix: give messages created by concurrent threads
 distinct sequence numbers

---
 jqtrade/scheduler/message.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/jqtrade/scheduler/message.py b/jqtrade/scheduler/message.py
index 9b437b7..0987c01 100644
--- a/jqtrade/scheduler/message.py
+++ b/jqtrade/scheduler/message.py
@@ -1,4 +1,5 @@
 # -*- coding: utf-8 -*-
+import itertools
 
 
 class Message(object):
@@ -7,7 +8,8 @@ class Message(object):
         封装事件的消息类，事件队列中的实际对象
     """
 
-    _unique_num = 0
+    # 消息可能由多个线程同时创建，自增后再读取不是原子操作，会产生重复序号
+    _unique_num = itertools.count(1)
 
     def __init__(self, time, callback, callback_data=None, priority=0):
         self.time = int(time)
@@ -15,8 +17,7 @@ class Message(object):
         self.callback_data = callback_data or {}
         self.priority = priority
 
-        Message._unique_num += 1
-        self.seq_number = Message._unique_num
+        self.seq_number = next(Message._unique_num)
 
     @property
     def sort_key(self):
-- 
2.43.0


From 5b81fd83b22bff1d20f20ff1df8918dc6bcdf2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:52 +0000
Subject: [PATCH 07/30] fix: pass the requested side on to the trade gate
 instead of always placing long orders

---
 jqtrade/account/account.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jqtrade/account/account.py b/jqtrade/account/account.py
index 4e83498..6ec1d75 100644
--- a/jqtrade/account/account.py
+++ b/jqtrade/account/account.py
@@ -163,7 +163,7 @@ class Account(AbsAccount):
         action = OrderAction.close if amount < 0 else OrderAction.open
         order_obj = Order(code=code, price=style.price, amount=abs(amount), action=action,
                           order_id=order_id, style=style, create_time=datetime.datetime.now(),
-                          status=OrderStatus.new)
+                          status=OrderStatus.new, side=side)
         self._orders[order_id] = order_obj
         try:
             logger.info(f"提交订单，订单id：{order_id}，code：{code}，price：{style.price}，amount：{amount}，"
-- 
2.43.0


From 46b5ed682440104a8ef709bf0841d5a2e5e0072b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:52 +0000
Subject: [PATCH 08/30] fix: never hand out an order id that is already in use

---
 jqtrade/account/account.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jqtrade/account/account.py b/jqtrade/account/account.py
index 6ec1d75..8fb0c38 100644
--- a/jqtrade/account/account.py
+++ b/jqtrade/account/account.py
@@ -160,6 +160,9 @@ class Account(AbsAccount):
 
     def order(self, code, amount, style, side):
         order_id = str(generate_unique_number())
+        while order_id in self._orders:
+            # 内部委托id只有32位，当日订单较多时可能重复
+            order_id = str(generate_unique_number())
         action = OrderAction.close if amount < 0 else OrderAction.open
         order_obj = Order(code=code, price=style.price, amount=abs(amount), action=action,
                           order_id=order_id, style=style, create_time=datetime.datetime.now(),
-- 
2.43.0


From ba7c86644e4ffe9dcdbcac257949431f250a7ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:52 +0000
Subject: [PATCH 09/30] fix: show an order that could not be submitted as
 rejected instead of live

---
 jqtrade/account/account.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jqtrade/account/account.py b/jqtrade/account/account.py
index 8fb0c38..6dde6df 100644
--- a/jqtrade/account/account.py
+++ b/jqtrade/account/account.py
@@ -176,6 +176,7 @@ class Account(AbsAccount):
             return order_id
         except Exception as e:
             logger.exception(f"内部下单异常，code={code}, amount={amount}, style={style}, side={side}, error={e}")
+            order_obj.on_rejected(str(e))
 
     def cancel_order(self, order_id):
         try:
-- 
2.43.0


From 7e5864d3c89dd4ddec2b4e0c5885c9f1bd7aab85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:52 +0000
Subject: [PATCH 10/30] fix: save an order before handing it to the broker and
 forget it if that fails

---
 jqtrade/account/trade_gate.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/jqtrade/account/trade_gate.py b/jqtrade/account/trade_gate.py
index 91bbf13..ec206eb 100644
--- a/jqtrade/account/trade_gate.py
+++ b/jqtrade/account/trade_gate.py
@@ -270,12 +270,18 @@ class AnXinDMATradeGate(AbsTradeGate):
 
         order_info = [str(i) for i in order_info]
         order_line = ",".join(order_info) + os.linesep
-        self._write(self._order_csv, order_line, header=self.ORDER_CSV_HEADER)
-
-        logger.info(f"订单已提交到文件单，订单id：{sys_order.order_id}")
 
+        # 先保存订单再写文件单，避免写完文件单后进程退出或保存失败导致柜台已收到的订单丢失
         self._orders[sys_order.order_id] = sys_order.json()
-        self._save_orders()
+        try:
+            self._save_orders()
+            self._write(self._order_csv, order_line, header=self.ORDER_CSV_HEADER)
+        except Exception:
+            self._orders.pop(sys_order.order_id)
+            self._save_orders()
+            raise
+
+        logger.info(f"订单已提交到文件单，订单id：{sys_order.order_id}")
 
     def cancel_order(self, order_id):
         now = datetime.datetime.now()
-- 
2.43.0


From 3b3b4f0aa985b5db43c5ba5889741766b263e65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:30 +0000
Subject: [PATCH 11/30] fix: append order lines completely while the file lock
 is held, and bound the wait by elapsed time

---
 jqtrade/account/trade_gate.py | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/jqtrade/account/trade_gate.py b/jqtrade/account/trade_gate.py
index ec206eb..58e16ef 100644
--- a/jqtrade/account/trade_gate.py
+++ b/jqtrade/account/trade_gate.py
@@ -291,21 +291,36 @@ class AnXinDMATradeGate(AbsTradeGate):
         logger.info(f"撤单已提交到文件单，订单id：{order_id}")
 
     def _write(self, file, line, mode="a", header=None):
-        start = time.time()
+        start = time.monotonic()
         while True:
-            with open(file, mode, encoding=self._file_coding) as fp:
+            # 不使用缓冲：数据必须在持有文件锁期间写入文件，写入失败的数据也不能残留到关闭文件时再写入
+            with open(file, mode + "b", buffering=0) as fp:
                 try:
                     portalocker.lock(fp, portalocker.LOCK_EX | portalocker.LOCK_NB)  # no block
-                    if fp.tell() == 0 and header:
-                        line = header + os.linesep + line
-                    fp.write(line)
-                    break
                 except (BlockingIOError, portalocker.exceptions.AlreadyLocked):
-                    if time.time() - start >= self._wait_lock_time_out:
+                    if time.monotonic() - start >= self._wait_lock_time_out:
                         raise TimeOut("waiting file lock time out")
-                    time.sleep(self._wait_lock_internal)
-                finally:
-                    portalocker.unlock(fp)
+                else:
+                    try:
+                        # 获得锁之前其他进程可能已经写入，需要重新定位文件末尾
+                        size = fp.seek(0, os.SEEK_END)
+                        if size == 0 and header:
+                            line = header + os.linesep + line
+                        self._write_all(fp, line.encode(self._file_coding), size)
+                    finally:
+                        portalocker.unlock(fp)
+                    break
+            time.sleep(self._wait_lock_internal)
+
+    @staticmethod
+    def _write_all(fp, data, size):
+        try:
+            while data:
+                data = data[fp.write(data):]
+        except Exception:
+            # 写入失败时不能留下不完整的行
+            fp.truncate(size)
+            raise
 
     def sync_balance(self):
         data = {}
-- 
2.43.0


From b55cdfd83aaaba9d83e6ea89b320b5a8c7b50c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:42 +0000
Subject: [PATCH 12/30] fix: read broker status files by complete lines and
 skip unparseable lines whole

---
 jqtrade/account/trade_gate.py | 63 +++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 29 deletions(-)

diff --git a/jqtrade/account/trade_gate.py b/jqtrade/account/trade_gate.py
index 58e16ef..1ade440 100644
--- a/jqtrade/account/trade_gate.py
+++ b/jqtrade/account/trade_gate.py
@@ -417,21 +417,24 @@ class AnXinDMATradeGate(AbsTradeGate):
         self.check_file_exists(self._order_update_csv)
         self.check_file_exists(self._order_result_csv)
 
-        with open(self._order_result_csv, "r") as rf:
+        with open(self._order_result_csv, "rb") as rf:
             rf.seek(pre_order_result_offset)
             while True:
-                try:
-                    _line = rf.readline().strip()
-                    if not _line:
-                        break
+                _raw_line = rf.readline()
+                if not _raw_line.endswith(b"\n"):
+                    # 已读完，或者最后一行还未写完整，下次同步时再从此行开始解析
+                    break
 
-                    if _line.startswith(self.ORDER_RESULT_COLS[0]):
+                try:
+                    # err_msg等文本的编码错误不影响其他字段的解析
+                    _line = _raw_line.decode(self._file_coding, errors="replace").strip()
+                    if not _line or _line.startswith(self.ORDER_RESULT_COLS[0]):
                         self._order_result_offset = rf.tell()
                         continue
 
                     _items = [_s.strip() for _s in _line.split(",")]
-                    if len(_items) < len(self.ORDER_RESULT_COLS):
-                        break
+                    if len(_items) != len(self.ORDER_RESULT_COLS):
+                        raise ParserError(f"无效订单结果：{_line}")
 
                     _order_result_line = self.ORDER_RESULT_CLS(*_items)
                     if _order_result_line.resultType == self.RESULT_TYPE_CANCEL \
@@ -449,8 +452,6 @@ class AnXinDMATradeGate(AbsTradeGate):
                             _order["status"] = OrderStatus.rejected.value
                             _order["err_msg"] = _order_result_line.errorMsg
                     self._order_result_offset = rf.tell()
-                except EOFError:
-                    pass
                 except Exception as e:
                     logger.exception(f"{self._order_result_csv}中有一笔订单状态信息同步失败，error={e}")
                     if self._ignore_error_line:
@@ -458,33 +459,34 @@ class AnXinDMATradeGate(AbsTradeGate):
                     else:
                         raise
 
-        with open(self._order_update_csv, "r", encoding=self._file_coding) as rf:
+        with open(self._order_update_csv, "rb") as rf:
             rf.seek(pre_order_update_offset)
             while True:
-                try:
-                    _line = rf.readline().strip()
-                    if not _line:
-                        break
+                _raw_line = rf.readline()
+                if not _raw_line.endswith(b"\n"):
+                    # 已读完，或者最后一行还未写完整，下次同步时再从此行开始解析
+                    break
 
-                    if _line.startswith(self.ORDER_LINE_COLS[0]):
+                try:
+                    _line = _raw_line.decode(self._file_coding).strip()
+                    if not _line or _line.startswith(self.ORDER_LINE_COLS[0]):
                         self._order_update_offset = rf.tell()
                         continue
 
                     _items = [_s.strip() for _s in _line.split(",")]
-                    if len(_items) < len(self.ORDER_LINE_COLS):
-                        break
+                    if len(_items) != len(self.ORDER_LINE_COLS):
+                        raise ParserError(f"无效订单状态：{_line}")
 
                     order_line = self.ORDER_LINE_CLS(*_items)
 
                     if order_line.custBatchNo not in self._orders:
+                        self._order_update_offset = rf.tell()
                         continue
 
                     self._update_order(self._orders[order_line.custBatchNo], order_line)
 
                     # 记录下当前成功解析了的订单的位置
                     self._order_update_offset = rf.tell()
-                except EOFError:
-                    break
                 except Exception as e:
                     logger.exception(f"{self._order_update_csv}中有一笔订单状态信息同步失败, error={e}")
                     if self._ignore_error_line:
@@ -501,15 +503,18 @@ class AnXinDMATradeGate(AbsTradeGate):
         return data
 
     def _update_order(self, order, order_line):
-        order["status"] = self._parse_status(order_line.status).value
-        order["entrust_time"] = datetime.datetime.strptime(order_line.orderDate + order_line.orderTime,
-                                                           "%Y%m%d%H%M%S").strftime("%Y-%m-%d %H:%M:%S.%f")
-        order["confirm_id"] = order_line.orderNo
-        order["filled_amount"] = int(order_line.filledQty)
-        order["deal_balance"] = round(float(order_line.filledAmt), 4)
-        order["canceled_amount"] = int(order_line.cancelQty)
-        order["avg_cost"] = round(float(order_line.avgPrice), 3)
-        order["err_msg"] = order_line.text
+        # 先解析完整行再更新订单，避免解析失败时订单只更新了一部分
+        order.update({
+            "status": self._parse_status(order_line.status).value,
+            "entrust_time": datetime.datetime.strptime(order_line.orderDate + order_line.orderTime,
+                                                       "%Y%m%d%H%M%S").strftime("%Y-%m-%d %H:%M:%S.%f"),
+            "confirm_id": order_line.orderNo,
+            "filled_amount": int(order_line.filledQty),
+            "deal_balance": round(float(order_line.filledAmt), 4),
+            "canceled_amount": int(order_line.cancelQty),
+            "avg_cost": round(float(order_line.avgPrice), 3),
+            "err_msg": order_line.text,
+        })
 
     def _save_orders(self):
         tmp_file = self._data_file + ".tmp"
-- 
2.43.0


From cefef60da770cfe87d44a3546350fc16a1535370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:51 +0000
Subject: [PATCH 13/30] fix: switch to the new day's broker files and order
 record at midnight

---
 jqtrade/account/trade_gate.py | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/jqtrade/account/trade_gate.py b/jqtrade/account/trade_gate.py
index 1ade440..59c954d 100644
--- a/jqtrade/account/trade_gate.py
+++ b/jqtrade/account/trade_gate.py
@@ -215,6 +215,9 @@ class AnXinDMATradeGate(AbsTradeGate):
         self._data_dir = None
         self._data_file = None
 
+        # 当前文件单、缓存数据所属的日期
+        self._date = None
+
         # 文件单目录
         self._order_dir = None
 
@@ -247,6 +250,8 @@ class AnXinDMATradeGate(AbsTradeGate):
         if sys_order.side != OrderSide.long:
             raise InvalidParam("当前版本仅支持做多")
 
+        self._check_date()
+
         now = datetime.datetime.now()
         order_info = [now.strftime("%H%M%S.%f"), sys_order.order_id,
                       self._counter_type, acct_no,
@@ -284,6 +289,8 @@ class AnXinDMATradeGate(AbsTradeGate):
         logger.info(f"订单已提交到文件单，订单id：{sys_order.order_id}")
 
     def cancel_order(self, order_id):
+        self._check_date()
+
         now = datetime.datetime.now()
         order_info = [now.strftime("%H%M%S.%f"), str(order_id)]
         order_line = ",".join(order_info) + os.linesep
@@ -325,6 +332,8 @@ class AnXinDMATradeGate(AbsTradeGate):
     def sync_balance(self):
         data = {}
 
+        self._check_date()
+
         self.check_file_exists(self._assert_info_csv)
 
         acct_no = self._options.get("account_no")
@@ -411,6 +420,8 @@ class AnXinDMATradeGate(AbsTradeGate):
             raise ValueError(f"invalid code: {code}")
 
     def sync_orders(self):
+        self._check_date()
+
         pre_order_update_offset = self._order_update_offset
         pre_order_result_offset = self._order_result_offset
 
@@ -559,7 +570,6 @@ class AnXinDMATradeGate(AbsTradeGate):
         if self._algo_type != self.DEFAULT_ALGO_TYPE:
             logger.warn(f"检测到当前使用的算法交易类型是{self._algo_type}, 请与您的客户经理确认是否开通了此算法交易类型，否则将影响交易")
 
-        ctx = Context.get_instance()
         runtime_dir = options.get("runtime_dir", scheduler_config.RUNTIME_DIR)
 
         self._data_dir = os.path.join(runtime_dir, "data")
@@ -567,8 +577,6 @@ class AnXinDMATradeGate(AbsTradeGate):
         if not os.path.exists(self._data_dir):
             os.makedirs(self._data_dir)
 
-        self._data_file = os.path.join(self._data_dir, f"{ctx.task_name}_{self._date.strftime('%Y%m%d')}.json")
-
         self._file_coding = self._options.get("file_encoding", sys.getfilesystemencoding())
         self._ignore_error_line = self._options.get("ignore_error_line", self.DEFAULT_IGNORE_ERROR_LINE)
 
@@ -578,11 +586,21 @@ class AnXinDMATradeGate(AbsTradeGate):
         self._wait_lock_internal = options.get("wait_lock_internal", self.WAIT_LOCK_INTERNAL)
         self._wait_lock_time_out = options.get("wait_lock_time_out", self.WAIT_LOCK_TIME_OUT)
 
-        self._load_orders()
+        self._check_date()
 
-    @property
-    def _date(self):
-        return Context.get_instance().current_dt.date()
+    def _check_date(self):
+        """ 日期变化后，切换到新日期的文件单和缓存数据 """
+        ctx = Context.get_instance()
+        date = ctx.current_dt.date()
+        if date == self._date:
+            return
+
+        self._date = date
+        self._data_file = os.path.join(self._data_dir, f"{ctx.task_name}_{self._date.strftime('%Y%m%d')}.json")
+        self._orders = {}
+        self._order_update_offset = 0
+        self._order_result_offset = 0
+        self._load_orders()
 
     @property
     def _order_csv(self):
-- 
2.43.0


From e719ebfd21724fee836f3e3292b209745deb8232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:49 +0000
Subject: [PATCH 14/30] fix: recognise tasks and their names reliably, and
 tolerate processes that exit while being examined

---
 jqtrade/__main__.py         | 27 ++++++++++++++----
 jqtrade/scheduler/runner.py |  8 +++++-
 jqtrade/scheduler/utils.py  | 56 ++++++++++++++++++++++++++-----------
 3 files changed, 69 insertions(+), 22 deletions(-)

diff --git a/jqtrade/__main__.py b/jqtrade/__main__.py
index 0d7fba2..e8c1191 100644
--- a/jqtrade/__main__.py
+++ b/jqtrade/__main__.py
@@ -56,6 +56,7 @@ def get_tasks(options):
     """
     python -m quant_engine get_tasks
     """
+    import psutil
     from .scheduler.utils import get_activate_task_process, parse_task_info
 
     active_tasks = get_activate_task_process()
@@ -65,7 +66,11 @@ def get_tasks(options):
 
     print("当前活跃的实盘任务进程".center(30, "-"))
     for _p in active_tasks:
-        _cmd = _p.cmdline()
+        try:
+            _cmd = _p.cmdline()
+        except psutil.NoSuchProcess:
+            # 查询过程中退出了的任务
+            continue
         _task_info = parse_task_info(_cmd)
         _task_info["pid"] = _p.pid
         _task_info["cmd"] = _cmd
@@ -84,6 +89,7 @@ def stop_task(options):
     python -m quant_engine stop_task -p 12345
     python -m quant_engine stop_task --all
     """
+    import psutil
     from .scheduler.utils import get_activate_task_process, parse_task_info
 
     active_tasks = get_activate_task_process()
@@ -94,12 +100,19 @@ def stop_task(options):
     killed_pid = []
 
     def _kill(_p, force=False):
+        try:
+            if force:
+                _p.kill()
+            else:
+                import signal
+                _p.send_signal(signal.SIGTERM)
+        except psutil.NoSuchProcess:
+            print(f"进程 {_p.pid} 已经退出")
+            return
+
         if force:
-            _p.kill()
             print(f"强制停止进程 {_p.pid}")
         else:
-            import signal
-            _p.send_signal(signal.SIGTERM)
             print(f"尝试停止进程 {_p.pid}，已向该进程发送SIGTERM停止信号")
         killed_pid.append(_p.pid)
 
@@ -113,7 +126,11 @@ def stop_task(options):
                 break
     else:
         for _p in active_tasks:
-            _task_info = parse_task_info(_p.cmdline())
+            try:
+                _task_info = parse_task_info(_p.cmdline())
+            except psutil.NoSuchProcess:
+                # 查询过程中退出了的任务
+                continue
             if options.name == _task_info["name"]:
                 _kill(_p, options.force)
 
diff --git a/jqtrade/scheduler/runner.py b/jqtrade/scheduler/runner.py
index cd20006..077d09e 100644
--- a/jqtrade/scheduler/runner.py
+++ b/jqtrade/scheduler/runner.py
@@ -19,6 +19,8 @@ logger = sys_logger.getChild("runner")
 
 
 def _exist_repeated_task(task_name):
+    import psutil
+
     current_pid = os.getpid()
     parent_pid = os.getppid()
 
@@ -26,7 +28,11 @@ def _exist_repeated_task(task_name):
     for _task in active_tasks:
         if _task.pid in (current_pid, parent_pid):
             continue
-        _task_info = parse_task_info(_task.cmdline())
+        try:
+            _task_info = parse_task_info(_task.cmdline())
+        except psutil.NoSuchProcess:
+            # 检查过程中退出了的任务
+            continue
         if task_name == _task_info["name"]:
             return True
 
diff --git a/jqtrade/scheduler/utils.py b/jqtrade/scheduler/utils.py
index 77ac4c2..7de602b 100644
--- a/jqtrade/scheduler/utils.py
+++ b/jqtrade/scheduler/utils.py
@@ -1,22 +1,43 @@
 # -*- coding: utf-8 -*-
+import argparse
+
+
+class _TaskInfoParser(argparse.ArgumentParser):
+    def error(self, message):
+        raise ValueError(message)
 
 
 def parse_task_info(cmd_line):
-    info = {"debug": False, "env": None, "out": None}
-    for _idx, _item in enumerate(cmd_line):
-        if _item in ("-c", "--code"):
-            info["code"] = cmd_line[_idx+1]
-        elif _item in ("-o", "--out"):
-            info["out"] = cmd_line[_idx + 1]
-        elif _item in ("-n", "--name"):
-            info["name"] = cmd_line[_idx + 1]
-        elif _item in ("-e", "--env"):
-            info["env"] = cmd_line[_idx + 1]
-        elif _item == "--debug":
-            info["debug"] = True
+    """ 解析start_task命令行，任务名称无法识别时name为None """
+    # 与start_task的命令行解析规则保持一致，支持--name=demo、-ndemo等写法
+    parser = _TaskInfoParser(add_help=False)
+    parser.add_argument("-c", "--code")
+    parser.add_argument("-o", "--out")
+    parser.add_argument("-n", "--name")
+    parser.add_argument("-e", "--env")
+    parser.add_argument("--config")
+    parser.add_argument("--debug", action="store_true")
+
+    info = {"debug": False, "env": None, "out": None, "code": None, "name": None}
+    try:
+        options, _ = parser.parse_known_args(cmd_line[cmd_line.index("start_task") + 1:])
+    except ValueError:
+        return info
+    info.update((_key, getattr(options, _key)) for _key in info)
     return info
 
 
+def is_task_process(cmd_line):
+    """ 判断进程是否是通过start_task启动的策略进程，命令行中仅仅提到了jqtrade、start_task的其他进程不是 """
+    if "start_task" not in cmd_line:
+        return False
+    _idx = cmd_line.index("start_task")
+    if _idx == 0 or "jqtrade" not in cmd_line[_idx - 1]:
+        return False
+    _info = parse_task_info(cmd_line)
+    return _info["name"] is not None and _info["code"] is not None
+
+
 def get_activate_task_process():
     active_tasks = []
 
@@ -26,12 +47,15 @@ def get_activate_task_process():
         parent_pid = []
         for _p in psutil.process_iter():
             try:
-                _cmd_line = " ".join(_p.cmdline())
-                if "jqtrade" in _cmd_line and "start_task" in _cmd_line:
-                    task_process.append(_p)
+                if is_task_process(_p.cmdline()):
                     parent_pid.append(_p.ppid())
+                    task_process.append(_p)
             except psutil.AccessDenied:
-                if 'python' in _p.name():
+                try:
+                    _is_python = 'python' in _p.name()
+                except psutil.NoSuchProcess:
+                    continue
+                if _is_python:
                     raise
                 else:
                     # windows有一些系统进程，即使有管理员权限，p.cmdline仍会报错，这部分进程忽略
-- 
2.43.0


From 416cb9a3b33c8fb23b7638848d8cb8726000b812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:21 +0000
Subject: [PATCH 15/30] fix: apply every setting of a custom configuration file
 under its own name

---
 jqtrade/account/config.py   | 2 +-
 jqtrade/scheduler/config.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/jqtrade/account/config.py b/jqtrade/account/config.py
index df1dfd9..a05bb2d 100644
--- a/jqtrade/account/config.py
+++ b/jqtrade/account/config.py
@@ -38,7 +38,7 @@ def _load_config(path):
     account_configs = {}
     for _name in configs:
         if _name.startswith("ACCOUNT_"):
-            account_configs[_name.lstrip("ACCOUNT_")] = configs[_name]
+            account_configs[_name[len("ACCOUNT_"):]] = configs[_name]
     return account_configs
 
 
diff --git a/jqtrade/scheduler/config.py b/jqtrade/scheduler/config.py
index c5ff826..7fa99a8 100644
--- a/jqtrade/scheduler/config.py
+++ b/jqtrade/scheduler/config.py
@@ -44,7 +44,7 @@ def _load_config(path):
     scheduler_configs = {}
     for _name in configs:
         if _name.startswith("SCHEDULER_"):
-            scheduler_configs[_name.lstrip("SCHEDULER_")] = configs[_name]
+            scheduler_configs[_name[len("SCHEDULER_"):]] = configs[_name]
     return scheduler_configs
 
 
-- 
2.43.0


From ad8e20a8eae47bfc1ff537ac9930075935b218f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:21 +0000
Subject: [PATCH 16/30] fix: compute the portfolio's position value from its
 positions

---
 jqtrade/account/portfolio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jqtrade/account/portfolio.py b/jqtrade/account/portfolio.py
index 7c84a57..a085a02 100644
--- a/jqtrade/account/portfolio.py
+++ b/jqtrade/account/portfolio.py
@@ -39,7 +39,7 @@ class Portfolio(object):
 
     @property
     def position_value(self):
-        return sum(_pos.position_value for _pos in self.long_positions)
+        return sum(_pos.position_value or 0 for _pos in self.long_positions.values())
 
     def __str__(self):
         return f"Portfolio(total_assert={self.total_value}, available_assert={self.available_cash}, " \
-- 
2.43.0


From edd2a8c597b94a1bbfde1a11a65063383b81ccf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:21 +0000
Subject: [PATCH 17/30] fix: replace account figures as a whole, including
 figures that become zero

---
 jqtrade/account/account.py | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/jqtrade/account/account.py b/jqtrade/account/account.py
index 6dde6df..e791ae4 100644
--- a/jqtrade/account/account.py
+++ b/jqtrade/account/account.py
@@ -1,4 +1,5 @@
 # -*- coding: utf-8 -*-
+import numbers
 import datetime
 
 from ..common.log import sys_logger
@@ -202,18 +203,21 @@ class Account(AbsAccount):
                 raise ValueError("trade_gate.sync_balance未返回持仓数据")
 
             cash_info = account_info["cash"]
-            self._total_assert = cash_info.get("total_asset") or self._total_assert
-            self._available_cash = cash_info.get("available_cash") or self._available_cash
-            self._locked_cash = cash_info.get("locked_cash") or self._locked_cash
+            total_assert = cash_info["total_asset"] if "total_asset" in cash_info else cash_info["total_assert"]
+            available_cash = cash_info["available_cash"]
+            locked_cash = cash_info["locked_cash"]
+            self._check_numbers(total_assert, available_cash, locked_cash)
 
-            # 每次全量同步持仓前，清空缓存中的持仓，然后使用交易接口同步到的持仓更新内存。由于框架是单线程，所以这样处理没问题。
+            # 每次全量同步持仓时，使用交易接口同步到的持仓替换缓存中的持仓。由于框架是单线程，所以这样处理没问题。
             # 这样的处理逻辑依赖交易接口返回正常的持仓，相较于原地更新，逻辑简单，不容易出问题。
-            self._long_positions.clear()
-            self._short_positions.clear()
+            long_positions = {}
+            short_positions = {}
 
             positions = account_info["positions"]
             for _pos_info in positions:
-                _side = OrderSide.get_side(_pos_info.pop("side"))
+                _pos_info = dict(_pos_info)
+                self._check_numbers(_pos_info["amount"], _pos_info["available_amount"], _pos_info["avg_cost"])
+                _side = OrderSide.get_side(_pos_info.pop("side", None) or OrderSide.long)
                 _pos = Position(
                     code=_pos_info.pop("code"),
                     amount=_pos_info.pop("amount"),
@@ -224,12 +228,25 @@ class Account(AbsAccount):
                 )
 
                 if _pos.side == OrderSide.long:
-                    self._long_positions[_pos.code] = _pos
+                    long_positions[_pos.code] = _pos
                 else:
-                    self._short_positions[_pos.code] = _pos
+                    short_positions[_pos.code] = _pos
+
+            # 所有数据都解析成功后再更新，避免只更新了一部分
+            self._total_assert = total_assert
+            self._available_cash = available_cash
+            self._locked_cash = locked_cash
+            self._long_positions = long_positions
+            self._short_positions = short_positions
         except Exception as e:
             logger.exception(f"同步资金和持仓失败，error={e}")
 
+    @staticmethod
+    def _check_numbers(*values):
+        for _value in values:
+            if not isinstance(_value, numbers.Number):
+                raise ValueError(f"trade_gate.sync_balance返回了无效数值：{_value}")
+
     def sync_orders(self, *args, **kwargs):
         logger.debug("sync_orders run")
         try:
-- 
2.43.0


From 0a83ea4766df7d66f3f5feca3d5dc4e788534651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:21 +0000
Subject: [PATCH 18/30] fix: apply the orders returned by the trade gate all
 together or not at all

---
 jqtrade/account/account.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/jqtrade/account/account.py b/jqtrade/account/account.py
index e791ae4..abadccd 100644
--- a/jqtrade/account/account.py
+++ b/jqtrade/account/account.py
@@ -252,10 +252,17 @@ class Account(AbsAccount):
         try:
             orders = self._ctx.trade_gate.sync_orders()
 
+            # 所有订单都解析成功后再更新，避免只更新了一部分
+            remote_orders = []
             for _order_info in orders:
                 _order_id = str(_order_info["order_id"])
+                _remote_order = Order.load(**dict(_order_info, order_id=_order_id))
+                if _remote_order.status is None or _remote_order.style is None:
+                    raise ValueError(f"trade_gate.sync_orders返回的订单缺少必需字段：{_order_info}")
+                remote_orders.append((_order_id, _order_info, _remote_order))
+
+            for _order_id, _order_info, _remote_order in remote_orders:
                 _local_order = self._orders.get(_order_id)
-                _remote_order = Order.load(**_order_info)
                 if _local_order is None:
                     if self.has_synced:
                         logger.info(f"从trade_gate同步到本地不存在的订单: {_order_info}")
-- 
2.43.0


From 251b6fb9435b197329726b107bb11a816e47fe14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:21 +0000
Subject: [PATCH 19/30] fix: synchronise around the clock when no
 synchronisation period is configured

---
 jqtrade/account/account.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jqtrade/account/account.py b/jqtrade/account/account.py
index abadccd..3ac3bd8 100644
--- a/jqtrade/account/account.py
+++ b/jqtrade/account/account.py
@@ -133,8 +133,9 @@ class Account(AbsAccount):
         sync_internal = float(self._options.get("sync_internal", config.SYNC_INTERNAL))
         sync_period = self._options.get("sync_period", config.SYNC_PERIOD)
         if not sync_period:
-            current = now + datetime.timedelta(seconds=sync_internal)
-            while current <= now.replace(hour=23, minute=59, second=59):
+            # 从启动时间开始的24小时，避免启动时间之前的时间段在之后的交易日不同步
+            current = now
+            while current < now + datetime.timedelta(days=1):
                 event_source.daily(event_cls, current.strftime("%H:%M:%S"))
                 current += datetime.timedelta(seconds=sync_internal)
         else:
-- 
2.43.0


From 780d6ce79fa62969700129a941ccdae4a0a2d83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:21 +0000
Subject: [PATCH 20/30] fix: flush the order record to disk before it replaces
 the previous one

---
 jqtrade/account/trade_gate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jqtrade/account/trade_gate.py b/jqtrade/account/trade_gate.py
index 59c954d..faaf2f6 100644
--- a/jqtrade/account/trade_gate.py
+++ b/jqtrade/account/trade_gate.py
@@ -531,6 +531,9 @@ class AnXinDMATradeGate(AbsTradeGate):
         tmp_file = self._data_file + ".tmp"
         with open(tmp_file, "w") as wf:
             json.dump(self._orders, wf)
+            # 先落盘再替换，避免系统崩溃后缓存文件不完整
+            wf.flush()
+            os.fsync(wf.fileno())
         shutil.move(tmp_file, self._data_file)
 
     def _load_orders(self):
-- 
2.43.0


From ad697d10f6e1387b6b720ae4db2516a43c600325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:21 +0000
Subject: [PATCH 21/30] fix: do not mix the contents of two broker exports

---
 jqtrade/account/trade_gate.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/jqtrade/account/trade_gate.py b/jqtrade/account/trade_gate.py
index faaf2f6..bed822e 100644
--- a/jqtrade/account/trade_gate.py
+++ b/jqtrade/account/trade_gate.py
@@ -1,4 +1,5 @@
 # -*- coding: utf-8 -*-
+import io
 import os
 import sys
 import time
@@ -396,7 +397,14 @@ class AnXinDMATradeGate(AbsTradeGate):
         path = args[1]
         if not os.path.exists(path):
             raise FileNotFoundError(path)
-        df = pd.read_csv(*args[1:], **kwargs)
+        with open(path, "rb") as rf:
+            before = os.fstat(rf.fileno())
+            content = rf.read()
+            after = os.fstat(rf.fileno())
+        if (before.st_mtime_ns, before.st_size) != (after.st_mtime_ns, after.st_size) or len(content) != after.st_size:
+            # 读取期间文件被更新，内容可能一半是旧数据一半是新数据
+            raise OSError(f"检测到文件正在更新：{path}")
+        df = pd.read_csv(io.BytesIO(content), *args[2:], **kwargs)
         if not df.loc[len(df)-1].isna().all():
             raise OSError(f"检测到文件不完整：{path}")
         return df
-- 
2.43.0


From 0c56d0add9a6ccf41edb1c95cd50588c49ece5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:16 +0000
Subject: [PATCH 22/30] fix: take over every field of a synchronised order, not
 only when its status changes

---
 jqtrade/account/account.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jqtrade/account/account.py b/jqtrade/account/account.py
index 3ac3bd8..c58dac1 100644
--- a/jqtrade/account/account.py
+++ b/jqtrade/account/account.py
@@ -272,10 +272,11 @@ class Account(AbsAccount):
                     self._orders[_order_id] = _remote_order
                     continue
 
+                # 状态未变化时其他字段（如err_msg）也可能更新
+                self._orders[_order_id] = _remote_order
                 if _remote_order == _local_order:
                     continue
                 else:
-                    self._orders[_order_id] = _remote_order
                     self.on_order_updated(_local_order, _remote_order)
 
             self.has_synced = True
-- 
2.43.0


From d895d1581aef4874f21530c34d66e6d94aff76ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:35 +0000
Subject: [PATCH 23/30] fix: replace the saved order record atomically, never
 by copying over it

---
 jqtrade/account/trade_gate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jqtrade/account/trade_gate.py b/jqtrade/account/trade_gate.py
index bed822e..e419a8e 100644
--- a/jqtrade/account/trade_gate.py
+++ b/jqtrade/account/trade_gate.py
@@ -4,7 +4,6 @@ import os
 import sys
 import time
 import json
-import shutil
 import datetime
 import portalocker
 
@@ -542,7 +541,8 @@ class AnXinDMATradeGate(AbsTradeGate):
             # 先落盘再替换，避免系统崩溃后缓存文件不完整
             wf.flush()
             os.fsync(wf.fileno())
-        shutil.move(tmp_file, self._data_file)
+        # shutil.move在重命名失败时会退化为逐字节拷贝，中途崩溃会破坏缓存文件
+        os.replace(tmp_file, self._data_file)
 
     def _load_orders(self):
         logger.info(f"从本地缓存文件恢复策略当日订单信息，data_file：{self._data_file}")
-- 
2.43.0


From 704a2e81d6596e1bd93d88e86cc72675951845ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:44 +0000
Subject: [PATCH 24/30] fix: let strategies that start at the same moment
 create the shared directories

Two processes could both find runtime_dir (or its data folder) missing; the
slower one then died of FileExistsError in set_options.
---
 jqtrade/account/trade_gate.py | 3 +--
 jqtrade/scheduler/strategy.py | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/jqtrade/account/trade_gate.py b/jqtrade/account/trade_gate.py
index e419a8e..7c3d1ae 100644
--- a/jqtrade/account/trade_gate.py
+++ b/jqtrade/account/trade_gate.py
@@ -585,8 +585,7 @@ class AnXinDMATradeGate(AbsTradeGate):
 
         self._data_dir = os.path.join(runtime_dir, "data")
         logger.info(f"程序缓存数据路径: {self._data_dir}")
-        if not os.path.exists(self._data_dir):
-            os.makedirs(self._data_dir)
+        os.makedirs(self._data_dir, exist_ok=True)
 
         self._file_coding = self._options.get("file_encoding", sys.getfilesystemencoding())
         self._ignore_error_line = self._options.get("ignore_error_line", self.DEFAULT_IGNORE_ERROR_LINE)
diff --git a/jqtrade/scheduler/strategy.py b/jqtrade/scheduler/strategy.py
index 4200316..b4a5a67 100644
--- a/jqtrade/scheduler/strategy.py
+++ b/jqtrade/scheduler/strategy.py
@@ -200,8 +200,7 @@ class Strategy(object):
 
         # set_options 后需要立即执行的初始化工作，避免用户查询到未同步的account信息
         runtime_dir = os.path.abspath(os.path.expanduser(kwargs.get("runtime_dir", config.RUNTIME_DIR)))
-        if not os.path.isdir(runtime_dir):
-            os.makedirs(runtime_dir)
+        os.makedirs(runtime_dir, exist_ok=True)
         logger.info(f"程序运行时目录：{runtime_dir}")
 
         self._ctx.use_account = use_account = kwargs.get("use_account", config.SETUP_ACCOUNT)
-- 
2.43.0


From 457df31c09dc834328131474332845b9e42ae80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:28 +0000
Subject: [PATCH 25/30] fix: keep the order record in the runtime directory,
 also if it is written with ~ or relative

---
 jqtrade/account/trade_gate.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jqtrade/account/trade_gate.py b/jqtrade/account/trade_gate.py
index 7c3d1ae..23d179a 100644
--- a/jqtrade/account/trade_gate.py
+++ b/jqtrade/account/trade_gate.py
@@ -582,6 +582,8 @@ class AnXinDMATradeGate(AbsTradeGate):
             logger.warn(f"检测到当前使用的算法交易类型是{self._algo_type}, 请与您的客户经理确认是否开通了此算法交易类型，否则将影响交易")
 
         runtime_dir = options.get("runtime_dir", scheduler_config.RUNTIME_DIR)
+        # 与scheduler模块使用同一个目录，不受"~"和当前工作目录变化的影响
+        runtime_dir = os.path.abspath(os.path.expanduser(runtime_dir))
 
         self._data_dir = os.path.join(runtime_dir, "data")
         logger.info(f"程序缓存数据路径: {self._data_dir}")
-- 
2.43.0


From aa8ed9639b01d71dc5e7d61969bfd2a933982daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:28 +0000
Subject: [PATCH 26/30] fix: keep using the order directory after the strategy
 has changed the current directory

---
 jqtrade/account/trade_gate.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jqtrade/account/trade_gate.py b/jqtrade/account/trade_gate.py
index 23d179a..b1e80a9 100644
--- a/jqtrade/account/trade_gate.py
+++ b/jqtrade/account/trade_gate.py
@@ -572,6 +572,8 @@ class AnXinDMATradeGate(AbsTradeGate):
         logger.info(f"安信one quant文件单路径: {self._order_dir}")
         if not os.path.exists(self._order_dir):
             raise FileNotFoundError(f"文件单目录不存在（{self._order_dir}），请检查是否已开启安信one quant并打开文件单导出选项")
+        # 策略可能会改变当前工作目录
+        self._order_dir = os.path.abspath(self._order_dir)
 
         self._counter_type = self._options.get("counter_type", self.DEFAULT_COUNTER_TYPE)
         if self._counter_type != self.DEFAULT_COUNTER_TYPE:
-- 
2.43.0


From 9b5e5860f782114b1c9c816cb14aa4cec7125ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:28 +0000
Subject: [PATCH 27/30] fix: print into the log file also after the strategy
 has changed the current directory

---
 jqtrade/scheduler/runner.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jqtrade/scheduler/runner.py b/jqtrade/scheduler/runner.py
index 077d09e..fba0246 100644
--- a/jqtrade/scheduler/runner.py
+++ b/jqtrade/scheduler/runner.py
@@ -58,6 +58,9 @@ class TaskRunner(object):
 
         self._debug = debug
         log_level = "DEBUG" if debug else "INFO"
+        if out_file:
+            # 策略可能会改变当前工作目录
+            out_file = os.path.abspath(out_file)
         self._out_file = out_file
         if out_file:
             setup_file_logger(out_file, log_level)
-- 
2.43.0


From 5baa06b463073a5dfe106426446ddaf923d2eae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:40 +0000
Subject: [PATCH 28/30] fix: tasks that start other tasks stay visible in the
 task list

get_activate_task_process dropped every task process that is the parent
of another task process, to skip wrappers like sudo. A strategy that
starts a different task disappeared that way: it was no longer listed or
stopped, and could be started a second time.
---
 jqtrade/scheduler/utils.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/jqtrade/scheduler/utils.py b/jqtrade/scheduler/utils.py
index 7de602b..c53ab48 100644
--- a/jqtrade/scheduler/utils.py
+++ b/jqtrade/scheduler/utils.py
@@ -44,12 +44,14 @@ def get_activate_task_process():
     import psutil
     try:
         task_process = []
-        parent_pid = []
+        wrappers = []
         for _p in psutil.process_iter():
             try:
-                if is_task_process(_p.cmdline()):
-                    parent_pid.append(_p.ppid())
-                    task_process.append(_p)
+                _cmd_line = _p.cmdline()
+                if is_task_process(_cmd_line):
+                    _name = parse_task_info(_cmd_line)["name"]
+                    wrappers.append((_p.ppid(), _name))
+                    task_process.append((_p, _name))
             except psutil.AccessDenied:
                 try:
                     _is_python = 'python' in _p.name()
@@ -64,8 +66,9 @@ def get_activate_task_process():
             except psutil.NoSuchProcess:
                 pass
 
-        for _p in task_process:
-            if _p.pid in parent_pid:
+        for _p, _name in task_process:
+            # sudo等包装进程的命令行与任务进程相同，只保留任务进程；任务进程启动的其他任务不影响该任务自身
+            if (_p.pid, _name) in wrappers:
                 continue
             active_tasks.append(_p)
         return active_tasks
-- 
2.43.0


From 5c8b391abf9f7aef5113c7164f0e46d831b60d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:24 +0000
Subject: [PATCH 29/30] fix: a time shared by adjacent or overlapping periods
 triggers its task only once

---
 jqtrade/scheduler/event_source.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jqtrade/scheduler/event_source.py b/jqtrade/scheduler/event_source.py
index fe6017e..b783aca 100644
--- a/jqtrade/scheduler/event_source.py
+++ b/jqtrade/scheduler/event_source.py
@@ -30,6 +30,7 @@ class EventSource(object):
             end: 生成事件的结束时间，不会生成 '时间>end' 的事件
         """
         self._daily = []
+        self._daily_keys = set()
         self._events = []
         self._days = []
         self._next_day = None
@@ -82,6 +83,10 @@ class EventSource(object):
 
     def daily(self, event_cls, time_expr):
         logger.debug(f"add daily task. event_cls: {event_cls}, time_expr: {time_expr}")
+        if (time_expr, event_cls) in self._daily_keys:
+            # 相邻或重叠的时间段会包含相同的时间点，同一时间点只触发一次
+            return
+        self._daily_keys.add((time_expr, event_cls))
         self._daily.append((time_expr, event_cls))
         self.on_events_changed()
 
-- 
2.43.0


From 59b428214d96c27d832856c57080b2ee4755a101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:41 +0000
Subject: [PATCH 30/30] fix: find a configuration file given by a relative path
 also after the strategy has changed the current directory

---
 jqtrade/scheduler/runner.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jqtrade/scheduler/runner.py b/jqtrade/scheduler/runner.py
index fba0246..edfed66 100644
--- a/jqtrade/scheduler/runner.py
+++ b/jqtrade/scheduler/runner.py
@@ -77,6 +77,8 @@ class TaskRunner(object):
             path = os.path.abspath(os.path.expanduser(config))
             if not os.path.exists(path):
                 raise FileNotFoundError(f"找不到自定义配置文件: {path}")
+            # account模块在set_options时才加载配置，策略可能已经改变当前工作目录
+            config = path
         self._config = config
 
     def run(self):
-- 
2.43.0

