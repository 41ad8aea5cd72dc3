#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

ES, LOOP, STRAT = "jqtrade/scheduler/event_source.py", "jqtrade/scheduler/loop.py", "jqtrade/scheduler/strategy.py"
GATE, ACC, API = "jqtrade/account/trade_gate.py", "jqtrade/account/account.py", "jqtrade/account/api.py"
RUN, MAIN, UT = "jqtrade/scheduler/runner.py", "jqtrade/__main__.py", "jqtrade/scheduler/utils.py"
MSG, Q = "jqtrade/scheduler/message.py", "jqtrade/scheduler/queue.py"

prop("S01", "Every daily task runs exactly once per scheduled time and never early",
  "For every task a strategy registers at start-up and every calendar day on which the process is up, the registered function itself is run exactly once for each of its scheduled times (a fixed time of day, market open/close with an offset inside the same day, or every minute of the trading session, both ends included) that lies after the process has finished starting up. No run begins before the wall clock has reached its scheduled time. Slow tasks and the backlog they cause, early timer wake-ups, wall-clock steps in either direction, weekends, month ends and uptimes beyond a year never make a scheduled run be skipped, repeated or run early.",
  ["schedules", "inputs", "histories", "fault_sequences", "configurations"],
  "all sets of registered tasks and times, all start instants, all task durations, all timer inaccuracies and clock steps, all uptimes",
  "test_strategies replays one fixed month in history mode with instantaneous tasks and a clock that is always ahead; nothing waits on a timer, no task is slow, no clock moves, and the live (non-history) path and uptimes beyond the 365 generated days are never run.",
  [ES, LOOP, STRAT, Q],
  [("daily event generation, day refill and start filter", ES), ("re-check of the wall clock on every wake-up, timer re-arm", LOOP), ("task registration and market-session expansion", STRAT)],
  [("days/events lists", "days still to be expanded and the expanded events of the current day", ES)],
  ["start of each task function in the strategy, with wall clock and strategy_dt"])
prop("S02", "Tasks run one at a time in scheduled order with the right logical time",
  "Task runs never overlap and begin in the order of their scheduled times; among work scheduled for the same instant the account synchronisation runs first, then every-minute tasks, then other tasks. During a run the strategy's logical time equals exactly the scheduled time of that run, however late it executes, while its current time is the wall clock.",
  ["schedules", "inputs", "histories", "fault_sequences"],
  "all task sets and durations, all backlogs, all clock steps",
  "The tests assert strategy_dt for a few fixed times with no lateness, no backlog and no account synchronisation competing for the same instant.",
  [LOOP, MSG, Q, ES, "jqtrade/scheduler/event.py"],
  [("(time, -priority, sequence) sort key", MSG), ("priority queue", Q), ("strategy time set per handled message", LOOP)],
  observe=["order and strategy_dt/current_dt of task runs and of synchronisation calls on the trade gate"])
prop("S03", "A due task starts promptly",
  "While the wall clock runs steadily, a task whose scheduled time arrives when the strategy process is idle begins within one second, and one that becomes due while other work is running begins within one second after all earlier-ordered due work has finished; the event loop never stalls, spins or exits while tasks remain. The start of a strategy itself always completes, at any time of day.",
  ["schedules", "inputs", "histories", "fault_sequences"],
  "all start instants, task sets, durations and timer inaccuracies",
  "Lateness is never measured: the only strategies run by the tests live in the past, where every event is already due.",
  [LOOP, ES, ACC],
  [("timer arm/re-arm and notification", LOOP), ("next-event look-up", ES), ("synchronisation timetable", ACC)],
  observe=["start time of each task run against its scheduled time and the end of the previous run"])
prop("S04", "A graceful stop finishes the current task and starts no other",
  "After a stop signal (stop_task without force, or ctrl-c) reaches a running strategy process, the task in progress runs to its end, no further task is started even if others are already overdue, and the process then exits normally within one second. This holds at every instant: idle, inside a task, inside a backlog, or repeated signals.",
  ["schedules", "crash_points", "histories"],
  "all instants of signal delivery relative to task execution, all backlogs, repeated and mixed signals",
  "No test ever sends a signal or stops a loop.",
  [LOOP, MAIN],
  [("signal handlers and stop request", LOOP), ("SIGTERM sent by stop_task", MAIN)],
  observe=["task starts after delivery of the signal", "exit status and time of the process"])
prop("S05", "A failing task stops the strategy with its error",
  "If a task raises an exception (any ordinary Exception), no further task is started, and the process ends with that exception and a failing exit status. It ends this way and never silently continues, hangs or exits as if successful, no matter when the task fails or what is queued behind it.",
  ["schedules", "histories", "inputs"],
  "all failure instants and all queues of due and future tasks behind the failing one",
  "No test makes a task raise inside the event loop.",
  [LOOP],
  [("exception capture, stop and re-raise", LOOP)],
  observe=["task starts after the failure", "exit status and exception of the process"])
prop("S06", "Work submitted to the loop from other threads runs once and in order",
  "Callbacks handed to the running event loop from any number of threads, immediately or with a delay, are each executed exactly once, on the loop's thread, not before their due time, and in order of due time, then priority, then submission; none is lost to a missed wake-up or rejected because of a concurrent submission. The loop's queue behaves like one atomic priority queue under every thread interleaving.",
  ["schedules", "histories"],
  "all interleavings of concurrent submitters with each other and with the loop",
  "test_thread_safe_q only hammers the queue for exceptions that a thread pool swallows; it checks no result, no ordering, no wake-up, and interleavings are left to chance.",
  [Q, LOOP, MSG],
  [("lock around the heap", Q), ("push + asynchronous notification", LOOP), ("message sequence number", MSG)],
  observe=["executed callbacks with thread and order", "results of concurrent queue operations"])

prop("S07", "Log and print output is complete, in order, and never disturbs the tasks",
  "Everything a strategy logs through the provided log object at an enabled level (debug messages only in debug mode), and everything it prints without naming a file, is found in the log file given with -o (on standard output if none is given): whole, exactly once, in the order in which it was written, appended after whatever the file already held, and already written out when the call returns, so that a kill, a restart with the same log file or several strategies sharing one log file lose, tear, mix up or overwrite nothing. print(..., file=f) goes to f and not to the log. This also holds after the strategy has changed its current directory. If the log cannot be written for a while (full disk, I/O error, lost terminal), log calls still raise nothing into the strategy, every task still runs once and on time, and what is logged and printed afterwards is recorded completely again.",
  ["crash_points", "fault_sequences", "schedules", "histories"],
  "all sequences of log and print calls, all instants of kills and restarts, all interleavings of strategies sharing a log file, all positions and durations of write errors",
  "No test starts a task with a log file; the set-up of the file log and the redirected print are never executed, let alone killed, shared between processes or given a full disk.",
  ["jqtrade/common/log.py", "jqtrade/scheduler/api.py", RUN, STRAT],
  [("file and standard-output log handlers", "jqtrade/common/log.py"), ("print that appends to the log and flushes", "jqtrade/scheduler/api.py"), ("choice of the log destination", RUN)],
  observe=["content of the log file and standard output", "exceptions of log and print calls", "start of each task"])

prop("S08", "Staying up accumulates nothing",
  "A strategy process that stays up does not accumulate anything: apart from its orders and whatever its own task code keeps, neither the memory it holds nor its number of open files, active timers and threads, nor the files it leaves in its runtime directory (one order record per day) grow with the number of days, task runs, log and print calls, queries, cancels, synchronisations (successful or failing in any way) and foreign or damaged broker lines.",
  ["histories", "fault_sequences"],
  "all histories of days, task runs, synchronisations and failures, of any length",
  "Tests run for milliseconds; nothing is ever compared between the first and a later day of one process.",
  [ES, STRAT, LOOP, GATE, ACC],
  [("events generated a day at a time and dropped when run", ES), ("one timer reused for every wait", LOOP), ("files opened and closed within each call", GATE), ("figures and orders replaced, not appended, by a synchronisation", ACC)],
  observe=["objects reachable from the process's modules at the same idle time of each day", "open files, active handles and threads", "files in the runtime directory"])

prop("A01", "An acknowledged order is handed to the broker exactly once, unaltered",
  "When an order call returns an order id, the day's order file of the broker contains exactly one complete, separate line carrying that id together with the requested account, security, direction, quantity and price; when the call reports failure, no complete line for it is ever in the file and the order is not shown as a live order - neither in this process, whose get_orders lists it as rejected with a reason, nor after a restart, if nothing but the order file was in its way. This holds under contention for the file lock, full disks, short and failing writes, failing saves of the local record, slow I/O and changes of the strategy's current directory, and a task never uses the same id for two orders.",
  ["inputs", "schedules", "fault_sequences", "histories"],
  "all order sequences (single and batch), lock holders, I/O faults and their positions",
  "No test exercises the built-in trade gate at all; order placement, locking and I/O failures are untested.",
  [GATE, ACC, API],
  [("locked append with header", GATE), ("local order record written around the append", GATE), ("failure reporting", ACC)],
  [("order record", "orders of the day known to this task", GATE)],
  ["return value of order/batch_submit_orders", "bytes of the broker's order file", "get_orders"])
prop("A02", "Strategies sharing an order directory never corrupt each other's orders",
  "When several strategy processes, and the broker, use the same order directory at the same time, every order and cancel file consists of exactly one header line at its start followed by whole lines: no line is interleaved, merged, overwritten or lost, and the header is never repeated. Each strategy tracks its own orders and never adopts those of another. Strategies started at the same moment, even on an empty runtime directory, all come up.",
  ["schedules", "crash_points", "histories"],
  "all interleavings of writers at system-call granularity, including writers killed mid-way",
  "Tests run one process and never touch the files.",
  [GATE],
  [("advisory lock around the append and the empty-file check", GATE), ("per-task record file", GATE)],
  observe=["bytes of the order and cancel files", "get_orders of each strategy"])
prop("A03", "Killing and restarting a strategy never loses an order",
  "If a strategy process is killed at any instant and started again under the same name on the same day (from whatever current directory, the runtime directory being given absolutely or with ~), then after its first successful order synchronisation it knows every order of its own that the broker may have received that day, with the same id and order details and with the broker's latest state, and each can be cancelled; the status files are then read from their beginning, so lines the killed process could not decode (a wrong file_encoding) take effect once it is restarted with the right one. The restart itself never fails or starts empty because of what the killed process left behind.",
  ["crash_points", "histories", "fault_sequences"],
  "all kill instants at system-call granularity during placing, saving and synchronising, any number of kill/restart cycles",
  "Tests never kill or restart a process and never load a saved record.",
  [GATE, ACC],
  [("record saved by write-to-temporary and rename", GATE), ("record loaded at set-up, order files replayed from the start", GATE)],
  [("record file", "per task and day JSON record of orders", GATE)],
  ["get_orders after restart against the broker's order file and its own state"])
prop("A04", "Order states shown to the strategy are the broker's, in order, and converge",
  "Every state a strategy observes for an order is one the broker actually published for that order (or the initial one), and the observed states never go backwards. A synchronisation that succeeds shows at least everything the broker had completely published before it began, so once the broker is quiet the strategy shows exactly its final state for every order; lines caught half-written, split anywhere including inside a character or line ending, are neither lost, misread nor allowed to block later lines.",
  ["schedules", "histories", "fault_sequences", "inputs"],
  "all interleavings of broker appends (split at any byte) with synchronisations, foreign orders in between, I/O faults",
  "sync_orders of the built-in gate is never called by a test.",
  [GATE, ACC, "jqtrade/account/order.py"],
  [("incremental read from a saved offset", GATE), ("status mapping and record update", GATE), ("merge of broker orders into local orders", ACC)],
  [("read offsets", "how far each broker file has been consumed", GATE)],
  ["get_orders results against the broker's publication history"])
prop("A05", "An unparseable status line is skipped whole and blocks nothing",
  "With the default setting, a complete line of the broker's status files that cannot be parsed (wrong number of columns, blank, bad number, unknown status, or undecodable bytes in the order-update file) changes nothing at all, and every well-formed line before and after it still takes effect in the same synchronisation. Synchronisation always terminates, whatever the files contain and even when reading them fails.",
  ["inputs", "fault_sequences", "histories"],
  "all kinds and positions of damaged lines and read faults, interleaved with good lines and synchronisations",
  "No test reads a status file, good or bad.",
  [GATE],
  [("per-line error handling and offset bookkeeping", GATE)],
  observe=["get_orders against the good lines only", "termination of sync_orders"])
prop("A06", "Account figures always come from one complete broker export",
  "The cash figures a strategy sees after a synchronisation are exactly those of one complete asset export the broker had in place during that synchronisation, and the positions (with the total position value) exactly those of one complete position export, including figures that become zero and positions that disappear; if either could not be read completely, both stay exactly as they were. A half-written, missing or other-account export is never shown, and a synchronisation of an intact export always succeeds.",
  ["schedules", "fault_sequences", "histories", "inputs"],
  "all interleavings of the broker's truncate-and-rewrite with synchronisations and retries, all account contents, I/O faults",
  "sync_balance is never run against export files; the fake gate returns constants.",
  [GATE, ACC],
  [("completeness check and retry of export reads", GATE), ("replacement of cash and positions", ACC)],
  observe=["context.portfolio after each synchronisation against the versions the broker published"])
prop("A07", "Order tracking and recovery continue across midnight",
  "A strategy process that stays up over one or more midnights places orders into the new day's file, follows the broker's status files of the new day from their beginning, and can be killed and restarted on the new day without losing an order of that day, exactly as if it had been started that morning. Nothing from the previous day's files is applied to orders of the new day.",
  ["histories", "schedules", "crash_points"],
  "all order/sync histories spanning midnights, whatever the lengths of the previous day's files, with kills before and after midnight",
  "No test crosses midnight or uses the gate.",
  [GATE],
  [("per-day file names, offsets and record", GATE)],
  observe=["get_orders, order file and restart behaviour on later days"])
prop("A08", "Cancel requests reach the broker once, and batch items are independent",
  "Cancelling an order the strategy knows puts exactly one complete cancel line with its id into the day's cancel file, or reports the failure in the log without affecting anything else; cancelling an unknown id writes nothing. In a batch every item has the same effect as the single call: the result list has one entry per item in order, a failed item yields None, and no failing item stops or alters the others.",
  ["inputs", "fault_sequences", "schedules", "histories"],
  "all batches mixing valid, invalid and failing items, all lock/I-O faults inside a batch",
  "Neither cancel_order nor the batch calls are exercised by any test.",
  [API, ACC, GATE],
  [("per-item exception handling", API), ("known-order check", ACC), ("locked append", GATE)],
  observe=["cancel and order files", "return values of the batch calls"])
prop("A09", "Waiting for the order file is bounded and then reported",
  "While another program holds the order or cancel file locked, a submission waits no longer than the configured lock timeout plus one polling interval, keeps retrying until then, and succeeds if the lock is released in time; otherwise it reports failure, writes nothing, and the strategy carries on. The bound holds even if the wall clock is stepped while waiting.",
  ["schedules", "fault_sequences", "configurations", "histories"],
  "all lock-hold windows, timeout/interval settings, clock steps during the wait",
  "No test holds a lock.",
  [GATE],
  [("non-blocking lock attempts with sleep and timeout", GATE)],
  observe=["duration and result of order/cancel calls against the lock-hold windows"])
prop("A10", "Account data is synchronised on schedule for as long as the process runs",
  "With periodic synchronisation enabled, the trade gate is asked for balances and orders once at start-up and then at the configured interval (rounded to a second), no less and no more often, throughout every configured window of every day, or around the clock on every day if no window is configured, and never outside the windows; each of the two can be switched off separately. Settings given through options or the configuration file take effect.",
  ["configurations", "histories", "schedules", "inputs"],
  "all intervals, windows, start instants (including just before midnight) and uptimes of several days",
  "No test sets up the synchronisation timer.",
  [ACC, "jqtrade/account/config.py", STRAT, ES],
  [("synchronisation timetable", ACC), ("configuration loading", "jqtrade/account/config.py")],
  observe=["times of synchronisation calls on a user-supplied trade gate loaded through the configuration"])
prop("A11", "Failures behind the trade gate never take the strategy down",
  "Whatever a trade gate does when placing, cancelling or synchronising (raising any ordinary exception, returning incomplete or malformed data, at any time, once set up), the strategy process keeps running, its tasks keep their schedule, the order call reports failure, and the account shown afterwards is either entirely the new data or entirely the old. Optional fields of the documented gate interface really are optional.",
  ["fault_sequences", "inputs", "histories"],
  "all sequences of gate failures and malformed results at any call",
  "The only gate used by the tests never fails and its results are never looked at.",
  [ACC, "jqtrade/account/position.py", "jqtrade/account/order.py"],
  [("exception barriers around gate calls", ACC)],
  observe=["process liveness, task runs, order results and portfolio with a fault-injecting user-supplied gate"])
prop("A12", "Query results are stable snapshots and sells reduce what can be sold at once",
  "An order object obtained from a query never changes afterwards, whatever synchronisations or broker events follow. As soon as a sell order is accepted the sellable quantity of that position is lower by the order quantity (not below zero) until the next balance synchronisation; buys and refused orders leave it unchanged.",
  ["histories", "inputs", "schedules"],
  "all histories of queries, orders, synchronisations and broker updates",
  "No test queries orders or positions through the API.",
  [API, ACC, "jqtrade/account/position.py"],
  [("replacement instead of mutation of orders", ACC), ("local adjustment of sellable quantity", "jqtrade/account/position.py")],
  observe=["fields of order objects re-read later; closeable_amount around order calls"])
prop("A13", "A machine crash leaves the saved order record old or new, never damaged",
  "After a power failure or operating-system crash at any instant, the order record a strategy finds on restart is one it had completely saved before (the newest that had reached the disk, or a later one; absent only if none had reached it), never empty, truncated or mixed, and the restart succeeds with the orders of that record.",
  ["crash_points", "histories"],
  "all crash instants, all admissible subsets of unsynchronised writes surviving",
  "Tests never crash anything and never read the record.",
  [GATE],
  [("write temporary, flush to disk, rename", GATE)],
  observe=["content of the record file after the crash against all versions saved before it"])
prop("A14", "Order progress and failures are reported in the log, once and truthfully",
  "When an order synchronisation brings a new state of an order the strategy already knew as unfinished (confirmed, partly filled - also further partial fills -, fully filled, cancelling, cancelled, partly cancelled, rejected), exactly one entry in the task's log names that order and its new state, for fills with the filled quantity; a cancel request the broker refuses while the strategy runs is announced once with its order id. An order that did not change, and one that had already finished, is not announced. Every failed synchronisation of orders or balances (a failing trade gate, missing, incomplete or malformed data), every failed order call or batch item, every cancel of an unknown id and every status line skipped because it cannot be parsed leaves at least one ERROR entry in the log; operations in which nothing failed leave none.",
  ["histories", "fault_sequences", "inputs"],
  "all histories of order states, all failures of gates, files and exports",
  "No test looks at the log of a running strategy.",
  [ACC, GATE, API],
  [("announcement of order changes", ACC), ("error entries of the exception barriers", ACC), ("error entries for skipped lines", GATE)],
  observe=["entries written to the task's standard output between the calls, against the states delivered and the failures injected"])
prop("A15", "A half-written export is read again as often as configured, and no longer",
  "A balance synchronisation that meets an asset or position export which is just being rewritten, or which cannot be read for a moment, reads it again at the configured interval as many times as configured (sync_retry_kwargs; by default 3 times every 0.15 s), and takes it if it is complete and readable at one of these attempts. If it is not, the synchronisation gives up after that many attempts and waits no longer. Every synchronisation has all of these attempts, whatever happened in earlier ones.",
  ["schedules", "fault_sequences", "histories"],
  "all timings of exports being rewritten against the attempts, all read errors, all retry settings",
  "A test that reads a file nobody rewrites never retries; what matters is the timing of the terminal against the attempts.",
  [GATE, "jqtrade/common/utils.py"],
  [("retry around reading an export", GATE), ("simple_retry", "jqtrade/common/utils.py")],
  observe=["duration and outcome of sync_balance calls against the times at which the exports were complete and the read errors injected"])
prop("P01", "At most one running process per task name",
  "However start commands for the same task name are timed against each other and against exits, kills and wrapper processes (sudo, shells), no two processes of that name ever run their strategy at the same time, and a start with a name that is in use fails before any strategy code runs (of several simultaneous starts all may be refused). A start whose name is free is not refused because of other, readable processes on the machine.",
  ["schedules", "histories", "fault_sequences"],
  "all interleavings of concurrent starts and exits, all process tables including unrelated, vanishing and inaccessible processes",
  "No test starts a task through the command line or inspects processes.",
  [RUN, UT, MAIN],
  [("duplicate-name check over the process table", RUN), ("process discovery and command-line parsing", UT)],
  observe=["processes running strategy code at the same time; outcome of start commands"])
prop("P02", "Stop and list commands act on exactly the selected tasks",
  "stop_task signals every task selected by name, pid or --all that is still running (gracefully, or by force when asked) and no other process, and get_tasks lists every running task, even if some tasks have started others, or some tasks or unrelated processes exit, appear or are inaccessible while the command works. A task that disappears mid-way never prevents the remaining ones from being handled.",
  ["schedules", "histories", "fault_sequences"],
  "all process tables and all exits during the command",
  "No test runs get_tasks or stop_task.",
  [MAIN, UT],
  [("task discovery", UT), ("selection and signalling", MAIN)],
  observe=["signals received by each simulated process", "output of get_tasks"])
# not simulation targets
prop("N01", "Time expressions mean what the manual says",
  "Every time expression accepted by run_daily (HH:MM:SS, open/close with h/m/s offsets, aliases) denotes the documented time of day, and every other text is refused.",
  ["inputs"], "all strings", "Tests cover a handful of expressions.",
  [ES, STRAT], [("expression parser", ES)])
prop("N02", "Order parameters are validated as documented",
  "order accepts exactly well-formed security codes, non-zero whole quantities, supported styles and sides, and refuses everything else with an error to the caller; security codes convert to and from the broker's notation without loss.",
  ["inputs"], "all argument values", "Tests cover enum lookups only.",
  [API, GATE], [("argument checks", API), ("code conversion", GATE)])
prop("N03", "Order query filters combine as conjunction",
  "get_orders returns exactly the orders matching all given filters.",
  ["inputs"], "all order sets and filter combinations", "get_orders is untested.",
  [API], [("filters", API)])
prop("N04", "Environment and code-path arguments are interpreted faithfully",
  "The -e option sets exactly the given variables and the strategy file given with -c is the one that is loaded.",
  ["inputs"], "all argument strings and file names", "Only command-line parsing of a fixed example is tested.",
  [UT, "jqtrade/scheduler/loader.py"], [("env parser", UT), ("module loader", "jqtrade/scheduler/loader.py")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
