"""Which scenario families decide which property, and how many runs each tier makes."""

# property -> list of (family, profile, quick runs, thorough runs)
PLAN = {
    "S01": [("sched", "mix", 4500, 60000), ("sched", "long", 225, 3000)],
    "S02": [("sched", "mix", 3750, 60000), ("cust", "tie", 1050, 30000)],
    "S03": [("sched", "mix", 4500, 60000)],
    "S04": [("sched", "signal", 6000, 80000)],
    "S05": [("sched", "fail", 6000, 80000)],
    "S06": [("threads", "mix", 15000, 300000)],
    "S07": [("logs", "mix", 10500, 200000)],
    "S08": [("soak", "mix", 165, 4000)],
    "A01": [("gate", "order", 1650, 40000), ("gate", "share", 450, 10000), ("gate", "lock", 750, 15000),
            ("gate", "kill", 450, 10000), ("gate", "midnight", 375, 10000)],
    "A02": [("gate", "share", 1350, 40000), ("gate", "order", 600, 10000), ("gate", "kill", 450, 10000)],
    "A03": [("gate", "kill", 3300, 80000)],
    "A04": [("gate", "stream", 2700, 60000), ("gate", "kill", 600, 10000)],
    "A05": [("gate", "bad", 3300, 80000)],
    "A06": [("bal", "mix", 2700, 60000)],
    "A07": [("gate", "midnight", 2700, 60000)],
    "A08": [("gate", "cancel", 2700, 60000), ("gate", "lock", 600, 10000), ("gate", "midnight", 600, 15000)],
    "A09": [("gate", "lock", 3600, 80000)],
    "A10": [("cust", "sync", 1800, 40000)],
    "A11": [("cust", "mal", 3000, 80000)],
    "A12": [("gate", "stream", 1800, 40000), ("bal", "sell", 1350, 30000), ("cust", "mal", 600, 20000)],
    "A13": [("crash", "mix", 3300, 80000)],
    "A14": [("cust", "mal", 1350, 40000), ("gate", "bad", 750, 20000), ("gate", "cancel", 750, 20000), ("gate", "order", 450, 10000),
            ("gate", "lock", 300, 8000), ("gate", "midnight", 600, 15000), ("bal", "mix", 600, 15000)],
    "A15": [("bal", "retry", 1800, 40000), ("bal", "mix", 750, 15000)],
    "P01": [("ptab", "start", 3750, 80000), ("ptab", "mix", 1800, 40000)],
    "P02": [("ptab", "stop", 3750, 80000), ("ptab", "mix", 1800, 40000)],
}

REAL = ["jqtrade (all modules, compiled from /repo's working tree, entered through jqtrade.__main__.main)",
        "CPython 3.12 standard library (io buffering, json, csv text layer, heapq, logging, uuid)", "pandas CSV reader",
        "portalocker on real flock(2) between handles", "real files in a scratch directory"]
STUB = ["pyuv/libuv event loop (libuv 1.13 phase order, ms timers, coalescing async, signals last in poll)",
        "wall and monotonic clock, sleep", "os.urandom", "process table and signals (psutil, os.kill)",
        "thread scheduling (one baton)", "strategy scripts (generated)"]

RULES = {
    "*": "A case is one simulated run of a scenario generated from (family, profile, seed): workload, machine speed, clock "
         "behaviour and fault plan are all drawn from the seed.  It is non-trivial if the behaviour the property is about "
         "actually took place in it; two cases are distinct if their sequences of (thread, seam) steps and observed events "
         "differ.",
}

ASSUME = [
    "Seams stand for the operating system: file operations, locks, sleeps and event-loop polls are atomic; pre-emption "
    "between them (and, for S06, between byte codes) is explored.",
    "A process is not killed between a short write and the write call that continues it.",
    "The event-loop stub follows libuv 1.13.2 as observed through pyuv 1.4.0 (tools/conformance.py compares them).",
]

NOTES = {
    "*": "Seeded random search over generated workloads, schedules and fault plans, not exhaustive; the real code runs "
         "against stubs for the event loop library, the clock, randomness, the process table and the broker.",
    "S06": "As the other checks, plus pre-emption between byte codes of jqtrade's own modules; C code and the standard "
           "library are atomic.",
}

NOTES["S08"] = NOTES["*"] + (
    " Growth is judged over 6 to 12 simulated days: the objects reachable from jqtrade's modules, open files, active handles, "
    "threads and files of the runtime directory are counted at the same idle instant of every day.")

NOT_APPLICABLE = {
    "N01": "a pure function of the expression text: no clock, schedule, I/O or fault takes part in it, so there is nothing "
           "for a simulator to vary (its runtime effect, the run times of tasks, is part of S01)",
    "N02": "a pure function of the arguments: there is no interleaving, time or fault for a simulator to decide (valid and "
           "invalid requests are part of A01 and A08 workloads)",
    "N03": "a pure filter over an in-memory dictionary: no schedule, time or fault influences it",
    "N04": "a single-threaded parse of the command line at start-up: no schedule, time or fault influences it",
}
