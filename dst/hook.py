"""What the generated strategy files call: performs the scripted actions through the API jqtrade injected into the
strategy module and records every call in the history."""
import datetime
import types

from . import kernel as K

ORDER_FIELDS = ("order_id", "code", "amount", "action", "side", "status", "order_price", "filled_amount",
                "canceled_amount", "deal_balance", "avg_price", "err_msg", "commission")


def order_view(o):
    d = {}
    for f in ORDER_FIELDS:
        d[f] = getattr(o, f)
    st = o.style
    d["style"] = type(st).__name__
    d["create_time"] = str(o.create_time)
    d["entrust_time"] = str(o.entrust_time)
    return d


class Shown(object):
    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text


class Hook(object):
    def __init__(self, world, proc, spec, inc, shared):
        self.w = world
        self.proc = proc
        self.spec = spec
        self.inc = inc
        self.shared = shared        # survives restarts of this task: {"ids": [...], "held": []}
        self.g = None
        self.depth = 0
        self.held = []
        self.nact = 0
        self.nrun = {}
        self.cur = None
        self.in_call = None

    def L(self, kind, **kw):
        return self.w.log(kind, p=self.proc.label, inc=self.inc, **kw)

    def gate(self, name, arg):
        """called by a generated trade gate"""
        return self.w.stage.gatesim.call(self, name, arg)

    # called by the strategy module -------------------------------------------------------------------------
    def bind(self, g):
        self.g = g
        if self.spec.get("logbind"):
            self.L("bound")

    def init(self, ctx):
        self.L("init")
        spec = self.spec
        pre = spec.get("pre", [])
        if "cd0" in spec:
            # before anything else the strategy goes to a directory of its own
            self.a_chdir(ctx, spec["cd0"])
        if "opts" in spec:
            self.in_call = "set_options"
            self.L("setopt_call")
            self.g["set_options"](**self.decode_opts(spec["opts"]))
            self.L("setopt_ret")
            self.in_call = None
        for i, t in enumerate(spec.get("tasks", [])):
            self.g["run_daily"](self.resolve(i, t), t["time"])
        self.do(pre, ctx)
        self.L("inited")

    def decode_opts(self, o):
        o = dict(o)
        for k in ("order_dir", "runtime_dir"):
            if k in o:
                o[k] = self.w.paths[o[k]]
        for k in ("market_period", "sync_period"):
            if o.get(k):
                o[k] = [tuple(x) for x in o[k]]
        return o

    def resolve(self, i, t):
        how = t.get("fn", "top")
        if how == "helper":
            import importlib
            return getattr(importlib.import_module(self.spec["helper"]), "h%d" % i)
        if how == "closure":
            return self.g["make"](i)
        if how == "lambda":
            return self.g["make_lambda"](i)
        if how == "same":
            return self.g["SAME"][i]
        if how == "method":
            return self.g["OBJ"][i].run
        return self.g["t%d" % i]

    def run_task(self, i, ctx):
        t = self.spec["tasks"][i]
        self.depth += 1
        self.cur = i
        self.nrun[i] = self.nrun.get(i, 0) + 1
        sdt, cdt = ctx.strategy_dt, ctx.current_dt
        self.L("task", i=i, depth=self.depth, sdt=str(sdt) if sdt is not None else None, cdt=str(cdt))
        try:
            self.do(t.get("acts", []), ctx)
        except Exception as e:
            self.L("task_exc", i=i, exc=type(e).__name__)
            raise
        finally:
            self.depth -= 1
        self.L("task_end", i=i)

    # actions -----------------------------------------------------------------------------------------------
    def do(self, acts, ctx):
        for a in acts:
            self.nact += 1
            getattr(self, "a_" + a[0])(ctx, *a[1:])

    def a_sleep(self, ctx, s):
        import time
        time.sleep(s)

    def a_raise(self, ctx, name, msg="boom"):
        e = EXCS[name](msg)
        self.shared["raised"] = e
        raise e

    def a_dur(self, ctx, durs):
        """Work for a time that depends on how often this task has run."""
        i = self.cur
        n = self.nrun[i]
        d = durs[(n - 1) % len(durs)]
        if d:
            self.a_sleep(ctx, d)

    def a_failat(self, ctx, n, name):
        if self.nrun[self.cur] == n:
            self.a_raise(ctx, name)

    def a_chdir(self, ctx, name):
        import os
        os.chdir(os.path.join(self.w.stage.root, name))

    def a_log(self, ctx, level, body):
        """One log message; its text is unique."""
        self._emit("log", level, body, lambda text: getattr(self.g["log"], level)(text))

    def a_logarg(self, ctx, level, body):
        self._emit("log", level, body, lambda text: getattr(self.g["log"], level)("%s", text))

    def a_logexc(self, ctx, level, body):
        """A message with the stack of the exception being handled."""
        def go(text):
            try:
                raise ValueError("in a task")
            except ValueError:
                getattr(self.g["log"], level)(text, exc_info=True)
        self._emit("log", level, body, go)

    def a_logobj(self, ctx, level, body):
        self._emit("log", level, body, lambda text: getattr(self.g["log"], level)(Shown(text)))

    def a_print(self, ctx, body, how="plain"):
        if how == "other":
            path = self.w.stage.root + "/other_%s.txt" % self.proc.label

            def go(text):
                with open(path, "a") as f:
                    self.g["print"](text, file=f)
        elif how == "noflush":
            def go(text):
                self.g["print"](text, flush=False)
        elif how == "parts":
            def go(text):
                h = len(text) // 2
                self.g["print"](text[:h], text[h:], sep="", end="\n")
        elif how == "open":
            def go(text):
                self.g["print"](text, end="#")
        elif how == "obj":
            def go(text):
                self.g["print"](Shown(text))
        else:
            def go(text):
                self.g["print"](text)
        self._emit("print", how, body, go)

    def _emit(self, kind, how, body, go):
        n = self.shared["said"] = self.shared.get("said", 0) + 1
        text = "<%s.%d.%d>%s</%d>" % (self.proc.label, self.inc, n, body, n)
        self.L(kind + "_call", n=n, how=how, text=text)
        exc, was = None, self.in_call
        self.in_call = kind
        try:
            go(text)
        except Exception as e:
            exc = "%s: %s" % (type(e).__name__, e)
        self.in_call = was
        self.L(kind + "_ret", n=n, exc=exc, size=self.w.stage.out_size(self.proc, self.spec))

    def a_nth(self, ctx, n, acts):
        """Perform acts on the n-th run only."""
        if self.nrun[self.cur] == n:
            self.do(acts, ctx)

    def style(self, s):
        if s is None:
            return None
        if s[0] == "m":
            return self.g["MarketOrderStyle"]()
        return self.g["LimitOrderStyle"](s[1])

    def uniq(self, ref, amount):
        """Quantities are unique over the whole run, also when a request is repeated on a later day or by a restarted
        process."""
        n = self.shared.setdefault("refs", {})
        k = n[ref] = n.get(ref, -1) + 1
        if k and isinstance(amount, int) and amount:
            amount += k * 20000 * (1 if amount > 0 else -1)
        return ("%s#%d" % (ref, k) if k else ref), amount

    def a_order(self, ctx, ref, code, amount, style=None, side="long"):
        base = ref
        ref, amount = self.uniq(ref, amount)
        self.L("order_call", ref=ref, code=code, amount=amount, style=style, side=side,
               close=self.closeable(ctx, code))
        self.in_call = "order"
        exc = rid = None
        try:
            rid = self.g["order"](code, amount, self.style(style), side)
        except Exception as e:
            exc = e
        self.in_call = None
        self.shared["ids"][base] = rid
        self.L("order_ret", ref=ref, id=rid, exc=type(exc).__name__ if exc else None,
               lines=self.nlines("order", rid), close=self.closeable(ctx, code))

    def nlines(self, kind, oid):
        return self.w.stage.nlines(kind, oid) if isinstance(oid, str) else None

    def closeable(self, ctx, code):
        if not self.spec.get("watch_pos"):
            return None
        try:
            return ctx.portfolio.long_positions[code].closeable_amount
        except Exception as e:
            return "exc:" + type(e).__name__

    def closeables(self, ctx, items):
        if not self.spec.get("watch_pos"):
            return None
        return {c: self.closeable(ctx, c) for c in sorted({it["code"] for it in items if isinstance(it.get("code"), str)})}

    def a_batch(self, ctx, ref, items):
        its = []
        for it in items:
            it = dict(it)
            it["base"] = it["ref"]
            it["ref"], q = self.uniq(it["ref"], it.get("amount"))
            if "amount" in it:
                it["amount"] = q
            its.append(it)
        items = its
        self.L("batch_call", ref=ref, items=items, close=self.closeables(ctx, items))
        arg = []
        for it in items:
            d = {}
            for k in ("code", "amount", "side"):
                if k in it:
                    d[k] = it[k]
            if "style" in it:
                d["style"] = self.style(it["style"]) if isinstance(it["style"], list) else it["style"]
            arg.append(d)
        self.in_call = "batch"
        exc = res = None
        try:
            res = self.g["batch_submit_orders"](arg)
        except Exception as e:
            exc = e
        self.in_call = None
        if isinstance(res, list):
            for it, r in zip(items, res):
                self.shared["ids"][it["base"]] = r
        self.L("batch_ret", ref=ref, res=list(res) if isinstance(res, list) else repr(res),
               exc=type(exc).__name__ if exc else None, close=self.closeables(ctx, items),
               lines=[self.nlines("order", x) for x in res] if isinstance(res, list) else None)

    def rid(self, r):
        if isinstance(r, str):
            if r.startswith("raw:"):
                return r[4:]
            return self.shared["ids"].get(r)
        return None

    def a_cancel(self, ctx, r):
        oid = self.rid(r)
        if oid is None:
            self.L("cancel_skip", r=r)
            return
        self.cancels("cancel", [oid], lambda: self.g["cancel_order"](oid), id=oid)

    def cancels(self, kind, ids, fn, **kw):
        try:
            known = self.g["get_orders"]()
        except Exception:
            known = {}
        before = [self.nlines("cancel", x) for x in ids]
        self.L(kind + "_call", ids=ids, known=[x in known for x in ids], **kw)
        mark = len(self.proc.stdout.parts)
        self.in_call = "cancel"
        exc = None
        try:
            fn()
        except Exception as e:
            exc = e
        self.in_call = None
        self.L(kind + "_ret", ids=ids, exc=type(exc).__name__ if exc else None, logged=self.errors_since(mark),
               lines=[self.nlines("cancel", x) - b for x, b in zip(ids, before)], **kw)

    def errors_since(self, mark):
        return any("[ERROR]" in t or "[WARNING]" in t or "[CRITICAL]" in t for t in self.proc.stdout.parts[mark:])

    def a_bcancel(self, ctx, rs):
        ids = [x for x in (self.rid(r) for r in rs) if x is not None]
        self.cancels("bcancel", ids, lambda: self.g["batch_cancel_orders"](ids))

    def a_cancel_all(self, ctx, statuses):
        for oid, o in sorted(self.g["get_orders"]().items()):
            if o.status in statuses:
                self.a_cancel(ctx, "raw:" + oid)

    def a_synco(self, ctx):
        self.L("synco_call")
        self.in_call = "synco"
        exc = None
        try:
            self.g["sync_orders"]()
        except Exception as e:
            exc = e
        self.in_call = None
        self.L("synco_ret", exc=type(exc).__name__ if exc else None)
        self.a_query(ctx)

    def a_syncb(self, ctx):
        self.L("syncb_call")
        self.in_call = "syncb"
        exc = None
        try:
            self.g["sync_balance"]()
        except Exception as e:
            exc = e
        self.in_call = None
        self.L("syncb_ret", exc=type(exc).__name__ if exc else None)
        self.a_port(ctx)

    def a_query(self, ctx, **flt):
        try:
            os_ = self.g["get_orders"](**flt)
            self.L("orders", orders={k: order_view(v) for k, v in os_.items()}, exc=None)
        except Exception as e:
            self.L("orders", orders=None, exc=repr(e))

    def a_port(self, ctx):
        try:
            p = ctx.portfolio
            pos = {}
            for side, d in (("long", p.long_positions), ("short", p.short_positions)):
                for c, v in d.items():
                    pos[side + ":" + c] = [v.total_amount, v.closeable_amount, v.avg_cost, v.last_price,
                                           v.position_value, v.side]
            self.L("port", cash=[p.total_value, p.available_cash, p.locked_cash], pos=pos, pv=p.position_value, exc=None)
        except Exception as e:
            self.L("port", cash=None, pos=None, pv=None, exc=repr(e))

    def a_hold(self, ctx):
        for oid, o in self.g["get_orders"]().items():
            v = order_view(o)
            rec = self.L("held", id=oid, view=v)
            self.held.append((rec["q"], o, v))

    def a_recheck(self, ctx):
        for q, o, v in self.held:
            self.L("reheld", of=q, view=order_view(o), was=v)


class Custom(Exception):
    pass


class Falsy(Exception):
    """An exception object that is false in a boolean context."""
    def __bool__(self):
        return False


class NoTraceback(Exception):
    __slots__ = ()


class BadStr(Exception):
    def __str__(self):
        raise RuntimeError("cannot be shown")


class Frozen(Exception):
    """An exception that refuses new attributes."""
    def __setattr__(self, k, v):
        if not k.startswith("__"):
            raise AttributeError(k)
        Exception.__setattr__(self, k, v)


EXCS = {"BadStr": BadStr, "Frozen": Frozen,
        "ValueError": ValueError, "KeyError": KeyError, "OSError": OSError, "RuntimeError": RuntimeError,
        "ZeroDivisionError": ZeroDivisionError, "StopIteration": StopIteration, "TimeoutError": TimeoutError,
        "Custom": Custom, "NoTraceback": NoTraceback, "BlockingIOError": BlockingIOError, "Falsy": Falsy,
        "PermissionError": PermissionError, "ConnectionError": ConnectionError, "TypeError": TypeError,
        "AttributeError": AttributeError}


def make_hook_module(hook):
    m = types.ModuleType("vh_hook")
    m.H = hook
    return m


STRATEGY_TMPL = '''# generated strategy
import vh_hook
H = vh_hook.H
H.bind(globals())


def process_initialize(context):
    H.init(context)

%s

def make(i):
    def task(context):
        H.run_task(i, context)
    return task


def make_lambda(i):
    return lambda context: H.run_task(i, context)


SAME = {}
for _i in %r:
    def same(context, _i=_i):
        H.run_task(_i, context)
    SAME[_i] = same


class Obj(object):
    def __init__(self, i):
        self.i = i

    def run(self, context):
        H.run_task(self.i, context)


OBJ = {_i: Obj(_i) for _i in %r}
'''


def strategy_source(spec):
    n = len(spec.get("tasks", []))
    body = "".join("\ndef t%d(context):\n    H.run_task(%d, context)\n" % (i, i) for i in range(n))
    idx = list(range(n))
    return STRATEGY_TMPL % (body, idx, idx)


def helper_source(spec):
    n = len(spec.get("tasks", []))
    return "import vh_hook\nH = vh_hook.H\n" + "".join(
        "\ndef h%d(context):\n    H.run_task(%d, context)\n" % (i, i) for i in range(n))
