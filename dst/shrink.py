"""Greedy minimisation of a scenario (schedule, workload, faults) that shows a given violation."""
import copy
import json

from . import kernel as K
from . import runlib


def _lists(scn):
    """Paths of lists whose elements may be removed."""
    out = []

    def rec(o, path):
        if isinstance(o, dict):
            for k in sorted(o):
                v = o[k]
                if isinstance(v, list) and k in ("events", "faults", "steps", "drifts", "tasks", "acts", "pre", "plan",
                                                 "items", "script", "threads", "ops", "others", "gate"):
                    out.append(path + [k])
                rec(v, path + [k])
        elif isinstance(o, list):
            for i, v in enumerate(o):
                rec(v, path + [i])
    rec(scn, [])
    return out


def _get(o, path):
    for k in path:
        o = o[k]
    return o


def candidates(scn):
    # drop chunks of lists, biggest chunks first
    for path in _lists(scn):
        try:
            n = len(_get(scn, path))
        except (KeyError, IndexError, TypeError):
            continue
        size = n
        while size >= 1:
            for i in range(0, n, size):
                c = copy.deepcopy(scn)
                lst = _get(c, path)
                keep = [x for x in lst[i:i + size] if isinstance(x, dict) and x.get("keep")]
                if len(keep) == len(lst[i:i + size]):
                    continue
                lst[i:i + size] = keep
                yield c
            size //= 2
    # simpler machine
    if scn.get("cost") not in (None, [2000, 40000]):
        c = copy.deepcopy(scn)
        c["cost"] = [2000, 40000]
        yield c
    if scn.get("stall") not in (None, [0.0, 0.0]):
        c = copy.deepcopy(scn)
        c["stall"] = [0.0, 0.0]
        yield c
    if scn.get("clock", {}).get("drift"):
        c = copy.deepcopy(scn)
        c["clock"]["drift"] = 0
        yield c
    for p in scn.get("procs", {}):
        for key in ("debug", "rand_repeat", "watch_pos"):
            if scn["procs"][p].get(key):
                c = copy.deepcopy(scn)
                c["procs"][p].pop(key)
                yield c


def minimise(scn, prop, code, budget):
    t0 = K.real_monotonic()
    tried = 0
    kept = 0
    seen = set()
    fam = runlib.fam(scn["fam"])
    cands = getattr(fam, "shrink", None)

    def shows(c):
        try:
            R = runlib.execute(c)
        except Exception:
            return False
        finally:
            runlib.collect()
        return R.error is None and any(v[0] == prop and v[1] == code for v in R.violations)

    progress = True
    while progress and K.real_monotonic() - t0 < budget:
        progress = False
        gens = [candidates(scn)]
        if cands:
            gens.insert(0, cands(scn))
        for g in gens:
            for c in g:
                if K.real_monotonic() - t0 > budget:
                    break
                key = json.dumps(c, sort_keys=True)
                if key in seen:
                    continue
                seen.add(key)
                tried += 1
                if shows(c):
                    scn = c
                    kept += 1
                    progress = True
                    break
            if progress:
                break
    R = runlib.execute(scn)
    return {"scn": scn, "tried": tried, "kept": kept, "violations": R.violations, "hash": R.hash, "error": R.error}
