"""Compute the decision tables of every anchored function (parallel)."""
import json, sys, os, time
from multiprocessing import Pool
from engine import Program, Incomplete
from table import Tabler, ident, BOUNDARY

DUMP = os.environ.get("RXV_DUMP", "/verif/build/dump")
_P = None


def anchored(f):
    if f.kind == "closure" or not f.crate.startswith("rx_"):
        return False
    if f.derived and not f.macro:
        return False
    if "macro" in f.crate:
        return False
    tr = (f.trait or "").split("::")[-1]
    if tr in ("Debug", "Display", "Reflect", "TypePath", "Typed", "GetTypeRegistration", "FromReflect", "PartialReflect"):
        return False
    if f.trait or f.in_trait:
        return True
    if f.pub or f.name in BOUNDARY:
        return True
    if not f.self_adt and f.kind != "closure":
        # hooks, observers and default callbacks are referenced, not called; what is called is seen in its callers
        return _P is None or f.key in _P.valued or f.key not in _P.called
    return (f.self_adt or "").endswith("multicast::Subscribers") and f.name in ("apply", "clean")


def init(dump):
    global _P
    _P = Program(dump)


def poison_table(T, f):
    """The rows in which some lock the function takes is poisoned"""
    try:
        t = T.table(f)
    except Incomplete:
        return None
    rows = [r for r in t["rows"] if '"poisoned ' in json.dumps(r)]
    if not rows:
        return None
    return {"fn": t["fn"], "rows": rows, "file": f.file}


def one(keys):
    T = Tabler(_P)
    TP = Tabler(_P, poison=True, max_paths=6000)
    out = []
    for k in keys:
        f = _P.fns[k]
        t0 = time.time()
        if os.environ.get("RXV_V"): print("start", k, os.getpid(), flush=True)
        try:
            t = T.table(f)
        except Incomplete as x:
            t = {"fn": ident(f), "incomplete": str(x)[:120], "rows": [], "file": f.file}
        t["line"] = f.line
        t["key"] = k
        p = poison_table(TP, f)
        if p:
            t["poison"] = p
        out.append((t, time.time() - t0))
    return out


def tables(dump, want=lambda f: True, jobs=8):
    P = Program(dump)
    global _P
    _P = P
    keys = sorted(k for k, f in P.fns.items() if anchored(f) and want(f))
    import random
    ks = keys[:]
    random.Random(0).shuffle(ks)
    chunks = [ks[i::jobs * 6] for i in range(jobs * 6)]
    res = []
    with Pool(jobs, init, (dump,)) as pool:
        for r in pool.imap_unordered(one, [c for c in chunks if c]):
            res.extend(r)
    return P, res


if __name__ == "__main__":
    t = time.time()
    P, res = tables(DUMP)
    print(len(res), "tables", round(time.time() - t, 1), "s")
    import collections
    ids = collections.Counter(x["fn"] for x, _ in res)
    dup = {k: v for k, v in ids.items() if v > 1}
    print("dups", len(dup), sum(dup.values()), list(dup.items())[:40])
    print("inc", [x["fn"] for x, _ in res if "incomplete" in x])
    big = sorted(((len(json.dumps(x)), len(x["rows"]), round(s, 1), x["fn"]) for x, s in res), reverse=True)[:25]
    for b in big:
        print(b)
    print("total", sum(len(json.dumps(x)) for x, _ in res))
