"""Rules that hold for every function, independent of what was confirmed for it."""
import json
import re

SIG = {"next", "error", "complete", "unsubscribe"}
TERMINAL = {"error", "complete"}


def each_table(t, path=()):
    """The table and the tables of every closure created in it"""
    yield t
    seen = set()
    for r in t["rows"]:
        subs = []
        for tk in r["word"]:
            subs += tk[3] if len(tk) > 3 else []
        for ops in r["coll"].values():
            for op in ops:
                for z in op:
                    if isinstance(z, list):
                        subs += [c for c in z if isinstance(c, dict)]
        subs += r.get("clos") or []
        for c in subs:
            if len(path) < 4 and id(c) not in seen:
                seen.add(id(c))
                yield from each_table(c, path + (1,))


# The subject's own inner subject, closed by nobody else while its value and its completion are sent
OWN_INNER = {"rx_core_subject_async|AsyncSubject|RxObserver|complete/next->complete"}


def second_signal(w):
    """Within one reaction, a signal after another signal to the same observer needs a fresh look at whether
    that observer is still open: the first one may have closed it.  (Unsubscribing is always allowed.)"""
    out, sites = [], 0
    for ident, ts in w.by.items():
        for t0 in ts:
            for t in each_table(t0):
                for r in t["rows"]:
                    last = {}
                    for i, tk in enumerate(r["word"]):
                        recv, m = tk[0], tk[1]
                        if m not in SIG:
                            continue
                        if recv in last and m != "unsubscribe":
                            sites += 1
                            j = last[recv]
                            # (own steps run no foreign code and are not counted in the question's number)
                            n = [sum(1 for q in range(k + 1) if q not in r["own"]) for k in (j, i)]
                            asked = any(a.startswith(recv) and "closed?" in a and
                                        n[0] <= int(re.search(r"closed\?(\d+)", a).group(1)) < n[1] for a in r["cond"])
                            if not asked:
                                key = f"{ident}/{r['word'][j][1]}->{m}"
                                if key in OWN_INNER:
                                    continue
                                out.append((key, f"{t0['file']}:{t0.get('line', '')}: {ident}: {m} is sent to {recv} after "
                                            f"{r['word'][j][1]} without asking whether it is still open"))
                        last[recv] = i
    return uniq(out), {"second_signals": sites}


def uniq(fs):
    seen, out = set(), []
    for k, x in fs:
        if k not in seen:
            seen.add(k)
            out.append((k, x))
    return out


def no_foreign_under_lock(w):
    """Code of other objects runs under an internal lock only where that was confirmed"""
    out, sites, fns = [], 0, 0
    confirmed = {}
    for s in w.spec:
        confirmed.setdefault(s["fn"], set()).update(tuple(h) for h in s.get("held", []))
    for ident, ts in w.by.items():
        for t in ts:
            fns += 1
            for h in t.get("held", []):
                sites += 1
                lock, callee, kind = h
                key = f"{ident}/{lock}/{callee}"
                if key in FINDINGS_UNDER_LOCK or tuple(h) not in confirmed.get(ident, set()):
                    out.append((key, f"{t['file']}:{t.get('line', '')}: {ident}: {callee} of another object is called while {lock} is locked"))
    return uniq(out), {"functions": fns, "calls_under_lock": sites}


def critical_sections(w):
    """What one critical section looks at and writes is not split over two"""
    out, fns, pairs = [], 0, 0
    confirmed = {}
    for s in w.spec:
        c = confirmed.setdefault(s["fn"], (set(), set()))
        c[0].update(map(tuple, s.get("cs", {}).get("together", [])))
        c[1].update(map(tuple, s.get("cs", {}).get("apart", [])))
    for ident, ts in w.by.items():
        for t in ts:
            fns += 1
            ok = confirmed.get(ident)
            if not ok:
                continue
            pairs += len(ok[0])
            still = set(map(tuple, t.get("cs", {}).get("together", [])))
            for f in map(tuple, t.get("cs", {}).get("apart", [])):
                # (with the looks in another order, one may be skipped on a path)
                if f in ok[0] and f not in ok[1] and (
                        f not in still or f[1].startswith("atomic ") or f[1] in (f[2], "look " + f[2])):
                    lock, cell, at = f
                    out.append((f"{ident}/{cell}/{at}", f"{t['file']}:{t.get('line', '')}: {ident}: {lock} is released between "
                                f"{cell} and writing {at}"))
    return uniq(out), {"functions": fns, "pairs_in_one_section": pairs}


def lock_order(w):
    """No lock is taken while it is held, and no two locks are taken in both orders"""
    out, sites = [], 0
    edges = {}

    def node(ident, path):
        # a field of one type is one lock for every function of that type
        return "|".join(ident.split("|")[:2]) + "|" + path
    for ident, ts in w.by.items():
        for t in ts:
            for held, taken in t.get("nest", []):
                sites += 1
                where = f"{t['file']}:{t.get('line', '')}: {ident}"
                if held == taken:
                    out.append((f"{ident}/{held}", f"{where}: {taken} is locked while it is already held here"))
                else:
                    edges.setdefault(node(ident, held), {}).setdefault(node(ident, taken), (ident, where, held, taken))
    for a, bs in edges.items():
        for b, (ident, where, held, taken) in bs.items():
            seen, todo = set(), [b]
            while todo:
                x = todo.pop()
                if x not in seen:
                    seen.add(x)
                    todo += edges.get(x, {})
            if a in seen:
                out.append((f"{ident}/{held}/{taken}", f"{where}: {taken} is locked while {held} is held, and elsewhere the other way around"))
    return uniq(out), {"nested_locks": sites, "locks": len(edges)}


# Never confirmed: these are the known findings of known_findings.txt
FINDINGS_UNDER_LOCK = {
    "rx_core_subject_async|AsyncSubject|RxObserver|next/self.value/callback",
    "rx_core_observable_connectable|ConnectableObservable|Connectable|connect/self.connector/subscribe",
}

def retry_budget(w):
    """A failed attempt is only followed by another while the retries made so far are fewer than configured"""
    out, sites = [], 0
    for ident, ts in w.by.items():
        if not ident.startswith("rx_core_operator_retry|"):
            continue
        for t in ts:
            for r in t["rows"]:
                if not any(tk[1] == "subscribe" for tk in r["word"]):
                    continue
                env = {"max_retries": 5, "retries": 5}
                conds = [(m, v) for c, v in r["cond"].items()
                         for m in [re.fullmatch(r"self\.(max_retries|retries)(\+\d+)? (<|=) self\.(max_retries|retries)(\+\d+)?", c)] if m]
                if "self.retries" not in json.dumps(r["cond"]):
                    continue
                sites += 1
                ok = True
                for m, v in conds:
                    a = env[m[1]] + int(m[2] or 0)
                    b = env[m[4]] + int(m[5] or 0)
                    if ((a < b) if m[3] == "<" else (a == b)) != (v in (True, "T", "True")):
                        ok = False
                if ok:
                    out.append((ident, f"{t['file']}:{t.get('line', '')}: {ident}: the source is subscribed again although the configured number of retries was already made"))
    return uniq(out), {"resubscriptions": sites}



def work_signal(w):
    """A scheduled work can still run in the tick in which it was cancelled: before it signals an observer it holds
    locked (bypassing the checks of the shared handle) it asks whether that observer is still open"""
    out, sites = [], 0
    for ident, ts in w.by.items():
        for t0 in ts:
            for t in each_table(t0):
                for r0 in t["rows"]:
                    for tk in r0["word"]:
                        if not (tk[0] == "λ" and re.search(r"(Task|Work)Factory::new|schedule", tk[1])):
                            continue
                        for c in tk[3]:
                            for r in c["rows"]:
                                seen = set()
                                for i, x in enumerate(r["word"]):
                                    recv, m = x[0], x[1]
                                    if m not in SIG or recv in seen:
                                        continue
                                    seen.add(recv)
                                    if m == "unsubscribe" or ".lock" not in recv:
                                        continue
                                    sites += 1
                                    if not any(a.startswith(recv) and "closed?" in a for a in r["cond"]):
                                        out.append((f"{ident}/{m}", f"{t0['file']}:{t0.get('line', '')}: {ident}: scheduled work sends {m} to {recv} without asking whether it is still open"))
    return uniq(out), {"signals_from_works": sites}


def window_base(w):
    """A time window is measured from the present: not from a time that is only refreshed while a work is running"""
    out, sites = [], 0
    for ident, ts in w.by.items():
        if not ident.endswith("|RxObserver|next"):
            continue
        for t in ts:
            for r in t["rows"]:
                if not any(tk[1].startswith("schedule") for tk in r["word"]):
                    continue
                for p, v in r["state"].items():
                    if not isinstance(v, str) or "Add" not in v:
                        continue
                    sites += 1
                    for q in re.findall(r"self[\w.]*", v):
                        refreshed = [x for c in r["word"] if c[0] == "λ" for k in c[3] for x in k["rows"]
                                     if str(x["state"].get(q, "")).startswith("now@")]
                        if refreshed and not any(a.startswith(q) for a in r["cond"]):
                            out.append((ident, f"{t['file']}:{t.get('line', '')}: {ident}: {p} is set from {q}, which is out of date when no work was running"))
    return uniq(out), {"windows": sites}


RULES = {"lock_order": lock_order, "critical_sections": critical_sections, "work_signal": work_signal, "window_base": window_base, "retry_budget": retry_budget, "second_signal": second_signal, "no_foreign_under_lock": no_foreign_under_lock}
