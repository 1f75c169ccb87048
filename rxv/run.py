#!/usr/bin/env python3
"""rxv: decide properties of /repo from its type-checked MIR.

    run.py CHECK...            decide the named properties (C01 ...), or `all`
    run.py --freeze            rewrite the confirmed instances (maintainers only, never from a check)
"""
import collections, glob, json, os, re, sys, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
import compare
import freeze
import props
import rules
from props import P, X, relevant

VERIF = build.VERIF
SPEC = os.path.join(VERIF, "rxv", "spec")
EVID = os.environ.get("RXV_EVIDENCE", os.path.join(VERIF, "evidence"))
KNOWN = os.path.join(VERIF, "known_findings.txt")


def adt_fields(prog):
    out = {}
    for a in prog.adts.values():
        key = a["crate"] + "|" + a["path"].split("::")[-1]
        out[key] = [[v["name"], [[f["name"], f["ty"]] for f in v["fields"]]] for v in a["variants"]]
    return out


def load_spec():
    fns, adts = [], {}
    for f in sorted(glob.glob(SPEC + "/*.json")):
        with open(f) as fh:
            d = json.load(fh)
        fns += d["fns"]
        adts.update(d["adts"])
    return fns, adts


def freeze_spec():
    dump = build.extract()
    prog, res = freeze.tables(dump, relevant)
    by = collections.defaultdict(list)
    adts = adt_fields(prog)
    for t, _ in res:
        assert "incomplete" not in t, t["fn"]
        for k in ("key", "line", "paths", "inlined"):
            t.pop(k, None)
        by[t["fn"].split("|")[0]].append(t)
    os.makedirs(SPEC, exist_ok=True)
    for f in glob.glob(SPEC + "/*.json"):
        os.remove(f)
    for c, ts in by.items():
        ts.sort(key=lambda t: (t["fn"], json.dumps(t, sort_keys=True)))
        with open(f"{SPEC}/{c}.json", "w") as fh:
            a = {k: v for k, v in sorted(adts.items()) if k.startswith(c + "|")}
            fh.write('{"adts":' + json.dumps(a, separators=(",", ":")) + ',\n"fns":[\n')
            fh.write(",\n".join(json.dumps(t, separators=(",", ":"), sort_keys=True) for t in ts))
            fh.write("\n]}\n")
    from engine import signature
    fns = collections.defaultdict(list)
    for f in prog.fns.values():
        if f.kind != "closure" and not f.trait and f.self_adt:
            fns[(f.crate, f.self_adt.split("::")[-1])].append(f)
    from table import BOUNDARY
    bs = sorted([c, a, f.name, signature(f), sorted(g.name for g in g_ if g is not f)]
                for (c, a), g_ in fns.items() for f in g_ if f.name in BOUNDARY)
    with open(os.path.join(VERIF, "rxv", "boundary.json"), "w") as fh:
        fh.write("[\n" + ",\n".join(json.dumps(b) for b in bs) + "\n]\n")
    print(len(res), "instances frozen")


# ---------------------------------------------------------------- renamed private fields
def renames(ref_adts, new_adts):
    """crate -> {new field name: confirmed name}, for fields that only changed their name"""
    out = {}
    for k, rv in ref_adts.items():
        nv = new_adts.get(k)
        if not nv or nv == rv or len(nv) != len(rv):
            continue
        for (rn, rf), (nn, nf) in zip(rv, nv):
            r, n = dict(map(tuple, rf)), dict(map(tuple, nf))
            gone, came = [f for f in r if f not in n], [f for f in n if f not in r]
            for g in gone:
                c = [x for x in came if n[x] == r[g]]
                same = [x for x in gone if r[x] == r[g]]
                if len(c) == len(same) and c:
                    out.setdefault(k.split("|")[0], {})[c[same.index(g)]] = g
    return out


def apply_renames(t, m):
    if not m:
        return t
    s = json.dumps(t)
    for new, old in m.items():
        s = re.sub(r"(?<=\.)" + re.escape(new) + r"(?![A-Za-z0-9_])", old, s)
    return json.loads(s)


# ---------------------------------------------------------------- matching instances
class World:
    def __init__(self, want_ids=None, config="dev"):
        t0 = time.time()
        self.dump = build.extract(config)
        self.t_extract = time.time() - t0
        self.spec, self.spec_adts = load_spec()
        compare.vocabulary(self.spec)
        crates = None
        if want_ids is not None and not any(P[p].rules or P[p].poison for p in want_ids):
            names = {s["fn"] for s in self.spec if any(P[p].keep(X(s)) for p in want_ids)}
        else:
            names = {s["fn"] for s in self.spec}
        have_trait = {s["fn"] for s in self.spec}
        from table import ident

        def want(f):
            if not relevant(f):
                return False
            i = ident(f)
            return i in names or i not in have_trait
        self.prog, res = freeze.tables(self.dump, want)
        self.t_tables = time.time() - t0 - self.t_extract
        rn = renames(self.spec_adts, adt_fields(self.prog))
        self.by = collections.defaultdict(list)
        for t, _ in res:
            self.by[t["fn"]].append(apply_renames(t, rn.get(t["fn"].split("|")[0])))
        self.renames = rn
        self.adt_names = collections.defaultdict(set)
        for a in self.prog.adts.values():
            self.adt_names[a["crate"]].add(a["path"].split("::")[-1])
        self.spec_by = collections.defaultdict(list)
        for s in self.spec:
            self.spec_by[s["fn"]].append(s)
        self.moved = self.find_moved()
        self._diff = {}

    def find_moved(self):
        """private types that only changed their name: confirmed ident -> current ident"""
        out = {}
        for crate in {s["fn"].split("|")[0] for s in self.spec}:
            ra = {k.split("|")[1] for k in self.spec_adts if k.startswith(crate + "|")}
            na = self.adt_names.get(crate, set())
            gone = sorted(x for x in ra - na)
            came = sorted(x for x in na - ra)
            if not gone or not came:
                continue
            def shape(fns, a):
                return sorted("|".join(f.split("|")[2:]) for f in fns if f.split("|")[0] == crate and f.split("|")[1] == a)
            for g in gone:
                sg = shape(self.spec_by, g)
                if not sg:
                    continue
                c = [x for x in came if shape(self.by, x) == sg]
                if len(c) == 1:
                    out[(crate, g)] = c[0]
        return out

    def current(self, ident):
        if ident in self.by:
            return self.by[ident]
        crate, adt, tr, name = ident.split("|")
        m = self.moved.get((crate, adt))
        if m:
            alt = "|".join((crate, m, tr, name))
            if alt in self.by:
                ts = []
                for t in self.by[alt]:
                    ts.append(json.loads(re.sub(r"\b%s\b" % re.escape(m), adt, json.dumps(t))))
                self.by[ident] = ts
                return ts
        return []

    def diffs(self, ident):
        """[(spec table, disagreements or None when the instance is gone, current table)]"""
        if ident in self._diff:
            return self._diff[ident]
        refs, news = list(self.spec_by[ident]), list(self.current(ident))
        out = []
        if len(refs) == 1 and len(news) == 1:
            out.append((refs[0], self.diff1(refs[0], news[0]), news[0]))
        else:
            left = list(news)
            pend = []
            for r in refs:
                for n in left:
                    if not self.diff1(r, n):
                        left.remove(n)
                        out.append((r, [], n))
                        break
                else:
                    pend.append(r)
            for r in pend:
                if left:
                    ds = sorted(((sum(len(e["facets"]) for e in self.diff1(r, n)), i) for i, n in enumerate(left)))
                    n = left.pop(ds[0][1])
                    out.append((r, self.diff1(r, n), n))
                else:
                    out.append((r, None, None))
        self._diff[ident] = out
        return out

    def diff1(self, r, n):
        if "incomplete" in n:
            return []
        return compare.diff(r, n)

    def gone_matters(self, ident):
        """A confirmed instance has no counterpart: is the type still there?"""
        crate, adt, tr, name = ident.split("|")
        if crate not in self.prog.crates:
            return True
        if tr:
            return adt in self.adt_names[crate] or f"{crate}|{adt}" not in self.spec_adts
        return False


def known():
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"KNOWN property=(\S+) site=(\S+) (.*)", l.strip())
            if m:
                out.append(m.groups())
    return out


def decide(pid, w, tier):
    p = P[pid]
    t0 = time.time()
    findings = []   # (site, rule, text)
    n_inst = n_rows = n_undecided = n_changed = 0
    crates = set()
    for s in w.spec:
        x = X(s)
        keep = p.keep(x)
        if keep is None:
            continue
        n_inst += 1
        n_rows += len(s["rows"])
        crates.add(x.crate)
    done = set()
    for s in w.spec:
        if s["fn"] in done:
            continue
        keep = p.keep(X(s))
        if keep is None:
            continue
        done.add(s["fn"])
        for r, d, n in w.diffs(s["fn"]):
            kp = p.keep(X(r))
            if kp is None:
                continue
            if d is None:
                if w.gone_matters(r["fn"]):
                    findings.append((r["fn"], "instance", f"{r['file']}: {pretty(r['fn'])} no longer exists; confirmed: " + " || ".join(compare.show(x) for x in r["rows"][:3])))
                continue
            if n and "incomplete" in n:
                n_undecided += 1
                continue
            if d:
                n_changed += 1
            for e in d:
                fs = [f for f in e["facets"] if kp(f[0], f[1])]
                if fs:
                    findings.append((r["fn"], "instance", f"{n['file']}:{n.get('line', '')}: {pretty(r['fn'])}: "
                                     + ", ".join(f"{a} {b}".strip() for a, b in fs) + f"\n    now       {e['now']}\n    confirmed {e['confirmed']}"))
    n_poison = 0
    if p.poison:
        for ident in sorted({s["fn"] for s in w.spec}):
            for r, d, n in w.diffs(ident):
                if n is None or "incomplete" in n:
                    continue
                a, b = r.get("poison"), n.get("poison")
                if a is None and b is None:
                    continue
                n_poison += 1
                if a is None:
                    if '"PANIC"' in json.dumps(b) and "PANIC" not in X(r).words:
                        findings.append((ident, "poison", f"{n['file']}:{n.get('line', '')}: {pretty(ident)} panics when a lock is poisoned: " + compare.show(b["rows"][0])))
                    continue
                if b is None:
                    b = {"fn": ident, "rows": [], "file": n["file"]}
                    if not n.get("_takes_no_lock"):
                        findings.append((ident, "poison", f"{n['file']}:{n.get('line', '')}: {pretty(ident)} no longer handles a poisoned lock; confirmed: " + compare.show(a["rows"][0])))
                    continue
                for e in compare.diff(a, b):
                    findings.append((ident, "poison", f"{n['file']}:{n.get('line', '')}: {pretty(ident)} with a poisoned lock: "
                                     + ", ".join(f"{x} {y}".strip() for x, y in e["facets"]) + f"\n    now       {e['now']}\n    confirmed {e['confirmed']}"))
    rule_cov = {}
    if p.poison:
        rule_cov["poisoned_locks"] = {"functions": n_poison}
    for rn in p.rules:
        fs, cov = rules.RULES[rn](w)
        rule_cov[rn] = cov
        findings += [(site, rn, text) for site, text in fs]
    kn = [(s, why) for q, s, why in known() if q == pid]
    seen_known, viol = [], []
    for site, rule, text in findings:
        k = next(((s, why) for s, why in kn if s == f"{rule}@{site}"), None)
        if k:
            if k not in seen_known:
                seen_known.append(k)
        else:
            viol.append((site, rule, text))
    for s, why in seen_known:
        print(f"KNOWN-FINDING: property={pid} {s} {why}")
    low = n_inst < p.floor or n_poison < p.poison
    os.makedirs(EVID, exist_ok=True)
    out = []
    for site, rule, text in viol[:12]:
        out.append(f"[{rule}] {text}")
    if viol or low:
        rp = os.path.join(EVID, f"{pid}.violation.txt")
        with open(rp, "w") as fh:
            fh.write("\n".join(out) + "\n")
        print("\n".join(out))
        if low:
            print(f"only {n_inst} instances, at least {p.floor} were confirmed")
        print(f"VIOLATION property={pid} replay={rp}")
    cov = {"instances": n_inst, "rows": n_rows, "crates": len(crates), "functions_in_program": len(w.prog.fns),
           "instances_changed_since_confirmed": n_changed, "undecided": n_undecided}
    for rn, c in rule_cov.items():
        for k, v in c.items():
            cov[f"{rn}.{k}"] = v
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": p.level,
          "coverage": cov_fields(cov, p), "wall_s": round(time.time() - t0 + w.t_extract + w.t_tables, 2),
          "violations": len(viol),
          "assumptions": ["rustc's MIR of the lib targets (all features) is the program", "std and bevy calls behave as modelled in rxv/models.py"]}
    with open(os.path.join(EVID, f"{pid}.json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print(f"{pid}: {n_inst} instances, {n_rows} rows" + (", rules " + ", ".join(f"{k} {v}" for k, v in rule_cov.items()) if rule_cov else "")
          + (f", {n_undecided} undecided" if n_undecided else "") + f", {len(viol)} violations, {len(seen_known)} known")
    return bool(viol) or low


EXPLANATION = ("Every function selected by the property (instances) was re-extracted from /repo's current source as type-checked MIR, "
               "interpreted abstractly along all its paths (callees inside the workspace inlined) into a decision table (rows), and "
               "compared row by row with the table confirmed for it: calls, receivers, arguments, order, conditions, state writes and results. "
               "Rules, where listed, are evaluated over every table of the program.")


def cov_fields(cov, p):
    return {**cov, "explanation": EXPLANATION}


def pretty(i):
    crate, adt, tr, name = i.split("|")
    if tr and adt:
        return f"<{crate}::{adt} as {tr}>::{name}"
    return "::".join(x for x in (crate, adt or tr, name) if x)


def main():
    a = [x for x in sys.argv[1:] if not x.startswith("-")]
    if "--freeze" in sys.argv:
        return freeze_spec()
    tier = os.environ.get("VERIF_TIER", "quick")
    ids = sorted(P) if a == ["all"] else a
    bad = False
    configs = ["dev", "rel"] if tier == "thorough" else ["dev"]
    for c in configs:
        w = World(ids, c)
        for pid in ids:
            bad |= bool(decide(pid, w, tier))
    sys.exit(1 if bad else 0)


if __name__ == "__main__":
    main()
