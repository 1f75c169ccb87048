"""Agreement of a function's decision table with the confirmed instance of the same function.

`diff(ref, new)` returns the disagreements: each is a dict naming the conditions under which the two
disagree and the facets (kind, detail) in which they do.  Text, order of tests, helper structure and
local names play no part: both sides are tables over canonical terms.
"""
import re

NUM = re.compile(r"^(.*) (=|>) (-?\d+)$", re.S)
ROOT = re.compile(r"(?:self|\$\d+)(?:\.[A-Za-z_0-9]+)*")
CAMEL = re.compile(r"[A-Z][A-Za-z0-9]+(?:::[A-Z][A-Za-z0-9]+)?")
CALLN = re.compile(r"([A-Za-z_]\w*)[@?]")

CLASS = {
    "push": "add-back", "push_back": "add-back", "extend": "add-back", "append": "add-back",
    "push_front": "add-front", "enqueue": "add-back", "dequeue": "take-front",
    "pop_front": "take-front", "pop_back": "take-back", "pop": "take-back",
    "drain": "take-all", "clear": "take-all", "take": "take-all", "drain_all": "take-all",
}


REORDER = {"insert", "swap", "sort", "sort_by", "sort_by_key", "sort_unstable", "sort_unstable_by",
           "sort_unstable_by_key", "reverse", "rotate_left", "rotate_right", "swap_remove", "push_front",
           "swap_remove_back", "swap_remove_front"}

REMOVAL = {"retain", "remove", "shift_remove", "swap_remove", "shift_remove_index", "drain", "clear", "take", "pop",
           "pop_front", "pop_back", "truncate", "try_remove", "split_off", "drain_all", "dedup", "swap_remove_back",
           "swap_remove_front"}
# ways of going through a collection in another order, or not through all of it
DETOUR = {"rev", "skip", "step_by", "cycle", "next_back", "rfind", "rposition", "rfold", "nth", "nth_back", "skip_while"}

EMPTY = {"default", "::new()", "new()", "[]"}


def norm(l):
    if isinstance(l, (list, tuple)):
        return ("!", tuple(l[1]))
    return l


def lab_ok(a, b):
    if a == b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        return True
    if isinstance(a, tuple):
        return b not in a[1]
    if isinstance(b, tuple):
        return a not in b[1]
    return False


def prep(t):
    if t.get("_p"):
        return t
    t["_p"] = True
    atoms, terms = set(), set()
    for r in t["rows"]:
        r["cond"] = {a: norm(l) for a, l in r["cond"].items()}
        num = {}
        for a, l in r["cond"].items():
            atoms.add(a)
            m = NUM.match(a)
            if m and l in ("T", "F"):
                terms.add(m.group(1))
                num.setdefault(m.group(1), []).append((m.group(2), int(m.group(3)), l))
        r["_num"] = num
    t["_atoms"], t["_terms"] = atoms, terms
    voc = set()
    for r in t["rows"]:
        for s in row_terms(r):
            voc.update(CALLN.findall(s))
    t["_voc"] = voc
    return t


def row_terms(r):
    yield from r["cond"]
    for tk in r["word"]:
        yield tk[0]
        yield from tk[2]
    yield from r["state"].values()
    yield r["ret"]


def num_ok(c):
    lo, hi, ne, eq = (0 if all(k >= 0 for _, k, _ in c) else -10**30), 10**30, set(), None
    for op, k, l in c:
        if op == "=":
            if l == "T":
                if eq is not None and eq != k:
                    return False
                eq = k
            else:
                ne.add(k)
        else:
            if l == "T":
                lo = max(lo, k + 1)
            else:
                hi = min(hi, k)
    if eq is not None:
        return eq not in ne and lo <= eq <= hi
    while lo in ne:
        lo += 1
    return lo <= hi


def compat(a, b):
    ca, cb = a["cond"], b["cond"]
    if len(cb) < len(ca):
        ca, cb = cb, ca
    for k, l in ca.items():
        if k in cb and not lab_ok(l, cb[k]):
            return False
    for t, c in a["_num"].items():
        d = b["_num"].get(t)
        if d and not num_ok(c + d):
            return False
    return True


def covered(new, ref):
    for a in new["_atoms"]:
        if a in ref["_atoms"]:
            continue
        m = NUM.match(a)
        if m and m.group(1) in ref["_terms"]:
            continue
        return False
    return True


def part_of(p, k):
    return p.startswith(k) and p[len(k)] != "~"


EPOCH = re.compile(r"~(\d+)")


def moved_reads(ref, new):
    """Shared cells that are looked at on the other side of code that may change them"""
    def looks(t):
        out = {}
        for a in t["_atoms"]:
            es = EPOCH.findall(a)
            out.setdefault(EPOCH.sub("", a), set()).add(int(es[-1]) if es else 0)
        return out
    r, n = looks(ref), looks(new)
    return sorted(a for a in r if a in n and r[a] - n[a] and n[a] - r[a])


IDENT = re.compile(r"(?<![?~#\w])[A-Za-z_]\w*")
GENERIC = {"self", "lock", "variant", "has", "bit", "data", "next", "try_lock", "poisoned", "panicking", "counter",
           "checked_add", "Add", "Sub", "saturating_sub", "is_closed", "now", "cmp", "len", "is_empty"}
_known = [None, set()]


def vocabulary(tables):
    """The identifiers of all the confirmed tables; worked out when first asked for"""
    _known[:] = [tables, None]


def known():
    if _known[1] is None:
        _known[1] = set()
        for t in _known[0]:
            _known[1] |= idents(t)
    return _known[1]


def texts(t, d=0):
    """Every expression of a table, with those of its closures"""
    for r in t["rows"]:
        yield from row_terms(r)
        yield from r["state"]
        for k, ops in r["coll"].items():
            yield k
            for op in ops:
                for z in op:
                    if isinstance(z, str):
                        yield z
                    elif isinstance(z, list) and d < 4:
                        for c in z:
                            if isinstance(c, dict):
                                yield from texts(c, d + 1)
        for tk in r["word"]:
            for c in (tk[3] if len(tk) > 3 else []):
                if d < 4:
                    yield from texts(c, d + 1)
        for c in r.get("clos") or []:
            if d < 4:
                yield from texts(c, d + 1)


def idents(t):
    if "_ids" not in t:
        s = set()
        for x in texts(t):
            s.update(IDENT.findall(x))
        t["_ids"] = s
    return t["_ids"]


BIT = re.compile(r"^(.*) has bit (\d+)$", re.S)
PARTS = re.compile(r" (?:<|<=|=|>) ")


def in_use(t, d=0):
    """The identifiers of all that decides, is handed on or returned: not those that are only counted up or set,
    nor those of code that is handed on to run some other time"""
    if "_use" in t:
        return t["_use"]
    s = set()
    for r in t["rows"]:
        for x in list(r["cond"]) + [r["ret"]] + [x for tk in r["word"] for x in [tk[0]] + list(tk[2])]:
            s.update(IDENT.findall(x))
        for k, v in r["state"].items():
            s.update(IDENT.findall(v.replace(k, "")))
        for ops in r["coll"].values():
            for op in ops:
                for z in op[1:]:
                    if isinstance(z, str):
                        s.update(IDENT.findall(z))
                    elif isinstance(z, list):
                        for u in z:
                            if isinstance(u, dict) and d < 5:
                                s |= in_use(u, d + 1)
        for k in r["coll"]:
            s.update(IDENT.findall(k))
    t["_use"] = s
    return s


def bits(t, d=0):
    """(what, mask) of all the flags that are looked at"""
    if "_bits" in t:
        return t["_bits"]
    s = set()
    for r in t["rows"]:
        for a in r["cond"]:
            m = BIT.match(a)
            if m:
                s.add((tuple(IDENT.findall(m[1])[-2:]), int(m[2])))
        for u in [u for tk in r["word"] for u in (tk[3] if len(tk) > 3 else [])] + list(r.get("clos") or []):
            if d < 5:
                s |= bits(u, d + 1)
    t["_bits"] = s
    return s


def unseen(a, new):
    """Whether nothing in the new table can stand for this test"""
    m = BIT.match(a)
    if m:
        w, k = tuple(IDENT.findall(m[1])[-2:]), int(m[2])
        near = [q for v, q in bits(new) if v == w]
        return bool(near) and not any(q & k for q in near)
    for part in PARTS.split(a):
        ids = [i for i in IDENT.findall(part) if i not in GENERIC]
        if ids and ids[-1] not in in_use(new):
            return True
    return False


def ignored(ref, new, c, R):
    """What used to decide, and is not looked at any more by a function that looks at nothing new instead"""
    out = []
    for a in sorted(ref["_atoms"] - new["_atoms"]):
        if not unseen(a, new):
            continue
        by = {}
        for r in R:
            if a in r["cond"] and isinstance(r["cond"][a], str) and r["end"] != "d":
                by.setdefault(r["cond"][a], []).append(r)
        if len(by) < 2:
            continue
        x, y = list(by.values())[:2]
        m = NUM.match(a)

        def without(r):
            return dict(r, cond={k: v for k, v in r["cond"].items() if k != a},
                        _num={k: v for k, v in r["_num"].items() if not m or k != m.group(1)})
        y = [without(r) for r in y[:400]]
        if any(compat(r, n) and c.row(r, n) for r in map(without, x[:400]) for n in y):
            out.append(a)
    if out and idents(new) - idents(ref) - known():
        return []
    return out


def loosen(s):
    return frozenset(x for x in ROOT.findall(s)) | frozenset(x for x in CAMEL.findall(s))


# other readings of a clock: never another spelling of the confirmed one
READINGS = {"elapsed", "elapsed_wrapped", "elapsed_secs", "elapsed_secs_f64", "elapsed_secs_wrapped", "delta", "delta_secs",
            "delta_secs_f64", "wrap_period", "startup", "first_update", "last_update", "relative_speed", "effective_speed",
            "remaining", "fraction", "fraction_remaining", "elapsed_f64", "overstep", "timestep"}


class Cmp:
    def __init__(self, ref, new):
        self.ref, self.new = prep(ref), prep(new)
        self.unk_new = self.new["_voc"] - self.ref["_voc"] - READINGS
        self.unk_ref = self.ref["_voc"] - self.new["_voc"] - READINGS

    def term(self, a, b):
        if a == b:
            return True
        if (self.unk_new and set(CALLN.findall(b)) & self.unk_new) or \
                (self.unk_ref and set(CALLN.findall(a)) & self.unk_ref):
            la, lb = loosen(a), loosen(b)
            return la == lb
        return False

    def tok(self, a, b):
        if a[1] != b[1] or not self.term(a[0], b[0]) or len(a[2]) != len(b[2]):
            return False
        if not all(self.term(x, y) for x, y in zip(a[2], b[2])):
            return False
        ca, cb = (a[3] if len(a) > 3 else []), (b[3] if len(b) > 3 else [])
        return self.clos(ca, cb) is None

    def clos(self, ca, cb):
        if len(ca) != len(cb):
            return [("closure", "count")]
        for x, y in zip(ca, cb):
            d = diff(x, y)
            if d:
                return sorted({f for e in d for f in e["facets"]})
        return None

    def word(self, wa, wb):
        """facets"""
        if len(wa) == len(wb) and all(self.tok(a, b) for a, b in zip(wa, wb)):
            return set()
        left = list(wb)
        miss = []
        for a in wa:
            for i, b in enumerate(left):
                if self.tok(a, b):
                    left.pop(i)
                    break
            else:
                miss.append(a)
        out = set()
        if not miss and not left:
            return {("order", "/".join(t[1] for t in wa))}
        for a in miss:
            same = [b for b in left if b[1] == a[1] and b[0] == a[0]]
            if same:
                b = same[0]
                left.remove(b)
                if len(a[2]) == len(b[2]) and all(self.term(x, y) for x, y in zip(a[2], b[2])):
                    sub = self.clos(a[3] if len(a) > 3 else [], b[3] if len(b) > 3 else [])
                    for f in sub or [("closure", a[1])]:
                        out.add(("in:" + a[1] + ":" + f[0], f[1]))
                else:
                    out.add(("args", a[1]))
                continue
            same = [b for b in left if b[1] == a[1]]
            if same:
                left.remove(same[0])
                out.add(("receiver", a[1]))
                continue
            out.add(("missing", a[1]))
            for cl in (a[3] if len(a) > 3 else []):
                for n in names_in(cl):
                    out.add(("missing-in", n))
        for b in left:
            out.add(("extra", b[1]))
        return out

    def coll(self, a, b):
        out = set()
        for recv in set(a) | set(b):
            x, y = a.get(recv, []), b.get(recv, [])
            if not x and not y:
                continue
            vx = {t[0] for t in self.collvoc(self.ref, recv)}
            vy = {t[0] for t in self.collvoc(self.new, recv)}
            if vx == vy:
                if len(x) == len(y) and all(self.collop(p, q) for p, q in zip(x, y)):
                    continue
                out.add(("coll", recv))
            else:
                cx, cy = {CLASS.get(v, v) for v in vx}, {CLASS.get(v, v) for v in vy}
                for p, q in (("add-back", "add-front"), ("take-front", "take-back"),
                             ("shift_remove", "swap_remove")):
                    if (p in cx and q in cy and q not in cx and p not in cy) or (
                            q in cx and p in cy and p not in cx and q not in cy):
                        out.add(("coll", recv))
                if "add-back" in cx and (REORDER & vy) - vx:
                    out.add(("coll", recv))  # a queue whose order something interferes with
                if (REMOVAL & vx and not REMOVAL & vy and vy and not self.replaced(self.new, recv)) or (
                        REMOVAL & vy and not REMOVAL & vx and vx and not self.replaced(self.ref, recv)):
                    out.add(("coll", recv))  # nothing (or now something) is taken out any more
                if not vy or not vx:
                    k = f"_gone_{recv}"
                    out.add(("coll", recv)) if not self.moved(recv) else None
        return out

    def collop(self, p, q):
        if p[0] != q[0] or len(p) != len(q):
            return False
        for s, t in zip(p[1:], q[1:]):
            if isinstance(s, str) and isinstance(t, str):
                if not self.term(s, t):
                    return False
            elif isinstance(s, str) or isinstance(t, str):
                return False
            elif self.clos(s, t):
                return False
        return True

    def moved(self, recv):
        """The receiver is still used under another spelling (e.g. taken as a whole)."""
        return any(recv in s for r in self.new["rows"] for s in list(r["state"]) + [t[0] for t in r["word"]] + [
            x for t in r["word"] for x in t[2]])

    def replaced(self, t, recv):
        """It is assigned, or handed as a whole to something"""
        return any(recv in r["state"] or any(recv in x for w in r["word"] for x in w[2]) or
                   any(recv in str(x) for q, ops in r["coll"].items() if q != recv for x in ops) for r in t["rows"])

    def collvoc(self, t, recv):
        out = []
        for r in t["rows"]:
            out.extend(tuple(x[:1]) for x in r["coll"].get(recv, []))
        return out

    def decided(self, x, y, r, n):
        """Both values are what the conditions of the two rows already say they are"""
        def val(v):
            neg = False
            while isinstance(v, str) and v.startswith("Not(") and v.endswith(")"):
                v, neg = v[4:-1], not neg
            if v in ("0", "1"):
                return (v == "1") != neg
            m = re.fullmatch(r"\((.*) (Eq|Ne) ([^ ()]+)\)", v) if isinstance(v, str) else None
            if m:
                v, neg = f"{m.group(1)} = {m.group(3)}", neg != (m.group(2) == "Ne")
            for c in (r["cond"], n["cond"]):
                if c.get(v) in ("T", "F"):
                    return (c[v] == "T") != neg
            return None
        u = val(x)
        return u is not None and u == val(y)

    def state(self, r, n):
        a, b = r["state"], n["state"]
        out = set()
        for k in set(a) | set(b):
            x, y = a.get(k), b.get(k)
            if x is None or y is None:
                v = x if y is None else y
                if v in EMPTY and any(CLASS.get(o[0]) == "take-all" for o in (r if x is None else n)["coll"].get(k, [])):
                    continue  # emptied by replacing it, or by draining it
                if v == k:
                    continue
                if any(p != k and (part_of(p, k) or part_of(k, p)) for p in (b if y is None else a)):
                    # stored as part of / in parts of another object: compare only what both name
                    if self.by_parts(k, a, b):
                        continue
                out.add(("state", k))
            elif not self.term(x, y) and not self.decided(x, y, r, n):
                out.add(("state", k))
        return out

    def by_parts(self, k, a, b):
        return True

    def row(self, r, n):
        out = self.word(r["word"], n["word"])
        if r["end"] != n["end"]:
            out.add(("end", n["end"]))
        if r["end"] == "d" and n["end"] == "d":
            return out if ("missing", "PANIC") in out or any(f[0] != "order" for f in out) else set()
        out |= self.coll(r["coll"], n["coll"])
        out |= self.state(r, n)
        if not self.term(r["ret"], n["ret"]) and not self.decided(r["ret"], n["ret"], r, n):
            out.add(("ret", ""))
        elif r.get("clos") or n.get("clos"):
            sub = self.clos(r.get("clos") or [], n.get("clos") or [])
            for f in sub or []:
                out.add(("in:ret:" + f[0], f[1]))
        return out


def names_in(t, d=0):
    out = set()
    for r in t["rows"]:
        for tk in r["word"]:
            out.add(tk[1])
            for c in (tk[3] if len(tk) > 3 else []):
                if d < 3:
                    out |= names_in(c, d + 1)
    return out


def show(r):
    def lb(l):
        return l if isinstance(l, str) else "not " + "|".join(l[1])
    c = " & ".join(f"{a}={lb(l)}" for a, l in list(r["cond"].items())[:12]) or "always"
    w = " ; ".join(f"{t[0]}.{t[1]}" for t in r["word"]) or "nothing"
    return f"[{c}] -> {w}"[:700]


_self = {}


def ambiguous(ref):
    k = id(ref)
    if k not in _self:
        c = Cmp(ref, ref)
        rows = [r for r in ref["rows"] if r["end"] != "c"]
        bad = False
        if len(rows) < 600:
            for i, r in enumerate(rows):
                for n in rows[i + 1:]:
                    if compat(r, n) and c.row(r, n):
                        bad = True
                        break
                if bad:
                    break
        _self[k] = (bad, ref)
    return _self[k][0]


def equal(a, b):
    """Cheap syntactic equality of tables (row sets)."""
    ka = sorted(sig(r) for r in a["rows"])
    kb = sorted(sig(r) for r in b["rows"])
    return ka == kb


def sig(r):
    def lb(l):
        return l if isinstance(l, str) else "!" + "|".join(l[1])
    return repr((sorted((a, lb(norm(l))) for a, l in r["cond"].items()),
                 [[t[0], t[1], list(t[2])] + ([tabsig(c) for c in t[3]] if len(t) > 3 else []) for t in r["word"]],
                 sorted((k, [[y if isinstance(y, str) else [tabsig(z) for z in y] for y in x] for x in v])
                        for k, v in r["coll"].items()), sorted(r["state"].items()),
                 r["ret"], r["end"], [tabsig(c) for c in r.get("clos") or []]))


def tabsig(t):
    return sorted(sig(r) for r in t["rows"])


def cut(ref, new, c, R, N):
    """Loops that end earlier, or go on further, than they did: a path that stopped is held against the paths
    that were followed into another round, which must not do what it leaves out"""
    out = []
    for stop, on, was in ((N, [r for r in ref["rows"] if r["end"] == "c"], True),
                          (R, [r for r in new["rows"] if r["end"] == "c"], False)):
        other = [r for r in (new if was else ref)["rows"] if r["end"] == "c"]
        for r in on[:200]:
            if not r["word"] or any(compat(r, o) for o in other):
                continue
            worst = None
            for n in stop:
                if not compat(r, n):
                    continue
                f = c.word(r["word"], n["word"]) if was else c.word(n["word"], r["word"])
                f = {x for x in f if x[0] == ("missing" if was else "extra")}
                if not f or n["end"] == "d":
                    worst = None
                    break
                worst = (f, n)
            if worst:
                a, b = (r, worst[1]) if was else (worst[1], r)
                out.append({"facets": sorted(worst[0]), "now": show(b), "confirmed": show(a), "mode": "some"})
                break
    # a path that leaves a loop without asking for another element has to do what is done when there is one
    for n in N:
        if n["end"] != "r":
            continue
        for a, l in n["cond"].items():
            m = TURN.match(a)
            if not m or l != "Some":
                continue
            b = f"variant({m[1]}#{int(m[2] or 1) + 1})"
            if b in n["cond"] or b not in ref["_atoms"]:
                continue
            it, groups = f"{m[1]}#{int(m[2] or 1) + 1}", {}
            for r in ref["rows"]:
                if r["cond"].get(b) == "Some" and r["end"] != "d" and compat(r, n):
                    k = frozenset((x, y) for x, y in r["cond"].items() if it not in x)
                    groups.setdefault(k, []).append(r)
            worst = None
            for rows in groups.values():
                bad = None
                for r in rows:
                    f = {x for x in c.word(r["word"], n["word"]) if x[0] == "missing"}
                    if f:
                        bad = (f, r)
                        break
                if not bad:
                    worst = None
                    break
                worst = worst or bad
            if worst:
                out.append({"facets": sorted(worst[0]), "now": show(n), "confirmed": show(worst[1]), "mode": "some"})
                return out
    return out


def places(s):
    return set(ROOT.findall(s)) | {x for x in re.findall(r"[\w)>]+@\S+", s)}


def related(a, b):
    """May what these two ask have to do with each other?"""
    pa, pb = places(a), places(b)
    return any(x == y or x.startswith(y + ".") or y.startswith(x + ".") or "self" in (x, y) for x in pa for y in pb)


def guarded(ref, new, c, R, N):
    """What is done or not depending on a question that used to make no difference"""
    def unknown(a):
        m = NUM.match(a)
        return a not in ref["_atoms"] and not (m and m.group(1) in ref["_terms"])
    U = {a for a in new["_atoms"] if unknown(a)}
    if not U or len(R) > 400:
        return []
    for n in N[:300]:
        u = [a for a in n["cond"] if a in U]
        if not u or n["end"] == "d":
            continue
        near = [r for r in R if compat(r, n)]
        good, bad = [], []
        for r in near:
            f = c.row(r, n)
            (bad if f else good).append((f, r))
        if not good or not bad:
            continue  # the other comparisons see to that
        for f, r in bad:
            if r["end"] == "d" or any(compat(r, g) for _, g in good):
                continue
            asked = [a for a in r["cond"] if a not in n["cond"]]
            for m in N:
                flip = [a for a in u if a in m["cond"] and not lab_ok(m["cond"][a], n["cond"][a])]
                if not flip or not compat(r, m) or any(related(a, b) for a in flip for b in asked):
                    continue
                if all(lab_ok(m["cond"][a], l) for a, l in n["cond"].items() if a in m["cond"] and a not in U) and not c.row(r, m):
                    return [{"facets": sorted(f), "now": show(n), "confirmed": show(r), "mode": "guard"}]
    return []


LIMIT = re.compile(r"limit<([^<>]*)>@")
TURN = re.compile(r"^variant\((next@.*?)(?:#(\d+))?\)$", re.S)


ODD = re.compile(r" (?:Rem|BitAnd|Div|Shr) \d")


def threshold(a, ref):
    """A number is compared with a literal that means nothing to the confirmed table"""
    m = NUM.match(a)
    if not m or a in ref["_atoms"] or m.group(1) in ref["_terms"]:
        return False
    k = int(m.group(3)) + (m.group(2) == ">")
    return k > 2 or k == 2 and m.group(2) == "=" or bool(ODD.search(m.group(1)))


def by_number(ref, new, c, R, N):
    """What such a comparison picks out is an arbitrary part of the cases: all of them have to agree"""
    for n in N:
        odd = [a for a in n["cond"] if threshold(a, ref)]
        if not odd:
            continue
        m = prep({"rows": [dict(n, cond={a: l for a, l in n["cond"].items() if a not in odd})]})
        if not covered(m, ref):
            continue
        for r in R:
            if compat(r, m["rows"][0]):
                f = c.row(r, n)
                if f:
                    yield {"facets": sorted(f), "now": show(n), "confirmed": show(r), "mode": "all"}
                    break


def mirrored(ref, new):
    """A comparison asked the other way round differs where both sides are the same: those rows on their own"""
    have = {a for r in ref["rows"] for a in r["cond"] if " < " in a}
    mine = {a for r in new["rows"] for a in r["cond"] if " < " in a}
    turned = {}
    for a in mine - have:
        for m in re.finditer(" < ", a):
            b = a[m.end():] + " < " + a[:m.start()]
            if b in have and b not in mine:
                turned[a] = b
    if not turned:
        return new
    rows = []
    for r in new["rows"]:
        todo = [dict(r["cond"])]
        for a, b in turned.items():
            if r["cond"].get(a) in ("T", "F"):
                outs = ("F",) if r["cond"][a] == "T" else ("T", "F")
                todo = [{b if k == a else k: o if k == a else l for k, l in t.items()} for t in todo for o in outs]
        rows += [dict(r, cond=t) for t in todo]
    return {k: v for k, v in dict(new, rows=rows).items() if not k.startswith("_")}


def diff(ref, new, limit=6):
    if equal(ref, new):
        return []
    new = mirrored(ref, new)
    prep(ref), prep(new)
    c = Cmp(ref, new)
    R = [r for r in ref["rows"] if r["end"] != "c"]
    N = [r for r in new["rows"] if r["end"] != "c"]
    out = []
    seen = "\n".join(x for r in ref["rows"] for x in row_terms(r))
    stops = {a for r in new["rows"] for x in row_terms(r) for a in LIMIT.findall(x)}
    stops = {"limit" for a in stops if not ROOT.search(a) or any(x not in seen for x in ROOT.findall(a))}
    if LIMIT.search(seen):
        stops = set()
    for a in sorted(DETOUR & new["_voc"] - ref["_voc"] | stops):
        out.append({"facets": [("order", a)], "now": f"goes through something by {a}", "confirmed": "as it is",
                    "mode": "all"})
    for a in ignored(ref, new, c, R):
        out.append({"facets": [("ignored", a)], "now": "decides without looking at it", "confirmed": a, "mode": "all"})
    late = moved_reads(ref, new)
    if late:
        out.append({"facets": [("when", a) for a in late], "now": "looked at on the other side of foreign code",
                    "confirmed": ", ".join(late)[:700], "mode": "all"})
    strict = covered(new, ref) and not ambiguous(ref)
    if strict:
        for n in N:
            hit = False
            for r in R:
                if compat(r, n):
                    hit = True
                    f = c.row(r, n)
                    if f:
                        out.append({"facets": sorted(f), "now": show(n), "confirmed": show(r), "mode": "all"})
                        if len(out) >= limit:
                            return out
        return out + cut(ref, new, c, R, N)
    out += cut(ref, new, c, R, N)
    out += guarded(ref, new, c, R, N)
    out += by_number(ref, new, c, R, N)
    for n in N:
        best = None
        for r in R:
            if compat(r, n):
                f = c.row(r, n)
                if not f:
                    best = None
                    break
                if best is None or len(f) < len(best[0]):
                    best = (f, r)
        else:
            if best is None:
                continue
        if best is not None:
            out.append({"facets": sorted(best[0]), "now": show(n), "confirmed": show(best[1]), "mode": "some"})
            if len(out) >= limit:
                return out
    for r in R:
        best = None
        for n in N:
            if compat(r, n):
                f = c.row(r, n)
                if not f:
                    best = None
                    break
                if best is None or len(f) < len(best[0]):
                    best = (f, n)
        if best is not None:
            out.append({"facets": sorted(best[0]), "now": show(best[1]), "confirmed": show(r), "mode": "some"})
            if len(out) >= limit:
                return out
    return out
