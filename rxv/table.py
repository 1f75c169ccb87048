"""Decision tables: the behaviour of one entry function in canonical terms.

Row = {cond: {atom: label}, word: [token...], coll: {recv: [token]}, state: {path: value}, ret, end}
Everything is named by object identity (receiver paths, positional arguments), never by local
variable, temporary, line or helper function.
"""
import re
from engine import *
from engine import strip, is_local, is_cell, resolve_complements
from models import ENDS, HEADS
from cfg import nested

# Private drain loops that every entry point of their type runs: analysed on their own, and visible
# as one step in the tables of their callers (any callee with nested loops is treated the same way).
BOUNDARY = {"calculate_output", "apply_notification_queue", "unsubscribe_by_id", "drain_scheduler_queue", "execute_invoked", "tick_scheduled"}
CROSS = {"rx_core_notification_store"}


class Boundary:
    def __init__(self, prog):
        self.nest = {k for k, f in prog.fns.items() if f.kind != "closure" and nested(f)}
        self.root = None

    def __call__(self, fn, info):
        if fn.key in self.nest or fn.name in BOUNDARY:
            return True
        if (fn.self_adt or "").endswith("multicast::Subscribers") and fn.name in ("apply", "clean"):
            return True
        return fn.crate in CROSS and self.root is not None and self.root.crate != fn.crate \
            and fn.kind != "closure" and fn.name not in ("deref", "new", "default")

    def is_step(self, e):
        k = (e.info or {}).get("res_key") or (e.info or {}).get("key")
        return (k in self.nest or e.name in BOUNDARY) or "multicast::Subscribers" in (e.info or {}).get("path", "") or (
            (e.info or {}).get("path", "").startswith(tuple(CROSS)) and e.name not in QUERIES)

WORD_TRAITS = {
    "RxObserver", "SubscriptionLike", "TeardownCollection", "Observable", "Scheduler",
    "UpgradeableObserver", "TeardownCollectionExtension", "SubjectLike", "Operator",
    "ComposableOperator", "ScheduledWork", "Connectable", "HigherOrderSubscriberProvider",
    "SchedulerScheduleWorkExtension", "SchedulerForTickingExecutor", "Provider", "FnCallback",
}
QUERIES = {"is_closed", "generate_cancellation_id", "generate_invoke_id", "is_empty", "len", "get_scheduler"}
QUERIES2 = {"is_empty", "len", "has_next", "count_nexts", "get_front", "is_completed", "is_finished"}
QUERIES |= {"has_next", "count_nexts", "get_front", "get_value"}
QUERIES2 |= {"get_value"}
COLL = {
    "push", "push_back", "push_front", "pop", "pop_front", "pop_back", "insert", "remove", "shift_remove",
    "swap_remove", "retain", "drain", "clear", "extend", "truncate", "append", "get_or_insert_default",
    "entry", "take", "try_remove", "vacant_entry", "drain_all", "rotate_left", "reverse", "shift_remove_index",
    "rotate_right", "sort", "sort_by", "sort_by_key", "sort_unstable", "sort_unstable_by", "sort_unstable_by_key",
    "swap_remove_back", "swap_remove_front", "split_off", "dedup", "swap", "enqueue", "dequeue", "reset",
    "tick", "set_elapsed", "pause", "unpause", "set_duration", "set_mode",
}


# what the ECS side of the system does to the world
BEVY = {
    "add_plugins", "add_systems", "init_resource", "insert_resource", "remove_resource", "trigger", "trigger_targets",
    "queue", "queue_handled", "queue_silenced", "spawn", "spawn_empty", "spawn_batch", "insert", "try_insert", "remove",
    "try_remove", "despawn", "try_despawn", "resource_scope", "observe", "add_observer", "insert_if_new",
    "try_insert_if_new", "remove_with_requires", "send", "write", "write_message", "send_event", "flush", "run_system",
    "clear", "retain", "insert_batch", "despawn_related", "remove_by_id",
}
# handles to the world: which one is used, not how often it was asked for
HANDLES = {"commands", "commands_mut", "entity", "reborrow", "id", "event", "event_mut", "deferred_world", "entity_mut",
           "as_deferred", "into_deferred", "world", "world_mut"}


class Canon:
    """Canonical rendering of terms for one path."""

    def __init__(self, fn, calls, capnames=None, eng=None):
        self.fn = fn
        self.calls = calls  # id -> stable name
        self.closures = []
        self.vers = {}
        self.epochs = True
        self.eng = eng
        self.caps = {}
        self.args = {}
        names = arg_names(fn)
        off = 1 if fn.kind == "closure" else 0
        for i, n in names.items():
            if n == "self":
                self.args[n] = "self"
            else:
                self.args[n] = f"${i - off}"
        for i in range(1, fn.argc + 1):
            self.args.setdefault(f"arg{i}", f"${i - off}")

    def root(self, r):
        if isinstance(r, tuple):
            if r[0] == "D":
                return self.t(r[1])
            if r[0] == "L":
                return "local"
            if r[0] == "T":
                if ":" in str(r[1]):
                    return "cell<" + r[1].split(":", 1)[1] + ">"
                return "new" + re.sub(r"\d+", "", str(r[1]))
        return self.args.get(r, str(r))

    def path(self, p):
        if p[0] == ENV and len(p) > 1:
            # what the closure took along is known by what it was then
            return self.within(self.t(self.caps.get(p[1][1:], ("arg", 0, "cap" + p[1]))), p[2:])
        return self.within(self.root(p[0]), p[1:])

    def within(self, base, ps):
        ps = tuple(ps)
        while ps:
            if ps[0] != "*":
                f = field_of(base, ps[0][1:]) if ps[0][0] == "." else None
                if f is None:
                    break
                base = f
            ps = ps[1:]
        return base + self.steps(ps)

    def steps(self, ps):
        s = ""
        for x in ps:
            if x == "*":
                continue
            if x.startswith("<lock"):
                s += ".lock" + (x[x.index("~"):-1] if "~" in x and self.epochs else "")
            elif x[0] == "~":
                s += x if self.epochs else ""
            else:
                s += x
        return s

    def t(self, v, d=0):
        if v is None:
            return "?"
        if d > 14:
            return "..."
        k = v[0]
        d += 1
        if k in ("clone",):
            return self.t(v[1], d)
        if k == "const":
            return str(v[1]).replace("false", "0").replace("true", "1") if not isinstance(v[1], str) or len(v[1]) < 60 else "const"
        if k == "arg":
            return self.args.get(v[2], v[2])
        if k == "init":
            return self.path(v[1])
        if k == "ptr":
            return self.path(v[1])
        if k == "box":
            inner = self.boxed.get(v[1]) if hasattr(self, "boxed") else None
            if inner is not None:
                return self.t(inner, d)
            return "new"
        if k == "agg":
            nm = v[1].split("::")[-1]
            if nm == "PhantomData":
                return "_"
            if v[2] and v[2] != nm:
                nm = f"{nm}::{v[2]}"
            if not v[3]:
                return nm
            if nm in ("Mutex", "RwLock", "Atomic"):
                return self.t(v[3][0][1], d)
            return nm + "{" + ",".join(f"{f}:{self.t(x, d)}" for f, x in sorted(v[3])
                                       if not (x[0] == "agg" and x[1].endswith("PhantomData"))) + "}"
        if k == "closure":
            self.closures.append(v)
            return "λ"
        if k == "call":
            return self.calls.get(v[1], v[2])
        if k == "proj":
            return self.within(self.t(v[1], d), v[2])
        if k == "bits":
            return f"({self.t(v[1], d)} & {v[2]} | {v[3]})"
        if k == "op" and v[1] == "bit":
            return f"{self.t(v[2], d)} has bit {v[3][1]}"
        if k == "op" and v[3][0] == "const" and v[3][2] == "ver":
            return f"{v[1]}({self.version(v, d)})"
        if k == "op":
            a, b = self.t(v[2], d), self.t(v[3], d)
            if v[1] in ("Add", "Mul", "BitAnd", "BitOr", "Eq", "Ne", "BitXor") and a > b:
                a, b = b, a
            o = v[1]
            return f"({a} {o} {b})"
        if k == "un":
            if v[1] in ("into",):
                return self.t(v[2], d)
            return f"{v[1]}({self.t(v[2], d)})"
        if k == "discr":
            return f"variant({self.t(v[1], d)})"
        if k == "guard":
            return self.path(v[1]) + ".lock"
        if k == "fn":
            return "fn:" + v[2].split("::")[-1]
        if k == "snap":
            return self.t(v[1], d) + "+" + ";".join(f"{self.path(('',) + p)}={self.t(x, d)}" for p, x in v[2]
                                                    if not any(q.startswith("<lock") for q in p))
        if k == "iter":
            return self.t(v[1], d)
        if k in ("list", "lit"):
            return "[" + ",".join(self.t(x, d) for x in v[1]) + "]"
        if k == "ctr":
            return f"counter+{v[1]}" if v[1] else "counter"
        if k == "adapt":
            self.t(v[3], d)
            return f"{v[1]}({self.t(v[2], d)})"
        return k

    # ---- atoms
    def atom(self, c, lab):
        """(canonical atom, canonical label)."""
        if c[0] == "op" and c[1] == "Eq" and isinstance(lab, bool):
            for a, b in ((c[2], c[3]), (c[3], c[2])):
                if a[0] == "agg" and a[2] and not a[3] and b[0] != "agg":
                    return f"variant({self.t(b)})", a[2] if lab else ("!", (a[2],))
        if c[0] == "op" and c[1] in ("Eq", "Lt"):
            a, b = linear(c[2]), linear(c[3])
            if a and b:
                # move constants to one side
                (ta, ka), (tb, kb) = a, b
                if ta is None and tb is not None:
                    # const ? term
                    k = ka - kb
                    t = self.t(tb)
                    if c[1] == "Eq":
                        return f"{t} = {k}", lab
                    # k < t
                    if ka == 0 and kb < 0 and unsigned(c):
                        return f"{t} = {k}", not lab  # t - n > 0, where t >= n
                    return (f"{t} = 0", not lab) if k == 0 and unsigned(c) else (f"{t} > {k}", lab)
                if tb is None and ta is not None:
                    k = kb - ka
                    t = self.t(ta)
                    if c[1] == "Eq":
                        return f"{t} = {k}", lab
                    # t < k  <=> !(t > k-1)
                    if kb == 1 and ka < 0 and unsigned(c):
                        return f"{t} = {k - 1}", lab
                    return (f"{t} = 0", lab) if k == 1 and unsigned(c) else (f"{t} > {k - 1}", not lab)
                if ta is not None and tb is not None:
                    s, u = self.t(ta), self.t(tb)
                    k = kb - ka
                    if c[1] == "Eq":
                        if s > u:
                            s, u, k = u, s, -k
                        return f"{s} = {u}{k:+d}" if k else f"{s} = {u}", lab
                    # s + ka < u + kb
                    return f"{s} < {u}{k:+d}" if k else f"{s} < {u}", lab
        if c[0] == "op" and c[1] == "is_empty":
            return f"len({self.version(('op', 'len') + c[2:], 0)}) = 0", lab
        return self.t(c), lab

    def version(self, v, d):
        """The collection a query is about; primed once it was written since the first query"""
        a = self.t(v[2], d)
        if v[3][0] != "const" or v[3][2] != "ver":
            return a
        seen = self.vers.setdefault((v[1], a), [])
        if v[3][1] not in seen:
            seen.append(v[3][1])
        return a + "'" * seen.index(v[3][1])


def unsigned(c):
    for x in (c[2], c[3]):
        if x[0] == "const" and str(x[2]).startswith(("u", "usize")):
            return True
    return False


def linear(v):
    """term + constant"""
    if v[0] == "const" and isinstance(v[1], int) and v[2] != "bool":
        return (None, v[1])
    k = 0
    while v[0] == "op" and v[1] in ("Add", "Sub"):
        if v[3][0] == "const" and isinstance(v[3][1], int):
            k += v[3][1] if v[1] == "Add" else -v[3][1]
            v = v[2]
        elif v[1] == "Add" and v[2][0] == "const" and isinstance(v[2][1], int):
            k += v[2][1]
            v = v[3]
        else:
            break
    return (v, k)


def tname(e):
    return (e.trait or "").split("::")[-1]


def in_word(e):
    if e.k != "call":
        return False
    if tname(e) in WORD_TRAITS:
        return e.name not in QUERIES
    if e.name in BEVY and (e.info or {}).get("path", "").startswith(("bevy_ecs", "bevy_app")):
        return True
    return False


class Tabler:
    def __init__(self, prog, opaque=None, max_paths=20000, max_visits=2, words=None, **opts):
        self.p = prog
        self.opts = opts
        if opaque is None:
            opaque = Boundary(prog)
        self.boundary = opaque
        self.memo = {}
        self.stack = []
        self.eng = Engine(prog, opaque=opaque, max_paths=max_paths, max_visits=max_visits)
        for k, v in opts.items():
            setattr(self.eng, k, v)
        self.in_word = words or in_word
        self.eng.signals = lambda e: e.name in SIGNALS and self.in_word(e) or e.name in BOUNDARY or (
            isinstance(self.boundary, Boundary) and self.boundary.is_step(e))
        self.held, self.together, self.apart, self.nest_locks = set(), set(), set(), set()

    def table(self, fn, caps=None, depth=0):
        if depth == 0 and isinstance(self.boundary, Boundary):
            self.boundary.root = fn
        self.held, self.together, self.apart, self.nest_locks = set(), set(), set(), set()
        paths = self.eng.analyse(fn, caps=caps)
        inl = set(self.eng.inlined)
        rows = []
        seen = set()
        for p in paths:
            for r in self.row(fn, p, depth, caps) or []:
                sig = repr((sorted(r["cond"].items()), r["word"], sorted(r["coll"].items()), sorted(r["state"].items()), r["ret"], r["end"]))
                if sig in seen:
                    continue
                seen.add(sig)
                rows.append(r)
        rows = reduce_rows(rows)
        t = {"fn": ident(fn), "rows": rows, "inlined": len(inl), "paths": len(paths), "file": fn.file}
        if depth == 0 and self.nest_locks:
            t["nest"] = sorted(x for x in self.nest_locks if x[0] != "local")
        if depth == 0 and (self.together or self.apart):
            t["cs"] = {"together": sorted(self.together), "apart": sorted(self.apart)}
        if depth == 0 and self.held:
            t["held"] = sorted(map(list, self.held))
        return t

    def row(self, fn, p, depth, caps=None):
        calls = {}
        counts = {}
        c = Canon(fn, calls, eng=self.eng)
        c.caps = caps or {}
        c.boxed = boxed(p)
        cond, word, coll, state = {}, [], {}, {}
        foreign, own = 0, []
        cs = Sections()
        closures = []
        infeasible = False
        for e in p.events:
            if e.k == "call":
                recv = e.recv_path and self.recv(c, e)
                cs.read(recv or "")
                if e.held and recv and e.trait:
                    # a wrapper that locks what it wraps
                    k = (e.info or {}).get("res_key") or (e.info or {}).get("key")
                    f = self.p.fns.get(k)
                    if f is not None and "Mutex<" in (f.d.get("self_ty") or {}).get("s", "")[:40]:
                        self.nest_locks.update((GENERATION.sub("", lock_name(c, h)), GENERATION.sub("", recv)) for h in e.held)
                nm = f"{e.name}@{recv}"
                if e.name in ENDS and re.search(r"VecDeque|Vec::|\[T\]", (e.info or {}).get("path", "")):
                    nm = f"{'head' if e.name in HEADS else 'tail'}@{recv}" + (f"~{len(coll[recv])}" if coll.get(recv) else "")
                    end = True
                else:
                    end = False
                path = (e.info or {}).get("path", "")
                limit = e.name == "take" and "Iterator" in path and len(e.args) > 1
                if e.held and (e.name in FOREIGN and self.in_word(e) or e.name in BOUNDARY):
                    for h in e.held:
                        self.held.add((lock_name(c, h), e.name, "own" if (e.recv_path or "").startswith(h + ".lock") else "other"))
                w = self.in_word(e) or (isinstance(self.boundary, Boundary) and self.boundary.is_step(e))
                if end:
                    pass
                elif limit:
                    nm = f"limit<{c.t(e.args[1])}>@{recv}"
                elif e.name in ("is_closed",):
                    nm = f"{recv}.is_closed?{foreign}"
                elif e.name in QUERIES2 and not w:
                    nm = f"{recv}.{e.name}?{len(word)}"
                elif e.name in HANDLES and (e.info or {}).get("path", "").startswith("bevy_"):
                    if e.name in ("reborrow", "event", "event_mut"):
                        nm = recv
                    else:
                        nm += args_of(c, e)
                else:
                    if not w and (len(e.args) > 1 or e.name in TYPED) and e.name not in COLL:
                        nm += args_of(c, e)
                    if (e.info or {}).get("path", "").startswith("bevy_time::") and coll.get(recv):
                        # what a clock says after it was moved
                        nm += f"~{len(coll[recv])}"
                    elif not (e.info or {}).get("path", "").startswith("bevy_time::"):
                        counts[nm] = counts.get(nm, 0) + 1
                    if counts.get(nm, 0) > 1:
                        nm += f"#{counts[nm]}"
                if e.id is not None:
                    calls[e.id] = nm
                pth = (e.info or {}).get("path", "")
                if pth.startswith("slab::"):
                    # a slot of a slab, however it was obtained
                    if e.name == "vacant_entry":
                        calls[e.id] = recv
                        continue
                    n = len([1 for x in coll.get(recv, []) if x[0] == "insert"])
                    slot = f"slot@{recv}" + (f"#{n + 1}" if n else "")
                    if e.name in ("key", "vacant_key"):
                        calls[e.id] = slot
                        continue
                    if e.name == "insert" and e.id is not None:
                        calls[e.id] = slot
                if limit:
                    pass
                elif w or e.name in COLL and not std_local(e):
                    c.closures = []
                    args = [] if e.name in BOUNDARY else type_args(e) + [c.t(a) for a in e.args[1:]]
                    tok = [recv, e.name, args]
                    if c.closures:
                        tok.append([self.closure(c, x, depth) for x in c.closures])
                    elif e.recv is not None:
                        pass
                    cs.write(recv)
                    if w:
                        if e.name in FLUENT and "Commands" in (e.info or {}).get("path", "") and e.id is not None:
                            calls[e.id] = recv
                        word.append(tok)
                        if (e.info or {}).get("path", "").startswith(tuple(CROSS)):
                            own.append(len(word) - 1)
                        else:
                            foreign += 1
                    else:
                        coll.setdefault(recv, []).append([e.name] + args + tok[3:])
                elif e.id is not None and not w:
                    # constructors taking closures (works, teardowns): remember the closure in the name
                    c.closures = []
                    args = [c.t(a) for a in e.args]
                    if c.closures or e.name in ("new",):
                        calls[e.id] = f"{(e.info or {}).get('path', e.name).split('::')[-2:][0].split('<')[0]}::{e.name}({','.join(args)})"
                        for x in c.closures:
                            closures.append(x)
                            own.append(len(word))
                            word.append(["λ", calls[e.id], [], [self.closure(c, x, depth)]])
            elif e.k == "branch":
                lab = e.info
                if e.recv[0] == "poisoned":
                    a = f"poisoned {c.path(e.recv[1])}?{len(word)}"
                elif e.recv[0] == "trylock":
                    a = f"try_lock {nlock(c, e.recv[1])}?{len(word)}"
                else:
                    a, lab = c.atom(e.recv, lab)
                if isinstance(lab, tuple):
                    lab = ("!",) + tuple(map(str, lab[1]))
                    lab = (lab[0], lab[1:])
                lab = lab if not isinstance(lab, bool) else ("T" if lab else "F")
                if cond.get(a, lab) != lab and isinstance(cond[a], str) and isinstance(lab, str):
                    infeasible = True  # two spellings of one condition decided differently
                cond[a] = lab
            elif e.k == "look":
                cs.read(c.path(e.recv))
            elif e.k == "update":
                pth = c.path(e.recv)
                getattr(cs, e.info).add((pth, "atomic " + pth, pth))
            elif e.k == "lock":
                l = lock_name(c, e.name)
                cs.enter(l)
                if e.info != "try_lock" and l != "local":
                    self.nest_locks.update((GENERATION.sub("", lock_name(c, h)), GENERATION.sub("", l)) for h in e.held)
            elif e.k == "store":
                if outlives(e.recv):
                    pth = c.path(e.recv)
                    cs.write(pth)
                    # a store to a prefix supersedes
                    for q in [q for q in state if q.startswith(pth) and q != pth and q[len(pth)] in ".@"]:
                        del state[q]
                    c.closures = []
                    state[pth] = c.t(e.res)
                    state.pop("", None)
            elif e.k == "panic":
                word.append(["", "PANIC", []])
            elif e.k == "drop" and getattr(self, "drops", False):
                pass
        if infeasible:
            return None
        self.together |= cs.together
        self.apart |= cs.apart
        if p.end == "diverge" and not (word and word[-1][1] == "PANIC"):
            word.append(["", "PANIC", []])
        c.closures = []
        ret = c.t(p.ret) if p.end == "ret" and p.ret is not None else ""
        if fn.locals[0].get("s") == "()":
            ret = ""
        clos = [self.closure(c, x, depth) for x in c.closures] if ret else []
        # writing back what is known to be there already changes nothing
        for k, v in list(state.items()):
            if v == k or (cond.get(k), v) in (("T", "1"), ("F", "0")) or \
                    v == "Option::None" and cond.get(f"variant({k})") == "None":
                del state[k]
        row = {"cond": cond, "word": word, "coll": coll, "state": state, "ret": ret, "end": p.end[0], "clos": clos, "own": own}
        if fn.locals[0].get("s") == "bool" and p.end == "ret" and p.ret is not None and p.ret[0] != "const":
            # an answer: one row for yes, one for no
            v, yes = p.ret, True
            while v[0] == "un" and v[1] == "Not":
                v, yes = v[2], not yes
            if v[0] == "op" and v[1] in ("BitAnd", "BitOr", "BitXor"):
                return [row]
            out = []
            for lab in (True, False):
                a, l = c.atom(v, lab)
                l = "T" if l else "F"
                if cond.get(a, l) == l:
                    out.append({**row, "cond": {**cond, a: l}, "ret": "1" if lab == yes else "0"})
            return out
        return [row]

    def recv(self, c, e):
        v = e.recv
        if v is None:
            return ""
        st = None
        # receivers that are references to locals: use the recorded resolved argument
        if e.args and e.raw and v is e.raw[0]:
            v = e.args[0]
        # who is called does not depend on when it was looked up
        c.epochs = False
        r = c.t(v)
        c.epochs = True
        return r

    def join(self, x):
        """What a closure does under locks counts for the function that makes it"""
        for mine, its in zip((self.held, self.together, self.apart, self.nest_locks), x):
            mine |= its

    def closure(self, c, cv, depth):
        fn = self.p.fns.get(cv[1])
        if fn is None or depth > 3:
            return {"fn": "λ", "rows": []}
        if fn.key in self.stack:
            return {"fn": "λ", "rows": [], "rec": True}
        caps = {}
        held = dict(cv[3]) if len(cv) > 3 else {}
        changed = held and borrowed_state(fn)
        saved = c.closures
        for nm, v in cv[2]:
            if v[0] == "box" and ":" in str(v[1][0][1]):
                v = ("arg", 0, c.path(v[1]))  # a cell both share
            if nm in held and nm not in changed:
                v = ("arg", 0, c.t(held[nm]))
            caps[nm] = ("arg", 0, c.t(v)) if v[0] not in ("const", "closure") else v
        kept = kept_state(fn)
        for nm in fn.caps:
            # what a closure changes of what it took along is anything when it runs again
            if nm in kept and nm in caps and caps[nm][0] == "const":
                k = f"kept:{c.t(caps[nm])}"
                n = sum(1 for v in caps.values() if v[0] == "arg" and v[2].split("#")[0] == k)
                caps[nm] = ("arg", 0, k + (f"#{n + 1}" if n else ""))
        c.closures = saved
        mk = (fn.key, tuple(sorted(caps.items())), tuple(self.stack))
        if mk in self.memo:
            r, x = self.memo[mk]
            self.join(x)
            return r
        eng = self.eng
        sub = Tabler(self.p, opaque=eng.opaque, max_paths=eng.max_paths, max_visits=eng.max_visits,
                     words=self.in_word, **self.opts)
        sub.memo = self.memo
        sub.stack = self.stack + [fn.key]
        r = sub.table(fn, caps=caps, depth=depth + 1)
        x = (sub.held, sub.together, sub.apart, sub.nest_locks)
        self.memo[mk] = (r, x)
        self.join(x)
        return r


def borrowed_state(fn):
    """The variables a closure changes where they are"""
    out = set()
    n = 1 if fn.locals[1].get("refs") else 0

    def written(p):
        if p[0] == 1 and len(p[1]) > n + 1 and list(p[1][:n]) == ["*"] * n and p[1][n + 1] == "*":
            out.add(p[1][n][1:])

    for b in fn.blocks:
        for s in b["s"]:
            if s[0] == "=":
                written(s[1])
                if s[2].get("k") == "ref" and s[2].get("m"):
                    written(s[2]["p"])
        if b["t"].get("d"):
            written(b["t"]["d"])
    return out


def field_of(base, step):
    """`X{f:v}.f` is v"""
    m = re.match(r"[\w:]+\{", base)
    if not m or not base.endswith("}"):
        return None
    depth, start = 0, m.end()
    for i in range(start, len(base)):
        ch = base[i]
        if ch in "{([":
            depth += 1
        elif ch in "})]":
            depth -= 1
            if depth < 0 and i != len(base) - 1:
                return None
        if depth < 0 or ch == "," and depth == 0:
            part = base[start:i]
            if part.startswith(step + ":"):
                return part[len(step) + 1:]
            start = i + 1
    return None


def kept_state(fn):
    """The variables a closure that runs more than once took along and changes"""
    out = set()
    if not fn.locals[1].get("refs"):
        return out

    def written(p):
        if p[0] == 1 and len(p[1]) > 1 and p[1][0] == "*" and "*" not in p[1][1:]:
            out.add(p[1][1][1:])

    for b in fn.blocks:
        for s in b["s"]:
            if s[0] == "=":
                written(s[1])
                if s[2].get("k") == "ref" and s[2].get("m"):
                    written(s[2]["p"])
        if b["t"].get("d"):
            written(b["t"]["d"])
    return out


# code of other objects, that may come back to this one
FOREIGN = {"next", "error", "complete", "callback", "subscribe", "unsubscribe", "upgrade", "operator_subscribe",
           "add_teardown", "add", "add_fn", "execute", "connect", "disconnect", "tick", "provide"}


# the ones that run such code whatever state they find
SIGNALS = {"next", "error", "complete", "callback", "subscribe", "unsubscribe", "execute", "connect", "disconnect", "tick"}


class Sections:
    """Which cells behind a lock are looked at and written in one critical section, and which in different ones"""
    def __init__(self):
        self.n, self.seen, self.together, self.apart = {}, {}, set(), set()

    def enter(self, lock):
        if lock != "local":
            self.n[lock] = self.n.get(lock, 0) + 1

    def cells(self, text):
        g = CONTENT.sub("", GENERATION.sub("", text))
        for lock, n in self.n.items():
            h = GENERATION.sub("", lock) + ".lock"
            if h + "." in g or g.endswith(h):
                yield lock, n, g

    def read(self, atom):
        for lock, n, g in self.cells(atom):
            self.seen.setdefault((lock, "look " + g), set()).add(n)

    def write(self, path):
        for lock, n, g in self.cells(path):
            for (l, cell), ns in self.seen.items():
                if l == lock and (n in ns or cell not in (g, "look " + g)):
                    (self.together if n in ns else self.apart).add((lock, cell, g))
                # what was read or written of a cell in an earlier section is stale here
                if l == lock and cell in (g, "look " + g) and ns - {n}:
                    self.apart.add((lock, cell, g))
            self.seen.setdefault((lock, g), set()).add(n)


GENERATION = re.compile(r"[~?#]\d+")
CONTENT = re.compile(r"(?:@(?:Some|Ok|Err|None)(?:\.\d+)*)+$")


def lock_name(c, h):
    m = re.match(r"(\w+)(.*)$", h, re.S)
    if not m or h.startswith(("snap(", "local", "Mutex{", "RwLock{")):
        return "local"
    root = m.group(1)
    if root == "self":
        return h
    if root in c.args:
        return c.args[root] + m.group(2)
    if h.startswith(("cap.", "$")):
        return h
    return "local"


def type_args(e):
    """Which component or resource: the type arguments an ECS call is made for"""
    if e.name not in TYPED or not (e.info or {}).get("path", "").startswith("bevy_"):
        return []
    out = []
    for x in (e.info or {}).get("targs") or []:
        a = (x.get("adt") or "").split("::")[-1]
        if a and not a.startswith(("World", "DeferredWorld", "Commands", "EntityCommands", "App", "Query")):
            out.append("<" + a + ">")
    return out


FLUENT = {"insert", "try_insert", "remove", "try_remove", "observe", "insert_if_new", "try_insert_if_new", "queue"}
TYPED = {"remove", "try_remove", "remove_resource", "init_resource", "get", "get_mut", "resource", "resource_mut",
         "get_resource", "get_resource_mut", "resource_scope", "is_resource_changed", "contains", "query"}


def args_of(c, e):
    saved = c.closures
    c.closures = []
    a = type_args(e) + [c.t(x) for x in e.args[1:]]
    c.closures = saved
    return "(" + ",".join(a) + ")" if a else ""


def reduce_rows(rows):
    groups = {}
    for r in rows:
        sig = repr((r["word"], sorted(r["coll"].items()), sorted(r["state"].items()), r["ret"], r["end"], r["clos"]))
        groups.setdefault(sig, []).append(r)
    out = []

    def drop(r, atom):
        r = dict(r)
        r["cond"] = {a: l for a, l in r["cond"].items() if a != atom}
        return r
    for g in groups.values():
        out.extend(resolve_complements(g, lambda r: r["cond"], drop) if len(g) > 1 else g)
    return out


def boxed(p):
    out = {}
    if p.mem:
        for k, v in p.mem.items():
            if len(k) == 1 and isinstance(k[0], tuple) and k[0][0] == "T":
                out[k] = v
    return out


def nlock(c, name):
    return name


def std_local(e):
    return False


def ident(fn):
    if fn.kind == "closure":
        return "λ"
    adt = (fn.self_adt or (fn.self_ty or {}).get("s") or "").split("::")[-1].split("<")[0]
    tr = (fn.trait or fn.in_trait or "").split("::")[-1].split("<")[0]
    return f"{fn.crate}|{adt}|{tr}|{fn.name}"


def fmt(tab, ind="  "):
    out = []
    for r in tab["rows"]:
        s = " & ".join(f"{a}={l if isinstance(l, str) else chr(33) + chr(124).join(l[1])}" for a, l in r["cond"].items()) or "always"
        w = " ; ".join(tok(t) for t in r["word"]) or "-"
        out.append(f"{ind}[{s}] => {w}" + (f" | ret {r['ret']}" if r["ret"] else "") +
                   (f" | state {r['state']}" if r["state"] else "") + (f" | coll {r['coll']}" if r["coll"] else "") +
                   (f" | end {r['end']}" if r["end"] != "r" else ""))
        for t in r["word"]:
            if len(t) > 3:
                for cl in t[3]:
                    out.append(fmt(cl, ind + "      λ "))
    return "\n".join(out)


def tok(t):
    return f"{t[0]}.{t[1]}({','.join(t[2])})"


if __name__ == "__main__":
    import sys
    P = Program("/verif/build/dump")
    T = Tabler(P)
    for f in P.fns.values():
        if f.crate.startswith(sys.argv[1]) or sys.argv[1] == "*":
            if len(sys.argv) > 2 and f.name not in sys.argv[2].split(","):
                continue
            if len(sys.argv) > 3 and sys.argv[3] not in (f.self_adt or ""):
                continue
            if f.kind == "closure" or (f.derived and not f.macro):
                continue
            try:
                t = T.table(f)
            except Incomplete as x:
                print("INC", ident(f))
                continue
            print("==", ident(f), len(t["rows"]))
            print(fmt(t))
