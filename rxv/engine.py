"""Path-sensitive abstract interpretation of drop-elaborated MIR dumps.

Nothing is executed and no solver is consulted: every function is walked
symbolically over its control-flow graph; values are terms, memory is a map
from access paths to terms, and branch outcomes are recorded as facts keyed on
the (structurally compared) branched term.  The result of analysing one entry
function is the set of its paths, each a list of *events* (calls on foreign
objects, stores to reachable memory, lock/unlock, drops, branches, return).
Workspace helpers and closures called directly are inlined, so extracting or
inlining a helper does not change the event lists.
"""
import glob
import json
import os
import sys

sys.setrecursionlimit(20000)

MAX_PATHS = int(os.environ.get("RXV_MAX_PATHS", "60000"))
MAX_DEPTH = 14
MAX_VISITS = 2  # visits of one block within one frame: loop bodies unroll once


class Incomplete(Exception):
    pass


class Fn:
    __slots__ = ("d", "key", "path", "crate", "blocks", "argc", "locals", "kind", "name",
                 "file", "line", "trait", "self_ty", "in_trait", "parent", "caps", "names",
                 "pub", "macro", "derived", "ctrs", "_delegates")

    def __init__(self, d, crate):
        self.d = d
        self.key = d["key"]
        self.path = d["path"]
        self.crate = crate
        self.kind = d["kind"]
        self.name = d.get("name")
        self.file = d["file"]
        self.line = d["line"]
        self.trait = d.get("trait")
        self.in_trait = d.get("in_trait")
        self.self_ty = d.get("self_ty")
        self.parent = d.get("parent")
        self.caps = d.get("caps") or []
        self.pub = d.get("pub", False)
        self.macro = d.get("macro", False)
        self.derived = d.get("derived", False)
        m = d["mir"]
        self.blocks = m["blocks"]
        self.argc = m["argc"]
        self.locals = m["locals"]
        self.names = m["names"]
        self.ctrs = None

    @property
    def self_adt(self):
        return (self.self_ty or {}).get("adt")

    def short(self):
        if self.kind == "closure":
            return self.key.split("::", 1)[-1]
        if self.self_ty:
            adt = (self.self_adt or self.self_ty["s"]).split("::")[-1].split("<")[0]
            if self.trait:
                return f"<{adt} as {self.trait.split('::')[-1]}>::{self.name}"
            return f"{adt}::{self.name}"
        if self.in_trait:
            return f"{self.in_trait.split('::')[-1]}::{self.name}"
        return self.path.split("::", 1)[-1]

    def __repr__(self):
        return f"<Fn {self.path}>"


class Program:
    def __init__(self, dump_dir, crates=None):
        self.fns = {}
        self.adts = {}
        self.impls = []
        self.crates = []
        for f in sorted(glob.glob(os.path.join(dump_dir, "*.json"))):
            name = os.path.basename(f)[:-5]
            if crates is not None and name not in crates:
                continue
            with open(f) as fh:
                d = json.load(fh)
            self.crates.append(d["crate"])
            for fd in d["fns"]:
                fn = Fn(fd, d["crate"])
                self.fns[fn.key] = fn
            for a in d["adts"]:
                a["crate"] = d["crate"]
                self.adts[a["path"]] = a
            for i in d["impls"]:
                i["crate"] = d["crate"]
                self.impls.append(i)
        self.by_impl = {}
        for fn in self.fns.values():
            if fn.trait:
                self.by_impl.setdefault((fn.trait, fn.name), []).append(fn)

        self.fn_consts, self._fn_ix = [], {}
        self.refs()
        self.alias()

    def refs(self):
        """Which functions are called, and which are handed around as values"""
        self.called, self.valued = set(), set()
        for fn in self.fns.values():
            for b in fn.blocks:
                t = b["t"]
                if t["k"] == "call":
                    if t["f"]["k"] == "fn":
                        self.called.add(t["f"]["f"].get("res_key") or t["f"]["f"]["key"])
                    for a in t["args"]:
                        self._val(a)
                for s in b["s"]:
                    if s[0] == "=":
                        for o in ("o", "a", "b"):
                            if isinstance(s[2].get(o), dict):
                                self._val(s[2][o])
                        for o in s[2].get("ops") or []:
                            self._val(o)

    def fn_const(self, o):
        """An index for a function used as a value"""
        k = json.dumps(o, sort_keys=True)
        if k not in self._fn_ix:
            self._fn_ix[k] = len(self.fn_consts)
            self.fn_consts.append(o)
        return self._fn_ix[k]

    def _val(self, o):
        if o.get("k") == "fn":
            self.valued.add(o["f"].get("res_key") or o["f"]["key"])

    def alias(self):
        """A private step function that was only renamed keeps its confirmed name"""
        f = os.path.join(os.path.dirname(os.path.abspath(__file__)), "boundary.json")
        if not os.path.exists(f):
            return
        with open(f) as fh:
            want = json.load(fh)
        have = {}
        for fn in self.fns.values():
            if fn.kind != "closure" and not fn.trait and fn.self_adt:
                have.setdefault((fn.crate, fn.self_adt.split("::")[-1]), []).append(fn)
        for crate, adt, name, sig, siblings in want:
            fns = have.get((crate, adt), [])
            if any(f.name == name for f in fns):
                continue
            c = [f for f in fns if signature(f) == sig and f.name not in siblings]
            if len(c) != 1:
                continue
            new, c[0].name = c[0].name, name
            for g in self.fns.values():
                for b in g.blocks:
                    t = b["t"]
                    if t["k"] == "call" and t["f"]["k"] == "fn" and (t["f"]["f"].get("res_key") or t["f"]["f"]["key"]) == c[0].key:
                        t["f"]["f"]["name"] = name

    def find(self, adt_suffix, name, trait=None):
        """Methods of an ADT (matched by last path segments)."""
        out = []
        for fn in self.fns.values():
            a = fn.self_adt
            if not a or fn.name != name:
                continue
            if not (a == adt_suffix or a.endswith("::" + adt_suffix)):
                continue
            if trait is not None and (fn.trait or "").split("::")[-1] != trait:
                continue
            out.append(fn)
        return out

    def impls_of(self, trait_last, method=None):
        out = []
        for (t, m), fns in self.by_impl.items():
            if t.split("::")[-1] == trait_last and (method is None or m == method):
                out.extend(fns)
        return sorted(out, key=lambda f: f.key)

    def methods(self, adt, name):
        if not hasattr(self, "_methods"):
            self._methods = {}
            for f in self.fns.values():
                if f.self_adt and f.trait and f.kind != "closure":
                    self._methods.setdefault((f.self_adt, f.name), []).append(f)
        return self._methods.get((adt, name), ())

    def closures_of(self, fn):
        return [f for f in self.fns.values() if f.parent == fn.key]


def delegates(fn, recv, info):
    """A newtype built here, whose implementation only forwards to the same method of its content"""
    if recv[0] != "agg" or recv[1] != fn.self_adt or len([1 for _, x in recv[3] if not (
            x[0] == "agg" and x[1].endswith("PhantomData"))]) != 1:
        return False
    if not hasattr(fn, "_delegates"):
        calls = [b["t"]["f"] for b in fn.blocks if b["t"]["k"] == "call" and not b.get("cleanup")]
        calls = [c["f"] for c in calls if c["k"] == "fn"] if all(c["k"] == "fn" for c in calls) else []
        fn._delegates = len(calls) == 1 and calls[0]["name"] == fn.name and (calls[0].get("trait") or "").split("::")[-1] == (fn.trait or "").split("<")[0].split("::")[-1]
    return fn._delegates


def signature(fn):
    return [fn.locals[i].get("s") for i in range(fn.argc + 1)]


# ---------------------------------------------------------------- values
# Terms are nested tuples.
#   ('const', v, ty)            ('arg', n, name)          ('init', path)
#   ('ptr', path)               ('agg', adt, variant, ((field, val)...))
#   ('closure', key, ((cap, val)...))                     ('call', id, label)
#   ('proj', val, (proj...))    ('op', o, a, b)   ('un', o, a)
#   ('discr', val)  ('clone', val)  ('guard', path, id, how)  ('fn', info)

def const(v, ty="bool"):
    return ("const", v, ty)


TRUE, FALSE = const(1), const(0)


def some(v):
    return ("agg", "std::option::Option", "Some", (("0", v),))


NONE = ("agg", "std::option::Option", "None", ())


def ok(v):
    return ("agg", "std::result::Result", "Ok", (("0", v),))


HANDLE_TYPES = (
    "std::sync::Arc",
    "std::sync::Weak",
    "SharedSubscriber",
    "SharedSubscription",
    "SchedulerHandle",
    "SharedSubscribers",
    "ConnectionHandle",
)


def is_handle(tyj):
    a = (tyj or {}).get("adt") or ""
    return any(a == h or a.endswith("::" + h) for h in HANDLE_TYPES)


# calls that only hand on a reference, and the libraries whose calls use what they are called on
REFERENCES = {"deref", "deref_mut", "as_ref", "as_mut", "borrow", "borrow_mut", "drop", "into", "from", "by_ref"}
USES = ("std::", "core::", "alloc::", "slab::", "smallvec::")


class Ev:
    __slots__ = ("k", "name", "trait", "recv", "args", "held", "line", "fn", "res", "info", "id",
                 "recv_path", "raw")

    def __init__(self, k, **kw):
        self.k = k
        self.name = self.trait = self.recv = self.res = self.info = self.id = None
        self.recv_path = None
        self.raw = None
        self.args = ()
        self.held = ()
        self.line = 0
        self.fn = None
        for a, b in kw.items():
            setattr(self, a, b)

    def __repr__(self):
        if self.k == "call":
            t = (self.trait or "").split("::")[-1]
            nm = f"{t}::{self.name}" if t else (self.info or {}).get("path", self.name)
            h = f" held={list(self.held)}" if self.held else ""
            return f"call#{self.id} {nm}({', '.join(render(a) for a in self.args)}){h}"
        if self.k == "branch":
            return f"branch {render(self.recv)} = {self.info}"
        if self.k == "store":
            return f"store {rpath(self.recv)} := {render(self.res)}"
        if self.k in ("lock", "unlock"):
            return f"{self.k} {self.name} {render(self.recv) if self.recv else ''}"
        if self.k == "drop":
            return f"drop {render(self.recv)}: {self.info}"
        if self.k == "ret":
            return f"ret {render(self.res)}"
        return f"{self.k} {self.info or ''}"


def rpath(p):
    root, rest = p[0], p[1:]
    r = render_root(root)
    s = r
    for x in rest:
        if x == "*":
            s += "*"
        else:
            s += x
    return s


def render_root(root):
    if isinstance(root, tuple):
        if root[0] == "L":
            return f"local{root[1]}_{root[2]}"
        if root[0] == "D":
            return render(root[1])
        if root[0] == "T":
            return f"tmp{root[1]}"
    return str(root)


def render(v, depth=0):
    if v is None:
        return "?"
    if depth > 8:
        return "…"
    k = v[0]
    d = depth + 1
    if k == "const":
        return str(v[1])
    if k == "arg":
        return v[2] or f"arg{v[1]}"
    if k == "init":
        return rpath(v[1])
    if k == "ptr":
        return "&" + rpath(v[1])
    if k == "agg":
        nm = v[1].split("::")[-1]
        if v[2] and v[2] != nm:
            nm = f"{nm}::{v[2]}"
        if not v[3]:
            return nm
        return nm + "{" + ", ".join(f"{f}:{render(x, d)}" for f, x in v[3]) + "}"
    if k == "closure":
        return "closure[" + v[1].split("::", 1)[-1][-60:] + "]"
    if k == "call":
        return f"#{v[1]}:{v[2]}"
    if k == "proj":
        return render(v[1], d) + "".join(v[2])
    if k == "op":
        return f"({render(v[2], d)} {v[1]} {render(v[3], d)})"
    if k == "un":
        return f"{v[1]}({render(v[2], d)})"
    if k == "bits":
        return f"({render(v[1], d)}&{v[2]}|{v[3]})"
    if k == "discr":
        return f"discr({render(v[1], d)})"
    if k == "clone":
        return f"clone({render(v[1], d)})"
    if k == "guard":
        return f"guard({rpath(v[1])})"
    if k == "fn":
        return "fn " + v[1]
    if k == "snap":
        return f"snap({render(v[1], d)}+{[(''.join(p), render(x, d)) for p, x in v[2]]})"
    if k == "iter":
        return f"iter({render(v[1], d)})"
    if k in ("list", "lit"):
        return f"{k}[" + ", ".join(render(x, d) for x in v[1]) + "]"
    if k == "ctr":
        return f"counter+{v[1]}"
    if k == "adapt":
        return f"{v[1]}({render(v[2], d)})"
    return str(v)


def strip(v):
    """Remove clones and references: which object is this?"""
    while True:
        if v[0] == "clone":
            v = v[1]
        elif v[0] == "ptr" and len(v[1]) == 1 and isinstance(v[1][0], tuple) and v[1][0][0] == "D":
            v = v[1][0][1]
        else:
            return v


class State:
    __slots__ = ("mem", "facts", "events", "held", "ncall", "visits", "tmp", "esc", "epoch")

    def __init__(self):
        self.mem = {}
        self.facts = {}
        self.events = []
        self.held = []  # list of (guard id, rendered lock path, how)
        self.ncall = 0
        self.tmp = 0
        self.epoch = 0  # how much foreign code has run: what others share may be different after it
        self.esc = frozenset()  # cells made here that foreign code has got hold of
        self.visits = {}

    def fork(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.events = list(self.events)
        s.held = list(self.held)
        s.ncall = self.ncall
        s.tmp = self.tmp
        s.epoch = self.epoch
        s.esc = self.esc
        s.visits = dict(self.visits)
        return s


class Path:
    __slots__ = ("events", "end", "ret", "facts", "mem")

    def __init__(self, events, end, ret, facts, mem=None):
        self.events = events
        self.end = end  # 'ret' | 'diverge' | 'cut'
        self.ret = ret
        self.facts = facts
        self.mem = mem

    def calls(self, name=None, trait=None):
        for e in self.events:
            if e.k == "call" and (name is None or e.name == name) and (
                    trait is None or (e.trait or "").split("::")[-1] == trait):
                yield e


class Frame:
    __slots__ = ("fn", "id", "subst")

    def __init__(self, fn, fid):
        self.fn = fn
        self.id = fid


PROTO_TRAITS = {
    "RxObserver", "SubscriptionLike", "TeardownCollection", "Observable", "Scheduler",
    "UpgradeableObserver", "TeardownCollectionExtension", "SubjectLike", "Operator",
    "ComposableOperator", "ScheduledWork", "Connectable", "HigherOrderSubscriberProvider",
    "SchedulerScheduleWorkExtension", "SchedulerForTickingExecutor", "Provider",
}


class Engine:
    def __init__(self, prog, opaque=None, inline_proto_on=None, max_paths=None, inline_extra=None,
                 record_stores=True, max_visits=MAX_VISITS, inline_foreign=True):
        self.p = prog
        self.consts = {}
        self.opaque = opaque or (lambda fn, info: False)
        self.inline_proto_on = inline_proto_on or delegates
        self.max_paths = max_paths or MAX_PATHS
        self.record_stores = record_stores
        self.max_visits = max_visits
        self.inlined = set()
        self.merging = True

    # ------------------------------------------------------------ entry
    def analyse(self, fn, caps=None, args=None):
        """All paths of `fn`.  `caps`: values for captured variables when fn is a closure."""
        self.nframes = 0
        self.npaths = 0
        self.inlined = set()
        self.root_fn = fn
        st = State()
        vals = []
        names = arg_names(fn)
        for i in range(1, fn.argc + 1):
            if args and i - 1 < len(args) and args[i - 1] is not None:
                vals.append(args[i - 1])
                continue
            nm = names.get(i)
            if i == 1 and fn.kind == "closure":
                cl = ("closure", fn.key, tuple((c, (caps or {}).get(c, ("arg", 0, "cap." + c))) for c in fn.caps))
                refs = fn.locals[1].get("refs", 0)
                if refs:
                    p = (ENV,)
                    st.mem[p] = cl
                    vals.append(("ptr", p))
                else:
                    vals.append(cl)
                continue
            tyj = fn.locals[i]
            if tyj.get("refs") or (tyj.get("adt") or "").startswith("bevy_ecs::") and \
                    tyj["adt"].split("::")[-1] in ("Mut", "ResMut", "NonSendMut"):
                vals.append(("ptr", (nm or f"arg{i}",)))
            else:
                vals.append(("arg", i, nm or f"arg{i}"))
        out = []
        for st2, rv, end in self.run(fn, vals, st, 0, ()):
            out.append(Path(st2.events + [Ev("ret", res=rv, fn=fn)] if end == "ret" else st2.events,
                            end, rv, st2.facts, st2.mem))
            self.npaths += 1
            if self.npaths > self.max_paths:
                raise Incomplete(f"more than {self.max_paths} paths in {fn.path}")
        return out

    # ------------------------------------------------------------ memory
    def load(self, st, path):
        mem = st.mem
        # exact or nearest prefix
        for n in range(len(path), 0, -1):
            pre = path[:n]
            if pre in mem:
                v = mem[pre]
                rest = path[n:]
                if rest and rest[0].startswith("<lock~"):
                    return self.with_overrides(st, path, ("init", path))
                v = self.project(st, v, rest) if rest else v
                if n == len(path):
                    v = self.with_overrides(st, path, v)
                return v
        v = ("init", path)
        root = path[0]
        if isinstance(root, tuple) and root[0] == "D":
            v = self.project(st, root[1], path[1:], deref=True) if len(path) > 1 else ("proj", root[1], ("*",))
            if v[0] == "proj" and len(path) > 1:
                v = ("proj", root[1], ("*",) + path[1:])
        return self.with_overrides(st, path, v)

    def with_overrides(self, st, path, v):
        n = len(path)
        # what lies behind a pointer is not part of the pointer's value
        ov = [(p[n:], x) for p, x in st.mem.items()
              if len(p) > n and p[:n] == path and "*" not in p[n:]]
        if not ov:
            return v
        if v[0] == "agg":
            fields = dict(v[3])
            done = True
            for p, x in ov:
                if len(p) == 1 and p[0].startswith(".") and p[0][1:] in fields:
                    fields[p[0][1:]] = x
                else:
                    done = False
            if done:
                return ("agg", v[1], v[2], tuple((f, fields[f]) for f, _ in v[3]))
        ov.sort(key=lambda t: (len(t[0]), t[0]))
        return ("snap", v, tuple(ov))

    def project(self, st, v, rest, deref=False):
        cur = v
        i = 0
        rest = tuple(rest)
        while i < len(rest):
            pr = rest[i]
            if cur[0] == "agg":
                if pr.startswith("@"):
                    i += 1
                    continue
                f = "data" if pr == "<lock>" and cur[1].startswith("lock::") else pr[1:]
                for nm, x in cur[3]:
                    if nm == f:
                        cur = x
                        break
                else:
                    return ("proj", cur, rest[i:])
                i += 1
            elif cur[0] == "const" and isinstance(cur[1], int) and pr == ".0":
                i += 1
            elif cur[0] == "closure" and pr.startswith("."):
                f = pr[1:]
                for nm, x in cur[2]:
                    if nm == f:
                        cur = x
                        break
                else:
                    return ("proj", cur, rest[i:])
                i += 1
            elif cur[0] == "snap":
                hit = None
                tail = rest[i:]
                for p, x in cur[2]:
                    if tail[:len(p)] == p:
                        if hit is None or len(p) > len(hit[0]):
                            hit = (p, x)
                if hit:
                    cur = hit[1]
                    i += len(hit[0])
                else:
                    # overrides strictly below tail
                    sub = tuple((p[len(tail):], x) for p, x in cur[2] if p[:len(tail)] == tail and len(p) > len(tail))
                    base = self.project(st, cur[1], tail)
                    return ("snap", base, sub) if sub else base
            elif cur[0] == "ptr" and pr == "*":
                return self.load(st, cur[1] + rest[i + 1:])
            elif cur[0] == "init":
                return ("init", cur[1] + rest[i:])
            elif cur[0] == "proj":
                return ("proj", cur[1], cur[2] + rest[i:])
            elif cur[0] == "clone":
                return ("clone", self.project(st, cur[1], rest[i:]))
            else:
                return ("proj", cur, rest[i:])
        return cur

    def store(self, st, path, v, fn=None, line=0):
        mem = st.mem
        n = len(path)
        same = self.record_stores and outlives(path) and self.load(st, path) == v
        kill = [p for p in mem if len(p) > n and p[:n] == path]
        for p in kill:
            del mem[p]
        mem[path] = v
        if self.record_stores and outlives(path) and not same:
            st.events.append(Ev("store", recv=path, res=v, fn=fn, line=line,
                                held=tuple(h[1] for h in st.held)))

    def place_path(self, st, fr, pl):
        path = (("L", fr.id, pl[0]),)
        for pr in pl[1]:
            if pr == "*":
                v = self.load(st, path)
                path = self.deref_path(st, v)
            elif pr.startswith("@"):
                path = path + (pr,)
            else:
                path = path + (pr,)
        return path

    def deref_path(self, st, v):
        if v[0] == "ptr":
            return v[1]
        if v[0] == "guard":
            return v[1] + (lock_step(v),)
        if v[0] == "box":
            return v[1]
        if v[0] == "init" and not is_local(v[1]):
            return v[1] + ("*",)
        return (("D", v),)

    def read(self, st, fr, pl):
        path = self.place_path(st, fr, pl)
        if st.held and any(isinstance(x, str) and x.startswith("<lock") for x in path):
            st.events.append(Ev("look", recv=path))
        return self.load(st, path)

    def operand(self, st, fr, o):
        k = o["k"]
        if k in ("copy", "move"):
            return self.read(st, fr, o["p"])
        if k == "fn":
            f = o["f"]
            return ("fn", f.get("res_key") or f["key"], f["path"], self.p.fn_const(o))
        if k == "const":
            if "v" in o:
                return ("const", o["v"], o["ty"])
            if "pb" in o and not o["ty"].endswith("str"):
                kf = Frame(fr.fn, -1 - self.consts.setdefault(o["t"], len(self.consts)))
                for pl, rv in o["pb"]:
                    st.mem[self.place_path(st, kf, pl)] = self.rvalue(kf, rv, st)
                return self.read(st, kf, [0, []])
            return ("const", o.get("t"), o["ty"])
        return ("const", None, "rt")

    # ------------------------------------------------------------ run
    def run(self, fn, argvals, st, depth, stack):
        """Generator of (state, return value, end)."""
        self.nframes += 1
        fid = self.nframes
        fr = Frame(fn, fid)
        for i, v in enumerate(argvals):
            st.mem[(("L", fid, i + 1),)] = v
        yield from self.block(fr, 0, st, depth, stack + (fn.key,))

    def block(self, fr, bb, st, depth, stack):
        fn = fr.fn
        work = [(bb, st)]
        while work:
            bb, st = work.pop()
            vk = (fr.id, bb)
            n = st.visits.get(vk, 0) + 1
            if n > self.max_visits:
                yield st, ("const", None, "cut"), "cut"
                continue
            st.visits[vk] = n
            b = fn.blocks[bb]
            for s in b["s"]:
                self.stmt(fr, s, st)
            t = b["t"]
            k = t["k"]
            if k == "goto":
                work.append((t["t"], st))
            elif k == "ret":
                rv = self.load(st, (("L", fr.id, 0),))
                self.cleanup(st, fr)
                yield st, rv, "ret"
            elif k == "switch":
                for tb, s2 in self.switch(fr, t, st):
                    work.append((tb, s2))
            elif k == "drop":
                for s2 in self.drop(fr, t, st, depth, stack):
                    work.append((t["t"], s2))
            elif k == "assert":
                work.append((t["t"], st))
            elif k == "call":
                for s2, end in self.call(fr, t, st, depth, stack):
                    if end == "ret":
                        if "t" in t:
                            work.append((t["t"], s2))
                        else:
                            yield s2, ("const", None, "!"), "diverge"
                    else:
                        yield s2, ("const", None, "!"), end
            elif k in ("unreach", "resume", "other"):
                yield st, ("const", None, "!"), "diverge"
            else:
                yield st, ("const", None, "!"), "diverge"

    def cleanup(self, st, fr):
        # forget the locals of the frame (pointers into it may survive only via bugs we ignore)
        pass

    def stmt(self, fr, s, st):
        if s[0] == "=":
            v = self.rvalue(fr, s[2], st)
            p = self.place_path(st, fr, s[1])
            if v[0] == "const" and isinstance(v[1], int) and not s[1][1] and s[1][0] in counters(fr.fn):
                v = ("ctr", 0)
            self.store(st, p, v, fr.fn, s[3])
        elif s[0] == "dead":
            root = ("L", fr.id, s[1])
            kill = [p for p in st.mem if p[0] == root]
            # keep memory: references may have been promoted; but fresh values per iteration
            for p in kill:
                del st.mem[p]

    def rvalue(self, fr, r, st):
        k = r["k"]
        if k == "use":
            return self.operand(st, fr, r["o"])
        if k == "ref":
            pl = r["p"]
            # &*x where x is an opaque pointer value: keep the value itself
            p = self.place_path(st, fr, pl)
            if len(p) == 1 and isinstance(p[0], tuple) and p[0][0] == "D":
                return p[0][1]
            return ("ptr", p)
        if k == "cast":
            v = self.operand(st, fr, r["o"])
            return v
        if k == "bin":
            a, b = self.operand(st, fr, r["a"]), self.operand(st, fr, r["b"])
            return self.binop(r["op"], a, b)
        if k == "un":
            v = self.operand(st, fr, r["o"])
            if r["op"] == "Not" and v[0] == "const" and v[2] == "bool":
                return const(0 if v[1] else 1)
            if r["op"] == "Not" and v[0] == "un" and v[1] == "Not":
                return v[2]
            return ("un", r["op"], v)
        if k == "discr":
            v = self.read(st, fr, r["p"])
            return self.discr(v, r.get("vars"))
        if k == "agg":
            ops = [self.operand(st, fr, o) for o in r["ops"]]
            if r["a"] == "adt":
                return ("agg", r["adt"], r["variant"], tuple(zip(r["fields"], ops)))
            if r["a"] == "closure":
                caps = tuple(zip(r["fields"], ops))
                # what a borrowed variable holds by now
                held = tuple((n, self.load(st, o[1])) for n, o in caps
                             if o[0] == "ptr" and o[1][0] != ENV and is_local(o[1]) and not is_cell(o[1]))
                return ("closure", r["closure"], caps, held)
            return ("agg", r["a"], None, tuple((str(i), o) for i, o in enumerate(ops)))
        if k == "repeat":
            return ("agg", "array", None, (("0", self.operand(st, fr, r["o"])),))
        return ("const", None, "other")

    CMP = {"Eq": lambda a, b: a == b, "Ne": lambda a, b: a != b, "Lt": lambda a, b: a < b,
           "Le": lambda a, b: a <= b, "Gt": lambda a, b: a > b, "Ge": lambda a, b: a >= b}

    def binop(self, op, a, b):
        r = bitop(op, a, b)
        if r is not None:
            return r
        r = counter_op(op, a, b)
        if r is not None:
            return r
        if a[0] == "const" and b[0] == "const" and isinstance(a[1], int) and isinstance(b[1], int):
            if op in self.CMP:
                return const(1 if self.CMP[op](a[1], b[1]) else 0)
            x = {"Add": a[1] + b[1], "Sub": a[1] - b[1], "Mul": a[1] * b[1]}.get(op)
            if x is not None:
                return ("const", x, a[2])
            if op in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
                y = {"A": a[1] + b[1], "S": a[1] - b[1], "M": a[1] * b[1]}[op[0]]
                return ("agg", "tuple", None, (("0", ("const", y, a[2])), ("1", FALSE)))
        if op in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
            return ("agg", "tuple", None, (("0", ("op", op[:3], a, b)), ("1", FALSE)))
        if op in ("Eq", "Ne") and a[0] == "agg" and b[0] == "agg" and a[2] and b[2] and a[1] == b[1] and not a[3] and not b[3]:
            return TRUE if (a[2] == b[2]) == (op == "Eq") else FALSE
        # canonical orientation for comparisons
        if op in ("Lt", "Gt"):
            z = b if op == "Lt" else a
            if z[0] == "const" and z[1] == 0 and str(z[2]).startswith("u"):
                return FALSE
        if op in ("Le", "Ge"):
            z = a if op == "Le" else b
            if z[0] == "const" and z[1] == 0 and str(z[2]).startswith("u"):
                return TRUE
        if op == "Gt":
            return ("op", "Lt", b, a)
        if op == "Ge":
            return ("op", "Le", b, a)
        if op in ("Eq", "Ne") and (repr(a) > repr(b)):
            a, b = b, a
        if op == "Ne":
            return ("un", "Not", ("op", "Eq", a, b))
        if op in ("BitAnd", "BitOr") and a[0] == "const" and a[2] == "bool":
            if op == "BitAnd":
                return b if a[1] else FALSE
            return TRUE if a[1] else b
        return ("op", op, a, b)

    def discr(self, v, vars_):
        if v[0] == "agg" and vars_:
            for d, nm in vars_:
                if nm == v[2]:
                    return ("const", int(d), "discr")
        names = tuple((d, nm) for d, nm in vars_) if vars_ else ()
        return ("discr", v, names)

    def switch(self, fr, t, st):
        v = self.operand(st, fr, t["o"])
        neg = False
        while v[0] == "un" and v[1] == "Not" and t["ty"] == "bool":
            v = v[2]
            neg = not neg
        if v[0] == "const" and isinstance(v[1], int):
            x = v[1]
            if neg:
                x = 0 if x else 1
            for val, tb in t["ts"]:
                if val is None or int(val) == x:
                    return [(tb, st)]
            return []
        key = v
        names = {}
        if v[0] == "discr":
            names = dict(v[2])
            key = ("discr", v[1])
        # ordering facts: Lt(a,b) vs Le(b,a)
        keyn, flip = canon_cond(key)
        out = []
        explicit = [int(x) for x, _ in t["ts"] if x is not None]
        known = st.facts.get(keyn)
        alts = []
        for val, tb in t["ts"]:
            if t["ty"] == "bool":
                if val is None:
                    # otherwise of bool: the other value
                    x = 1 if 0 in explicit and 1 not in explicit else (0 if 1 in explicit else None)
                    if x is None or (0 in explicit and 1 in explicit):
                        continue
                else:
                    x = int(val)
                if neg:
                    x = 1 - x
                if flip:
                    x = 1 - x
                lab = bool(x)
            else:
                if val is None:
                    rest = [n for d, n in names.items() if int(d) not in explicit]
                    if names and not rest:
                        continue
                    lab = ("other", tuple(sorted(names[str(e)] if str(e) in names else str(e) for e in explicit))) \
                        if len(rest) != 1 else rest[0]
                else:
                    lab = names.get(val, val)
            alts.append((lab, tb))
        if known is not None:
            sel = [(l, tb) for l, tb in alts if compatible(known, l)]
            alts = sel if sel else alts
        for i, (lab, tb) in enumerate(alts):
            s2 = st if i == len(alts) - 1 else st.fork()
            if known is None or not (isinstance(known, str) or isinstance(known, bool)):
                s2.facts[keyn] = lab
                s2.events.append(Ev("branch", recv=keyn, info=lab, fn=fr.fn,
                                    held=tuple(h[1] for h in s2.held)))
            out.append((tb, s2))
        return out

    # ------------------------------------------------------------ drops
    def drop(self, fr, t, st, depth, stack):
        if not t.get("nd"):
            return [st]
        p = self.place_path(st, fr, t["p"])
        v = self.load(st, p)
        self.drop_value(fr, st, v, t["ty"], t.get("l", 0))
        return [st]

    def drop_value(self, fr, st, v, tyj, line):
        gs = guards_in(v)
        for g in gs:
            self.unlock(st, g, fr.fn)
        if gs and v[0] == "guard":
            return
        if v[0] == "const" or (v[0] == "agg" and not v[3]):
            return
        st.events.append(Ev("drop", recv=v, info=tyj["s"], name=tyj.get("adt"), fn=fr.fn, line=line,
                            held=tuple(h[1] for h in st.held)))

    def unlock(self, st, g, fn):
        for i, h in enumerate(st.held):
            if h[0] == g[2]:
                st.held.pop(i)
                st.events.append(Ev("unlock", name=h[1], fn=fn, recv=g))
                return

    # ------------------------------------------------------------ calls
    def new_call(self, st, label):
        st.ncall += 1
        return ("call", st.ncall, label)

    def ret(self, st, fr, t, v):
        p = self.place_path(st, fr, t["d"])
        self.store(st, p, v, fr.fn, t.get("l", 0))
        return [(st, "ret")]

    def call(self, fr, t, st, depth, stack):
        fop = t["f"]
        args = [self.operand(st, fr, a) for a in t["args"]]
        if fop["k"] != "fn":
            fv = self.operand(st, fr, fop)
            if fv[0] == "fn" and fv[1] in self.p.fns:
                return self.inline(fr, t, st, self.p.fns[fv[1]], args, depth, stack)
            return self.opaque_call(fr, t, st, {"path": "indirect", "name": "indirect"}, args, recv=fv)
        info = fop["f"]
        return self.call_info(fr, t, st, info, args, depth, stack)

    def call_info(self, fr, t, st, info, args, depth, stack):
        from models import model
        if st.held and args and info["name"] not in REFERENCES and info["path"].startswith(USES):
            v = self.resolve(st, args[0])
            if v[0] == "ptr" and any(isinstance(s, str) and s.startswith("<lock") for s in v[1]):
                st.events.append(Ev("look", recv=v[1]))
        r = model(self, fr, t, st, info, args, depth, stack)
        if r is not None:
            return r
        trait = (info.get("trait") or info.get("impl_trait") or "").split("::")[-1]
        key = info.get("res_key") or info["key"]
        fn = self.p.fns.get(key)
        if trait in ("Fn", "FnMut", "FnOnce") and info["name"] in ("call", "call_mut", "call_once"):
            return self.call_closure_value(fr, t, st, args[0], args[1], depth, stack)
        if fn is None and info.get("trait") in self.trait_defaults():
            # default method body of a workspace trait, called on an unresolved type
            fn = self.p.fns.get(info["key"])
            if fn is not None and fn.in_trait is None:
                fn = None
            if fn is not None and trait in PROTO_TRAITS and not self.allow_default(fn):
                fn = None
        if fn is None and trait in PROTO_TRAITS and args:
            # a method of a newtype built here that only forwards to its content
            w = self.resolve(st, args[0])
            if w[0] == "agg":
                fn = next((f for f in self.p.methods(w[1], info["name"]) if delegates(f, w, info)), None)
        if fn is not None and depth < MAX_DEPTH and stack.count(fn.key) < 2 and not self.opaque(fn, info):
            if trait in PROTO_TRAITS and fn.in_trait is None:
                recv = args[0] if args else None
                if recv is not None and (is_self(recv) or self.inline_proto_on(fn, self.resolve(st, recv), info)):
                    return self.inline(fr, t, st, fn, args, depth, stack)
            elif trait in ("Drop",):
                pass
            else:
                return self.inline(fr, t, st, fn, args, depth, stack)
        return self.opaque_call(fr, t, st, info, args)

    def trait_defaults(self):
        if not hasattr(self, "_td"):
            self._td = {f.in_trait for f in self.p.fns.values() if f.in_trait}
        return self._td

    def allow_default(self, fn):
        return fn.name in ("push",)

    def inline(self, fr, t, st, fn, args, depth, stack):
        self.inlined.add(fn.key)
        out = []
        dst = self.place_path(st, fr, t["d"])
        args = list(args)
        n0 = len(st.events)
        for st2, rv, end in self.run(fn, args, st, depth + 1, stack):
            if end == "ret":
                self.store(st2, dst, rv, fr.fn, t.get("l", 0))
            out.append((st2, end))
            if len(out) > self.max_paths:
                raise Incomplete(f"more than {self.max_paths} paths inlining {fn.path}")
        if len(out) > 1 and self.merging:
            out = self.merge(n0, out, fr.id)
        return out

    def merge(self, n0, out, fid):
        """Join the returns of an inlined callee that differ only in how one condition went.

        Two states are joined only when everything observable later is equal and their branch
        records differ in exactly one condition with complementary outcomes, so the join is exact."""
        groups = {}
        for s, end in out:
            br = {}
            sk = []
            for e in s.events[n0:]:
                if e.k == "branch":
                    br[e.recv] = e.info
                elif e.k in ("lock", "unlock"):
                    sk.append((e.k, e.name))
                elif e.k != "look":
                    sk.append((e.k, e.name, e.recv, e.res, e.args, e.held))
            mem = frozenset((k, v) for k, v in s.mem.items()
                            if not (isinstance(k[0], tuple) and k[0][0] == "L" and k[0][1] > fid))
            g = (end, mem, tuple(sk), tuple(s.held), frozenset((k, v) for k, v in s.visits.items() if k[0] <= fid))
            groups.setdefault(g, []).append((br, s, end))
        res = []
        for g, items in groups.items():
            items = resolve_complements(items, lambda it: it[0], self._drop_branch)
            res.extend((s, end) for _, s, end in items)
        return res

    @staticmethod
    def _drop_branch(it, atom):
        br, s, end = it
        br = {k: v for k, v in br.items() if k != atom}
        s.facts.pop(atom, None)
        s.events = [e for e in s.events if not (e.k == "branch" and e.recv == atom)]
        return (br, s, end)

    def call_closure_value(self, fr, t, st, cv, argtuple, depth, stack):
        """FnOnce::call_once(closure, (args,)) and friends."""
        v = cv
        envptr = None
        if v[0] == "ptr":
            envptr = v
            v = self.load(st, v[1])
        if v[0] == "box":
            v = self.load(st, v[1])
        targs = [x for _, x in argtuple[3]] if argtuple[0] == "agg" else None
        if v[0] == "closure" and v[1] in self.p.fns and targs is not None:
            fn = self.p.fns[v[1]]
            if stack.count(fn.key) < 2 and depth < MAX_DEPTH:
                refs = fn.locals[1].get("refs", 0)
                if refs:
                    if envptr is None:
                        st.tmp += 1
                        p = (("T", st.tmp),)
                        st.mem[p] = v
                        envptr = ("ptr", p)
                    a0 = envptr
                else:
                    a0 = v
                # closure bodies take their arguments spread out
                return self.inline(fr, t, st, fn, [a0] + targs, depth, stack)
        if v[0] == "fn" and v[1] in self.p.fns and targs is not None:
            return self.inline(fr, t, st, self.p.fns[v[1]], targs, depth, stack)
        if v[0] == "fn" and targs is not None:
            # a function handed around as a value: the same as calling it
            o = self.p.fn_consts[v[3]]
            if "ctor" in o:
                return self.ret(st, fr, t, ("agg", o["ctor"], o["variant"],
                                            tuple((str(i), a) for i, a in enumerate(targs))))
            return self.call_info(fr, dict(t, aty=o.get("ins") or []), st, o["f"], targs, depth, stack)
        info = {"path": "callback", "name": "callback", "trait": "FnCallback"}
        return self.opaque_call(fr, t, st, info, [v] + (targs if targs is not None else [argtuple]), recv=v)

    def opaque_call(self, fr, t, st, info, args, recv=None):
        return self.ret(st, fr, t, self.opaque_event(fr, t, st, info, args, recv))

    def opaque_event(self, fr, t, st, info, args, recv=None):
        label = info["name"]
        res = self.new_call(st, label)
        r0 = recv if recv is not None else (args[0] if args else None)
        ev = Ev("call", name=info["name"], trait=info.get("trait") or info.get("impl_trait"),
                recv=r0, args=tuple(self.resolve(st, a) for a in args), line=t.get("l", 0), fn=fr.fn,
                res=res, info=info, id=res[1], held=tuple(h[1] for h in st.held), raw=tuple(args))
        ev.recv_path = origin(self, st, r0) if r0 is not None else None
        st.events.append(ev)
        if self.signals(ev):
            st.epoch += 1
        boxes(ev.args, st)
        # an opaque call may write through the &mut references it got (other than its receiver's
        # own identity): forget the contents behind mutable pointers
        for i, a in enumerate(args):
            tyj = (t.get("aty") or [{}] * len(args))[i] if i < len(t.get("aty", [])) else {}
            if a[0] == "ptr" and "mut " in tyj.get("s", "")[:12].replace("&'", "&") and self.havoc(info, a, tyj):
                self.havoc_path(st, a[1], res[1])
        # guards moved into the call are released by it
        if info.get("path", "").endswith("mem::drop"):
            pass
        return res

    @staticmethod
    def signals(ev):
        """Does the call run code of others, that may come back to what is shared here?"""
        return False

    def shared(self, st, path):
        """A cell others can reach too, as it is after the foreign code that has run so far"""
        return path + (f"~{st.epoch}",) if st.epoch and not is_local(path) else path

    def havoc(self, info, a, tyj):
        return not (info.get("name", "").endswith("_mut") and info.get("path", "").startswith(("std::", "core::", "alloc::")))

    def havoc_path(self, st, path, cid):
        # keep handles identity: only drop scalar knowledge below the path
        kill = [p for p in st.mem if len(p) > len(path) and p[:len(path)] == path]
        for p in kill:
            del st.mem[p]
        if path in st.mem and st.mem[path][0] in ("agg", "const", "op", "snap", "list", "lit", "ctr"):
            st.mem[path] = ("call", cid, "havoc")
        if not is_local(path):
            st.facts[("written", path)] = st.facts.get(("written", path), 0) + 1

    def version(self, st, path):
        """How often the object at (or around, or inside) the path was written by opaque calls"""
        n = 0
        for k, c in st.facts.items():
            if type(k) is tuple and k[0] == "written":
                m = min(len(k[1]), len(path))
                if k[1][:m] == path[:m]:
                    n += c
        return n

    def resolve(self, st, a):
        """Argument as recorded in events: references to locals are replaced by the content."""
        n = 0
        while a[0] == "ptr" and is_local(a[1]) and n < 6:
            a = self.load(st, a[1])
            n += 1
        return a


def counter_op(op, a, b):
    """Loop counters with a constant bound stand for some iteration of the loop"""
    if a[0] == "ctr" and b[0] == "const" and isinstance(b[1], int):
        n, c = a[1], b[1]

        def eq(k):
            return ("op", "Eq", ("ctr", 0), ("const", k - n, "usize"))
        if op == "Add":
            return ("ctr", n + c)
        if op == "AddWithOverflow":
            return ("agg", "tuple", None, (("0", ("ctr", n + c)), ("1", FALSE)))
        return {"Eq": eq(c), "Ne": ("un", "Not", eq(c)), "Lt": ("un", "Not", eq(c)), "Le": ("un", "Not", eq(c + 1)),
                "Gt": eq(c + 1), "Ge": eq(c)}.get(op)
    if b[0] == "ctr" and a[0] == "const" and op in ("Add", "AddWithOverflow", "Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
        return counter_op({"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}.get(op, op), b, a)
    return None


def counters(fn):
    """Locals counting the iterations of a loop up to a constant"""
    if hasattr(fn, "ctrs") and fn.ctrs is not None:
        return fn.ctrs
    asg, copies, sums, cmp_ = {}, {}, {}, set()
    for b in fn.blocks:
        for s in b["s"]:
            if s[0] != "=":
                continue
            d, r = s[1], s[2]
            if d[1]:
                continue
            asg.setdefault(d[0], []).append(r)
            if r["k"] == "use" and r["o"]["k"] in ("copy", "move") and not r["o"]["p"][1]:
                copies[d[0]] = r["o"]["p"][0]
            if r["k"] == "bin" and r["op"] in ("AddWithOverflow", "Add") and r["a"]["k"] in ("copy", "move") \
                    and r["b"].get("v") == 1:
                sums[d[0]] = r["a"]["p"][0]
        t = b["t"]
        if t["k"] == "call" and not t["d"][1]:
            asg.setdefault(t["d"][0], []).append({"k": "call"})

    def src(n):
        while n in copies and len(asg.get(n, ())) == 1:
            n = copies[n]
        return n
    for b in fn.blocks:
        for s in b["s"]:
            if s[0] == "=" and s[2]["k"] == "bin" and s[2]["op"] in ("Eq", "Lt", "Le", "Gt", "Ge", "Ne"):
                for u, v in (("a", "b"), ("b", "a")):
                    o, q = s[2][u], s[2][v]
                    if o["k"] in ("copy", "move") and not o["p"][1] and isinstance(q.get("v"), int) and q["v"] > 2:
                        cmp_.add(src(o["p"][0]))
    out = set()
    for n in cmp_:
        rs = asg.get(n, [])
        init = [r for r in rs if r["k"] == "use" and isinstance(r["o"].get("v"), int) and r["o"].get("ty") != "bool"]
        inc = [r for r in rs if r["k"] == "use" and r["o"]["k"] in ("copy", "move") and r["o"]["p"][1] in ([], [".0"])
               and src(sums.get(r["o"]["p"][0], -1)) == n] + \
              [r for r in rs if r["k"] == "bin" and r["op"] == "Add" and r["a"]["k"] in ("copy", "move") and
               src(r["a"]["p"][0]) == n and r["b"].get("v") == 1]
        if init and inc and len(init) + len(inc) == len(rs):
            out.add(n)
    fn.ctrs = out
    return out


def bitmask(v):
    if v[0] == "const" and isinstance(v[1], int) and v[2] != "bool":
        return v[1]
    if v[0] == "un" and v[1] == "Not" and v[2][0] == "const" and isinstance(v[2][1], int) and v[2][2] != "bool":
        return ~v[2][1]
    return None


def bitop(op, a, b):
    """Flag words: terms of the shape (base & and_mask | or_mask), decided bit by bit."""
    if op in ("BitAnd", "BitOr"):
        m = bitmask(b)
        if m is None:
            m, a = bitmask(a), b
            if m is None:
                return None
        if bitmask(a) is not None:
            k = bitmask(a)
            return ("const", (k & m) if op == "BitAnd" else (k | m), "flags")
        base, am, om = a[1:] if a[0] == "bits" else (a, -1, 0)
        if op == "BitAnd":
            am, om = am & m, om & m
        else:
            am, om = am & ~m, om | m
        if am == 0:
            return ("const", om, "flags")
        return ("bits", base, am, om)
    if op in ("Eq", "Ne") and "bits" in (a[0], b[0]):
        if a[0] != "bits":
            a, b = b, a
        k = bitmask(b)
        if k is None:
            return None
        _, base, am, om = a
        neg = op == "Ne"
        rem = k & ~om
        if om & ~k or rem & ~am:
            return TRUE if neg else FALSE
        if am > 0 and am & (am - 1) == 0:
            r = ("op", "bit", base, ("const", am, "flags"))
            if rem == 0:
                neg = not neg
            return ("un", "Not", r) if neg else r
        r = ("op", "Eq", a, b)
        return ("un", "Not", r) if neg else r
    return None


def complement(a, b):
    """Labels a and b together cover every outcome of the condition."""
    if isinstance(a, bool) or isinstance(b, bool):
        return a is not b and isinstance(a, bool) and isinstance(b, bool)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return False
    if isinstance(a, tuple):
        a, b = b, a
    if isinstance(b, tuple):
        return len(b) > 1 and tuple(b[1]) == (a,)
    return {a, b} in ({"Some", "None"}, {"Ok", "Err"}, {"T", "F"})


def resolve_complements(items, conds, drop):
    """Exact reduction: two items whose condition maps differ in one condition with
    complementary outcomes become one item without that condition."""
    changed = True
    while changed and len(items) > 1:
        changed = False
        byvars = {}
        for it in items:
            byvars.setdefault(frozenset(conds(it)), []).append(it)
        items = []
        for vs, its in byvars.items():
            done = False
            if len(its) > 1:
                for atom in sorted(vs, key=repr):
                    index = {}
                    for it in its:
                        c = conds(it)
                        index.setdefault(frozenset((a, l) for a, l in c.items() if a != atom), []).append(it)
                    if any(len(g) == 2 and complement(conds(g[0])[atom], conds(g[1])[atom]) for g in index.values()):
                        for g in index.values():
                            if len(g) == 2 and complement(conds(g[0])[atom], conds(g[1])[atom]):
                                items.append(drop(g[0], atom))
                            else:
                                items.extend(g)
                        changed = done = True
                        break
            if not done:
                items.extend(its)
    return items


def lock_step(g):
    """What is behind a lock: the same thing for everyone that locks it, until foreign code has run"""
    e = str(g[2]).partition("~")[2]
    return f"<lock~{e}>" if e else "<lock>"


def is_cell(path):
    r = path[0]
    return isinstance(r, tuple) and r[0] == "T" and ":" in str(r[1]) and len(path) > 1 and path[1].startswith("<lock")


def boxes(v, st, d=0):
    """Cells made here that are handed to foreign code"""
    if not isinstance(v, tuple) or d > 9:
        return
    if len(v) == 2 and v[0] == "box":
        r = v[1][0]
        if r not in st.esc:
            st.esc |= {r}
            boxes(st.mem.get(v[1]), st, d + 1)
        return
    for x in v:
        if isinstance(x, tuple):
            boxes(x, st, d + 1)


def is_local(path):
    r = path[0]
    return isinstance(r, tuple) and r[0] in ("L", "T")


ENV = ("T", "closure_env")


def outlives(path):
    """Memory that is still there after the call: also what a closure took with it"""
    return not is_local(path) or is_cell(path) or path[0] == ENV and len(path) > 1


def is_self(v):
    return v[0] == "ptr" and v[1] == ("self",) or v[0] == "arg" and v[2] == "self"


def compatible(known, lab):
    if known == lab:
        return True
    if isinstance(known, tuple) and known[0] == "other":
        if isinstance(lab, tuple):
            return True
        return lab not in known[1]
    if isinstance(lab, tuple) and lab[0] == "other":
        return known not in lab[1]
    return False


def canon_cond(c):
    """(canonical term, flipped?) so that a<b, b>a and !(b<=a) share one fact."""
    if c[0] == "op" and c[1] == "Le":
        return ("op", "Lt", c[3], c[2]), True
    return c, False


def guards_in(v, depth=0):
    if depth > 6 or not isinstance(v, tuple) or not v:
        return []
    if v[0] == "guard":
        return [v]
    if v[0] == "agg":
        out = []
        for _, x in v[3]:
            out += guards_in(x, depth + 1)
        return out
    if v[0] == "closure":
        out = []
        for _, x in v[2]:
            out += guards_in(x, depth + 1)
        return out
    if v[0] in ("list", "lit"):
        return [g for x in v[1] for g in guards_in(x, depth + 1)]
    if v[0] == "snap":
        out = guards_in(v[1], depth + 1)
        for _, x in v[2]:
            out += guards_in(x, depth + 1)
        return out
    return []


def arg_names(fn):
    out = {}
    for nm, pl in fn.names:
        if not pl[1] and 1 <= pl[0] <= fn.argc and pl[0] not in out:
            out[pl[0]] = nm
    return out


def origin(eng, st, v, depth=0):
    """Render the identity of an object: through clones, references, locals, locks."""
    if depth > 12 or v is None:
        return "?"
    if v[0] == "clone":
        return origin(eng, st, v[1], depth + 1)
    if v[0] == "ptr":
        p = v[1]
        if is_local(p):
            x = eng.load(st, p)
            if x[0] == "init" and is_local(x[1]):
                return rpath(x[1])
            return origin(eng, st, x, depth + 1)
        return norm_path(eng, st, p, depth + 1)
    if v[0] == "init":
        if is_local(v[1]):
            return rpath(v[1])
        return norm_path(eng, st, v[1], depth + 1)
    if v[0] == "guard":
        return norm_path(eng, st, v[1], depth + 1) + ".lock"
    if v[0] == "arg":
        return v[2]
    if v[0] == "proj":
        base = origin(eng, st, v[1], depth + 1)
        return base + norm_proj(v[2])
    if v[0] == "call":
        return f"#{v[1]}:{v[2]}"
    if v[0] == "closure":
        return render(v)
    return render(v)


def norm_proj(ps):
    s = ""
    for x in ps:
        if x == "*" or x[0] == "~":
            continue
        if x.startswith("<lock"):
            s += ".lock"
        elif x.startswith("@"):
            s += x
        else:
            s += x
    return s


def norm_path(eng, st, p, depth=0):
    root = p[0]
    if isinstance(root, tuple):
        if root[0] == "D":
            r = origin(eng, st, root[1], depth + 1) if eng else render(root[1])
        elif root[0] == "L":
            r = render_root(root)
        else:
            r = render_root(root)
    else:
        r = root
    return r + norm_proj(p[1:])
