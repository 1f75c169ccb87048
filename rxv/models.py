"""Abstract semantics of the standard-library functions the workspace uses."""
import re
from engine import (NONE, TRUE, FALSE, some, ok, const, Ev, origin, is_local, guards_in, lock_step)

OPT = "std::option::Option"
RES = "std::result::Result"


def last(p):
    return p.split("::")[-1]


def fake(t, n):
    t2 = dict(t)
    t2["d"] = [100000 + n, []]
    t2["t"] = 0
    return t2


def apply_fn(eng, fr, t, st, fv, args, depth, stack):
    """Call a closure value; yields (state, value, end)."""
    st.tmp += 1
    n = st.tmp
    ft = fake(t, n)
    tup = ("agg", "tuple", None, tuple((str(i), a) for i, a in enumerate(args)))
    for s2, end in eng.call_closure_value(fr, ft, st, fv, tup, depth, stack):
        if end == "ret":
            yield s2, eng.load(s2, eng.place_path(s2, fr, ft["d"])), "ret"
        else:
            yield s2, None, end


def target(eng, st, a):
    """(path, value) behind a reference-like argument."""
    if a[0] == "ptr":
        return a[1], eng.load(st, a[1])
    if a[0] in ("box",):
        return a[1], eng.load(st, a[1])
    p = (("D", a),)
    return p, eng.load(st, p)


def fork_variant(eng, fr, st, v, names):
    """[(state, variant name, payload)] for a two-variant enum value."""
    if v[0] == "agg" and v[2] in names:
        return [(st, v[2], v[3][0][1] if v[3] else None)]
    key = ("discr", v)
    known = st.facts.get(key)
    out = []
    opts = list(names)
    if isinstance(known, str) and known in opts:
        opts = [known]
    elif isinstance(known, tuple) and known[0] == "other":
        r = [o for o in opts if o not in known[1]]
        opts = r or opts
    for i, nm in enumerate(opts):
        s2 = st if i == len(opts) - 1 else st.fork()
        if known is None or not isinstance(known, str):
            s2.facts[key] = nm
            s2.events.append(Ev("branch", recv=key, info=nm, fn=fr.fn, held=tuple(h[1] for h in s2.held)))
        pay = None if nm == "None" else eng.project(s2, v, ("@" + nm, ".0"))
        out.append((s2, nm, pay))
    return out


def opt(eng, fr, st, v):
    return fork_variant(eng, fr, st, v, ("None", "Some"))


def res(eng, fr, st, v):
    return fork_variant(eng, fr, st, v, ("Err", "Ok"))


def strip_clone(v):
    while v[0] == "clone":
        v = v[1]
    return v


def type_words(s):
    """The named types of a type, without where they live: what a cell holds, not who is holding it"""
    return ",".join(w for w in re.findall(r"[A-Za-z_]\w*", re.sub(r"[\w]+::", "", s)) if w[0].isupper() and len(w) > 1)


def lock(eng, fr, t, st, recv, how):
    """Acquire: returns the guard value."""
    if recv[0] == "ptr":
        path = recv[1]
    elif recv[0] == "box":
        path = recv[1]
    else:
        path = (("D", recv),)
    st.ncall += 1
    gid = f"{st.ncall}~{st.epoch}" if st.epoch and (not is_local(path) or path[0] in st.esc) else st.ncall
    name = origin(eng, st, ("ptr", path))
    g = ("guard", path, gid, how)
    st.events.append(Ev("lock", name=name, fn=fr.fn, info=how, id=gid, line=t.get("l", 0), recv=g,
                        held=tuple(h[1] for h in st.held)))
    st.held.append((gid, name, how))
    return g


def may_poison(eng, st):
    """Poison mode: one earlier holder of one lock has panicked"""
    return getattr(eng, "poison", False) and "poisoned" not in st.facts


def poisoned(st, g, fr):
    st.facts["poisoned"] = True
    st.events.append(Ev("branch", recv=("poisoned", g[1]), info=True, fn=fr.fn, held=tuple(h[1] for h in st.held)))


def handle_path(eng, st, v):
    """Path of the object a smart pointer value points to."""
    v = strip_clone(v)
    if v[0] == "box":
        return v[1]
    if v[0] == "init":
        return v[1] + ("*",)
    if v[0] == "ptr":
        return v[1]
    return (("D", v),)


ENDS = {"front", "back", "first", "last", "front_mut", "back_mut", "first_mut", "last_mut", "pop", "pop_front", "pop_back"}
HEADS = {"front", "front_mut", "first", "first_mut", "pop_front"}
PURE = {
    "saturating_add", "wrapping_add", "wrapping_sub", "saturating_sub", "checked_add", "checked_sub",
    "from_millis", "from_secs", "as_millis", "len", "is_empty", "contains", "contains_key",
    "min", "max", "clamp", "as_secs_f32", "cmp", "partial_cmp", "eq", "ne", "lt", "le", "gt", "ge",
    "add", "sub", "mul", "div", "as_nanos", "is_zero", "abs_diff", "rem", "neg", "not", "saturating_mul",
    "bits", "capacity",
}


def model(eng, fr, t, st, info, args, depth, stack):
    path = info["path"]
    name = info["name"]
    trait = last(info.get("trait") or info.get("impl_trait") or "")
    std = path.startswith(("std::", "core::", "alloc::"))
    selfty = info.get("self_ty")
    aty = t.get("aty") or []

    def R(v):
        return eng.ret(st, fr, t, v)

    def Rs(pairs):
        out = []
        for s2, v, *end in pairs:
            e = end[0] if end else "ret"
            if e == "ret":
                eng.store(s2, eng.place_path(s2, fr, t["d"]), v, fr.fn, t.get("l", 0))
            out.append((s2, e))
        return out

    # ---- logging changes nothing the system does: analysed as switched off
    if "tracing" in path:
        if name in ("is_never",):
            return R(TRUE)
        if name in ("__is_enabled", "enabled"):
            return R(FALSE)
        return R(("const", "log", "log"))
    if trait in ("PartialOrd", "PartialEq") and aty and "tracing" in (aty[0].get("s") or ""):
        return R(FALSE)

    # ---- poison-tolerant lock helpers of the workspace
    if trait in ("LockWithPoisonBehavior", "WriteLockWithPoisonBehavior", "ReadLockWithPoisonBehavior") \
            and eng.root_fn.trait != info.get("trait") and not (eng.root_fn.trait or "").endswith(trait):
        if name.startswith("try_") and (info.get("res_key") in eng.p.fns) and depth < 14:
            return eng.inline(fr, t, st, eng.p.fns[info["res_key"]], args, depth, stack)
        _, v = target(eng, st, args[0])
        recv = ("ptr", handle_path(eng, st, v))
        how = name
        if len(args) > 1 and may_poison(eng, st):
            s2 = st.fork()
            g = lock(eng, fr, t, st, recv, how)
            g2 = lock(eng, fr, t, s2, recv, how)
            s2.facts[("poisoned", g2[2])] = True
            poisoned(s2, g2, fr)
            out = Rs([(st, g)])
            s2.tmp += 1
            gp = (("T", s2.tmp),)
            s2.mem[gp] = g2
            for s3, _, end in apply_fn(eng, fr, t, s2, args[1], [("ptr", gp)], depth, stack):
                out += Rs([(s3, g2, end)])
            return out
        return R(lock(eng, fr, t, st, recv, how))

    if trait == "Clone" and name == "clone":
        p, v = target(eng, st, args[0])
        key = info.get("res_key")
        if key in eng.p.fns and not eng.p.fns[key].derived and eng.p.fns[key].kind != "closure" \
                and "rx_core" in key and getattr(eng, "inline_clone", False):
            return None
        if v[0] in ("const", "box", "fn"):
            return R(v)
        if v[0] == "agg" and not v[3]:
            return R(v)
        return R(("clone", v))
    if trait == "ToOwned" and name == "to_owned":
        p, v = target(eng, st, args[0])
        return R(("clone", v))

    if trait in ("Deref", "DerefMut") and name in ("deref", "deref_mut"):
        key = info.get("res_key") or info["key"]
        if key in eng.p.fns and eng.p.fns[key].kind != "trait":
            return None
        p, v = target(eng, st, args[0])
        v = strip_clone(v)
        if v[0] == "guard":
            return R(("ptr", v[1] + (lock_step(v),)))
        if v[0] == "box":
            return R(("ptr", v[1]))
        s = (aty[0] if aty else {}).get("adt") or ""
        if last(s) in ("Mut", "ResMut", "NonSendMut") and v[0] == "ptr":
            return R(v)
        if last(s) in ("Arc", "Box", "Rc", "Mut", "Res", "ResMut") and v[0] == "init":
            return R(("ptr", v[1] + ("*",)))
        if last(s) in ("Arc", "Box", "Rc"):
            return R(("ptr", handle_path(eng, st, v)))
        if p is not None:
            return R(("ptr", p))
        return R(args[0])

    if trait in ("Into", "From", "TryInto") and name in ("into", "from"):
        key = info.get("res_key")
        if key in eng.p.fns:
            return None
        targs = info.get("targs") or []
        if len(targs) == 2:
            s, d = (targs[0], targs[1]) if name == "into" else (targs[1], targs[0])
            # identity conversions and Option::from
            if s.get("s") == d.get("s"):
                return R(args[0])
            if (d.get("adt") or "").endswith("option::Option") and d["s"] == f"std::option::Option<{s['s']}>":
                return R(some(args[0]))
            if "param" in s:
                # the argument of a generic function: converted according to what was passed
                v = eng.resolve(st, args[0])
                while v[0] == "clone":
                    v = v[1]
                if v[0] != "agg" or v[1] == (d.get("adt") or d.get("s")):
                    return R(("un", "into", args[0]) if v[0] != "agg" else args[0])
                s = {"adt": v[1], "s": v[1]}
            # a workspace `impl From<S> for D` that `into` resolves to
            f = find_from(eng, s, d)
            if f is not None and depth < 14:
                return eng.inline(fr, t, st, f, args, depth, stack)
        return R(("un", "into", args[0]))
    if std and name == "get" and "NonZero" in path and len(args) == 1:
        return R(("un", "into", eng.resolve(st, args[0])))

    if trait in ("Borrow", "BorrowMut", "AsRef", "AsMut") and std:
        return R(args[0])

    if name in ("new",) and std and last(strip_gen(path.rsplit("::", 1)[0])) in ("Arc", "Box", "Rc", "Mutex", "RwLock", "Cell", "RefCell"):
        w = last(strip_gen(path.rsplit("::", 1)[0]))
        if w in ("Mutex", "RwLock", "Cell", "RefCell"):
            return R(("agg", "lock::" + w, None, (("data", args[0]),)))
        st.tmp += 1
        cell = args[0][0] == "agg" and args[0][1].startswith("lock::") and aty
        p = (("T", f"{w}{st.tmp}" + (":" + type_words(aty[0]["s"]) if cell else "")),)
        st.mem[p] = args[0]
        return R(("box", p))

    if std and name in ("lock", "read", "write", "try_lock") and (
            "Mutex" in path or "RwLock" in path):
        recv = args[0]
        if name == "try_lock":
            st.ncall += 1
            pth = recv[1] if recv[0] in ("ptr", "box") else (("D", recv),)
            atom = ("trylock", origin(eng, st, ("ptr", pth)), st.ncall)
            s2 = st.fork()
            s3 = st.fork()
            poison = may_poison(eng, st)
            for sx, lb in ((st, "Ok"), (s2, "WouldBlock"), (s3, "Poisoned")):
                sx.events.append(Ev("branch", recv=atom, info=lb, fn=fr.fn, held=tuple(h[1] for h in sx.held)))
            g = lock(eng, fr, t, st, recv, "try_lock")
            g3 = lock(eng, fr, t, s3, recv, "try_lock")
            s3.facts[("poisoned", g3[2])] = True
            poisoned(s3, g3, fr)
            wb = ("agg", RES, "Err", (("0", ("agg", "std::sync::TryLockError", "WouldBlock", ())),))
            po = ("agg", RES, "Err", (("0", ("agg", "std::sync::TryLockError", "Poisoned", (
                ("0", ("agg", "std::sync::PoisonError", None, (("data", g3),))),))),))
            return Rs([(st, ok(g)), (s2, wb)] + ([(s3, po)] if poison else []))
        s2 = st.fork()
        g = lock(eng, fr, t, st, recv, name)
        out = [(st, ok(g))]
        if may_poison(eng, st):
            g2 = lock(eng, fr, t, s2, recv, name)
            s2.facts[("poisoned", g2[2])] = True
            poisoned(s2, g2, fr)
            out.append((s2, ("agg", RES, "Err", (
                ("0", ("agg", "std::sync::PoisonError", None, (("data", g2),))),))))
        return Rs(out)
    if std and "PoisonError" in path and name in ("into_inner", "get_mut", "get_ref"):
        v = args[0]
        if v[0] == "ptr":
            v = eng.load(st, v[1])
        if v[0] == "agg":
            if name == "into_inner":
                return R(v[3][0][1])
            if args[0][0] == "ptr":
                return R(("ptr", args[0][1] + (".data",)))
        return R(("proj", v, (".data",)))
    if std and name == "clear_poison":
        st.events.append(Ev("call", name="clear_poison", trait="", recv=args[0], args=tuple(args), fn=fr.fn,
                            res=None, info=info, held=tuple(h[1] for h in st.held), line=t.get("l", 0)))
        return R(("const", None, "()"))

    # ---- mem
    if path in ("std::mem::drop", "core::mem::drop"):
        eng.drop_value(fr, st, args[0], {"s": (aty[0] if aty else {}).get("s", "?"), "adt": (aty[0] if aty else {}).get("adt")},
                       t.get("l", 0))
        return R(("const", None, "()"))
    if path in ("std::mem::forget", "core::mem::forget"):
        for g in guards_in(args[0]):
            pass
        st.events.append(Ev("call", name="forget", trait="", recv=args[0], args=tuple(eng.resolve(st, a) for a in args), fn=fr.fn, info=info,
                            held=tuple(h[1] for h in st.held), line=t.get("l", 0)))
        return R(("const", None, "()"))
    if path in ("std::mem::take", "core::mem::take"):
        p, v = target(eng, st, args[0])
        if p is not None:
            ts = (info.get("targs") or [{}])[0].get("s")
            d = NONE if is_opt(aty) else typed_default(eng, st, ts) if ts else ("const", "default", "default")
            eng.store(st, p, d, fr.fn, t.get("l", 0))
        return R(v)
    if path in ("std::mem::replace", "core::mem::replace"):
        p, v = target(eng, st, args[0])
        if p is not None:
            eng.store(st, p, args[1], fr.fn, t.get("l", 0))
        return R(v)
    if path in ("std::mem::swap", "core::mem::swap"):
        p, v = target(eng, st, args[0])
        q, w = target(eng, st, args[1])
        if p is not None and q is not None:
            eng.store(st, p, w, fr.fn, t.get("l", 0))
            eng.store(st, q, v, fr.fn, t.get("l", 0))
        return R(("const", None, "()"))

    if name == "default" and trait == "Default":
        if info.get("res_key") in eng.p.fns:
            return None
        return R(typed_default(eng, st, (info.get("targs") or [{}])[0].get("s") or str(selfty)))

    if std and name in ("then", "then_some") and "<impl bool>" in path:
        out = []
        for s2, b in fork_bool(eng, fr, st, args[0]):
            if not b:
                out.append((s2, NONE))
            elif name == "then_some":
                out.append((s2, some(args[1])))
            else:
                out += [(s3, some(v) if e == "ret" else None, e)
                        for s3, v, e in apply_fn(eng, fr, t, s2, args[1], [], depth, stack)]
        return Rs(out)

    if path.startswith("std::option::Option"):
        return option(eng, fr, t, st, name, args, depth, stack, R, Rs, aty, info)
    if path.startswith("std::result::Result"):
        return result(eng, fr, t, st, name, args, depth, stack, R, Rs, aty, info)
    if trait == "Try" and name == "branch":
        v = args[0]
        out = []
        if "Option" in str((info.get("targs") or [{}])[0].get("s", "")) or (v[0] == "agg" and v[1] == OPT):
            for s2, nm, pay in opt(eng, fr, st, v):
                if nm == "Some":
                    out.append((s2, ("agg", "std::ops::ControlFlow", "Continue", (("0", pay),))))
                else:
                    out.append((s2, ("agg", "std::ops::ControlFlow", "Break", (("0", NONE),))))
        else:
            for s2, nm, pay in res(eng, fr, st, v):
                if nm == "Ok":
                    out.append((s2, ("agg", "std::ops::ControlFlow", "Continue", (("0", pay),))))
                else:
                    out.append((s2, ("agg", "std::ops::ControlFlow", "Break", (
                        ("0", ("agg", RES, "Err", (("0", pay),))),))))
        return Rs(out)
    if trait == "FromResidual":
        v = args[0]
        return R(v)

    # ---- atomics: cells of the analysed object (read-modify-write is one step)
    if std and "sync::atomic::Atomic" in path and args:
        if name == "new":
            return R(("agg", "lock::Atomic", None, (("data", args[0]),)))
        p, v = target(eng, st, args[0])
        if p is not None:
            p = eng.shared(st, p + (".data",))
            cur = eng.load(st, p)
            ln = t.get("l", 0)
            if name == "load":
                return R(cur)
            if name == "store":
                if cur[0] != "const" and repr(cur) in repr(args[1]):
                    st.events.append(Ev("update", recv=p, info="apart"))
                eng.store(st, p, args[1], fr.fn, ln)
                return R(("const", None, "()"))
            if name.startswith("fetch_") or name == "swap":
                st.events.append(Ev("update", recv=p, info="together"))
            if name == "swap":
                eng.store(st, p, args[1], fr.fn, ln)
                return R(cur)
            ops = {"fetch_add": "Add", "fetch_sub": "Sub", "fetch_or": "BitOr", "fetch_and": "BitAnd",
                   "fetch_max": "max", "fetch_min": "min", "fetch_xor": "BitXor", "fetch_nand": "Nand"}
            if name in ops:
                eng.store(st, p, eng.binop(ops[name], cur, args[1]), fr.fn, ln)
                return R(cur)
            if name in ("compare_exchange", "compare_exchange_weak"):
                s2 = st.fork()
                c = eng.binop("Eq", cur, args[1])
                st.facts[c] = True
                st.events.append(Ev("branch", recv=c, info=True, fn=fr.fn, held=tuple(h[1] for h in st.held)))
                s2.facts[c] = False
                s2.events.append(Ev("branch", recv=c, info=False, fn=fr.fn, held=tuple(h[1] for h in s2.held)))
                eng.store(st, p, args[2], fr.fn, ln)
                return Rs([(st, ok(cur)), (s2, ("agg", RES, "Err", (("0", cur),)))])

    # ---- comparison & arithmetic
    if trait in ("PartialEq", "PartialOrd", "Ord") and name in ("eq", "ne", "lt", "le", "gt", "ge"):
        key = info.get("res_key")
        a = deref_all(eng, st, args[0])
        b = deref_all(eng, st, args[1])
        op = {"eq": "Eq", "ne": "Ne", "lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[name]
        return R(eng.binop(op, a, b))
    if std and (trait in ("Add", "Sub", "Mul", "Div", "Rem", "BitAnd", "BitOr") and name in (
            "add", "sub", "mul", "div", "rem", "bitand", "bitor")):
        return R(eng.binop({"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem", "bitand": "BitAnd", "bitor": "BitOr"}[name],
                           deref_all(eng, st, args[0]), deref_all(eng, st, args[1])))
    if std and trait in ("AddAssign", "SubAssign", "BitOrAssign", "BitAndAssign") and info.get("res_key") not in eng.p.fns:
        p, v = target(eng, st, args[0])
        o = {"AddAssign": "Add", "SubAssign": "Sub", "BitOrAssign": "BitOr", "BitAndAssign": "BitAnd"}[trait]
        if p is not None:
            eng.store(st, p, eng.binop(o, v, deref_all(eng, st, args[1])), fr.fn, t.get("l", 0))
        return R(("const", None, "()"))
    if std and trait == "Not" and name == "not" and info.get("res_key") not in eng.p.fns:
        return R(("un", "Not", args[0]))

    if std and name in ENDS and len(args) == 1 and re.search(r"VecDeque|Vec::|\[T\]|BinaryHeap", path):
        # the first or last of a shared collection: there is one unless it is empty
        p, v = target(eng, st, args[0])
        if p is not None and not is_local(p) and v[0] not in ("list", "lit"):
            c = ("op", "is_empty", v if v[0] == "call" else ("init", p), ("const", eng.version(st, p), "ver"))
            k = ("end", name in HEADS, p, eng.version(st, p))
            out = []
            for s2, b in fork_bool(eng, fr, st, c):
                if not b:
                    was = s2.facts.get(k)
                    r = eng.opaque_event(fr, t, s2, info, args) if was is None or name.startswith("pop") else was
                    r = s2.facts.setdefault(k, r)
                out.append((s2, NONE if b else some(("proj", r, ("@Some", ".0")))))
            return Rs(out)
    if std and name in PURE and len(args) <= 3:
        if name in ("is_empty", "len", "contains", "contains_key"):
            p, v = target(eng, st, args[0])
            if p is not None and not is_local(p):
                if v[0] == "list" and len(args) == 1:
                    return R(const(len(v[1]), "usize") if name == "len" else FALSE if v[1] else TRUE)
                # version by number of writes seen to this collection
                ver = ("const", eng.version(st, p), "ver")
                w = v if v[0] == "call" else ("init", p)
                return R(("op", name, w, ver) if len(args) == 1 else
                         ("op", name, w, ("agg", "tuple", None, (("0", deref_all(eng, st, args[1])), ("1", ver)))))
            return R(("un", name, v)) if len(args) == 1 else R(("op", name, v, deref_all(eng, st, args[1])))
        vs = [deref_all(eng, st, a) for a in args]
        if name == "clamp" and len(vs) == 3:
            return R(("op", "min", ("op", "max", vs[0], vs[1]), vs[2]))
        if name in ("saturating_add", "wrapping_add"):
            return R(("op", "Add", vs[0], vs[1]))
        if name == "checked_add" and vs[1][0] == "const" and "usize" in path:
            return R(some(("op", "Add", vs[0], vs[1])))  # counting up by a step does not overflow
        if name in ("saturating_sub", "wrapping_sub"):
            return R(("op", name, vs[0], vs[1]))
        if len(vs) == 1:
            return R(("un", name, vs[0]))
        return R(("op", name, vs[0], vs[1]))

    if std and ("std::vec::Vec" in path or "VecDeque" in path or "slice::" in path):
        r = lists(eng, fr, t, st, name, args, path, depth, stack, R, Rs)
        if r is not None:
            return r
    # vec![..]
    if std and name == "new_uninit" and not args and "boxed::Box" in path:
        st.tmp += 1
        return R(("agg", "std::boxed::Box", None, (("0", ("ptr", (("T", st.tmp),))),)))
    if std and name == "box_assume_init_into_vec_unsafe" and args[0][0] == "agg" and args[0][3][0][1][0] == "ptr":
        a = eng.load(st, args[0][3][0][1][1] + (".value", ".value"))
        if a[0] == "agg" and a[1] == "array":
            return R(("list", tuple(x for _, x in a[3])))
    if std and trait == "Extend" and name == "extend":
        p, v = place_of(eng, st, args[0])
        if len(aty) > 1 and is_opt(aty[1:]) and not aty[1].get("refs"):
            # what is in it, if anything, is pushed
            out = []
            for s2, nm, pay in opt(eng, fr, st, eng.resolve(st, args[1])):
                if nm == "None":
                    eng.store(s2, eng.place_path(s2, fr, t["d"]), ("const", None, "()"), fr.fn, t.get("l", 0))
                    out.append((s2, "ret"))
                    continue
                vec = re.search(r"VecDeque|Vec", aty[0].get("s") or "")
                i2 = {"name": "push_back" if vec and vec[0] == "VecDeque" else "push", "trait": None,
                      "path": "std::collections::VecDeque::<T>::push_back" if vec and vec[0] == "VecDeque" else
                      "std::vec::Vec::<T, A>::push", "key": "push"}
                out += eng.call_info(fr, t, s2, i2, [args[0], pay], depth, stack)
            return out
        it = as_iter(eng, st, args[1])
        if v[0] == "list" and is_local(p) and it is not None:
            return Rs([(s2, w, e) for s2, w, e in collect(eng, fr, t, st, it, depth, stack)
                       if e != "ret" or eng.store(s2, p, ("list", v[1] + w[1]), fr.fn, t.get("l", 0)) is None])
    if name == "new" and "RangeInclusive" in path:
        return R(("agg", RANGES[1], None, (("start", args[0]), ("end", args[1]))))
    if name in ("iter", "iter_mut") and len(args) == 1 and not trait and ITERABLE.search(path):
        # the same as going through a reference to the collection
        v = eng.resolve(st, args[0])
        return R(as_iter(eng, st, args[0]) or ("iter", v))
    if trait == "IntoIterator" and name == "into_iter" and std and info.get("res_key") not in eng.p.fns:
        v = args[0]
        w = as_iter(eng, st, v)
        if w is not None:
            return R(w)
        if is_opt(aty) and not aty[0].get("refs"):
            return Rs([(s2, ("lit", () if nm == "None" else (pay,))) for s2, nm, pay in opt(eng, fr, st, eng.resolve(st, v))])
        return R(v if v[0] == "adapt" else ("iter", eng.resolve(st, v)))
    if trait == "Iterator" and std:
        return iterator(eng, fr, t, st, name, args, depth, stack, R, Rs, info)
    return None


ITERABLE = re.compile(r"(VecDeque|Vec|slice|HashMap|HashSet|BTreeMap|BTreeSet|IndexMap|IndexSet|Slab)\b")


def fork_bool(eng, fr, st, v):
    """[(state, bool)] for a boolean term."""
    neg = False
    while v[0] == "un" and v[1] == "Not":
        v = v[2]
        neg = not neg
    if v[0] == "const" and isinstance(v[1], int):
        return [(st, bool(v[1]) != neg)]
    from engine import canon_cond
    key, flip = canon_cond(v)
    known = st.facts.get(key)
    out = []
    for i, lab in enumerate([known] if isinstance(known, bool) else [True, False]):
        s2 = st if i == (0 if isinstance(known, bool) else 1) else st.fork()
        if not isinstance(known, bool):
            s2.facts[key] = lab
            s2.events.append(Ev("branch", recv=key, info=lab, fn=fr.fn, held=tuple(h[1] for h in s2.held)))
        out.append((s2, (lab != flip) != neg))
    return out


def apply_ref(eng, fr, t, st, f, pay, depth, stack):
    """Call a predicate with a reference to a value."""
    if pay[0] == "ptr":
        p = pay
    st.tmp += 1
    tp = (("T", st.tmp),)
    st.mem[tp] = pay
    return list(apply_fn(eng, fr, t, st, f, [("ptr", tp)], depth, stack))


def as_iter(eng, st, v):
    """into_iter() of a list kept element by element, a range or an iterator"""
    if v[0] in ("lit", "adapt", "iter"):
        return v
    if v[0] == "list":
        return ("lit", v[1])
    if v[0] == "agg" and v[1] == "array":
        return ("lit", tuple(x for _, x in v[3]))
    if v[0] == "agg" and v[1] in RANGES:
        return v
    if v[0] == "ptr":
        p, w = place_of(eng, st, v)
        if w[0] == "list":
            return ("lit", by_ref(st, w[1]))
        if w[0] == "agg" and w[1] == "array":
            return ("lit", by_ref(st, [x for _, x in w[3]]))
        if w[0] in ("lit", "adapt", "iter") or w[0] == "agg" and w[1] in RANGES:
            return v
    return None


def range_next(eng, fr, st, it):
    f = dict(it[3])
    lo, hi = f["start"], f["end"]

    def adv():
        one = const(1, lo[2] if lo[0] == "const" else "usize")
        return ("agg", it[1], None, (("start", eng.binop("Add", lo, one)), ("end", hi)))
    if lo[0] == "ctr" or lo[0] == "const" and hi[0] == "const" and hi[1] - lo[1] > 2:
        # a long loop: some iteration of it
        if lo[0] == "const":
            lo = ("ctr", 0)
        return [(st, lo, "ret", adv())]
    c = eng.binop("Le" if it[1] == RANGES[1] else "Lt", lo, hi)
    return [(s2, lo if b else None, "ret", adv() if b else it) for s2, b in fork_bool(eng, fr, st, c)]


def iter_next(eng, fr, t, st, it, depth, stack, n=0):
    """Advance an iterator value: [(state, payload or None, end, iterator afterwards)]."""
    if it[0] == "ptr":
        p, v = place_of(eng, st, it)
        if v[0] in ("lit", "adapt", "iter") or v[0] == "agg" and v[1] in RANGES:
            out = []
            for s2, x, e, it2 in iter_next(eng, fr, t, st, v, depth, stack, n):
                if e == "ret" and it2 != v:
                    eng.store(s2, p, it2, fr.fn, t.get("l", 0))
                out.append((s2, x, e, it))
            return out
        it = eng.resolve(st, it)
    if it[0] == "lit":
        return [(st, it[1][0], "ret", ("lit", it[1][1:]))] if it[1] else [(st, None, "ret", it)]
    if it[0] == "agg" and it[1] in RANGES:
        return range_next(eng, fr, st, it)
    if it[0] == "adapt":
        kind, inner, f = it[1], it[2], it[3]
        out = []
        for s2, x, end, in2 in iter_next(eng, fr, t, st, inner, depth, stack, n):
            me = ("adapt", kind, in2, f)
            if end != "ret" or x is None:
                out.append((s2, None, end, me))
            elif kind == "enumerate":
                out.append((s2, ("agg", "tuple", None, (("0", f), ("1", x))), "ret",
                            ("adapt", kind, in2, eng.binop("Add", f, const(1, "usize")))))
            elif kind == "inspect":
                out += [(s3, x if e == "ret" else None, e, me)
                        for s3, _, e in apply_ref(eng, fr, t, s2, f, x, depth, stack)]
            elif kind == "take_while":
                for s3, v, e in apply_ref(eng, fr, t, s2, f, x, depth, stack):
                    if e != "ret":
                        out.append((s3, None, e, me))
                        continue
                    out += [(s4, x if b else None, "ret", me if b else ("lit", ()))
                            for s4, b in fork_bool(eng, fr, s3, v)]
            elif kind == "flatten":
                w = x
                if (w[0] == "agg" and w[1] == OPT) or f:
                    for s3, nm, pay in opt(eng, fr, s2, w):
                        if nm == "Some":
                            out.append((s3, pay, "ret", me))
                        elif n < 1 or exact(in2):
                            out += iter_next(eng, fr, t, s3, me, depth, stack, n + 1)
                        else:
                            out.append((s3, None, "cut", me))
                else:
                    out.append((s2, None, "cut", me))
            elif kind == "map":
                out += [(s3, v, e, me) for s3, v, e in apply_fn(eng, fr, t, s2, f, [x], depth, stack)]
            elif kind == "filter_map":
                for s3, v, e in apply_fn(eng, fr, t, s2, f, [x], depth, stack):
                    if e != "ret":
                        out.append((s3, None, e, me))
                        continue
                    for s4, nm, pay in opt(eng, fr, s3, v):
                        if nm == "Some":
                            out.append((s4, pay, "ret", me))
                        elif n < 1:
                            out += iter_next(eng, fr, t, s4, me, depth, stack, n + 1)
                        else:
                            out.append((s4, None, "cut", me))
            else:
                for s3, v, e in apply_ref(eng, fr, t, s2, f, x, depth, stack):
                    if e != "ret":
                        out.append((s3, None, e, me))
                        continue
                    for s4, b in fork_bool(eng, fr, s3, v):
                        if b:
                            out.append((s4, x, "ret", me))
                        elif n < 1:
                            out += iter_next(eng, fr, t, s4, me, depth, stack, n + 1)
                        else:
                            out.append((s4, None, "cut", me))
        return out
    res = eng.new_call(st, "next")
    ev = Ev("call", name="next", trait="std::iter::Iterator", recv=it, args=(it,), line=t.get("l", 0), fn=fr.fn,
            res=res, info={"path": "std::iter::Iterator::next", "name": "next"}, id=res[1],
            held=tuple(h[1] for h in st.held), raw=(it,))
    ev.recv_path = origin(eng, st, it)
    st.events.append(ev)
    return [(s2, pay if nm == "Some" else None, "ret", it) for s2, nm, pay in opt(eng, fr, st, res)]


def collect(eng, fr, t, st, it, depth, stack, n=0):
    """[(state, list, end)] of everything the iterator yields"""
    out = []
    for s2, x, e, it2 in iter_next(eng, fr, t, st, it, depth, stack):
        if e != "ret":
            out.append((s2, None, e))
        elif x is None:
            out.append((s2, ("list", ()), "ret"))
        elif n >= 3:
            out.append((s2, None, "cut"))
        elif n >= 1 and not exact(it2):
            # as a loop: one element, then the end or cut
            for s3, y, e3, _ in iter_next(eng, fr, t, s2, it2, depth, stack):
                out.append((s3, ("list", (x,)), "ret") if e3 == "ret" and y is None else (s3, None, "cut"))
        else:
            out += [(s3, ("list", (x,) + w[1]) if e3 == "ret" else None, e3)
                    for s3, w, e3 in collect(eng, fr, t, s2, it2, depth, stack, n + 1)]
    return out


def exact(it):
    return it[0] == "lit" or it[0] == "adapt" and exact(it[2])


def iterator(eng, fr, t, st, name, args, depth, stack, R, Rs, info):
    it = args[0] if args else None
    if name in ("map", "filter", "filter_map", "inspect", "take_while") and len(args) == 2:
        return R(("adapt", name, it, args[1]))
    if name == "flatten" and "std::option::Option" in str((info.get("targs") or [{}])[0].get("s", "")):
        return R(("adapt", name, it, True))
    if name == "enumerate":
        return R(("adapt", name, it, const(0, "usize")))
    if name == "rev":
        v = eng.resolve(st, it)
        w = v
        while w[0] == "adapt" and w[1] in ("map", "filter"):
            w = w[2]
        if w[0] == "lit":
            def back(v):
                return ("lit", v[1][::-1]) if v[0] == "lit" else v[:2] + (back(v[2]),) + v[3:]
            return R(back(v))
        return None
    if name in ("into_iter", "by_ref"):
        return R(it)
    if name in ("cloned", "copied"):
        v = eng.resolve(st, it)
        return R(("lit", tuple(("clone", deref_all(eng, st, i)) for i in v[1]))) if v[0] == "lit" else None
    if name == "next":
        v = eng.resolve(st, it)
        if not (v[0] in ("adapt", "lit") or v[0] == "agg" and v[1] in RANGES):
            return None
        return Rs([(s2, some(x) if x is not None else NONE, e) if e == "ret" else (s2, None, e)
                   for s2, x, e, _ in iter_next(eng, fr, t, st, it, depth, stack)])
    if name == "collect":
        v = eng.resolve(st, it)
        targs = info.get("targs") or []
        if last((targs[-1] if targs else {}).get("adt") or "") not in LISTS:
            return None
        if v[0] in ("lit", "adapt"):
            return Rs(collect(eng, fr, t, st, it if it[0] == "ptr" else v, depth, stack))
        return None
    if name in ("count", "last", "fold", "find_map"):
        out = []

        def run(s, n, v, acc):
            for s2, x, e, v2 in iter_next(eng, fr, t, s, v, depth, stack):
                if e != "ret":
                    out.append((s2, None, e))
                elif x is None:
                    out.append((s2, acc))
                elif n >= 1 and not exact(v2):
                    out.append((s2, None, "cut"))
                elif name == "count":
                    run(s2, n + 1, v2, eng.binop("Add", acc, const(1, "usize")))
                elif name == "last":
                    run(s2, n + 1, v2, some(x))
                elif name == "fold":
                    for s3, r, e3 in apply_fn(eng, fr, t, s2, args[2], [acc, x], depth, stack):
                        run(s3, n + 1, v2, r) if e3 == "ret" else out.append((s3, None, e3))
                else:
                    for s3, r, e3 in apply_fn(eng, fr, t, s2, args[1], [x], depth, stack):
                        if e3 != "ret":
                            out.append((s3, None, e3))
                            continue
                        for s4, nm, pay in opt(eng, fr, s3, r):
                            out.append((s4, some(pay))) if nm == "Some" else run(s4, n + 1, v2, acc)
        run(st, 0, it if it[0] == "ptr" else eng.resolve(st, it),
            const(0, "usize") if name == "count" else args[1] if name == "fold" else NONE)
        return Rs(out)
    if name in ("for_each", "any", "all", "find", "position"):
        f = args[1]
        out = []

        def step(s, n, v):
            for s2, x, e, v2 in iter_next(eng, fr, t, s, v, depth, stack):
                if e != "ret":
                    out.append((s2, None, e))
                    continue
                if x is None:
                    out.append((s2, {"any": FALSE, "all": TRUE, "find": NONE, "position": NONE,
                                     "for_each": ("const", None, "()")}[name]))
                    continue
                if n >= 1:
                    out.append((s2, None, "cut"))
                    continue
                ap = apply_ref if name == "find" else (lambda *a: apply_fn(*a[:5], [a[5]], *a[6:]))
                for s3, r, e3 in ap(eng, fr, t, s2, f, x, depth, stack):
                    if e3 != "ret":
                        out.append((s3, None, e3))
                    elif name == "for_each":
                        step(s3, n + 1, v2)
                    else:
                        for s4, b in fork_bool(eng, fr, s3, r):
                            if b == (name != "all"):
                                out.append((s4, {"any": TRUE, "all": FALSE, "find": some(x),
                                                 "position": some(("const", n, "usize"))}[name]))
                            else:
                                step(s4, n + 1, v2)
        step(st, 0, it if it[0] == "ptr" else eng.resolve(st, it))
        return Rs(out)
    return None


def strip_gen(s):
    """Remove a trailing `::<T, A>` from a path."""
    i = s.find("::<")
    return s[:i] if i >= 0 else s


def split_args(s):
    out, depth, cur = [], 0, ""
    for ch in s:
        depth += ch in "<([" 
        depth -= ch in ">)]"
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    return out + [cur.strip()] if cur.strip() else out


LISTS = {"Vec", "VecDeque"}


def typed_default(eng, st, s):
    """The value of `T::default()` for the standard types"""
    s = (s or "").strip()
    if s == "bool":
        return FALSE
    if s in ("u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"):
        return const(0, s)
    head, _, rest = s.partition("<")
    a = split_args(rest[:-1]) if rest.endswith(">") else []
    h = last(head)
    if not s.startswith(("std::", "core::", "alloc::")):
        return ("const", "default", "default")
    if h == "Option":
        return NONE
    if h in ("Arc", "Rc", "Box") and a:
        st.tmp += 1
        v = typed_default(eng, st, a[0])
        p = (("T", f"{h}{st.tmp}" + (":" + type_words(a[0]) if v[0] == "agg" and v[1].startswith("lock::") else "")),)
        st.mem[p] = v
        return ("box", p)
    if h in ("Mutex", "RwLock", "Cell", "RefCell") and a:
        return ("agg", "lock::" + h, None, (("data", typed_default(eng, st, a[0])),))
    if h.startswith("Atomic"):
        w = h[6:].lower()
        return ("agg", "lock::Atomic", None, (("data", FALSE if w == "bool" else const(0, w)),))
    if h in LISTS:
        return ("list", ())
    if h == "PhantomData":
        return ("agg", "std::marker::PhantomData", None, ())
    return ("const", "default", "default")


def place_of(eng, st, a):
    """The place a chain of references ends at, with its content"""
    p = None
    n = 0
    while a[0] == "ptr" and n < 8:
        p = a[1]
        a = eng.load(st, p)
        n += 1
    return p, a


def lists(eng, fr, t, st, name, args, path, depth, stack, R, Rs):
    """Vectors built in the analysed function, kept element by element"""
    if not args:
        return R(("list", ())) if name == "new" else None
    if name == "with_capacity":
        return R(("list", ()))
    p, v = place_of(eng, st, args[0])
    ln = t.get("l", 0)
    if name == "drain" and len(args) == 2 and p is not None and args[1][0] == "agg" and last(args[1][1]) == "RangeFull":
        # everything is taken out, and handed out one by one
        eng.store(st, p, ("list", ()), fr.fn, ln)
        return R(as_iter(eng, st, v) or ("iter", v))
    if v[0] != "list" or p is None or not is_local(p):
        return None
    items = v[1]
    unit = ("const", None, "()")

    def put(new):
        eng.store(st, p, ("list", tuple(new)), fr.fn, ln)
    if name in ("push", "push_back"):
        put(items + (args[1],))
        return R(unit)
    if name == "push_front":
        put((args[1],) + items)
        return R(unit)
    if name in ("pop", "pop_back", "pop_front"):
        if not items:
            return R(NONE)
        put(items[1:] if name == "pop_front" else items[:-1])
        return R(some(items[0 if name == "pop_front" else -1]))
    if name == "is_empty":
        return R(FALSE if items else TRUE)
    if name == "len":
        return R(const(len(items), "usize"))
    if name == "clear":
        put(())
        return R(unit)
    if name in ("iter", "iter_mut"):
        return R(("lit", by_ref(st, items)))
    return None


def by_ref(st, items):
    out = []
    for i in items:
        st.tmp += 1
        tp = (("T", st.tmp),)
        st.mem[tp] = i
        out.append(("ptr", tp))
    return tuple(out)


RANGES = ("std::ops::Range", "std::ops::RangeInclusive")


def is_opt(aty):
    return bool(aty) and "Option" in (aty[0].get("adt") or "")


def find_from(eng, s, d):
    """workspace impl From<S> for D"""
    if not hasattr(eng.p, "_from"):
        eng.p._from = {}
        for f in eng.p.fns.values():
            if f.trait and last(f.trait.split("<")[0]) == "From" and f.name == "from":
                eng.p._from.setdefault(f.self_adt or (f.self_ty or {}).get("s"), []).append(f)
    c = eng.p._from.get(d.get("adt") or d.get("s"), [])
    if len(c) == 1 and not c[0].locals[1].get("adt"):
        return c[0]
    for f in c:
        a = f.locals[1].get("adt")
        if a and a == s.get("adt"):
            return f
    return None


def deref_all(eng, st, a, n=0):
    if a[0] == "ptr" and n < 5:
        return deref_all(eng, st, eng.load(st, a[1]), n + 1)
    return a


def option(eng, fr, t, st, name, args, depth, stack, R, Rs, aty, info):
    a0 = args[0]
    byref = a0[0] == "ptr" or (aty and aty[0].get("refs"))
    if name == "take":
        p, v = target(eng, st, a0)
        if p is not None:
            eng.store(st, p, NONE, fr.fn, t.get("l", 0))
        return R(v)
    if name in ("replace", "insert"):
        p, v = target(eng, st, a0)
        if p is not None:
            eng.store(st, p, some(args[1]), fr.fn, t.get("l", 0))
        if name == "insert":
            return R(("ptr", p + ("@Some", ".0")) if p is not None else ("proj", a0, ("*", "@Some", ".0")))
        return R(v)
    if name in ("is_some", "is_none"):
        p, v = target(eng, st, a0)
        return Rs([(s2, TRUE if (nm == "Some") == (name == "is_some") else FALSE) for s2, nm, _ in opt(eng, fr, st, v)])
    if name in ("as_ref", "as_mut", "as_deref", "as_deref_mut"):
        p, v = target(eng, st, a0)
        out = []
        for s2, nm, pay in opt(eng, fr, st, v):
            if nm == "None":
                out.append((s2, NONE))
            elif p is not None:
                q = p + ("@Some", ".0")
                if name.startswith("as_deref"):
                    w = strip_clone(eng.load(s2, q))
                    if w[0] == "box":
                        q = w[1]
                    else:
                        q = handle_path(eng, s2, w)
                out.append((s2, some(("ptr", q))))
            else:
                out.append((s2, some(pay)))
        return Rs(out)
    if name == "zip_never":
        pass
    if name in ("is_some_and", "is_none_or"):
        out = []
        for s2, nm, pay in opt(eng, fr, st, a0):
            if nm == "None":
                out.append((s2, FALSE if name == "is_some_and" else TRUE))
            else:
                out += list(apply_fn(eng, fr, t, s2, args[1], [pay], depth, stack))
        return Rs(out)
    if name in ("map", "and_then", "map_or", "map_or_else", "inspect", "filter"):
        out = []
        f = args[-1]
        for s2, nm, pay in opt(eng, fr, st, a0):
            if nm == "None":
                if name == "map_or":
                    out.append((s2, args[1]))
                elif name == "map_or_else":
                    out += list(apply_fn(eng, fr, t, s2, args[1], [], depth, stack))
                else:
                    out.append((s2, NONE))
                continue
            if name == "filter":
                for s3, v, end in apply_ref(eng, fr, t, s2, f, pay, depth, stack):
                    if end != "ret":
                        out.append((s3, v, end))
                        continue
                    for s4, b in fork_bool(eng, fr, s3, v):
                        out.append((s4, some(pay) if b else NONE))
                continue
            ap = apply_ref(eng, fr, t, s2, f, pay, depth, stack) if name == "inspect" else \
                apply_fn(eng, fr, t, s2, f, [pay], depth, stack)
            for s3, v, end in ap:
                if end != "ret":
                    out.append((s3, v, end))
                elif name == "map":
                    out.append((s3, some(v)))
                elif name == "inspect":
                    out.append((s3, some(pay)))
                else:
                    out.append((s3, v))
        return Rs(out)
    if name in ("unwrap", "expect", "unwrap_unchecked", "unwrap_or", "unwrap_or_default", "unwrap_or_else"):
        out = []
        for s2, nm, pay in opt(eng, fr, st, a0):
            if nm == "Some":
                out.append((s2, pay))
            elif name == "unwrap_or":
                out.append((s2, args[1]))
            elif name == "unwrap_or_default":
                targs = info.get("targs") or []
                out.append((s2, typed_default(eng, s2, targs[0].get("s") if targs else None)))
            elif name == "unwrap_or_else":
                out += list(apply_fn(eng, fr, t, s2, args[1], [], depth, stack))
            else:
                s2.events.append(Ev("panic", info=name, fn=fr.fn, held=tuple(h[1] for h in s2.held)))
                out.append((s2, None, "diverge"))
        return Rs(out)
    if name in ("and", "xor"):
        out = []
        for s2, nm, pay in opt(eng, fr, st, a0):
            if name == "and":
                out.append((s2, args[1] if nm == "Some" else NONE))
            elif nm == "None":
                out.append((s2, args[1]))
            else:
                out += [(s3, NONE if nm2 == "Some" else some(pay)) for s3, nm2, _ in opt(eng, fr, s2, args[1])]
        return Rs(out)
    if name == "flatten":
        return Rs([(s2, pay if nm == "Some" else NONE) for s2, nm, pay in opt(eng, fr, st, a0)])
    if name in ("take_if", "is_some_and_take"):
        p, v = target(eng, st, a0)
        out = []
        for s2, nm, pay in opt(eng, fr, st, v):
            if nm == "None":
                out.append((s2, NONE))
                continue
            for s3, b, end in apply_fn(eng, fr, t, s2, args[1], [("ptr", p + ("@Some", ".0"))], depth, stack):
                if end != "ret":
                    out.append((s3, b, end))
                    continue
                for s4, y in fork_bool(eng, fr, s3, b):
                    if y:
                        w = eng.load(s4, p)
                        eng.store(s4, p, NONE, fr.fn, t.get("l", 0))
                        out.append((s4, w))
                    else:
                        out.append((s4, NONE))
        return Rs(out)
    if name in ("or", "or_else"):
        out = []
        for s2, nm, pay in opt(eng, fr, st, a0):
            if nm == "Some":
                out.append((s2, some(pay)))
            elif name == "or":
                out.append((s2, args[1]))
            else:
                out += list(apply_fn(eng, fr, t, s2, args[1], [], depth, stack))
        return Rs(out)
    if name in ("ok_or", "ok_or_else"):
        out = []
        for s2, nm, pay in opt(eng, fr, st, a0):
            if nm == "Some":
                out.append((s2, ok(pay)))
            elif name == "ok_or":
                out.append((s2, ("agg", RES, "Err", (("0", args[1]),))))
            else:
                for s3, v, end in apply_fn(eng, fr, t, s2, args[1], [], depth, stack):
                    out.append((s3, ("agg", RES, "Err", (("0", v),)), end))
        return Rs(out)
    if name == "zip":
        out = []
        for s2, nm, pay in opt(eng, fr, st, a0):
            if nm == "None":
                out.append((s2, NONE))
                continue
            for s3, nm2, pay2 in opt(eng, fr, s2, args[1]):
                out.append((s3, NONE if nm2 == "None" else
                            some(("agg", "tuple", None, (("0", pay), ("1", pay2))))))
        return Rs(out)
    if name in ("get_or_insert", "get_or_insert_with", "get_or_insert_default"):
        p, v = target(eng, st, a0)
        out = []
        for s2, nm, pay in opt(eng, fr, st, v):
            if nm == "None":
                if name != "get_or_insert_with":
                    targs = info.get("targs") or []
                    new = args[1] if name == "get_or_insert" else typed_default(
                        eng, s2, targs[0].get("s") if targs else None)
                    eng.store(s2, p, some(new), fr.fn, t.get("l", 0))
                    out.append((s2, ("ptr", p + ("@Some", ".0"))))
                else:
                    for s3, w, end in apply_fn(eng, fr, t, s2, args[1], [], depth, stack):
                        if end == "ret":
                            eng.store(s3, p, some(w), fr.fn, t.get("l", 0))
                        out.append((s3, ("ptr", p + ("@Some", ".0")), end))
            else:
                out.append((s2, ("ptr", p + ("@Some", ".0"))))
        return Rs(out)
    if name in ("cloned", "copied"):
        out = []
        for s2, nm, pay in opt(eng, fr, st, a0):
            out.append((s2, NONE if nm == "None" else some(("clone", deref_all(eng, s2, pay, 4)))))
        return Rs(out)
    return None


def result(eng, fr, t, st, name, args, depth, stack, R, Rs, aty, info):
    a0 = args[0]

    def err(v):
        return ("agg", RES, "Err", (("0", v),))
    if name in ("is_ok", "is_err"):
        p, v = target(eng, st, a0)
        return Rs([(s2, TRUE if (nm == "Ok") == (name == "is_ok") else FALSE) for s2, nm, _ in res(eng, fr, st, v)])
    if name in ("ok", "err"):
        out = []
        for s2, nm, pay in res(eng, fr, st, a0):
            hit = (nm == "Ok") == (name == "ok")
            if not hit:
                for g in guards_in(pay) if pay else []:
                    eng.unlock(s2, g, fr.fn)
            out.append((s2, some(pay) if hit else NONE))
        return Rs(out)
    if name in ("unwrap", "expect", "unwrap_or", "unwrap_or_else", "unwrap_or_default"):
        out = []
        for s2, nm, pay in res(eng, fr, st, a0):
            if nm == "Ok":
                out.append((s2, pay))
            elif name == "unwrap_or":
                out.append((s2, args[1]))
            elif name == "unwrap_or_default":
                out.append((s2, ("const", "default", "default")))
            elif name == "unwrap_or_else":
                out += list(apply_fn(eng, fr, t, s2, args[1], [pay], depth, stack))
            else:
                s2.events.append(Ev("panic", info="Result::" + name, fn=fr.fn, recv=a0,
                                    held=tuple(h[1] for h in s2.held)))
                out.append((s2, None, "diverge"))
        return Rs(out)
    if name in ("and", "or"):
        return Rs([(s2, (args[1] if (nm == "Ok") == (name == "and") else ok(pay) if nm == "Ok" else err(pay)))
                   for s2, nm, pay in res(eng, fr, st, a0)])
    if name in ("unwrap_err", "expect_err"):
        out = []
        for s2, nm, pay in res(eng, fr, st, a0):
            if nm == "Ok":
                s2.events.append(Ev("panic", info="Result::" + name, fn=fr.fn, recv=a0,
                                    held=tuple(h[1] for h in s2.held)))
            out.append((s2, pay) if nm == "Err" else (s2, None, "diverge"))
        return Rs(out)
    if name in ("map", "map_err", "and_then", "or_else", "map_or", "map_or_else", "inspect", "inspect_err"):
        out = []
        for s2, nm, pay in res(eng, fr, st, a0):
            on_ok = name in ("map", "and_then", "map_or", "map_or_else", "inspect")
            if (nm == "Ok") != on_ok:
                if name == "map_or":
                    out.append((s2, args[1]))
                elif name == "map_or_else":
                    out += list(apply_fn(eng, fr, t, s2, args[1], [pay], depth, stack))
                else:
                    out.append((s2, ok(pay) if nm == "Ok" else err(pay)))
                continue
            ap = apply_ref(eng, fr, t, s2, args[-1], pay, depth, stack) if name.startswith("inspect") else \
                apply_fn(eng, fr, t, s2, args[-1], [pay], depth, stack)
            for s3, v, end in ap:
                if end != "ret":
                    out.append((s3, v, end))
                elif name == "map":
                    out.append((s3, ok(v)))
                elif name == "map_err":
                    out.append((s3, err(v)))
                elif name.startswith("inspect"):
                    out.append((s3, a0))
                else:
                    out.append((s3, v))
        return Rs(out)
    if name in ("is_ok_and", "is_err_and"):
        out = []
        for s2, nm, pay in res(eng, fr, st, a0):
            if (nm == "Ok") != (name == "is_ok_and"):
                out.append((s2, FALSE))
            else:
                out += list(apply_fn(eng, fr, t, s2, args[1], [pay], depth, stack))
        return Rs(out)
    return None
