"""Loop structure of one body: dominators, natural loops, nesting."""


def succs(b):
    t = b["t"]
    k = t["k"]
    if k in ("goto",):
        return [t["t"]]
    if k == "switch":
        return [x for _, x in t["ts"]]
    if k in ("drop", "assert", "call"):
        return [t["t"]] if t.get("t") is not None else []
    return [t["t"]] if t.get("t") is not None else []


def loops(fn):
    """{header: set of blocks} of natural loops (same header joined)."""
    n = len(fn.blocks)
    S = [[s for s in succs(b) if s is not None] for b in fn.blocks]
    order, seen = [], {0}
    st = [(0, iter(S[0]))]
    while st:
        u, it = st[-1]
        for v in it:
            if v not in seen:
                seen.add(v)
                st.append((v, iter(S[v])))
                break
        else:
            order.append(u)
            st.pop()
    rpo = order[::-1]
    num = {b: i for i, b in enumerate(rpo)}
    P = {b: [] for b in rpo}
    for b in rpo:
        for s in S[b]:
            P[s].append(b)
    idom = {0: 0}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for p in P[b]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        a, c = p, new
                        while a != c:
                            while num[a] > num[c]:
                                a = idom[a]
                            while num[c] > num[a]:
                                c = idom[c]
                        new = a
            if idom.get(b) != new:
                idom[b] = new
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = idom[b]
    out = {}
    for b in rpo:
        for s in S[b]:
            if dom(s, b):
                body = {s}
                w = [b]
                while w:
                    x = w.pop()
                    if x not in body:
                        body.add(x)
                        w.extend(P[x])
                out[s] = out.get(s, set()) | body
    return out


def nested(fn):
    ls = loops(fn)
    return any(a != b and b in ls[a] for a in ls for b in ls)


if __name__ == "__main__":
    from engine import Program
    P = Program("/verif/build/dump")
    for f in P.fns.values():
        if f.crate.startswith("rx_") and not f.derived:
            ls = loops(f)
            if ls:
                print("NEST" if nested(f) else "loop", len(ls), f.path[-110:])
