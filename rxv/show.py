import sys, time
from engine import *
P = Program("/verif/build/dump")
def main():
    pat = sys.argv[1]; meth = sys.argv[2] if len(sys.argv) > 2 else None
    e = Engine(P)
    for a in sys.argv[3:]:
        setattr(e, a, True)
    for f in P.fns.values():
        if pat in f.path and (meth is None or f.name == meth or (meth=='closure' and f.kind=='closure')):
            t=time.time()
            try:
                ps = e.analyse(f)
            except Incomplete as x:
                print("INCOMPLETE", x); continue
            print("==", f.path, f.short(), f.line, len(ps), "paths %.2fs" % (time.time()-t))
            for i, p in enumerate(ps[:40]):
                print("  -- path", i, p.end)
                for ev in p.events:
                    print("     ", ev, ("<"+(ev.recv_path or "")+">") if ev.k=="call" else "")
if __name__ == "__main__":
    main()
