import sys, time, traceback, collections
from engine import *
P = Program("/verif/build/dump")
e = Engine(P, max_paths=5000)
bad=[]; T=time.time(); slow=[]
errs=collections.Counter()
n=0
for f in P.fns.values():
    if f.derived or f.kind=='closure' : continue
    if not f.crate.startswith('rx_') : continue
    t=time.time(); n+=1
    try:
        ps=e.analyse(f)
    except Incomplete as x:
        print("INC", f.path, str(x)[:100])
    except Exception as x:
        errs[repr(x)[:80]]+=1
        if errs[repr(x)[:80]]<=2: print("ERR", f.path); traceback.print_exc(limit=-4)
    d=time.time()-t
    if d>1: slow.append((round(d,1),len(ps),f.path))
print(n, time.time()-T, errs); print(slow)
