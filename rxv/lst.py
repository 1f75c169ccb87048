import sys
from engine import *
P = Program("/verif/build/dump")
for tr in sys.argv[1:]:
    m=None
    if ':' in tr: tr,m=tr.split(':')
    fs=P.impls_of(tr,m)
    print("##",tr,len(fs))
    seen={}
    for f in fs: seen.setdefault((f.crate,f.self_adt.split('::')[-1] if f.self_adt else f.self_ty['s']),[]).append(f.name+('*' if f.macro else '')+('~' if f.derived else ''))
    for k,v in sorted(seen.items()): print("  ",k[0].replace('rx_core_',''),k[1],v)
