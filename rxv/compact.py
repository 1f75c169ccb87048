import sys
from engine import *
P = Program("/verif/build/dump")
def words(p):
    out=[]
    for e in p.events:
        if e.k=='branch': out.append(f"[{render(e.recv)}={e.info}]")
        elif e.k=='call': out.append(f"{e.recv_path}.{e.name}({', '.join(render(a) for a in e.args[1:])})"+("{H:"+",".join(e.held)+"}" if e.held else ""))
        elif e.k=='store': out.append(f"{rpath(e.recv)}:={render(e.res)[:60]}")
        elif e.k in('lock','unlock'): out.append(f"{e.k[0].upper() if e.k=='lock' else 'u'}<{e.name}>")
        elif e.k=='drop': out.append(f"drop({render(e.recv)})")
        elif e.k=='panic': out.append("PANIC "+str(e.info))
    return out
def show(f,e,maxp=12):
    try: ps=e.analyse(f)
    except Incomplete as x:
        print("INC",f.short()); return
    print("==",f.crate.replace('rx_core_',''),f.short(),len(ps))
    for p in ps[:maxp]:
        print("    ",p.end[0],' '.join(words(p)), '-> '+render(p.ret) if p.ret and p.ret[0]!='const' or p.ret and p.ret[2]=='bool' else '')
if __name__=='__main__':
    e=Engine(P,max_paths=400)
    for f in P.fns.values():
        if f.crate.startswith(sys.argv[1]) or sys.argv[1]=='*':
            if len(sys.argv)>2 and f.name not in sys.argv[2].split(','): continue
            if len(sys.argv)>3 and sys.argv[3] not in (f.self_adt or ''): continue
            if f.derived and not f.macro: continue
            show(f,e)
