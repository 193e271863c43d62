import sys, json, time
sys.path.insert(0,'/verif/engine')
import interp, prover, models, terms as T
from values import Unsupported
d=json.load(open(sys.argv[1])); P=interp.Prog(d)
pat=sys.argv[2]
for fid in P.entries:
    f=P.funs[fid]
    import re
    if not re.search(pat, f["name"]): continue
    t0=time.time()
    it=interp.Interp(P, {"debug": 1} if "-d" in sys.argv else {})
    try:
        ob=it.run_entry(fid)
    except Unsupported as e:
        print(f['name'],'UNSUPPORTED',e)
        if '-t' in sys.argv:
            import traceback; traceback.print_exc()
        continue
    print(f['name'],'paths',it.npaths,'obl',len(ob),'t %.1f'%(time.time()-t0))
    cnt={}
    for o in ob:
        r=prover.prove(o.pc,o.goal)
        cnt[(r.status,r.by)]=cnt.get((r.status,r.by),0)+1
        if r.status!='proved':
            print('   ',r.status,o.name,o.where,'%.1fs'%r.time,str(T.show(o.goal))[:300] if '-v' in sys.argv else '', r.model if '-v' in sys.argv else '')
            if '-vv' in sys.argv:
                for c in o.pc: print('      pc',T.show(c)[:300])
    print('   ',cnt,'t %.1f'%(time.time()-t0))
