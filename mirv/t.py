import sys, time
sys.path.insert(0,'/verif/mirv'); sys.setrecursionlimit(20000)
from mir import Server
import deps, spec, contracts
from engine import Engine
import os
s=Server(os.environ.get('MB','/verif/build/m'))
insts={n:i for n,i in s.fns('openid4vci')+s.fns('.') if i is not None}
C=contracts.registry(insts,s)
Engine.debug='-d' in sys.argv
pr=spec.Prover()
pats=[a for a in sys.argv[1:] if not a.startswith('-')]
for n,f in C.items():
    if pats and not any(p in n for p in pats): continue
    if n not in insts: print('MISSING',n); continue
    e=Engine(s,deps.DEPS,dict(C))
    r=spec.verify(e,pr,f,insts[n])
    print('%-4s %-100s paths=%d obl=%d %.2fs'%('ok' if r.ok else 'FAIL',n[-100:],r.paths,len(r.obls),r.secs))
    for u in sorted(set(r.unsupported)): print('     UNSUPPORTED',u[0][:200],u[1][-100:])
    if '-t' in sys.argv:
        from collections import Counter
        c=Counter()
        for o in r.obls: c[o.label]+=getattr(o,'secs',0)
        for l,x in c.most_common(6): print('        %.2fs %s'%(x,l))
    seen=set()
    for o in r.obls:
        if o.status!='proved' and o.label not in seen:
            seen.add(o.label)
            print('     ',o.status,o.name[-150:],(o.where or '')[-80:])
            if '-v' in sys.argv:
                for x in o.st.pc: print('         pc',str(x).replace('\n',' ')[:300])
                print('         goal',str(o.goal)[:2000]); 
                if o.model is not None: print('         model',str(o.model)[:3000])
