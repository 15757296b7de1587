"""runs the symbolic executor over all functions of the crate (debugging aid)"""
import sys, time, traceback
sys.path.insert(0,'/verif/mirv')
sys.setrecursionlimit(10000)
from mir import Server
from engine import *
import deps
s=Server(sys.argv[1]); pat=sys.argv[2] if len(sys.argv)>2 else ''
Engine.debug=len(sys.argv)>4
verbose=len(sys.argv)>3
from collections import Counter
bad=Counter()
for n,i in s.fns('openid4vci')+s.fns('.'):
    if i is None or pat not in n: continue
    if 'serde' in n or 'ser_' in n or 'de_' in n or 'Debug>' in n or 'Hash' in n: continue
    inf=s.inst(i)
    if any(s.ty(t)['k']=='ref' and s.ty(t)['mut'] for t in inf['in']): continue
    e=Engine(s,deps.DEPS); t0=time.time()
    try:
        args,outs=e.run_function(i)
        c=Counter(o.kind for o in outs)
        print('%-110s %s %.1fs obl=%d'%(n[-110:],dict(c),time.time()-t0,len(e.obls)))
        for o in outs:
            if o.kind=='unsupported': bad[o.msg[:150]]+=1; print('     ',o.msg[:200],'@',o.where[-110:])
            if verbose: 
                print('  --',o.kind,o.msg or '',o.where or ''); print('     pc',[str(x) for x in o.st.pc][:40]); print('     val',o.val)
    except Exception as ex:
        print(n,'CRASH',type(ex).__name__,ex); bad['CRASH '+str(ex)[:100]]+=1
        traceback.print_exc(limit=-4)
print(); 
for k,v in bad.most_common(): print(v,k)
