"""lists the functions without MIR (or not inlined) that a crate function reaches"""
import sys, re
from mir import Server
from engine import NOINLINE
s=Server(sys.argv[1])
pat=sys.argv[2] if len(sys.argv)>2 else ''
seen={};ext={}
def visit(i,frm):
    if i in seen: return
    seen[i]=1
    b=s.body(i) if s.inst(i)['body'] else None
    inf=s.inst(i)
    if b is None or inf['kind']=='virtual' or any(p.search(inf['name']) for p in NOINLINE) or inf['crate'] not in('openid4vci','mirroots','core','alloc','std'):
        ext.setdefault(inf['name'],[]).append((frm,i)); return
    for bb in b['blocks']:
        t=bb['t']
        if t[0]=='call':
            if isinstance(t[1],int): visit(t[1],inf['name'])
            elif t[1] is None: pass
            else: ext.setdefault(str(t[1]),[]).append((frm,-1))
    for k,t in enumerate(b['locals']):
        ti=s.ty(t)
        if ti['k']=='closure':
            try: visit(s.ask('closure %d'%t),inf['name'])
            except Exception as e: pass
        
for n,i in s.fns('openid4vci')+s.fns('.'):
    if i is not None and pat in n and not '__' in n and 'serde::' not in n and '_serde' not in n and not n.startswith('ser_') and not n.startswith('de_') : visit(i,'root')
for n in sorted(ext):
    print(n[:150],'#%d'%ext[n][0][1],'<-',sorted({f[:70] for f,_ in ext[n]})[:3])
