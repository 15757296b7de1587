import sys
from mir import Server
s=Server(sys.argv[1] if len(sys.argv)>2 else '/verif/build')
def P(p):
    o='_%d'%p[0]
    for e in p[1]: o+='.'+(str(e) if not isinstance(e,list) else '/'.join(map(str,e)))
    return o
def O(o):
    if o[0] in('copy','move'): return P(o[1])
    return str(o[1])[:150]
def show(i):
    inf=s.inst(i); b=s.body(i)
    print('==',i,inf['name'],inf['kind'],inf['crate'])
    if b is None: print('nobody'); return
    print(b['argc'],'spread',b['spread'],b['file'],b['line'])
    for k,t in enumerate(b['locals']): print('  _%d: %s'%(k,s.ty(t)['s'][:150]))
    for k,bb in enumerate(b['blocks']):
        print(' bb%d:'%k)
        for st in bb['s']:
            if st[0]=='=': 
                rv=st[2]
                print('   ',P(st[1]),'=',rv[1],[ (O(x) if isinstance(x,list) and x and x[0] in('copy','move','const') else P(x) if isinstance(x,list) and len(x)==2 and isinstance(x[0],int) and isinstance(x[1],list) else [O(y) for y in x] if isinstance(x,list) else x) for x in rv[2:]])
            else: print('   ',st)
        t=bb['t']
        if t[0]=='call':
            c=t[1]; n=(s.inst(c)['name'][:200]+'#%d'%c) if isinstance(c,int) else c
            print('   ',P(t[4]),'= call',n,[O(a) for a in t[3]],'->',t[5])
        else: print('   ',[x if not(isinstance(x,list) and x and x[0] in('copy','move','const')) else O(x) for x in t])
pat=sys.argv[-1]
L=s.fns('openid4vci')+s.fns('.')
if pat.isdigit():
    import pickle
    show(int(pat))
else:
    for n,i in L:
        if i is not None and pat in n: show(i)
