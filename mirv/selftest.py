#!/usr/bin/env python3-vt
"""Verifies the functions of lab/lab.rs: every yes_ function returns true for all inputs, no no_ function may be shown to.
   selftest.py [PATTERN..]   (build first: MIRV_LAB=1 bash mirv/build.sh DIR; MB=DIR)"""
import sys, os, time, signal
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from mir import Server
import deps, spec, contracts
from engine import Engine
s = Server(os.environ['MB'])
insts = {n: i for n, i in s.fns('.') if i is not None and '::lab::' in n and '{' not in n}
pats = [a for a in sys.argv[1:] if not a.startswith('-')]
class Late(Exception): pass
def late(*a): raise Late()
signal.signal(signal.SIGALRM, late)
tot, wrong = {}, []
for n in sorted(insts):
    b = n.split('::')[-1]
    if not b.startswith(('yes_', 'no_')) or pats and not any(p in b for p in pats): continue
    f = spec.Fn(n, lambda cx: [('true', (), cx.ret.e)])
    t = time.time()
    e = Engine(s, deps.DEPS, {})
    signal.alarm(60)
    try:
        r = spec.verify(e, spec.Prover(), f, insts[n])
        why = '; '.join(sorted({u[0][:150] + ' ' + u[1][-60:] for u in r.unsupported})[:3])
        st = 'unsupported' if r.unsupported else 'proved' if r.ok else next((o.status + ' ' + o.label for o in r.obls if o.status != 'proved'), 'vacuous' if r.vacuous else '?')
    except Late:
        st, why = 'timeout', ''
    except Exception as ex:
        st, why = 'crash', repr(ex)[:150]
    signal.alarm(0)
    want = b.startswith('yes_')
    k = 'ok' if (st == 'proved') == want else 'UNSOUND' if not want else 'open'
    tot[k] = tot.get(k, 0) + 1
    if k == 'UNSOUND': wrong.append(b)
    if k != 'ok' or '-v' in sys.argv:
        print('%-8s %-28s %-22s %.1fs %s' % (k, b, st, time.time() - t, why), flush=True)
print(tot)
sys.exit(bool(wrong))
