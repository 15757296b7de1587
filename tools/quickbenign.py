#!/usr/bin/env python3
"""quickbenign.py [-jN] [ID..]  -- which functions are no longer proved after each behaviour-preserving edit of tools/benign (one pass over all contracts per edit; lanes.py runs the checks themselves)"""
import sys, os, glob, subprocess, threading, queue, time
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N, only = 4, []
for x in sys.argv[1:]:
    if x.startswith('-j'): N = int(x[2:])
    else: only.append(x)
S = []
for f in sorted(glob.glob(H + '/tools/benign/*.py')):
    g = {}
    exec(open(f).read(), g)
    S += g['SEEDS']
q = queue.Queue()
for s in S:
    if not only or s['id'] in only: q.put(s)
def sh(c): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
def lane(n):
    L = '/tmp/q%d' % n
    os.makedirs(L, exist_ok=True)
    sh(f'[ -d {L}/m ] || cp -a /tmp/mb {L}/m')
    while True:
        try: s = q.get_nowait()
        except queue.Empty: return
        sh(f'rsync -a --delete --exclude target /repo/ {L}/repo/')
        bad = ''
        for f, o, w in s['edits']:
            p = f'{L}/repo/crates/openid4vci/src/{f}'
            t = open(p).read()
            if t.count(o) < 1: bad += 'NO MATCH %s ' % o[:60]
            open(p, 'w').write(t.replace(o, w, 1))
        t0 = time.time()
        r = sh(f"unshare -rm bash -c 'mount --bind {L}/repo /repo && cd {H} && bash mirv/build.sh {L}/m >{L}/log 2>&1 || {{ tail -30 {L}/log; exit 3; }}; MB={L}/m timeout 2400 python3-vt mirv/t.py'")
        out = [l for l in r.stdout.split('\n') if l and not l.startswith('ok') and ': strict:' not in l and not ('FAIL' in l and 'evaluate_credential_request' in l and r.stdout.count('strict:') == sum(': strict:' in x for x in r.stdout.split('\n')) and False)]
        out = [l for l in out if not l.startswith('FAIL') or 1]
        slow = [l.split()[1][-60:] + ' ' + l.split()[-1] for l in r.stdout.split('\n') if l[:4] in ('ok  ', 'FAIL') and float(l.split()[-1][:-1]) > 40]
        print('%-26s rc %d %4.0fs %s %s' % (s['id'], r.returncode, time.time() - t0, bad, '; '.join(slow)), flush=True)
        for l in out: print('      ', l[:260], flush=True)
ts = [threading.Thread(target=lane, args=(k,)) for k in range(N)]
[t.start() for t in ts]
[t.join() for t in ts]
