#!/usr/bin/env python3
"""Runs checks against changed copies of /repo, several at a time (each in a mount namespace of its own, where a
copy of /repo and of /verif is bound over the original; the originals are not touched).
   tools/lanes.py seeds [ID..]            every planted bug against the check of its property
   tools/lanes.py benign [ID..]           every behaviour-preserving edit of tools/benign/*.py against the checks it names
   tools/lanes.py cross [ID..]            every planted bug against every check
   tools/lanes.py clean [C01..]           the unchanged tree
   options: -jN lanes, -p PROP only this check"""
import os, sys, json, subprocess, time, glob, queue, threading, shutil
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = 'crates/openid4vci/src/'
mode = sys.argv[1]
N = 4
only, props = [], []
a = sys.argv[2:]
while a:
    x = a.pop(0)
    if x.startswith('-j'): N = int(x[2:])
    elif x == '-p': props.append(a.pop(0))
    else: only.append(x)
reg = [c['property'] for c in json.load(open(H + '/MANIFEST.json'))['checks']]


def defs(d):
    S = []
    for f in sorted(glob.glob(os.path.join(H, 'tools', d, '*.py'))):
        g = {}
        exec(open(f).read(), g)
        S += g['SEEDS']
    return S


tasks = queue.Queue()
if mode in ('seeds', 'cross'):
    for i in sorted(os.listdir(H + '/seeded')):
        if only and i not in only: continue
        p = json.load(open(f'{H}/seeded/{i}/meta.json'))['property']
        for q in (reg if mode == 'cross' else [p]):
            if props and q not in props: continue
            tasks.put((i, ('patch', f'{H}/seeded/{i}/patch.diff'), q))
elif mode == 'benign':
    for s in defs('benign'):
        if only and s['id'] not in only: continue
        for q in s['props']:
            if props and q not in props: continue
            tasks.put((s['id'], ('edits', s['edits']), q))
else:
    for q in only or reg:
        tasks.put(('clean', ('edits', []), q))


def sh(c):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def lane(n):
    L = f'/tmp/lane{n}'
    os.makedirs(L, exist_ok=True)
    sh(f'rsync -a --delete /repo/ {L}/repo/; rsync -a --delete --exclude seeded --exclude build {H}/ {L}/verif/')
    if not os.path.exists(f'{L}/verif/build'):
        sh(f'cp -a {H}/build {L}/verif/build')
    while True:
        try:
            i, ch, q = tasks.get_nowait()
        except queue.Empty:
            return
        if ch[0] == 'patch':
            r = sh(f'git -C {L}/repo apply {ch[1]}')
            if r.returncode:
                print(i, 'patch does not apply', r.stdout)
        else:
            for f, old, new in ch[1]:
                p = f'{L}/repo/{SRC}{f}'
                t = open(p).read()
                if t.split('#[cfg(test)]\nmod')[0].count(old) != 1:
                    print(i, 'edit matches %d times: %s' % (t.count(old), old[:60]), flush=True)
                open(p, 'w').write(t.replace(old, new, 1))
        t = time.time()
        r = sh(f"unshare -rm bash -c 'mount --bind {L}/repo /repo && mount --bind {L}/verif /verif && cd /verif && VERIF_SEED=1 VERIF_TIER=quick python3-vt check.py {q}'")
        v = [l for l in r.stdout.split('\n') if l.startswith(('VIOLATION', 'BOUNDED', 'FAILED'))]
        print(f"{i:24} {q} exit {r.returncode} {time.time()-t:4.0f}s " + (' | '.join(x[:220] for x in v) or '-'), flush=True)
        if r.returncode not in (0, 1):
            print(r.stdout[-1500:], flush=True)
        open(f'/tmp/lanelog.{i}.{q}', 'w').write(r.stdout)
        sh(f'git -C {L}/repo checkout -- .')


ts = [threading.Thread(target=lane, args=(k,)) for k in range(N)]
[t.start() for t in ts]
[t.join() for t in ts]
