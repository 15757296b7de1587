#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough]   decides one property on /repo's current tree.

Builds the MIR of /repo's crate, generates the obligations of every contract the property consists
of (and of every contract those proofs use) from that MIR, and discharges them."""
import sys, os, json, time, fcntl, subprocess, traceback
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(H, 'mirv'))
sys.setrecursionlimit(20000)
T0 = time.time()
BUILD = os.path.join(H, 'build')
MB = os.path.join(BUILD, 'm')
PB = os.path.join(BUILD, 'p')


def sh(cmd, timeout, **kw):
    return subprocess.run(cmd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build_mir():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, '.lock'), 'w') as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        r = sh([os.path.join(H, 'mirv', 'build.sh'), MB], 600)
    if r.returncode:
        print('the code does not build:\n' + r.stdout[-3000:])
        sys.exit(3)


def build_probe():
    os.makedirs(PB, exist_ok=True)
    lock = '/repo/Cargo.lock'
    with open(os.path.join(BUILD, '.lock'), 'w') as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        src = os.path.join(PB, 'crate')
        os.makedirs(os.path.join(src, 'src'), exist_ok=True)
        for f in ('Cargo.toml', 'src'):
            p = os.path.join(H, 'probe', f)
            if os.path.isdir(p):
                for g in os.listdir(p):
                    put(os.path.join(src, f, g), open(os.path.join(p, g)).read())
            else:
                put(os.path.join(src, f), open(p).read())
        if os.path.exists(lock):
            put(os.path.join(src, 'Cargo.lock'), open(lock).read(), only_new=True)
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(PB, 'target'), CARGO_NET_OFFLINE='true')
        # contents, not time stamps, decide whether the crate is built again (build_mir left their sum)
        now, was = os.path.join(MB, 'src.sum'), os.path.join(PB, 'src.sum')
        s = open(now).read()
        if not os.path.exists(was) or open(was).read() != s:
            sh(['cargo', 'clean', '--offline', '-q', '-p', 'openid4vci'], 100, cwd=src, env=env)
        r = sh(['cargo', 'build', '--offline', '-q'], 800, cwd=src, env=env)
        if not r.returncode:
            open(was, 'w').write(s)
    if r.returncode:
        return None, r.stdout[-3000:]
    return os.path.join(PB, 'target', 'debug', 'probe'), ''


def put(path, text, only_new=False):
    if os.path.exists(path):
        if only_new or open(path).read() == text:
            return
    open(path, 'w').write(text)


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        import mir, spec, contracts, deps, engine
        self.spec, self.contracts, self.deps, self.engine = spec, contracts, deps, engine
        self.srv = mir.Server(MB)
        self.insts = {n: i for n, i in self.srv.fns('openid4vci') + self.srv.fns('.') if i is not None}
        self.public = {n for n, p in self.srv.vis('openid4vci').items() if p} | {n for n in self.insts if n.startswith('mirroots::')}
        self.C = contracts.registry(self.insts, self.srv)
        self.prover = spec.Prover(cvc5=tier == 'thorough')
        self.deadline = self.prover.deadline = T0 + (2400 if tier == 'thorough' else 420)
        self.exclude = set()
        self.cache = {}

    def verify(self, name):
        """report of one function under the current set of excluded contracts"""
        hit = self.cache.get(name)
        if hit is not None and not (hit.callees & self.exclude):
            return hit
        if time.time() > self.deadline:
            r = self.cache[name] = self.spec.Report(name)
            r.unsupported.append(('out of time', ''))
            return r
        eng = self.engine.Engine(self.srv, self.deps.DEPS, {k: v for k, v in self.C.items() if k not in self.exclude or k == name})
        eng.deadline = self.deadline
        try:
            r = self.spec.verify(eng, self.prover, self.C[name], self.insts[name])
        except Exception as ex:     # the engine does not understand this function
            r = self.spec.Report(name)
            r.unsupported.append(('engine: %s %s' % (type(ex).__name__, ex), traceback.format_exc(limit=-2).strip().split('\n')[-1]))
            r.callees = set(eng.used_contracts)
        self.cache[name] = r
        return r

    def closure(self):
        """verify the property's functions and, where their contracts are used, their callees; a callee
        whose contract does not verify is not used: its body is"""
        names = [n for n, f in self.C.items() if self.prop in f.props or self.prop == 'C21' and f.nopanic]
        self.missing = [n for n in names if n not in self.insts]
        self.targets = [n for n in names if n in self.insts]
        while True:
            done, work = {}, list(self.targets)
            while work:
                n = work.pop()
                if n in done:
                    continue
                done[n] = r = self.verify(n)
                work += [c for c in r.callees if c in self.insts and c not in self.exclude]
            bad = {c for r in done.values() for c in r.callees if c in done and not done[c].ok and c not in self.exclude}
            if not bad:
                return done
            self.exclude |= bad

    def run(self):
        done = self.closure()
        self.done = done
        known = json.load(open(os.path.join(H, 'known_findings.json')))['known']
        fails, side, bounded, findings = [], [], [], []
        for n, r in done.items():
            mine = n in self.targets
            for o in r.obls:
                if o.status == 'proved':
                    continue
                if not mine:
                    continue
                if o.props is None:
                    side.append((n, o))
                elif self.prop in o.props:
                    k = [f for f in known if f['property'] == self.prop and f['function'] == n and f['clause'] == o.label]
                    if k:
                        if k[0] not in findings:
                            findings.append(k[0])
                    elif n in self.public:
                        fails.append((n, o))
            if mine and (r.unsupported or r.vacuous):
                if n in self.public:
                    bounded.append((n, r.unsupported[:3] or [('no reachable path', '')]))
            if mine and self.prop == 'C21' and r.taint and not r.unsupported and n in self.public:
                bounded.append((n, [('may panic: ' + w, '') for w in sorted(r.taint)[:3]]))
        for n in self.missing:
            if n not in self.contracts.OPTIONAL:
                bounded.append((n, [('function not found', '')]))
        if side:
            bounded += sorted({(n, (('loop summary: ' + o.name, o.where or ''),)) for n, o in side})
        # what z3 proves and cvc5 refutes is not discharged
        self.second = {}
        if self.prover.cvc5:
            a = self.prover.cvc5.answers()
            self.second = {{'unsat': 'agrees', 'sat': 'disagrees'}.get(k, k): len(v) for k, v in a.items()}
            for n, l in a.get('sat', []):
                fails += [(n, o) for o in done[n].obls if n in done and o.label == l and n in self.targets and self.prop in (o.props or ())][:1]
        self.fails, self.bounded, self.findings = fails, bounded, findings
        rc = 0
        viol = None
        stand_in = {}
        if fails or bounded or self.tier == 'thorough':
            secs = 600 if self.tier == 'thorough' else 240 if fails else 90
            if self.tier == 'thorough' and not fails and not bounded:
                secs = 300
            if self.tier != 'thorough':
                secs = max(30, min(secs, 800 - int(time.time() - T0)))
            found, out = self.search(secs)
            stand_in = out
            if found:
                viol = found
                rc = 1
            elif fails:
                viol = self.replay_obligation(fails)
                rc = 1
        for f in findings:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, f['what']))
        for n, o in fails[:6]:
            print('FAILED %s: %s (%s) at %s' % (n, o.label, o.status, o.where or 'return'))
        for n, u in bounded[:6]:
            print('BOUNDED %s: %s' % (n, '; '.join('%s %s' % tuple(x) for x in u)[:300]))
        self.evidence(rc, stand_in)
        if rc:
            print('VIOLATION property=%s replay=%s' % (self.prop, viol))
        else:
            t = self.total()
            print('OK property=%s: %d of %d obligations of %d functions discharged in %.1f s' % (self.prop, t[1], t[0], len(self.done), time.time() - T0))
        return rc

    def total(self):
        obs = [o for r in self.done.values() for o in r.obls if not o.label.startswith(self.spec.STRICT)]
        return len(obs), sum(o.status == 'proved' for o in obs)

    # ---- search for a failing input on the real code
    def search(self, secs):
        exe, err = build_probe()
        if exe is None:
            return None, {'error': err}
        d = os.path.join(BUILD, 'replay')
        os.makedirs(d, exist_ok=True)
        dic = os.path.join(d, self.prop + '.dict.json')
        json.dump(self.dictionary(), open(dic, 'w'))
        out = os.path.join(d, self.prop + '.json')
        if os.path.exists(out):
            os.remove(out)
        try:
            r = sh([exe, 'search', self.prop, str(self.seed), str(secs), dic, out], secs + 120)
        except subprocess.TimeoutExpired:
            return None, {'error': 'search timed out'}
        try:
            stats = json.loads(r.stdout.strip().split('\n')[-1])
        except Exception:
            stats = {'error': r.stdout[-500:]}
        if r.returncode == 1 and os.path.exists(out):
            v = json.load(open(out))
            print('failing input: ' + json.dumps(v)[:1500])
            v['replay_cmd'] = '%s replay %s' % (exe, out)
            v['failed_obligations'] = self.described(self.fails)
            json.dump(v, open(out, 'w'), indent=1)
            return out, stats
        return None, stats

    def dictionary(self):
        strs, ints = set(), set()
        for n, i in self.insts.items():
            if 'serde' in n or 'Debug' in n:
                continue
            try:
                b = self.srv.body(i)
            except Exception:
                continue
            stack = [b]
            while stack:
                x = stack.pop()
                if isinstance(x, dict):
                    if x.get('k') == 'str' and isinstance(x.get('v'), str) and len(x['v']) < 60:
                        strs.add(x['v'])
                    if x.get('k') == 'int':
                        try:
                            v = int(x['v'])
                            ints.add(v)
                        except Exception:
                            pass
                    stack += list(x.values())
                elif isinstance(x, list):
                    stack += x
        ints = {x + d for x in ints for d in (-1, 0, 1)}
        return {'strings': sorted(strs), 'ints': sorted(str(x) for x in ints if 0 <= x < 2**64)}

    def described(self, fails):
        r = []
        for n, o in fails[:20]:
            r.append({'function': n, 'obligation': o.label, 'status': o.status, 'back_end': o.by, 'where': o.where,
                      'model': None if o.model is None else str(o.model)[:4000], 'goal': str(o.goal)[:2000]})
        return r

    def replay_obligation(self, fails):
        d = os.path.join(BUILD, 'replay')
        os.makedirs(d, exist_ok=True)
        out = os.path.join(d, self.prop + '.json')
        json.dump({'property': self.prop, 'failed_obligations': self.described(fails)}, open(out, 'w'), indent=1)
        return out + ' no-failing-input-found'

    def evidence(self, rc, stand_in):
        n, ok = self.total()
        used = sorted({d for r in self.done.values() for d in r.deps})
        fns = {}
        for k, r in sorted(self.done.items()):
            fns[k] = {'obligations': len(r.obls), 'discharged': sum(o.status == 'proved' for o in r.obls), 'paths': r.paths,
                      'panicking_paths': r.panics, 'inlined': len(r.inlined), 'used_contracts': len(r.callees), 'seconds': round(r.secs, 2),
                      'decides_the_property': k in self.targets}
            if r.unsupported:
                fns[k]['outside_the_verifier'] = [u[0][:200] for u in r.unsupported[:5]]
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'proof',
            'coverage': {
                'obligations': n, 'discharged': ok,
                'checker_cmd': 'python3-vt check.py %s --tier %s' % (self.prop, self.tier),
                'trusted_base': ['rustc nightly MIR generation (the proof reads the MIR of /repo\'s working tree)',
                                 'mirv engine: MIR semantics and obligation generation (/verif/mirv/engine.py, sorts.py, spec.py)',
                                 'z3 ' + __import__('z3').get_version_string()] + ['assumed contract: ' + d for d in used],
                'back_ends': self.prover.by, 'solver_s': round(self.prover.time, 2),
                'second_opinion_of_cvc5_on_what_z3_proved': self.second,
                'functions_under_contract': fns,
                'property_clauses': sum(1 for r in self.done.values() for o in r.obls if o.props and self.prop in o.props),
                'panic_paths_refuted': sum(1 for r in self.done.values() for o in r.obls if o.label == 'no panic' and o.status == 'proved'),
                'unsound_contracts_not_used': sorted(self.exclude),
                'undischarged': self.described(self.fails),
                'bounded_instead_of_proved': [{'function': k, 'why': [x[0][:200] for x in u]} for k, u in self.bounded],
                'search_of_the_real_code': stand_in,
            },
            'obligations_of_known_findings': [{'function': n, 'clause': o.label, 'status': o.status} for n, r in self.done.items() for o in r.obls
                                              if o.label.startswith(self.spec.STRICT) and o.props and self.prop in o.props],
            'known_findings': [f['what'] for f in self.findings],
            'assumptions': self.contracts.ASSUMPTIONS,
            'violations': rc,
            'wall_s': round(time.time() - T0, 2),
        }
        os.makedirs(os.path.join(H, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(H, 'evidence', self.prop + '.json'), 'w'), indent=1)


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    build_mir()
    c = Check(prop, 'thorough' if tier == 'thorough' else 'quick')
    try:
        rc = c.run()
    finally:
        c.srv.close()
    sys.exit(rc)


main()
