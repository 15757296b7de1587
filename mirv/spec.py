"""Contracts on the crate's functions: pre/postconditions stated over logical views of arguments,
result and clock; verified function by function, used at calls instead of bodies."""
import re, z3
from sorts import Unsupported, strval, strlit, I, B, S
from engine import Tm, Agg, Lst, Ptr, Sp, Undef, State, Obl, Engine, TRUE, FALSE
import deps, lemmas

And, Or, Not, Implies = z3.And, z3.Or, z3.Not, z3.Implies


def conj(xs):
    xs = [x for x in xs if not z3.is_true(x)]
    return z3.And(*xs) if xs else TRUE


class V:
    """a value of a Rust type, as seen by specifications"""
    def __init__(self, eng, ty, e):
        self.eng, self.ty, self.e = eng, eng.T.peel(ty), e

    @property
    def T(self):
        return self.eng.T

    def is_(self, variant):
        return self.T.isv(self.ty, self.e, self.T.variant_index(self.ty, variant))

    def f(self, name, variant=None):
        vi = self.T.variant_index(self.ty, variant) if variant is not None else 0
        k = name if isinstance(name, int) else self.T.field_index(self.ty, vi, name)
        t = self.T.variants(self.ty)[vi]['fields'][k]['ty']
        return V(self.eng, t, self.T.proj(self.ty, self.e, vi, k))

    def __getattr__(self, n):
        if n.startswith('__') or n in ('eng', 'ty', 'e'):
            raise AttributeError(n)
        return self.f(n)

    # Option / Result
    @property
    def is_some(self):
        return self.is_('Some')

    @property
    def is_none(self):
        return self.is_('None')

    @property
    def val(self):
        return self.f(0, 'Some')

    @property
    def is_ok(self):
        return self.is_('Ok')

    @property
    def is_err(self):
        return self.is_('Err')

    @property
    def ok(self):
        return self.f(0, 'Ok')

    @property
    def err(self):
        return self.f(0, 'Err')

    def variants(self):
        return [v['name'] for v in self.T.variants(self.ty)]

    # sequences
    @property
    def ety(self):
        return self.T.elem(self.ty)

    @property
    def len(self):
        return self.T.len_f(self.ety)(self.e)

    def at(self, k):
        return V(self.eng, self.ety, self.T.at_f(self.ety)(self.e, k if isinstance(k, z3.ExprRef) else z3.IntVal(k)))

    def all(self, p):
        j = z3.Int('j?%d' % next(self.eng.cnt))
        return z3.ForAll([j], Implies(And(j >= 0, j < self.len), p(j, self.at(j))))

    def any(self, p):
        j = z3.Int('j?%d' % next(self.eng.cnt))
        return z3.Exists([j], And(j >= 0, j < self.len, p(j, self.at(j))))

    def __eq__(self, o):
        o = lift(o)
        if not isinstance(o, V):
            return self.eng.mk_eq(self.e, o)
        return self.eng.mk_eq(self.e, o.e)

    def __ne__(self, o):
        return Not(self == o)

    __hash__ = None

    def __lt__(self, o): return self.e < zz(o)
    def __le__(self, o): return self.e <= zz(o)
    def __gt__(self, o): return self.e > zz(o)
    def __ge__(self, o): return self.e >= zz(o)

    @property
    def b(self):
        return self.e


def lift(o):
    if isinstance(o, bool):
        return z3.BoolVal(o)
    if isinstance(o, int):
        return z3.IntVal(o)
    if isinstance(o, str):
        return strval(o)
    return o


def zz(o):
    o = lift(o)
    return o.e if isinstance(o, V) else o


def same_seq(a, b):
    """extensional equality of sequences"""
    j = z3.Int('j?%d' % next(a.eng.cnt))
    return And(a.len == b.len, z3.ForAll([j], Implies(And(j >= 0, j < a.len), a.at(j).e == b.at(j).e)))


class Cx:
    """context of a contract: arguments, result, clock window"""
    def __init__(self, eng, args, ret, t0, t1):
        self.eng, self.args, self.ret, self.t0, self.t1 = eng, args, ret, t0, t1

    def __getitem__(self, k):
        return self.args[k]

    def uf(self, name, *args_rng):
        return z3.Function(name, *args_rng)


class Fn:
    """contract of one function: clauses(cx) -> [(label, properties, formula)]"""
    def __init__(self, name, clauses, props=(), modular=True, nopanic=True, doc='', setup=None):
        self.name, self.clauses, self.props, self.modular, self.nopanic, self.doc = name, clauses, props, modular, nopanic, doc
        self.setup = setup

    def apply(self, eng, st, info, vs):
        # logical views of the arguments; a pointer to mutable state is not covered by a contract
        args = []
        for t, v in zip(info['in'], vs):
            if eng.T.info(t)['k'] == 'ref' and eng.T.info(t)['mut']:
                return None
            args.append(V(eng, t, eng.z(st, deps.load(eng, st, v))))
        body = eng.srv.body(info['id'])
        out = body['locals'][0]
        if eng.T.key(out) == '!':
            return None
        t0 = st.clock[-1] if st.clock else eng.clock0
        t1 = eng.fresh(I, 'now')
        r = eng.fresh(eng.T.sort(out), 'ret')
        eng.keep(r)
        ret = V(eng, out, r)
        cl = self.clauses(Cx(eng, args, ret, t0, t1))
        if any(eng.mentions(f, t1) or eng.mentions(f, t0) for _, _, f in cl):
            st.assume(And(t1 >= t0, t1 <= eng.clock1))
            st.clock.append(t1)
        v = eng.term(st, out, r)
        for l, _, f in cl:
            if not l.startswith(STRICT):
                st.assume(f)
        return [(st, v)]


class Clone(Fn):
    """derived Clone: the result equals the argument"""
    def __init__(self, name):
        Fn.__init__(self, name, lambda cx: [('the clone equals the original', (), cx.ret == cx[0])])

    def apply(self, eng, st, info, vs):
        return [(st, deps.load(eng, st, vs[0]))]


class Eq(Fn):
    """derived PartialEq: decides equality of the values"""
    def __init__(self, name):
        Fn.__init__(self, name, lambda cx: [('eq decides equality', (), cx.ret.e == (cx[0] == cx[1]))])

    def apply(self, eng, st, info, vs):
        a, b = deps.load(eng, st, vs[0]), deps.load(eng, st, vs[1])
        x, y = eng.z(st, a), eng.z(st, b)
        if x.sort() != y.sort():
            return None
        body = eng.srv.body(info['id'])
        return [(st, Tm(body['locals'][0], deps.eq_values(eng, st, info['in'][0], a, b, x, y)))]


# a clause with this prefix is what a property demands where the code is known to deviate from it (see
# known_findings.json): it is checked, but nothing is concluded from it
STRICT = 'strict: '


class Report:
    def __init__(self, name):
        self.name = name
        self.obls = []          # Obl with .status in proved / refuted / unknown, .props
        self.unsupported = []   # (message, where)
        self.paths = 0
        self.vacuous = False
        self.panics = 0
        self.error = None
        self.taint = set()
        self.secs = 0.0
        self.deps, self.callees, self.inlined = set(), set(), set()

    @property
    def ok(self):
        return self.error is None and not self.unsupported and not self.vacuous and all(o.status == 'proved' for o in self.obls if not o.label.startswith(STRICT))


class Prover:
    """discharges obligations; one z3 call per obligation, deterministic resource limits"""
    def __init__(self, rlimit=20000000, cvc5=None):
        self.rlimit = rlimit
        self.n = 0
        self.time = 0.0
        self.cvc5 = cvc5 and Cvc5()     # a second opinion on everything z3 proves
        self.by = {}
        self.deadline = None    # past it nothing is tried
        self.wasted = 0.0       # seconds spent on goals that were not discharged
        self.failed = {}        # (function, label) -> number of goals not discharged

    def prove(self, eng, pc, goal, want_model=True, key=None):
        import time
        t = time.time()
        # a goal that fails may make the solver diverge: after the first failures of a clause (or much
        # time spent that way) its other goals get less time. This never turns a failure into a success.
        f = self.failed.get(key, 0)
        strict = key is not None and key[1].startswith(STRICT)
        ms = 20000 if not f and self.wasted < 60 else 5000 if f < 3 and self.wasted < 150 else 1000
        if strict:
            ms = 3000
        if strict and f or f > 12:
            self.last = 0.0
            return 'unknown', None, 'not tried'
        if self.wasted > 300 or self.deadline and t > self.deadline:
            self.last = 0.0
            return 'unknown', None, 'out of time'
        r, m, by = self._prove(eng, pc, goal, ms)
        if r == 'unknown' and not strict and f < 3 and self.wasted < 200:
            if Cvc5.ask(Cvc5.text(eng, list(pc) + self.more, goal), 10) == 'unsat':
                r, m, by = 'proved', None, 'cvc5'
        elif r == 'proved' and by == 'z3' and self.cvc5:
            self.cvc5.check(key, Cvc5.text(eng, list(pc) + self.more, goal))
        if r != 'proved':
            self.failed[key] = f + 1
            self.wasted += time.time() - t
        self.last = time.time() - t
        self.time += self.last
        self.n += 1
        self.by[by] = self.by.get(by, 0) + 1
        return r, m, by

    def _prove(self, eng, pc, goal, ms):
        self.more = []
        g = goal if eng.has_quant(goal) else z3.simplify(goal)
        if z3.is_true(g):
            return 'proved', None, 'simplifier'
        if not z3.is_false(g):
            # syntactic: goal among the assumptions
            for e in pc:
                if e.eq(goal) or e.eq(g):
                    return 'proved', None, 'assumption'
        s = z3.Solver()
        s.set('rlimit', self.rlimit)
        s.set('random_seed', 0)
        s.set('timeout', ms)
        for e in eng.axioms:
            s.add(e)
        for e in pc:
            s.add(e)
        s.add(Not(goal))
        r = s.check()
        if r == z3.unsat:
            return 'proved', None, 'z3'
        more = lemmas.instances(list(eng.axioms) + list(pc) + [goal])
        self.more = more
        if more:
            for e in more:
                s.add(e)
            r = s.check()
            if r == z3.unsat:
                return 'proved', None, 'z3'
        if r == z3.sat:
            return 'refuted', s.model(), 'z3'
        s2 = z3.SolverFor('ALL') if False else z3.Tactic('smt').solver()
        s2.set('rlimit', self.rlimit)
        s2.set('timeout', ms)
        s2.set('smt.mbqi', True)
        s2.set('smt.random_seed', 7)
        for e in list(eng.axioms) + list(pc) + more + [Not(goal)]:
            s2.add(e)
        r = s2.check()
        if r == z3.unsat:
            return 'proved', None, 'z3'
        if r == z3.sat:
            return 'refuted', s2.model(), 'z3'
        return 'unknown', None, 'z3'


class Cvc5:
    """obligations as SMT-LIB text, decided by cvc5 in processes of its own"""
    def __init__(self, workers=7, secs=15, budget=400):
        import concurrent.futures
        self.pool = concurrent.futures.ThreadPoolExecutor(workers)
        self.secs, self.budget, self.spent, self.workers = secs, budget, 0.0, workers
        self.jobs = []

    @staticmethod
    def text(eng, pc, goal):
        s = z3.Solver()
        for e in list(eng.axioms) + list(pc) + [Not(goal)]:
            s.add(e)
        names = {}
        t = re.sub(r'\|[^|]*\|', lambda x: names.setdefault(x.group(0), 'q!%d' % len(names)), s.to_smt2())
        return '(set-logic ALL)\n' + t

    @staticmethod
    def ask(text, secs):
        import subprocess
        try:
            r = subprocess.run(['cvc5', '--lang', 'smt2', '--tlimit=%d' % (secs * 1000), '--rlimit=20000000'], input=text,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=secs + 5)
        except (subprocess.TimeoutExpired, OSError):
            return 'unknown'
        a = r.stdout.strip().split('\n')[-1]
        return a if a in ('sat', 'unsat') else 'error' if 'rror' in a else 'unknown'

    def check(self, key, text):
        def job():
            import time
            if self.spent > self.budget * self.workers:
                return 'not asked'
            t = time.time()
            r = self.ask(text, self.secs)
            self.spent += time.time() - t
            return r
        self.jobs.append((key, self.pool.submit(job)))

    def answers(self):
        r = {}
        for key, j in self.jobs:
            r.setdefault(j.result(), []).append(key)
        return r


def _possible(self, eng, pc):
    s = z3.Solver()
    s.set('rlimit', 2000000)
    s.set('timeout', 5000)
    for e in list(eng.axioms) + list(pc):
        s.add(e)
    return s.check() != z3.unsat


Prover.possible = _possible


def verify(eng, prover, fn, inst):
    """verify one function against its contract; eng.contracts are the callee contracts"""
    import time
    t0 = time.time()
    rep = Report(fn.name)
    eng.obls = []
    eng.axioms.clear()
    eng._axset.clear()
    eng.nsteps = 0
    eng.used_deps, eng.used_contracts, eng.inlined = set(), set(), set()
    eng.havocked, eng.looptaint = set(), set()
    own = eng.contracts.pop(fn.name, None)
    eng.own = fn.name
    try:
        st = State()
        if fn.setup:
            for e in fn.setup(eng, st) or []:
                st.assume(e)
        args, outs = eng.run_function(inst, st=st)
        info = eng.srv.inst(inst)
        body = eng.srv.body(inst)
        out_ty = body['locals'][0]
        rep.paths = len(outs)
        # vacuity: some execution is possible under the assumptions
        rep.vacuous = bool(outs) and not any(prover.possible(eng, o.st.pc) for o in outs)
        for o in outs:
            if o.kind == 'unsupported':
                # only if the path is feasible
                rep.unsupported.append((o.msg, o.where))
                continue
            st = o.st
            # the final value behind a mutable reference is only logical where it has a logical form
            av = [None if isinstance(a, Ptr) and isinstance(eng.read(st, a.cell, a.path), Sp) else V(eng, t, eng.z(st, a)) for t, a in zip(info['in'], args)]
            if o.kind == 'panic':
                rep.panics += 1
                ob = Obl('%s: no panic (%s)' % (fn.name, o.msg), list(st.pc), FALSE, st, o.where)
                ob.props, ob.label = ('C21',) if fn.nopanic else (), 'no panic'
                ob.status, ob.model, ob.by = prover.prove(eng, ob.pc, ob.goal, key=(fn.name, ob.label))
                rep.obls.append(ob)
                continue
            if fn.clauses is None:
                continue
            ret = V(eng, out_ty, eng.z(st, o.val))
            cx = Cx(eng, av, ret, eng.clock0, eng.clock1)
            cx.st = st
            for label, props, f in fn.clauses(cx):
                ob = Obl('%s: %s' % (fn.name, label), list(st.pc), f, st, o.where)
                ob.props, ob.label = props, label
                ob.val = o.val
                ob.status, ob.model, ob.by = prover.prove(eng, ob.pc, f, key=(fn.name, label))
                ob.secs = prover.last
                rep.obls.append(ob)
        for ob in eng.obls:
            ob.props, ob.label = None, 'loop'
            ob.status, ob.model, ob.by = prover.prove(eng, ob.pc, ob.goal, key=(fn.name, ob.label))
            rep.obls.append(ob)
    except Unsupported as u:
        rep.unsupported.append((str(u), ''))
    finally:
        if own is not None:
            eng.contracts[fn.name] = own
    # what could not be proved where the code used a function about which nothing is known is undecided
    keep = []
    for ob in rep.obls:
        taint = eng.looptaint | (ob.st.taint if ob.st is not None else set())
        if ob.status != 'proved' and ob.by == 'out of time':
            taint = taint | {'out of time'}
        if ob.status != 'proved' and taint and not ob.label.startswith(STRICT):
            for w in sorted(taint):
                if (w, '') not in rep.unsupported:
                    rep.unsupported.append((w, ''))
        else:
            keep.append(ob)
    rep.obls = keep
    rep.taint = set(eng.havocked)
    rep.deps, rep.callees, rep.inlined = set(eng.used_deps), set(eng.used_contracts), set(eng.inlined)
    rep.secs = time.time() - t0
    return rep
