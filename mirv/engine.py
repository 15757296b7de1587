"""Verification-condition generation: symbolic execution of MIR over unbounded logical values,
callee contracts at calls, loops cut by (automatically stated, solver-checked) invariants."""
import re, itertools, time
import z3
from sorts import TMIN, TMAX, Types, Unsupported, strval, strlit, I, B, S

TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


# ---------------------------------------------------------------- values
class Val:
    pass


class Tm(Val):
    __slots__ = ('ty', 'e')

    def __init__(self, ty, e):
        self.ty, self.e = ty, e

    def __repr__(self):
        return 'Tm(%s)' % str(self.e)[:200]


class Agg(Val):
    __slots__ = ('ty', 'v', 'fs')

    def __init__(self, ty, v, fs):
        self.ty, self.v, self.fs = ty, v, fs

    def __repr__(self):
        return 'Agg(%d,%d,%r)' % (self.ty, self.v, self.fs)


class Lst(Val):
    __slots__ = ('ety', 'items')

    def __init__(self, ety, items):
        self.ety, self.items = ety, items

    def __repr__(self):
        return 'Lst%r' % (self.items,)


class Ptr(Val):
    __slots__ = ('cell', 'path', 'ty')

    def __init__(self, cell, path, ty):
        self.cell, self.path, self.ty = cell, path, ty

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.cell, self.path)


class FnV(Val):
    __slots__ = ('ty',)

    def __init__(self, ty):
        self.ty = ty


class CastP(Val):
    """pointer (snapshot or Ptr) viewed at another pointee type"""
    __slots__ = ('val', 'frm', 'to')

    def __init__(self, val, frm, to):
        self.val, self.frm, self.to = val, frm, to


class SIter(Val):
    """slice::Iter / vec::IntoIter: elements pos..end of seq"""
    __slots__ = ('ety', 'seq', 'pos', 'end')

    def __init__(self, ety, seq, pos, end):
        self.ety, self.seq, self.pos, self.end = ety, seq, pos, end

    def __repr__(self):
        return 'SIter(%s,%s)' % (self.pos, self.end)


class DiscrV(Val):
    __slots__ = ('ty', 'val')

    def __init__(self, ty, val):
        self.ty, self.val = ty, val


class Sp(Val):
    """other modelled values: formatting arguments, ghost serializers, ..."""
    __slots__ = ('kind', 'd')

    def __init__(self, kind, *d):
        self.kind, self.d = kind, list(d)

    def __repr__(self):
        return 'Sp(%s,%r)' % (self.kind, self.d)


class Undef(Val):
    pass


UNDEF = Undef()


class Frame:
    __slots__ = ('id', 'inst', 'block', 'idx', 'dest', 'target', 'body', 'just', 'dty')

    def __init__(self, id, inst, body, dest, target, dty):
        self.id, self.inst, self.body = id, inst, body
        self.block, self.idx, self.just = 0, 0, True
        self.dest, self.target, self.dty = dest, target, dty

    def copy(self):
        f = Frame.__new__(Frame)
        for s in Frame.__slots__:
            setattr(f, s, getattr(self, s))
        return f


class State:
    def __init__(self):
        self.cells = {}
        self.frames = []
        self.pc = []
        self.known = {}
        self.notv = {}
        self.kb = {}
        self.ranged = set()
        self.inloop = frozenset()
        self.clock = []
        self.trail = ()
        self.trace = ()          # ghost event trace (serialisation)
        self.taint = frozenset()  # havocked foreign functions used on this path
        self.dead = False

    def fork(self):
        s = State.__new__(State)
        s.cells = dict(self.cells)
        s.frames = [f.copy() for f in self.frames]
        s.pc = list(self.pc)
        s.known = dict(self.known)
        s.notv = dict(self.notv)
        s.kb = dict(self.kb)
        s.ranged = set(self.ranged)
        s.inloop, s.clock, s.trail, s.trace, s.taint, s.dead = self.inloop, list(self.clock), self.trail, self.trace, self.taint, self.dead
        return s

    def assume(self, e):
        if z3.is_true(e):
            return
        if z3.is_false(e):
            self.dead = True
        if z3.is_and(e):
            for c in e.children():
                self.assume(c)
            return
        self.pc.append(e)
        if z3.is_not(e):
            self.kb[e.arg(0).get_id()] = (e.arg(0), False)
        else:
            self.kb[e.get_id()] = (e, True)


class Out:
    def __init__(self, kind, st, val=None, msg=None, where=None):
        self.kind, self.st, self.val, self.msg, self.where = kind, st, val, msg, where


class Obl:
    """A proof obligation: pc |- goal"""
    def __init__(self, name, pc, goal, st=None, where=''):
        self.name, self.pc, self.goal, self.st, self.where = name, pc, goal, st, where
        self.result = None
        self.model = None


class Budget(Exception):
    pass


class Engine:
    debug = False
    own = None

    def __init__(self, srv, deps, contracts=None, axioms=None):
        self.srv = srv
        self.T = Types(srv)
        self.deps = deps              # dependency contracts: list of (regex, fn)
        self.contracts = contracts or {}
        self.cnt = itertools.count(1)
        self.fid = itertools.count(1)
        self.obls = []                # loop obligations
        self.used_deps = set()
        self.used_contracts = set()
        self.inlined = set()
        self.axioms = axioms if axioms is not None else []
        self._axset = set()
        self.loopcache = {}
        self.nsteps = 0
        self.max_steps = 400000
        self.nochecks = 0
        self.fsol = z3.Solver()
        self.fsol.set('rlimit', 300000)
        self.fstack = []
        self.unknown_ext = {}
        self.havocked, self.looptaint = set(), set()
        self.deadline = None
        self.display_used = set()
        self.exclude = set()
        self.depcache = {}
        self.clock0 = z3.Int('clock.start')
        self.clock1 = z3.Int('clock.end')

    # ------------------------------------------------------------ helpers
    def fresh(self, sort, name='k'):
        return z3.Const('%s!%d' % (name, next(self.cnt)), sort)

    def axiom(self, key, e):
        """a fact true in every state (definition or trusted axiom), added once"""
        if key not in self._axset:
            self._axset.add(key)
            self.axioms.append(e)

    def uf(self, name, doms, rng):
        return z3.Function(name, *doms, rng)

    def term(self, st, ty, e):
        """symbolic value of type ty; adds the range facts of machine integers"""
        t = self.T.peel(ty)
        i = self.T.info(t)
        if i['k'] in ('int', 'char'):
            if not z3.is_int_value(e) and e.get_id() not in st.ranged:
                lo, hi = self.T.int_range(t)
                st.ranged.add(e.get_id())
                self.keep(e)
                st.assume(z3.And(e >= lo, e <= hi))
        elif self.T.key(t)[:4] == 'seq<':
            if e.get_id() not in st.ranged:
                st.ranged.add(e.get_id())
                self.keep(e)
                ln = self.T.len_f(self.T.elem(t))(e)
                st.assume(z3.And(ln >= 0, ln <= (1 << 63) - 1))
        elif self.T.key(t) == 'time' and not z3.is_int_value(e) and e.get_id() not in st.ranged:
            st.ranged.add(e.get_id())
            self.keep(e)
            st.assume(z3.And(e >= TMIN, e <= TMAX))
        return Tm(t, e)

    _kept = []

    def keep(self, e):
        Engine._kept.append(e)

    def sym(self, st, ty, name):
        """arbitrary value of type ty"""
        i = self.T.info(ty)
        if i['k'] in ('ref', 'ptr') and i['mut']:
            c = ('h', next(self.fid))
            if self.T.key(i['e']).startswith('std::fmt::Formatter'):
                b = ('h', next(self.fid))
                st.cells[b] = Tm(None, self.fresh(S, 'out'))
                st.cells[c] = Sp('fmtr', Ptr(b, (), None))
            else:
                st.cells[c] = self.sym(st, i['e'], name)
            return Ptr(c, (), i['e'])
        t = self.T.peel(ty)
        i = self.T.info(t)
        if i['k'] in ('fndef',):
            return FnV(t)
        if i['k'] == 'closure':
            raise Unsupported('arbitrary closure')
        return self.term(st, t, z3.Const(name, self.T.sort(t)))

    def unit(self, ty):
        return Agg(ty, 0, [])

    # conversion to logic
    def z(self, st, v, ty=None):
        if isinstance(v, Tm):
            return v.e
        if isinstance(v, Agg):
            if not self.T.is_dt(v.ty):
                k = self.T.key(v.ty)
                i = self.T.info(self.T.peel(v.ty))
                if i['k'] == 'closure':
                    raise Unsupported('closure as logical value')
                s = self.T.sort(v.ty)
                es = [self.z(st, f) for f in v.fs]
                if not es:
                    e = z3.Const('%s!mk%d' % (k, v.v), s)
                else:
                    e = self.uf('%s!mk%d' % (k, v.v), [x.sort() for x in es], s)(*es)
                st.assume(self.T.isv(v.ty, e, v.v))
                for n, x in enumerate(es):
                    st.assume(self.T.proj(v.ty, e, v.v, n) == x)
                return e
            return self.T.ctor(v.ty, v.v, [self.z(st, f) for f in v.fs])
        if isinstance(v, Lst):
            e = self.T.nil(v.ety)
            self.seq_axioms(v.ety)
            for x in v.items:
                e = self.T.push_f(v.ety)(e, self.z(st, x))
            ln, at = self.T.len_f(v.ety), self.T.at_f(v.ety)
            st.assume(ln(e) == len(v.items))
            for n, x in enumerate(v.items):
                st.assume(at(e, z3.IntVal(n)) == self.z(st, x))
            return e
        if isinstance(v, Ptr):
            return self.z(st, self.read(st, v.cell, v.path))
        if isinstance(v, DiscrV):
            return self.discr_int(st, v)
        if isinstance(v, CastP):
            return self.z(st, self.deref_val(st, v))
        if isinstance(v, FnV):
            return z3.Const('fn', z3.DeclareSort(self.T.key(v.ty)))
        if isinstance(v, Sp) and v.kind == 'fmtargs':
            return self.fmt_str(st, v)
        if isinstance(v, Sp) and v.kind == 'fn':
            return v.d[2](st)
        raise Unsupported('value without logical form: %r' % (v,))

    def seq_axioms(self, ety):
        k = self.T.key(ety)
        if ('seq', k) in self._axset:
            return
        s = self.T.seq_sort(ety)
        ln, at, push, nil = self.T.len_f(ety), self.T.at_f(ety), self.T.push_f(ety), self.T.nil(ety)
        v = z3.Const('v', s)
        x = z3.Const('x', self.T.sort(ety))
        j = z3.Int('j')
        self.axiom(('seq', k), ln(nil) == 0)
        p = push(v, x)
        self.axiom(('seq1', k), z3.ForAll([v, x], z3.And(ln(p) == ln(v) + 1, at(p, ln(v)) == x), patterns=[p]))
        self.axiom(('seq2', k), z3.ForAll([v, x, j], z3.Implies(z3.And(j >= 0, j < ln(v)), at(p, j) == at(v, j)), patterns=[at(p, j)]))

    def discr_int(self, st, d):
        vs = self.T.variants(d.ty)
        v = self.variant(st, d.ty, d.val)
        if v is not None:
            return z3.IntVal(int(vs[v]['discr']))
        e = self.z(st, d.val)
        r = z3.IntVal(int(vs[-1]['discr']))
        for n in range(len(vs) - 2, -1, -1):
            r = z3.If(self.T.isv(d.ty, e, n), z3.IntVal(int(vs[n]['discr'])), r)
        return r

    def ival(self, st, v):
        e = self.z(st, v)
        return e

    def lit(self, st, v):
        """Python int if the value is a literal"""
        if isinstance(v, Tm) and z3.is_int_value(v.e):
            return v.e.as_long()
        return None

    # ------------------------------------------------------------ places
    def variant(self, st, ty, v):
        if isinstance(v, Agg):
            return v.v
        if isinstance(v, Tm):
            if not self.T.is_enum(v.ty):
                return 0
            k = self.T.variant_of_expr(v.ty, v.e) if self.T.is_dt(v.ty) else None
            if k is not None:
                return k
            k = st.known.get(v.e.get_id())
            if k is not None:
                return k[1]
            no = st.notv.get(v.e.get_id(), (None, frozenset()))[1]
            vs = [n for n in range(len(self.T.variants(v.ty))) if n not in no and not self.dead_variant(v.ty, n)]
            if len(vs) == 1:
                return vs[0]
        return None

    def dead_variant(self, ty, n):
        return any(self.T.uninhabited(f['ty']) for f in self.T.variants(ty)[n]['fields'])

    def set_variant(self, st, v, n):
        """assume v is variant n"""
        if isinstance(v, Agg):
            if v.v != n:
                st.dead = True
            return
        st.known[v.e.get_id()] = (v.e, n)
        self.keep(v.e)
        st.assume(self.T.isv(v.ty, v.e, n))

    def step(self, st, v, s):
        """one projection step on a value"""
        if isinstance(v, Undef):
            raise Unsupported('read of uninitialised value')
        k = s[0]
        if k == 'v':
            return v
        if k == 'f':
            n = s[1]
            if isinstance(v, Agg):
                return v.fs[n]
            if isinstance(v, Tm):
                var = s[2] if len(s) > 2 and s[2] is not None else (self.variant(st, v.ty, v) or 0)
                f = self.T.variants(v.ty)[var]['fields'][n]
                return self.term(st, f['ty'], self.T.proj(v.ty, v.e, var, n))
            if isinstance(v, CastP):
                return self.step(st, self.deref_val(st, v), s)
            if isinstance(v, Sp):
                return v.d[n]
            if isinstance(v, Ptr):
                return self.step(st, self.read(st, v.cell, v.path), s)
        if k == 'i':
            return self.seq_at(st, v, s[1])
        if k == 'sub':
            return self.subslice(st, v, *s[1:])
        raise Unsupported('projection %r of %r' % (s, type(v).__name__))

    def subslice(self, st, v, a, b, from_end):
        if isinstance(v, Lst):
            return Lst(v.ety, v.items[a:len(v.items) - b] if from_end else v.items[a:b])
        raise Unsupported('subslice')

    def seq_len(self, st, v):
        if isinstance(v, Lst):
            return z3.IntVal(len(v.items))
        if isinstance(v, Ptr):
            return self.seq_len(st, self.read(st, v.cell, v.path))
        if isinstance(v, Tm) and self.T.key(v.ty)[:4] == 'seq<':
            e = self.T.len_f(self.T.elem(v.ty))(v.e)
            return e
        if isinstance(v, Tm) and self.T.key(v.ty) == 'str':
            return self.blen(st, v.e)
        raise Unsupported('length of %r' % (v,))

    def blen(self, st, e):
        """byte length of a string"""
        l = strlit(e)
        if l is not None:
            return z3.IntVal(len(l.encode()))
        f = self.uf('str.bytelen', [S], I)
        st.assume(f(e) >= 0)
        st.assume(f(e) <= 2**63 - 1)
        st.assume((f(e) == 0) == (e == strval('')))
        return f(e)

    def elem_ty(self, v):
        return v.ety if isinstance(v, Lst) else self.T.elem(v.ty)

    def seq_at(self, st, v, idx):
        if isinstance(v, Ptr):
            v = self.read(st, v.cell, v.path)
        if isinstance(v, Lst):
            if z3.is_int_value(idx):
                k = idx.as_long()
                if 0 <= k < len(v.items):
                    return v.items[k]
                raise Unsupported('constant index out of bounds')
            return self.term(st, v.ety, self.T.at_f(v.ety)(self.z(st, v), idx))
        if isinstance(v, Tm):
            ety = self.T.elem(v.ty)
            return self.term(st, ety, self.T.at_f(ety)(v.e, idx))
        if isinstance(v, Sp) and v.kind == 'fn':         # a function of the index (and the logical value, when needed)
            return v.d[1](st, idx)
        if isinstance(v, Sp) and v.kind == 'rng':        # start, start + 1, ..
            return Tm(v.d[1], z3.simplify(v.d[0] + idx))
        if isinstance(v, Sp) and v.kind == 'zip':        # pairs of two sequences from given positions
            (a, p), (b, q) = v.d[:2], v.d[2:4]
            return Agg(v.d[4], 0, [self.seq_at(st, a, z3.simplify(p + idx)), self.seq_at(st, b, z3.simplify(q + idx))])
        if isinstance(v, Sp) and v.kind == 'rev':        # backwards from the element before a position
            return self.seq_at(st, v.d[0], z3.simplify(v.d[1] - 1 - idx))
        raise Unsupported('index of %r' % (v,))

    def read(self, st, cell, path):
        if cell not in st.cells:
            raise Unsupported('read of dead or uninitialised place')
        v = st.cells[cell]
        for s in path:
            v = self.step(st, v, s)
        return v

    def write(self, st, cell, path, x):
        st.cells[cell] = self.upd(st, st.cells.get(cell, UNDEF), path, x)

    def upd(self, st, v, path, x):
        if not path:
            return x
        s = path[0]
        if s[0] == 'v':
            return self.upd(st, v, path[1:], x)
        if s[0] == 'f':
            if isinstance(v, Tm):
                var = s[2] if len(s) > 2 and s[2] is not None else self.variant(st, v.ty, v)
                if var is None:
                    raise Unsupported('field update of unknown variant')
                fs = [self.step(st, v, ('f', n, var)) for n in range(len(self.T.variants(v.ty)[var]['fields']))]
                v = Agg(v.ty, var, fs)
            if isinstance(v, Undef) and len(s) > 3:
                v = Agg(s[3], s[2] or 0, [UNDEF] * len(self.T.variants(s[3])[s[2] or 0]['fields']))
            if isinstance(v, Agg):
                fs = list(v.fs)
                fs[s[1]] = self.upd(st, fs[s[1]], path[1:], x)
                return Agg(v.ty, v.v, fs)
            if isinstance(v, Sp):
                d = list(v.d)
                d[s[1]] = self.upd(st, d[s[1]], path[1:], x)
                return Sp(v.kind, *d)
        if s[0] == 'i' and isinstance(v, Lst) and z3.is_int_value(s[1]):
            it = list(v.items)
            it[s[1].as_long()] = self.upd(st, it[s[1].as_long()], path[1:], x)
            return Lst(v.ety, it)
        raise Unsupported('update of %r at %r' % (type(v).__name__, s))

    def place(self, st, fr, p):
        """resolve a MIR place: ('c', cell, path, type) or ('v', value, type)"""
        loc, proj = p
        cell, path, ty = (fr.id, loc), (), fr.body['locals'][loc]
        if cell not in st.cells:
            u = self.only_value(ty)     # a value of a type with only one is not always written
            if u is not None:
                st.cells[cell] = u
        val = None
        var = None
        raw = False
        for e in proj:
            k = e[0]
            if k == 'deref':
                v = val if cell is None else self.read(st, cell, path)
                inner = self.T.inner(ty)
                if isinstance(v, Ptr):
                    cell, path, val = v.cell, v.path, None
                elif isinstance(v, CastP):
                    val, cell = self.deref_val(st, v), None
                # else: snapshot, transparent
                ty = inner if inner is not None else ty
                raw = False
            elif k == 'field':
                ti = self.T.info(ty)
                nm = ti.get('name', '') if ti['k'] == 'adt' else ''
                if ti['k'] == 'adt' and (self.T.is_box(ty) or nm.split('::')[-1] in ('Unique', 'NonNull', 'MaybeDangling', 'ManuallyDrop', 'MaybeUninit')) or ti['k'] == 'pat':
                    ty = e[2]
                    raw = True
                    continue
                s = ('f', e[1], var, self.T.peel(ty))
                if cell is None:
                    val = self.step(st, val, s)
                else:
                    path = path + (s,)
                ty = e[2]
                var = None
            elif k == 'downcast':
                var = e[1]
            elif k == 'index':
                ix = self.ival(st, self.read(st, (fr.id, e[1]), ()))
                ix = z3.simplify(ix)
                s = ('i', ix)
                if cell is None:
                    val = self.step(st, val, s)
                else:
                    path = path + (s,)
                ty = self.T.elem(ty)
            elif k == 'cindex':
                base = val if cell is None else self.read(st, cell, path)
                ix = z3.IntVal(e[1]) if not e[3] else z3.simplify(self.seq_len(st, base) - e[1])
                s = ('i', ix)
                if cell is None:
                    val = self.step(st, val, s)
                else:
                    path = path + (s,)
                ty = self.T.elem(ty)
            elif k == 'subslice':
                s = ('sub', e[1], e[2], e[3])
                if cell is None:
                    val = self.step(st, val, s)
                else:
                    path = path + (s,)
            elif k == 'ocast':
                ty = e[1]
            else:
                raise Unsupported('projection ' + k)
        return cell, path, val, ty, var, raw

    def rd(self, st, fr, p):
        cell, path, val, ty, var, raw = self.place(st, fr, p)
        if cell is None:
            return val
        if raw and self.T.info(ty)['k'] in ('ptr', 'ref') or raw and self.T.inner(ty) is not None and not self.T.is_box(ty):
            return Ptr(cell, path, self.T.inner(ty))
        return self.read(st, cell, path)

    def only_value(self, ty, depth=0):
        """the value of a type that has exactly one, else None"""
        if depth > 4 or self.T.inner(ty) is not None:
            return None
        i = self.T.info(ty)
        if i['k'] == 'tuple':
            fs = [self.only_value(e, depth + 1) for e in i['es']]
            return None if None in fs else Agg(ty, 0, fs)
        if i['k'] == 'adt' and i['kind'] != 'union' and self.T.is_dt(ty):
            vs = [n for n, v in enumerate(i['variants']) if not any(self.T.uninhabited(f['ty']) for f in v['fields'])]
            if len(vs) != 1:
                return None
            fs = [self.only_value(f['ty'], depth + 1) for f in i['variants'][vs[0]]['fields']]
            return None if None in fs else Agg(ty, vs[0], fs)
        return None

    def wr(self, st, fr, p, v):
        cell, path, val, ty, var, raw = self.place(st, fr, p)
        if cell is None:
            raise Unsupported('write through a snapshot')
        self.write(st, cell, path, v)

    def deref_val(self, st, v):
        """what a cast pointer reads as"""
        if isinstance(v, Ptr):
            return self.read(st, v.cell, v.path)
        if not isinstance(v, CastP):
            return v
        x = self.deref_val(st, v.val)
        if self.T.key(v.frm) == self.T.key(v.to):
            return x
        ti, fi = self.T.info(v.to), self.T.info(self.T.peel(v.frm))
        if ti['k'] == 'int' and fi['k'] == 'adt' and fi['kind'] == 'enum':
            lay = self.srv.layout(self.T.peel(v.frm))
            vr = lay['variants'] if lay else None
            if vr and vr['k'] == 'multi' and vr['enc'] == 'direct' and vr['off'] == 0:
                m = re.search(r'length: (I\d+), signed: (\w+)', vr['tag'])
                if m and int(m.group(1)[1:]) == ti['bits']:
                    self.used_deps.add('layout: %s has a direct tag of %d bits at offset 0 (from rustc)' % (fi['name'], ti['bits']))
                    return DiscrV(self.T.peel(v.frm), x)
            if vr and vr['k'] == 'single':
                nm = fi['name']
                # a single inhabited variant: the tag is stored iff the enum has an explicit repr
                rb = self.repr_bits(self.T.peel(v.frm))
                if rb == ti['bits']:
                    return DiscrV(self.T.peel(v.frm), x)
        raise Unsupported('reinterpreting read %s as %s' % (fi['s'], ti['s']))

    def repr_bits(self, t):
        # repr(u32) single-variant enums keep their tag: the payload starts behind it
        lay = self.srv.layout(t)
        m = lay.get('repr')
        return m

    # ------------------------------------------------------------ operands
    def const(self, st, c, ty=None):
        return self.cval(st, c['v'], c['ty'])

    def cval(self, st, v, ty):
        k = v['k']
        if k == 'bool':
            return Tm(ty, z3.BoolVal(v['v']))
        if k == 'int':
            return Tm(self.T.peel(ty), z3.IntVal(v['v']))
        if k == 'str':
            return Tm(self.T.peel(ty), strval(v['v']))
        if k == 'ref':
            return self.cval(st, v['v'], self.T.inner(ty) if self.T.inner(ty) is not None else ty)
        if k in ('slice', 'array'):
            return Lst(v['e'], [self.cval(st, x, v['e']) for x in v['vs']])
        if k == 'emptyslice':
            if self.T.key(v['ty']) == 'str':
                return Tm(v['ty'], strval(''))
            return Lst(self.T.info(v['ty'])['e'], [])
        if k == 'zst':
            i = self.T.info(v['ty'])
            if i['k'] == 'fndef':
                return FnV(v['ty'])
            if i['k'] == 'array':
                return Lst(i['e'], [])
            try:
                vs = self.T.variants(v['ty'])
                return Agg(v['ty'], 0, [self.cval(st, {'k': 'zst', 'ty': f['ty']}, f['ty']) for f in (vs[0]['fields'] if vs else [])])
            except Unsupported:
                return Tm(v['ty'], z3.Const('zst!' + self.T.key(v['ty']), self.T.sort(v['ty'])))
        if k == 'agg':
            t = v['ty']
            key = self.T.key(t)
            if key == 'time':
                return Tm(t, z3.IntVal(self.const_time(v)))
            if key in ('str', 'dur') or key[:4] in ('seq<', 'set<'):
                return self.const_special(st, v, key)
            if self.T.inner(t) is not None:
                return self.cval(st, v['vs'][0], self.T.info(t)['variants'][0]['fields'][0]['ty'])
            fs = self.T.variants(t)[v['variant']]['fields']
            return Agg(t, v['variant'], [self.cval(st, x, f['ty']) for x, f in zip(v['vs'], fs)])
        if k == 'fn':
            ins = self.srv.inst(v['inst'])
            return FnV(ins['ty'])
        if k == 'opaque' and v.get('why') == 'uninit':
            return UNDEF
        if k == 'static':
            return Tm(self.T.peel(v['ty']), z3.Const('static!' + v['name'], self.T.sort(v['ty'])))
        raise Unsupported('constant ' + str(v)[:80])

    def const_special(self, st, v, key):
        # empty containers built by const fns (String::new(), Vec::new())
        ints = []

        def walk(x):
            if isinstance(x, dict):
                if x.get('k') == 'int':
                    ints.append(x['v'])
                for y in x.values():
                    walk(y)
            elif isinstance(x, list):
                for y in x:
                    walk(y)
        walk(v)
        if key == 'dur':
            # {secs, nanos}
            if len(ints) == 2:
                return Tm(v['ty'], z3.IntVal(ints[0] * 10**9 + ints[1]))
        elif all(i == 0 for i in ints):
            if key == 'str':
                return Tm(v['ty'], strval(''))
            if key[:4] == 'seq<':
                return Lst(self.T.elem(v['ty']), [])
        raise Unsupported('constant of type ' + key)

    def const_time(self, v):
        ints = []

        def walk(x):
            if isinstance(x, dict):
                if x.get('k') == 'int':
                    ints.append(x['v'])
                for y in x.values():
                    walk(y)
            elif isinstance(x, list):
                for y in x:
                    walk(y)
        walk(v)
        # NaiveDateTime { date: NaiveDate { yof }, time: NaiveTime { secs, frac } } in either field order
        if len(ints) != 3:
            raise Unsupported('DateTime constant')
        cand = []
        names = []

        def walkn(x, nm):
            if isinstance(x, dict):
                if x.get('k') == 'int':
                    names.append((nm, x['v']))
                elif x.get('k') == 'agg':
                    fs = self.T.variants(x['ty'])[x['variant']]['fields']
                    for f, y in zip(fs, x['vs']):
                        walkn(y, nm + '.' + f['name'])
                elif 'v' in x:
                    walkn(x['v'], nm)
        walkn(v, '')
        d = {}
        for n, val in names:
            if '.date' in n.replace('.datetime', ''):
                d['yof'] = val
            elif n.endswith('.secs'):
                d['secs'] = val
            elif n.endswith('.frac'):
                d['frac'] = val
        year, ordinal = d['yof'] >> 13, (d['yof'] >> 4) & 0x1ff
        y = year - 1
        days = y * 365 + y // 4 - y // 100 + y // 400 + ordinal - 719163
        return (days * 86400 + d['secs']) * 10**9 + d['frac']

    def op(self, st, fr, o):
        if o[0] in ('copy', 'move'):
            return self.rd(st, fr, o[1])
        if o[0] == 'const':
            return self.const(st, o[1])
        if o[0] == 'rtcheck':
            return Tm(self.bool_ty(), FALSE)
        raise Unsupported('operand ' + o[0])

    _bool = None

    def bool_ty(self):
        if self._bool is None:
            n = 0
            while True:
                if self.srv.ty(n)['k'] == 'bool':
                    self._bool = n
                    break
                n += 1
        return self._bool

    def wrap(self, ty, e):
        lo, hi = self.T.int_range(ty)
        e = z3.simplify(e)
        if z3.is_int_value(e):
            n = (e.as_long() - lo) % (hi - lo + 1) + lo
            return z3.IntVal(n)
        return z3.If(z3.And(e >= lo, e <= hi), e, (e - lo) % (hi - lo + 1) + lo)

    def binop(self, st, o, x, y, ty, rty):
        if o in ('Eq', 'Ne') and (isinstance(x, (Ptr, CastP)) or isinstance(y, (Ptr, CastP))):
            raise Unsupported('pointer comparison')
        a, b = self.z(st, x), self.z(st, y)
        isb = z3.is_bool(a)
        if o == 'Eq':
            return Tm(rty, self.mk_eq(a, b))
        if o == 'Ne':
            return Tm(rty, z3.Not(self.mk_eq(a, b)))
        if isb:
            if o == 'BitAnd':
                return Tm(rty, z3.And(a, b))
            if o == 'BitOr':
                return Tm(rty, z3.Or(a, b))
            if o == 'BitXor':
                return Tm(rty, z3.Xor(a, b))
            a, b = z3.If(a, 1, 0), z3.If(b, 1, 0)
        if o in ('Lt', 'Le', 'Gt', 'Ge'):
            return Tm(rty, z3.simplify({'Lt': a < b, 'Le': a <= b, 'Gt': a > b, 'Ge': a >= b}[o]))
        if o == 'Cmp':
            s = self.T.sort(rty)
            c = [s.constructor(n)() for n in range(3)]
            return Tm(rty, z3.If(a < b, c[0], z3.If(a == b, c[1], c[2])))
        if a.sort() != I or b.sort() != I:
            raise Unsupported('arithmetic on ' + str(a.sort()))
        if o in ('Add', 'AddUnchecked'):
            return Tm(rty, self.wrap(rty, a + b))
        if o in ('Sub', 'SubUnchecked'):
            return Tm(rty, self.wrap(rty, a - b))
        if o in ('Mul', 'MulUnchecked'):
            return Tm(rty, self.wrap(rty, a * b))
        if o in ('Div', 'Rem'):
            q = z3.If(b > 0, z3.If(a >= 0, a / b, -((-a) / b)), z3.If(a >= 0, -(a / (-b)), (-a) / (-b)))
            if not self.T.info(ty)['signed']:
                q = a / b
            if o == 'Div':
                return Tm(rty, self.wrap(rty, q))
            return Tm(rty, z3.simplify(a - b * q))
        la, lb = z3.simplify(a), z3.simplify(b)
        if z3.is_int_value(la) and z3.is_int_value(lb):
            p, q = la.as_long(), lb.as_long()
            bits = self.T.info(ty)['bits']
            r = {'BitAnd': lambda: p & q, 'BitOr': lambda: p | q, 'BitXor': lambda: p ^ q,
                 'Shl': lambda: p << (q % bits), 'Shr': lambda: p >> (q % bits)}.get(o.replace('Unchecked', ''))
            if r:
                return Tm(rty, self.wrap(rty, z3.IntVal(r())))
        if o.startswith('Shr') and z3.is_int_value(lb):
            return Tm(rty, z3.simplify(a / (1 << lb.as_long())))
        raise Unsupported('operator ' + o)

    def mk_eq(self, a, b):
        if a.eq(b):
            return TRUE
        if strlit(a) is not None and strlit(b) is not None:
            return z3.BoolVal(strlit(a) == strlit(b))
        if z3.is_int_value(a) and z3.is_int_value(b):
            return z3.BoolVal(a.as_long() == b.as_long())
        ca, cb = self.case_app(a), self.case_app(b)
        if ca is not None and strlit(b) is not None:
            return self.ci_eq(ca, b)
        if cb is not None and strlit(a) is not None:
            return self.ci_eq(cb, a)
        return a == b

    # letter case: upper(s) = LIT and lower(s) = lit are "s equals lit in any letter case"
    def case_app(self, e):
        if z3.is_app(e) and e.num_args() == 1 and e.decl().name() in ('str.upper', 'str.lower', 'str.aupper', 'str.alower'):
            return e
        return None

    @staticmethod
    def case_safe(l, up):
        """no non-ASCII character maps into the ASCII text l under the case mapping"""
        if not all(ord(c) < 128 for c in l):
            return False
        if not hasattr(Engine, '_unsafe'):
            Engine._unsafe = {True: set(), False: set()}
            for cp in range(128, 0x110000):
                c = chr(cp)
                for u, m in ((True, c.upper()), (False, c.lower())):
                    if all(ord(x) < 128 for x in m):
                        Engine._unsafe[u].add(m)
        return not any(m in l for m in Engine._unsafe[up])

    def ci(self, s, low):
        f = self.uf('str.ci_eq', [S, S], B)
        self.axiom(('ci', low), f(strval(low), strval(low)))
        for cand in {low.upper()}:
            self.axiom(('ci', low, cand), f(strval(cand), strval(low)))
        return f(s, strval(low))

    def ci_eq(self, app, litx):
        l = strlit(litx)
        up = app.decl().name().endswith('upper')
        if not l.isascii():
            return app == litx
        if l != (l.upper() if up else l.lower()):
            return FALSE
        if app.decl().name()[4] != 'a' and not self.case_safe(l, up):
            return app == litx
        return self.ci(app.arg(0), l.lower())

    def rvalue(self, st, fr, rv):
        ty, k = rv[0], rv[1]
        if k == 'use':
            return self.op(st, fr, rv[2])
        if k in ('ref', 'addr'):
            mut, p = rv[2], rv[3]
            cell, path, val, pty, var, raw = self.place(st, fr, p)
            if cell is None:
                return val
            if mut:
                return Ptr(cell, path, pty)
            v = self.read(st, cell, path) if cell in st.cells else UNDEF
            if isinstance(v, (Undef, SIter)) or (isinstance(v, Ptr) and False):
                return Ptr(cell, path, pty)
            if k == 'addr' and not isinstance(v, Tm):
                return v
            return v
        if k == 'agg':
            kind, n, ops = rv[2], rv[3], rv[4]
            vs = [self.op(st, fr, o) for o in ops]
            if kind == 'array':
                return Lst(self.T.info(ty)['e'], vs)
            if kind in ('tuple', 'closure'):
                return Agg(ty, 0, vs)
            if kind == 'adt':
                if self.T.inner(ty) is not None:
                    return vs[0]
                key = self.T.key(ty)
                if key in ('str', 'time', 'dur') or key[:4] in ('seq<', 'set<'):
                    raise Unsupported('construction of the inside of ' + key)
                return Agg(ty, n, vs)
            if kind == 'union' and self.T.inner(ty) is not None:
                return vs[0] if vs else UNDEF
            if kind == 'rawptr':
                return vs[0]
            raise Unsupported('aggregate ' + kind)
        if k == 'bin':
            return self.binop(st, rv[2], self.op(st, fr, rv[3]), self.op(st, fr, rv[4]), rv[5], ty)
        if k == 'cbin':
            x, y = self.op(st, fr, rv[3]), self.op(st, fr, rv[4])
            a, b = self.z(st, x), self.z(st, y)
            lo, hi = self.T.int_range(rv[5])
            e = z3.simplify({'Add': a + b, 'Sub': a - b, 'Mul': a * b}[rv[2]])
            ov = z3.simplify(z3.Not(z3.And(e >= lo, e <= hi)))
            es = self.T.info(ty)['es']
            return Agg(ty, 0, [Tm(es[0], e), Tm(es[1], ov)])
        if k == 'un':
            x = self.op(st, fr, rv[3])
            if rv[2] == 'PtrMetadata':
                return Tm(ty, self.seq_len(st, x))
            a = self.z(st, x)
            if rv[2] == 'Not':
                if z3.is_bool(a):
                    return Tm(ty, z3.simplify(z3.Not(a)))
                lo, hi = self.T.int_range(ty)
                return Tm(ty, z3.simplify(lo + hi - a))
            if rv[2] == 'Neg':
                return Tm(ty, self.wrap(ty, -a))
            raise Unsupported('unary ' + rv[2])
        if k == 'cast':
            ck, o, frm, to = rv[2], rv[3], rv[4], rv[5]
            v = self.op(st, fr, o)
            if ck == 'IntToInt':
                e = self.z(st, v)
                if z3.is_bool(e):
                    return Tm(to, z3.If(e, z3.IntVal(1), z3.IntVal(0)))
                fi = self.T.info(frm)
                if isinstance(v, DiscrV) or fi['k'] == 'adt':
                    if fi['k'] == 'adt':
                        e = self.discr_int(st, DiscrV(self.T.peel(frm), v))
                    return Tm(to, self.wrap(to, e))
                (l0, h0), (l1, h1) = self.T.int_range(frm), self.T.int_range(to)
                if l1 <= l0 and h0 <= h1:
                    return Tm(to, e)
                return Tm(to, self.wrap(to, e))
            if ck in ('PtrToPtr', 'Transmute', 'BoxDerefTransmute'):
                fe, te = self.T.inner(frm), self.T.inner(to)
                if fe is not None and te is not None:
                    if self.T.key(fe) == self.T.key(te) or isinstance(v, (FnV,)):
                        return v
                    return CastP(v, fe, te)
                if self.T.key(frm) == self.T.key(to):
                    return v
                raise Unsupported('transmute %s -> %s' % (self.T.info(frm)['s'], self.T.info(to)['s']))
            if ck in ('Unsize', 'MutToConstPointer', 'ArrayToPointer', 'ReifyFnPointer(Safe)', 'ReifyFnPointer', 'ClosureFnPointer(Safe)') or 'Fn' in ck or ck.startswith('Reify'):
                return v
            raise Unsupported('cast ' + ck)
        if k == 'discr':
            cell, path, val, pty, var, raw = self.place(st, fr, rv[2])
            v = val if cell is None else self.read(st, cell, path)
            return self.mk_discr(st, pty, v, ty)
        if k == 'len':
            return Tm(ty, self.seq_len(st, self.rd(st, fr, rv[2])))
        if k == 'repeat':
            if rv[3] is not None and rv[3] <= 64:
                v = self.op(st, fr, rv[2])
                return Lst(self.T.info(ty)['e'], [v] * rv[3])
        raise Unsupported('rvalue ' + k)

    def mk_discr(self, st, pty, v, ty):
        while isinstance(v, (Ptr, CastP)):
            v = self.deref_val(st, v)
        t = self.T.peel(pty)
        return DiscrV(t, v)

    # ------------------------------------------------------------ feasibility
    def feasible(self, st, extra=None):
        self.nochecks += 1
        pc = [e for e in st.pc if not self.has_quant(e)]
        # synchronise the solver stack with the path condition
        n = 0
        while n < len(self.fstack) and n < len(pc) and self.fstack[n].eq(pc[n]):
            n += 1
        while len(self.fstack) > n:
            self.fsol.pop()
            self.fstack.pop()
        for e in pc[n:]:
            self.fsol.push()
            self.fsol.add(e)
            self.fstack.append(e)
        r = self.fsol.check(*([extra] if extra is not None else []))
        return r != z3.unsat

    _qc = {}

    def has_quant(self, e):
        k = e.get_id()
        if k in Engine._qc:
            return Engine._qc[k][1]
        r = z3.is_quantifier(e) or any(self.has_quant(c) for c in e.children())
        Engine._qc[k] = (e, r)
        return r

    def truth(self, st, e):
        """syntactic truth of e on this path, or None"""
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        k = st.kb.get(e.get_id())
        if k is not None:
            return k[1]
        if z3.is_not(e):
            r = self.truth(st, e.arg(0))
            return None if r is None else not r
        if z3.is_and(e):
            rs = [self.truth(st, c) for c in e.children()]
            if any(r is False for r in rs):
                return False
            if all(r is True for r in rs):
                return True
        if z3.is_or(e):
            rs = [self.truth(st, c) for c in e.children()]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
        return None

    def branch(self, st, e):
        """[(state, bool)] for a boolean condition"""
        e = z3.simplify(e) if not self.has_quant(e) else e
        t = self.truth(st, e)
        if t is not None:
            return [(st, t)]
        r = []
        a = st.fork()
        a.assume(e)
        if not a.dead and self.feasible(a):
            r.append((a, True))
        b = st.fork()
        b.assume(z3.Not(e))
        if not b.dead and (not r or self.feasible(b)):
            r.append((b, False))
        return r

    def split_variant(self, st, ty, v, n):
        """[(state, True/False)]: is v variant n?"""
        k = self.variant(st, ty, v)
        if k is not None:
            return [(st, k == n)]
        if not isinstance(v, Tm):
            raise Unsupported('variant of %r' % (v,))
        if self.dead_variant(v.ty, n) or n in st.notv.get(v.e.get_id(), (None, frozenset()))[1]:
            return [(st, False)]
        a = st.fork()
        self.set_variant(a, v, n)
        b = st.fork()
        self.keep(v.e)
        b.notv[v.e.get_id()] = (v.e, b.notv.get(v.e.get_id(), (None, frozenset()))[1] | {n})
        b.assume(z3.Not(self.T.isv(v.ty, v.e, n)))
        kb = self.variant(b, v.ty, v)
        if kb is not None:
            self.set_variant(b, v, kb)
        r = []
        if self.feasible(a):
            r.append((a, True))
        if not r or self.feasible(b):
            r.append((b, False))
        return r

    # ------------------------------------------------------------ control
    def loops(self, inst, body):
        """head block -> set of blocks of its natural loop"""
        if inst in self.loopcache:
            return self.loopcache[inst]
        succ = []
        for bb in body['blocks']:
            t = bb['t']
            k = t[0]
            if k == 'goto':
                s = [t[1]]
            elif k == 'switch':
                s = [b for _, b in t[2]] + [t[3]]
            elif k == 'drop':
                s = [t[2]]
            elif k == 'call':
                s = [t[5]] if t[5] is not None else []
            elif k == 'assert':
                s = [t[4]]
            else:
                s = []
            succ.append(s)
        color, back, order = {}, [], []
        stack = [(0, iter(succ[0]))]
        color[0] = 1
        while stack:
            n, it = stack[-1]
            for m in it:
                if color.get(m) is None:
                    color[m] = 1
                    stack.append((m, iter(succ[m])))
                    break
                elif color[m] == 1:
                    back.append((n, m))
            else:
                color[n] = 2
                stack.pop()
        pred = {}
        for n in color:
            for m in succ[n]:
                pred.setdefault(m, []).append(n)
        res = {}
        for t, h in back:
            L = res.setdefault(h, {h})
            w = [t]
            while w:
                x = w.pop()
                if x in L:
                    continue
                L.add(x)
                w += pred.get(x, [])
        self.loopcache[inst] = res
        return res

    def jump(self, st, b):
        fr = st.frames[-1]
        fr.block, fr.idx, fr.just = b, 0, True

    def push_frame(self, st, inst, args, dest, target):
        body = self.srv.body(inst)
        if body is None:
            raise Unsupported('no body: ' + self.srv.inst(inst)['name'])
        if len(st.frames) > 60:
            raise Unsupported('call depth')
        fid = next(self.fid)
        fr = Frame(fid, inst, body, dest, target, None)
        if body['argc'] != len(args):
            raise Unsupported('argument count of ' + self.srv.inst(inst)['name'])
        for t in body['locals']:
            self.T.key(t)
        for n, a in enumerate(args):
            st.cells[(fid, n + 1)] = a
        st.frames.append(fr)

    def run_function(self, inst, args=None, pre=None, st=None):
        """execute inst on arbitrary arguments; returns (args, outs)"""
        st = st or State()
        info = self.srv.inst(inst)
        if args is None:
            names = {}
            body = self.srv.body(inst)
            args = [self.sym(st, t, 'a%d' % n) for n, t in enumerate(info['in'])]
        st.args = args
        if pre:
            for e in pre(st, args):
                st.assume(e)
        self.push_frame(st, inst, args, None, None)
        backs, exits, outs = self.explore([st], None)
        return args, outs

    def explore(self, sts, boundary):
        work = list(sts)
        backs, exits, outs = [], [], []
        while work:
            st = work.pop()
            if st.dead:
                continue
            fr = st.frames[-1]
            if fr.just:
                fr.just = False
                if boundary and len(st.frames) == boundary[0] and fr.id == boundary[1]:
                    if fr.block == boundary[2]:
                        backs.append(st)
                        continue
                    if fr.block not in boundary[3]:
                        fr.just = True
                        exits.append(st)
                        continue
                L = self.loops(fr.inst, fr.body).get(fr.block)
                if L is not None and (fr.id, fr.block) not in st.inloop:
                    try:
                        ex, ou = self.do_loop(st, fr.block, L, 0)
                        work += ex
                        outs += ou
                    except Unsupported as u:
                        outs.append(Out('unsupported', st, msg=str(u), where=self.where(st)))
                    continue
            try:
                work += self.step_state(st, outs)
            except Unsupported as u:
                if self.debug:
                    import traceback
                    traceback.print_exc(limit=-6)
                outs.append(Out('unsupported', st, msg=str(u), where=self.where(st)))
            except RecursionError:
                outs.append(Out('unsupported', st, msg='recursion', where=self.where(st)))
            self.nsteps += 1
            if self.nsteps > self.max_steps:
                raise Budget('step budget')
            if self.deadline and self.nsteps % 32 == 0 and time.time() > self.deadline:
                raise Budget('out of time')
        return backs, exits, outs

    def where(self, st):
        r = []
        for fr in st.frames[-3:]:
            b = fr.body['blocks'][fr.block]
            r.append('%s@%s:%s' % (self.srv.inst(fr.inst)['name'], fr.body['file'], b['l']))
        return r[-1] if r else ''

    def step_state(self, st, outs):
        """execute one basic block; returns successor states"""
        fr = st.frames[-1]
        bb = fr.body['blocks'][fr.block]
        if getattr(fr, 'idx', 0) == 0:
            for s in bb['s']:
                self.stmt(st, fr, s)
        t = bb['t']
        k = t[0]
        if k == 'goto':
            self.jump(st, t[1])
            return [st]
        if k == 'switch':
            return self.switch(st, fr, t, bb['l'])
        if k == 'return':
            return self.do_return(st, outs)
        if k == 'drop':
            self.jump(st, t[2])
            return [st]
        if k == 'call':
            return self.call(st, fr, t, outs)
        if k == 'assert':
            c = self.z(st, self.op(st, fr, t[1]))
            if not t[2]:
                c = z3.Not(c)
            r = []
            for s, b in self.branch(st, c):
                if b:
                    self.jump(s, t[4])
                    r.append(s)
                else:
                    outs.append(Out('panic', s, msg='assertion: ' + t[3], where=self.where(s)))
            return r
        if k == 'unreachable':
            outs.append(Out('panic', st, msg='unreachable code reached', where=self.where(st)))
            return []
        if k in ('resume', 'abort'):
            outs.append(Out('panic', st, msg=k, where=self.where(st)))
            return []
        raise Unsupported('terminator ' + k)

    def stmt(self, st, fr, s):
        k = s[0]
        if k == '=':
            self.wr(st, fr, s[1], self.rvalue(st, fr, s[2]))
        elif k == 'dead':
            st.cells.pop((fr.id, s[1]), None)
        elif k == 'assume':
            st.assume(self.z(st, self.op(st, fr, s[1])))
        elif k == 'setdiscr':
            cell, path, val, ty, var, raw = self.place(st, fr, s[1])
            v = st.cells.get(cell, UNDEF)
            if isinstance(v, Agg) and not path:
                st.cells[cell] = Agg(v.ty, s[2], v.fs)
            else:
                raise Unsupported('set discriminant')
        else:
            raise Unsupported('statement ' + str(s[:2]))

    def switch(self, st, fr, t, line):
        v = self.op(st, fr, t[1])
        targets, other = t[2], t[3]
        mark = (self.srv.inst(fr.inst)['name'], line)
        r = []
        if isinstance(v, DiscrV):
            vs = self.T.variants(v.ty)
            dm = {}
            for n, x in enumerate(vs):
                dm[int(x['discr'])] = n
            cur = [st]
            bits = None
            for val, b in targets:
                n = dm.get(val)
                if n is None:
                    n = next((k for d, k in dm.items() if d < 0 and any(val == d + (1 << w) for w in (8, 16, 32, 64, 128))), None)
                nxt = []
                for s in cur:
                    if n is None:
                        nxt.append(s)
                        continue
                    for s2, yes in self.split_variant(s, v.ty, v.val, n):
                        if yes:
                            s2.trail = s2.trail + (mark + (vs[n]['name'],),)
                            self.jump(s2, b)
                            r.append(s2)
                        else:
                            nxt.append(s2)
                cur = nxt
            for s in cur:
                # otherwise: only if some inhabited variant is left
                left = None
                if isinstance(v.val, Tm):
                    no = s.notv.get(v.val.e.get_id(), (None, frozenset()))[1]
                    left = [n for n in range(len(vs)) if n not in no and not self.dead_variant(v.ty, n)]
                    k = self.variant(s, v.ty, v.val)
                    if k is not None and k in left:
                        left = [k]
                if left == []:
                    continue
                self.jump(s, other)
                r.append(s)
            return r
        e = self.z(st, v)
        if z3.is_bool(e):
            for s, b in self.branch(st, e):
                tgt = other
                for val, blk in targets:
                    if val == int(b):
                        tgt = blk
                s.trail = s.trail + (mark + (str(b),),)
                self.jump(s, tgt)
                r.append(s)
            return r
        lv = z3.simplify(e)
        if z3.is_int_value(lv):
            x = lv.as_long()
            if x < 0:
                x += 1 << self.T.info(t[4])['bits']
            tgt = other
            for val, blk in targets:
                if val == x:
                    tgt = blk
            self.jump(st, tgt)
            return [st]
        cur = [st]
        ti = self.T.info(t[4])
        for val, blk in targets:
            if ti['k'] == 'int' and ti['signed'] and val >= 1 << (ti['bits'] - 1):
                val -= 1 << ti['bits']
            nxt = []
            for s in cur:
                for s2, yes in self.branch(s, e == val):
                    if yes:
                        self.jump(s2, blk)
                        r.append(s2)
                    else:
                        nxt.append(s2)
            cur = nxt
        for s in cur:
            self.jump(s, other)
            r.append(s)
        return r

    def do_return(self, st, outs):
        fr = st.frames.pop()
        v = st.cells.get((fr.id, 0))
        if v is None:
            rt = fr.body['locals'][0]
            i = self.T.info(rt)
            v = Agg(rt, 0, []) if i['k'] == 'tuple' and not i['es'] else UNDEF
        if not st.frames:
            outs.append(Out('return', st, v))
            return []
        for n in range(len(fr.body['locals'])):
            if n == 0 or True:
                # keep cells that pointers may still refer to: promoted temporaries never are
                pass
        caller = st.frames[-1]
        return self.finish_call(st, caller, fr.dest, fr.target, v, outs)

    def finish_call(self, st, fr, dest, target, v, outs):
        if target is None:
            outs.append(Out('panic', st, msg='diverging call returned', where=self.where(st)))
            return []
        self.wr(st, fr, dest, v)
        self.jump(st, target)
        return [st]

    # ------------------------------------------------------------ calls
    def call(self, st, fr, t, outs):
        _, callee, fop, args, dest, target = t
        if isinstance(callee, dict):
            raise Unsupported('unresolved call ' + callee['unresolved'])
        vs = [self.op(st, fr, a) for a in args]
        if callee is None:
            f = self.op(st, fr, fop)
            while isinstance(f, (Ptr, CastP)):
                f = self.deref_val(st, f)
            if isinstance(f, FnV):
                callee = self.T.info(f.ty)['inst']
            elif isinstance(f, Agg) and self.T.info(f.ty)['k'] == 'closure':
                return self.call_inst(st, fr, self.srv.ask('closure %d' % f.ty), [f] + vs, dest, target, outs)
            if callee is None:
                raise Unsupported('call through a function pointer')
        return self.call_inst(st, fr, callee, vs, dest, target, outs)

    def call_inst(self, st, fr, callee, vs, dest, target, outs):
        info = self.srv.inst(callee)
        name = info['name']
        if vs and re.search(r' as std::ops::Fn(Once|Mut)?<.*>>::call(_once|_mut)?$', name):
            f = vs[0]
            while isinstance(f, (Ptr, CastP)):
                f = self.deref_val(st, f)
            if isinstance(f, FnV) and len(vs) == 2 and isinstance(vs[1], Agg):
                return self.call_inst(st, fr, self.T.info(f.ty)['inst'], vs[1].fs, dest, target, outs)
        # panics
        if target is None or (info['out'] is not None and self.T.info(info['out'])['k'] == 'never'):
            outs.append(Out('panic', st, msg='call of ' + name, where=self.where(st)))
            return []
        # dependency contracts
        c = self.depcache.get(name)
        if c is None:
            c = [f for rx, f in self.deps if rx.search(name)]
            self.depcache[name] = c
        for f in c:
            try:
                r = f(self, st, Call(self, info, callee, vs, fr, dest))
            except Unsupported as u:
                return self.unknown_call(st, info, name, vs, dest, target, outs, str(u))
            if r is not None:
                self.used_deps.add(f.label or name)
                res = []
                for s, v in r:
                    if s.dead:
                        continue
                    if isinstance(v, Enter):
                        self.push_frame(s, v.inst, self.spread(v.inst, v.args), dest, target)
                        res.append(s)
                    elif isinstance(v, Panic):
                        outs.append(Out('panic', s, msg=v.msg, where=self.where(s)))
                    else:
                        res += self.finish_call(s, s.frames[-1], dest, target, v, outs)
                return res
        # contracts of the crate's own functions
        k = self.contracts.get(name)
        if k is not None and k.modular and name not in self.exclude:
            r = k.apply(self, st, info, vs)
            if r is not None:
                self.used_contracts.add(name)
                res = []
                for s, v in r:
                    if not s.dead:
                        res += self.finish_call(s, s.frames[-1], dest, target, v, outs)
                return res
        if info['kind'] == 'virtual':
            raise Unsupported('dynamic call ' + name)
        if info['intr'] is not None or not info['body']:
            v = self.constructor(info, name, vs)
            if v is not None:
                return self.finish_call(st, st.frames[-1], dest, target, v, outs)
            return self.unknown_call(st, info, name, vs, dest, target, outs, 'foreign function ' + name)
        if any(p.search(name) for p in NOINLINE) and not FORWARD.search(name):
            self.unknown_ext[name] = self.unknown_ext.get(name, 0) + 1
            return self.unknown_call(st, info, name, vs, dest, target, outs, 'foreign function without contract ' + name)
        if info['crate'] not in ('openid4vci', 'mirroots', 'core', 'alloc', 'std'):
            # code of other dependencies is only entered when it has a contract
            if not any(p.search(name) for p in INLINE_OK):
                self.unknown_ext[name] = self.unknown_ext.get(name, 0) + 1
                return self.unknown_call(st, info, name, vs, dest, target, outs, 'foreign function without contract ' + name)
        self.inlined.add(name)
        self.push_frame(st, callee, self.spread(callee, vs), dest, target)
        return [st]

    def harmless(self, ty, seen=None):
        """no closure, function pointer, trait object, raw pointer or mutable reference inside"""
        seen = set() if seen is None else seen
        i = self.T.info(ty)
        if ty in seen:
            return True
        seen.add(ty)
        k = i['k']
        if k in ('ref', 'ptr'):
            return k == 'ref' and not i['mut'] and self.harmless(i['e'], seen)
        if k in ('closure', 'fnptr', 'dyn', 'fndef', 'never', 'coroutine'):
            return False
        s = self.T.key(ty)
        return '&mut' not in s and 'closure@' not in s and '*mut' not in s and 'dyn ' not in s

    def harmless_fn(self, ty):
        """a closure that captures nothing it could change, or a function"""
        i = self.T.info(ty)
        if i['k'] == 'fndef':
            return True
        return i['k'] == 'closure' and all(self.harmless(u) for u in i['ups'])

    def unknown_call(self, st, info, name, vs, dest, target, outs, why):
        """a function about which nothing is assumed but that it returns: its result and what its mutable
        references point to afterwards are arbitrary. What is proved nevertheless is proved; what is not is
        reported as not decided (see spec.verify)"""
        if info['out'] is None or not HAVOC:
            raise Unsupported(why)
        for t, v in zip(info['in'], vs):
            i = self.T.info(t)
            if i['k'] == 'ref' and i['mut']:
                if not self.harmless(i['e']):
                    raise Unsupported(why)
                if not isinstance(v, Ptr) or isinstance(self.read(st, v.cell, v.path), Sp):
                    raise Unsupported(why)
            elif not self.harmless(t):
                raise Unsupported(why)
        if not self.harmless(info['out']):
            raise Unsupported(why)
        for t, v in zip(info['in'], vs):
            i = self.T.info(t)
            if i['k'] == 'ref' and i['mut']:
                self.write(st, v.cell, v.path, self.sym(st, i['e'], 'h%d' % next(self.fid)))
        out = info['out'] if dest is None or dest[1] else st.frames[-1].body['locals'][dest[0]]     # normalised
        r = self.sym(st, out, 'h%d' % next(self.fid))
        st.taint = st.taint | {why}
        self.havocked.add(why)
        if st.inloop:
            self.looptaint.add(why)
        return self.finish_call(st, st.frames[-1], dest, target, r, outs)

    def constructor(self, info, name, vs):
        """value of a constructor used as a function"""
        t = info['out']
        if t is None or self.T.info(t)['k'] != 'adt':
            return None
        last = re.sub(r'::<.*>$', '', name).rsplit('::', 1)[-1]
        for n, v in enumerate(self.T.info(t)['variants']):
            if v['name'] == last and len(v['fields']) == len(vs):
                return Agg(self.T.peel(t), n, list(vs))
        return None

    def spread(self, callee, vs):
        info = self.srv.inst(callee)
        if info['kind'] == 'item' and self.T.info(info['ty'])['k'] == 'closure' and len(vs) == 2:
            body = self.srv.body(callee)
            tup = vs[1]
            if isinstance(tup, Agg) and self.T.info(tup.ty)['k'] == 'tuple':
                if len(tup.fs) + 1 == body['argc'] and not (body['argc'] == 2 and self.T.key(body['locals'][2]) == self.T.key(tup.ty)):
                    return [vs[0]] + tup.fs
        return vs

    # ------------------------------------------------------------ loops
    def same(self, a, b):
        if a is b:
            return True
        if type(a) is not type(b):
            return False
        if isinstance(a, Tm):
            return a.e.eq(b.e)
        if isinstance(a, Agg):
            return a.ty == b.ty and a.v == b.v and len(a.fs) == len(b.fs) and all(self.same(x, y) for x, y in zip(a.fs, b.fs))
        if isinstance(a, Lst):
            return len(a.items) == len(b.items) and all(self.same(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, SIter):
            return a.pos.eq(b.pos) and a.end.eq(b.end) and self.same(a.seq, b.seq)
        if isinstance(a, Ptr):
            return a.cell == b.cell and a.path == b.path
        if isinstance(a, FnV):
            return a.ty == b.ty
        if isinstance(a, Sp):
            return a.kind == b.kind and len(a.d) == len(b.d) and all(x == y if not isinstance(x, Val) else self.same(x, y) for x, y in zip(a.d, b.d))
        if isinstance(a, CastP):
            return self.same(a.val, b.val)
        if isinstance(a, DiscrV):
            return self.same(a.val, b.val)
        return False

    def diff(self, a, b, path, out):
        """leaf paths at which b differs from a"""
        if self.same(a, b):
            return
        if isinstance(a, Agg) and isinstance(b, Agg) and a.ty == b.ty and a.v == b.v and len(a.fs) == len(b.fs):
            for n, (x, y) in enumerate(zip(a.fs, b.fs)):
                self.diff(x, y, path + (('f', n, a.v, a.ty),), out)
            return
        if isinstance(a, Tm) and isinstance(b, Agg) and not self.T.is_enum(a.ty) and self.T.is_dt(a.ty):
            out.add(path)
            return
        if isinstance(a, SIter) and isinstance(b, SIter) and self.same(a.seq, b.seq):
            if not a.pos.eq(b.pos):
                out.add(path + (('pos',),))
            if not a.end.eq(b.end):
                out.add(path + (('end',),))
            return
        out.add(path)

    def get(self, v, path):
        for s in path:
            if s[0] == 'pos':
                return Tm(None, v.pos)
            if s[0] == 'end':
                return Tm(None, v.end)
            if isinstance(v, Agg):
                v = v.fs[s[1]]
            elif isinstance(v, Tm):
                v = Tm(self.T.peel(self.T.variants(v.ty)[s[2]]['fields'][s[1]]['ty']), self.T.proj(v.ty, v.e, s[2], s[1]))
            elif isinstance(v, Sp):
                v = v.d[s[1]]
            else:
                raise Unsupported('loop state path')
        return v

    def put(self, v, path, x):
        if not path:
            return x
        s = path[0]
        if s[0] == 'pos':
            return SIter(v.ety, v.seq, x.e, v.end)
        if s[0] == 'end':
            return SIter(v.ety, v.seq, v.pos, x.e)
        if isinstance(v, Agg):
            fs = list(v.fs)
            fs[s[1]] = self.put(fs[s[1]], path[1:], x)
            return Agg(v.ty, v.v, fs)
        raise Unsupported('loop state path')

    def leaf_type(self, v, alt):
        for x in (v, alt):
            if isinstance(x, Tm) and x.ty is not None:
                return x.ty
            if isinstance(x, Agg) and self.T.info(self.T.peel(x.ty))['k'] != 'closure':
                return x.ty
        for x in (v, alt):
            if isinstance(x, Lst):
                return ('seq', x.ety)
        raise Unsupported('loop-carried %s' % type(v).__name__)

    def havoc(self, st, v, alt, path):
        if path and path[-1][0] in ('pos', 'end'):
            return Tm(None, self.fresh(I, 'h'))
        t = self.leaf_type(v, alt)
        if isinstance(t, tuple):
            self.seq_axioms(t[1])
            e = self.fresh(self.T.seq_sort(t[1]), 'h')
            ln = self.T.len_f(t[1])(e)
            st.assume(z3.And(ln >= 0, ln <= (1 << 63) - 1))
            return SeqTm(self, t[1], e)
        return self.term(st, t, self.fresh(self.T.sort(t), 'h'))

    def loop_iter(self, st, depth, fid, head, L):
        s = st.fork()
        s.inloop = s.inloop | {(fid, head)}
        s.frames[-1].just = False
        backs, exits, outs = self.explore([s], (depth, fid, head, L))
        return backs, exits, outs

    def do_loop(self, st, head, L, count):
        fr = st.frames[-1]
        depth, fid = len(st.frames), fr.id
        inl = st.inloop
        line = fr.body['blocks'][head]['l']
        lname = '%s:%s' % (self.srv.inst(fr.inst)['name'], line)

        def leave(states):
            for s in states:
                s.inloop = inl
            return states
        n_obl = len(self.obls)
        backs, exits, outs = self.loop_iter(st, depth, fid, head, L)
        if not backs:
            return leave(exits), leave_o(outs, inl)
        # which places change?
        M = {}
        alts = {}

        def collect(h, backs):
            grew = False
            for b in backs:
                for c, v in h.cells.items():
                    w = b.cells.get(c)
                    if w is None:
                        if c not in dropped:
                            dropped.add(c)
                            grew = True
                        continue
                    if c in dropped:
                        continue
                    o = set()
                    self.diff(v, w, (), o)
                    for p in o:
                        key = (c, p)
                        # widen: an ancestor already havocked covers it
                        if any((c, p[:n]) in M for n in range(len(p) + 1)):
                            continue
                        M[key] = None
                        alts[key] = self.get(w, p)
                        grew = True
            return grew
        dropped = set()
        collect(st, backs)
        # concrete iteration: unroll
        if self.concrete(st, M):
            if count > 80:
                raise Unsupported('unrolling')
            for b in backs:
                b.inloop = inl
                e, o = self.do_loop(b, head, L, count + 1)
                exits = exits + e
                outs = outs + o
            return leave(exits), leave_o(outs, inl)
        # a loop over integers that ends after a fixed number of iterations: every iteration is executed
        # (tried a few times where nothing counts: an iterator over one element, say)
        if not any(p and p[-1][0] in ('pos', 'end') for _, p in M):
            al, ex, ou = list(backs), list(exits), list(outs)
            counts = any(isinstance(v, Tm) and v.e.sort() == I for v in (self.get(st.cells[c], p) for c, p in M if c not in dropped))
            for k in range(40 if counts else 3):
                nb = []
                for b in al:
                    b.inloop = inl
                    x, y, z = self.loop_iter(b.fork(), depth, fid, head, L)
                    nb += x
                    ex += y
                    ou += z
                al = nb
                if not al or len(al) > 24 or len(ex) + len(ou) > 400:
                    break
            if not al:
                return leave(ex), leave_o(ou, inl)
        for rnd in range(8):
            del self.obls[n_obl:]
            h = st.fork()
            syms = {}
            for c in dropped:
                h.cells.pop(c, None)
            for (c, p) in list(M):
                if c in dropped:
                    continue
                # drop descendants of havocked ancestors
                if any((c, p[:n]) in M for n in range(len(p))):
                    continue
                x = self.havoc(h, self.get(st.cells[c], p), alts[(c, p)], p)
                syms[(c, p)] = x
                h.cells[c] = self.put(h.cells[c], p, x)
            backs, exits, outs = self.loop_iter(h, depth, fid, head, L)
            if not collect(h, backs):
                break
        else:
            raise Unsupported('loop state does not stabilise')
        # counters
        steps, spans = {}, {}
        for (c, p), x in syms.items():
            if x.e.sort() == I and (p and p[-1][0] in ('pos', 'end') or True):
                ds = set()
                for b in backs:
                    d = z3.simplify(self.z(b, self.get(b.cells[c], p)) - x.e)
                    cs = int_cases(d)
                    ds |= {None} if cs is None else {k for _, k in cs}
                if len(ds) == 1 and None not in ds:
                    steps[(c, p)] = ds.pop()
                elif None not in ds:
                    spans[(c, p)] = (min(ds), max(ds))
        i = self.fresh(I, 'iter')
        mark = next(self.cnt)
        del self.obls[n_obl:]
        h = st.fork()
        for c in dropped:
            h.cells.pop(c, None)
        h.assume(i >= 0)
        syms2 = {}
        bounds = []
        for (c, p), x in syms.items():
            v0 = self.get(st.cells[c], p)
            if (c, p) in steps:
                y = Tm(x.ty, z3.simplify(self.z(st, v0) + steps[(c, p)] * i))
                if p and p[-1][0] == 'pos':
                    it = self.get(st.cells[c], p[:-1])
                    bounds.append((it.pos, it.end, (c, p)))
                    h.assume(y.e <= it.end)
            else:
                y = self.havoc(h, v0, alts[(c, p)], p)
                syms2[(c, p)] = y
                if (c, p) in spans:
                    # every iteration changes it by one of the constants lo..hi
                    lo, hi = spans[(c, p)]
                    z0 = self.z(st, v0)
                    h.assume(z3.And(y.e >= z0 + lo * i, y.e <= z0 + hi * i))
            h.cells[c] = self.put(h.cells[c], p, y)
        npc = len(h.pc)
        backs, exits, outs = self.loop_iter(h, depth, fid, head, L)
        # obligations: iterator bounds are invariant
        for p0, e0, (c, p) in bounds:
            self.obls.append(Obl('loop %s: iterator bound holds initially' % lname, list(st.pc), p0 <= e0, st, lname))
            for b in backs:
                self.obls.append(Obl('loop %s: iterator bound is preserved' % lname, list(b.pc), self.get(b.cells[c], p).e <= e0, b, lname))
        # closed forms of accumulators, history of the iterations
        facts, vague = self.loop_facts(st, h, i, mark, npc, backs, syms2, lname)
        for s in exits + [o.st for o in outs]:
            for f in facts:
                s.assume(f)
            if vague:
                # what is not proved after this loop is undecided: the summary does not say everything
                s.taint = s.taint | {'summary of the loop at ' + lname}
        if vague and inl:
            self.looptaint.add('summary of the loop at ' + lname)
        return leave(exits), leave_o(outs, inl)

    def concrete(self, st, M):
        for (c, p) in M:
            if p and p[-1][0] == 'pos':
                it = self.get(st.cells[c], p[:-1])
                if z3.is_int_value(z3.simplify(it.pos)) and z3.is_int_value(z3.simplify(it.end)):
                    return True
            v = self.get(st.cells[c], p)
            if isinstance(v, Sp) and v.kind.startswith('ghost'):
                return True
            if isinstance(v, Tm) and v.ty is not None and self.T.key(v.ty) == 'json':
                return True
            if p and p[-1][0] == 'f':
                par = self.get(st.cells[c], p[:-1])
                if isinstance(par, Sp) and par.kind.startswith('ghost'):
                    return True
                if isinstance(par, Agg) and self.T.info(par.ty).get('name', '').endswith('ops::Range'):
                    if all(isinstance(f, Tm) and z3.is_int_value(z3.simplify(f.e)) for f in par.fs):
                        return True
        return False

    def consts(self, e, acc=None):
        """free uninterpreted constants of e"""
        acc = {} if acc is None else acc
        seen = set()
        w = [e]
        while w:
            x = w.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                w.append(x.body())
            elif z3.is_app(x):
                if x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    acc[x.decl().name()] = x
                w += x.children()
        return acc

    def mentions(self, e, c):
        return c.decl().name() in self.consts(e)

    def loop_facts(self, st, h, i, mark, npc, backs, syms, lname):
        def is_new(name):
            m = re.search(r'!(\d+)$', name)
            return bool(m) and int(m.group(1)) > mark
        j, l = self.fresh(I, 'j'), self.fresh(I, 'l')

        def at(e, x):
            return z3.substitute(e, (i, x))
        # Phi_k(i): branch conditions of back path k
        phis = []
        for b in backs:
            phis.append([e for e in b.pc[npc:]])
        closed = {}     # const name -> (kind, data)
        facts = []
        skolem = {}     # name of a constant local to one iteration -> (constant, its value as a function of the iteration)

        # what the iterations hand on; those that an iteration asks about (and that have no closed form)
        state = {x.e.decl().name() for x in syms.values()}
        asked, prefix, vague = set(), set(), set()

        def skol(e):
            e = self.subst_sets(e, i, closed)
            sub = []
            for n, k in self.consts(e).items():
                if is_new(n) and n != i.decl().name():
                    if n not in skolem:
                        skolem[n] = (k, self.uf(n + '@', [I], k.sort())(i))
                        if n in state:
                            asked.add(n)
                    sub.append(skolem[n])
            return z3.substitute(e, *sub) if sub else e

        def clean(es, x):
            """conjunction of es at iteration x: accumulators replaced by their closed forms, whatever
            else is local to one iteration by a function of the iteration"""
            r = [at(skol(e), x) for e in es]
            return z3.And(*r) if r else TRUE
        # sets and flags first, then sequences
        for rnd in range(2):
            for (c, p), x in syms.items():
                nm = x.e.decl().name()
                if nm in closed:
                    continue
                news = [self.get(b.cells[c], p) for b in backs]
                v0 = self.get(st.cells[c], p)
                if z3.is_array(x.e) and x.e.sort().range() == B:
                    ins = []
                    ok = True
                    for b, nv in zip(backs, news):
                        e = self.z(b, nv)
                        if e.eq(x.e):
                            ins.append(None)
                        elif z3.is_store(e) and e.arg(0).eq(x.e) and z3.is_true(e.arg(2)):
                            ins.append(e.arg(1))
                        else:
                            ok = False
                    keys_ok = ok and all(k is None or not any(is_new(n) for n in self.consts(k) if n != i.decl().name()) for k in ins)
                    # the summary is exact: membership tests only guard insertions of the tested key (or skip a member)
                    for ph, k in zip(phis, ins):
                        for q in ph:
                            if nm not in self.consts(q):
                                if any(is_new(n) for n in self.consts(q) if n != i.decl().name()):
                                    keys_ok = keys_ok and k is None
                                continue
                            pos = not z3.is_not(q)
                            a = q if pos else q.arg(0)
                            if not (z3.is_select(a) and a.arg(0).eq(x.e)):
                                keys_ok = False
                            elif k is None and not pos or k is not None and not a.arg(1).eq(k):
                                keys_ok = False
                    if keys_ok:
                        closed[nm] = ('set', x.e, self.z(st, v0), ins, phis)
                elif x.e.sort() == B:
                    es = [self.z(b, nv) for b, nv in zip(backs, news)]
                    for pol in (True, False):
                        # one way only: once it is pol it stays pol
                        at1 = [([z3.simplify(z3.substitute(q, (x.e, z3.BoolVal(pol)))) if not self.has_quant(q) else q for q in ph], z3.simplify(z3.substitute(e, (x.e, z3.BoolVal(pol))))) for ph, e in zip(phis, es)]
                        if all(any(z3.is_false(q) for q in ph) or (z3.is_true(e) if pol else z3.is_false(e)) or self.follows(ph, e if pol else z3.Not(e)) for ph, e in at1):
                            off = z3.BoolVal(not pol)
                            cs = []
                            for ph, e in zip(phis, es):
                                ph = [z3.substitute(q, (x.e, off)) for q in ph]
                                if any(z3.is_false(z3.simplify(q)) for q in ph if not self.has_quant(q)):
                                    continue
                                e = z3.simplify(z3.substitute(e, (x.e, off)))
                                cs.append((ph, e if pol else z3.Not(e)))
                            closed[nm] = ('flag', x.e, self.z(st, v0), cs, pol)
                            break
        # history: which path did iteration j take?
        hist_body = z3.Or(*[clean(ph, j) for ph in phis]) if phis else FALSE
        hist = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < i), hist_body)) if not z3.is_true(z3.simplify(hist_body)) else TRUE
        facts.append(hist)
        # state of sets at the head
        for nm, cl in closed.items():
            if cl[0] == 'set':
                _, e, e0, ins, _ = cl
                xv = z3.Const('x!%d' % next(self.cnt), e.sort().domain())
                facts.append(z3.ForAll([xv], z3.Select(e, xv) == self.inset(cl, xv, i, i, closed, clean_for(self, i, mark, closed))))
                # how many elements: one more per iteration exactly if the keys are new and different
                n, n0 = set_card(e), set_card(e0)
                facts.append(z3.And(n >= n0, n <= n0 + i))
                if ins and all(k is not None and k.eq(ins[0]) for k in ins):
                    kj, kl = (z3.substitute(ins[0], (i, y)) for y in (j, l))
                    new = z3.ForAll([j, l], z3.Implies(z3.And(j >= 0, j < l, l < i), kj != kl))
                    if not (z3.is_K(e0) and z3.is_false(e0.arg(0))):
                        new = z3.And(new, z3.ForAll([l], z3.Implies(z3.And(l >= 0, l < i), z3.Not(z3.Select(e0, kl)))))
                    facts.append((n == n0 + i) == new)
            elif cl[0] == 'flag':
                _, e, e0, cs, pol = cl
                # the iteration that turned it found it off; if it is still off, every iteration left it off
                hit = z3.Or(*[clean(ph + [q], l) for ph, q in cs]) if cs else FALSE
                kept = z3.Or(*[clean(ph + [z3.Not(q)], l) for ph, q in cs]) if cs else FALSE
                on, on0 = (e, e0) if pol else (z3.Not(e), z3.Not(e0))
                facts.append(z3.Implies(on0, on))
                facts.append(z3.Implies(z3.And(on, z3.Not(on0)), z3.Exists([l], z3.And(l >= 0, l < i, hit))))
                facts.append(z3.Implies(z3.Not(on), z3.ForAll([l], z3.Implies(z3.And(l >= 0, l < i), kept))))
                if nm in asked:
                    # what iteration k found: the same about the iterations before it
                    k = self.fresh(I, 'j')
                    was = at(skolem[nm][1], k)
                    won = was if pol else z3.Not(was)
                    facts.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < i), z3.And(
                        z3.Implies(on0, won), z3.Implies(won, on),
                        z3.Implies(z3.And(won, z3.Not(on0)), z3.Exists([l], z3.And(l >= 0, l < k, hit))),
                        z3.Implies(z3.Not(won), z3.ForAll([l], z3.Implies(z3.And(l >= 0, l < k), kept))))), patterns=[was]))
        # counts, and values that an iteration replaces
        for (c, p), x in syms.items():
            nm = x.e.decl().name()
            if nm in closed:
                continue
            if isinstance(x, SeqTm) or (x.ty is not None and self.T.key(x.ty)[:4] in ('seq<', 'set<')):
                if z3.is_array(x.e):
                    vague.add(nm)
                continue
            es = [self.z(b, self.get(b.cells[c], p)) for b in backs]
            try:
                e0 = self.z(st, self.get(st.cells[c], p))
            except Unsupported:
                vague.add(nm)
                continue
            if e0.sort() != x.e.sort():
                vague.add(nm)
                continue
            if x.e.sort() == I:
                cs = [int_cases(z3.simplify(e - x.e)) for e in es]
                if None not in cs:
                    cases = [(ph + c, d) for ph, k in zip(phis, cs) for c, d in k]
                    ds = [d for _, d in cases]
                    vague.add(nm)       # none, all or some: not how many
                    for lo in {min(ds), max(ds)}:
                        same = [ph for ph, d in cases if d == lo]
                        other = [ph for ph, d in cases if d != lo]
                        eq = x.e == e0 + lo * i
                        facts.append(z3.Implies(eq, z3.ForAll([l], z3.Implies(z3.And(l >= 0, l < i), z3.Or(*[clean(ph, l) for ph in same])))))
                        facts.append(z3.Or(eq, z3.Exists([l], z3.And(l >= 0, l < i, z3.Or(*[clean(ph, l) for ph in other])))))
                    continue
            wr = [(ph, e) for ph, e in zip(phis, es) if not e.eq(x.e)]
            keep = [ph for ph, e in zip(phis, es) if e.eq(x.e)]
            facts.append(z3.Implies(i == 0, x.e == e0))
            if not keep:
                facts.append(z3.Implies(i > 0, z3.Or(*[z3.And(clean(ph, i - 1), x.e == at(skol(e), i - 1)) for ph, e in wr])))
                continue
            w = self.fresh(I, 'last')
            kept = z3.Or(*[clean(ph, l) for ph in keep])
            facts.append(z3.Or(z3.And(x.e == e0, z3.ForAll([l], z3.Implies(z3.And(l >= 0, l < i), kept))),
                               z3.And(w >= 0, w < i, z3.Or(*[z3.And(clean(ph, w), x.e == at(skol(e), w)) for ph, e in wr]),
                                      z3.ForAll([l], z3.Implies(z3.And(l > w, l < i), kept)))))
        # sequences
        for (c, p), x in syms.items():
            if not isinstance(x, (SeqTm, Tm)) or not (isinstance(x, SeqTm) or (x.ty is not None and self.T.key(x.ty)[:4] == 'seq<')):
                continue
            ety = x.ety if isinstance(x, SeqTm) else self.T.elem(x.ty)
            push, ln, atf = self.T.push_f(ety), self.T.len_f(ety), self.T.at_f(ety)
            es = [self.z(b, self.get(b.cells[c], p)) for b in backs]
            if not all(e.eq(x.e) or z3.is_app(e) and e.decl().eq(push) and e.arg(0).eq(x.e) for e in es):
                vague.add(x.e.decl().name())
                continue
            e0 = self.z(st, self.get(st.cells[c], p))
            if any(e.eq(x.e) for e in es):
                # some iterations push: element ln0 + j comes from iteration src(j), iteration l that pushes yields element dst(l)
                n0 = ln(e0)
                src, dst = self.uf('src!%d' % next(self.cnt), [I], I), self.uf('dst!%d' % next(self.cnt), [I], I)
                m = ln(x.e) - n0
                facts.append(z3.And(m >= 0, m <= i))
                facts.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n0), atf(x.e, j) == atf(e0, j)), patterns=[atf(x.e, j)]))
                z0 = z3.is_int_value(z3.simplify(n0)) and z3.simplify(n0).as_long() == 0 or isinstance(self.get(st.cells[c], p), Lst) and not self.get(st.cells[c], p).items
                el = (lambda k: atf(x.e, k)) if z0 else (lambda k: atf(x.e, n0 + k))
                pushed = z3.Or(*[z3.And(clean(ph, src(j)), el(j) == at(skol(e.arg(1)), src(j))) for ph, e in zip(phis, es) if not e.eq(x.e)])
                facts.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < m), z3.And(src(j) >= 0, src(j) < i, pushed)), **({'patterns': [el(j)]} if z0 else {})))
                facts.append(z3.ForAll([j, l], z3.Implies(z3.And(j >= 0, j < l, l < m), src(j) < src(l)), patterns=[z3.MultiPattern(src(j), src(l))]))
                took = z3.Or(*[clean(ph, l) if e.eq(x.e) else z3.And(clean(ph, l), dst(l) >= 0, dst(l) < m, src(dst(l)) == l, el(dst(l)) == at(skol(e.arg(1)), l)) for ph, e in zip(phis, es)])
                facts.append(z3.ForAll([l], z3.Implies(z3.And(l >= 0, l < i), took)))
                # all of them, or one that did not
                facts.append(z3.Implies(m == i, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < m), src(j) == j), patterns=[src(j)])))
                keep = [ph for ph, e in zip(phis, es) if e.eq(x.e)]
                facts.append(z3.Or(m == i, z3.Exists([l], z3.And(l >= 0, l < i, z3.Or(*[clean(ph, l) for ph in keep])))))
                facts.append(z3.Implies(m == 0, z3.ForAll([l], z3.Implies(z3.And(l >= 0, l < i), z3.Or(*[clean(ph, l) for ph in keep])))))
                if x.e.decl().name() in asked:
                    # what iteration l found: the elements of the iterations before it
                    was = at(skolem[x.e.decl().name()][1], l)
                    prefix.add(x.e.decl().name())
                    facts.append(z3.ForAll([l], z3.Implies(z3.And(l >= 0, l <= i), z3.And(ln(was) >= n0, ln(was) <= ln(x.e))), patterns=[was]))
                    facts.append(z3.ForAll([j, l], z3.Implies(z3.And(l >= 0, l < i, j >= 0, j < ln(was)), z3.And(atf(was, j) == atf(x.e, j), z3.Or(j < n0, src(j - n0) < l))), patterns=[z3.MultiPattern(was, atf(x.e, j)), z3.MultiPattern(was, atf(was, j))]))
                    facts.append(z3.ForAll([j, l], z3.Implies(z3.And(l >= 0, l < i, j >= 0, j < m, src(j) < l), z3.And(n0 + j < ln(was), atf(was, n0 + j) == atf(x.e, n0 + j))), patterns=[z3.MultiPattern(was, src(j))]))
                continue
            facts.append(ln(x.e) == ln(e0) + i)
            facts.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < ln(e0)), atf(x.e, j) == atf(e0, j)), patterns=[atf(x.e, j)]))
            alts = []
            for ph, e in zip(phis, es):
                alts.append(z3.And(clean(ph, j), atf(x.e, ln(e0) + j) == at(skol(e.arg(1)), j)))
            body = z3.Implies(z3.And(j >= 0, j < i), z3.Or(*alts))
            if z3.is_int_value(z3.simplify(ln(e0))) or (isinstance(self.get(st.cells[c], p), Lst) and not self.get(st.cells[c], p).items):
                body = z3.Implies(z3.And(j >= 0, j < i), z3.Or(*[z3.substitute(a, (atf(x.e, ln(e0) + j), atf(x.e, j))) for a in alts]))
                h_ln0 = True
            facts.append(z3.ForAll([j], body))
            if x.e.decl().name() in asked:
                was = at(skolem[x.e.decl().name()][1], l)
                prefix.add(x.e.decl().name())
                facts.append(z3.ForAll([l], z3.Implies(z3.And(l >= 0, l <= i), ln(was) == ln(e0) + l), patterns=[was]))
                facts.append(z3.ForAll([j, l], z3.Implies(z3.And(l >= 0, l <= i, j >= 0, j < ln(was)), atf(was, j) == atf(x.e, j)), patterns=[z3.MultiPattern(was, atf(x.e, j)), z3.MultiPattern(was, atf(was, j))]))
            # obligations
            for b, e in zip(backs, es):
                self.obls.append(Obl('loop %s: accumulated sequence grows by one' % lname, list(b.pc) + [ln(x.e) == ln(e0) + i],
                                     ln(e) == ln(e0) + i + 1, b, lname))
        # what an iteration asks about, but without a closed form: only what one iteration makes of it
        for (c, p), x in syms.items():
            nm = x.e.decl().name()
            if nm not in asked or nm in closed or nm in prefix:
                continue
            vague.add(nm)
            was = skolem[nm][1]
            try:
                e0 = self.z(st, self.get(st.cells[c], p))
                es = [self.z(b, self.get(b.cells[c], p)) for b in backs]
            except Unsupported:
                continue
            if any(e.sort() != x.e.sort() for e in es + [e0]):
                continue
            facts.append(z3.And(at(was, z3.IntVal(0)) == e0, at(was, i) == x.e))
            facts.append(z3.ForAll([l], z3.Implies(z3.And(l >= 0, l < i), z3.Or(*[z3.And(clean(ph, l), at(was, l + 1) == at(skol(e), l)) for ph, e in zip(phis, es)])), patterns=[at(was, l)]))
        # obligation: the history is inductive (what one more iteration adds is a back path)
        if not z3.is_true(hist):
            for b in backs:
                defs = [f for f in facts if f is not hist]
                goal = z3.substitute(hist_body, (j, i))
                here = [k == f for k, f in skolem.values()]
                self.obls.append(Obl('loop %s: iteration summary is inductive' % lname, list(b.pc) + defs + here, goal, b, lname))
        return [f for f in facts if not z3.is_true(f)], bool(vague)

    def follows(self, ph, goal):
        """goal follows from the quantifier-free part of ph"""
        if not any(goal.eq(g) or self.consts(g).keys() & self.consts(goal).keys() for g in ph):
            return False
        s = z3.Solver()
        s.set('timeout', 300)
        s.add(*[q for q in ph if not self.has_quant(q)])
        s.add(z3.Not(goal))
        return s.check() == z3.unsat

    def exact(self, ph, i, is_new, closed):
        for e in ph:
            e = self.subst_sets(e, i, closed)
            if any(is_new(n) for n in self.consts(e) if n != i.decl().name()):
                return False
        return True

    def inset(self, cl, x, upto, i, closed, clean):
        """x is in the set at iteration `upto`"""
        _, e, e0, ins, phis = cl
        l = self.fresh(I, 'l')
        alts = [z3.And(clean(ph, l, e), z3.substitute(k, (i, l)) == x) for ph, k in zip(phis, ins) if k is not None]
        base = z3.Select(e0, x)
        if z3.is_K(e0) and z3.is_false(e0.arg(0)):
            base = FALSE
        if not alts:
            return base
        return z3.Or(base, z3.Exists([l], z3.And(l >= 0, l < upto, z3.Or(*alts))))

    def subst_sets(self, e, i, closed):
        """replace membership tests in accumulator sets by their closed form"""
        if not closed:
            return e
        names = {n: c for n, c in closed.items() if c[0] == 'set'}
        fl = {n: c for n, c in closed.items() if c[0] == 'flag'}
        cs = self.consts(e)
        if not (set(cs) & set(names)):
            return e
        subs = []
        w, seen = [e], set()
        while w:
            y = w.pop()
            if y.get_id() in seen:
                continue
            seen.add(y.get_id())
            if z3.is_select(y) and z3.is_const(y.arg(0)) and y.arg(0).decl().name() in names:
                cl = names[y.arg(0).decl().name()]
                subs.append((y, self.inset(cl, y.arg(1), i, i, closed, clean_for(self, i, None, closed))))
            w += y.children()
        return z3.substitute(e, *subs) if subs else e


def set_card(e):
    """number of elements of a (finite) set"""
    if z3.is_K(e):
        return z3.IntVal(0)
    if z3.is_store(e):
        a, x = e.arg(0), e.arg(1)
        isin = FALSE if z3.is_K(a) else z3.Select(a, x)
        return set_card(a) + (z3.If(isin, z3.IntVal(0), z3.IntVal(1)) if z3.is_true(e.arg(2)) else z3.If(isin, z3.IntVal(-1), z3.IntVal(0)))
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        return z3.If(e.arg(0), set_card(e.arg(1)), set_card(e.arg(2)))
    return z3.Function('card<%s>' % e.sort(), e.sort(), I)(e)


def int_cases(d):
    """an expression that is one of some constants: [(conditions, constant)], else None"""
    if z3.is_int_value(d):
        return [([], d.as_long())]
    if z3.is_app(d) and d.decl().kind() == z3.Z3_OP_ITE:
        a, b = int_cases(d.arg(1)), int_cases(d.arg(2))
        if a is None or b is None or len(a) + len(b) > 6:
            return None
        return [([d.arg(0)] + c, k) for c, k in a] + [([z3.Not(d.arg(0))] + c, k) for c, k in b]
    return None


def clean_for(eng, i, mark, closed):
    def clean(ph, x, setsym):
        # conjuncts about the set itself are implied (membership either way keeps the element in)
        r = []
        for e in ph:
            if setsym.decl().name() in eng.consts(e):
                continue
            m = [n for n in eng.consts(e) if re.search(r'^(h|k|iter)!\d+$', n) and n != i.decl().name()]
            if m:
                continue
            r.append(z3.substitute(e, (i, x)))
        return z3.And(*r) if r else TRUE
    return clean


def leave_o(outs, inl):
    for o in outs:
        o.st.inloop = inl
    return outs


class SeqTm(Tm):
    """symbolic sequence whose Rust type id is not at hand"""
    __slots__ = ('ety',)

    def __init__(self, eng, ety, e):
        Tm.__init__(self, eng_seq_ty(eng, ety), e)
        self.ety = ety


def eng_seq_ty(eng, ety):
    k = 'seq<%s>' % eng.T.key(ety)
    t = eng.T._rep.get(k)
    return eng.T.slice_of(ety) if t is None else t


class Call:
    def __init__(self, eng, info, inst, args, fr, dest=None):
        self.eng, self.info, self.inst, self.args, self.fr = eng, info, inst, args, fr
        self.name, self.out = info['name'], info['out']
        if dest is not None and not dest[1]:
            self.out = fr.body['locals'][dest[0]]     # normalised

    def targ(self, n):
        """n-th type argument of the callee"""
        return [a for a in self.info['args'] if isinstance(a, int)][n]


class Enter:
    """contract answer: execute this function instead (an executable reference body)"""
    def __init__(self, inst, args):
        self.inst, self.args = inst, args


class Panic:
    def __init__(self, msg):
        self.msg = msg


NOINLINE = [re.compile(p) for p in (
    r'^core::fmt::', r'^std::fmt::', r'^std::alloc::', r'^std::io::', r'^std::thread', r'^std::collections::', r'^hashbrown',
    r'^std::ptr::(read|write|copy|drop_in_place|swap)', r'^core::str::', r'^std::str::', r'^std::string::String::', r'^std::vec::Vec::',
    r'^std::slice::', r'RawVec', r'^std::sys', r'^<std::string::String as ', r'^<std::str::', r'^<str as ', r'^<std::vec::Vec<.*> as std::(iter|ops|cmp)',
)]
# forwarding implementations of core
FORWARD = re.compile(r' as std::convert::(Into|TryInto)<.*>>::(into|try_into)$'
                     r'|^core::str::<impl str>::parse::<.*>$|^<std::str::\w+<.*> as std::iter::(DoubleEndedIterator>::r\w+|Iterator>::(?!next|size_hint|count|fold)\w+|IntoIterator>::into_iter)(::<.*>)?$')
HAVOC = True
INLINE_OK = [re.compile(p) for p in (
    r'^<ssi_jwk::Algorithm as std::default::Default>::default$',
    # serde's code between derived implementations and a serializer, on ghost documents
    r'^serde::.*<impl serde::Serialize for .*>::serialize::<', r'^<serde::__private::ser::FlatMapSerialize',
    r'^serde::(__private|de)::', r'^<serde::(__private|de)::.* as serde::', r'^serde::.*<impl serde::Deserialize<.*>::deserialize',
    r'^<.* as serde::(de::)?(Visitor|Deserialize|DeserializeSeed|MapAccess|SeqAccess|EnumAccess|VariantAccess|IntoDeserializer|value::private::Pair|Deserializer)(<.*>)?>::', r'^<serde::(__private|de)::',
)]
