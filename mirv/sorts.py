"""Logical sorts of Rust types.  Shared references and Box are transparent, Vec/slice/array are
finite sequences, String/str are strings, integers are mathematical integers with range facts,
structs/enums/tuples are algebraic datatypes, foreign types are opaque (fields by functions)."""
import z3

I, B = z3.IntSort(), z3.BoolSort()
# strings: abstract values; a literal is str(k) for its index k, so different literals are different
_STR = z3.Datatype('Str')
_STR.declare('str', ('str.id', I))
S = _STR.create()
LITS, LITID = [], {}
# points in time are nanoseconds since the epoch, within the range chrono represents
NS = 10**9
TMIN, TMAX = -8334601228800 * NS, 8210266876799 * NS + 999999999
TRANSPARENT = {'std::boxed::Box', 'std::rc::Rc', 'std::sync::Arc', 'std::borrow::Cow',
               'std::mem::ManuallyDrop', 'std::mem::MaybeUninit', 'std::cell::UnsafeCell'}
STD_DT = {'std::option::Option', 'std::result::Result', 'std::ops::ControlFlow', 'std::cmp::Ordering',
          'std::ops::Range', 'std::collections::hash_map::Entry', 'std::ops::RangeInclusive'}


class Unsupported(Exception):
    pass


class Types:
    def __init__(self, srv):
        self.srv = srv
        self._key = {}
        self._sort = {}
        self._dt = {}
        self._rep = {}
        self.names = {}
        self._made = {}

    def info(self, t):
        return self._made[t] if t < 0 else self.srv.ty(t)

    def slice_of(self, ety):
        """a type for sequences of ety, if the program has none"""
        t = -1 - len(self._made)
        self._made[t] = {'k': 'slice', 'e': ety, 's': '[%s]' % self.key(ety)}
        self.key(t)
        return t

    def is_box(self, t):
        i = self.info(t)
        return i['k'] == 'adt' and i['name'] in TRANSPARENT

    def inner(self, t):
        """pointee of a reference, raw pointer or transparent wrapper, else None"""
        i = self.info(t)
        if i['k'] in ('ref', 'ptr'):
            return i['e']
        if i['k'] == 'adt' and i['name'] in TRANSPARENT:
            a = [x for x in i['args'] if isinstance(x, int)]
            return a[0]
        if i['k'] == 'adt' and i['name'].split('::')[-1] in ('NonNull', 'Unique', 'BoxRaw'):
            return [x for x in i['args'] if isinstance(x, int)][0]
        if i['k'] == 'pat':
            return i['e']
        return None

    def peel(self, t):
        while True:
            e = self.inner(t)
            if e is None:
                return t
            t = e

    def key(self, t):
        k = self._key.get(t)
        if k is None:
            self._key[t] = '?'
            k = self._key[t] = self._mk_key(t)
            self._rep.setdefault(k, self.peel(t))
        return k

    def _args(self, i):
        return [self.key(a) if isinstance(a, int) else str(a.get('n', '?')) for a in i['args'] if a is not None]

    def _mk_key(self, t):
        t = self.peel(t)
        i = self.info(t)
        k = i['k']
        if k in ('bool', 'never', 'dyn', 'float', 'fnptr', 'other'):
            return {'never': '!'}.get(k, k if k != 'dyn' else i['s'])
        if k in ('int', 'char'):
            return 'int'
        if k == 'str':
            return 'str'
        if k in ('slice', 'array'):
            return 'seq<%s>' % self.key(i['e'])
        if k == 'tuple':
            return '(%s)' % ','.join(self.key(e) for e in i['es'])
        if k == 'adt':
            n = i['name']
            if n == 'std::string::String':
                return 'str'
            if n in ('mirroots::ghost::GDoc', 'mirroots::ghost::GRaw'):
                return 'json'
            if n in ('std::vec::Vec',):
                return 'seq<%s>' % self.key(i['args'][0])
            if n in ('std::collections::HashSet', 'std::collections::BTreeSet'):
                return 'set<%s>' % self._args(i)[0]
            if n.startswith('chrono::') and n.endswith('DateTime') and 'Utc' in str(self._args(i)):
                return 'time'
            if n in ('time::duration::Duration', 'chrono::TimeDelta', 'chrono::Duration', 'chrono::time_delta::TimeDelta', 'time::Duration'):
                return 'dur'
            a = self._args(i)
            return n + ('<%s>' % ','.join(a) if a else '')
        if k == 'closure':
            return 'closure:' + i['name'] + str(self._args(i)[-1:])
        if k == 'fndef':
            return 'fn:' + i['name']
        return i['s']

    def rep(self, key):
        return self._rep[key]

    def is_dt(self, t):
        t = self.peel(t)
        i = self.info(t)
        if i['k'] == 'tuple':
            return True
        if i['k'] != 'adt' or i['kind'] == 'union':
            return False
        if self.key(t) in ('str', 'time', 'dur', 'json') or self.key(t)[:4] in ('seq<', 'set<'):
            return False
        if i['crate'] in ('openid4vci', 'mirroots') or i['name'] in STD_DT:
            return True
        return i['kind'] == 'enum' and all(not v['fields'] for v in i['variants']) and len(i['variants']) > 0

    def variants(self, t):
        t = self.peel(t)
        i = self.info(t)
        if i['k'] == 'tuple':
            return [{'name': 'T', 'discr': '0', 'fields': [{'name': str(n), 'ty': e} for n, e in enumerate(i['es'])]}]
        if i['k'] == 'closure':
            return [{'name': 'C', 'discr': '0', 'fields': [{'name': str(n), 'ty': e} for n, e in enumerate(i['ups'])]}]
        if i['k'] == 'adt':
            return i['variants']
        raise Unsupported('variants of ' + i['s'])

    def is_enum(self, t):
        i = self.info(self.peel(t))
        return i['k'] == 'adt' and i['kind'] == 'enum'

    def uninhabited(self, t, depth=0):
        t = self.peel(t)
        i = self.info(t)
        if i['k'] == 'never':
            return True
        if depth > 3:
            return False
        if i['k'] == 'adt' and i['kind'] == 'enum' and (i['name'] in STD_DT or not i['variants']):
            return all(any(self.uninhabited(f['ty'], depth + 1) for f in v['fields']) for v in i['variants'])
        if i['k'] == 'tuple':
            return any(self.uninhabited(e, depth + 1) for e in i['es'])
        return False

    def variant_index(self, t, name):
        for k, v in enumerate(self.variants(t)):
            if v['name'] == name:
                return k
        raise KeyError('%s has no variant %s' % (self.info(self.peel(t))['s'], name))

    def field_index(self, t, v, name):
        for k, f in enumerate(self.variants(t)[v]['fields']):
            if f['name'] == name:
                return k
        raise KeyError('%s has no field %s' % (self.info(self.peel(t))['s'], name))

    # ---- z3 sorts
    def sort(self, t):
        k = self.key(t)
        s = self._sort.get(k)
        if s is None:
            s = self._mk_sort(k, self.peel(t))
            self._sort[k] = s
        return s

    def _mk_sort(self, k, t):
        if k == 'bool':
            return B
        if k in ('int', 'time', 'dur'):
            return I
        if k == 'str':
            return S
        if k.startswith('set<'):
            a = [x for x in self.info(t)['args'] if isinstance(x, int)]
            return z3.ArraySort(self.sort(a[0]), B)
        if self.is_dt(t):
            self._mk_dt(t)
            return self._sort[k]
        return z3.DeclareSort(k)

    def _mk_dt(self, t):
        # strongly connected component of datatypes reachable from t
        order, low, num, stack, on, sccs = {}, {}, [0], [], set(), []

        def deps(k):
            r = []
            for v in self.variants(self.rep(k)):
                for f in v['fields']:
                    if self.is_dt(f['ty']) and self.key(f['ty']) not in self._sort:
                        r.append(self.key(f['ty']))
            return r

        def visit(k):
            order[k] = low[k] = num[0]
            num[0] += 1
            stack.append(k)
            on.add(k)
            for d in deps(k):
                if d not in order:
                    visit(d)
                    low[k] = min(low[k], low[d])
                elif d in on:
                    low[k] = min(low[k], order[d])
            if low[k] == order[k]:
                c = []
                while True:
                    x = stack.pop()
                    on.discard(x)
                    c.append(x)
                    if x == k:
                        break
                sccs.append(c)
        visit(self.key(t))
        for comp in sccs:
            decl = {k: z3.Datatype(k) for k in comp}
            for k in comp:
                for v in self.variants(self.rep(k)):
                    fs = []
                    for f in v['fields']:
                        fk = self.key(f['ty'])
                        fs.append(('%s.%s.%s' % (k, v['name'], f['name']), decl[fk] if fk in decl else self.sort(f['ty'])))
                    decl[k].declare('%s.%s' % (k, v['name']), *fs)
                if not self.variants(self.rep(k)):
                    decl[k].declare('%s.!' % k)
            made = z3.CreateDatatypes(*[decl[k] for k in comp])
            for k, m in zip(comp, made):
                self._sort[k] = m

    def _opq(self, t, what, dom, rng):
        return z3.Function('%s!%s' % (self.key(t), what), *dom, rng)

    def isv(self, t, e, v):
        """expr e : t is variant v"""
        t = self.peel(t)
        if not self.is_enum(t):
            return z3.BoolVal(True)
        if self.is_dt(t):
            s = self.sort(t)
            if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR:
                return z3.BoolVal(e.decl().eq(s.constructor(v)))
            return s.recognizer(v)(e)
        return self._opq(t, 'discr', [self.sort(t)], I)(e) == v

    def variant_of_expr(self, t, e):
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR:
            s = self.sort(t)
            for v in range(s.num_constructors()):
                if e.decl().eq(s.constructor(v)):
                    return v
        return None

    def proj(self, t, e, v, k):
        t = self.peel(t)
        f = self.variants(t)[v]['fields'][k]
        if self.is_dt(t):
            s = self.sort(t)
            if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR and e.decl().eq(s.constructor(v)):
                return e.arg(k)
            return s.accessor(v, k)(e)
        return self._opq(t, '%d.%s' % (v, f['name']), [self.sort(t)], self.sort(f['ty']))(e)

    def ctor(self, t, v, es):
        t = self.peel(t)
        return self.sort(t).constructor(v)(*es)

    # ---- sequences: uninterpreted sort + length/element/push
    def elem(self, t):
        i = self.info(self.peel(t))
        if i['k'] in ('slice', 'array'):
            return i['e']
        return [x for x in i['args'] if isinstance(x, int)][0]

    def seq_sort(self, ety):
        return self._sort.setdefault('seq<%s>' % self.key(ety), z3.DeclareSort('seq<%s>' % self.key(ety)))

    def len_f(self, ety):
        return z3.Function('len<%s>' % self.key(ety), self.seq_sort(ety), I)

    def at_f(self, ety):
        return z3.Function('at<%s>' % self.key(ety), self.seq_sort(ety), I, self.sort(ety))

    def push_f(self, ety):
        return z3.Function('push<%s>' % self.key(ety), self.seq_sort(ety), self.sort(ety), self.seq_sort(ety))

    def nil(self, ety):
        return z3.Const('nil<%s>' % self.key(ety), self.seq_sort(ety))

    def int_range(self, t):
        i = self.info(self.peel(t))
        if i['k'] == 'char':
            return 0, 0x10FFFF
        b = i['bits']
        return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if i['signed'] else (0, (1 << b) - 1)


def strval(s):
    """logical string literal"""
    k = LITID.get(s)
    if k is None:
        k = LITID[s] = len(LITS)
        LITS.append(s)
    return S.constructor(0)(z3.IntVal(k))


def strlit(e):
    """Python string of a literal, or None"""
    if z3.is_app(e) and e.num_args() == 1 and e.sort() == S and e.decl().eq(S.constructor(0)) and z3.is_int_value(e.arg(0)):
        k = e.arg(0).as_long()
        return LITS[k] if 0 <= k < len(LITS) else None
    return None


# s ++ t, kept in normal form: right-nested, adjacent literals merged, no empty literals
CAT = z3.Function('str.cat', S, S, S)


def pieces(e):
    r = []
    while z3.is_app(e) and e.decl().eq(CAT):
        r.append(e.arg(0))
        e = e.arg(1)
    return r + [e]


def concat(*xs):
    ys = []
    for x in xs:
        for y in pieces(x):
            if strlit(y) == '':
                continue
            if ys and strlit(y) is not None and strlit(ys[-1]) is not None:
                ys[-1] = strval(strlit(ys[-1]) + strlit(y))
            else:
                ys.append(y)
    if not ys:
        return strval('')
    e = ys[-1]
    for y in reversed(ys[:-1]):
        e = CAT(y, e)
    return e


def has(kind, s, p):
    """starts_with / ends_with / contains, decided on literals"""
    ps, l = pieces(s), strlit(p)
    if l is not None:
        if l == '':
            return z3.BoolVal(True)
        if len(ps) == 1 and strlit(s) is not None:
            t = strlit(s)
            return z3.BoolVal({'starts_with': t.startswith, 'ends_with': t.endswith, 'contains': t.__contains__}[kind](l))
        if kind == 'starts_with' and strlit(ps[0]) is not None and (len(strlit(ps[0])) >= len(l) or not l.startswith(strlit(ps[0]))):
            return z3.BoolVal(strlit(ps[0]).startswith(l))
        if kind == 'ends_with' and strlit(ps[-1]) is not None and (len(strlit(ps[-1])) >= len(l) or not l.endswith(strlit(ps[-1]))):
            return z3.BoolVal(strlit(ps[-1]).endswith(l))
        if kind == 'contains' and any(strlit(x) is not None and l in strlit(x) for x in ps):
            return z3.BoolVal(True)
    return z3.Function('str.' + kind, S, S, B)(s, p)


def strip(pre, s, p):
    """what strip_prefix/strip_suffix leaves when it applies"""
    ps, l = pieces(s), strlit(p)
    if l is not None:
        t = strlit(ps[0] if pre else ps[-1])
        if t is not None and (t.startswith(l) if pre else t.endswith(l)):
            return concat(*([strval(t[len(l):])] + ps[1:] if pre else ps[:-1] + [strval(t[:len(t) - len(l)])]))
    return z3.Function('str.strip_prefix' if pre else 'str.strip_suffix', S, S, S)(s, p)
