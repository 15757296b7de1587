"""Contracts assumed of std and of the crates openid4vci depends on.  Every rule carries a label:
the labels used by a proof are listed in its evidence as trusted."""
import re
import z3
from sorts import Unsupported, strval, strlit, concat, has, strip, pieces, I, B, S
from engine import Tm, Agg, Lst, Ptr, FnV, CastP, SIter, DiscrV, Sp, Undef, Enter, Panic, TRUE, FALSE

DEPS = []
NS = 10**9


def dep(rx, label):
    def deco(f):
        def g(eng, st, c):
            return f(eng, st, c)
        g.label = label
        DEPS.append((re.compile(rx), g))
        return f
    return deco


# ------------------------------------------------------------------ small helpers
def load(eng, st, v):
    """the value behind any number of pointers"""
    n = 0
    while isinstance(v, (Ptr, CastP)) and n < 20:
        v = eng.deref_val(st, v)
        n += 1
    return v


def zl(eng, st, v):
    return eng.z(st, load(eng, st, v))


def variant(eng, ty, name, *fs):
    k = eng.T.variant_index(ty, name)
    return Agg(eng.T.peel(ty), k, list(fs))


def fld(eng, ty, vname, n=0):
    return eng.T.variants(ty)[eng.T.variant_index(ty, vname)]['fields'][n]['ty']


def some(eng, ty, v):
    return variant(eng, ty, 'Some', v)


def none(eng, ty):
    return variant(eng, ty, 'None')


def forks(eng, st, cond):
    return eng.branch(st, cond)


def tm(eng, st, ty, e):
    return eng.term(st, ty, e)


def target(eng, st, v):
    """the innermost pointer behind any number of pointers"""
    while True:
        w = eng.deref_val(st, v)
        if not isinstance(w, Ptr):
            return v
        v = w


def opt_fork(eng, st, ty, cond, mk):
    """Some(mk) if cond else None"""
    r = []
    for s, b in forks(eng, st, cond):
        r.append((s, some(eng, ty, mk(s)) if b else none(eng, ty)))
    return r


def res_fork(eng, st, ty, cond, ok, err):
    r = []
    for s, b in forks(eng, st, cond):
        r.append((s, variant(eng, ty, 'Ok', ok(s)) if b else variant(eng, ty, 'Err', err(s))))
    return r


def boolv(eng, c, e):
    return Tm(c.out, e)


def crate_adt(eng, t):
    i = eng.T.info(eng.T.peel(t))
    return i['k'] == 'adt' and i['crate'] == 'openid4vci'


def self_ty(c):
    """type of the first argument"""
    return c.info['in'][0]


# ------------------------------------------------------------------ clone, equality, conversions
@dep(r'(^| as )std::clone::Clone>::clone$|^std::clone::impls::<impl std::clone::Clone for .*>::clone$|::<impl std::clone::Clone for .*>::clone$',
     'Clone::clone of std and dependency types returns an equal value')
def clone(eng, st, c):
    t = c.out
    if crate_adt(eng, t) and c.name.startswith('<openid4vci'):
        return None            # the crate's own Clone implementations have contracts / bodies
    v = load(eng, st, c.args[0])
    if isinstance(v, (Undef,)):
        raise Unsupported('clone of uninitialised value')
    if not clone_ok(eng, t):
        return None
    return [(st, v)]


def clone_ok(eng, t, seen=None):
    """no crate type with a failing Clone contract inside"""
    seen = seen if seen is not None else set()
    t = eng.T.peel(t)
    if t in seen:
        return True
    seen.add(t)
    i = eng.T.info(t)
    if crate_adt(eng, t) and i['name'] in getattr(eng, 'bad_clone', ()):
        return False
    if i['k'] == 'adt':
        return all(clone_ok(eng, a, seen) for a in i['args'] if isinstance(a, int))
    if i['k'] == 'tuple':
        return all(clone_ok(eng, a, seen) for a in i['es'])
    if i['k'] in ('slice', 'array'):
        return clone_ok(eng, i['e'], seen)
    return True


@dep(r'^<?std::(option::Option|result::Result)(::)?<&(mut )?[^>]*>+::(cloned|copied)$|std::option::Option::<&T>::(cloned|copied)$',
     'Option::cloned returns an equal value')
def opt_cloned(eng, st, c):
    if not clone_ok(eng, c.out):
        return None
    v = load(eng, st, c.args[0])
    if isinstance(v, Agg):
        return [(st, Agg(eng.T.peel(c.out), v.v, [load(eng, st, f) for f in v.fs]))]
    return [(st, Tm(eng.T.peel(c.out), v.e))]


@dep(r'std::borrow::ToOwned for .*>::to_owned$|::to_owned$|^<std::string::String as std::convert::From<.*>>::from$|^<str as std::string::(Spec)?ToString>::|^<std::string::String as std::string::(Spec)?ToString>::|^<&*(str|std::string::String) as std::string::(Spec)?ToString>::'
     r'|^<(&str|std::string::String|&std::string::String|std::boxed::Box<str>) as std::convert::Into<std::string::String>>::into$'
     r'|^<std::string::String as std::ops::Deref(Mut)?>::deref(_mut)?$|^std::string::String::(as_str|into_boxed_str)$'
     r'|^<std::(string::String|vec::Vec<.*>) as std::convert::AsRef<(str|\[.*\])>>::as_ref$|^<str as std::convert::AsRef<str>>::as_ref$'
     r'|^<std::string::String as std::borrow::Borrow<str>>::borrow$|^<std::vec::Vec<.*> as std::(ops::Deref|borrow::Borrow<\[.*\]>)>::(deref|borrow)$|^std::vec::Vec::<.*>::as_slice$'
     r'|^std::slice::<impl \[.*\]>::(to_vec|into_vec)$|^core::slice::<impl \[.*\]>::(as_ref)$|^std::borrow::Cow::<.*>::into_owned$|^<std::borrow::Cow<.*> as std::(ops::Deref|string::ToString|convert::AsRef<str>)>::(deref|to_string|as_ref)$'
     r'|^<std::borrow::Cow<.*> as std::string::SpecToString>::spec_to_string$|^std::string::<impl std::convert::From<std::borrow::Cow<.*>> for std::string::String>::from$'
     r'|ConvertVec>::to_vec::|^std::vec::Vec::<.*>::into_boxed_slice$|^<\[.*\] as std::convert::AsRef<\[.*\]>>::as_ref$|^<std::vec::Vec<.*> as std::convert::From<&\[.*\]>>::from$|^<std::vec::Vec<.*> as std::convert::From<\[.*\]>>::from$',
     'conversions between String/&str/Cow/Vec/slice (to_owned, from, deref, as_str, to_vec, into_owned) keep the contents')
def ident(eng, st, c):
    v = c.args[0]
    n = 0
    while isinstance(v, (Ptr, CastP)) and n < 20:
        v = eng.deref_val(st, v)
        n += 1
    if isinstance(v, (SIter, FnV, Undef)):
        return None
    if eng.T.key(c.out) != eng.T.key(self_ty(c)):
        return None
    if 'mut' in c.name and isinstance(c.args[0], Ptr):
        return [(st, c.args[0])]
    return [(st, v)]


@dep(r'^<.* as std::cmp::PartialEq(<.*>)?>::(eq|ne)$|^core::str::traits::<impl std::cmp::PartialEq(<.*>)? for str>::(eq|ne)$'
     r'|^std::(string|vec|array|slice|cmp|option)::.*<impl std::cmp::PartialEq(<.*>)? for .*>::(eq|ne)$|^core::(slice|array)::.*<impl std::cmp::PartialEq(<.*>)? for .*>::(eq|ne)$',
     'PartialEq of std and dependency types decides equality of the values')
def peq(eng, st, c):
    if crate_adt(eng, self_ty(c)) and c.name.startswith('<openid4vci'):
        return None
    a, b = load(eng, st, c.args[0]), load(eng, st, c.args[1])
    if isinstance(a, (SIter, FnV, Sp, Undef)):
        return None
    if not eq_ok(eng, self_ty(c)):
        return None
    x, y = eng.z(st, a), eng.z(st, b)
    if x.sort() != y.sort():
        return None
    e = eq_values(eng, st, self_ty(c), a, b, x, y)
    if c.name.endswith('::ne'):
        e = z3.Not(e)
    return [(st, Tm(c.out, e))]


def eq_values(eng, st, ty, a, b, x, y):
    if isinstance(a, Agg) and isinstance(b, Agg) and eng.T.is_dt(a.ty):
        if a.v != b.v:
            return FALSE
        return z3.And(*[eng.mk_eq(eng.z(st, p), eng.z(st, q)) for p, q in zip(a.fs, b.fs)]) if a.fs else TRUE
    if eng.T.key(ty)[:4] == 'seq<' and not x.eq(y):
        # extensional equality
        ety = eng.T.elem(ty)
        j = z3.Int('jeq!%d' % next(eng.cnt))
        ln, at = eng.T.len_f(ety), eng.T.at_f(ety)
        ext = z3.And(ln(x) == ln(y), z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < ln(x)), at(x, j) == at(y, j))))
        st.assume((x == y) == ext)
    return eng.mk_eq(x, y)


def eq_ok(eng, t, seen=None):
    seen = seen if seen is not None else set()
    t = eng.T.peel(t)
    if t in seen:
        return True
    seen.add(t)
    i = eng.T.info(t)
    if i['k'] == 'float':
        return False
    if crate_adt(eng, t) and i['name'] in getattr(eng, 'bad_eq', ()):
        return False
    if i['k'] == 'adt':
        return all(eq_ok(eng, a, seen) for a in i['args'] if isinstance(a, int))
    if i['k'] == 'tuple':
        return all(eq_ok(eng, a, seen) for a in i['es'])
    if i['k'] in ('slice', 'array'):
        return eq_ok(eng, i['e'], seen)
    return True


@dep(r'^<chrono::.*DateTime<.*Utc> as std::cmp::PartialOrd(<.*>)?>::(lt|le|gt|ge|partial_cmp)$|^<chrono::.*DateTime<.*Utc> as std::cmp::Ord>::(cmp|max|min)$|^<(chrono|time)::.*(Duration|TimeDelta) as std::cmp::(Partial)?Ord(<.*>)?>::(lt|le|gt|ge|partial_cmp|cmp|max|min)$'
     r'|^<(std::string::String|str|&str) as std::cmp::(Partial)?Ord(<.*>)?>::(lt|le|gt|ge|cmp|partial_cmp|min|max)$|^core::str::traits::<impl std::cmp::(Partial)?Ord(<.*>)? for str>::(lt|le|gt|ge|cmp|partial_cmp)$|^std::cmp::impls::<impl std::cmp::(Partial)?Ord(<.*>)? for &(mut )?(str|std::string::String)>::(lt|le|gt|ge|cmp|partial_cmp)$',
     'chrono DateTime<Utc> is ordered as the point in time it denotes (nanoseconds)')
def tcmp(eng, st, c):
    a, b = zl(eng, st, c.args[0]), zl(eng, st, c.args[1])
    k = c.name.rsplit('::', 1)[1]
    if a.sort() == S:
        if k in ('max', 'min'):
            return None
        x, y = a, b
        vague(eng, st, 'order of texts')
        a, b = (z3.Function('str.rank', S, z3.RealSort())(z) for z in (a, b))
        if k in ('cmp', 'partial_cmp'):
            oty = c.out if k == 'cmp' else fld(eng, c.out, 'Some')
            r = []
            for s, eq in forks(eng, st, eng.mk_eq(x, y)):
                if eq:
                    r.append((s, variant(eng, oty, 'Equal')))
                else:
                    s.assume(a != b)
                    r += [(s2, variant(eng, oty, 'Less' if lt else 'Greater')) for s2, lt in forks(eng, s, a < b)]
            return r if k == 'cmp' else [(s, some(eng, c.out, v)) for s, v in r]
    if k in ('lt', 'le', 'gt', 'ge'):
        return [(st, Tm(c.out, z3.simplify({'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[k])))]
    if k in ('max', 'min'):
        return [(st, Tm(c.out, z3.If(a >= b, a, b) if k == 'max' else z3.If(a <= b, a, b)))]
    oty = c.out
    if k == 'partial_cmp':
        oty = fld(eng, c.out, 'Some')
    r = []
    for s, lt in forks(eng, st, a < b):
        if lt:
            r.append((s, variant(eng, oty, 'Less')))
        else:
            for s2, eq in forks(eng, s, a == b):
                r.append((s2, variant(eng, oty, 'Equal' if eq else 'Greater')))
    if k == 'partial_cmp':
        r = [(s, some(eng, c.out, v)) for s, v in r]
    return r


@dep(r'^std::convert::(identity)::<|^<(.*) as std::convert::From<\2>>::from$', 'identity conversions')
def identc(eng, st, c):
    return [(st, c.args[0])]


# ------------------------------------------------------------------ time
from sorts import TMIN, TMAX


@dep(r'^chrono::.*Utc::now$', 'Utc::now returns points in time that never decrease during one call (between clock.start and clock.end)')
def now(eng, st, c):
    t = eng.fresh(I, 'now')
    last = st.clock[-1] if st.clock else eng.clock0
    st.assume(z3.And(t >= last, t <= eng.clock1, eng.clock0 >= TMIN, eng.clock1 <= TMAX))
    st.clock.append(t)
    return [(st, tm(eng, st, c.out, t))]


def secs(name):
    return {'seconds': 1, 'minutes': 60, 'hours': 3600, 'days': 86400, 'weeks': 604800}[name]


@dep(r'^(time::duration::Duration|time::Duration|chrono::.*(Duration|TimeDelta))::(try_)?(seconds|minutes|hours|days|weeks|milliseconds|microseconds|nanoseconds)$',
     'Duration::seconds/minutes/... denote that span; panic outside of +-i64::MAX milliseconds')
def dur(eng, st, c):
    n = zl(eng, st, c.args[0])
    k = c.name.rsplit('::', 1)[1]
    tr = k.startswith('try_')
    k = k.replace('try_', '')
    unit = {'milliseconds': NS // 1000, 'microseconds': 1000, 'nanoseconds': 1}.get(k) or secs(k) * NS
    v = z3.simplify(n * unit)
    MAXNS = (2**63 - 1) * 10**6
    ok = z3.And(v >= -MAXNS, v <= MAXNS)
    if k in ('milliseconds', 'microseconds', 'nanoseconds') and not tr:
        if k == 'milliseconds':
            ok = v >= -MAXNS
        else:
            return [(st, Tm(c.out, v))]
    if tr:
        return opt_fork(eng, st, c.out, ok, lambda s: Tm(fld(eng, c.out, 'Some'), v))
    r = []
    for s, b in forks(eng, st, ok):
        r.append((s, Tm(c.out, v)) if b else (s, Panic('Duration::%s out of bounds' % k)))
    return r


@dep(r'^(time::duration::Duration|chrono::.*(Duration|TimeDelta))::(num_seconds|num_milliseconds|num_minutes)$', 'Duration::num_* truncate towards zero')
def durnum(eng, st, c):
    n = zl(eng, st, c.args[0])
    k = c.name.rsplit('::', 1)[1]
    d = {'num_seconds': NS, 'num_milliseconds': NS // 1000, 'num_minutes': 60 * NS}[k]
    return [(st, Tm(c.out, z3.If(n >= 0, n / d, -((-n) / d))))]


@dep(r'^chrono::.*DateTime::<.*Utc>::(checked_add_signed|checked_sub_signed)$', 'DateTime::checked_add_signed is exact addition, None outside of the representable range')
def addsigned(eng, st, c):
    a, b = zl(eng, st, c.args[0]), zl(eng, st, c.args[1])
    v = a + b if 'add' in c.name else a - b
    return opt_fork(eng, st, c.out, z3.And(v >= TMIN, v <= TMAX), lambda s: Tm(fld(eng, c.out, 'Some'), v))


@dep(r'^<chrono::.*DateTime<.*Utc> as std::ops::(Add|Sub)(<.*>)?>::(add|sub)$', 'DateTime +/- Duration is exact, panics outside of the representable range')
def addop(eng, st, c):
    a, b = zl(eng, st, c.args[0]), zl(eng, st, c.args[1])
    v = a + b if c.name.endswith('add') else a - b
    if eng.T.key(c.out) == 'dur':
        return [(st, Tm(c.out, v))]
    r = []
    for s, ok in forks(eng, st, z3.And(v >= TMIN, v <= TMAX)):
        r.append((s, Tm(c.out, v)) if ok else (s, Panic('DateTime arithmetic overflow')))
    return r


@dep(r'^chrono::.*DateTime::<.*Utc>::signed_duration_since', 'DateTime::signed_duration_since is exact')
def since(eng, st, c):
    return [(st, Tm(c.out, zl(eng, st, c.args[0]) - zl(eng, st, c.args[1])))]


DUR = r'(time::duration::Duration|chrono::.*(Duration|TimeDelta))'
MAXDUR = (2**63 - 1) * 10**6


@dep(r'^' + DUR + r'::(zero|max_value|min_value)$', 'Duration::zero/min_value/max_value: 0 and +-i64::MAX milliseconds (min_value is i64::MIN)')
def durconst(eng, st, c):
    k = c.name.rsplit('::', 1)[1]
    return [(st, Tm(c.out, z3.IntVal({'zero': 0, 'max_value': MAXDUR, 'min_value': -2**63 * 10**6}[k])))]


@dep(r'^' + DUR + r'::is_zero$', 'Duration::is_zero compares with 0')
def duriszero(eng, st, c):
    return [(st, Tm(c.out, zl(eng, st, c.args[0]) == 0))]


@dep(r'^<' + DUR + r' as std::ops::(Add|Sub|Neg|Mul<i32>)(<.*>)?>::(add|sub|neg|mul)$', 'arithmetic on Duration is exact, panics outside of i64 seconds')
def durops(eng, st, c):
    k = c.name.rsplit('::', 1)[1]
    if eng.T.key(c.info['in'][0]) != 'dur' or eng.T.key(c.out) != 'dur':
        return None
    a = zl(eng, st, c.args[0])
    b = zl(eng, st, c.args[1]) if k != 'neg' else None
    v = z3.simplify({'add': lambda: a + b, 'sub': lambda: a - b, 'neg': lambda: -a, 'mul': lambda: a * b}[k]())
    lim = 2**63 * NS
    r = []
    for s, ok in forks(eng, st, z3.And(v >= -lim, v < lim)):
        r.append((s, Tm(c.out, v)) if ok else (s, Panic('Duration arithmetic overflow')))
    return r


@dep(r'^' + DUR + r'::checked_(add|sub)$', 'Duration::checked_add/sub is exact, None outside of i64 milliseconds')
def durchecked(eng, st, c):
    a, b = zl(eng, st, c.args[0]), zl(eng, st, c.args[1])
    v = a + b if c.name.endswith('add') else a - b
    return opt_fork(eng, st, c.out, z3.And(v >= -2**63 * 10**6, v <= MAXDUR), lambda s: Tm(fld(eng, c.out, 'Some'), v))


@dep(r'^chrono::.*DateTime::<.*Utc>::timestamp_subsec_(nanos|millis|micros)$', 'DateTime::timestamp_subsec_nanos is the part below the second')
def tsubsec(eng, st, c):
    d = {'nanos': 1, 'micros': 1000, 'millis': 10**6}[c.name.rsplit('_', 1)[1]]
    return [(st, Tm(c.out, (zl(eng, st, c.args[0]) % NS) / d))]


@dep(r'^chrono::.*DateTime::<.*Utc>::with_timezone::<chrono::(offset::)?Utc>$', 'with_timezone(&Utc) on UTC is the identity')
def twithtz(eng, st, c):
    return [(st, Tm(eng.T.peel(c.out), zl(eng, st, c.args[0])))]


@dep(r'^chrono::.*DateTime::<.*Utc>::timestamp(_millis)?$', 'DateTime::timestamp is the floor of seconds since the epoch')
def tstamp(eng, st, c):
    return [(st, Tm(c.out, zl(eng, st, c.args[0]) / (NS if c.name.endswith('timestamp') else NS // 1000)))]


# ------------------------------------------------------------------ integers
@dep(r'^core::num::<impl u(8|16|32|64|128|size)>::checked_ilog10$', 'checked_ilog10(n) is the number of decimal digits of n minus one, None for 0')
def ilog10(eng, st, c):
    n = zl(eng, st, c.args[0])
    hi = eng.T.int_range(self_ty(c))[1]
    top = len(str(hi)) - 1

    def val(s):
        e = z3.IntVal(top)
        for k in range(top - 1, -1, -1):
            e = z3.If(n < 10 ** (k + 1), z3.IntVal(k), e)
        return Tm(fld(eng, c.out, 'Some'), e)
    return opt_fork(eng, st, c.out, n > 0, val)


@dep(r'^core::num::<impl u(8|16|32|64|128|size)>::ilog10$', 'ilog10(n) is the number of decimal digits of n minus one, panics for 0')
def ilog10p(eng, st, c):
    n = zl(eng, st, c.args[0])
    top = len(str(eng.T.int_range(self_ty(c))[1])) - 1
    r = []
    for s, ok in forks(eng, st, n > 0):
        if not ok:
            r.append((s, Panic('ilog10 of zero')))
            continue
        e = z3.IntVal(top)
        for k in range(top - 1, -1, -1):
            e = z3.If(n < 10 ** (k + 1), z3.IntVal(k), e)
        r.append((s, Tm(c.out, e)))
    return r


@dep(r'^core::num::<impl [iu](8|16|32|64|128|size)>::pow$', 'integer power of literals')
def ipow(eng, st, c):
    a, b = z3.simplify(zl(eng, st, c.args[0])), z3.simplify(zl(eng, st, c.args[1]))
    if not (z3.is_int_value(a) and z3.is_int_value(b)):
        return None
    v = a.as_long() ** b.as_long()
    lo, hi = eng.T.int_range(self_ty(c))
    if lo <= v <= hi:
        return [(st, Tm(c.out, z3.IntVal(v)))]
    return [(st, Panic('pow overflow'))]


@dep(r'^core::num::<impl [iu](8|16|32|64|128|size)>::(checked|saturating|wrapping)_(add|sub|mul)$', 'checked/saturating/wrapping integer arithmetic is exact arithmetic with the documented overflow behaviour')
def checked(eng, st, c):
    a, b = zl(eng, st, c.args[0]), zl(eng, st, c.args[1])
    k, o = c.name.rsplit('::', 1)[1].split('_')
    v = {'add': a + b, 'sub': a - b, 'mul': a * b}[o]
    lo, hi = eng.T.int_range(self_ty(c))
    if k == 'checked':
        return opt_fork(eng, st, c.out, z3.And(v >= lo, v <= hi), lambda s: Tm(fld(eng, c.out, 'Some'), v))
    if k == 'wrapping':
        return [(st, Tm(c.out, eng.wrap(c.out, v)))]
    return [(st, Tm(c.out, z3.If(v < lo, z3.IntVal(lo), z3.If(v > hi, z3.IntVal(hi), v))))]


@dep(r'^std::convert::num::.*TryFrom<[iu]\d+> for [iu]\d+>::try_from$|^<[iu](\d+|size) as std::convert::TryFrom<[iu](\d+|size)>>::try_from$', 'integer TryFrom keeps the value or reports that it does not fit')
def inttry(eng, st, c):
    a = zl(eng, st, c.args[0])
    ok = fld(eng, c.out, 'Ok')
    lo, hi = eng.T.int_range(ok)
    return res_fork(eng, st, c.out, z3.And(a >= lo, a <= hi), lambda s: Tm(ok, a), lambda s: eng.sym(s, fld(eng, c.out, 'Err'), 'interr!%d' % next(eng.cnt)))


# ------------------------------------------------------------------ strings
def SPL(eng):
    return (z3.Function('split.n', S, S, I), z3.Function('split.seg', S, S, I, S), z3.Function('split.rest', S, S, I, S))


def split_facts(eng, st, s, sep, k=None):
    n, seg, rest = SPL(eng)
    st.assume(n(s, sep) >= 1)


def sep_of(eng, st, v):
    v = load(eng, st, v)
    if isinstance(v, Tm):
        e = z3.simplify(v.e)
        if z3.is_int_value(e):
            return strval(chr(e.as_long()))
        if e.sort() == S:
            return e
    if isinstance(v, Lst) and len(v.items) == 1:
        return sep_of(eng, st, v.items[0])
    raise Unsupported('split pattern')


def vague(eng, st, why):
    """what follows rests on facts about texts that are known only in part: a failed proof decides nothing"""
    st.taint = st.taint | {why}
    if st.inloop:
        eng.looptaint.add(why)


def str_ty(eng, t):
    return eng.T.peel(item_ty(eng, t))


def split_iter(eng, st, ty, s, sep):
    n, seg, rest = SPL(eng)
    ety = str_ty(eng, ty)

    def whole(st):
        eng.seq_axioms(ety)
        v = z3.Function('split.vec', S, S, eng.T.seq_sort(ety))(s, sep)
        ln, at = eng.T.len_f(ety), eng.T.at_f(ety)
        j = z3.Int('j')
        st.assume(ln(v) == n(s, sep))
        st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n(s, sep)), at(v, j) == seg(s, sep, j)), patterns=[at(v, j)]))
        for k in range(4):
            st.assume(z3.Implies(n(s, sep) > k, at(v, z3.IntVal(k)) == seg(s, sep, z3.IntVal(k))))
        return v
    st.assume(n(s, sep) <= 2**63 - 1)
    return SIter(ety, Sp('fn', ety, lambda st, j: Tm(ety, seg(s, sep, j)), whole, n(s, sep)), z3.IntVal(0), n(s, sep))


@dep(r'^core::str::<impl str>::(split|splitn|rsplit|rsplitn)::<.*>$', "str::split(c): the segments between the occurrences of c, in order")
def split(eng, st, c):
    k = re.search(r'>::(\w+)::<', c.name).group(1)
    s = zl(eng, st, c.args[0])
    if k in ('split', 'rsplit'):
        sep = sep_of(eng, st, c.args[1])
        split_facts(eng, st, s, sep)
        it = split_iter(eng, st, c.out, s, sep)
        if k == 'rsplit':
            if strlit(sep) is None or len(strlit(sep)) != 1:
                raise Unsupported('rsplit')
            it = SIter(it.ety, Sp('rev', it.seq, it.end), z3.IntVal(0), it.end)
        return [(st, it)]
    n = z3.simplify(zl(eng, st, c.args[1]))
    sep = sep_of(eng, st, c.args[2])
    if not z3.is_int_value(n):
        raise Unsupported('splitn with a computed limit')
    if k == 'rsplitn':
        raise Unsupported('rsplitn')
    split_facts(eng, st, s, sep)
    return [(st, Sp('split', s, sep, 0, n.as_long()))]


@dep(r'^<std::str::Split(N)?<.*> as std::iter::Iterator>::next$', "str::split(c): the segments between the occurrences of c, in order")
def split_next(eng, st, c):
    p = c.args[0]
    it = load(eng, st, p)
    if not isinstance(it, Sp) or it.kind != 'split':
        return None
    s, sep, k, lim = it.d
    n, seg, rest = SPL(eng)
    sty = fld(eng, c.out, 'Some')
    if lim is not None and k >= lim:
        return [(st, none(eng, c.out))]
    r = []
    for s1, b in ([(st, True)] if k == 0 else forks(eng, st, n(s, sep) > k)):
        if not b:
            r.append((s1, none(eng, c.out)))
            continue
        x = seg(s, sep, z3.IntVal(k))
        k2 = k + 1
        eng.write(s1, p.cell, p.path, Sp('split', s, sep, k2, lim))
        if lim is not None and k == lim - 1:
            # the last piece takes the rest
            s1.assume(z3.Implies(n(s, sep) == lim, rest(s, sep, z3.IntVal(k)) == x))
            x = rest(s, sep, z3.IntVal(k))
        r.append((s1, some(eng, c.out, Tm(eng.T.peel(sty), x))))
    return r


@dep(r'^<std::str::Split(N)?<.*> as std::iter::Iterator>::collect::<std::vec::Vec<.*>>$', "str::split(c): the segments between the occurrences of c, in order")
def split_collect(eng, st, c):
    it = load(eng, st, c.args[0])
    if not isinstance(it, Sp) or it.kind != 'split':
        return None
    s, sep, k, lim = it.d
    n, seg, rest = SPL(eng)
    ety = eng.T.peel(eng.T.elem(c.out))
    if lim is None:
        if k != 0:
            raise Unsupported('collect of a started split')
        f = z3.Function('split.vec', S, S, eng.T.seq_sort(ety))
        v = f(s, sep)
        ln, at = eng.T.len_f(ety), eng.T.at_f(ety)
        j = z3.Int('j')
        st.assume(ln(v) == n(s, sep))
        st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n(s, sep)), at(v, j) == seg(s, sep, j)), patterns=[at(v, j)]))
        for k in range(4):
            st.assume(z3.Implies(n(s, sep) > k, at(v, z3.IntVal(k)) == seg(s, sep, z3.IntVal(k))))
        return [(st, eng.term(st, c.out, v))]
    r = []
    cur = st
    for m in range(k + 1, lim + 1):
        items = [Tm(ety, seg(s, sep, z3.IntVal(j))) for j in range(k, m)]
        if m == lim:
            items[-1] = Tm(ety, rest(s, sep, z3.IntVal(m - 1)))
            cur.assume(z3.Implies(n(s, sep) == m, rest(s, sep, z3.IntVal(m - 1)) == seg(s, sep, z3.IntVal(m - 1))))
            r.append((cur, Lst(ety, items)))
            break
        nxt = None
        for s2, b in forks(eng, cur, n(s, sep) == m):
            if b:
                r.append((s2, Lst(ety, items)))
            else:
                nxt = s2
        if nxt is None:
            break
        cur = nxt
    return r


@dep(r'^<std::str::Split(N)?<.*> as std::iter::Iterator>::count$', "str::split(c): the segments between the occurrences of c, in order")
def split_count(eng, st, c):
    it = load(eng, st, c.args[0])
    if not isinstance(it, Sp) or it.kind != 'split':
        return None
    s, sep, k, lim = it.d
    n, seg, rest = SPL(eng)
    e = n(s, sep) - k
    if lim is not None:
        e = z3.If(e > lim - k, z3.IntVal(lim - k), e)
    st.assume(n(s, sep) <= 2**62)
    return [(st, eng.term(st, c.out, z3.If(e < 0, z3.IntVal(0), e)))]


@dep(r'^<std::str::Split(N)?<.*> as std::iter::Iterator>::nth$', "str::split(c): the segments between the occurrences of c, in order")
def split_nth(eng, st, c):
    p = c.args[0]
    it = load(eng, st, p)
    if not isinstance(it, Sp) or it.kind != 'split':
        return None
    s, sep, k, lim = it.d
    m = z3.simplify(zl(eng, st, c.args[1]))
    if not z3.is_int_value(m) or lim is not None:
        raise Unsupported('split nth')
    n, seg, rest = SPL(eng)
    sty = fld(eng, c.out, 'Some')
    k2 = k + m.as_long()
    r = []
    for s1, b in forks(eng, st, n(s, sep) > k2):
        eng.write(s1, p.cell, p.path, Sp('split', s, sep, k2 + 1, lim))
        r.append((s1, some(eng, c.out, Tm(eng.T.peel(sty), seg(s, sep, z3.IntVal(k2)))) if b else none(eng, c.out)))
    return r


@dep(r'^<std::str::Split(N)?<.*> as std::iter::Iterator>::last$', "str::split(c): the segments between the occurrences of c, in order")
def split_last(eng, st, c):
    it = load(eng, st, c.args[0])
    if not isinstance(it, Sp) or it.kind != 'split':
        return None
    s, sep, k, lim = it.d
    if lim is not None or k != 0:
        raise Unsupported('split last')
    n, seg, rest = SPL(eng)
    r = []
    for m in (1, 2, 3):
        st.assume(z3.Implies(n(s, sep) == m, seg(s, sep, n(s, sep) - 1) == seg(s, sep, z3.IntVal(m - 1))))
    return [(st, some(eng, c.out, Tm(eng.T.peel(fld(eng, c.out, 'Some')), seg(s, sep, n(s, sep) - 1))))]


@dep(r'^core::str::<impl str>::split_once::<.*>$', "str::split_once(c): before and after the first occurrence of c")
def split_once(eng, st, c):
    s, sep = zl(eng, st, c.args[0]), sep_of(eng, st, c.args[1])
    n, seg, rest = SPL(eng)
    split_facts(eng, st, s, sep)
    tup = fld(eng, c.out, 'Some')
    es = eng.T.info(tup)['es']
    one = z3.IntVal(1)

    def mk(s1):
        r = rest(s, sep, one)
        s1.assume(z3.Implies(n(s, sep) == 2, r == seg(s, sep, one)))
        for m in (2, 3, 4):
            s1.assume(z3.Implies(n(s, sep) == m, n(r, sep) == m - 1))
            s1.assume(z3.Implies(n(r, sep) == m - 1, n(s, sep) == m))
        for m in (0, 1, 2):
            s1.assume(z3.Implies(n(s, sep) > m + 1, seg(r, sep, z3.IntVal(m)) == seg(s, sep, z3.IntVal(m + 1))))
            s1.assume(z3.Implies(n(s, sep) > m + 1, rest(r, sep, z3.IntVal(m)) == rest(s, sep, z3.IntVal(m + 1))))
        return Agg(tup, 0, [Tm(eng.T.peel(es[0]), seg(s, sep, z3.IntVal(0))), Tm(eng.T.peel(es[1]), r)])
    return opt_fork(eng, st, c.out, n(s, sep) >= 2, mk)


@dep(r'^(core|std|alloc)::str::<impl str>::(to_uppercase|to_lowercase|to_ascii_uppercase|to_ascii_lowercase)$', 'to_uppercase/to_lowercase(s) equals a literal exactly if s equals it up to letter case (checked against the Unicode tables)')
def tocase(eng, st, c):
    s = zl(eng, st, c.args[0])
    f = z3.Function('str.' + ('a' if 'ascii' in c.name else '') + ('upper' if 'upper' in c.name else 'lower'), S, S)
    l = strlit(s)
    if l is not None and l.isascii():
        return [(st, Tm(c.out, strval(l.upper() if 'upper' in c.name else l.lower())))]
    return [(st, Tm(c.out, f(s)))]


@dep(r'^core::str::<impl str>::eq_ignore_ascii_case$', 'eq_ignore_ascii_case with a literal')
def eqic(eng, st, c):
    a, b = zl(eng, st, c.args[0]), zl(eng, st, c.args[1])
    for x, y in ((a, b), (b, a)):
        l = strlit(y)
        if l is not None and all(ord(ch) < 128 for ch in l):
            app = eng.case_app(x)
            if app is not None:
                x = app.arg(0)
            return [(st, Tm(c.out, eng.ci(x, l.lower())))]
    f = z3.Function('str.alower', S, S)
    return [(st, Tm(c.out, f(a) == f(b)))]


@dep(r'^core::str::<impl str>::(len|is_empty)$|^std::string::String::(len|is_empty)$', 'length of a string')
def strlen(eng, st, c):
    s = zl(eng, st, c.args[0])
    if c.name.endswith('is_empty'):
        return [(st, Tm(c.out, eng.mk_eq(s, strval(''))))]
    return [(st, eng.term(st, c.out, eng.blen(st, s)))]


@dep(r'^core::str::<impl str>::(starts_with|ends_with|contains)::<(&str|char|&std::string::String)>$', 'starts_with/ends_with/contains')
def strhas(eng, st, c):
    s, p = zl(eng, st, c.args[0]), sep_or_str(eng, st, c.args[1])
    k = re.search(r'>::(\w+)::<', c.name).group(1)
    e = has(k, s, p)
    l = strlit(p)
    if k == 'contains' and l:
        n, seg, rest = SPL(eng)
        st.assume(e == (n(s, p) >= 2))
        st.assume(n(s, p) >= 1)
    return [(st, Tm(c.out, e))]


def sep_or_str(eng, st, v):
    x = load(eng, st, v)
    if isinstance(x, Tm) and x.e.sort() == S:
        return x.e
    return sep_of(eng, st, v)


@dep(r'^core::str::<impl str>::(strip_prefix|strip_suffix)::<(&str|char)>$', 'strip_prefix/strip_suffix')
def strstrip(eng, st, c):
    s, p = zl(eng, st, c.args[0]), sep_or_str(eng, st, c.args[1])
    pre = 'prefix' in c.name
    cond = has('starts_with' if pre else 'ends_with', s, p)
    ty = eng.T.peel(fld(eng, c.out, 'Some'))
    e = strip(pre, s, p)
    
    def mk(s1):
        s1.assume(s == (concat(p, e) if pre else concat(e, p)))
        return Tm(ty, e)
    return opt_fork(eng, st, c.out, cond, mk)


@dep(r'^core::str::<impl str>::as_bytes$|^std::string::String::(as_bytes|into_bytes)$|^<(str|std::string::String) as std::convert::AsRef<\[u8\]>>::as_ref$|^<std::vec::Vec<u8> as std::convert::From<(&str|std::string::String)>>::from$',
     'the UTF-8 bytes of a string determine it')
def asbytes(eng, st, c):
    s = zl(eng, st, c.args[0])
    return [(st, mkbytes(eng, st, c.out, s))]


def bytes_fns(eng, seq_ty):
    ss = eng.T.sort(seq_ty)
    return z3.Function('utf8', S, ss), z3.Function('utf8.inv', ss, S)


def mkbytes(eng, st, ty, s):
    f, g = bytes_fns(eng, ty)
    st.assume(g(f(s)) == s)
    v = eng.term(st, ty, f(s))
    st.assume(eng.T.len_f(eng.T.elem(ty))(f(s)) == eng.blen(st, s))
    st.assume(z3.Function('utf8.ok', f.range(), B)(f(s)))
    return v


@dep(r'^(core|std)::str::(converts::)?from_utf8$|^std::string::String::from_utf8$', 'from_utf8 inverts as_bytes')
def fromutf8(eng, st, c):
    b = zl(eng, st, c.args[0])
    f, g = bytes_fns(eng, eng.T.peel(self_ty(c)))
    ok = z3.Function('utf8.ok', b.sort(), B)(b)
    ty = eng.T.peel(fld(eng, c.out, 'Ok'))
    r = []
    for s, v in res_fork(eng, st, c.out, ok, lambda s: Tm(ty, g(b)), lambda s: eng.sym(s, fld(eng, c.out, 'Err'), 'utf8err!%d' % next(eng.cnt))):
        if v.v == eng.T.variant_index(c.out, 'Ok'):
            s.assume(f(g(b)) == b)
        r.append((s, v))
    return r


@dep(r'^std::string::String::(new|with_capacity)$|^<(&?str|std::string::String) as std::default::Default>::default$|^core::str::<impl std::default::Default for &str>::default$', 'String::new is the empty string')
def strnew(eng, st, c):
    return [(st, Tm(eng.T.peel(c.out), strval('')))]


@dep(r'^std::string::String::(push_str|push|extend_from_within|clear)$', 'String::push_str appends')
def pushstr(eng, st, c):
    p = c.args[0]
    s = zl(eng, st, p)
    if c.name.endswith('clear'):
        e = strval('')
    else:
        x = zl(eng, st, c.args[1])
        if x.sort() == I:
            x = char_str(eng, x)
        e = concat(s, x)
    eng.write(st, p.cell, p.path, Tm(eng.T.peel(self_ty(c)), e))
    return [(st, eng.unit(c.out))]


def char_str(eng, x):
    x = z3.simplify(x)
    if z3.is_int_value(x):
        return strval(chr(x.as_long()))
    return z3.Function('char.str', I, S)(x)


@dep(r'^<std::string::String as std::ops::(Add|AddAssign)<&str>>::(add|add_assign)$', 'String + &str appends')
def stradd(eng, st, c):
    a, b = zl(eng, st, c.args[0]), zl(eng, st, c.args[1])
    if c.name.endswith('assign'):
        p = c.args[0]
        eng.write(st, p.cell, p.path, Tm(eng.T.peel(self_ty(c)), concat(a, b)))
        return [(st, eng.unit(c.out))]
    return [(st, Tm(eng.T.peel(c.out), concat(a, b)))]


@dep(r'^std::slice::<impl \[.*\]>::(join|concat)::<.*>$', 'slice join/concat puts the separator between the pieces')
def join(eng, st, c):
    v = load(eng, st, c.args[0])
    ety = v.ety if isinstance(v, Lst) else eng.T.elem(v.ty)
    if eng.T.key(ety) != 'str':
        k = eng.T.key(c.out)
        if k[:4] == 'seq<' and isinstance(v, Lst) and len(c.args) == 1:
            et, xs = eng.T.elem(c.out), [load(eng, st, x) for x in v.items]
            if all(isinstance(x, Lst) for x in xs):
                return [(st, Lst(et, sum([x.items for x in xs], [])))]
            r = None
            for x in xs:
                n, e, at = eng.seq_len(st, x), eng.z(st, x), eng.T.at_f(et)
                r = (n, e) if r is None else (r[0] + n, newseq(eng, st, et, r[0] + n, lambda j, r=r, e=e: z3.If(j < r[0], at(r[1], j), at(e, j - r[0])), None).e)
            if r is not None:
                return [(st, SeqV(eng, et, r[1]))]
        raise Unsupported('join of %r' % (v,))
    sep = zl(eng, st, c.args[1]) if len(c.args) > 1 else strval('')
    if not isinstance(v, Lst):
        e = z3.Function('str.join', v.e.sort(), S, S)(v.e, sep)
        vague(eng, st, 'join of a computed list')
        ln, at = eng.T.len_f(ety)(v.e), eng.T.at_f(ety)
        st.assume(z3.Implies(ln == 0, e == strval('')))
        for k in (1, 2, 3):
            st.assume(z3.Implies(ln == k, e == concat(*sum([[sep, at(v.e, z3.IntVal(m))] for m in range(k)], [])[1:])))
        return [(st, Tm(c.out, e))]
    return [(st, Tm(c.out, str_pieces(eng, st, v.items, sep)))]


# ------------------------------------------------------------------ formatting
@dep(r'^core::fmt::rt::Argument::<.*>::new_(display|debug|lower_hex)::<.*>$', 'format arguments')
def fmtarg(eng, st, c):
    kind = re.search(r'::new_(\w+)::<', c.name).group(1)
    t = c.info['in'][0]
    return [(st, Sp('fmtarg', kind, t, c.args[0]))]


@dep(r'^std::fmt::Arguments::<.*>::new::<.*>$', 'format_args: literal pieces and Display strings of the arguments, concatenated')
def fmtargs(eng, st, c):
    t = load(eng, st, c.args[0])
    a = load(eng, st, c.args[1])
    bs = [z3.simplify(eng.z(st, x)).as_long() for x in t.items]
    return [(st, Sp('fmtargs', bs, a.items))]


@dep(r'^std::fmt::Arguments::<.*>::(from_str|new_const|from_str_nonconst)(::<.*>)?$', 'format_args without arguments is the literal')
def fmtstr(eng, st, c):
    v = load(eng, st, c.args[0])
    if isinstance(v, Tm):
        return [(st, Sp('fmtlit', v.e))]
    raise Unsupported('format pieces')


def fmt_pieces(bs, args):
    out, k, nxt = [], 0, 0
    while k < len(bs):
        b = bs[k]
        k += 1
        if b == 0:
            break
        if b < 128:
            out.append(bytes(bs[k:k + b]).decode())
            k += b
        elif b == 128:
            n = bs[k] | bs[k + 1] << 8
            k += 2
            out.append(bytes(bs[k:k + n]).decode())
            k += n
        else:
            plain = True
            if b & 1:
                fl = bs[k] | bs[k + 1] << 8 | bs[k + 2] << 16 | bs[k + 3] << 24
                k += 4
                plain = False
            if b & 2:
                k += 2
                plain = False
            if b & 4:
                k += 2
                plain = False
            if b & 8:
                nxt = bs[k] | bs[k + 1] << 8
                k += 2
            if not plain:
                raise Unsupported('format specification')
            out.append(args[nxt])
            nxt += 1
    return out


def CHARS(s):
    return z3.Function('str.charcount', S, I)(s)


def display(eng, st, ty, kind, v):
    """Display string of a value"""
    x = load(eng, st, v)
    t = eng.T.peel(ty)
    k = eng.T.key(t)
    if kind == 'display' and k == 'str':
        return eng.z(st, x)
    if isinstance(x, Sp) and x.kind in ('fmtargs', 'fmtlit'):
        return fmt_string(eng, st, x)
    e = eng.z(st, x)
    if kind == 'display' and k == 'int' and z3.is_int_value(z3.simplify(e)):
        i = eng.T.info(t)
        n = z3.simplify(e).as_long()
        return strval(chr(n) if i['k'] == 'char' else str(n))
    if kind == 'display' and k == 'int' and eng.T.info(t)['k'] == 'char':
        return char_str(eng, e)
    elif kind == 'display' and k == 'int':
        # one byte and one character per decimal digit, and the sign
        f = z3.Function('display<int>', I, S)(e)
        lo, hi = eng.T.int_range(t)
        d = z3.IntVal(len(str(hi)))
        a = z3.If(e < 0, -e, e) if lo < 0 else e
        for n in range(len(str(hi)) - 1, 0, -1):
            d = z3.If(a < 10 ** n, z3.IntVal(n), d)
        if lo < 0:
            d = z3.If(e < 0, d + 1, d)
        st.assume(eng.blen(st, f) == d)
        st.assume(CHARS(f) == d)
    if k == 'str':
        vague(eng, st, 'Debug form of a text')
        st.assume(eng.blen(st, z3.Function('debug<str>', S, S)(e)) >= eng.blen(st, e) + 2)
    return z3.Function('%s<%s>' % (kind, k), e.sort(), S)(e)


def fmt_string(eng, st, a):
    if a.kind == 'fmtlit':
        return a.d[0]
    out = []
    for p in fmt_pieces(a.d[0], a.d[1]):
        if isinstance(p, str):
            out.append(strval(p))
        else:
            kind, t, v = p.d
            out.append(display(eng, st, t, kind, v))
    return concat(*out)


@dep(r'^std::fmt::format$|^alloc::fmt::format$', 'format_args: literal pieces and Display strings of the arguments, concatenated')
def fformat(eng, st, c):
    return [(st, Tm(c.out, fmt_string(eng, st, load(eng, st, c.args[0]))))]


@dep(r'^std::fmt::FormattingOptions::new$', 'Formatter::new(buf) appends to buf')
def fmtoptsnew(eng, st, c):
    return [(st, Sp('fmtopts'))]


@dep(r'^std::fmt::Formatter::<.*>::new$', 'Formatter::new(buf) appends to buf')
def fmtnew(eng, st, c):
    return [(st, Sp('fmtr', c.args[0]))]


def fmt_append(eng, st, f, e):
    f = load(eng, st, f)
    if not isinstance(f, Sp) or f.kind != 'fmtr':
        raise Unsupported('formatter')
    p = f.d[0]
    while isinstance(p, CastP):
        p = p.val
    s = zl(eng, st, p)
    eng.write(st, p.cell, p.path, Tm(None if p.ty is None else eng.T.peel(p.ty), concat(s, e)))


@dep(r'^std::fmt::Formatter::<.*>::(write_str|write_fmt|pad|write_char)$|^<std::fmt::Formatter<.*> as std::fmt::Write>::(write_str|write_char)$', 'Formatter writes append')
def fmtwrite(eng, st, c):
    x = load(eng, st, c.args[1])
    e = fmt_string(eng, st, x) if isinstance(x, Sp) else eng.z(st, x)
    if e.sort() == I:
        e = char_str(eng, e)
    fmt_append(eng, st, c.args[0], e)
    return [(st, variant(eng, c.out, 'Ok', eng.unit(fld(eng, c.out, 'Ok'))))]


@dep(r'^<.* as std::fmt::(Display|Debug)>::fmt$|std::fmt::(Display|Debug) for .*>::fmt$', 'Display of std and dependency types is a function of the value and does not fail')
def fmtforeign(eng, st, c):
    t = c.info['in'][0]
    if crate_adt(eng, t) and 'Display>' in c.name:
        return None
    kind = 'display' if 'Display' in c.name else 'debug'
    fmt_append(eng, st, c.args[1], display(eng, st, t, kind, c.args[0]))
    return [(st, variant(eng, c.out, 'Ok', eng.unit(fld(eng, c.out, 'Ok'))))]


@dep(r'^<.* as std::string::(Spec)?ToString>::(spec_)?to_string$', 'to_string of dependency types is a function of the value')
def tostring(eng, st, c):
    t = c.info['in'][0]
    if crate_adt(eng, t):
        # text of the crate's own Display: a function of the value (that it never fails is verified separately)
        eng.display_used.add(eng.T.key(t))
    return [(st, Tm(c.out, display(eng, st, t, 'display', c.args[0])))]


@dep(r'^<.* as thiserror::display::AsDisplay<.*>>::as_display$|thiserror::display::DisplayAsDisplay>::as_display$|thiserror::aserror::AsDynError<.*>>::as_dyn_error$', 'thiserror as_display is the identity')
def asdisp(eng, st, c):
    return [(st, c.args[0])]


@dep(r'^std::fmt::Formatter::<.*>::debug_', 'derived Debug does not fail and has no other effect')
def fmtdebug(eng, st, c):
    e = eng.fresh(S, 'dbg')
    fmt_append(eng, st, c.args[0], e)
    if eng.T.key(c.out).startswith('std::result::Result'):
        return [(st, variant(eng, c.out, 'Ok', eng.unit(fld(eng, c.out, 'Ok'))))]
    return None


@dep(r'^std::hint::must_use::<|^std::hint::black_box::<|^std::mem::(forget|drop)::<|^core::mem::drop::<', 'must_use is the identity')
def mustuse(eng, st, c):
    if eng.T.key(c.out) == '()':
        return [(st, eng.unit(c.out))]
    return [(st, c.args[0])]


@dep(r'^std::hint::assert_unchecked|precondition_check$|^std::intrinsics::(cold_path|assume|assert_inhabited|ub_checks)', 'std-internal hints')
def hints(eng, st, c):
    return [(st, eng.unit(c.out))]


@dep(r'^<dyn std::error::Error as std::error::Error>::source$', 'Error::source of another error does not panic (those of the crate are verified, those of dependencies assumed)')
def dynsource(eng, st, c):
    return [(st, eng.sym(st, c.out, 'source!%d' % next(eng.cnt)))]


@dep(r'^std::mem::(take|replace|swap)::<', 'mem::take/replace/swap')
def mtake(eng, st, c):
    k = re.search(r'::(take|replace|swap)::<', c.name).group(1)
    p = c.args[0]
    if not isinstance(p, Ptr):
        raise Unsupported('mem::' + k)
    old = eng.read(st, p.cell, p.path)
    if k == 'replace':
        eng.write(st, p.cell, p.path, c.args[1])
        return [(st, old)]
    if k == 'swap':
        q = c.args[1]
        new = eng.read(st, q.cell, q.path)
        eng.write(st, p.cell, p.path, new)
        eng.write(st, q.cell, q.path, old)
        return [(st, eng.unit(c.out))]
    key = eng.T.key(c.out)
    if key.startswith('std::option::Option'):
        new = none(eng, c.out)
    elif key == 'str':
        new = Tm(eng.T.peel(c.out), strval(''))
    elif key[:4] == 'seq<':
        new = Lst(eng.T.elem(c.out), [])
    elif key == 'bool':
        new = Tm(eng.T.peel(c.out), FALSE)
    elif key == 'int':
        new = Tm(eng.T.peel(c.out), z3.IntVal(0))
    else:
        return None
    eng.write(st, p.cell, p.path, new)
    return [(st, old)]


@dep(r'^std::option::Option::<T>::(take|replace|insert)$', 'Option::take leaves None')
def otake(eng, st, c):
    p = c.args[0]
    if not isinstance(p, Ptr):
        raise Unsupported('Option::take')
    old = eng.read(st, p.cell, p.path)
    if c.name.endswith('take'):
        eng.write(st, p.cell, p.path, none(eng, c.out))
        return [(st, old)]
    return None


# ------------------------------------------------------------------ vectors, slices, sets
@dep(r'^std::vec::Vec::<.*>::(new|with_capacity)$|^<std::vec::Vec<.*> as std::default::Default>::default$', 'Vec::new is empty')
def vecnew(eng, st, c):
    return [(st, Lst(eng.T.elem(c.out), []))]


@dep(r'^std::vec::Vec::<.*>::push$', 'Vec::push appends')
def vecpush(eng, st, c):
    p = c.args[0]
    v = load(eng, st, p)
    if isinstance(v, Lst):
        n = Lst(v.ety, v.items + [c.args[1]])
    else:
        ety = eng.T.elem(v.ty) if not hasattr(v, 'ety') else v.ety
        eng.seq_axioms(ety)
        e = eng.T.push_f(ety)(v.e, eng.z(st, c.args[1]))
        n = type_like(eng, v, e)
        ln, at = eng.T.len_f(ety), eng.T.at_f(ety)
        st.assume(ln(e) == ln(v.e) + 1)
        st.assume(at(e, ln(v.e)) == eng.z(st, c.args[1]))
    eng.write(st, p.cell, p.path, n)
    return [(st, eng.unit(c.out))]


def type_like(eng, v, e):
    return Tm(v.ty, e)


@dep(r'^std::vec::Vec::<.*>::(len|is_empty)$|^core::slice::<impl \[.*\]>::(len|is_empty)$', 'length of a sequence')
def veclen(eng, st, c):
    n = eng.seq_len(st, load(eng, st, c.args[0]))
    if c.name.endswith('is_empty'):
        return [(st, Tm(c.out, z3.simplify(n == 0)))]
    return [(st, Tm(c.out, n))]


@dep(r'^core::slice::<impl \[.*\]>::(get|first|last)(::<usize>)?$', 'slice get/first/last')
def sliceget(eng, st, c):
    v = load(eng, st, c.args[0])
    n = eng.seq_len(st, v)
    k = re.search(r'>::(get|first|last)', c.name).group(1)
    ix = {'get': lambda: zl(eng, st, c.args[1]), 'first': lambda: z3.IntVal(0), 'last': lambda: n - 1}[k]()
    ix = z3.simplify(ix)
    return opt_fork(eng, st, c.out, z3.And(ix >= 0, ix < n), lambda s: eng.seq_at(s, v, z3.simplify(ix)))


@dep(r'^<std::vec::Vec<.*> as std::ops::Index<usize>>::index$|^<usize as std::slice::SliceIndex<\[.*\]>>::index$|^core::slice::index::<impl std::ops::Index<usize> for \[.*\]>::index$', 'indexing panics out of bounds')
def vecindex(eng, st, c):
    a, b = (1, 0) if c.name.startswith('<usize') else (0, 1)
    v = load(eng, st, c.args[a])
    ix = z3.simplify(zl(eng, st, c.args[b]))
    n = eng.seq_len(st, v)
    r = []
    for s, ok in forks(eng, st, z3.And(ix >= 0, ix < n)):
        r.append((s, eng.seq_at(s, v, ix)) if ok else (s, Panic('index out of bounds')))
    return r


def mk_siter(eng, st, seqv, ety):
    v = load(eng, st, seqv)
    if isinstance(v, SIter):
        return v
    return SIter(ety, v, z3.IntVal(0), eng.seq_len(st, v))


@dep(r"^core::slice::<impl \[.*\]>::iter$|^std::slice::Iter::<.*>::new$|^<&.*(Vec<.*>|\[.*\]) as std::iter::IntoIterator>::into_iter$|^<std::vec::Vec<.*> as std::iter::IntoIterator>::into_iter$|^<\[.*; \d+\] as std::iter::IntoIterator>::into_iter$"
     r"|^std::slice::<impl std::iter::IntoIterator for .*>::into_iter$|^core::slice::iter::<impl std::iter::IntoIterator for .*>::into_iter$|^(std|core)::array::(iter::)?<impl std::iter::IntoIterator for .*>::into_iter$", 'slice iterators yield the elements in order')
def sliceiter(eng, st, c):
    t = eng.T.peel(self_ty(c))
    if eng.T.key(t)[:4] != 'seq<':
        return None
    return [(st, mk_siter(eng, st, c.args[0], eng.T.elem(t)))]


ITS = r"std::(slice::Iter|vec::IntoIter|vec::Drain|array::IntoIter|iter::(Enumerate|Zip|Take|Skip|Cloned|Copied|Chain|Rev)|ops::Range(Inclusive|From)?|slice::Windows|str::(Chars|Bytes|CharIndices|Split|RSplit|Matches|SplitWhitespace|SplitAsciiWhitespace|Lines|SplitTerminator|SplitInclusive))<.*>"
ADAPT = re.compile(r'^<std::(iter|ops|str|slice::Windows|vec::Drain)\b|^(std|core)::iter::range::')


def it_concrete(it):
    return lit(it.pos) is not None and lit(it.end) is not None


def item_ty(eng, t):
    """type of the items of an iterator type"""
    r = eng.srv.apply('ref_nth', [t])
    if not isinstance(r, int):
        raise Unsupported('item type')
    return fld(eng, eng.srv.inst(r)['out'], 'Some')


def range_iter(eng, st, v):
    """a range of integers as an iterator"""
    if not isinstance(v, (Agg, Tm)):
        return None
    i = eng.T.info(v.ty) if v.ty is not None else {'k': ''}
    if i['k'] != 'adt' or i['name'] != 'std::ops::Range':
        return None
    t = [a for a in i['args'] if isinstance(a, int)][0]
    if eng.T.info(t)['k'] != 'int':
        return None
    a, b = (z3.simplify(eng.z(st, eng.step(st, v, ('f', k, 0)))) for k in (0, 1))
    n = z3.simplify(z3.If(b > a, b - a, z3.IntVal(0)))
    return SIter(t, Sp('rng', a, t), z3.IntVal(0), n)


@dep(r"^<std::ops::Range<[iu](8|16|32|64|size)> as std::iter::IntoIterator>::into_iter$|^(std|core)::iter::range::<impl std::iter::IntoIterator for std::ops::Range<[iu](8|16|32|64|size)>>::into_iter$", 'a range of integers yields them in order')
def rangeinto(eng, st, c):
    it = range_iter(eng, st, load(eng, st, c.args[0]))
    if it is None or it_concrete(it):
        return None
    return [(st, it)]


@dep(r"^<.* as std::iter::Iterator>::(enumerate|zip|take|skip|cloned|copied|chain|rev)(::<.*>)?$", 'enumerate/zip/take/skip/cloned/copied/chain/rev of an iterator over a sequence iterate over the corresponding sequence')
def adapt(eng, st, c):
    k = re.search(r'as std::iter::Iterator>::(\w+)', c.name).group(1)
    it = load(eng, st, c.args[0])
    if k in ('rev', 'enumerate', 'zip', 'take', 'skip') and not isinstance(it, SIter):
        r = range_iter(eng, st, it)
        it = it if r is None or it_concrete(r) else r
    if not isinstance(it, SIter) or isinstance(c.args[0], Ptr):
        return None
    Z = z3.IntVal(0)
    n = z3.simplify(it.end - it.pos)
    if k in ('cloned', 'copied'):
        if not clone_ok(eng, it.ety):
            return None
        return [(st, it)]
    if k in ('take', 'skip'):
        m = zl(eng, st, c.args[1])
        x = z3.simplify(z3.If(m < n, it.pos + m, it.end))
        return [(st, SIter(it.ety, it.seq, it.pos, x) if k == 'take' else SIter(it.ety, it.seq, x, it.end))]
    conc = isinstance(it.seq, Lst) and it_concrete(it)
    items = it.seq.items[lit(it.pos):lit(it.end)] if conc else None
    if k == 'rev':
        if conc:
            return [(st, SIter(it.ety, Lst(it.ety, items[::-1]), Z, n))]
        return [(st, SIter(it.ety, Sp('rev', it.seq, it.end), Z, n))]
    if k == 'enumerate':
        t = item_ty(eng, c.out)
        u = eng.T.info(t)['es'][0]
        if conc:
            return [(st, SIter(t, Lst(t, [Agg(t, 0, [Tm(u, z3.IntVal(j)), x]) for j, x in enumerate(items)]), Z, n))]
        return [(st, SIter(t, Sp('zip', Sp('rng', Z, u), Z, it.seq, it.pos, t), Z, n))]
    w = load(eng, st, c.args[1])
    if not isinstance(w, SIter):
        t2 = eng.T.peel(c.info['in'][1])
        if eng.T.key(t2)[:4] == 'seq<' and isinstance(w, (Lst, Tm)):
            w = mk_siter(eng, st, w, eng.T.elem(t2))
        else:
            w = range_iter(eng, st, w)
        if w is None:
            return None
    m = z3.simplify(w.end - w.pos)
    if k == 'zip':
        t = item_ty(eng, c.out)
        if conc and isinstance(w.seq, Lst) and it_concrete(w):
            l = [Agg(t, 0, [x, y]) for x, y in zip(items, w.seq.items[lit(w.pos):lit(w.end)])]
            return [(st, SIter(t, Lst(t, l), Z, z3.IntVal(len(l))))]
        return [(st, SIter(t, Sp('zip', it.seq, it.pos, w.seq, w.pos, t), Z, z3.simplify(z3.If(n < m, n, m))))]
    if conc and isinstance(w.seq, Lst) and it_concrete(w):
        l = items + w.seq.items[lit(w.pos):lit(w.end)]
        return [(st, SIter(it.ety, Lst(it.ety, l), Z, z3.IntVal(len(l))))]
    if not all(isinstance(x.seq, (Tm, Lst)) or isinstance(x.seq, Sp) and x.seq.kind == 'fn' for x in (it, w)):
        return None
    ety = it.ety
    at = eng.T.at_f(ety)
    a, b, p, q = eng.z(st, it.seq), eng.z(st, w.seq), it.pos, w.pos
    e = newseq(eng, st, ety, n + m, lambda j: z3.If(j < n, at(a, p + j), at(b, q + j - n)), None)
    return [(st, SIter(ety, SeqV(eng, ety, e.e), Z, z3.simplify(n + m)))]


def SeqV(eng, ety, e):
    from engine import SeqTm
    return SeqTm(eng, ety, e)


@dep(r"^<" + ITS + r" as std::iter::(Iterator|DoubleEndedIterator|ExactSizeIterator)>::(next|next_back|len|size_hint|count)$|^(std|core)::iter::range::<impl std::iter::(Iterator|DoubleEndedIterator|ExactSizeIterator) for std::ops::Range<[iu](8|16|32|64|size)>>::(next|next_back|len|size_hint|count)$", 'slice iterators yield the elements in order')
def siternext(eng, st, c):
    p = c.args[0]
    it = load(eng, st, p)
    if not isinstance(it, SIter):
        if ADAPT.match(c.name):
            return None
        raise Unsupported('iterator state')
    k = c.name.rsplit('::', 1)[1]
    if k in ('len', 'count'):
        return [(st, Tm(c.out, z3.simplify(it.end - it.pos)))]
    if k == 'size_hint':
        es = eng.T.info(c.out)['es']
        n = Tm(es[0], z3.simplify(it.end - it.pos))
        return [(st, Agg(c.out, 0, [n, some(eng, es[1], n)]))]
    r = []
    for s, b in forks(eng, st, z3.simplify(it.pos < it.end)):
        if not b:
            r.append((s, none(eng, c.out)))
            continue
        if k == 'next':
            x = eng.seq_at(s, it.seq, z3.simplify(it.pos))
            n = SIter(it.ety, it.seq, z3.simplify(it.pos + 1), it.end)
        else:
            x = eng.seq_at(s, it.seq, z3.simplify(it.end - 1))
            n = SIter(it.ety, it.seq, it.pos, z3.simplify(it.end - 1))
        eng.write(s, p.cell, p.path, n)
        r.append((s, some(eng, c.out, x)))
    return r


def rest_seq(eng, st, it):
    """the remaining elements of an iterator as a sequence"""
    q = it.seq
    n = z3.simplify(it.end - it.pos)
    if isinstance(q, Lst) and it_concrete(it):
        return Lst(it.ety, q.items[lit(it.pos):lit(it.end)])
    rev = isinstance(q, Sp) and q.kind == 'rev'
    b = q.d[0] if rev else q
    if not isinstance(b, (Lst, Tm)) and not (isinstance(b, Sp) and b.kind == 'fn'):
        return None
    e = eng.z(st, b)
    at = eng.T.at_f(it.ety)
    if not rev and lit(it.pos) == 0 and any(it.end.eq(x) for x in ([eng.T.len_f(it.ety)(e)] + ([b.d[3]] if isinstance(b, Sp) else []))):
        return SeqV(eng, it.ety, e)
    if rev:
        return newseq_v(eng, st, it.ety, n, lambda j: at(e, q.d[1] - 1 - (it.pos + j)))
    return newseq_v(eng, st, it.ety, n, lambda j: at(e, it.pos + j))


def newseq_v(eng, st, ety, n, f):
    return SeqV(eng, ety, newseq(eng, st, ety, n, f, None).e)


@dep(r'^<std::vec::Vec<.*> as std::iter::FromIterator<.*>>::from_iter::<', 'Vec::from_iter pushes the items of the iterator in order (executable reference body ref_vec_from_iter)')
def fromiter(eng, st, c):
    ts = c.info['args']
    item = eng.T.elem(c.out)
    it = c.info['in'][0]
    v = load(eng, st, c.args[0])
    if isinstance(v, SIter) and eng.T.key(v.ety) == eng.T.key(item):
        x = rest_seq(eng, st, v)
        if x is not None:
            return [(st, x)]
    r = eng.srv.apply('ref_vec_from_iter', [item, it])
    if not isinstance(r, int):
        raise Unsupported('ref_vec_from_iter')
    return [(st, Enter(r, c.args))]


@dep(r'^<(std::result::Result|std::option::Option)<std::vec::Vec<.*>.*> as std::iter::FromIterator<.*>>::from_iter::<', 'Result/Option from_iter stops at the first failure (executable reference body)')
def fromiter_res(eng, st, c):
    it = c.info['in'][0]
    if eng.T.key(c.out).startswith('std::result'):
        item = eng.T.elem(fld(eng, c.out, 'Ok'))
        r = eng.srv.apply('ref_result_from_iter', [item, fld(eng, c.out, 'Err'), it])
    else:
        item = eng.T.elem(fld(eng, c.out, 'Some'))
        r = eng.srv.apply('ref_option_from_iter', [item, it])
    if not isinstance(r, int):
        raise Unsupported('ref_result_from_iter')
    return [(st, Enter(r, c.args))]


@dep(r'^<std::vec::Vec<.*> as std::iter::Extend<.*>>::extend::<', 'Vec::extend pushes the items in order (executable reference body)')
def vecextend(eng, st, c):
    item = eng.T.elem(c.info['in'][0])
    r = eng.srv.apply('ref_vec_extend', [item, c.info['in'][1]])
    if not isinstance(r, int):
        raise Unsupported('ref_vec_extend')
    return [(st, Enter(r, c.args))]


@dep(r'^<std::collections::(HashSet|BTreeSet)<.*> as std::iter::FromIterator<.*>>::from_iter::<', 'HashSet::from_iter inserts the items (executable reference body)')
def setfrom(eng, st, c):
    i = eng.T.info(eng.T.peel(c.out))
    item = [a for a in i['args'] if isinstance(a, int)][0]
    r = eng.srv.apply('ref_set_from_iter', [item, c.info['in'][0]])
    if not isinstance(r, int):
        raise Unsupported('ref_set_from_iter')
    return [(st, Enter(r, c.args))]


@dep(r"^<" + ITS + r" as std::iter::Iterator>::((fold|try_fold|for_each|all|any|find|position|find_map|rposition)::<|nth$|last$)|^(std|core)::iter::range::<impl std::iter::Iterator for std::ops::Range<[iu](8|16|32|64|size)>>::((fold|try_fold|for_each|all|any|find|position|find_map)::<|nth$|last$)", 'find/any/all/position/fold/... of slice iterators visit the elements in order (executable reference bodies ref_*)')
def sfold(eng, st, c):
    k = re.search(r'(as std::iter::Iterator|for std::ops::Range<\w+>)>::(\w+)', c.name).group(2)
    ins = c.info['in']
    if k in ('nth', 'last'):
        p = c.args[0]
        v = load(eng, st, p)
        if isinstance(v, SIter):
            x = z3.simplify(v.pos + zl(eng, st, c.args[1])) if k == 'nth' else z3.simplify(v.end - 1)
            r = []
            for s, b in forks(eng, st, z3.simplify(z3.And(x >= v.pos, x < v.end))):
                if k == 'nth':
                    eng.write(s, p.cell, p.path, SIter(v.ety, v.seq, z3.simplify(x + 1) if b else v.end, v.end))
                r.append((s, some(eng, c.out, eng.seq_at(s, v.seq, x)) if b else none(eng, c.out)))
            return r
    if ADAPT.match(c.name):
        v = load(eng, st, c.args[0])
        if not isinstance(v, SIter):
            v = range_iter(eng, st, v)
            if v is None or it_concrete(v):
                return None
            p = c.args[0]
            if not isinstance(p, Ptr):
                return None if k not in ('fold', 'for_each', 'last') else [(st, Enter(ref_inst(eng, c, k), [v] + list(c.args[1:])))]
            eng.write(st, p.cell, p.path, v)
    return [(st, Enter(ref_inst(eng, c, k), c.args))]


def ref_inst(eng, c, k):
    ins = c.info['in']
    targs = [a for a in c.info['args'] if isinstance(a, int)]
    if k == 'fold':
        ts = [ins[1], ins[2], ins[0]]
    elif k == 'for_each':
        ts = [ins[0], ins[1]]
    elif k == 'try_fold':
        ts = [eng.T.info(ins[0])['e'], ins[1], ins[2], c.out]
    elif k == 'find_map':
        ts = [eng.T.info(ins[0])['e'], fld(eng, c.out, 'Some'), ins[1]]
    elif k == 'nth':
        ts = [eng.T.info(ins[0])['e']]
    elif k == 'last':
        ts = [ins[0]]
    else:
        ts = [eng.T.info(ins[0])['e'], ins[1]]
    r = eng.srv.apply('ref_' + k, ts)
    if not isinstance(r, int):
        raise Unsupported('reference body of ' + k)
    return r


@dep(r'^std::collections::(HashSet|BTreeSet)::<.*>::(new|with_capacity)$|^<std::collections::(HashSet|BTreeSet)<.*> as std::default::Default>::default$', 'HashSet::new is empty')
def setnew(eng, st, c):
    s = eng.T.sort(c.out)
    return [(st, Tm(eng.T.peel(c.out), z3.K(s.domain(), FALSE)))]


@dep(r'^std::collections::(HashSet|BTreeSet)::<.*>::(insert|contains|remove)(::<.*>)?$', 'HashSet insert/contains decide membership by equality')
def setops(eng, st, c):
    p = c.args[0]
    v = load(eng, st, p)
    x = zl(eng, st, c.args[1])
    k = re.search(r'>::(insert|contains|remove)(::<|$)', c.name).group(1)
    if not z3.is_array(v.e):
        raise Unsupported('set')
    isin = z3.Select(v.e, x)
    if z3.is_K(v.e):
        isin = v.e.arg(0)
    if k == 'contains':
        return [(st, Tm(c.out, isin))]
    if not isinstance(p, Ptr):
        raise Unsupported('set update')
    if k == 'insert':
        r = []
        for s, b in forks(eng, st, isin):
            if not b:
                eng.write(s, p.cell, p.path, Tm(v.ty, z3.Store(v.e, x, TRUE)))
            else:
                eng.write(s, p.cell, p.path, Tm(v.ty, z3.Store(v.e, x, TRUE)))
            r.append((s, Tm(c.out, z3.BoolVal(not b))))
        return r
    eng.write(st, p.cell, p.path, Tm(v.ty, z3.Store(v.e, x, FALSE)))
    return [(st, Tm(c.out, isin))]


@dep(r'^std::collections::(HashSet|BTreeSet)::<.*>::(len|is_empty)$', 'HashSet::len is the number of elements')
def setlen(eng, st, c):
    from engine import set_card
    v = load(eng, st, c.args[0])
    if not z3.is_array(v.e):
        raise Unsupported('set')
    n = z3.simplify(set_card(v.e))
    st.assume(z3.And(n >= 0, n <= 2**62))
    x = z3.Const('x', v.e.sort().domain())
    if not z3.is_K(v.e):
        st.assume((n == 0) == z3.ForAll([x], z3.Not(z3.Select(v.e, x))))
    return [(st, Tm(c.out, n == 0 if c.name.endswith('is_empty') else n))]


@dep(r'^std::boxed::Box::<\[.*\]>::new_uninit$|^std::boxed::box_new_uninit$|^std::boxed::Box::<.*>::new_uninit$', 'vec! allocation')
def boxuninit(eng, st, c):
    cell = ('h', next(eng.fid))
    st.cells[cell] = Undef()
    return [(st, Ptr(cell, (), eng.T.inner(c.out)))]


@dep(r'^std::boxed::Box::<.*>::new$', 'Box::new keeps the value')
def boxnew(eng, st, c):
    return [(st, c.args[0])]


@dep(r'^std::boxed::box_assume_init_into_vec_unsafe::<', 'vec! keeps the elements')
def boxinit(eng, st, c):
    v = load(eng, st, c.args[0])
    if not isinstance(v, Lst):
        raise Unsupported('vec! contents')
    return [(st, v)]


@dep(r'^std::ptr::(const_ptr|mut_ptr)::<impl \*(const|mut) .*>::cast::<', 'pointer cast')
def ptrcast(eng, st, c):
    fe, te = eng.T.inner(c.info['in'][0]), eng.T.inner(c.out)
    v = c.args[0]
    if eng.T.key(fe) == eng.T.key(te):
        return [(st, v)]
    return [(st, CastP(v, fe, te))]


# ------------------------------------------------------------------ JSON, base64, URLs
def jname(eng, t):
    return 'json<%s>' % eng.T.key(t)


def json_of(eng, t, e):
    """the JSON text serde_json writes for value e"""
    return z3.Function(jname(eng, t), eng.T.sort(t), S)(e)


@dep(r'^serde_json::to_string::<|^serde_json::ser::to_string::<|^serde_json::to_vec::<', 'serde_json::to_string is a function of the value and does not fail for the crate\'s types and ssi Algorithm')
def tojson(eng, st, c):
    t = c.info['in'][0]
    x = load(eng, st, c.args[0])
    k = eng.T.key(t)
    if not (k.startswith('openid4vci::') or k in ('ssi_jwk::Algorithm', 'str')):
        raise Unsupported('serialisation of ' + k)
    e = json_of(eng, t, eng.z(st, x))
    ok = fld(eng, c.out, 'Ok')
    v = Tm(eng.T.peel(ok), e) if eng.T.key(ok) == 'str' else mkbytes(eng, st, eng.T.peel(ok), e)
    return [(st, variant(eng, c.out, 'Ok', v))]


@dep(r'^serde_json::to_value::<|^serde_json::value::to_value::<', 'serde_json::to_value is a function of the value')
def tovalue(eng, st, c):
    t = c.info['in'][0]
    x = eng.z(st, load(eng, st, c.args[0]))
    okt, ert = eng.T.peel(fld(eng, c.out, 'Ok')), fld(eng, c.out, 'Err')
    k = eng.T.key(t)
    ok = z3.Function('jsonvalue.ok<%s>' % k, eng.T.sort(t), B)(x)
    v = z3.Function('jsonvalue<%s>' % k, eng.T.sort(t), eng.T.sort(okt))(x)
    return res_fork(eng, st, c.out, ok, lambda s: Tm(okt, v), lambda s: eng.sym(s, ert, 'jsonerr!%d' % next(eng.cnt)))


def fromjson_fns(eng, ty):
    k = eng.T.key(ty)
    return (z3.Function('fromjson.ok<%s>' % k, S, B), z3.Function('fromjson<%s>' % k, S, eng.T.sort(ty)))


@dep(r'^serde_json::(de::)?from_(slice|str)::<', 'serde_json::from_slice/from_str: the value is a function of the text (from_slice on bytes that are a text agrees with from_str)')
def fromjson(eng, st, c):
    t = eng.T.peel(fld(eng, c.out, 'Ok'))
    x = zl(eng, st, c.args[0])
    if x.sort() != S:
        f, g = bytes_fns(eng, eng.T.peel(self_ty(c)))
        x = g(x)
    ok, val = fromjson_fns(eng, t)
    er = fld(eng, c.out, 'Err')
    return res_fork(eng, st, c.out, ok(x), lambda s: eng.term(s, t, val(x)), lambda s: eng.sym(s, er, 'jsonerr!%d' % next(eng.cnt)))


def engine_name(eng, st, v, c):
    """which base64 engine? compared structurally with the constants of the base64 crate"""
    e = z3.simplify(zl(eng, st, v))
    return e


@dep(r'^<base64::.*GeneralPurpose as base64::(.*::)?Engine>::(decode|encode)::<', 'base64 encode/decode with a given engine are functions of engine and input')
def b64(eng, st, c):
    k = re.search(r'Engine>::(\w+)::<', c.name).group(1)
    cfg = engine_name(eng, st, c.args[0], c)
    x = load(eng, st, c.args[1])
    xs = eng.z(st, x)
    cs = cfg.sort()
    if xs.sort() != S:
        f, g = bytes_fns(eng, eng.T.peel(c.info['in'][1]))
        xs = g(xs)
    if k == 'encode':
        return [(st, Tm(c.out, z3.Function('b64.enc', cs, S, S)(cfg, xs)))]
    okt = eng.T.peel(fld(eng, c.out, 'Ok'))
    bs = eng.T.sort(okt)
    ok = z3.Function('b64.dec.ok', cs, S, B)(cfg, xs)
    val = z3.Function('b64.dec', cs, S, bs)(cfg, xs)
    err = z3.Function('b64.dec.err', cs, S, eng.T.sort(fld(eng, c.out, 'Err')))(cfg, xs)
    ert = eng.T.peel(fld(eng, c.out, 'Err'))
    return res_fork(eng, st, c.out, ok, lambda s: eng.term(s, okt, val), lambda s: Tm(ert, err))


@dep(r'^urlencoding::(enc::)?encode$', 'urlencoding::encode percent-encodes (a function of the text)')
def urlenc(eng, st, c):
    return [(st, Tm(eng.T.peel(c.out), z3.Function('percent_encode', S, S)(zl(eng, st, c.args[0]))))]


# ------------------------------------------------------------------ DID documents and keys
def did_fns(eng, ty):
    return z3.Function('did_url.ok', S, B), z3.Function('did_url', S, eng.T.sort(ty))


@dep(r'^<ssi_dids::(did_url::)?DIDURL as std::convert::TryFrom<std::string::String>>::try_from$|^<ssi_dids::(did_url::)?DIDURL as std::str::FromStr>::from_str$', 'parsing a DID URL is a function of the text')
def didurl(eng, st, c):
    s = zl(eng, st, c.args[0])
    t = eng.T.peel(fld(eng, c.out, 'Ok'))
    ok, val = did_fns(eng, t)
    et = fld(eng, c.out, 'Err')
    return res_fork(eng, st, c.out, ok(s), lambda s1: Tm(t, val(s)), lambda s1: eng.sym(s1, et, 'diderr!%d' % next(eng.cnt)))


@dep(r'(^|::)Document::select_object$', 'Document::select_object yields a verification method or an error, a function of document and DID URL')
def selobj(eng, st, c):
    d, u = zl(eng, st, c.args[0]), zl(eng, st, c.args[1])
    t = eng.T.peel(fld(eng, c.out, 'Ok'))
    et = eng.T.peel(fld(eng, c.out, 'Err'))
    ok = z3.Function('select_object.ok', d.sort(), u.sort(), B)(d, u)
    val = z3.Function('select_object', d.sort(), u.sort(), eng.T.sort(t))(d, u)
    r = []
    for s, v in res_fork(eng, st, c.out, ok, lambda s1: Tm(t, val), lambda s1: eng.sym(s1, et, 'selerr!%d' % next(eng.cnt))):
        if v.v == eng.T.variant_index(c.out, 'Ok'):
            k = eng.T.variant_index(t, 'VerificationMethod')
            s.assume(eng.T.isv(t, val, k))
        r.append((s, v))
    return r


@dep(r'VerificationMethodMap::get_jwk$', 'VerificationMethodMap::get_jwk is a function of the verification method')
def getjwk(eng, st, c):
    m = zl(eng, st, c.args[0])
    t, et = eng.T.peel(fld(eng, c.out, 'Ok')), fld(eng, c.out, 'Err')
    ok = z3.Function('get_jwk.ok', m.sort(), B)(m)
    val = z3.Function('get_jwk', m.sort(), eng.T.sort(t))(m)
    return res_fork(eng, st, c.out, ok, lambda s: Tm(t, val), lambda s: eng.sym(s, et, 'jwkerr!%d' % next(eng.cnt)))


@dep(r'^ssi_jwk::JWK::get_algorithm$', 'JWK::get_algorithm is a function of the key')
def getalg(eng, st, c):
    m = zl(eng, st, c.args[0])
    return [(st, Tm(eng.T.peel(c.out), z3.Function('jwk.alg', m.sort(), eng.T.sort(c.out))(m)))]


@dep(r'^<chrono::.* as std::default::Default>::default$|^<serde_json::.* as std::default::Default>::default$', 'Default of dependency types is a fixed value')
def depdefault(eng, st, c):
    if eng.T.key(c.out) == 'time':
        return [(st, Tm(eng.T.peel(c.out), z3.IntVal(0)))]
    return [(st, Tm(eng.T.peel(c.out), z3.Const('default<%s>' % eng.T.key(c.out), eng.T.sort(c.out))))]


# ------------------------------------------------------------------ positions in strings, trimming, replacing
def BND(s, i):
    return z3.Function('str.boundary', S, I, B)(s, i)


def SLICE(s, a, b):
    return z3.Function('str.slice', S, I, I, S)(s, a, b)


def slice_facts(eng, st, s, a, b):
    """facts about s[a..b] that hold wherever a <= b are boundaries of s"""
    n = eng.blen(st, s)
    st.assume(SLICE(s, z3.IntVal(0), n) == s)
    st.assume(z3.Implies(a == b, SLICE(s, a, b) == strval('')))
    r = SLICE(s, a, b)
    eng.blen(st, r)
    st.assume(z3.Implies(z3.And(a >= 0, a <= b, b <= n, BND(s, a), BND(s, b)), eng.blen(st, r) == b - a))


def bnd_facts(eng, st, s, *ix):
    n = eng.blen(st, s)
    st.assume(BND(s, z3.IntVal(0)))
    st.assume(BND(s, n))
    for i in ix:
        st.assume(z3.Implies(BND(s, i), z3.And(i >= 0, i <= n)))


def str_range(eng, st, c, s, v):
    return bounds(eng, st, v, eng.blen(st, s))


def bounds(eng, st, v, ln):
    """(start, end) of a range value applied to something of length ln"""
    v = load(eng, st, v)
    t = eng.T.info(v.ty if isinstance(v, (Tm, Agg)) else -1)
    n = t['name'].rsplit('::', 1)[1]
    f = lambda k: z3.simplify(eng.z(st, eng.step(st, v, ('f', k, 0))))
    if n == 'RangeTo':
        return z3.IntVal(0), f(0)
    if n == 'RangeFrom':
        return f(0), ln
    if n == 'Range':
        return f(0), f(1)
    if n == 'RangeFull':
        return z3.IntVal(0), ln
    if n == 'RangeToInclusive':
        return z3.IntVal(0), f(0) + 1
    raise Unsupported('index by %s' % n)


def slice_ok(eng, st, s, a, b):
    bnd_facts(eng, st, s, a, b)
    slice_facts(eng, st, s, a, b)
    return z3.And(a >= 0, a <= b, b <= eng.blen(st, s), BND(s, a), BND(s, b))


LS = 'string slicing by byte positions: panics (or is None) unless both are character boundaries in order; find(c) is the position of the first c'


@dep(r'^core::str::traits::<impl std::ops::Index<.*> for str>::index$|^<std::string::String as std::ops::Index<.*>>::index$', LS)
def strindex(eng, st, c):
    s = zl(eng, st, c.args[0])
    a, b = str_range(eng, st, c, s, c.args[1])
    r = []
    for s1, ok in forks(eng, st, slice_ok(eng, st, s, a, b)):
        r.append((s1, Tm(eng.T.peel(c.out), SLICE(s, a, b)) if ok else Panic('string index')))
    return r


@dep(r'^core::str::<impl str>::get::<.*>$', LS)
def strget(eng, st, c):
    s = zl(eng, st, c.args[0])
    a, b = str_range(eng, st, c, s, c.args[1])
    return opt_fork(eng, st, c.out, slice_ok(eng, st, s, a, b), lambda s1: Tm(eng.T.peel(fld(eng, c.out, 'Some')), SLICE(s, a, b)))


@dep(r'^core::str::<impl str>::is_char_boundary$', LS)
def strbnd(eng, st, c):
    s, i = zl(eng, st, c.args[0]), zl(eng, st, c.args[1])
    bnd_facts(eng, st, s, i)
    return [(st, Tm(c.out, BND(s, i)))]


@dep(r'^core::str::<impl str>::split_at(_checked)?$', LS)
def splitat(eng, st, c):
    s, i = zl(eng, st, c.args[0]), z3.simplify(zl(eng, st, c.args[1]))
    tup = fld(eng, c.out, 'Some') if c.name.endswith('checked') else c.out
    es = eng.T.info(tup)['es']
    n = eng.blen(st, s)
    z = z3.IntVal(0)
    ok = z3.And(slice_ok(eng, st, s, z, i), slice_ok(eng, st, s, i, n))
    v = Agg(tup, 0, [Tm(eng.T.peel(es[0]), SLICE(s, z, i)), Tm(eng.T.peel(es[1]), SLICE(s, i, n))])
    if c.name.endswith('checked'):
        return opt_fork(eng, st, c.out, ok, lambda s1: v)
    return [(s1, v if b else Panic('split_at')) for s1, b in forks(eng, st, ok)]


@dep(r'^core::str::<impl str>::find::<(&str|char|&std::string::String)>$', LS)
def strfind(eng, st, c):
    s, p = zl(eng, st, c.args[0]), sep_or_str(eng, st, c.args[1])
    n, seg, rest = SPL(eng)
    split_facts(eng, st, s, p)
    pos = z3.Function('str.find', S, S, I)(s, p)
    one, zero = z3.IntVal(1), z3.IntVal(0)

    def mk(s1):
        ln, k = eng.blen(s1, s), eng.blen(s1, p)
        s1.assume(z3.And(pos >= 0, pos + k <= ln, BND(s, pos), BND(s, pos + k)))
        s1.assume(SLICE(s, zero, pos) == seg(s, p, zero))
        s1.assume(SLICE(s, pos + k, ln) == rest(s, p, one))
        s1.assume(z3.Implies(n(s, p) == 2, rest(s, p, one) == seg(s, p, one)))
        return eng.term(s1, fld(eng, c.out, 'Some'), pos)
    return opt_fork(eng, st, c.out, n(s, p) >= 2, mk)


@dep(r'^core::str::<impl str>::rfind::<(&str|char|&std::string::String)>$', LS)
def strrfind(eng, st, c):
    s, p = zl(eng, st, c.args[0]), sep_or_str(eng, st, c.args[1])
    n, seg, rest = SPL(eng)
    split_facts(eng, st, s, p)
    pos = z3.Function('str.rfind', S, S, I)(s, p)

    def mk(s1):
        ln, k = eng.blen(s1, s), eng.blen(s1, p)
        s1.assume(z3.And(pos >= 0, pos + k <= ln, BND(s, pos), BND(s, pos + k)))
        if strlit(p) is not None and len(strlit(p)) == 1:
          s1.assume(z3.Implies(n(s, p) == 2, z3.And(SLICE(s, z3.IntVal(0), pos) == seg(s, p, z3.IntVal(0)), SLICE(s, pos + k, ln) == seg(s, p, z3.IntVal(1)))))
        return eng.term(s1, fld(eng, c.out, 'Some'), pos)
    return opt_fork(eng, st, c.out, n(s, p) >= 2, mk)


@dep(r'^core::str::<impl str>::rsplit_once::<.*>$', "str::rsplit_once(c): before and after the last occurrence of c")
def rsplit_once(eng, st, c):
    s, sep = zl(eng, st, c.args[0]), sep_of(eng, st, c.args[1])
    n, seg, rest = SPL(eng)
    split_facts(eng, st, s, sep)
    tup = fld(eng, c.out, 'Some')
    es = eng.T.info(tup)['es']
    a, b = z3.Function('rsplit.before', S, S, S)(s, sep), z3.Function('rsplit.after', S, S, S)(s, sep)

    def mk(s1):
        s1.assume(s == concat(a, sep, b))
        if strlit(sep) is None or len(strlit(sep)) != 1:
            return Agg(tup, 0, [Tm(eng.T.peel(es[0]), a), Tm(eng.T.peel(es[1]), b)])
        s1.assume(b == seg(s, sep, n(s, sep) - 1))
        s1.assume(n(b, sep) == 1)
        s1.assume(n(a, sep) == n(s, sep) - 1)
        s1.assume(z3.Implies(n(s, sep) == 2, a == seg(s, sep, z3.IntVal(0))))
        for m in (0, 1, 2):
            s1.assume(z3.Implies(n(s, sep) > m + 1, seg(a, sep, z3.IntVal(m)) == seg(s, sep, z3.IntVal(m))))
        return Agg(tup, 0, [Tm(eng.T.peel(es[0]), a), Tm(eng.T.peel(es[1]), b)])
    return opt_fork(eng, st, c.out, n(s, sep) >= 2, mk)


@dep(r'^core::str::<impl str>::(trim|trim_start|trim_end|trim_left|trim_right)$|^core::str::<impl str>::trim_(end_|start_|left_|right_)?matches::<(char|&str)>$', 'trimming is a function of the text and the pattern')
def strtrim(eng, st, c):
    k = re.search(r'>::(trim\w*)', c.name).group(1)
    xs = [zl(eng, st, c.args[0])] + [sep_or_str(eng, st, a) for a in c.args[1:]]
    l = strlit(xs[0])
    if l is not None and len(xs) == 1 and l.isascii() and l.isprintable():
        return [(st, Tm(eng.T.peel(c.out), strval({'trim': l.strip(' '), 'trim_start': l.lstrip(' '), 'trim_end': l.rstrip(' ')}.get(k, l.strip(' '))) if k in ('trim', 'trim_start', 'trim_end') else z3.Function('str.' + k, S, S)(*xs)))]
    e = z3.Function('str.' + k, *([S] * (len(xs) + 1)))(*xs)
    st.assume(eng.blen(st, e) <= eng.blen(st, xs[0]))
    return [(st, Tm(eng.T.peel(c.out), e))]


@dep(r'^(core|std|alloc)::str::<impl str>::(replace|replacen|repeat)(::<(char|&str|&std::string::String)>)?$', 'str::replace/repeat are functions of their arguments')
def strreplace(eng, st, c):
    k = re.search(r'>::(replacen?|repeat)', c.name).group(1)
    xs = [zl(eng, st, c.args[0])]
    for a in c.args[1:]:
        v = load(eng, st, a)
        xs.append(eng.z(st, v) if isinstance(v, Tm) and v.e.sort() == I and k != 'replace' and a is c.args[-1] else sep_or_str(eng, st, a))
    ls = [strlit(x) for x in xs]
    if k == 'replace' and None not in ls:
        return [(st, Tm(eng.T.peel(c.out), strval(ls[0].replace(ls[1], ls[2]))))]
    if k == 'replace':
        n, seg, rest = SPL(eng)
        e = z3.Function('str.replace', S, S, S, S)(*xs)
        st.assume(z3.Implies(n(xs[0], xs[1]) == 1, e == xs[0]))
        st.assume(n(xs[0], xs[1]) >= 1)
        return [(st, Tm(eng.T.peel(c.out), e))]
    return [(st, Tm(eng.T.peel(c.out), z3.Function('str.' + k, *([x.sort() for x in xs] + [S]))(*xs)))]


@dep(r'^std::intrinsics::integer_(min|max)::<|^<[iu](8|16|32|64|128|size) as std::cmp::Ord>::(min|max)$|^std::cmp::impls::<impl std::cmp::Ord for [iu](8|16|32|64|128|size)>::(min|max)$|^std::cmp::(min|max)::<[iu](8|16|32|64|128|size)>$', 'min/max of integers')
def intminmax(eng, st, c):
    a, b = zl(eng, st, c.args[0]), zl(eng, st, c.args[1])
    k = 'min' if re.search(r'(_|::)min(::<|$)', c.name) else 'max'
    return [(st, Tm(c.out, z3.If(a <= b, a, b) if k == 'min' else z3.If(a >= b, a, b)))]


LC = 'str::chars: the number of characters of a text is a function of it, at most its length in bytes, 0 exactly for the empty text'


@dep(r'^core::str::<impl str>::(chars|char_indices|bytes)$', LC)
def strchars(eng, st, c):
    s = zl(eng, st, c.args[0])
    t = eng.T.peel(item_ty(eng, c.out))
    Z = z3.IntVal(0)
    if strlit(s) is None:
        vague(eng, st, 'characters of a text')
    if c.name.endswith('bytes'):
        return [(st, SIter(t, bytes_seq(eng, st, t, s), Z, eng.blen(st, s)))]
    st.assume(z3.And(CHARS(s) >= 0, CHARS(s) <= eng.blen(st, s), (CHARS(s) == 0) == (s == strval(''))))
    n = z3.IntVal(len(strlit(s))) if strlit(s) is not None else CHARS(s)
    if c.name.endswith('chars'):
        return [(st, SIter(t, chars_seq(eng, st, t, s), Z, n))]
    us, ch = eng.T.info(t)['es']
    pos = z3.Function('char.pos', S, I, I)

    def at(st, j):
        st.assume(z3.Implies(z3.And(j >= 0, j < n), z3.And(pos(s, j) >= j, pos(s, j) < eng.blen(st, s), BND(s, pos(s, j)))))
        return Tm(us, pos(s, j))
    st.assume(pos(s, Z) == 0)

    def none_(st):
        raise Unsupported('character positions')
    return [(st, SIter(t, Sp('zip', Sp('fn', us, at, none_, n), Z, chars_seq(eng, st, ch, s), Z, t), Z, n))]


def bytes_seq(eng, st, t, s):
    from engine import eng_seq_ty
    f, g = bytes_fns(eng, eng_seq_ty(eng, t))
    e = f(s)

    def whole(st):
        eng.seq_axioms(t)
        st.assume(z3.And(g(e) == s, eng.T.len_f(t)(e) == eng.blen(st, s)))
        return e

    def at(st, j):
        x = eng.T.at_f(t)(e, j)
        st.assume(z3.And(x >= 0, x <= 255))
        return Tm(t, x)
    return Sp('fn', t, at, whole, eng.blen(st, s))


def chars_seq(eng, st, t, s):
    l = strlit(s)
    if l is not None and len(l) <= 64:
        return Lst(t, [Tm(t, z3.IntVal(ord(x))) for x in l])
    v = z3.Function('chars.vec', S, eng.T.seq_sort(t))(s)

    def whole(st):
        eng.seq_axioms(t)
        st.assume(eng.T.len_f(t)(v) == CHARS(s))
        return v

    def at(st, j):
        x = eng.T.at_f(t)(v, j)
        st.assume(z3.And(x >= 0, x <= 0x10FFFF))
        return Tm(t, x)
    return Sp('fn', t, at, whole, CHARS(s))


@dep(r'^core::str::<impl str>::is_ascii$', 'a text is ASCII exactly if it has as many characters as bytes')
def strisascii(eng, st, c):
    s = zl(eng, st, c.args[0])
    if strlit(s) is not None:
        return [(st, Tm(c.out, z3.BoolVal(strlit(s).isascii())))]
    vague(eng, st, 'characters of a text')
    return [(st, Tm(c.out, CHARS(s) == eng.blen(st, s)))]


@dep(r'^<std::str::(Chars|CharIndices|Bytes)<.*> as std::iter::Iterator>::collect::<std::string::String>$|^<std::string::String as std::iter::FromIterator<(char|&str|std::string::String|&std::string::String|&char)>>::from_iter::<', 'String::from_iter concatenates the pieces in order')
def strfromiter(eng, st, c):
    it = load(eng, st, c.args[0])
    t = eng.T.peel(c.out)
    if isinstance(it, Lst):
        it = SIter(it.ety, it, z3.IntVal(0), z3.IntVal(len(it.items)))
    if not isinstance(it, SIter):
        return None
    if isinstance(it.seq, Lst) and it_concrete(it):
        return [(st, Tm(t, str_pieces(eng, st, it.seq.items[lit(it.pos):lit(it.end)])))]
    q = rest_seq(eng, st, it)
    if q is None or isinstance(q, Lst):
        return None
    if z3.is_app(q.e) and q.e.decl().name() == 'chars.vec':
        return [(st, Tm(t, q.e.arg(0)))]
    vague(eng, st, 'text put together from characters')
    return [(st, Tm(t, z3.Function('str.of<%s>' % eng.T.key(it.ety), q.e.sort(), S)(q.e)))]


def str_pieces(eng, st, items, sep=None):
    out = []
    for k, x in enumerate(items):
        if k and sep is not None:
            out.append(sep)
        e = zl(eng, st, x)
        out.append(char_str(eng, e) if e.sort() == I else e)
    return concat(*out) if out else strval('')


@dep(r'^<std::string::String as std::iter::Extend<(char|&str|std::string::String|&char)>>::extend::<', 'String::extend appends the pieces in order')
def strextend(eng, st, c):
    p = target(eng, st, c.args[0])
    it = load(eng, st, c.args[1])
    if isinstance(it, Lst):
        it = SIter(it.ety, it, z3.IntVal(0), z3.IntVal(len(it.items)))
    if not isinstance(it, SIter) or not isinstance(it.seq, Lst) or not it_concrete(it):
        return None
    eng.write(st, p.cell, p.path, Tm(eng.T.peel(self_ty(c)), concat(zl(eng, st, p), str_pieces(eng, st, it.seq.items[lit(it.pos):lit(it.end)]))))
    return [(st, eng.unit(c.out))]


@dep(r'^std::string::String::(insert|insert_str|truncate|pop)$', 'String::insert/insert_str/truncate/pop have their documented effect')
def strmut(eng, st, c):
    p = target(eng, st, c.args[0])
    k = c.name.rsplit('::', 1)[1]
    t = eng.T.peel(self_ty(c))
    s = zl(eng, st, p)
    n = eng.blen(st, s)
    put = lambda s1, e: eng.write(s1, p.cell, p.path, Tm(t, e))
    r = []
    if k == 'pop':
        ps = pieces(s)
        l = strlit(ps[-1])
        if l:
            put(st, concat(*(ps[:-1] + [strval(l[:-1])])))
            return [(st, some(eng, c.out, Tm(fld(eng, c.out, 'Some'), z3.IntVal(ord(l[-1])))))]
        for s1, b in forks(eng, st, s != strval('')):
            if not b:
                r.append((s1, none(eng, c.out)))
                continue
            ch, ini = eng.fresh(I, 'chr'), eng.fresh(S, 'ini')
            s1.assume(z3.And(ch >= 0, ch <= 0x10FFFF, s == concat(ini, char_str(eng, ch))))
            put(s1, ini)
            r.append((s1, some(eng, c.out, Tm(fld(eng, c.out, 'Some'), ch))))
        return r
    i = z3.simplify(zl(eng, st, c.args[1]))
    if k == 'truncate':
        for s1, b in forks(eng, st, z3.simplify(i >= n)):
            if b:
                r.append((s1, eng.unit(c.out)))
                continue
            for s2, ok in forks(eng, s1, slice_ok(eng, s1, s, z3.IntVal(0), i)):
                if ok:
                    put(s2, strval('') if lit(i) == 0 else SLICE(s, z3.IntVal(0), i))
                r.append((s2, eng.unit(c.out) if ok else Panic('truncate inside of a character')))
        return r
    x = zl(eng, st, c.args[2])
    if x.sort() == I:
        x = char_str(eng, x)
    if lit(i) == 0:
        put(st, concat(x, s))
        return [(st, eng.unit(c.out))]
    for s1, ok in forks(eng, st, slice_ok(eng, st, s, z3.IntVal(0), i)):
        if ok:
            slice_ok(eng, s1, s, i, n)
            put(s1, concat(SLICE(s, z3.IntVal(0), i), x, SLICE(s, i, n)))
        r.append((s1, eng.unit(c.out) if ok else Panic('insert inside of a character')))
    return r


@dep(r'^<std::string::String as std::fmt::Write>::(write_fmt|write_str|write_char)$', 'writing to a String appends')
def strwrite(eng, st, c):
    p = target(eng, st, c.args[0])
    x = load(eng, st, c.args[1])
    e = fmt_string(eng, st, x) if isinstance(x, Sp) else eng.z(st, x)
    if e.sort() == I:
        e = char_str(eng, e)
    eng.write(st, p.cell, p.path, Tm(eng.T.peel(self_ty(c)), concat(zl(eng, st, p), e)))
    return [(st, variant(eng, c.out, 'Ok', eng.unit(fld(eng, c.out, 'Ok'))))]


@dep(r'^core::str::<impl str>::make_ascii_(lower|upper)case$|^std::string::String::make_ascii_(lower|upper)case$', 'make_ascii_lowercase is to_ascii_lowercase in place')
def strmake(eng, st, c):
    p = target(eng, st, c.args[0])
    e = zl(eng, st, p)
    eng.write(st, p.cell, p.path, Tm(eng.T.peel(self_ty(c)), z3.Function('str.alower' if 'lower' in c.name else 'str.aupper', S, S)(e)))
    return [(st, eng.unit(c.out))]


@dep(r'^core::str::<impl str>::(matches|split_whitespace|split_ascii_whitespace|lines|split_terminator|split_inclusive)(::<.*>)?$', 'matches/lines/split_whitespace/.. yield a sequence that is a function of the text')
def strother(eng, st, c):
    k = re.search(r'>::(\w+?)(::<|$)', c.name).group(1)
    s = zl(eng, st, c.args[0])
    t = str_ty(eng, c.out)
    vague(eng, st, 'pieces of a text')
    xs = [s] + [sep_of(eng, st, a) for a in c.args[1:]]
    n = z3.Function('str.' + k + '.n', *([S] * len(xs) + [I]))(*xs)
    at = z3.Function('str.' + k + '.at', *([S] * len(xs) + [I, S]))
    if k == 'matches':
        if not strlit(xs[1]):
            raise Unsupported('matches of a computed pattern')
        split_facts(eng, st, s, xs[1])
        n = SPL(eng)[0](s, xs[1]) - 1
    else:
        st.assume(z3.Implies(s == strval(''), n == 0))
    st.assume(z3.And(n >= 0, n <= eng.blen(st, s)))
    if k in ('lines', 'split_terminator', 'split_inclusive'):
        st.assume((n == 0) == (s == strval('')))

    def item(st, j):
        x = xs[1] if k == 'matches' else at(*xs, j)
        if 'whitespace' in k:
            st.assume(z3.Implies(z3.And(j >= 0, j < n), x != strval('')))
        return Tm(t, x)

    def whole(st):
        eng.seq_axioms(t)
        v = z3.Function('str.' + k + '.vec', *([S] * len(xs) + [eng.T.seq_sort(t)]))(*xs)
        j = z3.Int('j')
        st.assume(eng.T.len_f(t)(v) == n)
        y = xs[1] if k == 'matches' else at(*xs, j)
        st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), eng.T.at_f(t)(v, j) == y), patterns=[eng.T.at_f(t)(v, j)]))
        return v
    return [(st, SIter(t, Sp('fn', t, item, whole, n), z3.IntVal(0), n))]


@dep(r'^core::num::<impl std::str::FromStr for [iu](8|16|32|64|128|size)>::from_str$|^<[iu](8|16|32|64|128|size) as std::str::FromStr>::from_str$|^core::num::<impl [iu](8|16|32|64|128|size)>::from_str_radix$', 'parsing an integer inverts its decimal text; otherwise a function of the text')
def intparse(eng, st, c):
    s = zl(eng, st, c.args[0])
    t = eng.T.peel(fld(eng, c.out, 'Ok'))
    lo, hi = eng.T.int_range(t)
    vague(eng, st, 'number in a text')
    if c.name.endswith('radix'):
        if lit(zl(eng, st, c.args[1])) != 10:
            return None
    ok = z3.Function('int.text%s' % ('.neg' if lo < 0 else ''), S, B)(s)
    v = z3.Function('display<int>.inv', S, I)(s)
    st.assume(z3.Implies(s == strval(''), z3.Not(ok)))
    return res_fork(eng, st, c.out, z3.And(ok, v >= lo, v <= hi), lambda s1: Tm(t, v), lambda s1: eng.sym(s1, fld(eng, c.out, 'Err'), 'interr!%d' % next(eng.cnt)))


@dep(r'SpecAssumeCount>::assume_count_le_upper_bound$', 'an assertion of the standard library')
def assumecount(eng, st, c):
    return [(st, eng.unit(c.out))]


@dep(r'^<std::string::String as std::borrow::Borrow<str>>::borrow$|^std::str::<impl std::borrow::Borrow<str> for std::string::String>::borrow$|^<std::boxed::Box<str> as std::convert::From<(&str|std::string::String)>>::from$|^std::string::String::into_boxed_str$|^<std::string::String as std::convert::From<std::boxed::Box<str>>>::from$', 'Borrow, Box<str> keep the text')
def strsame(eng, st, c):
    return [(st, c.args[0])]


@dep(r'^std::string::String::from_utf8_lossy$', 'from_utf8_lossy is the text where there is one')
def lossy(eng, st, c):
    x = zl(eng, st, c.args[0])
    f, g = bytes_fns(eng, eng.T.peel(c.info['in'][0]))
    e = z3.Function('utf8.lossy', x.sort(), S)(x)
    st.assume(z3.Implies(z3.Function('utf8.ok', x.sort(), B)(x), e == g(x)))
    if z3.is_app(x) and x.decl().name() == 'utf8':
        e = x.arg(0)
    else:
        vague(eng, st, 'bytes that are no text')
    return [(st, Tm(eng.T.peel(c.out), e))]


CHARP = {'is_alphabetic': str.isalpha, 'is_alphanumeric': str.isalnum, 'is_numeric': str.isdigit, 'is_lowercase': str.islower, 'is_uppercase': str.isupper,
         'is_whitespace': lambda x: x in '\t\n\x0b\x0c\r ', 'is_control': lambda x: ord(x) < 32 or ord(x) == 127}


@dep(r'^core::char::methods::<impl char>::(is_alphabetic|is_alphanumeric|is_numeric|is_lowercase|is_uppercase|is_whitespace|is_control)$', 'classes of characters: exact on ASCII, else a function of the character')
def charclass(eng, st, c):
    x = zl(eng, st, c.args[0])
    k = c.name.rsplit('::', 1)[1]
    f = z3.Function('char.' + k, I, B)(x)
    yes, a = [], None
    for n in range(129):
        b = n < 128 and CHARP[k](chr(n))
        if b and a is None:
            a = n
        if not b and a is not None:
            yes.append(z3.And(x >= a, x <= n - 1))
            a = None
    return [(st, Tm(c.out, z3.If(x < 128, z3.Or(*yes), f)))]


@dep(r'^core::slice::<impl \[.*\]>::contains$', 'slice contains: some element is equal')
def slicecontains(eng, st, c):
    v, x = load(eng, st, c.args[0]), load(eng, st, c.args[1])
    t = eng.T.elem(eng.T.peel(self_ty(c)))
    if not eq_ok(eng, t) or not isinstance(v, (Lst, Tm)):
        return None
    y = eng.z(st, x)
    if isinstance(v, Lst):
        e = z3.Or(*[eq_values(eng, st, t, w, x, eng.z(st, load(eng, st, w)), y) for w in v.items]) if v.items else FALSE
        return [(st, Tm(c.out, e))]
    j = z3.Int('jin!%d' % next(eng.cnt))
    ln, at = eng.T.len_f(t), eng.T.at_f(t)
    return [(st, Tm(c.out, z3.Exists([j], z3.And(j >= 0, j < ln(v.e), at(v.e, j) == y))))]


@dep(r'^std::intrinsics::(ctlz|cttz|ctpop)::<u(8|16|32|64|128|size)>$', 'leading_zeros counts the zero bits above the highest set bit')
def ctlz(eng, st, c):
    if '::ctlz' not in c.name:
        return None
    n = zl(eng, st, c.args[0])
    bits = (eng.T.int_range(c.info['in'][0])[1] + 1).bit_length() - 1
    e = z3.IntVal(0)
    for k in range(bits - 1, -1, -1):
        e = z3.If(n < 2 ** k, z3.IntVal(bits - k), e)
    return [(st, Tm(c.out, e))]


@dep(r'^serde_json::(value::)?Value::is_(null|object|array|string|boolean|number)$', 'the kind of a JSON value is a function of the value')
def valuekind(eng, st, c):
    v = zl(eng, st, c.args[0])
    k = ['null', 'object', 'array', 'string', 'boolean', 'number'].index(c.name.rsplit('_', 1)[1])
    return [(st, Tm(c.out, z3.Function('json.kind', v.sort(), I)(v) == k))]


@dep(r'^(time::duration::Duration|chrono::.*(Duration|TimeDelta))::(num_nanoseconds|num_microseconds)$', 'Duration::num_nanoseconds is exact, None outside of i64')
def durnanos(eng, st, c):
    n = zl(eng, st, c.args[0])
    d = 1 if 'nano' in c.name else 1000
    v = z3.If(n >= 0, n / d, -((-n) / d))
    return opt_fork(eng, st, c.out, z3.And(v >= -2**63, v < 2**63), lambda s: Tm(fld(eng, c.out, 'Some'), v))


@dep(r'^chrono::.*DateTime::<.*Utc>::timestamp_nanos(_opt)?$', 'DateTime::timestamp_nanos is exact; outside of i64 None, or a panic')
def tsnanos(eng, st, c):
    n = zl(eng, st, c.args[0])
    ok = z3.And(n >= -2**63, n < 2**63)
    if c.name.endswith('_opt'):
        return opt_fork(eng, st, c.out, ok, lambda s: Tm(fld(eng, c.out, 'Some'), n))
    return [(s, Tm(c.out, n)) if b else (s, Panic('timestamp_nanos out of range')) for s, b in forks(eng, st, ok)]


# ------------------------------------------------------------------ sequences in other ways
LQ = 'Vec/slice insert, remove, pop, truncate, clear, reverse, swap, append, extend_from_slice and sub-slices have their documented effect on length and elements'


def newseq(eng, st, ety, n, f, ty):
    """a sequence of length n whose j-th element is f(j)"""
    eng.seq_axioms(ety)
    e = z3.Const('seq!%d' % next(eng.cnt), eng.T.seq_sort(ety))
    ln, at = eng.T.len_f(ety), eng.T.at_f(ety)
    st.assume(ln(e) == n)
    j = z3.Int('j')
    st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), at(e, j) == f(j)), patterns=[at(e, j)]))
    return Tm(ty, e)


def seq_of(eng, st, v):
    """the sequence a mutable reference points to: place, value, element type, type"""
    p = target(eng, st, v)
    x = eng.read(st, p.cell, p.path)
    if isinstance(x, Lst):
        return p, x, x.ety
    if isinstance(x, Tm) and eng.T.key(x.ty)[:4] == 'seq<':
        return p, x, eng.T.elem(x.ty)
    raise Unsupported('sequence %r' % (x,))


def lit(e):
    e = z3.simplify(e)
    return e.as_long() if z3.is_int_value(e) else None


@dep(r'^std::vec::Vec::<.*>::(insert|remove|pop|truncate|clear|swap_remove|append|extend_from_slice)$|^core::slice::<impl \[.*\]>::(reverse|swap)$', LQ)
def vecmut(eng, st, c):
    k = c.name.rsplit('::', 1)[1]
    p, v, ety = seq_of(eng, st, c.args[0])
    n = eng.seq_len(st, v)
    vty = v.ty if isinstance(v, Tm) else eng.T.peel(self_ty(c))
    out = lambda s: eng.unit(c.out)
    put = lambda s, x: eng.write(s, p.cell, p.path, x)
    conc = isinstance(v, Lst)
    if k == 'clear':
        put(st, Lst(ety, []))
        return [(st, out(st))]
    if k == 'pop':
        r = []
        for s, b in forks(eng, st, z3.simplify(n > 0)):
            if not b:
                r.append((s, none(eng, c.out)))
                continue
            x = eng.seq_at(s, v, z3.simplify(n - 1))
            put(s, Lst(ety, v.items[:-1]) if conc else newseq(eng, s, ety, n - 1, lambda j: eng.T.at_f(ety)(v.e, j), vty))
            r.append((s, some(eng, c.out, x)))
        return r
    if k in ('append', 'extend_from_slice'):
        if k == 'append':
            q, w, _ = seq_of(eng, st, c.args[1])
        else:
            q, w = None, load(eng, st, c.args[1])
        if conc and isinstance(w, Lst):
            new = Lst(ety, v.items + w.items)
        else:
            a, b, m = eng.z(st, v), eng.z(st, w), eng.seq_len(st, w)
            at = eng.T.at_f(ety)
            new = newseq(eng, st, ety, n + m, lambda j: z3.If(j < n, at(a, j), at(b, j - n)), vty)
        put(st, new)
        if q is not None:
            eng.write(st, q.cell, q.path, Lst(ety, []))
        return [(st, out(st))]
    at = eng.T.at_f(ety)
    ix = [z3.simplify(zl(eng, st, a)) for a in c.args[1:2]]
    if k == 'truncate':
        m = ix[0]
        if conc and lit(m) is not None:
            put(st, Lst(ety, v.items[:lit(m)]))
        else:
            a = eng.z(st, v)
            put(st, newseq(eng, st, ety, z3.If(m < n, m, n), lambda j: at(a, j), vty))
        return [(st, out(st))]
    if k == 'reverse':
        if conc:
            put(st, Lst(ety, v.items[::-1]))
        else:
            put(st, newseq(eng, st, ety, n, lambda j: at(v.e, n - 1 - j), vty))
        return [(st, out(st))]
    i = ix[0]
    bound = i <= n if k == 'insert' else i < n
    if k == 'swap':
        i2 = z3.simplify(zl(eng, st, c.args[2]))
        bound = z3.And(bound, i2 < n)
    r = []
    for s, b in forks(eng, st, z3.simplify(bound)):
        if not b:
            r.append((s, Panic('index out of bounds')))
            continue
        if conc and lit(i) is not None and (k != 'swap' or lit(i2) is not None):
            l = list(v.items)
            res = out(s)
            if k == 'insert':
                l.insert(lit(i), c.args[1 + 1])
            elif k == 'remove':
                res = l.pop(lit(i))
            elif k == 'swap_remove':
                res, l[lit(i)] = l[lit(i)], l[-1]
                l.pop()
            else:
                l[lit(i)], l[lit(i2)] = l[lit(i2)], l[lit(i)]
            put(s, Lst(ety, l))
            r.append((s, res))
            continue
        a = eng.z(s, v)
        if k == 'insert':
            x = eng.z(s, c.args[2])
            put(s, newseq(eng, s, ety, n + 1, lambda j: z3.If(j < i, at(a, j), z3.If(j == i, x, at(a, j - 1))), vty))
            r.append((s, out(s)))
        elif k == 'remove':
            put(s, newseq(eng, s, ety, n - 1, lambda j: z3.If(j < i, at(a, j), at(a, j + 1)), vty))
            r.append((s, eng.term(s, ety, at(a, i))))
        elif k == 'swap_remove':
            put(s, newseq(eng, s, ety, n - 1, lambda j: z3.If(j == i, at(a, n - 1), at(a, j)), vty))
            r.append((s, eng.term(s, ety, at(a, i))))
        else:
            put(s, newseq(eng, s, ety, n, lambda j: z3.If(j == i, at(a, i2), z3.If(j == i2, at(a, i), at(a, j))), vty))
            r.append((s, out(s)))
    return r


@dep(r'^<std::vec::Vec<.*> as std::ops::DerefMut>::deref_mut$|^std::vec::Vec::<.*>::as_mut_slice$|^<std::vec::Vec<.*> as std::convert::AsMut<.*>>::as_mut$', 'a mutable slice of a Vec is its contents')
def vecmutref(eng, st, c):
    return [(st, target(eng, st, c.args[0]))]


@dep(r'^(core|std)::slice::<impl \[.*\]>::(sort|sort_unstable|sort_by|sort_unstable_by|sort_by_key|sort_unstable_by_key|sort_by_cached_key)(::<.*>)?$', 'sorting permutes the elements; sort and sort_unstable put them in order')
def sortseq(eng, st, c):
    k = re.search(r'>::(\w+)(::<.*>)?$', c.name).group(1)
    p, v, ety = seq_of(eng, st, c.args[0])
    if isinstance(v, Lst) and len(v.items) < 2:
        return [(st, eng.unit(c.out))]
    plain = k in ('sort', 'sort_unstable')
    if not plain and not eng.harmless_fn(c.info['in'][1]):
        raise Unsupported('sorting with a closure that changes something')
    key = eng.T.key(ety)
    if plain and key not in ('int', 'str'):
        raise Unsupported('order of ' + key)
    vague(eng, st, 'order of the elements')
    vty = v.ty if isinstance(v, Tm) else eng.T.peel(self_ty(c))
    n, a = eng.seq_len(st, v), eng.z(st, v)
    eng.seq_axioms(ety)
    e = z3.Const('seq!%d' % next(eng.cnt), eng.T.seq_sort(ety))
    ln, at = eng.T.len_f(ety), eng.T.at_f(ety)
    m = next(eng.cnt)
    f, g = eng.uf('perm!%d' % m, [I], I), eng.uf('mrep!%d' % m, [I], I)
    j, l = z3.Int('j'), z3.Int('l')
    inr = lambda x: z3.And(x >= 0, x < n)
    st.assume(ln(e) == n)
    st.assume(z3.ForAll([j], z3.Implies(inr(j), z3.And(inr(f(j)), g(f(j)) == j, at(e, j) == at(a, f(j)))), patterns=[at(e, j)]))
    st.assume(z3.ForAll([j], z3.Implies(inr(j), z3.And(inr(g(j)), f(g(j)) == j, at(a, j) == at(e, g(j)))), patterns=[at(a, j)]))
    if plain:
        if key == 'str':
            rk, un = z3.Function('str.rank', S, z3.RealSort()), z3.Function('str.rank.inv', z3.RealSort(), S)
            x = z3.Const('x', S)
            eng.axiom('str.rank', z3.ForAll([x], un(rk(x)) == x, patterns=[rk(x)]))
        else:
            rk = lambda x: x
        st.assume(z3.ForAll([j, l], z3.Implies(z3.And(j >= 0, j < l, l < n), rk(at(e, j)) <= rk(at(e, l))), patterns=[z3.MultiPattern(at(e, j), at(e, l))]))
    eng.write(st, p.cell, p.path, Tm(vty, e))
    return [(st, eng.unit(c.out))]


@dep(r'^std::vec::Vec::<.*>::dedup$', 'dedup leaves the first of equal neighbours')
def dedup(eng, st, c):
    p, v, ety = seq_of(eng, st, c.args[0])
    if isinstance(v, Lst) and len(v.items) < 2:
        return [(st, eng.unit(c.out))]
    vague(eng, st, 'dedup')
    vty = v.ty if isinstance(v, Tm) else eng.T.peel(self_ty(c))
    n, a = eng.seq_len(st, v), eng.z(st, v)
    eng.seq_axioms(ety)
    e = z3.Const('seq!%d' % next(eng.cnt), eng.T.seq_sort(ety))
    ln, at = eng.T.len_f(ety), eng.T.at_f(ety)
    src = eng.uf('src!%d' % next(eng.cnt), [I], I)
    j, l = z3.Int('j'), z3.Int('l')
    m = ln(e)
    diff = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j + 1 < n), at(a, j) != at(a, j + 1)), patterns=[at(a, j)])
    same = z3.Exists([j], z3.And(j >= 0, j + 1 < n, at(a, j) == at(a, j + 1)))
    st.assume(z3.And(m >= 0, m <= n, (n == 0) == (m == 0), z3.Implies(m == n, diff), z3.Implies(m != n, same)))
    st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < m), z3.And(src(j) >= j, src(j) < n, at(e, j) == at(a, src(j)))), patterns=[at(e, j)]))
    st.assume(z3.Implies(m == n, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < m), at(e, j) == at(a, j)), patterns=[at(e, j)])))
    st.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j + 1 < m), at(e, j) != at(e, j + 1)), patterns=[at(e, j)]))
    eng.write(st, p.cell, p.path, Tm(vty, e))
    return [(st, eng.unit(c.out))]


@dep(r'^std::vec::Vec::<.*>::retain::<', 'retain keeps the elements the closure accepts (executable reference body)')
def retain(eng, st, c):
    r = eng.srv.apply('ref_retain', [eng.T.elem(self_ty(c)), c.info['in'][1]])
    if not isinstance(r, int):
        raise Unsupported('ref_retain')
    return [(st, Enter(r, c.args))]


@dep(r'^<std::vec::Drain<.*> as std::ops::Drop>::drop$', 'dropping a Drain')
def draindrop(eng, st, c):
    return [(st, eng.unit(c.out))] if isinstance(load(eng, st, c.args[0]), SIter) else None


@dep(r'^<std::vec::Vec<.*> as std::iter::Extend<.*>>::extend_one$', 'extend_one pushes')
def extend_one(eng, st, c):
    p, v, ety = seq_of(eng, st, c.args[0])
    if isinstance(v, Lst):
        eng.write(st, p.cell, p.path, Lst(ety, v.items + [c.args[1]]))
    else:
        eng.seq_axioms(ety)
        eng.write(st, p.cell, p.path, Tm(v.ty, eng.T.push_f(ety)(v.e, eng.z(st, c.args[1]))))
    return [(st, eng.unit(c.out))]


@dep(r'^std::vec::Vec::<.*>::(split_off|resize)$|^std::vec::Vec::<.*>::drain::<std::ops::RangeFull>$|^std::vec::from_elem::<', LQ)
def vecparts(eng, st, c):
    k = re.search(r'::(split_off|resize|drain|from_elem)', c.name).group(1)
    if k == 'from_elem':
        ety = eng.T.elem(c.out)
        n = z3.simplify(zl(eng, st, c.args[1]))
        if not clone_ok(eng, ety):
            return None
        if lit(n) is not None and lit(n) <= 16:
            return [(st, Lst(ety, [c.args[0]] * lit(n)))]
        x = eng.z(st, c.args[0])
        return [(st, newseq(eng, st, ety, n, lambda j: x, c.out))]
    p, v, ety = seq_of(eng, st, c.args[0])
    vty = v.ty if isinstance(v, Tm) else eng.T.peel(self_ty(c))
    n = eng.seq_len(st, v)
    Z = z3.IntVal(0)
    if k == 'drain':
        eng.write(st, p.cell, p.path, Lst(ety, []))
        return [(st, SIter(ety, v, Z, n))]
    m = z3.simplify(zl(eng, st, c.args[1]))
    if k == 'resize':
        if not clone_ok(eng, ety):
            return None
        if isinstance(v, Lst) and lit(m) is not None and lit(m) <= 16:
            l = v.items[:lit(m)]
            new = Lst(ety, l + [c.args[2]] * (lit(m) - len(l)))
        else:
            a, at, x = eng.z(st, v), eng.T.at_f(ety), eng.z(st, c.args[2])
            new = newseq(eng, st, ety, m, lambda j: z3.If(j < n, at(a, j), x), vty)
        eng.write(st, p.cell, p.path, new)
        return [(st, eng.unit(c.out))]
    r = []
    for s, ok in forks(eng, st, z3.simplify(m <= n)):
        if not ok:
            r.append((s, Panic('split_off out of bounds')))
            continue
        if lit(m) == 0:
            eng.write(s, p.cell, p.path, Lst(ety, []))
            r.append((s, v))
            continue
        x, y = subseq(eng, s, v, Z, m, vty), subseq(eng, s, v, m, n, vty)
        eng.write(s, p.cell, p.path, x)
        r.append((s, y))
    return r


@dep(r'^core::slice::<impl \[.*\]>::(starts_with|ends_with)$', 'starts_with/ends_with of slices compare the elements')
def slicestarts(eng, st, c):
    v, w = load(eng, st, c.args[0]), load(eng, st, c.args[1])
    n, m = eng.seq_len(st, v), eng.seq_len(st, w)
    off = z3.IntVal(0) if 'starts' in c.name else n - m
    if isinstance(w, Lst):
        e = z3.And(n >= m, *[eng.mk_eq(eng.z(st, eng.seq_at(st, v, z3.simplify(off + k))), eng.z(st, x)) for k, x in enumerate(w.items) if not isinstance(v, Lst) or k < len(v.items)])
        return [(st, Tm(c.out, z3.simplify(e)))]
    ety = eng.elem_ty(w)
    a, b, at, j = eng.z(st, v), eng.z(st, w), eng.T.at_f(ety), z3.Int('j')
    r = []
    for s, y in forks(eng, st, z3.And(n >= m, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < m), at(a, off + j) == at(b, j)), patterns=[at(b, j)]))):
        r.append((s, Tm(c.out, z3.BoolVal(y))))
    return r


@dep(r'^core::slice::<impl \[.*\]>::windows$', 'windows(n): the runs of n neighbours')
def windows(eng, st, c):
    v, m = load(eng, st, c.args[0]), lit(zl(eng, st, c.args[1]))
    if m is None or not 0 < m <= 4:
        raise Unsupported('windows')
    ety = eng.elem_ty(v)
    n = eng.seq_len(st, v)
    n = z3.simplify(z3.If(n >= m, n - (m - 1), z3.IntVal(0)))
    t = eng.T.peel(item_ty(eng, c.out))

    def none_(st):
        raise Unsupported('list of windows')
    if isinstance(v, Lst):
        return [(st, SIter(t, Lst(t, [Lst(ety, v.items[k:k + m]) for k in range(len(v.items) - m + 1)]), z3.IntVal(0), n))]
    return [(st, SIter(t, Sp('fn', t, lambda st, j: Lst(ety, [eng.seq_at(st, v, z3.simplify(j + k)) for k in range(m)]), none_, n), z3.IntVal(0), n))]


def subseq(eng, st, v, lo, hi, ty):
    ety = v.ety if isinstance(v, Lst) else eng.T.elem(v.ty)
    if isinstance(v, Lst) and lit(lo) is not None and lit(hi) is not None:
        return Lst(ety, v.items[lit(lo):lit(hi)])
    a, at = eng.z(st, v), eng.T.at_f(ety)
    return newseq(eng, st, ety, hi - lo, lambda j: at(a, lo + j), v.ty if isinstance(v, Tm) else ty)


@dep(r'^<std::vec::Vec<.*> as std::ops::Index<std::ops::Range(From|To|Inclusive|ToInclusive|Full)?(<usize>)?>>::index$|^core::slice::index::<impl std::ops::Index<std::ops::Range(From|To|Inclusive|ToInclusive|Full)?(<usize>)?> for \[.*\]>::index$', LQ)
def vecslice(eng, st, c):
    v = load(eng, st, c.args[0])
    if not isinstance(v, (Lst, Tm)) or isinstance(v, Tm) and eng.T.key(v.ty)[:4] != 'seq<':
        return None
    n = eng.seq_len(st, v)
    lo, hi = bounds(eng, st, c.args[1], n)
    r = []
    for s, ok in forks(eng, st, z3.simplify(z3.And(lo >= 0, lo <= hi, hi <= n))):
        r.append((s, subseq(eng, s, v, lo, hi, eng.T.peel(c.out)) if ok else Panic('slice out of bounds')))
    return r


@dep(r'^core::slice::<impl \[.*\]>::get::<std::ops::Range(From|To|Inclusive|ToInclusive|Full)?(<usize>)?>$', LQ)
def vecgetrange(eng, st, c):
    v = load(eng, st, c.args[0])
    if not isinstance(v, (Lst, Tm)):
        return None
    n = eng.seq_len(st, v)
    lo, hi = bounds(eng, st, c.args[1], n)
    return opt_fork(eng, st, c.out, z3.simplify(z3.And(lo >= 0, lo <= hi, hi <= n)), lambda s: subseq(eng, s, v, lo, hi, eng.T.peel(fld(eng, c.out, 'Some'))))


@dep(r'^core::slice::<impl \[.*\]>::(split_first|split_last)$', LQ)
def vecsplit1(eng, st, c):
    v = load(eng, st, c.args[0])
    if not isinstance(v, (Lst, Tm)):
        return None
    n = eng.seq_len(st, v)
    t = fld(eng, c.out, 'Some')
    fst = c.name.endswith('first')
    r = []
    for s, b in forks(eng, st, z3.simplify(n > 0)):
        if not b:
            r.append((s, none(eng, c.out)))
            continue
        x = eng.seq_at(s, v, z3.IntVal(0) if fst else z3.simplify(n - 1))
        w = subseq(eng, s, v, z3.IntVal(1) if fst else z3.IntVal(0), n if fst else n - 1, eng.T.peel(eng.T.info(t)['es'][1]))
        r.append((s, some(eng, c.out, Agg(t, 0, [x, w]))))
    return r
