"""JSON: the meaning of the ghost documents of roots/src/lib.rs, and the contracts on how the crate's
types are written to and read from JSON.  The derived (de)serialisation code itself is executed."""
import re
import z3
from sorts import Unsupported, strval, strlit, I, B, S
from engine import Tm, Agg, Lst, Ptr, Sp, Enter, TRUE, FALSE
from deps import dep, load, zl, variant, fld, json_of, target

J = z3.DeclareSort('json')
JNULL = z3.Const('json.null', J)
JBOOL = z3.Function('json.bool', B, J)
JINT = z3.Function('json.int', I, J)
JSTR = z3.Function('json.str', S, J)
EMPTY = z3.Const('json.empty', J)
PUT = z3.Function('json.put', S, J, J, J)
MERGE = z3.Function('json.merge', J, J, J)
ISOBJ = z3.Function('json.isobj', J, B)


def doc(eng, t, e):
    """the document the crate's code writes for value e of type t"""
    return z3.Function('doc<%s>' % eng.T.key(t), eng.T.sort(t), J)(e)


def gdoc(c, e, okty=None):
    return Tm(okty, e)


# ------------------------------------------------------------------ ghost functions
L = 'JSON documents: ghost constructors (null, booleans, integers, strings, objects with named members)'


@dep(r'^mirroots::ghost::outside::<', L)
def g_outside(eng, st, c):
    raise Unsupported('JSON feature without contract')


@dep(r'^mirroots::ghost::null$', L)
def g_null(eng, st, c):
    return [(st, Tm(c.out, JNULL))]


@dep(r'^mirroots::ghost::boolean$', L)
def g_bool(eng, st, c):
    return [(st, Tm(c.out, JBOOL(zl(eng, st, c.args[0]))))]


@dep(r'^mirroots::ghost::int$', L)
def g_int(eng, st, c):
    return [(st, Tm(c.out, JINT(zl(eng, st, c.args[0]))))]


@dep(r'^mirroots::ghost::string$', L)
def g_str(eng, st, c):
    return [(st, Tm(c.out, JSTR(zl(eng, st, c.args[0]))))]


@dep(r'^mirroots::ghost::raw$', L)
def g_empty(eng, st, c):
    return [(st, Tm(c.out, EMPTY))]


def extend(eng, st, c, f):
    p = target(eng, st, c.args[0])
    o = eng.read(st, p.cell, p.path)
    eng.write(st, p.cell, p.path, Tm(o.ty, f(o.e)))
    return [(st, eng.unit(c.out))]


@dep(r'^mirroots::ghost::put$', L)
def g_put(eng, st, c):
    k, d = zl(eng, st, c.args[1]), zl(eng, st, c.args[2])
    return extend(eng, st, c, lambda o: PUT(k, d, o))


@dep(r'^mirroots::ghost::put_doc$', L)
def g_putdoc(eng, st, c):
    k, d = zl(eng, st, c.args[1]), zl(eng, st, c.args[2])
    if not (z3.is_app(k) and k.decl().eq(JSTR)):
        raise Unsupported('member name that is not a string')
    return extend(eng, st, c, lambda o: PUT(k.arg(0), d, o))


@dep(r'^mirroots::ghost::object$', L)
def g_object(eng, st, c):
    return [(st, Tm(c.out, zl(eng, st, c.args[0])))]


# ------------------------------------------------------------------ writing
def writers(eng):
    """type key -> name of the function whose contract says how the type is written"""
    srv = eng.srv
    if not hasattr(srv, '_writers'):
        srv._writers = {}
        for n, i in srv.fns('.'):
            m = re.search(r'mirroots::write_\w+$', n)
            if i is not None and m:
                srv._writers[eng.T.key(srv.inst(i)['in'][0])] = n
    return srv._writers


@dep(r'<impl serde::Serialize for .*>::serialize::<mirroots::ghost::GSer>$|^<.* as serde::Serialize>::serialize::<mirroots::ghost::GSer>$',
     'serde writes a Vec as the list and a HashMap as the object of its elements, DateTime and serde_json::Value as documents of their own (functions of the value)')
def g_serialize(eng, st, c):
    t = eng.T.peel(c.info['in'][0])
    k = eng.T.key(t)
    if k == 'str' or c.info['name'].startswith('serde::') and eng.T.info(c.info['in'][0])['k'] == 'ref' and eng.T.inner(eng.T.info(c.info['in'][0])['e']) is not None:
        return None
    i = eng.T.info(t)
    if i['k'] == 'adt' and i['crate'] == 'openid4vci':
        w = writers(eng).get(k)
        fr = eng.srv.inst(c.fr.inst)['name']
        # a value inside a box of the same type is smaller: its document is assumed to be written as the contract says (induction)
        inside = w is not None and w == eng.own and 'for std::boxed::Box<' in fr
        if w is None or (w not in eng.contracts and not inside) or re.match(r'mirroots::(write|back|lean)_', fr):
            return None
        if not inside:
            eng.used_contracts.add(w)
    elif not (k[:4] == 'seq<' or k == 'time' or k.startswith('std::collections::HashMap') or k == 'serde_json::Value'):
        return None
    e = doc(eng, t, zl(eng, st, c.args[0]))
    return [(st, variant(eng, c.out, 'Ok', Tm(fld(eng, c.out, 'Ok'), e)))]


@dep(r'<impl serde::Serialize for (std::collections::HashMap<.*>|serde_json::Value)>::serialize::<serde::__private::ser::FlatMapSerializer<.*mirroots::ghost::GObj>>$|^<serde_json::Value as serde::Serialize>::serialize::<serde::__private::ser::FlatMapSerializer',
     'a flattened HashMap or serde_json::Value object adds its members to the object around it; a flattened Value that is no object and not null is an error')
def g_flat(eng, st, c):
    t = eng.T.peel(c.info['in'][0])
    d = doc(eng, t, zl(eng, st, c.args[0]))
    f = load(eng, st, c.args[1])
    p = f.fs[0] if isinstance(f, Agg) else None
    if not isinstance(p, Ptr):
        raise Unsupported('flattened into %r' % (f,))
    ok, er = fld(eng, c.out, 'Ok'), fld(eng, c.out, 'Err')
    r = []
    obj = TRUE if eng.T.key(t).startswith('std::coll') else ISOBJ(d)
    for s, b in eng.branch(st, obj):
        if b:
            q = target(eng, s, p)
            path = q.path + (('f', 0, None),)
            o = eng.read(s, q.cell, path)
            eng.write(s, q.cell, path, Tm(o.ty, MERGE(d, o.e)))
            r.append((s, variant(eng, c.out, 'Ok', eng.unit(ok))))
        else:
            for s2, n in eng.branch(s, d == JNULL):
                r.append((s2, variant(eng, c.out, 'Ok', eng.unit(ok)) if n else variant(eng, c.out, 'Err', eng.unit(er))))
    return r


# ------------------------------------------------------------------ reading
REST = z3.Function('json.members', J, J)            # the members of a flattened map, as one value
TEXT = z3.Function('json.text', J, S)
LR = 'JSON documents are read the way a serde data format presents them (ghost deserializer): kind of value, members one by one'


def is_doc(e):
    """type key and value of a document of an opaque value, or None"""
    if z3.is_app(e) and e.num_args() == 1 and e.decl().name().startswith('doc<'):
        return e.decl().name()[4:-1], e.arg(0)
    return None


def chain(e):
    """members of a document built by serialisation, first one first: [(name or None, value)]"""
    r = []
    while z3.is_app(e):
        if e.eq(EMPTY):
            return r[::-1]
        if e.decl().eq(PUT):
            r.append((e.arg(0), e.arg(1)))
            e = e.arg(2)
        elif e.decl().eq(MERGE):
            r.append((None, e.arg(0)))
            e = e.arg(1)
        else:
            break
    return None


def unchain(r):
    e = EMPTY
    for k, v in r:
        e = MERGE(v, e) if k is None else PUT(k, v, e)
    return e


def objects(eng):
    """types whose write contract says that they are written as objects"""
    srv = eng.srv
    if not hasattr(srv, '_objects'):
        import wire
        srv._objects = {k: n for k, n in writers(eng).items() if n in wire.OBJECTS}
    return srv._objects


def kind_of(eng, st, e):
    """[(state, kind)]"""
    e = z3.simplify(e)
    if e.eq(JNULL):
        return [(st, 'Null')]
    if chain(e) is not None:
        return [(st, 'Object')]
    d = is_doc(e)
    if d:
        k, x = d
        if k[:4] == 'seq<':
            return [(st, 'List')]
        if k.startswith('std::collections::HashMap'):
            return [(st, 'Object')]
        if k == 'time':
            return [(st, 'Text')]
        if k in objects(eng) and objects(eng)[k] in eng.contracts:
            eng.used_contracts.add(objects(eng)[k])
            return [(st, 'Object')]
        return [(st, 'Other')]
    if z3.is_app(e):
        if e.decl().eq(JSTR):
            return [(st, 'Text')]
        if e.decl().eq(JBOOL):
            return [(st, 'Bool')]
        if e.decl().eq(JINT):
            return [(s, 'Unsigned' if b else 'Signed') for s, b in eng.branch(st, e.arg(0) >= 0)]
    raise Unsupported('kind of document')


@dep(r'^mirroots::ghostde::kind$', LR)
def g_kind(eng, st, c):
    return [(s, variant(eng, c.out, k)) for s, k in kind_of(eng, st, zl(eng, st, c.args[0]))]


def payload(f, what):
    def g(eng, st, c):
        e = z3.simplify(zl(eng, st, c.args[0]))
        if not (z3.is_app(e) and e.decl().eq(f)):
            if what == 'text' and is_doc(e):
                return [(st, Tm(eng.T.peel(c.out), TEXT(e)))]
            raise Unsupported('payload of document')
        return [(st, eng.term(st, eng.T.peel(c.out), e.arg(0)))]
    return g


dep(r'^mirroots::ghostde::as_bool$', LR)(payload(JBOOL, 'bool'))
dep(r'^mirroots::ghostde::as_(u64|i64)$', LR)(payload(JINT, 'int'))
dep(r'^mirroots::ghostde::as_text$', LR)(payload(JSTR, 'text'))


@dep(r'^mirroots::ghostde::next$', LR)
def g_next(eng, st, c):
    p = target(eng, st, c.args[0])
    o = eng.read(st, p.cell, p.path)
    r = chain(z3.simplify(o.e))
    if r is None:
        raise Unsupported('members of document')
    if not r:
        return [(st, variant(eng, c.out, 'None'))]
    k, v = r[0]
    if k is None:
        # the members of a flattened map: none of them is named like a member of the type
        k = eng.fresh(S, 'other')
        st.assume(z3.Not(S.recognizer(0)(k)))
        v = REST(v)
    eng.write(st, p.cell, p.path, Tm(o.ty, unchain(r[1:])))
    t = fld(eng, c.out, 'Some')
    return [(st, variant(eng, c.out, 'Some', Agg(t, 0, [Tm(o.ty, JSTR(k)), Tm(o.ty, v)])))]


# ---- serde's buffered content: a document of its own
CONTENT = {}


def content_of(eng, t, d):
    s = eng.T.sort(t)
    return z3.Function('content', J, s)(d)


def of_content(eng, st, v):
    v = load(eng, st, v)
    if isinstance(v, Tm) and z3.is_app(v.e) and v.e.decl().name() == 'content':
        return v.e.arg(0)
    return None


@dep(r"^<serde::__private::de::Content<.*> as serde::Deserialize<.*>>::deserialize::<mirroots::ghostde::GDe>$", 'serde buffers any document unchanged (Content)')
def g_content(eng, st, c):
    d = eng.z(st, eng.step(st, load(eng, st, c.args[0]), ('f', 0, 0)))
    t = eng.T.peel(fld(eng, c.out, 'Ok'))
    return [(st, variant(eng, c.out, 'Ok', Tm(t, content_of(eng, t, d))))]


def source_doc(eng, st, v):
    """the document behind a deserializer value, or None"""
    v = load(eng, st, v)
    if not isinstance(v, Agg):
        return None
    n = eng.T.info(v.ty)['name']
    if n == 'mirroots::ghostde::GDe':
        return z3.simplify(eng.z(st, v.fs[0]))
    if n.endswith(('::ContentDeserializer', '::ContentRefDeserializer')):
        return of_content(eng, st, v.fs[0])
    return None


GDE = r'(mirroots::ghostde::GDe|serde::__private::de::content::Content(Ref)?Deserializer<.*>|serde::__private::de::Content(Ref)?Deserializer<.*>)'


@dep(r"^<.* as serde::Deserialize<.*>>::deserialize::<" + GDE + r">$|<impl serde::Deserialize<.*> for .*>::deserialize::<" + GDE + r">$",
     'serde reads a Vec, a HashMap, a DateTime and a serde_json::Value back as written, elements by the contracts of their types')
def g_deserialize(eng, st, c):
    d = source_doc(eng, st, c.args[0])
    if d is None:
        return None
    t = eng.T.peel(fld(eng, c.out, 'Ok'))
    k = eng.T.key(t)
    i = eng.T.info(t)
    x = is_doc(d)
    own = i['k'] == 'adt' and i['crate'] == 'openid4vci'
    std = k[:4] == 'seq<' or k == 'time' or k.startswith('std::collections::HashMap') or k == 'serde_json::Value'
    ok = lambda e: [(st, variant(eng, c.out, 'Ok', eng.term(st, t, e)))]
    if x and x[0] == k and (own or std):
        for key in crate_types(eng, t):
            b = readers(eng).get(key)
            if b is None or b not in eng.contracts:
                if own and key == k:
                    return None
                raise Unsupported('reading %s without contract' % key)
            eng.used_contracts.add(b)
        return ok(x[1])
    if std:
        if z3.is_app(d) and d.decl().eq(REST):
            raise Unsupported('members of a flattened map')
        r = []
        for s, kd in kind_of(eng, st, d):
            want = {'s': 'List', 't': 'Text'}.get(k[0], 'Object') if not k.startswith('s') or k[:4] == 'seq<' else 'Object'
            if k == 'serde_json::Value' or kd in (want, 'Other'):
                raise Unsupported('reading %s from another document' % k)
            r.append((s, variant(eng, c.out, 'Err', eng.sym(s, fld(eng, c.out, 'Err'), 'jerr'))))
        return r
    return None


def crate_types(eng, t, acc=None):
    """keys of the crate's types that occur in a type (not inside of one of them)"""
    acc = set() if acc is None else acc
    t = eng.T.peel(t)
    i = eng.T.info(t)
    if i['k'] == 'adt' and i['crate'] == 'openid4vci':
        acc.add(eng.T.key(t))
    elif i['k'] == 'adt':
        for a in i['args']:
            if isinstance(a, int):
                crate_types(eng, a, acc)
    return acc


def readers(eng):
    srv = eng.srv
    if not hasattr(srv, '_readers'):
        srv._readers = {}
        for n, i in srv.fns('.'):
            if i is not None and re.search(r'mirroots::back_\w+$', n):
                srv._readers[eng.T.key(srv.inst(i)['in'][0])] = n
    return srv._readers


@dep(r"^<" + GDE + r" as serde::Deserializer<.*>>::(deserialize_\w+|__deserialize_content)::<.*>$", 'serde reads buffered content as it reads the document')
def g_contentde(eng, st, c):
    v = load(eng, st, c.args[0])
    if not isinstance(v, Agg) or eng.T.info(v.ty)['name'].startswith('mirroots'):
        return None
    d = of_content(eng, st, v.fs[0])
    if d is None:
        return None
    m = re.search(r'>::(deserialize_\w+|__deserialize_content)::<', c.name).group(1)
    if m == '__deserialize_content':
        return [(st, variant(eng, c.out, 'Ok', load(eng, st, v.fs[0])))]
    ref, args = {'deserialize_option': ('ref_de_option', 1), 'deserialize_enum': ('ref_de_enum', 3), 'deserialize_newtype_struct': ('ref_de_newtype', 2),
                 'deserialize_ignored_any': ('ref_de_ignored', 1)}.get(m, ('ref_de_any', 1))
    vt = c.info['in'][-1]
    r = eng.srv.apply(ref, [vt])
    ds = eng.srv.inst(r)['in'][0]
    dt = eng.T.variants(ds)[0]['fields'][0]['ty']
    a = [Agg(ds, 0, [Tm(dt, d)])] + (c.args[1:] if ref == 'ref_de_enum' else [c.args[-1]])
    return [(st, Enter(r, a))]


@dep(r"^<std::collections::HashMap<.*> as serde::Deserialize<.*>>::deserialize::<serde::__private::de::FlatMapDeserializer<.*>>$|^serde::.*<impl serde::Deserialize<.*> for std::collections::HashMap<.*>>::deserialize::<serde::__private::de::FlatMapDeserializer<.*>>$",
     'a flattened HashMap takes the members nothing else took')
def g_flatmap(eng, st, c):
    v = load(eng, st, c.args[0])
    l = load(eng, st, v.fs[0])
    if not isinstance(l, Lst):
        raise Unsupported('flattened map')
    left = [x for x in l.items if not (isinstance(x, Agg) and x.v == eng.T.variant_index(x.ty, 'None'))]
    t = eng.T.peel(fld(eng, c.out, 'Ok'))
    ok = lambda e: [(st, variant(eng, c.out, 'Ok', Tm(t, e)))]
    if not left:
        return ok(no_members(eng, t))
    if len(left) == 1:
        d = of_content(eng, st, left[0].fs[0].fs[1])
        if d is not None and z3.is_app(d) and d.decl().eq(REST):
            x = is_doc(d.arg(0))
            if x and x[0] == eng.T.key(t):
                return ok(x[1])
    return [(st, variant(eng, c.out, 'Ok', eng.sym(st, t, 'members!%d' % next(eng.cnt))))]


def no_members(eng, t):
    return z3.Const('nomembers<%s>' % eng.T.key(t), eng.T.sort(t))


# ---- mutable iteration over a list of known length
LM = 'iter_mut yields the places of the elements in order'


@dep(r"^core::slice::<impl \[.*\]>::iter_mut$|^<&mut .*(Vec<.*>|\[.*\]) as std::iter::IntoIterator>::into_iter$|^(core|std)::slice::.*<impl std::iter::IntoIterator for &mut .*>::into_iter$", LM)
def itermut(eng, st, c):
    p = target(eng, st, c.args[0])
    v = eng.read(st, p.cell, p.path)
    if not isinstance(v, Lst):
        raise Unsupported('iter_mut')
    return [(st, Sp('ghost.itermut', p, 0, len(v.items)))]


@dep(r"^<std::slice::IterMut<.*> as std::iter::Iterator>::next$", LM)
def itermutnext(eng, st, c):
    q = target(eng, st, c.args[0])
    it = eng.read(st, q.cell, q.path)
    if not isinstance(it, Sp):
        raise Unsupported('iter_mut')
    p, k, n = it.d
    if k >= n:
        return [(st, variant(eng, c.out, 'None'))]
    eng.write(st, q.cell, q.path, Sp(it.kind, p, k + 1, n))
    t = fld(eng, c.out, 'Some')
    return [(st, variant(eng, c.out, 'Some', Ptr(p.cell, tuple(p.path) + (('i', z3.IntVal(k)),), eng.T.inner(t))))]


@dep(r"^<std::vec::Vec<.*> as std::ops::DerefMut>::deref_mut$|^std::vec::Vec::<.*>::as_mut_slice$", 'a mutable Vec is a slice of its elements')
def vecderefmut(eng, st, c):
    return [(st, c.args[0])]


@dep(r'^mirroots::ghostde::lean$', LR)
def g_lean(eng, st, c):
    r = chain(z3.simplify(zl(eng, st, c.args[0])))
    if r is None:
        raise Unsupported('members of document')
    return [(st, Tm(c.out, unchain([(k, v) for k, v in reversed(r) if not v.eq(JNULL)])))]
