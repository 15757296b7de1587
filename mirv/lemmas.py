"""Facts about texts, instantiated for the terms that occur in an obligation.  The functions on texts
are uninterpreted; every fact listed here holds of the std functions they stand for (lab/run.rs checks
the functions of lab/lab.rs, which rest on them, on random inputs)."""
import re
import z3
from sorts import I, B, S, CAT, pieces, strlit, strval, concat, LITS

LEN = z3.Function('str.bytelen', S, I)
N, SEG, REST = z3.Function('split.n', S, S, I), z3.Function('split.seg', S, S, I, S), z3.Function('split.rest', S, S, I, S)
RB, RA = z3.Function('rsplit.before', S, S, S), z3.Function('rsplit.after', S, S, S)
SW, EW, CT = (z3.Function('str.' + k, S, S, B) for k in ('starts_with', 'ends_with', 'contains'))
SP, SS = z3.Function('str.strip_prefix', S, S, S), z3.Function('str.strip_suffix', S, S, S)
CC = z3.Function('str.charcount', S, I)
RANK = z3.Function('str.rank', S, z3.RealSort())
CI = z3.Function('str.ci_eq', S, S, B)
DINT, DINV = z3.Function('display<int>', I, S), z3.Function('display<int>.inv', S, I)
CHS = z3.Function('char.str', I, S)
MAXLEN = 2**63 - 1
NUM = re.compile(r'^(0|-?[1-9][0-9]{0,40})\Z')
EMPTY = strval('')
Imp, And, Or, Not = z3.Implies, z3.And, z3.Or, z3.Not


def iv(n):
    return z3.IntVal(n)


def collect(es, seen, out):
    """ground applications in es, by name of the function"""
    todo = list(es)
    while todo:
        e = todo.pop()
        if z3.is_quantifier(e):
            todo.append(e.body())
            continue
        if not z3.is_app(e) or e.get_id() in seen:
            continue
        seen[e.get_id()] = e
        if e.num_args():
            todo.extend(e.children())
        elif e.decl().kind() != z3.Z3_OP_UNINTERPRETED:
            continue
        if e.sort() == S or e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.setdefault(e.decl().name() if e.decl().kind() == z3.Z3_OP_UNINTERPRETED else 'lit' if strlit(e) is not None else '?', []).append(e)


def ground(e, memo):
    r = memo.get(e.get_id())
    if r is None:
        r = z3.is_app(e) and all(ground(c, memo) for c in e.children())
        memo[e.get_id()] = r
    return r


def py_splits(l, p):
    return l.split(p)


ASCII_UP = {'str.upper': lambda l: l.upper(), 'str.lower': lambda l: l.lower(),
            'str.aupper': lambda l: ''.join(c.upper() if c < '\x80' else c for c in l),
            'str.alower': lambda l: ''.join(c.lower() if c < '\x80' else c for c in l)}


def instances(es, rounds=3, cap=4000):
    """lemma instances for the terms of es"""
    out, seen, memo, done = [], {}, {}, set()
    new = list(es)
    for _ in range(rounds):
        apps = {}
        collect(new, seen, apps)
        if not _:
            allapps = {}
        for k, v in apps.items():
            allapps.setdefault(k, []).extend(x for x in v if ground(x, memo))
        fresh = []

        def add(*fs):
            for f in fs:
                if f.get_id() not in done:
                    done.add(f.get_id())
                    keep.append(f)
                    fresh.append(f)
        keep = out
        one_round(allapps, add)
        if not fresh or len(out) > cap:
            break
        new = fresh
    return out


def one_round(A, add):
    get = lambda k: A.get(k, [])
    lits = {strlit(e): e for e in get('lit')}
    strs = {}
    for k, v in A.items():
        for e in v:
            if e.sort() == S:
                strs[e.get_id()] = e
            for ch in e.children():
                if ch.sort() == S and k.startswith(('str.', 'split.', 'rsplit.', 'display')):
                    strs[ch.get_id()] = ch
    strs = [strs[k] for k in sorted(strs)]
    cats = [e for e in strs if z3.is_app(e) and e.decl().eq(CAT)]
    # ---- length in bytes
    lens = get('str.bytelen')
    if lens or get('str.charcount'):
        for e in lens:
            x = e.arg(0)
            add(e >= 0, e <= MAXLEN, (e == 0) == (x == EMPTY))
        for c in cats:
            add(LEN(c) == LEN(c.arg(0)) + LEN(c.arg(1)))
        for l, e in lits.items():
            add(LEN(e) == len(l.encode()))
    for e in get('str.charcount'):
        x = e.arg(0)
        add(e >= 0, e <= LEN(x), (e == 0) == (x == EMPTY))
        for l, y in lits.items():
            add(CC(y) == len(l))
        if z3.is_app(x) and x.decl().eq(CAT):
            add(CC(x) == CC(x.arg(0)) + CC(x.arg(1)))
    # ---- concatenation: injective where a part is the same
    for i, a in enumerate(cats[:25]):
        for b in cats[:i]:
            add(Imp(And(a == b, a.arg(0) == b.arg(0)), a.arg(1) == b.arg(1)), Imp(And(a == b, a.arg(1) == b.arg(1)), a.arg(0) == b.arg(0)))
            x, y = pieces(a), pieces(b)
            if len(x) == len(y) == 3 and strlit(x[1]) and x[1].eq(y[1]) and len(strlit(x[1])) == 1:
                # a c b with no c in a: determined
                s = x[1]
                add(Imp(And(a == b, N(x[0], s) == 1, N(y[0], s) == 1), And(x[0] == y[0], x[2] == y[2])))
    for l, e in lits.items():
        for a in cats[:40]:
            x = pieces(a)
            p, q = strlit(x[0]), strlit(x[-1])
            if p is not None and not l.startswith(p) or q is not None and not l.endswith(q):
                add(a != e)
            elif p is not None:
                add((a == e) == (concat(*x[1:]) == strval(l[len(p):])))
            elif q is not None and l != '':
                add((a == e) == (concat(*x[:-1]) == strval(l[:len(l) - len(q)])))
            if l == '':
                add((a == e) == And(*[y == e for y in x]))
    # ---- letter case, trimming
    for k, f in ASCII_UP.items():
        for e in get(k):
            add(e.decl()(e) == e, (e == EMPTY) == (e.arg(0) == EMPTY))
            if k in ('str.aupper', 'str.alower'):
                add(LEN(e) == LEN(e.arg(0)))
        if get(k):
            d = get(k)[0].decl()
            for l, e in lits.items():
                if l.isascii():
                    add(d(e) == strval(f(l)))
    for e in get('str.ci_eq'):
        low = strlit(e.arg(1))
        if low is not None:
            for l, x in lits.items():
                add(CI(x, e.arg(1)) == z3.BoolVal(''.join(c.lower() if c < '\x80' else c for c in l) == low))
            add(Imp(e, LEN(e.arg(0)) == len(low.encode())))
    for k in ('str.trim', 'str.trim_start', 'str.trim_end'):
        for e in get(k):
            x = e.arg(0)
            if e.num_args() == 1 and x.decl().name() != k:
                add(e.decl()(e) == e, LEN(e) <= LEN(x), Imp(LEN(e) == LEN(x), e == x))
                for l, y in lits.items():
                    if l.isascii():
                        ws = '\t\n\x0b\x0c\r '
                        add(e.decl()(y) == strval({'str.trim': l.strip(ws), 'str.trim_start': l.lstrip(ws), 'str.trim_end': l.rstrip(ws)}[k]))
    for k, h in (('str.trim_start_matches', SW), ('str.trim_left_matches', SW), ('str.trim_end_matches', EW), ('str.trim_right_matches', EW), ('str.trim_matches', None)):
        for e in get(k):
            x, p = e.arg(0), e.arg(1)
            if strlit(p):
                add(LEN(e) <= LEN(x), Imp(Not(Or(SW(x, p), EW(x, p)) if h is None else h(x, p)), e == x))
                if h is not None:
                    add(Not(h(e, p)))
                    c = SP(x, p) if h is SW else SS(x, p)
                    add(Imp(h(x, p), e == e.decl()(c, p)) if x.decl().name() not in ('str.strip_prefix', 'str.strip_suffix') else Imp(And(h(x, p), Not(h(c, p))), e == c))
    # ---- prefixes and suffixes
    for k, h, st, pre in (('str.starts_with', SW, SP, True), ('str.ends_with', EW, SS, False)):
        for e in get(k):
            s, p = e.arg(0), e.arg(1)
            r = st(s, p)
            if strlit(s) is not None and strlit(p) is not None:
                l, q = strlit(s), strlit(p)
                add(e == z3.BoolVal(l.startswith(q) if pre else l.endswith(q)))
                continue
            add(Imp(e, s == (concat(p, r) if pre else concat(r, p))))
            add(Imp(e, LEN(s) == LEN(p) + LEN(r)), Imp(And(e, LEN(s) == LEN(p)), s == p), Imp(s == p, e), Imp(p == EMPTY, e))
            if strlit(p) is not None:
                q = strlit(p)
                for l, y in lits.items():
                    add(Imp(s == y, e == z3.BoolVal(l.startswith(q) if pre else l.endswith(q))))
            for c in cats[:40]:
                x = pieces(c)
                for n in range(1, len(x)):
                    part = concat(*x[:n]) if pre else concat(*x[-n:])
                    if part.eq(p):
                        rest = concat(*x[n:]) if pre else concat(*x[:-n])
                        add(h(c, p), st(c, p) == rest)
                l, q = strlit(x[0] if pre else x[-1]), strlit(p)
                if l is not None and q is not None:
                    m = min(len(l), len(q))
                    if pre and l[:m] != q[:m] or not pre and l[len(l) - m:] != q[len(q) - m:]:
                        add(Not(h(c, p)))
                    elif len(q) <= len(l):
                        add(h(c, p), st(c, p) == (concat(*([strval(l[m:])] + x[1:])) if pre else concat(*(x[:-1] + [strval(l[:len(l) - m])]))))
        for e in get(k.replace('starts_with', 'strip_prefix').replace('ends_with', 'strip_suffix')):
            s, p = e.arg(0), e.arg(1)
            add(Imp(h(s, p), s == (concat(p, e) if pre else concat(e, p))))
    # two prefixes that are literals
    for h, k, pre in ((SW, 'str.starts_with', True), (EW, 'str.ends_with', False)):
        by = {}
        for e in get(k):
            if strlit(e.arg(1)) is not None:
                by.setdefault(e.arg(0).get_id(), []).append(e)
        for v in by.values():
            for a in v:
                for b in v:
                    p, q = strlit(a.arg(1)), strlit(b.arg(1))
                    if a is b:
                        continue
                    if (q.startswith(p) if pre else q.endswith(p)):
                        add(Imp(b, a))
                    elif not (p.startswith(q) if pre else p.endswith(q)):
                        add(Not(And(a, b)))
    for e in get('str.contains'):
        s, p = e.arg(0), e.arg(1)
        add(Imp(Or(s == p, p == EMPTY, SW(s, p), EW(s, p)), e), Imp(e, LEN(s) >= LEN(p)))
        if strlit(p):
            add(e == (N(s, p) >= 2))
    # ---- splitting
    pairs = {}
    for k in ('split.n', 'split.seg', 'split.rest', 'rsplit.before', 'rsplit.after', 'str.find', 'str.rfind'):
        for e in get(k):
            t = pairs.setdefault((e.arg(0).get_id(), e.arg(1).get_id()), [e.arg(0), e.arg(1), 0])
            if k in ('split.seg', 'split.rest') and z3.is_int_value(e.arg(2)):
                t[2] = max(t[2], e.arg(2).as_long())
    seps = {}
    for s, p, top in list(pairs.values()):
        seps.setdefault(p.get_id(), p)
    for p in seps.values():
        q = strlit(p)
        if not q:
            continue
        for l, e in lits.items():
            ps = l.split(q)
            add(N(e, p) == len(ps))
            for k, x in enumerate(ps[:4]):
                add(SEG(e, p, iv(k)) == strval(x), REST(e, p, iv(k)) == strval(q.join(ps[k:])))
    for s, p, top in list(pairs.values()):
        q = strlit(p)
        n = N(s, p)
        add(n >= 1)
        if q == '' or q is None:
            continue
        if s.decl().name() == 'split.rest' and strlit(s.arg(1)) == q and top <= 3:
            # the rest of a text has its remaining segments
            b, j = s.arg(0), s.arg(2)
            if z3.is_int_value(j) and j.as_long() <= 4:
                j = j.as_long()
                add(Imp(N(b, p) > j, n == N(b, p) - j))
                for k in range(min(top, 3) + 1):
                    add(Imp(N(b, p) > j + k, And(SEG(s, p, iv(k)) == SEG(b, p, iv(k + j)), REST(s, p, iv(k)) == REST(b, p, iv(k + j)))))
        add(REST(s, p, iv(0)) == s)
        for k in range(min(top, 3) + 1):
            a, r = SEG(s, p, iv(k)), REST(s, p, iv(k))
            add(Imp(n == k + 1, r == a), Imp(n > k + 1, r == CATN(a, p, REST(s, p, iv(k + 1)))))
            add(Imp(n > k, And(N(a, p) == 1, N(r, p) == n - k)))
        if len(q) == 1:
            c = pieces(s)
            if len(c) > 1:
                add(n == z3.Sum([N(x, p) for x in c]) - (len(c) - 1))
                split_concat(c, p, q, s, add)
        x = z3.is_app(s) and s.decl().name()
        if x == 'display<int>' and not set(q) <= set('-0123456789'):
            add(n == 1)
        if x == 'char.str' and len(q) == 1:
            add(n == z3.If(s.arg(0) == ord(q), iv(2), iv(1)))
        if x in ('split.seg',) and strlit(s.arg(1)) is not None and len(q) == 1 and strlit(s.arg(1)) != q:
            add(n <= N(s.arg(0), p))
    for e in get('rsplit.before'):
        s, p = e.arg(0), e.arg(1)
        if strlit(p):
            add(Imp(N(s, p) >= 2, s == CATN(e, p, RA(s, p))))
    for e in get('str.replace'):
        s, p, q = (e.arg(k) for k in range(3))
        add(Imp(N(s, p) == 1, e == s))
        if strlit(p) and strlit(q) is not None:
            l, m = strlit(p), strlit(q)
            if len(l) == 1 and l not in m:
                add(N(e, p) == 1)
            add(LEN(e) == LEN(s) + (N(s, p) - 1) * (len(m.encode()) - len(l.encode())))
            for y, ye in lits.items():
                add(e.decl()(ye, p, q) == strval(y.replace(l, m)))
    for e in get('str.repeat'):
        s, k = e.arg(0), e.arg(1)
        add(Imp(k == 0, e == EMPTY), Imp(k == 1, e == s), Imp(k == 2, e == concat(s, s)))
        if z3.is_int_value(k):
            add(LEN(e) == LEN(s) * k)
    # ---- order
    rs = get('str.rank')
    if rs:
        for i, a in enumerate(rs):
            for b in rs[:i]:
                add(Imp(a == b, a.arg(0) == b.arg(0)))
            add(a >= RANK(EMPTY))
        ls = sorted(lits.items(), key=lambda x: x[0].encode())
        for (l, a), (m, b) in zip(ls, ls[1:]):
            add(RANK(a) < RANK(b))
    # ---- decimal numbers
    ds = get('display<int>')
    for e in ds:
        add(DINV(e) == e.arg(0), e != EMPTY)
        for l, y in lits.items():
            if NUM.match(l):
                add((e == y) == (e.arg(0) == int(l)))
            else:
                add(e != y)
    for k, neg in (('int.text', 0), ('int.text.neg', 1)):
        for e in get(k):
            f = e.decl()
            for d in ds:
                add(f(d) == (d.arg(0) >= 0) if not neg else f(d))
            for l, y in lits.items():
                m = re.match(r'([+-]?)[0-9]+\Z', l)
                add(f(y) == bool(m and (neg or m.group(1) != '-')))
                if m:
                    add(DINV(y) == int(l))
    cs = get('char.str')
    for i, e in enumerate(cs):
        add(CC(e) == 1, LEN(e) >= 1, LEN(e) <= 4)
        for b in cs[:i]:
            add(Imp(e == b, e.arg(0) == b.arg(0)))
        for l, y in lits.items():
            add((e == y) == (e.arg(0) == ord(l)) if len(l) == 1 else e != y)


def CATN(a, p, b):
    return concat(a, p, b)


def split_concat(c, p, q, s, add):
    """first separator of a concatenation that comes after pieces without one"""
    pre, cond = [], []
    for k, x in enumerate(c):
        l = strlit(x)
        if l is not None and q in l:
            i = l.index(q)
            a = concat(*(pre + [strval(l[:i])]))
            b = concat(*([strval(l[i + 1:])] + c[k + 1:]))
            f = And(N(s, p) >= 2, SEG(s, p, iv(0)) == a, REST(s, p, iv(1)) == b, N(b, p) == N(s, p) - 1, SEG(s, p, iv(1)) == SEG(b, p, iv(0)))
            add(Imp(And(*cond), f) if cond else f)
            return
        if l is None:
            cond.append(N(x, p) == 1)
        pre.append(x)
