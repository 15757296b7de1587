"""The contracts: one per function, clauses tagged with the properties they express."""
import z3
from z3 import And, Or, Not, Implies, If
from sorts import strval, concat, I, B, S, Unsupported
from spec import V, Fn, Clone, Eq, same_seq, conj
from engine import TRUE, FALSE
import deps
from deps import TMIN, TMAX, NS

C = 'openid4vci::'
REG = {}


def fn(name, props=(), **kw):
    def deco(f):
        REG[name] = Fn(name, f, props, **kw)
        return f
    return deco


MAXPIN = 99999999


# =============================================================== specification functions
class Spec:
    """logical functions the specifications are written in; they name the same dependency
    functions (base64, JSON parsing, DID documents, keys) as the dependency contracts do"""
    def __init__(self, eng):
        self.eng = eng
        srv = eng.srv
        i = next(i for n, i in srv.fns('.') if n.endswith('mirroots::spec_types') and i is not None)
        self.ty = {}
        for t in srv.inst(i)['in']:
            t = eng.T.peel(t)
            inf = srv.ty(t)
            self.ty[inf['name'].split('::')[-1] if inf['k'] == 'adt' else inf['s']] = t
            self.ty[eng.T.key(t)] = t
        if not hasattr(srv, '_b64cfg'):
            j = next(i for n, i in srv.fns('.') if n.endswith('mirroots::ref_b64_engine') and i is not None)
            srv._b64cfg = j

    def v(self, key, e):
        return V(self.eng, self.ty[key], e)

    def uf(self, name, doms, rng, *args):
        return z3.Function(name, *doms, rng)(*args)

    @property
    def cfg(self):
        """the base64 engine URL_SAFE_NO_PAD"""
        from engine import State
        eng = self.eng
        if not hasattr(eng, '_cfg'):
            st = State()
            args, outs = eng.run_function(eng.srv._b64cfg, st=st)
            eng._cfg = z3.simplify(eng.z(outs[0].st, outs[0].val))
        return eng._cfg

    # strings
    def nseg(self, s): return self.uf('split.n', [S, S], I, s, strval('.'))
    def seg(self, s, k): return self.uf('split.seg', [S, S, I], S, s, strval('.'), z3.IntVal(k))
    def rest(self, s, k): return self.uf('split.rest', [S, S, I], S, s, strval('.'), z3.IntVal(k))
    def ci(self, s, low): return self.eng.ci(s.e if isinstance(s, V) else s, low)

    # bytes and base64url
    @property
    def bytes(self): return self.eng.T.sort(self.ty['seq<int>'])
    def utf8(self, s): return self.uf('utf8', [S], self.bytes, s)
    def text(self, b): return self.uf('utf8.inv', [self.bytes], S, b)
    def dec_ok(self, s): return self.uf('b64.dec.ok', [self.cfg.sort(), S], B, self.cfg, s)
    def dec(self, s): return self.uf('b64.dec', [self.cfg.sort(), S], self.bytes, self.cfg, s)
    def enc(self, s): return self.uf('b64.enc', [self.cfg.sort(), S], S, self.cfg, s)

    # JSON
    def json(self, v): return self.uf('json<%s>' % self.eng.T.key(v.ty), [v.e.sort()], S, v.e)
    def parse_ok(self, key, text): return self.uf('fromjson.ok<%s>' % key, [S], B, text)
    def parse(self, key, text):
        return self.v(key, self.uf('fromjson<%s>' % key, [S], self.eng.T.sort(self.ty[key]), text))

    # DID documents and keys
    def did_ok(self, s): return self.uf('did_url.ok', [S], B, s)
    def did(self, s): return self.v('DIDURL', self.uf('did_url', [S], self.eng.T.sort(self.ty['DIDURL']), s))
    def select_ok(self, d, u): return self.uf('select_object.ok', [d.e.sort(), u.e.sort()], B, d.e, u.e)
    def select(self, d, u):
        r = self.ty['Resource']
        return V(self.eng, r, self.uf('select_object', [d.e.sort(), u.e.sort()], self.eng.T.sort(r), d.e, u.e))
    def jwk_ok(self, m): return self.uf('get_jwk.ok', [m.e.sort()], B, m.e)
    def jwk(self, m): return self.v('JWK', self.uf('get_jwk', [m.e.sort()], self.eng.T.sort(self.ty['JWK']), m.e))

    def key_ok(self, jwk):
        """EdDSA-type key: octet key pair, or elliptic curve with algorithm EdDSA and an x coordinate"""
        p = jwk.f('params')
        return Or(p.is_('OKP'), And(p.is_('EC'), self.is_eddsa(jwk), p.f(0, 'EC').f('x_coordinate').is_some))

    def is_eddsa(self, jwk):
        o = self.ty['Option']
        a = V(self.eng, o, self.uf('jwk.alg', [jwk.e.sort()], self.eng.T.sort(o), jwk.e))
        return And(a.is_some, a.val.is_('EdDSA'))

    def key(self, jwk):
        p = jwk.f('params')
        return If(p.is_('OKP'), p.f(0, 'OKP').f('public_key').f(0).e, p.f(0, 'EC').f('x_coordinate').val.f(0).e)


JH, JB = C + 'jwt::ProofJwtHeader', C + 'jwt::ProofJwtBody'


class Jwt:
    """the proof JWT that the text s encodes"""
    def __init__(self, sp, s):
        self.sp, self.s = sp, s
        self.n = sp.nseg(s)
        self.s0, self.s1, self.s2 = sp.seg(s, 0), sp.seg(s, 1), sp.seg(s, 2)
        self.h0, self.b0 = sp.text(sp.dec(self.s0)), sp.text(sp.dec(self.s1))
        self.header, self.body = sp.parse(JH, self.h0), sp.parse(JB, self.b0)
        self.ok = And(Or(self.n == 2, self.n == 3), sp.dec_ok(self.s0), sp.dec_ok(self.s1),
                      sp.parse_ok(JH, self.h0), sp.parse_ok(JB, self.b0))
        self.signed = self.n == 3


FORBIDDEN_ALGS = ('None', 'HS256', 'HS384', 'HS512')


def header_ok(sp, h):
    return And(sp.ci(h.f('typ'), 'openid4vci-proof+jwt'), *[Not(h.f('alg').is_(a)) for a in FORBIDDEN_ALGS])


class Key:
    """what the header's key id names in a DID document"""
    def __init__(self, sp, header, doc):
        ah = header.f('additional_header')
        self.kid = And(ah.is_some, ah.val.is_('KeyId'))
        self.k = ah.val.f(0, 'KeyId').e
        self.did = sp.did(self.k)
        self.did_ok = sp.did_ok(self.k)
        res = sp.select(doc.val, self.did)
        self.vm = res.f(0, 'VerificationMethod')
        self.jwk = sp.jwk(self.vm)
        self.found = And(self.kid, self.did_ok, doc.is_some, sp.select_ok(doc.val, self.did), sp.jwk_ok(self.vm))
        self.ok = And(self.found, sp.key_ok(self.jwk))
        self.key = sp.key(self.jwk)
        self.raw = And(ah.is_some, ah.val.is_('Jwk'))
        self.rawtext = ah.val.f(0, 'Jwk').e


def proof_ok(sp, proof):
    """type, form, header type and algorithm of a request's proof"""
    j = Jwt(sp, proof.f('jwt').e)
    return And(sp.ci(proof.f('proof_type'), 'jwt'), j.ok, header_ok(sp, j.header))


def unique_ids(m):
    cs = m.f('credentials_supported')
    eng = m.eng
    a, b = z3.Int('a?%d' % next(eng.cnt)), z3.Int('b?%d' % next(eng.cnt))
    ia, ib = cs.at(a).f('id'), cs.at(b).f('id')
    return z3.ForAll([a, b], Implies(And(a >= 0, a < b, b < cs.len), Not(And(ia.is_some, ib.is_some, ia.val.e == ib.val.e))))


def valid_metadata(m):
    """issuer metadata whose ids are unique (named predicate; its definition is unique_ids)"""
    return z3.Function('metadata.ids_unique', m.e.sort(), B)(m.e)


# =============================================================== token requests: C01 C02 C03
class Token:
    def __init__(self, cx, offer=True):
        self.req = cx[0]
        g = self.req.f('grant_type')
        self.pre = g.is_('PreAuthorizedCodeFlow')
        self.auth = g.is_('AuthorizedCodeFlow')
        self.code = g.f('pre_authorized_code', 'PreAuthorizedCodeFlow')
        self.pin = g.f('user_pin', 'PreAuthorizedCodeFlow')
        if offer:
            self.offer = cx[1]
            self.grants = self.offer.val.f('grants')
            self.og_pre = self.grants.f('pre_authorized_code_flow')
            self.og_auth = self.grants.f('authorized_code_flow')
            self.ocode = self.og_pre.val.f('code')
            r = self.og_pre.val.f('user_pin_required')
            self.required = And(r.is_some, r.val.e)
            self.opts = cx[2]
            self.exp = self.opts.val.f('expected_user_pin')
            self.expects = And(self.opts.is_some, self.exp.is_some)
        self.toolong = And(self.pre, self.pin.is_some, self.pin.val.e > MAXPIN)

    def accept(self):
        return And(self.pre, self.offer.is_some, self.og_pre.is_some, self.code == self.ocode,
                   self.pin.is_some == self.required, Not(self.toolong),
                   Implies(self.pin.is_some, And(self.expects, self.pin.val == self.exp.val)))

    def cause(self, e, depth=1):
        """the error e names a cause that is true of the inputs"""
        s, d = e.f('should_pin_be_supplied', 'InvalidPreAuthorizedCodeFlowValues'), e.f('does_code_match', 'InvalidPreAuthorizedCodeFlowValues')
        cs = {
            'ValidationError': self.toolong,
            'AuthorizedFlowNotSupported': self.auth,
            'UserPinMismatch': And(self.pre, self.pin.is_some, self.expects, self.pin.val.e != self.exp.val.e),
            'OptionsAreRequiredForEvaluation': And(self.pre, self.pin.is_some, Not(self.expects)),
            'CredentialOfferMustBeSupplied': self.offer.is_none,
            'NoFlowSupportedInCredentialOffer': And(self.offer.is_some, self.og_pre.is_none, self.og_auth.is_none),
            'InvalidPreAuthorizedCodeFlowValues': And(
                self.pre, self.offer.is_some, self.og_pre.is_some, s.e == self.required, d.e == (self.code == self.ocode),
                Or(Not(d.e), self.pin.is_some != s.e)),
            'InvalidGrantType': And(self.offer.is_some, self.og_auth.is_some, self.pre),
        }
        if depth:
            n = 'InvalidAuthorizedAndPreAuthorizedCodeFlow'
            pe, ae = e.f('pre_authorized_error', n), e.f('authorized_error', n)
            cs[n] = And(self.offer.is_some, self.og_auth.is_some, self.og_pre.is_some, self.cause(pe, 0), self.cause(ae, 0), Not(pe.is_('InvalidGrantType')))
        return And(*[Implies(e.is_(k), c) for k, c in cs.items()], *( [] if depth else [Not(e.is_('InvalidAuthorizedAndPreAuthorizedCodeFlow'))]))


for n in ('access_token::GrantType', 'access_token::AccessTokenRequest'):
    def _c(cx, n=n):
        g = cx[0] if n.endswith('GrantType') else cx[0].f('grant_type')
        pin = g.f('user_pin', 'PreAuthorizedCodeFlow')
        long = And(g.is_('PreAuthorizedCodeFlow'), pin.is_some, pin.val.e > MAXPIN)
        return [('rejected exactly for a PIN of more than 8 digits', ('C02',), cx.ret.is_ok == Not(long))]
    fn('<%s%s as openid4vci::validate::Validatable>::validate' % (C, n), ('C02',))(_c)


@fn(C + 'access_token::AccessToken::evaluate_access_token_request', ('C01', 'C02', 'C03'))
def _(cx):
    t = Token(cx)
    r = cx.ret
    return [
        ('accepted only when every condition holds', ('C01',), Implies(r.is_ok, t.accept())),
        ('accepted whenever every condition holds', ('C01',), Implies(t.accept(), r.is_ok)),
        ('a PIN of more than 8 digits is never accepted', ('C02',), Implies(t.toolong, r.is_err)),
        ('no PIN of at most 8 digits fails validation', ('C02', 'C03'), Implies(And(r.is_err, r.err.is_('ValidationError')), t.toolong)),
        ('the rejection names a true cause', ('C03',), Implies(r.is_err, t.cause(r.err))),
    ]


# =============================================================== proof JWTs: C06 C07 C08 C09 C11 C12 C22
P = C + 'jwt::ProofJwt::'


@fn('<%sjwt::ProofJwt as std::str::FromStr>::from_str' % C, ('C12',))
def _(cx):
    sp = Spec(cx.eng)
    j = Jwt(sp, cx[0].e)
    r = cx.ret
    v = r.ok
    return [
        ('a text that is not two or three segments with encoded header and body is rejected', ('C12',), Implies(r.is_ok, j.ok)),
        ('two or three segments with encoded header and body are accepted', ('C12',), Implies(j.ok, r.is_ok)),
        ('the header is the decoded first segment', ('C12',), Implies(r.is_ok, v.f('header') == j.header)),
        ('the body is the decoded second segment', ('C12',), Implies(r.is_ok, v.f('body') == j.body)),
        ('the signature is the third segment', ('C12', 'C09'), Implies(r.is_ok, And(
            v.f('signature').is_some == j.signed, Implies(j.signed, v.f('signature').val.e == j.s2)))),
    ]


@fn(P + 'verify', ('C07',))
def _(cx):
    b = cx[0].f('body')
    nbf, exp, r = b.f('not_before'), b.f('expires_at'), cx.ret
    e = r.err
    return [
        ('no proof from the future is verified', ('C07',), Implies(And(r.is_ok, nbf.is_some), nbf.val.e <= cx.t1)),
        ('no expired proof is verified', ('C07',), Implies(And(r.is_ok, exp.is_some), exp.val.e > cx.t0)),
        ('a proof inside its window verifies', ('C07', 'C10'), Implies(And(
            Implies(nbf.is_some, nbf.val.e <= cx.t0), Implies(exp.is_some, exp.val.e > cx.t1)), r.is_ok)),
        ('not yet valid is true and names the claim', ('C07',), Implies(And(r.is_err, e.is_('NotYetValid')), And(
            nbf.is_some, e.f('valid_from', 'NotYetValid') == nbf.val, nbf.val.e > cx.t0))),
        ('not valid anymore is true and names the claim', ('C07',), Implies(And(r.is_err, e.is_('NotValidAnymore')), And(
            exp.is_some, e.f('valid_until', 'NotValidAnymore') == exp.val, exp.val.e <= cx.t1))),
        ('no other reason', ('C07',), Implies(r.is_err, Or(e.is_('NotYetValid'), e.is_('NotValidAnymore')))),
    ]


@fn(P + 'extract_did', ('C08', 'C11'))
def _(cx):
    sp = Spec(cx.eng)
    ah, r = cx[0].f('header').f('additional_header'), cx.ret
    k = ah.val.f(0, 'KeyId').e
    kid = And(ah.is_some, ah.val.is_('KeyId'))
    return [
        ('nothing without key header', ('C11',), Implies(ah.is_none, And(r.is_ok, r.ok.is_none))),
        ('a key id yields its DID part', ('C08', 'C11'), Implies(kid, And(
            r.is_ok == sp.did_ok(k), Implies(r.is_ok, And(r.ok.is_some, r.ok.val.e == sp.did(k).f('did').e))))),
        ('raw keys and certificate chains are refused', ('C08', 'C11'), Implies(And(ah.is_some, Not(ah.val.is_('KeyId'))), r.is_err)),
    ]


for n, hdr in ((P + 'extract_key_and_alg', True), (JH + '::extract_key_and_alg', False)):
    def _c(cx, hdr=hdr):
        sp = Spec(cx.eng)
        h = cx[0].f('header') if hdr else cx[0]
        k = Key(sp, h, cx[1])
        rk = sp.parse('ssi_jwk::JWK', k.rawtext)
        r = cx.ret
        rawok = And(k.raw, sp.parse_ok('ssi_jwk::JWK', k.rawtext), sp.key_ok(rk))
        return [
            ('a key id is accepted only if it names a supported key', ('C08', 'C22'), Implies(And(r.is_ok, k.kid), k.ok)),
            ('a supported key that a key id names is found', ('C22', 'C10'), Implies(k.ok, r.is_ok)),
            ('the key is the one the key id names', ('C08', 'C22'), Implies(And(r.is_ok, k.kid), r.ok.f(0).e == k.key)),
            ('the algorithm is that of the header', ('C08', 'C22'), Implies(r.is_ok, r.ok.f(1) == h.f('alg'))),
            ('other key headers only for a supported raw key', ('C22',), Implies(And(r.is_ok, Not(k.kid)), And(rawok, r.ok.f(0).e == sp.key(rk)))),
        ]
    fn(n, ('C08', 'C22'))(_c)


@fn(JH + '::jwk_to_public_key_bytes', ('C22',))
def _(cx):
    sp = Spec(cx.eng)
    r = cx.ret
    return [
        ('only EdDSA-type keys are extracted', ('C22',), Implies(r.is_ok, sp.key_ok(cx[0]))),
        ('every EdDSA-type key is extracted', ('C22', 'C10'), Implies(sp.key_ok(cx[0]), r.is_ok)),
        ('the key is the x coordinate', ('C22', 'C08'), Implies(r.is_ok, r.ok.e == sp.key(cx[0]))),
    ]


def unencoded(sp, h, b):
    return concat(sp.json(h), strval('.'), sp.json(b))


# KNOWN DEVIATION (C09): the message handed out is the unencoded JSON of header and body instead of
# the transmitted segments, and an unsigned proof yields whatever follows the second dot of that text
@fn('<&%sjwt::ProofJwt as std::convert::TryInto<std::string::String>>::try_into' % C, ())
def _(cx):
    sp = Spec(cx.eng)
    v = cx[0]
    sig = v.f('signature')
    j = unencoded(sp, v.f('header'), v.f('body'))
    return [('header, body and signature joined by dots', ('C09',), And(cx.ret.is_ok, cx.ret.ok.e == If(
        sig.is_some, concat(sp.json(v.f('header')), strval('.'), sp.json(v.f('body')), strval('.'), sig.val.e), j)))]


@fn(P + 'to_signable_message', ('C09',))
def _(cx):
    sp = Spec(cx.eng)
    v = cx[0]
    return [('the message is that of header and body', ('C09', 'C10'), And(
        cx.ret.is_ok, cx.ret.ok.e == sp.utf8(unencoded(sp, v.f('header'), v.f('body')))))]


@fn(P + 'extract_signature', ('C09',))
def _(cx):
    sp = Spec(cx.eng)
    v = cx[0]
    sig, r = v.f('signature'), cx.ret
    j = unencoded(sp, v.f('header'), v.f('body'))
    return [
        ('the signature is the third segment', ('C09', 'C10'), Implies(sig.is_some, And(r.is_ok, r.ok.e == sp.utf8(sig.val.e)))),
        ('without signature only what follows the second dot (known deviation)', ('C09',), Implies(And(sig.is_none, r.is_ok), And(
            sp.nseg(j) >= 3, r.ok.e == sp.utf8(sp.rest(j, 2))))),
    ]


@fn(P + 'check_nonce', ('C04',))
def _(cx):
    n = cx[0].f('body').f('nonce')
    return [('accepted only for the expected nonce', ('C04',), Implies(cx.ret.is_ok, And(cx[1].is_some, cx[1].val == n))),
            ('the expected nonce is accepted', ('C10',), Implies(And(cx[1].is_some, cx[1].val == n), cx.ret.is_ok))]


@fn(P + 'check_iss', ('C05',))
def _(cx):
    return [('accepted only for the expected issuer claim', ('C05',), Implies(cx.ret.is_ok, cx[0].f('body').f('issuer') == cx[1])),
            ('the expected issuer claim is accepted', ('C10',), Implies(cx[0].f('body').f('issuer') == cx[1], cx.ret.is_ok))]


@fn(P + 'check_aud', ('C05',))
def _(cx):
    return [('accepted only for the expected audience', ('C05',), Implies(cx.ret.is_ok, cx[0].f('body').f('audience') == cx[1])),
            ('the expected audience is accepted', ('C10',), Implies(cx[0].f('body').f('audience') == cx[1], cx.ret.is_ok))]


VAL = ' as openid4vci::validate::Validatable>::validate'


def validate(ty, props=()):
    return fn('<' + C + ty + VAL, props)


@validate('jwt::ProofJwtHeader', ('C06',))
def _(cx):
    return [('accepted exactly with header type openid4vci-proof+jwt and an asymmetric algorithm', ('C06', 'C10'), cx.ret.is_ok == header_ok(Spec(cx.eng), cx[0]))]


@validate('jwt::ProofJwt', ('C06',))
def _(cx):
    return [('accepted exactly with an acceptable header', ('C06', 'C10'), cx.ret.is_ok == header_ok(Spec(cx.eng), cx[0].f('header')))]


@validate('types::credential_request::CredentialRequestProof', ('C06',))
def _(cx):
    return [('accepted exactly with type JWT, a well-formed proof and an acceptable header', ('C06', 'C10'), cx.ret.is_ok == proof_ok(Spec(cx.eng), cx[0]))]


@validate('types::credential_request::CredentialRequest', ('C06',))
def _(cx):
    p = cx[0].f('proof')
    return [('accepted exactly without proof or with an acceptable one', ('C06', 'C10'), cx.ret.is_ok == Or(p.is_none, proof_ok(Spec(cx.eng), p.val)))]


for ty in ('jwt::ProofJwtBody', 'credential_issuer::CredentialOffer', 'credential_issuer::CredentialOrIds', 'credential_issuer::CredentialOfferGrants',
           'types::credential::CredentialFormatProfile', 'types::credential_issuer_metadata::CredentialSupported',
           'types::credential_issuer_metadata::DisplayProperties', 'types::credential_issuer_metadata::DisplayLogo'):
    validate(ty, ('C10',))(lambda cx: [('always valid', ('C10', 'C13', 'C14'), cx.ret.is_ok)])
validate('types::authorization_server_metadata::AuthorizationServerMetadata', ())(lambda cx: [])
validate('jwt::ProofJwtAdditionalHeader', ())(lambda cx: [('a key id is valid', (), Implies(cx[0].is_('KeyId'), cx.ret.is_ok))])


# =============================================================== issuer metadata: C13
class Metadata(Fn):
    def apply(self, eng, st, info, vs):
        self.applying = True
        try:
            return Fn.apply(self, eng, st, info, vs)
        finally:
            self.applying = False


def _meta(cx):
    f = REG['<' + C + 'types::credential_issuer_metadata::CredentialIssuerMetadata' + VAL]
    if getattr(f, 'applying', False):
        return [('valid exactly if the ids are unique', ('C13',), cx.ret.is_ok == valid_metadata(cx[0]))]
    return [
        ('metadata with a repeated id is rejected', ('C13',), Implies(cx.ret.is_ok, unique_ids(cx[0]))),
        ('metadata with unique ids is accepted', ('C13', 'C10', 'C14'), Implies(unique_ids(cx[0]), cx.ret.is_ok)),
    ]


_n = '<' + C + 'types::credential_issuer_metadata::CredentialIssuerMetadata' + VAL
REG[_n] = Metadata(_n, _meta, ('C13',))


# =============================================================== credential requests: C04 - C11
CI = C + 'credential_issuer::'


@fn(CI + 'CredentialIssuer::evaluate_credential_request', ('C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C13'))
def _(cx):
    sp = Spec(cx.eng)
    meta, req, offer, asm, doc, opts = [cx[k] for k in range(6)]
    r = cx.ret
    ok, e = r.is_ok, r.err
    proof = req.f('proof')
    j = Jwt(sp, proof.val.f('jwt').e)
    body = j.body
    cn = opts.val.f('c_nonce')
    has_nonce = And(opts.is_some, cn.is_some)
    expiry = cn.val.f('c_nonce_created_at').e + cn.val.f('c_nonce_expires_in').e * NS
    nonce_eq = cn.val.f('expected_c_nonce') == body.f('nonce')
    cid = opts.val.f('client_id')
    iss = body.f('issuer')
    g = offer.val.f('grants')
    auth, pre = g.f('authorized_code_flow'), g.f('pre_authorized_code_flow')
    iss_ok = Implies(opts.is_some, If(cid.is_some, And(iss.is_some, iss.val == cid.val), Implies(Or(auth.is_some, pre.is_none), iss.is_none)))
    aud_ok = body.f('audience') == meta.f('credential_issuer')
    key = Key(sp, j.header, doc)
    nbf, exp = body.f('not_before'), body.f('expires_at')
    pop = r.ok.f('proof_of_possession')
    uj = unencoded(sp, j.header, body)
    signing = concat(j.s0, strval('.'), j.s1)
    base = And(valid_metadata(meta), offer.is_some, asm.is_none, proof.is_some, proof_ok(sp, proof.val), has_nonce, nonce_eq, aud_ok, iss_ok, key.ok)
    return [
        ('accepted only with nonce options', ('C04',), Implies(ok, has_nonce)),
        ('accepted only with the expected nonce', ('C04',), Implies(ok, nonce_eq)),
        ('accepted only while the nonce lives', ('C04',), Implies(ok, expiry >= cx.t0)),
        ('no living nonce is reported as expired', ('C04', 'C10'), Implies(And(r.is_err, e.is_('CNonceIsExpired')), And(has_nonce, expiry < cx.t1))),
        ('accepted only for this issuer as audience', ('C05',), Implies(ok, aud_ok)),
        ('accepted only from the right client', ('C05',), Implies(ok, iss_ok)),
        ('accepted only with proof type JWT', ('C06',), Implies(ok, And(proof.is_some, sp.ci(proof.val.f('proof_type'), 'jwt')))),
        ('accepted only with an acceptable proof header', ('C06',), Implies(ok, header_ok(sp, j.header))),
        ('accepted only with a well-formed proof', ('C12',), Implies(ok, j.ok)),
        ('no proof from the future is accepted', ('C07',), Implies(And(ok, nbf.is_some), nbf.val.e <= cx.t1)),
        ('no expired proof is accepted', ('C07',), Implies(And(ok, exp.is_some), exp.val.e > cx.t0)),
        ('accepted only if the key id names a supported key', ('C08', 'C22'), Implies(ok, key.ok)),
        ('the key is the one the key id names', ('C08',), Implies(ok, And(pop.is_some, pop.val.f('public_key').e == key.key))),
        ('the algorithm is that of the header', ('C08',), Implies(ok, pop.val.f('algorithm') == j.header.f('alg'))),
        ('the subject is the DID of the key id', ('C08', 'C11'), Implies(ok, And(
            r.ok.f('subject_id').is_some, r.ok.f('subject_id').val.e == key.did.f('did').e))),
        ('the credential is the requested one', ('C08',), Implies(ok, r.ok.f('credential') == req.f('format'))),
        ('the message is the signing input, or the known deviation', ('C09',), Implies(ok, Or(
            pop.val.f('message').e == sp.utf8(signing), pop.val.f('message').e == sp.utf8(uj)))),
        ('the signature is the third segment, or the known deviation', ('C09',), Implies(ok, Or(
            And(j.signed, pop.val.f('signature').e == sp.utf8(j.s2)),
            And(Not(j.signed), sp.nseg(uj) >= 3, pop.val.f('signature').e == sp.utf8(sp.rest(uj, 2)))))),
        ('strict: the message is the signing input', ('C09',), Implies(ok, pop.val.f('message').e == sp.utf8(signing))),
        ('strict: no proof without signature segment is accepted', ('C09',), Implies(ok, j.signed)),
        ('accepted only with valid metadata', ('C10', 'C13'), Implies(ok, valid_metadata(meta))),
        ('accepted only with an offer', ('C10',), Implies(ok, offer.is_some)),
        ('accepted only without authorization server metadata', ('C10',), Implies(ok, asm.is_none)),
        ('accepted whenever every condition holds', ('C10',), Implies(And(
            base, j.signed, expiry >= cx.t1, Implies(nbf.is_some, nbf.val.e <= cx.t0), Implies(exp.is_some, exp.val.e > cx.t1)), ok)),
        ('a missing offer is reported truthfully', ('C10',), Implies(And(r.is_err, e.is_('CredentialOfferMustBeSupplied')), offer.is_none)),
        ('unsupported authorization server metadata is reported truthfully', ('C10',), Implies(And(r.is_err, e.is_('AuthorizationServerMetadataNotSupported')), asm.is_some)),
        ('a missing proof is reported truthfully', ('C10',), Implies(And(r.is_err, e.is_('NoProofInCredentialRequest')), proof.is_none)),
    ]


@fn(CI + 'CredentialIssuer::pre_evaluate_credential_request', ('C06', 'C11'))
def _(cx):
    sp = Spec(cx.eng)
    req, r = cx[0], cx.ret
    proof = req.f('proof')
    j = Jwt(sp, proof.val.f('jwt').e)
    ah = j.header.f('additional_header')
    k = ah.val.f(0, 'KeyId').e
    kid = And(ah.is_some, ah.val.is_('KeyId'))
    did = r.ok.f('did')
    good = And(proof.is_some, proof_ok(sp, proof.val))
    return [
        ('pre-evaluated only with an acceptable proof', ('C06',), Implies(And(r.is_ok, proof.is_some), proof_ok(sp, proof.val))),
        ('nothing without proof', ('C11',), Implies(proof.is_none, And(r.is_ok, did.is_none))),
        ('nothing without key header', ('C11',), Implies(And(good, ah.is_none), And(r.is_ok, did.is_none))),
        ('the DID part of the key id', ('C11',), Implies(And(proof.is_some, r.is_ok, kid), And(did.is_some, did.val.e == sp.did(k).f('did').e))),
        ('every acceptable proof with a DID as key id is pre-evaluated', ('C11',), Implies(And(good, kid, sp.did_ok(k)), r.is_ok)),
        ('raw keys and certificate chains are refused', ('C11',), Implies(And(proof.is_some, ah.is_some, Not(ah.val.is_('KeyId'))), r.is_err)),
    ]


# =============================================================== offers: C14 C15
def supported(m, s, j=None):
    """index j is the first supported credential of metadata m with id s"""
    cs = m.f('credentials_supported')
    has = lambda k: And(cs.at(k).f('id').is_some, cs.at(k).f('id').val.e == s)
    return cs, has


def resolved(m, c, fmt):
    """c resolves to format fmt in metadata m"""
    cs, has = supported(m, c.f(0, 'CredentialId').e)
    i, j = z3.Int('i?%d' % next(m.eng.cnt)), z3.Int('j?%d' % next(m.eng.cnt))
    first = z3.Exists([i], And(i >= 0, i < cs.len, has(i), z3.ForAll([j], Implies(And(j >= 0, j < i), Not(has(j)))), cs.at(i).f('format').e == fmt.e))
    return If(c.is_('Credential'), c.f(0, 'Credential').e == fmt.e, first)


def resolvable(m, c):
    cs, has = supported(m, c.f(0, 'CredentialId').e)
    i = z3.Int('i?%d' % next(m.eng.cnt))
    return Or(c.is_('Credential'), z3.Exists([i], And(i >= 0, i < cs.len, has(i))))


@fn(CI + 'CredentialOrId::resolve', ('C14',))
def _(cx):
    c, m, r = cx[0], cx[1], cx.ret
    return [
        ('resolved only if it names a supported credential', ('C14',), Implies(r.is_ok, resolvable(m, c))),
        ('resolved if it names a supported credential', ('C14',), Implies(resolvable(m, c), r.is_ok)),
        ('resolved to the format of the first one', ('C14',), Implies(r.is_ok, resolved(m, c, r.ok))),
        ('the id that does not resolve is reported', ('C14',), Implies(r.is_err, And(
            r.err.is_('CredentialIdNotInIssuerMetadata'), r.err.f('id', 'CredentialIdNotInIssuerMetadata').e == c.f(0, 'CredentialId').e))),
    ]


@fn(CI + 'CredentialOrIds::resolve_all', ('C14',))
def _(cx):
    cs, m, r = cx[0].f(0), cx[1], cx.ret
    return [
        ('resolved only if every credential resolves', ('C14',), Implies(r.is_ok, cs.all(lambda j, c: resolvable(m, c)))),
        ('resolved if every credential resolves', ('C14',), Implies(cs.all(lambda j, c: resolvable(m, c)), r.is_ok)),
        ('one format per credential', ('C14',), Implies(r.is_ok, r.ok.len == cs.len)),
        ('in the given order', ('C14',), Implies(r.is_ok, r.ok.all(lambda j, x: resolved(m, cs.at(j), x)))),
        ('an id that does not resolve is reported', ('C14',), Implies(r.is_err, r.err.is_('CredentialIdNotInIssuerMetadata'))),
    ]


@fn(CI + 'CredentialOrIds::new', ('C14',))
def _(cx):
    return [('holds the given credentials', ('C14',), cx.ret.f(0).e == cx[0].e)]


@fn(CI + 'CredentialOffer::new', ('C14',))
def _(cx):
    r = cx.ret
    return [
        ('carries the issuer identifier', ('C14',), r.f('credential_issuer') == cx[0]),
        ('carries the credentials', ('C14',), r.f('credentials') == cx[1]),
        ('carries the authorization-code grant', ('C14',), r.f('grants').f('authorized_code_flow') == cx[2]),
        ('carries the pre-authorized-code grant', ('C14',), r.f('grants').f('pre_authorized_code_flow') == cx[3]),
    ]


def link(sp, endpoint, offer):
    enc = sp.uf('percent_encode', [S], S, sp.json(offer))
    return If(endpoint.is_some, concat(endpoint.val.e, strval('?credential_offer='), enc), concat(strval('openid-credential-offer://credential_offer='), enc))


@fn(CI + 'CredentialOffer::url_encode', ('C15',))
def _(cx):
    sp, r = Spec(cx.eng), cx.ret
    return [('the percent-encoded JSON of the offer', ('C15', 'C14'), And(r.is_ok, r.ok.e == sp.uf('percent_encode', [S], S, sp.json(cx[0]))))]


@fn('mirroots::create_offer', ('C13', 'C14', 'C15'))
def _(cx):
    sp = Spec(cx.eng)
    m, creds, endpoint, auth, pre = [cx[k] for k in range(5)]
    r = cx.ret
    ids = creds.f(0)
    offer, url = r.ok.f(0), r.ok.f(1)
    every = ids.all(lambda j, c: resolvable(m, c))
    return [
        ('created only with valid metadata', ('C13', 'C14'), Implies(r.is_ok, valid_metadata(m))),
        ('created only without authorization-code grant', ('C14',), Implies(r.is_ok, auth.is_none)),
        ('created only if every id is supported', ('C14',), Implies(r.is_ok, every)),
        ('created whenever everything is in order', ('C14',), Implies(And(valid_metadata(m), auth.is_none, every), r.is_ok)),
        ('an unsupported grant is reported truthfully', ('C14',), Implies(And(r.is_err, r.err.is_('AuthorizedFlowNotSupported')), auth.is_some)),
        ('the offer names the issuer', ('C14',), Implies(r.is_ok, offer.f('credential_issuer') == m.f('credential_issuer'))),
        ('the offer carries the credentials in order', ('C14',), Implies(r.is_ok, offer.f('credentials').f(0).e == ids.e)),
        ('the offer carries no authorization-code grant', ('C14',), Implies(r.is_ok, offer.f('grants').f('authorized_code_flow').is_none)),
        ('the offer carries the pre-authorized-code grant', ('C14',), Implies(r.is_ok, offer.f('grants').f('pre_authorized_code_flow') == pre)),
        ('the link carries the returned offer', ('C15',), Implies(r.is_ok, url.e == link(sp, endpoint, offer))),
    ]


for n, k in (('ids_from_vec', None), ('ids_from_refs', None), ('ids_from_strings', 'CredentialId'), ('ids_from_profiles', 'Credential')):
    def _c(cx, k=k):
        out = cx.ret.f(0)
        same = (lambda j, x: x.e == cx[0].at(j).e) if k is None else (lambda j, x: And(x.is_(k), x.f(0, k).e == cx[0].at(j).e))
        return [('same number of credentials', ('C14',), out.len == cx[0].len), ('the same credentials in the same order', ('C14',), out.all(same))]
    fn('mirroots::' + n, ('C14',))(_c)
for t, k in (('std::string::String', 'CredentialId'), ('&str', 'CredentialId'), (C + 'types::credential::CredentialFormatProfile', 'Credential')):
    fn('<%scredential_issuer::CredentialOrId as std::convert::From<%s>>::from' % (C, t), ('C14',))(
        lambda cx, k=k: [('holds the given value', ('C14',), And(cx.ret.is_(k), cx.ret.f(0, k) == cx[0]))])


# =============================================================== responses: C16 C17
FORMATS = {'JwtVcJson': 'jwt_vc_json', 'JwtVcJsonLd': 'jwt_vc_json-ld', 'LdpVc': 'ldp_vc', 'MsoMdoc': 'mso_mdoc'}


def encoded(sp, c, x):
    """x is what a response carries for credential c"""
    return And(
        Implies(c.is_('LdpVc'), And(x.is_('CredentialFormatProfile'), x.f(0, 'CredentialFormatProfile').e == c.e)),
        Implies(Not(c.is_('LdpVc')), And(x.is_('Encoded'), x.f(0, 'Encoded').e == sp.enc(sp.json(c)))))


@fn('<%stypes::credential::CredentialFormatProfileOrEncoded as std::convert::TryFrom<%stypes::credential::CredentialFormatProfile>>::try_from' % (C, C), ('C16',))
def _(cx):
    return [
        ('every credential can be carried', ('C16',), cx.ret.is_ok),
        ('linked-data credentials as object, others as base64url of their JSON', ('C16',), Implies(cx.ret.is_ok, encoded(Spec(cx.eng), cx[0], cx.ret.ok))),
    ]


@fn(C + 'types::credential::CredentialFormatProfile::get_format_name', ('C16',))
def _(cx):
    return [('the format identifier', ('C16',), And(*[Implies(cx[0].is_(k), cx.ret.e == strval(n)) for k, n in FORMATS.items()]))]


@fn(CI + 'CredentialIssuer::create_credential_success_response', ('C06', 'C16'))
def _(cx):
    sp = Spec(cx.eng)
    req, ct, nonce, r = cx[0], cx[1], cx[2], cx.ret
    p = req.f('proof')
    x = r.ok.f(0)
    is_c, is_t = And(ct.is_some, ct.val.is_('Credential')), And(ct.is_some, ct.val.is_('AcceptanceToken'))
    cr, at, n, e = x.f('credential'), x.f('acceptance_token'), x.f('c_nonce'), x.f('c_nonce_expires_in')
    good = Or(p.is_none, proof_ok(sp, p.val))
    return [
        ('created only for an acceptable proof', ('C06',), Implies(r.is_ok, good)),
        ('created for every acceptable request', ('C16',), Implies(good, r.is_ok)),
        ('names the requested format', ('C16',), Implies(r.is_ok, And(*[Implies(req.f('format').is_(k), x.f('format').e == strval(v)) for k, v in FORMATS.items()]))),
        ('carries the given credential', ('C16',), Implies(And(r.is_ok, is_c), And(cr.is_some, encoded(sp, ct.val.f(0, 'Credential'), cr.val)))),
        ('carries a credential only if given', ('C16',), Implies(And(r.is_ok, Not(is_c)), cr.is_none)),
        ('carries the given acceptance token', ('C16',), Implies(And(r.is_ok, is_t), And(at.is_some, at.val == ct.val.f(0, 'AcceptanceToken')))),
        ('carries an acceptance token only if given', ('C16',), Implies(And(r.is_ok, Not(is_t)), at.is_none)),
        ('carries the nonce', ('C16',), Implies(And(r.is_ok, nonce.is_some), And(n.is_some, n.val == nonce.val.f('c_nonce')))),
        ('carries the nonce lifetime', ('C16',), Implies(And(r.is_ok, nonce.is_some), e == nonce.val.f('c_nonce_expires_in'))),
        ('carries a nonce only if given', ('C16',), Implies(And(r.is_ok, nonce.is_none), And(n.is_none, e.is_none))),
        ('the time is the time of creation', ('C16',), Implies(r.is_ok, And(r.ok.f(1).e >= cx.t0, r.ok.f(1).e <= cx.t1))),
    ]


@fn(C + 'access_token::AccessToken::create_access_token_success_response', ('C17',))
def _(cx):
    r = cx.ret
    names = ('access_token', 'token_type', 'expires_in', 'scope', 'c_nonce', 'c_nonce_expires_in', 'authorization_pending', 'interval')
    return [('never fails', ('C17',), r.is_ok)] + [
        ('carries %s' % n, ('C17',), Implies(r.is_ok, r.ok.f(0).f(n) == cx[k])) for k, n in enumerate(names)] + [
        ('the time is the time of creation', ('C17',), Implies(r.is_ok, And(r.ok.f(1).e >= cx.t0, r.ok.f(1).e <= cx.t1)))]


for n in (C + 'access_token::AccessToken::create_access_token_error_response', CI + 'CredentialIssuer::create_credential_error_response'):
    fn(n, ('C17',))(lambda cx: [('never fails', ('C17',), cx.ret.is_ok)] + [
        ('carries %s' % m, ('C17',), Implies(cx.ret.is_ok, cx.ret.ok.f(m) == cx[k]))
        for k, m in enumerate(('error', 'error_description', 'error_uri', 'error_additional_details'))])

validate('access_token::AccessTokenSuccessResponse', ('C17',))(lambda cx: [(
    'rejected exactly for a nonce lifetime without nonce', ('C17',),
    cx.ret.is_err == And(cx[0].f('c_nonce').is_none, cx[0].f('c_nonce_expires_in').is_some))])


# =============================================================== protocol strings: C18
CODES = {
    'access_token::error_response::AccessTokenErrorCode': {
        'InvalidRequest': 'invalid_request', 'InvalidGrant': 'invalid_grant', 'InvalidClient': 'invalid_client',
        'AccessDenied': 'access_denied', 'UnsupportedResponseType': 'unsupported_response_type', 'InvalidScope': 'invalid_scope',
        'ServerError': 'server_error', 'TemporarilyUnavailable': 'temporarily_unavailable'},
    'credential_issuer::error_code::CredentialIssuerErrorCode': {
        'InvalidRequest': 'invalid_request', 'InvalidToken': 'invalid_token', 'UnsupportedCredentialType': 'unsupported_credential_type',
        'UnsupportedCredentialFormat': 'unsupported_credential_format', 'InvalidOrMissingProof': 'invalid_or_missing_proof'},
    'types::token_type::AccessTokenType': {'Bearer': 'Bearer'},
}
for t, tab in CODES.items():
    assert len(set(tab.values())) == len(tab)
    fn('%s%s::<impl std::convert::From<%s%s> for &str>::from' % (C, t.rsplit('::', 1)[0], C, t), ('C18',))(
        lambda cx, tab=tab: [('%s is written %s' % (k, v), ('C18',), Implies(cx[0].is_(k), cx.ret.e == strval(v))) for k, v in tab.items()])
    fn('<%s%s as std::convert::TryFrom<std::string::String>>::try_from' % (C, t), ('C18',))(
        lambda cx, tab=tab: [('%s is read back' % v, ('C18',), Implies(cx[0].e == strval(v), And(cx.ret.is_ok, cx.ret.ok.is_(k)))) for k, v in tab.items()] +
        [('no other string is read', ('C18',), Implies(cx.ret.is_ok, Or(*[cx[0].e == strval(v) for v in tab.values()])))])


# =============================================================== error information: C19
ERRORS = {
    'validate::ValidationError': {'Any': 1},
    'access_token::error::AccessTokenError': dict(zip(
        ('ValidationError', 'InvalidGrantType', 'AuthorizedFlowNotSupported', 'NoFlowSupportedInCredentialOffer', 'InvalidPreAuthorizedCodeFlowValues',
         'InvalidAuthorizedAndPreAuthorizedCodeFlow', 'OptionsAreRequiredForEvaluation', 'UserPinMismatch', 'CredentialOfferMustBeSupplied'),
        (400, 401, 402, 403, 404, 405, 406, 407, 409))),
    'credential_issuer::error::CredentialIssuerError': dict(zip(
        ('ValidationError', 'JwtError', 'AuthorizedFlowNotSupported', 'CredentialIdNotInIssuerMetadata', 'InvalidCredentialOfferEncoding',
         'InvalidRequestedCredential', 'ExpiredCNonce', 'CredentialAndAcceptanceTokenSupplied', 'AuthorizationServerMetadataNotSupported',
         'CredentialOfferMustBeSupplied', 'EvaluteCredentialRequestOptionsNotSupplied', 'CNonceIsExpired', 'NoProofInCredentialRequest'), range(100, 113))),
    'jwt::error::JwtError': dict(zip(
        ('ValidationError', 'NotYetValid', 'NotValidAnymore', 'IssuerMismatch', 'NoKeyFoundInProof', 'NoDidDocumentProvidedForKidAsDid',
         'UnableToTransformIntoDid', 'UnableToResolveDidInDidDocument', 'UnableToMapVerificationMethodToJwk', 'UnableToTransformIntoJoseItem',
         'UnsupportedAlgorithm', 'EdDSAHasNoXCoordinate', 'ESXXXHasNoXOrYCoordinate', 'SignatureNotInJwt', 'UnsupportedKeyTypeInJwtHeader',
         'NonceMismatch', 'AudienceMismatch'), range(300, 317))),
}
_all = [c for t in ERRORS.values() for c in t.values()]
assert len(set(_all)) == len(_all)


def describes(v, info, tab):
    return And(*[Implies(v.is_(k), And(info.f('code').e == c, info.f('name').e == strval(k))) for k, c in tab.items()])


def texts(v, info):
    """the description is the error's text; the additional information is its JSON value, left out only where there is none"""
    k, add = v.T.key(v.ty), info.f('additional_information')
    ok = z3.Function('jsonvalue.ok<%s>' % k, v.e.sort(), B)(v.e)
    val = V(v.eng, add.val.ty, z3.Function('jsonvalue<%s>' % k, v.e.sort(), add.val.e.sort())(v.e))
    return (info.f('description').e == z3.Function('display<%s>' % k, v.e.sort(), S)(v.e),
            And(Implies(add.is_some, And(ok, add.val.e == val.e)), Implies(add.is_none, Or(Not(ok), val.is_('Null')))))


for t, tab in ERRORS.items():
    fn(C + t + '::information', ('C19',))(lambda cx, tab=tab: [
        ('%s has code %d' % (k, c), ('C19',), Implies(cx[0].is_(k), cx.ret.f('code').e == c)) for k, c in tab.items()] + [
        ('%s has its name' % k, ('C19',), Implies(cx[0].is_(k), cx.ret.f('name').e == strval(k))) for k in tab] + [
        ('the description is its text', ('C19',), texts(cx[0], cx.ret)[0]),
        ('the additional information is its JSON value', ('C19',), texts(cx[0], cx.ret)[1])])
for n, t in (('ro_validation', 'validate::ValidationError'), ('ro_token', 'access_token::error::AccessTokenError'),
             ('ro_issuer', 'credential_issuer::error::CredentialIssuerError'), ('ro_jwt', 'jwt::error::JwtError')):
    fn('mirroots::' + n, ('C19',))(lambda cx, t=t: [
        ('a success carries exactly the value', ('C19',), Implies(cx[0].is_ok, And(cx.ret.f('info').is_some, cx.ret.f('info').val.e == cx[0].ok.e, cx.ret.f('error').is_none))),
        ('a failure carries exactly the error information', ('C19',), Implies(cx[0].is_err, And(
            cx.ret.f('info').is_none, cx.ret.f('error').is_some, describes(cx[0].err, cx.ret.f('error').val, ERRORS[t]), *texts(cx[0].err, cx.ret.f('error').val)))),
        ('no warnings', ('C19',), cx.ret.f('warnings').is_none)])


@fn('mirroots::add_warning', ('C19',))
def _(cx):
    r, w, o = cx[0], cx[1], cx.ret
    ws, os = r.f('warnings'), o.f('warnings')
    n = If(ws.is_some, ws.val.len, 0)
    return [
        ('value unchanged', ('C19',), o.f('info') == r.f('info')),
        ('error unchanged', ('C19',), o.f('error') == r.f('error')),
        ('one warning more', ('C19',), And(os.is_some, os.val.len == n + 1)),
        ('earlier warnings kept', ('C19',), Implies(ws.is_some, ws.val.all(lambda j, x: os.val.at(j).e == x.e))),
        ('the warning comes last', ('C19',), os.val.at(n).e == w.e),
    ]


# =============================================================== formatting never fails: C21
for t in list(ERRORS) + ['error::ErrorInformation']:
    fn('<%s%s as std::fmt::Display>::fmt' % (C, t), ('C21',))(lambda cx: [('formatting does not fail', ('C21',), cx.ret.is_ok)])


# =============================================================== registry
OPTIONAL = {P + 'to_signable_message', P + 'extract_signature', JH + '::jwk_to_public_key_bytes'}
ASSUMPTIONS = [
    'integers are mathematical integers with the range of their machine type; every arithmetic operation of the code carries its overflow check as a panic path (overflow checks on)',
    'strings are abstract values: equality, literals, concatenation, split at dots, case-insensitive comparison, UTF-8 bytes',
    'memory allocation does not fail; sequences have at most i64::MAX elements',
    'points in time are those chrono can represent, without leap-second notation (23:59:60); Utc::now never decreases during one call',
    'derived Hash agrees with derived Eq (HashSet behaves as a mathematical set)',
    'the code does not depend on addresses, threads or global mutable state (checked: no static mut, no interior mutability in the MIR that is executed)',
    'dependency functions satisfy the contracts listed in trusted_base',
]


def registry(insts, srv):
    """all contracts: the ones above, derived Clone and PartialEq, and absence of panics for every other function"""
    import wire
    R = dict(REG)
    R.update(wire.W)
    for n in insts:
        if n.startswith('<' + C) and n.endswith(' as std::clone::Clone>::clone'):
            R[n] = Clone(n)
        elif n.startswith('<' + C) and n.endswith(' as std::cmp::PartialEq>::eq'):
            R[n] = Eq(n)
    skip = ('serde', 'std::fmt::Debug', 'std::hash::Hash', '::_::')
    for n in insts:
        if n in R or n.startswith('mirroots::') and not n.startswith('mirroots::create'):
            continue
        if any(k in n for k in skip):
            continue
        if any(srv.ty(t)['k'] == 'ref' and srv.ty(t)['mut'] for t in srv.inst(insts[n])['in']):
            continue
        R[n] = Fn(n, None, ('C21',), modular=False)
    return R
