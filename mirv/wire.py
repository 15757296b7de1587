"""Contracts on the JSON documents of the crate's types: member tables of OpenID4VCI draft 11."""
import z3
from z3 import And, Or, Not, Implies, If
from sorts import strval, strlit, I, B, S, Unsupported
from spec import V, Fn
from engine import TRUE, FALSE
import jsn
from jsn import J, JNULL, JBOOL, JINT, JSTR, EMPTY, PUT, MERGE, doc

W = {}          # contracts of this file
OBJECTS = set() # those that say that a type is written as an object
R_ = 'mirroots::'


def js(v):
    """document of a value"""
    eng, k = v.eng, v.eng.T.key(v.ty)
    if k == 'str':
        return JSTR(v.e)
    if k == 'bool':
        return JBOOL(v.e)
    if k == 'int':
        return JINT(v.e)
    if k.startswith('std::option::Option<'):
        return If(v.is_some, js(v.val), JNULL)
    return doc(eng, v.ty, v.e)


class M:
    """one member: its name, when it is there, its value.  how: 'must' present exactly when `cond`;
    'may' left out or null when the Option `v` is None; 'skip' left out exactly when it is None"""
    def __init__(self, name, v, how='must', cond=TRUE):
        self.name, self.how, self.cond = name, how, cond
        if how == 'must':
            self.there, self.may, self.val = cond, cond, v if isinstance(v, z3.ExprRef) else js(v)
        elif how == 'skip':
            self.there = self.may = And(cond, v.is_some)
            self.val = js(v.val)
        else:
            self.there, self.may, self.val = And(cond, v.is_some), cond, js(v)


class Rest:
    """members of a flattened map"""
    def __init__(self, v, cond=TRUE):
        self.v, self.cond = v, cond


def entries(e):
    """[(name, document)] and [merged documents] of a document built by the crate's code, or None"""
    r, m = [], []
    while True:
        if e.eq(EMPTY):
            return r, m
        if not z3.is_app(e):
            return None
        if e.decl().eq(PUT):
            k = strlit(e.arg(0))
            if k is None:
                return None
            r.append((k, e.arg(1)))
            e = e.arg(2)
        elif e.decl().eq(MERGE):
            m.append(e.arg(0))
            e = e.arg(1)
        else:
            return None


def member_clauses(ret, table, tags, fallible=False):
    """clauses: the written document has exactly the members of the table"""
    cl = []
    if not fallible:
        cl.append(('writing does not fail', tags(None), ret.is_ok))
    e = z3.simplify(ret.ok.e)
    en = entries(e)
    ok = ret.is_ok
    if en is None:
        # not a document of literal members on this path: nothing is known about it, unless it is not Ok
        for t in table:
            if isinstance(t, M):
                cl.append(('member %s' % t.name, tags(t.name), Not(ok)))
        cl.append(('no other member', tags(None), Not(ok)))
        cl.append(('no member twice', tags(None), Not(ok)))
        return cl
    en, merged = en
    names = []
    for t in table:
        if isinstance(t, M) and t.name not in names:
            names.append(t.name)
    for n in names:
        got = [d for k, d in en if k == n]
        ts = [t for t in table if isinstance(t, M) and t.name == n]
        if not got:
            cl.append(('member %s' % n, tags(n), Implies(ok, And(*[Not(t.there) for t in ts]))))
        else:
            cl.append(('member %s' % n, tags(n), Implies(ok, And(Or(*[t.may for t in ts]), *[Implies(t.may, got[0] == t.val) for t in ts]))))
    rests = [t for t in table if isinstance(t, Rest)]
    good = TRUE
    left = list(merged)
    for t in rests:
        d = js(t.v)
        hit = next((x for x in left if x.eq(d) or z3.simplify(x).eq(z3.simplify(d))), None)
        if hit is None:
            good = And(good, Not(t.cond))
        else:
            left = [x for x in left if x is not hit]
            good = And(good, t.cond)
    other = [k for k, _ in en if k not in names]
    cl.append(('no other member', tags(None), Implies(ok, z3.BoolVal(not other and not left))))
    if rests:
        cl.append(('the additional members are those given', tags('*'), Implies(ok, good)))
    ks = [k for k, _ in en]
    cl.append(('no member twice', tags(None), Implies(ok, z3.BoolVal(len(ks) == len(set(ks))))))
    return cl


def writer(name, props=('C20',), tags=None, fallible=False, exact=True):
    """contract of mirroots::<name>: table(v) gives the members of the document"""
    def deco(f):
        def clauses(cx):
            tg = tags or (lambda n: props)
            return [c for c in member_clauses(cx.ret, f(cx[0]), tg, fallible) if exact or c[0] != 'no other member']
        allp = sorted({p for p in props})
        OBJECTS.add(R_ + name)
        W[R_ + name] = Fn(R_ + name, clauses, tuple(allp), modular=False)
        return f
    return deco


def plain(name, props=('C20',)):
    """contract of mirroots::<name>: f(v) gives the document itself"""
    def deco(f):
        def clauses(cx):
            v = cx[0]
            return [('writing does not fail', props, cx.ret.is_ok)] + [(l, props, Implies(And(cx.ret.is_ok, c), cx.ret.ok.e == d)) for l, c, d in f(v)]
        W[R_ + name] = Fn(R_ + name, clauses, props, modular=False)
        return f
    return deco


# ------------------------------------------------------------------ offers and grants
@writer('write_offer')
def _(v):
    return [M('credential_issuer', v.credential_issuer), M('credentials', v.credentials), M('grants', v.grants)]


@plain('write_ids')
def _(v):
    return [('the list of the credentials', TRUE, js(v.f(0)))]


@plain('write_cred_or_id')
def _(v):
    return [('an id is written as a string', v.is_('CredentialId'), js(v.f(0, 'CredentialId'))),
            ('a credential is written as its object', v.is_('Credential'), js(v.f(0, 'Credential')))]


@writer('write_grants')
def _(v):
    return [M('authorization_code', v.authorized_code_flow, 'skip'),
            M('urn:ietf:params:oauth:grant-type:pre-authorized_code', v.pre_authorized_code_flow, 'skip')]


@writer('write_preauth')
def _(v):
    return [M('pre-authorized_code', v.code), M('user_pin_required', v.user_pin_required, 'skip')]


@writer('write_auth')
def _(v):
    return [M('issuer_state', v.issuer_state, 'skip')]


# ------------------------------------------------------------------ credentials
FORMATS = [('JwtVcJson', 'jwt_vc_json'), ('JwtVcJsonLd', 'jwt_vc_json-ld'), ('LdpVc', 'ldp_vc'), ('MsoMdoc', 'mso_mdoc')]


def format_members(v):
    r = []
    for n, s in FORMATS:
        c = v.is_(n)
        r.append(M('format', JSTR(strval(s)), cond=c))
        if n != 'MsoMdoc':
            r.append(M('types', v.f('types', n), cond=c))
            r.append(M('credentialSubject', v.f('credential_subject', n), 'skip', c))
        else:
            r.append(M('doctype', v.f('doctype', n), cond=c))
            r.append(M('claims', v.f('claims', n), 'skip', c))
        if n == 'LdpVc':
            r.append(M('@context', v.f('context', n), cond=c))
        r.append(M('order', v.f('order', n), 'skip', c))
    return r


@writer('write_format')
def _(v):
    return format_members(v)


@writer('write_subject')
def _(v):
    return [M('mandatory', v.mandatory, 'skip'), M('value_type', v.value_type, 'skip'), M('display', v.display, 'skip')]


@writer('write_subject_display')
def _(v):
    return [M('name', v.name, 'skip'), M('locale', v.locale, 'skip')]


@plain('write_ctx')
def _(v):
    return [('a context given as string is a string', v.is_('String'), js(v.f(0, 'String'))),
            ('a context given as map is an object', v.is_('Map'), js(v.f(0, 'Map')))]


@plain('write_encoded', ('C16',))
def _(v):
    return [('an encoded credential is that string', v.is_('Encoded'), js(v.f(0, 'Encoded'))),
            ('a credential is its object', v.is_('CredentialFormatProfile'), js(v.f(0, 'CredentialFormatProfile')))]


# ------------------------------------------------------------------ issuer metadata
@writer('write_metadata')
def _(v):
    a = v.additional_fields
    return [M('credential_issuer', v.credential_issuer), M('authorization_server', v.authorization_server, 'may'),
            M('credential_endpoint', v.credential_endpoint), M('batch_credential_endpoint', v.batch_credential_endpoint, 'may'),
            M('credentials_supported', v.credentials_supported), Rest(a.val, a.is_some)]


@writer('write_supported')
def _(v):
    return format_members(v.format) + [
        M('id', v.id, 'may'), M('cryptographic_binding_methods_supported', v.cryptographic_binding_mehtods_supported, 'may'),
        M('cryptographic_suites_supported', v.cryptographic_suites_supported, 'may'), M('display', v.display, 'may')]


@writer('write_display')
def _(v):
    return [M('name', v.name), M('locale', v.locale, 'may'), M('logo', v.logo, 'may'), M('description', v.description, 'may'),
            M('background_color', v.background_color, 'may'), M('text_color', v.text_color, 'may')]


@writer('write_logo')
def _(v):
    return [M('url', v.url, 'may'), M('alt_text', v.alt_text, 'may')]


# ------------------------------------------------------------------ credential requests, proofs
@writer('write_request')
def _(v):
    return format_members(v.format) + [M('proof', v.proof, 'may')]


@writer('write_proof')
def _(v):
    return [M('proof_type', v.proof_type), M('jwt', v.jwt)]


HEADERS = [('KeyId', 'kid'), ('Jwk', 'jwk'), ('X5c', 'x5c')]


@writer('write_header')
def _(v):
    a = v.additional_header
    return [M('typ', v.typ), M('alg', v.alg)] + [M(n, a.val.f(0, k), cond=And(a.is_some, a.val.is_(k))) for k, n in HEADERS]


@writer('write_addl')
def _(v):
    return [M(n, v.f(0, k), cond=v.is_(k)) for k, n in HEADERS]


ALGS = {a: a for a in ('HS256', 'HS384', 'HS512', 'RS256', 'RS384', 'RS512', 'ES256', 'ES384', 'ES512', 'PS256', 'PS384', 'PS512', 'EdDSA', 'ES256K')}
ALGS.update({'ECDHES': 'ECDH-ES', 'None': 'none'})


@plain('write_alg')
def _(v):
    return [('algorithm ' + s, v.is_(k), JSTR(strval(s))) for k, s in sorted(ALGS.items())]


@writer('write_body')
def _(v):
    return [M('iss', v.issuer, 'may'), M('aud', v.audience), M('sub', v.subject, 'may'), M('iat', v.issued_at), M('nonce', v.nonce),
            M('nbf', v.not_before, 'may'), M('exp', v.expires_at, 'may')]


# ------------------------------------------------------------------ responses
@writer('write_token_response', ('C17',))
def _(v):
    return [M('access_token', v.access_token), M('token_type', v.token_type)] + [
        M(n, v.f(n), 'may') for n in ('expires_in', 'scope', 'c_nonce', 'c_nonce_expires_in', 'authorization_pending', 'interval')]


@plain('write_token_type', ('C18',))
def _(v):
    return [('the token type is written Bearer', v.is_('Bearer'), JSTR(strval('Bearer')))]


TOKEN_CODES = ['InvalidRequest', 'InvalidGrant', 'InvalidClient', 'AccessDenied', 'UnsupportedResponseType', 'InvalidScope', 'ServerError', 'TemporarilyUnavailable']
ISSUER_CODES = ['InvalidRequest', 'InvalidToken', 'UnsupportedCredentialType', 'UnsupportedCredentialFormat', 'InvalidOrMissingProof']


def snake(s):
    return ''.join('_' * (n > 0 and c.isupper()) + c.lower() for n, c in enumerate(s))


@plain('write_token_code', ('C18',))
def _(v):
    return [('%s is written %s' % (c, snake(c)), v.is_(c), JSTR(strval(snake(c)))) for c in TOKEN_CODES]


@plain('write_issuer_code', ('C18',))
def _(v):
    return [('%s is written %s' % (c, snake(c)), v.is_(c), JSTR(strval(snake(c)))) for c in ISSUER_CODES]


def error_members(v):
    d = v.error_additional_details
    return [M('error', v.error), M('error_description', v.error_description, 'may'), M('error_uri', v.error_uri, 'may'),
            Rest(d.val, And(d.is_some, jsn.ISOBJ(js(d.val))))]


for n in ('write_token_error', 'write_issuer_error'):
    writer(n, ('C17', 'C18'), lambda m: ('C18',) if m == 'error' else ('C17',), fallible=True)(error_members)


@writer('write_cred_response', ('C16',))
def _(v):
    return [M('format', v.format), M('credential', v.credential, 'may'), M('acceptance_token', v.acceptance_token, 'may'),
            M('c_nonce', v.c_nonce, 'may'), M('c_nonce_expires_in', v.c_nonce_expires_in, 'may')]


# ------------------------------------------------------------------ reading back what was written
def back(name, props=('C20',), same=None, exact=True):
    def clauses(cx):
        x, r = cx[0], cx.ret
        eq = same(x, r.ok, cx) if same else r.ok.e == x.e
        w = 'a written value' if exact else 'a written value, members in another order and null members left out,'
        return [(w + ' is read back', props, r.is_ok), ('the value read back is the one written', props, Implies(r.is_ok, eq))]
    W[R_ + name] = Fn(R_ + name, clauses, props, modular=False)


def same_metadata(x, y, cx):
    a, b = x.additional_fields, y.additional_fields
    none = And(Not(a.is_some), Or(Not(b.is_some), b.val.e == jsn.no_members(x.eng, a.val.ty)))
    rest = [getattr(x, f).e == getattr(y, f).e for f in
            ('credential_issuer', 'authorization_server', 'credential_endpoint', 'batch_credential_endpoint', 'credentials_supported')]
    return And(Or(none, a.e == b.e), *rest)


for n in ('offer', 'ids', 'grants', 'preauth', 'auth', 'cred_or_id', 'format', 'subject', 'subject_display', 'supported', 'display',
          'logo', 'request', 'proof', 'header', 'body', 'alg', 'addl', 'ctx'):
    back('back_' + n)
back('back_metadata', same=same_metadata)
back('back_encoded', ('C16',))
back('back_cred_response', ('C16',))
back('back_token_response', ('C17',))
for n in ('token_type', 'token_code', 'issuer_code'):
    back('back_' + n, ('C18',))

for n in ('offer', 'grants', 'preauth', 'format', 'subject', 'subject_display', 'supported', 'display', 'logo', 'request', 'proof', 'header', 'body'):
    back('lean_' + n, exact=False)
back('lean_metadata', same=same_metadata, exact=False)
back('lean_cred_response', ('C16',), exact=False)
back('lean_token_response', ('C17',), exact=False)


def read(name, props, table):
    """any JSON string: read as the value of that string in the table, every other one refused"""
    def clauses(cx):
        x, r = cx[0], cx.ret
        return [('no other string is read', props, Implies(r.is_ok, Or(*[x.e == strval(s) for _, s in table])))] + \
               [('%s is read as %s' % (s, k), props, Implies(x.e == strval(s), And(r.is_ok, r.ok.is_(k)))) for k, s in table]
    W[R_ + name] = Fn(R_ + name, clauses, props, modular=False)


read('read_token_code', ('C18',), [(c, snake(c)) for c in TOKEN_CODES])
read('read_issuer_code', ('C18',), [(c, snake(c)) for c in ISSUER_CODES])
read('read_token_type', ('C18',), [('Bearer', 'Bearer')])


# ------------------------------------------------------------------ what a caller hands in and gets out, as JSON: C23
GRANT = [('AuthorizedCodeFlow', 'authorization_code'), ('PreAuthorizedCodeFlow', 'urn:ietf:params:oauth:grant-type:pre-authorized_code')]


@writer('write_grant_type', ('C23',))
def _(v):
    n = GRANT[1][0]
    return [M('grant_type', JSTR(strval(s)), cond=v.is_(k)) for k, s in GRANT] + [
        M('pre_authorized_code', v.f('pre_authorized_code', n), cond=v.is_(n)), M('user_pin', v.f('user_pin', n), 'may', v.is_(n))]


def fields(name, must=(), may=(), skip=(), **kw):
    writer(name, ('C23',), **kw)(lambda v: [M(n, v.f(n)) for n in must] + [M(n, v.f(n), 'may') for n in may] + [M(n, v.f(n), 'skip') for n in skip])


fields('write_token_request', ('grant_type',))
fields('write_token_options', (), ('expected_user_pin',))
fields('write_request_options', (), ('c_nonce', 'client_id'))
fields('write_nonce_options', ('c_nonce_expires_in', 'expected_c_nonce', 'c_nonce_created_at'))
fields('write_nonce', ('c_nonce',), ('c_nonce_expires_in',))
fields('write_pre_evaluation', (), (), ('did',))
fields('write_evaluation', ('credential',), ('proof_of_possession', 'subject_id'))
fields('write_possession', ('algorithm', 'public_key', 'message', 'signature'))
fields('write_information', ('code', 'name', 'description'), (), ('additional_information',))
fields('write_return_object', (), (), ('info', 'error', 'warnings'))
for n in ('token_request', 'grant_type', 'token_options', 'request_options', 'nonce_options', 'nonce'):
    back('back_' + n, ('C23',))
for n in ('token_request', 'token_options', 'request_options', 'nonce_options', 'nonce'):
    back('lean_' + n, ('C23',), exact=False)


def error(name, structs, inner=(), nulls=()):
    """an error's JSON is the object of its values, the JSON of the error it wraps, or null where it has none"""
    def clauses(cx):
        v, ok = cx[0], cx.ret.is_ok
        d = z3.simplify(cx.ret.ok.e)
        en, t = entries(d), ('C23',)
        cl = [('writing does not fail', t, ok)]
        cl += [('%s is null' % k, t, Implies(And(ok, v.is_(k)), d == JNULL)) for k in nulls]
        cl += [('%s is the JSON of the error inside' % k, t, Implies(And(ok, v.is_(k)), d == js(v.f(0, k)))) for k in inner]
        for k, ns in structs.items():
            if en is None:
                cl.append(('%s is an object of its values' % k, t, Not(And(ok, v.is_(k)))))
                continue
            got = dict(en[0])
            good = len(en[0]) == len(got) and not en[1] and set(got) == set(ns)
            cl.append(('%s is an object of its values' % k, t, Implies(And(ok, v.is_(k)),
                       And(*[got[n] == js(v.f(n, k)) for n in ns]) if good else FALSE)))
        return cl
    W[R_ + name] = Fn(R_ + name, clauses, ('C23',), modular=False)


error('write_e_validation', {'Any': ['validation_message']})
error('write_e_token', {
    'InvalidGrantType': ['requested_grant_type', 'accepted_grant_type'],
    'InvalidPreAuthorizedCodeFlowValues': ['should_pin_be_supplied', 'does_code_match'],
    'InvalidAuthorizedAndPreAuthorizedCodeFlow': ['authorized_error', 'pre_authorized_error'],
    'OptionsAreRequiredForEvaluation': ['reason']}, ['ValidationError'],
    ['AuthorizedFlowNotSupported', 'NoFlowSupportedInCredentialOffer', 'UserPinMismatch', 'CredentialOfferMustBeSupplied'])
error('write_e_issuer', {
    'CredentialIdNotInIssuerMetadata': ['id'], 'InvalidCredentialOfferEncoding': ['error_message'],
    'InvalidRequestedCredential': ['requested_credential', 'supported_formats'], 'ExpiredCNonce': ['now', 'expires_in'],
    'EvaluteCredentialRequestOptionsNotSupplied': ['reason'], 'CNonceIsExpired': ['now', 'expiry_timestamp']}, ['ValidationError', 'JwtError'],
    ['AuthorizedFlowNotSupported', 'CredentialAndAcceptanceTokenSupplied', 'AuthorizationServerMetadataNotSupported', 'CredentialOfferMustBeSupplied',
     'NoProofInCredentialRequest'])
error('write_e_jwt', {
    'NotYetValid': ['valid_from', 'now'], 'NotValidAnymore': ['valid_until', 'now'], 'IssuerMismatch': ['expected_iss_in_jwt', 'actual_iss_in_jwt'],
    'UnableToTransformIntoDid': ['kid', 'message'], 'UnableToResolveDidInDidDocument': ['did', 'message'],
    'UnableToMapVerificationMethodToJwk': ['messsage'], 'UnableToTransformIntoJoseItem': ['original_string', 'serde_message'],
    'UnsupportedAlgorithm': ['algorithm'], 'ESXXXHasNoXOrYCoordinate': ['algorithm', 'x', 'y'], 'SignatureNotInJwt': ['jwt'],
    'UnsupportedKeyTypeInJwtHeader': ['key_name', 'key_type'], 'NonceMismatch': ['expected_nonce', 'actual_nonce'],
    'AudienceMismatch': ['expected_aud_in_jwt', 'actual_aud_in_jwt']}, ['ValidationError'],
    ['NoKeyFoundInProof', 'NoDidDocumentProvidedForKidAsDid', 'EdDSAHasNoXCoordinate'])


def _show(cx):
    import deps
    x = cx[0]
    return [('writing error information as text does not fail', ('C23',), cx.ret.f(1).e),
            ('the text of error information is its JSON', ('C23',), cx.ret.f(0).e == deps.json_of(x.eng, x.T.peel(x.ty), x.e))]


W[R_ + 'show_information'] = Fn(R_ + 'show_information', _show, ('C23',), modular=False)
