#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the definitions in tools/seeds/*.py and confirms each one in a scratch copy:
   python3 tools/mkseeds.py [ID..]      (re)creates and confirms"""
import os, sys, json, subprocess, shutil, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/seedwork'
SRC = 'crates/openid4vci/src/'

PRELUDE = r'''#![allow(dead_code, unused_imports)]
use base64::Engine;
use openid4vci::access_token::*;
use openid4vci::credential_issuer::*;
use openid4vci::jwt::*;
use openid4vci::types::credential::*;
use openid4vci::types::credential_issuer_metadata::*;
use openid4vci::types::credential_request::*;
use openid4vci::validate::Validatable;
use serde_json::{json, Value};
use std::str::FromStr;

pub fn b64(v: &str) -> String {
    base64::engine::general_purpose::URL_SAFE_NO_PAD.encode(v)
}
pub fn jwt(h: &Value, b: &Value, sig: &str) -> String {
    format!("{}.{}.{}", b64(&h.to_string()), b64(&b.to_string()), sig)
}
pub const KID: &str = "did:example:123#key-1";
pub fn header() -> Value {
    json!({"typ": "openid4vci-proof+jwt", "alg": "EdDSA", "kid": KID})
}
pub fn body() -> Value {
    json!({"aud": "https://issuer.example", "iat": "2023-05-01T10:00:00Z", "nonce": "tZignsnFbp"})
}
pub fn document() -> ssi_dids::Document {
    serde_json::from_value(json!({"@context": "https://www.w3.org/ns/did/v1", "id": "did:example:123", "verificationMethod": [
        {"id": "did:example:123#key-0", "type": "JsonWebKey2020", "controller": "did:example:123",
         "publicKeyJwk": {"kty": "OKP", "crv": "Ed25519", "x": "AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA"}},
        {"id": KID, "type": "JsonWebKey2020", "controller": "did:example:123",
         "publicKeyJwk": {"kty": "OKP", "crv": "Ed25519", "x": "VCpo2LMLhn6iWku8MKvSLg2ZAoC-nlOyPVQaO3FxVeQ"}}]})).unwrap()
}
pub fn format() -> CredentialFormatProfile {
    CredentialFormatProfile::JwtVcJson { types: vec!["Degree".into()], credential_subject: None, order: None }
}
pub fn request(h: &Value, b: &Value) -> CredentialRequest {
    CredentialRequest { format: format(), proof: Some(CredentialRequestProof { proof_type: "jwt".into(), jwt: jwt(h, b, "c2lnbmF0dXJl") }) }
}
pub fn metadata() -> CredentialIssuerMetadata {
    CredentialIssuerMetadata { credential_issuer: "https://issuer.example".into(), ..Default::default() }
}
pub fn offer(auth: bool, pre: bool) -> CredentialOffer {
    CredentialOffer {
        credential_issuer: "https://issuer.example".into(),
        grants: CredentialOfferGrants {
            authorized_code_flow: if auth { Some(AuthorizedCodeFlow::default()) } else { None },
            pre_authorized_code_flow: if pre { Some(PreAuthorizedCodeFlow { code: "ABC".into(), user_pin_required: None }) } else { None },
        },
        ..Default::default()
    }
}
pub fn options(client: Option<&str>) -> EvaluateCredentialRequestOptions {
    EvaluateCredentialRequestOptions {
        c_nonce: Some(CNonceOptions { c_nonce_expires_in: 1000, expected_c_nonce: "tZignsnFbp".into(), c_nonce_created_at: chrono::Utc::now() }),
        client_id: client.map(Into::into),
    }
}
pub fn evaluate(h: &Value, b: &Value) -> Result<CredentialIssuerEvaluateRequestResponse, openid4vci::credential_issuer::error::CredentialIssuerError> {
    CredentialIssuer::evaluate_credential_request(&metadata(), &request(h, b), Some(&offer(false, true)), None, Some(&document()), Some(options(None)))
}
pub fn token_request(code: &str, pin: Option<u64>) -> AccessTokenRequest {
    serde_json::from_value(json!({"grant_type": {"grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "pre_authorized_code": code, "user_pin": pin}})).unwrap()
}
pub fn token_options(pin: Option<u64>) -> Option<EvaluateAccessTokenRequestOptions> {
    Some(serde_json::from_value(json!({"expected_user_pin": pin})).unwrap())
}
pub fn supported(id: Option<&str>, types: &[&str]) -> CredentialSupported {
    CredentialSupported {
        format: CredentialFormatProfile::JwtVcJson { types: types.iter().map(|t| t.to_string()).collect(), credential_subject: None, order: None },
        id: id.map(Into::into), cryptographic_binding_mehtods_supported: None, cryptographic_suites_supported: None, display: None,
    }
}

fn main() {
%s
}
'''
CARGO = '''[package]
name = "demo"
version = "0.0.0"
edition = "2021"

[workspace]

[dependencies]
openid4vci = { path = "/repo/crates/openid4vci" }
serde_json = "1"
base64 = "0.21.0"
chrono = { version = "0.4.24", features = ["serde"] }
ssi-dids = "=0.1.0"
ssi-jwk = { version = "0.1.0", default-features = false }
urlencoding = "2.1.2"
'''
DEMO = '''#!/bin/bash
# run with cwd /repo: exit 0 when the library behaves as the property says
D=$(cd "$(dirname "$0")" && pwd)
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
rm -rf /tmp/seeded-demo-%(id)s
mkdir -p /tmp/seeded-demo-%(id)s/src || exit 2
cp "$D/Cargo.toml.txt" /tmp/seeded-demo-%(id)s/Cargo.toml
cp "$D/main.rs.txt" /tmp/seeded-demo-%(id)s/src/main.rs
cp /repo/Cargo.lock /tmp/seeded-demo-%(id)s/Cargo.lock
cd /tmp/seeded-demo-%(id)s || exit 2
CARGO_TARGET_DIR=${DEMO_TARGET:-/tmp/seeded-demo-%(id)s/target} cargo run --offline -q
rc=$?
cd /
rm -rf /tmp/seeded-demo-%(id)s
exit $rc
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def stable(o):
    a = json.load(open(o)); b = json.load(open('/opt/vp/BASELINE.json'))
    return set(b['stable']) <= set(a['passed'])


def load():
    S = []
    for f in sorted(glob.glob(os.path.join(H, 'tools', 'seeds', '*.py'))):
        g = {}
        exec(open(f).read(), g)
        S += g['SEEDS']
    return S


def main():
    only = sys.argv[1:]
    assert not sh('git -C /repo status --porcelain').stdout.strip()
    orig = sh('git -C /repo rev-list --max-parents=0 HEAD').stdout.strip().split('\n')
    for s in load():
        if only and s['id'] not in only:
            continue
        d = os.path.join(H, 'seeded', s['id'])
        os.makedirs(d, exist_ok=True)
        ok = True
        for f, old, new in s['edits']:
            p = os.path.join('/repo', SRC, f)
            t = open(p).read()
            k = t.split('#[cfg(test)]\nmod')[0].count(old)
            if k != 1:
                print(s['id'], 'edit matches %d times: %s' % (k, old[:60])); ok = False; break
            open(p, 'w').write(t.replace(old, new, 1))
        if not ok:
            sh('git -C /repo checkout -- .'); continue
        open(os.path.join(d, 'patch.diff'), 'w').write(sh('git -C /repo diff').stdout)
        open(os.path.join(d, 'Cargo.toml.txt'), 'w').write(CARGO)
        open(os.path.join(d, 'main.rs.txt'), 'w').write(PRELUDE % '\n'.join('    ' + l for l in s['demo'].strip().split('\n')))
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO % s)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        b = sh('bash /opt/vp/build.sh')
        sh('bash /opt/vp/test.sh /tmp/seed-o.json')
        t = b.returncode == 0 and stable('/tmp/seed-o.json')
        env = dict(os.environ, DEMO_TARGET='/tmp/seed-target')
        r1 = sh(os.path.join(d, 'demo.sh'), cwd='/repo', env=env)
        sh('git -C /repo checkout -- .')
        r0 = sh(os.path.join(d, 'demo.sh'), cwd='/repo', env=env)
        good = t and r1.returncode != 0 and r0.returncode == 0
        print('%-4s %-28s build+tests %s, demo clean %d patched %d' % ('ok' if good else 'BAD', s['id'], t, r0.returncode, r1.returncode), flush=True)
        if not good:
            print((b.stdout if b.returncode else r0.stdout if r0.returncode else '')[-1500:])
            if not t and b.returncode == 0:
                a = json.load(open('/tmp/seed-o.json')); print('   failing:', a['failed'][:5])
            shutil.rmtree(d)
    sh('bash /opt/vp/build.sh')


main()
