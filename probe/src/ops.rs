//! Runs one case on the real library and compares what is observed with what the properties say.
use crate::model::*;
use crate::{clock, set_clock};
use openid4vci::access_token::error::AccessTokenError;
use openid4vci::access_token::error_response::AccessTokenErrorCode;
use openid4vci::access_token::*;
use openid4vci::credential_issuer::error::CredentialIssuerError;
use openid4vci::credential_issuer::error_code::CredentialIssuerErrorCode;
use openid4vci::credential_issuer::*;
use openid4vci::jwt::error::JwtError;
use openid4vci::jwt::*;
use openid4vci::return_object::{ReturnObject, ToReturnObject};
use openid4vci::types::authorization_server_metadata::AuthorizationServerMetadata;
use openid4vci::types::credential::*;
use openid4vci::types::credential_issuer_metadata::*;
use openid4vci::types::credential_request::*;
use openid4vci::types::token_type::AccessTokenType;
use openid4vci::validate::{Validatable, ValidationError};
use serde_json::{json, Value};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;

#[derive(Default)]
pub struct Outcome {
    pub violations: Vec<(&'static str, String)>,
    pub interesting: bool,
    pub key: String,
    pub hash: u64,
}

impl Outcome {
    fn no(&mut self, props: &[&'static str], what: impl Into<String>) {
        let w = what.into();
        for p in props {
            self.violations.push((p, w.clone()));
        }
    }

    fn check(&mut self, ok: bool, props: &[&'static str], what: &str) {
        if !ok {
            self.no(props, what);
        }
    }

    /// calls the library; a panic is a violation of C21
    fn call<T>(&mut self, what: &str, f: impl FnOnce() -> T) -> Option<T> {
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(v) => Some(v),
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                self.no(&["C21"], format!("{what} panicked: {m}"));
                None
            }
        }
    }

    fn seen(&mut self, k: impl Into<String>) {
        self.key.push_str(&k.into());
        self.key.push(' ');
    }
}

pub fn kinds(prop: &str) -> Vec<&'static str> {
    match prop {
        "C01" | "C02" | "C03" => vec!["token"],
        "C04" => vec!["cred", "cred", "cred", "jwt"],
        "C05" => vec!["cred", "cred", "cred", "jwt"],
        "C06" => vec!["cred", "cred", "pre", "resp", "jwt"],
        "C07" => vec!["cred", "jwt"],
        "C08" => vec!["cred", "cred", "key"],
        "C09" => vec!["cred", "jwt"],
        "C10" => vec!["cred"],
        "C11" => vec!["cred", "pre", "jwt"],
        "C12" => vec!["jwt", "cred"],
        "C13" => vec!["meta", "meta", "offer", "cred"],
        "C14" | "C15" => vec!["offer"],
        "C16" => vec!["resp"],
        "C17" => vec!["tokenresp", "errresp"],
        "C18" => vec!["codes"],
        "C19" => vec!["errors"],
        "C20" => vec!["json"],
        "C22" => vec!["key", "key", "cred"],
        "C23" => vec!["wire", "wire", "errors"],
        _ => vec!["token", "cred", "pre", "resp", "jwt", "meta", "offer", "tokenresp", "errresp", "codes", "errors", "json", "key", "wire"],
    }
}

pub fn run(case: &Value) -> Outcome {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut o = Outcome::default();
        set_clock(case["now"].as_array().map(|a| a[0].as_i64().unwrap() as i128 * 1_000_000_000 + a[1].as_i64().unwrap() as i128), case["step"].as_i64().unwrap_or(0) as i128);
        match case["kind"].as_str() {
            Some("token") => token(case, &mut o),
            Some("cred") => cred(case, &mut o),
            Some("pre") => pre(case, &mut o),
            Some("resp") => resp(case, &mut o),
            Some("jwt") => jwts(case, &mut o),
            Some("meta") => meta(case, &mut o),
            Some("offer") => offer(case, &mut o),
            Some("tokenresp") => tokenresp(case, &mut o),
            Some("errresp") => errresp(case, &mut o),
            Some("codes") => codes(case, &mut o),
            Some("errors") => errors(case, &mut o),
            Some("json") => jsons(case, &mut o),
            Some("key") => key(case, &mut o),
            Some("wire") => wire(case, &mut o),
            _ => None,
        };
        o
    }));
    set_clock(None, 0);
    let mut o = r.unwrap_or_default();
    let mut h = DefaultHasher::new();
    o.key.hash(&mut h);
    case.to_string().hash(&mut h);
    o.hash = h.finish();
    o
}

/// a smaller case that still violates the property
pub fn shrink(case: &Value, prop: &str) -> Value {
    let bad = |c: &Value| run(c).violations.iter().any(|(p, _)| *p == prop);
    let mut cur = case.clone();
    let end = std::time::Instant::now() + std::time::Duration::from_secs(4);
    let mut go = true;
    while go && std::time::Instant::now() < end {
        go = false;
        let mut paths = vec![];
        collect(&cur, String::new(), &mut paths);
        for p in paths {
            if std::time::Instant::now() > end {
                break;
            }
            let Some(v) = cur.pointer(&p).cloned() else { continue };
            let mut tries = vec![];
            match &v {
                Value::String(s) if !s.is_empty() => {
                    let c: Vec<char> = s.chars().collect();
                    tries.push(json!(c[..c.len() / 2].iter().collect::<String>()));
                    tries.push(json!(c[..c.len() - 1].iter().collect::<String>()));
                }
                Value::Array(a) if !a.is_empty() && !p.ends_with("now") && !p.ends_with("created") => {
                    for i in 0..a.len() {
                        let mut b = a.clone();
                        b.remove(i);
                        tries.push(json!(b));
                    }
                }
                Value::Object(_) => tries.push(Value::Null),
                _ => {}
            }
            for t in tries {
                let mut c = cur.clone();
                *c.pointer_mut(&p).unwrap() = t;
                if c["kind"] == cur["kind"] && bad(&c) {
                    cur = c;
                    go = true;
                    break;
                }
            }
        }
    }
    cur
}

fn collect(v: &Value, p: String, out: &mut Vec<String>) {
    if !p.is_empty() && p != "/kind" {
        out.push(p.clone());
    }
    match v {
        Value::Object(o) => o.iter().for_each(|(k, v)| collect(v, format!("{p}/{}", k.replace('~', "~0").replace('/', "~1")), out)),
        Value::Array(a) => a.iter().enumerate().for_each(|(i, v)| collect(v, format!("{p}/{i}"), out)),
        _ => {}
    }
}

// ================================================================ token requests: C01 C02 C03
fn token(c: &Value, o: &mut Outcome) -> Option<()> {
    let req = token_request(&c["request"])?;
    let is_pre = c["request"]["grant"] == "pre";
    let pin = if is_pre { c["request"]["pin"].as_u64() } else { None };
    let code = c["request"]["code"].as_str();
    let long = pin.is_some_and(|p| p.to_string().len() > 8);
    if let Some(r) = o.call("AccessTokenRequest::validate", || req.validate()) {
        o.check(r.is_ok() != long, &["C02"], "validate: a PIN is rejected exactly if it has more than 8 digits");
        o.check(r.is_ok() != long, if long { &["C01"] } else { &[] }, "validate accepts a PIN of more than 8 digits");
    }
    let offer = || offer_from(&c["offer"]);
    let opts = || token_opts(&c["opts"]);
    let expected = c["opts"]["pin"].as_u64();
    let has_offer = offer().is_some();
    let (has_auth, pre) = offer().map(|f| (f.grants.authorized_code_flow.is_some(), f.grants.pre_authorized_code_flow)).unwrap_or((false, None));
    let required = pre.as_ref().and_then(|p| p.user_pin_required).unwrap_or(false);
    let code_eq = pre.as_ref().map(|p| Some(p.code.as_str()) == code).unwrap_or(false);
    let pin_eq = pin.is_none() || pin == expected;
    let accept = is_pre && has_offer && pre.is_some() && code_eq && pin.is_some() == required && !long && pin_eq;
    o.interesting = is_pre && pre.is_some();
    let r = o.call("evaluate_access_token_request", || AccessToken::evaluate_access_token_request(&req, offer(), opts()))?;
    o.seen(format!("{:?}", r.is_ok()));
    o.check(r.is_ok() == accept, &["C01"], &format!("evaluate_access_token_request returned {:?}, expected {}", r, if accept { "acceptance" } else { "an error" }));
    o.check(!(long && r.is_ok()), &["C02"], "a PIN of more than 8 digits was accepted");
    fn truth(o: &mut Outcome, e: &AccessTokenError, f: &dyn Fn(&AccessTokenError) -> Option<bool>) {
        if let AccessTokenError::InvalidAuthorizedAndPreAuthorizedCodeFlow { authorized_error, pre_authorized_error } = e {
            truth(o, authorized_error, f);
            truth(o, pre_authorized_error, f);
            if matches!(**pre_authorized_error, AccessTokenError::InvalidGrantType { .. }) {
                o.no(&["C03"], format!("the reason of the other grant is reported for the pre-authorized code: {e:?}"));
            }
        }
        if f(e) == Some(false) {
            o.no(&["C03"], format!("the rejection names a cause that is not true: {e:?}"));
        }
    }
    if let Err(e) = &r {
        o.seen(e.as_ref().to_owned());
        let lengthy = std::cell::Cell::new(false);
        truth(o, e, &|e| match e {
            AccessTokenError::UserPinMismatch => Some(pin.is_some() && expected.is_some() && pin != expected),
            AccessTokenError::OptionsAreRequiredForEvaluation { .. } => Some(pin.is_some() && expected.is_none()),
            AccessTokenError::CredentialOfferMustBeSupplied => Some(!has_offer),
            AccessTokenError::AuthorizedFlowNotSupported => Some(!is_pre),
            AccessTokenError::NoFlowSupportedInCredentialOffer => Some(has_offer && !has_auth && pre.is_none()),
            AccessTokenError::InvalidPreAuthorizedCodeFlowValues { should_pin_be_supplied, does_code_match } => {
                Some(pre.is_some() && *should_pin_be_supplied == required && *does_code_match == code_eq && !(code_eq && pin.is_some() == required))
            }
            AccessTokenError::InvalidGrantType { .. } => Some(is_pre && has_offer && has_auth),
            AccessTokenError::ValidationError(_) => {
                lengthy.set(true);
                None
            }
            _ => None,
        });
        o.check(!(lengthy.get() && !long), &["C02", "C03"], "rejected for its length although the PIN has at most 8 digits");
        errinfo(o, "AccessTokenError", || e.information());
    }
    Some(())
}

fn errinfo(o: &mut Outcome, what: &str, f: impl FnOnce() -> openid4vci::error::ErrorInformation) {
    o.call(&format!("{what}::information"), || {
        let i = f();
        format!("{i} {i:?}")
    });
}

// ================================================================ credential requests: C04 to C13, C22
fn unique_ids(m: &Value) -> bool {
    let mut s = std::collections::HashSet::new();
    m["credentials_supported"].as_array().map(|a| a.iter().filter_map(|c| c["id"].as_str()).all(|i| s.insert(i))).unwrap_or(true)
}

fn document(v: &Value) -> Option<ssi_dids::Document> {
    if v.is_null() {
        None
    } else {
        serde_json::from_value(v.clone()).ok()
    }
}

fn cred(c: &Value, o: &mut Outcome) -> Option<()> {
    let m = meta_from(&c["meta"])?;
    let req = request_from(&c["request"])?;
    let offer = offer_from(&c["offer"]);
    let asm = if c["asm"] == true { Some(AuthorizationServerMetadata {}) } else { None };
    let doc = document(&c["doc"]);
    let opts = opts_from(&c["opts"]);
    let t0 = clock();
    if odd_proof(&c["request"]["proof"]) {
        return None;
    }
    let r = o.call("evaluate_credential_request", || CredentialIssuer::evaluate_credential_request(&m, &req, offer.as_ref(), asm.as_ref(), doc.as_ref(), opts.clone()));
    let t1 = clock();
    let r = r?;
    let pv = &c["request"]["proof"];
    let has_proof = req.proof.is_some();
    let parsed = pv["jwt"].as_str().and_then(jwt);
    let good = if has_proof { proof_ok(pv) } else { None };
    let cn = opts.as_ref().and_then(|x| x.c_nonce.as_ref());
    let expiry = cn.map(|n| (nanos(&n.c_nonce_created_at) + n.c_nonce_expires_in as i128 * 1_000_000_000).min(nanos(&chrono::DateTime::<chrono::Utc>::MAX_UTC)));
    let uniq = unique_ids(&c["meta"]);
    let (auth, pre_) = offer.as_ref().map(|f| (f.grants.authorized_code_flow.is_some(), f.grants.pre_authorized_code_flow.is_some())).unwrap_or((false, false));
    let b = parsed.as_ref().map(|j| &j.body);
    let nonce_eq = matches!((cn, b), (Some(n), Some(b)) if n.expected_c_nonce == b.nonce);
    let aud = b.is_some_and(|b| b.aud == m.credential_issuer);
    let iss = match (&opts, b) {
        (Some(x), Some(b)) => match &x.client_id {
            Some(id) => b.iss.as_ref() == Some(id),
            None => b.iss.is_none() || !(auth || !pre_),
        },
        _ => true,
    };
    let (nbf, exp) = (b.and_then(|b| b.nbf.as_ref()).map(nanos), b.and_then(|b| b.exp.as_ref()).map(nanos));
    let kid = parsed.as_ref().and_then(|j| match &j.header.key { Some(KeyHeader::KeyId(k)) => Some(k.clone()), _ => None });
    let (did, pk) = kid.as_ref().map(|k| did_key(k, doc.as_ref())).unwrap_or((None, None));
    let all = uniq && offer.is_some() && asm.is_none() && good.is_some() && nonce_eq && aud && iss && pk.is_some() && expiry.is_some_and(|e| e >= t1)
        && nbf.map_or(true, |n| n <= t0) && exp.map_or(true, |e| e > t1);
    let signed = parsed.as_ref().is_some_and(|j| j.sig.is_some());
    o.interesting = good.is_some() && nonce_eq;
    o.seen(format!("{:?}", r.is_ok()));
    match &r {
        Ok(x) => {
            o.check(cn.is_some(), &["C04", "C10"], "accepted without nonce options");
            o.check(nonce_eq, &["C04", "C10"], "accepted with another nonce than the expected one");
            o.check(expiry.map_or(true, |e| e >= t0), &["C04", "C10"], "accepted with an expired nonce");
            o.check(aud, &["C05", "C10"], "accepted for another audience");
            o.check(iss, &["C05", "C10"], "accepted from another client");
            o.check(has_proof, &["C06", "C10"], "accepted without proof");
            o.check(!has_proof || ci(pv["proof_type"].as_str().unwrap_or(""), "jwt"), &["C06", "C10"], "accepted with another proof type");
            o.check(!has_proof || parsed.is_some(), &["C12", "C10"], "accepted with a proof that does not parse");
            o.check(parsed.as_ref().map_or(true, |j| header_ok(&j.header)), &["C06", "C10"], "accepted with another header type or a forbidden algorithm");
            o.check(nbf.map_or(true, |n| n <= t1), &["C07", "C10"], "accepted a proof that is not valid yet");
            o.check(exp.map_or(true, |e| e > t0), &["C07", "C10"], "accepted an expired proof");
            o.check(kid.is_some(), &["C08", "C10"], "accepted a proof without key id");
            o.check(pk.is_some(), &["C08", "C10", "C22"], "accepted although the key id names no supported key");
            o.check(uniq, &["C13", "C10"], "accepted with invalid issuer metadata");
            o.check(offer.is_some() && asm.is_none(), &["C10"], "accepted without offer or with authorization server metadata");
            match (&x.proof_of_possession, &parsed) {
                (Some(p), Some(j)) => {
                    o.check(Some(&p.public_key) == pk.as_ref(), &["C08"], "another public key than the one the key id names");
                    o.check(alg_name(&p.algorithm) == j.header.alg.name(), &["C08"], "another algorithm than the one in the header");
                    // known deviation: the unencoded JSON of header and body (see known_findings.json)
                    let u = unencoded(j);
                    o.check(p.message == j.signing.as_bytes() || Some(p.message.as_slice()) == u.as_deref().map(str::as_bytes), &["C09"], "the message is neither the signing input nor the known deviation from it");
                    let sig = match &j.sig {
                        Some(s) => Some(s.as_bytes().to_vec()),
                        None => u.as_ref().and_then(|u| u.splitn(3, '.').nth(2).map(|s| s.as_bytes().to_vec())),
                    };
                    o.check(Some(&p.signature) == sig.as_ref(), &["C09"], "the signature is not the third segment of the proof");
                }
                (None, _) => o.no(&["C08", "C09"], "accepted without handing out a proof of possession"),
                _ => {}
            }
            o.check(x.subject_id.is_some() && x.subject_id == did, &["C08", "C11"], "the subject is not the DID of the key id");
            o.check(x.credential == req.format, &["C08"], "the credential is not the requested one");
            let subj = x.subject_id.clone();
            if let Some(p) = o.call("pre_evaluate_credential_request", || CredentialIssuer::pre_evaluate_credential_request(&req)) {
                o.check(matches!(&p, Ok(p) if p.did == subj), &["C11"], &format!("evaluation accepts with subject {subj:?} but pre-evaluation returns {p:?}"));
            }
        }
        Err(e) => {
            o.seen(e.as_ref().to_owned());
            if let CredentialIssuerError::JwtError(j) = e {
                o.seen(j.as_ref().to_owned());
            }
            o.check(!(all && signed), &["C10"], &format!("every condition holds but the request was rejected: {e:?}"));
            match e {
                CredentialIssuerError::CNonceIsExpired { .. } => o.check(expiry.is_some_and(|x| x < t1), &["C04", "C10"], "a living nonce was reported as expired"),
                CredentialIssuerError::CredentialOfferMustBeSupplied => o.check(offer.is_none(), &["C10"], "a missing offer was reported although one was supplied"),
                CredentialIssuerError::AuthorizationServerMetadataNotSupported => o.check(asm.is_some(), &["C10"], "authorization server metadata was reported although none was supplied"),
                CredentialIssuerError::NoProofInCredentialRequest => o.check(!has_proof, &["C10"], "a missing proof was reported although there is one"),
                _ => {}
            }
            if let CredentialIssuerError::JwtError(j) = e {
                window(o, j, nbf, exp, t0, t1);
            }
            errinfo(o, "CredentialIssuerError", || e.information());
        }
    }
    Some(())
}

fn window(o: &mut Outcome, e: &JwtError, nbf: Option<i128>, exp: Option<i128>, t0: i128, t1: i128) {
    match e {
        JwtError::NotYetValid { valid_from, .. } => o.check(nbf.is_some_and(|n| n > t0 && n == nanos(valid_from)), &["C07"], "reported as not yet valid, wrongly or with another boundary"),
        JwtError::NotValidAnymore { valid_until, .. } => o.check(exp.is_some_and(|n| n <= t1 && n == nanos(valid_until)), &["C07"], "reported as expired, wrongly or with another boundary"),
        _ => {}
    }
}

fn unencoded(j: &Jwt) -> Option<String> {
    Some(format!("{}.{}", serde_json::to_string(&header_lib(&j.header)).ok()?, serde_json::to_string(&body_lib(&j.body)).ok()?))
}

fn pre(c: &Value, o: &mut Outcome) -> Option<()> {
    let req = request_from(&c["request"])?;
    if odd_proof(&c["request"]["proof"]) {
        return None;
    }
    let r = o.call("pre_evaluate_credential_request", || CredentialIssuer::pre_evaluate_credential_request(&req))?;
    let pv = &c["request"]["proof"];
    let has = req.proof.is_some();
    let good = if has { proof_ok(pv) } else { None };
    o.interesting = good.is_some();
    o.seen(format!("{}", r.is_ok()));
    if has && good.is_none() {
        let p = pv["jwt"].as_str().and_then(jwt);
        let t: &[&'static str] = if p.is_none() { &["C06", "C12"] } else { &["C06"] };
        o.check(r.is_err(), t, "pre-evaluation accepted an unacceptable proof");
    }
    match (&r, &good) {
        (r, _) if !has => o.check(matches!(r, Ok(p) if p.did.is_none()), &["C11"], "without proof, pre-evaluation must return nothing"),
        (r, Some(j)) => match &j.header.key {
            None => o.check(matches!(r, Ok(p) if p.did.is_none()), &["C11"], "without key header, pre-evaluation must return nothing"),
            Some(KeyHeader::KeyId(k)) => {
                let did = did_key(k, None).0;
                if did.is_some() {
                    o.check(matches!(r, Ok(p) if p.did == did), &["C11"], &format!("pre-evaluation returned {r:?}, expected the DID part of the key id {did:?}"));
                } else {
                    o.check(!matches!(r, Ok(p) if p.did.is_some()), &["C11"], "pre-evaluation returned a DID although the key id is none");
                }
            }
            Some(_) => o.check(r.is_err(), &["C11"], "pre-evaluation accepted a raw key or certificate chain"),
        },
        _ => {}
    }
    if let Ok(p) = &r {
        o.call("serialize", || serde_json::to_string(p));
    }
    Some(())
}

// ================================================================ responses: C16 C17
fn resp(c: &Value, o: &mut Outcome) -> Option<()> {
    let req = request_from(&c["request"])?;
    if odd_proof(&c["request"]["proof"]) {
        return None;
    }
    let cred = fmt_from(&c["credential"]);
    let token = so(&c["token"]);
    let arg = match (&cred, &token) {
        (Some(c), _) => Some(CredentialOrAcceptanceToken::Credential(c.clone())),
        (None, Some(t)) => Some(CredentialOrAcceptanceToken::AcceptanceToken(t.clone())),
        _ => None,
    };
    let token = if cred.is_some() { None } else { token };
    let nonce = so(&c["c_nonce"]["c_nonce"]);
    let life = if nonce.is_some() { c["c_nonce"]["c_nonce_expires_in"].as_u64().map(|x| x as u32) } else { None };
    let cn = nonce.clone().map(|n| CNonce { c_nonce: n, c_nonce_expires_in: life });
    let t0 = clock();
    let r = o.call("create_credential_success_response", || CredentialIssuer::create_credential_success_response(&req, arg, cn))?;
    let good = req.proof.is_none() || proof_ok(&c["request"]["proof"]).is_some();
    o.interesting = good;
    o.seen(format!("{}", r.is_ok()));
    if !good {
        o.check(r.is_err(), &["C06"], "answered although the contained proof is unacceptable");
        return Some(());
    }
    let Ok((x, t)) = &r else {
        o.no(&["C16"], format!("no response for an acceptable request: {r:?}"));
        return Some(());
    };
    o.check(nanos(t) >= t0 && nanos(t) <= clock(), &["C16"], "the time of creation is not the moment of creation");
    let v = o.call("serialize", || serde_json::to_value(x).ok())??;
    let same = |k: &str, e: Value| v.get(k).cloned().unwrap_or(Value::Null) == e;
    o.check(same("format", json!(fmt_name(&req.format))), &["C16"], "the response does not name the requested format");
    o.check(same("acceptance_token", json!(token)), &["C16"], "the acceptance token is not the given one");
    o.check(same("c_nonce", json!(nonce)), &["C16"], "the nonce is not the given one");
    o.check(same("c_nonce_expires_in", json!(life)), &["C16"], "the nonce lifetime is not the given one");
    let member = v.get("credential").cloned().unwrap_or(Value::Null);
    match &cred {
        None => o.check(member.is_null(), &["C16"], "a credential although none was given"),
        Some(k @ CredentialFormatProfile::LdpVc { .. }) => {
            let e = serde_json::to_value(k).ok()?;
            o.check(member.is_object() && member == e, &["C16"], &format!("the credential member is {member}, expected {e}"));
        }
        Some(k) => {
            let e = serde_json::to_value(k).ok()?;
            let d = member.as_str().and_then(b64d).and_then(|b| serde_json::from_slice::<Value>(&b).ok());
            o.check(d.as_ref() == Some(&e), &["C16"], &format!("the credential member is {member}, expected the base64url encoding of {e}"));
        }
    }
    Some(())
}

fn tokenresp(c: &Value, o: &mut Outcome) -> Option<()> {
    let u = |k: &str| c[k].as_u64().map(|x| x as u32);
    let t0 = clock();
    let r = o.call("create_access_token_success_response", || AccessToken::create_access_token_success_response(
        s(&c["access_token"]).unwrap_or_default(), AccessTokenType::Bearer, u("expires_in"), so(&c["scope"]), so(&c["c_nonce"]), u("c_nonce_expires_in"),
        c["authorization_pending"].as_bool(), u("interval")))?;
    o.interesting = true;
    let Ok((x, t)) = r else {
        o.no(&["C17"], "creating a token success response failed");
        return Some(());
    };
    o.check(nanos(&t) >= t0 && nanos(&t) <= clock(), &["C17"], "the time of creation is not the moment of creation");
    let e = AccessTokenSuccessResponse {
        access_token: s(&c["access_token"]).unwrap_or_default(), token_type: AccessTokenType::Bearer, expires_in: u("expires_in"), scope: so(&c["scope"]),
        c_nonce: so(&c["c_nonce"]), c_nonce_expires_in: u("c_nonce_expires_in"), authorization_pending: c["authorization_pending"].as_bool(), interval: u("interval"),
    };
    o.check(x == e && x.access_token == e.access_token && x.expires_in == e.expires_in && x.scope == e.scope && x.c_nonce == e.c_nonce && x.c_nonce_expires_in == e.c_nonce_expires_in
        && x.authorization_pending == e.authorization_pending && x.interval == e.interval, &["C17"], &format!("created {x:?}, expected {e:?}"));
    let bad = x.c_nonce.is_none() && x.c_nonce_expires_in.is_some();
    let v = o.call("AccessTokenSuccessResponse::validate", || e.validate())?;
    o.check(v.is_err() == bad, &["C17"], "a token success response validates exactly without a nonce lifetime lacking a nonce");
    let j = o.call("serialize", || serde_json::to_value(&e).ok())??;
    for k in ["access_token", "expires_in", "scope", "c_nonce", "c_nonce_expires_in", "authorization_pending", "interval"] {
        o.check(j.get(k).cloned().unwrap_or(Value::Null) == c[k], &["C17"], &format!("member {k} of {j} is not the given value"));
    }
    o.check(j["token_type"] == "Bearer", &["C17", "C18"], "token_type is not Bearer");
    Some(())
}

fn errresp(c: &Value, o: &mut Outcome) -> Option<()> {
    let (d, u) = (so(&c["description"]), so(&c["uri"]));
    let det = if c["details"].is_null() { None } else if c["details"]["$null"] == json!(true) { Some(Value::Null) } else { Some(c["details"].clone()) };
    o.interesting = true;
    let i = c["code"].as_u64()? as usize;
    macro_rules! one {
        ($r:expr, $code:expr, $name:expr) => {
            match $r {
                Some(Ok(x)) => {
                    o.check(x.error == $code, &["C17"], "the error code is not the given one");
                    o.check(x.error_description == d && x.error_uri == u && x.error_additional_details == det, &["C17"], "description, URI or details are not the given ones");
                    if det.as_ref().map_or(true, |d| d.is_object()) {
                        if let Some(j) = o.call("serialize", || serde_json::to_value(&x).ok()).flatten() {
                            let shadow = det.as_ref().is_some_and(|d| d.get("error").is_some() || d.get("error_description").is_some() || d.get("error_uri").is_some());
                            if !shadow {
                                o.check(j["error"] == $name, &["C18", "C17"], &format!("the error member of {j} is not {}", $name));
                                o.check(j["error_description"] == json!(d) && j["error_uri"] == json!(u), &["C17"], "description or URI are not written under their name");
                                if let Some(Value::Object(m)) = &det {
                                    o.check(m.iter().all(|(k, v)| j.get(k) == Some(v)), &["C17"], "the details are not written");
                                }
                            }
                        }
                    }
                }
                Some(Err(_)) => o.no(&["C17"], "creating an error response failed"),
                None => {}
            }
        };
    }
    if c["side"] == "token" {
        let t = token_codes();
        let (code, name) = t[i % t.len()].clone();
        let r = o.call("create_access_token_error_response", || AccessToken::create_access_token_error_response(code.clone(), d.clone(), u.clone(), det.clone()));
        one!(r, code, name);
    } else {
        let t = issuer_codes();
        let (code, name) = t[i % t.len()].clone();
        let r = o.call("create_credential_error_response", || CredentialIssuer::create_credential_error_response(&code, d.clone(), u.clone(), det.clone()));
        one!(r, code, name);
    }
    Some(())
}

// ================================================================ codes: C18
fn token_codes() -> Vec<(AccessTokenErrorCode, &'static str)> {
    use AccessTokenErrorCode::*;
    vec![(InvalidRequest, "invalid_request"), (InvalidGrant, "invalid_grant"), (InvalidClient, "invalid_client"), (AccessDenied, "access_denied"),
         (UnsupportedResponseType, "unsupported_response_type"), (InvalidScope, "invalid_scope"), (ServerError, "server_error"), (TemporarilyUnavailable, "temporarily_unavailable")]
}

fn issuer_codes() -> Vec<(CredentialIssuerErrorCode, &'static str)> {
    use CredentialIssuerErrorCode::*;
    vec![(InvalidRequest, "invalid_request"), (InvalidToken, "invalid_token"), (UnsupportedCredentialType, "unsupported_credential_type"),
         (UnsupportedCredentialFormat, "unsupported_credential_format"), (InvalidOrMissingProof, "invalid_or_missing_proof")]
}

fn codes(c: &Value, o: &mut Outcome) -> Option<()> {
    let x = s(&c["s"])?;
    o.interesting = true;
    macro_rules! table {
        ($ty:ty, $t:expr) => {
            for (code, name) in $t {
                let n: Option<&str> = o.call("From", || code.clone().into());
                o.check(n == Some(name), &["C18"], &format!("{code:?} converts to {n:?}, not {name}"));
                let b = o.call("TryFrom", || <$ty>::try_from(name.to_owned()).ok()).flatten();
                o.check(b.as_ref() == Some(&code), &["C18"], &format!("{name} converts to {b:?}, not {code:?}"));
                let j = o.call("serialize", || serde_json::to_value(&code).ok()).flatten();
                o.check(j == Some(json!(name)), &["C18"], &format!("{code:?} is written as {j:?}, not {name}"));
                let k = o.call("deserialize", || serde_json::from_value::<$ty>(json!(name)).ok()).flatten();
                o.check(k.as_ref() == Some(&code), &["C18"], &format!("{name} is read as {k:?}, not {code:?}"));
            }
            let known = $t.iter().any(|(_, n)| *n == x);
            let b = o.call("TryFrom", || <$ty>::try_from(x.clone()).ok()).flatten();
            o.check(b.is_some() == known, &["C18"], &format!("{x:?} converts to {b:?}"));
            let k = o.call("deserialize", || serde_json::from_value::<$ty>(json!(x)).ok()).flatten();
            o.check(k.is_some() == known, &["C18"], &format!("{x:?} is read as {k:?}"));
        };
    }
    table!(AccessTokenErrorCode, token_codes());
    table!(CredentialIssuerErrorCode, issuer_codes());
    table!(AccessTokenType, vec![(AccessTokenType::Bearer, "Bearer")]);
    Some(())
}

// ================================================================ errors: C19
fn errors(c: &Value, o: &mut Outcome) -> Option<()> {
    let st = |k: usize| s(&c["strings"][k]).unwrap_or_default();
    let os = |k: usize| so(&c["strings"][k]);
    let t = |k: usize| time(&c["times"][k]).unwrap_or_default();
    let (b0, b1) = (c["flags"][0] == true, c["flags"][1] == true);
    let v = || ValidationError::Any { validation_message: st(0) };
    let f = || fmt_from(&c["format"]).unwrap_or(CredentialFormatProfile::MsoMdoc { doctype: String::new(), claims: None, order: None });
    let n = c["n"].as_u64()? as usize;
    o.interesting = true;
    let jwt_errors: Vec<(JwtError, u32, &str)> = vec![
        (JwtError::ValidationError(v()), 300, "ValidationError"),
        (JwtError::NotYetValid { valid_from: t(0), now: t(1) }, 301, "NotYetValid"),
        (JwtError::NotValidAnymore { valid_until: t(0), now: t(1) }, 302, "NotValidAnymore"),
        (JwtError::IssuerMismatch { expected_iss_in_jwt: os(0), actual_iss_in_jwt: os(1) }, 303, "IssuerMismatch"),
        (JwtError::NoKeyFoundInProof, 304, "NoKeyFoundInProof"),
        (JwtError::NoDidDocumentProvidedForKidAsDid, 305, "NoDidDocumentProvidedForKidAsDid"),
        (JwtError::UnableToTransformIntoDid { kid: st(0), message: st(1) }, 306, "UnableToTransformIntoDid"),
        (JwtError::UnableToResolveDidInDidDocument { did: st(0), message: st(1) }, 307, "UnableToResolveDidInDidDocument"),
        (JwtError::UnableToMapVerificationMethodToJwk { messsage: st(0) }, 308, "UnableToMapVerificationMethodToJwk"),
        (JwtError::UnableToTransformIntoJoseItem { original_string: st(0), serde_message: st(1) }, 309, "UnableToTransformIntoJoseItem"),
        (JwtError::UnsupportedAlgorithm { algorithm: st(0) }, 310, "UnsupportedAlgorithm"),
        (JwtError::EdDSAHasNoXCoordinate, 311, "EdDSAHasNoXCoordinate"),
        (JwtError::ESXXXHasNoXOrYCoordinate { algorithm: st(0), x: Some(st(1).into_bytes()), y: None }, 312, "ESXXXHasNoXOrYCoordinate"),
        (JwtError::SignatureNotInJwt { jwt: st(0) }, 313, "SignatureNotInJwt"),
        (JwtError::UnsupportedKeyTypeInJwtHeader { key_name: st(0), key_type: st(1) }, 314, "UnsupportedKeyTypeInJwtHeader"),
        (JwtError::NonceMismatch { expected_nonce: os(0), actual_nonce: st(1) }, 315, "NonceMismatch"),
        (JwtError::AudienceMismatch { expected_aud_in_jwt: st(0), actual_aud_in_jwt: st(1) }, 316, "AudienceMismatch"),
    ];
    let issuer_errors: Vec<(CredentialIssuerError, u32, &str)> = vec![
        (CredentialIssuerError::ValidationError(v()), 100, "ValidationError"),
        (CredentialIssuerError::JwtError(jwt_errors[n % jwt_errors.len()].0.clone()), 101, "JwtError"),
        (CredentialIssuerError::AuthorizedFlowNotSupported, 102, "AuthorizedFlowNotSupported"),
        (CredentialIssuerError::CredentialIdNotInIssuerMetadata { id: st(0) }, 103, "CredentialIdNotInIssuerMetadata"),
        (CredentialIssuerError::InvalidCredentialOfferEncoding { error_message: st(0) }, 104, "InvalidCredentialOfferEncoding"),
        (CredentialIssuerError::InvalidRequestedCredential { requested_credential: Box::new(f()), supported_formats: vec![f(); n % 3] }, 105, "InvalidRequestedCredential"),
        (CredentialIssuerError::ExpiredCNonce { now: t(0), expires_in: if b0 { Some(t(1)) } else { None } }, 106, "ExpiredCNonce"),
        (CredentialIssuerError::CredentialAndAcceptanceTokenSupplied, 107, "CredentialAndAcceptanceTokenSupplied"),
        (CredentialIssuerError::AuthorizationServerMetadataNotSupported, 108, "AuthorizationServerMetadataNotSupported"),
        (CredentialIssuerError::CredentialOfferMustBeSupplied, 109, "CredentialOfferMustBeSupplied"),
        (CredentialIssuerError::EvaluteCredentialRequestOptionsNotSupplied { reason: st(0) }, 110, "EvaluteCredentialRequestOptionsNotSupplied"),
        (CredentialIssuerError::CNonceIsExpired { now: t(0), expiry_timestamp: t(1) }, 111, "CNonceIsExpired"),
        (CredentialIssuerError::NoProofInCredentialRequest, 112, "NoProofInCredentialRequest"),
    ];
    let token_errors: Vec<(AccessTokenError, u32, &str)> = vec![
        (AccessTokenError::ValidationError(v()), 400, "ValidationError"),
        (AccessTokenError::InvalidGrantType { requested_grant_type: st(0), accepted_grant_type: vec![st(1); n % 3] }, 401, "InvalidGrantType"),
        (AccessTokenError::AuthorizedFlowNotSupported, 402, "AuthorizedFlowNotSupported"),
        (AccessTokenError::NoFlowSupportedInCredentialOffer, 403, "NoFlowSupportedInCredentialOffer"),
        (AccessTokenError::InvalidPreAuthorizedCodeFlowValues { should_pin_be_supplied: b0, does_code_match: b1 }, 404, "InvalidPreAuthorizedCodeFlowValues"),
        (AccessTokenError::InvalidAuthorizedAndPreAuthorizedCodeFlow { authorized_error: Box::new(AccessTokenError::UserPinMismatch), pre_authorized_error: Box::new(AccessTokenError::ValidationError(v())) }, 405, "InvalidAuthorizedAndPreAuthorizedCodeFlow"),
        (AccessTokenError::OptionsAreRequiredForEvaluation { reason: st(0) }, 406, "OptionsAreRequiredForEvaluation"),
        (AccessTokenError::UserPinMismatch, 407, "UserPinMismatch"),
        (AccessTokenError::CredentialOfferMustBeSupplied, 409, "CredentialOfferMustBeSupplied"),
    ];
    // the JSON of each error, in the order of the tables
    let (val, some) = (json!({"validation_message": st(0)}), |k: usize| json!(os(k)));
    let jwt_jsons = vec![
        val.clone(), json!({"valid_from": t(0), "now": t(1)}), json!({"valid_until": t(0), "now": t(1)}),
        json!({"expected_iss_in_jwt": some(0), "actual_iss_in_jwt": some(1)}), Value::Null, Value::Null, json!({"kid": st(0), "message": st(1)}),
        json!({"did": st(0), "message": st(1)}), json!({"messsage": st(0)}), json!({"original_string": st(0), "serde_message": st(1)}),
        json!({"algorithm": st(0)}), Value::Null, json!({"algorithm": st(0), "x": st(1).into_bytes(), "y": null}), json!({"jwt": st(0)}),
        json!({"key_name": st(0), "key_type": st(1)}), json!({"expected_nonce": some(0), "actual_nonce": st(1)}),
        json!({"expected_aud_in_jwt": st(0), "actual_aud_in_jwt": st(1)}),
    ];
    let issuer_jsons = vec![
        val.clone(), jwt_jsons[n % jwt_jsons.len()].clone(), Value::Null, json!({"id": st(0)}), json!({"error_message": st(0)}),
        json!({"requested_credential": fmt_json(&f()), "supported_formats": vec![fmt_json(&f()); n % 3]}),
        json!({"now": t(0), "expires_in": if b0 { json!(t(1)) } else { Value::Null }}), Value::Null, Value::Null, Value::Null, json!({"reason": st(0)}),
        json!({"now": t(0), "expiry_timestamp": t(1)}), Value::Null,
    ];
    let token_jsons = vec![
        val.clone(), json!({"requested_grant_type": st(0), "accepted_grant_type": vec![st(1); n % 3]}), Value::Null, Value::Null,
        json!({"should_pin_be_supplied": b0, "does_code_match": b1}), json!({"authorized_error": null, "pre_authorized_error": val.clone()}),
        json!({"reason": st(0)}), Value::Null, Value::Null,
    ];
    macro_rules! table {
        ($t:expr, $j:expr) => {{
            let (e, code, name) = $t[n % $t.len()].clone();
            let want = &$j[n % $t.len()];
            o.seen(name);
            let got = o.call("serialize", || serde_json::to_value(&e).ok()).flatten();
            o.check(got.as_ref() == Some(want), &["C23"], &format!("{name} is written as {got:?}, expected {want}"));
            if let Some(i) = o.call("information", || e.information()) {
                o.check(i.code == code, &["C19"], &format!("{name} reports code {}, not {code}", i.code));
                o.check(i.name == name, &["C19"], &format!("{name} reports the name {}", i.name));
                o.check(i.description == e.to_string(), &["C19"], &format!("{name} does not report its description"));
                o.call("Display", || i.to_string());
                let r: Result<String, _> = Err(e.clone());
                if let Some(x) = o.call("to_return_object", || r.to_return_object()) {
                    let same = x.info.is_none() && x.warnings.is_none() && x.error.as_ref().is_some_and(|y| y.code == i.code && y.name == i.name && y.description == i.description && y.additional_information == i.additional_information);
                    o.check(same, &["C19"], &format!("the return object of a failure is {x:?}"));
                }
                let k: Result<String, _> = if true { Ok(st(2)) } else { Err(e) };
                if let Some(x) = o.call("to_return_object", || k.to_return_object()) {
                    o.check(x.info == Some(st(2)) && x.error.is_none() && x.warnings.is_none(), &["C19"], &format!("the return object of a success is {x:?}"));
                }
            }
        }};
    }
    table!(jwt_errors, jwt_jsons);
    table!(issuer_errors, issuer_jsons);
    table!(token_errors, token_jsons);
    table!(vec![(v(), 1u32, "Any")], vec![val.clone()]);
    let ws: Vec<String> = c["warnings"].as_array().map(|a| a.iter().filter_map(s).collect()).unwrap_or_default();
    let mk = |w: Option<Vec<String>>| ReturnObject::<String, String, String> { info: if b0 { os(0) } else { None }, error: if b1 { os(1) } else { None }, warnings: w };
    for w in [None, Some(ws)] {
        if let Some(x) = o.call("add_warning", || mk(w.clone()).add_warning(st(2))) {
            let mut e = w.clone().unwrap_or_default();
            e.push(st(2));
            o.check(x == mk(Some(e)), &["C19"], &format!("adding a warning gave {x:?}"));
        }
    }
    Some(())
}

// ================================================================ metadata and offers: C13 C14 C15
fn meta(c: &Value, o: &mut Outcome) -> Option<()> {
    let m = meta_from(&c["meta"])?;
    let r = o.call("CredentialIssuerMetadata::validate", || m.validate())?;
    o.interesting = m.credentials_supported.len() > 1;
    o.seen(format!("{}", r.is_ok()));
    o.check(r.is_ok() == unique_ids(&c["meta"]), &["C13"], &format!("validation returned {r:?} for {} ids", if unique_ids(&c["meta"]) { "unique" } else { "repeated" }));
    Some(())
}

fn offer(c: &Value, o: &mut Outcome) -> Option<()> {
    let m = meta_from(&c["meta"])?;
    let ids: Vec<CredentialOrId> = c["credentials"].as_array()?.iter().filter_map(coi_from).collect();
    let (auth, pre, end) = (auth_from(&c["auth"]), pre_from(&c["pre"]), so(&c["endpoint"]));
    let first = |k: &CredentialOrId| -> Option<CredentialFormatProfile> {
        match k {
            CredentialOrId::Credential(f) => Some(f.clone()),
            CredentialOrId::CredentialId(i) => m.credentials_supported.iter().find(|x| x.id.as_ref() == Some(i)).map(|x| fmt_from(&fmt_json(&x.format)).unwrap()),
        }
    };
    let uniq = unique_ids(&c["meta"]);
    let want: Option<Vec<_>> = ids.iter().map(first).collect();
    for k in &ids {
        let r = o.call("CredentialOrId::resolve", || k.resolve(&m))?;
        o.check(r.as_ref().ok() == first(k).as_ref(), &["C14"], &format!("{k:?} resolves to {r:?}, expected {:?}", first(k)));
    }
    let list = CredentialOrIds::new(ids.clone());
    let r = o.call("CredentialOrIds::resolve_all", || list.resolve_all(&m))?;
    o.check(r.as_ref().ok() == want.as_ref(), &["C14"], &format!("the list resolves to {r:?}, expected {want:?}"));
    // the given credentials, through any of the conversions
    let r = match c["via"].as_u64() {
        Some(0) => o.call("create_offer", || CredentialIssuer::create_offer(&m, CredentialOrIds::new(ids.clone()), &end, &auth, &pre)),
        Some(1) => o.call("create_offer", || {
            let refs: Vec<&CredentialOrId> = ids.iter().collect();
            CredentialIssuer::create_offer(&m, refs.as_slice(), &end, &auth, &pre)
        }),
        _ => o.call("create_offer", || CredentialIssuer::create_offer(&m, ids.clone(), &end, &auth, &pre)),
    }?;
    let succeed = uniq && auth.is_none() && want.is_some();
    o.interesting = succeed;
    o.seen(format!("{}", r.is_ok()));
    if !uniq {
        o.check(r.is_err(), &["C13"], "an offer was created from invalid metadata");
    }
    o.check(r.is_ok() == succeed, &["C14"], &format!("create_offer returned {}, expected {succeed}", match &r { Ok(_) => "an offer".to_owned(), Err(e) => format!("{e:?}") }));
    let Ok((f, link)) = &r else { return Some(()) };
    o.check(f.credential_issuer == m.credential_issuer, &["C14"], "the offer carries another issuer identifier");
    o.check(f.credentials == CredentialOrIds::new(ids.clone()), &["C14"], "the offer carries other credentials");
    o.check(f.grants.authorized_code_flow.is_none(), &["C14"], "the offer carries an authorization-code grant");
    o.check(f.grants.pre_authorized_code_flow == pre, &["C14"], "the offer carries another pre-authorized-code grant");
    // the link
    let prefix = match &end {
        None => "openid-credential-offer://credential_offer=".to_owned(),
        Some(e) => format!("{e}?credential_offer="),
    };
    let Some(enc) = link.strip_prefix(&prefix) else {
        o.no(&["C15"], format!("the link {link} does not start with {prefix}"));
        return Some(());
    };
    let unreserved = |b: u8| b.is_ascii_alphanumeric() || b"-_.~%".contains(&b);
    o.check(enc.bytes().all(unreserved), &["C15"], "the offer in the link is not percent-encoded");
    let Some(text) = percent(enc) else {
        o.no(&["C15"], "the offer in the link does not percent-decode");
        return Some(());
    };
    let v = serde_json::from_str::<Value>(&text).ok();
    o.check(v.is_some() && v == serde_json::to_value(f).ok(), &["C15"], &format!("the link carries {text}, not the JSON of the offer"));
    o.check(serde_json::from_str::<CredentialOffer>(&text).ok().as_ref() == Some(f), &["C15"], "decoding the link does not yield the offer");
    if let Some(u) = o.call("CredentialOffer::url_encode", || f.url_encode()) {
        o.check(u.ok().and_then(|u| percent(&u)).and_then(|u| serde_json::from_str::<Value>(&u).ok()) == v, &["C15"], "url_encode does not encode the JSON of the offer");
    }
    Some(())
}

fn percent(s: &str) -> Option<String> {
    let b = s.as_bytes();
    let mut r = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' {
            r.push(u8::from_str_radix(s.get(i + 1..i + 3)?, 16).ok()?);
            i += 3;
        } else {
            r.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8(r).ok()
}

// ================================================================ proof JWTs: C07 C09 C11 C12
fn jwts(c: &Value, o: &mut Outcome) -> Option<()> {
    let text = s(&c["jwt"])?;
    let e = jwt(&text);
    let r = o.call("ProofJwt::from_str", || ProofJwt::from_str(&text))?;
    o.seen(format!("{}", r.is_ok()));
    o.check(r.is_ok() == e.is_some(), &["C12"], &format!("{text:?} parses as {r:?}, expected {}", if e.is_some() { "a proof JWT" } else { "an error" }));
    let (Ok(l), Some(j)) = (&r, &e) else { return Some(()) };
    o.interesting = true;
    if odd_jwt(j) {
        return None;
    }
    o.check(same_jwt(l, j), &["C12"], &format!("parsed {l:?}, expected {j:?}"));
    // the methods, on a value built independently of the parser
    let l = ProofJwt { header: header_lib(&j.header), body: body_lib(&j.body), signature: j.sig.clone() };
    let v = o.call("validate", || l.validate())?;
    o.check(v.is_ok() == header_ok(&j.header), &["C06"], "header type or algorithm accepted or rejected wrongly");
    let (nbf, exp) = (j.body.nbf.as_ref().map(nanos), j.body.exp.as_ref().map(nanos));
    let t0 = clock();
    let v = o.call("verify", || l.verify())?;
    let t1 = clock();
    match &v {
        Ok(()) => o.check(nbf.map_or(true, |n| n <= t1) && exp.map_or(true, |e| e > t0), &["C07"], "verified outside its validity window"),
        Err(e) => {
            let inside = nbf.map_or(true, |n| n <= t0) && exp.map_or(true, |e| e > t1);
            o.check(!inside, &["C07"], "not verified inside its validity window");
            window(o, e, nbf, exp, t0, t1);
        }
    }
    let d = o.call("extract_did", || l.extract_did())?;
    match &j.header.key {
        None => o.check(matches!(&d, Ok(None)), &["C11"], "a DID without key header"),
        Some(KeyHeader::KeyId(k)) => {
            let did = did_key(k, None).0;
            o.check(d.as_ref().ok() == did.clone().map(Some).as_ref(), &["C11"], &format!("extract_did returned {d:?}, expected {did:?}"));
        }
        Some(_) => o.check(d.is_err(), &["C11"], "a DID for a raw key or certificate chain"),
    }
    let u = unencoded(j);
    let m = o.call("to_signable_message", || l.to_signable_message())?;
    o.check(m.as_ref().ok().is_some_and(|m| m == j.signing.as_bytes() || Some(m.as_slice()) == u.as_deref().map(str::as_bytes)), &["C09"], "the message is neither the signing input nor the known deviation from it");
    let g = o.call("extract_signature", || l.extract_signature())?;
    match &j.sig {
        Some(s) => o.check(g.as_ref().ok().map(|x| x.as_slice()) == Some(s.as_bytes()), &["C09"], "the signature is not the third segment"),
        None => {
            let k = u.as_ref().and_then(|u| u.splitn(3, '.').nth(2).map(|s| s.as_bytes().to_vec()));
            o.check(g.is_err() || g.ok() == k, &["C09"], "a signature although there is none");
        }
    }
    let a: Option<Result<String, JwtError>> = o.call("TryInto<String>", || (&l).try_into());
    a?.ok();
    let (n, i, w) = (so(&c["nonce"]), so(&c["iss"]), s(&c["aud"]).unwrap_or_default());
    let r = o.call("check_nonce", || l.check_nonce(n.clone()))?;
    o.check(r.is_ok() == (n.as_ref() == Some(&j.body.nonce)), &["C04"], "check_nonce accepts exactly the expected nonce");
    let r = o.call("check_iss", || l.check_iss(i.clone()))?;
    o.check(r.is_ok() == (i == j.body.iss), &["C05"], "check_iss accepts exactly the expected issuer claim");
    let r = o.call("check_aud", || l.check_aud(&w))?;
    o.check(r.is_ok() == (w == j.body.aud), &["C05"], "check_aud accepts exactly the expected audience");
    Some(())
}

// ================================================================ keys: C08 C22
fn key(c: &Value, o: &mut Outcome) -> Option<()> {
    let alg = alg_from(c["alg"].as_str()?)?;
    let doc = document(&c["doc"]);
    let (add, want) = match c["by"].as_str()? {
        "kid" => {
            let k = s(&c["key"])?;
            let w = did_key(&k, doc.as_ref()).1;
            (Some(ProofJwtAdditionalHeader::KeyId(k)), w)
        }
        "jwk" => {
            let k = s(&c["key"])?;
            let w = serde_json::from_str::<ssi_jwk::JWK>(&k).ok().and_then(|k| key_of(&k));
            (Some(ProofJwtAdditionalHeader::Jwk(k)), w)
        }
        "x5c" => (Some(ProofJwtAdditionalHeader::X5c(s(&c["key"])?)), None),
        _ => (None, None),
    };
    o.interesting = want.is_some();
    let h = ProofJwtHeader { typ: "openid4vci-proof+jwt".into(), alg: alg.clone(), additional_header: add };
    let r = o.call("extract_key_and_alg", || h.extract_key_and_alg(doc.as_ref()))?;
    o.seen(format!("{}", r.is_ok()));
    let p: &[&'static str] = if c["by"] == "kid" { &["C22", "C08"] } else { &["C22"] };
    o.check(r.as_ref().ok().map(|x| &x.0) == want.as_ref(), p, &format!("the extracted key is {r:?}, expected {want:?}"));
    if let Ok((_, a)) = &r {
        o.check(*a == alg, p, "the returned algorithm is not that of the header");
    }
    let b: Body = serde_json::from_value(json!({"aud": "", "iat": "2020-01-01T00:00:00Z", "nonce": ""})).ok()?;
    let l = ProofJwt { header: h, body: body_lib(&b), signature: None };
    let q = o.call("ProofJwt::extract_key_and_alg", || l.extract_key_and_alg(doc.as_ref()))?;
    o.check(q == r, p, "ProofJwt and its header disagree about the key");
    Some(())
}

// ================================================================ JSON: C20
fn jsons(c: &Value, o: &mut Outcome) -> Option<()> {
    o.interesting = true;
    let v = &c["value"];
    o.seen(c["type"].as_str()?);
    // written as the draft says, read back from the draft's names
    macro_rules! both {
        ($ty:ty, $val:expr, $want:expr, $exact:expr, $form:expr) => {{
            let x: $ty = $val;
            let want: Value = $want;
            let got = o.call("serialize", || serde_json::to_string(&x).ok()).flatten().and_then(|t| serde_json::from_str::<Value>(&t).ok());
            let g = got.clone().map(|g| if $exact { g } else { strip_top(&g, &want) });
            o.check(g.as_ref() == Some(&want), &["C20"], &format!("written as {}, expected {want}", got.unwrap_or(Value::Null)));
            let form: &dyn Fn(&$ty) -> Value = &$form;
            let back = o.call("deserialize", || serde_json::from_str::<$ty>(&want.to_string()).map(|y| form(&y)).map_err(|e| e.to_string()));
            o.check(back.as_ref().is_some_and(|b| b.as_ref().ok() == Some(&form(&x))), &["C20"], &format!("{want} was read as {back:?}"));
        }};
    }
    match c["type"].as_str()? {
        "credential" => {
            let x = fmt_from(v)?;
            both!(CredentialFormatProfile, x.clone(), fmt_json(&x), true, fmt_json);
        }
        "subject" => {
            let x = subject_from(v);
            both!(CredentialSubject, x.clone(), subject_json(&x), true, subject_json);
        }
        "credential or id" => {
            let x = coi_from(v)?;
            both!(CredentialOrId, x.clone(), coi_json(&x), true, coi_json);
        }
        "auth" => {
            let x = auth_from(v)?;
            both!(AuthorizedCodeFlow, x.clone(), auth_json(&x), true, auth_json);
        }
        "pre" => {
            let x = pre_from(v)?;
            both!(PreAuthorizedCodeFlow, x.clone(), pre_json(&x), true, pre_json);
        }
        "grants" => {
            let x = CredentialOfferGrants { authorized_code_flow: auth_from(&v["authorization_code"]), pre_authorized_code_flow: pre_from(&v[PRE]) };
            let w = grants_json(&x);
            both!(CredentialOfferGrants, x, w, true, grants_json);
        }
        "offer" => {
            let x = offer_from(v)?;
            let cs: Vec<CredentialOrId> = v["credentials"].as_array()?.iter().filter_map(coi_from).collect();
            let w = offer_json(&x.credential_issuer, &cs, &x.grants);
            // the list inside an offer is private: a read offer is compared by the library's equality
            let y = offer_from(v)?;
            let form = move |z: &CredentialOffer| if *z == y { json!(true) } else { json!(format!("{z:?}")) };
            both!(CredentialOffer, x, w, true, form);
        }
        "metadata" => {
            let x = meta_from(v)?;
            let w = meta_json(&x);
            both!(CredentialIssuerMetadata, x, w, false, meta_json);
        }
        "supported" => {
            let x = supported_from(v)?;
            let w = supported_json(&x);
            both!(CredentialSupported, x, w, false, supported_json);
        }
        "request" => {
            let x = request_from(v)?;
            let w = request_json(&x);
            both!(CredentialRequest, x, w, false, request_json);
        }
        "proof" => {
            let x = CredentialRequestProof { proof_type: s(&v["proof_type"])?, jwt: s(&v["jwt"])? };
            let w = json!({"proof_type": x.proof_type, "jwt": x.jwt});
            both!(CredentialRequestProof, x, w, true, |p: &CredentialRequestProof| json!({"proof_type": p.proof_type, "jwt": p.jwt}));
        }
        "header" => {
            let x = header_lib(&serde_json::from_value::<Header>(v.clone()).ok()?);
            let w = header_json(&x);
            both!(ProofJwtHeader, x, w, true, header_json);
        }
        "body" => {
            let x = body_lib(&serde_json::from_value::<Body>(v.clone()).ok()?);
            let got = o.call("serialize", || serde_json::to_value(&x).ok()).flatten()?;
            let w = body_json(&x, &got);
            o.check(strip_nulls(&got) == w, &["C20"], &format!("written as {got}, expected {w}"));
            let back = o.call("deserialize", || serde_json::from_str::<ProofJwtBody>(&w.to_string()).map(|y| body_json(&y, &w)).map_err(|e| e.to_string()));
            o.check(back.as_ref().is_some_and(|b| b.as_ref().ok() == Some(&w)), &["C20"], &format!("{w} was read as {back:?}"));
        }
        _ => return None,
    }
    Some(())
}

// ================================================================ what is handed in and given back, as JSON: C23
fn wire(c: &Value, o: &mut Outcome) -> Option<()> {
    let v = &c["value"];
    o.interesting = true;
    o.seen(c["type"].as_str()?);
    macro_rules! write {
        ($x:expr, $want:expr) => {{
            let (x, want): (_, Value) = ($x, $want);
            let got = o.call("serialize", || serde_json::to_string(&x).ok()).flatten().and_then(|t| serde_json::from_str::<Value>(&t).ok());
            o.check(got.as_ref().is_some_and(|g| strip_top(g, &want) == want), &["C23"], &format!("written as {got:?}, expected {want}"));
        }};
    }
    // a document under the documented names is read, and the value read is written so again
    macro_rules! read {
        ($ty:ty, $want:expr, $same:expr) => {{
            let want: Value = $want;
            let same: &dyn Fn(&$ty) -> bool = &$same;
            for text in [want.to_string(), turned(&want)] {
                if let Some(r) = o.call("deserialize", || serde_json::from_str::<$ty>(&text)) {
                    o.check(r.as_ref().is_ok_and(|x| same(x)), &["C23"], &format!("{text} was read as {r:?}"));
                    if let Ok(x) = r {
                        let back = o.call("serialize", || serde_json::to_string(&x).ok()).flatten();
                        o.check(back.as_ref().is_some_and(|t| serde_json::from_str::<$ty>(t).is_ok_and(|y| y == x)), &["C23"], &format!("{x:?} is not read back from {back:?}"));
                        write!(x, want.clone());
                    }
                }
            }
        }};
    }
    let st = |k: &str| s(&v[k]);
    match c["type"].as_str()? {
        "token request" => read!(AccessTokenRequest, json!({"grant_type": v}), |x| {
            let pin = v["user_pin"].as_u64().is_some_and(|p| p.to_string().len() > 8);
            x.validate().is_err() == pin
        }),
        "grant" => read!(GrantType, v.clone(), |x| match x {
            GrantType::PreAuthorizedCodeFlow { pre_authorized_code, user_pin } => Some(pre_authorized_code) == st("pre_authorized_code").as_ref() && *user_pin == v["user_pin"].as_u64() && v["grant_type"] == PRE,
            _ => v["grant_type"] == "authorization_code",
        }),
        "token options" => read!(EvaluateAccessTokenRequestOptions, v.clone(), |_| true),
        "nonce" => {
            let (n, e) = (st("c_nonce")?, v["c_nonce_expires_in"].as_u64().map(|x| x as u32));
            write!(CNonce { c_nonce: n.clone(), c_nonce_expires_in: e }, v.clone());
            read!(CNonce, v.clone(), |x| x.c_nonce == n && x.c_nonce_expires_in == e)
        }
        "options" => {
            let x = opts_from(v)?;
            let w = opts_json(&x);
            write!(x.clone(), w.clone());
            read!(EvaluateCredentialRequestOptions, w, |y| *y == x);
            if let Some(n) = &x.c_nonce {
                let w = opts_json(&x)["c_nonce"].clone();
                write!(n.clone(), w.clone());
                read!(CNonceOptions, w, |y| y == n)
            }
        }
        "pre evaluation" => write!(PreEvaluateCredentialRequestResponse { did: st("did") }, v.clone()),
        "evaluation" => {
            let f = fmt_from(&v["credential"])?;
            let alg: Alg = serde_json::from_value(v["algorithm"].clone()).ok()?;
            let h = Header { typ: String::new(), alg, key: None };
            let a = || header_lib(&h).alg;
            let b = |k: &str| st(k).unwrap_or_default().into_bytes();
            let p = || ProofOfPossession { algorithm: a(), public_key: b("public_key"), message: b("message"), signature: b("signature") };
            let pj = json!({"algorithm": v["algorithm"], "public_key": b("public_key"), "message": b("message"), "signature": b("signature")});
            write!(p(), pj.clone());
            let mut w = json!({"credential": fmt_json(&f)});
            if v["proof"] == true { w["proof_of_possession"] = pj; }
            if let Some(i) = st("subject_id") { w["subject_id"] = json!(i); }
            write!(CredentialIssuerEvaluateRequestResponse { proof_of_possession: if v["proof"] == true { Some(p()) } else { None }, subject_id: st("subject_id"), credential: f }, w)
        }
        "return object" => {
            let inf = |x: &Value| openid4vci::error::ErrorInformation { code: x["code"].as_u64().unwrap_or(0) as u32, name: s(&x["name"]).unwrap_or_default(), description: s(&x["description"]).unwrap_or_default(), additional_information: x.get("additional_information").cloned() };
            if v["error"].is_object() {
                let (x, w) = (inf(&v["error"]), v["error"].clone());
                let text = o.call("Display", || x.to_string());
                o.check(text.and_then(|t| serde_json::from_str::<Value>(&t).ok()).as_ref() == Some(&w), &["C23"], "the text of error information is not its JSON");
                write!(x, w);
            }
            let r = ReturnObject::<String, openid4vci::error::ErrorInformation, String> { info: st("info"), error: v["error"].as_object().map(|_| inf(&v["error"])), warnings: v["warnings"].as_array().map(|a| a.iter().filter_map(s).collect()) };
            let mut w = v.clone();
            w.as_object_mut()?.retain(|_, x| !x.is_null());
            let got = o.call("serialize", || serde_json::to_value(&r).ok()).flatten();
            o.check(got.as_ref() == Some(&w), &["C23"], &format!("written as {got:?}, expected {w}"));
        }
        _ => return None,
    }
    Some(())
}

fn opts_json(x: &EvaluateCredentialRequestOptions) -> Value {
    let mut m = serde_json::Map::new();
    if let Some(n) = &x.c_nonce {
        m.insert("c_nonce".into(), json!({"c_nonce_expires_in": n.c_nonce_expires_in, "expected_c_nonce": n.expected_c_nonce, "c_nonce_created_at": n.c_nonce_created_at}));
    }
    if let Some(i) = &x.client_id {
        m.insert("client_id".into(), json!(i));
    }
    Value::Object(m)
}

/// the text of the document with the members of its objects in reverse order
fn turned(v: &Value) -> String {
    match v {
        Value::Object(o) => {
            let mut m: Vec<String> = o.iter().map(|(k, x)| format!("{}:{}", json!(k), turned(x))).collect();
            m.reverse();
            format!("{{{}}}", m.join(","))
        }
        Value::Array(a) => format!("[{}]", a.iter().map(turned).collect::<Vec<_>>().join(",")),
        _ => v.to_string(),
    }
}

/// leaves out members that are null in `got` and absent in `want`, at every depth of declared members
fn strip_top(got: &Value, want: &Value) -> Value {
    match (got, want) {
        (Value::Object(g), Value::Object(w)) => Value::Object(g.iter().filter(|(k, v)| !(v.is_null() && !w.contains_key(*k))).map(|(k, v)| (k.clone(), w.get(k).map_or(v.clone(), |x| strip_top(v, x)))).collect()),
        (Value::Array(g), Value::Array(w)) if g.len() == w.len() => Value::Array(g.iter().zip(w).map(|(a, b)| strip_top(a, b)).collect()),
        _ => got.clone(),
    }
}

fn header_json(h: &ProofJwtHeader) -> Value {
    let mut m = serde_json::Map::new();
    m.insert("typ".into(), json!(h.typ));
    m.insert("alg".into(), json!(alg_name(&h.alg)));
    match &h.additional_header {
        Some(ProofJwtAdditionalHeader::KeyId(k)) => m.insert("kid".into(), json!(k)),
        Some(ProofJwtAdditionalHeader::Jwk(k)) => m.insert("jwk".into(), json!(k)),
        Some(ProofJwtAdditionalHeader::X5c(k)) => m.insert("x5c".into(), json!(k)),
        None => None,
    };
    Value::Object(m)
}

/// the body under the draft's names; a time is the text in `texts` if that text denotes it
fn body_json(b: &ProofJwtBody, texts: &Value) -> Value {
    let mut m = serde_json::Map::new();
    let t = |k: &str, t: &chrono::DateTime<chrono::Utc>| {
        let x = texts.get(k).cloned().unwrap_or(Value::Null);
        match x.as_str().and_then(|s| chrono::DateTime::parse_from_rfc3339(s).ok()) {
            Some(y) if y == *t => x,
            _ => json!(format!("{t:?}")),
        }
    };
    if let Some(i) = &b.issuer {
        m.insert("iss".into(), json!(i));
    }
    m.insert("aud".into(), json!(b.audience));
    if let Some(i) = &b.subject {
        m.insert("sub".into(), json!(i));
    }
    m.insert("iat".into(), t("iat", &b.issued_at));
    m.insert("nonce".into(), json!(b.nonce));
    if let Some(i) = &b.not_before {
        m.insert("nbf".into(), t("nbf", i));
    }
    if let Some(i) = &b.expires_at {
        m.insert("exp".into(), t("exp", i));
    }
    Value::Object(m)
}
