//! An independent reading of the documents the properties speak about: how they look in OpenID4VCI
//! draft 11, and the library's values built from and written to that form without the library's serde.
use chrono::{DateTime, NaiveDateTime, Utc};
use openid4vci::access_token::*;
use openid4vci::credential_issuer::*;
use openid4vci::jwt::*;
use openid4vci::types::credential::*;
use openid4vci::types::credential_issuer_metadata::*;
use openid4vci::types::credential_request::*;
use serde::Deserialize;
use serde_json::{json, Map, Value};
use std::collections::HashMap;

pub fn s(v: &Value) -> Option<String> {
    v.as_str().map(|x| x.to_owned())
}

pub fn so(v: &Value) -> Option<String> {
    s(v)
}

fn strings(v: &Value) -> Option<Vec<String>> {
    v.as_array().map(|a| a.iter().filter_map(s).collect())
}

pub fn time(v: &Value) -> Option<DateTime<Utc>> {
    let a = v.as_array()?;
    Some(DateTime::from_utc(NaiveDateTime::from_timestamp_opt(a[0].as_i64()?, a[1].as_u64()? as u32)?, Utc))
}

pub fn nanos(t: &DateTime<Utc>) -> i128 {
    t.timestamp() as i128 * 1_000_000_000 + t.timestamp_subsec_nanos() as i128
}

// ---------------------------------------------------------------- credential formats
pub fn subject_from(v: &Value) -> CredentialSubject {
    CredentialSubject {
        mandatory: v["mandatory"].as_bool(),
        value_type: so(&v["value_type"]),
        display: v["display"].as_array().map(|a| a.iter().map(|d| CredentialSubjectDisplay { name: so(&d["name"]), locale: so(&d["locale"]) }).collect()),
    }
}

fn put<T: Into<Value>>(m: &mut Map<String, Value>, k: &str, v: Option<T>) {
    if let Some(v) = v {
        m.insert(k.to_owned(), v.into());
    }
}

pub fn subject_json(c: &CredentialSubject) -> Value {
    let mut m = Map::new();
    put(&mut m, "mandatory", c.mandatory);
    put(&mut m, "value_type", c.value_type.clone());
    put(&mut m, "display", c.display.as_ref().map(|d| d.iter().map(|d| {
        let mut m = Map::new();
        put(&mut m, "name", d.name.clone());
        put(&mut m, "locale", d.locale.clone());
        Value::Object(m)
    }).collect::<Vec<_>>()));
    Value::Object(m)
}

fn subjects_from(v: &Value) -> Option<HashMap<String, CredentialSubject>> {
    v.as_object().map(|o| o.iter().map(|(k, v)| (k.clone(), subject_from(v))).collect())
}

fn subjects_json(h: &HashMap<String, CredentialSubject>) -> Value {
    Value::Object(h.iter().map(|(k, v)| (k.clone(), subject_json(v))).collect())
}

pub fn fmt_from(v: &Value) -> Option<CredentialFormatProfile> {
    let types = strings(&v["types"]);
    let credential_subject = subjects_from(&v["credentialSubject"]);
    let order = strings(&v["order"]);
    Some(match v["format"].as_str()? {
        "jwt_vc_json" => CredentialFormatProfile::JwtVcJson { types: types?, credential_subject, order },
        "jwt_vc_json-ld" => CredentialFormatProfile::JwtVcJsonLd { types: types?, credential_subject, order },
        "ldp_vc" => CredentialFormatProfile::LdpVc {
            context: v["@context"].as_array()?.iter().map(|c| match c {
                Value::Object(o) => LinkedDataContext::Map(o.iter().map(|(k, v)| (k.clone(), v.clone())).collect()),
                o => LinkedDataContext::String(s(o).unwrap_or_default()),
            }).collect(),
            types: types?, credential_subject, order,
        },
        "mso_mdoc" => CredentialFormatProfile::MsoMdoc { doctype: s(&v["doctype"])?, claims: subjects_from(&v["claims"]), order },
        _ => return None,
    })
}

pub fn fmt_name(c: &CredentialFormatProfile) -> &'static str {
    match c {
        CredentialFormatProfile::JwtVcJson { .. } => "jwt_vc_json",
        CredentialFormatProfile::JwtVcJsonLd { .. } => "jwt_vc_json-ld",
        CredentialFormatProfile::LdpVc { .. } => "ldp_vc",
        CredentialFormatProfile::MsoMdoc { .. } => "mso_mdoc",
    }
}

pub fn fmt_json(c: &CredentialFormatProfile) -> Value {
    let mut m = Map::new();
    m.insert("format".into(), fmt_name(c).into());
    match c {
        CredentialFormatProfile::JwtVcJson { types, credential_subject, order } | CredentialFormatProfile::JwtVcJsonLd { types, credential_subject, order } => {
            m.insert("types".into(), json!(types));
            put(&mut m, "credentialSubject", credential_subject.as_ref().map(subjects_json));
            put(&mut m, "order", order.clone());
        }
        CredentialFormatProfile::LdpVc { context, types, credential_subject, order } => {
            m.insert("@context".into(), Value::Array(context.iter().map(|c| match c {
                LinkedDataContext::String(s) => Value::String(s.clone()),
                LinkedDataContext::Map(h) => Value::Object(h.iter().map(|(k, v)| (k.clone(), v.clone())).collect()),
            }).collect()));
            m.insert("types".into(), json!(types));
            put(&mut m, "credentialSubject", credential_subject.as_ref().map(subjects_json));
            put(&mut m, "order", order.clone());
        }
        CredentialFormatProfile::MsoMdoc { doctype, claims, order } => {
            m.insert("doctype".into(), json!(doctype));
            put(&mut m, "claims", claims.as_ref().map(subjects_json));
            put(&mut m, "order", order.clone());
        }
    }
    Value::Object(m)
}

// ---------------------------------------------------------------- issuer metadata
pub fn supported_from(v: &Value) -> Option<CredentialSupported> {
    Some(CredentialSupported {
        format: fmt_from(v)?,
        id: so(&v["id"]),
        cryptographic_binding_mehtods_supported: strings(&v["cryptographic_binding_methods_supported"]),
        cryptographic_suites_supported: strings(&v["cryptographic_suites_supported"]),
        display: v["display"].as_array().map(|a| a.iter().map(|d| DisplayProperties {
            name: s(&d["name"]).unwrap_or_default(), locale: so(&d["locale"]),
            logo: d["logo"].as_object().map(|l| DisplayLogo { url: l.get("url").and_then(so), alt_text: l.get("alt_text").and_then(so) }),
            description: so(&d["description"]), background_color: so(&d["background_color"]), text_color: so(&d["text_color"]),
        }).collect()),
    })
}

const META: [&str; 5] = ["credential_issuer", "authorization_server", "credential_endpoint", "batch_credential_endpoint", "credentials_supported"];

pub fn meta_from(v: &Value) -> Option<CredentialIssuerMetadata> {
    let o = v.as_object()?;
    let rest: HashMap<String, Value> = o.iter().filter(|(k, _)| !META.contains(&k.as_str())).map(|(k, v)| (k.clone(), v.clone())).collect();
    Some(CredentialIssuerMetadata {
        credential_issuer: s(&v["credential_issuer"])?,
        authorization_server: so(&v["authorization_server"]),
        credential_endpoint: s(&v["credential_endpoint"])?,
        batch_credential_endpoint: so(&v["batch_credential_endpoint"]),
        credentials_supported: v["credentials_supported"].as_array()?.iter().filter_map(supported_from).collect(),
        additional_fields: if rest.is_empty() { None } else { Some(rest) },
    })
}

/// members of the value that are absent optional ones are null or left out: neither is a value
pub fn strip_nulls(v: &Value) -> Value {
    match v {
        Value::Object(o) => Value::Object(o.iter().filter(|(_, v)| !v.is_null()).map(|(k, v)| (k.clone(), strip_nulls(v))).collect()),
        Value::Array(a) => Value::Array(a.iter().map(strip_nulls).collect()),
        o => o.clone(),
    }
}

pub fn meta_json(m: &CredentialIssuerMetadata) -> Value {
    let mut o = Map::new();
    put(&mut o, "credential_issuer", Some(m.credential_issuer.clone()));
    put(&mut o, "authorization_server", m.authorization_server.clone());
    put(&mut o, "credential_endpoint", Some(m.credential_endpoint.clone()));
    put(&mut o, "batch_credential_endpoint", m.batch_credential_endpoint.clone());
    o.insert("credentials_supported".into(), Value::Array(m.credentials_supported.iter().map(supported_json).collect()));
    if let Some(a) = &m.additional_fields {
        for (k, v) in a {
            o.insert(k.clone(), v.clone());
        }
    }
    Value::Object(o)
}

pub fn supported_json(c: &CredentialSupported) -> Value {
    let mut o = fmt_json(&c.format).as_object().cloned().unwrap_or_default();
    put(&mut o, "id", c.id.clone());
    put(&mut o, "cryptographic_binding_methods_supported", c.cryptographic_binding_mehtods_supported.clone());
    put(&mut o, "cryptographic_suites_supported", c.cryptographic_suites_supported.clone());
    put(&mut o, "display", c.display.as_ref().map(|a| a.iter().map(|d| {
        let mut m = Map::new();
        put(&mut m, "name", Some(d.name.clone()));
        put(&mut m, "locale", d.locale.clone());
        put(&mut m, "logo", d.logo.as_ref().map(|l| {
            let mut m = Map::new();
            put(&mut m, "url", l.url.clone());
            put(&mut m, "alt_text", l.alt_text.clone());
            Value::Object(m)
        }));
        put(&mut m, "description", d.description.clone());
        put(&mut m, "background_color", d.background_color.clone());
        put(&mut m, "text_color", d.text_color.clone());
        Value::Object(m)
    }).collect::<Vec<_>>()));
    Value::Object(o)
}

// ---------------------------------------------------------------- offers
pub fn coi_from(v: &Value) -> Option<CredentialOrId> {
    Some(match v {
        Value::String(s) => CredentialOrId::CredentialId(s.clone()),
        o => CredentialOrId::Credential(fmt_from(o)?),
    })
}

pub fn coi_json(c: &CredentialOrId) -> Value {
    match c {
        CredentialOrId::CredentialId(s) => Value::String(s.clone()),
        CredentialOrId::Credential(c) => fmt_json(c),
    }
}

pub fn auth_from(v: &Value) -> Option<AuthorizedCodeFlow> {
    v.as_object().map(|o| AuthorizedCodeFlow { issuer_state: o.get("issuer_state").and_then(so) })
}

pub fn pre_from(v: &Value) -> Option<PreAuthorizedCodeFlow> {
    v.as_object().map(|o| PreAuthorizedCodeFlow {
        code: o.get("pre-authorized_code").and_then(s).unwrap_or_default(),
        user_pin_required: o.get("user_pin_required").and_then(|b| b.as_bool()),
    })
}

pub const PRE: &str = "urn:ietf:params:oauth:grant-type:pre-authorized_code";

pub fn offer_from(v: &Value) -> Option<CredentialOffer> {
    let o = v.as_object()?;
    let g = &o["grants"];
    Some(CredentialOffer {
        credential_issuer: s(&o["credential_issuer"])?,
        credentials: CredentialOrIds::new(o["credentials"].as_array()?.iter().filter_map(coi_from).collect()),
        grants: CredentialOfferGrants { authorized_code_flow: auth_from(&g["authorization_code"]), pre_authorized_code_flow: pre_from(&g[PRE]) },
    })
}

pub fn auth_json(a: &AuthorizedCodeFlow) -> Value {
    let mut m = Map::new();
    put(&mut m, "issuer_state", a.issuer_state.clone());
    Value::Object(m)
}

pub fn pre_json(p: &PreAuthorizedCodeFlow) -> Value {
    let mut m = Map::new();
    put(&mut m, "pre-authorized_code", Some(p.code.clone()));
    put(&mut m, "user_pin_required", p.user_pin_required);
    Value::Object(m)
}

pub fn grants_json(g: &CredentialOfferGrants) -> Value {
    let mut m = Map::new();
    put(&mut m, "authorization_code", g.authorized_code_flow.as_ref().map(auth_json));
    put(&mut m, PRE, g.pre_authorized_code_flow.as_ref().map(pre_json));
    Value::Object(m)
}

pub fn offer_json(issuer: &str, credentials: &[CredentialOrId], grants: &CredentialOfferGrants) -> Value {
    json!({"credential_issuer": issuer, "credentials": credentials.iter().map(coi_json).collect::<Vec<_>>(), "grants": grants_json(grants)})
}

// ---------------------------------------------------------------- credential requests
pub fn request_from(v: &Value) -> Option<CredentialRequest> {
    Some(CredentialRequest {
        format: fmt_from(&v["format"])?,
        proof: v["proof"].as_object().map(|p| CredentialRequestProof { proof_type: s(&p["proof_type"]).unwrap_or_default(), jwt: s(&p["jwt"]).unwrap_or_default() }),
    })
}

pub fn request_json(r: &CredentialRequest) -> Value {
    let mut o = fmt_json(&r.format).as_object().cloned().unwrap_or_default();
    put(&mut o, "proof", r.proof.as_ref().map(|p| json!({"proof_type": p.proof_type, "jwt": p.jwt})));
    Value::Object(o)
}

pub fn opts_from(v: &Value) -> Option<EvaluateCredentialRequestOptions> {
    v.as_object().map(|o| EvaluateCredentialRequestOptions {
        c_nonce: o["c_nonce"].as_object().and_then(|c| Some(CNonceOptions {
            c_nonce_expires_in: c["expires_in"].as_u64()? as u32, expected_c_nonce: s(&c["expected"])?, c_nonce_created_at: time(&c["created"])?,
        })),
        client_id: so(&o["client_id"]),
    })
}

// ---------------------------------------------------------------- proof JWTs, read independently
#[derive(Deserialize, Debug, Clone, PartialEq)]
pub enum Alg {
    HS256, HS384, HS512, RS256, RS384, RS512, ES256, ES384, ES512, PS256, PS384, PS512, EdDSA, ES256K,
    #[serde(rename = "ECDH-ES")]
    ECDHES,
    #[serde(rename = "none")]
    None,
}

pub const ALGS: [&str; 16] = ["HS256", "HS384", "HS512", "RS256", "RS384", "RS512", "ES256", "ES384", "ES512", "PS256", "PS384", "PS512", "EdDSA", "ES256K", "ECDH-ES", "none"];

pub fn alg_name(a: &ProofJwtAlgorithm) -> &'static str {
    use ProofJwtAlgorithm as P;
    match a {
        P::HS256 => "HS256", P::HS384 => "HS384", P::HS512 => "HS512", P::RS256 => "RS256", P::RS384 => "RS384", P::RS512 => "RS512",
        P::ES256 => "ES256", P::ES384 => "ES384", P::ES512 => "ES512", P::PS256 => "PS256", P::PS384 => "PS384", P::PS512 => "PS512",
        P::EdDSA => "EdDSA", P::ES256K => "ES256K", P::ECDHES => "ECDH-ES", P::None => "none",
    }
}

pub fn alg_from(n: &str) -> Option<ProofJwtAlgorithm> {
    use ProofJwtAlgorithm as P;
    Some(match n {
        "HS256" => P::HS256, "HS384" => P::HS384, "HS512" => P::HS512, "RS256" => P::RS256, "RS384" => P::RS384, "RS512" => P::RS512,
        "ES256" => P::ES256, "ES384" => P::ES384, "ES512" => P::ES512, "PS256" => P::PS256, "PS384" => P::PS384, "PS512" => P::PS512,
        "EdDSA" => P::EdDSA, "ES256K" => P::ES256K, "ECDH-ES" => P::ECDHES, "none" => P::None,
        _ => return None,
    })
}

impl Alg {
    pub fn name(&self) -> &'static str {
        ALGS[self.clone() as usize]
    }
}

#[derive(Deserialize, Debug, Clone, PartialEq)]
pub enum KeyHeader {
    #[serde(rename = "kid")]
    KeyId(String),
    #[serde(rename = "jwk")]
    Jwk(String),
    #[serde(rename = "x5c")]
    X5c(String),
}

#[derive(Deserialize, Debug, Clone)]
pub struct Header {
    pub typ: String,
    pub alg: Alg,
    #[serde(flatten)]
    pub key: Option<KeyHeader>,
}

#[derive(Deserialize, Debug, Clone)]
pub struct Body {
    pub iss: Option<String>,
    pub aud: String,
    pub sub: Option<String>,
    pub iat: DateTime<Utc>,
    pub nonce: String,
    pub nbf: Option<DateTime<Utc>>,
    pub exp: Option<DateTime<Utc>>,
}

#[derive(Debug, Clone)]
pub struct Jwt {
    pub header: Header,
    pub body: Body,
    pub sig: Option<String>,
    pub signing: String,
}

pub fn b64d(s: &str) -> Option<Vec<u8>> {
    use base64::Engine;
    base64::engine::general_purpose::URL_SAFE_NO_PAD.decode(s).ok()
}

pub fn b64e(s: &[u8]) -> String {
    use base64::Engine;
    base64::engine::general_purpose::URL_SAFE_NO_PAD.encode(s)
}

/// the proof JWT that a string encodes
pub fn jwt(s: &str) -> Option<Jwt> {
    let p: Vec<&str> = s.split('.').collect();
    if p.len() != 2 && p.len() != 3 {
        return None;
    }
    Some(Jwt {
        header: serde_json::from_slice(&b64d(p[0])?).ok()?,
        body: serde_json::from_slice(&b64d(p[1])?).ok()?,
        sig: p.get(2).map(|x| x.to_string()),
        signing: format!("{}.{}", p[0], p[1]),
    })
}

pub fn ci(s: &str, low: &str) -> bool {
    s.eq_ignore_ascii_case(low)
}

/// Equal under Unicode's case mappings only (dotless i, long s, Kelvin sign): the specification leaves these
/// open, so nothing is judged on such a value.
pub fn odd(s: &str, low: &str) -> bool {
    !ci(s, low) && (s.to_lowercase() == low || s.to_uppercase() == low.to_uppercase())
}

pub fn odd_jwt(j: &Jwt) -> bool {
    odd(&j.header.typ, "openid4vci-proof+jwt")
}

/// Such a value anywhere in the proof of a request.
pub fn odd_proof(v: &Value) -> bool {
    v["proof_type"].as_str().is_some_and(|t| odd(t, "jwt")) || v["jwt"].as_str().and_then(jwt).is_some_and(|j| odd_jwt(&j))
}

pub fn header_ok(h: &Header) -> bool {
    ci(&h.typ, "openid4vci-proof+jwt") && !matches!(h.alg, Alg::None | Alg::HS256 | Alg::HS384 | Alg::HS512)
}

pub fn proof_ok(v: &Value) -> Option<Jwt> {
    let j = jwt(v["jwt"].as_str()?)?;
    if ci(v["proof_type"].as_str()?, "jwt") && header_ok(&j.header) {
        Some(j)
    } else {
        None
    }
}

/// the EdDSA-type key in a JWK
pub fn key_of(k: &ssi_jwk::JWK) -> Option<Vec<u8>> {
    match &k.params {
        ssi_jwk::Params::OKP(p) => Some(p.public_key.0.clone()),
        ssi_jwk::Params::EC(p) if matches!(k.get_algorithm(), Some(ssi_jwk::Algorithm::EdDSA)) => p.x_coordinate.as_ref().map(|x| x.0.clone()),
        _ => None,
    }
}

/// the DID part and the key that a key id names in a DID document
pub fn did_key(kid: &str, doc: Option<&ssi_dids::Document>) -> (Option<String>, Option<Vec<u8>>) {
    let url = match ssi_dids::DIDURL::try_from(kid.to_owned()) {
        Ok(u) => u,
        Err(_) => return (None, None),
    };
    let did = Some(url.did.clone());
    let key = doc.and_then(|d| match d.select_object(&url) {
        Ok(ssi_dids::Resource::VerificationMethod(m)) => m.get_jwk().ok().and_then(|k| key_of(&k)),
        _ => None,
    });
    (did, key)
}

pub fn header_lib(h: &Header) -> ProofJwtHeader {
    ProofJwtHeader {
        typ: h.typ.clone(), alg: alg_from(h.alg.name()).unwrap(),
        additional_header: h.key.as_ref().map(|k| match k {
            KeyHeader::KeyId(k) => ProofJwtAdditionalHeader::KeyId(k.clone()),
            KeyHeader::Jwk(k) => ProofJwtAdditionalHeader::Jwk(k.clone()),
            KeyHeader::X5c(k) => ProofJwtAdditionalHeader::X5c(k.clone()),
        }),
    }
}

pub fn body_lib(b: &Body) -> ProofJwtBody {
    ProofJwtBody { issuer: b.iss.clone(), audience: b.aud.clone(), subject: b.sub.clone(), issued_at: b.iat, nonce: b.nonce.clone(), not_before: b.nbf, expires_at: b.exp }
}

pub fn same_jwt(l: &ProofJwt, j: &Jwt) -> bool {
    let k = match (&l.header.additional_header, &j.header.key) {
        (None, None) => true,
        (Some(ProofJwtAdditionalHeader::KeyId(a)), Some(KeyHeader::KeyId(b))) => a == b,
        (Some(ProofJwtAdditionalHeader::Jwk(a)), Some(KeyHeader::Jwk(b))) => a == b,
        (Some(ProofJwtAdditionalHeader::X5c(a)), Some(KeyHeader::X5c(b))) => a == b,
        _ => false,
    };
    let b = &l.body;
    k && l.header.typ == j.header.typ && alg_name(&l.header.alg) == j.header.alg.name() && l.signature == j.sig
        && b.issuer == j.body.iss && b.audience == j.body.aud && b.subject == j.body.sub && b.issued_at == j.body.iat && b.nonce == j.body.nonce
        && b.not_before == j.body.nbf && b.expires_at == j.body.exp
}

// ---------------------------------------------------------------- token requests
pub fn token_request(v: &Value) -> Option<AccessTokenRequest> {
    let g = match v["grant"].as_str()? {
        "pre" => json!({"grant_type": PRE, "pre_authorized_code": v["code"], "user_pin": v["pin"]}),
        _ => json!({"grant_type": "authorization_code"}),
    };
    serde_json::from_value(json!({"grant_type": g})).ok()
}

pub fn token_opts(v: &Value) -> Option<EvaluateAccessTokenRequestOptions> {
    v.as_object().and_then(|o| serde_json::from_value(json!({"expected_user_pin": o["pin"]})).ok())
}
