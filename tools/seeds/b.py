SEEDS = [
dict(id='c01-pin-unspecified', property='C01', needs='an offer that does not say whether a PIN is required and a request with the expected PIN',
 breaks='a request with a PIN is accepted for an offer that requires none',
 edits=[('access_token/mod.rs', 'p.user_pin_required.unwrap_or_default();', 'p.user_pin_required.unwrap_or(user_pin.is_some());')],
 demo='''let r = AccessToken::evaluate_access_token_request(&token_request("ABC", Some(1234)), Some(offer(false, true)), token_options(Some(1234)));
assert!(r.is_err(), "{r:?}");'''),
dict(id='c02-log2', property='C02', needs='a PIN of nine digits below 2^27, such as 100000000',
 breaks='some PINs of nine digits pass validation',
 edits=[('access_token/mod.rs', 'if let Some(user_pin) = user_pin {\n                    let max = 8;', '// anything that fits into 27 bits is short enough\n                if let Some(user_pin) = user_pin.filter(|p| p.leading_zeros() < 37) {\n                    let max = 8;')],
 demo='''assert!(token_request("ABC", Some(1234)).validate().is_ok());
assert!(token_request("ABC", Some(99999999)).validate().is_ok());
assert!(token_request("ABC", Some(123456789)).validate().is_err());'''),
dict(id='c03-default-pin', property='C03', needs='a request with a PIN, and options that carry no expected PIN',
 breaks='a PIN mismatch is reported although no PIN was expected',
 edits=[('access_token/mod.rs', '.and_then(|o| o.expected_user_pin)', '.map(|o| o.expected_user_pin.unwrap_or_default())')],
 demo='''use openid4vci::access_token::error::AccessTokenError;
let r = AccessToken::evaluate_access_token_request(&token_request("ABC", Some(1234)), Some(offer(false, true)), token_options(None));
assert!(!matches!(r, Err(AccessTokenError::UserPinMismatch)), "{r:?}");
let r = AccessToken::evaluate_access_token_request(&token_request("ABC", Some(1234)), Some(offer(false, true)), token_options(Some(4321)));
assert!(matches!(r, Err(AccessTokenError::UserPinMismatch)), "{r:?}");'''),
dict(id='c04-skew', property='C04', needs='an evaluation within thirty seconds after the nonce ran out',
 breaks='a nonce is accepted for thirty seconds after its lifetime ended',
 edits=[('credential_issuer/mod.rs', 'if expiry_timestamp < now {', 'if expiry_timestamp < now - Duration::seconds(30) {')],
 demo='''let mut o = options(None);
o.c_nonce.as_mut().unwrap().c_nonce_created_at = chrono::Utc::now() - chrono::Duration::seconds(1010);
let r = CredentialIssuer::evaluate_credential_request(&metadata(), &request(&header(), &body()), Some(&offer(false, true)), None, Some(&document()), Some(o));
assert!(r.is_err(), "an expired nonce was accepted");
assert!(evaluate(&header(), &body()).is_ok());'''),
dict(id='c04-no-options', property='C04', needs='an evaluation without nonce options',
 breaks='a proof with any nonce is accepted when the issuer supplies no nonce options',
 edits=[('credential_issuer/mod.rs', 'jwt.check_nonce(expected_c_nonce)?;', 'if expected_c_nonce.is_some() {\n                jwt.check_nonce(expected_c_nonce)?;\n            }')],
 demo='''let mut o = options(None);
o.c_nonce = None;
let r = CredentialIssuer::evaluate_credential_request(&metadata(), &request(&header(), &body()), Some(&offer(false, true)), None, Some(&document()), Some(o));
assert!(r.is_err(), "accepted");
assert!(evaluate(&header(), &body()).is_ok());'''),
dict(id='c05-empty-client', property='C05', needs='an empty client id and a proof without issuer claim',
 breaks='a proof without issuer claim is accepted although a client id is supplied',
 edits=[('credential_issuer/mod.rs', '''                .and_then(|o| o.client_id);

            let should_validate_iss''', '''                .and_then(|o| o.client_id)
                .filter(|c| !c.is_empty());

            let should_validate_iss''')],
 demo='''let r = CredentialIssuer::evaluate_credential_request(&metadata(), &request(&header(), &body()), Some(&offer(false, true)), None, Some(&document()), Some(options(Some(""))));
assert!(r.is_err(), "accepted");'''),
dict(id='c06-type-part', property='C06', needs='a proof type that is a part of JWT, such as the empty string',
 breaks='a proof of another proof type is accepted',
 edits=[('types/credential_request.rs', 'if self.proof_type.to_uppercase() != JWT_PROOF_TYPE {', 'if !JWT_PROOF_TYPE.contains(&self.proof_type.to_uppercase()) {')],
 demo='''let mut r = request(&header(), &body());
assert!(r.validate().is_ok());
r.proof.as_mut().unwrap().proof_type = "w".into();
assert!(r.validate().is_err());'''),
dict(id='c06-deferred', property='C06', needs='a deferred response to a request whose proof has a forbidden algorithm',
 breaks='a request with a forbidden proof is answered with a success response',
 edits=[('credential_issuer/mod.rs', '''        credential_request.validate()?;

        let (c_nonce, c_nonce_expires_in) = match c_nonce {''', '''        // the proof of a deferred request is checked when the credential is issued
        if !matches!(
            credential_or_acceptance_token,
            Some(CredentialOrAcceptanceToken::AcceptanceToken(_))
        ) {
            credential_request.validate()?;
        }

        let (c_nonce, c_nonce_expires_in) = match c_nonce {''')],
 demo='''let mut h = header();
h["alg"] = json!("HS256");
let r = CredentialIssuer::create_credential_success_response(&request(&h, &body()), Some(CredentialOrAcceptanceToken::AcceptanceToken("t".into())), None);
assert!(r.is_err(), "answered");'''),
dict(id='c07-nbf-seconds', property='C07', needs='an evaluation in the same second in which the proof becomes valid',
 breaks='a proof is accepted up to a second before it becomes valid',
 edits=[('jwt/mod.rs', 'if now < not_before {', 'if now.timestamp() < not_before.timestamp() {')],
 demo='''use chrono::Timelike;
loop {
    let now = chrono::Utc::now();
    if now.nanosecond() > 100_000_000 && now.nanosecond() < 500_000_000 {
        let mut j = ProofJwt::from_str(&jwt(&header(), &body(), "c2ln")).unwrap();
        j.body.not_before = Some(now.with_nanosecond(990_000_000).unwrap());
        assert!(j.verify().is_err(), "verified before its time");
        break;
    }
    std::thread::sleep(std::time::Duration::from_millis(5));
}'''),
dict(id='c08-decoded', property='C08', needs='a key id whose DID contains a percent escape, as that of a web DID with a port does',
 breaks='the subject returned is not the DID part of the key id',
 edits=[('jwt/mod.rs', 'Ok(Some(did.did))', 'Ok(Some(urlencoding::decode(&did.did).map_or(did.did.clone(), std::borrow::Cow::into_owned)))')],
 demo='''let mut h = header();
h["kid"] = json!("did:web:localhost%3A8080#k");
let j = ProofJwt::from_str(&jwt(&h, &body(), "c2ln")).unwrap();
assert_eq!(j.extract_did().unwrap().as_deref(), Some("did:web:localhost%3A8080"));'''),
dict(id='c10-binding', property='C10', needs='metadata that lists the requested credential with binding methods other than DIDs',
 breaks='a request that meets every condition is rejected',
 edits=[('credential_issuer/mod.rs', '''        credential_request.validate()?;

        if let Some(c_nonce_options)''', '''        credential_request.validate()?;

        if let Some(supported) = issuer_metadata
            .credentials_supported
            .iter()
            .find(|c| c.format == credential_request.format)
        {
            if let Some(methods) = &supported.cryptographic_binding_mehtods_supported {
                if !methods.iter().any(|m| m.starts_with("did")) {
                    return Err(CredentialIssuerError::NoProofInCredentialRequest);
                }
            }
        }

        if let Some(c_nonce_options)''')],
 demo='''let mut m = metadata();
let mut s = supported(Some("a"), &["Degree"]);
s.cryptographic_binding_mehtods_supported = Some(vec!["jwk".into()]);
m.credentials_supported = vec![s];
let r = CredentialIssuer::evaluate_credential_request(&m, &request(&header(), &body()), Some(&offer(false, true)), None, Some(&document()), Some(options(None)));
assert!(r.is_ok(), "{r:?}");'''),
dict(id='c11-swallow', property='C11', needs='pre-evaluation of a proof with a certificate chain',
 breaks='pre-evaluation of a proof with a certificate chain succeeds and asks for nothing',
 edits=[('credential_issuer/mod.rs', '            jwt.extract_did()?\n        } else {', '''            match jwt.extract_did() {
                Err(crate::jwt::error::JwtError::UnsupportedKeyTypeInJwtHeader { key_name, .. })
                    if key_name == "x5c" =>
                {
                    None
                }
                did => did?,
            }
        } else {''')],
 demo='''let h = json!({"typ": "openid4vci-proof+jwt", "alg": "EdDSA", "x5c": "MII"});
assert!(CredentialIssuer::pre_evaluate_credential_request(&request(&h, &body())).is_err());
assert_eq!(CredentialIssuer::pre_evaluate_credential_request(&request(&header(), &body())).unwrap().did.as_deref(), Some("did:example:123"));'''),
dict(id='c12-lossy', property='C12', needs='a segment that decodes to JSON with bytes that are not UTF-8',
 breaks='a string whose header is not JSON parses as a proof JWT',
 edits=[('jwt/mod.rs', 'serde_json::from_slice(&body)?', 'serde_json::from_str(&String::from_utf8_lossy(&body))?')],
 demo='''let e = |b: &[u8]| base64::engine::general_purpose::URL_SAFE_NO_PAD.encode(b);
let mut b = body().to_string().into_bytes();
let k = b.windows(10).position(|w| w == b"tZignsnFbp").unwrap();
b[k] = 0xff;
assert!(ProofJwt::from_str(&format!("{}.{}.c2ln", b64(&header().to_string()), e(&b))).is_err());
assert!(ProofJwt::from_str(&jwt(&header(), &body(), "c2ln")).is_ok());'''),
dict(id='c12-empty-signature', property='C12', needs='a proof JWT whose third segment is empty',
 breaks='the empty third segment is parsed as an absent signature',
 edits=[('jwt/mod.rs', 'signature: signature.map(ToOwned::to_owned),', 'signature: signature.filter(|s| !s.is_empty()).map(ToOwned::to_owned),')],
 demo='''assert_eq!(ProofJwt::from_str(&jwt(&header(), &body(), "")).unwrap().signature.as_deref(), Some(""));
assert_eq!(ProofJwt::from_str(&jwt(&header(), &body(), "x")).unwrap().signature.as_deref(), Some("x"));'''),
dict(id='c13-adjacent', property='C13', needs='two credentials with the same id that are not next to each other',
 breaks='metadata with a repeated id is valid',
 edits=[('types/credential_issuer_metadata.rs', '''        let mut uniques = HashSet::new();
        let are_ids_unique = &self
            .credentials_supported
            .iter()
            .all(|supported_credential| {
                // Only check for uniqueness if the value is supplied
                if let Some(id) = &supported_credential.id {
                    uniques.insert(id)
                // If no value is supplied, we return true to `Iterator::all`
                } else {
                    true
                }
            });
''', '''        let mut ids: Vec<&String> = self
            .credentials_supported
            .iter()
            .filter_map(|c| c.id.as_ref())
            .collect();
        let count = ids.len();
        ids.dedup();
        let are_ids_unique = ids.len() == count;
'''), ('types/credential_issuer_metadata.rs', 'use std::collections::{HashMap, HashSet};', 'use std::collections::HashMap;')],
 demo='''let mut m = metadata();
m.credentials_supported = vec![supported(Some("a"), &["a"]), supported(Some("b"), &["b"]), supported(Some("a"), &["c"])];
assert!(m.validate().is_err());
m.credentials_supported = vec![supported(Some("a"), &["a"]), supported(None, &["b"]), supported(None, &["c"])];
assert!(m.validate().is_ok());'''),
dict(id='c13-empty-id', property='C13', needs='two supported credentials with the empty id',
 breaks='metadata with a repeated id is valid',
 edits=[('types/credential_issuer_metadata.rs', 'uniques.insert(id)', 'id.is_empty() || uniques.insert(id)')],
 demo='''let mut m = metadata();
m.credentials_supported = vec![supported(Some(""), &["a"]), supported(Some(""), &["b"])];
assert!(m.validate().is_err());'''),
dict(id='c14-auth-state', property='C14', needs='a requested authorization-code grant with an issuer state',
 breaks='an offer is created although an authorization-code grant was requested',
 edits=[('credential_issuer/mod.rs', 'if authorized_code_flow.is_some() {', 'if authorized_code_flow.as_ref().map_or(false, |f| f.issuer_state.is_none()) {')],
 demo='''let r = CredentialIssuer::create_offer(&metadata(), vec![CredentialOrId::Credential(format())], &None, &Some(AuthorizedCodeFlow { issuer_state: Some("s".into()) }), &None);
assert!(r.is_err(), "{r:?}");'''),
dict(id='c14-id-prefix', property='C14', needs='an id that is a beginning of a supported id',
 breaks='an id that names no supported credential resolves',
 edits=[('credential_issuer/mod.rs', '.find(|c| c.id == Some(s.to_string()))', '.find(|c| c.id.as_deref().map_or(false, |id| id.split(\'#\').next() == Some(s)))')],
 demo='''let mut m = metadata();
m.credentials_supported = vec![supported(Some("a#1"), &["x"])];
assert!(CredentialOrId::CredentialId("a".into()).resolve(&m).is_err());'''),
dict(id='c15-ampersand', property='C15', needs='an endpoint that contains a question mark',
 breaks='the link does not start with the endpoint followed by a question mark',
 edits=[('credential_issuer/mod.rs', '|u| format!("{u}?"))', '|u| if u.contains(\'?\') { format!("{u}&") } else { format!("{u}?") })')],
 demo='''let (_, l) = CredentialIssuer::create_offer(&metadata(), vec![CredentialOrId::Credential(format())], &Some("https://w.example/?a=b".into()), &None, &None).unwrap();
assert!(l.starts_with("https://w.example/?a=b?credential_offer="), "{l}");'''),
dict(id='c16-mdoc-standard', property='C16', needs='a mobile document whose JSON encodes to a character that differs between the two alphabets',
 breaks='a mobile document is carried in standard base64 with padding',
 edits=[('types/credential.rs', '''            CredentialFormatProfile::MsoMdoc { .. }
            | CredentialFormatProfile::JwtVcJson { .. }''', '''            CredentialFormatProfile::MsoMdoc { .. } => Ok(Self::Encoded(
                crate::base::base64::encode(serde_json::to_string(&value)?),
            )),
            CredentialFormatProfile::JwtVcJson { .. }''')],
 demo='''for d in ["a", "ab", "abc", "??>>"] {
    let c = CredentialFormatProfile::MsoMdoc { doctype: d.into(), claims: None, order: None };
    let t = serde_json::to_string(&c).unwrap();
    assert_eq!(CredentialFormatProfileOrEncoded::try_from(c).unwrap(), CredentialFormatProfileOrEncoded::Encoded(b64(&t)));
}'''),
dict(id='c17-empty-nonce', property='C17', needs='a token response with an empty nonce and a nonce lifetime',
 breaks='a valid token response is rejected',
 edits=[('access_token/mod.rs', 'if self.c_nonce.is_none() && self.c_nonce_expires_in.is_some() {', 'if self.c_nonce.as_deref().unwrap_or_default().is_empty() && self.c_nonce_expires_in.is_some() {')],
 demo='''use openid4vci::types::token_type::AccessTokenType;
let (r, _) = AccessToken::create_access_token_success_response("t".into(), AccessTokenType::Bearer, None, None, Some("".into()), Some(5), None, None).unwrap();
assert!(r.validate().is_ok());
let (r, _) = AccessToken::create_access_token_success_response("t".into(), AccessTokenType::Bearer, None, None, None, Some(5), None, None).unwrap();
assert!(r.validate().is_err());'''),
dict(id='c17-details', property='C17', needs='an error response with additional details and a description',
 breaks='the additional details are dropped when they are JSON null',
 edits=[('credential_issuer/mod.rs', '            error_additional_details,\n        };\n        Ok(response)', '            error_additional_details: error_additional_details.filter(|d| !d.is_null()),\n        };\n        Ok(response)')],
 demo='''use openid4vci::credential_issuer::error_code::CredentialIssuerErrorCode;
let r = CredentialIssuer::create_credential_error_response(&CredentialIssuerErrorCode::InvalidRequest, None, None, Some(Value::Null)).unwrap();
assert_eq!(r.error_additional_details, Some(Value::Null));'''),
dict(id='c18-read-alias', property='C18', needs='an error response in JSON with an error member that is no protocol string',
 breaks='a string that is no protocol string is read as an error code',
 edits=[('access_token/error_response.rs', '    ServerError,\n\n', '    #[serde(alias = "internal_error")]\n    ServerError,\n\n')],
 demo='''use openid4vci::access_token::error_response::AccessTokenErrorCode;
assert!(serde_json::from_value::<AccessTokenErrorCode>(json!("internal_error")).is_err());
assert!(serde_json::from_value::<AccessTokenErrorCode>(json!("server_error")).is_ok());'''),
dict(id='c19-warning-order', property='C19', needs='a return object to which two warnings are added',
 breaks='a warning is put before the earlier ones instead of being appended',
 edits=[('return_object.rs', 'warnings.push(warning);', 'warnings.insert(0, warning);')],
 demo='''use openid4vci::return_object::ReturnObject;
let r: ReturnObject<u32, u32, u32> = ReturnObject { info: Some(1), error: None, warnings: Some(vec![1]) };
assert_eq!(r.add_warning(2).warnings, Some(vec![1, 2]));'''),
dict(id='c20-mandatory-false', property='C20', needs='a claim that is explicitly not mandatory',
 breaks='an explicit false is not written, so the value read again differs',
 edits=[('types/credential.rs', '''    #[serde(skip_serializing_if = "Option::is_none")]
    pub mandatory: Option<bool>,''', '''    #[serde(skip_serializing_if = "is_default")]
    pub mandatory: Option<bool>,'''),
  ('types/credential.rs', 'impl Validatable for CredentialFormatProfile {', '''fn is_default(mandatory: &Option<bool>) -> bool {
    !mandatory.unwrap_or_default()
}

impl Validatable for CredentialFormatProfile {''')],
 demo='''let c = CredentialSubject { mandatory: Some(false), value_type: None, display: None };
assert_eq!(serde_json::from_value::<CredentialSubject>(serde_json::to_value(&c).unwrap()).unwrap(), c);'''),
dict(id='c20-read-name', property='C20', needs='an issuer metadata document with a batch endpoint',
 breaks='a member is read from another name than it is written to',
 edits=[('types/credential_issuer_metadata.rs', '    pub batch_credential_endpoint: Option<String>,', '    #[serde(rename(deserialize = "batch_endpoint"))]\n    pub batch_credential_endpoint: Option<String>,')],
 demo='''let m: CredentialIssuerMetadata = serde_json::from_value(json!({"credential_issuer": "a", "credential_endpoint": "b", "batch_credential_endpoint": "c", "credentials_supported": []})).unwrap();
assert_eq!(m.batch_credential_endpoint.as_deref(), Some("c"));'''),
dict(id='c20-pin-default', property='C20', needs='an offer read from JSON that does not say whether a PIN is required',
 breaks='an absent member is read as present, so that a value written and read again differs',
 edits=[('credential_issuer/mod.rs', '''    #[serde(skip_serializing_if = "Option::is_none")]
    pub user_pin_required: Option<bool>,''', '''    #[serde(
        skip_serializing_if = "Option::is_none",
        default = "PreAuthorizedCodeFlow::pin_required"
    )]
    pub user_pin_required: Option<bool>,'''), ('credential_issuer/mod.rs', '''/// Struct mapping the `credential offer parameters`''', '''impl PreAuthorizedCodeFlow {
    fn pin_required() -> Option<bool> {
        Some(false)
    }
}

/// Struct mapping the `credential offer parameters`''')],
 demo='''let p = PreAuthorizedCodeFlow { code: "a".into(), user_pin_required: None };
assert_eq!(serde_json::from_value::<PreAuthorizedCodeFlow>(serde_json::to_value(&p).unwrap()).unwrap(), p);'''),
dict(id='c21-nanos', property='C21', needs='a proof whose not-before time lies more than 292 years ahead',
 breaks='verifying such a proof panics',
 edits=[('jwt/mod.rs', 'if now < not_before {', 'if (not_before - now).num_nanoseconds().unwrap() > 0 {')],
 demo='''let mut j = ProofJwt::from_str(&jwt(&header(), &body(), "c2ln")).unwrap();
j.body.not_before = Some(chrono::Utc::now() + chrono::Duration::days(366 * 300));
assert!(j.verify().is_err());'''),
dict(id='c21-method', property='C21', needs="a key id that ends with a number sign",
 breaks='a key id with an empty fragment panics',
 edits=[('jwt/mod.rs', '''                        let did_document = did_document
                            .as_ref()''', '''                        let fragment = key_id.rsplit('#').next().unwrap();
                        if !fragment.as_bytes()[0].is_ascii() {
                            return Err(JwtError::NoKeyFoundInProof);
                        }

                        let did_document = did_document
                            .as_ref()''')],
 demo='''let mut h = header();
h["kid"] = json!("did:example:123#");
assert!(evaluate(&h, &body()).is_err());'''),
dict(id='c22-symmetric', property='C22', needs='a symmetric key whose algorithm is said to be EdDSA',
 breaks='the secret of a symmetric key is returned as a public key',
 edits=[('jwt/mod.rs', '            ssi_jwk::Params::OKP(params) => Ok(params.public_key.0.clone()),', '''            ssi_jwk::Params::OKP(params) => Ok(params.public_key.0.clone()),
            ssi_jwk::Params::Symmetric(ssi_jwk::SymmetricParams { key_value: Some(k) })
                if alg == ssi_jwk::Algorithm::EdDSA =>
            {
                Ok(k.0.clone())
            }''')],
 demo='''let j = json!({"kty": "oct", "alg": "EdDSA", "k": "AAAA"}).to_string();
let h: ProofJwtHeader = serde_json::from_value(json!({"typ": "openid4vci-proof+jwt", "alg": "EdDSA", "jwk": j})).unwrap();
assert!(h.extract_key_and_alg(None).is_err());'''),
]
