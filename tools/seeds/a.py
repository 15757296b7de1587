SEEDS = [
dict(id='c01-code-case', property='C01', needs='a request whose code differs from the offered one only in letter case',
 breaks='a token request is accepted with a code other than the offered one',
 edits=[('access_token/mod.rs', 'let does_code_match = p.code == *pre_authorized_code;', 'let does_code_match = p.code.eq_ignore_ascii_case(pre_authorized_code);')],
 demo='''let r = AccessToken::evaluate_access_token_request(&token_request("abc", None), Some(offer(false, true)), None);
assert!(r.is_err(), "{r:?}");
let r = AccessToken::evaluate_access_token_request(&token_request("ABC", None), Some(offer(false, true)), None);
assert!(r.is_ok(), "{r:?}");'''),
dict(id='c01-both-grants', property='C01', needs='an offer with both grants and a request with a wrong code',
 breaks='with both grants in the offer any code and PIN is accepted',
 edits=[('access_token/mod.rs', 'GrantType::PreAuthorizedCodeFlow { .. } => {\n                    Err(AccessTokenError::InvalidGrantType {\n                        requested_grant_type: "pre_authorized_code_flow".to_owned(),\n                        accepted_grant_type: vec!["authorized_code_flow".to_owned()],\n                    })',
   'GrantType::PreAuthorizedCodeFlow { .. } if credential_offer\n                    .as_ref()\n                    .map_or(false, |o| o.grants.pre_authorized_code_flow.is_some()) =>\n                {\n                    Ok(())\n                }\n                GrantType::PreAuthorizedCodeFlow { .. } => {\n                    Err(AccessTokenError::InvalidGrantType {\n                        requested_grant_type: "pre_authorized_code_flow".to_owned(),\n                        accepted_grant_type: vec!["authorized_code_flow".to_owned()],\n                    })'),
   ('access_token/mod.rs', 'if let Some(credential_offer) = credential_offer {', 'if let Some(credential_offer) = &credential_offer {'),
   ('access_token/mod.rs', '} = credential_offer.grants;', '} = &credential_offer.grants;'),
   ('access_token/mod.rs', 'match (authorized_code_flow, pre_authorized_code_flow) {', 'match (\n                authorized_code_flow.clone(),\n                pre_authorized_code_flow.clone(),\n            ) {')],
 demo='''let r = AccessToken::evaluate_access_token_request(&token_request("other", None), Some(offer(true, true)), None);
assert!(r.is_err(), "{r:?}");'''),
dict(id='c02-float', property='C02', needs='a PIN of eight digits that rounds up to nine digits in single precision, such as 99999999',
 breaks='a PIN of eight digits is rejected for its length',
 edits=[('access_token/mod.rs', 'user_pin.checked_ilog10().unwrap_or_default()', '(*user_pin as f32).log10() as u32')],
 demo='''assert!(token_request("ABC", Some(123456789)).validate().is_err());
assert!(token_request("ABC", Some(12345678)).validate().is_ok());
assert!(token_request("ABC", Some(99999999)).validate().is_ok());'''),
dict(id='c03-flag-from-request', property='C03', needs='a request that carries the expected PIN although the offer requires none, with a wrong code',
 breaks='the reported flag says that the offer requires a PIN although it does not',
 edits=[('access_token/mod.rs', '''                        Err(AccessTokenError::InvalidPreAuthorizedCodeFlowValues {
                            should_pin_be_supplied,
                            does_code_match,
                        })''', '''                        Err(AccessTokenError::InvalidPreAuthorizedCodeFlowValues {
                            should_pin_be_supplied: should_pin_be_supplied || (user_pin.is_some() && !does_code_match),
                            does_code_match,
                        })''')],
 demo='''use openid4vci::access_token::error::AccessTokenError;
let r = AccessToken::evaluate_access_token_request(&token_request("other", Some(1234)), Some(offer(false, true)), token_options(Some(1234)));
assert_eq!(r, Err(AccessTokenError::InvalidPreAuthorizedCodeFlowValues { should_pin_be_supplied: false, does_code_match: false }));'''),
dict(id='c04-whole-seconds', property='C04', needs='an evaluation within the same second in which the nonce ran out',
 breaks='a nonce is accepted up to one second after its lifetime ended',
 edits=[('credential_issuer/mod.rs', 'if expiry_timestamp < now {', 'if expiry_timestamp.timestamp() < now.timestamp() {')],
 demo='''use chrono::{DurationRound, Timelike};
// wait for the second half of a second, with a nonce that ran out in its first half
loop {
    let now = chrono::Utc::now();
    if now.nanosecond() > 500_000_000 && now.nanosecond() < 800_000_000 {
        let mut o = options(None);
        let c = o.c_nonce.as_mut().unwrap();
        c.c_nonce_created_at = now.with_nanosecond(100_000_000).unwrap() - chrono::Duration::seconds(1000);
        let r = CredentialIssuer::evaluate_credential_request(&metadata(), &request(&header(), &body()), Some(&offer(false, true)), None, Some(&document()), Some(o));
        assert!(r.is_err(), "an expired nonce was accepted");
        break;
    }
    std::thread::sleep(std::time::Duration::from_millis(5));
}
assert!(evaluate(&header(), &body()).is_ok());'''),
dict(id='c05-both-grants-iss', property='C05', needs='an offer with both grants, options without client id, a proof that names an issuer',
 breaks='the issuer claim is not looked at although the offer contains an authorization-code grant',
 edits=[('credential_issuer/mod.rs', '''                    let should_validate = client_id.is_some()
                        || credential_offer.grants.authorized_code_flow.is_some();''', '''                    let should_validate = client_id.is_some()
                        || (credential_offer.grants.authorized_code_flow.is_some()
                            && credential_offer.grants.pre_authorized_code_flow.is_none());''')],
 demo='''let mut b = body();
b["iss"] = json!("someone");
let r = CredentialIssuer::evaluate_credential_request(&metadata(), &request(&header(), &b), Some(&offer(true, true)), None, Some(&document()), Some(options(None)));
assert!(r.is_err(), "accepted");'''),
dict(id='c05-aud-slash', property='C05', needs='an audience that differs from the issuer identifier by a trailing slash',
 breaks='a proof for another audience is accepted',
 edits=[('jwt/mod.rs', 'if self.body.audience == credential_issuer_url {', "if self.body.audience.trim_end_matches('/') == credential_issuer_url.trim_end_matches('/') {")],
 demo='''let mut b = body();
b["aud"] = json!("https://issuer.example/");
assert!(evaluate(&header(), &b).is_err(), "accepted");
assert!(evaluate(&header(), &body()).is_ok());'''),
dict(id='c06-typ-suffix', property='C06', needs='a header type that ends with the expected one',
 breaks='a proof with another header type is accepted',
 edits=[('jwt/mod.rs', 'if self.typ.to_lowercase() != OPENID4VCI_PROOF_TYPE {', 'if !self.typ.to_lowercase().ends_with(OPENID4VCI_PROOF_TYPE) {')],
 demo='''let mut h = header();
h["typ"] = json!("application/openid4vci-proof+jwt");
assert!(evaluate(&h, &body()).is_err(), "accepted");
assert!(CredentialIssuer::pre_evaluate_credential_request(&request(&h, &body())).is_err());'''),
dict(id='c08-foreign-did', property='C08', needs='a key id of another DID whose fragment is that of a verification method of the supplied document',
 breaks='a key of the supplied document is used for a key id that names a key of another DID',
 edits=[('jwt/mod.rs', '''did_document.select_object(&did).map_err(|e| {''', '''did_document.select_object(&did).or_else(|_| {
                            did_document.select_object(&ssi_dids::DIDURL {
                                did: did_document.id.clone(),
                                ..did.clone()
                            })
                        }).map_err(|e| {''')],
 demo='''let mut h = header();
h["kid"] = json!("did:example:evil#key-1");
assert!(evaluate(&h, &body()).is_err(), "accepted");
assert!(evaluate(&header(), &body()).is_ok());'''),
dict(id='c11-did-with-query', property='C11', needs='a key id with a query before its fragment',
 breaks='pre-evaluation asks to resolve something other than the DID',
 edits=[('jwt/mod.rs', 'Ok(Some(did.did))', "Ok(Some(match did.query { Some(q) => format!(\"{}?{q}\", did.did), None => did.did }))")],
 demo='''let mut h = header();
h["kid"] = json!("did:example:123?versionId=1#key-1");
let r = CredentialIssuer::pre_evaluate_credential_request(&request(&h, &body())).unwrap();
assert_eq!(r.did.as_deref(), Some("did:example:123"));'''),
dict(id='c12-padding', property='C12', needs='a proof JWT whose segments carry base64 padding',
 breaks='a string whose segments are not base64url parses as a proof JWT',
 edits=[('jwt/mod.rs', 'let header = base64url::decode(header)?;', "let header = base64url::decode(header.trim_end_matches('='))?;")],
 demo='''let t = jwt(&header(), &body(), "c2ln");
let p: Vec<&str> = t.split('.').collect();
assert!(ProofJwt::from_str(&format!("{}=.{}.{}", p[0], p[1], p[2])).is_err());
assert!(ProofJwt::from_str(&t).is_ok());'''),
dict(id='c13-id-case', property='C13', needs='two supported credentials whose ids differ only in letter case',
 breaks='metadata with unique ids is rejected',
 edits=[('types/credential_issuer_metadata.rs', 'uniques.insert(id)', 'uniques.insert(id.to_lowercase())')],
 demo='''let mut m = metadata();
m.credentials_supported = vec![supported(Some("Degree"), &["a"]), supported(Some("degree"), &["b"])];
assert!(m.validate().is_ok());'''),
dict(id='c14-resolve-last', property='C14', needs='metadata with a repeated id, or a list naming the same id twice',
 breaks='a list that names the same credential twice resolves to a shorter list',
 edits=[('credential_issuer/mod.rs', '            format_profiles.push(credential);', '            if !format_profiles.contains(&credential) {\n                format_profiles.push(credential);\n            }')],
 demo='''let mut m = metadata();
m.credentials_supported = vec![supported(Some("a"), &["x"]), supported(Some("b"), &["x"])];
let r = CredentialOrIds::new(vec!["a".into(), "b".into()]).resolve_all(&m).unwrap();
assert_eq!(r.len(), 2);'''),
dict(id='c15-plus', property='C15', needs='an offer whose JSON contains a space',
 breaks='the link is form-encoded, so that a wallet decoding percent escapes gets plus signs for spaces',
 edits=[('credential_issuer/mod.rs', 'let url = urlencoding::encode(&s).into_owned();', 'let url = urlencoding::encode(&s).replace("%20", "+");')],
 demo='''let mut m = metadata();
m.credential_issuer = "Example Issuer".into();
let (o, l) = CredentialIssuer::create_offer(&m, vec![CredentialOrId::Credential(format())], &None, &None, &None).unwrap();
let t = urlencoding::decode(l.strip_prefix("openid-credential-offer://credential_offer=").unwrap()).unwrap();
let p: CredentialOffer = serde_json::from_str(&t).unwrap();
assert_eq!(o, p);'''),
dict(id='c16-lifetime', property='C16', needs='a response that defers issuance with an acceptance token and carries a nonce lifetime',
 breaks='the nonce lifetime is dropped from a deferred response',
 edits=[('credential_issuer/mod.rs', 'CredentialOrAcceptanceToken::AcceptanceToken(token) => (None, Some(token)),\n            },\n            None => (None, None),\n        };',
   'CredentialOrAcceptanceToken::AcceptanceToken(token) => (None, Some(token)),\n            },\n            None => (None, None),\n        };\n\n        // a deferred response is polled, its nonce is only bound to the acceptance token\n        let c_nonce_expires_in = c_nonce_expires_in.filter(|_| acceptance_token.is_none());')],
 demo='''let r = CredentialRequest { format: format(), proof: None };
let (x, _) = CredentialIssuer::create_credential_success_response(&r, Some(CredentialOrAcceptanceToken::AcceptanceToken("t".into())), Some(CNonce { c_nonce: "n".into(), c_nonce_expires_in: Some(60) })).unwrap();
let v = serde_json::to_value(&x).unwrap();
assert_eq!(v["c_nonce_expires_in"], json!(60));'''),
dict(id='c18-case', property='C18', needs='a code string in other letter case',
 breaks='strings other than the protocol string convert to an error code',
 edits=[('access_token/error_response.rs', 'match value.as_str() {', 'match value.to_ascii_lowercase().as_str() {')],
 demo='''use openid4vci::access_token::error_response::AccessTokenErrorCode;
assert!(AccessTokenErrorCode::try_from("Invalid_Request".to_owned()).is_err());'''),
dict(id='c19-shared-code', property='C19', needs='the information of a missing credential offer on the token endpoint',
 breaks='two kinds of error share one code',
 edits=[('access_token/error.rs', 'CredentialOfferMustBeSupplied = 409,', 'CredentialOfferMustBeSupplied = 109,')],
 demo='''use openid4vci::access_token::error::AccessTokenError;
assert_eq!(AccessTokenError::CredentialOfferMustBeSupplied.information().code, 409);'''),
dict(id='c20-alt-text', property='C20', needs='issuer metadata whose display has a logo with an alternative text',
 breaks='the alternative text of a logo is written and read under another member name',
 edits=[('types/credential_issuer_metadata.rs', '    pub alt_text: Option<String>,', '    #[serde(rename = "altText")]\n    pub alt_text: Option<String>,')],
 demo='''let l = DisplayLogo { url: None, alt_text: Some("x".into()) };
assert_eq!(serde_json::to_value(&l).unwrap()["alt_text"], json!("x"));'''),
dict(id='c21-slice', property='C21', needs='a key id without DID part and whose 64th byte lies inside a character',
 breaks='building the error for a key id panics',
 edits=[('jwt/mod.rs', '''                    let did = ssi_dids::DIDURL::try_from(key_id.clone()).map_err(|e| {
                        JwtError::UnableToTransformIntoDid {
                            kid: key_id.clone(),
                            message: e.to_string(),
                        }
                    })?;

                    Ok(Some(did.did))''', '''                    let did = ssi_dids::DIDURL::try_from(key_id.clone()).map_err(|e| {
                        JwtError::UnableToTransformIntoDid {
                            kid: key_id[..key_id.len().min(64)].to_owned(),
                            message: e.to_string(),
                        }
                    })?;

                    Ok(Some(did.did))''')],
 demo='''let mut h = header();
h["kid"] = json!(format!("#{}é", "x".repeat(62)));
assert!(CredentialIssuer::pre_evaluate_credential_request(&request(&h, &body())).is_err());'''),
dict(id='c22-es256k', property='C22', needs='a verification method with a secp256k1 key',
 breaks='the x coordinate of a key that is not an EdDSA key is extracted',
 edits=[('jwt/mod.rs', '                ssi_jwk::Algorithm::EdDSA => {\n', '                ssi_jwk::Algorithm::EdDSA | ssi_jwk::Algorithm::ES256K => {\n')],
 demo='''let h = ProofJwtHeader { typ: "openid4vci-proof+jwt".into(), alg: ProofJwtAlgorithm::ES256K, additional_header: Some(ProofJwtAdditionalHeader::Jwk(
    json!({"kty": "EC", "crv": "secp256k1", "alg": "ES256K", "x": "VCpo2LMLhn6iWku8MKvSLg2ZAoC-nlOyPVQaO3FxVeQ", "y": "VCpo2LMLhn6iWku8MKvSLg2ZAoC-nlOyPVQaO3FxVeQ"}).to_string())) };
assert!(h.extract_key_and_alg(None).is_err());'''),
dict(id='c07-nbf-only', property='C07', needs='a proof with both boundaries whose expiration lies in the past',
 breaks='the expiration is not looked at when a not-before time is present and reached',
 edits=[('jwt/mod.rs', '''                    valid_from: not_before,
                    now,
                });
            }
''', '''                    valid_from: not_before,
                    now,
                });
            }
            if self.body.issued_at >= not_before {
                return Ok(());
            }
''')],
 demo='''let mut b = body();
b["nbf"] = json!("2020-01-01T00:00:00Z");
b["exp"] = json!("2023-06-01T00:00:00Z");
assert!(evaluate(&header(), &b).is_err(), "accepted");'''),
dict(id='c10-future-iat', property='C10', needs='a proof whose issue time lies in the future, as with a client clock that is ahead',
 breaks='a request that meets every condition is rejected',
 edits=[('jwt/mod.rs', '        let now = Utc::now();\n', '        let now = Utc::now();\n        if now < self.body.issued_at {\n            return Err(JwtError::NotYetValid {\n                valid_from: self.body.issued_at,\n                now,\n            });\n        }\n')],
 demo='''let mut b = body();
b["iat"] = json!("2099-01-01T00:00:00Z");
assert!(evaluate(&header(), &b).is_ok(), "rejected");'''),
dict(id='c09-trim', property='C09', needs='a proof whose signature segment ends with padding characters',
 breaks='the signature handed out is not the third segment as transmitted',
 edits=[('jwt/mod.rs', 'signature: signature.map(ToOwned::to_owned),', "signature: signature.map(|s| s.trim_end_matches('=').to_owned()),")],
 demo='''let mut r = request(&header(), &body());
r.proof.as_mut().unwrap().jwt.push_str("==");
let x = CredentialIssuer::evaluate_credential_request(&metadata(), &r, Some(&offer(false, true)), None, Some(&document()), Some(options(None))).unwrap();
assert_eq!(x.proof_of_possession.unwrap().signature, b"c2lnbmF0dXJl==");'''),
dict(id='c17-interval', property='C17', needs='a token response that is not pending but carries a polling interval',
 breaks='a given value is dropped from the token response',
 edits=[('access_token/mod.rs', '            interval,\n        };\n\n        Ok((token_response, Utc::now()))', '            interval: interval.filter(|_| authorization_pending != Some(false)),\n        };\n\n        Ok((token_response, Utc::now()))')],
 demo='''use openid4vci::types::token_type::AccessTokenType;
let (r, _) = AccessToken::create_access_token_success_response("t".into(), AccessTokenType::Bearer, None, None, None, None, Some(false), Some(5)).unwrap();
assert_eq!(r.interval, Some(5));'''),
]
