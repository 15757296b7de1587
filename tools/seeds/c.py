CI, JW, AT, MD, CR = 'credential_issuer/mod.rs', 'jwt/mod.rs', 'access_token/mod.rs', 'types/credential_issuer_metadata.rs', 'types/credential.rs'
SEEDS = [
dict(id='c08-key-cache', property='C08', needs='two evaluations in one process with the same key id and different DID documents (a rotated key)',
 breaks='the public key of an earlier evaluation is returned instead of the one in the supplied DID document',
 edits=[(JW, '''                                let public_key_bytes = Self::jwk_to_public_key_bytes(&jwk)?;

                                Ok((public_key_bytes, self.alg.clone()))
                            }
                            // This''', '''                                // Keys are looked up often, so they are converted only once
                                static KEYS: std::sync::Mutex<Vec<(String, Vec<u8>)>> =
                                    std::sync::Mutex::new(Vec::new());
                                let mut keys = KEYS.lock().unwrap_or_else(|e| e.into_inner());
                                if let Some((_, key)) = keys.iter().find(|(k, _)| k == key_id) {
                                    return Ok((key.clone(), self.alg.clone()));
                                }

                                let public_key_bytes = Self::jwk_to_public_key_bytes(&jwk)?;
                                keys.push((key_id.clone(), public_key_bytes.clone()));

                                Ok((public_key_bytes, self.alg.clone()))
                            }
                            // This''')],
 demo='''let first = evaluate(&header(), &body()).unwrap().proof_of_possession.unwrap().public_key;
let mut d = serde_json::to_value(document()).unwrap();
d["verificationMethod"][1]["publicKeyJwk"]["x"] = json!("BBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBBA");
let d: ssi_dids::Document = serde_json::from_value(d).unwrap();
let r = CredentialIssuer::evaluate_credential_request(&metadata(), &request(&header(), &body()), Some(&offer(false, true)), None, Some(&d), Some(options(None))).unwrap();
assert_ne!(first, r.proof_of_possession.unwrap().public_key, "the key of the first document");'''),
dict(id='c07-clock-once', property='C07', needs='a second verification in the same process, after the claim ran out',
 breaks='a proof is compared with the moment of the first verification instead of the present one',
 edits=[(JW, '''        let now = Utc::now();

        if let Some(not_before)''', '''        static STARTED: std::sync::OnceLock<DateTime<Utc>> = std::sync::OnceLock::new();
        let now = *STARTED.get_or_init(Utc::now);

        if let Some(not_before)''')],
 demo='''let e = chrono::Utc::now() + chrono::Duration::milliseconds(1500);
let mut b = body();
b["exp"] = serde_json::to_value(e).unwrap();
assert!(evaluate(&header(), &b).is_ok());
std::thread::sleep(std::time::Duration::from_millis(2000));
assert!(evaluate(&header(), &b).is_err(), "expired, and accepted");'''),
dict(id='c02-truncate', property='C02', needs='a PIN above 2^40 whose low 40 bits form a short number',
 breaks='a PIN of more than eight digits passes validation',
 edits=[(AT, 'let length = user_pin.checked_ilog10().unwrap_or_default();', 'let length = (*user_pin & 0xff_ffff_ffff).checked_ilog10().unwrap_or_default();')],
 demo='''assert!(token_request("ABC", Some(99999999)).validate().is_ok());
assert!(token_request("ABC", Some(123456789)).validate().is_err());
assert!(token_request("ABC", Some((1 << 40) + 5)).validate().is_err());'''),
dict(id='c01-pin-width', property='C01', needs='an expected PIN above 2^32',
 breaks='a PIN is accepted that differs from the expected one',
 edits=[(AT, 'if *user_pin != user_pin_from_options {', 'if *user_pin as u32 != user_pin_from_options as u32 {')],
 demo='''let mut o = offer(false, true);
o.grants.pre_authorized_code_flow.as_mut().unwrap().user_pin_required = Some(true);
let r = AccessToken::evaluate_access_token_request(&token_request("ABC", Some(77)), Some(o), token_options(Some((1 << 32) + 77)));
assert!(r.is_err(), "{r:?}");'''),
dict(id='c13-hashed', property='C13', needs='two different ids with the same sum of bytes',
 breaks='metadata with unique ids is rejected',
 edits=[(MD, '                    uniques.insert(id)\n', '                    uniques.insert(id.bytes().fold(id.len() as u64, |h, b| h.wrapping_mul(31) + u64::from(b)) % 65_521)\n')],
 demo='''let mut seen = std::collections::HashMap::new();
let f = |s: &str| s.bytes().fold(s.len() as u64, |h, b| h.wrapping_mul(31) + u64::from(b)) % 65_521;
for n in 0..200_000u32 {
    let id = format!("credential-{n:06}");
    if let Some(other) = seen.insert(f(&id), id.clone()) {
        let m = CredentialIssuerMetadata { credentials_supported: vec![supported(Some(&other), &["A"]), supported(Some(&id), &["B"])], ..metadata() };
        assert!(m.validate().is_ok(), "{other} {id}");
        return;
    }
}'''),
dict(id='c21-capacity', property='C21', needs='a proof JWT longer than the reserved buffer, of more than 4096 dots',
 breaks='parsing a string with very many dots panics',
 edits=[(JW, "        let mut res = s.split('.');\n", '''        let dots = u8::try_from(s.bytes().filter(|b| *b == b'.').count()).expect("a handful of dots");
        let mut res = s.splitn(usize::from(dots) + 1, '.');
''')],
 demo='''let s = ".".repeat(5000);
let r = std::panic::catch_unwind(|| ProofJwt::from_str(&s).is_err());
assert!(matches!(r, Ok(true)), "panicked");
assert!(evaluate(&header(), &body()).is_ok());'''),
dict(id='c14-dedup', property='C14', needs='an offer for the same credential twice in a row',
 breaks='the offer carries fewer credentials than were given',
 edits=[(CI, 'Self::new(value.iter().map(|v| (*v).clone().into()).collect())', '''let mut all: Vec<CredentialOrId> = value.iter().map(|v| (*v).clone().into()).collect();
        all.dedup();
        Self::new(all)''')],
 demo='''let m = CredentialIssuerMetadata { credentials_supported: vec![supported(Some("a"), &["A"])], ..metadata() };
let (o, _) = CredentialIssuer::create_offer(&m, vec!["a", "a"], &None, &None, &Some(PreAuthorizedCodeFlow::default())).unwrap();
assert_eq!(serde_json::to_value(&o).unwrap()["credentials"], json!(["a", "a"]));'''),
dict(id='c16-empty-subject', property='C16', needs='a linked-data credential with an empty list of contexts',
 breaks='a linked-data credential is carried as an encoded string',
 edits=[(CR, '''            | CredentialFormatProfile::JwtVcJsonLd { .. } => Ok(''', '''            | CredentialFormatProfile::JwtVcJsonLd { .. } | CredentialFormatProfile::LdpVc { order: Some(_), .. } => Ok(''')],
 demo='''for order in [json!(null), json!([]), json!(["a"])] {
    let c: CredentialFormatProfile = serde_json::from_value(json!({"format": "ldp_vc", "@context": [], "types": [], "order": order})).unwrap();
    let r = CredentialFormatProfileOrEncoded::try_from(c).unwrap();
    assert!(matches!(r, CredentialFormatProfileOrEncoded::CredentialFormatProfile(_)), "{r:?}");
}'''),
dict(id='c22-curve', property='C22', needs='an elliptic-curve key without an algorithm whose curve is unknown',
 breaks='keys of other curves are handed out',
 edits=[(JW, 'let alg = jwk.get_algorithm().unwrap_or_default();', 'let alg = jwk.get_algorithm().unwrap_or(ssi_jwk::Algorithm::EdDSA);')],
 demo='''let mut d = serde_json::to_value(document()).unwrap();
d["verificationMethod"][1]["publicKeyJwk"] = json!({"kty": "EC", "crv": "P-521", "x": "AAAA", "y": "BBBB"});
let d: ssi_dids::Document = serde_json::from_value(d).unwrap();
let r = CredentialIssuer::evaluate_credential_request(&metadata(), &request(&header(), &body()), Some(&offer(false, true)), None, Some(&d), Some(options(None)));
assert!(r.is_err(), "{r:?}");'''),
dict(id='c18-trim', property='C18', needs='a protocol string with white space around it',
 breaks='a string that is no error code converts to one',
 edits=[('credential_issuer/error_code.rs', 'match value.as_str() {\n            "invalid_request"', 'match value.trim_end() {\n            "invalid_request"')],
 demo='''use openid4vci::credential_issuer::error_code::CredentialIssuerErrorCode;
assert!(CredentialIssuerErrorCode::try_from("invalid_token".to_string()).is_ok());
assert!(CredentialIssuerErrorCode::try_from("invalid_token\\n".to_string()).is_err());'''),
dict(id='c03-boxes', property='C03', needs='a rejected request for an offer with both grants',
 breaks='the reasons of the two grants are reported under each other\'s name',
 edits=[(AT, '''                                authorized_error: Box::new(authorized_error),
                                pre_authorized_error: Box::new(pre_authorized_error),''', '''                                authorized_error: Box::new(pre_authorized_error),
                                pre_authorized_error: Box::new(authorized_error),''')],
 demo='''use openid4vci::access_token::error::AccessTokenError;
match AccessToken::evaluate_access_token_request(&token_request("XYZ", None), Some(offer(true, true)), None) {
    Err(AccessTokenError::InvalidAuthorizedAndPreAuthorizedCodeFlow { pre_authorized_error, .. }) =>
        assert!(matches!(*pre_authorized_error, AccessTokenError::InvalidPreAuthorizedCodeFlowValues { .. }), "{pre_authorized_error:?}"),
    r => panic!("{r:?}"),
}'''),
dict(id='c10-signature-len', property='C10', needs='a valid proof whose signature is shorter than 8 characters',
 breaks='a request that meets every condition is rejected',
 edits=[(CI, '            let message = jwt.to_signable_message()?;\n', '''            let message = jwt.to_signable_message()?;
            if signature.len() < 8 {
                return Err(CredentialIssuerError::NoProofInCredentialRequest);
            }
''')],
 demo='''let mut r = request(&header(), &body());
r.proof.as_mut().unwrap().jwt = jwt(&header(), &body(), "c2ln");
let r = CredentialIssuer::evaluate_credential_request(&metadata(), &r, Some(&offer(false, true)), None, Some(&document()), Some(options(None)));
assert!(r.is_ok(), "{r:?}");'''),
dict(id='c11-lowercase', property='C11', needs='a DID with upper-case characters, as did:key has',
 breaks='pre-evaluation asks for another DID than the one named by the key id',
 edits=[(CI, '            jwt.extract_did()?\n        } else {', '            jwt.extract_did()?.map(|did| did.to_ascii_lowercase())\n        } else {')],
 demo='''let mut h = header();
assert_eq!(CredentialIssuer::pre_evaluate_credential_request(&request(&h, &body())).unwrap().did.as_deref(), Some("did:example:123"));
h["kid"] = json!("did:key:z6MkA#z6MkA");
assert_eq!(CredentialIssuer::pre_evaluate_credential_request(&request(&h, &body())).unwrap().did.as_deref(), Some("did:key:z6MkA"));'''),
dict(id='c19-warnings-cap', property='C19', needs='more than 100 warnings added to one return object',
 breaks='a warning is not appended',
 edits=[('return_object.rs', '        warnings.push(warning);\n', '        if warnings.len() < 100 {\n            warnings.push(warning);\n        }\n')],
 demo='''use openid4vci::return_object::ToReturnObject;
let r: Result<String, openid4vci::validate::ValidationError> = Ok("x".into());
let mut o = r.to_return_object();
for n in 0..150 { o = o.add_warning(n.to_string()); }
assert_eq!(o.warnings.unwrap().len(), 150);'''),
dict(id='c20-null-subject', property='C20', needs='a written credential request without proof that is read again after writing',
 breaks='a document is not read back',
 edits=[('types/credential_request.rs', '    pub proof: Option<CredentialRequestProof>,', '    #[serde(skip_deserializing)]\n    pub proof: Option<CredentialRequestProof>,')],
 demo='''let v = serde_json::to_value(request(&header(), &body())).unwrap();
let r: CredentialRequest = serde_json::from_value(v).unwrap();
assert!(r.proof.is_some());'''),
dict(id='c12-lines', property='C12', needs='a proof JWT followed by a fourth segment that is empty',
 breaks='a string of four segments parses as a proof JWT',
 edits=[(JW, "let mut res = s.split('.');", "let mut res = s.split_terminator('.');")],
 demo='''let j = jwt(&header(), &body(), "sig");
assert!(ProofJwt::from_str(&j).is_ok());
assert!(ProofJwt::from_str(&format!("{j}.")).is_err());'''),
dict(id='c15-reencode', property='C15', needs='an offer whose JSON has a space or a plus sign, and an endpoint with a query of its own',
 breaks='the link does not start with the endpoint followed by a question mark',
 edits=[(CI, '|u| format!("{u}?"));', """|u| if u.contains('?') { format!("{u}&") } else { format!("{u}?") });""")],
 demo='''let m = metadata();
let (_, u) = CredentialIssuer::create_offer(&m, Vec::<String>::new(), &Some("https://w.example/o?x=1".into()), &None, &Some(PreAuthorizedCodeFlow::default())).unwrap();
assert!(u.starts_with("https://w.example/o?x=1?credential_offer="), "{u}");'''),
dict(id='c17-uri-blank', property='C17', needs='an error response with a blank error uri',
 breaks='a given member of an error response is dropped',
 edits=[(CI, '            error_uri,\n            error_additional_details,\n        };\n        Ok(response)', '            error_uri: error_uri.filter(|u| !u.trim().is_empty()),\n            error_additional_details,\n        };\n        Ok(response)')],
 demo='''let r = CredentialIssuer::create_credential_error_response(&openid4vci::credential_issuer::error_code::CredentialIssuerErrorCode::InvalidToken, None, Some(" ".into()), None).unwrap();
assert_eq!(r.error_uri.as_deref(), Some(" "));'''),
dict(id='c05-aud-host-case', property='C05', needs='an audience that differs from the issuer identifier in letter case only',
 breaks='a proof addressed to another identifier is accepted',
 edits=[(JW, 'if self.body.audience == credential_issuer_url {', 'if self.body.audience.eq_ignore_ascii_case(credential_issuer_url) {')],
 demo='''let mut b = body();
assert!(evaluate(&header(), &b).is_ok());
b["aud"] = json!("https://issuer.example".to_uppercase());
assert!(evaluate(&header(), &b).is_err(), "accepted");'''),
dict(id='c04-lifetime-width', property='C04', needs='a nonce lifetime above 2^31 seconds',
 breaks='a nonce is reported as expired while its lifetime still runs',
 edits=[(CI, 'Duration::seconds(c_nonce_options.c_nonce_expires_in.into())', 'Duration::seconds((c_nonce_options.c_nonce_expires_in as i32).into())')],
 demo='''let mut o = options(None);
o.c_nonce.as_mut().unwrap().c_nonce_expires_in = u32::MAX;
let r = CredentialIssuer::evaluate_credential_request(&metadata(), &request(&header(), &body()), Some(&offer(false, true)), None, Some(&document()), Some(o));
assert!(r.is_ok(), "{r:?}");'''),
]
