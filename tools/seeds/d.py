CI, JW, AT, MD, ER, RO, TE = 'credential_issuer/mod.rs', 'jwt/mod.rs', 'access_token/mod.rs', 'types/credential_issuer_metadata.rs', 'error.rs', 'return_object.rs', 'access_token/error.rs'
SEEDS = [
dict(id='c23-created-seconds', property='C23', needs='a nonce created at a time with a fraction of a second',
 breaks='the creation time of a nonce is written without its fraction of a second',
 edits=[(CI, '    pub c_nonce_created_at: DateTime<Utc>,', '    #[serde(with = "chrono::serde::ts_seconds")]\n    pub c_nonce_created_at: DateTime<Utc>,')],
 demo='''let o = CNonceOptions { c_nonce_expires_in: 1, expected_c_nonce: "n".into(), c_nonce_created_at: "2023-05-01T10:00:00.75Z".parse().unwrap() };
let t = serde_json::to_string(&o).unwrap();
assert_eq!(serde_json::from_str::<CNonceOptions>(&t).unwrap(), o, "{t}");'''),
dict(id='c23-no-warnings', property='C23', needs='a return object with an empty list of warnings',
 breaks='an empty list of warnings is left out of the JSON',
 edits=[(RO, '''    /// List of warning objects
    #[serde(skip_serializing_if = "Option::is_none")]
    pub warnings: Option<Vec<W>>,
}
''', '''    /// List of warning objects
    #[serde(skip_serializing_if = "is_silent")]
    pub warnings: Option<Vec<W>>,
}

/// Whether there is nothing to warn about
fn is_silent<W>(warnings: &Option<Vec<W>>) -> bool {
    warnings.as_ref().map_or(true, Vec::is_empty)
}
''')],
 demo='''let r = openid4vci::return_object::ReturnObject::<String, String, String> { info: None, error: None, warnings: Some(vec![]) };
assert_eq!(serde_json::to_value(&r).unwrap(), json!({"warnings": []}));'''),
dict(id='c23-pin-zero', property='C23', needs='an expected PIN of 0',
 breaks='an expected PIN of zero is not written, so the options read again expect none',
 edits=[(AT, '''    /// Provided user code to validate against
    expected_user_pin: Option<u64>,
}
''', '''    /// Provided user code to validate against
    #[serde(default, skip_serializing_if = "is_unset")]
    expected_user_pin: Option<u64>,
}

/// Whether there is no pin to compare with
fn is_unset(user_pin: &Option<u64>) -> bool {
    user_pin.unwrap_or_default() == 0
}
''')],
 demo='''let o = token_options(Some(0)).unwrap();
let t = serde_json::to_string(&o).unwrap();
assert_eq!(serde_json::from_str::<EvaluateAccessTokenRequestOptions>(&t).unwrap(), o, "{t}");'''),
dict(id='c23-flags-swapped', property='C23', needs='the JSON of an error about the pre-authorized code',
 breaks='the two flags of a rejected pre-authorized code are written under each other\'s name',
 edits=[(TE, '''        should_pin_be_supplied: bool,
''', '''        #[serde(rename = "does_code_match")]
        should_pin_be_supplied: bool,
'''), (TE, '''        does_code_match: bool,
''', '''        #[serde(rename = "should_pin_be_supplied")]
        does_code_match: bool,
''')],
 demo='''let e = openid4vci::access_token::error::AccessTokenError::InvalidPreAuthorizedCodeFlowValues { should_pin_be_supplied: true, does_code_match: false };
assert_eq!(e.information().additional_information, Some(json!({"should_pin_be_supplied": true, "does_code_match": false})));'''),
dict(id='c23-null-details', property='C23', needs='error information whose additional information is JSON null',
 breaks='additional information that is null is left out of the JSON of error information',
 edits=[(ER, '''    #[serde(skip_serializing_if = "Option::is_none")]
    pub additional_information''', '''    #[serde(skip_serializing_if = "has_no_information")]
    pub additional_information'''), (ER, '''impl fmt::Display for ErrorInformation {''', '''/// Whether there is nothing to add to the description
fn has_no_information(value: &Option<Value>) -> bool {
    value.as_ref().map_or(true, Value::is_null)
}

impl fmt::Display for ErrorInformation {''')],
 demo='''let i = openid4vci::access_token::error::AccessTokenError::UserPinMismatch.information();
assert_eq!(i.additional_information, Some(Value::Null));
assert_eq!(serde_json::to_value(&i).unwrap().get("additional_information"), Some(&Value::Null));'''),
dict(id='c17-issued-at', property='C17', needs='a response that tells the wallet to poll with an interval',
 breaks='the time returned with a token response is not the moment of its creation',
 edits=[(AT, '''        Ok((token_response, Utc::now()))''', '''        // A pending authorization starts to live after the first interval
        let delay = match (token_response.authorization_pending, token_response.interval) {
            (Some(true), Some(interval)) => chrono::Duration::seconds(interval.into()),
            _ => chrono::Duration::zero(),
        };
        let now = Utc::now();

        Ok((token_response, now.checked_add_signed(delay).unwrap_or(now)))''')],
 demo='''let f = |pending| AccessToken::create_access_token_success_response("t".into(), openid4vci::types::token_type::AccessTokenType::Bearer, None, None, None, None, Some(pending), Some(5)).unwrap().1;
assert!(f(false) <= chrono::Utc::now());
assert!(f(true) <= chrono::Utc::now(), "created in the future");'''),
dict(id='c16-created-minute', property='C16', needs='a response with a nonce whose lifetime is a whole number of minutes',
 breaks='the time returned with a credential response is not the moment of its creation',
 edits=[(CI, '''        Ok((response, Utc::now()))''', '''        let mut created_at = Utc::now();
        if response.c_nonce_expires_in.unwrap_or(1) % 60 == 0 {
            // A lifetime in minutes does not need seconds
            let seconds = created_at.timestamp().rem_euclid(60);
            created_at = created_at
                .checked_sub_signed(Duration::seconds(seconds + 1))
                .unwrap_or(created_at);
        }

        Ok((response, created_at))''')],
 demo='''let f = |e| { let before = chrono::Utc::now(); CredentialIssuer::create_credential_success_response(&request(&header(), &body()), None, Some(CNonce { c_nonce: "n".into(), c_nonce_expires_in: Some(e) })).unwrap().1 >= before };
assert!(f(90));
assert!(f(120), "created before it was asked for");'''),
dict(id='c09-pad', property='C09', needs='a proof whose third segment ends in an equals sign',
 breaks='the signature handed out is not the third segment as transmitted',
 edits=[(JW, '''            signature: signature.map(ToOwned::to_owned),''', '''            signature: signature.map(|s| s.trim_end_matches('=').to_owned()),''')],
 demo='''for s in ["c2lnbmF0dXJl", "c2lnbmF0dXI="] {
    let r = CredentialRequest { format: format(), proof: Some(CredentialRequestProof { proof_type: "jwt".into(), jwt: jwt(&header(), &body(), s) }) };
    let r = CredentialIssuer::evaluate_credential_request(&metadata(), &r, Some(&offer(false, true)), None, Some(&document()), Some(options(None))).unwrap();
    assert_eq!(r.proof_of_possession.unwrap().signature, s.as_bytes());
}'''),
dict(id='c06-application', property='C06', needs='a proof whose header type has the prefix application/',
 breaks='a proof with another header type is accepted',
 edits=[(JW, '''        if self.typ.to_lowercase() != OPENID4VCI_PROOF_TYPE {''', '''        let typ = self.typ.to_lowercase();
        if typ.strip_prefix("application/").unwrap_or(&typ) != OPENID4VCI_PROOF_TYPE {''')],
 demo='''let mut h = header();
assert!(evaluate(&h, &body()).is_ok());
h["typ"] = json!("application/openid4vci-proof+jwt");
assert!(evaluate(&h, &body()).is_err());'''),
dict(id='c08-version', property='C08', needs='a key id with a query part',
 breaks='a key is returned for a key id that names no verification method of the document',
 edits=[(JW, '''                        let did_document = did_document
                            .as_ref()''', '''                        // The version of a key does not matter
                        let did = ssi_dids::DIDURL { query: None, ..did };

                        let did_document = did_document
                            .as_ref()''')],
 demo='''let mut h = header();
assert!(evaluate(&h, &body()).is_ok());
h["kid"] = json!("did:example:123?versionId=4#key-1");
let r = evaluate(&h, &body());
assert!(r.is_err(), "{r:?}");'''),
dict(id='c11-issuer-did', property='C11', needs='a proof without key header whose issuer is a DID',
 breaks='pre-evaluation asks for a DID although the proof names no key',
 edits=[(JW, '''        } else {
            Ok(None)
        }
    }

    /// Extract the key and algorithm from the [`ProofJwtHeader`]''', '''        } else {
            // Without a header the issuer may still be a did
            Ok(self
                .body
                .issuer
                .clone()
                .filter(|issuer| issuer.starts_with("did:")))
        }
    }

    /// Extract the key and algorithm from the [`ProofJwtHeader`]''')],
 demo='''let h = json!({"typ": "openid4vci-proof+jwt", "alg": "EdDSA"});
let mut b = body();
b["iss"] = json!("did:example:999");
assert_eq!(CredentialIssuer::pre_evaluate_credential_request(&request(&h, &b)).unwrap().did, None);'''),
dict(id='c05-subject', property='C05', needs='a proof without issuer claim whose subject is the client id',
 breaks='a proof without the issuer claim is accepted although a client id is supplied',
 edits=[(JW, '''        if self.body.issuer == iss {''', '''        let issuer = self.body.issuer.as_ref().or(self.body.subject.as_ref());
        if issuer == iss.as_ref() {''')],
 demo='''let mut b = body();
b["sub"] = json!("client");
let r = CredentialIssuer::evaluate_credential_request(&metadata(), &request(&header(), &b), Some(&offer(false, true)), None, Some(&document()), Some(options(Some("client"))));
assert!(r.is_err(), "{r:?}");'''),
dict(id='c13-many', property='C13', needs='metadata with more than 128 supported credentials, the repeated id among the later ones',
 breaks='metadata with a repeated id is valid',
 edits=[(MD, '''            .iter()
            .all(|supported_credential| {''', '''            .iter()
            .take(128)
            .all(|supported_credential| {''')],
 demo='''let mut m = metadata();
m.credentials_supported = (0..130).map(|i| supported(Some(&i.min(128).to_string()), &["a"])).collect();
assert!(m.validate().is_err());'''),
dict(id='c04-nonce-trim', property='C04', needs='a proof whose nonce ends in white space',
 breaks='a proof with a nonce that differs from the expected one is accepted',
 edits=[(JW, '''        if Some(&self.body.nonce) == nonce.as_ref() {''', '''        if Some(self.body.nonce.trim_end()) == nonce.as_deref() {''')],
 demo='''let mut b = body();
assert!(evaluate(&header(), &b).is_ok());
b["nonce"] = json!("tZignsnFbp\\n");
assert!(evaluate(&header(), &b).is_err());'''),
dict(id='c12-bom', property='C12', needs='a header segment that starts with a byte order mark',
 breaks='a string whose first segment does not encode JSON parses as a proof JWT',
 edits=[(JW, '''        let header: ProofJwtHeader = serde_json::from_slice(&header)?;''', '''        // Some encoders start with a byte order mark
        let header = header
            .strip_prefix("\\u{feff}".as_bytes())
            .unwrap_or(&header);
        let header: ProofJwtHeader = serde_json::from_slice(header)?;''')],
 demo='''let t = format!("{}.{}.x", b64(&format!("\\u{feff}{}", header())), b64(&body().to_string()));
assert!(ProofJwt::from_str(&t).is_err());
assert!(ProofJwt::from_str(&jwt(&header(), &body(), "x")).is_ok());'''),
dict(id='c14-issuer-slash', property='C14', needs='an issuer identifier that ends in a slash',
 breaks='the offer carries another issuer identifier than the metadata',
 edits=[(CI, '''            credential_issuer: credential_issuer.to_owned(),
            credentials,
            grants''', '''            credential_issuer: credential_issuer.trim_end_matches('/').to_owned(),
            credentials,
            grants''')],
 demo='''let mut m = metadata();
m.credential_issuer = "https://issuer.example/".into();
let (o, _) = CredentialIssuer::create_offer(&m, CredentialOrIds::new(vec![]), &None, &None, &None).unwrap();
assert_eq!(o.credential_issuer, m.credential_issuer);'''),
dict(id='c19-inner-code', property='C19', needs='an error that wraps a validation error',
 breaks='the information of a wrapped error carries the code of another kind of error',
 edits=[('macros.rs', '''                $crate::error::ErrorInformation::new(
                    self.code(),
                    self.as_ref(),
                    self.to_string(),
                    serde_json::to_value(self).ok(),
                )''', '''                // An error that wraps another one has that one as its source
                let code = match std::error::Error::source(self) {
                    Some(_) => self.code() / 100 * 100,
                    None => self.code(),
                };
                $crate::error::ErrorInformation::new(
                    code,
                    self.as_ref(),
                    self.to_string(),
                    serde_json::to_value(self).ok(),
                )''')],
 demo='''use openid4vci::{credential_issuer::error::CredentialIssuerError as E, jwt::error::JwtError as J, validate::ValidationError as V};
let v = || V::Any { validation_message: "x".into() };
assert_eq!(E::ValidationError(v()).information().code, 100);
assert_eq!(E::JwtError(J::NoKeyFoundInProof).information().code, 101);
assert_eq!(E::JwtError(J::ValidationError(v())).information().code, 101);'''),
dict(id='c20-display-alias', property='C20', needs='a display property with both colors',
 breaks='the two colors of a display are written and read under each other\'s name',
 edits=[(MD, '    pub background_color: Option<String>,', '    #[serde(rename = "text_color")]\n    pub background_color: Option<String>,'),
        (MD, '    pub text_color: Option<String>,', '    #[serde(rename = "background_color")]\n    pub text_color: Option<String>,')],
 demo='''let d: DisplayProperties = serde_json::from_value(json!({"name": "n", "background_color": "#000", "text_color": "#fff"})).unwrap();
assert_eq!(d.background_color.as_deref(), Some("#000"));'''),
]
