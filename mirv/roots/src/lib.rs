//! Entry points that name concrete instances of the crate's generic public functions, and
//! executable reference bodies for a few std functions whose real bodies work on raw memory.
//! Nothing of openid4vci is re-implemented here.
#![feature(try_trait_v2, formatting_options)]
#![allow(clippy::all, dead_code)]
use openid4vci::access_token::error_response::AccessTokenErrorCode;
use openid4vci::credential_issuer::error_code::CredentialIssuerErrorCode;
use openid4vci::access_token::*;
use openid4vci::credential_issuer::*;
use openid4vci::credential_issuer::error::CredentialIssuerResult;
use openid4vci::error::ErrorInformation;
use openid4vci::return_object::{ReturnObject, ToReturnObject};
use openid4vci::types::credential::*;
use openid4vci::types::credential_issuer_metadata::*;
use openid4vci::types::credential_request::*;
use openid4vci::types::token_type::AccessTokenType;
use openid4vci::jwt::*;
use openid4vci::validate::ValidationError;

// ---- generic functions of the crate, at concrete types --------------------------------------
pub fn create_offer(
    m: &CredentialIssuerMetadata,
    c: CredentialOrIds,
    e: &Option<String>,
    a: &Option<AuthorizedCodeFlow>,
    p: &Option<PreAuthorizedCodeFlow>,
) -> CredentialIssuerResult<(CredentialOffer, String)> {
    CredentialIssuer::create_offer(m, c, e, a, p)
}
pub fn ids_from_vec(v: Vec<CredentialOrId>) -> CredentialOrIds { CredentialOrIds::from(v) }
pub fn ids_from_strings(v: Vec<String>) -> CredentialOrIds { CredentialOrIds::from(v) }
pub fn ids_from_profiles(v: Vec<CredentialFormatProfile>) -> CredentialOrIds { CredentialOrIds::from(v) }
pub fn ids_from_refs(v: &[&CredentialOrId]) -> CredentialOrIds { CredentialOrIds::from(v) }
pub fn add_warning(
    r: ReturnObject<u64, ErrorInformation, String>,
    w: String,
) -> ReturnObject<u64, ErrorInformation, String> {
    r.add_warning(w)
}
pub fn ro_validation(r: &Result<u64, ValidationError>) -> ReturnObject<u64, ErrorInformation, String> { r.to_return_object() }
pub fn ro_token(r: &Result<u64, openid4vci::access_token::error::AccessTokenError>) -> ReturnObject<u64, ErrorInformation, String> { r.to_return_object() }
pub fn ro_issuer(r: &Result<u64, openid4vci::credential_issuer::error::CredentialIssuerError>) -> ReturnObject<u64, ErrorInformation, String> { r.to_return_object() }
pub fn ro_jwt(r: &Result<u64, openid4vci::jwt::error::JwtError>) -> ReturnObject<u64, ErrorInformation, String> { r.to_return_object() }

/// names the types that specifications mention
pub fn spec_types(
    _: &ssi_dids::DIDURL, _: &ssi_dids::Document, _: &ssi_dids::Resource, _: &ssi_dids::VerificationMethodMap,
    _: &ssi_jwk::JWK, _: &ssi_jwk::Algorithm, _: &ProofJwt, _: &ProofJwtHeader, _: &ProofJwtBody, _: &Vec<u8>,
    _: &base64::DecodeError, _: &Option<ssi_jwk::Algorithm>, _: &CredentialFormatProfile, _: &serde_json::Value,
) {
}

// ---- JSON: one entry per wire type -----------------------------------------------------------
macro_rules! ser { ($($f:ident $t:ty),* $(,)?) => { $(pub fn $f(x: &$t) -> Result<String, serde_json::Error> { serde_json::to_string(x) })* } }
ser! {
    ser_offer CredentialOffer, ser_grants CredentialOfferGrants, ser_preauth PreAuthorizedCodeFlow,
    ser_auth AuthorizedCodeFlow, ser_cred_or_id CredentialOrId, ser_format CredentialFormatProfile,
    ser_subject CredentialSubject, ser_subject_display CredentialSubjectDisplay,
    ser_encoded CredentialFormatProfileOrEncoded, ser_metadata CredentialIssuerMetadata,
    ser_supported CredentialSupported, ser_display DisplayProperties, ser_logo DisplayLogo,
    ser_request CredentialRequest, ser_proof CredentialRequestProof, ser_header ProofJwtHeader,
    ser_body ProofJwtBody, ser_alg ProofJwtAlgorithm, ser_addl ProofJwtAdditionalHeader,
    ser_token_response AccessTokenSuccessResponse, ser_token_type AccessTokenType,
    ser_token_request AccessTokenRequest, ser_token_code AccessTokenErrorCode,
    ser_issuer_code CredentialIssuerErrorCode, ser_cred_response CredentialSuccessResponse,
    ser_token_error AccessTokenErrorResponse, ser_issuer_error CredentialIssuerErrorResponse,
    ser_ctx LinkedDataContext,
}
macro_rules! de { ($($f:ident $t:ty),* $(,)?) => { $(pub fn $f(x: &str) -> Result<$t, serde_json::Error> { serde_json::from_str(x) })* } }
de! {
    de_offer CredentialOffer, de_grants CredentialOfferGrants, de_preauth PreAuthorizedCodeFlow,
    de_auth AuthorizedCodeFlow, de_cred_or_id CredentialOrId, de_format CredentialFormatProfile,
    de_subject CredentialSubject, de_subject_display CredentialSubjectDisplay,
    de_encoded CredentialFormatProfileOrEncoded, de_metadata CredentialIssuerMetadata,
    de_supported CredentialSupported, de_display DisplayProperties, de_logo DisplayLogo,
    de_request CredentialRequest, de_proof CredentialRequestProof, de_header ProofJwtHeader,
    de_body ProofJwtBody, de_alg ProofJwtAlgorithm, de_addl ProofJwtAdditionalHeader,
    de_token_response AccessTokenSuccessResponse, de_token_type AccessTokenType,
    de_token_request AccessTokenRequest, de_token_code AccessTokenErrorCode,
    de_issuer_code CredentialIssuerErrorCode, de_cred_response CredentialSuccessResponse,
}

// ---- ghost JSON documents: `GDoc` is a JSON value; the functions marked "ghost" have no body, the
// verifier gives them their meaning; the serializer itself is ordinary code over them ------------
pub mod ghost {
    use serde::ser::*;
    use std::fmt::{Debug, Display};
    pub struct GDoc(u8);
    pub struct GRaw(u8);
    pub struct GObj { o: GRaw, key: Option<GDoc> }
    pub struct GSer;
    #[derive(Debug)]
    pub struct GErr;
    pub fn outside<T>() -> T { loop {} }                        // ghost: not covered
    pub fn null() -> GDoc { loop {} }                           // ghost
    pub fn boolean(_: bool) -> GDoc { loop {} }                 // ghost
    pub fn int(_: i128) -> GDoc { loop {} }                     // ghost
    pub fn string(_: &str) -> GDoc { loop {} }                  // ghost
    pub fn raw() -> GRaw { loop {} }                            // ghost: no members
    pub fn put(_: &mut GRaw, _: &str, _: GDoc) { loop {} }      // ghost
    pub fn put_doc(_: &mut GRaw, _: GDoc, _: GDoc) { loop {} }  // ghost: the name is a string document
    pub fn object(_: GRaw) -> GDoc { loop {} }                  // ghost
    fn empty() -> GObj { GObj { o: raw(), key: None } }
    impl Display for GErr { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
    impl std::error::Error for GErr {}
    impl serde::ser::Error for GErr { fn custom<T: Display>(_: T) -> Self { GErr } }
    type R = Result<GDoc, GErr>;
    macro_rules! ints { ($($f:ident $t:ty),*) => { $(fn $f(self, x: $t) -> R { Ok(int(x as i128)) })* } }
    impl Serializer for GSer {
        type Ok = GDoc;
        type Error = GErr;
        type SerializeSeq = Impossible<GDoc, GErr>;
        type SerializeTuple = Impossible<GDoc, GErr>;
        type SerializeTupleStruct = Impossible<GDoc, GErr>;
        type SerializeTupleVariant = Impossible<GDoc, GErr>;
        type SerializeMap = GObj;
        type SerializeStruct = GObj;
        type SerializeStructVariant = Impossible<GDoc, GErr>;
        ints! { serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16,
                serialize_u32 u32, serialize_u64 u64 }
        fn serialize_bool(self, x: bool) -> R { Ok(boolean(x)) }
        fn serialize_f32(self, _: f32) -> R { outside() }
        fn serialize_f64(self, _: f64) -> R { outside() }
        fn serialize_char(self, _: char) -> R { outside() }
        fn serialize_str(self, x: &str) -> R { Ok(string(x)) }
        fn serialize_bytes(self, _: &[u8]) -> R { outside() }
        fn serialize_none(self) -> R { Ok(null()) }
        fn serialize_some<T: ?Sized + Serialize>(self, x: &T) -> R { x.serialize(self) }
        fn serialize_unit(self) -> R { Ok(null()) }
        fn serialize_unit_struct(self, _: &'static str) -> R { Ok(null()) }
        fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> R { Ok(string(v)) }
        fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, x: &T) -> R { x.serialize(self) }
        fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, v: &'static str, x: &T) -> R {
            let mut o = empty();
            put(&mut o.o, v, x.serialize(self)?);
            Ok(object(o.o))
        }
        fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, GErr> { outside() }
        fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, GErr> { outside() }
        fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, GErr> { outside() }
        fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, GErr> { outside() }
        fn serialize_map(self, _: Option<usize>) -> Result<GObj, GErr> { Ok(empty()) }
        fn serialize_struct(self, _: &'static str, _: usize) -> Result<GObj, GErr> { Ok(empty()) }
        fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, GErr> { outside() }
        fn collect_str<T: ?Sized + Display>(self, x: &T) -> R { Ok(string(&x.to_string())) }
    }
    impl SerializeStruct for GObj {
        type Ok = GDoc;
        type Error = GErr;
        fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, x: &T) -> Result<(), GErr> {
            let d = x.serialize(GSer)?;
            put(&mut self.o, k, d);
            Ok(())
        }
        fn skip_field(&mut self, _: &'static str) -> Result<(), GErr> { Ok(()) }
        fn end(self) -> R { Ok(object(self.o)) }
    }
    impl SerializeMap for GObj {
        type Ok = GDoc;
        type Error = GErr;
        fn serialize_key<T: ?Sized + Serialize>(&mut self, k: &T) -> Result<(), GErr> {
            self.key = Some(k.serialize(GSer)?);
            Ok(())
        }
        fn serialize_value<T: ?Sized + Serialize>(&mut self, x: &T) -> Result<(), GErr> {
            let d = x.serialize(GSer)?;
            match self.key.take() {
                Some(k) => put_doc(&mut self.o, k, d),
                None => return outside(),
            }
            Ok(())
        }
        fn serialize_entry<K: ?Sized + Serialize, V: ?Sized + Serialize>(&mut self, k: &K, x: &V) -> Result<(), GErr> {
            let k = k.serialize(GSer)?;
            let d = x.serialize(GSer)?;
            put_doc(&mut self.o, k, d);
            Ok(())
        }
        fn end(self) -> R { Ok(object(self.o)) }
    }
}
// ---- JSON: reading a written document back ---------------------------------------------------
pub mod ghostde {
    use crate::ghost::*;
    use serde::de::*;
    pub struct GDe(pub GDoc);
    pub struct GMap { rest: GDoc, value: Option<GDoc> }
    pub struct GEnum { tag: GDoc, value: Option<GDoc> }
    pub struct GVariant { value: Option<GDoc> }
    pub enum Kind { Null, Bool, Unsigned, Signed, Text, Object, List, Other }
    pub struct GList;
    pub fn kind(_: &GDoc) -> Kind { loop {} }                         // ghost
    pub fn as_bool(_: &GDoc) -> bool { loop {} }                      // ghost
    pub fn as_u64(_: &GDoc) -> u64 { loop {} }                        // ghost
    pub fn as_i64(_: &GDoc) -> i64 { loop {} }                        // ghost
    pub fn as_text(_: GDoc) -> String { loop {} }                     // ghost
    pub fn next(_: &mut GDoc) -> Option<(GDoc, GDoc)> { loop {} }     // ghost: takes the first member out of an object
    pub fn lean(_: GDoc) -> GDoc { loop {} }                          // ghost: an object with its members in reverse order, those that are null left out
    impl serde::de::Error for GErr {
        fn custom<T: std::fmt::Display>(_: T) -> Self { GErr }
        fn invalid_type(_: Unexpected<'_>, _: &dyn Expected) -> Self { GErr }
        fn invalid_value(_: Unexpected<'_>, _: &dyn Expected) -> Self { GErr }
        fn invalid_length(_: usize, _: &dyn Expected) -> Self { GErr }
        fn unknown_variant(_: &str, _: &'static [&'static str]) -> Self { GErr }
        fn unknown_field(_: &str, _: &'static [&'static str]) -> Self { GErr }
        fn missing_field(_: &'static str) -> Self { GErr }
        fn duplicate_field(_: &'static str) -> Self { GErr }
    }
    macro_rules! any { ($($f:ident)*) => { $(fn $f<V: Visitor<'de>>(self, v: V) -> Result<V::Value, GErr> { self.deserialize_any(v) })* } }
    impl<'de> Deserializer<'de> for GDe {
        type Error = GErr;
        fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, GErr> {
            match kind(&self.0) {
                Kind::Null => v.visit_unit(),
                Kind::Bool => v.visit_bool(as_bool(&self.0)),
                Kind::Unsigned => v.visit_u64(as_u64(&self.0)),
                Kind::Signed => v.visit_i64(as_i64(&self.0)),
                Kind::Text => v.visit_string(as_text(self.0)),
                Kind::Object => v.visit_map(GMap { rest: self.0, value: None }),
                Kind::List => v.visit_seq(GList),
                Kind::Other => outside(),
            }
        }
        any! { deserialize_bool deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64 deserialize_u8 deserialize_u16 deserialize_u32
               deserialize_u64 deserialize_f32 deserialize_f64 deserialize_char deserialize_str deserialize_string deserialize_bytes
               deserialize_byte_buf deserialize_unit deserialize_seq deserialize_map deserialize_identifier }
        fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, GErr> {
            match kind(&self.0) {
                Kind::Null => v.visit_none(),
                _ => v.visit_some(self),
            }
        }
        fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, GErr> { self.deserialize_any(v) }
        fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, GErr> { v.visit_newtype_struct(self) }
        fn deserialize_tuple<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, GErr> { self.deserialize_any(v) }
        fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, _: usize, v: V) -> Result<V::Value, GErr> { self.deserialize_any(v) }
        fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, GErr> { self.deserialize_any(v) }
        fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, GErr> {
            match kind(&self.0) {
                Kind::Text => v.visit_enum(GEnum { tag: self.0, value: None }),
                Kind::Object => {
                    let mut d = self.0;
                    match next(&mut d) {
                        Some((k, x)) => match next(&mut d) {
                            None => v.visit_enum(GEnum { tag: k, value: Some(x) }),
                            Some(_) => Err(GErr),
                        },
                        None => Err(GErr),
                    }
                }
                Kind::Other => outside(),
                _ => Err(GErr),
            }
        }
        fn deserialize_ignored_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, GErr> { v.visit_unit() }
    }
    impl<'de> SeqAccess<'de> for GList {
        type Error = GErr;
        fn next_element_seed<S: DeserializeSeed<'de>>(&mut self, _: S) -> Result<Option<S::Value>, GErr> { outside() }
    }
    impl<'de> MapAccess<'de> for GMap {
        type Error = GErr;
        fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, GErr> {
            match next(&mut self.rest) {
                Some((k, x)) => {
                    self.value = Some(x);
                    match seed.deserialize(GDe(k)) { Ok(y) => Ok(Some(y)), Err(e) => Err(e) }
                }
                None => Ok(None),
            }
        }
        fn next_value_seed<S: DeserializeSeed<'de>>(&mut self, seed: S) -> Result<S::Value, GErr> {
            match self.value.take() {
                Some(x) => seed.deserialize(GDe(x)),
                None => outside(),
            }
        }
    }
    impl<'de> EnumAccess<'de> for GEnum {
        type Error = GErr;
        type Variant = GVariant;
        fn variant_seed<S: DeserializeSeed<'de>>(self, seed: S) -> Result<(S::Value, GVariant), GErr> {
            match seed.deserialize(GDe(self.tag)) { Ok(y) => Ok((y, GVariant { value: self.value })), Err(e) => Err(e) }
        }
    }
    impl<'de> VariantAccess<'de> for GVariant {
        type Error = GErr;
        fn unit_variant(self) -> Result<(), GErr> {
            match self.value { None => Ok(()), Some(x) => match kind(&x) { Kind::Null => Ok(()), _ => Err(GErr) } }
        }
        fn newtype_variant_seed<S: DeserializeSeed<'de>>(self, seed: S) -> Result<S::Value, GErr> {
            match self.value { Some(x) => seed.deserialize(GDe(x)), None => Err(GErr) }
        }
        fn tuple_variant<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, GErr> {
            match self.value { Some(x) => GDe(x).deserialize_any(v), None => Err(GErr) }
        }
        fn struct_variant<V: Visitor<'de>>(self, _: &'static [&'static str], v: V) -> Result<V::Value, GErr> {
            match self.value { Some(x) => GDe(x).deserialize_any(v), None => Err(GErr) }
        }
    }
    pub fn ref_de_any<V: Visitor<'static>>(d: GDe, v: V) -> Result<V::Value, GErr> { d.deserialize_any(v) }
    pub fn ref_de_option<V: Visitor<'static>>(d: GDe, v: V) -> Result<V::Value, GErr> { d.deserialize_option(v) }
    pub fn ref_de_enum<V: Visitor<'static>>(d: GDe, n: &'static str, s: &'static [&'static str], v: V) -> Result<V::Value, GErr> { d.deserialize_enum(n, s, v) }
    pub fn ref_de_newtype<V: Visitor<'static>>(d: GDe, v: V) -> Result<V::Value, GErr> { v.visit_newtype_struct(d) }
    pub fn ref_de_ignored<V: Visitor<'static>>(_: GDe, v: V) -> Result<V::Value, GErr> { v.visit_unit() }
}
macro_rules! back { ($($f:ident $t:ty),* $(,)?) => { $(pub fn $f(x: &$t) -> Result<$t, ghost::GErr> {
    match serde::Serialize::serialize(x, ghost::GSer) { Ok(d) => serde::Deserialize::deserialize(ghostde::GDe(d)), Err(e) => Err(e) } })* } }
macro_rules! lean { ($($f:ident $t:ty),* $(,)?) => { $(pub fn $f(x: &$t) -> Result<$t, ghost::GErr> {
    match serde::Serialize::serialize(x, ghost::GSer) { Ok(d) => serde::Deserialize::deserialize(ghostde::GDe(ghostde::lean(d))), Err(e) => Err(e) } })* } }
lean! {
    lean_offer CredentialOffer, lean_grants CredentialOfferGrants, lean_preauth PreAuthorizedCodeFlow,
    lean_format CredentialFormatProfile, lean_subject CredentialSubject, lean_subject_display CredentialSubjectDisplay,
    lean_metadata CredentialIssuerMetadata, lean_supported CredentialSupported, lean_display DisplayProperties, lean_logo DisplayLogo,
    lean_request CredentialRequest, lean_proof CredentialRequestProof, lean_header ProofJwtHeader, lean_body ProofJwtBody,
    lean_token_response AccessTokenSuccessResponse, lean_cred_response CredentialSuccessResponse,
    lean_token_request AccessTokenRequest, lean_token_options EvaluateAccessTokenRequestOptions,
    lean_request_options EvaluateCredentialRequestOptions, lean_nonce_options CNonceOptions, lean_nonce CNonce,
}
back! {
    back_offer CredentialOffer, back_ids CredentialOrIds, back_grants CredentialOfferGrants, back_preauth PreAuthorizedCodeFlow,
    back_auth AuthorizedCodeFlow, back_cred_or_id CredentialOrId, back_format CredentialFormatProfile,
    back_subject CredentialSubject, back_subject_display CredentialSubjectDisplay,
    back_encoded CredentialFormatProfileOrEncoded, back_metadata CredentialIssuerMetadata,
    back_supported CredentialSupported, back_display DisplayProperties, back_logo DisplayLogo,
    back_request CredentialRequest, back_proof CredentialRequestProof, back_header ProofJwtHeader,
    back_body ProofJwtBody, back_alg ProofJwtAlgorithm, back_addl ProofJwtAdditionalHeader,
    back_token_response AccessTokenSuccessResponse, back_token_type AccessTokenType, back_ctx LinkedDataContext,
    back_token_code AccessTokenErrorCode, back_issuer_code CredentialIssuerErrorCode, back_cred_response CredentialSuccessResponse,
    back_token_request AccessTokenRequest, back_grant_type GrantType, back_token_options EvaluateAccessTokenRequestOptions,
    back_request_options EvaluateCredentialRequestOptions, back_nonce_options CNonceOptions, back_nonce CNonce,
}
macro_rules! gser { ($($f:ident $t:ty),* $(,)?) => { $(pub fn $f(x: &$t) -> Result<ghost::GDoc, ghost::GErr> { serde::Serialize::serialize(x, ghost::GSer) })* } }
gser! {
    write_offer CredentialOffer, write_ids CredentialOrIds, write_grants CredentialOfferGrants, write_preauth PreAuthorizedCodeFlow,
    write_auth AuthorizedCodeFlow, write_cred_or_id CredentialOrId, write_format CredentialFormatProfile,
    write_subject CredentialSubject, write_subject_display CredentialSubjectDisplay,
    write_encoded CredentialFormatProfileOrEncoded, write_metadata CredentialIssuerMetadata,
    write_supported CredentialSupported, write_display DisplayProperties, write_logo DisplayLogo,
    write_request CredentialRequest, write_proof CredentialRequestProof, write_header ProofJwtHeader,
    write_body ProofJwtBody, write_alg ProofJwtAlgorithm, write_addl ProofJwtAdditionalHeader,
    write_token_response AccessTokenSuccessResponse, write_token_type AccessTokenType, write_ctx LinkedDataContext,
    write_token_code AccessTokenErrorCode, write_issuer_code CredentialIssuerErrorCode, write_cred_response CredentialSuccessResponse,
    write_token_error AccessTokenErrorResponse, write_issuer_error CredentialIssuerErrorResponse,
    write_token_request AccessTokenRequest, write_grant_type GrantType, write_token_options EvaluateAccessTokenRequestOptions,
    write_request_options EvaluateCredentialRequestOptions, write_nonce_options CNonceOptions, write_nonce CNonce,
    write_pre_evaluation PreEvaluateCredentialRequestResponse, write_evaluation CredentialIssuerEvaluateRequestResponse,
    write_possession ProofOfPossession, write_information ErrorInformation,
    write_return_object ReturnObject<String, ErrorInformation, ErrorInformation>,
    write_e_token openid4vci::access_token::error::AccessTokenError, write_e_issuer openid4vci::credential_issuer::error::CredentialIssuerError, write_e_jwt openid4vci::jwt::error::JwtError, write_e_validation openid4vci::validate::ValidationError,
}

pub fn show_information(x: &ErrorInformation) -> (String, bool) {
    let mut s = String::new();
    let ok = std::fmt::Display::fmt(x, &mut std::fmt::Formatter::new(&mut s, std::fmt::FormattingOptions::new())).is_ok();
    (s, ok)
}

// ---- reference bodies for std functions ------------------------------------------------------
pub fn ref_vec_from_iter<T, I: Iterator<Item = T>>(it: I) -> Vec<T> {
    it.fold(Vec::new(), |mut v, x| { v.push(x); v })
}
pub fn ref_vec_extend<T, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) {
    it.into_iter().for_each(|x| v.push(x));
}
pub fn ref_result_from_iter<T, E, I: IntoIterator<Item = Result<T, E>>>(it: I) -> Result<Vec<T>, E> {
    let mut it = it.into_iter();
    let mut v = Vec::new();
    while let Some(x) = it.next() {
        match x {
            Ok(y) => v.push(y),
            Err(e) => return Err(e),
        }
    }
    Ok(v)
}
pub fn ref_option_from_iter<T, I: IntoIterator<Item = Option<T>>>(it: I) -> Option<Vec<T>> {
    let mut it = it.into_iter();
    let mut v = Vec::new();
    while let Some(x) = it.next() {
        match x {
            Some(y) => v.push(y),
            None => return None,
        }
    }
    Some(v)
}
pub fn ref_set_from_iter<T: Eq + std::hash::Hash, I: IntoIterator<Item = T>>(it: I) -> std::collections::HashSet<T> {
    it.into_iter().fold(std::collections::HashSet::new(), |mut v, x| { v.insert(x); v })
}
pub fn ref_fold<B, F: FnMut(B, I::Item) -> B, I: Iterator>(it: I, init: B, f: F) -> B {
    let mut it = it;
    let mut f = f;
    let mut acc = init;
    while let Some(x) = it.next() {
        acc = f(acc, x);
    }
    acc
}
pub fn ref_b64_engine() -> &'static base64::engine::GeneralPurpose { &base64::engine::general_purpose::URL_SAFE_NO_PAD }
pub fn ref_find<I: Iterator, P: FnMut(&I::Item) -> bool>(it: &mut I, p: P) -> Option<I::Item> {
    let mut p = p;
    while let Some(x) = it.next() {
        if p(&x) {
            return Some(x);
        }
    }
    None
}
pub fn ref_any<I: Iterator, P: FnMut(I::Item) -> bool>(it: &mut I, p: P) -> bool {
    let mut p = p;
    while let Some(x) = it.next() {
        if p(x) {
            return true;
        }
    }
    false
}
pub fn ref_all<I: Iterator, P: FnMut(I::Item) -> bool>(it: &mut I, p: P) -> bool {
    let mut p = p;
    while let Some(x) = it.next() {
        if !p(x) {
            return false;
        }
    }
    true
}
pub fn ref_find_map<I: Iterator, B, P: FnMut(I::Item) -> Option<B>>(it: &mut I, p: P) -> Option<B> {
    let mut p = p;
    while let Some(x) = it.next() {
        if let Some(y) = p(x) {
            return Some(y);
        }
    }
    None
}
pub fn ref_nth<I: Iterator>(it: &mut I, n: usize) -> Option<I::Item> {
    let mut n = n;
    while let Some(x) = it.next() {
        if n == 0 {
            return Some(x);
        }
        n -= 1;
    }
    None
}
pub fn ref_last<I: Iterator>(it: I) -> Option<I::Item> {
    let mut it = it;
    let mut r = None;
    while let Some(x) = it.next() {
        r = Some(x);
    }
    r
}
pub fn ref_position<I: Iterator, P: FnMut(I::Item) -> bool>(it: &mut I, p: P) -> Option<usize> {
    let mut p = p;
    let mut n = 0usize;
    while let Some(x) = it.next() {
        if p(x) {
            return Some(n);
        }
        n += 1;
    }
    None
}
pub fn ref_rposition<I: DoubleEndedIterator + ExactSizeIterator, P: FnMut(I::Item) -> bool>(it: &mut I, p: P) -> Option<usize> {
    let mut p = p;
    let mut n = it.len();
    while let Some(x) = it.next_back() {
        n -= 1;
        if p(x) {
            return Some(n);
        }
    }
    None
}
pub fn ref_retain<T, F: FnMut(&T) -> bool>(v: &mut Vec<T>, f: F) {
    let mut f = f;
    for x in std::mem::take(v) {
        if f(&x) {
            v.push(x);
        }
    }
}
pub fn ref_for_each<I: Iterator, F: FnMut(I::Item)>(it: I, f: F) {
    let mut it = it;
    let mut f = f;
    while let Some(x) = it.next() {
        f(x);
    }
}
pub fn ref_try_fold<I: Iterator, B, F: FnMut(B, I::Item) -> R, R: std::ops::Try<Output = B>>(it: &mut I, init: B, f: F) -> R {
    let mut f = f;
    let mut acc = init;
    while let Some(x) = it.next() {
        acc = f(acc, x)?;
    }
    R::from_output(acc)
}
pub fn read_token_code(x: &str) -> Result<AccessTokenErrorCode, ghost::GErr> { serde::Deserialize::deserialize(ghostde::GDe(ghost::string(x))) }
pub fn read_issuer_code(x: &str) -> Result<CredentialIssuerErrorCode, ghost::GErr> { serde::Deserialize::deserialize(ghostde::GDe(ghost::string(x))) }
pub fn read_token_type(x: &str) -> Result<AccessTokenType, ghost::GErr> { serde::Deserialize::deserialize(ghostde::GDe(ghost::string(x))) }
