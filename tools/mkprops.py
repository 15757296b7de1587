#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the file stays valid JSON lines)."""
import json, os
S = "crates/openid4vci/src/"
AT, CI, JW = S+"access_token/mod.rs", S+"credential_issuer/mod.rs", S+"jwt/mod.rs"
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why, anchors=dict(files=files,
            mechanism=[dict(name=a, where=b) for a, b in mech],
            **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}),
            **({"observe_at": list(observe)} if observe else {}), hook_needed=None)))

p("C01", "Token request accepted exactly for the offered code and the required PIN",
  "An access-token request is accepted exactly when it uses the pre-authorized-code grant, a credential offer containing that grant is supplied, the request's code equals the offer's code, a PIN is present if and only if the offer requires one, and a present PIN (of at most 8 digits) equals the PIN the issuer says it expects. Every other combination of request, offer and options yields an error, also when the offer additionally contains an authorization-code grant.",
  ["inputs", "configurations"], "all requests (grant kind, code string, optional 64-bit PIN) x all offers (absent; any combination of grants, any code, required/optional/unspecified PIN) x all options",
  "The tests sample ten request/offer/option combinations; codes and PINs are unbounded and the both-grants branch is exercised by two accepting cases only.",
  [AT], [("evaluate_access_token_request", AT), ("GrantType::validate", AT)], observe=["Ok/Err of the token-request evaluation"])
p("C02", "A PIN longer than 8 digits is always rejected, a shorter one never for length",
  "A token request carrying a user PIN of more than 8 decimal digits is rejected by validation and therefore never accepted, whatever the offer says. A PIN of at most 8 decimal digits is never rejected because of its length.",
  ["inputs"], "all 2^64 PIN values", "One test uses an 11-digit PIN; the boundary at 8/9 digits is not sampled.",
  [AT], [("GrantType::validate", AT), ("AccessTokenRequest::validate", AT)], observe=["validation result"])
p("C03", "Every token-request rejection names a cause that is true of the inputs",
  "When a token request is rejected, the reported reason is true of the inputs: a PIN mismatch is reported only for a supplied PIN different from the expected one, missing options only when a PIN came without an expected PIN, a missing offer only without an offer, an unsupported authorization-code flow only for that grant, and no supported flow only for an offer without grants. The two flags reported for invalid pre-authorized values are exactly whether the offer requires a PIN and whether the codes are equal, and at least one of them explains the rejection.",
  ["inputs", "configurations"], "all requests, offers and options", "Tests compare a handful of errors; truthfulness of the reason is a statement about every rejecting input.",
  [AT, S+"access_token/error.rs"], [("evaluate_access_token_request", AT)], observe=["error value returned"])
p("C04", "A credential request is accepted only with the expected, unexpired nonce",
  "A credential request is accepted only if the issuer supplied nonce options, the proof's nonce equals the expected nonce, and the nonce's creation time plus lifetime is not before the moment of evaluation. A nonce is never reported as expired while its lifetime still runs.",
  ["inputs", "histories"], "all proofs, all nonce strings, creation times and 32-bit lifetimes, all clock values at evaluation",
  "Tests use one matching, one mismatching and one long-expired nonce; the boundary, missing options and the clock are not sampled.",
  [CI, JW], [("evaluate_credential_request", CI), ("ProofJwt::check_nonce", JW)], observe=["Ok/Err of the credential-request evaluation"])
p("C05", "An accepted proof is addressed to this issuer and to the right client",
  "A credential request is accepted only if the proof's audience equals the issuer identifier of the metadata. If a client id is supplied, the proof's issuer claim equals it; if none is supplied, the proof's issuer claim must be absent whenever the offer contains an authorization-code grant or lacks a pre-authorized-code grant, and is not looked at when the offer contains only the pre-authorized-code grant.",
  ["inputs", "configurations"], "all proofs x client ids x grant combinations of the offer", "Tests cover one audience mismatch and two of the eight issuer/flow combinations.",
  [CI, JW], [("evaluate_credential_request", CI), ("ProofJwt::check_iss", JW), ("ProofJwt::check_aud", JW)], observe=["Ok/Err of the credential-request evaluation"])
p("C06", "Only openid4vci proof JWTs with an asymmetric algorithm are accepted",
  "A credential request is accepted, pre-evaluated or answered with a success response only if a contained proof has proof type JWT (in any letter case) and its header type is openid4vci-proof+jwt (in any letter case). A proof whose header algorithm is none or one of the HMAC algorithms is always rejected.",
  ["inputs"], "all proof types, header types and algorithms in all letter cases", "No test has a wrong proof type, a wrong header type or a forbidden algorithm at the request level.",
  [JW, S+"types/credential_request.rs", CI], [("CredentialRequestProof::validate", S+"types/credential_request.rs"), ("ProofJwtHeader::validate", JW)], observe=["validation result", "Ok/Err of evaluation"])
p("C07", "A proof outside its validity window is never accepted",
  "A proof whose not-before time is later than the moment of evaluation, or whose expiration time is not later than that moment, is never accepted in a credential request. Verifying a proof inside its window (or without such claims) never fails, and the reported boundary is the claim itself.",
  ["inputs", "histories"], "all not-before/expiration instants (present or absent) x all clock values", "Tests use dates 32 months away, on the standalone verification only; the boundary and its use during evaluation are not sampled.",
  [JW, CI], [("ProofJwt::verify", JW), ("evaluate_credential_request", CI)], observe=["verification result", "Ok/Err of the credential-request evaluation"])
p("C08", "The returned key, algorithm and subject are those the proof's key id names",
  "For an accepted credential request, the public key is the one held by the verification method that the proof's key id selects in the supplied DID document, the algorithm is the one in the proof's header, the subject is the DID part of that key id, and the credential is the requested one. A proof without key id, with a key id but no DID document, or with a raw key or certificate chain is never accepted.",
  ["inputs"], "all proofs, key ids and DID documents", "One accepting test with one document; nothing ties key, subject and document together for other inputs.",
  [JW, CI], [("ProofJwtHeader::extract_key_and_alg", JW), ("ProofJwt::extract_did", JW), ("evaluate_credential_request", CI)], observe=["proof-of-possession material and subject returned"])
p("C09", "The message and signature handed out are those of the presented proof",
  "For an accepted credential request, the message handed out for verification is exactly the signing input of the presented proof JWT (its first two segments as transmitted, joined by a dot) and the signature handed out is exactly its third segment. A proof JWT without a signature segment is rejected.",
  ["inputs"], "all proof JWT strings", "The single accepting test uses an unsigned proof and pins bytes that no wallet ever signed.",
  [JW, CI], [("ProofJwt::to_signable_message", JW), ("ProofJwt::extract_signature", JW)], observe=["message and signature bytes returned"])
p("C10", "A credential request that meets every condition is accepted, no other is",
  "Evaluating a credential request succeeds exactly when the issuer metadata is valid, an offer is supplied, no authorization-server metadata is supplied, a proof is present and well-formed, its type, algorithm, nonce, freshness, audience, issuer and validity-window conditions hold, and a supported key is found for its key id. The reported reason for a missing offer, unsupported authorization-server metadata, an expired nonce or a missing proof is true of the inputs.",
  ["inputs", "configurations"], "all combinations of metadata, request, offer, server metadata, DID document and options", "Eight tests sample single deviations from one accepting input.",
  [CI, JW], [("evaluate_credential_request", CI)], observe=["Ok/Err of the credential-request evaluation"])
p("C11", "Pre-evaluation asks for exactly the DID that evaluation later binds to",
  "Pre-evaluation returns the DID part of the proof's key id, nothing when there is no proof or no key header, and an error for a raw key or certificate chain. For every request that evaluation accepts, pre-evaluation succeeds and the DID it asks to resolve is the subject evaluation returns.",
  ["inputs"], "all credential requests", "One accepting and one rejecting sample; agreement between the two calls is untested.",
  [CI, JW], [("pre_evaluate_credential_request", CI), ("ProofJwt::extract_did", JW)], observe=["DID returned by pre-evaluation", "subject returned by evaluation"])
p("C12", "Parsing a proof JWT yields exactly what its segments encode",
  "A string parses as a proof JWT only if it has two or three dot-separated segments, the first two of which are base64url-encoded JSON of a header and a body; the parsed header and body are exactly those decoded values and the signature is exactly the third segment, or absent. Every other string is rejected with an error.",
  ["inputs"], "all strings", "Two well-formed samples are parsed; no malformed or three-segment string is.",
  [JW, S+"base.rs"], [("ProofJwt::from_str", JW), ("base64url::decode", S+"base.rs")], observe=["parse result"])
p("C13", "Issuer metadata is valid exactly when its credential ids are unique",
  "Issuer metadata validates exactly when no two supported credentials carry the same id, where entries without an id never collide. Offer creation and credential-request evaluation reject metadata that does not validate.",
  ["inputs"], "metadata with any number of supported credentials, in any order, with any ids", "No test has duplicate ids, and the list length is unbounded.",
  [S+"types/credential_issuer_metadata.rs", CI], [("CredentialIssuerMetadata::validate", S+"types/credential_issuer_metadata.rs")], observe=["validation result"])
p("C14", "A created offer contains exactly what was asked for, and only resolvable ids",
  "Offer creation succeeds exactly when the metadata is valid, no authorization-code grant is requested and every credential id names a supported credential of the metadata; resolving an id yields the format of the first supported credential with that id, and resolving a list keeps its order and length. The offer carries the metadata's issuer identifier, the given credentials in the given order, no authorization-code grant and exactly the given pre-authorized-code grant.",
  ["inputs"], "all metadata, credential lists of any length, grants and endpoints", "Three tests use lists of length one.",
  [CI], [("CredentialIssuer::create_offer", CI), ("CredentialOrId::resolve", CI), ("CredentialOrIds::resolve_all", CI), ("CredentialOffer::new", CI)], observe=["offer returned", "resolved formats"])
p("C15", "The offer link carries the offer, percent-encoded, at the requested endpoint",
  "The link returned with an offer is openid-credential-offer:// without an endpoint, or the endpoint followed by a question mark, then credential_offer= and the percent-encoded JSON of exactly the returned offer. Decoding the link's parameter as a wallet does therefore yields the returned offer.",
  ["inputs"], "all offers (any strings, any nesting) and all endpoints", "One link of one offer is compared with a literal.",
  [CI], [("CredentialOffer::url_encode", CI), ("CredentialIssuer::create_offer", CI)], observe=["link returned"])
p("C16", "A credential response carries the given credential, encoded for its format",
  "A credential success response names the requested format, carries the given acceptance token or the given credential and never both, and carries the nonce and its lifetime unchanged. A linked-data credential is carried as an object, the other formats as the base64url encoding of the credential's JSON, and in the JSON response the credential member is that object or string itself. The time returned with the response is the moment of its creation.",
  ["inputs"], "all requests, credentials of every format, tokens and nonces", "One sample of one format; the JSON form of the response is untested.",
  [CI, S+"types/credential.rs", S+"base.rs"], [("create_credential_success_response", CI), ("CredentialFormatProfileOrEncoded::try_from", S+"types/credential.rs"), ("get_format_name", S+"types/credential.rs")], observe=["response value and its JSON"])
p("C17", "Token and error responses carry exactly the values they were given",
  "A token success response and both kinds of error response carry every given value unchanged in the member of that name, and creating them never fails. A token success response validates exactly when it has no nonce lifetime without a nonce; the time returned with it is the moment of its creation.",
  ["inputs"], "all argument values", "One sample with distinct values per response kind; optional members absent are untested, validation is untested.",
  [AT, CI, S+"error_response.rs"], [("create_access_token_success_response", AT), ("create_access_token_error_response", AT), ("create_credential_error_response", CI), ("AccessTokenSuccessResponse::validate", AT)], observe=["response value"])
p("C18", "Protocol error codes and their strings are inverse, in conversions and JSON",
  "For both kinds of error response, every error code converts to its protocol string, that string converts back to the same code, no other string converts to any code, and the JSON of an error response carries that protocol string as its error member. The token type behaves likewise with the string Bearer.",
  ["inputs"], "all codes and all strings", "Tests compare most codes in one direction; rejection of other strings and the JSON form are untested.",
  [S+"access_token/error_response.rs", S+"credential_issuer/error_code.rs", S+"types/token_type.rs"], [("From/TryFrom for AccessTokenErrorCode", S+"access_token/error_response.rs"), ("From/TryFrom for CredentialIssuerErrorCode", S+"credential_issuer/error_code.rs"), ("TryFrom for AccessTokenType", S+"types/token_type.rs")], observe=["converted values", "serialized error member"])
p("C19", "Every error has its own stable numeric code and name",
  "Each kind of error reports its documented numeric code and its own name, and no two kinds of error of the library share a code. Turning a result into a return object yields exactly the value for success and exactly the error's information for failure, and adding a warning appends it without changing value or error.",
  ["inputs"], "all error values of the four error types; all results and warning lists", "Three of about forty error kinds are compared; the code is read through an unsafe cast that relies on the enum layout.",
  [S+"macros.rs", S+"error.rs", S+"return_object.rs", S+"validate.rs", S+"jwt/error.rs", S+"access_token/error.rs", S+"credential_issuer/error.rs"], [("error_impl!", S+"macros.rs"), ("ErrorInformation::new", S+"error.rs"), ("ReturnObject::add_warning", S+"return_object.rs")], observe=["error information", "return object"])
p("C20", "JSON documents use the member names of the OpenID4VCI draft",
  "Offers, grants, credentials, issuer metadata, credential requests, proofs and proof JWT claims are written to JSON under the member names and format identifiers of OpenID4VCI draft 11, optional members of offers and credentials being left out when absent. Reading such a document takes every member from that same name, in any order of the members and with or without absent optional ones, so a value written and read again is equal (an empty set of additional members being the same document as none).",
  ["inputs"], "all values of the document types", "Three credentials are read from JSON and one offer is written; most members are untested.",
  [CI, JW, S+"types/credential.rs", S+"types/credential_issuer_metadata.rs", S+"types/credential_request.rs"], [("Serialize/Deserialize implementations", S)], observe=["JSON text"])
p("C21", "No input makes a public operation panic",
  "No request, offer, metadata, DID document, proof, option or clock value makes any public operation of the library panic, overflow or index out of bounds. Every failure is reported as an error value.",
  ["inputs"], "all inputs of all public operations", "A panic needs the one unlucky input; tests exercise about fifty.",
  [CI, JW, AT, S+"types/credential_issuer_metadata.rs"], [("evaluate_credential_request", CI), ("ProofJwtHeader::extract_key_and_alg", JW), ("ProofJwt::to_signable_message", JW)], observe=["absence of panics"])
p("C22", "Only EdDSA-type public keys are extracted, every other key is refused",
  "Key extraction returns the key's x coordinate for an octet key pair and for an elliptic-curve key whose algorithm is EdDSA, and returns the header's algorithm with it. Symmetric, RSA and all other elliptic-curve keys, an EdDSA key without x coordinate, unparsable raw keys and certificate chains are refused with an error.",
  ["inputs"], "all JSON web keys, raw or in a DID document", "Seven sample keys.",
  [JW], [("jwk_to_public_key_bytes", JW), ("extract_key_and_alg", JW)], observe=["extraction result"])
p("C23", "Requests, options, results and errors carry their values in JSON",
  "Token requests, evaluation options, nonces, evaluation results, return objects, error information and error values are written to JSON with every value as the member of its documented name, the grant type of a token request being its OAuth identifier, and absent members of results and error information left out. A token request, evaluation options or a nonce read from such JSON, in any order of the members and with or without absent ones, is equal to the one written.",
  ["inputs"], "all values of these types", "No test writes or reads options, nonces, evaluation results or return objects as JSON; one grant and five error values are.",
  [AT, CI, JW, S+"error.rs", S+"return_object.rs", S+"access_token/error.rs", S+"credential_issuer/error.rs", S+"jwt/error.rs"], [("Serialize/Deserialize implementations", S), ("Display for ErrorInformation", S+"error.rs")], observe=["JSON text"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
open(out, "w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
