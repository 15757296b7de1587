From 2ecb167d38a0659c17b8bb29af307001272d16a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:46 +0000
Subject: [PATCH 01/14] fix: reject user pins of nine digits

---
 crates/openid4vci/src/access_token/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/openid4vci/src/access_token/mod.rs b/crates/openid4vci/src/access_token/mod.rs
index 794220a..27504c4 100644
--- a/crates/openid4vci/src/access_token/mod.rs
+++ b/crates/openid4vci/src/access_token/mod.rs
@@ -106,7 +106,8 @@ impl Validatable for GrantType {
                 if let Some(user_pin) = user_pin {
                     let max = 8;
                     let length = user_pin.checked_ilog10().unwrap_or_default();
-                    if length > max {
+                    // `length` is the base 10 logarithm, so one less than the number of digits
+                    if length >= max {
                         return Err(ValidationError::Any {
                             validation_message: format!(
                                 "user pin exeeded length. Maximum is {max}, supplied is {length}"
-- 
2.43.0


From ee98157236997dfa73b2fdf1c033d026363f9819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:47 +0000
Subject: [PATCH 02/14] fix: enforce the validity window of the proof when
 evaluating a credential request

---
 crates/openid4vci/src/credential_issuer/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/openid4vci/src/credential_issuer/mod.rs b/crates/openid4vci/src/credential_issuer/mod.rs
index 3ff7744..eed6d0b 100644
--- a/crates/openid4vci/src/credential_issuer/mod.rs
+++ b/crates/openid4vci/src/credential_issuer/mod.rs
@@ -535,6 +535,7 @@ impl CredentialIssuer {
         if let Some(CredentialRequestProof { jwt, .. }) = &credential_request.proof {
             let jwt = ProofJwt::from_str(jwt)?;
             jwt.validate()?;
+            jwt.verify()?;
 
             let expected_c_nonce = evaluate_credential_request_options
                 .clone()
-- 
2.43.0


From e71fbe65e8b6677db58d2a1c609fef18b94453ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:49 +0000
Subject: [PATCH 03/14] fix: a proof is no longer valid at its expiration time

---
 crates/openid4vci/src/jwt/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/openid4vci/src/jwt/mod.rs b/crates/openid4vci/src/jwt/mod.rs
index b1fa7be..74dbd2e 100644
--- a/crates/openid4vci/src/jwt/mod.rs
+++ b/crates/openid4vci/src/jwt/mod.rs
@@ -142,7 +142,7 @@ impl ProofJwt {
     /// # Errors
     ///
     /// - When the [`ProofJwtBody::not_before`] is greater than [`chrono::Utc::now`]
-    /// - When the [`ProofJwtBody::expires_at`] is smaller than [`chrono::Utc::now`]
+    /// - When the [`ProofJwtBody::expires_at`] is smaller than, or equal to, [`chrono::Utc::now`]
     pub fn verify(&self) -> JwtResult<()> {
         let now = Utc::now();
 
@@ -156,7 +156,7 @@ impl ProofJwt {
         }
 
         if let Some(expires_at) = self.body.expires_at {
-            if now > expires_at {
+            if now >= expires_at {
                 return Err(JwtError::NotValidAnymore {
                     valid_until: expires_at,
                     now,
-- 
2.43.0


From b495234dad28e03b087f69add260c2f5a4f27c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:50 +0000
Subject: [PATCH 04/14] fix: reject proofs whose algorithm is none or symmetric

---
 crates/openid4vci/src/jwt/mod.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/openid4vci/src/jwt/mod.rs b/crates/openid4vci/src/jwt/mod.rs
index 74dbd2e..98052b8 100644
--- a/crates/openid4vci/src/jwt/mod.rs
+++ b/crates/openid4vci/src/jwt/mod.rs
@@ -556,7 +556,17 @@ impl Validatable for ProofJwtHeader {
             });
         }
 
-        Ok(())
+        // The `alg` MUST NOT be none or an identifier for a symmetric algorithm (MAC)
+        match self.alg {
+            ProofJwtAlgorithm::None
+            | ProofJwtAlgorithm::HS256
+            | ProofJwtAlgorithm::HS384
+            | ProofJwtAlgorithm::HS512 => Err(ValidationError::Any {
+                validation_message:
+                    "jwt header `alg` MUST NOT be `none` or a symmetric algorithm".to_owned(),
+            }),
+            _ => Ok(()),
+        }
     }
 }
 
-- 
2.43.0


From b7b557c4c74201d1d2a0e5c531b7468d99a79571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:52 +0000
Subject: [PATCH 05/14] fix: validate the proof type when evaluating a
 credential request

---
 crates/openid4vci/src/credential_issuer/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/openid4vci/src/credential_issuer/mod.rs b/crates/openid4vci/src/credential_issuer/mod.rs
index eed6d0b..ba36db6 100644
--- a/crates/openid4vci/src/credential_issuer/mod.rs
+++ b/crates/openid4vci/src/credential_issuer/mod.rs
@@ -516,6 +516,8 @@ impl CredentialIssuer {
             return Err(CredentialIssuerError::AuthorizationServerMetadataNotSupported);
         };
 
+        credential_request.validate()?;
+
         if let Some(c_nonce_options) = evaluate_credential_request_options
             .clone()
             .and_then(|o| o.c_nonce)
-- 
2.43.0


From a8d315b6bb0cbe4ece853ddd247064eb77a36c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:53 +0000
Subject: [PATCH 06/14] fix: do not panic when the nonce lifetime exceeds the
 maximum date

---
 crates/openid4vci/src/credential_issuer/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/openid4vci/src/credential_issuer/mod.rs b/crates/openid4vci/src/credential_issuer/mod.rs
index ba36db6..3eda2be 100644
--- a/crates/openid4vci/src/credential_issuer/mod.rs
+++ b/crates/openid4vci/src/credential_issuer/mod.rs
@@ -522,8 +522,10 @@ impl CredentialIssuer {
             .clone()
             .and_then(|o| o.c_nonce)
         {
-            let expiry_timestamp = c_nonce_options.c_nonce_created_at
-                + Duration::seconds(c_nonce_options.c_nonce_expires_in.into());
+            let expiry_timestamp = c_nonce_options
+                .c_nonce_created_at
+                .checked_add_signed(Duration::seconds(c_nonce_options.c_nonce_expires_in.into()))
+                .unwrap_or(DateTime::<Utc>::MAX_UTC);
             let now = Utc::now();
 
             if expiry_timestamp < now {
-- 
2.43.0


From 22f1d4f7b9c3e77586681ca3d5c392cb71254f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:55 +0000
Subject: [PATCH 07/14] fix: serialize error codes as their protocol strings

---
 crates/openid4vci/src/access_token/error_response.rs  | 1 +
 crates/openid4vci/src/credential_issuer/error_code.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/crates/openid4vci/src/access_token/error_response.rs b/crates/openid4vci/src/access_token/error_response.rs
index e96c3f5..9cb4a39 100644
--- a/crates/openid4vci/src/access_token/error_response.rs
+++ b/crates/openid4vci/src/access_token/error_response.rs
@@ -6,6 +6,7 @@ use crate::validate::ValidationError;
 /// Enum containing error codes for an access token request. This is a direct implementation of section
 /// 6.3 of the [openid4vci specification](https://openid.net/specs/openid-4-verifiable-credential-issuance-1_0-11.html#section-6.3).
 #[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
+#[serde(rename_all = "snake_case")]
 pub enum AccessTokenErrorCode {
     /// `invalid_request`
     ///
diff --git a/crates/openid4vci/src/credential_issuer/error_code.rs b/crates/openid4vci/src/credential_issuer/error_code.rs
index 36061ba..0f22fb4 100644
--- a/crates/openid4vci/src/credential_issuer/error_code.rs
+++ b/crates/openid4vci/src/credential_issuer/error_code.rs
@@ -4,6 +4,7 @@ use serde::{Deserialize, Serialize};
 /// Enum containing error codes for an access token request. This is a direct implementation of section
 /// 7.3.1 of the [openid4vci specification](https://openid.net/specs/openid-4-verifiable-credential-issuance-1_0-11.html#section-7.3.1).
 #[derive(Debug, PartialEq, Clone, Serialize, Deserialize)]
+#[serde(rename_all = "snake_case")]
 pub enum CredentialIssuerErrorCode {
     /// Credential Request was malformed. One or more of the parameters (i.e. format, proof) are
     /// missing or malformed.
-- 
2.43.0


From 2684b66754aa997646c22ea637ac0ca7cb2ac1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:56 +0000
Subject: [PATCH 08/14] fix: use the specified member name for the supported
 binding methods

---
 crates/openid4vci/src/types/credential_issuer_metadata.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/openid4vci/src/types/credential_issuer_metadata.rs b/crates/openid4vci/src/types/credential_issuer_metadata.rs
index 1812f11..705c713 100644
--- a/crates/openid4vci/src/types/credential_issuer_metadata.rs
+++ b/crates/openid4vci/src/types/credential_issuer_metadata.rs
@@ -68,6 +68,7 @@ pub struct CredentialSupported {
     /// did:example. Support for all DID methods listed in Section 13 of
     /// [DID_Specification_Registries](https://www.w3.org/TR/did-spec-registries/) is indicated by
     /// sending a DID without any method-name.
+    #[serde(rename = "cryptographic_binding_methods_supported")]
     pub cryptographic_binding_mehtods_supported: Option<Vec<String>>,
 
     /// Array of case sensitive strings that identify the cryptographic suites that are supported
-- 
2.43.0


From 6c3c048055e69a1ca00bc2019de3e61c3e1b1ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:58 +0000
Subject: [PATCH 09/14] fix: write the issued credential itself as the
 credential member

---
 crates/openid4vci/src/types/credential.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/openid4vci/src/types/credential.rs b/crates/openid4vci/src/types/credential.rs
index ae89654..39797e4 100644
--- a/crates/openid4vci/src/types/credential.rs
+++ b/crates/openid4vci/src/types/credential.rs
@@ -166,6 +166,7 @@ impl Validatable for CredentialFormatProfile {
 /// format as specified in Appendix E of the [openid4vci
 /// specification](https://openid.net/specs/openid-4-verifiable-credential-issuance-1_0-11.html#name-credential-format-profiles).
 #[derive(Serialize, Deserialize, Debug, PartialEq, Eq)]
+#[serde(untagged)]
 pub enum CredentialFormatProfileOrEncoded {
     /// [`CredentialFormatProfile`]
     CredentialFormatProfile(CredentialFormatProfile),
-- 
2.43.0


From ee121933e8e92b6b04a0a2049de34d8ed3cf25a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:00 +0000
Subject: [PATCH 10/14] fix: never include the signature in the signable
 message

---
 crates/openid4vci/src/jwt/mod.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/crates/openid4vci/src/jwt/mod.rs b/crates/openid4vci/src/jwt/mod.rs
index 98052b8..705abd3 100644
--- a/crates/openid4vci/src/jwt/mod.rs
+++ b/crates/openid4vci/src/jwt/mod.rs
@@ -227,16 +227,13 @@ impl ProofJwt {
     ///
     /// - When it could not convert the JWT to a string
     pub fn to_signable_message(&self) -> JwtResult<Vec<u8>> {
-        // Convert the JWT into a string
-        let message: String = self.try_into()?;
-
-        // Remove the signature if its defined, detected by two occurences of "."
-        let message = if message.matches('.').count() == 2 {
-            let parts: Vec<_> = message.split('.').collect();
-            format!("{}.{}", parts[0], parts[1])
-        } else {
-            message
+        // Convert the JWT, without its signature, into a string. The header and body may contain
+        // a "." themselves, so the signature can not be found by looking for those
+        let jwt = Self {
+            signature: None,
+            ..self.clone()
         };
+        let message: String = (&jwt).try_into()?;
 
         // Return the message as bytes
         Ok(message.as_bytes().to_vec())
-- 
2.43.0


From 608555dc510ceba27f03ed8434cf2594be0adbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:02 +0000
Subject: [PATCH 11/14] fix: extract exactly the signature of the presented
 proof

---
 crates/openid4vci/src/jwt/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/openid4vci/src/jwt/mod.rs b/crates/openid4vci/src/jwt/mod.rs
index 705abd3..efb83ec 100644
--- a/crates/openid4vci/src/jwt/mod.rs
+++ b/crates/openid4vci/src/jwt/mod.rs
@@ -245,6 +245,10 @@ impl ProofJwt {
     ///
     /// - When the signature is not defined
     pub fn extract_signature(&self) -> JwtResult<Vec<u8>> {
+        if let Some(signature) = &self.signature {
+            return Ok(signature.as_bytes().to_vec());
+        }
+
         // Convert the JWT into a string
         let s_jwt: String = self.try_into()?;
 
-- 
2.43.0


From 652697720508c68afd4582f222c71e4ba1a4cfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:03 +0000
Subject: [PATCH 12/14] fix: reject proofs with more than three parts

---
 crates/openid4vci/src/jwt/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/openid4vci/src/jwt/mod.rs b/crates/openid4vci/src/jwt/mod.rs
index efb83ec..6284ff2 100644
--- a/crates/openid4vci/src/jwt/mod.rs
+++ b/crates/openid4vci/src/jwt/mod.rs
@@ -92,6 +92,12 @@ impl FromStr for ProofJwt {
 
         let signature = res.next();
 
+        if res.next().is_some() {
+            return Err(ValidationError::Any {
+                validation_message: "More than three parts found in the `JWT`".to_owned(),
+            });
+        }
+
         let header = base64url::decode(header)?;
         let body = base64url::decode(body)?;
 
-- 
2.43.0


From fed51d9913b2d929b73010ae35504d828a3d98bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:18 +0000
Subject: [PATCH 13/14] fix: write the value type of a claim under its member
 name value_type

---
 crates/openid4vci/src/types/credential.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/crates/openid4vci/src/types/credential.rs b/crates/openid4vci/src/types/credential.rs
index 39797e4..78bb35a 100644
--- a/crates/openid4vci/src/types/credential.rs
+++ b/crates/openid4vci/src/types/credential.rs
@@ -122,7 +122,6 @@ pub enum CredentialFormatProfile {
 /// offered in the Credential. The value MAY be a dictionary, which allows to represent the
 /// full (potentially deeply nested) structure of the verifiable credential to be issued.
 #[derive(Debug, Serialize, Deserialize, Clone, PartialEq, Eq)]
-#[serde(rename_all = "camelCase")]
 pub struct CredentialSubject {
     /// Boolean which when set to true indicates the claim MUST be present in the issued Credential. If
     /// the mandatory property is omitted its default should be assumed to be false.
-- 
2.43.0


From 7b06c323cb1b8ad2c30b8b3c31fc050659a563bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:27 +0000
Subject: [PATCH 14/14] fix: leave an absent issuer state out of the written
 offer

---
 crates/openid4vci/src/credential_issuer/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/openid4vci/src/credential_issuer/mod.rs b/crates/openid4vci/src/credential_issuer/mod.rs
index 3eda2be..283085f 100644
--- a/crates/openid4vci/src/credential_issuer/mod.rs
+++ b/crates/openid4vci/src/credential_issuer/mod.rs
@@ -141,6 +141,7 @@ impl From<CredentialFormatProfile> for CredentialOrId {
 #[derive(Default, Serialize, Deserialize, Debug, PartialEq, Clone)]
 pub struct AuthorizedCodeFlow {
     /// Issuer state that MUST be the same, if supplied, from the authorization request
+    #[serde(skip_serializing_if = "Option::is_none")]
     pub issuer_state: Option<String>,
 }
 
-- 
2.43.0

