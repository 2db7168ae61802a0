From 4b16dde25478bc30afa9154b551b6a81b8dc06dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:46 +0000
Subject: [PATCH 01/19] fix: pass over capabilities the semantics does not
 understand instead of stopping at the first

---
 ucan/src/chain.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ucan/src/chain.rs b/ucan/src/chain.rs
index 285efbb..7a40482 100644
--- a/ucan/src/chain.rs
+++ b/ucan/src/chain.rs
@@ -219,7 +219,7 @@ impl ProofChain {
             .ucan
             .capabilities()
             .iter()
-            .map_while(|data| semantics.parse_capability(&data));
+            .filter_map(|data| semantics.parse_capability(&data));
 
         // Get the claimed attenuations of this ucan, cross-checking ancestral
         // attenuations to discover the originating authority
-- 
2.43.0


From 949ab5591b1cf0f69d89a229f92af7b381ddfd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:46 +0000
Subject: [PATCH 02/19] fix: do not credit the originators of a narrower
 capability with a broader one

---
 ucan/src/chain.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/ucan/src/chain.rs b/ucan/src/chain.rs
index 7a40482..9271ac6 100644
--- a/ucan/src/chain.rs
+++ b/ucan/src/chain.rs
@@ -274,10 +274,27 @@ impl ProofChain {
                     .capability
                     .enables(&capability_info.capability)
                 {
-                    remaining_capability_info
+                    // Only equivalent capabilities share their originators:
+                    // whoever granted a narrower capability did not thereby
+                    // grant the broader one
+                    if capability_info
+                        .capability
+                        .enables(&remaining_capability_info.capability)
+                    {
+                        remaining_capability_info
+                            .originators
+                            .extend(capability_info.originators);
+                        continue 'merge;
+                    }
+
+                    // A narrower capability is redundant if the broader one
+                    // has the same originators
+                    if capability_info
                         .originators
-                        .extend(capability_info.originators);
-                    continue 'merge;
+                        .is_subset(&remaining_capability_info.originators)
+                    {
+                        continue 'merge;
+                    }
                 }
             }
 
-- 
2.43.0


From 300d231b836ee5433fe6bcd8a3b25d6ca268e750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:46 +0000
Subject: [PATCH 03/19] fix: recognize prf:* as the selection of all proofs

---
 ucan/src/capability/proof.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ucan/src/capability/proof.rs b/ucan/src/capability/proof.rs
index 986bb57..a869ecc 100644
--- a/ucan/src/capability/proof.rs
+++ b/ucan/src/capability/proof.rs
@@ -1,4 +1,4 @@
-use super::{Ability, CapabilitySemantics, Scope};
+use super::{Ability, CapabilitySemantics, ResourceUri, Scope};
 use anyhow::{anyhow, Result};
 use url::Url;
 
@@ -76,4 +76,10 @@ impl ToString for ProofSelection {
 
 pub struct ProofDelegationSemantics {}
 
-impl CapabilitySemantics<ProofSelection, ProofAction> for ProofDelegationSemantics {}
+impl CapabilitySemantics<ProofSelection, ProofAction> for ProofDelegationSemantics {
+    /// The path `*` is itself a [ProofSelection] ("all proofs"), and not the
+    /// generic wildcard
+    fn parse_resource(&self, resource: &Url) -> Option<ResourceUri<ProofSelection>> {
+        Some(ResourceUri::Scoped(self.parse_scope(resource)?))
+    }
+}
-- 
2.43.0


From 83c20ad7a96c64ed16bdd72a07c5c72c06b82474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:22 +0000
Subject: [PATCH 04/19] fix: parse the resource of as:<did>:<resource>
 capabilities whole

---
 ucan/src/capability/semantics.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/ucan/src/capability/semantics.rs b/ucan/src/capability/semantics.rs
index 65966fb..9a8dcc9 100644
--- a/ucan/src/capability/semantics.rs
+++ b/ucan/src/capability/semantics.rs
@@ -1,7 +1,7 @@
 use super::{Capability, Caveat};
 use serde_json::{json, Value};
 use std::fmt::Debug;
-use url::Url;
+use url::{Position, Url};
 
 pub trait Scope: ToString + TryFrom<Url> + PartialEq + Clone {
     fn contains(&self, other: &Self) -> bool;
@@ -131,7 +131,10 @@ where
             _ => return None,
         };
 
-        Some((format!("did:key:{value}"), path_parts.collect()))
+        Some((
+            format!("did:key:{value}"),
+            path_parts.collect::<Vec<&str>>().join(":"),
+        ))
     }
 
     fn parse_resource(&self, resource: &Url) -> Option<ResourceUri<S>> {
@@ -164,10 +167,13 @@ where
                 kind: self.parse_resource(&uri)?,
             },
             "as" => {
-                let (did, resource) = self.extract_did(uri.path())?;
+                let (did, resource) = self.extract_did(&uri[Position::BeforePath..])?;
                 Resource::As {
                     did,
-                    kind: self.parse_resource(&Url::parse(resource.as_str()).ok()?)?,
+                    kind: match resource.as_str() {
+                        "*" => ResourceUri::Unscoped,
+                        resource => self.parse_resource(&Url::parse(resource).ok()?)?,
+                    },
                 }
             }
             _ => Resource::Resource {
-- 
2.43.0


From 1261231d51145733b09350ea073c716400849e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:22 +0000
Subject: [PATCH 05/19] fix: reject did:key DIDs too short to carry a key type

---
 ucan/src/crypto/did.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ucan/src/crypto/did.rs b/ucan/src/crypto/did.rs
index 3322f2c..0e4dc53 100644
--- a/ucan/src/crypto/did.rs
+++ b/ucan/src/crypto/did.rs
@@ -50,6 +50,10 @@ impl DidParser {
         }
 
         let did_bytes = bs58::decode(&did[DID_KEY_PREFIX.len()..]).into_vec()?;
+        if did_bytes.len() < 2 {
+            return Err(anyhow!("DID is too short to identify a key: {}", did));
+        }
+
         let magic_bytes = &did_bytes[0..2];
         match self.key_constructors.get(magic_bytes) {
             Some(ctor) => {
-- 
2.43.0


From ca2bbcb6443b3f84a317c4fcf310379119c03083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:22 +0000
Subject: [PATCH 06/19] fix: reject principals that cannot be displayed as the
 DID they stand for

---
 ucan/src/ipld/principle.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/ucan/src/ipld/principle.rs b/ucan/src/ipld/principle.rs
index 9980f40..840d663 100644
--- a/ucan/src/ipld/principle.rs
+++ b/ucan/src/ipld/principle.rs
@@ -8,14 +8,31 @@ pub const DID_IPLD_PREFIX: &[u8] = &[0x9d, 0x1a];
 
 #[repr(transparent)]
 #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
+#[serde(try_from = "Vec<u8>")]
 pub struct Principle(Vec<u8>);
 
+impl TryFrom<Vec<u8>> for Principle {
+    type Error = anyhow::Error;
+
+    fn try_from(bytes: Vec<u8>) -> Result<Self, Self::Error> {
+        // Bytes that are marked as a generic DID must be displayable as one
+        if let Some(did_bytes) = bytes.strip_prefix(DID_IPLD_PREFIX) {
+            std::str::from_utf8(did_bytes)?;
+        }
+        Ok(Principle(bytes))
+    }
+}
+
 impl FromStr for Principle {
     type Err = anyhow::Error;
 
     fn from_str(input: &str) -> Result<Self, Self::Err> {
         if let Some(stripped) = input.strip_prefix(DID_KEY_PREFIX) {
-            Ok(Principle(bs58::decode(stripped).into_vec()?))
+            let bytes = bs58::decode(stripped).into_vec()?;
+            if bytes.starts_with(DID_IPLD_PREFIX) {
+                return Err(anyhow!("Unsupported key type in DID: {}", input));
+            }
+            Ok(Principle(bytes))
         } else if let Some(stripped) = input.strip_prefix(DID_PREFIX) {
             Ok(Principle([DID_IPLD_PREFIX, stripped.as_bytes()].concat()))
         } else {
@@ -27,13 +44,13 @@ impl FromStr for Principle {
 impl Display for Principle {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         let bytes = &self.0;
-        let did_content = match &bytes[0..2] {
-            DID_IPLD_PREFIX => [
+        let did_content = match bytes.strip_prefix(DID_IPLD_PREFIX) {
+            Some(did_bytes) => [
                 DID_PREFIX,
-                std::str::from_utf8(&bytes[2..]).map_err(|_| std::fmt::Error)?,
+                std::str::from_utf8(did_bytes).map_err(|_| std::fmt::Error)?,
             ]
             .concat(),
-            _ => [DID_KEY_PREFIX, &bs58::encode(bytes).into_string()].concat(),
+            None => [DID_KEY_PREFIX, &bs58::encode(bytes).into_string()].concat(),
         };
 
         write!(f, "{did_content}")
-- 
2.43.0


From e19bc071d2cbbc816288d64c3fc4b179b0afb7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:22 +0000
Subject: [PATCH 07/19] fix: reject signatures shorter than their stated length

---
 ucan/src/ipld/signature.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ucan/src/ipld/signature.rs b/ucan/src/ipld/signature.rs
index ed520cb..44e8a6a 100644
--- a/ucan/src/ipld/signature.rs
+++ b/ucan/src/ipld/signature.rs
@@ -130,7 +130,10 @@ impl Signature {
         // TODO: Non-standard algorithm support here...
 
         let algorithm = JwtSignatureAlgorithm::try_from(VarsigPrefix::try_from(prefix)?)?;
-        let signature = buffer[..signature_length].to_vec();
+        let signature = buffer
+            .get(..signature_length)
+            .ok_or_else(|| anyhow!("Signature is shorter than its stated length"))?
+            .to_vec();
 
         Ok((algorithm, signature))
     }
-- 
2.43.0


From 103b05e65898ed611a77b39e3cb5be4664b4f69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:22 +0000
Subject: [PATCH 08/19] fix: return the error when the payload to be signed
 cannot be produced

---
 ucan/src/builder.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/ucan/src/builder.rs b/ucan/src/builder.rs
index 44fb9cb..4adb4e7 100644
--- a/ucan/src/builder.rs
+++ b/ucan/src/builder.rs
@@ -87,10 +87,7 @@ where
     /// data suitable for encoding as a JWT token string
     pub async fn sign(&self) -> Result<Ucan> {
         let header = self.ucan_header();
-        let payload = self
-            .ucan_payload()
-            .await
-            .expect("Unable to generate UCAN payload");
+        let payload = self.ucan_payload().await?;
 
         let header_base64 = header.jwt_base64_encode()?;
         let payload_base64 = payload.jwt_base64_encode()?;
-- 
2.43.0


From c9e476a7a2cdee772bef45be7ae090152d41a8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:22 +0000
Subject: [PATCH 09/19] fix: do not overflow the expiration implied by a long
 lifetime

---
 ucan/src/builder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ucan/src/builder.rs b/ucan/src/builder.rs
index 4adb4e7..8bfc8b3 100644
--- a/ucan/src/builder.rs
+++ b/ucan/src/builder.rs
@@ -282,7 +282,8 @@ where
         if self.expiration.is_some() {
             self.expiration
         } else {
-            self.lifetime.map(|lifetime| now() + lifetime)
+            self.lifetime
+                .map(|lifetime| now().saturating_add(lifetime))
         }
     }
 
-- 
2.43.0


From 2a13917afcb3d04d186e0942120366996d8556bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:58 +0000
Subject: [PATCH 10/19] fix: encode a token as it was signed

---
 ucan/src/ucan.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ucan/src/ucan.rs b/ucan/src/ucan.rs
index beaf8d2..49932aa 100644
--- a/ucan/src/ucan.rs
+++ b/ucan/src/ucan.rs
@@ -1,7 +1,7 @@
 use crate::{
     capability::Capabilities,
     crypto::did::DidParser,
-    serde::{Base64Encode, DagJson},
+    serde::DagJson,
     time::now,
 };
 use anyhow::{anyhow, Result};
@@ -91,12 +91,13 @@ impl Ucan {
     /// Produce a base64-encoded serialization of the UCAN suitable for
     /// transferring in a header field
     pub fn encode(&self) -> Result<String> {
-        let header = self.header.jwt_base64_encode()?;
-        let payload = self.payload.jwt_base64_encode()?;
+        // NOTE: The header and payload must not be serialized anew, as another
+        // implementation may have signed a different serialization of them
+        let signed_data = std::str::from_utf8(&self.signed_data)?;
         let signature =
             base64::engine::general_purpose::URL_SAFE_NO_PAD.encode(self.signature.as_slice());
 
-        Ok(format!("{header}.{payload}.{signature}"))
+        Ok(format!("{signed_data}.{signature}"))
     }
 
     /// Returns true if the UCAN has past its expiration date
-- 
2.43.0


From 9436a689bb43f255008f4e11e4a9b2ccafdd343d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:58 +0000
Subject: [PATCH 11/19] fix: reject token strings with more than three parts

---
 ucan/src/ucan.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ucan/src/ucan.rs b/ucan/src/ucan.rs
index 49932aa..e66fa1d 100644
--- a/ucan/src/ucan.rs
+++ b/ucan/src/ucan.rs
@@ -261,6 +261,10 @@ impl FromStr for Ucan {
             .ok_or_else(|| anyhow!("Missing UCAN signature in token part"))?
             .map_err(|e| e.context("Could not parse UCAN signature base64"))?;
 
+        if parts.next().is_some() {
+            return Err(anyhow!("Too many parts in token string"));
+        }
+
         Ok(Ucan::new(
             header,
             payload,
-- 
2.43.0


From 5363d344edffae099d2f4ce65101da7652cc1d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:58 +0000
Subject: [PATCH 12/19] fix: validate capabilities when they are deserialized

---
 ucan/src/capability/data.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ucan/src/capability/data.rs b/ucan/src/capability/data.rs
index 307fe71..79eac80 100644
--- a/ucan/src/capability/data.rs
+++ b/ucan/src/capability/data.rs
@@ -64,6 +64,7 @@ type CapabilitiesIterator<'a> = FlatMap<
 >;
 
 #[derive(Debug, Clone, Eq, PartialEq, Serialize, Deserialize)]
+#[serde(try_from = "CapabilitiesImpl")]
 /// The [Capabilities] struct contains capability data as a map-of-maps, matching the
 /// [spec](https://github.com/ucan-wg/spec#326-capabilities--attenuation).
 /// See `iter()` to deconstruct this map into a sequence of [Capability] datas.
@@ -181,6 +182,11 @@ impl TryFrom<CapabilitiesImpl> for Capabilities {
                 // One or more abilities MUST be given for each resource.
                 return Err(anyhow!("No abilities given for resource: {}", resource));
             }
+            for caveat in abilities.values().flatten() {
+                if !caveat.is_object() {
+                    return Err(anyhow!("Caveat must be an object: {}", caveat));
+                }
+            }
         }
         Ok(Capabilities(value))
     }
-- 
2.43.0


From bc2a7bb8d5e7205f3557e65f2a49b683bb8cf02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:58 +0000
Subject: [PATCH 13/19] fix: keep the version of a UCAN converted from IPLD

---
 ucan/src/ipld/ucan.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ucan/src/ipld/ucan.rs b/ucan/src/ipld/ucan.rs
index c98970d..0835606 100644
--- a/ucan/src/ipld/ucan.rs
+++ b/ucan/src/ipld/ucan.rs
@@ -3,7 +3,7 @@ use crate::{
     crypto::JwtSignatureAlgorithm,
     ipld::{Principle, Signature},
     serde::Base64Encode,
-    ucan::{FactsMap, Ucan, UcanHeader, UcanPayload, UCAN_VERSION},
+    ucan::{FactsMap, Ucan, UcanHeader, UcanPayload},
 };
 use cid::Cid;
 use serde::{Deserialize, Serialize};
@@ -74,7 +74,7 @@ impl TryFrom<&UcanIpld> for Ucan {
         };
 
         let payload = UcanPayload {
-            ucv: UCAN_VERSION.into(),
+            ucv: value.v.clone(),
             iss: value.iss.to_string(),
             aud: value.aud.to_string(),
             exp: value.exp,
-- 
2.43.0


From 5ac3a1152463858bc8f7e67b6239f6bb441b94f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:58 +0000
Subject: [PATCH 14/19] fix: validate the not-before time against the given
 time

---
 ucan/src/ucan.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ucan/src/ucan.rs b/ucan/src/ucan.rs
index e66fa1d..caa80c3 100644
--- a/ucan/src/ucan.rs
+++ b/ucan/src/ucan.rs
@@ -75,7 +75,7 @@ impl Ucan {
             return Err(anyhow!("Expired"));
         }
 
-        if self.is_too_early() {
+        if self.is_too_early_at(now_time.unwrap_or_else(now)) {
             return Err(anyhow!("Not active yet (too early)"));
         }
 
@@ -120,8 +120,12 @@ impl Ucan {
 
     /// Returns true if the not-before ("nbf") time is still in the future
     pub fn is_too_early(&self) -> bool {
+        self.is_too_early_at(now())
+    }
+
+    fn is_too_early_at(&self, time: u64) -> bool {
         match self.payload.nbf {
-            Some(nbf) => nbf > now(),
+            Some(nbf) => nbf > time,
             None => false,
         }
     }
-- 
2.43.0


From 741182fb1c208192abc4d1d083df81829ad686d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:58 +0000
Subject: [PATCH 15/19] fix: return the error when an RSA public key cannot be
 encoded

---
 ucan-key-support/src/rsa.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/ucan-key-support/src/rsa.rs b/ucan-key-support/src/rsa.rs
index 2921911..3ebf2d3 100644
--- a/ucan-key-support/src/rsa.rs
+++ b/ucan-key-support/src/rsa.rs
@@ -30,14 +30,8 @@ impl KeyMaterial for RsaKeyMaterial {
     }
 
     async fn get_did(&self) -> Result<String> {
-        let bytes = match self.0.to_pkcs1_der() {
-            Ok(document) => [RSA_MAGIC_BYTES, document.as_bytes()].concat(),
-            Err(error) => {
-                // TODO: Probably shouldn't swallow this error...
-                warn!("Could not get RSA public key bytes for DID: {:?}", error);
-                Vec::new()
-            }
-        };
+        let document = self.0.to_pkcs1_der()?;
+        let bytes = [RSA_MAGIC_BYTES, document.as_bytes()].concat();
         Ok(format!("did:key:z{}", bs58::encode(bytes).into_string()))
     }
 
-- 
2.43.0


From 556443d5e00caa0f4aa383c96c00afa551187b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:36 +0000
Subject: [PATCH 16/19] fix: refuse token segments with bytes after their JSON
 value

DagJsonCodec decodes the first JSON value it finds and ignores whatever
follows, so a segment holding '{...}garbage' was taken for a payload.
---
 ucan/src/serde.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ucan/src/serde.rs b/ucan/src/serde.rs
index a2ffebc..3d219b3 100644
--- a/ucan/src/serde.rs
+++ b/ucan/src/serde.rs
@@ -6,7 +6,10 @@ use libipld_core::{
     serde::{from_ipld, to_ipld},
 };
 use libipld_json::DagJsonCodec;
-use serde::{de::DeserializeOwned, Serialize, Serializer};
+use serde::{
+    de::{DeserializeOwned, IgnoredAny},
+    Serialize, Serializer,
+};
 use std::io::Cursor;
 
 /// Utility function to enforce lower-case string values when serializing
@@ -29,6 +32,9 @@ pub trait DagJson: Serialize + DeserializeOwned {
     }
 
     fn from_dag_json(json_bytes: &[u8]) -> Result<Self> {
+        // The decoder stops after the first value, but nothing may follow it
+        serde_json::from_slice::<IgnoredAny>(json_bytes)?;
+
         let ipld = Ipld::decode(DagJsonCodec, &mut Cursor::new(json_bytes))?;
         Ok(from_ipld(ipld)?)
     }
-- 
2.43.0


From 7f1a46f8eb465cd3ccaae5c396ba58d39c8ca195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:50 +0000
Subject: [PATCH 17/19] fix: convert RSA keys of every size from SPKI, without
 panicking on others

---
 ucan-key-support/src/web_crypto.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ucan-key-support/src/web_crypto.rs b/ucan-key-support/src/web_crypto.rs
index 4d1ea62..b089e80 100644
--- a/ucan-key-support/src/web_crypto.rs
+++ b/ucan-key-support/src/web_crypto.rs
@@ -2,17 +2,19 @@ use crate::rsa::RsaKeyMaterial;
 use anyhow::{anyhow, Result};
 use async_trait::async_trait;
 use js_sys::{Array, ArrayBuffer, Boolean, Object, Reflect, Uint8Array};
-use rsa::{pkcs1::DecodeRsaPublicKey, RsaPublicKey};
+use rsa::{
+    pkcs1::{DecodeRsaPublicKey, EncodeRsaPublicKey},
+    pkcs8::DecodePublicKey,
+    RsaPublicKey,
+};
 use ucan::crypto::{JwtSignatureAlgorithm, KeyMaterial};
 use wasm_bindgen::{JsCast, JsValue};
 use wasm_bindgen_futures::JsFuture;
 use web_sys::{Crypto, CryptoKey, CryptoKeyPair, SubtleCrypto};
 
 pub fn convert_spki_to_rsa_public_key(spki_bytes: &[u8]) -> Result<Vec<u8>> {
-    // TODO: This is maybe a not-good, hacky solution; verifying the first
-    // 24 bytes would be more wholesome
-    // SEE: https://github.com/ucan-wg/ts-ucan/issues/30#issuecomment-1007333500
-    Ok(Vec::from(&spki_bytes[24..]))
+    let public_key = RsaPublicKey::from_public_key_der(spki_bytes)?;
+    Ok(public_key.to_pkcs1_der()?.as_bytes().to_vec())
 }
 
 pub const WEB_CRYPTO_RSA_ALGORITHM: &str = "RSASSA-PKCS1-v1_5";
-- 
2.43.0


From 53b23a49767c9715470f5bd1d9b2222c5d486832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:50 +0000
Subject: [PATCH 18/19] fix: report what the WebCrypto API refuses as an error

---
 ucan-key-support/src/web_crypto.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/ucan-key-support/src/web_crypto.rs b/ucan-key-support/src/web_crypto.rs
index b089e80..fca06d7 100644
--- a/ucan-key-support/src/web_crypto.rs
+++ b/ucan-key-support/src/web_crypto.rs
@@ -29,7 +29,10 @@ impl WebCryptoRsaKeyMaterial {
         // do a sneaky workaround here:
         let global = js_sys::global();
         match Reflect::get(&global, &JsValue::from("crypto")) {
-            Ok(value) => Ok(value.dyn_into::<Crypto>().expect("Unexpected API").subtle()),
+            Ok(value) => Ok(value
+                .dyn_into::<Crypto>()
+                .map_err(|_| anyhow!("Could not access WebCrypto API"))?
+                .subtle()),
             _ => Err(anyhow!("Could not access WebCrypto API")),
         }
     }
@@ -114,17 +117,16 @@ impl KeyMaterial for WebCryptoRsaKeyMaterial {
         let public_key = &self.0;
         let subtle_crypto = Self::get_subtle_crypto()?;
 
-        let public_key_bytes = Uint8Array::new(
-            &JsFuture::from(
-                subtle_crypto
-                    .export_key("spki", public_key)
-                    .expect("Could not access key extraction API"),
-            )
-            .await
-            .expect("Failed to extract public key bytes")
-            .dyn_into::<ArrayBuffer>()
-            .expect("Bytes were not an ArrayBuffer"),
-        );
+        let public_key_bytes = JsFuture::from(
+            subtle_crypto
+                .export_key("spki", public_key)
+                .map_err(|error| anyhow!("{:?}", error))?,
+        )
+        .await
+        .map_err(|error| anyhow!("{:?}", error))?
+        .dyn_into::<ArrayBuffer>()
+        .map_err(|error| anyhow!("{:?}", error))?;
+        let public_key_bytes = Uint8Array::new(&public_key_bytes);
 
         let public_key_bytes = public_key_bytes.to_vec();
         let public_key_bytes = convert_spki_to_rsa_public_key(public_key_bytes.as_slice())?;
-- 
2.43.0


From 8ade4a02de400e2589561249b5c7b8f5fb8c621a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:12 +0000
Subject: [PATCH 19/19] fix: do not print to standard output when parsing an
 RSA key

bytes_to_rsa_key printed a line to the standard output of the program it is
linked into for every RSA did:key it resolved, and panicked where that output
cannot be written. Report it through the log, like the rest of the crate.
---
 ucan-key-support/src/rsa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ucan-key-support/src/rsa.rs b/ucan-key-support/src/rsa.rs
index 3ebf2d3..a1f6606 100644
--- a/ucan-key-support/src/rsa.rs
+++ b/ucan-key-support/src/rsa.rs
@@ -12,7 +12,7 @@ use ucan::crypto::{JwtSignatureAlgorithm, KeyMaterial};
 pub use ucan::crypto::did::RSA_MAGIC_BYTES;
 
 pub fn bytes_to_rsa_key(bytes: Vec<u8>) -> Result<Box<dyn KeyMaterial>> {
-    println!("Trying to parse RSA key...");
+    debug!("Trying to parse RSA key...");
     // NOTE: DID bytes are PKCS1, but we store RSA keys as PKCS8
     let public_key = RsaPublicKey::from_pkcs1_der(&bytes)?;
 
-- 
2.43.0

