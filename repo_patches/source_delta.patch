From 6f408e1c092aa765a3e41eb8329d9fb3f6714d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:28 +0000
Subject: [PATCH 01/11] fix: give every masked certificate fingerprint a
 distinct value

to_byte_vec shifted the wrong way, so only the low byte of the counter
reached the output and the masks repeated after 255 fingerprints.
---
 src/anonymizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/anonymizer.rs b/src/anonymizer.rs
index a3d4d50..ce23a43 100644
--- a/src/anonymizer.rs
+++ b/src/anonymizer.rs
@@ -22,7 +22,7 @@ impl ToBytesVec for u64 {
         let mut val = *self;
         for _ in 0..8 {
             bytes.push(val as u8);
-            val <<= 8;
+            val >>= 8;
         }
         bytes.reverse();
         bytes
-- 
2.43.0


From 4f57c01aee6dfe19df182545845301f821193808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:28 +0000
Subject: [PATCH 02/11] fix: mask the connection address of media sections

---
 src/media_type.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/media_type.rs b/src/media_type.rs
index 91a11c6..0560bca 100644
--- a/src/media_type.rs
+++ b/src/media_type.rs
@@ -300,7 +300,7 @@ impl AnonymizingClone for SdpMedia {
         let mut masked = SdpMedia {
             media: self.media.clone(),
             bandwidth: self.bandwidth.clone(),
-            connection: self.connection.clone(),
+            connection: self.connection.as_ref().map(|con| con.masked_clone(anon)),
             attribute: Vec::new(),
         };
         for i in &self.attribute {
-- 
2.43.0


From 4d9c849e6163b40d509b1a7c8ec339c796aad21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:28 +0000
Subject: [PATCH 03/11] fix: keep the media sections in an anonymized session

---
 src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 967ab22..0c7cbda 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -391,6 +391,9 @@ impl AnonymizingClone for SdpSession {
         for i in &self.attribute {
             masked.attribute.push(i.masked_clone(anon));
         }
+        for m in &self.media {
+            masked.media.push(m.masked_clone(anon));
+        }
         masked
     }
 }
-- 
2.43.0


From 4486802f8c568239238d98c977308f82a32caf21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:09 +0000
Subject: [PATCH 04/11] fix: mask the address of rtcp attributes

---
 src/attribute_type.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index b3de496..8629447 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -463,6 +463,18 @@ impl fmt::Display for SdpAttributeRtcp {
     }
 }
 
+impl AnonymizingClone for SdpAttributeRtcp {
+    fn masked_clone(&self, anon: &mut StatefulSdpAnonymizer) -> Self {
+        SdpAttributeRtcp {
+            port: self.port,
+            unicast_addr: self
+                .unicast_addr
+                .as_ref()
+                .map(|addr| anon.mask_typed_address(addr)),
+        }
+    }
+}
+
 #[derive(Clone)]
 #[cfg_attr(feature = "serialize", derive(Serialize))]
 #[cfg_attr(feature = "enhanced_debug", derive(Debug))]
@@ -1581,6 +1593,7 @@ impl AnonymizingClone for SdpAttribute {
             SdpAttribute::IcePwd(i) => SdpAttribute::IcePwd(anon.mask_ice_password(i)),
             SdpAttribute::IceUfrag(i) => SdpAttribute::IceUfrag(anon.mask_ice_user(i)),
             SdpAttribute::RemoteCandidate(i) => SdpAttribute::RemoteCandidate(i.masked_clone(anon)),
+            SdpAttribute::Rtcp(i) => SdpAttribute::Rtcp(i.masked_clone(anon)),
             SdpAttribute::Ssrc(i) => SdpAttribute::Ssrc(i.masked_clone(anon)),
             _ => self.clone(),
         }
-- 
2.43.0


From d1958d8ca55f93f16e715e72d4ba96ecd17576e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:09 +0000
Subject: [PATCH 05/11] fix: mask the ICE user fragment carried by a candidate

---
 src/attribute_type.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index 8629447..9ae79bb 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -298,6 +298,10 @@ impl AnonymizingClone for SdpAttributeCandidate {
             .clone()
             .map(|addr| anonymizer.mask_address(&addr));
         masked.rport = self.rport.map(|port| anonymizer.mask_port(port));
+        masked.ufrag = self
+            .ufrag
+            .as_ref()
+            .map(|ufrag| anonymizer.mask_ice_user(ufrag));
         masked
     }
 }
-- 
2.43.0


From 5a50566ab914a212b4239273ca9fe1f59f3b4d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:09 +0000
Subject: [PATCH 06/11] fix: do not print an empty attribute line

A section whose only attribute was an fmtp with default parameters was
printed with a bare "a=", which the parser rejects.
---
 src/attribute_type.rs | 11 +++++++++++
 src/lib.rs            |  6 +++---
 src/media_type.rs     |  5 +++--
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index 9ae79bb..5dd8417 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -69,6 +69,17 @@ macro_rules! non_empty_string_vec {
     };
 }
 
+// The "a=" lines of a section. An attribute without a textual representation
+// (e.g. an fmtp with nothing but default parameters) does not get a line.
+pub(crate) fn attribute_lines_to_string(attributes: &[SdpAttribute]) -> String {
+    attributes
+        .iter()
+        .map(ToString::to_string)
+        .filter(|attribute| !attribute.is_empty())
+        .map(|attribute| format!("a={attribute}\r\n"))
+        .collect()
+}
+
 pub fn maybe_print_param<T>(name: &str, param: T, default_value: T) -> String
 where
     T: PartialEq + ToString,
diff --git a/src/lib.rs b/src/lib.rs
index 0c7cbda..3ee1224 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -26,8 +26,8 @@ pub mod network;
 use address::{AddressTyped, ExplicitlyTypedAddress};
 use anonymizer::{AnonymizingClone, StatefulSdpAnonymizer};
 use attribute_type::{
-    parse_attribute, SdpAttribute, SdpAttributeRid, SdpAttributeSimulcastVersion, SdpAttributeType,
-    SdpSingleDirection,
+    attribute_lines_to_string, parse_attribute, SdpAttribute, SdpAttributeRid,
+    SdpAttributeSimulcastVersion, SdpAttributeType, SdpSingleDirection,
 };
 use error::{SdpParserError, SdpParserInternalError};
 use media_type::{
@@ -229,7 +229,7 @@ impl fmt::Display for SdpSession {
             timing = option_to_string!("t={}\r\n", self.timing),
             bandwidth = maybe_vector_to_string!("b={}\r\n", self.bandwidth, "\r\nb="),
             connection = option_to_string!("c={}\r\n", self.connection),
-            session_attributes = maybe_vector_to_string!("a={}\r\n", self.attribute, "\r\na="),
+            session_attributes = attribute_lines_to_string(&self.attribute),
             media_sections = self.media.iter().map(|s| s.to_string()).collect::<String>(),
         )
     }
diff --git a/src/media_type.rs b/src/media_type.rs
index 0560bca..5ac3276 100644
--- a/src/media_type.rs
+++ b/src/media_type.rs
@@ -4,7 +4,8 @@
 
 use anonymizer::{AnonymizingClone, StatefulSdpAnonymizer};
 use attribute_type::{
-    maybe_print_param, SdpAttribute, SdpAttributeRtpmap, SdpAttributeSctpmap, SdpAttributeType,
+    attribute_lines_to_string, maybe_print_param, SdpAttribute, SdpAttributeRtpmap,
+    SdpAttributeSctpmap, SdpAttributeType,
 };
 use error::{SdpParserError, SdpParserInternalError};
 use std::fmt;
@@ -142,7 +143,7 @@ impl fmt::Display for SdpMedia {
             mline = self.media,
             bw = maybe_vector_to_string!("b={}\r\n", self.bandwidth, "\r\nb="),
             connection = option_to_string!("c={}\r\n", self.connection),
-            attributes = maybe_vector_to_string!("a={}\r\n", self.attribute, "\r\na=")
+            attributes = attribute_lines_to_string(&self.attribute)
         )
     }
 }
-- 
2.43.0


From ffa1c82be35b6abd2347bce085fa0f664551f523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:09 +0000
Subject: [PATCH 07/11] fix: separate unknown fmtp parameters with a semicolon
 when printing

---
 src/attribute_type.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index 5dd8417..bcb0048 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -727,7 +727,7 @@ impl fmt::Display for SdpAttributeFmtpParameters {
                 maybe_print_bool_param("stereo", self.stereo, false),
                 maybe_print_bool_param("useinbandfec", self.useinbandfec, false),
                 maybe_print_bool_param("cbr", self.cbr, false),
-                maybe_vector_to_string!("{}", self.unknown_tokens, ",")
+                maybe_vector_to_string!("{}", self.unknown_tokens, ";")
             ]
             .join(";")
         )
-- 
2.43.0


From e76ce1194232c7cab7c52b7223fc21ec48b8cef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:09 +0000
Subject: [PATCH 08/11] fix: print all the parameters of an fmtp that carries
 an apt

---
 src/attribute_type.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index bcb0048..c391509 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -668,10 +668,6 @@ pub struct SdpAttributeFmtpParameters {
 
 impl fmt::Display for SdpAttributeFmtpParameters {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        if let Some(ref rtx) = self.rtx {
-            // rtx
-            return write!(f, "{rtx}");
-        }
         if !self.dtmf_tones.is_empty() {
             // telephone-event
             return write!(f, "{}", self.dtmf_tones);
@@ -689,6 +685,7 @@ impl fmt::Display for SdpAttributeFmtpParameters {
             f,
             "{}",
             non_empty_string_vec![
+                option_to_string!("{}", self.rtx),
                 maybe_print_param(
                     "profile-level-id=",
                     format!("{:06x}", self.profile_level_id),
-- 
2.43.0


From 8a00bd18de3d7651263723cf6ce85a861311bfe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:09 +0000
Subject: [PATCH 09/11] fix: check the rids of every simulcast attribute of a
 media section

---
 src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3ee1224..84f7820 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -743,8 +743,13 @@ fn sanity_check_sdp_session(session: &SdpSession) -> Result<(), SdpParserError>
             }
         }
 
-        if let Some(SdpAttribute::Simulcast(simulcast)) =
-            msection.get_attribute(SdpAttributeType::Simulcast)
+        for simulcast in msection
+            .get_attributes()
+            .iter()
+            .filter_map(|attr| match *attr {
+                SdpAttribute::Simulcast(ref simulcast) => Some(simulcast),
+                _ => None,
+            })
         {
             let check_defined_rids =
                 |simulcast_version_list: &Vec<SdpAttributeSimulcastVersion>,
-- 
2.43.0


From caff11cf6edd96295abfc0edd474622991525603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:09 +0000
Subject: [PATCH 10/11] fix: recognize fmtp parameters that follow a semicolon
 and a blank

RFC 7587 and others separate parameters with "; ".
---
 src/attribute_type.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index c391509..0e55169 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -2175,6 +2175,7 @@ fn parse_fmtp(to_parse: &str) -> Result<SdpAttribute, SdpParserInternalError> {
             // Permit Leading/Trailing/Inner ';' by filtering out empty splits
             let parameter_tokens: Vec<&str> = parameter_token
                 .split(';')
+                .map(str::trim)
                 .filter(|token| !token.is_empty())
                 .collect();
             for parameter_token in parameter_tokens.iter() {
-- 
2.43.0


From dde203f97cbdf4c97379b334f4a0c0ab7bd34636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:09 +0000
Subject: [PATCH 11/11] fix: accept descriptions shorter than 51 bytes

A session without a connection can be complete with less, and was printed
as text that the parser refused to read back.
---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 84f7820..83f45b5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -835,8 +835,8 @@ pub fn parse_sdp(sdp: &str, fail_on_warning: bool) -> Result<SdpSession, SdpPars
             line_number: 0,
         });
     }
-    // see test_parse_sdp_minimal_sdp_successfully
-    if sdp.len() < 51 {
+    // The length of "v=0\no=- 0 0 IN IP4 a\ns=\nt=0 0"
+    if sdp.len() < 29 {
         return Err(SdpParserError::Line {
             error: SdpParserInternalError::Generic("string too short to be valid SDP".to_string()),
             line: sdp.to_string(),
-- 
2.43.0

