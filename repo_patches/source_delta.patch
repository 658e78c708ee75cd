From be12b534e777ef3d1322505493023b6e49f98352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:26 +0000
Subject: [PATCH 01/16] fix: mask the connection address of a media section

---
 src/media_type.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/media_type.rs b/src/media_type.rs
index 91a11c6..0560bca 100644
--- a/src/media_type.rs
+++ b/src/media_type.rs
@@ -300,7 +300,7 @@ impl AnonymizingClone for SdpMedia {
         let mut masked = SdpMedia {
             media: self.media.clone(),
             bandwidth: self.bandwidth.clone(),
-            connection: self.connection.clone(),
+            connection: self.connection.as_ref().map(|con| con.masked_clone(anon)),
             attribute: Vec::new(),
         };
         for i in &self.attribute {
-- 
2.43.0


From 9adac17de7105f04aca3927741be88dc26077f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:27 +0000
Subject: [PATCH 02/16] fix: keep the media sections when masking a session

---
 src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 967ab22..c2bb806 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -391,6 +391,9 @@ impl AnonymizingClone for SdpSession {
         for i in &self.attribute {
             masked.attribute.push(i.masked_clone(anon));
         }
+        for i in &self.media {
+            masked.media.push(i.masked_clone(anon));
+        }
         masked
     }
 }
-- 
2.43.0


From 9877ce443678498025ec9c3959cc6f6c63181473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:27 +0000
Subject: [PATCH 03/16] fix: mask the unicast address of the rtcp attribute

---
 src/attribute_type.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index b3de496..bc4b074 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -463,6 +463,17 @@ impl fmt::Display for SdpAttributeRtcp {
     }
 }
 
+impl AnonymizingClone for SdpAttributeRtcp {
+    fn masked_clone(&self, anon: &mut StatefulSdpAnonymizer) -> Self {
+        let mut masked = self.clone();
+        masked.unicast_addr = self
+            .unicast_addr
+            .as_ref()
+            .map(|addr| anon.mask_typed_address(addr));
+        masked
+    }
+}
+
 #[derive(Clone)]
 #[cfg_attr(feature = "serialize", derive(Serialize))]
 #[cfg_attr(feature = "enhanced_debug", derive(Debug))]
@@ -1581,6 +1592,7 @@ impl AnonymizingClone for SdpAttribute {
             SdpAttribute::IcePwd(i) => SdpAttribute::IcePwd(anon.mask_ice_password(i)),
             SdpAttribute::IceUfrag(i) => SdpAttribute::IceUfrag(anon.mask_ice_user(i)),
             SdpAttribute::RemoteCandidate(i) => SdpAttribute::RemoteCandidate(i.masked_clone(anon)),
+            SdpAttribute::Rtcp(i) => SdpAttribute::Rtcp(i.masked_clone(anon)),
             SdpAttribute::Ssrc(i) => SdpAttribute::Ssrc(i.masked_clone(anon)),
             _ => self.clone(),
         }
-- 
2.43.0


From 2062e183500a1125af9727efa6b01ef020f2dca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:27 +0000
Subject: [PATCH 04/16] fix: mask the ufrag extension of a candidate

---
 src/attribute_type.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index bc4b074..77c0e46 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -298,6 +298,10 @@ impl AnonymizingClone for SdpAttributeCandidate {
             .clone()
             .map(|addr| anonymizer.mask_address(&addr));
         masked.rport = self.rport.map(|port| anonymizer.mask_port(port));
+        masked.ufrag = self
+            .ufrag
+            .as_ref()
+            .map(|ufrag| anonymizer.mask_ice_user(ufrag));
         masked
     }
 }
-- 
2.43.0


From 138d6a9bd14703e2290401cbee51a530621fbc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:27 +0000
Subject: [PATCH 05/16] fix: encode every byte of the masked fingerprint
 counter

---
 src/anonymizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/anonymizer.rs b/src/anonymizer.rs
index a3d4d50..ce23a43 100644
--- a/src/anonymizer.rs
+++ b/src/anonymizer.rs
@@ -22,7 +22,7 @@ impl ToBytesVec for u64 {
         let mut val = *self;
         for _ in 0..8 {
             bytes.push(val as u8);
-            val <<= 8;
+            val >>= 8;
         }
         bytes.reverse();
         bytes
-- 
2.43.0


From cf617f1aed314ff0afd30ae2d0ca2a1b31af1d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:27 +0000
Subject: [PATCH 06/16] fix: reject NaN in ordered imageattr ranges

---
 src/attribute_type.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index 77c0e46..b372ce0 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -2599,7 +2599,7 @@ fn parse_image_attr_set(
         let min = minmax_pair[0].parse::<f32>()?;
         let max = minmax_pair[1].parse::<f32>()?;
 
-        if min >= max {
+        if min.partial_cmp(&max) != Some(std::cmp::Ordering::Less) {
             return Err(SdpParserInternalError::Generic(
                 "In imageattr's par and sar ranges, first must be < than the second".to_string(),
             ));
@@ -2638,7 +2638,7 @@ fn parse_image_attr_set(
                     // Check that all the values are ascending
                     let mut last_value = 0.0;
                     for value in &values {
-                        if last_value >= *value {
+                        if last_value.partial_cmp(value) != Some(std::cmp::Ordering::Less) {
                             return Err(SdpParserInternalError::Generic(
                                 "imageattr's sar discrete value list must contain ascending values"
                                     .to_string(),
-- 
2.43.0


From 43d8f212611542c44b8b3599e4a5048c683a147c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:27 +0000
Subject: [PATCH 07/16] fix: do not print an empty a= line

---
 src/attribute_type.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index b372ce0..5935bc0 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -40,16 +40,14 @@ macro_rules! write_option_string {
 #[macro_export]
 macro_rules! maybe_vector_to_string {
     ($fmt_str:expr, $vec:expr, $sep:expr) => {
-        match $vec.len() {
-            0 => "".to_string(),
-            _ => format!(
-                $fmt_str,
-                $vec.iter()
-                    .map(ToString::to_string)
-                    .filter(|s| !s.is_empty())
-                    .collect::<Vec<String>>()
-                    .join($sep)
-            ),
+        match $vec
+            .iter()
+            .map(ToString::to_string)
+            .filter(|s| !s.is_empty())
+            .collect::<Vec<String>>()
+        {
+            strings if strings.is_empty() => "".to_string(),
+            strings => format!($fmt_str, strings.join($sep)),
         }
     };
 }
-- 
2.43.0


From f8d4323f317339d172624ae3195eb5da916101e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:27 +0000
Subject: [PATCH 08/16] fix: separate unknown fmtp tokens with a semicolon

---
 src/attribute_type.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index 5935bc0..7ba93df 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -713,7 +713,7 @@ impl fmt::Display for SdpAttributeFmtpParameters {
                 maybe_print_bool_param("stereo", self.stereo, false),
                 maybe_print_bool_param("useinbandfec", self.useinbandfec, false),
                 maybe_print_bool_param("cbr", self.cbr, false),
-                maybe_vector_to_string!("{}", self.unknown_tokens, ",")
+                maybe_vector_to_string!("{}", self.unknown_tokens, ";")
             ]
             .join(";")
         )
-- 
2.43.0


From 1230f1e26b7180cb1acbde2b0bf5ee7f678cc2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:27 +0000
Subject: [PATCH 09/16] fix: return an error for an empty media section vector

---
 src/media_type.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/media_type.rs b/src/media_type.rs
index 0560bca..67a3b3e 100644
--- a/src/media_type.rs
+++ b/src/media_type.rs
@@ -409,6 +409,13 @@ pub fn parse_media(value: &str) -> Result<SdpType, SdpParserInternalError> {
 pub fn parse_media_vector(lines: &mut Vec<SdpLine>) -> Result<Vec<SdpMedia>, SdpParserError> {
     let mut media_sections: Vec<SdpMedia> = Vec::new();
 
+    if lines.is_empty() {
+        return Err(SdpParserError::Sequence {
+            message: "first line in media section needs to be a media line".to_string(),
+            line_number: 0,
+        });
+    }
+
     let media_line = lines.remove(0);
     let mut sdp_media = match media_line.sdp_type {
         SdpType::Media(v) => SdpMedia::new(v),
-- 
2.43.0


From 0bb2d3204a3f0ab1ea2dd7ad4f132bd39fc06cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:13 +0000
Subject: [PATCH 10/16] fix: print every fmtp parameter next to apt, tones and
 encodings

---
 src/attribute_type.rs | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index 7ba93df..109b690 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -654,23 +654,6 @@ pub struct SdpAttributeFmtpParameters {
 
 impl fmt::Display for SdpAttributeFmtpParameters {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        if let Some(ref rtx) = self.rtx {
-            // rtx
-            return write!(f, "{rtx}");
-        }
-        if !self.dtmf_tones.is_empty() {
-            // telephone-event
-            return write!(f, "{}", self.dtmf_tones);
-        } else if !self.encodings.is_empty() {
-            // red encodings
-            return self
-                .encodings
-                .iter()
-                .map(ToString::to_string)
-                .collect::<Vec<String>>()
-                .join("/")
-                .fmt(f);
-        };
         write!(
             f,
             "{}",
@@ -713,6 +696,19 @@ impl fmt::Display for SdpAttributeFmtpParameters {
                 maybe_print_bool_param("stereo", self.stereo, false),
                 maybe_print_bool_param("useinbandfec", self.useinbandfec, false),
                 maybe_print_bool_param("cbr", self.cbr, false),
+                // rtx
+                match self.rtx {
+                    Some(ref rtx) => rtx.to_string(),
+                    None => "".to_string(),
+                },
+                // telephone-event
+                self.dtmf_tones.clone(),
+                // red encodings
+                self.encodings
+                    .iter()
+                    .map(ToString::to_string)
+                    .collect::<Vec<String>>()
+                    .join("/"),
                 maybe_vector_to_string!("{}", self.unknown_tokens, ";")
             ]
             .join(";")
-- 
2.43.0


From 307248460bc994eef1b6397dca5af59016bd1201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:09 +0000
Subject: [PATCH 11/16] fix: recognise fingerprint hash names in any case

---
 src/attribute_type.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index 109b690..7f6aa79 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -752,14 +752,14 @@ pub enum SdpAttributeFingerprintHashType {
 
 impl SdpAttributeFingerprintHashType {
     pub fn try_from_name(name: &str) -> Result<Self, SdpParserInternalError> {
-        match name {
+        match name.to_lowercase().as_str() {
             "sha-1" => Ok(Self::Sha1),
             "sha-224" => Ok(Self::Sha224),
             "sha-256" => Ok(Self::Sha256),
             "sha-384" => Ok(Self::Sha384),
             "sha-512" => Ok(Self::Sha512),
-            unknown => Err(SdpParserInternalError::Unsupported(format!(
-                "fingerprint contains an unsupported hash algorithm '{unknown}'"
+            _ => Err(SdpParserInternalError::Unsupported(format!(
+                "fingerprint contains an unsupported hash algorithm '{name}'"
             ))),
         }
     }
-- 
2.43.0


From 7aa02465c3821b09f5b60750ac419abc93f5df92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:13 +0000
Subject: [PATCH 12/16] fix: reject unordered imageattr xy ranges

---
 src/attribute_type.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index 7f6aa79..0175c17 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -2513,23 +2513,32 @@ fn parse_image_attr_xyrange(
             // Range values
             let range_tokens: Vec<&str> = value_tokens.split(':').collect();
 
-            if range_tokens.len() == 3 {
-                Ok(SdpAttributeImageAttrXyRange::Range(
+            let (min, max, step) = if range_tokens.len() == 3 {
+                (
                     range_tokens[0].parse::<u32>()?,
                     range_tokens[2].parse::<u32>()?,
                     Some(range_tokens[1].parse::<u32>()?),
-                ))
+                )
             } else if range_tokens.len() == 2 {
-                Ok(SdpAttributeImageAttrXyRange::Range(
+                (
                     range_tokens[0].parse::<u32>()?,
                     range_tokens[1].parse::<u32>()?,
                     None,
-                ))
+                )
             } else {
-                Err(SdpParserInternalError::Generic(
+                return Err(SdpParserInternalError::Generic(
                     "imageattr's xyrange must contain 2 or 3 fields".to_string(),
-                ))
+                ));
+            };
+
+            if min >= max {
+                return Err(SdpParserInternalError::Generic(
+                    "In imageattr's xyrange the second value must be higher than the first"
+                        .to_string(),
+                ));
             }
+
+            Ok(SdpAttributeImageAttrXyRange::Range(min, max, step))
         } else {
             // Discrete values
             let values = value_tokens
-- 
2.43.0


From caed9757231dad62ad90a3bbdae4c42f668d8c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:10 +0000
Subject: [PATCH 13/16] fix: refuse a second session-level connection line

It silently replaced the first one; media sections already refuse it.
---
 src/lib.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index c2bb806..8a54ab4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -318,7 +318,16 @@ impl SdpSession {
                 }
                 SdpType::Bandwidth(b) => self.add_bandwidth(b),
                 SdpType::Timing(t) => self.set_timing(t),
-                SdpType::Connection(c) => self.set_connection(c),
+                SdpType::Connection(c) => {
+                    if self.connection.is_some() {
+                        return Err(SdpParserError::Sequence {
+                            message: "connection type already exists at session level".to_string(),
+                            line_number: line.line_number,
+                        });
+                    }
+
+                    self.set_connection(c)
+                }
 
                 SdpType::Origin(_) | SdpType::Session(_) | SdpType::Version(_) => {
                     return Err(SdpParserError::Sequence {
-- 
2.43.0


From 6258cb7269990b2c6aedd43f774ff73c126903e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:30 +0000
Subject: [PATCH 14/16] fix: check the rids of every simulcast attribute

Only the first simulcast attribute of a media section was checked.
---
 src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8a54ab4..8164f7f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -752,8 +752,13 @@ fn sanity_check_sdp_session(session: &SdpSession) -> Result<(), SdpParserError>
             }
         }
 
-        if let Some(SdpAttribute::Simulcast(simulcast)) =
-            msection.get_attribute(SdpAttributeType::Simulcast)
+        for simulcast in msection
+            .get_attributes()
+            .iter()
+            .filter_map(|attr| match *attr {
+                SdpAttribute::Simulcast(ref simulcast) => Some(simulcast),
+                _ => None,
+            })
         {
             let check_defined_rids =
                 |simulcast_version_list: &Vec<SdpAttributeSimulcastVersion>,
-- 
2.43.0


From ff0904ce50a7f80208f7c9e5a6a2cc3bc61dded7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:22 +0000
Subject: [PATCH 15/16] fix: trim the blanks around fmtp parameters

RFC 7587 and others write the parameters with a blank after the semicolon;
such a parameter ended up among the unknown ones.
---
 src/attribute_type.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/attribute_type.rs b/src/attribute_type.rs
index 0175c17..a34895e 100644
--- a/src/attribute_type.rs
+++ b/src/attribute_type.rs
@@ -2160,6 +2160,7 @@ fn parse_fmtp(to_parse: &str) -> Result<SdpAttribute, SdpParserInternalError> {
             // Permit Leading/Trailing/Inner ';' by filtering out empty splits
             let parameter_tokens: Vec<&str> = parameter_token
                 .split(';')
+                .map(str::trim)
                 .filter(|token| !token.is_empty())
                 .collect();
             for parameter_token in parameter_tokens.iter() {
-- 
2.43.0


From 34df90382fd7d62063f0ffa5f21ffab2cc3a9e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:28 +0000
Subject: [PATCH 16/16] fix: read the number after an IPv6 connection address
 as the address count

RFC 8866 5.7: IPv6 multicast does not use TTL scoping, c=IN IP6 FF15::101/3
stands for three addresses; the 3 was stored as the TTL.
---
 src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8164f7f..58b30c1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -23,7 +23,7 @@ pub mod error;
 pub mod media_type;
 pub mod network;
 
-use address::{AddressTyped, ExplicitlyTypedAddress};
+use address::{AddressType, AddressTyped, ExplicitlyTypedAddress};
 use anonymizer::{AnonymizingClone, StatefulSdpAnonymizer};
 use attribute_type::{
     parse_attribute, SdpAttribute, SdpAttributeRid, SdpAttributeSimulcastVersion, SdpAttributeType,
@@ -508,7 +508,12 @@ fn parse_connection(value: &str) -> Result<SdpType, SdpParserInternalError> {
         if addr_tokens.len() >= 3 {
             amount = Some(addr_tokens[2].parse::<u32>()?);
         }
-        ttl = Some(addr_tokens[1].parse::<u8>()?);
+        if addrtype == AddressType::IpV6 && addr_tokens.len() == 2 {
+            // IPv6 multicast has no TTL, the number counts the addresses
+            amount = Some(addr_tokens[1].parse::<u32>()?);
+        } else {
+            ttl = Some(addr_tokens[1].parse::<u8>()?);
+        }
         addr_token = addr_tokens[0];
     }
     let address = ExplicitlyTypedAddress::try_from((addrtype, addr_token))?;
-- 
2.43.0

