From 0fee13a4ae7906d84b4a4d0721145540d68d472f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:28 +0000
Subject: [PATCH 01/44] fix: header value iterators report a correct size_hint
 upper bound

---
 src/headers/values.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/headers/values.rs b/src/headers/values.rs
index 810c051..dffa4d4 100644
--- a/src/headers/values.rs
+++ b/src/headers/values.rs
@@ -64,9 +64,15 @@ impl<'a> Iterator for Values<'a> {
 
     #[inline]
     fn size_hint(&self) -> (usize, Option<usize>) {
-        match self.inner.as_ref() {
-            Some(inner) => inner.size_hint(),
-            None => (0, None),
+        // Every remaining name can hold any number of values, so only the values in the current
+        // slot are certain.
+        let slot = match self.slot {
+            Some(values) => values.inner.len() - self.cursor,
+            None => 0,
+        };
+        match self.inner {
+            Some(_) => (slot, None),
+            None => (slot, Some(slot)),
         }
     }
 }
-- 
2.43.0


From 63bb6c7eeb334d8a003997c8c8b643b174034a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:42 +0000
Subject: [PATCH 02/44] fix: inserting an empty list of header values no longer
 stores a header without values

---
 src/headers/headers.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/headers/headers.rs b/src/headers/headers.rs
index a7a9d90..92d143f 100644
--- a/src/headers/headers.rs
+++ b/src/headers/headers.rs
@@ -52,6 +52,11 @@ impl Headers {
     ) -> crate::Result<Option<HeaderValues>> {
         let name = name.into();
         let values: HeaderValues = values.to_header_values()?.collect();
+        // A stored header always has at least one value: replacing all of a header's values with
+        // none leaves the header absent.
+        if values.inner.is_empty() {
+            return Ok(self.headers.remove(&name));
+        }
         Ok(self.headers.insert(name, values))
     }
 
-- 
2.43.0


From b16663cef1c2fce78c4f20716aada66a81d0a991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:46 +0000
Subject: [PATCH 03/44] fix: an unterminated quoted media type parameter
 consumes the rest of the input

---
 src/mime/parse.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mime/parse.rs b/src/mime/parse.rs
index f2ec569..7dc3abc 100644
--- a/src/mime/parse.rs
+++ b/src/mime/parse.rs
@@ -198,6 +198,7 @@ fn collect_http_quoted_string(mut input: &str) -> (String, &str) {
             }
         } else {
             // 2
+            input = new_input;
             break;
         }
     }
-- 
2.43.0


From 2e24ede1b1f94f0799dee977d6f8767fa7a73b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:46 +0000
Subject: [PATCH 04/44] fix: the first charset parameter of a media type wins,
 also when a later one is utf-8

---
 src/mime/parse.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/mime/parse.rs b/src/mime/parse.rs
index 7dc3abc..ac678eb 100644
--- a/src/mime/parse.rs
+++ b/src/mime/parse.rs
@@ -93,7 +93,15 @@ pub(crate) fn parse(input: &str) -> crate::Result<Mime> {
         };
 
         // 10.
-        if parameter_name == "charset" && parameter_value == "utf-8" {
+        if parameter_name == "charset" && is_utf8 {
+            // The first `charset` parameter wins.
+            continue;
+        } else if parameter_name == "charset"
+            && parameter_value == "utf-8"
+            && !params
+                .iter()
+                .any(|(k, _): &(ParamName, ParamValue)| k.as_str() == "charset")
+        {
             is_utf8 = true;
         } else if !parameter_name.is_empty()
             && parameter_name.chars().all(is_http_token_code_point)
-- 
2.43.0


From a6e5824400d06589e56866dcb52b6d3e091c9b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:46 +0000
Subject: [PATCH 05/44] fix: Mime::subset_eq takes a utf-8 charset of the other
 media type into account

---
 src/mime/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mime/mod.rs b/src/mime/mod.rs
index f416de3..b9d7b90 100644
--- a/src/mime/mod.rs
+++ b/src/mime/mod.rs
@@ -153,6 +153,9 @@ impl Mime {
         if other.subtype() != "*" && self.subtype() != other.subtype() {
             return false;
         }
+        if other.is_utf8 && !self.is_utf8 {
+            return false;
+        }
         for (name, value) in other.params.iter() {
             if !self
                 .param(name.clone())
-- 
2.43.0


From 5e297adc13e9e0960c1d93671130f04579e19523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:27 +0000
Subject: [PATCH 06/44] fix: reading a body into a string no longer allocates
 an unbounded declared length up front

---
 src/body.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/body.rs b/src/body.rs
index ac1acfc..e3dd599 100644
--- a/src/body.rs
+++ b/src/body.rs
@@ -226,7 +226,9 @@ impl Body {
     /// ```
     pub async fn into_string(mut self) -> crate::Result<String> {
         let len = usize::try_from(self.len().unwrap_or(0)).status(StatusCode::PayloadTooLarge)?;
-        let mut result = String::with_capacity(len);
+        // The declared length is not necessarily the real one: don't allocate more than this
+        // before having seen any content.
+        let mut result = String::with_capacity(len.min(64 * 1024));
         self.read_to_string(&mut result)
             .await
             .status(StatusCode::UnprocessableEntity)?;
-- 
2.43.0


From a689601e72183af04132fd149a74e8c34174efd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:05 +0000
Subject: [PATCH 07/44] fix: buffered reads of a body respect its length and
 count the bytes consumed

---
 src/body.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/body.rs b/src/body.rs
index e3dd599..8af9186 100644
--- a/src/body.rs
+++ b/src/body.rs
@@ -606,10 +606,26 @@ impl AsyncRead for Body {
 impl AsyncBufRead for Body {
     #[allow(rustdoc::missing_doc_code_examples)]
     fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&'_ [u8]>> {
-        self.project().reader.poll_fill_buf(cx)
+        let this = self.project();
+        let remaining = this.length.map(|length| length - *this.bytes_read);
+        if remaining == Some(0) {
+            return Poll::Ready(Ok(&[]));
+        }
+
+        let buf = ready!(this.reader.poll_fill_buf(cx))?;
+        match remaining {
+            // Compute `min` using u64, then truncate back to usize. Since
+            // buf.len() is a usize, this can never overflow.
+            Some(remaining) => {
+                let max_len = remaining.min(buf.len() as u64) as usize;
+                Poll::Ready(Ok(&buf[..max_len]))
+            }
+            None => Poll::Ready(Ok(buf)),
+        }
     }
 
     fn consume(mut self: Pin<&mut Self>, amt: usize) {
+        self.bytes_read += amt as u64;
         Pin::new(&mut self.reader).consume(amt)
     }
 }
-- 
2.43.0


From 264870f61a406d2e7ea93e2c1538f984fb264858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:34 +0000
Subject: [PATCH 08/44] fix: an RFC 850 date needs a space between the date and
 the time

---
 src/utils/date.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/date.rs b/src/utils/date.rs
index 7f9f382..15c033c 100644
--- a/src/utils/date.rs
+++ b/src/utils/date.rs
@@ -134,7 +134,7 @@ fn parse_rfc850_date(s: &[u8]) -> crate::Result<HttpDate> {
         .or_else(|| week_day(s, 6, b"Saturday, "))
         .or_else(|| week_day(s, 7, b"Sunday, "))
         .ok_or_else(|| format_err!("Invalid day"))?;
-    if s.len() != 22 || s[12] != b':' || s[15] != b':' || &s[18..22] != b" GMT" {
+    if s.len() != 22 || s[9] != b' ' || s[12] != b':' || s[15] != b':' || &s[18..22] != b" GMT" {
         bail!("Date time not in rfc950 fmt");
     }
     let mut year = from_utf8(&s[7..9])?.parse::<u16>()?;
-- 
2.43.0


From ec286c93b73e1ac4e9b98eb015920ee0c5248a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:25 +0000
Subject: [PATCH 09/44] fix: Age keeps the exact number of seconds, and no
 number of seconds makes it panic

---
 src/cache/age.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cache/age.rs b/src/cache/age.rs
index 0ee78a0..1da4833 100644
--- a/src/cache/age.rs
+++ b/src/cache/age.rs
@@ -63,7 +63,7 @@ impl Age {
         let header = headers.iter().last().unwrap();
 
         let num: u64 = header.as_str().parse::<u64>().status(400)?;
-        let dur = Duration::from_secs_f64(num as f64);
+        let dur = Duration::from_secs(num);
 
         Ok(Some(Self { dur }))
     }
-- 
2.43.0


From 9f4a762f7e00e20192bd522b24b1b18f9c49bc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:25 +0000
Subject: [PATCH 10/44] fix: the shared max-age directive is written as
 s-maxage, as it is parsed

---
 src/cache/cache_control/cache_directive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cache/cache_control/cache_directive.rs b/src/cache/cache_control/cache_directive.rs
index 5e8b0b9..f8f12a0 100644
--- a/src/cache/cache_control/cache_directive.rs
+++ b/src/cache/cache_control/cache_directive.rs
@@ -148,7 +148,7 @@ impl From<CacheDirective> for HeaderValue {
             Private => h("private".to_string()),
             ProxyRevalidate => h("proxy-revalidate".to_string()),
             Public => h("public".to_string()),
-            SMaxAge(dur) => h(format!("s-max-age={}", dur.as_secs())),
+            SMaxAge(dur) => h(format!("s-maxage={}", dur.as_secs())),
             StaleIfError(dur) => h(format!("stale-if-error={}", dur.as_secs())),
             StaleWhileRevalidate(dur) => h(format!("stale-while-revalidate={}", dur.as_secs())),
         }
-- 
2.43.0


From cfebeb731682cb770906bc04d71315d2d625eb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:25 +0000
Subject: [PATCH 11/44] fix: an unknown Clear-Site-Data directive is an error
 instead of a panic, and empty ones are skipped

---
 src/cache/clear_site_data/directive.rs | 9 +++++++--
 src/cache/clear_site_data/mod.rs       | 4 +++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/cache/clear_site_data/directive.rs b/src/cache/clear_site_data/directive.rs
index b178027..58f0f23 100644
--- a/src/cache/clear_site_data/directive.rs
+++ b/src/cache/clear_site_data/directive.rs
@@ -1,3 +1,5 @@
+use crate::{Error, StatusCode};
+
 use std::fmt::Display;
 use std::str::FromStr;
 
@@ -45,7 +47,7 @@ impl Display for ClearDirective {
 }
 
 impl FromStr for ClearDirective {
-    type Err = std::string::ParseError;
+    type Err = Error;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         match s {
@@ -53,7 +55,10 @@ impl FromStr for ClearDirective {
             r#""cookies""# => Ok(Self::Cookies),
             r#""storage""# => Ok(Self::Storage),
             r#""executionContexts""# => Ok(Self::ExecutionContexts),
-            _ => todo!(),
+            _ => Err(Error::from_str(
+                StatusCode::BadRequest,
+                "Invalid Clear-Site-Data directive",
+            )),
         }
     }
 }
diff --git a/src/cache/clear_site_data/mod.rs b/src/cache/clear_site_data/mod.rs
index bb38ab8..c46cb5a 100644
--- a/src/cache/clear_site_data/mod.rs
+++ b/src/cache/clear_site_data/mod.rs
@@ -71,7 +71,9 @@ impl ClearSiteData {
         for value in header_values {
             for part in value.as_str().trim().split(',') {
                 let part = part.trim();
-                if part == r#""*""# {
+                if part.is_empty() {
+                    continue;
+                } else if part == r#""*""# {
                     wildcard = true;
                     continue;
                 }
-- 
2.43.0


From d661d5769bc05d31751ead7a18233b040befb99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:25 +0000
Subject: [PATCH 12/44] fix: empty elements of If-Match, If-None-Match, Vary
 and Allow lists are skipped

---
 src/conditional/if_match.rs      | 4 +++-
 src/conditional/if_none_match.rs | 4 +++-
 src/conditional/vary.rs          | 4 +++-
 src/server/allow.rs              | 6 +++++-
 4 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/conditional/if_match.rs b/src/conditional/if_match.rs
index 5f84c2b..2886a2a 100644
--- a/src/conditional/if_match.rs
+++ b/src/conditional/if_match.rs
@@ -62,7 +62,9 @@ impl IfMatch {
         for value in headers {
             for part in value.as_str().trim().split(',') {
                 let part = part.trim();
-                if part == "*" {
+                if part.is_empty() {
+                    continue;
+                } else if part == "*" {
                     wildcard = true;
                     continue;
                 }
diff --git a/src/conditional/if_none_match.rs b/src/conditional/if_none_match.rs
index b4b37af..bebbb37 100644
--- a/src/conditional/if_none_match.rs
+++ b/src/conditional/if_none_match.rs
@@ -68,7 +68,9 @@ impl IfNoneMatch {
         for value in headers {
             for part in value.as_str().trim().split(',') {
                 let part = part.trim();
-                if part == "*" {
+                if part.is_empty() {
+                    continue;
+                } else if part == "*" {
                     wildcard = true;
                     continue;
                 }
diff --git a/src/conditional/vary.rs b/src/conditional/vary.rs
index 9023811..b28c2fb 100644
--- a/src/conditional/vary.rs
+++ b/src/conditional/vary.rs
@@ -62,7 +62,9 @@ impl Vary {
         for value in headers {
             for part in value.as_str().trim().split(',') {
                 let part = part.trim();
-                if part == "*" {
+                if part.is_empty() {
+                    continue;
+                } else if part == "*" {
                     wildcard = true;
                     continue;
                 }
diff --git a/src/server/allow.rs b/src/server/allow.rs
index 9377a3f..bbe6938 100644
--- a/src/server/allow.rs
+++ b/src/server/allow.rs
@@ -58,7 +58,11 @@ impl Allow {
 
         for value in headers {
             for part in value.as_str().trim().split(',') {
-                let method = Method::from_str(part.trim())?;
+                let part = part.trim();
+                if part.is_empty() {
+                    continue;
+                }
+                let method = Method::from_str(part)?;
                 entries.insert(method);
             }
         }
-- 
2.43.0


From 1aa4eb8380a55a15d93f06d2729df8d56e8cc350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:38 +0000
Subject: [PATCH 13/44] fix: an unknown method in an Allow header is a 400, not
 a 500

---
 src/server/allow.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/server/allow.rs b/src/server/allow.rs
index bbe6938..f47c5f6 100644
--- a/src/server/allow.rs
+++ b/src/server/allow.rs
@@ -1,7 +1,7 @@
 //! List the set of methods supported by a resource.
 
 use crate::headers::{Header, HeaderName, HeaderValue, Headers, ALLOW};
-use crate::Method;
+use crate::{Method, Status};
 
 use std::collections::{hash_set, HashSet};
 use std::fmt::{self, Debug, Write};
@@ -62,7 +62,7 @@ impl Allow {
                 if part.is_empty() {
                     continue;
                 }
-                let method = Method::from_str(part)?;
+                let method = Method::from_str(part).status(400)?;
                 entries.insert(method);
             }
         }
-- 
2.43.0


From bdab20dafe8a5e0294ff78e7608d005320d34ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:59 +0000
Subject: [PATCH 14/44] fix: an unknown Content-Encoding or Transfer-Encoding
 is a 400 instead of a panic

---
 src/content/content_encoding.rs   | 3 ++-
 src/transfer/transfer_encoding.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/content/content_encoding.rs b/src/content/content_encoding.rs
index bbab123..f58a936 100644
--- a/src/content/content_encoding.rs
+++ b/src/content/content_encoding.rs
@@ -4,6 +4,7 @@ use crate::headers::{HeaderName, HeaderValue, Headers, CONTENT_ENCODING};
 use crate::{
     content::{Encoding, EncodingProposal},
     headers::Header,
+    Status,
 };
 
 use std::fmt::{self, Debug};
@@ -57,7 +58,7 @@ impl ContentEncoding {
             }
         }
 
-        let inner = inner.expect("Headers instance with no entries found");
+        let inner = inner.status(400)?;
         Ok(Some(Self { inner }))
     }
 
diff --git a/src/transfer/transfer_encoding.rs b/src/transfer/transfer_encoding.rs
index 7fede4a..df99f7c 100644
--- a/src/transfer/transfer_encoding.rs
+++ b/src/transfer/transfer_encoding.rs
@@ -1,5 +1,6 @@
 use crate::headers::{Header, HeaderName, HeaderValue, Headers, TRANSFER_ENCODING};
 use crate::transfer::{Encoding, EncodingProposal};
+use crate::Status;
 
 use std::fmt::{self, Debug};
 use std::ops::{Deref, DerefMut};
@@ -54,7 +55,7 @@ impl TransferEncoding {
             }
         }
 
-        let inner = inner.expect("Headers instance with no entries found");
+        let inner = inner.status(400)?;
         Ok(Some(Self { inner }))
     }
 
-- 
2.43.0


From 63d7dbb0b6e80ed47ff985bf716120172cb627b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:18 +0000
Subject: [PATCH 15/44] fix: weights in Accept, Accept-Encoding and TE may have
 whitespace before them, and malformed ones are a 400

---
 src/content/encoding_proposal.rs   |  3 ++-
 src/content/media_type_proposal.rs | 10 ++++++----
 src/transfer/encoding_proposal.rs  |  3 ++-
 src/utils/mod.rs                   |  4 ++--
 4 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/content/encoding_proposal.rs b/src/content/encoding_proposal.rs
index 7d32944..65c24dd 100644
--- a/src/content/encoding_proposal.rs
+++ b/src/content/encoding_proposal.rs
@@ -2,6 +2,7 @@ use crate::content::Encoding;
 use crate::ensure;
 use crate::headers::HeaderValue;
 use crate::utils::parse_weight;
+use crate::Status;
 
 use std::cmp::{Ordering, PartialEq};
 use std::ops::{Deref, DerefMut};
@@ -52,7 +53,7 @@ impl EncodingProposal {
         };
         let weight = parts.next().map(parse_weight).transpose()?;
 
-        Ok(Some(Self::new(encoding, weight)?))
+        Ok(Some(Self::new(encoding, weight).status(400)?))
     }
 }
 
diff --git a/src/content/media_type_proposal.rs b/src/content/media_type_proposal.rs
index 622558d..2be48bf 100644
--- a/src/content/media_type_proposal.rs
+++ b/src/content/media_type_proposal.rs
@@ -1,6 +1,7 @@
 use crate::ensure;
 use crate::headers::HeaderValue;
 use crate::mime::Mime;
+use crate::Status;
 
 use std::ops::{Deref, DerefMut};
 use std::{
@@ -58,12 +59,13 @@ impl MediaTypeProposal {
     /// we have to parse the full string to the media type first, and then see if
     /// a `q` value has been set.
     pub(crate) fn from_str(s: &str) -> crate::Result<Self> {
-        let mut media_type = Mime::from_str(s)?;
+        let mut media_type = Mime::from_str(s).status(400)?;
         let weight = media_type
             .remove_param("q")
-            .map(|param| param.as_str().parse())
-            .transpose()?;
-        Self::new(media_type, weight)
+            .map(|param| param.as_str().parse::<f32>())
+            .transpose()
+            .status(400)?;
+        Self::new(media_type, weight).status(400)
     }
 }
 
diff --git a/src/transfer/encoding_proposal.rs b/src/transfer/encoding_proposal.rs
index 72f083d..7e6e032 100644
--- a/src/transfer/encoding_proposal.rs
+++ b/src/transfer/encoding_proposal.rs
@@ -2,6 +2,7 @@ use crate::ensure;
 use crate::headers::HeaderValue;
 use crate::transfer::Encoding;
 use crate::utils::parse_weight;
+use crate::Status;
 
 use std::cmp::{Ordering, PartialEq};
 use std::ops::{Deref, DerefMut};
@@ -54,7 +55,7 @@ impl EncodingProposal {
         };
         let weight = parts.next().map(parse_weight).transpose()?;
 
-        Ok(Some(Self::new(encoding, weight)?))
+        Ok(Some(Self::new(encoding, weight).status(400)?))
     }
 }
 
diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 9c9ea92..879753f 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -11,8 +11,8 @@ use std::str::FromStr;
 
 /// Parse a weight of the form `q=0.123`.
 pub(crate) fn parse_weight(s: &str) -> crate::Result<f32> {
-    let mut parts = s.split('=');
-    if !matches!(parts.next(), Some("q")) {
+    let mut parts = s.trim().split('=');
+    if !matches!(parts.next(), Some("q") | Some("Q")) {
         let mut err = Error::new_adhoc("invalid weight");
         err.set_status(StatusCode::BadRequest);
         return Err(err);
-- 
2.43.0


From 19cdd25fc7b6cdfab8ae5930876ee819e8e2a00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:43 +0000
Subject: [PATCH 16/44] fix: ETags in If-Match and If-None-Match may contain
 commas

---
 src/conditional/etag.rs          | 9 +++++++++
 src/conditional/if_match.rs      | 2 +-
 src/conditional/if_none_match.rs | 2 +-
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/conditional/etag.rs b/src/conditional/etag.rs
index c7245f8..20f0bf4 100644
--- a/src/conditional/etag.rs
+++ b/src/conditional/etag.rs
@@ -76,6 +76,15 @@ impl ETag {
         matches!(self, Self::Weak(_))
     }
 
+    /// Split a list of ETags on its commas, leaving commas inside ETags alone.
+    pub(crate) fn split_list(s: &str) -> impl Iterator<Item = &str> {
+        let mut quoted = false;
+        s.split(move |c| {
+            quoted ^= c == '"';
+            c == ',' && !quoted
+        })
+    }
+
     /// Create an Etag from a string.
     pub(crate) fn from_str(s: &str) -> crate::Result<Self> {
         let mut weak = false;
diff --git a/src/conditional/if_match.rs b/src/conditional/if_match.rs
index 2886a2a..8fbbbea 100644
--- a/src/conditional/if_match.rs
+++ b/src/conditional/if_match.rs
@@ -60,7 +60,7 @@ impl IfMatch {
 
         let mut wildcard = false;
         for value in headers {
-            for part in value.as_str().trim().split(',') {
+            for part in ETag::split_list(value.as_str()) {
                 let part = part.trim();
                 if part.is_empty() {
                     continue;
diff --git a/src/conditional/if_none_match.rs b/src/conditional/if_none_match.rs
index bebbb37..c3c9d98 100644
--- a/src/conditional/if_none_match.rs
+++ b/src/conditional/if_none_match.rs
@@ -66,7 +66,7 @@ impl IfNoneMatch {
 
         let mut wildcard = false;
         for value in headers {
-            for part in value.as_str().trim().split(',') {
+            for part in ETag::split_list(value.as_str()) {
                 let part = part.trim();
                 if part.is_empty() {
                     continue;
-- 
2.43.0


From 28e8f69c0f637cc8bfec0eef568d5cb364f99502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:49 +0000
Subject: [PATCH 17/44] fix: parameters of media types in Accept may contain
 quoted commas

---
 src/content/accept.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/content/accept.rs b/src/content/accept.rs
index 87dad90..258d6ed 100644
--- a/src/content/accept.rs
+++ b/src/content/accept.rs
@@ -73,7 +73,15 @@ impl Accept {
         let mut wildcard = false;
 
         for value in headers {
-            for part in value.as_str().trim().split(',') {
+            // Commas inside quoted parameter values don't separate entries.
+            let (mut quoted, mut escaped) = (false, false);
+            let parts = value.as_str().split(|c| {
+                quoted ^= c == '"' && !escaped;
+                escaped = c == '\\' && quoted && !escaped;
+                c == ',' && !quoted
+            });
+
+            for part in parts {
                 let part = part.trim();
 
                 // Handle empty strings, and wildcard directives.
-- 
2.43.0


From f10696729486f7eb57291592025878a431b621da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:15 +0000
Subject: [PATCH 18/44] fix: negotiating an encoding or media type twice gives
 the same answer

---
 src/content/accept.rs          | 7 ++++---
 src/content/accept_encoding.rs | 7 ++++---
 src/transfer/te.rs             | 7 ++++---
 3 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/content/accept.rs b/src/content/accept.rs
index 258d6ed..4a584f7 100644
--- a/src/content/accept.rs
+++ b/src/content/accept.rs
@@ -132,11 +132,12 @@ impl Accept {
     ///
     /// If no suitable encoding is found, an error with the status of `406` will be returned.
     pub fn negotiate(&mut self, available: &[Mime]) -> crate::Result<ContentType> {
-        // Start by ordering the encodings.
-        self.sort();
+        // Start by ordering the encodings, leaving the list itself in its declared order.
+        let mut entries = self.entries.clone();
+        sort_by_weight(&mut entries);
 
         // Try and find the first encoding that matches.
-        for accept in &self.entries {
+        for accept in &entries {
             if let Some(accept) = available.iter().find(|m| m.subset_eq(accept.media_type())) {
                 return Ok(accept.clone().into());
             }
diff --git a/src/content/accept_encoding.rs b/src/content/accept_encoding.rs
index 5c469a4..1f725e7 100644
--- a/src/content/accept_encoding.rs
+++ b/src/content/accept_encoding.rs
@@ -116,11 +116,12 @@ impl AcceptEncoding {
     ///
     /// If no suitable encoding is found, an error with the status of `406` will be returned.
     pub fn negotiate(&mut self, available: &[Encoding]) -> crate::Result<ContentEncoding> {
-        // Start by ordering the encodings.
-        self.sort();
+        // Start by ordering the encodings, leaving the list itself in its declared order.
+        let mut entries = self.entries.clone();
+        sort_by_weight(&mut entries);
 
         // Try and find the first encoding that matches.
-        for encoding in &self.entries {
+        for encoding in &entries {
             if available.contains(encoding) {
                 return Ok(encoding.into());
             }
diff --git a/src/transfer/te.rs b/src/transfer/te.rs
index acd1af8..76b5b92 100644
--- a/src/transfer/te.rs
+++ b/src/transfer/te.rs
@@ -114,11 +114,12 @@ impl TE {
     ///
     /// If no suitable encoding is found, an error with the status of `406` will be returned.
     pub fn negotiate(&mut self, available: &[Encoding]) -> crate::Result<TransferEncoding> {
-        // Start by ordering the encodings.
-        self.sort();
+        // Start by ordering the encodings, leaving the list itself in its declared order.
+        let mut entries = self.entries.clone();
+        sort_by_weight(&mut entries);
 
         // Try and find the first encoding that matches.
-        for encoding in &self.entries {
+        for encoding in &entries {
             if available.contains(encoding) {
                 return Ok(encoding.into());
             }
-- 
2.43.0


From e90a9cdece1c327620c5b06bf8bb235088774e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:22 +0000
Subject: [PATCH 19/44] fix: entries with a weight of zero are not acceptable
 when negotiating

---
 src/content/accept.rs          | 10 ++++++++--
 src/content/accept_encoding.rs |  7 +++++--
 src/transfer/te.rs             |  7 +++++--
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/content/accept.rs b/src/content/accept.rs
index 4a584f7..437fb7f 100644
--- a/src/content/accept.rs
+++ b/src/content/accept.rs
@@ -137,7 +137,8 @@ impl Accept {
         sort_by_weight(&mut entries);
 
         // Try and find the first encoding that matches.
-        for accept in &entries {
+        // A weight of zero means the media type is not acceptable.
+        for accept in entries.iter().filter(|e| e.weight() != Some(0.0)) {
             if let Some(accept) = available.iter().find(|m| m.subset_eq(accept.media_type())) {
                 return Ok(accept.clone().into());
             }
@@ -145,7 +146,12 @@ impl Accept {
 
         // If no encoding matches and wildcard is set, send whichever encoding we got.
         if self.wildcard {
-            if let Some(accept) = available.iter().next() {
+            let refused = |m: &&Mime| {
+                entries
+                    .iter()
+                    .any(|p| p.weight() == Some(0.0) && m.subset_eq(p.media_type()))
+            };
+            if let Some(accept) = available.iter().find(|m| !refused(m)) {
                 return Ok(accept.clone().into());
             }
         }
diff --git a/src/content/accept_encoding.rs b/src/content/accept_encoding.rs
index 1f725e7..ff290dd 100644
--- a/src/content/accept_encoding.rs
+++ b/src/content/accept_encoding.rs
@@ -121,7 +121,8 @@ impl AcceptEncoding {
         sort_by_weight(&mut entries);
 
         // Try and find the first encoding that matches.
-        for encoding in &entries {
+        // A weight of zero means the encoding is not acceptable.
+        for encoding in entries.iter().filter(|e| e.weight() != Some(0.0)) {
             if available.contains(encoding) {
                 return Ok(encoding.into());
             }
@@ -129,7 +130,9 @@ impl AcceptEncoding {
 
         // If no encoding matches and wildcard is set, send whichever encoding we got.
         if self.wildcard {
-            if let Some(encoding) = available.iter().next() {
+            let refused =
+                |e: &&Encoding| entries.iter().any(|p| p.weight() == Some(0.0) && p == *e);
+            if let Some(encoding) = available.iter().find(|e| !refused(e)) {
                 return Ok(encoding.into());
             }
         }
diff --git a/src/transfer/te.rs b/src/transfer/te.rs
index 76b5b92..c5f19b8 100644
--- a/src/transfer/te.rs
+++ b/src/transfer/te.rs
@@ -119,7 +119,8 @@ impl TE {
         sort_by_weight(&mut entries);
 
         // Try and find the first encoding that matches.
-        for encoding in &entries {
+        // A weight of zero means the encoding is not acceptable.
+        for encoding in entries.iter().filter(|e| e.weight() != Some(0.0)) {
             if available.contains(encoding) {
                 return Ok(encoding.into());
             }
@@ -127,7 +128,9 @@ impl TE {
 
         // If no encoding matches and wildcard is set, send whichever encoding we got.
         if self.wildcard {
-            if let Some(encoding) = available.iter().next() {
+            let refused =
+                |e: &&Encoding| entries.iter().any(|p| p.weight() == Some(0.0) && p == *e);
+            if let Some(encoding) = available.iter().find(|e| !refused(e)) {
                 return Ok(encoding.into());
             }
         }
-- 
2.43.0


From 168b31436ec28ce4701f943d7e0e416bf9a8b17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:03 +0000
Subject: [PATCH 20/44] fix: the immutable cache directive is valid in
 responses

---
 src/cache/cache_control/cache_directive.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cache/cache_control/cache_directive.rs b/src/cache/cache_control/cache_directive.rs
index f8f12a0..5d9ba52 100644
--- a/src/cache/cache_control/cache_directive.rs
+++ b/src/cache/cache_control/cache_directive.rs
@@ -58,7 +58,8 @@ impl CacheDirective {
         use CacheDirective::*;
         matches!(
             self,
-            MustRevalidate
+            Immutable
+                | MustRevalidate
                 | NoCache
                 | NoStore
                 | NoTransform
-- 
2.43.0


From 1cc88ed794e3acee5645f8092255dd16815b76ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:28 +0000
Subject: [PATCH 21/44] fix: wildcards in Accept, Accept-Encoding and TE may
 have a weight

---
 src/content/accept.rs          |  6 +++---
 src/content/accept_encoding.rs |  6 +++---
 src/transfer/te.rs             |  6 +++---
 src/utils/mod.rs               | 11 +++++++++++
 4 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/content/accept.rs b/src/content/accept.rs
index 437fb7f..cd073df 100644
--- a/src/content/accept.rs
+++ b/src/content/accept.rs
@@ -2,7 +2,7 @@
 
 use crate::headers::{HeaderName, HeaderValue, Headers, ACCEPT};
 use crate::mime::Mime;
-use crate::utils::sort_by_weight;
+use crate::utils::{parse_wildcard, sort_by_weight};
 use crate::{
     content::{ContentType, MediaTypeProposal},
     headers::Header,
@@ -87,8 +87,8 @@ impl Accept {
                 // Handle empty strings, and wildcard directives.
                 if part.is_empty() {
                     continue;
-                } else if part == "*" {
-                    wildcard = true;
+                } else if let Some(allowed) = parse_wildcard(part)? {
+                    wildcard = allowed;
                     continue;
                 }
 
diff --git a/src/content/accept_encoding.rs b/src/content/accept_encoding.rs
index ff290dd..4c90e3a 100644
--- a/src/content/accept_encoding.rs
+++ b/src/content/accept_encoding.rs
@@ -1,7 +1,7 @@
 //! Client header advertising available compression algorithms.
 
 use crate::headers::{HeaderName, HeaderValue, Headers, ACCEPT_ENCODING};
-use crate::utils::sort_by_weight;
+use crate::utils::{parse_wildcard, sort_by_weight};
 use crate::{
     content::{ContentEncoding, Encoding, EncodingProposal},
     headers::Header,
@@ -70,8 +70,8 @@ impl AcceptEncoding {
                 // Handle empty strings, and wildcard directives.
                 if part.is_empty() {
                     continue;
-                } else if part == "*" {
-                    wildcard = true;
+                } else if let Some(allowed) = parse_wildcard(part)? {
+                    wildcard = allowed;
                     continue;
                 }
 
diff --git a/src/transfer/te.rs b/src/transfer/te.rs
index c5f19b8..877f9f2 100644
--- a/src/transfer/te.rs
+++ b/src/transfer/te.rs
@@ -1,6 +1,6 @@
 use crate::headers::{self, Header, HeaderName, HeaderValue, Headers};
 use crate::transfer::{Encoding, EncodingProposal, TransferEncoding};
-use crate::utils::sort_by_weight;
+use crate::utils::{parse_wildcard, sort_by_weight};
 use crate::{Error, StatusCode};
 
 use std::fmt::{self, Debug, Write};
@@ -68,8 +68,8 @@ impl TE {
                 // Handle empty strings, and wildcard directives.
                 if part.is_empty() {
                     continue;
-                } else if part == "*" {
-                    wildcard = true;
+                } else if let Some(allowed) = parse_wildcard(part)? {
+                    wildcard = allowed;
                     continue;
                 }
 
diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 879753f..7a51322 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -30,6 +30,17 @@ pub(crate) fn parse_weight(s: &str) -> crate::Result<f32> {
     }
 }
 
+/// Parse a wildcard of the form `*` or `*;q=0.123`. Returns `None` if this is not a wildcard, and
+/// otherwise whether its weight is larger than zero.
+pub(crate) fn parse_wildcard(s: &str) -> crate::Result<Option<bool>> {
+    let mut parts = s.split(';');
+    if parts.next().map(|s| s.trim()) != Some("*") {
+        return Ok(None);
+    }
+    let weight = parts.next().map(parse_weight).transpose()?;
+    Ok(Some(weight.map_or(true, |weight| weight > 0.0)))
+}
+
 /// Order proposals by weight. Try ordering by q value first. If equal or undefined,
 /// order by index, favoring the latest provided value.
 pub(crate) fn sort_by_weight<T: PartialOrd + Clone>(props: &mut Vec<T>) {
-- 
2.43.0


From e99782d98c0bf6497f2536caed8e396496fd6452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:13 +0000
Subject: [PATCH 22/44] fix: a weight with a second equals sign is malformed

---
 src/utils/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 7a51322..cf05cf1 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -11,7 +11,7 @@ use std::str::FromStr;
 
 /// Parse a weight of the form `q=0.123`.
 pub(crate) fn parse_weight(s: &str) -> crate::Result<f32> {
-    let mut parts = s.trim().split('=');
+    let mut parts = s.trim().splitn(2, '=');
     if !matches!(parts.next(), Some("q") | Some("Q")) {
         let mut err = Error::new_adhoc("invalid weight");
         err.set_status(StatusCode::BadRequest);
-- 
2.43.0


From 28857ab584e0a3b688548c17c8dfb2aa115cfe91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:33 +0000
Subject: [PATCH 23/44] fix: Forwarded no longer panics on a short or non-ASCII
 element after a comma

---
 src/proxies/forwarded.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/proxies/forwarded.rs b/src/proxies/forwarded.rs
index 30e491b..2bbfc11 100644
--- a/src/proxies/forwarded.rs
+++ b/src/proxies/forwarded.rs
@@ -420,20 +420,17 @@ fn format_value(input: &str) -> Cow<'_, str> {
 }
 
 fn match_ignore_case<'a>(start: &'static str, input: &'a str) -> (bool, &'a str) {
-    let len = start.len();
-    if input[..len].eq_ignore_ascii_case(start) {
-        (true, &input[len..])
+    if starts_with_ignore_case(start, input) {
+        (true, &input[start.len()..])
     } else {
         (false, input)
     }
 }
 
 fn starts_with_ignore_case(start: &'static str, input: &str) -> bool {
-    if start.len() <= input.len() {
-        let len = start.len();
-        input[..len].eq_ignore_ascii_case(start)
-    } else {
-        false
+    match input.get(..start.len()) {
+        Some(prefix) => prefix.eq_ignore_ascii_case(start),
+        None => false,
     }
 }
 
-- 
2.43.0


From e724ca648076b2b8c57ee3fd0690cfbcac9453c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:34 +0000
Subject: [PATCH 24/44] fix: quoted strings may contain exclamation marks, and
 non-ASCII characters are not mistaken for quotes

---
 src/parse_utils.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/parse_utils.rs b/src/parse_utils.rs
index a2dc235..d51a0a2 100644
--- a/src/parse_utils.rs
+++ b/src/parse_utils.rs
@@ -44,7 +44,7 @@ fn tchar(c: char) -> bool {
 
 /// https://tools.ietf.org/html/rfc7230#section-3.2.6
 fn vchar(c: char) -> bool {
-    matches!(c as u8, b'\t' | 32..=126 | 128..=255)
+    matches!(c, '\t' | ' '..='~') || !c.is_ascii()
 }
 
 /// https://tools.ietf.org/html/rfc7230#section-3.2.6
@@ -65,20 +65,21 @@ pub(crate) fn parse_quoted_string(input: &str) -> (Option<Cow<'_, str>>, &str) {
             }
         // otherwise, we skip over this character while parsing
         } else {
-            match c as u8 {
+            match c {
                 // we have reached a quoted-pair
-                b'\\' => {
+                '\\' => {
                     backslashes.push(i - 1);
                 }
 
                 // end of the string, DQUOTE
-                b'"' => {
+                '"' => {
                     end_of_string = Some(i + 1);
                     break;
                 }
 
                 // qdtext
-                b'\t' | b' ' | 15 | 35..=91 | 93..=126 | 128..=255 => {}
+                '\t' | ' ' | '!' | '#'..='[' | ']'..='~' => {}
+                c if !c.is_ascii() => {}
 
                 // unexpected character, bail
                 _ => return (None, input),
-- 
2.43.0


From ec05016d83c9020c90b0be78747d9e04adab2a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:34 +0000
Subject: [PATCH 25/44] fix: the parameter names of Forwarded are
 case-insensitive

---
 src/proxies/forwarded.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/proxies/forwarded.rs b/src/proxies/forwarded.rs
index 2bbfc11..efa0109 100644
--- a/src/proxies/forwarded.rs
+++ b/src/proxies/forwarded.rs
@@ -229,7 +229,7 @@ impl<'a> Forwarded<'a> {
         }
         .ok_or_else(|| ParseError::new("parse error in forwarded-pair"))?;
 
-        match key {
+        match key.to_ascii_lowercase().as_str() {
             "by" => {
                 if self.by.is_some() {
                     return Err(ParseError::new("parse error, duplicate `by` key"));
-- 
2.43.0


From dffd24387f9983def106214355843e99db80c2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:34 +0000
Subject: [PATCH 26/44] fix: every Forwarded that can be built is written in a
 form that parses to the same value

---
 src/proxies/forwarded.rs | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/proxies/forwarded.rs b/src/proxies/forwarded.rs
index efa0109..3a60cef 100644
--- a/src/proxies/forwarded.rs
+++ b/src/proxies/forwarded.rs
@@ -365,26 +365,28 @@ impl<'a> Header for Forwarded<'a> {
     fn header_value(&self) -> HeaderValue {
         let mut output = String::new();
         if let Some(by) = self.by() {
-            write!(&mut output, "by={};", by).unwrap();
+            write!(&mut output, "by={};", format_value(by)).unwrap();
         }
 
-        output.push_str(
-            &self
-                .forwarded_for
-                .iter()
-                .map(|f| format!("for={}", format_value(f)))
-                .collect::<Vec<_>>()
-                .join(", "),
-        );
-
-        output.push(';');
+        if !self.forwarded_for.is_empty() {
+            output.push_str(
+                &self
+                    .forwarded_for
+                    .iter()
+                    .map(|f| format!("for={}", format_value(f)))
+                    .collect::<Vec<_>>()
+                    .join(", "),
+            );
+
+            output.push(';');
+        }
 
         if let Some(host) = self.host() {
-            write!(&mut output, "host={};", host).unwrap();
+            write!(&mut output, "host={};", format_value(host)).unwrap();
         }
 
         if let Some(proto) = self.proto() {
-            write!(&mut output, "proto={};", proto).unwrap();
+            write!(&mut output, "proto={};", format_value(proto)).unwrap();
         }
 
         // remove a trailing semicolon
@@ -404,7 +406,7 @@ fn parse_value(input: &str) -> (Option<Cow<'_, str>>, &str) {
 
 fn format_value(input: &str) -> Cow<'_, str> {
     match parse_token(input) {
-        (_, "") => input.into(),
+        (Some(_), "") => input.into(),
         _ => {
             let mut string = String::from("\"");
             for ch in input.chars() {
-- 
2.43.0


From 56844a40746a73c5653484e3fe7218a098a71650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:22 +0000
Subject: [PATCH 27/44] fix: Request::remote and Request::host read Forwarded
 chains, quoted values and optional whitespace

---
 src/request.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index 6b3bb35..4d6f976 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -123,13 +123,25 @@ impl Request {
 
     fn forwarded_header_part(&self, part: &str) -> Option<&str> {
         self.header("Forwarded").and_then(|header| {
-            header.as_str().split(';').find_map(|key_equals_value| {
-                let parts = key_equals_value.split('=').collect::<Vec<_>>();
-                if parts.len() == 2 && parts[0].eq_ignore_ascii_case(part) {
-                    Some(parts[1])
-                } else {
-                    None
+            // Pairs are separated by `;` and elements by `,`, except inside quoted strings.
+            let (mut quoted, mut escaped) = (false, false);
+            let mut pairs = header.as_str().split(move |c| {
+                if quoted && (escaped || c == '\\') {
+                    escaped = !escaped;
+                } else if c == '"' {
+                    quoted = !quoted;
                 }
+                !quoted && (c == ';' || c == ',')
+            });
+            pairs.find_map(|pair| {
+                let mut parts = pair.splitn(2, '=');
+                let key = parts.next()?.trim();
+                let value = parts.next()?.trim();
+                if !key.eq_ignore_ascii_case(part) {
+                    return None;
+                }
+                let unquoted = value.strip_prefix('"').and_then(|v| v.strip_suffix('"'));
+                Some(unquoted.unwrap_or(value))
             })
         })
     }
-- 
2.43.0


From 0c84b40f8d51ee9b0817da020b7ace4301cae810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:22 +0000
Subject: [PATCH 28/44] fix: whitespace around the elements of X-Forwarded-For
 and X-Forwarded-Host is not part of them

---
 src/request.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/request.rs b/src/request.rs
index 4d6f976..17c9e32 100644
--- a/src/request.rs
+++ b/src/request.rs
@@ -115,7 +115,7 @@ impl Request {
         self.forwarded_header_part("host")
             .or_else(|| {
                 self.header("X-Forwarded-Host")
-                    .and_then(|h| h.as_str().split(',').next())
+                    .and_then(|h| h.as_str().split(',').next().map(str::trim))
             })
             .or_else(|| self.header(&headers::HOST).map(|h| h.as_str()))
             .or_else(|| self.url().host_str())
@@ -149,7 +149,7 @@ impl Request {
     fn forwarded_for(&self) -> Option<&str> {
         self.forwarded_header_part("for").or_else(|| {
             self.header("X-Forwarded-For")
-                .and_then(|header| header.as_str().split(',').next())
+                .and_then(|header| header.as_str().split(',').next().map(str::trim))
         })
     }
 
-- 
2.43.0


From 2601bb4bbeaad0c06d258a402727fe6cb4c8d5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:48 +0000
Subject: [PATCH 29/44] fix: quotes and backslashes in the realm of
 WWW-Authenticate are escaped when written and unescaped when read

---
 src/auth/www_authenticate.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/auth/www_authenticate.rs b/src/auth/www_authenticate.rs
index bf9d7a0..265a895 100644
--- a/src/auth/www_authenticate.rs
+++ b/src/auth/www_authenticate.rs
@@ -76,16 +76,17 @@ impl WwwAuthenticate {
 
         let mut chars = realm.chars();
         let mut closing_quote = false;
-        let realm = (&mut chars)
-            .take_while(|c| {
-                if c == &'"' {
+        let mut realm = String::new();
+        while let Some(c) = chars.next() {
+            match c {
+                '"' => {
                     closing_quote = true;
-                    false
-                } else {
-                    true
+                    break;
                 }
-            })
-            .collect();
+                '\\' => realm.extend(chars.next()),
+                c => realm.push(c),
+            }
+        }
         if !closing_quote {
             bail!(400, r"Expected a closing quote");
         }
@@ -120,7 +121,8 @@ impl Header for WwwAuthenticate {
     }
 
     fn header_value(&self) -> HeaderValue {
-        let output = format!(r#"{} realm="{}", charset="UTF-8""#, self.scheme, self.realm);
+        let realm = self.realm.replace('\\', r"\\").replace('"', r#"\""#);
+        let output = format!(r#"{} realm="{}", charset="UTF-8""#, self.scheme, realm);
 
         // SAFETY: the internal string is validated to be ASCII.
         unsafe { HeaderValue::from_bytes_unchecked(output.into()) }
-- 
2.43.0


From f3db172314daff75e0313329535c042f2cd96d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:58 +0000
Subject: [PATCH 30/44] fix: numbers that do not fit a status code are refused
 when deserialising one, not truncated

---
 src/status_code.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/status_code.rs b/src/status_code.rs
index 8814183..f3d3043 100644
--- a/src/status_code.rs
+++ b/src/status_code.rs
@@ -536,6 +536,7 @@ mod serde {
     use super::StatusCode;
     use serde_crate::de::{Error as DeError, Unexpected, Visitor};
     use serde_crate::{Deserialize, Deserializer, Serialize, Serializer};
+    use std::convert::TryFrom;
     use std::fmt;
 
     impl Serialize for StatusCode {
@@ -561,28 +562,33 @@ mod serde {
         where
             E: DeError,
         {
-            self.visit_u16(v as u16)
+            u16::try_from(v)
+                .map_err(|_| DeError::invalid_value(Unexpected::Signed(v.into()), &self))
+                .and_then(|v| self.visit_u16(v))
         }
 
         fn visit_i32<E>(self, v: i32) -> Result<Self::Value, E>
         where
             E: DeError,
         {
-            self.visit_u16(v as u16)
+            u16::try_from(v)
+                .map_err(|_| DeError::invalid_value(Unexpected::Signed(v.into()), &self))
+                .and_then(|v| self.visit_u16(v))
         }
 
         fn visit_i64<E>(self, v: i64) -> Result<Self::Value, E>
         where
             E: DeError,
         {
-            self.visit_u16(v as u16)
+            u16::try_from(v)
+                .map_err(|_| DeError::invalid_value(Unexpected::Signed(v), &self))
+                .and_then(|v| self.visit_u16(v))
         }
 
         fn visit_u16<E>(self, v: u16) -> Result<Self::Value, E>
         where
             E: DeError,
         {
-            use std::convert::TryFrom;
             match StatusCode::try_from(v) {
                 Ok(status_code) => Ok(status_code),
                 Err(_) => Err(DeError::invalid_value(
@@ -596,14 +602,18 @@ mod serde {
         where
             E: DeError,
         {
-            self.visit_u16(v as u16)
+            u16::try_from(v)
+                .map_err(|_| DeError::invalid_value(Unexpected::Unsigned(v.into()), &self))
+                .and_then(|v| self.visit_u16(v))
         }
 
         fn visit_u64<E>(self, v: u64) -> Result<Self::Value, E>
         where
             E: DeError,
         {
-            self.visit_u16(v as u16)
+            u16::try_from(v)
+                .map_err(|_| DeError::invalid_value(Unexpected::Unsigned(v), &self))
+                .and_then(|v| self.visit_u16(v))
         }
     }
 
-- 
2.43.0


From b76671bf28988ff075545d8bddca1474d2b4abc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:41 +0000
Subject: [PATCH 31/44] fix: converting http headers keeps repeated values, and
 values that are not ASCII are an error

---
 src/hyperium_http.rs | 26 +++++---------------------
 1 file changed, 5 insertions(+), 21 deletions(-)

diff --git a/src/hyperium_http.rs b/src/hyperium_http.rs
index 81d3342..78f6777 100644
--- a/src/hyperium_http.rs
+++ b/src/hyperium_http.rs
@@ -95,19 +95,7 @@ impl TryFrom<http::HeaderMap> for Headers {
 
     fn try_from(hyperium_headers: http::HeaderMap) -> Result<Self, Self::Error> {
         let mut headers = Headers::new();
-
-        hyperium_headers
-            .into_iter()
-            .map(|(name, value)| {
-                if let Some(name) = name {
-                    let value: HeaderValue = value.try_into()?;
-                    let name: HeaderName = name.try_into()?;
-                    headers.append(name, value)?;
-                }
-                Ok(())
-            })
-            .collect::<Result<Vec<()>, Error>>()?;
-
+        hyperium_headers_to_headers(hyperium_headers, &mut headers)?;
         Ok(headers)
     }
 }
@@ -144,14 +132,10 @@ fn hyperium_headers_to_headers(
     hyperium_headers: http::HeaderMap,
     headers: &mut Headers,
 ) -> crate::Result<()> {
-    for (name, value) in hyperium_headers {
-        let value = value.as_bytes().to_owned();
-        let value = unsafe { HeaderValue::from_bytes_unchecked(value) };
-        if let Some(name) = name {
-            let name = name.as_str().as_bytes().to_owned();
-            let name = unsafe { HeaderName::from_bytes_unchecked(name) };
-            headers.append(name, value)?;
-        }
+    for (name, value) in hyperium_headers.iter() {
+        let name: HeaderName = name.clone().try_into()?;
+        let value: HeaderValue = value.clone().try_into()?;
+        headers.append(name, value)?;
     }
     Ok(())
 }
-- 
2.43.0


From 4e7cb52b937a8575e4897af5c0a7a3bd7baae277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:41 +0000
Subject: [PATCH 32/44] fix: converting an http request or response with a
 content type no longer adds a second one

---
 src/hyperium_http.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hyperium_http.rs b/src/hyperium_http.rs
index 78f6777..2654581 100644
--- a/src/hyperium_http.rs
+++ b/src/hyperium_http.rs
@@ -171,9 +171,9 @@ impl TryFrom<http::Request<Body>> for Request {
         let method = parts.method.into();
         let url = from_uri_to_url(parts.uri)?;
         let mut req = Request::new(method, url);
-        req.set_body(body);
         req.set_version(Some(parts.version.into()));
         hyperium_headers_to_headers(parts.headers, req.as_mut())?;
+        req.set_body(body);
         Ok(req)
     }
 }
@@ -196,9 +196,9 @@ impl TryFrom<http::Response<Body>> for Response {
     fn try_from(res: http::Response<Body>) -> Result<Self, Self::Error> {
         let (parts, body) = res.into_parts();
         let mut res = Response::new(parts.status);
-        res.set_body(body);
         res.set_version(Some(parts.version.into()));
         hyperium_headers_to_headers(parts.headers, res.as_mut())?;
+        res.set_body(body);
         Ok(res)
     }
 }
-- 
2.43.0


From c2b68ee5a5e43d0528e0b49109cf5bd3d87c8e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:41 +0000
Subject: [PATCH 33/44] fix: converting an http request or response with an
 unknown method or status is an error, not a panic

---
 src/hyperium_http.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hyperium_http.rs b/src/hyperium_http.rs
index 2654581..2ed34a5 100644
--- a/src/hyperium_http.rs
+++ b/src/hyperium_http.rs
@@ -168,7 +168,7 @@ impl TryFrom<http::Request<Body>> for Request {
 
     fn try_from(req: http::Request<Body>) -> Result<Self, Self::Error> {
         let (parts, body) = req.into_parts();
-        let method = parts.method.into();
+        let method: Method = parts.method.as_str().parse()?;
         let url = from_uri_to_url(parts.uri)?;
         let mut req = Request::new(method, url);
         req.set_version(Some(parts.version.into()));
@@ -195,7 +195,7 @@ impl TryFrom<http::Response<Body>> for Response {
     type Error = crate::Error;
     fn try_from(res: http::Response<Body>) -> Result<Self, Self::Error> {
         let (parts, body) = res.into_parts();
-        let mut res = Response::new(parts.status);
+        let mut res = Response::new(StatusCode::try_from(parts.status.as_u16())?);
         res.set_version(Some(parts.version.into()));
         hyperium_headers_to_headers(parts.headers, res.as_mut())?;
         res.set_body(body);
-- 
2.43.0


From 47b3a23d9183092b4b4662601ffad7a64f7028ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:53 +0000
Subject: [PATCH 34/44] fix: powered_by finds and sets X-Powered-By in any
 letter case

---
 src/security/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/security/mod.rs b/src/security/mod.rs
index 2cb9b6a..a541440 100644
--- a/src/security/mod.rs
+++ b/src/security/mod.rs
@@ -118,7 +118,7 @@ pub fn frameguard(mut headers: impl AsMut<Headers>, guard: Option<FrameOptions>)
 // /// ```
 #[inline]
 pub fn powered_by(mut headers: impl AsMut<Headers>, value: Option<HeaderValue>) {
-    let name = HeaderName::from_lowercase_str("X-Powered-By");
+    let name = HeaderName::from_lowercase_str("x-powered-by");
     match value {
         Some(value) => {
             // Can never fail as value is already a HeaderValue, could use unsafe version of insert
-- 
2.43.0


From 67057b9ce5402f72b705e8b344fb57d7133d52d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:53 +0000
Subject: [PATCH 35/44] fix: applying a content security policy twice no longer
 repeats its directives

---
 src/security/csp.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/security/csp.rs b/src/security/csp.rs
index 9478f34..a1530b0 100644
--- a/src/security/csp.rs
+++ b/src/security/csp.rs
@@ -345,13 +345,14 @@ impl ContentSecurityPolicy {
     }
 
     /// Create and retrieve the policy value
-    fn value(&mut self) -> String {
+    fn value(&self) -> String {
+        let mut policies = self.policy.clone();
         for (directive, sources) in &self.directives {
             let policy = format!("{} {}", directive, sources.join(" "));
-            self.policy.push(policy);
-            self.policy.sort();
+            policies.push(policy);
+            policies.sort();
         }
-        self.policy.join("; ")
+        policies.join("; ")
     }
 
     /// Sets the `Content-Security-Policy` (CSP) HTTP header to prevent cross-site injections
-- 
2.43.0


From 26b1edf041fbc175fc26544fcd7d16be1d8c7453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:53 +0000
Subject: [PATCH 36/44] fix: the directives of Strict-Transport-Security are
 case-insensitive, so includeSubdomains is read back

---
 src/security/strict_transport_security.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/security/strict_transport_security.rs b/src/security/strict_transport_security.rs
index f6c4fe4..bf593ed 100644
--- a/src/security/strict_transport_security.rs
+++ b/src/security/strict_transport_security.rs
@@ -111,9 +111,9 @@ impl StrictTransportSecurity {
         // the spec we should just ignore it.
         for s in value.as_str().split(';') {
             let s = s.trim();
-            if s == "includesubdomains" {
+            if s.eq_ignore_ascii_case("includesubdomains") {
                 include_subdomains = true;
-            } else if s == "preload" {
+            } else if s.eq_ignore_ascii_case("preload") {
                 preload = true;
             } else {
                 let (key, value) = match s.split_once('=') {
@@ -121,7 +121,12 @@ impl StrictTransportSecurity {
                     None => continue, // We don't recognize the directive, continue.
                 };
 
-                if key == "max-age" {
+                if key.trim_end().eq_ignore_ascii_case("max-age") {
+                    let value = value.trim_start();
+                    let value = value
+                        .strip_prefix('"')
+                        .and_then(|value| value.strip_suffix('"'))
+                        .unwrap_or(value);
                     let secs = value.parse::<u64>().status(400)?;
                     max_age = Some(Duration::from_secs(secs));
                 }
-- 
2.43.0


From e49d30a657a7aeb015de3ba48c6c6f7b2bf4fc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:53 +0000
Subject: [PATCH 37/44] fix: Timing-Allow-Origin accepts null, trailing
 whitespace and empty elements

---
 src/security/timing_allow_origin.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/security/timing_allow_origin.rs b/src/security/timing_allow_origin.rs
index 443427f..7153d56 100644
--- a/src/security/timing_allow_origin.rs
+++ b/src/security/timing_allow_origin.rs
@@ -87,9 +87,10 @@ impl TimingAllowOrigin {
         let mut origins = vec![];
         for header in headers {
             for origin in header.as_str().split(',') {
-                match origin.trim_start() {
+                match origin.trim() {
+                    "" => continue,
                     "*" => wildcard = true,
-                    r#""null""# => continue,
+                    "null" | r#""null""# => continue,
                     origin => {
                         let url = Url::parse(origin).status(400)?;
                         origins.push(url);
-- 
2.43.0


From f7b043c43e039a470d08ffd43a3a6411e0c6a486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:53 +0000
Subject: [PATCH 38/44] fix: a malformed traceparent is a 400, not a panic or a
 500

---
 src/trace/trace_context.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/trace/trace_context.rs b/src/trace/trace_context.rs
index 3bc062f..17dba08 100644
--- a/src/trace/trace_context.rs
+++ b/src/trace/trace_context.rs
@@ -107,10 +107,15 @@ impl TraceContext {
             None => return Ok(None),
         };
         let parts: Vec<&str> = traceparent.as_str().split('-').collect();
+        crate::ensure_status!(
+            parts.len() >= 4,
+            400,
+            "The traceparent header should have a version, trace id, parent id and flags"
+        );
 
         Ok(Some(Self {
             id: fastrand::u64(..),
-            version: u8::from_str_radix(parts[0], 16)?,
+            version: u8::from_str_radix(parts[0], 16).status(400)?,
             trace_id: u128::from_str_radix(parts[1], 16).status(400)?,
             parent_id: Some(u64::from_str_radix(parts[2], 16).status(400)?),
             flags: u8::from_str_radix(parts[3], 16).status(400)?,
-- 
2.43.0


From fd3d0d876ef87e061b94a506aae29f5a9de487a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:53 +0000
Subject: [PATCH 39/44] fix: a Server-Timing duration that is negative, not
 finite or too large is a 400, not a panic

---
 src/trace/server_timing/parse.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/trace/server_timing/parse.rs b/src/trace/server_timing/parse.rs
index 4469336..41aed2e 100644
--- a/src/trace/server_timing/parse.rs
+++ b/src/trace/server_timing/parse.rs
@@ -65,7 +65,10 @@ fn parse_entry(s: &str) -> crate::Result<Metric> {
                 let millis: f64 = value.parse().map_err(|_| {
                         format_err!("Server timing duration params must be a valid double-precision floating-point number.")
                     })?;
-                dur = Some(Duration::from_secs_f64(millis) / 1000);
+                let secs = Duration::try_from_secs_f64(millis / 1000.0);
+                dur = Some(secs.map_err(|_| {
+                    format_err!("Server timing duration params must be a duration.")
+                })?);
             }
             "desc" => {
                 // Ensure quotes line up, and strip them from the resulting output
-- 
2.43.0


From b50bce1382ea5f1ae4ac4dcf69dd6de23d04fd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:22 +0000
Subject: [PATCH 40/44] fix: descriptions in Server-Timing are escaped when
 written, may contain separators when read, and empty elements are skipped

---
 src/trace/server_timing/metric.rs |  7 ++++-
 src/trace/server_timing/parse.rs  | 44 ++++++++++++++++++++-----------
 2 files changed, 34 insertions(+), 17 deletions(-)

diff --git a/src/trace/server_timing/metric.rs b/src/trace/server_timing/metric.rs
index ed55c18..8bf8045 100644
--- a/src/trace/server_timing/metric.rs
+++ b/src/trace/server_timing/metric.rs
@@ -59,7 +59,12 @@ impl From<Metric> for HeaderValue {
         // Format a `Duration` into the format that the spec expects.
         let f = |d: Duration| d.as_secs_f64() * 1000.0;
 
-        match (entry.dur, entry.desc) {
+        // Quotes and backslashes in a quoted string are escaped.
+        let desc = entry
+            .desc
+            .map(|desc| desc.replace('\\', "\\\\").replace('"', "\\\""));
+
+        match (entry.dur, desc) {
             (Some(dur), Some(desc)) => {
                 string.push_str(&format!("; dur={}; desc=\"{}\"", f(dur), desc))
             }
diff --git a/src/trace/server_timing/parse.rs b/src/trace/server_timing/parse.rs
index 41aed2e..6fa8649 100644
--- a/src/trace/server_timing/parse.rs
+++ b/src/trace/server_timing/parse.rs
@@ -1,13 +1,17 @@
 use std::time::Duration;
 
 use super::Metric;
-use crate::{ensure, format_err, StatusCode};
+use crate::parse_utils::parse_quoted_string;
+use crate::{bail, ensure, format_err, StatusCode};
 
 /// Parse multiple entries from a single header.
 ///
 /// Each entry is comma-delimited.
 pub(super) fn parse_header(s: &str, entries: &mut Vec<Metric>) -> crate::Result<()> {
-    for part in s.trim().split(',') {
+    for part in split_unquoted(s.trim(), ',') {
+        if part.trim().is_empty() {
+            continue;
+        }
         let entry = parse_entry(part).map_err(|mut e| {
             e.set_status(StatusCode::BadRequest);
             e
@@ -17,6 +21,16 @@ pub(super) fn parse_header(s: &str, entries: &mut Vec<Metric>) -> crate::Result<
     Ok(())
 }
 
+/// Split a string on a separator, leaving separators inside quoted strings alone.
+fn split_unquoted(s: &str, separator: char) -> impl Iterator<Item = &str> {
+    let (mut quoted, mut escaped) = (false, false);
+    s.split(move |c| {
+        quoted ^= c == '"' && !escaped;
+        escaped = c == '\\' && quoted && !escaped;
+        c == separator && !quoted
+    })
+}
+
 /// Create an entry from a string. Parsing rules in ABNF are:
 //
 /// ```txt
@@ -30,7 +44,7 @@ pub(super) fn parse_header(s: &str, entries: &mut Vec<Metric>) -> crate::Result<
 //
 /// Source: https://w3c.github.io/server-timing/#the-server-timing-header-field
 fn parse_entry(s: &str) -> crate::Result<Metric> {
-    let mut parts = s.trim().split(';');
+    let mut parts = split_unquoted(s.trim(), ';');
 
     // Get the name. This is non-optional.
     let name = parts
@@ -50,15 +64,15 @@ fn parse_entry(s: &str) -> crate::Result<Metric> {
 
         part = part.trim_start();
 
-        let mut params = part.split('=');
+        let mut params = part.splitn(2, '=');
         let name = params
             .next()
             .ok_or_else(|| format_err!("Server timing params must have a name"))?
             .trim_end();
-        let mut value = params
+        let value = params
             .next()
             .ok_or_else(|| format_err!("Server timing params must have a value"))?
-            .trim_start();
+            .trim();
 
         match name {
             "dur" => {
@@ -72,20 +86,18 @@ fn parse_entry(s: &str) -> crate::Result<Metric> {
             }
             "desc" => {
                 // Ensure quotes line up, and strip them from the resulting output
-                if value.starts_with('"') {
-                    value = &value[1..value.len()];
-                    ensure!(
-                        value.ends_with('"'),
-                        "Server timing description params must use matching quotes"
-                    );
-                    value = &value[0..value.len() - 1];
+                desc = if value.starts_with('"') {
+                    match parse_quoted_string(value) {
+                        (Some(value), "") => Some(value.into_owned()),
+                        _ => bail!("Server timing description params must use matching quotes"),
+                    }
                 } else {
                     ensure!(
-                        !value.ends_with('"'),
+                        !value.contains('"'),
                         "Server timing description params must use matching quotes"
                     );
-                }
-                desc = Some(value.to_string());
+                    Some(value.to_string())
+                };
             }
             _ => continue,
         }
-- 
2.43.0


From dd08850b8b98af240b497882d839dc5b78655dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:31 +0000
Subject: [PATCH 41/44] fix: format_err with an expression works outside this
 crate

---
 src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macros.rs b/src/macros.rs
index e29ae6c..6764610 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -78,7 +78,7 @@ macro_rules! format_err {
     };
     ($err:expr $(,)?) => ({
         let error = $err;
-        Error::new_adhoc(error)
+        $crate::private::new_adhoc(error)
     });
     ($fmt:expr, $($arg:tt)*) => {
         $crate::private::new_adhoc(format!($fmt, $($arg)*))
-- 
2.43.0


From af91023f42776dd0dbd2b14d24f96d13bfdc57a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:28 +0000
Subject: [PATCH 42/44] fix: a Server-Timing metric without a name is refused

---
 src/trace/server_timing/parse.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/trace/server_timing/parse.rs b/src/trace/server_timing/parse.rs
index 6fa8649..2972ec0 100644
--- a/src/trace/server_timing/parse.rs
+++ b/src/trace/server_timing/parse.rs
@@ -49,8 +49,9 @@ fn parse_entry(s: &str) -> crate::Result<Metric> {
     // Get the name. This is non-optional.
     let name = parts
         .next()
-        .ok_or_else(|| format_err!("Server timing headers must include a name"))?
-        .trim_end();
+        .map(|name| name.trim_end())
+        .filter(|name| !name.is_empty())
+        .ok_or_else(|| format_err!("Server timing headers must include a name"))?;
 
     // We must extract these values from the k-v pairs that follow.
     let mut dur = None;
-- 
2.43.0


From db9e9a39f5f99af0719fc5f204589e850ad25988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:56 +0000
Subject: [PATCH 43/44] fix: the content type of an open file is sniffed from
 its first bytes, wherever its cursor is

---
 src/body.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/body.rs b/src/body.rs
index 8af9186..3281c84 100644
--- a/src/body.rs
+++ b/src/body.rs
@@ -634,6 +634,9 @@ impl AsyncBufRead for Body {
 /// This is used for various binary formats such as images and videos.
 #[cfg(all(feature = "fs", not(target_os = "unknown")))]
 async fn peek_mime(file: &mut async_std::fs::File) -> io::Result<Option<Mime>> {
+    // The file may already have been read from: sniff its first bytes.
+    file.seek(io::SeekFrom::Start(0)).await?;
+
     // We need to read the first 300 bytes to correctly infer formats such as tar.
     let mut buf = [0_u8; 300];
     file.read(&mut buf).await?;
-- 
2.43.0


From 8da53d277313e63a86a42cf4208178fe233e6fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:09 +0000
Subject: [PATCH 44/44] fix: the content type of a short file is not sniffed
 from the zeros that pad the buffer

---
 src/body.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/body.rs b/src/body.rs
index 3281c84..54ba562 100644
--- a/src/body.rs
+++ b/src/body.rs
@@ -639,8 +639,8 @@ async fn peek_mime(file: &mut async_std::fs::File) -> io::Result<Option<Mime>> {
 
     // We need to read the first 300 bytes to correctly infer formats such as tar.
     let mut buf = [0_u8; 300];
-    file.read(&mut buf).await?;
-    let mime = Mime::sniff(&buf).ok();
+    let len = file.read(&mut buf).await?;
+    let mime = Mime::sniff(&buf[..len]).ok();
 
     // Reset the file cursor back to the start.
     file.seek(io::SeekFrom::Start(0)).await?;
-- 
2.43.0

