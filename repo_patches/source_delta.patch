From 29b62e33519c6c055131e3acef8fc737d0acd348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:03 +0000
Subject: [PATCH 01/19] fix: encode INTEGER in minimal two's complement form

Values such as 255 and most negative numbers (-32767, the smallest 64-bit
value) were written with a redundant octet or as a different number.
---
 src/ber/int.rs | 69 ++++++++++----------------------------------------
 1 file changed, 13 insertions(+), 56 deletions(-)

diff --git a/src/ber/int.rs b/src/ber/int.rs
index aa0c4ab..d42f65f 100755
--- a/src/ber/int.rs
+++ b/src/ber/int.rs
@@ -9,7 +9,6 @@ use super::{BerDecoder, BerEncoder, BerHeader, TAG_INT, Tag};
 use crate::buf::Buffer;
 use crate::error::{SnmpError, SnmpResult};
 use pyo3::{Bound, IntoPyObject, PyAny, Python};
-use std::cmp::Ordering;
 
 pub struct SnmpInt(i64);
 
@@ -39,65 +38,23 @@ impl<'a> BerDecoder<'a> for SnmpInt {
     }
 }
 
-const ZERO_BER: [u8; 3] = [TAG_INT, 1, 0];
-
 impl BerEncoder for SnmpInt {
     fn push_ber(&self, buf: &mut Buffer) -> SnmpResult<()> {
-        match self.0.cmp(&0) {
-            Ordering::Equal => buf.push(&ZERO_BER),
-            Ordering::Greater => {
-                let start = buf.len();
-                // Write body
-                let mut left = self.0;
-                loop {
-                    buf.push_u8((left & 0xff) as u8)?;
-                    if left < 0xff {
-                        if left & 0x80 == 0x80 {
-                            // Highest bit is 1
-                            // push leading zero
-                            buf.push_u8(0)?;
-                        }
-                        break;
-                    }
-                    left >>= 8;
-                }
-                // Write length
-                buf.push_tag_len(TAG_INT, buf.len() - start)
-            }
-            Ordering::Less => {
-                let start = buf.len();
-                let mut left = -self.0;
-                // Calculate used octets
-                let mut ln = 0;
-                while left > 0 {
-                    ln += 1;
-                    left >>= 8;
-                }
-                // Calculate complement
-                let d = 1 << (ln * 8 - 1);
-                left = -self.0;
-                let comp = if d < left { d << 8 } else { d };
-                // Write octets
-                if comp == left {
-                    for _ in 0..ln - 1 {
-                        buf.push_u8(0)?;
-                    }
-                    buf.push_u8(0x80)?;
-                } else {
-                    left = comp - left;
-                    loop {
-                        if left < 0xff {
-                            buf.push_u8(0x80 | (left as u8))?;
-                            break;
-                        }
-                        buf.push_u8((left & 0xff) as u8)?;
-                        left >>= 8;
-                    }
-                }
-                // Write tag and length
-                buf.push_tag_len(TAG_INT, buf.len() - start)
+        let start = buf.len();
+        // Write body, least significant octet first
+        let mut left = self.0;
+        loop {
+            let octet = left as u8;
+            buf.push_u8(octet)?;
+            left >>= 8;
+            // X.690 pp 8.3.2: Stop as soon as the rest is
+            // the sign extension of the written octets
+            if left == ((octet as i8) >> 7) as i64 {
+                break;
             }
         }
+        // Write tag and length
+        buf.push_tag_len(TAG_INT, buf.len() - start)
     }
 }
 
-- 
2.43.0


From 921c2107bdafff7879e5d4b573a7b7e93b7cab1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:37 +0000
Subject: [PATCH 02/19] fix: decode 8-octet negative INTEGER, refuse longer
 ones

The sign was applied by subtracting 1 << (8 * length), which overflows
for 8 octets: the value was off by one in release builds and the client
panicked in debug ones.
---
 src/ber/int.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/ber/int.rs b/src/ber/int.rs
index d42f65f..a67a637 100755
--- a/src/ber/int.rs
+++ b/src/ber/int.rs
@@ -22,19 +22,17 @@ impl<'a> BerDecoder<'a> for SnmpInt {
         if h.is_empty() {
             return Ok(SnmpInt(0));
         }
+        if h.length > 8 {
+            // Does not fit into i64
+            return Err(SnmpError::InvalidData);
+        }
+        // The first octet carries the sign
         let v = i
             .iter()
             .take(h.length)
-            .map(|x| *x as i64)
-            .reduce(|acc, x| (acc << 8) | x)
-            .unwrap_or(0);
-        Ok(SnmpInt(if i[0] & 0x80 == 0 {
-            v
-        } else {
-            // Negative number
-            let m = 1 << (8 * h.length);
-            v - m
-        }))
+            .skip(1)
+            .fold(i[0] as i8 as i64, |acc, x| (acc << 8) | (*x as i64));
+        Ok(SnmpInt(v))
     }
 }
 
-- 
2.43.0


From b2ca327102e7e50707daffa52aadb950242b8936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:58 +0000
Subject: [PATCH 03/19] fix: bound-check BER header and varbind parsing

---
 src/ber/header.rs       | 31 ++++++++++++++++++++++---------
 src/snmp/getresponse.rs |  2 +-
 2 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/ber/header.rs b/src/ber/header.rs
index e5af25f..9fd21d5 100755
--- a/src/ber/header.rs
+++ b/src/ber/header.rs
@@ -69,9 +69,12 @@ impl BerHeader {
                 // > 30
                 let mut n = 0 as Tag;
                 loop {
-                    // @todo: check size
-                    let t = i[current];
+                    let t = *i.get(current).ok_or(Err::Incomplete(Needed::new(1)))?;
                     current += 1;
+                    if n > Tag::MAX >> 7 {
+                        // Tag number is too large
+                        return Err(Err::Failure(SnmpError::InvalidTagFormat));
+                    }
                     n = (n << 7) | ((t & 0x7f) as Tag);
                     if t & 0x80 == 0 {
                         break;
@@ -83,24 +86,34 @@ impl BerHeader {
         };
         // Parse length offset
         // X.690 8.3.1.4-8.3.1.5
-        // @todo: Indefinite length
-        let n = i[current];
+        let n = *i.get(current).ok_or(Err::Incomplete(Needed::new(1)))?;
         current += 1;
         let length = if n & 0x80 == 0 {
             // Short form, X.690 pp 8.3.1.4
             n as usize
         } else {
             // Long form, X.690 pp 8.1.3.5
-            let mut ln = 0;
-            for _ in 0..n & 0x7f {
-                ln = (ln << 8) + (i[current] as usize);
+            let octets = (n & 0x7f) as usize;
+            if octets == 0 {
+                // Indefinite form is not allowed in SNMP
+                return Err(Err::Failure(SnmpError::InvalidTagFormat));
+            }
+            let mut ln = 0usize;
+            for _ in 0..octets {
+                let c = *i.get(current).ok_or(Err::Incomplete(Needed::new(1)))?;
+                if ln > usize::MAX >> 8 {
+                    // Length is too large
+                    return Err(Err::Failure(SnmpError::InvalidTagFormat));
+                }
+                ln = (ln << 8) | (c as usize);
                 current += 1;
             }
             ln
         };
         // Check content size
-        if i[current..].len() < length {
-            return Err(Err::Incomplete(Needed::new(length - i[current..].len())));
+        let available = i.len() - current;
+        if available < length {
+            return Err(Err::Incomplete(Needed::new(length - available)));
         }
         Ok((
             &i[current..],
diff --git a/src/snmp/getresponse.rs b/src/snmp/getresponse.rs
index 7459c2d..5556193 100755
--- a/src/snmp/getresponse.rs
+++ b/src/snmp/getresponse.rs
@@ -46,7 +46,7 @@ impl<'a> TryFrom<&'a [u8]> for SnmpGetResponse<'a> {
             // Parse enclosing sequence
             let (rest, vs) = SnmpSequence::from_ber(v_tail)?;
             // Parse oid. May be either absolute or relative
-            let (tail, oid) = match vs.0[0] as Tag {
+            let (tail, oid) = match *vs.0.first().ok_or(SnmpError::Incomplete)? as Tag {
                 TAG_OBJECT_ID => SnmpOid::from_ber(vs.0)?,
                 TAG_RELATIVE_OID => {
                     if vars.is_empty() {
-- 
2.43.0


From f21ad0639e270203a5fd9109d3898b9bebb1c243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:58 +0000
Subject: [PATCH 04/19] fix: refuse relative OID which cannot be applied
 instead of panicking

---
 src/ber/relative_oid.rs | 10 ++++++++++
 src/snmp/getresponse.rs |  6 +++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/ber/relative_oid.rs b/src/ber/relative_oid.rs
index f6778dd..e83504b 100755
--- a/src/ber/relative_oid.rs
+++ b/src/ber/relative_oid.rs
@@ -23,6 +23,16 @@ impl<'a> BerDecoder<'a> for SnmpRelativeOid<'a> {
 }
 
 impl SnmpRelativeOid<'_> {
+    /// Check if relative oid can be applied to the absolute one
+    pub fn is_applicable(&self, oid: &SnmpOid) -> bool {
+        if self.0.is_empty() || oid.0.is_empty() {
+            return false;
+        }
+        // Either the tail of the base is replaced or
+        // all, including first two subelements
+        SnmpRelativeOid::subelements(self.0) < SnmpRelativeOid::subelements(&oid.0[1..])
+            || (self.0.len() > 1 && self.0[0] <= 2 && self.0[1] < 40)
+    }
     /// Apply relative oid to absolute one
     /// and return normalized absolute oid
     pub fn normalize<'a>(&self, oid: &SnmpOid) -> SnmpOid<'a> {
diff --git a/src/snmp/getresponse.rs b/src/snmp/getresponse.rs
index 5556193..ace1de2 100755
--- a/src/snmp/getresponse.rs
+++ b/src/snmp/getresponse.rs
@@ -55,7 +55,11 @@ impl<'a> TryFrom<&'a [u8]> for SnmpGetResponse<'a> {
                     }
                     // Parse relative oid
                     let (t, r_oid) = SnmpRelativeOid::from_ber(vs.0)?;
-                    let oid = r_oid.normalize(&vars[vars.len() - 1].oid);
+                    let base = &vars[vars.len() - 1].oid;
+                    if !r_oid.is_applicable(base) {
+                        return Err(SnmpError::InvalidData);
+                    }
+                    let oid = r_oid.normalize(base);
                     // Apply relative oid
                     (t, oid)
                 }
-- 
2.43.0


From ca68f818e445330031597e5da7a4d7c77e38a447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:58 +0000
Subject: [PATCH 05/19] fix: check the size of msgPrivacyParameters before
 decryption

---
 src/privacy/aes128.rs | 4 ++++
 src/privacy/des.rs    | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/src/privacy/aes128.rs b/src/privacy/aes128.rs
index 80d9fb4..5f61fa7 100644
--- a/src/privacy/aes128.rs
+++ b/src/privacy/aes128.rs
@@ -17,6 +17,7 @@ use rand::Rng;
 
 const KEY_LENGTH: usize = 16;
 const BLOCK_SIZE: usize = 16;
+const SALT_SIZE: usize = 8;
 const PADDING: [u8; BLOCK_SIZE] = [0; BLOCK_SIZE];
 
 type Aes128CfbEncryptor = Encryptor<Aes128>;
@@ -82,6 +83,9 @@ impl SnmpPriv for Aes128Key {
         data: &'b [u8],
         usm: &'b UsmParameters<'b>,
     ) -> SnmpResult<ScopedPdu<'c>> {
+        if usm.privacy_params.len() != SALT_SIZE {
+            return Err(SnmpError::InvalidData);
+        }
         // Get IV
         let mut iv = [0u8; 16];
         iv[..4].clone_from_slice(&(usm.engine_boots as u32).to_be_bytes());
diff --git a/src/privacy/des.rs b/src/privacy/des.rs
index f9b7cf0..7af1571 100644
--- a/src/privacy/des.rs
+++ b/src/privacy/des.rs
@@ -90,6 +90,9 @@ impl SnmpPriv for DesKey {
         data: &'b [u8],
         usm: &'b UsmParameters<'b>,
     ) -> SnmpResult<ScopedPdu<'c>> {
+        if usm.privacy_params.len() != SALT_SIZE {
+            return Err(SnmpError::InvalidData);
+        }
         // Get IV
         let mut iv = [0u8; 8];
         for (idx, (x, y)) in usm
-- 
2.43.0


From f11898cd55ee7878488b64004884daf28be1b0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:58 +0000
Subject: [PATCH 06/19] fix: start DES encryption from the empty buffer

---
 src/privacy/des.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/privacy/des.rs b/src/privacy/des.rs
index 7af1571..32e39a9 100644
--- a/src/privacy/des.rs
+++ b/src/privacy/des.rs
@@ -65,6 +65,7 @@ impl SnmpPriv for DesKey {
             iv[idx] = x ^ y;
         }
         // Add padding
+        self.buf.reset();
         self.buf.push(&PADDING)?;
         // Serialize
         pdu.push_ber(&mut self.buf)?;
-- 
2.43.0


From 5ae5a2ebb1042f669e10d9a7d4314eba3fafc8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:56 +0000
Subject: [PATCH 07/19] fix: do not panic on exception values in GetNext
 replies, stop the walk

---
 src/snmp/op/getnext.rs | 7 ++++---
 src/snmp/value.rs      | 9 +++++----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/snmp/op/getnext.rs b/src/snmp/op/getnext.rs
index 992f55a..8da8262 100644
--- a/src/snmp/op/getnext.rs
+++ b/src/snmp/op/getnext.rs
@@ -47,9 +47,10 @@ impl<'a> PyOp<'a, SnmpOid<'a>> for OpGetNext {
                         }
                         // v1 may return Null at end of mib
                         match &var.value {
-                            SnmpValue::EndOfMibView | SnmpValue::Null => {
-                                Err(PyStopAsyncIteration::new_err("stop"))
-                            }
+                            SnmpValue::EndOfMibView
+                            | SnmpValue::NoSuchObject
+                            | SnmpValue::NoSuchInstance
+                            | SnmpValue::Null => Err(PyStopAsyncIteration::new_err("stop")),
                             value => Ok(PyTuple::new(
                                 py,
                                 vec![var.oid.into_pyobject(py)?, value.into_pyobject(py)?],
diff --git a/src/snmp/value.rs b/src/snmp/value.rs
index f8c1df3..abd0d0d 100755
--- a/src/snmp/value.rs
+++ b/src/snmp/value.rs
@@ -15,7 +15,7 @@ use crate::ber::{
 };
 use crate::error::SnmpError;
 use nom::{Err, IResult};
-use pyo3::{Bound, IntoPyObject, PyAny, Python};
+use pyo3::{Bound, IntoPyObject, PyAny, Python, types::PyNone};
 
 pub enum SnmpValue<'a> {
     Bool(SnmpBool),
@@ -129,7 +129,7 @@ impl<'py> IntoPyObject<'py> for &SnmpValue<'_> {
         Ok(match self {
             SnmpValue::Bool(x) => x.into_pyobject(py)?,
             SnmpValue::Int(x) => x.into_pyobject(py)?,
-            SnmpValue::Null => todo!("None"),
+            SnmpValue::Null => PyNone::get(py).as_any().to_owned(),
             SnmpValue::OctetString(x) => x.into_pyobject(py)?,
             SnmpValue::Oid(x) => x.into_pyobject(py)?,
             SnmpValue::ObjectDescriptor(x) => x.into_pyobject(py)?,
@@ -141,8 +141,9 @@ impl<'py> IntoPyObject<'py> for &SnmpValue<'_> {
             SnmpValue::Opaque(x) => x.into_pyobject(py)?,
             SnmpValue::Counter64(x) => x.into_pyobject(py)?,
             SnmpValue::UInteger32(x) => x.into_pyobject(py)?,
-            SnmpValue::NoSuchObject | SnmpValue::NoSuchInstance => todo!("never should be passed"),
-            SnmpValue::EndOfMibView => todo!("never should be passed"),
+            SnmpValue::NoSuchObject | SnmpValue::NoSuchInstance | SnmpValue::EndOfMibView => {
+                return Err(SnmpError::NoSuchInstance);
+            }
         })
     }
 }
-- 
2.43.0


From 034e5e6a69fdeeac6a9627fbbb70f36fd9628500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:38 +0000
Subject: [PATCH 08/19] fix: render every OID received from the agent as it is
 encoded, refuse malformed

---
 src/ber/objectid.rs | 46 ++++++++++++++++++++++++++++++++++-----------
 1 file changed, 35 insertions(+), 11 deletions(-)

diff --git a/src/ber/objectid.rs b/src/ber/objectid.rs
index b8c543b..f7c000b 100755
--- a/src/ber/objectid.rs
+++ b/src/ber/objectid.rs
@@ -68,17 +68,13 @@ impl TryFrom<&SnmpOid<'_>> for String {
 
     fn try_from(value: &SnmpOid) -> Result<Self, Self::Error> {
         let mut r = String::with_capacity(value.0.len() * 5);
-        let mut iter = value.0.iter();
-        // First two subelements
-        let first = iter.next().ok_or(SnmpError::InvalidData)?;
-        write!(r, "{}.{}", first / 40, first % 40).map_err(|_| SnmpError::InvalidData)?;
-        let mut b = 0u32;
-        for c in iter {
-            b = (b << 7) + ((*c as u32) & 0x7f);
-            if c & 0x80 == 0 {
-                write!(r, ".{}", b).map_err(|_| SnmpError::InvalidData)?;
-                b = 0;
-            }
+        let mut iter = SubIdentifiers(&value.0);
+        // First subidentifier holds two subelements, X.690 pp 8.19.4
+        let first = iter.next().ok_or(SnmpError::InvalidData)??;
+        let root = (first / 40).min(2);
+        write!(r, "{}.{}", root, first - root * 40).map_err(|_| SnmpError::InvalidData)?;
+        for sub_id in iter {
+            write!(r, ".{}", sub_id?).map_err(|_| SnmpError::InvalidData)?;
         }
         Ok(r)
     }
@@ -92,6 +88,34 @@ impl SnmpOid<'_> {
     }
 }
 
+// Subidentifiers of the encoded oid, X.690 pp 8.19.2
+struct SubIdentifiers<'a>(&'a [u8]);
+
+impl Iterator for SubIdentifiers<'_> {
+    type Item = SnmpResult<u32>;
+
+    fn next(&mut self) -> Option<Self::Item> {
+        let mut v = 0u32;
+        for (n, c) in self.0.iter().enumerate() {
+            if v > u32::MAX >> 7 {
+                // Too large
+                break;
+            }
+            v = (v << 7) | ((*c & 0x7f) as u32);
+            if c & 0x80 == 0 {
+                self.0 = &self.0[n + 1..];
+                return Some(Ok(v));
+            }
+        }
+        if self.0.is_empty() {
+            return None;
+        }
+        // Too large or truncated
+        self.0 = &[];
+        Some(Err(SnmpError::InvalidData))
+    }
+}
+
 struct OidSubelementIterator<'a>(core::str::Split<'a, &'a str>);
 
 impl<'a> OidSubelementIterator<'a> {
-- 
2.43.0


From 2766bb0322317ddf1c96ce2888dd933fe9a0304a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:38 +0000
Subject: [PATCH 09/19] fix: refuse invalid OID text instead of sending another
 OID

---
 src/ber/objectid.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/ber/objectid.rs b/src/ber/objectid.rs
index f7c000b..6661016 100755
--- a/src/ber/objectid.rs
+++ b/src/ber/objectid.rs
@@ -128,9 +128,13 @@ impl Iterator for OidSubelementIterator<'_> {
     type Item = Result<u32, SnmpError>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        self.0
-            .next()
-            .map(|part| part.parse::<u32>().map_err(|_| SnmpError::InvalidData))
+        self.0.next().map(|part| {
+            // u32::from_str accepts leading `+`
+            if part.starts_with('+') {
+                return Err(SnmpError::InvalidData);
+            }
+            part.parse::<u32>().map_err(|_| SnmpError::InvalidData)
+        })
     }
 }
 
@@ -147,9 +151,12 @@ impl TryFrom<&str> for SnmpOid<'_> {
         // Subelements iterator
         let mut iter = OidSubelementIterator::new(value);
         // Get first two subelements
-        let first = iter.next().ok_or(SnmpError::InvalidData)??.min(6) as u8;
-        let second = iter.next().ok_or(SnmpError::InvalidData)??.min(39) as u8;
-        vec.push(40 * first + second);
+        let first = iter.next().ok_or(SnmpError::InvalidData)??;
+        let second = iter.next().ok_or(SnmpError::InvalidData)??;
+        if first > 2 || second > 39 {
+            return Err(SnmpError::InvalidData);
+        }
+        vec.push((40 * first + second) as u8);
         // Push other elements
         for sr in iter {
             let sub_id = sr?;
-- 
2.43.0


From 926c9eab0a6914ef11a6fd69bf2ecdbc62b1409b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:39 +0000
Subject: [PATCH 10/19] fix: accept only increasing OIDs in walks

---
 src/ber/objectid.rs    | 14 ++++++++++++++
 src/snmp/op/getiter.rs |  5 ++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/ber/objectid.rs b/src/ber/objectid.rs
index 6661016..e5bc24d 100755
--- a/src/ber/objectid.rs
+++ b/src/ber/objectid.rs
@@ -86,6 +86,20 @@ impl SnmpOid<'_> {
     pub fn starts_with(&self, oid: &SnmpOid) -> bool {
         oid.0.starts_with(&self.0)
     }
+    // Check oid is well-formed and goes strictly after the other one
+    pub fn is_after(&self, other: &SnmpOid) -> bool {
+        let mut iter = SubIdentifiers(&self.0);
+        let mut other_iter = SubIdentifiers(&other.0);
+        let after = loop {
+            match (iter.next(), other_iter.next()) {
+                (Some(Ok(x)), Some(Ok(y))) if x == y => continue,
+                (Some(Ok(x)), Some(Ok(y))) => break x > y,
+                (Some(Ok(_)), None) => break true,
+                _ => break false,
+            }
+        };
+        after && iter.all(|x| x.is_ok())
+    }
 }
 
 // Subidentifiers of the encoded oid, X.690 pp 8.19.2
diff --git a/src/snmp/op/getiter.rs b/src/snmp/op/getiter.rs
index 55e1be7..39791f7 100644
--- a/src/snmp/op/getiter.rs
+++ b/src/snmp/op/getiter.rs
@@ -37,7 +37,10 @@ impl GetIter {
     // Save oid for next request.
     // Return true if next request may be send or return false otherwise
     pub fn set_next_oid(&mut self, oid: &SnmpOid) -> bool {
-        if self.start_oid.as_borrowed().starts_with(oid) {
+        // Walk must never go backwards
+        if self.start_oid.as_borrowed().starts_with(oid)
+            && oid.is_after(&self.next_oid.as_borrowed())
+        {
             self.next_oid.store(oid);
             true
         } else {
-- 
2.43.0


From 45aac7da70ef752c1dd9e0134dc7685a395608d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:05 +0000
Subject: [PATCH 11/19] fix: compare version and security model as received,
 not truncated to octet

---
 src/ber/int.rs         |  6 ------
 src/snmp/msg/v1.rs     |  6 +++---
 src/snmp/msg/v2c.rs    |  6 +++---
 src/snmp/msg/v3/msg.rs | 10 +++++-----
 4 files changed, 11 insertions(+), 17 deletions(-)

diff --git a/src/ber/int.rs b/src/ber/int.rs
index a67a637..744c5c5 100755
--- a/src/ber/int.rs
+++ b/src/ber/int.rs
@@ -62,12 +62,6 @@ impl From<i64> for SnmpInt {
     }
 }
 
-impl From<SnmpInt> for u8 {
-    fn from(value: SnmpInt) -> Self {
-        value.0 as u8
-    }
-}
-
 impl From<SnmpInt> for i64 {
     fn from(value: SnmpInt) -> Self {
         value.0
diff --git a/src/snmp/msg/v1.rs b/src/snmp/msg/v1.rs
index a27b04a..d7bc2f9 100755
--- a/src/snmp/msg/v1.rs
+++ b/src/snmp/msg/v1.rs
@@ -30,9 +30,9 @@ impl<'a> TryFrom<&'a [u8]> for SnmpV1Message<'a> {
         }
         // Version
         let (tail, v_code) = SnmpInt::from_ber(envelope.0)?;
-        let vc = v_code.into();
-        if vc != SNMP_V1 {
-            return Err(SnmpError::InvalidVersion(vc));
+        let vc: i64 = v_code.into();
+        if vc != SNMP_V1 as i64 {
+            return Err(SnmpError::InvalidVersion(vc as u8));
         }
         // Parse community
         let (tail, community) = SnmpOctetString::from_ber(tail)?;
diff --git a/src/snmp/msg/v2c.rs b/src/snmp/msg/v2c.rs
index b296c41..1bff891 100644
--- a/src/snmp/msg/v2c.rs
+++ b/src/snmp/msg/v2c.rs
@@ -30,9 +30,9 @@ impl<'a> TryFrom<&'a [u8]> for SnmpV2cMessage<'a> {
         }
         // Version
         let (tail, v_code) = SnmpInt::from_ber(envelope.0)?;
-        let vc = v_code.into();
-        if vc != SNMP_V2C {
-            return Err(SnmpError::InvalidVersion(vc));
+        let vc: i64 = v_code.into();
+        if vc != SNMP_V2C as i64 {
+            return Err(SnmpError::InvalidVersion(vc as u8));
         }
         // Parse community
         let (tail, community) = SnmpOctetString::from_ber(tail)?;
diff --git a/src/snmp/msg/v3/msg.rs b/src/snmp/msg/v3/msg.rs
index 6c1bfca..21abdf0 100644
--- a/src/snmp/msg/v3/msg.rs
+++ b/src/snmp/msg/v3/msg.rs
@@ -44,9 +44,9 @@ impl<'a> TryFrom<&'a [u8]> for SnmpV3Message<'a> {
         }
         // Version
         let (tail, v_code) = SnmpInt::from_ber(envelope.0)?;
-        let vc = v_code.into();
-        if vc != SNMP_V3 {
-            return Err(SnmpError::InvalidVersion(vc));
+        let vc: i64 = v_code.into();
+        if vc != SNMP_V3 as i64 {
+            return Err(SnmpError::InvalidVersion(vc as u8));
         }
         //
         // Parse global header
@@ -64,8 +64,8 @@ impl<'a> TryFrom<&'a [u8]> for SnmpV3Message<'a> {
         let flags = flags_data.0[0];
         // security model
         let (_, security_model) = SnmpInt::from_ber(tail)?;
-        let sm: u8 = security_model.into();
-        if sm != USM {
+        let sm: i64 = security_model.into();
+        if sm != USM as i64 {
             return Err(SnmpError::UnknownSecurityModel);
         }
         //
-- 
2.43.0


From 05c388b9ab6422ef8d1cd36200ac5d5347046947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:06 +0000
Subject: [PATCH 12/19] fix: skip Report PDU in community-based messages, it is
 not bound to the request

---
 src/socket/v1.rs  | 4 ++--
 src/socket/v2c.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/socket/v1.rs b/src/socket/v1.rs
index 10b11ad..1f8f424 100755
--- a/src/socket/v1.rs
+++ b/src/socket/v1.rs
@@ -135,9 +135,9 @@ impl SnmpSocket for SnmpV1ClientSocket {
         if msg.community != self.community.as_bytes() {
             return None;
         }
-        // Check request id
+        // Check request id, reports are meaningful only in SNMPv3
         let pdu = msg.pdu;
-        if !pdu.check(&self.request_id) {
+        if matches!(pdu, SnmpPdu::Report(_)) || !pdu.check(&self.request_id) {
             return None;
         }
         Some(pdu)
diff --git a/src/socket/v2c.rs b/src/socket/v2c.rs
index 45426ca..06d462f 100644
--- a/src/socket/v2c.rs
+++ b/src/socket/v2c.rs
@@ -134,9 +134,9 @@ impl SnmpSocket for SnmpV2cClientSocket {
         if msg.community != self.community.as_bytes() {
             return None;
         }
-        // Check request id
+        // Check request id, reports are meaningful only in SNMPv3
         let pdu = msg.pdu;
-        if !pdu.check(&self.request_id) {
+        if matches!(pdu, SnmpPdu::Report(_)) || !pdu.check(&self.request_id) {
             return None;
         }
         Some(pdu)
-- 
2.43.0


From 1e495ec8aeb9dfaa8b3c091d2668319e154644e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:08 +0000
Subject: [PATCH 13/19] fix: decode REAL from its own octets only, in all
 decimal and binary forms

---
 src/ber/real.rs   | 102 ++++++++++++++++++++++++++++++++--------------
 src/snmp/value.rs |   2 +-
 2 files changed, 72 insertions(+), 32 deletions(-)

diff --git a/src/ber/real.rs b/src/ber/real.rs
index c81fb5b..b0ab9cd 100755
--- a/src/ber/real.rs
+++ b/src/ber/real.rs
@@ -25,6 +25,8 @@ impl<'a> BerDecoder<'a> for SnmpReal {
         if h.is_empty() {
             return Ok(SnmpReal(0.0));
         }
+        // Limit to the element
+        let i = &i[..h.length];
         // 8.5.6: Check encoding
         Ok(SnmpReal(match i[0] {
             f if f & 0x80 == 0x80 => {
@@ -41,18 +43,20 @@ impl<'a> BerDecoder<'a> for SnmpReal {
 
                 // 8.5.7.4 Bits 2 to 1 of the first contents octet
                 // shall encode the format of the exponent as follows:
-                let ln = (f & 0x03) as usize + 2;
-                let e = SnmpReal::parse_u32(&i[1..ln]) as i32;
-                let mut v: f64 = SnmpReal::parse_u32(&i[ln..]).into();
+                let (start, end) = match (f & 0x03) as usize {
+                    3 => {
+                        // Length of the exponent is in the second octet
+                        let ln = *i.get(1).ok_or(SnmpError::InvalidData)? as usize;
+                        (2, 2 + ln)
+                    }
+                    n => (1, 2 + n),
+                };
+                let e = SnmpReal::parse_exponent(i.get(start..end).ok_or(SnmpError::InvalidData)?)?;
+                let n = SnmpReal::parse_u64(&i[end..])?;
                 // 8.5.7.3: Bits 4 to 3 of the first contents octet shall
                 // encode the value of the binary scaling factor F
                 // as an unsigned binary integer.
-                match (f & 0x0c) >> 2 {
-                    1 => v *= 2.0,
-                    2 => v *= 4.0,
-                    3 => v *= 8.0,
-                    _ => return Err(SnmpError::InvalidData),
-                }
+                let scale = ((f & 0x0c) >> 2) as i64;
                 // 8.5.7.2: Bits 6 to 5 of the first contents octets
                 // shall encode the value of the base B' as follows:
                 // Bits6to5 => Base
@@ -60,13 +64,14 @@ impl<'a> BerDecoder<'a> for SnmpReal {
                 // 01 => base 8
                 // 10 => base 16
                 // 11 => Reserved for further editions of this Recommendation | International Standard.
-                let base: f64 = match f & 0x30 {
-                    0 => 2.0,
-                    0x10 => 8.0,
-                    0x20 => 16.0,
+                let base_bits = match f & 0x30 {
+                    0 => 1,
+                    0x10 => 3,
+                    0x20 => 4,
                     _ => return Err(SnmpError::InvalidData),
                 };
-                v *= base.powi(e);
+                let mut v =
+                    SnmpReal::scale(n as f64, e.saturating_mul(base_bits).saturating_add(scale));
                 // 8.5.7.1: Bit 7 of the first contents octets
                 // shall be 1 if S is –1 and 0 otherwise.
                 if f & 0x40 == 0x40 {
@@ -84,21 +89,9 @@ impl<'a> BerDecoder<'a> for SnmpReal {
                 // by bits 6 to 1 of the first contents octet as follows:
                 match f & 0x3f {
                     // ISO 6093 NR1: i.e. 456
-                    1 => {
-                        let s = from_utf8(&i[1..]).map_err(|_| SnmpError::InvalidData)?;
-                        let v = s.parse::<i32>().map_err(|_| SnmpError::InvalidData)?;
-                        v.into()
-                    }
                     // ISO 6093 NR2: i.e. 456.7
-                    2 => {
-                        let s = from_utf8(&i[1..]).map_err(|_| SnmpError::InvalidData)?;
-                        s.parse::<f64>().map_err(|_| SnmpError::InvalidData)?
-                    }
                     // ISO 6093 NR3: i.e. 4567e-1
-                    3 => {
-                        let s = from_utf8(&i[1..]).map_err(|_| SnmpError::InvalidData)?;
-                        s.parse::<f64>().map_err(|_| SnmpError::InvalidData)?
-                    }
+                    1..=3 => SnmpReal::parse_decimal(&i[1..])?,
                     _ => return Err(SnmpError::InvalidData),
                 }
             }
@@ -112,12 +105,59 @@ impl<'a> BerDecoder<'a> for SnmpReal {
 }
 
 impl SnmpReal {
-    fn parse_u32(i: &[u8]) -> u32 {
-        let mut v = 0u32;
+    // Mantissa, unsigned
+    fn parse_u64(i: &[u8]) -> SnmpResult<u64> {
+        let mut v = 0u64;
         for &n in i.iter() {
-            v = (v << 8) | (n as u32);
+            if v > u64::MAX >> 8 {
+                return Err(SnmpError::InvalidData);
+            }
+            v = (v << 8) | (n as u64);
+        }
+        Ok(v)
+    }
+    // Exponent, two's complement
+    fn parse_exponent(i: &[u8]) -> SnmpResult<i64> {
+        if i.is_empty() || i.len() > 8 {
+            return Err(SnmpError::InvalidData);
+        }
+        Ok(i[1..]
+            .iter()
+            .fold(i[0] as i8 as i64, |acc, x| (acc << 8) | (*x as i64)))
+    }
+    // ISO 6093 representations
+    fn parse_decimal(i: &[u8]) -> SnmpResult<f64> {
+        let s = from_utf8(i)
+            .map_err(|_| SnmpError::InvalidData)?
+            .trim_start_matches(' ');
+        // Refuse `inf` and `nan`, which are not the numbers
+        if s.contains(|c: char| !(c.is_ascii_digit() || "+-.,eE".contains(c))) {
+            return Err(SnmpError::InvalidData);
         }
-        v
+        // Both `.` and `,` are the decimal mark
+        s.replace(',', ".")
+            .parse()
+            .map_err(|_| SnmpError::InvalidData)
+    }
+    // Multiply by power of 2
+    fn scale(v: f64, e: i64) -> f64 {
+        let mut v = v;
+        let mut e = e.clamp(-2200, 2200);
+        while e > 1000 {
+            v *= SnmpReal::pow2(1000);
+            e -= 1000;
+        }
+        // Step is small enough to keep all the digits
+        // up to the last multiplication
+        while e < -900 {
+            v *= SnmpReal::pow2(-900);
+            e += 900;
+        }
+        v * SnmpReal::pow2(e)
+    }
+    // Exact power of 2 in the range of normalized numbers
+    fn pow2(e: i64) -> f64 {
+        f64::from_bits(((1023 + e) as u64) << 52)
     }
 }
 
diff --git a/src/snmp/value.rs b/src/snmp/value.rs
index abd0d0d..873031c 100755
--- a/src/snmp/value.rs
+++ b/src/snmp/value.rs
@@ -59,7 +59,7 @@ impl SnmpValue<'_> {
                     TAG_OBJECT_DESCRIPTOR => {
                         SnmpValue::ObjectDescriptor(SnmpObjectDescriptor::decode(tail, &hdr)?)
                     }
-                    TAG_REAL => SnmpValue::Real(SnmpReal::decode(i, &hdr)?),
+                    TAG_REAL => SnmpValue::Real(SnmpReal::decode(tail, &hdr)?),
                     //
                     _ => {
                         return Err(Err::Failure(SnmpError::UnsupportedTag(format!(
-- 
2.43.0


From edfac904266a40b8dbabb9eb47cbe3eda64bf9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:18 +0000
Subject: [PATCH 14/19] fix: drop v3 replies which are not authenticated as the
 session requires

---
 src/socket/snmpsocket.rs | 13 +++++++------
 src/socket/v1.rs         |  6 +++++-
 src/socket/v2c.rs        |  6 +++++-
 src/socket/v3.rs         | 42 +++++++++++++++++++++++++++++++++++++++-
 4 files changed, 58 insertions(+), 9 deletions(-)

diff --git a/src/socket/snmpsocket.rs b/src/socket/snmpsocket.rs
index f552081..258b1d5 100644
--- a/src/socket/snmpsocket.rs
+++ b/src/socket/snmpsocket.rs
@@ -97,7 +97,8 @@ where
     }
     fn get_request_id(&mut self) -> &mut RequestId;
     fn push_pdu(&mut self, pdu: SnmpPdu, buf: &mut Buffer) -> SnmpResult<()>;
-    fn unwrap_pdu<'a>(&'a mut self, msg: Self::Message<'a>) -> Option<SnmpPdu<'a>>;
+    // data is the message as it was received
+    fn unwrap_pdu<'a>(&'a mut self, msg: Self::Message<'a>, data: &'a [u8]) -> Option<SnmpPdu<'a>>;
     //
     fn recv_socket<'a>(io: &mut Socket, buf: &'a mut Buffer) -> SnmpResult<&'a [u8]> {
         match io.recv(buf.as_mut()) {
@@ -133,13 +134,13 @@ where
         // We can catch unwanted replies, so do it in a loop
         loop {
             // Nested scope to release io early after receiving message
-            let msg = {
+            let data = {
                 let io = self.get_io();
-                let data = Self::recv_socket(io, buf)?;
-                // Decode message
-                Self::Message::try_from(data)?
+                Self::recv_socket(io, buf)?
             };
-            match self.unwrap_pdu(msg) {
+            // Decode message
+            let msg = Self::Message::try_from(data)?;
+            match self.unwrap_pdu(msg, data) {
                 Some(ref pdu) => {
                     return Python::with_gil(|py| Ok(T::to_python(pdu, iter, py)?.into()));
                 }
diff --git a/src/socket/v1.rs b/src/socket/v1.rs
index 1f8f424..10952de 100755
--- a/src/socket/v1.rs
+++ b/src/socket/v1.rs
@@ -130,7 +130,11 @@ impl SnmpSocket for SnmpV1ClientSocket {
         msg.push_ber(buf)
     }
 
-    fn unwrap_pdu<'a>(&'a mut self, msg: Self::Message<'a>) -> Option<SnmpPdu<'a>> {
+    fn unwrap_pdu<'a>(
+        &'a mut self,
+        msg: Self::Message<'a>,
+        _data: &'a [u8],
+    ) -> Option<SnmpPdu<'a>> {
         // Check communnity
         if msg.community != self.community.as_bytes() {
             return None;
diff --git a/src/socket/v2c.rs b/src/socket/v2c.rs
index 06d462f..91f01f7 100644
--- a/src/socket/v2c.rs
+++ b/src/socket/v2c.rs
@@ -129,7 +129,11 @@ impl SnmpSocket for SnmpV2cClientSocket {
         msg.push_ber(buf)
     }
 
-    fn unwrap_pdu<'a>(&'a mut self, msg: Self::Message<'a>) -> Option<SnmpPdu<'a>> {
+    fn unwrap_pdu<'a>(
+        &'a mut self,
+        msg: Self::Message<'a>,
+        _data: &'a [u8],
+    ) -> Option<SnmpPdu<'a>> {
         // Check communnity
         if msg.community != self.community.as_bytes() {
             return None;
diff --git a/src/socket/v3.rs b/src/socket/v3.rs
index 4d8519c..b4d6af1 100644
--- a/src/socket/v3.rs
+++ b/src/socket/v3.rs
@@ -188,6 +188,31 @@ impl SnmpV3ClientSocket {
     }
 }
 
+impl SnmpV3ClientSocket {
+    /// Check message authentication code.
+    /// auth_params must be the part of data.
+    fn is_authentic(&self, data: &[u8], auth_params: &[u8]) -> bool {
+        let placeholder = self.auth_key.placeholder();
+        if auth_params.len() != placeholder.len() {
+            return false;
+        }
+        // Sign the message with zeroed authentication parameters
+        let offset = auth_params.as_ptr() as usize - data.as_ptr() as usize;
+        let end = offset + auth_params.len();
+        let mut msg = data.to_vec();
+        msg[offset..end].copy_from_slice(placeholder);
+        if self.auth_key.sign(&mut msg, offset).is_err() {
+            return false;
+        }
+        // Do not expose the position of mismatch
+        msg[offset..end]
+            .iter()
+            .zip(auth_params)
+            .fold(0u8, |acc, (x, y)| acc | (x ^ y))
+            == 0
+    }
+}
+
 impl SnmpSocket for SnmpV3ClientSocket {
     type Message<'a> = SnmpV3Message<'a>;
 
@@ -244,7 +269,18 @@ impl SnmpSocket for SnmpV3ClientSocket {
         self.auth_key.sign(buf.data_mut(), offset)
     }
 
-    fn unwrap_pdu<'a>(&'a mut self, msg: Self::Message<'a>) -> Option<SnmpPdu<'a>> {
+    fn unwrap_pdu<'a>(&'a mut self, msg: Self::Message<'a>, data: &'a [u8]) -> Option<SnmpPdu<'a>> {
+        // Check authentication, RFC-3414, pp. 3.2, 6)
+        let is_secure = if self.auth_key.has_auth() {
+            if msg.flag_auth && !self.is_authentic(data, msg.usm.auth_params) {
+                return None;
+            }
+            // Plain text is not acceptable when privacy is configured
+            msg.flag_auth
+                && !(self.priv_key.has_priv() && matches!(msg.data, MsgData::Plaintext(_)))
+        } else {
+            true
+        };
         // Get and decode scoped pdu
         let data = match msg.data {
             MsgData::Plaintext(x) => x,
@@ -253,6 +289,10 @@ impl SnmpSocket for SnmpV3ClientSocket {
                 Err(_) => return None, // Failed to decrypt
             },
         };
+        // Only reports may have lower security level
+        if !is_secure && !matches!(data.pdu, SnmpPdu::Report(_)) {
+            return None;
+        }
         // Global header check
         if !(self.user_name.as_bytes() == msg.usm.user_name
             && (self.engine_id.is_empty() || msg.usm.engine_id == self.engine_id)
-- 
2.43.0


From 00ce22f5789c6c8616d4d73ca1b2f9691bf32f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:55 +0000
Subject: [PATCH 15/19] fix: refuse empty passwords and keys of the wrong size

---
 src/auth/mod.rs | 8 ++++++++
 src/util.rs     | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/src/auth/mod.rs b/src/auth/mod.rs
index 19de9bd..52555a7 100644
--- a/src/auth/mod.rs
+++ b/src/auth/mod.rs
@@ -75,6 +75,14 @@ impl AuthKey {
     }
     pub fn as_key_type(&mut self, alg: u8, key: &[u8], engine_id: &[u8]) -> SnmpResult<()> {
         if self.has_auth() {
+            // Passwords are of any size, keys are fixed
+            let is_valid = match alg & KT_TYPE_MASK {
+                KT_PASSWORD => !key.is_empty(),
+                _ => key.len() == self.get_key_size(),
+            };
+            if !is_valid {
+                return Err(SnmpError::InvalidKey);
+            }
             match alg & KT_TYPE_MASK {
                 KT_PASSWORD => self.as_password(key, engine_id),
                 KT_MASTER => self.as_master(key, engine_id),
diff --git a/src/util.rs b/src/util.rs
index c02d500..819f788 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -14,6 +14,9 @@ use pyo3::types::PyBytes;
 #[pyfunction]
 pub fn get_master_key(py: Python, alg: u8, passwd: &[u8]) -> PyResult<PyObject> {
     let auth = AuthKey::new(alg)?;
+    if passwd.is_empty() {
+        return Err(PyValueError::new_err("empty password"));
+    }
     let mut out = vec![0u8; auth.get_key_size()];
     auth.password_to_master(passwd, &mut out);
     Ok(PyBytes::new(py, &out).into())
-- 
2.43.0


From 50147de9b3d772ecae7fe7ffee154c9deda91f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:08 +0000
Subject: [PATCH 16/19] fix: limit the whole receive loop with the session
 timeout

---
 src/socket/snmpsocket.rs | 46 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 42 insertions(+), 4 deletions(-)

diff --git a/src/socket/snmpsocket.rs b/src/socket/snmpsocket.rs
index 258b1d5..074e19c 100644
--- a/src/socket/snmpsocket.rs
+++ b/src/socket/snmpsocket.rs
@@ -16,7 +16,11 @@ use crate::{
 use pyo3::prelude::*;
 use socket2::{Domain, Protocol, Socket, Type};
 use std::net::SocketAddr;
-use std::time::Duration;
+use std::time::{Duration, Instant};
+
+// Minimal socket timeout. Lesser values are truncated to zero,
+// which means infinite timeout.
+const MIN_TIMEOUT: Duration = Duration::from_micros(1);
 
 pub(crate) trait SnmpSocket
 where
@@ -48,8 +52,7 @@ where
             .map_err(|e| SnmpError::SocketError(e.to_string()))?;
         if timeout_ns > 0 {
             // Blocking mode
-            io.set_read_timeout(Some(Duration::from_nanos(timeout_ns)))
-                .map_err(|e| SnmpError::SocketError(e.to_string()))?;
+            Self::set_timeout(&io, Duration::from_nanos(timeout_ns))?;
         } else {
             // Mark socket as non-blocking
             io.set_nonblocking(true)
@@ -72,6 +75,11 @@ where
             .map_err(|e| SnmpError::SocketError(e.to_string()))?;
         Ok(io)
     }
+    /// Set internal socket's receive timeout
+    fn set_timeout(io: &Socket, timeout: Duration) -> SnmpResult<()> {
+        io.set_read_timeout(Some(timeout.max(MIN_TIMEOUT)))
+            .map_err(|e| SnmpError::SocketError(e.to_string()))
+    }
     /// Set internal socket's send buffer size
     fn set_send_buffer_size(io: &Socket, size: usize) -> SnmpResult<()> {
         // @todo: get wmem_max limit on Linux
@@ -124,6 +132,29 @@ where
     }
 
     fn _recv_inner<'a, T, V>(&mut self, iter: Option<&mut GetIter>) -> PyResult<PyObject>
+    where
+        T: PyOp<'a, V>,
+        V: 'a,
+    {
+        // None in non-blocking mode
+        let timeout = self
+            .get_io()
+            .read_timeout()
+            .map_err(|e| SnmpError::SocketError(e.to_string()))?;
+        let deadline = timeout.map(|x| Instant::now() + x);
+        let r = self._recv_until::<T, V>(iter, deadline);
+        // Restore timeout, which may be altered while skipping replies
+        if let Some(timeout) = timeout {
+            Self::set_timeout(self.get_io(), timeout)?;
+        }
+        r
+    }
+
+    fn _recv_until<'a, T, V>(
+        &mut self,
+        iter: Option<&mut GetIter>,
+        deadline: Option<Instant>,
+    ) -> PyResult<PyObject>
     where
         T: PyOp<'a, V>,
         V: 'a,
@@ -146,7 +177,14 @@ where
                 }
                 None => {
                     buf.reset();
-                    continue;
+                    // Wait for the rest of the timeout
+                    if let Some(deadline) = deadline {
+                        let rest = deadline.saturating_duration_since(Instant::now());
+                        if rest.is_zero() {
+                            return Err(SnmpError::WouldBlock.into());
+                        }
+                        Self::set_timeout(self.get_io(), rest)?;
+                    }
                 }
             }
         }
-- 
2.43.0


From 75f418b3a8ce0f318acb987e3a2afbb090e9d2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:02 +0000
Subject: [PATCH 17/19] fix: round policer interval up, do not exceed the rate

---
 src/gufo/snmp/policer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gufo/snmp/policer.py b/src/gufo/snmp/policer.py
index ddf1bc2..0460f38 100644
--- a/src/gufo/snmp/policer.py
+++ b/src/gufo/snmp/policer.py
@@ -92,10 +92,12 @@ class RPSPolicer(BasePolicer):
             msg = "Invalid RPS"
             raise ValueError(msg)
         self._prev: Optional[int] = None
-        self._delta: int = int(NS / rps)
-        if not self._delta:
+        if NS / rps < 1.0:
             msg = "RPS is too high"
             raise ValueError(msg)
+        # Round the interval up, so the rate never exceeds rps
+        n, d = float(rps).as_integer_ratio()
+        self._delta: int = -(-int(NS) * d // n)
 
     def get_timeout(self: "RPSPolicer", ts: int) -> Optional[int]:
         """
-- 
2.43.0


From ba890a5f5f6dac5d528df70442952e7d9e2ff9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:24 +0000
Subject: [PATCH 18/19] fix: apply policer and timeout mapping to sync refresh

---
 src/gufo/snmp/sync_client/client.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/gufo/snmp/sync_client/client.py b/src/gufo/snmp/sync_client/client.py
index e67dd4a..5000a73 100644
--- a/src/gufo/snmp/sync_client/client.py
+++ b/src/gufo/snmp/sync_client/client.py
@@ -311,7 +311,7 @@ class SnmpSession(object):
 
         if self._deferred_user:
             # First check runs engine id discovery
-            self._sock.refresh()
+            self._refresh()
             # Set and localize actual keys
             self._sock.set_keys(
                 self._deferred_user.name,
@@ -326,7 +326,16 @@ class SnmpSession(object):
             self._deferred_user = None
 
         # Refresh engine boots and time
-        self._sock.refresh()
+        self._refresh()
+
+    def _refresh(self: "SnmpSession") -> None:
+        """Send single request and receive REPORT."""
+        if self._policer:
+            self._policer.wait_sync()
+        try:
+            self._sock.refresh()
+        except BlockingIOError as e:
+            raise TimeoutError from e
 
     def get_engine_id(self: "SnmpSession") -> bytes:
         """
-- 
2.43.0


From a4eb5435e8e9f2352aec212eb1d855c1625bc940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:40 +0000
Subject: [PATCH 19/19] fix: report malformed OIDs in get_many replies as
 decode errors

---
 src/snmp/op/getmany.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/snmp/op/getmany.rs b/src/snmp/op/getmany.rs
index a00dbe2..e9b3f1b 100644
--- a/src/snmp/op/getmany.rs
+++ b/src/snmp/op/getmany.rs
@@ -9,7 +9,9 @@ use super::{GetIter, PyOp};
 use crate::ber::SnmpOid;
 use crate::error::SnmpError;
 use crate::snmp::{get::SnmpGet, msg::SnmpPdu, value::SnmpValue};
-use pyo3::{exceptions::PyRuntimeError, prelude::*, pybacked::PyBackedStr, types::PyDict};
+use pyo3::{
+    IntoPyObject, exceptions::PyRuntimeError, prelude::*, pybacked::PyBackedStr, types::PyDict,
+};
 
 pub struct OpGetMany;
 
@@ -40,7 +42,7 @@ impl<'a> PyOp<'a, Vec<PyBackedStr>> for OpGetMany {
                         | SnmpValue::NoSuchInstance
                         | SnmpValue::EndOfMibView => continue,
                         _ => dict
-                            .set_item(&var.oid, &var.value)
+                            .set_item(var.oid.into_pyobject(py)?, var.value.into_pyobject(py)?)
                             .map_err(|e| PyRuntimeError::new_err(e.to_string()))?,
                     }
                 }
-- 
2.43.0

