From a57a0dcae6ba9626046a6c9631bf9c170f46c214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:15 +0000
Subject: [PATCH 01/38] fix: encode the lower bound of a constrained integer
 with a range above 64K

The offset 0 takes one octet (X.691 10.5.7.1 / 10.3.6), not none.
---
 codecs/src/aper/encode/encode_internal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codecs/src/aper/encode/encode_internal.rs b/codecs/src/aper/encode/encode_internal.rs
index c944c7d..41f9ed4 100644
--- a/codecs/src/aper/encode/encode_internal.rs
+++ b/codecs/src/aper/encode/encode_internal.rs
@@ -93,7 +93,7 @@ pub(super) fn encode_constrained_whole_number(
     } else {
         let bytes_needed_for_range = crate::aper::bytes_needed_for_range(range) as i128;
         let bytes = value.to_be_bytes();
-        let first_non_zero = bytes.iter().position(|x| *x != 0).unwrap_or(16);
+        let first_non_zero = bytes.iter().position(|x| *x != 0).unwrap_or(15);
         encode_constrained_whole_number(
             data,
             1,
-- 
2.43.0


From c3a48603454116a00852297dd65fe7eb57d4288d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:15 +0000
Subject: [PATCH 02/38] fix: size the length field of large constrained
 integers by the largest offset

For ranges that are an exact power of 256 (0..4294967295, say) the length
of the length field was one bit too many.
---
 codecs/src/aper/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/codecs/src/aper/mod.rs b/codecs/src/aper/mod.rs
index 2b0cdcd..ce5413b 100644
--- a/codecs/src/aper/mod.rs
+++ b/codecs/src/aper/mod.rs
@@ -372,7 +372,8 @@ impl AperCodecData {
 }
 
 fn bytes_needed_for_range(range: i128) -> u8 {
-    let bits_needed: u8 = 128 - range.leading_zeros() as u8;
+    // The largest value to be encoded is one less than the number of values.
+    let bits_needed: u8 = 128 - (range - 1).leading_zeros() as u8;
     let mut bytes_needed = bits_needed / 8;
     if bits_needed % 8 != 0 {
         bytes_needed += 1
-- 
2.43.0


From cea9a639f260568b63e1997c9a2e6bec3a221610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:15 +0000
Subject: [PATCH 03/38] fix: encode semi-constrained integers as
 non-negative-binary-integers

They carried a sign octet that X.691 10.7.4 does not have.
---
 codecs/src/aper/encode/encode_internal.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/codecs/src/aper/encode/encode_internal.rs b/codecs/src/aper/encode/encode_internal.rs
index 41f9ed4..aa9a451 100644
--- a/codecs/src/aper/encode/encode_internal.rs
+++ b/codecs/src/aper/encode/encode_internal.rs
@@ -41,7 +41,19 @@ pub(super) fn encode_semi_constrained_whole_number(
         )));
     }
 
-    encode_unconstrained_whole_number(data, value - lb)
+    let value = value.checked_sub(lb).ok_or_else(|| {
+        AperCodecError::new(format!(
+            "Cannot encode integer {} with lower bound {} - too large",
+            value, lb,
+        ))
+    })?;
+
+    // 10.7.4: a non-negative-binary-integer in the minimum number of octets.
+    let bytes = value.to_be_bytes();
+    let first_non_zero = bytes.iter().position(|x| *x != 0).unwrap_or(15);
+    encode_length_determinent(data, None, None, false, 16 - first_non_zero)?;
+    data.append_bits(bytes[first_non_zero..16].view_bits());
+    Ok(())
 }
 
 pub(super) fn encode_constrained_whole_number(
-- 
2.43.0


From ba3ebbd8e911f1797c4b8de246d1ca0afcdf192c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:15 +0000
Subject: [PATCH 04/38] fix: decode integers of every width up to 128 bits,
 refuse larger ones

Signed values of 9 to 15 octets were refused and values of 17 octets or
more panicked.
---
 codecs/src/aper/mod.rs | 105 +++++++++--------------------------------
 1 file changed, 21 insertions(+), 84 deletions(-)

diff --git a/codecs/src/aper/mod.rs b/codecs/src/aper/mod.rs
index ce5413b..eb1a4b9 100644
--- a/codecs/src/aper/mod.rs
+++ b/codecs/src/aper/mod.rs
@@ -117,93 +117,30 @@ impl AperCodecData {
                 if bits == 0 {
                     0_i128
                 } else {
-                    self.bits[self.decode_offset..self.decode_offset + bits].load_be::<u128>()
-                        as i128
+                    // The result has to be representable as an `i128`.
+                    let zeros = self.bits[self.decode_offset..self.decode_offset + bits]
+                        .leading_zeros();
+                    if bits - zeros > 127 {
+                        return Err(AperCodecError::new(format!(
+                            "Value encoded in {} bits is too large.",
+                            bits
+                        )));
+                    }
+                    let start = self.decode_offset + std::cmp::min(zeros, bits - 1);
+                    self.bits[start..self.decode_offset + bits].load_be::<u128>() as i128
                 }
             } else {
-                match bits {
-                    8 => {
-                        let inner = self.bits[self.decode_offset..self.decode_offset + bits]
-                            .load_be::<u128>() as i8;
-                        inner as i128
-                    }
-                    16 => {
-                        let inner = self.bits[self.decode_offset..self.decode_offset + bits]
-                            .load_be::<u128>() as i16;
-                        inner as i128
-                    }
-                    24 => {
-                        let inner = self.bits[self.decode_offset..self.decode_offset + bits]
-                            .load_be::<u32>() as u32;
-                        let inner = if self.bits[self.decode_offset] {
-                            // Bit is 1 negative no.
-                            inner | 0xFF000000
-                        } else {
-                            inner & 0x00FFFFFF
-                        };
-                        let inner = inner as i32;
-                        inner as i128
-                    }
-                    32 => {
-                        let inner = self.bits[self.decode_offset..self.decode_offset + bits]
-                            .load_be::<u128>() as i32;
-                        inner as i128
-                    }
-                    40 => {
-                        let inner = self.bits[self.decode_offset..self.decode_offset + bits]
-                            .load_be::<u64>() as u64;
-                        let inner = if self.bits[self.decode_offset] {
-                            // Bit is 1 negative no.
-                            inner | 0xFFFFFF0000000000
-                        } else {
-                            inner & 0x000000FFFFFFFFFF
-                        };
-                        let inner = inner as i64;
-                        inner as i128
-                    }
-                    48 => {
-                        let inner = self.bits[self.decode_offset..self.decode_offset + bits]
-                            .load_be::<u64>() as u64;
-                        let inner = if self.bits[self.decode_offset] {
-                            // Bit is 1 negative no.
-                            inner | 0xFFFF000000000000
-                        } else {
-                            inner & 0x0000FFFFFFFFFFFF
-                        };
-                        let inner = inner as i64;
-                        inner as i128
-                    }
-                    56 => {
-                        eprintln!("{}", self.decode_offset);
-                        let inner = self.bits[self.decode_offset..self.decode_offset + bits]
-                            .load_be::<u64>() as u64;
-                        let inner = if self.bits[self.decode_offset] {
-                            // Bit is 1 negative no.
-                            inner | 0xFF00000000000000
-                        } else {
-                            inner & 0x00FFFFFFFFFFFFFF
-                        };
-                        let inner = inner as i64;
-                        inner as i128
-                    }
-                    64 => {
-                        let inner = self.bits[self.decode_offset..self.decode_offset + bits]
-                            .load_be::<u128>() as i64;
-                        inner as i128
-                    }
-                    128 => {
-                        let inner = self.bits[self.decode_offset..self.decode_offset + bits]
-                            .load_be::<u128>() as i128;
-                        inner as i128
-                    }
-                    _ => {
-                        return Err(
-                            AperCodecError::new(
-                                format!(
-                                    "For a signed number in 2's compliment form, requested bits {} not supported!",
-                                    bits)));
-                    }
+                if bits == 0 || bits > 128 {
+                    return Err(
+                        AperCodecError::new(
+                            format!(
+                                "For a signed number in 2's compliment form, requested bits {} not supported!",
+                                bits)));
                 }
+                let inner = self.bits[self.decode_offset..self.decode_offset + bits]
+                    .load_be::<u128>() as i128;
+                // Sign extend from the width read.
+                (inner << (128 - bits)) >> (128 - bits)
             };
             log::trace!("Decoded Value: {:?}", value);
             self.advance_maybe_err(bits, false)?;
-- 
2.43.0


From 4dbd2aa5e1f604cff2febe39c85f968c11c88b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:21 +0000
Subject: [PATCH 05/38] fix: do not overflow on integers and ranges beyond i128

---
 codecs/src/aper/decode/decode_internal.rs | 8 ++++++--
 codecs/src/aper/encode/encode_internal.rs | 5 ++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/codecs/src/aper/decode/decode_internal.rs b/codecs/src/aper/decode/decode_internal.rs
index 3632214..c9b7587 100644
--- a/codecs/src/aper/decode/decode_internal.rs
+++ b/codecs/src/aper/decode/decode_internal.rs
@@ -152,7 +152,8 @@ pub(super) fn decode_semi_constrained_whole_number(
     let bits = length * 8;
     let val = data.decode_bits_as_integer(bits, false)?;
 
-    Ok(val + lb)
+    val.checked_add(lb)
+        .ok_or_else(|| AperCodecError::new("Decoded Integer value is too large."))
 }
 
 // Decode a 'constrained' whole number where both `lb` and `ub` are available.
@@ -165,7 +166,10 @@ pub(super) fn decode_constrained_whole_number(
 ) -> Result<i128, AperCodecError> {
     log::trace!("decode_constrained_whole_number: lb: {}, ub: {}", lb, ub,);
 
-    let range = ub - lb + 1;
+    let range = ub
+        .checked_sub(lb)
+        .and_then(|r| r.checked_add(1))
+        .ok_or_else(|| AperCodecError::new("Range for the Integer Constraint is too large."))?;
     if range <= 0 {
         Err(AperCodecError::new(
             "Range for the Integer Constraint is negative.",
diff --git a/codecs/src/aper/encode/encode_internal.rs b/codecs/src/aper/encode/encode_internal.rs
index aa9a451..431e5ba 100644
--- a/codecs/src/aper/encode/encode_internal.rs
+++ b/codecs/src/aper/encode/encode_internal.rs
@@ -76,7 +76,10 @@ pub(super) fn encode_constrained_whole_number(
         )));
     }
 
-    let range = ub - lb + 1;
+    let range = ub
+        .checked_sub(lb)
+        .and_then(|r| r.checked_add(1))
+        .ok_or_else(|| AperCodecError::new("Range for the Integer Constraint is too large."))?;
     let value = value - lb;
 
     if range <= 256 {
-- 
2.43.0


From 8c0de26e22191f02f9a36834184c9cf09a1f415d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:21 +0000
Subject: [PATCH 06/38] fix: refuse constrained whole numbers above their upper
 bound when decoding

The bit field is usually wider than the range.
---
 codecs/src/aper/decode/decode_internal.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/codecs/src/aper/decode/decode_internal.rs b/codecs/src/aper/decode/decode_internal.rs
index c9b7587..9de6eb8 100644
--- a/codecs/src/aper/decode/decode_internal.rs
+++ b/codecs/src/aper/decode/decode_internal.rs
@@ -202,6 +202,12 @@ pub(super) fn decode_constrained_whole_number(
             data.decode_bits_as_integer(length * 8, false)?
         };
 
+        if value >= range {
+            return Err(AperCodecError::new(format!(
+                "Decoded value {} is outside the range {}..{}.",
+                value, lb, ub
+            )));
+        }
         Ok(value + lb)
     }
 }
-- 
2.43.0


From 7bd51da5bbaa61df798a6bd18f29438e83b22630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:22 +0000
Subject: [PATCH 07/38] fix: apply an upper bound without a lower bound to
 integers

---
 codecs/src/aper/decode/mod.rs | 9 ++++++++-
 codecs/src/aper/encode/mod.rs | 6 ++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/codecs/src/aper/decode/mod.rs b/codecs/src/aper/decode/mod.rs
index 3b2d7b8..8d67c7c 100644
--- a/codecs/src/aper/decode/mod.rs
+++ b/codecs/src/aper/decode/mod.rs
@@ -115,7 +115,14 @@ pub fn decode_integer(
             None =>
             // 12.2.4
             {
-                decode_unconstrained_whole_number(data)?
+                let value = decode_unconstrained_whole_number(data)?;
+                if ub.map(|ub| value > ub).unwrap_or(false) {
+                    return Err(AperCodecError::new(format!(
+                        "Decoded integer {} is greater than upper bound {:?}",
+                        value, ub
+                    )));
+                }
+                value
             }
             Some(lb) => {
                 match ub {
diff --git a/codecs/src/aper/encode/mod.rs b/codecs/src/aper/encode/mod.rs
index 736338f..8dcc89a 100644
--- a/codecs/src/aper/encode/mod.rs
+++ b/codecs/src/aper/encode/mod.rs
@@ -106,6 +106,12 @@ pub fn encode_integer(
     }
 
     let _ = match (lb, ub) {
+        (None, Some(ub)) if value > ub => {
+            return Err(AperCodecError::new(format!(
+                "Cannot encode integer {} - greater than upper bound {}",
+                value, ub,
+            )))
+        }
         (None, _) => encode_unconstrained_whole_number(data, value)?,
         (Some(lb), None) => encode_semi_constrained_whole_number(data, lb, value)?,
         (Some(lb), Some(ub)) => encode_constrained_whole_number(data, lb, ub, value)?,
-- 
2.43.0


From 5cf69adf7b348771c253f1a3cbe3ac76c5bbe143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:36 +0000
Subject: [PATCH 08/38] fix: decode character strings that do not start at an
 octet boundary

Loading an octet that spans two bytes of the buffer as little endian mixed
its bits up.
---
 codecs/src/aper/decode/decode_charstrings.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/codecs/src/aper/decode/decode_charstrings.rs b/codecs/src/aper/decode/decode_charstrings.rs
index 96fbcc6..cceb685 100644
--- a/codecs/src/aper/decode/decode_charstrings.rs
+++ b/codecs/src/aper/decode/decode_charstrings.rs
@@ -1,6 +1,4 @@
 //! Functionality for decoding character strings
-use bitvec::field::BitField;
-
 use crate::aper::AperCodecData;
 use crate::aper::AperCodecError;
 
@@ -76,16 +74,10 @@ fn decode_string(
         decode_length_determinent(data, lb, ub, false)?
     };
 
-    let num_bits = 8;
-    let length = length * num_bits;
-    if length > 16 {
+    if length > 2 {
         data.decode_align()?;
     }
-    let bits = data.get_bitvec(length)?;
-    let bytes = bits
-        .chunks_exact(num_bits)
-        .map(|c| c.load::<u8>())
-        .collect::<Vec<u8>>();
+    let bytes = data.get_bytes(length)?;
 
     data.dump();
 
-- 
2.43.0


From 7010509e51b43192576df170a9037539ed13de61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:03 +0000
Subject: [PATCH 09/38] fix: decode strings of 16K units and more

Only the fragmented form of a length determinant is followed by another one:
a size bounded below 64K is not fragmented, and character strings never
looked for a second fragment. Sizes of the unconstrained form are now checked
against the size constraint.
---
 codecs/src/aper/decode/decode_charstrings.rs | 24 +++--
 codecs/src/aper/decode/decode_internal.rs    | 97 ++++++++++----------
 codecs/src/aper/decode/mod.rs                | 36 ++++----
 3 files changed, 87 insertions(+), 70 deletions(-)

diff --git a/codecs/src/aper/decode/decode_charstrings.rs b/codecs/src/aper/decode/decode_charstrings.rs
index cceb685..4d8363c 100644
--- a/codecs/src/aper/decode/decode_charstrings.rs
+++ b/codecs/src/aper/decode/decode_charstrings.rs
@@ -2,7 +2,7 @@
 use crate::aper::AperCodecData;
 use crate::aper::AperCodecError;
 
-use super::decode_internal::decode_length_determinent;
+use super::decode_internal::{check_size, decode_length_or_fragment};
 
 // 27.5.3 and 27.5.4
 /// Decode a VisibleString CharacterString Type.
@@ -68,16 +68,26 @@ fn decode_string(
         false
     };
 
-    let length = if is_extended {
-        decode_length_determinent(data, None, None, false)?
+    let (lb, ub) = if is_extended {
+        (None, None)
     } else {
-        decode_length_determinent(data, lb, ub, false)?
+        (lb, ub)
     };
 
-    if length > 2 {
-        data.decode_align()?;
+    let num_bits = 8;
+    let mut bytes = Vec::new();
+    loop {
+        let (length, is_fragment) = decode_length_or_fragment(data, lb, ub)?;
+        if length * num_bits > 16 {
+            data.decode_align()?;
+        }
+        bytes.extend(data.get_bytes(length)?);
+        // Fragmented So get the chunks in multiples of 16384,
+        if !is_fragment {
+            break;
+        }
     }
-    let bytes = data.get_bytes(length)?;
+    check_size(bytes.len(), lb, ub)?;
 
     data.dump();
 
diff --git a/codecs/src/aper/decode/decode_internal.rs b/codecs/src/aper/decode/decode_internal.rs
index 9de6eb8..ae912bc 100644
--- a/codecs/src/aper/decode/decode_internal.rs
+++ b/codecs/src/aper/decode/decode_internal.rs
@@ -31,7 +31,12 @@ fn decode_normally_small_length_determinent(
     if !is_small {
         Ok(data.decode_bits_as_integer(6, false)? as usize + 1_usize)
     } else {
-        decode_indefinite_length_determinent(data)
+        match decode_indefinite_length_determinent(data)? {
+            (length, false) => Ok(length),
+            (_, true) => Err(AperCodecError::new(
+                "AperCodec:DecodeError:Fragmented contents are not expected.",
+            )),
+        }
     }
 }
 
@@ -52,60 +57,59 @@ pub fn decode_length_determinent(
         return decode_normally_small_length_determinent(data);
     }
 
-    let lb = if let Some(l) = lb {
-        l.try_into().unwrap()
-    } else {
-        0usize
-    };
-
-    if let Some(ub) = ub {
-        let ub: usize = ub.try_into().unwrap();
-        if ub < 65_536 {
-            if lb == ub {
-                return Ok(ub);
-            }
+    let (length, is_fragment) = decode_length_or_fragment(data, lb, ub)?;
+    if is_fragment {
+        return Err(AperCodecError::new(
+            "AperCodec:DecodeError:Fragmented contents are not expected.",
+        ));
+    }
+    check_size(length, lb, ub)?;
+    Ok(length)
+}
 
+// Decodes one Length Determinent, the flag returned is `true` if the length is that of a fragment
+// (10.9.3.8) and hence is followed by that many items and one more Length Determinent. The total
+// should be checked by the caller with `check_size`.
+pub fn decode_length_or_fragment(
+    data: &mut AperCodecData,
+    lb: Option<i128>,
+    ub: Option<i128>,
+) -> Result<(usize, bool), AperCodecError> {
+    match ub {
+        Some(ub) if ub < 65_536 => {
             // 10.9.3.3
-            decode_constrained_length_determinent(data, lb, ub)
-        } else {
-            decode_indefinite_length_determinent(data)
+            let length = decode_constrained_whole_number(data, lb.unwrap_or(0), ub)?;
+            let length = length
+                .try_into()
+                .map_err(|_| AperCodecError::new("Negative size constraint."))?;
+            Ok((length, false))
         }
-    } else {
-        // ub is None, it's an unconstrained one
-        decode_indefinite_length_determinent(data)
+        _ => decode_indefinite_length_determinent(data),
     }
 }
 
-// Called when `lb` and `ub` are known and the range is less than 64K
-fn decode_constrained_length_determinent(
-    data: &mut AperCodecData,
-    lb: usize,
-    ub: usize,
-) -> Result<usize, AperCodecError> {
-    log::trace!(
-        "decode_constrained_length_determinent, lb: {}, ub: {}",
-        lb,
-        ub
-    );
-
-    let range = ub - lb + 1;
-
-    if range <= 65536 {
-        // Almost always for our use cases, so let's just use it.
-        let length = decode_constrained_whole_number(data, lb as i128, ub as i128)?;
-        log::trace!("decoded length : {}", length);
-
-        data.dump();
-
-        Ok(length as usize)
-    } else {
-        unimplemented!("Lengths larger than 65536 are not supported yet.")
+/// Checks the size of a decoded value against the size constraint.
+pub fn check_size(
+    length: usize,
+    lb: Option<i128>,
+    ub: Option<i128>,
+) -> Result<(), AperCodecError> {
+    let length = length as i128;
+    if lb.map(|lb| length < lb).unwrap_or(false) || ub.map(|ub| length > ub).unwrap_or(false) {
+        return Err(AperCodecError::new(format!(
+            "AperCodec:DecodeError:Size {} is outside the bounds {:?}..{:?}",
+            length, lb, ub
+        )));
     }
+    Ok(())
 }
 
 // Called when `ub` is not determined or `ub ` - `lb` is greater than 64K and in this case value of
 // `lb` is don't care.
-fn decode_indefinite_length_determinent(data: &mut AperCodecData) -> Result<usize, AperCodecError> {
+fn decode_indefinite_length_determinent(
+    data: &mut AperCodecData,
+) -> Result<(usize, bool), AperCodecError> {
+    let mut is_fragment = false;
     let _ = data.decode_align()?;
     let first = data.decode_bool()?;
     let length = if !first {
@@ -119,6 +123,7 @@ fn decode_indefinite_length_determinent(data: &mut AperCodecData) -> Result<usiz
             if !(1..=4).contains(&length) {
                 return Err(AperCodecError::new("The value should be 1 to 4"));
             } else {
+                is_fragment = true;
                 length * 16384
             }
         }
@@ -126,7 +131,7 @@ fn decode_indefinite_length_determinent(data: &mut AperCodecData) -> Result<usiz
 
     data.dump();
 
-    Ok(length.try_into().unwrap())
+    Ok((length as usize, is_fragment))
 }
 
 // Section 10.8 X.691
@@ -197,7 +202,7 @@ pub(super) fn decode_constrained_whole_number(
         } else {
             let bytes_needed = crate::aper::bytes_needed_for_range(range);
             log::trace!("bytes_needed : {}", bytes_needed);
-            let length = decode_constrained_length_determinent(data, 1, bytes_needed as usize)?;
+            let length = decode_constrained_whole_number(data, 1, bytes_needed as i128)? as usize;
             let _ = data.decode_align()?;
             data.decode_bits_as_integer(length * 8, false)?
         };
diff --git a/codecs/src/aper/decode/mod.rs b/codecs/src/aper/decode/mod.rs
index 8d67c7c..811c056 100644
--- a/codecs/src/aper/decode/mod.rs
+++ b/codecs/src/aper/decode/mod.rs
@@ -7,7 +7,7 @@ use crate::aper::AperCodecError;
 mod decode_internal;
 use decode_internal::*;
 
-pub use decode_internal::decode_length_determinent;
+pub use decode_internal::{check_size, decode_length_determinent, decode_length_or_fragment};
 
 /// Decode a Choice Index.
 ///
@@ -217,13 +217,15 @@ pub fn decode_bitstring(
         false
     };
 
+    let (lb, ub) = if is_extended {
+        (None, None)
+    } else {
+        (lb, ub)
+    };
+
     let mut bv = BitVec::new();
     loop {
-        let length = if is_extended {
-            decode_length_determinent(data, None, None, false)?
-        } else {
-            decode_length_determinent(data, lb, ub, false)?
-        };
+        let (length, is_fragment) = decode_length_or_fragment(data, lb, ub)?;
 
         if length > 0 {
             if length > 16 {
@@ -233,12 +235,11 @@ pub fn decode_bitstring(
         }
 
         // Fragmented So get the chunks in multiples of 16384,
-        if length >= 16384 {
-            continue;
-        } else {
+        if !is_fragment {
             break;
         }
     }
+    check_size(bv.len(), lb, ub)?;
 
     data.dump();
 
@@ -267,13 +268,15 @@ pub fn decode_octetstring(
         false
     };
 
+    let (lb, ub) = if is_extended {
+        (None, None)
+    } else {
+        (lb, ub)
+    };
+
     let mut octets = Vec::new();
     loop {
-        let length = if is_extended {
-            decode_length_determinent(data, None, None, false)?
-        } else {
-            decode_length_determinent(data, lb, ub, false)?
-        };
+        let (length, is_fragment) = decode_length_or_fragment(data, lb, ub)?;
 
         if length > 0 {
             if length > 2 {
@@ -283,12 +286,11 @@ pub fn decode_octetstring(
         }
 
         // Fragmented So get the chunks in multiples of 16384,
-        if length >= 16384 {
-            continue;
-        } else {
+        if !is_fragment {
             break;
         }
     }
+    check_size(octets.len(), lb, ub)?;
 
     data.dump();
 
-- 
2.43.0


From e1a45dbe7e129b870ac03925b01ea0f4eee08837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:03 +0000
Subject: [PATCH 10/38] fix: encode normally small lengths 33 to 64 in the
 short form, refuse zero

X.691 10.9.3.4 has the six bit form for up to 64; zero underflowed.
---
 codecs/src/aper/encode/encode_internal.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/codecs/src/aper/encode/encode_internal.rs b/codecs/src/aper/encode/encode_internal.rs
index 431e5ba..fd227bd 100644
--- a/codecs/src/aper/encode/encode_internal.rs
+++ b/codecs/src/aper/encode/encode_internal.rs
@@ -144,7 +144,12 @@ pub(super) fn encode_normally_small_length_determinent(
     data: &mut AperCodecData,
     value: usize,
 ) -> Result<(), AperCodecError> {
-    if value <= 32 {
+    if value == 0 {
+        return Err(AperCodecError::new(
+            "Normally small length determinent cannot be zero",
+        ));
+    }
+    if value <= 64 {
         let byte = (value - 1) as u8;
         data.encode_bool(false);
         data.append_bits(&byte.view_bits::<Msb0>()[2..8]);
-- 
2.43.0


From 12d3838f5d34ae4f18722f58b0f87186fafe7274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:04 +0000
Subject: [PATCH 11/38] fix: do not panic when the data ends where padding is
 expected

---
 codecs/src/aper/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/codecs/src/aper/mod.rs b/codecs/src/aper/mod.rs
index eb1a4b9..b184115 100644
--- a/codecs/src/aper/mod.rs
+++ b/codecs/src/aper/mod.rs
@@ -64,6 +64,13 @@ impl AperCodecData {
         let remaining = 8 - (self.decode_offset & 0x7_usize);
         log::debug!("Aligning Codec Buffer with {} bits", remaining);
 
+        if self.decode_offset + remaining > self.bits.len() {
+            return Err(AperCodecError::new(format!(
+                "AperCodec:DecodeError:End of Bitstream reached while aligning at Offset {}.",
+                self.decode_offset
+            )));
+        }
+
         if !self.bits[self.decode_offset..self.decode_offset + remaining]
             .iter()
             .all(|b| b == false)
-- 
2.43.0


From e9936ff39a295ac519f52e62b337270494de028f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:04 +0000
Subject: [PATCH 12/38] fix: align the contents of short strings of variable
 size

Only strings of a fixed size of up to 16 bits (for character strings also a
largest size below 16 bits) are not octet aligned.
---
 codecs/src/aper/decode/decode_charstrings.rs |  9 +++++++--
 codecs/src/aper/decode/mod.rs                |  6 ++++--
 codecs/src/aper/encode/mod.rs                | 14 +++++++++++---
 3 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/codecs/src/aper/decode/decode_charstrings.rs b/codecs/src/aper/decode/decode_charstrings.rs
index 4d8363c..2cdda8e 100644
--- a/codecs/src/aper/decode/decode_charstrings.rs
+++ b/codecs/src/aper/decode/decode_charstrings.rs
@@ -74,11 +74,16 @@ fn decode_string(
         (lb, ub)
     };
 
-    let num_bits = 8;
     let mut bytes = Vec::new();
     loop {
         let (length, is_fragment) = decode_length_or_fragment(data, lb, ub)?;
-        if length * num_bits > 16 {
+        // 27.5.6 and 27.5.7
+        let aligned = match ub {
+            Some(ub) if lb == Some(ub) => length > 2,
+            Some(ub) => ub >= 2,
+            None => true,
+        };
+        if length > 0 && aligned {
             data.decode_align()?;
         }
         bytes.extend(data.get_bytes(length)?);
diff --git a/codecs/src/aper/decode/mod.rs b/codecs/src/aper/decode/mod.rs
index 811c056..b3aa409 100644
--- a/codecs/src/aper/decode/mod.rs
+++ b/codecs/src/aper/decode/mod.rs
@@ -228,7 +228,8 @@ pub fn decode_bitstring(
         let (length, is_fragment) = decode_length_or_fragment(data, lb, ub)?;
 
         if length > 0 {
-            if length > 16 {
+            // 16.9: Only values of a fixed size up to 16 are not aligned.
+            if lb != ub || length > 16 {
                 let _ = data.decode_align()?;
             }
             bv.extend(data.get_bitvec(length)?);
@@ -279,7 +280,8 @@ pub fn decode_octetstring(
         let (length, is_fragment) = decode_length_or_fragment(data, lb, ub)?;
 
         if length > 0 {
-            if length > 2 {
+            // 15.9: Only values of a fixed size up to 2 are not aligned.
+            if lb != ub || length > 2 {
                 let _ = data.decode_align()?;
             }
             octets.extend(data.get_bytes(length)?);
diff --git a/codecs/src/aper/encode/mod.rs b/codecs/src/aper/encode/mod.rs
index 8dcc89a..6ea70f3 100644
--- a/codecs/src/aper/encode/mod.rs
+++ b/codecs/src/aper/encode/mod.rs
@@ -205,7 +205,8 @@ pub fn encode_bitstring(
 
     encode_length_determinent(data, lb, ub, false, length)?;
     if length > 0 {
-        if length > 16 {
+        // 16.9: Only values of a fixed size up to 16 are not aligned.
+        if lb != ub || length > 16 {
             data.align();
         }
         data.append_bits(bit_string);
@@ -254,7 +255,8 @@ pub fn encode_octetstring(
     encode_length_determinent(data, lb, ub, false, length)?;
 
     if length > 0 {
-        if length > 2 {
+        // 15.9: Only values of a fixed size up to 2 are not aligned.
+        if lb != ub || length > 2 {
             data.align();
         }
         data.append_bits(octet_string.view_bits());
@@ -337,7 +339,13 @@ fn encode_string(
         data.encode_bool(extended);
     }
     encode_length_determinent(data, lb, ub, false, value.len())?;
-    if value.len() > 2 {
+    // 27.5.6 and 27.5.7
+    let aligned = match ub {
+        Some(ub) if lb == Some(ub) => value.len() > 2,
+        Some(ub) => ub >= 2,
+        None => true,
+    };
+    if !value.is_empty() && aligned {
         data.align();
     }
     data.append_bits(value.as_bits());
-- 
2.43.0


From 08d862d1eaa73ec9744aa136af0a64dea1429fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:04 +0000
Subject: [PATCH 13/38] fix: do not apply size constraints to the encoding of
 UTF8String

X.691 27.6: it is always encoded with an unconstrained length and without
extension bit.
---
 codecs/src/aper/decode/decode_charstrings.rs | 3 ++-
 codecs/src/aper/encode/mod.rs                | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/codecs/src/aper/decode/decode_charstrings.rs b/codecs/src/aper/decode/decode_charstrings.rs
index 2cdda8e..6a87491 100644
--- a/codecs/src/aper/decode/decode_charstrings.rs
+++ b/codecs/src/aper/decode/decode_charstrings.rs
@@ -53,7 +53,8 @@ pub fn decode_utf8_string(
         ub,
         is_extensible
     );
-    decode_string(data, lb, ub, is_extensible)
+    // The size constraint counts characters and is not PER-visible.
+    decode_string(data, None, None, false)
 }
 
 fn decode_string(
diff --git a/codecs/src/aper/encode/mod.rs b/codecs/src/aper/encode/mod.rs
index 6ea70f3..45bc3f3 100644
--- a/codecs/src/aper/encode/mod.rs
+++ b/codecs/src/aper/encode/mod.rs
@@ -414,7 +414,8 @@ pub fn encode_utf8_string(
         extended
     );
 
-    encode_string(data, lb, ub, is_extensible, value, extended)
+    // The size constraint counts characters and is not PER-visible.
+    encode_string(data, None, None, false, value, extended)
 }
 #[cfg(test)]
 mod tests {
-- 
2.43.0


From 18c4a45304380cced2adfecbd0395bee06569238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:53 +0000
Subject: [PATCH 14/38] fix: refuse integers that do not fit the type they are
 decoded into

---
 codecs_derive/src/aper/integer.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/codecs_derive/src/aper/integer.rs b/codecs_derive/src/aper/integer.rs
index 8dc44d9..fad422c 100644
--- a/codecs_derive/src/aper/integer.rs
+++ b/codecs_derive/src/aper/integer.rs
@@ -43,7 +43,10 @@ pub(super) fn generate_aper_codec_for_asn_integer(
                 log::debug!(concat!("decode: ", stringify!(#name)));
 
                 let decoded = asn1_codecs::aper::decode::decode_integer(data, #lb, #ub, #ext)?;
-                Ok(Self(decoded.0 as #ty))
+                let value = <#ty as std::convert::TryFrom<i128>>::try_from(decoded.0).map_err(|_| {
+                    asn1_codecs::aper::AperCodecError::new(format!("Value {} is out of range for {}.", decoded.0, stringify!(#name)))
+                })?;
+                Ok(Self(value))
             }
             fn encode(&self, data: &mut asn1_codecs::aper::AperCodecData) -> Result<(), asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("encode: ", stringify!(#name)));
-- 
2.43.0


From deafa26c780621191bbfa10dc16c413d3e96f0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:53 +0000
Subject: [PATCH 15/38] fix: do not decode extension values of ENUMERATED as
 root values

---
 codecs_derive/src/aper/enumerated.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/codecs_derive/src/aper/enumerated.rs b/codecs_derive/src/aper/enumerated.rs
index 80b26d9..c6565cd 100644
--- a/codecs_derive/src/aper/enumerated.rs
+++ b/codecs_derive/src/aper/enumerated.rs
@@ -34,6 +34,15 @@ pub(super) fn generate_aper_codec_for_asn_enumerated(
 
     let (lb, ub, ext) = utils::get_bounds_extensible_from_params(params);
 
+    // The values that are not from the extension root follow those of the root.
+    let ext_base = match params.ub {
+        Some(ref ub) => {
+            let ub = ub.value().parse::<i128>().unwrap();
+            quote! { #ub + 1 }
+        }
+        None => quote! { 0_i128 },
+    };
+
     let tokens = quote! {
 
         impl asn1_codecs::aper::AperCodec for #name {
@@ -44,7 +53,11 @@ pub(super) fn generate_aper_codec_for_asn_enumerated(
 
                 let decoded = asn1_codecs::aper::decode::decode_enumerated(data, #lb, #ub, #ext)?;
 
-                Ok(Self(decoded.0 as #ty))
+                let value = if decoded.1 { decoded.0.saturating_add(#ext_base) } else { decoded.0 };
+                let value = <#ty as std::convert::TryFrom<i128>>::try_from(value).map_err(|_| {
+                    asn1_codecs::aper::AperCodecError::new(format!("Value {} is out of range for {}.", value, stringify!(#name)))
+                })?;
+                Ok(Self(value))
             }
 
             fn encode(&self, data: &mut asn1_codecs::aper::AperCodecData) -> Result<(), asn1_codecs::aper::AperCodecError> {
-- 
2.43.0


From 93e2b4763ecb0f0412fffab00bbf54d08de0d93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:53 +0000
Subject: [PATCH 16/38] fix: code SEQUENCE OF with its extension bit, empty
 lists, fragments and size errors

---
 codecs_derive/src/aper/seqof.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/codecs_derive/src/aper/seqof.rs b/codecs_derive/src/aper/seqof.rs
index 8d5049c..0d50cd5 100644
--- a/codecs_derive/src/aper/seqof.rs
+++ b/codecs_derive/src/aper/seqof.rs
@@ -43,17 +43,24 @@ pub(super) fn generate_aper_codec_for_asn_sequence_of(
             fn decode(data: &mut asn1_codecs::aper::AperCodecData) -> Result<Self::Output, asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("decode: ", stringify!(#name)));
 
-                let length = asn1_codecs::aper::decode::decode_length_determinent(data, #sz_lb, #sz_ub, #sz_ext)?;
+                let is_extended = if #sz_ext {
+                    asn1_codecs::aper::decode::decode_bool(data)?
+                } else {
+                    false
+                };
+                let (sz_lb, sz_ub) = if is_extended { (None, None) } else { (#sz_lb, #sz_ub) };
 
                 let mut items = vec![];
-                let mut count = 0;
                 loop {
-                    items.push(#ty::decode(data)?);
-                    count += 1;
-                    if count == length {
+                    let (length, is_fragment) = asn1_codecs::aper::decode::decode_length_or_fragment(data, sz_lb, sz_ub)?;
+                    for _ in 0..length {
+                        items.push(#ty::decode(data)?);
+                    }
+                    if !is_fragment {
                         break;
                     }
                 }
+                asn1_codecs::aper::decode::check_size(items.len(), sz_lb, sz_ub)?;
 
                 Ok(Self(items))
             }
@@ -61,10 +68,13 @@ pub(super) fn generate_aper_codec_for_asn_sequence_of(
             fn encode(&self, data:&mut asn1_codecs::aper::AperCodecData) -> Result<(), asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("encode: ", stringify!(#name)));
 
-                let _ = asn1_codecs::aper::encode::encode_length_determinent(data, #sz_lb, #sz_ub, #sz_ext, self.0.len());
+                if #sz_ext {
+                    asn1_codecs::aper::encode::encode_bool(data, false)?;
+                }
+                asn1_codecs::aper::encode::encode_length_determinent(data, #sz_lb, #sz_ub, false, self.0.len())?;
 
                 for elem in &self.0 {
-                    let _ = elem.encode(data)?;
+                    elem.encode(data)?;
                 }
                 Ok(())
             }
-- 
2.43.0


From dda9ab32e9224aa2fe2a27a7070b3eb6821abd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:53 +0000
Subject: [PATCH 17/38] fix: skip the extension additions of a SEQUENCE when
 decoding

---
 codecs/src/aper/decode/mod.rs | 18 ++++++++++++++++++
 codecs_derive/src/aper/seq.rs |  8 ++++++--
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/codecs/src/aper/decode/mod.rs b/codecs/src/aper/decode/mod.rs
index b3aa409..bd979fc 100644
--- a/codecs/src/aper/decode/mod.rs
+++ b/codecs/src/aper/decode/mod.rs
@@ -74,6 +74,24 @@ pub fn decode_sequence_header(
     Ok((bitmap, extended))
 }
 
+/// Skip the Extension Additions of a Sequence
+///
+/// The extension additions follow the components of the extension root, as a bitmap of those that
+/// are present and an Open Type for each of them.
+pub fn skip_sequence_extensions(data: &mut AperCodecData) -> Result<(), AperCodecError> {
+    log::debug!("skip_sequence_extensions:");
+
+    let count = decode_length_determinent(data, None, None, true)?;
+    let present = data.get_bitvec(count)?.count_ones();
+    for _ in 0..present {
+        let _ = decode_octetstring(data, None, None, false)?;
+    }
+
+    data.dump();
+
+    Ok(())
+}
+
 /// Decode an Integer
 ///
 /// Given an Integer Specification with PER Visible Constraints, decode an Integer Value to obtain
diff --git a/codecs_derive/src/aper/seq.rs b/codecs_derive/src/aper/seq.rs
index 896c83e..ab661cc 100644
--- a/codecs_derive/src/aper/seq.rs
+++ b/codecs_derive/src/aper/seq.rs
@@ -30,8 +30,12 @@ pub(super) fn generate_aper_codec_for_asn_sequence(
             fn decode(data: &mut asn1_codecs::aper::AperCodecData) -> Result<Self::Output, asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("decode: ", stringify!(#name)));
 
-                let (bitmap, _extensions_present) = asn1_codecs::aper::decode::decode_sequence_header(data, #ext, #opt_count)?;
-                Ok(Self{#(#fld_decode_tokens)*})
+                let (bitmap, extensions_present) = asn1_codecs::aper::decode::decode_sequence_header(data, #ext, #opt_count)?;
+                let value = Self{#(#fld_decode_tokens)*};
+                if extensions_present {
+                    asn1_codecs::aper::decode::skip_sequence_extensions(data)?;
+                }
+                Ok(value)
             }
 
             fn encode(&self, data: &mut asn1_codecs::aper::AperCodecData) -> Result<(), asn1_codecs::aper::AperCodecError> {
-- 
2.43.0


From 30007aec8f169557246fd276c850a5f8192bce6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:53 +0000
Subject: [PATCH 18/38] fix: encode an open type with empty contents as a
 single zero octet

---
 codecs/src/aper/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/codecs/src/aper/mod.rs b/codecs/src/aper/mod.rs
index b184115..4f0d216 100644
--- a/codecs/src/aper/mod.rs
+++ b/codecs/src/aper/mod.rs
@@ -303,7 +303,8 @@ impl AperCodecData {
     /// Get the length of the data in bytes
     /// This is useful when encoding an open type.
     pub fn length_in_bytes(&self) -> usize {
-        ((self.bits.len() - 1) / 8) + 1
+        // An empty encoding is replaced by a single zero octet (X.691 11.1).
+        std::cmp::max((self.bits.len() + 7) / 8, 1)
     }
 
     /// Append one encoding to another preserving byte alignment.
@@ -311,6 +312,9 @@ impl AperCodecData {
     pub fn append_aligned(&mut self, other: &mut Self) {
         self.align();
         other.align();
+        if other.bits.is_empty() {
+            other.bits.resize(8, false);
+        }
         self.append_bits(&other.bits)
     }
 }
-- 
2.43.0


From 3e34724e6561652b72bac2dc7b51dbb09504b939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:53 +0000
Subject: [PATCH 19/38] fix: decode the contents of an open type from the
 octets its length announces

---
 codecs_derive/src/aper/open.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/codecs_derive/src/aper/open.rs b/codecs_derive/src/aper/open.rs
index 8205f6a..63381b7 100644
--- a/codecs_derive/src/aper/open.rs
+++ b/codecs_derive/src/aper/open.rs
@@ -40,9 +40,9 @@ pub(super) fn generate_aper_codec_for_asn_open_type(
             fn decode(data: &mut asn1_codecs::aper::AperCodecData) -> Result<Self::Output, asn1_codecs::aper::AperCodecError> {
                 log::debug!(concat!("decode: ", stringify!(#name)));
 
-                let length = asn1_codecs::aper::decode::decode_length_determinent(data, None, None, false)?;
+                let contents = asn1_codecs::aper::decode::decode_octetstring(data, None, None, false)?;
 
-                log::trace!("open type: decoded length: {}", length);
+                log::trace!("open type: decoded length: {}", contents.len());
 
                 if data.get_key().is_none() {
                     return Err(asn1_codecs::aper::AperCodecError::new("Decoding OPEN Type, but `key` is not determined!"));
@@ -50,6 +50,8 @@ pub(super) fn generate_aper_codec_for_asn_open_type(
 
                 let key = data.get_key().unwrap();
 
+                let mut inner = asn1_codecs::aper::AperCodecData::from_slice(&contents);
+
                 match key {
                     #(#variant_decode_tokens)*
                     _ => Err(asn1_codecs::aper::AperCodecError::new(format!("Key {} Not Found", key).as_str()))
@@ -95,7 +97,7 @@ fn generate_open_type_variant_tokens_using_attrs(
                             let unnamed = unnamed.as_ref().unwrap();
                             let ty = &unnamed.ty;
                             let variant_decode_token = quote! {
-                                #key => Ok(Self::#variant_ident(#ty::decode(data)?)),
+                                #key => Ok(Self::#variant_ident(#ty::decode(&mut inner)?)),
                             };
                             let variant_encode_token = quote! {
                                 Self::#variant_ident(ref v) => v.encode(&mut inner)?,
-- 
2.43.0


From aa4580a0d688336ef180ef587fbaaf7f34d4edee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:04 +0000
Subject: [PATCH 20/38] fix: keep the key of an open type within the SEQUENCE
 it is a component of

---
 codecs/src/aper/mod.rs        | 7 +++++++
 codecs_derive/src/aper/seq.rs | 2 ++
 2 files changed, 9 insertions(+)

diff --git a/codecs/src/aper/mod.rs b/codecs/src/aper/mod.rs
index 4f0d216..deb0f2c 100644
--- a/codecs/src/aper/mod.rs
+++ b/codecs/src/aper/mod.rs
@@ -249,6 +249,13 @@ impl AperCodecData {
         let _ = self.key.replace(key);
     }
 
+    /// Replaces the current `key` value, returns the previous one.
+    ///
+    /// A `key` is only meant for the 'open' types of the struct it is a field of.
+    pub fn replace_key(&mut self, key: Option<i128>) -> Option<i128> {
+        std::mem::replace(&mut self.key, key)
+    }
+
     /// Dump current 'offset'.
     #[inline]
     pub fn dump(&self) {
diff --git a/codecs_derive/src/aper/seq.rs b/codecs_derive/src/aper/seq.rs
index ab661cc..91f2515 100644
--- a/codecs_derive/src/aper/seq.rs
+++ b/codecs_derive/src/aper/seq.rs
@@ -31,7 +31,9 @@ pub(super) fn generate_aper_codec_for_asn_sequence(
                 log::debug!(concat!("decode: ", stringify!(#name)));
 
                 let (bitmap, extensions_present) = asn1_codecs::aper::decode::decode_sequence_header(data, #ext, #opt_count)?;
+                let outer_key = data.replace_key(None);
                 let value = Self{#(#fld_decode_tokens)*};
+                data.replace_key(outer_key);
                 if extensions_present {
                     asn1_codecs::aper::decode::skip_sequence_extensions(data)?;
                 }
-- 
2.43.0


From 0848396f91c11d53e29b83c48c1778ce90b0e00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:23 +0000
Subject: [PATCH 21/38] fix: do not skip over anything that is not a symbol in
 IMPORTS

---
 asn-compiler/src/parser/asn/module.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/asn-compiler/src/parser/asn/module.rs b/asn-compiler/src/parser/asn/module.rs
index de64414..1bb2715 100644
--- a/asn-compiler/src/parser/asn/module.rs
+++ b/asn-compiler/src/parser/asn/module.rs
@@ -4,7 +4,9 @@ use std::collections::HashMap;
 use crate::error::Error;
 use crate::tokenizer::Token;
 
-use crate::parser::utils::{expect_keyword, expect_one_of_keywords, expect_token};
+use crate::parser::utils::{
+    expect_keyword, expect_one_of_keywords, expect_one_of_tokens, expect_token,
+};
 
 use super::{
     defs::parse_definition,
@@ -106,12 +108,23 @@ fn parse_module_imports(
     if expect_keyword(&tokens[consumed..], "IMPORTS")? {
         consumed += 1;
 
+        // Nothing is imported, `IMPORTS ;`
+        if expect_token(&tokens[consumed..], Token::is_semicolon)? {
+            return Ok((imports, consumed + 1));
+        }
+
         loop {
             let mut imported_defs = vec![];
             while !expect_keyword(&tokens[consumed..], "FROM")? {
                 if expect_token(&tokens[consumed..], Token::is_identifier)? {
                     let definition = tokens[consumed].text.clone();
                     imported_defs.push(definition);
+                } else if !expect_one_of_tokens(
+                    &tokens[consumed..],
+                    &[Token::is_curly_begin, Token::is_curly_end],
+                )? {
+                    // The only other tokens are those of a parameterized reference `Name{}`.
+                    return Err(unexpected_token!("'Symbol' or 'FROM'", tokens[consumed]));
                 }
                 consumed += 1;
                 if expect_token(&tokens[consumed..], Token::is_comma)? {
-- 
2.43.0


From fbd464ab0427f7af830efaec170efae416ebc4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:23 +0000
Subject: [PATCH 22/38] fix: report malformed or too deeply nested constructs
 instead of looping or overflowing

---
 asn-compiler/src/parser/asn/oid.rs            |  2 +-
 .../src/parser/asn/types/constraints.rs       |  2 ++
 .../parser/asn/types/constructed/choice.rs    | 10 ++++++
 .../src/parser/asn/types/constructed/seq.rs   | 12 ++++---
 asn-compiler/src/parser/asn/types/int.rs      | 36 ++++++++++++++-----
 asn-compiler/src/parser/asn/types/ioc.rs      | 10 ++++++
 asn-compiler/src/parser/utils.rs              | 33 +++++++++++++++++
 7 files changed, 91 insertions(+), 14 deletions(-)

diff --git a/asn-compiler/src/parser/asn/oid.rs b/asn-compiler/src/parser/asn/oid.rs
index 465e358..1776b1f 100644
--- a/asn-compiler/src/parser/asn/oid.rs
+++ b/asn-compiler/src/parser/asn/oid.rs
@@ -38,7 +38,7 @@ fn parse_named_oid_component(tokens: &[Token]) -> Result<(OIDComponent, usize),
     let name_token = &tokens[0];
     let name = &name_token.text;
     let (number, consumed) = match expect_tokens(
-        &tokens[1..],
+        tokens.get(1..).unwrap_or(&[]),
         &[
             &[Token::is_round_begin],
             &[Token::is_numeric],
diff --git a/asn-compiler/src/parser/asn/types/constraints.rs b/asn-compiler/src/parser/asn/types/constraints.rs
index 2721b08..76fa1dd 100644
--- a/asn-compiler/src/parser/asn/types/constraints.rs
+++ b/asn-compiler/src/parser/asn/types/constraints.rs
@@ -7,6 +7,7 @@ use crate::parser::{
     asn::values::parse_value,
     utils::{
         expect_keyword, expect_one_of_keywords, expect_one_of_tokens, expect_token, expect_tokens,
+        Nesting,
     },
 };
 
@@ -103,6 +104,7 @@ fn parse_subtype_constraint(tokens: &[Token]) -> Result<(Asn1Constraint, usize),
 }
 
 fn parse_element_set(tokens: &[Token]) -> Result<(ElementSet, usize), Error> {
+    let _nesting = Nesting::enter()?;
     let mut consumed = 0;
 
     if !expect_token(&tokens[consumed..], Token::is_round_begin)? {
diff --git a/asn-compiler/src/parser/asn/types/constructed/choice.rs b/asn-compiler/src/parser/asn/types/constructed/choice.rs
index 83ca10f..9f551d4 100644
--- a/asn-compiler/src/parser/asn/types/constructed/choice.rs
+++ b/asn-compiler/src/parser/asn/types/constructed/choice.rs
@@ -32,6 +32,7 @@ pub(crate) fn parse_choice_type(tokens: &[Token]) -> Result<(Asn1TypeChoice, usi
     let mut no_ver_additions_components = vec![];
     let mut extension_markers = 0;
     loop {
+        let start = consumed;
         let (component, component_consumed) = match parse_component(&tokens[consumed..]) {
             Ok(result) => (Some(result.0), result.1),
             Err(_) => (None, 0),
@@ -84,6 +85,10 @@ pub(crate) fn parse_choice_type(tokens: &[Token]) -> Result<(Asn1TypeChoice, usi
             consumed += 1;
             break;
         }
+
+        if consumed == start {
+            return Err(unexpected_token!("'CHOICE' Component", tokens[consumed]));
+        }
     }
 
     let additions = if extension_markers > 0 {
@@ -130,6 +135,7 @@ fn parse_choice_addition_group(tokens: &[Token]) -> Result<(ChoiceAdditionGroup,
 
     let mut components = vec![];
     loop {
+        let start = consumed;
         let (component, component_consumed) = match parse_component(&tokens[consumed..]) {
             Ok(result) => (Some(result.0), result.1),
             Err(_) => (None, 0),
@@ -148,6 +154,10 @@ fn parse_choice_addition_group(tokens: &[Token]) -> Result<(ChoiceAdditionGroup,
             consumed += 1;
             break;
         }
+
+        if consumed == start {
+            return Err(unexpected_token!("'CHOICE' Component", tokens[consumed]));
+        }
     }
     if components.is_empty() {
         Err(parse_error!("Additional Components cannot be empty!"))
diff --git a/asn-compiler/src/parser/asn/types/constructed/seq.rs b/asn-compiler/src/parser/asn/types/constructed/seq.rs
index 6b2b6ec..e57f2f4 100644
--- a/asn-compiler/src/parser/asn/types/constructed/seq.rs
+++ b/asn-compiler/src/parser/asn/types/constructed/seq.rs
@@ -21,7 +21,7 @@ pub(crate) fn parse_seq_or_seq_of_type(tokens: &[Token]) -> Result<(Asn1TypeKind
         return Err(unexpected_token!("'SEQUENCE'", tokens[0]));
     }
 
-    if expect_token(&tokens[1..], Token::is_curly_begin)? {
+    if expect_token(tokens.get(1..).unwrap_or(&[]), Token::is_curly_begin)? {
         parse_sequence_type(tokens)
     } else {
         parse_sequence_of_type(tokens)
@@ -43,10 +43,8 @@ fn parse_sequence_type(tokens: &[Token]) -> Result<(Asn1TypeKind, usize), Error>
     let mut additions = vec![];
     let mut ext_marker_found = 0;
     loop {
-        let (component, component_consumed) = match parse_seq_component(&tokens[consumed..]) {
-            Ok(result) => result,
-            Err(_) => (None, 0),
-        };
+        let start = consumed;
+        let (component, component_consumed) = parse_seq_component(&tokens[consumed..])?;
         if let Some(root_comp) = component {
             root_components.push(root_comp);
         }
@@ -83,6 +81,10 @@ fn parse_sequence_type(tokens: &[Token]) -> Result<(Asn1TypeKind, usize), Error>
             consumed += 1;
             break;
         }
+
+        if consumed == start {
+            return Err(unexpected_token!("'SEQUENCE' Component", tokens[consumed]));
+        }
     }
 
     let extensible = ext_marker_found > 0;
diff --git a/asn-compiler/src/parser/asn/types/int.rs b/asn-compiler/src/parser/asn/types/int.rs
index 470acae..79268d3 100644
--- a/asn-compiler/src/parser/asn/types/int.rs
+++ b/asn-compiler/src/parser/asn/types/int.rs
@@ -5,7 +5,9 @@ use crate::parser::asn::structs::types::{
     ActualParam, Asn1BuiltinType, Asn1ConstructedType, Asn1Type, Asn1TypeKind, Asn1TypeReference,
 };
 
-use crate::parser::utils::{expect_keywords, expect_one_of_tokens, expect_token, expect_tokens};
+use crate::parser::utils::{
+    expect_keywords, expect_one_of_tokens, expect_token, expect_tokens, Nesting,
+};
 
 use super::{
     base::{parse_bitstring_type, parse_enumerated_type, parse_integer_type},
@@ -15,6 +17,7 @@ use super::{
 
 // Parses the `Type` Expansion in the ASN.1 Grammar.
 pub(crate) fn parse_type(tokens: &[Token]) -> Result<(Asn1Type, usize), Error> {
+    let _nesting = Nesting::enter()?;
     let mut consumed = 0;
 
     if !expect_one_of_tokens(
@@ -43,14 +46,26 @@ pub(crate) fn parse_type(tokens: &[Token]) -> Result<(Asn1Type, usize), Error> {
             )
         }
 
-        "OCTET" => (Asn1TypeKind::Builtin(Asn1BuiltinType::OctetString), 2),
+        "OCTET" => {
+            if !expect_keywords(&tokens[consumed..], &["OCTET", "STRING"])? {
+                return Err(unexpected_token!("'STRING'", tokens[consumed + 1]));
+            }
 
-        "CHARACTER" => (
-            Asn1TypeKind::Builtin(Asn1BuiltinType::CharacterString {
-                str_type: "CHARACTER-STRING".to_string(),
-            }),
-            2,
-        ),
+            (Asn1TypeKind::Builtin(Asn1BuiltinType::OctetString), 2)
+        }
+
+        "CHARACTER" => {
+            if !expect_keywords(&tokens[consumed..], &["CHARACTER", "STRING"])? {
+                return Err(unexpected_token!("'STRING'", tokens[consumed + 1]));
+            }
+
+            (
+                Asn1TypeKind::Builtin(Asn1BuiltinType::CharacterString {
+                    str_type: "CHARACTER-STRING".to_string(),
+                }),
+                2,
+            )
+        }
 
         "ENUMERATED" => {
             let (enum_type, enum_type_consumed) = parse_enumerated_type(tokens)?;
@@ -194,6 +209,7 @@ fn parse_actual_params(tokens: &[Token]) -> Result<(Vec<ActualParam>, usize), Er
 
     let mut params = vec![];
     loop {
+        let start = consumed;
         if expect_token(&tokens[consumed..], Token::is_curly_begin)? {
             consumed += 1;
             let param = if expect_one_of_tokens(
@@ -229,6 +245,10 @@ fn parse_actual_params(tokens: &[Token]) -> Result<(Vec<ActualParam>, usize), Er
             consumed += 1;
             break;
         }
+
+        if consumed == start {
+            return Err(unexpected_token!("'Actual Parameter'", tokens[consumed]));
+        }
     }
     Ok((params, consumed))
 }
diff --git a/asn-compiler/src/parser/asn/types/ioc.rs b/asn-compiler/src/parser/asn/types/ioc.rs
index d81941c..1d45f65 100644
--- a/asn-compiler/src/parser/asn/types/ioc.rs
+++ b/asn-compiler/src/parser/asn/types/ioc.rs
@@ -217,6 +217,7 @@ fn parse_with_syntax_for_fields(
 
     let mut in_optional_group = false;
     loop {
+        let start = consumed;
         if expect_token(&tokens[consumed..], Token::is_square_begin)? {
             in_optional_group = true;
             consumed += 1;
@@ -297,6 +298,10 @@ fn parse_with_syntax_for_fields(
             consumed += 1;
             break;
         }
+
+        if consumed == start {
+            return Err(unexpected_token!("'WITH SYNTAX' Field", tokens[consumed]));
+        }
     }
 
     Ok(consumed)
@@ -314,6 +319,7 @@ pub(crate) fn parse_object_set(tokens: &[Token]) -> Result<(ObjectSet, usize), E
     let mut additional_elements = vec![];
     let mut extension_token_count = 0;
     loop {
+        let start = consumed;
         if expect_token(&tokens[consumed..], Token::is_extension)? {
             extension_token_count += 1;
             if extension_token_count > 1 {
@@ -371,6 +377,10 @@ pub(crate) fn parse_object_set(tokens: &[Token]) -> Result<(ObjectSet, usize), E
             consumed += 1;
             break;
         }
+
+        if consumed == start {
+            return Err(unexpected_token!("'Object' or 'Object Set'", tokens[consumed]));
+        }
     }
     Ok((
         ObjectSet {
diff --git a/asn-compiler/src/parser/utils.rs b/asn-compiler/src/parser/utils.rs
index 28ff0d8..7c8008c 100644
--- a/asn-compiler/src/parser/utils.rs
+++ b/asn-compiler/src/parser/utils.rs
@@ -1,5 +1,7 @@
 //! Utility functions for the parser module
 
+use std::cell::Cell;
+
 use crate::error::Error;
 use crate::tokenizer::{types::TokenChecker, Token};
 
@@ -66,6 +68,37 @@ pub(super) fn expect_tokens(tokens: &[Token], checkers: &[&[TokenChecker]]) -> R
     }
 }
 
+// How deep types and constraints may be nested.
+const MAX_NESTING: usize = 128;
+
+thread_local! {
+    static NESTING: Cell<usize> = const { Cell::new(0) };
+}
+
+// Held while a type or a constraint (that may contain others) is being parsed.
+pub(super) struct Nesting;
+
+impl Nesting {
+    // Enters one more level, it is an error if there are already too many levels.
+    pub(super) fn enter() -> Result<Self, Error> {
+        let nesting = NESTING.with(|n| n.get());
+        if nesting >= MAX_NESTING {
+            return Err(parse_error!(
+                "Types or Constraints are nested more than {} levels deep!",
+                MAX_NESTING
+            ));
+        }
+        NESTING.with(|n| n.set(nesting + 1));
+        Ok(Self)
+    }
+}
+
+impl Drop for Nesting {
+    fn drop(&mut self) {
+        NESTING.with(|n| n.set(n.get() - 1));
+    }
+}
+
 // Consumes every thing between balanced "{" and "}" or "(" and ")".
 //
 // Unbalanced paranthesis is an error.
-- 
2.43.0


From 19c1db59a9fd9d456735f72a232791369e5839d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:46 +0000
Subject: [PATCH 23/38] fix: report unsupported characters and incomplete
 tokens instead of panicking, accept CR line ends

---
 asn-compiler/src/tokenizer/mod.rs | 35 ++++++++++++++++---------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/asn-compiler/src/tokenizer/mod.rs b/asn-compiler/src/tokenizer/mod.rs
index 2164273..b332cf6 100644
--- a/asn-compiler/src/tokenizer/mod.rs
+++ b/asn-compiler/src/tokenizer/mod.rs
@@ -524,13 +524,18 @@ fn get_number_token(chars: &[char], line: usize, begin: usize) -> Result<(Token,
     }
 
     let mut consumed = neg;
-    let last = chars[neg..].iter().position(|&x| !x.is_numeric());
+    let last = chars[neg..].iter().position(|&x| !x.is_ascii_digit());
     if let Some(lst) = last {
         consumed += lst;
     } else {
         consumed += chars[neg..].len();
     }
 
+    // A sign alone is not a number.
+    if consumed == neg {
+        return Err(Error::TokenizeError(14, line, begin));
+    }
+
     Ok((
         Token {
             r#type: TokenType::NumberInt,
@@ -690,12 +695,12 @@ fn get_seq_extension_or_square_brackets_token(
     begin: usize,
 ) -> Result<(Token, usize), Error> {
     let (token_type, consumed) = if chars[0] == '[' {
-        if chars[1] == '[' {
+        if chars.get(1) == Some(&'[') {
             (TokenType::AdditionGroupsBegin, 2)
         } else {
             (TokenType::SquareBegin, 1)
         }
-    } else if chars[1] == ']' {
+    } else if chars.get(1) == Some(&']') {
         (TokenType::AdditionGroupsEnd, 2)
     } else {
         (TokenType::SquareEnd, 1)
@@ -753,7 +758,7 @@ fn get_maybe_comment_token(
     line: usize,
     begin: usize,
 ) -> Result<(Option<Token>, usize), Error> {
-    if chars[1] != '-' {
+    if chars.get(1) != Some(&'-') {
         return Ok((None, 0));
     }
     let mut consumed = 2; // initial "--"
@@ -808,16 +813,19 @@ where
     let mut line = 1;
     let mut tokens: Vec<Token> = Vec::new();
     let mut buffer = Vec::new();
-    let _ = input.read_to_end(&mut buffer).unwrap();
-    let buffer = String::from_utf8(buffer).unwrap();
+    let _ = input
+        .read_to_end(&mut buffer)
+        .map_err(|_| Error::TokenizeError(22, line, 0))?;
+    let buffer = String::from_utf8(buffer).map_err(|_| Error::TokenizeError(23, line, 0))?;
     let chars: Vec<char> = buffer.chars().collect();
     let mut column = 0_usize;
     let mut processed = 0;
     let total_read = chars.len();
-    loop {
+    while processed < total_read {
         let c = chars[processed];
         match c {
-            ' ' | '\t' => {
+            // White-space (and line ends other than '\n'), X.680 12.1.6
+            ' ' | '\t' | '\r' | '\u{b}' | '\u{c}' => {
                 processed += 1;
                 column += 1;
             }
@@ -918,15 +926,8 @@ where
             '\u{feff}' => {
                 processed += 1;
             }
-            _ => {
-                panic!(
-                    "Unsupported First character for a token: '{:?}'. Line: {}, Column: {}",
-                    chars[processed], line, column
-                );
-            }
-        }
-        if processed == total_read {
-            break;
+            // Unsupported First character for a token.
+            _ => return Err(Error::TokenizeError(24, line, column)),
         }
     }
     Ok(tokens)
-- 
2.43.0


From 36b211c39cf9e2bd20c7a2222c809ee1fcb5a4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:46 +0000
Subject: [PATCH 24/38] fix: end an identifier where a comment begins

---
 asn-compiler/src/tokenizer/mod.rs | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/asn-compiler/src/tokenizer/mod.rs b/asn-compiler/src/tokenizer/mod.rs
index b332cf6..5b2d082 100644
--- a/asn-compiler/src/tokenizer/mod.rs
+++ b/asn-compiler/src/tokenizer/mod.rs
@@ -479,6 +479,11 @@ fn get_bit_or_hex_string_token(
     ))
 }
 
+// A "--" begins a comment, also when it immediately follows another token.
+fn is_comment_begin(chars: &[char]) -> bool {
+    chars.starts_with(&['-', '-'])
+}
+
 // Get at and component ID list something like @.id or @component.id
 fn get_at_component_id_list(
     chars: &[char],
@@ -490,9 +495,9 @@ fn get_at_component_id_list(
     }
 
     let mut consumed = 1;
-    let last = chars[1..]
-        .iter()
-        .position(|&x| !(x.is_ascii_alphanumeric() || x == '-' || x == '.'));
+    let last = chars[1..].iter().enumerate().position(|(i, &x)| {
+        !(x.is_ascii_alphanumeric() || x == '-' || x == '.') || is_comment_begin(&chars[1 + i..])
+    });
     if let Some(lst) = last {
         consumed += lst;
     } else {
@@ -566,9 +571,9 @@ fn get_identifier_or_keyword_token(
     }
 
     let mut consumed = and;
-    let last = chars[and..]
-        .iter()
-        .position(|&x| !(x.is_ascii_alphanumeric() || x == '-'));
+    let last = chars[and..].iter().enumerate().position(|(i, &x)| {
+        !(x.is_ascii_alphanumeric() || x == '-') || is_comment_begin(&chars[and + i..])
+    });
 
     if let Some(lst) = last {
         consumed += lst;
@@ -576,21 +581,17 @@ fn get_identifier_or_keyword_token(
         consumed += chars[and..].len();
     }
 
-    // Identifier should not end with a '-'
-    if chars[consumed - 1] == '-' {
-        return Err(Error::TokenizeError(16, line, begin));
-    }
-
     // Free standing '&' this is an error.
     if and > 0 && consumed == 1 {
         return Err(Error::TokenizeError(17, line, begin));
     }
 
-    let text = chars[..consumed].iter().collect::<String>();
-    if text.contains("--") {
-        return Err(Error::TokenizeError(18, line, begin));
+    // Identifier should not end with a '-'
+    if chars[consumed - 1] == '-' {
+        return Err(Error::TokenizeError(16, line, begin));
     }
 
+    let text = chars[..consumed].iter().collect::<String>();
     let token_type = if and > 0 {
         TokenType::AndIdentifier
     } else if KEYWORDS.iter().any(|&kw| text == kw) {
-- 
2.43.0


From 8cf068c328be42dbee59b1384a80f349870f8a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:46 +0000
Subject: [PATCH 25/38] fix: keep track of the column after strings of several
 lines

---
 asn-compiler/src/tokenizer/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn-compiler/src/tokenizer/mod.rs b/asn-compiler/src/tokenizer/mod.rs
index 5b2d082..200b4ef 100644
--- a/asn-compiler/src/tokenizer/mod.rs
+++ b/asn-compiler/src/tokenizer/mod.rs
@@ -388,7 +388,7 @@ fn get_string_token(
     let lines = text.lines().count() - 1;
     let last_line = text.lines().last().unwrap();
     let end_column = if lines > 0 {
-        last_line.len()
+        last_line.chars().count()
     } else {
         begin + consumed
     };
@@ -446,7 +446,7 @@ fn get_bit_or_hex_string_token(
     let lines = text.lines().count() - 1;
     let last_line = text.lines().last().unwrap();
     let end_column = if lines > 0 {
-        last_line.len()
+        last_line.chars().count() + 1 // and the last 'h' or 'b'
     } else {
         begin + consumed
     };
-- 
2.43.0


From d16ed70c670b2d49fc414af373517563b3448e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:41 +0000
Subject: [PATCH 26/38] fix: report undefined, cyclic and conflicting
 definitions instead of dropping them

Names that are neither defined nor imported, symbols missing in the module they
are imported from, modules or definitions in a cycle and definitions (or modules)
that replace another of the same name were dropped with at most a message.
---
 asn-compiler/src/bin/hampi-asn1c.rs           |  7 +-
 asn-compiler/src/compiler.rs                  | 32 +++++++--
 asn-compiler/src/parser/asn/module.rs         |  8 ++-
 asn-compiler/src/parser/asn/structs/defs.rs   | 21 +++++-
 asn-compiler/src/parser/asn/structs/module.rs | 46 ++++++++++--
 .../parser/asn/structs/types/constraints.rs   |  9 +++
 .../parser/asn/structs/types/constructed.rs   |  6 +-
 .../src/parser/asn/structs/types/ioc.rs       | 25 +++++--
 .../src/parser/asn/structs/types/mod.rs       | 26 +++++--
 .../src/resolver/asn/structs/types/base.rs    |  6 +-
 .../src/resolver/asn/structs/types/ioc.rs     |  6 +-
 .../src/resolver/asn/types/base/bitstring.rs  |  4 +-
 .../src/resolver/asn/types/constraints.rs     | 24 ++-----
 asn-compiler/src/resolver/asn/types/ioc.rs    |  6 +-
 asn-compiler/src/resolver/int.rs              | 70 +++++++++----------
 15 files changed, 204 insertions(+), 92 deletions(-)

diff --git a/asn-compiler/src/bin/hampi-asn1c.rs b/asn-compiler/src/bin/hampi-asn1c.rs
index 53f4d73..012a39d 100644
--- a/asn-compiler/src/bin/hampi-asn1c.rs
+++ b/asn-compiler/src/bin/hampi-asn1c.rs
@@ -24,7 +24,12 @@ fn main() -> io::Result<()> {
             }
             let module = module.unwrap();
             //eprintln!("module: {:#?}", module);
-            compiler.add_module(module);
+            if !compiler.add_module(module) {
+                return Err(io::Error::other(format!(
+                    "A module in the file '{}' is already defined!",
+                    arg
+                )));
+            }
         }
     }
     compiler.resolve_modules()?;
diff --git a/asn-compiler/src/compiler.rs b/asn-compiler/src/compiler.rs
index cd044fd..4f2b264 100644
--- a/asn-compiler/src/compiler.rs
+++ b/asn-compiler/src/compiler.rs
@@ -53,9 +53,12 @@ impl Asn1Compiler {
     ///
     /// If the module alredy exists, returns `false` else returns `true`.
     pub fn add_module(&mut self, module: Asn1Module) -> bool {
-        self.modules
-            .insert(module.get_module_name(), module)
-            .is_some()
+        let name = module.get_module_name();
+        if self.modules.contains_key(&name) {
+            return false;
+        }
+        self.modules.insert(name, module);
+        true
     }
 
     /// Resolve Modules order and definitions within those modules.
@@ -130,13 +133,20 @@ impl Asn1Compiler {
                         import
                     ));
                 }
+                if !target.unwrap().has_symbol(import) {
+                    return Err(resolve_error!(
+                        "Definition '{}' not found in the Module '{}'!",
+                        import,
+                        module_name.name_as_str()
+                    ));
+                }
             }
         }
         eprintln!("All IMPORTS in All Modules Resolved!");
         Ok(())
     }
 
-    fn sorted_modules(&self) -> Vec<String> {
+    fn sorted_modules(&self) -> Result<Vec<String>, Error> {
         let mut ts = TopologicalSort::<String>::new();
 
         for module in self.modules.values() {
@@ -156,11 +166,21 @@ impl Asn1Compiler {
                 out_vec.extend(popped);
             }
         }
-        out_vec
+        if !ts.is_empty() {
+            return Err(resolve_error!("Modules that IMPORT each other!"));
+        }
+        Ok(out_vec)
     }
 
     fn resolve_definitions(&mut self) -> Result<(), Error> {
-        let module_names = self.sorted_modules();
+        let module_names = self.sorted_modules()?;
+
+        for name in &module_names {
+            for definition in self.modules[name].get_definitions().keys() {
+                self.resolver.known_names.insert(definition.clone());
+            }
+        }
+
         for name in module_names {
             let mut module = self.modules.get_mut(&name).unwrap();
 
diff --git a/asn-compiler/src/parser/asn/module.rs b/asn-compiler/src/parser/asn/module.rs
index 1bb2715..5649395 100644
--- a/asn-compiler/src/parser/asn/module.rs
+++ b/asn-compiler/src/parser/asn/module.rs
@@ -82,7 +82,13 @@ where
     let mut definitions = HashMap::new();
     while !expect_keyword(&tokens[consumed..], "END")? {
         let (def, definition_consumed) = parse_definition(&tokens[consumed..])?;
-        definitions.insert(def.id(), def);
+        let id = def.id();
+        if imports.contains_key(&id) || definitions.insert(id.clone(), def).is_some() {
+            return Err(parse_error!(
+                "Definition '{}' is defined or imported twice",
+                id
+            ));
+        }
         consumed += definition_consumed;
     }
 
diff --git a/asn-compiler/src/parser/asn/structs/defs.rs b/asn-compiler/src/parser/asn/structs/defs.rs
index 32637d8..4860335 100644
--- a/asn-compiler/src/parser/asn/structs/defs.rs
+++ b/asn-compiler/src/parser/asn/structs/defs.rs
@@ -2,6 +2,7 @@
 use crate::tokenizer::Token;
 
 use super::types::{
+    constraints::value_reference,
     ioc::{Asn1Object, Asn1ObjectClass, Asn1ObjectSet},
     Asn1Type,
 };
@@ -103,9 +104,17 @@ impl Asn1AssignmentKind {
 
     pub fn dependent_references(&self) -> Vec<String> {
         match self {
-            Self::Value(ref v) => v.typeref.dependent_references(),
+            Self::Value(ref v) => {
+                let mut references = v.typeref.dependent_references();
+                references.extend(value_reference(&v.value));
+                references
+            }
             Self::Type(ref t) => t.typeref.dependent_references(),
-            Self::Object(ref o) => vec![o.object.class.clone()],
+            Self::Object(ref o) => {
+                let mut references = vec![o.object.class.clone()];
+                references.extend(o.object.value.dependent_references());
+                references
+            }
             Self::ObjectSet(ref s) => s.dependent_references(),
             Self::Class(ref c) => c.dependent_references(),
         }
@@ -130,6 +139,14 @@ impl Asn1Definition {
     pub fn dependent_references(&self) -> Vec<String> {
         self.kind.dependent_references()
     }
+
+    // Returns whether the given name is one of the dummy references of a parameterized definition.
+    pub(crate) fn has_dummy_reference(&self, name: &str) -> bool {
+        match self.params {
+            Some(ref params) => params.ordered.iter().any(|p| p.dummyref.name == name),
+            None => false,
+        }
+    }
 }
 
 macro_rules! is_assignment_kind {
diff --git a/asn-compiler/src/parser/asn/structs/module.rs b/asn-compiler/src/parser/asn/structs/module.rs
index a2325c6..97e1cbd 100644
--- a/asn-compiler/src/parser/asn/structs/module.rs
+++ b/asn-compiler/src/parser/asn/structs/module.rs
@@ -1,9 +1,10 @@
 //! ASN.1 Module Level Structures and other functionality
 
-use std::collections::{hash_map::Iter, HashMap};
+use std::collections::{hash_map::Iter, HashMap, HashSet};
 
 use topological_sort::TopologicalSort;
 
+use crate::error::Error;
 use crate::parser::asn::structs::{defs::Asn1Definition, oid::ObjectIdentifier};
 
 #[derive(Debug, PartialEq)]
@@ -88,13 +89,39 @@ impl Asn1Module {
     // a Type definition or a Class Name in an object definition and so on. We don't include the
     // 'import'ed definitions in these because, they will already be 'Resolved' because the modules
     // are already in a Topologically sorted order!
-    pub(crate) fn definitions_sorted(&mut self) -> Vec<String> {
+    //
+    // It's an error if something that is referenced is neither defined nor 'import'ed here, or if
+    // definitions refer to each other in a cycle (a type containing itself is not supported). A
+    // name of a value that is not defined anywhere (`known_names`) may be that of an enumeration,
+    // so is left for the resolver.
+    pub(crate) fn definitions_sorted(
+        &self,
+        known_names: &HashSet<String>,
+        classes: &HashMap<String, Asn1Definition>,
+    ) -> Result<Vec<String>, Error> {
         let mut ts = TopologicalSort::<String>::new();
 
         for (k, v) in self.definitions.iter() {
+            // An object has the types (and defaults) of the fields from it's class.
+            let class = v.get_object_class().and_then(|class| classes.get(&class));
+            let class_references = class.map_or(vec![], |c| c.dependent_references());
             for r in v.dependent_references() {
-                if self.imports.get(&r).is_none() {
+                if self.imports.contains_key(&r) || v.has_dummy_reference(&r) {
+                    continue;
+                }
+                if self.definitions.contains_key(&r) {
+                    if &r == k {
+                        return Err(resolve_error!("Definition '{}' refers to itself!", k));
+                    }
                     ts.add_dependency(r.clone(), k.clone());
+                } else if class_references.contains(&r) {
+                    continue;
+                } else if known_names.contains(&r) || r.starts_with(|c: char| c.is_uppercase()) {
+                    return Err(resolve_error!(
+                        "'{}' is referenced by '{}' but not defined or imported!",
+                        r,
+                        k
+                    ));
                 }
             }
             ts.insert(k);
@@ -109,7 +136,18 @@ impl Asn1Module {
                 out_vec.extend(popped);
             }
         }
-        out_vec
+        if !ts.is_empty() {
+            return Err(resolve_error!(
+                "Definitions in the module '{}' refer to each other in a cycle!",
+                self.name.name
+            ));
+        }
+        Ok(out_vec)
+    }
+
+    // Whether the given name is defined in (or 'import'ed into) this module.
+    pub(crate) fn has_symbol(&self, name: &str) -> bool {
+        self.definitions.contains_key(name) || self.imports.contains_key(name)
     }
 
     #[inline(always)]
diff --git a/asn-compiler/src/parser/asn/structs/types/constraints.rs b/asn-compiler/src/parser/asn/structs/types/constraints.rs
index 40d6a5e..3fa0dd3 100644
--- a/asn-compiler/src/parser/asn/structs/types/constraints.rs
+++ b/asn-compiler/src/parser/asn/structs/types/constraints.rs
@@ -4,6 +4,15 @@ use crate::parser::asn::structs::oid::ObjectIdentifier;
 
 use super::Asn1Type;
 
+// Returns the name of the definition a value (eg. in a constraint) refers to, if it refers to one.
+pub(crate) fn value_reference(value: &str) -> Option<String> {
+    let name = value.trim_matches(|c| matches!(c, '{' | '}')).trim();
+    let is_name = name.starts_with(|c: char| c.is_ascii_alphabetic())
+        && name.chars().all(|c| c.is_ascii_alphanumeric() || c == '-')
+        && !["MIN", "MAX", "TRUE", "FALSE", "NULL"].contains(&name);
+    is_name.then(|| name.to_string())
+}
+
 #[derive(Debug, Clone)]
 pub(crate) enum SubtypeElements {
     SingleValue {
diff --git a/asn-compiler/src/parser/asn/structs/types/constructed.rs b/asn-compiler/src/parser/asn/structs/types/constructed.rs
index 2ca0ad8..c98fc2f 100644
--- a/asn-compiler/src/parser/asn/structs/types/constructed.rs
+++ b/asn-compiler/src/parser/asn/structs/types/constructed.rs
@@ -109,6 +109,10 @@ pub(crate) struct Asn1TypeSequenceOf {
 
 impl Asn1TypeSequenceOf {
     pub(crate) fn dependent_references(&self) -> Vec<String> {
-        self.ty.dependent_references()
+        let mut dependencies = self.ty.dependent_references();
+        if let Some(ref size) = self.size {
+            dependencies.extend(size.dependent_references());
+        }
+        dependencies
     }
 }
diff --git a/asn-compiler/src/parser/asn/structs/types/ioc.rs b/asn-compiler/src/parser/asn/structs/types/ioc.rs
index 79b5ca2..c3b06d8 100644
--- a/asn-compiler/src/parser/asn/structs/types/ioc.rs
+++ b/asn-compiler/src/parser/asn/structs/types/ioc.rs
@@ -2,7 +2,7 @@
 
 use std::collections::HashMap;
 
-use super::Asn1Type;
+use super::{constraints::value_reference, Asn1Type};
 
 #[derive(Debug, Clone)]
 pub(crate) enum ObjectClassFieldSpec {
@@ -56,9 +56,18 @@ impl Asn1ObjectClass {
     pub(crate) fn dependent_references(&self) -> Vec<String> {
         let mut output = vec![];
         for field in self.fields.values() {
-            if let ObjectClassFieldSpec::FixedTypeValue { field_type, .. } = field {
-                let mut field_references = field_type.dependent_references();
-                output.append(&mut field_references);
+            match field {
+                ObjectClassFieldSpec::FixedTypeValue {
+                    field_type,
+                    default,
+                    ..
+                } => {
+                    output.extend(field_type.dependent_references());
+                    output.extend(default.iter().flat_map(|d| value_reference(d)));
+                }
+                ObjectClassFieldSpec::Type { default, .. } => {
+                    output.extend(default.iter().flat_map(|d| d.dependent_references()));
+                }
             }
         }
         output
@@ -118,7 +127,11 @@ impl Asn1ObjectFieldSpec {
                     vec![]
                 }
             }
-            Self::FixedTypeValue { typeref, .. } => typeref.dependent_references(),
+            Self::FixedTypeValue { typeref, value } => {
+                let mut references = typeref.dependent_references();
+                references.extend(value.iter().flat_map(|v| value_reference(v)));
+                references
+            }
         }
     }
 }
@@ -132,7 +145,7 @@ pub(crate) enum Asn1ObjectValue {
 }
 
 impl Asn1ObjectValue {
-    fn dependent_references(&self) -> Vec<String> {
+    pub(crate) fn dependent_references(&self) -> Vec<String> {
         let mut output = vec![];
         if let Self::Asn1ObjectFromClass { fields } = self {
             for field in fields.values() {
diff --git a/asn-compiler/src/parser/asn/structs/types/mod.rs b/asn-compiler/src/parser/asn/structs/types/mod.rs
index b25b26a..ac57dcd 100644
--- a/asn-compiler/src/parser/asn/structs/types/mod.rs
+++ b/asn-compiler/src/parser/asn/structs/types/mod.rs
@@ -1,10 +1,10 @@
 //! Structures related to ASN.1 Type
 
 pub(crate) mod base;
-use base::{Asn1TypeBitString, Asn1TypeEnumerated, Asn1TypeInteger};
+use base::{Asn1TypeBitString, Asn1TypeEnumerated, Asn1TypeInteger, NamedValue};
 
 pub(crate) mod constraints;
-use constraints::Asn1Constraint;
+use constraints::{value_reference, Asn1Constraint};
 
 pub(crate) mod constructed;
 use constructed::{Asn1TypeChoice, Asn1TypeSequence, Asn1TypeSequenceOf};
@@ -27,6 +27,23 @@ pub(crate) enum Asn1BuiltinType {
     CharacterString { str_type: String },
 }
 
+impl Asn1BuiltinType {
+    fn dependent_references(&self) -> Vec<String> {
+        match self {
+            Self::Enumerated(ref e) => e
+                .root_values
+                .iter()
+                .chain(&e.ext_values)
+                .filter_map(|v| match v.value {
+                    Some(NamedValue::ValueRef(ref r)) => Some(r.clone()),
+                    _ => None,
+                })
+                .collect(),
+            _ => vec![],
+        }
+    }
+}
+
 #[derive(Debug, Clone)]
 pub(crate) struct Asn1Type {
     pub(crate) kind: Asn1TypeKind,
@@ -36,7 +53,7 @@ pub(crate) struct Asn1Type {
 impl Asn1Type {
     pub(crate) fn dependent_references(&self) -> Vec<String> {
         let mut kind_references = match self.kind {
-            Asn1TypeKind::Builtin(ref _b) => vec![],
+            Asn1TypeKind::Builtin(ref b) => b.dependent_references(),
             Asn1TypeKind::Reference(ref r) => r.dependent_references(),
             Asn1TypeKind::Constructed(ref c) => c.dependent_references(),
         };
@@ -76,8 +93,7 @@ pub(crate) enum ActualParam {
 impl ActualParam {
     fn dependent_references(&self) -> Vec<String> {
         match self {
-            Self::Set(ref s) => vec![s.clone()],
-            Self::Single(ref s) => vec![s.clone()],
+            Self::Set(ref s) | Self::Single(ref s) => value_reference(s).into_iter().collect(),
         }
     }
 
diff --git a/asn-compiler/src/resolver/asn/structs/types/base.rs b/asn-compiler/src/resolver/asn/structs/types/base.rs
index b433a3f..a3e3160 100644
--- a/asn-compiler/src/resolver/asn/structs/types/base.rs
+++ b/asn-compiler/src/resolver/asn/structs/types/base.rs
@@ -1,5 +1,5 @@
 //! Structs for the resolved Base Types
-use std::collections::{BTreeSet, HashMap};
+use std::collections::{BTreeMap, BTreeSet};
 
 use crate::resolver::asn::structs::types::constraints::Asn1ConstraintValueSet;
 
@@ -24,7 +24,7 @@ pub(crate) struct Asn1ResolvedInteger {
     pub(crate) bits: u8,
     pub(crate) signed: bool,
     pub(crate) resolved_constraints: Option<Asn1ConstraintValueSet>,
-    pub(crate) named_values: Option<HashMap<String, i128>>,
+    pub(crate) named_values: Option<BTreeMap<String, i128>>,
 }
 
 impl Default for Asn1ResolvedInteger {
@@ -72,7 +72,7 @@ pub(crate) struct Asn1ResolvedBitString {
     pub(crate) size: Option<Asn1ConstraintValueSet>,
 
     // We support only up to 128 named bits, if more than that is required, change this to appropriate. value
-    pub(crate) named_values: HashMap<String, u8>,
+    pub(crate) named_values: BTreeMap<String, u8>,
 }
 
 // Just an empty structure for Resolved `BOOLEAN` type.
diff --git a/asn-compiler/src/resolver/asn/structs/types/ioc.rs b/asn-compiler/src/resolver/asn/structs/types/ioc.rs
index 683fe3c..971756c 100644
--- a/asn-compiler/src/resolver/asn/structs/types/ioc.rs
+++ b/asn-compiler/src/resolver/asn/structs/types/ioc.rs
@@ -1,5 +1,5 @@
 //! Resolved(Object|ObjectSet) Definitions
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 use crate::resolver::asn::structs::{types::Asn1ResolvedType, values::Asn1ResolvedValue};
 
@@ -17,7 +17,7 @@ pub(crate) enum ResolvedFieldSpec {
 #[derive(Debug, Clone)]
 pub(crate) struct Asn1ResolvedObject {
     pub(crate) name: String,
-    pub(crate) fields: HashMap<String, ResolvedFieldSpec>,
+    pub(crate) fields: BTreeMap<String, ResolvedFieldSpec>,
 }
 
 #[derive(Debug, Clone)]
@@ -29,7 +29,7 @@ pub(crate) struct Asn1ResolvedObjectSet {
 pub(crate) struct ResolvedObjectSet {
     pub(crate) decoder_ty: Option<Asn1ResolvedType>,
     pub(crate) elements: Vec<ResolvedObjectSetElement>,
-    pub(crate) lookup_table: HashMap<(String, String), ResolvedObjectSetElement>,
+    pub(crate) lookup_table: BTreeMap<(String, String), ResolvedObjectSetElement>,
 }
 
 #[derive(Debug, Clone)]
diff --git a/asn-compiler/src/resolver/asn/types/base/bitstring.rs b/asn-compiler/src/resolver/asn/types/base/bitstring.rs
index cb0f510..3926795 100644
--- a/asn-compiler/src/resolver/asn/types/base/bitstring.rs
+++ b/asn-compiler/src/resolver/asn/types/base/bitstring.rs
@@ -1,6 +1,6 @@
 //! Functionality for handling Resolved ASN.1 BIT STRING
 
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 use crate::error::Error;
 
@@ -34,7 +34,7 @@ impl Asn1ResolvedBitString {
         }
 
         if b.named_bits.is_some() {
-            let mut named_values = HashMap::new();
+            let mut named_values = BTreeMap::new();
             for nb in b.named_bits.as_ref().unwrap() {
                 if let NamedValue::Number(ref v) = nb.1 {
                     let parsed = v.parse::<u8>().unwrap(); // Let it panic if it does not fit in u8.
diff --git a/asn-compiler/src/resolver/asn/types/constraints.rs b/asn-compiler/src/resolver/asn/types/constraints.rs
index 732986a..f1da7ee 100644
--- a/asn-compiler/src/resolver/asn/types/constraints.rs
+++ b/asn-compiler/src/resolver/asn/types/constraints.rs
@@ -377,26 +377,12 @@ impl SubtypeElements {
 
     fn dependent_references(&self) -> Vec<String> {
         match self {
-            Self::SingleValue { value } => match value.parse::<i128>() {
-                Ok(_) => vec![],
-                Err(_) => vec![value
-                    .trim_matches(|c| matches!(c, '{' | '}'))
-                    .trim()
-                    .to_string()],
-            },
+            Self::SingleValue { value } => value_reference(value).into_iter().collect(),
             Self::ConstrainedSubtype(ref t) => t.dependent_references(),
-            Self::ValueRange { lower, upper, .. } => {
-                let mut output = vec![];
-                match lower.parse::<i128>() {
-                    Ok(_) => {}
-                    Err(_) => output.extend(vec![lower.trim().to_string()]),
-                };
-                match upper.parse::<i128>() {
-                    Ok(_) => {}
-                    Err(_) => output.extend(vec![upper.trim().to_string()]),
-                };
-                output
-            }
+            Self::ValueRange { lower, upper, .. } => [lower, upper]
+                .iter()
+                .filter_map(|v| value_reference(v))
+                .collect(),
             Self::SizeConstraint(ref s) => s.clone().dependent_references(),
             Self::PermittedAlphabet(ref _p) => vec![], // FIXME: Should we?
         }
diff --git a/asn-compiler/src/resolver/asn/types/ioc.rs b/asn-compiler/src/resolver/asn/types/ioc.rs
index 975273f..db20a97 100644
--- a/asn-compiler/src/resolver/asn/types/ioc.rs
+++ b/asn-compiler/src/resolver/asn/types/ioc.rs
@@ -1,5 +1,5 @@
 //! Handling of Information Object Classes, ObjectSets, Objects etc
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 use crate::error::Error;
 
@@ -45,7 +45,7 @@ pub(crate) fn resolve_object_set(
             } else {
                 "".to_string()
             };
-            let mut lookup_table = HashMap::new();
+            let mut lookup_table = BTreeMap::new();
 
             let mut elements = vec![];
             let mut input_elements = objectset.objects.root_elements.clone();
@@ -184,7 +184,7 @@ pub(crate) fn resolve_object(
     object_value: &Asn1ObjectValue,
     resolver: &mut Resolver,
 ) -> Result<Asn1ResolvedObject, Error> {
-    let mut resolved_fields = HashMap::new();
+    let mut resolved_fields = BTreeMap::new();
     if let Asn1ObjectValue::Asn1ObjectFromClass { fields } = object_value {
         for (k, field) in fields {
             let resolved = match field {
diff --git a/asn-compiler/src/resolver/int.rs b/asn-compiler/src/resolver/int.rs
index 30cbbc6..8d0c059 100644
--- a/asn-compiler/src/resolver/int.rs
+++ b/asn-compiler/src/resolver/int.rs
@@ -1,6 +1,6 @@
 //! Resolver Struct and it's implementation
 
-use std::collections::{BTreeMap, HashMap};
+use std::collections::{BTreeMap, HashMap, HashSet};
 
 use crate::error::Error;
 
@@ -20,6 +20,9 @@ pub(crate) struct Resolver {
 
     // Object Classes: Used by Objects and Object Sets to resolves themselves.
     pub(crate) classes: HashMap<String, Asn1Definition>,
+
+    // Names of the definitions in all the modules.
+    pub(crate) known_names: HashSet<String>,
 }
 
 impl Resolver {
@@ -28,6 +31,7 @@ impl Resolver {
             resolved_defs: BTreeMap::new(),
             parameterized_defs: HashMap::new(),
             classes: HashMap::new(),
+            known_names: HashSet::new(),
         }
     }
 
@@ -47,54 +51,40 @@ impl Resolver {
     // We do not need to do any `Pending` definitions, as we were doing before.
     pub(crate) fn resolve_definitions(&mut self, module: &mut Asn1Module) -> Result<(), Error> {
         // We need to first get Classes in the current module - resolved
-        self.resolve_classes_in_current_module(module);
+        self.resolve_classes_in_current_module(module)?;
 
         module.resolve_object_classes(&self.classes)?;
 
-        let definitions_sorted = module.definitions_sorted();
+        let definitions_sorted = module.definitions_sorted(&self.known_names, &self.classes)?;
         for k in definitions_sorted {
-            let parsed_def = module.get_definition_mut(&k);
-            if parsed_def.is_none() {
-                eprintln!(
-                    "Definition '{}' Not found! It's Okay for certain Dummy References",
-                    k
-                );
-                continue;
-            }
-            let parsed_def = parsed_def.unwrap();
+            let parsed_def = module
+                .get_definition_mut(&k)
+                .ok_or_else(|| resolve_error!("Definition '{}' Not found!", k))?;
             if parsed_def.params.is_some() {
-                self.parameterized_defs
+                let previous = self
+                    .parameterized_defs
                     .insert(k.to_string(), parsed_def.clone());
+                if previous.is_some() {
+                    return Err(duplicate_definition(&k));
+                }
                 parsed_def.resolved = true;
             } else if parsed_def.is_class_assignment() {
-                self.classes.insert(k.to_string(), parsed_def.clone());
+                // Already among the `classes`.
                 parsed_def.resolved = true;
             } else {
                 let resolved_def = resolve_definition(parsed_def, self)?;
+                // All the modules share the generated names, so it's okay to have a definition
+                // in more than one module, only if it is the same in all of them.
+                if let Some(previous) = self.resolved_defs.get(&k) {
+                    if format!("{:?}", previous) != format!("{:?}", resolved_def) {
+                        return Err(duplicate_definition(&k));
+                    }
+                }
                 self.resolved_defs.insert(k.clone(), resolved_def);
             }
             parsed_def.resolved = true;
         }
 
-        for k in module.definitions_sorted() {
-            let parsed_def = module.get_definition_mut(&k);
-            if parsed_def.is_none() {
-                eprintln!(
-                    "Definition '{}' Not found! It's Okay for certain Dummy References",
-                    k
-                );
-                continue;
-            }
-            let parsed_def = parsed_def.unwrap();
-            if !parsed_def.resolved {
-                println!(
-                    "UNRESOLVED: Definition: {} in module : {} not resolved!",
-                    k,
-                    module.get_module_name()
-                );
-            }
-        }
-
         Ok(())
     }
 
@@ -108,11 +98,19 @@ impl Resolver {
             .collect::<Vec<(&String, &Asn1ResolvedType)>>()
     }
 
-    fn resolve_classes_in_current_module(&mut self, module: &Asn1Module) {
+    fn resolve_classes_in_current_module(&mut self, module: &Asn1Module) -> Result<(), Error> {
         for (k, def) in module.get_definitions() {
-            if def.is_class_assignment() {
-                self.classes.insert(k.clone(), def.clone());
+            if def.is_class_assignment() && self.classes.insert(k.clone(), def.clone()).is_some() {
+                return Err(duplicate_definition(k));
             }
         }
+        Ok(())
     }
 }
+
+fn duplicate_definition(name: &str) -> Error {
+    resolve_error!(
+        "Different definitions of '{}' in more than one module. Not Supported!",
+        name
+    )
+}
-- 
2.43.0


From d4adb7643f66786fc82e1a875a340b6313c50752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:05 +0000
Subject: [PATCH 27/38] fix: resolve the values, sizes and names that
 constraints, references and ENUMERATED types stand for

The upper bound of a union of values and ranges, intersections, nested sets, MIN and
MAX, further constraints and those on references were not (or wrongly) considered,
widths of signed integers lacked the sign, explicitly numbered ENUMERATED lost their
names, and values that did not parse caused a panic.
---
 asn-compiler/src/generator/int.rs             |   8 +-
 asn-compiler/src/parser/asn/types/ioc.rs      |   7 +-
 .../resolver/asn/structs/types/constraints.rs |  78 ++--
 .../src/resolver/asn/structs/values.rs        |  11 +-
 .../src/resolver/asn/types/base/bitstring.rs  |  20 +-
 .../src/resolver/asn/types/base/charstring.rs |  42 ++-
 .../src/resolver/asn/types/base/enumerated.rs | 135 +++++--
 .../src/resolver/asn/types/base/integer.rs    |  86 ++---
 .../resolver/asn/types/base/octetstring.rs    |  19 +-
 .../src/resolver/asn/types/constraints.rs     | 351 +++++++++++-------
 .../src/resolver/asn/types/constructed.rs     |  10 +-
 asn-compiler/src/resolver/asn/types/int.rs    |  99 ++++-
 asn-compiler/src/resolver/asn/types/ioc.rs    |   9 +-
 asn-compiler/src/resolver/asn/values.rs       | 108 +++---
 asn-compiler/src/resolver/int.rs              |  11 +
 15 files changed, 628 insertions(+), 366 deletions(-)

diff --git a/asn-compiler/src/generator/int.rs b/asn-compiler/src/generator/int.rs
index b0677fe..34d0dfe 100644
--- a/asn-compiler/src/generator/int.rs
+++ b/asn-compiler/src/generator/int.rs
@@ -91,7 +91,7 @@ impl Generator {
                 16 => quote!(u16),
                 32 => quote!(u32),
                 64 => quote!(u64),
-                _ => quote!(u64),
+                _ => quote!(u128),
             }
         } else {
             match bits {
@@ -99,7 +99,7 @@ impl Generator {
                 16 => quote!(i16),
                 32 => quote!(i32),
                 64 => quote!(i64),
-                _ => quote!(i64),
+                _ => quote!(i128),
             }
         }
     }
@@ -111,7 +111,7 @@ impl Generator {
                 16 => Literal::u16_suffixed(value as u16),
                 32 => Literal::u32_suffixed(value as u32),
                 64 => Literal::u64_suffixed(value as u64),
-                _ => Literal::u64_suffixed(value as u64),
+                _ => Literal::u128_suffixed(value as u128),
             }
         } else {
             match bits {
@@ -119,7 +119,7 @@ impl Generator {
                 16 => Literal::i16_suffixed(value as i16),
                 32 => Literal::i32_suffixed(value as i32),
                 64 => Literal::i64_suffixed(value as i64),
-                _ => Literal::i64_suffixed(value as i64),
+                _ => Literal::i128_suffixed(value),
             }
         }
     }
diff --git a/asn-compiler/src/parser/asn/types/ioc.rs b/asn-compiler/src/parser/asn/types/ioc.rs
index 1d45f65..fc03c24 100644
--- a/asn-compiler/src/parser/asn/types/ioc.rs
+++ b/asn-compiler/src/parser/asn/types/ioc.rs
@@ -379,7 +379,10 @@ pub(crate) fn parse_object_set(tokens: &[Token]) -> Result<(ObjectSet, usize), E
         }
 
         if consumed == start {
-            return Err(unexpected_token!("'Object' or 'Object Set'", tokens[consumed]));
+            return Err(unexpected_token!(
+                "'Object' or 'Object Set'",
+                tokens[consumed]
+            ));
         }
     }
     Ok((
@@ -395,7 +398,7 @@ pub(crate) fn parse_object_set_from_class(
     set: &mut Asn1ObjectSet,
     class: &Asn1ObjectClass,
 ) -> Result<(), Error> {
-    let mut objectset = &mut set.objects;
+    let objectset = &mut set.objects;
 
     let mut root_elements = vec![];
     loop {
diff --git a/asn-compiler/src/resolver/asn/structs/types/constraints.rs b/asn-compiler/src/resolver/asn/structs/types/constraints.rs
index 78ddae2..2996bf2 100644
--- a/asn-compiler/src/resolver/asn/structs/types/constraints.rs
+++ b/asn-compiler/src/resolver/asn/structs/types/constraints.rs
@@ -1,54 +1,68 @@
 //! Structs Related to Resolved Constraints
 
-use std::ops::Range;
-
+// A set of values, as a union of (inclusive) ranges.
+//
+// `MIN` and `MAX` are represented by `i128::MIN` and `i128::MAX`.
 #[derive(Debug, Clone)]
 pub(crate) struct ConstraintValues {
-    pub(crate) ranges: Vec<Range<i128>>,
-    pub(crate) values: Vec<i128>,
+    pub(crate) ranges: Vec<(i128, i128)>,
 }
 
 impl ConstraintValues {
     pub(crate) fn new() -> Self {
+        ConstraintValues { ranges: vec![] }
+    }
+
+    // All the values.
+    pub(crate) fn all() -> Self {
         ConstraintValues {
-            ranges: vec![],
-            values: vec![],
+            ranges: vec![(i128::MIN, i128::MAX)],
         }
     }
 
+    // Values in the range (inclusive), empty when `lower` is greater than `upper`.
+    pub(crate) fn range(lower: i128, upper: i128) -> Self {
+        let mut ranges = vec![];
+        if lower <= upper {
+            ranges.push((lower, upper));
+        }
+        ConstraintValues { ranges }
+    }
+
     pub(crate) fn append(&mut self, other: &Self) {
         self.ranges.extend(other.ranges.clone());
-        self.values.extend(other.values.clone());
+    }
+
+    pub(crate) fn intersection(&self, other: &Self) -> Self {
+        let mut values = Self::new();
+        for a in &self.ranges {
+            for b in &other.ranges {
+                values.append(&Self::range(
+                    std::cmp::max(a.0, b.0),
+                    std::cmp::min(a.1, b.1),
+                ));
+            }
+        }
+        values
     }
 
     pub(crate) fn is_empty(&self) -> bool {
-        self.values.is_empty() && self.ranges.is_empty()
+        self.ranges.is_empty()
     }
 
+    // Smallest value, `None` if there is none.
     pub(crate) fn min(&self) -> Option<i128> {
-        let values_min = self.values.iter().min();
-        let ranges_min = self.ranges.iter().map(|r| r.start).min();
-        match values_min {
-            None => ranges_min,
-            Some(vals_min) => match ranges_min {
-                None => Some(*vals_min),
-                Some(rnges_min) => Some(std::cmp::min(rnges_min, *vals_min)),
-            },
-        }
+        let min = self.ranges.iter().map(|r| r.0).min();
+        min.filter(|m| *m != i128::MIN)
     }
 
+    // Largest value, `None` if there is none.
     pub(crate) fn max(&self) -> Option<i128> {
-        let values_max = self.values.iter().max();
-        let ranges_max = self.ranges.iter().map(|r| r.end - 1).max();
-        match values_max {
-            None => ranges_max,
-            Some(vals_max) => match ranges_max {
-                None => Some(*vals_max),
-                Some(rnges_max) => Some(std::cmp::min(rnges_max, *vals_max)), // FIXME: This should be std::cmp::max?
-            },
-        }
+        let max = self.ranges.iter().map(|r| r.1).max();
+        max.filter(|m| *m != i128::MAX)
     }
 }
+
 #[derive(Debug, Clone)]
 pub(crate) struct Asn1ConstraintValueSet {
     pub(crate) root_values: ConstraintValues,
@@ -59,4 +73,16 @@ impl Asn1ConstraintValueSet {
     pub(crate) fn has_extension(&self) -> bool {
         self.additional_values.is_some()
     }
+
+    // The set that results from applying this constraint in addition to the `previous` one. Only
+    // the last constraint determines whether the result is extensible.
+    pub(crate) fn applied_to(&self, previous: Option<&Self>) -> Self {
+        match previous {
+            None => self.clone(),
+            Some(previous) => Asn1ConstraintValueSet {
+                root_values: self.root_values.intersection(&previous.root_values),
+                additional_values: self.additional_values.clone(),
+            },
+        }
+    }
 }
diff --git a/asn-compiler/src/resolver/asn/structs/values.rs b/asn-compiler/src/resolver/asn/structs/values.rs
index 285e4d4..b01d533 100644
--- a/asn-compiler/src/resolver/asn/structs/values.rs
+++ b/asn-compiler/src/resolver/asn/structs/values.rs
@@ -1,4 +1,5 @@
-use super::types::Asn1ResolvedType;
+use super::{defs::Asn1ResolvedDefinition, types::Asn1ResolvedType};
+use crate::resolver::Resolver;
 
 /// An INTEGER value will be represented by a BaseInteger type when 'Resolved'.
 pub(crate) type BaseInteger = i128;
@@ -50,10 +51,14 @@ pub(crate) enum Asn1ResolvedValue {
 }
 
 impl Asn1ResolvedValue {
-    pub(crate) fn get_base_integer_value(&self) -> Option<i128> {
+    pub(crate) fn get_base_integer_value(&self, resolver: &Resolver) -> Option<i128> {
         match self {
+            Self::Reference(ref r) => match resolver.resolved_defs.get(r) {
+                Some(Asn1ResolvedDefinition::Value(ref v)) => v.get_base_integer_value(resolver),
+                _ => None,
+            },
             Self::Base(ResolvedBaseValue::Integer(ref i)) => Some(i.value as i128),
-            Self::ReferencedType { value, .. } => value.get_base_integer_value(),
+            Self::ReferencedType { value, .. } => value.get_base_integer_value(resolver),
             _ => None,
         }
     }
diff --git a/asn-compiler/src/resolver/asn/types/base/bitstring.rs b/asn-compiler/src/resolver/asn/types/base/bitstring.rs
index 3926795..abcb015 100644
--- a/asn-compiler/src/resolver/asn/types/base/bitstring.rs
+++ b/asn-compiler/src/resolver/asn/types/base/bitstring.rs
@@ -9,6 +9,7 @@ use crate::parser::asn::structs::types::{
     Asn1Type,
 };
 use crate::resolver::asn::structs::types::base::Asn1ResolvedBitString;
+use crate::resolver::asn::types::constraints::get_effective_size;
 use crate::resolver::Resolver;
 
 impl Asn1ResolvedBitString {
@@ -19,25 +20,16 @@ impl Asn1ResolvedBitString {
     ) -> Result<Asn1ResolvedBitString, Error> {
         let mut base = Asn1ResolvedBitString::default();
 
-        if ty.constraints.is_some() {
-            let constraints = ty.constraints.as_ref().unwrap();
-            if !constraints.is_empty() {
-                let constraint = &constraints[0];
-
-                if constraint.is_size_constraint() {
-                    let value_set = constraint.get_size_valueset(resolver)?;
-                    let _ = base.size.replace(value_set);
-                } else {
-                    // The constraint is a 'CONTAINING' Constraint, TODO: Handle this.
-                }
-            }
-        }
+        // Constraints other than the sizes (eg. 'CONTAINING') are not handled.
+        base.size = get_effective_size(&ty.constraints, None, resolver)?;
 
         if b.named_bits.is_some() {
             let mut named_values = BTreeMap::new();
             for nb in b.named_bits.as_ref().unwrap() {
                 if let NamedValue::Number(ref v) = nb.1 {
-                    let parsed = v.parse::<u8>().unwrap(); // Let it panic if it does not fit in u8.
+                    let parsed = v.parse::<u8>().map_err(|_| {
+                        resolve_error!("Named bit '{}({})' is not supported", nb.0, v)
+                    })?;
                     named_values.insert(nb.0.clone(), parsed);
                 }
             }
diff --git a/asn-compiler/src/resolver/asn/types/base/charstring.rs b/asn-compiler/src/resolver/asn/types/base/charstring.rs
index 42f279b..7212493 100644
--- a/asn-compiler/src/resolver/asn/types/base/charstring.rs
+++ b/asn-compiler/src/resolver/asn/types/base/charstring.rs
@@ -3,8 +3,12 @@
 use crate::error::Error;
 use crate::resolver::Resolver;
 
-use crate::parser::asn::structs::types::{Asn1BuiltinType, Asn1Type, Asn1TypeKind};
-use crate::resolver::asn::structs::types::base::Asn1ResolvedCharacterString;
+use crate::parser::asn::structs::types::{
+    constraints::Asn1Constraint, Asn1BuiltinType, Asn1Type, Asn1TypeKind,
+};
+use crate::resolver::asn::{
+    structs::types::base::Asn1ResolvedCharacterString, types::constraints::get_effective_size,
+};
 
 impl Asn1ResolvedCharacterString {
     pub(crate) fn resolve_character_string(
@@ -16,22 +20,26 @@ impl Asn1ResolvedCharacterString {
         if let Asn1TypeKind::Builtin(Asn1BuiltinType::CharacterString { str_type }) = &ty.kind {
             base.str_type = str_type.clone();
         }
-        if ty.constraints.is_some() {
-            let constraints = ty.constraints.as_ref().unwrap();
-            if !constraints.is_empty() {
-                let constraint = &constraints[0];
+        base.check_constraints(&ty.constraints)?;
+        base.size = get_effective_size(&ty.constraints, None, resolver)?;
+        Ok(base)
+    }
 
-                if constraint.is_size_constraint() {
-                    let value_set = constraint.get_size_valueset(resolver)?;
-                    let _ = base.size.replace(value_set);
-                } else {
-                    return Err(constraint_error!(
-                        "Expected a Size Constraint, Found '{:#?}'",
-                        constraint
-                    ));
-                }
-            }
+    // A permitted alphabet changes how the characters are encoded.
+    pub(crate) fn check_constraints(
+        &self,
+        constraints: &Option<Vec<Asn1Constraint>>,
+    ) -> Result<(), Error> {
+        match constraints
+            .iter()
+            .flatten()
+            .find(|c| c.has_permitted_alphabet())
+        {
+            Some(constraint) if self.str_type != "UTF8String" => Err(constraint_error!(
+                "Expected a Size Constraint, Found '{:#?}'",
+                constraint
+            )),
+            _ => Ok(()),
         }
-        Ok(base)
     }
 }
diff --git a/asn-compiler/src/resolver/asn/types/base/enumerated.rs b/asn-compiler/src/resolver/asn/types/base/enumerated.rs
index 33c79e5..5256678 100644
--- a/asn-compiler/src/resolver/asn/types/base/enumerated.rs
+++ b/asn-compiler/src/resolver/asn/types/base/enumerated.rs
@@ -1,22 +1,23 @@
 //! Functionality for handling Resolved ASN.1 ENUMERATED Types
 
 use std::collections::BTreeSet;
-use std::convert::TryInto;
 
 use crate::error::Error;
 
 use crate::parser::asn::structs::types::{
-    base::{Asn1TypeEnumerated, NamedValue},
+    base::{Asn1TypeEnumerated, EnumValue, NamedValue},
     Asn1Type,
 };
-use crate::resolver::asn::structs::types::base::Asn1ResolvedEnumerated;
+use crate::resolver::asn::structs::{
+    defs::Asn1ResolvedDefinition, types::base::Asn1ResolvedEnumerated,
+};
 use crate::resolver::Resolver;
 
 impl Asn1ResolvedEnumerated {
     pub(super) fn resolve_enumerated(
         _ty: &Asn1Type,
         e: &Asn1TypeEnumerated,
-        _resolver: &Resolver,
+        resolver: &Resolver,
     ) -> Result<Asn1ResolvedEnumerated, Error> {
         let mut base = Asn1ResolvedEnumerated {
             extensible: e.ext_marker_index.is_some(),
@@ -25,47 +26,113 @@ impl Asn1ResolvedEnumerated {
 
         // FIXME: TODO Constraints
 
-        let mut root_values = BTreeSet::<i128>::new();
-        for v in &e.root_values {
-            let named = &v.value;
-            if let Some(NamedValue::Number(ref s)) = named {
-                let parsed = s.parse::<i128>().unwrap();
-                root_values.insert(parsed);
-            }
-        }
-        // TODO: Support all crazy Enumerations.
-        if root_values.is_empty() {
-            for (value, v) in e.root_values.iter().enumerate() {
-                base.named_root_values
-                    .push((v.name.clone(), value.try_into().unwrap()));
-                root_values.insert(value.try_into().unwrap());
+        let mut names = BTreeSet::new();
+        for v in e.root_values.iter().chain(&e.ext_values) {
+            if !names.insert(&v.name) {
+                return Err(resolve_error!(
+                    "'{}' is found more than once in an ENUMERATED",
+                    v.name
+                ));
             }
         }
 
-        let mut ext_values = BTreeSet::<i128>::new();
-        for v in &e.ext_values {
-            let named = &v.value;
-            if let Some(NamedValue::Number(ref s)) = named {
-                let parsed = s.parse::<i128>().unwrap();
-                ext_values.insert(parsed);
+        // Numbers given in the root are not used for those in the root without a number, while the
+        // ones among the additions are greater than all of those before.
+        let mut numbers = BTreeSet::<i128>::new();
+        for v in &e.root_values {
+            if let Some(number) = Self::resolve_number(v, resolver)? {
+                Self::add_number(&mut numbers, number)?;
             }
         }
-        // TODO: Support all crazy Enumerations.
-        if ext_values.is_empty() {
-            for (value, v) in e.ext_values.iter().enumerate() {
-                base.named_ext_values
-                    .push((v.name.clone(), value.try_into().unwrap()));
-                ext_values.insert(value.try_into().unwrap());
+        let mut root_values = vec![];
+        let mut next = 0;
+        for v in &e.root_values {
+            let number = match Self::resolve_number(v, resolver)? {
+                Some(number) => number,
+                None => {
+                    while numbers.contains(&next) {
+                        next += 1;
+                    }
+                    Self::add_number(&mut numbers, next)?;
+                    next
+                }
+            };
+            root_values.push((v.name.clone(), number));
+        }
+        let mut ext_values = vec![];
+        let mut last = None;
+        for v in &e.ext_values {
+            let number = match Self::resolve_number(v, resolver)? {
+                Some(number) => number,
+                None => {
+                    let mut next = last.map_or(0, |l| l + 1);
+                    while numbers.contains(&next) {
+                        next += 1;
+                    }
+                    next
+                }
+            };
+            if matches!(last, Some(last) if number <= last) {
+                return Err(resolve_error!(
+                    "'{}' is less than the addition before it in an ENUMERATED",
+                    v.name
+                ));
             }
+            Self::add_number(&mut numbers, number)?;
+            last = Some(number);
+            ext_values.push((v.name.clone(), number));
         }
 
-        // FIXME: Following is hard-coded
+        // What gets encoded is the index, when sorted by the number.
+        let indexed = |mut values: Vec<(String, i128)>| {
+            values.sort_by_key(|v| v.1);
+            values
+                .into_iter()
+                .enumerate()
+                .map(|(index, v)| (v.0, index as i128))
+                .collect::<Vec<(String, i128)>>()
+        };
+        base.named_root_values = indexed(root_values);
+        base.named_ext_values = indexed(ext_values);
+
+        // Additions follow the root ones.
+        let count = base.named_root_values.len() + base.named_ext_values.len();
         base.signed = false;
-        base.bits = 8;
+        base.bits = if count <= 256 { 8 } else { 16 };
 
-        let _ = base.root_values.replace(root_values);
-        let _ = base.ext_values.replace(ext_values);
+        let indices = |values: &[(String, i128)]| values.iter().map(|v| v.1).collect();
+        base.root_values = Some(indices(&base.named_root_values));
+        base.ext_values = Some(indices(&base.named_ext_values));
 
         Ok(base)
     }
+
+    fn add_number(numbers: &mut BTreeSet<i128>, number: i128) -> Result<(), Error> {
+        if !numbers.insert(number) {
+            return Err(resolve_error!(
+                "Number '{}' is used more than once in an ENUMERATED",
+                number
+            ));
+        }
+        Ok(())
+    }
+
+    fn resolve_number(value: &EnumValue, resolver: &Resolver) -> Result<Option<i128>, Error> {
+        let number = match value.value {
+            None => return Ok(None),
+            Some(NamedValue::Number(ref s)) => s.parse::<i128>().ok(),
+            Some(NamedValue::ValueRef(ref r)) => match resolver.resolved_defs.get(r) {
+                Some(Asn1ResolvedDefinition::Value(ref v)) => v.get_base_integer_value(resolver),
+                _ => None,
+            },
+        };
+        match number {
+            Some(_) => Ok(number),
+            None => Err(resolve_error!(
+                "Number of '{}' in an ENUMERATED is not an INTEGER: '{:#?}'",
+                value.name,
+                value.value
+            )),
+        }
+    }
 }
diff --git a/asn-compiler/src/resolver/asn/types/base/integer.rs b/asn-compiler/src/resolver/asn/types/base/integer.rs
index 4ce50a3..19d6f42 100644
--- a/asn-compiler/src/resolver/asn/types/base/integer.rs
+++ b/asn-compiler/src/resolver/asn/types/base/integer.rs
@@ -3,7 +3,9 @@
 use crate::error::Error;
 
 use crate::parser::asn::structs::types::{base::Asn1TypeInteger, Asn1Type};
-use crate::resolver::asn::structs::types::base::Asn1ResolvedInteger;
+use crate::resolver::asn::structs::types::{
+    base::Asn1ResolvedInteger, constraints::Asn1ConstraintValueSet,
+};
 use crate::resolver::Resolver;
 
 impl Asn1ResolvedInteger {
@@ -13,56 +15,48 @@ impl Asn1ResolvedInteger {
         i: &Asn1TypeInteger,
         resolver: &mut Resolver,
     ) -> Result<Asn1ResolvedInteger, Error> {
-        let mut base = Asn1ResolvedInteger::default();
-
-        if ty.constraints.is_none() {
-            return Ok(base);
-        } else {
-            let constraints = ty.constraints.as_ref().unwrap();
-            if constraints.is_empty() {
-                return Ok(base);
-            }
-        }
-
         // Get the Values that are expected
         let value_set = ty.get_integer_valueset_from_constraint(resolver)?;
-        if let Some(x) = value_set.root_values.min() {
-            if x < 0 {
-                base.signed = true
-            } else {
-                base.signed = false
-            }
-        }
-
-        let bit_width = if base.signed {
-            let min = value_set.root_values.min().unwrap();
-            let max = value_set.root_values.max().unwrap();
-            let bits_needed_max = 128 - max.abs().leading_zeros();
-            let bits_needed_min = 128 - min.abs().leading_zeros();
-            std::cmp::max(bits_needed_min, bits_needed_max)
-        } else if value_set.root_values.min().is_none() {
-            8_u32
-        } else {
-            let max = value_set.root_values.max().unwrap();
-            128 - max.leading_zeros()
-        };
-
-        base.bits = if bit_width <= 8 {
-            8
-        } else if bit_width <= 16 {
-            16
-        } else if bit_width <= 32 {
-            32
-        } else if bit_width <= 64 {
-            64
-        } else {
-            128
-        };
 
         // TODO: If we have named values, They should be added to Global list of resolved definitions.
         if i.named_values.is_some() {}
 
-        let _ = base.resolved_constraints.replace(value_set);
-        Ok(base)
+        Ok(Self::from_value_set(value_set))
+    }
+
+    // An integer that can hold all the values of the set (those not extended).
+    pub(crate) fn from_value_set(value_set: Option<Asn1ConstraintValueSet>) -> Asn1ResolvedInteger {
+        let mut base = Asn1ResolvedInteger::default();
+
+        if let Some(ref value_set) = value_set {
+            let min = value_set.root_values.min();
+            let max = value_set.root_values.max();
+
+            base.signed = !matches!(min, Some(min) if min >= 0);
+
+            // A negative value `v` needs as many bits as the value `-v - 1` (that is `!v`).
+            let bits_needed = |v: i128| 128 - (if v < 0 { !v } else { v }).leading_zeros();
+            let bit_width = match (min, max) {
+                (Some(min), Some(max)) => std::cmp::max(bits_needed(min), bits_needed(max)),
+                // Unless the only bound requires more, 64 bits like an unconstrained one.
+                (Some(v), None) | (None, Some(v)) => std::cmp::max(bits_needed(v), 63),
+                (None, None) => 63,
+            } + if base.signed { 1 } else { 0 };
+
+            base.bits = if bit_width <= 8 {
+                8
+            } else if bit_width <= 16 {
+                16
+            } else if bit_width <= 32 {
+                32
+            } else if bit_width <= 64 {
+                64
+            } else {
+                128
+            };
+        }
+
+        base.resolved_constraints = value_set;
+        base
     }
 }
diff --git a/asn-compiler/src/resolver/asn/types/base/octetstring.rs b/asn-compiler/src/resolver/asn/types/base/octetstring.rs
index 0ed52b6..94aae85 100644
--- a/asn-compiler/src/resolver/asn/types/base/octetstring.rs
+++ b/asn-compiler/src/resolver/asn/types/base/octetstring.rs
@@ -4,7 +4,9 @@ use crate::error::Error;
 use crate::resolver::Resolver;
 
 use crate::parser::asn::structs::types::Asn1Type;
-use crate::resolver::asn::structs::types::base::Asn1ResolvedOctetString;
+use crate::resolver::asn::{
+    structs::types::base::Asn1ResolvedOctetString, types::constraints::get_effective_size,
+};
 
 impl Asn1ResolvedOctetString {
     pub(crate) fn resolve_octet_string(
@@ -13,19 +15,8 @@ impl Asn1ResolvedOctetString {
     ) -> Result<Asn1ResolvedOctetString, Error> {
         let mut base = Asn1ResolvedOctetString::default();
 
-        if ty.constraints.is_some() {
-            let constraints = ty.constraints.as_ref().unwrap();
-            if !constraints.is_empty() {
-                let constraint = &constraints[0];
-
-                if constraint.is_size_constraint() {
-                    let value_set = constraint.get_size_valueset(resolver)?;
-                    let _ = base.size.replace(value_set);
-                } else {
-                    // The constraint is a 'CONTAINING' Constraint, TODO: Handle this.
-                }
-            }
-        }
+        // Constraints other than the sizes (eg. 'CONTAINING') are not handled.
+        base.size = get_effective_size(&ty.constraints, None, resolver)?;
         Ok(base)
     }
 }
diff --git a/asn-compiler/src/resolver/asn/types/constraints.rs b/asn-compiler/src/resolver/asn/types/constraints.rs
index f1da7ee..2b03ff5 100644
--- a/asn-compiler/src/resolver/asn/types/constraints.rs
+++ b/asn-compiler/src/resolver/asn/types/constraints.rs
@@ -1,5 +1,4 @@
 //! Constraint Resolution Implementation
-use std::ops::Range;
 
 use crate::error::Error;
 
@@ -7,8 +6,11 @@ use crate::parser::asn::structs::types::constraints::*;
 
 use crate::resolver::asn::structs::{
     defs::Asn1ResolvedDefinition,
-    types::constraints::{Asn1ConstraintValueSet, ConstraintValues},
-    values::{Asn1ResolvedValue, ResolvedBaseValue},
+    types::{
+        base::ResolvedBaseType,
+        constraints::{Asn1ConstraintValueSet, ConstraintValues},
+        Asn1ResolvedType,
+    },
 };
 use crate::resolver::Resolver;
 
@@ -107,54 +109,63 @@ impl Asn1Constraint {
         true
     }
 
-    // Returns whether the constraint is a 'size' constraint.
-    pub(crate) fn is_size_constraint(&self) -> bool {
-        if let Self::Subtype(ref e) = self {
-            let iset = e.get_inner_elements();
-            if iset.len() != 1 {
-                false
-            } else {
-                matches!(
-                    iset[0].elements[0],
-                    Elements::Subtype(SubtypeElements::SizeConstraint(..))
-                )
-            }
-        } else {
-            false
-        }
-    }
-
+    // Returns the set of sizes if the constraint restricts the size.
     pub(crate) fn get_size_valueset(
         &self,
         resolver: &Resolver,
-    ) -> Result<Asn1ConstraintValueSet, Error> {
-        if let Self::Subtype(ref e) = self {
-            let iset = e.get_inner_elements();
-            if iset.len() == 1 {
-                match iset[0].elements[0] {
-                    Elements::Subtype(ref s) => match s {
-                        SubtypeElements::SizeConstraint(ref elems) => {
-                            elems.get_integer_valueset(resolver)
-                        }
-                        _ => Err(constraint_error!(
-                            "The Constraint for the Type is not a Size Constraint."
-                        )),
-                    },
-                    _ => Err(constraint_error!(
-                        "The Constraint for the type is not a size Constraint."
-                    )),
-                }
-            } else {
-                Err(constraint_error!(
-                    "The Constraint for the type is not a size Constraint."
-                ))
-            }
-        } else {
-            Err(constraint_error!(
-                "The Constraint for the type is not a size Constraint."
-            ))
+    ) -> Result<Option<Asn1ConstraintValueSet>, Error> {
+        match self {
+            Self::Subtype(ref e) => e.get_size_valueset(resolver),
+            _ => Ok(None),
+        }
+    }
+
+    // Returns whether the constraint has a Permitted Alphabet (`FROM`).
+    pub(crate) fn has_permitted_alphabet(&self) -> bool {
+        match self {
+            Self::Subtype(ref e) => e.has_permitted_alphabet(),
+            _ => false,
+        }
+    }
+}
+
+// Sizes that satisfy all the constraints along with the (optional) sizes that are already there.
+pub(crate) fn get_effective_size(
+    constraints: &Option<Vec<Asn1Constraint>>,
+    base: Option<&Asn1ConstraintValueSet>,
+    resolver: &Resolver,
+) -> Result<Option<Asn1ConstraintValueSet>, Error> {
+    let mut effective = base.cloned();
+    for constraint in constraints.iter().flatten() {
+        if let Some(size) = constraint.get_size_valueset(resolver)? {
+            effective = Some(size.applied_to(effective.as_ref()));
+        }
+    }
+    if let Some(ref size) = effective {
+        if size.root_values.is_empty() {
+            return Err(constraint_error!("No size satisfies '{:#?}'", constraints));
         }
     }
+    Ok(effective)
+}
+
+// Values that satisfy all the constraints along with the (optional) values that are already there.
+pub(crate) fn get_effective_values(
+    constraints: &Option<Vec<Asn1Constraint>>,
+    base: Option<&Asn1ConstraintValueSet>,
+    resolver: &Resolver,
+) -> Result<Option<Asn1ConstraintValueSet>, Error> {
+    let mut effective = base.cloned();
+    for constraint in constraints.iter().flatten() {
+        let values = constraint.get_integer_valueset(resolver)?;
+        effective = Some(values.applied_to(effective.as_ref()));
+    }
+    if let Some(ref values) = effective {
+        if values.root_values.is_empty() {
+            return Err(constraint_error!("No value satisfies '{:#?}'", constraints));
+        }
+    }
+    Ok(effective)
 }
 
 impl ElementSet {
@@ -177,22 +188,11 @@ impl ElementSet {
     }
 
     fn get_integer_valueset(&self, resolver: &Resolver) -> Result<Asn1ConstraintValueSet, Error> {
-        let mut root_values = ConstraintValues::new();
-        for element in self.get_inner_elements() {
-            let element_values = element.get_integer_valueset(resolver)?;
-            root_values.append(&element_values);
-        }
+        let root_values = self.root_elements.get_integer_valueset(resolver)?;
 
-        let additional_values = if self.additional_elements.is_some() {
-            let additional_elements = self.additional_elements.as_ref().unwrap();
-            let mut additional_values = ConstraintValues::new();
-            for element in &additional_elements.elements {
-                let element_values = element.get_integer_valueset(resolver)?;
-                additional_values.append(&element_values);
-            }
-            Some(additional_values)
-        } else {
-            None
+        let additional_values = match self.additional_elements {
+            Some(ref additional) => Some(additional.get_integer_valueset(resolver)?),
+            None => None,
         };
 
         Ok(Asn1ConstraintValueSet {
@@ -201,6 +201,34 @@ impl ElementSet {
         })
     }
 
+    fn get_size_valueset(
+        &self,
+        resolver: &Resolver,
+    ) -> Result<Option<Asn1ConstraintValueSet>, Error> {
+        let mut size = self.root_elements.get_size_valueset(resolver)?;
+
+        if let (Some(ref mut size), Some(ref additional)) = (&mut size, &self.additional_elements) {
+            let additional_values = match additional.get_size_valueset(resolver)? {
+                Some(additional) => additional.root_values,
+                None => ConstraintValues::new(),
+            };
+            let _ = size.additional_values.replace(additional_values);
+        }
+        Ok(size)
+    }
+
+    fn has_permitted_alphabet(&self) -> bool {
+        self.root_elements
+            .elements
+            .iter()
+            .flat_map(|e| &e.elements)
+            .any(|e| match e {
+                Elements::Subtype(SubtypeElements::PermittedAlphabet(..)) => true,
+                Elements::Subtype(..) => false,
+                Elements::Set(ref s) => s.has_permitted_alphabet(),
+            })
+    }
+
     fn dependent_references(self) -> Vec<String> {
         let mut output = vec![];
         output.extend(self.root_elements.dependent_references());
@@ -237,28 +265,27 @@ impl IntersectionSet {
     }
 
     fn get_integer_valueset(&self, resolver: &Resolver) -> Result<ConstraintValues, Error> {
-        let mut value_set = ConstraintValues::new();
+        let mut value_set = ConstraintValues::all();
         for element in &self.elements {
-            let element_set = element.get_integer_valueset(resolver)?;
-            if value_set.is_empty() {
-                // If Empty Set, it's okay to union, but not otherwise
-                value_set.append(&element_set);
-            } else {
-                value_set.values = value_set
-                    .values
-                    .into_iter()
-                    .filter(|e| element_set.values.contains(e))
-                    .collect::<Vec<i128>>();
-                value_set.ranges = value_set
-                    .ranges
-                    .into_iter()
-                    .filter(|e| element_set.ranges.contains(e))
-                    .collect::<Vec<Range<i128>>>();
-            }
+            value_set = value_set.intersection(&element.get_integer_valueset(resolver)?);
         }
         Ok(value_set)
     }
 
+    // The elements that do not restrict the size do not matter in an intersection.
+    fn get_size_valueset(
+        &self,
+        resolver: &Resolver,
+    ) -> Result<Option<Asn1ConstraintValueSet>, Error> {
+        let mut size: Option<Asn1ConstraintValueSet> = None;
+        for element in &self.elements {
+            if let Some(element_size) = element.get_size_valueset(resolver)? {
+                size = Some(element_size.applied_to(size.as_ref()));
+            }
+        }
+        Ok(size)
+    }
+
     fn dependent_references(&self) -> Vec<String> {
         let mut output = vec![];
         for element in &self.elements {
@@ -282,9 +309,29 @@ impl Elements {
     fn get_integer_valueset(&self, resolver: &Resolver) -> Result<ConstraintValues, Error> {
         match self {
             Self::Subtype(ref s) => s.get_integer_valueset(resolver),
-            Self::Set(ref _s) => Err(constraint_error!(
-                "get_integer_valueset: Set Variant: Not Supported!"
+            Self::Set(ref s) if s.additional_elements.is_some() => Err(constraint_error!(
+                "Extension Marker is not allowed in '{:#?}'",
+                s
             )),
+            Self::Set(ref s) => Ok(s.get_integer_valueset(resolver)?.root_values),
+        }
+    }
+
+    fn get_size_valueset(
+        &self,
+        resolver: &Resolver,
+    ) -> Result<Option<Asn1ConstraintValueSet>, Error> {
+        match self {
+            Self::Subtype(SubtypeElements::SizeConstraint(ref elems)) => {
+                let mut size = elems.get_integer_valueset(resolver)?;
+                // A size is never negative.
+                size.root_values = size
+                    .root_values
+                    .intersection(&ConstraintValues::range(0, i128::MAX));
+                Ok(Some(size))
+            }
+            Self::Subtype(..) => Ok(None),
+            Self::Set(ref s) => s.get_size_valueset(resolver),
         }
     }
 
@@ -298,16 +345,20 @@ impl Elements {
 
 impl SubtypeElements {
     fn get_integer_valueset(&self, resolver: &Resolver) -> Result<ConstraintValues, Error> {
-        let mut value_set = ConstraintValues::new();
         match self {
             Self::SingleValue { value } => {
-                value_set
-                    .values
-                    .push(Self::parse_or_resolve_value(value, resolver)?);
+                if value.starts_with(|c: char| c.is_ascii_uppercase()) {
+                    // It's a type, the name of which cannot be told from that of a value.
+                    return get_integer_valueset_of_reference(value, resolver);
+                }
+                let value = Self::parse_or_resolve_value(value, resolver)?;
+                Ok(ConstraintValues::range(value, value))
             }
             Self::ConstrainedSubtype(ref ty) => {
-                let all_values_set = ty.get_integer_valueset_from_constraint(resolver)?;
-                value_set.append(&all_values_set.root_values); // We only care about Root Elements
+                // We only care about Root Elements
+                Ok(ty
+                    .get_integer_valueset_from_constraint(resolver)?
+                    .map_or(ConstraintValues::all(), |v| v.root_values))
             }
             Self::ValueRange {
                 lower,
@@ -315,63 +366,45 @@ impl SubtypeElements {
                 upper,
                 upper_inclusive,
             } => {
-                let mut lower_value = Self::parse_or_resolve_value(lower, resolver)?;
+                let mut lower_value = match lower.as_str() {
+                    "MIN" => i128::MIN,
+                    _ => Self::parse_or_resolve_value(lower, resolver)?,
+                };
                 if !lower_inclusive {
-                    lower_value += 1;
+                    lower_value = lower_value.saturating_add(1);
                 }
-                let mut upper_value = Self::parse_or_resolve_value(upper, resolver)?;
+                let mut upper_value = match upper.as_str() {
+                    "MAX" => i128::MAX,
+                    _ => Self::parse_or_resolve_value(upper, resolver)?,
+                };
                 if !upper_inclusive {
-                    upper_value -= 1;
+                    upper_value = upper_value.saturating_sub(1);
                 }
-                value_set.ranges.push(Range {
-                    start: lower_value,
-                    end: upper_value + 1,
-                });
-            }
-            Self::SizeConstraint(ref elems) => {
-                let size_elements = elems.get_integer_valueset(resolver)?;
-                value_set.append(&size_elements.root_values);
-                if size_elements.additional_values.is_some() {
-                    value_set.append(&size_elements.additional_values.unwrap());
-                }
-            }
-            _ => {
-                return Err(constraint_error!(
-                    "Unexpected Constraint Type '{:#?}'",
-                    self
-                ));
+                Ok(ConstraintValues::range(lower_value, upper_value))
             }
+            _ => Err(constraint_error!(
+                "Unexpected Constraint Type '{:#?}'",
+                self
+            )),
         }
-        Ok(value_set)
     }
 
     fn parse_or_resolve_value(value: &str, resolver: &Resolver) -> Result<i128, Error> {
-        // FIXME : do the 'resolve part'
-        let parsed = value.parse::<i128>();
-        match parsed {
+        match value.parse::<i128>() {
             Ok(x) => Ok(x),
-            Err(_) => {
-                let resolved = resolver.resolved_defs.get(value);
-                match resolved {
-                    None => Err(constraint_error!(
-                        "Unable To Resolve '{}'. Not Found!",
-                        value
-                    )),
-                    Some(res) => {
-                        if let Asn1ResolvedDefinition::Value(Asn1ResolvedValue::Base(
-                            ResolvedBaseValue::Integer(ref i),
-                        )) = res
-                        {
-                            Ok(i.value)
-                        } else {
-                            Err(constraint_error!(
-                                "Resolved Value {:#?} of different type!",
-                                res
-                            ))
-                        }
-                    }
-                }
-            }
+            Err(_) => match resolver.resolved_defs.get(value) {
+                Some(Asn1ResolvedDefinition::Value(ref v)) => v
+                    .get_base_integer_value(resolver)
+                    .ok_or_else(|| constraint_error!("Resolved Value {:#?} of different type!", v)),
+                Some(res) => Err(constraint_error!(
+                    "Resolved Value {:#?} of different type!",
+                    res
+                )),
+                None => Err(constraint_error!(
+                    "Unable To Resolve '{}'. Not Found!",
+                    value
+                )),
+            },
         }
     }
 
@@ -390,6 +423,41 @@ impl SubtypeElements {
 }
 
 impl UnionSet {
+    fn get_integer_valueset(&self, resolver: &Resolver) -> Result<ConstraintValues, Error> {
+        let mut values = ConstraintValues::new();
+        for element in &self.elements {
+            values.append(&element.get_integer_valueset(resolver)?);
+        }
+        Ok(values)
+    }
+
+    // The size is restricted only if all the elements of the union restrict it.
+    fn get_size_valueset(
+        &self,
+        resolver: &Resolver,
+    ) -> Result<Option<Asn1ConstraintValueSet>, Error> {
+        let mut union: Option<Asn1ConstraintValueSet> = None;
+        for element in &self.elements {
+            let size = match element.get_size_valueset(resolver)? {
+                Some(size) => size,
+                None => return Ok(None),
+            };
+            match union {
+                None => union = Some(size),
+                Some(ref mut union) => {
+                    union.root_values.append(&size.root_values);
+                    if let Some(additional) = size.additional_values {
+                        union
+                            .additional_values
+                            .get_or_insert_with(ConstraintValues::new)
+                            .append(&additional);
+                    }
+                }
+            }
+        }
+        Ok(union)
+    }
+
     fn dependent_references(&self) -> Vec<String> {
         let mut output = vec![];
         for element in &self.elements {
@@ -398,3 +466,20 @@ impl UnionSet {
         output
     }
 }
+
+// Root values of the INTEGER type a reference refers to.
+pub(super) fn get_integer_valueset_of_reference(
+    reference: &str,
+    resolver: &Resolver,
+) -> Result<ConstraintValues, Error> {
+    match resolver.get_base_type(reference) {
+        Some(Asn1ResolvedType::Base(ResolvedBaseType::Integer(ref i))) => Ok(i
+            .resolved_constraints
+            .as_ref()
+            .map_or(ConstraintValues::all(), |v| v.root_values.clone())),
+        _ => Err(constraint_error!(
+            "The Type '{}' is not a resolved INTEGER Type.",
+            reference
+        )),
+    }
+}
diff --git a/asn-compiler/src/resolver/asn/types/constructed.rs b/asn-compiler/src/resolver/asn/types/constructed.rs
index ebf433c..4d6cf55 100644
--- a/asn-compiler/src/resolver/asn/types/constructed.rs
+++ b/asn-compiler/src/resolver/asn/types/constructed.rs
@@ -20,7 +20,7 @@ use crate::resolver::{
                 Asn1ResolvedType, ResolvedSetType, ResolvedSetTypeMap,
             },
         },
-        types::resolve_type,
+        types::{constraints::get_effective_size, resolve_type},
     },
     Resolver,
 };
@@ -127,12 +127,8 @@ fn resolve_sequence_of_type(
     resolver: &mut Resolver,
 ) -> Result<Asn1ResolvedType, Error> {
     let resolved = resolve_type(&sequence_of.ty, resolver)?;
-    let size_values = if sequence_of.size.is_some() {
-        let size = sequence_of.size.as_ref().unwrap();
-        Some(size.get_size_valueset(resolver)?)
-    } else {
-        None
-    };
+    let size = sequence_of.size.clone().map(|size| vec![size]);
+    let size_values = get_effective_size(&size, None, resolver)?;
 
     Ok(Asn1ResolvedType::Constructed(
         ResolvedConstructedType::SequenceOf {
diff --git a/asn-compiler/src/resolver/asn/types/int.rs b/asn-compiler/src/resolver/asn/types/int.rs
index 5195053..e8a034f 100644
--- a/asn-compiler/src/resolver/asn/types/int.rs
+++ b/asn-compiler/src/resolver/asn/types/int.rs
@@ -8,15 +8,26 @@ use crate::resolver::{
     asn::{
         structs::{
             defs::Asn1ResolvedDefinition,
-            types::{constraints::Asn1ConstraintValueSet, Asn1ResolvedType},
+            types::{
+                base::{Asn1ResolvedInteger, ResolvedBaseType},
+                constraints::Asn1ConstraintValueSet,
+                constructed::ResolvedConstructedType,
+                Asn1ResolvedType,
+            },
+        },
+        types::{
+            base::resolve_base_type,
+            constraints::{
+                get_effective_size, get_effective_values, get_integer_valueset_of_reference,
+            },
+            constructed::resolve_constructed_type,
         },
-        types::{base::resolve_base_type, constructed::resolve_constructed_type},
     },
     Resolver,
 };
 
 impl Asn1Type {
-    // Returns the Integer ValueSet for a given Type.
+    // Returns the Integer ValueSet for a given Type, `None` if it has no constraints.
     //
     // If the type is a `Base` type, it should be INTEGER or it's an Error. If the `Type` is a
     // Referenced Type, it should be possible to 'resolve' the Reference to a proper
@@ -25,15 +36,18 @@ impl Asn1Type {
     pub(crate) fn get_integer_valueset_from_constraint(
         &self,
         resolver: &Resolver,
-    ) -> Result<Asn1ConstraintValueSet, Error> {
+    ) -> Result<Option<Asn1ConstraintValueSet>, Error> {
         let kind = &self.kind;
         match kind {
             Asn1TypeKind::Builtin(Asn1BuiltinType::Integer(..)) => {
-                let constraint = &self.constraints.as_ref().unwrap()[0];
-                constraint.get_integer_valueset(resolver)
+                get_effective_values(&self.constraints, None, resolver)
             }
-            Asn1TypeKind::Reference(Asn1TypeReference::Reference(ref _r)) => {
-                Err(constraint_error!("Not Implemented!"))
+            Asn1TypeKind::Reference(Asn1TypeReference::Reference(ref r)) => {
+                let base = Asn1ConstraintValueSet {
+                    root_values: get_integer_valueset_of_reference(r, resolver)?,
+                    additional_values: None,
+                };
+                get_effective_values(&self.constraints, Some(&base), resolver)
             }
             _ => Err(constraint_error!(
                 "The Type '{:#?}' is not of a BuiltIn Or a Referenced Kind!",
@@ -65,9 +79,11 @@ fn resolve_reference_type(
                 let resolved = resolver.resolved_defs.get(r);
                 match resolved {
                     Some(res) => match res {
-                        Asn1ResolvedDefinition::Type(..) => {
-                            Ok(Asn1ResolvedType::Reference(r.to_string()))
-                        }
+                        Asn1ResolvedDefinition::Type(..) => apply_constraints(
+                            &Asn1ResolvedType::Reference(r.to_string()),
+                            ty,
+                            resolver,
+                        ),
                         _ => Err(resolve_error!(
                             "Expected a Resolved Type, found {:#?}",
                             resolved
@@ -84,7 +100,8 @@ fn resolve_reference_type(
                 match def {
                     Some(d) => {
                         let params_resolved_type = d.clone().apply_params(params)?;
-                        resolve_type(&params_resolved_type, resolver)
+                        let resolved = resolve_type(&params_resolved_type, resolver)?;
+                        apply_constraints(&resolved, ty, resolver)
                     }
                     None => Err(resolve_error!(
                         "Parameterized Type for '{:#?}' Not found!",
@@ -100,3 +117,61 @@ fn resolve_reference_type(
         Err(resolve_error!("Expected Reference Type. Found '{:#?}'", ty))
     }
 }
+
+// Applies the constraints of a type reference to the type it refers to.
+//
+// The type itself is returned when there are no constraints or none of those matters for the
+// encoding of the type.
+fn apply_constraints(
+    resolved: &Asn1ResolvedType,
+    ty: &Asn1Type,
+    resolver: &Resolver,
+) -> Result<Asn1ResolvedType, Error> {
+    let constraints = &ty.constraints;
+    if constraints.iter().flatten().next().is_none() {
+        return Ok(resolved.clone());
+    }
+
+    let mut base = match resolved {
+        Asn1ResolvedType::Reference(ref r) => match resolver.get_base_type(r) {
+            Some(base) => base.clone(),
+            None => return Err(resolve_error!("Type for '{}' not resolved yet!", r)),
+        },
+        _ => resolved.clone(),
+    };
+
+    let effective_size = |size: &mut Option<Asn1ConstraintValueSet>| {
+        let effective = get_effective_size(constraints, size.as_ref(), resolver)?;
+        let changed = constraints
+            .iter()
+            .flatten()
+            .any(|c| matches!(c.get_size_valueset(resolver), Ok(Some(_))));
+        *size = effective;
+        Ok(changed)
+    };
+    let changed = match base {
+        Asn1ResolvedType::Base(ResolvedBaseType::Integer(ref mut i)) => {
+            let values =
+                get_effective_values(constraints, i.resolved_constraints.as_ref(), resolver)?;
+            *i = Asn1ResolvedInteger::from_value_set(values);
+            true
+        }
+        Asn1ResolvedType::Base(ResolvedBaseType::BitString(ref mut b)) => {
+            effective_size(&mut b.size)?
+        }
+        Asn1ResolvedType::Base(ResolvedBaseType::OctetString(ref mut o)) => {
+            effective_size(&mut o.size)?
+        }
+        Asn1ResolvedType::Base(ResolvedBaseType::CharacterString(ref mut c)) => {
+            c.check_constraints(constraints)?;
+            effective_size(&mut c.size)?
+        }
+        Asn1ResolvedType::Constructed(ResolvedConstructedType::SequenceOf {
+            ref mut size_values,
+            ..
+        }) => effective_size(size_values)?,
+        _ => false,
+    };
+
+    Ok(if changed { base } else { resolved.clone() })
+}
diff --git a/asn-compiler/src/resolver/asn/types/ioc.rs b/asn-compiler/src/resolver/asn/types/ioc.rs
index db20a97..79e79b3 100644
--- a/asn-compiler/src/resolver/asn/types/ioc.rs
+++ b/asn-compiler/src/resolver/asn/types/ioc.rs
@@ -115,7 +115,8 @@ pub(crate) fn resolve_object_set(
                                                         // decoder.
                                                         let v = format!(
                                                             "{}",
-                                                            v.get_base_integer_value().unwrap()
+                                                            v.get_base_integer_value(resolver)
+                                                                .unwrap()
                                                         );
                                                         lookup_table
                                                             .insert((v, s.clone()), element);
@@ -156,8 +157,10 @@ pub(crate) fn resolve_object_set(
                                             // Get the actual Value - Usually this value is an
                                             // Integer Value. This Value is to be used by the
                                             // decoder.
-                                            let v =
-                                                format!("{}", v.get_base_integer_value().unwrap());
+                                            let v = format!(
+                                                "{}",
+                                                v.get_base_integer_value(resolver).unwrap()
+                                            );
                                             lookup_table.insert((v, s.clone()), element);
                                         }
                                     }
diff --git a/asn-compiler/src/resolver/asn/values.rs b/asn-compiler/src/resolver/asn/values.rs
index 08914f1..6972cb1 100644
--- a/asn-compiler/src/resolver/asn/values.rs
+++ b/asn-compiler/src/resolver/asn/values.rs
@@ -7,8 +7,8 @@ use crate::resolver::{
         defs::Asn1ResolvedDefinition,
         types::{base::ResolvedBaseType, Asn1ResolvedType},
         values::{
-            Asn1ResolvedEnumValue, Asn1ResolvedIntegerValue, Asn1ResolvedValue, BaseInteger,
-            ResolvedBaseValue,
+            Asn1ResolvedEnumValue, Asn1ResolvedIntegerValue, Asn1ResolvedValue, BaseEnum,
+            BaseInteger, ResolvedBaseValue,
         },
     },
     Resolver,
@@ -21,59 +21,65 @@ pub(crate) fn resolve_value(
 ) -> Result<Asn1ResolvedValue, Error> {
     let referenced_value = resolver.resolved_defs.get(value);
     match referenced_value {
-        None => {
-            match typeref {
-                Asn1ResolvedType::Base(ref b) => match b {
-                    ResolvedBaseType::Integer(ref _i) => {
-                        let value = value.parse::<BaseInteger>().unwrap();
-                        Ok(Asn1ResolvedValue::Base(ResolvedBaseValue::Integer(
-                            Asn1ResolvedIntegerValue {
-                                typeref: typeref.clone(),
-                                value,
-                            },
-                        )))
-                    }
-                    ResolvedBaseType::Enum(ref _e) => {
-                        // FIXME: When Enum is resolved we'd get it right
-                        // let value = value.parse::<BaseEnum>().unwrap();
-                        let value = 0;
-                        Ok(Asn1ResolvedValue::Base(ResolvedBaseValue::Enum(
-                            Asn1ResolvedEnumValue {
-                                typeref: typeref.clone(),
-                                value,
-                            },
-                        )))
-                    }
-                    _ => Err(resolve_error!(
-                        "resolve_value: Not Supported Yet! {:#?}",
-                        typeref
+        None => match typeref {
+            Asn1ResolvedType::Base(ref b) => match b {
+                ResolvedBaseType::Integer(ref _i) => {
+                    let value = value
+                        .parse::<BaseInteger>()
+                        .map_err(|_| resolve_error!("'{}' is not a value of an INTEGER", value))?;
+                    Ok(Asn1ResolvedValue::Base(ResolvedBaseValue::Integer(
+                        Asn1ResolvedIntegerValue {
+                            typeref: typeref.clone(),
+                            value,
+                        },
+                    )))
+                }
+                ResolvedBaseType::Enum(ref e) => {
+                    let value = e
+                        .named_root_values
+                        .iter()
+                        .chain(&e.named_ext_values)
+                        .find(|v| v.0 == value)
+                        .map(|v| v.1 as BaseEnum)
+                        .ok_or_else(|| {
+                            resolve_error!("'{}' is not a value of the ENUMERATED", value)
+                        })?;
+                    Ok(Asn1ResolvedValue::Base(ResolvedBaseValue::Enum(
+                        Asn1ResolvedEnumValue {
+                            typeref: typeref.clone(),
+                            value,
+                        },
+                    )))
+                }
+                _ => Err(resolve_error!(
+                    "resolve_value: Not Supported Yet! {:#?}",
+                    typeref
+                )),
+            },
+            Asn1ResolvedType::Reference(ref r) => {
+                let typedef = resolver.resolved_defs.get(r);
+                match typedef {
+                    None => Err(resolve_error!(
+                        "Definition for Reference '{}' not found or not Resolved yet!",
+                        r
                     )),
-                },
-                Asn1ResolvedType::Reference(ref r) => {
-                    let typedef = resolver.resolved_defs.get(r);
-                    match typedef {
-                        None => Err(resolve_error!(
-                            "Definition for Reference '{}' not found or not Resolved yet!",
-                            r
+                    Some(def) => match def {
+                        Asn1ResolvedDefinition::Type(ref t) => {
+                            let v = resolve_value(value, &t.clone(), resolver)?;
+                            Ok(Asn1ResolvedValue::ReferencedType {
+                                value: Box::new(v),
+                                typeref: r.clone(),
+                            })
+                        }
+                        _ => Err(resolve_error!(
+                            "Resolved Definition '{:#?}' is not a Type definition!",
+                            typedef
                         )),
-                        Some(def) => match def {
-                            Asn1ResolvedDefinition::Type(ref t) => {
-                                let v = resolve_value(value, &t.clone(), resolver)?;
-                                Ok(Asn1ResolvedValue::ReferencedType {
-                                    value: Box::new(v),
-                                    typeref: r.clone(),
-                                })
-                            }
-                            _ => Err(resolve_error!(
-                                "Resolved Definition '{:#?}' is not a Type definition!",
-                                typedef
-                            )),
-                        },
-                    }
+                    },
                 }
-                _ => Err(resolve_error!("resolve_value: Not Implemented!")),
             }
-        }
+            _ => Err(resolve_error!("resolve_value: Not Implemented!")),
+        },
         Some(ref_value) => match ref_value {
             Asn1ResolvedDefinition::Value(ref _v) => {
                 Ok(Asn1ResolvedValue::Reference(value.to_string()))
diff --git a/asn-compiler/src/resolver/int.rs b/asn-compiler/src/resolver/int.rs
index 8d0c059..0469a6b 100644
--- a/asn-compiler/src/resolver/int.rs
+++ b/asn-compiler/src/resolver/int.rs
@@ -98,6 +98,17 @@ impl Resolver {
             .collect::<Vec<(&String, &Asn1ResolvedType)>>()
     }
 
+    // Returns the type a reference refers to, through any number of other references.
+    pub(crate) fn get_base_type(&self, reference: &str) -> Option<&Asn1ResolvedType> {
+        match self.resolved_defs.get(reference) {
+            Some(Asn1ResolvedDefinition::Type(Asn1ResolvedType::Reference(ref r))) => {
+                self.get_base_type(r)
+            }
+            Some(Asn1ResolvedDefinition::Type(ref t)) => Some(t),
+            _ => None,
+        }
+    }
+
     fn resolve_classes_in_current_module(&mut self, module: &Asn1Module) -> Result<(), Error> {
         for (k, def) in module.get_definitions() {
             if def.is_class_assignment() && self.classes.insert(k.clone(), def.clone()).is_some() {
-- 
2.43.0


From fa560de9933dc667007d33a077d1bb444e53eef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:20 +0000
Subject: [PATCH 28/38] fix: accept TRUE and FALSE as values, report malformed
 components, keep the order of CHOICE additions

---
 .../parser/asn/types/constructed/choice.rs    | 19 ++++++++++---------
 .../src/parser/asn/types/constructed/seq.rs   |  7 ++-----
 .../src/parser/asn/types/constructed/utils.rs | 12 ++++++++++++
 asn-compiler/src/parser/asn/values.rs         | 11 ++++++++++-
 4 files changed, 34 insertions(+), 15 deletions(-)

diff --git a/asn-compiler/src/parser/asn/types/constructed/choice.rs b/asn-compiler/src/parser/asn/types/constructed/choice.rs
index 9f551d4..bbf17a5 100644
--- a/asn-compiler/src/parser/asn/types/constructed/choice.rs
+++ b/asn-compiler/src/parser/asn/types/constructed/choice.rs
@@ -7,7 +7,7 @@ use crate::parser::utils::{expect_keyword, expect_token};
 
 use crate::parser::asn::structs::types::constructed::{Asn1TypeChoice, ChoiceAdditionGroup};
 
-use super::utils::parse_component;
+use super::utils::parse_optional_component;
 
 // Parse a Choice Type
 //
@@ -33,10 +33,7 @@ pub(crate) fn parse_choice_type(tokens: &[Token]) -> Result<(Asn1TypeChoice, usi
     let mut extension_markers = 0;
     loop {
         let start = consumed;
-        let (component, component_consumed) = match parse_component(&tokens[consumed..]) {
-            Ok(result) => (Some(result.0), result.1),
-            Err(_) => (None, 0),
-        };
+        let (component, component_consumed) = parse_optional_component(&tokens[consumed..])?;
         if let Some(c) = component {
             // We have a component that needs to be added in the `additions` list and not in the
             // `root_components`. All such components that are not part of `ChoiceAdditionGroup`
@@ -56,6 +53,13 @@ pub(crate) fn parse_choice_type(tokens: &[Token]) -> Result<(Asn1TypeChoice, usi
                     "Addition Component can only be present after an Extension Marker!"
                 ));
             } else {
+                // The additions before the group come before those in the group.
+                if !no_ver_additions_components.is_empty() {
+                    additions.push(ChoiceAdditionGroup {
+                        _version: None,
+                        components: std::mem::take(&mut no_ver_additions_components),
+                    });
+                }
                 let (addition_group, addition_group_consumed) =
                     parse_choice_addition_group(&tokens[consumed..])?;
                 additions.push(addition_group);
@@ -136,10 +140,7 @@ fn parse_choice_addition_group(tokens: &[Token]) -> Result<(ChoiceAdditionGroup,
     let mut components = vec![];
     loop {
         let start = consumed;
-        let (component, component_consumed) = match parse_component(&tokens[consumed..]) {
-            Ok(result) => (Some(result.0), result.1),
-            Err(_) => (None, 0),
-        };
+        let (component, component_consumed) = parse_optional_component(&tokens[consumed..])?;
 
         if let Some(c) = component {
             components.push(c);
diff --git a/asn-compiler/src/parser/asn/types/constructed/seq.rs b/asn-compiler/src/parser/asn/types/constructed/seq.rs
index e57f2f4..5a89f45 100644
--- a/asn-compiler/src/parser/asn/types/constructed/seq.rs
+++ b/asn-compiler/src/parser/asn/types/constructed/seq.rs
@@ -14,7 +14,7 @@ use crate::parser::asn::{
     values::parse_value,
 };
 
-use super::utils::parse_component;
+use super::utils::parse_optional_component;
 
 pub(crate) fn parse_seq_or_seq_of_type(tokens: &[Token]) -> Result<(Asn1TypeKind, usize), Error> {
     if !expect_keyword(tokens, "SEQUENCE")? {
@@ -131,10 +131,7 @@ fn parse_sequence_of_type(tokens: &[Token]) -> Result<(Asn1TypeKind, usize), Err
 fn parse_seq_component(tokens: &[Token]) -> Result<(Option<SeqComponent>, usize), Error> {
     let mut consumed = 0;
 
-    let (component, component_consumed) = match parse_component(&tokens[consumed..]) {
-        Ok(result) => (Some(result.0), result.1),
-        Err(_) => (None, 0),
-    };
+    let (component, component_consumed) = parse_optional_component(&tokens[consumed..])?;
     consumed += component_consumed;
 
     if let Some(component) = component {
diff --git a/asn-compiler/src/parser/asn/types/constructed/utils.rs b/asn-compiler/src/parser/asn/types/constructed/utils.rs
index 644fa13..754a03e 100644
--- a/asn-compiler/src/parser/asn/types/constructed/utils.rs
+++ b/asn-compiler/src/parser/asn/types/constructed/utils.rs
@@ -7,6 +7,18 @@ use crate::parser::{asn::types::parse_type, utils::expect_token};
 
 use crate::parser::asn::structs::types::constructed::Component;
 
+// Parses a component if there is one (ie. something that begins with an identifier).
+pub(crate) fn parse_optional_component(
+    tokens: &[Token],
+) -> Result<(Option<Component>, usize), Error> {
+    if expect_token(tokens, Token::is_value_reference)? {
+        let (component, consumed) = parse_component(tokens)?;
+        Ok((Some(component), consumed))
+    } else {
+        Ok((None, 0))
+    }
+}
+
 pub(crate) fn parse_component(tokens: &[Token]) -> Result<(Component, usize), Error> {
     let mut consumed = 0;
     if !expect_token(&tokens[consumed..], Token::is_value_reference)? {
diff --git a/asn-compiler/src/parser/asn/values.rs b/asn-compiler/src/parser/asn/values.rs
index 1563c5b..f850e93 100644
--- a/asn-compiler/src/parser/asn/values.rs
+++ b/asn-compiler/src/parser/asn/values.rs
@@ -19,6 +19,7 @@ pub(crate) fn parse_value(tokens: &[Token]) -> Result<(String, usize), Error> {
             Token::is_tstring,
             Token::is_curly_begin,
             Token::is_round_begin,
+            is_value_keyword,
         ],
     )? {
         Err(unexpected_token!(
@@ -32,10 +33,18 @@ pub(crate) fn parse_value(tokens: &[Token]) -> Result<(String, usize), Error> {
             | TokenType::NumberInt
             | TokenType::BitString
             | TokenType::HexString
-            | TokenType::TString => Ok((token.text.clone(), 1)),
+            | TokenType::TString
+            | TokenType::Keyword => Ok((token.text.clone(), 1)),
             _ => parse_set_ish_value(tokens),
         }
     }
 }
 
+// Keywords that are values themselves.
+fn is_value_keyword(token: &Token) -> bool {
+    ["TRUE", "FALSE", "NULL"]
+        .iter()
+        .any(|k| token.is_given_keyword(k))
+}
+
 // TODO: Add Test cases
-- 
2.43.0


From cbc96a2d65e142d80455908663aef05acc21c817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:48 +0000
Subject: [PATCH 29/38] fix: resolve each SEQUENCE component on it's own
 (DEFAULT, OPTIONAL, additions, open types)

---
 .../parser/asn/structs/types/constructed.rs   |   3 +-
 .../src/parser/asn/types/constructed/seq.rs   |  13 +-
 .../src/resolver/asn/types/constructed.rs     | 230 +++++++-----------
 3 files changed, 103 insertions(+), 143 deletions(-)

diff --git a/asn-compiler/src/parser/asn/structs/types/constructed.rs b/asn-compiler/src/parser/asn/structs/types/constructed.rs
index c98fc2f..7b4716a 100644
--- a/asn-compiler/src/parser/asn/structs/types/constructed.rs
+++ b/asn-compiler/src/parser/asn/structs/types/constructed.rs
@@ -19,7 +19,8 @@ impl Component {
 pub(crate) struct SeqComponent {
     pub(crate) component: Component,
     pub(crate) optional: bool,
-    pub(crate) _default: Option<String>, // FIXME: Should be Asn1Value later on
+    pub(crate) default: Option<String>, // FIXME: Should be Asn1Value later on
+    pub(crate) addition: bool,          // Whether it is an extension addition
 }
 
 impl SeqComponent {
diff --git a/asn-compiler/src/parser/asn/types/constructed/seq.rs b/asn-compiler/src/parser/asn/types/constructed/seq.rs
index 5a89f45..8abe25a 100644
--- a/asn-compiler/src/parser/asn/types/constructed/seq.rs
+++ b/asn-compiler/src/parser/asn/types/constructed/seq.rs
@@ -45,8 +45,10 @@ fn parse_sequence_type(tokens: &[Token]) -> Result<(Asn1TypeKind, usize), Error>
     loop {
         let start = consumed;
         let (component, component_consumed) = parse_seq_component(&tokens[consumed..])?;
-        if let Some(root_comp) = component {
-            root_components.push(root_comp);
+        if let Some(mut comp) = component {
+            // Those between the first and the second extension marker are the additions.
+            comp.addition = ext_marker_found == 1;
+            root_components.push(comp);
         }
         consumed += component_consumed;
 
@@ -142,7 +144,7 @@ fn parse_seq_component(tokens: &[Token]) -> Result<(Option<SeqComponent>, usize)
             false
         };
 
-        let _default = if expect_keyword(&tokens[consumed..], "DEFAULT")? {
+        let default = if expect_keyword(&tokens[consumed..], "DEFAULT")? {
             consumed += 1;
             let (value, value_consumed) = parse_value(&tokens[consumed..])?;
             consumed += value_consumed;
@@ -151,7 +153,7 @@ fn parse_seq_component(tokens: &[Token]) -> Result<(Option<SeqComponent>, usize)
             None
         };
 
-        if _default.is_some() && optional {
+        if default.is_some() && optional {
             return Err(parse_error!(
                 "Both OPTIONAL and DEFAULT not allowed for a value!"
             ));
@@ -161,7 +163,8 @@ fn parse_seq_component(tokens: &[Token]) -> Result<(Option<SeqComponent>, usize)
             Some(SeqComponent {
                 component,
                 optional,
-                _default,
+                default,
+                addition: false,
             }),
             consumed,
         ))
diff --git a/asn-compiler/src/resolver/asn/types/constructed.rs b/asn-compiler/src/resolver/asn/types/constructed.rs
index 4d6cf55..e43583c 100644
--- a/asn-compiler/src/resolver/asn/types/constructed.rs
+++ b/asn-compiler/src/resolver/asn/types/constructed.rs
@@ -3,7 +3,8 @@ use std::collections::BTreeMap;
 use crate::error::Error;
 
 use crate::parser::asn::structs::types::{
-    constructed::{Asn1TypeChoice, Asn1TypeSequence, Asn1TypeSequenceOf, Component, SeqComponent},
+    constructed::{Asn1TypeChoice, Asn1TypeSequence, Asn1TypeSequenceOf},
+    ioc::ObjectClassFieldSpec,
     Asn1ConstructedType, Asn1Type, Asn1TypeKind, Asn1TypeReference,
 };
 
@@ -91,26 +92,57 @@ fn resolve_sequence_type(
     sequence: &Asn1TypeSequence,
     resolver: &mut Resolver,
 ) -> Result<Asn1ResolvedType, Error> {
-    let mut components = vec![];
     // FIXME: implement for additional_components too
-    for c in &sequence.root_components {
-        let ty = match resolve_type(&c.component.ty, resolver) {
-            Ok(ty) => ty,
-            Err(_e) => {
-                return resolve_sequence_classfield_components(sequence, resolver);
+    let root_components = sequence
+        .root_components
+        .iter()
+        .filter(|c| !c.addition)
+        .collect::<Vec<_>>();
+
+    // Components that determine the contents of an open type ie. those in `{@component}`.
+    let mut key_components = vec![];
+    for c in &root_components {
+        for constraint in c.component.ty.constraints.iter().flatten() {
+            if let Some(key) = constraint.get_comp_reference() {
+                if !root_components.iter().any(|c| c.component.id == key) {
+                    return Err(resolve_error!(
+                        "Component '@{}' is not in the same SEQUENCE. Not Supported!",
+                        key
+                    ));
+                }
+                key_components.push(key);
             }
+        }
+    }
+
+    let mut components = vec![];
+    for c in root_components {
+        let ty = &c.component.ty;
+        let (ty, class_field_type) = match ty.kind {
+            Asn1TypeKind::Reference(Asn1TypeReference::ClassField {
+                ref classref,
+                ref fieldref,
+            }) => {
+                let (ty, kind) = resolve_classfield_type(ty, classref, fieldref, resolver)?;
+                (ty, Some(kind))
+            }
+            _ => (resolve_type(ty, resolver)?, None),
         };
-        let component = ResolvedComponent {
-            id: c.component.id.clone(),
-            ty,
-        };
-        let seq_component = ResolvedSeqComponent {
-            component,
-            optional: c.optional,
-            class_field_type: None,
-            key_field: false,
+        let key_field = match class_field_type {
+            Some(ClassFieldComponentType::FixedTypeValue) => {
+                key_components.is_empty() || key_components.contains(&c.component.id)
+            }
+            _ => false,
         };
-        components.push(seq_component);
+        components.push(ResolvedSeqComponent {
+            component: ResolvedComponent {
+                id: c.component.id.clone(),
+                ty,
+            },
+            optional: c.optional || c.default.is_some(),
+            class_field_type,
+            key_field,
+        });
     }
 
     Ok(Asn1ResolvedType::Constructed(
@@ -139,137 +171,61 @@ fn resolve_sequence_of_type(
     ))
 }
 
-fn resolve_sequence_classfield_components(
-    seq: &Asn1TypeSequence,
+// Resolves the type of a component that is a field of a CLASS
+//
+// That is the type in the CLASS for a fixed type value field, an open type with all the types
+// of the objects in the Object Set (in the constraint) for a type field.
+fn resolve_classfield_type(
+    ty: &Asn1Type,
+    classref: &str,
+    fieldref: &str,
     resolver: &mut Resolver,
-) -> Result<Asn1ResolvedType, Error> {
-    let mut all_components = vec![];
-    all_components.extend(seq.root_components.clone());
-    all_components.extend(
-        seq.additions
-            .clone()
-            .iter()
-            .map(|a| a.components.clone())
-            .flatten()
-            .collect::<Vec<SeqComponent>>(),
-    );
-    let all_components = all_components
-        .iter()
-        .map(|c| c.component.clone())
-        .collect::<Vec<Component>>();
-
-    if all_components.is_empty() {
-        // It's an Error to try to resolve Empty components with Class Field Ref
-        return Err(resolve_error!("Expected Sequence with at-least one ClassField Reference Component!. Found Empty Sequences"));
-    }
-
-    // Get the Object Set first It's the Same Object Set for all components. So if we get the first
-    // one that's good enough!
-    let ty = &all_components[0].ty;
-    let constraint = &ty.constraints.as_ref().unwrap()[0];
-
-    let set_reference = constraint.get_set_reference()?;
-
-    let objects = resolver.resolved_defs.get(&set_reference);
-    if objects.is_none() {
-        return Err(resolve_error!(
-            "Object Set '{}' not resolved yet!",
-            set_reference
-        ));
-    }
-    if let Some(Asn1ResolvedDefinition::ObjectSet(ref set)) = objects {
-        let objects = &set.objects;
-        let components =
-            resolve_seq_components_for_objects(&all_components, &set_reference, objects)?;
-        Ok(Asn1ResolvedType::Constructed(
-            ResolvedConstructedType::Sequence {
-                name: None,
-                extensible: seq.extensible,
-                components,
-            },
-        ))
-    } else {
-        return Err(resolve_error!(
-            "Object Set '{}' not resolved yet!",
-            set_reference
-        ));
-    }
-}
-
-fn resolve_seq_components_for_objects(
-    input_components: &[Component],
-    set_reference: &str,
-    objects: &ResolvedObjectSet,
-) -> Result<Vec<ResolvedSeqComponent>, Error> {
-    if objects.elements.is_empty() {
-        return Ok(vec![]);
-    }
-    let first = &objects.elements[0];
-    let mut result = vec![];
-    for component in input_components {
-        if let Asn1TypeKind::Reference(Asn1TypeReference::ClassField { fieldref, .. }) =
-            &component.ty.kind
-        {
-            if let ResolvedObjectSetElement::Object(ref o) = first {
-                let spec = o.fields.get(fieldref);
-                if let Some(ResolvedFieldSpec::FixedTypeValue { typeref, .. }) = spec {
-                    let constraint = &component.ty.constraints.as_ref().unwrap()[0];
-                    let comp_spec = constraint.get_comp_reference();
-                    let component = ResolvedComponent {
-                        id: component.id.clone(),
-                        ty: typeref.clone(),
-                    };
-                    let seq_component = ResolvedSeqComponent {
-                        component,
-                        optional: false, // FIXME:
-                        class_field_type: Some(ClassFieldComponentType::FixedTypeValue),
-                        key_field: comp_spec.is_none(),
-                    };
-                    result.push(seq_component);
-                } else {
-                    let types = get_seq_component_for_object_set(fieldref, objects)?;
-                    let ty = ResolvedSetType {
-                        setref: set_reference.to_string(),
-                        types,
-                    };
-                    let component = ResolvedComponent {
-                        id: component.id.clone(),
-                        ty: Asn1ResolvedType::Set(ty),
-                    };
-                    let seq_component = ResolvedSeqComponent {
-                        component,
-                        optional: false, // FIXME:
-                        class_field_type: Some(ClassFieldComponentType::Type),
-                        key_field: false,
-                    };
-                    result.push(seq_component);
+) -> Result<(Asn1ResolvedType, ClassFieldComponentType), Error> {
+    let field = resolver
+        .classes
+        .get(classref)
+        .and_then(|c| c.get_inner_class())
+        .and_then(|c| c.classref.fields.get(fieldref).cloned());
+
+    match field {
+        None => Err(resolve_error!(
+            "Field '{}' of Class '{}' not found!",
+            fieldref,
+            classref
+        )),
+        Some(ObjectClassFieldSpec::FixedTypeValue { field_type, .. }) => {
+            let resolved = resolve_type(&field_type, resolver)?;
+            Ok((resolved, ClassFieldComponentType::FixedTypeValue))
+        }
+        Some(ObjectClassFieldSpec::Type { .. }) => {
+            let constraint = ty.constraints.iter().flatten().next().ok_or_else(|| {
+                resolve_error!(
+                    "Open Type '{}.{}' without an Object Set. Not Supported!",
+                    classref,
+                    fieldref
+                )
+            })?;
+            let setref = constraint.get_set_reference()?;
+            match resolver.resolved_defs.get(&setref) {
+                Some(Asn1ResolvedDefinition::ObjectSet(ref set)) => {
+                    let types = get_types_of_object_set(fieldref, &set.objects);
+                    let ty = ResolvedSetType { setref, types };
+                    Ok((Asn1ResolvedType::Set(ty), ClassFieldComponentType::Type))
                 }
+                _ => Err(resolve_error!("Object Set '{}' not resolved yet!", setref)),
             }
         }
     }
-    // Only add to the result if Every Component in the Input is also found in the Object. This
-    // is mainly true for optional components. If Optional Components are missing, They should
-    // not be part of the generated Set.
-    Ok(result)
 }
 
-fn get_seq_component_for_object_set(
-    fieldref: &str,
-    objects: &ResolvedObjectSet,
-) -> Result<ResolvedSetTypeMap, Error> {
+fn get_types_of_object_set(fieldref: &str, objects: &ResolvedObjectSet) -> ResolvedSetTypeMap {
     let mut types = BTreeMap::new();
     for (key, object) in &objects.lookup_table {
         if let ResolvedObjectSetElement::Object(ref o) = object {
-            let field_ob = o.fields.get(fieldref);
-            if let Some(ResolvedFieldSpec::Type { ty }) = field_ob {
-                if let Some(Asn1ResolvedType::Reference(ref _tyid)) = ty {
-                    types.insert(
-                        (key.1.clone(), key.0.clone()),
-                        (key.0.clone(), ty.as_ref().unwrap().clone()),
-                    );
-                }
+            if let Some(ResolvedFieldSpec::Type { ty: Some(ref ty) }) = o.fields.get(fieldref) {
+                types.insert((key.1.clone(), key.0.clone()), (key.0.clone(), ty.clone()));
             }
         }
     }
-    Ok(types)
+    types
 }
-- 
2.43.0


From 67c7a016a38a0893198a0b9fa42a79033d2cb145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:24 +0000
Subject: [PATCH 30/38] fix: read objects field by field in WITH SYNTAX order,
 keep objects with literal keys

---
 .../src/parser/asn/structs/types/ioc.rs       |  30 ++--
 asn-compiler/src/parser/asn/types/ioc.rs      |  89 ++++++------
 .../src/resolver/asn/structs/types/ioc.rs     |  12 ++
 asn-compiler/src/resolver/asn/types/ioc.rs    | 128 +++++++++---------
 4 files changed, 134 insertions(+), 125 deletions(-)

diff --git a/asn-compiler/src/parser/asn/structs/types/ioc.rs b/asn-compiler/src/parser/asn/structs/types/ioc.rs
index c3b06d8..e076917 100644
--- a/asn-compiler/src/parser/asn/structs/types/ioc.rs
+++ b/asn-compiler/src/parser/asn/structs/types/ioc.rs
@@ -1,6 +1,6 @@
 //! Structures related to Information Object Class, Objects etc.
 
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 use super::{constraints::value_reference, Asn1Type};
 
@@ -38,18 +38,31 @@ impl ObjectClassFieldSpec {
         }
     }
 
-    fn with_syntax(&self) -> Option<String> {
+    // The words (of WITH SYNTAX) that come before the field, in an object of the class.
+    pub(crate) fn with_syntax(&self) -> Option<&str> {
         match self {
             Self::Type { with_syntax, .. } | Self::FixedTypeValue { with_syntax, .. } => {
-                with_syntax.clone()
+                with_syntax.as_deref()
             }
         }
     }
+
+    // Whether every object of the class must have the field.
+    pub(crate) fn is_mandatory(&self) -> bool {
+        match self {
+            Self::Type {
+                optional, default, ..
+            } => !optional && default.is_none(),
+            Self::FixedTypeValue {
+                optional, default, ..
+            } => !optional && default.is_none(),
+        }
+    }
 }
 
 #[derive(Debug, Clone)]
 pub(crate) struct Asn1ObjectClass {
-    pub(crate) fields: HashMap<String, ObjectClassFieldSpec>,
+    pub(crate) fields: BTreeMap<String, ObjectClassFieldSpec>,
 }
 
 impl Asn1ObjectClass {
@@ -83,13 +96,6 @@ impl Asn1ObjectClass {
         }
         None
     }
-
-    pub(crate) fn get_with_syntax_words(&self) -> Vec<String> {
-        self.fields
-            .values()
-            .filter_map(|v| v.with_syntax())
-            .collect::<Vec<String>>()
-    }
 }
 
 #[derive(Debug, Clone)]
@@ -139,7 +145,7 @@ impl Asn1ObjectFieldSpec {
 #[derive(Debug, Clone)]
 pub(crate) enum Asn1ObjectValue {
     Asn1ObjectFromClass {
-        fields: HashMap<String, Asn1ObjectFieldSpec>,
+        fields: BTreeMap<String, Asn1ObjectFieldSpec>,
     },
     Input(String),
 }
diff --git a/asn-compiler/src/parser/asn/types/ioc.rs b/asn-compiler/src/parser/asn/types/ioc.rs
index fc03c24..3886fcd 100644
--- a/asn-compiler/src/parser/asn/types/ioc.rs
+++ b/asn-compiler/src/parser/asn/types/ioc.rs
@@ -1,5 +1,5 @@
 //! Parsing of Information Object Class, Objects, Object Sets etc.
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 use crate::error::Error;
 use crate::tokenizer::{tokenize, Token};
@@ -29,7 +29,7 @@ pub(crate) fn parse_class(tokens: &[Token]) -> Result<(Asn1ObjectClass, usize),
     }
     consumed += 1;
 
-    let mut fields = HashMap::new();
+    let mut fields = BTreeMap::new();
     loop {
         // Any error in parsing a field spec is an error.
         let (field_spec, field_spec_consumed) = parse_field_spec(&tokens[consumed..])?;
@@ -202,7 +202,7 @@ fn parse_type_field_spec(tokens: &[Token]) -> Result<(ObjectClassFieldSpec, usiz
 
 fn parse_with_syntax_for_fields(
     tokens: &[Token],
-    fields: &mut HashMap<String, ObjectClassFieldSpec>,
+    fields: &mut BTreeMap<String, ObjectClassFieldSpec>,
 ) -> Result<usize, Error> {
     let mut consumed = 0;
     if !expect_keywords(&tokens[consumed..], &["WITH", "SYNTAX"])? {
@@ -454,41 +454,31 @@ pub(crate) fn parse_object_from_class(
     let mut consumed = 0;
     let object_tokens = &tokens[1..tokens.len() - 1];
 
-    // We are splitting the tokens by words from WITH SYNTAX. This will use any word that's not
-    // there in WITH SYNTAX. This is a bit complicated because we've to also worry about WITH
-    // SYNTAX words that can be more than a single WORD.
-    let word_tokens = &mut object_tokens.split(|t| {
-        !class
-            .get_with_syntax_words()
-            .iter()
-            .any(|f| f.split_whitespace().any(|w| t.text == w))
-    });
-    let mut fields = HashMap::new();
-    for words in word_tokens {
-        consumed += words.len();
-        let words = words
-            .iter()
-            .map(|t| t.text.clone())
-            .collect::<Vec<String>>()
-            .join(" ");
-        let field_spec = class_fieldspec_from_words(class, &words);
-        if let Some(fspec) = field_spec {
-            let (field_spec_value, field_spec_value_consumed) =
-                value_from_field_spec(fspec, &object_tokens[consumed..])?;
-            fields.insert(fspec.id(), field_spec_value);
-            consumed += field_spec_value_consumed;
-
-            // Required to handle &Type IDENTIFIED BY &id
-            if consumed == object_tokens.len() {
-                break;
-            }
+    // The fields are parsed one after the other, each one begins with the words from WITH SYNTAX.
+    let mut fields = BTreeMap::new();
+    while consumed < object_tokens.len() {
+        // A comma in the WITH SYNTAX is not a part of the words.
+        if object_tokens[consumed].is_comma() && consumed > 0 {
+            consumed += 1;
+            continue;
         }
+        let (fspec, words) = next_field_spec(class, &fields, &object_tokens[consumed..])
+            .ok_or_else(|| unexpected_token!("'WITH SYNTAX' Words", object_tokens[consumed]))?;
+        consumed += words;
+
+        let (field_spec_value, field_spec_value_consumed) =
+            value_from_field_spec(fspec, &object_tokens[consumed..])?;
+        fields.insert(fspec.id(), field_spec_value);
+        consumed += field_spec_value_consumed;
     }
 
     // If we didn't find an optional value, Check if default exists, if default exists, give it to
     // the resolved value.
     for (key, spec) in class.fields.iter() {
         if !fields.contains_key(key) {
+            if spec.is_mandatory() {
+                return Err(parse_error!("Field '{}' not found in '{}'", key, value));
+            }
             match spec {
                 ObjectClassFieldSpec::Type { default, .. } => {
                     if default.is_some() {
@@ -522,25 +512,26 @@ pub(crate) fn parse_object_from_class(
     Ok(Asn1ObjectValue::Asn1ObjectFromClass { fields })
 }
 
-fn class_fieldspec_from_words<'c>(
+// Finds the field that comes next in an object and the number of words it begins with.
+//
+// The words that match determine the field, when there are none (eg. in `IDENTIFIED BY` syntax), it
+// is the field without any.
+fn next_field_spec<'c>(
     class: &'c Asn1ObjectClass,
-    words: &str,
-) -> Option<&'c ObjectClassFieldSpec> {
-    for field in class.fields.values() {
-        match field {
-            ObjectClassFieldSpec::Type { with_syntax, .. }
-            | ObjectClassFieldSpec::FixedTypeValue { with_syntax, .. } => {
-                if with_syntax.is_none() {
-                    continue;
-                }
-                let with_syntax = with_syntax.as_ref().unwrap();
-                if with_syntax == words {
-                    return Some(field);
-                }
-            }
-        }
-    }
-    None
+    fields: &BTreeMap<String, Asn1ObjectFieldSpec>,
+    tokens: &[Token],
+) -> Option<(&'c ObjectClassFieldSpec, usize)> {
+    class
+        .fields
+        .values()
+        .filter(|f| !fields.contains_key(&f.id()))
+        .filter_map(|f| {
+            let words = f.with_syntax()?.split_whitespace().collect::<Vec<&str>>();
+            let matched = words.len() <= tokens.len()
+                && words.iter().zip(tokens).all(|(word, t)| t.text == *word);
+            matched.then_some((f, words.len()))
+        })
+        .max_by_key(|(_, words)| *words)
 }
 
 fn value_from_field_spec(
diff --git a/asn-compiler/src/resolver/asn/structs/types/ioc.rs b/asn-compiler/src/resolver/asn/structs/types/ioc.rs
index 971756c..2fda85c 100644
--- a/asn-compiler/src/resolver/asn/structs/types/ioc.rs
+++ b/asn-compiler/src/resolver/asn/structs/types/ioc.rs
@@ -38,3 +38,15 @@ pub(crate) enum ResolvedObjectSetElement {
     ObjectReference(String),
     Object(Asn1ResolvedObject),
 }
+
+impl ResolvedObjectSetElement {
+    // Whether the fields of both the objects are same.
+    pub(crate) fn is_same_object(&self, other: &Self) -> bool {
+        match (self, other) {
+            (Self::Object(ref o), Self::Object(ref p)) => {
+                format!("{:?}", o.fields) == format!("{:?}", p.fields)
+            }
+            _ => false,
+        }
+    }
+}
diff --git a/asn-compiler/src/resolver/asn/types/ioc.rs b/asn-compiler/src/resolver/asn/types/ioc.rs
index 79e79b3..e346b44 100644
--- a/asn-compiler/src/resolver/asn/types/ioc.rs
+++ b/asn-compiler/src/resolver/asn/types/ioc.rs
@@ -15,6 +15,7 @@ use crate::resolver::{
                 Asn1ResolvedObject, Asn1ResolvedObjectSet, ResolvedFieldSpec, ResolvedObjectSet,
                 ResolvedObjectSetElement,
             },
+            types::Asn1ResolvedType,
             values::Asn1ResolvedValue,
         },
         types::resolve_type,
@@ -40,11 +41,6 @@ pub(crate) fn resolve_object_set(
             // supporting it at the moment, we'll create the map for the 'first' unique field.
             let class = cls.get_inner_class().unwrap().classref; // inner class is guaranteed to be Some or a BUG, Let it Panic
             let unique_field = class.get_first_unique_field_id();
-            let unique_field = if let Some(u) = unique_field {
-                u
-            } else {
-                "".to_string()
-            };
             let mut lookup_table = BTreeMap::new();
 
             let mut elements = vec![];
@@ -67,7 +63,9 @@ pub(crate) fn resolve_object_set(
                                 if let Asn1ResolvedDefinition::ObjectSet(ref o) = res {
                                     decoder_ty = o.objects.decoder_ty.clone();
                                     elements.extend(o.objects.elements.clone());
-                                    lookup_table.extend(o.objects.lookup_table.clone());
+                                    for (key, element) in &o.objects.lookup_table {
+                                        add_to_lookup_table(&mut lookup_table, key, element)?;
+                                    }
                                 } else {
                                     return Err(resolve_error!(
                                         "Resolved '{}' is not an Object Set!",
@@ -95,35 +93,11 @@ pub(crate) fn resolve_object_set(
                                             fields: o.fields.clone(),
                                         });
                                     elements.push(element.clone());
-                                    if !unique_field.is_empty() {
-                                        if let ResolvedObjectSetElement::Object(ref o) = element {
-                                            let field = o.fields.get(&unique_field);
-                                            if let ResolvedFieldSpec::FixedTypeValue {
-                                                value,
-                                                typeref,
-                                            } = field.unwrap()
-                                            {
-                                                decoder_ty.replace(typeref.clone());
-                                                let value = value.as_ref().unwrap();
-                                                if let Asn1ResolvedValue::Reference(ref s) = value {
-                                                    let v = resolver.resolved_defs.get(s).unwrap();
-
-                                                    if let Asn1ResolvedDefinition::Value(ref v) = v
-                                                    {
-                                                        // Get the actual Value - Usually this value is an
-                                                        // Integer Value. This Value is to be used by the
-                                                        // decoder.
-                                                        let v = format!(
-                                                            "{}",
-                                                            v.get_base_integer_value(resolver)
-                                                                .unwrap()
-                                                        );
-                                                        lookup_table
-                                                            .insert((v, s.clone()), element);
-                                                    }
-                                                }
-                                            }
-                                        }
+                                    if let Some((key, typeref)) =
+                                        get_unique_key(o, &unique_field, resolver)?
+                                    {
+                                        decoder_ty.replace(typeref);
+                                        add_to_lookup_table(&mut lookup_table, &key, &element)?;
                                     }
                                 } else {
                                     return Err(resolve_error!(
@@ -136,36 +110,14 @@ pub(crate) fn resolve_object_set(
                     }
                     ObjectSetElement::Object(ref v) => {
                         let object_name = format!("{}{}", name, i);
-                        let element = ResolvedObjectSetElement::Object(resolve_object(
-                            &object_name,
-                            v,
-                            resolver,
-                        )?);
+                        let object = resolve_object(&object_name, v, resolver)?;
+                        let element = ResolvedObjectSetElement::Object(object.clone());
                         elements.push(element.clone());
-                        if !unique_field.is_empty() {
-                            if let ResolvedObjectSetElement::Object(ref o) = element {
-                                let field = o.fields.get(&unique_field);
-                                if let ResolvedFieldSpec::FixedTypeValue { value, typeref } =
-                                    field.unwrap()
-                                {
-                                    decoder_ty.replace(typeref.clone());
-                                    let value = value.as_ref().unwrap();
-                                    if let Asn1ResolvedValue::Reference(ref s) = value {
-                                        let v = resolver.resolved_defs.get(s).unwrap();
-
-                                        if let Asn1ResolvedDefinition::Value(ref v) = v {
-                                            // Get the actual Value - Usually this value is an
-                                            // Integer Value. This Value is to be used by the
-                                            // decoder.
-                                            let v = format!(
-                                                "{}",
-                                                v.get_base_integer_value(resolver).unwrap()
-                                            );
-                                            lookup_table.insert((v, s.clone()), element);
-                                        }
-                                    }
-                                }
-                            }
+                        if let Some((key, typeref)) =
+                            get_unique_key(&object, &unique_field, resolver)?
+                        {
+                            decoder_ty.replace(typeref);
+                            add_to_lookup_table(&mut lookup_table, &key, &element)?;
                         }
                     }
                 }
@@ -182,6 +134,54 @@ pub(crate) fn resolve_object_set(
     }
 }
 
+// Returns the value (that is used by the decoder) and a name for the UNIQUE field of an object and
+// the type of that field, `None` if the object does not have the field.
+fn get_unique_key(
+    object: &Asn1ResolvedObject,
+    unique_field: &Option<String>,
+    resolver: &Resolver,
+) -> Result<Option<((String, String), Asn1ResolvedType)>, Error> {
+    let field = unique_field.as_ref().and_then(|u| object.fields.get(u));
+    if let Some(ResolvedFieldSpec::FixedTypeValue {
+        value: Some(value),
+        typeref,
+    }) = field
+    {
+        let key = value.get_base_integer_value(resolver).ok_or_else(|| {
+            resolve_error!(
+                "Only INTEGER values are supported for UNIQUE fields! {:#?}",
+                value
+            )
+        })?;
+        let name = match value {
+            Asn1ResolvedValue::Reference(ref r) => r.clone(),
+            // No other name ends in a '_'.
+            _ => format!("key{}_", key).replace('-', "minus"),
+        };
+        Ok(Some(((key.to_string(), name), typeref.clone())))
+    } else {
+        Ok(None)
+    }
+}
+
+fn add_to_lookup_table(
+    lookup_table: &mut BTreeMap<(String, String), ResolvedObjectSetElement>,
+    key: &(String, String),
+    element: &ResolvedObjectSetElement,
+) -> Result<(), Error> {
+    // The same object may be there more than once.
+    for (other_key, other) in lookup_table.iter() {
+        if other_key.0 == key.0 && (other_key.1 != key.1 || !other.is_same_object(element)) {
+            return Err(resolve_error!(
+                "Different Objects with the same value '{}' of the UNIQUE field!",
+                key.0
+            ));
+        }
+    }
+    lookup_table.insert(key.clone(), element.clone());
+    Ok(())
+}
+
 pub(crate) fn resolve_object(
     object_name: &str,
     object_value: &Asn1ObjectValue,
-- 
2.43.0


From 631d49cb0508e7ff272662504fd5c908f80fb3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:05 +0000
Subject: [PATCH 31/38] fix: generate names that are valid and do not clash,
 report what cannot be generated

---
 .../generator/asn/types/base/enumerated.rs    |  7 +-
 .../generator/asn/types/constructed/mod.rs    |  6 +-
 .../generator/asn/types/constructed/seq.rs    | 10 ++-
 asn-compiler/src/generator/asn/types/int.rs   |  6 +-
 asn-compiler/src/generator/int.rs             | 78 +++++++++++++++++--
 asn-compiler/src/generator/mod.rs             |  2 +-
 asn-compiler/src/parser/asn/defs.rs           | 27 +++++--
 .../src/resolver/asn/types/base/charstring.rs |  3 +
 .../src/resolver/asn/types/constructed.rs     | 35 ++++++++-
 asn-compiler/src/resolver/asn/types/int.rs    | 12 ++-
 asn-compiler/src/resolver/int.rs              |  4 +
 codecs_derive/src/aper/charstring.rs          |  2 +-
 12 files changed, 161 insertions(+), 31 deletions(-)

diff --git a/asn-compiler/src/generator/asn/types/base/enumerated.rs b/asn-compiler/src/generator/asn/types/base/enumerated.rs
index e730207..32e449b 100644
--- a/asn-compiler/src/generator/asn/types/base/enumerated.rs
+++ b/asn-compiler/src/generator/asn/types/base/enumerated.rs
@@ -1,11 +1,13 @@
 //! Mainly 'generator' code for `Asn1ResolvedEnumerated`
 
+use std::collections::HashSet;
+
 use proc_macro2::{Ident, TokenStream};
 use quote::quote;
 
 use crate::error::Error;
 
-use crate::generator::Generator;
+use crate::generator::{int::unused_ident, Generator};
 use crate::resolver::asn::structs::types::base::Asn1ResolvedEnumerated;
 
 impl Asn1ResolvedEnumerated {
@@ -42,8 +44,9 @@ impl Asn1ResolvedEnumerated {
 
     fn generate_named_values(&self, generator: &Generator) -> Result<TokenStream, Error> {
         let mut tokens = TokenStream::new();
+        let mut const_names = HashSet::new();
         for (name, value) in &self.named_root_values {
-            let const_name = generator.to_const_ident(&name);
+            let const_name = unused_ident(generator.to_const_ident(&name), &mut const_names);
             let value_literal = generator.to_suffixed_literal(self.bits, self.signed, *value);
             let ty = generator.to_inner_type(self.bits, self.signed);
             let const_tokens = quote! {
diff --git a/asn-compiler/src/generator/asn/types/constructed/mod.rs b/asn-compiler/src/generator/asn/types/constructed/mod.rs
index 28c1960..90ad491 100644
--- a/asn-compiler/src/generator/asn/types/constructed/mod.rs
+++ b/asn-compiler/src/generator/asn/types/constructed/mod.rs
@@ -59,18 +59,18 @@ impl ResolvedConstructedType {
     ) -> Result<Ident, Error> {
         let unique_name = match self {
             ResolvedConstructedType::Sequence { name, .. } => match input {
-                Some(ref inp) => inp.to_string(),
+                Some(ref inp) => generator.get_available_name(inp),
                 None => match name {
                     Some(ref n) => n.to_string(),
                     None => generator.get_unique_name("Sequence"),
                 },
             },
             ResolvedConstructedType::Choice { .. } => match input {
-                Some(ref inp) => inp.to_string(),
+                Some(ref inp) => generator.get_available_name(inp),
                 None => generator.get_unique_name("Choice"),
             },
             ResolvedConstructedType::SequenceOf { .. } => match input {
-                Some(ref inp) => inp.to_string(),
+                Some(ref inp) => generator.get_available_name(inp),
                 None => generator.get_unique_name("SeqOf"),
             },
         };
diff --git a/asn-compiler/src/generator/asn/types/constructed/seq.rs b/asn-compiler/src/generator/asn/types/constructed/seq.rs
index cc084c3..1ad32ca 100644
--- a/asn-compiler/src/generator/asn/types/constructed/seq.rs
+++ b/asn-compiler/src/generator/asn/types/constructed/seq.rs
@@ -1,10 +1,12 @@
 //! Implementation of Code Generation for ASN.1 `SEQUENCE` Type.
 
+use std::collections::HashSet;
+
 use proc_macro2::TokenStream;
 use quote::quote;
 
 use crate::error::Error;
-use crate::generator::Generator;
+use crate::generator::{int::unused_ident, Generator};
 use crate::resolver::asn::structs::types::{
     constructed::ResolvedConstructedType, Asn1ResolvedType,
 };
@@ -31,8 +33,10 @@ impl ResolvedConstructedType {
 
             let mut comp_tokens = TokenStream::new();
             let mut optional_fields = 0;
+            let mut field_names = HashSet::new();
             for c in components {
-                let comp_field_ident = generator.to_value_ident(&c.component.id);
+                let comp_field_ident =
+                    unused_ident(generator.to_value_ident(&c.component.id), &mut field_names);
                 let comp_ty_suffix = generator.to_type_ident(&c.component.id);
                 let input_comp_ty_ident = format!("{}{}", name, comp_ty_suffix);
                 let comp_ty_ident = Asn1ResolvedType::generate_name_maybe_aux_type(
@@ -45,7 +49,7 @@ impl ResolvedConstructedType {
                 let fld_tokens = if c.optional {
                     let idx: proc_macro2::TokenStream =
                         format!("{}", optional_fields).parse().unwrap();
-                    fld_attrs.push(quote! { optional_idx = #idx,  });
+                    fld_attrs.push(quote! { optional_idx = #idx });
 
                     optional_fields += 1;
 
diff --git a/asn-compiler/src/generator/asn/types/int.rs b/asn-compiler/src/generator/asn/types/int.rs
index 0158e5f..00eae2d 100644
--- a/asn-compiler/src/generator/asn/types/int.rs
+++ b/asn-compiler/src/generator/asn/types/int.rs
@@ -87,10 +87,8 @@ impl ResolvedSetType {
         input: Option<&String>,
     ) -> Result<Ident, Error> {
         // FIXME: This is perhaps not right
-        let ty_ident = match input {
-            None => generator.to_type_ident(&self.setref),
-            Some(ref inp) => generator.to_type_ident(inp),
-        };
+        let name = generator.get_available_name(input.unwrap_or(&self.setref));
+        let ty_ident = generator.to_type_ident(&name);
         let ty_elements = self.generate_aux_types(generator)?;
 
         let set_ty = quote! {
diff --git a/asn-compiler/src/generator/int.rs b/asn-compiler/src/generator/int.rs
index 34d0dfe..336fa24 100644
--- a/asn-compiler/src/generator/int.rs
+++ b/asn-compiler/src/generator/int.rs
@@ -1,5 +1,7 @@
 //! Code Generation module
 
+use std::collections::HashSet;
+
 use heck::{ToShoutySnakeCase, ToSnakeCase};
 use proc_macro2::{Ident, Literal, Span, TokenStream};
 
@@ -21,6 +23,9 @@ pub(crate) struct Generator {
     // A counter to uniquify certain names
     pub(crate) counter: usize,
 
+    // Names of the types that are generated so far (and those that are going to be).
+    pub(crate) type_names: HashSet<String>,
+
     // Auxillary Items: These are structs/that are referenced inside constructed type.
     pub(crate) aux_items: Vec<TokenStream>,
 }
@@ -31,6 +36,7 @@ impl Generator {
             items: vec![],
             _name: name.to_string(),
             counter: 1,
+            type_names: HashSet::new(),
             aux_items: vec![],
         }
     }
@@ -43,6 +49,11 @@ impl Generator {
         let use_tokens = self.generate_use_tokens();
         self.items.push(use_tokens);
 
+        for (k, _) in resolver.get_resolved_types() {
+            let name = self.to_type_ident(k).to_string();
+            self.type_names.insert(name);
+        }
+
         let mut items = vec![];
         for (k, t) in resolver.get_resolved_types() {
             let item = Asn1ResolvedType::generate_for_type(k, t, self)?;
@@ -66,10 +77,11 @@ impl Generator {
     }
 
     pub(crate) fn to_type_ident(&self, name: &str) -> Ident {
-        Ident::new(
-            &capitalize_first(name).replace("-", "_").replace(" ", "_"),
-            Span::call_site(),
-        )
+        let mut name = capitalize_first(name).replace("-", "_").replace(" ", "_");
+        if RESERVED_TYPE_NAMES.contains(&name.as_str()) {
+            name.push('_');
+        }
+        Ident::new(&name, Span::call_site())
     }
 
     pub(crate) fn to_const_ident(&self, name: &str) -> Ident {
@@ -80,6 +92,8 @@ impl Generator {
         let mut val = capitalize_first(name).to_snake_case();
         if val == *"type" {
             val = "typ".to_string()
+        } else if RESERVED_VALUE_NAMES.contains(&val.as_str()) {
+            val.push('_');
         }
         Ident::new(&val, Span::call_site())
     }
@@ -125,9 +139,25 @@ impl Generator {
     }
 
     pub(crate) fn get_unique_name(&mut self, name: &str) -> String {
-        self.counter += 1;
+        loop {
+            self.counter += 1;
+
+            let unique_name = format!("{} {}", name, self.counter);
+            let ident = self.to_type_ident(&unique_name).to_string();
+            if self.type_names.insert(ident) {
+                return unique_name;
+            }
+        }
+    }
 
-        format!("{} {}", name, self.counter)
+    // Returns the name itself unless there is already a type with that name.
+    pub(crate) fn get_available_name(&mut self, name: &str) -> String {
+        let ident = self.to_type_ident(name).to_string();
+        if self.type_names.insert(ident) {
+            name.to_string()
+        } else {
+            self.get_unique_name(name)
+        }
     }
 
     fn generate_use_tokens(&self) -> TokenStream {
@@ -144,6 +174,42 @@ impl Generator {
     }
 }
 
+// Names that have a meaning in the generated code.
+const RESERVED_TYPE_NAMES: &[&str] = &[
+    "AperCodec",
+    "BitVec",
+    "Err",
+    "Msb0",
+    "None",
+    "Ok",
+    "Option",
+    "Result",
+    "Self",
+    "Some",
+    "String",
+    "Vec",
+];
+
+// Keywords of Rust
+const RESERVED_VALUE_NAMES: &[&str] = &[
+    "abstract", "as", "async", "await", "become", "box", "break", "const", "continue", "crate",
+    "do", "dyn", "else", "enum", "extern", "false", "final", "fn", "for", "gen", "if", "impl",
+    "in", "let", "loop", "macro", "match", "mod", "move", "mut", "override", "priv", "pub", "ref",
+    "return", "self", "static", "struct", "super", "trait", "true", "try", "typeof", "unsafe",
+    "unsized", "use", "virtual", "where", "while", "yield",
+];
+
+// Returns the identifier (or if it's already used, one that is not) and marks it as used.
+pub(crate) fn unused_ident(ident: Ident, used: &mut HashSet<String>) -> Ident {
+    let mut unused = ident.to_string();
+    let mut count = 1;
+    while !used.insert(unused.clone()) {
+        count += 1;
+        unused = format!("{}_{}", ident, count);
+    }
+    Ident::new(&unused, Span::call_site())
+}
+
 fn capitalize_first(input: &str) -> String {
     if !input.is_empty() {
         let mut input = input.to_string();
diff --git a/asn-compiler/src/generator/mod.rs b/asn-compiler/src/generator/mod.rs
index 6ad2fdf..9907cf7 100644
--- a/asn-compiler/src/generator/mod.rs
+++ b/asn-compiler/src/generator/mod.rs
@@ -1,6 +1,6 @@
 //! Generator module
 
-mod int;
+pub(crate) mod int;
 pub(crate) use int::Generator;
 
 mod asn;
diff --git a/asn-compiler/src/parser/asn/defs.rs b/asn-compiler/src/parser/asn/defs.rs
index 5e5fc21..68327c0 100644
--- a/asn-compiler/src/parser/asn/defs.rs
+++ b/asn-compiler/src/parser/asn/defs.rs
@@ -1,5 +1,7 @@
 //! Top level handling of definitions
 
+use std::collections::HashMap;
+
 use crate::error::Error;
 use crate::tokenizer::Token;
 
@@ -72,13 +74,24 @@ impl Asn1Definition {
             ));
         }
 
-        for (idx, actual) in actual_params.iter().enumerate() {
-            let replace = actual.param_string();
-            let source = &params.ordered[idx].dummyref.name;
-
-            for token in params.type_tokens.iter_mut() {
-                if &token.text == source {
-                    token.text = replace.clone()
+        // All the params are replaced together as an actual param may have the name of another.
+        let replacements = params
+            .ordered
+            .iter()
+            .zip(actual_params)
+            .map(|(p, actual)| (p.dummyref.name.clone(), actual.param_string()))
+            .collect::<HashMap<String, String>>();
+        for idx in 0..params.type_tokens.len() {
+            // An identifier before a type is that of a component and not a param.
+            let is_component = params.type_tokens[idx].is_value_reference()
+                && params
+                    .type_tokens
+                    .get(idx + 1)
+                    .map_or(false, |t| t.is_type_reference() || t.is_asn_builtin_type());
+            let token = &mut params.type_tokens[idx];
+            if token.is_identifier() && !is_component {
+                if let Some(replace) = replacements.get(&token.text) {
+                    token.text = replace.clone();
                 }
             }
         }
diff --git a/asn-compiler/src/resolver/asn/types/base/charstring.rs b/asn-compiler/src/resolver/asn/types/base/charstring.rs
index 7212493..6a41a36 100644
--- a/asn-compiler/src/resolver/asn/types/base/charstring.rs
+++ b/asn-compiler/src/resolver/asn/types/base/charstring.rs
@@ -18,6 +18,9 @@ impl Asn1ResolvedCharacterString {
         let mut base = Asn1ResolvedCharacterString::default();
 
         if let Asn1TypeKind::Builtin(Asn1BuiltinType::CharacterString { str_type }) = &ty.kind {
+            if str_type == "CHARACTER-STRING" || str_type == "IA5String" {
+                return Err(resolve_error!("Type '{}' is not supported!", str_type));
+            }
             base.str_type = str_type.clone();
         }
         base.check_constraints(&ty.constraints)?;
diff --git a/asn-compiler/src/resolver/asn/types/constructed.rs b/asn-compiler/src/resolver/asn/types/constructed.rs
index e43583c..63cdee4 100644
--- a/asn-compiler/src/resolver/asn/types/constructed.rs
+++ b/asn-compiler/src/resolver/asn/types/constructed.rs
@@ -1,9 +1,9 @@
-use std::collections::BTreeMap;
+use std::collections::{BTreeMap, HashSet};
 
 use crate::error::Error;
 
 use crate::parser::asn::structs::types::{
-    constructed::{Asn1TypeChoice, Asn1TypeSequence, Asn1TypeSequenceOf},
+    constructed::{Asn1TypeChoice, Asn1TypeSequence, Asn1TypeSequenceOf, Component},
     ioc::ObjectClassFieldSpec,
     Asn1ConstructedType, Asn1Type, Asn1TypeKind, Asn1TypeReference,
 };
@@ -48,10 +48,32 @@ pub(crate) fn resolve_constructed_type(
     }
 }
 
+// It is an error if more than one component has the same identifier.
+fn check_identifiers<'c>(components: impl Iterator<Item = &'c Component>) -> Result<(), Error> {
+    let mut identifiers = HashSet::new();
+    for c in components {
+        if !identifiers.insert(&c.id) {
+            return Err(resolve_error!("More than one component '{}'!", c.id));
+        }
+    }
+    Ok(())
+}
+
 fn resolve_choice_type(
     choice: &Asn1TypeChoice,
     resolver: &mut Resolver,
 ) -> Result<Asn1ResolvedType, Error> {
+    let additions = choice.additions.iter().flatten();
+    check_identifiers(
+        choice
+            .root_components
+            .iter()
+            .chain(additions.flat_map(|a| &a.components)),
+    )?;
+    if choice.root_components.is_empty() {
+        return Err(resolve_error!("A CHOICE without any alternatives!"));
+    }
+
     let mut root_components = vec![];
     for c in &choice.root_components {
         let ty = resolve_type(&c.ty, resolver)?;
@@ -92,6 +114,15 @@ fn resolve_sequence_type(
     sequence: &Asn1TypeSequence,
     resolver: &mut Resolver,
 ) -> Result<Asn1ResolvedType, Error> {
+    let additions = sequence.additions.iter();
+    check_identifiers(
+        sequence
+            .root_components
+            .iter()
+            .chain(additions.flat_map(|a| &a.components))
+            .map(|c| &c.component),
+    )?;
+
     // FIXME: implement for additional_components too
     let root_components = sequence
         .root_components
diff --git a/asn-compiler/src/resolver/asn/types/int.rs b/asn-compiler/src/resolver/asn/types/int.rs
index e8a034f..230ee50 100644
--- a/asn-compiler/src/resolver/asn/types/int.rs
+++ b/asn-compiler/src/resolver/asn/types/int.rs
@@ -100,8 +100,16 @@ fn resolve_reference_type(
                 match def {
                     Some(d) => {
                         let params_resolved_type = d.clone().apply_params(params)?;
-                        let resolved = resolve_type(&params_resolved_type, resolver)?;
-                        apply_constraints(&resolved, ty, resolver)
+                        if resolver.expanding.contains(typeref) {
+                            return Err(resolve_error!(
+                                "Parameterized Type '{}' refers to itself!",
+                                typeref
+                            ));
+                        }
+                        resolver.expanding.push(typeref.clone());
+                        let resolved = resolve_type(&params_resolved_type, resolver);
+                        resolver.expanding.pop();
+                        apply_constraints(&resolved?, ty, resolver)
                     }
                     None => Err(resolve_error!(
                         "Parameterized Type for '{:#?}' Not found!",
diff --git a/asn-compiler/src/resolver/int.rs b/asn-compiler/src/resolver/int.rs
index 0469a6b..6d080c9 100644
--- a/asn-compiler/src/resolver/int.rs
+++ b/asn-compiler/src/resolver/int.rs
@@ -23,6 +23,9 @@ pub(crate) struct Resolver {
 
     // Names of the definitions in all the modules.
     pub(crate) known_names: HashSet<String>,
+
+    // Names of the Parameterized types that are being expanded.
+    pub(crate) expanding: Vec<String>,
 }
 
 impl Resolver {
@@ -32,6 +35,7 @@ impl Resolver {
             parameterized_defs: HashMap::new(),
             classes: HashMap::new(),
             known_names: HashSet::new(),
+            expanding: vec![],
         }
     }
 
diff --git a/codecs_derive/src/aper/charstring.rs b/codecs_derive/src/aper/charstring.rs
index 9e32e09..6f0a51a 100644
--- a/codecs_derive/src/aper/charstring.rs
+++ b/codecs_derive/src/aper/charstring.rs
@@ -34,7 +34,7 @@ pub(super) fn generate_aper_codec_for_asn_charstring(
         ),
     };
 
-    if decode_fn_name == "unspported" {
+    if decode_fn_name == "unsupported" {
         return syn::Error::new_spanned(ty_attr, "Character String Type is not supported.")
             .to_compile_error()
             .into();
-- 
2.43.0


From 2fa3c14a63ee266935d5f7206cbf3bae4a071c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:00 +0000
Subject: [PATCH 32/38] fix: derived encoder of a SEQUENCE with an optional
 component called 'data'

---
 codecs_derive/src/aper/seq.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/codecs_derive/src/aper/seq.rs b/codecs_derive/src/aper/seq.rs
index 91f2515..130e7f2 100644
--- a/codecs_derive/src/aper/seq.rs
+++ b/codecs_derive/src/aper/seq.rs
@@ -144,10 +144,8 @@ fn generate_seq_field_codec_tokens_using_attrs(
                             let id = field.ident.as_ref().unwrap();
                             let field_encode_token = if optional {
                                 quote! {
-                                    if self.#id.is_some() {
-                                        let #id = self.#id.as_ref().unwrap();
-                                        #id.encode(data)?;
-                                    } else {
+                                    if let Some(ref value) = self.#id {
+                                        value.encode(data)?;
                                     }
                                 }
                             } else {
-- 
2.43.0


From abbfb9d31d7d9111ce2bb30068681faffca0988c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:47 +0000
Subject: [PATCH 33/38] fix: do not take components that are not numbers for
 the key of an open type

---
 .../src/resolver/asn/types/constructed.rs      | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/asn-compiler/src/resolver/asn/types/constructed.rs b/asn-compiler/src/resolver/asn/types/constructed.rs
index 63cdee4..c7b7c27 100644
--- a/asn-compiler/src/resolver/asn/types/constructed.rs
+++ b/asn-compiler/src/resolver/asn/types/constructed.rs
@@ -13,6 +13,7 @@ use crate::resolver::{
         structs::{
             defs::Asn1ResolvedDefinition,
             types::{
+                base::ResolvedBaseType,
                 constructed::{
                     ClassFieldComponentType, ResolvedComponent, ResolvedConstructedType,
                     ResolvedSeqComponent,
@@ -161,7 +162,8 @@ fn resolve_sequence_type(
         };
         let key_field = match class_field_type {
             Some(ClassFieldComponentType::FixedTypeValue) => {
-                key_components.is_empty() || key_components.contains(&c.component.id)
+                (key_components.is_empty() || key_components.contains(&c.component.id))
+                    && is_integer(&ty, resolver)
             }
             _ => false,
         };
@@ -185,6 +187,20 @@ fn resolve_sequence_type(
     ))
 }
 
+// Only numbers can be a key (eg. not the `CHOICE` of the private IEs in 3GPP protocols).
+fn is_integer(ty: &Asn1ResolvedType, resolver: &Resolver) -> bool {
+    let ty = match ty {
+        Asn1ResolvedType::Reference(ref r) => resolver.get_base_type(r),
+        _ => Some(ty),
+    };
+    matches!(
+        ty,
+        Some(Asn1ResolvedType::Base(
+            ResolvedBaseType::Integer(..) | ResolvedBaseType::Enum(..)
+        ))
+    )
+}
+
 fn resolve_sequence_of_type(
     sequence_of: &Asn1TypeSequenceOf,
     resolver: &mut Resolver,
-- 
2.43.0


From 882c87d3ae1f96db97f9784838c16c74b0819fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:18 +0000
Subject: [PATCH 34/38] fix: a '<' in a value range is followed by '..'

---
 asn-compiler/src/parser/asn/types/constraints.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/asn-compiler/src/parser/asn/types/constraints.rs b/asn-compiler/src/parser/asn/types/constraints.rs
index 76fa1dd..2977f80 100644
--- a/asn-compiler/src/parser/asn/types/constraints.rs
+++ b/asn-compiler/src/parser/asn/types/constraints.rs
@@ -308,7 +308,10 @@ fn parse_range_elements(tokens: &[Token]) -> Result<(SubtypeElements, usize), Er
     } else {
         true
     };
-    consumed += 1; // The '..' Token
+    if !expect_token(&tokens[consumed..], Token::is_range_separator)? {
+        return Err(unexpected_token!("'..'", tokens[consumed]));
+    }
+    consumed += 1;
 
     let upper_inclusive = if expect_token(&tokens[consumed..], Token::is_less_than)? {
         consumed += 1;
-- 
2.43.0


From eb7004bffd4de2e225e48ce64555e95fd9770286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:11 +0000
Subject: [PATCH 35/38] fix: a type an object names must be defined or
 imported, even one its class names too

---
 asn-compiler/src/parser/asn/structs/defs.rs   | 13 ++++++
 asn-compiler/src/parser/asn/structs/module.rs |  3 +-
 .../src/parser/asn/structs/types/ioc.rs       | 45 +++++++++++++++++++
 3 files changed, 60 insertions(+), 1 deletion(-)

diff --git a/asn-compiler/src/parser/asn/structs/defs.rs b/asn-compiler/src/parser/asn/structs/defs.rs
index 4860335..d43e586 100644
--- a/asn-compiler/src/parser/asn/structs/defs.rs
+++ b/asn-compiler/src/parser/asn/structs/defs.rs
@@ -140,6 +140,19 @@ impl Asn1Definition {
         self.kind.dependent_references()
     }
 
+    // References made by the object (or the objects) itself, and not by it's class.
+    pub(crate) fn stated_references(&self, class: &Asn1Definition) -> Vec<String> {
+        match (&self.kind, &class.kind) {
+            (Asn1AssignmentKind::Object(ref o), Asn1AssignmentKind::Class(ref c)) => {
+                o.object.stated_references(&c.classref)
+            }
+            (Asn1AssignmentKind::ObjectSet(ref s), Asn1AssignmentKind::Class(ref c)) => {
+                s.set.stated_references(&c.classref)
+            }
+            _ => vec![],
+        }
+    }
+
     // Returns whether the given name is one of the dummy references of a parameterized definition.
     pub(crate) fn has_dummy_reference(&self, name: &str) -> bool {
         match self.params {
diff --git a/asn-compiler/src/parser/asn/structs/module.rs b/asn-compiler/src/parser/asn/structs/module.rs
index 97e1cbd..35542c9 100644
--- a/asn-compiler/src/parser/asn/structs/module.rs
+++ b/asn-compiler/src/parser/asn/structs/module.rs
@@ -105,6 +105,7 @@ impl Asn1Module {
             // An object has the types (and defaults) of the fields from it's class.
             let class = v.get_object_class().and_then(|class| classes.get(&class));
             let class_references = class.map_or(vec![], |c| c.dependent_references());
+            let stated_references = class.map_or(vec![], |c| v.stated_references(c));
             for r in v.dependent_references() {
                 if self.imports.contains_key(&r) || v.has_dummy_reference(&r) {
                     continue;
@@ -114,7 +115,7 @@ impl Asn1Module {
                         return Err(resolve_error!("Definition '{}' refers to itself!", k));
                     }
                     ts.add_dependency(r.clone(), k.clone());
-                } else if class_references.contains(&r) {
+                } else if class_references.contains(&r) && !stated_references.contains(&r) {
                     continue;
                 } else if known_names.contains(&r) || r.starts_with(|c: char| c.is_uppercase()) {
                     return Err(resolve_error!(
diff --git a/asn-compiler/src/parser/asn/structs/types/ioc.rs b/asn-compiler/src/parser/asn/structs/types/ioc.rs
index e076917..5d5687d 100644
--- a/asn-compiler/src/parser/asn/structs/types/ioc.rs
+++ b/asn-compiler/src/parser/asn/structs/types/ioc.rs
@@ -105,6 +105,17 @@ pub(crate) struct Asn1ObjectSet {
 }
 
 impl Asn1ObjectSet {
+    pub(crate) fn stated_references(&self, class: &Asn1ObjectClass) -> Vec<String> {
+        let elements = self.objects.root_elements.iter();
+        elements
+            .chain(self.objects.additional_elements.iter())
+            .flat_map(|e| match e {
+                ObjectSetElement::Object(ref o) => o.stated_references(class),
+                _ => vec![],
+            })
+            .collect()
+    }
+
     pub(crate) fn dependent_references(&self) -> Vec<String> {
         let mut output = vec![self.class.clone()];
         output.append(&mut self.objects.dependent_references());
@@ -151,6 +162,34 @@ pub(crate) enum Asn1ObjectValue {
 }
 
 impl Asn1ObjectValue {
+    // References the object makes itself, other than through what it takes from it's class.
+    fn stated_references(&self, class: &Asn1ObjectClass) -> Vec<String> {
+        let mut output = vec![];
+        if let Self::Asn1ObjectFromClass { fields } = self {
+            for (name, field) in fields {
+                let mut references = match field {
+                    Asn1ObjectFieldSpec::Type { .. } => field.dependent_references(),
+                    Asn1ObjectFieldSpec::FixedTypeValue { value, .. } => {
+                        value.iter().flat_map(|v| value_reference(v)).collect()
+                    }
+                };
+                let defaults = match class.fields.get(name) {
+                    Some(ObjectClassFieldSpec::Type { default, .. }) => {
+                        default.as_ref().map(|d| d.dependent_references())
+                    }
+                    Some(ObjectClassFieldSpec::FixedTypeValue { default, .. }) => default
+                        .as_ref()
+                        .map(|d| value_reference(d).into_iter().collect()),
+                    None => None,
+                }
+                .unwrap_or_default();
+                references.retain(|r| !defaults.contains(r));
+                output.extend(references);
+            }
+        }
+        output
+    }
+
     pub(crate) fn dependent_references(&self) -> Vec<String> {
         let mut output = vec![];
         if let Self::Asn1ObjectFromClass { fields } = self {
@@ -168,6 +207,12 @@ pub(crate) struct Asn1Object {
     pub(crate) value: Asn1ObjectValue, // For now just a string,
 }
 
+impl Asn1Object {
+    pub(crate) fn stated_references(&self, class: &Asn1ObjectClass) -> Vec<String> {
+        self.value.stated_references(class)
+    }
+}
+
 #[derive(Debug, Clone)]
 pub(crate) struct ObjectSet {
     pub(crate) root_elements: Vec<ObjectSetElement>,
-- 
2.43.0


From 87a8e57c59070a2426241dc4ff3df2eaa67ff6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:43 +0000
Subject: [PATCH 36/38] fix: accept an object whose optional group begins with
 a comma in WITH SYNTAX

---
 asn-compiler/src/parser/asn/types/ioc.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/asn-compiler/src/parser/asn/types/ioc.rs b/asn-compiler/src/parser/asn/types/ioc.rs
index 3886fcd..097054c 100644
--- a/asn-compiler/src/parser/asn/types/ioc.rs
+++ b/asn-compiler/src/parser/asn/types/ioc.rs
@@ -457,13 +457,16 @@ pub(crate) fn parse_object_from_class(
     // The fields are parsed one after the other, each one begins with the words from WITH SYNTAX.
     let mut fields = BTreeMap::new();
     while consumed < object_tokens.len() {
-        // A comma in the WITH SYNTAX is not a part of the words.
-        if object_tokens[consumed].is_comma() && consumed > 0 {
+        let next = next_field_spec(class, &fields, &object_tokens[consumed..]);
+        // A comma after a field in the WITH SYNTAX is not a part of the words, one that begins an
+        // Optional Group is.
+        let begins_with_comma = matches!(next, Some((_, words)) if words > 0);
+        if object_tokens[consumed].is_comma() && consumed > 0 && !begins_with_comma {
             consumed += 1;
             continue;
         }
-        let (fspec, words) = next_field_spec(class, &fields, &object_tokens[consumed..])
-            .ok_or_else(|| unexpected_token!("'WITH SYNTAX' Words", object_tokens[consumed]))?;
+        let (fspec, words) =
+            next.ok_or_else(|| unexpected_token!("'WITH SYNTAX' Words", object_tokens[consumed]))?;
         consumed += words;
 
         let (field_spec_value, field_spec_value_consumed) =
-- 
2.43.0


From d2f4ef7a710d90cd83fb75598881eefb9ee36fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:50 +0000
Subject: [PATCH 37/38] fix: decode the contents of an open type when the key
 component is OPTIONAL

---
 codecs_derive/src/aper/seq.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/codecs_derive/src/aper/seq.rs b/codecs_derive/src/aper/seq.rs
index 130e7f2..cb7533d 100644
--- a/codecs_derive/src/aper/seq.rs
+++ b/codecs_derive/src/aper/seq.rs
@@ -104,12 +104,22 @@ fn generate_seq_field_codec_tokens_using_attrs(
                                         quote! {}
                                     }
                                     Some(optidx) => {
+                                        let (set_key, no_key) = match cp.key_field {
+                                            Some(ref kf) if kf.value() => (
+                                                quote! { let _ = data.set_key(value.0 as i128); },
+                                                quote! { let _ = data.replace_key(None); },
+                                            ),
+                                            _ => (quote! {}, quote! {}),
+                                        };
                                         quote! {
                                             {
                                             let present = bitmap[#optidx];
                                             if present {
-                                                Some(#ty_ident::decode(data)?)
+                                                let value = #ty_ident::decode(data)?;
+                                                #set_key
+                                                Some(value)
                                             } else {
+                                                #no_key
                                                 None
                                             }
                                             }
-- 
2.43.0


From 67bae5598078e1ae4262407b7152755843480149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:36 +0000
Subject: [PATCH 38/38] fix: refuse a SEQUENCE in which another key comes
 between an open type and its key

---
 .../src/resolver/asn/types/constructed.rs       | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/asn-compiler/src/resolver/asn/types/constructed.rs b/asn-compiler/src/resolver/asn/types/constructed.rs
index c7b7c27..46e51cc 100644
--- a/asn-compiler/src/resolver/asn/types/constructed.rs
+++ b/asn-compiler/src/resolver/asn/types/constructed.rs
@@ -167,6 +167,23 @@ fn resolve_sequence_type(
             }
             _ => false,
         };
+        // What is decoded with the key is an open type, its key is the one decoded last.
+        if matches!(class_field_type, Some(ClassFieldComponentType::Type)) {
+            let key = c.component.ty.constraints.iter().flatten();
+            if let Some(key) = key.filter_map(|x| x.get_comp_reference()).next() {
+                let last = components
+                    .iter()
+                    .rev()
+                    .find(|x: &&ResolvedSeqComponent| x.key_field);
+                if matches!(last, Some(last) if last.component.id != key) {
+                    return Err(resolve_error!(
+                        "Another key comes between '{}' and '@{}'. Not Supported!",
+                        c.component.id,
+                        key
+                    ));
+                }
+            }
+        }
         components.push(ResolvedSeqComponent {
             component: ResolvedComponent {
                 id: c.component.id.clone(),
-- 
2.43.0

