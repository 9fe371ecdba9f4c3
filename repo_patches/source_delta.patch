From 0abbf8d44879347279b9b2b21388390a9350dc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:09 +0000
Subject: [PATCH 01/20] fix: read numeric images at any address and of any
 length without misaligned or oversized references

---
 src/binary.rs | 66 +++++++++++++++++++++++++++++++++++----------------
 1 file changed, 46 insertions(+), 20 deletions(-)

diff --git a/src/binary.rs b/src/binary.rs
index ccc0569..30585b9 100644
--- a/src/binary.rs
+++ b/src/binary.rs
@@ -42,10 +42,11 @@
 // In particular, if the value is zero, there will be no digits at all!
 // The weight is arbitrary in that case, but we normally set it to zero.
 
+use crate::data::NumericData;
 use crate::var::NumericVar;
 use cfg_if::cfg_if;
 use std::marker::PhantomData;
-use std::mem::size_of;
+use std::mem::{align_of, size_of};
 
 /// Use `i16` to represent a numeric digit.
 pub type NumericDigit = i16;
@@ -86,18 +87,13 @@ pub const NUMERIC_DSCALE_MAX: i16 = 0x3FFF;
 /// A flexible array.
 #[repr(C)]
 #[derive(Debug)]
-struct FlexArray<T>(PhantomData<T>, [T; 0]);
+struct FlexArray<T>(PhantomData<T>);
 
 impl<T> FlexArray<T> {
     #[inline]
     pub fn as_ptr(&self) -> *const T {
         self as *const _ as *const T
     }
-
-    #[inline]
-    pub unsafe fn as_slice(&self, len: usize) -> &[T] {
-        std::slice::from_raw_parts(self.as_ptr(), len)
-    }
 }
 
 /// A `union` field.
@@ -122,7 +118,7 @@ impl<T> UnionField<T> {
     }
 }
 
-#[repr(C)]
+#[repr(C, packed)]
 pub(crate) struct NumericShort {
     // Sign + display scale + weight
     n_header: u16,
@@ -157,7 +153,7 @@ impl NumericShort {
     }
 }
 
-#[repr(C)]
+#[repr(C, packed)]
 pub(crate) struct NumericLong {
     // Sign + display scale
     n_sign_dscale: u16,
@@ -179,7 +175,7 @@ impl NumericLong {
 
 /// `NumericChoice` is a `union` in PostgreSQL.
 /// Here we use `UnionField` to simulate it.
-#[repr(C)]
+#[repr(C, packed)]
 struct NumericChoice {
     // Header word
     n_header: UnionField<u16>,
@@ -190,14 +186,14 @@ struct NumericChoice {
     // Short form (2-byte header)
     n_short: UnionField<NumericShort>,
 
-    // 4-byte header for union
-    _data: [u16; 2],
+    // the part of the header every image has
+    _data: [u16; 1],
 }
 
 impl NumericChoice {
     #[inline]
     fn n_header(&self) -> u16 {
-        unsafe { *(self.n_header.as_ref()) }
+        unsafe { (&self.n_header as *const _ as *const u16).read_unaligned() }
     }
 
     #[inline]
@@ -288,7 +284,10 @@ impl NumericChoice {
 
 /// `NumericBinary` is used to represent binary format of disk storage.
 /// Notes that do not create a `NumericBinary` directly.
-#[repr(C)]
+///
+/// It is laid over bytes at any address, so it (and everything in it) is packed,
+/// and it must not be larger than the smallest image (a length word and a short header).
+#[repr(C, packed)]
 pub(crate) struct NumericBinary {
     // varlena header (do not touch directly!)
     // xxxxxx00 4-byte length word, aligned, uncompressed data (up to 1G)
@@ -403,7 +402,7 @@ impl NumericBinary {
                 n_header: UnionField::new(),
                 n_long: UnionField::new(),
                 n_short: UnionField::new(),
-                _data: [NUMERIC_NAN, 0],
+                _data: [NUMERIC_NAN],
             },
         }
     }
@@ -416,7 +415,7 @@ impl NumericBinary {
                 n_header: UnionField::new(),
                 n_long: UnionField::new(),
                 n_short: UnionField::new(),
-                _data: [NUMERIC_SHORT, 0],
+                _data: [NUMERIC_SHORT],
             },
         }
     }
@@ -454,9 +453,9 @@ impl NumericBinary {
                     NUMERIC_POS
                 }
             };
-            let digits = unsafe { short.n_data.as_slice(ndigits as usize) };
+            let digits = short.n_data.as_ptr();
 
-            NumericVar::borrowed(ndigits, weight as i32, dscale as i32, sign, digits)
+            unsafe { Self::make_var(ndigits, weight as i32, dscale as i32, sign, digits) }
         } else if flat_bits == NUMERIC_NAN {
             NumericVar::borrowed(0, 0, 0, NUMERIC_NAN, &[])
         } else {
@@ -467,9 +466,36 @@ impl NumericBinary {
             let weight = long.n_weight;
             let dscale = long.n_sign_dscale & NUMERIC_DSCALE_MASK;
             let sign = flat_bits;
-            let digits = unsafe { long.n_data.as_slice(ndigits as usize) };
+            let digits = long.n_data.as_ptr();
+
+            unsafe { Self::make_var(ndigits, weight as i32, dscale as i32, sign, digits) }
+        }
+    }
 
-            NumericVar::borrowed(ndigits, weight as i32, dscale as i32, sign, digits)
+    /// Makes a `NumericVar` over `digits`, which may be misaligned;
+    /// in that case the digits have to be copied.
+    #[inline]
+    unsafe fn make_var<'a>(
+        ndigits: i32,
+        weight: i32,
+        dscale: i32,
+        sign: u16,
+        digits: *const NumericDigit,
+    ) -> NumericVar<'a> {
+        if ndigits == 0 {
+            NumericVar::borrowed(ndigits, weight, dscale, sign, &[])
+        } else if digits as usize % align_of::<NumericDigit>() == 0 {
+            let digits = std::slice::from_raw_parts(digits, ndigits as usize);
+            NumericVar::borrowed(ndigits, weight, dscale, sign, digits)
+        } else {
+            let mut data = NumericData::with_ndigits(ndigits);
+            let buf = data.digits_mut(ndigits).as_mut_ptr();
+            std::ptr::copy_nonoverlapping(
+                digits as *const u8,
+                buf as *mut u8,
+                ndigits as usize * size_of::<NumericDigit>(),
+            );
+            NumericVar::owned(ndigits, weight, dscale, sign, data)
         }
     }
 }
-- 
2.43.0


From f3d1ac41f4707bc9833bf0bca5b0620c855d2111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:13 +0000
Subject: [PATCH 02/20] fix: free a numeric buffer with the layout it was
 allocated with

---
 src/num.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/num.rs b/src/num.rs
index eec7c11..fbe430f 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -14,7 +14,7 @@
 
 //! Numeric
 
-use crate::binary::{NumericBinary, NUMERIC_DIGIT_SIZE};
+use crate::binary::{NumericBinary, NumericDigit, NUMERIC_DIGIT_SIZE};
 use crate::data::*;
 use crate::typmod::Typmod;
 use crate::var::NumericVar;
@@ -204,7 +204,12 @@ impl Drop for NumericBuf {
     fn drop(&mut self) {
         if !self.buf.is_null() {
             unsafe {
-                let _vec = Vec::<u8>::from_raw_parts(self.buf as *mut u8, 0, self.len as usize);
+                // the buffer was allocated as a vector of digits
+                let _vec = Vec::<NumericDigit>::from_raw_parts(
+                    self.buf as *mut NumericDigit,
+                    0,
+                    (self.len / NUMERIC_DIGIT_SIZE) as usize,
+                );
             }
             self.buf = std::ptr::null();
         }
-- 
2.43.0


From 006d552841f18e0db089db47849c26df040802a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:42 +0000
Subject: [PATCH 03/20] fix: keep the value usable when rounding or applying a
 typmod does not fit

---
 src/num.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/num.rs b/src/num.rs
index fbe430f..8cc551c 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -104,7 +104,8 @@ impl NumericBuf {
             return;
         }
 
-        let mut var = self.as_var_owned();
+        // the result may not be representable, so `self` must be left intact until it is made
+        let mut var = self.as_var();
         var.round(scale);
         match var.make_result() {
             Some(result) => *self = result,
@@ -139,7 +140,8 @@ impl NumericBuf {
     ///
     /// Notes that no matter whether overflows, `self` will be rounded.
     pub fn apply_typmod(&mut self, typmod: Typmod) -> bool {
-        let mut var = self.as_var_owned();
+        // the result may not be representable, so `self` must be left intact until it is made
+        let mut var = self.as_var();
         let mut overflow = var.apply_typmod(typmod);
 
         match var.make_result() {
-- 
2.43.0


From d2b6c5a0bba52ca95eb1b7458da41f211c24311b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:46 +0000
Subject: [PATCH 04/20] fix: apply_typmod leaves NaN alone

---
 src/num.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/num.rs b/src/num.rs
index 8cc551c..cb2761a 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -140,6 +140,10 @@ impl NumericBuf {
     ///
     /// Notes that no matter whether overflows, `self` will be rounded.
     pub fn apply_typmod(&mut self, typmod: Typmod) -> bool {
+        if self.is_nan() {
+            return false;
+        }
+
         // the result may not be representable, so `self` must be left intact until it is made
         let mut var = self.as_var();
         let mut overflow = var.apply_typmod(typmod);
-- 
2.43.0


From c5eea7f963f032057ea514e6b61624c887dfbeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:09 +0000
Subject: [PATCH 05/20] fix: estimate the weight of an integer power from the
 leading digits of the base

---
 src/var.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/var.rs b/src/var.rs
index 2aab4b1..4df3744 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -1664,7 +1664,7 @@ impl<'a> NumericVar<'a> {
         let mut p = self.weight * DEC_DIGITS;
 
         for (i, &digit) in digits.iter().enumerate().skip(1) {
-            if (i * DEC_DIGITS as usize) < 16 {
+            if (i * DEC_DIGITS as usize) >= 16 {
                 break;
             }
 
-- 
2.43.0


From 1110c065a7542033ff0c55793c521cc66d32d780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:13 +0000
Subject: [PATCH 06/20] fix: raise to the power i32::MIN without overflow

---
 src/var.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/var.rs b/src/var.rs
index 4df3744..e939270 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -1693,11 +1693,11 @@ impl<'a> NumericVar<'a> {
         // The multiplications to produce the result may introduce an error of up
         // to around log10(abs(exp)) digits, so work with this many extra digits
         // of precision (plus a few more for good measure).
-        sig_digits += (exp.abs() as f64).ln() as i32 + 8;
+        sig_digits += (exp as f64).abs().ln() as i32 + 8;
 
         // Now we can proceed with the multiplications.
         let mut neg = exp < 0;
-        let mut mask = exp.abs();
+        let mut mask = exp.wrapping_abs() as u32;
 
         let mut base_prod = self.clone();
 
@@ -1709,7 +1709,7 @@ impl<'a> NumericVar<'a> {
 
         loop {
             mask >>= 1;
-            if mask <= 0 {
+            if mask == 0 {
                 break;
             }
 
-- 
2.43.0


From 265eb5e5050aca0d0aa7cfe01b32e5e299cd1a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:32 +0000
Subject: [PATCH 07/20] fix: scientific notation of values below 1e-1000

---
 src/var.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/var.rs b/src/var.rs
index e939270..0b25717 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -2215,18 +2215,21 @@ impl<'a> NumericVar<'a> {
             0
         };
 
-        // The denominator is set to 10 raised to the power of the exponent.
+        // The factor is set to 10 raised to the absolute value of the exponent
+        // (a negative power of 10 could underflow).
         //
-        // We then divide var by the denominator to get the significand, rounding
-        // to rscale decimal digits in the process.
-        let denom_scale = if exponent < 0 { -exponent } else { 0 };
-
-        let denominator = TEN
-            .power_int(exponent, denom_scale)
+        // We then divide var by the factor, or multiply it if the exponent is
+        // negative, to get the significand, rounding to rscale decimal digits
+        // in the process.
+        let factor = TEN
+            .power_int(exponent.abs(), 0)
             .expect("attempt to multiply with overflow");
-        let significand = self
-            .div_common(&denominator, rscale, true)
-            .expect(DIVIDE_BY_ZERO_MSG);
+        let significand = if exponent < 0 {
+            self.mul_common(&factor, rscale)
+        } else {
+            self.div_common(&factor, rscale, true)
+                .expect(DIVIDE_BY_ZERO_MSG)
+        };
 
         if lower_exp {
             write!(f, "{}e{:<+03}", significand, exponent)
-- 
2.43.0


From bef6f5265c60ba38c328ba11fe9bde2205028df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:48 +0000
Subject: [PATCH 08/20] fix: report an oversized scale of a zero product as
 overflow in debug builds too

---
 src/var.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/var.rs b/src/var.rs
index 0b25717..d0835b4 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -135,7 +135,8 @@ impl<'a> NumericVar<'a> {
     /// Creates a `NumericVar` of zero with given scale.
     #[inline]
     fn zero_scaled(scale: i32) -> NumericVar<'a> {
-        debug_assert!(scale >= 0 && scale <= NUMERIC_DSCALE_MAX as i32);
+        // `make_result` checks the upper bound
+        debug_assert!(scale >= 0);
         Self::borrowed(0, 0, scale, NUMERIC_POS, &[])
     }
 
-- 
2.43.0


From 3140dcb0ec8524807916d74ed8b6065853cd053a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:52 +0000
Subject: [PATCH 09/20] fix: ignore leading zeroes when checking whether a
 result fits

---
 src/var.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/var.rs b/src/var.rs
index d0835b4..4f83cf9 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -2328,10 +2328,13 @@ impl<'a> NumericVar<'a> {
     /// Make `self` to be a result numeric.
     /// Returns `None` if overflows.
     #[inline]
-    pub fn make_result(self) -> Option<NumericBuf> {
+    pub fn make_result(mut self) -> Option<NumericBuf> {
         debug_assert!(!self.is_nan());
         debug_assert!(self.dscale >= 0);
 
+        // leading zeroes do not count
+        self.strip();
+
         if self.weight > NUMERIC_WEIGHT_MAX as i32
             || self.weight < NUMERIC_WEIGHT_MIN as i32
             || self.dscale > NUMERIC_DSCALE_MAX as i32
@@ -2339,7 +2342,7 @@ impl<'a> NumericVar<'a> {
             return None;
         }
 
-        Some(self.make_result_no_overflow())
+        Some(self.into_numeric_buf())
     }
 
     /// Negate this value.
-- 
2.43.0


From ec0dbfe226ab7d36ff8886732f77c9e9d1874d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:56 +0000
Subject: [PATCH 10/20] fix: reject bytes that are not the image of a numeric
 when deserializing

---
 src/binary.rs | 54 +++++++++++++++++++++++++++++++++++++++++++++++++++
 src/num.rs    | 16 ++++++++++++---
 2 files changed, 67 insertions(+), 3 deletions(-)

diff --git a/src/binary.rs b/src/binary.rs
index 30585b9..ac6a06d 100644
--- a/src/binary.rs
+++ b/src/binary.rs
@@ -44,6 +44,8 @@
 
 use crate::data::NumericData;
 use crate::var::NumericVar;
+#[cfg(feature = "serde")]
+use crate::var::{DEC_DIGITS, NBASE};
 use cfg_if::cfg_if;
 use std::marker::PhantomData;
 use std::mem::{align_of, size_of};
@@ -394,6 +396,58 @@ impl NumericBinary {
         unsafe { self.choice.n_short.as_mut() }
     }
 
+    /// Checks if `bytes` is the image of a numeric.
+    #[cfg(feature = "serde")]
+    pub fn is_valid(bytes: &[u8]) -> bool {
+        if bytes.len() < NUMERIC_HEADER_SIZE_SHORT {
+            return false;
+        }
+
+        // it's safe as a `NumericBinary` can be at any address and is no larger than `bytes`.
+        let bin = unsafe { &*(bytes.as_ptr() as *const NumericBinary) };
+        let len = bin.len();
+        if len as usize != bytes.len() || NumericBinary::encode_len(len) != bin.vl_len {
+            return false;
+        }
+
+        if bin.is_nan() {
+            return true;
+        }
+
+        let header_size = bin.header_size() as usize;
+        if bytes.len() < header_size {
+            return false;
+        }
+
+        let digits = bytes[header_size..].chunks_exact(NUMERIC_DIGIT_SIZE as usize);
+        if !digits.remainder().is_empty() {
+            return false;
+        }
+        let mut digits = digits.map(|d| NumericDigit::from_ne_bytes([d[0], d[1]]));
+        if digits
+            .clone()
+            .any(|d| d < 0 || d >= NBASE as NumericDigit)
+        {
+            return false;
+        }
+
+        // leading and trailing zeroes are stripped, and zero has no sign
+        match (digits.next(), digits.next_back()) {
+            (None, _) => !bin.is_negative(),
+            (Some(0), _) | (_, Some(0)) => false,
+            (Some(first), last) => {
+                // the display scale covers all digits
+                let mut last = last.unwrap_or(first);
+                let mut scale = (bin.ndigits() - 1 - bin.weight() as i32) * DEC_DIGITS;
+                while last % 10 == 0 {
+                    last /= 10;
+                    scale -= 1;
+                }
+                scale <= bin.dscale() as i32
+            }
+        }
+    }
+
     #[inline]
     pub const fn nan() -> NumericBinary {
         NumericBinary {
diff --git a/src/num.rs b/src/num.rs
index cb2761a..9deed85 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -360,7 +360,7 @@ impl<'de> serde::Deserialize<'de> for NumericBuf {
             where
                 E: serde::de::Error,
             {
-                let n = unsafe { Numeric::from_bytes_unchecked(v) };
+                let n = Numeric::from_bytes(v).ok_or_else(|| E::custom("invalid numeric"))?;
                 Ok(n.to_owned())
             }
         }
@@ -394,6 +394,17 @@ impl Numeric {
         &*(value as *const [u8] as *const Numeric)
     }
 
+    /// Creates a `Numeric` from bytes slice, if the slice is a valid `Numeric`.
+    #[cfg(feature = "serde")]
+    #[inline]
+    fn from_bytes(value: &[u8]) -> Option<&Numeric> {
+        if NumericBinary::is_valid(value) {
+            Some(unsafe { Numeric::from_bytes_unchecked(value) })
+        } else {
+            None
+        }
+    }
+
     /// Creates a `NaN` numeric.
     #[inline]
     pub fn nan() -> &'static Numeric {
@@ -1062,8 +1073,7 @@ impl<'de> serde::Deserialize<'de> for &'de Numeric {
             where
                 E: serde::de::Error,
             {
-                let n = unsafe { Numeric::from_bytes_unchecked(v) };
-                Ok(n)
+                Numeric::from_bytes(v).ok_or_else(|| E::custom("invalid numeric"))
             }
         }
 
-- 
2.43.0


From bd2626b40c296a83c28cfbdfb39be0dbb567d43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:27 +0000
Subject: [PATCH 11/20] fix: convert to f32 with a single rounding and report
 every overflow

---
 src/convert.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/convert.rs b/src/convert.rs
index 91b13c1..d161cc7 100644
--- a/src/convert.rs
+++ b/src/convert.rs
@@ -632,16 +632,12 @@ impl<'a> TryFrom<&NumericVar<'a>> for f32 {
         buf.write_fmt(format_args!("{}", value))
             .expect("returned an error unexpectedly");
 
-        match strtod::strtod(&buf) {
-            Some(val) => {
-                let f = val as f32;
-                if (f.is_infinite() && !val.is_infinite()) || (f == 0.0 && val != 0.0) {
-                    return Err(NumericTryFromError::overflow());
-                }
-                Ok(f)
-            }
-            None => Err(NumericTryFromError::overflow()),
+        // going through f64 would round twice
+        let f = buf.parse::<f32>()?;
+        if f.is_infinite() || (f == 0.0 && value.ndigits() != 0) {
+            return Err(NumericTryFromError::overflow());
         }
+        Ok(f)
     }
 }
 
-- 
2.43.0


From 488bfe176ed9050e515f43b609111453df070ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:25 +0000
Subject: [PATCH 12/20] fix: raise a negative base to an integer power that
 does not fit in i32

---
 src/var.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/var.rs b/src/var.rs
index 4f83cf9..a13225b 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -2049,6 +2049,18 @@ impl<'a> NumericVar<'a> {
             return Some(Self::zero_scaled(NUMERIC_MIN_SIG_DIGITS));
         }
 
+        // If base is negative, exp is an integer: the result is negative if exp
+        // is odd, and its magnitude is abs(base) ^ exp.
+        if self.is_negative() {
+            let mut abs_base = self.clone();
+            abs_base.abs();
+            let mut result = abs_base.power_common(exp)?;
+            if exp.ndigits == exp.weight + 1 && exp.digits()[exp.ndigits as usize - 1] & 1 == 1 {
+                result.negate();
+            }
+            return Some(result);
+        }
+
         // Decide on the scale for the ln() calculation.  For this we need an
         // estimate of the weight of the result, which we obtain by doing an
         // initial low-precision calculation of exp * ln(base).
-- 
2.43.0


From 4a4cc608d9b7adb3135dfcc9d6b9a5fdbddf0ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:29 +0000
Subject: [PATCH 13/20] fix: powers too small for the result scale are zero

---
 src/var.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/var.rs b/src/var.rs
index a13225b..ce1e48a 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -2102,8 +2102,10 @@ impl<'a> NumericVar<'a> {
             .max(NUMERIC_MIN_DISPLAY_SCALE)
             .min(NUMERIC_MAX_DISPLAY_SCALE);
 
-        // set the scale for the real exp * ln(base) calculation
-        let local_rscale = (rscale + val as i32 - ln_dweight + 8).max(NUMERIC_MIN_DISPLAY_SCALE);
+        // set the scale for the real exp * ln(base) calculation, which needs some
+        // significant digits even if the result rounds to zero
+        let sig_digits = (rscale + val as i32).max(0) + 8;
+        let local_rscale = (sig_digits - ln_dweight).max(NUMERIC_MIN_DISPLAY_SCALE);
 
         // and do the real calculation
         ln_base = self.ln_common(local_rscale);
-- 
2.43.0


From 2d4631b2c8b328e5c36ed36c0fef1266d7b32770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:33 +0000
Subject: [PATCH 14/20] fix: estimate powers of bases within 1e-1000 of one

---
 src/var.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/var.rs b/src/var.rs
index ce1e48a..651d7c2 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -2078,9 +2078,7 @@ impl<'a> NumericVar<'a> {
         // overflow threshold so that it is consistent for all inputs.
         let ln_dweight = self.estimate_ln_dweight();
 
-        let local_rscale = (8 - ln_dweight)
-            .max(NUMERIC_MIN_DISPLAY_SCALE)
-            .min(NUMERIC_MAX_DISPLAY_SCALE);
+        let local_rscale = (8 - ln_dweight).max(NUMERIC_MIN_DISPLAY_SCALE);
 
         let mut ln_base = self.ln_common(local_rscale);
         let mut ln_num = ln_base.mul_common(exp, local_rscale);
-- 
2.43.0


From 598ba10c0e2158022b4f3c56493b88b4efa7accc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:37 +0000
Subject: [PATCH 15/20] fix: logarithms too small for the result scale are zero

---
 src/var.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/var.rs b/src/var.rs
index 651d7c2..31964ba 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -1906,11 +1906,10 @@ impl<'a> NumericVar<'a> {
             .min(NUMERIC_MAX_DISPLAY_SCALE);
 
         // Set the scales for ln(base) and ln(num) so that they each have more
-        // significant digits than the final result.
-        let ln_base_rscale =
-            (rscale + result_dweight - ln_base_dweight + 8).max(NUMERIC_MIN_DISPLAY_SCALE);
-        let ln_num_rscale =
-            (rscale + result_dweight - ln_num_dweight + 8).max(NUMERIC_MIN_DISPLAY_SCALE);
+        // significant digits than the final result (which may have none at all).
+        let sig_digits = (rscale + result_dweight).max(0) + 8;
+        let ln_base_rscale = (sig_digits - ln_base_dweight).max(NUMERIC_MIN_DISPLAY_SCALE);
+        let ln_num_rscale = (sig_digits - ln_num_dweight).max(NUMERIC_MIN_DISPLAY_SCALE);
 
         // Form natural logarithms
         let ln_base = base.ln_common(ln_base_rscale);
-- 
2.43.0


From b4b86a899a285c0126fbc570a1ccf27ea1be9c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:01 +0000
Subject: [PATCH 16/20] fix: square roots too small for the result scale are
 zero

---
 src/var.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/var.rs b/src/var.rs
index 31964ba..2419ca0 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -1598,7 +1598,8 @@ impl<'a> NumericVar<'a> {
             result = result.add_common(&val);
             result = result.mul_common(&ZERO_POINT_FIVE, local_rscale);
 
-            if result.cmp_common(&last_val) == 0 {
+            // the root may be zero at this scale
+            if result.ndigits == 0 || result.cmp_common(&last_val) == 0 {
                 break;
             }
 
-- 
2.43.0


From 5256e625762dd6b0fde529aae8145a579740a520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:19 +0000
Subject: [PATCH 17/20] fix: keep enough digits in the logarithm of very large
 and very small values

---
 src/var.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/var.rs b/src/var.rs
index 2419ca0..32d318a 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -1769,6 +1769,7 @@ impl<'a> NumericVar<'a> {
 
         let mut x = self.clone();
         let mut fact = TWO.clone();
+        let mut nsqrt = 0;
 
         // Reduce input into range 0.9 < x < 1.1 with repeated sqrt() operations.
         //
@@ -1781,12 +1782,14 @@ impl<'a> NumericVar<'a> {
             local_rscale = local_rscale.max(NUMERIC_MIN_DISPLAY_SCALE);
             x = x.sqrt_common(local_rscale);
             fact = fact.mul_common(&TWO, 0);
+            nsqrt += 1;
         }
         while x.cmp_common(&ONE_POINT_ONE) >= 0 {
             let mut local_rscale = rscale - x.weight * DEC_DIGITS / 2 + 8;
             local_rscale = local_rscale.max(NUMERIC_MIN_DISPLAY_SCALE);
             x = x.sqrt_common(local_rscale);
             fact = fact.mul_common(&TWO, 0);
+            nsqrt += 1;
         }
 
         // We use the Taylor series for 0.5 * ln((1+z)/(1-z)),
@@ -1797,8 +1800,9 @@ impl<'a> NumericVar<'a> {
         // due to the above range-reduction of x.
         //
         // The convergence of this is not as fast as one would like, but is
-        // tolerable given that z is small.
-        let local_rscale = rscale + 8;
+        // tolerable given that z is small.  The result is multiplied by
+        // 2^(nsqrt+1), and so are its errors, so work with that many extra digits.
+        let local_rscale = rscale + (f64::from(nsqrt + 1) * LOG10_2) as i32 + 8;
 
         let mut result = x.sub_common(&ONE);
         let mut elem = x.add_common(&ONE);
-- 
2.43.0


From c23ad806cc9f8e9def43a87660cd7d2f0a23341a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:22 +0000
Subject: [PATCH 18/20] fix: show only the numeric's own bytes in Debug output

---
 src/num.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/num.rs b/src/num.rs
index 9deed85..9f57598 100644
--- a/src/num.rs
+++ b/src/num.rs
@@ -235,7 +235,8 @@ impl fmt::Debug for NumericBuf {
         let buf = if self.buf.is_null() {
             &[]
         } else {
-            unsafe { std::slice::from_raw_parts(self.buf, self.len as usize) }
+            // the rest of the buffer may be uninitialized
+            self.as_bytes()
         };
 
         f.debug_struct("NumericBuf")
-- 
2.43.0


From e2c7a186683c9294f34f01fdf4a56161cb575584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:19 +0000
Subject: [PATCH 19/20] fix: let the canceling overflow in approximate division
 wrap in debug builds

---
 src/var.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/var.rs b/src/var.rs
index 32d318a..fad3d28 100644
--- a/src/var.rs
+++ b/src/var.rs
@@ -1446,12 +1446,11 @@ impl<'a> NumericVar<'a> {
             // But having said that: div[qi] can be more than INT_MAX/NBASE, as
             // noted above, which means that the product div[qi] * NBASE *can*
             // overflow.  When that happens, adding it to div[qi + 1] will always
-            // cause a canceling overflow so that the end result is correct.  We
-            // could avoid the intermediate overflow by doing the multiplication
-            // and addition in int64 arithmetic, but so far there appears no need.
+            // cause a canceling overflow so that the end result is correct, which
+            // is why the arithmetic has to wrap.
             let div_qi = unsafe { *div.get_unchecked(qi) };
             let div_qi_1 = unsafe { div.get_unchecked_mut(qi + 1) };
-            *div_qi_1 += div_qi * NBASE;
+            *div_qi_1 = div_qi_1.wrapping_add(div_qi.wrapping_mul(NBASE));
 
             let div_qi = unsafe { div.get_unchecked_mut(qi) };
             *div_qi = qdigit;
-- 
2.43.0


From 024befd63990d837d48605ded02eb41628582b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:03 +0000
Subject: [PATCH 20/20] fix: round ties between subnormal f64 to even

---
 src/convert.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/convert.rs b/src/convert.rs
index d161cc7..f791caf 100644
--- a/src/convert.rs
+++ b/src/convert.rs
@@ -654,7 +654,9 @@ impl<'a> TryFrom<&NumericVar<'a>> for f64 {
         buf.write_fmt(format_args!("{}", value))
             .expect("returned an error unexpectedly");
 
-        match strtod::strtod(&buf) {
+        // strtod misrounds ties between subnormals, but parse of old
+        // compilers rejects very long literals
+        match buf.parse().ok().or_else(|| strtod::strtod(&buf)) {
             Some(f) => Ok(f),
             None => Err(NumericTryFromError::overflow()),
         }
-- 
2.43.0

