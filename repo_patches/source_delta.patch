From bf7d8800dfd87e9af8c505fdb7ff188b304345d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:15 +0000
Subject: [PATCH 01/12] fix: int rdiv: return Overflow for MIN / -1 instead of
 panicking

---
 src/ops/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ops/mod.rs b/src/ops/mod.rs
index 81f41c3..947fe01 100644
--- a/src/ops/mod.rs
+++ b/src/ops/mod.rs
@@ -452,7 +452,8 @@ macro_rules! impl_for_ints {
                     return Err(ArithmeticError::DivisionByZero);
                 }
 
-                let mut result = self / rhs;
+                // `MIN / -1` isn't representable.
+                let mut result = self.checked_div(rhs).ok_or(ArithmeticError::Overflow)?;
                 let loss = self - result * rhs;
 
                 if loss != 0 {
-- 
2.43.0


From caff9100cbc19016f2699e12db91cbc33e8b8224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:15 +0000
Subject: [PATCH 02/12] fix: rdiv: avoid overflow in Nearest for big divisors

---
 src/lib.rs     | 5 +++--
 src/ops/mod.rs | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5351f2c..c92066d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -332,8 +332,9 @@ macro_rules! impl_fixed_point {
                     let sign = self.inner.signum() * rhs.inner.signum();
 
                     let add_signed_one = if mode == RoundMode::Nearest {
-                        let loss_abs = loss.abs();
-                        loss_abs + loss_abs >= rhs.inner.abs()
+                        // `2 * |loss| >= |rhs|`, but without possible overflows.
+                        let (loss_abs, rhs_abs) = (loss.unsigned_abs(), rhs.inner.unsigned_abs());
+                        loss_abs >= rhs_abs - loss_abs
                     } else {
                         mode as i32 == sign as i32
                     };
diff --git a/src/ops/mod.rs b/src/ops/mod.rs
index 947fe01..9e2c2b4 100644
--- a/src/ops/mod.rs
+++ b/src/ops/mod.rs
@@ -460,8 +460,9 @@ macro_rules! impl_for_ints {
                     let sign = self.signum() * rhs.signum();
 
                     let add_signed_one = if mode == RoundMode::Nearest {
-                        let loss_abs = loss.abs();
-                        loss_abs + loss_abs >= rhs.abs()
+                        // `2 * |loss| >= |rhs|`, but without possible overflows.
+                        let (loss_abs, rhs_abs) = (loss.unsigned_abs(), rhs.unsigned_abs());
+                        loss_abs >= rhs_abs - loss_abs
                     } else {
                         mode as i32 == sign as i32
                     };
-- 
2.43.0


From 1a91d0d9362dae34a651fe8d6982d06a4ac39472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:15 +0000
Subject: [PATCH 03/12] fix: rmul: avoid overflow in Nearest for i128 with the
 maximum precision

---
 src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c92066d..215127a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -246,7 +246,6 @@ macro_rules! impl_fixed_point {
             pub const EPSILON: Self = Self::from_bits(1);
 
             const COEF: $layout = const_fn::pow10(Self::PRECISION) as _;
-            const NEG_COEF: $layout = -Self::COEF;
             const COEF_PROMOTED: $promotion = $convert(Self::COEF) as _;
         }
 
@@ -289,8 +288,9 @@ macro_rules! impl_fixed_point {
                 let sign = self.inner.signum() * rhs.inner.signum();
 
                 let add_signed_one = if mode == RoundMode::Nearest {
-                    sign as i32 >= 0 && loss + loss >= Self::COEF
-                                     || loss + loss <= Self::NEG_COEF
+                    // `2 * |loss| >= COEF`, but without possible overflows.
+                    let loss_abs = loss.abs();
+                    loss_abs >= Self::COEF - loss_abs
                 } else {
                     loss != 0 && mode as i32 == sign as i32
                 };
-- 
2.43.0


From 9bb0e35e8ef94072c0fc444dcd3e84f528564588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:16 +0000
Subject: [PATCH 04/12] fix: integral: don't panic for MIN and for i128 with
 the maximum precision

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 215127a..9c64651 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -501,10 +501,10 @@ macro_rules! impl_fixed_point {
             #[inline]
             pub fn integral(self, mode: RoundMode) -> $layout {
                 let sign = self.inner.signum();
-                let (mut int, frac) = (self.inner / Self::COEF, self.inner.abs() % Self::COEF);
+                let (mut int, frac) = (self.inner / Self::COEF, (self.inner % Self::COEF).abs());
 
                 let add_signed_one = if mode == RoundMode::Nearest {
-                    frac + frac >= Self::COEF
+                    frac >= Self::COEF - frac
                 } else {
                     mode as i32 == sign as i32 && frac > 0
                 };
-- 
2.43.0


From bdfb8d0234b5af153963840ae452eadd93a5e45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:33 +0000
Subject: [PATCH 05/12] fix: from_decimal: don't panic if a power of ten
 doesn't fit

---
 src/lib.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9c64651..5454446 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -671,11 +671,15 @@ macro_rules! impl_fixed_point {
                     return Err(ConvertError::new("unsupported exponent"));
                 }
 
+                // `0 * 10^N` is representable even if `10^N` isn't.
+                if mantissa == 0 {
+                    return Ok(Self::ZERO);
+                }
+
                 let ten: $layout = 10;
-                let multiplier = ten.pow((exponent + Self::PRECISION) as u32);
 
-                mantissa
-                    .checked_mul(multiplier)
+                ten.checked_pow((exponent + Self::PRECISION) as u32)
+                    .and_then(|multiplier| mantissa.checked_mul(multiplier))
                     .map(Self::from_bits)
                     .map_or_else(|| Err(ConvertError::new("too big mantissa")), Ok)
             }
-- 
2.43.0


From 0bbcc6ef18446e67051ef3422c04415a38180f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:59 +0000
Subject: [PATCH 06/12] fix: parse fractional digits if the precision is zero

---
 src/string.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/string.rs b/src/string.rs
index 6e59efc..3551e6c 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -46,6 +46,10 @@ macro_rules! impl_for {
                     .parse()
                     .map_err(|_| ConvertError::new("can't parse integral part"))?;
 
+                if fractional_str.is_empty() {
+                    return Err(ConvertError::new("can't parse fractional part"));
+                }
+
                 if !fractional_str.chars().all(|c| c.is_digit(10)) {
                     return Err(ConvertError::new(
                         "can't parse fractional part: must contain digits only",
@@ -78,9 +82,14 @@ macro_rules! impl_for {
 
                 debug_assert!(exp <= Self::COEF);
 
-                let fractional: $layout = fractional_str
-                    .parse()
-                    .map_err(|_| ConvertError::new("can't parse fractional part"))?;
+                // It's empty only if the precision is zero and all digits have been cut off.
+                let fractional: $layout = if fractional_str.is_empty() {
+                    0
+                } else {
+                    fractional_str
+                        .parse()
+                        .map_err(|_| ConvertError::new("can't parse fractional part"))?
+                };
 
                 let final_integral = integral
                     .checked_mul(Self::COEF)
-- 
2.43.0


From c22212be5067591b425b9bac0333296395e7f8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:59 +0000
Subject: [PATCH 07/12] fix: stringify: avoid overflows for MIN and for i128
 with the maximum precision

---
 src/string.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/string.rs b/src/string.rs
index 3551e6c..4e6b55b 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -117,14 +117,15 @@ macro_rules! impl_for {
                     let _ = buf.push('-');
                 }
 
-                let integral = (self.inner / Self::COEF).abs();
-                let fractional = (self.inner % Self::COEF).abs();
+                // Unsigned, because `-MIN` and `fractional + COEF` don't always fit in the layout.
+                let integral = (self.inner / Self::COEF).unsigned_abs();
+                let fractional = (self.inner % Self::COEF).unsigned_abs();
 
                 let _ = buf.push_str(fmt.format(integral));
                 let _ = buf.push('.');
 
                 if fractional > 0 {
-                    let fractional_with_leading_one = fractional + Self::COEF;
+                    let fractional_with_leading_one = fractional + Self::COEF.unsigned_abs();
                     let s = &fmt.format(fractional_with_leading_one)[1..];
                     let _ = buf.push_str(s.trim_end_matches('0'));
                 } else {
-- 
2.43.0


From 7dd13d1e93e179a0409816906f4fa607c4ff8058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:59 +0000
Subject: [PATCH 08/12] fix: StrBuf: enlarge the buffer to fit MIN with zero
 precision

---
 src/string.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/string.rs b/src/string.rs
index 4e6b55b..6789cbb 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -137,9 +137,9 @@ macro_rules! impl_for {
 }
 
 // Serialize as a string in case of human readable formats.
-// The maximum length can be calculated as `len(str(-2**bits)) + 1`,
-// where `1` is reserved for `.` after integral part.
-const MAX_LEN: usize = if cfg!(feature = "i128") { 41 } else { 21 };
+// The maximum length can be calculated as `len(str(-2**(bits - 1))) + 2`,
+// where `2` is reserved for `.` after integral part and `0` after it (zero precision).
+const MAX_LEN: usize = if cfg!(feature = "i128") { 42 } else { 22 };
 
 // TODO: try `staticvec` after stabilization.
 // Now it works faster than `arrayvec`.
-- 
2.43.0


From 20a2e41a7b528a5fe8fdad5d10c9318c0f424f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:23 +0000
Subject: [PATCH 09/12] fix: TryFrom<f64>: accept values equal to MIN

---
 src/float.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/float.rs b/src/float.rs
index e833677..1cc3607 100644
--- a/src/float.rs
+++ b/src/float.rs
@@ -168,17 +168,16 @@ macro_rules! impl_try_from_f64 {
                     bits = rdiv_by_exponent_10(bits, (-Self::PRECISION - exponent10) as u32);
                 }
 
-                let bits: $layout = bits
-                    .try_into()
-                    .map_err(|_| ConvertError::new("too big number"))?;
-
-                if positive {
-                    Ok(Self::from_bits(bits))
+                // Apply the sign before narrowing, because `-MIN` doesn't fit in the layout.
+                let bits: Option<i128> = if positive {
+                    bits.try_into().ok()
                 } else {
-                    bits.checked_neg()
-                        .map(Self::from_bits)
-                        .ok_or_else(|| ConvertError::new("too big number"))
-                }
+                    0i128.checked_sub_unsigned(bits)
+                };
+
+                bits.and_then(|bits| bits.try_into().ok())
+                    .map(Self::from_bits)
+                    .ok_or_else(|| ConvertError::new("too big number"))
             }
         }
     };
-- 
2.43.0


From fba5577e92bb501efee97ec8c120795ac6a6a141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:21 +0000
Subject: [PATCH 10/12] fix: fixnum_const: reject literals that don't fit in
 the layout instead of truncating them

---
 src/macros.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/macros.rs b/src/macros.rs
index 34ab741..b509516 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -181,7 +181,11 @@ macro_rules! fixnum_const {
         use $crate::FixedPoint;
         use $crate::_priv::*;
         const VALUE_INNER: Int = parse_fixed(stringify!($value), pow10($precision));
-        FixedPoint::from_bits(VALUE_INNER as _)
+        FixedPoint::from_bits(const {
+            let value = VALUE_INNER as _;
+            assert!(value as Int == VALUE_INNER, "the literal doesn't fit in the layout");
+            value
+        })
     }};
 }
 
-- 
2.43.0


From 988f119fff41306dd2ae206606e50810f2fec63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:21 +0000
Subject: [PATCH 11/12] fix: serde str and str_option accept strings that
 aren't borrowed from the input

---
 src/serde.rs | 61 +++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 44 insertions(+), 17 deletions(-)

diff --git a/src/serde.rs b/src/serde.rs
index a233906..ff08d31 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -145,6 +145,47 @@ where
     // TODO: support serde_json/arbitrary_precision.
 }
 
+/// A number parsed from a string, no matter whether the string is borrowed from the input or not.
+struct Parsed<I, P>(FixedPoint<I, P>);
+
+impl<'de, I, P> Deserialize<'de> for Parsed<I, P>
+where
+    FixedPoint<I, P>: FromStr,
+{
+    fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+    where
+        D: Deserializer<'de>,
+    {
+        deserializer.deserialize_str(ParsedVisitor(PhantomData))
+    }
+}
+
+struct ParsedVisitor<I, P>(PhantomData<(I, P)>);
+
+impl<'de, I, P> de::Visitor<'de> for ParsedVisitor<I, P>
+where
+    FixedPoint<I, P>: FromStr,
+{
+    type Value = Parsed<I, P>;
+
+    fn expecting(&self, formatter: &mut fmt::Formatter<'_>) -> fmt::Result {
+        formatter.write_str("string containing a fixed-point number")
+    }
+
+    fn visit_str<E: de::Error>(self, s: &str) -> Result<Self::Value, E> {
+        s.parse()
+            .map(Parsed)
+            .map_err(|_| E::invalid_value(de::Unexpected::Str(s), &self))
+    }
+
+    fn visit_bytes<E: de::Error>(self, b: &[u8]) -> Result<Self::Value, E> {
+        match core::str::from_utf8(b) {
+            Ok(s) => self.visit_str(s),
+            Err(_) => Err(E::invalid_value(de::Unexpected::Bytes(b), &self)),
+        }
+    }
+}
+
 /// (De)serializes `FixedPoint` as inner representation.
 pub mod repr {
     use super::*;
@@ -228,13 +269,7 @@ pub mod str {
         D: Deserializer<'de>,
         FixedPoint<I, P>: FromStr,
     {
-        let s = <&str>::deserialize(deserializer)?;
-        s.parse().map(F::from).map_err(|_| {
-            D::Error::invalid_value(
-                de::Unexpected::Str(s),
-                &"string containing a fixed-point number",
-            )
-        })
+        Parsed::deserialize(deserializer).map(|Parsed(fp)| F::from(fp))
     }
 }
 
@@ -265,16 +300,8 @@ pub mod str_option {
         D: Deserializer<'de>,
         FixedPoint<I, P>: FromStr,
     {
-        let s = Option::<&str>::deserialize(deserializer)?;
-        s.map(|s| {
-            s.parse().map(F::from).map_err(|_| {
-                D::Error::invalid_value(
-                    de::Unexpected::Str(s),
-                    &"string containing a fixed-point number",
-                )
-            })
-        })
-        .transpose()
+        let parsed = Option::<Parsed<I, P>>::deserialize(deserializer)?;
+        Ok(parsed.map(|Parsed(fp)| F::from(fp)))
     }
 }
 
-- 
2.43.0


From a14801ab88839f1491e0cba309631888e89212fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:27 +0000
Subject: [PATCH 12/12] fix: TryFrom<f64>: round the significand to the
 nearest, so decimals of 15 digits survive

---
 src/float.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/float.rs b/src/float.rs
index 1cc3607..e6f22aa 100644
--- a/src/float.rs
+++ b/src/float.rs
@@ -143,9 +143,9 @@ macro_rules! impl_try_from_f64 {
                         divisor_exponent_10 = NEXT_EXPONENT_10[lz - 1] as i32;
                     }
                     let divisor_exponent_10 = divisor_exponent_10.min(-exponent10 as i32);
-                    let (divisor, remainder) = POWERS_OF_10[divisor_exponent_10 as usize];
+                    let (divisor, _) = POWERS_OF_10[divisor_exponent_10 as usize];
                     let res = bits / divisor;
-                    bits = if bits % divisor > remainder {
+                    bits = if bits % divisor >= divisor / 2 {
                         res + 1
                     } else {
                         res
-- 
2.43.0

