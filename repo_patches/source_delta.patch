From 7d094adc2f8ce808a0e4da8b19317c592cdd3095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:32 +0000
Subject: [PATCH 01/11] fix: overflow in rdiv(Nearest) for divisors above half
 of the range

---
 src/lib.rs     | 5 +++--
 src/ops/mod.rs | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5351f2c..f22bc10 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -332,8 +332,9 @@ macro_rules! impl_fixed_point {
                     let sign = self.inner.signum() * rhs.inner.signum();
 
                     let add_signed_one = if mode == RoundMode::Nearest {
-                        let loss_abs = loss.abs();
-                        loss_abs + loss_abs >= rhs.inner.abs()
+                        // `loss + loss >= rhs`, but without overflow.
+                        let loss_abs = loss.unsigned_abs();
+                        loss_abs >= rhs.inner.unsigned_abs() - loss_abs
                     } else {
                         mode as i32 == sign as i32
                     };
diff --git a/src/ops/mod.rs b/src/ops/mod.rs
index 81f41c3..ddb2aaf 100644
--- a/src/ops/mod.rs
+++ b/src/ops/mod.rs
@@ -459,8 +459,9 @@ macro_rules! impl_for_ints {
                     let sign = self.signum() * rhs.signum();
 
                     let add_signed_one = if mode == RoundMode::Nearest {
-                        let loss_abs = loss.abs();
-                        loss_abs + loss_abs >= rhs.abs()
+                        // `loss + loss >= rhs`, but without overflow.
+                        let loss_abs = loss.unsigned_abs();
+                        loss_abs >= rhs.unsigned_abs() - loss_abs
                     } else {
                         mode as i32 == sign as i32
                     };
-- 
2.43.0


From 97996e2e33361a92b89673313d9b0daa075a8d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:32 +0000
Subject: [PATCH 02/11] fix: return Overflow from integer rdiv for MIN / -1
 instead of panicking

---
 src/ops/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ops/mod.rs b/src/ops/mod.rs
index ddb2aaf..7c6aae5 100644
--- a/src/ops/mod.rs
+++ b/src/ops/mod.rs
@@ -452,7 +452,8 @@ macro_rules! impl_for_ints {
                     return Err(ArithmeticError::DivisionByZero);
                 }
 
-                let mut result = self / rhs;
+                // `MIN / -1` overflows.
+                let mut result = self.checked_div(rhs).ok_or(ArithmeticError::Overflow)?;
                 let loss = self - result * rhs;
 
                 if loss != 0 {
-- 
2.43.0


From 632a2d6927a3c4576c8d1a59d9d200eb91f3d64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:32 +0000
Subject: [PATCH 03/11] fix: integral part of MIN

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index f22bc10..fb88bc5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -501,7 +501,7 @@ macro_rules! impl_fixed_point {
             #[inline]
             pub fn integral(self, mode: RoundMode) -> $layout {
                 let sign = self.inner.signum();
-                let (mut int, frac) = (self.inner / Self::COEF, self.inner.abs() % Self::COEF);
+                let (mut int, frac) = (self.inner / Self::COEF, (self.inner % Self::COEF).abs());
 
                 let add_signed_one = if mode == RoundMode::Nearest {
                     frac + frac >= Self::COEF
-- 
2.43.0


From ec0e78fe972d87c85f27e3044c759e103dbfd380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:32 +0000
Subject: [PATCH 04/11] fix: from_decimal when the power of ten doesn't fit the
 layout

---
 src/lib.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index fb88bc5..1c92856 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -671,11 +671,14 @@ macro_rules! impl_fixed_point {
                     return Err(ConvertError::new("unsupported exponent"));
                 }
 
+                if mantissa == 0 {
+                    return Ok(Self::ZERO);
+                }
+
                 let ten: $layout = 10;
-                let multiplier = ten.pow((exponent + Self::PRECISION) as u32);
 
-                mantissa
-                    .checked_mul(multiplier)
+                ten.checked_pow((exponent + Self::PRECISION) as u32)
+                    .and_then(|multiplier| mantissa.checked_mul(multiplier))
                     .map(Self::from_bits)
                     .map_or_else(|| Err(ConvertError::new("too big mantissa")), Ok)
             }
-- 
2.43.0


From d15071ca243c0584fdd8974102853dce65241b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:32 +0000
Subject: [PATCH 05/11] fix: out-of-bounds write and wrong sign while
 formatting the longest values of precision 0

---
 src/string.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/string.rs b/src/string.rs
index 6e59efc..c5ff677 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -108,7 +108,7 @@ macro_rules! impl_for {
                     let _ = buf.push('-');
                 }
 
-                let integral = (self.inner / Self::COEF).abs();
+                let integral = (self.inner / Self::COEF).unsigned_abs();
                 let fractional = (self.inner % Self::COEF).abs();
 
                 let _ = buf.push_str(fmt.format(integral));
@@ -127,9 +127,9 @@ macro_rules! impl_for {
 }
 
 // Serialize as a string in case of human readable formats.
-// The maximum length can be calculated as `len(str(-2**bits)) + 1`,
-// where `1` is reserved for `.` after integral part.
-const MAX_LEN: usize = if cfg!(feature = "i128") { 41 } else { 21 };
+// The maximum length can be calculated as `len(str(-2**bits)) + 2`,
+// where `2` is reserved for `.0` after integral part.
+const MAX_LEN: usize = if cfg!(feature = "i128") { 42 } else { 22 };
 
 // TODO: try `staticvec` after stabilization.
 // Now it works faster than `arrayvec`.
-- 
2.43.0


From 26fb4e502d0fd6296aa6ba29ffb7f7930bd8f256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:32 +0000
Subject: [PATCH 06/11] fix: parse fractional numbers with precision 0

---
 src/string.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/string.rs b/src/string.rs
index c5ff677..3b0ed42 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -61,6 +61,10 @@ macro_rules! impl_for {
                     }
                 }
 
+                if fractional_str.is_empty() {
+                    return Err(ConvertError::new("can't parse fractional part"));
+                }
+
                 let round = if !EXACT && fractional_str.len() > prec {
                     let extra = fractional_str.as_bytes()[prec];
                     fractional_str = &fractional_str[..prec];
@@ -78,9 +82,14 @@ macro_rules! impl_for {
 
                 debug_assert!(exp <= Self::COEF);
 
-                let fractional: $layout = fractional_str
-                    .parse()
-                    .map_err(|_| ConvertError::new("can't parse fractional part"))?;
+                // It's empty if the fractional part is rounded off entirely.
+                let fractional: $layout = if fractional_str.is_empty() {
+                    0
+                } else {
+                    fractional_str
+                        .parse()
+                        .map_err(|_| ConvertError::new("can't parse fractional part"))?
+                };
 
                 let final_integral = integral
                     .checked_mul(Self::COEF)
-- 
2.43.0


From 399006fde919aa4c669e32f193b0795d0cf8b08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:32 +0000
Subject: [PATCH 07/11] fix: convert f64 to MIN

---
 src/float.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/float.rs b/src/float.rs
index e833677..59a192a 100644
--- a/src/float.rs
+++ b/src/float.rs
@@ -168,6 +168,11 @@ macro_rules! impl_try_from_f64 {
                     bits = rdiv_by_exponent_10(bits, (-Self::PRECISION - exponent10) as u32);
                 }
 
+                // `MIN` has no positive counterpart.
+                if !positive && bits == $layout::MIN.unsigned_abs() as u128 {
+                    return Ok(Self::from_bits($layout::MIN));
+                }
+
                 let bits: $layout = bits
                     .try_into()
                     .map_err(|_| ConvertError::new("too big number"))?;
-- 
2.43.0


From 735a808c2b1333deac8c5f5d8a4a35c36d8c9e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:32 +0000
Subject: [PATCH 08/11] fix: overflows in rmul, integral and formatting with
 the maximal precision

---
 src/lib.rs    | 9 +++++----
 src/string.rs | 4 ++--
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1c92856..effdfdf 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -246,7 +246,6 @@ macro_rules! impl_fixed_point {
             pub const EPSILON: Self = Self::from_bits(1);
 
             const COEF: $layout = const_fn::pow10(Self::PRECISION) as _;
-            const NEG_COEF: $layout = -Self::COEF;
             const COEF_PROMOTED: $promotion = $convert(Self::COEF) as _;
         }
 
@@ -289,8 +288,9 @@ macro_rules! impl_fixed_point {
                 let sign = self.inner.signum() * rhs.inner.signum();
 
                 let add_signed_one = if mode == RoundMode::Nearest {
-                    sign as i32 >= 0 && loss + loss >= Self::COEF
-                                     || loss + loss <= Self::NEG_COEF
+                    // `loss + loss >= COEF`, but without overflow.
+                    let loss_abs = loss.abs();
+                    loss_abs >= Self::COEF - loss_abs
                 } else {
                     loss != 0 && mode as i32 == sign as i32
                 };
@@ -504,7 +504,8 @@ macro_rules! impl_fixed_point {
                 let (mut int, frac) = (self.inner / Self::COEF, (self.inner % Self::COEF).abs());
 
                 let add_signed_one = if mode == RoundMode::Nearest {
-                    frac + frac >= Self::COEF
+                    // `frac + frac >= COEF`, but without overflow.
+                    frac >= Self::COEF - frac
                 } else {
                     mode as i32 == sign as i32 && frac > 0
                 };
diff --git a/src/string.rs b/src/string.rs
index 3b0ed42..61969dc 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -118,13 +118,13 @@ macro_rules! impl_for {
                 }
 
                 let integral = (self.inner / Self::COEF).unsigned_abs();
-                let fractional = (self.inner % Self::COEF).abs();
+                let fractional = (self.inner % Self::COEF).unsigned_abs();
 
                 let _ = buf.push_str(fmt.format(integral));
                 let _ = buf.push('.');
 
                 if fractional > 0 {
-                    let fractional_with_leading_one = fractional + Self::COEF;
+                    let fractional_with_leading_one = fractional + Self::COEF.unsigned_abs();
                     let s = &fmt.format(fractional_with_leading_one)[1..];
                     let _ = buf.push_str(s.trim_end_matches('0'));
                 } else {
-- 
2.43.0


From 5878aa11236aa05742b3dbce472d3dec1136e44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:03 +0000
Subject: [PATCH 09/11] fix: literals out of range were silently wrapped in
 release builds, MIN was rejected in debug ones

---
 src/const_fn.rs | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/src/const_fn.rs b/src/const_fn.rs
index 997ac30..af4fa6d 100644
--- a/src/const_fn.rs
+++ b/src/const_fn.rs
@@ -13,6 +13,21 @@ macro_rules! const_assert {
     };
 }
 
+// Overflow must be checked explicitly, it's not checked in release builds otherwise.
+const fn add(a: Int, b: Int) -> Int {
+    match a.checked_add(b) {
+        Some(result) => result,
+        None => panic!("too big number"),
+    }
+}
+
+const fn mul(a: Int, b: Int) -> Int {
+    match a.checked_mul(b) {
+        Some(result) => result,
+        None => panic!("too big number"),
+    }
+}
+
 pub const fn pow10(power: i32) -> Int {
     const POW_10: [Int; 19] = [
         1,
@@ -44,7 +59,7 @@ pub const fn pow10(power: i32) -> Int {
     let mut i = power - POW_10.len() as i32 + 1;
 
     while i > 0 {
-        result *= 10;
+        result = mul(result, 10);
         i -= 1;
     }
 
@@ -70,20 +85,18 @@ const fn parse_digit(byte: u8) -> Int {
     digit as _
 }
 
-const fn parse_int(bytes: &[u8], start: usize, end: usize) -> Int {
+const fn parse_int(bytes: &[u8], start: usize, end: usize, signum: Int) -> Int {
     let mut result: Int = 0;
     let mut i = start;
 
     while i < end {
-        let digit = parse_digit(bytes[i]);
+        result = add(mul(result, 10), signum * parse_digit(bytes[i]));
         i += 1;
-        result += digit * pow10((end - i) as i32);
     }
 
     result
 }
 
-// TODO: check overflow explicitly.
 pub const fn parse_fixed(str: &str, coef: Int) -> Int {
     let bytes = str.as_bytes();
     let signum = if bytes[0] == b'-' { -1 } else { 1 };
@@ -97,20 +110,20 @@ pub const fn parse_fixed(str: &str, coef: Int) -> Int {
     let point = match find(bytes, b'.') {
         Some(point) => point,
         None => {
-            let integral = parse_int(bytes, start, bytes.len());
-            return signum * integral * coef;
+            let integral = parse_int(bytes, start, bytes.len(), signum);
+            return mul(integral, coef);
         }
     };
 
-    let integral = parse_int(bytes, start, point);
+    let integral = parse_int(bytes, start, point, signum);
     let exp = pow10((bytes.len() - point - 1) as i32);
     const_assert!(exp <= coef);
 
-    let fractional = parse_int(bytes, point + 1, bytes.len());
-    let final_integral = integral * coef;
-    let final_fractional = coef / exp * fractional;
+    let fractional = parse_int(bytes, point + 1, bytes.len(), signum);
+    let final_integral = mul(integral, coef);
+    let final_fractional = mul(coef / exp, fractional);
 
-    signum * (final_integral + final_fractional)
+    add(final_integral, final_fractional)
 }
 
 #[test]
-- 
2.43.0


From 6842efd4c591e58b1758001ca1920fd19c3da146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:37 +0000
Subject: [PATCH 10/11] fix: fixnum_const! and fixnum! truncated literals that
 don't fit the layout

---
 src/macros.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/macros.rs b/src/macros.rs
index 34ab741..776f585 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -181,7 +181,9 @@ macro_rules! fixnum_const {
         use $crate::FixedPoint;
         use $crate::_priv::*;
         const VALUE_INNER: Int = parse_fixed(stringify!($value), pow10($precision));
-        FixedPoint::from_bits(VALUE_INNER as _)
+        let inner = VALUE_INNER as _;
+        assert!(inner as Int == VALUE_INNER, "too big number");
+        FixedPoint::from_bits(inner)
     }};
 }
 
-- 
2.43.0


From b7413293a8a2da5e6dc060b2366645763266ea4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:54 +0000
Subject: [PATCH 11/11] fix: serde::str and str_option couldn't be deserialized
 from non-borrowed strings

---
 src/serde.rs | 76 ++++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 59 insertions(+), 17 deletions(-)

diff --git a/src/serde.rs b/src/serde.rs
index a233906..22182ac 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -228,13 +228,35 @@ pub mod str {
         D: Deserializer<'de>,
         FixedPoint<I, P>: FromStr,
     {
-        let s = <&str>::deserialize(deserializer)?;
-        s.parse().map(F::from).map_err(|_| {
-            D::Error::invalid_value(
-                de::Unexpected::Str(s),
-                &"string containing a fixed-point number",
-            )
-        })
+        deserializer
+            .deserialize_str(StrVisitor(PhantomData))
+            .map(F::from)
+    }
+
+    // The text isn't always borrowed from the input (e.g. if the source is a reader).
+    struct StrVisitor<I, P>(PhantomData<(I, P)>);
+
+    impl<I, P> de::Visitor<'_> for StrVisitor<I, P>
+    where
+        FixedPoint<I, P>: FromStr,
+    {
+        type Value = FixedPoint<I, P>;
+
+        fn expecting(&self, formatter: &mut fmt::Formatter<'_>) -> fmt::Result {
+            formatter.write_str("string containing a fixed-point number")
+        }
+
+        fn visit_str<E: de::Error>(self, s: &str) -> Result<Self::Value, E> {
+            s.parse()
+                .map_err(|_| E::invalid_value(de::Unexpected::Str(s), &self))
+        }
+
+        fn visit_bytes<E: de::Error>(self, bytes: &[u8]) -> Result<Self::Value, E> {
+            match core::str::from_utf8(bytes) {
+                Ok(s) => self.visit_str(s),
+                Err(_) => Err(E::invalid_value(de::Unexpected::Bytes(bytes), &self)),
+            }
+        }
     }
 }
 
@@ -265,16 +287,36 @@ pub mod str_option {
         D: Deserializer<'de>,
         FixedPoint<I, P>: FromStr,
     {
-        let s = Option::<&str>::deserialize(deserializer)?;
-        s.map(|s| {
-            s.parse().map(F::from).map_err(|_| {
-                D::Error::invalid_value(
-                    de::Unexpected::Str(s),
-                    &"string containing a fixed-point number",
-                )
-            })
-        })
-        .transpose()
+        deserializer.deserialize_option(OptionVisitor(PhantomData))
+    }
+
+    struct OptionVisitor<F, I, P>(PhantomData<(F, I, P)>);
+
+    impl<'de, F, I, P> de::Visitor<'de> for OptionVisitor<F, I, P>
+    where
+        F: From<FixedPoint<I, P>>,
+        FixedPoint<I, P>: FromStr,
+    {
+        type Value = Option<F>;
+
+        fn expecting(&self, formatter: &mut fmt::Formatter<'_>) -> fmt::Result {
+            formatter.write_str("optional string containing a fixed-point number")
+        }
+
+        fn visit_none<E: de::Error>(self) -> Result<Self::Value, E> {
+            Ok(None)
+        }
+
+        fn visit_unit<E: de::Error>(self) -> Result<Self::Value, E> {
+            Ok(None)
+        }
+
+        fn visit_some<D>(self, deserializer: D) -> Result<Self::Value, D::Error>
+        where
+            D: Deserializer<'de>,
+        {
+            str::deserialize(deserializer).map(Some)
+        }
     }
 }
 
-- 
2.43.0

