From eb42a5c3dec0f3e61012c9a2f8aafb7e1bb52540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:18 +0000
Subject: [PATCH 1/6] fix: negate the rounding direction for negative overflow
 in NaN-only formats

---
 src/ieee.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ieee.rs b/src/ieee.rs
index 8b1d67b..856fbe8 100644
--- a/src/ieee.rs
+++ b/src/ieee.rs
@@ -2097,6 +2097,7 @@ impl<S: Semantics> IeeeFloat<S> {
             && self.exp == Self::NAN.exp
             && [self.sig[0] & S::NAN_SIGNIFICAND_BASE] == Self::NAN.sig
         {
+            let round = round.negate_if(self.is_negative());
             return Self::overflow_result(round).map(|r| r.copy_sign(self));
         }
 
@@ -2145,6 +2146,7 @@ impl<S: Semantics> IeeeFloat<S> {
                 && self.exp == Self::NAN.exp
                 && [self.sig[0] & S::NAN_SIGNIFICAND_BASE] == Self::NAN.sig
             {
+                let round = round.negate_if(self.is_negative());
                 return Self::overflow_result(round).map(|r| r.copy_sign(self));
             }
         }
-- 
2.43.0


From c9150d800747eb14cca7ad7f2671a7863c60b8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:18 +0000
Subject: [PATCH 2/6] fix: convert non-negative values to 1-bit signed integers
 without a shift overflow

---
 src/ieee.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ieee.rs b/src/ieee.rs
index 856fbe8..0c6539e 100644
--- a/src/ieee.rs
+++ b/src/ieee.rs
@@ -1681,7 +1681,7 @@ impl<S: Semantics> Float for IeeeFloat<S> {
             0
         } else {
             // Largest unsigned integer of the given width.
-            !0 >> (128 - width)
+            (!0u128).checked_shr((128 - width) as u32).unwrap_or(0)
         };
 
         *is_exact = false;
-- 
2.43.0


From 0d8a947e4d1a928f434a3897e358f1a62fa2bba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:33 +0000
Subject: [PATCH 3/6] fix: borrow for the lost fraction only when it is
 subtracted

---
 src/ieee.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/ieee.rs b/src/ieee.rs
index 0c6539e..6927103 100644
--- a/src/ieee.rs
+++ b/src/ieee.rs
@@ -3021,24 +3021,29 @@ mod sig {
                 loss = shift_right(a_sig, a_exp, (-bits - 1) as usize);
                 shift_left(b_sig, &mut 0, 1);
             }
-
-            let borrow = (loss != Loss::ExactlyZero) as Limb;
+            let loss_is_from_b = bits > 0;
 
             // Should we reverse the subtraction.
-            if cmp(a_sig, b_sig) == Ordering::Less {
-                // The code above is intended to ensure that no borrow is necessary.
+            let reverse = cmp(a_sig, b_sig) == Ordering::Less;
+
+            // A lost fraction is only subtracted (instead of added) when it comes
+            // from the subtrahend, in which case it has to be borrowed for.
+            let loss_is_subtracted = loss_is_from_b != reverse;
+            let borrow = (loss != Loss::ExactlyZero && loss_is_subtracted) as Limb;
+
+            // The code above is intended to ensure that no borrow is necessary.
+            if reverse {
                 assert_eq!(sub(b_sig, a_sig, borrow), 0);
                 a_sig.copy_from_slice(b_sig);
                 *a_sign = !*a_sign;
             } else {
-                // The code above is intended to ensure that no borrow is necessary.
                 assert_eq!(sub(a_sig, b_sig, borrow), 0);
             }
 
-            // Invert the lost fraction - it was on the RHS and subtracted.
+            // Invert the lost fraction, if it was subtracted.
             match loss {
-                Loss::LessThanHalf => Loss::MoreThanHalf,
-                Loss::MoreThanHalf => Loss::LessThanHalf,
+                Loss::LessThanHalf if loss_is_subtracted => Loss::MoreThanHalf,
+                Loss::MoreThanHalf if loss_is_subtracted => Loss::LessThanHalf,
                 _ => loss,
             }
         } else {
-- 
2.43.0


From 21a87f1c5ab526c170e6654e0a8d1cf13e46fb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:55 +0000
Subject: [PATCH 4/6] fix: a fully cancelled fused multiply-add below the
 denormal range is tiny

---
 src/ieee.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ieee.rs b/src/ieee.rs
index 6927103..5dc7de4 100644
--- a/src/ieee.rs
+++ b/src/ieee.rs
@@ -2088,6 +2088,10 @@ impl<S: Semantics> IeeeFloat<S> {
                 // Keep OMSB up-to-date.
                 omsb = omsb.saturating_sub(exp_change);
             }
+        } else if loss != Loss::ExactlyZero && self.exp < S::MIN_EXP {
+            // All of the significand cancelled out, and the lost fraction is one
+            // of a bit that is itself worth less than half of the smallest denormal.
+            loss = Loss::LessThanHalf;
         }
 
         // NOTE(eddyb) for `NonfiniteBehavior::NanOnly`, the unique `NAN` takes up
-- 
2.43.0


From a66c6400b2152c3f2496535db1b07d3c66621369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:35 +0000
Subject: [PATCH 5/6] fix: report the conversion of negative zero to a signed
 integer as inexact

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index a1821d7..0913981 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -377,11 +377,11 @@ pub trait Float:
     fn to_i128_r(self, width: usize, round: Round, is_exact: &mut bool) -> StatusAnd<i128> {
         let status;
         if self.is_negative() {
+            let r = unpack!(status=, (-self).to_u128_r(width, -round, is_exact));
             if self.is_zero() {
                 // Negative zero can't be represented as an int.
                 *is_exact = false;
             }
-            let r = unpack!(status=, (-self).to_u128_r(width, -round, is_exact));
 
             // Check for values that don't fit in the signed integer.
             if r > (1 << (width - 1)) {
-- 
2.43.0


From 146a3ecd0aa02be9047d7905f73279b6bcdf0779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:18 +0000
Subject: [PATCH 6/6] fix: a requested precision of zero digits no longer
 panics in Display

---
 src/ieee.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ieee.rs b/src/ieee.rs
index 5dc7de4..0f80cef 100644
--- a/src/ieee.rs
+++ b/src/ieee.rs
@@ -575,7 +575,8 @@ impl<S: Semantics> fmt::Display for IeeeFloat<S> {
         // we can print fewer digits depending on the actual value being printed.
 
         // precision = 2 + floor(S::PRECISION / lg_2(10))
-        let precision = f.precision().unwrap_or(2 + S::PRECISION * 59 / 196);
+        // (a requested precision of zero digits also means that many, as upstream)
+        let precision = f.precision().filter(|&p| p != 0).unwrap_or(2 + S::PRECISION * 59 / 196);
 
         // Decompose the number into an APInt and an exponent.
         let mut exp = self.exp - (S::PRECISION as ExpInt - 1);
-- 
2.43.0

