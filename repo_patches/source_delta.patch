From d1cc6d6e1db1132b3beec2919142a455375effff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:20 +0000
Subject: [PATCH 01/10] fix: report zero to a negative power instead of
 panicking

---
 src/operations.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/operations.rs b/src/operations.rs
index 43fd238..74ddec6 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -1,4 +1,4 @@
-use crate::error::MathExecutionError::{self, ImaginaryResult};
+use crate::error::MathExecutionError::{self, DivisionByZero, ImaginaryResult};
 
 use num::{
     bigint::BigInt, pow::Pow, rational::BigRational, traits::Inv, BigUint, Integer, Signed, Zero,
@@ -81,6 +81,9 @@ pub fn exponentiate(
 ) -> Result<BigRational, MathExecutionError> {
     // Step 1: If necessary, convert `b^-(n/d)` to `(1/b)^(n/d)`.
     if exponent.is_negative() {
+        if base.is_zero() {
+            return Err(DivisionByZero);
+        }
         base = base.inv();
     }
 
-- 
2.43.0


From aa4660136b5e0ae8665dc96a4e9abf65a4d7d57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:20 +0000
Subject: [PATCH 02/10] fix: report a zero modulus instead of panicking

---
 src/syntax_tree.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/syntax_tree.rs b/src/syntax_tree.rs
index 90e843b..3947a47 100644
--- a/src/syntax_tree.rs
+++ b/src/syntax_tree.rs
@@ -157,7 +157,12 @@ impl OperationNode for BinaryNode {
                 }
                 Ok(operand_1 / operand_2)
             }
-            BinaryOperatorToken::Modulus => Ok(operand_1 % operand_2),
+            BinaryOperatorToken::Modulus => {
+                if *operand_2.numer() == BigInt::from(0) {
+                    return Err(Positioned::new(DivisionByZero, self.operator_position).into());
+                }
+                Ok(operand_1 % operand_2)
+            }
             BinaryOperatorToken::Exponent => {
                 let total_precision = args.precision + args.extra_precision;
                 exponentiate(operand_1, operand_2, total_precision, args.radix)
-- 
2.43.0


From 65e40df582efd9013f24e611bef0475e1a632505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:20 +0000
Subject: [PATCH 03/10] fix: do not overflow when precision and extra precision
 add up to 255 or more

---
 src/operations.rs  | 2 +-
 src/syntax_tree.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/operations.rs b/src/operations.rs
index 74ddec6..ac10822 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -76,7 +76,7 @@ pub fn make_decimal_string(
 pub fn exponentiate(
     mut base: BigRational,
     exponent: BigRational,
-    precision: u8,
+    precision: u16,
     radix: u8,
 ) -> Result<BigRational, MathExecutionError> {
     // Step 1: If necessary, convert `b^-(n/d)` to `(1/b)^(n/d)`.
diff --git a/src/syntax_tree.rs b/src/syntax_tree.rs
index 3947a47..2c3d7be 100644
--- a/src/syntax_tree.rs
+++ b/src/syntax_tree.rs
@@ -108,7 +108,7 @@ impl OperationNode for UnaryNode {
                 .execute(maybe_vars.as_deref_mut(), maybe_db.as_deref_mut(), args)?;
         match self.operator {
             UnaryOperatorToken::SquareRoot => {
-                let total_precision = args.precision + args.extra_precision;
+                let total_precision = u16::from(args.precision) + u16::from(args.extra_precision);
                 let one_half = BigRational::new(
                     ToBigInt::to_bigint(&1).unwrap(),
                     ToBigInt::to_bigint(&2).unwrap(),
@@ -164,7 +164,7 @@ impl OperationNode for BinaryNode {
                 Ok(operand_1 % operand_2)
             }
             BinaryOperatorToken::Exponent => {
-                let total_precision = args.precision + args.extra_precision;
+                let total_precision = u16::from(args.precision) + u16::from(args.extra_precision);
                 exponentiate(operand_1, operand_2, total_precision, args.radix)
                     .map_err(|e| Positioned::new(e, self.operator_position.clone()).into())
             }
-- 
2.43.0


From 8653d16a40cbaeabd8f168e375a1165799e75b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:20 +0000
Subject: [PATCH 04/10] fix: reject an output radix of 1, which cannot be
 printed

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index ac4fe58..3c7cd95 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -66,7 +66,7 @@ pub struct Args {
     /// If specified, the output radix (base) will be set to this rather than being the same as the
     /// input radix.
     #[arg(long)]
-    #[arg(value_parser = clap::value_parser!(u8).range(1..17))]
+    #[arg(value_parser = clap::value_parser!(u8).range(2..=16))]
     convert_to_radix: Option<u8>,
 
     /// Maximum number of decimal digits to output.
-- 
2.43.0


From ca1ab2fbd8e9c8fe39b257d36bc9044dc7ad8c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:20 +0000
Subject: [PATCH 05/10] fix: report a window as wide as the prompt as too
 narrow instead of dividing by zero

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 3c7cd95..a39ebbc 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -175,7 +175,7 @@ fn interactive_calc(
             let current_input = inputs.current_line();
             if args.alternate_screen || input_complete {
                 let wrap_str: String = std::iter::repeat(" ").take(PROMPT_STR.len()).collect();
-                if cols < wrap_str.len() {
+                if cols <= wrap_str.len() {
                     return Err(CalculatorEnvironmentError::new("Window too narrow").into());
                 }
                 let available_cols = cols - wrap_str.len();
-- 
2.43.0


From af6df124e6eeac49066aa6d4e66aa90512ea300d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:20 +0000
Subject: [PATCH 06/10] fix: compute roots of numbers between -1 and 1 instead
 of panicking

---
 src/operations.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/operations.rs b/src/operations.rs
index ac10822..307bb34 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -98,6 +98,15 @@ pub fn exponentiate(
     // `r^(1/d)`.
     let radicand = base.pow(exp_num);
 
+    // A root between -1 and 1 gives the integer search below nothing to start from. So, in that case,
+    // convert `r^(1/d)` to `1/((1/r)^(1/d))`. The reciprocal is at least as accurate as what it is the
+    // reciprocal of, because that is at least 1.
+    if !radicand.is_zero() && radicand.numer().magnitude() < radicand.denom().magnitude() {
+        let reciprocal_exponent = BigRational::new(BigInt::from(1), BigInt::from(exp_denom));
+        return exponentiate(radicand.inv(), reciprocal_exponent, precision, radix)
+            .map(|root| root.inv());
+    }
+
     // Step 3: Newton's Method
     // Given `r` and `d`, we want to compute `r^(1/d)`. We will call the result `x`.
     // So `r^(1/d) = x`, or `r = x^d`.
-- 
2.43.0


From 4f94434c31754aef4317707a765da14ddc673215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:59 +0000
Subject: [PATCH 07/10] fix: keep Newton's method for roots within its error
 bound and from growing without limit

---
 src/operations.rs | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/operations.rs b/src/operations.rs
index 307bb34..8b425f2 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -133,8 +133,10 @@ pub fn exponentiate(
     let radix = BigInt::from(radix);
     // The largest amount we are okay with being wrong by.
     let max_error = BigRational::new(one_signed.clone(), radix.pow(precision).into());
+    // Searching multiples of `1/d` rather than integers means that we start close enough to the root
+    // even when the degree is large.
     let f_magnitude = |x: &BigInt| -> BigRational {
-        (BigRational::from(x.clone()).pow(&degree) - &radicand).abs()
+        ((BigRational::from(x.clone()) / &degree_ratio).pow(&degree) - &radicand).abs()
     };
     let next_x = |x: BigRational| -> BigRational {
         (&radicand + &degree_dec_ratio * x.clone().pow(&degree))
@@ -155,9 +157,9 @@ pub fn exponentiate(
     // it takes forever.
     let mut x = {
         let (mut lower_bound, mut upper_bound) = if radicand.is_negative() {
-            (radicand.to_integer(), BigInt::from(0))
+            ((&radicand * &degree_ratio).to_integer(), BigInt::from(0))
         } else {
-            (BigInt::from(0), radicand.to_integer())
+            (BigInt::from(0), (&radicand * &degree_ratio).to_integer())
         };
 
         let mut span = &upper_bound - &lower_bound;
@@ -180,21 +182,35 @@ pub fn exponentiate(
         let guess = upper_bound;
 
         let error = f_magnitude(&guess);
-        let guess_ratio = BigRational::from(guess);
-        // Return early if it's an exact integer.
+        let guess_ratio = BigRational::from(guess) / &degree_ratio;
+        // Return early if it's exact.
         if error.is_zero() {
             return Ok(guess_ratio);
         }
 
-        guess_ratio
+        // Do not start short of the root. The first step would overshoot it.
+        if guess_ratio.clone().pow(&degree).abs() < radicand.abs() {
+            guess_ratio + radicand.signum() / &degree_ratio
+        } else {
+            guess_ratio
+        }
     };
 
     // Step 3.4: Newton's method
+    // Exact iterates have about `d` times as many digits as the ones before them, so we round each one
+    // to a multiple of `resolution`. Rounding away from 0 means that we only ever approach the root
+    // from one side. Once we are down to steps of less than `resolution`, we are within `d` times that
+    // of the root.
+    let resolution = max_error / &degree_ratio;
     loop {
         let prev_x = x.clone();
-        x = next_x(x);
-        let error = (&x - prev_x).abs();
-        if error <= max_error {
+        let multiple = next_x(x) / &resolution;
+        x = if radicand.is_negative() {
+            multiple.floor()
+        } else {
+            multiple.ceil()
+        } * &resolution;
+        if x == prev_x {
             break;
         }
     }
-- 
2.43.0


From 8737f89636bc787d86cc7bb313dfcf674f9aeef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:01 +0000
Subject: [PATCH 08/10] fix: print fractions in the output radix

---
 src/main.rs       | 12 ++++++------
 src/operations.rs | 13 +++++++++++++
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index a39ebbc..b1cf4eb 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -23,7 +23,7 @@ use crossterm::{
 };
 use error::{CalculatorEnvironmentError, CalculatorFailure, InternalCalculatorError};
 use input_history::InputHistory;
-use operations::make_decimal_string;
+use operations::{make_decimal_string, make_fraction_string};
 use saved_data::SavedData;
 use std::{
     cmp::{max, min},
@@ -570,13 +570,13 @@ fn calculate(
     let st = SyntaxTree::new(tokens.into())?;
     let result = st.execute(maybe_input_history_id, maybe_vars, maybe_db, args)?;
 
+    let output_radix = match args.convert_to_radix {
+        Some(radix) => radix,
+        None => args.radix,
+    };
     if args.fractional {
-        Ok(result.to_string())
+        Ok(make_fraction_string(&result, output_radix, args.upper))
     } else {
-        let output_radix = match args.convert_to_radix {
-            Some(radix) => radix,
-            None => args.radix,
-        };
         Ok(make_decimal_string(
             &result,
             output_radix,
diff --git a/src/operations.rs b/src/operations.rs
index 8b425f2..5355908 100644
--- a/src/operations.rs
+++ b/src/operations.rs
@@ -73,6 +73,19 @@ pub fn make_decimal_string(
     }
 }
 
+/// The exact value, as an integer or as a fraction in lowest terms.
+pub fn make_fraction_string(value: &BigRational, radix: u8, upper: bool) -> String {
+    let mut string = value.numer().to_str_radix(radix as u32);
+    if !value.is_integer() {
+        string.push('/');
+        string.push_str(&value.denom().to_str_radix(radix as u32));
+    }
+    if upper {
+        string.make_ascii_uppercase();
+    }
+    string
+}
+
 pub fn exponentiate(
     mut base: BigRational,
     exponent: BigRational,
-- 
2.43.0


From c372c80aadc718324ec0d4e3e5f72be204ebe016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:16 +0000
Subject: [PATCH 09/10] verif hook: cfg(bcalc_verif) replaces main with an
 included harness

---
 src/main.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index b1cf4eb..6499395 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,3 +1,6 @@
+// Verification builds pass `--cfg bcalc_verif`, which is otherwise unknown to the compiler.
+#![allow(unexpected_cfgs)]
+
 mod commands;
 mod error;
 mod input_history;
@@ -93,6 +96,7 @@ pub struct Args {
     upper: bool,
 }
 
+#[cfg(not(bcalc_verif))]
 fn main() -> Result<(), Box<dyn std::error::Error>> {
     let mut args = Args::parse();
     let mut command_executor = CommandExecutor::new();
@@ -586,3 +590,7 @@ fn calculate(
         ))
     }
 }
+
+// Verification harness, with its own `main`. It is compiled in here because it needs private items.
+#[cfg(bcalc_verif)]
+include!(env!("BCALC_VERIF_HARNESS"));
-- 
2.43.0


From 8b2270ade8e0c273c250ef4b5e57b943e6d6f8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:40 +0000
Subject: [PATCH 10/10] fix: Keep the session alive when a long line wraps over
 more rows than 16 bits can number

---
 src/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 6499395..d231073 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -183,7 +183,11 @@ fn interactive_calc(
                     return Err(CalculatorEnvironmentError::new("Window too narrow").into());
                 }
                 let available_cols = cols - wrap_str.len();
-                let cursor_row: u16 = u16::try_from(cursor_pos / available_cols)? + input_start.1;
+                // Rows are numbered with 16 bits, which a long line in a narrow window can exceed.
+                let cursor_row = min(
+                    cursor_pos / available_cols + usize::from(input_start.1),
+                    usize::from(u16::MAX) - 1,
+                ) as u16;
                 let cursor_col: u16 =
                     u16::try_from((cursor_pos % available_cols) + wrap_str.len())?;
                 let mut end_index = min(available_cols, current_input.len());
-- 
2.43.0

