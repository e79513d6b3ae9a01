From 1d091f429319562fe8787cb797b9479e3790e079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:51 +0000
Subject: [PATCH 01/51] fix: symbolic Sub, Mul and Div of Expressions apply
 their own operator

---
 doctor-syn/src/expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doctor-syn/src/expression.rs b/doctor-syn/src/expression.rs
index 32a8bc8..bfd70d6 100644
--- a/doctor-syn/src/expression.rs
+++ b/doctor-syn/src/expression.rs
@@ -206,7 +206,7 @@ macro_rules! make_op {
             } else {
                 let lhs = lhs.as_ref();
                 let rhs = rhs.as_ref();
-                let res : Expr = parse_quote!((#lhs) + (#rhs));
+                let res : Expr = parse_quote!((#lhs) $op (#rhs));
                 res.into()
             }
         }
-- 
2.43.0


From 5937ad8cb59643f4e5ddea5009b07f3141bc9dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:51 +0000
Subject: [PATCH 02/51] fix: paren() no longer prints to stdout for every unary
 operator

---
 doctor-syn/src/transformation/paren.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/doctor-syn/src/transformation/paren.rs b/doctor-syn/src/transformation/paren.rs
index 4d9ef23..9e7ccdc 100644
--- a/doctor-syn/src/transformation/paren.rs
+++ b/doctor-syn/src/transformation/paren.rs
@@ -26,7 +26,6 @@ impl Visitor for Paren {
                 make_binary(left, op, right)
             }
             Expr::Unary(ExprUnary { op, expr, .. }) => {
-                println!("HERE");
                 let expr = parenthesise_op(*expr.clone());
                 make_unary(op, expr)
             }
-- 
2.43.0


From fd833ef618b1cce5662d03dbad5be7b9659d32fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:51 +0000
Subject: [PATCH 03/51] fix: 64-bit hex literals are rebuilt with
 f64::from_bits

---
 doctor-syn/src/transformation/use_number_type.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/doctor-syn/src/transformation/use_number_type.rs b/doctor-syn/src/transformation/use_number_type.rs
index ee59430..31ea71f 100644
--- a/doctor-syn/src/transformation/use_number_type.rs
+++ b/doctor-syn/src/transformation/use_number_type.rs
@@ -23,7 +23,7 @@ impl<'a> Visitor for UseNumberType<'a> {
                     ("decimal", 32) => parse_quote!(#float32),
                     ("decimal", 64) => parse_quote!(#float64),
                     ("hex", 32) => parse_quote!(f32::from_bits(#bits32)),
-                    ("hex", 64) => parse_quote!(f32::from_bits(#bits64)),
+                    ("hex", 64) => parse_quote!(f64::from_bits(#bits64)),
                     _ => expr.clone().into(),
                 };
                 Ok(e)
@@ -38,7 +38,7 @@ impl<'a> Visitor for UseNumberType<'a> {
                     ("decimal", 32) => parse_quote!(#float32),
                     ("decimal", 64) => parse_quote!(#float64),
                     ("hex", 32) => parse_quote!(f32::from_bits(#bits32)),
-                    ("hex", 64) => parse_quote!(f32::from_bits(#bits64)),
+                    ("hex", 64) => parse_quote!(f64::from_bits(#bits64)),
                     _ => expr.clone().into(),
                 };
                 Ok(e)
-- 
2.43.0


From ac861961a8a4910df525160e54b80dd741d17684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:47 +0000
Subject: [PATCH 04/51] fix: use_number_type converts a literal to the nearest
 float of the requested width

---
 .../src/transformation/use_number_type.rs     | 25 ++++++++++---------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/doctor-syn/src/transformation/use_number_type.rs b/doctor-syn/src/transformation/use_number_type.rs
index 31ea71f..f9373e3 100644
--- a/doctor-syn/src/transformation/use_number_type.rs
+++ b/doctor-syn/src/transformation/use_number_type.rs
@@ -1,6 +1,5 @@
-use crate::error::Result;
+use crate::error::{Error, Result};
 use crate::visitor::Visitor;
-use bigdecimal::*;
 use syn::{parse_quote, Expr, ExprLit, Lit};
 
 #[derive(Debug)]
@@ -14,12 +13,13 @@ impl<'a> Visitor for UseNumberType<'a> {
     fn visit_lit(&self, expr: &ExprLit) -> Result<Expr> {
         match &expr.lit {
             Lit::Float(lit) => {
-                let bd: BigDecimal = lit.base10_digits().parse().unwrap();
-                let float32 = bd.to_f32().unwrap();
-                let float64 = bd.to_f64().unwrap();
-                let bits32 = bd.to_f32().unwrap().to_bits();
-                let bits64 = bd.to_f64().unwrap().to_bits();
+                let float32: f32 = lit.base10_parse()?;
+                let float64: f64 = lit.base10_parse()?;
+                let bits32 = float32.to_bits();
+                let bits64 = float64.to_bits();
                 let e: Expr = match (self.number_type, self.num_bits) {
+                    ("decimal", 32) if float32.is_infinite() => return Err(Error::Overflow),
+                    ("decimal", 64) if float64.is_infinite() => return Err(Error::Overflow),
                     ("decimal", 32) => parse_quote!(#float32),
                     ("decimal", 64) => parse_quote!(#float64),
                     ("hex", 32) => parse_quote!(f32::from_bits(#bits32)),
@@ -29,12 +29,13 @@ impl<'a> Visitor for UseNumberType<'a> {
                 Ok(e)
             }
             Lit::Int(lit) => {
-                let bd: BigDecimal = lit.base10_digits().parse().unwrap();
-                let float32 = bd.to_f32().unwrap();
-                let float64 = bd.to_f64().unwrap();
-                let bits32 = bd.to_f32().unwrap().to_bits();
-                let bits64 = bd.to_f64().unwrap().to_bits();
+                let float32: f32 = lit.base10_parse()?;
+                let float64: f64 = lit.base10_parse()?;
+                let bits32 = float32.to_bits();
+                let bits64 = float64.to_bits();
                 let e: Expr = match (self.number_type, self.num_bits) {
+                    ("decimal", 32) if float32.is_infinite() => return Err(Error::Overflow),
+                    ("decimal", 64) if float64.is_infinite() => return Err(Error::Overflow),
                     ("decimal", 32) => parse_quote!(#float32),
                     ("decimal", 64) => parse_quote!(#float64),
                     ("hex", 32) => parse_quote!(f32::from_bits(#bits32)),
-- 
2.43.0


From 4cedc54e4a1decee5501a43be1e12d55bcde273e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:50 +0000
Subject: [PATCH 05/51] fix: round_ieee and bigdf convert between decimal and
 IEEE values exactly

---
 doctor-syn/src/bdmath.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/doctor-syn/src/bdmath.rs b/doctor-syn/src/bdmath.rs
index 05924e9..cad549f 100644
--- a/doctor-syn/src/bdmath.rs
+++ b/doctor-syn/src/bdmath.rs
@@ -86,12 +86,17 @@ pub fn bigd(i: i32) -> BigDecimal {
     BigDecimal::from_i32(i).unwrap()
 }
 
+// Every finite f64 has at most 1074 digits after the point, so this is exact.
+// At least one of them is kept to make the value print as a float.
 pub fn bigdf(i: f64) -> BigDecimal {
-    BigDecimal::from_f64(i).unwrap()
+    let digits = format!("{:.1074}", i);
+    let x = digits.parse::<BigDecimal>().unwrap().normalized();
+    let (_, scale) = x.as_bigint_and_exponent();
+    x.with_scale(scale.max(1))
 }
 
 pub fn bigdf32(i: f32) -> BigDecimal {
-    BigDecimal::from_f32(i).unwrap()
+    bigdf(i.into())
 }
 
 pub fn zero() -> BigDecimal {
@@ -335,12 +340,14 @@ pub fn dnorm(x: BigDecimal, mean: BigDecimal, sd: BigDecimal, num_digits: i64) -
 /// Round to f32 or f64.
 pub fn round_ieee(x: BigDecimal, bits: BigDecimal, _num_digits: i64) -> Result<BigDecimal> {
     match bits.to_i32() {
-        Some(32) => {
-            Ok(BigDecimal::from_f32(x.to_f32().ok_or(Error::Overflow)?).ok_or(Error::Overflow)?)
-        }
-        Some(64) => {
-            Ok(BigDecimal::from_f64(x.to_f64().ok_or(Error::Overflow)?).ok_or(Error::Overflow)?)
-        }
+        Some(32) => match x.to_string().parse::<f32>() {
+            Ok(y) if y.is_finite() => Ok(bigdf32(y)),
+            _ => Err(Error::Overflow),
+        },
+        Some(64) => match x.to_string().parse::<f64>() {
+            Ok(y) if y.is_finite() => Ok(bigdf(y)),
+            _ => Err(Error::Overflow),
+        },
         _ => Err(Error::Expected32or64bits),
     }
 }
-- 
2.43.0


From b8bc757eff41751bf63fa94a199d950a2f7b8c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:47 +0000
Subject: [PATCH 06/51] fix: Expression::from keeps every significant digit of
 f32 and f64 values

---
 doctor-syn/src/expression.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/doctor-syn/src/expression.rs b/doctor-syn/src/expression.rs
index bfd70d6..c1367c2 100644
--- a/doctor-syn/src/expression.rs
+++ b/doctor-syn/src/expression.rs
@@ -66,14 +66,15 @@ impl From<bool> for Expression {
 
 impl From<f64> for Expression {
     fn from(val: f64) -> Self {
-        let bd = BigDecimal::from_f64(val).unwrap();
+        // Debug prints the shortest digits that read back as the same value.
+        let bd: BigDecimal = format!("{:?}", val).parse().unwrap();
         Expression::from(bd)
     }
 }
 
 impl From<f32> for Expression {
     fn from(val: f32) -> Self {
-        let bd = BigDecimal::from_f32(val).unwrap();
+        let bd: BigDecimal = format!("{:?}", val).parse().unwrap();
         Expression::from(bd)
     }
 }
-- 
2.43.0


From ea743dd24a7db4b779cb72be7d89b37fb6f5f1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:29 +0000
Subject: [PATCH 07/51] fix: list every name a generated definition uses among
 its dependencies

---
 libmgen/src/functions.rs | 80 ++++++++++++++++++++--------------------
 1 file changed, 40 insertions(+), 40 deletions(-)

diff --git a/libmgen/src/functions.rs b/libmgen/src/functions.rs
index 0d5d848..8dd3753 100644
--- a/libmgen/src/functions.rs
+++ b/libmgen/src/functions.rs
@@ -94,189 +94,189 @@ pub static FUNCTIONS: &[Function] = &[
     // },
     Function {
         name: "LOG2_SHIFT",
-        deps: &[],
+        deps: &["ity"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_LOG2_SHIFT),
         test_specs: &[],
     },
     Function {
         name: "LOG2_OFFSET",
-        deps: &[],
+        deps: &["ity"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_LOG2_OFFSET),
         test_specs: &[],
     },
     Function {
         name: "NAN",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_NAN),
         test_specs: &[],
     },
     Function {
         name: "INFINITY",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_INF),
         test_specs: &[],
     },
     Function {
         name: "MIN_POSITIVE",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_MIN_POSITIVE),
         test_specs: &[],
     },
     Function {
         name: "ONE_MASK",
-        deps: &[],
+        deps: &["uty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_ONE_MASK),
         test_specs: &[],
     },
     Function {
         name: "ONE_BITS",
-        deps: &[],
+        deps: &["uty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_ONE_BITS),
         test_specs: &[],
     },
     Function {
         name: "EXP2_ONE",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_EXP2_ONE),
         test_specs: &[],
     },
     Function {
         name: "EXP2_SCALE",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_EXP2_SCALE),
         test_specs: &[],
     },
     Function {
         name: "EXP2_MIN",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_EXP2_MIN),
         test_specs: &[],
     },
     Function {
         name: "EXP2_MAX",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_EXP2_MAX),
         test_specs: &[],
     },
     Function {
         name: "ONE_THIRD",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_ONE_THIRD),
         test_specs: &[],
     },
     Function {
         name: "TWO_THIRDS",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_TWO_THIRDS),
         test_specs: &[],
     },
     Function {
         name: "PI",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_PI),
         test_specs: &[],
     },
     Function {
         name: "PI_BY_2",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_PI_BY_2),
         test_specs: &[],
     },
     Function {
         name: "TAN_PI_BY_8",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_TAN_PI_BY_8),
         test_specs: &[],
     },
     Function {
         name: "PI_BY_8",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_PI_BY_8),
         test_specs: &[],
     },
     Function {
         name: "LOG2_E",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_LOG2_E),
         test_specs: &[],
     },
     Function {
         name: "RECIP_LOG2_E",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_RECIP_LOG2_E),
         test_specs: &[],
     },
     Function {
         name: "RECIP_LOG2_10",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_RECIP_LOG2_10),
         test_specs: &[],
     },
     Function {
         name: "RECIP_PI",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_RECIP_PI),
         test_specs: &[],
     },
     Function {
         name: "RECIP_2PI",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_RECIP_2PI),
         test_specs: &[],
     },
     Function {
         name: "SQRT_RECIP_2PI",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_SQRT_RECIP_2PI),
         test_specs: &[],
     },
     Function {
         name: "negate_on_odd",
-        deps: &["fty"],
+        deps: &["fty", "uty", "ity"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_negate_on_odd),
         test_specs: &[],
     },
     Function {
         name: "recip_approx",
-        deps: &["fty"],
+        deps: &["fty", "uty", "EXP2_ONE"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_recip_approx),
         test_specs: &[],
     },
     Function {
         name: "sqrt_approx",
-        deps: &["fty", "uty"],
+        deps: &["fty", "uty", "EXP2_ONE"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_sqrt_approx),
         test_specs: &[],
     },
     Function {
         name: "cbrt_approx",
-        deps: &["fty"],
+        deps: &["fty", "uty", "EXP2_ONE"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_cbrt_approx),
         test_specs: &[],
@@ -295,21 +295,21 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "sinh",
-        deps: &["fty"],
+        deps: &["fty", "LOG2_E", "exp2"],
         num_terms: [16, 24],
         gen: Some(crate::hyperbolic::gen_sinh),
         test_specs: &[],
     },
     Function {
         name: "cosh",
-        deps: &["fty"],
+        deps: &["fty", "LOG2_E", "exp2"],
         num_terms: [16, 24],
         gen: Some(crate::hyperbolic::gen_cosh),
         test_specs: &[],
     },
     Function {
         name: "tanh",
-        deps: &["fty"],
+        deps: &["fty", "LOG2_E", "exp2"],
         num_terms: [16, 24],
         gen: Some(crate::hyperbolic::gen_tanh),
         test_specs: &[],
@@ -377,21 +377,21 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "atan",
-        deps: &["fty"],
+        deps: &["fty", "PI_BY_2"],
         num_terms: [16, 36],
         gen: Some(crate::inv_trig::gen_atan),
         test_specs: &[],
     },
     Function {
         name: "atan2",
-        deps: &["fty", "PI_BY_8", "PI_BY_2", "TAN_PI_BY_8"],
+        deps: &["fty", "PI_BY_8", "PI_BY_2", "TAN_PI_BY_8", "PI"],
         num_terms: [16, 36],
         gen: Some(crate::inv_trig::gen_atan2),
         test_specs: &[],
     },
     Function {
         name: "exp2",
-        deps: &["fty", "ity", "uty", "EXP2_SCALE", "EXP2_ONE", "EXP2_MIN", "EXP2_MAX"],
+        deps: &["fty", "ity", "uty", "EXP2_SCALE", "EXP2_ONE", "EXP2_MIN", "EXP2_MAX", "round", "INFINITY"],
         num_terms: [8, 12],
         gen: Some(crate::log_exp::gen_exp2),
         test_specs: &[
@@ -437,7 +437,7 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "exp_m1",
-        deps: &["fty", "exp2"],
+        deps: &["fty", "exp2", "round", "LOG2_E"],
         num_terms: [8, 12],
         gen: Some(crate::log_exp::gen_exp_m1),
         test_specs: &[
@@ -457,7 +457,7 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "log2",
-        deps: &["fty", "LOG2_SHIFT", "LOG2_OFFSET", "ONE_MASK", "ONE_BITS", "MIN_POSITIVE", "NAN", "INFINITY"],
+        deps: &["fty", "LOG2_SHIFT", "LOG2_OFFSET", "ONE_MASK", "ONE_BITS", "MIN_POSITIVE", "NAN", "INFINITY", "uty", "ity"],
         num_terms: [10, 20],
         gen: Some(crate::log_exp::gen_log2),
         test_specs: &[
@@ -558,7 +558,7 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "powi",
-        deps: &["fty", "log2", "exp2"],
+        deps: &["fty", "log2", "exp2", "ity", "powf"],
         num_terms: [16, 24],
         gen: Some(crate::log_exp::gen_powi),
         test_specs: &[],
@@ -572,7 +572,7 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "cbrt",
-        deps: &["fty", "ONE_THIRD", "TWO_THIRDS"],
+        deps: &["fty", "ONE_THIRD", "TWO_THIRDS", "uty", "EXP2_ONE"],
         num_terms: [16, 24],
         gen: Some(crate::recip_sqrt::gen_cbrt),
         test_specs: &[],
@@ -586,14 +586,14 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "hypot",
-        deps: &["fty"],
+        deps: &["fty", "MIN_POSITIVE"],
         num_terms: [16, 24],
         gen: Some(crate::recip_sqrt::gen_hypot),
         test_specs: &[],
     },
     Function {
         name: "runif",
-        deps: &["fty"],
+        deps: &["fty", "uty", "ONE_BITS"],
         num_terms: [0, 0],
         gen: Some(crate::stats_random::gen_runif),
         test_specs: &[
@@ -726,7 +726,7 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "tan",
-        deps: &["fty", "RECIP_PI"],
+        deps: &["fty", "RECIP_PI", "round"],
         num_terms: [12, 24],
         gen: Some(crate::trig::gen_tan),
         test_specs: &[
-- 
2.43.0


From 4d1563927f026d917be319c899c24643700a7265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:29 +0000
Subject: [PATCH 08/51] fix: declare the bit mask constants with the unsigned
 integer type

---
 libmgen/src/auxfuncs.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libmgen/src/auxfuncs.rs b/libmgen/src/auxfuncs.rs
index 551f127..640d3a6 100644
--- a/libmgen/src/auxfuncs.rs
+++ b/libmgen/src/auxfuncs.rs
@@ -49,12 +49,12 @@ pub fn gen_INF(_terms: usize, config: &Config) -> TokenStream {
 pub fn gen_ONE_BITS(_terms: usize, config: &Config) -> TokenStream {
     if config.num_bits() == 32 {
         quote!(
-            const ONE_BITS: fty = 0x3f800000_u32;
+            const ONE_BITS: uty = 0x3f800000_u32;
         )
     
     } else {
         quote!(
-            const ONE_BITS: fty = 0x3ff0000000000000_u64;
+            const ONE_BITS: uty = 0x3ff0000000000000_u64;
         )
     }
 }
@@ -63,12 +63,12 @@ pub fn gen_ONE_BITS(_terms: usize, config: &Config) -> TokenStream {
 pub fn gen_ONE_MASK(_terms: usize, config: &Config) -> TokenStream {
     if config.num_bits() == 32 {
         quote!(
-            const ONE_MASK: fty = 0x007fffff_u32;
+            const ONE_MASK: uty = 0x007fffff_u32;
         )
     
     } else {
         quote!(
-            const ONE_MASK: fty = 0x000fffffffffffff_u64;
+            const ONE_MASK: uty = 0x000fffffffffffff_u64;
         )
     }
 }
-- 
2.43.0


From 13da65a5ad6c4ca5cc8e31f43909593c59bb4ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:29 +0000
Subject: [PATCH 09/51] fix: mix the random bits of runif in 64 bits whatever
 the number width

---
 libmgen/src/stats_random.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libmgen/src/stats_random.rs b/libmgen/src/stats_random.rs
index 815c695..9b271aa 100644
--- a/libmgen/src/stats_random.rs
+++ b/libmgen/src/stats_random.rs
@@ -7,10 +7,10 @@ pub fn gen_runif(num_terms: usize, config: &Config) -> TokenStream {
         /// See https://xorshift.di.unimi.it/splitmix64.c
         /// Returns half-close range 0-1
         pub fn runif(index: usize, min: fty, max: fty) -> fty {
-            let z : uty = (index as u64 + 1).wrapping_mul(0x9e3779b97f4a7c15);
-            let z1 : uty = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
-            let z2 : uty = (z1 ^ (z1 >> 27)).wrapping_mul(0x94d049bb133111eb);
-            let z3 : uty = z2 ^ (z2 >> 31);
+            let z : u64 = (index as u64 + 1).wrapping_mul(0x9e3779b97f4a7c15);
+            let z1 : u64 = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
+            let z2 : u64 = (z1 ^ (z1 >> 27)).wrapping_mul(0x94d049bb133111eb);
+            let z3 : u64 = z2 ^ (z2 >> 31);
             let x : fty = fty::from_bits((z3 as uty >> 2) | ONE_BITS) - 1.0;
             (x * (max - min)) + min
         }
-- 
2.43.0


From 2754c347a0a0850c6e1cb85a1a0627dd9535e6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:23 +0000
Subject: [PATCH 10/51] fix: a generated accuracy test fails when the function
 returns NaN

---
 libmgen/src/auxfuncs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmgen/src/auxfuncs.rs b/libmgen/src/auxfuncs.rs
index 640d3a6..d145a45 100644
--- a/libmgen/src/auxfuncs.rs
+++ b/libmgen/src/auxfuncs.rs
@@ -450,7 +450,7 @@ pub fn gen_test_function(_terms: usize, config: &Config) -> TokenStream {
             for &(x , yref, yerr) in accurate_values {
                 let ycalc = f(x);
                 let eref = (ycalc - yref - yerr). abs ();
-                if eref > max_ref_error {
+                if eref.is_nan() || eref > max_ref_error {
                     max_ref_error = eref;
                     bad_ycalc = ycalc;
                     bad_yref = yref;
-- 
2.43.0


From e8a993b20f94fa5c7d255c4a86d65cd44de4d48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:58 +0000
Subject: [PATCH 11/51] fix: the generated histogram test passes x in the
 generated float type

---
 libmgen/src/test.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmgen/src/test.rs b/libmgen/src/test.rs
index b02762c..45f711b 100644
--- a/libmgen/src/test.rs
+++ b/libmgen/src/test.rs
@@ -118,7 +118,7 @@ fn gen_histogram(
             let dx = (#tmax - #tmin) as f64 / (#nbuckets) as f64;
             let mut max_err : f64 = 0.0;
             for i in 0..#nbuckets {
-                let x = ((i as f64 + 0.5) / #nbuckets as f64) * (#tmax - #tmin) + #tmin;
+                let x = (((i as f64 + 0.5) / #nbuckets as f64) * (#tmax - #tmin) + #tmin) as fty;
                 let pdf_est = h[i] as f64 / ((#niter) as f64 * dx);
                 let pdf_ref = (#refexpr) as f64;
                 println!("{} {} {}", x, pdf_est, pdf_ref);
-- 
2.43.0


From 1799055cc48b4b4a3135a112a57a230ad233126b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:58 +0000
Subject: [PATCH 12/51] fix: diagnostics go to stderr, not into the generated
 code on stdout

---
 libmgen/src/functions.rs | 2 +-
 libmgen/src/main.rs      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmgen/src/functions.rs b/libmgen/src/functions.rs
index 8dd3753..0e14ccb 100644
--- a/libmgen/src/functions.rs
+++ b/libmgen/src/functions.rs
@@ -28,7 +28,7 @@ pub fn get_functions_and_deps<'a>(names: &'a Vec<String>, exclude: &'a Vec<Strin
     while !stack.is_empty() {
         let name = stack.pop().unwrap();
         if exclude.contains(&name) {
-            println!("ignoring {}", name);
+            eprintln!("ignoring {}", name);
             continue;
         }
         if let Some(f) = FUNCTIONS.iter()
diff --git a/libmgen/src/main.rs b/libmgen/src/main.rs
index 173e777..4309b3f 100644
--- a/libmgen/src/main.rs
+++ b/libmgen/src/main.rs
@@ -348,7 +348,7 @@ fn generate() {
 fn main() {
     let opt = Opt::from_args();
     if opt.debug {
-        println!("opt={:?}", opt);
+        eprintln!("opt={:?}", opt);
     }
 
     if opt.functions.is_empty() {
-- 
2.43.0


From a59f066378b3b2b5df9e30192b774001112a71c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:46 +0000
Subject: [PATCH 13/51] fix: the generated test of rnorm needs dnorm

---
 libmgen/src/functions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmgen/src/functions.rs b/libmgen/src/functions.rs
index 0e14ccb..082a73c 100644
--- a/libmgen/src/functions.rs
+++ b/libmgen/src/functions.rs
@@ -654,7 +654,7 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "rnorm",
-        deps: &["fty", "runif", "qnorm"],
+        deps: &["fty", "runif", "qnorm", "dnorm"],
         num_terms: [16, 24],
         gen: Some(crate::stats_norm::gen_rnorm),
         test_specs: &[
-- 
2.43.0


From 2c2cf3898fef73b63e09c2861fb45483067ee871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:06 +0000
Subject: [PATCH 14/51] fix: powi of a negative base is not NaN

---
 libmgen/src/log_exp.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libmgen/src/log_exp.rs b/libmgen/src/log_exp.rs
index 4476b5a..81a902f 100644
--- a/libmgen/src/log_exp.rs
+++ b/libmgen/src/log_exp.rs
@@ -199,7 +199,8 @@ pub fn gen_powi(_num_terms: usize, _config: &Config) -> TokenStream {
 
             // // negative powers are reciprocals.
             // if y < 0 { b4.recip() } else { b4 }
-            powf(x, y as fty)
+            let r: fty = powf(x.abs(), y as fty);
+            if x < 0.0 && (y & 1) != 0 { -r } else { r }
         }
     )
 }
-- 
2.43.0


From adf48e9e84c55605bce89baf1eaf1e0d45be3b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:25 +0000
Subject: [PATCH 15/51] fix: scale the estimates of recip_approx, sqrt_approx
 and cbrt_approx instead of shifting them

---
 libmgen/src/auxfuncs.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libmgen/src/auxfuncs.rs b/libmgen/src/auxfuncs.rs
index d145a45..baaa68a 100644
--- a/libmgen/src/auxfuncs.rs
+++ b/libmgen/src/auxfuncs.rs
@@ -365,21 +365,21 @@ fn gen_power_scale(
 pub fn gen_recip_approx(_terms: usize, config: &Config) -> TokenStream {
     let scale = quote!(-1.0);
     let offset = quote!(2.0);
-    let correction = quote!((y - 0.08).copysign(x));
+    let correction = quote!((y * 0.94).copysign(x));
     gen_power_scale(config, quote!(recip_approx), scale, offset, correction)
 }
 
 pub fn gen_sqrt_approx(_terms: usize, config: &Config) -> TokenStream {
     let scale = quote!(0.5);
     let offset = quote!(0.5);
-    let correction = quote!(y - 0.08);
+    let correction = quote!(y * 0.98);
     gen_power_scale(config, quote!(sqrt_approx), scale, offset, correction)
 }
 
 pub fn gen_cbrt_approx(_terms: usize, config: &Config) -> TokenStream {
     let scale = quote!(1.0 / 3.0);
     let offset = quote!(2.0 / 3.0);
-    let correction = quote!((y - 0.08).copysign(x));
+    let correction = quote!((y * 0.98).copysign(x));
     gen_power_scale(config, quote!(cbrt_approx), scale, offset, correction)
 }
 
-- 
2.43.0


From 93892f8878ca75e539f0d6292cca60c6c1b33194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:32 +0000
Subject: [PATCH 16/51] fix: refine the estimates of sqrt and recip to the
 working precision

---
 libmgen/src/recip_sqrt.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libmgen/src/recip_sqrt.rs b/libmgen/src/recip_sqrt.rs
index bc91859..1dce05f 100644
--- a/libmgen/src/recip_sqrt.rs
+++ b/libmgen/src/recip_sqrt.rs
@@ -20,7 +20,10 @@ pub fn gen_sqrt(_num_terms: usize, _config: &Config) -> TokenStream {
     quote!(
         pub fn sqrt(x: fty) -> fty {
             let r: fty = sqrt_approx(x);
-            let y: fty = r + (x - r * r) / (2.0 * r);
+            let r1: fty = r + (x - r * r) / (2.0 * r);
+            let r2: fty = r1 + (x - r1 * r1) / (2.0 * r1);
+            let r3: fty = r2 + (x - r2 * r2) / (2.0 * r2);
+            let y: fty = r3 + (x - r3 * r3) / (2.0 * r3);
             y
         }
     )
@@ -70,7 +73,8 @@ pub fn gen_recip(_num_terms: usize, _config: &Config) -> TokenStream {
             let r1: fty = r * (2.0 - x * r);
             let r2: fty = r1 * (2.0 - x * r1);
             let r3: fty = r2 * (2.0 - x * r2);
-            r3
+            let r4: fty = r3 * (2.0 - x * r3);
+            r4
         }
     )
 }
-- 
2.43.0


From fa9a0b55f0e19ccb4b9773cb6f7bed0d7d15c56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:21 +0000
Subject: [PATCH 17/51] fix: --function-prefix is honoured

---
 libmgen/src/config.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libmgen/src/config.rs b/libmgen/src/config.rs
index b53b6ba..1d38354 100644
--- a/libmgen/src/config.rs
+++ b/libmgen/src/config.rs
@@ -45,7 +45,9 @@ impl Config {
     }
 
     pub fn prefix(&self) -> &str {
-        if self.language() == "c" {
+        if !self.options.function_prefix.is_empty() {
+            self.options.function_prefix.as_str()
+        } else if self.language() == "c" {
             if self.num_bits() == 32 {
                 "ds32_"
             } else {
-- 
2.43.0


From 206d87541a73e595088e564f06d781ea3845aa69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:09 +0000
Subject: [PATCH 18/51] fix: C compound assignments push one string

---
 doctor-syn/src/codegen/c.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/doctor-syn/src/codegen/c.rs b/doctor-syn/src/codegen/c.rs
index b36b0e7..a64a789 100644
--- a/doctor-syn/src/codegen/c.rs
+++ b/doctor-syn/src/codegen/c.rs
@@ -292,7 +292,6 @@ impl<'ast> Visit<'ast> for CVisitor {
 
     fn visit_expr_assign_op(&mut self, node: &'ast ExprAssignOp) {
         self.log("visit_expr_assign_op");
-        self.push("<<expr_assign_op>>".to_string());
         // visit_expr_assign_op(self, node);
         self.visit_expr(&*node.left);
         let left = self.tos();
-- 
2.43.0


From 0adafc8a628787eb60ed6aa2430f67ec1af14b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:12 +0000
Subject: [PATCH 19/51] fix: C keeps the grouping of binary, conditional and
 unary expressions

---
 doctor-syn/src/codegen/c.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/doctor-syn/src/codegen/c.rs b/doctor-syn/src/codegen/c.rs
index a64a789..a92a4ad 100644
--- a/doctor-syn/src/codegen/c.rs
+++ b/doctor-syn/src/codegen/c.rs
@@ -326,7 +326,7 @@ impl<'ast> Visit<'ast> for CVisitor {
         let op = self.tos();
         self.visit_expr(&*node.right);
         let rhs = self.tos();
-        ret!(self, "{} {} {}", lhs, op, rhs);
+        ret!(self, "({} {} {})", lhs, op, rhs);
     }
 
     fn visit_expr_block(&mut self, node: &'ast ExprBlock) {
@@ -429,7 +429,7 @@ impl<'ast> Visit<'ast> for CVisitor {
         if let Some(it) = &node.else_branch {
             self.visit_expr(&*(it).1);
             let f = self.tos();
-            ret!(self, "({}) ? ({}) : ({})", cond, t, f);
+            ret!(self, "(({}) ? ({}) : ({}))", cond, t, f);
         } else {
             ret!(self, "<<if requires an else>>")
         };
@@ -583,7 +583,7 @@ impl<'ast> Visit<'ast> for CVisitor {
         let op = self.tos();
         self.visit_expr(&*node.expr);
         let expr = self.tos();
-        ret!(self, "{}{}", op, expr);
+        ret!(self, "{} {}", op, expr);
     }
 
     fn visit_expr_unsafe(&mut self, node: &'ast ExprUnsafe) {
-- 
2.43.0


From f232ff8e75e2836d691c36dcbabf3b9d8613536a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:14 +0000
Subject: [PATCH 20/51] fix: C literals keep the type of their suffix

---
 doctor-syn/src/codegen/c.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/doctor-syn/src/codegen/c.rs b/doctor-syn/src/codegen/c.rs
index a92a4ad..c96abda 100644
--- a/doctor-syn/src/codegen/c.rs
+++ b/doctor-syn/src/codegen/c.rs
@@ -914,7 +914,7 @@ impl<'ast> Visit<'ast> for CVisitor {
     }
     fn visit_lit_bool(&mut self, node: &'ast LitBool) {
         self.log("visit_lit_bool");
-        self.push("<<lit_bool>>".to_string());
+        ret!(self, "{}", if node.value { "1" } else { "0" });
         //visit_lit_bool(self, node);
     }
     fn visit_lit_byte(&mut self, node: &'ast LitByte) {
@@ -934,20 +934,27 @@ impl<'ast> Visit<'ast> for CVisitor {
     }
     fn visit_lit_float(&mut self, node: &'ast LitFloat) {
         self.log("visit_lit_float");
-        let suffix = node.suffix();
-        match suffix {
-            _ => ret!(self, "{}", node.base10_digits())
-        }
+        let suffix = match node.suffix() {
+            "f32" => "f",
+            "f64" => "",
+            _ => self.options.float_suffix.as_str(),
+        };
+        ret!(self, "{}{}", node.base10_digits(), suffix)
     }
 
     fn visit_lit_int(&mut self, node: &'ast LitInt) {
         self.log("visit_lit_int");
         // self.push("<<lit_int>>".to_string());
         // visit_lit_int(self, node);
-        let suffix = node.suffix();
-        match suffix {
-            _ => ret!(self, "{}", node.base10_digits())
-        }
+        let suffix = match node.suffix() {
+            "f32" => ".0f",
+            "f64" => ".0",
+            "u32" => "u",
+            "i64" => "ll",
+            "u64" => "ull",
+            _ => "",
+        };
+        ret!(self, "{}{}", node.base10_digits(), suffix)
     }
     fn visit_lit_str(&mut self, node: &'ast LitStr) {
         self.log("visit_lit_str");
-- 
2.43.0


From 72ef1d985261104fa539fbcd5637b613530204e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:50 +0000
Subject: [PATCH 21/51] fix: C declares untyped and shadowing variables

---
 doctor-syn/src/codegen/c.rs | 43 ++++++++++++++++++++++++++++++++-----
 1 file changed, 38 insertions(+), 5 deletions(-)

diff --git a/doctor-syn/src/codegen/c.rs b/doctor-syn/src/codegen/c.rs
index c96abda..22d5a7d 100644
--- a/doctor-syn/src/codegen/c.rs
+++ b/doctor-syn/src/codegen/c.rs
@@ -21,6 +21,8 @@ impl Default for Options {
 struct CVisitor {
     options: Options,
     stack: Vec<String>,
+    /// Variables in scope with their C names.
+    vars: Vec<(String, String)>,
 }
 
 impl CVisitor {
@@ -28,9 +30,23 @@ impl CVisitor {
         CVisitor {
             options,
             stack: Vec::new(),
+            vars: Vec::new(),
         }
     }
 
+    /// Bring a variable into scope. C has no shadowing within a block and
+    /// no initialisation from a shadowed variable, so rename it then.
+    fn declare(&mut self, name: String) -> String {
+        let mut c_name = name.clone();
+        let mut n = 1;
+        while self.vars.iter().any(|(_, c)| c == &c_name) {
+            c_name = format!("{}__{}", name, n);
+            n += 1;
+        }
+        self.vars.push((name, c_name.clone()));
+        c_name
+    }
+
     fn log(&mut self, msg: &str) {
         // eprintln!("log: {}", msg);
     }
@@ -207,10 +223,12 @@ impl<'ast> Visit<'ast> for CVisitor {
         self.log("visit_block");
 
         let mut stmts = Vec::new();
+        let num_vars = self.vars.len();
         for it in &node.stmts {
             self.visit_stmt(it);
             stmts.push(self.tos());
         }
+        self.vars.truncate(num_vars);
         ret!(self, "{{\n{}\n}}", stmts.join(";\n"));
     }
 
@@ -799,6 +817,7 @@ impl<'ast> Visit<'ast> for CVisitor {
         // }
         // self.visit_visibility(&node.vis);
     
+        self.vars.clear();
         self.visit_signature(&node.sig);
         let sig = self.tos();
     
@@ -970,11 +989,17 @@ impl<'ast> Visit<'ast> for CVisitor {
         // }
         // tokens_helper(v, &node.let_token.span);
 
-        self.visit_pat(&node.pat);
-        let pat = self.tos();
-        if let Some(it) = &node.init {
+        // The initialiser does not see the new variable.
+        let init = node.init.as_ref().map(|it| {
             self.visit_expr(&*(it).1);
-            let expr = self.tos();
+            self.tos()
+        });
+        self.visit_pat(&node.pat);
+        let mut pat = self.tos();
+        if let Pat::Ident(_) = &node.pat {
+            pat = format!("__auto_type {}", pat);
+        }
+        if let Some(expr) = init {
             ret!(self, "{} = {}", pat, expr);
         } else {
             ret!(self, "{}", pat);
@@ -1050,7 +1075,8 @@ impl<'ast> Visit<'ast> for CVisitor {
         self.log("visit_pat_ident");
         // visit_pat_ident(self, node);
 
-        self.visit_ident(&node.ident);
+        let name = self.declare(node.ident.to_string());
+        self.push(name);
     }
 
     fn visit_pat_lit(&mut self, node: &'ast PatLit) {
@@ -1142,6 +1168,13 @@ impl<'ast> Visit<'ast> for CVisitor {
     fn visit_path(&mut self, node: &'ast Path) {
         self.log("visit_path");
         use quote::ToTokens;
+        if let Some(ident) = node.get_ident() {
+            if let Some((_, name)) = self.vars.iter().rev().find(|(var, _)| ident == var) {
+                let name = name.clone();
+                self.push(name);
+                return;
+            }
+        }
         let path = node.to_token_stream().to_string().replace(" :: ", "_");
         self.push(path);
     }
-- 
2.43.0


From daef2a74116ec7c150b02b26904b0aacb55bd652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:52 +0000
Subject: [PATCH 22/51] fix: C statements are emitted and end in a semicolon

---
 doctor-syn/src/codegen/c.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/doctor-syn/src/codegen/c.rs b/doctor-syn/src/codegen/c.rs
index 22d5a7d..7ff5359 100644
--- a/doctor-syn/src/codegen/c.rs
+++ b/doctor-syn/src/codegen/c.rs
@@ -229,7 +229,7 @@ impl<'ast> Visit<'ast> for CVisitor {
             stmts.push(self.tos());
         }
         self.vars.truncate(num_vars);
-        ret!(self, "{{\n{}\n}}", stmts.join(";\n"));
+        ret!(self, "{{\n{}\n}}", stmts.join("\n"));
     }
 
     fn visit_bound_lifetimes(&mut self, node: &'ast BoundLifetimes) {
@@ -1291,12 +1291,14 @@ impl<'ast> Visit<'ast> for CVisitor {
 
     fn visit_stmt(&mut self, node: &'ast Stmt) {
         self.log("visit_stmt");
-        if let Stmt::Expr(e) = node {
+        if let Stmt::Expr(e) | Stmt::Semi(e, _) = node {
             self.visit_expr(e);
             let expr = self.tos();
             ret!(self, "{};", expr);
         } else {
             visit_stmt(self, node);
+            let stmt = self.tos();
+            ret!(self, "{};", stmt);
         }
     }
 
-- 
2.43.0


From 102ad41f78749852a82c23e31f7bc4bfd765ecca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:41 +0000
Subject: [PATCH 23/51] fix: C names of mathematical methods and bit
 conversions

---
 doctor-syn/src/codegen/c.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/doctor-syn/src/codegen/c.rs b/doctor-syn/src/codegen/c.rs
index 7ff5359..0409a9e 100644
--- a/doctor-syn/src/codegen/c.rs
+++ b/doctor-syn/src/codegen/c.rs
@@ -386,7 +386,7 @@ impl<'ast> Visit<'ast> for CVisitor {
 
         self.push(match expr.as_str() {
             "fty_from_bits" => {
-                format!("({{ union {{ fty f; uty u; }} u; u.u = ({}); u.f; }})", args)
+                format!("((union {{ uty u; fty f; }}){{ {} }}).f", args)
             }
             _ => {
                 format!("{}{}({})", self.options.prefix, expr, args)
@@ -514,7 +514,21 @@ impl<'ast> Visit<'ast> for CVisitor {
         }
 
         self.push(match ident.as_str() {
-            "round" => format!("{}{}({})", ident, self.options.float_suffix, args.join(", ")),
+            "round" | "floor" | "ceil" | "trunc" | "sqrt" | "cbrt" | "copysign" | "hypot" | "exp" | "exp2"
+            | "log2" | "log10" | "sin" | "cos" | "tan" | "asin" | "acos" | "atan" | "atan2" | "sinh" | "cosh"
+            | "tanh" | "asinh" | "acosh" | "atanh" => {
+                format!("{}{}({})", ident, self.options.float_suffix, args.join(", "))
+            }
+            "abs" | "min" | "max" => format!("f{}{}({})", ident, self.options.float_suffix, args.join(", ")),
+            "ln" => format!("log{}({})", self.options.float_suffix, args.join(", ")),
+            "ln_1p" => format!("log1p{}({})", self.options.float_suffix, args.join(", ")),
+            "exp_m1" => format!("expm1{}({})", self.options.float_suffix, args.join(", ")),
+            "powi" | "powf" => format!("pow{}({})", self.options.float_suffix, args.join(", ")),
+            "recip" => format!("(1 / ({}))", args[0]),
+            "to_bits" => format!("((union {{ fty f; uty u; }}){{ {} }}).u", args[0]),
+            "wrapping_add" => format!("(({}) + ({}))", args[0], args[1]),
+            "wrapping_sub" => format!("(({}) - ({}))", args[0], args[1]),
+            "wrapping_mul" => format!("(({}) * ({}))", args[0], args[1]),
             "mul_add" => format!("(({}\n) * ({}) + ({}))", args[0], args[1], args[2]),
             _ => format!("{}({})", ident, args.join(", ")),
         })
-- 
2.43.0


From 3cffa93f1e47ebb8d539ceb22c9a90e967bd3cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:44 +0000
Subject: [PATCH 24/51] fix: C declares functions before use

---
 doctor-syn/src/codegen/c.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/doctor-syn/src/codegen/c.rs b/doctor-syn/src/codegen/c.rs
index 0409a9e..d8c314e 100644
--- a/doctor-syn/src/codegen/c.rs
+++ b/doctor-syn/src/codegen/c.rs
@@ -682,7 +682,19 @@ impl<'ast> Visit<'ast> for CVisitor {
 
         let mut items = Vec::new();
         items.push("#include <math.h>".to_string());
+        let mut declared = false;
         for it in &node.items {
+            if let (Item::Fn(_), false) = (it, declared) {
+                declared = true;
+                for it in &node.items {
+                    if let Item::Fn(f) = it {
+                        self.vars.clear();
+                        self.visit_signature(&f.sig);
+                        let sig = self.tos();
+                        items.push(format!("{};", sig));
+                    }
+                }
+            }
             self.visit_item(it);
             items.push(self.tos());
         }
-- 
2.43.0


From 61d27d6b98a34a41110de515940265c3dd96e606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:46 +0000
Subject: [PATCH 25/51] fix: C translates the constants and remaining primitive
 types

---
 doctor-syn/src/codegen/c.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/doctor-syn/src/codegen/c.rs b/doctor-syn/src/codegen/c.rs
index d8c314e..d183c42 100644
--- a/doctor-syn/src/codegen/c.rs
+++ b/doctor-syn/src/codegen/c.rs
@@ -822,7 +822,11 @@ impl<'ast> Visit<'ast> for CVisitor {
         self.visit_expr(&*node.expr);
         let expr = self.tos();
         // tokens_helper(v, &node.semi_token.spans);
-        ret!(self, "const {} {} = {};", ty, ident, expr);
+        match ident.as_str() {
+            // These are macros in math.h.
+            "NAN" | "INFINITY" => ret!(self, "#undef {}\nconst {} {} = {};", ident, ty, ident, expr),
+            _ => ret!(self, "const {} {} = {};", ty, ident, expr),
+        }
     }
 
     fn visit_item_enum(&mut self, node: &'ast ItemEnum) {
@@ -1202,6 +1206,15 @@ impl<'ast> Visit<'ast> for CVisitor {
             }
         }
         let path = node.to_token_stream().to_string().replace(" :: ", "_");
+        let path = match path.as_str() {
+            "f32_NAN" => "__builtin_nanf(\"\")".to_string(),
+            "f64_NAN" => "__builtin_nan(\"\")".to_string(),
+            "f32_INFINITY" => "__builtin_inff()".to_string(),
+            "f64_INFINITY" => "__builtin_inf()".to_string(),
+            "f32_MIN_POSITIVE" => "__FLT_MIN__".to_string(),
+            "f64_MIN_POSITIVE" => "__DBL_MIN__".to_string(),
+            _ => path,
+        };
         self.push(path);
     }
 
@@ -1579,6 +1592,12 @@ impl<'ast> Visit<'ast> for CVisitor {
 fn translate_basic_types(name: String) -> String {
     match name.as_str() {
         "bool" => "int".to_string(),
+        "i8" => "signed char".to_string(),
+        "i16" => "short".to_string(),
+        "isize" => "__PTRDIFF_TYPE__".to_string(),
+        "u8" => "unsigned char".to_string(),
+        "u16" => "unsigned short".to_string(),
+        "usize" => "__SIZE_TYPE__".to_string(),
         "i32" => "int".to_string(),
         "i64" => "long long".to_string(),
         "u32" => "unsigned int".to_string(),
-- 
2.43.0


From c1d9ff782e3e5a12635a12740a048dcbf26ecede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:54 +0000
Subject: [PATCH 26/51] fix: C marks tokens that were not parsed instead of
 losing its place

---
 doctor-syn/src/codegen/c.rs | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/doctor-syn/src/codegen/c.rs b/doctor-syn/src/codegen/c.rs
index d183c42..5728e5b 100644
--- a/doctor-syn/src/codegen/c.rs
+++ b/doctor-syn/src/codegen/c.rs
@@ -282,7 +282,11 @@ impl<'ast> Visit<'ast> for CVisitor {
 
     fn visit_expr(&mut self, node: &'ast Expr) {
         self.log("visit_expr");
-        visit_expr(self, node);
+        if let Expr::Verbatim(_) = node {
+            self.push("<<expr_verbatim>>".to_string());
+        } else {
+            visit_expr(self, node);
+        }
     }
 
     fn visit_expr_array(&mut self, node: &'ast ExprArray) {
@@ -803,7 +807,11 @@ impl<'ast> Visit<'ast> for CVisitor {
 
     fn visit_item(&mut self, node: &'ast Item) {
         self.log("visit_item");
-        visit_item(self, node);
+        if let Item::Verbatim(_) = node {
+            self.push("<<item_verbatim>>".to_string());
+        } else {
+            visit_item(self, node);
+        }
     }
 
     fn visit_item_const(&mut self, node: &'ast ItemConst) {
@@ -959,7 +967,11 @@ impl<'ast> Visit<'ast> for CVisitor {
     fn visit_lit(&mut self, node: &'ast Lit) {
         self.log("visit_lit");
         // self.push("<<lit>>".to_string());
-        visit_lit(self, node);
+        if let Lit::Verbatim(_) = node {
+            self.push("<<lit_verbatim>>".to_string());
+        } else {
+            visit_lit(self, node);
+        }
     }
     fn visit_lit_bool(&mut self, node: &'ast LitBool) {
         self.log("visit_lit_bool");
@@ -1092,7 +1104,11 @@ impl<'ast> Visit<'ast> for CVisitor {
 
     fn visit_pat(&mut self, node: &'ast Pat) {
         self.log("visit_pat");
-        visit_pat(self, node);
+        if let Pat::Verbatim(_) = node {
+            self.push("<<pat_verbatim>>".to_string());
+        } else {
+            visit_pat(self, node);
+        }
     }
 
     fn visit_pat_box(&mut self, node: &'ast PatBox) {
@@ -1385,7 +1401,11 @@ impl<'ast> Visit<'ast> for CVisitor {
 
     fn visit_type(&mut self, node: &'ast Type) {
         self.log("visit_type");
-        visit_type(self, node);
+        if let Type::Verbatim(_) = node {
+            self.push("<<type_verbatim>>".to_string());
+        } else {
+            visit_type(self, node);
+        }
     }
 
     fn visit_type_array(&mut self, node: &'ast TypeArray) {
-- 
2.43.0


From a6688b6025c22f4d595b674fcdd7d8b136aadb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:57 +0000
Subject: [PATCH 27/51] fix: C arrays stay one value

---
 doctor-syn/src/codegen/c.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doctor-syn/src/codegen/c.rs b/doctor-syn/src/codegen/c.rs
index 5728e5b..38bbf12 100644
--- a/doctor-syn/src/codegen/c.rs
+++ b/doctor-syn/src/codegen/c.rs
@@ -299,7 +299,7 @@ impl<'ast> Visit<'ast> for CVisitor {
             self.visit_expr(it);
             elems.push(self.tos());
         }
-        ret!(self, "{}", elems.join(", "));
+        ret!(self, "{{ {} }}", elems.join(", "));
     }
 
     fn visit_expr_assign(&mut self, node: &'ast ExprAssign) {
-- 
2.43.0


From 745a5accbdded8aa6c5be7060a37377f56dd3135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:59 +0000
Subject: [PATCH 28/51] fix: nextafter selects the bits type its C form uses

---
 libmgen/src/functions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmgen/src/functions.rs b/libmgen/src/functions.rs
index 082a73c..013092c 100644
--- a/libmgen/src/functions.rs
+++ b/libmgen/src/functions.rs
@@ -283,7 +283,7 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "nextafter",
-        deps: &["fty"],
+        deps: &["fty", "uty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_nextafter),
         test_specs: &[TestSpec {
-- 
2.43.0


From d5a3a121988def5bc41c2140df21526b54ac9c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:48 +0000
Subject: [PATCH 29/51] fix: Rust text is indented to any depth

---
 doctor-syn/src/codegen/rust.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/doctor-syn/src/codegen/rust.rs b/doctor-syn/src/codegen/rust.rs
index 261d6e6..c1382b1 100644
--- a/doctor-syn/src/codegen/rust.rs
+++ b/doctor-syn/src/codegen/rust.rs
@@ -1,8 +1,7 @@
 use proc_macro2::{Delimiter, TokenStream, TokenTree};
 
-fn indent(depth: usize) -> &'static str {
-    let i = "                                                            ";
-    &i[0..depth * 2]
+fn indent(depth: usize) -> String {
+    "  ".repeat(depth)
 }
 
 fn append_token(text: &mut String, tt: &TokenTree, depth: usize) {
-- 
2.43.0


From 37a5d91d9ed875542ecca10321173ba6f75ee2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:48 +0000
Subject: [PATCH 30/51] fix: Rust text keeps neighbouring tokens apart

---
 doctor-syn/src/codegen/rust.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/doctor-syn/src/codegen/rust.rs b/doctor-syn/src/codegen/rust.rs
index c1382b1..19077d3 100644
--- a/doctor-syn/src/codegen/rust.rs
+++ b/doctor-syn/src/codegen/rust.rs
@@ -1,4 +1,4 @@
-use proc_macro2::{Delimiter, TokenStream, TokenTree};
+use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
 
 fn indent(depth: usize) -> String {
     "  ".repeat(depth)
@@ -33,6 +33,7 @@ fn append_token(text: &mut String, tt: &TokenTree, depth: usize) {
             }
             Delimiter::None => {
                 text.extend(tt.to_string().chars());
+                text.extend(" ".chars());
             }
         }
     } else if let TokenTree::Ident(_) = &tt {
@@ -55,7 +56,11 @@ fn append_token(text: &mut String, tt: &TokenTree, depth: usize) {
             // }
             _ => {
                 text.extend(tok.chars());
-                // text.extend(" ".chars());
+                // Only the parts of one operator or lifetime stay together.
+                let joint = matches!(tt, TokenTree::Punct(p) if p.spacing() == Spacing::Joint);
+                if !joint {
+                    text.extend(" ".chars());
+                }
             }
         }
     }
-- 
2.43.0


From d4e0d12c33ef46299fa7c60ecdf5349871c54c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:51 +0000
Subject: [PATCH 31/51] fix: C evaluates a value that is bound to _

---
 doctor-syn/src/codegen/c.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/doctor-syn/src/codegen/c.rs b/doctor-syn/src/codegen/c.rs
index 38bbf12..aac1c1c 100644
--- a/doctor-syn/src/codegen/c.rs
+++ b/doctor-syn/src/codegen/c.rs
@@ -1036,6 +1036,11 @@ impl<'ast> Visit<'ast> for CVisitor {
             self.visit_expr(&*(it).1);
             self.tos()
         });
+        if let (Pat::Wild(_), Some(expr)) = (&node.pat, &init) {
+            // The value is computed and dropped.
+            ret!(self, "(void)({})", expr);
+            return;
+        }
         self.visit_pat(&node.pat);
         let mut pat = self.tos();
         if let Pat::Ident(_) = &node.pat {
-- 
2.43.0


From f3258d93238035723913203a99a231d05af5b713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:59 +0000
Subject: [PATCH 32/51] fix: approx rejects requests without distinct nodes
 instead of panicking

---
 doctor-syn/src/transformation/approx.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/doctor-syn/src/transformation/approx.rs b/doctor-syn/src/transformation/approx.rs
index f229652..7760099 100644
--- a/doctor-syn/src/transformation/approx.rs
+++ b/doctor-syn/src/transformation/approx.rs
@@ -77,6 +77,14 @@ pub fn approx(
     parity: Parity,
     num_digits: i64,
 ) -> Result<Expression> {
+    // The nodes must be distinct.
+    if num_terms < 2 {
+        return Err(Error::WrongNumberOfTerms(expr.span()));
+    }
+    if !xmin.is_finite() || !xmax.is_finite() || xmin == xmax {
+        return Err(Error::CouldNotEvaulate(format!("{}..{}", xmin, xmax)));
+    }
+
     let xmin = bigdf(xmin);
     let xmax = bigdf(xmax);
 
-- 
2.43.0


From 263cc8e1affe64eb40434c5d5c043fb502e1f94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:40 +0000
Subject: [PATCH 33/51] fix: qnorm searches from the mean so that it converges
 for every mean

---
 doctor-syn/src/bdmath.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/doctor-syn/src/bdmath.rs b/doctor-syn/src/bdmath.rs
index cad549f..b90be46 100644
--- a/doctor-syn/src/bdmath.rs
+++ b/doctor-syn/src/bdmath.rs
@@ -384,7 +384,8 @@ pub fn qnorm(
         // if x.abs() < bigdf(0.01) {
         //     guess = bigdf(0.0);
         // }
-        let mut guess = bigdf(0.0);
+        // From the mean, where the slope is largest, every step falls short of the solution.
+        let mut guess = mean.clone();
         loop {
             // println!("guess={}", guess);
             let pnorm = pnorm(guess.clone(), mean.clone(), sd.clone(), num_digits);
-- 
2.43.0


From fb4ec7a6298b47f6f6e68e74ba857f87ee7657b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:37 +0000
Subject: [PATCH 34/51] fix: log to base 1 and qnorm of a probability of 1 have
 no value instead of dividing by zero

---
 doctor-syn/src/bdmath.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/doctor-syn/src/bdmath.rs b/doctor-syn/src/bdmath.rs
index b90be46..a0cec36 100644
--- a/doctor-syn/src/bdmath.rs
+++ b/doctor-syn/src/bdmath.rs
@@ -289,10 +289,9 @@ pub fn ln(mut x: BigDecimal, num_digits: i64) -> Option<BigDecimal> {
 }
 
 pub fn log(x: BigDecimal, base: BigDecimal, num_digits: i64) -> Option<BigDecimal> {
-    if let (Some(lnx), Some(lnbase)) = (ln(x, num_digits), ln(base, num_digits)) {
-        Some(lnx / lnbase)
-    } else {
-        None
+    match (ln(x, num_digits), ln(base, num_digits)) {
+        (Some(lnx), Some(lnbase)) if !lnbase.is_zero() => Some(lnx / lnbase),
+        _ => None,
     }
 }
 
@@ -378,7 +377,7 @@ pub fn qnorm(
     num_digits: i64,
 ) -> Option<BigDecimal> {
     // println!("x={}", x);
-    if let Some(_logit) = ln(&x / (one() - &x), num_digits) {
+    if x.is_positive() && x < one() {
         // let mut guess = logit * bigdf(0.6);
         // let mut guess = logit * bigdf(0.1);
         // if x.abs() < bigdf(0.01) {
-- 
2.43.0


From 9e30b3192bfc80455c60408af6abbcf45850e3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:37 +0000
Subject: [PATCH 35/51] fix: evaluation reports arguments outside an
 operation's domain instead of panicking

---
 doctor-syn/src/transformation/eval.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/doctor-syn/src/transformation/eval.rs b/doctor-syn/src/transformation/eval.rs
index dd98933..253a4c9 100644
--- a/doctor-syn/src/transformation/eval.rs
+++ b/doctor-syn/src/transformation/eval.rs
@@ -70,7 +70,7 @@ impl Visitor for Eval {
             //     .try_into()?
 
             //     .into()),
-            ("recip", x, 0) => Ok(Expression::from(x.inverse()).into()),
+            ("recip", x, 0) if !x.is_zero() => Ok(Expression::from(x.inverse()).into()),
 
             ("powi", x, 1) => {
                 Ok(Expression::from(pow(x, arg0(), self.num_digits).ok_or_else(errfn)?).into())
@@ -123,11 +123,13 @@ impl Visitor for Eval {
 
             ("cos", x, 0) => Ok(Expression::from(cos(x, self.num_digits)).into()),
 
-            ("tan", x, 0) => Ok(Expression::from(tan(x, self.num_digits)).into()),
+            ("tan", x, 0) if !cos(x.clone(), self.num_digits).is_zero() => {
+                Ok(Expression::from(tan(x, self.num_digits)).into())
+            }
 
-            ("asin", x, 0) => Ok(Expression::from(asin(x, self.num_digits)).into()),
+            ("asin", x, 0) if x.abs() <= one() => Ok(Expression::from(asin(x, self.num_digits)).into()),
 
-            ("acos", x, 0) => Ok(Expression::from(acos(x, self.num_digits)).into()),
+            ("acos", x, 0) if x.abs() <= one() => Ok(Expression::from(acos(x, self.num_digits)).into()),
 
             ("atan", x, 0) => Ok(Expression::from(atan(x, self.num_digits)).into()),
 
@@ -135,15 +137,15 @@ impl Visitor for Eval {
 
             ("erfc", x, 0) => Ok(Expression::from(erfc(x, self.num_digits)).into()),
 
-            ("dnorm", x, 2) => {
+            ("dnorm", x, 2) if arg1().is_positive() => {
                 Ok(Expression::from(dnorm(x, arg0(), arg1(), self.num_digits)).into())
             }
 
-            ("pnorm", x, 2) => {
+            ("pnorm", x, 2) if arg1().is_positive() => {
                 Ok(Expression::from(pnorm(x, arg0(), arg1(), self.num_digits)).into())
             }
 
-            ("qnorm", x, 2) => Ok(Expression::from(
+            ("qnorm", x, 2) if arg1().is_positive() => Ok(Expression::from(
                 qnorm(x, arg0(), arg1(), self.num_digits).ok_or_else(errfn)?,
             )
             .into()),
@@ -182,7 +184,7 @@ impl Visitor for Eval {
                 BinOp::Mul(_) => {
                     Ok(Expression::from(round(left * right, self.num_digits as i64)).into())
                 }
-                BinOp::Div(_) => {
+                BinOp::Div(_) if !right.is_zero() => {
                     Ok(Expression::from(round(left / right, self.num_digits as i64)).into())
                 }
                 BinOp::Lt(_) => Ok(Expression::from(left < right).into()),
-- 
2.43.0


From 071c5d3027ff8359b078359d5e9b0abc5386b34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:37 +0000
Subject: [PATCH 36/51] fix: evaluation reports literals it cannot represent
 instead of panicking

---
 doctor-syn/src/transformation/eval.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/doctor-syn/src/transformation/eval.rs b/doctor-syn/src/transformation/eval.rs
index 253a4c9..7e239a1 100644
--- a/doctor-syn/src/transformation/eval.rs
+++ b/doctor-syn/src/transformation/eval.rs
@@ -176,8 +176,8 @@ impl Visitor for Eval {
         let right: Expression = self.visit_expr(&exprbinary.right)?.into();
 
         if left.is_numeric() && right.is_numeric() {
-            let left: BigDecimal = left.try_into().unwrap();
-            let right: BigDecimal = right.try_into().unwrap();
+            let left: BigDecimal = left.try_into()?;
+            let right: BigDecimal = right.try_into()?;
             match exprbinary.op {
                 BinOp::Add(_) => Ok(Expression::from(left + right).into()),
                 BinOp::Sub(_) => Ok(Expression::from(left - right).into()),
@@ -203,7 +203,7 @@ impl Visitor for Eval {
     fn visit_unary(&self, exprunary: &ExprUnary) -> Result<Expr> {
         let expr: Expression = self.visit_expr(&exprunary.expr)?.into();
         if expr.is_numeric() {
-            let expr: BigDecimal = expr.try_into().unwrap();
+            let expr: BigDecimal = expr.try_into()?;
             match exprunary.op {
                 // UnOp::Deref(_) => (),
                 // UnOp::Not(_) => (),
-- 
2.43.0


From 2668e92819f323ede95ad7230247fc4bd690bfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:44 +0000
Subject: [PATCH 37/51] fix: arithmetic on expressions keeps undefined
 quotients and unreadable literals symbolic instead of panicking

---
 doctor-syn/src/expression.rs | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/doctor-syn/src/expression.rs b/doctor-syn/src/expression.rs
index c1367c2..d4d8df8 100644
--- a/doctor-syn/src/expression.rs
+++ b/doctor-syn/src/expression.rs
@@ -8,7 +8,7 @@ use crate::visitor::Visitor;
 use crate::{Name, VariableList};
 use proc_macro2::Span;
 use quote::quote;
-use std::convert::{TryFrom, TryInto};
+use std::convert::TryFrom;
 use syn::spanned::Spanned;
 use syn::{parse_quote, Expr, ExprLit, Lit};
 
@@ -198,26 +198,26 @@ impl std::fmt::Debug for Expression {
 }
 
 macro_rules! make_op {
-    ($fname: ident, $op: tt) => {
+    ($fname: ident, $op: tt, $defined: expr) => {
         fn $fname(lhs: Expression, rhs: Expression ) -> Expression {
-            if lhs.is_numeric() && rhs.is_numeric() {
-                let lhs : BigDecimal = lhs.try_into().unwrap();
-                let rhs : BigDecimal = rhs.try_into().unwrap();
-                (lhs $op rhs).try_into().unwrap()
-            } else {
-                let lhs = lhs.as_ref();
-                let rhs = rhs.as_ref();
-                let res : Expr = parse_quote!((#lhs) $op (#rhs));
-                res.into()
+            let defined: fn(&BigDecimal) -> bool = $defined;
+            match (BigDecimal::try_from(&lhs), BigDecimal::try_from(&rhs)) {
+                (Ok(lhs), Ok(rhs)) if defined(&rhs) => Expression::from(lhs $op rhs),
+                _ => {
+                    let lhs = lhs.as_ref();
+                    let rhs = rhs.as_ref();
+                    let res : Expr = parse_quote!((#lhs) $op (#rhs));
+                    res.into()
+                }
             }
         }
     }
 }
 
-make_op!(add, +);
-make_op!(sub, -);
-make_op!(mul, *);
-make_op!(div, /);
+make_op!(add, +, |_| true);
+make_op!(sub, -, |_| true);
+make_op!(mul, *, |_| true);
+make_op!(div, /, |rhs| !rhs.is_zero());
 
 impl std::ops::Add for Expression {
     type Output = Self;
-- 
2.43.0


From dbd3fd713615551a704777e3d751801a7d0b2f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:40 +0000
Subject: [PATCH 38/51] fix: SIMD back end turns calls of the file's functions
 into method calls whatever their name

---
 doctor-syn/src/codegen/portable_simd.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/doctor-syn/src/codegen/portable_simd.rs b/doctor-syn/src/codegen/portable_simd.rs
index 402534b..d1270f1 100644
--- a/doctor-syn/src/codegen/portable_simd.rs
+++ b/doctor-syn/src/codegen/portable_simd.rs
@@ -183,10 +183,9 @@ fn convert_binary(binary: &syn::ExprBinary) -> Expr {
 
 fn convert_call(call: &syn::ExprCall) -> Expr {
     let mut args = call.args.iter();
-    let arg0 = args.next().unwrap();
-    match call.func.to_token_stream().to_string().as_str() {
-        "sin" | "cos" | "tan" | "exp2" | "powf" | "log2" | "ln" => {
-            let func = &*call.func;
+    match (&*call.func, args.next()) {
+        // Every function of the file is a method of its first argument.
+        (Expr::Path(func), Some(arg0)) if func.path.get_ident().is_some() => {
             let rest = args.cloned().collect::<Punctuated<Expr, Token![,]>>();
             parse_quote! { (#arg0).#func(#rest) }
         }
-- 
2.43.0


From 6257404281a5531608e62e2d5376f9e6d0e71027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:43 +0000
Subject: [PATCH 39/51] fix: SIMD back end splats integer literals without a
 suffix

---
 doctor-syn/src/codegen/portable_simd.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/doctor-syn/src/codegen/portable_simd.rs b/doctor-syn/src/codegen/portable_simd.rs
index d1270f1..1e15007 100644
--- a/doctor-syn/src/codegen/portable_simd.rs
+++ b/doctor-syn/src/codegen/portable_simd.rs
@@ -197,10 +197,10 @@ fn convert_call(call: &syn::ExprCall) -> Expr {
 fn convert_lit_float(f: &syn::LitFloat) -> Expr {
     match f.suffix() {
         "u32" | "u64" => {
-            parse_quote! { UintType::splat(#f) }
+            parse_quote! { Self::UintType::splat(#f) }
         }
         "i32" | "i64" => {
-            parse_quote! { IntType::splat(#f) }
+            parse_quote! { Self::IntType::splat(#f) }
         }
         "f32" | "f64" | _ => {
             parse_quote! { Self::splat(#f) }
@@ -216,9 +216,13 @@ fn convert_lit_int(f: &syn::LitInt) -> Expr {
         "i32" | "i64" => {
             parse_quote! { Self::IntType::splat(#f) }
         }
-        "f32" | "f64" | _ => {
+        "f32" | "f64" => {
             parse_quote! { Self::splat(#f) }
         }
+        // Without a suffix, the context decides the type of the lanes.
+        _ => {
+            parse_quote! { Simd::splat(#f) }
+        }
     }
 }
 
-- 
2.43.0


From ff8c2afee77873f4614f88c61f380baa11cd5947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:45 +0000
Subject: [PATCH 40/51] fix: SIMD casts keep the grouping of the cast
 expression

---
 doctor-syn/src/codegen/portable_simd.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/doctor-syn/src/codegen/portable_simd.rs b/doctor-syn/src/codegen/portable_simd.rs
index 1e15007..6b918e1 100644
--- a/doctor-syn/src/codegen/portable_simd.rs
+++ b/doctor-syn/src/codegen/portable_simd.rs
@@ -154,9 +154,9 @@ fn convert_cast(cast: &syn::ExprCast, num_bits: usize) -> Expr {
         (quote!(u64), quote!(i64), quote!(f64))
     };
     match ty.to_token_stream().to_string().as_str() {
-        "uty" | "Self :: UintType" => parse_quote!{ #expr.cast::<#uty>() },
-        "ity" | "Self :: IntType" => parse_quote!{ #expr.cast::<#ity>() },
-        "fty" | "Self" => parse_quote!{ #expr.cast::<#fty>() },
+        "uty" | "Self :: UintType" => parse_quote!{ (#expr).cast::<#uty>() },
+        "ity" | "Self :: IntType" => parse_quote!{ (#expr).cast::<#ity>() },
+        "fty" | "Self" => parse_quote!{ (#expr).cast::<#fty>() },
         _ => cast.clone().into()
     }
 }
-- 
2.43.0


From e910426ebf42453cf80f64e7600cfde61fb2824e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:47 +0000
Subject: [PATCH 41/51] fix: SIMD casts to primitive types are lane-wise

---
 doctor-syn/src/codegen/portable_simd.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/doctor-syn/src/codegen/portable_simd.rs b/doctor-syn/src/codegen/portable_simd.rs
index 6b918e1..da85b42 100644
--- a/doctor-syn/src/codegen/portable_simd.rs
+++ b/doctor-syn/src/codegen/portable_simd.rs
@@ -157,6 +157,9 @@ fn convert_cast(cast: &syn::ExprCast, num_bits: usize) -> Expr {
         "uty" | "Self :: UintType" => parse_quote!{ (#expr).cast::<#uty>() },
         "ity" | "Self :: IntType" => parse_quote!{ (#expr).cast::<#ity>() },
         "fty" | "Self" => parse_quote!{ (#expr).cast::<#fty>() },
+        "u8" | "u16" | "u32" | "u64" | "usize" | "i8" | "i16" | "i32" | "i64" | "isize" | "f32" | "f64" => {
+            parse_quote!{ (#expr).cast::<#ty>() }
+        }
         _ => cast.clone().into()
     }
 }
-- 
2.43.0


From 040216ea0574690ac791509ca11a97195889ae27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:50 +0000
Subject: [PATCH 42/51] fix: SIMD conditionals whose branch has several
 statements no longer panic

---
 doctor-syn/src/codegen/portable_simd.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/doctor-syn/src/codegen/portable_simd.rs b/doctor-syn/src/codegen/portable_simd.rs
index da85b42..8054704 100644
--- a/doctor-syn/src/codegen/portable_simd.rs
+++ b/doctor-syn/src/codegen/portable_simd.rs
@@ -35,13 +35,13 @@ impl SimdVisitor {
     }
 }
 
-fn deblock1(block: &syn::Block) -> &Expr {
+fn deblock1(block: &syn::Block) -> Expr {
     if block.stmts.len() == 1 {
         if let syn::Stmt::Expr(expr) = &block.stmts[0] {
-            return expr;
+            return expr.clone();
         }
     }
-    unreachable!();
+    parse_quote! { #block }
 }
 
 fn deblock2(expr: &Expr) -> &Expr {
-- 
2.43.0


From d6793c5cb249a022d24a3dca4d30572165779c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:53 +0000
Subject: [PATCH 43/51] fix: SIMD conditions use the mask operators for && and
 ||

---
 doctor-syn/src/codegen/portable_simd.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/doctor-syn/src/codegen/portable_simd.rs b/doctor-syn/src/codegen/portable_simd.rs
index 8054704..03a8d92 100644
--- a/doctor-syn/src/codegen/portable_simd.rs
+++ b/doctor-syn/src/codegen/portable_simd.rs
@@ -180,7 +180,13 @@ fn convert_binary(binary: &syn::ExprBinary) -> Expr {
         let rhs = binary.right.clone();
         parse_quote! { (#lhs).#id(#rhs) }
     } else {
-        binary.clone().into()
+        let (lhs, rhs) = (&*binary.left, &*binary.right);
+        match binary.op {
+            // Masks have no short-circuit operators.
+            And(_) => parse_quote! { (#lhs) & (#rhs) },
+            Or(_) => parse_quote! { (#lhs) | (#rhs) },
+            _ => binary.clone().into(),
+        }
     }
 }
 
-- 
2.43.0


From 0da766cbb15b5889dd782280a02897f136d7edf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:56 +0000
Subject: [PATCH 44/51] fix: SIMD back end writes wrapping arithmetic as lane
 operators

---
 doctor-syn/src/codegen/portable_simd.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/doctor-syn/src/codegen/portable_simd.rs b/doctor-syn/src/codegen/portable_simd.rs
index 03a8d92..20d9c68 100644
--- a/doctor-syn/src/codegen/portable_simd.rs
+++ b/doctor-syn/src/codegen/portable_simd.rs
@@ -102,6 +102,9 @@ impl VisitMut for SimdVisitor {
             syn::Expr::Call(call) => {
                 *expr = convert_call(call);
             }
+            syn::Expr::MethodCall(call) => {
+                *expr = convert_method_call(call);
+            }
             syn::Expr::Lit(syn::ExprLit { lit, ..} ) => {
                 match lit {
                     syn::Lit::Float(f) => {
@@ -203,6 +206,17 @@ fn convert_call(call: &syn::ExprCall) -> Expr {
     }
 }
 
+// Integer lanes always wrap.
+fn convert_method_call(call: &syn::ExprMethodCall) -> Expr {
+    let lhs = &*call.receiver;
+    match (call.method.to_string().as_str(), call.args.first()) {
+        ("wrapping_add", Some(rhs)) => parse_quote! { ((#lhs) + (#rhs)) },
+        ("wrapping_sub", Some(rhs)) => parse_quote! { ((#lhs) - (#rhs)) },
+        ("wrapping_mul", Some(rhs)) => parse_quote! { ((#lhs) * (#rhs)) },
+        _ => call.clone().into()
+    }
+}
+
 fn convert_lit_float(f: &syn::LitFloat) -> Expr {
     match f.suffix() {
         "u32" | "u64" => {
-- 
2.43.0


From 924d1d39c0b737ced5a21a35e9d95737821ffa5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:59 +0000
Subject: [PATCH 45/51] fix: SIMD methods keep the return type of the function

---
 doctor-syn/src/codegen/portable_simd.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/doctor-syn/src/codegen/portable_simd.rs b/doctor-syn/src/codegen/portable_simd.rs
index 20d9c68..5173180 100644
--- a/doctor-syn/src/codegen/portable_simd.rs
+++ b/doctor-syn/src/codegen/portable_simd.rs
@@ -73,9 +73,9 @@ impl VisitMut for SimdVisitor {
     fn visit_signature_mut(&mut self, sig: &mut syn::Signature) {
         visit_signature_mut(self, sig);
         // Patch the first argument to self
-        let arg0 = sig.inputs.iter_mut().next().unwrap();
-        *arg0 = parse_quote! {self};
-        sig.output = parse_quote! {-> Self};
+        if let Some(arg0) = sig.inputs.iter_mut().next() {
+            *arg0 = parse_quote! {self};
+        }
     }
 
     fn visit_type_path_mut(&mut self, type_path: &mut syn::TypePath) {
-- 
2.43.0


From f458e6a2b8864b17ea180accef117f5823f95613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:03 +0000
Subject: [PATCH 46/51] fix: SIMD back end keeps items and functions it cannot
 turn into methods

---
 doctor-syn/src/codegen/portable_simd.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/doctor-syn/src/codegen/portable_simd.rs b/doctor-syn/src/codegen/portable_simd.rs
index 5173180..bc7c67a 100644
--- a/doctor-syn/src/codegen/portable_simd.rs
+++ b/doctor-syn/src/codegen/portable_simd.rs
@@ -266,6 +266,7 @@ fn convert_lit_int(f: &syn::LitInt) -> Expr {
 
 pub fn to_simd(file: &syn::File, options: Options) -> syn::File {
     let mut methods = Vec::new();
+    let mut others = Vec::new();
 
     let fty = if options.num_bits == 32 { quote!(f32) } else { quote!(f64) };
     let ity = if options.num_bits == 32 { quote!(i32) } else { quote!(i64) };
@@ -283,18 +284,17 @@ pub fn to_simd(file: &syn::File, options: Options) -> syn::File {
             Fn(item) => {
                 let mut new_sig = item.sig.clone();
                 visit_signature_mut(&mut cv, &mut new_sig);
-                let first_arg = item.sig.inputs.iter().next().unwrap();
-                let pat = &**match first_arg {
-                    syn::FnArg::Typed(syn::PatType{pat, ..}) => pat,
-                    _ => unreachable!("expected typed arg"),
-                };
-                let ident = match pat {
-                    syn::Pat::Ident(id) => &id.ident,
-                    _ => unreachable!("expected identifier"),
+                let pat = match item.sig.inputs.first() {
+                    Some(syn::FnArg::Typed(syn::PatType{pat, ..})) => pat,
+                    // Without an argument there are no lanes.
+                    _ => {
+                        others.push(it.clone());
+                        continue;
+                    }
                 };
                 cv.visit_signature_mut(&mut new_sig);
                 let mut new_block = (*item.block).clone();
-                new_block.stmts.insert(0, parse_quote! {let #ident = self;});
+                new_block.stmts.insert(0, parse_quote! {let #pat = self;});
                 cv.visit_block_mut(&mut new_block);
                 for c in cv.consts.clone() {
                     let ident = &c.ident;
@@ -315,7 +315,7 @@ pub fn to_simd(file: &syn::File, options: Options) -> syn::File {
                 methods.push(new_method);
             }
             Type(_item) => {}
-            _ => {}
+            _ => others.push(it.clone()),
         }
     }
 
@@ -340,6 +340,8 @@ pub fn to_simd(file: &syn::File, options: Options) -> syn::File {
 
             #(#methods)*
         }
+
+        #(#others)*
     }
 }
 
-- 
2.43.0


From 392a82403d9740c7f295ab040ed3e0debb6e316b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:07 +0000
Subject: [PATCH 47/51] fix: SIMD methods bind constants that other constants
 use or that follow them

---
 doctor-syn/src/codegen/portable_simd.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/doctor-syn/src/codegen/portable_simd.rs b/doctor-syn/src/codegen/portable_simd.rs
index bc7c67a..216b04c 100644
--- a/doctor-syn/src/codegen/portable_simd.rs
+++ b/doctor-syn/src/codegen/portable_simd.rs
@@ -274,13 +274,17 @@ pub fn to_simd(file: &syn::File, options: Options) -> syn::File {
 
     let mut cv = SimdVisitor::new(options);
 
+    for it in &file.items {
+        if let Item::Const(item) = it {
+            cv.consts.push(item.clone());
+        }
+    }
+
     for it in &file.items {
         cv.idents_used.clear();
         use Item::*;
         match it {
-            Const(item) => {
-                cv.consts.push(item.clone());
-            }
+            Const(_item) => {}
             Fn(item) => {
                 let mut new_sig = item.sig.clone();
                 visit_signature_mut(&mut cv, &mut new_sig);
@@ -296,7 +300,8 @@ pub fn to_simd(file: &syn::File, options: Options) -> syn::File {
                 let mut new_block = (*item.block).clone();
                 new_block.stmts.insert(0, parse_quote! {let #pat = self;});
                 cv.visit_block_mut(&mut new_block);
-                for c in cv.consts.clone() {
+                // A constant may use the ones before it.
+                for c in cv.consts.clone().iter().rev() {
                     let ident = &c.ident;
                     if cv.idents_used.contains(ident) {
                         let mut expr = (&*c.expr).clone();
-- 
2.43.0


From 20978fdded739371e7beeb0a0361594a241f2541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:33 +0000
Subject: [PATCH 48/51] fix: SIMD methods bind inner constants as locals

---
 doctor-syn/src/codegen/portable_simd.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/doctor-syn/src/codegen/portable_simd.rs b/doctor-syn/src/codegen/portable_simd.rs
index 216b04c..2a7dc6e 100644
--- a/doctor-syn/src/codegen/portable_simd.rs
+++ b/doctor-syn/src/codegen/portable_simd.rs
@@ -3,7 +3,7 @@
 
 use quote::{quote, format_ident, ToTokens};
 use syn::punctuated::Punctuated;
-use syn::visit_mut::{visit_expr_mut, visit_ident_mut, VisitMut, visit_signature_mut, visit_local_mut};
+use syn::visit_mut::{visit_expr_mut, visit_ident_mut, VisitMut, visit_signature_mut, visit_local_mut, visit_stmt_mut};
 use syn::{parse_quote, Expr, Ident, Item, ItemConst, Token, Visibility};
 
 pub struct Options {
@@ -140,6 +140,14 @@ impl VisitMut for SimdVisitor {
         }
     }
 
+    // An inner constant can not have the type of the lanes.
+    fn visit_stmt_mut(&mut self, stmt: &mut syn::Stmt) {
+        if let syn::Stmt::Item(Item::Const(ItemConst { ident, expr, .. })) = &*stmt {
+            *stmt = parse_quote! { let #ident = #expr; };
+        }
+        visit_stmt_mut(self, stmt);
+    }
+
     fn visit_local_mut(&mut self, local: &mut syn::Local) {
         visit_local_mut(self, local);
         if let syn::Pat::Type(pat_type) = &local.pat {
-- 
2.43.0


From 3c01fef06e264ffde968552cd9af88ff11975bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:52 +0000
Subject: [PATCH 49/51] fix: negate_on_odd shifts by an amount of the shifted
 type

---
 libmgen/src/auxfuncs.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libmgen/src/auxfuncs.rs b/libmgen/src/auxfuncs.rs
index baaa68a..087d3eb 100644
--- a/libmgen/src/auxfuncs.rs
+++ b/libmgen/src/auxfuncs.rs
@@ -1,6 +1,6 @@
 use crate::Config;
 use doctor_syn::expr;
-use proc_macro2::TokenStream;
+use proc_macro2::{Literal, TokenStream};
 use quote::{format_ident, quote};
 
 #[allow(non_snake_case)]
@@ -290,7 +290,8 @@ pub fn gen_uty(_terms: usize, config: &Config) -> TokenStream {
 }
 
 pub fn gen_negate_on_odd(_terms: usize, config: &Config) -> TokenStream {
-    let shift = (config.num_bits() - 1) as i32;
+    // The shift amount has the type of the shifted value.
+    let shift = Literal::usize_unsuffixed(config.num_bits() - 1);
 
     quote!(
         // If x is odd, negate y.
-- 
2.43.0


From caa38b9bc2459ddcd3102a677855e119f1a77a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:38 +0000
Subject: [PATCH 50/51] fix: exit with a failure status on an unknown language

---
 libmgen/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmgen/src/main.rs b/libmgen/src/main.rs
index 4309b3f..09cafa7 100644
--- a/libmgen/src/main.rs
+++ b/libmgen/src/main.rs
@@ -428,7 +428,7 @@ fn main() {
                 "invalid language {} use \"help\" to list valid options.",
                 config.language()
             );
-            return;
+            std::process::exit(1);
         }
     };
 
-- 
2.43.0


From 307a76f834d94fbc48781443dbdd947841a4707f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:38 +0000
Subject: [PATCH 51/51] fix: refuse widths and number formats that do not exist

---
 libmgen/src/main.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/libmgen/src/main.rs b/libmgen/src/main.rs
index 09cafa7..d1cf120 100644
--- a/libmgen/src/main.rs
+++ b/libmgen/src/main.rs
@@ -363,6 +363,19 @@ fn main() {
         return;
     }
 
+    if !matches!(opt.num_bits, 32 | 64) {
+        eprintln!("invalid number of bits {}, expected 32 or 64.", opt.num_bits);
+        std::process::exit(1);
+    }
+
+    if !matches!(opt.number_type.as_str(), "hex" | "decimal") {
+        eprintln!(
+            "invalid number format {}, expected hex or decimal.",
+            opt.number_type
+        );
+        std::process::exit(1);
+    }
+
     let names = opt
         .functions
         .split(',')
-- 
2.43.0

