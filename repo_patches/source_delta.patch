From c0c1d8abdadd40452cf6f2d2b72868f9d38e7409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:49 +0000
Subject: [PATCH 01/62] fix: Expression operators emit the operator that was
 asked for

make_op! built (lhs) + (rhs) for every non-numeric operand pair, so x - y,
x * y and x / y all became sums.
---
 doctor-syn/src/expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doctor-syn/src/expression.rs b/doctor-syn/src/expression.rs
index 32a8bc8..bfd70d6 100644
--- a/doctor-syn/src/expression.rs
+++ b/doctor-syn/src/expression.rs
@@ -206,7 +206,7 @@ macro_rules! make_op {
             } else {
                 let lhs = lhs.as_ref();
                 let rhs = rhs.as_ref();
-                let res : Expr = parse_quote!((#lhs) + (#rhs));
+                let res : Expr = parse_quote!((#lhs) $op (#rhs));
                 res.into()
             }
         }
-- 
2.43.0


From 647bd544c3696ec34ad9ef95ef9a6ac51fee1e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:49 +0000
Subject: [PATCH 02/62] fix: paren() no longer prints debugging text to stdout

---
 doctor-syn/src/transformation/paren.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/doctor-syn/src/transformation/paren.rs b/doctor-syn/src/transformation/paren.rs
index 4d9ef23..9e7ccdc 100644
--- a/doctor-syn/src/transformation/paren.rs
+++ b/doctor-syn/src/transformation/paren.rs
@@ -26,7 +26,6 @@ impl Visitor for Paren {
                 make_binary(left, op, right)
             }
             Expr::Unary(ExprUnary { op, expr, .. }) => {
-                println!("HERE");
                 let expr = parenthesise_op(*expr.clone());
                 make_unary(op, expr)
             }
-- 
2.43.0


From c44b47a5dc331178b640850c5947334f320e1683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:49 +0000
Subject: [PATCH 03/62] fix: libmgen diagnostics go to stderr, not into the
 generated code

With no -o the library is written to stdout, where the 'ignoring ...' line of
--exclude and the options dump of --debug made it unparsable.
---
 libmgen/src/functions.rs | 2 +-
 libmgen/src/main.rs      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmgen/src/functions.rs b/libmgen/src/functions.rs
index 0d5d848..7d8bb48 100644
--- a/libmgen/src/functions.rs
+++ b/libmgen/src/functions.rs
@@ -28,7 +28,7 @@ pub fn get_functions_and_deps<'a>(names: &'a Vec<String>, exclude: &'a Vec<Strin
     while !stack.is_empty() {
         let name = stack.pop().unwrap();
         if exclude.contains(&name) {
-            println!("ignoring {}", name);
+            eprintln!("ignoring {}", name);
             continue;
         }
         if let Some(f) = FUNCTIONS.iter()
diff --git a/libmgen/src/main.rs b/libmgen/src/main.rs
index 173e777..4309b3f 100644
--- a/libmgen/src/main.rs
+++ b/libmgen/src/main.rs
@@ -348,7 +348,7 @@ fn generate() {
 fn main() {
     let opt = Opt::from_args();
     if opt.debug {
-        println!("opt={:?}", opt);
+        eprintln!("opt={:?}", opt);
     }
 
     if opt.functions.is_empty() {
-- 
2.43.0


From b65d651a0b62c65e0a751a480c6dab311805b868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:41 +0000
Subject: [PATCH 04/62] fix: use_number_type rounds literals to the nearest
 float

BigDecimal::to_f32/to_f64 multiply by an inexact power of ten, so a literal
could come out one or more ulps away. Overflow is now an error, not a panic.
---
 .../src/transformation/use_number_type.rs     | 27 ++++++++++---------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/doctor-syn/src/transformation/use_number_type.rs b/doctor-syn/src/transformation/use_number_type.rs
index ee59430..b5ff3df 100644
--- a/doctor-syn/src/transformation/use_number_type.rs
+++ b/doctor-syn/src/transformation/use_number_type.rs
@@ -1,6 +1,5 @@
-use crate::error::Result;
+use crate::error::{Error, Result};
 use crate::visitor::Visitor;
-use bigdecimal::*;
 use syn::{parse_quote, Expr, ExprLit, Lit};
 
 #[derive(Debug)]
@@ -14,12 +13,14 @@ impl<'a> Visitor for UseNumberType<'a> {
     fn visit_lit(&self, expr: &ExprLit) -> Result<Expr> {
         match &expr.lit {
             Lit::Float(lit) => {
-                let bd: BigDecimal = lit.base10_digits().parse().unwrap();
-                let float32 = bd.to_f32().unwrap();
-                let float64 = bd.to_f64().unwrap();
-                let bits32 = bd.to_f32().unwrap().to_bits();
-                let bits64 = bd.to_f64().unwrap().to_bits();
+                // Unlike BigDecimal::to_f64 this rounds to the nearest value.
+                let float32: f32 = lit.base10_digits().parse().map_err(|_| Error::Overflow)?;
+                let float64: f64 = lit.base10_digits().parse().map_err(|_| Error::Overflow)?;
+                let bits32 = float32.to_bits();
+                let bits64 = float64.to_bits();
                 let e: Expr = match (self.number_type, self.num_bits) {
+                    ("decimal" | "hex", 32) if !float32.is_finite() => return Err(Error::Overflow),
+                    ("decimal" | "hex", 64) if !float64.is_finite() => return Err(Error::Overflow),
                     ("decimal", 32) => parse_quote!(#float32),
                     ("decimal", 64) => parse_quote!(#float64),
                     ("hex", 32) => parse_quote!(f32::from_bits(#bits32)),
@@ -29,12 +30,14 @@ impl<'a> Visitor for UseNumberType<'a> {
                 Ok(e)
             }
             Lit::Int(lit) => {
-                let bd: BigDecimal = lit.base10_digits().parse().unwrap();
-                let float32 = bd.to_f32().unwrap();
-                let float64 = bd.to_f64().unwrap();
-                let bits32 = bd.to_f32().unwrap().to_bits();
-                let bits64 = bd.to_f64().unwrap().to_bits();
+                // Unlike BigDecimal::to_f64 this rounds to the nearest value.
+                let float32: f32 = lit.base10_digits().parse().map_err(|_| Error::Overflow)?;
+                let float64: f64 = lit.base10_digits().parse().map_err(|_| Error::Overflow)?;
+                let bits32 = float32.to_bits();
+                let bits64 = float64.to_bits();
                 let e: Expr = match (self.number_type, self.num_bits) {
+                    ("decimal" | "hex", 32) if !float32.is_finite() => return Err(Error::Overflow),
+                    ("decimal" | "hex", 64) if !float64.is_finite() => return Err(Error::Overflow),
                     ("decimal", 32) => parse_quote!(#float32),
                     ("decimal", 64) => parse_quote!(#float64),
                     ("hex", 32) => parse_quote!(f32::from_bits(#bits32)),
-- 
2.43.0


From e072435193d1606e39875a9ffeff0e8bc775831c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:41 +0000
Subject: [PATCH 05/62] fix: 64 bit hex literals use f64::from_bits

---
 doctor-syn/src/transformation/use_number_type.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/doctor-syn/src/transformation/use_number_type.rs b/doctor-syn/src/transformation/use_number_type.rs
index b5ff3df..e13d34e 100644
--- a/doctor-syn/src/transformation/use_number_type.rs
+++ b/doctor-syn/src/transformation/use_number_type.rs
@@ -24,7 +24,7 @@ impl<'a> Visitor for UseNumberType<'a> {
                     ("decimal", 32) => parse_quote!(#float32),
                     ("decimal", 64) => parse_quote!(#float64),
                     ("hex", 32) => parse_quote!(f32::from_bits(#bits32)),
-                    ("hex", 64) => parse_quote!(f32::from_bits(#bits64)),
+                    ("hex", 64) => parse_quote!(f64::from_bits(#bits64)),
                     _ => expr.clone().into(),
                 };
                 Ok(e)
@@ -41,7 +41,7 @@ impl<'a> Visitor for UseNumberType<'a> {
                     ("decimal", 32) => parse_quote!(#float32),
                     ("decimal", 64) => parse_quote!(#float64),
                     ("hex", 32) => parse_quote!(f32::from_bits(#bits32)),
-                    ("hex", 64) => parse_quote!(f32::from_bits(#bits64)),
+                    ("hex", 64) => parse_quote!(f64::from_bits(#bits64)),
                     _ => expr.clone().into(),
                 };
                 Ok(e)
-- 
2.43.0


From 528060df398c7c0298759a61386c62165eb79745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:09 +0000
Subject: [PATCH 06/62] fix: Rust formatter no longer panics below 30 levels of
 braces

---
 doctor-syn/src/codegen/rust.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/doctor-syn/src/codegen/rust.rs b/doctor-syn/src/codegen/rust.rs
index 261d6e6..3891462 100644
--- a/doctor-syn/src/codegen/rust.rs
+++ b/doctor-syn/src/codegen/rust.rs
@@ -1,8 +1,7 @@
 use proc_macro2::{Delimiter, TokenStream, TokenTree};
 
-fn indent(depth: usize) -> &'static str {
-    let i = "                                                            ";
-    &i[0..depth * 2]
+fn indent(depth: usize) -> String {
+    " ".repeat(depth * 2)
 }
 
 fn append_token(text: &mut String, tt: &TokenTree, depth: usize) {
-- 
2.43.0


From 27436850a4c826fe65cbd8dd33086180bda62215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:18 +0000
Subject: [PATCH 07/62] fix: Rust formatter keeps literals and operators apart
 from the next token

0.5 as f64 was printed as 0.5as, & &x as &&x and / *x as a comment.
---
 doctor-syn/src/codegen/rust.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/doctor-syn/src/codegen/rust.rs b/doctor-syn/src/codegen/rust.rs
index 3891462..3112531 100644
--- a/doctor-syn/src/codegen/rust.rs
+++ b/doctor-syn/src/codegen/rust.rs
@@ -1,4 +1,4 @@
-use proc_macro2::{Delimiter, TokenStream, TokenTree};
+use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
 
 fn indent(depth: usize) -> String {
     " ".repeat(depth * 2)
@@ -55,7 +55,11 @@ fn append_token(text: &mut String, tt: &TokenTree, depth: usize) {
             // }
             _ => {
                 text.extend(tok.chars());
-                // text.extend(" ".chars());
+                // "1.0 as", "1 .max" and "& &" must not run together.
+                match tt {
+                    TokenTree::Punct(p) if p.spacing() == Spacing::Joint => (),
+                    _ => text.extend(" ".chars()),
+                }
             }
         }
     }
-- 
2.43.0


From 087b1fc484334b1a0743eba7a020d0ea79e581d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:39 +0000
Subject: [PATCH 08/62] fix: ONE_BITS and ONE_MASK constants are uty, not fty

They hold integer literals, so every library with log2 failed to compile.
---
 libmgen/src/auxfuncs.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libmgen/src/auxfuncs.rs b/libmgen/src/auxfuncs.rs
index 551f127..640d3a6 100644
--- a/libmgen/src/auxfuncs.rs
+++ b/libmgen/src/auxfuncs.rs
@@ -49,12 +49,12 @@ pub fn gen_INF(_terms: usize, config: &Config) -> TokenStream {
 pub fn gen_ONE_BITS(_terms: usize, config: &Config) -> TokenStream {
     if config.num_bits() == 32 {
         quote!(
-            const ONE_BITS: fty = 0x3f800000_u32;
+            const ONE_BITS: uty = 0x3f800000_u32;
         )
     
     } else {
         quote!(
-            const ONE_BITS: fty = 0x3ff0000000000000_u64;
+            const ONE_BITS: uty = 0x3ff0000000000000_u64;
         )
     }
 }
@@ -63,12 +63,12 @@ pub fn gen_ONE_BITS(_terms: usize, config: &Config) -> TokenStream {
 pub fn gen_ONE_MASK(_terms: usize, config: &Config) -> TokenStream {
     if config.num_bits() == 32 {
         quote!(
-            const ONE_MASK: fty = 0x007fffff_u32;
+            const ONE_MASK: uty = 0x007fffff_u32;
         )
     
     } else {
         quote!(
-            const ONE_MASK: fty = 0x000fffffffffffff_u64;
+            const ONE_MASK: uty = 0x000fffffffffffff_u64;
         )
     }
 }
-- 
2.43.0


From 79f6295cd43f00996754338aae4f7d03084f3029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:11 +0000
Subject: [PATCH 09/62] fix: complete the dependency lists of the generated
 functions

Most functions used types, constants or helpers that were not in their deps,
so the library generated for them alone did not compile.
---
 libmgen/src/functions.rs | 84 ++++++++++++++++++++--------------------
 1 file changed, 42 insertions(+), 42 deletions(-)

diff --git a/libmgen/src/functions.rs b/libmgen/src/functions.rs
index 7d8bb48..c90b8c3 100644
--- a/libmgen/src/functions.rs
+++ b/libmgen/src/functions.rs
@@ -94,189 +94,189 @@ pub static FUNCTIONS: &[Function] = &[
     // },
     Function {
         name: "LOG2_SHIFT",
-        deps: &[],
+        deps: &["ity"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_LOG2_SHIFT),
         test_specs: &[],
     },
     Function {
         name: "LOG2_OFFSET",
-        deps: &[],
+        deps: &["ity"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_LOG2_OFFSET),
         test_specs: &[],
     },
     Function {
         name: "NAN",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_NAN),
         test_specs: &[],
     },
     Function {
         name: "INFINITY",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_INF),
         test_specs: &[],
     },
     Function {
         name: "MIN_POSITIVE",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_MIN_POSITIVE),
         test_specs: &[],
     },
     Function {
         name: "ONE_MASK",
-        deps: &[],
+        deps: &["uty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_ONE_MASK),
         test_specs: &[],
     },
     Function {
         name: "ONE_BITS",
-        deps: &[],
+        deps: &["uty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_ONE_BITS),
         test_specs: &[],
     },
     Function {
         name: "EXP2_ONE",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_EXP2_ONE),
         test_specs: &[],
     },
     Function {
         name: "EXP2_SCALE",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_EXP2_SCALE),
         test_specs: &[],
     },
     Function {
         name: "EXP2_MIN",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_EXP2_MIN),
         test_specs: &[],
     },
     Function {
         name: "EXP2_MAX",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_EXP2_MAX),
         test_specs: &[],
     },
     Function {
         name: "ONE_THIRD",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_ONE_THIRD),
         test_specs: &[],
     },
     Function {
         name: "TWO_THIRDS",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_TWO_THIRDS),
         test_specs: &[],
     },
     Function {
         name: "PI",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_PI),
         test_specs: &[],
     },
     Function {
         name: "PI_BY_2",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_PI_BY_2),
         test_specs: &[],
     },
     Function {
         name: "TAN_PI_BY_8",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_TAN_PI_BY_8),
         test_specs: &[],
     },
     Function {
         name: "PI_BY_8",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_PI_BY_8),
         test_specs: &[],
     },
     Function {
         name: "LOG2_E",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_LOG2_E),
         test_specs: &[],
     },
     Function {
         name: "RECIP_LOG2_E",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_RECIP_LOG2_E),
         test_specs: &[],
     },
     Function {
         name: "RECIP_LOG2_10",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_RECIP_LOG2_10),
         test_specs: &[],
     },
     Function {
         name: "RECIP_PI",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_RECIP_PI),
         test_specs: &[],
     },
     Function {
         name: "RECIP_2PI",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_RECIP_2PI),
         test_specs: &[],
     },
     Function {
         name: "SQRT_RECIP_2PI",
-        deps: &[],
+        deps: &["fty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_SQRT_RECIP_2PI),
         test_specs: &[],
     },
     Function {
         name: "negate_on_odd",
-        deps: &["fty"],
+        deps: &["fty", "ity", "uty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_negate_on_odd),
         test_specs: &[],
     },
     Function {
         name: "recip_approx",
-        deps: &["fty"],
+        deps: &["fty", "uty", "EXP2_ONE"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_recip_approx),
         test_specs: &[],
     },
     Function {
         name: "sqrt_approx",
-        deps: &["fty", "uty"],
+        deps: &["fty", "uty", "EXP2_ONE"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_sqrt_approx),
         test_specs: &[],
     },
     Function {
         name: "cbrt_approx",
-        deps: &["fty"],
+        deps: &["fty", "uty", "EXP2_ONE"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_cbrt_approx),
         test_specs: &[],
@@ -295,21 +295,21 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "sinh",
-        deps: &["fty"],
+        deps: &["fty", "exp2", "LOG2_E"],
         num_terms: [16, 24],
         gen: Some(crate::hyperbolic::gen_sinh),
         test_specs: &[],
     },
     Function {
         name: "cosh",
-        deps: &["fty"],
+        deps: &["fty", "exp2", "LOG2_E"],
         num_terms: [16, 24],
         gen: Some(crate::hyperbolic::gen_cosh),
         test_specs: &[],
     },
     Function {
         name: "tanh",
-        deps: &["fty"],
+        deps: &["fty", "exp2", "LOG2_E"],
         num_terms: [16, 24],
         gen: Some(crate::hyperbolic::gen_tanh),
         test_specs: &[],
@@ -377,21 +377,21 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "atan",
-        deps: &["fty"],
+        deps: &["fty", "PI_BY_2"],
         num_terms: [16, 36],
         gen: Some(crate::inv_trig::gen_atan),
         test_specs: &[],
     },
     Function {
         name: "atan2",
-        deps: &["fty", "PI_BY_8", "PI_BY_2", "TAN_PI_BY_8"],
+        deps: &["fty", "PI", "PI_BY_8", "PI_BY_2", "TAN_PI_BY_8"],
         num_terms: [16, 36],
         gen: Some(crate::inv_trig::gen_atan2),
         test_specs: &[],
     },
     Function {
         name: "exp2",
-        deps: &["fty", "ity", "uty", "EXP2_SCALE", "EXP2_ONE", "EXP2_MIN", "EXP2_MAX"],
+        deps: &["fty", "ity", "uty", "round", "INFINITY", "EXP2_SCALE", "EXP2_ONE", "EXP2_MIN", "EXP2_MAX"],
         num_terms: [8, 12],
         gen: Some(crate::log_exp::gen_exp2),
         test_specs: &[
@@ -437,7 +437,7 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "exp_m1",
-        deps: &["fty", "exp2"],
+        deps: &["fty", "uty", "round", "LOG2_E", "EXP2_SCALE", "EXP2_ONE"],
         num_terms: [8, 12],
         gen: Some(crate::log_exp::gen_exp_m1),
         test_specs: &[
@@ -457,7 +457,7 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "log2",
-        deps: &["fty", "LOG2_SHIFT", "LOG2_OFFSET", "ONE_MASK", "ONE_BITS", "MIN_POSITIVE", "NAN", "INFINITY"],
+        deps: &["fty", "ity", "uty", "LOG2_SHIFT", "LOG2_OFFSET", "ONE_MASK", "ONE_BITS", "MIN_POSITIVE", "NAN", "INFINITY"],
         num_terms: [10, 20],
         gen: Some(crate::log_exp::gen_log2),
         test_specs: &[
@@ -491,7 +491,7 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "ln",
-        deps: &["log2", "RECIP_LOG2_E"],
+        deps: &["fty", "log2", "RECIP_LOG2_E"],
         num_terms: [16, 24],
         gen: Some(crate::log_exp::gen_ln),
         test_specs: &[
@@ -511,7 +511,7 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "log10",
-        deps: &["log2", "RECIP_LOG2_10"],
+        deps: &["fty", "log2", "RECIP_LOG2_10"],
         num_terms: [16, 24],
         gen: Some(crate::log_exp::gen_log10),
         test_specs: &[
@@ -558,7 +558,7 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "powi",
-        deps: &["fty", "log2", "exp2"],
+        deps: &["fty", "ity", "powf"],
         num_terms: [16, 24],
         gen: Some(crate::log_exp::gen_powi),
         test_specs: &[],
@@ -572,7 +572,7 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "cbrt",
-        deps: &["fty", "ONE_THIRD", "TWO_THIRDS"],
+        deps: &["fty", "uty", "EXP2_ONE", "ONE_THIRD", "TWO_THIRDS"],
         num_terms: [16, 24],
         gen: Some(crate::recip_sqrt::gen_cbrt),
         test_specs: &[],
@@ -586,14 +586,14 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "hypot",
-        deps: &["fty"],
+        deps: &["fty", "MIN_POSITIVE"],
         num_terms: [16, 24],
         gen: Some(crate::recip_sqrt::gen_hypot),
         test_specs: &[],
     },
     Function {
         name: "runif",
-        deps: &["fty"],
+        deps: &["fty", "uty", "ONE_BITS"],
         num_terms: [0, 0],
         gen: Some(crate::stats_random::gen_runif),
         test_specs: &[
@@ -726,7 +726,7 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "tan",
-        deps: &["fty", "RECIP_PI"],
+        deps: &["fty", "round", "RECIP_PI"],
         num_terms: [12, 24],
         gen: Some(crate::trig::gen_tan),
         test_specs: &[
-- 
2.43.0


From 37386b184e9892a5acdbff55fbb00859f5fa7dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:27 +0000
Subject: [PATCH 10/62] fix: the 32 bit runif compiles

It assigned 64 bit hash values to 32 bit variables. The hash now always uses
u64 and the 32 bit mantissa is taken from the high bits.
---
 libmgen/src/stats_random.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/libmgen/src/stats_random.rs b/libmgen/src/stats_random.rs
index 815c695..76293b8 100644
--- a/libmgen/src/stats_random.rs
+++ b/libmgen/src/stats_random.rs
@@ -3,15 +3,17 @@ use proc_macro2::TokenStream;
 use quote::quote;
 
 pub fn gen_runif(num_terms: usize, config: &Config) -> TokenStream {
+    // Use the high bits as the mantissa.
+    let shift: u32 = if config.num_bits() == 32 { 34 } else { 2 };
     quote!(
         /// See https://xorshift.di.unimi.it/splitmix64.c
         /// Returns half-close range 0-1
         pub fn runif(index: usize, min: fty, max: fty) -> fty {
-            let z : uty = (index as u64 + 1).wrapping_mul(0x9e3779b97f4a7c15);
-            let z1 : uty = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
-            let z2 : uty = (z1 ^ (z1 >> 27)).wrapping_mul(0x94d049bb133111eb);
-            let z3 : uty = z2 ^ (z2 >> 31);
-            let x : fty = fty::from_bits((z3 as uty >> 2) | ONE_BITS) - 1.0;
+            let z : u64 = (index as u64 + 1).wrapping_mul(0x9e3779b97f4a7c15);
+            let z1 : u64 = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
+            let z2 : u64 = (z1 ^ (z1 >> 27)).wrapping_mul(0x94d049bb133111eb);
+            let z3 : u64 = z2 ^ (z2 >> 31);
+            let x : fty = fty::from_bits(((z3 >> #shift) as uty) | ONE_BITS) - 1.0;
             (x * (max - min)) + min
         }
     )
-- 
2.43.0


From 9d69edc7a936c81945860c6d1f5975b34bdb3fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:27 +0000
Subject: [PATCH 11/62] fix: qnorm starts its Newton iteration at the mean

Starting at zero it diverged, or never ended, for a mean far from zero.
From the mean the iteration converges from one side for every probability.
---
 doctor-syn/src/bdmath.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doctor-syn/src/bdmath.rs b/doctor-syn/src/bdmath.rs
index 05924e9..2e55a42 100644
--- a/doctor-syn/src/bdmath.rs
+++ b/doctor-syn/src/bdmath.rs
@@ -377,7 +377,7 @@ pub fn qnorm(
         // if x.abs() < bigdf(0.01) {
         //     guess = bigdf(0.0);
         // }
-        let mut guess = bigdf(0.0);
+        let mut guess = mean.clone();
         loop {
             // println!("guess={}", guess);
             let pnorm = pnorm(guess.clone(), mean.clone(), sd.clone(), num_digits);
-- 
2.43.0


From e48f3a39dbc4933110051bacc6448c7ae7581325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:54 +0000
Subject: [PATCH 12/62] fix: round_ieee and bigdf return the exact value of the
 nearest float

BigDecimal::to_f64 does not round correctly and BigDecimal::from_f64 keeps 16
digits, so reference values of the generated 64 bit tests were an ulp off.
---
 doctor-syn/src/bdmath.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/doctor-syn/src/bdmath.rs b/doctor-syn/src/bdmath.rs
index 2e55a42..8d11163 100644
--- a/doctor-syn/src/bdmath.rs
+++ b/doctor-syn/src/bdmath.rs
@@ -86,12 +86,18 @@ pub fn bigd(i: i32) -> BigDecimal {
     BigDecimal::from_i32(i).unwrap()
 }
 
+/// The exact value of a finite float.
+/// Note that BigDecimal::from_f64 only keeps 16 digits.
 pub fn bigdf(i: f64) -> BigDecimal {
-    BigDecimal::from_f64(i).unwrap()
+    // No f64 has more than 1074 decimal places. Keep one so that it prints as a float.
+    let digits = format!("{:.1074}", i);
+    let digits = digits.trim_end_matches('0').trim_end_matches('.');
+    let x: BigDecimal = digits.parse().unwrap();
+    if x.as_bigint_and_exponent().1 == 0 { x.with_scale(1) } else { x }
 }
 
 pub fn bigdf32(i: f32) -> BigDecimal {
-    BigDecimal::from_f32(i).unwrap()
+    bigdf(i as f64)
 }
 
 pub fn zero() -> BigDecimal {
@@ -336,10 +342,12 @@ pub fn dnorm(x: BigDecimal, mean: BigDecimal, sd: BigDecimal, num_digits: i64) -
 pub fn round_ieee(x: BigDecimal, bits: BigDecimal, _num_digits: i64) -> Result<BigDecimal> {
     match bits.to_i32() {
         Some(32) => {
-            Ok(BigDecimal::from_f32(x.to_f32().ok_or(Error::Overflow)?).ok_or(Error::Overflow)?)
+            let val: f32 = x.to_string().parse().map_err(|_| Error::Overflow)?;
+            if val.is_finite() { Ok(bigdf32(val)) } else { Err(Error::Overflow) }
         }
         Some(64) => {
-            Ok(BigDecimal::from_f64(x.to_f64().ok_or(Error::Overflow)?).ok_or(Error::Overflow)?)
+            let val: f64 = x.to_string().parse().map_err(|_| Error::Overflow)?;
+            if val.is_finite() { Ok(bigdf(val)) } else { Err(Error::Overflow) }
         }
         _ => Err(Error::Expected32or64bits),
     }
-- 
2.43.0


From 5b59073aa6f3e09848c702e6e915d85b151c161f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:56 +0000
Subject: [PATCH 13/62] fix: floats converted to an Expression convert back to
 the same float

BigDecimal::from_f64 keeps 16 significant digits; up to 17 are needed.
---
 doctor-syn/src/expression.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/doctor-syn/src/expression.rs b/doctor-syn/src/expression.rs
index bfd70d6..a45dc2a 100644
--- a/doctor-syn/src/expression.rs
+++ b/doctor-syn/src/expression.rs
@@ -66,14 +66,16 @@ impl From<bool> for Expression {
 
 impl From<f64> for Expression {
     fn from(val: f64) -> Self {
-        let bd = BigDecimal::from_f64(val).unwrap();
+        // The shortest digits that give this value back.
+        let bd: BigDecimal = format!("{:e}", val).parse().unwrap();
         Expression::from(bd)
     }
 }
 
 impl From<f32> for Expression {
     fn from(val: f32) -> Self {
-        let bd = BigDecimal::from_f32(val).unwrap();
+        // The shortest digits that give this value back.
+        let bd: BigDecimal = format!("{:e}", val).parse().unwrap();
         Expression::from(bd)
     }
 }
-- 
2.43.0


From 986b94235b1f49a2021131c2346dc70a145a68fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:17 +0000
Subject: [PATCH 14/62] fix: generated accuracy tests fail when a function
 returns NaN

NaN compares false, so a NaN error was never recorded as the maximum.
---
 libmgen/src/auxfuncs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmgen/src/auxfuncs.rs b/libmgen/src/auxfuncs.rs
index 640d3a6..9b2acb1 100644
--- a/libmgen/src/auxfuncs.rs
+++ b/libmgen/src/auxfuncs.rs
@@ -450,7 +450,7 @@ pub fn gen_test_function(_terms: usize, config: &Config) -> TokenStream {
             for &(x , yref, yerr) in accurate_values {
                 let ycalc = f(x);
                 let eref = (ycalc - yref - yerr). abs ();
-                if eref > max_ref_error {
+                if eref > max_ref_error || eref.is_nan() {
                     max_ref_error = eref;
                     bad_ycalc = ycalc;
                     bad_yref = yref;
-- 
2.43.0


From a19be6552f1f9db023ab391f6416bbdbed4b1cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:17 +0000
Subject: [PATCH 15/62] fix: generated histogram tests check every bucket

Only the error of the last bucket was compared, against a limit well below
the sampling error. The 32 bit rnorm histogram now compiles too.
---
 libmgen/src/functions.rs | 2 +-
 libmgen/src/test.rs      | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/libmgen/src/functions.rs b/libmgen/src/functions.rs
index c90b8c3..4e4abce 100644
--- a/libmgen/src/functions.rs
+++ b/libmgen/src/functions.rs
@@ -660,7 +660,7 @@ pub static FUNCTIONS: &[Function] = &[
         test_specs: &[
             TestSpec {
                 test_name: "test_rnorm",
-                ref_expr: "dnorm(x, 0.0, 1.0)",
+                ref_expr: "dnorm(x as fty, 0.0, 1.0)",
                 rust_expr: "rnorm(i, 0.0, 1.0)",
                 test: TestType::Histogram("-2.0", "2.0"),
             },
diff --git a/libmgen/src/test.rs b/libmgen/src/test.rs
index b02762c..0d06b1f 100644
--- a/libmgen/src/test.rs
+++ b/libmgen/src/test.rs
@@ -122,10 +122,11 @@ fn gen_histogram(
                 let pdf_est = h[i] as f64 / ((#niter) as f64 * dx);
                 let pdf_ref = (#refexpr) as f64;
                 println!("{} {} {}", x, pdf_est, pdf_ref);
-                max_err = (pdf_est - pdf_ref).abs();
+                max_err = max_err.max((pdf_est - pdf_ref).abs());
             }
             println!("max err = {}", max_err);
-            assert!(max_err < 0.001);
+            // The standard deviation of pdf_est is up to 0.0056.
+            assert!(max_err < 0.03);
         }
     )
 }
-- 
2.43.0


From a9b97d4088871d4ce342c1ad34f367708ddfa1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:17 +0000
Subject: [PATCH 16/62] fix: eval returns an error where a function is
 undefined

Division by zero, recip(0), asin/acos outside -1..1, log base 1, qnorm at 0 or
1, a non-positive sd and unparsable literals panicked instead.
---
 doctor-syn/src/bdmath.rs              |  9 ++++-----
 doctor-syn/src/transformation/eval.rs | 17 ++++++++++++++---
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/doctor-syn/src/bdmath.rs b/doctor-syn/src/bdmath.rs
index 8d11163..be6a265 100644
--- a/doctor-syn/src/bdmath.rs
+++ b/doctor-syn/src/bdmath.rs
@@ -290,10 +290,9 @@ pub fn ln(mut x: BigDecimal, num_digits: i64) -> Option<BigDecimal> {
 }
 
 pub fn log(x: BigDecimal, base: BigDecimal, num_digits: i64) -> Option<BigDecimal> {
-    if let (Some(lnx), Some(lnbase)) = (ln(x, num_digits), ln(base, num_digits)) {
-        Some(lnx / lnbase)
-    } else {
-        None
+    match (ln(x, num_digits), ln(base, num_digits)) {
+        (Some(lnx), Some(lnbase)) if !lnbase.is_zero() => Some(lnx / lnbase),
+        _ => None,
     }
 }
 
@@ -379,7 +378,7 @@ pub fn qnorm(
     num_digits: i64,
 ) -> Option<BigDecimal> {
     // println!("x={}", x);
-    if let Some(_logit) = ln(&x / (one() - &x), num_digits) {
+    if x.is_positive() && x < one() {
         // let mut guess = logit * bigdf(0.6);
         // let mut guess = logit * bigdf(0.1);
         // if x.abs() < bigdf(0.01) {
diff --git a/doctor-syn/src/transformation/eval.rs b/doctor-syn/src/transformation/eval.rs
index dd98933..bb67381 100644
--- a/doctor-syn/src/transformation/eval.rs
+++ b/doctor-syn/src/transformation/eval.rs
@@ -70,6 +70,8 @@ impl Visitor for Eval {
             //     .try_into()?
 
             //     .into()),
+            ("recip", x, 0) if x.is_zero() => Err(errfn()),
+
             ("recip", x, 0) => Ok(Expression::from(x.inverse()).into()),
 
             ("powi", x, 1) => {
@@ -123,8 +125,12 @@ impl Visitor for Eval {
 
             ("cos", x, 0) => Ok(Expression::from(cos(x, self.num_digits)).into()),
 
+            ("tan", x, 0) if cos(x.clone(), self.num_digits).is_zero() => Err(errfn()),
+
             ("tan", x, 0) => Ok(Expression::from(tan(x, self.num_digits)).into()),
 
+            ("asin", x, 0) | ("acos", x, 0) if x.abs() > one() => Err(errfn()),
+
             ("asin", x, 0) => Ok(Expression::from(asin(x, self.num_digits)).into()),
 
             ("acos", x, 0) => Ok(Expression::from(acos(x, self.num_digits)).into()),
@@ -135,6 +141,10 @@ impl Visitor for Eval {
 
             ("erfc", x, 0) => Ok(Expression::from(erfc(x, self.num_digits)).into()),
 
+            ("dnorm", _, 2) | ("pnorm", _, 2) | ("qnorm", _, 2) if !arg1().is_positive() => {
+                Err(errfn())
+            }
+
             ("dnorm", x, 2) => {
                 Ok(Expression::from(dnorm(x, arg0(), arg1(), self.num_digits)).into())
             }
@@ -174,14 +184,15 @@ impl Visitor for Eval {
         let right: Expression = self.visit_expr(&exprbinary.right)?.into();
 
         if left.is_numeric() && right.is_numeric() {
-            let left: BigDecimal = left.try_into().unwrap();
-            let right: BigDecimal = right.try_into().unwrap();
+            let left: BigDecimal = left.try_into()?;
+            let right: BigDecimal = right.try_into()?;
             match exprbinary.op {
                 BinOp::Add(_) => Ok(Expression::from(left + right).into()),
                 BinOp::Sub(_) => Ok(Expression::from(left - right).into()),
                 BinOp::Mul(_) => {
                     Ok(Expression::from(round(left * right, self.num_digits as i64)).into())
                 }
+                BinOp::Div(_) if right.is_zero() => Err(eval_err(exprbinary.clone().into())),
                 BinOp::Div(_) => {
                     Ok(Expression::from(round(left / right, self.num_digits as i64)).into())
                 }
@@ -201,7 +212,7 @@ impl Visitor for Eval {
     fn visit_unary(&self, exprunary: &ExprUnary) -> Result<Expr> {
         let expr: Expression = self.visit_expr(&exprunary.expr)?.into();
         if expr.is_numeric() {
-            let expr: BigDecimal = expr.try_into().unwrap();
+            let expr: BigDecimal = expr.try_into()?;
             match exprunary.op {
                 // UnOp::Deref(_) => (),
                 // UnOp::Not(_) => (),
-- 
2.43.0


From 36911ac6bb44849d7da71fba38e0226e2efc701c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:24 +0000
Subject: [PATCH 17/62] fix: approx with fewer than two terms is an error, not
 a panic

---
 doctor-syn/src/transformation/approx.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/doctor-syn/src/transformation/approx.rs b/doctor-syn/src/transformation/approx.rs
index f229652..89a0144 100644
--- a/doctor-syn/src/transformation/approx.rs
+++ b/doctor-syn/src/transformation/approx.rs
@@ -80,6 +80,10 @@ pub fn approx(
     let xmin = bigdf(xmin);
     let xmax = bigdf(xmax);
 
+    if num_terms < 2 {
+        return Err(Error::WrongNumberOfTerms(expr.span()));
+    }
+
     // let err_fn = || Error::CouldNotEvaulate(expr.span());
     let a = (&xmax + &xmin) * half();
     let b = pi(num_digits) / BigDecimal::from_usize(num_terms - 1).unwrap();
-- 
2.43.0


From db3a95d57de9a623071dfaea06a2d77204844381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:44 +0000
Subject: [PATCH 18/62] fix: subst parenthesises compound replacements

Substituting 1 + 1 for x in x * 2 printed 1 + 1 * 2, which means something else
once it is parsed or compiled.
---
 doctor-syn/src/transformation/subst.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/doctor-syn/src/transformation/subst.rs b/doctor-syn/src/transformation/subst.rs
index 65178e9..6d23ce2 100644
--- a/doctor-syn/src/transformation/subst.rs
+++ b/doctor-syn/src/transformation/subst.rs
@@ -1,6 +1,8 @@
+use super::tools::make_paren;
 use crate::error::Result;
 use crate::visitor::Visitor;
 use crate::{Name, VariableList};
+use quote::ToTokens;
 use syn::{Expr, ExprPath};
 
 #[derive(Debug)]
@@ -8,6 +10,18 @@ pub struct Subst {
     pub(crate) variables: VariableList,
 }
 
+// The result must keep its meaning when it is printed, so x * 2 with x = 1 + 1
+// is (1 + 1) * 2.
+fn parenthesise(expr: Expr) -> Expr {
+    match &expr {
+        Expr::Lit(lit) if !lit.to_token_stream().to_string().starts_with('-') => expr,
+        Expr::Path(_) | Expr::Paren(_) | Expr::MethodCall(_) | Expr::Call(_) | Expr::Field(_) => {
+            expr
+        }
+        _ => make_paren(expr),
+    }
+}
+
 impl Visitor for Subst {
     /// eg. "x" or "f64::const::PI"
     fn visit_path(&self, exprpath: &ExprPath) -> Result<Expr> {
@@ -15,7 +29,7 @@ impl Visitor for Subst {
         let name: Name = exprpath.path.clone().into();
         if let Some(res) = self.variables.find(&name) {
             // Substitute.
-            Ok(res.into())
+            Ok(parenthesise(res.into()))
         } else {
             // Clone.
             Ok(exprpath.clone().into())
-- 
2.43.0


From 8845c6e0b7055c6f32e07f5d8ce936a6ab92c1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:22 +0000
Subject: [PATCH 19/62] fix: pi is accurate beyond 100 digits

---
 doctor-syn/src/bdmath.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/doctor-syn/src/bdmath.rs b/doctor-syn/src/bdmath.rs
index be6a265..68750af 100644
--- a/doctor-syn/src/bdmath.rs
+++ b/doctor-syn/src/bdmath.rs
@@ -56,9 +56,22 @@ pub fn pi(num_digits: i64) -> BigDecimal {
         let x : BigDecimal = "3.141592653589793238462643383279502884197169399375105820974944592307816406286208998628034825342117067982148086513282306647093844609550582231725359408128481".parse().unwrap();
         round(x, num_digits as i64)
     } else {
-        // Machin series.
-        (atan(one() / bigd(5), num_digits) * bigd(4) - atan(one() / bigd(239), num_digits))
-            * bigd(4)
+        // Machin series. BigDecimal's division only has 100 digits, so use integers.
+        let guard = num_digits + 10;
+        let scale = BigInt::from(10).pow(guard as u32);
+        let atan_recip = |n: i32| {
+            let mut power = &scale / n;
+            let mut tot = BigInt::zero();
+            let mut i = 1;
+            while !power.is_zero() {
+                tot += &power / i;
+                power /= -n * n;
+                i += 2;
+            }
+            tot
+        };
+        let x = (atan_recip(5) * 4 - atan_recip(239)) * 4;
+        round(BigDecimal::new(x, guard), num_digits)
     }
 }
 
-- 
2.43.0


From 72af8ab37d48d4052913d65addfa82afe8209f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:32 +0000
Subject: [PATCH 20/62] fix: the series of large integer arguments keep their
 decimals

---
 doctor-syn/src/bdmath.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/doctor-syn/src/bdmath.rs b/doctor-syn/src/bdmath.rs
index 68750af..8ecf77c 100644
--- a/doctor-syn/src/bdmath.rs
+++ b/doctor-syn/src/bdmath.rs
@@ -145,7 +145,8 @@ fn maclaurin<F: FnMut(i32, &BigDecimal, &BigDecimal, &BigDecimal) -> Option<BigD
     num_digits: i64,
     mut f: F,
 ) -> BigDecimal {
-    let mut power = BigDecimal::one();
+    // BigDecimal's division gives no decimals to a large quotient of integers.
+    let mut power = BigDecimal::one().with_scale(num_digits.max(0) * 2);
     let mut factorial = BigDecimal::one();
     let mut tot = BigDecimal::zero();
     let mut i = 0;
-- 
2.43.0


From 2a71f56937645f76cbc301826ae1a55514ae5d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:05 +0000
Subject: [PATCH 21/62] fix: functions of large arguments converge

---
 doctor-syn/src/bdmath.rs | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/doctor-syn/src/bdmath.rs b/doctor-syn/src/bdmath.rs
index 8ecf77c..9ea706d 100644
--- a/doctor-syn/src/bdmath.rs
+++ b/doctor-syn/src/bdmath.rs
@@ -179,7 +179,24 @@ fn maclaurin<F: FnMut(i32, &BigDecimal, &BigDecimal, &BigDecimal) -> Option<BigD
     round(tot, num_digits as i64 + 1).normalized()
 }
 
+// The series of large numbers do not converge in time.
+fn is_large(x: &BigDecimal) -> bool {
+    x.abs() > bigd(200)
+}
+
+// Reduce a large angle to -pi..pi.
+fn reduce_angle(x: BigDecimal, num_digits: i64) -> BigDecimal {
+    if !is_large(&x) {
+        return x;
+    }
+    let int_digits = x.digits() as i64 - x.as_bigint_and_exponent().1;
+    let two_pi = pi(num_digits * 2 + int_digits) * two();
+    let turns = round(&x / &two_pi, 0);
+    x - turns * two_pi
+}
+
 pub fn sin(x: BigDecimal, num_digits: i64) -> BigDecimal {
+    let x = reduce_angle(x, num_digits);
     maclaurin(x, num_digits, |i, tot, power, factorial| match i & 3 {
         1 => Some(tot + power / factorial),
         3 => Some(tot - power / factorial),
@@ -188,6 +205,7 @@ pub fn sin(x: BigDecimal, num_digits: i64) -> BigDecimal {
 }
 
 pub fn cos(x: BigDecimal, num_digits: i64) -> BigDecimal {
+    let x = reduce_angle(x, num_digits);
     maclaurin(x, num_digits, |i, tot, power, factorial| match i & 3 {
         0 => Some(tot + power / factorial),
         2 => Some(tot - power / factorial),
@@ -196,6 +214,13 @@ pub fn cos(x: BigDecimal, num_digits: i64) -> BigDecimal {
 }
 
 pub fn exp(x: BigDecimal, num_digits: i64) -> BigDecimal {
+    if is_large(&x) {
+        if x < BigDecimal::from_i64(-3 * (num_digits + 2)).unwrap() {
+            return zero();
+        }
+        let root = exp(x * half(), num_digits);
+        return round(&root * &root, num_digits + 1).normalized();
+    }
     maclaurin(x, num_digits, |_i, tot, power, factorial| {
         Some(tot + power / factorial)
     })
@@ -323,6 +348,10 @@ pub fn pow(x: BigDecimal, y: BigDecimal, num_digits: i64) -> Option<BigDecimal>
 /// 1       -3        10      -42      216
 /// 1 * 1!  -3 * 1!   5 * 2!  -7 * 3!  9 * 4!
 pub fn erf(x: BigDecimal, num_digits: i64) -> BigDecimal {
+    // 1 - erf(x) < exp(-x * x)
+    if &x * &x > BigDecimal::from_i64(200 + 3 * (num_digits + 2)).unwrap() {
+        return x.signum();
+    }
     two() / sqrt(pi(num_digits), num_digits).unwrap()
         * &x
         * maclaurin(&x * &x, num_digits, |i, tot, power, factorial| {
-- 
2.43.0


From d435bf05d72c6cf1b7b01b8d47958fff07c9a8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:55 +0000
Subject: [PATCH 22/62] fix: expand sees through nested parentheses and signs
 and keeps needed parentheses

---
 doctor-syn/src/transformation/expand.rs | 44 ++++++++++++++++++++++---
 doctor-syn/src/transformation/tools.rs  |  2 +-
 2 files changed, 41 insertions(+), 5 deletions(-)

diff --git a/doctor-syn/src/transformation/expand.rs b/doctor-syn/src/transformation/expand.rs
index ca441e5..f6a80c2 100644
--- a/doctor-syn/src/transformation/expand.rs
+++ b/doctor-syn/src/transformation/expand.rs
@@ -7,10 +7,33 @@ use syn::{BinOp, Expr, ExprBinary, ExprUnary, UnOp};
 #[derive(Debug)]
 pub struct Expand {}
 
+// Can this be an operand of a product without parentheses, when it is printed?
+fn is_factor(expr: &Expr) -> bool {
+    match expr {
+        Expr::Binary(ExprBinary {
+            op: BinOp::Mul(_) | BinOp::Div(_),
+            left,
+            ..
+        }) => is_factor(left),
+        Expr::Binary(_) => false,
+        Expr::Unary(ExprUnary { expr, .. }) => is_factor(expr),
+        _ => true,
+    }
+}
+
+// A product's operand: a * (b % c) needs its parentheses when it is printed.
+fn factor(expr: &Expr) -> Expr {
+    if is_factor(expr) {
+        expr.clone()
+    } else {
+        make_paren(expr.clone())
+    }
+}
+
 // Get a series of additions/subtractions.
 fn match_sum(expr: &Expr, sum: &mut Vec<Expr>, is_negated: bool) -> Result<()> {
-    let expr = deparen(expr);
-    match expr {
+    let inner = deparen(expr);
+    match inner {
         Expr::Binary(ExprBinary {
             left, op, right, ..
         }) => match op {
@@ -31,15 +54,28 @@ fn match_sum(expr: &Expr, sum: &mut Vec<Expr>, is_negated: bool) -> Result<()> {
                 match_sum(right, &mut right_sum, false)?;
                 for lhs in left_sum.iter() {
                     for rhs in right_sum.iter() {
-                        sum.push(make_binary(lhs.clone(), op.clone(), rhs.clone()));
+                        sum.push(make_binary(factor(lhs), op.clone(), factor(rhs)));
                     }
                 }
                 return Ok(());
             }
             _ => {}
         },
+        Expr::Unary(ExprUnary {
+            op: UnOp::Neg(_),
+            expr,
+            ..
+        }) => return match_sum(expr, sum, !is_negated),
         _ => {}
     }
+    // x - (a & b) needs its parentheses when it is printed.
+    let expr = match inner {
+        Expr::Binary(ExprBinary {
+            op: BinOp::Div(_), ..
+        }) => inner,
+        Expr::Binary(_) => expr,
+        _ => inner,
+    };
     if is_negated {
         sum.push(negate(&expr));
     } else {
@@ -55,7 +91,7 @@ impl Visitor for Expand {
             UnOp::Not(_) => Err(Error::UnsupportedExpr(exprunary.span())),
             UnOp::Neg(_) => {
                 let mut sum = Vec::new();
-                match_sum(deparen(&exprunary.expr), &mut sum, true)?;
+                match_sum(&exprunary.expr, &mut sum, true)?;
                 Ok(make_sum(&*sum))
             }
         }
diff --git a/doctor-syn/src/transformation/tools.rs b/doctor-syn/src/transformation/tools.rs
index a24eb7c..0bfd010 100644
--- a/doctor-syn/src/transformation/tools.rs
+++ b/doctor-syn/src/transformation/tools.rs
@@ -22,7 +22,7 @@ pub fn negate(expr: &Expr) -> Expr {
 // Strip parentheses.
 pub fn deparen(expr: &Expr) -> &Expr {
     match expr {
-        Expr::Paren(ExprParen { expr, .. }) => &*expr,
+        Expr::Paren(ExprParen { expr, .. }) => deparen(expr),
         _ => expr,
     }
 }
-- 
2.43.0


From b1d3821ed7edd55c45f41ce7a8b21f9c59131fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:46 +0000
Subject: [PATCH 23/62] fix: asinh of negative numbers is accurate

---
 libmgen/src/hyperbolic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmgen/src/hyperbolic.rs b/libmgen/src/hyperbolic.rs
index 498f0f1..fc0802f 100644
--- a/libmgen/src/hyperbolic.rs
+++ b/libmgen/src/hyperbolic.rs
@@ -38,7 +38,7 @@ pub fn gen_tanh(_num_terms: usize, _config: &Config) -> TokenStream {
 pub fn gen_asinh(_num_terms: usize, _config: &Config) -> TokenStream {
     quote!(
         pub fn asinh(x: fty) -> fty {
-            ln(x + (x * x + 1.0).sqrt())
+            ln(x.abs() + (x * x + 1.0).sqrt()).copysign(x)
         }
     )
 }
-- 
2.43.0


From 7d07ed728cbd2bdfabde5042d4c91dc7e9a2a938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:46 +0000
Subject: [PATCH 24/62] fix: sqrt, cbrt and recip start close enough and
 iterate to full accuracy

---
 libmgen/src/auxfuncs.rs   | 6 +++---
 libmgen/src/recip_sqrt.rs | 8 +++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/libmgen/src/auxfuncs.rs b/libmgen/src/auxfuncs.rs
index 9b2acb1..f13579b 100644
--- a/libmgen/src/auxfuncs.rs
+++ b/libmgen/src/auxfuncs.rs
@@ -365,21 +365,21 @@ fn gen_power_scale(
 pub fn gen_recip_approx(_terms: usize, config: &Config) -> TokenStream {
     let scale = quote!(-1.0);
     let offset = quote!(2.0);
-    let correction = quote!((y - 0.08).copysign(x));
+    let correction = quote!((y * 0.94).copysign(x));
     gen_power_scale(config, quote!(recip_approx), scale, offset, correction)
 }
 
 pub fn gen_sqrt_approx(_terms: usize, config: &Config) -> TokenStream {
     let scale = quote!(0.5);
     let offset = quote!(0.5);
-    let correction = quote!(y - 0.08);
+    let correction = quote!(y * 0.97);
     gen_power_scale(config, quote!(sqrt_approx), scale, offset, correction)
 }
 
 pub fn gen_cbrt_approx(_terms: usize, config: &Config) -> TokenStream {
     let scale = quote!(1.0 / 3.0);
     let offset = quote!(2.0 / 3.0);
-    let correction = quote!((y - 0.08).copysign(x));
+    let correction = quote!((y * 0.97).copysign(x));
     gen_power_scale(config, quote!(cbrt_approx), scale, offset, correction)
 }
 
diff --git a/libmgen/src/recip_sqrt.rs b/libmgen/src/recip_sqrt.rs
index bc91859..ff1f95e 100644
--- a/libmgen/src/recip_sqrt.rs
+++ b/libmgen/src/recip_sqrt.rs
@@ -20,8 +20,10 @@ pub fn gen_sqrt(_num_terms: usize, _config: &Config) -> TokenStream {
     quote!(
         pub fn sqrt(x: fty) -> fty {
             let r: fty = sqrt_approx(x);
-            let y: fty = r + (x - r * r) / (2.0 * r);
-            y
+            let r1: fty = r + (x - r * r) / (2.0 * r);
+            let r2: fty = r1 + (x - r1 * r1) / (2.0 * r1);
+            let r3: fty = r2 + (x - r2 * r2) / (2.0 * r2);
+            r3 + (x - r3 * r3) / (2.0 * r3)
         }
     )
 }
@@ -70,7 +72,7 @@ pub fn gen_recip(_num_terms: usize, _config: &Config) -> TokenStream {
             let r1: fty = r * (2.0 - x * r);
             let r2: fty = r1 * (2.0 - x * r1);
             let r3: fty = r2 * (2.0 - x * r2);
-            r3
+            r3 * (2.0 - x * r3)
         }
     )
 }
-- 
2.43.0


From 27b8610de2312725d70e188c8fef532871e0e42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:33 +0000
Subject: [PATCH 25/62] fix: the generated rnorm test does not need dnorm

---
 libmgen/src/functions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmgen/src/functions.rs b/libmgen/src/functions.rs
index 4e4abce..b646e06 100644
--- a/libmgen/src/functions.rs
+++ b/libmgen/src/functions.rs
@@ -660,7 +660,7 @@ pub static FUNCTIONS: &[Function] = &[
         test_specs: &[
             TestSpec {
                 test_name: "test_rnorm",
-                ref_expr: "dnorm(x as fty, 0.0, 1.0)",
+                ref_expr: "(-0.5 * x * x).exp() * 0.3989422804014327",
                 rust_expr: "rnorm(i, 0.0, 1.0)",
                 test: TestType::Histogram("-2.0", "2.0"),
             },
-- 
2.43.0


From b00e492d3ca86ce4085db6ac298541df475196bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:33 +0000
Subject: [PATCH 26/62] fix: hypot of tiny negative numbers is not negative

---
 libmgen/src/recip_sqrt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmgen/src/recip_sqrt.rs b/libmgen/src/recip_sqrt.rs
index ff1f95e..0c867df 100644
--- a/libmgen/src/recip_sqrt.rs
+++ b/libmgen/src/recip_sqrt.rs
@@ -85,7 +85,7 @@ pub fn gen_hypot(_num_terms: usize, _config: &Config) -> TokenStream {
             let xgty: bool = x.abs() > y.abs();
             let x2: fty = if xgty { x } else { y };
             let y2: fty = if xgty { y } else { x };
-            if x2.abs() <= MIN_POSITIVE { x2 } else { x2.abs() * (1.0 + (y2 / x2) * (y2 / x2)).sqrt() }
+            if x2.abs() <= MIN_POSITIVE { x2.abs() } else { x2.abs() * (1.0 + (y2 / x2) * (y2 / x2)).sqrt() }
         }
     )
 }
-- 
2.43.0


From d6fb93104e56b4b9bfe841b8ed3ff4b5b0c1ce66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:25 +0000
Subject: [PATCH 27/62] fix: tanh of large numbers is 1, not NaN

---
 libmgen/src/hyperbolic.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmgen/src/hyperbolic.rs b/libmgen/src/hyperbolic.rs
index fc0802f..45c106b 100644
--- a/libmgen/src/hyperbolic.rs
+++ b/libmgen/src/hyperbolic.rs
@@ -28,8 +28,8 @@ pub fn gen_cosh(_num_terms: usize, _config: &Config) -> TokenStream {
 pub fn gen_tanh(_num_terms: usize, _config: &Config) -> TokenStream {
     quote!(
         pub fn tanh(x: fty) -> fty {
-            let exp2x: fty = exp2(x * (LOG2_E * 2.0));
-            (exp2x - 1.0) / (exp2x + 1.0)
+            let exp2x: fty = exp2(x.abs() * (LOG2_E * -2.0));
+            ((1.0 - exp2x) / (1.0 + exp2x)).copysign(x)
         }
     )
 }
-- 
2.43.0


From 7fdb93aa1bed23e0ba43aa4be26d70c48964dbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:22 +0000
Subject: [PATCH 28/62] fix: a library without tested functions compiles with
 --generate-tests

---
 libmgen/src/main.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libmgen/src/main.rs b/libmgen/src/main.rs
index 4309b3f..c5cecab 100644
--- a/libmgen/src/main.rs
+++ b/libmgen/src/main.rs
@@ -391,7 +391,9 @@ fn main() {
     }
 
     if config.generate_tests() {
-        tokens.extend(crate::auxfuncs::gen_test_function(0, &config));
+        if funcs.iter().any(|f| !f.test_specs.is_empty()) {
+            tokens.extend(crate::auxfuncs::gen_test_function(0, &config));
+        }
         for f in funcs {
             for t in f.test_specs {
                 tokens.extend(crate::test::gen_test(t, &config));
-- 
2.43.0


From a762de9d44c74238e32ecb8eee535b1ac51a61b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:46 +0000
Subject: [PATCH 29/62] fix: the C translation keeps the grouping of operands

---
 doctor-syn/src/codegen/c.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/doctor-syn/src/codegen/c.rs b/doctor-syn/src/codegen/c.rs
index b36b0e7..5246196 100644
--- a/doctor-syn/src/codegen/c.rs
+++ b/doctor-syn/src/codegen/c.rs
@@ -39,6 +39,17 @@ impl CVisitor {
         self.stack.pop().unwrap()
     }
 
+    /// The C text of an operand. C and Rust do not agree on the precedence
+    /// of operators, so anything that is not atomic goes into parentheses.
+    fn operand(&mut self, expr: &Expr) -> String {
+        self.visit_expr(expr);
+        let text = self.tos();
+        match expr {
+            Expr::Binary(_) | Expr::Unary(_) | Expr::Cast(_) | Expr::If(_) => format!("({})", text),
+            _ => text,
+        }
+    }
+
     fn push<S: Into<String>>(&mut self, s: S) {
         self.stack.push(s.into());
         // eprintln!("  push {:?}", self.stack);
@@ -321,12 +332,10 @@ impl<'ast> Visit<'ast> for CVisitor {
         // for it in &node.attrs {
         //     self.visit_attribute(it);
         // }
-        self.visit_expr(&*node.left);
-        let lhs = self.tos();
+        let lhs = self.operand(&*node.left);
         self.visit_bin_op(&node.op);
         let op = self.tos();
-        self.visit_expr(&*node.right);
-        let rhs = self.tos();
+        let rhs = self.operand(&*node.right);
         ret!(self, "{} {} {}", lhs, op, rhs);
     }
 
@@ -382,8 +391,7 @@ impl<'ast> Visit<'ast> for CVisitor {
         self.log("visit_expr_cast");
         // self.push("<<expr_cast>>".to_string());
         // visit_expr_cast(self, node);
-        self.visit_expr(&*node.expr);
-        let expr = self.tos();
+        let expr = self.operand(&*node.expr);
         // tokens_helper(v, &node.as_token.span);
         self.visit_type(&*node.ty);
         let ty = self.tos();
@@ -582,8 +590,7 @@ impl<'ast> Visit<'ast> for CVisitor {
         self.log("visit_expr_unary");
         self.visit_un_op(&node.op);
         let op = self.tos();
-        self.visit_expr(&*node.expr);
-        let expr = self.tos();
+        let expr = self.operand(&*node.expr);
         ret!(self, "{}{}", op, expr);
     }
 
-- 
2.43.0


From 76f5fd33c273f2869a7bbe7bace8b0d26a7a0a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:48 +0000
Subject: [PATCH 30/62] fix: C literals keep their type

---
 doctor-syn/src/codegen/c.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/doctor-syn/src/codegen/c.rs b/doctor-syn/src/codegen/c.rs
index 5246196..9465105 100644
--- a/doctor-syn/src/codegen/c.rs
+++ b/doctor-syn/src/codegen/c.rs
@@ -922,7 +922,7 @@ impl<'ast> Visit<'ast> for CVisitor {
     }
     fn visit_lit_bool(&mut self, node: &'ast LitBool) {
         self.log("visit_lit_bool");
-        self.push("<<lit_bool>>".to_string());
+        ret!(self, "{}", node.value as i32);
         //visit_lit_bool(self, node);
     }
     fn visit_lit_byte(&mut self, node: &'ast LitByte) {
@@ -942,9 +942,15 @@ impl<'ast> Visit<'ast> for CVisitor {
     }
     fn visit_lit_float(&mut self, node: &'ast LitFloat) {
         self.log("visit_lit_float");
-        let suffix = node.suffix();
-        match suffix {
-            _ => ret!(self, "{}", node.base10_digits())
+        let mut digits = node.base10_digits().to_string();
+        if !digits.contains(|c| matches!(c, '.' | 'e' | 'E')) {
+            // 1f64 is a floating point number.
+            digits.push_str(".0");
+        }
+        match node.suffix() {
+            "f32" => ret!(self, "{}f", digits),
+            "f64" => ret!(self, "{}", digits),
+            _ => ret!(self, "{}{}", digits, self.options.float_suffix),
         }
     }
 
@@ -952,8 +958,12 @@ impl<'ast> Visit<'ast> for CVisitor {
         self.log("visit_lit_int");
         // self.push("<<lit_int>>".to_string());
         // visit_lit_int(self, node);
-        let suffix = node.suffix();
-        match suffix {
+        match node.suffix() {
+            "f32" => ret!(self, "{}.0f", node.base10_digits()),
+            "f64" => ret!(self, "{}.0", node.base10_digits()),
+            "u32" => ret!(self, "{}U", node.base10_digits()),
+            "i64" => ret!(self, "{}LL", node.base10_digits()),
+            "u64" | "usize" => ret!(self, "{}ULL", node.base10_digits()),
             _ => ret!(self, "{}", node.base10_digits())
         }
     }
@@ -1523,6 +1533,7 @@ fn translate_basic_types(name: String) -> String {
         "i64" => "long long".to_string(),
         "u32" => "unsigned int".to_string(),
         "u64" => "unsigned long long".to_string(),
+        "usize" => "unsigned long".to_string(),
         "f32" => "float".to_string(),
         "f64" => "double".to_string(),
         _ => name,
-- 
2.43.0


From edbedede1c516783d2cc7c5b92bb8aa52d25ce1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:53 +0000
Subject: [PATCH 31/62] fix: lets without a type and lets that shadow translate
 to C

---
 doctor-syn/src/codegen/c.rs | 39 ++++++++++++++++++++++++++++++++-----
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/doctor-syn/src/codegen/c.rs b/doctor-syn/src/codegen/c.rs
index 9465105..2b761c1 100644
--- a/doctor-syn/src/codegen/c.rs
+++ b/doctor-syn/src/codegen/c.rs
@@ -21,6 +21,9 @@ impl Default for Options {
 struct CVisitor {
     options: Options,
     stack: Vec<String>,
+
+    /// The variables of the enclosing blocks and what they are called in C.
+    variables: Vec<(String, String)>,
 }
 
 impl CVisitor {
@@ -28,9 +31,23 @@ impl CVisitor {
         CVisitor {
             options,
             stack: Vec::new(),
+            variables: Vec::new(),
         }
     }
 
+    /// The C name for a new variable. In C, the scope of a variable starts
+    /// before its initialiser, so one that shadows another needs its own name.
+    fn declare(&mut self, name: String) -> String {
+        let shadowed = self.variables.iter().filter(|v| v.0 == name).count();
+        let c_name = if shadowed == 0 {
+            name.clone()
+        } else {
+            format!("{}__{}", name, shadowed)
+        };
+        self.variables.push((name, c_name.clone()));
+        c_name
+    }
+
     fn log(&mut self, msg: &str) {
         // eprintln!("log: {}", msg);
     }
@@ -218,10 +235,12 @@ impl<'ast> Visit<'ast> for CVisitor {
         self.log("visit_block");
 
         let mut stmts = Vec::new();
+        let num_variables = self.variables.len();
         for it in &node.stmts {
             self.visit_stmt(it);
             stmts.push(self.tos());
         }
+        self.variables.truncate(num_variables);
         ret!(self, "{{\n{}\n}}", stmts.join(";\n"));
     }
 
@@ -530,6 +549,9 @@ impl<'ast> Visit<'ast> for CVisitor {
             return;
         };
         self.visit_path(&node.path);
+        let path = self.tos();
+        let c_name = self.variables.iter().rev().find(|v| v.0 == path).map(|v| v.1.clone());
+        self.push(c_name.unwrap_or(path));
     }
 
     fn visit_expr_range(&mut self, node: &'ast ExprRange) {
@@ -812,6 +834,7 @@ impl<'ast> Visit<'ast> for CVisitor {
     
         self.visit_block(&*node.block);
         let block = self.tos();
+        self.variables.clear();
     
         ret!(self, "{} {{ return ({}); }}", sig, block);
     }
@@ -981,11 +1004,16 @@ impl<'ast> Visit<'ast> for CVisitor {
         // }
         // tokens_helper(v, &node.let_token.span);
 
-        self.visit_pat(&node.pat);
-        let pat = self.tos();
-        if let Some(it) = &node.init {
+        let init = node.init.as_ref().map(|it| {
             self.visit_expr(&*(it).1);
-            let expr = self.tos();
+            self.tos()
+        });
+        self.visit_pat(&node.pat);
+        let mut pat = self.tos();
+        if let Pat::Ident(_) = &node.pat {
+            pat = format!("__auto_type {}", pat);
+        }
+        if let Some(expr) = init {
             ret!(self, "{} = {}", pat, expr);
         } else {
             ret!(self, "{}", pat);
@@ -1061,7 +1089,8 @@ impl<'ast> Visit<'ast> for CVisitor {
         self.log("visit_pat_ident");
         // visit_pat_ident(self, node);
 
-        self.visit_ident(&node.ident);
+        let name = self.declare(node.ident.to_string());
+        self.push(name);
     }
 
     fn visit_pat_lit(&mut self, node: &'ast PatLit) {
-- 
2.43.0


From 8fc36e8e11b2936c78e122386b9cfdb7603fb5bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:55 +0000
Subject: [PATCH 32/62] fix: methods of floats translate to functions that C
 has

---
 doctor-syn/src/codegen/c.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/doctor-syn/src/codegen/c.rs b/doctor-syn/src/codegen/c.rs
index 2b761c1..5b83428 100644
--- a/doctor-syn/src/codegen/c.rs
+++ b/doctor-syn/src/codegen/c.rs
@@ -397,7 +397,7 @@ impl<'ast> Visit<'ast> for CVisitor {
 
         self.push(match expr.as_str() {
             "fty_from_bits" => {
-                format!("({{ union {{ fty f; uty u; }} u; u.u = ({}); u.f; }})", args)
+                format!("((union {{ fty f; uty u; }}) {{ .u = ({}) }}).f", args)
             }
             _ => {
                 format!("{}{}({})", self.options.prefix, expr, args)
@@ -524,7 +524,20 @@ impl<'ast> Visit<'ast> for CVisitor {
         }
 
         self.push(match ident.as_str() {
-            "round" => format!("{}{}({})", ident, self.options.float_suffix, args.join(", ")),
+            "sqrt" | "cbrt" | "hypot" | "copysign" | "floor" | "ceil" | "trunc" | "round" | "exp" | "exp2"
+            | "log2" | "log10" | "sin" | "cos" | "tan" | "asin" | "acos" | "atan" | "atan2" | "sinh"
+            | "cosh" | "tanh" | "asinh" | "acosh" | "atanh" => {
+                format!("{}{}({})", ident, self.options.float_suffix, args.join(", "))
+            }
+            "abs" => format!("fabs{}({})", self.options.float_suffix, args[0]),
+            "ln" => format!("log{}({})", self.options.float_suffix, args[0]),
+            "ln_1p" => format!("log1p{}({})", self.options.float_suffix, args[0]),
+            "exp_m1" => format!("expm1{}({})", self.options.float_suffix, args[0]),
+            "powf" => format!("pow{}({})", self.options.float_suffix, args.join(", ")),
+            "min" | "max" => format!("f{}{}({})", ident, self.options.float_suffix, args.join(", ")),
+            "recip" => format!("(1 / ({}))", args[0]),
+            "to_bits" => format!("((union {{ fty f; uty u; }}) {{ .f = ({}) }}).u", args[0]),
+            "wrapping_mul" => format!("(({}) * ({}))", args[0], args[1]),
             "mul_add" => format!("(({}\n) * ({}) + ({}))", args[0], args[1], args[2]),
             _ => format!("{}({})", ident, args.join(", ")),
         })
-- 
2.43.0


From 03a7892a4da28f92dcb33aa70bca282b59f2a0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:58 +0000
Subject: [PATCH 33/62] fix: float constants translate to C

---
 doctor-syn/src/codegen/c.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/doctor-syn/src/codegen/c.rs b/doctor-syn/src/codegen/c.rs
index 5b83428..187eef8 100644
--- a/doctor-syn/src/codegen/c.rs
+++ b/doctor-syn/src/codegen/c.rs
@@ -399,6 +399,14 @@ impl<'ast> Visit<'ast> for CVisitor {
             "fty_from_bits" => {
                 format!("((union {{ fty f; uty u; }}) {{ .u = ({}) }}).f", args)
             }
+            "f32_from_bits" | "f64_from_bits" => {
+                // Used for literals. An initialiser in C has to be a constant.
+                match (expr.as_str(), args.trim_end_matches(|c| matches!(c, 'U' | 'L')).parse::<u64>()) {
+                    ("f32_from_bits", Ok(bits)) => format!("{:e}f", f32::from_bits(bits as u32)),
+                    (_, Ok(bits)) => format!("{:e}", f64::from_bits(bits)),
+                    _ => format!("{}({})", expr, args),
+                }
+            }
             _ => {
                 format!("{}{}({})", self.options.prefix, expr, args)
             }
@@ -692,7 +700,7 @@ impl<'ast> Visit<'ast> for CVisitor {
         // }
 
         let mut items = Vec::new();
-        items.push("#include <math.h>".to_string());
+        items.push("#include <math.h>\n#undef NAN\n#undef INFINITY".to_string());
         for it in &node.items {
             self.visit_item(it);
             items.push(self.tos());
@@ -1196,6 +1204,15 @@ impl<'ast> Visit<'ast> for CVisitor {
         self.log("visit_path");
         use quote::ToTokens;
         let path = node.to_token_stream().to_string().replace(" :: ", "_");
+        let path = match path.as_str() {
+            "f32_NAN" => "__builtin_nanf(\"\")".to_string(),
+            "f64_NAN" => "__builtin_nan(\"\")".to_string(),
+            "f32_INFINITY" => "__builtin_inff()".to_string(),
+            "f64_INFINITY" => "__builtin_inf()".to_string(),
+            "f32_MIN_POSITIVE" => "__FLT_MIN__".to_string(),
+            "f64_MIN_POSITIVE" => "__DBL_MIN__".to_string(),
+            _ => path,
+        };
         self.push(path);
     }
 
-- 
2.43.0


From d31e522ceb1c746019664dd10ab6318fecdf5c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:01 +0000
Subject: [PATCH 34/62] fix: C functions are declared before they are used

---
 doctor-syn/src/codegen/c.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/doctor-syn/src/codegen/c.rs b/doctor-syn/src/codegen/c.rs
index 187eef8..5f3c70b 100644
--- a/doctor-syn/src/codegen/c.rs
+++ b/doctor-syn/src/codegen/c.rs
@@ -702,8 +702,25 @@ impl<'ast> Visit<'ast> for CVisitor {
         let mut items = Vec::new();
         items.push("#include <math.h>\n#undef NAN\n#undef INFINITY".to_string());
         for it in &node.items {
-            self.visit_item(it);
-            items.push(self.tos());
+            if let Item::Type(_) = it {
+                self.visit_item(it);
+                items.push(self.tos());
+            }
+        }
+        for it in &node.items {
+            if let Item::Fn(item_fn) = it {
+                self.visit_signature(&item_fn.sig);
+                self.variables.clear();
+                let sig = self.tos();
+                ret!(self, "{};", sig);
+                items.push(self.tos());
+            }
+        }
+        for it in &node.items {
+            if !matches!(it, Item::Type(_)) {
+                self.visit_item(it);
+                items.push(self.tos());
+            }
         }
         self.push(items.join("\n\n"));
     }
-- 
2.43.0


From 0311be76de6ef8c5b9e24b4dfdf4910a9e23a57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:04 +0000
Subject: [PATCH 35/62] fix: assignments translate to C

---
 doctor-syn/src/codegen/c.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/doctor-syn/src/codegen/c.rs b/doctor-syn/src/codegen/c.rs
index 5f3c70b..4bcf9e3 100644
--- a/doctor-syn/src/codegen/c.rs
+++ b/doctor-syn/src/codegen/c.rs
@@ -322,7 +322,6 @@ impl<'ast> Visit<'ast> for CVisitor {
 
     fn visit_expr_assign_op(&mut self, node: &'ast ExprAssignOp) {
         self.log("visit_expr_assign_op");
-        self.push("<<expr_assign_op>>".to_string());
         // visit_expr_assign_op(self, node);
         self.visit_expr(&*node.left);
         let left = self.tos();
@@ -1345,7 +1344,7 @@ impl<'ast> Visit<'ast> for CVisitor {
 
     fn visit_stmt(&mut self, node: &'ast Stmt) {
         self.log("visit_stmt");
-        if let Stmt::Expr(e) = node {
+        if let Stmt::Expr(e) | Stmt::Semi(e, _) = node {
             self.visit_expr(e);
             let expr = self.tos();
             ret!(self, "{};", expr);
-- 
2.43.0


From 6e924d188775c841a526fd328b4fb5d1a7d57be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:09 +0000
Subject: [PATCH 36/62] fix: nextafter depends on uty, which its C translation
 uses

---
 libmgen/src/functions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmgen/src/functions.rs b/libmgen/src/functions.rs
index b646e06..a1097d3 100644
--- a/libmgen/src/functions.rs
+++ b/libmgen/src/functions.rs
@@ -283,7 +283,7 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "nextafter",
-        deps: &["fty"],
+        deps: &["fty", "uty"],
         num_terms: [0, 0],
         gen: Some(crate::auxfuncs::gen_nextafter),
         test_specs: &[TestSpec {
-- 
2.43.0


From ed32cbd07f815473ab99309846c62f77bca6f686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:42 +0000
Subject: [PATCH 37/62] fix: calls of the translated functions are method calls
 in portable-simd

---
 doctor-syn/src/codegen/portable_simd.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/doctor-syn/src/codegen/portable_simd.rs b/doctor-syn/src/codegen/portable_simd.rs
index 402534b..652a53c 100644
--- a/doctor-syn/src/codegen/portable_simd.rs
+++ b/doctor-syn/src/codegen/portable_simd.rs
@@ -20,16 +20,19 @@ impl Default for Options {
 pub struct SimdVisitor {
     options: Options,
     consts: Vec<ItemConst>,
+    functions: Vec<Ident>,
     idents_used: Vec<Ident>,
 }
 
 impl SimdVisitor {
     fn new(options: Options) -> Self {
         let consts = Vec::new();
+        let functions = Vec::new();
         let idents_used = Vec::new();
         SimdVisitor {
             options,
             consts,
+            functions,
             idents_used,
         }
     }
@@ -100,7 +103,7 @@ impl VisitMut for SimdVisitor {
                 *expr = convert_binary(binary)
             }
             syn::Expr::Call(call) => {
-                *expr = convert_call(call);
+                *expr = convert_call(call, &self.functions);
             }
             syn::Expr::Lit(syn::ExprLit { lit, ..} ) => {
                 match lit {
@@ -181,11 +184,15 @@ fn convert_binary(binary: &syn::ExprBinary) -> Expr {
     }
 }
 
-fn convert_call(call: &syn::ExprCall) -> Expr {
+// Every function of the file becomes a method.
+fn convert_call(call: &syn::ExprCall, functions: &[Ident]) -> Expr {
+    let name = call.func.to_token_stream().to_string();
     let mut args = call.args.iter();
-    let arg0 = args.next().unwrap();
-    match call.func.to_token_stream().to_string().as_str() {
-        "sin" | "cos" | "tan" | "exp2" | "powf" | "log2" | "ln" => {
+    match args.next() {
+        Some(arg0)
+            if matches!(name.as_str(), "sin" | "cos" | "tan" | "exp2" | "powf" | "log2" | "ln")
+                || functions.iter().any(|f| *f == name) =>
+        {
             let func = &*call.func;
             let rest = args.cloned().collect::<Punctuated<Expr, Token![,]>>();
             parse_quote! { (#arg0).#func(#rest) }
@@ -247,6 +254,12 @@ pub fn to_simd(file: &syn::File, options: Options) -> syn::File {
 
     let mut cv = SimdVisitor::new(options);
 
+    for it in &file.items {
+        if let Item::Fn(item) = it {
+            cv.functions.push(item.sig.ident.clone());
+        }
+    }
+
     for it in &file.items {
         cv.idents_used.clear();
         use Item::*;
-- 
2.43.0


From 365b2012278ddfafe41deb4fceaf5a29794a8ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:10 +0000
Subject: [PATCH 38/62] fix: portable-simd casts apply to the whole operand

---
 doctor-syn/src/codegen/portable_simd.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/doctor-syn/src/codegen/portable_simd.rs b/doctor-syn/src/codegen/portable_simd.rs
index 652a53c..bb7a5a4 100644
--- a/doctor-syn/src/codegen/portable_simd.rs
+++ b/doctor-syn/src/codegen/portable_simd.rs
@@ -157,9 +157,9 @@ fn convert_cast(cast: &syn::ExprCast, num_bits: usize) -> Expr {
         (quote!(u64), quote!(i64), quote!(f64))
     };
     match ty.to_token_stream().to_string().as_str() {
-        "uty" | "Self :: UintType" => parse_quote!{ #expr.cast::<#uty>() },
-        "ity" | "Self :: IntType" => parse_quote!{ #expr.cast::<#ity>() },
-        "fty" | "Self" => parse_quote!{ #expr.cast::<#fty>() },
+        "uty" | "Self :: UintType" => parse_quote!{ (#expr).cast::<#uty>() },
+        "ity" | "Self :: IntType" => parse_quote!{ (#expr).cast::<#ity>() },
+        "fty" | "Self" => parse_quote!{ (#expr).cast::<#fty>() },
         _ => cast.clone().into()
     }
 }
-- 
2.43.0


From b028a3d7fd1313d47eb3f46ef3f5bfbeda76fc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:15 +0000
Subject: [PATCH 39/62] fix: integers without a suffix translate to
 portable-simd

---
 doctor-syn/src/codegen/portable_simd.rs | 4 ++++
 libmgen/src/auxfuncs.rs                 | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/doctor-syn/src/codegen/portable_simd.rs b/doctor-syn/src/codegen/portable_simd.rs
index bb7a5a4..5f3cab5 100644
--- a/doctor-syn/src/codegen/portable_simd.rs
+++ b/doctor-syn/src/codegen/portable_simd.rs
@@ -224,6 +224,10 @@ fn convert_lit_int(f: &syn::LitInt) -> Expr {
         "i32" | "i64" => {
             parse_quote! { Self::IntType::splat(#f) }
         }
+        // Without a suffix only the context knows the type.
+        "" => {
+            parse_quote! { Simd::splat(#f) }
+        }
         "f32" | "f64" | _ => {
             parse_quote! { Self::splat(#f) }
         }
diff --git a/libmgen/src/auxfuncs.rs b/libmgen/src/auxfuncs.rs
index f13579b..1874be3 100644
--- a/libmgen/src/auxfuncs.rs
+++ b/libmgen/src/auxfuncs.rs
@@ -290,7 +290,7 @@ pub fn gen_uty(_terms: usize, config: &Config) -> TokenStream {
 }
 
 pub fn gen_negate_on_odd(_terms: usize, config: &Config) -> TokenStream {
-    let shift = (config.num_bits() - 1) as i32;
+    let shift = proc_macro2::Literal::usize_unsuffixed(config.num_bits() - 1);
 
     quote!(
         // If x is odd, negate y.
-- 
2.43.0


From 16cd0e97585d1b9d9fa6d7ad183b777896bee1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:17 +0000
Subject: [PATCH 40/62] fix: hexadecimal numbers translate to portable-simd

---
 doctor-syn/src/codegen/portable_simd.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/doctor-syn/src/codegen/portable_simd.rs b/doctor-syn/src/codegen/portable_simd.rs
index 5f3cab5..ebaff96 100644
--- a/doctor-syn/src/codegen/portable_simd.rs
+++ b/doctor-syn/src/codegen/portable_simd.rs
@@ -132,6 +132,7 @@ impl VisitMut for SimdVisitor {
                     "f32 :: INFINITY" => *expr = parse_quote! { Self::splat(f32::INFINITY) },
                     "f64 :: INFINITY" => *expr = parse_quote! { Self::splat(f64::INFINITY) },
                     "f32 :: MIN_POSITIVE" => *expr = parse_quote! { Self::splat(f32::MIN_POSITIVE) },
+                    "f32 :: from_bits" | "f64 :: from_bits" => *expr = parse_quote! { Self::from_bits },
                     "f64 :: MIN_POSITIVE" => *expr = parse_quote! { Self::splat(f64::MIN_POSITIVE) },
                     _ => (),
                 }
-- 
2.43.0


From 64e2ca8e734267d231e5901628e45fdcb168ac04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:21 +0000
Subject: [PATCH 41/62] fix: constants of constants and constants in functions
 translate to portable-simd

---
 doctor-syn/src/codegen/portable_simd.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/doctor-syn/src/codegen/portable_simd.rs b/doctor-syn/src/codegen/portable_simd.rs
index ebaff96..d2ef3d8 100644
--- a/doctor-syn/src/codegen/portable_simd.rs
+++ b/doctor-syn/src/codegen/portable_simd.rs
@@ -3,7 +3,7 @@
 
 use quote::{quote, format_ident, ToTokens};
 use syn::punctuated::Punctuated;
-use syn::visit_mut::{visit_expr_mut, visit_ident_mut, VisitMut, visit_signature_mut, visit_local_mut};
+use syn::visit_mut::{visit_expr_mut, visit_ident_mut, VisitMut, visit_signature_mut, visit_local_mut, visit_stmt_mut};
 use syn::{parse_quote, Expr, Ident, Item, ItemConst, Token, Visibility};
 
 pub struct Options {
@@ -141,6 +141,16 @@ impl VisitMut for SimdVisitor {
         }
     }
 
+    // A vector is not a constant.
+    fn visit_stmt_mut(&mut self, stmt: &mut syn::Stmt) {
+        visit_stmt_mut(self, stmt);
+        if let syn::Stmt::Item(Item::Const(item)) = &*stmt {
+            let ident = &item.ident;
+            let expr = &item.expr;
+            *stmt = parse_quote! { let #ident = #expr; };
+        }
+    }
+
     fn visit_local_mut(&mut self, local: &mut syn::Local) {
         visit_local_mut(self, local);
         if let syn::Pat::Type(pat_type) = &local.pat {
@@ -288,7 +298,8 @@ pub fn to_simd(file: &syn::File, options: Options) -> syn::File {
                 let mut new_block = (*item.block).clone();
                 new_block.stmts.insert(0, parse_quote! {let #ident = self;});
                 cv.visit_block_mut(&mut new_block);
-                for c in cv.consts.clone() {
+                // A constant may need the ones before it.
+                for c in cv.consts.clone().iter().rev() {
                     let ident = &c.ident;
                     if cv.idents_used.contains(ident) {
                         let mut expr = (&*c.expr).clone();
-- 
2.43.0


From c0875501f80405044237402207261e1f502206ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:23 +0000
Subject: [PATCH 42/62] fix: branches with more than a value translate to
 portable-simd

---
 doctor-syn/src/codegen/portable_simd.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/doctor-syn/src/codegen/portable_simd.rs b/doctor-syn/src/codegen/portable_simd.rs
index d2ef3d8..d0fc38c 100644
--- a/doctor-syn/src/codegen/portable_simd.rs
+++ b/doctor-syn/src/codegen/portable_simd.rs
@@ -38,13 +38,13 @@ impl SimdVisitor {
     }
 }
 
-fn deblock1(block: &syn::Block) -> &Expr {
+fn deblock1(block: &syn::Block) -> Expr {
     if block.stmts.len() == 1 {
         if let syn::Stmt::Expr(expr) = &block.stmts[0] {
-            return expr;
+            return expr.clone();
         }
     }
-    unreachable!();
+    parse_quote! { #block }
 }
 
 fn deblock2(expr: &Expr) -> &Expr {
-- 
2.43.0


From 2e144569e971e54dc333562075dd61751fc9667c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:26 +0000
Subject: [PATCH 43/62] fix: && and || translate to portable-simd

---
 doctor-syn/src/codegen/portable_simd.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/doctor-syn/src/codegen/portable_simd.rs b/doctor-syn/src/codegen/portable_simd.rs
index d0fc38c..015c4b4 100644
--- a/doctor-syn/src/codegen/portable_simd.rs
+++ b/doctor-syn/src/codegen/portable_simd.rs
@@ -191,7 +191,13 @@ fn convert_binary(binary: &syn::ExprBinary) -> Expr {
         let rhs = binary.right.clone();
         parse_quote! { (#lhs).#id(#rhs) }
     } else {
-        binary.clone().into()
+        let (lhs, rhs) = (&binary.left, &binary.right);
+        match binary.op {
+            // Masks have both sides.
+            And(_) => parse_quote! { (#lhs) & (#rhs) },
+            Or(_) => parse_quote! { (#lhs) | (#rhs) },
+            _ => binary.clone().into(),
+        }
     }
 }
 
-- 
2.43.0


From 589e2eca0c2f9879c782bad67ba2e64fb53e257a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:29 +0000
Subject: [PATCH 44/62] fix: portable-simd methods return what the function
 returns

---
 doctor-syn/src/codegen/portable_simd.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/doctor-syn/src/codegen/portable_simd.rs b/doctor-syn/src/codegen/portable_simd.rs
index 015c4b4..d4c3e27 100644
--- a/doctor-syn/src/codegen/portable_simd.rs
+++ b/doctor-syn/src/codegen/portable_simd.rs
@@ -78,7 +78,6 @@ impl VisitMut for SimdVisitor {
         // Patch the first argument to self
         let arg0 = sig.inputs.iter_mut().next().unwrap();
         *arg0 = parse_quote! {self};
-        sig.output = parse_quote! {-> Self};
     }
 
     fn visit_type_path_mut(&mut self, type_path: &mut syn::TypePath) {
-- 
2.43.0


From 6bbe7bc3ff99fedd56ba3cbd2f3071d611810a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:31 +0000
Subject: [PATCH 45/62] fix: integer constants and variables keep their type in
 portable-simd

---
 doctor-syn/src/codegen/portable_simd.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/doctor-syn/src/codegen/portable_simd.rs b/doctor-syn/src/codegen/portable_simd.rs
index d4c3e27..4ae54d9 100644
--- a/doctor-syn/src/codegen/portable_simd.rs
+++ b/doctor-syn/src/codegen/portable_simd.rs
@@ -38,6 +38,14 @@ impl SimdVisitor {
     }
 }
 
+// Types of lets and constants which are not these are left to inference.
+fn is_vector(ty: &syn::Type) -> bool {
+    matches!(
+        ty.to_token_stream().to_string().as_str(),
+        "Self" | "Self :: IntType" | "Self :: UintType"
+    )
+}
+
 fn deblock1(block: &syn::Block) -> Expr {
     if block.stmts.len() == 1 {
         if let syn::Stmt::Expr(expr) = &block.stmts[0] {
@@ -145,15 +153,18 @@ impl VisitMut for SimdVisitor {
         visit_stmt_mut(self, stmt);
         if let syn::Stmt::Item(Item::Const(item)) = &*stmt {
             let ident = &item.ident;
+            let ty = &item.ty;
             let expr = &item.expr;
-            *stmt = parse_quote! { let #ident = #expr; };
+            *stmt = parse_quote! { let #ident: #ty = #expr; };
         }
     }
 
     fn visit_local_mut(&mut self, local: &mut syn::Local) {
         visit_local_mut(self, local);
         if let syn::Pat::Type(pat_type) = &local.pat {
-            local.pat = *pat_type.pat.clone();
+            if !is_vector(&pat_type.ty) {
+                local.pat = *pat_type.pat.clone();
+            }
         }
     }
 }
@@ -309,7 +320,9 @@ pub fn to_simd(file: &syn::File, options: Options) -> syn::File {
                     if cv.idents_used.contains(ident) {
                         let mut expr = (&*c.expr).clone();
                         cv.visit_expr_mut(&mut expr);
-                        let new_stmt = parse_quote! {let #ident = #expr;};
+                        let mut ty = (&*c.ty).clone();
+                        cv.visit_type_mut(&mut ty);
+                        let new_stmt = parse_quote! {let #ident: #ty = #expr;};
                         new_block.stmts.insert(0, new_stmt);
                     }
                 }
-- 
2.43.0


From cae417e35a910b3f34287b5f0537cf51045c7f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:43 +0000
Subject: [PATCH 46/62] fix: exp_m1 overflows to infinity and underflows to -1

---
 libmgen/src/functions.rs | 2 +-
 libmgen/src/log_exp.rs   | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/libmgen/src/functions.rs b/libmgen/src/functions.rs
index a1097d3..e8aaac3 100644
--- a/libmgen/src/functions.rs
+++ b/libmgen/src/functions.rs
@@ -437,7 +437,7 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "exp_m1",
-        deps: &["fty", "uty", "round", "LOG2_E", "EXP2_SCALE", "EXP2_ONE"],
+        deps: &["fty", "uty", "round", "LOG2_E", "EXP2_SCALE", "EXP2_ONE", "EXP2_MIN", "EXP2_MAX", "INFINITY"],
         num_terms: [8, 12],
         gen: Some(crate::log_exp::gen_exp_m1),
         test_specs: &[
diff --git a/libmgen/src/log_exp.rs b/libmgen/src/log_exp.rs
index 4476b5a..381fb46 100644
--- a/libmgen/src/log_exp.rs
+++ b/libmgen/src/log_exp.rs
@@ -69,7 +69,9 @@ pub fn gen_exp_m1(num_terms: usize, config: &Config) -> TokenStream {
             let r : fty = round(scaled);
             let mul : fty = fty::from_bits((r.mul_add(EXP2_SCALE, EXP2_ONE)) as uty);
             let x : fty = scaled - r;
-            #approx * mul + (mul - 1.0)
+            let y : fty = #approx * mul + (mul - 1.0);
+            let y1 : fty = if r > EXP2_MAX { INFINITY } else { y };
+            if r < EXP2_MIN { -1.0 } else { y1 }
         }
     )
 }
-- 
2.43.0


From dba9e436ba0848eacacb6a39ef31f40e796404e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:18 +0000
Subject: [PATCH 47/62] fix: logarithms of infinity and NaN are infinity and
 NaN

---
 libmgen/src/log_exp.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libmgen/src/log_exp.rs b/libmgen/src/log_exp.rs
index 381fb46..c386002 100644
--- a/libmgen/src/log_exp.rs
+++ b/libmgen/src/log_exp.rs
@@ -140,10 +140,11 @@ pub fn gen_log2(num_terms: usize, config: &Config) -> TokenStream {
             let exponent : ity = (arg_bits as ity >> LOG2_SHIFT) - LOG2_OFFSET;
             let x : fty = fty::from_bits((arg_bits & ONE_MASK) | ONE_BITS) - 1.5;
             let y : fty = #approx;
+            let y1 : fty = if arg < INFINITY { y + (exponent as fty) } else { arg };
             if arg < 0.0 {
                 -NAN
             } else {
-                if arg < MIN_POSITIVE { -INFINITY } else { y + (exponent as fty) }
+                if arg < MIN_POSITIVE { -INFINITY } else { y1 }
             }
         }
     )
-- 
2.43.0


From 1f24522698ea9500c8fec48659e2cb1191e3b357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:18 +0000
Subject: [PATCH 48/62] fix: powf and powi to the power zero are one

---
 libmgen/src/log_exp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmgen/src/log_exp.rs b/libmgen/src/log_exp.rs
index c386002..a43d1a6 100644
--- a/libmgen/src/log_exp.rs
+++ b/libmgen/src/log_exp.rs
@@ -177,7 +177,7 @@ pub fn gen_log(_num_terms: usize, _config: &Config) -> TokenStream {
 pub fn gen_powf(_num_terms: usize, _config: &Config) -> TokenStream {
     quote!(
         pub fn powf(arg: fty, y: fty) -> fty {
-            exp2(log2(arg) * y)
+            if y == 0.0 { 1.0 } else { exp2(log2(arg) * y) }
         }
     )
 }
-- 
2.43.0


From dc30f190e885565a79a5718f0ab7e9de7a123903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:32 +0000
Subject: [PATCH 49/62] fix: powi of negative numbers

---
 libmgen/src/functions.rs | 2 +-
 libmgen/src/log_exp.rs   | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/libmgen/src/functions.rs b/libmgen/src/functions.rs
index e8aaac3..3fe8724 100644
--- a/libmgen/src/functions.rs
+++ b/libmgen/src/functions.rs
@@ -558,7 +558,7 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "powi",
-        deps: &["fty", "ity", "powf"],
+        deps: &["fty", "ity", "powf", "negate_on_odd"],
         num_terms: [16, 24],
         gen: Some(crate::log_exp::gen_powi),
         test_specs: &[],
diff --git a/libmgen/src/log_exp.rs b/libmgen/src/log_exp.rs
index a43d1a6..705b0eb 100644
--- a/libmgen/src/log_exp.rs
+++ b/libmgen/src/log_exp.rs
@@ -202,7 +202,8 @@ pub fn gen_powi(_num_terms: usize, _config: &Config) -> TokenStream {
 
             // // negative powers are reciprocals.
             // if y < 0 { b4.recip() } else { b4 }
-            powf(x, y as fty)
+            let p: fty = powf(x.abs(), y as fty);
+            if x < 0.0 { negate_on_odd(y as fty, p) } else { p }
         }
     )
 }
-- 
2.43.0


From 41c72aca7b7cc2b40d14d6a6cf430c35ac12f78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:32 +0000
Subject: [PATCH 50/62] fix: sqrt of zero, infinity and negative numbers

---
 libmgen/src/functions.rs  | 2 +-
 libmgen/src/recip_sqrt.rs | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/libmgen/src/functions.rs b/libmgen/src/functions.rs
index 3fe8724..341d019 100644
--- a/libmgen/src/functions.rs
+++ b/libmgen/src/functions.rs
@@ -565,7 +565,7 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "sqrt",
-        deps: &["fty", "sqrt_approx"],
+        deps: &["fty", "NAN", "sqrt_approx"],
         num_terms: [16, 24],
         gen: Some(crate::recip_sqrt::gen_sqrt),
         test_specs: &[],
diff --git a/libmgen/src/recip_sqrt.rs b/libmgen/src/recip_sqrt.rs
index 0c867df..b1a2690 100644
--- a/libmgen/src/recip_sqrt.rs
+++ b/libmgen/src/recip_sqrt.rs
@@ -23,7 +23,9 @@ pub fn gen_sqrt(_num_terms: usize, _config: &Config) -> TokenStream {
             let r1: fty = r + (x - r * r) / (2.0 * r);
             let r2: fty = r1 + (x - r1 * r1) / (2.0 * r1);
             let r3: fty = r2 + (x - r2 * r2) / (2.0 * r2);
-            r3 + (x - r3 * r3) / (2.0 * r3)
+            let y: fty = r3 + (x - r3 * r3) / (2.0 * r3);
+            let y1: fty = if x * 2.0 == x { x } else { y };
+            if x < 0.0 { NAN } else { y1 }
         }
     )
 }
-- 
2.43.0


From b7b19dd2f09fc221c8f1c125f9e71249a1a77d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:32 +0000
Subject: [PATCH 51/62] fix: cbrt of zero and infinity

---
 libmgen/src/recip_sqrt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmgen/src/recip_sqrt.rs b/libmgen/src/recip_sqrt.rs
index b1a2690..1abe6b7 100644
--- a/libmgen/src/recip_sqrt.rs
+++ b/libmgen/src/recip_sqrt.rs
@@ -53,7 +53,7 @@ pub fn gen_cbrt(_num_terms: usize, _config: &Config) -> TokenStream {
             let r: fty = r + (x.abs() - r * r * r) / (3.0 * r * r);
             let r: fty = r + (x.abs() - r * r * r) / (3.0 * r * r);
             let r: fty = r + (x.abs() - r * r * r) / (3.0 * r * r);
-            r.copysign(x)
+            if x * 2.0 == x { x } else { r.copysign(x) }
         }
     )
 }
-- 
2.43.0


From a261d17b4c42886cece8f576f97923a0cb1156ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:47 +0000
Subject: [PATCH 52/62] fix: recip of zero, subnormals and infinity

---
 libmgen/src/functions.rs  | 2 +-
 libmgen/src/recip_sqrt.rs | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/libmgen/src/functions.rs b/libmgen/src/functions.rs
index 341d019..5055761 100644
--- a/libmgen/src/functions.rs
+++ b/libmgen/src/functions.rs
@@ -579,7 +579,7 @@ pub static FUNCTIONS: &[Function] = &[
     },
     Function {
         name: "recip",
-        deps: &["fty", "recip_approx"],
+        deps: &["fty", "MIN_POSITIVE", "INFINITY", "recip_approx"],
         num_terms: [16, 24],
         gen: Some(crate::recip_sqrt::gen_recip),
         test_specs: &[],
diff --git a/libmgen/src/recip_sqrt.rs b/libmgen/src/recip_sqrt.rs
index 1abe6b7..9514397 100644
--- a/libmgen/src/recip_sqrt.rs
+++ b/libmgen/src/recip_sqrt.rs
@@ -74,7 +74,9 @@ pub fn gen_recip(_num_terms: usize, _config: &Config) -> TokenStream {
             let r1: fty = r * (2.0 - x * r);
             let r2: fty = r1 * (2.0 - x * r1);
             let r3: fty = r2 * (2.0 - x * r2);
-            r3 * (2.0 - x * r3)
+            let y: fty = r3 * (2.0 - x * r3);
+            let y1: fty = if x.abs() == INFINITY { 0.0 * r } else { y };
+            if x.abs() < MIN_POSITIVE { INFINITY.copysign(x) } else { y1 }
         }
     )
 }
-- 
2.43.0


From 1f4802f7b2ce20ac03409a9c1278a4b1922c8e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:47 +0000
Subject: [PATCH 53/62] fix: asinh and acosh of numbers whose square overflows

---
 libmgen/src/hyperbolic.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libmgen/src/hyperbolic.rs b/libmgen/src/hyperbolic.rs
index 45c106b..da80ca4 100644
--- a/libmgen/src/hyperbolic.rs
+++ b/libmgen/src/hyperbolic.rs
@@ -38,7 +38,9 @@ pub fn gen_tanh(_num_terms: usize, _config: &Config) -> TokenStream {
 pub fn gen_asinh(_num_terms: usize, _config: &Config) -> TokenStream {
     quote!(
         pub fn asinh(x: fty) -> fty {
-            ln(x.abs() + (x * x + 1.0).sqrt()).copysign(x)
+            let a: fty = x.abs();
+            let s: fty = if a > 1.0 { a * (1.0 + 1.0 / (a * a)).sqrt() } else { (a * a + 1.0).sqrt() };
+            ln(a + s).copysign(x)
         }
     )
 }
@@ -47,7 +49,7 @@ pub fn gen_asinh(_num_terms: usize, _config: &Config) -> TokenStream {
 pub fn gen_acosh(_num_terms: usize, _config: &Config) -> TokenStream {
     quote!(
         pub fn acosh(x: fty) -> fty {
-            if x < 1.0 { NAN } else { ln(x + (x * x - 1.0).sqrt()) }
+            if x < 1.0 { NAN } else { ln(x + (x - 1.0).sqrt() * (x + 1.0).sqrt()) }
         }
     )
 }
-- 
2.43.0


From 2d6e2f1d1c034d86b375f91e3b4847a5e40a4b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:40 +0000
Subject: [PATCH 54/62] fix: subst does not replace a qualified path by the
 variable of its unqualified name

---
 doctor-syn/src/transformation/subst.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/doctor-syn/src/transformation/subst.rs b/doctor-syn/src/transformation/subst.rs
index 6d23ce2..ae02a66 100644
--- a/doctor-syn/src/transformation/subst.rs
+++ b/doctor-syn/src/transformation/subst.rs
@@ -26,6 +26,10 @@ impl Visitor for Subst {
     /// eg. "x" or "f64::const::PI"
     fn visit_path(&self, exprpath: &ExprPath) -> Result<Expr> {
         //println!("visit_path {:?}", self);
+        if exprpath.qself.is_some() {
+            // "<T as x>::y" is not the variable "x::y".
+            return Ok(exprpath.clone().into());
+        }
         let name: Name = exprpath.path.clone().into();
         if let Some(res) = self.variables.find(&name) {
             // Substitute.
-- 
2.43.0


From a012d06928f3793a577c65a2c9476cb9f9e9c521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:46 +0000
Subject: [PATCH 55/62] fix: series of numbers of a negative scale, such as
 2e2.cos(), lose digits

---
 doctor-syn/src/bdmath.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/doctor-syn/src/bdmath.rs b/doctor-syn/src/bdmath.rs
index 9ea706d..d339fb9 100644
--- a/doctor-syn/src/bdmath.rs
+++ b/doctor-syn/src/bdmath.rs
@@ -145,6 +145,9 @@ fn maclaurin<F: FnMut(i32, &BigDecimal, &BigDecimal, &BigDecimal) -> Option<BigD
     num_digits: i64,
     mut f: F,
 ) -> BigDecimal {
+    // A number such as 2e2, of a negative scale, would take power's decimals away.
+    let x = if x.as_bigint_and_exponent().1 < 0 { x.with_scale(0) } else { x };
+
     // BigDecimal's division gives no decimals to a large quotient of integers.
     let mut power = BigDecimal::one().with_scale(num_digits.max(0) * 2);
     let mut factorial = BigDecimal::one();
-- 
2.43.0


From 15c36743cc614eaaeaf64db8d7bfb75a9c1372ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:11 +0000
Subject: [PATCH 56/62] fix: the C of integer literals that are wider than int

---
 doctor-syn/src/codegen/c.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/doctor-syn/src/codegen/c.rs b/doctor-syn/src/codegen/c.rs
index 4bcf9e3..257a259 100644
--- a/doctor-syn/src/codegen/c.rs
+++ b/doctor-syn/src/codegen/c.rs
@@ -633,7 +633,12 @@ impl<'ast> Visit<'ast> for CVisitor {
         self.visit_un_op(&node.op);
         let op = self.tos();
         let expr = self.operand(&*node.expr);
-        ret!(self, "{}{}", op, expr);
+        match (op.as_str(), expr.as_str()) {
+            // The least integers.
+            ("-", "2147483648U") => ret!(self, "(-2147483647 - 1)"),
+            ("-", "9223372036854775808ULL") => ret!(self, "(-9223372036854775807LL - 1)"),
+            _ => ret!(self, "{}{}", op, expr),
+        }
     }
 
     fn visit_expr_unsafe(&mut self, node: &'ast ExprUnsafe) {
@@ -1024,6 +1029,12 @@ impl<'ast> Visit<'ast> for CVisitor {
             "u32" => ret!(self, "{}U", node.base10_digits()),
             "i64" => ret!(self, "{}LL", node.base10_digits()),
             "u64" | "usize" => ret!(self, "{}ULL", node.base10_digits()),
+            // In Rust 1 << 40 is as wide as what it is used for. What no signed integer holds is unsigned.
+            "" if self.options.float_suffix != "f" => match node.base10_parse::<i64>() {
+                Ok(_) => ret!(self, "{}LL", node.base10_digits()),
+                Err(_) => ret!(self, "{}ULL", node.base10_digits()),
+            },
+            "" if node.base10_parse::<i32>().is_err() => ret!(self, "{}U", node.base10_digits()),
             _ => ret!(self, "{}", node.base10_digits())
         }
     }
-- 
2.43.0


From 8bb12cc74e00f05430c00c1a1be8b0eff24b47a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:56 +0000
Subject: [PATCH 57/62] fix: the portable-simd of operations on integer
 literals only

---
 doctor-syn/src/codegen/portable_simd.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/doctor-syn/src/codegen/portable_simd.rs b/doctor-syn/src/codegen/portable_simd.rs
index 4ae54d9..c003424 100644
--- a/doctor-syn/src/codegen/portable_simd.rs
+++ b/doctor-syn/src/codegen/portable_simd.rs
@@ -100,6 +100,11 @@ impl VisitMut for SimdVisitor {
     // Convert `lit as f32` etc. to splats.
     fn visit_expr_mut(&mut self, expr: &mut syn::Expr) {
         // println!("{} {:?}", expr.to_token_stream(), expr);
+        if matches!(expr, Expr::Binary(_)) && is_integer(expr) {
+            // Vectors would not know their type in 1 << 40.
+            *expr = parse_quote! { Simd::splat(#expr) };
+            return;
+        }
         visit_expr_mut(self, expr);
 
         match &*expr {
@@ -243,6 +248,21 @@ fn convert_lit_float(f: &syn::LitFloat) -> Expr {
     }
 }
 
+/// Only integer literals without a suffix?
+fn is_integer(expr: &Expr) -> bool {
+    match expr {
+        Expr::Lit(syn::ExprLit { lit: syn::Lit::Int(lit), .. }) => lit.suffix() == "",
+        Expr::Paren(paren) => is_integer(&paren.expr),
+        Expr::Unary(unary) => is_integer(&unary.expr),
+        Expr::Binary(binary) => {
+            use syn::BinOp::*;
+            let comparison = matches!(binary.op, Lt(_) | Le(_) | Gt(_) | Ge(_) | Eq(_) | Ne(_));
+            !comparison && is_integer(&binary.left) && is_integer(&binary.right)
+        }
+        _ => false,
+    }
+}
+
 fn convert_lit_int(f: &syn::LitInt) -> Expr {
     match f.suffix() {
         "u32" | "u64" => {
-- 
2.43.0


From b1fc01c74ea7f208f3ed7e2faef21836d127d9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:57 +0000
Subject: [PATCH 58/62] fix: constants of any order in C and portable-simd

---
 doctor-syn/src/codegen/c.rs             |  6 ++++-
 doctor-syn/src/codegen/mod.rs           | 31 ++++++++++++++++++++++++-
 doctor-syn/src/codegen/portable_simd.rs |  4 +---
 3 files changed, 36 insertions(+), 5 deletions(-)

diff --git a/doctor-syn/src/codegen/c.rs b/doctor-syn/src/codegen/c.rs
index 257a259..f0869b2 100644
--- a/doctor-syn/src/codegen/c.rs
+++ b/doctor-syn/src/codegen/c.rs
@@ -720,8 +720,12 @@ impl<'ast> Visit<'ast> for CVisitor {
                 items.push(self.tos());
             }
         }
+        for it in super::constants(node) {
+            self.visit_item_const(it);
+            items.push(self.tos());
+        }
         for it in &node.items {
-            if !matches!(it, Item::Type(_)) {
+            if !matches!(it, Item::Type(_) | Item::Const(_)) {
                 self.visit_item(it);
                 items.push(self.tos());
             }
diff --git a/doctor-syn/src/codegen/mod.rs b/doctor-syn/src/codegen/mod.rs
index 2b1db63..32608b8 100644
--- a/doctor-syn/src/codegen/mod.rs
+++ b/doctor-syn/src/codegen/mod.rs
@@ -4,4 +4,33 @@
 
 pub mod c;
 pub mod rust;
-pub mod portable_simd;
\ No newline at end of file
+pub mod portable_simd;
+
+use proc_macro2::{Ident, TokenStream, TokenTree};
+use quote::ToTokens;
+
+fn mentions(tokens: TokenStream, name: &Ident) -> bool {
+    tokens.into_iter().any(|t| match t {
+        TokenTree::Ident(ident) => ident == *name,
+        TokenTree::Group(group) => mentions(group.stream(), name),
+        _ => false,
+    })
+}
+
+/// The constants of a file, each one after those it needs.
+fn constants(file: &syn::File) -> Vec<&syn::ItemConst> {
+    let mut rest: Vec<&syn::ItemConst> = file
+        .items
+        .iter()
+        .filter_map(|it| if let syn::Item::Const(item) = it { Some(item) } else { None })
+        .collect();
+    let mut res = Vec::new();
+    while !rest.is_empty() {
+        let next = rest
+            .iter()
+            .position(|c| !rest.iter().any(|d| d.ident != c.ident && mentions(c.expr.to_token_stream(), &d.ident)))
+            .unwrap_or(0);
+        res.push(rest.remove(next));
+    }
+    res
+}
diff --git a/doctor-syn/src/codegen/portable_simd.rs b/doctor-syn/src/codegen/portable_simd.rs
index c003424..8550c5a 100644
--- a/doctor-syn/src/codegen/portable_simd.rs
+++ b/doctor-syn/src/codegen/portable_simd.rs
@@ -305,6 +305,7 @@ pub fn to_simd(file: &syn::File, options: Options) -> syn::File {
 
     let mut cv = SimdVisitor::new(options);
 
+    cv.consts = super::constants(file).into_iter().cloned().collect();
     for it in &file.items {
         if let Item::Fn(item) = it {
             cv.functions.push(item.sig.ident.clone());
@@ -315,9 +316,6 @@ pub fn to_simd(file: &syn::File, options: Options) -> syn::File {
         cv.idents_used.clear();
         use Item::*;
         match it {
-            Const(item) => {
-                cv.consts.push(item.clone());
-            }
             Fn(item) => {
                 let mut new_sig = item.sig.clone();
                 visit_signature_mut(&mut cv, &mut new_sig);
-- 
2.43.0


From e6ff9d721db6569d0a728fa7800a965f2916cf6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:25 +0000
Subject: [PATCH 59/62] fix: portable-simd of functions with a mutable first
 argument

---
 doctor-syn/src/codegen/portable_simd.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/doctor-syn/src/codegen/portable_simd.rs b/doctor-syn/src/codegen/portable_simd.rs
index 8550c5a..855b97d 100644
--- a/doctor-syn/src/codegen/portable_simd.rs
+++ b/doctor-syn/src/codegen/portable_simd.rs
@@ -324,13 +324,13 @@ pub fn to_simd(file: &syn::File, options: Options) -> syn::File {
                     syn::FnArg::Typed(syn::PatType{pat, ..}) => pat,
                     _ => unreachable!("expected typed arg"),
                 };
-                let ident = match pat {
-                    syn::Pat::Ident(id) => &id.ident,
+                let (mutability, ident) = match pat {
+                    syn::Pat::Ident(id) => (&id.mutability, &id.ident),
                     _ => unreachable!("expected identifier"),
                 };
                 cv.visit_signature_mut(&mut new_sig);
                 let mut new_block = (*item.block).clone();
-                new_block.stmts.insert(0, parse_quote! {let #ident = self;});
+                new_block.stmts.insert(0, parse_quote! {let #mutability #ident = self;});
                 cv.visit_block_mut(&mut new_block);
                 // A constant may need the ones before it.
                 for c in cv.consts.clone().iter().rev() {
-- 
2.43.0


From 1de3d630a2f1f4a5d905edcb47fa4d006b2450ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:43 +0000
Subject: [PATCH 60/62] fix: the C of statements that do nothing, such as let _
 = 0

---
 doctor-syn/src/codegen/c.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/doctor-syn/src/codegen/c.rs b/doctor-syn/src/codegen/c.rs
index f0869b2..f182385 100644
--- a/doctor-syn/src/codegen/c.rs
+++ b/doctor-syn/src/codegen/c.rs
@@ -618,7 +618,11 @@ impl<'ast> Visit<'ast> for CVisitor {
 
     fn visit_expr_tuple(&mut self, node: &'ast ExprTuple) {
         self.log("visit_expr_tuple");
-        self.push("<<expr_tuple>>".to_string());
+        if node.elems.is_empty() {
+            self.push("((void)0)".to_string());
+        } else {
+            self.push("<<expr_tuple>>".to_string());
+        }
         //visit_expr_tuple(self, node);
     }
 
@@ -1060,6 +1064,11 @@ impl<'ast> Visit<'ast> for CVisitor {
             self.visit_expr(&*(it).1);
             self.tos()
         });
+        let inner = if let Pat::Type(pat_type) = &node.pat { &*pat_type.pat } else { &node.pat };
+        if let (Pat::Wild(_), Some(expr)) = (inner, &init) {
+            ret!(self, "(void)({})", expr);
+            return;
+        }
         self.visit_pat(&node.pat);
         let mut pat = self.tos();
         if let Pat::Ident(_) = &node.pat {
@@ -1359,7 +1368,10 @@ impl<'ast> Visit<'ast> for CVisitor {
 
     fn visit_stmt(&mut self, node: &'ast Stmt) {
         self.log("visit_stmt");
-        if let Stmt::Expr(e) | Stmt::Semi(e, _) = node {
+        if let Stmt::Semi(Expr::Verbatim(_), _) = node {
+            // A semicolon of its own.
+            ret!(self, ";");
+        } else if let Stmt::Expr(e) | Stmt::Semi(e, _) = node {
             self.visit_expr(e);
             let expr = self.tos();
             ret!(self, "{};", expr);
-- 
2.43.0


From 5b399e0d5bf29235a367b4d056dd29cd28a5dfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:43 +0000
Subject: [PATCH 61/62] fix: the portable-simd of let _ = 0

---
 doctor-syn/src/codegen/portable_simd.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/doctor-syn/src/codegen/portable_simd.rs b/doctor-syn/src/codegen/portable_simd.rs
index 855b97d..0c1270f 100644
--- a/doctor-syn/src/codegen/portable_simd.rs
+++ b/doctor-syn/src/codegen/portable_simd.rs
@@ -165,6 +165,12 @@ impl VisitMut for SimdVisitor {
     }
 
     fn visit_local_mut(&mut self, local: &mut syn::Local) {
+        if let (syn::Pat::Wild(_), Some((_, init))) = (&local.pat, &local.init) {
+            if is_integer(init) {
+                // Nothing says which vector this would be.
+                return;
+            }
+        }
         visit_local_mut(self, local);
         if let syn::Pat::Type(pat_type) = &local.pat {
             if !is_vector(&pat_type.ty) {
-- 
2.43.0


From b25487c971947cb20f3fe2c446514303cc6f3966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:53 +0000
Subject: [PATCH 62/62] fix: libmgen reports when the end of its output cannot
 be written

---
 libmgen/src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libmgen/src/main.rs b/libmgen/src/main.rs
index c5cecab..3f3338f 100644
--- a/libmgen/src/main.rs
+++ b/libmgen/src/main.rs
@@ -438,5 +438,6 @@ fn main() {
         std::fs::write(path, text.as_bytes()).unwrap();
     } else {
         std::io::stdout().write_all(text.as_bytes()).unwrap();
+        std::io::stdout().flush().unwrap();
     }
 }
-- 
2.43.0

