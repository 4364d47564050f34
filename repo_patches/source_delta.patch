From 99f40356442246758fc303d238f50d2851f2e20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:44 +0000
Subject: [PATCH 01/39] verif: export the optimiser and the checked program to
 the verification harness (cfg zokrates_verif)

---
 zokrates_core/src/compile.rs | 16 ++++++++++++++++
 zokrates_core/src/lib.rs     |  8 ++++++++
 2 files changed, 24 insertions(+)

diff --git a/zokrates_core/src/compile.rs b/zokrates_core/src/compile.rs
index 3f9e327..bb148b7 100644
--- a/zokrates_core/src/compile.rs
+++ b/zokrates_core/src/compile.rs
@@ -293,6 +293,22 @@ pub fn parse_module<'ast, T: Field, E: Into<imports::Error>>(
     )
 }
 
+#[cfg(zokrates_verif)]
+pub mod verif {
+    use super::*;
+
+    /// The program as handed over to code generation, see `super::check_with_arena`
+    pub fn check_with_arena<'ast, T: Field, E: Into<imports::Error>>(
+        source: String,
+        location: FilePath,
+        resolver: Option<&dyn Resolver<E>>,
+        config: &CompileConfig,
+        arena: &'ast Arena<String>,
+    ) -> Result<(ZirProgram<'ast, T>, Abi), CompileErrors> {
+        super::check_with_arena(source, location, resolver, config, arena)
+    }
+}
+
 #[cfg(test)]
 mod test {
     use super::*;
diff --git a/zokrates_core/src/lib.rs b/zokrates_core/src/lib.rs
index 874b996..5c09c40 100644
--- a/zokrates_core/src/lib.rs
+++ b/zokrates_core/src/lib.rs
@@ -3,3 +3,11 @@ pub mod imports;
 mod macros;
 mod optimizer;
 mod semantics;
+
+/// Access for the verification harness to stages of the pipeline which are otherwise private.
+/// Only present when built with `--cfg zokrates_verif`.
+#[cfg(zokrates_verif)]
+pub mod verif {
+    pub use crate::compile::verif::check_with_arena;
+    pub use crate::optimizer::optimize;
+}
-- 
2.43.0


From 966b3585ab1a54283a0a53dc255052b4df310b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:44 +0000
Subject: [PATCH 02/39] fix: do not overflow on loops whose lower bound exceeds
 the upper bound

---
 zokrates_analysis/src/reducer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zokrates_analysis/src/reducer/mod.rs b/zokrates_analysis/src/reducer/mod.rs
index 2c2c37e..b68c1ee 100644
--- a/zokrates_analysis/src/reducer/mod.rs
+++ b/zokrates_analysis/src/reducer/mod.rs
@@ -309,7 +309,7 @@ impl<'ast, 'a, T: Field> ResultFolder<'ast, T> for Reducer<'ast, 'a, T> {
 
                 match (from.as_inner(), to.as_inner()) {
                     (UExpressionInner::Value(from), UExpressionInner::Value(to))
-                        if to.value - from.value > MAX_FOR_LOOP_SIZE =>
+                        if to.value.saturating_sub(from.value) > MAX_FOR_LOOP_SIZE =>
                     {
                         Err(Error::LoopTooLarge(to.value.saturating_sub(from.value)))
                     }
-- 
2.43.0


From f1564f4422c3791e560d86f0afc9135834eb9533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:44 +0000
Subject: [PATCH 03/39] fix: fail on remainders by zero whose result is not
 used

---
 zokrates_analysis/src/panic_extractor.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/zokrates_analysis/src/panic_extractor.rs b/zokrates_analysis/src/panic_extractor.rs
index dd2628c..80a9730 100644
--- a/zokrates_analysis/src/panic_extractor.rs
+++ b/zokrates_analysis/src/panic_extractor.rs
@@ -150,6 +150,25 @@ impl<'ast, T: Field> Folder<'ast, T> for PanicExtractor<'ast, T> {
                 );
                 UExpression::div(n, d).into_inner()
             }
+            UExpressionInner::Rem(e) => {
+                let n = self.fold_uint_expression(*e.left);
+                let d = self.fold_uint_expression(*e.right);
+                self.panic_buffer.push(
+                    ZirStatement::assertion(
+                        BooleanExpression::not(
+                            BooleanExpression::uint_eq(
+                                d.clone().span(span),
+                                UExpression::value(0).annotate(b).span(span),
+                            )
+                            .span(span),
+                        )
+                        .span(span),
+                        RuntimeError::DivisionByZero,
+                    )
+                    .span(span),
+                );
+                UExpression::rem(n, d).into_inner()
+            }
             e => fold_uint_expression_cases(self, b, e),
         }
     }
-- 
2.43.0


From 34c330a989245df75794b7a333949935780e8967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:14 +0000
Subject: [PATCH 04/39] fix: compare field elements given by a product without
 crashing

---
 zokrates_codegen/src/lib.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/zokrates_codegen/src/lib.rs b/zokrates_codegen/src/lib.rs
index 9f6eea1..a230a3e 100644
--- a/zokrates_codegen/src/lib.rs
+++ b/zokrates_codegen/src/lib.rs
@@ -285,6 +285,19 @@ impl<'ast, T: Field> Flattener<'ast, T> {
         }
     }
 
+    /// Define a variable for an expression unless it is linear already
+    fn define_non_linear(
+        &mut self,
+        e: FlatExpression<T>,
+        statements_flattened: &mut FlatStatements<'ast, T>,
+    ) -> FlatExpression<T> {
+        if e.is_linear() {
+            e
+        } else {
+            self.define(e, statements_flattened).into()
+        }
+    }
+
     /// Compute a range check between the bid endian decomposition of an expression and the
     /// big endian decomposition of a constant
     ///
@@ -797,6 +810,10 @@ impl<'ast, T: Field> Flattener<'ast, T> {
                 let lhs_flattened = self.flatten_field_expression(statements_flattened, *e.left);
                 let rhs_flattened = self.flatten_field_expression(statements_flattened, *e.right);
 
+                // the range checks decompose their operand, so it has to be linear
+                let lhs_flattened = self.define_non_linear(lhs_flattened, statements_flattened);
+                let rhs_flattened = self.define_non_linear(rhs_flattened, statements_flattened);
+
                 match (lhs_flattened, rhs_flattened) {
                     (e, FlatExpression::Value(c)) => {
                         self.constant_lt_check(statements_flattened, e, c.value)
@@ -2446,6 +2463,9 @@ impl<'ast, T: Field> Flattener<'ast, T> {
                         let lhs = self.flatten_field_expression(statements_flattened, *e.left);
                         let rhs = self.flatten_field_expression(statements_flattened, *e.right);
 
+                        let lhs = self.define_non_linear(lhs, statements_flattened);
+                        let rhs = self.define_non_linear(rhs, statements_flattened);
+
                         match (lhs, rhs) {
                             (e, FlatExpression::Value(c)) => self.enforce_constant_lt_check(
                                 statements_flattened,
@@ -2492,6 +2512,9 @@ impl<'ast, T: Field> Flattener<'ast, T> {
                         let lhs = self.flatten_field_expression(statements_flattened, *e.left);
                         let rhs = self.flatten_field_expression(statements_flattened, *e.right);
 
+                        let lhs = self.define_non_linear(lhs, statements_flattened);
+                        let rhs = self.define_non_linear(rhs, statements_flattened);
+
                         match (lhs, rhs) {
                             (e, FlatExpression::Value(c)) => self.enforce_constant_le_check(
                                 statements_flattened,
-- 
2.43.0


From 90d2a99cc7ed40ad9a4c5e333dfdf3abad9081da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:14 +0000
Subject: [PATCH 05/39] fix: do not underestimate the maximum of a shifted
 integer

---
 zokrates_analysis/src/uint_optimizer.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/zokrates_analysis/src/uint_optimizer.rs b/zokrates_analysis/src/uint_optimizer.rs
index c006cdd..da46e82 100644
--- a/zokrates_analysis/src/uint_optimizer.rs
+++ b/zokrates_analysis/src/uint_optimizer.rs
@@ -341,9 +341,14 @@ impl<'ast, T: Field> Folder<'ast, T> for UintOptimizer<'ast, T> {
                     UExpressionInner::Value(by) => {
                         let e_max: num_bigint::BigUint =
                             left.metadata.as_ref().unwrap().max.to_biguint();
-                        let max = e_max
-                            .shl(by.value as usize)
-                            .bitand(&(2_u128.pow(range as u32) - 1).into());
+                        let range_max: num_bigint::BigUint = range_max.to_biguint();
+                        let by_bits = std::cmp::min(by.value as usize, range);
+
+                        // if the shift can drop bits of the operand, any of the remaining bits can be set
+                        let max = match e_max.shl(by_bits) {
+                            max if max <= range_max => max,
+                            _ => range_max.clone().shl(by_bits).bitand(&range_max),
+                        };
 
                         let max = T::try_from(max).unwrap();
 
@@ -365,9 +370,9 @@ impl<'ast, T: Field> Folder<'ast, T> for UintOptimizer<'ast, T> {
                     UExpressionInner::Value(by) => {
                         let e_max: num_bigint::BigUint =
                             left.metadata.as_ref().unwrap().max.to_biguint();
-                        let max = e_max
-                            .bitand(&(2_u128.pow(range as u32) - 1).into())
-                            .shr(by.value as usize);
+                        // the operand is reduced to its range first
+                        let max =
+                            std::cmp::min(e_max, range_max.to_biguint()).shr(by.value as usize);
 
                         let max = T::try_from(max).unwrap();
 
-- 
2.43.0


From 2d0ba8725f1d0dd533a84712bededcf585dcfeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:14 +0000
Subject: [PATCH 06/39] fix: report constant integer divisions by zero instead
 of crashing

---
 zokrates_analysis/src/propagation.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zokrates_analysis/src/propagation.rs b/zokrates_analysis/src/propagation.rs
index 03c98c3..274c45c 100644
--- a/zokrates_analysis/src/propagation.rs
+++ b/zokrates_analysis/src/propagation.rs
@@ -749,6 +749,9 @@ impl<'ast, T: Field> ResultFolder<'ast, T> for Propagator<'ast, T> {
                 self.fold_uint_expression(*e.left)?.into_inner(),
                 self.fold_uint_expression(*e.right)?.into_inner(),
             ) {
+                (UExpressionInner::Value(_), UExpressionInner::Value(v2)) if v2.value == 0 => {
+                    Err(Error::DivisionByZero)
+                }
                 (UExpressionInner::Value(v1), UExpressionInner::Value(v2)) => {
                     Ok(UExpression::value(
                         (v1.value / v2.value) % 2_u128.pow(bitwidth.to_usize().try_into().unwrap()),
@@ -770,6 +773,9 @@ impl<'ast, T: Field> ResultFolder<'ast, T> for Propagator<'ast, T> {
                 self.fold_uint_expression(*e.left)?.into_inner(),
                 self.fold_uint_expression(*e.right)?.into_inner(),
             ) {
+                (UExpressionInner::Value(_), UExpressionInner::Value(v2)) if v2.value == 0 => {
+                    Err(Error::DivisionByZero)
+                }
                 (UExpressionInner::Value(v1), UExpressionInner::Value(v2)) => {
                     Ok(UExpression::value(
                         (v1.value % v2.value) % 2_u128.pow(bitwidth.to_usize().try_into().unwrap()),
-- 
2.43.0


From 9ea97121802ed00e648932b88922d3f6ef2634a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:14 +0000
Subject: [PATCH 07/39] fix: shift constants by any amount without overflowing

---
 zokrates_analysis/src/propagation.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/zokrates_analysis/src/propagation.rs b/zokrates_analysis/src/propagation.rs
index 274c45c..29a3101 100644
--- a/zokrates_analysis/src/propagation.rs
+++ b/zokrates_analysis/src/propagation.rs
@@ -798,7 +798,10 @@ impl<'ast, T: Field> ResultFolder<'ast, T> for Propagator<'ast, T> {
                 let right = self.fold_uint_expression(*e.right)?;
                 match (left.into_inner(), right.into_inner()) {
                     (UExpressionInner::Value(v), UExpressionInner::Value(by)) => {
-                        Ok(UExpression::value(v.value >> by.value))
+                        Ok(UExpression::value(match by.value {
+                            by if by < bitwidth as u128 => v.value >> by,
+                            _ => 0,
+                        }))
                     }
                     (e, by) => Ok(UExpression::right_shift(
                         e.annotate(bitwidth),
@@ -812,9 +815,12 @@ impl<'ast, T: Field> ResultFolder<'ast, T> for Propagator<'ast, T> {
                 let right = self.fold_uint_expression(*e.right)?;
                 match (left.into_inner(), right.into_inner()) {
                     (UExpressionInner::Value(v), UExpressionInner::Value(by)) => {
-                        Ok(UExpression::value(
-                            (v.value << by.value) & (2_u128.pow(bitwidth as u32) - 1),
-                        ))
+                        Ok(UExpression::value(match by.value {
+                            by if by < bitwidth as u128 => {
+                                (v.value << by) & (2_u128.pow(bitwidth as u32) - 1)
+                            }
+                            _ => 0,
+                        }))
                     }
                     (e, by) => Ok(UExpression::left_shift(
                         e.annotate(bitwidth),
-- 
2.43.0


From c5511a03ab2fa157e1532a9aafd70384ddfda217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:33 +0000
Subject: [PATCH 08/39] fix: report constant remainders by zero after
 flattening instead of crashing

---
 zokrates_analysis/src/zir_propagation.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zokrates_analysis/src/zir_propagation.rs b/zokrates_analysis/src/zir_propagation.rs
index d826099..ed86d6a 100644
--- a/zokrates_analysis/src/zir_propagation.rs
+++ b/zokrates_analysis/src/zir_propagation.rs
@@ -760,6 +760,9 @@ impl<'ast, T: Field> ResultFolder<'ast, T> for ZirPropagator<'ast, T> {
                 let e2 = self.fold_uint_expression(*e.right)?;
 
                 match (e1.into_inner(), e2.into_inner()) {
+                    (UExpressionInner::Value(_), UExpressionInner::Value(n)) if n.value == 0 => {
+                        Err(Error::DivisionByZero)
+                    }
                     (UExpressionInner::Value(n1), UExpressionInner::Value(n2)) => {
                         Ok(UExpression::value(
                             (n1.value % n2.value) % 2_u128.pow(bitwidth.to_usize() as u32),
-- 
2.43.0


From f3a66ccba482bfab65258c07e341c09a9103fdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:33 +0000
Subject: [PATCH 09/39] fix: raise products to a power without crashing

---
 zokrates_codegen/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zokrates_codegen/src/lib.rs b/zokrates_codegen/src/lib.rs
index a230a3e..f4d9fe0 100644
--- a/zokrates_codegen/src/lib.rs
+++ b/zokrates_codegen/src/lib.rs
@@ -2218,8 +2218,8 @@ impl<'ast, T: Field> Flattener<'ast, T> {
                             self.flatten_field_expression(statements_flattened, *e.left.clone());
 
                         // we require from the base to be linear
-                        // TODO change that
-                        assert!(base_flattened.is_linear());
+                        let base_flattened =
+                            self.define_non_linear(base_flattened, statements_flattened);
 
                         // convert the exponent to bytes, big endian
                         let ebytes_be = exp.value.to_be_bytes();
-- 
2.43.0


From b51db6df0924c67194b014e957c7726ec40195c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:24 +0000
Subject: [PATCH 10/39] fix: keep all the bits of a decomposition for its other
 uses

---
 zokrates_codegen/src/lib.rs | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/zokrates_codegen/src/lib.rs b/zokrates_codegen/src/lib.rs
index f4d9fe0..e04a855 100644
--- a/zokrates_codegen/src/lib.rs
+++ b/zokrates_codegen/src/lib.rs
@@ -1409,8 +1409,12 @@ impl<'ast, T: Field> Flattener<'ast, T> {
             UExpressionInner::Identifier(x) => {
                 let field = FlatExpression::identifier(*self.layout.get(&x.id).unwrap());
                 let bits = self.bits_cache.get(&field).map(|bits| {
-                    assert_eq!(bits.len(), target_bitwidth.to_usize());
-                    bits.clone()
+                    // only the lowest bits are left once the value is reduced
+                    let to = target_bitwidth.to_usize();
+                    std::iter::repeat(FlatExpression::value(T::zero()))
+                        .take(to.saturating_sub(bits.len()))
+                        .chain(bits[bits.len().saturating_sub(to)..].iter().cloned())
+                        .collect()
                 });
                 FlatUExpression::with_field(field).bits(bits)
             }
@@ -1961,12 +1965,14 @@ impl<'ast, T: Field> Flattener<'ast, T> {
                             FlatExpression::add(acc, e)
                         });
 
-                    // force the sum to be 0
-                    statements_flattened.push_back(FlatStatement::condition(
-                        FlatExpression::value(T::from(0)),
-                        sum,
-                        error,
-                    ));
+                    // force the sum to be 0, unless we are truncating
+                    if from == to {
+                        statements_flattened.push_back(FlatStatement::condition(
+                            FlatExpression::value(T::from(0)),
+                            sum,
+                            error,
+                        ));
+                    }
 
                     // sanity check that we have at most `to` values
                     assert!(res.len() <= to);
@@ -2007,15 +2013,16 @@ impl<'ast, T: Field> Flattener<'ast, T> {
                         error,
                     ));
 
+                    // the cache holds all the bits: other uses of the same expression can require more of them
+                    self.bits_cache
+                        .insert(e.field.clone().unwrap(), bits.clone());
+                    self.bits_cache.insert(sum, bits.clone());
+
                     // truncate to the `to` lowest bits
                     let bits = bits[from - to..].to_vec();
 
                     assert_eq!(bits.len(), to);
 
-                    self.bits_cache
-                        .insert(e.field.clone().unwrap(), bits.clone());
-                    self.bits_cache.insert(sum, bits.clone());
-
                     bits
                 }
             };
-- 
2.43.0


From f32c3a1a8f88d9bd4efca3ba9b32d638c21cabed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:25 +0000
Subject: [PATCH 11/39] fix: offset integer subtractions by the width of the
 reduced operand

---
 zokrates_codegen/src/lib.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/zokrates_codegen/src/lib.rs b/zokrates_codegen/src/lib.rs
index e04a855..87e438f 100644
--- a/zokrates_codegen/src/lib.rs
+++ b/zokrates_codegen/src/lib.rs
@@ -1467,10 +1467,15 @@ impl<'ast, T: Field> Flattener<'ast, T> {
             }
             UExpressionInner::Sub(e) => {
                 // see uint optimizer for the reasoning here
-                let offset = FlatExpression::value(T::from(2).pow(std::cmp::max(
-                    e.right.metadata.as_ref().unwrap().bitwidth() as usize,
-                    target_bitwidth as usize,
-                )));
+                let right_metadata = e.right.metadata.as_ref().unwrap();
+                let right_bitwidth = if right_metadata.should_reduce.to_bool() {
+                    target_bitwidth.to_usize()
+                } else {
+                    right_metadata.bitwidth() as usize
+                };
+                let offset = FlatExpression::value(
+                    T::from(2).pow(std::cmp::max(right_bitwidth, target_bitwidth as usize)),
+                );
 
                 let left_flattened = self
                     .flatten_uint_expression(statements_flattened, *e.left)
-- 
2.43.0


From adb8d79987073150b97558fd88aa273300b22413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:55 +0000
Subject: [PATCH 12/39] fix: report elements of literals whose type cannot be
 inferred instead of crashing

---
 zokrates_core/src/semantics.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/zokrates_core/src/semantics.rs b/zokrates_core/src/semantics.rs
index b1646e1..51c6086 100644
--- a/zokrates_core/src/semantics.rs
+++ b/zokrates_core/src/semantics.rs
@@ -3159,7 +3159,13 @@ impl<'ast, T: Field> Checker<'ast, T> {
                                     Type::Array(..) => Ok(ArrayExpression::select(a, index).into()),
                                     Type::Struct(..) => Ok(StructExpression::select(a, index).into()),
                                     Type::Tuple(..) => Ok(TupleExpression::select(a, index).into()),
-                                    Type::Int => unreachable!(),
+                                    Type::Int => Err(ErrorInner {
+                                        span: Some(span),
+                                        message: format!(
+                                            "Cannot infer the type of the elements of {}",
+                                            a
+                                        ),
+                                    }),
                                 }
                             }
                             a => Err(ErrorInner {
@@ -3184,7 +3190,13 @@ impl<'ast, T: Field> Checker<'ast, T> {
 
                         match ty {
                             Some(ty) => match ty {
-                                Type::Int => unreachable!(),
+                                Type::Int => Err(ErrorInner {
+                                    span: Some(span),
+                                    message: format!(
+                                        "Cannot infer the type of element {} of {}",
+                                        index, t
+                                    ),
+                                }),
                                 Type::FieldElement => {
                                     Ok(FieldElementExpression::element(t, index).into())
                                 }
-- 
2.43.0


From 929916958beecc5d575737737207d45e9d617936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:07 +0000
Subject: [PATCH 13/39] fix: report struct literals whose parameters disagree
 instead of crashing

---
 zokrates_ast/src/typed/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zokrates_ast/src/typed/types.rs b/zokrates_ast/src/typed/types.rs
index 8a0614a..7033cfa 100644
--- a/zokrates_ast/src/typed/types.rs
+++ b/zokrates_ast/src/typed/types.rs
@@ -115,7 +115,7 @@ impl<'ast> Hash for GenericIdentifier<'ast> {
 
 impl<'ast> fmt::Display for GenericIdentifier<'ast> {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        write!(f, "{}", self.name())
+        write!(f, "{}", self.name.unwrap_or("_"))
     }
 }
 
-- 
2.43.0


From ad95d09117aca27ce2999190ff27f6d77635d729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:07 +0000
Subject: [PATCH 14/39] fix: report slices in assignments instead of crashing

---
 zokrates_core/src/semantics.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/zokrates_core/src/semantics.rs b/zokrates_core/src/semantics.rs
index 51c6086..06f8753 100644
--- a/zokrates_core/src/semantics.rs
+++ b/zokrates_core/src/semantics.rs
@@ -2182,10 +2182,15 @@ impl<'ast, T: Field> Checker<'ast, T> {
                             RangeOrExpression::Expression(e) => {
                                 self.check_expression(e, module_id, types)?
                             }
-                            r => unimplemented!(
-                                "Using slices in assignments is not supported yet, found {}",
-                                r
-                            ),
+                            r => {
+                                return Err(ErrorInner {
+                                    span: Some(span),
+                                    message: format!(
+                                        "Using slices in assignments is not supported yet, found {}",
+                                        r
+                                    ),
+                                })
+                            }
                         };
 
                         let checked_typed_index =
-- 
2.43.0


From 9d43f59415fbef25d56f3f0ada21eb3afd68ab67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:04 +0000
Subject: [PATCH 15/39] fix: reduce constants given by slices of repeated
 arrays instead of crashing

---
 zokrates_ast/src/typed/mod.rs | 44 +++++++----------------------------
 1 file changed, 8 insertions(+), 36 deletions(-)

diff --git a/zokrates_ast/src/typed/mod.rs b/zokrates_ast/src/typed/mod.rs
index 1178666..51382be 100644
--- a/zokrates_ast/src/typed/mod.rs
+++ b/zokrates_ast/src/typed/mod.rs
@@ -3528,43 +3528,15 @@ impl<'ast, T: Field> Constant for ArrayExpression<'ast, T> {
         ) -> Vec<TypedExpression<T>> {
             match e {
                 TypedExpressionOrSpread::Expression(e) => vec![e.into_canonical_constant()],
-                TypedExpressionOrSpread::Spread(s) => match s.array.into_inner() {
-                    ArrayExpressionInner::Value(v) => v
-                        .into_iter()
-                        .flat_map(into_canonical_constant_aux)
-                        .collect(),
-                    ArrayExpressionInner::Slice(e) => {
-                        let from = match e.from.into_inner() {
-                            UExpressionInner::Value(v) => v,
-                            _ => unreachable!(),
-                        };
-
-                        let to = match e.to.into_inner() {
-                            UExpressionInner::Value(v) => v,
-                            _ => unreachable!(),
-                        };
-
-                        let v = match e.array.into_inner() {
-                            ArrayExpressionInner::Value(v) => v,
-                            _ => unreachable!(),
-                        };
-
-                        v.into_iter()
+                TypedExpressionOrSpread::Spread(s) => {
+                    match s.array.into_canonical_constant().into_inner() {
+                        ArrayExpressionInner::Value(v) => v
+                            .into_iter()
                             .flat_map(into_canonical_constant_aux)
-                            .skip(from.value as usize)
-                            .take(to.value as usize - from.value as usize)
-                            .collect()
-                    }
-                    ArrayExpressionInner::Repeat(e) => {
-                        let count = match e.count.into_inner() {
-                            UExpressionInner::Value(count) => count,
-                            _ => unreachable!(),
-                        };
-
-                        vec![e.e.into_canonical_constant(); count.value as usize]
+                            .collect(),
+                        a => unreachable!("{}", a),
                     }
-                    a => unreachable!("{}", a),
-                },
+                }
             }
         }
 
@@ -3589,7 +3561,7 @@ impl<'ast, T: Field> Constant for ArrayExpression<'ast, T> {
                     _ => unreachable!("should be a uint value"),
                 };
 
-                let v = match e.array.into_inner() {
+                let v = match e.array.into_canonical_constant().into_inner() {
                     ArrayExpressionInner::Value(v) => v,
                     _ => unreachable!("should be an array value"),
                 };
-- 
2.43.0


From 5b6417ff4bcb1a0bdb24edb69e2f5a91d6d33b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:39 +0000
Subject: [PATCH 16/39] fix: report out of bounds accesses nested in others and
 slices instead of crashing

---
 zokrates_analysis/src/out_of_bounds.rs | 32 ++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/zokrates_analysis/src/out_of_bounds.rs b/zokrates_analysis/src/out_of_bounds.rs
index e00cf17..c185f89 100644
--- a/zokrates_analysis/src/out_of_bounds.rs
+++ b/zokrates_analysis/src/out_of_bounds.rs
@@ -1,7 +1,8 @@
 use std::fmt;
+use zokrates_ast::common::WithSpan;
 use zokrates_ast::typed::{
-    result_folder::*, Expr, SelectExpression, SelectOrExpression, Type, TypedAssignee,
-    TypedProgram, UExpressionInner,
+    result_folder::*, Expr, SelectExpression, SelectOrExpression, SliceExpression,
+    SliceOrExpression, Type, TypedAssignee, TypedProgram, UExpressionInner,
 };
 use zokrates_field::Field;
 
@@ -30,6 +31,12 @@ impl<'ast, T: Field> ResultFolder<'ast, T> for OutOfBoundsChecker {
         _: &E::Ty,
         s: SelectExpression<'ast, T, E>,
     ) -> Result<SelectOrExpression<'ast, T, E>, Self::Error> {
+        let s = SelectExpression::new(
+            self.fold_array_expression(*s.array)?,
+            self.fold_uint_expression(*s.index)?,
+        )
+        .span(s.span);
+
         match (s.index.as_inner(), s.array.size().as_inner()) {
             (UExpressionInner::Value(index), UExpressionInner::Value(size)) if index >= size => {
                 Err(Error(format!(
@@ -41,6 +48,27 @@ impl<'ast, T: Field> ResultFolder<'ast, T> for OutOfBoundsChecker {
         }
     }
 
+    fn fold_slice_expression(
+        &mut self,
+        e: SliceExpression<'ast, T>,
+    ) -> Result<SliceOrExpression<'ast, T>, Self::Error> {
+        match (
+            e.from.as_inner(),
+            e.to.as_inner(),
+            e.array.size().as_inner(),
+        ) {
+            (
+                UExpressionInner::Value(from),
+                UExpressionInner::Value(to),
+                UExpressionInner::Value(size),
+            ) if from > to || to > size => Err(Error(format!(
+                "Out of bounds slice `{}` because `{}` has size {}",
+                e, e.array, size
+            ))),
+            _ => fold_slice_expression(self, e),
+        }
+    }
+
     fn fold_assignee(
         &mut self,
         a: TypedAssignee<'ast, T>,
-- 
2.43.0


From a34e9ff6bd2d17562284b7840430fe86a6ccad65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:43 +0000
Subject: [PATCH 17/39] fix: slice the value a variable had before it is
 redefined

---
 zokrates_analysis/src/reducer/mod.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/zokrates_analysis/src/reducer/mod.rs b/zokrates_analysis/src/reducer/mod.rs
index b68c1ee..75f3f21 100644
--- a/zokrates_analysis/src/reducer/mod.rs
+++ b/zokrates_analysis/src/reducer/mod.rs
@@ -367,18 +367,17 @@ impl<'ast, 'a, T: Field> ResultFolder<'ast, T> for Reducer<'ast, 'a, T> {
         &mut self,
         e: zokrates_ast::typed::SliceExpression<'ast, T>,
     ) -> Result<zokrates_ast::typed::SliceOrExpression<'ast, T>, Self::Error> {
-        let array = self.ssa.fold_array_expression(*e.array);
-        let array = self.propagator.fold_array_expression(array)?;
+        // the statement this is part of is in ssa form already: renaming again would refer to the
+        // variable it defines
+        let array = self.propagator.fold_array_expression(*e.array)?;
         let array = self.fold_array_expression(array)?;
         let array = self.propagator.fold_array_expression(array)?;
 
-        let from = self.ssa.fold_uint_expression(*e.from);
-        let from = self.propagator.fold_uint_expression(from)?;
+        let from = self.propagator.fold_uint_expression(*e.from)?;
         let from = self.fold_uint_expression(from)?;
         let from = self.propagator.fold_uint_expression(from)?;
 
-        let to = self.ssa.fold_uint_expression(*e.to);
-        let to = self.propagator.fold_uint_expression(to)?;
+        let to = self.propagator.fold_uint_expression(*e.to)?;
         let to = self.fold_uint_expression(to)?;
         let to = self.propagator.fold_uint_expression(to)?;
 
-- 
2.43.0


From d18a0b291570fd879f908abf28ec23aafb32f862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:43 +0000
Subject: [PATCH 18/39] fix: keep logs which print the same values as earlier
 ones

---
 zokrates_core/src/optimizer/duplicate.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/zokrates_core/src/optimizer/duplicate.rs b/zokrates_core/src/optimizer/duplicate.rs
index 9f12e1e..259a31b 100644
--- a/zokrates_core/src/optimizer/duplicate.rs
+++ b/zokrates_core/src/optimizer/duplicate.rs
@@ -45,6 +45,8 @@ impl<'ast, T: Field> Folder<'ast, T> for DuplicateOptimizer {
                 .into_iter()
                 .flat_map(|s| self.fold_statement(s))
                 .collect(),
+            // logging the same values again is not redundant
+            Statement::Log(s) => vec![Statement::Log(s)],
             s => {
                 let hashed = hash(&s);
                 let result = match self.seen.get(&hashed) {
-- 
2.43.0


From 20eb48b1c697cdf6f68f1033f00dc2390fe7ef12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:12 +0000
Subject: [PATCH 19/39] fix: evaluate all the components of an assigned value
 before any of them is overwritten

---
 .../src/flatten_complex_types.rs              | 56 ++++++++++++++++++-
 1 file changed, 55 insertions(+), 1 deletion(-)

diff --git a/zokrates_analysis/src/flatten_complex_types.rs b/zokrates_analysis/src/flatten_complex_types.rs
index 3aa597c..823bbcc 100644
--- a/zokrates_analysis/src/flatten_complex_types.rs
+++ b/zokrates_analysis/src/flatten_complex_types.rs
@@ -1,4 +1,4 @@
-use std::collections::BTreeMap;
+use std::collections::{BTreeMap, HashSet};
 use std::convert::{TryFrom, TryInto};
 use std::marker::PhantomData;
 use std::ops::*;
@@ -14,6 +14,8 @@ use zokrates_field::Field;
 
 #[derive(Default)]
 pub struct Flattener<T: Field> {
+    // the number of internal variables issued so far
+    internal_count: usize,
     phantom: PhantomData<T>,
 }
 
@@ -188,6 +190,30 @@ impl<'ast, T: Field> Flattener<T> {
         fold_program(self, p)
     }
 
+    // define an internal variable to hold the value of an expression
+    fn define_internal(
+        &mut self,
+        statements_buffer: &mut Vec<zir::ZirStatement<'ast, T>>,
+        e: zir::ZirExpression<'ast, T>,
+        ty: zir::Type,
+    ) -> zir::ZirExpression<'ast, T> {
+        let id = zir::Identifier::internal(self.internal_count);
+        self.internal_count += 1;
+
+        statements_buffer.push(zir::ZirStatement::definition(
+            zir::Variable::with_id_and_type(id.clone(), ty.clone()),
+            e,
+        ));
+
+        match ty {
+            zir::Type::FieldElement => zir::FieldElementExpression::identifier(id).into(),
+            zir::Type::Boolean => zir::BooleanExpression::identifier(id).into(),
+            zir::Type::Uint(bitwidth) => zir::UExpression::identifier(id)
+                .annotate(bitwidth)
+                .into(),
+        }
+    }
+
     fn fold_function(&mut self, f: typed::TypedFunction<'ast, T>) -> zir::ZirFunction<'ast, T> {
         fold_function(self, f)
     }
@@ -624,6 +650,24 @@ fn fold_assembly_statement<'ast, T: Field>(
     .span(span)
 }
 
+// whether, when defining each assignee in order, some expression uses an assignee defined before it
+fn reads_after_write<'ast, T: Field>(
+    assignees: &[zir::ZirAssignee<'ast>],
+    expressions: &[zir::ZirExpression<'ast, T>],
+) -> bool {
+    let mut written = HashSet::new();
+
+    assignees.iter().zip(expressions).any(|(a, e)| {
+        let res = !written.is_empty() && {
+            let mut finder = ArgumentFinder::default();
+            finder.fold_expression(e.clone());
+            finder.identifiers.keys().any(|id| written.contains(id))
+        };
+        written.insert(&a.id);
+        res
+    })
+}
+
 fn fold_statement<'ast, T: Field>(
     f: &mut Flattener<T>,
     statements_buffer: &mut Vec<zir::ZirStatement<'ast, T>>,
@@ -651,6 +695,16 @@ fn fold_statement<'ast, T: Field>(
             let a = f.fold_assignee(a);
             let e = f.fold_expression(statements_buffer, e);
             assert_eq!(a.len(), e.len());
+            // the components are defined one after the other: when one of them is used after it was redefined,
+            // evaluate them all first
+            let e = if reads_after_write(&a, &e) {
+                e.into_iter()
+                    .zip(a.iter())
+                    .map(|(e, a)| f.define_internal(statements_buffer, e, a.get_type()))
+                    .collect()
+            } else {
+                e
+            };
             a.into_iter()
                 .zip(e)
                 .map(|(a, e)| zir::ZirStatement::definition(a, e))
-- 
2.43.0


From 49c586d4c2d544088ecb2793ea02a44286d0289c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:12 +0000
Subject: [PATCH 20/39] fix: log products without crashing

---
 zokrates_codegen/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/zokrates_codegen/src/lib.rs b/zokrates_codegen/src/lib.rs
index 87e438f..cf87b5c 100644
--- a/zokrates_codegen/src/lib.rs
+++ b/zokrates_codegen/src/lib.rs
@@ -2799,8 +2799,10 @@ impl<'ast, T: Field> Flattener<'ast, T> {
                             t,
                             e.into_iter()
                                 .map(|e| {
-                                    self.flatten_expression(statements_flattened, e)
-                                        .get_field_unchecked()
+                                    let e = self
+                                        .flatten_expression(statements_flattened, e)
+                                        .get_field_unchecked();
+                                    self.define_non_linear(e, statements_flattened)
                                 })
                                 .collect(),
                         )
-- 
2.43.0


From 37e56500117b921c423dfb105b8d573f18871068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:41 +0000
Subject: [PATCH 21/39] fix: give calls returned by a function the member types
 of the structs it declares

---
 zokrates_core/src/semantics.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/zokrates_core/src/semantics.rs b/zokrates_core/src/semantics.rs
index 06f8753..2d16b7d 100644
--- a/zokrates_core/src/semantics.rs
+++ b/zokrates_core/src/semantics.rs
@@ -327,7 +327,8 @@ impl<'ast, T: Field> Scope<'ast, T> {
 /// Checker checks the semantics of a program, keeping track of functions and variables in scope
 #[derive(Default)]
 pub struct Checker<'ast, T> {
-    return_type: Option<DeclarationType<'ast, T>>,
+    // the declared return type of the function being checked, and the type of the values it returns
+    return_type: Option<(DeclarationType<'ast, T>, Type<'ast, T>)>,
     scope: Scope<'ast, T>,
     functions: HashSet<DeclarationFunctionKey<'ast, T>>,
 }
@@ -1143,6 +1144,11 @@ impl<'ast, T: Field> Checker<'ast, T> {
                     self.insert_into_scope(generic.name(), Type::Uint(UBitwidth::B32), false);
                 }
 
+                self.return_type = Some((
+                    *s.output.clone(),
+                    specialize_declaration_type(*s.output.clone(), &generics).unwrap(),
+                ));
+
                 for (arg, decl_ty) in funct.arguments.into_iter().zip(s.inputs.iter()) {
                     let span = arg.span().in_module(module_id);
 
@@ -1332,7 +1338,6 @@ impl<'ast, T: Field> Checker<'ast, T> {
                     return Err(errors);
                 }
 
-                self.return_type = Some(output.clone());
                 Ok(DeclarationSignature::new()
                     .generics(generics)
                     .inputs(inputs)
@@ -1948,23 +1953,17 @@ impl<'ast, T: Field> Checker<'ast, T> {
                 let mut errors = vec![];
 
                 // we clone the return type because there might be other return statements
-                let return_type = self.return_type.clone().unwrap();
+                let (return_type, value_type) = self.return_type.clone().unwrap();
 
                 let e_checked = e
                     .map(|e| {
                         match e.value {
                             Expression::FunctionCall(fun_id_expression, generics, arguments) => {
-                                let ty = zokrates_ast::typed::types::try_from_g_type(
-                                    return_type.clone(),
-                                )
-                                .map(Some)
-                                .unwrap();
-
                                 self.check_function_call_expression(
                                     *fun_id_expression,
                                     generics,
                                     arguments,
-                                    ty,
+                                    Some(value_type),
                                     module_id,
                                     types,
                                 )
-- 
2.43.0


From be1b0963c73f17c831f2bcccdb19513daec0572f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:07 +0000
Subject: [PATCH 22/39] fix: report cyclic imports instead of overflowing the
 stack

---
 zokrates_core/src/compile.rs | 11 ++++++++++-
 zokrates_core/src/imports.rs | 22 +++++++++++++++++++++-
 2 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/zokrates_core/src/compile.rs b/zokrates_core/src/compile.rs
index bb148b7..3fb6932 100644
--- a/zokrates_core/src/compile.rs
+++ b/zokrates_core/src/compile.rs
@@ -251,7 +251,14 @@ pub fn parse_program<'ast, T: Field, E: Into<imports::Error>>(
 ) -> Result<Program<'ast>, CompileErrors> {
     let mut modules = HashMap::new();
 
-    let main = parse_module::<T, E>(source, location.clone(), resolver, &mut modules, arena)?;
+    let main = parse_module::<T, E>(
+        source,
+        location.clone(),
+        resolver,
+        &mut modules,
+        arena,
+        &[],
+    )?;
 
     modules.insert(location.clone(), main);
 
@@ -267,6 +274,7 @@ pub fn parse_module<'ast, T: Field, E: Into<imports::Error>>(
     resolver: Option<&dyn Resolver<E>>,
     modules: &mut HashMap<OwnedModuleId, Module<'ast>>,
     arena: &'ast Arena<String>,
+    importers: &[FilePath],
 ) -> Result<Module<'ast>, CompileErrors> {
     log::debug!("Generate pest AST for {}", location.display());
 
@@ -290,6 +298,7 @@ pub fn parse_module<'ast, T: Field, E: Into<imports::Error>>(
         resolver,
         modules,
         arena,
+        importers,
     )
 }
 
diff --git a/zokrates_core/src/imports.rs b/zokrates_core/src/imports.rs
index 3bc08c5..437f4c9 100644
--- a/zokrates_core/src/imports.rs
+++ b/zokrates_core/src/imports.rs
@@ -67,19 +67,25 @@ impl From<io::Error> for Error {
 pub struct Importer;
 
 impl Importer {
+    /// `importers` are the modules whose imports lead to `location`
     pub fn apply_imports<'ast, T: Field, E: Into<Error>>(
         destination: Module<'ast>,
         location: PathBuf,
         resolver: Option<&dyn Resolver<E>>,
         modules: &mut HashMap<OwnedModuleId, Module<'ast>>,
         arena: &'ast Arena<String>,
+        importers: &[PathBuf],
     ) -> Result<Module<'ast>, CompileErrors> {
+        let importers = [importers, &[location.clone()]].concat();
+
         let symbols: Vec<_> = destination
             .symbols
             .into_iter()
             .map(|s| match s.value.symbol {
                 Symbol::Here(SymbolDefinition::Import(import)) => {
-                    Importer::resolve::<T, E>(import, &location, resolver, modules, arena)
+                    Importer::resolve::<T, E>(
+                        import, &location, resolver, modules, arena, &importers,
+                    )
                 }
                 _ => Ok(s),
             })
@@ -94,6 +100,7 @@ impl Importer {
         resolver: Option<&dyn Resolver<E>>,
         modules: &mut HashMap<OwnedModuleId, Module<'ast>>,
         arena: &'ast Arena<String>,
+        importers: &[PathBuf],
     ) -> Result<SymbolDeclarationNode<'ast>, CompileErrors> {
         let span = import.span().in_module(location);
         let module_id = import.value.source;
@@ -225,6 +232,18 @@ impl Importer {
                                 .unwrap(),
                         );
 
+                        if importers.contains(&new_location) {
+                            return Err(CompileErrorInner::ImportError(
+                                Error::new(format!(
+                                    "Cyclic import: {} is imported by a module it depends on",
+                                    new_location.display()
+                                ))
+                                .with_span(Some(span)),
+                            )
+                            .in_file(location)
+                            .into());
+                        }
+
                         match modules.get(&new_location) {
                             Some(_) => {}
                             None => {
@@ -235,6 +254,7 @@ impl Importer {
                                     resolver,
                                     modules,
                                     arena,
+                                    importers,
                                 )?;
 
                                 assert!(modules.insert(new_location.clone(), compiled).is_none());
-- 
2.43.0


From 0f3b4df7bd2198d90fe2437fc256aae84c7ad29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:04 +0000
Subject: [PATCH 23/39] fix: identify a module by the same path whichever way
 it is imported

---
 zokrates_fs_resolver/src/lib.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/zokrates_fs_resolver/src/lib.rs b/zokrates_fs_resolver/src/lib.rs
index 1289bbe..ed4632c 100644
--- a/zokrates_fs_resolver/src/lib.rs
+++ b/zokrates_fs_resolver/src/lib.rs
@@ -51,10 +51,30 @@ impl<'a> Resolver<io::Error> for FileSystemResolver<'a> {
         }
 
         let source = read_to_string(&path_owned)?;
-        Ok((source, path_owned))
+
+        // a module is identified by its path: use the same one whichever way the module is imported
+        let normalized = normalize(&path_owned);
+        match (normalized.canonicalize(), path_owned.canonicalize()) {
+            (Ok(a), Ok(b)) if a == b => Ok((source, normalized)),
+            _ => Ok((source, path_owned)),
+        }
     }
 }
 
+/// Removes `.` and, where possible, `..` from a path
+fn normalize(path: &Path) -> PathBuf {
+    path.components().fold(PathBuf::new(), |mut acc, c| {
+        match (c, acc.components().next_back()) {
+            (Component::CurDir, _) if acc != PathBuf::new() => {}
+            (Component::ParentDir, Some(Component::Normal(_))) => {
+                acc.pop();
+            }
+            (c, _) => acc.push(c),
+        }
+        acc
+    })
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From ff128bcb35c757409b6395b768b099058908822f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:07 +0000
Subject: [PATCH 24/39] fix: give imported constants the member types of the
 structs they are

---
 zokrates_core/src/semantics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zokrates_core/src/semantics.rs b/zokrates_core/src/semantics.rs
index 2d16b7d..10cbe40 100644
--- a/zokrates_core/src/semantics.rs
+++ b/zokrates_core/src/semantics.rs
@@ -897,7 +897,7 @@ impl<'ast, T: Field> Checker<'ast, T> {
                                                 declaration.id,
                                                 module_id.into(),
                                             )),
-                                            ty: zokrates_ast::typed::types::try_from_g_type(ty.clone()).unwrap(),
+                                            ty: specialize_declaration_type(ty.clone(), &GenericsAssignment::default()).unwrap(),
                                             is_mutable: false,
                                         };
                                         assert_eq!(self.scope.level, 0);
-- 
2.43.0


From 53c492919fd07ab15b6037d53bef9f7177917dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:35 +0000
Subject: [PATCH 25/39] fix: inline the constants imported by modules of which
 only types are used

---
 zokrates_analysis/src/constant_resolver.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zokrates_analysis/src/constant_resolver.rs b/zokrates_analysis/src/constant_resolver.rs
index 5ff42f4..0f405a9 100644
--- a/zokrates_analysis/src/constant_resolver.rs
+++ b/zokrates_analysis/src/constant_resolver.rs
@@ -61,6 +61,12 @@ impl<'ast, T: Field> Folder<'ast, T> for ConstantResolver<'ast, T> {
     fn fold_program(&mut self, p: TypedProgram<'ast, T>) -> TypedProgram<'ast, T> {
         self.fold_module_id(p.main.clone());
 
+        // modules of which only types are used are not encountered from main
+        let ids: Vec<_> = self.modules.keys().cloned().collect();
+        for id in ids {
+            self.fold_module_id(id);
+        }
+
         TypedProgram {
             modules: std::mem::take(&mut self.modules),
             ..p
-- 
2.43.0


From e950b99c9a3c5ab444bec367b22b595f535d81e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:10 +0000
Subject: [PATCH 26/39] fix: redefinition optimiser mishandled hints and
 self-cancelling constraints in asm blocks

---
 zokrates_core/src/optimizer/redefinition.rs | 57 +++++++++++++++++++--
 1 file changed, 53 insertions(+), 4 deletions(-)

diff --git a/zokrates_core/src/optimizer/redefinition.rs b/zokrates_core/src/optimizer/redefinition.rs
index 5588046..aa4c72b 100644
--- a/zokrates_core/src/optimizer/redefinition.rs
+++ b/zokrates_core/src/optimizer/redefinition.rs
@@ -67,6 +67,28 @@ impl<T: Field> RedefinitionOptimizer<T> {
         }
     }
 
+    // ignore the variables which this statement reads
+    fn ignore_read(&mut self, s: &Statement<T>) {
+        match s {
+            Statement::Constraint(s) => self.ignore.extend(
+                s.quad
+                    .left
+                    .value
+                    .iter()
+                    .chain(&s.quad.right.value)
+                    .chain(&s.lin.value)
+                    .map(|(v, _)| *v),
+            ),
+            Statement::Directive(d) => self.ignore.extend(
+                d.inputs
+                    .iter()
+                    .flat_map(|q| q.left.value.iter().chain(&q.right.value))
+                    .map(|(v, _)| *v),
+            ),
+            _ => {}
+        }
+    }
+
     fn fold_statement_cases<'ast>(
         &mut self,
         s: Statement<'ast, T>,
@@ -86,10 +108,31 @@ impl<T: Field> RedefinitionOptimizer<T> {
                 {
                     true => (Some(Statement::constraint(quad, lin, s.error)), None, None),
                     false => match lin.try_summand() {
+                        // if the right side is zero times a variable
+                        Ok((_, coefficient)) if coefficient == T::zero() => (
+                            Some(Statement::constraint(quad, LinComb::zero(), s.error)),
+                            None,
+                            None,
+                        ),
                         // if the right side is a single variable
                         Ok((variable, coefficient)) => match quad.try_linear() {
                             // if the left side is linear
-                            Ok(l) => (None, Some((variable, l / &coefficient)), None),
+                            Ok(l) => {
+                                let l = l / &coefficient;
+                                match l.value.iter().any(|(v, _)| *v == variable) {
+                                    // a variable cannot be replaced by an expression of itself
+                                    true => (
+                                        Some(Statement::constraint(
+                                            l,
+                                            LinComb::from(variable),
+                                            s.error,
+                                        )),
+                                        None,
+                                        Some(variable),
+                                    ),
+                                    false => (None, Some((variable, l)), None),
+                                }
+                            }
                             // if the left side isn't linear
                             Err(quad) => (
                                 Some(Statement::constraint(
@@ -112,6 +155,9 @@ impl<T: Field> RedefinitionOptimizer<T> {
 
                 // insert into the substitution map
                 if let Some((k, v)) = to_insert {
+                    if aggressive {
+                        self.ignore.extend(v.value.iter().map(|(v, _)| *v));
+                    }
                     self.substitution.insert(k, v.into_canonical());
                 };
 
@@ -203,9 +249,12 @@ impl<'ast, T: Field> Folder<'ast, T> for RedefinitionOptimizer<T> {
                     .into_iter()
                     .flat_map(|s| {
                         let span = s.get_span();
-                        self.fold_statement_cases(s, true)
-                            .into_iter()
-                            .map(move |s| s.span(span))
+                        let statements = self.fold_statement_cases(s, true);
+                        // a variable which was read cannot be replaced any more
+                        for s in &statements {
+                            self.ignore_read(s);
+                        }
+                        statements.into_iter().map(move |s| s.span(span))
                     })
                     .collect();
 
-- 
2.43.0


From 480504b1dc0a9aeef4f5911d454f4861b96f1ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:10 +0000
Subject: [PATCH 27/39] fix: decoding an array whose elements hold no values
 panicked

---
 zokrates_abi/src/lib.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/zokrates_abi/src/lib.rs b/zokrates_abi/src/lib.rs
index 2f92063..9f5a964 100644
--- a/zokrates_abi/src/lib.rs
+++ b/zokrates_abi/src/lib.rs
@@ -170,11 +170,19 @@ impl<T: Field> Decode<T> for Value<T> {
                     unreachable!()
                 })
             }
-            ConcreteType::Array(array_type) => Value::Array(
-                raw.chunks(array_type.ty.get_primitive_count())
-                    .map(|c| Value::decode(c.to_vec(), *array_type.ty.clone()))
-                    .collect(),
-            ),
+            ConcreteType::Array(array_type) => {
+                let count = array_type.ty.get_primitive_count();
+                Value::Array(
+                    (0..*array_type.size as usize)
+                        .map(|i| {
+                            Value::decode(
+                                raw[i * count..(i + 1) * count].to_vec(),
+                                *array_type.ty.clone(),
+                            )
+                        })
+                        .collect(),
+                )
+            }
             ConcreteType::Struct(members) => Value::Struct(
                 members
                     .into_iter()
-- 
2.43.0


From 0076f041f21cf8196e32ecb378f3a61737d96d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:10 +0000
Subject: [PATCH 28/39] fix: decimal field inputs with leading zeros were read
 as hexadecimal

---
 zokrates_abi/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/zokrates_abi/src/lib.rs b/zokrates_abi/src/lib.rs
index 9f5a964..802b190 100644
--- a/zokrates_abi/src/lib.rs
+++ b/zokrates_abi/src/lib.rs
@@ -253,6 +253,8 @@ pub fn parse_value<T: Field>(
     match (&expected_type, value) {
         (ConcreteType::FieldElement, serde_json::Value::String(s)) => {
             T::try_from_dec_str(s.as_str())
+                // decimal with leading zeros
+                .or_else(|_| T::try_from_str(s.as_str(), 10))
                 .or_else(|_| T::try_from_str(s.as_str().trim_start_matches("0x"), 16))
                 .map(Value::Field)
                 .map_err(|_| Error::Type(format!("Could not parse `{}` to field type", s)))
-- 
2.43.0


From e984b80d5954fdd157db05e57d351eee108541e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:10 +0000
Subject: [PATCH 29/39] fix: Pallas and Vesta programs were reported as
 programs of other curves

---
 zokrates_ast/src/ir/serialize.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zokrates_ast/src/ir/serialize.rs b/zokrates_ast/src/ir/serialize.rs
index 4e5ff7a..1c809d6 100644
--- a/zokrates_ast/src/ir/serialize.rs
+++ b/zokrates_ast/src/ir/serialize.rs
@@ -67,8 +67,8 @@ impl<
             ProgEnum::Bls12_381Program(_) => Bls12_381Field::name(),
             ProgEnum::Bls12_377Program(_) => Bls12_377Field::name(),
             ProgEnum::Bw6_761Program(_) => Bw6_761Field::name(),
-            ProgEnum::PallasProgram(_) => Bls12_377Field::name(),
-            ProgEnum::VestaProgram(_) => Bw6_761Field::name(),
+            ProgEnum::PallasProgram(_) => PallasField::name(),
+            ProgEnum::VestaProgram(_) => VestaField::name(),
         }
     }
 }
-- 
2.43.0


From 80a6a0c7a9b0de330a1dbd5a0f69a3ea2bf58a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:10 +0000
Subject: [PATCH 30/39] fix: the module map section of compiled programs was
 labelled as solvers

---
 zokrates_ast/src/ir/serialize.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zokrates_ast/src/ir/serialize.rs b/zokrates_ast/src/ir/serialize.rs
index 1c809d6..87a06f2 100644
--- a/zokrates_ast/src/ir/serialize.rs
+++ b/zokrates_ast/src/ir/serialize.rs
@@ -249,7 +249,7 @@ impl<'ast, T: Field, I: IntoIterator<Item = Statement<'ast, T>>> ProgIterator<'a
 
         // write module map section
         let module_map = {
-            let mut section = Section::new(SectionType::Solvers);
+            let mut section = Section::new(SectionType::Modules);
             section.set_offset(w.stream_position()?);
 
             serde_cbor::to_writer(&mut w, &self.module_map)?;
-- 
2.43.0


From dde09e04675b8b303756fd5c3656211d046c7982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:10 +0000
Subject: [PATCH 31/39] fix: a damaged statement silently ended the program
 being read

---
 zokrates_ast/src/ir/serialize.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/zokrates_ast/src/ir/serialize.rs b/zokrates_ast/src/ir/serialize.rs
index 87a06f2..076f8ae 100644
--- a/zokrates_ast/src/ir/serialize.rs
+++ b/zokrates_ast/src/ir/serialize.rs
@@ -5,7 +5,7 @@ use crate::ir::ModuleMap;
 use byteorder::{LittleEndian, ReadBytesExt, WriteBytesExt};
 use serde::Deserialize;
 use serde_cbor::{self, StreamDeserializer};
-use std::io::{Read, Seek, Write};
+use std::io::{Read, Seek, Take, Write};
 use zokrates_field::*;
 
 type DynamicError = Box<dyn std::error::Error>;
@@ -288,19 +288,22 @@ impl<'de, R: serde_cbor::de::Read<'de>, T: serde::Deserialize<'de>> Iterator
     type Item = T;
 
     fn next(&mut self) -> Option<T> {
-        self.s.next().and_then(|v| v.ok())
+        self.s.next().map(|v| {
+            v.map_err(|_| String::from("Cannot read statement"))
+                .unwrap()
+        })
     }
 }
 
 impl<'de, R: Read + Seek>
     ProgEnum<
         'de,
-        UnwrappedStreamDeserializer<'de, serde_cbor::de::IoRead<R>, Statement<'de, Bls12_381Field>>,
-        UnwrappedStreamDeserializer<'de, serde_cbor::de::IoRead<R>, Statement<'de, Bn128Field>>,
-        UnwrappedStreamDeserializer<'de, serde_cbor::de::IoRead<R>, Statement<'de, Bls12_377Field>>,
-        UnwrappedStreamDeserializer<'de, serde_cbor::de::IoRead<R>, Statement<'de, Bw6_761Field>>,
-        UnwrappedStreamDeserializer<'de, serde_cbor::de::IoRead<R>, Statement<'de, PallasField>>,
-        UnwrappedStreamDeserializer<'de, serde_cbor::de::IoRead<R>, Statement<'de, VestaField>>,
+        UnwrappedStreamDeserializer<'de, serde_cbor::de::IoRead<Take<R>>, Statement<'de, Bls12_381Field>>,
+        UnwrappedStreamDeserializer<'de, serde_cbor::de::IoRead<Take<R>>, Statement<'de, Bn128Field>>,
+        UnwrappedStreamDeserializer<'de, serde_cbor::de::IoRead<Take<R>>, Statement<'de, Bls12_377Field>>,
+        UnwrappedStreamDeserializer<'de, serde_cbor::de::IoRead<Take<R>>, Statement<'de, Bw6_761Field>>,
+        UnwrappedStreamDeserializer<'de, serde_cbor::de::IoRead<Take<R>>, Statement<'de, PallasField>>,
+        UnwrappedStreamDeserializer<'de, serde_cbor::de::IoRead<Take<R>>, Statement<'de, VestaField>>,
     >
 {
     fn read<T: Field>(
@@ -309,7 +312,7 @@ impl<'de, R: Read + Seek>
     ) -> ProgIterator<
         'de,
         T,
-        UnwrappedStreamDeserializer<'de, serde_cbor::de::IoRead<R>, Statement<'de, T>>,
+        UnwrappedStreamDeserializer<'de, serde_cbor::de::IoRead<Take<R>>, Statement<'de, T>>,
     > {
         let parameters = {
             let section = &header.sections[0];
@@ -345,7 +348,7 @@ impl<'de, R: Read + Seek>
             let section = &header.sections[1];
             r.seek(std::io::SeekFrom::Start(section.offset)).unwrap();
 
-            let p = serde_cbor::Deserializer::from_reader(r);
+            let p = serde_cbor::Deserializer::from_reader(r.take(section.length));
             let s = p.into_iter::<Statement<T>>();
 
             UnwrappedStreamDeserializer { s }
-- 
2.43.0


From d74a0a763cd4b272e9c7d1cd2bf8a1fcfbad8daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:45 +0000
Subject: [PATCH 32/39] fix: logging a variable hid that it is unconstrained

---
 zokrates_ast/src/ir/check.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zokrates_ast/src/ir/check.rs b/zokrates_ast/src/ir/check.rs
index e4c1652..f09d3dd 100644
--- a/zokrates_ast/src/ir/check.rs
+++ b/zokrates_ast/src/ir/check.rs
@@ -1,5 +1,6 @@
 use crate::ir::folder::Folder;
 use crate::ir::DirectiveStatement;
+use crate::ir::LogStatement;
 use crate::ir::Parameter;
 use crate::ir::ProgIterator;
 use crate::ir::Statement;
@@ -49,4 +50,8 @@ impl<'ast, T: Field> Folder<'ast, T> for UnconstrainedVariableDetector {
         self.variables.extend(d.outputs.iter());
         vec![Statement::Directive(d)]
     }
+    fn fold_log_statement(&mut self, l: LogStatement<T>) -> Vec<Statement<'ast, T>> {
+        // logging a variable does not constrain it
+        vec![Statement::Log(l)]
+    }
 }
-- 
2.43.0


From c58a89e88d37d9007f2774eb01d62a5fc6a8abe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:48 +0000
Subject: [PATCH 33/39] fix: write r1cs files of 48 byte fields with the right
 sizes

---
 zokrates_circom/src/r1cs.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/zokrates_circom/src/r1cs.rs b/zokrates_circom/src/r1cs.rs
index 00c0d8d..2cb6a6b 100644
--- a/zokrates_circom/src/r1cs.rs
+++ b/zokrates_circom/src/r1cs.rs
@@ -159,7 +159,7 @@ pub fn write_r1cs<T: Field, W: Write>(writer: &mut W, p: Prog<T>) -> Result<()>
     // section type: constraints
     // type
     writer.write_u32::<LittleEndian>(2)?;
-    // size: 4 per lc + (32 + 4) per summand
+    // size: 4 per lc + (`modulo_byte_count` + 4) per summand
     let size = constraints
         .iter()
         .map(|(a, b, c)| {
@@ -171,13 +171,13 @@ pub fn write_r1cs<T: Field, W: Write>(writer: &mut W, p: Prog<T>) -> Result<()>
         .sum();
     writer.write_u64::<LittleEndian>(size)?;
 
-    write_constraints(writer, constraints)?;
+    write_constraints(writer, constraints, modulo_byte_count as usize)?;
 
     // section type: header
     // type
     writer.write_u32::<LittleEndian>(1)?;
     // size
-    writer.write_u64::<LittleEndian>(32 + 32)?;
+    writer.write_u64::<LittleEndian>(32 + modulo_byte_count as u64)?;
 
     // header
     write_header(writer, header)?;
@@ -196,20 +196,25 @@ pub fn write_r1cs<T: Field, W: Write>(writer: &mut W, p: Prog<T>) -> Result<()>
 fn write_constraints<T: Field, W: Write>(
     writer: &mut W,
     constraints: Vec<Constraint<T>>,
+    modulo_byte_count: usize,
 ) -> Result<()> {
     for c in constraints {
-        write_lincomb(writer, c.0)?;
-        write_lincomb(writer, c.1)?;
-        write_lincomb(writer, c.2)?;
+        write_lincomb(writer, c.0, modulo_byte_count)?;
+        write_lincomb(writer, c.1, modulo_byte_count)?;
+        write_lincomb(writer, c.2, modulo_byte_count)?;
     }
     Ok(())
 }
 
-fn write_lincomb<T: Field, W: Write>(writer: &mut W, l: LinComb<T>) -> Result<()> {
+fn write_lincomb<T: Field, W: Write>(
+    writer: &mut W,
+    l: LinComb<T>,
+    modulo_byte_count: usize,
+) -> Result<()> {
     writer.write_u32::<LittleEndian>(l.len() as u32)?;
     for (var, coeff) in l {
         writer.write_u32::<LittleEndian>(var as u32)?;
-        let mut res = vec![0u8; 32];
+        let mut res = vec![0u8; modulo_byte_count];
         for (value, padded) in coeff.to_biguint().to_bytes_le().iter().zip(res.iter_mut()) {
             *padded = *value;
         }
-- 
2.43.0


From 285d004f0d5dc3b67b55856b1c61e84311085445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:48 +0000
Subject: [PATCH 34/39] fix: reduce bit operations on field elements modulo the
 prime instead of crashing

---
 zokrates_analysis/src/propagation.rs     | 26 +++++++++++++-----------
 zokrates_analysis/src/zir_propagation.rs | 22 +++++++++-----------
 2 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/zokrates_analysis/src/propagation.rs b/zokrates_analysis/src/propagation.rs
index 29a3101..ca1ec5c 100644
--- a/zokrates_analysis/src/propagation.rs
+++ b/zokrates_analysis/src/propagation.rs
@@ -55,6 +55,11 @@ impl fmt::Display for Error {
     }
 }
 
+/// Reduces `v` modulo the prime: bit operations on field elements may exceed it
+pub(crate) fn reduce<T: Field>(v: BigUint) -> T {
+    T::try_from(v % (T::max_value().to_biguint() + 1u32)).unwrap()
+}
+
 #[derive(Debug, Default)]
 pub struct Propagator<'ast, T> {
     // constants keeps track of constant expressions
@@ -980,10 +985,9 @@ impl<'ast, T: Field> ResultFolder<'ast, T> for Propagator<'ast, T> {
 
                 match (e1, e2) {
                     (FieldElementExpression::Value(n1), FieldElementExpression::Value(n2)) => {
-                        Ok(FieldElementExpression::value(
-                            T::try_from(n1.value.to_biguint().bitxor(n2.value.to_biguint()))
-                                .unwrap(),
-                        ))
+                        Ok(FieldElementExpression::value(reduce(
+                            n1.value.to_biguint().bitxor(n2.value.to_biguint()),
+                        )))
                     }
                     (FieldElementExpression::Value(n), e)
                     | (e, FieldElementExpression::Value(n))
@@ -1027,10 +1031,9 @@ impl<'ast, T: Field> ResultFolder<'ast, T> for Propagator<'ast, T> {
                         Ok(e)
                     }
                     (FieldElementExpression::Value(n1), FieldElementExpression::Value(n2)) => {
-                        Ok(FieldElementExpression::value(
-                            T::try_from(n1.value.to_biguint().bitor(n2.value.to_biguint()))
-                                .unwrap(),
-                        ))
+                        Ok(FieldElementExpression::value(reduce(
+                            n1.value.to_biguint().bitor(n2.value.to_biguint()),
+                        )))
                     }
                     (e1, e2) => Ok(FieldElementExpression::bitor(e1, e2)),
                 }
@@ -1065,10 +1068,9 @@ impl<'ast, T: Field> ResultFolder<'ast, T> for Propagator<'ast, T> {
                         let two = BigUint::from(2usize);
                         let mask: BigUint = two.pow(T::get_required_bits()).sub(1usize);
 
-                        Ok(FieldElementExpression::value(
-                            T::try_from(n.value.to_biguint().shl(by.value as usize).bitand(mask))
-                                .unwrap(),
-                        ))
+                        Ok(FieldElementExpression::value(reduce(
+                            n.value.to_biguint().shl(by.value as usize).bitand(mask),
+                        )))
                     }
                     (e, by) => Ok(FieldElementExpression::left_shift(e, by)),
                 }
diff --git a/zokrates_analysis/src/zir_propagation.rs b/zokrates_analysis/src/zir_propagation.rs
index ed86d6a..a4e83d6 100644
--- a/zokrates_analysis/src/zir_propagation.rs
+++ b/zokrates_analysis/src/zir_propagation.rs
@@ -1,3 +1,4 @@
+use crate::propagation::reduce;
 use num::traits::Pow;
 use num_bigint::BigUint;
 use std::collections::HashMap;
@@ -365,10 +366,9 @@ impl<'ast, T: Field> ResultFolder<'ast, T> for ZirPropagator<'ast, T> {
 
                 match (e1, e2) {
                     (FieldElementExpression::Value(n1), FieldElementExpression::Value(n2)) => {
-                        Ok(FieldElementExpression::value(
-                            T::try_from(n1.value.to_biguint().bitxor(n2.value.to_biguint()))
-                                .unwrap(),
-                        ))
+                        Ok(FieldElementExpression::value(reduce(
+                            n1.value.to_biguint().bitxor(n2.value.to_biguint()),
+                        )))
                     }
                     (e1, e2) if e1.eq(&e2) => Ok(FieldElementExpression::value(T::from(0))),
                     (e1, e2) => Ok(FieldElementExpression::bitxor(e1, e2)),
@@ -406,10 +406,9 @@ impl<'ast, T: Field> ResultFolder<'ast, T> for ZirPropagator<'ast, T> {
                         Ok(e)
                     }
                     (FieldElementExpression::Value(n1), FieldElementExpression::Value(n2)) => {
-                        Ok(FieldElementExpression::value(
-                            T::try_from(n1.value.to_biguint().bitor(n2.value.to_biguint()))
-                                .unwrap(),
-                        ))
+                        Ok(FieldElementExpression::value(reduce(
+                            n1.value.to_biguint().bitor(n2.value.to_biguint()),
+                        )))
                     }
                     (e1, e2) => Ok(FieldElementExpression::bitor(e1, e2)),
                 }
@@ -444,10 +443,9 @@ impl<'ast, T: Field> ResultFolder<'ast, T> for ZirPropagator<'ast, T> {
                         let two = BigUint::from(2usize);
                         let mask: BigUint = two.pow(T::get_required_bits()).sub(1usize);
 
-                        Ok(FieldElementExpression::value(
-                            T::try_from(n.value.to_biguint().shl(by.value as usize).bitand(mask))
-                                .unwrap(),
-                        ))
+                        Ok(FieldElementExpression::value(reduce(
+                            n.value.to_biguint().shl(by.value as usize).bitand(mask),
+                        )))
                     }
                     (expr, by) => Ok(FieldElementExpression::left_shift(expr, by)),
                 }
-- 
2.43.0


From 9fd07a6b5d9f3abefdc70cb9d19be404626f1e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:48 +0000
Subject: [PATCH 35/39] fix: let a hint in an asm block refer to the previous
 value of its target

---
 zokrates_ast/src/typed/folder.rs        | 3 ++-
 zokrates_ast/src/typed/result_folder.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/zokrates_ast/src/typed/folder.rs b/zokrates_ast/src/typed/folder.rs
index 424109b..3705e71 100644
--- a/zokrates_ast/src/typed/folder.rs
+++ b/zokrates_ast/src/typed/folder.rs
@@ -790,8 +790,9 @@ pub fn fold_assembly_assignment<'ast, T: Field, F: Folder<'ast, T>>(
     f: &mut F,
     s: AssemblyAssignment<'ast, T>,
 ) -> Vec<TypedAssemblyStatement<'ast, T>> {
-    let assignee = f.fold_assignee(s.assignee);
+    // the expression refers to the values before the assignment
     let expression = f.fold_expression(s.expression);
+    let assignee = f.fold_assignee(s.assignee);
     vec![TypedAssemblyStatement::assignment(assignee, expression)]
 }
 
diff --git a/zokrates_ast/src/typed/result_folder.rs b/zokrates_ast/src/typed/result_folder.rs
index d8541ad..e47f5f4 100644
--- a/zokrates_ast/src/typed/result_folder.rs
+++ b/zokrates_ast/src/typed/result_folder.rs
@@ -769,8 +769,9 @@ pub fn fold_assembly_assignment<'ast, T: Field, F: ResultFolder<'ast, T>>(
     f: &mut F,
     s: AssemblyAssignment<'ast, T>,
 ) -> Result<Vec<TypedAssemblyStatement<'ast, T>>, F::Error> {
-    let assignee = f.fold_assignee(s.assignee)?;
+    // the expression refers to the values before the assignment
     let expression = f.fold_expression(s.expression)?;
+    let assignee = f.fold_assignee(s.assignee)?;
     Ok(vec![TypedAssemblyStatement::assignment(
         assignee, expression,
     )])
-- 
2.43.0


From c21bef203e032af25531ae3978b7f99a22f52b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:48 +0000
Subject: [PATCH 36/39] fix: keep the arguments of hints which optimisation
 made unused

---
 zokrates_analysis/src/dead_code.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zokrates_analysis/src/dead_code.rs b/zokrates_analysis/src/dead_code.rs
index d1baba9..558bcdf 100644
--- a/zokrates_analysis/src/dead_code.rs
+++ b/zokrates_analysis/src/dead_code.rs
@@ -23,6 +23,9 @@ impl<'ast, T: Field> Folder<'ast, T> for DeadCodeEliminator<'ast> {
             .flat_map(|s| self.fold_statement(s))
             .collect();
         statements.reverse();
+        // the arguments are read when the function is called, even if its body does not use all of them
+        self.used
+            .extend(f.arguments.iter().map(|a| a.id.id.clone()));
         ZirFunction { statements, ..f }
     }
 
-- 
2.43.0


From 4a1f46e0e6f2090348d926f7f5f9661b124d160c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:48 +0000
Subject: [PATCH 37/39] fix: reject asm constraints of degree three instead of
 dropping their terms

---
 zokrates_ast/src/zir/lqc.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/zokrates_ast/src/zir/lqc.rs b/zokrates_ast/src/zir/lqc.rs
index e34877c..56c9749 100644
--- a/zokrates_ast/src/zir/lqc.rs
+++ b/zokrates_ast/src/zir/lqc.rs
@@ -63,7 +63,12 @@ impl<'ast, T: Field> std::ops::Sub for LinQuadComb<'ast, T> {
 impl<'ast, T: Field> LinQuadComb<'ast, T> {
     fn try_mul(self, rhs: Self) -> Result<Self, ()> {
         // fail if the result has degree higher than 2
-        if !(self.quadratic.is_empty() || rhs.quadratic.is_empty()) {
+        let has_linear = |c: &Self| c.linear.iter().any(|(c, _)| *c != T::zero());
+        let has_quadratic = |c: &Self| c.quadratic.iter().any(|(c, _, _)| *c != T::zero());
+
+        if has_quadratic(&self) && (has_linear(&rhs) || has_quadratic(&rhs))
+            || has_linear(&self) && has_quadratic(&rhs)
+        {
             return Err(());
         }
 
-- 
2.43.0


From 217f8687f6e68df9036ce352751f0f134963e6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:48 +0000
Subject: [PATCH 38/39] fix: compile asm constraints with a multiple of a
 linear combination

---
 zokrates_ast/src/ir/from_flat.rs |  3 +++
 zokrates_ast/src/zir/mod.rs      | 10 ++++++----
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/zokrates_ast/src/ir/from_flat.rs b/zokrates_ast/src/ir/from_flat.rs
index f7f8c42..1530233 100644
--- a/zokrates_ast/src/ir/from_flat.rs
+++ b/zokrates_ast/src/ir/from_flat.rs
@@ -48,6 +48,9 @@ impl<T: Field> From<FlatExpression<T>> for LinComb<T> {
                 (FlatExpression::Value(n1), FlatExpression::Value(n2)) => {
                     LinComb::summand(n1.value * n2.value, Variable::one())
                 }
+                (FlatExpression::Value(n), e) | (e, FlatExpression::Value(n)) => {
+                    LinComb::from(e) * &n.value
+                }
                 (left, right) => unreachable!("{}", FlatExpression::mul(left, right).span(e.span)),
             },
         }
diff --git a/zokrates_ast/src/zir/mod.rs b/zokrates_ast/src/zir/mod.rs
index 62025ad..83e3efc 100644
--- a/zokrates_ast/src/zir/mod.rs
+++ b/zokrates_ast/src/zir/mod.rs
@@ -740,10 +740,12 @@ impl<'ast, T> FieldElementExpression<'ast, T> {
             FieldElementExpression::Identifier(_) => true,
             FieldElementExpression::Add(e) => e.left.is_linear() && e.right.is_linear(),
             FieldElementExpression::Sub(e) => e.left.is_linear() && e.right.is_linear(),
-            FieldElementExpression::Mult(e) => matches!(
-                (&*e.left, &*e.right),
-                (FieldElementExpression::Value(_), _) | (_, FieldElementExpression::Value(_))
-            ),
+            FieldElementExpression::Mult(e) => match (&*e.left, &*e.right) {
+                (FieldElementExpression::Value(_), e) | (e, FieldElementExpression::Value(_)) => {
+                    e.is_linear()
+                }
+                _ => false,
+            },
             _ => false,
         }
     }
-- 
2.43.0


From 7a0426089635e6e4099f3fa415276f505880e3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:52 +0000
Subject: [PATCH 39/39] fix: leave a hint which fails for constant inputs to
 the execution instead of crashing

---
 zokrates_core/src/optimizer/redefinition.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/zokrates_core/src/optimizer/redefinition.rs b/zokrates_core/src/optimizer/redefinition.rs
index aa4c72b..86e8d03 100644
--- a/zokrates_core/src/optimizer/redefinition.rs
+++ b/zokrates_core/src/optimizer/redefinition.rs
@@ -199,12 +199,15 @@ impl<T: Field> RedefinitionOptimizer<T> {
                     })
                     .collect::<Vec<Result<T, QuadComb<T>>>>();
 
-                match inputs.iter().all(|i| i.is_ok()) {
-                    true => {
-                        // unwrap inputs to their constant value
-                        let inputs: Vec<_> = inputs.into_iter().map(|i| i.unwrap()).collect();
-                        // run the solver
-                        let outputs = Interpreter::execute_solver(&d.solver, &inputs, &[]).unwrap();
+                // if all inputs are constant, run the solver
+                let outputs = inputs
+                    .iter()
+                    .map(|i| i.as_ref().ok().cloned())
+                    .collect::<Option<Vec<T>>>()
+                    .and_then(|inputs| Interpreter::execute_solver(&d.solver, &inputs, &[]).ok());
+
+                match outputs {
+                    Some(outputs) => {
                         assert_eq!(outputs.len(), d.outputs.len());
 
                         // insert the results in the substitution
@@ -214,7 +217,8 @@ impl<T: Field> RedefinitionOptimizer<T> {
                         }
                         vec![]
                     }
-                    false => {
+                    // otherwise, or if the solver fails for these inputs, leave it to the execution
+                    None => {
                         //reconstruct the input expressions
                         let inputs: Vec<_> = inputs
                             .into_iter()
-- 
2.43.0

