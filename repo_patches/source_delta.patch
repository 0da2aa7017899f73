From 12b0ef048cd74ab902c6b2ad419af6189567c434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:05 +0000
Subject: [PATCH 01/25] fix: dividing by 1.0 returned the divisor instead of
 the dividend

---
 src/arithmetics/division.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arithmetics/division.rs b/src/arithmetics/division.rs
index d89d13f..de9dc52 100644
--- a/src/arithmetics/division.rs
+++ b/src/arithmetics/division.rs
@@ -71,7 +71,7 @@ impl Expression {
             }
             Expression::Real(real_divisor) => {
                 if real_divisor == &Symbol::real(1.0) {
-                    return divisor;
+                    return dividend;
                 }
                 if real_divisor == &Symbol::real(-1.0) {
                     return Expression::multiplication(vec![dividend, Symbol::real(-1.0).expr()]);
-- 
2.43.0


From 12f268691c8f190f4e202a68c60fa126ec5b7c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:04 +0000
Subject: [PATCH 02/25] fix: integer base with a negative integer factor in the
 exponent recursed forever

---
 src/exponential/power.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exponential/power.rs b/src/exponential/power.rs
index 10623f0..0e92f6c 100644
--- a/src/exponential/power.rs
+++ b/src/exponential/power.rs
@@ -155,7 +155,7 @@ impl Expression {
                         }
                         if let Some(integer_exponent_factor) =
                             exponent_factors.get_one(&|factor| match factor {
-                                Expression::Integer(_) => true,
+                                Expression::Integer(n) => !n.is_negative(),
                                 _ => false,
                             })
                         {
-- 
2.43.0


From b2b749e2fb56e156511ff6ff26252465eed36b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:44 +0000
Subject: [PATCH 03/25] fix: keep a negative integer factor apart from a float
 factor, as a positive one is

Folding only negative integers made -x differ structurally from x, so
(2*2.5*a) - (2*2.5*a) did not cancel, and it panicked beyond isize.
---
 src/arithmetics/multiplication.rs | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/arithmetics/multiplication.rs b/src/arithmetics/multiplication.rs
index 92d11cb..564738b 100644
--- a/src/arithmetics/multiplication.rs
+++ b/src/arithmetics/multiplication.rs
@@ -58,13 +58,6 @@ impl Expression {
             }
         }
 
-        if integer < Symbol::integer(-1) && real != Symbol::real(1.0) {
-            let real_value = real.value().unwrap();
-            let integer_value = integer.value().unwrap();
-            real = Symbol::real(real_value * (integer_value * -1) as f64);
-            integer = Symbol::integer(-1);
-        }
-
         if integer != Symbol::integer(1) {
             items_vec.push(integer.expr());
         }
-- 
2.43.0


From e3cb0d02018c0ebea8716e7d4fa8f5361a501f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:45 +0000
Subject: [PATCH 04/25] fix: power of an integer beyond isize with a float
 panicked

---
 src/exponential/power.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/exponential/power.rs b/src/exponential/power.rs
index 0e92f6c..122700d 100644
--- a/src/exponential/power.rs
+++ b/src/exponential/power.rs
@@ -132,7 +132,7 @@ impl Expression {
                     }
                     /* Simplification (Integer to Real) */
                     Expression::Real(real_exponent) => {
-                        let base_value: f64 = integer_base.value().unwrap() as f64;
+                        let base_value: f64 = num::ToPrimitive::to_f64(&integer_base.data).unwrap();
                         let exp_value: f64 = real_exponent.value().unwrap();
                         return Symbol::real(base_value.powf(exp_value)).expr();
                     }
@@ -188,7 +188,7 @@ impl Expression {
                     /* Simplification (Real to Integer) */
                     Expression::Integer(integer_exponent) => {
                         let base_value: f64 = real_base.value().unwrap();
-                        let exp_value: f64 = integer_exponent.value().unwrap() as f64;
+                        let exp_value: f64 = num::ToPrimitive::to_f64(&integer_exponent.data).unwrap();
                         return Symbol::real(base_value.powf(exp_value)).expr();
                     }
                     /* Simplification (Real to multiplication with Integer or Real) */
-- 
2.43.0


From d0cd086ce6945d6e950966f6e277682b0387106c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:46 +0000
Subject: [PATCH 05/25] fix: logarithm of integers returned a rounded float and
 panicked beyond isize

---
 src/exponential/logarithm.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/exponential/logarithm.rs b/src/exponential/logarithm.rs
index c228335..8d78d40 100644
--- a/src/exponential/logarithm.rs
+++ b/src/exponential/logarithm.rs
@@ -12,10 +12,14 @@ impl Expression {
             }
             Expression::Integer(integer_argument) => match &base {
                 Expression::Integer(integer_base) => {
-                    let log_result: f64 =
-                        (integer_argument.value().unwrap() as f64).log(integer_base.value().unwrap() as f64);
+                    let log_result: f64 = num::ToPrimitive::to_f64(&integer_argument.data).unwrap()
+                        .log(num::ToPrimitive::to_f64(&integer_base.data).unwrap());
                     if (log_result as isize) as f64 == log_result {
-                        return Symbol::integer(log_result as isize).expr();
+                        /* the float result may be rounded: accept only the exact logarithm */
+                        let exponent = Symbol::integer(log_result as isize);
+                        if integer_base.pow(&exponent).as_ref() == Some(integer_argument) {
+                            return exponent.expr();
+                        }
                     }
                 }
                 _ => {}
-- 
2.43.0


From 266ff08f47ed9d53aa63a5cac0dfee2492092967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:00 +0000
Subject: [PATCH 06/25] fix: collecting common addends panicked for
 coefficients beyond isize

---
 .../factoring/additive_common_addend.rs         | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/manipulation/simplification_rules/factoring/additive_common_addend.rs b/src/manipulation/simplification_rules/factoring/additive_common_addend.rs
index 1c54e1e..0f2a403 100644
--- a/src/manipulation/simplification_rules/factoring/additive_common_addend.rs
+++ b/src/manipulation/simplification_rules/factoring/additive_common_addend.rs
@@ -2,6 +2,7 @@ use crate::base::expression::Expression;
 use crate::base::symbol::Symbol;
 use crate::manipulation::simplification_rules::rule::Rule;
 
+use num::bigint::BigInt;
 use std::collections::HashMap;
 
 pub struct AdditiveCommonAddend {}
@@ -9,12 +10,12 @@ impl Rule for AdditiveCommonAddend {
     fn apply(expression: &Expression) -> Expression {
         match expression {
             Expression::Addition(addends) => {
-                let mut addend_count_list: HashMap<Expression, isize> = HashMap::new();
+                let mut addend_count_list: HashMap<Expression, Symbol<BigInt>> = HashMap::new();
 
                 fn update_addend_list(
-                    mapping: &mut HashMap<Expression, isize>,
+                    mapping: &mut HashMap<Expression, Symbol<BigInt>>,
                     addend: &Expression,
-                    counter: isize,
+                    counter: Symbol<BigInt>,
                 ) {
                     let opposite = &-addend;
 
@@ -45,26 +46,26 @@ impl Rule for AdditiveCommonAddend {
                                     update_addend_list(
                                         &mut addend_count_list,
                                         &Expression::multiplication(remaining_factors),
-                                        integer.value().unwrap(),
+                                        integer,
                                     );
                                 }
 
                                 /* No Integer factor in multiplication */
                                 _ => {
-                                    update_addend_list(&mut addend_count_list, addend, 1);
+                                    update_addend_list(&mut addend_count_list, addend, Symbol::integer(1));
                                 }
                             };
                         }
                         /* Not multiplication */
                         _ => {
-                            update_addend_list(&mut addend_count_list, addend, 1);
+                            update_addend_list(&mut addend_count_list, addend, Symbol::integer(1));
                         }
                     }
                 }
                 let addends: Vec<Expression> = addend_count_list
                     .iter()
-                    .filter(|&(_, counter)| counter != &0)
-                    .map(|(expression, counter)| Symbol::integer(*counter).expr() * expression)
+                    .filter(|&(_, counter)| counter != &Symbol::integer(0))
+                    .map(|(expression, counter)| counter.clone().expr() * expression)
                     .collect();
 
                 return Expression::addition(addends);
-- 
2.43.0


From dd3ed084095b707d1ecf4c4fd3bd47fa6a5779dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:01 +0000
Subject: [PATCH 07/25] fix: simplification depended on the random iteration
 order of hash maps

---
 .../factoring/additive_common_addend.rs                     | 6 +++---
 .../factoring/multiplicative_common_factor.rs               | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/manipulation/simplification_rules/factoring/additive_common_addend.rs b/src/manipulation/simplification_rules/factoring/additive_common_addend.rs
index 0f2a403..5e39173 100644
--- a/src/manipulation/simplification_rules/factoring/additive_common_addend.rs
+++ b/src/manipulation/simplification_rules/factoring/additive_common_addend.rs
@@ -3,17 +3,17 @@ use crate::base::symbol::Symbol;
 use crate::manipulation::simplification_rules::rule::Rule;
 
 use num::bigint::BigInt;
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 pub struct AdditiveCommonAddend {}
 impl Rule for AdditiveCommonAddend {
     fn apply(expression: &Expression) -> Expression {
         match expression {
             Expression::Addition(addends) => {
-                let mut addend_count_list: HashMap<Expression, Symbol<BigInt>> = HashMap::new();
+                let mut addend_count_list: BTreeMap<Expression, Symbol<BigInt>> = BTreeMap::new();
 
                 fn update_addend_list(
-                    mapping: &mut HashMap<Expression, Symbol<BigInt>>,
+                    mapping: &mut BTreeMap<Expression, Symbol<BigInt>>,
                     addend: &Expression,
                     counter: Symbol<BigInt>,
                 ) {
diff --git a/src/manipulation/simplification_rules/factoring/multiplicative_common_factor.rs b/src/manipulation/simplification_rules/factoring/multiplicative_common_factor.rs
index 7fc64a4..8440784 100644
--- a/src/manipulation/simplification_rules/factoring/multiplicative_common_factor.rs
+++ b/src/manipulation/simplification_rules/factoring/multiplicative_common_factor.rs
@@ -2,14 +2,14 @@ use crate::base::expression::Expression;
 use crate::base::symbol::Symbol;
 use crate::manipulation::simplification_rules::rule::Rule;
 
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 pub struct MultiplicativeCommonFactor {}
 impl Rule for MultiplicativeCommonFactor {
     fn apply(expression: &Expression) -> Expression {
         match expression {
             Expression::Multiplication(factors) => {
-                let mut power_list: HashMap<Expression, Expression> = HashMap::new();
+                let mut power_list: BTreeMap<Expression, Expression> = BTreeMap::new();
                 for factor in factors.items().iter() {
                     match factor {
                         Expression::Power(power) => {
-- 
2.43.0


From fde074c9281cb93cd85ae6af32aeaf8579b854de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:23 +0000
Subject: [PATCH 08/25] fix: expanding a sum raised to an integer beyond isize
 panicked

---
 .../expansion_rules/power_distributive_addition.rs           | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/manipulation/expansion_rules/power_distributive_addition.rs b/src/manipulation/expansion_rules/power_distributive_addition.rs
index 4513cff..696d9e5 100644
--- a/src/manipulation/expansion_rules/power_distributive_addition.rs
+++ b/src/manipulation/expansion_rules/power_distributive_addition.rs
@@ -15,7 +15,10 @@ impl Rule for PowerDistributiveAddition {
                 Expression::Addition(_) => match power.modifier() {
                     /* Single Integer exponent */
                     Expression::Integer(integer_exponent) => {
-                        let exponent = integer_exponent.value().unwrap();
+                        let exponent = match integer_exponent.value() {
+                            Some(exponent) => exponent,
+                            None => return expression.clone(), /* too large to expand */
+                        };
                         let mut factors: Vec<Expression> = Vec::new();
 
                         for _ in 0..exponent.abs() {
-- 
2.43.0


From 0eddcab82469b002a71a71f97f2db07c3b7a9dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:24 +0000
Subject: [PATCH 09/25] fix: single denominator turned a^(-2*c) into (c*a^2)^-1

---
 .../factoring/single_algebraic_denominator.rs       | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/manipulation/simplification_rules/factoring/single_algebraic_denominator.rs b/src/manipulation/simplification_rules/factoring/single_algebraic_denominator.rs
index 2aea09d..bfa3dc5 100644
--- a/src/manipulation/simplification_rules/factoring/single_algebraic_denominator.rs
+++ b/src/manipulation/simplification_rules/factoring/single_algebraic_denominator.rs
@@ -30,17 +30,8 @@ impl Rule for SingleAlgebraicDenominator {
                             Expression::Integer(n) => {
                                 return power.argument().pow((n * Symbol::integer(-1)).expr())
                             }
-                            Expression::Multiplication(power_factors) => {
-                                return Expression::multiplication(power_factors.map(&|factor| {
-                                    match factor {
-                                        Expression::Integer(n) => {
-                                            return power
-                                                .argument()
-                                                .pow((n * Symbol::integer(-1)).expr())
-                                        }
-                                        _ => return factor.clone(),
-                                    }
-                                }))
+                            Expression::Multiplication(_) => {
+                                return power.argument().pow(-power.modifier())
                             }
                             _ => return denominator.clone(),
                         },
-- 
2.43.0


From bfc2813cd85aeb085dce16bf5d1803e96509505c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:25 +0000
Subject: [PATCH 10/25] fix: simplify returned its input when expansion gave a
 single literal or variable

---
 src/manipulation/simplifiable.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/manipulation/simplifiable.rs b/src/manipulation/simplifiable.rs
index 6422a0d..6e73e6d 100644
--- a/src/manipulation/simplifiable.rs
+++ b/src/manipulation/simplifiable.rs
@@ -50,7 +50,7 @@ impl Expression {
                 return Expression::logarithm(log.argument().simplify(), log.modifier().simplify())
             }
 
-            _ => return self,
+            expanded => return expanded,
         }
     }
 }
-- 
2.43.0


From 9a1809bda577ea28879d6807f42b6d19d96fe3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:25 +0000
Subject: [PATCH 11/25] fix: infinities compared as lesser than every float

---
 src/symbols/real.rs | 26 +-------------------------
 1 file changed, 1 insertion(+), 25 deletions(-)

diff --git a/src/symbols/real.rs b/src/symbols/real.rs
index 1a90303..f2420ae 100644
--- a/src/symbols/real.rs
+++ b/src/symbols/real.rs
@@ -50,31 +50,7 @@ impl Ord for Symbol<f64> {
 }
 impl PartialOrd for Symbol<f64> {
     fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
-        let both_nan = self.data == std::f64::NAN || other.data == std::f64::NAN;
-        let both_ninf = self.data == std::f64::NEG_INFINITY && other.data == std::f64::NEG_INFINITY;
-        let both_inf = self.data == std::f64::INFINITY && other.data == std::f64::INFINITY;
-
-        let first_ninf =
-            self.data == std::f64::NEG_INFINITY && other.data != std::f64::NEG_INFINITY;
-        let second_ninf =
-            other.data == std::f64::NEG_INFINITY && self.data != std::f64::NEG_INFINITY;
-
-        let first_inf = self.data == std::f64::INFINITY && other.data != std::f64::INFINITY;
-        let second_inf = other.data == std::f64::INFINITY && self.data != std::f64::INFINITY;
-
-        if both_nan || both_inf || both_ninf {
-            return None;
-        }
-
-        if first_ninf || second_inf {
-            return Some(std::cmp::Ordering::Less);
-        }
-
-        if first_inf || second_ninf {
-            return Some(std::cmp::Ordering::Less);
-        }
-
-        Some(self.cmp(other))
+        self.data.partial_cmp(&other.data)
     }
 }
 
-- 
2.43.0


From 8282a88cead34eddcd0f7711e3690b58d5a3da21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:26 +0000
Subject: [PATCH 12/25] fix: equal float zeros hashed differently

---
 src/symbols/real.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/symbols/real.rs b/src/symbols/real.rs
index f2420ae..7ecc7a4 100644
--- a/src/symbols/real.rs
+++ b/src/symbols/real.rs
@@ -21,7 +21,7 @@ impl Symbol<f64> {
 use std::hash::{Hash, Hasher};
 impl Hash for Symbol<f64> {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        let (m, e, s) = num::Float::integer_decode(self.data);
+        let (m, e, s) = num::Float::integer_decode(self.data + 0.0); /* -0.0 + 0.0 is 0.0 */
         m.hash(state);
         e.hash(state);
         s.hash(state);
-- 
2.43.0


From 60482fc1858df16a84cc9c044d5a10f11d044dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:26 +0000
Subject: [PATCH 13/25] fix: a NaN sum of floats vanished from additions

---
 src/arithmetics/addition.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arithmetics/addition.rs b/src/arithmetics/addition.rs
index 62e070b..8b5ca14 100644
--- a/src/arithmetics/addition.rs
+++ b/src/arithmetics/addition.rs
@@ -59,7 +59,7 @@ impl Expression {
                 Symbol::integer(-1).expr(),
                 (Symbol::real(-1.0) * real).expr(),
             ]));
-        } else if real > Symbol::real(0.0) {
+        } else if real != Symbol::real(0.0) {
             items_vec.push(real.expr());
         }
 
-- 
2.43.0


From 86b3a8ad434cf779e62fd308906e5e45bca8f298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:38 +0000
Subject: [PATCH 14/25] fix: negative float differences were not recognised, so
 a < b and b > a disagreed

---
 src/manipulation/expression_comparison.rs | 25 ++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/manipulation/expression_comparison.rs b/src/manipulation/expression_comparison.rs
index 6e3d833..f0b5385 100644
--- a/src/manipulation/expression_comparison.rs
+++ b/src/manipulation/expression_comparison.rs
@@ -2,8 +2,19 @@ use crate::base::expression::Expression;
 use crate::base::symbol::Symbol;
 
 impl Expression {
+    /* simplified difference, with an integer factor of a float (e.g. its sign) folded into it */
+    fn difference(&self, other: &Expression) -> Expression {
+        let difference = (self - other).simplify();
+        if let Expression::Multiplication(factors) = &difference {
+            if let [Expression::Real(r), Expression::Integer(n)] = factors.items().as_slice() {
+                return (r * Symbol::real(num::ToPrimitive::to_f64(&n.data).unwrap())).expr();
+            }
+        }
+        return difference;
+    }
+
     pub fn comparable(&self, other: &Expression) -> bool {
-        match (self - other).simplify() {
+        match self.difference(other) {
             Expression::Integer(_) => return true,
             Expression::Real(_) => return true,
             _ => return false,
@@ -11,7 +22,7 @@ impl Expression {
     }
 
     pub fn equal(&self, other: &Self) -> bool {
-        let simplified_difference = (self - other).simplify();
+        let simplified_difference = self.difference(other);
         match simplified_difference {
             Expression::Integer(n) => return n == Symbol::integer(0),
             Expression::Real(r) => return r == Symbol::real(0.0),
@@ -20,7 +31,7 @@ impl Expression {
     }
 
     pub fn not_equal(&self, other: &Self) -> bool {
-        let simplified_difference = (self - other).simplify();
+        let simplified_difference = self.difference(other);
         match simplified_difference {
             Expression::Integer(n) => return n != Symbol::integer(0),
             Expression::Real(r) => return r != Symbol::real(0.0),
@@ -29,7 +40,7 @@ impl Expression {
     }
 
     pub fn greater(&self, other: &Self) -> bool {
-        let simplified_difference = (self - other).simplify();
+        let simplified_difference = self.difference(other);
         match simplified_difference {
             Expression::Integer(n) => return n > Symbol::integer(0),
             Expression::Real(r) => return r > Symbol::real(0.0),
@@ -38,7 +49,7 @@ impl Expression {
     }
 
     pub fn lesser(&self, other: &Self) -> bool {
-        let simplified_difference = (self - other).simplify();
+        let simplified_difference = self.difference(other);
         match simplified_difference {
             Expression::Integer(n) => return n < Symbol::integer(0),
             Expression::Real(r) => return r < Symbol::real(0.0),
@@ -47,7 +58,7 @@ impl Expression {
     }
 
     pub fn greater_equal(&self, other: &Self) -> bool {
-        let simplified_difference = (self - other).simplify();
+        let simplified_difference = self.difference(other);
         match simplified_difference {
             Expression::Integer(n) => return n == Symbol::integer(0) || n > Symbol::integer(0),
             Expression::Real(r) => return r == Symbol::real(0.0) || r > Symbol::real(0.0),
@@ -55,7 +66,7 @@ impl Expression {
         }
     }
     pub fn lesser_equal(&self, other: &Self) -> bool {
-        let simplified_difference = (self - other).simplify();
+        let simplified_difference = self.difference(other);
         match simplified_difference {
             Expression::Integer(n) => return n == Symbol::integer(0) || n < Symbol::integer(0),
             Expression::Real(r) => return r == Symbol::real(0.0) || r < Symbol::real(0.0),
-- 
2.43.0


From e11d3148f77e5d9e95bc99a91800003d38179cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:28 +0000
Subject: [PATCH 15/25] fix: negative integer powers of -1 gave pow(-1, -1) or
 pow(1, -1) instead of an integer

---
 src/exponential/power.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/exponential/power.rs b/src/exponential/power.rs
index 122700d..2c3f7cd 100644
--- a/src/exponential/power.rs
+++ b/src/exponential/power.rs
@@ -118,6 +118,10 @@ impl Expression {
                     /* Simplification (Integer to Integer) */
                     Expression::Integer(integer_exponent) => {
                         if integer_exponent.is_negative() {
+                            /* Own inverse */
+                            if integer_base == &Symbol::integer(-1) {
+                                return integer_base.pow(&integer_exponent.opposite()).unwrap().expr();
+                            }
                             /* Rational Denominator */
                             return Expression::Power(AssociativeOperation::new(
                                 integer_base
-- 
2.43.0


From f08b273f6568a70a5680f7eaed4ef3b69dc3c40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:43 +0000
Subject: [PATCH 16/25] fix: expand integer powers of products, so equal
 polynomials simplify to the same form

(a*b)^2 stayed a power of a product through expand and simplify, so it was
neither equal to nor comparable with a^2*b^2, and (a*b)/(a*b) was not 1.
---
 src/manipulation/expand.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/manipulation/expand.rs b/src/manipulation/expand.rs
index 5e313d4..56700a6 100644
--- a/src/manipulation/expand.rs
+++ b/src/manipulation/expand.rs
@@ -5,7 +5,8 @@ use crate::{
     base::expression::Expression,
     manipulation::expansion_rules::{
         multiplicative_distributive::MultiplicativeDistributive,
-        power_distributive_addition::PowerDistributiveAddition, rule::Rule,
+        power_distributive_addition::PowerDistributiveAddition,
+        power_distributive_multiplication::PowerDistributiveMultiplication, rule::Rule,
     },
 };
 
@@ -23,10 +24,18 @@ impl Expression {
             }
 
             Expression::Power(power) => {
-                return PowerDistributiveAddition::apply(&Expression::power(
-                    power.argument().expand(),
-                    power.modifier().expand(),
-                ));
+                let expanded = Expression::power(power.argument().expand(), power.modifier().expand());
+
+                /* Integer exponents distribute over the factors */
+                if let Expression::Power(inner) = &expanded {
+                    if let (Expression::Multiplication(_), Expression::Integer(_)) =
+                        (inner.argument(), inner.modifier())
+                    {
+                        return PowerDistributiveMultiplication::apply(&expanded).expand();
+                    }
+                }
+
+                return PowerDistributiveAddition::apply(&expanded);
             }
             Expression::Logarithm(log) => {
                 return Expression::logarithm(log.argument().expand(), log.modifier().expand())
-- 
2.43.0


From aa8eb72f9d56e2c21327f04735b7ba3f941b2c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:27 +0000
Subject: [PATCH 17/25] fix: keep integer coefficients apart from powers of the
 same integer when collecting factors

2 * 2^b was collected to 2^(1 + b), which no longer cancels with -2 * 2^b, so
x - x did not simplify to 0 and x was not equal to itself.
---
 .../factoring/multiplicative_common_factor.rs              | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/manipulation/simplification_rules/factoring/multiplicative_common_factor.rs b/src/manipulation/simplification_rules/factoring/multiplicative_common_factor.rs
index 8440784..3713959 100644
--- a/src/manipulation/simplification_rules/factoring/multiplicative_common_factor.rs
+++ b/src/manipulation/simplification_rules/factoring/multiplicative_common_factor.rs
@@ -10,6 +10,7 @@ impl Rule for MultiplicativeCommonFactor {
         match expression {
             Expression::Multiplication(factors) => {
                 let mut power_list: BTreeMap<Expression, Expression> = BTreeMap::new();
+                let mut coefficients: Vec<Expression> = Vec::new();
                 for factor in factors.items().iter() {
                     match factor {
                         Expression::Power(power) => {
@@ -27,6 +28,8 @@ impl Rule for MultiplicativeCommonFactor {
                                 power_list.insert(base.clone(), exponent.clone());
                             }
                         }
+                        /* kept apart from powers of the same integer: 2 * 2 ^ a is a multiple of 2 ^ a */
+                        Expression::Integer(_) => coefficients.push(factor.clone()),
                         _ => {
                             let inverse = &(Symbol::integer(1).expr() / factor);
                             if power_list.contains_key(factor) {
@@ -44,7 +47,7 @@ impl Rule for MultiplicativeCommonFactor {
                     }
                 }
 
-                let factors: Vec<Expression> = power_list
+                let mut factors: Vec<Expression> = power_list
                     .iter()
                     .filter(|&(_, exponent)| {
                         exponent != &Symbol::integer(0).expr()
@@ -53,6 +56,8 @@ impl Rule for MultiplicativeCommonFactor {
                     .map(|(base, exponent)| Expression::power(base.clone(), exponent.clone()))
                     .collect();
 
+                factors.append(&mut coefficients);
+
                 return Expression::multiplication(factors);
             }
             _ => {}
-- 
2.43.0


From 7a74de63caacf3db28189eb7f403ccb2dee2c913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:28 +0000
Subject: [PATCH 18/25] fix: comparison left differences of several negative
 floats undecided

0.5 was greater than -4.0 although -4.0 was not lesser than 0.5.
---
 src/manipulation/expression_comparison.rs | 32 +++++++++++++++++++----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/manipulation/expression_comparison.rs b/src/manipulation/expression_comparison.rs
index f0b5385..b848dea 100644
--- a/src/manipulation/expression_comparison.rs
+++ b/src/manipulation/expression_comparison.rs
@@ -2,15 +2,37 @@ use crate::base::expression::Expression;
 use crate::base::symbol::Symbol;
 
 impl Expression {
-    /* simplified difference, with an integer factor of a float (e.g. its sign) folded into it */
+    /* value of an expression made of sums and products of literals only */
+    fn literal_value(&self) -> Option<f64> {
+        match self {
+            Expression::Integer(n) => num::ToPrimitive::to_f64(&n.data),
+            Expression::Real(r) => r.value(),
+            Expression::Addition(addends) => addends
+                .items()
+                .iter()
+                .map(|addend| addend.literal_value())
+                .fold(Some(0.0), |sum, value| Some(sum? + value?)),
+            Expression::Multiplication(factors) => factors
+                .items()
+                .iter()
+                .map(|factor| factor.literal_value())
+                .fold(Some(1.0), |product, value| Some(product? * value?)),
+            _ => None,
+        }
+    }
+
+    /* simplified difference, with remaining float arithmetic (e.g. negative floats) evaluated */
     fn difference(&self, other: &Expression) -> Expression {
         let difference = (self - other).simplify();
-        if let Expression::Multiplication(factors) = &difference {
-            if let [Expression::Real(r), Expression::Integer(n)] = factors.items().as_slice() {
-                return (r * Symbol::real(num::ToPrimitive::to_f64(&n.data).unwrap())).expr();
+        match &difference {
+            Expression::Addition(_) | Expression::Multiplication(_) => {
+                match difference.literal_value() {
+                    Some(value) => return Symbol::real(value).expr(),
+                    None => return difference,
+                }
             }
+            _ => return difference,
         }
-        return difference;
     }
 
     pub fn comparable(&self, other: &Expression) -> bool {
-- 
2.43.0


From af6653f51e1374bf56269b00d5aacbae4a24cf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:28 +0000
Subject: [PATCH 19/25] fix: simplify collected exponents, so that a^x / a^x
 simplifies to 1

---
 .../factoring/multiplicative_common_factor.rs             | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/manipulation/simplification_rules/factoring/multiplicative_common_factor.rs b/src/manipulation/simplification_rules/factoring/multiplicative_common_factor.rs
index 3713959..3a1b819 100644
--- a/src/manipulation/simplification_rules/factoring/multiplicative_common_factor.rs
+++ b/src/manipulation/simplification_rules/factoring/multiplicative_common_factor.rs
@@ -20,10 +20,10 @@ impl Rule for MultiplicativeCommonFactor {
                             let inverse = &(Symbol::integer(1).expr() / base.clone());
                             if power_list.contains_key(&base) {
                                 let current_exponent = power_list.remove(&base).unwrap();
-                                power_list.insert(base.clone(), current_exponent + exponent);
+                                power_list.insert(base.clone(), (current_exponent + exponent).simplify());
                             } else if power_list.contains_key(inverse) {
                                 let counter = power_list.remove(inverse).unwrap();
-                                power_list.insert(inverse.clone(), counter - exponent);
+                                power_list.insert(inverse.clone(), (counter - exponent).simplify());
                             } else {
                                 power_list.insert(base.clone(), exponent.clone());
                             }
@@ -35,11 +35,11 @@ impl Rule for MultiplicativeCommonFactor {
                             if power_list.contains_key(factor) {
                                 let counter = power_list.remove(factor).unwrap();
                                 power_list
-                                    .insert(factor.clone(), counter + Symbol::integer(1).expr());
+                                    .insert(factor.clone(), (counter + Symbol::integer(1).expr()).simplify());
                             } else if power_list.contains_key(inverse) {
                                 let counter = power_list.remove(inverse).unwrap();
                                 power_list
-                                    .insert(inverse.clone(), counter - Symbol::integer(1).expr());
+                                    .insert(inverse.clone(), (counter - Symbol::integer(1).expr()).simplify());
                             } else {
                                 power_list.insert(factor.clone(), Symbol::integer(1).expr());
                             }
-- 
2.43.0


From 8e022e60aceab18ee676b310e5ec0bf97c88d6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:49 +0000
Subject: [PATCH 20/25] fix: a sum with the float -1.0 could keep two integer
 literals, as in (-1 + 1)

---
 src/arithmetics/addition.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/arithmetics/addition.rs b/src/arithmetics/addition.rs
index 8b5ca14..cfaa0c4 100644
--- a/src/arithmetics/addition.rs
+++ b/src/arithmetics/addition.rs
@@ -45,6 +45,18 @@ impl Expression {
             }
         }
 
+        if real < Symbol::real(0.0) {
+            match Expression::multiplication(vec![
+                Symbol::integer(-1).expr(),
+                (Symbol::real(-1.0) * real).expr(),
+            ]) {
+                Expression::Integer(n) => integer = integer + n, /* -1.0 */
+                negative_real => items_vec.push(negative_real),
+            }
+        } else if real != Symbol::real(0.0) {
+            items_vec.push(real.expr());
+        }
+
         if integer < Symbol::integer(0) {
             items_vec.push(Expression::multiplication(vec![
                 Symbol::integer(-1).expr(),
@@ -54,15 +66,6 @@ impl Expression {
             items_vec.push(integer.expr());
         }
 
-        if real < Symbol::real(0.0) {
-            items_vec.push(Expression::multiplication(vec![
-                Symbol::integer(-1).expr(),
-                (Symbol::real(-1.0) * real).expr(),
-            ]));
-        } else if real != Symbol::real(0.0) {
-            items_vec.push(real.expr());
-        }
-
         if items_vec.len() == 0 {
             return Symbol::integer(0).expr();
         }
-- 
2.43.0


From b6162c6e834368f1091f1addd1b912848deceb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:55 +0000
Subject: [PATCH 21/25] fix: expand the power left when the expanded base has a
 numeric factor

---
 src/manipulation/expand.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/manipulation/expand.rs b/src/manipulation/expand.rs
index 56700a6..26897f9 100644
--- a/src/manipulation/expand.rs
+++ b/src/manipulation/expand.rs
@@ -35,6 +35,11 @@ impl Expression {
                     }
                 }
 
+                /* The power of a numeric factor was taken apart */
+                if let Expression::Multiplication(_) = &expanded {
+                    return expanded.expand();
+                }
+
                 return PowerDistributiveAddition::apply(&expanded);
             }
             Expression::Logarithm(log) => {
-- 
2.43.0


From 969aa8145555bceaa52c20b3b29ff1ead0596b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:06 +0000
Subject: [PATCH 22/25] fix: collect like factors that a collected power turns
 into

---
 .../factoring/multiplicative_common_factor.rs      | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/manipulation/simplification_rules/factoring/multiplicative_common_factor.rs b/src/manipulation/simplification_rules/factoring/multiplicative_common_factor.rs
index 3a1b819..31c45b7 100644
--- a/src/manipulation/simplification_rules/factoring/multiplicative_common_factor.rs
+++ b/src/manipulation/simplification_rules/factoring/multiplicative_common_factor.rs
@@ -56,9 +56,21 @@ impl Rule for MultiplicativeCommonFactor {
                     .map(|(base, exponent)| Expression::power(base.clone(), exponent.clone()))
                     .collect();
 
+                /* a power that turned into something else, as (a * b) ^ (1/2 + 1/2) into a * b,
+                or 2 ^ (2 * a) into 4 ^ a, may be like another factor */
+                let turned = factors.iter().any(|factor| match factor {
+                    Expression::Integer(_) | Expression::Real(_) => false,
+                    Expression::Power(power) => !power_list.contains_key(&power.argument()),
+                    _ => !power_list.contains_key(factor),
+                });
+
                 factors.append(&mut coefficients);
 
-                return Expression::multiplication(factors);
+                let product = Expression::multiplication(factors);
+                if turned {
+                    return Self::apply(&product);
+                }
+                return product;
             }
             _ => {}
         }
-- 
2.43.0


From faaacfe0e80793ee9e3803a86b3906cbdd6c35ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:07 +0000
Subject: [PATCH 23/25] fix: collect like factors of a product that a collected
 power turns into

---
 .../factoring/multiplicative_common_factor.rs                    | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/manipulation/simplification_rules/factoring/multiplicative_common_factor.rs b/src/manipulation/simplification_rules/factoring/multiplicative_common_factor.rs
index 31c45b7..503b485 100644
--- a/src/manipulation/simplification_rules/factoring/multiplicative_common_factor.rs
+++ b/src/manipulation/simplification_rules/factoring/multiplicative_common_factor.rs
@@ -60,6 +60,7 @@ impl Rule for MultiplicativeCommonFactor {
                 or 2 ^ (2 * a) into 4 ^ a, may be like another factor */
                 let turned = factors.iter().any(|factor| match factor {
                     Expression::Integer(_) | Expression::Real(_) => false,
+                    Expression::Multiplication(_) => true,
                     Expression::Power(power) => !power_list.contains_key(&power.argument()),
                     _ => !power_list.contains_key(factor),
                 });
-- 
2.43.0


From 0ecfa670075596e770f11fe4f909f1c853be92b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:07 +0000
Subject: [PATCH 24/25] fix: simplify again when collected exponents leave
 something to expand, so that x - x is 0

---
 src/manipulation/simplifiable.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/manipulation/simplifiable.rs b/src/manipulation/simplifiable.rs
index 6e73e6d..5a964c7 100644
--- a/src/manipulation/simplifiable.rs
+++ b/src/manipulation/simplifiable.rs
@@ -18,6 +18,17 @@ use crate::{
 
 impl Expression {
     pub fn simplify(self) -> Expression {
+        let simplified = self.simplify_expanded();
+
+        /* a collected exponent may leave something to expand, as (a + b) ^ (1/2 + 1/2) does */
+        let expanded = simplified.clone().expand();
+        if expanded.cmp(&simplified) == std::cmp::Ordering::Equal {
+            return simplified;
+        }
+        return expanded.simplify();
+    }
+
+    fn simplify_expanded(self) -> Expression {
         /* recursive expansion */
         match self.clone().expand() {
             Expression::Multiplication(factors) => {
-- 
2.43.0


From 1a29d0afa957cb540d958e5953d3346afad37a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:10 +0000
Subject: [PATCH 25/25] fix: a product whose float part underflows is zero, not
 a product with a zero factor

---
 src/arithmetics/multiplication.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/arithmetics/multiplication.rs b/src/arithmetics/multiplication.rs
index 564738b..72003e7 100644
--- a/src/arithmetics/multiplication.rs
+++ b/src/arithmetics/multiplication.rs
@@ -58,6 +58,11 @@ impl Expression {
             }
         }
 
+        /* the real part may have underflowed */
+        if real == Symbol::real(0.0) {
+            return Symbol::integer(0).expr();
+        }
+
         if integer != Symbol::integer(1) {
             items_vec.push(integer.expr());
         }
-- 
2.43.0

