From 60dc6d4dc9ed5020eaacd168e95524600b227cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:25 +0000
Subject: [PATCH 01/57] fix: bound range conversion of inverted cardinality and
 PB encodings

An empty range underflowed, and an open start of a both-bounds range was treated as 1, so that the
bound 0 was not encoded.
---
 src/encodings/card/mod.rs        | 2 +-
 src/encodings/card/simulators.rs | 3 +++
 src/encodings/pb/mod.rs          | 2 +-
 src/encodings/pb/simulators.rs   | 3 +++
 4 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/encodings/card/mod.rs b/src/encodings/card/mod.rs
index c3b846a..bf6a152 100644
--- a/src/encodings/card/mod.rs
+++ b/src/encodings/card/mod.rs
@@ -488,7 +488,7 @@ where
     (match range.start_bound() {
         std::ops::Bound::Included(b) => *b,
         std::ops::Bound::Excluded(b) => b + 1,
-        std::ops::Bound::Unbounded => 1,
+        std::ops::Bound::Unbounded => 0,
     })..match range.end_bound() {
         std::ops::Bound::Included(b) => std::cmp::min(b + 1, enc.n_lits() + 1),
         std::ops::Bound::Excluded(b) => std::cmp::min(*b, enc.n_lits() + 1),
diff --git a/src/encodings/card/simulators.rs b/src/encodings/card/simulators.rs
index a222162..3a06363 100644
--- a/src/encodings/card/simulators.rs
+++ b/src/encodings/card/simulators.rs
@@ -53,6 +53,9 @@ where
     CE: Encode + 'static,
 {
     fn convert_encoding_range(&self, range: std::ops::Range<usize>) -> std::ops::Range<usize> {
+        if range.is_empty() {
+            return 0..0;
+        }
         let min = self.n_lits() - (range.end - 1);
         let max = if self.n_lits() >= range.start {
             self.n_lits() - range.start + 1
diff --git a/src/encodings/pb/mod.rs b/src/encodings/pb/mod.rs
index a206e2a..e1bd156 100644
--- a/src/encodings/pb/mod.rs
+++ b/src/encodings/pb/mod.rs
@@ -536,7 +536,7 @@ where
     (match range.start_bound() {
         std::ops::Bound::Included(b) => *b,
         std::ops::Bound::Excluded(b) => b + 1,
-        std::ops::Bound::Unbounded => 1,
+        std::ops::Bound::Unbounded => 0,
     })..match range.end_bound() {
         std::ops::Bound::Included(b) => std::cmp::min(b + 1, enc.weight_sum() + 1),
         std::ops::Bound::Excluded(b) => std::cmp::min(*b, enc.weight_sum() + 1),
diff --git a/src/encodings/pb/simulators.rs b/src/encodings/pb/simulators.rs
index 180e205..449d1b4 100644
--- a/src/encodings/pb/simulators.rs
+++ b/src/encodings/pb/simulators.rs
@@ -53,6 +53,9 @@ where
     PBE: Encode + 'static,
 {
     fn convert_encoding_range(&self, range: std::ops::Range<usize>) -> std::ops::Range<usize> {
+        if range.is_empty() {
+            return 0..0;
+        }
         let min = self.weight_sum() - (range.end - 1);
         let max = if self.weight_sum() >= range.start {
             self.weight_sum() - range.start + 1
-- 
2.43.0


From c13fdc8b00d33bd7fe9d5d07c6317e312118c39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:32 +0000
Subject: [PATCH 02/57] fix: evaluate constraints correctly on partial
 assignments and check bounds when inverting and converting

---
 src/types/constraints.rs | 130 +++++++++++++++++++++++----------------
 1 file changed, 77 insertions(+), 53 deletions(-)

diff --git a/src/types/constraints.rs b/src/types/constraints.rs
index 121fca5..f9d6b93 100644
--- a/src/types/constraints.rs
+++ b/src/types/constraints.rs
@@ -880,24 +880,55 @@ impl CardConstraint {
     /// Checks whether the cardinality constraint is satisfied by the given assignment
     #[must_use]
     pub fn evaluate(&self, assign: &super::Assignment) -> TernaryVal {
-        let range = self
+        // Range of values that the sum can still take, i.e., `min..=max`
+        let (min, max) = self
             .iter()
-            .fold(0..0, |rng, &lit| match assign.lit_value(lit) {
-                TernaryVal::True => rng.start + 1..rng.end + 1,
-                TernaryVal::False => rng,
-                TernaryVal::DontCare => rng.start..rng.end + 1,
+            .fold((0, 0), |(min, max), &lit| match assign.lit_value(lit) {
+                TernaryVal::True => (min + 1, max + 1),
+                TernaryVal::False => (min, max),
+                TernaryVal::DontCare => (min, max + 1),
             });
-        if range.contains(&self.bound()) {
-            return TernaryVal::DontCare;
-        }
         match self {
-            CardConstraint::Ub(CardUbConstr { b, .. }) => (range.start <= *b).into(),
-            CardConstraint::Lb(CardLbConstr { b, .. }) => (range.start >= *b).into(),
-            CardConstraint::Eq(CardEqConstr { b, .. }) => (range.start == *b).into(),
+            CardConstraint::Ub(CardUbConstr { b, .. }) => evaluate_ub(min, max, *b),
+            CardConstraint::Lb(CardLbConstr { b, .. }) => evaluate_lb(min, max, *b),
+            CardConstraint::Eq(CardEqConstr { b, .. }) => evaluate_eq(min, max, *b),
         }
     }
 }
 
+/// Evaluates `sum <= bound` for a sum that can take values in `min..=max`
+fn evaluate_ub<T: Ord + Copy>(min: T, max: T, bound: T) -> TernaryVal {
+    if max <= bound {
+        TernaryVal::True
+    } else if min > bound {
+        TernaryVal::False
+    } else {
+        TernaryVal::DontCare
+    }
+}
+
+/// Evaluates `sum = bound` for a sum that can take values in `min..=max`
+fn evaluate_eq<T: Ord + Copy>(min: T, max: T, bound: T) -> TernaryVal {
+    if bound < min || bound > max {
+        TernaryVal::False
+    } else if min == max {
+        TernaryVal::True
+    } else {
+        TernaryVal::DontCare
+    }
+}
+
+/// Evaluates `sum >= bound` for a sum that can take values in `min..=max`
+fn evaluate_lb<T: Ord + Copy>(min: T, max: T, bound: T) -> TernaryVal {
+    if min >= bound {
+        TernaryVal::True
+    } else if max < bound {
+        TernaryVal::False
+    } else {
+        TernaryVal::DontCare
+    }
+}
+
 impl<'slf> IntoIterator for &'slf CardConstraint {
     type Item = &'slf Lit;
 
@@ -1020,7 +1051,8 @@ impl CardUbConstr {
         let length = self.lits.len();
         CardLbConstr {
             lits: self.lits,
-            b: length - self.b,
+            // a bound larger than the number of literals is trivially satisfied
+            b: length.saturating_sub(self.b),
         }
     }
 
@@ -1039,7 +1071,7 @@ impl CardUbConstr {
     /// Checks if the constraint is a clause
     #[must_use]
     pub fn is_clause(&self) -> bool {
-        self.b + 1 == self.lits.len()
+        self.lits.len().checked_sub(1) == Some(self.b)
     }
 }
 
@@ -1074,6 +1106,10 @@ impl CardLbConstr {
     }
 
     /// Converts the lower bound constraint into an equivalent upper bound constraint
+    ///
+    /// # Panics
+    ///
+    /// If the constraint is UNSAT
     #[must_use]
     pub fn invert(mut self) -> CardUbConstr {
         self.lits.iter_mut().for_each(|l| {
@@ -1082,7 +1118,9 @@ impl CardLbConstr {
         let length = self.lits.len();
         CardUbConstr {
             lits: self.lits,
-            b: length - self.b,
+            b: length
+                .checked_sub(self.b)
+                .expect("cannot invert an unsatisfiable lower bound constraint"),
         }
     }
 
@@ -1615,40 +1653,23 @@ impl PbConstraint {
     /// Checks whether the PB constraint is satisfied by the given assignment
     #[must_use]
     pub fn evaluate(&self, assign: &super::Assignment) -> TernaryVal {
-        let range = self
+        // Range of values that the sum can still take, i.e., `min..=max`
+        let (min, max) = self
             .iter()
-            .fold(0..0, |rng, &(lit, coeff)| match assign.lit_value(lit) {
-                TernaryVal::True => rng.start + coeff..rng.end + coeff,
-                TernaryVal::False => rng,
-                TernaryVal::DontCare => rng.start..rng.end + coeff,
-            });
-        match (isize::try_from(range.start), isize::try_from(range.end)) {
-            (Ok(start), Ok(end)) => {
-                if (start..end).contains(&self.bound()) {
-                    return TernaryVal::DontCare;
-                }
-                match self {
-                    PbConstraint::Ub(PbUbConstr { b, .. }) => (start <= *b).into(),
-                    PbConstraint::Lb(PbLbConstr { b, .. }) => (start >= *b).into(),
-                    PbConstraint::Eq(PbEqConstr { b, .. }) => (start == *b).into(),
-                }
-            }
-            (Ok(start), Err(_)) => match self {
-                PbConstraint::Ub(PbUbConstr { b, .. }) => {
-                    if (start..).contains(b) {
-                        return TernaryVal::DontCare;
-                    }
-                    TernaryVal::True
-                }
-                PbConstraint::Lb(PbLbConstr { b, .. }) | PbConstraint::Eq(PbEqConstr { b, .. }) => {
-                    if (start..).contains(b) {
-                        return TernaryVal::DontCare;
-                    }
-                    TernaryVal::False
-                }
-            },
-            (Err(_), Err(_)) => matches!(self, PbConstraint::Lb(_)).into(),
-            (Err(_), Ok(_)) => unreachable!(), // since end >= start
+            .fold(
+                (0_usize, 0_usize),
+                |(min, max), &(lit, coeff)| match assign.lit_value(lit) {
+                    TernaryVal::True => (min + coeff, max + coeff),
+                    TernaryVal::False => (min, max),
+                    TernaryVal::DontCare => (min, max + coeff),
+                },
+            );
+        // Sums are non-negative, use a wide type for comparing them to the potentially negative bound
+        let (min, max) = (min as i128, max as i128);
+        match self {
+            PbConstraint::Ub(PbUbConstr { b, .. }) => evaluate_ub(min, max, *b as i128),
+            PbConstraint::Lb(PbLbConstr { b, .. }) => evaluate_lb(min, max, *b as i128),
+            PbConstraint::Eq(PbEqConstr { b, .. }) => evaluate_eq(min, max, *b as i128),
         }
     }
 }
@@ -1816,7 +1837,7 @@ impl PbUbConstr {
                 .into_iter()
                 .flat_map(|(l, w)| std::iter::repeat_n(l, w))
                 .collect(),
-            b: self.b.unsigned_abs(),
+            b: usize::try_from(self.b).expect("constraint must not be unsatisfiable"),
         }
     }
 
@@ -1948,7 +1969,7 @@ impl PbLbConstr {
                 .into_iter()
                 .flat_map(|(l, w)| std::iter::repeat_n(l, w))
                 .collect(),
-            b: self.b.unsigned_abs(),
+            b: usize::try_from(self.b).expect("constraint must not be a tautology"),
         }
     }
 
@@ -2077,7 +2098,7 @@ impl PbEqConstr {
                 .into_iter()
                 .flat_map(|(l, w)| std::iter::repeat_n(l, w))
                 .collect(),
-            b: self.b.unsigned_abs(),
+            b: usize::try_from(self.b).expect("constraint must not be unsatisfiable"),
         }
     }
 
@@ -2099,7 +2120,8 @@ impl PbEqConstr {
         if self.b < 0 {
             return false;
         }
-        self.b.unsigned_abs() == self.weight_sum
+        // literals with a coefficient of zero are not assigned
+        self.b.unsigned_abs() == self.weight_sum && self.lits.iter().all(|(_, w)| *w > 0)
     }
 
     /// Checks if the constraint assigns all literals to false
@@ -2108,7 +2130,8 @@ impl PbEqConstr {
         if self.b < 0 {
             return false;
         }
-        self.b.unsigned_abs() == 0
+        // literals with a coefficient of zero are not assigned
+        self.b.unsigned_abs() == 0 && self.lits.iter().all(|(_, w)| *w > 0)
     }
 
     /// Gets the unit weight of the constraint, if it exists
@@ -2124,7 +2147,8 @@ impl PbEqConstr {
                 unit_weight = Some(*w);
             }
         }
-        unit_weight
+        // if all weights are zero, there is no unit weight
+        unit_weight.filter(|w| *w > 0)
     }
 }
 
-- 
2.43.0


From ef3ad1cae540582ae66912d2932e952ca4499af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:32 +0000
Subject: [PATCH 03/57] fix: sanitizing a PB constraint that cannot be a
 cardinality constraint makes the instance unsatisfiable

---
 src/instances/sat.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/instances/sat.rs b/src/instances/sat.rs
index ba92001..a4c30c2 100644
--- a/src/instances/sat.rs
+++ b/src/instances/sat.rs
@@ -893,7 +893,12 @@ impl<VM: super::ManageVars> Instance<VM> {
                     return None;
                 }
                 if pb.is_card() {
-                    cards.push(crate::utils::unreachable_err!(pb.into_card_constr()));
+                    if let Ok(card) = pb.into_card_constr() {
+                        cards.push(card);
+                    } else {
+                        // an equality where the unit weight does not divide the bound
+                        unsat = true;
+                    }
                     return None;
                 }
                 Some(pb)
-- 
2.43.0


From 4146cbe50c34517e228f576fde51e403bcc86ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:32 +0000
Subject: [PATCH 04/57] fix: sum up weights of repeated literals and bound
 ranges in PB encodings

---
 src/encodings/card/mod.rs | 12 ++++++------
 src/encodings/pb/mod.rs   | 32 ++++++++++++++++++++++++--------
 2 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/src/encodings/card/mod.rs b/src/encodings/card/mod.rs
index bf6a152..0440a7b 100644
--- a/src/encodings/card/mod.rs
+++ b/src/encodings/card/mod.rs
@@ -455,10 +455,10 @@ where
 {
     (match range.start_bound() {
         std::ops::Bound::Included(b) => *b,
-        std::ops::Bound::Excluded(b) => b + 1,
+        std::ops::Bound::Excluded(b) => b.saturating_add(1),
         std::ops::Bound::Unbounded => 0,
     })..match range.end_bound() {
-        std::ops::Bound::Included(b) => std::cmp::min(b + 1, enc.n_lits()),
+        std::ops::Bound::Included(b) => std::cmp::min(b.saturating_add(1), enc.n_lits()),
         std::ops::Bound::Excluded(b) => std::cmp::min(*b, enc.n_lits()),
         std::ops::Bound::Unbounded => enc.n_lits(),
     }
@@ -471,10 +471,10 @@ where
 {
     (match range.start_bound() {
         std::ops::Bound::Included(b) => std::cmp::max(*b, 1),
-        std::ops::Bound::Excluded(b) => std::cmp::max(b + 1, 1),
+        std::ops::Bound::Excluded(b) => std::cmp::max(b.saturating_add(1), 1),
         std::ops::Bound::Unbounded => 1,
     })..match range.end_bound() {
-        std::ops::Bound::Included(b) => std::cmp::min(b + 1, enc.n_lits() + 1),
+        std::ops::Bound::Included(b) => std::cmp::min(b.saturating_add(1), enc.n_lits() + 1),
         std::ops::Bound::Excluded(b) => std::cmp::min(*b, enc.n_lits() + 1),
         std::ops::Bound::Unbounded => enc.n_lits() + 1,
     }
@@ -487,10 +487,10 @@ where
 {
     (match range.start_bound() {
         std::ops::Bound::Included(b) => *b,
-        std::ops::Bound::Excluded(b) => b + 1,
+        std::ops::Bound::Excluded(b) => b.saturating_add(1),
         std::ops::Bound::Unbounded => 0,
     })..match range.end_bound() {
-        std::ops::Bound::Included(b) => std::cmp::min(b + 1, enc.n_lits() + 1),
+        std::ops::Bound::Included(b) => std::cmp::min(b.saturating_add(1), enc.n_lits() + 1),
         std::ops::Bound::Excluded(b) => std::cmp::min(*b, enc.n_lits() + 1),
         std::ops::Bound::Unbounded => enc.n_lits() + 1,
     }
diff --git a/src/encodings/pb/mod.rs b/src/encodings/pb/mod.rs
index e1bd156..ecf384f 100644
--- a/src/encodings/pb/mod.rs
+++ b/src/encodings/pb/mod.rs
@@ -42,6 +42,7 @@ use crate::types::constraints::PbLbConstr;
 use crate::types::constraints::PbUbConstr;
 use crate::types::Clause;
 use crate::types::Lit;
+use crate::types::RsHashMap;
 use crate::utils::unreachable_err;
 
 use super::card;
@@ -80,7 +81,7 @@ pub trait Encode {
     /// Gets the next lower value possible to be achieved by the weighted sum.
     /// Might simply return `val - 1` if no stronger value can be inferred.
     fn next_lower(&self, val: usize) -> usize {
-        val - 1
+        val.saturating_sub(1)
     }
 }
 
@@ -486,7 +487,10 @@ where
         return collector.add_clause(unreachable_err!(constr.into_clause()));
     }
     if constr.is_card() {
-        let card = unreachable_err!(constr.into_card_constr());
+        let Ok(card) = constr.into_card_constr() else {
+            // an equality where the unit weight does not divide the bound
+            return collector.add_clause(Clause::new());
+        };
         return card::default_encode_cardinality_constraint(card, collector, var_manager);
     }
     match PBE::encode_constr(constr, collector, var_manager) {
@@ -496,6 +500,18 @@ where
     }
 }
 
+/// Collects weighted literals, summing up the weights of repeated literals
+fn collect_weights<I>(lits: I) -> RsHashMap<Lit, usize>
+where
+    I: IntoIterator<Item = (Lit, usize)>,
+{
+    let mut map = RsHashMap::default();
+    for (lit, weight) in lits {
+        *map.entry(lit).or_default() += weight;
+    }
+    map
+}
+
 fn prepare_ub_range<Enc, R>(enc: &Enc, range: R) -> std::ops::Range<usize>
 where
     Enc: Encode,
@@ -503,10 +519,10 @@ where
 {
     (match range.start_bound() {
         std::ops::Bound::Included(b) => *b,
-        std::ops::Bound::Excluded(b) => b + 1,
+        std::ops::Bound::Excluded(b) => b.saturating_add(1),
         std::ops::Bound::Unbounded => 0,
     })..match range.end_bound() {
-        std::ops::Bound::Included(b) => std::cmp::min(b + 1, enc.weight_sum()),
+        std::ops::Bound::Included(b) => std::cmp::min(b.saturating_add(1), enc.weight_sum()),
         std::ops::Bound::Excluded(b) => std::cmp::min(*b, enc.weight_sum()),
         std::ops::Bound::Unbounded => enc.weight_sum(),
     }
@@ -519,10 +535,10 @@ where
 {
     (match range.start_bound() {
         std::ops::Bound::Included(b) => std::cmp::max(*b, 1),
-        std::ops::Bound::Excluded(b) => std::cmp::max(b + 1, 1),
+        std::ops::Bound::Excluded(b) => std::cmp::max(b.saturating_add(1), 1),
         std::ops::Bound::Unbounded => 1,
     })..match range.end_bound() {
-        std::ops::Bound::Included(b) => std::cmp::min(b + 1, enc.weight_sum() + 1),
+        std::ops::Bound::Included(b) => std::cmp::min(b.saturating_add(1), enc.weight_sum() + 1),
         std::ops::Bound::Excluded(b) => std::cmp::min(*b, enc.weight_sum() + 1),
         std::ops::Bound::Unbounded => enc.weight_sum() + 1,
     }
@@ -535,10 +551,10 @@ where
 {
     (match range.start_bound() {
         std::ops::Bound::Included(b) => *b,
-        std::ops::Bound::Excluded(b) => b + 1,
+        std::ops::Bound::Excluded(b) => b.saturating_add(1),
         std::ops::Bound::Unbounded => 0,
     })..match range.end_bound() {
-        std::ops::Bound::Included(b) => std::cmp::min(b + 1, enc.weight_sum() + 1),
+        std::ops::Bound::Included(b) => std::cmp::min(b.saturating_add(1), enc.weight_sum() + 1),
         std::ops::Bound::Excluded(b) => std::cmp::min(*b, enc.weight_sum() + 1),
         std::ops::Bound::Unbounded => enc.weight_sum() + 1,
     }
-- 
2.43.0


From 615053cc457f2e135ec270d013ab218e34a20e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:32 +0000
Subject: [PATCH 05/57] fix: neighbouring bounds and certified ranges of PB
 encoding simulators

---
 src/encodings/pb/simulators.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/encodings/pb/simulators.rs b/src/encodings/pb/simulators.rs
index 449d1b4..3fc4e56 100644
--- a/src/encodings/pb/simulators.rs
+++ b/src/encodings/pb/simulators.rs
@@ -85,8 +85,7 @@ where
     PBE: Encode + From<RsHashMap<Lit, usize>> + 'static,
 {
     fn from_iter<T: IntoIterator<Item = (Lit, usize)>>(iter: T) -> Self {
-        let lits: RsHashMap<Lit, usize> = iter.into_iter().collect();
-        Self::from(lits)
+        Self::from(super::collect_weights(iter))
     }
 }
 
@@ -95,7 +94,7 @@ where
     PBE: Encode + Extend<(Lit, usize)> + 'static,
 {
     fn extend<T: IntoIterator<Item = (Lit, usize)>>(&mut self, iter: T) {
-        let lits: RsHashMap<Lit, usize> = iter.into_iter().map(|(l, w)| (!l, w)).collect();
+        let lits = super::collect_weights(iter.into_iter().map(negate_weighted));
         let ws = lits.iter().fold(0, |ws, (_, w)| ws + w);
         self.pb_enc.extend(lits);
         self.weight_sum += ws;
@@ -111,10 +110,19 @@ where
     }
 
     fn next_higher(&self, val: usize) -> usize {
+        if val >= self.weight_sum {
+            return val + 1;
+        }
         self.weight_sum - self.pb_enc.next_lower(self.weight_sum - val)
     }
 
     fn next_lower(&self, val: usize) -> usize {
+        if val == 0 {
+            return 0;
+        }
+        if val > self.weight_sum {
+            return self.weight_sum;
+        }
         self.weight_sum - self.pb_enc.next_higher(self.weight_sum - val)
     }
 }
@@ -263,7 +271,7 @@ where
         W: std::io::Write,
     {
         self.pb_enc.encode_ub_cert(
-            self.convert_encoding_range(super::prepare_ub_range(self, range)),
+            self.convert_encoding_range(super::prepare_lb_range(self, range)),
             collector,
             var_manager,
             proof,
@@ -434,7 +442,7 @@ where
         W: std::io::Write,
     {
         self.pb_enc.encode_ub_change_cert(
-            self.convert_encoding_range(super::prepare_ub_range(self, range)),
+            self.convert_encoding_range(super::prepare_lb_range(self, range)),
             collector,
             var_manager,
             proof,
@@ -554,8 +562,7 @@ where
     LBE: BoundLower + From<RsHashMap<Lit, usize>> + 'static,
 {
     fn from_iter<T: IntoIterator<Item = (Lit, usize)>>(iter: T) -> Self {
-        let lits: RsHashMap<Lit, usize> = iter.into_iter().collect();
-        Self::from(lits)
+        Self::from(super::collect_weights(iter))
     }
 }
 
@@ -565,7 +572,7 @@ where
     LBE: BoundLower + Extend<(Lit, usize)> + 'static,
 {
     fn extend<T: IntoIterator<Item = (Lit, usize)>>(&mut self, iter: T) {
-        let lits: RsHashMap<Lit, usize> = iter.into_iter().collect();
+        let lits = super::collect_weights(iter);
         self.ub_enc.extend(lits.clone());
         self.lb_enc.extend(lits);
     }
-- 
2.43.0


From 3138993acb1f671d562eec885d2a1e2c62191d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:32 +0000
Subject: [PATCH 06/57] fix: incremental state, reservation and repeated
 literals in the binary adder

---
 src/encodings/pb/adder.rs | 146 +++++++++++++++++++-------------------
 1 file changed, 72 insertions(+), 74 deletions(-)

diff --git a/src/encodings/pb/adder.rs b/src/encodings/pb/adder.rs
index 4b4328d..9075edd 100644
--- a/src/encodings/pb/adder.rs
+++ b/src/encodings/pb/adder.rs
@@ -65,6 +65,19 @@ struct Structure {
 }
 
 impl BinaryAdder {
+    /// Iterates over all outputs in the encoding that have variables assigned, i.e., the adder
+    /// bits, and the comparator outputs
+    fn all_outputs(&mut self) -> impl Iterator<Item = &mut Output> {
+        let node_outputs = self.nodes.iter_mut().flat_map(|node| match node {
+            Node::Full { sum, carry, .. } | Node::Half { sum, carry, .. } => [sum, carry],
+        });
+        let comparator = self
+            .structure
+            .iter_mut()
+            .flat_map(|structure| &mut structure.comparator);
+        node_outputs.chain(comparator).flatten()
+    }
+
     fn extend_structure(&mut self) {
         if self.lit_buffer.is_empty() {
             return;
@@ -170,22 +183,7 @@ impl super::BoundUpper for BinaryAdder {
         R: std::ops::RangeBounds<usize>,
     {
         // reset previous encoding status
-        for node in &mut self.nodes {
-            if let Node::Full { sum: Some(out), .. } | Node::Half { sum: Some(out), .. } = node {
-                out.enc_if = false;
-                out.enc_only_if = false;
-            }
-            if let Node::Full {
-                carry: Some(out), ..
-            }
-            | Node::Half {
-                carry: Some(out), ..
-            } = node
-            {
-                out.enc_if = false;
-                out.enc_only_if = false;
-            }
-        }
+        self.all_outputs().for_each(|out| out.enc_if = false);
         self.encode_ub_change(range, collector, var_manager)
     }
 
@@ -193,6 +191,9 @@ impl super::BoundUpper for BinaryAdder {
         if ub >= self.weight_sum() {
             return Ok(vec![]);
         }
+        if !self.lit_buffer.is_empty() {
+            return Err(EnforceError::NotEncoded);
+        }
         let Some(structure) = &self.structure else {
             return Err(EnforceError::NotEncoded);
         };
@@ -283,22 +284,7 @@ impl super::BoundLower for BinaryAdder {
         R: std::ops::RangeBounds<usize>,
     {
         // reset previous encoding status
-        for node in &mut self.nodes {
-            if let Node::Full { sum: Some(out), .. } | Node::Half { sum: Some(out), .. } = node {
-                out.enc_if = false;
-                out.enc_only_if = false;
-            }
-            if let Node::Full {
-                carry: Some(out), ..
-            }
-            | Node::Half {
-                carry: Some(out), ..
-            } = node
-            {
-                out.enc_if = false;
-                out.enc_only_if = false;
-            }
-        }
+        self.all_outputs().for_each(|out| out.enc_only_if = false);
         self.encode_lb_change(range, collector, var_manager)
     }
 
@@ -309,6 +295,9 @@ impl super::BoundLower for BinaryAdder {
         if lb == 0 {
             return Ok(vec![]);
         }
+        if !self.lit_buffer.is_empty() {
+            return Err(EnforceError::NotEncoded);
+        }
         let Some(structure) = &self.structure else {
             return Err(EnforceError::NotEncoded);
         };
@@ -381,6 +370,17 @@ impl super::BoundLowerIncremental for BinaryAdder {
                 };
                 comparator_only_if(val - 1, output, &outputs, collector)?;
             }
+            if !structure.comparator.iter().flatten().any(|out| out.enc_if) {
+                // The only-if encoding of the carry bits includes some but not all clauses of the
+                // if encoding, so unless the if encoding had previously been completed, it needs
+                // to be built in full if an upper bound is encoded later on
+                for node in &mut self.nodes {
+                    let (Node::Full { sum, carry, .. } | Node::Half { sum, carry, .. }) = node;
+                    for out in [sum, carry].into_iter().flatten() {
+                        out.enc_if = false;
+                    }
+                }
+            }
         }
 
         self.n_clauses += collector.n_clauses() - n_clauses_before;
@@ -400,25 +400,44 @@ impl super::BoundBoth for BinaryAdder {
         Col: CollectClauses,
         R: std::ops::RangeBounds<usize> + Clone,
     {
-        self.encode_ub_change(range.clone(), collector, var_manager)?;
-        self.encode_lb_change(range, collector, var_manager)?;
-        Ok(())
+        // NOTE: the order matters, since encoding a lower bound skips comparators for which the
+        // upper bound has already been encoded
+        super::BoundLower::encode_lb(self, range.clone(), collector, var_manager)?;
+        super::BoundUpper::encode_ub(self, range, collector, var_manager)
     }
 }
 
-impl super::BoundBothIncremental for BinaryAdder {}
+impl super::BoundBothIncremental for BinaryAdder {
+    fn encode_both_change<Col, R>(
+        &mut self,
+        range: R,
+        collector: &mut Col,
+        var_manager: &mut dyn ManageVars,
+    ) -> Result<(), crate::OutOfMemory>
+    where
+        Col: CollectClauses,
+        R: std::ops::RangeBounds<usize> + Clone,
+    {
+        // NOTE: the order matters, since encoding a lower bound skips comparators for which the
+        // upper bound has already been encoded
+        super::BoundLowerIncremental::encode_lb_change(
+            self,
+            range.clone(),
+            collector,
+            var_manager,
+        )?;
+        super::BoundUpperIncremental::encode_ub_change(self, range, collector, var_manager)
+    }
+}
 
 impl super::EncodeIncremental for BinaryAdder {
     fn reserve(&mut self, var_manager: &mut dyn ManageVars) {
+        let n_vars_before = var_manager.n_used();
         self.extend_structure();
-
-        if let Some(structure) = &self.structure {
-            for &o in &structure.outputs {
-                if let Some(Connection::Sum(node) | Connection::Carry(node)) = o {
-                    reserve(&mut self.nodes[..=node], var_manager);
-                }
-            }
+        for node in &mut self.nodes {
+            node.reserve(var_manager);
         }
+        self.n_vars += var_manager.n_used() - n_vars_before;
     }
 }
 
@@ -435,7 +454,9 @@ impl crate::encodings::EncodeStats for BinaryAdder {
 }
 
 impl From<RsHashMap<Lit, usize>> for BinaryAdder {
-    fn from(lits: RsHashMap<Lit, usize>) -> Self {
+    fn from(mut lits: RsHashMap<Lit, usize>) -> Self {
+        // literals of weight zero do not contribute to the sum
+        lits.retain(|_, w| *w > 0);
         Self {
             lit_buffer: lits,
             ..Default::default()
@@ -445,14 +466,17 @@ impl From<RsHashMap<Lit, usize>> for BinaryAdder {
 
 impl FromIterator<(Lit, usize)> for BinaryAdder {
     fn from_iter<T: IntoIterator<Item = (Lit, usize)>>(iter: T) -> Self {
-        let lits: RsHashMap<Lit, usize> = RsHashMap::from_iter(iter);
-        Self::from(lits)
+        Self::from(super::collect_weights(iter))
     }
 }
 
 impl Extend<(Lit, usize)> for BinaryAdder {
     fn extend<T: IntoIterator<Item = (Lit, usize)>>(&mut self, iter: T) {
         iter.into_iter().for_each(|(l, w)| {
+            if w == 0 {
+                // the literal does not contribute to the sum
+                return;
+            }
             // Insert into buffer to be added to tree
             match self.lit_buffer.get_mut(&l) {
                 Some(old_w) => *old_w += w,
@@ -837,13 +861,14 @@ where
                     return Ok(carry.bit);
                 }
                 carry.enc_if = true;
+                carry.enc_only_if = true;
                 carry.bit
             } else {
                 let bit = var_manager.new_lit();
                 *carry = Some(Output {
                     bit,
                     enc_if: true,
-                    enc_only_if: false,
+                    enc_only_if: true,
                 });
                 bit
             };
@@ -859,33 +884,6 @@ where
     }
 }
 
-/// Reserves the variables for the last node in `nodes` recursively
-fn reserve(nodes: &mut [Node], var_manager: &mut dyn ManageVars) {
-    let (nodes, node) = nodes.split_at_mut(nodes.len());
-
-    let node = &mut node[0];
-    node.reserve(var_manager);
-
-    let mut recurse = |con: Connection| match con {
-        Connection::Input(_) => {}
-        Connection::Sum(node) | Connection::Carry(node) => {
-            reserve(&mut nodes[..=node], var_manager);
-        }
-    };
-
-    match node {
-        Node::Full { a, b, c, .. } => {
-            recurse(*a);
-            recurse(*b);
-            recurse(*c);
-        }
-        Node::Half { a, b, .. } => {
-            recurse(*a);
-            recurse(*b);
-        }
-    }
-}
-
 fn comparator_if<Col>(
     rhs: usize,
     output: Lit,
-- 
2.43.0


From 568112a6679d9f86d8ef13fabadfb3d5a3f745b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:33 +0000
Subject: [PATCH 07/57] fix: neighbouring bounds, reservation statistics and
 zero weights in the generalized totalizer

---
 src/encodings/pb/gte/mod.rs        | 44 ++++++++++++++++++++++--------
 src/encodings/pb/gte/referenced.rs |  4 +--
 2 files changed, 34 insertions(+), 14 deletions(-)

diff --git a/src/encodings/pb/gte/mod.rs b/src/encodings/pb/gte/mod.rs
index 8d29ab3..40e5d32 100644
--- a/src/encodings/pb/gte/mod.rs
+++ b/src/encodings/pb/gte/mod.rs
@@ -156,6 +156,18 @@ impl GeneralizedTotalizer {
         }
     }
 
+    /// Gets the next higher value among the outputs of the tree
+    fn next_higher_output(&self, val: usize) -> usize {
+        if let Some(con) = self.root {
+            self.db[con.id]
+                .vals(con.rev_map_round_up(val + 1)..)
+                .next()
+                .map_or(val + 1, |val| con.map(val))
+        } else {
+            val + 1
+        }
+    }
+
     /// Gets the number of output literals in the generalized totalizer
     #[must_use]
     pub fn n_output_lits(&self) -> usize {
@@ -203,20 +215,21 @@ impl super::Encode for GeneralizedTotalizer {
     }
 
     fn next_higher(&self, val: usize) -> usize {
-        if let Some(con) = self.root {
-            self.db[con.id]
-                .vals(con.rev_map_round_up(val + 1)..)
-                .next()
-                .map_or(val + 1, |val| con.map(val))
-        } else {
-            val + 1
+        if !self.lit_buffer.is_empty() {
+            // inputs that are not part of the tree can contribute to any sum
+            return val + 1;
         }
+        self.next_higher_output(val)
     }
 
     fn next_lower(&self, val: usize) -> usize {
         if val == 0 {
             return 0;
         }
+        if !self.lit_buffer.is_empty() {
+            // inputs that are not part of the tree can contribute to any sum
+            return val - 1;
+        }
         if let Some(con) = self.root {
             return self.db[con.id]
                 .vals(con.offset()..con.rev_map_round_up(val))
@@ -229,10 +242,12 @@ impl super::Encode for GeneralizedTotalizer {
 
 impl super::EncodeIncremental for GeneralizedTotalizer {
     fn reserve(&mut self, var_manager: &mut dyn ManageVars) {
+        let n_vars_before = var_manager.n_used();
         self.extend_tree(usize::MAX);
         if let Some(con) = self.root {
             self.db.reserve_vars(con, var_manager);
         }
+        self.n_vars += var_manager.n_used() - n_vars_before;
     }
 }
 
@@ -358,7 +373,9 @@ impl crate::encodings::EncodeStats for GeneralizedTotalizer {
 }
 
 impl From<RsHashMap<Lit, usize>> for GeneralizedTotalizer {
-    fn from(lits: RsHashMap<Lit, usize>) -> Self {
+    fn from(mut lits: RsHashMap<Lit, usize>) -> Self {
+        // literals of weight zero do not contribute to the sum
+        lits.retain(|_, w| *w > 0);
         Self {
             lit_buffer: lits,
             ..Default::default()
@@ -368,14 +385,17 @@ impl From<RsHashMap<Lit, usize>> for GeneralizedTotalizer {
 
 impl FromIterator<(Lit, usize)> for GeneralizedTotalizer {
     fn from_iter<T: IntoIterator<Item = (Lit, usize)>>(iter: T) -> Self {
-        let lits: RsHashMap<Lit, usize> = RsHashMap::from_iter(iter);
-        Self::from(lits)
+        Self::from(super::collect_weights(iter))
     }
 }
 
 impl Extend<(Lit, usize)> for GeneralizedTotalizer {
     fn extend<T: IntoIterator<Item = (Lit, usize)>>(&mut self, iter: T) {
         iter.into_iter().for_each(|(l, w)| {
+            if w == 0 {
+                // the literal does not contribute to the sum
+                return;
+            }
             // Insert into buffer to be added to tree
             match self.lit_buffer.get_mut(&l) {
                 Some(old_w) => *old_w += w,
@@ -438,7 +458,7 @@ impl super::cert::BoundUpper for GeneralizedTotalizer {
         }
         let mut enc = Self::from_iter(lits);
         enc.encode_ub_cert(ub..=ub, collector, var_manager, proof)?;
-        let mut val = enc.next_higher(ub);
+        let mut val = enc.next_higher_output(ub);
         for unit in enc
             .enforce_ub(ub)
             .expect("should have caught special case before here")
@@ -471,7 +491,7 @@ impl super::cert::BoundUpper for GeneralizedTotalizer {
                 )?;
                 #[cfg(feature = "verbose-proofs")]
                 proof.equals(&unit_cl, Some(unit_id.into()))?;
-                val = enc.next_higher(val);
+                val = enc.next_higher_output(val);
                 unit_id
             };
             collector.add_cert_clause(unit_cl, unit_id)?;
diff --git a/src/encodings/pb/gte/referenced.rs b/src/encodings/pb/gte/referenced.rs
index 9965f55..2b4e893 100644
--- a/src/encodings/pb/gte/referenced.rs
+++ b/src/encodings/pb/gte/referenced.rs
@@ -99,7 +99,7 @@ impl crate::encodings::pb::Encode for Gte<'_> {
         self.db[self.root.id]
             .vals(self.root.offset()..self.root.rev_map_round_up(val))
             .next_back()
-            .map_or(val - 1, |val| self.root.map(val))
+            .map_or(val.saturating_sub(1), |val| self.root.map(val))
     }
 }
 
@@ -119,7 +119,7 @@ impl crate::encodings::pb::Encode for GteCell<'_> {
         self.db.borrow()[self.root.id]
             .vals(self.root.offset()..self.root.rev_map_round_up(val))
             .next_back()
-            .map_or(val - 1, |val| self.root.map(val))
+            .map_or(val.saturating_sub(1), |val| self.root.map(val))
     }
 }
 
-- 
2.43.0


From 8bf8c87405421cc28c7e05f196dd9e0b84367867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:33 +0000
Subject: [PATCH 08/57] fix: zero weights, single literals and reservation
 statistics in the DPW encoding

---
 src/encodings/pb/dpw/mod.rs | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/src/encodings/pb/dpw/mod.rs b/src/encodings/pb/dpw/mod.rs
index 150dbfa..71ff987 100644
--- a/src/encodings/pb/dpw/mod.rs
+++ b/src/encodings/pb/dpw/mod.rs
@@ -100,6 +100,10 @@ impl DynamicPolyWatchdog {
                 "cannot add inputs after building the encoding",
             ));
         }
+        if weight == 0 {
+            // the literal does not contribute to the sum
+            return Ok(());
+        }
         if let Some(lweight) = self.in_lits.get_mut(&lit) {
             *lweight += weight;
         } else {
@@ -144,6 +148,10 @@ impl DynamicPolyWatchdog {
     /// of the encoding.
     #[must_use]
     pub fn next_precision(&self) -> usize {
+        if self.in_lits.len() <= 1 {
+            // there is no encoding structure for a single input literal
+            return 1;
+        }
         if let Some((&max_weight, _)) = self.weight_queue.iter().next_back() {
             let digits = crate::utils::digits(max_weight, 2) as usize;
             1 << (digits - 1)
@@ -155,6 +163,10 @@ impl DynamicPolyWatchdog {
     /// Checks whether the encoding is already at the maximum precision
     #[must_use]
     pub fn is_max_precision(&self) -> bool {
+        if self.in_lits.len() <= 1 {
+            // there is no encoding structure for a single input literal
+            return self.prec_div <= 1;
+        }
         self.weight_queue.is_empty()
     }
 
@@ -271,6 +283,7 @@ impl super::EncodeIncremental for DynamicPolyWatchdog {
         if self.in_lits.len() <= 1 {
             return;
         }
+        let n_vars_before = var_manager.n_used();
         if self.structure.is_none() {
             self.structure = Some(build_structure(
                 &mut self.weight_queue,
@@ -284,6 +297,7 @@ impl super::EncodeIncremental for DynamicPolyWatchdog {
             self.db
                 .reserve_vars(NodeCon::full(structure.root()), var_manager);
         }
+        self.n_vars += var_manager.n_used() - n_vars_before;
     }
 }
 
@@ -325,7 +339,7 @@ impl super::BoundUpper for DynamicPolyWatchdog {
             }
             debug_assert_eq!(self.in_lits.len(), 1);
             let (l, w) = self.in_lits.iter().next().unwrap();
-            Ok(if *w <= ub * std::cmp::min(self.prec_div, 1) {
+            Ok(if *w / std::cmp::max(self.prec_div, 1) <= ub {
                 vec![]
             } else {
                 vec![-(*l)]
@@ -416,7 +430,9 @@ impl crate::encodings::EncodeStats for DynamicPolyWatchdog {
 }
 
 impl From<RsHashMap<Lit, usize>> for DynamicPolyWatchdog {
-    fn from(lits: RsHashMap<Lit, usize>) -> Self {
+    fn from(mut lits: RsHashMap<Lit, usize>) -> Self {
+        // literals of weight zero do not contribute to the sum
+        lits.retain(|_, w| *w > 0);
         let weight_sum = lits.iter().fold(0, |sum, (_, w)| sum + *w);
         let mut db = totdb::Db::default();
         let weight_queue = lit_weight_queue(lits.clone().into_iter(), &mut db);
@@ -435,8 +451,7 @@ impl From<RsHashMap<Lit, usize>> for DynamicPolyWatchdog {
 
 impl FromIterator<(Lit, usize)> for DynamicPolyWatchdog {
     fn from_iter<T: IntoIterator<Item = (Lit, usize)>>(iter: T) -> Self {
-        let lits: RsHashMap<Lit, usize> = RsHashMap::from_iter(iter);
-        Self::from(lits)
+        Self::from(super::collect_weights(iter))
     }
 }
 
@@ -836,8 +851,16 @@ fn enforce_ub(dpw: &Structure, ub: usize, tot_db: &totdb::Db) -> Result<Vec<Lit>
     if oidx >= tot_db[dpw.root()].max_val() {
         return Ok(vec![]);
     }
-    let Some(&olit) = tot_db[dpw.root()].lit(oidx + 1) else {
-        return Err(EnforceError::NotEncoded);
+    let olit = match &tot_db[dpw.root()] {
+        totdb::Node::Leaf(lit) => *lit,
+        totdb::Node::Unit(node) => match node.lits[oidx] {
+            totdb::LitData::Lit {
+                lit,
+                semantics: Some(semantics),
+            } if semantics.has_if() => lit,
+            _ => return Err(EnforceError::NotEncoded),
+        },
+        totdb::Node::General(_) | totdb::Node::Dummy => unreachable!(),
     };
     let mut assumps = vec![!olit];
     // inputs <= enforced_weight at this stage
-- 
2.43.0


From e5cd130d54b0f5e201e70f08a4f6c9b571210413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:33 +0000
Subject: [PATCH 09/57] fix: totalizer reservation statistics and lower bounds
 of referenced totalizers

---
 src/encodings/card/totalizer/mod.rs        |  2 ++
 src/encodings/card/totalizer/referenced.rs | 10 ++++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/encodings/card/totalizer/mod.rs b/src/encodings/card/totalizer/mod.rs
index 80eb6ad..c61f918 100644
--- a/src/encodings/card/totalizer/mod.rs
+++ b/src/encodings/card/totalizer/mod.rs
@@ -173,10 +173,12 @@ impl super::Encode for Totalizer {
 
 impl super::EncodeIncremental for Totalizer {
     fn reserve(&mut self, var_manager: &mut dyn ManageVars) {
+        let n_vars_before = var_manager.n_used();
         self.extend_tree();
         if let Some(root) = self.root {
             self.db.reserve_vars(NodeCon::full(root), var_manager);
         }
+        self.n_vars += var_manager.n_used() - n_vars_before;
     }
 }
 
diff --git a/src/encodings/card/totalizer/referenced.rs b/src/encodings/card/totalizer/referenced.rs
index 8a1f1d3..e65c795 100644
--- a/src/encodings/card/totalizer/referenced.rs
+++ b/src/encodings/card/totalizer/referenced.rs
@@ -191,7 +191,7 @@ impl crate::encodings::card::BoundLower for Tot<'_> {
         Col: CollectClauses,
         R: std::ops::RangeBounds<usize>,
     {
-        self.db.reset_encoded(totdb::Semantics::If);
+        self.db.reset_encoded(totdb::Semantics::OnlyIf);
         self.encode_lb_change(range, collector, var_manager)
     }
 
@@ -199,6 +199,9 @@ impl crate::encodings::card::BoundLower for Tot<'_> {
         if lb > self.n_lits() {
             return Err(EnforceError::Unsat);
         }
+        if lb == 0 {
+            return Ok(vec![]);
+        }
         match &self.db[self.root] {
             totdb::Node::Leaf(lit) => {
                 debug_assert_eq!(lb, 1);
@@ -232,7 +235,7 @@ impl crate::encodings::card::BoundLower for TotCell<'_> {
         Col: CollectClauses,
         R: std::ops::RangeBounds<usize>,
     {
-        self.db.borrow_mut().reset_encoded(totdb::Semantics::If);
+        self.db.borrow_mut().reset_encoded(totdb::Semantics::OnlyIf);
         self.encode_lb_change(range, collector, var_manager)
     }
 
@@ -240,6 +243,9 @@ impl crate::encodings::card::BoundLower for TotCell<'_> {
         if lb > self.n_lits() {
             return Err(EnforceError::Unsat);
         }
+        if lb == 0 {
+            return Ok(vec![]);
+        }
         match &self.db.borrow()[self.root] {
             totdb::Node::Leaf(lit) => {
                 debug_assert_eq!(lb, 1);
-- 
2.43.0


From 367c3c18803fb30b481d7faae02c649cdf6e06cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:33 +0000
Subject: [PATCH 10/57] fix: report clauses of repeated at-most-one encodings
 cumulatively

---
 src/encodings/am1/bimander.rs   | 2 +-
 src/encodings/am1/bitwise.rs    | 2 +-
 src/encodings/am1/commander.rs  | 2 +-
 src/encodings/am1/ladder.rs     | 2 +-
 src/encodings/am1/pairwise.rs   | 2 +-
 src/encodings/am1/twoproduct.rs | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/encodings/am1/bimander.rs b/src/encodings/am1/bimander.rs
index a42de05..31e7ac1 100644
--- a/src/encodings/am1/bimander.rs
+++ b/src/encodings/am1/bimander.rs
@@ -73,7 +73,7 @@ where
             sub.encode(collector, var_manager)?;
         }
 
-        self.n_clauses = collector.n_clauses() - prev_clauses;
+        self.n_clauses += collector.n_clauses() - prev_clauses;
         self.n_vars += var_manager.n_used() - prev_vars;
         Ok(())
     }
diff --git a/src/encodings/am1/bitwise.rs b/src/encodings/am1/bitwise.rs
index 5c4a1d5..9992ef9 100644
--- a/src/encodings/am1/bitwise.rs
+++ b/src/encodings/am1/bitwise.rs
@@ -61,7 +61,7 @@ impl Encode for Bitwise {
             (0..self.in_lits.len()).flat_map(|idx| (0..p as usize).map(move |k| clause(idx, k))),
         )?;
 
-        self.n_clauses = collector.n_clauses() - prev_clauses;
+        self.n_clauses += collector.n_clauses() - prev_clauses;
         self.n_vars += p;
         Ok(())
     }
diff --git a/src/encodings/am1/commander.rs b/src/encodings/am1/commander.rs
index b451054..c2e99e6 100644
--- a/src/encodings/am1/commander.rs
+++ b/src/encodings/am1/commander.rs
@@ -73,7 +73,7 @@ where
         let mut sub = Sub::from(commanders);
         sub.encode(collector, var_manager)?;
 
-        self.n_clauses = collector.n_clauses() - prev_clauses;
+        self.n_clauses += collector.n_clauses() - prev_clauses;
         self.n_vars += var_manager.n_used() - prev_vars;
         Ok(())
     }
diff --git a/src/encodings/am1/ladder.rs b/src/encodings/am1/ladder.rs
index 21dacc8..bc3e011 100644
--- a/src/encodings/am1/ladder.rs
+++ b/src/encodings/am1/ladder.rs
@@ -70,7 +70,7 @@ impl Encode for Ladder {
             collector.extend_clauses(crate::encodings::atomics::lit_impl_cube(lit, cube))?;
         }
 
-        self.n_clauses = collector.n_clauses() - prev_clauses;
+        self.n_clauses += collector.n_clauses() - prev_clauses;
         self.n_vars += u32::try_from(self.in_lits.len())
             .expect("cannot handle more than `u32::MAX` variables")
             - 1;
diff --git a/src/encodings/am1/pairwise.rs b/src/encodings/am1/pairwise.rs
index e247835..28496c1 100644
--- a/src/encodings/am1/pairwise.rs
+++ b/src/encodings/am1/pairwise.rs
@@ -45,7 +45,7 @@ impl Encode for Pairwise {
             (first + 1..self.in_lits.len()).map(move |second| !lits[first] | !lits[second])
         });
         collector.extend_clauses(clause_iter)?;
-        self.n_clauses = collector.n_clauses() - prev_clauses;
+        self.n_clauses += collector.n_clauses() - prev_clauses;
         Ok(())
     }
 }
diff --git a/src/encodings/am1/twoproduct.rs b/src/encodings/am1/twoproduct.rs
index e393866..121c0de 100644
--- a/src/encodings/am1/twoproduct.rs
+++ b/src/encodings/am1/twoproduct.rs
@@ -81,7 +81,7 @@ where
         let mut col_sub = Sub::from(aux_cols);
         col_sub.encode(collector, var_manager)?;
 
-        self.n_clauses = collector.n_clauses() - prev_clauses;
+        self.n_clauses += collector.n_clauses() - prev_clauses;
         self.n_vars += var_manager.n_used() - prev_vars;
         Ok(())
     }
-- 
2.43.0


From ace5cc025e09a1a2c8b279f72d45ca5839efe3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:36 +0000
Subject: [PATCH 11/57] fix: allow literals of the variable with the maximum
 index

---
 src/types/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/mod.rs b/src/types/mod.rs
index 6b59c21..79ac74e 100644
--- a/src/types/mod.rs
+++ b/src/types/mod.rs
@@ -366,7 +366,7 @@ impl Lit {
     /// If `idx > Var::MAX_IDX`.
     #[must_use]
     pub const fn new(idx: u32, negated: bool) -> Lit {
-        assert!(idx < Var::MAX_IDX, "variable index too high");
+        assert!(idx <= Var::MAX_IDX, "variable index too high");
         Lit {
             lidx: Lit::represent(idx, negated),
         }
-- 
2.43.0


From a763769260f21b71fac7be2dd32407775f6352f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:50 +0000
Subject: [PATCH 12/57] fix: read solver outputs with several value lines and
 detect conflicting values

---
 src/instances/fio/mod.rs | 38 ++++++++++++++++++++-------------
 src/types/mod.rs         | 46 +++++++++++++++-------------------------
 2 files changed, 40 insertions(+), 44 deletions(-)

diff --git a/src/instances/fio/mod.rs b/src/instances/fio/mod.rs
index da336f0..c516a3b 100644
--- a/src/instances/fio/mod.rs
+++ b/src/instances/fio/mod.rs
@@ -244,8 +244,8 @@ pub enum SatSolverOutputError {
 pub fn parse_sat_solver_output<R: BufRead>(
     reader: R,
 ) -> Result<SolverOutput, SatSolverOutputError> {
-    let mut is_sat = false;
-    let mut solution: Option<crate::types::Assignment> = None;
+    let mut status: Option<SolverOutput> = None;
+    let mut v_lines = String::new();
 
     for line in reader.lines() {
         let line = &line?;
@@ -253,34 +253,42 @@ pub fn parse_sat_solver_output<R: BufRead>(
         // Solution line
         if line.starts_with("s ") {
             let line = &line[1..].trim_start();
-            match line {
-                line if line.starts_with("UNSATISFIABLE") => return Ok(SolverOutput::Unsat),
+            let this = match line {
+                line if line.starts_with("UNSATISFIABLE") => SolverOutput::Unsat,
                 line if line.starts_with("UNKNOWN") || line.starts_with("INDETERMINATE") => {
-                    return Ok(SolverOutput::Unknown)
+                    SolverOutput::Unknown
                 }
                 line if line.starts_with("SATISFIABLE") => {
-                    is_sat = true;
+                    SolverOutput::Sat(crate::types::Assignment::default())
                 }
                 _ => return Err(SatSolverOutputError::InvalidSLine),
+            };
+            if status.as_ref().is_some_and(|status| status != &this) {
+                // Contradictory solution lines
+                return Err(SatSolverOutputError::InvalidSLine);
             }
+            status = Some(this);
         }
 
         // Value line
         if line.starts_with("v ") {
-            match &mut solution {
-                Some(assign) => assign.extend_from_vline(line)?,
-                _ => solution = Some(crate::types::Assignment::from_vline(line)?),
-            }
+            v_lines.push_str(line);
+            v_lines.push('\n');
         }
     }
 
-    // There is no solution line so we can not trust the output
-    if !is_sat {
-        return Err(SatSolverOutputError::NoSLine);
+    match status {
+        // There is no solution line so we can not trust the output
+        None => return Err(SatSolverOutputError::NoSLine),
+        Some(SolverOutput::Sat(_)) => (),
+        Some(status) => return Ok(status),
     }
 
-    if let Some(solution) = solution {
-        return Ok(SolverOutput::Sat(solution));
+    if !v_lines.is_empty() {
+        // All value lines are parsed together, since the format of a single line can be ambiguous
+        return Ok(SolverOutput::Sat(crate::types::Assignment::from_vline(
+            &v_lines,
+        )?));
     }
 
     Err(SatSolverOutputError::NoVLine)
diff --git a/src/types/mod.rs b/src/types/mod.rs
index 79ac74e..be61984 100644
--- a/src/types/mod.rs
+++ b/src/types/mod.rs
@@ -989,37 +989,29 @@ impl Assignment {
         if lines.is_empty() {
             return Err(InvalidVLine::EmptyLine);
         }
-        // determine line format
+        // check the tag of all lines
+        for line in lines.lines() {
+            match line.chars().next() {
+                Some('v') => (),
+                Some(tag) => return Err(InvalidVLine::InvalidTag(tag)),
+                None => return Err(InvalidVLine::EmptyLine),
+            }
+        }
+        // determine format, based on all lines
+        let is_mse_line = |line: &str| {
+            let line = line[1..].trim();
+            // NOTE: a single 0 is the end of the value lines in the SAT competition format
+            line != "0" && line.chars().all(|c| c == '0' || c == '1')
+        };
         let format = if lines.contains('x') {
             VLineFormat::PbComp
-        } else if !lines[1..].trim().contains(' ')
-            && lines[1..].trim() != "0"
-            && lines[1..]
-                .trim()
-                .chars()
-                .try_for_each(|c| {
-                    if c == '1' || c == '0' {
-                        Ok(())
-                    } else {
-                        Err(())
-                    }
-                })
-                .is_ok()
-        {
+        } else if lines.lines().all(is_mse_line) {
             VLineFormat::MaxSatEval
         } else {
             VLineFormat::SatComp
         };
 
         for line in lines.lines() {
-            if let Some(tag) = line.chars().next() {
-                if tag != 'v' {
-                    return Err(InvalidVLine::InvalidTag(tag));
-                }
-            } else {
-                return Err(InvalidVLine::EmptyLine);
-            }
-
             match format {
                 VLineFormat::SatComp => self.extend_sat_comp_vline(line),
                 VLineFormat::MaxSatEval => self.extend_maxsat_eval_vline(line),
@@ -1041,10 +1033,7 @@ impl Assignment {
             }
 
             let literal = Lit::from_ipasir(number)?;
-            let val = self.lit_value(literal);
-            if val == TernaryVal::True && literal.is_neg()
-                || val == TernaryVal::False && literal.is_pos()
-            {
+            if self.lit_value(literal) == TernaryVal::False {
                 // Catch conflicting assignments
                 return Err(InvalidVLine::ConflictingAssignment(literal.var()));
             }
@@ -1081,8 +1070,7 @@ impl Assignment {
                         1,
                     )
                 })?;
-            let val = self.lit_value(lit);
-            if val == TernaryVal::True && lit.is_neg() || val == TernaryVal::False && lit.is_pos() {
+            if self.lit_value(lit) == TernaryVal::False {
                 // Catch conflicting assignments
                 return Err(InvalidVLine::ConflictingAssignment(lit.var()));
             }
-- 
2.43.0


From a5746b427c436820cd895bbf461a6e98da251690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:27 +0000
Subject: [PATCH 13/57] fix: keep comments, headers, repeated soft clauses and
 high indices when writing instances

---
 src/instances/fio/dimacs.rs |  8 +++----
 src/instances/fio/mod.rs    | 34 ++++++++++++++++++++++++++++++
 src/instances/fio/opb.rs    | 42 ++++++++++++++++++++++---------------
 src/instances/multiopt.rs   |  2 +-
 src/instances/opt.rs        |  2 +-
 5 files changed, 65 insertions(+), 23 deletions(-)

diff --git a/src/instances/fio/dimacs.rs b/src/instances/fio/dimacs.rs
index 0d61418..c870e5d 100644
--- a/src/instances/fio/dimacs.rs
+++ b/src/instances/fio/dimacs.rs
@@ -876,8 +876,8 @@ pub fn write_cnf<W: std::io::Write, Iter: Iterator<Item = CnfLine>>(
     mut data: Iter,
 ) -> Result<(), std::io::Error> {
     data.try_for_each(|dat| match dat {
-        CnfLine::Header(n_vars, n_clauses) => writeln!(writer, "p {n_vars} {n_clauses}"),
-        CnfLine::Comment(c) => write!(writer, "c {c}"),
+        CnfLine::Header(n_vars, n_clauses) => writeln!(writer, "p cnf {n_vars} {n_clauses}"),
+        CnfLine::Comment(c) => super::write_comment(&mut writer, "c", &c),
         CnfLine::Clause(cl) => write_clause(&mut writer, &cl),
     })
 }
@@ -937,7 +937,7 @@ pub fn write_wcnf<W: std::io::Write, Iter: Iterator<Item = WcnfLine>>(
     mut data: Iter,
 ) -> Result<(), std::io::Error> {
     data.try_for_each(|dat| match dat {
-        WcnfLine::Comment(c) => write!(writer, "c {c}"),
+        WcnfLine::Comment(c) => super::write_comment(&mut writer, "c", &c),
         WcnfLine::Hard(cl) => {
             write!(writer, "h ")?;
             write_clause(&mut writer, &cl)
@@ -1025,7 +1025,7 @@ pub fn write_mcnf<W: std::io::Write, Iter: Iterator<Item = McnfLine>>(
     mut data: Iter,
 ) -> Result<(), std::io::Error> {
     data.try_for_each(|dat| match dat {
-        McnfLine::Comment(c) => writeln!(writer, "c {c}"),
+        McnfLine::Comment(c) => super::write_comment(&mut writer, "c", &c),
         McnfLine::Hard(cl) => {
             write!(writer, "h ")?;
             write_clause(&mut writer, &cl)
diff --git a/src/instances/fio/mod.rs b/src/instances/fio/mod.rs
index c516a3b..b4e1e88 100644
--- a/src/instances/fio/mod.rs
+++ b/src/instances/fio/mod.rs
@@ -123,6 +123,40 @@ impl std::fmt::Display for ParsingError {
     }
 }
 
+/// Writes a comment, where every line is prefixed with the given comment marker
+pub(crate) fn write_comment<W: std::io::Write>(
+    writer: &mut W,
+    marker: &str,
+    comment: &str,
+) -> std::io::Result<()> {
+    // NOTE: not using `lines` here to handle empty comments and stray carriage returns as well
+    comment
+        .split(['\n', '\r'])
+        .try_for_each(|line| writeln!(writer, "{marker} {line}"))
+}
+
+/// Adds the weight of a parsed soft clause to the total weight of its objective
+///
+/// # Errors
+///
+/// If the total weight is larger than [`isize::MAX`] and objective values are therefore not
+/// guaranteed to be representable
+#[cfg(feature = "optimization")]
+pub(crate) fn add_soft_weight(total: &mut usize, weight: usize) -> Result<(), ParsingError> {
+    match total.checked_add(weight) {
+        Some(sum) if isize::try_from(sum).is_ok() => {
+            *total = sum;
+            Ok(())
+        }
+        _ => Err(ParsingError::new(
+            String::from("the sum of soft clause weights is too high to be represented"),
+            &weight.to_string(),
+            0,
+            1,
+        )),
+    }
+}
+
 /// Opens a reader for the file at Path.
 /// With feature `compression` supports bzip2 and gzip compression.
 ///
diff --git a/src/instances/fio/opb.rs b/src/instances/fio/opb.rs
index f67c324..76fddfe 100644
--- a/src/instances/fio/opb.rs
+++ b/src/instances/fio/opb.rs
@@ -466,7 +466,7 @@ where
 {
     for dat in data {
         match dat {
-            FileLine::Comment(c) => writeln!(writer, "* {c}")?,
+            FileLine::Comment(c) => super::write_comment(&mut writer, "*", &c)?,
             FileLine::Clause(cl) => write_clause(&mut writer, &cl, opts)?,
             FileLine::Card(card) => write_card(&mut writer, &card, opts)?,
             FileLine::Pb(pb) => write_pb(&mut writer, &pb, opts)?,
@@ -489,7 +489,7 @@ where
 {
     for dat in data {
         match dat {
-            FileLine::Comment(c) => writeln!(writer, "* {c}")?,
+            FileLine::Comment(c) => super::write_comment(&mut writer, "*", &c)?,
             FileLine::Clause(cl) => write_clause(&mut writer, &cl, opts)?,
             FileLine::Card(card) => write_card(&mut writer, &card, opts)?,
             FileLine::Pb(pb) => write_pb(&mut writer, &pb, opts)?,
@@ -647,6 +647,14 @@ where
     writer.flush()
 }
 
+/// Gets the index of a variable in the file
+///
+/// This is computed as [`u64`], since it might not fit in a [`u32`] for high
+/// [`Options::first_var_idx`]
+fn file_idx(var: Var, opts: Options) -> u64 {
+    u64::from(var.idx32()) + u64::from(opts.first_var_idx)
+}
+
 /// Writes a clause to an OPB file
 ///
 /// # Errors
@@ -661,19 +669,19 @@ where
         let mut rhs: isize = 1;
         clause.as_ref().iter().try_for_each(|l| {
             if l.is_pos() {
-                write!(writer, "1 x{} ", l.vidx32() + opts.first_var_idx)
+                write!(writer, "1 x{} ", file_idx(l.var(), opts))
             } else {
                 rhs -= 1;
-                write!(writer, "-1 x{} ", l.vidx32() + opts.first_var_idx)
+                write!(writer, "-1 x{} ", file_idx(l.var(), opts))
             }
         })?;
         writeln!(writer, ">= {rhs};")
     } else {
         clause.as_ref().iter().try_for_each(|l| {
             if l.is_pos() {
-                write!(writer, "1 x{} ", l.vidx32() + opts.first_var_idx)
+                write!(writer, "1 x{} ", file_idx(l.var(), opts))
             } else {
-                write!(writer, "1 ~x{} ", l.vidx32() + opts.first_var_idx)
+                write!(writer, "1 ~x{} ", file_idx(l.var(), opts))
             }
         })?;
         writeln!(writer, ">= 1;")
@@ -732,10 +740,10 @@ fn write_card<W: std::io::Write>(
         let mut offset = 0;
         for l in lits {
             if l.is_pos() {
-                write!(writer, "1 x{} ", l.vidx32() + opts.first_var_idx)?;
+                write!(writer, "1 x{} ", file_idx(l.var(), opts))?;
             } else {
                 offset += 1;
-                write!(writer, "-1 x{} ", l.vidx32() + opts.first_var_idx)?;
+                write!(writer, "-1 x{} ", file_idx(l.var(), opts))?;
             }
         }
         writeln!(writer, "{} {};", op, bound - offset)
@@ -772,9 +780,9 @@ fn write_card<W: std::io::Write>(
         };
         for l in lits {
             if l.is_pos() {
-                write!(writer, "1 x{} ", l.vidx32() + opts.first_var_idx)?;
+                write!(writer, "1 x{} ", file_idx(l.var(), opts))?;
             } else {
-                write!(writer, "1 ~x{} ", l.vidx32() + opts.first_var_idx)?;
+                write!(writer, "1 ~x{} ", file_idx(l.var(), opts))?;
             }
         }
         writeln!(writer, "{op} {bound};")
@@ -828,12 +836,12 @@ fn write_pb<W: std::io::Write>(
         let mut offset: isize = 0;
         for (l, w) in lits {
             if l.is_pos() {
-                write!(writer, "{} x{} ", w, l.vidx32() + opts.first_var_idx)?;
+                write!(writer, "{} x{} ", w, file_idx(l.var(), opts))?;
             } else {
                 // TODO: consider returning error for usize -> isize cast
                 let w = isize::try_from(w).expect("cannot handle weights larger than `isize::MAX`");
                 offset += w;
-                write!(writer, "{} x{} ", -w, l.vidx32() + opts.first_var_idx)?;
+                write!(writer, "{} x{} ", -w, file_idx(l.var(), opts))?;
             }
         }
         writeln!(writer, "{} {};", op, bound - offset)
@@ -865,9 +873,9 @@ fn write_pb<W: std::io::Write>(
         };
         for (l, w) in lits {
             if l.is_pos() {
-                write!(writer, "{} x{} ", w, l.vidx32() + opts.first_var_idx)?;
+                write!(writer, "{} x{} ", w, file_idx(l.var(), opts))?;
             } else {
-                write!(writer, "{} ~x{} ", w, l.vidx32() + opts.first_var_idx)?;
+                write!(writer, "{} ~x{} ", w, file_idx(l.var(), opts))?;
             }
         }
         writeln!(writer, "{op} {bound};")
@@ -899,13 +907,13 @@ fn write_objective<W: std::io::Write, LI: crate::types::WLitIter>(
                     (l.var(), w)
                 }
             })
-            .try_for_each(|(v, w)| write!(writer, " {w} x{}", v.idx32() + opts.first_var_idx))?;
+            .try_for_each(|(v, w)| write!(writer, " {w} x{}", file_idx(v, opts)))?;
     } else {
         soft_lits.into_iter().try_for_each(|(l, w)| {
             if l.is_pos() {
-                write!(writer, " {w} x{}", l.vidx32() + opts.first_var_idx)
+                write!(writer, " {w} x{}", file_idx(l.var(), opts))
             } else {
-                write!(writer, " {w} ~x{}", l.vidx32() + opts.first_var_idx)
+                write!(writer, " {w} ~x{}", file_idx(l.var(), opts))
             }
         })?;
     }
diff --git a/src/instances/multiopt.rs b/src/instances/multiopt.rs
index d781e12..1a193a7 100644
--- a/src/instances/multiopt.rs
+++ b/src/instances/multiopt.rs
@@ -475,7 +475,7 @@ impl<VM: ManageVars + Default> FromIterator<fio::dimacs::McnfLine> for MultiOptI
                     for l in &cl {
                         inst.constraints_mut().var_manager_mut().mark_used(l.var());
                     }
-                    inst.objective_mut(oidx).add_soft_clause(w, cl);
+                    inst.objective_mut(oidx).increase_soft_clause(w, cl);
                 }
             }
         }
diff --git a/src/instances/opt.rs b/src/instances/opt.rs
index bcc32e8..e6459ee 100644
--- a/src/instances/opt.rs
+++ b/src/instances/opt.rs
@@ -1689,7 +1689,7 @@ impl<VM: super::ManageVars + Default> FromIterator<super::fio::dimacs::WcnfLine>
                 super::fio::dimacs::WcnfLine::Comment(_) => (),
                 super::fio::dimacs::WcnfLine::Hard(cl) => inst.constraints_mut().add_clause(cl),
                 super::fio::dimacs::WcnfLine::Soft(cl, w) => {
-                    inst.objective_mut().add_soft_clause(w, cl);
+                    inst.objective_mut().increase_soft_clause(w, cl);
                 }
             }
         }
-- 
2.43.0


From 8b59d39aa526f5988825eb58eb1cca24d8e1aaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:27 +0000
Subject: [PATCH 14/57] fix: negate the whole objective when reading
 maximization objectives from OPB

---
 src/instances/multiopt.rs | 2 +-
 src/instances/opt.rs      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/instances/multiopt.rs b/src/instances/multiopt.rs
index 1a193a7..be9128b 100644
--- a/src/instances/multiopt.rs
+++ b/src/instances/multiopt.rs
@@ -518,7 +518,7 @@ impl<VM: ManageVars + Default> FromIterator<fio::opb::Data> for MultiOptInstance
                                 .into_iter()
                                 .map(|(coeff, lit)| (!lit, coeff))
                                 .collect();
-                            obj.increase_offset(offset - coeff_sum);
+                            obj.increase_offset(-offset - coeff_sum);
                             obj
                         }
                     };
diff --git a/src/instances/opt.rs b/src/instances/opt.rs
index e6459ee..722b191 100644
--- a/src/instances/opt.rs
+++ b/src/instances/opt.rs
@@ -1612,7 +1612,7 @@ impl<VM: super::ManageVars + Default> Instance<VM> {
                     .into_iter()
                     .map(|(coeff, lit)| (!lit, coeff))
                     .collect();
-                obj.increase_offset(offset - coeff_sum);
+                obj.increase_offset(-offset - coeff_sum);
                 obj
             }
         };
-- 
2.43.0


From e5d55786027357ec9cf6c473a8e21f4df1639b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:27 +0000
Subject: [PATCH 15/57] fix: report unrepresentable values as errors and handle
 strict inequalities when reading files

---
 src/instances/fio/dimacs.rs |  26 ++++++-
 src/instances/fio/opb.rs    | 144 ++++++++++++++++++++++--------------
 src/instances/multiopt.rs   |  15 +++-
 src/instances/opt.rs        |   7 +-
 src/instances/sat.rs        |   4 +-
 5 files changed, 132 insertions(+), 64 deletions(-)

diff --git a/src/instances/fio/dimacs.rs b/src/instances/fio/dimacs.rs
index c870e5d..b3902f2 100644
--- a/src/instances/fio/dimacs.rs
+++ b/src/instances/fio/dimacs.rs
@@ -31,6 +31,7 @@ use crate::instances::Cnf;
 use crate::types::Cl;
 use crate::types::Clause;
 use crate::types::Lit;
+use crate::types::Var;
 use crate::utils;
 
 use super::ParsingError;
@@ -75,7 +76,8 @@ impl<Variant, R> Parser<Variant, R> {
     where
         R: std::io::BufRead,
     {
-        debug_assert!(self.buffer.is_empty());
+        // if the last line could not be parsed, it is still in the buffer
+        self.buffer.clear();
         loop {
             let read = self.reader.read_line(&mut self.buffer)?;
             if read == 0 {
@@ -127,7 +129,8 @@ where
     /// encountered.
     #[expect(clippy::missing_panics_doc)]
     pub fn forward_to_body(mut self) -> Result<CnfHeaderData<R>, super::Error> {
-        debug_assert!(self.buffer.is_empty());
+        // if the last line could not be parsed, it is still in the buffer
+        self.buffer.clear();
         if let Some((n_vars, n_clauses)) = self.variant.header_data {
             return Ok(CnfHeaderData {
                 n_vars,
@@ -361,7 +364,8 @@ where
     /// encountered.
     #[expect(clippy::missing_panics_doc)]
     pub fn forward_to_body(mut self) -> Result<WcnfHeaderData<R>, super::Error> {
-        debug_assert!(self.buffer.is_empty());
+        // if the last line could not be parsed, it is still in the buffer
+        self.buffer.clear();
         if let Some(header_data) = self.variant.header_data {
             return Ok(match header_data {
                 WcnfInternalHeaderData::Pre22 {
@@ -719,6 +723,22 @@ where
     }
 }
 
+/// Gets the next free variable from the number of variables specified in a header
+///
+/// # Errors
+///
+/// If the number of variables is too high to be represented
+pub(crate) fn header_next_free(n_vars: u32) -> Result<Var, ParsingError> {
+    Var::new_with_error(n_vars).map_err(|_| {
+        ParsingError::new(
+            String::from("the number of variables in the header is too high to be represented"),
+            &n_vars.to_string(),
+            0,
+            1,
+        )
+    })
+}
+
 fn cnf_p_line(input: &mut &str) -> ModalResult<(u32, usize)> {
     seq! { _: 'p', _: space1, _: cut_err("cnf"), _: space1, dec_uint, _: space1, dec_uint, _: space0 }
         .context(StrContext::Label("cnf p-line"))
diff --git a/src/instances/fio/opb.rs b/src/instances/fio/opb.rs
index 76fddfe..1b663a4 100644
--- a/src/instances/fio/opb.rs
+++ b/src/instances/fio/opb.rs
@@ -98,13 +98,11 @@ where
         }
         let (data, rest) = match (opb_data(self.opts), rest).parse(&self.buffer[self.processed..]) {
             Err(err) => {
-                return Some(Err(ParsingError::from_parse(
-                    &err,
-                    &self.buffer,
-                    self.processed,
-                    self.line_no,
-                )
-                .into()));
+                let err =
+                    ParsingError::from_parse(&err, &self.buffer, self.processed, self.line_no);
+                // continue with the next line, if the iterator is used after an error
+                self.processed = self.buffer.len();
+                return Some(Err(err.into()));
             }
             Ok(data) => data,
         };
@@ -182,12 +180,25 @@ pub struct Objective {
 
 #[cfg(feature = "optimization")]
 impl Objective {
-    fn new(sense: ObjectiveSense, sum: ObjectiveSum) -> Self {
-        Self {
+    fn new(sense: ObjectiveSense, sum: Vec<(Lit, isize)>) -> Result<Self, ValueOverflow> {
+        check_sum(&sum)?;
+        let mut offset = 0;
+        let terms = sum
+            .into_iter()
+            .map(|(lit, coeff)| {
+                if coeff > 0 {
+                    (coeff.unsigned_abs(), lit)
+                } else {
+                    offset += coeff;
+                    (coeff.unsigned_abs(), !lit)
+                }
+            })
+            .collect();
+        Ok(Self {
             sense,
-            terms: sum.terms,
-            offset: sum.offset,
-        }
+            terms,
+            offset,
+        })
     }
 }
 
@@ -204,39 +215,6 @@ pub enum ObjectiveSense {
     Maximize,
 }
 
-#[cfg(feature = "optimization")]
-#[derive(Debug)]
-struct ObjectiveSum {
-    terms: Vec<(usize, Lit)>,
-    offset: isize,
-}
-
-#[cfg(feature = "optimization")]
-impl winnow::stream::Accumulate<(Lit, isize)> for ObjectiveSum {
-    fn initial(capacity: Option<usize>) -> Self {
-        if let Some(capacity) = capacity {
-            Self {
-                terms: Vec::with_capacity(capacity),
-                offset: 0,
-            }
-        } else {
-            Self {
-                terms: Vec::new(),
-                offset: 0,
-            }
-        }
-    }
-
-    fn accumulate(&mut self, (lit, coeff): (Lit, isize)) {
-        if coeff > 0 {
-            self.terms.push((coeff.unsigned_abs(), lit));
-        } else {
-            self.offset += coeff;
-            self.terms.push((coeff.unsigned_abs(), !lit));
-        }
-    }
-}
-
 /// Possible parsing results for comment or constraint or objective
 #[derive(Debug, PartialEq)]
 #[cfg_attr(
@@ -264,6 +242,27 @@ impl Data {
     }
 }
 
+/// Checks that all variables in the data can be added to an instance, i.e., that there is a next
+/// free variable index above them
+pub(crate) fn check_vars(data: Data) -> Result<Data, ParsingError> {
+    let out_of_range = |l: &Lit| l.vidx32() >= Var::MAX_IDX;
+    let found = match &data {
+        Data::Cmt(_) => None,
+        Data::Constr(constr) => constr.iter().map(|(l, _)| *l).find(out_of_range),
+        #[cfg(feature = "optimization")]
+        Data::Obj(obj) => obj.terms.iter().map(|(_, l)| *l).find(out_of_range),
+    };
+    if let Some(lit) = found {
+        return Err(ParsingError::new(
+            String::from("variable index is too high to be added to an instance"),
+            &lit.var().to_string(),
+            0,
+            1,
+        ));
+    }
+    Ok(data)
+}
+
 /// Matches an OPB comment
 fn comment<'i>(input: &mut &'i str) -> ModalResult<&'i str> {
     seq! { '*', till_line_ending, opt(line_ending) }
@@ -285,11 +284,37 @@ impl VarParser {
 #[error("found variable with index {0}, which is lower than lowest index {1}")]
 pub struct VarIdxTooLow(u32, u32);
 
+/// A variable index appearing in the parsed data is too high to be represented
+#[derive(Debug, PartialEq, Eq, thiserror::Error)]
+#[error("found variable with index {0}, which is too high to be represented")]
+struct VarIdxTooHigh(u32);
+
+/// A coefficient sum or bound appearing in the parsed data is too high to be represented
+#[derive(Debug, PartialEq, Eq, thiserror::Error)]
+#[error("the sum of the coefficients or the bound is too high to be represented")]
+struct ValueOverflow;
+
+/// Checks that neither the sum of absolute coefficients nor the sum of negative coefficients
+/// overflows, returns the latter
+fn check_sum(sum: &[(Lit, isize)]) -> Result<isize, ValueOverflow> {
+    let mut abs_sum: isize = 0;
+    let mut neg_sum: isize = 0;
+    for (_, coeff) in sum {
+        let abs = coeff.checked_abs().ok_or(ValueOverflow)?;
+        abs_sum = abs_sum.checked_add(abs).ok_or(ValueOverflow)?;
+        if *coeff < 0 {
+            neg_sum += abs;
+        }
+    }
+    Ok(neg_sum)
+}
+
 impl<'i, E> winnow::Parser<&'i str, Var, E> for VarParser
 where
     E: winnow::error::ParserError<&'i str>
         + winnow::error::AddContext<&'i str, winnow::error::StrContext>
         + winnow::error::FromExternalError<&'i str, VarIdxTooLow>
+        + winnow::error::FromExternalError<&'i str, VarIdxTooHigh>
         + winnow::error::FromExternalError<&'i str, <u32 as std::str::FromStr>::Err>,
 {
     fn parse_next(&mut self, input: &mut &'i str) -> winnow::Result<Var, E> {
@@ -306,8 +331,9 @@ where
             if idx < self.0 {
                 return Err(VarIdxTooLow(idx, self.0));
             }
-            Ok(Var::new(idx - self.0))
+            Ok(idx)
         })
+        .try_map(|idx| Var::new_with_error(idx - self.0).map_err(|_| VarIdxTooHigh(idx)))
         .context(StrContext::Label("variable"))
         .parse_next(input)
     }
@@ -384,13 +410,21 @@ fn ending<'i>(input: &mut &'i str) -> ModalResult<&'i str> {
 
 /// Parses an OPB constraint
 fn constraint<'i>(opts: Options) -> impl OpbParser<'i, PbConstraint> {
-    seq! { term_sum::<Vec<(Lit, isize)>>(opts), _: space0, operator, _: space0, cut_err(coeff), _: ending }.map(
-        |(sum, opt, b)| match opt {
-            OpbOperator::LE => PbConstraint::new_ub(sum, b),
-            OpbOperator::GE => PbConstraint::new_lb(sum, b),
-            OpbOperator::LT => PbConstraint::new_ub(sum, b + 1),
-            OpbOperator::GT => PbConstraint::new_lb(sum, b + 1),
-            OpbOperator::EQ => PbConstraint::new_eq(sum, b),
+    seq! { term_sum::<Vec<(Lit, isize)>>(opts), _: space0, operator, _: space0, cut_err(coeff), _: ending }.try_map(
+        |(sum, opt, b)| {
+            // NOTE: strict inequalities over integers
+            let b = match opt {
+                OpbOperator::LT => b.checked_sub(1).ok_or(ValueOverflow)?,
+                OpbOperator::GT => b.checked_add(1).ok_or(ValueOverflow)?,
+                OpbOperator::LE | OpbOperator::GE | OpbOperator::EQ => b,
+            };
+            // Negative coefficients are added to the bound
+            b.checked_add(check_sum(&sum)?).ok_or(ValueOverflow)?;
+            Ok::<_, ValueOverflow>(match opt {
+                OpbOperator::LE | OpbOperator::LT => PbConstraint::new_ub(sum, b),
+                OpbOperator::GE | OpbOperator::GT => PbConstraint::new_lb(sum, b),
+                OpbOperator::EQ => PbConstraint::new_eq(sum, b),
+            })
         },
     ).context(StrContext::Label("constraint"))
 }
@@ -398,8 +432,8 @@ fn constraint<'i>(opts: Options) -> impl OpbParser<'i, PbConstraint> {
 #[cfg(feature = "optimization")]
 /// Parses an OPB objective
 fn objective<'i>(opts: Options) -> impl OpbParser<'i, Objective> {
-    seq! { alt(("min:".map(|_| ObjectiveSense::Minimize), "max:".map(|_| ObjectiveSense::Maximize))), _: space0, cut_err(term_sum::<ObjectiveSum>(opts)), _: cut_err(ending) }
-        .map(|(sense,sum )| Objective::new(sense, sum))
+    seq! { alt(("min:".map(|_| ObjectiveSense::Minimize), "max:".map(|_| ObjectiveSense::Maximize))), _: space0, cut_err(term_sum::<Vec<(Lit, isize)>>(opts)), _: cut_err(ending) }
+        .try_map(|(sense, sum)| Objective::new(sense, sum))
         .context(StrContext::Label("objective"))
 }
 
diff --git a/src/instances/multiopt.rs b/src/instances/multiopt.rs
index be9128b..c678b93 100644
--- a/src/instances/multiopt.rs
+++ b/src/instances/multiopt.rs
@@ -395,7 +395,8 @@ impl<VM: ManageVars + Default> MultiOptInstance<VM> {
     /// [`std::io::Error`] or if parsing fails.
     pub fn from_dimacs<R: std::io::BufRead>(reader: R) -> Result<Self, fio::Error> {
         let mut constrs = SatInstance::<VM>::default();
-        let mut objs = vec![];
+        let mut objs: Vec<Objective> = vec![];
+        let mut total_weights: Vec<usize> = vec![];
         for data in fio::dimacs::Parser::<fio::dimacs::Mcnf, _>::new(reader) {
             match data? {
                 fio::dimacs::McnfData::HardClause(clause) => constrs.add_clause(clause),
@@ -405,8 +406,16 @@ impl<VM: ManageVars + Default> MultiOptInstance<VM> {
                     clause,
                 } => {
                     if obj_idx > objs.len() {
+                        let add = obj_idx - objs.len();
+                        // An extremely high index must not abort the process
+                        if objs.try_reserve(add).is_err() || total_weights.try_reserve(add).is_err()
+                        {
+                            return Err(fio::Error::Io(std::io::ErrorKind::OutOfMemory.into()));
+                        }
                         objs.resize(obj_idx, Objective::new());
+                        total_weights.resize(obj_idx, 0);
                     }
+                    fio::add_soft_weight(&mut total_weights[obj_idx - 1], weight)?;
                     objs[obj_idx - 1].increase_soft_clause(weight, clause);
                 }
                 fio::dimacs::McnfData::Comment(_) => (),
@@ -442,7 +451,9 @@ impl<VM: ManageVars + Default> MultiOptInstance<VM> {
         reader: R,
         opts: fio::opb::Options,
     ) -> Result<Self, fio::Error> {
-        fio::opb::Parser::new(reader, opts).collect()
+        fio::opb::Parser::new(reader, opts)
+            .map(|data| Ok(fio::opb::check_vars(data?)?))
+            .collect()
     }
 
     /// Parses an OPB instance from a file path. For more details see
diff --git a/src/instances/opt.rs b/src/instances/opt.rs
index 722b191..28d0a00 100644
--- a/src/instances/opt.rs
+++ b/src/instances/opt.rs
@@ -1506,6 +1506,7 @@ impl<VM: super::ManageVars + Default> Instance<VM> {
                 .forward_to_body()?;
         let mut constrs = super::SatInstance::<VM>::default();
         let mut obj = Objective::default();
+        let mut total_weight = 0;
         match header_data {
             super::fio::dimacs::WcnfHeaderData::Pre22 {
                 n_vars,
@@ -1514,13 +1515,14 @@ impl<VM: super::ManageVars + Default> Instance<VM> {
             } => {
                 constrs
                     .var_manager_mut()
-                    .increase_next_free(Var::new(n_vars));
+                    .increase_next_free(super::fio::dimacs::header_next_free(n_vars)?);
                 for data in body_parser {
                     match data? {
                         super::fio::dimacs::WcnfData::HardClause(clause) => {
                             constrs.add_clause(clause);
                         }
                         super::fio::dimacs::WcnfData::SoftClause { weight, clause } => {
+                            super::fio::add_soft_weight(&mut total_weight, weight)?;
                             obj.increase_soft_clause(weight, clause);
                         }
                         super::fio::dimacs::WcnfData::Comment(_) => (),
@@ -1534,6 +1536,7 @@ impl<VM: super::ManageVars + Default> Instance<VM> {
                             constrs.add_clause(clause);
                         }
                         super::fio::dimacs::WcnfData::SoftClause { weight, clause } => {
+                            super::fio::add_soft_weight(&mut total_weight, weight)?;
                             obj.increase_soft_clause(weight, clause);
                         }
                         super::fio::dimacs::WcnfData::Comment(_) => (),
@@ -1576,7 +1579,7 @@ impl<VM: super::ManageVars + Default> Instance<VM> {
         let mut sat_inst = super::SatInstance::<VM>::new();
         let mut obj = None;
         for data in parser {
-            match data? {
+            match super::fio::opb::check_vars(data?)? {
                 super::fio::opb::Data::Cmt(_) => {}
                 super::fio::opb::Data::Constr(constr) => sat_inst.add_pb_constr(constr),
                 super::fio::opb::Data::Obj(objective) => {
diff --git a/src/instances/sat.rs b/src/instances/sat.rs
index a4c30c2..241d96c 100644
--- a/src/instances/sat.rs
+++ b/src/instances/sat.rs
@@ -1024,7 +1024,7 @@ impl<VM: super::ManageVars + Default> Instance<VM> {
                 .forward_to_body()?;
         let mut inst = Self::default();
         inst.var_manager_mut()
-            .increase_next_free(Var::new(header_data.n_vars));
+            .increase_next_free(super::fio::dimacs::header_next_free(header_data.n_vars)?);
         for data in header_data.body_parser {
             match data? {
                 super::fio::dimacs::CnfData::Clause(clause) => inst.add_clause(clause),
@@ -1064,7 +1064,7 @@ impl<VM: super::ManageVars + Default> Instance<VM> {
         let parser = super::fio::opb::Parser::new(reader, opts);
         let mut inst = Self::new();
         for data in parser {
-            match data? {
+            match super::fio::opb::check_vars(data?)? {
                 super::fio::opb::Data::Cmt(_) => {}
                 super::fio::opb::Data::Constr(constr) => inst.add_pb_constr(constr),
                 #[cfg(feature = "optimization")]
-- 
2.43.0


From 070a49bfabbc307f45dea165d406759fa4a19879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:28 +0000
Subject: [PATCH 16/57] fix: keep cardinality and PB constraints when extending
 instances, mark variables of added clauses as used

---
 src/instances/sat.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/instances/sat.rs b/src/instances/sat.rs
index 241d96c..c20a27f 100644
--- a/src/instances/sat.rs
+++ b/src/instances/sat.rs
@@ -709,6 +709,8 @@ impl<VM: super::ManageVars> Instance<VM> {
     /// Extends the instance by another instance
     pub fn extend(&mut self, other: Instance<VM>) {
         self.cnf.extend(other.cnf);
+        self.cards.extend(other.cards);
+        self.pbs.extend(other.pbs);
         self.var_manager.combine(other.var_manager);
     }
 
@@ -932,6 +934,8 @@ impl<VM: super::ManageVars> Instance<VM> {
             })
             .collect();
         if unsat {
+            let mut var_manager = self.var_manager;
+            var_manager.mark_used(Var::new(0));
             return Self {
                 cnf: Cnf::from_iter(vec![
                     crate::clause![Lit::new(0, false)],
@@ -939,7 +943,7 @@ impl<VM: super::ManageVars> Instance<VM> {
                 ]),
                 cards: vec![],
                 pbs: vec![],
-                var_manager: self.var_manager,
+                var_manager,
             };
         }
         Self {
@@ -1162,7 +1166,12 @@ impl<VM: super::ManageVars + Default> From<Cnf> for Instance<VM> {
 
 impl<VM: super::ManageVars> Extend<Clause> for Instance<VM> {
     fn extend<T: IntoIterator<Item = Clause>>(&mut self, iter: T) {
-        self.cnf.extend(iter);
+        let var_manager = &mut self.var_manager;
+        self.cnf.extend(iter.into_iter().inspect(|cl| {
+            for l in cl {
+                var_manager.mark_used(l.var());
+            }
+        }));
     }
 }
 
@@ -1175,7 +1184,14 @@ impl CollectClauses for Instance {
     where
         T: IntoIterator<Item = Clause>,
     {
-        self.cnf.extend_clauses(cl_iter)
+        use super::ManageVars;
+
+        let var_manager = &mut self.var_manager;
+        self.cnf.extend_clauses(cl_iter.into_iter().inspect(|cl| {
+            for l in cl {
+                var_manager.mark_used(l.var());
+            }
+        }))
     }
 }
 
-- 
2.43.0


From 1ba2714aa227c97a829b449175c96fe36ecf31a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:34 +0000
Subject: [PATCH 17/57] fix: do not reuse variables of objectives when
 converting optimization instances

---
 src/instances/multiopt.rs | 31 ++++++++-----------------------
 src/instances/opt.rs      | 18 ++++++++----------
 2 files changed, 16 insertions(+), 33 deletions(-)

diff --git a/src/instances/multiopt.rs b/src/instances/multiopt.rs
index c678b93..33cfd07 100644
--- a/src/instances/multiopt.rs
+++ b/src/instances/multiopt.rs
@@ -137,19 +137,10 @@ impl<VM: ManageVars> MultiOptInstance<VM> {
     ///
     /// This might panic if the conversion to [`Cnf`] runs out of memory.
     pub fn into_hard_cls_soft_cls(self) -> (Cnf, Vec<(impl crate::types::WClsIter, isize)>, VM) {
-        let (cnf, mut vm) = self.constrs.into_cnf();
-        let omv = self.objs.iter().fold(Var::new(0), |v, o| {
-            if let Some(mv) = o.max_var() {
-                return std::cmp::max(v, mv);
-            }
-            v
-        });
-        vm.increase_next_free(omv + 1);
-        let soft_cls = self
-            .objs
-            .into_iter()
-            .map(Objective::into_soft_cls)
-            .collect();
+        // This marks the variables in the objectives as used
+        let (constrs, objs) = self.decompose();
+        let (cnf, vm) = constrs.into_cnf();
+        let soft_cls = objs.into_iter().map(Objective::into_soft_cls).collect();
         (cnf, soft_cls, vm)
     }
 
@@ -159,16 +150,10 @@ impl<VM: ManageVars> MultiOptInstance<VM> {
     ///
     /// This might panic if the conversion to [`Cnf`] runs out of memory.
     pub fn into_hard_cls_soft_lits(self) -> (Cnf, Vec<(impl crate::types::WLitIter, isize)>, VM) {
-        let (mut cnf, mut vm) = self.constrs.into_cnf();
-        let omv = self.objs.iter().fold(Var::new(0), |v, o| {
-            if let Some(mv) = o.max_var() {
-                return std::cmp::max(v, mv);
-            }
-            v
-        });
-        vm.increase_next_free(omv);
-        let soft_lits = self
-            .objs
+        // This marks the variables in the objectives as used
+        let (constrs, objs) = self.decompose();
+        let (mut cnf, mut vm) = constrs.into_cnf();
+        let soft_lits = objs
             .into_iter()
             .map(|o| {
                 let (hards, softs) = o.into_soft_lits(&mut vm);
diff --git a/src/instances/opt.rs b/src/instances/opt.rs
index 28d0a00..d975eae 100644
--- a/src/instances/opt.rs
+++ b/src/instances/opt.rs
@@ -1289,11 +1289,10 @@ impl<VM: super::ManageVars> Instance<VM> {
     ///
     /// This might panic if the conversion to [`super::Cnf`] runs out of memory.
     pub fn into_hard_cls_soft_cls(self) -> (super::Cnf, (impl crate::types::WClsIter, isize), VM) {
-        let (cnf, mut vm) = self.constrs.into_cnf();
-        if let Some(mv) = self.obj.max_var() {
-            vm.increase_next_free(mv + 1);
-        }
-        (cnf, self.obj.into_soft_cls(), vm)
+        // This marks the variables in the objective as used
+        let (constrs, obj) = self.decompose();
+        let (cnf, vm) = constrs.into_cnf();
+        (cnf, obj.into_soft_cls(), vm)
     }
 
     /// Converts the instance to a set of hard clauses and soft literals, an
@@ -1303,11 +1302,10 @@ impl<VM: super::ManageVars> Instance<VM> {
     ///
     /// This might panic if the conversion to [`super::Cnf`] runs out of memory.
     pub fn into_hard_cls_soft_lits(self) -> (super::Cnf, (impl crate::types::WLitIter, isize), VM) {
-        let (mut cnf, mut vm) = self.constrs.into_cnf();
-        if let Some(mv) = self.obj.max_var() {
-            vm.increase_next_free(mv + 1);
-        }
-        let (hard_softs, softs) = self.obj.into_soft_lits(&mut vm);
+        // This marks the variables in the objective as used
+        let (constrs, obj) = self.decompose();
+        let (mut cnf, mut vm) = constrs.into_cnf();
+        let (hard_softs, softs) = obj.into_soft_lits(&mut vm);
         cnf.extend(hard_softs);
         (cnf, softs, vm)
     }
-- 
2.43.0


From 692d5a17970d6983971939953ea580aca110e506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:34 +0000
Subject: [PATCH 18/57] fix: relax soft clauses with the blocking literal when
 solving MaxSAT instances

---
 src/instances/opt.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/instances/opt.rs b/src/instances/opt.rs
index d975eae..6634156 100644
--- a/src/instances/opt.rs
+++ b/src/instances/opt.rs
@@ -1650,8 +1650,10 @@ impl<VM: super::ManageVars + Default> Instance<VM> {
         use crate::solvers::Solve;
 
         let mut solver = Alg::Solver::default();
-        let (cnf, vm) = self.constrs.into_cnf();
-        let mut vm = if let Some(max_var) = std::cmp::max(vm.max_var(), self.obj.max_var()) {
+        // This marks the variables in the objective as used
+        let (constrs, obj) = self.decompose();
+        let (cnf, vm) = constrs.into_cnf();
+        let mut vm = if let Some(max_var) = vm.max_var() {
             super::BasicVarManager::from_next_free(max_var + 1)
         } else {
             super::BasicVarManager::default()
@@ -1666,11 +1668,11 @@ impl<VM: super::ManageVars + Default> Instance<VM> {
             }
             let blit = vm.new_lit();
             solver
-                .add_clause(cl | !blit)
+                .add_clause(cl | blit)
                 .expect("failed adding clause to solver");
             (blit, weight)
         };
-        let (iter, offset) = self.obj.into_soft_cls();
+        let (iter, offset) = obj.into_soft_cls();
         let obj: Vec<_> = iter.into_iter().map(handle_soft_cls).collect();
         let (sol, cost) = Alg::solve(&mut solver, &obj)?;
         Some((
-- 
2.43.0


From fd6f75437cff1045430143b55e16236dc1440b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:34 +0000
Subject: [PATCH 19/57] fix: objective weights with repeated entries, empty
 soft clauses and normalization

---
 src/instances/opt.rs | 96 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 75 insertions(+), 21 deletions(-)

diff --git a/src/instances/opt.rs b/src/instances/opt.rs
index 6634156..54ed90c 100644
--- a/src/instances/opt.rs
+++ b/src/instances/opt.rs
@@ -162,7 +162,17 @@ impl Objective {
                     .iter()
                     .fold(0, |s, (_, w)| if *w > s { *w } else { s })
             }
-            IntObj::Unweighted { unit_weight, .. } => unit_weight.unwrap_or(0),
+            IntObj::Unweighted {
+                soft_lits,
+                unit_weight,
+                ..
+            } => {
+                if soft_lits.is_empty() {
+                    0
+                } else {
+                    unit_weight.unwrap_or(0)
+                }
+            }
         }
     }
 
@@ -175,7 +185,17 @@ impl Objective {
                     .iter()
                     .fold(0, |s, (_, w)| if *w > s { *w } else { s })
             }
-            IntObj::Unweighted { unit_weight, .. } => unit_weight.unwrap_or(0),
+            IntObj::Unweighted {
+                soft_clauses,
+                unit_weight,
+                ..
+            } => {
+                if soft_clauses.is_empty() {
+                    0
+                } else {
+                    unit_weight.unwrap_or(0)
+                }
+            }
         }
     }
 
@@ -400,15 +420,24 @@ impl Objective {
                 ..
             } => {
                 if w == 0 {
-                    if let Some(idx) = soft_lits.iter().position(|l2| l2 == &l) {
-                        soft_lits.swap_remove(idx);
-                        return Some(crate::utils::unreachable_none!(*unit_weight));
+                    // NOTE: the weight can be spread over multiple identical entries
+                    let n_before = soft_lits.len();
+                    soft_lits.retain(|l2| l2 != &l);
+                    let count = n_before - soft_lits.len();
+                    if count > 0 {
+                        return Some(count * crate::utils::unreachable_none!(*unit_weight));
                     }
                     None
                 } else if let Some(unit_weight) = unit_weight {
                     if w == *unit_weight {
-                        if soft_lits.iter().any(|l2| l2 == &l) {
-                            return Some(*unit_weight);
+                        // NOTE: the weight can be spread over multiple identical entries
+                        let mut count = 0;
+                        soft_lits.retain(|l2| {
+                            count += usize::from(l2 == &l);
+                            l2 != &l || count == 1
+                        });
+                        if count > 0 {
+                            return Some(count * *unit_weight);
                         }
                         soft_lits.push(l);
                         None
@@ -500,15 +529,24 @@ impl Objective {
                 ..
             } => {
                 if w == 0 {
-                    if let Some(idx) = soft_clauses.iter().position(|cl2| cl2 == &cl) {
-                        soft_clauses.swap_remove(idx);
-                        return Some(crate::utils::unreachable_none!(*unit_weight));
+                    // NOTE: the weight can be spread over multiple identical entries
+                    let n_before = soft_clauses.len();
+                    soft_clauses.retain(|cl2| cl2 != &cl);
+                    let count = n_before - soft_clauses.len();
+                    if count > 0 {
+                        return Some(count * crate::utils::unreachable_none!(*unit_weight));
                     }
                     None
                 } else if let Some(unit_weight) = unit_weight {
                     if w == *unit_weight {
-                        if soft_clauses.iter().any(|cl2| cl2 == &cl) {
-                            return Some(*unit_weight);
+                        // NOTE: the weight can be spread over multiple identical entries
+                        let mut count = 0;
+                        soft_clauses.retain(|cl2| {
+                            count += usize::from(cl2 == &cl);
+                            cl2 != &cl || count == 1
+                        });
+                        if count > 0 {
+                            return Some(count * *unit_weight);
                         }
                         soft_clauses.push(cl);
                         None
@@ -529,10 +567,18 @@ impl Objective {
 
     /// Increases the weight of a soft clause. Returns the old weight, if the
     /// clause was already in the objective.
+    ///
+    /// # Panics
+    ///
+    /// If the clause is empty and `add_w` is larger than [`isize::MAX`]
     pub fn increase_soft_clause(&mut self, add_w: usize, cl: Clause) {
         if add_w == 0 {
             return;
         }
+        if cl.is_empty() {
+            self.increase_offset(isize::try_from(add_w).expect("weight overflow"));
+            return;
+        }
         if cl.len() == 1 {
             return self.increase_soft_lit(add_w, !cl[0]);
         }
@@ -570,8 +616,10 @@ impl Objective {
                 soft_lits,
                 ..
             } => {
-                if soft_lits.iter().any(|l2| l2 == &l) {
-                    Some(crate::utils::unreachable_none!(*unit_weight))
+                // NOTE: the weight can be spread over multiple identical entries
+                let count = soft_lits.iter().filter(|l2| *l2 == &l).count();
+                if count > 0 {
+                    Some(count * crate::utils::unreachable_none!(*unit_weight))
                 } else {
                     None
                 }
@@ -589,8 +637,10 @@ impl Objective {
                 soft_clauses,
                 ..
             } => {
-                if soft_clauses.iter().any(|cl2| cl2 == cl) {
-                    Some(crate::utils::unreachable_none!(*unit_weight))
+                // NOTE: the weight can be spread over multiple identical entries
+                let count = soft_clauses.iter().filter(|cl2| *cl2 == cl).count();
+                if count > 0 {
+                    Some(count * crate::utils::unreachable_none!(*unit_weight))
                 } else {
                     None
                 }
@@ -943,7 +993,9 @@ impl Objective {
                     *soft_clauses.entry(clause).or_default() += weight;
                 }
                 if soft_clauses.is_empty() && soft_lits.is_empty() {
-                    return Self::default();
+                    let mut obj = Self::default();
+                    obj.set_offset(*offset);
+                    return obj;
                 }
                 let unit_weight = *soft_lits
                     .values()
@@ -1011,16 +1063,18 @@ impl Objective {
                 soft_lits.sort_unstable();
                 let mut next = 0;
                 let mut end = 0;
-                while next < soft_lits.len() - 1 {
-                    if soft_lits[next] == !soft_lits[next + 1] {
+                while next < soft_lits.len() {
+                    if next + 1 < soft_lits.len() && soft_lits[next] == !soft_lits[next + 1] {
                         // skip conflicting literals
                         *offset += isize::try_from(unit_weight)
                             .expect("can only handle weights up to `isize::MAX`");
                         next += 2;
                         continue;
                     }
-                    if soft_lits[next] == soft_lits[next + 1] {
+                    if next + 1 < soft_lits.len() && soft_lits[next] == soft_lits[next + 1] {
                         // duplicate literal: objective is actually weighted
+                        // remove skipped conflicting literals, since they are already in the offset
+                        soft_lits.drain(end..next);
                         self.unweighted_2_weighted();
                         return self.normalize();
                     }
@@ -1028,7 +1082,7 @@ impl Objective {
                     end += 1;
                     next += 1;
                 }
-                soft_lits.truncate(end + usize::from(next < soft_lits.len()));
+                soft_lits.truncate(end);
 
                 if soft_lits.is_empty() && soft_clauses.is_empty() {
                     *self_unit_weight = None;
-- 
2.43.0


From ff6a42e35102ccabafbc64152d59a899ce56fbc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:38 +0000
Subject: [PATCH 20/57] fix: keep the maps of re-indexing variable managers
 consistent

---
 src/instances/mod.rs | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/instances/mod.rs b/src/instances/mod.rs
index 6abbd23..d381784 100644
--- a/src/instances/mod.rs
+++ b/src/instances/mod.rs
@@ -155,7 +155,7 @@ impl Default for BasicVarManager {
 pub struct ReindexingVarManager {
     next_var: Var,
     in_map: RsHashMap<Var, Var>,
-    out_map: Vec<Var>,
+    out_map: RsHashMap<Var, Var>,
 }
 
 impl ReindexingVarManager {
@@ -166,8 +166,12 @@ impl ReindexingVarManager {
     pub fn from_next_free(next_var: Var) -> Self {
         Self {
             next_var,
-            in_map: RsHashMap::default(),
-            out_map: (0..next_var.idx32()).map(Var::new).collect(),
+            in_map: (0..next_var.idx32())
+                .map(|idx| (Var::new(idx), Var::new(idx)))
+                .collect(),
+            out_map: (0..next_var.idx32())
+                .map(|idx| (Var::new(idx), Var::new(idx)))
+                .collect(),
         }
     }
 }
@@ -179,16 +183,13 @@ impl ReindexVars for ReindexingVarManager {
         } else {
             let v = self.new_var();
             self.in_map.insert(in_var, v);
-            self.out_map.push(in_var);
+            self.out_map.insert(v, in_var);
             v
         }
     }
 
     fn reverse(&self, out_var: Var) -> Option<Var> {
-        if out_var.idx() >= self.out_map.len() {
-            return None;
-        }
-        Some(self.out_map[out_var.idx()])
+        self.out_map.get(&out_var).copied()
     }
 }
 
@@ -197,7 +198,7 @@ impl Default for ReindexingVarManager {
         Self {
             next_var: Var::new(0),
             in_map: RsHashMap::default(),
-            out_map: Vec::default(),
+            out_map: RsHashMap::default(),
         }
     }
 }
@@ -230,6 +231,7 @@ impl ManageVars for ReindexingVarManager {
             self.next_var = other.next_var;
         }
         self.in_map.extend(other.in_map);
+        self.out_map.extend(other.out_map);
     }
 
     fn n_used(&self) -> u32 {
@@ -238,7 +240,7 @@ impl ManageVars for ReindexingVarManager {
 
     fn forget_from(&mut self, min_var: Var) {
         self.in_map.retain(|_, v| *v < min_var);
-        self.out_map.truncate(min_var.idx() + 1);
+        self.out_map.retain(|v, _| *v < min_var);
         self.next_var = std::cmp::min(self.next_var, min_var);
     }
 }
@@ -366,6 +368,7 @@ impl ReindexVars for RandReindVarManager {
             Some(v) => *v,
             None => {
                 // Don't reindex vars that are out of initialized range
+                self.mark_used(in_var);
                 in_var
             }
         }
@@ -410,7 +413,11 @@ impl ManageVars for RandReindVarManager {
         if other.next_var > self.next_var {
             self.next_var = other.next_var;
         }
-        self.in_map.extend(other.in_map);
+        // Keep the mapping for the larger range, so that the mapping stays a bijection
+        if other.in_map.len() >= self.in_map.len() {
+            self.in_map = other.in_map;
+            self.out_map = other.out_map;
+        }
     }
 
     fn n_used(&self) -> u32 {
-- 
2.43.0


From 23a5ef59f2ff54bf7400d787ec7dc3896e617032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:16 +0000
Subject: [PATCH 21/57] fix: reification of trivially satisfied upper bound
 constraints

---
 src/encodings/atomics.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/encodings/atomics.rs b/src/encodings/atomics.rs
index 90288dc..84a865e 100644
--- a/src/encodings/atomics.rs
+++ b/src/encodings/atomics.rs
@@ -132,9 +132,13 @@ pub fn card_impl_lit(card: &CardConstraint, lit: Lit) -> PbConstraint {
     match card {
         CardConstraint::Ub(c) => {
             let (lits, bound) = c.decompose_ref();
-            let bound = 2 * lits.len() - bound - 1;
+            // NOTE: higher bounds are equivalent, since they are trivially satisfied as well
+            let bound = std::cmp::min(lits.len(), *bound);
+            // For a trivially satisfied constraint, the literal needs to be forced
+            let weight = std::cmp::max(lits.len(), bound + 1);
+            let bound = weight + lits.len() - bound - 1;
             let mut lits: Vec<_> = lits.iter().map(|lit| (!*lit, 1)).collect();
-            lits.push((!lit, lits.len()));
+            lits.push((!lit, weight));
             PbConstraint::new_ub_unsigned(
                 lits,
                 isize::try_from(bound).expect("cannot handle bounds larger than `isize::MAX`"),
@@ -209,9 +213,13 @@ pub fn pb_impl_lit(pb: &PbConstraint, lit: Lit) -> PbConstraint {
             let ws = isize::try_from(pb.weight_sum())
                 .expect("cannot handle sums of weight larger than `isize::MAX`");
             let (lits, bound) = c.decompose_ref();
-            let bound = 2 * ws - bound - 1;
+            // NOTE: higher bounds are equivalent, since they are trivially satisfied as well
+            let bound = std::cmp::min(ws, *bound);
+            // For a trivially satisfied constraint, the literal needs to be forced
+            let weight = std::cmp::max(ws, bound + 1);
+            let bound = weight + ws - bound - 1;
             let mut lits: Vec<_> = lits.iter().map(|(lit, w)| (!*lit, *w)).collect();
-            lits.push((!lit, pb.weight_sum()));
+            lits.push((!lit, weight.unsigned_abs()));
             PbConstraint::new_ub_unsigned(lits, bound)
         }
         PbConstraint::Lb(c) => {
-- 
2.43.0


From 4f079adcef8fa5ace433b45c5bf3f27406bf9da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:40 +0000
Subject: [PATCH 22/57] fix: read multi-member archives and report errors while
 finalizing compressed files

---
 src/instances/fio/mod.rs  | 55 ++++++++++++++++++++++++++++++++++++---
 src/instances/multiopt.rs |  6 ++---
 src/instances/opt.rs      |  6 ++---
 src/instances/sat.rs      |  9 +++----
 src/solvers/external.rs   |  8 +++---
 5 files changed, 62 insertions(+), 22 deletions(-)

diff --git a/src/instances/fio/mod.rs b/src/instances/fio/mod.rs
index b4e1e88..a09afad 100644
--- a/src/instances/fio/mod.rs
+++ b/src/instances/fio/mod.rs
@@ -172,17 +172,17 @@ pub fn open_compressed_uncompressed_read<P: AsRef<std::path::Path>>(
     if let Some(ext) = path.extension() {
         if ext.eq_ignore_ascii_case(std::ffi::OsStr::new("bz2")) {
             return Ok(Box::new(std::io::BufReader::new(
-                bzip2::read::BzDecoder::new(raw_reader),
+                bzip2::read::MultiBzDecoder::new(raw_reader),
             )));
         }
         if ext.eq_ignore_ascii_case(std::ffi::OsStr::new("gz")) {
             return Ok(Box::new(std::io::BufReader::new(
-                flate2::read::GzDecoder::new(raw_reader),
+                flate2::read::MultiGzDecoder::new(raw_reader),
             )));
         }
         if ext.eq_ignore_ascii_case(std::ffi::OsStr::new("xz")) {
             return Ok(Box::new(std::io::BufReader::new(
-                xz2::read::XzDecoder::new(raw_reader),
+                xz2::read::XzDecoder::new_multi_decoder(raw_reader),
             )));
         }
     }
@@ -221,6 +221,55 @@ pub fn open_compressed_uncompressed_write<P: AsRef<std::path::Path>>(
     Ok(Box::new(std::io::BufWriter::new(raw_writer)))
 }
 
+/// Writes data to the file at Path and makes sure that all data is written once the function
+/// returns.
+/// With feature `compression` supports bzip2 and gzip compression.
+///
+/// Compared to [`open_compressed_uncompressed_write`], errors while finalizing a compressed file are
+/// returned rather than ignored.
+pub(crate) fn write_compressed_uncompressed<P, F, E>(path: P, write: F) -> Result<(), E>
+where
+    P: AsRef<std::path::Path>,
+    F: FnOnce(&mut dyn std::io::Write) -> Result<(), E>,
+    E: From<std::io::Error>,
+{
+    fn buffered<W, F, E>(writer: W, write: F) -> Result<W, E>
+    where
+        W: std::io::Write,
+        F: FnOnce(&mut dyn std::io::Write) -> Result<(), E>,
+        E: From<std::io::Error>,
+    {
+        let mut writer = std::io::BufWriter::new(writer);
+        write(&mut writer)?;
+        Ok(writer
+            .into_inner()
+            .map_err(std::io::IntoInnerError::into_error)?)
+    }
+
+    let path = path.as_ref();
+    let raw_writer = std::fs::File::create(path)?;
+    #[cfg(feature = "compression")]
+    if let Some(ext) = path.extension() {
+        if ext.eq_ignore_ascii_case(std::ffi::OsStr::new("bz2")) {
+            let encoder = bzip2::write::BzEncoder::new(raw_writer, bzip2::Compression::fast());
+            buffered(encoder, write)?.finish()?;
+            return Ok(());
+        }
+        if ext.eq_ignore_ascii_case(std::ffi::OsStr::new("gz")) {
+            let encoder = flate2::write::GzEncoder::new(raw_writer, flate2::Compression::fast());
+            buffered(encoder, write)?.finish()?;
+            return Ok(());
+        }
+        if ext.eq_ignore_ascii_case(std::ffi::OsStr::new("xz")) {
+            let encoder = xz2::write::XzEncoder::new(raw_writer, 1);
+            buffered(encoder, write)?.finish()?;
+            return Ok(());
+        }
+    }
+    buffered(raw_writer, write)?;
+    Ok(())
+}
+
 /// Possible results from SAT solver output parsing
 #[derive(Debug, PartialEq, Eq)]
 pub enum SolverOutput {
diff --git a/src/instances/multiopt.rs b/src/instances/multiopt.rs
index 33cfd07..f52a498 100644
--- a/src/instances/multiopt.rs
+++ b/src/instances/multiopt.rs
@@ -242,8 +242,7 @@ impl<VM: ManageVars> MultiOptInstance<VM> {
         &self,
         path: P,
     ) -> Result<(), WriteDimacsError> {
-        let mut writer = fio::open_compressed_uncompressed_write(path)?;
-        self.write_dimacs(&mut writer)
+        fio::write_compressed_uncompressed(path, |writer| self.write_dimacs(writer))
     }
 
     /// Write to DIMACS MCNF
@@ -289,8 +288,7 @@ impl<VM: ManageVars> MultiOptInstance<VM> {
         path: P,
         opts: fio::opb::Options,
     ) -> Result<(), WriteOpbError> {
-        let mut writer = fio::open_compressed_uncompressed_write(path)?;
-        self.write_opb(&mut writer, opts)
+        fio::write_compressed_uncompressed(path, |writer| self.write_opb(writer, opts))
     }
 
     /// Writes the instance to an OPB file
diff --git a/src/instances/opt.rs b/src/instances/opt.rs
index 54ed90c..a68adb2 100644
--- a/src/instances/opt.rs
+++ b/src/instances/opt.rs
@@ -1437,8 +1437,7 @@ impl<VM: super::ManageVars> Instance<VM> {
         &self,
         path: P,
     ) -> Result<(), super::WriteDimacsError> {
-        let mut writer = super::fio::open_compressed_uncompressed_write(path)?;
-        self.write_dimacs(&mut writer)
+        super::fio::write_compressed_uncompressed(path, |writer| self.write_dimacs(writer))
     }
 
     /// Write to DIMACS WCNF (post 22)
@@ -1485,8 +1484,7 @@ impl<VM: super::ManageVars> Instance<VM> {
         path: P,
         opts: super::fio::opb::Options,
     ) -> Result<(), super::WriteOpbError> {
-        let mut writer = super::fio::open_compressed_uncompressed_write(path)?;
-        self.write_opb(&mut writer, opts)
+        super::fio::write_compressed_uncompressed(path, |writer| self.write_opb(writer, opts))
     }
 
     /// Writes the instance to an OPB file
diff --git a/src/instances/sat.rs b/src/instances/sat.rs
index c20a27f..e66aa55 100644
--- a/src/instances/sat.rs
+++ b/src/instances/sat.rs
@@ -239,8 +239,7 @@ impl Cnf {
         path: P,
         n_vars: u32,
     ) -> Result<(), std::io::Error> {
-        let mut writer = super::fio::open_compressed_uncompressed_write(path)?;
-        self.write_dimacs(&mut writer, n_vars)
+        super::fio::write_compressed_uncompressed(path, |writer| self.write_dimacs(writer, n_vars))
     }
 
     /// Writes the CNF to DIMACS CNF
@@ -796,8 +795,7 @@ impl<VM: super::ManageVars> Instance<VM> {
         &self,
         path: P,
     ) -> Result<(), super::WriteDimacsError> {
-        let mut writer = super::fio::open_compressed_uncompressed_write(path)?;
-        self.write_dimacs(&mut writer)
+        super::fio::write_compressed_uncompressed(path, |writer| self.write_dimacs(writer))
     }
 
     /// Writes the instance to DIMACS CNF
@@ -836,8 +834,7 @@ impl<VM: super::ManageVars> Instance<VM> {
         path: P,
         opts: super::fio::opb::Options,
     ) -> Result<(), std::io::Error> {
-        let mut writer = super::fio::open_compressed_uncompressed_write(path)?;
-        self.write_opb(&mut writer, opts)
+        super::fio::write_compressed_uncompressed(path, |writer| self.write_opb(writer, opts))
     }
 
     /// Writes the instance to an OPB file
diff --git a/src/solvers/external.rs b/src/solvers/external.rs
index ef53711..dd4eb9e 100644
--- a/src/solvers/external.rs
+++ b/src/solvers/external.rs
@@ -342,11 +342,9 @@ fn call_external(config: SolverPre) -> anyhow::Result<SolverOutput> {
     let mut cmd = match config.input.0 {
         InputViaInt::File(in_path, argpos) => {
             // write input to file
-            fio::dimacs::write_cnf_annotated(
-                &mut fio::open_compressed_uncompressed_write(&in_path)?,
-                &config.cnf,
-                config.n_vars,
-            )?;
+            fio::write_compressed_uncompressed(&in_path, |writer| {
+                fio::dimacs::write_cnf_annotated(writer, &config.cnf, config.n_vars)
+            })?;
             construct_command_path(config.cmd, in_path, argpos)
         }
         InputViaInt::TempFile(argpos) => {
-- 
2.43.0


From 2fd2ae9af451f86090057a1b932f3b48831bf621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:40 +0000
Subject: [PATCH 23/57] fix: OPB header line and signed or zero-padded
 coefficients

---
 src/instances/fio/opb.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/instances/fio/opb.rs b/src/instances/fio/opb.rs
index 1b663a4..e9f0dcc 100644
--- a/src/instances/fio/opb.rs
+++ b/src/instances/fio/opb.rs
@@ -8,8 +8,8 @@
 //!
 //! - [OPB](https://www.cril.univ-artois.fr/PB12/format.pdf)
 
-use winnow::ascii::dec_int;
 use winnow::ascii::digit0;
+use winnow::ascii::digit1;
 use winnow::ascii::line_ending;
 use winnow::ascii::space0;
 use winnow::ascii::space1;
@@ -377,7 +377,10 @@ fn operator(input: &mut &str) -> ModalResult<OpbOperator> {
 
 /// Parses an OPB weight
 fn coeff(input: &mut &str) -> ModalResult<isize> {
-    dec_int
+    // NOTE: not using `dec_int` here since it does not allow for `+0` and leading zeros
+    (opt(one_of(['+', '-'])), digit1)
+        .take()
+        .try_map(str::parse)
         .context(StrContext::Label("coefficient"))
         .parse_next(input)
 }
@@ -555,7 +558,7 @@ where
 {
     writeln!(
         writer,
-        "* #variable = {} #constraint= {}",
+        "* #variable= {} #constraint= {}",
         inst.var_manager.n_used(),
         inst.n_clauses() + inst.cards.len() + inst.pbs.len()
     )?;
@@ -606,7 +609,7 @@ where
     let pbs = &constrs.pbs;
     writeln!(
         writer,
-        "* #variable = {} #constraint= {}",
+        "* #variable= {} #constraint= {}",
         constrs.n_vars(),
         cnf.len() + cards.len() + pbs.len()
     )?;
@@ -657,7 +660,7 @@ where
     let pbs = &constrs.pbs;
     writeln!(
         writer,
-        "* #variable = {} #constraint= {}",
+        "* #variable= {} #constraint= {}",
         constrs.n_vars(),
         cnf.len() + cards.len() + pbs.len()
     )?;
-- 
2.43.0


From 2ae49b593024aacabeb044be3884ff2461a24b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:40 +0000
Subject: [PATCH 24/57] fix: report DIMACS literals that cannot be added to an
 instance as errors

---
 src/instances/fio/dimacs.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/instances/fio/dimacs.rs b/src/instances/fio/dimacs.rs
index b3902f2..7095bd5 100644
--- a/src/instances/fio/dimacs.rs
+++ b/src/instances/fio/dimacs.rs
@@ -813,6 +813,8 @@ fn obj_idx(input: &mut &str) -> ModalResult<usize> {
 
 fn lit(input: &mut &str) -> ModalResult<Lit> {
     dec_int::<&str, i32, _>
+        // NOTE: the variable of this literal is too high to be added to an instance
+        .verify(|lit| *lit != i32::MIN)
         .try_map(Lit::from_ipasir)
         .context(StrContext::Label("IPASIR literal"))
         .parse_next(input)
-- 
2.43.0


From 882d794133288b239d9af39873ce20547731b2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:26 +0000
Subject: [PATCH 25/57] fix: totaliser database draining, limited reservations
 and passed through only-if definitions

---
 src/encodings/totdb/cert.rs | 17 +++++++++++++++
 src/encodings/totdb/mod.rs  | 43 +++++++++++++++++++++++++++++++------
 2 files changed, 53 insertions(+), 7 deletions(-)

diff --git a/src/encodings/totdb/cert.rs b/src/encodings/totdb/cert.rs
index 748b526..b6b18a6 100644
--- a/src/encodings/totdb/cert.rs
+++ b/src/encodings/totdb/cert.rs
@@ -1246,6 +1246,23 @@ pub struct SemDefId {
     len_limit: Option<NonZeroUsize>,
 }
 
+impl SemDefId {
+    /// Adjusts the ID to draining a range of nodes, returns [`None`] if its node is drained
+    pub(super) fn drain(self, range: &std::ops::Range<NodeId>) -> Option<Self> {
+        if range.contains(&self.id) {
+            return None;
+        }
+        Some(if self.id >= range.end {
+            SemDefId {
+                id: self.id - (range.end - range.start),
+                ..self
+            }
+        } else {
+            self
+        })
+    }
+}
+
 #[derive(Hash, Clone, Copy, PartialEq, Eq, Debug)]
 enum SemDefinition {
     None,
diff --git a/src/encodings/totdb/mod.rs b/src/encodings/totdb/mod.rs
index dc923e0..3173774 100644
--- a/src/encodings/totdb/mod.rs
+++ b/src/encodings/totdb/mod.rs
@@ -102,14 +102,30 @@ impl NodeById for Db {
         if range.is_empty() {
             return Ok(self.nodes.drain(self.nodes.len()..self.nodes.len()));
         }
+        // check all nodes before changing any of them, so that the database is unchanged on error
         (range.end.0..self.nodes.len()).try_for_each(|idx| {
             self.nodes[idx]
-                .drain(range.clone())
+                .check_drain(&range)
                 .map_err(|con| DrainError {
                     referencing: NodeId(idx),
                     referenced: con,
                 })
         })?;
+        for node in &mut self.nodes[range.end.0..] {
+            node.drain(&range);
+        }
+        self.dummy_id = match self.dummy_id {
+            Some(id) if range.contains(&id) => None,
+            Some(id) if id >= range.end => Some(id - (range.end - range.start)),
+            id => id,
+        };
+        #[cfg(feature = "proof-logging")]
+        {
+            self.semantic_defs = std::mem::take(&mut self.semantic_defs)
+                .into_iter()
+                .filter_map(|(id, defs)| id.drain(&range).map(|id| (id, defs)))
+                .collect();
+        }
         self.lookup_leaf.retain(|_, id| !range.contains(id));
         self.lookup_leaf.values_mut().for_each(|id| {
             if *id >= range.end {
@@ -527,6 +543,9 @@ impl Db {
                 )?;
                 let olit = self.get_olit(id, idx, var_manager);
                 collector.add_clause(crate::encodings::atomics::lit_impl_lit(ilit, olit))?;
+                if semantics.has_only_if() {
+                    collector.add_clause(crate::encodings::atomics::lit_impl_lit(olit, ilit))?;
+                }
                 // Mark positive literal as encoded
                 self[id].mut_unit().lits[idx].add_semantics(semantics);
                 return Ok(olit);
@@ -566,7 +585,7 @@ impl Db {
 
         if divisor.get() == 1 {
             if let Some(limit) = len_limit {
-                for val in crate::utils::LimitedIter::new(&mut self[id].vals(offset..), limit.get())
+                for val in crate::utils::LimitedIter::new(&mut self[id].vals(offset + 1..), limit.get())
                 {
                     self[id].reserve_vars(val..=val, var_manager);
                 }
@@ -1056,10 +1075,9 @@ impl Node {
         }
     }
 
-    /// Adjusts the connections of the node to draining a range of nodes. If the
-    /// nodes references a nodes within the drained range, it returns that
-    /// [`NodeId`] as an Error.
-    fn drain(&mut self, range: std::ops::Range<NodeId>) -> Result<(), NodeId> {
+    /// Checks whether the node references a node within a range of nodes to drain. If so, it
+    /// returns that [`NodeId`] as an Error.
+    fn check_drain(&self, range: &std::ops::Range<NodeId>) -> Result<(), NodeId> {
         match self {
             Node::Leaf(_) | Node::Dummy => Ok(()),
             Node::Unit(UnitNode { left, right, .. })
@@ -1070,13 +1088,24 @@ impl Node {
                 if range.contains(&right.id) {
                     return Err(right.id);
                 }
+                Ok(())
+            }
+        }
+    }
+
+    /// Adjusts the connections of the node to draining a range of nodes that the node does not
+    /// reference
+    fn drain(&mut self, range: &std::ops::Range<NodeId>) {
+        match self {
+            Node::Leaf(_) | Node::Dummy => (),
+            Node::Unit(UnitNode { left, right, .. })
+            | Node::General(GeneralNode { left, right, .. }) => {
                 if left.id >= range.end {
                     left.id -= range.end - range.start;
                 }
                 if right.id >= range.end {
                     right.id -= range.end - range.start;
                 }
-                Ok(())
             }
         }
     }
-- 
2.43.0


From 2044cf855f3ee4dc69263e604b1bf85f45146b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:42 +0000
Subject: [PATCH 26/57] fix: pigeons: write objective offsets and count the ids
 used by objective update subproofs

---
 pigeons/src/lib.rs   |  4 +++-
 pigeons/src/types.rs | 17 ++++++++++++++++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/pigeons/src/lib.rs b/pigeons/src/lib.rs
index f986fb5..03f80b4 100644
--- a/pigeons/src/lib.rs
+++ b/pigeons/src/lib.rs
@@ -508,7 +508,9 @@ where
         C: ConstraintLike<V>,
     {
         assert!(matches!(self.problem_type, ProblemType::Optimization));
-        writeln!(self.writer, "obju {update}")
+        writeln!(self.writer, "obju {update}")?;
+        self.next_id += update.n_subproof_ids();
+        Ok(())
     }
 
     /// Adds a set of substitutions
diff --git a/pigeons/src/types.rs b/pigeons/src/types.rs
index 0d38217..003354b 100644
--- a/pigeons/src/types.rs
+++ b/pigeons/src/types.rs
@@ -745,6 +745,17 @@ where
         )
     }
 
+    /// Gets the number of constraint IDs that are introduced by the subproof
+    pub(crate) fn n_subproof_ids(&self) -> usize {
+        match self {
+            // negated proof goal + 1 for each derivation
+            ObjectiveUpdate::New(_, subproof, _) => {
+                subproof.iter().map(|goal| 1 + goal.n_derivations()).sum()
+            }
+            ObjectiveUpdate::Diff(..) => 0,
+        }
+    }
+
     /// Creates an objective update by specifying the difference to the old objective
     pub fn diff(diff: O) -> Self {
         ObjectiveUpdate::Diff(diff, std::marker::PhantomData)
@@ -902,7 +913,11 @@ impl<V: VarLike, O: ObjectiveLike<V>> std::fmt::Display for ObjFormatter<'_, V,
             self.obj
                 .sum_iter()
                 .format_with(" ", |(cf, ax), f| f(&format_args!("{cf} {ax}")))
-        )
+        )?;
+        match self.obj.offset() {
+            0 => Ok(()),
+            offset => write!(f, " {offset}"),
+        }
     }
 }
 
-- 
2.43.0


From 28e1ba3c04a405020d93ecebd8aa2efc67bc4ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:41 +0000
Subject: [PATCH 27/57] fix: certified encoding of single constraints (trivial
 bounds, common coefficients, weighted roots)

---
 src/encodings/card/cert.rs          |  6 ++++-
 src/encodings/card/simulators.rs    |  3 +++
 src/encodings/card/totalizer/mod.rs | 37 ++++++++++++++++++++++-------
 src/encodings/pb/cert.rs            | 33 +++++++++++++++++++++++--
 src/encodings/pb/gte/mod.rs         | 18 +++++++-------
 src/encodings/pb/simulators.rs      |  6 +++++
 src/encodings/totdb/cert.rs         |  8 +++++--
 7 files changed, 88 insertions(+), 23 deletions(-)

diff --git a/src/encodings/card/cert.rs b/src/encodings/card/cert.rs
index e8fbac3..baa8d22 100644
--- a/src/encodings/card/cert.rs
+++ b/src/encodings/card/cert.rs
@@ -339,7 +339,11 @@ pub fn encode_cardinality_constraint<
     }
     if constr.is_unsat() {
         let empty = crate::clause![];
-        let unsat_id = proof.reverse_unit_prop(&empty, [id.into()])?;
+        let unsat_id = if matches!(constr, CardConstraint::Eq(_)) {
+            proof.reverse_unit_prop(&empty, [id.into(), (id + 1).into()])?
+        } else {
+            proof.reverse_unit_prop(&empty, [id.into()])?
+        };
         collector.add_cert_clause(empty, unsat_id)?;
         return Ok(());
     }
diff --git a/src/encodings/card/simulators.rs b/src/encodings/card/simulators.rs
index 3a06363..f72c1a1 100644
--- a/src/encodings/card/simulators.rs
+++ b/src/encodings/card/simulators.rs
@@ -286,6 +286,9 @@ where
         W: std::io::Write,
         Self: FromIterator<Lit> + Sized,
     {
+        if constr.0.is_unsat() {
+            return Err(crate::encodings::cert::ConstraintEncodingError::Unsat);
+        }
         let constr = (constr.0.invert(), constr.1);
         CE::encode_ub_constr_cert(constr, collector, var_manager, proof)?;
         Ok(())
diff --git a/src/encodings/card/totalizer/mod.rs b/src/encodings/card/totalizer/mod.rs
index c61f918..eba92ec 100644
--- a/src/encodings/card/totalizer/mod.rs
+++ b/src/encodings/card/totalizer/mod.rs
@@ -452,11 +452,16 @@ impl super::cert::BoundUpper for Totalizer {
 
         use crate::types::Var;
 
-        // TODO: properly take care of constraints where no structure is built
-
         let (constr, id) = constr;
         let (lits, ub) = constr.decompose();
-        if ub > lits.len() {
+        if ub >= lits.len() {
+            return Ok(());
+        }
+        if let [lit] = lits[..] {
+            // no structure is built over a single literal
+            let unit_cl = crate::clause![!lit];
+            let unit_id = proof.reverse_unit_prop(&unit_cl, [id.into()])?;
+            collector.add_cert_clause(unit_cl, unit_id)?;
             return Ok(());
         }
         let mut enc = Self::from_iter(lits);
@@ -557,13 +562,21 @@ impl super::cert::BoundLower for Totalizer {
 
         use crate::types::Var;
 
-        // TODO: properly take care of constraints where no structure is built
-
         let (constr, id) = constr;
         let (lits, lb) = constr.decompose();
         if lb > lits.len() {
             return Err(crate::encodings::cert::ConstraintEncodingError::Unsat);
         }
+        if lb == 0 {
+            return Ok(());
+        }
+        if let [lit] = lits[..] {
+            // no structure is built over a single literal
+            let unit_cl = crate::clause![lit];
+            let unit_id = proof.reverse_unit_prop(&unit_cl, [id.into()])?;
+            collector.add_cert_clause(unit_cl, unit_id)?;
+            return Ok(());
+        }
         let mut enc = Self::from_iter(lits);
         enc.encode_lb_cert(lb..=lb, collector, var_manager, proof)?;
         let (olit, sem_defs) = enc
@@ -665,13 +678,19 @@ impl super::cert::BoundBoth for Totalizer {
 
         use crate::types::Var;
 
-        // TODO: properly take care of constraints where no structure is built
-
         let (constr, id) = constr;
-        let (lits, b) = constr.decompose();
-        if b > lits.len() {
+        if constr.is_unsat() {
             return Err(crate::encodings::cert::ConstraintEncodingError::Unsat);
         }
+        if constr.is_positive_assignment() || constr.is_negative_assignment() {
+            // (at least) one of the bounds is trivially satisfied
+            use super::cert::{BoundLower, BoundUpper};
+
+            let (lb_c, ub_c) = constr.split();
+            Self::encode_ub_constr_cert((ub_c, id + 1), collector, var_manager, proof)?;
+            return Self::encode_lb_constr_cert((lb_c, id), collector, var_manager, proof);
+        }
+        let (lits, b) = constr.decompose();
         let mut enc = Self::from_iter(lits);
         enc.encode_both_cert(b..=b, collector, var_manager, proof)?;
         // UB
diff --git a/src/encodings/pb/cert.rs b/src/encodings/pb/cert.rs
index a873d20..d3097ea 100644
--- a/src/encodings/pb/cert.rs
+++ b/src/encodings/pb/cert.rs
@@ -1,5 +1,7 @@
 //! # Certified CNF Encodings for Pseudo-Boolean Constraints
 
+use pigeons::OperationSequence;
+
 use crate::encodings::card;
 use crate::encodings::cert::CollectClauses;
 use crate::encodings::cert::ConstraintEncodingError;
@@ -7,6 +9,7 @@ use crate::encodings::cert::EncodingError;
 use crate::instances::ManageVars;
 use crate::types::constraints::PbConstraint;
 use crate::types::Lit;
+use crate::types::Var;
 
 /// Trait for certified PB encodings that allow upper bounding of the form `sum of lits <=
 /// ub`
@@ -353,7 +356,11 @@ pub fn encode_pb_constraint<
     }
     if constr.is_unsat() {
         let empty = crate::clause![];
-        let unsat_id = proof.reverse_unit_prop(&empty, [id.into()])?;
+        let unsat_id = if matches!(constr, PbConstraint::Eq(_)) {
+            proof.reverse_unit_prop(&empty, [id.into(), (id + 1).into()])?
+        } else {
+            proof.reverse_unit_prop(&empty, [id.into()])?
+        };
         collector.add_cert_clause(empty, unsat_id)?;
         return Ok(());
     }
@@ -383,7 +390,29 @@ pub fn encode_pb_constraint<
         return Ok(());
     }
     if constr.is_card() {
-        let card = crate::utils::unreachable_err!(constr.into_card_constr());
+        let weight = match &constr {
+            PbConstraint::Ub(constr) => constr.find_unit_weight(),
+            PbConstraint::Lb(constr) => constr.find_unit_weight(),
+            PbConstraint::Eq(constr) => constr.find_unit_weight(),
+        }
+        .expect("cardinality constraint has a unit weight");
+        let is_eq = matches!(constr, PbConstraint::Eq(_));
+        // the cardinality constraint(s) can be derived by division
+        let bound = OperationSequence::<Var>::from(id) / weight;
+        let eq_ub = OperationSequence::<Var>::from(id + 1) / weight;
+        let Ok(card) = constr.into_card_constr() else {
+            // equality with a bound that is not divisible by the weight
+            debug_assert!(is_eq);
+            let unsat_id = proof.operations(&(bound + eq_ub))?;
+            collector.add_cert_clause(crate::clause![], unsat_id)?;
+            return Ok(());
+        };
+        if weight > 1 {
+            id = proof.operations(&bound)?;
+            if is_eq {
+                proof.operations(&eq_ub)?;
+            }
+        }
         return card::cert::default_encode_cardinality_constraint(
             (card, id),
             collector,
diff --git a/src/encodings/pb/gte/mod.rs b/src/encodings/pb/gte/mod.rs
index 40e5d32..26f8baf 100644
--- a/src/encodings/pb/gte/mod.rs
+++ b/src/encodings/pb/gte/mod.rs
@@ -445,31 +445,27 @@ impl super::cert::BoundUpper for GeneralizedTotalizer {
         use crate::encodings::pb::BoundUpper;
         use crate::types::Var;
 
-        // TODO: properly take care of constraints where no structure is built
-
         let (constr, mut id) = constr;
         let (lits, ub) = constr.decompose();
         if ub < 0 {
             return Err(crate::encodings::cert::ConstraintEncodingError::Unsat);
         }
         let ub = ub.unsigned_abs();
-        if ub > lits.iter().fold(0, |sum, (_, w)| sum + *w) {
+        if ub >= lits.iter().fold(0, |sum, (_, w)| sum + *w) {
             return Ok(());
         }
         let mut enc = Self::from_iter(lits);
         enc.encode_ub_cert(ub..=ub, collector, var_manager, proof)?;
+        // the semantics are defined over the root node, which might be connected with a weight
+        let root_weight = enc.root.map_or(1, |con| con.multiplier());
         let mut val = enc.next_higher_output(ub);
         for unit in enc
             .enforce_ub(ub)
             .expect("should have caught special case before here")
         {
-            let (olit, sem_defs) = enc
-                .output_proof_details(val)
-                .expect("encoded just before, so should be fine");
             let unit_cl = crate::clause![unit];
-            let unit_id = if unit.var() < olit.var() {
+            let unit_id = if let Some(&weight) = enc.lit_buffer.get(&!unit) {
                 // input literal with weight larger than bound
-                let weight = *enc.lit_buffer.get(&!unit).unwrap();
                 let unit_id = proof.reverse_unit_prop(&unit_cl, [id.into()])?;
                 // simplify main constraint
                 #[cfg(feature = "verbose-proofs")]
@@ -482,11 +478,15 @@ impl super::cert::BoundUpper for GeneralizedTotalizer {
                 unit_id
             } else {
                 // output literal
+                let (olit, sem_defs) = enc
+                    .output_proof_details(val)
+                    .expect("encoded just before, so should be fine");
                 // NOTE: by the time we're here, all buffered literals have been removed from `id`
                 debug_assert_eq!(!unit, olit);
                 let unit_id = proof.operations(
                     &((pigeons::OperationSequence::<Var>::from(id)
-                        + sem_defs.only_if_def.unwrap())
+                        + pigeons::OperationSequence::<Var>::from(sem_defs.only_if_def.unwrap())
+                            * root_weight)
                         / val),
                 )?;
                 #[cfg(feature = "verbose-proofs")]
diff --git a/src/encodings/pb/simulators.rs b/src/encodings/pb/simulators.rs
index 3fc4e56..24f59fd 100644
--- a/src/encodings/pb/simulators.rs
+++ b/src/encodings/pb/simulators.rs
@@ -1030,6 +1030,9 @@ where
         Self: FromIterator<(Lit, usize)> + Sized,
     {
         let (constr, id) = constr;
+        if constr.is_unsat() {
+            return Err(crate::encodings::cert::ConstraintEncodingError::Unsat);
+        }
         let constr = constr.extend_to_card_constr();
         CE::encode_ub_constr_cert((constr, id), collector, var_manager, proof)?;
         Ok(())
@@ -1094,6 +1097,9 @@ where
         Self: FromIterator<(Lit, usize)> + Sized,
     {
         let (constr, id) = constr;
+        if constr.is_tautology() {
+            return Ok(());
+        }
         let constr = constr.extend_to_card_constr();
         CE::encode_lb_constr_cert((constr, id), collector, var_manager, proof)
     }
diff --git a/src/encodings/totdb/cert.rs b/src/encodings/totdb/cert.rs
index b6b18a6..56d3d55 100644
--- a/src/encodings/totdb/cert.rs
+++ b/src/encodings/totdb/cert.rs
@@ -395,11 +395,15 @@ impl super::Db {
     where
         W: std::io::Write,
     {
-        let iter = self
+        let mut iter = self
             .semantic_defs
             .values()
             .flat_map(SemDefs::iter)
-            .map(Into::into);
+            .map(Into::into)
+            .peekable();
+        if iter.peek().is_none() {
+            return Ok(());
+        }
         proof.delete_ids::<Var, crate::types::Clause, _, _>(iter, None)?;
         self.semantic_defs.clear();
         Ok(())
-- 
2.43.0


From 47ddb02b9d826fbfd720bd70a93f2b2aab049995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:56 +0000
Subject: [PATCH 28/57] fix: minisat, glucose: values of negative literals,
 unknown variables, stale cores, limits and interrupts

---
 glucose/vendor/cglucose4.cc        | 38 ++++++++++++++++++++++++------
 minisat/vendor/minisat/cminisat.cc | 38 ++++++++++++++++++++++++------
 2 files changed, 62 insertions(+), 14 deletions(-)

diff --git a/glucose/vendor/cglucose4.cc b/glucose/vendor/cglucose4.cc
index 85953ca..c76d61e 100644
--- a/glucose/vendor/cglucose4.cc
+++ b/glucose/vendor/cglucose4.cc
@@ -64,7 +64,7 @@ void cglucosesimp4_release(CGlucoseSimp4 *handle) {
 
 void cglucose4_ensure_vars(Solver *solver, const Lit *lits, size_t n_lits) {
   // find max variable in clause
-  Var max_v = 0;
+  Var max_v = var_Undef;
   for (size_t i = 0; i < n_lits; i++) {
     if (var(lits[i]) > max_v) {
       max_v = var(lits[i]);
@@ -116,6 +116,8 @@ int cglucose4_solve(CGlucose4 *handle, const c_Lit *c_assumps,
   try {
     cglucose4_ensure_vars(solver, assumps, n_assumps);
     res = solver->solveLimited(assumps, (int)n_assumps);
+    // an interrupt only affects a single call
+    solver->clearInterrupt();
   } catch (OutOfMemoryException &) {
     return OUT_OF_MEM;
   }
@@ -135,8 +137,12 @@ int cglucosesimp4_solve(CGlucoseSimp4 *handle, const c_Lit *assumps,
 
 int cglucose4_val(CGlucose4 *handle, c_Lit lit) {
   Solver *solver = (Solver *)handle;
-  Var v = var(Lit{lit.x});
-  lbool val = solver->modelValue(v);
+  Lit l = Lit{lit.x};
+  // the last model only covers variables that were known when solving
+  if (var(l) >= solver->model.size()) {
+    return T_UNASSIGNED;
+  }
+  lbool val = solver->modelValue(l);
   if (val == l_True) {
     return T_TRUE;
   }
@@ -153,6 +159,12 @@ int cglucosesimp4_val(CGlucoseSimp4 *handle, c_Lit lit) {
 void cglucose4_conflict(CGlucose4 *handle, const c_Lit **conflict,
                         size_t *conflict_len) {
   Solver *solver = (Solver *)handle;
+  // once the clauses are unsatisfiable, solving does not reset the last conflict
+  if (!solver->okay()) {
+    *conflict = nullptr;
+    *conflict_len = 0;
+    return;
+  }
   *conflict = (const c_Lit *)solver->conflict.ptr();
   *conflict_len = solver->conflict.size();
 }
@@ -219,19 +231,27 @@ int cglucosesimp4_n_vars(CGlucoseSimp4 *handle) {
 }
 
 void cglucose4_set_conf_limit(CGlucose4 *handle, int64_t limit) {
-  ((Solver *)handle)->setConfBudget(limit);
+  // a negative limit is no limit, budgets are relative to the current statistics
+  Solver *solver = (Solver *)handle;
+  solver->setConfBudget(limit < 0 ? -1 - (int64_t)solver->conflicts : limit);
 }
 
 void cglucosesimp4_set_conf_limit(CGlucoseSimp4 *handle, int64_t limit) {
-  ((SimpSolver *)handle)->setConfBudget(limit);
+  // a negative limit is no limit, budgets are relative to the current statistics
+  SimpSolver *solver = (SimpSolver *)handle;
+  solver->setConfBudget(limit < 0 ? -1 - (int64_t)solver->conflicts : limit);
 }
 
 void cglucose4_set_prop_limit(CGlucose4 *handle, int64_t limit) {
-  ((Solver *)handle)->setPropBudget(limit);
+  // a negative limit is no limit, budgets are relative to the current statistics
+  Solver *solver = (Solver *)handle;
+  solver->setPropBudget(limit < 0 ? -1 - (int64_t)solver->propagations : limit);
 }
 
 void cglucosesimp4_set_prop_limit(CGlucoseSimp4 *handle, int64_t limit) {
-  ((SimpSolver *)handle)->setPropBudget(limit);
+  // a negative limit is no limit, budgets are relative to the current statistics
+  SimpSolver *solver = (SimpSolver *)handle;
+  solver->setPropBudget(limit < 0 ? -1 - (int64_t)solver->propagations : limit);
 }
 
 void cglucose4_set_no_limit(CGlucose4 *handle) {
@@ -281,6 +301,9 @@ int cglucosesimp4_is_frozen(CGlucoseSimp4 *handle, c_Var var) {
 }
 
 int cglucosesimp4_is_eliminated(CGlucoseSimp4 *handle, c_Var var) {
+  if (var >= ((SimpSolver *)handle)->nVars()) {
+    return 0;
+  }
   return ((SimpSolver *)handle)->isEliminated(var);
 }
 
@@ -290,6 +313,7 @@ int cglucose4_propcheck(CGlucose4 *handle, const c_Lit *assumps,
   Solver *solver = (Solver *)handle;
   bool res;
   try {
+    cglucose4_ensure_vars(solver, (Lit *)assumps, n_assumps);
     res = solver->propCheck((Lit *)assumps, n_assumps, psaving,
                             (void (*)(void *, Lit))prop_cb, cb_data);
   } catch (OutOfMemoryException &) {
diff --git a/minisat/vendor/minisat/cminisat.cc b/minisat/vendor/minisat/cminisat.cc
index 5b998e9..0b71269 100644
--- a/minisat/vendor/minisat/cminisat.cc
+++ b/minisat/vendor/minisat/cminisat.cc
@@ -62,7 +62,7 @@ void cminisatsimp_release(CMinisatSimp *handle) { delete (SimpSolver *)handle; }
 
 void cminisat_ensure_vars(Solver *solver, const Lit *lits, size_t n_lits) {
   // find max variable in clause
-  Var max_v = 0;
+  Var max_v = var_Undef;
   for (size_t i = 0; i < n_lits; i++) {
     if (var(lits[i]) > max_v) {
       max_v = var(lits[i]);
@@ -112,6 +112,8 @@ int cminisat_solve(CMinisat *handle, const c_Lit *c_assumps, size_t n_assumps) {
   try {
     cminisat_ensure_vars(solver, assumps, n_assumps);
     res = solver->solveLimited(assumps, (int)n_assumps);
+    // an interrupt only affects a single call
+    solver->clearInterrupt();
   } catch (OutOfMemoryException &) {
     return OUT_OF_MEM;
   }
@@ -131,8 +133,12 @@ int cminisatsimp_solve(CMinisatSimp *handle, const c_Lit *assumps,
 
 int cminisat_val(CMinisat *handle, c_Lit lit) {
   Solver *solver = (Solver *)handle;
-  Var v = var(Lit{lit.x});
-  lbool val = solver->modelValue(v);
+  Lit l = Lit{lit.x};
+  // the last model only covers variables that were known when solving
+  if (var(l) >= solver->model.size()) {
+    return T_UNASSIGNED;
+  }
+  lbool val = solver->modelValue(l);
   if (val == l_True) {
     return T_TRUE;
   }
@@ -149,6 +155,12 @@ int cminisatsimp_val(CMinisatSimp *handle, c_Lit lit) {
 void cminisat_conflict(CMinisat *handle, const c_Lit **conflict,
                        size_t *conflict_len) {
   Solver *solver = (Solver *)handle;
+  // once the clauses are unsatisfiable, solving does not reset the last conflict
+  if (!solver->okay()) {
+    *conflict = nullptr;
+    *conflict_len = 0;
+    return;
+  }
   *conflict = (const c_Lit *)solver->conflict.toVec().ptr();
   *conflict_len = solver->conflict.size();
 }
@@ -215,19 +227,27 @@ int cminisatsimp_n_vars(CMinisatSimp *handle) {
 }
 
 void cminisat_set_conf_limit(CMinisat *handle, int64_t limit) {
-  ((Solver *)handle)->setConfBudget(limit);
+  // a negative limit is no limit, budgets are relative to the current statistics
+  Solver *solver = (Solver *)handle;
+  solver->setConfBudget(limit < 0 ? -1 - (int64_t)solver->conflicts : limit);
 }
 
 void cminisatsimp_set_conf_limit(CMinisatSimp *handle, int64_t limit) {
-  ((SimpSolver *)handle)->setConfBudget(limit);
+  // a negative limit is no limit, budgets are relative to the current statistics
+  SimpSolver *solver = (SimpSolver *)handle;
+  solver->setConfBudget(limit < 0 ? -1 - (int64_t)solver->conflicts : limit);
 }
 
 void cminisat_set_prop_limit(CMinisat *handle, int64_t limit) {
-  ((Solver *)handle)->setPropBudget(limit);
+  // a negative limit is no limit, budgets are relative to the current statistics
+  Solver *solver = (Solver *)handle;
+  solver->setPropBudget(limit < 0 ? -1 - (int64_t)solver->propagations : limit);
 }
 
 void cminisatsimp_set_prop_limit(CMinisatSimp *handle, int64_t limit) {
-  ((SimpSolver *)handle)->setPropBudget(limit);
+  // a negative limit is no limit, budgets are relative to the current statistics
+  SimpSolver *solver = (SimpSolver *)handle;
+  solver->setPropBudget(limit < 0 ? -1 - (int64_t)solver->propagations : limit);
 }
 
 void cminisat_set_no_limit(CMinisat *handle) {
@@ -277,6 +297,9 @@ int cminisatsimp_is_frozen(CMinisatSimp *handle, c_Var var) {
 }
 
 int cminisatsimp_is_eliminated(CMinisatSimp *handle, c_Var var) {
+  if (var >= ((SimpSolver *)handle)->nVars()) {
+    return 0;
+  }
   return ((SimpSolver *)handle)->isEliminated(var);
 }
 
@@ -286,6 +309,7 @@ int cminisat_propcheck(CMinisat *handle, const c_Lit *assumps, size_t n_assumps,
   Solver *solver = (Solver *)handle;
   bool res;
   try {
+    cminisat_ensure_vars(solver, (Lit *)assumps, n_assumps);
     res = solver->propCheck((Lit *)assumps, n_assumps, psaving,
                             (void (*)(void *, Lit))prop_cb, cb_data);
   } catch (OutOfMemoryException &) {
-- 
2.43.0


From 37c2a66347d4cd962e09309799e2ded3003ca38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:56 +0000
Subject: [PATCH 29/57] fix: minisat, glucose: refuse clauses and propagation
 over eliminated variables

---
 glucose/src/lib.rs  |  8 ++++++++
 glucose/src/simp.rs | 10 ++++++++++
 minisat/src/lib.rs  |  8 ++++++++
 minisat/src/simp.rs | 10 ++++++++++
 4 files changed, 36 insertions(+)

diff --git a/glucose/src/lib.rs b/glucose/src/lib.rs
index e6bc642..7bb7cc2 100644
--- a/glucose/src/lib.rs
+++ b/glucose/src/lib.rs
@@ -46,6 +46,14 @@ pub struct InvalidApiReturn {
 #[error("assumption variable {0} has been eliminated by glucose simplification")]
 pub struct AssumpEliminated(rustsat::types::Var);
 
+/// Error returned if a clause over a variable that was eliminated in preprocessing is added
+///
+/// Glucose does not support adding clauses over eliminated variables. To prevent this, variables that
+/// will be used in clauses after solving can be frozen via [`rustsat::solvers::FreezeVar`]
+#[derive(thiserror::Error, Clone, Copy, PartialEq, Eq, Debug)]
+#[error("clause variable {0} has been eliminated by glucose simplification")]
+pub struct ClauseVarEliminated(rustsat::types::Var);
+
 #[derive(Debug, PartialEq, Eq, Default)]
 enum InternalSolverState {
     #[default]
diff --git a/glucose/src/simp.rs b/glucose/src/simp.rs
index e9da68f..e4a5b81 100644
--- a/glucose/src/simp.rs
+++ b/glucose/src/simp.rs
@@ -176,6 +176,11 @@ impl rustsat::solvers::Solve for Glucose {
         C: AsRef<Cl> + ?Sized,
     {
         let clause = clause.as_ref();
+        for l in clause {
+            if self.var_eliminated(l.var()) {
+                return Err(crate::ClauseVarEliminated(l.var()).into());
+            }
+        }
         // Update wrapper-internal state
         self.stats.n_clauses += 1;
         self.update_avg_clause_len(clause);
@@ -404,6 +409,11 @@ impl rustsat::solvers::Propagate for Glucose {
         assumps: &[Lit],
         phase_saving: bool,
     ) -> anyhow::Result<rustsat::solvers::PropagateResult> {
+        for a in assumps {
+            if self.var_eliminated(a.var()) {
+                return Err(crate::AssumpEliminated(a.var()).into());
+            }
+        }
         let start = rustsat::utils::Timer::now();
         self.state = crate::InternalSolverState::Input;
         // Propagate with glucose backend
diff --git a/minisat/src/lib.rs b/minisat/src/lib.rs
index 36a1264..5602988 100644
--- a/minisat/src/lib.rs
+++ b/minisat/src/lib.rs
@@ -46,6 +46,14 @@ pub struct InvalidApiReturn {
 #[error("assumption variable {0} has been eliminated by minisat simplification")]
 pub struct AssumpEliminated(rustsat::types::Var);
 
+/// Error returned if a clause over a variable that was eliminated in preprocessing is added
+///
+/// Minisat does not support adding clauses over eliminated variables. To prevent this, variables that
+/// will be used in clauses after solving can be frozen via [`rustsat::solvers::FreezeVar`]
+#[derive(thiserror::Error, Clone, Copy, PartialEq, Eq, Debug)]
+#[error("clause variable {0} has been eliminated by minisat simplification")]
+pub struct ClauseVarEliminated(rustsat::types::Var);
+
 #[derive(Debug, PartialEq, Eq, Default)]
 enum InternalSolverState {
     #[default]
diff --git a/minisat/src/simp.rs b/minisat/src/simp.rs
index fb0b90e..eff21ff 100644
--- a/minisat/src/simp.rs
+++ b/minisat/src/simp.rs
@@ -177,6 +177,11 @@ impl rustsat::solvers::Solve for Minisat {
         C: AsRef<Cl> + ?Sized,
     {
         let clause = clause.as_ref();
+        for l in clause {
+            if self.var_eliminated(l.var()) {
+                return Err(crate::ClauseVarEliminated(l.var()).into());
+            }
+        }
         // Update wrapper-internal state
         self.stats.n_clauses += 1;
         self.update_avg_clause_len(clause);
@@ -405,6 +410,11 @@ impl rustsat::solvers::Propagate for Minisat {
         assumps: &[Lit],
         phase_saving: bool,
     ) -> anyhow::Result<rustsat::solvers::PropagateResult> {
+        for a in assumps {
+            if self.var_eliminated(a.var()) {
+                return Err(crate::AssumpEliminated(a.var()).into());
+            }
+        }
         let start = rustsat::utils::Timer::now();
         self.state = crate::InternalSolverState::Input;
         // Propagate with minisat backend
-- 
2.43.0


From 145f5358ba8bcc4fd2cf7333bfacb329d2c840f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:56 +0000
Subject: [PATCH 30/57] fix: batsat: average clause length

---
 batsat/src/lib.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/batsat/src/lib.rs b/batsat/src/lib.rs
index 6c508bb..f08c060 100644
--- a/batsat/src/lib.rs
+++ b/batsat/src/lib.rs
@@ -63,6 +63,7 @@ pub struct Solver<Cb: batsat::Callbacks> {
     n_sat: usize,
     n_unsat: usize,
     n_terminated: usize,
+    n_added: usize,
     avg_clause_len: f32,
     cpu_time: std::time::Duration,
 }
@@ -97,11 +98,11 @@ impl<Cb: batsat::Callbacks> Solver<Cb> {
     #[expect(clippy::cast_precision_loss)]
     #[inline]
     fn update_avg_clause_len(&mut self, clause: &Cl) {
-        use rustsat::solvers::SolveStats;
-
-        self.avg_clause_len = (self.avg_clause_len * ((self.n_clauses()) as f32)
+        // the number of clauses in the backend does not count, e.g., unit clauses
+        self.n_added += 1;
+        self.avg_clause_len = (self.avg_clause_len * ((self.n_added - 1) as f32)
             + clause.len() as f32)
-            / (self.n_clauses() + 1) as f32;
+            / self.n_added as f32;
     }
 
     fn solve_track_stats(&mut self, assumps: &[Lit]) -> SolverResult {
-- 
2.43.0


From c75f280b69cfef4062fd85862e1e8058b27cf575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:56 +0000
Subject: [PATCH 31/57] fix: cadical: learner detaching, simplifying under
 assumptions, temporary clauses in cached results, flipping of new variables

---
 cadical/src/lib.rs | 75 ++++++++++++++++++++++++++++------------------
 1 file changed, 46 insertions(+), 29 deletions(-)

diff --git a/cadical/src/lib.rs b/cadical/src/lib.rs
index c15b779..343d693 100644
--- a/cadical/src/lib.rs
+++ b/cadical/src/lib.rs
@@ -155,7 +155,8 @@ enum InternalSolverState {
     Configuring,
     Input,
     Sat,
-    Unsat(Vec<Lit>),
+    /// Unsatisfiable with the given core and whether the temporary clause is part of the core
+    Unsat(Vec<Lit>, bool),
 }
 
 impl InternalSolverState {
@@ -164,7 +165,7 @@ impl InternalSolverState {
             InternalSolverState::Configuring => rustsat::solvers::SolverState::Configuring,
             InternalSolverState::Input => rustsat::solvers::SolverState::Input,
             InternalSolverState::Sat => rustsat::solvers::SolverState::Sat,
-            InternalSolverState::Unsat(_) => rustsat::solvers::SolverState::Unsat,
+            InternalSolverState::Unsat(..) => rustsat::solvers::SolverState::Unsat,
         }
     }
 }
@@ -182,6 +183,8 @@ pub struct CaDiCaL<'term, 'learn> {
     state: InternalSolverState,
     terminate_cb: OptTermCallbackStore<'term>,
     learner_cb: OptLearnCallbackStore<'learn>,
+    /// The number of variables that the current assignment covers
+    model_vars: c_int,
     stats: rustsat::solvers::SolverStats,
 }
 
@@ -225,6 +228,7 @@ impl Default for CaDiCaL<'_, '_> {
             state: InternalSolverState::default(),
             terminate_cb: None,
             learner_cb: None,
+            model_vars: 0,
             stats: rustsat::solvers::SolverStats::default(),
         };
         let quiet = c"quiet";
@@ -251,6 +255,19 @@ impl CaDiCaL<'_, '_> {
         Ok(core)
     }
 
+    fn set_sat(&mut self) {
+        self.state = InternalSolverState::Sat;
+        self.model_vars = unsafe { ffi::ccadical_vars(self.handle) };
+    }
+
+    /// Gets the internal state for an unsatisfiable result under assumptions
+    fn unsat_state(&self, assumps: &[Lit]) -> Result<InternalSolverState, InvalidApiReturn> {
+        Ok(InternalSolverState::Unsat(
+            self.get_core_assumps(assumps)?,
+            unsafe { ffi::ccadical_constraint_failed(self.handle) } != 0,
+        ))
+    }
+
     #[expect(clippy::cast_precision_loss)]
     #[inline]
     fn update_avg_clause_len(&mut self, clause: &Cl) {
@@ -301,9 +318,7 @@ impl CaDiCaL<'_, '_> {
     /// Returns [`rustsat::solvers::StateError`] if the solver is not in [`rustsat::solvers::SolverState::Unsat`].
     pub fn tmp_clause_in_core(&mut self) -> anyhow::Result<bool> {
         match &self.state {
-            InternalSolverState::Unsat(_) => unsafe {
-                Ok(ffi::ccadical_constraint_failed(self.handle) != 0)
-            },
+            InternalSolverState::Unsat(_, tmp_in_core) => Ok(*tmp_in_core),
             state => Err(rustsat::solvers::StateError {
                 required_state: rustsat::solvers::SolverState::Unsat,
                 actual_state: state.to_external(),
@@ -475,8 +490,10 @@ impl CaDiCaL<'_, '_> {
         if let InternalSolverState::Sat = self.state {
             return Ok(SolverResult::Sat);
         }
-        if let InternalSolverState::Unsat(_) = self.state {
-            return Ok(SolverResult::Unsat);
+        if let InternalSolverState::Unsat(core, tmp_in_core) = &self.state {
+            if core.is_empty() && !tmp_in_core {
+                return Ok(SolverResult::Unsat);
+            }
         }
         let rounds: c_int = rounds.try_into()?;
         // Simplify with CaDiCaL backend
@@ -486,11 +503,11 @@ impl CaDiCaL<'_, '_> {
                 Ok(SolverResult::Interrupted)
             }
             10 => {
-                self.state = InternalSolverState::Sat;
+                self.set_sat();
                 Ok(SolverResult::Sat)
             }
             20 => {
-                self.state = InternalSolverState::Unsat(vec![]);
+                self.state = self.unsat_state(&[])?;
                 Ok(SolverResult::Unsat)
             }
             value => Err(InvalidApiReturn {
@@ -523,13 +540,6 @@ impl CaDiCaL<'_, '_> {
         assumps: &[Lit],
         rounds: u32,
     ) -> anyhow::Result<SolverResult> {
-        // If already solved, return state
-        if let InternalSolverState::Sat = self.state {
-            return Ok(SolverResult::Sat);
-        }
-        if let InternalSolverState::Unsat(_) = self.state {
-            return Ok(SolverResult::Unsat);
-        }
         let rounds: c_int = rounds.try_into()?;
         // Simplify with CaDiCaL backend under assumptions
         for a in assumps {
@@ -541,11 +551,11 @@ impl CaDiCaL<'_, '_> {
                 Ok(SolverResult::Interrupted)
             }
             10 => {
-                self.state = InternalSolverState::Sat;
+                self.set_sat();
                 Ok(SolverResult::Sat)
             }
             20 => {
-                self.state = InternalSolverState::Unsat(vec![]);
+                self.state = self.unsat_state(assumps)?;
                 Ok(SolverResult::Unsat)
             }
             value => Err(InvalidApiReturn {
@@ -716,8 +726,8 @@ impl rustsat::solvers::Solve for CaDiCaL<'_, '_> {
         if let InternalSolverState::Sat = self.state {
             return Ok(SolverResult::Sat);
         }
-        if let InternalSolverState::Unsat(core) = &self.state {
-            if core.is_empty() {
+        if let InternalSolverState::Unsat(core, tmp_in_core) = &self.state {
+            if core.is_empty() && !tmp_in_core {
                 return Ok(SolverResult::Unsat);
             }
         }
@@ -733,12 +743,12 @@ impl rustsat::solvers::Solve for CaDiCaL<'_, '_> {
             }
             10 => {
                 self.stats.n_sat += 1;
-                self.state = InternalSolverState::Sat;
+                self.set_sat();
                 Ok(SolverResult::Sat)
             }
             20 => {
                 self.stats.n_unsat += 1;
-                self.state = InternalSolverState::Unsat(vec![]);
+                self.state = self.unsat_state(&[])?;
                 Ok(SolverResult::Unsat)
             }
             value => Err(InvalidApiReturn {
@@ -807,12 +817,12 @@ impl rustsat::solvers::SolveIncremental for CaDiCaL<'_, '_> {
             }
             10 => {
                 self.stats.n_sat += 1;
-                self.state = InternalSolverState::Sat;
+                self.set_sat();
                 Ok(SolverResult::Sat)
             }
             20 => {
                 self.stats.n_unsat += 1;
-                self.state = InternalSolverState::Unsat(self.get_core_assumps(assumps)?);
+                self.state = self.unsat_state(assumps)?;
                 Ok(SolverResult::Unsat)
             }
             value => Err(InvalidApiReturn {
@@ -825,7 +835,7 @@ impl rustsat::solvers::SolveIncremental for CaDiCaL<'_, '_> {
 
     fn core(&mut self) -> anyhow::Result<Vec<Lit>> {
         match &self.state {
-            InternalSolverState::Unsat(core) => Ok(core.clone()),
+            InternalSolverState::Unsat(core, _) => Ok(core.clone()),
             other => Err(rustsat::solvers::StateError {
                 required_state: rustsat::solvers::SolverState::Unsat,
                 actual_state: other.to_external(),
@@ -885,8 +895,8 @@ impl<'term> rustsat::solvers::Terminate<'term> for CaDiCaL<'term, '_> {
     }
 
     fn detach_terminator(&mut self) {
-        self.terminate_cb = None;
         unsafe { ffi::ccadical_set_terminate(self.handle, std::ptr::null_mut(), None) }
+        self.terminate_cb = None;
     }
 }
 
@@ -936,8 +946,8 @@ impl<'learn> rustsat::solvers::Learn<'learn> for CaDiCaL<'_, 'learn> {
     }
 
     fn detach_learner(&mut self) {
-        self.terminate_cb = None;
         unsafe { ffi::ccadical_set_learn(self.handle, std::ptr::null_mut(), 0, None) }
+        self.learner_cb = None;
     }
 }
 
@@ -1004,6 +1014,10 @@ impl rustsat::solvers::FlipLit for CaDiCaL<'_, '_> {
             }
             .into());
         }
+        // Variables introduced after solving are not part of the assignment
+        if lit.var().to_ipasir() > self.model_vars {
+            return Ok(false);
+        }
         Ok(unsafe { ffi::ccadical_flip(self.handle, lit.to_ipasir()) } != 0)
     }
 
@@ -1015,6 +1029,10 @@ impl rustsat::solvers::FlipLit for CaDiCaL<'_, '_> {
             }
             .into());
         }
+        // Variables introduced after solving are not part of the assignment
+        if lit.var().to_ipasir() > self.model_vars {
+            return Ok(false);
+        }
         Ok(unsafe { ffi::ccadical_flippable(self.handle, lit.to_ipasir()) } != 0)
     }
 }
@@ -1089,7 +1107,6 @@ impl rustsat::solvers::Propagate for CaDiCaL<'_, '_> {
         }
         let res = handle_oom!(unsafe { ffi::ccadical_propagate(self.handle) });
         let mut props = Vec::new();
-        dbg!(res);
         match res {
             0 => {
                 let prop_ptr: *mut Vec<Lit> = &raw mut props;
@@ -1102,7 +1119,7 @@ impl rustsat::solvers::Propagate for CaDiCaL<'_, '_> {
                 }
             }
             10 => {
-                self.state = InternalSolverState::Sat;
+                self.set_sat();
                 let prop_ptr: *mut Vec<Lit> = &raw mut props;
                 unsafe {
                     ffi::ccadical_implied(
-- 
2.43.0


From 37db6d4279933e0577814338b05f1c0cc7e285fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:16 +0000
Subject: [PATCH 32/57] fix: incremental solver simulator: no variable is known
 after adding the empty clause

---
 src/solvers/simulators.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/solvers/simulators.rs b/src/solvers/simulators.rs
index 83d63b1..63992c9 100644
--- a/src/solvers/simulators.rs
+++ b/src/solvers/simulators.rs
@@ -73,12 +73,8 @@ impl<S, Init> Incremental<S, Init> {
 
     #[inline]
     fn update_max_var(&mut self, clause: &Cl) {
-        if self.stats.max_var.is_none() {
-            self.stats.max_var = Some(crate::types::Var::new(0));
-        }
-        let max_var = self.stats.max_var.as_mut().unwrap();
         for lit in clause {
-            *max_var = std::cmp::max(*max_var, lit.var());
+            self.stats.max_var = std::cmp::max(self.stats.max_var, Some(lit.var()));
         }
     }
 }
-- 
2.43.0


From fb8094dde3bf866169cc1106c1b44920a3d52051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:19 +0000
Subject: [PATCH 33/57] fix: glucose: out-of-bounds accesses with repeated
 assumptions

---
 glucose/vendor/core/Solver.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/glucose/vendor/core/Solver.cc b/glucose/vendor/core/Solver.cc
index c0bd7d5..c96bcf5 100755
--- a/glucose/vendor/core/Solver.cc
+++ b/glucose/vendor/core/Solver.cc
@@ -1794,6 +1794,10 @@ lbool Solver::solve_(bool do_simp, bool turn_off_simp) // Parameters are useless
     if(!ok) return l_False;
     double curTime = cpuTime();
 
+    // 'permDiff' is also indexed by decision level, and repeated assumptions
+    // open additional (empty) decision levels
+    permDiff.growTo(nVars() + assumptions.size() + 1, 0);
+
     solves++;
 
 
-- 
2.43.0


From 1c93d4f730805ca99ac6db5fb37f8cc3abb73912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:51 +0000
Subject: [PATCH 34/57] fix: maxsat: variables that only occur in the
 objective, empty clauses and don't-care values

---
 src/algs/maxsat.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/algs/maxsat.rs b/src/algs/maxsat.rs
index 829dc6b..c45c2f0 100644
--- a/src/algs/maxsat.rs
+++ b/src/algs/maxsat.rs
@@ -9,6 +9,7 @@ use crate::solvers::SolveStats;
 use crate::solvers::SolverResult;
 use crate::types::Assignment;
 use crate::types::Lit;
+use crate::types::TernaryVal;
 
 /// Trait for SAT-based MaxSAT solving algorithms
 pub trait Solve {
@@ -23,7 +24,7 @@ pub trait Solve {
 
 fn objective_value(obj: &[(Lit, usize)], sol: &Assignment) -> usize {
     obj.iter().fold(0, |sum, (l, w)| {
-        if sol.lit_value(*l) == crate::types::TernaryVal::True {
+        if sol.lit_value(*l) == TernaryVal::True {
             sum + w
         } else {
             sum
@@ -61,9 +62,21 @@ where
     type Solver = Solver;
 
     fn solve(solver: &mut Self::Solver, objective: &[(Lit, usize)]) -> Option<(Assignment, usize)> {
-        let Some(max_var) = solver.max_var() else {
-            return Some((Assignment::default(), 0));
+        // Variables that only appear in the objective must not be used by the encoding
+        let max_var = objective
+            .iter()
+            .map(|(l, _)| l.var())
+            .chain(solver.max_var())
+            .max();
+        let Some(max_var) = max_var else {
+            // No variables, but there might be an empty clause
+            return match solver.solve().expect("solver error while solving") {
+                SolverResult::Sat => Some((Assignment::default(), 0)),
+                SolverResult::Unsat => None,
+                SolverResult::Interrupted => unreachable!(),
+            };
         };
+        solver.reserve(max_var).expect("error reserving variables");
         let mut vm = crate::instances::BasicVarManager::from_next_free(max_var + 1);
         let mut enc: PbEnc = objective.iter().copied().collect();
 
@@ -72,7 +85,13 @@ where
         loop {
             match solver.solve().expect("solver error while solving") {
                 SolverResult::Sat => {
-                    let assign = solver.solution(max_var).expect("failed getting solution");
+                    let mut assign = solver.solution(max_var).expect("failed getting solution");
+                    // The cost is only fixed if all variables in the objective are assigned
+                    for (lit, _) in objective {
+                        if assign.lit_value(*lit) == TernaryVal::DontCare {
+                            assign.assign_lit(!*lit);
+                        }
+                    }
                     let val = objective_value(objective, &assign);
                     sol = Some((assign, val));
                     if val == 0 {
-- 
2.43.0


From ae9beed9c1acc33e934708ecf9fe3b3a1b723291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:01 +0000
Subject: [PATCH 35/57] fix: cadical: proof tracers are owned by the solver
 they are connected to

---
 cadical/src/lib.rs         |  5 ++++
 cadical/src/prooftracer.rs | 56 +++++++++++++++++++++++---------------
 2 files changed, 39 insertions(+), 22 deletions(-)

diff --git a/cadical/src/lib.rs b/cadical/src/lib.rs
index 343d693..3d314f5 100644
--- a/cadical/src/lib.rs
+++ b/cadical/src/lib.rs
@@ -186,6 +186,9 @@ pub struct CaDiCaL<'term, 'learn> {
     /// The number of variables that the current assignment covers
     model_vars: c_int,
     stats: rustsat::solvers::SolverStats,
+    /// The connected proof tracers, dropped after the solver has been released
+    #[cfg(cadical_version = "v2.0")]
+    tracers: Vec<prooftracer::ConnectedTracer>,
 }
 
 impl std::fmt::Debug for CaDiCaL<'_, '_> {
@@ -230,6 +233,8 @@ impl Default for CaDiCaL<'_, '_> {
             learner_cb: None,
             model_vars: 0,
             stats: rustsat::solvers::SolverStats::default(),
+            #[cfg(cadical_version = "v2.0")]
+            tracers: Vec::new(),
         };
         let quiet = c"quiet";
         unsafe { ffi::ccadical_set_option_ret(solver.handle, quiet.as_ptr(), 1) };
diff --git a/cadical/src/prooftracer.rs b/cadical/src/prooftracer.rs
index eb8bbcd..e649d42 100644
--- a/cadical/src/prooftracer.rs
+++ b/cadical/src/prooftracer.rs
@@ -131,20 +131,29 @@ pub trait TraceProof {
 /// been disconnected from the solver
 #[derive(Debug)]
 pub struct ProofTracerHandle<PT> {
-    c_class: *mut crate::ffi::CCaDiCaLTracer,
+    id: u64,
     tracer: *mut PT,
+}
+
+/// A tracer that is connected to (and owned by) a solver
+#[derive(Debug)]
+pub(crate) struct ConnectedTracer {
+    id: u64,
+    c_class: *mut crate::ffi::CCaDiCaLTracer,
     trait_ptr: *mut *mut dyn TraceProof,
 }
 
-impl<PT> Drop for ProofTracerHandle<PT> {
+impl Drop for ConnectedTracer {
     fn drop(&mut self) {
         let trait_ptr = unsafe { Box::from_raw(self.trait_ptr) };
-        drop(trait_ptr);
-        let tracer = unsafe { Box::from_raw(self.tracer) };
+        let tracer = unsafe { Box::from_raw(*trait_ptr) };
         drop(tracer);
     }
 }
 
+/// Identifies connected tracers, uniquely over all solvers
+static NEXT_TRACER_ID: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
+
 /// Error stating that a provided proof tracer was not connected to the solver
 #[derive(Clone, Copy, Debug, thiserror::Error)]
 #[error("the provided proof tracer handle is not connected to the solver")]
@@ -153,10 +162,8 @@ pub struct ProofTracerNotConnected;
 impl super::CaDiCaL<'_, '_> {
     /// Connects a proof tracer to the solver
     ///
-    /// **Note**: in order to not leak memory, dropping the [`ProofTracerHandle`] will drop the
-    /// proof tracer. Ensure therefore that the handle is not dropped before the solver is not used
-    /// anymore, or call [`Self::disconnect_proof_tracer`], if you do not need the proof tracer
-    /// anymore.
+    /// **Note**: the proof tracer is owned by the solver and is dropped together with the solver.
+    /// To get it back, call [`Self::disconnect_proof_tracer`].
     pub fn connect_proof_tracer<PT>(
         &mut self,
         tracer: PT,
@@ -177,11 +184,13 @@ impl super::CaDiCaL<'_, '_> {
                 antecedents,
             )
         };
-        ProofTracerHandle {
+        let id = NEXT_TRACER_ID.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
+        self.tracers.push(ConnectedTracer {
+            id,
             c_class: ptr,
-            tracer,
             trait_ptr,
-        }
+        });
+        ProofTracerHandle { id, tracer }
     }
 
     /// Disconnects a proof tracer from the solver
@@ -198,28 +207,31 @@ impl super::CaDiCaL<'_, '_> {
     where
         PT: TraceProof + 'static,
     {
-        if !unsafe { crate::ffi::ccadical_disconnect_proof_tracer(self.handle, handle.c_class) } {
+        let Some(pos) = self.tracers.iter().position(|t| t.id == handle.id) else {
             return Err(ProofTracerNotConnected);
-        }
-        let trait_ptr = unsafe { Box::from_raw(handle.trait_ptr) };
+        };
+        // avoid dropping tracer in drop implementation
+        let connected = std::mem::ManuallyDrop::new(self.tracers.swap_remove(pos));
+        unsafe { crate::ffi::ccadical_disconnect_proof_tracer(self.handle, connected.c_class) };
+        let trait_ptr = unsafe { Box::from_raw(connected.trait_ptr) };
         drop(trait_ptr);
         let tracer = unsafe { Box::from_raw(handle.tracer) };
-        // avoid dropping tracer in drop implementation
-        let _ = std::mem::ManuallyDrop::new(handle);
         Ok(*tracer)
     }
 
     /// Gets a mutable reference to a connected proof tracer
-    // We are intentionally taking self, since the solver "owns" the tracer, even though the
-    // compiler doesn't know this
-    #[expect(clippy::unused_self)]
-    // The handle can only have originated from connect_proof_tracer, the pointer can therefore
-    // never be null
-    #[expect(clippy::missing_panics_doc)]
+    ///
+    /// # Panics
+    ///
+    /// If the handle is not connected to this solver
     pub fn proof_tracer_mut<PT>(&mut self, handle: &ProofTracerHandle<PT>) -> &mut PT
     where
         PT: TraceProof + 'static,
     {
+        assert!(
+            self.tracers.iter().any(|t| t.id == handle.id),
+            "{ProofTracerNotConnected}"
+        );
         unsafe { handle.tracer.as_mut() }.expect("unexpected null ptr")
     }
 }
-- 
2.43.0


From 4952b521eca53f3aa4b648c85854a69cd31e1ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:01 +0000
Subject: [PATCH 36/57] fix: cadical: checked deletion flag of VeriPB proofs,
 unwritable proof paths

---
 cadical/src/lib.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/cadical/src/lib.rs b/cadical/src/lib.rs
index 3d314f5..7228020 100644
--- a/cadical/src/lib.rs
+++ b/cadical/src/lib.rs
@@ -590,15 +590,18 @@ impl CaDiCaL<'_, '_> {
     ///
     /// # Errors
     ///
-    /// If the provided path contains a nul byte
+    /// - If the file cannot be written
+    /// - [`std::ffi::NulError`] if the provided path contains a nul byte
     // We know that the set options exist and that this should therefore never panic
     #[expect(clippy::missing_panics_doc)]
     pub fn trace_proof<P: AsRef<std::path::Path>>(
         &mut self,
         path: P,
         format: ProofFormat,
-    ) -> Result<(), std::ffi::NulError> {
-        let path = std::ffi::CString::new(path.as_ref().to_string_lossy().as_bytes())?;
+    ) -> anyhow::Result<()> {
+        let c_path = std::ffi::CString::new(path.as_ref().to_string_lossy().as_bytes())?;
+        // CaDiCaL does not handle failing to open the file
+        std::fs::File::create(path)?;
         let binary = match format {
             ProofFormat::Drat { binary } => binary,
             #[cfg(cadical_version = "v1.7")]
@@ -620,7 +623,7 @@ impl CaDiCaL<'_, '_> {
             } => {
                 self.set_option(
                     "veripb",
-                    1 + c_int::from(!checked_deletion) + 2 * c_int::from(drat),
+                    1 + c_int::from(checked_deletion) + 2 * c_int::from(drat),
                 )
                 .expect("we know this option exists");
                 false
@@ -641,7 +644,7 @@ impl CaDiCaL<'_, '_> {
         self.set_option("binary", c_int::from(binary))
             .expect("we know this option exists");
         unsafe {
-            ffi::ccadical_trace_proof_path(self.handle, path.as_ptr());
+            ffi::ccadical_trace_proof_path(self.handle, c_path.as_ptr());
         }
         Ok(())
     }
-- 
2.43.0


From 26b56c8121758fa120de9def16b68e2e998d7541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:02 +0000
Subject: [PATCH 37/57] fix: cadical: close proof files before the solver is
 released

---
 cadical/src/ffi/mod.rs | 4 ++++
 cadical/src/lib.rs     | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/cadical/src/ffi/mod.rs b/cadical/src/ffi/mod.rs
index 6f1e7a7..a061d6b 100644
--- a/cadical/src/ffi/mod.rs
+++ b/cadical/src/ffi/mod.rs
@@ -13,6 +13,10 @@ pub mod prooftracer;
 
 include!(concat!(env!("OUT_DIR"), "/bindings.rs"));
 
+extern "C" {
+    pub fn ccadical_close_proof(ptr: *mut CCaDiCaL);
+}
+
 // Raw callbacks forwarding to user callbacks
 pub unsafe extern "C" fn rustsat_ccadical_terminate_cb(ptr: *mut c_void) -> c_int {
     let cb = &mut *ptr.cast::<crate::TermCallbackPtr<'_>>();
diff --git a/cadical/src/lib.rs b/cadical/src/lib.rs
index 7228020..bf95d2c 100644
--- a/cadical/src/lib.rs
+++ b/cadical/src/lib.rs
@@ -186,6 +186,8 @@ pub struct CaDiCaL<'term, 'learn> {
     /// The number of variables that the current assignment covers
     model_vars: c_int,
     stats: rustsat::solvers::SolverStats,
+    /// Whether a proof is being written to a file
+    tracing_file: bool,
     /// The connected proof tracers, dropped after the solver has been released
     #[cfg(cadical_version = "v2.0")]
     tracers: Vec<prooftracer::ConnectedTracer>,
@@ -233,6 +235,7 @@ impl Default for CaDiCaL<'_, '_> {
             learner_cb: None,
             model_vars: 0,
             stats: rustsat::solvers::SolverStats::default(),
+            tracing_file: false,
             #[cfg(cadical_version = "v2.0")]
             tracers: Vec::new(),
         };
@@ -646,6 +649,7 @@ impl CaDiCaL<'_, '_> {
         unsafe {
             ffi::ccadical_trace_proof_path(self.handle, c_path.as_ptr());
         }
+        self.tracing_file = true;
         Ok(())
     }
 
@@ -1230,6 +1234,10 @@ impl rustsat::solvers::SolveStats for CaDiCaL<'_, '_> {
 
 impl Drop for CaDiCaL<'_, '_> {
     fn drop(&mut self) {
+        if self.tracing_file {
+            // Releasing the solver deletes clauses, which is no part of the proof anymore
+            unsafe { ffi::ccadical_close_proof(self.handle) }
+        }
         unsafe { ffi::ccadical_release(self.handle) }
     }
 }
-- 
2.43.0


From 13f89a9ccc972d3fa59cd1e2175a307621683d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:36 +0000
Subject: [PATCH 38/57] fix: types: deserialise variables from formats that
 distinguish newtypes

---
 src/types/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/types/mod.rs b/src/types/mod.rs
index be61984..28a7e3b 100644
--- a/src/types/mod.rs
+++ b/src/types/mod.rs
@@ -41,7 +41,7 @@ pub type RsHasher = std::collections::hash_map::DefaultHasher;
     any(feature = "serde", test),
     derive(serde::Serialize, serde::Deserialize)
 )]
-#[cfg_attr(any(feature = "serde", test), serde(try_from = "u32"))]
+#[cfg_attr(any(feature = "serde", test), serde(try_from = "u32", into = "u32"))]
 #[repr(transparent)]
 struct LimitedU32<const U: u32>(u32);
 
@@ -57,6 +57,12 @@ impl<const U: u32> TryFrom<u32> for LimitedU32<U> {
     }
 }
 
+impl<const U: u32> From<LimitedU32<U>> for u32 {
+    fn from(value: LimitedU32<U>) -> Self {
+        value.0
+    }
+}
+
 /// Error when creating a limited range [`u32`] and the value exceeds the limit
 #[derive(thiserror::Error, Debug)]
 struct LimitedU32Error<const U: u32>(());
-- 
2.43.0


From 509d17d4b8c18cb12d39191b34882b594f257de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:39 +0000
Subject: [PATCH 39/57] fix: C interface: bounds of the totalizer that hold
 trivially need no assumption

---
 capi/rustsat.h                    |  4 ++++
 capi/src/encodings/card.rs        | 12 ++++++++----
 codegen/templates/capi-card.rs.j2 | 12 ++++++++----
 3 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/capi/rustsat.h b/capi/rustsat.h
index 1b3abcc..75a4306 100644
--- a/capi/rustsat.h
+++ b/capi/rustsat.h
@@ -539,6 +539,8 @@ void tot_encode_ub(struct Totalizer *tot,
  * [`tot_encode_ub`] has been called adequately and nothing has been called afterwards, otherwise
  * [`super::MaybeError::NotEncoded`] will be returned.
  *
+ * If the bound is trivially satisfied, no assumption/unit is needed and `assump` is set to `0`.
+ *
  * # Safety
  *
  * `tot` must be a return value of [`tot_new`] that [`tot_drop`] has not yet been called on.
@@ -579,6 +581,8 @@ void tot_encode_lb(struct Totalizer *tot,
  * [`tot_encode_lb`] has been called adequately and nothing has been called afterwards, otherwise
  * [`super::MaybeError::NotEncoded`] will be returned.
  *
+ * If the bound is trivially satisfied, no assumption/unit is needed and `assump` is set to `0`.
+ *
  * # Safety
  *
  * `tot` must be a return value of [`tot_new`] that [`tot_drop`] has not yet been called on.
diff --git a/capi/src/encodings/card.rs b/capi/src/encodings/card.rs
index 571c63f..1bdc922 100644
--- a/capi/src/encodings/card.rs
+++ b/capi/src/encodings/card.rs
@@ -100,6 +100,8 @@ pub unsafe extern "C" fn tot_encode_ub(
 /// [`tot_encode_ub`] has been called adequately and nothing has been called afterwards, otherwise
 /// [`super::MaybeError::NotEncoded`] will be returned.
 ///
+/// If the bound is trivially satisfied, no assumption/unit is needed and `assump` is set to `0`.
+///
 /// # Safety
 ///
 /// `tot` must be a return value of [`tot_new`] that [`tot_drop`] has not yet been called on.
@@ -111,8 +113,8 @@ pub unsafe extern "C" fn tot_enforce_ub(
 ) -> super::MaybeError {
     match (*tot).enforce_ub(ub) {
         Ok(assumps) => {
-            debug_assert_eq!(assumps.len(), 1);
-            *assump = assumps[0].to_ipasir();
+            debug_assert!(assumps.len() <= 1);
+            *assump = assumps.first().map_or(0, |a| a.to_ipasir());
             super::MaybeError::Ok
         }
         Err(err) => err.into(),
@@ -159,6 +161,8 @@ pub unsafe extern "C" fn tot_encode_lb(
 /// [`tot_encode_lb`] has been called adequately and nothing has been called afterwards, otherwise
 /// [`super::MaybeError::NotEncoded`] will be returned.
 ///
+/// If the bound is trivially satisfied, no assumption/unit is needed and `assump` is set to `0`.
+///
 /// # Safety
 ///
 /// `tot` must be a return value of [`tot_new`] that [`tot_drop`] has not yet been called on.
@@ -170,8 +174,8 @@ pub unsafe extern "C" fn tot_enforce_lb(
 ) -> super::MaybeError {
     match (*tot).enforce_lb(lb) {
         Ok(assumps) => {
-            debug_assert_eq!(assumps.len(), 1);
-            *assump = assumps[0].to_ipasir();
+            debug_assert!(assumps.len() <= 1);
+            *assump = assumps.first().map_or(0, |a| a.to_ipasir());
             super::MaybeError::Ok
         }
         Err(err) => err.into(),
diff --git a/codegen/templates/capi-card.rs.j2 b/codegen/templates/capi-card.rs.j2
index 1355838..26c2b88 100644
--- a/codegen/templates/capi-card.rs.j2
+++ b/codegen/templates/capi-card.rs.j2
@@ -79,6 +79,8 @@ pub unsafe extern "C" fn {{ enc.id }}_encode_ub(
 /// Returns an assumption/unit for enforcing an upper bound (`sum of lits <= ub`). Make sure that
 /// [`{{ enc.id }}_encode_ub`] has been called adequately and nothing has been called afterwards, otherwise
 /// [`super::MaybeError::NotEncoded`] will be returned.
+///
+/// If the bound is trivially satisfied, no assumption/unit is needed and `assump` is set to `0`.
 {% include 'capi-safety.j2' %}
 #[no_mangle]
 pub unsafe extern "C" fn {{ enc.id }}_enforce_ub(
@@ -88,8 +90,8 @@ pub unsafe extern "C" fn {{ enc.id }}_enforce_ub(
 ) -> super::MaybeError {
     match (*{{ enc.id }}).enforce_ub(ub) {
         Ok(assumps) => {
-            debug_assert_eq!(assumps.len(), 1);
-            *assump = assumps[0].to_ipasir();
+            debug_assert!(assumps.len() <= 1);
+            *assump = assumps.first().map_or(0, |a| a.to_ipasir());
             super::MaybeError::Ok
         }
         Err(err) => err.into(),
@@ -130,6 +132,8 @@ pub unsafe extern "C" fn {{ enc.id }}_encode_lb(
 /// Returns an assumption/unit for enforcing a lower bound (`sum of lits >= lb`). Make sure that
 /// [`{{ enc.id }}_encode_lb`] has been called adequately and nothing has been called afterwards, otherwise
 /// [`super::MaybeError::NotEncoded`] will be returned.
+///
+/// If the bound is trivially satisfied, no assumption/unit is needed and `assump` is set to `0`.
 {% include 'capi-safety.j2' %}
 #[no_mangle]
 pub unsafe extern "C" fn {{ enc.id }}_enforce_lb(
@@ -139,8 +143,8 @@ pub unsafe extern "C" fn {{ enc.id }}_enforce_lb(
 ) -> super::MaybeError {
     match (*{{ enc.id }}).enforce_lb(lb) {
         Ok(assumps) => {
-            debug_assert_eq!(assumps.len(), 1);
-            *assump = assumps[0].to_ipasir();
+            debug_assert!(assumps.len() <= 1);
+            *assump = assumps.first().map_or(0, |a| a.to_ipasir());
             super::MaybeError::Ok
         }
         Err(err) => err.into(),
-- 
2.43.0


From 0a935c8749dab1273a82c1e60175009b15abcae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:39 +0000
Subject: [PATCH 40/57] fix: dpw: range limits and coarsened bounds at lower
 precisions

---
 src/encodings/pb/dpw/mod.rs | 89 +++++++++++++++++++------------------
 1 file changed, 45 insertions(+), 44 deletions(-)

diff --git a/src/encodings/pb/dpw/mod.rs b/src/encodings/pb/dpw/mod.rs
index 71ff987..69c7fc3 100644
--- a/src/encodings/pb/dpw/mod.rs
+++ b/src/encodings/pb/dpw/mod.rs
@@ -191,42 +191,35 @@ impl DynamicPolyWatchdog {
         Col: CollectClauses,
         R: std::ops::RangeBounds<usize>,
     {
-        let range = super::prepare_ub_range(self, range);
+        // NOTE: values up to and including the weight sum are attainable, so this must not be
+        // clipped in the same way as a range of bounds to enforce
+        let range = (match range.start_bound() {
+            std::ops::Bound::Included(&min) => min,
+            std::ops::Bound::Excluded(&min) => min.saturating_add(1),
+            std::ops::Bound::Unbounded => 0,
+        })..(match range.end_bound() {
+            std::ops::Bound::Included(&max) => max.saturating_add(1),
+            std::ops::Bound::Excluded(&max) => max,
+            std::ops::Bound::Unbounded => usize::MAX,
+        })
+        .min(self.weight_sum + 1);
         if let Some(structure) = &self.structure {
-            if self.is_max_precision() {
-                let output_weight = 1 << (structure.output_power());
-                let range = range.start / output_weight..range.end.div_ceil(output_weight);
-                let root = &self.db[structure.root()];
-                // positively harden lower bound
-                collector.extend_clauses(
-                    root.vals(..=range.start)
-                        .filter_map(|val| root.lit(val).map(|&olit| crate::clause![olit])),
-                )?;
-                // negatively harden upper bound
-                collector.extend_clauses(
-                    root.vals(range.end..)
-                        .filter_map(|val| root.lit(val).map(|&olit| crate::clause![!olit])),
-                )?;
-            } else {
-                let idx_offset = (crate::utils::digits(structure.prec_div, 2) - 1) as usize;
-                for (idx, &bottom) in structure.bottom_buckets.iter().rev().enumerate() {
-                    let div = 1usize << (idx + idx_offset);
-                    let range = range.start / div..range.end.div_ceil(div);
-                    let top_con = crate::utils::unreachable_none!(self.db[bottom].left());
-                    debug_assert_eq!(top_con.divisor(), 1);
-                    let top = &self.db[top_con.id];
-                    // positively harden lower bound
-                    collector.extend_clauses(
-                        top.vals(..=top_con.rev_map(range.start))
-                            .filter_map(|val| top.lit(val).map(|&olit| crate::clause![olit])),
-                    )?;
-                    // negatively harden upper bound
-                    collector.extend_clauses(
-                        top.vals(top_con.rev_map_round_up(range.end)..)
-                            .filter_map(|val| top.lit(val).map(|&olit| crate::clause![!olit])),
-                    )?;
-                }
-            }
+            // NOTE: only the outputs of the root are hardened, since the range says nothing about
+            // the counts in the individual top buckets. The values of the outputs are with respect
+            // to the original weights at any precision.
+            let output_weight = structure.output_weight(1);
+            let range = range.start / output_weight..range.end.div_ceil(output_weight);
+            let root = &self.db[structure.root()];
+            // positively harden lower bound
+            collector.extend_clauses(
+                root.vals(..=range.start)
+                    .filter_map(|val| root.lit(val).map(|&olit| crate::clause![olit])),
+            )?;
+            // negatively harden upper bound
+            collector.extend_clauses(
+                root.vals(range.end..)
+                    .filter_map(|val| root.lit(val).map(|&olit| crate::clause![!olit])),
+            )?;
         }
         Ok(())
     }
@@ -261,6 +254,16 @@ impl Structure {
     pub fn output_power(&self) -> usize {
         self.tares.len()
     }
+    /// Gets the factor between a bound at a given precision and the corresponding bound at the
+    /// precision of the structure
+    fn precision_factor(&self, prec_div: usize) -> usize {
+        debug_assert!(self.prec_div >= prec_div);
+        1 << (crate::utils::digits(self.prec_div, 2) - crate::utils::digits(prec_div, 2))
+    }
+    /// Gets the weight that the output literals represent at a given precision
+    fn output_weight(&self, prec_div: usize) -> usize {
+        self.precision_factor(prec_div) << self.output_power()
+    }
 }
 
 impl super::Encode for DynamicPolyWatchdog {
@@ -326,13 +329,11 @@ impl super::BoundUpper for DynamicPolyWatchdog {
             {
                 return Err(EnforceError::NotEncoded);
             }
-            debug_assert!(structure.prec_div >= self.prec_div);
-            let ub = ub
-                / 2_usize.pow(
-                    crate::utils::digits(structure.prec_div, 2)
-                        - crate::utils::digits(self.prec_div, 2),
-                );
-            enforce_ub(structure, ub, &self.db)
+            enforce_ub(
+                structure,
+                ub / structure.precision_factor(self.prec_div),
+                &self.db,
+            )
         } else {
             if self.in_lits.len() > 1 {
                 return Err(EnforceError::NotEncoded);
@@ -350,7 +351,7 @@ impl super::BoundUpper for DynamicPolyWatchdog {
     fn coarse_ub(&self, ub: usize) -> usize {
         match &self.structure {
             Some(structure) => {
-                let output_weight = 1 << (structure.output_power());
+                let output_weight = structure.output_weight(self.prec_div);
                 if output_weight == 1 {
                     return ub;
                 }
@@ -407,7 +408,7 @@ impl super::BoundUpperIncremental for DynamicPolyWatchdog {
                 );
                 merge_structures(structure, new_struct, &mut self.db, collector, var_manager)?;
             }
-            let output_weight = 1 << (structure.output_power());
+            let output_weight = structure.output_weight(self.prec_div);
             let output_range = (range.start / output_weight)..=((range.end - 1) / output_weight);
             for oidx in output_range {
                 encode_output(structure, oidx, &mut self.db, collector, var_manager)?;
-- 
2.43.0


From 1404b706d95292c790b04033f82282f9d8062d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:39 +0000
Subject: [PATCH 41/57] fix: ipasir: detaching the learner released the
 terminator instead

---
 ipasir/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipasir/src/lib.rs b/ipasir/src/lib.rs
index a186b1b..15afb88 100644
--- a/ipasir/src/lib.rs
+++ b/ipasir/src/lib.rs
@@ -398,8 +398,8 @@ impl<'learn> rustsat::solvers::Learn<'learn> for IpasirSolver<'_, 'learn> {
     }
 
     fn detach_learner(&mut self) {
-        self.terminate_cb = None;
         unsafe { ffi::ipasir_set_learn(self.handle, std::ptr::null(), 0, None) }
+        self.learner_cb = None;
     }
 }
 
-- 
2.43.0


From a306cd13eb0f890e2c7ecb62b4c994c81f2ed7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:39 +0000
Subject: [PATCH 42/57] fix: minisat/glucose: data race on the interrupt flag

---
 glucose/vendor/core/Solver.cc        | 2 +-
 glucose/vendor/core/Solver.h         | 4 +++-
 minisat/vendor/minisat/core/Solver.h | 4 +++-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/glucose/vendor/core/Solver.cc b/glucose/vendor/core/Solver.cc
index c96bcf5..688cbf9 100755
--- a/glucose/vendor/core/Solver.cc
+++ b/glucose/vendor/core/Solver.cc
@@ -281,7 +281,7 @@ Solver::Solver(const Solver &s) :
 //
 , conflict_budget(s.conflict_budget)
 , propagation_budget(s.propagation_budget)
-, asynch_interrupt(s.asynch_interrupt)
+, asynch_interrupt(s.asynch_interrupt.load())
 , incremental(s.incremental)
 , nbVarsInitialFormula(s.nbVarsInitialFormula)
 , totalTime4Sat(s.totalTime4Sat)
diff --git a/glucose/vendor/core/Solver.h b/glucose/vendor/core/Solver.h
index 7217a97..a7e9fe5 100755
--- a/glucose/vendor/core/Solver.h
+++ b/glucose/vendor/core/Solver.h
@@ -50,6 +50,8 @@ OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWA
 #ifndef Glucose_Solver_h
 #define Glucose_Solver_h
 
+#include <atomic>
+
 #include "mtl/Heap.h"
 #include "mtl/Alg.h"
 #include "utils/Options.h"
@@ -400,7 +402,7 @@ protected:
     //
     int64_t             conflict_budget;    // -1 means no budget.
     int64_t             propagation_budget; // -1 means no budget.
-    bool                asynch_interrupt;
+    std::atomic<bool>   asynch_interrupt;
 
     // Variables added for incremental mode
     int incremental; // Use incremental SAT Solver
diff --git a/minisat/vendor/minisat/core/Solver.h b/minisat/vendor/minisat/core/Solver.h
index 73683a7..3337607 100644
--- a/minisat/vendor/minisat/core/Solver.h
+++ b/minisat/vendor/minisat/core/Solver.h
@@ -21,6 +21,8 @@ OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWA
 #ifndef Minisat_Solver_h
 #define Minisat_Solver_h
 
+#include <atomic>
+
 #include "minisat/mtl/Vec.h"
 #include "minisat/mtl/Heap.h"
 #include "minisat/mtl/Alg.h"
@@ -241,7 +243,7 @@ protected:
     //
     int64_t             conflict_budget;    // -1 means no budget.
     int64_t             propagation_budget; // -1 means no budget.
-    bool                asynch_interrupt;
+    std::atomic<bool>   asynch_interrupt;
 
     // Main internal methods:
     //
-- 
2.43.0


From cd9f68cdb762c4b9ebd16b1727801eea3e7c8a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:39 +0000
Subject: [PATCH 43/57] fix: solvers: interrupting after the solver was dropped

---
 cadical/src/lib.rs  | 22 ++++++++++++++++++----
 glucose/src/core.rs | 22 ++++++++++++++++++----
 glucose/src/simp.rs | 22 ++++++++++++++++++----
 kissat/src/lib.rs   | 25 ++++++++++++++++++++-----
 minisat/src/core.rs | 22 ++++++++++++++++++----
 minisat/src/simp.rs | 22 ++++++++++++++++++----
 6 files changed, 110 insertions(+), 25 deletions(-)

diff --git a/cadical/src/lib.rs b/cadical/src/lib.rs
index bf95d2c..d096263 100644
--- a/cadical/src/lib.rs
+++ b/cadical/src/lib.rs
@@ -180,6 +180,8 @@ type OptLearnCallbackStore<'a> = Option<Box<LearnCallbackPtr<'a>>>;
 /// The CaDiCaL solver type
 pub struct CaDiCaL<'term, 'learn> {
     handle: *mut ffi::CCaDiCaL,
+    /// The handle shared with interrupters, cleared once the solver is released
+    interrupt_handle: InterruptHandle,
     state: InternalSolverState,
     terminate_cb: OptTermCallbackStore<'term>,
     learner_cb: OptLearnCallbackStore<'learn>,
@@ -230,6 +232,7 @@ impl Default for CaDiCaL<'_, '_> {
         );
         let solver = Self {
             handle,
+            interrupt_handle: std::sync::Arc::new(std::sync::Mutex::new(Some(handle))),
             state: InternalSolverState::default(),
             terminate_cb: None,
             learner_cb: None,
@@ -967,16 +970,19 @@ impl rustsat::solvers::Interrupt for CaDiCaL<'_, '_> {
     type Interrupter = Interrupter;
     fn interrupter(&mut self) -> Self::Interrupter {
         Interrupter {
-            handle: self.handle,
+            handle: self.interrupt_handle.clone(),
         }
     }
 }
 
+/// Handle shared between a solver and its interrupters
+type InterruptHandle = std::sync::Arc<std::sync::Mutex<Option<*mut ffi::CCaDiCaL>>>;
+
 /// An Interrupter for the CaDiCaL solver
 #[derive(Debug)]
 pub struct Interrupter {
-    /// The C API handle
-    handle: *mut ffi::CCaDiCaL,
+    /// The C API handle, [`None`] if the solver was dropped already
+    handle: InterruptHandle,
 }
 
 unsafe impl Send for Interrupter {}
@@ -984,7 +990,12 @@ unsafe impl Sync for Interrupter {}
 
 impl rustsat::solvers::InterruptSolver for Interrupter {
     fn interrupt(&self) {
-        unsafe { ffi::ccadical_terminate(self.handle) }
+        // The lock is held during the call so that the solver is not released meanwhile
+        if let Ok(handle) = self.handle.lock() {
+            if let Some(handle) = *handle {
+                unsafe { ffi::ccadical_terminate(handle) }
+            }
+        }
     }
 }
 
@@ -1234,6 +1245,9 @@ impl rustsat::solvers::SolveStats for CaDiCaL<'_, '_> {
 
 impl Drop for CaDiCaL<'_, '_> {
     fn drop(&mut self) {
+        if let Ok(mut handle) = self.interrupt_handle.lock() {
+            *handle = None;
+        }
         if self.tracing_file {
             // Releasing the solver deletes clauses, which is no part of the proof anymore
             unsafe { ffi::ccadical_close_proof(self.handle) }
diff --git a/glucose/src/core.rs b/glucose/src/core.rs
index ce0318c..b7aed52 100644
--- a/glucose/src/core.rs
+++ b/glucose/src/core.rs
@@ -16,6 +16,8 @@ use rustsat::types::Var;
 #[derive(Debug)]
 pub struct Glucose {
     handle: *mut crate::ffi::CGlucose4,
+    /// The handle shared with interrupters, cleared once the solver is released
+    interrupt_handle: InterruptHandle,
     state: crate::InternalSolverState,
     stats: rustsat::solvers::SolverStats,
 }
@@ -31,6 +33,7 @@ impl Default for Glucose {
         );
         Self {
             handle,
+            interrupt_handle: std::sync::Arc::new(std::sync::Mutex::new(Some(handle))),
             state: crate::InternalSolverState::default(),
             stats: rustsat::solvers::SolverStats::default(),
         }
@@ -256,16 +259,19 @@ impl rustsat::solvers::Interrupt for Glucose {
     type Interrupter = Interrupter;
     fn interrupter(&mut self) -> Self::Interrupter {
         Interrupter {
-            handle: self.handle,
+            handle: self.interrupt_handle.clone(),
         }
     }
 }
 
+/// Handle shared between a solver and its interrupters
+type InterruptHandle = std::sync::Arc<std::sync::Mutex<Option<*mut crate::ffi::CGlucose4>>>;
+
 /// An Interrupter for the Glucose 4 Core solver
 #[derive(Debug)]
 pub struct Interrupter {
-    /// The C API handle
-    handle: *mut crate::ffi::CGlucose4,
+    /// The C API handle, [`None`] if the solver was dropped already
+    handle: InterruptHandle,
 }
 
 unsafe impl Send for Interrupter {}
@@ -273,7 +279,12 @@ unsafe impl Sync for Interrupter {}
 
 impl rustsat::solvers::InterruptSolver for Interrupter {
     fn interrupt(&self) {
-        unsafe { crate::ffi::cglucose4_interrupt(self.handle) }
+        // The lock is held during the call so that the solver is not released meanwhile
+        if let Ok(handle) = self.handle.lock() {
+            if let Some(handle) = *handle {
+                unsafe { crate::ffi::cglucose4_interrupt(handle) }
+            }
+        }
     }
 }
 
@@ -414,6 +425,9 @@ impl rustsat::solvers::SolveStats for Glucose {
 
 impl Drop for Glucose {
     fn drop(&mut self) {
+        if let Ok(mut handle) = self.interrupt_handle.lock() {
+            *handle = None;
+        }
         unsafe { crate::ffi::cglucose4_release(self.handle) }
     }
 }
diff --git a/glucose/src/simp.rs b/glucose/src/simp.rs
index e4a5b81..7f5649b 100644
--- a/glucose/src/simp.rs
+++ b/glucose/src/simp.rs
@@ -16,6 +16,8 @@ use rustsat::types::Var;
 #[derive(Debug)]
 pub struct Glucose {
     handle: *mut crate::ffi::CGlucoseSimp4,
+    /// The handle shared with interrupters, cleared once the solver is released
+    interrupt_handle: InterruptHandle,
     state: crate::InternalSolverState,
     stats: rustsat::solvers::SolverStats,
 }
@@ -31,6 +33,7 @@ impl Default for Glucose {
         );
         Self {
             handle,
+            interrupt_handle: std::sync::Arc::new(std::sync::Mutex::new(Some(handle))),
             state: crate::InternalSolverState::default(),
             stats: rustsat::solvers::SolverStats::default(),
         }
@@ -273,16 +276,19 @@ impl rustsat::solvers::Interrupt for Glucose {
     type Interrupter = Interrupter;
     fn interrupter(&mut self) -> Self::Interrupter {
         Interrupter {
-            handle: self.handle,
+            handle: self.interrupt_handle.clone(),
         }
     }
 }
 
+/// Handle shared between a solver and its interrupters
+type InterruptHandle = std::sync::Arc<std::sync::Mutex<Option<*mut crate::ffi::CGlucoseSimp4>>>;
+
 /// An Interrupter for the Glucose 4 Simp solver
 #[derive(Debug)]
 pub struct Interrupter {
-    /// The C API handle
-    handle: *mut crate::ffi::CGlucoseSimp4,
+    /// The C API handle, [`None`] if the solver was dropped already
+    handle: InterruptHandle,
 }
 
 unsafe impl Send for Interrupter {}
@@ -290,7 +296,12 @@ unsafe impl Sync for Interrupter {}
 
 impl rustsat::solvers::InterruptSolver for Interrupter {
     fn interrupt(&self) {
-        unsafe { crate::ffi::cglucosesimp4_interrupt(self.handle) }
+        // The lock is held during the call so that the solver is not released meanwhile
+        if let Ok(handle) = self.handle.lock() {
+            if let Some(handle) = *handle {
+                unsafe { crate::ffi::cglucosesimp4_interrupt(handle) }
+            }
+        }
     }
 }
 
@@ -478,6 +489,9 @@ impl rustsat::solvers::SolveStats for Glucose {
 
 impl Drop for Glucose {
     fn drop(&mut self) {
+        if let Ok(mut handle) = self.interrupt_handle.lock() {
+            *handle = None;
+        }
         unsafe { crate::ffi::cglucosesimp4_release(self.handle) }
     }
 }
diff --git a/kissat/src/lib.rs b/kissat/src/lib.rs
index 5bf55c6..83398b6 100644
--- a/kissat/src/lib.rs
+++ b/kissat/src/lib.rs
@@ -103,6 +103,8 @@ type OptTermCallbackStore<'a> = Option<Box<TermCallbackPtr<'a>>>;
 /// The Kissat solver type
 pub struct Kissat<'term> {
     handle: *mut ffi::kissat,
+    /// The handle shared with interrupters, cleared once the solver is released
+    interrupt_handle: InterruptHandle,
     state: InternalSolverState,
     terminate_cb: OptTermCallbackStore<'term>,
     stats: rustsat::solvers::SolverStats,
@@ -130,8 +132,10 @@ unsafe impl Send for Kissat<'_> {}
 
 impl Default for Kissat<'_> {
     fn default() -> Self {
+        let handle = unsafe { ffi::kissat_init() };
         let solver = Self {
-            handle: unsafe { ffi::kissat_init() },
+            handle,
+            interrupt_handle: std::sync::Arc::new(std::sync::Mutex::new(Some(handle))),
             state: InternalSolverState::default(),
             terminate_cb: None,
             stats: rustsat::solvers::SolverStats::default(),
@@ -450,16 +454,19 @@ impl rustsat::solvers::Interrupt for Kissat<'_> {
 
     fn interrupter(&mut self) -> Self::Interrupter {
         Interrupter {
-            handle: self.handle,
+            handle: self.interrupt_handle.clone(),
         }
     }
 }
 
+/// Handle shared between a solver and its interrupters
+type InterruptHandle = std::sync::Arc<std::sync::Mutex<Option<*mut ffi::kissat>>>;
+
 /// An Interrupter for the Kissat solver
 #[derive(Debug)]
 pub struct Interrupter {
-    /// The C API handle
-    handle: *mut ffi::kissat,
+    /// The C API handle, [`None`] if the solver was dropped already
+    handle: InterruptHandle,
 }
 
 unsafe impl Send for Interrupter {}
@@ -467,7 +474,12 @@ unsafe impl Sync for Interrupter {}
 
 impl rustsat::solvers::InterruptSolver for Interrupter {
     fn interrupt(&self) {
-        unsafe { ffi::kissat_terminate(self.handle) }
+        // The lock is held during the call so that the solver is not released meanwhile
+        if let Ok(handle) = self.handle.lock() {
+            if let Some(handle) = *handle {
+                unsafe { ffi::kissat_terminate(handle) }
+            }
+        }
     }
 }
 
@@ -479,6 +491,9 @@ impl rustsat::solvers::SolveStats for Kissat<'_> {
 
 impl Drop for Kissat<'_> {
     fn drop(&mut self) {
+        if let Ok(mut handle) = self.interrupt_handle.lock() {
+            *handle = None;
+        }
         unsafe { ffi::kissat_release(self.handle) }
     }
 }
diff --git a/minisat/src/core.rs b/minisat/src/core.rs
index fe55ce6..29ba8fd 100644
--- a/minisat/src/core.rs
+++ b/minisat/src/core.rs
@@ -16,6 +16,8 @@ use rustsat::types::Var;
 #[derive(Debug)]
 pub struct Minisat {
     handle: *mut crate::ffi::CMinisat,
+    /// The handle shared with interrupters, cleared once the solver is released
+    interrupt_handle: InterruptHandle,
     state: crate::InternalSolverState,
     stats: rustsat::solvers::SolverStats,
 }
@@ -31,6 +33,7 @@ impl Default for Minisat {
         );
         Self {
             handle,
+            interrupt_handle: std::sync::Arc::new(std::sync::Mutex::new(Some(handle))),
             state: crate::InternalSolverState::default(),
             stats: rustsat::solvers::SolverStats::default(),
         }
@@ -256,16 +259,19 @@ impl rustsat::solvers::Interrupt for Minisat {
     type Interrupter = Interrupter;
     fn interrupter(&mut self) -> Self::Interrupter {
         Interrupter {
-            handle: self.handle,
+            handle: self.interrupt_handle.clone(),
         }
     }
 }
 
+/// Handle shared between a solver and its interrupters
+type InterruptHandle = std::sync::Arc<std::sync::Mutex<Option<*mut crate::ffi::CMinisat>>>;
+
 /// An Interrupter for the Minisat Core solver
 #[derive(Debug)]
 pub struct Interrupter {
-    /// The C API handle
-    handle: *mut crate::ffi::CMinisat,
+    /// The C API handle, [`None`] if the solver was dropped already
+    handle: InterruptHandle,
 }
 
 unsafe impl Send for Interrupter {}
@@ -273,7 +279,12 @@ unsafe impl Sync for Interrupter {}
 
 impl rustsat::solvers::InterruptSolver for Interrupter {
     fn interrupt(&self) {
-        unsafe { crate::ffi::cminisat_interrupt(self.handle) }
+        // The lock is held during the call so that the solver is not released meanwhile
+        if let Ok(handle) = self.handle.lock() {
+            if let Some(handle) = *handle {
+                unsafe { crate::ffi::cminisat_interrupt(handle) }
+            }
+        }
     }
 }
 
@@ -414,6 +425,9 @@ impl rustsat::solvers::SolveStats for Minisat {
 
 impl Drop for Minisat {
     fn drop(&mut self) {
+        if let Ok(mut handle) = self.interrupt_handle.lock() {
+            *handle = None;
+        }
         unsafe { crate::ffi::cminisat_release(self.handle) }
     }
 }
diff --git a/minisat/src/simp.rs b/minisat/src/simp.rs
index eff21ff..e5fa8c7 100644
--- a/minisat/src/simp.rs
+++ b/minisat/src/simp.rs
@@ -16,6 +16,8 @@ use rustsat::types::Var;
 #[derive(Debug)]
 pub struct Minisat {
     handle: *mut crate::ffi::CMinisatSimp,
+    /// The handle shared with interrupters, cleared once the solver is released
+    interrupt_handle: InterruptHandle,
     state: crate::InternalSolverState,
     stats: rustsat::solvers::SolverStats,
 }
@@ -31,6 +33,7 @@ impl Default for Minisat {
         );
         Self {
             handle,
+            interrupt_handle: std::sync::Arc::new(std::sync::Mutex::new(Some(handle))),
             state: crate::InternalSolverState::default(),
             stats: rustsat::solvers::SolverStats::default(),
         }
@@ -274,16 +277,19 @@ impl rustsat::solvers::Interrupt for Minisat {
     type Interrupter = Interrupter;
     fn interrupter(&mut self) -> Self::Interrupter {
         Interrupter {
-            handle: self.handle,
+            handle: self.interrupt_handle.clone(),
         }
     }
 }
 
+/// Handle shared between a solver and its interrupters
+type InterruptHandle = std::sync::Arc<std::sync::Mutex<Option<*mut crate::ffi::CMinisatSimp>>>;
+
 /// An Interrupter for the Minisat Simp solver
 #[derive(Debug)]
 pub struct Interrupter {
-    /// The C API handle
-    handle: *mut crate::ffi::CMinisatSimp,
+    /// The C API handle, [`None`] if the solver was dropped already
+    handle: InterruptHandle,
 }
 
 unsafe impl Send for Interrupter {}
@@ -291,7 +297,12 @@ unsafe impl Sync for Interrupter {}
 
 impl rustsat::solvers::InterruptSolver for Interrupter {
     fn interrupt(&self) {
-        unsafe { crate::ffi::cminisatsimp_interrupt(self.handle) }
+        // The lock is held during the call so that the solver is not released meanwhile
+        if let Ok(handle) = self.handle.lock() {
+            if let Some(handle) = *handle {
+                unsafe { crate::ffi::cminisatsimp_interrupt(handle) }
+            }
+        }
     }
 }
 
@@ -479,6 +490,9 @@ impl rustsat::solvers::SolveStats for Minisat {
 
 impl Drop for Minisat {
     fn drop(&mut self) {
+        if let Ok(mut handle) = self.interrupt_handle.lock() {
+            *handle = None;
+        }
         unsafe { crate::ffi::cminisatsimp_release(self.handle) }
     }
 }
-- 
2.43.0


From 34bc81d2feb65de08fce962704cf4b02eaa0717e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:59:27 +0000
Subject: [PATCH 44/57] fix: opb2cnf, opb2wcnf, opb2mcnf: --first-var-idx was
 ignored, statistics were no comments

---
 tools/src/bin/opb2cnf.rs  | 10 +++++-----
 tools/src/bin/opb2mcnf.rs |  4 ++--
 tools/src/bin/opb2wcnf.rs |  4 ++--
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/tools/src/bin/opb2cnf.rs b/tools/src/bin/opb2cnf.rs
index 1a33b35..f014529 100644
--- a/tools/src/bin/opb2cnf.rs
+++ b/tools/src/bin/opb2cnf.rs
@@ -15,13 +15,13 @@ struct Args {
     out_path: Option<std::path::PathBuf>,
     /// The index in the OPB file to treat as the lowest variable
     #[arg(long, default_value_t = 1)]
-    first_var_idx: usize,
+    first_var_idx: u32,
 }
 
 fn main() -> anyhow::Result<()> {
     let args = Args::parse();
     let opb_opts = rustsat::instances::fio::opb::Options {
-        first_var_idx: 0,
+        first_var_idx: args.first_var_idx,
         ..Default::default()
     };
 
@@ -32,9 +32,9 @@ fn main() -> anyhow::Result<()> {
             .context("error parsing input")?
     };
 
-    println!("{} clauses", inst.n_clauses());
-    println!("{} cards", inst.n_cards());
-    println!("{} pbs", inst.n_pbs());
+    println!("c {} clauses", inst.n_clauses());
+    println!("c {} cards", inst.n_cards());
+    println!("c {} pbs", inst.n_pbs());
 
     inst.convert_to_cnf();
 
diff --git a/tools/src/bin/opb2mcnf.rs b/tools/src/bin/opb2mcnf.rs
index 4753f84..e35d176 100644
--- a/tools/src/bin/opb2mcnf.rs
+++ b/tools/src/bin/opb2mcnf.rs
@@ -15,13 +15,13 @@ struct Args {
     out_path: Option<std::path::PathBuf>,
     /// The index in the OPB file to treat as the lowest variable
     #[arg(long, default_value_t = 1)]
-    first_var_idx: usize,
+    first_var_idx: u32,
 }
 
 fn main() -> anyhow::Result<()> {
     let args = Args::parse();
     let opb_opts = rustsat::instances::fio::opb::Options {
-        first_var_idx: 0,
+        first_var_idx: args.first_var_idx,
         ..Default::default()
     };
 
diff --git a/tools/src/bin/opb2wcnf.rs b/tools/src/bin/opb2wcnf.rs
index fa10c64..a6c5a0f 100644
--- a/tools/src/bin/opb2wcnf.rs
+++ b/tools/src/bin/opb2wcnf.rs
@@ -14,13 +14,13 @@ struct Args {
     out_path: Option<std::path::PathBuf>,
     /// The index in the OPB file to treat as the lowest variable
     #[arg(long, default_value_t = 1)]
-    first_var_idx: usize,
+    first_var_idx: u32,
 }
 
 fn main() -> anyhow::Result<()> {
     let args = <Args as clap::Parser>::parse();
     let opb_opts = rustsat::instances::fio::opb::Options {
-        first_var_idx: 0,
+        first_var_idx: args.first_var_idx,
         ..Default::default()
     };
 
-- 
2.43.0


From a48346ecbff04f7ed3ce8189d0e001673fe1020a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:59:27 +0000
Subject: [PATCH 45/57] fix: gbmosplit: hardened clauses dropped for OPB,
 messages mixed into the instance on stdout

---
 tools/src/bin/gbmosplit.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/tools/src/bin/gbmosplit.rs b/tools/src/bin/gbmosplit.rs
index 717061e..b90a1fe 100644
--- a/tools/src/bin/gbmosplit.rs
+++ b/tools/src/bin/gbmosplit.rs
@@ -87,7 +87,7 @@ impl Cli {
         write!(&mut buffer, ": ").unwrap();
         buffer.reset().unwrap();
         writeln!(&mut buffer, "{msg}").unwrap();
-        self.stdout.print(&buffer).unwrap();
+        self.stderr.print(&buffer).unwrap();
     }
 
     fn error(&self, err: &anyhow::Error) {
@@ -101,11 +101,11 @@ impl Cli {
         write!(&mut buffer, ": ").unwrap();
         buffer.reset().unwrap();
         writeln!(&mut buffer, "{err}").unwrap();
-        self.stdout.print(&buffer).unwrap();
+        self.stderr.print(&buffer).unwrap();
     }
 
     fn info(&self, msg: &str) {
-        let mut buffer = self.stdout.buffer();
+        let mut buffer = self.stderr.buffer();
         buffer
             .set_color(ColorSpec::new().set_bold(true).set_fg(Some(Color::Blue)))
             .unwrap();
@@ -115,7 +115,7 @@ impl Cli {
         write!(&mut buffer, ": ").unwrap();
         buffer.reset().unwrap();
         writeln!(&mut buffer, "{msg}").unwrap();
-        self.stdout.print(&buffer).unwrap();
+        self.stderr.print(&buffer).unwrap();
     }
 
     fn print_split_stats(&self, split_stats: SplitStats) {
@@ -657,7 +657,8 @@ fn main() -> anyhow::Result<()> {
             WriteFormat::Opb => {
                 let (mut constrs, mut objs) = mo_inst.decompose();
                 for obj in &mut objs {
-                    obj.convert_to_soft_lits(constrs.var_manager_mut());
+                    let hardened = obj.convert_to_soft_lits(constrs.var_manager_mut());
+                    constrs.extend(hardened.into());
                 }
                 let mo_inst = MultiOptInstance::compose(constrs, objs);
                 if let Some(path) = &cli.out_path {
-- 
2.43.0


From c919b87c9566673c54ed5f6f46ccbafd4ee2a563 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:59:27 +0000
Subject: [PATCH 46/57] fix: mo2ilp: wrong numbers of non-zero entries, lost
 write errors

---
 tools/src/bin/mo2ilp.rs | 76 +++++++++++++++++++----------------------
 1 file changed, 35 insertions(+), 41 deletions(-)

diff --git a/tools/src/bin/mo2ilp.rs b/tools/src/bin/mo2ilp.rs
index bca7937..27938f7 100644
--- a/tools/src/bin/mo2ilp.rs
+++ b/tools/src/bin/mo2ilp.rs
@@ -101,17 +101,13 @@ fn main() -> anyhow::Result<()> {
     };
 
     if let Some(path) = args.out_path {
-        write_instance(
-            inst,
-            args.output_format,
-            &mut fio::open_compressed_uncompressed_write(path)?,
-        )?;
+        let mut writer = fio::open_compressed_uncompressed_write(path)?;
+        write_instance(inst, args.output_format, &mut writer)?;
+        std::io::Write::flush(&mut writer)?;
     } else {
-        write_instance(
-            inst,
-            args.output_format,
-            &mut std::io::BufWriter::new(std::io::stdout()),
-        )?;
+        let mut writer = std::io::BufWriter::new(std::io::stdout());
+        write_instance(inst, args.output_format, &mut writer)?;
+        std::io::Write::flush(&mut writer)?;
     }
     Ok(())
 }
@@ -198,27 +194,35 @@ fn write_instance<W: std::io::Write>(
     // add aux variable unit for objective offset
     pbs.push(PbConstraint::new_lb([(vm.new_lit(), 1)], 1));
 
+    // build matrices
+    let n_vars = vm.n_used();
+    let objs: Vec<_> = objs
+        .into_iter()
+        .map(|obj| objective_row(obj, n_vars))
+        .collect();
+    let constrs: Vec<_> = pbs
+        .into_iter()
+        .map(|constr| constraint_row(constr, n_vars))
+        .collect();
+
     // compute non-zeroes
-    let non_zero_constrs: usize = pbs.iter().map(PbConstraint::len).sum();
-    let non_zero_objs: usize = objs
-        .iter()
-        .map(rustsat::instances::Objective::n_softs)
-        .sum();
+    let non_zeroes = |row: &Vec<isize>| row.iter().filter(|&&coef| coef != 0).count();
+    let non_zero_constrs: usize = constrs.iter().map(|(row, ..)| non_zeroes(row)).sum();
+    let non_zero_objs: usize = objs.iter().map(non_zeroes).sum();
 
     match format {
         OutputFormat::Bauss => {
             // #vars #constrs #objs #nonzerosinconstrs #nonzerosincosts
             writeln!(
                 writer,
-                "{} {} {} {non_zero_constrs} {non_zero_objs}",
-                vm.n_used(),
-                pbs.len(),
+                "{n_vars} {} {} {non_zero_constrs} {non_zero_objs}",
+                constrs.len(),
                 objs.len(),
             )?;
         }
         OutputFormat::Fgt => {
             // #vars #constrs #objs
-            writeln!(writer, "{} {} {}", vm.n_used(), pbs.len(), objs.len(),)?;
+            writeln!(writer, "{n_vars} {} {}", constrs.len(), objs.len())?;
         }
     }
     writeln!(writer)?;
@@ -230,37 +234,32 @@ fn write_instance<W: std::io::Write>(
     }
 
     // cost matrix
-    for obj in objs {
-        write_objective(obj, vm.n_used(), writer)?;
+    for row in objs {
+        writeln!(writer, "{}", row.into_iter().format(" "))?;
     }
     writeln!(writer)?;
 
     // constraint matrix
-    let bounds = pbs
-        .into_iter()
-        .map(|c| write_constraint(c, vm.n_used(), writer))
-        .collect::<std::io::Result<Vec<_>>>()?;
+    for (row, ..) in &constrs {
+        writeln!(writer, "{}", row.iter().format(" "))?;
+    }
     writeln!(writer)?;
 
     // rhs
-    for (op, bound) in bounds {
+    for (_, op, bound) in constrs {
         writeln!(writer, "{op} {bound}")?;
     }
 
     if matches!(format, OutputFormat::Fgt) {
         writeln!(writer)?;
-        writeln!(writer, "{}", (0..vm.n_used()).map(|_| 0).format(" "))?;
-        writeln!(writer, "{}", (0..vm.n_used()).map(|_| 1).format(" "))?;
+        writeln!(writer, "{}", (0..n_vars).map(|_| 0).format(" "))?;
+        writeln!(writer, "{}", (0..n_vars).map(|_| 1).format(" "))?;
     }
 
     Ok(())
 }
 
-fn write_objective<W: std::io::Write>(
-    obj: rustsat::instances::Objective,
-    n_vars: u32,
-    writer: &mut W,
-) -> std::io::Result<()> {
+fn objective_row(obj: rustsat::instances::Objective, n_vars: u32) -> Vec<isize> {
     let mut coefs = vec![0; n_vars as usize];
     for (lit, coef) in obj.iter_soft_lits().unwrap() {
         let mut coef =
@@ -272,14 +271,10 @@ fn write_objective<W: std::io::Write>(
         coefs[lit.var().idx()] += coef;
     }
     *coefs.last_mut().unwrap() += obj.offset();
-    writeln!(writer, "{}", coefs.into_iter().format(" "))
+    coefs
 }
 
-fn write_constraint<W: std::io::Write>(
-    constr: PbConstraint,
-    n_vars: u32,
-    writer: &mut W,
-) -> std::io::Result<(Operator, isize)> {
+fn constraint_row(constr: PbConstraint, n_vars: u32) -> (Vec<isize>, Operator, isize) {
     let mut coefs = vec![0; n_vars as usize];
     let (lits, op, mut bound) = match constr {
         PbConstraint::Ub(constr) => {
@@ -304,8 +299,7 @@ fn write_constraint<W: std::io::Write>(
         }
         coefs[lit.var().idx()] += coef;
     }
-    writeln!(writer, "{}", coefs.into_iter().format(" "))?;
-    Ok((op, bound))
+    (coefs, op, bound)
 }
 
 #[derive(Clone, Copy)]
-- 
2.43.0


From 6b871df302e24266e86edb980a47d60f1210446e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:59:27 +0000
Subject: [PATCH 47/57] fix: instances without variables: enumerator,
 propagator, MultiOptInstance::decompose

---
 src/instances/multiopt.rs   | 10 +++-------
 tools/src/bin/enumerator.rs | 25 ++++++++++++++-----------
 tools/src/bin/propagator.rs |  8 +++++---
 3 files changed, 22 insertions(+), 21 deletions(-)

diff --git a/src/instances/multiopt.rs b/src/instances/multiopt.rs
index f52a498..e036cf1 100644
--- a/src/instances/multiopt.rs
+++ b/src/instances/multiopt.rs
@@ -56,13 +56,9 @@ impl<VM: ManageVars> MultiOptInstance<VM> {
 
     /// Decomposes the optimization instance to a [`SatInstance`] and [`Objective`]s
     pub fn decompose(mut self) -> (SatInstance<VM>, Vec<Objective>) {
-        let omv = self.objs.iter().fold(Var::new(0), |v, o| {
-            if let Some(mv) = o.max_var() {
-                return std::cmp::max(v, mv);
-            }
-            v
-        });
-        self.constrs.var_manager.increase_next_free(omv + 1);
+        if let Some(omv) = self.objs.iter().filter_map(Objective::max_var).max() {
+            self.constrs.var_manager.increase_next_free(omv + 1);
+        }
         (self.constrs, self.objs)
     }
 
diff --git a/tools/src/bin/enumerator.rs b/tools/src/bin/enumerator.rs
index 4324575..fa1fc13 100644
--- a/tools/src/bin/enumerator.rs
+++ b/tools/src/bin/enumerator.rs
@@ -148,7 +148,7 @@ fn parse_instance(
 
 struct Enumerator<S: rustsat::solvers::SolveIncremental> {
     solver: S,
-    max_var: rustsat::types::Var,
+    max_var: Option<rustsat::types::Var>,
 }
 
 impl<S: rustsat::solvers::SolveIncremental> Iterator for Enumerator<S> {
@@ -158,9 +158,13 @@ impl<S: rustsat::solvers::SolveIncremental> Iterator for Enumerator<S> {
         match self.solver.solve().expect("error while solving") {
             rustsat::solvers::SolverResult::Sat => {
                 let sol = self
-                    .solver
-                    .solution(self.max_var)
-                    .expect("could not get solution from solver");
+                    .max_var
+                    .map(|max_var| {
+                        self.solver
+                            .solution(max_var)
+                            .expect("could not get solution from solver")
+                    })
+                    .unwrap_or_default();
                 // Add blocking clause to solver
                 let bl_cl = sol.clone().into_iter().map(|l| !l).collect();
                 self.solver
@@ -188,17 +192,16 @@ fn main() -> anyhow::Result<()> {
 
     let (constr, objs) = parse_instance(&args.in_path, args.input_format, opb_opts)?.decompose();
 
-    let max_var = constr
-        .var_manager_ref()
-        .max_var()
-        .expect("expected at least one variable in the instance");
+    let max_var = constr.var_manager_ref().max_var();
 
     let (cnf, vm) = constr.into_cnf();
 
     let mut solver = rustsat_tools::Solver::default();
-    solver
-        .reserve(vm.max_var().expect("no variables in instance"))
-        .context("error reserving memory in solver")?;
+    if let Some(max_var) = vm.max_var() {
+        solver
+            .reserve(max_var)
+            .context("error reserving memory in solver")?;
+    }
     solver.add_cnf(cnf)?;
 
     let enumerator = Enumerator { solver, max_var };
diff --git a/tools/src/bin/propagator.rs b/tools/src/bin/propagator.rs
index 045b14c..f7bce05 100644
--- a/tools/src/bin/propagator.rs
+++ b/tools/src/bin/propagator.rs
@@ -137,9 +137,11 @@ fn main() -> anyhow::Result<()> {
     let (cnf, vm) = inst.into_cnf();
 
     let mut solver = rustsat_tools::Solver::default();
-    solver
-        .reserve(vm.max_var().expect("no variables in instance"))
-        .context("error reserving memory in solver")?;
+    if let Some(max_var) = vm.max_var().max(assumps.iter().map(|lit| lit.var()).max()) {
+        solver
+            .reserve(max_var)
+            .context("error reserving memory in solver")?;
+    }
     solver.add_cnf(cnf)?;
 
     let res = solver.propagate(&assumps, false)?;
-- 
2.43.0


From 6811da468eca13b574edfe521e7abea9a4258e71 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:59:27 +0000
Subject: [PATCH 48/57] fix: shuffledimacs: file type of xz-compressed files

---
 tools/src/bin/shuffledimacs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/src/bin/shuffledimacs.rs b/tools/src/bin/shuffledimacs.rs
index ea6c406..8ec2570 100644
--- a/tools/src/bin/shuffledimacs.rs
+++ b/tools/src/bin/shuffledimacs.rs
@@ -73,7 +73,7 @@ macro_rules! is_one_of {
 fn determine_file_type(in_path: &std::path::Path) -> FileType {
     if let Some(ext) = in_path.extension() {
         let path_without_compr = in_path.with_extension("");
-        let ext = if is_one_of!(ext, "gz", "bz2") {
+        let ext = if is_one_of!(ext, "gz", "bz2", "xz") {
             // Strip compression extension
             match path_without_compr.extension() {
                 Some(ext) => ext,
-- 
2.43.0


From 2f4795ece780d444384c56f10e599d9a4d93e99e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:59:27 +0000
Subject: [PATCH 49/57] fix: knapsack input: capacity of vOptLib files never
 read, incomplete files accepted, no items

---
 tools/src/encodings/knapsack.rs    | 68 +++++++++++++++++++++++-------
 tools/src/encodings/pb/knapsack.rs |  9 +++-
 tools/src/parsing.rs               |  4 +-
 3 files changed, 62 insertions(+), 19 deletions(-)

diff --git a/tools/src/encodings/knapsack.rs b/tools/src/encodings/knapsack.rs
index 62bfc4f..c421cc4 100644
--- a/tools/src/encodings/knapsack.rs
+++ b/tools/src/encodings/knapsack.rs
@@ -131,13 +131,7 @@ mod parsing {
             .parse(&line)
             .map_err(|e| ParsingError::from_parse(&e, &line, 0, line_num))?;
         let mut inst = super::Knapsack {
-            items: vec![
-                super::ItemData {
-                    weight: 0,
-                    values: vec![]
-                };
-                n_items
-            ],
+            items: vec![],
             capacity,
         };
         let mut buf = String::new();
@@ -161,13 +155,19 @@ mod parsing {
             let (_, remain) = (
                 ListCallbackParser::new(
                     |value| {
-                        if item_idx >= inst.items.len() {
+                        if item_idx >= n_items {
                             let mut err = ContextError::new();
                             err.push(StrContext::Expected(StrContextValue::Description(
                                 "too many values",
                             )));
                             return Err(err);
                         }
+                        if item_idx == inst.items.len() {
+                            inst.items.push(super::ItemData {
+                                weight: 0,
+                                values: vec![],
+                            });
+                        }
                         inst.items[item_idx].values.push(value);
                         item_idx += 1;
                         Ok(())
@@ -241,12 +241,24 @@ mod parsing {
                 line_num,
             )
         })?;
+        anyhow::ensure!(
+            inst.items.len() == n_items,
+            "number of values does not match number of items"
+        );
+        anyhow::ensure!(
+            item_idx == n_items,
+            "number of weights does not match number of items"
+        );
         for item in &inst.items {
             anyhow::ensure!(
                 item.values.len() == n_obj,
                 "number of values for item does not match number of objectives"
             );
         }
+        anyhow::ensure!(
+            next_non_comment_line!(reader, line_num).is_none(),
+            "unexpected data after the weights"
+        );
         Ok(inst)
     }
 
@@ -268,20 +280,20 @@ mod parsing {
             )))
             .parse(&line)
             .map_err(|e| ParsingError::from_parse(&e, &line, 0, line_num))?;
-        single_value(dec_uint::<_, u32, ContextError>, "#")
+        let line = next_non_comment_line!(reader, line_num)
+            .context("file ended before number of constraints line")?;
+        let n_constr = single_value(dec_uint::<_, u32, ContextError>, "#")
             .context(StrContext::Expected(StrContextValue::Description(
                 "number of constraints",
             )))
             .parse(&line)
             .map_err(|e| ParsingError::from_parse(&e, &line, 0, line_num))?;
+        anyhow::ensure!(
+            n_constr == 1,
+            "only instances with a single constraint are supported"
+        );
         let mut inst = super::Knapsack {
-            items: vec![
-                super::ItemData {
-                    weight: 0,
-                    values: vec![]
-                };
-                n_items
-            ],
+            items: vec![],
             capacity: 0,
         };
         for obj_idx in 0..n_obj {
@@ -295,6 +307,12 @@ mod parsing {
                     )))
                     .parse(&line)
                     .map_err(|e| ParsingError::from_parse(&e, &line, 0, line_num))?;
+                if item_idx == inst.items.len() {
+                    inst.items.push(super::ItemData {
+                        weight: 0,
+                        values: vec![],
+                    });
+                }
                 inst.items[item_idx].values.push(value);
             }
         }
@@ -305,8 +323,26 @@ mod parsing {
                 .context(StrContext::Expected(StrContextValue::Description("weight")))
                 .parse(&line)
                 .map_err(|e| ParsingError::from_parse(&e, &line, 0, line_num))?;
+            if item_idx == inst.items.len() {
+                inst.items.push(super::ItemData {
+                    weight: 0,
+                    values: vec![],
+                });
+            }
             inst.items[item_idx].weight = weight;
         }
+        let line =
+            next_non_comment_line!(reader, line_num).context("file ended before capacity line")?;
+        inst.capacity = single_value(dec_uint::<_, usize, ContextError>, "#")
+            .context(StrContext::Expected(StrContextValue::Description(
+                "capacity",
+            )))
+            .parse(&line)
+            .map_err(|e| ParsingError::from_parse(&e, &line, 0, line_num))?;
+        anyhow::ensure!(
+            next_non_comment_line!(reader, line_num).is_none(),
+            "unexpected data after the capacity"
+        );
         Ok(inst)
     }
 
diff --git a/tools/src/encodings/pb/knapsack.rs b/tools/src/encodings/pb/knapsack.rs
index a2906f9..d8b6d0c 100644
--- a/tools/src/encodings/pb/knapsack.rs
+++ b/tools/src/encodings/pb/knapsack.rs
@@ -37,6 +37,7 @@ impl Iterator for Encoding {
     type Item = opb::FileLine<<Vec<(Lit, usize)> as IntoIterator>::IntoIter>;
 
     fn next(&mut self) -> Option<Self::Item> {
+        let n_objs = self.data.items.first().map_or(0, |item| item.values.len());
         match self.next_line.take() {
             Some(line) => Some(match line {
                 Line::Hint => {
@@ -47,7 +48,11 @@ impl Iterator for Encoding {
                     ))
                 }
                 Line::Description => {
-                    self.next_line = Some(Line::Objective(0));
+                    self.next_line = Some(if n_objs > 0 {
+                        Line::Objective(0)
+                    } else {
+                        Line::Capacity
+                    });
                     opb::FileLine::Comment("MO Knapsack instance generated by RustSAT".to_string())
                 }
                 Line::Objective(oidx) => {
@@ -58,7 +63,7 @@ impl Iterator for Encoding {
                         .enumerate()
                         .map(|(iidx, item)| (Lit::new(iidx as u32, true), item.values[oidx]))
                         .collect();
-                    self.next_line = Some(if oidx + 1 < self.data.items[0].values.len() {
+                    self.next_line = Some(if oidx + 1 < n_objs {
                         Line::Objective(oidx + 1)
                     } else {
                         Line::Capacity
diff --git a/tools/src/parsing.rs b/tools/src/parsing.rs
index aa64453..1534608 100644
--- a/tools/src/parsing.rs
+++ b/tools/src/parsing.rs
@@ -4,6 +4,8 @@ use winnow::ascii::line_ending;
 use winnow::ascii::space0;
 use winnow::ascii::space1;
 use winnow::ascii::till_line_ending;
+use winnow::combinator::alt;
+use winnow::combinator::eof;
 use winnow::combinator::opt;
 use winnow::error::ContextError;
 use winnow::error::ParserError;
@@ -35,7 +37,7 @@ where
     winnow::seq! {
         space0,
         opt((comment_tag, till_line_ending)),
-        line_ending,
+        alt((line_ending, eof)),
     }
     .take()
 }
-- 
2.43.0


From f35467bb1b7476b1aa824e17ace9ec9877325364 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:59:27 +0000
Subject: [PATCH 50/57] fix: assignment input: endless loop and panics on
 malformed lists, incomplete matrices accepted

---
 tools/src/encodings/assignment.rs | 87 ++++++++++++++++---------------
 1 file changed, 44 insertions(+), 43 deletions(-)

diff --git a/tools/src/encodings/assignment.rs b/tools/src/encodings/assignment.rs
index 79aad3a..5730ba3 100644
--- a/tools/src/encodings/assignment.rs
+++ b/tools/src/encodings/assignment.rs
@@ -12,14 +12,6 @@ pub struct Assignment {
 }
 
 impl Assignment {
-    fn empty(n_tasks: usize, n_objs: usize) -> Self {
-        Self {
-            n_tasks,
-            n_objs,
-            costs: vec![0; n_objs * n_tasks * n_tasks],
-        }
-    }
-
     pub fn from_file(reader: impl std::io::BufRead) -> anyhow::Result<Self> {
         parsing::parse_moolib(reader)
     }
@@ -88,44 +80,35 @@ mod parsing {
             )))
             .parse(&line)
             .map_err(|e| ParsingError::from_parse(&e, &line, 0, line_num))?;
-        let mut inst = super::Assignment::empty(n_tasks, n_objs);
+        let mut inst = super::Assignment {
+            n_tasks,
+            n_objs,
+            costs: vec![],
+        };
         let mut buf = String::new();
         let mut depth = 0;
         let mut obj_idx = 0;
         let mut task_idx = 0;
+        let mut expect_list = true;
+        let mut ended = false;
         while reader.read_line(&mut buf)? > 0 {
             line_num += 1;
-            let mut remain = buf.trim_start();
-            loop {
-                if remain.starts_with('[') && depth < 2 {
+            let mut remain = buf.trim();
+            while !remain.is_empty() && !remain.starts_with('#') {
+                anyhow::ensure!(
+                    !ended,
+                    "unexpected data after the end of the list in line {line_num}"
+                );
+                if expect_list && depth < 2 {
+                    anyhow::ensure!(
+                        remain.starts_with('['),
+                        "expected start of list in line {line_num}"
+                    );
                     depth += 1;
                     remain = &remain[1..];
-                }
-                if remain.starts_with(']') {
-                    depth -= 1;
-                    if depth == 1 {
-                        task_idx = 0;
-                    }
-                    remain = &remain[1..];
-                }
-                if remain.starts_with(',') {
-                    match depth {
-                        1 => {
-                            obj_idx += 1;
-                            anyhow::ensure!(obj_idx < n_objs, "too many objectives");
-                        }
-                        2 => {
-                            task_idx += 1;
-                            anyhow::ensure!(obj_idx < n_objs, "too many tasks");
-                        }
-                        _ => unreachable!(),
-                    };
-                    remain = &remain[1..];
-                }
-                if remain.starts_with('#') || remain.trim().is_empty() {
-                    break;
-                }
-                if depth == 2 {
+                } else if expect_list {
+                    anyhow::ensure!(obj_idx < n_objs, "too many objectives");
+                    anyhow::ensure!(task_idx < n_tasks, "too many tasks");
                     let mut agent_idx = 0;
                     remain = (
                         ListCallbackParser::new(
@@ -137,7 +120,7 @@ mod parsing {
                                     )));
                                     return Err(err);
                                 }
-                                *inst.cost_mut(task_idx, agent_idx, obj_idx) = value;
+                                inst.costs.push(value);
                                 agent_idx += 1;
                                 Ok(())
                             },
@@ -158,14 +141,32 @@ mod parsing {
                             )
                         })?
                         .1;
+                    anyhow::ensure!(agent_idx == n_tasks, "too few agents in line {line_num}");
+                    task_idx += 1;
+                    expect_list = false;
+                } else if remain.starts_with(',') {
+                    expect_list = true;
+                    remain = &remain[1..];
+                } else {
+                    anyhow::ensure!(
+                        remain.starts_with(']'),
+                        "expected list delimiter or end in line {line_num}"
+                    );
+                    if depth == 2 {
+                        anyhow::ensure!(task_idx == n_tasks, "too few tasks in line {line_num}");
+                        task_idx = 0;
+                        obj_idx += 1;
+                    }
+                    depth -= 1;
+                    ended = depth == 0;
+                    remain = &remain[1..];
                 }
+                remain = remain.trim_start();
             }
             buf.clear();
         }
-        anyhow::ensure!(
-            obj_idx + 1 == n_objs,
-            "number of objectives does not match up"
-        );
+        anyhow::ensure!(ended, "file ended before list ended");
+        anyhow::ensure!(obj_idx == n_objs, "number of objectives does not match up");
         Ok(inst)
     }
 
-- 
2.43.0


From 17921a6024ba54ab3af899a03b4ac2441249a528 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:59:27 +0000
Subject: [PATCH 51/57] fix: facility location input: rows of the wrong length
 accepted, no customers

---
 tools/src/encodings/facilitylocation.rs    | 12 +++++++++++-
 tools/src/encodings/pb/facilitylocation.rs | 10 ++++++----
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/tools/src/encodings/facilitylocation.rs b/tools/src/encodings/facilitylocation.rs
index ae42f07..cf28212 100644
--- a/tools/src/encodings/facilitylocation.rs
+++ b/tools/src/encodings/facilitylocation.rs
@@ -105,6 +105,7 @@ mod parsing {
             n_facilities: n_services,
             ..super::FacilityLocation::default()
         };
+        let mut n_costs = 0;
         for _ in 0..2 {
             next_line!(reader, line_num).context("file ended early")?;
             for _ in 0..n_users {
@@ -122,10 +123,15 @@ mod parsing {
                 )))
                 .parse(line.trim_end())
                 .map_err(|e| ParsingError::from_parse(&e, &line, 0, line_num))?;
+                n_costs += n_services;
+                anyhow::ensure!(
+                    prob.supply_cost.len() == n_costs,
+                    "number of values in c matrix line does not match number of services"
+                );
             }
         }
 
-        for _ in 0..2 {
+        for obj in 0..2 {
             next_line!(reader, line_num).context("file ended early")?;
             let line = next_line!(reader, line_num).context("file ended early")?;
             SeparatedCallbackParser::new(
@@ -140,6 +146,10 @@ mod parsing {
             )))
             .parse(line.trim_end())
             .map_err(|e| ParsingError::from_parse(&e, &line, 0, line_num))?;
+            anyhow::ensure!(
+                prob.opening_cost.len() == (obj + 1) * n_services,
+                "number of values in r vector does not match number of services"
+            );
         }
 
         Ok(prob)
diff --git a/tools/src/encodings/pb/facilitylocation.rs b/tools/src/encodings/pb/facilitylocation.rs
index 3fcb497..db78043 100644
--- a/tools/src/encodings/pb/facilitylocation.rs
+++ b/tools/src/encodings/pb/facilitylocation.rs
@@ -84,11 +84,13 @@ impl Iterator for Encoding {
                         })
                         .chain(opening_cost)
                         .collect();
-                    self.next_line = Some(if objidx + 1 < self.data.n_objs() {
-                        Line::Objective(objidx + 1)
+                    self.next_line = if objidx + 1 < self.data.n_objs() {
+                        Some(Line::Objective(objidx + 1))
+                    } else if self.data.n_customers() > 0 {
+                        Some(Line::OneFacility(0))
                     } else {
-                        Line::OneFacility(0)
-                    });
+                        None
+                    };
                     opb::FileLine::Objective(obj.into_iter())
                 }
                 Line::OneFacility(customer) => {
-- 
2.43.0


From e7b26037a265502102cd47d98c1e6fa801ee6553 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:59:27 +0000
Subject: [PATCH 52/57] fix: clustering input: lines that cannot be parsed were
 dropped, fewer than two nodes

---
 tools/src/encodings/cnf/clustering.rs | 34 ++++++++++++++++-----------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/tools/src/encodings/cnf/clustering.rs b/tools/src/encodings/cnf/clustering.rs
index 651c636..26a9c9f 100644
--- a/tools/src/encodings/cnf/clustering.rs
+++ b/tools/src/encodings/cnf/clustering.rs
@@ -139,12 +139,15 @@ impl Encoding {
         let mut next_idx: u32 = 0;
         let process_line =
             |(line_num, line): (usize, Result<String, std::io::Error>)| -> Option<anyhow::Result<(String, String, f64)>> {
-                let full_line = line.ok()?;
-                let line = full_line.trim_start();
-                if line.starts_with('%') {
+                let full_line = match line {
+                    Ok(line) => line,
+                    Err(err) => return Some(Err(err.into())),
+                };
+                let line = full_line.trim();
+                if line.is_empty() || line.starts_with('%') {
                     return None;
                 }
-                let tup = winnow::Parser::<_, _, ContextError>::parse(
+                let tup = match winnow::Parser::<_, _, ContextError>::parse(
                     &mut winnow::seq! {
                         ident(),
                         _: multispace1::<_, ContextError>,
@@ -154,8 +157,11 @@ impl Encoding {
                     },
                     line,
                 )
-                .map_err(|e| ParsingError::from_parse(&e, &full_line, 0, line_num+1))
-                .ok()?;
+                .map_err(|e| ParsingError::from_parse(&e, &full_line, 0, line_num + 1))
+                {
+                    Ok(tup) => tup,
+                    Err(err) => return Some(Err(err.into())),
+                };
                 if !ident_map.contains_key(&tup.0) {
                     ident_map.insert(tup.0.clone(), next_idx);
                     next_idx += 1;
@@ -173,8 +179,8 @@ impl Encoding {
             .collect::<Result<Vec<_>, _>>()?;
         let n = ident_map.len() as u32;
 
-        let mut similarities = Vec::new();
-        similarities.resize(Self::sim_idx(n - 2, n - 1, n) + 1, Similarity::DontCare);
+        let n_pairs = n as usize * (n as usize).saturating_sub(1) / 2;
+        let mut similarities = vec![Similarity::DontCare; n_pairs];
         for (ident1, ident2, sim) in pairwise {
             let mut idx1 = *ident_map.get(&ident1).unwrap();
             let mut idx2 = *ident_map.get(&ident2).unwrap();
@@ -227,7 +233,7 @@ impl Iterator for Encoding {
         loop {
             match self.next_clause {
                 Clause::Eq(idx1, idx2, k, cidx) => {
-                    if idx1 >= self.n - 1 {
+                    if idx1 + 1 >= self.n {
                         self.next_clause = Clause::Same(0, 1, 0);
                         continue;
                     }
@@ -264,7 +270,7 @@ impl Iterator for Encoding {
                     }));
                 }
                 Clause::Same(idx1, idx2, cidx) => {
-                    if idx1 >= self.n - 1 {
+                    if idx1 + 1 >= self.n {
                         self.next_clause = Clause::MustLink(0, 1, 0);
                         continue;
                     }
@@ -301,7 +307,7 @@ impl Iterator for Encoding {
                     }));
                 }
                 Clause::MustLink(idx1, idx2, cidx) => {
-                    if idx1 >= self.n - 1 {
+                    if idx1 + 1 >= self.n {
                         self.next_clause = Clause::CannotLink(0, 1);
                         continue;
                     }
@@ -331,7 +337,7 @@ impl Iterator for Encoding {
                     }));
                 }
                 Clause::CannotLink(idx1, idx2) => {
-                    if idx1 >= self.n - 1 {
+                    if idx1 + 1 >= self.n {
                         self.next_clause = Clause::Similar(0, 1);
                         continue;
                     }
@@ -355,7 +361,7 @@ impl Iterator for Encoding {
                     ));
                 }
                 Clause::Similar(idx1, idx2) => {
-                    if idx1 >= self.n - 1 {
+                    if idx1 + 1 >= self.n {
                         self.next_clause = Clause::DisSimilar(0, 1);
                         continue;
                     }
@@ -378,7 +384,7 @@ impl Iterator for Encoding {
                     }
                 }
                 Clause::DisSimilar(idx1, idx2) => {
-                    if idx1 >= self.n - 1 {
+                    if idx1 + 1 >= self.n {
                         return None;
                     }
                     if idx2 >= self.n {
-- 
2.43.0


From ba7a3882936972bc751124a6813d20bd35a2f773 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:59:27 +0000
Subject: [PATCH 53/57] fix: encodings: ignored --single-objective, maxima of
 random instances, lost write errors

---
 tools/src/bin/encodings.rs | 40 +++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/tools/src/bin/encodings.rs b/tools/src/bin/encodings.rs
index 1877de1..07ba182 100644
--- a/tools/src/bin/encodings.rs
+++ b/tools/src/bin/encodings.rs
@@ -203,7 +203,7 @@ fn clustering(args: ClusteringArgs) -> anyhow::Result<impl Iterator<Item = fio::
             std::io::BufReader::new(std::fs::File::open(in_path)?),
             |sim| {
                 cnf::clustering::saturating_map(
-                    cnf::clustering::scaling_map(sim, args.multiplier) - args.offset,
+                    cnf::clustering::scaling_map(sim, args.multiplier).saturating_sub(args.offset),
                     args.dont_care,
                     args.hard_threshold,
                 )
@@ -212,7 +212,7 @@ fn clustering(args: ClusteringArgs) -> anyhow::Result<impl Iterator<Item = fio::
     } else {
         cnf::clustering::Encoding::new(std::io::BufReader::new(std::io::stdin()), |sim| {
             cnf::clustering::saturating_map(
-                cnf::clustering::scaling_map(sim, args.multiplier) - args.offset,
+                cnf::clustering::scaling_map(sim, args.multiplier).saturating_sub(args.offset),
                 args.dont_care,
                 args.hard_threshold,
             )
@@ -220,15 +220,27 @@ fn clustering(args: ClusteringArgs) -> anyhow::Result<impl Iterator<Item = fio::
     }
 }
 
-fn random_knapsack(args: &RandomKnapsackArgs) -> knapsack::Knapsack {
-    knapsack::Knapsack::random(
+fn random_knapsack(args: &RandomKnapsackArgs) -> anyhow::Result<knapsack::Knapsack> {
+    anyhow::ensure!(
+        args.min_value <= args.max_value && args.max_value < usize::MAX,
+        "invalid range of item values"
+    );
+    anyhow::ensure!(
+        args.min_weight <= args.max_weight && args.max_weight < usize::MAX,
+        "invalid range of item weights"
+    );
+    anyhow::ensure!(
+        args.cap_fraction > 0,
+        "the capacity fraction must be positive"
+    );
+    Ok(knapsack::Knapsack::random(
         args.n_items,
         args.n_objectives,
-        args.min_value..args.max_value,
-        args.min_weight..args.max_weight,
+        args.min_value..args.max_value + 1,
+        args.min_weight..args.max_weight + 1,
         knapsack::Capacity::FractionTotalWeight(args.cap_fraction),
         args.seed,
-    )
+    ))
 }
 
 fn input_knapsack(args: &InputKnapsackArgs) -> anyhow::Result<knapsack::Knapsack> {
@@ -303,6 +315,7 @@ fn write_cnf(
         } else {
             fio::dimacs::write_mcnf(&mut file, encoding)?;
         }
+        std::io::Write::flush(&mut file)?;
     } else if single_objective {
         fio::dimacs::write_wcnf(&mut std::io::stdout(), encoding.map(mcnf_to_wcnf))?;
     } else {
@@ -319,6 +332,7 @@ fn write_pb<LI: rustsat::types::WLitIter>(
     if let Some(out_path) = path {
         let mut file = std::io::BufWriter::new(std::fs::File::create(out_path)?);
         fio::opb::write_opb_lines(&mut file, encoding, opts)?;
+        std::io::Write::flush(&mut file)?;
     } else {
         fio::opb::write_opb_lines(&mut std::io::stdout(), encoding, opts)?;
     }
@@ -335,17 +349,21 @@ fn main() -> anyhow::Result<()> {
     let out_path = args.out_path;
     match args.fmt {
         Format::Cnf(args) => {
+            let mut single_objective = args.single_objective;
             let enc: BoxedDimacsIter = match args.enc {
-                CnfEncoding::Clustering(args) => Box::new(clustering(args)?),
+                CnfEncoding::Clustering(args) => {
+                    single_objective |= args.single_objective;
+                    Box::new(clustering(args)?)
+                }
                 CnfEncoding::Knapsack(args) => {
                     let inst = match args.variant {
                         KnapsackCommand::Input(args) => input_knapsack(&args)?,
-                        KnapsackCommand::Random(args) => random_knapsack(&args),
+                        KnapsackCommand::Random(args) => random_knapsack(&args)?,
                     };
                     Box::new(cnf_knapsack(inst))
                 }
             };
-            write_cnf(enc, out_path, args.single_objective)
+            write_cnf(enc, out_path, single_objective)
         }
         Format::Pb(args) => {
             let opts = fio::opb::Options {
@@ -356,7 +374,7 @@ fn main() -> anyhow::Result<()> {
                 PbEncoding::Knapsack(args) => {
                     let inst = match args.variant {
                         KnapsackCommand::Input(args) => input_knapsack(&args)?,
-                        KnapsackCommand::Random(args) => random_knapsack(&args),
+                        KnapsackCommand::Random(args) => random_knapsack(&args)?,
                     };
                     Box::new(pb_knapsack(inst))
                 }
-- 
2.43.0


From a4dd9fc3957759609cb212cea82c674b219935a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:25 +0000
Subject: [PATCH 54/57] fix: pyapi: the documented default arguments exist
 (C26)

---
 pyapi/src/encodings/am1.rs  | 2 +-
 pyapi/src/encodings/card.rs | 2 +-
 pyapi/src/encodings/pb.rs   | 2 +-
 pyapi/src/instances.rs      | 4 ++--
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyapi/src/encodings/am1.rs b/pyapi/src/encodings/am1.rs
index f22edee..8e7d66a 100644
--- a/pyapi/src/encodings/am1.rs
+++ b/pyapi/src/encodings/am1.rs
@@ -21,7 +21,7 @@ macro_rules! implement_pyapi {
         #[pymethods]
         impl $type {
             #[new]
-            #[pyo3(text_signature = "(lits = [])")]
+            #[pyo3(signature = (lits = vec![]), text_signature = "(lits = [])")]
             fn new(lits: Vec<crate::types::Lit>) -> Self {
                 let lits: Vec<rustsat::types::Lit> = unsafe { std::mem::transmute(lits) };
                 <$rstype>::from_iter(lits).into()
diff --git a/pyapi/src/encodings/card.rs b/pyapi/src/encodings/card.rs
index b2f4988..9e014bd 100644
--- a/pyapi/src/encodings/card.rs
+++ b/pyapi/src/encodings/card.rs
@@ -28,7 +28,7 @@ macro_rules! implement_pyapi {
         #[pymethods]
         impl $type {
             #[new]
-            #[pyo3(text_signature = "(lits = [])")]
+            #[pyo3(signature = (lits = vec![]), text_signature = "(lits = [])")]
             fn new(lits: Vec<crate::types::Lit>) -> Self {
                 let lits: Vec<rustsat::types::Lit> = unsafe { std::mem::transmute(lits) };
                 <$rstype>::from_iter(lits).into()
diff --git a/pyapi/src/encodings/pb.rs b/pyapi/src/encodings/pb.rs
index 902be24..02edf48 100644
--- a/pyapi/src/encodings/pb.rs
+++ b/pyapi/src/encodings/pb.rs
@@ -39,7 +39,7 @@ macro_rules! shared_pyapi {
         #[pymethods]
         impl $type {
             #[new]
-            #[pyo3(text_signature = "(lits = [])")]
+            #[pyo3(signature = (lits = vec![]), text_signature = "(lits = [])")]
             fn new(lits: Vec<(crate::types::Lit, usize)>) -> Self {
                 let lits: Vec<(rustsat::types::Lit, usize)> = unsafe { std::mem::transmute(lits) };
                 <$rstype>::from_iter(lits).into()
diff --git a/pyapi/src/instances.rs b/pyapi/src/instances.rs
index 9665238..c6b8089 100644
--- a/pyapi/src/instances.rs
+++ b/pyapi/src/instances.rs
@@ -37,7 +37,7 @@ impl<'a> From<&'a mut VarManager> for &'a mut rustsat::instances::BasicVarManage
 impl VarManager {
     /// Creates a new variable manager. Optionally marking `n_used` variables as already used.
     #[new]
-    #[pyo3(text_signature = "(n_used = 0)")]
+    #[pyo3(signature = (n_used = 0), text_signature = "(n_used = 0)")]
     fn new(n_used: u32) -> Self {
         rustsat::instances::BasicVarManager::from_next_free(rustsat::types::Var::new(n_used)).into()
     }
@@ -127,7 +127,7 @@ impl Cnf {
     }
 
     #[new]
-    #[pyo3(text_signature = "(clauses = [])")]
+    #[pyo3(signature = (clauses = vec![]), text_signature = "(clauses = [])")]
     fn new(clauses: Vec<crate::types::Clause>) -> Self {
         clauses
             .into_iter()
-- 
2.43.0


From 9d17f79d585fab4f224cee29ece382f5ad8639ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:27 +0000
Subject: [PATCH 55/57] fix: pyapi: indexing follows the semantics of Python
 sequences (C26)

---
 pyapi/src/instances.rs | 24 ++++++++----------------
 pyapi/src/lib.rs       | 33 +++++++++++++++++++++++++++++++++
 pyapi/src/types.rs     | 24 ++++++------------------
 3 files changed, 47 insertions(+), 34 deletions(-)

diff --git a/pyapi/src/instances.rs b/pyapi/src/instances.rs
index c6b8089..87809af 100644
--- a/pyapi/src/instances.rs
+++ b/pyapi/src/instances.rs
@@ -144,29 +144,21 @@ impl Cnf {
         self.cnf.len()
     }
 
-    #[expect(clippy::cast_sign_loss)]
     #[expect(clippy::needless_pass_by_value)]
     fn __getitem__(
         &self,
         idx: Bound<'_, PyAny>,
     ) -> PyResult<crate::SingleOrList<crate::types::Clause>> {
-        if let Ok(idx) = idx.extract::<i32>() {
-            let idx: usize = idx.try_into().expect("got unexpected negative index");
-            Ok(crate::SingleOrList::Single(self.cnf[idx].clone().into()))
-        } else if let Ok(slice) = idx.cast::<pyo3::types::PySlice>() {
-            let indices = slice.indices(self.__len__().try_into().unwrap())?;
-            debug_assert!(indices.start >= 0);
-            debug_assert!(indices.stop >= 0);
-            debug_assert!(indices.step >= 0);
-            Ok(crate::SingleOrList::List(
-                (indices.start as usize..indices.stop as usize)
-                    .step_by(indices.step as usize)
+        Ok(match crate::resolve_index(&idx, self.__len__())? {
+            crate::SingleOrList::Single(idx) => {
+                crate::SingleOrList::Single(self.cnf[idx].clone().into())
+            }
+            crate::SingleOrList::List(idxs) => crate::SingleOrList::List(
+                idxs.into_iter()
                     .map(|idx| self.cnf[idx].clone().into())
                     .collect(),
-            ))
-        } else {
-            Err(pyo3::exceptions::PyTypeError::new_err("Unsupported type"))
-        }
+            ),
+        })
     }
 
     /// Adds an implication of form `a -> b`
diff --git a/pyapi/src/lib.rs b/pyapi/src/lib.rs
index d60bd00..526a7d2 100644
--- a/pyapi/src/lib.rs
+++ b/pyapi/src/lib.rs
@@ -28,6 +28,39 @@ pub(crate) enum SingleOrList<T> {
     List(Vec<T>),
 }
 
+/// Resolves the argument of `__getitem__` for a sequence of length `len` to the indices it stands
+/// for, following the semantics of Python sequences
+#[expect(clippy::cast_sign_loss)]
+pub(crate) fn resolve_index(idx: &Bound<'_, PyAny>, len: usize) -> PyResult<SingleOrList<usize>> {
+    // lengths of Rust collections never exceed `isize::MAX`
+    let signed_len: isize = len.try_into()?;
+    if let Ok(slice) = idx.cast::<pyo3::types::PySlice>() {
+        let indices = slice.indices(signed_len)?;
+        let mut idx = indices.start;
+        return Ok(SingleOrList::List(
+            (0..indices.slicelength)
+                .map(|_| {
+                    let this = idx as usize;
+                    idx = idx.saturating_add(indices.step);
+                    this
+                })
+                .collect(),
+        ));
+    }
+    match idx.extract::<isize>() {
+        Ok(idx) if (0..signed_len).contains(&idx) => Ok(SingleOrList::Single(idx as usize)),
+        Ok(idx) if (-signed_len..0).contains(&idx) => {
+            Ok(SingleOrList::Single((signed_len + idx) as usize))
+        }
+        Err(err) if !err.is_instance_of::<pyo3::exceptions::PyOverflowError>(idx.py()) => {
+            Err(pyo3::exceptions::PyTypeError::new_err("Unsupported type"))
+        }
+        _ => Err(pyo3::exceptions::PyIndexError::new_err(
+            "index out of range",
+        )),
+    }
+}
+
 /// Python bindings for the RustSAT library
 #[pymodule]
 fn rustsat(py: Python<'_>, m: &Bound<'_, PyModule>) -> PyResult<()> {
diff --git a/pyapi/src/types.rs b/pyapi/src/types.rs
index 4fde3ba..28b9ac8 100644
--- a/pyapi/src/types.rs
+++ b/pyapi/src/types.rs
@@ -158,26 +158,14 @@ impl Clause {
         self.cl.len()
     }
 
-    #[expect(clippy::cast_sign_loss)]
     #[expect(clippy::needless_pass_by_value)]
     fn __getitem__(&self, idx: Bound<'_, PyAny>) -> PyResult<crate::SingleOrList<Lit>> {
-        if let Ok(idx) = idx.extract::<i32>() {
-            let idx: usize = idx.try_into().expect("got unexpected negative index");
-            Ok(crate::SingleOrList::Single(Lit(self.cl[idx])))
-        } else if let Ok(slice) = idx.cast::<pyo3::types::PySlice>() {
-            let indices = slice.indices(self.__len__().try_into().unwrap())?;
-            debug_assert!(indices.start >= 0);
-            debug_assert!(indices.stop >= 0);
-            debug_assert!(indices.step >= 0);
-            Ok(crate::SingleOrList::List(
-                (indices.start as usize..indices.stop as usize)
-                    .step_by(indices.step as usize)
-                    .map(|idx| Lit(self.cl[idx]))
-                    .collect(),
-            ))
-        } else {
-            Err(pyo3::exceptions::PyTypeError::new_err("Unsupported type"))
-        }
+        Ok(match crate::resolve_index(&idx, self.__len__())? {
+            crate::SingleOrList::Single(idx) => crate::SingleOrList::Single(Lit(self.cl[idx])),
+            crate::SingleOrList::List(idxs) => {
+                crate::SingleOrList::List(idxs.into_iter().map(|idx| Lit(self.cl[idx])).collect())
+            }
+        })
     }
 
     fn __iter__(mut slf: PyRefMut<'_, Self>) -> ClauseIter {
-- 
2.43.0


From 65f11bd6dc8ac45e9ae8e3a6a0faf2dbb00d6530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:29 +0000
Subject: [PATCH 56/57] fix: pyapi: extending a clause during iteration is
 detected, no panics of iterators (C26)

---
 pyapi/src/instances.rs | 22 ++++++++++++----------
 pyapi/src/types.rs     | 21 +++++++++++++--------
 2 files changed, 25 insertions(+), 18 deletions(-)

diff --git a/pyapi/src/instances.rs b/pyapi/src/instances.rs
index 87809af..04efcd1 100644
--- a/pyapi/src/instances.rs
+++ b/pyapi/src/instances.rs
@@ -257,17 +257,19 @@ impl CnfIter {
     }
 
     fn __next__(mut slf: PyRefMut<'_, Self>) -> PyResult<Option<crate::types::Clause>> {
-        if slf.cnf.borrow(slf.py()).modified {
-            return Err(pyo3::exceptions::PyRuntimeError::new_err(
-                "cnf modified during iteration",
-            ));
-        }
-        if slf.index < slf.cnf.borrow(slf.py()).__len__() {
+        let next = {
+            let cnf = slf.cnf.try_borrow(slf.py())?;
+            if cnf.modified {
+                return Err(pyo3::exceptions::PyRuntimeError::new_err(
+                    "cnf modified during iteration",
+                ));
+            }
+            let next = cnf.cnf.iter().nth(slf.index).cloned();
+            next.map(Into::into)
+        };
+        if next.is_some() {
             slf.index += 1;
-            return Ok(Some(
-                slf.cnf.borrow(slf.py()).cnf[slf.index - 1].clone().into(),
-            ));
         }
-        Ok(None)
+        Ok(next)
     }
 }
diff --git a/pyapi/src/types.rs b/pyapi/src/types.rs
index 28b9ac8..6b165e4 100644
--- a/pyapi/src/types.rs
+++ b/pyapi/src/types.rs
@@ -178,6 +178,7 @@ impl Clause {
 
     fn extend(&mut self, lits: Vec<Lit>) {
         let lits: Vec<rustsat::types::Lit> = unsafe { std::mem::transmute(lits) };
+        self.modified = true;
         self.cl.extend(lits);
     }
 
@@ -203,15 +204,19 @@ impl ClauseIter {
     }
 
     fn __next__(mut slf: PyRefMut<'_, Self>) -> PyResult<Option<Lit>> {
-        if slf.clause.borrow(slf.py()).modified {
-            return Err(pyo3::exceptions::PyRuntimeError::new_err(
-                "clause modified during iteration",
-            ));
-        }
-        if slf.index < slf.clause.borrow(slf.py()).__len__() {
+        let next = {
+            let clause = slf.clause.try_borrow(slf.py())?;
+            if clause.modified {
+                return Err(pyo3::exceptions::PyRuntimeError::new_err(
+                    "clause modified during iteration",
+                ));
+            }
+            let next = clause.cl.iter().nth(slf.index).copied();
+            next.map(Lit)
+        };
+        if next.is_some() {
             slf.index += 1;
-            return Ok(Some(Lit(slf.clause.borrow(slf.py()).cl[slf.index - 1])));
         }
-        Ok(None)
+        Ok(next)
     }
 }
-- 
2.43.0


From c5cc85d4ec6bfc047d4139062b6b7f346fdef66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:30 +0000
Subject: [PATCH 57/57] fix: pyapi: unrepresentable values raise exceptions
 instead of panicking (C26)

---
 pyapi/src/instances.rs | 14 ++++++++++----
 pyapi/src/types.rs     | 16 ++++++----------
 2 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/pyapi/src/instances.rs b/pyapi/src/instances.rs
index 04efcd1..3538d50 100644
--- a/pyapi/src/instances.rs
+++ b/pyapi/src/instances.rs
@@ -33,18 +33,24 @@ impl<'a> From<&'a mut VarManager> for &'a mut rustsat::instances::BasicVarManage
     }
 }
 
+/// Gets the first free variable, if `n_used` variables are used
+fn next_free(n_used: u32) -> PyResult<rustsat::types::Var> {
+    rustsat::types::Var::new_with_error(n_used)
+        .map_err(|_| pyo3::exceptions::PyValueError::new_err("number of used variables too high"))
+}
+
 #[pymethods]
 impl VarManager {
     /// Creates a new variable manager. Optionally marking `n_used` variables as already used.
     #[new]
     #[pyo3(signature = (n_used = 0), text_signature = "(n_used = 0)")]
-    fn new(n_used: u32) -> Self {
-        rustsat::instances::BasicVarManager::from_next_free(rustsat::types::Var::new(n_used)).into()
+    fn new(n_used: u32) -> PyResult<Self> {
+        Ok(rustsat::instances::BasicVarManager::from_next_free(next_free(n_used)?).into())
     }
 
     /// Increases the number of variables marked as used
-    fn increase_used(&mut self, n_used: u32) -> bool {
-        self.0.increase_next_free(rustsat::types::Var::new(n_used))
+    fn increase_used(&mut self, n_used: u32) -> PyResult<bool> {
+        Ok(self.0.increase_next_free(next_free(n_used)?))
     }
 
     /// Gets a new unused variable
diff --git a/pyapi/src/types.rs b/pyapi/src/types.rs
index 6b165e4..edc1394 100644
--- a/pyapi/src/types.rs
+++ b/pyapi/src/types.rs
@@ -58,16 +58,12 @@ impl Lit {
 
     /// Gets the IPASIR/DIMACS representation of the literal
     #[expect(clippy::wrong_self_convention)]
-    fn to_ipasir(&self) -> c_int {
-        let negated = self.0.is_neg();
-        let idx: c_int = (self.0.vidx() + 1)
-            .try_into()
-            .expect("variable index too high to fit in c_int");
-        if negated {
-            -idx
-        } else {
-            idx
-        }
+    fn to_ipasir(&self) -> PyResult<c_int> {
+        let idx = i64::from(self.0.vidx32()) + 1;
+        let ipasir = if self.0.is_neg() { -idx } else { idx };
+        ipasir.try_into().map_err(|_| {
+            pyo3::exceptions::PyOverflowError::new_err("variable index too high to fit in c_int")
+        })
     }
 }
 
-- 
2.43.0

