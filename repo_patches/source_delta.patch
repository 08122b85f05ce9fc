From ad116983d8398f7c1c9dd27dce3f50546af19211 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:36:26 +0000
Subject: [PATCH 01/16] verif hook: guarded (cfg relp_verif) access to private
 items

---
 .../inverse_maintenance/carry/lower_upper/mod.rs   |  7 +++++++
 src/data/linear_program/general_form/mod.rs        | 14 ++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/mod.rs b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/mod.rs
index 6ac98e0..3760017 100644
--- a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/mod.rs
+++ b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/mod.rs
@@ -20,6 +20,13 @@ mod decomposition;
 mod permutation;
 mod eta_file;
 
+/// Access to private items for external verification harnesses only.
+#[cfg(relp_verif)]
+pub mod verif_access {
+    pub use super::eta_file::*;
+    pub use super::permutation::*;
+}
+
 /// Decompose a matrix `B` into `PBQ = LU` where
 ///
 /// * `P` is a row permutation
diff --git a/src/data/linear_program/general_form/mod.rs b/src/data/linear_program/general_form/mod.rs
index c3b1019..2fd6f97 100644
--- a/src/data/linear_program/general_form/mod.rs
+++ b/src/data/linear_program/general_form/mod.rs
@@ -1117,6 +1117,20 @@ where
     }
 }
 
+/// Read-only view of private fields for external verification harnesses only.
+#[cfg(relp_verif)]
+impl<F> GeneralForm<F> {
+    /// Direction, fixed cost, constraint matrix, constraint types, right-hand side and active variables.
+    pub fn verif_view(&self) -> (&Objective, &F, &SparseMatrix<F, F, ColumnMajor>, &[RangedConstraintRelation<F>], &DenseVector<F>, &[Variable<F>]) {
+        (&self.objective, &self.fixed_cost, &self.constraints, &self.constraint_types, &self.b, &self.variables)
+    }
+
+    /// Names of the original variables.
+    pub fn verif_names(&self) -> Vec<&str> {
+        self.original_variables.iter().map(|(name, _)| name.as_str()).collect()
+    }
+}
+
 #[cfg(test)]
 mod test {
     use relp_num::R32;
-- 
2.43.0


From 800a82e49a183df6c56e9807d37066c9b4ca7c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:23 +0000
Subject: [PATCH 02/16] fix: LU decomposition of bases with fewer than two rows

The off-diagonal storage was sized m - 1 and indexed unconditionally, such that
solving a problem with a single row (or none) panicked.
---
 .../carry/lower_upper/decomposition/mod.rs           |  9 +++++----
 .../inverse_maintenance/carry/lower_upper/mod.rs     | 12 ++++++++++--
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/decomposition/mod.rs b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/decomposition/mod.rs
index 27abed3..5b5898c 100644
--- a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/decomposition/mod.rs
+++ b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/decomposition/mod.rs
@@ -29,14 +29,15 @@ where
 
         // The number of columns gets smaller over time.
         let m = rows.len();
-        debug_assert!(m > 1);
+        // The outermost row and column are not explicitly represented in the triangular matrices.
+        let nr_off_diagonal = m.saturating_sub(1);
 
         // These values will be returned.
         // They stay the same size, although nothing will be changed in the last indices once they
         // have been processed.
         let mut row_permutation = (0..m).collect::<Vec<_>>();
         let mut column_permutation = (0..m).collect::<Vec<_>>();
-        let mut lower_triangular_row_major = vec![Vec::new(); m - 1];
+        let mut lower_triangular_row_major = vec![Vec::new(); nr_off_diagonal];
 
         // These values get smaller over time.
         let (mut nnz_row, mut nnz_column) = count_non_zeros(&rows);
@@ -106,7 +107,7 @@ where
         }
 
         // We collected row-major but need column major, so transpose
-        let mut upper_triangular = vec![Vec::new(); m - 1];
+        let mut upper_triangular = vec![Vec::new(); nr_off_diagonal];
         let mut upper_diagonal = Vec::with_capacity(m);
         for (i, row) in rows.into_iter().enumerate() {
             let mut iter = row.into_iter();
@@ -117,7 +118,7 @@ where
                 upper_triangular[j - 1].push((i, value));
             }
         }
-        let mut lower_triangular = vec![Vec::new(); m - 1];
+        let mut lower_triangular = vec![Vec::new(); nr_off_diagonal];
         for (i, row) in lower_triangular_row_major.into_iter().enumerate()
             // We collected starting at row 1, but the lowest row index was 1.
             .map(|(i, v)| (i + 1, v)) {
diff --git a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/mod.rs b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/mod.rs
index 3760017..f915ea1 100644
--- a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/mod.rs
+++ b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/mod.rs
@@ -75,8 +75,8 @@ where
         Self {
             row_permutation: FullPermutation::identity(m),
             column_permutation: FullPermutation::identity(m),
-            lower_triangular: vec![vec![]; m - 1],
-            upper_triangular: vec![vec![]; m - 1],
+            lower_triangular: vec![vec![]; m.saturating_sub(1)],
+            upper_triangular: vec![vec![]; m.saturating_sub(1)],
             upper_diagonal: vec![F::one(); m],
             updates: vec![],
         }
@@ -105,6 +105,14 @@ where
     ) -> SparseVector<Self::F, Self::F> {
         let m = self.m();
 
+        if m == 1 {
+            // There are no off-diagonal columns to update, the spike is the new diagonal value.
+            let Self::ColumnComputationInfo { column, spike } = column;
+            let (_, value) = spike.into_iter().next().unwrap();
+            self.upper_diagonal[0] = value;
+            return column;
+        }
+
         let pivot_column_index = {
             // Column with a pivot in `pivot_row_index` is leaving
             let mut pivot_column_index = pivot_row_index;
-- 
2.43.0


From c56aaefccacdbde95b37b67bc9bcbbc76b141c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:46 +0000
Subject: [PATCH 03/16] fix: add one exactly to negative numbers in arc
 direction arithmetic

Adding relp-num's One to a negative RationalBig gives zero whenever the
numerator or the denominator is one (-3 + 1 = 0), so use an ordinary
addition instead.
---
 src/data/linear_program/network/representation.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/data/linear_program/network/representation.rs b/src/data/linear_program/network/representation.rs
index 3a2d5b3..ef4124c 100644
--- a/src/data/linear_program/network/representation.rs
+++ b/src/data/linear_program/network/representation.rs
@@ -5,7 +5,7 @@ use std::fmt;
 use std::ops::{Add, AddAssign, Div, DivAssign, Mul, MulAssign, Sub, SubAssign};
 
 use index_utils::remove_sparse_indices;
-use relp_num::{Field, Negateable, One};
+use relp_num::{Field, Negateable};
 use relp_num::NonZero;
 use relp_num::RationalBig;
 
@@ -210,8 +210,8 @@ impl AddAssign<&ArcDirection> for RationalBig {
     #[inline]
     fn add_assign(&mut self, rhs: &ArcDirection) {
         match rhs {
-            ArcDirection::Incoming => *self += One,
-            ArcDirection::Outgoing => *self -= One,
+            ArcDirection::Incoming => *self += RationalBig::one(),
+            ArcDirection::Outgoing => *self -= RationalBig::one(),
         }
     }
 }
@@ -249,8 +249,8 @@ impl SubAssign<&ArcDirection> for RationalBig {
     #[inline]
     fn sub_assign(&mut self, rhs: &ArcDirection) {
         match rhs {
-            ArcDirection::Incoming => *self -= One,
-            ArcDirection::Outgoing => *self += One,
+            ArcDirection::Incoming => *self -= RationalBig::one(),
+            ArcDirection::Outgoing => *self += RationalBig::one(),
         }
     }
 }
-- 
2.43.0


From d7c65651d15df62d76c7d8f39c5289effaa66feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:10 +0000
Subject: [PATCH 04/16] fix: reconsider the last selected column in the pricing
 rule with memory

---
 src/algorithm/two_phase/strategy/pivot_rule.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm/two_phase/strategy/pivot_rule.rs b/src/algorithm/two_phase/strategy/pivot_rule.rs
index 77a8527..d9f58f4 100644
--- a/src/algorithm/two_phase/strategy/pivot_rule.rs
+++ b/src/algorithm/two_phase/strategy/pivot_rule.rs
@@ -140,7 +140,7 @@ where
                 || find(tableau.start_index()..tableau.nr_columns()),
                 |last| {
                     find((last + 1)..tableau.nr_columns())
-                        .or_else(|| find(tableau.start_index()..last))
+                        .or_else(|| find(tableau.start_index()..(last + 1)))
                 },
             );
 
-- 
2.43.0


From 39252470a68817c04341f3fbfdeb5eddc22e8a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:51 +0000
Subject: [PATCH 05/16] fix: assert the right way around that a row to delete
 was not deleted before

---
 .../two_phase/matrix_provider/filter/generic_wrapper.rs       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algorithm/two_phase/matrix_provider/filter/generic_wrapper.rs b/src/algorithm/two_phase/matrix_provider/filter/generic_wrapper.rs
index 62c6973..0afdd57 100644
--- a/src/algorithm/two_phase/matrix_provider/filter/generic_wrapper.rs
+++ b/src/algorithm/two_phase/matrix_provider/filter/generic_wrapper.rs
@@ -147,7 +147,7 @@ where
         debug_assert!(i < self.provider.nr_rows() - self.rows_to_skip.len());
 
         let in_original_problem = self.get_underlying_row_index(i);
-        debug_assert!(self.rows_to_skip.contains(&in_original_problem));
+        debug_assert!(!self.rows_to_skip.contains(&in_original_problem));
         let insertion_index = match self.rows_to_skip.binary_search(&in_original_problem) {
             Ok(_) => panic!("Deleting a row that already was deleted!"),
             Err(nr) => nr,
@@ -211,7 +211,7 @@ where
     /// * `i`: Index in the reduced version of the problem to be deleted from the original problem.
     fn delete_index(skip_indices_array: &mut Vec<usize>, i: usize) {
         let in_original_problem = RemoveRows::<MP>::get_underlying_index(skip_indices_array, i);
-        debug_assert!(skip_indices_array.contains(&in_original_problem));
+        debug_assert!(!skip_indices_array.contains(&in_original_problem));
 
         let insertion_index = match skip_indices_array.binary_search(&in_original_problem) {
             Ok(_) => panic!("Deleting an index that already was deleted."),
-- 
2.43.0


From b3a86c64e2384c15c48643c485935e998f7488b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:59 +0000
Subject: [PATCH 06/16] fix: allow problems without rows, or of which all rows
 are redundant

---
 .../tableau/inverse_maintenance/carry/basis_inverse_rows.rs     | 2 +-
 .../inverse_maintenance/carry/lower_upper/decomposition/mod.rs  | 1 -
 .../inverse_maintenance/carry/lower_upper/permutation/full.rs   | 2 +-
 src/data/linear_algebra/vector/dense.rs                         | 2 --
 src/data/linear_algebra/vector/sparse.rs                        | 1 -
 5 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs
index dfb2547..4b29106 100644
--- a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs
+++ b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs
@@ -215,7 +215,7 @@ where
 {
     fn remove_basis_part(&mut self, indices: &[usize]) {
         let old_m = self.m();
-        debug_assert!(indices.len() < old_m);
+        debug_assert!(indices.len() <= old_m);
 
         remove_indices(&mut self.rows, indices);
         // Remove the columns
diff --git a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/decomposition/mod.rs b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/decomposition/mod.rs
index 5b5898c..d2a8776 100644
--- a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/decomposition/mod.rs
+++ b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/decomposition/mod.rs
@@ -278,7 +278,6 @@ fn swap<T>(
 /// Requires iterating over all values once.
 fn count_non_zeros<T>(rows: &[Vec<(usize, T)>]) -> (Vec<usize>, Vec<usize>) {
     let n = rows.len();
-    debug_assert!(n > 0);
     debug_assert!(rows.iter().all(|row| row.iter().all(|&(i, _)| i < n)));
 
     let nnz_row = rows.iter()
diff --git a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/full.rs b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/full.rs
index c6c653e..30baebd 100644
--- a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/full.rs
+++ b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/full.rs
@@ -25,7 +25,7 @@ impl Full {
     /// Computes the inverse by sorting.
     pub fn new(forward: Vec<usize>) -> Self {
         debug_assert_eq!(forward.iter().collect::<HashSet<_>>().len(), forward.len());
-        debug_assert!(*forward.iter().max().unwrap() < forward.len());
+        debug_assert!(forward.iter().all(|&i| i < forward.len()));
 
         let mut backward = forward.iter()
             .enumerate()
diff --git a/src/data/linear_algebra/vector/dense.rs b/src/data/linear_algebra/vector/dense.rs
index 10d638a..b5c772d 100644
--- a/src/data/linear_algebra/vector/dense.rs
+++ b/src/data/linear_algebra/vector/dense.rs
@@ -37,8 +37,6 @@ impl<F> Dense<F> {
     where
         F: Clone,
     {
-        debug_assert_ne!(len, 0);
-
         Self { data: vec![value; len], }
     }
 
diff --git a/src/data/linear_algebra/vector/sparse.rs b/src/data/linear_algebra/vector/sparse.rs
index 77b0fd5..276eea0 100644
--- a/src/data/linear_algebra/vector/sparse.rs
+++ b/src/data/linear_algebra/vector/sparse.rs
@@ -91,7 +91,6 @@ where
         debug_assert!(data.iter().all(|&(i, _)| i < len));
         debug_assert!(data.is_sorted_by_key(|&(i, _)| i));
         debug_assert!(data.iter().all(|(_, v)| v.borrow().is_not_zero()));
-        debug_assert_ne!(len, 0);
         debug_assert!(data.len() <= len);
 
         Self {
-- 
2.43.0


From e4b5dc95ea307afeb287b7a75c1a603075346008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:07 +0000
Subject: [PATCH 07/16] fix: reject number texts that are not numbers or do not
 fit, instead of misreading them

A number text such as "-", "1.+5" or one with more than 64 bits of digits
was read as some other value (or panicked); an empty text panicked. A leading
plus sign is now also accepted in front of a decimal point.
---
 src/io/mps/number/parse.rs | 63 +++++++++++++++++++++++---------------
 1 file changed, 38 insertions(+), 25 deletions(-)

diff --git a/src/io/mps/number/parse.rs b/src/io/mps/number/parse.rs
index 60e3a58..c08e527 100644
--- a/src/io/mps/number/parse.rs
+++ b/src/io/mps/number/parse.rs
@@ -78,36 +78,26 @@ impl TryFrom<&str> for Raw {
     type Error = ParseError;
 
     fn try_from(text: &str) -> Result<Self, Self::Error> {
-        let (has_minus, text) = match &text[0..1] {
-            "-" => (true, &text[1..]),
-            _ => (false, text),
+        let (has_minus, digits) = match text.strip_prefix('-') {
+            Some(remainder) => (true, remainder),
+            None => (false, text.strip_prefix('+').unwrap_or(text)),
         };
 
-        let parse = |text: &str, number_part| {
-            if text.is_empty() {
-                Ok(0)
-            } else {
-                text.parse()
-                    .map_err(|error| ParseError::wrap_other(
-                        error,
-                        format!("Failed to parse {} \"{}\" as u64.", number_part, text),
-                    ))
-            }
+        let (integer_part, decimal_part) = match digits.find('.') {
+            None => (digits, ""),
+            Some(index) => (&digits[0..index], &digits[(index + 1)..]),
         };
+        if integer_part.is_empty() && decimal_part.is_empty() {
+            return Err(ParseError::new(format!("No digits in number \"{}\".", text)));
+        }
 
-        let (integer, decimal_steps_from_right): (u64, _) = match text.find('.') {
-            None => (parse(text, "entire value")?, 0),
-            Some(index) => {
-                let from_right = u32::try_from(text.len() - index - 1)
-                    .expect("It wouldn't make sense for the number text to be so large.");
-
-                let integer_part = parse(&text[0..index], "integer part")?;
-                let mantissa_part = parse(&text[(index + 1)..], "mantissa part")?;
-
-                (integer_part * 10_u64.pow(from_right) + mantissa_part, from_right)
-            },
+        let integer_value = parse_digits(integer_part)?;
+        let decimal_value = parse_digits(decimal_part)?;
+        let (integer, decimal_steps_from_right) = match combine(integer_value, decimal_value, decimal_part.len()) {
+            Some(combined) => combined,
+            None => return Err(ParseError::new(format!("Number \"{}\" doesn't fit in 64 bits.", text))),
         };
-        
+
         let sign = match (has_minus, integer) {
             (_, 0) => Sign::Zero,
             (false, _) => Sign::Positive,
@@ -118,6 +108,29 @@ impl TryFrom<&str> for Raw {
     }
 }
 
+/// Read a possibly empty sequence of decimal digits (no sign).
+fn parse_digits(text: &str) -> ParseResult<u64> {
+    if text.is_empty() {
+        Ok(0)
+    } else if text.bytes().all(|byte| byte.is_ascii_digit()) {
+        text.parse()
+            .map_err(|error| ParseError::wrap_other(
+                error,
+                format!("Failed to parse \"{}\" as u64.", text),
+            ))
+    } else {
+        Err(ParseError::new(format!("Failed to parse \"{}\": not only digits.", text)))
+    }
+}
+
+/// Append `nr_decimals` decimals to the integer part, if the result and its denominator fit.
+fn combine(integer_value: u64, decimal_value: u64, nr_decimals: usize) -> Option<(u64, u32)> {
+    let steps = u32::try_from(nr_decimals).ok()?;
+    let integer = integer_value.checked_mul(10_u64.checked_pow(steps)?)?.checked_add(decimal_value)?;
+
+    Some((integer, steps))
+}
+
 #[cfg(test)]
 mod test {
     use std::convert::TryFrom;
-- 
2.43.0


From 1e9b5ec70b366c5d20b1ba2c787f9eceda4a705f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:48 +0000
Subject: [PATCH 08/16] fix: apply a range to a row without an explicit
 right-hand side

A row with a range has its range turned into an interval only when a right-hand
side was listed for it. Without one, a G or E row with range R became [-R, 0]
instead of [0, R], and a negative range stayed negative. Two equal right-hand
sides for such a row were compared with the already shifted value.
---
 src/io/mps/convert.rs | 70 +++++++++++++++++++++----------------------
 1 file changed, 34 insertions(+), 36 deletions(-)

diff --git a/src/io/mps/convert.rs b/src/io/mps/convert.rs
index bf1b103..17d7e97 100644
--- a/src/io/mps/convert.rs
+++ b/src/io/mps/convert.rs
@@ -441,7 +441,6 @@ fn compute_constraint_types<FI: Zero + PartialEq, FO: From<FI>>(
 ///
 /// When there is a trivial infeasibility due to multiple equality bounds being specified with
 /// different values.
-#[allow(unreachable_patterns)]
 fn compute_b<
     OFI: Sub<Output=OFI> + Abs + PartialOrd + Zero + Clone,
     OFO: From<OFI> + Zero + Abs + PartialOrd + Element + Display,
@@ -463,48 +462,47 @@ where
     // We fill b with options, and then explicitly substitute the default value later.
     let mut b: Vec<Option<OFO>> = vec![None; rows.len()];
     for (i, value) in rhss.into_iter().flat_map(|rhs| rhs.values.into_iter()) {
+        let converted: OFO = value.into();
         match &mut b[i] {
-            None => match &mut constraints[i] {
-                RangedConstraintRelation::Range(range) => {
-                    let range_sign = range.cmp(&&mut OFO::zero());
-                    if range < &mut OFO::zero() {
-                        *range = -&*range;
-                    }
-                    let value = value.into();
-                    let bound  = match (rows[i].constraint_type, range_sign) {
-                        (ConstraintRelation::Greater, _) => value + &*range,
-                        (ConstraintRelation::Less, _) => value,
-                        (ConstraintRelation::Equal, Ordering::Greater | Ordering::Equal) => value + &*range,
-                        (ConstraintRelation::Equal, Ordering::Less | Ordering::Equal) => value,
-                    };
-                    b[i] = Some(bound);
+            None => b[i] = Some(converted),
+            Some(current) => match rows[i].constraint_type {
+                ConstraintRelation::Equal => if &converted != current {
+                    return Err(Inconsistency::new(
+                        format!("Trivial infeasibility: a constraint can't equal both {} and {}", current, converted),
+                    ))
+                },
+                ConstraintRelation::Greater => if &converted > current {
+                    *current = converted;
+                },
+                ConstraintRelation::Less => if &converted < current {
+                    *current = converted;
                 },
-                _ => b[i] = Some(value.into()),
-            }
-            Some(current) => {
-                // There can be at most one rhs value for each row that has a range.
-                debug_assert!(!matches!(constraints[i], RangedConstraintRelation::Range(_)));
-
-                let converted: OFO = value.into();
-                match rows[i].constraint_type {
-                    ConstraintRelation::Equal => if &converted != current {
-                        return Err(Inconsistency::new(
-                            format!("Trivial infeasibility: a constraint can't equal both {} and {}", current, converted),
-                        ))
-                    },
-                    ConstraintRelation::Greater => if &converted > current {
-                        *current = converted;
-                    },
-                    ConstraintRelation::Less => if &converted < current {
-                        *current = converted;
-                    },
-                }
             }
         }
     }
 
     // Substitute the default value.
-    let b = b.into_iter().map(|value| value.unwrap_or_else(OFO::zero)).collect();
+    let mut b: Vec<OFO> = b.into_iter().map(|value| value.unwrap_or_else(OFO::zero)).collect();
+
+    // A range is stored as its length, together with the right-hand side that is its upper end.
+    // This holds as well for those rows that have no explicit right-hand side.
+    for (i, constraint) in constraints.iter_mut().enumerate() {
+        if let RangedConstraintRelation::Range(range) = constraint {
+            let is_negative = &*range < &OFO::zero();
+            if is_negative {
+                *range = -&*range;
+            }
+            let is_lower_end = match rows[i].constraint_type {
+                ConstraintRelation::Greater => true,
+                ConstraintRelation::Less => false,
+                ConstraintRelation::Equal => !is_negative,
+            };
+            if is_lower_end {
+                b[i] = b[i].clone() + &*range;
+            }
+        }
+    }
+
     Ok(DenseVector::new(b, nr_rows))
 }
 
-- 
2.43.0


From f114175892991056e235a9a44830d78696b92a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:55 +0000
Subject: [PATCH 09/16] fix: read fixed format lines that end before their last
 field does

A value that does not fill its field up to the last column was rejected, or, as
the second value on a line, silently dropped. A bound line without a value
whose variable name is shorter than its field made the parser panic.
---
 src/io/mps/parse/fixed.rs | 107 +++++++++++++++-----------------------
 src/io/mps/parse/mod.rs   |   2 +-
 2 files changed, 44 insertions(+), 65 deletions(-)

diff --git a/src/io/mps/parse/fixed.rs b/src/io/mps/parse/fixed.rs
index 32f08d2..ffd0dbd 100644
--- a/src/io/mps/parse/fixed.rs
+++ b/src/io/mps/parse/fixed.rs
@@ -41,98 +41,77 @@ impl<'a> ColumnRetriever<'a> for Fixed {
     }
 
     fn one_and_two(line: &str) -> ParseResult<[&str; 2]> {
-        if line.len() > FIELDS[2].start {
-            let type_text = &line[FIELDS[1].clone()];
-
-            let name_field_end = FIELDS[2].end.min(line.len());
-            let name = line[FIELDS[2].start..name_field_end].trim_end();
-            if name.is_empty() {
-                Err(ParseError::new("Empty row name."))
-            } else {
-                Ok([type_text, name])
-            }
+        let (type_text, name) = (field(line, 1), field(line, 2));
+        if type_text.is_empty() {
+            Err(ParseError::new("Empty row type."))
+        } else if name.is_empty() {
+            Err(ParseError::new("Empty row name."))
         } else {
-            Err(ParseError::new("Line is too short."))
+            Ok([type_text, name])
         }
     }
 
     fn is_column_marker_line(line: &'a str) -> ParseResult<ColumnLineContent<'a, Self::RestOfLine>> {
-        if line.len() >= FIELDS[4].end {
-            if &line[FIELDS[3].clone()] == COLUMN_SECTION_MARKER {
-                if line.len() >= FIELDS[5].end {
-                    Ok(ColumnLineContent::Marker([&line[FIELDS[5].clone()]]))
-                } else {
-                    Err(ParseError::new("Line is too short to be a marker line."))
-                }
+        if field(line, 3) == COLUMN_SECTION_MARKER {
+            let marker = field(line, 5);
+            if marker.is_empty() {
+                Err(ParseError::new("Line is too short to be a marker line."))
             } else {
-                Ok(ColumnLineContent::Data([
-                    line[FIELDS[2].clone()].trim_end(),
-                    line[FIELDS[3].clone()].trim_end(),
-                    line[FIELDS[4].clone()].trim_start(),
-                ], &line[FIELDS[4].end..]))
+                Ok(ColumnLineContent::Marker([marker]))
             }
         } else {
-            Err(ParseError::new("Line is too short."))
+            Self::two_through_four(line).map(|(fields, rest)| ColumnLineContent::Data(fields, rest))
         }
     }
 
     fn two_through_four(line: &'a str) -> ParseResult<([&'a str; 3], Self::RestOfLine)> {
-        if line.len() >= FIELDS[4].end {
-            Ok(([
-                line[FIELDS[2].clone()].trim_end(),
-                line[FIELDS[3].clone()].trim_end(),
-                line[FIELDS[4].clone()].trim_start(),
-            ], &line[FIELDS[4].end..]))
-        } else {
+        let value = field(line, 4);
+        if value.is_empty() {
             Err(ParseError::new("Line is too short."))
+        } else {
+            Ok(([field(line, 2), field(line, 3), value], line))
         }
     }
 
-    fn five_and_six(line_after_first_four: Self::RestOfLine) -> ParseResult<Option<[&'a str; 2]>> {
-        let relative_field_six_end = FIELDS[6].end - FIELDS[4].end;
-        let result = if line_after_first_four.len() >= relative_field_six_end {
-            let (five_start, five_end) = (FIELDS[5].start - FIELDS[4].end, FIELDS[5].end - FIELDS[4].end);
-            let (six_start, six_end) = (FIELDS[6].start - FIELDS[4].end, FIELDS[6].end - FIELDS[4].end);
-
-            let five = line_after_first_four[five_start..five_end].trim_end();
-            let six = line_after_first_four[six_start..six_end].trim_start();
-            if !five.is_empty() && !six.is_empty() {
-                Some([
-                    five,
-                    six,
-                ])
-            } else { None }
-        } else { None };
-
-        Ok(result)
+    fn five_and_six(line: Self::RestOfLine) -> ParseResult<Option<[&'a str; 2]>> {
+        let (five, six) = (field(line, 5), field(line, 6));
+        Ok(if !five.is_empty() && !six.is_empty() {
+            Some([five, six])
+        } else { None })
     }
 
     fn one_through_three(line: &'a str) -> ParseResult<([&'a str; 3], Self::RestOfLine)> {
-        if line.len() >= FIELDS[3].start {
-            let type_text = &line[FIELDS[1].clone()];
-            let name = line[FIELDS[2].clone()].trim_end();
-            let column = line[FIELDS[3].clone()].trim_end();
-
-            let rest = &line[FIELDS[3].end..];
-
-            Ok(([type_text, name, column], rest))
-        } else {
+        let column = field(line, 3);
+        if column.is_empty() {
             Err(ParseError::new("Line is too short."))
+        } else {
+            Ok(([field(line, 1), field(line, 2), column], line))
         }
     }
 
-    fn four(rest_of_line: Self::RestOfLine) -> ParseResult<[&'a str; 1]> {
-        let end_of_column = FIELDS[4].end - FIELDS[3].end;
-        if rest_of_line.len() >= end_of_column {
-            let start_of_column = FIELDS[4].start - FIELDS[3].end;
-            let value_text = rest_of_line[start_of_column..end_of_column].trim_start();
-            Ok([value_text])
-        } else {
+    fn four(line: Self::RestOfLine) -> ParseResult<[&'a str; 1]> {
+        let value = field(line, 4);
+        if value.is_empty() {
             Err(ParseError::new("Line doesn't contain another value, it's too short."))
+        } else {
+            Ok([value])
         }
     }
 }
 
+/// Text in one of the fields of a line, without the spaces that fill the field up.
+///
+/// The line might end before the field does.
+fn field(line: &str, field: usize) -> &str {
+    let text = line.get(FIELDS[field].start..FIELDS[field].end.min(line.len())).unwrap_or("");
+    match field {
+        // Names start at the start of their field.
+        2 | 3 | 5 => text.trim_end(),
+        // Types and numbers may be placed anywhere in theirs.
+        _ => text.trim(),
+    }
+}
+
 /// Character ranges for the different fields of the column.
 const FIELDS: [Range<usize>; 7] = [
     0..1,
diff --git a/src/io/mps/parse/mod.rs b/src/io/mps/parse/mod.rs
index ee371c3..4af68e9 100644
--- a/src/io/mps/parse/mod.rs
+++ b/src/io/mps/parse/mod.rs
@@ -821,7 +821,7 @@ impl FromStr for RowType {
     ///
     /// Any `String` slices not equal to either `N`, `L`, `E` or `G` will fair to be parsed.
     fn from_str(word: &str) -> Result<RowType, Self::Err> {
-        match &word[0..1] {
+        match word.get(0..1).unwrap_or("") {
             "N" => Ok(RowType::Cost),
             "L" => Ok(RowType::Constraint(ConstraintRelation::Less)),
             "E" => Ok(RowType::Constraint(ConstraintRelation::Equal)),
-- 
2.43.0


From 7e38cfe326f06c2961d34011af175192bccfffc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:55 +0000
Subject: [PATCH 10/16] fix: reject semi-continuous bounds with an error
 instead of a panic

---
 src/io/mps/convert.rs   | 4 +++-
 src/io/mps/parse/mod.rs | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/io/mps/convert.rs b/src/io/mps/convert.rs
index 17d7e97..5786ad2 100644
--- a/src/io/mps/convert.rs
+++ b/src/io/mps/convert.rs
@@ -256,7 +256,9 @@ fn process_bound<FI, FO: From<FI> + Ord + Zero + One + Clone>(
             variable.variable_type = VariableType::Integer;
             Ok((true, false))
         },
-        BoundType::SemiContinuous(_, _) => unimplemented!(),
+        BoundType::SemiContinuous(_, _) => {
+            Err(Inconsistency::new("Semi-continuous bounds are not supported."))
+        },
     }
 }
 
diff --git a/src/io/mps/parse/mod.rs b/src/io/mps/parse/mod.rs
index 4af68e9..f5433a6 100644
--- a/src/io/mps/parse/mod.rs
+++ b/src/io/mps/parse/mod.rs
@@ -741,7 +741,7 @@ fn parse_bound_line<'a, F: Parse, CR: ColumnRetriever<'a>>(
                 _ => unreachable!(),
             }
         },
-        "SC" => unimplemented!(),
+        "SC" => return Err(ParseError::new("Semi-continuous bounds are not supported.").into()),
         _ => return Err(ParseError::new(format!("Bound type \"{}\" unknown.", bound_type_text)).into()),
     };
 
-- 
2.43.0


From 30e621a53fecf4558387c50ef7551f313d0579c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:22 +0000
Subject: [PATCH 11/16] fix: do not store coefficients that a problem file
 lists as zero

They ended up in the sparse matrix, all users of which assume that a stored
value is not zero: a row with only such a coefficient was divided by it.
---
 src/io/mps/convert.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/io/mps/convert.rs b/src/io/mps/convert.rs
index 5786ad2..ed8383a 100644
--- a/src/io/mps/convert.rs
+++ b/src/io/mps/convert.rs
@@ -122,7 +122,12 @@ fn compute_variable_info<FI, FO: From<FI> + NonZero + Zero + One + Ord + Display
     process_bounds(&mut info, bounds)?;
     let (values, names): (Vec<_>, Vec<_>) = values_names.into_iter()
         .map(|(collection, names)| {
-            (collection.into_iter().map(|(i, v)| (i, v.into())).collect(), names)
+            let collection = collection.into_iter()
+                .map(|(i, v)| (i, v.into()))
+                // A file might list zeros explicitly, the matrix doesn't store them.
+                .filter(|(_, v): &(_, FO)| v.is_not_zero())
+                .collect();
+            (collection, names)
         })
         .unzip();
 
-- 
2.43.0


From e15a297571dcee371b383965cc986a57c2f81988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:36 +0000
Subject: [PATCH 12/16] fix: reject files that list the values of a column more
 than once

A second cost value for a column made the costs of all later columns zero. A
column that continues after another one was only noticed by a debug assertion,
without those its second part became a separate variable with the same name.
---
 src/io/mps/parse/mod.rs | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/io/mps/parse/mod.rs b/src/io/mps/parse/mod.rs
index f5433a6..a975e0c 100644
--- a/src/io/mps/parse/mod.rs
+++ b/src/io/mps/parse/mod.rs
@@ -59,7 +59,7 @@ fn parse<'a, F: Parse, CR: ColumnRetriever<'a>>(
 
     let (columns, cost_values, next_section) =
         parse_column_section::<_, CR, _>(&mut lines, &cost_row_name, &row_index)?;
-    let column_index = build_column_index(&columns);
+    let column_index = build_column_index(&columns)?;
 
     let (rhss, next_section) = if next_section == Section::Rhs {
         parse_optional_section::<_, CR, _, _, 2>(&mut lines, [Section::Ranges, Section::Bounds], &row_index)?
@@ -418,6 +418,11 @@ fn parse_column_section<'a, F: Parse, CR: ColumnRetriever<'a>, L: Iterator<Item
                         match row_map.get(row_name) {
                             None => if row_name == cost_row_name {
                                 let column_index = collector.len();
+                                if matches!(cost_values_collector.last(), Some(&(j, _)) if j == column_index) {
+                                    return Err(Inconsistency::new(format!(
+                                        "Duplicate cost value for column \"{}\"", column_name,
+                                    )).into());
+                                }
                                 cost_values_collector.push((column_index, value))
                             } else {
                                 return Err(Inconsistency::new(format!("Row \"{}\" not known.", row_name)).into());
@@ -499,19 +504,24 @@ fn save_to_column_collector<F>(
 ///
 /// A map assigning to each column name a value.
 ///
+/// # Errors
+///
+/// If two columns have the same name.
+///
 /// # Note
 ///
 /// This assignment is not a specific order.
-fn build_column_index<F>(columns: &[Column<F>]) -> HashMap<&str, usize> {
-    debug_assert_eq!(
-        columns.iter().map(|column| column.name.as_str()).collect::<HashSet<_>>().len(),
-        columns.len(),
-    );
-
-    columns.iter()
+fn build_column_index<F>(columns: &[Column<F>]) -> Result<HashMap<&str, usize>, Inconsistency> {
+    let index = columns.iter()
         .enumerate()
         .map(|(index, column)| (column.name.as_str(), index))
-        .collect()
+        .collect::<HashMap<_, _>>();
+
+    if index.len() < columns.len() {
+        Err(Inconsistency::new("The values of a column should be listed together"))
+    } else {
+        Ok(index)
+    }
 }
 
 trait ListedInGroup {
-- 
2.43.0


From 8da2a1e28e8a0c49d506f0b457d456c0a8db4909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:13 +0000
Subject: [PATCH 13/16] fix: reject a first line that is cut within a character
 instead of panicking

---
 src/io/mps/parse/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/mps/parse/mod.rs b/src/io/mps/parse/mod.rs
index a975e0c..b0ea7e3 100644
--- a/src/io/mps/parse/mod.rs
+++ b/src/io/mps/parse/mod.rs
@@ -179,7 +179,7 @@ fn parse_program_name<'a, CR: ColumnRetriever<'a>>(
                 return Err(ParseError::with_location("Line too short.", (number, line)));
             }
 
-            let expected_name_string = &line[0..NAME.len()];
+            let expected_name_string = line.get(..NAME.len()).unwrap_or(line);
             if expected_name_string == NAME {
                 let name = CR::two_or_three(&line[NAME.len()..])
                     .map_err(|e| e.wrap(format!("Could not read program name \
-- 
2.43.0


From 69c155687965cf2fb919282019ded9c0ffac1ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:13 +0000
Subject: [PATCH 14/16] fix: reject fixed format lines of which the second
 value is misplaced instead of dropping it

---
 src/io/mps/parse/fixed.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/io/mps/parse/fixed.rs b/src/io/mps/parse/fixed.rs
index ffd0dbd..4494d29 100644
--- a/src/io/mps/parse/fixed.rs
+++ b/src/io/mps/parse/fixed.rs
@@ -75,9 +75,11 @@ impl<'a> ColumnRetriever<'a> for Fixed {
 
     fn five_and_six(line: Self::RestOfLine) -> ParseResult<Option<[&'a str; 2]>> {
         let (five, six) = (field(line, 5), field(line, 6));
-        Ok(if !five.is_empty() && !six.is_empty() {
-            Some([five, six])
-        } else { None })
+        match (five.is_empty(), six.is_empty()) {
+            (false, false) => Ok(Some([five, six])),
+            (true, true) => Ok(None),
+            _ => Err(ParseError::new("Line has only one of the fifth and sixth fields")),
+        }
     }
 
     fn one_through_three(line: &'a str) -> ParseResult<([&'a str; 3], Self::RestOfLine)> {
-- 
2.43.0


From 1b07dfb37d961655ed176b0a8ccb51aa5ba7f047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:53 +0000
Subject: [PATCH 15/16] fix: display an inconsistency without endless recursion

Its description was never printed, formatting one overflowed the stack. It also
was its own source, so following the chain of causes never ended.
---
 src/io/error.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/io/error.rs b/src/io/error.rs
index 0176ae7..a64d33d 100644
--- a/src/io/error.rs
+++ b/src/io/error.rs
@@ -226,12 +226,8 @@ impl Inconsistency {
 
 impl Display for Inconsistency {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        write!(f, "ProgramError: {}", self)
+        write!(f, "ProgramError: {}", self.description)
     }
 }
 
-impl Error for Inconsistency {
-    fn source(&self) -> Option<&(dyn Error + 'static)> {
-        Some(self)
-    }
-}
+impl Error for Inconsistency {}
-- 
2.43.0


From be0fafba1cc5adea98c4a5e008352a088d360fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:20 +0000
Subject: [PATCH 16/16] fix: scaling a problem in which no value has a factor
 (all values 0, 1 or -1) panicked

---
 .../general_form/presolve/scale/rational/mod.rs     | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/data/linear_program/general_form/presolve/scale/rational/mod.rs b/src/data/linear_program/general_form/presolve/scale/rational/mod.rs
index 9209629..b0c2270 100644
--- a/src/data/linear_program/general_form/presolve/scale/rational/mod.rs
+++ b/src/data/linear_program/general_form/presolve/scale/rational/mod.rs
@@ -55,7 +55,10 @@ where
         // Optimize per factor
         let scale_per_factor = factorization.solve();
         // Aggregate scaling per factor
-        let scaling = combine_factors(scale_per_factor);
+        let scaling = combine_factors(
+            scale_per_factor,
+            self.nr_active_constraints(), self.nr_active_variables(),
+        );
         // Apply the computed scaling
         scale(self, &scaling, |x, y| *x *= y, |x, y| *x /= y);
 
@@ -649,18 +652,16 @@ where
 }
 
 /// The scaling is computed per factor but is applied at once. Combine the scaling of all factors.
+///
+/// There might not be any factors, for example because all values in the problem are either 0 or 1.
 fn combine_factors<R>(
     scale_per_factor: Vec<(R::Factor, ((R::Power, Vec<R::Power>), Vec<R::Power>))>,
+    nr_rows: usize, nr_columns: usize,
 ) -> Scaling<R>
 where
     R: NonZeroFactorizable<Power: Abs> + One,
     for<'r> R: MulAssign<&'r R::Factor> + DivAssign<&'r R::Factor>,
 {
-    debug_assert!(!scale_per_factor.is_empty());
-
-    let nr_rows = scale_per_factor[0].1.0.1.len();
-    let nr_columns = scale_per_factor[0].1.1.len();
-
     let mut cost_factor = R::one();
     let mut constraint_row_factors = vec![R::one(); nr_rows];
     let mut constraint_column_factors = vec![R::one(); nr_columns];
-- 
2.43.0

