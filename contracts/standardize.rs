// Unit: a problem in general form is brought to standard form.
use vstd::prelude::*;
use std::collections::HashSet;
verus! {
//%%include prelude.rs
//%%include sparse_spec.rs
//%%types C=F; O=usize; MO=usize; SparseTupleVec=Vec<(usize, F)>
//%%item src/data/linear_algebra/matrix.rs SparseMatrix
//%%end
//%%types F=F; OF=F; RemovedVariable<F>=RemovedVariable; String=Str; Option<OF>=Option<F>; SparseTuple<F>=(usize, F); SparseTupleVec=Vec<(usize, F)>; RangedConstraintRelation<F>=RangedConstraintRelation; DenseVector<F>=Dense; DenseVector<OF>=Dense; DenseVector=Dense; SparseMatrix=SparseMatrix<F>; GeneralForm<F>=GeneralForm; GeneralForm<OF>=GeneralForm; Variable<F>=Variable; Variable<OF>=Variable; OriginalVariable<F>=OriginalVariable; RangedConstraintRelation<OF>=RangedConstraintRelation
//%%dense b
//%%path DenseVector=Dense
//%%path mem::replace=v_replace
#[verifier::external_body] pub struct Str { x: () }
//%%item src/data/linear_algebra/vector/dense.rs Dense
//%%end
//%%item src/data/linear_program/elements.rs RangedConstraintRelation
//%%end
//%%item src/data/linear_program/elements.rs RangedConstraintRelationKind
//%%end
//%%item src/data/linear_program/elements.rs VariableType
//%%end
//%%item src/data/linear_program/elements.rs Objective
//%%end
//%%item src/data/linear_program/general_form/mod.rs Variable
//%%end
//%%item src/data/linear_program/general_form/mod.rs RemovedVariable
//%%end
//%%item src/data/linear_program/general_form/mod.rs OriginalVariable
//%%end
//%%item src/data/linear_program/general_form/mod.rs GeneralForm
//%%end
impl Copy for VariableType {} impl Clone for VariableType { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl VEq for Objective { open spec fn sp_eq(&self, r: &Self) -> bool { *self == *r } #[verifier::external_body] fn v_eq(&self, r: &Self) -> bool { unimplemented!() } #[verifier::external_body] fn v_ne(&self, r: &Self) -> bool { unimplemented!() } }
impl VIterable for Dense { type T = F; open spec fn seq_of(&self) -> Seq<F> { self.data@ } #[verifier::external_body] fn v_iter<'a>(&'a self) -> VIter<&'a F> { unimplemented!() } }
//%%use vector src/data/linear_algebra/vector/dense.rs Dense as Vector::len
//%%use vector src/data/linear_algebra/vector/dense.rs Dense as Vector::new
pub open spec fn rows_wf(d: Seq<Vec<(usize, F)>>, n: int) -> bool { forall|j: int| #![trigger d[j]] 0 <= j < d.len() ==> swf(d[j]@, n) }
impl SparseMatrix<F> {
    pub open spec fn wf(&self) -> bool { self.data@.len() == self.major_dimension_size && rows_wf(self.data@, self.minor_dimension_size as int) }
    pub open spec fn at(&self, j: int, i: int) -> real { sv(self.data@[j]@, i) }
}
//%%use matrix src/data/linear_algebra/matrix.rs SparseMatrix::from_major_ordered_tuples
//%%use matrix src/data/linear_algebra/matrix.rs SparseMatrix::change_row_signs
//%%use matrix src/data/linear_algebra/matrix.rs SparseMatrix::concatenate_horizontally
//%%use matrix src/data/linear_algebra/matrix.rs SparseMatrix::nr_rows /ColumnMajor/
//%%use matrix src/data/linear_algebra/matrix.rs SparseMatrix::nr_columns /ColumnMajor/
//%%use matrix src/data/linear_algebra/matrix.rs SparseMatrix::iter_column
//%%item src/data/linear_algebra/matrix.rs ColumnMajor
//%%end
//%%path ColumnMajor::new=ColumnMajor::column_major_new
//%%use mps_convert src/data/linear_algebra/matrix.rs ColumnMajor as MatrixOrder::new
//%%include general_spec.rs
//%%fn src/data/linear_program/general_form/mod.rs GeneralForm::nr_active_constraints
//% spec
    ensures r == self.constraints.minor_dimension_size
//%%end
//%%fn src/data/linear_program/general_form/mod.rs GeneralForm::nr_constraints
//% spec
    ensures r == self.constraints.minor_dimension_size
//%%end
//%%fn src/data/linear_program/general_form/mod.rs GeneralForm::nr_active_variables
//% spec
    ensures r == self.constraints.major_dimension_size
//%%end
//%%fn src/data/linear_program/general_form/mod.rs GeneralForm::nr_variables
//% spec
    ensures r == self.constraints.major_dimension_size
//%%end
//%%include split_spec.rs
//%%fn src/data/linear_program/general_form/mod.rs GeneralForm::split_free_variables
//% closure 0 |c0: &usize| -> (r: bool) requires *c0 < self.variables@.len() ensures r == free(self.variables@[*c0 as int])
//% closure 1 |c0: usize| -> (r: (usize, Vec<(usize, F)>)) requires c0 < self.constraints.data@.len() ensures r.0 == c0, opposite(self.constraints.data@[c0 as int]@, r.1@)
//% closure 2 |c0: &(usize, F)| -> (r: (usize, F)) ensures r.0 == c0.0, r.1@ == 0real - c0.1@
//% start
    let ghost g = *self; let ghost n = width(g);
//% before "let as_matrix"
    let ghost f = indices_duplicated@; let ghost dup = columns@;
    proof { let rg = core::ops::Range { start: 0usize, end: g.constraints.major_dimension_size }.into_seq();
        assert forall|j: int| #![trigger rg[j]] #![trigger g.variables@[j]] 0 <= j < n implies rg[j] == j by {}
        assert(exists|m: Seq<int>| #![trigger increasing(m)] frees_by(g, f, m)); frees_found(g, f, choose|m: Seq<int>| frees_by(g, f, m));
        assert forall|t: int| #![trigger dup[t]] 0 <= t < f.len() implies opposite(g.constraints.data@[f[t] as int]@, dup[t]@) by { let z = f[t]; assert(Some(z) is Some); }
        frees_few(g, f, n);
        assert(rows_wf(dup, g.constraints.minor_dimension_size as int)) by { assert forall|t: int| #![trigger dup[t]] 0 <= t < dup.len() implies swf(dup[t]@, g.constraints.minor_dimension_size as int) by { opposite_wf(g.constraints.data@[f[t] as int]@, dup[t]@, g.constraints.minor_dimension_size as int); } } }
//% before_loop 0
    proof { let h = *self;
        assert forall|j: int, i: int| #![trigger h.constraints.at(j, i)] 0 <= j < n implies h.constraints.at(j, i) == g.constraints.at(j, i) by {}
        assert forall|t: int, i: int| #![trigger h.constraints.at(n + t, i)] 0 <= t < f.len() implies h.constraints.at(n + t, i) == 0real - g.constraints.at(f[t] as int, i) by { assert(h.constraints.data@[n + t] == dup[t]); opposite_sv(g.constraints.data@[f[t] as int]@, dup[t]@, i); } }
    let ghost con = self.constraints;
//% loop 0
    invariant ix0 <= f.len(), it0@ == f, n == width(g), shaped(g), unsplit(g), frees(g, f), f.len() <= n, 2 * n <= usize::MAX, self.constraints == con, splitting(g, *self, f, ix0 as int)
    decreases f.len() - ix0
//% loop_start 0
    let ghost h0 = *self;
    proof { assert(f[ix0 - 1] < n); }
//% loop_end 0
    proof { split_next(g, h0, *self, f, ix0 - 1); }
//% end
    proof { let h = *self;
        split_done(g, h, f); split_same(g, h, f, 1real); }
//% spec
    requires shaped(*old(self)), unsplit(*old(self)), 2 * width(*old(self)) <= usize::MAX
    ensures exists|f: Seq<usize>| #[trigger] split(*old(self), *final(self), f),
      same(*old(self), 1real, *final(self), 1real)
//%%end
//%%include move_spec.rs
//%%fn src/data/linear_program/general_form/mod.rs GeneralForm::transform_variables
//% start
    let ghost g0 = *self;
//% before_loop 0
    let ghost g = *self; let ghost n = width(g);
    proof { let f = choose|f: Seq<usize>| #[trigger] split(g0, g, f);
        assert forall|j: int| #![trigger g.variables@[j]] 0 <= j < n implies !free(g.variables@[j]) by { if j < width(g0) { assert(first_half(g0.variables@[j], g.variables@[j])); } else { let t = j - width(g0); let x = f[t]; assert(Some(x) is Some); assert(second_half(g0.variables@[f[t] as int], g.variables@[width(g0) + t])); } }
        assert(moved(g, *self, 0)); }
//% loop 0
    invariant ix0 <= en0, en0 == n, n == width(g), bounded_somewhere(g), shaped(g), moved(g, *self, ix0 as int)
    decreases en0 - ix0
//% loop_start 0
    let ghost h0 = *self; let ghost v0 = self.variables@[j as int]; let ghost m = g.constraint_types@.len(); let ghost col = self.constraints.data@[j as int]@;
//% before_loop 1
    let ghost v1 = *variable;
//% loop 1
    invariant ix1 <= en1, en1 == col.len(), j < self.constraints.data@.len(), self.constraints.data@.len() == h0.constraints.data@.len(), self.constraints.major_dimension_size == h0.constraints.major_dimension_size, self.constraints.minor_dimension_size == h0.constraints.minor_dimension_size,
      forall|k: int| #![trigger self.constraints.data@[k]] 0 <= k < self.constraints.data@.len() && k != j ==> self.constraints.data@[k] == h0.constraints.data@[k],
      self.constraints.data@[j as int]@.len() == col.len(), turned(col, self.constraints.data@[j as int]@, ix1 as int)
    decreases en1 - ix1
//% before_loop 2
    let ghost h2 = self.b.data@; let ghost con = self.constraints; let ghost col2 = self.constraints.data@[j as int]@; let ghost bs = lower@;
//% loop 2
    invariant ix2 <= it2@.len(), it2@ == refs(col2), col2 == con.data@[j as int]@, bs == lower@, self.constraints == con, bounded(col2, self.b.data@.len() as int), self.b.data@.len() == h2.len(),
      forall|i: int| #![trigger self.b.data@[i]] 0 <= i < h2.len() ==> self.b.data@[i]@ == h2[i]@ - sv(col2.subrange(0, ix2 as int), i) * bs
    decreases it2@.len() - ix2
//% loop_start 2
    let ghost b2 = self.b.data@;
    proof { assert(col2[ix2 - 1].0 < self.b.data@.len()); }
//% loop_end 2
    proof { let k = ix2 - 1; assert forall|i: int| #![trigger self.b.data@[i]] 0 <= i < h2.len() implies self.b.data@[i]@ == h2[i]@ - sv(col2.subrange(0, ix2 as int), i) * bs by { sv_step(col2, k, i); assert(Some(b2[i]) is Some); let (x, y) = (sv(col2.subrange(0, k), i), col2[k].1@); assert((x + y) * bs == x * bs + y * bs) by(nonlinear_arith); } }
//% after_loop 2
    proof { assert(col2.subrange(0, col2.len() as int) =~= col2); }
//% loop_end 0
    proof { let c2 = self.constraints.data@[j as int]@;
        if v0.lower_bound is None { assert(turned(col, c2, col.len() as int)); turned_wf(col, c2, m as int); } else { assert(c2 == col); }
        assert forall|i: int| #![trigger self.constraints.at(j as int, i)] self.constraints.at(j as int, i) == turn(v0) * h0.constraints.at(j as int, i) by { let a = sv(col, i); if v0.lower_bound is None { turned_sv(col, c2, i); assert((0real - 1real) * a == 0real - a) by(nonlinear_arith); } else { assert(1real * a == a) by(nonlinear_arith); } }
        moved_once(g, h0, *self, j as int); }
//% spec
    requires shaped(*old(self)), unsplit(*old(self)), 2 * width(*old(self)) <= usize::MAX
    ensures shaped(*final(self)), same(*old(self), 1real, *final(self), 1real), lower_zero(*final(self)), final(self).objective == old(self).objective, final(self).constraint_types == old(self).constraint_types
//% end
    proof { move_same(g, *self); same_on(g0, 1real, g, 1real, *self, 1real);
        assert forall|j: int| #![trigger self.variables@[j]] 0 <= j < n implies zero_below(self.variables@[j]) by { assert(moved_variable(g.variables@[j], self.variables@[j])); } }
//%%end
//%%include sign_spec.rs
//%%fn src/data/linear_program/general_form/mod.rs GeneralForm::make_b_non_negative
//% sets
//% closure 0 |c0: &(usize, &F)| -> (r: bool) ensures r == (c0.1@ < 0real)
//% closure 1 |c0: (usize, &F)| -> (r: usize) ensures r == c0.0
//% start
    let ghost g = *self; let ghost n = width(g); let ghost m = g.constraint_types@.len() as int;
//% before "self.constraints.change_row_signs"
    let ghost set = rows_to_negate@;
    proof { let es = enum_seq(refs(g.b.data@)); assert forall|i: int| #![trigger es[i]] #![trigger g.b.data@[i]] 0 <= i < m implies es[i] == (i as usize, &g.b.data@[i]) by { }
        assert(exists|p: Seq<int>| #![trigger increasing(p)] negatives(g, set, p)); let p = choose|p: Seq<int>| negatives(g, set, p);
        assert forall|i: usize| #![trigger set.contains(i)] set.contains(i) == (i < m && g.b.data@[i as int]@ < 0real) by { } }
//% loop 0
    invariant ix0 <= it0@.len(), it0@.no_duplicates(), forall|i: usize| #![trigger it0@.contains(i)] it0@.contains(i) == (i < m && g.b.data@[i as int]@ < 0real), m == g.constraint_types@.len(), m == g.b.data@.len(),
      self.objective == g.objective, self.fixed_cost == g.fixed_cost, self.variables == g.variables, self.original_variables == g.original_variables, self.from_active_to_original == g.from_active_to_original, self.constraints == con,
      self.constraint_types@.len() == m, self.b.data@.len() == m,
      forall|t: int| #![trigger it0@[t]] 0 <= t < ix0 ==> turned_row(g.constraint_types@[it0@[t] as int], g.b.data@[it0@[t] as int]@, self.constraint_types@[it0@[t] as int], self.b.data@[it0@[t] as int]@),
      forall|t: int| #![trigger it0@[t]] ix0 <= t < it0@.len() ==> self.constraint_types@[it0@[t] as int] == g.constraint_types@[it0@[t] as int] && self.b.data@[it0@[t] as int] == g.b.data@[it0@[t] as int],
      forall|i: int| #![trigger self.constraint_types@[i]] 0 <= i < m && g.b.data@[i]@ >= 0real ==> self.constraint_types@[i] == g.constraint_types@[i] && self.b.data@[i] == g.b.data@[i]
    decreases it0@.len() - ix0
//% before_loop 0
    let ghost con = self.constraints;
//% loop_start 0
    let ghost (t0, b0) = (self.constraint_types@, self.b.data@);
    proof { assert(it0@.contains(row)); }
//% loop_end 0
    proof { let k = ix0 - 1;
        assert forall|t: int| #![trigger it0@[t]] 0 <= t < it0@.len() && t != k implies it0@[t] != it0@[k] && it0@[t] < m by { assert(it0@.contains(it0@[t])); }
        assert(row == it0@[k]); assert(g.b.data@[row as int]@ < 0real);
        assert forall|i: int| #![trigger self.constraint_types@[i]] 0 <= i < m && g.b.data@[i]@ >= 0real implies self.constraint_types@[i] == g.constraint_types@[i] && self.b.data@[i] == g.b.data@[i] by { assert(i != row); let z = t0[i]; assert(Some(z) is Some); assert(z == g.constraint_types@[i]); assert(self.constraint_types@[i] == z); assert(self.b.data@[i] == b0[i]); } }
//% end
    proof { signed_by(g, *self, it0@); signed_same(g, *self, 1real); signed_same(g, *self, 0real - 1real); }
//% spec
    requires shaped(*old(self))
    ensures signed(*old(self), *final(self)), same(*old(self), 1real, *final(self), 1real), same(*old(self), 0real - 1real, *final(self), 0real - 1real), ranges_ok(*old(self)) ==> ranges_ok(*final(self)) && b_nonneg(*final(self))
//%%end
//%%include order_spec.rs
//%%fn src/data/linear_program/general_form/mod.rs GeneralForm::make_minimization_problem
//% start
    let ghost g = *self; let ghost n = width(g);
//% loop 0
    invariant ix0 <= en0, en0 == n, n == width(g), self.variables@.len() == n, self.objective is Minimize, g.objective is Maximize, self.constraints == g.constraints, self.b == g.b, self.constraint_types == g.constraint_types, self.fixed_cost == g.fixed_cost, self.original_variables == g.original_variables, self.from_active_to_original == g.from_active_to_original,
      forall|j: int| #![trigger self.variables@[j]] 0 <= j < n ==> same_but_cost(g.variables@[j], self.variables@[j]) && self.variables@[j].cost@ == (if j < ix0 { sign_of(g.objective) * g.variables@[j].cost@ } else { g.variables@[j].cost@ })
    decreases en0 - ix0
//% end
    proof { assert forall|j: int| #![trigger self.variables@[j]] 0 <= j < n implies same_but_cost(g.variables@[j], self.variables@[j]) && self.variables@[j].cost@ == sign_of(g.objective) * g.variables@[j].cost@ by { let x = g.variables@[j].cost@; assert(1real * x == x) by(nonlinear_arith); }
        negated_same(g, *self); }
//% spec
    requires shaped(*old(self))
    ensures negated_costs(*old(self), *final(self)), same(*old(self), 1real, *final(self), sign_of(old(self).objective))
//%%end
//%%fn src/data/linear_program/elements.rs RangedConstraintRelationKind as From::from
//% spec
    ensures r == kind(*constraint)
//%%end
impl Ranked for RangedConstraintRelation { open spec fn rank(&self) -> int { place(*self) } }
//%%fn src/data/linear_program/general_form/mod.rs GeneralForm::reorder_constraints_by_type
//% collected usize
//% subst From::from => RangedConstraintRelationKind::from
//% closure 0 |c0: &RangedConstraintRelation, c1: &RangedConstraintRelation| -> (r: core::cmp::Ordering) ensures r == order_of(c0.rank(), c1.rank())
//% closure 1 |c0: usize| -> (r: usize) requires c0 < m, map@.len() == m, old_constraint_types@.len() == m, m == tg@.len(), m <= usize::MAX, old_constraint_types@[c0 as int] == kind(tg@[c0 as int]), map@[c0 as int] == cnt(tg@, place(tg@[c0 as int]), c0 as int), e_counter == cnt(tg@, 0, m), r_counter == cnt(tg@, 1, m), l_counter == cnt(tg@, 2, m), 0 <= dest(tg@, c0 as int) < m ensures r == dest(tg@, c0 as int)
//% start
    let ghost g = *self; let ghost n = width(g); let ghost types = g.constraint_types@; let ghost m = types.len() as int;
    proof { cnt_all(types, 0); }
//% loop 0
    invariant ix0 <= m, it0@ == refs(types), m == types.len(), m <= usize::MAX, collected@.len() == ix0, e_counter == cnt(types, 0, ix0 as int), r_counter == cnt(types, 1, ix0 as int), l_counter == cnt(types, 2, ix0 as int), g_counter == cnt(types, 3, ix0 as int),
      forall|i: int| #![trigger collected@[i]] 0 <= i < ix0 ==> collected@[i] == cnt(types, place(types[i]), i)
    decreases m - ix0
//% loop_start 0
    let ghost c0 = collected@;
    proof { let k = ix0 - 1; cnt_bounds(types, 0, k); cnt_bounds(types, 1, k); cnt_bounds(types, 2, k); cnt_bounds(types, 3, k); }
//% loop_end 0
    proof { assert forall|i: int| #![trigger collected@[i]] 0 <= i < ix0 implies collected@[i] == cnt(types, place(types[i]), i) by { if i < ix0 - 1 { assert(collected@[i] == c0[i]); } } }
//% before "let get_destination"
    let ghost sorted = self.constraint_types@; let tg: Ghost<Seq<RangedConstraintRelation>> = Ghost(types);
    let ghost p = choose|p: Seq<int>| #[trigger] stable_sort_of(types, sorted, p);
    proof { sorted_at(types, sorted, p); assert forall|i: int| #![trigger dest(types, i)] 0 <= i < m implies 0 <= dest(types, i) < m by { dest_range(types, i); } }
//% before "let mut new_b"
    let ghost b0 = self.b.data@;
    proof { assert forall|x: usize| x < m implies #[trigger] get_destination.requires((x,)) by { let z = dest(types, x as int); assert(Some(z) is Some); let y = old_constraint_types@[x as int]; assert(Some(y) is Some); } }
//% loop 1
    invariant ix1 <= en1, en1 == m, m == types.len(), m <= usize::MAX, new_b@.len() == m, self.b.data@.len() == m, b0.len() == m, self.objective == g.objective, self.fixed_cost == g.fixed_cost, self.variables == g.variables, self.original_variables == g.original_variables, self.from_active_to_original == g.from_active_to_original, self.constraints == g.constraints, self.constraint_types@ == sorted,
      forall|x: usize| x < m ==> #[trigger] get_destination.requires((x,)), forall|x: usize, r: usize| #[trigger] get_destination.ensures((x,), r) ==> r == dest(types, x as int),
      forall|i: int| #![trigger dest(types, i)] 0 <= i < m ==> 0 <= dest(types, i) < m,
      forall|i: int| #![trigger dest(types, i)] 0 <= i < ix1 ==> new_b@[dest(types, i)] == Some(b0[i]), forall|i: int| #![trigger self.b.data@[i]] ix1 <= i < m ==> self.b.data@[i] == b0[i]
    decreases en1 - ix1
//% loop_end 1
    proof { let k = ix1 - 1; assert forall|i: int| #![trigger dest(types, i)] 0 <= i < m && i != k implies dest(types, i) != dest(types, k) by { dest_distinct(types, i, k); } }
//% after_loop 1
    proof { let nb = new_b@; assert forall|k: int| 0 <= k < m implies (#[trigger] nb[k]) == Some(b0[p[k]]) by { let i = p[k]; assert(dest(types, i) == k); } }
//% loop 2
    invariant ix2 <= en2, en2 == n, n == width(g), m == types.len(), m <= usize::MAX, types == g.constraint_types@, shaped(g), self.objective == g.objective, self.fixed_cost == g.fixed_cost, self.variables == g.variables, self.original_variables == g.original_variables, self.from_active_to_original == g.from_active_to_original, self.constraint_types@ == sorted, self.b == nb1,
      self.constraints.data@.len() == n, self.constraints.major_dimension_size == g.constraints.major_dimension_size, self.constraints.minor_dimension_size == g.constraints.minor_dimension_size,
      forall|x: usize| x < m ==> #[trigger] get_destination.requires((x,)), forall|x: usize, r: usize| #[trigger] get_destination.ensures((x,), r) ==> r == dest(types, x as int),
      forall|i: int| #![trigger dest(types, i)] 0 <= i < m ==> 0 <= dest(types, i) < m,
      forall|j: int| #![trigger self.constraints.data@[j]] 0 <= j < n ==> if j < ix2 { relocated(g.constraints.data@[j]@, self.constraints.data@[j]@, types) } else { self.constraints.data@[j] == g.constraints.data@[j] }
    decreases en2 - ix2
//% before_loop 2
    let ghost nb1 = self.b;
//% loop 3
    invariant ix3 <= en3, en3 == s0.len(), column@.len() == s0.len(), swf(s0, m), m == types.len(), m <= usize::MAX, renamed(s0, column@, types, ix3 as int),
      forall|x: usize| x < m ==> #[trigger] get_destination.requires((x,)), forall|x: usize, r: usize| #[trigger] get_destination.ensures((x,), r) ==> r == dest(types, x as int),
      forall|i: int| #![trigger dest(types, i)] 0 <= i < m ==> 0 <= dest(types, i) < m
    decreases en3 - ix3
//% before_loop 3
    let ghost s0 = column@;
    proof { let z = g.constraints.data@[ix2 - 1]; assert(Some(z) is Some); }
//% loop_start 3
    proof { let z = s0[ix3 - 1]; assert(Some(z) is Some); }
//% after_loop 3
    let ghost c3 = column@;
//% after "column.sort_unstable_by_key"
    proof { relocate(s0, c3, column@, types); }
//% end
    proof { let c = seq![e_counter, r_counter, l_counter, g_counter]; ordered_groups(types, sorted, p, c);
        assert(self.constraints.wf()) by { assert forall|j: int| #![trigger self.constraints.data@[j]] 0 <= j < n implies swf(self.constraints.data@[j]@, m) by { assert(relocated(g.constraints.data@[j]@, self.constraints.data@[j]@, types)); } }
        assert(ordered(g, *self)); ordered_same(g, *self, 1real); ordered_same(g, *self, 0real - 1real); assert([e_counter, r_counter, l_counter, g_counter]@ =~= c); }
//% spec
    requires shaped(*old(self))
    ensures ordered(*old(self), *final(self)), grouped(final(self).constraint_types@, r@), same(*old(self), 1real, *final(self), 1real), same(*old(self), 0real - 1real, *final(self), 0real - 1real), ranges_ok(*old(self)) ==> ranges_ok(*final(self)), b_nonneg(*old(self)) ==> b_nonneg(*final(self))
//%%end
//%%fn src/data/linear_program/general_form/mod.rs GeneralForm::standardize
//% start
    let ghost g0 = *self; let ghost s = sign_of(g0.objective);
//% before "self.make_b_non_negative"
    let ghost g1 = *self;
//% before "self.make_minimization_problem"
    let ghost g2 = *self;
    proof { same_on(g0, 1real, g1, 1real, g2, 1real); }
//% before "let constraint_type_counts"
    let ghost g3 = *self;
    proof { same_on(g0, 1real, g2, 1real, g3, s); assert(shaped(g3)) by { assert(g3.constraints == g2.constraints); }
        assert(lower_zero(g3)) by { assert forall|j: int| #![trigger g3.variables@[j]] 0 <= j < width(g3) implies zero_below(g3.variables@[j]) by { assert(same_but_cost(g2.variables@[j], g3.variables@[j])); assert(zero_below(g2.variables@[j])); } } }
//% end
    proof { same_on(g0, 1real, g3, s, *self, s); }
//% spec
    requires shaped(*old(self)), unsplit(*old(self)), ranges_ok(*old(self)), 2 * width(*old(self)) <= usize::MAX
    ensures same(*old(self), 1real, *final(self), sign_of(old(self).objective)), shaped(*final(self)), final(self).objective is Minimize, lower_zero(*final(self)), b_nonneg(*final(self)), ranges_ok(*final(self)), grouped(final(self).constraint_types@, r@)
//%%end
//%%fn src/data/linear_program/general_form/mod.rs GeneralForm::new
//% types SparseMatrix<F,F,ColumnMajor>=SparseMatrix<F>; Self=GeneralForm
//% closure 0 |c0: (usize, Str)| -> (r: (Str, OriginalVariable))
    ensures r.0 == c0.1, r.1 == OriginalVariable::Active(c0.0)
//% spec
    requires constraints.wf(), constraints.major_dimension_size == variables@.len(), constraints.minor_dimension_size == constraint_types@.len(), b.data@.len() == constraint_types@.len(), variable_names@.len() == variables@.len(),
      forall|j: int| #![trigger variables@[j]] 0 <= j < variables@.len() ==> free(variables@[j]) ==> !variables@[j].flipped
    ensures shaped(r), unsplit(r), r.objective == objective, r.constraints == constraints, r.constraint_types == constraint_types, r.b == b, r.variables == variables, r.fixed_cost == fixed_cost,
      forall|o: int| #![trigger r.original_variables@[o]] 0 <= o < variables@.len() ==> r.original_variables@[o].0 == variable_names@[o] && r.original_variables@[o].1 == OriginalVariable::Active(o as usize), r.original_variables@.len() == variables@.len()
//%%end
} fn main() {}
