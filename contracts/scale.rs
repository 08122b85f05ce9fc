// Unit: scaling a problem and scaling it back.
use vstd::prelude::*;
verus! {
//%%include prelude.rs
//%%include sparse_spec.rs
//%%types SparseTupleVec=Vec<(usize, F)>; O=usize; C=F; MO=usize
//%%item src/data/linear_algebra/matrix.rs SparseMatrix
//%%end
//%%types F=F; T=F; R=F; S=F; GeneralFormFactorization<R>=GeneralFormFactorization; GeneralFormFactorization=GeneralFormFactorization; OF=F; RemovedVariable<F>=RemovedVariable; String=Str; Option<OF>=Option<F>; SparseTuple<F>=(usize, F); SparseTupleVec=Vec<(usize, F)>; RangedConstraintRelation<F>=RangedConstraintRelation; DenseVector<F>=Dense; DenseVector=Dense; SparseMatrix=SparseMatrix<F>; GeneralForm<F>=GeneralForm; GeneralForm<OF>=GeneralForm; Variable<F>=Variable; Variable<OF>=Variable; OriginalVariable<F>=OriginalVariable; OriginalVariable<OF>=OriginalVariable; SparseVector<S,S>=Sparse; Sparse=Sparse; SparseTuple=(usize, F); Scaling<F>=Scaling; Scaling<R>=Scaling; R::Factor=Factor; R::Power=i32
//%%path R::Power::zero=v_zero
//%%path R::Power::one=v_one
//%%dense b,vector
#[verifier::external_body] pub struct Str { x: () }
// a factor found in a number: relp_num's NonZeroFactorizable::Factor, an unsigned integer larger than zero
#[verifier::external_body] pub struct Factor { x: () }
impl View for Factor { type V = real; uninterp spec fn view(&self) -> real; }
impl Factor { pub broadcast axiom fn positive(self) ensures #[trigger] self@ > 0real; }
impl VMulAssign<&Factor> for F { open spec fn mula_req(&self, r: &Factor) -> bool { true } open spec fn mula_ens(&self, r: &Factor, o: &F) -> bool { o@ == self@ * r@ } #[verifier::external_body] fn v_mul_assign(&mut self, r: &Factor) { unimplemented!() } }
impl VDivAssign<&Factor> for F { open spec fn diva_req(&self, r: &Factor) -> bool { true } open spec fn diva_ens(&self, r: &Factor, o: &F) -> bool { o@ == self@ / r@ } #[verifier::external_body] fn v_div_assign(&mut self, r: &Factor) { unimplemented!() } }
pub fn v_zero() -> (r: i32) ensures r == 0 { 0 }
pub fn v_one() -> (r: i32) ensures r == 1 { 1 }
pub open spec fn size(x: i32) -> int { if x < 0 { -x } else { x as int } }
pub fn v_signum(x: i32) -> (r: Sign) ensures r is Positive == (x > 0), r is Zero == (x == 0), r is Negative == (x < 0) { if x > 0 { Sign::Positive } else if x == 0 { Sign::Zero } else { Sign::Negative } }
pub trait VAbs: Sized { spec fn abs_req(&self) -> bool; spec fn abs_ens(&self, r: Self) -> bool; fn v_abs(&self) -> (r: Self) requires self.abs_req() ensures self.abs_ens(r); }
impl VAbs for i32 { open spec fn abs_req(&self) -> bool { *self > i32::MIN } open spec fn abs_ens(&self, r: i32) -> bool { r == size(*self) } fn v_abs(&self) -> i32 { if *self < 0 { -*self } else { *self } } }
pub open spec fn in_range(s: Seq<i32>) -> bool { forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> s[i] > i32::MIN }
//%%item src/data/linear_algebra/vector/dense.rs Dense
//%%end
//%%item src/data/linear_algebra/vector/sparse.rs Sparse
//%%end
//%%item src/data/linear_program/elements.rs RangedConstraintRelation
//%%end
//%%item src/data/linear_program/elements.rs VariableType
//%%end
//%%item src/data/linear_program/elements.rs Objective
//%%end
//%%item src/data/linear_program/general_form/mod.rs Variable
//%%end
//%%item src/data/linear_program/general_form/mod.rs RemovedVariable
//%%end
//%%item src/data/linear_program/general_form/mod.rs OriginalVariable
//%%end
//%%item src/data/linear_program/general_form/mod.rs GeneralForm
//%%end
//%%item src/data/linear_program/general_form/presolve/scale/mod.rs Scaling
//%%end
impl Sparse {
    pub open spec fn wf(&self) -> bool { swf(self.data@, self.len as int) }
    pub open spec fn at(&self, i: int) -> real { sv(self.data@, i) }
}
pub open spec fn rows_wf(d: Seq<Vec<(usize, F)>>, n: int) -> bool { forall|j: int| #![trigger d[j]] 0 <= j < d.len() ==> swf(d[j]@, n) }
impl SparseMatrix<F> {
    pub open spec fn wf(&self) -> bool { self.data@.len() == self.major_dimension_size && rows_wf(self.data@, self.minor_dimension_size as int) }
    pub open spec fn at(&self, j: int, i: int) -> real { sv(self.data@[j]@, i) }
}
//%%include general_spec.rs
//%%include scale_spec.rs
//%%fn src/data/linear_program/general_form/presolve/scale/mod.rs scale
//% mut_ref
//% sig
fn scale<Op: Fn(&mut F, &F), Inv: Fn(&mut F, &F)>(general_form: &mut GeneralForm, scaling: &Scaling, op: Op, inverse_op: Inv)
//% spec
    requires shaped(*old(general_form)), fits(*old(general_form), *scaling), callable(op), callable(inverse_op), turns(op, inverse_op, true) || turns(op, inverse_op, false)
    ensures turns(op, inverse_op, true) ==> scaled(*old(general_form), *final(general_form), *scaling, true), turns(op, inverse_op, false) ==> scaled(*old(general_form), *final(general_form), *scaling, false)
//% start
    let ghost g = *general_form; let ghost w = turns(op, inverse_op, true);
//% loop 0
    invariant turns(op, inverse_op, w), scale_ready(g, *scaling), callable(op), callable(inverse_op), *cost_factor == scaling.cost_factor, *constraint_row_factors == scaling.constraint_row_factors, *constraint_column_factors == scaling.constraint_column_factors,
      ix0 <= en0, en0 == width(g), (forall|up: bool| #[trigger] turns(op, inverse_op, up) ==> scaled_columns(g, *general_form, *scaling, up, ix0 as int)), scaled_rest(g, *general_form), general_form.b == g.b, general_form.constraint_types == g.constraint_types
    decreases en0 - ix0
//% loop_start 0
    proof { let (k, c) = (scaling.cost_factor@, scaling.constraint_column_factors@[ix0 - 1]); assert(c@ > 0real); product_positive(k, c@); let z = g.variables@[ix0 - 1]; assert(column@ == g.constraints.data@[ix0 - 1]@); assert(general_form.variables@[ix0 - 1] == g.variables@[ix0 - 1]); }
//% before_loop 1
    let ghost v1 = general_form.variables@[ix0 - 1];
//% loop 1
    invariant turns(op, inverse_op, w), scale_ready(g, *scaling), callable(op), *constraint_row_factors == scaling.constraint_row_factors, column_factor@ == scaling.constraint_column_factors@[ix0 - 1]@, 0 < ix0 <= width(g),
      ix1 <= en1, en1 == column@.len(), (forall|up: bool| #[trigger] turns(op, inverse_op, up) ==> scaled_column(g.constraints.data@[ix0 - 1]@, column@, scaling.constraint_row_factors@, column_factor@, up, ix1 as int))
    decreases en1 - ix1
//% loop_start 1
    proof { let z = g.constraints.data@[ix0 - 1]; let w = z@[ix1 - 1]; assert(*i == w.0); assert(w.0 < g.constraints.minor_dimension_size); let (r, c) = (scaling.constraint_row_factors@[w.0 as int], scaling.constraint_column_factors@[ix0 - 1]); assert(r@ > 0real && c@ > 0real); product_positive(r@, c@); }
//% loop 2
    invariant turns(op, inverse_op, w), scale_ready(g, *scaling), callable(op), *constraint_row_factors == scaling.constraint_row_factors,
      ix2 <= en2, en2 == g.b.data@.len(), (forall|up: bool| #[trigger] turns(op, inverse_op, up) ==> scaled_columns(g, *general_form, *scaling, up, width(g)) && scaled_rows(g, *general_form, *scaling, up, ix2 as int)), scaled_rest(g, *general_form)
    decreases en2 - ix2
//%%end
//%%fn src/data/linear_program/general_form/presolve/scale/rational/mod.rs combine_factors
//% subst c_change.signum() => v_signum(c_change)
//% subst row_change.signum() => v_signum(row_change)
//% subst column_change.signum() => v_signum(column_change)
//% spec
    requires changes_fit(scale_per_factor@, nr_rows as int, nr_columns as int)
    ensures r.cost_factor@ > 0real, r.constraint_row_factors@.len() == nr_rows, r.constraint_column_factors@.len() == nr_columns, all_positive(r.constraint_row_factors@), all_positive(r.constraint_column_factors@)
//% start
    let ghost changes = scale_per_factor@;
//% loop 0
    invariant changes_fit(changes, nr_rows as int, nr_columns as int), it0@ == changes, ix0 <= it0@.len(), constraint_row_factors@.len() == nr_rows, constraint_column_factors@.len() == nr_columns, all_positive(constraint_row_factors@), all_positive(constraint_column_factors@), cost_factor@ > 0real
    decreases it0@.len() - ix0
//% loop_start 0
    proof { factor.positive(); let z = changes[ix0 - 1]; assert(z.1.0.0 > i32::MIN); }
//% loop 1
    invariant constraint_row_factors@.len() == nr_rows, constraint_column_factors@.len() == nr_columns, all_positive(constraint_row_factors@), all_positive(constraint_column_factors@), cost_factor@ > 0real, 0 <= iter <= size(c_change), c_change > i32::MIN, factor@ > 0real
    decreases size(c_change) - iter
//% loop_start 1
    proof { let z = cost_factor; assert(z@ > 0real); product_positive(z@, factor@); }
//% loop 2
    invariant constraint_row_factors@.len() == nr_rows, constraint_column_factors@.len() == nr_columns, all_positive(constraint_row_factors@), all_positive(constraint_column_factors@), cost_factor@ > 0real, 0 <= iter <= size(c_change), c_change > i32::MIN, factor@ > 0real
    decreases size(c_change) - iter
//% loop_start 2
    proof { let z = cost_factor; assert(z@ > 0real); quotient_positive(z@, factor@); }
//% loop 3
    invariant it3@ == enum_seq(row_changes@), ix3 <= it3@.len(), row_changes@.len() == nr_rows, in_range(row_changes@), factor@ > 0real, constraint_row_factors@.len() == nr_rows, constraint_column_factors@.len() == nr_columns, all_positive(constraint_row_factors@), all_positive(constraint_column_factors@), cost_factor@ > 0real
    decreases it3@.len() - ix3
//% loop_start 3
    proof { let z = row_changes@[ix3 - 1]; assert(z > i32::MIN); }
//% loop 4
    invariant constraint_row_factors@.len() == nr_rows, constraint_column_factors@.len() == nr_columns, all_positive(constraint_row_factors@), all_positive(constraint_column_factors@), cost_factor@ > 0real, 0 <= iter <= size(row_change), row_change > i32::MIN, factor@ > 0real, i < nr_rows
    decreases size(row_change) - iter
//% loop_start 4
    proof { let z = constraint_row_factors@[i as int]; assert(z@ > 0real); product_positive(z@, factor@); }
//% loop 5
    invariant constraint_row_factors@.len() == nr_rows, constraint_column_factors@.len() == nr_columns, all_positive(constraint_row_factors@), all_positive(constraint_column_factors@), cost_factor@ > 0real, 0 <= iter <= size(row_change), row_change > i32::MIN, factor@ > 0real, i < nr_rows
    decreases size(row_change) - iter
//% loop_start 5
    proof { let z = constraint_row_factors@[i as int]; assert(z@ > 0real); quotient_positive(z@, factor@); }
//% loop 6
    invariant it6@ == enum_seq(column_changes@), ix6 <= it6@.len(), column_changes@.len() == nr_columns, in_range(column_changes@), factor@ > 0real, constraint_row_factors@.len() == nr_rows, constraint_column_factors@.len() == nr_columns, all_positive(constraint_row_factors@), all_positive(constraint_column_factors@), cost_factor@ > 0real
    decreases it6@.len() - ix6
//% loop_start 6
    proof { let z = column_changes@[ix6 - 1]; assert(z > i32::MIN); }
//% loop 7
    invariant constraint_row_factors@.len() == nr_rows, constraint_column_factors@.len() == nr_columns, all_positive(constraint_row_factors@), all_positive(constraint_column_factors@), cost_factor@ > 0real, 0 <= iter <= size(column_change), column_change > i32::MIN, factor@ > 0real, j < nr_columns
    decreases size(column_change) - iter
//% loop_start 7
    proof { let z = constraint_column_factors@[j as int]; assert(z@ > 0real); quotient_positive(z@, factor@); }
//% loop 8
    invariant constraint_row_factors@.len() == nr_rows, constraint_column_factors@.len() == nr_columns, all_positive(constraint_row_factors@), all_positive(constraint_column_factors@), cost_factor@ > 0real, 0 <= iter <= size(column_change), column_change > i32::MIN, factor@ > 0real, j < nr_columns
    decreases size(column_change) - iter
//% loop_start 8
    proof { let z = constraint_column_factors@[j as int]; assert(z@ > 0real); product_positive(z@, factor@); }
//%%end
//%%fn src/data/linear_program/general_form/presolve/scale/mod.rs Scaling::scale_back
//% mut_ref
//% spec
    requires old(vector).wf(), old(vector).len == self.constraint_column_factors@.len(), all_positive(self.constraint_column_factors@)
    ensures final(vector).wf(), final(vector).len == old(vector).len, forall|j: int| #![trigger final(vector).at(j)] 0 <= j < old(vector).len ==> final(vector).at(j) == old(vector).at(j) * self.constraint_column_factors@[j]@
//% start
    let ghost s = vector.data@; let ghost c = |j: int| self.constraint_column_factors@[j]@;
//% loop 0
    invariant ix0 <= en0, en0 == vector.data@.len(), vector.len == self.constraint_column_factors@.len(), swf(s, vector.len as int), part_scaled(s, vector.data@, c, ix0 as int), forall|j: int| c(j) == self.constraint_column_factors@[j]@
    decreases en0 - ix0
//% loop_start 0
    proof { assert(s[ix0 - 1] == (*j, *value)); assert(s[ix0 - 1].0 < self.constraint_column_factors@.len()); }
//% end
    proof { assert forall|j: int| #![trigger vector.at(j)] 0 <= j < vector.len implies vector.at(j) == sv(s, j) * self.constraint_column_factors@[j]@ by { scaled_at(s, vector.data@, c, j); }
      assert forall|k: int| #![trigger vector.data@[k]] 0 <= k < vector.data@.len() implies vector.data@[k].1@ != 0real by { let z = s[k]; let f = self.constraint_column_factors@[z.0 as int]; assert(f@ > 0real); product_nonzero(z.1@, f@); }
      assert(ssorted(vector.data@)); }
//%%end
//%%types Factorization<R>=Vec<(Factor, i32)>; Factorization<F>=Vec<(Factor, i32)>; SparseTuple<Vec<(Factor, i32)>>=(usize, Vec<(Factor, i32)>); GeneralFormFactorization<F>=GeneralFormFactorization; F::Factor=Factor
//%%item src/data/linear_program/general_form/presolve/scale/rational/mod.rs GeneralFormFactorization
//%%end
// Assumed: the heuristics that choose the power of a factor terminate without overflow and return one power for the objective, each row and each column.
impl GeneralFormFactorization {
    #[verifier::external_body] fn build_index(&self) -> (r: Vec<Vec<(usize, usize)>>) { unimplemented!() }
    #[verifier::external_body] fn solve_single(&mut self, index: &Vec<Vec<(usize, usize)>>) -> (r: (Factor, ((i32, Vec<i32>), Vec<i32>)))
        requires old(self).factors@.len() > 0
        ensures final(self).factors@.len() + 1 == old(self).factors@.len(), final(self).b@.len() == old(self).b@.len(), final(self).c@.len() == old(self).c@.len(), r.1.0.0 > i32::MIN, r.1.0.1@.len() == old(self).b@.len(), r.1.1@.len() == old(self).c@.len(), in_range(r.1.0.1@), in_range(r.1.1@) { unimplemented!() }
}
impl GeneralForm {
    // Assumed: the factors found belong to this problem.
    #[verifier::external_body] fn factorize(&self) -> (r: GeneralFormFactorization) ensures r.b@.len() == self.b.data@.len(), r.c@.len() == width(*self) { unimplemented!() }
}
//%%fn src/data/linear_program/general_form/presolve/scale/rational/mod.rs GeneralFormFactorization::solve
//% spec
    ensures changes_fit(r@, self.b@.len() as int, self.c@.len() as int)
//% loop 0
    invariant changes_fit(results@, self.b@.len() as int, self.c@.len() as int), v_self.b@.len() == self.b@.len(), v_self.c@.len() == self.c@.len()
    decreases v_self.factors@.len()
//%%end
//%%fn src/data/linear_algebra/matrix.rs SparseMatrix::nr_rows /ColumnMajor/
//% spec
    ensures r == self.minor_dimension_size
//%%end
//%%fn src/data/linear_algebra/matrix.rs SparseMatrix::nr_columns /ColumnMajor/
//% spec
    ensures r == self.major_dimension_size
//%%end
//%%fn src/data/linear_program/general_form/mod.rs GeneralForm::nr_active_constraints
//% spec
    ensures r == self.constraints.minor_dimension_size
//%%end
//%%fn src/data/linear_program/general_form/mod.rs GeneralForm::nr_active_variables
//% spec
    ensures r == self.constraints.major_dimension_size
//%%end
//%%fn src/data/linear_program/general_form/presolve/scale/rational/mod.rs GeneralForm as Scalable::scale
//% closure 0 |c0: &mut F, c1: &F| -> ()
    requires c1@ > 0real ensures (*final(c0))@ == multiplied((*old(c0))@, c1@, true)
//% closure 1 |c0: &mut F, c1: &F| -> ()
    requires c1@ > 0real ensures (*final(c0))@ == multiplied((*old(c0))@, c1@, false)
//% name scale_it
//% spec
    requires shaped(*old(self))
    ensures fits(*old(self), r), scaled(*old(self), *final(self), r, true), shaped(*final(self)), fits(*final(self), r), forall|y: Seq<real>| #![trigger back(r, y)] y.len() == width(*old(self)) ==> meant(*old(self), *final(self), r, y)
//% start
    let ghost g = *self;
//% end
    proof { stays_shaped(g, *self, scaling, true); assert forall|y: Seq<real>| #![trigger back(scaling, y)] y.len() == width(g) implies meant(g, *self, scaling, y) by { means_the_same(g, *self, scaling, y); } }
//%%end
//%%fn src/data/linear_program/general_form/presolve/scale/rational/mod.rs GeneralForm as Scalable::scale_back
//% closure 0 |c0: &mut F, c1: &F| -> ()
    requires c1@ > 0real ensures (*final(c0))@ == multiplied((*old(c0))@, c1@, false)
//% closure 1 |c0: &mut F, c1: &F| -> ()
    requires c1@ > 0real ensures (*final(c0))@ == multiplied((*old(c0))@, c1@, true)
//% name scale_it_back
//% spec
    requires shaped(*old(self)), fits(*old(self), scaling)
    ensures scaled(*old(self), *final(self), scaling, false), forall|g: GeneralForm| #![trigger scaled(g, *old(self), scaling, true)] shaped(g) && fits(g, scaling) && scaled(g, *old(self), scaling, true) ==> same_numbers(g, *final(self))
//% start
    let ghost h = *self;
//% end
    proof { assert(scaled(h, *self, scaling, false)); assert forall|g: GeneralForm| #![trigger scaled(g, h, scaling, true)] shaped(g) && fits(g, scaling) && scaled(g, h, scaling, true) implies same_numbers(g, *self) by { restores(g, h, *self, scaling); } }
//%%end
} fn main() {}
