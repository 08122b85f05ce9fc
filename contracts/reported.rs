// Unit: the solution that is reported.
use vstd::prelude::*;
verus! {
//%%include prelude.rs
//%%include sparse_spec.rs
//%%types SparseTupleVec=Vec<(usize, F)>; O=usize; C=F; MO=usize
//%%item src/data/linear_algebra/matrix.rs SparseMatrix
//%%end
//%%types F=F; OF=F; G=F; RemovedVariable<F>=RemovedVariable; String=Str; Option<OF>=Option<F>; SparseTuple<F>=(usize, F); SparseTupleVec=Vec<(usize, F)>; RangedConstraintRelation<F>=RangedConstraintRelation; DenseVector<F>=Dense; DenseVector=Dense; SparseMatrix=SparseMatrix<F>; GeneralForm<F>=GeneralForm; GeneralForm<OF>=GeneralForm; Variable<F>=Variable; Variable<OF>=Variable; OriginalVariable<F>=OriginalVariable; OriginalVariable<OF>=OriginalVariable; SparseVector<G,G>=Sparse; Solution<G>=Solution; Solution<OF>=Solution; Solution<F>=Solution; Sparse=Sparse; SparseTuple=(usize, F)
//%%dense b
#[verifier::external_body] pub struct Str { x: () }
impl VClone for Str { #[verifier::external_body] fn v_clone(&self) -> Self { unimplemented!() } }
//%%item src/data/linear_algebra/vector/dense.rs Dense
//%%end
//%%item src/data/linear_algebra/vector/sparse.rs Sparse
//%%end
//%%item src/data/linear_program/elements.rs RangedConstraintRelation
//%%end
//%%item src/data/linear_program/elements.rs VariableType
//%%end
//%%item src/data/linear_program/elements.rs Objective
//%%end
//%%item src/data/linear_program/general_form/mod.rs Variable
//%%end
//%%item src/data/linear_program/general_form/mod.rs RemovedVariable
//%%end
//%%item src/data/linear_program/general_form/mod.rs OriginalVariable
//%%end
//%%item src/data/linear_program/general_form/mod.rs GeneralForm
//%%end
//%%item src/data/linear_program/solution.rs Solution
//%%end
impl Sparse {
    pub open spec fn wf(&self) -> bool { swf(self.data@, self.len as int) }
    pub open spec fn at(&self, i: int) -> real { sv(self.data@, i) }
}
pub open spec fn rows_wf(d: Seq<Vec<(usize, F)>>, n: int) -> bool { forall|j: int| #![trigger d[j]] 0 <= j < d.len() ==> swf(d[j]@, n) }
impl SparseMatrix<F> {
    pub open spec fn wf(&self) -> bool { self.data@.len() == self.major_dimension_size && rows_wf(self.data@, self.minor_dimension_size as int) }
    pub open spec fn at(&self, j: int, i: int) -> real { sv(self.data@[j]@, i) }
}
//%%use vector src/data/linear_algebra/vector/sparse.rs Sparse as Vector::get
//%%use vector src/data/linear_algebra/vector/sparse.rs Sparse as Vector::set
//%%use vector src/data/linear_algebra/vector/sparse.rs Sparse::shift_value
impl Sparse { #[verifier::external_body] pub fn v_iter<'a>(&'a self) -> (r: VIter<(usize, &'a F)>) ensures own(r@) == self.data@, forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> (r@[i].0, *r@[i].1) == self.data@[i] { unimplemented!() } }
use RemovedVariable::{Solved, FunctionOfOthers};
//%%include general_spec.rs
//%%include reported_spec.rs
//%%fn src/data/linear_program/solution.rs Solution::new
//% spec
    ensures r.objective_value == objective, r.solution_values == solution_values
//%%end
//%%fn src/data/linear_program/general_form/mod.rs GeneralForm::reshift_solution
//% spec
    requires old(reduced_solution).wf(), old(reduced_solution).len == width(*self)
    ensures final(reduced_solution).wf(), final(reduced_solution).len == old(reduced_solution).len, forall|j: int| #![trigger final(reduced_solution).at(j)] 0 <= j < width(*self) ==> final(reduced_solution).at(j) == unshifted(self.variables@[j], old(reduced_solution).at(j))
//% start
    let ghost y = *old(reduced_solution);
//% loop 0
    invariant it0@ == enum_seq(refs(self.variables@)), ix0 <= it0@.len(), it0@.len() == width(*self), reduced_solution.wf(), reduced_solution.len == y.len, y.len == width(*self),
      forall|j: int| #![trigger reduced_solution.at(j)] 0 <= j < width(*self) ==> reduced_solution.at(j) == (if j < ix0 { unshifted(self.variables@[j], y.at(j)) } else { y.at(j) })
    decreases it0@.len() - ix0
//%%end
//%%fn src/data/linear_program/general_form/mod.rs GeneralForm::compute_solution_value_with_bfs
//% spec
    requires acyclic(*self), shaped(*self), variable < self.original_variables@.len(), reduced_solution.wf(), reduced_solution.len == width(*self), settled(*self, *reduced_solution, old(new_solutions)@)
    ensures settled(*self, *reduced_solution, final(new_solutions)@), extends(old(new_solutions)@, final(new_solutions)@), final(new_solutions)@[variable as int] == Some(*r), forall|o: int| #![trigger final(new_solutions)@[o]] 0 <= o < old(new_solutions)@.len() && order(*self)[o] > order(*self)[variable as int] ==> final(new_solutions)@[o] == old(new_solutions)@[o]
    decreases order(*self)[variable as int]
//% start
    let ghost ns0 = old(new_solutions)@;
    proof { order_orders(*self); let z = self.original_variables@[variable as int]; assert(Some(z) is Some); }
//% loop 0
    invariant it0@ == refs(coefficients@), ix0 <= it0@.len(), orders(*self, order(*self)), acyclic(*self), shaped(*self), variable < self.original_variables@.len(), reduced_solution.wf(), reduced_solution.len == width(*self),
      self.original_variables@[variable as int].1 == OriginalVariable::Removed(RemovedVariable::FunctionOfOthers { constant: *constant, coefficients: *coefficients }),
      settled(*self, *reduced_solution, new_solutions@), extends(ns0, new_solutions@), ns0.len() == self.original_variables@.len(), ns0[variable as int] is None, new_solutions@[variable as int] is None,
      forall|o: int| #![trigger new_solutions@[o]] 0 <= o < ns0.len() && order(*self)[o] >= order(*self)[variable as int] ==> new_solutions@[o] == ns0[o],
      known(coefficients@, new_solutions@, ix0 as int), v_sum@ == dot(coefficients@.subrange(0, ix0 as int), given(new_solutions@))
    decreases it0@.len() - ix0
//% before_loop 0
    proof { assert(coefficients@.subrange(0, 0) =~= Seq::empty()); }
//% loop_start 0
    let ghost ns1 = new_solutions@; let ghost c = coefficients@; let ghost k = ix0 - 1;
    proof { let z = c[k]; assert(Some(z) is Some); let v = self.original_variables@[variable as int]; assert(below(v.1, order(*self), order(*self)[variable as int])); }
//% loop_end 0
    proof { dot_more(c, k, ns1, new_solutions@); }
//% after_loop 0
    proof { assert(coefficients@.subrange(0, coefficients@.len() as int) =~= coefficients@); }
//% before "new_solutions[variable] = Some"
    let ghost ns2 = new_solutions@;
//% after "new_solutions[variable] = Some"
    proof { settled_one(*self, *reduced_solution, ns2, new_solutions@, variable as int); }
//%%end
//%%fn src/data/linear_program/general_form/mod.rs GeneralForm::compute_full_solution_with_reduced_solution
//% spec
    requires acyclic(self), shaped(self), reduced_solution.wf(), reduced_solution.len == width(self)
    ensures r.objective_value@ == worth(self, 1real, point(reduced_solution)), told(self, point(reduced_solution), r.solution_values@)
//% closure 0 |c0: (usize, &F)| -> (r: F)
    requires c0.0 < self.variables@.len() ensures r@ == c0.1@ * self.variables@[c0.0 as int].cost@
//% closure 1 |c0: ((Str, OriginalVariable), Option<F>)| -> (r: (Str, F))
    requires c0.1 is Some ensures r == (c0.0.0, c0.1->0)
//% start
    let ghost z0 = reduced_solution;
    proof { cost_total(self, z0); }
//% loop 0
    invariant acyclic(self), shaped(self), ix0 <= en0, en0 == self.original_variables@.len(), reduced_solution.wf(), reduced_solution.len == width(self), settled(self, reduced_solution, new_solutions@), forall|o: int| #![trigger new_solutions@[o]] 0 <= o < ix0 ==> new_solutions@[o] is Some
    decreases en0 - ix0
//% loop_start 0
    let ghost ns0 = new_solutions@;
//% loop_end 0
    proof { assert forall|o: int| #![trigger new_solutions@[o]] 0 <= o < ix0 implies new_solutions@[o] is Some by { if o < ix0 - 1 { assert(ns0[o] is Some); } } }
//% after_loop 0
    let ghost z1 = reduced_solution; let ghost ns = new_solutions@;
    proof { tells(self, z0, z1, ns); }
//%%end
//%%fn src/data/linear_program/general_form/mod.rs GeneralForm::compute_solution_value
//% spec
    requires acyclic(*self), variable < self.original_variables@.len(), computed(*self, old(new_solutions)@)
    ensures computed(*self, final(new_solutions)@), extends(old(new_solutions)@, final(new_solutions)@), r is Some ==> has(*self, final(new_solutions)@, variable as int) && r->0@ == solved(*self, final(new_solutions)@)(variable as int), forall|o: int| #![trigger final(new_solutions)@[o]] 0 <= o < old(new_solutions)@.len() && order(*self)[o] > order(*self)[variable as int] ==> final(new_solutions)@[o] == old(new_solutions)@[o]
    decreases order(*self)[variable as int]
//% closure 0 |c0: &F| -> (r: F)
    ensures r@ == coefficient@ * c0@
//% closure 1 |c0: F| -> (r: F)
    ensures r@ == constant@ - c0@
//% start
    let ghost ns0 = old(new_solutions)@; let ghost mut ns2 = ns0;
    proof { order_orders(*self); let z = self.original_variables@[variable as int]; assert(Some(z) is Some); }
//% loop 0
    invariant_except_break !v_none
    invariant it0@ == refs(coefficients@), ix0 <= it0@.len(), orders(*self, order(*self)), acyclic(*self), variable < self.original_variables@.len(),
      self.original_variables@[variable as int].1 == OriginalVariable::Removed(RemovedVariable::FunctionOfOthers { constant: *constant, coefficients: *coefficients }),
      computed(*self, new_solutions@), extends(ns0, new_solutions@), ns0.len() == self.original_variables@.len(), ns0[variable as int] is None, new_solutions@[variable as int] is None, coefficients@.subrange(0, coefficients@.len() as int) =~= coefficients@,
      forall|o: int| #![trigger new_solutions@[o]] 0 <= o < ns0.len() && order(*self)[o] >= order(*self)[variable as int] ==> new_solutions@[o] == ns0[o],
      !v_none ==> has_all(*self, coefficients@, new_solutions@, ix0 as int) && v_sum@ == dot(coefficients@.subrange(0, ix0 as int), solved(*self, new_solutions@))
    ensures computed(*self, new_solutions@), extends(ns0, new_solutions@), new_solutions@[variable as int] is None,
      forall|o: int| #![trigger new_solutions@[o]] 0 <= o < ns0.len() && order(*self)[o] >= order(*self)[variable as int] ==> new_solutions@[o] == ns0[o],
      !v_none ==> has_all(*self, coefficients@, new_solutions@, coefficients@.len() as int) && v_sum@ == dot(coefficients@, solved(*self, new_solutions@))
    decreases it0@.len() - ix0
//% before_loop 0
    proof { assert(coefficients@.subrange(0, 0) =~= Seq::empty()); assert(coefficients@.subrange(0, coefficients@.len() as int) =~= coefficients@); }
//% loop_start 0
    let ghost ns1 = new_solutions@; let ghost c = coefficients@; let ghost k = ix0 - 1;
    proof { let z = c[k]; assert(Some(z) is Some); let v = self.original_variables@[variable as int]; assert(below(v.1, order(*self), order(*self)[variable as int])); }
//% loop_end 0
    proof { dot_solved_more(*self, c, k, ns1, new_solutions@); }
//% after_loop 0
    proof { ns2 = new_solutions@; }
//% after "new_solutions[variable] ="
    proof { computed_one(*self, ns2, new_solutions@, variable as int); }
//%%end
//%%fn src/data/linear_program/general_form/mod.rs GeneralForm::compute_solution_where_possible
//% spec
    requires acyclic(*old(self))
    ensures resolved(*old(self), *final(self))
//% start
    let ghost g0 = *self;
//% loop 0
    invariant *self == g0, it0@ == enum_seq(refs(self.original_variables@)), ix0 <= it0@.len(), acyclic(g0), computed(g0, new_solutions@)
    decreases it0@.len() - ix0
//% before_loop 1
    let ghost ns = new_solutions@;
//% loop 1
    invariant acyclic(g0), computed(g0, ns), it1@ == enum_seq(ns), ix1 <= it1@.len(), self.original_variables@.len() == g0.original_variables@.len(), apart(g0, *self),
      forall|o: int| #![trigger self.original_variables@[o]] 0 <= o < ns.len() ==> self.original_variables@[o].0 == g0.original_variables@[o].0 && (if o < ix1 && ns[o] is Some { self.original_variables@[o].1 == OriginalVariable::Removed(RemovedVariable::Solved(ns[o]->0)) } else { self.original_variables@[o].1 == g0.original_variables@[o].1 })
    decreases it1@.len() - ix1
//% end
    proof { written(g0, *self, ns); }
//%%end
//%%fn src/data/linear_program/general_form/mod.rs GeneralForm::get_solution
//% spec
    ensures r is Some == (forall|o: int| #![trigger self.original_variables@[o]] 0 <= o < self.original_variables@.len() ==> is_solved(*self, o)),
      r is Some ==> (r->0).objective_value@ == self.fixed_cost@ && (r->0).solution_values@.len() == self.original_variables@.len() && forall|o: int| #![trigger (r->0).solution_values@[o]] 0 <= o < self.original_variables@.len() ==> (r->0).solution_values@[o].0 == self.original_variables@[o].0 && (r->0).solution_values@[o].1@ == solution_of(*self, o)
//% closure 0 |c0: &(Str, OriginalVariable)| -> (r: Option<(Str, F)>)
    ensures r is Some == (c0.1 matches OriginalVariable::Removed(Solved(_))), r is Some ==> (r->0).0 == c0.0 && (c0.1 matches OriginalVariable::Removed(Solved(v)) && (r->0).1@ == v@)
//% closure 1 |c0: Vec<(Str, F)>| -> (r: Solution)
    ensures r.objective_value@ == self.fixed_cost@, r.solution_values == c0
//% end
    proof { let m = maybe_variable_values; if m is Some { assert forall|o: int| #![trigger self.original_variables@[o]] 0 <= o < self.original_variables@.len() implies is_solved(*self, o) by { let z = m->0@[o]; assert(Some(z) is Some); } } }
//%%end
} fn main() {}
