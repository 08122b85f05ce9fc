// Unit: the matrix form of a problem in standard form.
use vstd::prelude::*;
verus! {
//%%include prelude.rs
//%%include sparse_spec.rs
//%%include index_spec.rs
//%%include index_sparse.rs
//%%include simplex_spec.rs
//%%include matrix_data_items.rs
//%%include matrix_data_rows.rs
//%%types String=Str; RemovedVariable<F>=RemovedVariable; OriginalVariable<F>=OriginalVariable; RangedConstraintRelation<F>=RangedConstraintRelation; RangedConstraintRelation<OF>=RangedConstraintRelation; DenseVector=Dense; GeneralForm<F>=GeneralForm; GeneralForm<OF>=GeneralForm; MatrixData<OF>=MatrixData<'_>; Variable<OF>=Variable; OF=F; Option<OF>=Option<F>
#[verifier::external_body] pub struct Str { x: () }
//%%item src/data/linear_program/elements.rs RangedConstraintRelation
//%%end
//%%item src/data/linear_program/elements.rs RangedConstraintRelationKind
//%%end
//%%item src/data/linear_program/elements.rs Objective
//%%end
//%%item src/data/linear_program/general_form/mod.rs RemovedVariable
//%%end
//%%item src/data/linear_program/general_form/mod.rs OriginalVariable
//%%end
//%%item src/data/linear_program/general_form/mod.rs GeneralForm
//%%end
//%%use matrix_data src/algorithm/two_phase/matrix_provider/matrix_data.rs MatrixData::new
pub mod stated { use super::*;
//%%include general_spec.rs
}
use stated::*;
/// the matrix form holds what the general form says
pub open spec fn stands_for(g: GeneralForm, d: MatrixData) -> bool {
    d.wf() && *d.constraints == g.constraints && *d.b == g.b && d.variables@ == g.variables@ && grouped(g.constraint_types@, seq![d.nr_equality_constraints, d.nr_range_constraints, d.nr_upper_bounded_constraints, d.nr_lower_bounded_constraints])
    && d.ranges@.len() == d.nr_range_constraints && forall|k: int| #![trigger d.ranges@[k]] 0 <= k < d.nr_range_constraints ==> g.constraint_types@[d.nr_equality_constraints + k] == RangedConstraintRelation::Range(*d.ranges@[k])
}
proof fn rsum_total(f: V, n: int) requires 0 <= n ensures rsum(n, f) == total(f, n) decreases n { if n > 0 { rsum_total(f, n - 1); } }
/// the points of the matrix form are the points of the problem
proof fn same_points(g: GeneralForm, d: &MatrixData, x: V, y: Seq<real>) requires shaped(g), lower_zero(g), stands_for(g, *d), y.len() == width(g), forall|j: int| #![trigger y[j]] 0 <= j < width(g) ==> y[j] == x(j) ensures d.meets(x) == stated::feasible(g, y), rsum(d.nv(), |j: int| d.cost(j) * x(j)) == worth(g, 1real, y) - g.fixed_cost@ {
    let n = width(g); let t = g.constraint_types@;
    assert(d.nv() == n);
    assert forall|i: int| #![trigger lhs(g, y, i)] d.lhs(i, x) == lhs(g, y, i) by { let f: V = |j: int| d.constraints.at(j, i) * x(j); let h: V = |j: int| g.constraints.at(j, i) * y[j]; rsum_total(f, n); total_same(f, h, n); }
    if d.meets(x) {
        assert forall|i: int| 0 <= i < t.len() implies holds(#[trigger] t[i], g.b.data@[i]@, lhs(g, y, i)) by { let v = d.lhs(i, x); assert(v == lhs(g, y, i)); assert(0 <= place(t[i]) <= 3); if d.ne() <= i < d.ne() + d.nr() { let z = d.ranges@[i - d.ne()]; assert(Some(z) is Some); } }
        assert forall|j: int| 0 <= j < n implies within(#[trigger] g.variables@[j], y[j]) by { let z = x(j); assert(z == y[j]); assert(zero_below(g.variables@[j])); }
    }
    if stated::feasible(g, y) {
        assert forall|i: int| #![trigger d.lhs(i, x)] 0 <= i < d.nc() implies { let (v, b) = (d.lhs(i, x), d.b.data@[i]@); if i < d.ne() { v == b } else if i < d.ne() + d.nr() { b - d.ranges@[i - d.ne()]@ <= v <= b } else if i < d.ne() + d.nr() + d.nu() { v <= b } else { v >= b } } by { let v = lhs(g, y, i); assert(v == d.lhs(i, x)); assert(holds(t[i], g.b.data@[i]@, v)); assert(0 <= place(t[i]) <= 3); if d.ne() <= i < d.ne() + d.nr() { let z = d.ranges@[i - d.ne()]; assert(Some(z) is Some); } }
        assert forall|j: int| #![trigger x(j)] 0 <= j < d.nv() implies x(j) >= 0real && (d.variables@[j].upper_bound is Some ==> x(j) <= (d.variables@[j].upper_bound->0)@) by { let z = y[j]; assert(z == x(j)); let w = g.variables@[j]; assert(within(w, y[j])); assert(zero_below(w)); }
    }
    let (f, h): (V, V) = (|j: int| d.cost(j) * x(j), |j: int| g.variables@[j].cost@ * y[j]);
    rsum_total(f, n); assert forall|j: int| 0 <= j < n implies #[trigger] f(j) == h(j) by { assert(y[j] == x(j)); } total_same(f, h, n);
}
//%%fn src/data/linear_program/general_form/mod.rs GeneralForm::derive_matrix_data
//% closure 0 |c0: &RangedConstraintRelation| -> (r: &F)
    requires *c0 is Range ensures *r == (*c0)->Range_0
//% spec
    requires shaped(*self), grouped(self.constraint_types@, constraint_type_counts@), 2 * width(*self) + 2 * constraint_type_counts[1] + constraint_type_counts[0] + constraint_type_counts[2] + constraint_type_counts[3] <= usize::MAX
    ensures r.wf(), stands_for(*self, r)
//%%end
} fn main() {}
