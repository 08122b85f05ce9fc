// ---- what a problem in general form says ----
pub open spec fn total(f: spec_fn(int) -> real, n: int) -> real decreases n { if n <= 0 { 0real } else { total(f, n - 1) + f(n - 1) } }
pub proof fn total_same(f: spec_fn(int) -> real, g: spec_fn(int) -> real, n: int) requires forall|j: int| 0 <= j < n ==> #[trigger] f(j) == g(j) ensures total(f, n) == total(g, n) decreases n { if n > 0 { total_same(f, g, n - 1); assert(f(n - 1) == g(n - 1)); } }
pub proof fn total_zero(f: spec_fn(int) -> real, n: int) requires forall|j: int| 0 <= j < n ==> #[trigger] f(j) == 0real ensures total(f, n) == 0real decreases n { if n > 0 { total_zero(f, n - 1); assert(f(n - 1) == 0real); } }
/// h = f + c * g
pub proof fn total_mix(h: spec_fn(int) -> real, f: spec_fn(int) -> real, c: real, g: spec_fn(int) -> real, n: int) requires forall|j: int| 0 <= j < n ==> #[trigger] h(j) == f(j) + c * g(j) ensures total(h, n) == total(f, n) + c * total(g, n) decreases n {
    if n > 0 { total_mix(h, f, c, g, n - 1); assert(h(n - 1) == f(n - 1) + c * g(n - 1)); let (x, y) = (total(g, n - 1), g(n - 1)); assert(c * (x + y) == c * x + c * y) by(nonlinear_arith); } else { assert(c * 0real == 0real) by(nonlinear_arith); }
}
pub open spec fn width(g: GeneralForm) -> int { g.variables@.len() as int }
pub open spec fn lhs(g: GeneralForm, y: Seq<real>, i: int) -> real { total(|j: int| g.constraints.at(j, i) * y[j], width(g)) }
pub open spec fn holds(t: RangedConstraintRelation, b: real, v: real) -> bool { match t { RangedConstraintRelation::Equal => v == b, RangedConstraintRelation::Range(r) => b - r@ <= v <= b, RangedConstraintRelation::Less => v <= b, RangedConstraintRelation::Greater => b <= v } }
pub open spec fn within(v: Variable, x: real) -> bool { (v.lower_bound matches Some(l) ==> l@ <= x) && (v.upper_bound matches Some(u) ==> x <= u@) }
pub open spec fn rows_hold(g: GeneralForm, y: Seq<real>) -> bool { forall|i: int| 0 <= i < g.constraint_types@.len() ==> holds(#[trigger] g.constraint_types@[i], g.b.data@[i]@, lhs(g, y, i)) }
pub open spec fn bounds_hold(g: GeneralForm, y: Seq<real>) -> bool { forall|j: int| 0 <= j < width(g) ==> within(#[trigger] g.variables@[j], y[j]) }
pub open spec fn feasible(g: GeneralForm, y: Seq<real>) -> bool { y.len() == width(g) && rows_hold(g, y) && bounds_hold(g, y) }
/// the objective of the point, s = -1 where the costs are those of the maximisation negated
pub open spec fn worth(g: GeneralForm, s: real, y: Seq<real>) -> real { g.fixed_cost@ + s * total(|j: int| g.variables@[j].cost@ * y[j], width(g)) }
/// the value of the variable before it was shifted and flipped
pub open spec fn unshifted(v: Variable, x: real) -> real { if v.flipped { v.shift@ - x } else { x - v.shift@ } }
pub open spec fn value(g: GeneralForm, o: int, y: Seq<real>) -> real { match g.original_variables@[o].1 { OriginalVariable::Active(j) => unshifted(g.variables@[j as int], y[j as int]), OriginalVariable::ActiveFree(p, q) => unshifted(g.variables@[p as int], y[p as int]) - unshifted(g.variables@[q as int], y[q as int]), OriginalVariable::Removed(_) => 0real } }
pub open spec fn values_agree(g: GeneralForm, y: Seq<real>, h: GeneralForm, z: Seq<real>) -> bool { forall|o: int| 0 <= o < g.original_variables@.len() ==> value(h, o, z) == #[trigger] value(g, o, y) }
/// z says in h what y says in g
pub open spec fn meets(g: GeneralForm, s: real, y: Seq<real>, h: GeneralForm, t: real, z: Seq<real>) -> bool { feasible(h, z) && worth(h, t, z) == worth(g, s, y) && values_agree(g, y, h, z) }
pub open spec fn carries(g: GeneralForm, s: real, h: GeneralForm, t: real) -> bool { forall|y: Seq<real>| #[trigger] feasible(g, y) ==> exists|z: Seq<real>| meets(g, s, y, h, t, z) }
/// the names stay, what was removed stays as it was
pub open spec fn keeps_originals(g: GeneralForm, h: GeneralForm) -> bool { g.original_variables@.len() == h.original_variables@.len() && forall|o: int| #![trigger h.original_variables@[o]] 0 <= o < h.original_variables@.len() ==> h.original_variables@[o].0 == g.original_variables@[o].0 && (g.original_variables@[o].1 is Removed ==> h.original_variables@[o].1 == g.original_variables@[o].1) && (h.original_variables@[o].1 is Removed ==> g.original_variables@[o].1 is Removed) }
/// the same problem: the points of either are points of the other, with the same objective and the same values of the original variables
pub open spec fn same(g: GeneralForm, s: real, h: GeneralForm, t: real) -> bool { carries(g, s, h, t) && carries(h, t, g, s) && keeps_originals(g, h) }
pub proof fn carries_on(a: GeneralForm, r: real, b: GeneralForm, s: real, c: GeneralForm, t: real) requires carries(a, r, b, s), carries(b, s, c, t), a.original_variables@.len() == b.original_variables@.len() ensures carries(a, r, c, t) {
    assert forall|y: Seq<real>| #[trigger] feasible(a, y) implies exists|z: Seq<real>| meets(a, r, y, c, t, z) by {
        let x = choose|x: Seq<real>| meets(a, r, y, b, s, x);
        let z = choose|z: Seq<real>| meets(b, s, x, c, t, z);
        assert forall|o: int| 0 <= o < a.original_variables@.len() implies value(c, o, z) == #[trigger] value(a, o, y) by { assert(value(b, o, x) == value(a, o, y)); }
        assert(meets(a, r, y, c, t, z));
    }
}
pub proof fn same_on(a: GeneralForm, r: real, b: GeneralForm, s: real, c: GeneralForm, t: real) requires same(a, r, b, s), same(b, s, c, t) ensures same(a, r, c, t) {
    carries_on(a, r, b, s, c, t); carries_on(c, t, b, s, a, r);
    assert forall|o: int| #![trigger c.original_variables@[o]] 0 <= o < c.original_variables@.len() implies c.original_variables@[o].0 == a.original_variables@[o].0 && (a.original_variables@[o].1 is Removed ==> c.original_variables@[o].1 == a.original_variables@[o].1) && (c.original_variables@[o].1 is Removed ==> a.original_variables@[o].1 is Removed) by { assert(Some(b.original_variables@[o]) is Some); }
}
/// dimensions and indices fit together
pub open spec fn shaped(g: GeneralForm) -> bool {
    let (n, m) = (width(g), g.constraint_types@.len());
    g.constraints.wf() && g.constraints.major_dimension_size == n && g.constraints.minor_dimension_size == m && g.b.data@.len() == m && g.from_active_to_original@.len() == n
    && (forall|j: int| #![trigger g.from_active_to_original@[j]] 0 <= j < n ==> g.from_active_to_original@[j] < g.original_variables@.len())
    && (forall|o: int| #![trigger g.original_variables@[o]] 0 <= o < g.original_variables@.len() ==> match g.original_variables@[o].1 { OriginalVariable::Active(j) => j < n, OriginalVariable::ActiveFree(p, q) => p < n && q < n, OriginalVariable::Removed(_) => true })
}
/// no variable is split: each active variable is the one of its original, free ones are as they were
pub open spec fn unsplit(g: GeneralForm) -> bool {
    (forall|j: int| #![trigger g.from_active_to_original@[j]] 0 <= j < width(g) ==> g.original_variables@[g.from_active_to_original@[j] as int].1 == OriginalVariable::Active(j as usize))
    && (forall|o: int| #![trigger g.original_variables@[o]] 0 <= o < g.original_variables@.len() ==> match g.original_variables@[o].1 { OriginalVariable::Active(j) => g.from_active_to_original@[j as int] == o, OriginalVariable::ActiveFree(_, _) => false, OriginalVariable::Removed(_) => true })
    && (forall|j: int| #![trigger g.variables@[j]] 0 <= j < width(g) ==> free(g.variables@[j]) ==> !g.variables@[j].flipped)
}
pub open spec fn free(v: Variable) -> bool { v.lower_bound is None && v.upper_bound is None }
pub open spec fn ranges_ok(g: GeneralForm) -> bool { forall|i: int| #![trigger g.constraint_types@[i]] 0 <= i < g.constraint_types@.len() ==> (g.constraint_types@[i] matches RangedConstraintRelation::Range(r) ==> 0real <= r@) }
pub open spec fn zero_below(v: Variable) -> bool { v.lower_bound is Some && v.lower_bound->0@ == 0real }
pub open spec fn lower_zero(g: GeneralForm) -> bool { forall|j: int| #![trigger g.variables@[j]] 0 <= j < width(g) ==> zero_below(g.variables@[j]) }
/// the order of the types
pub open spec fn place(t: RangedConstraintRelation) -> int { match t { RangedConstraintRelation::Equal => 0, RangedConstraintRelation::Range(_) => 1, RangedConstraintRelation::Less => 2, RangedConstraintRelation::Greater => 3 } }
/// first the equalities, then the ranges, then those bounded above, then those bounded below
pub open spec fn grouped(t: Seq<RangedConstraintRelation>, c: Seq<usize>) -> bool { c.len() == 4 && c[0] + c[1] + c[2] + c[3] == t.len() && forall|i: int| #![trigger t[i]] 0 <= i < t.len() ==> place(t[i]) == (if i < c[0] { 0int } else if i < c[0] + c[1] { 1 } else if i < c[0] + c[1] + c[2] { 2 } else { 3 }) }
