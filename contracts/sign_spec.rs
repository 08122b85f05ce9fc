// ---- rows multiplied by -1 so that right-hand sides are not negative ----
pub open spec fn turned_row(t: RangedConstraintRelation, b: real, u: RangedConstraintRelation, c: real) -> bool { match t { RangedConstraintRelation::Equal => u is Equal && c == 0real - b, RangedConstraintRelation::Range(r) => u == t && c == r@ - b, RangedConstraintRelation::Less => u is Greater && c == 0real - b, RangedConstraintRelation::Greater => u is Less && c == 0real - b } }
pub open spec fn signed(g: GeneralForm, h: GeneralForm) -> bool {
    shaped(h) && h.objective == g.objective && h.fixed_cost == g.fixed_cost && h.variables == g.variables && h.original_variables == g.original_variables && h.from_active_to_original == g.from_active_to_original && h.constraint_types@.len() == g.constraint_types@.len()
    && (forall|i: int| #![trigger h.constraint_types@[i]] 0 <= i < g.constraint_types@.len() ==> if g.b.data@[i]@ < 0real { turned_row(g.constraint_types@[i], g.b.data@[i]@, h.constraint_types@[i], h.b.data@[i]@) } else { h.constraint_types@[i] == g.constraint_types@[i] && h.b.data@[i]@ == g.b.data@[i]@ })
    && (forall|j: int, i: int| #![trigger h.constraints.at(j, i)] 0 <= j < width(g) && 0 <= i < g.constraint_types@.len() ==> h.constraints.at(j, i) == (if g.b.data@[i]@ < 0real { 0real - g.constraints.at(j, i) } else { g.constraints.at(j, i) }))
}
pub open spec fn b_nonneg(g: GeneralForm) -> bool { forall|i: int| #![trigger g.b.data@[i]] 0 <= i < g.b.data@.len() ==> 0real <= g.b.data@[i]@ }
pub proof fn signed_lhs(g: GeneralForm, h: GeneralForm, y: Seq<real>, i: int) requires signed(g, h), 0 <= i < g.constraint_types@.len() ensures lhs(h, y, i) == (if g.b.data@[i]@ < 0real { 0real - lhs(g, y, i) } else { lhs(g, y, i) }) {
    let n = width(g); let (a, b) = (|j: int| g.constraints.at(j, i) * y[j], |j: int| h.constraints.at(j, i) * y[j]); let x = total(a, n); let c = if g.b.data@[i]@ < 0real { 0real - 2real } else { 0real };
    assert forall|j: int| 0 <= j < n implies #[trigger] b(j) == a(j) + c * a(j) by { let (p, q) = (g.constraints.at(j, i), y[j]); assert(h.constraints.at(j, i) == (if c == 0real { p } else { 0real - p })); assert((0real - p) * q == p * q + (0real - 2real) * (p * q)) by(nonlinear_arith); assert(0real * (p * q) == 0real) by(nonlinear_arith); }
    total_mix(b, a, c, a, n); assert((0real - 2real) * x == 0real - x - x) by(nonlinear_arith); assert(0real * x == 0real) by(nonlinear_arith);
}
pub proof fn signed_same(g: GeneralForm, h: GeneralForm, s: real) requires shaped(g), signed(g, h) ensures same(g, s, h, s) {
    assert forall|y: Seq<real>| rows_hold(g, y) == #[trigger] rows_hold(h, y) by {
        assert forall|i: int| 0 <= i < g.constraint_types@.len() implies holds(h.constraint_types@[i], h.b.data@[i]@, lhs(h, y, i)) == #[trigger] holds(g.constraint_types@[i], g.b.data@[i]@, lhs(g, y, i)) by { signed_lhs(g, h, y, i); let z = h.constraint_types@[i]; assert(Some(z) is Some); }
        if rows_hold(g, y) { assert forall|i: int| 0 <= i < h.constraint_types@.len() implies holds(#[trigger] h.constraint_types@[i], h.b.data@[i]@, lhs(h, y, i)) by { assert(holds(g.constraint_types@[i], g.b.data@[i]@, lhs(g, y, i))); } }
        if rows_hold(h, y) { assert forall|i: int| 0 <= i < g.constraint_types@.len() implies holds(#[trigger] g.constraint_types@[i], g.b.data@[i]@, lhs(g, y, i)) by { assert(holds(h.constraint_types@[i], h.b.data@[i]@, lhs(h, y, i))); } }
    }
    unmoved_same(g, s, h, s);
}
/// the same variables, rows that mean the same, the same objective
pub proof fn unmoved_same(g: GeneralForm, s: real, h: GeneralForm, t: real)
    requires width(h) == width(g), h.original_variables == g.original_variables, forall|y: Seq<real>| rows_hold(g, y) == #[trigger] rows_hold(h, y), forall|y: Seq<real>| worth(g, s, y) == #[trigger] worth(h, t, y),
      forall|j: int| #![trigger h.variables@[j]] 0 <= j < width(g) ==> h.variables@[j].lower_bound == g.variables@[j].lower_bound && h.variables@[j].upper_bound == g.variables@[j].upper_bound && h.variables@[j].shift == g.variables@[j].shift && h.variables@[j].flipped == g.variables@[j].flipped,
      forall|o: int| #![trigger g.original_variables@[o]] 0 <= o < g.original_variables@.len() ==> match g.original_variables@[o].1 { OriginalVariable::Active(j) => j < width(g), OriginalVariable::ActiveFree(p, q) => p < width(g) && q < width(g), OriginalVariable::Removed(_) => true }
    ensures same(g, s, h, t)
{
    let n = width(g);
    assert forall|y: Seq<real>| feasible(g, y) == #[trigger] feasible(h, y) by {
        assert(rows_hold(g, y) == rows_hold(h, y));
        if bounds_hold(g, y) { assert forall|j: int| 0 <= j < n implies within(#[trigger] h.variables@[j], y[j]) by { assert(within(g.variables@[j], y[j])); } }
        if bounds_hold(h, y) { assert forall|j: int| 0 <= j < n implies within(#[trigger] g.variables@[j], y[j]) by { assert(within(h.variables@[j], y[j])); } } }
    assert forall|o: int, y: Seq<real>| 0 <= o < g.original_variables@.len() implies value(h, o, y) == #[trigger] value(g, o, y) by { let x = g.original_variables@[o]; assert(Some(x) is Some); match x.1 { OriginalVariable::Active(j) => { let v = h.variables@[j as int]; assert(Some(v) is Some); }, OriginalVariable::ActiveFree(p, q) => { let v = h.variables@[p as int]; let w = h.variables@[q as int]; assert(Some((v, w)) is Some); }, _ => {} } }
    assert forall|y: Seq<real>| #[trigger] feasible(g, y) implies exists|z: Seq<real>| meets(g, s, y, h, t, z) by { assert(feasible(h, y)); assert(worth(h, t, y) == worth(g, s, y)); assert(meets(g, s, y, h, t, y)); }
    assert forall|y: Seq<real>| #[trigger] feasible(h, y) implies exists|z: Seq<real>| meets(h, t, y, g, s, z) by { assert(feasible(g, y)); assert(worth(h, t, y) == worth(g, s, y)); assert forall|o: int| 0 <= o < h.original_variables@.len() implies value(g, o, y) == #[trigger] value(h, o, y) by { assert(value(h, o, y) == value(g, o, y)); } assert(meets(h, t, y, g, s, y)); }
}
pub open spec fn negatives(g: GeneralForm, set: Set<usize>, p: Seq<int>) -> bool {
    increasing(p) && (forall|j: int| #![trigger p[j]] 0 <= j < p.len() ==> 0 <= p[j] < g.b.data@.len() && g.b.data@[p[j]]@ < 0real && set.contains(p[j] as usize))
    && (forall|i: int| #![trigger g.b.data@[i]] 0 <= i < g.b.data@.len() ==> g.b.data@[i]@ >= 0real || exists|j: int| 0 <= j < p.len() && #[trigger] p[j] == i)
    && (forall|x: usize| #![trigger set.contains(x)] set.contains(x) ==> exists|j: int| 0 <= j < p.len() && #[trigger] p[j] == x)
}
pub proof fn signed_by(g: GeneralForm, h: GeneralForm, s: Seq<usize>)
    requires shaped(g), h.constraint_types@.len() == g.constraint_types@.len(), h.b.data@.len() == g.b.data@.len(), h.constraints.wf(), h.constraints.major_dimension_size == g.constraints.major_dimension_size, h.constraints.minor_dimension_size == g.constraints.minor_dimension_size,
      h.objective == g.objective, h.fixed_cost == g.fixed_cost, h.variables == g.variables, h.original_variables == g.original_variables, h.from_active_to_original == g.from_active_to_original,
      forall|i: usize| #![trigger s.contains(i)] s.contains(i) == (i < g.constraint_types@.len() && g.b.data@[i as int]@ < 0real),
      forall|t: int| #![trigger s[t]] 0 <= t < s.len() ==> turned_row(g.constraint_types@[s[t] as int], g.b.data@[s[t] as int]@, h.constraint_types@[s[t] as int], h.b.data@[s[t] as int]@),
      forall|i: int| #![trigger h.constraint_types@[i]] 0 <= i < g.constraint_types@.len() && g.b.data@[i]@ >= 0real ==> h.constraint_types@[i] == g.constraint_types@[i] && h.b.data@[i] == g.b.data@[i],
      forall|j: int, i: int| #![trigger h.constraints.at(j, i)] 0 <= j < width(g) && 0 <= i < g.constraint_types@.len() ==> h.constraints.at(j, i) == (if g.b.data@[i]@ < 0real { 0real - g.constraints.at(j, i) } else { g.constraints.at(j, i) })
    ensures signed(g, h), ranges_ok(g) ==> ranges_ok(h) && b_nonneg(h)
{
    let m = g.constraint_types@.len();
    assert forall|i: int| #![trigger h.constraint_types@[i]] 0 <= i < m implies if g.b.data@[i]@ < 0real { turned_row(g.constraint_types@[i], g.b.data@[i]@, h.constraint_types@[i], h.b.data@[i]@) } else { h.constraint_types@[i] == g.constraint_types@[i] && h.b.data@[i]@ == g.b.data@[i]@ } by { if g.b.data@[i]@ < 0real { assert(s.contains(i as usize)); let t = s.index_of(i as usize); assert(s[t] == i); assert(turned_row(g.constraint_types@[s[t] as int], g.b.data@[s[t] as int]@, h.constraint_types@[s[t] as int], h.b.data@[s[t] as int]@)); } else { assert(g.b.data@[i]@ >= 0real); let z = h.constraint_types@[i]; assert(Some(z) is Some); assert(h.b.data@[i] == g.b.data@[i]); assert(h.constraint_types@[i] == g.constraint_types@[i]); } }
    if ranges_ok(g) {
        assert forall|i: int| #![trigger h.b.data@[i]] 0 <= i < m implies 0real <= h.b.data@[i]@ by { let z = h.constraint_types@[i]; assert(Some(z) is Some); let y = g.constraint_types@[i]; assert(Some(y) is Some); if g.b.data@[i]@ < 0real { assert(turned_row(y, g.b.data@[i]@, z, h.b.data@[i]@)); } }
        assert forall|i: int| #![trigger h.constraint_types@[i]] 0 <= i < m implies (h.constraint_types@[i] matches RangedConstraintRelation::Range(r) ==> 0real <= r@) by { let z = g.constraint_types@[i]; assert(Some(z) is Some); }
    }
}
