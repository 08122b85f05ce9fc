// ---- variables flipped and shifted so that their lower bound is zero ----
pub open spec fn turn(v: Variable) -> real { if v.lower_bound is None { 0real - 1real } else { 1real } }
/// the lower bound once flipped
pub open spec fn base(v: Variable) -> real { match v.lower_bound { Some(l) => l@, None => 0real - v.upper_bound->0@ } }
pub open spec fn moved_variable(v: Variable, w: Variable) -> bool {
    w.variable_type == v.variable_type && w.cost@ == turn(v) * v.cost@ && w.shift@ == turn(v) * v.shift@ - base(v) && w.flipped == (v.flipped != (v.lower_bound is None))
    && w.lower_bound is Some && w.lower_bound->0@ == 0real && (w.upper_bound is Some) == (v.lower_bound is Some && v.upper_bound is Some) && (w.upper_bound is Some ==> w.upper_bound->0@ == v.upper_bound->0@ - base(v))
}
pub open spec fn bounded_somewhere(g: GeneralForm) -> bool { forall|j: int| #![trigger g.variables@[j]] 0 <= j < width(g) ==> !free(g.variables@[j]) }
pub open spec fn row_base(g: GeneralForm, i: int) -> spec_fn(int) -> real { |j: int| turn(g.variables@[j]) * g.constraints.at(j, i) * base(g.variables@[j]) }
pub open spec fn cost_base(g: GeneralForm) -> spec_fn(int) -> real { |j: int| turn(g.variables@[j]) * g.variables@[j].cost@ * base(g.variables@[j]) }
/// the first k variables are moved
pub open spec fn moved(g: GeneralForm, h: GeneralForm, k: int) -> bool {
    let n = width(g);
    shaped(h) && width(h) == n && h.objective == g.objective && h.constraint_types == g.constraint_types && h.original_variables == g.original_variables && h.from_active_to_original == g.from_active_to_original
    && (forall|j: int| #![trigger h.variables@[j]] 0 <= j < k ==> moved_variable(g.variables@[j], h.variables@[j]))
    && (forall|j: int| #![trigger h.variables@[j]] k <= j < n ==> h.variables@[j] == g.variables@[j])
    && (forall|j: int, i: int| #![trigger h.constraints.at(j, i)] 0 <= j < n ==> h.constraints.at(j, i) == (if j < k { turn(g.variables@[j]) * g.constraints.at(j, i) } else { g.constraints.at(j, i) }))
    && (forall|i: int| #![trigger h.b.data@[i]] 0 <= i < g.b.data@.len() ==> h.b.data@[i]@ == g.b.data@[i]@ - total(row_base(g, i), k))
    && h.fixed_cost@ == g.fixed_cost@ + total(cost_base(g), k)
}
pub open spec fn turned(s: Seq<(usize, F)>, r: Seq<(usize, F)>, k: int) -> bool { s.len() == r.len() && (forall|a: int| #![trigger r[a]] 0 <= a < s.len() ==> r[a].0 == s[a].0 && r[a].1@ == (if a < k { 0real - s[a].1@ } else { s[a].1@ })) }
pub proof fn turned_wf(s: Seq<(usize, F)>, r: Seq<(usize, F)>, n: int) requires turned(s, r, s.len() as int), swf(s, n) ensures swf(r, n) {
    assert forall|k: int| #![trigger r[k]] 0 <= k < r.len() implies r[k].0 == s[k].0 && r[k].1@ != 0real && r[k].0 < n by { let z = s[k]; assert(Some(z) is Some); }
    assert forall|a: int, b: int| #![trigger r[a], r[b]] 0 <= a < b < r.len() implies r[a].0 < r[b].0 by { assert(s[a].0 < s[b].0); }
}
pub proof fn turned_sv(s: Seq<(usize, F)>, r: Seq<(usize, F)>, i: int) requires turned(s, r, s.len() as int) ensures sv(r, i) == 0real - sv(s, i) {
    assert forall|k: int| 0 <= k < s.len() implies (#[trigger] r[k]).0 == s[k].0 && r[k].1@ == s[k].1@ * (0real - 1real) by {} sv_scaled(s, r, 0real - 1real, i);
}
pub proof fn moved_once(g: GeneralForm, h: GeneralForm, w: GeneralForm, j: int)
    requires moved(g, h, j), 0 <= j < width(g), shaped(g), shaped(w), width(w) == width(h), w.objective == h.objective, w.constraint_types == h.constraint_types, w.original_variables == h.original_variables, w.from_active_to_original == h.from_active_to_original,
      moved_variable(g.variables@[j], w.variables@[j]),
      forall|q: int| #![trigger w.variables@[q]] 0 <= q < width(g) && q != j ==> w.variables@[q] == h.variables@[q],
      forall|q: int, i: int| #![trigger w.constraints.at(q, i)] 0 <= q < width(g) ==> w.constraints.at(q, i) == (if q == j { turn(g.variables@[j]) * h.constraints.at(j, i) } else { h.constraints.at(q, i) }),
      forall|i: int| #![trigger w.b.data@[i]] 0 <= i < g.b.data@.len() ==> w.b.data@[i]@ == h.b.data@[i]@ - w.constraints.at(j, i) * base(g.variables@[j]),
      w.fixed_cost@ == h.fixed_cost@ + base(g.variables@[j]) * (turn(g.variables@[j]) * g.variables@[j].cost@)
    ensures moved(g, w, j + 1)
{
    assert forall|i: int| #![trigger w.b.data@[i]] 0 <= i < g.b.data@.len() implies w.b.data@[i]@ == g.b.data@[i]@ - total(row_base(g, i), j + 1) by { assert(h.b.data@[i]@ == g.b.data@[i]@ - total(row_base(g, i), j)); assert(w.constraints.at(j, i) == turn(g.variables@[j]) * h.constraints.at(j, i)); assert(h.constraints.at(j, i) == g.constraints.at(j, i)); }
    let (a, b) = (base(g.variables@[j]), turn(g.variables@[j]) * g.variables@[j].cost@);
    assert(a * b == b * a) by(nonlinear_arith);
}
pub open spec fn shifts(g: GeneralForm, y: Seq<real>, z: Seq<real>) -> bool { y.len() == width(g) && z.len() == width(g) && forall|j: int| #![trigger y[j]] #![trigger z[j]] 0 <= j < width(g) ==> z[j] == turn(g.variables@[j]) * y[j] - base(g.variables@[j]) }
pub proof fn turned_product(t: real, a: real, y: real, b: real) requires t == 1real || t == 0real - 1real ensures (t * a) * (t * y - b) == a * y - t * a * b {
    assert((t * a) * (t * y - b) == (t * t) * (a * y) - t * a * b) by(nonlinear_arith); assert(t * t == 1real) by(nonlinear_arith) requires t == 1real || t == 0real - 1real;
}
pub proof fn move_lhs(g: GeneralForm, h: GeneralForm, y: Seq<real>, z: Seq<real>, i: int) requires moved(g, h, width(g)), shifts(g, y, z) ensures lhs(h, z, i) == lhs(g, y, i) - total(row_base(g, i), width(g)) {
    let n = width(g); let (a, b) = (|j: int| g.constraints.at(j, i) * y[j], |j: int| h.constraints.at(j, i) * z[j]);
    assert forall|j: int| 0 <= j < n implies #[trigger] b(j) == a(j) + (0real - 1real) * row_base(g, i)(j) by { assert(h.constraints.at(j, i) == turn(g.variables@[j]) * g.constraints.at(j, i)); turned_product(turn(g.variables@[j]), g.constraints.at(j, i), y[j], base(g.variables@[j])); assert(z[j] == turn(g.variables@[j]) * y[j] - base(g.variables@[j])); let x = row_base(g, i)(j); assert((0real - 1real) * x == 0real - x) by(nonlinear_arith); }
    total_mix(b, a, 0real - 1real, row_base(g, i), n); let x = total(row_base(g, i), n); assert((0real - 1real) * x == 0real - x) by(nonlinear_arith);
}
pub proof fn move_worth(g: GeneralForm, h: GeneralForm, y: Seq<real>, z: Seq<real>) requires moved(g, h, width(g)), shifts(g, y, z) ensures worth(h, 1real, z) == worth(g, 1real, y) {
    let n = width(g); let (a, b) = (|j: int| g.variables@[j].cost@ * y[j], |j: int| h.variables@[j].cost@ * z[j]);
    assert forall|j: int| 0 <= j < n implies #[trigger] b(j) == a(j) + (0real - 1real) * cost_base(g)(j) by { assert(moved_variable(g.variables@[j], h.variables@[j])); turned_product(turn(g.variables@[j]), g.variables@[j].cost@, y[j], base(g.variables@[j])); assert(z[j] == turn(g.variables@[j]) * y[j] - base(g.variables@[j])); let x = cost_base(g)(j); assert((0real - 1real) * x == 0real - x) by(nonlinear_arith); }
    total_mix(b, a, 0real - 1real, cost_base(g), n); let x = total(cost_base(g), n); assert((0real - 1real) * x == 0real - x) by(nonlinear_arith);
    let (p, q) = (total(a, n), total(b, n)); assert(1real * p == p) by(nonlinear_arith); assert(1real * q == q) by(nonlinear_arith);
}
pub proof fn move_meets(g: GeneralForm, h: GeneralForm, y: Seq<real>, z: Seq<real>)
    requires shaped(g), bounded_somewhere(g), moved(g, h, width(g)), shifts(g, y, z)
    ensures values_agree(g, y, h, z), values_agree(h, z, g, y), worth(h, 1real, z) == worth(g, 1real, y), rows_hold(g, y) == rows_hold(h, z), bounds_hold(g, y) == bounds_hold(h, z)
{
    let n = width(g);
    move_worth(g, h, y, z);
    assert forall|i: int| 0 <= i < g.constraint_types@.len() implies holds(h.constraint_types@[i], h.b.data@[i]@, lhs(h, z, i)) == #[trigger] holds(g.constraint_types@[i], g.b.data@[i]@, lhs(g, y, i)) by { move_lhs(g, h, y, z, i); assert(h.b.data@[i]@ == g.b.data@[i]@ - total(row_base(g, i), n)); }
    assert(rows_hold(g, y) == rows_hold(h, z)) by {
        if rows_hold(g, y) { assert forall|i: int| 0 <= i < h.constraint_types@.len() implies holds(#[trigger] h.constraint_types@[i], h.b.data@[i]@, lhs(h, z, i)) by { assert(holds(g.constraint_types@[i], g.b.data@[i]@, lhs(g, y, i))); } }
        if rows_hold(h, z) { assert forall|i: int| 0 <= i < g.constraint_types@.len() implies holds(#[trigger] g.constraint_types@[i], g.b.data@[i]@, lhs(g, y, i)) by { assert(holds(h.constraint_types@[i], h.b.data@[i]@, lhs(h, z, i))); } }
    }
    assert forall|j: int| 0 <= j < n implies within(h.variables@[j], z[j]) == within(#[trigger] g.variables@[j], y[j]) && unshifted(h.variables@[j], z[j]) == unshifted(g.variables@[j], y[j]) by {
        let v = g.variables@[j]; assert(moved_variable(v, h.variables@[j])); assert(z[j] == turn(v) * y[j] - base(v)); let (a, b) = (y[j], v.shift@);
        assert(1real * a == a) by(nonlinear_arith); assert((0real - 1real) * a == 0real - a) by(nonlinear_arith); assert(1real * b == b) by(nonlinear_arith); assert((0real - 1real) * b == 0real - b) by(nonlinear_arith);
    }
    assert(bounds_hold(g, y) == bounds_hold(h, z)) by {
        if bounds_hold(g, y) { assert forall|j: int| 0 <= j < n implies within(#[trigger] h.variables@[j], z[j]) by { assert(within(g.variables@[j], y[j])); } }
        if bounds_hold(h, z) { assert forall|j: int| 0 <= j < n implies within(#[trigger] g.variables@[j], y[j]) by { assert(within(h.variables@[j], z[j])); } }
    }
    assert forall|o: int| 0 <= o < g.original_variables@.len() implies value(h, o, z) == #[trigger] value(g, o, y) by { let x = g.original_variables@[o]; assert(Some(x) is Some); match x.1 { OriginalVariable::Active(j) => { let v = g.variables@[j as int]; assert(Some(v) is Some); }, OriginalVariable::ActiveFree(p, q) => { let v = g.variables@[p as int]; let w = g.variables@[q as int]; assert(Some((v, w)) is Some); }, _ => {} } }
    assert forall|o: int| 0 <= o < h.original_variables@.len() implies value(g, o, y) == #[trigger] value(h, o, z) by { assert(value(h, o, z) == value(g, o, y)); }
}
pub proof fn move_same(g: GeneralForm, h: GeneralForm) requires shaped(g), bounded_somewhere(g), moved(g, h, width(g)) ensures same(g, 1real, h, 1real) {
    let n = width(g);
    assert forall|y: Seq<real>| #[trigger] feasible(g, y) implies exists|z: Seq<real>| meets(g, 1real, y, h, 1real, z) by {
        let z = Seq::new(n as nat, |j: int| turn(g.variables@[j]) * y[j] - base(g.variables@[j])); move_meets(g, h, y, z); assert(meets(g, 1real, y, h, 1real, z)); }
    assert forall|z: Seq<real>| #[trigger] feasible(h, z) implies exists|y: Seq<real>| meets(h, 1real, z, g, 1real, y) by {
        let y = Seq::new(n as nat, |j: int| turn(g.variables@[j]) * (z[j] + base(g.variables@[j])));
        assert forall|j: int| #![trigger y[j]] #![trigger z[j]] 0 <= j < n implies z[j] == turn(g.variables@[j]) * y[j] - base(g.variables@[j]) by { let (t, x) = (turn(g.variables@[j]), z[j] + base(g.variables@[j])); assert(t * (t * x) == x) by(nonlinear_arith) requires t == 1real || t == 0real - 1real; }
        move_meets(g, h, y, z); assert(meets(h, 1real, z, g, 1real, y)); }
}
