// ---- scaling ----
pub open spec fn multiplied(x: real, k: real, up: bool) -> real { if up { x * k } else { x / k } }
pub open spec fn multiplied_bound(x: Option<F>, y: Option<F>, k: real, up: bool) -> bool { (x is Some <==> y is Some) && (y is Some ==> y->0@ == multiplied(x->0@, k, up)) }
/// variable w is v with its costs multiplied by k * c, its bounds divided by c (or the other way around)
pub open spec fn scaled_variable(v: Variable, w: Variable, k: real, c: real, up: bool) -> bool {
    w.variable_type == v.variable_type && w.shift == v.shift && w.flipped == v.flipped && w.cost@ == multiplied(v.cost@, k * c, up)
    && multiplied_bound(v.lower_bound, w.lower_bound, c, !up) && multiplied_bound(v.upper_bound, w.upper_bound, c, !up)
}
/// column t is s with each entry multiplied by its row factor and c
pub open spec fn scaled_column(s: Seq<(usize, F)>, t: Seq<(usize, F)>, rows: Seq<F>, c: real, up: bool, n: int) -> bool {
    t.len() == s.len() && forall|k: int| #![trigger t[k]] 0 <= k < t.len() ==> if k < n { t[k].0 == s[k].0 && t[k].1@ == multiplied(s[k].1@, rows[s[k].0 as int]@ * c, up) } else { t[k] == s[k] }
}
pub open spec fn scaled_type(t: RangedConstraintRelation, u: RangedConstraintRelation, k: real, up: bool) -> bool { match t { RangedConstraintRelation::Range(r) => u matches RangedConstraintRelation::Range(s) && s@ == multiplied(r@, k, up), _ => u == t } }
pub open spec fn scaled_columns(g: GeneralForm, h: GeneralForm, s: Scaling, up: bool, n: int) -> bool {
    h.constraints.data@.len() == g.constraints.data@.len() && h.variables@.len() == g.variables@.len()
    && (forall|j: int| #![trigger h.constraints.data@[j]] 0 <= j < h.constraints.data@.len() ==> if j < n { scaled_column(g.constraints.data@[j]@, h.constraints.data@[j]@, s.constraint_row_factors@, s.constraint_column_factors@[j]@, up, g.constraints.data@[j]@.len() as int) } else { h.constraints.data@[j] == g.constraints.data@[j] })
    && (forall|j: int| #![trigger h.variables@[j]] 0 <= j < h.variables@.len() ==> if j < n { scaled_variable(g.variables@[j], h.variables@[j], s.cost_factor@, s.constraint_column_factors@[j]@, up) } else { h.variables@[j] == g.variables@[j] })
}
pub open spec fn scaled_rows(g: GeneralForm, h: GeneralForm, s: Scaling, up: bool, n: int) -> bool {
    h.b.data@.len() == g.b.data@.len() && h.constraint_types@.len() == g.constraint_types@.len()
    && (forall|i: int| #![trigger h.b.data@[i]] 0 <= i < h.b.data@.len() ==> if i < n { h.b.data@[i]@ == multiplied(g.b.data@[i]@, s.constraint_row_factors@[i]@, up) } else { h.b.data@[i] == g.b.data@[i] })
    && (forall|i: int| #![trigger h.constraint_types@[i]] 0 <= i < h.constraint_types@.len() ==> if i < n { scaled_type(g.constraint_types@[i], h.constraint_types@[i], s.constraint_row_factors@[i]@, up) } else { h.constraint_types@[i] == g.constraint_types@[i] })
}
pub open spec fn scaled_rest(g: GeneralForm, h: GeneralForm) -> bool {
    h.objective == g.objective && h.fixed_cost == g.fixed_cost && h.original_variables == g.original_variables && h.from_active_to_original == g.from_active_to_original
    && h.constraints.major_dimension_size == g.constraints.major_dimension_size && h.constraints.minor_dimension_size == g.constraints.minor_dimension_size
}
/// h is g scaled (up: the constraints multiplied) or scaled back
pub open spec fn scaled(g: GeneralForm, h: GeneralForm, s: Scaling, up: bool) -> bool { scaled_columns(g, h, s, up, width(g)) && scaled_rows(g, h, s, up, g.b.data@.len() as int) && scaled_rest(g, h) }
pub open spec fn all_positive(f: Seq<F>) -> bool { forall|i: int| #![trigger f[i]] 0 <= i < f.len() ==> f[i]@ > 0real }
/// positive factors for each row and each column
pub open spec fn fits(g: GeneralForm, s: Scaling) -> bool { s.cost_factor@ > 0real && s.constraint_row_factors@.len() == g.b.data@.len() && s.constraint_column_factors@.len() == width(g) && all_positive(s.constraint_row_factors@) && all_positive(s.constraint_column_factors@) }
pub open spec fn callable<Op: Fn(&mut F, &F)>(op: Op) -> bool { forall|x: &mut F, y: &F| y@ > 0real ==> #[trigger] op.requires((x, y)) }
/// the one operation multiplies and the other divides (up), or the other way around
#[verifier::prophetic] pub open spec fn turns<Op: Fn(&mut F, &F), Inv: Fn(&mut F, &F)>(op: Op, inv: Inv, up: bool) -> bool {
    (forall|x: &mut F, y: &F| y@ > 0real ==> #[trigger] op.ensures((x, y), ()) ==> (*final(x))@ == multiplied((*x)@, y@, up))
    && (forall|x: &mut F, y: &F| y@ > 0real ==> #[trigger] inv.ensures((x, y), ()) ==> (*final(x))@ == multiplied((*x)@, y@, !up))
}
pub open spec fn scale_ready(g: GeneralForm, s: Scaling) -> bool { shaped(g) && fits(g, s) }
pub proof fn product_positive(a: real, b: real) requires a > 0real, b > 0real ensures a * b > 0real { assert(a * b > 0real) by(nonlinear_arith) requires a > 0real, b > 0real; }
/// for each factor the change of its power in the objective, in each row and in each column
pub open spec fn changes_fit(s: Seq<(Factor, ((i32, Vec<i32>), Vec<i32>))>, m: int, n: int) -> bool { forall|k: int| #![trigger s[k]] 0 <= k < s.len() ==> s[k].1.0.0 > i32::MIN && s[k].1.0.1@.len() == m && s[k].1.1@.len() == n && in_range(s[k].1.0.1@) && in_range(s[k].1.1@) }
pub proof fn quotient_positive(a: real, b: real) requires a > 0real, b > 0real ensures a / b > 0real { assert(a / b > 0real) by(nonlinear_arith) requires a > 0real, b > 0real; }
pub proof fn product_nonzero(a: real, b: real) requires a != 0real, b > 0real ensures a * b != 0real { assert(a * b != 0real) by(nonlinear_arith) requires a != 0real, b > 0real; }
pub proof fn quotient_nonzero(a: real, b: real) requires a != 0real, b > 0real ensures a / b != 0real { assert(a / b != 0real) by(nonlinear_arith) requires a != 0real, b > 0real; }
pub open spec fn part_scaled(s: Seq<(usize, F)>, t: Seq<(usize, F)>, c: spec_fn(int) -> real, n: int) -> bool { t.len() == s.len() && forall|k: int| #![trigger t[k]] 0 <= k < t.len() ==> if k < n { t[k].0 == s[k].0 && t[k].1@ == s[k].1@ * c(s[k].0 as int) } else { t[k] == s[k] } }
pub proof fn scaled_at(s: Seq<(usize, F)>, t: Seq<(usize, F)>, c: spec_fn(int) -> real, i: int) requires part_scaled(s, t, c, s.len() as int) ensures sv(t, i) == sv(s, i) * c(i) decreases s.len() {
    if s.len() > 0 {
        let (x, y) = (s.drop_last(), t.drop_last());
        assert forall|k: int| #![trigger y[k]] 0 <= k < y.len() implies y[k].0 == x[k].0 && y[k].1@ == x[k].1@ * c(x[k].0 as int) by { let z = t[k]; assert(z == y[k]); }
        scaled_at(x, y, c, i); let z = t[t.len() - 1]; assert(z == t.last());
        let (p, q) = (sv(x, i), if s.last().0 == i { s.last().1@ } else { 0real }); assert((p + q) * c(i) == p * c(i) + q * c(i)) by(nonlinear_arith);
    } else { assert(0real * c(i) == 0real) by(nonlinear_arith); }
}
pub open spec fn kept(x: Option<F>, y: Option<F>) -> bool { (x is Some <==> y is Some) && (y is Some ==> y->0@ == x->0@) }
pub open spec fn kept_variable(v: Variable, w: Variable) -> bool { w.variable_type == v.variable_type && w.shift == v.shift && w.flipped == v.flipped && w.cost@ == v.cost@ && kept(v.lower_bound, w.lower_bound) && kept(v.upper_bound, w.upper_bound) }
pub open spec fn kept_column(s: Seq<(usize, F)>, t: Seq<(usize, F)>) -> bool { t.len() == s.len() && forall|k: int| #![trigger t[k]] 0 <= k < t.len() ==> t[k].0 == s[k].0 && t[k].1@ == s[k].1@ }
pub open spec fn kept_type(t: RangedConstraintRelation, u: RangedConstraintRelation) -> bool { match t { RangedConstraintRelation::Range(r) => u matches RangedConstraintRelation::Range(s) && s@ == r@, _ => u == t } }
/// every number is what it was
pub open spec fn same_numbers(g: GeneralForm, h: GeneralForm) -> bool {
    scaled_rest(g, h) && h.variables@.len() == g.variables@.len() && h.constraints.data@.len() == g.constraints.data@.len() && h.b.data@.len() == g.b.data@.len() && h.constraint_types@.len() == g.constraint_types@.len()
    && (forall|j: int| #![trigger h.variables@[j]] 0 <= j < h.variables@.len() ==> kept_variable(g.variables@[j], h.variables@[j]))
    && (forall|j: int| #![trigger h.constraints.data@[j]] 0 <= j < h.constraints.data@.len() ==> kept_column(g.constraints.data@[j]@, h.constraints.data@[j]@))
    && (forall|i: int| #![trigger h.b.data@[i]] 0 <= i < h.b.data@.len() ==> h.b.data@[i]@ == g.b.data@[i]@)
    && (forall|i: int| #![trigger h.constraint_types@[i]] 0 <= i < h.constraint_types@.len() ==> kept_type(g.constraint_types@[i], h.constraint_types@[i]))
}
pub proof fn there_and_back(x: real, k: real, up: bool) requires k > 0real ensures multiplied(multiplied(x, k, up), k, !up) == x { if up { assert((x * k) / k == x) by(nonlinear_arith) requires k > 0real; } else { assert((x / k) * k == x) by(nonlinear_arith) requires k > 0real; } }
/// scaling back undoes the scaling
pub proof fn restores(g: GeneralForm, h: GeneralForm, k: GeneralForm, s: Scaling) requires shaped(g), fits(g, s), scaled(g, h, s, true), scaled(h, k, s, false) ensures same_numbers(g, k) {
    assert forall|j: int| #![trigger k.variables@[j]] 0 <= j < k.variables@.len() implies kept_variable(g.variables@[j], k.variables@[j]) by {
        let (v, w, f) = (g.variables@[j], h.variables@[j], s.constraint_column_factors@[j]); assert(f@ > 0real); assert(scaled_variable(v, w, s.cost_factor@, f@, true)); assert(scaled_variable(w, k.variables@[j], s.cost_factor@, f@, false));
        product_positive(s.cost_factor@, f@); there_and_back(v.cost@, s.cost_factor@ * f@, true);
        if v.lower_bound is Some { there_and_back(v.lower_bound->0@, f@, false); } if v.upper_bound is Some { there_and_back(v.upper_bound->0@, f@, false); }
    }
    assert forall|j: int| #![trigger k.constraints.data@[j]] 0 <= j < k.constraints.data@.len() implies kept_column(g.constraints.data@[j]@, k.constraints.data@[j]@) by {
        let (a, b, c, f) = (g.constraints.data@[j]@, h.constraints.data@[j]@, k.constraints.data@[j]@, s.constraint_column_factors@[j]); assert(f@ > 0real); assert(swf(a, g.constraints.minor_dimension_size as int));
        assert(scaled_column(a, b, s.constraint_row_factors@, f@, true, a.len() as int)); assert(scaled_column(b, c, s.constraint_row_factors@, f@, false, b.len() as int));
        assert forall|q: int| #![trigger c[q]] 0 <= q < c.len() implies c[q].0 == a[q].0 && c[q].1@ == a[q].1@ by { let (x, y) = (a[q], b[q]); assert(x.0 == y.0); assert(x.0 < g.constraints.minor_dimension_size); let r = s.constraint_row_factors@[x.0 as int]; assert(r@ > 0real); product_positive(r@, f@); there_and_back(x.1@, r@ * f@, true); }
    }
    assert forall|i: int| #![trigger k.b.data@[i]] 0 <= i < k.b.data@.len() implies k.b.data@[i]@ == g.b.data@[i]@ by { let r = s.constraint_row_factors@[i]; assert(r@ > 0real); let y = h.b.data@[i]; assert(y@ == multiplied(g.b.data@[i]@, r@, true)); there_and_back(g.b.data@[i]@, r@, true); }
    assert forall|i: int| #![trigger k.constraint_types@[i]] 0 <= i < k.constraint_types@.len() implies kept_type(g.constraint_types@[i], k.constraint_types@[i]) by { let r = s.constraint_row_factors@[i]; assert(r@ > 0real); let y = h.constraint_types@[i]; assert(scaled_type(g.constraint_types@[i], y, r@, true)); if g.constraint_types@[i] is Range { there_and_back(g.constraint_types@[i]->Range_0@, r@, true); } }
}
/// the point of the problem a point of the scaled problem stands for
pub open spec fn back(s: Scaling, y: Seq<real>) -> Seq<real> { Seq::new(y.len(), |j: int| y[j] * s.constraint_column_factors@[j]@) }
pub open spec fn costs(g: GeneralForm, y: Seq<real>) -> real { total(|j: int| g.variables@[j].cost@ * y[j], width(g)) }
pub proof fn entry_scaled(g: GeneralForm, h: GeneralForm, s: Scaling, j: int, i: int) requires shaped(g), fits(g, s), scaled(g, h, s, true), 0 <= j < width(g), 0 <= i < g.b.data@.len() ensures h.constraints.at(j, i) == g.constraints.at(j, i) * (s.constraint_row_factors@[i]@ * s.constraint_column_factors@[j]@) {
    let (a, b, f) = (g.constraints.data@[j]@, h.constraints.data@[j]@, s.constraint_column_factors@[j]@); assert(scaled_column(a, b, s.constraint_row_factors@, f, true, a.len() as int));
    let c = |q: int| s.constraint_row_factors@[q]@ * f;
    assert(part_scaled(a, b, c, a.len() as int)) by { assert forall|q: int| #![trigger b[q]] 0 <= q < b.len() implies b[q].0 == a[q].0 && b[q].1@ == a[q].1@ * c(a[q].0 as int) by {} }
    scaled_at(a, b, c, i);
}
pub proof fn total_times(h: spec_fn(int) -> real, f: spec_fn(int) -> real, c: real, n: int) requires forall|j: int| 0 <= j < n ==> #[trigger] h(j) == c * f(j) ensures total(h, n) == c * total(f, n) decreases n {
    if n > 0 { total_times(h, f, c, n - 1); assert(h(n - 1) == c * f(n - 1)); let (x, y) = (total(f, n - 1), f(n - 1)); assert(c * (x + y) == c * x + c * y) by(nonlinear_arith); } else { assert(c * 0real == 0real) by(nonlinear_arith); }
}
pub open spec fn meant(g: GeneralForm, h: GeneralForm, s: Scaling, y: Seq<real>) -> bool { feasible(h, y) == feasible(g, back(s, y)) && costs(h, y) == s.cost_factor@ * costs(g, back(s, y)) }
/// scaled, a point means the same
pub proof fn means_the_same(g: GeneralForm, h: GeneralForm, s: Scaling, y: Seq<real>) requires shaped(g), fits(g, s), scaled(g, h, s, true), y.len() == width(g) ensures meant(g, h, s, y) {
    let x = back(s, y); let n = width(g);
    assert forall|i: int| 0 <= i < g.b.data@.len() implies #[trigger] lhs(h, y, i) == s.constraint_row_factors@[i]@ * lhs(g, x, i) by {
        let r = s.constraint_row_factors@[i]@;
        let (p, q) = (|j: int| h.constraints.at(j, i) * y[j], |j: int| g.constraints.at(j, i) * x[j]);
        assert forall|j: int| 0 <= j < n implies #[trigger] p(j) == r * q(j) by { entry_scaled(g, h, s, j, i); let (a, c, z) = (g.constraints.at(j, i), s.constraint_column_factors@[j]@, y[j]); assert(x[j] == z * c); assert((a * (r * c)) * z == r * (a * (z * c))) by(nonlinear_arith); }
        total_times(p, q, r, n);
    }
    assert forall|i: int| #![trigger h.constraint_types@[i]] 0 <= i < g.b.data@.len() implies holds(h.constraint_types@[i], h.b.data@[i]@, lhs(h, y, i)) == holds(g.constraint_types@[i], g.b.data@[i]@, lhs(g, x, i)) by {
        let r = s.constraint_row_factors@[i]; assert(r@ > 0real); let (a, b, u, v) = (g.b.data@[i]@, h.b.data@[i]@, lhs(g, x, i), lhs(h, y, i)); let z = h.b.data@[i]; assert(z@ == multiplied(a, r@, true)); assert(v == r@ * u); side(a, u, b, v, r@); 
        assert(scaled_type(g.constraint_types@[i], h.constraint_types@[i], r@, true));
        if let RangedConstraintRelation::Range(w) = g.constraint_types@[i] { let t = h.constraint_types@[i]->Range_0; assert((a - w@) * r@ == a * r@ - w@ * r@) by(nonlinear_arith); side(a - w@, u, b - t@, v, r@); }
    }
    assert forall|j: int| #![trigger h.variables@[j]] 0 <= j < n implies within(h.variables@[j], y[j]) == within(g.variables@[j], x[j]) by {
        let f = s.constraint_column_factors@[j]; assert(f@ > 0real); let (v, w) = (g.variables@[j], h.variables@[j]); assert(scaled_variable(v, w, s.cost_factor@, f@, true)); assert(x[j] == y[j] * f@);
        if v.lower_bound is Some { let l = v.lower_bound->0@; there_and_back(l, f@, false); side(w.lower_bound->0@, y[j], l, x[j], f@); } if v.upper_bound is Some { let l = v.upper_bound->0@; there_and_back(l, f@, false); side(w.upper_bound->0@, y[j], l, x[j], f@); }
    }
    assert(feasible(h, y) ==> feasible(g, x)) by { if feasible(h, y) {
        assert forall|i: int| 0 <= i < g.constraint_types@.len() implies holds(#[trigger] g.constraint_types@[i], g.b.data@[i]@, lhs(g, x, i)) by { let z = h.constraint_types@[i]; assert(holds(z, h.b.data@[i]@, lhs(h, y, i))); }
        assert forall|j: int| 0 <= j < n implies within(#[trigger] g.variables@[j], x[j]) by { let z = h.variables@[j]; assert(within(z, y[j])); } } }
    assert(feasible(g, x) ==> feasible(h, y)) by { if feasible(g, x) {
        assert forall|i: int| 0 <= i < h.constraint_types@.len() implies holds(#[trigger] h.constraint_types@[i], h.b.data@[i]@, lhs(h, y, i)) by { let z = g.constraint_types@[i]; assert(holds(z, g.b.data@[i]@, lhs(g, x, i))); }
        assert forall|j: int| 0 <= j < n implies within(#[trigger] h.variables@[j], y[j]) by { let z = g.variables@[j]; assert(within(z, x[j])); } } }
    let (p, q) = (|j: int| h.variables@[j].cost@ * y[j], |j: int| g.variables@[j].cost@ * x[j]);
    assert forall|j: int| 0 <= j < n implies #[trigger] p(j) == s.cost_factor@ * q(j) by { let f = s.constraint_column_factors@[j]; let (v, w) = (g.variables@[j], h.variables@[j]); assert(scaled_variable(v, w, s.cost_factor@, f@, true)); let (a, k, c, z) = (v.cost@, s.cost_factor@, f@, y[j]); assert(x[j] == z * c); assert((a * (k * c)) * z == k * (a * (z * c))) by(nonlinear_arith); }
    total_times(p, q, s.cost_factor@, n);
}
/// comparing is not affected by a positive factor
pub proof fn side(a: real, u: real, b: real, v: real, r: real) requires r > 0real, b == a * r, v == u * r ensures (u <= a) == (v <= b), (a <= u) == (b <= v), (a == u) == (b == v) {
    assert((u <= a) == (u * r <= a * r)) by(nonlinear_arith) requires r > 0real; assert((a <= u) == (a * r <= u * r)) by(nonlinear_arith) requires r > 0real;
}
pub proof fn stays_shaped(g: GeneralForm, h: GeneralForm, s: Scaling, up: bool) requires shaped(g), fits(g, s), scaled(g, h, s, up) ensures shaped(h), fits(h, s) {
    assert forall|j: int| #![trigger h.constraints.data@[j]] 0 <= j < h.constraints.data@.len() implies swf(h.constraints.data@[j]@, h.constraints.minor_dimension_size as int) by {
        let (a, b, f) = (g.constraints.data@[j]@, h.constraints.data@[j]@, s.constraint_column_factors@[j]); assert(f@ > 0real); assert(swf(a, g.constraints.minor_dimension_size as int)); assert(scaled_column(a, b, s.constraint_row_factors@, f@, up, a.len() as int));
        assert forall|k: int| #![trigger b[k]] 0 <= k < b.len() implies b[k].1@ != 0real && b[k].0 < h.constraints.minor_dimension_size by { let x = a[k]; let r = s.constraint_row_factors@[x.0 as int]; assert(r@ > 0real); product_positive(r@, f@); product_nonzero(x.1@, r@ * f@); quotient_nonzero(x.1@, r@ * f@); }
        assert(ssorted(b));
    }
    assert forall|j: int| #![trigger h.from_active_to_original@[j]] 0 <= j < width(h) implies h.from_active_to_original@[j] < h.original_variables@.len() by { let z = g.from_active_to_original@[j]; assert(Some(z) is Some); }
}
