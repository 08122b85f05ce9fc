// ---- free variables as differences of two nonnegative ones ----
pub open spec fn opposite(s: Seq<(usize, F)>, r: Seq<(usize, F)>) -> bool { s.len() == r.len() && forall|k: int| #![trigger r[k]] 0 <= k < s.len() ==> r[k].0 == s[k].0 && r[k].1@ == 0real - s[k].1@ }
pub proof fn opposite_sv(s: Seq<(usize, F)>, r: Seq<(usize, F)>, i: int) requires opposite(s, r) ensures sv(r, i) == 0real - sv(s, i) {
    assert forall|k: int| 0 <= k < s.len() implies (#[trigger] r[k]).0 == s[k].0 && r[k].1@ == s[k].1@ * (0real - 1real) by {} sv_scaled(s, r, 0real - 1real, i);
}
pub open spec fn first_half(v: Variable, w: Variable) -> bool { if free(v) { w.variable_type == v.variable_type && w.cost@ == v.cost@ && w.shift@ == v.shift@ && w.flipped == v.flipped && w.upper_bound is None && w.lower_bound is Some && w.lower_bound->0@ == 0real } else { w == v } }
pub open spec fn second_half(v: Variable, w: Variable) -> bool { w.variable_type == v.variable_type && w.cost@ == 0real - v.cost@ && w.shift@ == 0real && !w.flipped && w.upper_bound is None && w.lower_bound is Some && w.lower_bound->0@ == 0real }
/// f lists the free variables in order
pub open spec fn frees(g: GeneralForm, f: Seq<usize>) -> bool { (forall|s: int, t: int| #![trigger f[s], f[t]] 0 <= s < t < f.len() ==> f[s] < f[t]) && (forall|t: int| #![trigger f[t]] 0 <= t < f.len() ==> f[t] < width(g) && free(g.variables@[f[t] as int])) && (forall|j: int| #![trigger g.variables@[j]] 0 <= j < width(g) && free(g.variables@[j]) ==> f.contains(j as usize)) }
pub open spec fn split_original(g: GeneralForm, h: GeneralForm, f: Seq<usize>, o: int) -> bool {
    h.original_variables@[o].0 == g.original_variables@[o].0 && match g.original_variables@[o].1 {
        OriginalVariable::Active(j) => if free(g.variables@[j as int]) { match h.original_variables@[o].1 { OriginalVariable::ActiveFree(p, q) => p == j && width(g) <= q < width(g) + f.len() && f[q - width(g)] == j, _ => false } } else { h.original_variables@[o].1 == g.original_variables@[o].1 },
        _ => h.original_variables@[o].1 == g.original_variables@[o].1 }
}
pub open spec fn split(g: GeneralForm, h: GeneralForm, f: Seq<usize>) -> bool {
    let n = width(g);
    frees(g, f) && shaped(h) && width(h) == n + f.len() && h.objective == g.objective && h.fixed_cost == g.fixed_cost && h.b == g.b && h.constraint_types == g.constraint_types
    && (forall|j: int| #![trigger h.variables@[j]] 0 <= j < n ==> first_half(g.variables@[j], h.variables@[j]))
    && (forall|t: int| #![trigger f[t]] 0 <= t < f.len() ==> second_half(g.variables@[f[t] as int], h.variables@[n + t]))
    && (forall|j: int, i: int| #![trigger h.constraints.at(j, i)] 0 <= j < n ==> h.constraints.at(j, i) == g.constraints.at(j, i))
    && (forall|t: int, i: int| #![trigger h.constraints.at(n + t, i)] 0 <= t < f.len() ==> h.constraints.at(n + t, i) == 0real - g.constraints.at(f[t] as int, i))
    && h.original_variables@.len() == g.original_variables@.len() && (forall|o: int| #![trigger h.original_variables@[o]] 0 <= o < g.original_variables@.len() ==> split_original(g, h, f, o))
}

pub proof fn opposite_wf(s: Seq<(usize, F)>, r: Seq<(usize, F)>, n: int) requires opposite(s, r), swf(s, n) ensures swf(r, n) {
    assert forall|k: int| #![trigger r[k]] 0 <= k < r.len() implies r[k].0 == s[k].0 && r[k].1@ != 0real && r[k].0 < n by { let z = s[k]; assert(Some(z) is Some); }
    assert forall|a: int, b: int| #![trigger r[a], r[b]] 0 <= a < b < r.len() implies r[a].0 < r[b].0 by { assert(s[a].0 < s[b].0); }
}
pub open spec fn frees_by(g: GeneralForm, f: Seq<usize>, m: Seq<int>) -> bool { m.len() == f.len() && increasing(m) && (forall|t: int| #![trigger f[t]] 0 <= t < f.len() ==> 0 <= m[t] < width(g) && f[t] == m[t] && free(g.variables@[m[t]])) && (forall|j: int| #![trigger g.variables@[j]] 0 <= j < width(g) ==> !free(g.variables@[j]) || exists|t: int| 0 <= t < m.len() && #[trigger] m[t] == j) }
pub proof fn frees_found(g: GeneralForm, f: Seq<usize>, m: Seq<int>) requires frees_by(g, f, m), width(g) <= usize::MAX ensures frees(g, f) {
    assert forall|s: int, t: int| #![trigger f[s], f[t]] 0 <= s < t < f.len() implies f[s] < f[t] by { assert(m[s] < m[t]); }
    assert forall|j: int| #![trigger g.variables@[j]] 0 <= j < width(g) && free(g.variables@[j]) implies f.contains(j as usize) by { let t = choose|t: int| 0 <= t < m.len() && #[trigger] m[t] == j; assert(f[t] == j); }
}
pub proof fn frees_few(g: GeneralForm, f: Seq<usize>, n: int) requires frees(g, f), n == width(g) ensures f.len() <= n {
    few_below(f, f.len() as int);
    if f.len() > 0 { assert(f[f.len() - 1] < n); }
}
pub proof fn few_below(f: Seq<usize>, k: int) requires forall|s: int, t: int| #![trigger f[s], f[t]] 0 <= s < t < f.len() ==> f[s] < f[t], 0 <= k <= f.len() ensures forall|t: int| #![trigger f[t]] 0 <= t < k ==> t <= f[t] decreases k {
    if k > 0 { few_below(f, k - 1); if k > 1 { assert(f[k - 2] < f[k - 1]); } }
}
/// the original is active and its variable free
pub open spec fn split_up(g: GeneralForm, o: int) -> bool { match g.original_variables@[o].1 { OriginalVariable::Active(j) => free(g.variables@[j as int]), _ => false } }

pub proof fn total_cat(h: spec_fn(int) -> real, n: int, k: int) requires 0 <= n, 0 <= k ensures total(h, n + k) == total(h, n) + total(|t: int| h(n + t), k) decreases k { let q = |t: int| h(n + t); if k > 0 { total_cat(h, n, k - 1); assert(q(k - 1) == h(n + k - 1)); } }
/// what is summed over the places listed in f
pub proof fn total_listed(f: Seq<usize>, q: spec_fn(int) -> real, p: spec_fn(int) -> real, n: int)
    requires forall|s: int, t: int| #![trigger f[s], f[t]] 0 <= s < t < f.len() ==> f[s] < f[t], forall|t: int| #![trigger f[t]] 0 <= t < f.len() ==> f[t] < n && q(t) == p(f[t] as int), forall|j: int| #![trigger p(j)] 0 <= j < n && !f.contains(j as usize) ==> p(j) == 0real, 0 <= n <= usize::MAX + 1
    ensures total(q, f.len() as int) == total(p, n) decreases n
{
    if n == 0 { if f.len() > 0 { assert(f[0] < n); } }
    else if f.len() > 0 && f.last() == n - 1 {
        let e = f.drop_last();
        assert forall|t: int| #![trigger e[t]] 0 <= t < e.len() implies e[t] < n - 1 && q(t) == p(e[t] as int) by { assert(f[t] < f[f.len() - 1]); }
        assert forall|j: int| #![trigger p(j)] 0 <= j < n - 1 && !e.contains(j as usize) implies p(j) == 0real by { if f.contains(j as usize) { let t = f.index_of(j as usize); assert(f[t] == j); assert(e[t] == j); } }
        total_listed(e, q, p, n - 1); assert(f[f.len() - 1] == n - 1);
    } else {
        assert forall|t: int| #![trigger f[t]] 0 <= t < f.len() implies f[t] < n - 1 && q(t) == p(f[t] as int) by { if t < f.len() - 1 { assert(f[t] < f[f.len() - 1]); } assert(f[f.len() - 1] < n); }
        total_listed(f, q, p, n - 1);
        if f.contains((n - 1) as usize) { let t = f.index_of((n - 1) as usize); assert(f[t] == n - 1); }
        assert(p(n - 1) == 0real);
    }
}
/// the second half of the split variable j
pub open spec fn extra(f: Seq<usize>, n: int, z: Seq<real>, j: int) -> real { if f.contains(j as usize) { z[n + f.index_of(j as usize)] } else { 0real } }
pub open spec fn joins(g: GeneralForm, f: Seq<usize>, y: Seq<real>, z: Seq<real>) -> bool { let n = width(g); y.len() == n && z.len() == n + f.len() && forall|j: int| #![trigger y[j]] #![trigger z[j]] 0 <= j < n ==> y[j] == z[j] - extra(f, n, z, j) }
pub proof fn listed_at(g: GeneralForm, f: Seq<usize>, t: int) requires frees(g, f), 0 <= t < f.len() ensures f.contains(f[t]), f.index_of(f[t]) == t { let u = f.index_of(f[t]); if u < t { assert(f[u] < f[t]); } else if t < u { assert(f[t] < f[u]); } }
pub proof fn split_total(g: GeneralForm, f: Seq<usize>, c: spec_fn(int) -> real, y: Seq<real>, z: Seq<real>)
    requires frees(g, f), joins(g, f, y, z), width(g) <= usize::MAX, forall|t: int| #![trigger f[t]] 0 <= t < f.len() ==> c(width(g) + t) == 0real - c(f[t] as int)
    ensures total(|j: int| c(j) * z[j], width(g) + f.len()) == total(|j: int| c(j) * y[j], width(g))
{
    let n = width(g); let k = f.len() as int;
    let h = |j: int| c(j) * z[j]; let r = |j: int| c(j) * y[j]; let q = |t: int| h(n + t); let p = |j: int| 0real - c(j) * extra(f, n, z, j);
    total_cat(h, n, k);
    assert forall|t: int| #![trigger f[t]] 0 <= t < f.len() implies f[t] < n && q(t) == p(f[t] as int) by { listed_at(g, f, t); let (a, b) = (c(f[t] as int), z[n + t]); assert((0real - a) * b == 0real - a * b) by(nonlinear_arith); }
    assert forall|j: int| #![trigger p(j)] 0 <= j < n && !f.contains(j as usize) implies p(j) == 0real by { let a = c(j); assert(a * 0real == 0real) by(nonlinear_arith); }
    total_listed(f, q, p, n);
    assert forall|j: int| 0 <= j < n implies #[trigger] r(j) == h(j) + 1real * p(j) by { let (a, b, e) = (c(j), z[j], extra(f, n, z, j)); assert(y[j] == b - e); assert(a * (b - e) == a * b - a * e) by(nonlinear_arith); }
    total_mix(r, h, 1real, p, n);
}
pub proof fn split_lhs(g: GeneralForm, h: GeneralForm, f: Seq<usize>, y: Seq<real>, z: Seq<real>, i: int)
    requires split(g, h, f), joins(g, f, y, z), width(g) <= usize::MAX ensures lhs(h, z, i) == lhs(g, y, i)
{
    let n = width(g); let c = |j: int| h.constraints.at(j, i);
    assert forall|t: int| #![trigger f[t]] 0 <= t < f.len() implies c(n + t) == 0real - c(f[t] as int) by { assert(f[t] < n); assert(h.constraints.at(n + t, i) == 0real - g.constraints.at(f[t] as int, i)); assert(h.constraints.at(f[t] as int, i) == g.constraints.at(f[t] as int, i)); }
    split_total(g, f, c, y, z);
    total_same(|j: int| c(j) * z[j], |j: int| h.constraints.at(j, i) * z[j], width(h));
    let (a, b) = (|j: int| c(j) * y[j], |j: int| g.constraints.at(j, i) * y[j]);
    assert forall|j: int| 0 <= j < n implies #[trigger] a(j) == b(j) by { assert(h.constraints.at(j, i) == g.constraints.at(j, i)); }
    total_same(a, b, n);
}
pub proof fn split_worth(g: GeneralForm, h: GeneralForm, f: Seq<usize>, y: Seq<real>, z: Seq<real>, s: real)
    requires split(g, h, f), joins(g, f, y, z), width(g) <= usize::MAX ensures worth(h, s, z) == worth(g, s, y)
{
    let n = width(g); let c = |j: int| h.variables@[j].cost@;
    assert forall|t: int| #![trigger f[t]] 0 <= t < f.len() implies c(n + t) == 0real - c(f[t] as int) by { assert(f[t] < n); assert(first_half(g.variables@[f[t] as int], h.variables@[f[t] as int])); }
    split_total(g, f, c, y, z);
    total_same(|j: int| c(j) * z[j], |j: int| h.variables@[j].cost@ * z[j], width(h));
    let (a, b) = (|j: int| c(j) * y[j], |j: int| g.variables@[j].cost@ * y[j]);
    assert forall|j: int| 0 <= j < n implies #[trigger] a(j) == b(j) by { assert(first_half(g.variables@[j], h.variables@[j])); }
    total_same(a, b, n);
}
pub proof fn split_meets(g: GeneralForm, h: GeneralForm, f: Seq<usize>, y: Seq<real>, z: Seq<real>, s: real)
    requires shaped(g), unsplit(g), split(g, h, f), joins(g, f, y, z), width(g) <= usize::MAX
    ensures values_agree(g, y, h, z), values_agree(h, z, g, y), worth(h, s, z) == worth(g, s, y), rows_hold(g, y) == rows_hold(h, z)
{
    let n = width(g);
    split_worth(g, h, f, y, z, s);
    assert forall|i: int| 0 <= i < g.constraint_types@.len() implies lhs(h, z, i) == #[trigger] lhs(g, y, i) by { split_lhs(g, h, f, y, z, i); }
    assert(rows_hold(g, y) == rows_hold(h, z)) by {
        if rows_hold(g, y) { assert forall|i: int| 0 <= i < h.constraint_types@.len() implies holds(#[trigger] h.constraint_types@[i], h.b.data@[i]@, lhs(h, z, i)) by { assert(lhs(h, z, i) == lhs(g, y, i)); assert(holds(g.constraint_types@[i], g.b.data@[i]@, lhs(g, y, i))); } }
        if rows_hold(h, z) { assert forall|i: int| 0 <= i < g.constraint_types@.len() implies holds(#[trigger] g.constraint_types@[i], g.b.data@[i]@, lhs(g, y, i)) by { assert(lhs(h, z, i) == lhs(g, y, i)); assert(holds(h.constraint_types@[i], h.b.data@[i]@, lhs(h, z, i))); } }
    }
    assert forall|o: int| 0 <= o < g.original_variables@.len() implies value(h, o, z) == #[trigger] value(g, o, y) by {
        let (u, v) = (g.original_variables@[o], h.original_variables@[o]); assert(split_original(g, h, f, o));
        match u.1 { OriginalVariable::Active(j) => { let j = j as int; assert(first_half(g.variables@[j], h.variables@[j])); assert(y[j] == z[j] - extra(f, n, z, j));
            if free(g.variables@[j]) { let q = v.1->ActiveFree_1 as int; let t = q - n; listed_at(g, f, t); assert(f[t] == j); assert(second_half(g.variables@[f[t] as int], h.variables@[n + t])); }
            else if f.contains(j as usize) { let t = f.index_of(j as usize); assert(f[t] == j); } }, _ => {} }
    }
    assert forall|o: int| 0 <= o < h.original_variables@.len() implies value(g, o, y) == #[trigger] value(h, o, z) by { assert(value(h, o, z) == value(g, o, y)); }
}
pub proof fn split_same(g: GeneralForm, h: GeneralForm, f: Seq<usize>, s: real)
    requires shaped(g), unsplit(g), split(g, h, f), width(g) <= usize::MAX ensures same(g, s, h, s)
{
    let n = width(g);
    assert forall|y: Seq<real>| #[trigger] feasible(g, y) implies exists|z: Seq<real>| meets(g, s, y, h, s, z) by {
        let z = Seq::new((n + f.len()) as nat, |j: int| if j < n { if f.contains(j as usize) { if y[j] > 0real { y[j] } else { 0real } } else { y[j] } } else { let x = y[f[j - n] as int]; if x < 0real { 0real - x } else { 0real } });
        assert forall|j: int| #![trigger y[j]] #![trigger z[j]] 0 <= j < n implies y[j] == z[j] - extra(f, n, z, j) by { if f.contains(j as usize) { let t = f.index_of(j as usize); assert(f[t] == j); assert(z[n + t] == (if y[j] < 0real { 0real - y[j] } else { 0real })); } }
        split_meets(g, h, f, y, z, s);
        assert forall|j: int| 0 <= j < width(h) implies within(#[trigger] h.variables@[j], z[j]) by {
            if j < n { assert(first_half(g.variables@[j], h.variables@[j])); assert(within(g.variables@[j], y[j])); if f.contains(j as usize) { let t = f.index_of(j as usize); assert(f[t] == j); } } else { let t = j - n; let x = f[t]; assert(Some(x) is Some); assert(second_half(g.variables@[f[t] as int], h.variables@[n + t])); } }
        assert(meets(g, s, y, h, s, z));
    }
    assert forall|z: Seq<real>| #[trigger] feasible(h, z) implies exists|y: Seq<real>| meets(h, s, z, g, s, y) by {
        let y = Seq::new(n as nat, |j: int| z[j] - extra(f, n, z, j));
        split_meets(g, h, f, y, z, s);
        assert forall|j: int| 0 <= j < n implies within(#[trigger] g.variables@[j], y[j]) by { assert(first_half(g.variables@[j], h.variables@[j])); assert(within(h.variables@[j], z[j])); if f.contains(j as usize) { let t = f.index_of(j as usize); assert(f[t] == j); } }
        assert(meets(h, s, z, g, s, y));
    }
    assert forall|o: int| #![trigger h.original_variables@[o]] 0 <= o < h.original_variables@.len() implies h.original_variables@[o].0 == g.original_variables@[o].0 && (g.original_variables@[o].1 is Removed ==> h.original_variables@[o].1 == g.original_variables@[o].1) && (h.original_variables@[o].1 is Removed ==> g.original_variables@[o].1 is Removed) by { assert(split_original(g, h, f, o)); }
}

/// the first k of the free variables are split
pub open spec fn splitting(g: GeneralForm, h: GeneralForm, f: Seq<usize>, k: int) -> bool { let n = width(g);
      h.objective == g.objective && h.fixed_cost == g.fixed_cost && h.b == g.b && h.constraint_types == g.constraint_types && h.variables@.len() == n + k && h.from_active_to_original@.len() == n + k && h.original_variables@.len() == g.original_variables@.len()
      && (forall|j: int| #![trigger h.variables@[j]] 0 <= j < n && !free(g.variables@[j]) ==> h.variables@[j] == g.variables@[j])
      && (forall|t: int| #![trigger f[t]] 0 <= t < k ==> half_split(g, h, f, t))
      && (forall|t: int| #![trigger f[t]] k <= t < f.len() ==> h.variables@[f[t] as int] == g.variables@[f[t] as int] && h.original_variables@[g.from_active_to_original@[f[t] as int] as int] == g.original_variables@[g.from_active_to_original@[f[t] as int] as int])
      && (forall|j: int| #![trigger h.from_active_to_original@[j]] 0 <= j < n ==> h.from_active_to_original@[j] == g.from_active_to_original@[j])
      && (forall|o: int| #![trigger h.original_variables@[o]] 0 <= o < g.original_variables@.len() ==> h.original_variables@[o].0 == g.original_variables@[o].0 && (!split_up(g, o) ==> h.original_variables@[o] == g.original_variables@[o]))
}
pub open spec fn half_split(g: GeneralForm, h: GeneralForm, f: Seq<usize>, t: int) -> bool { let n = width(g); let j = f[t] as int; let o = g.from_active_to_original@[j] as int;
    first_half(g.variables@[j], h.variables@[j]) && second_half(g.variables@[j], h.variables@[n + t]) && h.from_active_to_original@[n + t] == o && h.original_variables@[o].1 == OriginalVariable::ActiveFree(f[t], (n + t) as usize) }
pub proof fn split_next(g: GeneralForm, h: GeneralForm, w: GeneralForm, f: Seq<usize>, k: int)
    requires shaped(g), unsplit(g), frees(g, f), f.len() <= width(g), 2 * width(g) <= usize::MAX, 0 <= k < f.len(), splitting(g, h, f, k),
      w.objective == h.objective, w.fixed_cost == h.fixed_cost, w.b == h.b, w.constraint_types == h.constraint_types,
      w.variables@.len() == width(g) + k + 1, forall|j: int| #![trigger w.variables@[j]] 0 <= j < width(g) + k && j != f[k] ==> w.variables@[j] == h.variables@[j],
      first_half(g.variables@[f[k] as int], w.variables@[f[k] as int]), second_half(g.variables@[f[k] as int], w.variables@[width(g) + k]),
      w.from_active_to_original@ == h.from_active_to_original@.push(g.from_active_to_original@[f[k] as int]), w.original_variables@.len() == h.original_variables@.len(),
      forall|o: int| #![trigger w.original_variables@[o]] 0 <= o < h.original_variables@.len() ==> w.original_variables@[o].0 == h.original_variables@[o].0 && w.original_variables@[o].1 == (if o == g.from_active_to_original@[f[k] as int] { OriginalVariable::ActiveFree(f[k], (width(g) + k) as usize) } else { h.original_variables@[o].1 })
    ensures splitting(g, w, f, k + 1)
{
    let n = width(g); let z = g.from_active_to_original@[f[k] as int]; assert(Some(z) is Some); assert(f[k] < n); assert(split_up(g, z as int));
    assert forall|t: int| #![trigger f[t]] 0 <= t < f.len() && t != k implies f[t] != f[k] && f[t] < n && g.from_active_to_original@[f[t] as int] != z && g.from_active_to_original@[f[t] as int] < g.original_variables@.len() by { if t < k { assert(f[t] < f[k]); } else { assert(f[k] < f[t]); } let y = g.from_active_to_original@[f[t] as int]; assert(Some(y) is Some); }
    assert forall|t: int| #![trigger f[t]] 0 <= t < k + 1 implies half_split(g, w, f, t) by { if t < k { assert(half_split(g, h, f, t)); assert(w.variables@[f[t] as int] == h.variables@[f[t] as int]); assert(w.variables@[n + t] == h.variables@[n + t]); } }
    assert forall|t: int| #![trigger f[t]] k + 1 <= t < f.len() implies w.variables@[f[t] as int] == g.variables@[f[t] as int] && w.original_variables@[g.from_active_to_original@[f[t] as int] as int] == g.original_variables@[g.from_active_to_original@[f[t] as int] as int] by { assert(w.variables@[f[t] as int] == h.variables@[f[t] as int]); let o = g.from_active_to_original@[f[t] as int] as int; let x = w.original_variables@[o]; assert(Some(x) is Some); assert(h.original_variables@[o] == g.original_variables@[o]); assert(x == g.original_variables@[o]); }
    assert forall|o: int| #![trigger w.original_variables@[o]] 0 <= o < g.original_variables@.len() implies w.original_variables@[o].0 == g.original_variables@[o].0 && (!split_up(g, o) ==> w.original_variables@[o] == g.original_variables@[o]) by { let x = h.original_variables@[o]; assert(Some(x) is Some); }
    assert forall|j: int| #![trigger w.variables@[j]] 0 <= j < n && !free(g.variables@[j]) implies w.variables@[j] == g.variables@[j] by { let x = h.variables@[j]; assert(Some(x) is Some); }
    assert forall|j: int| #![trigger w.from_active_to_original@[j]] 0 <= j < n implies w.from_active_to_original@[j] == g.from_active_to_original@[j] by { let x = h.from_active_to_original@[j]; assert(Some(x) is Some); }
}
pub proof fn split_done(g: GeneralForm, h: GeneralForm, f: Seq<usize>)
    requires shaped(g), unsplit(g), frees(g, f), f.len() <= width(g), 2 * width(g) <= usize::MAX, splitting(g, h, f, f.len() as int), h.constraints.wf(), h.constraints.major_dimension_size == width(g) + f.len(), h.constraints.minor_dimension_size == g.constraints.minor_dimension_size,
      forall|j: int, i: int| #![trigger h.constraints.at(j, i)] 0 <= j < width(g) ==> h.constraints.at(j, i) == g.constraints.at(j, i),
      forall|t: int, i: int| #![trigger h.constraints.at(width(g) + t, i)] 0 <= t < f.len() ==> h.constraints.at(width(g) + t, i) == 0real - g.constraints.at(f[t] as int, i)
    ensures split(g, h, f)
{
        let n = width(g);
        assert forall|t: int| #![trigger f[t]] 0 <= t < f.len() implies f[t] < n && half_split(g, h, f, t) && second_half(g.variables@[f[t] as int], h.variables@[n + t]) by { }
        assert forall|j: int| #![trigger h.variables@[j]] 0 <= j < n implies first_half(g.variables@[j], h.variables@[j]) by { if free(g.variables@[j]) { let t = f.index_of(j as usize); assert(f[t] == j); } }
        assert forall|o: int| #![trigger h.original_variables@[o]] 0 <= o < g.original_variables@.len() implies split_original(g, h, f, o) by { let z = g.original_variables@[o]; assert(Some(z) is Some); if split_up(g, o) { let j = z.1->Active_0; assert(free(g.variables@[j as int])); let t = f.index_of(j); assert(f[t] == j); assert(half_split(g, h, f, t)); } }
        assert(shaped(h)) by {
            assert forall|j: int| #![trigger h.from_active_to_original@[j]] 0 <= j < n + f.len() implies h.from_active_to_original@[j] < h.original_variables@.len() by { if j >= n { assert(f[j - n] < n); assert(half_split(g, h, f, j - n)); let y = g.from_active_to_original@[f[j - n] as int]; assert(Some(y) is Some); } else { let y = g.from_active_to_original@[j]; assert(Some(y) is Some); } }
            assert forall|o: int| #![trigger h.original_variables@[o]] 0 <= o < h.original_variables@.len() implies match h.original_variables@[o].1 { OriginalVariable::Active(j) => j < n + f.len(), OriginalVariable::ActiveFree(p, q) => p < n + f.len() && q < n + f.len(), OriginalVariable::Removed(_) => true } by { let z = g.original_variables@[o]; assert(Some(z) is Some); assert(split_original(g, h, f, o)); } }
}
