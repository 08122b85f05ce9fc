// ---- costs negated, rows ordered by type ----
pub open spec fn sign_of(o: Objective) -> real { if o is Maximize { 0real - 1real } else { 1real } }
pub open spec fn negated_costs(g: GeneralForm, h: GeneralForm) -> bool {
    h.objective is Minimize && h.constraints == g.constraints && h.b == g.b && h.constraint_types == g.constraint_types && h.fixed_cost == g.fixed_cost && h.original_variables == g.original_variables && h.from_active_to_original == g.from_active_to_original && width(h) == width(g)
    && forall|j: int| #![trigger h.variables@[j]] 0 <= j < width(g) ==> same_but_cost(g.variables@[j], h.variables@[j]) && h.variables@[j].cost@ == sign_of(g.objective) * g.variables@[j].cost@
}
pub open spec fn same_but_cost(v: Variable, w: Variable) -> bool { w.variable_type == v.variable_type && w.lower_bound == v.lower_bound && w.upper_bound == v.upper_bound && w.shift == v.shift && w.flipped == v.flipped }
pub proof fn negated_same(g: GeneralForm, h: GeneralForm) requires shaped(g), negated_costs(g, h) ensures same(g, 1real, h, sign_of(g.objective)) {
    let s = sign_of(g.objective); let n = width(g);
    assert forall|y: Seq<real>| worth(g, 1real, y) == #[trigger] worth(h, s, y) by {
        let (a, b) = (|j: int| g.variables@[j].cost@ * y[j], |j: int| h.variables@[j].cost@ * y[j]);
        assert forall|j: int| 0 <= j < n implies #[trigger] b(j) == a(j) + (s - 1real) * a(j) by { let (p, q) = (g.variables@[j].cost@, y[j]); assert(h.variables@[j].cost@ == s * p); assert((s * p) * q == p * q + (s - 1real) * (p * q)) by(nonlinear_arith); }
        total_mix(b, a, s - 1real, a, n); let x = total(a, n);
        assert(s * (x + (s - 1real) * x) == 1real * x) by(nonlinear_arith) requires s == 1real || s == 0real - 1real;
    }
    assert forall|y: Seq<real>| rows_hold(g, y) == #[trigger] rows_hold(h, y) by {
        assert forall|i: int| lhs(h, y, i) == #[trigger] lhs(g, y, i) by { let (a, b) = (|j: int| g.constraints.at(j, i) * y[j], |j: int| h.constraints.at(j, i) * y[j]); total_same(a, b, n); }
        if rows_hold(g, y) { assert forall|i: int| 0 <= i < h.constraint_types@.len() implies holds(#[trigger] h.constraint_types@[i], h.b.data@[i]@, lhs(h, y, i)) by { assert(lhs(h, y, i) == lhs(g, y, i)); assert(holds(g.constraint_types@[i], g.b.data@[i]@, lhs(g, y, i))); } }
        if rows_hold(h, y) { assert forall|i: int| 0 <= i < g.constraint_types@.len() implies holds(#[trigger] g.constraint_types@[i], g.b.data@[i]@, lhs(g, y, i)) by { assert(lhs(h, y, i) == lhs(g, y, i)); assert(holds(h.constraint_types@[i], h.b.data@[i]@, lhs(h, y, i))); } }
    }
    unmoved_same(g, 1real, h, s);
}
pub open spec fn kind(t: RangedConstraintRelation) -> RangedConstraintRelationKind { match t { RangedConstraintRelation::Equal => RangedConstraintRelationKind::Equal, RangedConstraintRelation::Range(_) => RangedConstraintRelationKind::Range, RangedConstraintRelation::Less => RangedConstraintRelationKind::Less, RangedConstraintRelation::Greater => RangedConstraintRelationKind::Greater } }
pub open spec fn cnt(t: Seq<RangedConstraintRelation>, r: int, k: int) -> int decreases k { if k <= 0 { 0 } else { cnt(t, r, k - 1) + (if place(t[k - 1]) == r { 1int } else { 0int }) } }
/// how many rows have an earlier type
pub open spec fn before(t: Seq<RangedConstraintRelation>, r: int) -> int { let m = t.len() as int; (if r > 0 { cnt(t, 0, m) } else { 0 }) + (if r > 1 { cnt(t, 1, m) } else { 0 }) + (if r > 2 { cnt(t, 2, m) } else { 0 }) + (if r > 3 { cnt(t, 3, m) } else { 0 }) }
/// where row i comes to stand
pub open spec fn dest(t: Seq<RangedConstraintRelation>, i: int) -> int { before(t, place(t[i])) + cnt(t, place(t[i]), i) }
pub proof fn cnt_bounds(t: Seq<RangedConstraintRelation>, r: int, k: int) requires 0 <= k ensures 0 <= cnt(t, r, k) <= k decreases k { if k > 0 { cnt_bounds(t, r, k - 1); } }
pub proof fn cnt_grows(t: Seq<RangedConstraintRelation>, r: int, j: int, k: int) requires 0 <= j <= k ensures cnt(t, r, j) <= cnt(t, r, k) decreases k { if j < k { cnt_grows(t, r, j, k - 1); } }
pub proof fn cnt_all(t: Seq<RangedConstraintRelation>, k: int) requires 0 <= k ensures cnt(t, 0, k) + cnt(t, 1, k) + cnt(t, 2, k) + cnt(t, 3, k) == k decreases k { if k > 0 { cnt_all(t, k - 1); let x = t[k - 1]; assert(0 <= place(x) <= 3); } }
pub proof fn dest_range(t: Seq<RangedConstraintRelation>, i: int) requires 0 <= i < t.len() ensures before(t, place(t[i])) <= dest(t, i) < before(t, place(t[i]) + 1) <= t.len(), 0 <= dest(t, i) {
    let (m, r) = (t.len() as int, place(t[i])); cnt_all(t, m); cnt_bounds(t, 0, m); cnt_bounds(t, 1, m); cnt_bounds(t, 2, m); cnt_bounds(t, 3, m); cnt_bounds(t, r, i); cnt_grows(t, r, i + 1, m); assert(cnt(t, r, i + 1) == cnt(t, r, i) + 1);
}
pub proof fn dest_order(t: Seq<RangedConstraintRelation>, i: int, j: int) requires 0 <= i < t.len(), 0 <= j < t.len(), place(t[i]) < place(t[j]) || (place(t[i]) == place(t[j]) && i < j) ensures dest(t, i) < dest(t, j) {
    dest_range(t, i); dest_range(t, j); let (m, r) = (t.len() as int, place(t[i]));
    if r == place(t[j]) { cnt_grows(t, r, i + 1, j); assert(cnt(t, r, i + 1) == cnt(t, r, i) + 1); } else { cnt_bounds(t, 0, m); cnt_bounds(t, 1, m); cnt_bounds(t, 2, m); cnt_bounds(t, 3, m); }
}
pub proof fn dest_distinct(t: Seq<RangedConstraintRelation>, i: int, j: int) requires 0 <= i < t.len(), 0 <= j < t.len(), i != j ensures dest(t, i) != dest(t, j) {
    let (a, b) = (place(t[i]), place(t[j])); if a < b || (a == b && i < j) { dest_order(t, i, j); } else { dest_order(t, j, i); }
}
pub proof fn count_up(q: Seq<int>, n: int, k: int) requires 0 <= k < n, q.len() == n, forall|i: int, j: int| #![trigger q[i], q[j]] 0 <= i < j < n ==> q[i] < q[j], forall|i: int| #![trigger q[i]] 0 <= i < n ==> 0 <= q[i] < n ensures k <= q[k] decreases k { if k > 0 { count_up(q, n, k - 1); assert(q[k - 1] < q[k]); } }
pub proof fn count_down(q: Seq<int>, n: int, k: int) requires 0 <= k < n, q.len() == n, forall|i: int, j: int| #![trigger q[i], q[j]] 0 <= i < j < n ==> q[i] < q[j], forall|i: int| #![trigger q[i]] 0 <= i < n ==> 0 <= q[i] < n ensures q[k] <= k decreases n - k { if k < n - 1 { count_down(q, n, k + 1); assert(q[k] < q[k + 1]); } }
/// the stable sorting puts row i where it is counted to stand
pub proof fn sorted_at(t: Seq<RangedConstraintRelation>, s: Seq<RangedConstraintRelation>, p: Seq<int>)
    requires stable_sort_of(t, s, p)
    ensures forall|k: int| #![trigger p[k]] 0 <= k < t.len() ==> dest(t, p[k]) == k, forall|i: int| #![trigger dest(t, i)] 0 <= i < t.len() ==> s[dest(t, i)] == t[i] && p[dest(t, i)] == i
{
    let n = t.len() as int; let q = Seq::new(t.len(), |k: int| dest(t, p[k]));
    assert forall|i: int| #![trigger q[i]] 0 <= i < n implies 0 <= q[i] < n by { dest_range(t, p[i]); }
    assert forall|i: int, j: int| #![trigger q[i], q[j]] 0 <= i < j < n implies q[i] < q[j] by { assert(s[i] == t[p[i]]); assert(s[j] == t[p[j]]); dest_order(t, p[i], p[j]); }
    assert forall|k: int| #![trigger p[k]] 0 <= k < n implies dest(t, p[k]) == k by { count_up(q, n, k); count_down(q, n, k); assert(q[k] == dest(t, p[k])); }
    assert forall|i: int| #![trigger dest(t, i)] 0 <= i < n implies s[dest(t, i)] == t[i] && p[dest(t, i)] == i by { dest_range(t, i); let k = dest(t, i); assert(dest(t, p[k]) == k); if p[k] != i { dest_distinct(t, p[k], i); } }
}
pub open spec fn keys_distinct(s: Seq<(usize, F)>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> s[i].0 != s[j].0 }
pub open spec fn renamed(s: Seq<(usize, F)>, c: Seq<(usize, F)>, t: Seq<RangedConstraintRelation>, k: int) -> bool { c.len() == s.len() && forall|a: int| #![trigger c[a]] 0 <= a < s.len() ==> c[a].1 == s[a].1 && c[a].0 == (if a < k { dest(t, s[a].0 as int) } else { s[a].0 as int }) }
pub open spec fn relocated(s: Seq<(usize, F)>, r: Seq<(usize, F)>, t: Seq<RangedConstraintRelation>) -> bool { swf(r, t.len() as int) && forall|i: int| #![trigger dest(t, i)] 0 <= i < t.len() ==> sv(r, dest(t, i)) == sv(s, i) }
pub proof fn same_elements(a: Seq<(usize, F)>, b: Seq<(usize, F)>, e: (usize, F)) requires a.to_multiset() == b.to_multiset() ensures a.contains(e) == b.contains(e) { a.to_multiset_ensures(); b.to_multiset_ensures(); assert(a.contains(e) <==> a.to_multiset().count(e) > 0); assert(b.contains(e) <==> b.to_multiset().count(e) > 0); }
pub proof fn sorted_distinct(a: Seq<(usize, F)>, b: Seq<(usize, F)>, i: int) requires a.to_multiset() == b.to_multiset(), keys_distinct(a), 0 < i < b.len() ensures b[i - 1].0 != b[i].0 {
    if b[i - 1].0 == b[i].0 { let (x, y) = (b[i - 1], b[i]); same_elements(a, b, x); same_elements(a, b, y); assert(b.contains(b[i - 1])); assert(b.contains(b[i])); let p = choose|p: int| 0 <= p < a.len() && a[p] == x; let q = choose|q: int| 0 <= q < a.len() && a[q] == y;
        if p == q { a.to_multiset_ensures(); b.to_multiset_ensures(); assert(a.no_duplicates()) by { assert forall|u: int, v: int| 0 <= u < a.len() && 0 <= v < a.len() && u != v implies a[u] != a[v] by { if u < v { assert(a[u].0 != a[v].0); } else { assert(a[v].0 != a[u].0); } } }
            a.lemma_multiset_has_no_duplicates(); assert(x == y); let d = b.remove(i); assert(d.contains(x)) by { assert(d[i - 1] == x); } assert(b.to_multiset().remove(y) == d.to_multiset()); d.to_multiset_ensures(); assert(d.to_multiset().count(x) > 0); assert(b.to_multiset().count(x) >= 2); assert(a.to_multiset().count(x) <= 1); }
        else if p < q { assert(a[p].0 != a[q].0); } else { assert(a[q].0 != a[p].0); } } }
pub proof fn rises(b: Seq<(usize, F)>, i: int, j: int) requires wsorted(b), 0 <= i < j < b.len(), forall|k: int| 0 < k < b.len() ==> b[k - 1].0 != (#[trigger] b[k]).0 ensures b[i].0 < b[j].0 { assert(b[j - 1].0 != b[j].0); assert(b[j - 1].0 <= b[j].0); if i < j - 1 { assert(b[i].0 <= b[j - 1].0); } }
pub proof fn relocate(s: Seq<(usize, F)>, c: Seq<(usize, F)>, r: Seq<(usize, F)>, t: Seq<RangedConstraintRelation>)
    requires swf(s, t.len() as int), renamed(s, c, t, s.len() as int), r.to_multiset() == c.to_multiset(), wsorted(r)
    ensures relocated(s, r, t)
{
    let m = t.len() as int;
    assert forall|a: int| #![trigger c[a]] 0 <= a < c.len() implies c[a].1 == s[a].1 && c[a].0 == dest(t, s[a].0 as int) && s[a].0 < m && c[a].0 < m && c[a].1@ != 0real by { let z = s[a]; assert(Some(z) is Some); dest_range(t, s[a].0 as int); }
    assert(keys_distinct(c)) by { assert forall|a: int, b: int| #![trigger c[a], c[b]] 0 <= a < b < c.len() implies c[a].0 != c[b].0 by { assert(s[a].0 < s[b].0); dest_distinct(t, s[a].0 as int, s[b].0 as int); } }
    assert forall|k: int| 0 < k < r.len() implies r[k - 1].0 != (#[trigger] r[k]).0 by { sorted_distinct(c, r, k); }
    assert(ssorted(r)) by { assert forall|a: int, b: int| #![trigger r[a], r[b]] 0 <= a < b < r.len() implies r[a].0 < r[b].0 by { rises(r, a, b); } }
    assert forall|k: int| #![trigger r[k]] 0 <= k < r.len() implies r[k].0 < m && r[k].1@ != 0real by { same_elements(c, r, r[k]); assert(r.contains(r[k])); let a = choose|a: int| 0 <= a < c.len() && c[a] == r[k]; assert(c[a] == r[k]); }
    assert forall|i: int| #![trigger dest(t, i)] 0 <= i < m implies sv(r, dest(t, i)) == sv(s, i) by {
        let d = dest(t, i);
        if exists|a: int| 0 <= a < s.len() && (#[trigger] s[a]).0 == i { let a = choose|a: int| 0 <= a < s.len() && (#[trigger] s[a]).0 == i; sv_at(s, a); same_elements(c, r, c[a]); assert(c.contains(c[a])); let k = choose|k: int| 0 <= k < r.len() && r[k] == c[a]; assert(r[k] == c[a]); sv_at(r, k); }
        else { sv_absent(s, i); assert forall|k: int| 0 <= k < r.len() implies (#[trigger] r[k]).0 != d by { same_elements(c, r, r[k]); assert(r.contains(r[k])); let a = choose|a: int| 0 <= a < c.len() && c[a] == r[k]; assert(c[a] == r[k]); let z = s[a]; assert(z.0 != i); dest_distinct(t, z.0 as int, i); } sv_absent(r, d); }
    }
}
/// h is g with its rows in the order of their types
pub open spec fn ordered(g: GeneralForm, h: GeneralForm) -> bool {
    let t = g.constraint_types@;
    shaped(h) && h.objective == g.objective && h.fixed_cost == g.fixed_cost && h.variables == g.variables && h.original_variables == g.original_variables && h.from_active_to_original == g.from_active_to_original && h.constraint_types@.len() == t.len()
    && (exists|p: Seq<int>| stable_sort_of(t, h.constraint_types@, p))
    && (forall|i: int| #![trigger dest(t, i)] 0 <= i < t.len() ==> h.b.data@[dest(t, i)] == g.b.data@[i])
    && (forall|j: int| #![trigger h.constraints.data@[j]] 0 <= j < width(g) ==> relocated(g.constraints.data@[j]@, h.constraints.data@[j]@, t))
}
pub proof fn ordered_same(g: GeneralForm, h: GeneralForm, s: real) requires shaped(g), ordered(g, h) ensures same(g, s, h, s), ranges_ok(g) ==> ranges_ok(h), b_nonneg(g) ==> b_nonneg(h) {
    let t = g.constraint_types@; let u = h.constraint_types@; let n = width(g);
    let p = choose|p: Seq<int>| stable_sort_of(t, u, p); sorted_at(t, u, p);
    assert forall|k: int| #![trigger p[k]] 0 <= k < t.len() implies u[k] == t[p[k]] && h.b.data@[k] == g.b.data@[p[k]] by { assert(dest(t, p[k]) == k); }
    if ranges_ok(g) { assert forall|k: int| #![trigger u[k]] 0 <= k < u.len() implies (u[k] matches RangedConstraintRelation::Range(r) ==> 0real <= r@) by { let z = t[p[k]]; assert(Some(z) is Some); } }
    if b_nonneg(g) { assert forall|k: int| #![trigger h.b.data@[k]] 0 <= k < h.b.data@.len() implies 0real <= h.b.data@[k]@ by { let z = g.b.data@[p[k]]; assert(Some(z) is Some); } }
    assert forall|y: Seq<real>| rows_hold(g, y) == #[trigger] rows_hold(h, y) by {
        assert forall|i: int| 0 <= i < t.len() implies lhs(h, y, dest(t, i)) == #[trigger] lhs(g, y, i) by { let d = dest(t, i); let (a, b) = (|j: int| g.constraints.at(j, i) * y[j], |j: int| h.constraints.at(j, d) * y[j]); assert forall|j: int| 0 <= j < n implies #[trigger] a(j) == b(j) by { assert(relocated(g.constraints.data@[j]@, h.constraints.data@[j]@, t)); assert(h.constraints.at(j, d) == g.constraints.at(j, i)); } total_same(a, b, n); }
        if rows_hold(g, y) { assert forall|k: int| 0 <= k < u.len() implies holds(#[trigger] u[k], h.b.data@[k]@, lhs(h, y, k)) by { let i = p[k]; assert(dest(t, i) == k); assert(lhs(h, y, k) == lhs(g, y, i)); assert(holds(t[i], g.b.data@[i]@, lhs(g, y, i))); } }
        if rows_hold(h, y) { assert forall|i: int| 0 <= i < t.len() implies holds(#[trigger] t[i], g.b.data@[i]@, lhs(g, y, i)) by { let k = dest(t, i); dest_range(t, i); assert(u[k] == t[i]); assert(lhs(h, y, k) == lhs(g, y, i)); assert(holds(u[k], h.b.data@[k]@, lhs(h, y, k))); } }
    }
    unmoved_same(g, s, h, s);
}
pub proof fn ordered_groups(t: Seq<RangedConstraintRelation>, u: Seq<RangedConstraintRelation>, p: Seq<int>, c: Seq<usize>)
    requires stable_sort_of(t, u, p), c.len() == 4, forall|r: int| #![trigger c[r]] 0 <= r < 4 ==> c[r] == cnt(t, r, t.len() as int)
    ensures grouped(u, c)
{
    sorted_at(t, u, p); cnt_all(t, t.len() as int); let m = t.len() as int;
    assert(c[0] == cnt(t, 0, m) && c[1] == cnt(t, 1, m) && c[2] == cnt(t, 2, m) && c[3] == cnt(t, 3, m));
    assert forall|k: int| #![trigger u[k]] 0 <= k < u.len() implies place(u[k]) == (if k < c[0] { 0int } else if k < c[0] + c[1] { 1 } else if k < c[0] + c[1] + c[2] { 2 } else { 3 }) by { let i = p[k]; assert(dest(t, i) == k); dest_range(t, i); assert(u[k] == t[i]); let r = place(t[i]); assert(0 <= r <= 3); }
}
