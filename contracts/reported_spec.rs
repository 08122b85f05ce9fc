// ---- the value of every original variable ----
pub open spec fn point(x: Sparse) -> Seq<real> { Seq::new(x.len as nat, |j: int| x.at(j)) }
/// the values of the active variables, read back, give this one
pub open spec fn direct(g: GeneralForm, z: Sparse, o: int) -> real { match g.original_variables@[o].1 { OriginalVariable::Active(j) => z.at(j as int), OriginalVariable::ActiveFree(p, q) => z.at(p as int) - z.at(q as int), OriginalVariable::Removed(_) => 0real } }
/// a rank that falls from each removed variable to those it is a function of
pub open spec fn orders(g: GeneralForm, r: Seq<nat>) -> bool { r.len() == g.original_variables@.len() && forall|o: int| #![trigger g.original_variables@[o]] 0 <= o < r.len() ==> below(g.original_variables@[o].1, r, r[o]) }
pub open spec fn below(v: OriginalVariable, r: Seq<nat>, m: nat) -> bool { v matches OriginalVariable::Removed(RemovedVariable::FunctionOfOthers { constant, coefficients }) ==> forall|k: int| #![trigger coefficients@[k]] 0 <= k < coefficients@.len() ==> coefficients@[k].0 < r.len() && r[coefficients@[k].0 as int] < m }
/// no removed variable depends on itself
pub open spec fn acyclic(g: GeneralForm) -> bool { exists|r: Seq<nat>| orders(g, r) }
pub open spec fn order(g: GeneralForm) -> Seq<nat> { choose|r: Seq<nat>| orders(g, r) }
pub proof fn order_orders(g: GeneralForm) requires acyclic(g) ensures orders(g, order(g)) {}
pub open spec fn given(s: Seq<Option<F>>) -> spec_fn(int) -> real { |i: int| (s[i]->0)@ }
pub open spec fn known(c: Seq<(usize, F)>, s: Seq<Option<F>>, n: int) -> bool { forall|k: int| #![trigger c[k]] 0 <= k < n ==> s[c[k].0 as int] is Some }
/// x is the value of variable o, given those it depends on
pub open spec fn right(g: GeneralForm, z: Sparse, s: Seq<Option<F>>, o: int, x: real) -> bool {
    match g.original_variables@[o].1 {
        OriginalVariable::Removed(RemovedVariable::Solved(v)) => x == v@,
        OriginalVariable::Removed(RemovedVariable::FunctionOfOthers { constant, coefficients }) => known(coefficients@, s, coefficients@.len() as int) && x == constant@ - dot(coefficients@, given(s)),
        _ => x == direct(g, z, o),
    }
}
/// what is there is right
pub open spec fn settled(g: GeneralForm, z: Sparse, s: Seq<Option<F>>) -> bool { s.len() == g.original_variables@.len() && forall|o: int| #![trigger s[o]] 0 <= o < s.len() && s[o] is Some ==> right(g, z, s, o, (s[o]->0)@) }
pub open spec fn extends(a: Seq<Option<F>>, b: Seq<Option<F>>) -> bool { a.len() == b.len() && forall|o: int| #![trigger b[o]] 0 <= o < a.len() && a[o] is Some ==> b[o] == a[o] }
pub proof fn dot_given(c: Seq<(usize, F)>, a: Seq<Option<F>>, b: Seq<Option<F>>) requires extends(a, b), known(c, a, c.len() as int), forall|k: int| #![trigger c[k]] 0 <= k < c.len() ==> c[k].0 < a.len() ensures dot(c, given(b)) == dot(c, given(a)), known(c, b, c.len() as int) decreases c.len() {
    assert forall|k: int| #![trigger c[k]] 0 <= k < c.len() implies b[c[k].0 as int] is Some by { let z = b[c[k].0 as int]; assert(a[c[k].0 as int] is Some); }
    if c.len() > 0 { let d = c.drop_last(); assert forall|k: int| #![trigger d[k]] 0 <= k < d.len() implies a[d[k].0 as int] is Some && d[k].0 < a.len() by { assert(d[k] == c[k]); } dot_given(d, a, b); let (x, y) = (c[c.len() - 1].0 as int, c.last()); assert(b[x] == a[x]); assert(given(b)(x) == given(a)(x)); }
}
pub proof fn dot_more(c: Seq<(usize, F)>, n: int, a: Seq<Option<F>>, b: Seq<Option<F>>) requires extends(a, b), 0 <= n < c.len(), known(c, a, n), forall|k: int| #![trigger c[k]] 0 <= k < c.len() ==> c[k].0 < a.len(), b[c[n].0 as int] is Some ensures dot(c.subrange(0, n + 1), given(b)) == dot(c.subrange(0, n), given(a)) + c[n].1@ * (b[c[n].0 as int]->0)@, known(c, b, n + 1) {
    let d = c.subrange(0, n);
    assert forall|k: int| #![trigger d[k]] 0 <= k < d.len() implies a[d[k].0 as int] is Some && d[k].0 < a.len() by { assert(d[k] == c[k]); }
    dot_given(d, a, b); dot_step(c, n, given(b));
    assert forall|k: int| #![trigger c[k]] 0 <= k < n + 1 implies b[c[k].0 as int] is Some by { if k < n { assert(d[k] == c[k]); let i = c[k].0 as int; assert(a[i] is Some); assert(b[i] == a[i]); } }
}
/// one more value, right given those before
pub proof fn settled_one(g: GeneralForm, z: Sparse, a: Seq<Option<F>>, b: Seq<Option<F>>, v: int)
    requires acyclic(g), settled(g, z, a), 0 <= v < a.len(), a[v] is None, b[v] is Some, b == a.update(v, b[v]), right(g, z, a, v, (b[v]->0)@)
    ensures settled(g, z, b), extends(a, b)
{
    order_orders(g);
    assert forall|o: int| #![trigger b[o]] 0 <= o < b.len() && b[o] is Some implies right(g, z, b, o, (b[o]->0)@) by {
        if o != v { assert(a[o] is Some); } assert(right(g, z, a, o, (b[o]->0)@));
        match g.original_variables@[o].1 { OriginalVariable::Removed(RemovedVariable::FunctionOfOthers { constant, coefficients }) => { assert(below(g.original_variables@[o].1, order(g), order(g)[o])); dot_given(coefficients@, a, b); } _ => {} }
    }
}
/// the names and values reported for the point y
pub open spec fn told(g: GeneralForm, y: Seq<real>, s: Seq<(Str, F)>) -> bool { s.len() == g.original_variables@.len() && forall|o: int| #![trigger s[o]] 0 <= o < s.len() ==> s[o].0 == g.original_variables@[o].0 && match g.original_variables@[o].1 {
    OriginalVariable::Removed(RemovedVariable::Solved(v)) => s[o].1@ == v@,
    OriginalVariable::Removed(RemovedVariable::FunctionOfOthers { constant, coefficients }) => s[o].1@ == constant@ - dot(coefficients@, |i: int| s[i].1@),
    _ => s[o].1@ == value(g, o, y) } }
pub open spec fn costs(g: GeneralForm) -> spec_fn(int) -> real { |j: int| g.variables@[j].cost@ }
pub proof fn dot_total(s: Seq<(usize, F)>, d: spec_fn(int) -> real, n: int) requires bounded(s, n), 0 <= n ensures dot(s, d) == total(|j: int| d(j) * sv(s, j), n) decreases s.len() {
    let f = |j: int| d(j) * sv(s, j);
    if s.len() == 0 { assert forall|j: int| 0 <= j < n implies #[trigger] f(j) == 0real by { let x = d(j); assert(x * 0real == 0real) by(nonlinear_arith); } total_zero(f, n); }
    else {
        let (t, e) = (s.drop_last(), s.last()); let a = e.0 as int;
        assert(s[s.len() - 1] == e); assert forall|k: int| #![trigger t[k]] 0 <= k < t.len() implies t[k].0 < n by { assert(t[k] == s[k]); }
        dot_total(t, d, n);
        let (g, h) = (|j: int| d(j) * sv(t, j), |j: int| if j == a { d(a) * e.1@ } else { 0real });
        assert forall|j: int| 0 <= j < n implies #[trigger] f(j) == g(j) + 1real * h(j) by { let (x, y, z) = (d(j), sv(t, j), e.1@); assert(x * (y + z) == x * y + x * z) by(nonlinear_arith); }
        total_mix(f, g, 1real, h, n); total_single(h, a, n); let (x, z) = (d(a), e.1@); assert(x * z == z * x) by(nonlinear_arith);
    }
}
pub proof fn total_single(h: spec_fn(int) -> real, a: int, n: int) requires 0 <= a < n, forall|j: int| 0 <= j < n && j != a ==> #[trigger] h(j) == 0real ensures total(h, n) == h(a) decreases n { if n - 1 == a { total_zero(h, n - 1); } else { total_single(h, a, n - 1); assert(h(n - 1) == 0real); } }
pub proof fn cost_total(g: GeneralForm, z: Sparse) requires z.wf(), z.len == width(g) ensures forall|t: Seq<F>| terms(t, z.data@, costs(g)) ==> #[trigger] ssum(t) == worth(g, 1real, point(z)) - g.fixed_cost@ {
    let n = width(g); let y = point(z); sums(z.data@, costs(g)); dot_total(z.data@, costs(g), n);
    let (f, h) = (|j: int| costs(g)(j) * sv(z.data@, j), |j: int| g.variables@[j].cost@ * y[j]);
    assert forall|j: int| 0 <= j < n implies #[trigger] f(j) == h(j) by { assert(y[j] == z.at(j)); }
    total_same(f, h, n);
}
/// all values there: what is told
pub proof fn tells(g: GeneralForm, z0: Sparse, z: Sparse, ns: Seq<Option<F>>)
    requires shaped(g), z0.wf(), z0.len == width(g), z.len == width(g), forall|j: int| #![trigger z.at(j)] 0 <= j < width(g) ==> z.at(j) == unshifted(g.variables@[j], z0.at(j)), settled(g, z, ns), acyclic(g), forall|o: int| #![trigger ns[o]] 0 <= o < ns.len() ==> ns[o] is Some
    ensures forall|s: Seq<(Str, F)>| tells_all(g, ns, s) ==> #[trigger] told(g, point(z0), s)
{
    order_orders(g); let y = point(z0);
    assert forall|s: Seq<(Str, F)>| tells_all(g, ns, s) implies told(g, y, s) by {
        assert forall|o: int| #![trigger s[o]] 0 <= o < s.len() implies s[o].0 == g.original_variables@[o].0 && match g.original_variables@[o].1 {
            OriginalVariable::Removed(RemovedVariable::Solved(v)) => s[o].1@ == v@,
            OriginalVariable::Removed(RemovedVariable::FunctionOfOthers { constant, coefficients }) => s[o].1@ == constant@ - dot(coefficients@, |i: int| s[i].1@),
            _ => s[o].1@ == value(g, o, y) } by {
            assert(ns[o] is Some); assert(right(g, z, ns, o, (ns[o]->0)@)); assert(below(g.original_variables@[o].1, order(g), order(g)[o]));
            match g.original_variables@[o].1 {
                OriginalVariable::Removed(RemovedVariable::FunctionOfOthers { constant, coefficients }) => { let c = coefficients@; let f = |i: int| s[i].1@; assert forall|k: int| #![trigger c[k]] 0 <= k < c.len() implies f(c[k].0 as int) == given(ns)(c[k].0 as int) by { let i = c[k].0 as int; assert(s[i].1 == ns[i]->0); } dot_same(c, f, given(ns)); }
                OriginalVariable::Removed(_) => {}
                OriginalVariable::Active(j) => { assert(z.at(j as int) == unshifted(g.variables@[j as int], z0.at(j as int))); assert(y[j as int] == z0.at(j as int)); }
                OriginalVariable::ActiveFree(p, q) => { assert(z.at(p as int) == unshifted(g.variables@[p as int], z0.at(p as int))); assert(z.at(q as int) == unshifted(g.variables@[q as int], z0.at(q as int))); assert(y[p as int] == z0.at(p as int)); assert(y[q as int] == z0.at(q as int)); }
            }
        }
    }
}
pub proof fn dot_same(c: Seq<(usize, F)>, f: spec_fn(int) -> real, h: spec_fn(int) -> real) requires forall|k: int| #![trigger c[k]] 0 <= k < c.len() ==> f(c[k].0 as int) == h(c[k].0 as int) ensures dot(c, f) == dot(c, h) decreases c.len() { if c.len() > 0 { let d = c.drop_last(); assert forall|k: int| #![trigger d[k]] 0 <= k < d.len() implies f(d[k].0 as int) == h(d[k].0 as int) by { assert(d[k] == c[k]); } dot_same(d, f, h); let x = c[c.len() - 1]; assert(Some(x) is Some); } }
pub open spec fn tells_all(g: GeneralForm, ns: Seq<Option<F>>, s: Seq<(Str, F)>) -> bool { s.len() == ns.len() && s.len() == g.original_variables@.len() && forall|o: int| #![trigger s[o]] 0 <= o < s.len() ==> s[o] == (g.original_variables@[o].0, ns[o]->0) }
// ---- values known before solving ----
/// the value of a variable that is solved, or has been computed
pub open spec fn has(g: GeneralForm, s: Seq<Option<F>>, i: int) -> bool { match g.original_variables@[i].1 { OriginalVariable::Removed(RemovedVariable::Solved(_)) => true, OriginalVariable::Removed(_) => s[i] is Some, _ => false } }
pub open spec fn solved(g: GeneralForm, s: Seq<Option<F>>) -> spec_fn(int) -> real { |i: int| match g.original_variables@[i].1 { OriginalVariable::Removed(RemovedVariable::Solved(v)) => v@, _ => (s[i]->0)@ } }
pub open spec fn has_all(g: GeneralForm, c: Seq<(usize, F)>, s: Seq<Option<F>>, n: int) -> bool { forall|k: int| #![trigger c[k]] 0 <= k < n ==> has(g, s, c[k].0 as int) }
pub open spec fn follows(g: GeneralForm, s: Seq<Option<F>>, o: int, x: real) -> bool { match g.original_variables@[o].1 { OriginalVariable::Removed(RemovedVariable::FunctionOfOthers { constant, coefficients }) => has_all(g, coefficients@, s, coefficients@.len() as int) && x == constant@ - dot(coefficients@, solved(g, s)), _ => false } }
pub open spec fn computed(g: GeneralForm, s: Seq<Option<F>>) -> bool { s.len() == g.original_variables@.len() && forall|o: int| #![trigger s[o]] 0 <= o < s.len() && s[o] is Some ==> follows(g, s, o, (s[o]->0)@) }
pub proof fn dot_solved(g: GeneralForm, c: Seq<(usize, F)>, a: Seq<Option<F>>, b: Seq<Option<F>>) requires extends(a, b), has_all(g, c, a, c.len() as int), forall|k: int| #![trigger c[k]] 0 <= k < c.len() ==> c[k].0 < a.len() ensures dot(c, solved(g, b)) == dot(c, solved(g, a)), has_all(g, c, b, c.len() as int) {
    assert forall|k: int| #![trigger c[k]] 0 <= k < c.len() implies solved(g, b)(c[k].0 as int) == solved(g, a)(c[k].0 as int) && has(g, b, c[k].0 as int) by { let i = c[k].0 as int; assert(has(g, a, i)); if a[i] is Some { assert(b[i] == a[i]); } }
    dot_same(c, solved(g, b), solved(g, a));
}
pub proof fn dot_solved_more(g: GeneralForm, c: Seq<(usize, F)>, n: int, a: Seq<Option<F>>, b: Seq<Option<F>>) requires extends(a, b), 0 <= n < c.len(), has_all(g, c, a, n), forall|k: int| #![trigger c[k]] 0 <= k < c.len() ==> c[k].0 < a.len(), has(g, b, c[n].0 as int) ensures dot(c.subrange(0, n + 1), solved(g, b)) == dot(c.subrange(0, n), solved(g, a)) + c[n].1@ * solved(g, b)(c[n].0 as int), has_all(g, c, b, n + 1) {
    let d = c.subrange(0, n);
    assert forall|k: int| #![trigger d[k]] 0 <= k < d.len() implies has(g, a, d[k].0 as int) && d[k].0 < a.len() by { assert(d[k] == c[k]); }
    dot_solved(g, d, a, b); dot_step(c, n, solved(g, b));
    assert forall|k: int| #![trigger c[k]] 0 <= k < n + 1 implies has(g, b, c[k].0 as int) by { if k < n { assert(d[k] == c[k]); assert(has(g, b, d[k].0 as int)); } }
}
pub proof fn computed_one(g: GeneralForm, a: Seq<Option<F>>, b: Seq<Option<F>>, v: int)
    requires acyclic(g), computed(g, a), 0 <= v < a.len(), a[v] is None, b == a.update(v, b[v]), b[v] is Some ==> follows(g, a, v, (b[v]->0)@)
    ensures computed(g, b), extends(a, b)
{
    order_orders(g);
    assert forall|o: int| #![trigger b[o]] 0 <= o < b.len() && b[o] is Some implies follows(g, b, o, (b[o]->0)@) by {
        if o != v { assert(a[o] is Some); } assert(follows(g, a, o, (b[o]->0)@));
        match g.original_variables@[o].1 { OriginalVariable::Removed(RemovedVariable::FunctionOfOthers { constant, coefficients }) => { assert(below(g.original_variables@[o].1, order(g), order(g)[o])); dot_solved(g, coefficients@, a, b); } _ => {} }
    }
}
/// nothing but the definitions of removed variables changes: those that follow from solved ones are solved
pub open spec fn resolved(g: GeneralForm, h: GeneralForm) -> bool {
    apart(g, h) && h.original_variables@.len() == g.original_variables@.len()
    && forall|o: int| #![trigger h.original_variables@[o]] 0 <= o < g.original_variables@.len() ==> h.original_variables@[o].0 == g.original_variables@[o].0 && (h.original_variables@[o].1 == g.original_variables@[o].1 || now_solved(g, h, o))
}
pub open spec fn is_solved(h: GeneralForm, i: int) -> bool { h.original_variables@[i].1 matches OriginalVariable::Removed(RemovedVariable::Solved(_)) }
pub open spec fn solution_of(h: GeneralForm, i: int) -> real { match h.original_variables@[i].1 { OriginalVariable::Removed(RemovedVariable::Solved(v)) => v@, _ => 0real } }
pub open spec fn now_solved(g: GeneralForm, h: GeneralForm, o: int) -> bool { is_solved(h, o) && match g.original_variables@[o].1 { OriginalVariable::Removed(RemovedVariable::FunctionOfOthers { constant, coefficients }) => (forall|k: int| #![trigger coefficients@[k]] 0 <= k < coefficients@.len() ==> is_solved(h, coefficients@[k].0 as int)) && solution_of(h, o) == constant@ - dot(coefficients@, |i: int| solution_of(h, i)), _ => false } }
/// the computed values written down
pub proof fn written(g: GeneralForm, h: GeneralForm, s: Seq<Option<F>>)
    requires acyclic(g), computed(g, s), h.original_variables@.len() == g.original_variables@.len(), forall|o: int| #![trigger h.original_variables@[o]] 0 <= o < s.len() ==> h.original_variables@[o].0 == g.original_variables@[o].0 && (if s[o] is Some { h.original_variables@[o].1 == OriginalVariable::Removed(RemovedVariable::Solved(s[o]->0)) } else { h.original_variables@[o].1 == g.original_variables@[o].1 })
    ensures forall|o: int| #![trigger h.original_variables@[o]] 0 <= o < s.len() ==> h.original_variables@[o].1 == g.original_variables@[o].1 || now_solved(g, h, o)
{
    order_orders(g);
    assert forall|i: int| 0 <= i < s.len() && #[trigger] has(g, s, i) implies is_solved(h, i) && solution_of(h, i) == solved(g, s)(i) by { let z = h.original_variables@[i]; if s[i] is Some { assert(follows(g, s, i, (s[i]->0)@)); } }
    assert forall|o: int| #![trigger h.original_variables@[o]] 0 <= o < s.len() && s[o] is Some implies now_solved(g, h, o) by {
        assert(follows(g, s, o, (s[o]->0)@)); assert(below(g.original_variables@[o].1, order(g), order(g)[o]));
        match g.original_variables@[o].1 { OriginalVariable::Removed(RemovedVariable::FunctionOfOthers { constant, coefficients }) => {
            let c = coefficients@; let f = |i: int| solution_of(h, i);
            assert forall|k: int| #![trigger c[k]] 0 <= k < c.len() implies is_solved(h, c[k].0 as int) && f(c[k].0 as int) == solved(g, s)(c[k].0 as int) by { assert(has(g, s, c[k].0 as int)); }
            dot_same(c, f, solved(g, s)); assert(has(g, s, o)); } _ => {} }
    }
}
/// equal but for the original variables
pub open spec fn apart(g: GeneralForm, h: GeneralForm) -> bool { h.objective == g.objective && h.fixed_cost == g.fixed_cost && h.constraints == g.constraints && h.constraint_types == g.constraint_types && h.b == g.b && h.variables == g.variables && h.from_active_to_original == g.from_active_to_original }
