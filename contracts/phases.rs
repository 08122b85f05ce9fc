// Unit: the two phases.
use vstd::prelude::*;
verus! {
//%%include prelude.rs
//%%include sparse_spec.rs
//%%include index_spec.rs
//%%include simplex_spec.rs
//%%include carry_spec.rs
//%%include tableau_spec.rs
//%%include phase_spec.rs
//%%use carry src/algorithm/two_phase/tableau/inverse_maintenance/carry/mod.rs Carry as InverseMaintainer::basis_column_index_for_row
//%%use tableau src/algorithm/two_phase/tableau/mod.rs Tableau::nr_rows
//%%use tableau src/algorithm/two_phase/tableau/mod.rs Tableau::nr_columns
//%%use tableau src/algorithm/two_phase/tableau/mod.rs Tableau::is_in_basis
//%%use tableau src/algorithm/two_phase/tableau/mod.rs Tableau::relative_cost
//%%use tableau src/algorithm/two_phase/tableau/mod.rs Tableau::generate_column
//%%use tableau src/algorithm/two_phase/tableau/mod.rs Tableau::generate_element
//%%use tableau src/algorithm/two_phase/tableau/mod.rs Tableau::bring_into_basis
//%%use tableau src/algorithm/two_phase/tableau/mod.rs Tableau::variable_value
//%%use tableau src/algorithm/two_phase/tableau/mod.rs Tableau::current_bfs
//%%use tableau src/algorithm/two_phase/tableau/mod.rs Tableau::objective_function_value
//%%use tableau src/algorithm/two_phase/tableau/mod.rs Tableau::select_primal_pivot_row
/// A pricing rule: the contract of the trait `PivotRule`, which unit pivot_rule proves of each rule.
#[verifier::external_body] pub struct Rule { x: u8 }
impl Rule {
    /// what it remembers fits the tableau
    pub uninterp spec fn fits(&self, t: &Tableau) -> bool;
    #[verifier::external_body] pub fn new(t: &Tableau) -> (r: Rule) requires t.holds() ensures r.fits(t) { unimplemented!() }
    #[verifier::external_body] pub fn select_primal_pivot_column(&mut self, t: &Tableau) -> (r: Option<(usize, F)>) requires t.holds(), old(self).fits(t) ensures final(self).fits(t), picks(t, r) { unimplemented!() }
    #[verifier::external_body] pub fn after_basis_update(&mut self, x: BasisChangeComputationInfo, t: &Tableau) requires t.holds(), exists|t0: Tableau| #[trigger] old(self).fits(&t0) && t0.kind == t.kind && change(x, t.p(), t0.basis(), t0.inv(), t.basis(), t.inv()) ensures final(self).fits(t) { unimplemented!() }
}
/// a basic column has reduced cost zero
pub proof fn basic_reduced(basis: Seq<usize>, v: M, p: Lp, i: int) requires p.wf(), inrange(basis, p), inverts(v, basis, p), 0 <= i < p.m ensures reduced(basis, v, p, basis[i] as int) == 0real {
    let s = (p.a)(basis[i] as int); let c = costs(basis, p); let e = scaled(c, dots(s, v)); assert(swf((p.a)(basis[i] as int), p.m)); fubini(s, p.m, p.m, c, v);
    assert forall|k: int| 0 <= k < p.m implies #[trigger] e(k) == c(k) * delta(k, i) by { assert(dot((p.a)(basis[i] as int), row(v, k)) == delta(k, i)); }
    assert forall|k: int| 0 <= k < p.m && k != i implies #[trigger] e(k) == 0real by { let y = c(k); assert(y * 0real == 0real) by(nonlinear_arith); }
    rsum_only(p.m, e, i); let y = c(i); assert(y * 1real == y) by(nonlinear_arith);
}
pub proof fn value_ext(x: V, y: V, p: Lp) requires forall|j: int| 0 <= j < p.n ==> #[trigger] x(j) == y(j) ensures value(x, p) == value(y, p), feasible(x, p) == feasible(y, p) {
    assert forall|j: int| 0 <= j < p.n implies #[trigger] scaled(x, p.c)(j) == scaled(y, p.c)(j) by { assert(x(j) == y(j)); } rsum_ext(p.n, scaled(x, p.c), scaled(y, p.c));
    assert forall|k: int| #![trigger sv(p.rhs, k)] 0 <= k < p.m implies rsum(p.n, scaled(x, coef(p, k))) == rsum(p.n, scaled(y, coef(p, k))) by { assert forall|j: int| 0 <= j < p.n implies #[trigger] scaled(x, coef(p, k))(j) == scaled(y, coef(p, k))(j) by { assert(x(j) == y(j)); } rsum_ext(p.n, scaled(x, coef(p, k)), scaled(y, coef(p, k))); }
    assert forall|j: int| 0 <= j < p.n implies x(j) == #[trigger] y(j) by { assert(x(j) == y(j)); }
}
/// nothing improves: the basic solution is best
pub proof fn finished(t: &Tableau) requires t.ok(), forall|j: int| #![trigger t.rc(j)] 0 <= j < t.n() && !t.basic(j) ==> t.rc(j) >= 0real ensures best_point(basic(t.b(), t.basis(), t.p()), t.p()), value(basic(t.b(), t.basis(), t.p()), t.p()) == objective(t.b(), t.basis(), t.p()) {
    let p = t.p(); basic_point(t.b(), t.basis(), t.inv(), p);
    assert forall|j: int| #![trigger reduced(t.basis(), t.inv(), p, j)] 0 <= j < p.n implies reduced(t.basis(), t.inv(), p, j) >= 0real by { assert(t.rc(j) == reduced(t.basis(), t.inv(), p, j)); if t.basic(j) { let i = choose|i: int| 0 <= i < t.basis().len() && #[trigger] t.basis()[i] == j; basic_reduced(t.basis(), t.inv(), p, i); } }
    assert forall|y: V| #![trigger feasible(y, p)] feasible(y, p) implies value(y, p) >= objective(t.b(), t.basis(), p) by { optimal(y, t.b(), t.basis(), t.inv(), p); }
}
pub proof fn step_ok(t: &Tableau, c: Sparse, q: int, r: int) requires t.ok(), shows(c, t, q), blocks(c, t, r) ensures stays(t, q, r) {
    let (w, d) = (svf(c.data@), dots((t.p().a)(q), t.inv()));
    assert forall|i: int| 0 <= i < t.p().m implies #[trigger] w(i) == d(i) by { assert(c.at(i) == w(i)); }
    assert forall|k: int| #![trigger d(k)] 0 <= k < t.p().m && d(k) > 0real implies num(t.b())(r) / d(r) <= num(t.b())(k) / d(k) by { assert(w(k) == d(k)); assert(w(r) == d(r)); }
    assert(w(r) == d(r));
    keeps_nonneg(num(t.b()), d, t.p().m, r);
}
/// the basic solution stays feasible when column q comes in for row r
pub open spec fn stays(t: &Tableau, q: int, r: int) -> bool { forall|i: int| 0 <= i < t.p().m ==> #[trigger] elim(num(t.b()), dots((t.p().a)(q), t.inv()), r, i) >= 0real }
pub proof fn no_end(t: &Tableau, c: Sparse, q: int) requires t.ok(), shows(c, t, q), unblocked(c, t), t.rc(q) < 0real ensures unbounded(t.p()) {
    assert forall|i: int| 0 <= i < t.p().m implies #[trigger] dots((t.p().a)(q), t.inv())(i) <= 0real by { assert(c.at(i) <= 0real); }
    ray(t.b(), t.basis(), t.inv(), t.p(), q);
}
/// what one round of the method may do
pub open spec fn round(t: &Tableau) -> bool {
    (forall|c: Sparse, q: int, r: int| #![trigger shows(c, t, q), blocks(c, t, r)] shows(c, t, q) && blocks(c, t, r) ==> stays(t, q, r))
    && (forall|c: Sparse, q: int| #![trigger shows(c, t, q)] shows(c, t, q) && unblocked(c, t) && t.rc(q) < 0real ==> unbounded(t.p()))
}
pub proof fn lemma_round(t: &Tableau) requires t.ok() ensures round(t) {
    assert forall|c: Sparse, q: int, r: int| #![trigger shows(c, t, q), blocks(c, t, r)] shows(c, t, q) && blocks(c, t, r) implies stays(t, q, r) by { step_ok(t, c, q, r); }
    assert forall|c: Sparse, q: int| #![trigger shows(c, t, q)] shows(c, t, q) && unblocked(c, t) && t.rc(q) < 0real implies unbounded(t.p()) by { no_end(t, c, q); }
}
//%%fn src/algorithm/two_phase/phase_two.rs primal
//% as phase_two
//% attr #[verifier::exec_allows_no_decreases_clause]
//% spec
    requires old(tableau).ok(), old(tableau).first() == 0
    ensures final(tableau).kind == old(tableau).kind, final(tableau).ok(),
      match r { OptimizationResult::FiniteOptimum(x) => x.wf() && x.len == old(tableau).n() && best_point(svf(x.data@), old(tableau).p()), OptimizationResult::Unbounded => unbounded(old(tableau).p()), OptimizationResult::Infeasible => false }
//% loop 0
    invariant tableau.ok(), tableau.kind == old(tableau).kind, tableau.first() == 0, rule.fits(tableau)
//% loop_start 0
    let ghost t0 = *tableau;
    proof {
        lemma_round(&t0);
        if forall|j: int| #![trigger t0.rc(j)] t0.cand(j) ==> t0.rc(j) >= 0real {
            finished(&t0); let y = basic(t0.b(), t0.basis(), t0.p());
            assert forall|x: Sparse| #![trigger x.wf()] (forall|j: int| #![trigger x.at(j)] 0 <= j < t0.n() ==> x.at(j) == y(j)) implies best_point(svf(x.data@), t0.p()) by {
                let f = svf(x.data@); assert forall|j: int| 0 <= j < t0.n() implies #[trigger] f(j) == y(j) by { assert(x.at(j) == y(j)); } value_ext(f, y, t0.p());
            }
        }
    }
//%%end
// ---- phase one ----
pub proof fn art_bounded(p: Lp, first: int) requires art_costs(p, first) ensures !unbounded(p), forall|x: V| #![trigger feasible(x, p)] feasible(x, p) ==> value(x, p) >= 0real {
    assert forall|x: V| #![trigger feasible(x, p)] feasible(x, p) implies value(x, p) >= 0real by {
        assert forall|j: int| 0 <= j < p.n implies #[trigger] scaled(x, p.c)(j) >= 0real by { let (a, c) = (x(j), (p.c)(j)); assert(a * c >= 0real) by(nonlinear_arith) requires a >= 0real, c == 1real || c == 0real; }
        rsum_nonneg(p.n, scaled(x, p.c));
    }
    if unbounded(p) { assert(below(p, 0real)); let x = choose|x: V| feasible(x, p) && #[trigger] value(x, p) < 0real; assert(feasible(x, p)); }
}
/// the artificial variables are zero when the objective is
pub proof fn art_zero(t: &Tableau) requires t.art(), objective(t.b(), t.basis(), t.p()) == 0real ensures zeros(t.b(), t.basis(), t.first()) {
    let (m, c, b) = (t.p().m, costs(t.basis(), t.p()), num(t.b())); let e = scaled(c, b);
    assert forall|i: int| #![trigger t.basis()[i]] 0 <= i < t.b().len() && t.basis()[i] < t.first() implies t.b()[i]@ == 0real by {
        let z: V = |k: int| if k == i { 0real } else { e(k) };
        assert forall|k: int| 0 <= k < m implies #[trigger] z(k) >= 0real by { assert(t.basis()[k] < t.n()); let (x, y) = (c(k), b(k)); assert(x == (t.p().c)(t.basis()[k] as int)); assert(x * y >= 0real) by(nonlinear_arith) requires y >= 0real, x == 1real || x == 0real; }
        rsum_nonneg(m, z); rsum_at(m, e, z, i); let y = b(i); assert(c(i) == (t.p().c)(t.basis()[i] as int)); assert(1real * y == y);
    }
}
//%%fn src/algorithm/two_phase/tableau/kind/artificial/mod.rs Tableau::has_artificial_in_basis
//% spec
    requires self.holds()
    ensures r == exists|i: int| 0 <= i < self.p().m && #[trigger] self.basis()[i] < self.first()
//% closure 0 |c0: &usize| -> (r: bool) ensures r == (*c0 < self.first())
//% start
    proof {
        axiom_hash_order(self.basis_columns); let s = hash_order(self.basis_columns);
        if exists|i: int| 0 <= i < self.p().m && #[trigger] self.basis()[i] < self.first() { let i = choose|i: int| 0 <= i < self.p().m && #[trigger] self.basis()[i] < self.first(); assert(is_basic(self.basis(), self.basis()[i] as int)); assert(self.basis_columns@.contains(self.basis()[i])); let k = choose|k: int| 0 <= k < s.len() && s[k] == self.basis()[i]; assert(refs(s)[k] == s[k]); }
        assert forall|k: int| #![trigger s[k]] 0 <= k < s.len() implies is_basic(self.basis(), s[k] as int) by { assert(s.contains(s[k])); assert(self.basis_columns@.contains(s[k])); }
    }
//%%end
/// the rows with artificial basis columns, in order
pub open spec fn art_rows(s: Seq<(usize, usize)>, basis: Seq<usize>, first: int) -> bool {
    ssorted(s) && (forall|k: int| #![trigger s[k]] 0 <= k < s.len() ==> s[k].0 < basis.len() && s[k].1 == basis[s[k].0 as int] && s[k].1 < first)
    && forall|i: int| #![trigger basis[i]] 0 <= i < basis.len() && basis[i] < first ==> exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).0 == i
}
//%%fn src/algorithm/two_phase/tableau/kind/artificial/mod.rs Tableau::artificial_basis_columns
//% spec
    requires self.holds()
    ensures art_rows(r@, self.basis(), self.first())
//% closure 0 |c0: usize| -> (r: (usize, usize)) requires c0 < self.p().m ensures r.0 == c0, r.1 == self.basis()[c0 as int]
//% closure 1 |c0: &(usize, usize)| -> (r: bool) ensures r == (c0.1 < self.first())
//% start
    proof {
        lemma_in_range(self.p().m);
        let m = self.p().m; let rg = VIntoIter::into_seq(0usize..(m as usize));
        assert forall|i: int| #![trigger self.basis()[i]] 0 <= i < m implies rg[i] == i by { }
    }
//%%end
/// row i is still to come in the list
pub open spec fn pending(s: Seq<(usize, usize)>, n: int, i: int) -> bool { exists|k: int| n <= k < s.len() && (#[trigger] s[k]).0 == i }
/// which artificial columns are left after the first n of the list
pub open spec fn left(s: Seq<(usize, usize)>, n: int, t: &Tableau, rows: Seq<usize>) -> bool {
    ssorted(s) && (forall|k: int| #![trigger s[k]] n <= k < s.len() ==> s[k].0 < t.p().m && t.basis()[s[k].0 as int] == s[k].1 && s[k].1 < t.first())
    && (forall|i: int| #![trigger t.basis()[i]] 0 <= i < t.p().m && t.basis()[i] < t.first() ==> pending(s, n, i) || listed(rows, i))
    && uniq(rows, t.p().m) && useless(rows, t) && (forall|x: int, k: int| #![trigger rows[x], s[k]] 0 <= x < rows.len() && n <= k < s.len() ==> rows[x] < s[k].0)
}
pub proof fn left_start(s: Seq<(usize, usize)>, t: &Tableau) requires t.holds(), art_rows(s, t.basis(), t.first()) ensures left(s, 0, t, Seq::empty()) {
    assert forall|i: int| #![trigger t.basis()[i]] 0 <= i < t.p().m && t.basis()[i] < t.first() implies pending(s, 0, i) by { let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).0 == i; assert(s[k].0 == i); }
}
pub open spec fn no_pivot(t: &Tableau, r: int) -> bool { forall|j: int| #![trigger dots((t.p().a)(j), t.inv())] t.cand(j) ==> dots((t.p().a)(j), t.inv())(r) == 0real }
pub proof fn left_push(s: Seq<(usize, usize)>, n: int, t: &Tableau, rows: Seq<usize>) requires t.holds(), left(s, n, t, rows), 0 <= n < s.len(), no_pivot(t, s[n].0 as int) ensures left(s, n + 1, t, rows.push(s[n].0)) {
    let r = s[n].0 as int; let w = rows.push(s[n].0); let p = t.p();
    assert forall|j: int| #![trigger (p.a)(j)] t.first() <= j < p.n implies dots((p.a)(j), t.inv())(r) == 0real by {
        if t.basic(j) { let i = choose|i: int| 0 <= i < t.basis().len() && #[trigger] t.basis()[i] == j; assert(dot((p.a)(t.basis()[i] as int), row(t.inv(), r)) == delta(r, i)); assert(t.basis()[r] < t.first()); assert(i != r); }
        else { assert(t.cand(j)); }
    }
    assert forall|x: int| #![trigger w[x]] 0 <= x < w.len() implies w[x] < p.m && t.basis()[w[x] as int] < t.first() && redundant(p, t.inv(), t.first(), w[x] as int) by { if x < rows.len() { assert(w[x] == rows[x]); } else { assert(w[x] == r); } }
    assert forall|i: int| #![trigger t.basis()[i]] 0 <= i < p.m && t.basis()[i] < t.first() implies pending(s, n + 1, i) || listed(w, i) by {
        if i == r { assert(w[rows.len() as int] == r); } else if pending(s, n, i) { let k = choose|k: int| n <= k < s.len() && (#[trigger] s[k]).0 == i; assert(k != n); } else { let k = choose|k: int| 0 <= k < rows.len() && #[trigger] rows[k] == i; assert(w[k] == i); }
    }
    assert forall|x: int, k: int| #![trigger w[x], s[k]] 0 <= x < w.len() && n + 1 <= k < s.len() implies w[x] < s[k].0 by { assert(s[n].0 < s[k].0); if x < rows.len() { assert(w[x] == rows[x]); } }
    assert forall|x: int, y: int| #![trigger w[x], w[y]] 0 <= x < y < w.len() implies w[x] < w[y] by { assert(w[x] == rows[x]); if y < rows.len() { assert(w[y] == rows[y]); } else { assert(rows[x] < s[n].0); } }
}
/// a pivot in a row with value zero changes no basic value
pub open spec fn swapped(t: &Tableau, u: &Tableau, r: int, q: int) -> bool {
    u.kind == t.kind && u.holds() && 0 <= r < t.p().m && t.first() <= q < t.n() && q <= usize::MAX && u.basis() == t.basis().update(r, q as usize)
    && dots((t.p().a)(q), t.inv())(r) != 0real && pivoted(t.inv(), u.inv(), dots((t.p().a)(q), t.inv()), r, t.p().m)
    && forall|i: int| #![trigger u.b()[i]] 0 <= i < t.p().m ==> u.b()[i]@ == elim(num(t.b()), dots((t.p().a)(q), t.inv()), r, i)
}
pub proof fn zero_pivot(t: &Tableau, u: &Tableau, r: int, q: int) requires t.art(), zeros(t.b(), t.basis(), t.first()), swapped(t, u, r, q), t.basis()[r] < t.first() ensures u.art(), zeros(u.b(), u.basis(), u.first()) {
    let w = dots((t.p().a)(q), t.inv()); let b = num(t.b());
    assert forall|i: int| #![trigger u.b()[i]] 0 <= i < t.p().m implies u.b()[i]@ == t.b()[i]@ by {
        assert(t.b()[r]@ == 0real); let (y, z) = (w(r), w(i)); assert(b(r) / y == 0real) by(nonlinear_arith) requires b(r) == 0real, y != 0real; assert(z * 0real == 0real) by(nonlinear_arith);
        assert(elim(b, w, r, i) == b(i));
    }
    assert forall|i: int| 0 <= i < t.p().m implies #[trigger] num(u.b())(i) >= 0real by { assert(u.b()[i]@ == t.b()[i]@); assert(num(t.b())(i) >= 0real); }
    assert forall|i: int| #![trigger u.basis()[i]] 0 <= i < t.p().m && u.basis()[i] < t.first() implies single((t.p().a)(u.basis()[i] as int), i) && u.b()[i]@ == 0real by { assert(i != r); assert(t.basis()[i] == u.basis()[i]); assert(u.b()[i]@ == t.b()[i]@); }
}
pub proof fn left_pivot(s: Seq<(usize, usize)>, n: int, t: &Tableau, u: &Tableau, rows: Seq<usize>, q: int) requires t.holds(), left(s, n, t, rows), 0 <= n < s.len(), swapped(t, u, s[n].0 as int, q) ensures left(s, n + 1, u, rows) {
    let r = s[n].0 as int; let p = t.p(); let w = dots((p.a)(q), t.inv());
    assert forall|k: int| #![trigger s[k]] n + 1 <= k < s.len() implies s[k].0 < p.m && u.basis()[s[k].0 as int] == s[k].1 && s[k].1 < t.first() by { assert(s[n].0 < s[k].0); }
    assert forall|i: int| #![trigger u.basis()[i]] 0 <= i < p.m && u.basis()[i] < t.first() implies pending(s, n + 1, i) || listed(rows, i) by {
        assert(i != r); assert(t.basis()[i] == u.basis()[i]); if pending(s, n, i) { let k = choose|k: int| n <= k < s.len() && (#[trigger] s[k]).0 == i; assert(k != n); }
    }
    assert forall|x: int| #![trigger rows[x]] 0 <= x < rows.len() implies rows[x] < p.m && u.basis()[rows[x] as int] < t.first() && redundant(p, u.inv(), t.first(), rows[x] as int) by {
        let y = rows[x] as int; assert(rows[x] < s[n].0);
        assert forall|j: int| #![trigger (p.a)(j)] t.first() <= j < p.n implies dots((p.a)(j), u.inv())(y) == 0real by {
            assert(swf((p.a)(j), p.m)); pivoted_dot((p.a)(j), t.inv(), u.inv(), w, r, p.m, y);
            let d = dots((p.a)(j), t.inv()); assert(d(y) == 0real); assert((p.a)(q) == (p.a)(q)); assert(w(y) == 0real); let z = d(r) / w(r); assert(0real * z == 0real) by(nonlinear_arith);
        }
    }
}
/// only debug assertions
#[verifier::external_body] pub fn debug_assert_in_basic_feasible_solution_state(tableau: &Tableau) {}
//%%fn src/algorithm/two_phase/phase_one.rs remove_artificial_basis_variables
//% spec
    requires old(tableau).art(), zeros(old(tableau).b(), old(tableau).basis(), old(tableau).first())
    ensures final(tableau).kind == old(tableau).kind, final(tableau).art(), zeros(final(tableau).b(), final(tableau).basis(), final(tableau).first()),
      uniq(r@, final(tableau).p().m), useless(r@, final(tableau)), forall|i: int| #![trigger final(tableau).basis()[i]] 0 <= i < final(tableau).p().m && final(tableau).basis()[i] < final(tableau).first() ==> listed(r@, i)
//% closure 0 |c0: &usize| -> (r: bool) requires tableau.holds() ensures r == !tableau.basic(*c0 as int)
//% closure 1 |c0: usize| -> (r: (usize, F)) requires tableau.holds(), c0 < tableau.n() ensures r.0 == c0, r.1@ == tableau.rc(c0 as int)
//% closure 2 |c0: &(usize, F)| -> (r: bool) ensures r == (c0.1@ == 0real)
//% closure 3 |c0: &(usize, F)| -> (r: bool) requires tableau.holds(), c0.0 < tableau.n(), pivot_row < tableau.p().m ensures r ==> dots((tableau.p().a)(c0.0 as int), tableau.inv())(pivot_row as int) != 0real
//% closure 4 |c0: F| -> (r: bool) ensures r == (c0@ > 0real)
//% closure 5 |c0: &(usize, F)| -> (r: bool) requires tableau.holds(), c0.0 < tableau.n(), pivot_row < tableau.p().m ensures r == (dots((tableau.p().a)(c0.0 as int), tableau.inv())(pivot_row as int) != 0real)
//% closure 6 |c0: F| -> (r: bool) ensures r == (c0@ != 0real)
//% before_loop 0
    proof { left_start(artificial_variable_indices@, tableau); }
//% loop 0
    invariant ix0 <= it0@.len(), tableau.kind == old(tableau).kind, tableau.art(), zeros(tableau.b(), tableau.basis(), tableau.first()), left(it0@, ix0 as int, tableau, rows_to_remove@)
    decreases it0@.len() - ix0
//% loop_start 0
    let ghost t0 = *tableau; let ghost rows0 = rows_to_remove@; let ghost s = it0@; let ghost rg = VIntoIter::into_seq((t0.first() as usize)..(t0.n() as usize));
    proof {
        let r = s[ix0 - 1].0 as int; different(t0.inv(), t0.basis(), t0.p()); basic_at(num(t0.b()), t0.basis(), t0.p().m, r);
        assert(t0.basis()[r] == artificial); assert(t0.basis()[r] < t0.n()); assert(t0.b()[r]@ == 0real);
        assert forall|j: int| #![trigger t0.cand(j)] t0.cand(j) implies rg[j - t0.first()] == j by { }
    }
//% after "let column_and_cost"
    proof {
        if column_and_cost is None { assert forall|j: int| #![trigger dots((t0.p().a)(j), t0.inv())] t0.cand(j) implies dots((t0.p().a)(j), t0.inv())(pivot_row as int) == 0real by { assert(rg[j - t0.first()] == j); } assert(no_pivot(&t0, pivot_row as int)); }
        else { assert(t0.cand((column_and_cost->0).0 as int)); }
    }
//% loop_end 0
    proof {
        if column_and_cost is None { left_push(s, ix0 - 1, &t0, rows0); }
        else { let q = (column_and_cost->0).0 as int; assert(swapped(&t0, tableau, pivot_row as int, q)); zero_pivot(&t0, tableau, pivot_row as int, q); left_pivot(s, ix0 - 1, &t0, tableau, rows0, q); }
    }
//%%end
//%%fn src/algorithm/two_phase/tableau/kind/artificial/mod.rs Tableau::into_basis
//% spec
    ensures r.0 == self.inverse_maintainer, r.1 == self.first(), r.2 == self.basis_columns
//%%end
/// nothing improves, and the objective is not zero
pub proof fn art_stuck(t: &Tableau) requires t.art(), objective(t.b(), t.basis(), t.p()) != 0real, forall|j: int| #![trigger t.rc(j)] t.cand(j) ==> t.rc(j) >= 0real ensures no_start(t.p(), t.first()) {
    let p = t.p(); basic_point(t.b(), t.basis(), t.inv(), p); art_bounded(p, t.first()); assert(feasible(basic(t.b(), t.basis(), p), p));
    let o = objective(t.b(), t.basis(), p); assert(o > 0real);
    assert forall|y: V| #![trigger feasible(y, p)] feasible(y, p) && absent(y, t.first()) implies false by {
        value_by_basis(y, t.b(), t.basis(), t.inv(), p);
        let f = scaled(y, reduced_of(t.basis(), t.inv(), p));
        assert forall|j: int| 0 <= j < p.n implies #[trigger] f(j) >= 0real by {
            let (a, d) = (y(j), reduced(t.basis(), t.inv(), p, j)); assert(d == t.rc(j));
            if t.basic(j) { let i = choose|i: int| 0 <= i < t.basis().len() && #[trigger] t.basis()[i] == j; basic_reduced(t.basis(), t.inv(), p, i); }
            if j >= t.first() { assert(t.basic(j) || t.cand(j)); assert(a * d >= 0real) by(nonlinear_arith) requires a >= 0real, d >= 0real; } else { assert(a * d == 0real) by(nonlinear_arith) requires a == 0real; }
        }
        rsum_nonneg(p.n, f);
        let g = scaled(y, p.c);
        assert forall|j: int| 0 <= j < p.n implies #[trigger] g(j) == 0real by { let (a, d) = (y(j), (p.c)(j)); assert(a * d == 0real) by(nonlinear_arith) requires a == 0real || d == 0real; }
        rsum_zero(p.n, g);
    }
}
//%%fn src/algorithm/two_phase/phase_one.rs primal
//% as phase_one
//% attr #[verifier::loop_isolation(false)]
//% attr #[verifier::exec_allows_no_decreases_clause]
//% spec
    requires tableau.art()
    ensures match r { RankedFeasibilityResult::Infeasible => no_start(tableau.p(), tableau.first()),
      RankedFeasibilityResult::Feasible { rank, nr_artificial_variables, inverse_maintainer, basis } => nr_artificial_variables == tableau.first() && found(&Tableau { kind: tableau.kind, inverse_maintainer, basis_columns: basis }, rank) }
//% before_loop 0
    let ghost start = tableau;
//% loop 0
    invariant tableau.art(), tableau.kind == start.kind, rule.fits(&tableau)
//% loop_start 0
    let ghost t0 = tableau;
    proof {
        lemma_round(&t0); art_bounded(t0.p(), t0.first());
        if objective(t0.b(), t0.basis(), t0.p()) == 0real { art_zero(&t0); }
        else if forall|j: int| #![trigger t0.rc(j)] t0.cand(j) ==> t0.rc(j) >= 0real { art_stuck(&t0); }
    }
//% before "let (im"
    let ghost t1 = tableau;
    proof { assert(t1.art()); assert(zeros(t1.b(), t1.basis(), t1.first())); assert(found(&t1, rank)); }
//% after "let (im"
    proof { assert(t1 == Tableau { kind: start.kind, inverse_maintainer: im, basis_columns: basis }); }
//%%end
}
fn main() {}
