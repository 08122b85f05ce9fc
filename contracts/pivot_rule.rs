// Unit: pricing rules.
use vstd::prelude::*;
verus! {
//%%include prelude.rs
//%%include sparse_spec.rs
//%%include index_spec.rs
//%%include simplex_spec.rs
//%%include carry_spec.rs
//%%include tableau_spec.rs
//%%types Range<usize>=core::ops::Range<usize>
//%%use vector src/data/linear_algebra/vector/sparse.rs Sparse::squared_norm
//%%use vector src/data/linear_algebra/vector/sparse.rs Sparse as Vector::sparse_inner_product
//%%use tableau src/algorithm/two_phase/tableau/mod.rs Tableau::nr_columns
//%%use tableau src/algorithm/two_phase/tableau/mod.rs Tableau::is_in_basis
//%%use tableau src/algorithm/two_phase/tableau/mod.rs Tableau::original_column
//%%use tableau src/algorithm/two_phase/tableau/mod.rs Tableau::relative_cost
//%%use tableau src/algorithm/two_phase/tableau/mod.rs Tableau::generate_column
//%%item src/algorithm/two_phase/strategy/pivot_rule.rs FirstProfitable
//%%end
//%%item src/algorithm/two_phase/strategy/pivot_rule.rs FirstProfitableWithMemory
//%%end
//%%item src/algorithm/two_phase/strategy/pivot_rule.rs SteepestDescentAlongVariable
//%%end
//%%item src/algorithm/two_phase/strategy/pivot_rule.rs SteepestDescentAlongObjective
//% types F=F
//%%end
//%%fn src/algorithm/two_phase/strategy/pivot_rule.rs FirstProfitable as PivotRule::new
//% types Self=FirstProfitable
//% in impl FirstProfitable
//%%end
/// every index of a range is in its sequence
pub open spec fn listed(t: &Tableau, a: int, b: int) -> bool { let s = VIntoIter::into_seq(core::ops::Range { start: a as usize, end: b as usize }); forall|j: int| #![trigger t.rc(j)] a <= j < b ==> 0 <= j - a < s.len() && s[j - a] == j as usize }
pub proof fn lemma_listed(t: &Tableau, a: int, b: int) requires 0 <= a, b <= usize::MAX ensures listed(t, a, b) {}
//%%fn src/algorithm/two_phase/strategy/pivot_rule.rs FirstProfitable as PivotRule::select_primal_pivot_column
//% in impl FirstProfitable
//% spec
    requires tableau.holds()
    ensures picks(tableau, r)
//% closure 0 |c0: &usize| -> (r: bool) requires tableau.holds(), *c0 < tableau.n() ensures r == !tableau.basic(*c0 as int)
//% closure 1 |c0: usize| -> (r: (usize, F)) requires tableau.holds(), c0 < tableau.n() ensures r.0 == c0 && r.1@ == tableau.rc(c0 as int)
//% closure 2 |c0: &(usize, F)| -> (r: bool) ensures r == (c0.1@ < 0real)
//% start
    proof { lemma_listed(tableau, tableau.first() as int, tableau.n() as int); }
//%%end
/// the first improving column of a..b
pub open spec fn found(t: &Tableau, a: int, b: int, r: Option<(usize, F)>) -> bool {
    (r is Some ==> a <= (r->0).0 < b && !t.basic((r->0).0 as int) && t.rc((r->0).0 as int) < 0real && (r->0).1@ == t.rc((r->0).0 as int))
    && (r is None ==> forall|j: int| #![trigger t.rc(j)] a <= j < b && !t.basic(j) ==> t.rc(j) >= 0real)
}
pub open spec fn ranges(t: &Tableau) -> bool { forall|g: core::ops::Range<usize>, j: int| #![trigger VIntoIter::into_seq(g), t.rc(j)] g.start <= j < g.end ==> 0 <= j - g.start < VIntoIter::into_seq(g).len() && VIntoIter::into_seq(g)[j - g.start] == j as usize }
pub proof fn lemma_ranges(t: &Tableau) ensures ranges(t) {}
//%%fn src/algorithm/two_phase/strategy/pivot_rule.rs FirstProfitableWithMemory as PivotRule::new
//% types Self=FirstProfitableWithMemory
//% in impl FirstProfitableWithMemory
//% spec
    ensures r.last_selected is None
//%%end
//%%fn src/algorithm/two_phase/strategy/pivot_rule.rs FirstProfitableWithMemory as PivotRule::select_primal_pivot_column
//% in impl FirstProfitableWithMemory
//% spec
    requires tableau.holds(), old(self).last_selected is Some ==> tableau.first() <= old(self).last_selected->0 < tableau.n()
    ensures picks(tableau, r), final(self).last_selected is Some == r is Some, r is Some ==> final(self).last_selected->0 == (r->0).0
//% closure 0 |c0: core::ops::Range<usize>| -> (r: Option<(usize, F)>) requires tableau.holds(), 0 <= tableau.first() <= c0.start, c0.end <= tableau.n() ensures found(tableau, c0.start as int, c0.end as int, r)
//% closure 1 |c0: &usize| -> (r: bool) requires tableau.holds(), *c0 < tableau.n() ensures r == !tableau.basic(*c0 as int)
//% closure 2 |c0: usize| -> (r: (usize, F)) requires tableau.holds(), c0 < tableau.n() ensures r.0 == c0 && r.1@ == tableau.rc(c0 as int)
//% closure 3 |c0: &(usize, F)| -> (r: bool) ensures r == (c0.1@ < 0real)
//% closure 4 || -> (r: Option<(usize, F)>) requires tableau.holds(), 0 <= tableau.first() ensures found(tableau, tableau.first() as int, tableau.n() as int, r)
//% closure 5 |c0: usize| -> (r: Option<(usize, F)>) requires tableau.holds(), 0 <= tableau.first() <= c0 < tableau.n() ensures picks(tableau, r)
//% closure 6 || -> (r: Option<(usize, F)>) requires tableau.holds(), 0 <= tableau.first() <= last < tableau.n() ensures found(tableau, tableau.first() as int, last + 1, r)
//% closure 7 |c0: &(usize, F)| -> (r: usize) ensures r == c0.0
//% start
    proof { lemma_ranges(tableau); }
//%%end
/// the smallest reduced cost of the first n
pub open spec fn best(t: &Tableau, s: Seq<(usize, F)>, n: int, b: Option<(usize, F)>) -> bool {
    (b is None ==> n == 0) && (b is Some ==> t.improving((b->0).0 as int) && (b->0).1@ == t.rc((b->0).0 as int) && forall|k: int| #![trigger s[k]] 0 <= k < n ==> (b->0).1@ <= s[k].1@)
}
/// exactly the improving columns, with their reduced costs
pub open spec fn all_improving(t: &Tableau, s: Seq<(usize, F)>) -> bool {
    (forall|k: int| #![trigger s[k]] 0 <= k < s.len() ==> t.improving(s[k].0 as int) && s[k].1@ == t.rc(s[k].0 as int))
    && forall|j: int| #![trigger t.rc(j)] t.improving(j) ==> exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).0 == j
}
//%%fn src/algorithm/two_phase/strategy/pivot_rule.rs SteepestDescentAlongVariable as PivotRule::new
//% types Self=SteepestDescentAlongVariable
//% in impl SteepestDescentAlongVariable
//%%end
//%%fn src/algorithm/two_phase/strategy/pivot_rule.rs SteepestDescentAlongVariable as PivotRule::select_primal_pivot_column
//% in impl SteepestDescentAlongVariable
//% spec
    requires tableau.holds()
    ensures picks(tableau, r), r is Some ==> forall|j: int| #![trigger tableau.rc(j)] tableau.cand(j) ==> (r->0).1@ <= tableau.rc(j)
//% closure 0 |c0: &usize| -> (r: bool) requires tableau.holds(), *c0 < tableau.n() ensures r == !tableau.basic(*c0 as int)
//% closure 1 |c0: usize| -> (r: (usize, F)) requires tableau.holds(), c0 < tableau.n() ensures r.0 == c0 && r.1@ == tableau.rc(c0 as int)
//% closure 2 |c0: &(usize, F)| -> (r: bool) ensures r == (c0.1@ < 0real)
//% start
    proof { lemma_ranges(tableau); }
//% loop 0
    invariant tableau.holds(), ix0 <= it0@.len(), all_improving(tableau, it0@), best(tableau, it0@, ix0 as int, smallest)
    decreases it0@.len() - ix0
//%%end
pub proof fn own_norm(x: Sparse, m: int, d: V) requires x.wf(), x.len == m, forall|i: int| #![trigger x.at(i)] 0 <= i < m ==> x.at(i) == d(i) ensures dot(x.data@, |i: int| x.at(i)) == sqnorm(m, d) {
    let f: V = |i: int| x.at(i); dot_rsum(x.data@, m, f); assert forall|i: int| 0 <= i < m implies #[trigger] term(x.data@, f)(i) == scaled(d, d)(i) by { assert(x.at(i) == d(i)); } rsum_ext(m, term(x.data@, f), scaled(d, d));
}
//%%fn src/algorithm/two_phase/strategy/pivot_rule.rs initial_gamma
//% types IM::F=F
//% spec
    requires tableau.holds(), j < tableau.n()
    ensures r@ == tableau.gam(j as int)
//% start
    proof {
        let (m, d) = (tableau.p().m, dots((tableau.p().a)(j as int), tableau.inv()));
        assert forall|x: Sparse| #![trigger x.wf()] x.wf() && x.len == m && (forall|i: int| #![trigger x.at(i)] 0 <= i < m ==> x.at(i) == d(i)) implies dot(x.data@, |i: int| x.at(i)) == sqnorm(m, d) by { own_norm(x, m, d); }
    }
//%%end
//%%fn src/algorithm/two_phase/strategy/pivot_rule.rs SteepestDescentAlongObjective as PivotRule::new
//% types Self=SteepestDescentAlongObjective; F=F
//% in impl SteepestDescentAlongObjective
//% spec
    requires tableau.holds()
    ensures r.wf(tableau)
//% closure 0 |c0: usize| -> (r: Option<F>) requires tableau.holds(), c0 < tableau.n() ensures r is Some == tableau.cand(c0 as int), r is Some ==> r->0@ == tableau.gam(c0 as int)
//%%end
impl SteepestDescentAlongObjective {
    /// gamma holds the squared norms of the edges of the columns outside the basis
    pub open spec fn wf(&self, t: &Tableau) -> bool { norms(self.gamma@, t.p(), t.basis(), t.inv(), t.first()) }
}
//%%fn src/algorithm/two_phase/strategy/pivot_rule.rs SteepestDescentAlongObjective as PivotRule::select_primal_pivot_column
//% in impl SteepestDescentAlongObjective
//% spec
    requires tableau.holds(), old(self).wf(tableau)
    ensures final(self).wf(tableau), picks(tableau, r), r is Some ==> forall|j: int| #![trigger tableau.rc(j)] tableau.improving(j) ==> tableau.rc(j) * tableau.rc(j) / tableau.gam(j) <= (r->0).1@ * (r->0).1@ / tableau.gam((r->0).0 as int)
//% closure 0 |c0: &usize| -> (r: bool) requires tableau.holds(), *c0 < tableau.n() ensures r == !tableau.basic(*c0 as int)
//% closure 1 |c0: usize| -> (r: (usize, F)) requires tableau.holds(), c0 < tableau.n() ensures r.0 == c0 && r.1@ == tableau.rc(c0 as int)
//% closure 2 |c0: &(usize, F)| -> (r: bool) ensures r == (c0.1@ < 0real)
//% closure 3 |c0: &(usize, F)| -> (r: F) requires tableau.holds(), self.wf(tableau), tableau.cand(c0.0 as int), tableau.gam(c0.0 as int) >= 1real ensures r@ == c0.1@ * c0.1@ / tableau.gam(c0.0 as int)
//% start
    proof { lemma_ranges(tableau); assert forall|j: int| #![trigger tableau.gam(j)] tableau.gam(j) >= 1real by { sqnorm_nonneg(tableau.p().m, dots((tableau.p().a)(j), tableau.inv())); } }
//%%end
pub open spec fn renewed(x: Option<F>, y: Option<F>, t: &Tableau, j: int) -> bool { (x is Some == y is Some) && (x is Some ==> x->0@ == t.gam(j)) }
pub proof fn own_dot(x: Sparse, s: Seq<(usize, F)>, m: int, d: V) requires bounded(s, m), x.wf(), x.len == m, forall|k: int| #![trigger x.at(k)] 0 <= k < m ==> x.at(k) == d(k) ensures dot(s, |i: int| x.at(i)) == dot(s, d) {
    let f: V = |i: int| x.at(i); assert forall|k: int| 0 <= k < m implies #[trigger] f(k) == d(k) by { assert(x.at(k) == d(k)); } dot_ext(s, m, f, d);
}
/// a basis column with respect to its basis
pub proof fn unit_norm(o: Seq<usize>, v: M, p: Lp, r: int, w: V) requires inrange(o, p), inverts(v, o, p), 0 <= r < p.m ensures sqnorm(p.m, dots((p.a)(o[r] as int), v)) == 1real, rsum(p.m, scaled(w, dots((p.a)(o[r] as int), v))) == w(r), dots((p.a)(o[r] as int), v)(r) == 1real {
    let d = dots((p.a)(o[r] as int), v);
    assert forall|i: int| 0 <= i < p.m implies #[trigger] d(i) == delta(i, r) by { assert(dot((p.a)(o[r] as int), row(v, i)) == delta(i, r)); }
    assert forall|i: int| 0 <= i < p.m && i != r implies #[trigger] scaled(d, d)(i) == 0real by { assert(d(i) == 0real); }
    assert forall|i: int| 0 <= i < p.m && i != r implies #[trigger] scaled(w, d)(i) == 0real by { assert(d(i) == 0real); let x = w(i); assert(x * 0real == 0real) by(nonlinear_arith); }
    assert(d(r) == 1real); rsum_only(p.m, scaled(d, d), r); rsum_only(p.m, scaled(w, d), r); let x = w(r); assert(x * 1real == x);
}
pub proof fn swapped(o: Seq<usize>, r: int, q: usize, j: int) requires 0 <= r < o.len(), distinct(o), !is_basic(o, q as int) ensures is_basic(o.update(r, q), j) == ((is_basic(o, j) && j != o[r]) || j == q) {
    let n = o.update(r, q);
    if is_basic(n, j) { let i = choose|i: int| 0 <= i < n.len() && #[trigger] n[i] == j; if i != r { assert(o[i] == j); if i < r { assert(o[i] != o[r]); } else { assert(o[r] != o[i]); } } }
    if j == q { assert(n[r] == j); }
    if is_basic(o, j) && j != o[r] { let i = choose|i: int| 0 <= i < o.len() && #[trigger] o[i] == j; assert(n[i] == j); }
}
//%%fn src/algorithm/two_phase/strategy/pivot_rule.rs SteepestDescentAlongObjective as PivotRule::after_basis_update
//% in impl SteepestDescentAlongObjective
//% types IM::F=F
//% attr #[verifier::loop_isolation(false)]
//% spec
    requires tableau.holds(), ready(old(self).gamma@, info, tableau)
    ensures final(self).wf(tableau)
//% start
    let ghost (p, u, first) = (tableau.p(), tableau.inv(), tableau.first());
    let ghost (o, v) = choose|o: Seq<usize>, v: M| #![trigger change(info, p, o, v, tableau.basis(), u)] change(info, p, o, v, tableau.basis(), u) && norms(self.gamma@, p, o, v, first);
    let ghost (m, q, r0) = (p.m, info.pivot_column_index as int, info.pivot_row_index as int);
    let ghost w = dots((p.a)(q), v);
    let ghost g0 = self.gamma@;
    proof { own_norm(info.column_before_change, m, w); assert(info.column_before_change.at(r0) == w(r0)); sqnorm_nonneg(m, w); let x = w(r0); assert(x * x != 0real) by(nonlinear_arith) requires x != 0real; assert(o[r0] < p.n); assert(tableau.basis()[r0] == q); }
//% before_loop 0
    let ghost g1 = self.gamma@;
    proof { assert(g1 == g0.update(q, None)); }
//% loop 0
    invariant en0 == p.n, ix0 <= en0, first <= ix0, self.gamma@.len() == p.n, gamma_q@ == 1real + sqnorm(m, w),
      forall|j: int| #![trigger self.gamma@[j]] first <= j < ix0 ==> renewed(self.gamma@[j], g1[j], tableau, j),
      forall|j: int| #![trigger self.gamma@[j]] ix0 <= j < p.n ==> self.gamma@[j] == g1[j]
    decreases en0 - ix0
//% loop_start 0
    let ghost gb = *maybe_gamma;
    let ghost jj = ix0 - 1;
    let ghost s = (p.a)(jj);
    proof { assert(swf((p.a)(jj), m)); norm_changed(s, v, u, w, r0, m); assert(gb == g1[jj]); own_dot(info.basis_inverse_row, s, m, row(u, r0)); own_dot(info.work_vector, s, m, cv(m, w, v)); fubini(s, m, m, w, v);
        let (a, b, c) = (dot(s, row(u, r0)), rsum(m, scaled(w, dots(s, v))), 1real + sqnorm(m, w));
        assert(a == 0real ==> a * b == 0real && a * a == 0real && a * a * c == 0real && (a * a) * c == 0real) by(nonlinear_arith); assert(b == 0real ==> a * b == 0real) by(nonlinear_arith); }
//% loop 1
    invariant ix1 <= 2, en1 == 2, gb is Some, gamma@ == gb->0@ - (if ix1 == 0 { 0real } else if ix1 == 1 { first1 } else { first1 + first1 })
    decreases en1 - ix1
//% before_loop 1
    let ghost first1 = first@;
//% after_loop 0
    let ghost g2 = self.gamma@;
//% end
    proof {
        let l = o[r0] as int; let s = (p.a)(l); let g3 = self.gamma@; assert(swf((p.a)(l), m)); norm_changed(s, v, u, w, r0, m);
        unit_norm(o, v, p, r0, w);
        let (x, y) = (w(r0), 1real + sqnorm(m, w)); let a = 1real / x;
        assert(a * x == 1real && y / (x * x) == a * a * y) by(nonlinear_arith) requires a == 1real / x, x != 0real;
        different(v, o, p);
        assert forall|j: int| #![trigger g3[j]] first <= j < p.n implies (g3[j] is Some == !is_basic(tableau.basis(), j)) && (g3[j] is Some ==> g3[j]->0@ == tableau.gam(j)) by {
            swapped(o, r0, q as usize, j);
            if j != l { assert(g3[j] == g2[j]); assert(renewed(g2[j], g1[j], tableau, j)); assert(g0[j] is Some == !is_basic(o, j)); if j != q { assert(g1[j] == g0[j]); } }
        }
    }
//%%end
}
fn main() {}
