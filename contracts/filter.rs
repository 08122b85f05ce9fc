// Unit: leaving rows of a problem out.
use vstd::prelude::*;
verus! {
//%%include prelude.rs
//%%include sparse_spec.rs
//%%include index_spec.rs
//%%include index_sparse.rs
//%%include simplex_spec.rs
//%%types F=F; C=F; G=F; Self::Cost<'_>=F; SparseTuple=(usize, F); <MP::ColumnasColumn>::F=F; <ColasColumn>::F=F; Sparse=Sparse; SparseVector=Sparse; SparseVector<G,G>=Sparse; Dense=Dense; DenseVector=Dense; DenseVector<Self::Rhs>=Dense; MP=MP; RemoveRows=RemoveRows<'_>; RemoveRows<'provider,MP>=RemoveRows<'provider>; Self::Column=Col; Column=Col; BoundDirection=BoundDirection; MP::Column=Col; Self::Filtered<'_>=RemoveRows<'_>
//%%item src/data/linear_algebra/vector/sparse.rs Sparse
//%%end
//%%item src/data/linear_algebra/vector/dense.rs Dense
//%%end
//%%item src/data/linear_program/elements.rs BoundDirection
//%%end
//%%item src/algorithm/two_phase/matrix_provider/filter/generic_wrapper.rs RemoveRows
//%%end
pub open spec fn thinned(a: Seq<(usize, F)>, b: Seq<(usize, F)>, idx: Seq<usize>, n: int) -> bool { forall|i: int| #![trigger sv(a, i)] 0 <= i < n && !idx.contains(i as usize) ==> sv(b, i - rank(idx, i)) == sv(a, i) }
pub open spec fn single(s: Seq<(usize, F)>, i: int) -> bool { s.len() == 1 && s[0].0 == i && s[0].1@ == 1real }
//%%include filter_spec.rs
//%%use vector src/data/linear_algebra/vector/dense.rs Dense as Vector::remove_indices
pub type Cost = F;
/// a column of the problem
#[verifier::external_body] pub struct Col { x: u8 }
impl Col {
    pub uninterp spec fn es(&self) -> Seq<(usize, F)>;
    /// these rows can be taken out of this column
    pub uninterp spec fn can(&self, rows: Seq<usize>) -> bool;
    /// the contract of the trait `IntoFilteredColumn`
    #[verifier::external_body] pub fn into_filtered(self, to_remove: &[usize]) -> (r: Col) requires self.can(to_remove@) ensures filtered(self.es(), r.es(), to_remove@) { unimplemented!() }
}
/// entries at removed rows gone, the other rows moved up
pub open spec fn filtered<T>(a: Seq<(usize, T)>, b: Seq<(usize, T)>, idx: Seq<usize>) -> bool { exists|m: Seq<int>| #[trigger] spremoved(a, b, m, idx) }
/// the problem rows are left out of: the contract of the trait `MatrixProvider`
#[verifier::external_body] pub struct MP { x: u8 }
impl MP {
    pub uninterp spec fn lp(&self) -> Lp;
    /// how many rows come before those of the bounds
    pub uninterp spec fn nc(&self) -> int;
    pub uninterp spec fn bound_row(&self, j: int, d: BoundDirection) -> Option<usize>;
    pub uninterp spec fn removable(&self, rows: Seq<usize>) -> bool;
    pub uninterp spec fn pivots(&self) -> Seq<(usize, usize)>;
    pub uninterp spec fn recon(&self, s: Sparse) -> Sparse;
    pub uninterp spec fn feas(&self, j: int, v: F) -> bool;
    pub uninterp spec fn close(&self, j: int, v: F) -> (Option<F>, Option<F>);
    pub open spec fn ok(&self) -> bool { self.lp().wf() && self.lp().n >= 0 && 0 <= self.nc() <= self.lp().m && 2 * self.lp().m <= usize::MAX && unit_pivots(self.lp(), self.pivots()) && forall|j: int, d: BoundDirection| #![trigger self.bound_row(j, d)] 0 <= j < self.lp().n && self.bound_row(j, d) is Some ==> self.nc() <= self.bound_row(j, d)->0 < self.lp().m }
    #[verifier::external_body] pub fn column(&self, j: usize) -> (r: Col) requires j < self.lp().n ensures r.es() == (self.lp().a)(j as int), forall|rows: Seq<usize>| #![trigger self.removable(rows)] self.removable(rows) ==> r.can(rows) { unimplemented!() }
    #[verifier::external_body] pub fn cost_value(&self, j: usize) -> (r: F) requires j < self.lp().n ensures r@ == (self.lp().c)(j as int) { unimplemented!() }
    #[verifier::external_body] pub fn right_hand_side(&self) -> (r: Dense) ensures r.data@.len() == self.lp().m, forall|i: int| #![trigger r.data@[i]] 0 <= i < self.lp().m ==> r.data@[i]@ == sv(self.lp().rhs, i) { unimplemented!() }
    #[verifier::external_body] pub fn bound_row_index(&self, j: usize, d: BoundDirection) -> (r: Option<usize>) requires j < self.lp().n ensures r == self.bound_row(j as int, d) { unimplemented!() }
    #[verifier::external_body] pub fn nr_constraints(&self) -> (r: usize) ensures r == self.nc() { unimplemented!() }
    #[verifier::external_body] pub fn nr_variable_bounds(&self) -> (r: usize) ensures r == self.lp().m - self.nc() { unimplemented!() }
    #[verifier::external_body] pub fn nr_rows(&self) -> (r: usize) ensures r == self.lp().m { unimplemented!() }
    #[verifier::external_body] pub fn nr_columns(&self) -> (r: usize) ensures r == self.lp().n { unimplemented!() }
    #[verifier::external_body] pub fn reconstruct_solution(&self, column_values: Sparse) -> (r: Sparse) ensures r == self.recon(column_values) { unimplemented!() }
    #[verifier::external_body] pub fn pivot_element_indices(&self) -> (r: Vec<(usize, usize)>) ensures r@ == self.pivots() { unimplemented!() }
    #[verifier::external_body] pub fn is_feasible(&self, j: usize, value: F) -> (r: bool) requires j < self.lp().n ensures r == self.feas(j as int, value) { unimplemented!() }
    #[verifier::external_body] pub fn closest_feasible(&self, j: usize, value: F) -> (r: (Option<F>, Option<F>)) requires j < self.lp().n ensures r == self.close(j as int, value) { unimplemented!() }
}
impl<'a> RemoveRows<'a> {
    /// the rows to leave out are constraint rows, in order
    pub open spec fn ok(&self) -> bool { self.provider.ok() && uniq(self.rows_to_skip@, self.provider.nc()) && self.provider.removable(self.rows_to_skip@) }
    pub open spec fn m(&self) -> int { self.provider.lp().m - self.rows_to_skip@.len() }
}
/// the i-th of the rows that stay
pub open spec fn stays(idx: Seq<usize>, i: int, r: int) -> bool { 0 <= r && !idx.contains(r as usize) && r - rank(idx, r) == i }
/// b has the rows of a and r
pub open spec fn with_row(a: Seq<usize>, b: Seq<usize>, r: usize) -> bool { incr(b) && b.len() == a.len() + 1 && forall|x: usize| #![trigger b.contains(x)] b.contains(x) == (a.contains(x) || x == r) }
pub open spec fn incr(idx: Seq<usize>) -> bool { forall|a: int, b: int| #![trigger idx[a], idx[b]] 0 <= a < b < idx.len() ==> idx[a] < idx[b] }
/// t of the rows left out come before the i-th that stays
proof fn underlying(idx: Seq<usize>, i: int, t: int)
    requires incr(idx), 0 <= i, 0 <= t <= idx.len(), i + t <= usize::MAX, t > 0 ==> idx[t - 1] - (t - 1) <= i, t < idx.len() ==> idx[t] - t > i
    ensures stays(idx, i, i + t)
{
    let r = i + t; rank_pos(idx, r); let p = rank(idx, r);
    if p > t { assert(idx[t] < r); }
    if p < t { assert(idx[p] >= r); inc_gap(idx, p, t - 1); }
    if idx.contains(r as usize) { let q = choose|q: int| 0 <= q < idx.len() && idx[q] == r as usize; if q > t { assert(idx[t] < idx[q]); } assert(idx[q] >= r); }
}
proof fn fits(idx: Seq<usize>, n: int) requires uniq(idx, n) ensures idx.len() <= n || idx.len() == 0 { if idx.len() > 0 { inc_gap(idx, 0, idx.len() - 1); assert(idx[idx.len() - 1] < n); } }
proof fn one_stays(idx: Seq<usize>, i: int, a: int, b: int) requires incr(idx), stays(idx, i, a), stays(idx, i, b), a <= usize::MAX, b <= usize::MAX ensures a == b { if a < b { kept_lt(idx, a, b); } if b < a { kept_lt(idx, b, a); } }
proof fn row_added(a: Seq<usize>, b: Seq<usize>, k: int, r: usize)
    requires incr(a), 0 <= k <= a.len(), b == a.insert(k, r), forall|x: int| #![trigger a[x]] 0 <= x < k ==> a[x] < r, forall|x: int| #![trigger a[x]] k <= x < a.len() ==> a[x] > r
    ensures with_row(a, b, r)
{
    assert forall|x: int, y: int| #![trigger b[x], b[y]] 0 <= x < y < b.len() implies b[x] < b[y] by { if x < k { assert(b[x] == a[x]); } else if x > k { assert(b[x] == a[x - 1]); } if y < k { assert(b[y] == a[y]); } else if y > k { assert(b[y] == a[y - 1]); } }
    assert forall|x: usize| #![trigger b.contains(x)] b.contains(x) == (a.contains(x) || x == r) by {
        if a.contains(x) { let q = choose|q: int| 0 <= q < a.len() && a[q] == x; if q < k { assert(b[q] == x); } else { assert(b[q + 1] == x); } }
        assert(b[k] == r);
        if b.contains(x) { let q = choose|q: int| 0 <= q < b.len() && b[q] == x; if q < k { assert(a[q] == x); } else if q > k { assert(a[q - 1] == x); } }
    }
}
proof fn pivots_left(p: Lp, q: Lp, idx: Seq<usize>, t: Seq<(usize, usize)>, u: Seq<(usize, usize)>)
    requires p.wf(), uniq(idx, p.m), unit_pivots(p, t), left_out(p, q, idx), filtered(t, u, idx)
    ensures unit_pivots(q, u)
{
    let m = choose|m: Seq<int>| #[trigger] spremoved(t, u, m, idx);
    spremoved_sorted(t, u, m, idx); spremoved_bounded(t, u, m, idx, p.m);
    assert forall|k: int| #![trigger u[k]] 0 <= k < u.len() implies u[k].0 < q.m && u[k].1 < q.n && single((q.a)(u[k].1 as int), u[k].0 as int) by {
        let (r, j) = (t[m[k]].0 as int, t[m[k]].1 as int); let a = (p.a)(j); let b = (q.a)(j);
        assert(u[k].1 == j); assert(single(a, r)); let n = choose|n: Seq<int>| #[trigger] spremoved(a, b, n, idx);
        assert(!idx.contains(a[0].0)); let z = choose|z: int| 0 <= z < n.len() && #[trigger] n[z] == 0;
        assert forall|y: int| 0 <= y < n.len() implies #[trigger] n[y] == 0 by { let x = b[y]; }
        if n.len() > 1 { assert(n[0] < n[1]); }
        spremoved_sorted(a, b, n, idx); assert(b[0].0 == r - rank(idx, r));
    }
}
//%%fn src/algorithm/two_phase/matrix_provider/filter/generic_wrapper.rs RemoveRows as Filtered::filtered_rows
//% spec
    ensures r@ == self.rows_to_skip@
//%%end
//%%fn src/algorithm/two_phase/matrix_provider/filter/generic_wrapper.rs MP as ToFiltered::to_filtered
//% spec
    ensures *r.provider == *self, r.rows_to_skip@ == rows_to_skip@
//%%end
//%%fn src/algorithm/two_phase/matrix_provider/filter/generic_wrapper.rs RemoveRows::new
//% spec
    ensures r.provider == provider, r.rows_to_skip@ == rows_to_skip@
//%%end
//%%fn src/algorithm/two_phase/matrix_provider/filter/generic_wrapper.rs RemoveRows::get_underlying_row_index
//% spec
    requires self.ok(), i < self.m()
    ensures r < self.provider.lp().m, stays(self.rows_to_skip@, i as int, r as int)
//% start
    proof { fits(self.rows_to_skip@, self.provider.nc()); assert forall|r: usize| #![trigger stays(self.rows_to_skip@, i as int, r as int)] stays(self.rows_to_skip@, i as int, r as int) implies r < self.provider.lp().m by { let idx = self.rows_to_skip@; rank_pos(idx, r as int); assert(r == i + rank(idx, r as int)); } }
//%%end
//%%fn src/algorithm/two_phase/matrix_provider/filter/generic_wrapper.rs RemoveRows::delete_row
//% spec
    requires old(self).ok(), i < old(self).m()
    ensures final(self).provider == old(self).provider, forall|r: usize| #![trigger stays(old(self).rows_to_skip@, i as int, r as int)] stays(old(self).rows_to_skip@, i as int, r as int) ==> with_row(old(self).rows_to_skip@, final(self).rows_to_skip@, r)
//% end
    proof { let a = old(self).rows_to_skip@; row_added(a, self.rows_to_skip@, insertion_index as int, in_original_problem); assert forall|r: usize| #![trigger stays(a, i as int, r as int)] stays(a, i as int, r as int) implies r == in_original_problem by { one_stays(a, i as int, r as int, in_original_problem as int); } }
//%%end
//%%fn src/algorithm/two_phase/matrix_provider/filter/generic_wrapper.rs RemoveRows::nr_constraints_deleted
//% spec
    ensures r == self.rows_to_skip@.len()
//%%end
//%%fn src/algorithm/two_phase/matrix_provider/filter/generic_wrapper.rs RemoveRows::get_underlying_index
//% spec
    requires incr(skip_indices_array@), i + skip_indices_array@.len() <= usize::MAX, 2 * skip_indices_array@.len() <= usize::MAX
    ensures stays(skip_indices_array@, i as int, r as int)
//% loop 0
    invariant idx == skip_indices_array@, incr(idx), 2 * idx.len() <= usize::MAX, i + idx.len() <= usize::MAX, 0 <= lower_bound < upper_bound <= skip_indices_array@.len(), skip_indices_array@[lower_bound as int] - lower_bound <= i, upper_bound < skip_indices_array@.len() ==> skip_indices_array@[upper_bound as int] - upper_bound > i
    decreases upper_bound - lower_bound
//% start
    let ghost idx = skip_indices_array@;
    proof {
        assert forall|t: int| #![trigger stays(idx, i as int, i + t)] 0 <= t <= idx.len() && (t > 0 ==> idx[t - 1] - (t - 1) <= i) && (t < idx.len() ==> idx[t] - t > i) implies stays(idx, i as int, i + t) by { underlying(idx, i as int, t); }
        assert(stays(idx, i as int, i + 0) || (idx.len() > 0 && idx[0] <= i)); assert(idx.len() == 1 ==> stays(idx, i as int, i + 1) || idx[0] > i);
    }
//% loop_start 0
    proof { inc_gap(idx, 0, lower_bound as int); if upper_bound < idx.len() { inc_gap(idx, 0, upper_bound as int); } assert forall|q: int| #![trigger idx[q]] 0 <= q < idx.len() implies idx[q] >= q by { inc_gap(idx, 0, q); } }
//% after_loop 0
    proof { underlying(idx, i as int, upper_bound as int); }
//%%end
//%%fn src/algorithm/two_phase/matrix_provider/filter/generic_wrapper.rs RemoveRows::delete_index
//% spec
    requires incr(old(skip_indices_array)@), i + old(skip_indices_array)@.len() <= usize::MAX, 2 * old(skip_indices_array)@.len() <= usize::MAX
    ensures forall|r: usize| #![trigger stays(old(skip_indices_array)@, i as int, r as int)] stays(old(skip_indices_array)@, i as int, r as int) ==> with_row(old(skip_indices_array)@, final(skip_indices_array)@, r)
//% end
    proof { let a = old(skip_indices_array)@; row_added(a, skip_indices_array@, insertion_index as int, in_original_problem); assert forall|r: usize| #![trigger stays(a, i as int, r as int)] stays(a, i as int, r as int) implies r == in_original_problem by { one_stays(a, i as int, r as int, in_original_problem as int); } }
//%%end
//%%fn src/algorithm/two_phase/matrix_provider/filter/generic_wrapper.rs RemoveRows as MatrixProvider::column
//% spec
    requires self.ok(), j < self.provider.lp().n
    ensures swf(r.es(), self.m()), filtered((self.provider.lp().a)(j as int), r.es(), self.rows_to_skip@), thinned((self.provider.lp().a)(j as int), r.es(), self.rows_to_skip@, self.provider.lp().m)
//% start
    proof { let a = (self.provider.lp().a)(j as int); let idx = self.rows_to_skip@; let m = self.provider.lp().m; fits(idx, m); assert forall|t: Seq<(usize, F)>| #![trigger filtered(a, t, idx)] filtered(a, t, idx) implies swf(t, m - idx.len()) && thinned(a, t, idx, m) by { spremoved_all(a, t, idx, m); } }
//%%end
//%%fn src/algorithm/two_phase/matrix_provider/filter/generic_wrapper.rs RemoveRows as MatrixProvider::cost_value
//% spec
    requires j < self.provider.lp().n
    ensures r@ == (self.provider.lp().c)(j as int)
//%%end
//%%fn src/algorithm/two_phase/matrix_provider/filter/generic_wrapper.rs RemoveRows as MatrixProvider::right_hand_side
//% spec
    requires self.ok()
    ensures r.data@.len() == self.m(), forall|i: int| #![trigger sv(self.provider.lp().rhs, i)] 0 <= i < self.provider.lp().m && !self.rows_to_skip@.contains(i as usize) ==> r.data@[i - rank(self.rows_to_skip@, i)]@ == sv(self.provider.lp().rhs, i)
//% after "let mut all"
    let ghost a = all.data@;
//% end
    proof { assert forall|i: int| #![trigger sv(self.provider.lp().rhs, i)] 0 <= i < self.provider.lp().m && !self.rows_to_skip@.contains(i as usize) implies all.data@[i - rank(self.rows_to_skip@, i)]@ == sv(self.provider.lp().rhs, i) by { assert(a[i]@ == sv(self.provider.lp().rhs, i)); } }
//%%end
//%%fn src/algorithm/two_phase/matrix_provider/filter/generic_wrapper.rs RemoveRows as MatrixProvider::bound_row_index
//% spec
    requires self.ok(), j < self.provider.lp().n
    ensures r is Some == self.provider.bound_row(j as int, bound_type) is Some, r is Some ==> r->0 < self.m() && stays(self.rows_to_skip@, r->0 as int, self.provider.bound_row(j as int, bound_type)->0 as int)
//% closure 0 |c0: usize| -> (r: usize)
    requires self.rows_to_skip@.len() <= c0 ensures r == c0 - self.rows_to_skip@.len()
//% start
    proof { let idx = self.rows_to_skip@; fits(idx, self.provider.nc()); let b = self.provider.bound_row(j as int, bound_type); if b is Some { rank_all(idx, b->0 as int); assert(stays(idx, b->0 - idx.len(), b->0 as int)) by { if idx.contains(b->0) { let q = choose|q: int| 0 <= q < idx.len() && idx[q] == b->0; } } } }
//%%end
//%%fn src/algorithm/two_phase/matrix_provider/filter/generic_wrapper.rs RemoveRows as MatrixProvider::nr_constraints
//% spec
    requires self.ok()
    ensures r == self.provider.nc() - self.rows_to_skip@.len()
//% start
    proof { fits(self.rows_to_skip@, self.provider.nc()); }
//%%end
//%%fn src/algorithm/two_phase/matrix_provider/filter/generic_wrapper.rs RemoveRows as MatrixProvider::nr_variable_bounds
//% spec
    requires self.ok()
    ensures r == self.provider.lp().m - self.provider.nc()
//%%end
//%%fn src/algorithm/two_phase/matrix_provider/filter/generic_wrapper.rs RemoveRows as MatrixProvider::nr_rows
//% spec
    requires self.ok()
    ensures r == self.m()
//% start
    proof { fits(self.rows_to_skip@, self.provider.nc()); }
//%%end
//%%fn src/algorithm/two_phase/matrix_provider/filter/generic_wrapper.rs RemoveRows as MatrixProvider::nr_columns
//% spec
    ensures r == self.provider.lp().n
//%%end
//%%fn src/algorithm/two_phase/matrix_provider/filter/generic_wrapper.rs RemoveRows as MatrixProvider::reconstruct_solution
//% spec
    ensures r == self.provider.recon(column_values)
//%%end
//%%fn src/algorithm/two_phase/matrix_provider/filter/generic_wrapper.rs RemoveRows as PartialInitialBasis::pivot_element_indices
//% spec
    requires self.ok()
    ensures filtered(self.provider.pivots(), r@, self.rows_to_skip@), forall|q: Lp| #![trigger unit_pivots(q, r@)] left_out(self.provider.lp(), q, self.rows_to_skip@) ==> unit_pivots(q, r@)
//% end
    proof { let idx = self.rows_to_skip@; let p = self.provider.lp(); assert forall|q: Lp| #![trigger unit_pivots(q, from_parent@)] left_out(p, q, idx) implies unit_pivots(q, from_parent@) by { pivots_left(p, q, idx, self.provider.pivots(), from_parent@); } }
//%%end
//%%fn src/algorithm/two_phase/matrix_provider/filter/generic_wrapper.rs RemoveRows as PartialInitialBasis::nr_initial_elements
//% spec
    requires self.ok()
    ensures exists|t: Seq<(usize, usize)>| #[trigger] filtered(self.provider.pivots(), t, self.rows_to_skip@) && r == t.len()
//%%end
//%%fn src/algorithm/two_phase/matrix_provider/filter/generic_wrapper.rs RemoveRows as FeasibilityLogic::is_feasible
//% spec
    requires j < self.provider.lp().n
    ensures r == self.provider.feas(j as int, value)
//%%end
//%%fn src/algorithm/two_phase/matrix_provider/filter/generic_wrapper.rs RemoveRows as FeasibilityLogic::closest_feasible
//% spec
    requires j < self.provider.lp().n
    ensures r == self.provider.close(j as int, value)
//%%end
}
fn main() {}
