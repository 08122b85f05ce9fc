// Unit: problems in matrix form.
use vstd::prelude::*;
verus! {
//%%include prelude.rs
//%%include sparse_spec.rs
//%%include index_spec.rs
//%%include index_sparse.rs
//%%include simplex_spec.rs
//%%include matrix_data_items.rs
//%%fn src/algorithm/two_phase/matrix_provider/matrix_data.rs MatrixData::new
//% types SparseMatrix<F,F,ColumnMajor>=SparseMatrix<F>; Self=MatrixData<'a>
//% in impl<'a> MatrixData<'a>
//% spec
    requires constraints.wf(), constraints.minor_dimension_size == nr_equality_constraints + nr_range_constraints + nr_upper_bounded_constraints + nr_lower_bounded_constraints,
      constraints.major_dimension_size == variables@.len(), b.data@.len() == constraints.minor_dimension_size, ranges@.len() == nr_range_constraints,
      2 * variables@.len() + 2 * nr_range_constraints + nr_equality_constraints + nr_upper_bounded_constraints + nr_lower_bounded_constraints <= usize::MAX
    ensures r.wf(), r.constraints == constraints, r.b == b, r.ranges == ranges, r.variables == variables, r.nr_equality_constraints == nr_equality_constraints, r.nr_range_constraints == nr_range_constraints, r.nr_upper_bounded_constraints == nr_upper_bounded_constraints, r.nr_lower_bounded_constraints == nr_lower_bounded_constraints
//% start
    proof { reveal_with_fuel(upto, 7); }
//% loop 0
    invariant it0@ == enum_seq(refs(variables@)), ix0 <= variables@.len(), bound_index_to_non_slack_variable_index@.len() <= ix0, paired(variables@, non_slack_variable_index_to_bound_index@, bound_index_to_non_slack_variable_index@, ix0 as int)
    decreases variables@.len() - ix0
//%%end
//%%fn src/algorithm/two_phase/matrix_provider/matrix_data.rs MatrixData::column_type
//% spec
    requires self.wf(), j < self.n()
    ensures r.0 == self.group(j as int).0, r.1 == self.group(j as int).1
//%%end
//%%fn src/algorithm/two_phase/matrix_provider/matrix_data.rs MatrixData::nr_normal_variables
//% spec
    requires self.wf()
    ensures r == self.nv()
//%%end
//%%fn src/algorithm/two_phase/matrix_provider/matrix_data.rs MatrixData as MatrixProvider::nr_constraints
//% spec
    requires self.wf()
    ensures r == self.nc()
//%%end
//%%fn src/algorithm/two_phase/matrix_provider/matrix_data.rs MatrixData as MatrixProvider::nr_variable_bounds
//% spec
    requires self.wf()
    ensures r == self.nb() + self.nr()
//%%end
//%%fn src/algorithm/two_phase/matrix_provider/matrix_data.rs MatrixData as MatrixProvider::nr_columns
//% spec
    requires self.wf()
    ensures r == self.n()
//%%end
//%%fn src/algorithm/two_phase/matrix_provider/mod.rs trait MatrixProvider::nr_rows
//% in impl<'a> MatrixData<'a>
//% spec
    requires self.wf()
    ensures r == self.m()
//%%end
//%%fn src/algorithm/two_phase/matrix_provider/matrix_data.rs MatrixData as MatrixProvider::cost_value
//% spec
    requires self.wf(), j < self.n()
    ensures (match r { Some(c) => c@, None => 0real }) == self.cost(j as int)
//%%end
//%%fn src/algorithm/two_phase/matrix_provider/matrix_data.rs MatrixData as MatrixProvider::right_hand_side
//% closure 0 |c0: &usize| -> (r: F) requires *c0 < self.nv(), self.variables@[*c0 as int].upper_bound is Some ensures r@ == (self.variables@[*c0 as int].upper_bound->0)@
//% closure 1 |c0: &&F| -> (r: F) ensures r@ == (**c0)@
//% spec
    requires self.wf()
    ensures r.data@.len() == self.m(), forall|i: int| #![trigger r.data@[i]] 0 <= i < self.m() ==> r.data@[i]@ == self.rhs(i)
//%%end
//%%fn src/algorithm/two_phase/matrix_provider/matrix_data.rs MatrixData as MatrixProvider::bound_row_index
//% closure 0 |c0: usize| -> (r: usize) requires self.wf(), c0 < self.nb() ensures r == self.nc() + c0
//% spec
    requires self.wf(), j < self.n()
    ensures bound_type is Lower ==> r is None, bound_type is Upper ==> (r is Some) == (self.bound_row(j as int) is Some) && (r is Some ==> r->0 == self.bound_row(j as int)->0)
//%%end
impl Column {
    /// what iterating over the column yields
    pub open spec fn es(&self) -> Seq<(usize, F)> { match self { Column::Sparse { constraint_values, slack } => constraint_values@ + opt(*slack), Column::Slack(x) => seq![*x], Column::TwoSlack(x, y) => seq![*x, *y] } }
}
/// s lists the entries of column j
pub open spec fn lists(d: &MatrixData, s: Seq<(usize, F)>, j: int) -> bool { swf(s, d.m()) && forall|i: int| #![trigger d.entry(i, j)] 0 <= i < d.m() ==> sv(s, i) == d.entry(i, j) }
proof fn two(x: (usize, F), y: (usize, F), i: int) ensures sv(seq![x, y], i) == (if x.0 == i { x.1@ } else { 0real }) + (if y.0 == i { y.1@ } else { 0real }) { sv_one(x, i); sv_push(seq![x], y, i); assert(seq![x].push(y) =~= seq![x, y]); }
/// c is what belongs at column j
pub open spec fn right(d: &MatrixData, c: Column, j: int) -> bool {
    let (t, k) = d.group(j); match t {
        ColumnType::Normal => c is Sparse && c->constraint_values@ =~= d.constraints.data@[k]@ && (match c->slack { Some(x) => d.non_slack_variable_index_to_bound_index@[k] is Some && x.0 == d.nc() + d.non_slack_variable_index_to_bound_index@[k]->0 && x.1@ == 1real, None => d.non_slack_variable_index_to_bound_index@[k] is None }),
        ColumnType::RangeSlack => c is TwoSlack && c->TwoSlack_0.0 == d.ne() + k && c->TwoSlack_0.1@ == 1real && c->TwoSlack_1.0 == d.nc() + d.nb() + k && c->TwoSlack_1.1@ == 1real,
        ColumnType::UpperInequalitySlack => c is Slack && c->Slack_0.0 == d.ne() + d.nr() + k && c->Slack_0.1@ == 1real,
        ColumnType::LowerInequalitySlack => c is Slack && c->Slack_0.0 == d.ne() + d.nr() + d.nu() + k && c->Slack_0.1@ == -1real,
        ColumnType::VariableBoundSlack => c is Slack && c->Slack_0.0 == d.nc() + k && c->Slack_0.1@ == 1real,
        ColumnType::SlackBoundSlack => c is Slack && c->Slack_0.0 == d.nc() + d.nb() + k && c->Slack_0.1@ == 1real }
}
proof fn lists_column(d: &MatrixData, c: Column, j: int)
    requires d.wf(), 0 <= j < d.n(), right(d, c, j)
    ensures lists(d, c.es(), j)
{
    let (t, k) = d.group(j); let s = c.es();
    if t is Normal {
        let a = d.constraints.data@[k]@; assert(swf(a, d.nc()));
        assert forall|i: int| #![trigger d.entry(i, j)] 0 <= i < d.m() implies sv(s, i) == d.entry(i, j) by {
            sv_concat(a, opt(c->slack), i);
            match c->slack { Some(x) => { sv_one(x, i); } None => { assert(sv(opt(c->slack), i) == 0real); } }
            if i >= d.nc() { sv_absent(a, i); if i < d.nc() + d.nb() { let b = d.bound_index_to_non_slack_variable_index@[i - d.nc()]; } }
        }
    } else if t is RangeSlack {
        assert forall|i: int| #![trigger d.entry(i, j)] 0 <= i < d.m() implies sv(s, i) == d.entry(i, j) by { two(c->TwoSlack_0, c->TwoSlack_1, i); }
    } else {
        assert forall|i: int| #![trigger d.entry(i, j)] 0 <= i < d.m() implies sv(s, i) == d.entry(i, j) by { sv_one(c->Slack_0, i); }
    }
}
//%%fn src/algorithm/two_phase/matrix_provider/matrix_data.rs MatrixData as MatrixProvider::column
//% closure 0 |c0: usize| -> (r: usize) ensures r == c0
//% closure 1 |c0: usize| -> (r: (usize, F)) ensures r.0 == c0, r.1@ == 1real
//% spec
    requires self.wf(), j < self.n()
    ensures lists(self, r.es(), j as int)
//% start
    proof { assert forall|c: Column| #![trigger c.es()] right(self, c, j as int) implies lists(self, c.es(), j as int) by { lists_column(self, c, j as int); } }
//%%end
pub open spec fn ones(d: &MatrixData, t: Seq<(usize, usize)>) -> bool { ssorted(t) && forall|k: int| #![trigger t[k]] 0 <= k < t.len() ==> t[k].0 < d.m() && t[k].1 < d.n() && forall|i: int| #![trigger d.entry(i, t[k].1 as int)] 0 <= i < d.m() ==> d.entry(i, t[k].1 as int) == delta(i, t[k].0 as int) }
//%%fn src/algorithm/two_phase/matrix_provider/matrix_data.rs MatrixData as PartialInitialBasis::pivot_element_indices
//% closure 0 |c0: usize| -> (r: (usize, usize)) requires self.wf(), c0 < self.nu() ensures r.0 == self.ne() + self.nr() + c0, r.1 == self.nv() + self.nr() + c0
//% closure 1 |c0: usize| -> (r: (usize, usize)) requires self.wf(), c0 < self.nb() ensures r.0 == self.nc() + c0, r.1 == self.nv() + self.nr() + self.nu() + self.nl() + c0
//% closure 2 |c0: usize| -> (r: (usize, usize)) requires self.wf(), c0 < self.nr() ensures r.0 == self.nc() + self.nb() + c0, r.1 == self.nv() + self.nr() + self.nu() + self.nl() + self.nb() + c0
//% spec
    requires self.wf()
    ensures ones(self, r@), r@.len() == self.nu() + self.nb() + self.nr()
//%%end
//%%fn src/algorithm/two_phase/matrix_provider/matrix_data.rs MatrixData as PartialInitialBasis::nr_initial_elements
//% spec
    requires self.wf()
    ensures r == self.nu() + self.nb() + self.nr()
//%%end
proof fn rank_none(idx: Seq<usize>, i: int) requires forall|k: int| #![trigger idx[k]] 0 <= k < idx.len() ==> idx[k] >= i ensures rank(idx, i) == 0 decreases idx.len() { if idx.len() > 0 { let t = idx.drop_last(); assert forall|k: int| #![trigger t[k]] 0 <= k < t.len() implies t[k] >= i by { assert(idx[k] >= i); } rank_none(t, i); assert(idx[idx.len() - 1] >= i); } }
//%%fn src/algorithm/two_phase/matrix_provider/matrix_data.rs MatrixData as MatrixProvider::reconstruct_solution
//% start
    let ghost old = column_values;
//% end
    proof { let idx = to_remove@; assert forall|j: int| #![trigger column_values.at(j)] 0 <= j < self.nv() implies column_values.at(j) == old.at(j) by { rank_none(idx, j); assert(sv(old.data@, j) == old.at(j)); if idx.contains(j as usize) { let k = choose|k: int| 0 <= k < idx.len() && idx[k] == j as usize; } } }
//% spec
    requires self.wf(), column_values.wf(), column_values.len == self.n()
    ensures r.wf(), r.len == self.nv(), forall|j: int| #![trigger r.at(j)] 0 <= j < self.nv() ==> r.at(j) == column_values.at(j)
//%%end
//%%fn src/algorithm/two_phase/matrix_provider/matrix_data.rs Column as ColumnTrait::iter
//% spec
    ensures own(r@) =~= self.es()
//%%end
//%%fn src/algorithm/two_phase/matrix_provider/matrix_data.rs Column as IntoIterator::into_iter
//% spec
    ensures r@ =~= self.es()
//%%end
pub open spec fn single(s: Seq<(usize, F)>, i: int) -> bool { s.len() == 1 && s[0].0 == i && s[0].1@ == 1real }
//%%fn src/algorithm/two_phase/matrix_provider/matrix_data.rs Column as Identity::identity
//% spec
    requires i < len
    ensures single(r.es(), i as int)
//%%end
/// entries at removed rows gone, the other rows moved up
pub open spec fn filtered<T>(a: Seq<(usize, T)>, b: Seq<(usize, T)>, idx: Seq<usize>) -> bool { exists|m: Seq<int>| #[trigger] spremoved(a, b, m, idx) }
/// row i comes after all of these
pub open spec fn after(idx: Seq<usize>, i: usize) -> bool { forall|k: int| #![trigger idx[k]] 0 <= k < idx.len() ==> idx[k] < i }
impl Column {
    /// these rows can be left out: they come before the rows of slacks
    pub open spec fn can(&self, idx: Seq<usize>) -> bool { match self { Column::Sparse { constraint_values, slack } => ssorted(constraint_values@) && (slack is Some ==> after(idx, (slack->0).0)), Column::Slack(x) => after(idx, x.0), Column::TwoSlack(x, y) => after(idx, x.0) && after(idx, y.0) } }
}
proof fn all_before(idx: Seq<usize>, i: usize, n: int) requires uniq(idx, n), after(idx, i) ensures idx.len() <= i, rank(idx, i as int) == idx.len(), !idx.contains(i) {
    rank_all(idx, i as int); if idx.len() > 0 { inc_gap(idx, 0, idx.len() - 1); assert(idx[idx.len() - 1] < i); }
}
/// b is the column a without the rows
pub open spec fn shifted(a: Column, b: Column, idx: Seq<usize>) -> bool {
    match a {
        Column::Sparse { constraint_values, slack } => b is Sparse && filtered(constraint_values@, b->constraint_values@, idx) && (slack is Some) == (b->slack is Some) && (slack is Some ==> (b->slack->0).0 == (slack->0).0 - idx.len() && (b->slack->0).1 == (slack->0).1),
        Column::Slack(x) => b is Slack && b->Slack_0.0 == x.0 - idx.len() && b->Slack_0.1 == x.1,
        Column::TwoSlack(x, y) => b is TwoSlack && b->TwoSlack_0.0 == x.0 - idx.len() && b->TwoSlack_0.1 == x.1 && b->TwoSlack_1.0 == y.0 - idx.len() && b->TwoSlack_1.1 == y.1,
    }
}
proof fn shifted_filtered(a: Column, b: Column, idx: Seq<usize>, n: int) requires a.can(idx), uniq(idx, n), shifted(a, b, idx) ensures filtered(a.es(), b.es(), idx) {
    let (s, t) = (a.es(), b.es());
    match a {
        Column::Sparse { constraint_values, slack } => {
            let (u, v) = (constraint_values@, b->constraint_values@); let m = choose|m: Seq<int>| #[trigger] spremoved(u, v, m, idx);
            match slack {
                None => { assert(s =~= u); assert(t =~= v); }
                Some(x) => {
                    all_before(idx, x.0, n); let w = m.push(u.len() as int); let z = u.len() as int;
                    assert(s[z] == x); assert(t[v.len() as int] == (b->slack)->0);
                    assert forall|k: int| #![trigger t[k]] #![trigger w[k]] 0 <= k < t.len() implies 0 <= w[k] < s.len() && !idx.contains(s[w[k]].0) && t[k] == ((s[w[k]].0 - rank(idx, s[w[k]].0 as int)) as usize, s[w[k]].1) by { if k < v.len() { assert(t[k] == v[k]); assert(w[k] == m[k]); assert(s[m[k]] == u[m[k]]); } }
                    assert forall|q: int| #![trigger s[q]] 0 <= q < s.len() && !idx.contains(s[q].0) implies exists|k: int| 0 <= k < w.len() && #[trigger] w[k] == q by { if q < z { assert(s[q] == u[q]); let k = choose|k: int| 0 <= k < m.len() && #[trigger] m[k] == q; assert(w[k] == q); } else { assert(w[m.len() as int] == q); } }
                    assert(increasing(w)) by { assert forall|p: int, q: int| 0 <= p < q < w.len() implies w[p] < w[q] by { if q < m.len() { assert(m[p] < m[q]); } else { let y = v[p]; assert(w[p] == m[p]); } } }
                    assert(spremoved(s, t, w, idx));
                }
            }
        }
        Column::Slack(x) => { all_before(idx, x.0, n); let w = seq![0int]; assert(w[0] == 0); assert(spremoved(s, t, w, idx)); }
        Column::TwoSlack(x, y) => { all_before(idx, x.0, n); all_before(idx, y.0, n); let w = seq![0int, 1int]; assert(w[0] == 0 && w[1] == 1); assert(spremoved(s, t, w, idx)); }
    }
}
//%%fn src/algorithm/two_phase/matrix_provider/matrix_data.rs Column as IntoFilteredColumn::into_filtered
//% start
    proof { assert forall|i: usize| #![trigger after(to_filter@, i)] after(to_filter@, i) implies to_filter@.len() <= i by { all_before(to_filter@, i, usize::MAX as int); } }
//% end
    proof { shifted_filtered(self, v_self, to_filter@, usize::MAX as int); }
//% spec
    requires self.can(to_filter@), uniq(to_filter@, usize::MAX as int)
    ensures filtered(self.es(), r.es(), to_filter@)
//%%end
//%%include matrix_data_rows.rs
/// a combination of the rows that vanishes on every column involves equality rows only: no other row is superfluous
proof fn only_equalities(d: &MatrixData, y: V, i: int)
    requires d.wf(), 0 <= i < d.m(), y(i) != 0real, forall|j: int| #![trigger d.group(j)] 0 <= j < d.n() ==> rsum(d.m(), |i: int| d.entry(i, j) * y(i)) == 0real
    ensures i < d.ne()
{
    let (e, r, u, l, b, c, v) = (d.ne(), d.nr(), d.nu(), d.nl(), d.nb(), d.nc(), d.nv());
    if i >= e {
        let j = if i < c { v + i - e } else if i < c + b { v + r + u + l + i - c } else { v + r + u + l + b + i - c - b };
        let g = d.group(j); let f: V = |i: int| d.entry(i, j) * y(i);
        assert forall|q: int| #![trigger f(q)] true implies (d.entry(q, j) == 0real ==> f(q) == 0real) && (d.entry(q, j) == 1real ==> f(q) == y(q)) && (d.entry(q, j) == -1real ==> f(q) == -y(q)) by { times(d.entry(q, j), y(q)); }
        if e <= i < e + r {
            let q = c + b + i - e;
            if y(q) != 0real { only_slack_bounds(d, y, q); }
            assert forall|p: int| #![trigger f(p)] 0 <= p < d.m() && p != i implies f(p) == 0real by { let x = d.entry(p, j); }
        } else {
            assert forall|p: int| #![trigger f(p)] 0 <= p < d.m() && p != i implies f(p) == 0real by { let x = d.entry(p, j); }
        }
        rsum_from(0, d.m(), f, i); let x = d.entry(i, j);
    }
}
proof fn only_slack_bounds(d: &MatrixData, y: V, i: int)
    requires d.wf(), d.nc() + d.nb() <= i < d.m(), y(i) != 0real, forall|j: int| #![trigger d.group(j)] 0 <= j < d.n() ==> rsum(d.m(), |i: int| d.entry(i, j) * y(i)) == 0real
    ensures false
{
    let j = d.n() - d.m() + i; let g = d.group(j); let f: V = |i: int| d.entry(i, j) * y(i);
    assert forall|q: int| #![trigger f(q)] true implies (d.entry(q, j) == 0real ==> f(q) == 0real) && (d.entry(q, j) == 1real ==> f(q) == y(q)) by { times(d.entry(q, j), y(q)); }
    assert forall|p: int| #![trigger f(p)] 0 <= p < d.m() && p != i implies f(p) == 0real by { let x = d.entry(p, j); }
    rsum_from(0, d.m(), f, i); let x = d.entry(i, j);
}
} // verus!
fn main() {}
