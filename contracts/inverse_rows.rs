// Unit: the basis inverse stored row by row, against the contract of the trait `BasisInverse`.
use vstd::prelude::*;
verus! {
//%%include prelude.rs
//%%include sparse_spec.rs
//%%include index_spec.rs
//%%include index_sparse.rs
//%%include simplex_spec.rs
//%%include carry_spec.rs
//%%include rows_spec.rs
//%%types Self::ColumnComputationInfo=Sparse; LUDecomposition=BI; BasisInverseRows<F>=BasisInverseRows
//%%item src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs BasisInverseRows
//%%end
impl BasisInverseRows {
    /// every row has a place for every row
    pub open spec fn ok(&self) -> bool { forall|i: int| #![trigger self.rows@[i]] 0 <= i < self.rows@.len() ==> self.rows@[i].wf() && self.rows@[i].len == self.rows@.len() }
    pub open spec fn inv(&self) -> M { |i: int, k: int| self.rows@[i].at(k) }
    pub open spec fn size(&self) -> int { self.rows@.len() as int }
}
//%%use vector src/data/linear_algebra/vector/sparse.rs Sparse as Vector::new
//%%use vector src/data/linear_algebra/vector/sparse.rs Sparse as Vector::sparse_inner_product
//%%use vector src/data/linear_algebra/vector/sparse.rs Sparse as Vector::remove_indices
//%%use vector src/data/linear_algebra/vector/sparse.rs Sparse::standard_basis_vector
//%%use vector src/data/linear_algebra/vector/sparse.rs Sparse::add_multiple_of_row
//%%use vector src/data/linear_algebra/vector/sparse.rs Sparse::element_wise_divide
impl VClone for Sparse { #[verifier::external_body] fn v_clone(&self) -> Self { unimplemented!() } }
impl Sparse { #[verifier::external_body] pub fn v_iter<'a>(&'a self) -> (r: VIter<(usize, &'a F)>) ensures own(r@) == self.data@ { unimplemented!() } }
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs BasisInverseRows::new
//% spec
    ensures r.rows@ == rows@
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs BasisInverseRows::m#0
//% spec
    ensures r == self.size()
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs BasisInverseRows::normalize_pivot_row
//% spec
    requires old(self).ok(), column.wf(), column.len == old(self).size(), pivot_row_index < old(self).size(), column.at(pivot_row_index as int) != 0real
    ensures final(self).ok(), final(self).size() == old(self).size(),
      forall|i: int| #![trigger final(self).rows@[i]] 0 <= i < old(self).size() && i != pivot_row_index ==> final(self).rows@[i] == old(self).rows@[i],
      forall|k: int| #![trigger final(self).rows@[pivot_row_index as int].at(k)] final(self).rows@[pivot_row_index as int].at(k) * column.at(pivot_row_index as int) == old(self).rows@[pivot_row_index as int].at(k)
//%%end
/// row i of the rows at the start without x times row p
pub open spec fn less(rows: Seq<Sparse>, s: Sparse, x: real, p: int, i: int) -> bool { s.wf() && s.len == rows.len() && forall|k: int| #![trigger s.at(k)] s.at(k) == rows[i].at(k) - (if i == p { 0real } else { x }) * rows[p].at(k) }
pub open spec fn wide(rows: Seq<Sparse>) -> bool { forall|i: int| #![trigger rows[i]] 0 <= i < rows.len() ==> rows[i].wf() && rows[i].len == rows.len() }
pub open spec fn reduced_entry(rows: Seq<Sparse>, column: &Sparse, p: int, i: int, k: int) -> real { if i == p { rows[p].at(k) } else { rows[i].at(k) - column.at(i) * rows[p].at(k) } }
proof fn less_more(rows: Seq<Sparse>, a: Sparse, b: Sparse, x: real, y: real, p: int, i: int)
    requires less(rows, a, x, p, i), i != p, b.wf(), b.len == a.len, forall|k: int| #![trigger b.at(k)] b.at(k) == a.at(k) + (-y) * rows[p].at(k)
    ensures less(rows, b, x + y, p, i)
{ assert forall|k: int| #![trigger b.at(k)] b.at(k) == rows[i].at(k) - (x + y) * rows[p].at(k) by { let z = rows[p].at(k); assert(a.at(k) == rows[i].at(k) - x * z); assert((x + y) * z == x * z + y * z && (-y) * z == -(y * z)) by(nonlinear_arith); } }
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs BasisInverseRows::row_reduce
//% spec
    requires old(self).ok(), column.wf(), column.len == old(self).size(), pivot_row_index < old(self).size()
    ensures final(self).ok(), final(self).size() == old(self).size(),
      forall|i: int, k: int| #![trigger final(self).rows@[i].at(k)] 0 <= i < old(self).size() ==> final(self).rows@[i].at(k) == reduced_entry(old(self).rows@, column, pivot_row_index as int, i, k)
//% loop 0
    invariant ix0 <= it0@.len(), own(it0@) == column.data@, column.wf(), pivot_row_index < column.len, column.len == old_rows.len(), rows_left@.len() == pivot_row_index, rows_left@.len() + 1 + rows_right@.len() == old_rows.len(),
      *rows_middle == old_rows[pivot_row_index as int], wide(old_rows),
      forall|i: int| #![trigger rows_left@[i]] 0 <= i < rows_left@.len() ==> less(old_rows, rows_left@[i], sv(column.data@.subrange(0, ix0 as int), i), pivot_row_index as int, i),
      forall|i: int| #![trigger rows_right@[i]] 0 <= i < rows_right@.len() ==> less(old_rows, rows_right@[i], sv(column.data@.subrange(0, ix0 as int), i + pivot_row_index + 1), pivot_row_index as int, i + pivot_row_index + 1)
    decreases it0@.len() - ix0
//% start
    let ghost old_rows = self.rows@;
//% before_loop 0
    proof {
        assert forall|i: int| #![trigger old_rows[i]] 0 <= i < old_rows.len() implies less(old_rows, old_rows[i], 0real, pivot_row_index as int, i) by { assert forall|k: int| #![trigger old_rows[i].at(k)] old_rows[i].at(k) == old_rows[i].at(k) - 0real * old_rows[pivot_row_index as int].at(k) by { let y = old_rows[pivot_row_index as int].at(k); assert(0real * y == 0real) by(nonlinear_arith); } }
        assert forall|i: int| #![trigger rows_left@[i]] 0 <= i < rows_left@.len() implies rows_left@[i] == old_rows[i] by {}
        assert forall|i: int| #![trigger rows_right@[i]] 0 <= i < rows_right@.len() implies rows_right@[i] == old_rows[i + pivot_row_index + 1] by {}
    }
//% loop_start 0
    let ghost (l0, r0) = (rows_left@, rows_right@);
    proof { let d = column.data@; let q = ix0 - 1; assert(d[q] == own(it0@)[q]); assert(d[q].0 < column.len); assert(d[q].1@ != 0real); }
//% loop_end 0
    proof {
        let d = column.data@; let q = ix0 - 1; assert(d[q] == own(it0@)[q]); let p = pivot_row_index as int;
        assert forall|i: int| #![trigger rows_left@[i]] 0 <= i < rows_left@.len() implies less(old_rows, rows_left@[i], sv(d.subrange(0, ix0 as int), i), p, i) by { sv_step(d, q, i); assert(less(old_rows, l0[i], sv(d.subrange(0, q), i), p, i)); if d[q].0 == i { less_more(old_rows, l0[i], rows_left@[i], sv(d.subrange(0, q), i), d[q].1@, p, i); } }
        assert forall|i: int| #![trigger rows_right@[i]] 0 <= i < rows_right@.len() implies less(old_rows, rows_right@[i], sv(d.subrange(0, ix0 as int), i + p + 1), p, i + p + 1) by { sv_step(d, q, i + p + 1); assert(less(old_rows, r0[i], sv(d.subrange(0, q), i + p + 1), p, i + p + 1)); if d[q].0 == i + p + 1 { less_more(old_rows, r0[i], rows_right@[i], sv(d.subrange(0, q), i + p + 1), d[q].1@, p, i + p + 1); } }
    }
//% after_loop 0
    proof { let d = column.data@; assert(d.subrange(0, d.len() as int) =~= d); }
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs BasisInverseRows as BasisInverse::identity
//% spec
    ensures r.ok(), r.size() == m, forall|i: int, k: int| #![trigger (r.inv())(i, k)] 0 <= i < m && 0 <= k < m ==> (r.inv())(i, k) == delta(i, k)
//% closure 0 |c0: usize| -> (r: Sparse)
    requires c0 < m ensures r.wf(), r.len == m, forall|k: int| #![trigger r.at(k)] r.at(k) == (if k == c0 { 1real } else { 0real })
//%%end
/// the columns of an inverse
pub open spec fn unit_cols(t: Seq<(usize, Info)>, v: M, m: int) -> bool { t.len() == m && forall|j: int| #![trigger t[j]] 0 <= j < m ==> t[j].0 == j && unit_col(t[j].1.c(), v, j, m) }
/// an inverse with the same entries
proof fn same_inverse(u: M, v: M, cols: Seq<Col>)
    requires undoes(v, cols), undoes_right(v, cols), forall|j: int| #![trigger cols[j]] 0 <= j < cols.len() ==> swf(cols[j].es(), cols.len() as int), forall|i: int, k: int| 0 <= i < cols.len() && 0 <= k < cols.len() ==> #[trigger] u(i, k) == v(i, k)
    ensures undoes(u, cols), undoes_right(u, cols)
{
    let n = cols.len() as int;
    assert forall|i: int, j: int| #![trigger dot(cols[j].es(), row(u, i))] 0 <= i < n && 0 <= j < n implies dot(cols[j].es(), row(u, i)) == delta(i, j) by { assert forall|k: int| 0 <= k < n implies #[trigger] row(u, i)(k) == row(v, i)(k) by { assert(u(i, k) == v(i, k)); } dot_ext(cols[j].es(), n, row(u, i), row(v, i)); assert(dot(cols[j].es(), row(v, i)) == delta(i, j)); }
    assert forall|k: int, l: int| #![trigger delta(k, l)] 0 <= k < n && 0 <= l < n implies rsum(n, scaled(col(u, l), entries(cols, k))) == delta(k, l) by { assert forall|i: int| 0 <= i < n implies #[trigger] scaled(col(u, l), entries(cols, k))(i) == scaled(col(v, l), entries(cols, k))(i) by { assert(u(i, l) == v(i, l)); } rsum_ext(n, scaled(col(u, l), entries(cols, k)), scaled(col(v, l), entries(cols, k))); }
}
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs BasisInverseRows as BasisInverse::invert
//% types C=Col; impl ExactSizeIterator=VIter<Col>
//% spec
        requires columns@.len() <= usize::MAX, forall|j: int| #![trigger columns@[j]] 0 <= j < columns@.len() ==> swf(columns@[j].es(), columns@.len() as int), exists|v: M| undoes(v, columns@)
        ensures r.ok(), r.size() == columns@.len(), undoes(r.inv(), columns@), undoes_right(r.inv(), columns@)
//% closure 0 |c0: IdentityColumn| -> (r: Info)
    requires c0.at() < lower_upper.size() ensures unit_col(r.c(), lower_upper.inv(), c0.at() as int, lower_upper.size())
//% closure 1 |c0: Vec<(usize, F)>| -> (r: Sparse)
    requires swf(c0@, m as int) ensures r.wf(), r.len == m, r.data@ == c0@
//% after "let lower_upper"
    let ghost cols = columns@; let ghost v = lower_upper.inv();
    proof { assert forall|s: Seq<(usize, F)>, j: int, i: int| #![trigger single(s, j), row(v, i)] single(s, j) implies dot(s, row(v, i)) == row(v, i)(j) by { single_dot(s, j, row(v, i)); } }
//% before_loop 0
    proof { assert forall|i: int| #![trigger row_major@[i]] 0 <= i < m implies row_to(row_major@[i]@, v, i, 0) by { assert(row_major@[i]@ =~= Seq::empty()); } }
//% loop 0
    invariant ix0 <= it0@.len(), it0@.len() == m, m == lower_upper.size(), v == lower_upper.inv(), row_major@.len() == m, unit_cols(it0@, v, m as int), rows_to(row_major@, v, m as int, ix0 as int)
    decreases it0@.len() - ix0
//% loop_start 0
    proof { before_column(row_major@, v, m as int, j as int); let c = column.c().data@; assert(c.subrange(0, 0) =~= Seq::empty()); }
//% loop_end 0
    proof { let s = it0@[ix0 - 1].1.c().data@; assert(s.subrange(0, s.len() as int) =~= s); after_column(row_major@, v, m as int, ix0 - 1, s); }
//% loop 1
    invariant ix1 <= it1@.len(), row_major@.len() == m, j < m, swf(it1@, m as int), rows_part(row_major@, v, m as int, j as int, it1@.subrange(0, ix1 as int))
    decreases it1@.len() - ix1
//% loop_end 1
    proof { row_entry(rb, row_major@, v, m as int, j, it1@, ix1 - 1); }
//% loop_start 1
    let ghost rb = row_major@;
    proof { assert(it1@[ix1 - 1].0 < m); }
//% after_loop 0
    proof { assert forall|i: int| #![trigger row_major@[i]] 0 <= i < m implies swf(row_major@[i]@, m as int) by { assert(row_to(row_major@[i]@, v, i, m as int)); } }
    let ghost rm = row_major@;
//% end
    proof {
        assert forall|i: int, k: int| 0 <= i < m && 0 <= k < m implies rows@[i].at(k) == #[trigger] v(i, k) by { assert(row_to(rm[i]@, v, i, m as int)); assert(sv(rm[i]@, k) == v(i, k)); }
        let u: M = |i: int, k: int| rows@[i].at(k);
        assert forall|i: int, k: int| 0 <= i < m && 0 <= k < m implies #[trigger] u(i, k) == v(i, k) by {}
        same_inverse(u, v, cols);
    }
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs BasisInverseRows as BasisInverse::change_basis
//% spec
        requires old(self).ok(), pivot_row_index < old(self).size(), column.wf(), column.len == old(self).size(), column.at(pivot_row_index as int) != 0real
        ensures final(self).ok(), final(self).size() == old(self).size(), pivoted(old(self).inv(), final(self).inv(), svf(column.data@), pivot_row_index as int, old(self).size()), r.wf(), r.len == column.len, forall|i: int| #![trigger r.at(i)] 0 <= i < r.len ==> r.at(i) == column.at(i)
//% before "self.normalize_pivot_row"
    let ghost f0 = self.rows@; let ghost p = pivot_row_index as int;
//% after "self.normalize_pivot_row"
    let ghost f1 = self.rows@;
//% end
    proof {
        let (v, u, w) = (old(self).inv(), self.inv(), svf(column.data@));
        assert forall|i: int, k: int| #![trigger u(i, k)] 0 <= i < f0.len() && 0 <= k < f0.len() implies u(i, k) == (if i == p { v(p, k) / w(p) } else { v(i, k) - w(i) * (v(p, k) / w(p)) }) by {
            let (x, y, z) = (f1[p].at(k), w(p), f0[p].at(k)); assert(y != 0real); assert(x * y == z); assert(x == z / y) by(nonlinear_arith) requires x * y == z, y != 0real;
            assert(self.rows@[i].at(k) == reduced_entry(f1, &column, p, i, k));
        }
    }
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs BasisInverseRows as BasisInverse::left_multiply_by_basis_inverse
//% types I=VIter<(usize, &'a F)>
//% spec
        requires self.ok(), swf(own(column@), self.size())
        ensures r.wf(), r.len == self.size(), forall|i: int| #![trigger r.at(i)] #![trigger sv(r.data@, i)] 0 <= i < self.size() ==> r.at(i) == dot(own(column@), row(self.inv(), i))
//% closure 0 |c0: usize| -> (r: Option<F>)
    requires c0 < self.size() ensures r is Some ==> r->0@ == dot(own(column@), row(self.inv(), c0 as int)) && r->0@ != 0real, r is None ==> dot(own(column@), row(self.inv(), c0 as int)) == 0real
//% closure 1 |c0: (usize, Option<F>)| -> (r: Option<(usize, F)>)
    ensures c0.1 is Some ==> r == Some((c0.0, c0.1->0)), c0.1 is None ==> r is None
//% closure 2 |c0: F| -> (r: (usize, F))
    ensures r == (i, c0)
//% after "let tuples"
    proof {
        let v = self.inv(); let s = own(column@); let rg = core::ops::Range { start: 0usize, end: self.rows.len() }.into_seq();
        assert(swf(tuples@, self.size()));
        assert forall|i: int| #![trigger sv(tuples@, i)] 0 <= i < self.size() implies sv(tuples@, i) == dot(s, row(v, i)) by {
            if exists|k: int| 0 <= k < tuples@.len() && (#[trigger] tuples@[k]).0 == i { let k = choose|k: int| 0 <= k < tuples@.len() && (#[trigger] tuples@[k]).0 == i; sv_at(tuples@, k); } else { sv_absent(tuples@, i); assert(rg[i] == i); }
        }
    }
//%%end
proof fn times_row(r: Sparse, t: Seq<(usize, F)>, c: real)
    requires r.wf(), c != 0real, t.len() == r.data@.len(), forall|k: int| #![trigger t[k]] 0 <= k < t.len() ==> t[k].0 == r.data@[k].0 && t[k].1@ == r.data@[k].1@ * c
    ensures swf(t, r.len as int), forall|k: int| #![trigger sv(t, k)] sv(t, k) == r.at(k) * c
{
    let d = r.data@;
    assert forall|k: int| #![trigger t[k]] 0 <= k < t.len() implies t[k].0 < r.len && t[k].1@ != 0real by { assert(d[k].1@ != 0real); let (x, y) = (d[k].1@, c); assert(x * y != 0real) by(nonlinear_arith) requires x != 0real, y != 0real; }
    assert forall|k: int| #![trigger sv(t, k)] sv(t, k) == r.at(k) * c by { sv_scaled(d, t, c, k); }
}
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs BasisInverseRows as BasisInverse::right_multiply_by_basis_inverse
//% types I=VIter<(usize, &'a F)>
//% spec
        requires self.ok(), swf(own(row@), self.size()), row@.len() > 0
        ensures r.wf(), r.len == self.size(), forall|k: int| #![trigger r.at(k)] 0 <= k < self.size() ==> r.at(k) == dot(own(row@), col(self.inv(), k))
//% closure 0 |c0: (usize, &F)| -> (r: (usize, F))
    ensures r.0 == c0.0, r.1@ == c0.1@ * factor@
//% start
    let ghost s = own(row@); let ghost v = self.inv(); let ghost row0 = row@;
    proof { assert(s[0].0 == row0[0].0 && s[0].1@ == row0[0].1@); assert(s[0].0 < self.size() && s[0].1@ != 0real); }
//% after "let items"
    proof { times_row(self.rows@[index as int], items@, factor@); }
//% before_loop 0
    proof { 
        assert(own(row@) =~= s.subrange(1, s.len() as int)); assert(s[0].0 == index && s[0].1@ == factor@);
        assert forall|k: int| #![trigger total.at(k)] 0 <= k < self.size() implies total.at(k) == dot(s.subrange(0, 1), col(v, k)) by { dot_step(s, 0, col(v, k)); assert(s.subrange(0, 0).len() == 0); let (x, y) = (self.rows@[index as int].at(k), factor@); assert(x * y == y * x) by(nonlinear_arith); }
    }
//% loop 0
    invariant ix0 <= it0@.len(), self.ok(), v == self.inv(), swf(s, self.size()), s.len() == it0@.len() + 1, own(it0@) == s.subrange(1, s.len() as int), total.wf(), total.len == self.size(), forall|k: int| #![trigger total.at(k)] 0 <= k < self.size() ==> total.at(k) == dot(s.subrange(0, ix0 + 1), col(v, k))
    decreases it0@.len() - ix0
//% loop_start 0
    let ghost t0 = total;
    proof { assert(own(it0@)[ix0 - 1] == s.subrange(1, s.len() as int)[ix0 - 1]); assert(s[ix0 as int].0 < self.size() && s[ix0 as int].1@ != 0real); }
//% loop_end 0
    proof { assert forall|k: int| #![trigger total.at(k)] 0 <= k < self.size() implies total.at(k) == dot(s.subrange(0, ix0 + 1), col(v, k)) by { dot_step(s, ix0 as int, col(v, k)); assert(t0.at(k) == dot(s.subrange(0, ix0 as int), col(v, k))); assert(col(v, k)(index as int) == self.rows@[index as int].at(k)); } }
//% after_loop 0
    proof { assert(s.subrange(0, s.len() as int) =~= s); }
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs BasisInverseRows as BasisInverse::generate_element
//% types I=VIter<(usize, &'a F)>
//% spec
        requires self.ok(), swf(own(original_column@), self.size()), i < self.size()
        ensures r is Some ==> r->0@ == dot(own(original_column@), row(self.inv(), i as int)) && r->0@ != 0real, r is None ==> dot(own(original_column@), row(self.inv(), i as int)) == 0real
//% start
    proof { assert(row(self.inv(), i as int) =~= (|k: int| self.rows@[i as int].at(k))); }
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs BasisInverseRows as BasisInverse::should_refactor
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs BasisInverseRows as BasisInverse::basis_inverse_row
//% spec
        requires self.ok(), row < self.size()
        ensures r.wf(), r.len == self.size(), forall|k: int| #![trigger r.at(k)] 0 <= k < self.size() ==> r.at(k) == (self.inv())(row as int, k)
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs BasisInverseRows as BasisInverse::m
//% name m_of
//% spec
    ensures r == self.size()
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs BasisInverseRows as RemoveBasisPart::remove_basis_part
//% spec
        requires old(self).ok(), uniq(indices@, old(self).size())
        ensures final(self).ok(), final(self).size() == old(self).size() - indices@.len(), forall|i: int, k: int| #![trigger (old(self).inv())(i, k)] 0 <= i < old(self).size() && 0 <= k < old(self).size() && !indices@.contains(i as usize) && !indices@.contains(k as usize) ==> (final(self).inv())(i - rank(indices@, i), k - rank(indices@, k)) == (old(self).inv())(i, k)
//% closure 0 |c0: &Sparse| -> (r: bool) ensures true
//% start
    let ghost r0 = self.rows@;
    proof { rank_all(indices@, r0.len() as int); rank_pos(indices@, r0.len() as int); assert(wide(r0)); }
//% before_loop 0
    let ghost r1 = self.rows@; let ghost n = (r0.len() - indices@.len()) as int;
    proof { assert forall|q: int| #![trigger r1[q]] 0 <= q < r1.len() implies r1[q].wf() && r1[q].len == r0.len() by {} }
//% loop 0
    invariant ix0 <= en0, en0 == r1.len(), self.rows@.len() == r1.len(), uniq(indices@, r0.len() as int), indices@.len() <= r0.len(), n == r0.len() - indices@.len(),
      forall|q: int| #![trigger r1[q]] 0 <= q < r1.len() ==> r1[q].wf() && r1[q].len == r0.len(),
      forall|q: int| #![trigger self.rows@[q]] 0 <= q < r1.len() ==> if q < ix0 { self.rows@[q].wf() && self.rows@[q].len == n && minor_removed(r1[q].data@, self.rows@[q].data@, indices@) } else { self.rows@[q] == r1[q] }
    decreases en0 - ix0
//% after_loop 0
    proof {
        let u = self.inv(); let v = old(self).inv();
        assert forall|i: int, k: int| #![trigger v(i, k)] 0 <= i < r0.len() && 0 <= k < r0.len() && !indices@.contains(i as usize) && !indices@.contains(k as usize) implies u(i - rank(indices@, i), k - rank(indices@, k)) == v(i, k) by {
            let q = i - rank(indices@, i); assert(r1[q] == r0[i]); assert(sv(r1[q].data@, k) == v(i, k)); assert(minor_removed(r1[q].data@, self.rows@[q].data@, indices@));
        }
    }
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs SparseVector as ColumnComputationInfo::column
//% spec
    ensures *r == *self
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs SparseVector as ColumnComputationInfo::into_column
//% spec
    ensures r == self
//%%end
}
fn main() {}
