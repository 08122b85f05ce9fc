// Unit: sparse matrices.
use vstd::prelude::*;
use std::collections::HashSet;
verus! {
//%%include prelude.rs
//%%include sparse_spec.rs
//%%include index_spec.rs
//%%include index_sparse.rs
//%%types C=F; O=usize; MO=usize; SparseMatrix=SparseMatrix<F>; SparseTupleVec=Vec<(usize, F)>; SparseTuple=(usize, F); SparseMatrix<&F,F,RowMajor>=SparseMatrix<&F>; SparseMatrix<&F,F,ColumnMajor>=SparseMatrix<&F>; SparseMatrix<&'aF,F,MO>=SparseMatrix<&'a F>
//%%item src/data/linear_algebra/matrix.rs SparseMatrix
//%%end
//%%types F=F
pub open spec fn rows_wf(d: Seq<Vec<(usize, F)>>, n: int) -> bool { forall|j: int| #![trigger d[j]] 0 <= j < d.len() ==> swf(d[j]@, n) }
impl SparseMatrix<F> {
    pub open spec fn wf(&self) -> bool { self.data@.len() == self.major_dimension_size && rows_wf(self.data@, self.minor_dimension_size as int) }
    /// the number at (major, minor)
    pub open spec fn at(&self, j: int, i: int) -> real { sv(self.data@[j]@, i) }
}
impl<'a> SparseMatrix<&'a F> {
    pub open spec fn wf(&self) -> bool { self.data@.len() == self.major_dimension_size && forall|j: int| #![trigger self.data@[j]] 0 <= j < self.data@.len() ==> swf(own(self.data@[j]@), self.minor_dimension_size as int) }
    pub open spec fn at(&self, j: int, i: int) -> real { sv(own(self.data@[j]@), i) }
}
//%%fn src/data/linear_algebra/matrix.rs SparseMatrix::from_major_ordered_tuples
//% types F=T; SparseMatrix=SparseMatrix<T>; SparseTupleVec=Vec<(usize, T)>
//% in impl<T> SparseMatrix<T>
//% spec
    ensures r.data == data, r.major_dimension_size == major_dimension_size, r.minor_dimension_size == minor_dimension_size
//%%end
/// the entries read so far, by new major index
pub open spec fn turned(mo: Seq<Vec<(usize, &F)>>, data: Seq<Vec<(usize, F)>>, row: int, col: int, len: int) -> bool {
    forall|j: int| #![trigger mo[j]] 0 <= j < mo.len() ==> swf(own(mo[j]@), row + (if col > 0 { 1int } else { 0int }))
      && (forall|i: int| #![trigger sv(own(mo[j]@), i)] 0 <= i < len ==> sv(own(mo[j]@), i) == (if i < row { sv(data[i]@, j) } else if i == row { sv(data[i]@.subrange(0, col), j) } else { 0real }))
}
pub proof fn turned_push(mo: Seq<Vec<(usize, &F)>>, new: Seq<Vec<(usize, &F)>>, data: Seq<Vec<(usize, F)>>, row: int, col: int, n: int)
    requires turned(mo, data, row, col, data.len() as int), 0 <= row < data.len(), 0 <= col < data[row]@.len(), rows_wf(data, n), mo.len() == n, row <= usize::MAX,
      new.len() == n, (forall|j: int| #![trigger new[j]] 0 <= j < n && j != data[row]@[col].0 ==> new[j] == mo[j]),
      new[data[row]@[col].0 as int]@ == mo[data[row]@[col].0 as int]@.push((row as usize, &data[row]@[col].1))
    ensures turned(new, data, row, col + 1, data.len() as int)
{
    let x = data[row]@[col]; let q = x.0 as int; let s = own(mo[q]@); let e = (row as usize, x.1);
    assert(own(new[q]@) =~= s.push(e));
    assert forall|k: int| #![trigger s[k]] 0 <= k < s.len() implies s[k].0 < row by {
        sv_at(s, k); let i = s[k].0 as int;
        if i == row {
            assert(sv(s, row) == sv(data[row]@.subrange(0, col), q)); let t = data[row]@.subrange(0, col);
            assert forall|c: int| 0 <= c < t.len() implies (#[trigger] t[c]).0 != q by { assert(t[c] == data[row]@[c]); }
            sv_absent(t, q);
        }
    }
    assert forall|j: int| #![trigger new[j]] 0 <= j < n implies swf(own(new[j]@), row + 1) && (forall|i: int| #![trigger sv(own(new[j]@), i)] 0 <= i < data.len() ==> sv(own(new[j]@), i) == (if i < row { sv(data[i]@, j) } else if i == row { sv(data[i]@.subrange(0, col + 1), j) } else { 0real })) by {
        assert forall|i: int| #![trigger sv(own(new[j]@), i)] 0 <= i < data.len() implies sv(own(new[j]@), i) == (if i < row { sv(data[i]@, j) } else if i == row { sv(data[i]@.subrange(0, col + 1), j) } else { 0real }) by {
            sv_step(data[row]@, col, j); assert(sv(own(mo[j]@), i) == sv(own(mo[j]@), i));
            if j == q { sv_push(s, e, i); }
        }
    }
}
pub proof fn turned_next(mo: Seq<Vec<(usize, &F)>>, data: Seq<Vec<(usize, F)>>, row: int, col: int, n: int)
    requires turned(mo, data, row, col, data.len() as int), 0 <= row < data.len(), col == data[row]@.len()
    ensures turned(mo, data, row + 1, 0, data.len() as int)
{
    assert(data[row]@.subrange(0, col) =~= data[row]@);
    assert forall|j: int| #![trigger mo[j]] 0 <= j < mo.len() implies swf(own(mo[j]@), row + 1) && (forall|i: int| #![trigger sv(own(mo[j]@), i)] 0 <= i < data.len() ==> sv(own(mo[j]@), i) == (if i < row + 1 { sv(data[i]@, j) } else if i == row + 1 { sv(data[i]@.subrange(0, 0), j) } else { 0real })) by {}
}
//%%fn src/data/linear_algebra/matrix.rs SparseMatrix::from_minor_ordered_tuples
//% spec
    requires rows_wf(data@, current_minor_dimension_size as int)
    ensures r.wf(), r.major_dimension_size == current_minor_dimension_size, r.minor_dimension_size == data@.len(),
      forall|j: int, i: int| #![trigger r.at(j, i)] 0 <= j < current_minor_dimension_size && 0 <= i < data@.len() ==> r.at(j, i) == sv(data@[i]@, j)
//% before_loop 0
    let ghost n = current_minor_dimension_size as int;
//% loop 0
    invariant it0@ == enum_seq(refs(data@)), ix0 <= it0@.len(), it0@.len() == data@.len(), major_ordered@.len() == n, n == current_minor_dimension_size, rows_wf(data@, n),
      turned(major_ordered@, data@, ix0 as int, 0, data@.len() as int)
    decreases it0@.len() - ix0
//% loop 1
    invariant 0 < ix0 <= data@.len(), ix1 <= it1@.len(), it1@ == refs(data@[ix0 - 1]@), major_ordered@.len() == n, rows_wf(data@, n), i == ix0 - 1, minor == data@[ix0 - 1],
      turned(major_ordered@, data@, ix0 - 1, ix1 as int, data@.len() as int)
    decreases it1@.len() - ix1
//% loop_start 1
    let ghost m0 = major_ordered@;
//% loop_end 1
    proof { turned_push(m0, major_ordered@, data@, ix0 - 1, ix1 - 1, n); }
//% loop_end 0
    proof { turned_next(major_ordered@, data@, ix0 - 1, data@[ix0 - 1]@.len() as int, n); }
//%%end
pub open spec fn rows_removed(a: Seq<Vec<(usize, F)>>, b: Seq<Vec<(usize, F)>>, idx: Seq<usize>) -> bool {
    a.len() == b.len() && forall|j: int| #![trigger b[j]] 0 <= j < a.len() ==> minor_removed(a[j]@, b[j]@, idx)
}
//%%fn src/data/linear_algebra/matrix.rs SparseMatrix::remove_major_indices
//% spec
    requires old(self).wf(), uniq(indices@, old(self).major_dimension_size as int), indices@.len() <= old(self).major_dimension_size
    ensures final(self).wf(), final(self).minor_dimension_size == old(self).minor_dimension_size, final(self).major_dimension_size == old(self).major_dimension_size - indices@.len(),
      removed(old(self).data@, final(self).data@, indices@)
//% end
    proof { removed_wf(old(self).data@, self.data@, indices@, self.minor_dimension_size as int); }
//%%end
//%%fn src/data/linear_algebra/matrix.rs SparseMatrix::remove_minor_indices
//% spec
    requires old(self).wf(), uniq(indices@, old(self).minor_dimension_size as int), indices@.len() <= old(self).minor_dimension_size
    ensures final(self).wf(), final(self).major_dimension_size == old(self).major_dimension_size, final(self).minor_dimension_size == old(self).minor_dimension_size - indices@.len(),
      rows_removed(old(self).data@, final(self).data@, indices@)
//% loop 0
    invariant old(self).wf(), uniq(indices@, old(self).minor_dimension_size as int), self.data@.len() == old(self).data@.len(), self.major_dimension_size == old(self).major_dimension_size, self.minor_dimension_size == old(self).minor_dimension_size, self.data@.len() == self.major_dimension_size, ix0 <= self.major_dimension_size, en0 == self.major_dimension_size,
      forall|q: int| #![trigger self.data@[q]] 0 <= q < self.data@.len() ==> if q < ix0 { swf(self.data@[q]@, self.minor_dimension_size - indices@.len()) && minor_removed(old(self).data@[q]@, self.data@[q]@, indices@) } else { self.data@[q] == old(self).data@[q] }
    decreases en0 - ix0
//% loop_end 0
    proof { spremoved_all(old(self).data@[ix0 - 1]@, self.data@[ix0 - 1]@, indices@, self.minor_dimension_size as int); }
//%%end
//%%fn src/data/linear_algebra/matrix.rs SparseMatrix::inner_set_value
//% spec
    requires old(self).wf(), major_index < old(self).major_dimension_size, minor_index < old(self).minor_dimension_size, value@ != 0real
    ensures final(self).wf(), final(self).major_dimension_size == old(self).major_dimension_size, final(self).minor_dimension_size == old(self).minor_dimension_size,
      forall|j: int, i: int| #![trigger final(self).at(j, i)] 0 <= j < final(self).major_dimension_size ==> final(self).at(j, i) == (if j == major_index && i == minor_index { value@ } else { old(self).at(j, i) })
//% end
    proof { assert forall|j: int, i: int| #![trigger self.at(j, i)] 0 <= j < self.major_dimension_size implies self.at(j, i) == (if j == major_index && i == minor_index { value@ } else { old(self).at(j, i) }) by { if j == major_index { lemma_set(old(self).data@[j]@, self.data@[j]@, minor_index, value, i); } } }
//%%end
//%%fn src/data/linear_algebra/matrix.rs SparseMatrix::concatenate_major_indices
//% spec
    requires self.wf(), other.wf(), self.minor_dimension_size == other.minor_dimension_size, self.major_dimension_size + other.major_dimension_size <= usize::MAX
    ensures r.wf(), r.data@ == self.data@ + other.data@, r.major_dimension_size == self.major_dimension_size + other.major_dimension_size, r.minor_dimension_size == self.minor_dimension_size
//%%end
//%%fn src/data/linear_algebra/matrix.rs SparseMatrix::identity /MO/
//% closure 0 |c0: usize| -> (r: Vec<(usize, F)>) ensures r@.len() == 1, r@[0].0 == c0, r@[0].1@ == 1real
//% spec
    ensures r.wf(), r.major_dimension_size == len, r.minor_dimension_size == len, forall|j: int, i: int| #![trigger r.at(j, i)] 0 <= j < len ==> r.at(j, i) == (if i == j { 1real } else { 0real })
//% end
    proof { assert forall|s: Seq<(usize, F)>, k: int| s.len() == 1 implies #[trigger] sv(s, k) == (if s[0].0 == k { s[0].1@ } else { 0real }) by { assert(s =~= seq![s[0]]); sv_one(s[0], k); } }
//%%end
//%%fn src/data/linear_algebra/matrix.rs SparseMatrix::set_value /RowMajor/
//% name row_set_value
//% spec
    requires old(self).wf(), row < old(self).major_dimension_size, column < old(self).minor_dimension_size, value@ != 0real
    ensures final(self).wf(), final(self).major_dimension_size == old(self).major_dimension_size, final(self).minor_dimension_size == old(self).minor_dimension_size,
      forall|j: int, i: int| #![trigger final(self).at(j, i)] 0 <= j < final(self).major_dimension_size ==> final(self).at(j, i) == (if j == row && i == column { value@ } else { old(self).at(j, i) })
//%%end
//%%fn src/data/linear_algebra/matrix.rs SparseMatrix::set_value /ColumnMajor/
//% spec
    requires old(self).wf(), column < old(self).major_dimension_size, row < old(self).minor_dimension_size, value@ != 0real
    ensures final(self).wf(), final(self).major_dimension_size == old(self).major_dimension_size, final(self).minor_dimension_size == old(self).minor_dimension_size,
      forall|j: int, i: int| #![trigger final(self).at(j, i)] 0 <= j < final(self).major_dimension_size ==> final(self).at(j, i) == (if j == column && i == row { value@ } else { old(self).at(j, i) })
//%%end
//%%fn src/data/linear_algebra/matrix.rs SparseMatrix::nr_rows /RowMajor/
//% name row_nr_rows
//% spec
    ensures r == self.major_dimension_size
//%%end
//%%fn src/data/linear_algebra/matrix.rs SparseMatrix::nr_columns /RowMajor/
//% name row_nr_columns
//% spec
    ensures r == self.minor_dimension_size
//%%end
//%%fn src/data/linear_algebra/matrix.rs SparseMatrix::nr_rows /ColumnMajor/
//% name nr_rows
//% spec
    ensures r == self.minor_dimension_size
//%%end
//%%fn src/data/linear_algebra/matrix.rs SparseMatrix::nr_columns /ColumnMajor/
//% name nr_columns
//% spec
    ensures r == self.major_dimension_size
//%%end
//%%fn src/data/linear_algebra/matrix.rs SparseMatrix::remove_rows
//% spec
    requires old(self).wf(), uniq(indices@, old(self).major_dimension_size as int), indices@.len() <= old(self).major_dimension_size
    ensures final(self).wf(), final(self).minor_dimension_size == old(self).minor_dimension_size, final(self).major_dimension_size == old(self).major_dimension_size - indices@.len(),
      removed(old(self).data@, final(self).data@, indices@)
//%%end
//%%fn src/data/linear_algebra/matrix.rs SparseMatrix::remove_columns
//% spec
    requires old(self).wf(), uniq(indices@, old(self).major_dimension_size as int), indices@.len() <= old(self).major_dimension_size
    ensures final(self).wf(), final(self).minor_dimension_size == old(self).minor_dimension_size, final(self).major_dimension_size == old(self).major_dimension_size - indices@.len(),
      removed(old(self).data@, final(self).data@, indices@)
//%%end
//%%fn src/data/linear_algebra/matrix.rs SparseMatrix::remove_columns_although_this_matrix_is_row_ordered
//% spec
    requires old(self).wf(), uniq(indices@, old(self).minor_dimension_size as int), indices@.len() <= old(self).minor_dimension_size
    ensures final(self).wf(), final(self).major_dimension_size == old(self).major_dimension_size, final(self).minor_dimension_size == old(self).minor_dimension_size - indices@.len(),
      rows_removed(old(self).data@, final(self).data@, indices@)
//%%end
//%%fn src/data/linear_algebra/matrix.rs SparseMatrix::remove_rows_although_this_matrix_is_column_major
//% spec
    requires old(self).wf(), uniq(indices@, old(self).minor_dimension_size as int), indices@.len() <= old(self).minor_dimension_size
    ensures final(self).wf(), final(self).major_dimension_size == old(self).major_dimension_size, final(self).minor_dimension_size == old(self).minor_dimension_size - indices@.len(),
      rows_removed(old(self).data@, final(self).data@, indices@)
//%%end
//%%fn src/data/linear_algebra/matrix.rs SparseMatrix::concatenate_vertically
//% spec
    requires self.wf(), other.wf(), self.minor_dimension_size == other.minor_dimension_size, self.major_dimension_size + other.major_dimension_size <= usize::MAX
    ensures r.wf(), r.data@ == self.data@ + other.data@, r.major_dimension_size == self.major_dimension_size + other.major_dimension_size, r.minor_dimension_size == self.minor_dimension_size
//%%end
//%%fn src/data/linear_algebra/matrix.rs SparseMatrix::concatenate_horizontally
//% spec
    requires self.wf(), other.wf(), self.minor_dimension_size == other.minor_dimension_size, self.major_dimension_size + other.major_dimension_size <= usize::MAX
    ensures r.wf(), r.data@ == self.data@ + other.data@, r.major_dimension_size == self.major_dimension_size + other.major_dimension_size, r.minor_dimension_size == self.minor_dimension_size
//%%end
//%%fn src/data/linear_algebra/matrix.rs SparseMatrix::from_column_major
//% spec
    requires data.wf()
    ensures r.wf(), r.major_dimension_size == data.minor_dimension_size, r.minor_dimension_size == data.major_dimension_size,
      forall|j: int, i: int| #![trigger r.at(j, i)] 0 <= j < r.major_dimension_size && 0 <= i < r.minor_dimension_size ==> r.at(j, i) == data.at(i, j)
//%%end
//%%fn src/data/linear_algebra/matrix.rs SparseMatrix::from_row_ordered_tuples_although_this_is_expensive
//% spec
    requires rows_wf(rows@, current_nr_columns as int)
    ensures r.wf(), r.major_dimension_size == current_nr_columns, r.minor_dimension_size == rows@.len(),
      forall|j: int, i: int| #![trigger r.at(j, i)] 0 <= j < current_nr_columns && 0 <= i < rows@.len() ==> r.at(j, i) == sv(rows@[i]@, j)
//%%end
/// b is a with the sign of the entries in the given rows turned, up to position n
pub open spec fn signs(a: Seq<(usize, F)>, b: Seq<(usize, F)>, rows: Set<usize>, n: int) -> bool {
    a.len() == b.len() && forall|k: int| #![trigger b[k]] 0 <= k < a.len() ==> b[k].0 == a[k].0 && b[k].1@ == (if k < n && rows.contains(a[k].0) { 0real - a[k].1@ } else { a[k].1@ })
}
pub proof fn signs_wf(a: Seq<(usize, F)>, b: Seq<(usize, F)>, rows: Set<usize>, n: int) requires swf(a, n), signs(a, b, rows, a.len() as int) ensures swf(b, n) {}
pub proof fn signs_sv(a: Seq<(usize, F)>, b: Seq<(usize, F)>, rows: Set<usize>, i: int)
    requires signs(a, b, rows, a.len() as int), 0 <= i <= usize::MAX
    ensures sv(b, i) == (if rows.contains(i as usize) { 0real - sv(a, i) } else { sv(a, i) })
    decreases a.len()
{
    if a.len() > 0 { let (x, y) = (a.drop_last(), b.drop_last()); assert(b[b.len() - 1].0 == a[a.len() - 1].0);
      assert forall|k: int| #![trigger y[k]] 0 <= k < x.len() implies y[k].0 == x[k].0 && y[k].1@ == (if k < x.len() && rows.contains(x[k].0) { 0real - x[k].1@ } else { x[k].1@ }) by { assert(b[k] == y[k]); assert(a[k] == x[k]); }
      signs_sv(x, y, rows, i); }
}
//%%fn src/data/linear_algebra/matrix.rs SparseMatrix::change_row_signs
//% mut_ref
//% loop 0
    invariant old(self).wf(), self.data@.len() == old(self).data@.len(), en0 == self.data@.len(), self.major_dimension_size == old(self).major_dimension_size, self.minor_dimension_size == old(self).minor_dimension_size, ix0 <= en0,
      forall|q: int| #![trigger self.data@[q]] 0 <= q < self.data@.len() ==> if q < ix0 { signs(old(self).data@[q]@, self.data@[q]@, rows_to_change@, old(self).data@[q]@.len() as int) } else { self.data@[q] == old(self).data@[q] }
    decreases en0 - ix0
//% loop 1
    invariant column@.len() == old(self).data@[ix0 - 1]@.len(), en1 == column@.len(), ix1 <= en1, 0 < ix0 <= en0, signs(old(self).data@[ix0 - 1]@, column@, rows_to_change@, ix1 as int)
    decreases en1 - ix1
//% end
    proof { 
      assert forall|j: int| #![trigger self.data@[j]] 0 <= j < self.data@.len() implies swf(self.data@[j]@, self.minor_dimension_size as int) by { signs_wf(old(self).data@[j]@, self.data@[j]@, rows_to_change@, self.minor_dimension_size as int); }
      assert forall|j: int, i: int| #![trigger self.at(j, i)] 0 <= j < self.major_dimension_size && 0 <= i <= usize::MAX implies self.at(j, i) == (if rows_to_change@.contains(i as usize) { 0real - old(self).at(j, i) } else { old(self).at(j, i) }) by { signs_sv(old(self).data@[j]@, self.data@[j]@, rows_to_change@, i); }
    }
//% spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).major_dimension_size == old(self).major_dimension_size, final(self).minor_dimension_size == old(self).minor_dimension_size,
      forall|j: int, i: int| #![trigger final(self).at(j, i)] 0 <= j < final(self).major_dimension_size && 0 <= i <= usize::MAX ==> final(self).at(j, i) == (if rows_to_change@.contains(i as usize) { 0real - old(self).at(j, i) } else { old(self).at(j, i) })
//%%end
//%%fn src/data/linear_algebra/matrix.rs SparseMatrix::iter_major_index
//% types impl Iterator=VIter<&(usize, F)>
//% spec
    requires major_index < self.data@.len()
    ensures r@ == refs(self.data@[major_index as int]@)
//%%end
//%%fn src/data/linear_algebra/matrix.rs SparseMatrix::iter_column
//% types impl Iterator=VIter<&(usize, F)>
//% spec
    requires j < self.data@.len()
    ensures r@ == refs(self.data@[j as int]@)
//%%end
//%%fn src/data/linear_algebra/matrix.rs SparseMatrix::iter_row
//% types impl Iterator=VIter<&(usize, F)>
//% spec
    requires i < self.data@.len()
    ensures r@ == refs(self.data@[i as int]@)
//%%end
pub proof fn removed_wf(a: Seq<Vec<(usize, F)>>, b: Seq<Vec<(usize, F)>>, idx: Seq<usize>, n: int)
    requires rows_wf(a, n), removed(a, b, idx), uniq(idx, a.len() as int)
    ensures rows_wf(b, n)
{
    assert forall|k: int| #![trigger b[k]] 0 <= k < b.len() implies swf(b[k]@, n) by { let i = choose|i: int| 0 <= i < a.len() && !idx.contains(i as usize) && i - rank(idx, i) == k && b[k] == #[trigger] a[i]; assert(swf(a[i]@, n)); }
}
} // verus!
fn main() {}
