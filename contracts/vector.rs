// Unit: sparse and dense vectors.
use vstd::prelude::*;
verus! {
//%%include prelude.rs
//%%include sparse_spec.rs
//%%include index_spec.rs
//%%include index_sparse.rs
//%%types F=F; C=F; Sparse=Sparse; SparseVector=Sparse; SparseTuple=(usize, F); Dense=Dense; DenseVector=Dense; Self::Inner=(usize, F)
//%%item src/data/linear_algebra/vector/sparse.rs Sparse
//%%end
impl Sparse {
    pub open spec fn wf(&self) -> bool { swf(self.data@, self.len as int) }
    pub open spec fn at(&self, i: int) -> real { sv(self.data@, i) }
}
//%%fn src/data/linear_algebra/vector/sparse.rs Sparse::get_data_index
//% spec
    requires wsorted(self.data@)
    ensures r is Ok ==> (r->Ok_0 < self.data@.len() && self.data@[r->Ok_0 as int].0 == i),
      r is Err ==> (r->Err_0 <= self.data@.len() && (forall|k: int| 0 <= k < r->Err_0 ==> (#[trigger] self.data@[k]).0 < i) && (forall|k: int| r->Err_0 <= k < self.data@.len() ==> (#[trigger] self.data@[k]).0 > i)),
//%%end
//%%fn src/data/linear_algebra/vector/sparse.rs Sparse::set_zero
//% spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).len == old(self).len, forall|k: int| #![trigger final(self).at(k)] final(self).at(k) == (if k == i { 0real } else { old(self).at(k) })
//% end
    proof { assert forall|k: int| #![trigger self.at(k)] self.at(k) == (if k == i { 0real } else { old(self).at(k) }) by { lemma_set_zero(old(self).data@, self.data@, i, k); } }
//%%end
pub proof fn lemma_set_zero(a: Seq<(usize, F)>, b: Seq<(usize, F)>, i: usize, k: int)
    requires ssorted(a), (exists|p: int| 0 <= p < a.len() && #[trigger] a[p].0 == i && b == a.remove(p)) || ((forall|p: int| 0 <= p < a.len() ==> #[trigger] a[p].0 != i) && a == b)
    ensures sv(b, k) == (if k == i { 0real } else { sv(a, k) })
{
    if exists|p: int| 0 <= p < a.len() && #[trigger] a[p].0 == i && b == a.remove(p) {
        let p = choose|p: int| 0 <= p < a.len() && #[trigger] a[p].0 == i && b == a.remove(p);
        sv_remove(a, p, k); sv_at(a, p);
    } else if k == i { sv_absent(a, k); }
}
//%%fn src/data/linear_algebra/vector/sparse.rs Sparse::extend
//% spec
    requires old(self).wf(), old(self).len + extra_len <= usize::MAX
    ensures final(self).wf(), final(self).len == old(self).len + extra_len, forall|k: int| #![trigger final(self).at(k)] final(self).at(k) == old(self).at(k)
//%%end
//%%fn src/data/linear_algebra/vector/sparse.rs Sparse as Vector::new
//% spec
    requires swf(data@, len as int)
    ensures r.wf(), r.len == len, r.data == data
//%%end
//%%fn src/data/linear_algebra/vector/sparse.rs Sparse as Vector::push_value
//% spec
    requires old(self).wf(), old(self).len < usize::MAX, value@ != 0real
    ensures final(self).wf(), final(self).len == old(self).len + 1, forall|k: int| #![trigger final(self).at(k)] final(self).at(k) == (if k == old(self).len { value@ } else { old(self).at(k) })
//% end
    proof { assert forall|k: int| #![trigger self.at(k)] self.at(k) == (if k == old(self).len { value@ } else { old(self).at(k) }) by { sv_push(old(self).data@, (old(self).len, value), k); if k == old(self).len { sv_absent(old(self).data@, k); } } }
//%%end
//%%fn src/data/linear_algebra/vector/sparse.rs Sparse as Vector::set
//% spec
    requires old(self).wf(), i < old(self).len, value@ != 0real
    ensures final(self).wf(), final(self).len == old(self).len, forall|k: int| #![trigger final(self).at(k)] final(self).at(k) == (if k == i { value@ } else { old(self).at(k) })
//% end
    proof { assert forall|k: int| #![trigger self.at(k)] self.at(k) == (if k == i { value@ } else { old(self).at(k) }) by { lemma_set(old(self).data@, self.data@, i, value, k); } }
//%%end
//%%fn src/data/linear_algebra/vector/sparse.rs Sparse as Vector::get
//% spec
    requires self.wf(), index < self.len
    ensures r is Some ==> (r->0@ == self.at(index as int) && r->0@ != 0real), r is None ==> self.at(index as int) == 0real
//% closure 0 |c0: usize| -> (r: &F) requires c0 < self.data@.len() ensures *r == self.data@[c0 as int].1
//% end
    proof { lemma_get(self.data@, index); }
//%%end
pub proof fn lemma_get(a: Seq<(usize, F)>, i: usize)
    requires ssorted(a)
    ensures forall|p: int| 0 <= p < a.len() && (#[trigger] a[p]).0 == i ==> sv(a, i as int) == a[p].1@, (forall|p: int| 0 <= p < a.len() ==> (#[trigger] a[p]).0 != i) ==> sv(a, i as int) == 0real
{
    assert forall|p: int| 0 <= p < a.len() && (#[trigger] a[p]).0 == i implies sv(a, i as int) == a[p].1@ by { sv_at(a, p); }
    if forall|p: int| 0 <= p < a.len() ==> (#[trigger] a[p]).0 != i { sv_absent(a, i as int); }
}
//%%fn src/data/linear_algebra/vector/sparse.rs Sparse as Vector::len
//% spec
    ensures r == self.len
//%%end
//%%fn src/data/linear_algebra/vector/sparse.rs Sparse as Vector::is_empty
//% spec
    ensures r == (self.len == 0)
//%%end
//%%fn src/data/linear_algebra/vector/sparse.rs Sparse as Vector::size
//% spec
    ensures r == self.data@.len()
//%%end
//%%fn src/data/linear_algebra/vector/sparse.rs Sparse::standard_basis_vector
//% spec
    requires i < len
    ensures r.wf(), r.len == len, forall|k: int| #![trigger r.at(k)] r.at(k) == (if k == i { 1real } else { 0real })
//% end
    proof { assert forall|s: Seq<(usize, F)>, k: int| s.len() == 1 implies #[trigger] sv(s, k) == (if s[0].0 == k { s[0].1@ } else { 0real }) by { assert(s =~= seq![s[0]]); sv_one(s[0], k); } }
//%%end
/// what stays below: every entry listed so far lies before the rest of t
pub open spec fn before(n: Seq<(usize, F)>, t: Seq<(usize, F)>, j: int) -> bool { forall|q: int, p: int| #![trigger n[q], t[p]] 0 <= q < n.len() && j <= p < t.len() ==> n[q].0 < t[p].0 }
/// n is the sum of the first ka entries of a and m times the first kb entries of b
pub open spec fn merged(n: Seq<(usize, F)>, a: Seq<(usize, F)>, ka: int, b: Seq<(usize, F)>, kb: int, m: real, len: int) -> bool {
    0 <= ka <= a.len() && 0 <= kb <= b.len() && swf(n, len) && before(n, a, ka) && before(n, b, kb)
    && forall|k: int| #![trigger sv(n, k)] sv(n, k) == sv(a.subrange(0, ka), k) + m * sv(b.subrange(0, kb), k)
}
/// taking entry kb of b
pub proof fn merge_b(n: Seq<(usize, F)>, r: Seq<(usize, F)>, a: Seq<(usize, F)>, ka: int, b: Seq<(usize, F)>, kb: int, m: real, len: int)
    requires merged(n, a, ka, b, kb, m, len), m != 0real, swf(a, len), swf(b, len), kb < b.len(), ka < a.len() ==> b[kb].0 < a[ka].0,
      r.len() == n.len() + 1, r.drop_last() == n, r.last().0 == b[kb].0, r.last().1@ == m * b[kb].1@
    ensures merged(r, a, ka, b, kb + 1, m, len)
{
    let x = r.last(); assert(r =~= n.push(x));
    assert(x.1@ != 0real) by(nonlinear_arith) requires x.1@ == m * b[kb].1@, m != 0real, b[kb].1@ != 0real;
    assert forall|k: int| #![trigger sv(r, k)] sv(r, k) == sv(a.subrange(0, ka), k) + m * sv(b.subrange(0, kb + 1), k) by {
        sv_push(n, x, k); sv_step(b, kb, k); let (u, w) = (sv(b.subrange(0, kb), k), b[kb].1@);
        assert(m * (u + w) == m * u + m * w && m * (u + 0real) == m * u) by(nonlinear_arith);
    }
}
/// taking entry ka of a alone
pub proof fn merge_a(n: Seq<(usize, F)>, r: Seq<(usize, F)>, a: Seq<(usize, F)>, ka: int, b: Seq<(usize, F)>, kb: int, m: real, len: int)
    requires merged(n, a, ka, b, kb, m, len), swf(a, len), swf(b, len), ka < a.len(), kb < b.len() ==> a[ka].0 < b[kb].0,
      r == n.push(a[ka])
    ensures merged(r, a, ka + 1, b, kb, m, len)
{
    assert forall|k: int| #![trigger sv(r, k)] sv(r, k) == sv(a.subrange(0, ka + 1), k) + m * sv(b.subrange(0, kb), k) by { sv_push(n, a[ka], k); sv_step(a, ka, k); }
}
/// taking both entries at once, dropping them when they cancel
pub proof fn merge_ab(n: Seq<(usize, F)>, r: Seq<(usize, F)>, a: Seq<(usize, F)>, ka: int, b: Seq<(usize, F)>, kb: int, m: real, len: int)
    requires merged(n, a, ka, b, kb, m, len), swf(a, len), swf(b, len), ka < a.len(), kb < b.len(), a[ka].0 == b[kb].0,
      (r == n && a[ka].1@ + m * b[kb].1@ == 0real) || (r.len() == n.len() + 1 && r.drop_last() == n && r.last().0 == a[ka].0 && r.last().1@ == a[ka].1@ + m * b[kb].1@ && r.last().1@ != 0real)
    ensures merged(r, a, ka + 1, b, kb + 1, m, len)
{
    if r != n { assert(r =~= n.push(r.last())); }
    assert forall|k: int| #![trigger sv(r, k)] sv(r, k) == sv(a.subrange(0, ka + 1), k) + m * sv(b.subrange(0, kb + 1), k) by {
        if r != n { sv_push(n, r.last(), k); } else { assert(sv(n, k) == sv(r, k)); }
        assert(sv(n, k) == sv(a.subrange(0, ka), k) + m * sv(b.subrange(0, kb), k));
        sv_step(a, ka, k); sv_step(b, kb, k); let (u, w) = (sv(b.subrange(0, kb), k), b[kb].1@);
        assert(m * (u + w) == m * u + m * w && m * (u + 0real) == m * u) by(nonlinear_arith);
    }
}
//%%fn src/data/linear_algebra/vector/sparse.rs Sparse::add_multiple_of_row
//% types G=&F
//% path mem::replace=v_replace
//% spec
    requires old(self).wf(), other.wf(), other.len == old(self).len, multiple@ != 0real
    ensures final(self).wf(), final(self).len == old(self).len, forall|k: int| #![trigger final(self).at(k)] final(self).at(k) == old(self).at(k) + multiple@ * other.at(k)
//% before_loop 0
    proof { assert forall|k: int| #![trigger sv(new_tuples@, k)] sv(new_tuples@, k) == sv(old(self).data@.subrange(0, 0), k) + multiple@ * sv(other.data@.subrange(0, 0), k) by { assert(multiple@ * 0real == 0real) by(nonlinear_arith); } }
//% loop 0
    invariant old(self).wf(), other.wf(), other.len == old(self).len, multiple@ != 0real, self.len == old(self).len, it0@ == old(self).data@, j <= other.data@.len(),
      merged(new_tuples@, old(self).data@, ix0 as int, other.data@, j as int, multiple@, other.len as int), ix0 <= it0@.len()
    decreases it0@.len() - ix0
//% loop 1
    invariant other.wf(), old(self).wf(), j <= other.data@.len(), multiple@ != 0real, 0 < ix0 <= it0@.len(), it0@ == old(self).data@, i == old(self).data@[ix0 - 1].0, other.len == old(self).len, 
      merged(new_tuples@, old(self).data@, ix0 - 1, other.data@, j as int, multiple@, other.len as int)
    decreases other.data@.len() - j
//% loop_start 1
    let ghost n0 = new_tuples@;
//% loop_end 1
    proof { assert(new_tuples@.drop_last() =~= n0); assert(other.data@[j - 1].1@ * multiple@ == multiple@ * other.data@[j - 1].1@) by(nonlinear_arith); merge_b(n0, new_tuples@, old(self).data@, ix0 - 1, other.data@, j - 1, multiple@, other.len as int); }
//% after_loop 1
    let ghost n1 = new_tuples@; let ghost j1 = j;
//% loop_end 0
    proof { 
      let (a, b) = (old(self).data@, other.data@);
      assert(new_tuples@ =~= n1 || new_tuples@.drop_last() =~= n1);
      if j1 < b.len() { let x = b[j1 as int].1@; assert(x * multiple@ == multiple@ * x) by(nonlinear_arith); }
      if j1 < b.len() && b[j1 as int].0 == a[ix0 - 1].0 { merge_ab(n1, new_tuples@, a, ix0 - 1, b, j1 as int, multiple@, other.len as int); }
      else { assert(new_tuples@ =~= n1.push(a[ix0 - 1])); merge_a(n1, new_tuples@, a, ix0 - 1, b, j1 as int, multiple@, other.len as int); }
    }
//% after_loop 0
    proof { assert(old(self).data@.subrange(0, ix0 as int) =~= old(self).data@); }
    let ghost j2 = j as int;
//% loop 2
    invariant old(self).wf(), other.wf(), multiple@ != 0real, self.len == old(self).len, 0 <= j2 <= other.data@.len(), it2@ == refs(other.data@.subrange(j2, other.data@.len() as int)), ix2 <= it2@.len(), other.len == old(self).len,
      merged(new_tuples@, old(self).data@, old(self).data@.len() as int, other.data@, j2 + ix2, multiple@, other.len as int)
    decreases it2@.len() - ix2
//% loop_start 2
    let ghost n0 = new_tuples@;
//% loop_end 2
    proof { let q = j2 + ix2 - 1; assert(it2@[ix2 - 1] == &other.data@[q]); assert(new_tuples@.drop_last() =~= n0); assert(other.data@[q].1@ * multiple@ == multiple@ * other.data@[q].1@) by(nonlinear_arith); merge_b(n0, new_tuples@, old(self).data@, old(self).data@.len() as int, other.data@, q, multiple@, other.len as int); }
//% end
    proof { assert(old(self).data@.subrange(0, old(self).data@.len() as int) =~= old(self).data@); assert(other.data@.subrange(0, other.data@.len() as int) =~= other.data@);
      assert forall|k: int| #![trigger self.at(k)] self.at(k) == old(self).at(k) + multiple@ * other.at(k) by { assert(sv(self.data@, k) == sv(self.data@, k)); } }
//%%end
//%%fn src/data/linear_algebra/vector/sparse.rs Sparse::shift_value
//% types G=F
//% path From::from=F::from
//% spec
    requires old(self).wf(), i < old(self).len
    ensures final(self).wf(), final(self).len == old(self).len, forall|k: int| #![trigger final(self).at(k)] final(self).at(k) == old(self).at(k) + (if k == i { value@ } else { 0real })
//% end
    proof { assert forall|k: int| #![trigger self.at(k)] self.at(k) == old(self).at(k) + (if k == i { value@ } else { 0real }) by { let (x, y) = (old(self).data@, self.data@); lemma_get(x, i); lemma_shift(x, y, i, value@, k); if value@ != 0real && !ins(x, y, i, value@) && !upd(x, y, i, value@) { assert(old(self).at(k) == sv(x, k)); assert(old(self).at(i as int) == 0real - value@); } } }
//%%end
pub open spec fn upd(a: Seq<(usize, F)>, b: Seq<(usize, F)>, i: usize, v: real) -> bool { a.len() == b.len() && exists|p: int| 0 <= p < a.len() && (#[trigger] a[p]).0 == i && b[p].0 == i && b[p].1@ == a[p].1@ + v && (forall|q: int| 0 <= q < a.len() && q != p ==> #[trigger] b[q] == a[q]) }
pub open spec fn ins(a: Seq<(usize, F)>, b: Seq<(usize, F)>, i: usize, v: real) -> bool { exists|p: int, x: F| 0 <= p <= a.len() && b == #[trigger] a.insert(p, (i, x)) && x@ == v && (forall|q: int| 0 <= q < a.len() ==> (#[trigger] a[q]).0 != i) }
pub proof fn lemma_shift(a: Seq<(usize, F)>, b: Seq<(usize, F)>, i: usize, v: real, k: int)
    requires ssorted(a)
    ensures upd(a, b, i, v) || ins(a, b, i, v) ==> sv(b, k) == sv(a, k) + (if k == i { v } else { 0real })
{
    if upd(a, b, i, v) {
        let p = choose|p: int| 0 <= p < a.len() && (#[trigger] a[p]).0 == i && b[p].0 == i && b[p].1@ == a[p].1@ + v && (forall|q: int| 0 <= q < a.len() && q != p ==> #[trigger] b[q] == a[q]);
        assert(b =~= a.update(p, b[p])); sv_update(a, p, b[p], k); sv_at(a, p);
    } else if ins(a, b, i, v) {
        let (p, x) = choose|p: int, x: F| 0 <= p <= a.len() && b == #[trigger] a.insert(p, (i, x)) && x@ == v && (forall|q: int| 0 <= q < a.len() ==> (#[trigger] a[q]).0 != i);
        sv_insert(a, p, (i, x), k); if k == i { sv_absent(a, k); }
    }
}
//%%fn src/data/linear_algebra/vector/sparse.rs Sparse::element_wise_multiply
//% spec
    requires old(self).wf(), value@ != 0real
    ensures final(self).wf(), final(self).len == old(self).len, forall|k: int| #![trigger final(self).at(k)] final(self).at(k) == old(self).at(k) * value@
//% loop 0
    invariant value@ != 0real, self.len == old(self).len, self.data@.len() == old(self).data@.len(), en0 == self.data@.len(), ix0 <= self.data@.len(), old(self).wf(),
      forall|q: int| #![trigger self.data@[q]] 0 <= q < self.data@.len() ==> self.data@[q].0 == old(self).data@[q].0 && self.data@[q].1@ == (if q < ix0 { old(self).data@[q].1@ * value@ } else { old(self).data@[q].1@ })
    decreases self.data@.len() - ix0
//% end
    proof { assert forall|k: int| #![trigger self.at(k)] self.at(k) == old(self).at(k) * value@ by { sv_scaled(old(self).data@, self.data@, value@, k); }
      assert forall|q: int| #![trigger self.data@[q]] 0 <= q < self.data@.len() implies self.data@[q].1@ != 0real by { let x = old(self).data@[q].1@; assert(x * value@ != 0real) by(nonlinear_arith) requires x != 0real, value@ != 0real; } }
//%%end
//%%fn src/data/linear_algebra/vector/sparse.rs Sparse::element_wise_divide
//% spec
    requires old(self).wf(), value@ != 0real
    ensures final(self).wf(), final(self).len == old(self).len, forall|k: int| #![trigger final(self).at(k)] final(self).at(k) * value@ == old(self).at(k)
//% loop 0
    invariant value@ != 0real, self.len == old(self).len, self.data@.len() == old(self).data@.len(), en0 == self.data@.len(), ix0 <= self.data@.len(), old(self).wf(),
      forall|q: int| #![trigger self.data@[q]] 0 <= q < self.data@.len() ==> self.data@[q].0 == old(self).data@[q].0 && (if q < ix0 { self.data@[q].1@ == old(self).data@[q].1@ / value@ } else { self.data@[q].1@ == old(self).data@[q].1@ })
    decreases self.data@.len() - ix0
//% end
    proof { assert forall|q: int| #![trigger self.data@[q]] 0 <= q < self.data@.len() implies self.data@[q].1@ != 0real && old(self).data@[q].1@ == self.data@[q].1@ * value@ by { let x = old(self).data@[q].1@; let v = value@; assert(x / v != 0real && (x / v) * v == x) by(nonlinear_arith) requires x != 0real, v != 0real; }
      assert forall|k: int| #![trigger self.at(k)] self.at(k) * value@ == old(self).at(k) by { sv_scaled(self.data@, old(self).data@, value@, k); } }
//%%end
//%%fn src/data/linear_algebra/vector/sparse.rs Sparse as Vector::sparse_inner_product
//% types O=F; I=VIter<(usize, &'b F)>
//% spec
    requires self.wf(), ssorted(own(column@))
    ensures r@ == dot(own(column@), |i: int| self.at(i))
//% end
    proof { assert((|i: int| self.at(i)) =~= (|i: int| sv(self.data@, i))); }
//%%end
//%%fn src/data/linear_algebra/vector/sparse.rs Sparse as Vector::remove_indices
//% spec
    requires old(self).wf(), uniq(indices@, old(self).len as int), indices@.len() <= old(self).len
    ensures final(self).wf(), final(self).len == old(self).len - indices@.len(), minor_removed(old(self).data@, final(self).data@, indices@)
//% end
    proof { spremoved_all(old(self).data@, self.data@, indices@, old(self).len as int); }
//%%end
//%%fn src/data/linear_algebra/vector/sparse.rs Sparse as FromIterator::from_iter
//% types I=VIter<F>
//% spec
    requires iter@.len() <= usize::MAX
    ensures r.wf(), r.len == iter@.len(), forall|k: int| #![trigger r.at(k)] r.at(k) == (if 0 <= k < iter@.len() { iter@[k]@ } else { 0real })
//% loop 0
    invariant it0@ == iter@, ix0 <= it0@.len(), counter == ix0, it0@.len() <= usize::MAX, swf(data@, ix0 as int), forall|k: int| #![trigger sv(data@, k)] sv(data@, k) == (if 0 <= k < ix0 { iter@[k]@ } else { 0real })
    decreases it0@.len() - ix0
//% loop_start 0
    let ghost d0 = data@;
//% loop_end 0
    proof { assert forall|k: int| #![trigger sv(data@, k)] sv(data@, k) == (if 0 <= k < ix0 { iter@[k]@ } else { 0real }) by { assert(sv(d0, k) == sv(d0, k)); if iter@[ix0 - 1]@ != 0real { sv_push(d0, data@.last(), k); assert(data@ =~= d0.push(data@.last())); } } }
//%%end
//%%fn src/data/linear_algebra/vector/sparse.rs Sparse::squared_norm
//% closure 0 |c0: &(usize, F)| -> (r: F) ensures r@ == c0.1@ * c0.1@
//% spec
    requires self.wf()
    ensures r@ == dot(self.data@, |i: int| self.at(i))
//% end
    proof { sums(self.data@, |i: int| self.at(i)); assert forall|k: int| 0 <= k < self.data@.len() implies #[trigger] self.data@[k].1@ * self.at(self.data@[k].0 as int) == self.data@[k].1@ * self.data@[k].1@ by { sv_at(self.data@, k); } }
//%%end
//%%item src/data/linear_algebra/vector/dense.rs Dense
//%%end
//%%fn src/data/linear_algebra/vector/dense.rs Dense::constant
//% spec
    ensures r.data@.len() == len, forall|k: int| #![trigger r.data@[k]] 0 <= k < len ==> r.data@[k] == value
//%%end
//%%fn src/data/linear_algebra/vector/dense.rs Dense::extend_with_values
//% spec
    ensures final(self).data@ == old(self).data@ + new_values@
//%%end
//%%fn src/data/linear_algebra/vector/dense.rs Dense as Index::index
//% types Self::Output=F
//% spec
    requires index < self.data@.len()
    ensures *r == self.data@[index as int]
//%%end
//%%fn src/data/linear_algebra/vector/dense.rs Dense as Vector::new
//% types Self::Inner=F
//% spec
    ensures r.data == data
//%%end
//%%fn src/data/linear_algebra/vector/dense.rs Dense as Vector::sparse_inner_product
//% types O=F; I=VIter<(usize, &'b F)>
//% path O::zero=F::zero
//% spec
    requires bounded(own(column@), self.data@.len() as int)
    ensures r@ == dot(own(column@), |i: int| self.data@[i]@)
//% loop 0
    invariant it0@ == column@, ix0 <= it0@.len(), bounded(own(column@), self.data@.len() as int), total@ == dot(own(column@).subrange(0, ix0 as int), |i: int| self.data@[i]@)
    decreases it0@.len() - ix0
//% loop_start 0
    proof { let q = ix0 - 1; dot_step(own(column@), q, |i: int| self.data@[i]@); assert(own(column@)[q] == (column@[q].0, *column@[q].1)); let (x, y) = (*column@[q].1, self.data@[column@[q].0 as int]); assert(x@ * y@ == y@ * x@) by(nonlinear_arith); }
//% end
    proof { assert(own(column@).subrange(0, own(column@).len() as int) =~= own(column@)); }
//%%end
//%%fn src/data/linear_algebra/vector/dense.rs Dense as Vector::push_value
//% spec
    ensures final(self).data@ == old(self).data@.push(value)
//%%end
//%%fn src/data/linear_algebra/vector/dense.rs Dense as Vector::set
//% spec
    requires i < old(self).data@.len()
    ensures final(self).data@ == old(self).data@.update(i as int, value)
//%%end
//%%fn src/data/linear_algebra/vector/dense.rs Dense as Vector::get
//% spec
    requires i < self.data@.len()
    ensures r is Some, *r->0 == self.data@[i as int]
//%%end
//%%fn src/data/linear_algebra/vector/dense.rs Dense as Vector::remove_indices
//% spec
    requires uniq(indices@, old(self).data@.len() as int)
    ensures removed(old(self).data@, final(self).data@, indices@)
//%%end
//%%fn src/data/linear_algebra/vector/dense.rs Dense as Vector::len
//% spec
    ensures r == self.data@.len()
//%%end
//%%fn src/data/linear_algebra/vector/dense.rs Dense as Vector::is_empty
//% spec
    ensures r == (self.data@.len() == 0)
//%%end
//%%fn src/data/linear_algebra/vector/dense.rs Dense as FromIterator::from_iter
//% types I=VIter<F>; T=F
//% spec
    ensures r.data@ == iter@
//%%end
//%%fn src/data/linear_algebra/vector/sparse.rs Sparse::inner_product_with_dense
//% types F2=F; O=F
//% subst other[*i] => other.data[*i]
//% closure 0 |c0: &(usize, F)| -> (r: F) requires c0.0 < other.data@.len() ensures r@ == c0.1@ * other.data@[c0.0 as int]@
//% spec
    requires self.wf(), other.data@.len() == self.len
    ensures r@ == dot(self.data@, |i: int| other.data@[i]@)
//% end
    proof { sums(self.data@, |i: int| other.data@[i]@); }
//%%end
} // verus!
fn main() {}
