// ---- contracts assumed on the dependency index-utils 2.3.0 ----
/// the product of a sorted slice and a column of increasing indices
#[verifier::external_body] pub fn inner_product_slice_iter(left: &Vec<(usize, F)>, right: VIter<(usize, &F)>) -> (r: F)
    requires ssorted(left@), ssorted(own(right@))
    ensures r@ == dot(own(right@), |i: int| sv(left@, i)) { unimplemented!() }
/// how many of the removed positions lie below i
pub open spec fn rank(idx: Seq<usize>, i: int) -> int decreases idx.len() { if idx.len() == 0 { 0 } else { rank(idx.drop_last(), i) + (if idx.last() < i { 1int } else { 0int }) } }
pub open spec fn uniq(idx: Seq<usize>, n: int) -> bool { (forall|a: int, b: int| #![trigger idx[a], idx[b]] 0 <= a < b < idx.len() ==> idx[a] < idx[b]) && forall|a: int| #![trigger idx[a]] 0 <= a < idx.len() ==> idx[a] < n }
/// b is the entry list a without the entries at the removed indices, the others moved down
pub open spec fn spremoved<T>(a: Seq<(usize, T)>, b: Seq<(usize, T)>, m: Seq<int>, idx: Seq<usize>) -> bool {
    m.len() == b.len() && increasing(m)
    && (forall|k: int| #![trigger b[k]] #![trigger m[k]] 0 <= k < b.len() ==> 0 <= m[k] < a.len() && !idx.contains(a[m[k]].0) && b[k] == ((a[m[k]].0 - rank(idx, a[m[k]].0 as int)) as usize, a[m[k]].1))
    && (forall|q: int| #![trigger a[q]] 0 <= q < a.len() && !idx.contains(a[q].0) ==> exists|k: int| 0 <= k < m.len() && #[trigger] m[k] == q)
}
#[verifier::external_body] pub fn remove_sparse_indices<T>(v: &mut Vec<(usize, T)>, idx: &[usize])
    requires ssorted(old(v)@), forall|a: int, b: int| #![trigger idx@[a], idx@[b]] 0 <= a < b < idx@.len() ==> idx@[a] < idx@[b]
    ensures exists|m: Seq<int>| #[trigger] spremoved(old(v)@, final(v)@, m, idx@) { unimplemented!() }
pub proof fn rank_pos(idx: Seq<usize>, i: int)
    requires forall|a: int, b: int| #![trigger idx[a], idx[b]] 0 <= a < b < idx.len() ==> idx[a] < idx[b]
    ensures 0 <= rank(idx, i) <= idx.len(), forall|k: int| #![trigger idx[k]] 0 <= k < rank(idx, i) ==> idx[k] < i, forall|k: int| #![trigger idx[k]] rank(idx, i) <= k < idx.len() ==> idx[k] >= i
    decreases idx.len()
{
    if idx.len() > 0 {
        let d = idx.drop_last(); let l = idx.last(); let n = d.len() as int; rank_pos(d, i); assert(idx[n] == l);
        assert forall|k: int| #![trigger idx[k]] 0 <= k < rank(idx, i) implies idx[k] < i by { if k < n { assert(d[k] == idx[k]); } }
        if l < i { if rank(d, i) < n { assert(d[n - 1] == idx[n - 1]); assert(idx[n - 1] < idx[n]); } }
        assert forall|k: int| #![trigger idx[k]] rank(idx, i) <= k < idx.len() implies idx[k] >= i by { if k < n { assert(d[k] == idx[k]); } }
    }
}
pub proof fn inc_gap(idx: Seq<usize>, a: int, b: int)
    requires 0 <= a <= b < idx.len(), forall|a: int, b: int| #![trigger idx[a], idx[b]] 0 <= a < b < idx.len() ==> idx[a] < idx[b]
    ensures idx[b] - idx[a] >= b - a decreases b - a
{ if a < b { inc_gap(idx, a, b - 1); assert(idx[b - 1] < idx[b]); } }
/// positions that stay keep their order
pub proof fn kept_lt(idx: Seq<usize>, a: int, b: int)
    requires forall|a: int, b: int| #![trigger idx[a], idx[b]] 0 <= a < b < idx.len() ==> idx[a] < idx[b], 0 <= a < b, a <= usize::MAX, !idx.contains(a as usize)
    ensures 0 <= a - rank(idx, a) < b - rank(idx, b)
{
    rank_pos(idx, a); rank_pos(idx, b); let (p, q) = (rank(idx, a), rank(idx, b));
    if q < p { assert(idx[q] >= b && idx[q] < a); }
    if p < q { assert(idx[p] >= a); if idx[p] == a { assert(idx.contains(a as usize)); } assert(idx[q - 1] < b); inc_gap(idx, p, q - 1); }
    if p > 0 { inc_gap(idx, 0, p - 1); assert(idx[p - 1] < a); }
}
/// at the end everything removed counts
pub proof fn rank_all(idx: Seq<usize>, n: int) requires uniq(idx, n) ensures rank(idx, n) == idx.len() { rank_pos(idx, n); if rank(idx, n) < idx.len() { assert(idx[rank(idx, n)] < n); } }
pub proof fn spremoved_sorted<T>(a: Seq<(usize, T)>, b: Seq<(usize, T)>, m: Seq<int>, idx: Seq<usize>)
    requires spremoved(a, b, m, idx), ssorted(a), forall|a: int, b: int| #![trigger idx[a], idx[b]] 0 <= a < b < idx.len() ==> idx[a] < idx[b]
    ensures ssorted(b), forall|k: int| #![trigger b[k]] 0 <= k < b.len() ==> b[k].0 == a[m[k]].0 - rank(idx, a[m[k]].0 as int)
{
    assert forall|k: int| #![trigger b[k]] 0 <= k < b.len() implies b[k].0 == a[m[k]].0 - rank(idx, a[m[k]].0 as int) by { kept_lt(idx, a[m[k]].0 as int, a[m[k]].0 + 1); rank_pos(idx, a[m[k]].0 as int); }
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies (#[trigger] b[i]).0 < (#[trigger] b[j]).0 by { assert(m[i] < m[j]); assert(a[m[i]].0 < a[m[j]].0); kept_lt(idx, a[m[i]].0 as int, a[m[j]].0 as int); }
}
pub proof fn spremoved_bounded<T>(a: Seq<(usize, T)>, b: Seq<(usize, T)>, m: Seq<int>, idx: Seq<usize>, n: int)
    requires spremoved(a, b, m, idx), ssorted(a), uniq(idx, n), forall|k: int| #![trigger a[k]] 0 <= k < a.len() ==> a[k].0 < n
    ensures forall|k: int| #![trigger b[k]] 0 <= k < b.len() ==> b[k].0 < n - idx.len()
{
    spremoved_sorted(a, b, m, idx); rank_all(idx, n);
    assert forall|k: int| #![trigger b[k]] 0 <= k < b.len() implies b[k].0 < n - idx.len() by { assert(a[m[k]].0 < n); kept_lt(idx, a[m[k]].0 as int, n); }
}
/// b is a without the positions listed in idx, in order
pub open spec fn removed<T>(a: Seq<T>, b: Seq<T>, idx: Seq<usize>) -> bool { b.len() == a.len() - idx.len() && (forall|i: int| #![trigger a[i]] 0 <= i < a.len() && !idx.contains(i as usize) ==> 0 <= i - rank(idx, i) < b.len() && b[i - rank(idx, i)] == a[i])
    && forall|k: int| #![trigger b[k]] 0 <= k < b.len() ==> exists|i: int| 0 <= i < a.len() && !idx.contains(i as usize) && i - rank(idx, i) == k && b[k] == #[trigger] a[i] }
#[verifier::external_body] pub fn remove_indices<T>(v: &mut Vec<T>, idx: &[usize])
    requires uniq(idx@, old(v)@.len() as int)
    ensures removed(old(v)@, final(v)@, idx@) { unimplemented!() }
