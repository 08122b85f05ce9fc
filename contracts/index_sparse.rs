pub proof fn spremoved_sv(a: Seq<(usize, F)>, b: Seq<(usize, F)>, m: Seq<int>, idx: Seq<usize>, i: int)
    requires spremoved(a, b, m, idx), ssorted(a), forall|a: int, b: int| #![trigger idx[a], idx[b]] 0 <= a < b < idx.len() ==> idx[a] < idx[b], 0 <= i, !idx.contains(i as usize)
    ensures sv(b, i - rank(idx, i)) == sv(a, i)
{
    spremoved_sorted(a, b, m, idx);
    if i > usize::MAX { sv_absent(a, i); assert forall|k: int| 0 <= k < b.len() implies (#[trigger] b[k]).0 != i - rank(idx, i) by { kept_lt(idx, a[m[k]].0 as int, i); } sv_absent(b, i - rank(idx, i)); }
    else if exists|q: int| 0 <= q < a.len() && (#[trigger] a[q]).0 == i {
        let q = choose|q: int| 0 <= q < a.len() && (#[trigger] a[q]).0 == i;
        let k = choose|k: int| 0 <= k < m.len() && #[trigger] m[k] == q; assert(b[k] == b[k]);
        sv_at(a, q); sv_at(b, k);
    } else {
        sv_absent(a, i);
        assert forall|k: int| 0 <= k < b.len() implies (#[trigger] b[k]).0 != i - rank(idx, i) by { let x = a[m[k]].0 as int; if x < i { kept_lt(idx, x, i); } else { kept_lt(idx, i, x); } }
        sv_absent(b, i - rank(idx, i));
    }
}
/// what removing from a well-formed entry list means for the numbers
pub proof fn spremoved_all(a: Seq<(usize, F)>, b: Seq<(usize, F)>, idx: Seq<usize>, n: int)
    requires exists|m: Seq<int>| #[trigger] spremoved(a, b, m, idx), swf(a, n), uniq(idx, n)
    ensures swf(b, n - idx.len()), minor_removed(a, b, idx)
{
    let m = choose|m: Seq<int>| #[trigger] spremoved(a, b, m, idx);
    spremoved_sorted(a, b, m, idx); spremoved_bounded(a, b, m, idx, n);
    assert forall|i: int| #![trigger sv(a, i)] 0 <= i && !idx.contains(i as usize) implies sv(b, i - rank(idx, i)) == sv(a, i) by { spremoved_sv(a, b, m, idx, i); }
}
/// b is the row a without the positions in idx
pub open spec fn minor_removed(a: Seq<(usize, F)>, b: Seq<(usize, F)>, idx: Seq<usize>) -> bool { forall|i: int| #![trigger sv(a, i)] 0 <= i && !idx.contains(i as usize) ==> sv(b, i - rank(idx, i)) == sv(a, i) }
