/// an entry after all others
proof fn row_grows(t: Seq<(usize, F)>, x: (usize, F)) requires swf(t, x.0 + 1), sv(t, x.0 as int) == 0real, x.1@ != 0real ensures swf(t.push(x), x.0 + 1) {
    let n = t.len() as int; assert forall|k: int| #![trigger t[k]] 0 <= k < n implies t[k].0 < x.0 by { if t[k].0 == x.0 { sv_at(t, k); } }
    let u = t.push(x); assert(u[n] == x); assert forall|k: int| 0 <= k < n implies #[trigger] u[k] == t[k] by {}
    assert(bounded(u, x.0 + 1)); assert(nonzero(u)); assert(ssorted(u));
}
/// row by row, the entries of the inverse up to column n
pub open spec fn rows_to(t: Seq<Vec<(usize, F)>>, v: M, m: int, n: int) -> bool { t.len() == m && forall|i: int| #![trigger t[i]] 0 <= i < m ==> row_to(t[i]@, v, i, n) }
pub open spec fn row_to(s: Seq<(usize, F)>, v: M, i: int, n: int) -> bool { swf(s, n) && forall|k: int| #![trigger sv(s, k)] 0 <= k < n ==> sv(s, k) == v(i, k) }
pub open spec fn b_cols(t: Seq<(usize, VIter<(usize, F)>)>, v: M, m: int) -> bool { t.len() == m && forall|j: int| #![trigger t[j]] 0 <= j < m ==> t[j].0 == j && swf(t[j].1@, m) && forall|i: int| #![trigger sv(t[j].1@, i)] 0 <= i < m ==> sv(t[j].1@, i) == v(i, j) }
/// column j was added as far as s
pub open spec fn rows_part(t: Seq<Vec<(usize, F)>>, v: M, m: int, j: int, s: Seq<(usize, F)>) -> bool { t.len() == m && forall|i: int| #![trigger t[i]] 0 <= i < m ==> row_part(t[i]@, v, i, j, sv(s, i)) }
pub open spec fn row_part(t: Seq<(usize, F)>, v: M, i: int, j: int, x: real) -> bool { swf(t, j + 1) && sv(t, j) == x && forall|k: int| #![trigger sv(t, k)] 0 <= k < j ==> sv(t, k) == v(i, k) }
proof fn before_column(t: Seq<Vec<(usize, F)>>, v: M, m: int, j: int) requires rows_to(t, v, m, j) ensures rows_part(t, v, m, j, Seq::empty()) {
    assert forall|i: int| #![trigger t[i]] 0 <= i < m implies row_part(t[i]@, v, i, j, sv(Seq::empty(), i)) by { assert forall|q: int| 0 <= q < t[i]@.len() implies (#[trigger] t[i]@[q]).0 != j by {} sv_absent(t[i]@, j); }
}
proof fn after_column(t: Seq<Vec<(usize, F)>>, v: M, m: int, j: int, s: Seq<(usize, F)>) requires rows_part(t, v, m, j, s), forall|i: int| #![trigger sv(s, i)] 0 <= i < m ==> sv(s, i) == v(i, j) ensures rows_to(t, v, m, j + 1) {
    assert forall|i: int| #![trigger t[i]] 0 <= i < m implies row_to(t[i]@, v, i, j + 1) by { assert(row_part(t[i]@, v, i, j, sv(s, i))); }
}
proof fn row_entry(t0: Seq<Vec<(usize, F)>>, t: Seq<Vec<(usize, F)>>, v: M, m: int, j: usize, s: Seq<(usize, F)>, q: int)
    requires swf(s, m), rows_part(t0, v, m, j as int, s.subrange(0, q)), 0 <= q < s.len(), s[q].0 < m, t.len() == m, t[s[q].0 as int]@ == t0[s[q].0 as int]@.push((j, s[q].1)), forall|i: int| #![trigger t[i]] 0 <= i < m && i != s[q].0 ==> t[i] == t0[i]
    ensures rows_part(t, v, m, j as int, s.subrange(0, q + 1))
{
    assert forall|i: int| #![trigger t[i]] 0 <= i < m implies row_part(t[i]@, v, i, j as int, sv(s.subrange(0, q + 1), i)) by {
        sv_step(s, q, i); assert(row_part(t0[i]@, v, i, j as int, sv(s.subrange(0, q), i)));
        if i == s[q].0 { let x = (j, s[q].1); let p = s.subrange(0, q); assert forall|k: int| 0 <= k < p.len() implies (#[trigger] p[k]).0 != i by { assert(p[k] == s[k]); assert(s[k].0 < s[q].0); } sv_absent(p, i); row_grows(t0[i]@, x); assert forall|k: int| #![trigger sv(t[i]@, k)] 0 <= k <= j implies sv(t[i]@, k) == sv(t0[i]@, k) + (if k == j { x.1@ } else { 0real }) by { sv_push(t0[i]@, x, k); } }
    }
}
/// column j of the inverse
pub open spec fn unit_col(s: Sparse, v: M, j: int, m: int) -> bool { s.wf() && s.len == m && forall|i: int| #![trigger sv(s.data@, i)] 0 <= i < m ==> sv(s.data@, i) == v(i, j) }
