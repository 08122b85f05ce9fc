// ---- what is asked of a problem that leaves rows of another out ----
/// q is p without the listed rows
pub open spec fn without(p: Lp, q: Lp, idx: Seq<usize>) -> bool { q.n == p.n && q.c == p.c && q.m == p.m - idx.len() && thinned(p.rhs, q.rhs, idx, p.m) && forall|j: int| #![trigger (q.a)(j)] 0 <= j < q.n ==> thinned((p.a)(j), (q.a)(j), idx, p.m) }
/// columns with a one in a row of their own, by row
pub open spec fn unit_pivots(p: Lp, t: Seq<(usize, usize)>) -> bool { ssorted(t) && forall|k: int| #![trigger t[k]] 0 <= k < t.len() ==> t[k].0 < p.m && t[k].1 < p.n && single((p.a)(t[k].1 as int), t[k].0 as int) }
/// as `without`, entry by entry
pub open spec fn left_out(p: Lp, q: Lp, idx: Seq<usize>) -> bool { q.n == p.n && q.m == p.m - idx.len() && forall|j: int| #![trigger (q.a)(j)] 0 <= j < q.n ==> exists|m: Seq<int>| #[trigger] spremoved((p.a)(j), (q.a)(j), m, idx) }
