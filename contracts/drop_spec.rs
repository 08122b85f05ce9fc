// ---- problems with rows left out ----
/// b is the row a without the positions in idx
pub open spec fn thinned(a: Seq<(usize, F)>, b: Seq<(usize, F)>, idx: Seq<usize>, n: int) -> bool { forall|i: int| #![trigger sv(a, i)] 0 <= i < n && !idx.contains(i as usize) ==> sv(b, i - rank(idx, i)) == sv(a, i) }
/// q is f without its first nr columns and the listed rows (for other costs)
pub open spec fn dropped(f: Lp, q: Lp, nr: int, idx: Seq<usize>) -> bool {
    uniq(idx, f.m) && f.m <= usize::MAX && q.m == f.m - idx.len() && f.n == q.n + nr && nr >= 0 && thinned(f.rhs, q.rhs, idx, f.m) && forall|j: int| #![trigger (q.a)(j)] 0 <= j < q.n ==> thinned((f.a)(j + nr), (q.a)(j), idx, f.m)
}
pub open spec fn minor(v: M, w: M, idx: Seq<usize>, m: int) -> bool { forall|i: int, k: int| #![trigger v(i, k)] 0 <= i < m && 0 <= k < m && !idx.contains(i as usize) && !idx.contains(k as usize) ==> w(i - rank(idx, i), k - rank(idx, k)) == v(i, k) }
/// the row that moved to a
pub open spec fn kept(idx: Seq<usize>, m: int, i: int, a: int) -> bool { 0 <= i < m && !idx.contains(i as usize) && i - rank(idx, i) == a }
pub open spec fn up(idx: Seq<usize>, m: int, a: int) -> int { choose|i: int| kept(idx, m, i, a) }
pub open spec fn lower(v: M, idx: Seq<usize>, m: int) -> M { |a: int, b: int| v(up(idx, m, a), up(idx, m, b)) }
pub proof fn rank_step(idx: Seq<usize>, i: int)
    requires forall|a: int, b: int| #![trigger idx[a], idx[b]] 0 <= a < b < idx.len() ==> idx[a] < idx[b], 0 <= i < usize::MAX
    ensures rank(idx, i + 1) == rank(idx, i) + (if idx.contains(i as usize) { 1int } else { 0int }) decreases idx.len()
{
    if idx.len() > 0 {
        let d = idx.drop_last(); let n = d.len() as int; rank_step(d, i);
        if d.contains(i as usize) { let k = choose|k: int| 0 <= k < d.len() && d[k] == i; assert(idx[k] == i); assert(idx[k] < idx[n]); }
        if idx.contains(i as usize) && idx[n] != i { let k = choose|k: int| 0 <= k < idx.len() && idx[k] == i; assert(d[k] == i); }
    }
}
pub proof fn rank_zero(idx: Seq<usize>) ensures rank(idx, 0) == 0 decreases idx.len() { if idx.len() > 0 { rank_zero(idx.drop_last()); } }
pub proof fn find_kept(idx: Seq<usize>, n: int, a: int) -> (i: int)
    requires forall|a: int, b: int| #![trigger idx[a], idx[b]] 0 <= a < b < idx.len() ==> idx[a] < idx[b], 0 <= n <= usize::MAX, 0 <= a < n - rank(idx, n)
    ensures kept(idx, n, i, a) decreases n
{
    rank_zero(idx);
    if n == 0 { 0 } else { rank_step(idx, n - 1); if !idx.contains((n - 1) as usize) && a == n - 1 - rank(idx, n - 1) { n - 1 } else { find_kept(idx, n - 1, a) } }
}
pub proof fn up_of(idx: Seq<usize>, m: int, i: int) requires uniq(idx, m), m <= usize::MAX, 0 <= i < m, !idx.contains(i as usize) ensures up(idx, m, i - rank(idx, i)) == i, 0 <= i - rank(idx, i) < m - idx.len() {
    let a = i - rank(idx, i); assert(kept(idx, m, i, a)); let j = up(idx, m, a); assert(kept(idx, m, j, a));
    if i < j { kept_lt(idx, i, j); } if j < i { kept_lt(idx, j, i); }
    rank_all(idx, m); kept_lt(idx, i, m);
}
pub proof fn up_at(idx: Seq<usize>, m: int, a: int) requires uniq(idx, m), m <= usize::MAX, 0 <= a < m - idx.len() ensures kept(idx, m, up(idx, m, a), a) { rank_all(idx, m); let i = find_kept(idx, m, a); assert(kept(idx, m, i, a)); }
pub proof fn lower_minor(v: M, idx: Seq<usize>, m: int) requires uniq(idx, m), m <= usize::MAX ensures minor(v, lower(v, idx, m), idx, m) {
    assert forall|i: int, k: int| #![trigger v(i, k)] 0 <= i < m && 0 <= k < m && !idx.contains(i as usize) && !idx.contains(k as usize) implies lower(v, idx, m)(i - rank(idx, i), k - rank(idx, k)) == v(i, k) by { up_of(idx, m, i); up_of(idx, m, k); }
}
/// a sum over all rows when the listed ones add nothing
pub proof fn rsum_drop(idx: Seq<usize>, n: int, f: V, g: V)
    requires forall|a: int, b: int| #![trigger idx[a], idx[b]] 0 <= a < b < idx.len() ==> idx[a] < idx[b], 0 <= n <= usize::MAX,
      forall|l: int| #![trigger f(l)] 0 <= l < n ==> (if idx.contains(l as usize) { f(l) == 0real } else { f(l) == g(l - rank(idx, l)) })
    ensures rsum(n, f) == rsum(n - rank(idx, n), g) decreases n
{
    rank_zero(idx);
    if n > 0 { rsum_drop(idx, n - 1, f, g); rank_step(idx, n - 1); assert(f(n - 1) == f(n - 1)); if !idx.contains((n - 1) as usize) { kept_lt(idx, n - 1, n); } }
}
/// row i of the inverse is nothing at the listed rows
pub open spec fn clear(v: M, idx: Seq<usize>, m: int, i: int) -> bool { forall|l: int| #![trigger v(i, l)] 0 <= l < m && idx.contains(l as usize) ==> v(i, l) == 0real }
pub proof fn minor_dot(s: Seq<(usize, F)>, t: Seq<(usize, F)>, v: M, w: M, idx: Seq<usize>, m: int, i: int)
    requires bounded(s, m), bounded(t, m - idx.len()), uniq(idx, m), m <= usize::MAX, thinned(s, t, idx, m), minor(v, w, idx, m), 0 <= i < m, !idx.contains(i as usize), clear(v, idx, m, i)
    ensures dot(t, row(w, i - rank(idx, i))) == dot(s, row(v, i))
{
    let (f, g) = (term(s, row(v, i)), term(t, row(w, i - rank(idx, i))));
    dot_rsum(s, m, row(v, i)); dot_rsum(t, m - idx.len(), row(w, i - rank(idx, i))); rank_all(idx, m);
    assert forall|l: int| #![trigger f(l)] 0 <= l < m implies (if idx.contains(l as usize) { f(l) == 0real } else { f(l) == g(l - rank(idx, l)) }) by {
        if idx.contains(l as usize) { assert(v(i, l) == 0real); let x = sv(s, l); assert(x * 0real == 0real) by(nonlinear_arith); } else { assert(sv(t, l - rank(idx, l)) == sv(s, l)); assert(w(i - rank(idx, i), l - rank(idx, l)) == v(i, l)); }
    }
    rsum_drop(idx, m, f, g);
}
/// the listed rows are those of artificial columns
pub open spec fn rows_placed(f: Lp, basis: Seq<usize>, idx: Seq<usize>) -> bool { forall|x: int| #![trigger idx[x]] 0 <= x < idx.len() ==> single((f.a)(basis[idx[x] as int] as int), idx[x] as int) }
pub proof fn placed_clear(f: Lp, basis: Seq<usize>, v: M, idx: Seq<usize>, i: int) requires inverts(v, basis, f), inrange(basis, f), uniq(idx, f.m), rows_placed(f, basis, idx), 0 <= i < f.m <= usize::MAX
    ensures forall|l: int| #![trigger v(i, l)] 0 <= l < f.m && idx.contains(l as usize) ==> v(i, l) == delta(i, l)
{
    assert forall|l: int| #![trigger v(i, l)] 0 <= l < f.m && idx.contains(l as usize) implies v(i, l) == delta(i, l) by {
        let x = choose|x: int| 0 <= x < idx.len() && idx[x] == l; assert(idx[x] == l); let s = (f.a)(basis[l] as int); single_dot(s, l, row(v, i)); assert(dot((f.a)(basis[l] as int), row(v, i)) == delta(i, l));
    }
}
/// the basis without the listed rows
pub open spec fn thinned_basis(o: Seq<usize>, n: Seq<usize>, idx: Seq<usize>, nr: int) -> bool { n.len() == o.len() - idx.len() && forall|i: int| #![trigger o[i]] 0 <= i < o.len() && !idx.contains(i as usize) ==> n[i - rank(idx, i)] == o[i] - nr }
pub proof fn lemma_thinned(o: Seq<usize>, a: Seq<usize>, n: Seq<usize>, idx: Seq<usize>, nr: int)
    requires removed(o, a, idx), uniq(idx, o.len() as int), o.len() <= usize::MAX, n.len() == a.len(), forall|i: int| #![trigger n[i]] 0 <= i < n.len() ==> n[i] == a[i] - nr
    ensures thinned_basis(o, n, idx, nr)
{
    assert forall|i: int| #![trigger o[i]] 0 <= i < o.len() && !idx.contains(i as usize) implies n[i - rank(idx, i)] == o[i] - nr by { up_of(idx, o.len() as int, i); assert(a[i - rank(idx, i)] == o[i]); }
}
pub proof fn minor_inverts(f: Lp, q: Lp, nr: int, idx: Seq<usize>, o: Seq<usize>, n: Seq<usize>, v: M, w: M)
    requires f.wf(), q.wf(), dropped(f, q, nr, idx), inrange(o, f), inverts(v, o, f), inverts_right(v, o, f), rows_placed(f, o, idx), thinned_basis(o, n, idx, nr), minor(v, w, idx, f.m)
    ensures inrange(n, q), inverts(w, n, q), inverts_right(w, n, q)
{
    let m = f.m;
    assert forall|a: int| #![trigger n[a]] 0 <= a < q.m implies n[a] < q.n by { up_at(idx, m, a); let i = up(idx, m, a); assert(o[i] < f.n); assert(n[i - rank(idx, i)] == o[i] - nr); }
    assert forall|a: int, b: int| #![trigger dot((q.a)(n[b] as int), row(w, a))] 0 <= a < q.m && 0 <= b < q.m implies dot((q.a)(n[b] as int), row(w, a)) == delta(a, b) by {
        up_at(idx, m, a); up_at(idx, m, b); let (i, j) = (up(idx, m, a), up(idx, m, b)); placed_clear(f, o, v, idx, i);
        assert(clear(v, idx, m, i)); assert(n[j - rank(idx, j)] == o[j] - nr); assert(n[b] < q.n);
        assert(swf((f.a)(o[j] as int), m)); assert(swf((q.a)(n[b] as int), q.m));
        minor_dot((f.a)(o[j] as int), (q.a)(n[b] as int), v, w, idx, m, i);
        assert(dot((f.a)(o[j] as int), row(v, i)) == delta(i, j));
    }
    assert forall|a: int, b: int| #![trigger delta(a, b)] 0 <= a < q.m && 0 <= b < q.m implies rsum(q.m, scaled(col(w, b), basisrow(n, q, a))) == delta(a, b) by {
        up_at(idx, m, a); up_at(idx, m, b); let (k, l) = (up(idx, m, a), up(idx, m, b)); let (e, g) = (scaled(col(v, l), basisrow(o, f, k)), scaled(col(w, b), basisrow(n, q, a)));
        rank_all(idx, m);
        assert forall|j: int| #![trigger e(j)] 0 <= j < m implies (if idx.contains(j as usize) { e(j) == 0real } else { e(j) == g(j - rank(idx, j)) }) by {
            if idx.contains(j as usize) { let x = choose|x: int| 0 <= x < idx.len() && idx[x] == j; assert(idx[x] == j); let s = (f.a)(o[j] as int); assert(single(s, j)); assert(forall|y: int| 0 <= y < s.len() ==> (#[trigger] s[y]).0 != k); sv_absent(s, k); let y = v(j, l); assert(y * 0real == 0real) by(nonlinear_arith); }
            else { up_of(idx, m, j); assert(n[j - rank(idx, j)] == o[j] - nr); assert(n[j - rank(idx, j)] < q.n); let s = (f.a)(o[j] as int); assert((q.a)(n[j - rank(idx, j)] as int) == (q.a)(o[j] - nr)); assert(thinned(s, (q.a)(o[j] - nr), idx, m)); assert(sv(s, k) == sv((q.a)(o[j] - nr), a)); assert(v(j, l) == w(j - rank(idx, j), b)); }
        }
        rsum_drop(idx, m, e, g); assert(rsum(m, e) == delta(k, l));
    }
}
pub proof fn minor_values(f: Lp, q: Lp, nr: int, idx: Seq<usize>, o: Seq<usize>, v: M, w: M, b: Seq<F>, c: Seq<F>)
    requires f.wf(), q.wf(), dropped(f, q, nr, idx), inrange(o, f), inverts(v, o, f), rows_placed(f, o, idx), minor(v, w, idx, f.m), values(b, v, f), removed(b, c, idx)
    ensures values(c, w, q)
{
    let m = f.m;
    assert forall|a: int| #![trigger c[a]] 0 <= a < q.m implies c[a]@ == dot(q.rhs, row(w, a)) by {
        up_at(idx, m, a); let i = up(idx, m, a); placed_clear(f, o, v, idx, i); assert(clear(v, idx, m, i)); minor_dot(f.rhs, q.rhs, v, w, idx, m, i); assert(c[i - rank(idx, i)] == b[i]);
    }
}
