// The factorisation as a map of columns: the basis column j is the image of the column of U at its place.
pub open spec fn agree(f: V, g: V, n: int) -> bool { forall|i: int| #![trigger f(i)] #![trigger g(i)] 0 <= i < n ==> f(i) == g(i) }
pub open spec fn combined(h: V, f: V, g: V, a: real, n: int) -> bool { forall|i: int| #![trigger h(i)] 0 <= i < n ==> h(i) == f(i) + a * g(i) }
pub type Update = (EtaFile, RotateToBack);
pub open spec fn unrot(q: RotateToBack, w: V) -> V { |i: int| w(q.fwd()(i)) }
/// what one update did, undone
pub open spec fn step(u: Update, w: V) -> V { |i: int| unrot(u.1, w)(i) + (if i == u.0.pivot { dot(u.0.values@, unrot(u.1, w)) } else { 0real }) }
pub open spec fn undo(ups: Seq<Update>, k: int, w: V) -> V decreases k { if k <= 0 { w } else { undo(ups, k - 1, step(ups[k - 1], w)) } }
pub open spec fn undo_from(ups: Seq<Update>, k: int, w: V) -> V decreases ups.len() - k { if k >= ups.len() { w } else { step(ups[k], undo_from(ups, k + 1, w)) } }
pub open spec fn undone(lu: LUDecomposition, w: V) -> V { undo(lu.updates@, lu.updates@.len() as int, w) }
pub open spec fn img(lu: LUDecomposition, w: V) -> V { |i: int| rsum(lu.size(), scaled(undone(lu, w), at_row(lu.l(), lu.row_permutation.forward@[i] as int))) }
pub open spec fn placed(ups: Seq<Update>, k: int, j: int) -> int decreases k { if k <= 0 { j } else { ups[k - 1].1.fwd()(placed(ups, k - 1, j)) } }
pub open spec fn unplaced(ups: Seq<Update>, k: int, t: int) -> int decreases k { if k <= 0 { t } else { unplaced(ups, k - 1, ups[k - 1].1.bwd()(t)) } }
/// where column j is in U, and which column is at place t
pub open spec fn place(lu: LUDecomposition, j: int) -> int { placed(lu.updates@, lu.updates@.len() as int, lu.column_permutation.forward@[j] as int) }
pub open spec fn origin(lu: LUDecomposition, t: int) -> int { lu.column_permutation.backward@[unplaced(lu.updates@, lu.updates@.len() as int, t)] as int }
/// the factorisation is one of the matrix b
pub open spec fn pu(lu: LUDecomposition) -> M { |i: int, j: int| lu.u()(i, place(lu, j)) }
pub open spec fn factors(lu: LUDecomposition, b: M) -> bool { forall|i: int, j: int| #![trigger b(i, j)] 0 <= i < lu.size() && 0 <= j < lu.size() ==> b(i, j) == img(lu, at_col(pu(lu), j))(i) }
/// the list w (in the places of U) belongs to the column a
pub open spec fn spiked(lu: LUDecomposition, w: V, a: V) -> bool { agree(img(lu, w), a, lu.size()) }
/// x solves U x = w
pub open spec fn matched(lu: LUDecomposition, x: Seq<(usize, F)>, w: V) -> bool { forall|i: int| #![trigger dot(x, at_row(pu(lu), i))] 0 <= i < lu.size() ==> dot(x, at_row(pu(lu), i)) == w(i) }
/// x solves b x = a
pub open spec fn solves_col(x: Seq<(usize, F)>, b: M, a: V, n: int) -> bool { forall|i: int| #![trigger dot(x, at_row(b, i))] 0 <= i < n ==> dot(x, at_row(b, i)) == a(i) }
/// x solves x b = a
pub open spec fn solves_row(x: Seq<(usize, F)>, b: M, a: V, n: int) -> bool { forall|j: int| #![trigger dot(x, at_col(b, j))] 0 <= j < n ==> dot(x, at_col(b, j)) == a(j) }

pub proof fn step_agree(u: Update, f: V, g: V, n: int) requires u.0.wf(), u.0.len == n, u.1.wf(), u.1.len == n, agree(f, g, n) ensures agree(step(u, f), step(u, g), n) {
    assert forall|i: int| 0 <= i < n implies #[trigger] unrot(u.1, f)(i) == unrot(u.1, g)(i) by { let k = u.1.fwd()(i); assert(f(k) == g(k)); }
    dot_ext(u.0.values@, n, unrot(u.1, f), unrot(u.1, g));
    assert forall|i: int| #![trigger step(u, f)(i)] #![trigger step(u, g)(i)] 0 <= i < n implies step(u, f)(i) == step(u, g)(i) by { assert(unrot(u.1, f)(i) == unrot(u.1, g)(i)); }
}
pub proof fn undo_agree(ups: Seq<Update>, k: int, f: V, g: V, n: int) requires updates_ok(ups, n), 0 <= k <= ups.len(), agree(f, g, n) ensures agree(undo(ups, k, f), undo(ups, k, g), n) decreases k {
    if k > 0 { assert(ups[k - 1].0.wf()); step_agree(ups[k - 1], f, g, n); undo_agree(ups, k - 1, step(ups[k - 1], f), step(ups[k - 1], g), n); }
}
pub proof fn step_comb(u: Update, h: V, f: V, g: V, a: real, n: int) requires u.0.wf(), u.0.len == n, u.1.wf(), u.1.len == n, combined(h, f, g, a, n) ensures combined(step(u, h), step(u, f), step(u, g), a, n) {
    let (x, y, z) = (unrot(u.1, h), unrot(u.1, f), unrot(u.1, g));
    assert forall|i: int| 0 <= i < n implies #[trigger] x(i) == y(i) + a * z(i) by { let k = u.1.fwd()(i); assert(h(k) == f(k) + a * g(k)); }
    dot_comb(u.0.values@, n, y, z, x, a);
    let (dx, dy, dz) = (dot(u.0.values@, x), dot(u.0.values@, y), dot(u.0.values@, z));
    assert forall|i: int| #![trigger step(u, h)(i)] 0 <= i < n implies step(u, h)(i) == step(u, f)(i) + a * step(u, g)(i) by { assert(x(i) == y(i) + a * z(i)); let zi = z(i); assert(a * (zi + dz) == a * zi + a * dz) by(nonlinear_arith); }
}
pub proof fn undo_comb(ups: Seq<Update>, k: int, h: V, f: V, g: V, a: real, n: int) requires updates_ok(ups, n), 0 <= k <= ups.len(), combined(h, f, g, a, n) ensures combined(undo(ups, k, h), undo(ups, k, f), undo(ups, k, g), a, n) decreases k {
    if k > 0 { let u = ups[k - 1]; assert(u.0.wf()); step_comb(u, h, f, g, a, n); undo_comb(ups, k - 1, step(u, h), step(u, f), step(u, g), a, n); }
}
pub proof fn img_agree(lu: LUDecomposition, f: V, g: V) requires lu.ok(), agree(f, g, lu.size()) ensures agree(img(lu, f), img(lu, g), lu.size()) {
    let n = lu.size(); undo_agree(lu.updates@, lu.updates@.len() as int, f, g, n);
    assert forall|i: int| #![trigger img(lu, f)(i)] #![trigger img(lu, g)(i)] 0 <= i < n implies img(lu, f)(i) == img(lu, g)(i) by {
        let r = at_row(lu.l(), lu.row_permutation.forward@[i] as int); assert forall|k: int| 0 <= k < n implies #[trigger] scaled(undone(lu, f), r)(k) == scaled(undone(lu, g), r)(k) by { assert(undone(lu, f)(k) == undone(lu, g)(k)); }
        rsum_ext(n, scaled(undone(lu, f), r), scaled(undone(lu, g), r));
    }
}
pub proof fn img_comb(lu: LUDecomposition, h: V, f: V, g: V, a: real) requires lu.ok(), combined(h, f, g, a, lu.size()) ensures combined(img(lu, h), img(lu, f), img(lu, g), a, lu.size()) {
    let n = lu.size(); undo_comb(lu.updates@, lu.updates@.len() as int, h, f, g, a, n);
    assert forall|i: int| #![trigger img(lu, h)(i)] 0 <= i < n implies img(lu, h)(i) == img(lu, f)(i) + a * img(lu, g)(i) by {
        let r = at_row(lu.l(), lu.row_permutation.forward@[i] as int); let (x, y, z) = (undone(lu, h), undone(lu, f), undone(lu, g));
        assert forall|k: int| 0 <= k < n implies #[trigger] scaled(x, r)(k) == scaled(y, r)(k) + a * scaled(z, r)(k) by { assert(x(k) == y(k) + a * z(k)); let (p, q, s) = (y(k), z(k), r(k)); assert((p + a * q) * s == p * s + a * (q * s)) by(nonlinear_arith); }
        rsum_comb(n, scaled(y, r), scaled(z, r), scaled(x, r), a);
    }
}
/// the columns of u, taken y times each
pub open spec fn comb(y: Seq<(usize, F)>, u: M) -> V { |k: int| dot(y, at_row(u, k)) }
pub open spec fn imgs(lu: LUDecomposition, u: M, i: int) -> V { |t: int| img(lu, at_col(u, t))(i) }
pub proof fn img_dot(lu: LUDecomposition, y: Seq<(usize, F)>, u: M, i: int) requires lu.ok(), 0 <= i < lu.size() ensures img(lu, comb(y, u))(i) == dot(y, imgs(lu, u, i)) decreases y.len() {
    let n = lu.size(); let h = comb(y, u);
    if y.len() == 0 {
        assert forall|k: int| #![trigger h(k)] 0 <= k < n implies h(k) == h(k) + (-1real) * h(k) by {}
        img_comb(lu, h, h, h, -1real); let x = img(lu, h)(i); assert(x == x + (-1real) * x);
    } else {
        let y1 = y.drop_last(); let c = y.last().1@; let g = at_col(u, y.last().0 as int); let f = comb(y1, u);
        assert forall|k: int| #![trigger h(k)] 0 <= k < n implies h(k) == f(k) + c * g(k) by {}
        img_comb(lu, h, f, g, c); img_dot(lu, y1, u, i); assert(img(lu, h)(i) == img(lu, f)(i) + c * img(lu, g)(i));
    }
}
/// undoing from the back is undoing from the front
pub proof fn undo_both(ups: Seq<Update>, k: int, w: V) requires 0 <= k <= ups.len() ensures undo(ups, k, undo_from(ups, k, w)) == undo_from(ups, 0, w), undo(ups, ups.len() as int, w) == undo_from(ups, 0, w) decreases k {
    if k > 0 { undo_both(ups, k - 1, w); } 
    if k < ups.len() { undo_both_up(ups, k, w); }
}
pub proof fn undo_both_up(ups: Seq<Update>, k: int, w: V) requires 0 <= k <= ups.len() ensures undo(ups, k, undo_from(ups, k, w)) == undo(ups, ups.len() as int, w) decreases ups.len() - k { if k < ups.len() { undo_both_up(ups, k + 1, w); } }
pub proof fn placed_range(ups: Seq<Update>, k: int, j: int, n: int) requires updates_ok(ups, n), 0 <= k <= ups.len(), 0 <= j < n ensures 0 <= placed(ups, k, j) < n, unplaced(ups, k, placed(ups, k, j)) == j decreases k {
    if k > 0 { placed_range(ups, k - 1, j, n); let u = ups[k - 1]; assert(u.1.wf() && u.1.len == n); let p = placed(ups, k - 1, j); assert(u.1.bwd()(u.1.fwd()(p)) == p); }
}
pub proof fn unplaced_range(ups: Seq<Update>, k: int, t: int, n: int) requires updates_ok(ups, n), 0 <= k <= ups.len(), 0 <= t < n ensures 0 <= unplaced(ups, k, t) < n, placed(ups, k, unplaced(ups, k, t)) == t decreases k {
    if k > 0 { let u = ups[k - 1]; assert(u.1.wf() && u.1.len == n); let p = u.1.bwd()(t); unplaced_range(ups, k - 1, p, n); assert(u.1.fwd()(p) == t); }
}
pub proof fn place_range(lu: LUDecomposition, j: int) requires lu.ok(), 0 <= j < lu.size() ensures 0 <= place(lu, j) < lu.size(), origin(lu, place(lu, j)) == j { let f = lu.column_permutation.forward@[j]; placed_range(lu.updates@, lu.updates@.len() as int, f as int, lu.size()); }
pub proof fn origin_range(lu: LUDecomposition, t: int) requires lu.ok(), 0 <= t < lu.size() ensures 0 <= origin(lu, t) < lu.size(), place(lu, origin(lu, t)) == t { unplaced_range(lu.updates@, lu.updates@.len() as int, t, lu.size()); let k = unplaced(lu.updates@, lu.updates@.len() as int, t); let b = lu.column_permutation.backward@[k]; assert(lu.column_permutation.forward@[b as int] == k); }

// ---- entry lists whose entries move ----
pub proof fn dot_remove(s: Seq<(usize, F)>, k: int, d: V) requires 0 <= k < s.len() ensures dot(s.remove(k), d) == dot(s, d) - s[k].1@ * d(s[k].0 as int) decreases s.len() {
    if k == s.len() - 1 { assert(s.remove(k) =~= s.drop_last()); } else { let t = s.remove(k); assert(t.drop_last() =~= s.drop_last().remove(k)); dot_remove(s.drop_last(), k, d); assert(t.last() == s.last()); assert(s.drop_last()[k] == s[k]); }
}
/// the order does not matter
pub proof fn dot_order(a: Seq<(usize, F)>, b: Seq<(usize, F)>, d: V) requires a.to_multiset() == b.to_multiset() ensures dot(a, d) == dot(b, d) decreases a.len() {
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(a.len() == a.to_multiset().len() && b.len() == b.to_multiset().len());
    if a.len() > 0 {
        let x = a.last(); assert(a.contains(x)); assert(b.to_multiset().contains(x)); assert(b.contains(x)); let k = choose|k: int| 0 <= k < b.len() && b[k] == x;
        assert(a.remove(a.len() - 1) =~= a.drop_last()); assert(a.drop_last().to_multiset() =~= a.to_multiset().remove(x)); assert(b.remove(k).to_multiset() =~= b.to_multiset().remove(x));
        dot_order(a.drop_last(), b.remove(k), d); dot_remove(b, k, d);
    }
}
pub open spec fn deltas(i: int) -> V { |k: int| delta(i, k) }
pub proof fn sv_dot(s: Seq<(usize, F)>, i: int) ensures dot(s, deltas(i)) == sv(s, i) decreases s.len() { if s.len() > 0 { sv_dot(s.drop_last(), i); let x = s.last().1@; assert(x * 0real == 0real && x * 1real == x) by(nonlinear_arith); } }
pub open spec fn through(d: V, f: spec_fn(int) -> int) -> V { |i: int| d(f(i)) }
pub open spec fn onto(f: spec_fn(int) -> int, g: spec_fn(int) -> int, n: int) -> bool { forall|i: int| #![trigger f(i)] 0 <= i < n ==> 0 <= f(i) < n && g(f(i)) == i }
pub proof fn mapped_dot(s: Seq<(usize, F)>, f: spec_fn(int) -> int, g: spec_fn(int) -> int, n: int, d: V) requires bounded(s, n), n <= usize::MAX, onto(f, g, n) ensures dot(mapped(s, f), d) == dot(s, through(d, f)), bounded(mapped(s, f), n), nonzero(s) ==> nonzero(mapped(s, f)), mapped(s, f).len() == s.len() decreases s.len() {
    let m = mapped(s, f);
    assert forall|k: int| #![trigger m[k]] 0 <= k < m.len() implies m[k].0 < n && m[k].0 == f(s[k].0 as int) && m[k].1 == s[k].1 by { let z = s[k]; assert(0 <= f(z.0 as int) < n); }
    if s.len() > 0 { let s1 = s.drop_last(); assert forall|k: int| #![trigger s1[k]] 0 <= k < s1.len() implies s1[k].0 < n by { assert(s[k] == s1[k]); } mapped_dot(s1, f, g, n, d); assert(m.drop_last() =~= mapped(s1, f)); let z = s[s.len() - 1]; assert(m[m.len() - 1].0 == f(z.0 as int)); }
}
/// an entry list that was moved by a permutation f, in any order
pub open spec fn moved_list(s: Seq<(usize, F)>, t: Seq<(usize, F)>, f: spec_fn(int) -> int) -> bool { t.to_multiset() == mapped(s, f).to_multiset() }
pub proof fn moved_all(s: Seq<(usize, F)>, t: Seq<(usize, F)>, f: spec_fn(int) -> int, g: spec_fn(int) -> int, n: int)
    requires moved_list(s, t, f), bounded(s, n), nonzero(s), n <= usize::MAX, onto(f, g, n), onto(g, f, n)
    ensures bounded(t, n), nonzero(t), forall|d: V| #![trigger dot(t, d)] dot(t, d) == dot(s, through(d, f)), forall|i: int| #![trigger sv(t, i)] 0 <= i < n ==> sv(t, i) == sv(s, g(i))
{
    let m = mapped(s, f); mapped_dot(s, f, g, n, deltas(0));
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert forall|k: int| #![trigger t[k]] 0 <= k < t.len() implies t[k].0 < n && t[k].1@ != 0real by { assert(t.contains(t[k])); assert(m.to_multiset().contains(t[k])); assert(m.contains(t[k])); let j = choose|j: int| 0 <= j < m.len() && m[j] == t[k]; assert(m[j].0 < n && m[j].1@ != 0real); }
    assert forall|d: V| #![trigger dot(t, d)] dot(t, d) == dot(s, through(d, f)) by { dot_order(t, m, d); mapped_dot(s, f, g, n, d); }
    assert forall|i: int| #![trigger sv(t, i)] 0 <= i < n implies sv(t, i) == sv(s, g(i)) by { sv_dot(t, i); sv_dot(s, g(i)); assert(dot(t, deltas(i)) == dot(s, through(deltas(i), f))); let gi = g(i); assert forall|k: int| 0 <= k < n implies #[trigger] through(deltas(i), f)(k) == deltas(gi)(k) by { let fk = f(k); assert(g(fk) == k); assert(f(gi) == i); } dot_ext(s, n, through(deltas(i), f), deltas(gi)); }
}
pub proof fn moved_sorted(s: Seq<(usize, F)>, t: Seq<(usize, F)>, f: spec_fn(int) -> int, g: spec_fn(int) -> int, n: int)
    requires moved_list(s, t, f), bounded(s, n), n <= usize::MAX, onto(f, g, n), ssorted(s), wsorted(t) ensures ssorted(t)
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let m = mapped(s, f);
    assert forall|a: int, b: int| 0 <= a < m.len() && 0 <= b < m.len() && a != b implies (#[trigger] m[a]).0 != (#[trigger] m[b]).0 by { let (x, y) = (s[a].0 as int, s[b].0 as int); assert(x != y) by { if a < b { assert(s[a].0 < s[b].0); } else { assert(s[b].0 < s[a].0); } } assert(g(f(x)) == x && g(f(y)) == y); }
    assert(m.no_duplicates()); m.lemma_multiset_has_no_duplicates(); t.lemma_multiset_has_no_duplicates_conv();
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).0 < (#[trigger] t[j]).0 by {
        if t[i].0 == t[j].0 { assert(m.to_multiset().contains(t[i]) && m.to_multiset().contains(t[j])) by { assert(t.contains(t[i]) && t.contains(t[j])); } let a = choose|a: int| 0 <= a < m.len() && m[a] == t[i]; let b = choose|b: int| 0 <= b < m.len() && m[b] == t[j]; assert(m.contains(t[i]) && m.contains(t[j])); assert(a == b); assert(t[i] == t[j]); }
    }
}

pub proof fn left_solves(lu: LUDecomposition, x: Seq<(usize, F)>, w: V, a: V, b: M) requires lu.ok(), bounded(x, lu.size()), matched(lu, x, w), spiked(lu, w, a), factors(lu, b) ensures solves_col(x, b, a, lu.size()) {
    let n = lu.size();
    assert forall|i: int| #![trigger dot(x, at_row(b, i))] 0 <= i < n implies dot(x, at_row(b, i)) == a(i) by {
        img_dot(lu, x, pu(lu), i);
        assert forall|j: int| 0 <= j < n implies #[trigger] at_row(b, i)(j) == imgs(lu, pu(lu), i)(j) by { let z = b(i, j); }
        dot_ext(x, n, at_row(b, i), imgs(lu, pu(lu), i));
        let h = comb(x, pu(lu));
        assert forall|k: int| #![trigger h(k)] #![trigger w(k)] 0 <= k < n implies h(k) == w(k) by { let z = dot(x, at_row(pu(lu), k)); }
        img_agree(lu, h, w); assert(img(lu, h)(i) == img(lu, w)(i));
    }
}
/// what was collected into a map is the column with its entries moved
pub open spec fn moved_values(s: Seq<(usize, F)>, a: Seq<(usize, F)>, f: spec_fn(int) -> int) -> bool { s.len() == a.len() && forall|k: int| #![trigger s[k]] #![trigger a[k]] 0 <= k < s.len() ==> s[k].0 == f(a[k].0 as int) && s[k].1@ == a[k].1@ }
pub proof fn map_moved(m: Map<usize, F>, s: Seq<(usize, F)>, a: Seq<(usize, F)>, f: spec_fn(int) -> int, g: spec_fn(int) -> int, n: int)
    requires map_of(m, s), moved_values(s, a, f), swf(a, n), onto(f, g, n), n <= usize::MAX
    ensures mwf(m, n), forall|i: int| #![trigger mv(m, f(i))] #![trigger sv(a, i)] 0 <= i < n ==> mv(m, f(i)) == sv(a, i)
{
    assert forall|k: usize| #[trigger] m.contains_key(k) implies k < n && m[k]@ != 0real by { let j = choose|j: int| 0 <= j < s.len() && #[trigger] s[j] == (k, m[k]) && forall|l: int| j < l < s.len() ==> (#[trigger] s[l]).0 != k; let z = a[j]; assert(z.0 < n); let fk = f(z.0 as int); }
    assert forall|i: int| #![trigger mv(m, f(i))] #![trigger sv(a, i)] 0 <= i < n implies mv(m, f(i)) == sv(a, i) by {
        let k = f(i) as usize; assert(0 <= f(i) < n && g(f(i)) == i);
        if m.contains_key(k) {
            let j = choose|j: int| 0 <= j < s.len() && #[trigger] s[j] == (k, m[k]) && forall|l: int| j < l < s.len() ==> (#[trigger] s[l]).0 != k;
            let z = a[j]; assert(z.0 < n); assert(f(z.0 as int) == k); assert(g(f(z.0 as int)) == z.0); assert(z.0 == i); sv_at(a, j);
        } else { assert forall|q: int| 0 <= q < a.len() implies (#[trigger] a[q]).0 != i by { let z = s[q]; if a[q].0 == i { assert(z.0 == k); } } sv_absent(a, i); }
    }
}
pub open spec fn ident() -> spec_fn(int) -> int { |i: int| i }
pub proof fn map_same(m: Map<usize, F>, s: Seq<(usize, F)>, n: int) requires map_of(m, s), swf(s, n), n <= usize::MAX ensures mwf(m, n), forall|i: int| #![trigger mv(m, i)] #![trigger sv(s, i)] 0 <= i < n ==> mv(m, i) == sv(s, i) {
    map_moved(m, s, s, ident(), ident(), n); assert forall|i: int| #![trigger mv(m, i)] #![trigger sv(s, i)] 0 <= i < n implies mv(m, i) == sv(s, i) by { assert(mv(m, ident()(i)) == sv(s, i)); }
}
/// one update applied to the left hand side is undone by its step
pub proof fn step_undoes(u: Update, w: V, x: V, n: int) requires u.0.wf(), u.0.len == n, u.1.wf(), u.1.len == n, forall|i: int| #![trigger w(i)] 0 <= i < n ==> w(i) == lessened(x, u.0.pivot as int, dot(u.0.values@, x))(u.1.bwd()(i)) ensures agree(step(u, w), x, n) {
    let e = u.0.values@; let p = u.0.pivot as int; let y = lessened(x, p, dot(e, x)); let v = unrot(u.1, w);
    assert forall|i: int| 0 <= i < n implies #[trigger] v(i) == y(i) by { let k = u.1.fwd()(i); assert(0 <= k < n); assert(w(k) == y(u.1.bwd()(k))); assert(u.1.bwd()(k) == i); }
    right_of(u.0, v, x, n);
    assert forall|i: int| #![trigger step(u, w)(i)] #![trigger x(i)] 0 <= i < n implies step(u, w)(i) == x(i) by { assert(v(i) == y(i)); }
}
/// the eta row does not look at its pivot
pub proof fn right_of(e: EtaFile, d: V, g: V, n: int) requires e.wf(), e.len == n, forall|i: int| 0 <= i < n && i != e.pivot ==> #[trigger] d(i) == g(i) ensures dot(e.values@, d) == dot(e.values@, g) {
    let h: V = |i: int| if i == e.pivot { g(i) } else { d(i) };
    dot_ext(e.values@, n, h, g); dot_keys(e.values@, d, h);
}
pub proof fn dot_keys(s: Seq<(usize, F)>, d: V, h: V) requires forall|k: int| #![trigger s[k]] 0 <= k < s.len() ==> d(s[k].0 as int) == h(s[k].0 as int) ensures dot(s, d) == dot(s, h) decreases s.len() {
    if s.len() > 0 { let t = s.drop_last(); assert forall|k: int| #![trigger t[k]] 0 <= k < t.len() implies d(t[k].0 as int) == h(t[k].0 as int) by { assert(s[k] == t[k]); } dot_keys(t, d, h); let z = s[s.len() - 1]; }
}
/// applying the later updates backwards
pub open spec fn back(ups: Seq<Update>, k: int, t: int) -> int decreases ups.len() - k { if k >= ups.len() { t } else { ups[k].1.bwd()(back(ups, k + 1, t)) } }
pub open spec fn backs(ups: Seq<Update>, k: int) -> spec_fn(int) -> int { |t: int| back(ups, k, t) }
pub proof fn back_unplaced(ups: Seq<Update>, k: int, t: int, n: int) requires updates_ok(ups, n), 0 <= k <= ups.len(), 0 <= t < n ensures unplaced(ups, k, back(ups, k, t)) == unplaced(ups, ups.len() as int, t), 0 <= back(ups, k, t) < n decreases ups.len() - k {
    if k < ups.len() { back_unplaced(ups, k + 1, t, n); assert(ups[k].1.wf() && ups[k].1.len == n); }
}
pub proof fn mapped_twice(s: Seq<(usize, F)>, f: spec_fn(int) -> int, g: spec_fn(int) -> int, h: spec_fn(int) -> int, n: int) requires bounded(s, n), n <= usize::MAX, forall|t: int| 0 <= t < n ==> 0 <= #[trigger] f(t) < n && g(f(t)) == h(t) ensures mapped(mapped(s, f), g) == mapped(s, h) {
    let (a, b) = (mapped(mapped(s, f), g), mapped(s, h));
    assert forall|k: int| 0 <= k < s.len() implies a[k] == b[k] by { let z = s[k]; assert(z.0 < n); let ft = f(z.0 as int); assert(mapped(s, f)[k].0 == ft); }
    assert(a =~= b);
}
pub open spec fn origins(lu: LUDecomposition) -> spec_fn(int) -> int { |t: int| origin(lu, t) }
pub open spec fn places(lu: LUDecomposition) -> spec_fn(int) -> int { |j: int| place(lu, j) }
pub proof fn onto_places(lu: LUDecomposition) requires lu.ok() ensures onto(places(lu), origins(lu), lu.size()), onto(origins(lu), places(lu), lu.size()) {
    let n = lu.size(); let (f, g) = (places(lu), origins(lu));
    assert forall|i: int| #![trigger f(i)] 0 <= i < n implies 0 <= f(i) < n && g(f(i)) == i by { place_range(lu, i); }
    assert forall|i: int| #![trigger g(i)] 0 <= i < n implies 0 <= g(i) < n && f(g(i)) == i by { origin_range(lu, i); }
}
/// the solution of U y = w, moved to the columns of the basis, is matched
pub proof fn left_matched(lu: LUDecomposition, y: Seq<(usize, F)>, x: Seq<(usize, F)>, w: V) requires lu.ok(), swf(y, lu.size()), lu.size() <= usize::MAX, moved_list(y, x, origins(lu)), wsorted(x), forall|i: int| #![trigger dot(y, at_row(lu.u(), i))] 0 <= i < lu.size() ==> dot(y, at_row(lu.u(), i)) == w(i)
    ensures matched(lu, x, w), swf(x, lu.size()) {
    let n = lu.size(); onto_places(lu); moved_all(y, x, origins(lu), places(lu), n); moved_sorted(y, x, origins(lu), places(lu), n);
    assert forall|i: int| #![trigger dot(x, at_row(pu(lu), i))] 0 <= i < n implies dot(x, at_row(pu(lu), i)) == w(i) by {
        let d = at_row(pu(lu), i); assert forall|t: int| 0 <= t < n implies #[trigger] through(d, origins(lu))(t) == at_row(lu.u(), i)(t) by { origin_range(lu, t); }
        dot_ext(y, n, through(d, origins(lu)), at_row(lu.u(), i)); let z = dot(y, at_row(lu.u(), i));
    }
}
// ---- rows ----
pub proof fn dot_less(z: Seq<(usize, F)>, y: Seq<(usize, F)>, e: Seq<(usize, F)>, c: real, n: int, d: V) requires swf(z, n), swf(y, n), swf(e, n), forall|j: int| #![trigger sv(z, j)] sv(z, j) == sv(y, j) - sv(e, j) * c ensures dot(z, d) == dot(y, d) - c * dot(e, d) {
    dot_rsum(z, n, d); dot_rsum(y, n, d); dot_rsum(e, n, d); let k = -c;
    assert forall|i: int| 0 <= i < n implies #[trigger] term(z, d)(i) == term(y, d)(i) + k * term(e, d)(i) by { let (a, b, x, t) = (sv(z, i), sv(y, i), sv(e, i), d(i)); assert(a == b - x * c); assert((b - x * c) * t == b * t + (-c) * (x * t)) by(nonlinear_arith); }
    rsum_comb(n, term(y, d), term(e, d), term(z, d), k); let q = rsum(n, term(e, d)); assert((-c) * q == -(c * q)) by(nonlinear_arith);
}
pub proof fn dot_plus(s: Seq<(usize, F)>, d: V, p: int, c: real, n: int, g: V) requires swf(s, n), forall|i: int| 0 <= i < n ==> #[trigger] g(i) == d(i) + (if i == p { c } else { 0real }) ensures dot(s, g) == dot(s, d) + c * sv(s, p) {
    assert forall|i: int| 0 <= i < n implies #[trigger] g(i) == d(i) + c * deltas(p)(i) by { assert(c * 1real == c && c * 0real == 0real) by(nonlinear_arith); }
    dot_comb(s, n, d, deltas(p), g, c); sv_dot(s, p);
}
/// x is z with the later updates applied
pub open spec fn carried(ups: Seq<Update>, k: int, x: Seq<(usize, F)>, z: Seq<(usize, F)>) -> bool { forall|w: V| #![trigger undo_from(ups, k, w)] dot(x, undo_from(ups, k, w)) == dot(z, w) }
pub proof fn carry_one(ups: Seq<Update>, k: int, x: Seq<(usize, F)>, y: Seq<(usize, F)>, x1: Seq<(usize, F)>, z: Seq<(usize, F)>, n: int)
    requires updates_ok(ups, n), 0 <= k < ups.len(), n <= usize::MAX, swf(x1, n), moved_list(x1, y, ups[k].1.bwd()), swf(y, n), swf(x, n), forall|j: int| #![trigger sv(x, j)] sv(x, j) == sv(y, j) - sv(ups[k].0.values@, j) * sv(y, ups[k].0.pivot as int), carried(ups, k + 1, x1, z)
    ensures carried(ups, k, x, z)
{
    let u = ups[k]; assert(u.0.wf() && u.1.wf() && u.0.len == n && u.1.len == n); let p = u.0.pivot as int; let c = sv(y, p); let e = u.0.values@;
    assert(onto(u.1.bwd(), u.1.fwd(), n)); assert(onto(u.1.fwd(), u.1.bwd(), n)); moved_all(x1, y, u.1.bwd(), u.1.fwd(), n);
    assert forall|w: V| #![trigger undo_from(ups, k, w)] dot(x, undo_from(ups, k, w)) == dot(z, w) by {
        let v = undo_from(ups, k + 1, w); let d = unrot(u.1, v); let g = step(u, v); let t = dot(e, d); assert(undo_from(ups, k, w) == g);
        dot_less(x, y, e, c, n, g); dot_plus(y, d, p, t, n, g);
        assert forall|i: int| 0 <= i < n && i != u.0.pivot implies #[trigger] g(i) == d(i) by {}
        right_of(u.0, g, d, n); assert(t * c == c * t) by(nonlinear_arith);
        assert forall|i: int| 0 <= i < n implies #[trigger] through(d, u.1.bwd())(i) == v(i) by { assert(u.1.fwd()(u.1.bwd()(i)) == i); }
        dot_ext(x1, n, through(d, u.1.bwd()), v);
    }
}
/// the row r, taken with a column of the basis, is z taken with its column of U
pub open spec fn pulled(lu: LUDecomposition, r: Seq<(usize, F)>, z: Seq<(usize, F)>) -> bool { forall|w: V| #![trigger img(lu, w)] dot(r, img(lu, w)) == dot(z, w) }
pub proof fn pull(lu: LUDecomposition, r: Seq<(usize, F)>, y: Seq<(usize, F)>, x: Seq<(usize, F)>, z: Seq<(usize, F)>, pf: spec_fn(int) -> int, pb: spec_fn(int) -> int)
    requires lu.ok(), lu.size() <= usize::MAX, swf(y, lu.size()), swf(x, lu.size()), moved_list(y, r, pb), forall|i: int| #![trigger pf(i)] 0 <= i < lu.size() ==> pf(i) == lu.row_permutation.forward@[i], forall|i: int| #![trigger pb(i)] 0 <= i < lu.size() ==> pb(i) == lu.row_permutation.backward@[i], wsorted(r), carried(lu.updates@, 0, x, z), forall|i: int| #![trigger dot(y, at_col(lu.l(), i))] 0 <= i < lu.size() ==> dot(y, at_col(lu.l(), i)) == sv(x, i)
    ensures pulled(lu, r, z), swf(r, lu.size())
{
    let n = lu.size(); let (f, b) = (lu.row_permutation.forward@, lu.row_permutation.backward@);
    assert forall|i: int| #![trigger pb(i)] 0 <= i < n implies 0 <= pb(i) < n && pf(pb(i)) == i by { let q = b[i]; assert(f[q as int] == i); }
    assert forall|i: int| #![trigger pf(i)] 0 <= i < n implies 0 <= pf(i) < n && pb(pf(i)) == i by { let q = f[i]; assert(b[q as int] == i); }
    moved_all(y, r, pb, pf, n); moved_sorted(y, r, pb, pf, n);
    assert forall|w: V| #![trigger img(lu, w)] dot(r, img(lu, w)) == dot(z, w) by {
        let c = undone(lu, w); let lt: M = |k: int, t: int| lu.l()(t, k);
        assert forall|t: int| 0 <= t < n implies #[trigger] through(img(lu, w), pb)(t) == cv(n, c, lt)(t) by { let q = pb(t); assert(f[q] == t); rsum_ext(n, scaled(c, at_row(lu.l(), t)), scaled(c, col(lt, t))); }
        dot_ext(y, n, through(img(lu, w), pb), cv(n, c, lt)); fubini(y, n, n, c, lt);
        assert forall|i: int| 0 <= i < n implies #[trigger] scaled(c, dots(y, lt))(i) == term(x, c)(i) by {
            assert forall|k: int| 0 <= k < n implies #[trigger] row(lt, i)(k) == at_col(lu.l(), i)(k) by {} dot_ext(y, n, row(lt, i), at_col(lu.l(), i)); let zz = dot(y, at_col(lu.l(), i)); let (p, q) = (c(i), sv(x, i)); assert(p * q == q * p) by(nonlinear_arith);
        }
        rsum_ext(n, scaled(c, dots(y, lt)), term(x, c)); dot_rsum(x, n, c);
        undo_both(lu.updates@, 0, w); assert(undo_from(lu.updates@, 0, w) == c);
    }
}
pub proof fn right_solves(lu: LUDecomposition, r: Seq<(usize, F)>, z: Seq<(usize, F)>, a: V, b: M) requires lu.ok(), bounded(r, lu.size()), bounded(z, lu.size()), pulled(lu, r, z), factors(lu, b), forall|j: int| #![trigger place(lu, j)] 0 <= j < lu.size() ==> dot(z, at_col(lu.u(), place(lu, j))) == a(j)
    ensures solves_row(r, b, a, lu.size()) {
    let n = lu.size();
    assert forall|j: int| #![trigger dot(r, at_col(b, j))] 0 <= j < n implies dot(r, at_col(b, j)) == a(j) by {
        let w = at_col(pu(lu), j);
        assert forall|i: int| 0 <= i < n implies #[trigger] at_col(b, j)(i) == img(lu, w)(i) by { let zz = b(i, j); }
        dot_ext(r, n, at_col(b, j), img(lu, w)); assert(dot(r, img(lu, w)) == dot(z, w));
        let pj = place(lu, j); assert forall|i: int| 0 <= i < n implies #[trigger] w(i) == at_col(lu.u(), pj)(i) by {} dot_ext(z, n, w, at_col(lu.u(), pj));
    }
}
pub open spec fn an_answer(x: Sparse, lu: LUDecomposition, a: V) -> bool { x.wf() && x.len == lu.size() && forall|b: M| #![trigger factors(lu, b)] factors(lu, b) ==> solves_col(x.data@, b, a, lu.size()) }
pub open spec fn same_values(m: Map<usize, F>, s: Seq<(usize, F)>, n: int) -> bool { forall|i: int| #![trigger mv(m, i)] #![trigger sv(s, i)] 0 <= i < n ==> mv(m, i) == sv(s, i) }
pub open spec fn moved_map(m: Map<usize, F>, a: Seq<(usize, F)>, f: spec_fn(int) -> int, n: int) -> bool { forall|i: int| #![trigger mv(m, f(i))] #![trigger sv(a, i)] 0 <= i < n ==> mv(m, f(i)) == sv(a, i) }
impl VIter<(usize, F)> {
    pub fn v_collect_map(self) -> (r: BMap)
        ensures map_of(r@, self@), forall|n: int| #![trigger swf(self@, n)] swf(self@, n) && n <= usize::MAX ==> mwf(r@, n) && same_values(r@, self@, n),
          forall|a: Seq<(usize, F)>, f: spec_fn(int) -> int, g: spec_fn(int) -> int, n: int| #![trigger moved_values(self@, a, f), onto(f, g, n)] moved_values(self@, a, f) && swf(a, n) && onto(f, g, n) && n <= usize::MAX ==> mwf(r@, n) && moved_map(r@, a, f, n)
    {
        let ghost s = self@; let r = self.v_collect_map_raw();
        proof {
            assert forall|n: int| #![trigger mwf(r@, n)] swf(s, n) && n <= usize::MAX implies mwf(r@, n) && same_values(r@, s, n) by { map_same(r@, s, n); }
            assert forall|a: Seq<(usize, F)>, f: spec_fn(int) -> int, g: spec_fn(int) -> int, n: int| #![trigger moved_values(s, a, f), onto(f, g, n)] moved_values(s, a, f) && swf(a, n) && onto(f, g, n) && n <= usize::MAX implies mwf(r@, n) && moved_map(r@, a, f, n) by { map_moved(r@, s, a, f, g, n); }
        }
        r
    }
}
pub proof fn onto_full(p: Full) requires p.wf() ensures onto(p.fwd(), p.bwd(), p.forward@.len() as int), onto(p.bwd(), p.fwd(), p.forward@.len() as int) {
    let n = p.forward@.len() as int; let (f, b) = (p.fwd(), p.bwd());
    assert forall|i: int| #![trigger f(i)] 0 <= i < n implies 0 <= f(i) < n && b(f(i)) == i by { let z = p.forward@[i]; }
    assert forall|i: int| #![trigger b(i)] 0 <= i < n implies 0 <= b(i) < n && f(b(i)) == i by { let z = p.backward@[i]; }
}
pub proof fn left_step(ups: Seq<Update>, k: int, w: Seq<(usize, F)>, wm: Seq<(usize, F)>, wp: Seq<(usize, F)>, w0: Seq<(usize, F)>, n: int)
    requires updates_ok(ups, n), 0 <= k < ups.len(), n <= usize::MAX, swf(wm, n), moved_list(wm, w, ups[k].1.fwd()), forall|j: int| #![trigger sv(wm, j)] sv(wm, j) == lessened(svf(wp), ups[k].0.pivot as int, dot(ups[k].0.values@, svf(wp)))(j), agree(undo(ups, k, svf(wp)), svf(w0), n)
    ensures agree(undo(ups, k + 1, svf(w)), svf(w0), n), nonzero(w)
{
    let u = ups[k]; assert(u.0.wf() && u.1.wf() && u.0.len == n && u.1.len == n); let (f, b) = (u.1.fwd(), u.1.bwd());
    assert(onto(f, b, n)); assert(onto(b, f, n)); moved_all(wm, w, f, b, n);
    assert forall|i: int| #![trigger svf(w)(i)] 0 <= i < n implies svf(w)(i) == lessened(svf(wp), u.0.pivot as int, dot(u.0.values@, svf(wp)))(b(i)) by { let z = sv(w, i); let y = sv(wm, b(i)); }
    step_undoes(u, svf(w), svf(wp), n); undo_agree(ups, k, step(u, svf(w)), svf(wp), n);
    let (x, y, z) = (undo(ups, k + 1, svf(w)), undo(ups, k, svf(wp)), svf(w0)); 
    assert forall|i: int| #![trigger x(i)] #![trigger z(i)] 0 <= i < n implies x(i) == z(i) by { assert(x(i) == y(i)); assert(y(i) == z(i)); }
}
pub proof fn left_spiked(lu: LUDecomposition, w: Seq<(usize, F)>, w0: Seq<(usize, F)>, m: Map<usize, F>, a: Seq<(usize, F)>)
    requires lu.ok(), swf(w0, lu.size()), agree(undone(lu, svf(w)), svf(w0), lu.size()), moved_map(m, a, lu.row_permutation.fwd(), lu.size()), forall|i: int| #![trigger dot(w0, at_row(lu.l(), i))] 0 <= i < lu.size() ==> dot(w0, at_row(lu.l(), i)) == mv(m, i)
    ensures spiked(lu, svf(w), svf(a))
{
    let n = lu.size(); let x = undone(lu, svf(w));
    assert forall|i: int| #![trigger img(lu, svf(w))(i)] #![trigger svf(a)(i)] 0 <= i < n implies img(lu, svf(w))(i) == svf(a)(i) by {
        let p = lu.row_permutation.forward@[i]; let d = at_row(lu.l(), p as int); assert(lu.row_permutation.fwd()(i) == p); assert(mv(m, p as int) == sv(a, i)); assert(dot(w0, d) == mv(m, p as int));
        assert forall|k: int| 0 <= k < n implies #[trigger] scaled(x, d)(k) == term(w0, d)(k) by { assert(x(k) == svf(w0)(k)); }
        rsum_ext(n, scaled(x, d), term(w0, d)); dot_rsum(w0, n, d);
    }
}
pub proof fn back_step(ups: Seq<Update>, k: int, y: Seq<(usize, F)>, n: int) requires updates_ok(ups, n), 0 <= k < ups.len(), bounded(y, n), n <= usize::MAX ensures mapped(mapped(y, backs(ups, k + 1)), ups[k].1.bwd()) == mapped(y, backs(ups, k)) {
    let (f, g, h) = (backs(ups, k + 1), ups[k].1.bwd(), backs(ups, k));
    assert forall|t: int| 0 <= t < n implies 0 <= #[trigger] f(t) < n && g(f(t)) == h(t) by { back_unplaced(ups, k + 1, t, n); }
    mapped_twice(y, f, g, h, n);
}
pub proof fn back_last(lu: LUDecomposition, y: Seq<(usize, F)>) requires lu.ok(), lu.size() <= usize::MAX, bounded(y, lu.size()) ensures mapped(mapped(y, backs(lu.updates@, 0)), lu.column_permutation.bwd()) == mapped(y, origins(lu)) {
    let n = lu.size(); let (f, g, h) = (backs(lu.updates@, 0), lu.column_permutation.bwd(), origins(lu));
    assert forall|t: int| 0 <= t < n implies 0 <= #[trigger] f(t) < n && g(f(t)) == h(t) by { back_unplaced(lu.updates@, 0, t, n); assert(unplaced(lu.updates@, 0, f(t)) == f(t)); }
    mapped_twice(y, f, g, h, n);
}
pub proof fn back_none(ups: Seq<Update>, y: Seq<(usize, F)>) ensures mapped(y, backs(ups, ups.len() as int)) == y { assert(mapped(y, backs(ups, ups.len() as int)) =~= y); }
pub proof fn carried_none(ups: Seq<Update>, z: Seq<(usize, F)>) ensures carried(ups, ups.len() as int, z, z) {}
pub open spec fn placings(ups: Seq<Update>, k: int) -> spec_fn(int) -> int { |j: int| placed(ups, k, j) }
pub proof fn place_step(ups: Seq<Update>, k: int, l: Seq<(usize, F)>, n: int) requires updates_ok(ups, n), 0 <= k < ups.len(), bounded(l, n), n <= usize::MAX ensures mapped(mapped(l, placings(ups, k)), ups[k].1.fwd()) == mapped(l, placings(ups, k + 1)) {
    let (f, g, h) = (placings(ups, k), ups[k].1.fwd(), placings(ups, k + 1));
    assert forall|t: int| 0 <= t < n implies 0 <= #[trigger] f(t) < n && g(f(t)) == h(t) by { placed_range(ups, k, t, n); }
    mapped_twice(l, f, g, h, n);
}
pub proof fn place_last(lu: LUDecomposition, l0: Seq<(usize, F)>, l: Seq<(usize, F)>, a: Seq<(usize, F)>) requires lu.ok(), lu.size() <= usize::MAX, swf(a, lu.size()), moved_values(l0, a, lu.column_permutation.fwd()), l == mapped(l0, placings(lu.updates@, lu.updates@.len() as int)) ensures moved_values(l, a, places(lu)) {
    assert forall|k: int| #![trigger l[k]] #![trigger a[k]] 0 <= k < l.len() implies l[k].0 == places(lu)(a[k].0 as int) && l[k].1@ == a[k].1@ by { let z = l0[k]; let y = a[k]; assert(y.0 < lu.size()); place_range(lu, y.0 as int); }
}
pub proof fn one_map(m: Map<usize, F>, p: int, n: int) requires exists|s: Seq<(usize, F)>| #[trigger] map_of(m, s) && s.len() == 1 && s[0].0 == p && s[0].1@ == 1real, 0 <= p < n, n <= usize::MAX ensures mwf(m, n), forall|i: int| #![trigger mv(m, i)] 0 <= i < n ==> mv(m, i) == delta(i, p) {
    let s = choose|s: Seq<(usize, F)>| #[trigger] map_of(m, s) && s.len() == 1 && s[0].0 == p && s[0].1@ == 1real;
    map_same(m, s, n);
    assert forall|i: int| #![trigger mv(m, i)] 0 <= i < n implies mv(m, i) == delta(i, p) by { assert(mv(m, i) == sv(s, i)); if i == p { sv_at(s, 0); } else { assert forall|q: int| 0 <= q < s.len() implies (#[trigger] s[q]).0 != i by { assert(q == 0); } sv_absent(s, i); } }
}
pub open spec fn plain(r: LUDecomposition, m: int) -> bool {
    r.ok() && r.size() == m && r.updates@.len() == 0 && (forall|i: int| #![trigger r.row_permutation.forward@[i]] 0 <= i < m ==> r.row_permutation.forward@[i] == i) && (forall|i: int| #![trigger r.column_permutation.forward@[i]] 0 <= i < m ==> r.column_permutation.forward@[i] == i)
    && (forall|j: int| #![trigger r.lower_triangular@[j]] 0 <= j < m - 1 ==> r.lower_triangular@[j]@.len() == 0) && (forall|j: int| #![trigger r.upper_triangular@[j]] 0 <= j < m - 1 ==> r.upper_triangular@[j]@.len() == 0) && forall|i: int| #![trigger r.upper_diagonal@[i]] 0 <= i < m ==> r.upper_diagonal@[i]@ == 1real
}
pub proof fn plain_factors(r: LUDecomposition, m: int, b: M) requires plain(r, m), forall|i: int, j: int| 0 <= i < m && 0 <= j < m ==> #[trigger] b(i, j) == delta(i, j) ensures factors(r, b) {
    assert forall|i: int, j: int| #![trigger b(i, j)] 0 <= i < m && 0 <= j < m implies b(i, j) == img(r, at_col(pu(r), j))(i) by {
        let w = at_col(pu(r), j); let p = r.row_permutation.forward@[i]; let q = r.column_permutation.forward@[j]; assert(place(r, j) == j);
        let e = scaled(undone(r, w), at_row(r.l(), i)); assert(undone(r, w) == w);
        assert forall|k: int| 0 <= k < m && k != i implies #[trigger] e(k) == 0real by { if k < m - 1 { let z = r.lower_triangular@[k]; assert(z@.len() == 0); } let x = w(k); assert(x * 0real == 0real) by(nonlinear_arith); }
        rsum_only(m, e, i); let x = w(i); assert(x * 1real == x) by(nonlinear_arith); let z = r.upper_diagonal@[i]; if i != j && 0 < j { let z = r.upper_triangular@[j - 1]; assert(z@.len() == 0); }
    }
}
pub open spec fn solved_from(m: Map<usize, F>, y: Seq<(usize, F)>, u: M, n: int) -> bool { forall|i: int| #![trigger dot(y, at_row(u, i))] 0 <= i < n ==> dot(y, at_row(u, i)) == mv(m, i) }
pub open spec fn replaced(b: M, p: int, a: V) -> M { |i: int, j: int| if j == p { a(i) } else { b(i, j) } }
