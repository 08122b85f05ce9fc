// The factorisation: what the working tables of `rows` denote.
pub type Rows = Seq<Vec<(usize, F)>>;
/// one if there is an entry at the place
pub open spec fn has(s: Seq<(usize, F)>, j: int) -> int { if sv(s, j) != 0real { 1 } else { 0 } }
/// how often a number is listed
pub open spec fn occ(s: Seq<usize>, j: int) -> int decreases s.len() { if s.len() == 0 { 0 } else { occ(s.drop_last(), j) + (if s.last() == j { 1int } else { 0 }) } }
pub proof fn occ_push(s: Seq<usize>, x: usize, j: int) ensures occ(s.push(x), j) == occ(s, j) + (if x == j { 1int } else { 0 }) { assert(s.push(x).drop_last() =~= s); }
pub proof fn occ_step(s: Seq<usize>, k: int, j: int) requires 0 <= k < s.len() ensures occ(s.subrange(0, k + 1), j) == occ(s.subrange(0, k), j) + (if s[k] == j { 1int } else { 0 }) { assert(s.subrange(0, k + 1).drop_last() =~= s.subrange(0, k)); }
pub proof fn occ_nonneg(s: Seq<usize>, j: int) ensures 0 <= occ(s, j) <= s.len() decreases s.len() { if s.len() > 0 { occ_nonneg(s.drop_last(), j); } }
pub proof fn occ_below(s: Seq<usize>, k: int, j: int) requires 0 <= k <= s.len() ensures occ(s.subrange(0, k), j) <= occ(s, j) decreases s.len() - k { if k == s.len() { assert(s.subrange(0, k) =~= s); } else { occ_below(s, k + 1, j); occ_step(s, k, j); } }
/// everything listed so far lies below
pub open spec fn under(s: Seq<(usize, F)>, a: int) -> bool { forall|k: int| #![trigger s[k]] 0 <= k < s.len() ==> s[k].0 < a }
pub proof fn sv_under(s: Seq<(usize, F)>, a: int) requires under(s, a) ensures forall|i: int| #![trigger sv(s, i)] i >= a ==> sv(s, i) == 0real { assert forall|i: int| #![trigger sv(s, i)] i >= a implies sv(s, i) == 0real by { sv_absent(s, i); } }
/// the row with a multiple of the other taken off, read up to a point in both
pub open spec fn merged(new: Seq<(usize, F)>, gone: Seq<usize>, came: Seq<usize>, old: Seq<(usize, F)>, rm: Seq<(usize, F)>, c: real) -> bool {
    ssorted(new) && nonzero(new) && (forall|j: int| #![trigger sv(new, j)] sv(new, j) == sv(old, j) - c * sv(rm, j))
    && (forall|j: int| #![trigger has(new, j)] #![trigger occ(gone, j)] #![trigger occ(came, j)] has(new, j) == has(old, j) - occ(gone, j) + occ(came, j))
    && forall|n: int| #![trigger bounded(new, n)] bounded(old, n) && bounded(rm, n) ==> bounded(new, n)
}
pub open spec fn going(new: Seq<(usize, F)>, gone: Seq<usize>, came: Seq<usize>, s: Seq<(usize, F)>, ix: int, rm: Seq<(usize, F)>, i: int, c: real) -> bool {
    0 <= ix <= s.len() && 0 <= i <= rm.len() && ssorted(s) && nonzero(s) && ssorted(rm) && nonzero(rm) && c != 0real && merged(new, gone, came, s.subrange(0, ix), rm.subrange(0, i), c)
    && (ix < s.len() ==> under(new, s[ix].0 as int) && under(rm.subrange(0, i), s[ix].0 as int)) && (i < rm.len() ==> under(new, rm[i].0 as int) && under(s.subrange(0, ix), rm[i].0 as int))
}
pub proof fn bounded_step(s: Seq<(usize, F)>, k: int, n: int) requires 0 <= k < s.len(), bounded(s.subrange(0, k + 1), n) ensures bounded(s.subrange(0, k), n), s[k].0 < n {
    let (a, b) = (s.subrange(0, k), s.subrange(0, k + 1)); assert forall|q: int| #![trigger a[q]] 0 <= q < a.len() implies a[q].0 < n by { assert(b[q] == a[q]); } assert(b[k] == s[k]);
}
pub proof fn under_step(s: Seq<(usize, F)>, k: int, a: int) requires 0 <= k < s.len(), under(s.subrange(0, k), a), s[k].0 < a ensures under(s.subrange(0, k + 1), a) {
    let (x, y) = (s.subrange(0, k), s.subrange(0, k + 1)); assert forall|q: int| #![trigger y[q]] 0 <= q < y.len() implies y[q].0 < a by { if q < k { assert(x[q] == y[q]); } else { assert(y[q] == s[k]); } }
}
pub proof fn under_push(s: Seq<(usize, F)>, x: (usize, F), a: int, b: int) requires under(s, a), x.0 < b, a <= b ensures under(s.push(x), b) {
    let y = s.push(x); assert forall|q: int| #![trigger y[q]] 0 <= q < y.len() implies y[q].0 < b by { if q < s.len() { assert(y[q] == s[q]); } }
}
pub proof fn pushed(s: Seq<(usize, F)>, x: (usize, F)) requires ssorted(s), nonzero(s), under(s, x.0 as int), x.1@ != 0real
    ensures ssorted(s.push(x)), nonzero(s.push(x)), forall|j: int| #![trigger sv(s.push(x), j)] sv(s.push(x), j) == sv(s, j) + (if j == x.0 { x.1@ } else { 0real }), forall|j: int| #![trigger has(s.push(x), j)] has(s.push(x), j) == has(s, j) + (if j == x.0 { 1int } else { 0 })
{
    let y = s.push(x); sv_under(s, x.0 as int);
    assert forall|p: int, q: int| 0 <= p < q < y.len() implies (#[trigger] y[p]).0 < (#[trigger] y[q]).0 by { assert(y[p] == s[p]); if q < s.len() { assert(y[q] == s[q]); } }
    assert forall|k: int| #![trigger y[k]] 0 <= k < y.len() implies y[k].1@ != 0real by { if k < s.len() { assert(y[k] == s[k]); } }
    assert forall|j: int| #![trigger sv(y, j)] sv(y, j) == sv(s, j) + (if j == x.0 { x.1@ } else { 0real }) by { sv_push(s, x, j); }
    assert forall|j: int| #![trigger has(y, j)] has(y, j) == has(s, j) + (if j == x.0 { 1int } else { 0 }) by { sv_push(s, x, j); let z = sv(s, j); if j == x.0 { assert(sv(s, x.0 as int) == 0real); } }
}
/// reading one more entry of a sorted list
pub proof fn read_more(s: Seq<(usize, F)>, k: int) requires 0 <= k < s.len(), ssorted(s), nonzero(s)
    ensures forall|j: int| #![trigger sv(s.subrange(0, k + 1), j)] sv(s.subrange(0, k + 1), j) == sv(s.subrange(0, k), j) + (if j == s[k].0 { s[k].1@ } else { 0real }), forall|j: int| #![trigger has(s.subrange(0, k + 1), j)] has(s.subrange(0, k + 1), j) == has(s.subrange(0, k), j) + (if j == s[k].0 { 1int } else { 0 }), under(s.subrange(0, k), s[k].0 as int)
{
    let t = s.subrange(0, k); assert(s.subrange(0, k + 1) =~= t.push(s[k]));
    assert forall|q: int| #![trigger t[q]] 0 <= q < t.len() implies t[q].0 < s[k].0 by { assert(t[q] == s[q]); assert(s[q].0 < s[k].0); }
    assert forall|a: int, b: int| 0 <= a < b < t.len() implies (#[trigger] t[a]).0 < (#[trigger] t[b]).0 by { assert(s[a].0 < s[b].0); }
    assert forall|a: int| #![trigger t[a]] 0 <= a < t.len() implies t[a].1@ != 0real by { assert(s[a].1@ != 0real); }
    pushed(t, s[k]);
}
pub proof fn going_start(s: Seq<(usize, F)>, rm: Seq<(usize, F)>, c: real) requires ssorted(s), nonzero(s), ssorted(rm), nonzero(rm), c != 0real ensures going(Seq::empty(), Seq::empty(), Seq::empty(), s, 0, rm, 0, c) {
    let e = Seq::<(usize, F)>::empty(); assert(s.subrange(0, 0) =~= e && rm.subrange(0, 0) =~= e);
    assert forall|j: int| #![trigger sv(e, j)] sv(e, j) == sv(e, j) - c * sv(e, j) by { assert(c * 0real == 0real) by(nonlinear_arith); }
    assert forall|j: int| #![trigger has(e, j)] #![trigger occ(Seq::empty(), j)] has(e, j) == has(e, j) - occ(Seq::empty(), j) + occ(Seq::empty(), j) by {}
}
pub proof fn going_removed(new: Seq<(usize, F)>, gone: Seq<usize>, came: Seq<usize>, s: Seq<(usize, F)>, ix: int, rm: Seq<(usize, F)>, i: int, c: real, x: (usize, F))
    requires going(new, gone, came, s, ix, rm, i, c), i < rm.len(), ix < s.len() ==> rm[i].0 < s[ix].0, x.0 == rm[i].0, x.1@ == (-c) * rm[i].1@
    ensures going(new.push(x), gone, came.push(x.0), s, ix, rm, i + 1, c)
{
    let v = rm[i].1@; assert(v != 0real); assert((-c) * v == -(c * v)) by(nonlinear_arith); assert(c * v != 0real) by(nonlinear_arith) requires c != 0real, v != 0real;
    let (y, s1, r0, r1) = (new.push(x), s.subrange(0, ix), rm.subrange(0, i), rm.subrange(0, i + 1)); pushed(new, x); read_more(rm, i); sv_under(s1, x.0 as int);
    assert forall|j: int| #![trigger sv(y, j)] sv(y, j) == sv(s1, j) - c * sv(r1, j) by { let a = sv(r0, j); assert(sv(new, j) == sv(s1, j) - c * a); assert(sv(r1, j) == a + (if j == x.0 { v } else { 0real })); assert(c * (a + v) == c * a + c * v) by(nonlinear_arith); assert(c * (a + 0real) == c * a); }
    assert forall|j: int| #![trigger has(y, j)] #![trigger occ(gone, j)] #![trigger occ(came.push(x.0), j)] has(y, j) == has(s1, j) - occ(gone, j) + occ(came.push(x.0), j) by { occ_push(came, x.0, j); let z = has(new, j); }
    assert forall|n: int| #![trigger bounded(y, n)] bounded(s1, n) && bounded(r1, n) implies bounded(y, n) by { bounded_step(rm, i, n); assert(bounded(new, n)); }
    if ix < s.len() { under_push(new, x, rm[i].0 as int, s[ix].0 as int); under_step(rm, i, s[ix].0 as int); }
    if i + 1 < rm.len() { assert(rm[i].0 < rm[i + 1].0); under_push(new, x, rm[i].0 as int, rm[i + 1].0 as int); assert forall|q: int| #![trigger s1[q]] 0 <= q < s1.len() implies s1[q].0 < rm[i + 1].0 by { assert(s1[q].0 < rm[i].0); } }
}
pub proof fn going_kept(new: Seq<(usize, F)>, gone: Seq<usize>, came: Seq<usize>, s: Seq<(usize, F)>, ix: int, rm: Seq<(usize, F)>, i: int, c: real)
    requires going(new, gone, came, s, ix, rm, i, c), ix < s.len(), i < rm.len() ==> rm[i].0 > s[ix].0
    ensures going(new.push(s[ix]), gone, came, s, ix + 1, rm, i, c)
{
    let x = s[ix]; let (y, s0, s1, r0) = (new.push(x), s.subrange(0, ix), s.subrange(0, ix + 1), rm.subrange(0, i)); pushed(new, x); read_more(s, ix);
    assert forall|j: int| #![trigger sv(y, j)] sv(y, j) == sv(s1, j) - c * sv(r0, j) by { assert(sv(new, j) == sv(s0, j) - c * sv(r0, j)); }
    assert forall|j: int| #![trigger has(y, j)] #![trigger occ(gone, j)] #![trigger occ(came, j)] has(y, j) == has(s1, j) - occ(gone, j) + occ(came, j) by { let z = has(new, j); let z2 = has(s1, j); }
    assert forall|n: int| #![trigger bounded(y, n)] bounded(s1, n) && bounded(r0, n) implies bounded(y, n) by { bounded_step(s, ix, n); assert(bounded(new, n)); }
    if i < rm.len() { under_push(new, x, s[ix].0 as int, rm[i].0 as int); under_step(s, ix, rm[i].0 as int); }
    if ix + 1 < s.len() { assert(s[ix].0 < s[ix + 1].0); under_push(new, x, s[ix].0 as int, s[ix + 1].0 as int); assert forall|q: int| #![trigger r0[q]] 0 <= q < r0.len() implies r0[q].0 < s[ix + 1].0 by { assert(r0[q].0 < s[ix].0); } }
}
pub proof fn going_both(new: Seq<(usize, F)>, gone: Seq<usize>, came: Seq<usize>, s: Seq<(usize, F)>, ix: int, rm: Seq<(usize, F)>, i: int, c: real, x: (usize, F))
    requires going(new, gone, came, s, ix, rm, i, c), ix < s.len(), i < rm.len(), rm[i].0 == s[ix].0, x.0 == s[ix].0, x.1@ == s[ix].1@ - c * rm[i].1@ || s[ix].1@ - c * rm[i].1@ == 0real
    ensures s[ix].1@ - c * rm[i].1@ != 0real ==> going(new.push(x), gone, came, s, ix + 1, rm, i + 1, c), s[ix].1@ - c * rm[i].1@ == 0real ==> going(new, gone.push(x.0), came, s, ix + 1, rm, i + 1, c)
{
    let v = rm[i].1@; let w = s[ix].1@ - c * v; let (s0, s1, r0, r1) = (s.subrange(0, ix), s.subrange(0, ix + 1), rm.subrange(0, i), rm.subrange(0, i + 1)); read_more(s, ix); read_more(rm, i);
    sv_under(new, x.0 as int); sv_under(s0, x.0 as int); sv_under(r0, x.0 as int);
    assert forall|j: int| #![trigger sv(new, j)] sv(new, j) + (if j == x.0 { w } else { 0real }) == sv(s1, j) - c * sv(r1, j) by { let a = sv(r0, j); assert(sv(new, j) == sv(s0, j) - c * a); assert(sv(r1, j) == a + (if j == x.0 { v } else { 0real })); assert(c * (a + v) == c * a + c * v) by(nonlinear_arith); assert(c * (a + 0real) == c * a); }
    if ix + 1 < s.len() { assert(s[ix].0 < s[ix + 1].0); assert forall|q: int| #![trigger r1[q]] 0 <= q < r1.len() implies r1[q].0 < s[ix + 1].0 by { if q < i { assert(r1[q] == r0[q]); assert(r0[q].0 < s[ix].0); } } }
    if i + 1 < rm.len() { assert(rm[i].0 < rm[i + 1].0); assert forall|q: int| #![trigger s1[q]] 0 <= q < s1.len() implies s1[q].0 < rm[i + 1].0 by { if q < ix { assert(s1[q] == s0[q]); assert(s0[q].0 < rm[i].0); } } }
    if w != 0real {
        let y = new.push(x); pushed(new, x);
        assert forall|j: int| #![trigger sv(y, j)] sv(y, j) == sv(s1, j) - c * sv(r1, j) by { let z = sv(new, j); }
        assert forall|j: int| #![trigger has(y, j)] #![trigger occ(gone, j)] #![trigger occ(came, j)] has(y, j) == has(s1, j) - occ(gone, j) + occ(came, j) by { let z = has(new, j); let z2 = has(s1, j); }
        assert forall|n: int| #![trigger bounded(y, n)] bounded(s1, n) && bounded(r1, n) implies bounded(y, n) by { bounded_step(s, ix, n); bounded_step(rm, i, n); assert(bounded(new, n)); }
        if ix + 1 < s.len() { under_push(new, x, x.0 as int, s[ix + 1].0 as int); }
        if i + 1 < rm.len() { under_push(new, x, x.0 as int, rm[i + 1].0 as int); }
    } else {
        let g = gone.push(x.0);
        assert forall|j: int| #![trigger sv(new, j)] sv(new, j) == sv(s1, j) - c * sv(r1, j) by {}
        assert forall|j: int| #![trigger has(new, j)] #![trigger occ(g, j)] #![trigger occ(came, j)] has(new, j) == has(s1, j) - occ(g, j) + occ(came, j) by { occ_push(gone, x.0, j); let z = has(new, j) + occ(gone, j); let z2 = has(s1, j); }
        assert forall|n: int| #![trigger bounded(new, n)] bounded(s1, n) && bounded(r1, n) implies bounded(new, n) by { bounded_step(s, ix, n); bounded_step(rm, i, n); }
        if ix + 1 < s.len() { assert forall|q: int| #![trigger new[q]] 0 <= q < new.len() implies new[q].0 < s[ix + 1].0 by { assert(new[q].0 < x.0); } }
        if i + 1 < rm.len() { assert forall|q: int| #![trigger new[q]] 0 <= q < new.len() implies new[q].0 < rm[i + 1].0 by { assert(new[q].0 < x.0); } }
    }
}
pub proof fn going_done(new: Seq<(usize, F)>, gone: Seq<usize>, came: Seq<usize>, s: Seq<(usize, F)>, rm: Seq<(usize, F)>, c: real) requires going(new, gone, came, s, s.len() as int, rm, rm.len() as int, c) ensures merged(new, gone, came, s, rm, c) { assert(s.subrange(0, s.len() as int) =~= s && rm.subrange(0, rm.len() as int) =~= rm); }
