// ---- sparse entry lists: the function they denote ----
pub open spec fn bounded<T>(s: Seq<(usize, T)>, n: int) -> bool { forall|k: int| #![trigger s[k]] 0 <= k < s.len() ==> s[k].0 < n }
/// the number at index i: the sum of the entries listed there
pub open spec fn sv(s: Seq<(usize, F)>, i: int) -> real decreases s.len() { if s.len() == 0 { 0real } else { sv(s.drop_last(), i) + (if s.last().0 == i { s.last().1@ } else { 0real }) } }
pub open spec fn nonzero(s: Seq<(usize, F)>) -> bool { forall|k: int| #![trigger s[k]] 0 <= k < s.len() ==> s[k].1@ != 0real }
/// strictly increasing indices below n, no stored zeros
pub open spec fn swf(s: Seq<(usize, F)>, n: int) -> bool { ssorted(s) && bounded(s, n) && nonzero(s) }
pub proof fn sv_push(s: Seq<(usize, F)>, x: (usize, F), i: int) ensures sv(s.push(x), i) == sv(s, i) + (if x.0 == i { x.1@ } else { 0real }) { assert(s.push(x).drop_last() =~= s); }
pub proof fn sv_concat(a: Seq<(usize, F)>, b: Seq<(usize, F)>, i: int) ensures sv(a + b, i) == sv(a, i) + sv(b, i) decreases b.len() {
    if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); sv_concat(a, b.drop_last(), i); }
}
pub proof fn sv_absent(s: Seq<(usize, F)>, i: int) requires forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]).0 != i ensures sv(s, i) == 0real decreases s.len() {
    if s.len() > 0 { assert(s.last() == s[s.len() - 1]); assert forall|k: int| 0 <= k < s.len() - 1 implies (#[trigger] s.drop_last()[k]).0 != i by { assert(s.drop_last()[k] == s[k]); } sv_absent(s.drop_last(), i); }
}
pub proof fn sv_split(s: Seq<(usize, F)>, k: int, i: int) requires 0 <= k <= s.len() ensures sv(s, i) == sv(s.subrange(0, k), i) + sv(s.subrange(k, s.len() as int), i) {
    assert(s =~= s.subrange(0, k) + s.subrange(k, s.len() as int)); sv_concat(s.subrange(0, k), s.subrange(k, s.len() as int), i);
}
pub proof fn sv_one(x: (usize, F), i: int) ensures sv(seq![x], i) == (if x.0 == i { x.1@ } else { 0real }) { sv_push(Seq::empty(), x, i); assert(Seq::<(usize, F)>::empty().push(x) =~= seq![x]); }
/// take entry k out
pub proof fn sv_remove(s: Seq<(usize, F)>, k: int, i: int) requires 0 <= k < s.len() ensures sv(s.remove(k), i) == sv(s, i) - (if s[k].0 == i { s[k].1@ } else { 0real }) {
    let a = s.subrange(0, k); let b = s.subrange(k + 1, s.len() as int);
    assert(s =~= a + (seq![s[k]] + b)); assert(s.remove(k) =~= a + b);
    sv_concat(a, seq![s[k]] + b, i); sv_concat(seq![s[k]], b, i); sv_concat(a, b, i); sv_one(s[k], i);
}
pub proof fn sv_insert(s: Seq<(usize, F)>, k: int, x: (usize, F), i: int) requires 0 <= k <= s.len() ensures sv(s.insert(k, x), i) == sv(s, i) + (if x.0 == i { x.1@ } else { 0real }) {
    sv_remove(s.insert(k, x), k, i); assert(s.insert(k, x).remove(k) =~= s); assert(s.insert(k, x)[k] == x);
}
pub proof fn sv_update(s: Seq<(usize, F)>, k: int, x: (usize, F), i: int) requires 0 <= k < s.len() ensures sv(s.update(k, x), i) == sv(s, i) - (if s[k].0 == i { s[k].1@ } else { 0real }) + (if x.0 == i { x.1@ } else { 0real }) {
    sv_remove(s, k, i); sv_insert(s.remove(k), k, x, i); assert(s.remove(k).insert(k, x) =~= s.update(k, x));
}
/// in a sorted list the entry is the number
pub proof fn sv_at(s: Seq<(usize, F)>, k: int) requires ssorted(s), 0 <= k < s.len() ensures sv(s, s[k].0 as int) == s[k].1@ {
    let i = s[k].0 as int;
    sv_remove(s, k, i);
    assert forall|j: int| 0 <= j < s.remove(k).len() implies (#[trigger] s.remove(k)[j]).0 != i by { if j < k { assert(s.remove(k)[j] == s[j]); assert(s[j].0 < s[k].0); } else { assert(s.remove(k)[j] == s[j + 1]); assert(s[k].0 < s[j + 1].0); } }
    sv_absent(s.remove(k), i);
}
/// every entry list denotes a sum over its entries of the entry times d at its index
pub open spec fn dot(s: Seq<(usize, F)>, d: spec_fn(int) -> real) -> real decreases s.len() { if s.len() == 0 { 0real } else { dot(s.drop_last(), d) + s.last().1@ * d(s.last().0 as int) } }
pub proof fn sv_scaled(s: Seq<(usize, F)>, t: Seq<(usize, F)>, c: real, i: int)
    requires s.len() == t.len(), forall|k: int| 0 <= k < s.len() ==> (#[trigger] t[k]).0 == s[k].0 && t[k].1@ == s[k].1@ * c
    ensures sv(t, i) == sv(s, i) * c decreases s.len()
{
    if s.len() > 0 {
        let (a, b) = (s.drop_last(), t.drop_last());
        assert forall|k: int| 0 <= k < a.len() implies (#[trigger] b[k]).0 == a[k].0 && b[k].1@ == a[k].1@ * c by { assert(b[k] == t[k]); assert(a[k] == s[k]); }
        sv_scaled(a, b, c, i); assert(t[t.len() - 1].0 == s[s.len() - 1].0);
        let x = sv(a, i); let y = s.last().1@;
        assert((x + y) * c == x * c + y * c) by(nonlinear_arith);
    } else { assert(0real * c == 0real) by(nonlinear_arith); }
}
/// a column iterator yields references: the entry list it denotes
pub open spec fn own(s: Seq<(usize, &F)>) -> Seq<(usize, F)> { Seq::new(s.len(), |i: int| (s[i].0, *s[i].1)) }
pub proof fn own_take(s: Seq<(usize, &F)>, k: int) requires 0 <= k <= s.len() ensures own(s.subrange(0, k)) =~= own(s).subrange(0, k) {}
pub proof fn sv_step(s: Seq<(usize, F)>, k: int, i: int) requires 0 <= k < s.len() ensures sv(s.subrange(0, k + 1), i) == sv(s.subrange(0, k), i) + (if s[k].0 == i { s[k].1@ } else { 0real }) {
    assert(s.subrange(0, k + 1) =~= s.subrange(0, k).push(s[k])); sv_push(s.subrange(0, k), s[k], i);
}
pub proof fn dot_step(s: Seq<(usize, F)>, k: int, d: spec_fn(int) -> real) requires 0 <= k < s.len() ensures dot(s.subrange(0, k + 1), d) == dot(s.subrange(0, k), d) + s[k].1@ * d(s[k].0 as int) {
    assert(s.subrange(0, k + 1).drop_last() =~= s.subrange(0, k));
}
/// summing the terms gives the product
pub open spec fn terms(t: Seq<F>, s: Seq<(usize, F)>, d: spec_fn(int) -> real) -> bool { t.len() == s.len() && forall|k: int| 0 <= k < t.len() ==> (#[trigger] t[k])@ == s[k].1@ * d(s[k].0 as int) }
pub proof fn sum_dot(t: Seq<F>, s: Seq<(usize, F)>, d: spec_fn(int) -> real) requires terms(t, s, d) ensures ssum(t) == dot(s, d) decreases t.len() {
    if t.len() > 0 { let (a, b) = (t.drop_last(), s.drop_last()); assert(t[t.len() - 1]@ == s[t.len() - 1].1@ * d(s[t.len() - 1].0 as int)); assert forall|k: int| 0 <= k < a.len() implies (#[trigger] a[k])@ == b[k].1@ * d(b[k].0 as int) by { assert(a[k] == t[k]); assert(b[k] == s[k]); } sum_dot(a, b, d); }
}
pub proof fn sums(s: Seq<(usize, F)>, d: spec_fn(int) -> real) ensures forall|t: Seq<F>| terms(t, s, d) ==> #[trigger] ssum(t) == dot(s, d) {
    assert forall|t: Seq<F>| terms(t, s, d) implies #[trigger] ssum(t) == dot(s, d) by { sum_dot(t, s, d); }
}
pub proof fn lemma_set(a: Seq<(usize, F)>, b: Seq<(usize, F)>, i: usize, v: F, k: int)
    requires ssorted(a),
      (exists|p: int| 0 <= p < a.len() && a[p].0 == i && b == #[trigger] a.update(p, (i, v))) ||
      (exists|p: int| 0 <= p <= a.len() && b == #[trigger] a.insert(p, (i, v)) && (forall|q: int| 0 <= q < a.len() ==> (#[trigger] a[q]).0 != i))
    ensures sv(b, k) == (if k == i { v@ } else { sv(a, k) })
{
    if exists|p: int| 0 <= p < a.len() && a[p].0 == i && b == #[trigger] a.update(p, (i, v)) {
        let p = choose|p: int| 0 <= p < a.len() && a[p].0 == i && b == #[trigger] a.update(p, (i, v));
        sv_update(a, p, (i, v), k); sv_at(a, p);
    } else {
        let p = choose|p: int| 0 <= p <= a.len() && b == #[trigger] a.insert(p, (i, v)) && (forall|q: int| 0 <= q < a.len() ==> (#[trigger] a[q]).0 != i);
        sv_insert(a, p, (i, v), k); if k == i { sv_absent(a, k); }
    }
}
