// Unit: the other permutations: exchange of two positions, none at all, and a full one from its forward map.
use vstd::prelude::*;
verus! {
//%%include prelude.rs
//%%include perm_spec.rs
//%%item src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/swap.rs Swap
//%%end
impl Swap {
    pub open spec fn wf(&self) -> bool { self.indices.0 < self.len && self.indices.1 < self.len }
    pub open spec fn fwd(&self) -> spec_fn(int) -> int { |i: int| if i == self.indices.0 { self.indices.1 as int } else if i == self.indices.1 { self.indices.0 as int } else { i } }
}
pub open spec fn bounded<T>(s: Seq<(usize, T)>, n: int) -> bool { forall|k: int| #![trigger s[k]] 0 <= k < s.len() ==> s[k].0 < n }

pub proof fn lemma_rot_multiset<T>(s: Seq<T>, n: int) requires 0 <= n <= s.len() ensures rotl(s, n).to_multiset() == s.to_multiset() {
    vstd::seq_lib::lemma_multiset_commutative(s.subrange(n, s.len() as int), s.subrange(0, n));
    vstd::seq_lib::lemma_multiset_commutative(s.subrange(0, n), s.subrange(n, s.len() as int));
    assert(s.subrange(0, n) + s.subrange(n, s.len() as int) =~= s);
    assert(s.subrange(n, s.len() as int).to_multiset().add(s.subrange(0, n).to_multiset()) =~= s.subrange(0, n).to_multiset().add(s.subrange(n, s.len() as int).to_multiset()));
}
pub open spec fn rot<T>(s: Seq<T>, a: int, b: int, n: int) -> Seq<T> { s.subrange(0, a) + rotl(s.subrange(a, b), n) + s.subrange(b, s.len() as int) }
pub proof fn lemma_rot_range<T>(s: Seq<T>, a: int, b: int, n: int) requires 0 <= a <= b <= s.len(), 0 <= n <= b - a ensures rot(s, a, b, n).to_multiset() == s.to_multiset() {
    let (x, t, z) = (s.subrange(0, a), s.subrange(a, b), s.subrange(b, s.len() as int));
    lemma_rot_multiset(t, n);
    vstd::seq_lib::lemma_multiset_commutative(x, rotl(t, n)); vstd::seq_lib::lemma_multiset_commutative(x, t);
    vstd::seq_lib::lemma_multiset_commutative(x + rotl(t, n), z); vstd::seq_lib::lemma_multiset_commutative(x + t, z);
    assert(x + t + z =~= s);
}
/// the entry at p gets the number b and moves to where it belongs
pub open spec fn placed_at<T>(s: Seq<(usize, T)>, p: int, q: int, b: usize) -> Seq<(usize, T)> { let u = s.update(p, (b, s[p].1)); if p < q { rot(u, p, q, 1) } else if p > q { rot(u, q, p + 1, p - q) } else { u } }
pub open spec fn missing<T>(s: Seq<(usize, T)>, q: int, b: usize) -> bool { 0 <= q <= s.len() && (forall|k: int| #![trigger s[k]] 0 <= k < q ==> s[k].0 < b) && forall|k: int| #![trigger s[k]] q <= k < s.len() ==> s[k].0 > b }
pub proof fn moves_one<T>(w: Swap, s: Seq<(usize, T)>, p: int, q: int, a: usize, b: usize)
    requires w.wf(), ssorted(s), bounded(s, w.len as int), 0 <= p < s.len(), s[p].0 == a, missing(s, q, b), w.indices == (a, b) || w.indices == (b, a)
    ensures placed_at(s, p, q, b).to_multiset() == mapped(s, w.fwd()).to_multiset(), ssorted(placed_at(s, p, q, b)), placed_at(s, p, q, b).len() == s.len(), bounded(placed_at(s, p, q, b), w.len as int)
{
    let u = s.update(p, (b, s[p].1)); let t = placed_at(s, p, q, b); let m = mapped(s, w.fwd());
    assert forall|k: int| 0 <= k < s.len() implies #[trigger] u[k] == m[k] by { let z = s[k]; if k < p { assert(s[k].0 < s[p].0); } else if k > p { assert(s[p].0 < s[k].0); } if k < q { assert(s[k].0 < b); } else { assert(s[k].0 > b); } }
    assert(u =~= m);
    if p < q { lemma_rot_range(u, p, q, 1); assert forall|k: int| 0 <= k < t.len() implies #[trigger] t[k] == (if k < p || k >= q { u[k] } else if k == q - 1 { u[p] } else { u[k + 1] }) by {} }
    else if p > q { lemma_rot_range(u, q, p + 1, p - q); assert forall|k: int| 0 <= k < t.len() implies #[trigger] t[k] == (if k < q || k > p { u[k] } else if k == q { u[p] } else { u[k - 1] }) by {} }
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).0 < (#[trigger] t[j]).0 by {
        let f = |k: int| if p < q { if k < p || k >= q { k } else if k == q - 1 { p } else { k + 1 } } else if p > q { if k < q || k > p { k } else if k == q { p } else { k - 1 } } else { k };
        let (x, y) = (f(i), f(j)); assert(t[i] == u[x] && t[j] == u[y]);
        if x != p && y != p { assert(x < y); assert(s[x].0 < s[y].0); } else if x == p { let z = s[y]; assert(y >= q); } else { let z = s[x]; assert(x < q); }
    }
    assert forall|k: int| 0 <= k < t.len() implies (#[trigger] t[k]).0 < w.len by {
        let f = |k: int| if p < q { if k < p || k >= q { k } else if k == q - 1 { p } else { k + 1 } } else if p > q { if k < q || k > p { k } else if k == q { p } else { k - 1 } } else { k };
        let x = f(k); assert(t[k] == u[x]); let z = s[x];
    }
}
pub proof fn moves_none<T>(w: Swap, s: Seq<(usize, T)>, p: int, q: int) requires w.wf(), missing(s, p, w.indices.0), missing(s, q, w.indices.1) ensures mapped(s, w.fwd()) == s {
    assert forall|k: int| 0 <= k < s.len() implies #[trigger] s[k] == mapped(s, w.fwd())[k] by { let z = s[k]; assert(z.0 != w.indices.0 && z.0 != w.indices.1) by { if k < p {} if k < q {} } }
    assert(mapped(s, w.fwd()) =~= s);
}
pub proof fn lemma_exchange<T>(s: Seq<T>, p: int, q: int) requires 0 <= p < s.len(), 0 <= q < s.len() ensures s.update(p, s[q]).update(q, s[p]).to_multiset() == s.to_multiset() {
    let (a, b) = if p <= q { (p, q) } else { (q, p) };
    let t = s.update(p, s[q]).update(q, s[p]);
    if a == b { assert(t =~= s); } else {
        let u = rot(s, a, b + 1, 1); lemma_rot_range(s, a, b + 1, 1); lemma_rot_range(u, a, b, b - a - 1); let x = rot(u, a, b, b - a - 1);
        assert forall|k: int| 0 <= k < s.len() implies #[trigger] u[k] == (if k < a || k > b { s[k] } else if k == b { s[a] } else { s[k + 1] }) by {}
        assert forall|k: int| 0 <= k < s.len() implies #[trigger] x[k] == t[k] by { if k > a && k < b { assert(x[k] == u[k - 1]); } else if k == a { assert(x[k] == u[b - 1]); } else { assert(x[k] == u[k]); } }
        assert(x =~= t);
    }
}
/// both present: their values change places
pub open spec fn exchanged<T>(s: Seq<(usize, T)>, p: int, q: int) -> Seq<(usize, T)> { s.update(p, (s[p].0, s[q].1)).update(q, (s[q].0, s[p].1)) }
pub proof fn moves_both<T>(w: Swap, s: Seq<(usize, T)>, p: int, q: int)
    requires w.wf(), ssorted(s), bounded(s, w.len as int), 0 <= p < s.len(), 0 <= q < s.len(), s[p].0 == w.indices.0, s[q].0 == w.indices.1
    ensures exchanged(s, p, q).to_multiset() == mapped(s, w.fwd()).to_multiset(), ssorted(exchanged(s, p, q)), bounded(exchanged(s, p, q), w.len as int)
{
    let t = exchanged(s, p, q); let m = mapped(s, w.fwd());
    assert forall|k: int| 0 <= k < t.len() implies (#[trigger] t[k]).0 == s[k].0 by {}
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).0 < (#[trigger] t[j]).0 by { assert(s[i].0 < s[j].0); }
    if p < q { assert(s[p].0 < s[q].0); } else if q < p { assert(s[q].0 < s[p].0); }
    assert(t =~= m.update(p, m[q]).update(q, m[p])) by {
        let x = m.update(p, m[q]).update(q, m[p]);
        assert forall|k: int| 0 <= k < s.len() implies #[trigger] x[k] == t[k] by { let z = s[k]; if k < p { assert(s[k].0 < s[p].0); } else if k > p { assert(s[p].0 < s[k].0); } if k < q { assert(s[k].0 < s[q].0); } else if k > q { assert(s[q].0 < s[k].0); } }
    }
    lemma_exchange(m, p, q);
}
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/swap.rs Swap::new
//% spec
    requires indices.0 < len, indices.1 < len
    ensures r.wf(), r.indices == indices, r.len == len
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/swap.rs Swap as Permutation::len
//% spec
    ensures r == self.len
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/swap.rs Swap as Permutation::forward
//% spec
    requires self.wf(), i < self.len
    ensures r == self.fwd()(i as int), r < self.len, self.fwd()(r as int) == i
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/swap.rs Swap as Permutation::backward
//% spec
    requires self.wf(), i < self.len
    ensures r == self.fwd()(i as int), r < self.len, self.fwd()(r as int) == i
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/swap.rs Swap as Permutation::forward_sorted
//% spec
    requires self.wf(), bounded(old(items)@, self.len as int), ssorted(old(items)@)
    ensures final(items)@.to_multiset() == mapped(old(items)@, self.fwd()).to_multiset(), ssorted(final(items)@), final(items)@.len() == old(items)@.len(), bounded(final(items)@, self.len as int)
//% start
    let ghost s = items@;
    proof { let l = items.len(); assert(l == s.len()); }
//% before "match (has_0"
    proof {
        match has_0 { Ok(i) => {}, Err(i) => { assert(missing(s, i as int, self.indices.0)); } }
        match has_1 { Ok(i) => {}, Err(i) => { assert(missing(s, i as int, self.indices.1)); } }
        match (has_0, has_1) { (Err(x), Err(y)) => { moves_none(*self, s, x as int, y as int); }, (Err(x), Ok(y)) => { moves_one(*self, s, y as int, x as int, self.indices.1, self.indices.0); }, (Ok(x), Err(y)) => { moves_one(*self, s, x as int, y as int, self.indices.0, self.indices.1); }, (Ok(x), Ok(y)) => { moves_both(*self, s, x as int, y as int); } }
    }
//% end
    proof {
        match (has_0, has_1) { (Err(x), Err(y)) => { }, (Err(x), Ok(y)) => { assert(items@ =~= placed_at(s, y as int, x as int, self.indices.0)); }, (Ok(x), Err(y)) => { assert(items@ =~= placed_at(s, x as int, y as int, self.indices.1)); }, (Ok(x), Ok(y)) => { assert(items@ =~= exchanged(s, x as int, y as int)); } }
    }
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/swap.rs Swap as Permutation::backward_sorted
//% spec
    requires self.wf(), bounded(old(items)@, self.len as int), ssorted(old(items)@)
    ensures final(items)@.to_multiset() == mapped(old(items)@, self.fwd()).to_multiset(), ssorted(final(items)@), final(items)@.len() == old(items)@.len(), bounded(final(items)@, self.len as int)
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/mod.rs trait Permutation::forward_ref
//% in Swap
//% spec
    requires self.wf(), *old(i) < self.len
    ensures *final(i) == (self.fwd())(*old(i) as int), *final(i) < self.len
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/mod.rs trait Permutation::forward_unsorted
//% in Swap
//% mut_ref
//% path Permutation::forward_ref=Self::forward_ref
//% spec
    requires self.wf(), bounded(old(items)@, self.len as int)
    ensures final(items)@ == mapped(old(items)@, self.fwd()), bounded(final(items)@, self.len as int)
//% loop 0
    invariant ix0 <= en0, en0 == items@.len(), items@.len() == old(items)@.len(), self.wf(), bounded(old(items)@, self.len as int),
       forall|k: int| 0 <= k < ix0 ==> #[trigger] items@[k] == mapped(old(items)@, self.fwd())[k],
       forall|k: int| 0 <= k < ix0 ==> (#[trigger] items@[k]).0 < self.len,
       forall|k: int| ix0 <= k < items@.len() ==> #[trigger] items@[k] == old(items)@[k],
    decreases en0 - ix0
//% end
    assert(items@ =~= mapped(old(items)@, self.fwd()));
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/mod.rs trait Permutation::backward_ref
//% in Swap
//% spec
    requires self.wf(), *old(i) < self.len
    ensures *final(i) == (self.fwd())(*old(i) as int), *final(i) < self.len
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/mod.rs trait Permutation::backward_unsorted
//% in Swap
//% mut_ref
//% path Permutation::backward_ref=Self::backward_ref
//% spec
    requires self.wf(), bounded(old(items)@, self.len as int)
    ensures final(items)@ == mapped(old(items)@, self.fwd()), bounded(final(items)@, self.len as int)
//% loop 0
    invariant ix0 <= en0, en0 == items@.len(), items@.len() == old(items)@.len(), self.wf(), bounded(old(items)@, self.len as int),
       forall|k: int| 0 <= k < ix0 ==> #[trigger] items@[k] == mapped(old(items)@, self.fwd())[k],
       forall|k: int| 0 <= k < ix0 ==> (#[trigger] items@[k]).0 < self.len,
       forall|k: int| ix0 <= k < items@.len() ==> #[trigger] items@[k] == old(items)@[k],
    decreases en0 - ix0
//% end
    assert(items@ =~= mapped(old(items)@, self.fwd()));
//%%end

// ---------- none at all ----------
//%%item src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/identity.rs Identity
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/identity.rs Identity::new
//% spec
    ensures r.0 == n
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/identity.rs Identity as Permutation::len
//% spec
    ensures r == self.0
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/identity.rs Identity as Permutation::forward
//% spec
    requires i < self.0
    ensures r == i
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/identity.rs Identity as Permutation::backward
//% spec
    requires i < self.0
    ensures r == i
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/identity.rs Identity as Permutation::forward_sorted
//% spec
    requires bounded(old(items)@, self.0 as int), ssorted(old(items)@)
    ensures final(items)@ == old(items)@
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/identity.rs Identity as Permutation::backward_sorted
//% spec
    requires bounded(old(items)@, self.0 as int), ssorted(old(items)@)
    ensures final(items)@ == old(items)@
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/identity.rs Identity as Permutation::forward_unsorted
//% spec
    requires bounded(old(items)@, self.0 as int)
    ensures final(items)@ == old(items)@
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/identity.rs Identity as Permutation::backward_unsorted
//% spec
    requires bounded(old(items)@, self.0 as int)
    ensures final(items)@ == old(items)@
//%%end

// ---------- a full permutation from its forward map ----------
pub open spec fn bijective(f: Seq<usize>) -> bool { exists|b: Seq<usize>| #[trigger] inverse_of(f, b) }
pub open spec fn with_places(p: Seq<(usize, usize)>, f: Seq<usize>) -> bool { p.len() == f.len() && forall|i: int| #![trigger p[i]] 0 <= i < p.len() ==> p[i] == (f[i], i as usize) }
pub open spec fn in_order(p: Seq<(usize, usize)>, b: Seq<usize>) -> bool { p.len() == b.len() && forall|i: int| #![trigger p[i]] 0 <= i < p.len() ==> p[i] == (i as usize, b[i]) }
pub proof fn increasing_all(s: Seq<(usize, usize)>, k: int) requires ssorted(s), bounded(s, s.len() as int), 0 <= k < s.len() ensures s[k].0 >= k, s[k].0 <= k { climb(s, k); descend(s, k); }
pub proof fn climb(s: Seq<(usize, usize)>, k: int) requires ssorted(s), 0 <= k < s.len() ensures s[k].0 >= k decreases k { if k > 0 { climb(s, k - 1); assert(s[k - 1].0 < s[k].0); } }
pub proof fn descend(s: Seq<(usize, usize)>, k: int) requires ssorted(s), bounded(s, s.len() as int), 0 <= k < s.len() ensures s[k].0 <= k decreases s.len() - k { if k + 1 < s.len() { descend(s, k + 1); assert(s[k].0 < s[k + 1].0); } else { let z = s[k]; assert(z.0 < s.len()); } }
pub proof fn inverted(p: Seq<(usize, usize)>, t: Seq<(usize, usize)>, f: Seq<usize>, b: Seq<usize>) requires with_places(p, f), f.len() <= usize::MAX, inverse_of(f, b), t.to_multiset() == p.to_multiset(), wsorted(t), t.len() == p.len() ensures in_order(t, b) {
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert forall|a: int, c: int| 0 <= a < p.len() && 0 <= c < p.len() && a != c implies (#[trigger] p[a]).0 != (#[trigger] p[c]).0 by { assert(b[f[a] as int] == a && b[f[c] as int] == c); }
    assert(p.no_duplicates()); p.lemma_multiset_has_no_duplicates(); t.lemma_multiset_has_no_duplicates_conv();
    assert forall|i: int| #![trigger t[i]] 0 <= i < t.len() implies exists|a: int| 0 <= a < p.len() && #[trigger] p[a] == t[i] by { assert(t.contains(t[i])); assert(p.to_multiset().contains(t[i])); assert(p.contains(t[i])); }
    assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).0 < (#[trigger] t[j]).0 by {
        if t[i].0 == t[j].0 { let a = choose|a: int| 0 <= a < p.len() && #[trigger] p[a] == t[i]; let c = choose|c: int| 0 <= c < p.len() && #[trigger] p[c] == t[j]; assert(a == c); assert(t[i] == t[j]); }
    }
    assert(bounded(t, t.len() as int)) by { assert forall|k: int| #![trigger t[k]] 0 <= k < t.len() implies t[k].0 < t.len() by { let a = choose|a: int| 0 <= a < p.len() && #[trigger] p[a] == t[k]; assert(f[a] < f.len()); } }
    assert forall|k: int| #![trigger t[k]] 0 <= k < t.len() implies t[k] == (k as usize, b[k]) by { increasing_all(t, k); let a = choose|a: int| 0 <= a < p.len() && #[trigger] p[a] == t[k]; assert(f[a] == k); assert(b[f[a] as int] == a); }
}
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/full.rs Full::new
//% spec
    requires bijective(forward@)
    ensures r.forward@ == forward@, r.wf()
//% closure 0 |c0: (usize, &usize)| -> (r: (usize, usize))
    ensures r == (*c0.1, c0.0)
//% closure 1 |c0: (usize, usize)| -> (r: usize)
    ensures r == c0.1
//% start
    let ghost f = forward@;
    let ghost b = choose|b: Seq<usize>| #[trigger] inverse_of(f, b);
    proof { let z = forward.len(); assert(z == f.len()); }
//% before "backward.sort"
    let ghost p = backward@;
    assert(with_places(p, f));
//% after "backward.sort"
    proof { inverted(p, backward@, f, b); }
//% end
    assert(backward@ =~= b);
//%%end
} // verus!
fn main() {}
