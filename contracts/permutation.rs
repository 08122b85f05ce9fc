// Unit: permutations used by the LU factorisation.
use vstd::prelude::*;
verus! {
//%%include prelude.rs
//%%include perm_spec.rs

//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/full.rs Full::identity
//% spec
    ensures r.wf(), r.forward@.len() == n, forall|i: int| 0 <= i < n ==> r.forward@[i] == i
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/full.rs Full::invert
//% path mem::swap=v_swap
//% spec
    ensures final(self).forward == old(self).backward, final(self).backward == old(self).forward, old(self).wf() ==> final(self).wf()
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/full.rs Full::swap
//% spec
    requires old(self).wf(), i < old(self).forward@.len(), j < old(self).forward@.len()
    ensures final(self).wf(), final(self).forward@ == old(self).forward@.update(i as int, old(self).forward@[j as int]).update(j as int, old(self).forward@[i as int])
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/full.rs Full::swap_inverse
//% spec
    requires old(self).wf(), i < old(self).forward@.len(), j < old(self).forward@.len()
    ensures final(self).wf(), final(self).backward@ == old(self).backward@.update(i as int, old(self).backward@[j as int]).update(j as int, old(self).backward@[i as int])
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/full.rs Full::forward
//% spec
    requires self.wf(), i < self.forward@.len()
    ensures r == self.forward@[i as int], r < self.forward@.len(), self.backward@[r as int] == i
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/full.rs Full::backward
//% spec
    requires self.wf(), i < self.forward@.len()
    ensures r == self.backward@[i as int], r < self.forward@.len(), self.forward@[r as int] == i
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/full.rs Full::len
//% spec
    ensures r == self.forward@.len()
//%%end

// ---------- the generic trait methods, for each implementor ----------
pub open spec fn bounded<T>(s: Seq<(usize, T)>, n: int) -> bool { forall|k: int| #![trigger s[k]] 0 <= k < s.len() ==> s[k].0 < n }
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/mod.rs trait Permutation::forward_ref
//% in Full
//% spec
    requires self.wf(), *old(i) < self.forward@.len()
    ensures *final(i) == self.fwd()(*old(i) as int), *final(i) < self.forward@.len()
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/mod.rs trait Permutation::forward_unsorted
//% in Full
//% mut_ref
//% path Permutation::forward_ref=Self::forward_ref
//% spec
    requires self.wf(), bounded(old(items)@, self.forward@.len() as int)
    ensures final(items)@ == mapped(old(items)@, self.fwd()), bounded(final(items)@, self.forward@.len() as int)
//% loop 0
    invariant ix0 <= en0, en0 == items@.len(), items@.len() == old(items)@.len(), self.wf(), bounded(old(items)@, self.forward@.len() as int),
       forall|k: int| 0 <= k < ix0 ==> #[trigger] items@[k] == mapped(old(items)@, self.fwd())[k],
       forall|k: int| 0 <= k < ix0 ==> (#[trigger] items@[k]).0 < self.forward@.len(),
       forall|k: int| ix0 <= k < items@.len() ==> #[trigger] items@[k] == old(items)@[k],
    decreases en0 - ix0
//% end
    assert(items@ =~= mapped(old(items)@, self.fwd()));
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/mod.rs trait Permutation::forward_sorted
//% in Full
//% spec
    requires self.wf(), bounded(old(items)@, self.forward@.len() as int), ssorted(old(items)@)
    ensures final(items)@.to_multiset() == mapped(old(items)@, self.fwd()).to_multiset(), wsorted(final(items)@), final(items)@.len() == old(items)@.len()
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/mod.rs trait Permutation::backward_ref
//% in Full
//% spec
    requires self.wf(), *old(i) < self.forward@.len()
    ensures *final(i) == self.bwd()(*old(i) as int), *final(i) < self.forward@.len()
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/mod.rs trait Permutation::backward_unsorted
//% in Full
//% mut_ref
//% path Permutation::backward_ref=Self::backward_ref
//% spec
    requires self.wf(), bounded(old(items)@, self.forward@.len() as int)
    ensures final(items)@ == mapped(old(items)@, self.bwd()), bounded(final(items)@, self.forward@.len() as int)
//% loop 0
    invariant ix0 <= en0, en0 == items@.len(), items@.len() == old(items)@.len(), self.wf(), bounded(old(items)@, self.forward@.len() as int),
       forall|k: int| 0 <= k < ix0 ==> #[trigger] items@[k] == mapped(old(items)@, self.bwd())[k],
       forall|k: int| 0 <= k < ix0 ==> (#[trigger] items@[k]).0 < self.forward@.len(),
       forall|k: int| ix0 <= k < items@.len() ==> #[trigger] items@[k] == old(items)@[k],
    decreases en0 - ix0
//% end
    assert(items@ =~= mapped(old(items)@, self.bwd()));
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/mod.rs trait Permutation::backward_sorted
//% in Full
//% spec
    requires self.wf(), bounded(old(items)@, self.forward@.len() as int), ssorted(old(items)@)
    ensures final(items)@.to_multiset() == mapped(old(items)@, self.bwd()).to_multiset(), wsorted(final(items)@), final(items)@.len() == old(items)@.len()
//%%end

// ---------- RotateToBack ----------
pub proof fn rotate_bijective(p: RotateToBack, i: int) requires p.wf(), 0 <= i < p.len
    ensures 0 <= p.fwd()(i) < p.len, 0 <= p.bwd()(i) < p.len, p.bwd()(p.fwd()(i)) == i, p.fwd()(p.bwd()(i)) == i {}
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/rotate_to_back.rs RotateToBack::new
//% spec
    requires index < len
    ensures r.wf(), r.index == index, r.len == len
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/rotate_to_back.rs RotateToBack::len
//% spec
    ensures r == self.len
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/rotate_to_back.rs RotateToBack::forward
//% path Ordering::Less=core::cmp::Ordering::Less
//% spec
    requires self.wf(), i < self.len
    ensures r == self.fwd()(i as int), r < self.len, self.bwd()(r as int) == i
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/rotate_to_back.rs RotateToBack::backward
//% spec
    requires self.wf(), i < self.len
    ensures r == self.bwd()(i as int), r < self.len, self.fwd()(r as int) == i
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/mod.rs trait Permutation::forward_ref
//% in RotateToBack
//% spec
    requires self.wf(), *old(i) < self.len
    ensures *final(i) == (self.fwd())(*old(i) as int), *final(i) < self.len
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/mod.rs trait Permutation::forward_unsorted
//% in RotateToBack
//% mut_ref
//% path Permutation::forward_ref=Self::forward_ref
//% spec
    requires self.wf(), bounded(old(items)@, self.len as int)
    ensures final(items)@ == mapped(old(items)@, self.fwd()), bounded(final(items)@, self.len as int)
//% loop 0
    invariant ix0 <= en0, en0 == items@.len(), items@.len() == old(items)@.len(), self.wf(), bounded(old(items)@, self.len as int),
       forall|k: int| 0 <= k < ix0 ==> #[trigger] items@[k] == mapped(old(items)@, self.fwd())[k],
       forall|k: int| 0 <= k < ix0 ==> (#[trigger] items@[k]).0 < self.len,
       forall|k: int| ix0 <= k < items@.len() ==> #[trigger] items@[k] == old(items)@[k],
    decreases en0 - ix0
//% end
    assert(items@ =~= mapped(old(items)@, self.fwd()));
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/mod.rs trait Permutation::backward_ref
//% in RotateToBack
//% spec
    requires self.wf(), *old(i) < self.len
    ensures *final(i) == (self.bwd())(*old(i) as int), *final(i) < self.len
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/mod.rs trait Permutation::backward_unsorted
//% in RotateToBack
//% mut_ref
//% path Permutation::backward_ref=Self::backward_ref
//% spec
    requires self.wf(), bounded(old(items)@, self.len as int)
    ensures final(items)@ == mapped(old(items)@, self.bwd()), bounded(final(items)@, self.len as int)
//% loop 0
    invariant ix0 <= en0, en0 == items@.len(), items@.len() == old(items)@.len(), self.wf(), bounded(old(items)@, self.len as int),
       forall|k: int| 0 <= k < ix0 ==> #[trigger] items@[k] == mapped(old(items)@, self.bwd())[k],
       forall|k: int| 0 <= k < ix0 ==> (#[trigger] items@[k]).0 < self.len,
       forall|k: int| ix0 <= k < items@.len() ==> #[trigger] items@[k] == old(items)@[k],
    decreases en0 - ix0
//% end
    assert(items@ =~= mapped(old(items)@, self.bwd()));
//%%end

pub proof fn lemma_rot_multiset<T>(s: Seq<T>, n: int) requires 0 <= n <= s.len() ensures rotl(s, n).to_multiset() == s.to_multiset() {
    vstd::seq_lib::lemma_multiset_commutative(s.subrange(n, s.len() as int), s.subrange(0, n));
    vstd::seq_lib::lemma_multiset_commutative(s.subrange(0, n), s.subrange(n, s.len() as int));
    assert(s.subrange(0, n) + s.subrange(n, s.len() as int) =~= s);
    assert(s.subrange(n, s.len() as int).to_multiset().add(s.subrange(0, n).to_multiset()) =~= s.subrange(0, n).to_multiset().add(s.subrange(n, s.len() as int).to_multiset()));
}
pub proof fn lemma_rot_tail<T>(s: Seq<T>, a: int, n: int) requires 0 <= a <= s.len(), 0 <= n <= s.len() - a
    ensures (s.subrange(0, a) + rotl(s.subrange(a, s.len() as int), n) + s.subrange(s.len() as int, s.len() as int)).to_multiset() == s.to_multiset() {
    let t = s.subrange(a, s.len() as int);
    lemma_rot_multiset(t, n);
    vstd::seq_lib::lemma_multiset_commutative(s.subrange(0, a), rotl(t, n));
    vstd::seq_lib::lemma_multiset_commutative(s.subrange(0, a), t);
    assert(s.subrange(0, a) + t =~= s);
    assert(s.subrange(0, a) + rotl(t, n) + s.subrange(s.len() as int, s.len() as int) =~= s.subrange(0, a) + rotl(t, n));
}
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/rotate_to_back.rs RotateToBack::forward_sorted
//% spec
    requires self.wf(), bounded(old(items)@, self.len as int), ssorted(old(items)@)
    ensures final(items)@.to_multiset() == mapped(old(items)@, self.fwd()).to_multiset(), ssorted(final(items)@), final(items)@.len() == old(items)@.len(), bounded(final(items)@, self.len as int)
//% loop 0
    invariant data_index + 1 <= ix0 <= en0, en0 == items@.len(), items@.len() == old(items)@.len(), self.wf(), bounded(old(items)@, self.len as int), ssorted(old(items)@),
       old(items)@[data_index as int].0 == self.index, 0 <= data_index < items@.len(),
       forall|k: int| 0 <= k < ix0 ==> #[trigger] items@[k] == mapped(old(items)@, self.fwd())[k],
       forall|k: int| ix0 <= k < items@.len() ==> #[trigger] items@[k] == old(items)@[k],
    decreases en0 - ix0
//% loop_start 0
    assert(old(items)@[data_index as int].0 < old(items)@[ix0 - 1].0);
//% after_loop 0
    assert(items@ =~= mapped(old(items)@, self.fwd()));
    proof { lemma_rot_tail(items@, data_index as int, 1); }
    let ghost mid = items@;
//% after "rotate_left"
    proof {
      let n = items@.len() as int;
      assert forall|k: int| data_index <= k < n - 1 implies #[trigger] items@[k] == mid[k + 1] by {}
      assert(items@[n - 1] == mid[data_index as int]);
      assert forall|k: int| 0 <= k < data_index implies #[trigger] items@[k] == mid[k] && old(items)@[k].0 < self.index by { assert(old(items)@[k].0 < old(items)@[data_index as int].0); }
      assert forall|k: int| data_index < k < n implies mid[k].0 == #[trigger] old(items)@[k].0 - 1 && old(items)@[k].0 > self.index by { assert(old(items)@[data_index as int].0 < old(items)@[k].0); }
      assert(ssorted(items@));
    }
//% loop 1
    invariant data_index <= ix1 <= en1, en1 == items@.len(), items@.len() == old(items)@.len(), self.wf(), bounded(old(items)@, self.len as int), ssorted(old(items)@),
       forall|k: int| 0 <= k < data_index ==> (#[trigger] old(items)@[k]).0 < self.index, forall|k: int| data_index <= k < old(items)@.len() ==> (#[trigger] old(items)@[k]).0 > self.index,
       forall|k: int| 0 <= k < ix1 ==> #[trigger] items@[k] == mapped(old(items)@, self.fwd())[k],
       forall|k: int| ix1 <= k < items@.len() ==> #[trigger] items@[k] == old(items)@[k],
    decreases en1 - ix1
//% after_loop 1
    assert(items@ =~= mapped(old(items)@, self.fwd()));
    proof { assert forall|i: int, j: int| 0 <= i < j < items@.len() implies (#[trigger] items@[i]).0 < (#[trigger] items@[j]).0 by { assert(old(items)@[i].0 < old(items)@[j].0); } }
//%%end

pub open spec fn rot_mid<T>(p: RotateToBack, s0: Seq<(usize, T)>, d: int) -> Seq<(usize, T)> {
    let pre = s0.update(s0.len() - 1, (p.index, s0[s0.len() - 1].1)); let n = s0.len() as int;
    pre.subrange(0, d) + rotl(pre.subrange(d, n), n - d - 1) + pre.subrange(n, n)
}
pub open spec fn bwd_pre<T>(p: RotateToBack, s0: Seq<(usize, T)>, s2: Seq<(usize, T)>, d: int, rot: bool) -> bool {
    p.wf() && 0 <= d < s0.len() && ssorted(s0) && bounded(s0, p.len as int)
    && (forall|k: int| 0 <= k < d ==> (#[trigger] s0[k]).0 < p.index) && (forall|k: int| d <= k < s0.len() ==> (#[trigger] s0[k]).0 >= p.index)
    && rot == (s0[s0.len() - 1].0 == p.len - 1) && s2 == (if rot { rot_mid(p, s0, d) } else { s0 })
}
pub proof fn lemma_bwd_mid<T>(p: RotateToBack, s0: Seq<(usize, T)>, s2: Seq<(usize, T)>, d: int, rot: bool) requires bwd_pre(p, s0, s2, d, rot)
    ensures s2.len() == s0.len(), forall|k: int| (if rot { d + 1 } else { d }) <= k < s2.len() ==> (#[trigger] s2[k]).0 < p.len - 1
{
    let n = s0.len() as int;
    assert(s2.len() == n);
    assert forall|k: int| (if rot { d + 1 } else { d }) <= k < s2.len() implies (#[trigger] s2[k]).0 < p.len - 1 by {
        if rot { assert(s2[k] == s0[k - 1]); assert(s0[k - 1].0 < s0[n - 1].0); } else { if k < n - 1 { assert(s0[k].0 < s0[n - 1].0); } else { assert(s0[k].0 < p.len); } }
    }
}
pub proof fn lemma_bwd_at<T>(p: RotateToBack, s0: Seq<(usize, T)>, s2: Seq<(usize, T)>, f: Seq<(usize, T)>, d: int, rot: bool, k: int)
    requires bwd_pre(p, s0, s2, d, rot), f.len() == s0.len(), s2.len() == s0.len(), 0 <= k < s0.len(),
       k >= (if rot { d + 1 } else { d }) ==> f[k] == ((s2[k].0 + 1) as usize, s2[k].1),
       k < (if rot { d + 1 } else { d }) ==> f[k] == s2[k],
    ensures k < d ==> f[k] == s0[k] && f[k].0 < p.index && f[k].0 == p.bwd()(s0[k].0 as int),
       rot && k == d ==> f[k] == (p.index, s0[s0.len() - 1].1) && f[k].0 == p.bwd()(s0[s0.len() - 1].0 as int),
       rot && k > d ==> f[k].1 == s0[k - 1].1 && f[k].0 == s0[k - 1].0 + 1 && f[k].0 > p.index && f[k].0 == p.bwd()(s0[k - 1].0 as int),
       !rot && k >= d ==> f[k].1 == s0[k].1 && f[k].0 == s0[k].0 + 1 && f[k].0 > p.index && f[k].0 == p.bwd()(s0[k].0 as int),
       f[k].0 < p.len,
{
    let n = s0.len() as int;
    lemma_bwd_mid(p, s0, s2, d, rot);
    assert(s0[n - 1].0 < p.len);
    if k < n - 1 { assert(s0[k].0 < s0[n - 1].0); }
    if rot && k > d { assert(s2[k] == s0[k - 1]); assert(s0[k - 1].0 < s0[n - 1].0); assert(s0[k - 1].0 >= p.index); }
    if k < d { assert(s0[k].0 < p.index); } else { assert(s0[k].0 >= p.index); }
}
pub proof fn lemma_bwd_fin<T>(p: RotateToBack, s0: Seq<(usize, T)>, s2: Seq<(usize, T)>, f: Seq<(usize, T)>, d: int, rot: bool)
    requires bwd_pre(p, s0, s2, d, rot), f.len() == s0.len(), s2.len() == s0.len(),
       forall|k: int| (if rot { d + 1 } else { d }) <= k < f.len() ==> #[trigger] f[k] == ((s2[k].0 + 1) as usize, s2[k].1),
       forall|k: int| 0 <= k < (if rot { d + 1 } else { d }) ==> #[trigger] f[k] == s2[k],
    ensures f.to_multiset() == mapped(s0, p.bwd()).to_multiset(), ssorted(f), bounded(f, p.len as int)
{
    let n = s0.len() as int;
    let m = mapped(s0, p.bwd());
    let g = if rot { m.subrange(0, d) + rotl(m.subrange(d, n), n - d - 1) + m.subrange(n, n) } else { m };
    assert(f.len() == g.len());
    assert forall|k: int| 0 <= k < n implies #[trigger] f[k] == g[k] by {
        lemma_bwd_at(p, s0, s2, f, d, rot, k);
        if rot { if k < d { assert(g[k] == m[k]); } else if k == d { assert(g[d] == m[n - 1]); } else { assert(g[k] == m[k - 1]); } }
    }
    assert(f =~= g);
    if rot { lemma_rot_tail(m, d, n - d - 1); }
    assert forall|i: int, j: int| 0 <= i < j < n implies (#[trigger] f[i]).0 < (#[trigger] f[j]).0 by {
        lemma_bwd_at(p, s0, s2, f, d, rot, i);
        lemma_bwd_at(p, s0, s2, f, d, rot, j);
        if rot { if i > d { assert(s0[i - 1].0 < s0[j - 1].0); } else if j < d { assert(s0[i].0 < s0[j].0); } } else { assert(s0[i].0 < s0[j].0); }
    }
    assert forall|k: int| 0 <= k < n implies (#[trigger] f[k]).0 < p.len by { lemma_bwd_at(p, s0, s2, f, d, rot, k); }
}
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/rotate_to_back.rs RotateToBack::backward_sorted
//% spec
    requires self.wf(), bounded(old(items)@, self.len as int), ssorted(old(items)@)
    ensures final(items)@.to_multiset() == mapped(old(items)@, self.bwd()).to_multiset(), ssorted(final(items)@), final(items)@.len() == old(items)@.len(), bounded(final(items)@, self.len as int)
//% before "let data_index ="
    let ghost s0 = items@;
    assert(mapped(s0, self.bwd()).len() == s0.len());
//% after "let data_index ="
    proof {
      assert forall|k: int| 0 <= k < data_index implies (#[trigger] s0[k]).0 < self.index by { if data_index < s0.len() { assert(s0[k].0 < s0[data_index as int].0); } }
      assert forall|k: int| data_index <= k < s0.len() implies (#[trigger] s0[k]).0 >= self.index by { if k > data_index { assert(s0[data_index as int].0 < s0[k].0); } }
    }
//% before "return;"#1
    proof { assert(items@ =~= mapped(s0, self.bwd())); }
//% before "return;"#0
    proof { assert(items@ =~= mapped(items@, self.bwd())); }
//% after "rotate_right(1)"
    proof { assert(items@ == rot_mid(*self, s0, data_index as int)); }
//% before_loop 0
    let ghost s2 = items@;
    let ghost rot: bool = increment_start_index > data_index;
    proof {
      lemma_bwd_mid(*self, s0, s2, data_index as int, rot);
    }
//% loop 0
    invariant increment_start_index <= ix0 <= en0, en0 == items@.len(), items@.len() == s2.len(), self.wf(),
       forall|k: int| increment_start_index <= k < s2.len() ==> (#[trigger] s2[k]).0 < self.len - 1,
       forall|k: int| increment_start_index <= k < ix0 ==> #[trigger] items@[k] == ((s2[k].0 + 1) as usize, s2[k].1),
       forall|k: int| 0 <= k < increment_start_index ==> #[trigger] items@[k] == s2[k],
       forall|k: int| ix0 <= k < items@.len() ==> #[trigger] items@[k] == s2[k],
    decreases en0 - ix0
//% after_loop 0
    proof { lemma_bwd_fin(*self, s0, s2, items@, data_index as int, rot); }
//%%end
} // verus!
fn main() {}
