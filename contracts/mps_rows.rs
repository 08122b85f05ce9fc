// Unit: rows, right-hand sides and ranges of a problem file.
use vstd::prelude::*;
verus! {
//%%include prelude.rs
//%%include text_spec.rs
//%%include sparse_spec.rs
//%%types F=F; FI=F; FO=F; OF=F; OFI=F; OFO=F; String=Str; SparseTuple<F>=(usize, F); SparseTuple<FI>=(usize, F); Rhs<F>=Rhs; Rhs<FI>=Rhs; Rhs<OFI>=Rhs; Range<F>=Range; Range<FI>=Range; RangedConstraintRelation<F>=RangedConstraintRelation; RangedConstraintRelation<FO>=RangedConstraintRelation; RangedConstraintRelation<OFO>=RangedConstraintRelation; DenseVector<FO>=Dense; DenseVector<OFO>=Dense
//%%item src/data/linear_algebra/vector/dense.rs Dense
//%%end
//%%item src/data/linear_program/elements.rs ConstraintRelation
//%%end
//%%item src/data/linear_program/elements.rs RangedConstraintRelation
//%%end
//%%item src/io/mps/mod.rs Row
//%%end
//%%item src/io/mps/mod.rs Rhs
//%%end
//%%item src/io/mps/mod.rs Range
//%%end
//%%path DenseVector::new=v_dense
/// the unit vector proves this constructor (C06)
#[verifier::external_body] pub fn v_dense(d: Vec<F>, n: usize) -> (r: Dense) requires d@.len() == n ensures r.data@ == d@ { unimplemented!() }
//%%include mps_spec.rs
//%%include mps_rows_spec.rs
//%%fn src/io/mps/convert.rs compute_b
//% closure 0 |c0: Rhs| -> (r: VIter<(usize, F)>) ensures r@ == c0.values@
//% closure 1 |c0: Option<F>| -> (r: F) ensures r@ == or_zero(ov(c0))
//% spec
    requires old(constraints)@.len() == rows@.len(), nr_rows == rows@.len(), forall|t: int| #![trigger given(rhss@)[t]] 0 <= t < given(rhss@).len() ==> given(rhss@)[t].0 < rows@.len()
    ensures (r is Ok) == agree(given(rhss@), rows@),
      r is Ok ==> r->Ok_0.data@.len() == rows@.len() && final(constraints)@.len() == rows@.len() && forall|i: int| #![trigger final(constraints)@[i]] 0 <= i < rows@.len() ==> row_ok(rows@[i], old(constraints)@[i], final(constraints)@[i], or_zero(side(given(rhss@), rows@[i].constraint_type, i)), r->Ok_0.data@[i]@)
//% before_loop 0
    let ghost (g, R) = (given(rhss@), rows@);
    proof { assert(rhss@.subrange(0, rhss@.len() as int) =~= rhss@); assert forall|p: Seq<VIter<(usize, F)>>| #![trigger p.len()] p.len() == rhss@.len() && (forall|i: int| #![trigger p[i]] 0 <= i < p.len() ==> p[i]@ == rhss@[i].values@) implies joined(p, p.len() as int) == g by { flat(rhss@, p, p.len() as int); } }
//% loop 0
    invariant ix0 <= it0@.len(), it0@ == g, g == given(rhss@), R == rows@, b@.len() == rows@.len(), agree(g.subrange(0, ix0 as int), R), constraints@ == old(constraints)@,
      forall|t: int| #![trigger g[t]] 0 <= t < g.len() ==> g[t].0 < rows@.len(),
      forall|i: int| #![trigger b@[i]] 0 <= i < b@.len() ==> ov(b@[i]) == side(g.subrange(0, ix0 as int), R[i].constraint_type, i)
    decreases it0@.len() - ix0
//% loop_start 0
    let ghost (s, e, b0) = (g.subrange(0, ix0 - 1), g[ix0 - 1], b@);
    proof { assert(g.subrange(0, ix0 as int) =~= s.push(e)); assert(s.push(e).drop_last() =~= s); assert(b0[e.0 as int] == b0[e.0 as int]); if agree(g, R) { agree_prefix(g, R, ix0 as int); } }
//% loop 1
    invariant constraints@.len() == rows@.len(), b@.len() == rows@.len(), ix1 <= en1, en1 == rows@.len(), g == given(rhss@), old(constraints)@.len() == rows@.len(),
      forall|i: int| #![trigger b@[i]] ix1 <= i < b@.len() ==> b@[i]@ == or_zero(side(g, rows@[i].constraint_type, i)) && constraints@[i] == old(constraints)@[i],
      forall|i: int| #![trigger b@[i]] 0 <= i < ix1 ==> row_ok(rows@[i], old(constraints)@[i], constraints@[i], or_zero(side(g, rows@[i].constraint_type, i)), b@[i]@)
    decreases en1 - ix1
//% before_loop 1
    proof { assert(g.subrange(0, g.len() as int) =~= g); }
//% loop_start 1
    let ghost b0 = b@;
    proof { assert(b0[ix1 - 1] == b0[ix1 - 1]); }
//% loop_end 1
    proof { assert forall|k: int| #![trigger b@[k]] ix1 <= k < b@.len() implies b@[k]@ == or_zero(side(g, rows@[k].constraint_type, k)) && constraints@[k] == old(constraints)@[k] by { assert(b0[k] == b0[k]); assert(b@[k] == b0[k]); }
        assert forall|k: int| #![trigger b@[k]] 0 <= k < ix1 - 1 implies row_ok(rows@[k], old(constraints)@[k], constraints@[k], or_zero(side(g, rows@[k].constraint_type, k)), b@[k]@) by { assert(b@[k] == b0[k]); } }
//% after_loop 1
    proof { assert forall|i: int| #![trigger constraints@[i]] 0 <= i < rows@.len() implies row_ok(rows@[i], old(constraints)@[i], constraints@[i], or_zero(side(g, rows@[i].constraint_type, i)), b@[i]@) by { assert(b@[i] == b@[i]); } }
//%%end
//%%fn src/data/linear_program/elements.rs RangedConstraintRelation as From::from#1
//% types Self=RangedConstraintRelation
//% path Self=RangedConstraintRelation
//% name plain_relation
//% spec
    ensures r == plain(relation)
//%%end
impl Copy for ConstraintRelation {} impl Clone for ConstraintRelation { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl ConstraintRelation { pub fn v_into(self) -> (r: RangedConstraintRelation) ensures r == plain(self) { RangedConstraintRelation::plain_relation(self) } }
//%%fn src/io/mps/convert.rs compute_constraint_types
//% collected RangedConstraintRelation
//% closure 0 |c0: &(usize, F)| -> (r: bool) ensures r == (c0.0 == i)
//% spec
    requires ssorted(ranges@), forall|k: int| #![trigger ranges@[k]] 0 <= k < ranges@.len() ==> ranges@[k].0 < rows@.len()
    ensures r@.len() == rows@.len(), forall|i: int| #![trigger r@[i]] 0 <= i < rows@.len() ==> kind_ok(rows@[i].constraint_type, ranges@, i, r@[i])
//% start
    let ghost all = ranges@;
    let ghost mut n: int = 0;
//% loop 0
    invariant ix0 <= rows@.len(), it0@ == enum_seq(refs(rows@)), collected@.len() == ix0, 0 <= n <= all.len(), ranges@ =~= all.subrange(n, all.len() as int), ssorted(all),
      forall|k: int| #![trigger all[k]] 0 <= k < all.len() ==> all[k].0 < rows@.len(),
      forall|k: int| #![trigger all[k]] 0 <= k < n ==> all[k].0 < ix0, forall|k: int| #![trigger all[k]] n <= k < all.len() ==> ix0 <= all[k].0,
      forall|i: int| #![trigger collected@[i]] 0 <= i < ix0 ==> kind_ok(rows@[i].constraint_type, all, i, collected@[i])
    decreases it0@.len() - ix0
//% loop_start 0
    let ghost (n0, c0) = (n, collected@);
    proof { if n < all.len() { assert(all[n].0 >= ix0 - 1); } }
//% loop_end 0
    proof { n = all.len() - ranges@.len(); let i = ix0 - 1; assert forall|k: int| #![trigger all[k]] n <= k < all.len() implies ix0 <= all[k].0 by { if n0 < k { assert(all[n0].0 < all[k].0); } }
        assert(kind_ok(rows@[i].constraint_type, all, i, collected@[i])) by { assert forall|k: int| #![trigger all[k]] 0 <= k < all.len() && all[k].0 == i implies ranged(collected@[i], all[k].1@) by { if k > n0 { assert(all[n0].0 < all[k].0); } } if n > n0 { assert(all[n0].0 == i); } }
        assert forall|t: int| #![trigger collected@[t]] 0 <= t < ix0 implies kind_ok(rows@[t].constraint_type, all, t, collected@[t]) by { if t < i { assert(collected@[t] == c0[t]); } } }
//%%end
//%%fn src/io/mps/convert.rs compute_ranges
//% closure 0 |c0: Range| -> (r: VIter<(usize, F)>) ensures r@ == c0.values@
//% closure 1 |c0: &(usize, F)| -> (r: bool) ensures r == (c0.0 == duplicate)
//% closure 2 |c0: &Rhs| -> (r: VIter<&(usize, F)>) ensures r@ == refs(c0.values@)
//% closure 3 |c0: &(usize, F)| -> (r: Option<&F>) ensures r is Some ==> c0.0 == duplicate && *(r->0) == c0.1, r is None ==> c0.0 != duplicate
//% closure 4 |c0: &&F| -> (r: bool) ensures r == ((**c0)@ != (*first)@)
//% spec
    requires forall|t: int| #![trigger given(rhss@)[t]] 0 <= t < given(rhss@).len() ==> given(rhss@)[t].0 < nr_rows
    ensures r is Ok ==> ssorted(r->Ok_0@) && same_elements(spans(ranges@), r->Ok_0@), r is Err ==> !once_each(spans(ranges@)) || torn(given(rhss@), spans(ranges@))
//% start
    let ghost (sp, g) = (spans(ranges@), given(rhss@));
    proof { assert(ranges@.subrange(0, ranges@.len() as int) =~= ranges@); assert(rhss@.subrange(0, rhss@.len() as int) =~= rhss@);
        assert forall|p: Seq<VIter<(usize, F)>>| #![trigger p.len()] p.len() == ranges@.len() && (forall|i: int| #![trigger p[i]] 0 <= i < p.len() ==> p[i]@ == ranges@[i].values@) implies joined(p, p.len() as int) == sp by { flat_spans(ranges@, p, p.len() as int); }
        assert forall|p: Seq<VIter<&(usize, F)>>| #![trigger p.len()] p.len() == rhss@.len() && (forall|i: int| #![trigger p[i]] 0 <= i < p.len() ==> p[i]@ == refs(rhss@[i].values@)) implies joined(p, p.len() as int) == refs(g) by { flat_refs(rhss@, p, p.len() as int); }
        if ranges@.len() == 0 { assert(sp =~= Seq::empty()); } }
//% before "range_rows.sort_unstable_by_key"
    proof { assert(range_rows@ == sp); }
//% after "range_rows.sort_unstable_by_key"
    let ghost srt = range_rows@;
    proof { same_bag(sp, srt); }
//% before "Only one range"
    proof { let i = choose|i: int| 0 < i < srt.len() && srt[i - 1].0 == #[trigger] srt[i].0; twice(sp, srt, i); }
//% before "let mut already_seen"
    proof { assert(range_rows@ == srt); assert forall|i: int, j: int| #![trigger srt[i], srt[j]] 0 <= i < j < srt.len() implies srt[i].0 < srt[j].0 by { assert(srt[j - 1].0 != srt[j].0); assert(srt[i].0 <= srt[j - 1].0 || i == j - 1); assert(srt[j - 1].0 <= srt[j].0); } }
//% loop 0
    invariant ix0 <= rhss@.len(), it0@ == refs(rhss@), already_seen@.len() == nr_rows, g == given(rhss@), forall|t: int| #![trigger g[t]] 0 <= t < g.len() ==> g[t].0 < nr_rows
    decreases it0@.len() - ix0
//% loop_start 0
    proof { within(rhss@, nr_rows as int, ix0 - 1); }
//% loop 1
    invariant ix1 <= rhs.values@.len(), it1@ == refs(rhs.values@), already_seen@.len() == nr_rows, forall|t: int| #![trigger rhs.values@[t]] 0 <= t < rhs.values@.len() ==> rhs.values@[t].0 < nr_rows
    decreases it1@.len() - ix1
//% loop 2
    invariant ix2 <= it2@.len(), range_rows@ == srt, ssorted(srt), same_elements(sp, srt), g == given(rhss@), sp == spans(ranges@),
      forall|p: Seq<VIter<&(usize, F)>>| #![trigger p.len()] p.len() == rhss@.len() && (forall|i: int| #![trigger p[i]] 0 <= i < p.len() ==> p[i]@ == refs(rhss@[i].values@)) ==> joined(p, p.len() as int) == refs(g)
    decreases it2@.len() - ix2
//% before "if let Some(first)"
    proof { let c1 = choose|k: int| 0 <= k < srt.len() && srt[k].0 == duplicate; assert(srt.contains(srt[c1])); let c = choose|c: int| 0 <= c < sp.len() && sp[c] == srt[c1];
        assert forall|j: int| #![trigger values@[j]] 0 <= j < values@.len() implies exists|a: int| 0 <= a < g.len() && (#[trigger] g[a]).0 == duplicate && g[a].1 == *values@[j] by { let z = values@[j]; assert(Some(z) is Some); }
        if exists|i: int| 0 < i < values@.len() && #[trigger] values@[i]@ != values@[0]@ { let i = choose|i: int| 0 < i < values@.len() && #[trigger] values@[i]@ != values@[0]@; assert(*values@[i] == *values@[i]); let a = choose|a: int| 0 <= a < g.len() && (#[trigger] g[a]).0 == duplicate && g[a].1 == *values@[0]; let b = choose|b: int| 0 <= b < g.len() && (#[trigger] g[b]).0 == duplicate && g[b].1 == *values@[i]; assert(g[a].0 == g[b].0 && g[a].0 == sp[c].0); assert(torn(g, sp)); } }
//%%end
//%%fn src/io/mps/convert.rs compute_constraint_info
//% types Result<(Vec<RangedConstraintRelation<FO>>,DenseVector<FO>),Inconsistency>=Result<(Vec<RangedConstraintRelation>, Dense), Inconsistency>
//% spec
    requires forall|t: int| #![trigger given(rhss@)[t]] 0 <= t < given(rhss@).len() ==> given(rhss@)[t].0 < rows@.len(), forall|t: int| #![trigger spans(ranges@)[t]] 0 <= t < spans(ranges@).len() ==> spans(ranges@)[t].0 < rows@.len()
    ensures r is Err ==> !once_each(spans(ranges@)) || torn(given(rhss@), spans(ranges@)) || !agree(given(rhss@), rows@),
      r is Ok ==> agree(given(rhss@), rows@) && r->Ok_0.0@.len() == rows@.len() && r->Ok_0.1.data@.len() == rows@.len() && forall|i: int| #![trigger r->Ok_0.0@[i]] 0 <= i < rows@.len() ==> row_of(rows@[i], i, given(rhss@), spans(ranges@), r->Ok_0.0@[i], r->Ok_0.1.data@[i]@)
//% start
    let ghost (sp, g) = (spans(ranges@), given(rhss@));
//% before "let mut constraint_types"
    let ghost rs = ranges@;
    proof { assert forall|k: int| #![trigger rs[k]] 0 <= k < rs.len() implies rs[k].0 < rows@.len() by { assert(rs.contains(rs[k])); let c = choose|c: int| 0 <= c < sp.len() && sp[c] == rs[k]; } }
//% after "let mut constraint_types"
    let ghost ct = constraint_types@;
//% end
    proof { assert forall|i: int| #![trigger constraint_types@[i]] 0 <= i < rows@.len() implies row_of(rows@[i], i, g, sp, constraint_types@[i], b.data@[i]@) by { let t = rows@[i].constraint_type; assert(kind_ok(t, rs, i, ct[i]));
        assert forall|k: int| #![trigger sp[k]] 0 <= k < sp.len() && sp[k].0 == i implies interval(t, or_zero(side(g, t, i)), sp[k].1@, constraint_types@[i], b.data@[i]@) by { assert(sp.contains(sp[k])); let c = choose|c: int| 0 <= c < rs.len() && rs[c] == sp[k]; assert(rs[c].0 == i); }
        if forall|k: int| #![trigger sp[k]] 0 <= k < sp.len() ==> sp[k].0 != i { assert forall|k: int| #![trigger rs[k]] 0 <= k < rs.len() implies rs[k].0 != i by { assert(rs.contains(rs[k])); let c = choose|c: int| 0 <= c < sp.len() && sp[c] == rs[k]; } } } }
//%%end
} fn main() {}
