// Unit: bounds of the variables of a problem file.
use vstd::prelude::*;
verus! {
//%%include prelude.rs
//%%include text_spec.rs
//%%types F=F; FI=F; FO=F; OF=F; ShiftedVariable<FO>=Variable; ShiftedVariable<F>=Variable; ShiftedVariable=Variable; BoundType<FI>=BoundType; BoundType<F>=BoundType; Bound<FI>=Bound; SparseTuple<BoundType<F>>=(usize, BoundType); String=Str; Option<OF>=Option<F>
//%%path ShiftedVariable=Variable
//%%path Inconsistency::new=Inconsistency::new
//%%item src/data/linear_program/elements.rs VariableType
//%%end
//%%item src/data/linear_program/general_form/mod.rs Variable
//%%end
//%%item src/io/mps/mod.rs BoundType
//%%end
//%%item src/io/mps/mod.rs Bound
//%%end
impl VEq for core::cmp::Ordering { open spec fn sp_eq(&self, r: &Self) -> bool { *self == *r } fn v_eq(&self, r: &Self) -> bool { match (self, r) { (core::cmp::Ordering::Less, core::cmp::Ordering::Less) => true, (core::cmp::Ordering::Equal, core::cmp::Ordering::Equal) => true, (core::cmp::Ordering::Greater, core::cmp::Ordering::Greater) => true, _ => false } } fn v_ne(&self, r: &Self) -> bool { !self.v_eq(r) } }
//%%include mps_spec.rs
//%%include mps_bounds_spec.rs
//%%fn src/io/mps/convert.rs replace_existing_with
//% spec
    requires !(ordering is Equal)
    ensures ov(*final(option)) == (if ordering is Greater { at_least(ov(*old(option)), new_value@) } else { at_most(ov(*old(option)), new_value@) })
//%%end
//%%fn src/io/mps/convert.rs process_bound
//% spec
    ensures (r is Err) == conflict(seen(*old(variable)), bound_type),
      r is Ok ==> ({ let t = says(seen(*old(variable)), bound_type); has(*old(variable), *final(variable), t) && t.silent == r->Ok_0.0 && t.free == r->Ok_0.1 })
//%%end
//%%fn src/io/mps/convert.rs fill_in_default_lower_bounds
//% spec
    requires old(variables)@.len() == needs_lower_bound@.len()
    ensures final(variables)@.len() == old(variables)@.len(), forall|j: int| #![trigger final(variables)@[j]] 0 <= j < old(variables)@.len() ==> { let (v, w) = (old(variables)@[j], final(variables)@[j]); w.upper_bound == v.upper_bound && w.variable_type == v.variable_type && same_rest(v, w) && ov(w.lower_bound) == (if needs_lower_bound@[j] { Some(0real) } else { ov(v.lower_bound) }) }
//% loop 0
    invariant variables@.len() == old(variables)@.len(), it0@ == enum_seq(needs_lower_bound@), needs_lower_bound@.len() == variables@.len(),
      forall|k: int| #![trigger variables@[k]] 0 <= k < variables@.len() ==> { let (v, w) = (old(variables)@[k], variables@[k]); w.upper_bound == v.upper_bound && w.variable_type == v.variable_type && same_rest(v, w) && ov(w.lower_bound) == (if k < ix0 && needs_lower_bound@[k] { Some(0real) } else { ov(v.lower_bound) }) }
    decreases it0@.len() - ix0
//%%end
//%%fn src/io/mps/convert.rs process_bounds
//% closure 0 |c0: (usize, &Variable)| -> (r: bool) requires c0.0 < variable_is_free@.len() ensures r == (variable_is_free@[c0.0 as int] && (c0.1.lower_bound is Some || c0.1.upper_bound is Some))
//% spec
    requires forall|j: int| #![trigger old(variable_info)@[j]] 0 <= j < old(variable_info)@.len() ==> is_unbounded(old(variable_info)@[j]),
      forall|t: int| #![trigger lines(bounds@)[t]] 0 <= t < lines(bounds@).len() ==> lines(bounds@)[t].0 < old(variable_info)@.len()
    ensures (r is Ok) == (fits(lines(bounds@)) && forall|j: int| #![trigger said(lines(bounds@), j)] 0 <= j < old(variable_info)@.len() ==> !bounded_free(said(lines(bounds@), j))),
      r is Ok ==> final(variable_info)@.len() == old(variable_info)@.len() && forall|j: int| #![trigger final(variable_info)@[j]] 0 <= j < old(variable_info)@.len() ==> ends_with(old(variable_info)@[j], final(variable_info)@[j], said(lines(bounds@), j))
//% loop 0
    invariant it0@ == bounds@, ix0 <= bounds@.len(), fits(lines(bounds@.subrange(0, ix0 as int))), track(old(variable_info)@, variable_info@, needs_default_lower_bound@, variable_is_free@, lines(bounds@.subrange(0, ix0 as int))),
      forall|t: int| #![trigger lines(bounds@)[t]] 0 <= t < lines(bounds@).len() ==> lines(bounds@)[t].0 < old(variable_info)@.len()
    decreases it0@.len() - ix0
//% loop_start 0
    proof { one_more(bounds@, ix0 as int); }
    let ghost done = lines(bounds@.subrange(0, ix0 - 1));
    proof { let a = lines(bounds@.subrange(0, ix0 as int)); assert(done + bound.values@.subrange(0, 0) =~= done); assert forall|t: int| #![trigger bound.values@[t]] 0 <= t < bound.values@.len() implies bound.values@[t].0 < old(variable_info)@.len() by { assert(a[done.len() + t] == bound.values@[t]); assert(lines(bounds@).subrange(0, a.len() as int)[done.len() + t] == lines(bounds@)[done.len() + t]); } }
//% loop 1
    invariant it1@ == bound.values@, ix1 <= it1@.len(), lines(bounds@.subrange(0, ix0 as int)).len() <= lines(bounds@).len(), bounds@.subrange(0, ix0 as int).len() > 0, fits(done + it1@.subrange(0, ix1 as int)), track(old(variable_info)@, variable_info@, needs_default_lower_bound@, variable_is_free@, done + it1@.subrange(0, ix1 as int)),
      forall|t: int| #![trigger it1@[t]] 0 <= t < it1@.len() ==> it1@[t].0 < old(variable_info)@.len(),
      0 < ix0 <= bounds@.len(), done == lines(bounds@.subrange(0, ix0 - 1)), bound == bounds@[ix0 - 1], done + it1@ =~= lines(bounds@.subrange(0, ix0 as int)), lines(bounds@).subrange(0, lines(bounds@.subrange(0, ix0 as int)).len() as int) =~= lines(bounds@.subrange(0, ix0 as int))
    decreases it1@.len() - ix1
//% loop_start 1
    let ghost (v0, d0, f0) = (variable_info@, needs_default_lower_bound@, variable_is_free@);
    let ghost (s, e) = (done + it1@.subrange(0, ix1 - 1), it1@[ix1 - 1]);
    proof { assert(done + it1@.subrange(0, ix1 as int) =~= s.push(e)); assert(s.push(e).drop_last() =~= s); assert(v0[e.0 as int] == v0[e.0 as int]);
        if fits(lines(bounds@)) { fits_prefix(lines(bounds@), (s.len() + 1) as int); let a = lines(bounds@.subrange(0, ix0 as int)); assert(lines(bounds@).subrange(0, (s.len() + 1) as int) =~= a.subrange(0, (s.len() + 1) as int)); assert(a.subrange(0, (s.len() + 1) as int) =~= s.push(e)); } }
//% loop_end 1
    proof { assert forall|j: int| #![trigger variable_info@[j]] 0 <= j < old(variable_info)@.len() implies has(old(variable_info)@[j], variable_info@[j], said(s.push(e), j)) && needs_default_lower_bound@[j] == said(s.push(e), j).silent && variable_is_free@[j] == said(s.push(e), j).free by { let z = v0[j]; assert(Some(z) is Some); if j != e.0 { assert(variable_info@[j] == v0[j]); } }
        assert(track(old(variable_info)@, variable_info@, needs_default_lower_bound@, variable_is_free@, s.push(e))); assert(done + it1@.subrange(0, ix1 as int) =~= s.push(e)); }
//% loop_end 0
    proof { assert(it1@.subrange(0, it1@.len() as int) =~= it1@); }
//% before "let any_free_has_bound"
    proof { assert(bounds@.subrange(0, bounds@.len() as int) =~= bounds@); assert forall|j: int| #![trigger said(lines(bounds@), j)] 0 <= j < variable_info@.len() implies has(old(variable_info)@[j], variable_info@[j], said(lines(bounds@), j)) && needs_default_lower_bound@[j] == said(lines(bounds@), j).silent && variable_is_free@[j] == said(lines(bounds@), j).free by { assert(variable_info@[j] == variable_info@[j]); } }
//% start
    proof { assert(bounds@.subrange(0, 0) =~= Seq::empty()); }
//% after "let any_free_has_bound"
    proof { let es = enum_seq(refs(variable_info@)); if any_free_has_bound { let i = choose|i: int| 0 <= i < es.len() && variable_is_free@[i] && (es[i].1.lower_bound is Some || es[i].1.upper_bound is Some); assert(bounded_free(said(lines(bounds@), i))); } else { assert forall|j: int| #![trigger said(lines(bounds@), j)] 0 <= j < variable_info@.len() implies !bounded_free(said(lines(bounds@), j)) by { assert(es[j].0 == j); } } }
    let ghost v1 = variable_info@;
//% end
    proof { assert forall|j: int| #![trigger variable_info@[j]] 0 <= j < variable_info@.len() implies ends_with(old(variable_info)@[j], variable_info@[j], said(lines(bounds@), j)) by { silent_low(lines(bounds@), j); assert(v1[j] == v1[j]); } }
//%%end
} fn main() {}
