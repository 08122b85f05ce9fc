// Unit: the factorisation of a basis.
use vstd::prelude::*;
verus! {
//%%include prelude.rs
//%%include sparse_spec.rs
//%%include simplex_spec.rs
//%%types T=F; F=F; C=F; FullPermutation=Full; SwapPermutation=Swap
//%%include perm_spec.rs
//%%include lu_rows_spec.rs
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/decomposition/mod.rs subtract_multiple_of_row_from_other_row
//% path mem::replace=v_replace
//% spec
    requires ssorted(old(to_edit)@), nonzero(old(to_edit)@), ssorted(being_removed@), nonzero(being_removed@), ratio@ != 0real
    ensures merged(final(to_edit)@, r.1@, r.2@, old(to_edit)@, being_removed@, ratio@), final(to_edit)@.len() == old(to_edit)@.len() - r.0.0 + r.0.1, r.0.0 <= old(to_edit)@.len()
//% start
    let ghost s0 = to_edit@; let ghost rm = being_removed@; let ghost c = ratio@;
    proof { going_start(s0, rm, c); let z = being_removed.len(); assert(z == rm.len()); }
//% before_loop 0
    assert(to_edit@ =~= Seq::empty()); assert(column_nnz_added@ =~= Seq::empty());
//% loop 0
    invariant it0@ == refs(rm), ix0 <= rm.len(), rm.len() == row_nnz_added, s0.len() == 0, going(to_edit@, Seq::empty(), column_nnz_added@, s0, 0, rm, ix0 as int, c), to_edit@.len() == ix0, ratio@ == c
    decreases rm.len() - ix0
//% loop_start 0
    let ghost (n0, a0) = (to_edit@, column_nnz_added@);
    assert(refs(rm)[ix0 - 1] == &rm[ix0 - 1]);
//% loop_end 0
    proof { going_removed(n0, Seq::empty(), a0, s0, 0, rm, ix0 - 1, c, to_edit@[ix0 - 1]); assert(to_edit@ =~= n0.push(to_edit@[ix0 - 1])); assert(column_nnz_added@ =~= a0.push(to_edit@[ix0 - 1].0)); }
//% after_loop 0
    proof { going_done(to_edit@, Seq::empty(), column_nnz_added@, s0, rm, c); }
//% before_loop 1
    assert(new@ =~= Seq::empty()); assert(column_nnz_added@ =~= Seq::empty()); assert(column_nnz_removed@ =~= Seq::empty());
//% loop 1
    invariant it1@ == s0, ix1 <= s0.len(), ratio@ == c, being_removed@ == rm, index <= rm.len(), going(new@, column_nnz_removed@, column_nnz_added@, s0, ix1 as int, rm, index as int, c)
    decreases s0.len() - ix1
//% loop 2
    invariant 0 < ix1 <= s0.len(), j == s0[ix1 - 1].0, ratio@ == c, being_removed@ == rm, index <= rm.len(), going(new@, column_nnz_removed@, column_nnz_added@, s0, ix1 - 1, rm, index as int, c)
    decreases rm.len() - index
//% loop_start 2
    let ghost (n0, a0) = (new@, column_nnz_added@);
//% loop_end 2
    proof { let x = new@[n0.len() as int]; going_removed(n0, column_nnz_removed@, a0, s0, ix1 - 1, rm, index - 1, c, x); assert(new@ =~= n0.push(x)); assert(column_nnz_added@ =~= a0.push(x.0)); }
//% before "if index < being_removed.len() && being_removed[index].0 == j"
    let ghost (n1, g1, i1) = (new@, column_nnz_removed@, index as int);
    proof { if i1 < rm.len() && rm[i1].0 == j { } else { going_kept(n1, g1, column_nnz_added@, s0, ix1 - 1, rm, i1, c); } }
//% loop_end 1
    proof {
        if i1 < rm.len() && rm[i1].0 == j { let w = s0[ix1 - 1].1@ - c * rm[i1].1@;
            if w != 0real { let x = new@[n1.len() as int]; assert(new@ =~= n1.push(x)); going_both(n1, g1, column_nnz_added@, s0, ix1 - 1, rm, i1, c, x); }
            else { going_both(n1, g1, column_nnz_added@, s0, ix1 - 1, rm, i1, c, s0[ix1 - 1]); assert(column_nnz_removed@ =~= g1.push(j)); }
        } else { assert(new@ =~= n1.push(s0[ix1 - 1])); }
    }
//% loop 3
    invariant ratio@ == c, being_removed@ == rm, index <= rm.len(), going(new@, column_nnz_removed@, column_nnz_added@, s0, s0.len() as int, rm, index as int, c)
    decreases rm.len() - index
//% loop_start 3
    let ghost (n0, a0) = (new@, column_nnz_added@);
//% loop_end 3
    proof { let x = new@[n0.len() as int]; going_removed(n0, column_nnz_removed@, a0, s0, s0.len() as int, rm, index - 1, c, x); assert(new@ =~= n0.push(x)); assert(column_nnz_added@ =~= a0.push(x.0)); }
//% after_loop 3
    proof { going_done(new@, column_nnz_removed@, column_nnz_added@, s0, rm, c); }
//%%end
} // verus!
fn main() {}
