// Unit: the carry matrix (basis inverse, prices, basic solution) over basis changes.
use vstd::prelude::*;
verus! {
//%%include prelude.rs
//%%include sparse_spec.rs
//%%include index_spec.rs
//%%include simplex_spec.rs
//%%include carry_spec.rs
//%%include drop_spec.rs
//%%include rows_spec.rs
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/mod.rs Carry::m
//% spec
    ensures r == self.b.data@.len()
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/mod.rs Carry::update_b
//% spec
    requires old(self).shape(), column.wf(), column.len == old(self).b.data@.len(), pivot_row_index < column.len, column.at(pivot_row_index as int) != 0real
    ensures *final(self) == (Carry { b: final(self).b, ..*old(self) }), final(self).b.data@.len() == old(self).b.data@.len(),
      forall|i: int| #![trigger final(self).b.data@[i]] 0 <= i < old(self).b.data@.len() ==> final(self).b.data@[i]@ == elim(num(old(self).b.data@), svf(column.data@), pivot_row_index as int, i)
//% loop 0
    invariant ix0 <= it0@.len(), own(it0@) == column.data@, column.wf(), column.len == b_left@.len() + 1 + b_right@.len(), b_left@.len() == pivot_row_index, f0.len() == column.len,
      forall|i: int| #![trigger b_left@[i]] 0 <= i < b_left@.len() ==> b_left@[i]@ == f0[i]@ - sv(column.data@.subrange(0, ix0 as int), i) * b_middle@,
      forall|i: int| #![trigger b_right@[i]] 0 <= i < b_right@.len() ==> b_right@[i]@ == f0[i + pivot_row_index + 1]@ - sv(column.data@.subrange(0, ix0 as int), i + pivot_row_index + 1) * b_middle@
    decreases it0@.len() - ix0
//% start
    let ghost f0 = self.b.data@;
//% loop_start 0
    let ghost (bl, br) = (b_left@, b_right@);
    proof { let d = column.data@; let q = ix0 - 1; assert(d[q] == own(it0@)[q]); assert(d[q].0 < column.len); }
//% loop_end 0
    proof {
        let d = column.data@; let q = ix0 - 1; assert(d[q] == own(it0@)[q]); let p = pivot_row_index as int; let mid = b_middle@; let e = d[q].0 as int; let x = d[q].1@;
        assert forall|i: int| #![trigger b_left@[i]] 0 <= i < b_left@.len() implies b_left@[i]@ == f0[i]@ - sv(d.subrange(0, ix0 as int), i) * mid by { sv_step(d, q, i); let y = sv(d.subrange(0, q), i); assert(bl[i]@ == f0[i]@ - y * mid); assert((y + x) * mid == y * mid + x * mid) by(nonlinear_arith); }
        assert forall|i: int| #![trigger b_right@[i]] 0 <= i < b_right@.len() implies b_right@[i]@ == f0[i + p + 1]@ - sv(d.subrange(0, ix0 as int), i + p + 1) * mid by { sv_step(d, q, i + p + 1); let y = sv(d.subrange(0, q), i + p + 1); assert(br[i]@ == f0[i + p + 1]@ - y * mid); assert((y + x) * mid == y * mid + x * mid) by(nonlinear_arith); }
    }
//% after_loop 0
    proof { let d = column.data@; assert(d.subrange(0, d.len() as int) =~= d); }
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/mod.rs Carry::update_minus_pi_and_obj
//% spec
    requires old(self).shape(), basis_inverse_row.wf(), basis_inverse_row.len == old(self).b.data@.len(), pivot_row_index < old(self).b.data@.len()
    ensures *final(self) == (Carry { minus_pi: final(self).minus_pi, minus_objective: final(self).minus_objective, ..*old(self) }), final(self).minus_pi.data@.len() == old(self).minus_pi.data@.len(),
      forall|k: int| #![trigger final(self).minus_pi.data@[k]] 0 <= k < old(self).minus_pi.data@.len() ==> final(self).minus_pi.data@[k]@ == old(self).minus_pi.data@[k]@ - relative_cost@ * basis_inverse_row.at(k),
      final(self).minus_objective@ == old(self).minus_objective@ - relative_cost@ * old(self).b.data@[pivot_row_index as int]@
//% loop 0
    invariant ix0 <= it0@.len(), own(it0@) == basis_inverse_row.data@, basis_inverse_row.wf(), basis_inverse_row.len == f0.len(), self.minus_pi.data@.len() == f0.len(),
      *self == (Carry { minus_pi: self.minus_pi, ..*old(self) }),
      forall|k: int| #![trigger self.minus_pi.data@[k]] 0 <= k < f0.len() ==> self.minus_pi.data@[k]@ == f0[k]@ - relative_cost@ * sv(basis_inverse_row.data@.subrange(0, ix0 as int), k)
    decreases it0@.len() - ix0
//% start
    let ghost f0 = self.minus_pi.data@;
    proof { let x = relative_cost@; assert(x * 0real == 0real) by(nonlinear_arith); }
//% loop_start 0
    let ghost g0 = self.minus_pi.data@;
    proof { let d = basis_inverse_row.data@; let q = ix0 - 1; assert(d[q] == own(it0@)[q]); }
//% loop_end 0
    proof {
        let d = basis_inverse_row.data@; let q = ix0 - 1; let rc = relative_cost@; let x = d[q].1@;
        assert forall|k: int| #![trigger self.minus_pi.data@[k]] 0 <= k < f0.len() implies self.minus_pi.data@[k]@ == f0[k]@ - rc * sv(d.subrange(0, ix0 as int), k) by { sv_step(d, q, k); let y = sv(d.subrange(0, q), k); assert(g0[k]@ == f0[k]@ - rc * y); assert(rc * (y + x) == rc * y + rc * x) by(nonlinear_arith); }
    }
//% after_loop 0
    proof { let d = basis_inverse_row.data@; assert(d.subrange(0, d.len() as int) =~= d); }
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/mod.rs Carry as InverseMaintainer::basis_column_index_for_row
//% spec
    requires row < self.basis_indices@.len()
    ensures r == self.basis_indices@[row as int]
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/mod.rs Carry as InverseMaintainer::cost_difference
//% spec
    requires bounded(original_column.es(), self.minus_pi.data@.len() as int)
    ensures r@ == dot(original_column.es(), |k: int| self.minus_pi.data@[k]@),
      forall|p: Lp, j: int| #![trigger reduced(self.basis_indices@, self.basis_inverse.inv(), p, j)] self.holds(p) && 0 <= j < p.n && original_column.es() == (p.a)(j) ==> (p.c)(j) + r@ == reduced(self.basis_indices@, self.basis_inverse.inv(), p, j)
//% start
    proof {
        assert forall|k: int| 0 <= k < self.minus_pi.data@.len() implies #[trigger] num(self.minus_pi.data@)(k) == (|k: int| self.minus_pi.data@[k]@)(k) by {}
        dot_ext(original_column.es(), self.minus_pi.data@.len() as int, num(self.minus_pi.data@), |k: int| self.minus_pi.data@[k]@);
        assert forall|p: Lp, j: int| #![trigger reduced(self.basis_indices@, self.basis_inverse.inv(), p, j)] self.holds(p) && 0 <= j < p.n && original_column.es() == (p.a)(j) implies (p.c)(j) + dot(original_column.es(), |k: int| self.minus_pi.data@[k]@) == reduced(self.basis_indices@, self.basis_inverse.inv(), p, j) by {
            let s = original_column.es(); let v = self.basis_inverse.inv(); let c = costs(self.basis_indices@, p); assert(swf((p.a)(j), p.m));
            fubini(s, p.m, p.m, c, v); let z: V = |k: int| 0real; dot_zero(s, p.m, z);
            assert forall|k: int| 0 <= k < p.m implies #[trigger] num(self.minus_pi.data@)(k) == z(k) + (-1real) * cv(p.m, c, v)(k) by { assert(self.minus_pi.data@[k]@ == -cv(p.m, c, v)(k)); }
            dot_comb(s, p.m, z, cv(p.m, c, v), num(self.minus_pi.data@), -1real);
        }
    }
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/mod.rs Carry as InverseMaintainer::generate_column
//% spec
    requires swf(original_column.es(), self.basis_inverse.size())
    ensures r.of(self.basis_inverse.inv()), r.c().wf(), r.c().len == self.basis_inverse.size(), forall|i: int| #![trigger r.c().at(i)] 0 <= i < self.basis_inverse.size() ==> r.c().at(i) == dot(original_column.es(), row(self.basis_inverse.inv(), i))
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/mod.rs Carry as InverseMaintainer::generate_element
//% spec
    requires swf(original_column.es(), self.basis_inverse.size()), i < self.basis_inverse.size()
    ensures r is Some ==> r->0@ == dot(original_column.es(), row(self.basis_inverse.inv(), i as int)), r is None ==> dot(original_column.es(), row(self.basis_inverse.inv(), i as int)) == 0real
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/mod.rs Carry as InverseMaintainer::get_objective_function_value
//% spec
    ensures r@ == -self.minus_objective@
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/mod.rs Carry as InverseMaintainer::get_constraint_value
//% spec
    requires i < self.b.data@.len()
    ensures *r == self.b.data@[i as int]
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/mod.rs Carry as InverseMaintainer::change_basis
//% spec
    requires old(self).holds(kind.lp()), pivot_row_index < kind.lp().m, pivot_column_index < kind.lp().n,
      column_computation_info.of(old(self).basis_inverse.inv()), column_computation_info.c().wf(), column_computation_info.c().len == kind.lp().m,
      forall|i: int| #![trigger column_computation_info.c().at(i)] 0 <= i < kind.lp().m ==> column_computation_info.c().at(i) == dots((kind.lp().a)(pivot_column_index as int), old(self).basis_inverse.inv())(i),
      column_computation_info.c().at(pivot_row_index as int) != 0real,
      relative_cost@ == reduced(old(self).basis_indices@, old(self).basis_inverse.inv(), kind.lp(), pivot_column_index as int)
    ensures final(self).holds(kind.lp()), final(self).basis_indices@ == old(self).basis_indices@.update(pivot_row_index as int, pivot_column_index),
      r.pivot_row_index == pivot_row_index, r.pivot_column_index == pivot_column_index, r.leaving_column_index == old(self).basis_indices@[pivot_row_index as int],
      r.column_before_change.wf(), r.column_before_change.len == kind.lp().m, forall|i: int| #![trigger r.column_before_change.at(i)] 0 <= i < kind.lp().m ==> r.column_before_change.at(i) == dots((kind.lp().a)(pivot_column_index as int), old(self).basis_inverse.inv())(i),
      r.work_vector.wf(), r.work_vector.len == kind.lp().m, forall|k: int| #![trigger r.work_vector.at(k)] 0 <= k < kind.lp().m ==> r.work_vector.at(k) == cv(kind.lp().m, dots((kind.lp().a)(pivot_column_index as int), old(self).basis_inverse.inv()), old(self).basis_inverse.inv())(k),
      r.basis_inverse_row.wf(), r.basis_inverse_row.len == kind.lp().m, forall|k: int| #![trigger r.basis_inverse_row.at(k)] 0 <= k < kind.lp().m ==> r.basis_inverse_row.at(k) == (final(self).basis_inverse.inv())(pivot_row_index as int, k),
      pivoted(old(self).basis_inverse.inv(), final(self).basis_inverse.inv(), dots((kind.lp().a)(pivot_column_index as int), old(self).basis_inverse.inv()), pivot_row_index as int, kind.lp().m),
      forall|i: int| #![trigger final(self).b.data@[i]] 0 <= i < kind.lp().m ==> final(self).b.data@[i]@ == elim(num(old(self).b.data@), dots((kind.lp().a)(pivot_column_index as int), old(self).basis_inverse.inv()), pivot_row_index as int, i),
      objective(final(self).b.data@, final(self).basis_indices@, kind.lp()) == objective(old(self).b.data@, old(self).basis_indices@, kind.lp()) + relative_cost@ * (old(self).b.data@[pivot_row_index as int]@ / column_computation_info.c().at(pivot_row_index as int))
//% closure 0 |c0: &usize| -> (r: Col)
    requires *c0 < kind.lp().n ensures r.es() == (kind.lp().a)(*c0 as int)
//% start
    let ghost p = kind.lp(); let ghost v = self.basis_inverse.inv(); let ghost basis = self.basis_indices@; let ghost w = svf(column_computation_info.c().data@); let ghost wd = dots((p.a)(pivot_column_index as int), v); let ghost u = pivot_matrix(v, w, pivot_row_index as int); let ghost n2 = basis.update(pivot_row_index as int, pivot_column_index);
    proof {
        assert forall|i: int| 0 <= i < p.m implies #[trigger] wd(i) == w(i) by { assert(column_computation_info.c().at(i) == wd(i)); }
        pivoted_ext(v, u, u, w, wd, pivot_row_index as int, p.m);
        let cd = column_computation_info.c().data@;
        assert forall|k: int| #![trigger col(v, k)] dot(cd, col(v, k)) == cv(p.m, wd, v)(k) by { dot_rsum(cd, p.m, col(v, k)); assert forall|i: int| 0 <= i < p.m implies #[trigger] scaled(wd, col(v, k))(i) == term(cd, col(v, k))(i) by { assert(wd(i) == w(i)); } rsum_ext(p.m, scaled(wd, col(v, k)), term(cd, col(v, k))); }
        pivoted_inverts(v, u, basis, p, pivot_row_index as int, pivot_column_index);
        assert forall|cols: Seq<Col>| #![trigger cols.len()] chosen(cols, n2, p) implies undoes(u, cols) && (forall|j: int| #![trigger cols[j]] 0 <= j < cols.len() ==> swf(cols[j].es(), cols.len() as int)) by {
            undoes_inverts(u, cols, n2, p);
            assert forall|j: int| #![trigger cols[j]] 0 <= j < cols.len() implies swf(cols[j].es(), cols.len() as int) by { assert(n2[j] < p.n); assert(swf((p.a)(n2[j] as int), p.m)); }
        }
        assert forall|cols: Seq<Col>, v2: M| #![trigger undoes_right(v2, cols)] chosen(cols, n2, p) && undoes(v2, cols) && undoes_right(v2, cols) implies pivoted(v, v2, w, pivot_row_index as int, p.m) && inverts_right(v2, n2, p) by {
            undoes_inverts(v2, cols, n2, p); undoes_inverts_right(v2, cols, n2, p);
            assert forall|i: int, k: int| #![trigger v2(i, k)] 0 <= i < p.m && 0 <= k < p.m implies v2(i, k) == u(i, k) by { one_inverse(u, v2, n2, p, i, k); }
            pivoted_ext(v, u, v2, w, w, pivot_row_index as int, p.m);
        }
    }
//% end
    proof {
        let v2 = self.basis_inverse.inv(); let old_self = *old(self);
        pivoted_ext(v, v2, v2, w, wd, pivot_row_index as int, p.m);
        assert forall|i: int| #![trigger self.b.data@[i]] 0 <= i < p.m implies self.b.data@[i]@ == elim(num(old_self.b.data@), wd, pivot_row_index as int, i) by { assert(wd(i) == w(i)); assert(wd(pivot_row_index as int) == w(pivot_row_index as int)); assert(self.b.data@[i]@ == elim(num(old_self.b.data@), w, pivot_row_index as int, i)); }
        assert forall|k: int| #![trigger self.minus_pi.data@[k]] 0 <= k < p.m implies self.minus_pi.data@[k]@ == old_self.minus_pi.data@[k]@ - reduced(basis, v, p, pivot_column_index as int) * v2(pivot_row_index as int, k) by { assert(basis_inverse_row.at(k) == v2(pivot_row_index as int, k)); }
        pivoted_inverts_right(v, v2, basis, p, pivot_row_index as int, pivot_column_index);
        basis_changed(p, basis, v, old_self.b.data@, old_self.minus_pi.data@, pivot_row_index as int, pivot_column_index, v2, self.b.data@, self.minus_pi.data@, old_self.minus_objective@, self.minus_objective@);
    }
//%%end
proof fn from_sorted<T>(t: Seq<(usize, T)>, s: Seq<(usize, T)>, k: int) -> (a: int) requires s.to_multiset() == t.to_multiset(), 0 <= k < s.len() ensures 0 <= a < t.len(), t[a] == s[k] {
    t.to_multiset_ensures(); s.to_multiset_ensures(); assert(s.contains(s[k])); assert(t.to_multiset().count(s[k]) > 0); assert(t.contains(s[k])); choose|a: int| 0 <= a < t.len() && t[a] == s[k]
}
proof fn sorted_only(t: Seq<(usize, F)>, s: Seq<(usize, F)>, basis: Seq<usize>, b: Seq<F>) requires only_rows(t, basis, b), s.to_multiset() == t.to_multiset() ensures only_rows(s, basis, b) {
    reveal(only_rows);
    assert forall|k: int| #![trigger s[k]] 0 <= k < s.len() implies row_in(s, basis, b, k) by { let a = from_sorted(t, s, k); assert(t[a].0 == s[k].0); }
}
proof fn sorted_all(t: Seq<(usize, F)>, s: Seq<(usize, F)>, basis: Seq<usize>, b: Seq<F>) requires all_rows(t, basis, b), s.to_multiset() == t.to_multiset() ensures all_rows(s, basis, b) {
    reveal(all_rows);
    assert forall|i: int| #![trigger b[i]] 0 <= i < b.len() && b[i]@ != 0real implies exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).0 == basis[i] && s[k].1@ == b[i]@ by {
        let a = choose|a: int| 0 <= a < t.len() && (#[trigger] t[a]).0 == basis[i] && t[a].1@ == b[i]@; let k = from_sorted(s, t, a); assert(s[k].0 == basis[i]);
    }
}
/// sorting a list with distinct keys
proof fn sorted_strictly<T>(t: Seq<(usize, T)>, s: Seq<(usize, T)>) requires wsorted(s), s.to_multiset() == t.to_multiset(), forall|x: int, y: int| 0 <= x < y < t.len() ==> (#[trigger] t[x]).0 != (#[trigger] t[y]).0 ensures ssorted(s) {
    assert forall|x: int, y: int| 0 <= x < t.len() && 0 <= y < t.len() && x != y implies t[x] != t[y] by { if x < y { assert(t[x].0 != t[y].0); } else { assert(t[y].0 != t[x].0); } }
    t.lemma_multiset_has_no_duplicates();
    assert forall|x: int, y: int| #![trigger s[x], s[y]] 0 <= x < y < s.len() implies s[x].0 < s[y].0 by {
        assert(s[x].0 <= s[y].0);
        if s[x].0 == s[y].0 {
            let ax = from_sorted(t, s, x); let ay = from_sorted(t, s, y);
            if ax < ay { assert(t[ax].0 != t[ay].0); } if ay < ax { assert(t[ay].0 != t[ax].0); }
            assert(s[x] == s[y]); twice(s, x, y);
        }
    }
}
proof fn at_least<T>(s: Seq<(usize, T)>, k: int) requires ssorted(s), 0 <= k < s.len() ensures s[k].0 >= k decreases k { if k > 0 { at_least(s, k - 1); assert(s[k - 1].0 < s[k].0); } }
proof fn at_most<T>(s: Seq<(usize, T)>, k: int) requires ssorted(s), bounded(s, s.len() as int), 0 <= k < s.len() ensures s[k].0 <= k decreases s.len() - k { if k < s.len() - 1 { at_most(s, k + 1); assert(s[k].0 < s[k + 1].0); } }
proof fn in_place<T>(t: Seq<(usize, T)>, s: Seq<(usize, T)>, i: int) requires ssorted(s), s.to_multiset() == t.to_multiset(), 0 <= i < s.len(), bounded(t, t.len() as int) ensures s[i].0 == i {
    t.to_multiset_ensures(); s.to_multiset_ensures();
    assert forall|k: int| #![trigger s[k]] 0 <= k < s.len() implies s[k].0 < s.len() by { let a = from_sorted(t, s, k); assert(t[a].0 < t.len()); }
    at_least(s, i); at_most(s, i);
}
proof fn sorted_bfs(t: Seq<(usize, F)>, s: Seq<(usize, F)>, basis: Seq<usize>, b: Seq<F>)
    requires only_rows(t, basis, b), all_rows(t, basis, b), in_row_order(t, basis, b), basis.len() == b.len(), wsorted(s), s.to_multiset() == t.to_multiset()
    ensures bfs_of(s, basis, b)
{
    sorted_only(t, s, basis, b); sorted_all(t, s, basis, b); 
    if distinct(basis) {
        reveal(in_row_order);
        assert forall|x: int, y: int| 0 <= x < y < t.len() implies (#[trigger] t[x]).0 != (#[trigger] t[y]).0 by {
            assert(rows_in(t, basis, b, x, y)); let (i, j) = choose|i: int, j: int| #![trigger basis[i], basis[j]] 0 <= i < j < b.len() && t[x].0 == basis[i] && t[y].0 == basis[j]; assert(basis[i] != basis[j]);
        }
        sorted_strictly(t, s);
    }
}
proof fn twice<T>(s: Seq<(usize, T)>, x: int, y: int) requires 0 <= x < y < s.len(), s[x] == s[y] ensures s.to_multiset().count(s[x]) >= 2 {
    let a = s.subrange(0, y); let b = s.subrange(y, s.len() as int); assert(s =~= a + b); vstd::seq_lib::lemma_multiset_commutative(a, b);
    a.to_multiset_ensures(); b.to_multiset_ensures(); assert(a[x] == s[x]); assert(b[0] == s[y]); assert(a.contains(s[x])); assert(b.contains(s[x]));
}
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/mod.rs Carry as InverseMaintainer::current_bfs
//% spec
    requires self.shape()
    ensures bfs_of(r@, self.basis_indices@, self.b.data@)
//% closure 0 |c0: (usize, &F)| -> (r: (usize, &F))
    requires c0.0 < self.basis_indices@.len() ensures r.0 == self.basis_indices@[c0.0 as int], r.1 == c0.1
//% closure 1 |c0: &(usize, &F)| -> (r: bool)
    ensures r == (c0.1@ != 0real)
//% closure 2 |c0: (usize, &F)| -> (r: (usize, F))
    ensures r.0 == c0.0, r.1@ == c0.1@
//% after "let mut tuples"
    let ghost t0 = tuples@;
//% end
    proof {
        let (basis, b) = (self.basis_indices@, self.b.data@);
        assert(only_rows(t0, basis, b)) by {
            reveal(only_rows);
            assert forall|k: int| #![trigger t0[k]] 0 <= k < t0.len() implies row_in(t0, basis, b, k) by {}
        }
        assert(all_rows(t0, basis, b)) by {
            reveal(all_rows);
            assert forall|i: int| #![trigger b[i]] 0 <= i < b.len() && b[i]@ != 0real implies exists|k: int| 0 <= k < t0.len() && (#[trigger] t0[k]).0 == basis[i] && t0[k].1@ == b[i]@ by { let x = enum_seq(refs::<F>(b))[i]; assert(x.0 == i); assert(x.1@ == b[i]@); }
        }
        assert(in_row_order(t0, basis, b)) by {
            reveal(in_row_order);
            assert forall|k: int, l: int| #![trigger rows_in(t0, basis, b, k, l)] 0 <= k < l < t0.len() implies rows_in(t0, basis, b, k, l) by {}
        }
        sorted_bfs(t0, tuples@, basis, b);
    }
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/mod.rs Carry::new
//% spec
    ensures r == (Carry { minus_objective, minus_pi, b, basis_indices, basis_inverse })
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/mod.rs Carry::create_minus_obj_from_artificial
//% spec
    requires provider.lp().wf(), inrange(basis@, provider.lp()), b.data@.len() == provider.lp().m
    ensures r@ == -objective(b.data@, basis@, provider.lp())
//% loop 0
    invariant ix0 <= en0, en0 == provider.lp().m, objective@ == rsum(ix0 as int, scaled(costs(basis@, provider.lp()), num(b.data@))), inrange(basis@, provider.lp()), b.data@.len() == provider.lp().m
    decreases en0 - ix0
//% loop_start 0
    proof { let (x, y) = ((provider.lp().c)(basis@[row as int] as int), b.data@[row as int]@); assert(x * y == y * x) by(nonlinear_arith); }
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/mod.rs Carry::create_minus_pi_from_artificial
//% spec
    requires provider.lp().wf(), inrange(basis@, provider.lp()), basis_inverse.size() == provider.lp().m, provider.lp().m <= usize::MAX
    ensures prices(r.data@, basis@, basis_inverse.inv(), provider.lp())
//% closure 0 |c0: IdentityColumn| -> (r: Info)
    requires c0.at() < basis_inverse.size() ensures unit_col(r.c(), basis_inverse.inv(), c0.at() as int, basis_inverse.size())
//% start
    proof { assert forall|s: Seq<(usize, F)>, j: int, i: int| #![trigger single(s, j), row(basis_inverse.inv(), i)] single(s, j) implies dot(s, row(basis_inverse.inv(), i)) == row(basis_inverse.inv(), i)(j) by { single_dot(s, j, row(basis_inverse.inv(), i)); } }
//% loop 0
    invariant ix0 <= it0@.len(), it0@.len() == m, m == basis_inverse.size(), b_inverse_rows@.len() == m, b_cols(it0@, basis_inverse.inv(), m as int), rows_to(b_inverse_rows@, basis_inverse.inv(), m as int, ix0 as int)
    decreases it0@.len() - ix0
//% loop_end 0
    proof { let s = it0@[ix0 - 1].1@; assert(s.subrange(0, s.len() as int) =~= s); after_column(b_inverse_rows@, basis_inverse.inv(), m as int, ix0 - 1, s); }
//% loop 1
    invariant ix1 <= it1@.len(), b_inverse_rows@.len() == m, j < m, swf(it1@, m as int), rows_part(b_inverse_rows@, basis_inverse.inv(), m as int, j as int, it1@.subrange(0, ix1 as int))
    decreases it1@.len() - ix1
//% loop_end 1
    proof { row_entry(rb, b_inverse_rows@, basis_inverse.inv(), m as int, j, it1@, ix1 - 1); }
//% loop_start 1
    let ghost rb = b_inverse_rows@;
    proof { assert(it1@[ix1 - 1].0 < m); }
//% after "let b_inverse_columns"
    proof { assert forall|j: int| #![trigger b_inverse_columns@[j]] 0 <= j < m implies swf(b_inverse_columns@[j]@, m as int) && forall|i: int| #![trigger sv(b_inverse_columns@[j]@, i)] 0 <= i < m ==> sv(b_inverse_columns@[j]@, i) == (basis_inverse.inv())(i, j) by {} }
//% before_loop 0
    proof { assert forall|i: int| #![trigger b_inverse_rows@[i]] 0 <= i < m implies row_to(b_inverse_rows@[i]@, basis_inverse.inv(), i, 0) by { assert(b_inverse_rows@[i]@ =~= Seq::empty()); } }
//% loop_start 0
    proof { before_column(b_inverse_rows@, basis_inverse.inv(), m as int, j as int); assert(column@.subrange(0, 0) =~= Seq::empty()); }
//% after_loop 0
    let ghost rows = b_inverse_rows@;
//% loop 2
    invariant ix2 <= it2@.len(), it2@.len() == m, m == provider.lp().m, pi@.len() == m, inrange(basis@, provider.lp()), rows_to(rows, basis_inverse.inv(), m as int, m as int), forall|i: int| #![trigger it2@[i]] 0 <= i < m ==> it2@[i].0 == i && it2@[i].1 == rows[i],
      forall|k: int| #![trigger pi@[k]] 0 <= k < m ==> pi@[k]@ == cv(ix2 as int, costs(basis@, provider.lp()), basis_inverse.inv())(k)
    decreases it2@.len() - ix2
//% loop 3
    invariant ix3 <= it3@.len(), bounded(it3@, m as int), m == provider.lp().m, pi@.len() == m, inrange(basis@, provider.lp()), i < m,
      forall|k: int| #![trigger pi@[k]] 0 <= k < m ==> pi@[k]@ == cv(i as int, costs(basis@, provider.lp()), basis_inverse.inv())(k) + sv(it3@.subrange(0, ix3 as int), k) * (provider.lp().c)(basis@[i as int] as int)
    decreases it3@.len() - ix3
//% loop_start 2
    proof { assert(row_to(rows[ix2 - 1]@, basis_inverse.inv(), ix2 - 1, m as int)); assert(it2@[ix2 - 1].1 == rows[ix2 - 1]); let x = (provider.lp().c)(basis@[ix2 - 1] as int); assert(0real * x == 0real) by(nonlinear_arith); }
//% loop_start 3
    let ghost pb = pi@;
    proof { assert(it3@[ix3 - 1].0 < m); }
//% loop_end 3
    proof {
        let s = it3@; let q = ix3 - 1; let c = (provider.lp().c)(basis@[i as int] as int); let x = s[q].1@;
        assert forall|k: int| #![trigger pi@[k]] 0 <= k < m implies pi@[k]@ == cv(i as int, costs(basis@, provider.lp()), basis_inverse.inv())(k) + sv(s.subrange(0, ix3 as int), k) * c by { sv_step(s, q, k); let y = sv(s.subrange(0, q), k); assert(pb[k]@ == cv(i as int, costs(basis@, provider.lp()), basis_inverse.inv())(k) + y * c); assert((y + x) * c == y * c + x * c) by(nonlinear_arith); assert((y + 0real) * c == y * c); }
    }
//% loop_end 2
    proof {
        let s = rows[ix2 - 1]@; let v = basis_inverse.inv(); let cs = costs(basis@, provider.lp()); let c = (provider.lp().c)(basis@[i as int] as int);
        assert(s.subrange(0, s.len() as int) =~= s);
        assert forall|k: int| #![trigger pi@[k]] 0 <= k < m implies pi@[k]@ == cv(ix2 as int, cs, v)(k) by { assert(sv(s, k) == v(i as int, k)); let y = v(i as int, k); assert(y * c == c * y) by(nonlinear_arith); assert(scaled(cs, col(v, k))(i as int) == c * y); }
    }
//% end
    proof { assert forall|k: int| #![trigger data@[k]] 0 <= k < m implies data@[k]@ == -cv(m as int, costs(basis@, provider.lp()), basis_inverse.inv())(k) by {} }
//%%end
pub open spec fn begins(c: Carry, b: Seq<F>) -> bool {
    c.shape() && upto(c.basis_indices@) && c.basis_indices@.len() == b.len() && (forall|i: int, k: int| #![trigger (c.basis_inverse.inv())(i, k)] 0 <= i < b.len() && 0 <= k < b.len() ==> (c.basis_inverse.inv())(i, k) == delta(i, k)) && c.b.data@.len() == b.len() && (forall|i: int| #![trigger c.b.data@[i]] 0 <= i < b.len() ==> c.b.data@[i]@ == b[i]@)
    && (forall|k: int| #![trigger c.minus_pi.data@[k]] 0 <= k < b.len() ==> c.minus_pi.data@[k]@ == -1real) && c.minus_objective@ == -ssum(b)
}
proof fn start_holds(c: Carry, b: Seq<F>, p: Lp)
    requires artificial(p, b), begins(c, b)
    ensures c.holds(p)
{
    let v = c.basis_inverse.inv(); let m = p.m; let basis = c.basis_indices@; let cs = costs(basis, p);
    assert forall|i: int, k: int| 0 <= i < m && 0 <= k < m implies #[trigger] v(i, k) == delta(i, k) by {}
    assert forall|i: int, j: int| #![trigger dot((p.a)(basis[j] as int), row(v, i))] 0 <= i < m && 0 <= j < m implies dot((p.a)(basis[j] as int), row(v, i)) == delta(i, j) by { assert(basis[j] == j); single_dot((p.a)(j), j, row(v, i)); assert(v(i, j) == delta(i, j)); }
    assert forall|k: int, l: int| #![trigger delta(k, l)] 0 <= k < m && 0 <= l < m implies rsum(m, scaled(col(v, l), basisrow(basis, p, k))) == delta(k, l) by {
        let f = scaled(col(v, l), basisrow(basis, p, k));
        assert forall|i: int| 0 <= i < m && i != l implies #[trigger] f(i) == 0real by { assert(v(i, l) == delta(i, l)); let x = basisrow(basis, p, k)(i); assert(0real * x == 0real) by(nonlinear_arith); }
        rsum_only(m, f, l); assert(v(l, l) == delta(l, l)); assert(basis[l] == l); let s = (p.a)(l); assert(single((p.a)(l), l)); sv_one(s[0], k); assert(s =~= seq![s[0]]); let x = sv(s, k); assert(1real * x == x);
    }
    assert forall|i: int| #![trigger c.b.data@[i]] 0 <= i < m implies c.b.data@[i]@ == dot(p.rhs, row(v, i)) by { assert forall|k: int| 0 <= k < m implies #[trigger] row(v, i)(k) == delta(i, k) by { assert(v(i, k) == delta(i, k)); } dot_delta(p.rhs, m, row(v, i), i); assert(b[i]@ == sv(p.rhs, i)); }
    assert forall|i: int| 0 <= i < m implies #[trigger] cs(i) == 1real by { assert(basis[i] == i); assert((p.c)(i) == 1real); }
    assert forall|k: int| #![trigger c.minus_pi.data@[k]] 0 <= k < m implies c.minus_pi.data@[k]@ == -cv(m, cs, v)(k) by {
        let f = scaled(cs, col(v, k)); assert forall|i: int| 0 <= i < m && i != k implies #[trigger] f(i) == 0real by { assert(v(i, k) == delta(i, k)); let x = cs(i); assert(x * 0real == 0real) by(nonlinear_arith); }
        rsum_only(m, f, k); assert(v(k, k) == delta(k, k)); assert(cs(k) == 1real);
    }
    sum_ones(b, c.b.data@, cs);
}
proof fn sum_ones(b: Seq<F>, b2: Seq<F>, cs: V) requires b2.len() >= b.len(), forall|i: int| 0 <= i < b.len() ==> #[trigger] cs(i) == 1real, forall|i: int| #![trigger b2[i]] 0 <= i < b.len() ==> b2[i]@ == b[i]@ ensures ssum(b) == rsum(b.len() as int, scaled(cs, num(b2))) decreases b.len() {
    if b.len() > 0 { let t = b.drop_last(); assert forall|i: int| #![trigger b2[i]] 0 <= i < t.len() implies b2[i]@ == t[i]@ by {} sum_ones(t, b2, cs); assert(cs(b.len() - 1) == 1real); assert(b2[b.len() - 1]@ == b[b.len() - 1]@); let x = b.last()@; assert(1real * x == x) by(nonlinear_arith); }
}
/// a basis of unit columns
pub open spec fn unit_start(c: Carry, p: Lp) -> bool {
    c.shape() && c.b.data@.len() == p.m && (forall|i: int, k: int| #![trigger (c.basis_inverse.inv())(i, k)] 0 <= i < p.m && 0 <= k < p.m ==> (c.basis_inverse.inv())(i, k) == delta(i, k))
    && (forall|k: int| #![trigger c.minus_pi.data@[k]] 0 <= k < p.m ==> c.minus_pi.data@[k]@ == -costs(c.basis_indices@, p)(k)) && c.minus_objective@ == -rsum(p.m, scaled(costs(c.basis_indices@, p), num(c.b.data@)))
    && (forall|i: int| #![trigger c.basis_indices@[i]] 0 <= i < p.m ==> c.basis_indices@[i] < p.n && single((p.a)(c.basis_indices@[i] as int), i)) && forall|i: int| #![trigger c.b.data@[i]] 0 <= i < p.m ==> c.b.data@[i]@ == sv(p.rhs, i)
}
proof fn unit_holds(c: Carry, p: Lp)
    requires p.wf(), unit_start(c, p)
    ensures c.holds(p)
{
    let v = c.basis_inverse.inv(); let m = p.m; let basis = c.basis_indices@; let cs = costs(basis, p);
    assert forall|i: int, k: int| 0 <= i < m && 0 <= k < m implies #[trigger] v(i, k) == delta(i, k) by {}
    assert forall|i: int, j: int| #![trigger dot((p.a)(basis[j] as int), row(v, i))] 0 <= i < m && 0 <= j < m implies dot((p.a)(basis[j] as int), row(v, i)) == delta(i, j) by { single_dot((p.a)(basis[j] as int), j, row(v, i)); assert(v(i, j) == delta(i, j)); }
    assert forall|k: int, l: int| #![trigger delta(k, l)] 0 <= k < m && 0 <= l < m implies rsum(m, scaled(col(v, l), basisrow(basis, p, k))) == delta(k, l) by {
        let f = scaled(col(v, l), basisrow(basis, p, k));
        assert forall|i: int| 0 <= i < m && i != l implies #[trigger] f(i) == 0real by { assert(v(i, l) == delta(i, l)); let x = basisrow(basis, p, k)(i); assert(0real * x == 0real) by(nonlinear_arith); }
        rsum_only(m, f, l); assert(v(l, l) == delta(l, l)); let s = (p.a)(basis[l] as int); assert(single(s, l)); sv_one(s[0], k); assert(s =~= seq![s[0]]); let x = sv(s, k); assert(1real * x == x);
    }
    assert forall|i: int| #![trigger c.b.data@[i]] 0 <= i < m implies c.b.data@[i]@ == dot(p.rhs, row(v, i)) by { assert forall|k: int| 0 <= k < m implies #[trigger] row(v, i)(k) == delta(i, k) by { assert(v(i, k) == delta(i, k)); } dot_delta(p.rhs, m, row(v, i), i); }
    assert forall|k: int| #![trigger c.minus_pi.data@[k]] 0 <= k < m implies c.minus_pi.data@[k]@ == -cv(m, cs, v)(k) by {
        let f = scaled(cs, col(v, k)); assert forall|i: int| 0 <= i < m && i != k implies #[trigger] f(i) == 0real by { assert(v(i, k) == delta(i, k)); let x = cs(i); assert(x * 0real == 0real) by(nonlinear_arith); }
        rsum_only(m, f, k); assert(v(k, k) == delta(k, k)); let x = cs(k); assert(x * 1real == x) by(nonlinear_arith);
    }
}
/// the sum of the values in the rows
pub open spec fn row_total(rows: Seq<usize>, b: Seq<F>, c: int) -> real decreases c { if c <= 0 { 0real } else { row_total(rows, b, c - 1) + b[rows[c - 1] as int]@ } }
pub open spec fn split_rows(rows: Seq<usize>, c: int, n: int) -> bool { 0 <= c <= rows.len() && (forall|q: int| #![trigger rows[q]] 0 <= q < c ==> rows[q] < n) && forall|q: int| #![trigger rows[q]] c <= q < rows.len() ==> rows[q] >= n }
proof fn picked_sum(rows: Seq<usize>, b: Seq<F>, c: int, n: int) requires ssorted_u(rows), split_rows(rows, c, n), 0 <= n <= b.len(), n <= usize::MAX ensures row_total(rows, b, c) == rsum(n, scaled(flag(rows), num(b))) decreases n {
    if n > 0 {
        let x = b[n - 1]@; assert(1real * x == x) by(nonlinear_arith); assert(0real * x == 0real) by(nonlinear_arith);
        if c > 0 && rows[c - 1] == n - 1 { assert(rows.contains((n - 1) as usize)); picked_sum(rows, b, c - 1, n - 1); }
        else { if rows.contains((n - 1) as usize) { let q = choose|q: int| 0 <= q < rows.len() && rows[q] == (n - 1) as usize; assert(q < c); assert(q < c - 1); assert(rows[q] < rows[c - 1]); assert(rows[c - 1] < n); } picked_sum(rows, b, c, n - 1); }
    } else { assert(c == 0) by { if c > 0 { assert(rows[0] < n); } } }
}
pub open spec fn begins_partly(c: Carry, basis: Seq<usize>, rows: Seq<usize>, b: Seq<F>) -> bool {
    c.shape() && c.basis_indices@ == basis && c.b.data@.len() == b.len() && (forall|i: int, k: int| #![trigger (c.basis_inverse.inv())(i, k)] 0 <= i < b.len() && 0 <= k < b.len() ==> (c.basis_inverse.inv())(i, k) == delta(i, k)) && (forall|i: int| #![trigger c.b.data@[i]] 0 <= i < b.len() ==> c.b.data@[i]@ == b[i]@)
    && (forall|k: int| #![trigger c.minus_pi.data@[k]] 0 <= k < b.len() ==> c.minus_pi.data@[k]@ == -flag(rows)(k)) && c.minus_objective@ == -row_total(rows, b, rows.len() as int)
}
proof fn partly_holds(c: Carry, basis: Seq<usize>, rows: Seq<usize>, b: Seq<F>, p: Lp) requires partly(p, basis, rows, b), begins_partly(c, basis, rows, b), ssorted_u(rows), forall|q: int| #![trigger rows[q]] 0 <= q < rows.len() ==> rows[q] < b.len() ensures c.holds(p) {
    let m = p.m; let cs = costs(basis, p);
    assert forall|i: int| 0 <= i < m implies #[trigger] cs(i) == flag(rows)(i) by { assert(begin_row(p, basis, rows, b, i)) by { let _ = basis[i]; } }
    assert forall|i: int| #![trigger basis[i]] 0 <= i < m implies basis[i] < p.n && single((p.a)(basis[i] as int), i) by { assert(begin_row(p, basis, rows, b, i)); }
    picked_sum(rows, b, rows.len() as int, m);
    rsum_ext(m, scaled(flag(rows), num(b)), scaled(cs, num(c.b.data@)));
    assert forall|k: int| #![trigger c.minus_pi.data@[k]] 0 <= k < m implies c.minus_pi.data@[k]@ == -cs(k) by {}
    assert forall|i: int| #![trigger c.b.data@[i]] 0 <= i < m implies c.b.data@[i]@ == sv(p.rhs, i) by { assert(begin_row(p, basis, rows, b, i)) by { let _ = basis[i]; } }
    unit_holds(c, p);
}
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/mod.rs Carry as InverseMaintainer::create_for_partially_artificial
//% spec
    requires ssorted_u(artificial_rows@), forall|q: int| #![trigger artificial_rows@[q]] 0 <= q < artificial_rows@.len() ==> artificial_rows@[q] < b.data@.len(), basis_indices@.len() == b.data@.len()
    ensures r.shape(), r.b.data@.len() == b.data@.len(), forall|i: int| #![trigger r.b.data@[i]] 0 <= i < b.data@.len() ==> r.b.data@[i]@ == b.data@[i]@, r.basis_indices == basis_indices, forall|p: Lp| #![trigger partly(p, basis_indices@, artificial_rows@, b.data@)] partly(p, basis_indices@, artificial_rows@, b.data@) ==> r.holds(p)
//% ret r
//% collected F
//% closure 0 |c0: &(usize, usize)| -> (r: usize)
    ensures r == c0.0
//% closure 1 |c0: F| -> (r: F)
    ensures r@ == c0@
//% loop 0
    invariant ix0 <= it0@.len(), it0@.len() == artificial_rows@.len(), forall|i: int| #![trigger it0@[i]] 0 <= i < it0@.len() ==> *it0@[i] == artificial_rows@[i], forall|q: int| #![trigger artificial_rows@[q]] 0 <= q < artificial_rows@.len() ==> artificial_rows@[q] < b.data@.len(), objective@ == row_total(artificial_rows@, b.data@, ix0 as int)
    decreases it0@.len() - ix0
//% loop_start 0
    proof { let q = ix0 - 1; assert(*it0@[q] == artificial_rows@[q]); }
//% loop 1
    invariant ix1 <= en1, en1 == m, m == b.data@.len(), counter <= artificial_rows@.len(), ssorted_u(artificial_rows@), split_rows(artificial_rows@, counter as int, ix1 as int), collected@.len() == ix1, forall|k: int| #![trigger collected@[k]] 0 <= k < ix1 ==> collected@[k]@ == -flag(artificial_rows@)(k)
    decreases en1 - ix1
//% end
    proof { assert forall|c: Carry, p: Lp| #![trigger partly(p, basis_indices@, artificial_rows@, b.data@), c.holds(p)] partly(p, basis_indices@, artificial_rows@, b.data@) && begins_partly(c, basis_indices@, artificial_rows@, b.data@) implies c.holds(p) by { partly_holds(c, basis_indices@, artificial_rows@, b.data@, p); } }
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/mod.rs Carry as InverseMaintainer::create_for_fully_artificial
//% spec
    ensures r.shape(), r.b.data@.len() == b.data@.len(), forall|i: int| #![trigger r.b.data@[i]] 0 <= i < b.data@.len() ==> r.b.data@[i]@ == b.data@[i]@, upto(r.basis_indices@), forall|p: Lp| #![trigger artificial(p, b.data@)] artificial(p, b.data@) ==> r.holds(p)
//% closure 0 |c0: F| -> (r: F)
    ensures r@ == c0@
//% loop 0
    invariant ix0 <= it0@.len(), it0@.len() == b.data@.len(), forall|i: int| #![trigger it0@[i]] 0 <= i < it0@.len() ==> *it0@[i] == b.data@[i], b_sum@ == ssum(b.data@.subrange(0, ix0 as int))
    decreases it0@.len() - ix0
//% start
    proof { assert(b.data@.subrange(0, 0) =~= Seq::empty()); }
    proof { assert forall|c: Carry, p: Lp| #![trigger artificial(p, b.data@), c.holds(p)] artificial(p, b.data@) && begins(c, b.data@) implies c.holds(p) by { start_holds(c, b.data@, p); } }
//% loop_start 0
    proof { let d = b.data@; let q = ix0 - 1; assert(d.subrange(0, ix0 as int).drop_last() =~= d.subrange(0, q)); assert(d.subrange(0, ix0 as int).last() == d[q]); assert(*it0@[q] == d[q]); }
//% after_loop 0
    proof { assert(b.data@.subrange(0, b.data@.len() as int) =~= b.data@); }
//% ret r
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/mod.rs Carry as InverseMaintainer::from_artificial
//% spec
    requires provider.lp().wf(), artificial.shape(), artificial.b.data@.len() == provider.lp().m, exists|q: Lp| #[trigger] artificial.holds(q) && extends(q, provider.lp(), nr_artificial as int),
      forall|i: int| #![trigger artificial.basis_indices@[i]] 0 <= i < artificial.basis_indices@.len() ==> artificial.basis_indices@[i] >= nr_artificial
    ensures r.holds(provider.lp()), r.b == artificial.b, r.basis_inverse == artificial.basis_inverse, r.basis_indices@.len() == artificial.basis_indices@.len(), forall|i: int| #![trigger r.basis_indices@[i]] 0 <= i < r.basis_indices@.len() ==> r.basis_indices@[i] == artificial.basis_indices@[i] - nr_artificial
//% start
    let ghost a0 = artificial;
//% loop 0
    invariant ix0 <= en0, en0 == a0.basis_indices@.len(), artificial == (Carry { basis_indices: artificial.basis_indices, ..a0 }), artificial.basis_indices@.len() == en0,
      forall|i: int| #![trigger a0.basis_indices@[i]] 0 <= i < a0.basis_indices@.len() ==> a0.basis_indices@[i] >= nr_artificial,
      forall|i: int| #![trigger artificial.basis_indices@[i]] 0 <= i < ix0 ==> artificial.basis_indices@[i] == a0.basis_indices@[i] - nr_artificial,
      forall|i: int| #![trigger artificial.basis_indices@[i]] ix0 <= i < en0 ==> artificial.basis_indices@[i] == a0.basis_indices@[i]
    decreases en0 - ix0
//% loop_start 0
    proof { assert(a0.basis_indices@[ix0 - 1] >= nr_artificial); }
//% after_loop 0
    proof {
        let p = provider.lp(); let q = choose|q: Lp| #[trigger] a0.holds(q) && extends(q, p, nr_artificial as int); let v = a0.basis_inverse.inv(); let (o, n2) = (a0.basis_indices@, artificial.basis_indices@);
        assert forall|i: int| #![trigger n2[i]] 0 <= i < p.m implies n2[i] < p.n by { assert(o[i] < q.n); }
        assert forall|i: int, j: int| #![trigger dot((p.a)(n2[j] as int), row(v, i))] 0 <= i < p.m && 0 <= j < p.m implies dot((p.a)(n2[j] as int), row(v, i)) == delta(i, j) by { assert(n2[j] + nr_artificial == o[j]); assert((p.a)(n2[j] as int) == (q.a)(o[j] as int)); assert(dot((q.a)(o[j] as int), row(v, i)) == delta(i, j)); }
        assert(inverts(v, n2, p));
        assert forall|k: int, l: int| #![trigger delta(k, l)] 0 <= k < p.m && 0 <= l < p.m implies rsum(p.m, scaled(col(v, l), basisrow(n2, p, k))) == delta(k, l) by {
            assert forall|i: int| 0 <= i < p.m implies #[trigger] scaled(col(v, l), basisrow(n2, p, k))(i) == scaled(col(v, l), basisrow(o, q, k))(i) by { assert(n2[i] + nr_artificial == o[i]); assert((p.a)(n2[i] as int) == (q.a)(o[i] as int)); }
            rsum_ext(p.m, scaled(col(v, l), basisrow(n2, p, k)), scaled(col(v, l), basisrow(o, q, k)));
        }
    }
//%%end
#[verifier::opaque] pub open spec fn all_kept(t: Seq<(usize, F)>, s: Seq<(usize, F)>, m: int) -> bool { forall|i: int| #![trigger sv(s, i)] 0 <= i < m && sv(s, i) != 0real ==> exists|k: int| 0 <= k < t.len() && (#[trigger] t[k]).0 == i }
proof fn kept_values(t: Seq<(usize, F)>, s: Seq<(usize, F)>, m: int) requires ssorted(t), all_kept(t, s, m), forall|k: int| #![trigger t[k]] 0 <= k < t.len() ==> t[k].0 < m && t[k].1@ != 0real && t[k].1@ == sv(s, t[k].0 as int) ensures swf(t, m), same_values(t, s, m) {
    reveal(all_kept);
    assert forall|i: int| 0 <= i < m implies #[trigger] sv(t, i) == sv(s, i) by {
        if exists|k: int| 0 <= k < t.len() && (#[trigger] t[k]).0 == i { let k = choose|k: int| 0 <= k < t.len() && (#[trigger] t[k]).0 == i; sv_at(t, k); } else { assert(sv(s, i) == 0real); sv_absent(t, i); }
    }
}
/// the entries of s are t's
pub open spec fn same_values(s: Seq<(usize, F)>, t: Seq<(usize, F)>, n: int) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] sv(s, i) == sv(t, i) }
proof fn same_dot(s: Seq<(usize, F)>, t: Seq<(usize, F)>, n: int, d: V) requires bounded(s, n), bounded(t, n), same_values(s, t, n) ensures dot(s, d) == dot(t, d) { dot_rsum(s, n, d); dot_rsum(t, n, d); rsum_ext(n, term(s, d), term(t, d)); }
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/mod.rs Carry as InverseMaintainer::from_basis
//% spec
    requires provider.lp().wf(), inrange(basis@, provider.lp()), invertible(basis@, provider.lp()), provider.lp().m <= usize::MAX
    ensures r.holds(provider.lp()), r.basis_indices@ == basis@
//% closure 0 |c0: &usize| -> (r: Col)
    requires *c0 < provider.lp().n ensures r.es() == (provider.lp().a)(*c0 as int)
//% closure 1 |c0: &(usize, F)| -> (r: bool)
    ensures r == (c0.1@ != 0real)
//% start
    let ghost p = provider.lp();
    proof {
        assert forall|cols: Seq<Col>| #![trigger cols.len()] chosen(cols, basis@, p) implies (exists|v: M| undoes(v, cols)) && (forall|j: int| #![trigger cols[j]] 0 <= j < cols.len() ==> swf(cols[j].es(), cols.len() as int)) by {
            let v = choose|v: M| #[trigger] inverts(v, basis@, p); undoes_inverts(v, cols, basis@, p); assert(undoes(v, cols));
            assert forall|j: int| #![trigger cols[j]] 0 <= j < cols.len() implies swf(cols[j].es(), cols.len() as int) by { assert(basis@[j] < p.n); assert(swf((p.a)(basis@[j] as int), p.m)); }
        }
        assert forall|cols: Seq<Col>, v2: M| #![trigger undoes_right(v2, cols)] chosen(cols, basis@, p) && undoes(v2, cols) && undoes_right(v2, cols) implies inverts(v2, basis@, p) && inverts_right(v2, basis@, p) by { undoes_inverts(v2, cols, basis@, p); undoes_inverts_right(v2, cols, basis@, p); }
    }
//% after "let b_data"
    proof {
        assert forall|k: int| #![trigger b_data@[k]] 0 <= k < b_data@.len() implies b_data@[k].0 < p.m && b_data@[k].1@ != 0real && b_data@[k].1@ == sv(p.rhs, b_data@[k].0 as int) by {}
        assert(all_kept(b_data@, p.rhs, p.m)) by {
            reveal(all_kept);
            assert forall|i: int| #![trigger sv(p.rhs, i)] 0 <= i < p.m && sv(p.rhs, i) != 0real implies exists|k: int| 0 <= k < b_data@.len() && (#[trigger] b_data@[k]).0 == i by {}
        }
        assert forall|k: int, l: int| #![trigger b_data@[k], b_data@[l]] 0 <= k < l < b_data@.len() implies b_data@[k].0 < b_data@[l].0 by {}
        kept_values(b_data@, p.rhs, p.m);
        assert forall|d: V| #![trigger dot(b_data@, d)] dot(b_data@, d) == dot(p.rhs, d) by { same_dot(b_data@, p.rhs, p.m, d); }
    }
//% loop 0
    invariant ix0 <= it0@.len(), swf(it0@, p.m), b_values@.len() == p.m, forall|i: int| #![trigger b_values@[i]] 0 <= i < p.m ==> b_values@[i]@ == sv(it0@.subrange(0, ix0 as int), i)
    decreases it0@.len() - ix0
//% loop_start 0
    let ghost bb = b_values@;
    proof { assert(it0@[ix0 - 1].0 < p.m); }
//% loop_end 0
    proof { let s = it0@; let q = ix0 - 1; assert forall|k: int| #![trigger b_values@[k]] 0 <= k < p.m implies b_values@[k]@ == sv(s.subrange(0, ix0 as int), k) by { sv_step(s, q, k); if k == s[q].0 { let t = s.subrange(0, q); assert forall|l: int| 0 <= l < t.len() implies (#[trigger] t[l]).0 != k by { assert(s[l].0 < s[q].0); } sv_absent(t, k); } else { assert(b_values@[k] == bb[k]); } } }
//% after_loop 0
    proof { let s = it0@; assert(s.subrange(0, s.len() as int) =~= s); }
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/mod.rs Carry as InverseMaintainer::from_basis_pivots
//% spec
    requires provider.lp().wf(), provider.lp().m <= usize::MAX, basis_columns@.len() == provider.lp().m,
      forall|k: int, l: int| #![trigger basis_columns@[k], basis_columns@[l]] 0 <= k < l < basis_columns@.len() ==> basis_columns@[k].0 != basis_columns@[l].0,
      forall|k: int| #![trigger basis_columns@[k]] 0 <= k < basis_columns@.len() ==> basis_columns@[k].0 < provider.lp().m && basis_columns@[k].1 < provider.lp().n,
      forall|basis: Seq<usize>| #![trigger invertible(basis, provider.lp())] pairs_of(basis, basis_columns@) ==> invertible(basis, provider.lp())
    ensures r.holds(provider.lp()), pairs_of(r.basis_indices@, basis_columns@)
//% closure 0 |c0: (usize, usize)| -> (r: usize)
    ensures r == c0.1
//% after "elements.sort_by_key"
    let ghost es = elements@;
    proof { sorted_strictly(basis_columns@, es); assert forall|i: int| #![trigger es[i]] 0 <= i < es.len() implies es[i].0 == i && es[i].1 < provider.lp().n by { let k = from_sorted(basis_columns@, es, i); in_place(basis_columns@, es, i); } }
//% end
    proof {
        assert forall|i: int| #![trigger columns@[i]] 0 <= i < columns@.len() implies columns@[i] < provider.lp().n && columns@[i] == es[i].1 by { assert(es[i].0 == i); }
        assert forall|k: int| #![trigger basis_columns@[k]] 0 <= k < basis_columns@.len() implies columns@[basis_columns@[k].0 as int] == basis_columns@[k].1 by { let i = from_sorted(es, basis_columns@, k); assert(es[i].0 == i); assert(columns@[i] == es[i].1); }
        assert(pairs_of(columns@, basis_columns@)); assert(invertible(columns@, provider.lp()));
    }
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/mod.rs Carry as InverseMaintainer::from_artificial_remove_rows#0
//% as from_artificial_remove_rows
//% spec
    requires rows_removed.lp().wf(), artificial.shape(), exists|f: Lp| #[trigger] artificial.holds(f) && dropped(f, rows_removed.lp(), nr_artificial as int, rows_removed.rows()) && rows_placed(f, artificial.basis_indices@, rows_removed.rows()),
      forall|i: int| #![trigger artificial.basis_indices@[i]] 0 <= i < artificial.basis_indices@.len() && !rows_removed.rows().contains(i as usize) ==> artificial.basis_indices@[i] >= nr_artificial
    ensures r.holds(rows_removed.lp()), removed(artificial.b.data@, r.b.data@, rows_removed.rows()), thinned_basis(artificial.basis_indices@, r.basis_indices@, rows_removed.rows(), nr_artificial as int)
//% start
    let ghost a0 = artificial; let ghost idx = rows_removed.rows(); let ghost q = rows_removed.lp(); let ghost f = choose|f: Lp| #[trigger] artificial.holds(f) && dropped(f, q, nr_artificial as int, idx) && rows_placed(f, artificial.basis_indices@, idx); let ghost v = a0.basis_inverse.inv();
//% closure 0 |c0: &usize| -> (r: Col)
    requires *c0 < q.n ensures r.es() == (q.a)(*c0 as int)
//% loop 0
    invariant ix0 <= en0, en0 == a1.len(), removed(a0.basis_indices@, a1, idx), a0.holds(f), dropped(f, q, nr_artificial as int, idx), rows_placed(f, a0.basis_indices@, idx), q.wf(), idx == rows_removed.rows(), q == rows_removed.lp(), v == a0.basis_inverse.inv(), artificial == (Carry { basis_indices: artificial.basis_indices, ..a0 }), artificial.basis_indices@.len() == en0,
      forall|i: int| #![trigger a1[i]] 0 <= i < a1.len() ==> a1[i] >= nr_artificial,
      forall|i: int| #![trigger artificial.basis_indices@[i]] 0 <= i < ix0 ==> artificial.basis_indices@[i] == a1[i] - nr_artificial,
      forall|i: int| #![trigger artificial.basis_indices@[i]] ix0 <= i < en0 ==> artificial.basis_indices@[i] == a1[i]
    decreases en0 - ix0
//% loop_start 0
    proof { assert(a1[ix0 - 1] >= nr_artificial); }
//% before_loop 0
    let ghost a1 = artificial.basis_indices@;
    proof { assert forall|a: int| #![trigger a1[a]] 0 <= a < a1.len() implies a1[a] >= nr_artificial by { up_at(idx, f.m, a); let i = up(idx, f.m, a); assert(a1[i - rank(idx, i)] == a0.basis_indices@[i]); } }
//% after_loop 0
    proof {
        let (o, n2) = (a0.basis_indices@, artificial.basis_indices@);
        lemma_thinned(o, a1, n2, idx, nr_artificial as int);
        lower_minor(v, idx, f.m); let w = lower(v, idx, f.m); minor_inverts(f, q, nr_artificial as int, idx, o, n2, v, w);
        assert forall|cols: Seq<Col>| #![trigger cols.len()] chosen(cols, n2, q) implies (exists|v: M| undoes(v, cols)) && (forall|j: int| #![trigger cols[j]] 0 <= j < cols.len() ==> swf(cols[j].es(), cols.len() as int)) by {
            undoes_inverts(w, cols, n2, q); assert(undoes(w, cols));
            assert forall|j: int| #![trigger cols[j]] 0 <= j < cols.len() implies swf(cols[j].es(), cols.len() as int) by { assert(n2[j] < q.n); assert(swf((q.a)(n2[j] as int), q.m)); }
        }
        assert forall|cols: Seq<Col>, v2: M| #![trigger undoes_right(v2, cols)] chosen(cols, n2, q) && undoes(v2, cols) && undoes_right(v2, cols) implies inverts(v2, n2, q) && inverts_right(v2, n2, q) by { undoes_inverts(v2, cols, n2, q); undoes_inverts_right(v2, cols, n2, q); }
    }
//% end
    proof {
        let w = lower(v, idx, f.m); let u = basis_inverse.inv(); let n2 = artificial.basis_indices@; minor_values(f, q, nr_artificial as int, idx, a0.basis_indices@, v, w, a0.b.data@, artificial.b.data@);
        assert forall|i: int, l: int| #![trigger u(i, l)] 0 <= i < q.m && 0 <= l < q.m implies u(i, l) == w(i, l) by { one_inverse(w, u, n2, q, i, l); }
        assert forall|i: int| #![trigger row(u, i)] 0 <= i < q.m implies dot(q.rhs, row(u, i)) == dot(q.rhs, row(w, i)) by { dot_ext(q.rhs, q.m, row(u, i), row(w, i)); }
    }
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/mod.rs Carry as InverseMaintainer::from_artificial_remove_rows#1
//% as from_artificial_remove_rows_kept
//% spec
    requires rows_removed.lp().wf(), artificial.shape(), exists|f: Lp| #[trigger] artificial.holds(f) && dropped(f, rows_removed.lp(), nr_artificial as int, rows_removed.rows()) && rows_placed(f, artificial.basis_indices@, rows_removed.rows()),
      forall|i: int| #![trigger artificial.basis_indices@[i]] 0 <= i < artificial.basis_indices@.len() && !rows_removed.rows().contains(i as usize) ==> artificial.basis_indices@[i] >= nr_artificial
    ensures r.holds(rows_removed.lp()), removed(artificial.b.data@, r.b.data@, rows_removed.rows()), thinned_basis(artificial.basis_indices@, r.basis_indices@, rows_removed.rows(), nr_artificial as int)
//% start
    let ghost a0 = artificial; let ghost idx = rows_removed.rows(); let ghost q = rows_removed.lp(); let ghost f = choose|f: Lp| #[trigger] artificial.holds(f) && dropped(f, q, nr_artificial as int, idx) && rows_placed(f, artificial.basis_indices@, idx); let ghost v = a0.basis_inverse.inv();
//% loop 0
    invariant ix0 <= en0, en0 == a1.len(), removed(a0.basis_indices@, a1, idx), a0.holds(f), dropped(f, q, nr_artificial as int, idx), rows_placed(f, a0.basis_indices@, idx), q.wf(), idx == rows_removed.rows(), q == rows_removed.lp(), v == a0.basis_inverse.inv(), artificial == (Carry { basis_indices: artificial.basis_indices, ..a0 }), artificial.basis_indices@.len() == en0,
      forall|i: int| #![trigger a1[i]] 0 <= i < a1.len() ==> a1[i] >= nr_artificial,
      forall|i: int| #![trigger artificial.basis_indices@[i]] 0 <= i < ix0 ==> artificial.basis_indices@[i] == a1[i] - nr_artificial,
      forall|i: int| #![trigger artificial.basis_indices@[i]] ix0 <= i < en0 ==> artificial.basis_indices@[i] == a1[i]
    decreases en0 - ix0
//% loop_start 0
    proof { assert(a1[ix0 - 1] >= nr_artificial); }
//% before_loop 0
    let ghost a1 = artificial.basis_indices@;
    proof { assert forall|a: int| #![trigger a1[a]] 0 <= a < a1.len() implies a1[a] >= nr_artificial by { up_at(idx, f.m, a); let i = up(idx, f.m, a); assert(a1[i - rank(idx, i)] == a0.basis_indices@[i]); } }
//% after_loop 0
    proof {
        let (o, n2) = (a0.basis_indices@, artificial.basis_indices@);
        lemma_thinned(o, a1, n2, idx, nr_artificial as int);
        lower_minor(v, idx, f.m); minor_inverts(f, q, nr_artificial as int, idx, o, n2, v, lower(v, idx, f.m));
    }
//% end
    proof {
        let w = artificial.basis_inverse.inv(); assert(minor(v, w, idx, f.m)); minor_inverts(f, q, nr_artificial as int, idx, a0.basis_indices@, artificial.basis_indices@, v, w); minor_values(f, q, nr_artificial as int, idx, a0.basis_indices@, v, w, a0.b.data@, artificial.b.data@);
    }
//%%end
}
fn main() {}
