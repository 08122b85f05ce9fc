// Unit: the LU factorisation with its updates, against the contract of the trait `BasisInverse`.
use vstd::prelude::*;
verus! {
//%%include prelude.rs
//%%include sparse_spec.rs
//%%include simplex_spec.rs
//%%types F=F; C=F; EtaFile<F>=EtaFile; FullPermutation=Full; RotateToBackPermutation=RotateToBack; LUDecomposition<F>=LUDecomposition; BTreeMap<usize,F>=BMap; BTreeMap<_,_>=BMap; Self::ColumnComputationInfo=ColumnAndSpike; ColumnAndSpike<F>=ColumnAndSpike; ColumnAndSpike<Self::F>=ColumnAndSpike; SparseVector=Sparse; SparseTuple=(usize, F); Sparse=Sparse; Self::F=F; SparseVector<F,F>=Sparse; SparseVector<Self::F,Self::F>=Sparse
//%%path iter::once=v_once
//%%include perm_spec.rs
//%%include lu_spec.rs
//%%include lu_theory.rs
//%%include lu_change.rs
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/eta_file.rs update_value
//% spec
    requires ssorted(old(vector)@), nonzero(old(vector)@), found(old(vector)@, new_index, pivot_index)
    ensures ssorted(final(vector)@), nonzero(final(vector)@), forall|n: int| #![trigger bounded(final(vector)@, n)] bounded(old(vector)@, n) && new_index < n ==> bounded(final(vector)@, n),
      forall|j: int| #![trigger sv(final(vector)@, j)] sv(final(vector)@, j) == sv(old(vector)@, j) - (if j == new_index { difference@ } else { 0real }),
      forall|k: int| #![trigger final(vector)@[k]] 0 <= k < final(vector)@.len() ==> final(vector)@[k].0 == new_index || exists|q: int| 0 <= q < old(vector)@.len() && (#[trigger] old(vector)@[q]) == final(vector)@[k],
      forall|k: int| #![trigger final(vector)@[k]] 0 <= k < old(vector)@.len() && old(vector)@[k].0 < new_index ==> k < final(vector)@.len() && final(vector)@[k] == old(vector)@[k]
//% end
    proof {
        let (a, b) = (old(vector)@, vector@); let d = difference@;
        assert forall|j: int| #![trigger sv(b, j)] sv(b, j) == sv(a, j) - (if j == new_index { d } else { 0real }) by {
            if d != 0real { match pivot_index {
                Ok(p) => { let p = p as int; sv_at(a, p); if b.len() == a.len() { assert(b =~= a.update(p, b[p])); sv_update(a, p, b[p], j); } else { assert(b =~= a.remove(p)); sv_remove(a, p, j); } },
                Err(p) => { let p = p as int; assert(b =~= a.insert(p, b[p])); sv_insert(a, p, b[p], j); if j == new_index { sv_absent(a, j); } },
            } } else { assert(b == a); }
        }
    }
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/eta_file.rs EtaFile::new
//% spec
    requires swf(values@, len as int), pivot < len, forall|k: int| #![trigger values@[k]] 0 <= k < values@.len() ==> values@[k].0 > pivot
    ensures r.wf(), r.values == values, r.pivot == pivot, r.len == len
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/eta_file.rs EtaFile::apply_left
//% spec
    requires self.wf(), swf(old(vector)@, self.len as int)
    ensures swf(final(vector)@, self.len as int), forall|j: int| #![trigger sv(final(vector)@, j)] sv(final(vector)@, j) == sv(old(vector)@, j) - sv(self.values@, j) * sv(old(vector)@, self.pivot as int)
//% loop 0
    invariant ix0 <= it0@.len(), it0@.len() == self.values@.len(), forall|k: int| #![trigger it0@[k]] 0 <= k < it0@.len() ==> it0@[k] == &self.values@[k], self.wf(), swf(vector@, self.len as int), pivot_index < v0.len(), v0[pivot_index as int].0 == self.pivot, pivot_index < vector@.len(), vector@[pivot_index as int] == v0[pivot_index as int], ssorted(v0),
      forall|j: int| #![trigger sv(vector@, j)] sv(vector@, j) == sv(v0, j) - sv(self.values@.subrange(0, ix0 as int), j) * v0[pivot_index as int].1@
    decreases it0@.len() - ix0
//% start
    let ghost v0 = vector@;
//% before_loop 0
    proof { let c = v0[pivot_index as int].1@; assert(self.values@.subrange(0, 0).len() == 0); assert(0real * c == 0real) by(nonlinear_arith); assert forall|j: int| #![trigger sv(vector@, j)] sv(vector@, j) == sv(v0, j) - sv(self.values@.subrange(0, 0), j) * c by {} }
//% loop_start 0
    let ghost w0 = vector@;
    proof { assert(it0@[ix0 - 1] == &self.values@[ix0 - 1]); assert(self.values@[ix0 - 1].0 > self.pivot); assert(w0[pivot_index as int].0 == self.pivot); }
//% loop_end 0
    proof {
        let vs = self.values@; let q = ix0 - 1; let c = v0[pivot_index as int].1@;
        assert(vector@[pivot_index as int] == w0[pivot_index as int]);
        assert(bounded(vector@, self.len as int)) by { assert(vs[q].0 < self.len); }
        assert forall|j: int| #![trigger sv(vector@, j)] sv(vector@, j) == sv(v0, j) - sv(vs.subrange(0, ix0 as int), j) * c by {
            sv_step(vs, q, j); let (x, y) = (sv(vs.subrange(0, q), j), vs[q].1@); assert((x + y) * c == x * c + y * c) by(nonlinear_arith); assert(sv(w0, j) == sv(v0, j) - x * c);
        }
    }
//% end
    proof {
        assert(self.values@.subrange(0, self.values@.len() as int) =~= self.values@);
        match pivot_index { Ok(p) => { sv_at(v0, p as int); }, Err(p) => { sv_absent(v0, self.pivot as int); assert forall|j: int| #![trigger sv(vector@, j)] sv(vector@, j) == sv(v0, j) - sv(self.values@, j) * sv(v0, self.pivot as int) by { let x = sv(self.values@, j); assert(x * 0real == 0real) by(nonlinear_arith); } } }
    }
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/eta_file.rs EtaFile::apply_right
//% spec
    requires self.wf(), swf(old(vector)@, self.len as int)
    ensures swf(final(vector)@, self.len as int), forall|j: int| #![trigger sv(final(vector)@, j)] sv(final(vector)@, j) == lessened(svf(old(vector)@), self.pivot as int, dot(self.values@, svf(old(vector)@)))(j)
//% loop 0
    invariant self.wf(), swf(vector@, self.len as int), vector@ == v0, eta_index <= self.values@.len(), vector_index <= v0.len(), total@ == dot(self.values@.subrange(0, eta_index as int), svf(v0)),
      forall|a: int, e: int| #![trigger v0[a], self.values@[e]] 0 <= a < vector_index && eta_index <= e < self.values@.len() ==> v0[a].0 < self.values@[e].0
    decreases self.values@.len() - eta_index + v0.len() - vector_index
//% start
    let ghost v0 = vector@;
//% before_loop 0
    proof { assert(self.values@.subrange(0, 0).len() == 0); assert forall|a: int, e: int| #![trigger v0[a], self.values@[e]] 0 <= a < vector_index && eta_index <= e < self.values@.len() implies v0[a].0 < self.values@[e].0 by { assert(self.values@[e].0 > self.pivot); match pivot_index { Ok(p) => { assert(v0[a].0 < v0[p as int].0); }, Err(p) => {} } } }
//% loop_start 0
    proof {
        let vs = self.values@; let (e, a) = (eta_index as int, vector_index as int); dot_step(vs, e, svf(v0));
        if vs[e].0 == v0[a].0 { sv_at(v0, a); }
        if vs[e].0 < v0[a].0 { assert forall|k: int| 0 <= k < v0.len() implies (#[trigger] v0[k]).0 != vs[e].0 by { if k < a { assert(v0[k].0 < vs[e].0); } else if k > a { assert(v0[a].0 < v0[k].0); } } sv_absent(v0, vs[e].0 as int); let x = vs[e].1@; assert(x * 0real == 0real) by(nonlinear_arith); }
        assert forall|f: int| #![trigger vs[f]] e < f < vs.len() implies vs[e].0 < vs[f].0 by {}
    }
//% after_loop 0
    proof {
        let vs = self.values@; let e = eta_index as int;
        assert forall|f: int| #![trigger vs[f]] e <= f < vs.len() implies svf(v0)(vs[f].0 as int) == 0real by { assert forall|k: int| 0 <= k < v0.len() implies (#[trigger] v0[k]).0 != vs[f].0 by { assert(v0[k].0 < vs[f].0); } sv_absent(v0, vs[f].0 as int); }
        dot_stop(vs, svf(v0), e);
    }
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/eta_file.rs EtaFile::update_spike_pivot_value
//% mut_ref
//% spec
    requires self.wf(), swf(old(spike)@, self.len as int)
    ensures swf(final(spike)@, self.len as int), forall|j: int| #![trigger sv(final(spike)@, j)] sv(final(spike)@, j) == lessened(svf(old(spike)@), self.pivot as int, dot(self.values@, svf(old(spike)@)))(j)
//% closure 0 |c0: &(usize, F)| -> (r: Option<F>)
    requires swf(spike@, self.len as int), search_index <= spike@.len(), forall|k: int| #![trigger spike@[k]] 0 <= k < search_index ==> spike@[k].0 < c0.0
    ensures r is None ==> svf(spike@)(c0.0 as int) == 0real, r is Some ==> r->0@ == c0.1@ * svf(spike@)(c0.0 as int)
//% closure 1 |c0: usize| -> (r: F)
    requires search_index + c0 < spike@.len(), ssorted(spike@), spike@[search_index + c0].0 == *row ensures r@ == value@ * svf(spike@)(*row as int)
//% start
    let ghost v0 = spike@;
    proof {
        let vs = self.values@; let n = spike.len(); assert(n == v0.len());
        assert forall|t: Seq<F>, m: Seq<int>| #![trigger ssum(t), increasing(m)] some_terms(t, m, vs, svf(v0)) implies ssum(t) == dot(vs, svf(v0)) by { some_sum(t, m, vs, svf(v0)); }
        assert forall|i: int| #![trigger vs[i]] #![trigger refs(vs)[i]] 0 <= i < vs.len() implies refs(vs)[i] == &vs[i] && vs[i].0 > self.pivot by {}
    }
//% before "spike[search_index..].binary_search_by_key"
    proof {
        let s = spike@.subrange(search_index as int, spike@.len() as int);
        assert forall|k: int| search_index <= k < spike@.len() implies #[trigger] spike@[k] == s[k - search_index] by {} assert forall|k: int| 0 <= k < s.len() implies #[trigger] s[k] == spike@[search_index + k] by {}
        if forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]).0 != *row { assert forall|k: int| 0 <= k < spike@.len() implies (#[trigger] spike@[k]).0 != *row by { if k >= search_index { assert(s[k - search_index].0 != *row); } } sv_absent(spike@, *row as int); }
    }
//% before "&spike[search_index + shift].1"
    proof { sv_at(spike@, search_index + shift); }
//%%end
//%%use permutation src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/full.rs Full::len
//%%use permutation src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/full.rs Full::identity
//%%use permutation src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/full.rs Full::forward
//%%use permutation src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/rotate_to_back.rs RotateToBack::new
//%%use permutation src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/rotate_to_back.rs RotateToBack::forward_sorted
//%%use permutation src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/rotate_to_back.rs RotateToBack::backward_sorted
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/mod.rs insert_or_shift_maybe_remove
//% spec
    requires change@ != 0real, forall|k: usize| #[trigger] old(rhs)@.contains_key(k) ==> old(rhs)@[k]@ != 0real
    ensures forall|n: int| #![trigger mwf(final(rhs)@, n)] index < n && mwf(old(rhs)@, n) ==> mwf(final(rhs)@, n), forall|a: int| #![trigger from(final(rhs)@, a)] a <= index && from(old(rhs)@, a) ==> from(final(rhs)@, a), forall|a: int| #![trigger upto(final(rhs)@, a)] index < a && upto(old(rhs)@, a) ==> upto(final(rhs)@, a),
      forall|k: int| #![trigger mv(final(rhs)@, k)] mv(final(rhs)@, k) == mv(old(rhs)@, k) - (if k == index { change@ } else { 0real })
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/mod.rs LUDecomposition as BasisInverse::m
//% spec
    ensures r == self.size()
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/mod.rs LUDecomposition::left_multiply_by_lower_inverse
//% spec
    requires self.ok(), mwf(rhs@, self.size())
    ensures swf(r@, self.size()), forall|i: int| #![trigger dot(r@, at_row(self.l(), i))] 0 <= i < self.size() ==> dot(r@, at_row(self.l(), i)) == mv(rhs@, i)
//% loop 0
    invariant self.ok(), n == self.size(), mwf(rhs@, n), from(rhs@, next), 0 <= next <= n, swf(result@, n), below_all(result@, next),
      forall|i: int| #![trigger mv(rhs0, i)] 0 <= i < n ==> mv(rhs0, i) == mv(rhs@, i) + dot(result@, at_row(self.l(), i))
    ensures forall|k: usize| !(#[trigger] rhs@.contains_key(k))
    decreases n - next
//% start
    let ghost rhs0 = rhs@; let ghost n = self.size(); let ghost mut next = 0int; 
//% loop_start 0
    let ghost rh = rhs@; let ghost c = rhs_value@; let ghost res = result@;
//% loop 1
    invariant self.ok(), n == self.size(), column < n - 1, column == row, ix1 <= it1@.len(), it1@ == refs(self.lower_triangular@[column as int]@), mwf(rhs@, n), from(rhs@, column + 1), result_value@ == c, c != 0real,
      forall|i: int| #![trigger mv(rhs@, i)] mv(rhs@, i) == mv(rh, i) - c * sv(self.lower_triangular@[column as int]@.subrange(0, ix1 as int), i)
    decreases it1@.len() - ix1
//% before_loop 1
    proof { let s = self.lower_triangular@[column as int]@; assert(s.subrange(0, 0).len() == 0); assert(c * 0real == 0real) by(nonlinear_arith); }
//% loop_start 1
    let ghost r1 = rhs@;
    proof { let s = self.lower_triangular@[column as int]@; let v = s[ix1 - 1].1@; assert(it1@[ix1 - 1] == &s[ix1 - 1]); assert(v != 0real); assert(c * v != 0real) by(nonlinear_arith) requires c != 0real, v != 0real; }
//% loop_end 1
    proof { let s = self.lower_triangular@[column as int]@; let q = ix1 - 1; assert(s[q].0 >= column + 1); assert(s[q].0 < n);
        assert forall|i: int| #![trigger mv(rhs@, i)] mv(rhs@, i) == mv(rh, i) - c * sv(s.subrange(0, ix1 as int), i) by { sv_step(s, q, i); let (x, y) = (sv(s.subrange(0, q), i), s[q].1@); assert(c * (x + y) == c * x + c * y) by(nonlinear_arith); assert(mv(r1, i) == mv(rh, i) - c * x); } }
//% loop_end 0
    proof {
        next = column + 1;
        assert forall|i: int| #![trigger mv(rhs0, i)] 0 <= i < n implies mv(rhs0, i) == mv(rhs@, i) + dot(result@, at_row(self.l(), i)) by {
            dot_push(res, (row, result_value), at_row(self.l(), i)); let x = self.l()(i, row as int); assert(at_row(self.l(), i)(row as int) == x);
            if column < n - 1 { let s = self.lower_triangular@[column as int]@; assert(s.subrange(0, s.len() as int) =~= s); if i == column { assert forall|k: int| 0 <= k < s.len() implies (#[trigger] s[k]).0 != i by {} sv_absent(s, i); } }
            assert(c * 1real == c && c * 0real == 0real) by(nonlinear_arith);
        }
    }
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/mod.rs LUDecomposition::update_rhs
//% spec
    requires self.ok(), column < self.size(), mwf(old(rhs)@, self.size()), result_value@ != 0real, upto(old(rhs)@, column as int)
    ensures mwf(final(rhs)@, self.size()), upto(final(rhs)@, column as int), forall|i: int| #![trigger mv(final(rhs)@, i)] mv(final(rhs)@, i) == mv(old(rhs)@, i) - (if i == column { 0real } else { result_value@ * self.u()(i, column as int) })
//% loop 0
    invariant self.ok(), n == self.size(), 0 < column < n, s == self.upper_triangular@[column - 1]@, ix0 <= it0@.len(), it0@ == refs(s), mwf(rhs@, n), upto(rhs@, column as int), result_value@ == c, c != 0real,
      forall|i: int| #![trigger mv(rhs@, i)] mv(rhs@, i) == mv(rh, i) - c * sv(s.subrange(0, ix0 as int), i)
    decreases it0@.len() - ix0
//% start
    let ghost rh = rhs@; let ghost c = result_value@; let ghost n = self.size(); let ghost s = if column > 0 { self.upper_triangular@[column - 1]@ } else { Seq::empty() };
//% before_loop 0
    proof { assert(s.subrange(0, 0).len() == 0); assert(c * 0real == 0real) by(nonlinear_arith); }
//% loop_start 0
    let ghost r1 = rhs@;
    proof { let v = s[ix0 - 1].1@; assert(it0@[ix0 - 1] == &s[ix0 - 1]); assert(v != 0real); assert(c * v != 0real) by(nonlinear_arith) requires c != 0real, v != 0real; assert(s[ix0 - 1].0 < column); }
//% loop_end 0
    proof { let q = ix0 - 1; assert(s[q].0 < column);
        assert forall|i: int| #![trigger mv(rhs@, i)] mv(rhs@, i) == mv(rh, i) - c * sv(s.subrange(0, ix0 as int), i) by { sv_step(s, q, i); let (x, y) = (sv(s.subrange(0, q), i), s[q].1@); assert(c * (x + y) == c * x + c * y) by(nonlinear_arith); assert(mv(r1, i) == mv(rh, i) - c * x); } }
//% end
    proof { assert(s.subrange(0, s.len() as int) =~= s); assert(c * 0real == 0real) by(nonlinear_arith); if column > 0 { assert forall|k: int| 0 <= k < s.len() implies (#[trigger] s[k]).0 != column by { assert(s[k].0 < column); } sv_absent(s, column as int); } }
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/mod.rs LUDecomposition::left_multiply_by_upper_inverse
//% spec
    requires self.ok(), mwf(rhs@, self.size())
    ensures swf(r@, self.size()), forall|i: int| #![trigger dot(r@, at_row(self.u(), i))] 0 <= i < self.size() ==> dot(r@, at_row(self.u(), i)) == mv(rhs@, i)
//% loop 0
    invariant self.ok(), n == self.size(), mwf(rhs@, n), upto(rhs@, next), 0 <= next <= n, bounded(result@, n), nonzero(result@), descending(result@), from_all(result@, next),
      forall|i: int| #![trigger mv(rhs0, i)] 0 <= i < n ==> mv(rhs0, i) == mv(rhs@, i) + dot(result@, at_row(self.u(), i))
    ensures forall|k: usize| !(#[trigger] rhs@.contains_key(k))
    decreases next
//% start
    let ghost rhs0 = rhs@; let ghost n = self.size(); let ghost mut next = self.size();
//% loop_start 0
    let ghost rh = rhs@; let ghost c = rhs_value@; let ghost res = result@;
    proof { assert(self.upper_diagonal@[row as int]@ != 0real); }
//% before "self.update_rhs"
    let ghost d = self.upper_diagonal@[column as int]@; let ghost x = result_value@;
    proof { assert(x * d == c && x != 0real) by(nonlinear_arith) requires x == c / d, d != 0real, c != 0real; }
//% loop_end 0
    proof {
        next = column as int;
        assert forall|i: int| #![trigger mv(rhs0, i)] 0 <= i < n implies mv(rhs0, i) == mv(rhs@, i) + dot(result@, at_row(self.u(), i)) by { dot_push(res, (row, result_value), at_row(self.u(), i)); assert(at_row(self.u(), i)(row as int) == self.u()(i, column as int)); }
    }
//% after_loop 0
    proof { turned(result@, n); }
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/mod.rs LUDecomposition::right_multiply_by_lower_inverse
//% spec
    requires self.ok(), mwf(rhs@, self.size())
    ensures swf(r@, self.size()), forall|i: int| #![trigger dot(r@, at_col(self.l(), i))] 0 <= i < self.size() ==> dot(r@, at_col(self.l(), i)) == mv(rhs@, i)
//% loop 0
    invariant self.ok(), n == self.size(), mwf(rhs@, n), upto(rhs@, next), 0 <= next <= n, bounded(result@, n), nonzero(result@), descending(result@), from_all(result@, next),
      forall|i: int| #![trigger mv(rhs0, i)] 0 <= i < n ==> mv(rhs0, i) == mv(rhs@, i) + dot(result@, at_col(self.l(), i))
    ensures forall|k: usize| !(#[trigger] rhs@.contains_key(k))
    decreases next
//% start
    let ghost rhs0 = rhs@; let ghost n = self.size(); let ghost mut next = self.size();
//% loop_start 0
    let ghost rh = rhs@; let ghost c = rhs_value@; let ghost res = result@;
//% before_loop 1
    proof { assert(c * 0real == 0real) by(nonlinear_arith); }
//% loop 1
    invariant self.ok(), n == self.size(), column < n, row == column, ix1 <= en1, en1 == column, mwf(rhs@, n), upto(rhs@, column as int), result_value@ == c, c != 0real,
      forall|i: int| #![trigger mv(rhs@, i)] mv(rhs@, i) == mv(rh, i) - (if 0 <= i < ix1 { c * self.l()(row as int, i) } else { 0real })
    decreases en1 - ix1
//% loop_start 1
    let ghost r1 = rhs@; let ghost s = self.lower_triangular@[ix1 - 1]@;
    proof { assert(swf(s, n)); assert(c * 0real == 0real) by(nonlinear_arith); }
//% after "let has_row"
    proof { match has_row { Ok(p) => { sv_at(s, p as int); let v = s[p as int].1@; assert(v != 0real); assert(c * v != 0real) by(nonlinear_arith) requires c != 0real, v != 0real; }, Err(p) => { assert forall|k: int| 0 <= k < s.len() implies (#[trigger] s[k]).0 != row by {} sv_absent(s, row as int); } } }
//% loop_end 1
    proof { assert forall|i: int| #![trigger mv(rhs@, i)] mv(rhs@, i) == mv(rh, i) - (if 0 <= i < ix1 { c * self.l()(row as int, i) } else { 0real }) by { assert(mv(r1, i) == mv(rh, i) - (if 0 <= i < ix1 - 1 { c * self.l()(row as int, i) } else { 0real })); } }
//% loop_end 0
    proof {
        next = column as int;
        assert forall|i: int| #![trigger mv(rhs0, i)] 0 <= i < n implies mv(rhs0, i) == mv(rhs@, i) + dot(result@, at_col(self.l(), i)) by { dot_push(res, (row, result_value), at_col(self.l(), i)); assert(at_col(self.l(), i)(row as int) == self.l()(row as int, i)); if i > row { lower_above(self.lower_triangular@, n, row as int, i); } assert(c * 1real == c && c * 0real == 0real) by(nonlinear_arith); }
    }
//% after_loop 0
    proof { turned(result@, n); }
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/mod.rs LUDecomposition::right_multiply_by_upper_inverse
//% spec
    requires self.ok(), mwf(rhs@, self.size())
    ensures swf(r@, self.size()), forall|i: int| #![trigger dot(r@, at_col(self.u(), i))] 0 <= i < self.size() ==> dot(r@, at_col(self.u(), i)) == mv(rhs@, i),
      forall|a: int| #![trigger from_all(r@, a)] from(rhs@, a) ==> from_all(r@, a)
//% loop 0
    invariant self.ok(), n == self.size(), mwf(rhs@, n), from(rhs@, next), 0 <= next <= n, swf(result@, n), below_all(result@, next), forall|a: int| #![trigger from_all(result@, a)] from(rhs0, a) ==> from_all(result@, a) && from(rhs@, a),
      forall|i: int| #![trigger mv(rhs0, i)] 0 <= i < n ==> mv(rhs0, i) == mv(rhs@, i) + dot(result@, at_col(self.u(), i))
    ensures forall|k: usize| !(#[trigger] rhs@.contains_key(k))
    decreases n - next
//% start
    let ghost rhs0 = rhs@; let ghost n = self.size(); let ghost mut next = 0int;
//% loop_start 0
    let ghost rh = rhs@; let ghost c = rhs_value@; let ghost res = result@;
    proof { assert(self.upper_diagonal@[column as int]@ != 0real); let z = self.row_permutation.forward.len(); assert(z == n); }
//% before_loop 1
    let ghost d = self.upper_diagonal@[column as int]@; let ghost x = result_value@;
    proof { assert(x * d == c && x != 0real) by(nonlinear_arith) requires x == c / d, d != 0real, c != 0real; assert(x * 0real == 0real) by(nonlinear_arith); }
//% loop 1
    invariant self.ok(), n == self.size(), column < n, row == column, column + 1 <= ix1 <= en1, en1 == n, mwf(rhs@, n), from(rhs@, column + 1), forall|a: int| #![trigger from(rhs@, a)] a <= column && from(rh, a) ==> from(rhs@, a), result_value@ == x, x != 0real,
      forall|i: int| #![trigger mv(rhs@, i)] mv(rhs@, i) == mv(rh, i) - (if column < i < ix1 { x * self.u()(row as int, i) } else { 0real })
    decreases en1 - ix1
//% loop_start 1
    let ghost r1 = rhs@; let ghost s = self.upper_triangular@[ix1 - 2]@;
    proof { assert(swf(s, ix1 - 1)); assert(x * 0real == 0real) by(nonlinear_arith); }
//% after "let has_row"
    proof { match has_row { Ok(p) => { sv_at(s, p as int); let v = s[p as int].1@; assert(v != 0real); assert(x * v != 0real) by(nonlinear_arith) requires x != 0real, v != 0real; }, Err(p) => { assert forall|k: int| 0 <= k < s.len() implies (#[trigger] s[k]).0 != row by {} sv_absent(s, row as int); } } }
//% loop_end 1
    proof { assert forall|i: int| #![trigger mv(rhs@, i)] mv(rhs@, i) == mv(rh, i) - (if row < i < ix1 { x * self.u()(row as int, i) } else { 0real }) by { assert(mv(r1, i) == mv(rh, i) - (if row < i < ix1 - 1 { x * self.u()(row as int, i) } else { 0real })); } }
//% loop_end 0
    proof {
        assert forall|a: int| #![trigger from_all(result@, a)] from(rhs0, a) implies from_all(result@, a) && from(rhs@, a) by { assert(from_all(res, a)); assert(from(rh, a)); assert(a <= column); assert(from(rhs@, a)); }
        next = column + 1;
        assert forall|i: int| #![trigger mv(rhs0, i)] 0 <= i < n implies mv(rhs0, i) == mv(rhs@, i) + dot(result@, at_col(self.u(), i)) by { dot_push(res, (column, result_value), at_col(self.u(), i)); assert(at_col(self.u(), i)(column as int) == self.u()(column as int, i)); if i < row { upper_below(self.upper_triangular@, self.upper_diagonal@, n, row as int, i); } assert(x * 0real == 0real) by(nonlinear_arith); }
    }
//%%end
//%%use permutation src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/mod.rs trait Permutation::forward_ref in Full
//%%use permutation src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/mod.rs trait Permutation::forward_unsorted in Full
//%%use permutation src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/mod.rs trait Permutation::backward_unsorted in Full
//%%use permutation src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/mod.rs trait Permutation::backward_sorted in Full
//%%use permutation src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/mod.rs trait Permutation::forward_ref in RotateToBack
//%%use permutation src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/mod.rs trait Permutation::forward_unsorted in RotateToBack
//%%use permutation src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/mod.rs trait Permutation::backward_unsorted in RotateToBack
//%%use vector src/data/linear_algebra/vector/sparse.rs Sparse as Vector::new
//%%use vector src/data/linear_algebra/vector/sparse.rs Sparse as Vector::get
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/mod.rs ColumnAndSpike as ColumnComputationInfo::into_column
//% spec
    ensures r == self.column
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/mod.rs LUDecomposition as BasisInverse::identity
//% spec
    ensures plain(r, m as int), r.ok(), r.size() == m, forall|b: M| #![trigger factors(r, b)] (forall|i: int, j: int| 0 <= i < m && 0 <= j < m ==> #[trigger] b(i, j) == delta(i, j)) ==> factors(r, b)
//% end
    proof { assert forall|r: LUDecomposition, b: M| #![trigger factors(r, b)] plain(r, m as int) && (forall|i: int, j: int| 0 <= i < m && 0 <= j < m ==> #[trigger] b(i, j) == delta(i, j)) implies factors(r, b) by { plain_factors(r, m as int, b); } }
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/mod.rs LUDecomposition as BasisInverse::left_multiply_by_basis_inverse
//% types I=VIter<(usize, &'a F)>
//% spec
    requires self.ok(), swf(own(iter@), self.size())
    ensures r.column.wf(), r.column.len == self.size(), swf(r.spike@, self.size()), an_answer(r.column, *self, svf(own(iter@))), matched(*self, r.column.data@, svf(r.spike@)), spiked(*self, svf(r.spike@), svf(own(iter@))),
      forall|b: M| #![trigger factors(*self, b)] factors(*self, b) ==> solves_col(r.column.data@, b, svf(own(iter@)), self.size())
//% subst .v_collect() => .v_collect_map()
//% subst self.row_permutation[ => self.row_permutation.forward[
//% subst Self::ColumnComputationInfo { => ColumnAndSpike {
//% closure 0 |c0: (usize, &F)| -> (r: (usize, F))
    requires c0.0 < self.size(), self.ok() ensures r.0 == self.row_permutation.forward@[c0.0 as int], r.1@ == c0.1@
//% start
    let ghost n = self.size(); let ghost a = own(iter@);
    proof { assert forall|i: int| 0 <= i < iter@.len() implies (#[trigger] iter@[i]).0 < n by { let z = a[i]; assert(z.0 < n); } let z = self.row_permutation.forward.len(); assert(z == n); }
//% before "let mut w"
    let ghost rh = rhs@;
    proof {
        onto_full(self.row_permutation);
        assert(exists|s: Seq<(usize, F)>| #[trigger] map_of(rhs@, s) && moved_values(s, a, self.row_permutation.fwd()));
        let s = choose|s: Seq<(usize, F)>| #[trigger] map_of(rhs@, s) && moved_values(s, a, self.row_permutation.fwd());
        map_moved(rhs@, s, a, self.row_permutation.fwd(), self.row_permutation.bwd(), n);
    }
//% after "let mut w"
    let ghost w0 = w@;
//% loop 0
    invariant self.ok(), n == self.size(), n <= usize::MAX, ix0 <= it0@.len(), it0@ == refs(self.updates@), swf(w@, n), agree(undo(self.updates@, ix0 as int, svf(w@)), svf(w0), n)
    decreases it0@.len() - ix0
//% loop_start 0
    let ghost wp = w@;
    proof { assert(it0@[ix0 - 1] == &self.updates@[ix0 - 1]); let u = self.updates@[ix0 - 1]; }
//% after "eta.apply_right"
    let ghost wm = w@;
//% loop_end 0
    proof { left_step(self.updates@, ix0 - 1, w@, wm, wp, w0, n); }
//% after_loop 0
    proof { left_spiked(*self, w@, w0, rh, a); }
//% before_loop 1
    let ghost y = column@;
    proof { assert forall|i: int| #![trigger dot(y, at_row(self.u(), i))] 0 <= i < n implies dot(y, at_row(self.u(), i)) == svf(spike@)(i) by { let z = sv(spike@, i); } }
    proof { back_none(self.updates@, y); }
//% loop 1
    invariant self.ok(), n == self.size(), n <= usize::MAX, ix1 <= it1@.len(), it1@ == rev_seq(refs(self.updates@)), bounded(column@, n), bounded(y, n), column@ == mapped(y, backs(self.updates@, self.updates@.len() - ix1))
    decreases it1@.len() - ix1
//% loop_start 1
    proof { let k = self.updates@.len() - ix1; assert(it1@[ix1 - 1] == &self.updates@[k]); let u = self.updates@[k]; back_step(self.updates@, k, y, n); }
//% after_loop 1
    proof { back_last(*self, y); }
//% before "column.sort_unstable_by_key"
    proof { assert(column@ == mapped(y, origins(*self))); }
//% after "column.sort_unstable_by_key"
    proof { assert(moved_list(y, column@, origins(*self)) && wsorted(column@)); }
//% end
    proof {
        left_matched(*self, y, column@, svf(spike@));
        assert forall|b: M| #![trigger factors(*self, b)] factors(*self, b) implies solves_col(column@, b, svf(a), n) by { left_solves(*self, column@, svf(spike@), svf(a), b); }
    }
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/mod.rs LUDecomposition as BasisInverse::right_multiply_by_basis_inverse
//% types I=VIter<(usize, &'a F)>
//% spec
    requires self.ok(), swf(own(row@), self.size())
    ensures r.wf(), r.len == self.size(), forall|b: M| #![trigger factors(*self, b)] factors(*self, b) ==> solves_row(r.data@, b, svf(own(row@)), self.size())
//% subst .v_into_iter().v_collect() => .v_into_iter().v_collect_map()
//% subst self.column_permutation[ => self.column_permutation.forward[
//% closure 0 |c0: (usize, &F)| -> (r: (usize, F))
    requires c0.0 < self.size(), self.ok() ensures r.0 == self.column_permutation.forward@[c0.0 as int], r.1@ == c0.1@
//% start
    let ghost n = self.size(); let ghost a = own(row@);
    proof { assert forall|i: int| 0 <= i < row@.len() implies (#[trigger] row@[i]).0 < n by { let z = a[i]; assert(z.0 < n); } let z = self.row_permutation.forward.len(); assert(z == n); }
//% before_loop 0
    let ghost l0 = lhs@;
    proof { assert(moved_values(l0, a, self.column_permutation.fwd())); }
//% loop 0
    invariant self.ok(), n == self.size(), n <= usize::MAX, ix0 <= it0@.len(), it0@ == refs(self.updates@), swf(a, n), moved_values(l0, a, self.column_permutation.fwd()), bounded(lhs@, n), lhs@ == mapped(l0, placings(self.updates@, ix0 as int))
    decreases it0@.len() - ix0
//% loop_start 0
    proof { assert(it0@[ix0 - 1] == &self.updates@[ix0 - 1]); let u = self.updates@[ix0 - 1]; place_step(self.updates@, ix0 - 1, l0, n); }
//% after_loop 0
    proof { onto_places(*self); place_last(*self, l0, lhs@, a); }
//% before_loop 1
    let ghost z0 = lhs@;
    proof { carried_none(self.updates@, z0); }
//% loop 1
    invariant self.ok(), n == self.size(), n <= usize::MAX, ix1 <= it1@.len(), it1@ == rev_seq(refs(self.updates@)), swf(lhs@, n), carried(self.updates@, self.updates@.len() - ix1, lhs@, z0)
    decreases it1@.len() - ix1
//% loop_start 1
    let ghost x1 = lhs@;
    proof { let k = self.updates@.len() - ix1; assert(it1@[ix1 - 1] == &self.updates@[k]); let u = self.updates@[k]; }
//% after "q.backward_sorted"
    let ghost y1 = lhs@;
    proof { let k = self.updates@.len() - ix1; let u = self.updates@[k]; assert(onto(u.1.bwd(), u.1.fwd(), n)); assert(onto(u.1.fwd(), u.1.bwd(), n)); moved_all(x1, y1, u.1.bwd(), u.1.fwd(), n); }
//% loop_end 1
    proof { let k = self.updates@.len() - ix1; carry_one(self.updates@, k, lhs@, y1, x1, z0, n); }
//% after_loop 1
    let ghost x0 = lhs@;
//% before "self.row_permutation.backward_sorted"
    let ghost yl = lhs@;
    proof { assert forall|i: int| #![trigger dot(yl, at_col(self.l(), i))] 0 <= i < n implies dot(yl, at_col(self.l(), i)) == sv(x0, i) by { let z = sv(x0, i); } }
//% end
    proof {
        pull(*self, lhs@, yl, x0, z0, self.row_permutation.fwd(), self.row_permutation.bwd());
        assert forall|b: M| #![trigger factors(*self, b)] factors(*self, b) implies solves_row(lhs@, b, svf(a), n) by { right_solves(*self, lhs@, z0, svf(a), b); }
    }
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/mod.rs LUDecomposition as BasisInverse::basis_inverse_row
//% spec
    requires self.ok(), row < self.size()
    ensures r.wf(), r.len == self.size(), forall|b: M| #![trigger factors(*self, b)] factors(*self, b) ==> solves_row(r.data@, b, deltas(row as int), self.size())
//% subst .v_collect() => .v_collect_map()
//% start
    let ghost n = self.size(); let ghost row0 = row as int;
    proof { let z = self.row_permutation.forward.len(); assert(z == n); let f = self.column_permutation.forward@[row0]; }
//% loop 0
    invariant self.ok(), n == self.size(), n <= usize::MAX, ix0 <= it0@.len(), it0@ == refs(self.updates@), row < n, row == placed(self.updates@, ix0 as int, self.column_permutation.forward@[row0] as int)
    decreases it0@.len() - ix0
//% loop_start 0
    proof { assert(it0@[ix0 - 1] == &self.updates@[ix0 - 1]); let u = self.updates@[ix0 - 1]; }
//% before "let initial_rhs"
    let ghost place0 = row as int;
//% after "let initial_rhs"
    proof { one_map(initial_rhs@, place0, n); }
//% before_loop 1
    let ghost z0 = w@;
    proof { carried_none(self.updates@, z0); }
//% loop 1
    invariant self.ok(), n == self.size(), n <= usize::MAX, ix1 <= it1@.len(), it1@ == rev_seq(refs(self.updates@)), swf(w@, n), carried(self.updates@, self.updates@.len() - ix1, w@, z0)
    decreases it1@.len() - ix1
//% loop_start 1
    let ghost x1 = w@;
    proof { let k = self.updates@.len() - ix1; assert(it1@[ix1 - 1] == &self.updates@[k]); let u = self.updates@[k]; }
//% after "q.backward_sorted"
    let ghost y1 = w@;
    proof { let k = self.updates@.len() - ix1; let u = self.updates@[k]; assert(onto(u.1.bwd(), u.1.fwd(), n)); assert(onto(u.1.fwd(), u.1.bwd(), n)); moved_all(x1, y1, u.1.bwd(), u.1.fwd(), n); }
//% loop_end 1
    proof { let k = self.updates@.len() - ix1; carry_one(self.updates@, k, w@, y1, x1, z0, n); }
//% after_loop 1
    let ghost x0 = w@;
//% before "self.row_permutation.backward_sorted"
    let ghost yl = tuples@;
//% end
    proof {
        pull(*self, tuples@, yl, x0, z0, self.row_permutation.fwd(), self.row_permutation.bwd());
        assert forall|j: int| #![trigger place(*self, j)] 0 <= j < n implies dot(z0, at_col(self.u(), place(*self, j))) == deltas(row0)(j) by { place_range(*self, j); place_range(*self, row0); let pj = place(*self, j); let z = mv(initial_rhs@, pj); }
        assert forall|b: M| #![trigger factors(*self, b)] factors(*self, b) implies solves_row(tuples@, b, deltas(row0), n) by { right_solves(*self, tuples@, z0, deltas(row0), b); }
    }
//%%end
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/mod.rs LUDecomposition as BasisInverse::generate_element
//% types I=VIter<(usize, &'a F)>
//% spec
    requires self.ok(), i < self.size(), swf(own(original_column@), self.size())
    ensures exists|x: Sparse| #[trigger] an_answer(x, *self, svf(own(original_column@))) && (r is Some ==> r->0@ == x.at(i as int)) && (r is None ==> x.at(i as int) == 0real)
//%%end
//%%use permutation src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/rotate_to_back.rs RotateToBack::len
//%%fn src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/mod.rs LUDecomposition as BasisInverse::change_basis
//% spec
    requires old(self).ok(), pivot_row_index < old(self).size(), column.column.wf(), column.column.len == old(self).size(), swf(column.spike@, old(self).size()), matched(*old(self), column.column.data@, svf(column.spike@)), column.column.at(pivot_row_index as int) != 0real
    ensures final(self).ok(), final(self).size() == old(self).size(), r == column.column, forall|b: M, a: V| #![trigger factors(*old(self), b), spiked(*old(self), svf(column.spike@), a)] factors(*old(self), b) && spiked(*old(self), svf(column.spike@), a) ==> factors(*final(self), replaced(b, pivot_row_index as int, a))
//% subst Self::ColumnComputationInfo { => ColumnAndSpike {
//% path Permutation::forward_ref=RotateToBack::forward_ref
//% path max=v_max2
//% subst self.upper_triangular[self.upper_triangular.len() - 1] => v_last_mut(&mut self.upper_triangular)
//% subst self.upper_diagonal[self.upper_diagonal.len() - 1] = => *v_last_mut(&mut self.upper_diagonal) =
//% subst .v_collect() => .v_collect_map()
//% closure 0 |c0: usize| -> (r: Option<((usize, F), (usize, usize))>)
    requires pivot_column_index < c0 < self.size(), self.ok() ensures piece(self.upper_triangular@, pivot_column_index as int, c0 as int, r)
//% closure 1 |c0: usize| -> (r: ((usize, F), (usize, usize)))
    requires c0 < column@.len() ensures r.0.0 == j, r.1.0 == j, r.1.1 == c0, r.0.1 == column@[c0 as int].1
//% start
    let ghost lu0 = *self; let ghost n = self.size(); let ghost xc = column.column.data@; let ghost spk = column.spike@; let ghost p0 = pivot_row_index as int; let ghost cc = column.column;
    proof { place_range(lu0, p0); let z = self.row_permutation.forward.len(); assert(z == n); }
//% before "let (_, value)"
    proof { one_corner(lu0, xc, spk); assert(spk.len() > 0 && spk[0].1@ == sv(spk, 0) && sv(spk, 0) != 0real); }
//% before "return column"
    proof { assert forall|b: M, a: V| #![trigger factors(lu0, b), spiked(lu0, svf(spk), a)] factors(lu0, b) && spiked(lu0, svf(spk), a) implies factors(*self, replaced(b, p0, a)) by { only_changed(lu0, *self, spk, b, a); } }
//% loop 0
    invariant *self == lu0, self.ok(), n == self.size(), ix0 <= it0@.len(), it0@ == refs(self.updates@), pivot_column_index < n, pivot_column_index == placed(self.updates@, ix0 as int, self.column_permutation.forward@[p0] as int)
    decreases it0@.len() - ix0
//% loop_start 0
    proof { assert(it0@[ix0 - 1] == &self.updates@[ix0 - 1]); let u = self.updates@[ix0 - 1]; }
//% before "let (u_bar, indices_to_zero)"
    let ghost pc = pivot_column_index as int; let ghost u0 = self.upper_triangular@; let ghost d0 = self.upper_diagonal@;
    proof { assert(pc == place(lu0, p0)); }
//% after "let (u_bar, indices_to_zero)"
    let ghost ub = u_bar@; let ghost ind = indices_to_zero@;
    proof {
        let rs = core::ops::Range { start: (pivot_column_index + 1) as usize, end: m }.into_seq(); assert(rs.len() == n - pc - 1); assert forall|i: int| #![trigger u0[pc + i]] 0 <= i < n - pc - 1 implies rs[i] == pc + 1 + i by {} assert forall|i: int| #![trigger rs[i]] 0 <= i < n - pc - 1 implies rs[i] == pc + 1 + i by {}
        assert forall|mm: Seq<int>| #![trigger increasing(mm)] increasing(mm) && from_pieces(mm, ub, ind, u0, pc, n) implies zeros(u0, pc, n, ub, ind) by { zeros_of(mm, ub, ind, u0, pc, n); }
        assert(zeros(u0, pc, n, ub, ind)); ubar(ub, ind, u0, d0, pc, n); assert(swf(ub, n));
    }
//% before "let r = self.right_multiply_by_upper_inverse"
    let ghost um = u_bar@;
    proof { map_from(um, ub, pc + 1); assert(mwf(um, n)); assert(from(um, pc + 1)); }
//% after "let r = self.right_multiply_by_upper_inverse"
    let ghost rr = r@;
    proof { assert(eta_row(rr, lu0.u(), pc, n)) by { assert forall|t: int| #![trigger dot(rr, at_col(lu0.u(), t))] 0 <= t < n implies dot(rr, at_col(lu0.u(), t)) == (if t > pc { lu0.u()(pc, t) } else { 0real }) by { let z = sv(ub, t); } } }
//% loop 1
    invariant ix1 <= it1@.len(), it1@ == ind, n >= 2, 0 <= pc < n, upper_ok(u0, n), zeros(u0, pc, n, ub, ind), zeroing(u0, self.upper_triangular@, ind, ix1 as int), self.row_permutation == lu0.row_permutation, self.column_permutation == lu0.column_permutation, self.lower_triangular == lu0.lower_triangular, self.upper_diagonal == lu0.upper_diagonal, self.updates == lu0.updates
    decreases it1@.len() - ix1
//% loop_start 1
    let ghost w1 = self.upper_triangular@;
    proof { let z = ind[ix1 - 1]; assert(w1[z.0 - 1] == u0[z.0 - 1]); }
//% loop_end 1
    proof { zero_step(u0, w1, self.upper_triangular@, ub, ind, ix1 - 1, pc, n); }
//% after_loop 1
    let ghost u1 = self.upper_triangular@;
    proof { zero_last(u0, u1, ub, ind, pc, n); }
//% after "eta_file.update_spike_pivot_value"
    let ghost sp = spike@;
    proof { corner_value(lu0, xc, spk, rr, p0); assert(sv(sp, pc) == sv(spk, pc) - dot(rr, svf(spk))); let (g, h) = (sv(xc, p0), lu0.u()(pc, pc)); assert(h == d0[pc]@); assert(g * h != 0real) by(nonlinear_arith) requires g != 0real, h != 0real; }
//% before "let q = RotateToBack"
    let ghost u3 = self.upper_triangular@; let ghost d3 = self.upper_diagonal@;
    proof { assert(left_shifted(u1, u3, sp, pc, n)); let z = self.row_permutation.forward.len(); assert(z == n); }
//% loop 2
    invariant n >= 2, en2 == n, dci(pc) + 1 <= ix2 <= en2, q.wf(), q.len == n, q.index == pc, 0 <= pc < n, rotating(u3, self.upper_triangular@, q, n, ix2 - 1), forall|k: int| #![trigger u3[k]] 0 <= k < n - 1 ==> swf(u3[k]@, n), self.row_permutation == lu0.row_permutation, self.column_permutation == lu0.column_permutation, self.lower_triangular == lu0.lower_triangular, self.upper_diagonal@ == d3, self.updates == lu0.updates
    decreases en2 - ix2
//% loop_start 2
    let ghost w2 = self.upper_triangular@;
    proof { let k = ix2 - 2; assert(w2[k] == u3[k]); assert(swf(u3[k]@, n)); }
//% loop_end 2
    proof { let k = ix2 - 2; let c = self.upper_triangular@[k]@; assert(onto(q.fwd(), q.bwd(), n)); assert(onto(q.bwd(), q.fwd(), n)); moved_all(u3[k]@, c, q.fwd(), q.bwd(), n); assert(turned_col(c, u3[k]@, q, n)); }
//% after_loop 2
    let ghost u4 = self.upper_triangular@;
    proof { corner_there(u3, u4, sp, q, n); }
//% before "self.updates.push"
    let ghost u5 = self.upper_triangular@; let ghost d5 = self.upper_diagonal@;
    proof { assert(diag_shifted(d0, d5, pc, n, sv(sp, pc))); rotated(u0, u1, u3, u4, u5, d0, d5, sp, q, n); }
//% end
    proof {
        let x = self.updates@.last(); assert(self.updates@ =~= lu0.updates@.push(x)); assert(self.ok());
        assert(agree(svf(sp), lessened(svf(spk), pc, dot(x.0.values@, svf(spk))), n));
        assert forall|b: M, a: V| #![trigger factors(lu0, b), spiked(lu0, svf(spk), a)] factors(lu0, b) && spiked(lu0, svf(spk), a) implies factors(*self, replaced(b, p0, a)) by { factors_changed(lu0, *self, p0, spk, svf(sp), b, a); }
    }
//%%end
} fn main() {}
