// A change of basis: what the new upper triangle is, and why it is the factorisation of the new basis.
pub fn v_max2(a: usize, b: usize) -> (r: usize) ensures r == (if a >= b { a } else { b }) { if a >= b { a } else { b } }
pub fn v_last_mut<T>(v: &mut Vec<T>) -> (r: &mut T) requires old(v)@.len() > 0 ensures *r == old(v)@.last(), final(v)@ == old(v)@.update(old(v)@.len() - 1, *final(r)) { let k = v.len() - 1; &mut v[k] }
pub type Cols = Seq<Vec<(usize, F)>>;
pub type Piece = Option<((usize, F), (usize, usize))>;
pub open spec fn lacks(s: Seq<(usize, F)>, i: int) -> bool { forall|k: int| #![trigger s[k]] 0 <= k < s.len() ==> s[k].0 != i }
pub open spec fn piece(u: Cols, pc: int, j: int, r: Piece) -> bool { match r { Some(x) => x.0.0 == j && x.1.0 == j && x.1.1 < u[j - 1]@.len() && u[j - 1]@[x.1.1 as int].0 == pc && x.0.1 == u[j - 1]@[x.1.1 as int].1, None => lacks(u[j - 1]@, pc) } }
pub open spec fn from_pieces(m: Seq<int>, ub: Seq<(usize, F)>, ind: Seq<(usize, usize)>, u: Cols, pc: int, n: int) -> bool {
    m.len() == ub.len() && m.len() == ind.len() && (forall|j: int| #![trigger m[j]] 0 <= j < m.len() ==> 0 <= m[j] < n - pc - 1 && piece(u, pc, pc + 1 + m[j], Some((ub[j], ind[j]))))
    && forall|i: int| #![trigger u[pc + i]] 0 <= i < n - pc - 1 ==> lacks(u[pc + i]@, pc) || exists|j: int| 0 <= j < m.len() && #[trigger] m[j] == i
}
/// the entries of the row pc right of the diagonal: their values, and where they are
pub open spec fn zeros(u: Cols, pc: int, n: int, ub: Seq<(usize, F)>, ind: Seq<(usize, usize)>) -> bool {
    ub.len() == ind.len() && (forall|l: int| #![trigger ub[l]] #![trigger ind[l]] 0 <= l < ind.len() ==> pc < ind[l].0 < n && ub[l].0 == ind[l].0 && ind[l].1 < u[ind[l].0 - 1]@.len() && u[ind[l].0 - 1]@[ind[l].1 as int].0 == pc && ub[l].1 == u[ind[l].0 - 1]@[ind[l].1 as int].1)
    && (forall|a: int, b: int| #![trigger ind[a], ind[b]] 0 <= a < b < ind.len() ==> ind[a].0 < ind[b].0)
    && forall|j: int| #![trigger u[j - 1]] pc < j < n ==> lacks(u[j - 1]@, pc) || exists|l: int| 0 <= l < ind.len() && (#[trigger] ind[l]).0 == j
}
pub proof fn zeros_of(m: Seq<int>, ub: Seq<(usize, F)>, ind: Seq<(usize, usize)>, u: Cols, pc: int, n: int) requires increasing(m), from_pieces(m, ub, ind, u, pc, n), 0 <= pc ensures zeros(u, pc, n, ub, ind) {
    assert forall|l: int| #![trigger ub[l]] #![trigger ind[l]] 0 <= l < ind.len() implies pc < ind[l].0 < n && ub[l].0 == ind[l].0 && ind[l].1 < u[ind[l].0 - 1]@.len() && u[ind[l].0 - 1]@[ind[l].1 as int].0 == pc && ub[l].1 == u[ind[l].0 - 1]@[ind[l].1 as int].1 by { let z = m[l]; }
    assert forall|a: int, b: int| #![trigger ind[a], ind[b]] 0 <= a < b < ind.len() implies ind[a].0 < ind[b].0 by { assert(m[a] < m[b]); }
    assert forall|j: int| #![trigger u[j - 1]] pc < j < n implies lacks(u[j - 1]@, pc) || exists|l: int| 0 <= l < ind.len() && (#[trigger] ind[l]).0 == j by { let i = j - 1 - pc; let z = u[pc + i]; if !lacks(u[j - 1]@, pc) { let l = choose|l: int| 0 <= l < m.len() && #[trigger] m[l] == i; let y = ind[l]; assert(y.0 == j); } }
}
pub proof fn ubar(ub: Seq<(usize, F)>, ind: Seq<(usize, usize)>, u: Cols, d: Seq<F>, pc: int, n: int) requires zeros(u, pc, n, ub, ind), upper_ok(u, n), 0 <= pc < n ensures swf(ub, n), from_all(ub, pc + 1), forall|t: int| #![trigger sv(ub, t)] 0 <= t < n ==> sv(ub, t) == (if t > pc { umat(u, d)(pc, t) } else { 0real }) {
    assert forall|a: int, b: int| #![trigger ub[a], ub[b]] 0 <= a < b < ub.len() implies ub[a].0 < ub[b].0 by { assert(ind[a].0 < ind[b].0); }
    assert forall|l: int| #![trigger ub[l]] 0 <= l < ub.len() implies pc + 1 <= ub[l].0 < n && ub[l].1@ != 0real by { let z = ind[l]; let c = u[z.0 - 1]@; assert(swf(c, z.0 as int)); let y = c[z.1 as int]; assert(y.1@ != 0real); }
    assert forall|t: int| #![trigger sv(ub, t)] 0 <= t < n implies sv(ub, t) == (if t > pc { umat(u, d)(pc, t) } else { 0real }) by {
        if exists|l: int| 0 <= l < ind.len() && (#[trigger] ind[l]).0 == t { let l = choose|l: int| 0 <= l < ind.len() && (#[trigger] ind[l]).0 == t; let z = ub[l]; sv_at(ub, l); let c = u[t - 1]@; assert(swf(c, t)); sv_at(c, ind[l].1 as int); }
        else { assert forall|k: int| 0 <= k < ub.len() implies (#[trigger] ub[k]).0 != t by { let z = ind[k]; } sv_absent(ub, t); if t > pc { let c = u[t - 1]@; assert(lacks(c, pc)); sv_absent(c, pc); } }
    }
}
pub proof fn map_from(m: Map<usize, F>, s: Seq<(usize, F)>, a: int) requires map_of(m, s), from_all(s, a) ensures from(m, a) {
    assert forall|k: usize| #[trigger] m.contains_key(k) implies a <= k by { let j = choose|j: int| 0 <= j < s.len() && #[trigger] s[j] == (k, m[k]) && forall|l: int| j < l < s.len() ==> (#[trigger] s[l]).0 != k; }
}
pub open spec fn eta_row(r: Seq<(usize, F)>, u: M, pc: int, n: int) -> bool { swf(r, n) && from_all(r, pc + 1) && forall|t: int| #![trigger dot(r, at_col(u, t))] 0 <= t < n ==> dot(r, at_col(u, t)) == (if t > pc { u(pc, t) } else { 0real }) }
pub open spec fn untouched(ind: Seq<(usize, usize)>, k: int) -> bool { forall|l: int| #![trigger ind[l]] 0 <= l < ind.len() ==> ind[l].0 != k + 1 }
pub open spec fn zeroing(u0: Cols, u: Cols, ind: Seq<(usize, usize)>, x: int) -> bool {
    u.len() == u0.len() && (forall|l: int| #![trigger ind[l]] 0 <= l < x ==> u[ind[l].0 - 1]@ == u0[ind[l].0 - 1]@.remove(ind[l].1 as int)) && (forall|l: int| #![trigger ind[l]] x <= l < ind.len() ==> u[ind[l].0 - 1] == u0[ind[l].0 - 1]) && forall|k: int| #![trigger u[k]] 0 <= k < u.len() && untouched(ind, k) ==> u[k] == u0[k]
}
pub proof fn zero_step(u0: Cols, u: Cols, w: Cols, ub: Seq<(usize, F)>, ind: Seq<(usize, usize)>, x: int, pc: int, n: int) requires upper_ok(u0, n), 0 <= pc < n, zeros(u0, pc, n, ub, ind), zeroing(u0, u, ind, x), 0 <= x < ind.len(), w.len() == u.len(), w[ind[x].0 - 1]@ == u[ind[x].0 - 1]@.remove(ind[x].1 as int), forall|k: int| #![trigger w[k]] 0 <= k < u.len() && k != ind[x].0 - 1 ==> w[k] == u[k]
    ensures zeroing(u0, w, ind, x + 1) {
    assert(pc < ind[x].0 < n);
    assert forall|l: int| #![trigger ind[l]] 0 <= l < ind.len() && l != x implies ind[l].0 != ind[x].0 && pc < ind[l].0 < n by { if l < x { assert(ind[l].0 < ind[x].0); } else { assert(ind[x].0 < ind[l].0); } }
    assert forall|l: int| #![trigger ind[l]] 0 <= l < x + 1 implies w[ind[l].0 - 1]@ == u0[ind[l].0 - 1]@.remove(ind[l].1 as int) by { let k = ind[l].0 - 1; if l < x { assert(ind[l].0 != ind[x].0); assert(w[k] == u[k]); } }
    assert forall|l: int| #![trigger ind[l]] x + 1 <= l < ind.len() implies w[ind[l].0 - 1] == u0[ind[l].0 - 1] by { let k = ind[l].0 - 1; assert(ind[l].0 != ind[x].0); assert(w[k] == u[k]); }
    assert forall|k: int| #![trigger w[k]] 0 <= k < w.len() && untouched(ind, k) implies w[k] == u0[k] by { assert(ind[x].0 != k + 1); assert(w[k] == u[k]); }
}
/// u without the entries of row pc right of the diagonal
pub open spec fn zeroed(u0: Cols, u: Cols, pc: int, n: int) -> bool { upper_ok(u, n) && forall|k: int, i: int| #![trigger sv(u[k]@, i)] 0 <= k < n - 1 ==> sv(u[k]@, i) == (if k + 1 > pc && i == pc { 0real } else { sv(u0[k]@, i) }) }
pub proof fn zero_last(u0: Cols, u: Cols, ub: Seq<(usize, F)>, ind: Seq<(usize, usize)>, pc: int, n: int) requires n >= 1, upper_ok(u0, n), 0 <= pc < n, zeros(u0, pc, n, ub, ind), zeroing(u0, u, ind, ind.len() as int) ensures zeroed(u0, u, pc, n) {
    assert forall|k: int| 0 <= k < n - 1 implies swf(u[k]@, k + 1) && #[trigger] one_zeroed(u0[k]@, u[k]@, pc, k) by {
        let c0 = u0[k]@; let c = u[k]@; assert(swf(c0, k + 1));
        if exists|l: int| 0 <= l < ind.len() && (#[trigger] ind[l]).0 == k + 1 {
            let l = choose|l: int| 0 <= l < ind.len() && (#[trigger] ind[l]).0 == k + 1; let q = ind[l].1 as int; assert(c == c0.remove(q)); assert(c0[q].0 == pc);
            assert forall|i: int| #![trigger sv(c, i)] sv(c, i) == (if k + 1 > pc && i == pc { 0real } else { sv(c0, i) }) by { sv_remove(c0, q, i); sv_at(c0, q); }
        } else {
            assert(untouched(ind, k)) by { assert forall|l: int| #![trigger ind[l]] 0 <= l < ind.len() implies ind[l].0 != k + 1 by {} }
            assert(u[k] == u0[k]); if k + 1 > pc { let z = u0[(k + 1) - 1]; assert(lacks(c0, pc)); sv_absent(c0, pc); }
        }
    }
    assert forall|k: int, i: int| #![trigger sv(u[k]@, i)] 0 <= k < n - 1 implies sv(u[k]@, i) == (if k + 1 > pc && i == pc { 0real } else { sv(u0[k]@, i) }) by { assert(one_zeroed(u0[k]@, u[k]@, pc, k)); }
    assert forall|j: int| #![trigger u[j]] 0 <= j < u.len() implies swf(u[j]@, j + 1) by { assert(one_zeroed(u0[j]@, u[j]@, pc, j)); }
}
pub open spec fn one_zeroed(c0: Seq<(usize, F)>, c: Seq<(usize, F)>, pc: int, k: int) -> bool { forall|i: int| #![trigger sv(c, i)] sv(c, i) == (if k + 1 > pc && i == pc { 0real } else { sv(c0, i) }) }
pub proof fn sv_outside(s: Seq<(usize, F)>, n: int, i: int) requires bounded(s, n), i >= n || i < 0 ensures sv(s, i) == 0real { assert forall|k: int| 0 <= k < s.len() implies (#[trigger] s[k]).0 != i by {} sv_absent(s, i); }
pub open spec fn dci(pc: int) -> int { if pc == 0 { 0 } else { pc - 1 } }
pub open spec fn left_shifted(u1: Cols, u3: Cols, sp: Seq<(usize, F)>, pc: int, n: int) -> bool { u3.len() == n - 1 && (forall|k: int| #![trigger u3[k]] 0 <= k < dci(pc) ==> u3[k] == u1[k]) && (forall|k: int| #![trigger u3[k]] dci(pc) <= k < n - 2 ==> u3[k] == u1[k + 1]) && u3[n - 2]@ == sp }
pub open spec fn turned_col(c: Seq<(usize, F)>, s: Seq<(usize, F)>, q: RotateToBack, n: int) -> bool { swf(c, n) && forall|i: int| #![trigger sv(c, i)] 0 <= i < n ==> sv(c, i) == sv(s, q.bwd()(i)) }
pub open spec fn rotating(u3: Cols, u4: Cols, q: RotateToBack, n: int, x: int) -> bool { u4.len() == n - 1 && u3.len() == n - 1 && (forall|k: int| #![trigger u4[k]] 0 <= k < n - 1 && (k < dci(q.index as int) || k >= x) ==> u4[k] == u3[k]) && forall|k: int| #![trigger u4[k]] dci(q.index as int) <= k < x ==> turned_col(u4[k]@, u3[k]@, q, n) }
pub proof fn corner_there(u3: Cols, u4: Cols, sp: Seq<(usize, F)>, q: RotateToBack, n: int) requires n >= 2, q.wf(), q.len == n, rotating(u3, u4, q, n, n - 1), u3[n - 2]@ == sp, swf(sp, n), sv(sp, q.index as int) != 0real
    ensures u4[n - 2]@.len() > 0, u4[n - 2]@.last().0 == n - 1, u4[n - 2]@.last().1@ == sv(sp, q.index as int) {
    let c = u4[n - 2]@; assert(turned_col(c, sp, q, n)); let z = sv(c, n - 1); assert(q.bwd()(n - 1) == q.index);
    if lacks(c, n - 1) { sv_absent(c, n - 1); }
    let k = choose|k: int| 0 <= k < c.len() && (#[trigger] c[k]).0 == n - 1; if k < c.len() - 1 { assert(c[k].0 < c[c.len() - 1].0); assert(c[c.len() - 1].0 < n); } sv_at(c, k);
}
pub open spec fn new_entry(u: M, pc: int, sp: V, i: int, t: int) -> real { if t == pc { sp(i) } else if i == pc { 0real } else { u(i, t) } }
pub open spec fn diag_shifted(d0: Seq<F>, d: Seq<F>, pc: int, n: int, c: real) -> bool { d.len() == n && (forall|t: int| #![trigger d[t]] 0 <= t < pc ==> d[t] == d0[t]) && (forall|t: int| #![trigger d[t]] pc <= t < n - 1 ==> d[t] == d0[t + 1]) && d[n - 1]@ == c }
pub open spec fn new_upper(u0: M, u: M, q: RotateToBack, sp: V, n: int) -> bool { forall|i: int, t: int| #![trigger u(q.fwd()(i), q.fwd()(t))] 0 <= i < n && 0 <= t < n ==> u(q.fwd()(i), q.fwd()(t)) == new_entry(u0, q.index as int, sp, i, t) }
pub proof fn rotated(u0: Cols, u1: Cols, u3: Cols, u4: Cols, u5: Cols, d0: Seq<F>, d5: Seq<F>, sp: Seq<(usize, F)>, q: RotateToBack, n: int)
    requires n >= 2, q.wf(), q.len == n, upper_ok(u0, n), diag_ok(d0, n), zeroed(u0, u1, q.index as int, n), swf(sp, n), sv(sp, q.index as int) != 0real, left_shifted(u1, u3, sp, q.index as int, n), rotating(u3, u4, q, n, n - 1),
      u5.len() == n - 1, forall|k: int| #![trigger u5[k]] 0 <= k < n - 2 ==> u5[k] == u4[k], u5[n - 2]@ == u4[n - 2]@.drop_last(), diag_shifted(d0, d5, q.index as int, n, sv(sp, q.index as int))
    ensures upper_ok(u5, n), diag_ok(d5, n), new_upper(umat(u0, d0), umat(u5, d5), q, svf(sp), n)
{
    let pc = q.index as int; let (f, b) = (q.fwd(), q.bwd()); let (m0, m5) = (umat(u0, d0), umat(u5, d5)); corner_there(u3, u4, sp, q, n);
    let c4 = u4[n - 2]@; let c5 = u5[n - 2]@;
    assert forall|j: int| #![trigger u5[j]] 0 <= j < u5.len() implies swf(u5[j]@, j + 1) by {
        if j == n - 2 { assert(turned_col(c4, sp, q, n)); assert forall|k: int| #![trigger c5[k]] 0 <= k < c5.len() implies c5[k].0 < n - 1 && c5[k].1@ != 0real by { assert(c4[k].0 < c4[c4.len() - 1].0); assert(c4[k] == c5[k]); }
            assert forall|x: int, y: int| #![trigger c5[x], c5[y]] 0 <= x < y < c5.len() implies c5[x].0 < c5[y].0 by { assert(c4[x].0 < c4[y].0); } }
        else if j < dci(pc) { assert(u5[j] == u4[j]); assert(u4[j] == u3[j]); assert(u3[j] == u1[j]); }
        else {
            let c = u5[j]@; assert(u5[j] == u4[j]); let s = u3[j]@; assert(turned_col(u4[j]@, s, q, n)); assert(u3[j] == u1[j + 1]); assert(swf(u1[j + 1]@, j + 2));
            assert forall|k: int| #![trigger c[k]] 0 <= k < c.len() implies c[k].0 < j + 1 by { sv_at(c, k); let e = c[k].0 as int; assert(e < n); assert(c[k].1@ != 0real); assert(sv(c, e) == sv(s, b(e))); if e >= j + 1 { if e < n - 1 { assert(b(e) == e + 1); sv_outside(s, j + 2, e + 1); } else { assert(b(e) == pc); assert(sv(u1[j + 1]@, pc) == 0real); } } }
        }
    }
    assert forall|t: int| #![trigger d5[t]] 0 <= t < n implies d5[t]@ != 0real by { if t < pc { assert(d0[t]@ != 0real); } else if t < n - 1 { assert(d0[t + 1]@ != 0real); } }
    assert forall|i: int, t: int| #![trigger m5(f(i), f(t))] 0 <= i < n && 0 <= t < n implies m5(f(i), f(t)) == new_entry(m0, pc, svf(sp), i, t) by {
        let (fi, ft) = (f(i), f(t)); assert(b(fi) == i && b(ft) == t); assert(0 <= fi < n && 0 <= ft < n);
        if t == pc {
            if i != pc { assert(ft == n - 1 && fi != n - 1); assert(turned_col(c4, sp, q, n)); let z = sv(c4, fi); assert(c5.push(c4.last()) =~= c4); sv_last(c4, fi); assert(sv(c5, fi) == z); }
        } else if t > pc {
            assert(ft == t - 1);
            if i == t { assert(d5[t - 1] == d0[t]); }
            else { assert(fi != ft);
                if ft == 0 { if i != pc { upper_below(u0, d0, n, i, t); } }
                else { let k = t - 2; assert(u5[k] == u4[k]); assert(turned_col(u4[k]@, u3[k]@, q, n)); assert(u3[k] == u1[k + 1]); let z = sv(u4[k]@, fi); assert(z == sv(u1[t - 1]@, i)); }
            }
        } else {
            assert(ft == t);
            if i == t { assert(d5[t] == d0[t]); }
            else { assert(fi != ft);
                if t > 0 { let k = t - 1; assert(u5[k] == u4[k]); assert(u4[k] == u3[k]); assert(u3[k] == u1[k]); let z = sv(u1[k]@, fi); assert(swf(u0[k]@, t)); if i >= pc { assert(fi >= t); sv_outside(u0[k]@, t, fi); if i != pc { upper_below(u0, d0, n, i, t); } } }
            }
        }
    }
}
pub proof fn sv_last(s: Seq<(usize, F)>, i: int) requires s.len() > 0, s.last().0 != i ensures sv(s.drop_last(), i) == sv(s, i) {}
/// the corner value is the pivot times the old diagonal value
pub proof fn corner_value(lu: LUDecomposition, x: Seq<(usize, F)>, spk: Seq<(usize, F)>, r: Seq<(usize, F)>, p: int) requires lu.ok(), 0 <= p < lu.size(), swf(x, lu.size()), swf(spk, lu.size()), matched(lu, x, svf(spk)), eta_row(r, lu.u(), place(lu, p), lu.size())
    ensures sv(spk, place(lu, p)) - dot(r, svf(spk)) == sv(x, p) * lu.u()(place(lu, p), place(lu, p))
{
    let n = lu.size(); let pc = place(lu, p); place_range(lu, p); let u = lu.u(); let c = svf(x); let v: M = |j: int, k: int| pu(lu)(k, j);
    assert forall|k: int| 0 <= k < n implies #[trigger] svf(spk)(k) == cv(n, c, v)(k) by { let d = at_row(pu(lu), k); assert(dot(x, d) == svf(spk)(k)); dot_rsum(x, n, d); assert forall|j: int| 0 <= j < n implies #[trigger] term(x, d)(j) == scaled(c, col(v, k))(j) by {} rsum_ext(n, term(x, d), scaled(c, col(v, k))); }
    dot_ext(r, n, svf(spk), cv(n, c, v)); fubini(r, n, n, c, v);
    let g = scaled(c, dots(r, v)); let f = scaled(c, col(v, pc)); assert(cv(n, c, v)(pc) == svf(spk)(pc)); 
    assert forall|j: int| 0 <= j < n implies #[trigger] dots(r, v)(j) == (if place(lu, j) > pc { u(pc, place(lu, j)) } else { 0real }) by { place_range(lu, j); let t = place(lu, j); assert forall|k: int| 0 <= k < n implies #[trigger] row(v, j)(k) == at_col(u, t)(k) by {} dot_ext(r, n, row(v, j), at_col(u, t)); let z = dot(r, at_col(u, t)); }
    assert forall|j: int| 0 <= j < n && j != p implies #[trigger] f(j) == g(j) by { place_range(lu, j); let t = place(lu, j); assert(t != pc); let z = dots(r, v)(j); if t < pc { upper_below(lu.upper_triangular@, lu.upper_diagonal@, n, pc, t); } }
    rsum_at(n, f, g, p); let z = dots(r, v)(p); let y = c(p); assert(y * 0real == 0real) by(nonlinear_arith); 
}
pub proof fn placed_prefix(ups: Seq<Update>, x: Update, k: int, j: int) requires 0 <= k <= ups.len() ensures placed(ups.push(x), k, j) == placed(ups, k, j) decreases k { if k > 0 { placed_prefix(ups, x, k - 1, j); assert(ups.push(x)[k - 1] == ups[k - 1]); } }
pub proof fn undo_prefix(ups: Seq<Update>, x: Update, k: int, w: V) requires 0 <= k <= ups.len() ensures undo(ups.push(x), k, w) == undo(ups, k, w) decreases k { if k > 0 { assert(ups.push(x)[k - 1] == ups[k - 1]); undo_prefix(ups, x, k - 1, step(ups[k - 1], w)); } }
pub proof fn factors_changed(l0: LUDecomposition, l1: LUDecomposition, p: int, spk: Seq<(usize, F)>, sp: V, b: M, a: V)
    requires l0.ok(), l1.ok(), 0 <= p < l0.size(), l1.row_permutation == l0.row_permutation, l1.column_permutation == l0.column_permutation, l1.lower_triangular == l0.lower_triangular, l1.updates@.len() == l0.updates@.len() + 1, l1.updates@ == l0.updates@.push(l1.updates@.last()),
      l1.updates@.last().1.index == place(l0, p), l1.updates@.last().0.pivot == place(l0, p), eta_row(l1.updates@.last().0.values@, l0.u(), place(l0, p), l0.size()), new_upper(l0.u(), l1.u(), l1.updates@.last().1, sp, l0.size()), agree(sp, lessened(svf(spk), place(l0, p), dot(l1.updates@.last().0.values@, svf(spk))), l0.size()),
      factors(l0, b), spiked(l0, svf(spk), a)
    ensures factors(l1, replaced(b, p, a))
{
    let n = l0.size(); let pc = place(l0, p); let ups = l0.updates@; let kk = ups.len() as int; let x = l1.updates@.last(); let e = x.0.values@; let f = x.1.fwd(); place_range(l0, p);
    assert(l1.updates@[kk] == x); assert(x.0.wf() && x.1.wf() && x.0.len == n && x.1.len == n);
    assert forall|i: int, j: int| #![trigger replaced(b, p, a)(i, j)] 0 <= i < n && 0 <= j < n implies replaced(b, p, a)(i, j) == img(l1, at_col(pu(l1), j))(i) by {
        let w1 = at_col(pu(l1), j); let t = place(l0, j); place_range(l0, j); placed_prefix(ups, x, kk, l0.column_permutation.forward@[j] as int); assert(place(l1, j) == f(t));
        let v = unrot(x.1, w1); let s = step(x, w1); undo_prefix(ups, x, kk, s); assert(undone(l1, w1) == undone(l0, s)); assert(img(l1, w1)(i) == img(l0, s)(i));
        assert forall|k: int| 0 <= k < n implies #[trigger] v(k) == new_entry(l0.u(), pc, sp, k, t) by { assert(l1.u()(f(k), f(t)) == new_entry(l0.u(), pc, sp, k, t)); }
        if j == p {
            let g = svf(spk); let y = lessened(g, pc, dot(e, g));
            assert forall|k: int| 0 <= k < n && k != x.0.pivot implies #[trigger] v(k) == g(k) by { assert(sp(k) == y(k)); } right_of(x.0, v, g, n);
            assert forall|k: int| #![trigger s(k)] #![trigger g(k)] 0 <= k < n implies s(k) == g(k) by { assert(v(k) == sp(k)); assert(sp(k) == y(k)); }
            img_agree(l0, s, g); assert(img(l0, s)(i) == img(l0, g)(i)); assert(img(l0, g)(i) == a(i));
        } else {
            let g = at_col(pu(l0), j); let h = at_col(l0.u(), t); assert(t != pc) by { assert(origin(l0, t) == j && origin(l0, pc) == p); }
            assert forall|k: int| 0 <= k < n && k != x.0.pivot implies #[trigger] v(k) == h(k) by {} right_of(x.0, v, h, n); let z = dot(e, h); if t < pc { upper_below(l0.upper_triangular@, l0.upper_diagonal@, n, pc, t); }
            assert forall|k: int| #![trigger s(k)] #![trigger g(k)] 0 <= k < n implies s(k) == g(k) by { assert(v(k) == new_entry(l0.u(), pc, sp, k, t)); }
            img_agree(l0, s, g); assert(img(l0, s)(i) == img(l0, g)(i)); assert(b(i, j) == img(l0, g)(i));
        }
    }
}
/// a basis of one column
pub proof fn only_changed(l0: LUDecomposition, l1: LUDecomposition, spk: Seq<(usize, F)>, b: M, a: V)
    requires l0.ok(), l1.ok(), l0.size() == 1, l1.row_permutation == l0.row_permutation, l1.column_permutation == l0.column_permutation, l1.lower_triangular == l0.lower_triangular, l1.upper_triangular == l0.upper_triangular, l1.updates == l0.updates, l1.upper_diagonal@[0]@ == sv(spk, 0), spiked(l0, svf(spk), a)
    ensures factors(l1, replaced(b, 0, a))
{
    assert forall|i: int, j: int| #![trigger replaced(b, 0, a)(i, j)] 0 <= i < 1 && 0 <= j < 1 implies replaced(b, 0, a)(i, j) == img(l1, at_col(pu(l1), j))(i) by {
        place_range(l1, 0); let w1 = at_col(pu(l1), 0); let g = svf(spk);
        assert forall|k: int| #![trigger w1(k)] #![trigger g(k)] 0 <= k < 1 implies w1(k) == g(k) by {}
        img_agree(l1, w1, g); assert(img(l1, w1)(0) == img(l1, g)(0)); assert(undone(l1, g) == undone(l0, g)); assert(img(l1, g)(0) == img(l0, g)(0)); assert(img(l0, g)(0) == a(0));
    }
}
pub proof fn one_corner(lu: LUDecomposition, x: Seq<(usize, F)>, spk: Seq<(usize, F)>) requires lu.ok(), lu.size() == 1, swf(x, 1), swf(spk, 1), matched(lu, x, svf(spk)), sv(x, 0) != 0real ensures spk.len() > 0, spk[0].1@ == sv(spk, 0), sv(spk, 0) != 0real {
    place_range(lu, 0); let e = Seq::<(usize, F)>::empty(); 
    assert forall|t: int| #![trigger dot(e, at_col(lu.u(), t))] 0 <= t < 1 implies dot(e, at_col(lu.u(), t)) == (if t > 0 { lu.u()(0, t) } else { 0real }) by {}
    corner_value(lu, x, spk, e, 0); let (g, h) = (sv(x, 0), lu.u()(0, 0)); assert(h == lu.upper_diagonal@[0]@); assert(g * h != 0real) by(nonlinear_arith) requires g != 0real, h != 0real;
    if spk.len() == 0 { sv_absent(spk, 0); } let z = spk[0]; assert(z.0 < 1); sv_at(spk, 0);
}
