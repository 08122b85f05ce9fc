// What the LU factorisation denotes.
pub open spec fn found(s: Seq<(usize, F)>, k: usize, r: Result<usize, usize>) -> bool { match r { Ok(i) => i < s.len() && s[i as int].0 == k, Err(i) => i <= s.len() && (forall|a: int| #![trigger s[a]] 0 <= a < i ==> s[a].0 < k) && forall|a: int| #![trigger s[a]] i <= a < s.len() ==> s[a].0 > k } }
//%%item src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/eta_file.rs EtaFile
//%%end
impl EtaFile {
    /// the row has entries right of the diagonal only
    pub open spec fn wf(&self) -> bool { swf(self.values@, self.len as int) && self.pivot < self.len && forall|k: int| #![trigger self.values@[k]] 0 <= k < self.values@.len() ==> self.values@[k].0 > self.pivot }
    pub open spec fn row(&self) -> V { svf(self.values@) }
}
/// x without c times the row r at one place
pub open spec fn lessened(x: V, p: int, c: real) -> V { |i: int| x(i) - (if i == p { c } else { 0real }) }
pub proof fn dot_stop(s: Seq<(usize, F)>, d: V, k: int) requires 0 <= k <= s.len(), forall|a: int| #![trigger s[a]] k <= a < s.len() ==> d(s[a].0 as int) == 0real ensures dot(s, d) == dot(s.subrange(0, k), d) decreases s.len() - k {
    if k < s.len() { dot_stop(s, d, k + 1); dot_step(s, k, d); let x = s[k].1@; assert(x * 0real == 0real) by(nonlinear_arith); } else { assert(s.subrange(0, k) =~= s); }
}
/// t are the terms of the product of s and d at the places m; the other terms are zero
pub open spec fn some_terms(t: Seq<F>, m: Seq<int>, s: Seq<(usize, F)>, d: V) -> bool {
    m.len() == t.len() && increasing(m) && (forall|j: int| #![trigger m[j]] #![trigger t[j]] 0 <= j < m.len() ==> 0 <= m[j] < s.len() && t[j]@ == s[m[j]].1@ * d(s[m[j]].0 as int))
    && forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> d(s[i].0 as int) == 0real || exists|j: int| 0 <= j < m.len() && #[trigger] m[j] == i
}
pub proof fn some_sum(t: Seq<F>, m: Seq<int>, s: Seq<(usize, F)>, d: V) requires some_terms(t, m, s, d) ensures ssum(t) == dot(s, d) decreases s.len() {
    let n = s.len() as int;
    if n == 0 { if t.len() > 0 { let z = m[0]; assert(0 <= z < 0); } } else {
        let s1 = s.drop_last(); let l = t.len() - 1;
        if t.len() > 0 && m[l] == n - 1 {
            let (t1, m1) = (t.drop_last(), m.drop_last());
            assert forall|j: int| #![trigger m1[j]] #![trigger t1[j]] 0 <= j < m1.len() implies 0 <= m1[j] < s1.len() && t1[j]@ == s1[m1[j]].1@ * d(s1[m1[j]].0 as int) by { assert(m[j] < m[l]); assert(t[j] == t1[j]); assert(s1[m[j]] == s[m[j]]); }
            assert forall|i: int| #![trigger s1[i]] 0 <= i < s1.len() implies d(s1[i].0 as int) == 0real || exists|j: int| 0 <= j < m1.len() && #[trigger] m1[j] == i by { assert(s1[i] == s[i]); if d(s[i].0 as int) != 0real { let j = choose|j: int| 0 <= j < m.len() && #[trigger] m[j] == i; assert(m1[j] == i); } }
            some_sum(t1, m1, s1, d); assert(t[l]@ == s[n - 1].1@ * d(s[n - 1].0 as int));
        } else {
            assert forall|j: int| #![trigger m[j]] #![trigger t[j]] 0 <= j < m.len() implies 0 <= m[j] < s1.len() && t[j]@ == s1[m[j]].1@ * d(s1[m[j]].0 as int) by { assert(0 <= m[j] < n); if m[j] == n - 1 { if j < l { assert(m[j] < m[l]); } } assert(s1[m[j]] == s[m[j]]); assert(t[j]@ == s[m[j]].1@ * d(s[m[j]].0 as int)); }
            assert forall|i: int| #![trigger s1[i]] 0 <= i < s1.len() implies d(s1[i].0 as int) == 0real || exists|j: int| 0 <= j < m.len() && #[trigger] m[j] == i by { assert(s1[i] == s[i]); }
            if d(s[n - 1].0 as int) != 0real { let j = choose|j: int| 0 <= j < m.len() && #[trigger] m[j] == n - 1; if j < l { assert(m[j] < m[l]); assert(m[l] < n); } }
            some_sum(t, m, s1, d); let x = s[n - 1].1@; assert(x * 0real == 0real) by(nonlinear_arith);
        }
    }
}

//%%item src/data/linear_algebra/vector/sparse.rs Sparse
//%%end
impl Sparse {
    pub open spec fn wf(&self) -> bool { swf(self.data@, self.len as int) }
    pub open spec fn at(&self, i: int) -> real { sv(self.data@, i) }
}
/// an ordered map with numbers as keys (`std::collections::BTreeMap<usize, F>`)
#[verifier::external_body] pub struct BMap { x: u8 }
impl View for BMap { type V = Map<usize, F>; uninterp spec fn view(&self) -> Map<usize, F>; }
impl BMap {
    #[verifier::external_body] pub fn pop_first(&mut self) -> (r: Option<(usize, F)>)
        ensures r is None ==> final(self)@ == old(self)@ && forall|k: usize| !(#[trigger] old(self)@.contains_key(k)),
          r is Some ==> old(self)@.contains_key((r->0).0) && old(self)@[(r->0).0] == (r->0).1 && final(self)@ == old(self)@.remove((r->0).0) && forall|k: usize| #[trigger] old(self)@.contains_key(k) ==> (r->0).0 <= k { unimplemented!() }
    #[verifier::external_body] pub fn pop_last(&mut self) -> (r: Option<(usize, F)>)
        ensures r is None ==> final(self)@ == old(self)@ && forall|k: usize| !(#[trigger] old(self)@.contains_key(k)),
          r is Some ==> old(self)@.contains_key((r->0).0) && old(self)@[(r->0).0] == (r->0).1 && final(self)@ == old(self)@.remove((r->0).0) && forall|k: usize| #[trigger] old(self)@.contains_key(k) ==> (r->0).0 >= k { unimplemented!() }
    #[verifier::external_body] pub fn v_get_mut<'a>(&'a mut self, k: &usize) -> (r: Option<&'a mut F>)
        ensures r is None ==> !old(self)@.contains_key(*k) && final(self)@ == old(self)@, r is Some ==> old(self)@.contains_key(*k) && *(r->0) == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(r->0)) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: usize, v: F) -> (r: Option<F>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &usize) -> (r: Option<F>) ensures final(self)@ == old(self)@.remove(*k) { unimplemented!() }
}
/// the map has the last value given for each key
pub open spec fn map_of(m: Map<usize, F>, s: Seq<(usize, F)>) -> bool {
    (forall|j: int| #![trigger s[j]] 0 <= j < s.len() ==> m.contains_key(s[j].0))
    && forall|k: usize| #[trigger] m.contains_key(k) ==> exists|j: int| 0 <= j < s.len() && #[trigger] s[j] == (k, m[k]) && forall|l: int| j < l < s.len() ==> (#[trigger] s[l]).0 != k
}
impl VIter<(usize, F)> { #[verifier::external_body] fn v_collect_map_raw(self) -> (r: BMap) ensures map_of(r@, self@) { unimplemented!() } }
/// the number at a place
pub open spec fn mv(m: Map<usize, F>, i: int) -> real { if 0 <= i <= usize::MAX && m.contains_key(i as usize) { m[i as usize]@ } else { 0real } }
pub open spec fn mwf(m: Map<usize, F>, n: int) -> bool { forall|k: usize| #[trigger] m.contains_key(k) ==> k < n && m[k]@ != 0real }
pub open spec fn from(m: Map<usize, F>, a: int) -> bool { forall|k: usize| #[trigger] m.contains_key(k) ==> a <= k }
pub open spec fn upto(m: Map<usize, F>, a: int) -> bool { forall|k: usize| #[trigger] m.contains_key(k) ==> k < a }
pub open spec fn below_all(s: Seq<(usize, F)>, a: int) -> bool { forall|k: int| #![trigger s[k]] 0 <= k < s.len() ==> s[k].0 < a }
pub open spec fn from_all(s: Seq<(usize, F)>, a: int) -> bool { forall|k: int| #![trigger s[k]] 0 <= k < s.len() ==> s[k].0 >= a }
//%%item src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/mod.rs ColumnAndSpike
//%%end
//%%item src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/mod.rs LUDecomposition
//%%end
pub open spec fn lower_ok(s: Seq<Vec<(usize, F)>>, n: int) -> bool { s.len() == (if n == 0 { 0 } else { n - 1 }) && forall|j: int| #![trigger s[j]] 0 <= j < s.len() ==> swf(s[j]@, n) && from_all(s[j]@, j + 1) }
pub open spec fn upper_ok(s: Seq<Vec<(usize, F)>>, n: int) -> bool { s.len() == (if n == 0 { 0 } else { n - 1 }) && forall|j: int| #![trigger s[j]] 0 <= j < s.len() ==> swf(s[j]@, j + 1) }
pub open spec fn diag_ok(s: Seq<F>, n: int) -> bool { s.len() == n && forall|j: int| #![trigger s[j]] 0 <= j < s.len() ==> s[j]@ != 0real }
pub open spec fn updates_ok(s: Seq<(EtaFile, RotateToBack)>, n: int) -> bool { forall|k: int| #![trigger s[k]] 0 <= k < s.len() ==> s[k].0.wf() && s[k].0.len == n && s[k].1.wf() && s[k].1.len == n }
pub open spec fn lmat(lower: Seq<Vec<(usize, F)>>) -> M { |i: int, j: int| if i == j { 1real } else if 0 <= j < lower.len() { sv(lower[j]@, i) } else { 0real } }
pub open spec fn umat(upper: Seq<Vec<(usize, F)>>, diag: Seq<F>) -> M { |i: int, j: int| if i == j { diag[j]@ } else if 0 < j <= upper.len() { sv(upper[j - 1]@, i) } else { 0real } }
impl LUDecomposition {
    pub open spec fn size(&self) -> int { self.row_permutation.forward@.len() as int }
    pub open spec fn ok(&self) -> bool { let n = self.size(); self.row_permutation.wf() && self.column_permutation.wf() && self.column_permutation.forward@.len() == n && lower_ok(self.lower_triangular@, n) && upper_ok(self.upper_triangular@, n) && diag_ok(self.upper_diagonal@, n) && updates_ok(self.updates@, n) }
    pub open spec fn l(&self) -> M { lmat(self.lower_triangular@) }
    pub open spec fn u(&self) -> M { umat(self.upper_triangular@, self.upper_diagonal@) }
}
pub open spec fn at_row(v: M, i: int) -> V { row(v, i) }
pub open spec fn at_col(v: M, k: int) -> V { col(v, k) }
pub proof fn dot_push(s: Seq<(usize, F)>, x: (usize, F), d: V) ensures dot(s.push(x), d) == dot(s, d) + x.1@ * d(x.0 as int) { assert(s.push(x).drop_last() =~= s); }
pub proof fn dot_front(x: (usize, F), s: Seq<(usize, F)>, d: V) ensures dot(seq![x] + s, d) == x.1@ * d(x.0 as int) + dot(s, d) decreases s.len() {
    let t = seq![x] + s; if s.len() == 0 { assert(t =~= Seq::empty().push(x)); dot_push(Seq::empty(), x, d); } else { let s1 = s.drop_last(); dot_front(x, s1, d); assert(t =~= (seq![x] + s1).push(s.last())); dot_push(seq![x] + s1, s.last(), d); }
}
pub proof fn dot_rev(s: Seq<(usize, F)>, d: V) ensures dot(rev_seq(s), d) == dot(s, d) decreases s.len() {
    if s.len() > 0 { let s1 = s.drop_last(); dot_rev(s1, d); assert(rev_seq(s) =~= seq![s.last()] + rev_seq(s1)); dot_front(s.last(), rev_seq(s1), d); } else { assert(rev_seq(s) =~= s); }
}

pub open spec fn descending(s: Seq<(usize, F)>) -> bool { forall|a: int, b: int| #![trigger s[a], s[b]] 0 <= a < b < s.len() ==> s[a].0 > s[b].0 }
pub proof fn turned(s: Seq<(usize, F)>, n: int) requires descending(s), bounded(s, n), nonzero(s) ensures swf(rev_seq(s), n), forall|d: V| #![trigger dot(rev_seq(s), d)] dot(rev_seq(s), d) == dot(s, d) {
    let r = rev_seq(s); assert forall|k: int| #![trigger r[k]] 0 <= k < r.len() implies r[k].0 < n && r[k].1@ != 0real by { assert(r[k] == s[s.len() - 1 - k]); }
    assert forall|d: V| #![trigger dot(rev_seq(s), d)] dot(rev_seq(s), d) == dot(s, d) by { dot_rev(s, d); }
}
pub proof fn lower_above(s: Seq<Vec<(usize, F)>>, n: int, i: int, j: int) requires lower_ok(s, n), i < j, 0 <= j ensures lmat(s)(i, j) == 0real { if j < s.len() { assert forall|k: int| 0 <= k < s[j]@.len() implies (#[trigger] s[j]@[k]).0 != i by { assert(s[j]@[k].0 >= j + 1); } sv_absent(s[j]@, i); } }
pub proof fn upper_below(s: Seq<Vec<(usize, F)>>, d: Seq<F>, n: int, i: int, j: int) requires upper_ok(s, n), i > j, 0 <= j ensures umat(s, d)(i, j) == 0real { if 0 < j <= s.len() { assert forall|k: int| 0 <= k < s[j - 1]@.len() implies (#[trigger] s[j - 1]@[k]).0 != i by { assert(s[j - 1]@[k].0 < j); } sv_absent(s[j - 1]@, i); } }
#[verifier::external_body] pub fn v_once(x: (usize, F)) -> (r: VIter<(usize, F)>) ensures r@ == seq![x] { unimplemented!() }
pub trait VOptionCloned { spec fn inner(&self) -> Option<F>; fn v_cloned(self) -> (r: Option<F>) where Self: Sized ensures r == self.inner(); }
impl VOptionCloned for Option<&F> { open spec fn inner(&self) -> Option<F> { match *self { Some(x) => Some(*x), None => None } } fn v_cloned(self) -> (r: Option<F>) { match self { Some(x) => Some(x.v_clone()), None => None } } }
