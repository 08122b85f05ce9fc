//%%types IM=Carry; Tableau<IM,K>=Tableau; IM::F=F; IM::ColumnComputationInfo=Info; K::Column=Col; HashSet<usize>=std::collections::HashSet<usize>
//%%item src/algorithm/two_phase/tableau/mod.rs Tableau
//%%end
broadcast use vstd::std_specs::hash::group_hash_axioms;
/// the order in which a set is walked through
pub uninterp spec fn hash_order(s: std::collections::HashSet<usize>) -> Seq<usize>;
#[verifier::external_body] pub proof fn axiom_hash_order(s: std::collections::HashSet<usize>) ensures hash_order(s).no_duplicates(), forall|x: usize| #![trigger s@.contains(x)] s@.contains(x) == hash_order(s).contains(x) {}
impl VIterable for std::collections::HashSet<usize> { type T = usize; open spec fn seq_of(&self) -> Seq<usize> { hash_order(*self) } #[verifier::external_body] fn v_iter<'a>(&'a self) -> VIter<&'a usize> { unimplemented!() } }
impl VIntoIter for std::collections::HashSet<usize> { type Item = usize; open spec fn into_seq(self) -> Seq<usize> { hash_order(self) } #[verifier::external_body] fn v_into_iter(self) -> VIter<usize> { unimplemented!() } }
/// column j is one of the basis
pub open spec fn is_basic(basis: Seq<usize>, j: int) -> bool { exists|i: int| 0 <= i < basis.len() && #[trigger] basis[i] == j }
impl Tableau {
    pub open spec fn p(&self) -> Lp { self.kind.lp() }
    pub open spec fn basis(&self) -> Seq<usize> { self.inverse_maintainer.basis_indices@ }
    pub open spec fn b(&self) -> Seq<F> { self.inverse_maintainer.b.data@ }
    pub open spec fn inv(&self) -> M { self.inverse_maintainer.basis_inverse.inv() }
    pub open spec fn n(&self) -> int { self.p().n }
    pub open spec fn first(&self) -> int { self.kind.start() }
    pub open spec fn basic(&self, j: int) -> bool { is_basic(self.basis(), j) }
    /// reduced cost
    pub open spec fn rc(&self, j: int) -> real { reduced(self.basis(), self.inv(), self.p(), j) }
    /// squared length of the edge along column j
    pub open spec fn gam(&self, j: int) -> real { 1real + sqnorm(self.p().m, dots((self.p().a)(j), self.inv())) }
    /// a column the rules may choose
    pub open spec fn cand(&self, j: int) -> bool { self.first() <= j < self.n() && !self.basic(j) }
    pub open spec fn improving(&self, j: int) -> bool { self.cand(j) && self.rc(j) < 0real }
    #[verifier::external_body] pub fn nr_artificial_variables(&self) -> (r: usize) ensures r == self.kind.start() { unimplemented!() }
    #[verifier::external_body] pub fn start_index(&self) -> (r: usize) ensures r == self.kind.start() { unimplemented!() }
    /// everything stored is what the basis determines
    pub open spec fn holds(&self) -> bool {
        self.inverse_maintainer.holds(self.p()) && 0 <= self.first() <= self.n() <= usize::MAX && forall|j: usize| #![trigger self.basis_columns@.contains(j)] self.basis_columns@.contains(j) == is_basic(self.basis(), j as int)
    }
}
pub open spec fn sqnorm(m: int, f: V) -> real { rsum(m, scaled(f, f)) }
pub proof fn sqnorm_nonneg(m: int, f: V) ensures sqnorm(m, f) >= 0real { assert forall|i: int| 0 <= i < m implies #[trigger] scaled(f, f)(i) >= 0real by { let x = f(i); assert(x * x >= 0real) by(nonlinear_arith); } rsum_nonneg(m, scaled(f, f)); }
pub proof fn different(v: M, basis: Seq<usize>, p: Lp) requires inrange(basis, p), inverts(v, basis, p) ensures distinct(basis) {
    assert forall|i: int, j: int| #![trigger basis[i], basis[j]] 0 <= i < j < basis.len() implies basis[i] != basis[j] by {
        if basis[i] == basis[j] { assert(dot((p.a)(basis[j] as int), row(v, i)) == delta(i, j)); assert(dot((p.a)(basis[i] as int), row(v, i)) == delta(i, i)); }
    }
}
/// the row the ratio test is at after n entries of the column
pub open spec fn leaving(s: Seq<(usize, F)>, n: int, b: Seq<F>, basis: Seq<usize>, x: Option<(usize, F, usize)>) -> bool {
    (x is None ==> forall|k: int| #![trigger s[k]] 0 <= k < n ==> s[k].1@ <= 0real)
    && (x is Some ==> leaving_row(s, n, b, basis, (x->0).0, (x->0).1@, (x->0).2))
}
pub open spec fn leaving_row(s: Seq<(usize, F)>, n: int, b: Seq<F>, basis: Seq<usize>, row: usize, ratio: real, column: usize) -> bool {
    (exists|k: int| 0 <= k < n && (#[trigger] s[k]).0 == row && s[k].1@ > 0real && ratio == b[row as int]@ / s[k].1@) && column == basis[row as int]
    && forall|k: int| #![trigger s[k]] 0 <= k < n && s[k].1@ > 0real ==> ratio <= b[s[k].0 as int]@ / s[k].1@ && (ratio == b[s[k].0 as int]@ / s[k].1@ ==> column <= basis[s[k].0 as int])
}
/// of the rows with the smallest ratio, the one whose basic variable has the smallest index
pub open spec fn first_index(b: V, w: V, basis: Seq<usize>, r: int) -> bool { forall|k: int| #![trigger w(k)] 0 <= k < basis.len() && w(k) > 0real && b(k) / w(k) == b(r) / w(r) ==> basis[r] <= basis[k] }
pub proof fn selected(s: Seq<(usize, F)>, b: Seq<F>, basis: Seq<usize>, x: Option<(usize, F, usize)>)
    requires swf(s, b.len() as int), basis.len() == b.len(), leaving(s, s.len() as int, b, basis, x)
    ensures x is None ==> forall|i: int| #![trigger sv(s, i)] 0 <= i < b.len() ==> sv(s, i) <= 0real,
      x is Some ==> first_blocked(num(b), svf(s), b.len() as int, (x->0).0 as int) && first_index(num(b), svf(s), basis, (x->0).0 as int)
{
    let m = b.len() as int;
    assert forall|i: int| #![trigger sv(s, i)] 0 <= i < m && sv(s, i) > 0real implies exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).0 == i && s[k].1@ == sv(s, i) by {
        if forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]).0 != i { sv_absent(s, i); } else { let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).0 == i; sv_at(s, k); }
    }
    if x is None { assert forall|i: int| #![trigger sv(s, i)] 0 <= i < m implies sv(s, i) <= 0real by { if sv(s, i) > 0real { let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).0 == i && s[k].1@ == sv(s, i); assert(s[k].1@ <= 0real); } } }
    if x is Some {
        let r = (x->0).0; let k0 = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).0 == r && s[k].1@ > 0real && (x->0).1@ == b[r as int]@ / s[k].1@; sv_at(s, k0);
        assert forall|i: int| #![trigger svf(s)(i)] 0 <= i < m && svf(s)(i) > 0real implies num(b)(r as int) / svf(s)(r as int) <= num(b)(i) / svf(s)(i) && (num(b)(r as int) / svf(s)(r as int) == num(b)(i) / svf(s)(i) ==> basis[r as int] <= basis[i]) by {
            assert(sv(s, i) > 0real); let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).0 == i && s[k].1@ == sv(s, i); assert(s[k].1@ > 0real);
        }
    }
}
/// what the point of a basis is at a column
pub proof fn basic_at(f: V, basis: Seq<usize>, m: int, i: int) requires distinct(basis), basis.len() == m, 0 <= i < m ensures spread(f, basis, m)(basis[i] as int) == f(i) {
    let j = basis[i] as int; let g = row(cell(f, basis), j);
    assert forall|k: int| 0 <= k < m && k != i implies #[trigger] g(k) == 0real by { if k < i { assert(basis[k] != basis[i]); } else { assert(basis[i] != basis[k]); } let y = f(k); assert(0real * y == 0real) by(nonlinear_arith); }
    rsum_only(m, g, i); let y = f(i); assert(1real * y == y) by(nonlinear_arith);
}
pub proof fn basic_not(f: V, basis: Seq<usize>, m: int, j: int) requires !is_basic(basis, j), basis.len() == m ensures spread(f, basis, m)(j) == 0real {
    let g = row(cell(f, basis), j);
    assert forall|k: int| 0 <= k < m implies #[trigger] g(k) == 0real by { assert(basis[k] != j); let y = f(k); assert(0real * y == 0real) by(nonlinear_arith); }
    rsum_zero(m, g);
}
/// every index of a range is in its sequence
pub open spec fn in_range(n: int) -> bool { let s = VIntoIter::into_seq(core::ops::Range { start: 0usize, end: n as usize }); s.len() == n && forall|i: int| #![trigger s[i]] 0 <= i < n ==> s[i] == i }
pub proof fn lemma_in_range(n: int) requires 0 <= n <= usize::MAX ensures in_range(n) {}
pub proof fn bfs_entry(t: Seq<(usize, F)>, basis: Seq<usize>, b: Seq<F>, k: int) -> (i: int) requires only_rows(t, basis, b), 0 <= k < t.len() ensures 0 <= i < b.len(), t[k].0 == basis[i], t[k].1@ == b[i]@, t[k].1@ != 0real {
    reveal(only_rows); assert(row_in(t, basis, b, k)); choose|i: int| #![trigger basis[i]] 0 <= i < b.len() && t[k].0 == basis[i] && t[k].1@ == b[i]@
}
pub proof fn bfs_row(t: Seq<(usize, F)>, basis: Seq<usize>, b: Seq<F>, i: int) -> (k: int) requires all_rows(t, basis, b), 0 <= i < b.len(), b[i]@ != 0real ensures 0 <= k < t.len(), t[k].0 == basis[i], t[k].1@ == b[i]@ {
    reveal(all_rows); choose|k: int| 0 <= k < t.len() && (#[trigger] t[k]).0 == basis[i] && t[k].1@ == b[i]@
}
pub proof fn bfs_value(t: Seq<(usize, F)>, b: Seq<F>, basis: Seq<usize>, m: int, j: int)
    requires ssorted(t), only_rows(t, basis, b), all_rows(t, basis, b), basis.len() == m, b.len() == m, distinct(basis)
    ensures sv(t, j) == spread(num(b), basis, m)(j)
{
    if exists|k: int| 0 <= k < t.len() && (#[trigger] t[k]).0 == j {
        let k = choose|k: int| 0 <= k < t.len() && (#[trigger] t[k]).0 == j; sv_at(t, k); let i = bfs_entry(t, basis, b, k); basic_at(num(b), basis, m, i);
    } else {
        sv_absent(t, j);
        if is_basic(basis, j) { let i = choose|i: int| 0 <= i < basis.len() && #[trigger] basis[i] == j; basic_at(num(b), basis, m, i); if b[i]@ != 0real { let k = bfs_row(t, basis, b, i); assert(t[k].0 == j); } } else { basic_not(num(b), basis, m, j); }
    }
}
/// the list of nonzero variables is the point of the basis
pub proof fn bfs_point(t: Seq<(usize, F)>, b: Seq<F>, basis: Seq<usize>, p: Lp)
    requires bfs_of(t, basis, b), inrange(basis, p), distinct(basis), b.len() == p.m
    ensures swf(t, p.n), forall|j: int| #![trigger sv(t, j)] 0 <= j < p.n ==> sv(t, j) == basic(b, basis, p)(j)
{
    assert forall|k: int| #![trigger t[k]] 0 <= k < t.len() implies t[k].0 < p.n && t[k].1@ != 0real by { let i = bfs_entry(t, basis, b, k); assert(basis[i] < p.n); }
    assert forall|j: int| #![trigger sv(t, j)] 0 <= j < p.n implies sv(t, j) == basic(b, basis, p)(j) by { bfs_value(t, b, basis, p.m, j); }
}
/// what is told about the change from basis o with inverse v to basis n with inverse u
pub open spec fn change(x: BasisChangeComputationInfo, p: Lp, o: Seq<usize>, v: M, n: Seq<usize>, u: M) -> bool {
    x.pivot_row_index < p.m && x.pivot_column_index < p.n && !is_basic(o, x.pivot_column_index as int) && inverts(v, o, p) && inrange(o, p) && x.leaving_column_index == o[x.pivot_row_index as int] && n == o.update(x.pivot_row_index as int, x.pivot_column_index)
    && pivoted(v, u, dots((p.a)(x.pivot_column_index as int), v), x.pivot_row_index as int, p.m) && dots((p.a)(x.pivot_column_index as int), v)(x.pivot_row_index as int) != 0real
    && x.column_before_change.wf() && x.column_before_change.len == p.m && (forall|i: int| #![trigger x.column_before_change.at(i)] 0 <= i < p.m ==> x.column_before_change.at(i) == dots((p.a)(x.pivot_column_index as int), v)(i))
    && x.work_vector.wf() && x.work_vector.len == p.m && (forall|k: int| #![trigger x.work_vector.at(k)] 0 <= k < p.m ==> x.work_vector.at(k) == cv(p.m, dots((p.a)(x.pivot_column_index as int), v), v)(k))
    && x.basis_inverse_row.wf() && x.basis_inverse_row.len == p.m && forall|k: int| #![trigger x.basis_inverse_row.at(k)] 0 <= k < p.m ==> x.basis_inverse_row.at(k) == u(x.pivot_row_index as int, k)
}
pub proof fn new_basic(v: M, o: Seq<usize>, p: Lp, r: int, q: usize, before: Set<usize>, after: Set<usize>)
    requires inrange(o, p), inverts(v, o, p), 0 <= r < p.m, !is_basic(o, q as int), forall|j: usize| #![trigger before.contains(j)] before.contains(j) == is_basic(o, j as int), after == before.remove(o[r]).insert(q)
    ensures forall|j: usize| #![trigger after.contains(j)] after.contains(j) == is_basic(o.update(r, q), j as int)
{
    let n = o.update(r, q); different(v, o, p);
    assert forall|j: usize| #![trigger after.contains(j)] after.contains(j) == is_basic(n, j as int) by {
        assert(before.contains(j) == is_basic(o, j as int));
        if is_basic(n, j as int) { let i = choose|i: int| 0 <= i < n.len() && #[trigger] n[i] == j; if i != r { assert(o[i] == j); } }
        if j == q { assert(n[r] == j); }
        if is_basic(o, j as int) && j != o[r] { let i = choose|i: int| 0 <= i < o.len() && #[trigger] o[i] == j; assert(n[i] == j); }
    }
}
/// what a pricing rule answers: an improving column and its reduced cost, or nothing if there is none
pub open spec fn picks(t: &Tableau, r: Option<(usize, F)>) -> bool {
    (r is Some ==> t.improving((r->0).0 as int) && (r->0).1@ == t.rc((r->0).0 as int))
    && (r is None ==> forall|j: int| #![trigger t.rc(j)] t.cand(j) ==> t.rc(j) >= 0real)
}
/// squared edge lengths of the columns outside the basis
pub open spec fn norms(g: Seq<Option<F>>, p: Lp, basis: Seq<usize>, v: M, first: int) -> bool {
    g.len() == p.n && forall|j: int| #![trigger g[j]] first <= j < p.n ==> (g[j] is Some == !is_basic(basis, j)) && (g[j] is Some ==> g[j]->0@ == 1real + sqnorm(p.m, dots((p.a)(j), v)))
}
/// these norms belong to the basis before the change
pub open spec fn ready(g: Seq<Option<F>>, x: BasisChangeComputationInfo, t: &Tableau) -> bool { exists|o: Seq<usize>, v: M| #![trigger change(x, t.p(), o, v, t.basis(), t.inv())] change(x, t.p(), o, v, t.basis(), t.inv()) && norms(g, t.p(), o, v, t.first()) }
pub proof fn sqnorm_least(m: int, f: V, r: int) requires 0 <= r < m ensures sqnorm(m, f) >= f(r) * f(r) {
    let z: V = |i: int| if i == r { 0real } else { scaled(f, f)(i) };
    assert forall|i: int| 0 <= i < m implies #[trigger] z(i) >= 0real by { let x = f(i); assert(x * x >= 0real) by(nonlinear_arith); }
    rsum_nonneg(m, z); rsum_at(m, scaled(f, f), z, r);
}
/// the squared length of column j after a change of basis
pub proof fn norm_changed(s: Seq<(usize, F)>, v: M, u: M, w: V, r: int, m: int)
    requires bounded(s, m), 0 <= r < m, w(r) != 0real, pivoted(v, u, w, r, m)
    ensures ({ let a = dot(s, row(u, r)); sqnorm(m, dots(s, u)) == sqnorm(m, dots(s, v)) - 2real * (a * rsum(m, scaled(w, dots(s, v)))) + a * a * (1real + sqnorm(m, w)) && sqnorm(m, dots(s, u)) >= a * a && a == dots(s, v)(r) / w(r) })
{
    let (d, n) = (dots(s, v), dots(s, u)); let a = n(r);
    assert forall|i: int| 0 <= i < m implies #[trigger] n(i) == elim(d, w, r, i) by { pivoted_dot(s, v, u, w, r, m, i); }
    assert(n(r) == d(r) / w(r));
    let e1: V = |i: int| scaled(d, d)(i) + (-2real * a) * scaled(w, d)(i);
    let e: V = |i: int| e1(i) + (a * a) * scaled(w, w)(i);
    rsum_comb(m, scaled(d, d), scaled(w, d), e1, -2real * a); rsum_comb(m, e1, scaled(w, w), e, a * a);
    assert forall|i: int| 0 <= i < m && i != r implies #[trigger] scaled(n, n)(i) == e(i) by {
        let (x, y) = (d(i), w(i)); assert(n(i) == x - y * a); assert((x - y * a) * (x - y * a) == (x * x + (-2real * a) * (y * x)) + (a * a) * (y * y)) by(nonlinear_arith);
    }
    let (x, y) = (d(r), w(r)); assert(x == a * y) by(nonlinear_arith) requires a == x / y, y != 0real;
    assert((x * x + (-2real * a) * (y * x)) + (a * a) * (y * y) == 0real) by(nonlinear_arith) requires x == a * y;
    assert(e(r) == 0real);
    rsum_at(m, scaled(n, n), e, r); sqnorm_least(m, n, r);
    let (b, c) = (rsum(m, scaled(w, d)), sqnorm(m, w));
    assert((-2real * a) * b == -(2real * (a * b)) && (a * a) * (1real + c) == a * a + (a * a) * c) by(nonlinear_arith);
}
/// the column stands for column q
pub open spec fn shows(c: Sparse, t: &Tableau, q: int) -> bool { c.wf() && c.len == t.p().m && 0 <= q < t.n() && forall|i: int| #![trigger c.at(i)] 0 <= i < t.p().m ==> c.at(i) == dots((t.p().a)(q), t.inv())(i) }
pub open spec fn blocks(c: Sparse, t: &Tableau, r: int) -> bool { first_blocked(num(t.b()), svf(c.data@), t.p().m, r) }
pub open spec fn unblocked(c: Sparse, t: &Tableau) -> bool { forall|i: int| #![trigger c.at(i)] 0 <= i < t.p().m ==> c.at(i) <= 0real }
