// ---- sums, matrices given by their entries, bases ----
pub type M = spec_fn(int, int) -> real;
pub type V = spec_fn(int) -> real;
pub open spec fn rsum(n: int, f: V) -> real decreases n { if n <= 0 { 0real } else { rsum(n - 1, f) + f(n - 1) } }
pub open spec fn row(v: M, i: int) -> V { |k: int| v(i, k) }
pub open spec fn col(v: M, k: int) -> V { |i: int| v(i, k) }
pub open spec fn delta(i: int, j: int) -> real { if i == j { 1real } else { 0real } }
pub open spec fn num(s: Seq<F>) -> V { |i: int| s[i]@ }
pub open spec fn svf(s: Seq<(usize, F)>) -> V { |i: int| sv(s, i) }
pub proof fn rsum_ext(n: int, f: V, g: V) requires forall|i: int| 0 <= i < n ==> #[trigger] f(i) == g(i) ensures rsum(n, f) == rsum(n, g) decreases n { if n > 0 { rsum_ext(n - 1, f, g); assert(f(n - 1) == g(n - 1)); } }
/// g = d + a e, index by index
pub proof fn rsum_comb(n: int, d: V, e: V, g: V, a: real) requires forall|i: int| 0 <= i < n ==> #[trigger] g(i) == d(i) + a * e(i) ensures rsum(n, g) == rsum(n, d) + a * rsum(n, e) decreases n {
    if n > 0 {
        rsum_comb(n - 1, d, e, g, a); assert(g(n - 1) == d(n - 1) + a * e(n - 1));
        let (x, y) = (rsum(n - 1, e), e(n - 1)); assert(a * (x + y) == a * x + a * y) by(nonlinear_arith);
    } else { assert(a * 0real == 0real) by(nonlinear_arith); }
}
pub proof fn rsum_zero(n: int, f: V) requires forall|i: int| 0 <= i < n ==> #[trigger] f(i) == 0real ensures rsum(n, f) == 0real decreases n { if n > 0 { rsum_zero(n - 1, f); assert(f(n - 1) == 0real); } }
/// f and g differ at r only
pub proof fn rsum_at(n: int, f: V, g: V, r: int) requires 0 <= r < n, forall|i: int| 0 <= i < n && i != r ==> #[trigger] f(i) == g(i) ensures rsum(n, f) == rsum(n, g) - g(r) + f(r) decreases n {
    if r == n - 1 { rsum_ext(n - 1, f, g); } else { rsum_at(n - 1, f, g, r); assert(f(n - 1) == g(n - 1)); }
}
pub proof fn rsum_only(n: int, f: V, r: int) requires 0 <= r < n, forall|i: int| 0 <= i < n && i != r ==> #[trigger] f(i) == 0real ensures rsum(n, f) == f(r) {
    let z: V = |i: int| 0real; rsum_at(n, f, z, r); rsum_zero(n, z);
}
pub proof fn dot_ext(s: Seq<(usize, F)>, n: int, d: V, e: V) requires bounded(s, n), forall|k: int| 0 <= k < n ==> #[trigger] d(k) == e(k) ensures dot(s, d) == dot(s, e) decreases s.len() {
    if s.len() > 0 { assert(s[s.len() - 1].0 < n); let k = s.last().0 as int; assert(d(k) == e(k)); assert forall|q: int| #![trigger s.drop_last()[q]] 0 <= q < s.len() - 1 implies s.drop_last()[q].0 < n by { assert(s[q].0 < n); } dot_ext(s.drop_last(), n, d, e); }
}
/// g = d + a e, index by index
pub proof fn dot_comb(s: Seq<(usize, F)>, n: int, d: V, e: V, g: V, a: real) requires bounded(s, n), forall|k: int| 0 <= k < n ==> #[trigger] g(k) == d(k) + a * e(k) ensures dot(s, g) == dot(s, d) + a * dot(s, e) decreases s.len() {
    if s.len() > 0 {
        assert(s[s.len() - 1].0 < n); let k = s.last().0 as int; assert(g(k) == d(k) + a * e(k));
        assert forall|q: int| #![trigger s.drop_last()[q]] 0 <= q < s.len() - 1 implies s.drop_last()[q].0 < n by { assert(s[q].0 < n); }
        dot_comb(s.drop_last(), n, d, e, g, a);
        let (u, p, q, y) = (s.last().1@, d(k), e(k), dot(s.drop_last(), e));
        assert(u * (p + a * q) == u * p + a * (u * q)) by(nonlinear_arith); assert(a * (y + u * q) == a * y + a * (u * q)) by(nonlinear_arith);
    } else { assert(a * 0real == 0real) by(nonlinear_arith); }
}
pub proof fn dot_zero(s: Seq<(usize, F)>, n: int, d: V) requires bounded(s, n), forall|k: int| 0 <= k < n ==> #[trigger] d(k) == 0real ensures dot(s, d) == 0real {
    assert forall|k: int| 0 <= k < n implies #[trigger] d(k) == d(k) + (-1real) * d(k) by { let x = d(k); assert(x == 0real); assert((-1real) * 0real == 0real); }
    dot_comb(s, n, d, d, d, -1real);
}
/// an entry list times a unit vector is its number there
pub proof fn dot_delta(s: Seq<(usize, F)>, n: int, d: V, i: int) requires bounded(s, n), forall|k: int| 0 <= k < n ==> #[trigger] d(k) == delta(i, k) ensures dot(s, d) == sv(s, i) decreases s.len() {
    if s.len() > 0 {
        assert(s[s.len() - 1].0 < n); let k = s.last().0 as int; assert(d(k) == delta(i, k)); let u = s.last().1@; assert(u * 1real == u && u * 0real == 0real) by(nonlinear_arith);
        assert forall|q: int| #![trigger s.drop_last()[q]] 0 <= q < s.len() - 1 implies s.drop_last()[q].0 < n by { assert(s[q].0 < n); }
        dot_delta(s.drop_last(), n, d, i);
    }
}
/// as a sum over all indices
pub open spec fn term(s: Seq<(usize, F)>, d: V) -> V { |k: int| sv(s, k) * d(k) }
pub proof fn dot_rsum(s: Seq<(usize, F)>, n: int, d: V) requires bounded(s, n) ensures dot(s, d) == rsum(n, term(s, d)) decreases s.len() {
    if s.len() > 0 {
        let t = s.drop_last(); let k0 = s.last().0 as int; let u = s.last().1@; assert(s[s.len() - 1].0 < n);
        assert forall|q: int| #![trigger t[q]] 0 <= q < t.len() implies t[q].0 < n by { assert(s[q].0 < n); }
        dot_rsum(t, n, d);
        let e: V = |k: int| delta(k0, k) * (u * d(k0));
        assert forall|i: int| 0 <= i < n && i != k0 implies #[trigger] e(i) == 0real by { let x = u * d(k0); assert(0real * x == 0real) by(nonlinear_arith); }
        rsum_only(n, e, k0);
        let x = u * d(k0); assert(1real * x == x) by(nonlinear_arith);
        assert forall|k: int| 0 <= k < n implies #[trigger] term(s, d)(k) == term(t, d)(k) + 1real * e(k) by {
            let (a, y) = (sv(t, k), d(k)); assert((a + u) * y == a * y + u * y) by(nonlinear_arith); assert(0real * x == 0real) by(nonlinear_arith); assert((a + 0real) * y == a * y);
        }
        rsum_comb(n, term(t, d), e, term(s, d), 1real);
    } else {
        assert forall|k: int| 0 <= k < n implies #[trigger] term(s, d)(k) == 0real by { let y = d(k); assert(0real * y == 0real) by(nonlinear_arith); }
        rsum_zero(n, term(s, d));
    }
}
/// swapping the sums: the row vector c v times s
pub open spec fn scaled(c: V, f: V) -> V { |i: int| c(i) * f(i) }
pub open spec fn cv(n: int, c: V, v: M) -> V { |k: int| rsum(n, scaled(c, col(v, k))) }
pub open spec fn dots(s: Seq<(usize, F)>, v: M) -> V { |i: int| dot(s, row(v, i)) }
pub proof fn fubini(s: Seq<(usize, F)>, m: int, n: int, c: V, v: M) requires bounded(s, m), n >= 0 ensures dot(s, cv(n, c, v)) == rsum(n, scaled(c, dots(s, v))) decreases n {
    if n == 0 { dot_zero(s, m, cv(0, c, v)); } else {
        fubini(s, m, n - 1, c, v);
        assert forall|k: int| 0 <= k < m implies #[trigger] cv(n, c, v)(k) == cv(n - 1, c, v)(k) + c(n - 1) * row(v, n - 1)(k) by {}
        dot_comb(s, m, cv(n - 1, c, v), row(v, n - 1), cv(n, c, v), c(n - 1));
    }
}
// ---- the linear program behind a tableau ----
pub ghost struct Lp { pub m: int, pub n: int, pub a: spec_fn(int) -> Seq<(usize, F)>, pub c: V, pub rhs: Seq<(usize, F)> }
impl Lp {
    pub open spec fn wf(self) -> bool { self.m >= 0 && (forall|j: int| #![trigger (self.a)(j)] 0 <= j < self.n ==> swf((self.a)(j), self.m)) && bounded(self.rhs, self.m) }
}
pub open spec fn inrange(basis: Seq<usize>, p: Lp) -> bool { basis.len() == p.m && forall|i: int| #![trigger basis[i]] 0 <= i < p.m ==> basis[i] < p.n }
pub open spec fn costs(basis: Seq<usize>, p: Lp) -> V { |i: int| (p.c)(basis[i] as int) }
/// v is the inverse of the basis columns
pub open spec fn inverts(v: M, basis: Seq<usize>, p: Lp) -> bool { forall|i: int, j: int| #![trigger dot((p.a)(basis[j] as int), row(v, i))] 0 <= i < p.m && 0 <= j < p.m ==> dot((p.a)(basis[j] as int), row(v, i)) == delta(i, j) }
pub open spec fn values(b: Seq<F>, v: M, p: Lp) -> bool { b.len() == p.m && forall|i: int| #![trigger b[i]] 0 <= i < p.m ==> b[i]@ == dot(p.rhs, row(v, i)) }
pub open spec fn prices(mp: Seq<F>, basis: Seq<usize>, v: M, p: Lp) -> bool { mp.len() == p.m && forall|k: int| #![trigger mp[k]] 0 <= k < p.m ==> mp[k]@ == -cv(p.m, costs(basis, p), v)(k) }
/// reduced cost of column j
pub open spec fn reduced(basis: Seq<usize>, v: M, p: Lp, j: int) -> real { (p.c)(j) - rsum(p.m, scaled(costs(basis, p), dots((p.a)(j), v))) }
pub open spec fn objective(b: Seq<F>, basis: Seq<usize>, p: Lp) -> real { rsum(p.m, scaled(costs(basis, p), num(b))) }
/// u is v after the basis column of row r is replaced by one that equals w with respect to the basis
pub open spec fn pivoted(v: M, u: M, w: V, r: int, m: int) -> bool { forall|i: int, k: int| #![trigger u(i, k)] 0 <= i < m && 0 <= k < m ==> u(i, k) == (if i == r { v(r, k) / w(r) } else { v(i, k) - w(i) * (v(r, k) / w(r)) }) }
pub open spec fn elim(f: V, w: V, r: int, i: int) -> real { if i == r { f(r) / w(r) } else { f(i) - w(i) * (f(r) / w(r)) } }
pub proof fn div_lin(a: real, x: real, d: real) requires d != 0real ensures a * (x / d) == (a * x) / d, (a * x) / d == a * x * (1real / d), x / d == x * (1real / d) {
    assert(a * (x / d) == (a * x) / d) by(nonlinear_arith) requires d != 0real; assert(x / d == x * (1real / d)) by(nonlinear_arith) requires d != 0real; let z = a * x; assert(z / d == z * (1real / d)) by(nonlinear_arith) requires d != 0real;
}
/// row i of the new inverse times anything
pub proof fn pivoted_dot(s: Seq<(usize, F)>, v: M, u: M, w: V, r: int, m: int, i: int) requires bounded(s, m), pivoted(v, u, w, r, m), 0 <= r < m, 0 <= i < m, w(r) != 0real ensures dot(s, row(u, i)) == elim(dots(s, v), w, r, i) {
    let z: V = |k: int| 0real; let d = w(r);
    if i == r {
        assert forall|k: int| 0 <= k < m implies #[trigger] row(u, r)(k) == z(k) + (1real / d) * row(v, r)(k) by { let x = v(r, k); assert(u(r, k) == x / d); assert(x / d == (1real / d) * x) by(nonlinear_arith) requires d != 0real; }
        dot_comb(s, m, z, row(v, r), row(u, r), 1real / d); dot_zero(s, m, z);
        let x = dot(s, row(v, r)); assert((1real / d) * x == x / d) by(nonlinear_arith) requires d != 0real;
    } else {
        let a = -(w(i) / d);
        assert forall|k: int| 0 <= k < m implies #[trigger] row(u, i)(k) == row(v, i)(k) + a * row(v, r)(k) by { let (x, y) = (v(r, k), w(i)); assert(u(i, k) == v(i, k) - y * (x / d)); assert(y * (x / d) == (y / d) * x) by(nonlinear_arith) requires d != 0real; let t = y / d; assert((-t) * x == -(t * x)) by(nonlinear_arith); }
        dot_comb(s, m, row(v, i), row(v, r), row(u, i), a);
        let (x, y) = (dot(s, row(v, r)), w(i)); assert(y * (x / d) == (y / d) * x) by(nonlinear_arith) requires d != 0real; let t = y / d; assert((-t) * x == -(t * x)) by(nonlinear_arith);
    }
}
/// the new inverse inverts the new basis
pub proof fn pivoted_inverts(v: M, u: M, basis: Seq<usize>, p: Lp, r: int, q: usize)
    requires p.wf(), inrange(basis, p), inverts(v, basis, p), 0 <= r < p.m, q < p.n, dot((p.a)(q as int), row(v, r)) != 0real, pivoted(v, u, dots((p.a)(q as int), v), r, p.m)
    ensures inverts(u, basis.update(r, q), p), inrange(basis.update(r, q), p)
{
    let w = dots((p.a)(q as int), v); let b2 = basis.update(r, q); let d = w(r);
    assert forall|i: int, j: int| #![trigger dot((p.a)(b2[j] as int), row(u, i))] 0 <= i < p.m && 0 <= j < p.m implies dot((p.a)(b2[j] as int), row(u, i)) == delta(i, j) by {
        let s = (p.a)(b2[j] as int);
        assert(swf((p.a)(b2[j] as int), p.m)) by { if j != r { assert(b2[j] == basis[j]); } }
        pivoted_dot(s, v, u, w, r, p.m, i);
        if j != r { assert(b2[j] == basis[j]); assert(dots(s, v)(i) == delta(i, j)); assert(dots(s, v)(r) == delta(r, j)); assert(0real / d == 0real) by(nonlinear_arith) requires d != 0real; let y = w(i); assert(y * 0real == 0real) by(nonlinear_arith); }
        else { assert(b2[j] == q); assert(d / d == 1real) by(nonlinear_arith) requires d != 0real; let y = w(i); assert(y * 1real == y) by(nonlinear_arith); }
    }
    assert forall|i: int| #![trigger b2[i]] 0 <= i < p.m implies b2[i] < p.n by { if i != r { assert(b2[i] == basis[i]); } }
}
/// costs times an eliminated vector: the old value plus the reduced cost times the new entry r
pub proof fn pivoted_cost(m: int, c: V, c2: V, f: V, g: V, w: V, r: int, cq: real)
    requires 0 <= r < m, w(r) != 0real, c2(r) == cq, forall|i: int| 0 <= i < m && i != r ==> #[trigger] c2(i) == c(i), forall|i: int| 0 <= i < m ==> #[trigger] g(i) == elim(f, w, r, i)
    ensures rsum(m, scaled(c2, g)) == rsum(m, scaled(c, f)) + (cq - rsum(m, scaled(c, w))) * (f(r) / w(r))
{
    let t = f(r) / w(r);
    // h = f - t w is g but for entry r, where it is zero
    let h: V = |i: int| f(i) + (-t) * w(i);
    assert forall|i: int| 0 <= i < m implies #[trigger] scaled(c, h)(i) == scaled(c, f)(i) + (-t) * scaled(c, w)(i) by { let (x, y, z) = (c(i), f(i), w(i)); assert(x * (y + (-t) * z) == x * y + (-t) * (x * z)) by(nonlinear_arith); }
    rsum_comb(m, scaled(c, f), scaled(c, w), scaled(c, h), -t);
    assert forall|i: int| 0 <= i < m && i != r implies #[trigger] scaled(c2, g)(i) == scaled(c, h)(i) by { let y = w(i); assert(c2(i) == c(i)); assert(g(i) == elim(f, w, r, i)); assert((-t) * y == -(y * t)) by(nonlinear_arith); }
    rsum_at(m, scaled(c2, g), scaled(c, h), r);
    let (x, d, y) = (f(r), w(r), c(r)); assert(x / d * d == x) by(nonlinear_arith) requires d != 0real;
    assert((-t) * d == -(t * d)) by(nonlinear_arith); assert(h(r) == 0real); assert(y * 0real == 0real) by(nonlinear_arith); assert(g(r) == elim(f, w, r, r));
    let s = rsum(m, scaled(c, w)); assert((cq - s) * t == cq * t + (-t) * s) by(nonlinear_arith);
}
/// an inverse from the left is an inverse from the right
pub open spec fn inverts_right(v: M, basis: Seq<usize>, p: Lp) -> bool { forall|k: int, l: int| #![trigger delta(k, l)] 0 <= k < p.m && 0 <= l < p.m ==> rsum(p.m, scaled(col(v, l), basisrow(basis, p, k))) == delta(k, l) }
pub open spec fn basisrow(basis: Seq<usize>, p: Lp, k: int) -> V { |j: int| sv((p.a)(basis[j] as int), k) }
/// f(k, j), summed over both
pub open spec fn by_row(n: int, f: M) -> V { |k: int| rsum(n, row(f, k)) }
pub open spec fn by_col(m: int, f: M) -> V { |j: int| rsum(m, col(f, j)) }
pub proof fn rsum_swap(m: int, n: int, f: M) requires m >= 0, n >= 0 ensures rsum(m, by_row(n, f)) == rsum(n, by_col(m, f)) decreases n {
    if n == 0 { rsum_zero(m, by_row(0, f)); } else {
        rsum_swap(m, n - 1, f);
        assert forall|k: int| 0 <= k < m implies #[trigger] by_row(n, f)(k) == by_row(n - 1, f)(k) + 1real * col(f, n - 1)(k) by { let x = f(k, n - 1); assert(1real * x == x); }
        rsum_comb(m, by_row(n - 1, f), col(f, n - 1), by_row(n, f), 1real);
        let y = rsum(m, col(f, n - 1)); assert(1real * y == y);
    }
}
pub proof fn rsum_scale(n: int, e: V, g: V, a: real) requires forall|i: int| 0 <= i < n ==> #[trigger] g(i) == a * e(i) ensures rsum(n, g) == a * rsum(n, e) {
    let z: V = |i: int| 0real; rsum_zero(n, z);
    assert forall|i: int| 0 <= i < n implies #[trigger] g(i) == z(i) + a * e(i) by {}
    rsum_comb(n, z, e, g, a);
}
/// a left inverse and a right inverse of the same columns agree
pub proof fn one_inverse(v: M, u: M, basis: Seq<usize>, p: Lp, i: int, l: int)
    requires p.wf(), inrange(basis, p), inverts(v, basis, p), inverts_right(u, basis, p), 0 <= i < p.m, 0 <= l < p.m
    ensures v(i, l) == u(i, l)
{
    let m = p.m;
    let f: M = |k: int, j: int| v(i, k) * (u(j, l) * sv((p.a)(basis[j] as int), k));
    let x: V = |k: int| v(i, k) * delta(k, l);
    assert forall|k: int| 0 <= k < m implies #[trigger] by_row(m, f)(k) == x(k) by {
        let e = scaled(col(u, l), basisrow(basis, p, k));
        assert forall|j: int| 0 <= j < m implies #[trigger] row(f, k)(j) == v(i, k) * e(j) by {}
        rsum_scale(m, e, row(f, k), v(i, k)); assert(rsum(m, e) == delta(k, l));
    }
    rsum_ext(m, by_row(m, f), x);
    assert forall|k: int| 0 <= k < m && k != l implies #[trigger] x(k) == 0real by { let y = v(i, k); assert(y * 0real == 0real) by(nonlinear_arith); }
    rsum_only(m, x, l); let y = v(i, l); assert(y * 1real == y) by(nonlinear_arith);
    let z: V = |j: int| u(j, l) * delta(i, j);
    assert forall|j: int| 0 <= j < m implies #[trigger] by_col(m, f)(j) == z(j) by {
        let s = (p.a)(basis[j] as int); let e = term(s, row(v, i)); assert(swf((p.a)(basis[j] as int), m));
        assert forall|k: int| 0 <= k < m implies #[trigger] col(f, j)(k) == u(j, l) * e(k) by { let (a, b, c) = (v(i, k), u(j, l), sv(s, k)); assert(a * (b * c) == b * (c * a)) by(nonlinear_arith); }
        rsum_scale(m, e, col(f, j), u(j, l)); dot_rsum(s, m, row(v, i)); assert(dot((p.a)(basis[j] as int), row(v, i)) == delta(i, j));
    }
    rsum_ext(m, by_col(m, f), z);
    assert forall|j: int| 0 <= j < m && j != i implies #[trigger] z(j) == 0real by { let y = u(j, l); assert(y * 0real == 0real) by(nonlinear_arith); }
    rsum_only(m, z, i); let y = u(i, l); assert(y * 1real == y) by(nonlinear_arith);
    rsum_swap(m, m, f);
}
pub open spec fn same(v: M, u: M, m: int) -> bool { forall|i: int, k: int| #![trigger u(i, k)] 0 <= i < m && 0 <= k < m ==> u(i, k) == v(i, k) }
pub proof fn pivoted_ext(v: M, u: M, u2: M, w: V, w2: V, r: int, m: int) requires pivoted(v, u, w, r, m), same(u, u2, m), 0 <= r < m, forall|i: int| 0 <= i < m ==> #[trigger] w2(i) == w(i) ensures pivoted(v, u2, w2, r, m) {
    assert forall|i: int, k: int| #![trigger u2(i, k)] 0 <= i < m && 0 <= k < m implies u2(i, k) == (if i == r { v(r, k) / w2(r) } else { v(i, k) - w2(i) * (v(r, k) / w2(r)) }) by { assert(u2(i, k) == u(i, k)); assert(w2(i) == w(i)); assert(w2(r) == w(r)); }
}
pub open spec fn pivot_matrix(v: M, w: V, r: int) -> M { |i: int, k: int| if i == r { v(r, k) / w(r) } else { v(i, k) - w(i) * (v(r, k) / w(r)) } }
/// the stored numbers after a basis change
pub proof fn basis_changed(p: Lp, basis: Seq<usize>, v: M, b: Seq<F>, mp: Seq<F>, r: int, q: usize, u: M, b2: Seq<F>, mp2: Seq<F>, mo: real, mo2: real)
    requires p.wf(), inrange(basis, p), inverts(v, basis, p), values(b, v, p), prices(mp, basis, v, p), mo == -objective(b, basis, p), 0 <= r < p.m, q < p.n, dots((p.a)(q as int), v)(r) != 0real,
      pivoted(v, u, dots((p.a)(q as int), v), r, p.m),
      b2.len() == p.m, forall|i: int| #![trigger b2[i]] 0 <= i < p.m ==> b2[i]@ == elim(num(b), dots((p.a)(q as int), v), r, i),
      mp2.len() == p.m, forall|k: int| #![trigger mp2[k]] 0 <= k < p.m ==> mp2[k]@ == mp[k]@ - reduced(basis, v, p, q as int) * u(r, k),
      mo2 == mo - reduced(basis, v, p, q as int) * b2[r]@,
    ensures inrange(basis.update(r, q), p), inverts(u, basis.update(r, q), p), values(b2, u, p), prices(mp2, basis.update(r, q), u, p), mo2 == -objective(b2, basis.update(r, q), p),
      objective(b2, basis.update(r, q), p) == objective(b, basis, p) + reduced(basis, v, p, q as int) * (b[r]@ / dots((p.a)(q as int), v)(r))
{
    let s = (p.a)(q as int); let w = dots(s, v); let m = p.m; let n2 = basis.update(r, q); let (c, c2) = (costs(basis, p), costs(n2, p)); let red = reduced(basis, v, p, q as int);
    pivoted_inverts(v, u, basis, p, r, q);
    assert forall|i: int| #![trigger b2[i]] 0 <= i < m implies b2[i]@ == dot(p.rhs, row(u, i)) by { pivoted_dot(p.rhs, v, u, w, r, m, i); assert(b[i]@ == dot(p.rhs, row(v, i))); assert(b[r]@ == dot(p.rhs, row(v, r))); }
    assert forall|i: int| 0 <= i < m && i != r implies #[trigger] c2(i) == c(i) by { assert(n2[i] == basis[i]); }
    assert forall|k: int| #![trigger mp2[k]] 0 <= k < m implies mp2[k]@ == -cv(m, c2, u)(k) by {
        let (f, g) = (col(v, k), col(u, k));
        assert forall|i: int| 0 <= i < m implies #[trigger] g(i) == elim(f, w, r, i) by { assert(u(i, k) == (if i == r { v(r, k) / w(r) } else { v(i, k) - w(i) * (v(r, k) / w(r)) })); }
        pivoted_cost(m, c, c2, f, g, w, r, (p.c)(q as int)); assert(u(r, k) == v(r, k) / w(r)); assert(mp[k]@ == -cv(m, c, v)(k));
    }
    assert forall|i: int| 0 <= i < m implies #[trigger] num(b2)(i) == elim(num(b), w, r, i) by { assert(b2[i]@ == elim(num(b), w, r, i)); }
    pivoted_cost(m, c, c2, num(b), num(b2), w, r, (p.c)(q as int));
    assert(b2[r]@ == elim(num(b), w, r, r));
}
pub proof fn pivoted_inverts_right(v: M, u: M, basis: Seq<usize>, p: Lp, r: int, q: usize)
    requires p.wf(), inrange(basis, p), inverts_right(v, basis, p), 0 <= r < p.m, q < p.n, dot((p.a)(q as int), row(v, r)) != 0real, pivoted(v, u, dots((p.a)(q as int), v), r, p.m)
    ensures inverts_right(u, basis.update(r, q), p)
{
    let s = (p.a)(q as int); let w = dots(s, v); let b2 = basis.update(r, q); let d = w(r); let m = p.m;
    assert forall|k: int, l: int| #![trigger delta(k, l)] 0 <= k < m && 0 <= l < m implies rsum(m, scaled(col(u, l), basisrow(b2, p, k))) == delta(k, l) by {
        let c = basisrow(basis, p, k); let c2 = basisrow(b2, p, k); let f = col(v, l); let g = col(u, l);
        assert forall|i: int| 0 <= i < m && i != r implies #[trigger] c2(i) == c(i) by { assert(b2[i] == basis[i]); }
        assert forall|i: int| 0 <= i < m implies #[trigger] g(i) == elim(f, w, r, i) by { assert(u(i, l) == (if i == r { v(r, l) / w(r) } else { v(i, l) - w(i) * (v(r, l) / w(r)) })); }
        pivoted_cost(m, c, c2, f, g, w, r, sv(s, k));
        // the column itself is what the basis makes of it
        basis_product(v, basis, p, s, k);
        assert forall|i: int| 0 <= i < m implies #[trigger] scaled(col(u, l), c2)(i) == scaled(c2, g)(i) by { let (x, y) = (c2(i), g(i)); assert(x * y == y * x) by(nonlinear_arith); }
        rsum_ext(m, scaled(col(u, l), c2), scaled(c2, g));
        assert forall|i: int| 0 <= i < m implies #[trigger] scaled(col(v, l), c)(i) == scaled(c, f)(i) by { let (x, y) = (c(i), f(i)); assert(x * y == y * x) by(nonlinear_arith); }
        rsum_ext(m, scaled(col(v, l), c), scaled(c, f));
        let t = f(r) / w(r); assert(0real * t == 0real) by(nonlinear_arith);
    }
}
/// the basis times (its inverse times s) is s
pub proof fn basis_product(v: M, basis: Seq<usize>, p: Lp, s: Seq<(usize, F)>, k: int)
    requires p.wf(), inrange(basis, p), inverts_right(v, basis, p), bounded(s, p.m), 0 <= k < p.m
    ensures rsum(p.m, scaled(basisrow(basis, p, k), dots(s, v))) == sv(s, k)
{
    let c = basisrow(basis, p, k); fubini(s, p.m, p.m, c, v);
    assert forall|l: int| 0 <= l < p.m implies #[trigger] cv(p.m, c, v)(l) == delta(k, l) by {
        assert forall|i: int| 0 <= i < p.m implies #[trigger] scaled(col(v, l), c)(i) == scaled(c, col(v, l))(i) by { let (x, y) = (c(i), v(i, l)); assert(x * y == y * x) by(nonlinear_arith); }
        rsum_ext(p.m, scaled(col(v, l), c), scaled(c, col(v, l)));
        assert(delta(k, l) == delta(k, l));
    }
    dot_delta(s, p.m, cv(p.m, c, v), k);
}
// ---- points of a linear program ----
/// x satisfies all rows
pub open spec fn solves(x: V, p: Lp) -> bool { forall|k: int| #![trigger sv(p.rhs, k)] 0 <= k < p.m ==> rsum(p.n, scaled(x, coef(p, k))) == sv(p.rhs, k) }
pub open spec fn coef(p: Lp, k: int) -> V { |j: int| sv((p.a)(j), k) }
pub open spec fn nonneg(x: V, n: int) -> bool { forall|j: int| 0 <= j < n ==> #[trigger] x(j) >= 0real }
pub open spec fn feasible(x: V, p: Lp) -> bool { solves(x, p) && nonneg(x, p.n) }
pub open spec fn value(x: V, p: Lp) -> real { rsum(p.n, scaled(x, p.c)) }
pub open spec fn reduced_of(basis: Seq<usize>, v: M, p: Lp) -> V { |j: int| reduced(basis, v, p, j) }
/// the value of a point: that of the basic solution plus what the nonbasic variables add
pub proof fn value_by_basis(x: V, b: Seq<F>, basis: Seq<usize>, v: M, p: Lp)
    requires p.wf(), inrange(basis, p), values(b, v, p), solves(x, p), p.n >= 0
    ensures value(x, p) == objective(b, basis, p) + rsum(p.n, scaled(x, reduced_of(basis, v, p)))
{
    let m = p.m; let c = costs(basis, p); let y = cv(m, c, v);
    assert forall|i: int| 0 <= i < m implies #[trigger] scaled(c, num(b))(i) == scaled(c, dots(p.rhs, v))(i) by { assert(b[i]@ == dot(p.rhs, row(v, i))); }
    rsum_ext(m, scaled(c, num(b)), scaled(c, dots(p.rhs, v)));
    fubini(p.rhs, m, m, c, v); dot_rsum(p.rhs, m, y);
    let f: M = |k: int, j: int| y(k) * (x(j) * sv((p.a)(j), k));
    assert forall|k: int| 0 <= k < m implies #[trigger] term(p.rhs, y)(k) == by_row(p.n, f)(k) by {
        let e = scaled(x, coef(p, k)); assert forall|j: int| 0 <= j < p.n implies #[trigger] row(f, k)(j) == y(k) * e(j) by {}
        rsum_scale(p.n, e, row(f, k), y(k)); assert(rsum(p.n, e) == sv(p.rhs, k)); let (a, b) = (sv(p.rhs, k), y(k)); assert(a * b == b * a) by(nonlinear_arith);
    }
    rsum_ext(m, term(p.rhs, y), by_row(p.n, f));
    rsum_swap(m, p.n, f);
    let z: V = |j: int| x(j) * dot((p.a)(j), y);
    assert forall|j: int| 0 <= j < p.n implies #[trigger] by_col(m, f)(j) == z(j) by {
        let s = (p.a)(j); assert(swf((p.a)(j), m)); dot_rsum(s, m, y); let e = term(s, y);
        assert forall|k: int| 0 <= k < m implies #[trigger] col(f, j)(k) == x(j) * e(k) by { let (a, b, d) = (y(k), x(j), sv(s, k)); assert(a * (b * d) == b * (d * a)) by(nonlinear_arith); }
        rsum_scale(m, e, col(f, j), x(j));
    }
    rsum_ext(p.n, by_col(m, f), z);
    assert forall|j: int| 0 <= j < p.n implies #[trigger] scaled(x, p.c)(j) == z(j) + 1real * scaled(x, reduced_of(basis, v, p))(j) by {
        assert(swf((p.a)(j), m)); fubini((p.a)(j), m, m, c, v); let (a, b, d) = (x(j), (p.c)(j), dot((p.a)(j), y)); assert(a * b == a * d + a * (b - d)) by(nonlinear_arith); let g = a * (b - d); assert(1real * g == g);
    }
    rsum_comb(p.n, z, scaled(x, reduced_of(basis, v, p)), scaled(x, p.c), 1real);
    let g = rsum(p.n, scaled(x, reduced_of(basis, v, p))); assert(1real * g == g);
}
pub proof fn rsum_nonneg(n: int, f: V) requires forall|i: int| 0 <= i < n ==> #[trigger] f(i) >= 0real ensures rsum(n, f) >= 0real decreases n { if n > 0 { rsum_nonneg(n - 1, f); assert(f(n - 1) >= 0real); } }
/// no reduced cost is negative: nothing is better
pub proof fn optimal(x: V, b: Seq<F>, basis: Seq<usize>, v: M, p: Lp)
    requires p.wf(), inrange(basis, p), values(b, v, p), feasible(x, p), p.n >= 0, forall|j: int| #![trigger reduced(basis, v, p, j)] 0 <= j < p.n ==> reduced(basis, v, p, j) >= 0real
    ensures value(x, p) >= objective(b, basis, p)
{
    value_by_basis(x, b, basis, v, p);
    assert forall|j: int| 0 <= j < p.n implies #[trigger] scaled(x, reduced_of(basis, v, p))(j) >= 0real by { let (a, d) = (x(j), reduced(basis, v, p, j)); assert(a * d >= 0real) by(nonlinear_arith) requires a >= 0real, d >= 0real; }
    rsum_nonneg(p.n, scaled(x, reduced_of(basis, v, p)));
}
/// numbers given per row, at the basis columns
pub open spec fn cell(f: V, basis: Seq<usize>) -> M { |j: int, i: int| delta(basis[i] as int, j) * f(i) }
pub open spec fn spread(f: V, basis: Seq<usize>, m: int) -> V { |j: int| rsum(m, row(cell(f, basis), j)) }
pub open spec fn picked(f: V, g: V, basis: Seq<usize>) -> V { |i: int| f(i) * g(basis[i] as int) }
pub proof fn spread_sum(f: V, g: V, basis: Seq<usize>, m: int, n: int)
    requires m >= 0, n >= 0, basis.len() == m, forall|i: int| #![trigger basis[i]] 0 <= i < m ==> basis[i] < n
    ensures rsum(n, scaled(spread(f, basis, m), g)) == rsum(m, picked(f, g, basis))
{
    let h: M = |j: int, i: int| g(j) * cell(f, basis)(j, i);
    assert forall|j: int| 0 <= j < n implies #[trigger] scaled(spread(f, basis, m), g)(j) == by_row(m, h)(j) by { rsum_scale(m, row(cell(f, basis), j), row(h, j), g(j)); let (a, b) = (spread(f, basis, m)(j), g(j)); assert(a * b == b * a) by(nonlinear_arith); }
    rsum_ext(n, scaled(spread(f, basis, m), g), by_row(m, h));
    rsum_swap(n, m, h);
    assert forall|i: int| 0 <= i < m implies #[trigger] by_col(n, h)(i) == picked(f, g, basis)(i) by {
        let q = basis[i] as int;
        assert forall|j: int| 0 <= j < n && j != q implies #[trigger] col(h, i)(j) == 0real by { let (a, b) = (g(j), f(i)); assert(a * (0real * b) == 0real) by(nonlinear_arith); }
        rsum_only(n, col(h, i), q); let (a, b) = (g(q), f(i)); assert(a * (1real * b) == b * a) by(nonlinear_arith);
    }
    rsum_ext(m, by_col(n, h), picked(f, g, basis));
}
pub proof fn spread_nonneg(f: V, basis: Seq<usize>, m: int, j: int) requires nonneg(f, m) ensures spread(f, basis, m)(j) >= 0real {
    let r = row(cell(f, basis), j);
    assert forall|i: int| 0 <= i < m implies #[trigger] r(i) >= 0real by { let (a, b) = (delta(basis[i] as int, j), f(i)); assert(a * b >= 0real) by(nonlinear_arith) requires a >= 0real, b >= 0real; }
    rsum_nonneg(m, r);
}
/// the basic solution as a point
pub open spec fn basic(b: Seq<F>, basis: Seq<usize>, p: Lp) -> V { spread(num(b), basis, p.m) }
/// the point a step t along column q
pub open spec fn moved(b: Seq<F>, w: V, t: real) -> V { |i: int| b[i]@ + (-t) * w(i) }
pub open spec fn stepped(b: Seq<F>, basis: Seq<usize>, p: Lp, w: V, q: int, t: real) -> V { |j: int| spread(moved(b, w, t), basis, p.m)(j) + t * delta(q, j) }
pub proof fn stepped_sum(b: Seq<F>, basis: Seq<usize>, p: Lp, w: V, q: int, t: real, g: V)
    requires p.wf(), inrange(basis, p), b.len() == p.m, 0 <= q < p.n
    ensures rsum(p.n, scaled(stepped(b, basis, p, w, q, t), g)) == rsum(p.m, picked(num(b), g, basis)) + t * (g(q) - rsum(p.m, picked(w, g, basis)))
{
    let (m, n) = (p.m, p.n); let f = moved(b, w, t); let x = stepped(b, basis, p, w, q, t); let s = spread(f, basis, m);
    let e: V = |j: int| delta(q, j) * g(j);
    assert forall|j: int| 0 <= j < n implies #[trigger] scaled(x, g)(j) == scaled(s, g)(j) + t * e(j) by { let (a, d, h) = (s(j), delta(q, j), g(j)); assert((a + t * d) * h == a * h + t * (d * h)) by(nonlinear_arith); }
    rsum_comb(n, scaled(s, g), e, scaled(x, g), t);
    assert forall|j: int| 0 <= j < n && j != q implies #[trigger] e(j) == 0real by { let h = g(j); assert(0real * h == 0real) by(nonlinear_arith); }
    rsum_only(n, e, q); let h = g(q); assert(1real * h == h) by(nonlinear_arith);
    spread_sum(f, g, basis, m, n);
    assert forall|i: int| 0 <= i < m implies #[trigger] picked(f, g, basis)(i) == picked(num(b), g, basis)(i) + (-t) * picked(w, g, basis)(i) by { let (a, d, h) = (b[i]@, w(i), g(basis[i] as int)); assert((a + (-t) * d) * h == a * h + (-t) * (d * h)) by(nonlinear_arith); }
    rsum_comb(m, picked(num(b), g, basis), picked(w, g, basis), picked(f, g, basis), -t);
    let z = rsum(m, picked(w, g, basis)); assert(t * (h - z) == t * h + (-t) * z) by(nonlinear_arith);
}
pub proof fn stepped_point(b: Seq<F>, basis: Seq<usize>, v: M, p: Lp, q: int, t: real)
    requires p.wf(), inrange(basis, p), inverts_right(v, basis, p), values(b, v, p), 0 <= q < p.n
    ensures solves(stepped(b, basis, p, dots((p.a)(q), v), q, t), p), value(stepped(b, basis, p, dots((p.a)(q), v), q, t), p) == objective(b, basis, p) + t * reduced(basis, v, p, q)
{
    let m = p.m; let w = dots((p.a)(q), v); let x = stepped(b, basis, p, w, q, t);
    assert(swf((p.a)(q), m));
    assert forall|k: int| #![trigger sv(p.rhs, k)] 0 <= k < m implies rsum(p.n, scaled(x, coef(p, k))) == sv(p.rhs, k) by {
        let g = coef(p, k); let c = basisrow(basis, p, k);
        stepped_sum(b, basis, p, w, q, t, g);
        assert forall|i: int| 0 <= i < m implies #[trigger] picked(num(b), g, basis)(i) == scaled(c, dots(p.rhs, v))(i) by { assert(b[i]@ == dot(p.rhs, row(v, i))); let (a, d) = (b[i]@, c(i)); assert(a * d == d * a) by(nonlinear_arith); }
        rsum_ext(m, picked(num(b), g, basis), scaled(c, dots(p.rhs, v)));
        assert forall|i: int| 0 <= i < m implies #[trigger] picked(w, g, basis)(i) == scaled(c, w)(i) by { let (a, d) = (w(i), c(i)); assert(a * d == d * a) by(nonlinear_arith); }
        rsum_ext(m, picked(w, g, basis), scaled(c, w));
        basis_product(v, basis, p, p.rhs, k); basis_product(v, basis, p, (p.a)(q), k);
        assert(t * 0real == 0real) by(nonlinear_arith);
    }
    stepped_sum(b, basis, p, w, q, t, p.c); let c = costs(basis, p);
    assert forall|i: int| 0 <= i < m implies #[trigger] picked(num(b), p.c, basis)(i) == scaled(c, num(b))(i) by { let (a, d) = (b[i]@, c(i)); assert(a * d == d * a) by(nonlinear_arith); }
    rsum_ext(m, picked(num(b), p.c, basis), scaled(c, num(b)));
    assert forall|i: int| 0 <= i < m implies #[trigger] picked(w, p.c, basis)(i) == scaled(c, w)(i) by { let (a, d) = (w(i), c(i)); assert(a * d == d * a) by(nonlinear_arith); }
    rsum_ext(m, picked(w, p.c, basis), scaled(c, w));
}
pub proof fn basic_point(b: Seq<F>, basis: Seq<usize>, v: M, p: Lp)
    requires p.wf(), inrange(basis, p), inverts_right(v, basis, p), values(b, v, p), p.n >= 0
    ensures solves(basic(b, basis, p), p), value(basic(b, basis, p), p) == objective(b, basis, p), nonneg(num(b), p.m) ==> feasible(basic(b, basis, p), p)
{
    let m = p.m; let x = basic(b, basis, p);
    assert forall|k: int| #![trigger sv(p.rhs, k)] 0 <= k < m implies rsum(p.n, scaled(x, coef(p, k))) == sv(p.rhs, k) by {
        let g = coef(p, k); let c = basisrow(basis, p, k); spread_sum(num(b), g, basis, m, p.n);
        assert forall|i: int| 0 <= i < m implies #[trigger] picked(num(b), g, basis)(i) == scaled(c, dots(p.rhs, v))(i) by { assert(b[i]@ == dot(p.rhs, row(v, i))); let (a, d) = (b[i]@, c(i)); assert(a * d == d * a) by(nonlinear_arith); }
        rsum_ext(m, picked(num(b), g, basis), scaled(c, dots(p.rhs, v))); basis_product(v, basis, p, p.rhs, k);
    }
    spread_sum(num(b), p.c, basis, m, p.n); let c = costs(basis, p);
    assert forall|i: int| 0 <= i < m implies #[trigger] picked(num(b), p.c, basis)(i) == scaled(c, num(b))(i) by { let (a, d) = (b[i]@, c(i)); assert(a * d == d * a) by(nonlinear_arith); }
    rsum_ext(m, picked(num(b), p.c, basis), scaled(c, num(b)));
    if nonneg(num(b), m) { assert forall|j: int| 0 <= j < p.n implies #[trigger] x(j) >= 0real by { spread_nonneg(num(b), basis, m, j); } }
}
pub open spec fn below(p: Lp, l: real) -> bool { exists|x: V| feasible(x, p) && #[trigger] value(x, p) < l }
pub open spec fn unbounded(p: Lp) -> bool { forall|l: real| #[trigger] below(p, l) }
/// a column that improves and never runs into a bound
pub proof fn ray(b: Seq<F>, basis: Seq<usize>, v: M, p: Lp, q: int)
    requires p.wf(), inrange(basis, p), inverts_right(v, basis, p), values(b, v, p), nonneg(num(b), p.m), 0 <= q < p.n, reduced(basis, v, p, q) < 0real,
      forall|i: int| 0 <= i < p.m ==> #[trigger] dots((p.a)(q), v)(i) <= 0real
    ensures unbounded(p)
{
    let w = dots((p.a)(q), v); let red = reduced(basis, v, p, q); let o = objective(b, basis, p);
    assert forall|l: real| #[trigger] below(p, l) by {
        let gap = if l - o < 0real { o - l + 1real } else { 1real };
        let t = gap / (-red); let x = stepped(b, basis, p, w, q, t);
        assert(t >= 0real && t * red == -gap) by(nonlinear_arith) requires t == gap / (-red), red < 0real, gap > 0real;
        stepped_point(b, basis, v, p, q, t);
        let f = moved(b, w, t);
        assert forall|i: int| 0 <= i < p.m implies #[trigger] f(i) >= 0real by { assert(num(b)(i) >= 0real); let d = w(i); assert(d <= 0real); assert((-t) * d >= 0real) by(nonlinear_arith) requires t >= 0real, d <= 0real; }
        assert forall|j: int| 0 <= j < p.n implies #[trigger] x(j) >= 0real by { spread_nonneg(f, basis, p.m, j); let d = delta(q, j); assert(t * d >= 0real) by(nonlinear_arith) requires t >= 0real, d >= 0real; }
        assert(feasible(x, p) && value(x, p) < l);
    }
}
/// r is the row with the smallest ratio
pub open spec fn first_blocked(b: V, w: V, m: int, r: int) -> bool { 0 <= r < m && w(r) > 0real && forall|k: int| #![trigger w(k)] 0 <= k < m && w(k) > 0real ==> b(r) / w(r) <= b(k) / w(k) }
pub proof fn keeps_nonneg(b: V, w: V, m: int, r: int) requires nonneg(b, m), first_blocked(b, w, m, r) ensures forall|i: int| 0 <= i < m ==> #[trigger] elim(b, w, r, i) >= 0real, b(r) / w(r) >= 0real {
    let t = b(r) / w(r); let (x, d) = (b(r), w(r)); assert(x >= 0real); assert(x / d >= 0real) by(nonlinear_arith) requires x >= 0real, d > 0real;
    assert forall|i: int| 0 <= i < m implies #[trigger] elim(b, w, r, i) >= 0real by {
        let (y, e) = (b(i), w(i)); assert(y >= 0real);
        if i != r { if e > 0real { assert(t <= y / e); assert(e * t <= y) by(nonlinear_arith) requires t <= y / e, e > 0real; } else { assert(e * t <= 0real) by(nonlinear_arith) requires e <= 0real, t >= 0real; } }
    }
}
