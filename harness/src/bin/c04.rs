//! C04 the LU factorisation: everything it solves, put back into the basis it was given.
use harness::form::{q, R};
use harness::sim::{col, invert, mul, sv};
use harness::{check, kinds, Ctx, Rng, Q};
use relp::algorithm::two_phase::matrix_provider::column::Column;
use relp::algorithm::two_phase::tableau::inverse_maintenance::carry::lower_upper::LUDecomposition;
use relp::algorithm::two_phase::tableau::inverse_maintenance::carry::BasisInverse;
use relp::algorithm::two_phase::tableau::inverse_maintenance::ColumnComputationInfo;
use relp::data::linear_algebra::vector::{SparseVector, Vector};

type L = LUDecomposition<R>;
fn value(g: &mut Rng) -> Q { match g.below(8) { 0 => Q::new(g.range(1, 3) as i128, g.range(2, 3) as i128), 1 | 2 => Q::int([2, -2, 3, -3][g.below(4)]), 3 | 4 => Q::int(-1), _ => Q::ONE } }
fn vector(g: &mut Rng, m: usize) -> Vec<Q> { if g.chance(1, 4) { let k = g.below(m); return (0..m).map(|i| if i == k { Q::ONE } else { Q::ZERO }).collect() } let d = g.range(1, 4) as usize; (0..m).map(|_| if g.chance(d, 4) { value(g) } else { Q::ZERO }).collect() }
/// columns of a matrix with an inverse
fn basis(g: &mut Rng, m: usize) -> Vec<Vec<Q>> {
    for _ in 0..40 {
        let mut a = vec![vec![Q::ZERO; m]; m];
        match g.below(5) {
            // something triangular, moved about
            0 => { for j in 0..m { for i in 0..m { if i == j || i < j && g.chance(1, 3) { a[j][i] = value(g); } } } }
            // a band
            1 => { let w = g.range(1, 2) as usize; for j in 0..m { for i in 0..m { if i == j || i.abs_diff(j) <= w && g.chance(3, 4) { a[j][i] = value(g); } } } }
            // one full row and column
            2 => { let k = g.below(m); for j in 0..m { for i in 0..m { if i == j || i == k || j == k { a[j][i] = value(g); } } } }
            // a product of sparse ones: values cancel
            3 => { for j in 0..m { a[j][j] = Q::ONE; } for _ in 0..2 * m { let (i, j) = (g.below(m), g.below(m)); if i != j { let v = if g.chance(1, 2) { Q::ONE } else { -Q::ONE }; for k in 0..m { let x = a[i][k] * v; a[j][k] = a[j][k] + x; } } } }
            _ => { let d = g.range(1, 4) as usize; for j in 0..m { for i in 0..m { if g.chance(d, 5) { a[j][i] = value(g); } } } }
        }
        if g.chance(2, 3) { let (p, r) = (g.perm(m), g.perm(m)); let b = a.clone(); for j in 0..m { for i in 0..m { a[p[j]][r[i]] = b[j][i]; } } }
        if a.iter().flatten().any(|x| x.abs().num() > 50) { continue }
        if invert(&a.iter().collect::<Vec<_>>()).is_some() { return a }
    }
    (0..m).map(|j| (0..m).map(|i| if i == j { Q::ONE } else { Q::ZERO }).collect()).collect()
}
fn plain(v: &SparseVector<R, R>, m: usize, what: &str) -> Vec<Q> {
    check!(Vector::len(v) == m, "{what}: length {} instead of {m}", Vector::len(v));
    let t: Vec<(usize, Q)> = Vector::iter(v).map(|(i, x)| (*i, q(x))).collect();
    check!(t.windows(2).all(|w| w[0].0 < w[1].0) && t.iter().all(|x| x.0 < m && !x.1.is_zero()), "{what}: not a sparse vector: {t:?}");
    sv(v)
}
fn times(b: &[Vec<Q>], x: &[Q]) -> Vec<Q> { (0..b.len()).map(|i| (0..b.len()).map(|j| b[j][i] * x[j]).sum()).collect() }
fn look(g: &mut Rng, l: &L, b: &[Vec<Q>], what: &str) {
    let m = b.len();
    check!(l.m() == m, "{what}: size {} of {m}", l.m());
    for _ in 0..2 {
        let a = vector(g, m);
        let c = col(&a);
        let x = plain(&l.left_multiply_by_basis_inverse(c.iter()).into_column(), m, what);
        check!(times(b, &x) == a, "{what}: the solution for column {a:?} is {x:?}, which gives {:?}", times(b, &x));
        let again = plain(l.left_multiply_by_basis_inverse(c.iter()).column(), m, what);
        check!(again == x, "{what}: solved again for {a:?}: {again:?} instead of {x:?}");
        let i = g.below(m);
        let e = l.generate_element(i, c.iter()).map(|v| q(&v));
        check!(e.unwrap_or(Q::ZERO) == x[i], "{what}: element {i} for {a:?} is {e:?}, expected {:?}", x[i]);
        let mut y = vector(g, m);
        if y.iter().all(Q::is_zero) { y[0] = Q::ONE; }
        let d = col(&y);
        let z = plain(&l.right_multiply_by_basis_inverse(d.iter()), m, what);
        check!(mul(b, &z) == y, "{what}: the solution for row {y:?} is {z:?}, which gives {:?}", mul(b, &z));
    }
    let i = g.below(m);
    let z = plain(&l.basis_inverse_row(i), m, what);
    let want: Vec<Q> = (0..m).map(|j| if i == j { Q::ONE } else { Q::ZERO }).collect();
    check!(mul(b, &z) == want, "{what}: row {i} of the inverse is {z:?}, which gives {:?}", mul(b, &z));
}
fn history(g: &mut Rng, c: &mut Ctx, m: usize, steps: usize) {
    let mut b;
    let mut l: L;
    if g.chance(1, 6) { b = (0..m).map(|j| (0..m).map(|i| if i == j { Q::ONE } else { Q::ZERO }).collect()).collect(); l = L::identity(m); c.input(format!("identity {m}")); }
    else { b = basis(g, m); c.input(format!("columns {b:?}")); l = L::invert(b.iter().map(|v| col(v))); }
    look(g, &l, &b, "factorised");
    let mut done = 0;
    for step in 0..steps {
        let a = vector(g, m);
        let k = col(&a);
        let info = l.left_multiply_by_basis_inverse(k.iter());
        let x = plain(info.column(), m, "column to enter");
        let open: Vec<usize> = (0..m).filter(|&i| !x[i].is_zero()).collect();
        if open.is_empty() { continue }
        let p = match g.below(4) { 0 => open[0], 1 => open[open.len() - 1], _ => *g.pick(&open) };
        let mut n = b.clone(); n[p] = a.clone();
        if invert(&n.iter().collect::<Vec<_>>()).map_or(true, |v| v.iter().flatten().any(|x| x.abs().num() > 20000 || x.den() > 20000)) { continue }
        c.input(format!("column {p} becomes {a:?}"));
        let back = plain(&l.change_basis(p, info), m, "column returned");
        check!(back == x, "step {step}: the column returned is {back:?} instead of {x:?}");
        b = n;
        done += 1;
        look(g, &l, &b, &format!("after change {done}"));
        if g.chance(1, 12) { l = L::invert(b.iter().map(|v| col(v))); c.input("factorised again".into()); look(g, &l, &b, "factorised again"); }
    }
    if m > 1 && done > 1 { c.nontrivial(); }
}
fn small(g: &mut Rng, c: &mut Ctx) { let m = g.range(1, 5) as usize; let s = g.range(0, 6) as usize; history(g, c, m, s) }
fn medium(g: &mut Rng, c: &mut Ctx) { let m = g.range(4, 9) as usize; let s = g.range(2, 10) as usize; history(g, c, m, s) }
fn long(g: &mut Rng, c: &mut Ctx) { let m = g.range(2, 6) as usize; history(g, c, m, 40) }
fn factor(g: &mut Rng, c: &mut Ctx) { let m = g.range(5, 12) as usize; let b = basis(g, m); c.input(format!("columns {b:?}")); let l = L::invert(b.iter().map(|v| col(v))); for _ in 0..3 { look(g, &l, &b, "factorised"); } c.nontrivial(); }
fn main() { harness::main(kinds![small: 6, medium: 3, long: 1, factor: 3]) }
