//! C06 sparse and dense vectors against the plain list of numbers.
use harness::form::{dv, q, r, R};
use harness::{check, kinds, Ctx, Rng, Q};
use relp::algorithm::two_phase::matrix_provider::column::{Column, SparseSliceIterator};
use relp::data::linear_algebra::vector::{DenseVector, SparseVector, Vector};

type S = SparseVector<R, R>;
fn list(s: &S) -> Vec<Q> {
    let n = Vector::len(s);
    let mut v = vec![Q::ZERO; n];
    let mut last = None;
    for (i, x) in Vector::iter(s) {
        check!(last.map_or(true, |l| l < *i), "indices are not increasing: {s:?}");
        check!(*i < n, "index {i} outside the length {n}: {s:?}");
        let x = q(x);
        check!(!x.is_zero(), "a zero is stored at {i}: {s:?}");
        v[*i] = x; last = Some(*i);
    }
    v
}
fn same(s: &S, want: &[Q], what: &str) {
    let got = list(s);
    check!(got == want, "{what}: the vector is {got:?}, expected {want:?}");
    check!(Vector::is_empty(s) == want.is_empty() && Vector::size(s) == want.iter().filter(|x| !x.is_zero()).count(), "{what}: is_empty or size wrong");
    for i in 0..want.len() {
        let g = Vector::get(s, i).map(q);
        check!(g == if want[i].is_zero() { None } else { Some(want[i]) }, "{what}: get({i}) = {g:?}, expected {:?}", want[i]);
        let t = s.index_to_string(i);
        check!(t == r(want[i]).to_string(), "{what}: index_to_string({i}) = {t}");
    }
}
fn gen(g: &mut Rng, n: usize) -> Vec<Q> { let d = g.range(0, 4) as usize; (0..n).map(|_| if g.chance(d, 4) { if g.chance(1, 2) { g.nzfrac() } else { Q::int(g.range(-2, 2) as i128) } } else { Q::ZERO }).collect() }
fn sp(v: &[Q]) -> S { SparseVector::new(tuples(v), v.len()) }
fn tuples(v: &[Q]) -> Vec<(usize, R)> { v.iter().enumerate().filter(|(_, x)| !x.is_zero()).map(|(i, &x)| (i, r(x))).collect() }
fn size(g: &mut Rng) -> usize { if g.chance(3, 4) { g.range(1, 6) as usize } else { g.range(1, 20) as usize } }
fn removal(g: &mut Rng, n: usize) -> Vec<usize> { let p = g.range(1, 3) as usize; let mut v = g.subset(n, p, 4); if v.len() == n { v.pop(); } v }
fn product(a: &[Q], b: &[Q]) -> Q { a.iter().zip(b).fold(Q::ZERO, |t, (&x, &y)| t + x * y) }

fn sparse(g: &mut Rng, c: &mut Ctx) {
    let n = size(g);
    let mut m = gen(g, n);
    c.input(format!("sparse {m:?}"));
    let mut s: S = if g.chance(1, 3) { m.iter().map(|&x| r(x)).collect() } else { sp(&m) };
    same(&s, &m, "created");
    for _ in 0..g.range(1, 8) {
        let n = m.len();
        let i = g.below(n);
        let what = match g.below(10) {
            0 => { let v = g.nzfrac(); m[i] = v; s.set(i, r(v)); format!("set({i}, {v:?})") }
            1 | 2 => { let v = if g.chance(1, 3) { Q::ZERO - m[i] } else { g.frac() }; m[i] = m[i] + v; s.shift_value(i, r(v)); format!("shift_value({i}, {v:?})") }
            3 | 4 | 5 => {
                let o: Vec<Q> = if g.chance(1, 3) { let k = g.nzfrac(); m.iter().map(|&x| if g.chance(1, 4) { Q::ZERO } else { x * k }).collect() } else { gen(g, n) };
                let k = match o.iter().zip(&m).find(|(x, y)| !x.is_zero() && !y.is_zero()) { Some((&x, &y)) if g.chance(1, 2) => Q::ZERO - y / x, _ => g.nzfrac() };
                for j in 0..n { m[j] = m[j] + k * o[j]; }
                s.add_multiple_of_row(&r(k), &sp(&o)); format!("add_multiple_of_row({k:?}, {o:?})")
            }
            6 => { let k = g.nzfrac(); for x in &mut m { *x = *x * k; } s.element_wise_multiply(&r(k)); format!("element_wise_multiply({k:?})") }
            7 => { let k = g.nzfrac(); for x in &mut m { *x = *x / k; } s.element_wise_divide(&r(k)); format!("element_wise_divide({k:?})") }
            8 => { let v = g.nzfrac(); m.push(v); s.push_value(r(v)); format!("push_value({v:?})") }
            _ => { let d = removal(g, n); for &j in d.iter().rev() { m.remove(j); } s.remove_indices(&d); format!("remove_indices({d:?})") }
        };
        c.input(what.clone());
        same(&s, &m, &what);
        if m.iter().any(|x| !x.is_zero()) { c.nontrivial(); }
    }
}
fn dense(g: &mut Rng, c: &mut Ctx) {
    let n = size(g);
    let mut m = gen(g, n);
    c.input(format!("dense {m:?}"));
    let mut s: DenseVector<R> = match g.below(3) { 0 => m.iter().map(|&x| r(x)).collect(), 1 => { let k = m[0]; m = vec![k; n]; DenseVector::constant(r(k), n) }, _ => dv(&m) };
    for _ in 0..g.range(1, 6) {
        let n = m.len();
        let i = g.below(n);
        let what = match g.below(5) {
            0 => { let v = g.frac(); m[i] = v; s.set(i, r(v)); format!("set({i}, {v:?})") }
            1 => { let v = g.frac(); m.push(v); s.push_value(r(v)); format!("push_value({v:?})") }
            2 => { let k = g.range(0, 4) as usize; let o = gen(g, k); m.extend(o.iter().copied()); s.extend_with_values(o.iter().map(|&x| r(x)).collect()); format!("extend_with_values({o:?})") }
            3 => { let v = g.frac(); m[i] = v; s[i] = r(v); format!("[{i}] = {v:?}") }
            _ => { let d = removal(g, n); for &j in d.iter().rev() { m.remove(j); } s.remove_indices(&d); format!("remove_indices({d:?})") }
        };
        c.input(what.clone());
        let got: Vec<Q> = Vector::iter(&s).map(q).collect();
        check!(got == m && Vector::len(&s) == m.len() && Vector::size(&s) == m.len() && Vector::is_empty(&s) == m.is_empty(), "{what}: dense vector {got:?}, expected {m:?}");
        for j in 0..m.len() { check!(Vector::get(&s, j).map(q) == Some(m[j]) && q(&s[j]) == m[j], "{what}: read at {j}"); }
        let o = gen(g, m.len());
        let t = tuples(&o);
        let p = q(&s.sparse_inner_product::<_, R>(SparseSliceIterator::new(&t)));
        check!(p == product(&o, &m), "{what}: dense inner product with {o:?} is {p:?}");
        c.nontrivial();
    }
}
fn products(g: &mut Rng, c: &mut Ctx) {
    let n = size(g);
    let (a, b) = (gen(g, n), gen(g, n));
    c.input(format!("{a:?} times {b:?}"));
    let want = product(&a, &b);
    let (s, t) = (sp(&a), tuples(&b));
    let p = q(&s.sparse_inner_product::<_, R>(SparseSliceIterator::new(&t)));
    check!(p == want, "sparse inner product {p:?}, expected {want:?}");
    let p = q(&s.inner_product_with_dense::<R, R>(&dv(&b)));
    check!(p == want, "inner product with dense {p:?}, expected {want:?}");
    let p = q(&s.squared_norm());
    check!(p == product(&a, &a), "squared norm {p:?}");
    let i = g.below(n);
    let mut e = vec![Q::ZERO; n]; e[i] = Q::int(1);
    same(&S::standard_basis_vector(i, n), &e, "standard basis vector");
    check!((sp(&a) == sp(&b)) == (a == b), "equality of {a:?} and {b:?}");
    let k: Vec<R> = s.clone().into_iter().map(|(_, v)| v).collect();
    check!(k.len() == a.iter().filter(|x| !x.is_zero()).count(), "into_iter");
    if !want.is_zero() { c.nontrivial(); }
}
fn main() { harness::main(kinds![sparse: 4, dense: 2, products: 2]) }
