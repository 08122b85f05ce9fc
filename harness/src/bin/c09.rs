//! C09: a problem without some of its rows.
use harness::form::{dense, q, r, Md, R};
use harness::{check, kinds, lp, sim, Ctx, Rng, Q};
use relp::algorithm::two_phase::matrix_provider::column::Column;
use relp::algorithm::two_phase::matrix_provider::filter::generic_wrapper::RemoveRows;
use relp::algorithm::two_phase::matrix_provider::filter::{Filtered, ToFiltered};
use relp::algorithm::two_phase::matrix_provider::variable::FeasibilityLogic;
use relp::algorithm::two_phase::matrix_provider::MatrixProvider;
use relp::algorithm::two_phase::phase_one::PartialInitialBasis;
use relp::data::linear_algebra::vector::{DenseVector, SparseVector, Vector};
use relp::data::linear_program::elements::BoundDirection;

fn items<C: Column<F = R>>(c: &C, n: usize, what: &str) -> Vec<Q> {
    let mut x = vec![Q::ZERO; n]; let mut last = None;
    for (i, v) in c.iter() { check!(last.map_or(true, |l| l < i) && i < n, "{what}: rows not increasing below {n}: {:?}", c.iter().map(|x| x.0).collect::<Vec<_>>()); x[i] = q(v); check!(!x[i].is_zero(), "{what}: a zero is stored"); last = Some(i); }
    x
}
fn without<T: Clone>(v: &[T], gone: &[usize]) -> Vec<T> { v.iter().enumerate().filter(|(i, _)| !gone.contains(i)).map(|x| x.1.clone()).collect() }
/// all that `f` presents are the rows of `p` that are not in `gone`, all of them constraints
fn same<'a, P: MatrixProvider<Rhs = R> + 'a, F: MatrixProvider<Rhs = R>>(p: &'a P, f: &'a F, gone: &[usize], cost: impl Fn(&P, usize) -> Q, fcost: impl Fn(&F, usize) -> Q, what: &str)
where P::Column: Column<F = R>, F::Column: Column<F = R> {
    let (m, n) = (p.nr_rows(), p.nr_columns());
    check!(f.nr_columns() == n && f.nr_rows() == m - gone.len() && f.nr_constraints() == p.nr_constraints() - gone.len() && f.nr_variable_bounds() == p.nr_variable_bounds(), "{what}: {} columns, {} rows, {} constraints, {} bounds", f.nr_columns(), f.nr_rows(), f.nr_constraints(), f.nr_variable_bounds());
    for j in 0..n {
        let full = items(&p.column(j), m, "original column"); let want = without(&full, gone);
        let fc = f.column(j);
        let got = items(&fc, want.len(), "column");
        check!(got == want, "{what}: column {j}: {got:?}, expected {want:?}");
        let owned: Vec<_> = f.column(j).into_iter().map(|(i, v)| (i, q(&v))).collect();
        check!(owned == fc.iter().map(|(i, v)| (i, q(v))).collect::<Vec<_>>(), "{what}: column {j} by value: {owned:?}");
        check!(fcost(f, j) == cost(p, j), "{what}: cost of {j}");
        for up in [false, true] {
            let d = || if up { BoundDirection::Upper } else { BoundDirection::Lower };
            let want = p.bound_row_index(j, d()).map(|i| i - gone.iter().filter(|&&g| g < i).count());
            let got = f.bound_row_index(j, d());
            check!(got == want, "{what}: bound row of column {j}, upper {up}: {got:?}, expected {want:?}");
        }
    }
    let b = |v: DenseVector<R>| v.iter().map(q).collect::<Vec<Q>>();
    let (got, want) = (b(f.right_hand_side()), without(&b(p.right_hand_side()), gone));
    check!(got == want, "{what}: right hand side {got:?}, expected {want:?}");
    let v = || SparseVector::<R, R>::new((0..n).filter(|j| j % 3 != 1).map(|j| (j, r(Q::int(j as i128 + 1)))).collect(), n);
    let (got, want) = (f.reconstruct_solution(v()), p.reconstruct_solution(v()));
    check!(got.len() == want.len() && dense(&got) == dense(&want), "{what}: reconstructed {got:?}, expected {want:?}");
}
fn rows(f: &impl Filtered, gone: &[usize], what: &str) { check!(f.filtered_rows() == gone, "{what}: filtered rows {:?}, expected {gone:?}", f.filtered_rows()); }
/// drop the rows one by one, in the order given
fn one_by_one<'a, P: MatrixProvider<Rhs = R>>(p: &'a P, order: &[usize], what: &str) -> RemoveRows<'a, P> where P::Column: Column<F = R> + relp::algorithm::two_phase::matrix_provider::filter::generic_wrapper::IntoFilteredColumn {
    let mut f = RemoveRows::new(p, Vec::new()); let mut gone: Vec<usize> = vec![];
    for &i in order {
        let keep: Vec<usize> = (0..p.nr_rows()).filter(|k| !gone.contains(k)).collect();
        for (k, &u) in keep.iter().enumerate() { let got = f.get_underlying_row_index(k); check!(got == u, "{what}: without {gone:?}, row {k} is {got} of the original, expected {u}"); }
        f.delete_row(keep.iter().position(|&k| k == i).unwrap());
        gone.push(i); gone.sort();
        rows(&f, &gone, what); check!(f.nr_constraints_deleted() == gone.len(), "{what}: {} deleted, expected {}", f.nr_constraints_deleted(), gone.len());
    }
    f
}
fn choice(g: &mut Rng, m: usize) -> Vec<usize> {
    match g.below(4) { 0 if m > 0 => { let a = g.below(m); let b = a + g.below(m - a); (a..=b).collect() } 1 => (0..m).collect(), _ => { let k = g.range(1, 3) as usize; g.subset(m, k, 4) } }
}
fn plain(g: &mut Rng, c: &mut Ctx) {
    let m = g.range(1, 9) as usize; let n = g.range(1, 6) as usize; let d = g.range(1, 4) as usize;
    let a: Vec<Vec<Q>> = (0..n).map(|_| (0..m).map(|_| if g.chance(d, 4) { g.frac() } else { Q::ZERO }).collect()).collect();
    let b = (0..m).map(|_| Q::int(g.range(0, 9) as i128)).collect(); let cost = (0..n).map(|_| g.frac()).collect();
    let p = sim::Plain::new(a, b, cost);
    let gone = choice(g, m); let mut order = gone.clone(); g.shuffle(&mut order);
    c.input(format!("{p} without {gone:?}, in the order {order:?}"));
    for (f, what) in [(RemoveRows::new(&p, gone.clone()), "at once"), (one_by_one(&p, &order, "one by one"), "one by one")] {
        same(&p, &f, &gone, |p, j| q(p.cost_value(j)), |p, j| q(p.cost_value(j)), what); rows(&f, &gone, what);
    }
    let f = p.to_filtered(gone.clone());
    same(&p, &f, &gone, |p, j| q(p.cost_value(j)), |p, j| q(p.cost_value(j)), "to_filtered"); rows(&f, &gone, "to_filtered");
    let left: Vec<usize> = (0..m).filter(|i| !gone.contains(i)).collect();
    let s = RemoveRows::new(&p, gone.clone()); for k in 0..left.len() { check!(s.get_underlying_row_index(k) == left[k], "row {k} is {} of the original, expected {}", s.get_underlying_row_index(k), left[k]); }
    if !gone.is_empty() && gone.len() < m { c.nontrivial(); }
}
fn data(g: &mut Rng, c: &mut Ctx) {
    let p = lp::random(g, lp::Shape { max_n: 5, max_m: 8, nonneg_only: true, tame: false });
    let md = Md::new(&p); let d = md.data();
    // only rows of equality constraints turn out to be redundant
    let gone = choice(g, md.counts[0]); let mut order = gone.clone(); g.shuffle(&mut order);
    c.input(format!("{} (rows grouped {:?}) without {gone:?}, in the order {order:?}", md.lp, md.counts));
    let zero = |x: Option<&R>| x.map_or(Q::ZERO, q);
    let want: Vec<(usize, usize)> = d.pivot_element_indices().into_iter().filter(|x| !gone.contains(&x.0)).map(|(i, j)| (i - gone.iter().filter(|&&g| g < i).count(), j)).collect();
    for (f, what) in [(RemoveRows::new(&d, gone.clone()), "at once"), (one_by_one(&d, &order, "one by one"), "one by one")] {
        same(&d, &f, &gone, |p, j| zero(p.cost_value(j)), |p, j| zero(p.cost_value(j)), what); rows(&f, &gone, what);
        let got = f.pivot_element_indices();
        check!(got == want && f.nr_initial_elements() == want.len(), "{what}: slacks of the initial basis {got:?} ({}), expected {want:?}", f.nr_initial_elements());
        for &(i, j) in &got { let col = items(&f.column(j), f.nr_rows(), "slack"); check!(col.iter().enumerate().all(|(k, v)| *v == if k == i { Q::ONE } else { Q::ZERO }), "{what}: column {j} is not the unit vector of row {i}: {col:?}"); }
    }
    if !gone.is_empty() { c.nontrivial(); }
}
/// any constraint may be dropped with its slack: a problem that also presents an initial basis
#[derive(Debug)]
struct Slacked { p: sim::Plain, unit: Vec<(usize, usize)> }
impl std::fmt::Display for Slacked { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{} units {:?}", self.p, self.unit) } }
impl MatrixProvider for Slacked {
    type Column = sim::Col; type Cost<'a> = &'a R; type Rhs = R;
    fn column(&self, j: usize) -> sim::Col { self.p.column(j) }
    fn cost_value(&self, j: usize) -> &R { self.p.cost_value(j) }
    fn right_hand_side(&self) -> DenseVector<R> { self.p.right_hand_side() }
    fn bound_row_index(&self, j: usize, d: BoundDirection) -> Option<usize> { match d { BoundDirection::Upper if j < 2 => Some(self.p.b.len() - 2 + j), _ => None } }
    fn nr_constraints(&self) -> usize { self.p.b.len() - 2 }
    fn nr_variable_bounds(&self) -> usize { 2 }
    fn nr_columns(&self) -> usize { self.p.nr_columns() }
    fn reconstruct_solution<H>(&self, v: SparseVector<H, H>) -> SparseVector<H, H> { v }
}
impl PartialInitialBasis for Slacked {
    fn pivot_element_indices(&self) -> Vec<(usize, usize)> { self.unit.clone() }
    fn nr_initial_elements(&self) -> usize { self.unit.len() }
}
impl FeasibilityLogic for Slacked {
    fn is_feasible(&self, j: usize, value: R) -> bool { q(&value) <= Q::int(j as i128) }
    fn closest_feasible(&self, j: usize, value: R) -> (Option<R>, Option<R>) { (if j % 2 == 0 { Some(value) } else { None }, if j % 3 == 0 { Some(r(Q::int(j as i128))) } else { None }) }
}
fn slacks(g: &mut Rng, c: &mut Ctx) {
    let k = g.range(1, 8) as usize; let m = k + 2; let n = m + g.range(0, 3) as usize;
    let mut a: Vec<Vec<Q>> = (0..n).map(|_| (0..m).map(|_| if g.chance(1, 2) { g.frac() } else { Q::ZERO }).collect()).collect();
    let u = g.range(0, 4) as usize; let with = g.subset(m, u, 4); let at = g.perm(n);
    let unit: Vec<(usize, usize)> = with.iter().zip(at).map(|(&i, j)| (i, j)).collect();
    for &(i, j) in &unit { a[j] = (0..m).map(|x| if x == i { Q::ONE } else { Q::ZERO }).collect(); }
    let b = (0..m).map(|_| Q::int(g.range(0, 9) as i128)).collect(); let cost = (0..n).map(|_| g.frac()).collect();
    let p = Slacked { p: sim::Plain::new(a, b, cost), unit };
    let gone = choice(g, k); let mut order = gone.clone(); g.shuffle(&mut order);
    c.input(format!("{p} without {gone:?}, in the order {order:?}"));
    let want: Vec<(usize, usize)> = p.unit.iter().filter(|x| !gone.contains(&x.0)).map(|&(i, j)| (i - gone.iter().filter(|&&g| g < i).count(), j)).collect();
    for (f, what) in [(RemoveRows::new(&p, gone.clone()), "at once"), (one_by_one(&p, &order, "one by one"), "one by one")] {
        same(&p, &f, &gone, |p, j| q(p.cost_value(j)), |p, j| q(p.cost_value(j)), what); rows(&f, &gone, what);
        let got = f.pivot_element_indices();
        check!(got == want && f.nr_initial_elements() == want.len(), "{what}: slacks of the initial basis {got:?} ({}), expected {want:?}", f.nr_initial_elements());
        for j in 0..n { let v = g.frac(); check!(f.is_feasible(j, r(v)) == p.is_feasible(j, r(v)) && f.closest_feasible(j, r(v)) == p.closest_feasible(j, r(v)), "{what}: feasibility of {v:?} for variable {j}"); }
    }
    if want.len() < p.unit.len() && !want.is_empty() { c.nontrivial(); }
}
fn main() { harness::main(kinds![plain: 3, data: 3, slacks: 3]) }
