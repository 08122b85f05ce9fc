//! Drives the real tableaus of the simplex method, comparing everything observable with values computed
//! from scratch from the basis.
use crate::form::{q, r, R};
use crate::{check, Ctx, Rng, Q};
use relp::algorithm::two_phase::matrix_provider::column::{identity::Identity, Column, SparseSliceIterator};
use relp::algorithm::two_phase::matrix_provider::filter::generic_wrapper::IntoFilteredColumn;
use relp::algorithm::two_phase::matrix_provider::MatrixProvider;
use relp::algorithm::two_phase::strategy::pivot_rule::{FirstProfitable, FirstProfitableWithMemory, PivotRule, SteepestDescentAlongObjective, SteepestDescentAlongVariable};
use relp::algorithm::two_phase::tableau::inverse_maintenance::{ColumnComputationInfo, InverseMaintainer};
use relp::algorithm::two_phase::tableau::kind::non_artificial::NonArtificial;
use relp::algorithm::two_phase::tableau::{BasisChangeComputationInfo, Tableau};
use relp::data::linear_algebra::vector::{DenseVector, SparseVector, Vector};
use relp::data::linear_program::elements::BoundDirection;
use num_traits::One;

/// min c x, A x = b, x >= 0 with the columns given explicitly
#[derive(Debug, Clone)]
pub struct Plain { pub a: Vec<Vec<Q>>, pub b: Vec<Q>, pub c: Vec<Q>, pub costs: Vec<R> }
impl Plain { pub fn new(a: Vec<Vec<Q>>, b: Vec<Q>, c: Vec<Q>) -> Plain { let costs = c.iter().map(|&x| r(x)).collect(); Plain { a, b, c, costs } } }
impl std::fmt::Display for Plain { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "columns {:?} b {:?} c {:?}", self.a, self.b, self.c) } }
#[derive(Debug, Clone)]
pub struct Col(pub Vec<(usize, R)>);
impl IntoIterator for Col { type Item = (usize, R); type IntoIter = std::vec::IntoIter<(usize, R)>; fn into_iter(self) -> Self::IntoIter { self.0.into_iter() } }
impl Column for Col {
    type F = R;
    type Iter<'a> = SparseSliceIterator<'a, R>;
    fn iter(&self) -> Self::Iter<'_> { SparseSliceIterator::new(&self.0) }
    fn index_to_string(&self, i: usize) -> String { self.0.iter().find(|x| x.0 == i).map_or("0".into(), |x| x.1.to_string()) }
}
impl Identity for Col { fn identity(i: usize, _: usize) -> Col { Col(vec![(i, R::one())]) } }
impl IntoFilteredColumn for Col {
    type Filtered = Col;
    fn into_filtered(self, gone: &[usize]) -> Col { Col(self.0.into_iter().filter(|x| !gone.contains(&x.0)).map(|(i, v)| (i - gone.iter().filter(|&&g| g < i).count(), v)).collect()) }
}
pub fn col(v: &[Q]) -> Col { Col(v.iter().enumerate().filter(|x| !x.1.is_zero()).map(|(i, &x)| (i, r(x))).collect()) }
impl MatrixProvider for Plain {
    type Column = Col;
    type Cost<'a> = &'a R;
    type Rhs = R;
    fn column(&self, j: usize) -> Col { col(&self.a[j]) }
    fn cost_value(&self, j: usize) -> &R { &self.costs[j] }
    fn right_hand_side(&self) -> DenseVector<R> { crate::form::dv(&self.b) }
    fn bound_row_index(&self, _: usize, _: BoundDirection) -> Option<usize> { None }
    fn nr_constraints(&self) -> usize { self.b.len() }
    fn nr_variable_bounds(&self) -> usize { 0 }
    fn nr_columns(&self) -> usize { self.a.len() }
    fn reconstruct_solution<H>(&self, v: SparseVector<H, H>) -> SparseVector<H, H> { v }
}

/// inverse of the matrix with the given columns, as rows
pub fn invert(cols: &[&Vec<Q>]) -> Option<Vec<Vec<Q>>> {
    let m = cols.len();
    let mut w: Vec<Vec<Q>> = (0..m).map(|i| (0..2 * m).map(|j| if j < m { cols[j][i] } else if j - m == i { Q::ONE } else { Q::ZERO }).collect()).collect();
    for k in 0..m {
        let p = (k..m).find(|&i| !w[i][k].is_zero())?; w.swap(k, p);
        let d = w[k][k]; for x in &mut w[k] { *x = *x / d; }
        for i in 0..m { if i != k && !w[i][k].is_zero() { let f = w[i][k]; for j in 0..2 * m { let s = w[k][j] * f; w[i][j] = w[i][j] - s; } } }
    }
    Some(w.into_iter().map(|x| x[m..].to_vec()).collect())
}
pub fn mul(m: &[Vec<Q>], v: &[Q]) -> Vec<Q> { m.iter().map(|x| crate::lp::dot(x, v)).collect() }
pub fn sv(v: &SparseVector<R, R>) -> Vec<Q> { crate::form::dense(v) }

/// What a basis determines.
pub struct State { pub basis: Vec<usize>, pub inv: Vec<Vec<Q>>, pub x: Vec<Q>, pub pi: Vec<Q>, pub value: Q, pub cols: Vec<Vec<Q>>, pub rc: Vec<Q> }
impl State {
    pub fn new(p: &Plain, basis: &[usize]) -> Option<State> {
        let inv = invert(&basis.iter().map(|&j| &p.a[j]).collect::<Vec<_>>())?;
        let m = basis.len();
        let x = mul(&inv, &p.b);
        let pi: Vec<Q> = (0..m).map(|k| (0..m).map(|i| p.c[basis[i]] * inv[i][k]).sum()).collect();
        let value = (0..m).map(|i| p.c[basis[i]] * x[i]).sum();
        let cols: Vec<Vec<Q>> = p.a.iter().map(|a| mul(&inv, a)).collect();
        let rc = p.a.iter().zip(&p.c).map(|(a, &c)| c - crate::lp::dot(&pi, a)).collect();
        Some(State { basis: basis.to_vec(), inv, x, pi, value, cols, rc })
    }
    pub fn feasible(&self) -> bool { self.x.iter().all(|x| x.signum() >= 0) }
}

/// A problem with `m` rows and a nonsingular basis of it; the basis is feasible if asked for.
pub fn problem(g: &mut Rng, feasible: bool, max: i64) -> (Plain, Vec<usize>) {
    let m = g.range(1, max) as usize;
    let n = m + g.range(1, 6) as usize;
    let dense = g.range(2, 6) as usize; let unit = g.chance(1, 3);
    let frac = g.chance(1, 4);
    let entry = |g: &mut Rng| if !g.chance(dense, 6) { Q::ZERO } else if frac && g.chance(1, 4) { Q::new(g.range(-5, 5) as i128, g.range(2, 3) as i128) } else { Q::int(g.range(-4, 4) as i128) };
    for _ in 0..40 {
        let a: Vec<Vec<Q>> = (0..n).map(|j| if unit && j < m { (0..m).map(|i| if i == j { Q::ONE } else { Q::ZERO }).collect() } else { (0..m).map(|_| entry(g)).collect() }).collect();
        let mut basis = g.perm(n)[..m].to_vec(); if unit && g.chance(1, 2) { basis = g.perm(m); }
        if invert(&basis.iter().map(|&j| &a[j]).collect::<Vec<_>>()).is_none() { continue }
        let c: Vec<Q> = (0..n).map(|_| if g.chance(1, 4) { Q::ZERO } else { Q::int(g.range(-5, 5) as i128) }).collect();
        let zero = g.range(0, 3) as usize;
        let x: Vec<Q> = (0..m).map(|_| if g.chance(zero, 4) { Q::ZERO } else { Q::int(g.range(if feasible { 0 } else { -4 }, 5) as i128) }).collect();
        let b = (0..m).map(|i| (0..m).map(|k| a[basis[k]][i] * x[k]).sum()).collect();
        return (Plain::new(a, b, c), basis)
    }
    crate::skip("no basis")
}
pub type Tab<'a, IM> = Tableau<IM, NonArtificial<'a, Plain>>;
pub fn tableau<'a, IM: InverseMaintainer<F = R>>(p: &'a Plain, basis: &[usize]) -> Tab<'a, IM> {
    Tableau::<IM, NonArtificial<Plain>>::new_with_inverse_maintainer(p, IM::from_basis(basis, p), basis.iter().copied().collect())
}
/// The tableau presents exactly the basis `s`.
pub fn compare<IM: InverseMaintainer<F = R>>(p: &Plain, t: &Tab<IM>, s: &State, what: &str) {
    let (m, n) = (p.b.len(), p.a.len());
    check!(t.nr_rows() == m && t.nr_columns() == n, "{what}: {} x {}", t.nr_rows(), t.nr_columns());
    for j in 0..n {
        let b = s.basis.contains(&j);
        check!(t.is_in_basis(j) == b, "{what}: is_in_basis({j}) is not {b}");
        let got = sv(t.generate_column(j).column());
        check!(got == s.cols[j], "{what}: column {j} is {got:?}, expected {:?}", s.cols[j]);
        let got = sv(&t.generate_column(j).into_column());
        check!(got == s.cols[j], "{what}: column {j} the second time is {got:?}, expected {:?}", s.cols[j]);
        for i in 0..m { let got = t.generate_element(i, j).map_or(Q::ZERO, |x| q(&x)); check!(got == s.cols[j][i], "{what}: element ({i}, {j}) is {got:?}, expected {:?}", s.cols[j][i]); }
        let got = q(&t.relative_cost(j)); check!(got == s.rc[j], "{what}: reduced cost of {j} is {got:?}, expected {:?}", s.rc[j]);
        let want = s.basis.iter().position(|&k| k == j).map_or(Q::ZERO, |i| s.x[i]);
        let got = q(&t.variable_value(j)); check!(got == want, "{what}: value of {j} is {got:?}, expected {want:?}");
        let got: Vec<_> = t.original_column(j).0.iter().map(|(i, v)| (*i, q(v))).collect();
        check!(got == col(&p.a[j]).0.iter().map(|(i, v)| (*i, q(v))).collect::<Vec<_>>(), "{what}: original column {j}");
    }
    let got = sv(&t.current_bfs());
    let mut want = vec![Q::ZERO; n]; for (i, &j) in s.basis.iter().enumerate() { want[j] = s.x[i]; }
    check!(got == want, "{what}: solution {got:?}, expected {want:?}");
    let got = q(&t.objective_function_value()); check!(got == s.value, "{what}: objective {got:?}, expected {:?}", s.value);
}
/// The description of a basis change.
pub fn compare_info(info: &BasisChangeComputationInfo<R>, old: &State, new: &State, row: usize, j: usize, what: &str) {
    check!(info.pivot_row_index == row && info.pivot_column_index == j && info.leaving_column_index == old.basis[row], "{what}: pivot ({}, {}) leaving {}; expected ({row}, {j}) leaving {}", info.pivot_row_index, info.pivot_column_index, info.leaving_column_index, old.basis[row]);
    let got = sv(&info.column_before_change); check!(got == old.cols[j], "{what}: column before the change {got:?}, expected {:?}", old.cols[j]);
    let m = old.basis.len();
    let want: Vec<Q> = (0..m).map(|k| (0..m).map(|i| old.cols[j][i] * old.inv[i][k]).sum()).collect();
    let got = sv(&info.work_vector); check!(got == want, "{what}: work vector {got:?}, expected {want:?}");
    let got = sv(&info.basis_inverse_row); check!(got == new.inv[row], "{what}: row of the inverse {got:?}, expected {:?}", new.inv[row]);
}
pub fn copy(i: &BasisChangeComputationInfo<R>) -> BasisChangeComputationInfo<R> { BasisChangeComputationInfo { pivot_row_index: i.pivot_row_index, pivot_column_index: i.pivot_column_index, leaving_column_index: i.leaving_column_index, column_before_change: i.column_before_change.clone(), work_vector: i.work_vector.clone(), basis_inverse_row: i.basis_inverse_row.clone() } }

/// The four pricing rules side by side.
pub struct Rules { a: FirstProfitable, b: FirstProfitableWithMemory, c: SteepestDescentAlongVariable, d: SteepestDescentAlongObjective<R> }
type Pick = Option<(usize, R)>;
impl Rules {
    pub fn new<IM: InverseMaintainer<F = R>>(t: &Tab<IM>) -> Rules { Rules { a: PivotRule::<R>::new(t), b: PivotRule::<R>::new(t), c: PivotRule::<R>::new(t), d: PivotRule::<R>::new(t) } }
    pub fn select<IM: InverseMaintainer<F = R>>(&mut self, k: usize, t: &Tab<IM>) -> Pick {
        match k { 0 => PivotRule::<R>::select_primal_pivot_column(&mut self.a, t), 1 => PivotRule::<R>::select_primal_pivot_column(&mut self.b, t), 2 => PivotRule::<R>::select_primal_pivot_column(&mut self.c, t), _ => self.d.select_primal_pivot_column(t) }
    }
    pub fn after<IM: InverseMaintainer<F = R>>(&mut self, i: &BasisChangeComputationInfo<R>, t: &Tab<IM>) {
        PivotRule::<R>::after_basis_update(&mut self.a, copy(i), t); PivotRule::<R>::after_basis_update(&mut self.b, copy(i), t);
        PivotRule::<R>::after_basis_update(&mut self.c, copy(i), t); self.d.after_basis_update(copy(i), t);
    }
}
pub fn judge_pick(k: usize, pick: &Pick, s: &State, what: &str) {
    let name = ["first profitable", "first profitable with memory", "steepest along variable", "steepest along objective"][k];
    let candidates: Vec<usize> = (0..s.rc.len()).filter(|j| !s.basis.contains(j) && s.rc[*j].signum() < 0).collect();
    match pick {
        None => check!(candidates.is_empty(), "{what}: {name} selects nothing; reduced costs {:?}, basis {:?}", s.rc, s.basis),
        Some((j, c)) => {
            check!(candidates.contains(j) && q(c) == s.rc[*j], "{what}: {name} selects ({j}, {c}); reduced costs {:?}, basis {:?}", s.rc, s.basis);
            let best = |j: usize| match k { 2 => -s.rc[j], _ => s.rc[j] * s.rc[j] / (Q::ONE + s.cols[j].iter().map(|&v| v * v).sum::<Q>()) };
            if k >= 2 { for &i in &candidates { check!(best(i) <= best(*j), "{what}: {name} selects {j} with {:?}, but {i} has {:?}; reduced costs {:?}, basis {:?}", best(*j), best(i), s.rc, s.basis); } }
        }
    }
}
pub fn record(c: &mut Ctx, p: &Plain, basis: &[usize], lu: bool) { c.input(format!("{} basis {basis:?} columns {p}", if lu { "LU" } else { "rows" })); }
