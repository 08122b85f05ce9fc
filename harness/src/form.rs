//! Moving problems between the oracle (`Lp`) and the code under test.
use crate::lp::{Lp, Res, Row, B};
use crate::Q;
use num_traits::Zero;
use relp::algorithm::two_phase::matrix_provider::matrix_data::MatrixData;
use relp::algorithm::two_phase::matrix_provider::MatrixProvider;
use relp::algorithm::two_phase::tableau::inverse_maintenance::carry::basis_inverse_rows::BasisInverseRows;
use relp::algorithm::two_phase::tableau::inverse_maintenance::carry::lower_upper::LUDecomposition;
use relp::algorithm::two_phase::tableau::inverse_maintenance::carry::Carry;
use relp::algorithm::{OptimizationResult, SolveRelaxation};
use relp::data::linear_algebra::matrix::{ColumnMajor, MatrixOrder, SparseMatrix};
use relp::data::linear_algebra::vector::{DenseVector, SparseVector, Vector};
use relp::data::linear_program::elements::{LinearProgramType, Objective, RangedConstraintRelation, VariableType};
use relp::data::linear_program::general_form::{GeneralForm, Variable};
use relp::data::linear_program::solution::Solution;
pub use relp_num::RationalBig as R;

pub type BI = Carry<R, BasisInverseRows<R>>;
pub type LU = Carry<R, LUDecomposition<R>>;

pub fn r(q: Q) -> R { q.to_r() }
pub fn q(r: &R) -> Q { Q::parse(&r.to_string()) }
pub fn dense(v: &SparseVector<R, R>) -> Vec<Q> { let mut x = vec![Q::ZERO; v.len()]; for (i, v) in v.iter() { x[i] = q(v); } x }
pub fn matrix(rows: &[Vec<Q>], n: usize) -> SparseMatrix<R, R, ColumnMajor> {
    let cols = (0..n).map(|j| rows.iter().enumerate().filter(|(_, a)| !a[j].is_zero()).map(|(i, a)| (i, r(a[j]))).collect()).collect();
    ColumnMajor::new(cols, rows.len(), n)
}
pub fn table(m: &SparseMatrix<R, R, ColumnMajor>) -> Vec<Vec<Q>> {
    let mut t = vec![vec![Q::ZERO; m.nr_columns()]; m.nr_rows()];
    for j in 0..m.nr_columns() { for (i, v) in m.iter_column(j) { t[*i][j] = q(v); } }
    t
}
pub fn dv(v: &[Q]) -> DenseVector<R> { let n = v.len(); DenseVector::new(v.iter().map(|&x| r(x)).collect(), n) }
pub fn variable(cost: Q, lo: B, hi: B) -> Variable<R> { Variable { variable_type: VariableType::Continuous, cost: r(cost), lower_bound: lo.map(r), upper_bound: hi.map(r), shift: R::zero(), flipped: false } }

/// The pieces a `MatrixData` borrows from, for a problem with variables in [0, hi], all right hand sides
/// nonnegative and rows grouped by kind.
pub struct Md { pub m: SparseMatrix<R, R, ColumnMajor>, pub b: DenseVector<R>, pub ranges: Vec<R>, pub counts: [usize; 4], pub vars: Vec<Variable<R>>, pub lp: Lp }
impl Md {
    /// None if a row has no bound
    pub fn new(lp: &Lp) -> Md {
        let mut groups: [Vec<(Vec<Q>, Q, Q)>; 4] = Default::default();
        for row in &lp.rows {
            let neg = |a: &Vec<Q>| a.iter().map(|&v| -v).collect::<Vec<_>>();
            match (row.lo, row.hi) {
                (Some(l), Some(h)) if l == h => groups[0].push(if h.signum() < 0 { (neg(&row.a), -h, Q::ZERO) } else { (row.a.clone(), h, Q::ZERO) }),
                (Some(l), Some(h)) => groups[1].push(if h.signum() < 0 { (neg(&row.a), -l, h - l) } else { (row.a.clone(), h, h - l) }),
                (None, Some(h)) => if h.signum() < 0 { groups[3].push((neg(&row.a), -h, Q::ZERO)) } else { groups[2].push((row.a.clone(), h, Q::ZERO)) },
                (Some(l), None) => if l.signum() < 0 { groups[2].push((neg(&row.a), -l, Q::ZERO)) } else { groups[3].push((row.a.clone(), l, Q::ZERO)) },
                (None, None) => {}
            }
        }
        let counts = [groups[0].len(), groups[1].len(), groups[2].len(), groups[3].len()];
        let ranges = groups[1].iter().map(|g| r(g.2)).collect();
        let mut rows = vec![]; let mut a = vec![]; let mut b = vec![];
        for (k, g) in groups.iter().enumerate() { for (x, y, w) in g { a.push(x.clone()); b.push(*y); rows.push(Row { a: x.clone(), lo: match k { 0 => Some(*y), 1 => Some(*y - *w), 2 => None, _ => Some(*y) }, hi: match k { 3 => None, _ => Some(*y) } }); } }
        let vars = lp.vars.iter().zip(&lp.c).map(|(&(_, h), &c)| variable(c, Some(Q::ZERO), h)).collect();
        let n = lp.vars.len();
        Md { m: matrix(&a, n), b: dv(&b), ranges, counts, vars, lp: Lp { rows, maximize: false, ..lp.clone() } }
    }
    pub fn data(&self) -> MatrixData<'_, R> { let c = self.counts; MatrixData::new(&self.m, &self.b, self.ranges.iter().collect(), c[0], c[1], c[2], c[3], &self.vars) }
}
/// Solve and project to the original variables.
pub fn solve(d: &MatrixData<R>, lu: bool) -> (OptimizationResult<R>, Option<Vec<Q>>) {
    let res = if lu { d.solve_relaxation::<LU>() } else { d.solve_relaxation::<BI>() };
    let x = match &res { OptimizationResult::FiniteOptimum(v) => Some(dense(&d.reconstruct_solution(v.clone()))), _ => None };
    (res, x)
}
/// The right solution of the problem: compares the answer with the oracle.
pub fn judge(lp: &Lp, res: &OptimizationResult<R>, x: &Option<Vec<Q>>, what: &str) {
    let want = lp.solve();
    match (res, &want) {
        (OptimizationResult::Infeasible, Res::Infeasible) | (OptimizationResult::Unbounded, Res::Unbounded) => {}
        (OptimizationResult::FiniteOptimum(_), _) => {
            let x = x.as_ref().unwrap();
            if let Some(e) = lp.violated(x) { crate::fail!("{what}: the returned point {x:?} is not feasible: {e} (expected {want:?})"); }
            crate::check!(want == Res::Opt(lp.value(x)), "{what}: returned point {x:?} has value {}, expected {want:?}", lp.value(x));
        }
        _ => crate::fail!("{what}: verdict {}, expected {want:?}", match res { OptimizationResult::Infeasible => "infeasible", _ => "unbounded" }),
    }
}

pub fn general(lp: &Lp) -> GeneralForm<R> { general_with(lp, &vec![(Q::ZERO, false); lp.vars.len()]) }
/// the variables shifted and flipped before
pub fn general_with(lp: &Lp, before: &[(Q, bool)]) -> GeneralForm<R> {
    let a: Vec<Vec<Q>> = lp.rows.iter().map(|r| r.a.clone()).collect();
    let n = lp.vars.len();
    let mut types = vec![]; let mut b = vec![];
    for row in &lp.rows {
        let (t, v) = match (row.lo, row.hi) {
            (Some(l), Some(h)) if l == h => (RangedConstraintRelation::Equal, l),
            (Some(l), Some(h)) => (RangedConstraintRelation::Range(r(h - l)), h),
            (None, Some(h)) => (RangedConstraintRelation::Less, h),
            (Some(l), None) => (RangedConstraintRelation::Greater, l),
            (None, None) => panic!("harness: row without bound"),
        };
        types.push(t); b.push(v);
    }
    GeneralForm::new(if lp.maximize { Objective::Maximize } else { Objective::Minimize }, matrix(&a, n), types, dv(&b),
        (0..n).map(|j| Variable { shift: r(before[j].0), flipped: before[j].1, ..variable(lp.c[j], lp.vars[j].0, lp.vars[j].1) }).collect(), names(n), r(lp.c0))
}
pub fn names(n: usize) -> Vec<String> { (0..n).map(|j| format!("x{j}")).collect() }
/// The problem a general form states in its own (active) variables.
pub fn view(g: &GeneralForm<R>) -> Lp {
    let (o, f, m, t, b, v) = g.verif_view();
    let rows = table(m).into_iter().enumerate().map(|(i, a)| { let bi = q(&b[i]); let (lo, hi) = match &t[i] { RangedConstraintRelation::Equal => (Some(bi), Some(bi)), RangedConstraintRelation::Range(w) => (Some(bi - q(w)), Some(bi)), RangedConstraintRelation::Less => (None, Some(bi)), RangedConstraintRelation::Greater => (Some(bi), None) }; Row { a, lo, hi } }).collect();
    Lp { maximize: matches!(o, Objective::Maximize), c: v.iter().map(|v| q(&v.cost)).collect(), c0: q(f), rows, vars: v.iter().map(|v| (v.lower_bound.as_ref().map(q), v.upper_bound.as_ref().map(q))).collect() }
}
/// The values of a solution in the order of the given names; fails when a name is missing or repeated.
pub fn values(s: &Solution<R>, names: &[String], what: &str) -> Vec<Q> {
    crate::check!(s.solution_values.len() == names.len(), "{what}: {} values reported for {} variables", s.solution_values.len(), names.len());
    names.iter().map(|n| { let m: Vec<_> = s.solution_values.iter().filter(|(k, _)| k == n).collect(); crate::check!(m.len() == 1, "{what}: variable {n} reported {} times", m.len()); q(&m[0].1) }).collect()
}
/// `fixed`: the constant of the standardised problem, when the solver was run on it
pub enum Verdict { Infeasible, Unbounded, Opt(Solution<R>, Option<Q>) }
pub fn judge_solution(c: &mut crate::Ctx, lp: &Lp, v: &Verdict, names: &[String], what: &str) {
    judge_values(lp, v, names, what);
    if let Verdict::Opt(s, fixed) = v {
        let x = values(s, names, what); let (v, o) = (lp.value(&x), q(&s.objective_value));
        if lp.maximize && v != o && fixed.map_or(false, |f| o == f + f - v) { c.known("max-objective-sign", format!("{what}: maximising, optimum {v} at {x:?} reported as {o}: only the constant {} keeps its sign", fixed.unwrap())); }
        else { crate::check!(v == o, "{what}: reported objective {o} but the reported values {x:?} give {v}"); }
    }
}
/// the verdict and the values, not the objective value
pub fn judge_values(lp: &Lp, v: &Verdict, names: &[String], what: &str) {
    let want = lp.solve();
    match (v, &want) {
        (Verdict::Infeasible, Res::Infeasible) | (Verdict::Unbounded, Res::Unbounded) => {}
        (Verdict::Opt(s, _), _) => {
            let x = values(s, names, what);
            if let Some(e) = lp.violated(&x) { crate::fail!("{what}: the reported solution {x:?} is not feasible: {e} (expected {want:?})"); }
            crate::check!(want == Res::Opt(lp.value(&x)), "{what}: reported optimum {} at {x:?}, expected {want:?}", lp.value(&x));
        }
        (v, _) => crate::fail!("{what}: verdict {}, expected {want:?}", match v { Verdict::Infeasible => "infeasible", _ => "unbounded" }),
    }
}
pub fn pipeline(mut g: GeneralForm<R>, presolve: bool, lu: bool) -> Verdict {
    if presolve { match g.presolve() { Ok(()) => {} Err(LinearProgramType::Infeasible) => return Verdict::Infeasible, Err(LinearProgramType::Unbounded) => return Verdict::Unbounded, Err(LinearProgramType::FiniteOptimum(s)) => return Verdict::Opt(s, None) } }
    let counts = g.standardize();
    let fixed = q(g.verif_view().1);
    let rec = {
        let d = g.derive_matrix_data(counts);
        match if lu { d.solve_relaxation::<LU>() } else { d.solve_relaxation::<BI>() } {
            OptimizationResult::Infeasible => return Verdict::Infeasible,
            OptimizationResult::Unbounded => return Verdict::Unbounded,
            OptimizationResult::FiniteOptimum(v) => d.reconstruct_solution(v),
        }
    };
    Verdict::Opt(g.compute_full_solution_with_reduced_solution(rec), Some(fixed))
}
