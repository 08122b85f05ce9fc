//! C02 one pivot: leaving row, feasibility, objective.
use harness::form::{q, BI, LU, R};
use harness::sim::*;
use harness::{check, kinds, Ctx, Rng, Q};
use relp::algorithm::two_phase::phase_two;
use relp::algorithm::two_phase::strategy::pivot_rule::FirstProfitable;
use relp::algorithm::two_phase::tableau::inverse_maintenance::{ColumnComputationInfo, InverseMaintainer};
use relp::algorithm::OptimizationResult;

fn walk<IM: InverseMaintainer<F = R>>(g: &mut Rng, c: &mut Ctx, lu: bool) {
    let (p, basis) = problem(g, true, 5);
    record(c, &p, &basis, lu);
    let Some(mut s) = State::new(&p, &basis) else { return };
    let (m, n) = (p.b.len(), p.a.len());
    let mut t = tableau::<IM>(&p, &basis);
    let value = |t: &Tab<IM>| q(&t.objective_function_value());
    check!(value(&t) == s.value, "initial objective {:?}, expected {:?}", value(&t), s.value);
    for step in 0..16 {
        let what = format!("step {step}");
        let open: Vec<usize> = (0..n).filter(|&j| !s.basis.contains(&j)).collect();
        for &j in &open {
            // the leaving row of every column
            let pick = t.select_primal_pivot_row(t.generate_column(j).column());
            let ratio: Vec<(Q, usize)> = (0..m).filter(|&i| s.cols[j][i].signum() > 0).map(|i| (s.x[i] / s.cols[j][i], i)).collect();
            let best = ratio.iter().map(|x| x.0).min();
            check!(pick.map_or(ratio.is_empty(), |i| ratio.iter().any(|x| Some(x.0) == best && x.1 == i)), "{what}: leaving row {pick:?} for column {j} = {:?} at {:?}", s.cols[j], s.x);
        }
        let improving: Vec<usize> = open.iter().copied().filter(|&j| s.rc[j].signum() < 0).collect();
        let v = if improving.is_empty() || g.chance(1, 9) { &open } else { &improving };
        if v.is_empty() { break }
        let j = *g.pick(v);
        let cost = t.relative_cost(j);
        check!(q(&cost) == s.rc[j], "{what}: reduced cost of {j} is {cost}, expected {:?}", s.rc[j]);
        let column = t.generate_column(j);
        let Some(row) = t.select_primal_pivot_row(column.column()) else { continue };
        let step_length = s.x[row] / s.cols[j][row];
        let old = value(&t);
        t.bring_into_basis(j, row, column, cost);
        c.input(format!("column {j} row {row}"));
        check!(t.is_in_basis(j) && !t.is_in_basis(s.basis[row]), "{what}: basis after {j} replaced {}", s.basis[row]);
        let mut basis = s.basis.clone(); basis[row] = j;
        let new = State::new(&p, &basis).unwrap();
        let got = sv(&t.current_bfs());
        let mut want = vec![Q::ZERO; n]; for (i, &k) in new.basis.iter().enumerate() { want[k] = new.x[i]; }
        check!(got == want, "{what}: solution {got:?}, expected {want:?}");
        check!(got.iter().all(|x| x.signum() >= 0), "{what}: solution {got:?} is negative");
        check!(value(&t) == old + step_length * s.rc[j], "{what}: objective {:?}, expected {old:?} + {step_length:?} * {:?}", value(&t), s.rc[j]);
        s = new;
        if step > 0 && !step_length.is_zero() { c.nontrivial(); }
    }
    // from here the second phase stops at an optimum or at a ray
    let res = phase_two::primal::<IM, Plain, FirstProfitable>(&mut t);
    let basis: Vec<usize> = (0..n).filter(|&j| t.is_in_basis(j)).collect();
    let Some(s) = State::new(&p, &basis) else { harness::fail!("the final basis {basis:?} is singular") };
    check!(s.feasible(), "the final basis {basis:?} is infeasible: {:?}", s.x);
    let ray = (0..n).any(|j| s.rc[j].signum() < 0 && s.cols[j].iter().all(|v| v.signum() <= 0));
    match res {
        OptimizationResult::FiniteOptimum(x) => {
            check!(s.rc.iter().all(|v| v.signum() >= 0), "stopped at reduced costs {:?}", s.rc);
            let x = sv(&x); check!(harness::lp::dot(&x, &p.c) == s.value, "optimum {x:?} has value {:?}, the basis {:?}", harness::lp::dot(&x, &p.c), s.value);
        }
        OptimizationResult::Unbounded => check!(ray, "unbounded without a ray: columns {:?} reduced costs {:?}", s.cols, s.rc),
        OptimizationResult::Infeasible => harness::fail!("infeasible from a feasible basis"),
    }
}
fn rows(g: &mut Rng, c: &mut Ctx) { walk::<BI>(g, c, false) }
fn lu(g: &mut Rng, c: &mut Ctx) { walk::<LU>(g, c, true) }
fn main() { harness::main(kinds![rows: 3, lu: 2]) }
