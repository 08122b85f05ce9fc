//! C01: verdict and optimum of the two-phase solver, both basis inverse implementations.
use harness::{form::*, kinds, lp, sim, Ctx, Rng, Q};
use relp::algorithm::{OptimizationResult, SolveRelaxation};
fn run(g: &mut Rng, c: &mut Ctx, s: lp::Shape) {
    let p = lp::random(g, s);
    let md = Md::new(&p);
    c.input(format!("{} (rows grouped {:?})", md.lp, md.counts));

    let d = md.data();
    for lu in [false, true] {
        let (res, x) = solve(&d, lu);
        judge(&md.lp, &res, &x, if lu { "LU" } else { "inverse rows" });
    }
    if md.lp.rows.len() > 1 { c.nontrivial(); }
}
fn small(g: &mut Rng, c: &mut Ctx) { run(g, c, lp::Shape { max_n: 4, max_m: 4, nonneg_only: true, tame: false }) }
fn medium(g: &mut Rng, c: &mut Ctx) { run(g, c, lp::Shape { max_n: 7, max_m: 7, nonneg_only: true, tame: true }) }
/// problems given by columns, with redundant, zero and no rows at all
fn columns(g: &mut Rng, c: &mut Ctx) {
    let m = g.range(0, 4) as usize; let n = g.range(1, 5) as usize;
    let k = if g.chance(1, 4) { 0 } else { g.below(m + 1) };
    let base: Vec<Vec<Q>> = (0..k).map(|_| (0..n).map(|_| Q::int(g.range(-2, 3) as i128)).collect()).collect();
    let x: Vec<Q> = (0..n).map(|_| Q::int(g.range(0, 3) as i128)).collect();
    let mut rows: Vec<(Vec<Q>, Q)> = (0..m).map(|i| { let mut a = vec![Q::ZERO; n]; if i < k { a = base[i].clone() } else { for b in &base { let f = Q::int(g.range(-1, 2) as i128); for j in 0..n { a[j] = a[j] + f * b[j]; } } } let b = lp::dot(&a, &x); (a, b) }).collect();
    if m > 0 && g.chance(1, 5) { let i = g.below(m); rows[i].1 = rows[i].1 + Q::int(g.range(-2, 2) as i128); }
    for r in &mut rows { if r.1.signum() < 0 { r.1 = -r.1; for v in &mut r.0 { *v = -*v; } } }
    g.shuffle(&mut rows);
    let cost: Vec<Q> = (0..n).map(|_| Q::int(g.range(-2, 3) as i128)).collect();
    let p = sim::Plain::new((0..n).map(|j| rows.iter().map(|r| r.0[j]).collect()).collect(), rows.iter().map(|r| r.1).collect(), cost.clone());
    let o = lp::Lp { maximize: false, c: cost, c0: Q::ZERO, rows: rows.iter().map(|r| lp::Row { a: r.0.clone(), lo: Some(r.1), hi: Some(r.1) }).collect(), vars: vec![(Some(Q::ZERO), None); n] };
    c.input(format!("{p}"));
    for lu in [false, true] {
        let res = if lu { p.solve_relaxation::<LU>() } else { p.solve_relaxation::<BI>() };
        let x = match &res { OptimizationResult::FiniteOptimum(v) => Some(dense(v)), _ => None };
        judge(&o, &res, &x, if lu { "LU" } else { "inverse rows" });
    }
    if k < m { c.nontrivial(); }
}
fn main() { harness::main(kinds![small: 4, medium: 2, columns: 2]) }
