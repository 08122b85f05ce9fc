//! C10: standardisation, without presolve.
use harness::{check, form::*, kinds, lp, lp::Res, q::Q, Ctx, Rng};
use relp::data::linear_program::elements::{Objective, RangedConstraintRelation as T};
fn problem(g: &mut Rng, c: &mut Ctx, n: i64, m: i64) -> lp::Lp {
    let p = lp::random(g, lp::Shape { max_n: n, max_m: m, nonneg_only: false, tame: false });
    c.input(p.to_string());
    if p.rows.len() > 1 { c.nontrivial(); }
    p
}
/// the form reached, and its optimum
fn form(g: &mut Rng, c: &mut Ctx) {
    let p = problem(g, c, 4, 6);
    let mut f = general(&p);
    let counts = f.standardize();
    let s = view(&f);
    let (o, fixed, m, types, b, vars) = f.verif_view();
    check!(matches!(o, Objective::Minimize), "not a minimisation problem");
    check!(counts.iter().sum::<usize>() == types.len() && types.len() == p.rows.len(), "{counts:?} rows counted of {}", p.rows.len());
    let kinds: Vec<usize> = types.iter().map(|t| match t { T::Equal => 0, T::Range(_) => 1, T::Less => 2, T::Greater => 3 }).collect();
    let want: Vec<usize> = counts.iter().enumerate().flat_map(|(k, &n)| std::iter::repeat(k).take(n)).collect();
    check!(kinds == want, "rows of types {kinds:?}, counted {counts:?}");
    for i in 0..types.len() { check!(q(&b[i]) >= Q::ZERO, "right-hand side {i} is {}", b[i]); }
    for (j, v) in vars.iter().enumerate() { check!(v.lower_bound.as_ref().map(q) == Some(Q::ZERO), "variable {j} has lower bound {:?}", v.lower_bound); }
    let _ = m;
    let fixed = q(fixed);
    let want = match p.solve() { Res::Opt(v) if p.maximize => Res::Opt(fixed + fixed - v), r => r };
    check!(s.solve() == want, "optimum of the standard form {:?}, of the problem {want:?}", s.solve());
    // the matrix form says the same
    let d = f.derive_matrix_data(counts);
    let (res, _) = solve(&d, false);
    let got = match res { relp::algorithm::OptimizationResult::Infeasible => Res::Infeasible, relp::algorithm::OptimizationResult::Unbounded => Res::Unbounded, relp::algorithm::OptimizationResult::FiniteOptimum(x) => { let x = d_values(&f, &d, x); Res::Opt(s.value(&x)) } };
    check!(got == want, "optimum of the matrix form {got:?}, of the problem {want:?}");
}
fn d_values(f: &relp::data::linear_program::general_form::GeneralForm<R>, d: &relp::algorithm::two_phase::matrix_provider::matrix_data::MatrixData<R>, x: relp::data::linear_algebra::vector::SparseVector<R, R>) -> Vec<Q> {
    use relp::algorithm::two_phase::matrix_provider::MatrixProvider;
    let z = d.reconstruct_solution(x); let y = dense(&z); let s = view(f);
    if let Some(e) = s.violated(&y) { harness::fail!("the solution {y:?} of the matrix form is not one of the standard form: {e}"); }
    y
}
/// many rows: at points near the one the problem was made around, as many rows are violated before as after
fn many(g: &mut Rng, c: &mut Ctx) {
    let m = if g.chance(1, 3) { 64 } else { 12 }; let p = problem(g, c, 3, m);
    let n = p.vars.len();
    let mut f = general(&p);
    f.standardize();
    let s = view(&f);
    let vars: Vec<(Q, bool)> = f.verif_view().5.iter().map(|v| (q(&v.shift), v.flipped)).collect();
    let free: Vec<usize> = (0..n).filter(|&j| p.vars[j] == (None, None)).collect();
    check!(vars.len() == n + free.len(), "{} variables for {n} of which {} are free", vars.len(), free.len());
    let base: Vec<Q> = p.solve_point().1.unwrap_or_else(|| vec![Q::ZERO; n]);
    for _ in 0..6 {
        let x: Vec<Q> = base.iter().map(|&v| if g.chance(1, 2) { v } else { v + g.frac() }).collect();
        let mut y = vec![Q::ZERO; vars.len()];
        for j in 0..n {
            let (shift, flipped) = vars[j];
            let z = if flipped { shift - x[j] } else { x[j] + shift };
            match free.iter().position(|&k| k == j) { Some(k) => if z < Q::ZERO { y[n + k] = -z } else { y[j] = z }, None => y[j] = z }
        }
        let out = |l: &lp::Lp, x: &[Q]| (l.rows.iter().filter(|r| !lp::within(lp::dot(&r.a, x), r.lo, r.hi)).count(), l.vars.iter().zip(x).filter(|(v, &x)| !lp::within(x, v.0, v.1)).count());
        check!(out(&p, &x) == out(&s, &y), "{:?} rows and bounds are violated at {x:?}, {:?} in the standard form at {y:?}", out(&p, &x), out(&s, &y));
        let (a, b, k) = (p.value(&x), s.value(&y), s.c0);
        check!(a == if p.maximize { k + k - b } else { b }, "objective {a} at {x:?}, {b} (constant {k}) in the standard form");
    }
}
/// values mapped back; some variables were shifted before
fn back(g: &mut Rng, c: &mut Ctx) {
    let p = problem(g, c, 4, 4);
    let lu = g.chance(1, 2);
    let n = p.vars.len();
    let before: Vec<(Q, bool)> = (0..n).map(|j| (if g.chance(1, 2) { Q::ZERO } else { g.frac() }, p.vars[j] != (None, None) && g.chance(1, 4))).collect();
    let mut v = pipeline(general_with(&p, &before), false, lu);
    if let Verdict::Opt(s, _) = &mut v { for (name, x) in s.solution_values.iter_mut() { let j: usize = name[1..].parse().unwrap(); let z = q(x); *x = r(if before[j].1 { before[j].0 - z } else { z + before[j].0 }); } }
    judge_values(&p, &v, &names(n), "without presolve");
}
fn main() { harness::main(kinds![form: 2, back: 2, many: 2]) }
