//! C13: scaling and scaling back.
use harness::{check, form::*, kinds, lp::{self, Lp}, q::Q, Ctx, Rng};
use relp::data::linear_program::general_form::Scalable;
use relp::algorithm::{two_phase::matrix_provider::MatrixProvider, OptimizationResult, SolveRelaxation};
use relp::data::linear_algebra::vector::{SparseVector, Vector};
fn problem(g: &mut Rng, size: i64) -> Lp {
    let mut p = lp::random(g, lp::Shape { max_n: size, max_m: size, nonneg_only: false, tame: false });
    if g.chance(1, 3) { let f = |g: &mut Rng, x: &mut Q| if *x != Q::ZERO && g.chance(2, 3) { let (a, b) = (g.range(1, 30), g.range(1, 12)); *x = *x * Q::new(a as i128, b as i128); };
        for r in &mut p.rows { for x in &mut r.a { f(g, x); } }
        for x in &mut p.c { f(g, x); } }
    if g.chance(1, 8) { for r in &mut p.rows { for x in &mut r.a { if *x != Q::ZERO { *x = Q::ONE; } } if r.lo.is_some() { r.lo = Some(Q::ZERO); } if r.hi.is_some() { r.hi = Some(Q::ZERO); } }
        for x in &mut p.c { if *x != Q::ZERO { *x = Q::ONE; } }
        for v in &mut p.vars { if v.0.is_some() { v.0 = Some(Q::ZERO); } if v.1.is_some() { v.1 = Some(Q::ONE); } } }
    p
}
/// the variables with everything in them
fn vars(g: &relp::data::linear_program::general_form::GeneralForm<R>) -> String { format!("{:?}", g.verif_view().5) }
/// k * a == b for one positive k
fn factor(k: &mut Option<Q>, a: Q, b: Q, what: &str) {
    check!((a == Q::ZERO) == (b == Q::ZERO), "{what}: {a} became {b}");
    if a == Q::ZERO { return; }
    let f = b / a;
    check!(f > Q::ZERO, "{what}: {a} became {b}, the factor is not positive");
    match k { None => *k = Some(f), Some(o) => check!(*o == f, "{what}: {a} became {b}, a factor {f} where others have {o}") }
}
fn apply(g: &mut Rng, c: &mut Ctx) {
    let p = problem(g, 5);
    c.input(p.to_string());
    let n = p.vars.len();
    let before: Vec<(Q, bool)> = (0..n).map(|j| (if g.chance(1, 2) { Q::ZERO } else { g.frac() }, p.vars[j] != (None, None) && g.chance(1, 4))).collect();
    let mut form = general_with(&p, &before);
    if g.chance(1, 2) { let _ = form.standardize(); }
    let (p, v0) = (view(&form), vars(&form));
    let n = p.vars.len();
    let s = form.scale();
    let w = view(&form);
    let mut ones = SparseVector::<R, R>::new((0..n).map(|j| (j, r(Q::ONE))).collect(), n);
    s.scale_back(&mut ones);
    let col = dense(&ones);
    if col.iter().any(|&x| x != Q::ONE) { c.nontrivial(); }
    check!(w.maximize == p.maximize && w.c0 == p.c0 && w.rows.len() == p.rows.len() && w.vars.len() == n, "scaling changed more than the numbers");
    let mut cost = None;
    for j in 0..n {
        check!(col[j] > Q::ZERO, "column factor {} of x{j}", col[j]);
        factor(&mut cost, p.c[j] * col[j], w.c[j], &format!("cost of x{j}"));
        check!(w.vars[j].0.map(|x| x * col[j]) == p.vars[j].0 && w.vars[j].1.map(|x| x * col[j]) == p.vars[j].1, "bounds {:?} of x{j} became {:?} with column factor {}", p.vars[j], w.vars[j], col[j]);
    }
    for (i, (r, t)) in p.rows.iter().zip(&w.rows).enumerate() {
        let mut k = None;
        for j in 0..n { factor(&mut k, r.a[j] * col[j], t.a[j], &format!("row {i}, x{j}")); }
        check!(r.lo.is_some() == t.lo.is_some() && r.hi.is_some() == t.hi.is_some(), "type of row {i} changed");
        if let (Some(a), Some(b)) = (r.lo, t.lo) { factor(&mut k, a, b, &format!("row {i}, lower side")); }
        if let (Some(a), Some(b)) = (r.hi, t.hi) { factor(&mut k, a, b, &format!("row {i}, upper side")); }
        if let (Some(a), Some(b), Some(d), Some(e)) = (r.lo, r.hi, t.lo, t.hi) { factor(&mut k, b - a, e - d, &format!("row {i}, range")); }
    }
    form.scale_back(s);
    check!(view(&form).to_string() == p.to_string() && vars(&form) == v0, "scaled back: {} instead of {p}", view(&form));
}
/// solving the scaled problem solves the original
fn solved(g: &mut Rng, c: &mut Ctx) {
    let p = problem(g, 4);
    c.input(p.to_string());
    let mut form = general(&p);
    let counts = form.standardize();
    let s = form.scale();
    let v = {
        let d = form.derive_matrix_data(counts);
        match d.solve_relaxation::<BI>() {
            OptimizationResult::Infeasible => Err(Verdict::Infeasible),
            OptimizationResult::Unbounded => Err(Verdict::Unbounded),
            OptimizationResult::FiniteOptimum(v) => { Ok(d.reconstruct_solution(v)) }
        }
    };
    let v = match v { Err(v) => v, Ok(mut x) => { c.nontrivial(); s.scale_back(&mut x); form.scale_back(s); Verdict::Opt(form.compute_full_solution_with_reduced_solution(x), None) } };
    judge_values(&p, &v, &names(p.vars.len()), "scaled");
}
fn main() { harness::main(kinds![apply: 3, solved: 1]) }
