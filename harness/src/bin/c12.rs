//! C12: the solution reported, without presolve.
use relp::data::linear_program::elements::LinearProgramType;
use harness::{check, form::*, kinds, lp, q::Q, Ctx, Rng};
fn plain(g: &mut Rng, c: &mut Ctx) {
    let p = lp::random(g, lp::Shape { max_n: 4, max_m: 4, nonneg_only: false, tame: false });
    c.input(p.to_string());
    if p.rows.len() > 1 { c.nontrivial(); }
    let lu = g.chance(1, 2);
    let n = p.vars.len();
    let before: Vec<(Q, bool)> = (0..n).map(|j| (if g.chance(1, 2) { Q::ZERO } else { g.frac() }, p.vars[j] != (None, None) && g.chance(1, 4))).collect();
    let mut v = pipeline(general_with(&p, &before), false, lu);
    if let Verdict::Opt(s, _) = &mut v { for (name, x) in s.solution_values.iter_mut() { let j: usize = name[1..].parse().unwrap(); let z = q(x); *x = r(if before[j].1 { before[j].0 - z } else { z + before[j].0 }); } }
    judge_solution(c, &p, &v, &names(p.vars.len()), "without presolve");
}
/// with presolve: whether the values are right is property C11, here they only have to agree with the objective
fn reduced(g: &mut Rng, c: &mut Ctx) {
    let p = lp::random(g, lp::Shape { max_n: 6, max_m: 5, nonneg_only: false, tame: false });
    c.input(p.to_string());
    // whether presolve itself works is property C11
    let Ok((g, early)) = std::panic::catch_unwind(|| { let mut g = general(&p); let r = g.presolve(); (g, r) }) else { return };
    let v = match early { Ok(()) => pipeline(g, false, false), Err(LinearProgramType::FiniteOptimum(s)) => Verdict::Opt(s, None), _ => return };
    if let Verdict::Opt(s, fixed) = v {
        c.nontrivial();
        let x = values(&s, &names(p.vars.len()), "with presolve");
        let (v, o) = (p.value(&x), q(&s.objective_value));
        if p.maximize && v != o && fixed.map_or(false, |f| o == f + f - v) { c.known("max-objective-sign", format!("with presolve: maximising, optimum {v} at {x:?} reported as {o}: only the constant {} keeps its sign", fixed.unwrap())); }
        else { check!(v == o, "with presolve: reported objective {o} but the reported values {x:?} give {v}"); }
    }
}
fn main() { harness::main(kinds![plain: 2, reduced: 2]) }
