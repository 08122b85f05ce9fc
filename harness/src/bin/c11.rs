//! C11: presolve keeps the verdict and the optimum.
use harness::{form::*, kinds, lp, Ctx, Rng};
fn pre(g: &mut Rng, c: &mut Ctx) {
    let p = lp::random(g, lp::Shape { max_n: 4, max_m: 4, nonneg_only: false, tame: false });
    c.input(p.to_string());
    if p.rows.len() > 1 { c.nontrivial(); }
    let lu = g.chance(1, 2);
    judge_values(&p, &pipeline(general(&p), true, lu), &names(p.vars.len()), "with presolve");
}
fn main() { harness::main(kinds![pre: 2]) }
