//! C18 pricing: the four rules on the same tableaus, along histories of basis changes.
use harness::form::{BI, LU, R};
use harness::sim::*;
use harness::{kinds, Ctx, Rng};
use relp::algorithm::two_phase::tableau::inverse_maintenance::{ColumnComputationInfo, InverseMaintainer};

fn walk<IM: InverseMaintainer<F = R>>(g: &mut Rng, c: &mut Ctx, lu: bool) {
    let (p, basis) = problem(g, true, 4);
    record(c, &p, &basis, lu);
    let Some(mut s) = State::new(&p, &basis) else { return };
    let mut t = tableau::<IM>(&p, &basis);
    let mut rules = Rules::new(&t);
    let used = g.below(5); // 4: any improving column
    let ask = g.chance(1, 2); // ask all rules every time, or only the one that decides
    for step in 0..14 {
        let mut next = None;
        for k in 0..4 {
            if ask || k == used || g.chance(1, 3) {
                for _ in 0..if g.chance(1, 6) { 2 } else { 1 } {
                    let pick = rules.select(k, &t);
                    judge_pick(k, &pick, &s, &format!("step {step}"));
                    if k == used { next = pick; }
                }
            }
        }
        if used == 4 { let v: Vec<usize> = (0..s.rc.len()).filter(|&j| !s.basis.contains(&j) && (s.rc[j].signum() < 0 || g.chance(1, 9))).collect(); if !v.is_empty() { let j = *g.pick(&v); next = Some((j, t.relative_cost(j))); } }
        let Some((j, cost)) = next else { break };
        let column = t.generate_column(j);
        let Some(row) = t.select_primal_pivot_row(column.column()) else { break };
        let info = t.bring_into_basis(j, row, column, cost);
        c.input(format!("column {j} row {row}"));
        let mut basis = s.basis.clone(); basis[row] = j;
        let Some(n) = State::new(&p, &basis) else { return }; // not the subject here
        rules.after(&info, &t);
        s = n;
        if step >= 1 { c.nontrivial(); }
    }
}
fn rows(g: &mut Rng, c: &mut Ctx) { walk::<BI>(g, c, false) }
fn lu(g: &mut Rng, c: &mut Ctx) { walk::<LU>(g, c, true) }
fn main() { harness::main(kinds![rows: 3, lu: 1]) }
