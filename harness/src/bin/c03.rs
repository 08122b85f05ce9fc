//! C03 basis inverse, prices and basic solution along histories of basis changes, both implementations.
use harness::form::{q, dv, r, BI, LU, R};
use harness::sim::*;
use harness::{check, kinds, Ctx, Rng, Q};
use relp::algorithm::two_phase::matrix_provider::filter::generic_wrapper::RemoveRows;
use relp::algorithm::two_phase::phase_one::{FeasibilityComputeTrait, Rank, RankedFeasibilityResult};
use relp::algorithm::two_phase::tableau::inverse_maintenance::{ColumnComputationInfo, InverseMaintainer};
use relp::algorithm::two_phase::tableau::kind::non_artificial::NonArtificial;
use relp::algorithm::two_phase::tableau::Tableau;

fn pair(g: &mut Rng, c: &mut Ctx, max: i64, steps: usize) {
    let (p, basis) = problem(g, false, max);
    record(c, &p, &basis, true);
    let Some(mut s) = State::new(&p, &basis) else { return };
    let n = p.a.len();
    let mut t = tableau::<BI>(&p, &basis);
    let mut u = tableau::<LU>(&p, &basis);
    let pivots = g.chance(1, 4);
    if pivots {
        // the same basis given as (row, column) pairs in any order
        let mut v: Vec<(usize, usize)> = basis.iter().copied().enumerate().collect(); g.shuffle(&mut v);
        t = Tab::new_with_inverse_maintainer(&p, BI::from_basis_pivots(&v, &p), basis.iter().copied().collect());
        u = Tab::new_with_inverse_maintainer(&p, LU::from_basis_pivots(&v, &p), basis.iter().copied().collect());
    }
    compare(&p, &t, &s, "rows: start"); compare(&p, &u, &s, "LU: start");
    for step in 0..steps {
        let open: Vec<(usize, usize)> = (0..n).filter(|j| !s.basis.contains(j)).flat_map(|j| { let v = &s.cols[j]; (0..v.len()).filter(|&i| !v[i].is_zero() && v[i].abs().num() < 1000 && v[i].den() < 1000).map(move |i| (j, i)).collect::<Vec<_>>() }).collect();
        if open.is_empty() { break }
        let (j, row) = *g.pick(&open);
        c.input(format!("column {j} row {row}"));
        let (a, b) = (t.relative_cost(j), u.relative_cost(j));
        let col = t.generate_column(j); let i = t.bring_into_basis(j, row, col, a);
        let col = u.generate_column(j); let k = u.bring_into_basis(j, row, col, b);
        let mut basis = s.basis.clone(); basis[row] = j;
        let new = State::new(&p, &basis).unwrap();
        compare_info(&i, &s, &new, row, j, &format!("rows: step {step}")); compare_info(&k, &s, &new, row, j, &format!("LU: step {step}"));
        s = new;
        if steps < 20 || step % 5 == 0 || g.chance(1, 8) { compare(&p, &t, &s, &format!("rows: after step {step}")); compare(&p, &u, &s, &format!("LU: after step {step}")); }
        if step > 1 { c.nontrivial(); }
    }
    compare(&p, &t, &s, "rows: end"); compare(&p, &u, &s, "LU: end");
}
fn short(g: &mut Rng, c: &mut Ctx) { pair(g, c, 5, 6) }
/// long enough for the LU implementation to decide to refactor
fn long(g: &mut Rng, c: &mut Ctx) { pair(g, c, 3, 70) }

/// From the first phase to the second, with redundant rows dropped.
fn phases<IM: InverseMaintainer<F = R>>(g: &mut Rng, c: &mut Ctx, lu: bool) {
    let (mut p, _) = problem(g, true, 4);
    // redundant rows, and nonnegative right hand sides
    for _ in 0..g.range(0, 2) {
        let m = p.b.len();
        let w: Vec<Q> = (0..m).map(|_| Q::int(g.range(-1, 2) as i128)).collect();
        let at = g.below(m + 1);
        for a in &mut p.a { let x = harness::lp::dot(a, &w); a.insert(at, x); }
        let x = harness::lp::dot(&p.b, &w); p.b.insert(at, x);
    }
    for i in 0..p.b.len() { if p.b[i].signum() < 0 { p.b[i] = -p.b[i]; for a in &mut p.a { a[i] = -a[i]; } } }
    let p = Plain::new(p.a, p.b, p.c);
    record(c, &p, &[], lu);
    let m = p.b.len(); let n = p.a.len();
    match p.compute_bfs_giving_im::<IM>() {
        RankedFeasibilityResult::Infeasible => harness::fail!("feasible problem reported infeasible"),
        RankedFeasibilityResult::Feasible { rank, nr_artificial_variables, inverse_maintainer, basis } => {
            let gone = match rank { Rank::Full => vec![], Rank::Deficient(v) => v };
            check!(gone.windows(2).all(|w| w[0] < w[1]) && gone.iter().all(|&i| i < m), "rows to drop {gone:?} of {m}");
            let keep: Vec<usize> = (0..m).filter(|i| !gone.contains(i)).collect();
            let rows: Vec<usize> = keep.iter().map(|&i| inverse_maintainer.basis_column_index_for_row(i)).collect();
            check!(rows.iter().all(|&j| j >= nr_artificial_variables && j < n + nr_artificial_variables), "artificial variables left in {rows:?} ({nr_artificial_variables} artificial)");
            check!(rows.iter().all(|j| basis.contains(j)) && basis.len() == m, "basis set {basis:?}, by row {rows:?}");
            let rows: Vec<usize> = rows.iter().map(|j| j - nr_artificial_variables).collect();
            let cut = Plain::new(p.a.iter().map(|a| keep.iter().map(|&i| a[i]).collect()).collect(), keep.iter().map(|&i| p.b[i]).collect(), p.c.clone());
            let Some(s) = State::new(&cut, &rows) else { harness::fail!("basis {rows:?} of the kept rows {keep:?} is singular") };
            check!(s.feasible(), "basis {rows:?} of rows {keep:?} is infeasible: {:?}", s.x);
            if gone.is_empty() {
                let t = Tab::<IM>::from_artificial(inverse_maintainer, nr_artificial_variables, basis, &p);
                compare(&p, &t, &s, "after the first phase");
            } else {
                let f = RemoveRows::new(&p, gone.clone());
                let t = Tableau::<IM, NonArtificial<RemoveRows<Plain>>>::from_artificial_removing_rows(inverse_maintainer, nr_artificial_variables, basis, &f);
                for j in 0..n {
                    check!(t.is_in_basis(j) == rows.contains(&j), "without rows {gone:?}: is_in_basis({j})");
                    let got = sv(&t.generate_column(j).into_column()); check!(got == s.cols[j], "without rows {gone:?}: column {j} is {got:?}, expected {:?}", s.cols[j]);
                    let got = q(&t.relative_cost(j)); check!(got == s.rc[j], "without rows {gone:?}: reduced cost of {j} is {got:?}, expected {:?}", s.rc[j]);
                }
                let mut want = vec![Q::ZERO; n]; for (i, &j) in rows.iter().enumerate() { want[j] = s.x[i]; }
                let got = sv(&t.current_bfs()); check!(got == want, "without rows {gone:?}: solution {got:?}, expected {want:?}");
                let got = q(&t.objective_function_value()); check!(got == s.value, "without rows {gone:?}: objective {got:?}, expected {:?}", s.value);
                c.nontrivial();
            }
        }
    }
}
fn phases_rows(g: &mut Rng, c: &mut Ctx) { phases::<BI>(g, c, false) }
fn phases_lu(g: &mut Rng, c: &mut Ctx) { phases::<LU>(g, c, true) }
/// The starting points of the first phase.
fn artificial(g: &mut Rng, c: &mut Ctx) {
    let m = g.range(1, 6) as usize;
    let b: Vec<Q> = (0..m).map(|_| Q::int(g.range(0, 9) as i128)).collect();
    let rows = { let k = g.range(0, 4) as usize; g.subset(m, k, 4) };
    let mut free: Vec<(usize, usize)> = (0..m).filter(|i| !rows.contains(i)).map(|i| (i, 20 + g.below(40))).collect();
    if g.chance(1, 2) { g.shuffle(&mut free); }
    let mut basis = vec![0; m]; for (k, &i) in rows.iter().enumerate() { basis[i] = k; } for &(i, j) in &free { basis[i] = j; }
    c.input(format!("b {b:?} artificial rows {rows:?} free {free:?} basis {basis:?}"));
    fn look<IM: InverseMaintainer<F = R>>(im: IM, b: &[Q], basis: &[usize], price: &dyn Fn(usize) -> Q, what: &str) {
        let m = b.len();
        let value: Q = (0..m).map(|i| price(i) * b[i]).sum();
        check!(q(&im.get_objective_function_value()) == value, "{what}: objective {}, expected {value:?}", im.get_objective_function_value());
        for i in 0..m {
            check!(q(im.get_constraint_value(i)) == b[i] && q(&im.b()[i]) == b[i], "{what}: value {i} is {}", im.get_constraint_value(i));
            check!(im.basis_column_index_for_row(i) == basis[i], "{what}: basis column of row {i}");
            let e = Col(vec![(i, r(Q::int(3)))]);
            let got = sv(&im.generate_column(e.clone()).into_column()); check!((0..m).all(|k| got[k] == if i == k { Q::int(3) } else { Q::ZERO }), "{what}: 3 e_{i} becomes {got:?}");
            let got = q(&im.cost_difference(&e)); check!(got == -price(i) * Q::int(3), "{what}: cost difference of 3 e_{i} is {got:?}, expected {:?}", -price(i) * Q::int(3));
        }
        let mut want: Vec<(usize, Q)> = (0..m).filter(|&i| !b[i].is_zero()).map(|i| (basis[i], b[i])).collect(); want.sort_by_key(|x| x.0);
        let got: Vec<(usize, Q)> = im.current_bfs().iter().map(|(j, v)| (*j, q(v))).collect();
        let mut a = got.clone(); a.sort(); want.sort(); check!(a == want && got.windows(2).all(|w| w[0].0 <= w[1].0), "{what}: solution {got:?}, expected {want:?}");
    }
    let all: Vec<usize> = (0..m).collect();
    look(BI::create_for_fully_artificial::<R>(dv(&b)), &b, &all, &|_| Q::ONE, "rows, all artificial");
    look(LU::create_for_fully_artificial::<R>(dv(&b)), &b, &all, &|_| Q::ONE, "LU, all artificial");
    let price = |i: usize| if rows.contains(&i) { Q::ONE } else { Q::ZERO };
    look(BI::create_for_partially_artificial::<R>(&rows, &free, dv(&b), basis.clone()), &b, &basis, &price, "rows, some artificial");
    look(LU::create_for_partially_artificial::<R>(&rows, &free, dv(&b), basis.clone()), &b, &basis, &price, "LU, some artificial");
    if !rows.is_empty() && !free.is_empty() { c.nontrivial(); }
}
fn main() { harness::main(kinds![short: 6, long: 1, phases_rows: 2, phases_lu: 2, artificial: 1]) }
