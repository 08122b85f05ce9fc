//! C08: the matrix the solver works on, against the problem it was made from.
use harness::{check, fail, form::*, kinds, lp, Ctx, Rng, Q};
use relp::algorithm::two_phase::matrix_provider::column::{Column, SparseColumn};
use relp::algorithm::two_phase::matrix_provider::matrix_data::MatrixData;
use relp::algorithm::two_phase::matrix_provider::MatrixProvider;
use relp::algorithm::two_phase::phase_one::PartialInitialBasis;
use relp::data::linear_algebra::vector::{SparseVector, Vector};
use relp::data::linear_program::elements::BoundDirection;

/// all entries of a column by iteration, checked against access by index and by value
fn column<C: Column<F = R>>(c: &C, m: usize, j: usize) -> Vec<Q>
{
    let mut x = vec![Q::ZERO; m]; let mut last = None;
    for (i, v) in c.iter() {
        check!(i < m, "column {j} has an entry in row {i} of {m}"); check!(last.map_or(true, |l| l < i), "column {j}: row {i} after row {last:?}"); last = Some(i);
        x[i] = q(v);
    }
    for i in 0..m { let s = c.index_to_string(i); check!(s == r(x[i]).to_string(), "column {j}: row {i} reads {s}, the column lists {}", x[i]); }
    x
}
fn owned<C: IntoIterator<Item = (usize, R)>>(c: C, m: usize) -> Vec<Q> { let mut x = vec![Q::ZERO; m]; for (i, v) in c { x[i] = q(&v); } x }
fn shape() -> lp::Shape { lp::Shape { max_n: 5, max_m: 8, nonneg_only: true, tame: false } }
fn kind(counts: &[usize; 4], i: usize) -> (usize, usize) { let mut k = i; for t in 0..4 { if k < counts[t] { return (t, k) } k -= counts[t]; } fail!("harness: row {i}") }
/// the matrix, written down row by row from the problem
fn expected(l: &lp::Lp, counts: &[usize; 4]) -> (Vec<Vec<Q>>, Vec<Q>, Vec<Option<usize>>, Vec<(usize, usize)>) {
    let [e, rg, u, lo] = *counts; let nv = l.vars.len(); let nc = e + rg + u + lo;
    let bounded: Vec<usize> = (0..nv).filter(|&j| l.vars[j].1.is_some()).collect(); let nb = bounded.len();
    let n = nv + rg + u + lo + nb + rg;
    let mut rows = vec![]; let mut b = vec![]; let mut up = vec![None; n]; let mut units = vec![];
    for i in 0..nc {
        let mut a = l.rows[i].a.clone(); a.resize(n, Q::ZERO);
        let (t, k) = kind(counts, i);
        match t { 0 => {} 1 => a[nv + k] = Q::ONE, 2 => { a[nv + rg + k] = Q::ONE; units.push((i, nv + rg + k)) } _ => a[nv + rg + u + k] = -Q::ONE }
        b.push(if t == 3 { l.rows[i].lo } else { l.rows[i].hi }.unwrap()); rows.push(a);
    }
    for (k, &j) in bounded.iter().enumerate() { let mut a = vec![Q::ZERO; n]; a[j] = Q::ONE; a[nv + rg + u + lo + k] = Q::ONE; up[j] = Some(rows.len()); units.push((rows.len(), nv + rg + u + lo + k)); b.push(l.vars[j].1.unwrap()); rows.push(a); }
    for k in 0..rg { let mut a = vec![Q::ZERO; n]; a[nv + k] = Q::ONE; a[nv + rg + u + lo + nb + k] = Q::ONE; up[nv + k] = Some(rows.len()); units.push((rows.len(), nv + rg + u + lo + nb + k)); let r = &l.rows[e + k]; b.push(r.hi.unwrap() - r.lo.unwrap()); rows.push(a); }
    (rows, b, up, units)
}
fn read(d: &MatrixData<R>) -> (Vec<Vec<Q>>, Vec<Q>) {
    let (m, n) = (d.nr_rows(), d.nr_columns());
    let mut a = vec![vec![Q::ZERO; n]; m];
    for j in 0..n { let c = column(&d.column(j), m, j); check!(owned(d.column(j), m) == c, "column {j} by value"); for i in 0..m { a[i][j] = c[i]; } }
    (a, d.right_hand_side().iter().map(q).collect())
}
/// every number of the matrix view
fn view(g: &mut Rng, c: &mut Ctx) {
    let p = lp::random(g, shape()); let md = Md::new(&p); let d = md.data();
    c.input(format!("{} (rows grouped {:?})", md.lp, md.counts));
    let (rows, b, up, units) = expected(&md.lp, &md.counts);
    let nv = md.lp.vars.len(); let n = up.len(); let nb = md.lp.vars.iter().filter(|v| v.1.is_some()).count();
    check!(d.nr_columns() == n && d.nr_rows() == rows.len() && d.nr_constraints() == md.lp.rows.len() && d.nr_variable_bounds() == nb + md.counts[1], "{} columns, {} rows, {} constraints, {} bounds; expected {n}, {}, {}, {}", d.nr_columns(), d.nr_rows(), d.nr_constraints(), d.nr_variable_bounds(), rows.len(), md.lp.rows.len(), nb + md.counts[1]);
    let (got, gb) = read(&d);
    for i in 0..rows.len() { check!(got[i] == rows[i], "row {i} is {:?}, expected {:?}", got[i], rows[i]); }
    check!(gb == b, "right hand side {gb:?}, expected {b:?}");
    for j in 0..n {
        let k = d.cost_value(j).map_or(Q::ZERO, q); let w = if j < nv { md.lp.c[j] } else { Q::ZERO };
        check!(k == w, "cost of column {j} is {k}, expected {w}");
        let x = d.bound_row_index(j, BoundDirection::Upper); check!(x == up[j], "row bounding column {j}: {x:?}, expected {:?}", up[j]);
        let x = d.bound_row_index(j, BoundDirection::Lower); check!(x.is_none(), "row bounding column {j} from below: {x:?}");
    }
    let mut got = d.pivot_element_indices(); check!(d.nr_initial_elements() == got.len(), "{} initial elements, {} listed", d.nr_initial_elements(), got.len());
    check!(got.windows(2).all(|w| w[0].0 < w[1].0), "initial basis elements out of order: {got:?}");
    got.sort(); let mut w = units; w.sort(); check!(got == w, "initial basis {got:?}, expected {w:?}");
    let keep: Vec<(usize, Q)> = (0..n).filter_map(|j| if g.chance(1, 2) { Some((j, Q::int(g.range(1, 9) as i128))) } else { None }).collect();
    let v = d.reconstruct_solution(SparseVector::<R, R>::new(keep.iter().map(|&(j, x)| (j, r(x))).collect(), n));
    let w: Vec<Q> = (0..nv).map(|j| keep.iter().find(|k| k.0 == j).map_or(Q::ZERO, |k| k.1)).collect();
    check!(v.len() == nv && dense(&v) == w, "solution {keep:?} of the matrix form reconstructed as {:?} of length {}, expected {w:?}", dense(&v), v.len());
    if n > nv { c.nontrivial(); }
}
/// a point is feasible exactly if the rows have nonnegative slacks for it
fn points(g: &mut Rng, c: &mut Ctx) {
    let p = lp::random(g, shape()); let md = Md::new(&p); let d = md.data(); let l = &md.lp;
    let nv = l.vars.len(); let start = if g.chance(1, 2) { l.solve_point().1 } else { None };
    let x: Vec<Q> = (0..nv).map(|j| { let s = start.as_ref().map_or(Q::int(g.range(0, 4) as i128), |s| s[j]); if g.chance(1, 6) { s + g.frac() } else { s } }).collect();
    c.input(format!("{l} (rows grouped {:?}) at {x:?}", md.counts));
    let (a, b) = read(&d); let (m, n) = (a.len(), d.nr_columns());
    // every slack stands alone in some row once the columns before it are known: eliminate
    let mut z: Vec<Option<Q>> = (0..n).map(|j| if j < nv { Some(x[j]) } else { None }).collect();
    let mut done = vec![false; m]; let mut ok = l.violated(&x).is_none(); let mut solvable = x.iter().all(|v| v.signum() >= 0);
    loop {
        let mut moved = false;
        for i in 0..m { if !done[i] {
            let open: Vec<usize> = (0..n).filter(|&j| !a[i][j].is_zero() && z[j].is_none()).collect();
            if open.len() > 1 { continue }
            let rest = b[i] - (0..n).filter_map(|j| z[j].map(|v| v * a[i][j])).sum::<Q>();
            match open.first() { None => if !rest.is_zero() { solvable = false }, Some(&j) => { let v = rest / a[i][j]; if v.signum() < 0 { solvable = false } z[j] = Some(v); } }
            done[i] = true; moved = true;
        } }
        if !moved { break }
    }
    check!(done.iter().all(|&d| d) && z.iter().all(|z| z.is_some()), "the slacks are not determined by the point: {z:?}");
    check!(solvable == ok, "the point {} the problem, the matrix form {} a nonnegative solution there: {z:?}", if ok { "meets" } else { "violates" }, if solvable { "has" } else { "has no" });
    if ok { ok = false; let _ = ok; c.nontrivial(); }
}
/// plain columns: what is listed, what is read by index
fn columns(g: &mut Rng, c: &mut Ctx) {
    let m = g.range(1, 9) as usize; let v: Vec<Q> = (0..m).map(|_| if g.chance(1, 2) { g.frac() } else { Q::ZERO }).collect();
    c.input(format!("column {v:?}"));
    let s = SparseColumn::new(v.iter().enumerate().filter(|(_, v)| !v.is_zero()).map(|(i, &v)| (i, r(v))).collect());
    check!(column(&s, m, 0) == v && owned(s.clone(), m) == v, "sparse column reads {:?}", column(&s, m, 0));
    if v.iter().any(|v| !v.is_zero()) { c.nontrivial(); }
}
fn main() { harness::main(kinds![view: 4, points: 3, columns: 1]) }
