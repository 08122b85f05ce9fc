//! C17 network problems: incidence columns, arc arithmetic, shortest paths.
use harness::form::{q, r, R, BI, LU};
use harness::{check, kinds, Ctx, Rng, Q};
use relp::algorithm::two_phase::matrix_provider::column::{identity::Identity, Column};
use relp::algorithm::two_phase::matrix_provider::filter::generic_wrapper::IntoFilteredColumn;
use relp::algorithm::two_phase::matrix_provider::MatrixProvider;
use relp::algorithm::{OptimizationResult, SolveRelaxation};
use relp::data::linear_algebra::matrix::{ColumnMajor, MatrixOrder, SparseMatrix};
use relp::data::linear_algebra::vector::{DenseVector, SparseVector, Vector};
use relp::data::linear_program::elements::BoundDirection;
use relp::data::linear_program::network::representation::{ArcDirection, ArcIncidenceColumn, IncidenceMatrix};
use relp_num::{Binary, NonZero, Rational64};

/// arcs by the node they leave, sorted by the node they enter
fn graph(g: &mut Rng, n: usize, neg: bool) -> Vec<Vec<(usize, i64)>> {
    let d = g.range(1, 4) as usize;
    (0..n).map(|i| (0..n).filter(|&j| j != i).filter_map(|j| if g.chance(d, 5) { Some((j, if neg { g.range(-2, 9) } else { g.range(1, 9) })) } else { None }).filter(|x| x.1 != 0).collect()).collect()
}
fn adjacency(a: &[Vec<(usize, i64)>]) -> SparseMatrix<Rational64, Rational64, ColumnMajor> {
    ColumnMajor::new(a.iter().map(|v| v.iter().map(|&(j, c)| (j, Rational64::new(c, 1).expect("one"))).collect()).collect(), a.len(), a.len())
}
fn num(d: &ArcDirection) -> Q { match d { ArcDirection::Incoming => Q::int(1), ArcDirection::Outgoing => Q::int(-1) } }
fn read(v: &[(usize, ArcDirection)], n: usize, what: &str) -> Vec<Q> {
    let mut x = vec![Q::ZERO; n]; let mut last = None;
    for (i, d) in v { check!(last.map_or(true, |l| l < *i) && *i < n, "{what}: rows {v:?} not increasing below {n}"); x[*i] = num(d); last = Some(*i); }
    x
}
fn incidence(g: &mut Rng, c: &mut Ctx) {
    let n = if g.chance(4, 5) { g.range(1, 6) } else { g.range(1, 16) } as usize;
    let a = graph(g, n, true);
    let mut gone = { let k = g.range(0, 3) as usize; g.subset(n, k, 4) }; let sorted = gone.clone(); g.shuffle(&mut gone);
    c.input(format!("arcs {a:?} removed {gone:?}"));
    let (m, v) = IncidenceMatrix::new(adjacency(&a), gone);
    let all: Vec<(usize, usize, i64)> = a.iter().enumerate().flat_map(|(i, v)| v.iter().map(move |&(j, c)| (i, j, c))).collect();
    check!(m.nr_edges() == all.len() && m.nr_vertices() == n && v.len() == all.len(), "{} edges, {} vertices, {} values; expected {} and {n}", m.nr_edges(), m.nr_vertices(), v.len(), all.len());
    let keep: Vec<usize> = (0..n).filter(|i| !sorted.contains(i)).collect();
    for (k, &(i, j, cost)) in all.iter().enumerate() {
        let col = m.column(k);
        let want: Vec<Q> = keep.iter().map(|&x| if x == i { Q::int(-1) } else if x == j { Q::int(1) } else { Q::ZERO }).collect();
        let got = read(&col, keep.len(), "column");
        check!(got == want, "column {k} of {i} -> {j}: {got:?}, expected {want:?}");
        check!(v[k] == Rational64::new(cost, 1).expect("one"), "value {k} is {}, expected {cost}", v[k]);
        let x = ArcIncidenceColumn(col.clone());
        check!(Column::iter(&x).map(|(i, d)| (i, d.clone())).eq(col.iter().cloned()) && x.clone().into_iter().eq(col.iter().cloned()), "iterating column {k}");
        for i in 0..keep.len() { check!(x.index_to_string(i) == format!("{}", want[i].num()), "index_to_string({i}) of column {k}: {}", x.index_to_string(i)); }
        let mut drop = { let p = g.range(0, 3) as usize; g.subset(keep.len(), p, 4) }; if g.chance(1, 2) { drop.extend(col.iter().map(|x| x.0)); drop.sort(); drop.dedup(); }
        let f = x.into_filtered(&drop);
        let want: Vec<Q> = (0..keep.len()).filter(|i| !drop.contains(i)).map(|i| want[i]).collect();
        let got = read(&f.0, want.len(), "filtered");
        check!(got == want, "column {k} without rows {drop:?}: {got:?}, expected {want:?}");
    }
    let i = g.below(9); let id = ArcIncidenceColumn::identity(i, 9); check!(id.0 == vec![(i, ArcDirection::Incoming)], "identity({i}): {id:?}");
    if !all.is_empty() && !sorted.is_empty() { c.nontrivial(); }
}
fn arithmetic(g: &mut Rng, c: &mut Ctx) {
    let x = g.frac(); let d = if g.chance(1, 2) { ArcDirection::Incoming } else { ArcDirection::Outgoing };
    c.input(format!("{x:?} with {d:?}"));
    let v = num(&d);
    check!(q(&R::from(d.clone())) == v && q(&R::from(&d)) == v, "conversion of {d:?}");
    check!(d.is_not_zero() && format!("{d}") == format!("{}", v.num()), "display of {d:?}");
    let y = || r(x);
    let mut res: Vec<(&str, Q, Q)> = vec![("+", q(&(y() + d.clone())), x + v), ("+&", q(&(y() + &d)), x + v), ("-", q(&(y() - d.clone())), x - v), ("-&", q(&(y() - &d)), x - v), ("*", q(&(y() * d.clone())), x * v), ("*&", q(&(y() * &d)), x * v), ("&*&", q(&(&y() * &d)), x * v), ("/", q(&(y() / d.clone())), x / v), ("/&", q(&(y() / &d)), x / v)];
    let mut z = y(); z += d.clone(); res.push(("+=", q(&z), x + v)); let mut z = y(); z += &d; res.push(("+=&", q(&z), x + v));
    let mut z = y(); z -= d.clone(); res.push(("-=", q(&z), x - v)); let mut z = y(); z -= &d; res.push(("-=&", q(&z), x - v));
    let mut z = y(); z *= d.clone(); res.push(("*=", q(&z), x * v)); let mut z = y(); z *= &d; res.push(("*=&", q(&z), x * v));
    let mut z = y(); z /= d.clone(); res.push(("/=", q(&z), x / v)); let mut z = y(); z /= &d; res.push(("/=&", q(&z), x / v));
    for (op, got, want) in res { check!(got == want, "{x:?} {op} {d:?} = {got:?}, expected {want:?}"); }
    if !x.is_zero() { c.nontrivial(); }
}
/// Shortest path from s to t, the row of s left out.
#[derive(Debug)]
struct Paths { m: IncidenceMatrix, cost: DenseVector<Rational64>, s: usize, t: usize }
impl std::fmt::Display for Paths { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{self:?}") } }
impl MatrixProvider for Paths {
    type Column = ArcIncidenceColumn;
    type Cost<'a> = &'a Rational64;
    type Rhs = Binary;
    fn column(&self, j: usize) -> ArcIncidenceColumn { ArcIncidenceColumn(self.m.column(j)) }
    fn cost_value(&self, j: usize) -> &Rational64 { &self.cost[j] }
    fn right_hand_side(&self) -> DenseVector<Binary> { let mut b = DenseVector::constant(Binary::Zero, self.nr_constraints()); b[if self.t < self.s { self.t } else { self.t - 1 }] = Binary::One; b }
    fn bound_row_index(&self, _: usize, _: BoundDirection) -> Option<usize> { None }
    fn nr_constraints(&self) -> usize { self.m.nr_vertices() - 1 }
    fn nr_variable_bounds(&self) -> usize { 0 }
    fn nr_columns(&self) -> usize { self.m.nr_edges() }
    fn reconstruct_solution<H>(&self, v: SparseVector<H, H>) -> SparseVector<H, H> { v }
}
fn paths(g: &mut Rng, c: &mut Ctx) {
    let n = g.range(2, 6) as usize;
    let neg = g.chance(1, 3);
    let a = graph(g, n, neg);
    let s = g.below(n); let t = (s + 1 + g.below(n - 1)) % n; let lu = g.chance(1, 2);
    c.input(format!("shortest path {s} to {t}, lu {lu}, arcs {a:?}"));
    if a.iter().all(|v| v.is_empty()) { return; }
    // all shortest distances
    let mut d: Vec<Vec<Option<i64>>> = (0..n).map(|i| (0..n).map(|j| if i == j { Some(0) } else { a[i].iter().find(|x| x.0 == j).map(|x| x.1) }).collect()).collect();
    for k in 0..n { for i in 0..n { for j in 0..n { if let (Some(x), Some(y)) = (d[i][k], d[k][j]) { if d[i][j].map_or(true, |z| x + y < z) { d[i][j] = Some(x + y); } } } } }
    let cycle = (0..n).any(|i| d[i][i].map_or(false, |x| x < 0));
    let reach = { let mut seen = vec![false; n]; let mut todo = vec![s]; while let Some(i) = todo.pop() { if !seen[i] { seen[i] = true; todo.extend(a[i].iter().map(|x| x.0)); } } seen[t] };
    let (m, cost) = IncidenceMatrix::new(adjacency(&a), vec![s]);
    let p = Paths { m, cost, s, t };
    let res: OptimizationResult<R> = if lu { p.solve_relaxation::<LU>() } else { p.solve_relaxation::<BI>() };
    match res {
        OptimizationResult::Infeasible => check!(!reach, "infeasible, but there is a path"),
        OptimizationResult::Unbounded => check!(reach && cycle, "unbounded; path: {reach}, cycle of negative length: {cycle}"),
        OptimizationResult::FiniteOptimum(x) => {
            check!(reach && !cycle, "an optimum; path: {reach}, cycle of negative length: {cycle}");
            let mut v = vec![Q::ZERO; p.m.nr_edges()]; for (i, y) in Vector::iter(&x) { v[*i] = q(y); }
            let (mut k, mut total, mut flow) = (0, Q::ZERO, vec![Q::ZERO; n]);
            for (i, l) in a.iter().enumerate() { for &(j, w) in l { check!(v[k].signum() >= 0, "negative flow"); total = total + v[k] * Q::int(w as i128); flow[i] = flow[i] - v[k]; flow[j] = flow[j] + v[k]; k += 1; } }
            for i in 0..n { check!(flow[i] == Q::int(if i == s { -1 } else if i == t { 1 } else { 0 }), "flow into {i} is {:?}", flow[i]); }
            check!(total == Q::int(d[s][t].unwrap() as i128), "length {total:?}, expected {:?}", d[s][t]);
            if d[s][t] != Some(0) && a[s].iter().all(|x| x.0 != t) { c.nontrivial(); }
        }
    }

}
fn main() { harness::main(kinds![incidence: 4, arithmetic: 1, paths: 3]) }
