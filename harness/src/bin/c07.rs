//! C07 sparse matrices against the plain table of numbers.
use harness::form::{q, r, R};
use harness::{check, kinds, Ctx, Rng, Q};
use relp::data::linear_algebra::matrix::{ColumnMajor, MatrixOrder, RowMajor, SparseMatrix};
use std::collections::HashSet;

type T = Vec<Vec<Q>>; // rows
type Cm = SparseMatrix<R, R, ColumnMajor>;
type Rm = SparseMatrix<R, R, RowMajor>;
fn gen(g: &mut Rng, m: usize, n: usize) -> T { let d = g.range(0, 4) as usize; (0..m).map(|_| (0..n).map(|_| if g.chance(d, 4) { g.nzfrac() } else { Q::ZERO }).collect()).collect() }
fn turn(t: &T, m: usize, n: usize) -> T { (0..n).map(|j| (0..m).map(|i| t[i][j]).collect()).collect() }
fn tuples(t: &T) -> Vec<Vec<(usize, R)>> { t.iter().map(|v| v.iter().enumerate().filter(|(_, x)| !x.is_zero()).map(|(j, &x)| (j, r(x))).collect()).collect() }
fn read<'a>(v: &[(usize, R)], n: usize, what: &str) -> Vec<Q> {
    let mut out = vec![Q::ZERO; n]; let mut last = None;
    for (i, x) in v { check!(last.map_or(true, |l| l < *i) && *i < n, "{what}: indices {v:?} not increasing below {n}"); check!(!q(x).is_zero(), "{what}: zero stored in {v:?}"); out[*i] = q(x); last = Some(*i); }
    out
}
fn cm(x: &Cm, t: &T, m: usize, n: usize, what: &str) {
    check!(x.nr_rows() == m && x.nr_columns() == n, "{what}: {} by {}, expected {m} by {n}", x.nr_rows(), x.nr_columns());
    let want = turn(t, m, n);
    check!(x.data.len() == n && x.iter_columns().count() == n, "{what}: {} columns stored", x.data.len());
    for (j, col) in x.iter_columns().enumerate() { let got = read(col, m, what); check!(got == want[j], "{what}: column {j} is {got:?}, expected {:?}", want[j]); let v: Vec<_> = x.iter_column(j).cloned().collect(); check!(&v == col, "{what}: iter_column({j})"); }
    check!(x.size() == t.iter().flatten().filter(|v| !v.is_zero()).count(), "{what}: size {}", x.size());
}
fn rm(x: &Rm, t: &T, m: usize, n: usize, what: &str) {
    check!(x.nr_rows() == m && x.nr_columns() == n, "{what}: {} by {}, expected {m} by {n}", x.nr_rows(), x.nr_columns());
    check!(x.data.len() == m && x.iter_rows().count() == m, "{what}: {} rows stored", x.data.len());
    for (i, row) in x.iter_rows().enumerate() { let got = read(row, n, what); check!(got == t[i], "{what}: row {i} is {got:?}, expected {:?}", t[i]); let v: Vec<_> = x.iter_row(i).cloned().collect(); check!(&v == row, "{what}: iter_row({i})"); }
    check!(x.size() == t.iter().flatten().filter(|v| !v.is_zero()).count(), "{what}: size {}", x.size());
}
fn size(g: &mut Rng) -> usize { if g.chance(4, 5) { g.range(1, 5) as usize } else { g.range(1, 12) as usize } }
fn removal(g: &mut Rng, n: usize) -> Vec<usize> { let p = g.range(1, 3) as usize; let mut v = g.subset(n, p, 4); if v.len() == n { v.pop(); } v }
fn drop_cols(t: &mut T, d: &[usize]) { for row in t.iter_mut() { for &j in d.iter().rev() { row.remove(j); } } }
fn drop_rows(t: &mut T, d: &[usize]) { for &j in d.iter().rev() { t.remove(j); } }

fn column(g: &mut Rng, c: &mut Ctx) {
    let (mut m, mut n) = (size(g), size(g));
    let mut t = gen(g, m, n);
    c.input(format!("column major {t:?}"));
    let mut x: Cm = match g.below(3) {
        0 => ColumnMajor::from_test_data::<R, R, R>(&t.iter().map(|v| v.iter().map(|&x| r(x)).collect()).collect::<Vec<Vec<R>>>(), n),
        1 if m == n => { t = (0..n).map(|i| (0..n).map(|j| Q::int((i == j) as i128)).collect()).collect(); ColumnMajor::identity(n) }
        _ => ColumnMajor::new(tuples(&turn(&t, m, n)), m, n),
    };
    cm(&x, &t, m, n, "created");
    for _ in 0..g.range(1, 6) {
        let what = match g.below(6) {
            0 => { let (i, j, v) = (g.below(m), g.below(n), g.nzfrac()); t[i][j] = v; x.set_value(i, j, r(v)); format!("set_value({i}, {j}, {v:?})") }
            1 => { let d = removal(g, n); drop_cols(&mut t, &d); n -= d.len(); x.remove_columns(&d); format!("remove_columns({d:?})") }
            2 => { let d = removal(g, m); drop_rows(&mut t, &d); m -= d.len(); x.remove_rows_although_this_matrix_is_column_major(&d); format!("remove_rows({d:?})") }
            3 => { let k = size(g); let o = gen(g, m, k); for (a, b) in t.iter_mut().zip(&o) { a.extend(b); } n += k; x = x.concatenate_horizontally(ColumnMajor::new(tuples(&turn(&o, m, k)), m, k)); format!("concatenate_horizontally({o:?})") }
            4 => { let d = g.subset(m, 1, 2); for &i in &d { for v in &mut t[i] { *v = Q::ZERO - *v; } } x.change_row_signs(&d.iter().copied().collect::<HashSet<_>>()); format!("change_row_signs({d:?})") }
            _ => {
                let y = Rm::from_column_major(&x);
                let y: Rm = RowMajor::new(y.data.iter().map(|v| v.iter().map(|(i, x)| (*i, (*x).clone())).collect()).collect(), y.nr_rows(), y.nr_columns());
                rm(&y, &t, m, n, "from_column_major");
                let z = Cm::from_row_ordered_tuples_although_this_is_expensive(&y.data, n);
                check!(z.nr_rows() == m && z.nr_columns() == n, "from_row_ordered: size {} by {}", z.nr_rows(), z.nr_columns());
                x = ColumnMajor::new(z.data.iter().map(|v| v.iter().map(|(i, x)| (*i, (*x).clone())).collect()).collect(), m, n);
                "turned twice".into()
            }
        };
        c.input(what.clone());
        cm(&x, &t, m, n, &what);
    }
    if t.iter().flatten().filter(|v| !v.is_zero()).count() > 1 { c.nontrivial(); }
}
fn row(g: &mut Rng, c: &mut Ctx) {
    let (mut m, mut n) = (size(g), size(g));
    let mut t = gen(g, m, n);
    c.input(format!("row major {t:?}"));
    let mut x: Rm = match g.below(3) {
        0 => RowMajor::from_test_data::<R, R, R>(&t.iter().map(|v| v.iter().map(|&x| r(x)).collect()).collect::<Vec<Vec<R>>>(), n),
        1 if m == n => { t = (0..n).map(|i| (0..n).map(|j| Q::int((i == j) as i128)).collect()).collect(); RowMajor::identity(n) }
        _ => RowMajor::new(tuples(&t), m, n),
    };
    rm(&x, &t, m, n, "created");
    for _ in 0..g.range(1, 6) {
        let what = match g.below(4) {
            0 => { let (i, j, v) = (g.below(m), g.below(n), g.nzfrac()); t[i][j] = v; x.set_value(i, j, r(v)); format!("set_value({i}, {j}, {v:?})") }
            1 => { let d = removal(g, n); drop_cols(&mut t, &d); n -= d.len(); x.remove_columns_although_this_matrix_is_row_ordered(&d); format!("remove_columns({d:?})") }
            2 => { let d = removal(g, m); drop_rows(&mut t, &d); m -= d.len(); x.remove_rows(&d); format!("remove_rows({d:?})") }
            _ => { let k = size(g); let o = gen(g, k, n); t.extend(o.clone()); m += k; x = x.concatenate_vertically(RowMajor::new(tuples(&o), k, n)); format!("concatenate_vertically({o:?})") }
        };
        c.input(what.clone());
        rm(&x, &t, m, n, &what);
    }
    if t.iter().flatten().filter(|v| !v.is_zero()).count() > 1 { c.nontrivial(); }
}
fn main() { harness::main(kinds![column: 4, row: 3]) }
