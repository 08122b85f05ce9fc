//! Oracle: exact dense two-phase simplex (Bland) over `Q` for small linear programs.
use crate::{Q, Rng};
use std::fmt;

pub type B = Option<Q>;
#[derive(Clone)]
pub struct Row { pub a: Vec<Q>, pub lo: B, pub hi: B }
/// minimise (or maximise) `c x + c0` over rows `lo <= a x <= hi` and bounds `lo <= x <= hi`
#[derive(Clone)]
pub struct Lp { pub maximize: bool, pub c: Vec<Q>, pub c0: Q, pub rows: Vec<Row>, pub vars: Vec<(B, B)> }
#[derive(Debug, Clone, PartialEq)]
pub enum Res { Infeasible, Unbounded, Opt(Q) }

pub fn dot(a: &[Q], x: &[Q]) -> Q { a.iter().zip(x).map(|(&p, &q)| p * q).sum() }
pub fn within(v: Q, lo: B, hi: B) -> bool { lo.map_or(true, |l| l <= v) && hi.map_or(true, |h| v <= h) }

impl Lp {
    pub fn value(&self, x: &[Q]) -> Q { dot(&self.c, x) + self.c0 }
    /// first violated condition, if any
    pub fn violated(&self, x: &[Q]) -> Option<String> {
        if x.len() != self.vars.len() { return Some(format!("{} values for {} variables", x.len(), self.vars.len())); }
        for (j, &(l, h)) in self.vars.iter().enumerate() { if !within(x[j], l, h) { return Some(format!("variable {j} = {} outside its bounds", x[j])); } }
        for (i, r) in self.rows.iter().enumerate() { let v = dot(&r.a, x); if !within(v, r.lo, r.hi) { return Some(format!("row {i} has value {v} outside its bounds")); } }
        None
    }
    pub fn solve(&self) -> Res { self.solve_point().0 }
    pub fn solve_point(&self) -> (Res, Option<Vec<Q>>) {
        // x_j = base_j + sum sign * y_k
        let n = self.vars.len();
        let mut base = vec![Q::ZERO; n];
        let mut cols: Vec<(usize, Q)> = vec![];
        let mut extra: Vec<(usize, Q)> = vec![]; // column y_k <= u
        for j in 0..n {
            let (l, h) = self.vars[j];
            if let (Some(l), Some(h)) = (l, h) { if l > h { return (Res::Infeasible, None); } }
            match (l, h) {
                (Some(l), h) => { base[j] = l; if let Some(h) = h { extra.push((cols.len(), h - l)); } cols.push((j, Q::ONE)); }
                (None, Some(h)) => { base[j] = h; cols.push((j, -Q::ONE)); }
                (None, None) => { cols.push((j, Q::ONE)); cols.push((j, -Q::ONE)); }
            }
        }
        // rows with <=, =, as equalities with slack
        let mut rows: Vec<(Vec<Q>, Q, i8)> = vec![]; // kind: 0 equality, 1 <=, -1 >=
        for r in &self.rows {
            let a: Vec<Q> = cols.iter().map(|&(j, s)| r.a[j] * s).collect();
            let k = dot(&r.a, &base);
            match (r.lo, r.hi) {
                (Some(l), Some(h)) if l == h => rows.push((a, l - k, 0)),
                (l, h) => {
                    if let (Some(l), Some(h)) = (l, h) { if l > h { return (Res::Infeasible, None); } }
                    if let Some(h) = h { rows.push((a.clone(), h - k, 1)); }
                    if let Some(l) = l { rows.push((a, l - k, -1)); }
                }
            }
        }
        for &(k, u) in &extra { let mut a = vec![Q::ZERO; cols.len()]; a[k] = Q::ONE; rows.push((a, u, 1)); }
        let ns = rows.iter().filter(|r| r.2 != 0).count();
        let m = rows.len();
        let nc = cols.len() + ns + m;
        let mut t: Vec<Vec<Q>> = vec![vec![Q::ZERO; nc + 1]; m];
        let mut basis = vec![0; m];
        let mut s = cols.len();
        for (i, (a, b, k)) in rows.iter().enumerate() {
            t[i][..a.len()].copy_from_slice(a);
            t[i][nc] = *b;
            if *k != 0 { t[i][s] = Q::int(*k as i128); s += 1; }
            if b.signum() < 0 { for v in t[i].iter_mut() { *v = -*v; } }
            t[i][cols.len() + ns + i] = Q::ONE;
            basis[i] = cols.len() + ns + i;
        }
        let art = cols.len() + ns;
        let mut c1 = vec![Q::ZERO; nc]; for k in art..nc { c1[k] = Q::ONE; }
        simplex(&mut t, &mut basis, &c1, nc);
        let v: Q = (0..m).filter(|&i| basis[i] >= art).map(|i| t[i][nc]).sum();
        if !v.is_zero() { return (Res::Infeasible, None); }
        // drive artificials out where possible
        for i in 0..m { if basis[i] >= art { if let Some(j) = (0..art).find(|&j| !t[i][j].is_zero()) { pivot(&mut t, &mut basis, i, j); } } }
        let sg = if self.maximize { -Q::ONE } else { Q::ONE };
        let mut c2 = vec![Q::ZERO; nc];
        for (k, &(j, s)) in cols.iter().enumerate() { c2[k] = self.c[j] * s * sg; }
        if !simplex(&mut t, &mut basis, &c2, art) { return (Res::Unbounded, None); }
        let mut x = base;
        for i in 0..m { if basis[i] < cols.len() { let (j, s) = cols[basis[i]]; x[j] += s * t[i][nc]; } }
        let v = self.value(&x);
        assert!(self.violated(&x).is_none(), "harness: oracle point infeasible");
        (Res::Opt(v), Some(x))
    }
}
fn pivot(t: &mut [Vec<Q>], basis: &mut [usize], i: usize, j: usize) {
    let p = t[i][j];
    for v in t[i].iter_mut() { if !v.is_zero() { *v = *v / p; } }
    let r = t[i].clone();
    for k in 0..t.len() { if k != i && !t[k][j].is_zero() { let f = t[k][j]; for (v, w) in t[k].iter_mut().zip(&r) { if !w.is_zero() { *v = *v - f * *w; } } } }
    basis[i] = j;
}
/// false: unbounded
fn simplex(t: &mut Vec<Vec<Q>>, basis: &mut Vec<usize>, c: &[Q], allowed: usize) -> bool {
    let m = t.len(); let w = c.len();
    loop {
        let mut enter = None;
        for j in 0..allowed {
            if basis.contains(&j) { continue; }
            let mut d = c[j]; for i in 0..m { if !t[i][j].is_zero() && !c[basis[i]].is_zero() { d = d - c[basis[i]] * t[i][j]; } }
            if d.signum() < 0 { enter = Some(j); break; }
        }
        let j = match enter { None => return true, Some(j) => j };
        let mut best: Option<(Q, usize)> = None;
        for i in 0..m { if t[i][j].signum() > 0 { let r = t[i][w] / t[i][j]; if best.map_or(true, |(b, k)| r < b || (r == b && basis[i] < basis[k])) { best = Some((r, i)); } } }
        match best { None => return false, Some((_, i)) => pivot(t, basis, i, j) }
    }
}
impl fmt::Debug for Lp { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{self}") } }
fn b(x: B) -> String { x.map_or("-".into(), |v| v.to_string()) }
impl fmt::Display for Lp {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{} {:?} + {}", if self.maximize { "max" } else { "min" }, self.c, self.c0)?;
        for r in &self.rows { write!(f, "; {} <= {:?} <= {}", b(r.lo), r.a, b(r.hi))?; }
        write!(f, "; vars")?;
        for v in &self.vars { write!(f, " [{}, {}]", b(v.0), b(v.1))?; }
        Ok(())
    }
}

/// Shape of random problems.
#[derive(Clone, Copy)]
pub struct Shape { pub max_n: i64, pub max_m: i64, pub nonneg_only: bool, pub tame: bool }
/// A random problem; often (but not always) feasible by construction, with degenerate rows now and then.
pub fn random(g: &mut Rng, s: Shape) -> Lp {
    let n = g.range(1, s.max_n) as usize;
    let m = g.range(0, s.max_m) as usize;
    let dens = g.range(1, 4) as usize;
    let coef = |g: &mut Rng| -> Q { if s.tame || g.chance(3, 4) { Q::int(*g.pick(&[-3i128, -2, -1, -1, 1, 1, 2, 3])) } else { g.nzfrac() } };
    let val = |g: &mut Rng| -> Q { if s.tame || g.chance(4, 5) { Q::int(g.range(-6, 6) as i128) } else { g.frac() } };
    let mut vars = vec![];
    for _ in 0..n {
        let k = if s.nonneg_only { g.below(3) } else { g.below(8) };
        vars.push(match k {
            0 | 1 => (Some(Q::ZERO), None),
            2 => (Some(Q::ZERO), Some(val(g).abs())),
            3 => (None, None),
            4 => (Some(val(g)), None),
            5 => (None, Some(val(g))),
            6 => { let l = val(g); (Some(l), Some(l + val(g).abs())) }
            _ => { let l = val(g); (Some(l), if g.chance(1, 3) { Some(l) } else { None }) }
        });
    }
    // a reference point inside the bounds
    let x: Vec<Q> = vars.iter().map(|&(l, h): &(B, B)| match (l, h) {
        (Some(l), Some(h)) => { if g.chance(1, 3) { l } else if g.chance(1, 2) { h } else { l + (h - l) * Q::new(1, 2) } }
        (Some(l), None) => if g.chance(1, 3) { l } else { l + val(g).abs() },
        (None, Some(h)) => if g.chance(1, 3) { h } else { h - val(g).abs() },
        (None, None) => val(g),
    }).collect();
    let anchored = g.chance(4, 5);
    let mut rows: Vec<Row> = vec![];
    for _ in 0..m {
        let mut a: Vec<Q> = (0..n).map(|_| if g.chance(dens, 4) { coef(g) } else { Q::ZERO }).collect();
        if !rows.is_empty() && g.chance(1, 6) { // dependent row
            let k = g.below(rows.len()); let f = coef(g); a = rows[k].a.iter().map(|&v| v * f).collect();
            if rows.len() > 1 && g.chance(1, 2) { let l = g.below(rows.len()); for j in 0..n { a[j] += rows[l].a[j]; } }
        }
        let v = if anchored { dot(&a, &x) } else { val(g) };
        let slack = |g: &mut Rng| if g.chance(1, 3) { Q::ZERO } else { val(g).abs() };
        let (lo, hi) = match g.below(5) {
            0 | 1 => (Some(v), Some(v)),
            2 => (None, Some(v + slack(g))),
            3 => (Some(v - slack(g)), None),
            _ => { let p = slack(g); let q = slack(g); (Some(v - p), Some(v + if p.is_zero() && q.is_zero() { Q::ONE } else { q })) }
        };
        rows.push(Row { a, lo, hi });
    }
    let mut c: Vec<Q> = (0..n).map(|_| if g.chance(1, 4) { Q::ZERO } else { coef(g) }).collect();
    if g.chance(1, 8) { for v in c.iter_mut() { *v = Q::ZERO; } }
    let c0 = if g.chance(1, 2) { Q::ZERO } else { val(g) };
    Lp { maximize: !s.nonneg_only && g.chance(1, 2), c, c0, rows, vars }
}
