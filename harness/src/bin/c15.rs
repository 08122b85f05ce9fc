//! C15: rows, right-hand sides and ranges of problem files.
use harness::{check, kinds, mps::{self, *}, Ctx, Rng};
fn compare(t: &str, fixed: bool, want: &Option<Meaning>) {
    match (read(t, fixed), want) {
        (Err(_), None) => {}
        (Err(e), Some(_)) => harness::fail!("rejected: {e}"),
        (Ok(g), None) => harness::fail!("accepted, though it has no meaning: {:?}", found(&g)),
        (Ok(g), Some(w)) => { let f = found(&g);
            check!(f.names == w.names, "variables {:?}, expected {:?}", f.names, w.names);
            check!(f.maximize == w.maximize && f.constant == w.constant, "objective is maximised: {}, constant {}", f.maximize, f.constant);
            check!(f.cost == w.cost, "costs {:?}, expected {:?}", f.cost, w.cost);
            check!(f.rows.len() == w.rows.len(), "{} rows, expected {}", f.rows.len(), w.rows.len());
            for i in 0..f.rows.len() { check!(f.rows[i] == w.rows[i], "row {i} (by name) is {:?}, expected {:?}", f.rows[i], w.rows[i]); }
            check!(f.integer == w.integer && f.bounds == w.bounds, "variables {:?} {:?}, expected {:?} {:?}", f.bounds, f.integer, w.bounds, w.integer); }
    }
}
fn run(g: &mut Rng, c: &mut Ctx, fixed: bool) {
    let f = mps::random(g, fixed, 6, 6); let t = render(g, &f, fixed); c.input(format!("{} format\n{t}", if fixed { "fixed" } else { "free" }));
    let want = meaning(&f); if want.is_some() && f.rows.len() > 2 { c.nontrivial(); }
    compare(&t, fixed, &want);
}
fn fixed(g: &mut Rng, c: &mut Ctx) { run(g, c, true) }
fn free(g: &mut Rng, c: &mut Ctx) { run(g, c, false) }
/// the order of rows, values and entries doesn't matter, nor does the format
fn order(g: &mut Rng, c: &mut Ctx) {
    let mut f = mps::random(g, true, 6, 6); for n in f.rows.iter_mut().map(|r| &mut r.1).chain(f.columns.iter_mut().flat_map(|k| std::iter::once(&mut k.0).chain(k.2.iter_mut().map(|e| &mut e.0)))).chain(f.rhs.iter_mut().map(|e| &mut e.1)).chain(f.ranges.iter_mut().map(|e| &mut e.1)).chain(f.bounds.iter_mut().map(|b| &mut b.2)) { *n = n.replace(' ', "&"); }
    let a = render(g, &f, true); let mut o = f.clone(); g.shuffle(&mut o.rows); for k in &mut o.columns { g.shuffle(&mut k.2); } g.shuffle(&mut o.ranges); g.shuffle(&mut o.bounds);
    o.ranges.sort_by(|a, b| a.0.cmp(&b.0)); let b = render(g, &o, false); c.input(format!("{a}\n---\n{b}"));
    match (read(&a, true), read(&b, false)) { (Ok(x), Ok(y)) => { c.nontrivial(); let (x, y) = (found(&x), found(&y)); check!(x == y, "{x:?} differs from {y:?}"); } (Err(_), Err(_)) => {} (x, y) => harness::fail!("only one is accepted: {:?} {:?}", x.err(), y.err()) }
}
/// files that can't be given a meaning: rejected, without a panic
fn malformed(g: &mut Rng, c: &mut Ctx) {
    let fixed = g.chance(1, 2); let mut f = mps::random(g, fixed, 6, 6); f.bounds.clear(); let constraints: Vec<String> = f.rows.iter().filter(|r| r.0 != 'N').map(|r| r.1.clone()).collect();
    if constraints.is_empty() { harness::skip("no rows") }
    let (what, v) = (g.below(9), number(g)); let j = g.below(f.columns.len());
    match what {
        0 => f.columns[j].2.push(("Q?".into(), v)),
        1 => { let e = g.pick(&f.columns[j].2).clone(); f.columns[j].2.push((e.0, v)) }
        2 => { let k = f.columns[j].clone(); let at = j + 1 + g.below(f.columns.len() - j); if at == j + 1 && at < f.columns.len() || f.columns.len() == j + 1 { harness::skip("adjacent") } f.columns.insert(at, k) }
        3 => { f.rows.retain(|r| r.0 != 'N') }
        4 => { let at = g.below(f.rows.len() + 1); f.rows.insert(at, ('N', "SECOND".into())) }
        5 => { let r = g.pick(&f.rows).1.clone(); let at = g.below(f.rows.len() + 1); f.rows.insert(at, (*g.pick(&['L', 'G', 'E']), r)) }
        6 => { let r = g.pick(&constraints).clone(); f.ranges.retain(|e| e.1 != r); f.ranges.push(("A".into(), r.clone(), v)); f.ranges.push(((if g.chance(1, 2) { "A" } else { "B" }).into(), r, v)) }
        7 => { let r = g.pick(&constraints).clone(); f.rhs.retain(|e| e.1 != r); f.rhs.push(("A".into(), r.clone(), v)); f.rhs.push(("A".into(), r, v)) }
        _ => { let list = if g.chance(1, 2) { &mut f.rhs } else { &mut f.ranges }; list.push(("S".into(), if g.chance(1, 2) { "Q?".into() } else { f.rows.iter().find(|r| r.0 == 'N').unwrap().1.clone() }, v)) }
    }
    let t = render(g, &f, fixed); c.input(format!("{} format, flaw {what}\n{t}", if fixed { "fixed" } else { "free" })); c.nontrivial();
    if let Ok(r) = read(&t, fixed) { harness::fail!("accepted: {:?}", found(&r)) }
}
/// texts with damage never make the parser panic
fn damaged(g: &mut Rng, c: &mut Ctx) {
    let fixed = g.chance(1, 2); let f = mps::random(g, fixed, 4, 3); let mut t: Vec<char> = render(g, &f, fixed).chars().collect();
    for _ in 0..1 + g.below(3) { if t.is_empty() { break } let i = g.below(t.len()); match g.below(5) { 0 => { t.remove(i); } 1 => t.insert(i, *g.pick(&[' ', 'é', '\n', '*', 'N', '-', '.', '\t', '\u{3000}'])), 2 => t[i] = *g.pick(&[' ', 'é', '\n', 'X', '0']), 3 => t.truncate(i + 1), _ => { let k = (i + 1 + g.below(30)).min(t.len()); let p: Vec<char> = t[i..k].to_vec(); for (n, ch) in p.into_iter().enumerate() { t.insert(i + n, ch) } } } }
    let t: String = t.into_iter().collect(); c.input(format!("{} format\n{t}", if fixed { "fixed" } else { "free" })); c.nontrivial();
    if let Ok(r) = read(&t, fixed) { found(&r); }
}
fn main() { harness::main(kinds![fixed: 4, free: 3, order: 2, malformed: 3, damaged: 2]) }
