//! C16: bounds of the variables of problem files.
use harness::{check, kinds, mps::{self, *}, Ctx, Q, Rng};
const TYPES: [&str; 9] = ["LO", "UP", "FX", "FR", "MI", "PL", "BV", "LI", "UI"];
fn judge(f: &File, t: &str, fixed: bool, c: &mut Ctx) {
    c.input(format!("{} format\n{t}", if fixed { "fixed" } else { "free" }));
    let want = meaning(f); if f.bounds.len() > 1 { c.nontrivial(); }
    match (read(t, fixed), want) {
        (Err(_), None) => {}
        (Err(e), Some(w)) => harness::fail!("rejected: {e}; expected {:?}", w.bounds),
        (Ok(g), None) => harness::fail!("accepted as {:?}, though lines conflict or a type isn't supported", found(&g).bounds),
        (Ok(g), Some(w)) => { let f = found(&g); check!(f.names == w.names, "variables {:?}, expected {:?}", f.names, w.names);
            for j in 0..w.bounds.len() { check!(f.bounds[j] == w.bounds[j], "variable {} has bounds {:?}, expected {:?}", w.names[j], f.bounds[j], w.bounds[j]); check!(f.integer[j] == w.integer[j], "variable {} is integer: {}", w.names[j], f.integer[j]); }
            check!(f.cost == w.cost, "costs {:?}, expected {:?}", f.cost, w.cost); }
    }
}
/// several lines for a few variables
fn lines(g: &mut Rng, c: &mut Ctx) {
    let fixed = g.chance(1, 2); let mut f = mps::random(g, fixed, 2, 4); f.rhs.clear(); f.ranges.clear(); f.bounds.clear();
    let k = g.below(7); let free = g.chance(1, 4); let mut group = 'A';
    for _ in 0..k { let j = g.below(f.columns.len()); let t = loop { let t = *g.pick(&TYPES); if t != "FR" || free { break t; } }; if g.chance(1, 4) { group = *g.pick(&['A', 'B', 'C']); } let v = if g.chance(1, 6) { Q::ZERO } else { number(g) }; f.bounds.push((t, group.to_string(), f.columns[j].0.clone(), v)); }
    let t = render(g, &f, fixed); judge(&f, &t, fixed, c);
}
/// all pairs and triples of lines for one variable
fn few(g: &mut Rng, c: &mut Ctx) {
    let fixed = g.chance(1, 2); let mut f = mps::random(g, fixed, 1, 1); f.rhs.clear(); f.ranges.clear(); f.bounds.clear(); let n = f.columns[0].0.clone();
    for _ in 0..2 + g.below(2) { f.bounds.push((*g.pick(&TYPES), "B".into(), n.clone(), Q::int(g.range(-2, 2) as i128))); }
    let t = render(g, &f, fixed); judge(&f, &t, fixed, c);
}
/// types that don't exist or aren't supported, variables that don't exist, missing values
fn wrong(g: &mut Rng, c: &mut Ctx) {
    let fixed = g.chance(1, 2); let mut f = mps::random(g, fixed, 2, 3); f.rhs.clear(); f.ranges.clear(); f.bounds.retain(|b| b.0 == "UP"); let at = g.below(f.bounds.len() + 1); let n = f.columns[0].0.clone(); let v = number(g);
    let what = g.below(3);
    let l = match what { 0 => (*g.pick(&["SC", "XX", "lo", "L", "BX"]), "B".into(), n, v), 1 => (*g.pick(&["LO", "UP", "FX", "LI", "UI", "FR", "BV", "MI", "PL"]), "B".into(), "Q?".into(), v), _ => ("LO", "B".into(), n, v) };
    f.bounds.insert(at, l.clone()); let mut t = render(g, &f, fixed);
    if what == 2 { // the value is left out
        let mut lines: Vec<String> = t.lines().map(String::from).collect(); let s = lines.iter().position(|l| l.starts_with("BOUNDS")).unwrap(); let i = (s + 1..lines.len()).find(|&i| lines[i].trim_start().starts_with("LO")).unwrap();
        let l = lines[i].trim_end(); let cut = if fixed { 24.min(l.len()) } else { l.rfind([' ', '\t']).unwrap() }; lines[i] = l[..cut].to_string(); t = lines.join("\n"); }
    c.input(format!("{} format, flaw {what}\n{t}", if fixed { "fixed" } else { "free" })); c.nontrivial();
    if let Ok(r) = read(&t, fixed) { harness::fail!("accepted: {:?}", found(&r).bounds) }
}
fn main() { harness::main(kinds![lines: 5, few: 3, wrong: 1]) }
