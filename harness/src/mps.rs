//! Problem files: random problems, their texts in both formats, and what they mean.
use crate::{form::{q, table, R}, Q, Rng};
use relp::data::linear_program::{elements::{RangedConstraintRelation, VariableType}, general_form::GeneralForm};
use relp::io::mps::{parse_fixed, parse_free, MPS};
use relp_num::Rational64;
use std::convert::TryInto;

#[derive(Clone, Debug, Default)]
pub struct File {
    pub maximize: Option<bool>,
    /// type and name, the objective row included
    pub rows: Vec<(char, String)>,
    /// name, whether it's between integer markers, (row name, value)
    pub columns: Vec<(String, bool, Vec<(String, Q)>)>,
    /// name of the group, row, value
    pub rhs: Vec<(String, String, Q)>,
    pub ranges: Vec<(String, String, Q)>,
    /// type, name of the group, column, value
    pub bounds: Vec<(&'static str, String, String, Q)>,
}
/// numbers that have a finite decimal notation
pub fn number(g: &mut Rng) -> Q { let n = if g.chance(1, 8) { 0 } else { let n = g.range(1, 30); if g.chance(2, 5) { -n } else { n } }; Q::new(n as i128, *g.pick(&[1, 1, 1, 2, 4, 5, 10, 100])) }
pub fn nonzero(g: &mut Rng) -> Q { loop { let v = number(g); if !v.is_zero() { return v; } } }
/// a text for the value
fn text(g: &mut Rng, v: Q) -> String {
    let (n, mut d, mut places) = (v.num(), 1i128, 0); while d % v.den() != 0 { d *= 10; places += 1; }
    let a = (n * (d / v.den())).abs(); let sign = if n < 0 { "-" } else if g.chance(1, 10) { "+" } else { "" };
    if places == 0 { return format!("{sign}{a}{}", ["", "", "", ".0", "."][g.below(5)]); }
    let s = format!("{a:0>w$}", w = places + 1); let (w, p) = s.split_at(s.len() - places);
    format!("{sign}{}.{p}", if w == "0" && g.chance(1, 3) { "" } else { w })
}
pub fn name(g: &mut Rng, used: &mut Vec<String>, fixed: bool) -> String { loop {
    let n = 1 + g.below(if fixed { 8 } else { 12 });
    let mut s: String = (0..n).map(|i| if fixed && i > 0 && i + 1 < n && g.chance(1, 12) { ' ' } else { *g.pick(&['A', 'B', 'C', 'X', 'Y', 'a', 'z', '0', '1', '9', '_', '.', '-', '+', '*', '#']) }).collect();
    if s.starts_with('*') { s.insert(0, 'R'); s.truncate(n.max(1)); }
    let s = s.trim_end().to_string();
    if !used.contains(&s) && s != "RHS" { used.push(s.clone()); return s; }
} }
pub fn random(g: &mut Rng, fixed: bool, max_rows: usize, max_columns: usize) -> File {
    let mut used = vec![]; let (m, n) = (g.below(max_rows + 1), 1 + g.below(max_columns));
    let mut rows: Vec<(char, String)> = (0..m).map(|_| (*g.pick(&['L', 'G', 'E']), name(g, &mut used, fixed))).collect();
    let cost = name(g, &mut used, fixed); rows.insert(g.below(m + 1), ('N', cost));
    let mut used = vec![]; let mut integer = false;
    let columns: Vec<_> = (0..n).map(|_| { if g.chance(1, 4) { integer = !integer; }
        let all: Vec<usize> = g.perm(rows.len()); let mut k = 1 + g.below(rows.len()); if g.chance(1, 3) { k = rows.len(); }
        (name(g, &mut used, fixed), integer, all[..k].iter().map(|&i| (rows[i].1.clone(), number(g))).collect()) }).collect();
    let constraints: Vec<String> = rows.iter().filter(|r| r.0 != 'N').map(|r| r.1.clone()).collect();
    let mut group = |g: &mut Rng, num: usize, den: usize| -> Vec<(String, String, Q)> { let name = format!("S{}", g.below(9)); let mut p: Vec<String> = constraints.clone(); g.shuffle(&mut p); p.into_iter().filter(|_| g.chance(num, den)).map(|r| (name.clone(), r, Q::ZERO)).collect() };
    let mut rhs = group(g, 2, 3); for r in &mut rhs { r.2 = number(g); }
    if g.chance(1, 5) { let mut more = group(g, 1, 3); if !more.is_empty() && !rhs.is_empty() { let s = format!("T{}", g.below(9)); for r in &mut more { r.0 = s.clone(); r.2 = if g.chance(1, 2) { rhs.iter().find(|o| o.1 == r.1).map_or(Q::ZERO, |o| o.2) } else { number(g) }; } rhs.extend(more); } }
    // three values for one row, the last as the first
    if g.chance(1, 15) && !rhs.is_empty() { let (r, v) = { let e = g.pick(&rhs); (e.1.clone(), e.2) }; for (k, v) in [("U", number(g)), ("V", v)] { rhs.push((k.into(), r.clone(), v)); } }
    let mut ranges = group(g, 2, 5); for r in &mut ranges { r.2 = number(g); }
    let bounds = if g.chance(1, 2) { let k = g.below(2 * n + 1); (0..k).map(|_| { let j = g.below(n); (*g.pick(&["LO", "UP", "FX", "MI", "PL", "BV", "LI", "UI"]), "B".to_string(), columns[j].0.clone(), number(g)) }).collect() } else { vec![] };
    File { maximize: match g.below(4) { 0 => Some(true), 1 => Some(false), _ => None }, rows, columns, rhs, ranges, bounds }
}
/// pairs of fields two or one per line
fn pairs(g: &mut Rng, group: &str, v: &[(String, String)], line: &mut dyn FnMut(&mut Rng, [&str; 6])) { let mut i = 0; while i < v.len() { if i + 1 < v.len() && g.chance(1, 2) { line(g, ["", group, &v[i].0, &v[i].1, &v[i + 1].0, &v[i + 1].1]); i += 2; } else { line(g, ["", group, &v[i].0, &v[i].1, "", ""]); i += 1; } } }
pub fn render(g: &mut Rng, f: &File, fixed: bool) -> String {
    let mut out: Vec<String> = vec![];
    let line = |g: &mut Rng, out: &mut Vec<String>, w: [&str; 6]| {
        let mut s = String::new();
        if fixed { for (k, (at, width)) in [(1, 2), (4, 8), (14, 8), (24, 12), (39, 8), (49, 12)].into_iter().enumerate() { if w[k].is_empty() { continue; } while s.len() < at { s.push(' '); } if k % 2 == 1 && k > 1 && g.chance(2, 3) { s += &format!("{:>width$}", w[k]); } else { s += w[k]; } }
            if g.chance(1, 5) { while s.len() < 61 { s.push(' '); } } }
        else { s = " ".repeat(1 + g.below(4)); let words: Vec<&str> = w.into_iter().filter(|w| !w.is_empty()).collect(); s += &words.join([" ", "  ", "\t", "     "][g.below(4)]); if g.chance(1, 8) { s += "  "; } }
        out.push(s);
    };
    out.push(format!("NAME          {}", if g.chance(1, 2) { "P" } else { "PROBLEM1" }));
    if let Some(m) = f.maximize { out.push("OBJSENSE".into()); out.push(format!("  {}", if m { *g.pick(&["MAX", "MAXIMIZE"]) } else { *g.pick(&["MIN", "MINIMIZE"]) })); }
    out.push("ROWS".into()); for (t, n) in &f.rows { line(g, &mut out, [&t.to_string(), n, "", "", "", ""]); }
    out.push("COLUMNS".into()); let mut integer = false;
    let marker = |g: &mut Rng, out: &mut Vec<String>, start: bool| { let t = if start { "'INTORG'" } else { "'INTEND'" }; if fixed { line(g, out, ["", "M1", "'MARKER'", "", t, ""]) } else { line(g, out, ["", "M1", "'MARKER'", t, "", ""]) } };
    for (n, int, v) in &f.columns { if *int != integer { integer = *int; marker(g, &mut out, integer); }
        let v: Vec<_> = v.iter().map(|(r, x)| (r.clone(), text(g, *x))).collect(); pairs(g, n, &v, &mut |g, w| line(g, &mut out, w)); }
    if integer { marker(g, &mut out, false); }
    for (head, list) in [("RHS", &f.rhs), ("RANGES", &f.ranges)] { if list.is_empty() && g.chance(1, 2) { continue; } out.push(head.into());
        let mut i = 0; while i < list.len() { let k = i + list[i..].iter().take_while(|e| e.0 == list[i].0).count(); let v: Vec<_> = list[i..k].iter().map(|e| (e.1.clone(), text(g, e.2))).collect(); pairs(g, &list[i].0, &v, &mut |g, w| line(g, &mut out, w)); i = k; } }
    if !f.bounds.is_empty() || g.chance(1, 2) { out.push("BOUNDS".into()); for (t, group, column, v) in &f.bounds { let v = if matches!(*t, "FR" | "MI" | "PL" | "BV") { String::new() } else { text(g, *v) }; line(g, &mut out, [t, group, column, &v, "", ""]); } }
    out.push("ENDATA".into());
    let mut i = 0; while i < out.len() { if g.chance(1, 15) { out.insert(i, if g.chance(1, 2) { "* a comment".into() } else { String::new() }); i += 1; } i += 1; }
    out.join(if g.chance(1, 8) { "\r\n" } else { "\n" }) + if g.chance(1, 2) { "\n" } else { "" }
}
pub fn read(text: &str, fixed: bool) -> Result<GeneralForm<R>, String> {
    let mps: MPS<Rational64> = if fixed { parse_fixed(&text) } else { parse_free(&text) }.map_err(|e| e.to_string())?;
    mps.try_into().map_err(|e: relp::io::error::Inconsistency| e.to_string())
}
pub type Interval = (Option<Q>, Option<Q>);
/// What a problem says, by name.
#[derive(Clone, Debug, PartialEq)]
pub struct Meaning { pub maximize: bool, pub constant: Q, pub rows: Vec<(Vec<Q>, Interval)>, pub names: Vec<String>, pub cost: Vec<Q>, pub bounds: Vec<Interval>, pub integer: Vec<bool> }
/// What the format prescribes; none if it can't be given a meaning.
pub fn meaning(f: &File) -> Option<Meaning> {
    let mut names: Vec<&(char, String)> = f.rows.iter().filter(|r| r.0 != 'N').collect(); names.sort_by(|a, b| a.1.cmp(&b.1));
    let mut rows = vec![];
    for (t, n) in names {
        let a = f.columns.iter().map(|c| c.2.iter().find(|e| &e.0 == n).map_or(Q::ZERO, |e| e.1)).collect();
        let given: Vec<Q> = f.rhs.iter().filter(|e| &e.1 == n).map(|e| e.2).collect();
        let range = f.ranges.iter().find(|e| &e.1 == n).map(|e| e.2);
        if given.iter().any(|v| *v != given[0]) && (*t == 'E' || range.is_some()) { return None; }
        let side = match t { 'L' => given.iter().copied().min(), 'G' => given.iter().copied().max(), _ => given.first().copied() }.unwrap_or(Q::ZERO);
        rows.push((a, match (t, range) { ('L', None) => (None, Some(side)), ('G', None) => (Some(side), None), (_, None) => (Some(side), Some(side)),
            ('L', Some(r)) => (Some(side - r.abs()), Some(side)), ('G', Some(r)) => (Some(side), Some(side + r.abs())), (_, Some(r)) => if r.signum() < 0 { (Some(side + r), Some(side)) } else { (Some(side), Some(side + r)) } }));
    }
    let cost = &f.rows.iter().find(|r| r.0 == 'N')?.1; let (mut bounds, mut integer) = (vec![], vec![]);
    for (n, int, _) in &f.columns {
        let lines: Vec<_> = f.bounds.iter().filter(|b| &b.2 == n).collect();
        let (mut lo, mut hi, mut default, mut int, mut free): (Option<Q>, Option<Q>, bool, bool, bool) = (None, None, true, *int, false);
        for (t, _, _, v) in lines { let (l, h) = match *t { "LO" | "LI" => (Some(*v), None), "UP" | "UI" => (None, Some(*v)), "FX" => (Some(*v), Some(*v)), "MI" => (None, Some(Q::ZERO)), "PL" => (Some(Q::ZERO), None), "BV" => (Some(Q::ZERO), Some(Q::int(1))), "FR" => { free = true; (None, None) } _ => return None };
            if let Some(l) = l { lo = Some(lo.map_or(l, |o| o.max(l))); } if let Some(h) = h { hi = Some(hi.map_or(h, |o| o.min(h))); }
            if !matches!(*t, "UP" | "UI") { default = false; } if matches!(*t, "LI" | "UI" | "BV") { int = true; } }
        if free && (lo.is_some() || hi.is_some()) { return None; }
        if default { lo = Some(Q::ZERO); }
        bounds.push((lo, hi)); integer.push(int);
    }
    Some(Meaning { maximize: f.maximize == Some(true), constant: Q::ZERO, rows, names: f.columns.iter().map(|c| c.0.clone()).collect(), cost: f.columns.iter().map(|c| c.2.iter().find(|e| &e.0 == cost).map_or(Q::ZERO, |e| e.1)).collect(), bounds, integer })
}
/// What was read.
pub fn found(g: &GeneralForm<R>) -> Meaning {
    let (o, f, m, t, b, v) = g.verif_view();
    for j in 0..m.nr_columns() { for (i, x) in m.iter_column(j) { crate::check!(!q(x).is_zero(), "column {j} stores a zero for row {i}"); } }
    crate::check!(b.len() == t.len() && m.nr_rows() == t.len() && m.nr_columns() == v.len() && g.verif_names().len() == v.len(), "sizes differ: {} right-hand sides, {} relations, {} x {} matrix, {} variables", b.len(), t.len(), m.nr_rows(), m.nr_columns(), v.len());
    for v in v { crate::check!(q(&v.shift).is_zero() && !v.flipped, "a variable that was just read is shifted or flipped"); }
    Meaning { maximize: matches!(o, relp::data::linear_program::elements::Objective::Maximize), constant: q(f), names: g.verif_names().into_iter().map(String::from).collect(),
        rows: table(m).into_iter().enumerate().map(|(i, a)| { let bi = q(&b[i]); (a, match &t[i] { RangedConstraintRelation::Equal => (Some(bi), Some(bi)), RangedConstraintRelation::Range(w) => (Some(bi - q(w)), Some(bi)), RangedConstraintRelation::Less => (None, Some(bi)), RangedConstraintRelation::Greater => (Some(bi), None) }) }).collect(),
        cost: v.iter().map(|v| q(&v.cost)).collect(), bounds: v.iter().map(|v| (v.lower_bound.as_ref().map(q), v.upper_bound.as_ref().map(q))).collect(), integer: v.iter().map(|v| v.variable_type == VariableType::Integer).collect() }
}
