//! C14: decimal numbers of problem files.
use harness::{check, kinds, Ctx, Rng, Q};
use relp::io::mps::number::parse::Parse;
use relp_num::Rational64;

/// what the text denotes: sign, digits of the whole, digits behind the point
fn denoted(t: &str) -> Option<(bool, String, String)> {
    let b = t.as_bytes(); let mut i = 0; let neg = b.first() == Some(&b'-');
    if matches!(b.first(), Some(b'-' | b'+')) { i = 1; }
    let (mut whole, mut part, mut point) = (String::new(), String::new(), false);
    for &c in &b[i..] { match c { b'.' if !point => point = true, b'0'..=b'9' => if point { part.push(c as char) } else { whole.push(c as char) }, _ => return None } }
    if whole.is_empty() && part.is_empty() { None } else { Some((neg, whole, part)) }
}
/// the number if it fits in 64 bits
fn exact(whole: &str, part: &str) -> Option<(u64, u64)> {
    let mut n: u128 = 0; for c in whole.bytes().chain(part.bytes()) { n = n.checked_mul(10)?.checked_add((c - b'0') as u128)?; }
    let d = 10u128.checked_pow(part.len() as u32)?;
    if n > u64::MAX as u128 || d > u64::MAX as u128 { None } else { Some((n as u64, d as u64)) }
}
fn judge(t: &str, c: &mut Ctx) {
    c.input(format!("{t:?}"));
    let got = <Rational64 as Parse>::parse(t);
    match (denoted(t), got) {
        (None, Ok(v)) => harness::fail!("not a number, read as {v}"),
        (None, Err(_)) => {}
        (Some((neg, whole, part)), got) => match (exact(&whole, &part), got) {
            (None, Ok(v)) => { let s = v.to_string(); let zero = whole.bytes().chain(part.bytes()).all(|c| c == b'0'); check!(zero && s == "0", "beyond 64 bits, read as {v}") }
            (None, Err(_)) => {}
            (Some(_), Err(e)) => harness::fail!("rejected: {e}"),
            (Some((n, d)), Ok(v)) => {
                let mut want = Q::new(n as i128, d as i128); if neg { want = -want; }
                check!(Q::parse(&v.to_string()) == want, "read as {v}, expected {want}");
                if n != 0 { c.nontrivial(); }
            }
        },
    }
}
fn digits(g: &mut Rng, n: usize) -> String { (0..n).map(|_| if g.chance(1, 4) { '0' } else { (b'0' + g.below(10) as u8) as char }).collect() }
fn number(g: &mut Rng, c: &mut Ctx) {
    let max = if g.chance(1, 4) { 24 } else { 9 };
    let sign = ["", "-", "", "+"][g.below(4)];
    let n = g.below(max); let whole = digits(g, n); let n = g.below(max); let part = digits(g, n);
    let t = if g.chance(1, 3) { format!("{sign}{whole}") } else { format!("{sign}{whole}.{part}") };
    judge(&t, c);
}
/// around the largest numbers
fn edge(g: &mut Rng, c: &mut Ctx) {
    let v = (u64::MAX as u128 + g.below(5) as u128 - 2).to_string(); let k = g.below(22);
    let t = if k >= v.len() { format!("0.{}{v}", "0".repeat(k - v.len())) } else { format!("{}.{}", &v[..v.len() - k], &v[v.len() - k..]) };
    judge(&format!("{}{t}", ["", "-"][g.below(2)]), c);
}
fn text(g: &mut Rng, c: &mut Ctx) {
    let n = g.below(7); let t: String = (0..n).map(|_| ['0', '1', '9', '.', '-', '+', 'e', 'E', ' ', 'x', 'é', '_', ','][g.below(13)]).collect();
    judge(&t, c); c.nontrivial();
}
fn main() { harness::main(kinds![number: 4, edge: 1, text: 3]) }
