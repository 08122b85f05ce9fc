//! Driver for the bounded runtime checks of the contracts on the real code.
//!
//! A case is a function of a 64-bit seed. It fails by panicking (its own `fail`, or any panic of the code under test).
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub mod q;
pub mod lp;
pub mod form;
pub mod sim;
pub mod mps;
pub use q::Q;

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng { Rng(mix(seed, 0x9E3779B97F4A7C15)) }
    pub fn next(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31) }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 { lo + self.below((hi - lo + 1) as usize) as i64 }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
    pub fn shuffle<T>(&mut self, v: &mut [T]) { for i in (1..v.len()).rev() { let j = self.below(i + 1); v.swap(i, j); } }
    pub fn perm(&mut self, n: usize) -> Vec<usize> { let mut v: Vec<usize> = (0..n).collect(); self.shuffle(&mut v); v }
    /// a sorted subset of 0..n, each element with probability num/den
    pub fn subset(&mut self, n: usize, num: usize, den: usize) -> Vec<usize> { (0..n).filter(|_| self.chance(num, den)).collect() }
    /// a small fraction, zero with probability about 1/4
    pub fn frac(&mut self) -> Q { if self.chance(1, 4) { Q::ZERO } else { self.nzfrac() } }
    pub fn nzfrac(&mut self) -> Q { let mut n = self.range(1, 9) as i128; if self.chance(1, 2) { n = -n } let d = if self.chance(2, 3) { 1 } else { self.range(2, 5) as i128 }; Q::new(n, d) }
    pub fn int(&mut self) -> Q { Q::int(self.range(-9, 9) as i128) }
}
pub fn mix(a: u64, b: u64) -> u64 { let mut z = a ^ b.rotate_left(23) ^ 0xD6E8FEB86659FD93; z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31) }

struct Skip(&'static str);
pub fn skip(why: &'static str) -> ! { panic::panic_any(Skip(why)) }

/// What a case reports about itself.
pub struct Ctx { hash: std::collections::hash_map::DefaultHasher, pub input: String, nontrivial: bool, known: Vec<(&'static str, String)> }
impl Ctx {
    /// record the input of this case, written out
    pub fn input(&mut self, s: String) { s.hash(&mut self.hash); if !self.input.is_empty() { self.input.push('\n'); } self.input.push_str(&s); INPUT.with(|i| *i.borrow_mut() = self.input.clone()); }
    /// the case exercises the property beyond its degenerate instances
    pub fn nontrivial(&mut self) { self.nontrivial = true; }
    /// the code shows exactly the listed defect `tag` (see known_findings.json); a violation if it is not listed
    pub fn known(&mut self, tag: &'static str, what: String) { self.known.push((tag, what)); }
}
thread_local! {
    static LAST: RefCell<String> = RefCell::new(String::new());
    static INPUT: RefCell<String> = RefCell::new(String::new());
}

pub type CaseFn = fn(&mut Rng, &mut Ctx);
/// name, relative weight, function
pub struct Kind { pub name: &'static str, pub weight: usize, pub run: CaseFn }
#[macro_export]
macro_rules! kinds { ($($f:path : $w:expr),* $(,)?) => { &[$($crate::Kind { name: stringify!($f), weight: $w, run: $f }),*] } }

enum Out { Ok(u64, bool, String, Vec<(&'static str, String)>), Skip, Fail(String, String) }
fn run_one(k: &Kind, seed: u64) -> Out {
    INPUT.with(|i| i.borrow_mut().clear());
    LAST.with(|l| l.borrow_mut().clear());
    let f = k.run;
    let r = panic::catch_unwind(move || { let mut rng = Rng::new(seed); let mut c = Ctx { hash: Default::default(), input: String::new(), nontrivial: false, known: vec![] }; f(&mut rng, &mut c); (c.hash.finish(), c.nontrivial, c.input, c.known) });
    match r {
        Ok((h, n, s, k)) => Out::Ok(h, n, s, k),
        Err(e) => {
            if e.downcast_ref::<Skip>().is_some() { return Out::Skip; }
            let m = LAST.with(|l| l.borrow().clone());
            if m.starts_with("harness:") { return Out::Skip; }
            Out::Fail(m, INPUT.with(|i| i.borrow().clone()))
        }
    }
}
fn js(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } } o.push('"'); o }

/// `BIN run SEED SECS OUT.json` or `BIN case KIND SEED`
pub fn main(kinds: &'static [Kind]) {
    let a: Vec<String> = std::env::args().collect();
    panic::set_hook(Box::new(|info| {
        if info.payload().downcast_ref::<Skip>().is_some() { return; }
        let m = info.payload().downcast_ref::<String>().cloned().or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST.with(|l| *l.borrow_mut() = if m.starts_with("harness:") || m.starts_with("FAIL ") { m.clone() } else { format!("panic: {m} at {loc}") });
    }));
    if a[1] == "case" {
        let k = kinds.iter().find(|k| k.name == a[2]).expect("kind");
        let seed: u64 = a[3].parse().unwrap();
        let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || run_one(k, seed)).unwrap().join().unwrap();
        match h { Out::Ok(_, _, s, k) => { println!("ok\n{s}"); for (t, w) in &k { println!("KNOWN {t}: {w}") } if !k.is_empty() { std::process::exit(3) } } Out::Skip => println!("skipped"), Out::Fail(m, s) => { println!("FAILED {m}\n{s}"); std::process::exit(1) } }
        return;
    }
    let (seed, secs, out): (u64, f64, String) = (a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].clone());
    let limit: f64 = std::env::var("CASE_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(60.0);
    let threads = std::env::var("THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8usize);
    let mut order = vec![]; for (i, k) in kinds.iter().enumerate() { for _ in 0..k.weight { order.push(i); } }
    let order = Arc::new(order);
    let start = Instant::now();
    let next = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    type Fl = (usize, String, u64, String, String);
    let fails: Arc<Mutex<Vec<Fl>>> = Default::default();
    let seen: Arc<Mutex<HashSet<u64>>> = Default::default();
    let samples: Arc<Mutex<HashMap<&'static str, String>>> = Default::default();
    let per: Arc<Vec<(AtomicU64, AtomicU64)>> = Arc::new(kinds.iter().map(|_| Default::default()).collect());
    let running: Arc<Vec<Mutex<Option<(usize, u64, Instant)>>>> = Arc::new((0..threads).map(|_| Mutex::new(None)).collect());
    let nt = Arc::new(AtomicU64::new(0));
    let known: Arc<Mutex<HashMap<(&'static str, &'static str), (u64, u64, String, String)>>> = Default::default();
    let mut hs = vec![];
    for t in 0..threads {
        let (order, next, stop, fails, seen, samples, per, running, nt, known, out) = (order.clone(), next.clone(), stop.clone(), fails.clone(), seen.clone(), samples.clone(), per.clone(), running.clone(), nt.clone(), known.clone(), out.clone());
        hs.push(std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            let mut status = std::fs::File::create(format!("{out}.t{t}")).ok();
            while !stop.load(Ordering::Relaxed) && start.elapsed().as_secs_f64() < secs {
                let n = next.fetch_add(1, Ordering::Relaxed);
                let k = order[mix(seed ^ 0x55, n) as usize % order.len()];
                let cs = mix(seed, n) >> 1;
                *running[t].lock().unwrap() = Some((k, cs, Instant::now()));
                if let Some(f) = &mut status { use std::os::unix::fs::FileExt; let _ = f.write_at(format!("{:<30} {:<22}\n", kinds[k].name, cs).as_bytes(), 0); }
                match run_one(&kinds[k], cs) {
                    Out::Ok(h, n, s, kn) => {
                        for (t, w) in kn { let mut g = known.lock().unwrap(); let e = g.entry((t, kinds[k].name)).or_insert((0, cs, w.clone(), s.clone())); e.0 += 1; if s.len() < e.3.len() { *e = (e.0, cs, w, s.clone()); } }
                        per[k].0.fetch_add(1, Ordering::Relaxed);
                        if n { let mut g = seen.lock().unwrap(); if g.len() < 4_000_000 && g.insert(h) { nt.fetch_add(1, Ordering::Relaxed); drop(g); let mut g = samples.lock().unwrap(); if s.len() < 1500 && !g.contains_key(kinds[k].name) { g.insert(kinds[k].name, s); } } }
                    }
                    Out::Skip => { per[k].1.fetch_add(1, Ordering::Relaxed); }
                    Out::Fail(m, i) => { per[k].0.fetch_add(1, Ordering::Relaxed); let mut g = fails.lock().unwrap(); g.push((i.len(), kinds[k].name.to_string(), cs, m, i)); if g.len() >= 40 { stop.store(true, Ordering::Relaxed); } }
                }
                *running[t].lock().unwrap() = None;
            }
        }).unwrap());
    }
    let write = |fails: &Vec<Fl>| {
        let mut fs: Vec<&Fl> = fails.iter().collect(); fs.sort();
        let ev: u64 = per.iter().map(|p| p.0.load(Ordering::Relaxed)).sum();
        let mut s = String::from("{");
        s += &format!("\"evaluations\":{ev},\"skipped\":{},\"distinct_nontrivial\":{},\"wall_s\":{:.2},", per.iter().map(|p| p.1.load(Ordering::Relaxed)).sum::<u64>(), nt.load(Ordering::Relaxed), start.elapsed().as_secs_f64());
        s += &format!("\"per_kind\":{{{}}},", kinds.iter().zip(per.iter()).map(|(k, p)| format!("{}:{}", js(k.name), p.0.load(Ordering::Relaxed))).collect::<Vec<_>>().join(","));
        s += &format!("\"samples\":[{}],", samples.lock().unwrap().iter().take(8).map(|(k, v)| js(&format!("{k}: {v}"))).collect::<Vec<_>>().join(","));
        s += &format!("\"known\":[{}],", known.lock().unwrap().iter().map(|((t, k), (n, cs, w, i))| format!("{{\"tag\":{},\"kind\":{},\"count\":{n},\"seed\":{cs},\"message\":{},\"input\":{}}}", js(t), js(k), js(w), js(i))).collect::<Vec<_>>().join(","));
        s += &format!("\"failures\":[{}]}}", fs.iter().map(|f| format!("{{\"kind\":{},\"seed\":{},\"message\":{},\"input\":{}}}", js(&f.1), f.2, js(&f.3), js(&f.4))).collect::<Vec<_>>().join(","));
        let mut f = std::fs::File::create(&out).unwrap(); f.write_all(s.as_bytes()).unwrap(); let _ = f.sync_all();
    };
    loop {
        std::thread::sleep(Duration::from_millis(50));
        if hs.iter().all(|h| h.is_finished()) { break; }
        // a case that never returns
        for r in running.iter() {
            let g = *r.lock().unwrap();
            if let Some((k, cs, at)) = g { if at.elapsed().as_secs_f64() > limit {
                let mut f = fails.lock().unwrap();
                f.push((0, kinds[k].name.to_string(), cs, format!("FAIL no result after {limit} s"), String::from("(see the seed; the input is printed by `case`)")));
                write(&f);
                std::process::exit(0);
            } }
        }
        if !fails.lock().unwrap().is_empty() { // collect a little more, to report a small one
            std::thread::sleep(Duration::from_millis(1500)); stop.store(true, Ordering::Relaxed);
        }
    }
    let f = fails.lock().unwrap();
    write(&f);
}
#[macro_export]
macro_rules! fail { ($($t:tt)*) => { panic!("FAIL {}", format!($($t)*)) } }
#[macro_export]
macro_rules! check { ($c:expr, $($t:tt)*) => { if !($c) { panic!("FAIL {}", format!($($t)*)) } } }
