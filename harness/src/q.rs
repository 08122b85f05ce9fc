//! Exact fractions over i128 for the oracles; an overflow abandons the case (`skip`), never fails it.
use std::cmp::Ordering;
use std::fmt;
use std::ops::{Add, Div, Mul, Neg, Sub};

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Q { n: i128, d: i128 }

fn gcd(mut a: i128, mut b: i128) -> i128 { while b != 0 { let t = a % b; a = b; b = t; } a.abs() }
fn c(x: Option<i128>) -> i128 { match x { Some(v) => v, None => crate::skip("oracle overflow") } }

impl Q {
    pub const ZERO: Q = Q { n: 0, d: 1 };
    pub const ONE: Q = Q { n: 1, d: 1 };
    pub fn new(n: i128, d: i128) -> Q {
        assert!(d != 0, "harness: zero denominator");
        let g = gcd(n, d);
        let (n, d) = (n / g, d / g);
        if d < 0 { Q { n: -n, d: -d } } else { Q { n, d } }
    }
    pub fn int(n: i128) -> Q { Q { n, d: 1 } }
    pub fn num(&self) -> i128 { self.n }
    pub fn den(&self) -> i128 { self.d }
    pub fn is_zero(&self) -> bool { self.n == 0 }
    pub fn signum(&self) -> i128 { self.n.signum() }
    pub fn abs(self) -> Q { Q { n: self.n.abs(), d: self.d } }
    pub fn parse(s: &str) -> Q {
        let s = s.trim();
        let p = |t: &str| -> i128 { t.trim().parse::<i128>().unwrap_or_else(|_| crate::skip("oracle overflow")) };
        match s.split_once('/') { Some((a, b)) => Q::new(p(a), p(b)), None => Q::int(p(s)) }
    }
    pub fn to_r<R: std::str::FromStr>(&self) -> R { match format!("{}/{}", self.n, self.d).parse() { Ok(r) => r, Err(_) => panic!("harness: conversion") } }
}
impl Add for Q { type Output = Q; fn add(self, o: Q) -> Q { let g = gcd(self.d, o.d); let l = c((self.d / g).checked_mul(o.d)); Q::new(c(c(self.n.checked_mul(o.d / g)).checked_add(c(o.n.checked_mul(self.d / g)))), l) } }
impl Sub for Q { type Output = Q; fn sub(self, o: Q) -> Q { self + (-o) } }
impl Neg for Q { type Output = Q; fn neg(self) -> Q { Q { n: -self.n, d: self.d } } }
impl Mul for Q { type Output = Q; fn mul(self, o: Q) -> Q { let g = gcd(self.n, o.d); let h = gcd(o.n, self.d); let (g, h) = (g.max(1), h.max(1)); Q::new(c((self.n / g).checked_mul(o.n / h)), c((self.d / h).checked_mul(o.d / g))) } }
impl Div for Q { type Output = Q; fn div(self, o: Q) -> Q { assert!(o.n != 0, "harness: division by zero"); self * Q::new(o.d, o.n) } }
impl std::ops::AddAssign for Q { fn add_assign(&mut self, o: Q) { *self = *self + o } }
impl std::ops::SubAssign for Q { fn sub_assign(&mut self, o: Q) { *self = *self - o } }
impl PartialOrd for Q { fn partial_cmp(&self, o: &Q) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Q { fn cmp(&self, o: &Q) -> Ordering { (*self - *o).n.cmp(&0) } }
impl fmt::Display for Q { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { if self.d == 1 { write!(f, "{}", self.n) } else { write!(f, "{}/{}", self.n, self.d) } } }
impl fmt::Debug for Q { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{self}") } }
impl std::iter::Sum for Q { fn sum<I: Iterator<Item = Q>>(it: I) -> Q { it.fold(Q::ZERO, |a, b| a + b) } }
