// Unit: reading decimal numbers.
use vstd::prelude::*;
use vstd::arithmetic::power::*;
verus! {
//%%include prelude.rs
//%%include text_spec.rs
//%%types str=Str; Self=Raw; ParseResult<Self>=Result<F, ParseError>; ParseResult<u64>=Result<u64, ParseError>; Self::Error=ParseError; Rational64=F
//%%item src/io/mps/number/parse.rs Raw
//%%end
//%%path u32::try_from=v_u32
//%%path Raw::try_from=Raw::try_from
//%%path Self::new_signed=v_new_signed
/// relp-num: a fraction with a sign
#[verifier::external_body] pub fn v_new_signed(sign: Sign, n: u64, d: u64) -> (r: F) requires d != 0, (sign is Zero) == (n == 0) ensures r@ == signed(sign, n as real / d as real) { unimplemented!() }
#[verifier::external_body] pub fn v_u32(x: usize) -> (r: Result<u32, Text>) ensures (r is Ok) == (x <= u32::MAX), r is Ok ==> r->Ok_0 == x { unimplemented!() }
pub assume_specification[u64::checked_pow](x: u64, e: u32) -> (r: Option<u64>) ensures r == (if pow(x as int, e as nat) <= u64::MAX { Some(pow(x as int, e as nat) as u64) } else { None });
pub assume_specification[u64::pow](x: u64, e: u32) -> (r: u64) requires pow(x as int, e as nat) <= u64::MAX ensures r == pow(x as int, e as nat);
pub assume_specification[u8::is_ascii_digit](c: &u8) -> (r: bool) ensures r == digit(*c);
pub open spec fn signed(sign: Sign, v: real) -> real { match sign { Sign::Zero => 0real, Sign::Positive => v, Sign::Negative => -v } }
impl Raw {
    pub open spec fn wf(&self) -> bool { (self.sign is Zero) == (self.integer == 0) && pow(10, self.decimal_steps_from_right as nat) <= u64::MAX }
    pub open spec fn value(&self) -> real { signed(self.sign, self.integer as real / pow(10, self.decimal_steps_from_right as nat) as real) }
}
/// the parts of a number's text: before and after the point
pub open spec fn unsigned(s: Seq<u8>) -> Seq<u8> { if s.len() > 0 && (s[0] == 45 || s[0] == 43) { s.subrange(1, s.len() as int) } else { s } }
pub open spec fn before(s: Seq<u8>) -> Seq<u8> { if s.contains(46) { s.subrange(0, s.index_of_first(46)->0) } else { s } }
pub open spec fn behind(s: Seq<u8>) -> Seq<u8> { if s.contains(46) { s.subrange(s.index_of_first(46)->0 + 1, s.len() as int) } else { Seq::empty() } }
/// the text is a decimal number
pub open spec fn numeral(s: Seq<u8>) -> bool { let d = unsigned(s); digits(before(d)) && digits(behind(d)) && before(d).len() + behind(d).len() > 0 }
/// all digits as one number
pub open spec fn mantissa(s: Seq<u8>) -> int { let d = unsigned(s); dval(before(d)) * pow(10, behind(d).len()) + dval(behind(d)) }
/// the number that the text states
pub open spec fn stated(s: Seq<u8>) -> real { let v = mantissa(s) as real / pow(10, behind(unsigned(s)).len()) as real; if s.len() > 0 && s[0] == 45 { -v } else { v } }
/// within the capacity of the number type
pub open spec fn fits(s: Seq<u8>) -> bool { mantissa(s) <= u64::MAX && pow(10, behind(unsigned(s)).len()) <= u64::MAX }
proof fn pow_long(n: nat) requires n >= 20 ensures pow(10, n) > u64::MAX decreases n { reveal(pow); if n > 20 { pow_long((n - 1) as nat); } else { assert(pow(10, 20) > u64::MAX) by(compute); } }
proof fn pow_one(n: nat) ensures pow(10, n) >= 1 decreases n { reveal(pow); if n > 0 { pow_one((n - 1) as nat); } }
proof fn dval_pos(s: Seq<u8>) requires digits(s) ensures dval(s) >= 0 decreases s.len() { if s.len() > 0 { let t = s.drop_last(); assert(digit(s[s.len() - 1])); assert forall|i: int| #![trigger t[i]] 0 <= i < t.len() implies digit(t[i]) by { assert(digit(s[i])); } dval_pos(t); } }
proof fn none_of(p: real) requires p >= 1real ensures 0real / p == 0real { assert(0real / p == 0real) by(nonlinear_arith) requires p >= 1real; }
proof fn capacity(s: Seq<u8>) ensures numeral(s) ==> dval(before(unsigned(s))) >= 0 && dval(behind(unsigned(s))) >= 0, numeral(s) && fits(s) ==> dval(before(unsigned(s))) <= u64::MAX && dval(behind(unsigned(s))) <= u64::MAX {
    if numeral(s) { let d = unsigned(s); dval_pos(before(d)); dval_pos(behind(d)); let (x, p) = (dval(before(d)), pow(10, behind(d).len())); pow_one(behind(d).len()); assert(x * p >= x) by(nonlinear_arith) requires x >= 0, p >= 1; assert(x * p >= 0) by(nonlinear_arith) requires x >= 0, p >= 1; }
}
//%%fn src/io/mps/number/parse.rs combine
//% native
//% spec
    ensures r is Some ==> pow(10, nr_decimals as nat) <= u64::MAX && r->0 == ((integer_value * pow(10, nr_decimals as nat) + decimal_value) as u64, nr_decimals as u32) && nr_decimals <= u32::MAX && integer_value * pow(10, nr_decimals as nat) + decimal_value <= u64::MAX,
      r is None ==> pow(10, nr_decimals as nat) > u64::MAX || integer_value * pow(10, nr_decimals as nat) + decimal_value > u64::MAX
//% start
    proof { if nr_decimals >= 20 { pow_long(nr_decimals as nat); } pow_one(nr_decimals as nat); }
//%%end
//%%fn src/io/mps/number/parse.rs parse_digits
//% native
//% closure 0 |c0: u8| -> (r: bool) ensures r == digit(c0)
//% closure 1 |c0: Text| -> (r: ParseError)
//% spec
    ensures r is Ok ==> digits(text@) && r->Ok_0 == dval(text@), r is Err ==> !digits(text@) || dval(text@) > u64::MAX
//%%end
//%%fn src/io/mps/number/parse.rs Raw as TryFrom::try_from
//% subst "" => v_empty()
//% native
//% start
    proof { capacity(text@); pow_one(behind(unsigned(text@)).len()); none_of(pow(10, behind(unsigned(text@)).len()) as real); unsigned(text@).index_of_first_ensures(46); }
//% spec
    ensures r is Ok ==> numeral(text@) && r->Ok_0.wf() && r->Ok_0.value() == stated(text@), r is Err ==> !numeral(text@) || !fits(text@)
//%%end
/// `into` is `from`
impl Raw { pub fn v_into(self) -> (r: F) requires self.wf() ensures r@ == self.value() { F::from_raw(self) } }
//%%fn src/io/mps/number/parse.rs Rational64 as From::from
//% types Self=F
//% name from_raw
//% native
//% spec
    requires value.wf()
    ensures r@ == value.value()
//% start
    proof { pow_one(value.decimal_steps_from_right as nat); }
//%%end
//%%fn src/io/mps/number/parse.rs Rational64 as Parse::parse
//% native
//% spec
    ensures r is Ok ==> numeral(text@) && (r->Ok_0)@ == stated(text@), r is Err ==> !numeral(text@) || !fits(text@)
//%%end
} // verus!
fn main() {}
