/// text as its bytes (UTF-8)
#[verifier::external_body] pub struct Str { x: core::marker::PhantomData<u8> }
#[verifier::external_body] pub struct Text { x: u8 }
#[verifier::external_body] pub struct ParseError { x: u8 }
pub uninterp spec fn bytes(s: &Str) -> Seq<u8>;
pub open spec fn digit(c: u8) -> bool { 48 <= c <= 57 }
pub open spec fn digits(s: Seq<u8>) -> bool { forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> digit(s[i]) }
pub open spec fn dval(s: Seq<u8>) -> int decreases s.len() { if s.len() == 0 { 0 } else { 10 * dval(s.drop_last()) + (s.last() - 48) } }
#[verifier::external_body] pub fn v_text() -> Text { unimplemented!() }
#[verifier::external_body] pub fn v_empty() -> (r: &'static Str) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
impl ParseError {
    #[verifier::external_body] pub fn new(t: Text) -> ParseError { unimplemented!() }
    #[verifier::external_body] pub fn wrap_other(e: Text, t: Text) -> ParseError { unimplemented!() }
}
impl Str {
    pub open spec fn view(&self) -> Seq<u8> { bytes(self) }
    #[verifier::external_body] pub fn v_is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn strip_prefix(&self, c: char) -> (r: Option<&Str>) requires (c as u32) < 128 ensures (r is Some) == (self@.len() > 0 && self@[0] == c as u8), r is Some ==> (r->0)@ == self@.subrange(1, self@.len() as int) { unimplemented!() }
    #[verifier::external_body] pub fn v_find(&self, c: char) -> (r: Option<usize>) requires (c as u32) < 128 ensures (r is Some) == self@.contains(c as u8), r is Some ==> self@.index_of_first(c as u8) == Some(r->0 as int) && r->0 < self@.len() <= usize::MAX && self@[r->0 as int] == c as u8 && forall|k: int| #![trigger self@[k]] 0 <= k < r->0 ==> self@[k] != c as u8 { unimplemented!() }
    /// slicing at a place where a character begins: next to an ASCII byte, or at an end
    #[verifier::external_body] pub fn v_slice(&self, a: usize, b: usize) -> (r: &Str) requires a <= b <= self@.len(), boundary(self@, a as int), boundary(self@, b as int) ensures r@ == self@.subrange(a as int, b as int) { unimplemented!() }
    #[verifier::external_body] pub fn bytes(&self) -> (r: VIter<u8>) ensures r@ == self@ { unimplemented!() }
    /// std: text to u64, a plus sign is allowed
    #[verifier::external_body] pub fn parse(&self) -> (r: Result<u64, Text>) ensures digits(self@) && self@.len() > 0 ==> (r is Ok) == (dval(self@) <= u64::MAX) && (r is Ok ==> r->Ok_0 == dval(self@)) { unimplemented!() }
}
pub open spec fn boundary(s: Seq<u8>, i: int) -> bool { i == 0 || i == s.len() || s[i] < 128 || s[i - 1] < 128 }
pub trait VRes<T, E>: Sized { spec fn rs(self) -> Result<T, E>;
  fn v_map_err<D, G: FnOnce(E) -> D>(self, g: G) -> (r: Result<T, D>) requires self.rs() is Err ==> g.requires((self.rs()->Err_0,)) ensures self.rs() is Ok ==> r is Ok && r->Ok_0 == self.rs()->Ok_0, self.rs() is Err ==> r is Err && g.ensures((self.rs()->Err_0,), r->Err_0); }
impl<T, E> VRes<T, E> for Result<T, E> { open spec fn rs(self) -> Result<T, E> { self }
  fn v_map_err<D, G: FnOnce(E) -> D>(self, g: G) -> Result<T, D> { match self { Ok(x) => Ok(x), Err(e) => Err(g(e)) } } }
