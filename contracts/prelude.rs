use core::cmp::Ordering; use core::cmp::max; use core::cmp::min;
// GENERATED by gen_prelude.py. Trusted base of every unit: see DESIGN.md "Trusted prelude".
// F stands for every exact field type (RationalBig, Rational64, ...). Its view is a mathematical real.
#[verifier::external_body]
pub struct F { x: u8 }
impl View for F { type V = real; uninterp spec fn view(&self) -> real; }
#[verifier::external_body]
pub fn v_unreachable() -> (r: !) requires false { unreachable!() }
pub fn v_assert(b: bool) requires b {}

pub trait VAdd<R>: Sized { type Out;
  spec fn add_req(self, r: R) -> bool; spec fn add_ens(self, r: R, o: Self::Out) -> bool;
  fn v_add(self, r: R) -> (o: Self::Out) requires self.add_req(r) ensures self.add_ens(r, o); }
impl VAdd<usize> for usize { type Out = usize;
  open spec fn add_req(self, r: usize) -> bool { usize::MIN <= self + r && self + r <= usize::MAX }
  open spec fn add_ens(self, r: usize, o: usize) -> bool { o == self + r }
   fn v_add(self, r: usize) -> usize { self + r } }
impl VAdd<usize> for &usize { type Out = usize;
  open spec fn add_req(self, r: usize) -> bool { usize::MIN <= *self + r && *self + r <= usize::MAX }
  open spec fn add_ens(self, r: usize, o: usize) -> bool { o == *self + r }
   fn v_add(self, r: usize) -> usize { *self + r } }
impl VAdd<&usize> for usize { type Out = usize;
  open spec fn add_req(self, r: &usize) -> bool { usize::MIN <= self + *r && self + *r <= usize::MAX }
  open spec fn add_ens(self, r: &usize, o: usize) -> bool { o == self + *r }
   fn v_add(self, r: &usize) -> usize { self + *r } }
impl VAdd<&usize> for &usize { type Out = usize;
  open spec fn add_req(self, r: &usize) -> bool { usize::MIN <= *self + *r && *self + *r <= usize::MAX }
  open spec fn add_ens(self, r: &usize, o: usize) -> bool { o == *self + *r }
   fn v_add(self, r: &usize) -> usize { *self + *r } }
impl VAdd<u64> for u64 { type Out = u64;
  open spec fn add_req(self, r: u64) -> bool { u64::MIN <= self + r && self + r <= u64::MAX }
  open spec fn add_ens(self, r: u64, o: u64) -> bool { o == self + r }
   fn v_add(self, r: u64) -> u64 { self + r } }
impl VAdd<&u64> for u64 { type Out = u64;
  open spec fn add_req(self, r: &u64) -> bool { u64::MIN <= self + *r && self + *r <= u64::MAX }
  open spec fn add_ens(self, r: &u64, o: u64) -> bool { o == self + *r }
   fn v_add(self, r: &u64) -> u64 { self + *r } }
impl VAdd<i32> for i32 { type Out = i32;
  open spec fn add_req(self, r: i32) -> bool { i32::MIN <= self + r && self + r <= i32::MAX }
  open spec fn add_ens(self, r: i32, o: i32) -> bool { o == self + r }
  #[verifier::external_body] fn v_add(self, r: i32) -> i32 { self + r } }
impl VAdd<i32> for &i32 { type Out = i32;
  open spec fn add_req(self, r: i32) -> bool { i32::MIN <= *self + r && *self + r <= i32::MAX }
  open spec fn add_ens(self, r: i32, o: i32) -> bool { o == *self + r }
  #[verifier::external_body] fn v_add(self, r: i32) -> i32 { *self + r } }
impl VAdd<&i32> for i32 { type Out = i32;
  open spec fn add_req(self, r: &i32) -> bool { i32::MIN <= self + *r && self + *r <= i32::MAX }
  open spec fn add_ens(self, r: &i32, o: i32) -> bool { o == self + *r }
  #[verifier::external_body] fn v_add(self, r: &i32) -> i32 { self + *r } }
impl VAdd<&i32> for &i32 { type Out = i32;
  open spec fn add_req(self, r: &i32) -> bool { i32::MIN <= *self + *r && *self + *r <= i32::MAX }
  open spec fn add_ens(self, r: &i32, o: i32) -> bool { o == *self + *r }
  #[verifier::external_body] fn v_add(self, r: &i32) -> i32 { *self + *r } }
impl VAdd<F> for F { type Out = F;
  open spec fn add_req(self, r: F) -> bool { true }
  open spec fn add_ens(self, r: F, o: F) -> bool { o@ == self@ + r@ }
  #[verifier::external_body] fn v_add(self, r: F) -> F { unimplemented!() } }
impl VAdd<&F> for F { type Out = F;
  open spec fn add_req(self, r: &F) -> bool { true }
  open spec fn add_ens(self, r: &F, o: F) -> bool { o@ == self@ + r@ }
  #[verifier::external_body] fn v_add(self, r: &F) -> F { unimplemented!() } }
impl VAdd<F> for &F { type Out = F;
  open spec fn add_req(self, r: F) -> bool { true }
  open spec fn add_ens(self, r: F, o: F) -> bool { o@ == self@ + r@ }
  #[verifier::external_body] fn v_add(self, r: F) -> F { unimplemented!() } }
impl VAdd<&F> for &F { type Out = F;
  open spec fn add_req(self, r: &F) -> bool { true }
  open spec fn add_ens(self, r: &F, o: F) -> bool { o@ == self@ + r@ }
  #[verifier::external_body] fn v_add(self, r: &F) -> F { unimplemented!() } }
pub trait VSub<R>: Sized { type Out;
  spec fn sub_req(self, r: R) -> bool; spec fn sub_ens(self, r: R, o: Self::Out) -> bool;
  fn v_sub(self, r: R) -> (o: Self::Out) requires self.sub_req(r) ensures self.sub_ens(r, o); }
impl VSub<usize> for usize { type Out = usize;
  open spec fn sub_req(self, r: usize) -> bool { usize::MIN <= self - r && self - r <= usize::MAX }
  open spec fn sub_ens(self, r: usize, o: usize) -> bool { o == self - r }
   fn v_sub(self, r: usize) -> usize { self - r } }
impl VSub<usize> for &usize { type Out = usize;
  open spec fn sub_req(self, r: usize) -> bool { usize::MIN <= *self - r && *self - r <= usize::MAX }
  open spec fn sub_ens(self, r: usize, o: usize) -> bool { o == *self - r }
   fn v_sub(self, r: usize) -> usize { *self - r } }
impl VSub<&usize> for usize { type Out = usize;
  open spec fn sub_req(self, r: &usize) -> bool { usize::MIN <= self - *r && self - *r <= usize::MAX }
  open spec fn sub_ens(self, r: &usize, o: usize) -> bool { o == self - *r }
   fn v_sub(self, r: &usize) -> usize { self - *r } }
impl VSub<&usize> for &usize { type Out = usize;
  open spec fn sub_req(self, r: &usize) -> bool { usize::MIN <= *self - *r && *self - *r <= usize::MAX }
  open spec fn sub_ens(self, r: &usize, o: usize) -> bool { o == *self - *r }
   fn v_sub(self, r: &usize) -> usize { *self - *r } }
impl VSub<u64> for u64 { type Out = u64;
  open spec fn sub_req(self, r: u64) -> bool { u64::MIN <= self - r && self - r <= u64::MAX }
  open spec fn sub_ens(self, r: u64, o: u64) -> bool { o == self - r }
   fn v_sub(self, r: u64) -> u64 { self - r } }
impl VSub<&u64> for u64 { type Out = u64;
  open spec fn sub_req(self, r: &u64) -> bool { u64::MIN <= self - *r && self - *r <= u64::MAX }
  open spec fn sub_ens(self, r: &u64, o: u64) -> bool { o == self - *r }
   fn v_sub(self, r: &u64) -> u64 { self - *r } }
impl VSub<i32> for i32 { type Out = i32;
  open spec fn sub_req(self, r: i32) -> bool { i32::MIN <= self - r && self - r <= i32::MAX }
  open spec fn sub_ens(self, r: i32, o: i32) -> bool { o == self - r }
  #[verifier::external_body] fn v_sub(self, r: i32) -> i32 { self - r } }
impl VSub<i32> for &i32 { type Out = i32;
  open spec fn sub_req(self, r: i32) -> bool { i32::MIN <= *self - r && *self - r <= i32::MAX }
  open spec fn sub_ens(self, r: i32, o: i32) -> bool { o == *self - r }
  #[verifier::external_body] fn v_sub(self, r: i32) -> i32 { *self - r } }
impl VSub<&i32> for i32 { type Out = i32;
  open spec fn sub_req(self, r: &i32) -> bool { i32::MIN <= self - *r && self - *r <= i32::MAX }
  open spec fn sub_ens(self, r: &i32, o: i32) -> bool { o == self - *r }
  #[verifier::external_body] fn v_sub(self, r: &i32) -> i32 { self - *r } }
impl VSub<&i32> for &i32 { type Out = i32;
  open spec fn sub_req(self, r: &i32) -> bool { i32::MIN <= *self - *r && *self - *r <= i32::MAX }
  open spec fn sub_ens(self, r: &i32, o: i32) -> bool { o == *self - *r }
  #[verifier::external_body] fn v_sub(self, r: &i32) -> i32 { *self - *r } }
impl VSub<F> for F { type Out = F;
  open spec fn sub_req(self, r: F) -> bool { true }
  open spec fn sub_ens(self, r: F, o: F) -> bool { o@ == self@ - r@ }
  #[verifier::external_body] fn v_sub(self, r: F) -> F { unimplemented!() } }
impl VSub<&F> for F { type Out = F;
  open spec fn sub_req(self, r: &F) -> bool { true }
  open spec fn sub_ens(self, r: &F, o: F) -> bool { o@ == self@ - r@ }
  #[verifier::external_body] fn v_sub(self, r: &F) -> F { unimplemented!() } }
impl VSub<F> for &F { type Out = F;
  open spec fn sub_req(self, r: F) -> bool { true }
  open spec fn sub_ens(self, r: F, o: F) -> bool { o@ == self@ - r@ }
  #[verifier::external_body] fn v_sub(self, r: F) -> F { unimplemented!() } }
impl VSub<&F> for &F { type Out = F;
  open spec fn sub_req(self, r: &F) -> bool { true }
  open spec fn sub_ens(self, r: &F, o: F) -> bool { o@ == self@ - r@ }
  #[verifier::external_body] fn v_sub(self, r: &F) -> F { unimplemented!() } }
pub trait VMul<R>: Sized { type Out;
  spec fn mul_req(self, r: R) -> bool; spec fn mul_ens(self, r: R, o: Self::Out) -> bool;
  fn v_mul(self, r: R) -> (o: Self::Out) requires self.mul_req(r) ensures self.mul_ens(r, o); }
impl VMul<usize> for usize { type Out = usize;
  open spec fn mul_req(self, r: usize) -> bool { usize::MIN <= self * r && self * r <= usize::MAX }
  open spec fn mul_ens(self, r: usize, o: usize) -> bool { o == self * r }
   fn v_mul(self, r: usize) -> usize { self * r } }
impl VMul<usize> for &usize { type Out = usize;
  open spec fn mul_req(self, r: usize) -> bool { usize::MIN <= *self * r && *self * r <= usize::MAX }
  open spec fn mul_ens(self, r: usize, o: usize) -> bool { o == *self * r }
   fn v_mul(self, r: usize) -> usize { *self * r } }
impl VMul<&usize> for usize { type Out = usize;
  open spec fn mul_req(self, r: &usize) -> bool { usize::MIN <= self * *r && self * *r <= usize::MAX }
  open spec fn mul_ens(self, r: &usize, o: usize) -> bool { o == self * *r }
   fn v_mul(self, r: &usize) -> usize { self * *r } }
impl VMul<&usize> for &usize { type Out = usize;
  open spec fn mul_req(self, r: &usize) -> bool { usize::MIN <= *self * *r && *self * *r <= usize::MAX }
  open spec fn mul_ens(self, r: &usize, o: usize) -> bool { o == *self * *r }
   fn v_mul(self, r: &usize) -> usize { *self * *r } }
impl VMul<u64> for u64 { type Out = u64;
  open spec fn mul_req(self, r: u64) -> bool { u64::MIN <= self * r && self * r <= u64::MAX }
  open spec fn mul_ens(self, r: u64, o: u64) -> bool { o == self * r }
   fn v_mul(self, r: u64) -> u64 { self * r } }
impl VMul<&u64> for u64 { type Out = u64;
  open spec fn mul_req(self, r: &u64) -> bool { u64::MIN <= self * *r && self * *r <= u64::MAX }
  open spec fn mul_ens(self, r: &u64, o: u64) -> bool { o == self * *r }
   fn v_mul(self, r: &u64) -> u64 { self * *r } }
impl VMul<i32> for i32 { type Out = i32;
  open spec fn mul_req(self, r: i32) -> bool { i32::MIN <= self * r && self * r <= i32::MAX }
  open spec fn mul_ens(self, r: i32, o: i32) -> bool { o == self * r }
  #[verifier::external_body] fn v_mul(self, r: i32) -> i32 { self * r } }
impl VMul<i32> for &i32 { type Out = i32;
  open spec fn mul_req(self, r: i32) -> bool { i32::MIN <= *self * r && *self * r <= i32::MAX }
  open spec fn mul_ens(self, r: i32, o: i32) -> bool { o == *self * r }
  #[verifier::external_body] fn v_mul(self, r: i32) -> i32 { *self * r } }
impl VMul<&i32> for i32 { type Out = i32;
  open spec fn mul_req(self, r: &i32) -> bool { i32::MIN <= self * *r && self * *r <= i32::MAX }
  open spec fn mul_ens(self, r: &i32, o: i32) -> bool { o == self * *r }
  #[verifier::external_body] fn v_mul(self, r: &i32) -> i32 { self * *r } }
impl VMul<&i32> for &i32 { type Out = i32;
  open spec fn mul_req(self, r: &i32) -> bool { i32::MIN <= *self * *r && *self * *r <= i32::MAX }
  open spec fn mul_ens(self, r: &i32, o: i32) -> bool { o == *self * *r }
  #[verifier::external_body] fn v_mul(self, r: &i32) -> i32 { *self * *r } }
impl VMul<F> for F { type Out = F;
  open spec fn mul_req(self, r: F) -> bool { true }
  open spec fn mul_ens(self, r: F, o: F) -> bool { o@ == self@ * r@ }
  #[verifier::external_body] fn v_mul(self, r: F) -> F { unimplemented!() } }
impl VMul<&F> for F { type Out = F;
  open spec fn mul_req(self, r: &F) -> bool { true }
  open spec fn mul_ens(self, r: &F, o: F) -> bool { o@ == self@ * r@ }
  #[verifier::external_body] fn v_mul(self, r: &F) -> F { unimplemented!() } }
impl VMul<F> for &F { type Out = F;
  open spec fn mul_req(self, r: F) -> bool { true }
  open spec fn mul_ens(self, r: F, o: F) -> bool { o@ == self@ * r@ }
  #[verifier::external_body] fn v_mul(self, r: F) -> F { unimplemented!() } }
impl VMul<&F> for &F { type Out = F;
  open spec fn mul_req(self, r: &F) -> bool { true }
  open spec fn mul_ens(self, r: &F, o: F) -> bool { o@ == self@ * r@ }
  #[verifier::external_body] fn v_mul(self, r: &F) -> F { unimplemented!() } }
pub trait VDiv<R>: Sized { type Out;
  spec fn div_req(self, r: R) -> bool; spec fn div_ens(self, r: R, o: Self::Out) -> bool;
  fn v_div(self, r: R) -> (o: Self::Out) requires self.div_req(r) ensures self.div_ens(r, o); }
impl VDiv<usize> for usize { type Out = usize;
  open spec fn div_req(self, r: usize) -> bool { r != 0 }
  open spec fn div_ens(self, r: usize, o: usize) -> bool { o == self / r }
  #[verifier::external_body] fn v_div(self, r: usize) -> usize { self / r } }
impl VDiv<usize> for &usize { type Out = usize;
  open spec fn div_req(self, r: usize) -> bool { r != 0 }
  open spec fn div_ens(self, r: usize, o: usize) -> bool { o == *self / r }
  #[verifier::external_body] fn v_div(self, r: usize) -> usize { *self / r } }
impl VDiv<&usize> for usize { type Out = usize;
  open spec fn div_req(self, r: &usize) -> bool { *r != 0 }
  open spec fn div_ens(self, r: &usize, o: usize) -> bool { o == self / *r }
  #[verifier::external_body] fn v_div(self, r: &usize) -> usize { self / *r } }
impl VDiv<&usize> for &usize { type Out = usize;
  open spec fn div_req(self, r: &usize) -> bool { *r != 0 }
  open spec fn div_ens(self, r: &usize, o: usize) -> bool { o == *self / *r }
  #[verifier::external_body] fn v_div(self, r: &usize) -> usize { *self / *r } }
impl VDiv<u64> for u64 { type Out = u64;
  open spec fn div_req(self, r: u64) -> bool { r != 0 }
  open spec fn div_ens(self, r: u64, o: u64) -> bool { o == self / r }
  #[verifier::external_body] fn v_div(self, r: u64) -> u64 { self / r } }
impl VDiv<&u64> for u64 { type Out = u64;
  open spec fn div_req(self, r: &u64) -> bool { *r != 0 }
  open spec fn div_ens(self, r: &u64, o: u64) -> bool { o == self / *r }
  #[verifier::external_body] fn v_div(self, r: &u64) -> u64 { self / *r } }
impl VDiv<i32> for i32 { type Out = i32;
  open spec fn div_req(self, r: i32) -> bool { r != 0 && !(self == i32::MIN && r == -1) }
  open spec fn div_ens(self, r: i32, o: i32) -> bool { true }
  #[verifier::external_body] fn v_div(self, r: i32) -> i32 { self / r } }
impl VDiv<i32> for &i32 { type Out = i32;
  open spec fn div_req(self, r: i32) -> bool { r != 0 && !(*self == i32::MIN && r == -1) }
  open spec fn div_ens(self, r: i32, o: i32) -> bool { true }
  #[verifier::external_body] fn v_div(self, r: i32) -> i32 { *self / r } }
impl VDiv<&i32> for i32 { type Out = i32;
  open spec fn div_req(self, r: &i32) -> bool { *r != 0 && !(self == i32::MIN && *r == -1) }
  open spec fn div_ens(self, r: &i32, o: i32) -> bool { true }
  #[verifier::external_body] fn v_div(self, r: &i32) -> i32 { self / *r } }
impl VDiv<&i32> for &i32 { type Out = i32;
  open spec fn div_req(self, r: &i32) -> bool { *r != 0 && !(*self == i32::MIN && *r == -1) }
  open spec fn div_ens(self, r: &i32, o: i32) -> bool { true }
  #[verifier::external_body] fn v_div(self, r: &i32) -> i32 { *self / *r } }
impl VDiv<F> for F { type Out = F;
  open spec fn div_req(self, r: F) -> bool { r@ != 0real }
  open spec fn div_ens(self, r: F, o: F) -> bool { o@ == self@ / r@ }
  #[verifier::external_body] fn v_div(self, r: F) -> F { unimplemented!() } }
impl VDiv<&F> for F { type Out = F;
  open spec fn div_req(self, r: &F) -> bool { r@ != 0real }
  open spec fn div_ens(self, r: &F, o: F) -> bool { o@ == self@ / r@ }
  #[verifier::external_body] fn v_div(self, r: &F) -> F { unimplemented!() } }
impl VDiv<F> for &F { type Out = F;
  open spec fn div_req(self, r: F) -> bool { r@ != 0real }
  open spec fn div_ens(self, r: F, o: F) -> bool { o@ == self@ / r@ }
  #[verifier::external_body] fn v_div(self, r: F) -> F { unimplemented!() } }
impl VDiv<&F> for &F { type Out = F;
  open spec fn div_req(self, r: &F) -> bool { r@ != 0real }
  open spec fn div_ens(self, r: &F, o: F) -> bool { o@ == self@ / r@ }
  #[verifier::external_body] fn v_div(self, r: &F) -> F { unimplemented!() } }
pub trait VRem<R>: Sized { type Out;
  spec fn rem_req(self, r: R) -> bool; spec fn rem_ens(self, r: R, o: Self::Out) -> bool;
  fn v_rem(self, r: R) -> (o: Self::Out) requires self.rem_req(r) ensures self.rem_ens(r, o); }
impl VRem<usize> for usize { type Out = usize;
  open spec fn rem_req(self, r: usize) -> bool { r != 0 }
  open spec fn rem_ens(self, r: usize, o: usize) -> bool { o == self % r }
  #[verifier::external_body] fn v_rem(self, r: usize) -> usize { self % r } }
impl VRem<usize> for &usize { type Out = usize;
  open spec fn rem_req(self, r: usize) -> bool { r != 0 }
  open spec fn rem_ens(self, r: usize, o: usize) -> bool { o == *self % r }
  #[verifier::external_body] fn v_rem(self, r: usize) -> usize { *self % r } }
impl VRem<&usize> for usize { type Out = usize;
  open spec fn rem_req(self, r: &usize) -> bool { *r != 0 }
  open spec fn rem_ens(self, r: &usize, o: usize) -> bool { o == self % *r }
  #[verifier::external_body] fn v_rem(self, r: &usize) -> usize { self % *r } }
impl VRem<&usize> for &usize { type Out = usize;
  open spec fn rem_req(self, r: &usize) -> bool { *r != 0 }
  open spec fn rem_ens(self, r: &usize, o: usize) -> bool { o == *self % *r }
  #[verifier::external_body] fn v_rem(self, r: &usize) -> usize { *self % *r } }
impl VRem<u64> for u64 { type Out = u64;
  open spec fn rem_req(self, r: u64) -> bool { r != 0 }
  open spec fn rem_ens(self, r: u64, o: u64) -> bool { o == self % r }
  #[verifier::external_body] fn v_rem(self, r: u64) -> u64 { self % r } }
impl VRem<&u64> for u64 { type Out = u64;
  open spec fn rem_req(self, r: &u64) -> bool { *r != 0 }
  open spec fn rem_ens(self, r: &u64, o: u64) -> bool { o == self % *r }
  #[verifier::external_body] fn v_rem(self, r: &u64) -> u64 { self % *r } }
pub trait VAddAssign<R> {
  spec fn adda_req(&self, r: R) -> bool; spec fn adda_ens(&self, r: R, o: &Self) -> bool;
  fn v_add_assign(&mut self, r: R) requires old(self).adda_req(r) ensures old(self).adda_ens(r, final(self)); }
impl VAddAssign<usize> for usize {
  open spec fn adda_req(&self, r: usize) -> bool { usize::MIN <= *self + r && *self + r <= usize::MAX }
  open spec fn adda_ens(&self, r: usize, o: &usize) -> bool { *o == *self + r }
  fn v_add_assign(&mut self, r: usize) { *self = *self + r; } }
impl VAddAssign<&usize> for usize {
  open spec fn adda_req(&self, r: &usize) -> bool { usize::MIN <= *self + *r && *self + *r <= usize::MAX }
  open spec fn adda_ens(&self, r: &usize, o: &usize) -> bool { *o == *self + *r }
  fn v_add_assign(&mut self, r: &usize) { *self = *self + *r; } }
impl VAddAssign<u64> for u64 {
  open spec fn adda_req(&self, r: u64) -> bool { u64::MIN <= *self + r && *self + r <= u64::MAX }
  open spec fn adda_ens(&self, r: u64, o: &u64) -> bool { *o == *self + r }
  fn v_add_assign(&mut self, r: u64) { *self = *self + r; } }
impl VAddAssign<&u64> for u64 {
  open spec fn adda_req(&self, r: &u64) -> bool { u64::MIN <= *self + *r && *self + *r <= u64::MAX }
  open spec fn adda_ens(&self, r: &u64, o: &u64) -> bool { *o == *self + *r }
  fn v_add_assign(&mut self, r: &u64) { *self = *self + *r; } }
impl VAddAssign<i32> for i32 {
  open spec fn adda_req(&self, r: i32) -> bool { i32::MIN <= *self + r && *self + r <= i32::MAX }
  open spec fn adda_ens(&self, r: i32, o: &i32) -> bool { *o == *self + r }
  fn v_add_assign(&mut self, r: i32) { *self = *self + r; } }
impl VAddAssign<&i32> for i32 {
  open spec fn adda_req(&self, r: &i32) -> bool { i32::MIN <= *self + *r && *self + *r <= i32::MAX }
  open spec fn adda_ens(&self, r: &i32, o: &i32) -> bool { *o == *self + *r }
  fn v_add_assign(&mut self, r: &i32) { *self = *self + *r; } }
impl VAddAssign<F> for F {
  open spec fn adda_req(&self, r: F) -> bool { true }
  open spec fn adda_ens(&self, r: F, o: &F) -> bool { o@ == self@ + r@ }
  #[verifier::external_body] fn v_add_assign(&mut self, r: F) { unimplemented!() } }
impl VAddAssign<&F> for F {
  open spec fn adda_req(&self, r: &F) -> bool { true }
  open spec fn adda_ens(&self, r: &F, o: &F) -> bool { o@ == self@ + r@ }
  #[verifier::external_body] fn v_add_assign(&mut self, r: &F) { unimplemented!() } }
pub trait VSubAssign<R> {
  spec fn suba_req(&self, r: R) -> bool; spec fn suba_ens(&self, r: R, o: &Self) -> bool;
  fn v_sub_assign(&mut self, r: R) requires old(self).suba_req(r) ensures old(self).suba_ens(r, final(self)); }
impl VSubAssign<usize> for usize {
  open spec fn suba_req(&self, r: usize) -> bool { usize::MIN <= *self - r && *self - r <= usize::MAX }
  open spec fn suba_ens(&self, r: usize, o: &usize) -> bool { *o == *self - r }
  fn v_sub_assign(&mut self, r: usize) { *self = *self - r; } }
impl VSubAssign<&usize> for usize {
  open spec fn suba_req(&self, r: &usize) -> bool { usize::MIN <= *self - *r && *self - *r <= usize::MAX }
  open spec fn suba_ens(&self, r: &usize, o: &usize) -> bool { *o == *self - *r }
  fn v_sub_assign(&mut self, r: &usize) { *self = *self - *r; } }
impl VSubAssign<u64> for u64 {
  open spec fn suba_req(&self, r: u64) -> bool { u64::MIN <= *self - r && *self - r <= u64::MAX }
  open spec fn suba_ens(&self, r: u64, o: &u64) -> bool { *o == *self - r }
  fn v_sub_assign(&mut self, r: u64) { *self = *self - r; } }
impl VSubAssign<&u64> for u64 {
  open spec fn suba_req(&self, r: &u64) -> bool { u64::MIN <= *self - *r && *self - *r <= u64::MAX }
  open spec fn suba_ens(&self, r: &u64, o: &u64) -> bool { *o == *self - *r }
  fn v_sub_assign(&mut self, r: &u64) { *self = *self - *r; } }
impl VSubAssign<i32> for i32 {
  open spec fn suba_req(&self, r: i32) -> bool { i32::MIN <= *self - r && *self - r <= i32::MAX }
  open spec fn suba_ens(&self, r: i32, o: &i32) -> bool { *o == *self - r }
  fn v_sub_assign(&mut self, r: i32) { *self = *self - r; } }
impl VSubAssign<&i32> for i32 {
  open spec fn suba_req(&self, r: &i32) -> bool { i32::MIN <= *self - *r && *self - *r <= i32::MAX }
  open spec fn suba_ens(&self, r: &i32, o: &i32) -> bool { *o == *self - *r }
  fn v_sub_assign(&mut self, r: &i32) { *self = *self - *r; } }
impl VSubAssign<F> for F {
  open spec fn suba_req(&self, r: F) -> bool { true }
  open spec fn suba_ens(&self, r: F, o: &F) -> bool { o@ == self@ - r@ }
  #[verifier::external_body] fn v_sub_assign(&mut self, r: F) { unimplemented!() } }
impl VSubAssign<&F> for F {
  open spec fn suba_req(&self, r: &F) -> bool { true }
  open spec fn suba_ens(&self, r: &F, o: &F) -> bool { o@ == self@ - r@ }
  #[verifier::external_body] fn v_sub_assign(&mut self, r: &F) { unimplemented!() } }
pub trait VMulAssign<R> {
  spec fn mula_req(&self, r: R) -> bool; spec fn mula_ens(&self, r: R, o: &Self) -> bool;
  fn v_mul_assign(&mut self, r: R) requires old(self).mula_req(r) ensures old(self).mula_ens(r, final(self)); }
impl VMulAssign<usize> for usize {
  open spec fn mula_req(&self, r: usize) -> bool { usize::MIN <= *self * r && *self * r <= usize::MAX }
  open spec fn mula_ens(&self, r: usize, o: &usize) -> bool { *o == *self * r }
  fn v_mul_assign(&mut self, r: usize) { *self = *self * r; } }
impl VMulAssign<&usize> for usize {
  open spec fn mula_req(&self, r: &usize) -> bool { usize::MIN <= *self * *r && *self * *r <= usize::MAX }
  open spec fn mula_ens(&self, r: &usize, o: &usize) -> bool { *o == *self * *r }
  fn v_mul_assign(&mut self, r: &usize) { *self = *self * *r; } }
impl VMulAssign<u64> for u64 {
  open spec fn mula_req(&self, r: u64) -> bool { u64::MIN <= *self * r && *self * r <= u64::MAX }
  open spec fn mula_ens(&self, r: u64, o: &u64) -> bool { *o == *self * r }
  fn v_mul_assign(&mut self, r: u64) { *self = *self * r; } }
impl VMulAssign<&u64> for u64 {
  open spec fn mula_req(&self, r: &u64) -> bool { u64::MIN <= *self * *r && *self * *r <= u64::MAX }
  open spec fn mula_ens(&self, r: &u64, o: &u64) -> bool { *o == *self * *r }
  fn v_mul_assign(&mut self, r: &u64) { *self = *self * *r; } }
impl VMulAssign<i32> for i32 {
  open spec fn mula_req(&self, r: i32) -> bool { i32::MIN <= *self * r && *self * r <= i32::MAX }
  open spec fn mula_ens(&self, r: i32, o: &i32) -> bool { *o == *self * r }
  fn v_mul_assign(&mut self, r: i32) { *self = *self * r; } }
impl VMulAssign<&i32> for i32 {
  open spec fn mula_req(&self, r: &i32) -> bool { i32::MIN <= *self * *r && *self * *r <= i32::MAX }
  open spec fn mula_ens(&self, r: &i32, o: &i32) -> bool { *o == *self * *r }
  fn v_mul_assign(&mut self, r: &i32) { *self = *self * *r; } }
impl VMulAssign<F> for F {
  open spec fn mula_req(&self, r: F) -> bool { true }
  open spec fn mula_ens(&self, r: F, o: &F) -> bool { o@ == self@ * r@ }
  #[verifier::external_body] fn v_mul_assign(&mut self, r: F) { unimplemented!() } }
impl VMulAssign<&F> for F {
  open spec fn mula_req(&self, r: &F) -> bool { true }
  open spec fn mula_ens(&self, r: &F, o: &F) -> bool { o@ == self@ * r@ }
  #[verifier::external_body] fn v_mul_assign(&mut self, r: &F) { unimplemented!() } }
pub trait VDivAssign<R> {
  spec fn diva_req(&self, r: R) -> bool; spec fn diva_ens(&self, r: R, o: &Self) -> bool;
  fn v_div_assign(&mut self, r: R) requires old(self).diva_req(r) ensures old(self).diva_ens(r, final(self)); }
impl VDivAssign<F> for F {
  open spec fn diva_req(&self, r: F) -> bool { r@ != 0real }
  open spec fn diva_ens(&self, r: F, o: &F) -> bool { o@ == self@ / r@ }
  #[verifier::external_body] fn v_div_assign(&mut self, r: F) { unimplemented!() } }
impl VDivAssign<&F> for F {
  open spec fn diva_req(&self, r: &F) -> bool { r@ != 0real }
  open spec fn diva_ens(&self, r: &F, o: &F) -> bool { o@ == self@ / r@ }
  #[verifier::external_body] fn v_div_assign(&mut self, r: &F) { unimplemented!() } }
pub trait VNeg: Sized { type Out; spec fn neg_req(self) -> bool; spec fn neg_ens(self, o: Self::Out) -> bool;
  fn v_neg(self) -> (o: Self::Out) requires self.neg_req() ensures self.neg_ens(o); }
impl VNeg for F { type Out = F; open spec fn neg_req(self) -> bool { true } open spec fn neg_ens(self, o: F) -> bool { o@ == 0real - self@ }
  #[verifier::external_body] fn v_neg(self) -> F { unimplemented!() } }
impl VNeg for &F { type Out = F; open spec fn neg_req(self) -> bool { true } open spec fn neg_ens(self, o: F) -> bool { o@ == 0real - self@ }
  #[verifier::external_body] fn v_neg(self) -> F { unimplemented!() } }
pub trait VOrd { spec fn sp_lt(&self, r: &Self) -> bool; spec fn sp_le(&self, r: &Self) -> bool;
  fn v_lt(&self, r: &Self) -> (b: bool) ensures b == self.sp_lt(r);
  fn v_le(&self, r: &Self) -> (b: bool) ensures b == self.sp_le(r);
  fn v_gt(&self, r: &Self) -> (b: bool) ensures b == r.sp_lt(self);
  fn v_ge(&self, r: &Self) -> (b: bool) ensures b == r.sp_le(self);
  fn v_cmp(&self, r: &Self) -> (o: core::cmp::Ordering) ensures
     o == core::cmp::Ordering::Less ==> self.sp_lt(r), o == core::cmp::Ordering::Greater ==> r.sp_lt(self), o == core::cmp::Ordering::Equal ==> self.sp_le(r) && r.sp_le(self); }
impl VOrd for usize { open spec fn sp_lt(&self, r: &usize) -> bool { *self < *r } open spec fn sp_le(&self, r: &usize) -> bool { *self <= *r }
  fn v_lt(&self, r: &usize) -> bool { *self < *r } fn v_le(&self, r: &usize) -> bool { *self <= *r } fn v_gt(&self, r: &usize) -> bool { *self > *r } fn v_ge(&self, r: &usize) -> bool { *self >= *r }
  fn v_cmp(&self, r: &usize) -> core::cmp::Ordering { if *self < *r { core::cmp::Ordering::Less } else if *self == *r { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater } } }
impl VOrd for u64 { open spec fn sp_lt(&self, r: &u64) -> bool { *self < *r } open spec fn sp_le(&self, r: &u64) -> bool { *self <= *r }
  fn v_lt(&self, r: &u64) -> bool { *self < *r } fn v_le(&self, r: &u64) -> bool { *self <= *r } fn v_gt(&self, r: &u64) -> bool { *self > *r } fn v_ge(&self, r: &u64) -> bool { *self >= *r }
  fn v_cmp(&self, r: &u64) -> core::cmp::Ordering { if *self < *r { core::cmp::Ordering::Less } else if *self == *r { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater } } }
impl VOrd for u8 { open spec fn sp_lt(&self, r: &u8) -> bool { *self < *r } open spec fn sp_le(&self, r: &u8) -> bool { *self <= *r }
  fn v_lt(&self, r: &u8) -> bool { *self < *r } fn v_le(&self, r: &u8) -> bool { *self <= *r } fn v_gt(&self, r: &u8) -> bool { *self > *r } fn v_ge(&self, r: &u8) -> bool { *self >= *r }
  fn v_cmp(&self, r: &u8) -> core::cmp::Ordering { if *self < *r { core::cmp::Ordering::Less } else if *self == *r { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater } } }
impl VOrd for i32 { open spec fn sp_lt(&self, r: &i32) -> bool { *self < *r } open spec fn sp_le(&self, r: &i32) -> bool { *self <= *r }
  fn v_lt(&self, r: &i32) -> bool { *self < *r } fn v_le(&self, r: &i32) -> bool { *self <= *r } fn v_gt(&self, r: &i32) -> bool { *self > *r } fn v_ge(&self, r: &i32) -> bool { *self >= *r }
  fn v_cmp(&self, r: &i32) -> core::cmp::Ordering { if *self < *r { core::cmp::Ordering::Less } else if *self == *r { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater } } }
impl VOrd for F { open spec fn sp_lt(&self, r: &F) -> bool { self@ < r@ } open spec fn sp_le(&self, r: &F) -> bool { self@ <= r@ }
  #[verifier::external_body] fn v_lt(&self, r: &F) -> bool { unimplemented!() } #[verifier::external_body] fn v_le(&self, r: &F) -> bool { unimplemented!() }
  #[verifier::external_body] fn v_gt(&self, r: &F) -> bool { unimplemented!() } #[verifier::external_body] fn v_ge(&self, r: &F) -> bool { unimplemented!() }
  #[verifier::external_body] fn v_cmp(&self, r: &F) -> core::cmp::Ordering { unimplemented!() } }
impl<A: VOrd> VOrd for &A { open spec fn sp_lt(&self, r: &&A) -> bool { (**self).sp_lt(*r) } open spec fn sp_le(&self, r: &&A) -> bool { (**self).sp_le(*r) }
  fn v_lt(&self, r: &&A) -> bool { (**self).v_lt(*r) } fn v_le(&self, r: &&A) -> bool { (**self).v_le(*r) } fn v_gt(&self, r: &&A) -> bool { (**self).v_gt(*r) } fn v_ge(&self, r: &&A) -> bool { (**self).v_ge(*r) }
  fn v_cmp(&self, r: &&A) -> core::cmp::Ordering { (**self).v_cmp(*r) } }
pub trait VEq<R: ?Sized = Self> { spec fn sp_eq(&self, r: &R) -> bool;
  fn v_eq(&self, r: &R) -> (b: bool) ensures b == self.sp_eq(r);
  fn v_ne(&self, r: &R) -> (b: bool) ensures b == !self.sp_eq(r); }
impl<A: VEq<B>, B> VEq<&B> for &A { open spec fn sp_eq(&self, r: &&B) -> bool { (**self).sp_eq(*r) }
  fn v_eq(&self, r: &&B) -> bool { (**self).v_eq(*r) } fn v_ne(&self, r: &&B) -> bool { (**self).v_ne(*r) } }
impl<A: VEq<A>> VEq<Option<A>> for Option<A> {
  open spec fn sp_eq(&self, r: &Option<A>) -> bool { match (*self, *r) { (None, None) => true, (Some(a), Some(b)) => a.sp_eq(&b), _ => false } }
  fn v_eq(&self, r: &Option<A>) -> bool { match (self, r) { (None, None) => true, (Some(a), Some(b)) => a.v_eq(b), _ => false } }
  fn v_ne(&self, r: &Option<A>) -> bool { match (self, r) { (None, None) => false, (Some(a), Some(b)) => a.v_ne(b), _ => true } } }
impl VEq<F> for F { open spec fn sp_eq(&self, r: &F) -> bool { self@ == r@ }
  #[verifier::external_body] fn v_eq(&self, r: &F) -> bool { unimplemented!() } #[verifier::external_body] fn v_ne(&self, r: &F) -> bool { unimplemented!() } }
impl VEq<usize> for usize { open spec fn sp_eq(&self, r: &usize) -> bool { *self == *r } fn v_eq(&self, r: &usize) -> bool { *self == *r } fn v_ne(&self, r: &usize) -> bool { *self != *r } }
impl VEq<u64> for u64 { open spec fn sp_eq(&self, r: &u64) -> bool { *self == *r } fn v_eq(&self, r: &u64) -> bool { *self == *r } fn v_ne(&self, r: &u64) -> bool { *self != *r } }
impl VEq<bool> for bool { open spec fn sp_eq(&self, r: &bool) -> bool { *self == *r } fn v_eq(&self, r: &bool) -> bool { *self == *r } fn v_ne(&self, r: &bool) -> bool { *self != *r } }
impl VEq<i32> for i32 { open spec fn sp_eq(&self, r: &i32) -> bool { *self == *r } fn v_eq(&self, r: &i32) -> bool { *self == *r } fn v_ne(&self, r: &i32) -> bool { *self != *r } }
pub trait VClone: Sized { fn v_clone(&self) -> (r: Self) ensures r == *self; }
impl VClone for F { #[verifier::external_body] fn v_clone(&self) -> F { unimplemented!() } }
impl VClone for usize { fn v_clone(&self) -> usize { *self } }
impl VClone for bool { fn v_clone(&self) -> bool { *self } }
impl<A: VClone, B: VClone> VClone for (A, B) { fn v_clone(&self) -> (A, B) { (self.0.v_clone(), self.1.v_clone()) } }
impl<A: VClone> VClone for Option<A> { fn v_clone(&self) -> Option<A> { match self { Some(x) => Some(x.v_clone()), None => None } } }
impl<A> VClone for &A { fn v_clone(&self) -> Self { *self } }
impl<A: VClone> VClone for Vec<A> { #[verifier::external_body] fn v_clone(&self) -> Vec<A> { unimplemented!() } }
pub open spec fn sabs(x: real) -> real { if x < 0real { 0real - x } else { x } }
#[derive(Clone, Copy)]
pub enum Sign { Positive, Zero, Negative }
#[derive(Clone, Copy)]
pub enum NonZeroSign { Positive, Negative }
impl F {
  #[verifier::external_body] pub fn zero() -> (r: F) ensures r@ == 0real { unimplemented!() }
  #[verifier::external_body] pub fn one() -> (r: F) ensures r@ == 1real { unimplemented!() }
  #[verifier::external_body] pub fn is_zero(&self) -> (r: bool) ensures r == (self@ == 0real) { unimplemented!() }
  #[verifier::external_body] pub fn is_not_zero(&self) -> (r: bool) ensures r == (self@ != 0real) { unimplemented!() }
  #[verifier::external_body] pub fn is_one(&self) -> (r: bool) ensures r == (self@ == 1real) { unimplemented!() }
  #[verifier::external_body] pub fn is_positive(&self) -> (r: bool) ensures r == (self@ > 0real) { unimplemented!() }
  #[verifier::external_body] pub fn is_negative(&self) -> (r: bool) ensures r == (self@ < 0real) { unimplemented!() }
  #[verifier::external_body] pub fn v_abs(&self) -> (r: F) ensures r@ == sabs(self@) { unimplemented!() }
  #[verifier::external_body] pub fn set_zero(&mut self) ensures final(self)@ == 0real { unimplemented!() }
  #[verifier::external_body] pub fn is_borrowed(&self) -> &F { unimplemented!() }
  #[verifier::external_body] pub fn from<T: IntoF>(x: T) -> (r: F) ensures r@ == x.to_real() { unimplemented!() }
  #[verifier::external_body] pub fn borrow(&self) -> (r: &F) ensures r == self { unimplemented!() }
  #[verifier::external_body] pub fn signum(&self) -> (r: NonZeroSign) requires self@ != 0real ensures (r is Positive) == (self@ > 0real) { unimplemented!() }
}
pub trait IntoF { spec fn to_real(&self) -> real; }
impl IntoF for F { open spec fn to_real(&self) -> real { self@ } }
impl IntoF for &F { open spec fn to_real(&self) -> real { self@ } }
impl IntoF for i32 { open spec fn to_real(&self) -> real { (*self as int) as real } }
impl IntoF for u64 { open spec fn to_real(&self) -> real { (*self as int) as real } }
impl IntoF for usize { open spec fn to_real(&self) -> real { (*self as int) as real } }
pub trait VInto: Sized { spec fn ireal(self) -> real; fn v_into(self) -> (r: F) ensures r@ == self.ireal(); }
impl VInto for F { open spec fn ireal(self) -> real { self@ } fn v_into(self) -> F { self } }
impl VInto for &F { open spec fn ireal(self) -> real { self@ } #[verifier::external_body] fn v_into(self) -> F { unimplemented!() } }
#[verifier::external_body] pub fn v_swap<T>(a: &mut T, b: &mut T) ensures *final(a) == *old(b), *final(b) == *old(a) { unimplemented!() }
#[verifier::external_body] pub fn v_replace<T>(a: &mut T, b: T) -> (r: T) ensures *final(a) == b, r == *old(a) { unimplemented!() }
#[verifier::external_body] pub fn v_vec_repeat<T>(x: T, n: usize) -> (r: Vec<T>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == x { unimplemented!() }
#[verifier::external_body] pub fn v_vec<T, const N: usize>(x: [T; N]) -> (r: Vec<T>) ensures r@ == x@ { unimplemented!() }

// ---- iterators: a chain is rendered as the finite sequence it yields (eager) ----
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VIter<T> { x: Vec<T> }
impl<T> View for VIter<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
pub trait VIntoIter: Sized { type Item; spec fn into_seq(self) -> Seq<Self::Item>;
  fn v_into_iter(self) -> (r: VIter<Self::Item>) ensures r@ == self.into_seq(); }
impl<T> VClone for VIter<T> { #[verifier::external_body] fn v_clone(&self) -> Self { unimplemented!() } }
impl<T> VIntoIter for VIter<T> { type Item = T; open spec fn into_seq(self) -> Seq<T> { self@ } fn v_into_iter(self) -> VIter<T> { self } }
impl<T> VIntoIter for Vec<T> { type Item = T; open spec fn into_seq(self) -> Seq<T> { self@ } #[verifier::external_body] fn v_into_iter(self) -> VIter<T> { unimplemented!() } }
pub open spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }
impl<'a, T> VIntoIter for &'a Vec<T> { type Item = &'a T; open spec fn into_seq(self) -> Seq<&'a T> { refs(self@) } #[verifier::external_body] fn v_into_iter(self) -> VIter<&'a T> { unimplemented!() } }
impl<'a, T> VIntoIter for &'a [T] { type Item = &'a T; open spec fn into_seq(self) -> Seq<&'a T> { refs(self@) } #[verifier::external_body] fn v_into_iter(self) -> VIter<&'a T> { unimplemented!() } }
impl<T> VIntoIter for core::ops::Range<T> where T: VIdx { type Item = T; open spec fn into_seq(self) -> Seq<T> { Seq::new(if self.end.ix() <= self.start.ix() { 0nat } else { (self.end.ix() - self.start.ix()) as nat }, |i: int| T::of(self.start.ix() + i)) } #[verifier::external_body] fn v_into_iter(self) -> VIter<T> { unimplemented!() } }
pub trait VIdx: Sized { spec fn ix(&self) -> int; spec fn of(i: int) -> Self; }
impl VIdx for usize { open spec fn ix(&self) -> int { *self as int } open spec fn of(i: int) -> usize { i as usize } }
pub trait VIterable { type T;
  spec fn seq_of(&self) -> Seq<Self::T>;
  fn v_iter<'a>(&'a self) -> (r: VIter<&'a Self::T>) ensures r@ == refs::<Self::T>(self.seq_of()); }
impl<T> VIterable for Vec<T> { type T = T; open spec fn seq_of(&self) -> Seq<T> { self@ } #[verifier::external_body] fn v_iter<'a>(&'a self) -> VIter<&'a T> { unimplemented!() } }
impl<T> VIterable for [T] { type T = T; open spec fn seq_of(&self) -> Seq<T> { self@ } #[verifier::external_body] fn v_iter<'a>(&'a self) -> VIter<&'a T> { unimplemented!() } }
pub open spec fn enum_seq<T>(s: Seq<T>) -> Seq<(usize, T)> { Seq::new(s.len(), |i: int| (i as usize, s[i])) }
pub open spec fn rev_seq<T>(s: Seq<T>) -> Seq<T> { Seq::new(s.len(), |i: int| s[s.len() - 1 - i]) }
pub open spec fn zip_seq<T, U>(s: Seq<T>, t: Seq<U>) -> Seq<(T, U)> { Seq::new(if s.len() <= t.len() { s.len() } else { t.len() }, |i: int| (s[i], t[i])) }
pub open spec fn joined<U: VIntoIter>(p: Seq<U>, n: int) -> Seq<U::Item> decreases n { if n <= 0 { Seq::empty() } else { joined(p, n - 1) + p[n - 1].into_seq() } }
pub trait VUnzip<A, B> { spec fn uz(self) -> Seq<(A, B)>; fn v_unzip(self) -> (r: (Vec<A>, Vec<B>)) ensures r.0@.len() == self.uz().len(), r.1@.len() == self.uz().len(), forall|i: int| 0 <= i < self.uz().len() ==> #[trigger] r.0@[i] == self.uz()[i].0 && r.1@[i] == self.uz()[i].1; }
impl<A, B> VUnzip<A, B> for VIter<(A, B)> { open spec fn uz(self) -> Seq<(A, B)> { self@ } #[verifier::external_body] fn v_unzip(self) -> (Vec<A>, Vec<B>) { unimplemented!() } }
pub trait VSearch { spec fn ss(&self) -> Seq<usize>;
  fn v_binary_search(&self, x: &usize) -> (r: Result<usize, usize>)
    requires forall|a: int, b: int| #![trigger self.ss()[a], self.ss()[b]] 0 <= a < b < self.ss().len() ==> self.ss()[a] <= self.ss()[b]
    ensures r is Ok ==> r->Ok_0 < self.ss().len() && self.ss()[r->Ok_0 as int] == *x,
      r is Err ==> r->Err_0 <= self.ss().len() && (forall|a: int| #![trigger self.ss()[a]] 0 <= a < r->Err_0 ==> self.ss()[a] < *x) && forall|a: int| #![trigger self.ss()[a]] r->Err_0 <= a < self.ss().len() ==> self.ss()[a] > *x;
}
impl VSearch for [usize] { open spec fn ss(&self) -> Seq<usize> { self@ } #[verifier::external_body] fn v_binary_search(&self, x: &usize) -> Result<usize, usize> { unimplemented!() } }
impl VSearch for Vec<usize> { open spec fn ss(&self) -> Seq<usize> { self@ } #[verifier::external_body] fn v_binary_search(&self, x: &usize) -> Result<usize, usize> { unimplemented!() } }
pub trait VSort { spec fn us(&self) -> Seq<usize>;
  fn v_sort_unstable(&mut self) ensures final(self).us().len() == old(self).us().len(), old(self).us().no_duplicates() ==> final(self).us().no_duplicates(), forall|x: usize| #![trigger final(self).us().contains(x)] final(self).us().contains(x) == old(self).us().contains(x), forall|a: int, b: int| #![trigger final(self).us()[a], final(self).us()[b]] 0 <= a < b < final(self).us().len() ==> final(self).us()[a] <= final(self).us()[b]; }
impl VSort for Vec<usize> { open spec fn us(&self) -> Seq<usize> { self@ } #[verifier::external_body] fn v_sort_unstable(&mut self) { unimplemented!() } }
pub open spec fn smin(a: int, b: int) -> int { if a <= b { a } else { b } }
impl<T> VIter<T> {
  #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
  #[verifier::external_body] pub fn get(&self, i: usize) -> (r: T) requires i < self@.len() ensures r == self@[i as int] { unimplemented!() }
  #[verifier::external_body] pub fn v_enumerate(self) -> (r: VIter<(usize, T)>) ensures r@ == enum_seq(self@), forall|i: int| #![trigger self@[i]] 0 <= i < self@.len() ==> r@[i] == (i as usize, self@[i]) { unimplemented!() }
  #[verifier::external_body] pub fn v_rev(self) -> (r: VIter<T>) ensures r@ == rev_seq(self@) { unimplemented!() }
  #[verifier::external_body] pub fn v_skip(self, n: usize) -> (r: VIter<T>) ensures r@ == self@.subrange(smin(n as int, self@.len() as int), self@.len() as int) { unimplemented!() }
  #[verifier::external_body] pub fn v_take(self, n: usize) -> (r: VIter<T>) ensures r@ == self@.subrange(0, smin(n as int, self@.len() as int)) { unimplemented!() }
  #[verifier::external_body] pub fn v_zip<J: VIntoIter>(self, o: J) -> (r: VIter<(T, J::Item)>) ensures r@ == zip_seq(self@, o.into_seq()) { unimplemented!() }
  #[verifier::external_body] pub fn v_chain<J: VIntoIter<Item = T>>(self, o: J) -> (r: VIter<T>) ensures r@ == self@ + o.into_seq() { unimplemented!() }
  #[verifier::external_body] pub fn v_map<U, G: Fn(T) -> U>(self, g: G) -> (r: VIter<U>)
    requires forall|i: int| 0 <= i < self@.len() ==> g.requires((#[trigger] self@[i],))
    ensures r@.len() == self@.len(), forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < r@.len() ==> g.ensures((self@[i],), r@[i]) { unimplemented!() }
  #[verifier::external_body] pub fn v_flat_map<U: VIntoIter, G: Fn(T) -> U>(self, g: G) -> (r: VIter<U::Item>)
    requires forall|i: int| 0 <= i < self@.len() ==> g.requires((#[trigger] self@[i],))
    ensures exists|p: Seq<U>| #[trigger] p.len() == self@.len() && (forall|i: int| 0 <= i < p.len() ==> g.ensures((self@[i],), #[trigger] p[i])) && r@ == joined(p, p.len() as int) { unimplemented!() }
  #[verifier::external_body] pub fn v_max_by_key<K: VOrd, G: Fn(&T) -> K>(self, g: G) -> (r: Option<T>)
    requires forall|i: int| 0 <= i < self@.len() ==> g.requires((&#[trigger] self@[i],))
    ensures r is None ==> self@.len() == 0, r is Some ==> exists|keys: Seq<K>, p: int| #![trigger keys[p]] keys.len() == self@.len() && 0 <= p < keys.len() && r->0 == self@[p] && (forall|i: int| #![trigger keys[i]] #![trigger self@[i]] 0 <= i < keys.len() ==> g.ensures((&self@[i],), keys[i])) && forall|i: int| #![trigger keys[i]] #![trigger self@[i]] 0 <= i < keys.len() ==> keys[i].sp_le(&keys[p]) { unimplemented!() }
  #[verifier::external_body] pub fn v_all<G: Fn(T) -> bool>(self, g: G) -> (r: bool)
    requires forall|i: int| 0 <= i < self@.len() ==> g.requires((#[trigger] self@[i],))
    ensures r ==> forall|i: int| 0 <= i < self@.len() ==> g.ensures((#[trigger] self@[i],), true), !r ==> exists|i: int| 0 <= i < self@.len() && g.ensures((#[trigger] self@[i],), false) { unimplemented!() }
  #[verifier::external_body] pub fn v_any<G: Fn(T) -> bool>(self, g: G) -> (r: bool)
    requires forall|i: int| 0 <= i < self@.len() ==> g.requires((#[trigger] self@[i],))
    ensures !r ==> forall|i: int| 0 <= i < self@.len() ==> g.ensures((#[trigger] self@[i],), false), r ==> exists|i: int| 0 <= i < self@.len() && g.ensures((#[trigger] self@[i],), true) { unimplemented!() }
  #[verifier::external_body] pub fn v_position<G: Fn(T) -> bool>(self, g: G) -> (r: Option<usize>)
    requires forall|i: int| 0 <= i < self@.len() ==> g.requires((#[trigger] self@[i],))
    ensures r is None ==> forall|i: int| 0 <= i < self@.len() ==> g.ensures((#[trigger] self@[i],), false),
       r is Some ==> (r->0 < self@.len() && g.ensures((self@[r->0 as int],), true) && forall|i: int| 0 <= i < r->0 ==> g.ensures((#[trigger] self@[i],), false)) { unimplemented!() }
  #[verifier::external_body] pub fn v_find<G: Fn(&T) -> bool>(self, g: G) -> (r: Option<T>)
    requires forall|i: int| 0 <= i < self@.len() ==> g.requires((&#[trigger] self@[i],))
    ensures r is None ==> forall|i: int| 0 <= i < self@.len() ==> g.ensures((&#[trigger] self@[i],), false),
       r is Some ==> exists|k: int| #![trigger self@[k]] 0 <= k < self@.len() && r->0 == self@[k] && g.ensures((&self@[k],), true) && forall|i: int| 0 <= i < k ==> g.ensures((&#[trigger] self@[i],), false) { unimplemented!() }
  #[verifier::external_body] pub fn v_filter<G: Fn(&T) -> bool>(self, g: G) -> (r: VIter<T>)
    requires forall|i: int| 0 <= i < self@.len() ==> g.requires((&#[trigger] self@[i],))
    ensures exists|m: Seq<int>| #[trigger] filter_of(self@, r@, m, g) { unimplemented!() }
  #[verifier::external_body] pub fn v_filter_map<U, G: Fn(T) -> Option<U>>(self, g: G) -> (r: VIter<U>)
    requires forall|i: int| 0 <= i < self@.len() ==> g.requires((#[trigger] self@[i],))
    ensures exists|m: Seq<int>| #[trigger] fmap_of(self@, r@, m, g) { unimplemented!() }
  #[verifier::external_body] pub fn v_collect(self) -> (r: Vec<T>) ensures r@ == self@ { unimplemented!() }
  #[verifier::external_body] pub fn next(&mut self) -> (r: Option<T>) ensures r == (if old(self)@.len() == 0 { None } else { Some(old(self)@[0]) }), final(self)@ == (if old(self)@.len() == 0 { old(self)@ } else { old(self)@.subrange(1, old(self)@.len() as int) }) { unimplemented!() }
  #[verifier::external_body] pub fn v_last(self) -> (r: Option<T>) ensures r == (if self@.len() == 0 { None } else { Some(self@.last()) }) { unimplemented!() }
  #[verifier::external_body] pub fn v_count(self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}
pub trait VContains<T> { spec fn cs(&self, x: &T) -> bool; fn v_contains(&self, x: &T) -> (r: bool) ensures r == self.cs(x); }
impl VContains<usize> for std::collections::HashSet<usize> { open spec fn cs(&self, x: &usize) -> bool { self@.contains(*x) } #[verifier::external_body] fn v_contains(&self, x: &usize) -> bool { unimplemented!() } }
pub uninterp spec fn set_order(s: std::collections::HashSet<usize>) -> Seq<usize>;
/// a set is visited in some order, each element once
impl VIntoIter for std::collections::HashSet<usize> { type Item = usize; open spec fn into_seq(self) -> Seq<usize> { set_order(self) }
  #[verifier::external_body] fn v_into_iter(self) -> (r: VIter<usize>) ensures r@.no_duplicates(), forall|x: usize| #![trigger r@.contains(x)] r@.contains(x) == self@.contains(x) { unimplemented!() } }
pub trait VCollectOption<T> { spec fn co(self) -> Seq<Option<T>>;
  fn v_collect_option(self) -> (r: Option<Vec<T>>) ensures (r is None) == (exists|i: int| 0 <= i < self.co().len() && (#[trigger] self.co()[i]) is None), r is Some ==> r->0@.len() == self.co().len() && forall|i: int| #![trigger r->0@[i]] #![trigger self.co()[i]] 0 <= i < self.co().len() ==> self.co()[i] == Some(r->0@[i]); }
impl<T> VCollectOption<T> for VIter<Option<T>> { open spec fn co(self) -> Seq<Option<T>> { self@ } #[verifier::external_body] fn v_collect_option(self) -> (r: Option<Vec<T>>) { unimplemented!() } }
/// what a comparison that is total orders by
pub trait Ranked { spec fn rank(&self) -> int; }
pub open spec fn order_of(a: int, b: int) -> core::cmp::Ordering { if a < b { core::cmp::Ordering::Less } else if a == b { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater } }
/// b is a sorted by rank, elements of equal rank in their order in a; p[k] is where the k-th comes from
pub open spec fn stable_sort_of<T: Ranked>(a: Seq<T>, b: Seq<T>, p: Seq<int>) -> bool { p.len() == a.len() && b.len() == a.len()
  && (forall|k: int| #![trigger p[k]] #![trigger b[k]] 0 <= k < p.len() ==> 0 <= p[k] < a.len() && b[k] == a[p[k]])
  && (forall|i: int, j: int| #![trigger p[i], p[j]] 0 <= i < j < p.len() ==> b[i].rank() < b[j].rank() || (b[i].rank() == b[j].rank() && p[i] < p[j])) }
/// as above, elements of equal rank in any order
pub open spec fn sort_of<T: Ranked>(a: Seq<T>, b: Seq<T>, p: Seq<int>) -> bool { p.len() == a.len() && b.len() == a.len()
  && (forall|k: int| #![trigger p[k]] #![trigger b[k]] 0 <= k < p.len() ==> 0 <= p[k] < a.len() && b[k] == a[p[k]])
  && (forall|i: int, j: int| #![trigger p[i], p[j]] 0 <= i < j < p.len() ==> b[i].rank() <= b[j].rank() && p[i] != p[j]) }
pub trait VSortBy<T: Ranked> { spec fn sq(&self) -> Seq<T>;
  fn v_sort_by<G: Fn(&T, &T) -> core::cmp::Ordering>(&mut self, g: G)
    requires forall|x: &T, y: &T| g.requires((x, y)), forall|x: &T, y: &T, o: core::cmp::Ordering| #[trigger] g.ensures((x, y), o) ==> o == order_of(x.rank(), y.rank())
    ensures exists|p: Seq<int>| #[trigger] stable_sort_of(old(self).sq(), final(self).sq(), p);
  fn v_sort_unstable_by<G: Fn(&T, &T) -> core::cmp::Ordering>(&mut self, g: G)
    requires forall|x: &T, y: &T| g.requires((x, y)), forall|x: &T, y: &T, o: core::cmp::Ordering| #[trigger] g.ensures((x, y), o) ==> o == order_of(x.rank(), y.rank())
    ensures exists|p: Seq<int>| #[trigger] sort_of(old(self).sq(), final(self).sq(), p); }
impl<T: Ranked> VSortBy<T> for Vec<T> { open spec fn sq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn v_sort_by<G: Fn(&T, &T) -> core::cmp::Ordering>(&mut self, g: G) { unimplemented!() } #[verifier::external_body] fn v_sort_unstable_by<G: Fn(&T, &T) -> core::cmp::Ordering>(&mut self, g: G) { unimplemented!() } }
impl VIter<usize> { #[verifier::external_body] pub fn v_collect_set(self) -> (r: std::collections::HashSet<usize>) ensures forall|x: usize| #![trigger r@.contains(x)] r@.contains(x) == self@.contains(x) { unimplemented!() } }
impl VContains<usize> for [usize] { open spec fn cs(&self, x: &usize) -> bool { self@.contains(*x) } #[verifier::external_body] fn v_contains(&self, x: &usize) -> bool { unimplemented!() } }
impl VContains<usize> for Vec<usize> { open spec fn cs(&self, x: &usize) -> bool { self@.contains(*x) } #[verifier::external_body] fn v_contains(&self, x: &usize) -> bool { unimplemented!() } }
pub trait VExtend<T> { spec fn xv(&self) -> Seq<T>; fn v_extend<J: VIntoIter<Item = T>>(&mut self, o: J) ensures final(self).xv() == old(self).xv() + o.into_seq(); }
impl<T> VExtend<T> for Vec<T> { open spec fn xv(&self) -> Seq<T> { self@ } #[verifier::external_body] fn v_extend<J: VIntoIter<Item = T>>(&mut self, o: J) { unimplemented!() } }
pub open spec fn ssum(s: Seq<F>) -> real decreases s.len() { if s.len() == 0 { 0real } else { ssum(s.drop_last()) + s.last()@ } }
impl VIter<F> {
  #[verifier::external_body] pub fn v_sum(self) -> (r: F) ensures r@ == ssum(self@) { unimplemented!() }
}
impl<'a, T: VClone> VIter<&'a T> {
  #[verifier::external_body] pub fn v_cloned(self) -> (r: VIter<T>) ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == *self@[i] { unimplemented!() }
  #[verifier::external_body] pub fn v_copied(self) -> (r: VIter<T>) ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == *self@[i] { unimplemented!() }
}
/// r is the subsequence of s selected by the increasing index map m, and exactly the elements satisfying p are kept
pub open spec fn increasing(m: Seq<int>) -> bool { forall|i: int, j: int| 0 <= i < j < m.len() ==> #[trigger] m[i] < #[trigger] m[j] }
pub open spec fn filter_of<T, G: Fn(&T) -> bool>(s: Seq<T>, r: Seq<T>, m: Seq<int>, g: G) -> bool {
  m.len() == r.len() && increasing(m)
  && (forall|j: int| #![trigger m[j]] #![trigger r[j]] 0 <= j < m.len() ==> 0 <= m[j] < s.len() && r[j] == s[m[j]] && g.ensures((&s[m[j]],), true))
  && (forall|i: int| 0 <= i < s.len() ==> g.ensures((&#[trigger] s[i],), false) || exists|j: int| 0 <= j < m.len() && #[trigger] m[j] == i) }
pub open spec fn fmap_of<T, U, G: Fn(T) -> Option<U>>(s: Seq<T>, r: Seq<U>, m: Seq<int>, g: G) -> bool {
  m.len() == r.len() && increasing(m)
  && (forall|j: int| #![trigger m[j]] #![trigger r[j]] 0 <= j < m.len() ==> 0 <= m[j] < s.len() && g.ensures((s[m[j]],), Some(r[j])))
  && (forall|i: int| 0 <= i < s.len() ==> g.ensures((#[trigger] s[i],), None) || exists|j: int| 0 <= j < m.len() && #[trigger] m[j] == i) }
pub trait VMax: Sized { spec fn mx(self) -> int; fn v_max(self, o: Self) -> (r: Self) ensures r.mx() == (if self.mx() >= o.mx() { self.mx() } else { o.mx() }); fn v_min(self, o: Self) -> (r: Self) ensures r.mx() == (if self.mx() <= o.mx() { self.mx() } else { o.mx() }); }
impl VMax for usize { open spec fn mx(self) -> int { self as int } fn v_max(self, o: usize) -> (r: usize) { if self >= o { self } else { o } } fn v_min(self, o: usize) -> (r: usize) { if self <= o { self } else { o } } }
pub fn v_at_most(k: usize, n: usize) -> (r: usize) ensures r <= n, r == k || (r == n && k > n) { if k <= n { k } else { n } }
pub trait VRangeIter: Sized + VIntoIter<Item = usize> {
  fn v_filter<G: Fn(&usize) -> bool>(self, g: G) -> (r: VIter<usize>)
    requires forall|i: int| 0 <= i < self.into_seq().len() ==> g.requires((&#[trigger] self.into_seq()[i],))
    ensures exists|m: Seq<int>| #[trigger] filter_of(self.into_seq(), r@, m, g) { self.v_into_iter().v_filter(g) }
  fn v_map<U, G: Fn(usize) -> U>(self, g: G) -> (r: VIter<U>)
    requires forall|i: int| 0 <= i < self.into_seq().len() ==> g.requires((#[trigger] self.into_seq()[i],))
    ensures r@.len() == self.into_seq().len(), forall|i: int| #![trigger r@[i]] #![trigger self.into_seq()[i]] 0 <= i < r@.len() ==> g.ensures((self.into_seq()[i],), r@[i]) { self.v_into_iter().v_map(g) }
}
impl VRangeIter for core::ops::Range<usize> {}
pub trait VOpt<T>: Sized { spec fn op(self) -> Option<T>;
  fn v_map<U, G: FnOnce(T) -> U>(self, g: G) -> (r: Option<U>) requires self.op() is Some ==> g.requires((self.op()->0,)),
     ensures self.op() is None ==> r is None, self.op() is Some ==> r is Some && g.ensures((self.op()->0,), r->0);
  fn v_zip<U>(self, o: Option<U>) -> (r: Option<(T, U)>) ensures r == (match (self.op(), o) { (Some(a), Some(b)) => Some((a, b)), _ => None });
  fn v_map_or<U, G: FnOnce(T) -> U>(self, d: U, g: G) -> (r: U) requires self.op() is Some ==> g.requires((self.op()->0,)),
     ensures self.op() is None ==> r == d, self.op() is Some ==> g.ensures((self.op()->0,), r);
  fn v_map_or_else<U, D: FnOnce() -> U, G: FnOnce(T) -> U>(self, d: D, g: G) -> (r: U) requires self.op() is Some ==> g.requires((self.op()->0,)), self.op() is None ==> d.requires(()),
     ensures self.op() is None ==> d.ensures((), r), self.op() is Some ==> g.ensures((self.op()->0,), r);
  fn v_or_else<G: FnOnce() -> Option<T>>(self, g: G) -> (r: Option<T>) requires self.op() is None ==> g.requires(()), ensures self.op() is Some ==> r == self.op(), self.op() is None ==> g.ensures((), r);
  fn v_unwrap_or_else<G: FnOnce() -> T>(self, g: G) -> (r: T) requires self.op() is None ==> g.requires(()),
     ensures self.op() is Some ==> r == self.op()->0, self.op() is None ==> g.ensures((), r);
  fn v_unwrap_or(self, d: T) -> (r: T) ensures r == (match self.op() { Some(x) => x, None => d }); 
  fn v_and_then<U, G: FnOnce(T) -> Option<U>>(self, g: G) -> (r: Option<U>) requires self.op() is Some ==> g.requires((self.op()->0,)),
     ensures self.op() is None ==> r is None, self.op() is Some ==> g.ensures((self.op()->0,), r);
}
impl<T> VOpt<T> for Option<T> { open spec fn op(self) -> Option<T> { self }
  fn v_map<U, G: FnOnce(T) -> U>(self, g: G) -> Option<U> { match self { Some(x) => Some(g(x)), None => None } }
  fn v_zip<U>(self, o: Option<U>) -> Option<(T, U)> { match (self, o) { (Some(a), Some(b)) => Some((a, b)), _ => None } }
  fn v_map_or<U, G: FnOnce(T) -> U>(self, d: U, g: G) -> U { match self { Some(x) => g(x), None => d } }
  fn v_map_or_else<U, D: FnOnce() -> U, G: FnOnce(T) -> U>(self, d: D, g: G) -> U { match self { Some(x) => g(x), None => d() } }
  fn v_or_else<G: FnOnce() -> Option<T>>(self, g: G) -> Option<T> { match self { Some(x) => Some(x), None => g() } }
  fn v_unwrap_or_else<G: FnOnce() -> T>(self, g: G) -> T { match self { Some(x) => x, None => g() } }
  fn v_unwrap_or(self, d: T) -> T { match self { Some(x) => x, None => d } }
  fn v_and_then<U, G: FnOnce(T) -> Option<U>>(self, g: G) -> Option<U> { match self { Some(x) => g(x), None => None } }
}
pub trait VOptRef<T> { spec fn opr(&self) -> Option<T>; fn v_as_ref<'a>(&'a self) -> (r: Option<&'a T>) ensures r == (match self.opr() { Some(x) => Some(&x), None => None }); }
impl<T> VOptRef<T> for Option<T> { open spec fn opr(&self) -> Option<T> { *self } fn v_as_ref<'a>(&'a self) -> Option<&'a T> { match self { Some(x) => Some(x), None => None } } }
pub trait VVec<T> { spec fn vv(&self) -> Seq<T>;
  fn v_is_empty(&self) -> (r: bool) ensures r == (self.vv().len() == 0);
  fn v_first<'a>(&'a self) -> (r: Option<&'a T>) ensures r == (if self.vv().len() == 0 { None } else { Some(&self.vv()[0]) });
  fn v_last<'a>(&'a self) -> (r: Option<&'a T>) ensures r == (if self.vv().len() == 0 { None } else { Some(&self.vv().last()) });
}
impl<T> VVec<T> for Vec<T> { open spec fn vv(&self) -> Seq<T> { self@ }
  fn v_is_empty(&self) -> bool { self.len() == 0 }
  fn v_first<'a>(&'a self) -> Option<&'a T> { if self.len() == 0 { None } else { Some(&self[0]) } }
  fn v_last<'a>(&'a self) -> Option<&'a T> { if self.len() == 0 { None } else { Some(&self[self.len() - 1]) } } }
impl<T> VVec<T> for [T] { open spec fn vv(&self) -> Seq<T> { self@ }
  fn v_is_empty(&self) -> bool { self.len() == 0 }
  fn v_first<'a>(&'a self) -> Option<&'a T> { if self.len() == 0 { None } else { Some(&self[0]) } }
  fn v_last<'a>(&'a self) -> Option<&'a T> { if self.len() == 0 { None } else { Some(&self[self.len() - 1]) } } }

pub assume_specification<T> [<[T]>::reverse] (s: &mut [T]) ensures final(s)@ == rev_seq(old(s)@);
pub assume_specification<T> [<[T]>::swap] (s: &mut [T], i: usize, j: usize)
  requires i < old(s)@.len(), j < old(s)@.len()
  ensures final(s)@ == old(s)@.update(i as int, old(s)@[j as int]).update(j as int, old(s)@[i as int]);

// strictly increasing first components
pub open spec fn ssorted<T>(s: Seq<(usize, T)>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> s[i].0 < s[j].0 }
pub open spec fn wsorted<T>(s: Seq<(usize, T)>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> s[i].0 <= s[j].0 }
pub trait VSlice<T> { spec fn sl(&self) -> Seq<T>;
  fn v_slice<'a>(&'a self, a: usize, b: usize) -> (r: &'a [T]) requires a <= b <= self.sl().len() ensures r@ == self.sl().subrange(a as int, b as int);
  fn v_rotate_left_range(&mut self, a: usize, b: usize, n: usize) requires a <= b <= old(self).sl().len(), n <= b - a
    ensures final(self).sl() == old(self).sl().subrange(0, a as int) + rotl(old(self).sl().subrange(a as int, b as int), n as int) + old(self).sl().subrange(b as int, old(self).sl().len() as int);
  fn v_rotate_right_range(&mut self, a: usize, b: usize, n: usize) requires a <= b <= old(self).sl().len(), n <= b - a
    ensures final(self).sl() == old(self).sl().subrange(0, a as int) + rotl(old(self).sl().subrange(a as int, b as int), b - a - n) + old(self).sl().subrange(b as int, old(self).sl().len() as int);
}
pub open spec fn rotl<T>(s: Seq<T>, n: int) -> Seq<T> { s.subrange(n, s.len() as int) + s.subrange(0, n) }
pub trait VKeyed<T> { spec fn kd(&self) -> Seq<(usize, T)>;
  fn v_bsearch0(&self, k: &usize) -> (r: Result<usize, usize>) requires wsorted(self.kd())
   ensures r is Ok ==> (r->Ok_0 < self.kd().len() && self.kd()[r->Ok_0 as int].0 == *k),
     r is Err ==> (r->Err_0 <= self.kd().len() && (forall|i: int| 0 <= i < r->Err_0 ==> (#[trigger] self.kd()[i]).0 < *k) && (forall|i: int| r->Err_0 <= i < self.kd().len() ==> (#[trigger] self.kd()[i]).0 > *k));
  fn v_sort0(&mut self) ensures wsorted(final(self).kd()), final(self).kd().to_multiset() == old(self).kd().to_multiset(), final(self).kd().len() == old(self).kd().len();
}

impl<T> VSlice<T> for Vec<T> { open spec fn sl(&self) -> Seq<T> { self@ }
  #[verifier::external_body] fn v_slice<'a>(&'a self, a: usize, b: usize) -> (r: &'a [T]) { unimplemented!() }
  #[verifier::external_body] fn v_rotate_left_range(&mut self, a: usize, b: usize, n: usize) { unimplemented!() }
  #[verifier::external_body] fn v_rotate_right_range(&mut self, a: usize, b: usize, n: usize) { unimplemented!() } }
impl<T> VSlice<T> for [T] { open spec fn sl(&self) -> Seq<T> { self@ }
  #[verifier::external_body] fn v_slice<'a>(&'a self, a: usize, b: usize) -> (r: &'a [T]) { unimplemented!() }
  #[verifier::external_body] fn v_rotate_left_range(&mut self, a: usize, b: usize, n: usize) { unimplemented!() }
  #[verifier::external_body] fn v_rotate_right_range(&mut self, a: usize, b: usize, n: usize) { unimplemented!() } }
impl<T> VKeyed<T> for Vec<(usize, T)> { open spec fn kd(&self) -> Seq<(usize, T)> { self@ }
  #[verifier::external_body] fn v_bsearch0(&self, k: &usize) -> (r: Result<usize, usize>) { unimplemented!() }
  #[verifier::external_body] fn v_sort0(&mut self) { unimplemented!() } }
impl<T> VKeyed<T> for [(usize, T)] { open spec fn kd(&self) -> Seq<(usize, T)> { self@ }
  #[verifier::external_body] fn v_bsearch0(&self, k: &usize) -> (r: Result<usize, usize>) { unimplemented!() }
  #[verifier::external_body] fn v_sort0(&mut self) { unimplemented!() } }
/// an iterator whose next element can be looked at
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct VPeek<T> { x: Vec<T> }
impl<T> View for VPeek<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> VIter<T> { #[verifier::external_body] pub fn v_peekable(self) -> (r: VPeek<T>) ensures r@ == self@ { unimplemented!() } }
impl<T> VPeek<T> { #[verifier::external_body] pub fn v_next_if<G: Fn(&T) -> bool>(&mut self, g: G) -> (r: Option<T>)
  requires old(self)@.len() > 0 ==> g.requires((&old(self)@[0],))
  ensures r is Some ==> old(self)@.len() > 0 && r->0 == old(self)@[0] && g.ensures((&old(self)@[0],), true) && final(self)@ == old(self)@.subrange(1, old(self)@.len() as int),
    r is None ==> final(self)@ == old(self)@ && (old(self)@.len() > 0 ==> g.ensures((&old(self)@[0],), false)) { unimplemented!() } }
/// `dedup_by_key` with the first component as the key
pub trait VDedup<T> { spec fn dd(&self) -> Seq<(usize, T)>; fn v_dedup0(&mut self) ensures final(self).dd().len() <= old(self).dd().len(),
  final(self).dd().len() == old(self).dd().len() ==> final(self).dd() == old(self).dd() && forall|i: int| #![trigger old(self).dd()[i]] 0 < i < old(self).dd().len() ==> old(self).dd()[i - 1].0 != old(self).dd()[i].0,
  final(self).dd().len() < old(self).dd().len() ==> exists|i: int| #![trigger old(self).dd()[i]] 0 < i < old(self).dd().len() && old(self).dd()[i - 1].0 == old(self).dd()[i].0; }
impl<T> VDedup<T> for Vec<(usize, T)> { open spec fn dd(&self) -> Seq<(usize, T)> { self@ } #[verifier::external_body] fn v_dedup0(&mut self) { unimplemented!() } }
pub trait VBits: Sized { spec fn or(self, r: Self) -> Self; spec fn and(self, r: Self) -> Self;
  fn v_or_assign(&mut self, r: Self) ensures *final(self) == old(self).or(r); fn v_and_assign(&mut self, r: Self) ensures *final(self) == old(self).and(r); }
impl VBits for bool { open spec fn or(self, r: bool) -> bool { self || r } open spec fn and(self, r: bool) -> bool { self && r }
  fn v_or_assign(&mut self, r: bool) { *self = *self || r; } fn v_and_assign(&mut self, r: bool) { *self = *self && r; } }