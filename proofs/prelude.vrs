#![allow(non_camel_case_types)]
#![allow(unused_imports, unused_variables, unused_mut, dead_code, non_snake_case, unused_parens, unused_braces, unused_assignments, unused_must_use)]
use vstd::prelude::*;
verus! {
// ---------------------------------------------------------------- floats read as reals (TRUSTED)
pub mod fl {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
use core::cmp::Ordering;
use core::ops::*;
#[verifier::external_body]
pub struct Real32 { x: core::primitive::f32 }
impl Real32 { pub uninterp spec fn view(&self) -> real; }
pub open spec fn rcmp(a: real, b: real) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
pub uninterp spec fn mkr(r: real) -> Real32;
pub broadcast axiom fn ax_mk(r: real) ensures (#[trigger] mkr(r))@ == r;
pub broadcast axiom fn ax_mk2(r: Real32) ensures mkr(#[trigger] r@) == r;
impl Clone for Real32 { #[verifier::external_body] fn clone(&self) -> (r: Real32) ensures r == *self { unimplemented!() } }
impl Copy for Real32 {}

impl AddSpecImpl<Real32> for Real32 {
  open spec fn obeys_add_spec() -> bool { true }
  open spec fn add_req(self, o: Real32) -> bool { true }
  open spec fn add_spec(self, o: Real32) -> Real32 { mkr(self@ + o@) }
}
impl Add<Real32> for Real32 { type Output = Real32; #[verifier::external_body] fn add(self, o: Real32) -> (r: Real32) { unimplemented!() } }

impl<'a> AddSpecImpl<&'a Real32> for Real32 {
  open spec fn obeys_add_spec() -> bool { true }
  open spec fn add_req(self, o: &'a Real32) -> bool { true }
  open spec fn add_spec(self, o: &'a Real32) -> Real32 { mkr(self@ + o@) }
}
impl<'a> Add<&'a Real32> for Real32 { type Output = Real32; #[verifier::external_body] fn add(self, o: &'a Real32) -> (r: Real32) { unimplemented!() } }

impl<'a> AddSpecImpl<Real32> for &'a Real32 {
  open spec fn obeys_add_spec() -> bool { true }
  open spec fn add_req(self, o: Real32) -> bool { true }
  open spec fn add_spec(self, o: Real32) -> Real32 { mkr(self@ + o@) }
}
impl<'a> Add<Real32> for &'a Real32 { type Output = Real32; #[verifier::external_body] fn add(self, o: Real32) -> (r: Real32) { unimplemented!() } }

impl<'a,'b> AddSpecImpl<&'b Real32> for &'a Real32 {
  open spec fn obeys_add_spec() -> bool { true }
  open spec fn add_req(self, o: &'b Real32) -> bool { true }
  open spec fn add_spec(self, o: &'b Real32) -> Real32 { mkr(self@ + o@) }
}
impl<'a,'b> Add<&'b Real32> for &'a Real32 { type Output = Real32; #[verifier::external_body] fn add(self, o: &'b Real32) -> (r: Real32) { unimplemented!() } }

impl SubSpecImpl<Real32> for Real32 {
  open spec fn obeys_sub_spec() -> bool { true }
  open spec fn sub_req(self, o: Real32) -> bool { true }
  open spec fn sub_spec(self, o: Real32) -> Real32 { mkr(self@ - o@) }
}
impl Sub<Real32> for Real32 { type Output = Real32; #[verifier::external_body] fn sub(self, o: Real32) -> (r: Real32) { unimplemented!() } }

impl<'a> SubSpecImpl<&'a Real32> for Real32 {
  open spec fn obeys_sub_spec() -> bool { true }
  open spec fn sub_req(self, o: &'a Real32) -> bool { true }
  open spec fn sub_spec(self, o: &'a Real32) -> Real32 { mkr(self@ - o@) }
}
impl<'a> Sub<&'a Real32> for Real32 { type Output = Real32; #[verifier::external_body] fn sub(self, o: &'a Real32) -> (r: Real32) { unimplemented!() } }

impl<'a> SubSpecImpl<Real32> for &'a Real32 {
  open spec fn obeys_sub_spec() -> bool { true }
  open spec fn sub_req(self, o: Real32) -> bool { true }
  open spec fn sub_spec(self, o: Real32) -> Real32 { mkr(self@ - o@) }
}
impl<'a> Sub<Real32> for &'a Real32 { type Output = Real32; #[verifier::external_body] fn sub(self, o: Real32) -> (r: Real32) { unimplemented!() } }

impl<'a,'b> SubSpecImpl<&'b Real32> for &'a Real32 {
  open spec fn obeys_sub_spec() -> bool { true }
  open spec fn sub_req(self, o: &'b Real32) -> bool { true }
  open spec fn sub_spec(self, o: &'b Real32) -> Real32 { mkr(self@ - o@) }
}
impl<'a,'b> Sub<&'b Real32> for &'a Real32 { type Output = Real32; #[verifier::external_body] fn sub(self, o: &'b Real32) -> (r: Real32) { unimplemented!() } }

impl MulSpecImpl<Real32> for Real32 {
  open spec fn obeys_mul_spec() -> bool { true }
  open spec fn mul_req(self, o: Real32) -> bool { true }
  open spec fn mul_spec(self, o: Real32) -> Real32 { mkr(self@ * o@) }
}
impl Mul<Real32> for Real32 { type Output = Real32; #[verifier::external_body] fn mul(self, o: Real32) -> (r: Real32) { unimplemented!() } }

impl<'a> MulSpecImpl<&'a Real32> for Real32 {
  open spec fn obeys_mul_spec() -> bool { true }
  open spec fn mul_req(self, o: &'a Real32) -> bool { true }
  open spec fn mul_spec(self, o: &'a Real32) -> Real32 { mkr(self@ * o@) }
}
impl<'a> Mul<&'a Real32> for Real32 { type Output = Real32; #[verifier::external_body] fn mul(self, o: &'a Real32) -> (r: Real32) { unimplemented!() } }

impl<'a> MulSpecImpl<Real32> for &'a Real32 {
  open spec fn obeys_mul_spec() -> bool { true }
  open spec fn mul_req(self, o: Real32) -> bool { true }
  open spec fn mul_spec(self, o: Real32) -> Real32 { mkr(self@ * o@) }
}
impl<'a> Mul<Real32> for &'a Real32 { type Output = Real32; #[verifier::external_body] fn mul(self, o: Real32) -> (r: Real32) { unimplemented!() } }

impl<'a,'b> MulSpecImpl<&'b Real32> for &'a Real32 {
  open spec fn obeys_mul_spec() -> bool { true }
  open spec fn mul_req(self, o: &'b Real32) -> bool { true }
  open spec fn mul_spec(self, o: &'b Real32) -> Real32 { mkr(self@ * o@) }
}
impl<'a,'b> Mul<&'b Real32> for &'a Real32 { type Output = Real32; #[verifier::external_body] fn mul(self, o: &'b Real32) -> (r: Real32) { unimplemented!() } }

impl DivSpecImpl<Real32> for Real32 {
  open spec fn obeys_div_spec() -> bool { true }
  open spec fn div_req(self, o: Real32) -> bool { true }
  open spec fn div_spec(self, o: Real32) -> Real32 { mkr(self@ / o@) }
}
impl Div<Real32> for Real32 { type Output = Real32; #[verifier::external_body] fn div(self, o: Real32) -> (r: Real32) { unimplemented!() } }

impl<'a> DivSpecImpl<&'a Real32> for Real32 {
  open spec fn obeys_div_spec() -> bool { true }
  open spec fn div_req(self, o: &'a Real32) -> bool { true }
  open spec fn div_spec(self, o: &'a Real32) -> Real32 { mkr(self@ / o@) }
}
impl<'a> Div<&'a Real32> for Real32 { type Output = Real32; #[verifier::external_body] fn div(self, o: &'a Real32) -> (r: Real32) { unimplemented!() } }

impl<'a> DivSpecImpl<Real32> for &'a Real32 {
  open spec fn obeys_div_spec() -> bool { true }
  open spec fn div_req(self, o: Real32) -> bool { true }
  open spec fn div_spec(self, o: Real32) -> Real32 { mkr(self@ / o@) }
}
impl<'a> Div<Real32> for &'a Real32 { type Output = Real32; #[verifier::external_body] fn div(self, o: Real32) -> (r: Real32) { unimplemented!() } }

impl<'a,'b> DivSpecImpl<&'b Real32> for &'a Real32 {
  open spec fn obeys_div_spec() -> bool { true }
  open spec fn div_req(self, o: &'b Real32) -> bool { true }
  open spec fn div_spec(self, o: &'b Real32) -> Real32 { mkr(self@ / o@) }
}
impl<'a,'b> Div<&'b Real32> for &'a Real32 { type Output = Real32; #[verifier::external_body] fn div(self, o: &'b Real32) -> (r: Real32) { unimplemented!() } }

impl NegSpecImpl for Real32 {
  open spec fn obeys_neg_spec() -> bool { true }
  open spec fn neg_req(self) -> bool { true }
  open spec fn neg_spec(self) -> Real32 { mkr(-self@) }
}
impl Neg for Real32 { type Output = Real32; #[verifier::external_body] fn neg(self) -> (r: Real32) { unimplemented!() } }
impl PartialEqSpecImpl<Real32> for Real32 {
  open spec fn obeys_eq_spec() -> bool { true }
  open spec fn eq_spec(&self, o: &Real32) -> bool { self@ == o@ }
}
impl PartialEq for Real32 { #[verifier::external_body] fn eq(&self, o: &Real32) -> bool { unimplemented!() } }
impl PartialOrdSpecImpl<Real32> for Real32 {
  open spec fn obeys_partial_cmp_spec() -> bool { true }
  open spec fn partial_cmp_spec(&self, o: &Real32) -> Option<Ordering> { Some(rcmp(self@, o@)) }
}
impl PartialOrd for Real32 { #[verifier::external_body] fn partial_cmp(&self, o: &Real32) -> Option<Ordering> { unimplemented!() } }
pub open spec fn rmax(a: real, b: real) -> real { if a >= b { a } else { b } }
pub open spec fn rmin(a: real, b: real) -> real { if a <= b { a } else { b } }
pub open spec fn rabs(a: real) -> real { if a >= 0real { a } else { -a } }
pub uninterp spec fn rpowi(b: real, e: int) -> real;
pub uninterp spec fn rsqrt(a: real) -> real;
pub uninterp spec fn rln(a: real) -> real;
pub uninterp spec fn rexp(a: real) -> real;
pub uninterp spec fn rlog(a: real, b: real) -> real;
pub uninterp spec fn rfloor(a: real) -> int;
pub uninterp spec fn rceil(a: real) -> int;
pub uninterp spec fn rfmax() -> real;
pub uninterp spec fn rpi() -> real;
pub uninterp spec fn reps() -> real;
pub uninterp spec fn rgamma(a: real) -> real;   // ln Gamma
pub uninterp spec fn rdigamma(a: real) -> real;
pub broadcast axiom fn ax_pos_powi(b: real, e: int) ensures b > 0real ==> #[trigger] rpowi(b, e) > 0real;
pub broadcast axiom fn ax_sqrt(a: real) ensures a >= 0real ==> (#[trigger] rsqrt(a)) >= 0real && rsqrt(a) * rsqrt(a) == a;
pub axiom fn ax_fmax() ensures rfmax() > 0real;
impl Real32 {
  #[verifier::external_body] pub fn max(self, o: Real32) -> (r: Real32) ensures r@ == rmax(self@, o@) { unimplemented!() }
  #[verifier::external_body] pub fn min(self, o: Real32) -> (r: Real32) ensures r@ == rmin(self@, o@) { unimplemented!() }
  #[verifier::external_body] pub fn abs(self) -> (r: Real32) ensures r@ == rabs(self@) { unimplemented!() }
  #[verifier::external_body] pub fn powi(self, e: i32) -> (r: Real32) ensures r@ == rpowi(self@, e as int) { unimplemented!() }
  #[verifier::external_body] pub fn sqrt(self) -> (r: Real32) ensures r@ == rsqrt(self@) { unimplemented!() }
  #[verifier::external_body] pub fn ln(self) -> (r: Real32) ensures r@ == rln(self@) { unimplemented!() }
  #[verifier::external_body] pub fn exp(self) -> (r: Real32) ensures r@ == rexp(self@) { unimplemented!() }
  #[verifier::external_body] pub fn log(self, b: Real32) -> (r: Real32) ensures r@ == rlog(self@, b@) { unimplemented!() }
  #[verifier::external_body] pub fn floor(self) -> (r: Real32) ensures r@ == rfloor(self@) as real { unimplemented!() }
  #[verifier::external_body] pub fn ceil(self) -> (r: Real32) ensures r@ == rceil(self@) as real { unimplemented!() }
  #[verifier::external_body] pub fn is_nan(self) -> (r: bool) ensures !r { unimplemented!() }
  #[verifier::external_body] pub fn default() -> (r: Real32) ensures r@ == 0real { unimplemented!() }
}
#[verifier::external_body] pub fn rlit(n: u64, d: u64) -> (r: Real32) ensures r@ == (n as int) as real / ((d as int) as real) { unimplemented!() }
#[verifier::external_body] pub fn f32_MAX() -> (r: Real32) ensures r@ == rfmax() { unimplemented!() }
#[verifier::external_body] pub fn f32_MIN() -> (r: Real32) ensures r@ == -rfmax() { unimplemented!() }
#[verifier::external_body] pub fn f32_EPSILON() -> (r: Real32) ensures r@ == reps() { unimplemented!() }
#[verifier::external_body] pub fn f32_PI() -> (r: Real32) ensures r@ == rpi() { unimplemented!() }
#[verifier::external_body] pub fn f64_PI() -> (r: Real32) ensures r@ == rpi() { unimplemented!() }
#[verifier::external_body] pub fn f64_EPSILON() -> (r: Real32) ensures r@ == reps() { unimplemented!() }
#[verifier::external_body] pub fn f64_MAX() -> (r: Real32) ensures r@ == rfmax() { unimplemented!() }
#[verifier::external_body] pub fn f64_MIN() -> (r: Real32) ensures r@ == -(rfmax()) { unimplemented!() }
pub trait ToReal: Sized { spec fn as_real(self) -> real; fn to_real_(self) -> (r: Real32) ensures r@ == self.as_real(); }
pub fn to_real<T: ToReal>(x: T) -> (r: Real32) ensures r@ == x.as_real() { x.to_real_() }

impl ToReal for usize { open spec fn as_real(self) -> real { (self as int) as real } #[verifier::external_body] fn to_real_(self) -> (r: Real32) { unimplemented!() } }
impl ToReal for u64 { open spec fn as_real(self) -> real { (self as int) as real } #[verifier::external_body] fn to_real_(self) -> (r: Real32) { unimplemented!() } }
impl ToReal for u32 { open spec fn as_real(self) -> real { (self as int) as real } #[verifier::external_body] fn to_real_(self) -> (r: Real32) { unimplemented!() } }
impl ToReal for i32 { open spec fn as_real(self) -> real { (self as int) as real } #[verifier::external_body] fn to_real_(self) -> (r: Real32) { unimplemented!() } }
impl ToReal for i64 { open spec fn as_real(self) -> real { (self as int) as real } #[verifier::external_body] fn to_real_(self) -> (r: Real32) { unimplemented!() } }
impl ToReal for u8 { open spec fn as_real(self) -> real { (self as int) as real } #[verifier::external_body] fn to_real_(self) -> (r: Real32) { unimplemented!() } }
impl ToReal for i8 { open spec fn as_real(self) -> real { (self as int) as real } #[verifier::external_body] fn to_real_(self) -> (r: Real32) { unimplemented!() } }
impl ToReal for u16 { open spec fn as_real(self) -> real { (self as int) as real } #[verifier::external_body] fn to_real_(self) -> (r: Real32) { unimplemented!() } }
impl ToReal for i16 { open spec fn as_real(self) -> real { (self as int) as real } #[verifier::external_body] fn to_real_(self) -> (r: Real32) { unimplemented!() } }
impl ToReal for isize { open spec fn as_real(self) -> real { (self as int) as real } #[verifier::external_body] fn to_real_(self) -> (r: Real32) { unimplemented!() } }
impl ToReal for Real32 { open spec fn as_real(self) -> real { self@ } fn to_real_(self) -> (r: Real32) { self } }
// accumulators of iterator sums
pub trait VAcc: Sized { spec fn zero_spec() -> Self; fn zero() -> (r: Self) ensures r == Self::zero_spec(); }
pub fn vzero<T: VAcc>() -> (r: T) ensures r == T::zero_spec() { T::zero() }
pub trait VAdd<R>: Sized { spec fn vadd_req(self, o: R) -> bool; spec fn vadd_ok(self, o: R, r: Self) -> bool; fn vadd_(self, o: R) -> (r: Self) requires self.vadd_req(o) ensures self.vadd_ok(o, r); }
pub fn vadd<T: VAdd<R>, R>(a: T, b: R) -> (r: T) requires a.vadd_req(b) ensures a.vadd_ok(b, r) { a.vadd_(b) }
impl VAcc for Real32 { open spec fn zero_spec() -> Real32 { mkr(0real) } #[verifier::external_body] fn zero() -> Real32 { unimplemented!() } }
impl VAdd<Real32> for Real32 { open spec fn vadd_req(self, o: Real32) -> bool { true } open spec fn vadd_ok(self, o: Real32, r: Real32) -> bool { r@ == self@ + o@ } #[verifier::external_body] fn vadd_(self, o: Real32) -> Real32 { unimplemented!() } }
impl<'a> VAdd<&'a Real32> for Real32 { open spec fn vadd_req(self, o: &'a Real32) -> bool { true } open spec fn vadd_ok(self, o: &'a Real32, r: Real32) -> bool { r@ == self@ + o@ } #[verifier::external_body] fn vadd_(self, o: &'a Real32) -> Real32 { unimplemented!() } }

impl VAcc for usize { open spec fn zero_spec() -> usize { 0 } fn zero() -> usize { 0 } }
impl VAdd<usize> for usize { open spec fn vadd_req(self, o: usize) -> bool { usize::MIN <= self + o <= usize::MAX } open spec fn vadd_ok(self, o: usize, r: usize) -> bool { r == self + o } fn vadd_(self, o: usize) -> usize { self + o } }
impl<'a> VAdd<&'a usize> for usize { open spec fn vadd_req(self, o: &'a usize) -> bool { usize::MIN <= self + *o <= usize::MAX } open spec fn vadd_ok(self, o: &'a usize, r: usize) -> bool { r == self + *o } fn vadd_(self, o: &'a usize) -> usize { self + *o } }
impl VAcc for u64 { open spec fn zero_spec() -> u64 { 0 } fn zero() -> u64 { 0 } }
impl VAdd<u64> for u64 { open spec fn vadd_req(self, o: u64) -> bool { u64::MIN <= self + o <= u64::MAX } open spec fn vadd_ok(self, o: u64, r: u64) -> bool { r == self + o } fn vadd_(self, o: u64) -> u64 { self + o } }
impl<'a> VAdd<&'a u64> for u64 { open spec fn vadd_req(self, o: &'a u64) -> bool { u64::MIN <= self + *o <= u64::MAX } open spec fn vadd_ok(self, o: &'a u64, r: u64) -> bool { r == self + *o } fn vadd_(self, o: &'a u64) -> u64 { self + *o } }
impl VAcc for u32 { open spec fn zero_spec() -> u32 { 0 } fn zero() -> u32 { 0 } }
impl VAdd<u32> for u32 { open spec fn vadd_req(self, o: u32) -> bool { u32::MIN <= self + o <= u32::MAX } open spec fn vadd_ok(self, o: u32, r: u32) -> bool { r == self + o } fn vadd_(self, o: u32) -> u32 { self + o } }
impl<'a> VAdd<&'a u32> for u32 { open spec fn vadd_req(self, o: &'a u32) -> bool { u32::MIN <= self + *o <= u32::MAX } open spec fn vadd_ok(self, o: &'a u32, r: u32) -> bool { r == self + *o } fn vadd_(self, o: &'a u32) -> u32 { self + *o } }
impl VAcc for i64 { open spec fn zero_spec() -> i64 { 0 } fn zero() -> i64 { 0 } }
impl VAdd<i64> for i64 { open spec fn vadd_req(self, o: i64) -> bool { i64::MIN <= self + o <= i64::MAX } open spec fn vadd_ok(self, o: i64, r: i64) -> bool { r == self + o } fn vadd_(self, o: i64) -> i64 { self + o } }
impl<'a> VAdd<&'a i64> for i64 { open spec fn vadd_req(self, o: &'a i64) -> bool { i64::MIN <= self + *o <= i64::MAX } open spec fn vadd_ok(self, o: &'a i64, r: i64) -> bool { r == self + *o } fn vadd_(self, o: &'a i64) -> i64 { self + *o } }
impl VAcc for i32 { open spec fn zero_spec() -> i32 { 0 } fn zero() -> i32 { 0 } }
impl VAdd<i32> for i32 { open spec fn vadd_req(self, o: i32) -> bool { i32::MIN <= self + o <= i32::MAX } open spec fn vadd_ok(self, o: i32, r: i32) -> bool { r == self + o } fn vadd_(self, o: i32) -> i32 { self + o } }
impl<'a> VAdd<&'a i32> for i32 { open spec fn vadd_req(self, o: &'a i32) -> bool { i32::MIN <= self + *o <= i32::MAX } open spec fn vadd_ok(self, o: &'a i32, r: i32) -> bool { r == self + *o } fn vadd_(self, o: &'a i32) -> i32 { self + *o } }
} // mod fl
pub use fl::*;
pub use core::cmp::Ordering;
pub type f32 = Real32;
pub type f64 = Real32;
// ---------------------------------------------------------------- macros of the code as obligations
pub fn vclone<T: Copy>(x: &T) -> (r: T) ensures r == *x { *x }
pub fn vassert(b: bool) requires b ensures b { }
#[verifier::external_body] pub fn vpanic() -> (r: !) requires false { unimplemented!() }
pub trait VText: Sized { fn opaque() -> (r: Self); }
impl VText for String { #[verifier::external_body] fn opaque() -> (r: String) { unimplemented!() } }
pub fn vformat<T: VText>() -> (r: T) { T::opaque() }
#[verifier::external_body] pub fn vec_repeat<T: Copy>(x: T, n: usize) -> (r: Vec<T>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == x { unimplemented!() }

