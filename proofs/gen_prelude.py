# Generates prelude.vrs (the shared, trusted vocabulary of every proof unit).
ops=[('Add','add','+'),('Sub','sub','-'),('Mul','mul','*'),('Div','div','/')]
o=[]
w=o.append
w('''#![allow(non_camel_case_types)]
#![allow(unused_imports, unused_variables, unused_mut, dead_code, non_snake_case, unused_parens, unused_braces, unused_assignments, unused_must_use)]
use vstd::prelude::*;
verus! {
// ---------------------------------------------------------------- floats read as reals (TRUSTED)
pub mod fl {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
use core::cmp::Ordering;
use core::ops::*;
#[verifier::external_body]
pub struct Real32 { x: core::primitive::f32 }
impl Real32 { pub uninterp spec fn view(&self) -> real; }
pub open spec fn rcmp(a: real, b: real) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
pub uninterp spec fn mkr(r: real) -> Real32;
pub broadcast axiom fn ax_mk(r: real) ensures (#[trigger] mkr(r))@ == r;
pub broadcast axiom fn ax_mk2(r: Real32) ensures mkr(#[trigger] r@) == r;
impl Clone for Real32 { #[verifier::external_body] fn clone(&self) -> (r: Real32) ensures r == *self { unimplemented!() } }
impl Copy for Real32 {}
''')
for T,f,s in ops:
    for L,R in [('Real32','Real32'),('Real32',"&'a Real32"),("&'a Real32",'Real32'),("&'a Real32","&'b Real32")]:
        g=[]
        if "'a" in L+R: g.append("'a")
        if "'b" in L+R: g.append("'b")
        g='<'+','.join(g)+'>' if g else ''
        w(f'''impl{g} {T}SpecImpl<{R}> for {L} {{
  open spec fn obeys_{f}_spec() -> bool {{ true }}
  open spec fn {f}_req(self, o: {R}) -> bool {{ true }}
  open spec fn {f}_spec(self, o: {R}) -> Real32 {{ mkr(self@ {s} o@) }}
}}
impl{g} {T}<{R}> for {L} {{ type Output = Real32; #[verifier::external_body] fn {f}(self, o: {R}) -> (r: Real32) {{ unimplemented!() }} }}
''')
w('''impl NegSpecImpl for Real32 {
  open spec fn obeys_neg_spec() -> bool { true }
  open spec fn neg_req(self) -> bool { true }
  open spec fn neg_spec(self) -> Real32 { mkr(-self@) }
}
impl Neg for Real32 { type Output = Real32; #[verifier::external_body] fn neg(self) -> (r: Real32) { unimplemented!() } }
impl PartialEqSpecImpl<Real32> for Real32 {
  open spec fn obeys_eq_spec() -> bool { true }
  open spec fn eq_spec(&self, o: &Real32) -> bool { self@ == o@ }
}
impl PartialEq for Real32 { #[verifier::external_body] fn eq(&self, o: &Real32) -> bool { unimplemented!() } }
impl PartialOrdSpecImpl<Real32> for Real32 {
  open spec fn obeys_partial_cmp_spec() -> bool { true }
  open spec fn partial_cmp_spec(&self, o: &Real32) -> Option<Ordering> { Some(rcmp(self@, o@)) }
}
impl PartialOrd for Real32 { #[verifier::external_body] fn partial_cmp(&self, o: &Real32) -> Option<Ordering> { unimplemented!() } }
pub open spec fn rmax(a: real, b: real) -> real { if a >= b { a } else { b } }
pub open spec fn rmin(a: real, b: real) -> real { if a <= b { a } else { b } }
pub open spec fn rabs(a: real) -> real { if a >= 0real { a } else { -a } }
pub uninterp spec fn rpowi(b: real, e: int) -> real;
pub uninterp spec fn rsqrt(a: real) -> real;
pub uninterp spec fn rln(a: real) -> real;
pub uninterp spec fn rexp(a: real) -> real;
pub uninterp spec fn rlog(a: real, b: real) -> real;
pub uninterp spec fn rfloor(a: real) -> int;
pub uninterp spec fn rceil(a: real) -> int;
pub uninterp spec fn rfmax() -> real;
pub uninterp spec fn rpi() -> real;
pub uninterp spec fn reps() -> real;
pub uninterp spec fn rgamma(a: real) -> real;   // ln Gamma
pub uninterp spec fn rdigamma(a: real) -> real;
pub broadcast axiom fn ax_pos_powi(b: real, e: int) ensures b > 0real ==> #[trigger] rpowi(b, e) > 0real;
pub broadcast axiom fn ax_sqrt(a: real) ensures a >= 0real ==> (#[trigger] rsqrt(a)) >= 0real && rsqrt(a) * rsqrt(a) == a;
pub axiom fn ax_fmax() ensures rfmax() > 0real;
impl Real32 {
  #[verifier::external_body] pub fn max(self, o: Real32) -> (r: Real32) ensures r@ == rmax(self@, o@) { unimplemented!() }
  #[verifier::external_body] pub fn min(self, o: Real32) -> (r: Real32) ensures r@ == rmin(self@, o@) { unimplemented!() }
  #[verifier::external_body] pub fn abs(self) -> (r: Real32) ensures r@ == rabs(self@) { unimplemented!() }
  #[verifier::external_body] pub fn powi(self, e: i32) -> (r: Real32) ensures r@ == rpowi(self@, e as int) { unimplemented!() }
  #[verifier::external_body] pub fn sqrt(self) -> (r: Real32) ensures r@ == rsqrt(self@) { unimplemented!() }
  #[verifier::external_body] pub fn ln(self) -> (r: Real32) ensures r@ == rln(self@) { unimplemented!() }
  #[verifier::external_body] pub fn exp(self) -> (r: Real32) ensures r@ == rexp(self@) { unimplemented!() }
  #[verifier::external_body] pub fn log(self, b: Real32) -> (r: Real32) ensures r@ == rlog(self@, b@) { unimplemented!() }
  #[verifier::external_body] pub fn floor(self) -> (r: Real32) ensures r@ == rfloor(self@) as real { unimplemented!() }
  #[verifier::external_body] pub fn ceil(self) -> (r: Real32) ensures r@ == rceil(self@) as real { unimplemented!() }
  #[verifier::external_body] pub fn is_nan(self) -> (r: bool) ensures !r { unimplemented!() }
  #[verifier::external_body] pub fn default() -> (r: Real32) ensures r@ == 0real { unimplemented!() }
}
#[verifier::external_body] pub fn rlit(n: u64, d: u64) -> (r: Real32) ensures r@ == (n as int) as real / ((d as int) as real) { unimplemented!() }
#[verifier::external_body] pub fn f32_MAX() -> (r: Real32) ensures r@ == rfmax() { unimplemented!() }
#[verifier::external_body] pub fn f32_MIN() -> (r: Real32) ensures r@ == -rfmax() { unimplemented!() }
#[verifier::external_body] pub fn f32_EPSILON() -> (r: Real32) ensures r@ == reps() { unimplemented!() }
#[verifier::external_body] pub fn f32_PI() -> (r: Real32) ensures r@ == rpi() { unimplemented!() }
#[verifier::external_body] pub fn f64_PI() -> (r: Real32) ensures r@ == rpi() { unimplemented!() }
#[verifier::external_body] pub fn f64_EPSILON() -> (r: Real32) ensures r@ == reps() { unimplemented!() }
#[verifier::external_body] pub fn f64_MAX() -> (r: Real32) ensures r@ == rfmax() { unimplemented!() }
pub trait ToReal: Sized { spec fn as_real(self) -> real; fn to_real_(self) -> (r: Real32) ensures r@ == self.as_real(); }
pub fn to_real<T: ToReal>(x: T) -> (r: Real32) ensures r@ == x.as_real() { x.to_real_() }
''')
for t in ['usize','u64','u32','i32','i64','u8','i8','u16','i16','isize']:
    w(f'''impl ToReal for {t} {{ open spec fn as_real(self) -> real {{ (self as int) as real }} #[verifier::external_body] fn to_real_(self) -> (r: Real32) {{ unimplemented!() }} }}''')
w('''impl ToReal for Real32 { open spec fn as_real(self) -> real { self@ } fn to_real_(self) -> (r: Real32) { self } }
// accumulators of iterator sums
pub trait VAcc: Sized { spec fn zero_spec() -> Self; fn zero() -> (r: Self) ensures r == Self::zero_spec(); }
pub fn vzero<T: VAcc>() -> (r: T) ensures r == T::zero_spec() { T::zero() }
pub trait VAdd<R>: Sized { spec fn vadd_req(self, o: R) -> bool; spec fn vadd_ok(self, o: R, r: Self) -> bool; fn vadd_(self, o: R) -> (r: Self) requires self.vadd_req(o) ensures self.vadd_ok(o, r); }
pub fn vadd<T: VAdd<R>, R>(a: T, b: R) -> (r: T) requires a.vadd_req(b) ensures a.vadd_ok(b, r) { a.vadd_(b) }
impl VAcc for Real32 { open spec fn zero_spec() -> Real32 { mkr(0real) } #[verifier::external_body] fn zero() -> Real32 { unimplemented!() } }
impl VAdd<Real32> for Real32 { open spec fn vadd_req(self, o: Real32) -> bool { true } open spec fn vadd_ok(self, o: Real32, r: Real32) -> bool { r@ == self@ + o@ } #[verifier::external_body] fn vadd_(self, o: Real32) -> Real32 { unimplemented!() } }
impl<'a> VAdd<&'a Real32> for Real32 { open spec fn vadd_req(self, o: &'a Real32) -> bool { true } open spec fn vadd_ok(self, o: &'a Real32, r: Real32) -> bool { r@ == self@ + o@ } #[verifier::external_body] fn vadd_(self, o: &'a Real32) -> Real32 { unimplemented!() } }
''')
for t in ['usize','u64','u32','i64','i32']:
    w(f'''impl VAcc for {t} {{ open spec fn zero_spec() -> {t} {{ 0 }} fn zero() -> {t} {{ 0 }} }}
impl VAdd<{t}> for {t} {{ open spec fn vadd_req(self, o: {t}) -> bool {{ {t}::MIN <= self + o <= {t}::MAX }} open spec fn vadd_ok(self, o: {t}, r: {t}) -> bool {{ r == self + o }} fn vadd_(self, o: {t}) -> {t} {{ self + o }} }}
impl<'a> VAdd<&'a {t}> for {t} {{ open spec fn vadd_req(self, o: &'a {t}) -> bool {{ {t}::MIN <= self + *o <= {t}::MAX }} open spec fn vadd_ok(self, o: &'a {t}, r: {t}) -> bool {{ r == self + *o }} fn vadd_(self, o: &'a {t}) -> {t} {{ self + *o }} }}''')
w('''} // mod fl
pub use fl::*;
pub use core::cmp::Ordering;
pub type f32 = Real32;
pub type f64 = Real32;
// ---------------------------------------------------------------- macros of the code as obligations
pub fn vclone<T: Copy>(x: &T) -> (r: T) ensures r == *x { *x }
pub fn vassert(b: bool) requires b ensures b { }
#[verifier::external_body] pub fn vpanic() -> (r: !) requires false { unimplemented!() }
pub trait VText: Sized { fn opaque() -> (r: Self); }
impl VText for String { #[verifier::external_body] fn opaque() -> (r: String) { unimplemented!() } }
pub fn vformat<T: VText>() -> (r: T) { T::opaque() }
#[verifier::external_body] pub fn vec_repeat<T: Copy>(x: T, n: usize) -> (r: Vec<T>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == x { unimplemented!() }
''')
open('prelude.vrs','w').write('\n'.join(o)+'\n')
