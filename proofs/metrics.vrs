//@ include prelude.vrs
// =====================================================================================
// UNIT metrics: L1 and L2 on dense and sparse vectors
// =====================================================================================
//@ gsubst < S > => 
//@ gsubst where S : Ord, => 
//@ gsubst where S : Ord => 
//@ gsubst S => u32
use vstd::std_specs::iter::IteratorSpec;
broadcast use {fl::ax_mk, fl::ax_mk2, simd::ax_mk16, simd::ax_mk8};
// ---- packed_simd (TRUSTED): lanes as a sequence of reals, lane-wise arithmetic
pub mod simd {
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use super::*;

#[verifier::external_body] pub struct f32x16 { x: usize }
impl Clone for f32x16 { #[verifier::external_body] fn clone(&self) -> (r: f32x16) ensures r == *self { unimplemented!() } }
impl Copy for f32x16 {}
impl f32x16 {
  pub uninterp spec fn view(&self) -> Seq<real>;
  #[verifier::external_body] pub fn splat(x: f32) -> (r: f32x16) ensures r@ == Seq::new(16, |i: int| x@) { unimplemented!() }
  #[verifier::external_body] pub fn from_slice_unaligned(x: &[f32]) -> (r: f32x16) requires x@.len() >= 16 ensures r@ == Seq::new(16, |i: int| x@[i]@) { unimplemented!() }
  #[verifier::external_body] pub fn abs(self) -> (r: f32x16) ensures r@ == Seq::new(16, |i: int| rabs(self@[i])) { unimplemented!() }
  #[verifier::external_body] pub fn sum(self) -> (r: f32) ensures r@ == rsum(self@) { unimplemented!() }
  #[verifier::external_body] pub fn from_cast<V: Lanes16>(x: V) -> (r: f32x16) ensures r@ == x.lanes() { unimplemented!() }
}
pub uninterp spec fn mk16(s: Seq<real>) -> f32x16;
pub broadcast axiom fn ax_mk16(s: Seq<real>) ensures (#[trigger] mk16(s))@ == s;
pub trait Lanes16 { spec fn lanes(&self) -> Seq<real>; }

impl AddSpecImpl<f32x16> for f32x16 { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, o: f32x16) -> bool { true } open spec fn add_spec(self, o: f32x16) -> f32x16 { mk16(Seq::new(16, |i: int| self@[i] + o@[i])) } }
impl core::ops::Add<f32x16> for f32x16 { type Output = f32x16; #[verifier::external_body] fn add(self, o: f32x16) -> (r: f32x16) { unimplemented!() } }
impl SubSpecImpl<f32x16> for f32x16 { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, o: f32x16) -> bool { true } open spec fn sub_spec(self, o: f32x16) -> f32x16 { mk16(Seq::new(16, |i: int| self@[i] - o@[i])) } }
impl core::ops::Sub<f32x16> for f32x16 { type Output = f32x16; #[verifier::external_body] fn sub(self, o: f32x16) -> (r: f32x16) { unimplemented!() } }
impl MulSpecImpl<f32x16> for f32x16 { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, o: f32x16) -> bool { true } open spec fn mul_spec(self, o: f32x16) -> f32x16 { mk16(Seq::new(16, |i: int| self@[i] * o@[i])) } }
impl core::ops::Mul<f32x16> for f32x16 { type Output = f32x16; #[verifier::external_body] fn mul(self, o: f32x16) -> (r: f32x16) { unimplemented!() } }
#[verifier::external_body] pub struct i8x16 { x: usize }
impl i8x16 { pub uninterp spec fn view(&self) -> Seq<i8>;
  #[verifier::external_body] pub fn from_slice_unaligned(x: &[i8]) -> (r: i8x16) requires x@.len() >= 16 ensures r@ == Seq::new(16, |i: int| x@[i]) { unimplemented!() } }
impl Lanes16 for i8x16 { open spec fn lanes(&self) -> Seq<real> { Seq::new(16, |i: int| self@[i].as_real()) } }
#[verifier::external_body] pub struct u8x16 { x: usize }
impl u8x16 { pub uninterp spec fn view(&self) -> Seq<u8>;
  #[verifier::external_body] pub fn from_slice_unaligned(x: &[u8]) -> (r: u8x16) requires x@.len() >= 16 ensures r@ == Seq::new(16, |i: int| x@[i]) { unimplemented!() } }
impl Lanes16 for u8x16 { open spec fn lanes(&self) -> Seq<real> { Seq::new(16, |i: int| self@[i].as_real()) } }
#[verifier::external_body] pub struct i16x16 { x: usize }
impl i16x16 { pub uninterp spec fn view(&self) -> Seq<i16>;
  #[verifier::external_body] pub fn from_slice_unaligned(x: &[i16]) -> (r: i16x16) requires x@.len() >= 16 ensures r@ == Seq::new(16, |i: int| x@[i]) { unimplemented!() } }
impl Lanes16 for i16x16 { open spec fn lanes(&self) -> Seq<real> { Seq::new(16, |i: int| self@[i].as_real()) } }
#[verifier::external_body] pub struct u16x16 { x: usize }
impl u16x16 { pub uninterp spec fn view(&self) -> Seq<u16>;
  #[verifier::external_body] pub fn from_slice_unaligned(x: &[u16]) -> (r: u16x16) requires x@.len() >= 16 ensures r@ == Seq::new(16, |i: int| x@[i]) { unimplemented!() } }
impl Lanes16 for u16x16 { open spec fn lanes(&self) -> Seq<real> { Seq::new(16, |i: int| self@[i].as_real()) } }
#[verifier::external_body] pub struct i32x16 { x: usize }
impl i32x16 { pub uninterp spec fn view(&self) -> Seq<i32>;
  #[verifier::external_body] pub fn from_slice_unaligned(x: &[i32]) -> (r: i32x16) requires x@.len() >= 16 ensures r@ == Seq::new(16, |i: int| x@[i]) { unimplemented!() } }
impl Lanes16 for i32x16 { open spec fn lanes(&self) -> Seq<real> { Seq::new(16, |i: int| self@[i].as_real()) } }
#[verifier::external_body] pub struct u32x16 { x: usize }
impl u32x16 { pub uninterp spec fn view(&self) -> Seq<u32>;
  #[verifier::external_body] pub fn from_slice_unaligned(x: &[u32]) -> (r: u32x16) requires x@.len() >= 16 ensures r@ == Seq::new(16, |i: int| x@[i]) { unimplemented!() } }
impl Lanes16 for u32x16 { open spec fn lanes(&self) -> Seq<real> { Seq::new(16, |i: int| self@[i].as_real()) } }
#[verifier::external_body] pub struct f32x8 { x: usize }
impl Clone for f32x8 { #[verifier::external_body] fn clone(&self) -> (r: f32x8) ensures r == *self { unimplemented!() } }
impl Copy for f32x8 {}
impl f32x8 {
  pub uninterp spec fn view(&self) -> Seq<real>;
  #[verifier::external_body] pub fn splat(x: f32) -> (r: f32x8) ensures r@ == Seq::new(8, |i: int| x@) { unimplemented!() }
  #[verifier::external_body] pub fn from_slice_unaligned(x: &[f32]) -> (r: f32x8) requires x@.len() >= 8 ensures r@ == Seq::new(8, |i: int| x@[i]@) { unimplemented!() }
  #[verifier::external_body] pub fn abs(self) -> (r: f32x8) ensures r@ == Seq::new(8, |i: int| rabs(self@[i])) { unimplemented!() }
  #[verifier::external_body] pub fn sum(self) -> (r: f32) ensures r@ == rsum(self@) { unimplemented!() }
  #[verifier::external_body] pub fn from_cast<V: Lanes8>(x: V) -> (r: f32x8) ensures r@ == x.lanes() { unimplemented!() }
}
pub uninterp spec fn mk8(s: Seq<real>) -> f32x8;
pub broadcast axiom fn ax_mk8(s: Seq<real>) ensures (#[trigger] mk8(s))@ == s;
pub trait Lanes8 { spec fn lanes(&self) -> Seq<real>; }

impl AddSpecImpl<f32x8> for f32x8 { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, o: f32x8) -> bool { true } open spec fn add_spec(self, o: f32x8) -> f32x8 { mk8(Seq::new(8, |i: int| self@[i] + o@[i])) } }
impl core::ops::Add<f32x8> for f32x8 { type Output = f32x8; #[verifier::external_body] fn add(self, o: f32x8) -> (r: f32x8) { unimplemented!() } }
impl SubSpecImpl<f32x8> for f32x8 { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, o: f32x8) -> bool { true } open spec fn sub_spec(self, o: f32x8) -> f32x8 { mk8(Seq::new(8, |i: int| self@[i] - o@[i])) } }
impl core::ops::Sub<f32x8> for f32x8 { type Output = f32x8; #[verifier::external_body] fn sub(self, o: f32x8) -> (r: f32x8) { unimplemented!() } }
impl MulSpecImpl<f32x8> for f32x8 { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, o: f32x8) -> bool { true } open spec fn mul_spec(self, o: f32x8) -> f32x8 { mk8(Seq::new(8, |i: int| self@[i] * o@[i])) } }
impl core::ops::Mul<f32x8> for f32x8 { type Output = f32x8; #[verifier::external_body] fn mul(self, o: f32x8) -> (r: f32x8) { unimplemented!() } }
#[verifier::external_body] pub struct i8x8 { x: usize }
impl i8x8 { pub uninterp spec fn view(&self) -> Seq<i8>;
  #[verifier::external_body] pub fn from_slice_unaligned(x: &[i8]) -> (r: i8x8) requires x@.len() >= 8 ensures r@ == Seq::new(8, |i: int| x@[i]) { unimplemented!() } }
impl Lanes8 for i8x8 { open spec fn lanes(&self) -> Seq<real> { Seq::new(8, |i: int| self@[i].as_real()) } }
#[verifier::external_body] pub struct u8x8 { x: usize }
impl u8x8 { pub uninterp spec fn view(&self) -> Seq<u8>;
  #[verifier::external_body] pub fn from_slice_unaligned(x: &[u8]) -> (r: u8x8) requires x@.len() >= 8 ensures r@ == Seq::new(8, |i: int| x@[i]) { unimplemented!() } }
impl Lanes8 for u8x8 { open spec fn lanes(&self) -> Seq<real> { Seq::new(8, |i: int| self@[i].as_real()) } }
#[verifier::external_body] pub struct i16x8 { x: usize }
impl i16x8 { pub uninterp spec fn view(&self) -> Seq<i16>;
  #[verifier::external_body] pub fn from_slice_unaligned(x: &[i16]) -> (r: i16x8) requires x@.len() >= 8 ensures r@ == Seq::new(8, |i: int| x@[i]) { unimplemented!() } }
impl Lanes8 for i16x8 { open spec fn lanes(&self) -> Seq<real> { Seq::new(8, |i: int| self@[i].as_real()) } }
#[verifier::external_body] pub struct u16x8 { x: usize }
impl u16x8 { pub uninterp spec fn view(&self) -> Seq<u16>;
  #[verifier::external_body] pub fn from_slice_unaligned(x: &[u16]) -> (r: u16x8) requires x@.len() >= 8 ensures r@ == Seq::new(8, |i: int| x@[i]) { unimplemented!() } }
impl Lanes8 for u16x8 { open spec fn lanes(&self) -> Seq<real> { Seq::new(8, |i: int| self@[i].as_real()) } }
#[verifier::external_body] pub struct i32x8 { x: usize }
impl i32x8 { pub uninterp spec fn view(&self) -> Seq<i32>;
  #[verifier::external_body] pub fn from_slice_unaligned(x: &[i32]) -> (r: i32x8) requires x@.len() >= 8 ensures r@ == Seq::new(8, |i: int| x@[i]) { unimplemented!() } }
impl Lanes8 for i32x8 { open spec fn lanes(&self) -> Seq<real> { Seq::new(8, |i: int| self@[i].as_real()) } }
#[verifier::external_body] pub struct u32x8 { x: usize }
impl u32x8 { pub uninterp spec fn view(&self) -> Seq<u32>;
  #[verifier::external_body] pub fn from_slice_unaligned(x: &[u32]) -> (r: u32x8) requires x@.len() >= 8 ensures r@ == Seq::new(8, |i: int| x@[i]) { unimplemented!() } }
impl Lanes8 for u32x8 { open spec fn lanes(&self) -> Seq<real> { Seq::new(8, |i: int| self@[i].as_real()) } }
} // mod simd
pub use simd::*;

pub open spec fn rsum(s: Seq<real>) -> real decreases s.len() { if s.len() == 0 { 0real } else { rsum(s.drop_last()) + s.last() } }
/// one coordinate's contribution: l = 1 absolute difference, l = 2 squared difference
pub open spec fn term(l: int, a: real, b: real) -> real { if l == 1 { rabs(a - b) } else { (a - b) * (a - b) } }
/// the distance sum of two equally long vectors
pub open spec fn dsum<T: ToReal>(l: int, x: Seq<T>, y: Seq<T>) -> real decreases x.len() { if x.len() == 0 { 0real } else { dsum(l, x.drop_last(), y.drop_last()) + term(l, x.last().as_real(), y.last().as_real()) } }
/// the distance sum to the origin
pub open spec fn nsum<T: ToReal>(l: int, x: Seq<T>) -> real decreases x.len() { if x.len() == 0 { 0real } else { nsum(l, x.drop_last()) + term(l, x.last().as_real(), 0real) } }
pub proof fn lemma_square(l: int, a: real, b: real) ensures term(l, a, b) == term(l, b, a), term(l, a, b) >= 0real, term(l, a, a) == 0real
{ assert((a - b) * (a - b) == (b - a) * (b - a)) by (nonlinear_arith); assert((a - b) * (a - b) >= 0real) by (nonlinear_arith); assert((a - a) * (a - a) == 0real) by (nonlinear_arith); }
pub proof fn lemma_dsplit<T: ToReal>(l: int, x: Seq<T>, y: Seq<T>, k: int)
    requires 0 <= k <= x.len(), x.len() == y.len()
    ensures dsum(l, x, y) == dsum(l, x.take(k), y.take(k)) + dsum(l, x.skip(k), y.skip(k))
    decreases x.len() - k
{
    if k == x.len() { assert(x.take(k) =~= x); assert(y.take(k) =~= y); assert(x.skip(k).len() == 0); }
    else {
        lemma_dsplit(l, x.drop_last(), y.drop_last(), k);
        assert(x.drop_last().take(k) =~= x.take(k)); assert(y.drop_last().take(k) =~= y.take(k));
        assert(x.drop_last().skip(k) =~= x.skip(k).drop_last()); assert(y.drop_last().skip(k) =~= y.skip(k).drop_last());
    }
}
pub proof fn lemma_nsplit<T: ToReal>(l: int, x: Seq<T>, k: int)
    requires 0 <= k <= x.len()
    ensures nsum(l, x) == nsum(l, x.take(k)) + nsum(l, x.skip(k))
    decreases x.len() - k
{
    if k == x.len() { assert(x.take(k) =~= x); assert(x.skip(k).len() == 0); }
    else { lemma_nsplit(l, x.drop_last(), k); assert(x.drop_last().take(k) =~= x.take(k)); assert(x.drop_last().skip(k) =~= x.skip(k).drop_last()); }
}
pub proof fn lemma_rsum_add(a: Seq<real>, b: Seq<real>, c: Seq<real>)
    requires a.len() == b.len() == c.len(), forall|i: int| 0 <= i < a.len() ==> #[trigger] c[i] == a[i] + b[i]
    ensures rsum(c) == rsum(a) + rsum(b)
    decreases a.len()
{ if a.len() > 0 { lemma_rsum_add(a.drop_last(), b.drop_last(), c.drop_last()); } }
pub proof fn lemma_rsum_zero(a: Seq<real>)
    requires forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] == 0real
    ensures rsum(a) == 0real
    decreases a.len()
{ if a.len() > 0 { lemma_rsum_zero(a.drop_last()); } }
pub proof fn lemma_dchunk<T: ToReal>(l: int, x: Seq<T>, y: Seq<T>, c: Seq<real>)
    requires x.len() == y.len() == c.len(), forall|i: int| 0 <= i < c.len() ==> #[trigger] c[i] == term(l, x[i].as_real(), y[i].as_real())
    ensures rsum(c) == dsum(l, x, y)
    decreases x.len()
{ if x.len() > 0 { lemma_dchunk(l, x.drop_last(), y.drop_last(), c.drop_last()); } }
pub proof fn lemma_nchunk<T: ToReal>(l: int, x: Seq<T>, c: Seq<real>)
    requires x.len() == c.len(), forall|i: int| 0 <= i < c.len() ==> #[trigger] c[i] == term(l, x[i].as_real(), 0real)
    ensures rsum(c) == nsum(l, x)
    decreases x.len()
{ if x.len() > 0 { lemma_nchunk(l, x.drop_last(), c.drop_last()); } }
/// one SIMD step: the accumulator takes the first n terms
pub proof fn lemma_dstep<T: ToReal>(l: int, x: Seq<T>, y: Seq<T>, n: int, a: Seq<real>, b: Seq<real>)
    requires 0 <= n <= x.len(), x.len() == y.len(), a.len() == n, b.len() == n,
        forall|i: int| 0 <= i < n ==> #[trigger] b[i] == a[i] + term(l, x[i].as_real(), y[i].as_real()),
    ensures rsum(b) + dsum(l, x.skip(n), y.skip(n)) == rsum(a) + dsum(l, x, y)
{
    let c = Seq::new(n as nat, |i: int| term(l, x[i].as_real(), y[i].as_real()));
    lemma_rsum_add(a, c, b); lemma_dchunk(l, x.take(n), y.take(n), c); lemma_dsplit(l, x, y, n);
}
pub proof fn lemma_nstep<T: ToReal>(l: int, x: Seq<T>, n: int, a: Seq<real>, b: Seq<real>)
    requires 0 <= n <= x.len(), a.len() == n, b.len() == n,
        forall|i: int| 0 <= i < n ==> #[trigger] b[i] == a[i] + term(l, x[i].as_real(), 0real),
    ensures rsum(b) + nsum(l, x.skip(n)) == rsum(a) + nsum(l, x)
{
    let c = Seq::new(n as nat, |i: int| term(l, x[i].as_real(), 0real));
    lemma_rsum_add(a, c, b); lemma_nchunk(l, x.take(n), c); lemma_nsplit(l, x, n);
}
// ---- properties of the sum itself: symmetric, non-negative, zero on equal vectors
pub proof fn lemma_dsum_props<T: ToReal>(l: int, x: Seq<T>, y: Seq<T>)
    requires x.len() == y.len()
    ensures dsum(l, x, y) == dsum(l, y, x), dsum(l, x, y) >= 0real, x == y ==> dsum(l, x, y) == 0real
    decreases x.len()
{ if x.len() > 0 { lemma_dsum_props(l, x.drop_last(), y.drop_last()); lemma_square(l, x.last().as_real(), y.last().as_real()); lemma_square(l, x.last().as_real(), x.last().as_real()); } }
// ---- sparse vectors: strictly increasing indexes
pub open spec fn sorted(s: Seq<u32>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] < #[trigger] s[j] }
/// the coordinate k of the dense vector a sparse one stands for
pub open spec fn at<T: ToReal>(ind: Seq<u32>, val: Seq<T>, k: int) -> real {
    if exists|i: int| 0 <= i < ind.len() && #[trigger] ind[i] == k { val[choose|i: int| 0 <= i < ind.len() && #[trigger] ind[i] == k].as_real() } else { 0real }
}
/// distance sum of the two dense vectors over coordinates below b
pub open spec fn fsum<T: ToReal>(l: int, xi: Seq<u32>, xv: Seq<T>, yi: Seq<u32>, yv: Seq<T>, b: int) -> real decreases b {
    if b <= 0 { 0real } else { fsum(l, xi, xv, yi, yv, b - 1) + term(l, at(xi, xv, b - 1), at(yi, yv, b - 1)) }
}
pub open spec fn full() -> int { 0x1_0000_0000 }
pub proof fn lemma_at<T: ToReal>(ind: Seq<u32>, val: Seq<T>, i: int)
    requires sorted(ind), 0 <= i < ind.len(), ind.len() == val.len()
    ensures at(ind, val, ind[i] as int) == val[i].as_real()
{ let j = choose|j: int| 0 <= j < ind.len() && #[trigger] ind[j] == ind[i] as int; if j < i { assert(ind[j] < ind[i]); } if i < j { assert(ind[i] < ind[j]); } }
pub proof fn lemma_n0<T: ToReal>(l: int, x: Seq<T>) ensures x.len() == 0 ==> nsum(l, x) == 0real { }
pub proof fn lemma_start<T: ToReal>(l: int, xi: Seq<u32>, xv: Seq<T>, yi: Seq<u32>, yv: Seq<T>) ensures split(xi, 0, 0), split(yi, 0, 0), fsum(l, xi, xv, yi, yv, 0) == 0real { }
pub proof fn lemma_term(l: int, a: real) ensures term(l, 0real, a) == term(l, a, 0real), l == 1 ==> term(l, a, 0real) == rabs(a), l == 2 ==> term(l, a, 0real) == a * a
{ lemma_square(l, a, 0real); assert((a - 0real) * (a - 0real) == a * a) by (nonlinear_arith); }
pub proof fn lemma_term2(l: int, a: real, b: real) ensures term(l, a, b) == term(l, b, a), l == 1 ==> term(l, a, b) == rabs(a - b), l == 2 ==> term(l, a, b) == (a - b) * (a - b)
{ lemma_square(l, a, b); }
/// the first p indexes are below b, the others not
pub open spec fn split(ind: Seq<u32>, p: int, b: int) -> bool {
    0 <= p <= ind.len() && (forall|i: int| 0 <= i < p ==> #[trigger] ind[i] < b) && (forall|i: int| p <= i < ind.len() ==> #[trigger] ind[i] >= b)
}
pub proof fn lemma_gap<T: ToReal>(l: int, xi: Seq<u32>, xv: Seq<T>, yi: Seq<u32>, yv: Seq<T>, p: int, q: int, a: int, b: int)
    requires 0 <= a <= b, split(xi, p, a), split(xi, p, b), split(yi, q, a), split(yi, q, b)
    ensures fsum(l, xi, xv, yi, yv, b) == fsum(l, xi, xv, yi, yv, a)
    decreases b - a
{
    if a < b {
        assert forall|i: int| 0 <= i < xi.len() implies #[trigger] xi[i] != b - 1 by { if i < p { assert(xi[i] < a); } else { assert(xi[i] >= b); } }
        assert forall|i: int| 0 <= i < yi.len() implies #[trigger] yi[i] != b - 1 by { if i < q { assert(yi[i] < a); } else { assert(yi[i] >= b); } }
        assert(at(xi, xv, b - 1) == 0real); assert(at(yi, yv, b - 1) == 0real);
        lemma_square(l, 0real, 0real);
        assert(split(xi, p, b - 1)) by { assert forall|i: int| 0 <= i < p implies #[trigger] xi[i] < b - 1 by { assert(xi[i] < a); } assert forall|i: int| p <= i < xi.len() implies #[trigger] xi[i] >= b - 1 by { assert(xi[i] >= b); } }
        assert(split(yi, q, b - 1)) by { assert forall|i: int| 0 <= i < q implies #[trigger] yi[i] < b - 1 by { assert(yi[i] < a); } assert forall|i: int| q <= i < yi.len() implies #[trigger] yi[i] >= b - 1 by { assert(yi[i] >= b); } }
        lemma_gap(l, xi, xv, yi, yv, p, q, a, b - 1);
    }
}
/// take coordinate k, present in x at p (dx) and/or in y at q (dy), nothing of either between b and k
pub proof fn lemma_take<T: ToReal>(l: int, xi: Seq<u32>, xv: Seq<T>, yi: Seq<u32>, yv: Seq<T>, p: int, q: int, b: int, k: int, dx: bool, dy: bool)
    requires sorted(xi), sorted(yi), xi.len() == xv.len(), yi.len() == yv.len(), dx || dy, 0 <= b, split(xi, p, b), split(yi, q, b),
        dx ==> p < xi.len() && xi[p] == k, dy ==> q < yi.len() && yi[q] == k,
        !dx ==> p >= xi.len() || xi[p] > k, !dy ==> q >= yi.len() || yi[q] > k,
    ensures
        split(xi, if dx { p + 1 } else { p }, k + 1), split(yi, if dy { q + 1 } else { q }, k + 1),
        fsum(l, xi, xv, yi, yv, k + 1) == fsum(l, xi, xv, yi, yv, b) + term(l, if dx { xv[p].as_real() } else { 0real }, if dy { yv[q].as_real() } else { 0real }),
{
    if dx { assert(xi[p] >= b); } if dy { assert(yi[q] >= b); }
    assert forall|i: int| p <= i < xi.len() implies #[trigger] xi[i] >= k && (!dx || i > p ==> xi[i] > k) by { if i > p { assert(xi[p] < xi[i]); } }
    assert forall|i: int| q <= i < yi.len() implies #[trigger] yi[i] >= k && (!dy || i > q ==> yi[i] > k) by { if i > q { assert(yi[q] < yi[i]); } }
    assert(split(xi, p, k)); assert(split(yi, q, k));
    lemma_gap(l, xi, xv, yi, yv, p, q, b, k);
    if dx { lemma_at(xi, xv, p); } else { assert forall|i: int| 0 <= i < xi.len() implies #[trigger] xi[i] != k by { if i < p { assert(xi[i] < b); } } assert(at(xi, xv, k) == 0real); }
    if dy { lemma_at(yi, yv, q); } else { assert forall|i: int| 0 <= i < yi.len() implies #[trigger] yi[i] != k by { if i < q { assert(yi[i] < b); } } assert(at(yi, yv, k) == 0real); }
}
pub proof fn lemma_end<T: ToReal>(l: int, xi: Seq<u32>, xv: Seq<T>, yi: Seq<u32>, yv: Seq<T>, b: int)
    requires 0 <= b <= full(), split(xi, xi.len() as int, b), split(yi, yi.len() as int, b)
    ensures fsum(l, xi, xv, yi, yv, b) == fsum(l, xi, xv, yi, yv, full())
{
    assert(split(xi, xi.len() as int, full())); assert(split(yi, yi.len() as int, full()));
    lemma_gap(l, xi, xv, yi, yv, xi.len() as int, yi.len() as int, b, full());
}
pub proof fn lemma_fsym<T: ToReal>(l: int, xi: Seq<u32>, xv: Seq<T>, yi: Seq<u32>, yv: Seq<T>, b: int)
    ensures fsum(l, xi, xv, yi, yv, b) == fsum(l, yi, yv, xi, xv, b), fsum(l, xi, xv, yi, yv, b) >= 0real
    decreases b
{ if b > 0 { lemma_fsym(l, xi, xv, yi, yv, b - 1); lemma_square(l, at(xi, xv, b - 1), at(yi, yv, b - 1)); } }
pub proof fn lemma_norm_prefix<T: ToReal>(l: int, xi: Seq<u32>, xv: Seq<T>, yi: Seq<u32>, yv: Seq<T>, p: int, b: int)
    requires sorted(xi), xi.len() == xv.len(), yi.len() == 0, yv.len() == 0, 0 <= p <= xi.len(), 0 <= b, split(xi, p, b)
    ensures fsum(l, xi, xv, yi, yv, b) == nsum(l, xv.take(p))
    decreases p
{
    if p == 0 { assert(split(xi, 0, 0)); assert(split(yi, 0, 0)); assert(split(yi, 0, b)); lemma_gap(l, xi, xv, yi, yv, 0, 0, 0, b); assert(xv.take(0).len() == 0); }
    else {
        let k = xi[p - 1] as int;
        assert(split(xi, p - 1, k)) by { assert forall|i: int| 0 <= i < p - 1 implies #[trigger] xi[i] < k by { assert(xi[i] < xi[p - 1]); } assert forall|i: int| p - 1 <= i < xi.len() implies #[trigger] xi[i] >= k by { if i > p - 1 { assert(xi[p - 1] < xi[i]); } } }
        lemma_norm_prefix(l, xi, xv, yi, yv, p - 1, k);
        lemma_take(l, xi, xv, yi, yv, p - 1, 0, k, k, true, false);
        assert(split(yi, 0, k + 1)); assert(split(yi, 0, b));
        assert(xi[p - 1] < b);
        lemma_gap(l, xi, xv, yi, yv, p, 0, k + 1, b);
        assert(xv.take(p).drop_last() =~= xv.take(p - 1)); assert(xv.take(p).last() == xv[p - 1]);
    }
}
pub proof fn lemma_norm<T: ToReal>(l: int, xi: Seq<u32>, xv: Seq<T>, yi: Seq<u32>, yv: Seq<T>)
    requires sorted(xi), xi.len() == xv.len(), yi.len() == 0, yv.len() == 0
    ensures fsum(l, xi, xv, yi, yv, full()) == nsum(l, xv)
{ assert(split(xi, xi.len() as int, full())); lemma_norm_prefix(l, xi, xv, yi, yv, xi.len() as int, full()); assert(xv.take(xv.len() as int) =~= xv); }

/// the reader of the longer vector stands at q, the item it holds is l_tr
pub open spec fn lnext<'a, T>(lseq: Seq<(&'a u32, &'a T)>, li: Seq<u32>, lv: Seq<T>, q: int, t: Option<(&'a u32, &'a T)>, rest: Seq<(&'a u32, &'a T)>) -> bool {
    &&& 0 <= q <= li.len() && lseq.len() == li.len()
    &&& forall|i: int| 0 <= i < li.len() ==> *(#[trigger] lseq[i]).0 == li[i] && *lseq[i].1 == lv[i]
    &&& if q < li.len() { t == Some(lseq[q]) && rest.len() == li.len() - q - 1 && forall|i: int| 0 <= i < rest.len() ==> #[trigger] rest[i] == lseq[q + 1 + i] } else { t is None && rest.len() == 0 }
}

/// CONTRACT of a sparse point (decided by unit `points`): equally long lists, strictly increasing indexes; the index
/// type (u8/u16/u32) is only ever compared, so it is read as u32
#[verifier::external_body] #[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(I)]
pub struct RawSparse<T, I> { x: Vec<T>, i: Vec<I> }
impl<T, I> RawSparse<T, I> {
    pub uninterp spec fn ix(&self) -> Seq<u32>;
    pub uninterp spec fn vx(&self) -> Seq<T>;
    pub open spec fn ok(&self) -> bool { sorted(self.ix()) && self.ix().len() == self.vx().len() }
    #[verifier::external_body] pub fn indexes(&self) -> (r: &[u32]) ensures r@ == self.ix() { unimplemented!() }
    #[verifier::external_body] pub fn values(&self) -> (r: &[T]) ensures r@ == self.vx() { unimplemented!() }
}
/// sum = the distance sum of the dense vectors the two sparse ones stand for
pub proof fn lemma_sparse_dense_prefix<T: ToReal>(l: int, xi: Seq<u32>, xv: Seq<T>, yi: Seq<u32>, yv: Seq<T>, dx: Seq<T>, dy: Seq<T>, b: int)
    requires dx.len() == dy.len(), 0 <= b <= dx.len(), forall|k: int| 0 <= k < dx.len() ==> (#[trigger] dx[k]).as_real() == at(xi, xv, k) && dy[k].as_real() == at(yi, yv, k)
    ensures fsum(l, xi, xv, yi, yv, b) == dsum(l, dx.take(b), dy.take(b))
    decreases b
{ if b > 0 { lemma_sparse_dense_prefix(l, xi, xv, yi, yv, dx, dy, b - 1); assert(dx.take(b).drop_last() =~= dx.take(b - 1)); assert(dy.take(b).drop_last() =~= dy.take(b - 1)); assert(dx[b - 1].as_real() == at(xi, xv, b - 1)); } }
pub proof fn lemma_sparse_dense<T: ToReal>(l: int, xi: Seq<u32>, xv: Seq<T>, yi: Seq<u32>, yv: Seq<T>, dx: Seq<T>, dy: Seq<T>)
    requires dx.len() == dy.len() <= full(), forall|k: int| 0 <= k < dx.len() ==> (#[trigger] dx[k]).as_real() == at(xi, xv, k) && dy[k].as_real() == at(yi, yv, k),
        forall|i: int| 0 <= i < xi.len() ==> #[trigger] xi[i] < dx.len(), forall|i: int| 0 <= i < yi.len() ==> #[trigger] yi[i] < dy.len(),
    ensures fsum(l, xi, xv, yi, yv, full()) == dsum(l, dx, dy)
{
    lemma_sparse_dense_prefix(l, xi, xv, yi, yv, dx, dy, dx.len() as int);
    assert(dx.take(dx.len() as int) =~= dx); assert(dy.take(dy.len() as int) =~= dy);
    lemma_end(l, xi, xv, yi, yv, dx.len() as int);
}
pub proof fn lemma_fzero<T: ToReal>(l: int, xi: Seq<u32>, xv: Seq<T>, b: int) ensures fsum(l, xi, xv, xi, xv, b) == 0real decreases b
{ if b > 0 { lemma_fzero(l, xi, xv, b - 1); lemma_square(l, at(xi, xv, b - 1), 0real); lemma_square(l, at(xi, xv, b - 1), at(xi, xv, b - 1)); } }
pub open spec fn fin(l: int, s: real) -> real { if l == 1 { s } else { rsqrt(s) } }

//@ fn pointcloud/src/metrics/l2_f32.rs sq_l2_dense_f32
//@ loops 2
//@ spec
    requires x@.len() == y@.len(),
    ensures res@ == dsum(2, x@, y@),
//@ start
    let ghost x0 = x@; let ghost y0 = y@;
//@ after let mut d_acc_16
    proof { lemma_rsum_zero(d_acc_16@); }
//@ after let mut d_acc_8
    proof { lemma_rsum_zero(d_acc_8@); } let ghost x1 = x@; let ghost y1 = y@;
//@ loop 0
    invariant x@.len() == y@.len(), d_acc_16@.len() == 16, rsum(d_acc_16@) + dsum(2, x@, y@) == dsum(2, x0, y0),
    decreases y@.len()
//@ loopstart 0
    let ghost xa = x@; let ghost ya = y@; let ghost aa = d_acc_16@;
//@ loopend 0
    proof { assert forall|i: int| 0 <= i < 16 implies #[trigger] d_acc_16@[i] == aa[i] + term(2, xa[i].as_real(), ya[i].as_real()) by { lemma_square(2, xa[i].as_real(), ya[i].as_real()); } lemma_dstep(2, xa, ya, 16, aa, d_acc_16@); }
//@ before let leftover
    proof { if y1.len() > 8 { let z = Seq::new(8, |i: int| 0real); lemma_rsum_zero(z); assert forall|i: int| 0 <= i < 8 implies #[trigger] d_acc_8@[i] == z[i] + term(2, x1[i].as_real(), y1[i].as_real()) by { lemma_square(2, x1[i].as_real(), y1[i].as_real()); } lemma_dstep(2, x1, y1, 8, z, d_acc_8@); } } let ghost x2 = x@; let ghost y2 = y@;
//@ loop 1
    invariant x2.len() == y2.len(), it1.seq().len() == y2.len(),
        forall|i: int| 0 <= i < it1.seq().len() ==> (*(#[trigger] it1.seq()[i]).0 == y2[i] && *it1.seq()[i].1 == x2[i]) || (*it1.seq()[i].0 == x2[i] && *it1.seq()[i].1 == y2[i]),
        __acc1@ == dsum(2, x2.take(it1.index() as int), y2.take(it1.index() as int)),
//@ loopend 1
    proof { let n = it1.index() as int; lemma_square(2, x2[n].as_real(), y2[n].as_real()); assert(x2.take(n + 1).drop_last() =~= x2.take(n)); assert(y2.take(n + 1).drop_last() =~= y2.take(n)); }
//@ after let leftover
    proof { assert(x@.take(x@.len() as int) =~= x@); assert(y@.take(y@.len() as int) =~= y@); }
//@ end
//@ fn pointcloud/src/metrics/l2_f32.rs sq_l2_norm_f32
//@ loops 2
//@ spec
    ensures res@ == nsum(2, x@),
//@ start
    let ghost x0 = x@;
//@ after let mut d_acc_16
    proof { lemma_rsum_zero(d_acc_16@); }
//@ after let mut d_acc_8
    proof { lemma_rsum_zero(d_acc_8@); } let ghost x1 = x@;
//@ loop 0
    invariant d_acc_16@.len() == 16, rsum(d_acc_16@) + nsum(2, x@) == nsum(2, x0),
    decreases x@.len()
//@ loopstart 0
    let ghost xa = x@; let ghost aa = d_acc_16@;
//@ loopend 0
    proof { assert forall|i: int| 0 <= i < 16 implies #[trigger] d_acc_16@[i] == aa[i] + term(2, xa[i].as_real(), 0real) by { lemma_square(2, xa[i].as_real(), 0real); } lemma_nstep(2, xa, 16, aa, d_acc_16@); }
//@ before let leftover
    proof { if x1.len() > 8 { let z = Seq::new(8, |i: int| 0real); lemma_rsum_zero(z); assert forall|i: int| 0 <= i < 8 implies #[trigger] d_acc_8@[i] == z[i] + term(2, x1[i].as_real(), 0real) by { lemma_square(2, x1[i].as_real(), 0real); } lemma_nstep(2, x1, 8, z, d_acc_8@); } } let ghost x2 = x@;
//@ loop 1
    invariant it1.seq().len() == x2.len(),
        forall|i: int| 0 <= i < it1.seq().len() ==> *(#[trigger] it1.seq()[i]) == x2[i],
        __acc1@ == nsum(2, x2.take(it1.index() as int)),
//@ loopend 1
    proof { let n = it1.index() as int; lemma_square(2, x2[n].as_real(), 0real); assert(x2.take(n + 1).drop_last() =~= x2.take(n)); }
//@ after let leftover
    proof { assert(x@.take(x@.len() as int) =~= x@); }
//@ end
//@ fn pointcloud/src/metrics/l2_f32.rs sq_l2_sparse_f32_f32
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ loops 3
//@ spec
    requires sorted(x_ind@), sorted(y_ind@), x_ind@.len() == x_val@.len(), y_ind@.len() == y_val@.len(),
    ensures res@ == fsum(2, x_ind@, x_val@, y_ind@, y_val@, full()),
//@ start
    hide(split); hide(sorted); hide(fsum); hide(at); hide(term); hide(nsum);
    proof { lemma_fsym(2, x_ind@, x_val@, y_ind@, y_val@, full()); if y_ind@.len() == 0 { lemma_norm(2, x_ind@, x_val@, y_ind@, y_val@); lemma_n0(2, x_val@); } if x_ind@.len() == 0 { lemma_norm(2, y_ind@, y_val@, x_ind@, x_val@); } }
//@ after let (short_iter, mut long_iter)
    let ghost sw = x_ind@.len() > y_ind@.len();
    let ghost si_ = if sw { y_ind@ } else { x_ind@ }; let ghost sv_ = if sw { y_val@ } else { x_val@ };
    let ghost li_ = if sw { x_ind@ } else { y_ind@ }; let ghost lv_ = if sw { x_val@ } else { y_val@ };
    let ghost lseq = long_iter.remaining();
    let ghost mut b: int = 0; let ghost mut q: int = 0;
//@ before for (si, sv)
    proof { lemma_start(2, si_, sv_, li_, lv_); }
//@ loop 0
    invariant it0.seq().len() == si_.len(),
        forall|i: int| 0 <= i < si_.len() ==> *(#[trigger] it0.seq()[i]).0 == si_[i] && *it0.seq()[i].1 == sv_[i],
        sorted(si_), sorted(li_), si_.len() == sv_.len(), li_.len() == lv_.len(),
        lnext(lseq, li_, lv_, q, l_tr, long_iter.remaining()),
        0 <= b <= full(), split(si_, it0.index() as int, b), split(li_, q, b), total@ == fsum(2, si_, sv_, li_, lv_, b),
//@ loop 1
    invariant it0.seq().len() == si_.len(), it0.index() < si_.len(), *si == si_[it0.index() as int], *sv == sv_[it0.index() as int],
        forall|i: int| 0 <= i < si_.len() ==> *(#[trigger] it0.seq()[i]).0 == si_[i] && *it0.seq()[i].1 == sv_[i],
        sorted(si_), sorted(li_), si_.len() == sv_.len(), li_.len() == lv_.len(),
        lnext(lseq, li_, lv_, q, l_tr, long_iter.remaining()),
        0 <= b <= full(), split(si_, it0.index() as int, b), split(li_, q, b), total@ == fsum(2, si_, sv_, li_, lv_, b),
    ensures q >= li_.len() || li_[q] >= *si,
//@ before l_tr = long_iter . next ()
    proof { let p = it0.index() as int; lemma_take(2, si_, sv_, li_, lv_, p, q, b, *li as int, false, true); lemma_term(2, lv_[q].as_real()); b = *li as int + 1; q = q + 1; }
//@ before if let Some ((li, lv)) = l_tr
    let ghost b0 = b; let ghost q0 = q;
//@ loopend 0
    proof {
        let p = it0.index() as int; let both = q0 < li_.len() && li_[q0] == *si;
        lemma_take(2, si_, sv_, li_, lv_, p, q0, b0, *si as int, true, both);
        lemma_term(2, sv_[p].as_real()); if both { lemma_term2(2, sv_[p].as_real(), lv_[q0].as_real()); }
        b = *si as int + 1; if both { q = q0 + 1; }
    }
//@ loop 2
    invariant sorted(si_), sorted(li_), si_.len() == sv_.len(), li_.len() == lv_.len(),
        lnext(lseq, li_, lv_, q, l_tr, long_iter.remaining()),
        0 <= b <= full(), split(si_, si_.len() as int, b), split(li_, q, b), total@ == fsum(2, si_, sv_, li_, lv_, b),
    ensures q >= li_.len(),
//@ before#3 l_tr = long_iter . next ()
    proof { lemma_take(2, si_, sv_, li_, lv_, si_.len() as int, q, b, li_[q] as int, false, true); lemma_term(2, lv_[q].as_real()); b = li_[q] as int + 1; q = q + 1; }
//@ loopafter 2
    proof { lemma_end(2, si_, sv_, li_, lv_, b); }
//@ end

//@ fn pointcloud/src/metrics/l2_f32.rs L2 as Metric<[f32]>::dist
//@ name dist_l2_f32
//@ subst x . deref () => x
//@ subst y . deref () => y
//@ spec
    requires x@.len() == y@.len(),
    ensures res@ == fin(2, dsum(2, x@, y@)),
//@ end
//@ fn pointcloud/src/metrics/l2_f32.rs L2 as Metric<RawSparse<f32,u32>>::dist
//@ name dist_l2_f32_u32
//@ spec
    requires x.ok(), y.ok(),
    ensures res@ == fin(2, fsum(2, x.ix(), x.vx(), y.ix(), y.vx(), full())),
//@ end
//@ fn pointcloud/src/metrics/l2_f32.rs L2 as Metric<RawSparse<f32,u16>>::dist
//@ name dist_l2_f32_u16
//@ spec
    requires x.ok(), y.ok(),
    ensures res@ == fin(2, fsum(2, x.ix(), x.vx(), y.ix(), y.vx(), full())),
//@ end
//@ fn pointcloud/src/metrics/l2_f32.rs L2 as Metric<RawSparse<f32,u8>>::dist
//@ name dist_l2_f32_u8
//@ spec
    requires x.ok(), y.ok(),
    ensures res@ == fin(2, fsum(2, x.ix(), x.vx(), y.ix(), y.vx(), full())),
//@ end
//@ fn pointcloud/src/metrics/l1_f32.rs l1_dense_f32
//@ loops 2
//@ spec
    requires x@.len() == y@.len(),
    ensures res@ == dsum(1, x@, y@),
//@ start
    let ghost x0 = x@; let ghost y0 = y@;
//@ after let mut d_acc_16
    proof { lemma_rsum_zero(d_acc_16@); }
//@ after let mut d_acc_8
    proof { lemma_rsum_zero(d_acc_8@); } let ghost x1 = x@; let ghost y1 = y@;
//@ loop 0
    invariant x@.len() == y@.len(), d_acc_16@.len() == 16, rsum(d_acc_16@) + dsum(1, x@, y@) == dsum(1, x0, y0),
    decreases y@.len()
//@ loopstart 0
    let ghost xa = x@; let ghost ya = y@; let ghost aa = d_acc_16@;
//@ loopend 0
    proof { assert forall|i: int| 0 <= i < 16 implies #[trigger] d_acc_16@[i] == aa[i] + term(1, xa[i].as_real(), ya[i].as_real()) by { lemma_square(1, xa[i].as_real(), ya[i].as_real()); } lemma_dstep(1, xa, ya, 16, aa, d_acc_16@); }
//@ before let leftover
    proof { if y1.len() > 8 { let z = Seq::new(8, |i: int| 0real); lemma_rsum_zero(z); assert forall|i: int| 0 <= i < 8 implies #[trigger] d_acc_8@[i] == z[i] + term(1, x1[i].as_real(), y1[i].as_real()) by { lemma_square(1, x1[i].as_real(), y1[i].as_real()); } lemma_dstep(1, x1, y1, 8, z, d_acc_8@); } } let ghost x2 = x@; let ghost y2 = y@;
//@ loop 1
    invariant x2.len() == y2.len(), it1.seq().len() == y2.len(),
        forall|i: int| 0 <= i < it1.seq().len() ==> (*(#[trigger] it1.seq()[i]).0 == y2[i] && *it1.seq()[i].1 == x2[i]) || (*it1.seq()[i].0 == x2[i] && *it1.seq()[i].1 == y2[i]),
        __acc1@ == dsum(1, x2.take(it1.index() as int), y2.take(it1.index() as int)),
//@ loopend 1
    proof { let n = it1.index() as int; lemma_square(1, x2[n].as_real(), y2[n].as_real()); assert(x2.take(n + 1).drop_last() =~= x2.take(n)); assert(y2.take(n + 1).drop_last() =~= y2.take(n)); }
//@ after let leftover
    proof { assert(x@.take(x@.len() as int) =~= x@); assert(y@.take(y@.len() as int) =~= y@); }
//@ end
//@ fn pointcloud/src/metrics/l1_f32.rs l1_norm_f32
//@ loops 2
//@ spec
    ensures res@ == nsum(1, x@),
//@ start
    let ghost x0 = x@;
//@ after let mut d_acc_16
    proof { lemma_rsum_zero(d_acc_16@); }
//@ after let mut d_acc_8
    proof { lemma_rsum_zero(d_acc_8@); } let ghost x1 = x@;
//@ loop 0
    invariant d_acc_16@.len() == 16, rsum(d_acc_16@) + nsum(1, x@) == nsum(1, x0),
    decreases x@.len()
//@ loopstart 0
    let ghost xa = x@; let ghost aa = d_acc_16@;
//@ loopend 0
    proof { assert forall|i: int| 0 <= i < 16 implies #[trigger] d_acc_16@[i] == aa[i] + term(1, xa[i].as_real(), 0real) by { lemma_square(1, xa[i].as_real(), 0real); } lemma_nstep(1, xa, 16, aa, d_acc_16@); }
//@ before let leftover
    proof { if x1.len() > 8 { let z = Seq::new(8, |i: int| 0real); lemma_rsum_zero(z); assert forall|i: int| 0 <= i < 8 implies #[trigger] d_acc_8@[i] == z[i] + term(1, x1[i].as_real(), 0real) by { lemma_square(1, x1[i].as_real(), 0real); } lemma_nstep(1, x1, 8, z, d_acc_8@); } } let ghost x2 = x@;
//@ loop 1
    invariant it1.seq().len() == x2.len(),
        forall|i: int| 0 <= i < it1.seq().len() ==> *(#[trigger] it1.seq()[i]) == x2[i],
        __acc1@ == nsum(1, x2.take(it1.index() as int)),
//@ loopend 1
    proof { let n = it1.index() as int; lemma_square(1, x2[n].as_real(), 0real); assert(x2.take(n + 1).drop_last() =~= x2.take(n)); }
//@ after let leftover
    proof { assert(x@.take(x@.len() as int) =~= x@); }
//@ end
//@ fn pointcloud/src/metrics/l1_f32.rs l1_sparse_f32_f32
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ loops 3
//@ spec
    requires sorted(x_ind@), sorted(y_ind@), x_ind@.len() == x_val@.len(), y_ind@.len() == y_val@.len(),
    ensures res@ == fsum(1, x_ind@, x_val@, y_ind@, y_val@, full()),
//@ start
    hide(split); hide(sorted); hide(fsum); hide(at); hide(term); hide(nsum);
    proof { lemma_fsym(1, x_ind@, x_val@, y_ind@, y_val@, full()); if y_ind@.len() == 0 { lemma_norm(1, x_ind@, x_val@, y_ind@, y_val@); lemma_n0(1, x_val@); } if x_ind@.len() == 0 { lemma_norm(1, y_ind@, y_val@, x_ind@, x_val@); } }
//@ after let (short_iter, mut long_iter)
    let ghost sw = x_ind@.len() > y_ind@.len();
    let ghost si_ = if sw { y_ind@ } else { x_ind@ }; let ghost sv_ = if sw { y_val@ } else { x_val@ };
    let ghost li_ = if sw { x_ind@ } else { y_ind@ }; let ghost lv_ = if sw { x_val@ } else { y_val@ };
    let ghost lseq = long_iter.remaining();
    let ghost mut b: int = 0; let ghost mut q: int = 0;
//@ before for (si, sv)
    proof { lemma_start(1, si_, sv_, li_, lv_); }
//@ loop 0
    invariant it0.seq().len() == si_.len(),
        forall|i: int| 0 <= i < si_.len() ==> *(#[trigger] it0.seq()[i]).0 == si_[i] && *it0.seq()[i].1 == sv_[i],
        sorted(si_), sorted(li_), si_.len() == sv_.len(), li_.len() == lv_.len(),
        lnext(lseq, li_, lv_, q, l_tr, long_iter.remaining()),
        0 <= b <= full(), split(si_, it0.index() as int, b), split(li_, q, b), total@ == fsum(1, si_, sv_, li_, lv_, b),
//@ loop 1
    invariant it0.seq().len() == si_.len(), it0.index() < si_.len(), *si == si_[it0.index() as int], *sv == sv_[it0.index() as int],
        forall|i: int| 0 <= i < si_.len() ==> *(#[trigger] it0.seq()[i]).0 == si_[i] && *it0.seq()[i].1 == sv_[i],
        sorted(si_), sorted(li_), si_.len() == sv_.len(), li_.len() == lv_.len(),
        lnext(lseq, li_, lv_, q, l_tr, long_iter.remaining()),
        0 <= b <= full(), split(si_, it0.index() as int, b), split(li_, q, b), total@ == fsum(1, si_, sv_, li_, lv_, b),
    ensures q >= li_.len() || li_[q] >= *si,
//@ before l_tr = long_iter . next ()
    proof { let p = it0.index() as int; lemma_take(1, si_, sv_, li_, lv_, p, q, b, *li as int, false, true); lemma_term(1, lv_[q].as_real()); b = *li as int + 1; q = q + 1; }
//@ before if let Some ((li, lv)) = l_tr
    let ghost b0 = b; let ghost q0 = q;
//@ loopend 0
    proof {
        let p = it0.index() as int; let both = q0 < li_.len() && li_[q0] == *si;
        lemma_take(1, si_, sv_, li_, lv_, p, q0, b0, *si as int, true, both);
        lemma_term(1, sv_[p].as_real()); if both { lemma_term2(1, sv_[p].as_real(), lv_[q0].as_real()); }
        b = *si as int + 1; if both { q = q0 + 1; }
    }
//@ loop 2
    invariant sorted(si_), sorted(li_), si_.len() == sv_.len(), li_.len() == lv_.len(),
        lnext(lseq, li_, lv_, q, l_tr, long_iter.remaining()),
        0 <= b <= full(), split(si_, si_.len() as int, b), split(li_, q, b), total@ == fsum(1, si_, sv_, li_, lv_, b),
    ensures q >= li_.len(),
//@ before#3 l_tr = long_iter . next ()
    proof { lemma_take(1, si_, sv_, li_, lv_, si_.len() as int, q, b, li_[q] as int, false, true); lemma_term(1, lv_[q].as_real()); b = li_[q] as int + 1; q = q + 1; }
//@ loopafter 2
    proof { lemma_end(1, si_, sv_, li_, lv_, b); }
//@ end

//@ fn pointcloud/src/metrics/l1_f32.rs L1 as Metric<[f32]>::dist
//@ name dist_l1_f32
//@ subst x . deref () => x
//@ subst y . deref () => y
//@ spec
    requires x@.len() == y@.len(),
    ensures res@ == fin(1, dsum(1, x@, y@)),
//@ end
//@ fn pointcloud/src/metrics/l1_f32.rs L1 as Metric<RawSparse<f32,u32>>::dist
//@ name dist_l1_f32_u32
//@ spec
    requires x.ok(), y.ok(),
    ensures res@ == fin(1, fsum(1, x.ix(), x.vx(), y.ix(), y.vx(), full())),
//@ end
//@ fn pointcloud/src/metrics/l1_f32.rs L1 as Metric<RawSparse<f32,u16>>::dist
//@ name dist_l1_f32_u16
//@ spec
    requires x.ok(), y.ok(),
    ensures res@ == fin(1, fsum(1, x.ix(), x.vx(), y.ix(), y.vx(), full())),
//@ end
//@ fn pointcloud/src/metrics/l1_f32.rs L1 as Metric<RawSparse<f32,u8>>::dist
//@ name dist_l1_f32_u8
//@ spec
    requires x.ok(), y.ok(),
    ensures res@ == fin(1, fsum(1, x.ix(), x.vx(), y.ix(), y.vx(), full())),
//@ end
//@ macro m1i8 pointcloud/src/metrics/l1_misc.rs make_l1_distance base=i8 simd_16_base=i8x16 simd_8_base=i8x8 sparse_base=l1_sparse_i8_f32 dist_base=l1_dense_i8 norm_base=l1_norm_i8
//@ fn m1i8 l1_dense_i8
//@ loops 2
//@ spec
    requires x@.len() == y@.len(),
    ensures res@ == dsum(1, x@, y@),
//@ start
    let ghost x0 = x@; let ghost y0 = y@;
//@ after let mut d_acc_16
    proof { lemma_rsum_zero(d_acc_16@); }
//@ after let mut d_acc_8
    proof { lemma_rsum_zero(d_acc_8@); } let ghost x1 = x@; let ghost y1 = y@;
//@ loop 0
    invariant x@.len() == y@.len(), d_acc_16@.len() == 16, rsum(d_acc_16@) + dsum(1, x@, y@) == dsum(1, x0, y0),
    decreases y@.len()
//@ loopstart 0
    let ghost xa = x@; let ghost ya = y@; let ghost aa = d_acc_16@;
//@ loopend 0
    proof { assert forall|i: int| 0 <= i < 16 implies #[trigger] d_acc_16@[i] == aa[i] + term(1, xa[i].as_real(), ya[i].as_real()) by { lemma_square(1, xa[i].as_real(), ya[i].as_real()); } lemma_dstep(1, xa, ya, 16, aa, d_acc_16@); }
//@ before let leftover
    proof { if y1.len() > 8 { let z = Seq::new(8, |i: int| 0real); lemma_rsum_zero(z); assert forall|i: int| 0 <= i < 8 implies #[trigger] d_acc_8@[i] == z[i] + term(1, x1[i].as_real(), y1[i].as_real()) by { lemma_square(1, x1[i].as_real(), y1[i].as_real()); } lemma_dstep(1, x1, y1, 8, z, d_acc_8@); } } let ghost x2 = x@; let ghost y2 = y@;
//@ loop 1
    invariant x2.len() == y2.len(), it1.seq().len() == y2.len(),
        forall|i: int| 0 <= i < it1.seq().len() ==> (*(#[trigger] it1.seq()[i]).0 == y2[i] && *it1.seq()[i].1 == x2[i]) || (*it1.seq()[i].0 == x2[i] && *it1.seq()[i].1 == y2[i]),
        __acc1@ == dsum(1, x2.take(it1.index() as int), y2.take(it1.index() as int)),
//@ loopend 1
    proof { let n = it1.index() as int; lemma_square(1, x2[n].as_real(), y2[n].as_real()); assert(x2.take(n + 1).drop_last() =~= x2.take(n)); assert(y2.take(n + 1).drop_last() =~= y2.take(n)); }
//@ after let leftover
    proof { assert(x@.take(x@.len() as int) =~= x@); assert(y@.take(y@.len() as int) =~= y@); }
//@ end
//@ fn m1i8 l1_norm_i8
//@ loops 2
//@ spec
    ensures res@ == nsum(1, x@),
//@ start
    let ghost x0 = x@;
//@ after let mut d_acc_16
    proof { lemma_rsum_zero(d_acc_16@); }
//@ after let mut d_acc_8
    proof { lemma_rsum_zero(d_acc_8@); } let ghost x1 = x@;
//@ loop 0
    invariant d_acc_16@.len() == 16, rsum(d_acc_16@) + nsum(1, x@) == nsum(1, x0),
    decreases x@.len()
//@ loopstart 0
    let ghost xa = x@; let ghost aa = d_acc_16@;
//@ loopend 0
    proof { assert forall|i: int| 0 <= i < 16 implies #[trigger] d_acc_16@[i] == aa[i] + term(1, xa[i].as_real(), 0real) by { lemma_square(1, xa[i].as_real(), 0real); } lemma_nstep(1, xa, 16, aa, d_acc_16@); }
//@ before let leftover
    proof { if x1.len() > 8 { let z = Seq::new(8, |i: int| 0real); lemma_rsum_zero(z); assert forall|i: int| 0 <= i < 8 implies #[trigger] d_acc_8@[i] == z[i] + term(1, x1[i].as_real(), 0real) by { lemma_square(1, x1[i].as_real(), 0real); } lemma_nstep(1, x1, 8, z, d_acc_8@); } } let ghost x2 = x@;
//@ loop 1
    invariant it1.seq().len() == x2.len(),
        forall|i: int| 0 <= i < it1.seq().len() ==> *(#[trigger] it1.seq()[i]) == x2[i],
        __acc1@ == nsum(1, x2.take(it1.index() as int)),
//@ loopend 1
    proof { let n = it1.index() as int; lemma_square(1, x2[n].as_real(), 0real); assert(x2.take(n + 1).drop_last() =~= x2.take(n)); }
//@ after let leftover
    proof { assert(x@.take(x@.len() as int) =~= x@); }
//@ end
//@ fn m1i8 l1_sparse_i8_f32
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ loops 3
//@ spec
    requires sorted(x_ind@), sorted(y_ind@), x_ind@.len() == x_val@.len(), y_ind@.len() == y_val@.len(),
    ensures res@ == fsum(1, x_ind@, x_val@, y_ind@, y_val@, full()),
//@ start
    hide(split); hide(sorted); hide(fsum); hide(at); hide(term); hide(nsum);
    proof { lemma_fsym(1, x_ind@, x_val@, y_ind@, y_val@, full()); if y_ind@.len() == 0 { lemma_norm(1, x_ind@, x_val@, y_ind@, y_val@); lemma_n0(1, x_val@); } if x_ind@.len() == 0 { lemma_norm(1, y_ind@, y_val@, x_ind@, x_val@); } }
//@ after let (short_iter, mut long_iter)
    let ghost sw = x_ind@.len() > y_ind@.len();
    let ghost si_ = if sw { y_ind@ } else { x_ind@ }; let ghost sv_ = if sw { y_val@ } else { x_val@ };
    let ghost li_ = if sw { x_ind@ } else { y_ind@ }; let ghost lv_ = if sw { x_val@ } else { y_val@ };
    let ghost lseq = long_iter.remaining();
    let ghost mut b: int = 0; let ghost mut q: int = 0;
//@ before for (si, sv)
    proof { lemma_start(1, si_, sv_, li_, lv_); }
//@ loop 0
    invariant it0.seq().len() == si_.len(),
        forall|i: int| 0 <= i < si_.len() ==> *(#[trigger] it0.seq()[i]).0 == si_[i] && *it0.seq()[i].1 == sv_[i],
        sorted(si_), sorted(li_), si_.len() == sv_.len(), li_.len() == lv_.len(),
        lnext(lseq, li_, lv_, q, l_tr, long_iter.remaining()),
        0 <= b <= full(), split(si_, it0.index() as int, b), split(li_, q, b), total@ == fsum(1, si_, sv_, li_, lv_, b),
//@ loop 1
    invariant it0.seq().len() == si_.len(), it0.index() < si_.len(), *si == si_[it0.index() as int], *sv == sv_[it0.index() as int],
        forall|i: int| 0 <= i < si_.len() ==> *(#[trigger] it0.seq()[i]).0 == si_[i] && *it0.seq()[i].1 == sv_[i],
        sorted(si_), sorted(li_), si_.len() == sv_.len(), li_.len() == lv_.len(),
        lnext(lseq, li_, lv_, q, l_tr, long_iter.remaining()),
        0 <= b <= full(), split(si_, it0.index() as int, b), split(li_, q, b), total@ == fsum(1, si_, sv_, li_, lv_, b),
    ensures q >= li_.len() || li_[q] >= *si,
//@ before l_tr = long_iter . next ()
    proof { let p = it0.index() as int; lemma_take(1, si_, sv_, li_, lv_, p, q, b, *li as int, false, true); lemma_term(1, lv_[q].as_real()); b = *li as int + 1; q = q + 1; }
//@ before if let Some ((li, lv)) = l_tr
    let ghost b0 = b; let ghost q0 = q;
//@ loopend 0
    proof {
        let p = it0.index() as int; let both = q0 < li_.len() && li_[q0] == *si;
        lemma_take(1, si_, sv_, li_, lv_, p, q0, b0, *si as int, true, both);
        lemma_term(1, sv_[p].as_real()); if both { lemma_term2(1, sv_[p].as_real(), lv_[q0].as_real()); }
        b = *si as int + 1; if both { q = q0 + 1; }
    }
//@ loop 2
    invariant sorted(si_), sorted(li_), si_.len() == sv_.len(), li_.len() == lv_.len(),
        lnext(lseq, li_, lv_, q, l_tr, long_iter.remaining()),
        0 <= b <= full(), split(si_, si_.len() as int, b), split(li_, q, b), total@ == fsum(1, si_, sv_, li_, lv_, b),
    ensures q >= li_.len(),
//@ before#3 l_tr = long_iter . next ()
    proof { lemma_take(1, si_, sv_, li_, lv_, si_.len() as int, q, b, li_[q] as int, false, true); lemma_term(1, lv_[q].as_real()); b = li_[q] as int + 1; q = q + 1; }
//@ loopafter 2
    proof { lemma_end(1, si_, sv_, li_, lv_, b); }
//@ end

//@ fn m1i8 L1 as Metric<[i8]>::dist
//@ name dist_l1_i8
//@ subst x . deref () => x
//@ subst y . deref () => y
//@ spec
    requires x@.len() == y@.len(),
    ensures res@ == fin(1, dsum(1, x@, y@)),
//@ end
//@ fn m1i8 L1 as Metric<RawSparse<i8,u32>>::dist
//@ name dist_l1_i8_u32
//@ spec
    requires x.ok(), y.ok(),
    ensures res@ == fin(1, fsum(1, x.ix(), x.vx(), y.ix(), y.vx(), full())),
//@ end
//@ fn m1i8 L1 as Metric<RawSparse<i8,u16>>::dist
//@ name dist_l1_i8_u16
//@ spec
    requires x.ok(), y.ok(),
    ensures res@ == fin(1, fsum(1, x.ix(), x.vx(), y.ix(), y.vx(), full())),
//@ end
//@ fn m1i8 L1 as Metric<RawSparse<i8,u8>>::dist
//@ name dist_l1_i8_u8
//@ spec
    requires x.ok(), y.ok(),
    ensures res@ == fin(1, fsum(1, x.ix(), x.vx(), y.ix(), y.vx(), full())),
//@ end
//@ macro m2i8 pointcloud/src/metrics/l2_misc.rs make_l2_distance base=i8 simd_16_base=i8x16 simd_8_base=i8x8 sparse_base=l2_sparse_i8_f32 dist_base=l2_dense_i8 norm_base=l2_norm_i8
//@ fn m2i8 l2_dense_i8
//@ loops 2
//@ spec
    requires x@.len() == y@.len(),
    ensures res@ == dsum(2, x@, y@),
//@ start
    let ghost x0 = x@; let ghost y0 = y@;
//@ after let mut d_acc_16
    proof { lemma_rsum_zero(d_acc_16@); }
//@ after let mut d_acc_8
    proof { lemma_rsum_zero(d_acc_8@); } let ghost x1 = x@; let ghost y1 = y@;
//@ loop 0
    invariant x@.len() == y@.len(), d_acc_16@.len() == 16, rsum(d_acc_16@) + dsum(2, x@, y@) == dsum(2, x0, y0),
    decreases y@.len()
//@ loopstart 0
    let ghost xa = x@; let ghost ya = y@; let ghost aa = d_acc_16@;
//@ loopend 0
    proof { assert forall|i: int| 0 <= i < 16 implies #[trigger] d_acc_16@[i] == aa[i] + term(2, xa[i].as_real(), ya[i].as_real()) by { lemma_square(2, xa[i].as_real(), ya[i].as_real()); } lemma_dstep(2, xa, ya, 16, aa, d_acc_16@); }
//@ before let leftover
    proof { if y1.len() > 8 { let z = Seq::new(8, |i: int| 0real); lemma_rsum_zero(z); assert forall|i: int| 0 <= i < 8 implies #[trigger] d_acc_8@[i] == z[i] + term(2, x1[i].as_real(), y1[i].as_real()) by { lemma_square(2, x1[i].as_real(), y1[i].as_real()); } lemma_dstep(2, x1, y1, 8, z, d_acc_8@); } } let ghost x2 = x@; let ghost y2 = y@;
//@ loop 1
    invariant x2.len() == y2.len(), it1.seq().len() == y2.len(),
        forall|i: int| 0 <= i < it1.seq().len() ==> (*(#[trigger] it1.seq()[i]).0 == y2[i] && *it1.seq()[i].1 == x2[i]) || (*it1.seq()[i].0 == x2[i] && *it1.seq()[i].1 == y2[i]),
        __acc1@ == dsum(2, x2.take(it1.index() as int), y2.take(it1.index() as int)),
//@ loopend 1
    proof { let n = it1.index() as int; lemma_square(2, x2[n].as_real(), y2[n].as_real()); assert(x2.take(n + 1).drop_last() =~= x2.take(n)); assert(y2.take(n + 1).drop_last() =~= y2.take(n)); }
//@ after let leftover
    proof { assert(x@.take(x@.len() as int) =~= x@); assert(y@.take(y@.len() as int) =~= y@); }
//@ end
//@ fn m2i8 l2_norm_i8
//@ loops 2
//@ spec
    ensures res@ == nsum(2, x@),
//@ start
    let ghost x0 = x@;
//@ after let mut d_acc_16
    proof { lemma_rsum_zero(d_acc_16@); }
//@ after let mut d_acc_8
    proof { lemma_rsum_zero(d_acc_8@); } let ghost x1 = x@;
//@ loop 0
    invariant d_acc_16@.len() == 16, rsum(d_acc_16@) + nsum(2, x@) == nsum(2, x0),
    decreases x@.len()
//@ loopstart 0
    let ghost xa = x@; let ghost aa = d_acc_16@;
//@ loopend 0
    proof { assert forall|i: int| 0 <= i < 16 implies #[trigger] d_acc_16@[i] == aa[i] + term(2, xa[i].as_real(), 0real) by { lemma_square(2, xa[i].as_real(), 0real); } lemma_nstep(2, xa, 16, aa, d_acc_16@); }
//@ before let leftover
    proof { if x1.len() > 8 { let z = Seq::new(8, |i: int| 0real); lemma_rsum_zero(z); assert forall|i: int| 0 <= i < 8 implies #[trigger] d_acc_8@[i] == z[i] + term(2, x1[i].as_real(), 0real) by { lemma_square(2, x1[i].as_real(), 0real); } lemma_nstep(2, x1, 8, z, d_acc_8@); } } let ghost x2 = x@;
//@ loop 1
    invariant it1.seq().len() == x2.len(),
        forall|i: int| 0 <= i < it1.seq().len() ==> *(#[trigger] it1.seq()[i]) == x2[i],
        __acc1@ == nsum(2, x2.take(it1.index() as int)),
//@ loopend 1
    proof { let n = it1.index() as int; lemma_square(2, x2[n].as_real(), 0real); assert(x2.take(n + 1).drop_last() =~= x2.take(n)); }
//@ after let leftover
    proof { assert(x@.take(x@.len() as int) =~= x@); }
//@ end
//@ fn m2i8 l2_sparse_i8_f32
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ loops 3
//@ spec
    requires sorted(x_ind@), sorted(y_ind@), x_ind@.len() == x_val@.len(), y_ind@.len() == y_val@.len(),
    ensures res@ == fsum(2, x_ind@, x_val@, y_ind@, y_val@, full()),
//@ start
    hide(split); hide(sorted); hide(fsum); hide(at); hide(term); hide(nsum);
    proof { lemma_fsym(2, x_ind@, x_val@, y_ind@, y_val@, full()); if y_ind@.len() == 0 { lemma_norm(2, x_ind@, x_val@, y_ind@, y_val@); lemma_n0(2, x_val@); } if x_ind@.len() == 0 { lemma_norm(2, y_ind@, y_val@, x_ind@, x_val@); } }
//@ after let (short_iter, mut long_iter)
    let ghost sw = x_ind@.len() > y_ind@.len();
    let ghost si_ = if sw { y_ind@ } else { x_ind@ }; let ghost sv_ = if sw { y_val@ } else { x_val@ };
    let ghost li_ = if sw { x_ind@ } else { y_ind@ }; let ghost lv_ = if sw { x_val@ } else { y_val@ };
    let ghost lseq = long_iter.remaining();
    let ghost mut b: int = 0; let ghost mut q: int = 0;
//@ before for (si, sv)
    proof { lemma_start(2, si_, sv_, li_, lv_); }
//@ loop 0
    invariant it0.seq().len() == si_.len(),
        forall|i: int| 0 <= i < si_.len() ==> *(#[trigger] it0.seq()[i]).0 == si_[i] && *it0.seq()[i].1 == sv_[i],
        sorted(si_), sorted(li_), si_.len() == sv_.len(), li_.len() == lv_.len(),
        lnext(lseq, li_, lv_, q, l_tr, long_iter.remaining()),
        0 <= b <= full(), split(si_, it0.index() as int, b), split(li_, q, b), total@ == fsum(2, si_, sv_, li_, lv_, b),
//@ loop 1
    invariant it0.seq().len() == si_.len(), it0.index() < si_.len(), *si == si_[it0.index() as int], *sv == sv_[it0.index() as int],
        forall|i: int| 0 <= i < si_.len() ==> *(#[trigger] it0.seq()[i]).0 == si_[i] && *it0.seq()[i].1 == sv_[i],
        sorted(si_), sorted(li_), si_.len() == sv_.len(), li_.len() == lv_.len(),
        lnext(lseq, li_, lv_, q, l_tr, long_iter.remaining()),
        0 <= b <= full(), split(si_, it0.index() as int, b), split(li_, q, b), total@ == fsum(2, si_, sv_, li_, lv_, b),
    ensures q >= li_.len() || li_[q] >= *si,
//@ before l_tr = long_iter . next ()
    proof { let p = it0.index() as int; lemma_take(2, si_, sv_, li_, lv_, p, q, b, *li as int, false, true); lemma_term(2, lv_[q].as_real()); b = *li as int + 1; q = q + 1; }
//@ before if let Some ((li, lv)) = l_tr
    let ghost b0 = b; let ghost q0 = q;
//@ loopend 0
    proof {
        let p = it0.index() as int; let both = q0 < li_.len() && li_[q0] == *si;
        lemma_take(2, si_, sv_, li_, lv_, p, q0, b0, *si as int, true, both);
        lemma_term(2, sv_[p].as_real()); if both { lemma_term2(2, sv_[p].as_real(), lv_[q0].as_real()); }
        b = *si as int + 1; if both { q = q0 + 1; }
    }
//@ loop 2
    invariant sorted(si_), sorted(li_), si_.len() == sv_.len(), li_.len() == lv_.len(),
        lnext(lseq, li_, lv_, q, l_tr, long_iter.remaining()),
        0 <= b <= full(), split(si_, si_.len() as int, b), split(li_, q, b), total@ == fsum(2, si_, sv_, li_, lv_, b),
    ensures q >= li_.len(),
//@ before#3 l_tr = long_iter . next ()
    proof { lemma_take(2, si_, sv_, li_, lv_, si_.len() as int, q, b, li_[q] as int, false, true); lemma_term(2, lv_[q].as_real()); b = li_[q] as int + 1; q = q + 1; }
//@ loopafter 2
    proof { lemma_end(2, si_, sv_, li_, lv_, b); }
//@ end

//@ fn m2i8 L2 as Metric<[i8]>::dist
//@ name dist_l2_i8
//@ subst x . deref () => x
//@ subst y . deref () => y
//@ spec
    requires x@.len() == y@.len(),
    ensures res@ == fin(2, dsum(2, x@, y@)),
//@ end
//@ fn m2i8 L2 as Metric<RawSparse<i8,u32>>::dist
//@ name dist_l2_i8_u32
//@ spec
    requires x.ok(), y.ok(),
    ensures res@ == fin(2, fsum(2, x.ix(), x.vx(), y.ix(), y.vx(), full())),
//@ end
//@ fn m2i8 L2 as Metric<RawSparse<i8,u16>>::dist
//@ name dist_l2_i8_u16
//@ spec
    requires x.ok(), y.ok(),
    ensures res@ == fin(2, fsum(2, x.ix(), x.vx(), y.ix(), y.vx(), full())),
//@ end
//@ fn m2i8 L2 as Metric<RawSparse<i8,u8>>::dist
//@ name dist_l2_i8_u8
//@ spec
    requires x.ok(), y.ok(),
    ensures res@ == fin(2, fsum(2, x.ix(), x.vx(), y.ix(), y.vx(), full())),
//@ end
//@ macro m1u8 pointcloud/src/metrics/l1_misc.rs make_l1_distance base=u8 simd_16_base=u8x16 simd_8_base=u8x8 sparse_base=l1_sparse_u8_f32 dist_base=l1_dense_u8 norm_base=l1_norm_u8
//@ fn m1u8 l1_dense_u8
//@ loops 2
//@ spec
    requires x@.len() == y@.len(),
    ensures res@ == dsum(1, x@, y@),
//@ start
    let ghost x0 = x@; let ghost y0 = y@;
//@ after let mut d_acc_16
    proof { lemma_rsum_zero(d_acc_16@); }
//@ after let mut d_acc_8
    proof { lemma_rsum_zero(d_acc_8@); } let ghost x1 = x@; let ghost y1 = y@;
//@ loop 0
    invariant x@.len() == y@.len(), d_acc_16@.len() == 16, rsum(d_acc_16@) + dsum(1, x@, y@) == dsum(1, x0, y0),
    decreases y@.len()
//@ loopstart 0
    let ghost xa = x@; let ghost ya = y@; let ghost aa = d_acc_16@;
//@ loopend 0
    proof { assert forall|i: int| 0 <= i < 16 implies #[trigger] d_acc_16@[i] == aa[i] + term(1, xa[i].as_real(), ya[i].as_real()) by { lemma_square(1, xa[i].as_real(), ya[i].as_real()); } lemma_dstep(1, xa, ya, 16, aa, d_acc_16@); }
//@ before let leftover
    proof { if y1.len() > 8 { let z = Seq::new(8, |i: int| 0real); lemma_rsum_zero(z); assert forall|i: int| 0 <= i < 8 implies #[trigger] d_acc_8@[i] == z[i] + term(1, x1[i].as_real(), y1[i].as_real()) by { lemma_square(1, x1[i].as_real(), y1[i].as_real()); } lemma_dstep(1, x1, y1, 8, z, d_acc_8@); } } let ghost x2 = x@; let ghost y2 = y@;
//@ loop 1
    invariant x2.len() == y2.len(), it1.seq().len() == y2.len(),
        forall|i: int| 0 <= i < it1.seq().len() ==> (*(#[trigger] it1.seq()[i]).0 == y2[i] && *it1.seq()[i].1 == x2[i]) || (*it1.seq()[i].0 == x2[i] && *it1.seq()[i].1 == y2[i]),
        __acc1@ == dsum(1, x2.take(it1.index() as int), y2.take(it1.index() as int)),
//@ loopend 1
    proof { let n = it1.index() as int; lemma_square(1, x2[n].as_real(), y2[n].as_real()); assert(x2.take(n + 1).drop_last() =~= x2.take(n)); assert(y2.take(n + 1).drop_last() =~= y2.take(n)); }
//@ after let leftover
    proof { assert(x@.take(x@.len() as int) =~= x@); assert(y@.take(y@.len() as int) =~= y@); }
//@ end
//@ fn m1u8 l1_norm_u8
//@ loops 2
//@ spec
    ensures res@ == nsum(1, x@),
//@ start
    let ghost x0 = x@;
//@ after let mut d_acc_16
    proof { lemma_rsum_zero(d_acc_16@); }
//@ after let mut d_acc_8
    proof { lemma_rsum_zero(d_acc_8@); } let ghost x1 = x@;
//@ loop 0
    invariant d_acc_16@.len() == 16, rsum(d_acc_16@) + nsum(1, x@) == nsum(1, x0),
    decreases x@.len()
//@ loopstart 0
    let ghost xa = x@; let ghost aa = d_acc_16@;
//@ loopend 0
    proof { assert forall|i: int| 0 <= i < 16 implies #[trigger] d_acc_16@[i] == aa[i] + term(1, xa[i].as_real(), 0real) by { lemma_square(1, xa[i].as_real(), 0real); } lemma_nstep(1, xa, 16, aa, d_acc_16@); }
//@ before let leftover
    proof { if x1.len() > 8 { let z = Seq::new(8, |i: int| 0real); lemma_rsum_zero(z); assert forall|i: int| 0 <= i < 8 implies #[trigger] d_acc_8@[i] == z[i] + term(1, x1[i].as_real(), 0real) by { lemma_square(1, x1[i].as_real(), 0real); } lemma_nstep(1, x1, 8, z, d_acc_8@); } } let ghost x2 = x@;
//@ loop 1
    invariant it1.seq().len() == x2.len(),
        forall|i: int| 0 <= i < it1.seq().len() ==> *(#[trigger] it1.seq()[i]) == x2[i],
        __acc1@ == nsum(1, x2.take(it1.index() as int)),
//@ loopend 1
    proof { let n = it1.index() as int; lemma_square(1, x2[n].as_real(), 0real); assert(x2.take(n + 1).drop_last() =~= x2.take(n)); }
//@ after let leftover
    proof { assert(x@.take(x@.len() as int) =~= x@); }
//@ end
//@ fn m1u8 l1_sparse_u8_f32
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ loops 3
//@ spec
    requires sorted(x_ind@), sorted(y_ind@), x_ind@.len() == x_val@.len(), y_ind@.len() == y_val@.len(),
    ensures res@ == fsum(1, x_ind@, x_val@, y_ind@, y_val@, full()),
//@ start
    hide(split); hide(sorted); hide(fsum); hide(at); hide(term); hide(nsum);
    proof { lemma_fsym(1, x_ind@, x_val@, y_ind@, y_val@, full()); if y_ind@.len() == 0 { lemma_norm(1, x_ind@, x_val@, y_ind@, y_val@); lemma_n0(1, x_val@); } if x_ind@.len() == 0 { lemma_norm(1, y_ind@, y_val@, x_ind@, x_val@); } }
//@ after let (short_iter, mut long_iter)
    let ghost sw = x_ind@.len() > y_ind@.len();
    let ghost si_ = if sw { y_ind@ } else { x_ind@ }; let ghost sv_ = if sw { y_val@ } else { x_val@ };
    let ghost li_ = if sw { x_ind@ } else { y_ind@ }; let ghost lv_ = if sw { x_val@ } else { y_val@ };
    let ghost lseq = long_iter.remaining();
    let ghost mut b: int = 0; let ghost mut q: int = 0;
//@ before for (si, sv)
    proof { lemma_start(1, si_, sv_, li_, lv_); }
//@ loop 0
    invariant it0.seq().len() == si_.len(),
        forall|i: int| 0 <= i < si_.len() ==> *(#[trigger] it0.seq()[i]).0 == si_[i] && *it0.seq()[i].1 == sv_[i],
        sorted(si_), sorted(li_), si_.len() == sv_.len(), li_.len() == lv_.len(),
        lnext(lseq, li_, lv_, q, l_tr, long_iter.remaining()),
        0 <= b <= full(), split(si_, it0.index() as int, b), split(li_, q, b), total@ == fsum(1, si_, sv_, li_, lv_, b),
//@ loop 1
    invariant it0.seq().len() == si_.len(), it0.index() < si_.len(), *si == si_[it0.index() as int], *sv == sv_[it0.index() as int],
        forall|i: int| 0 <= i < si_.len() ==> *(#[trigger] it0.seq()[i]).0 == si_[i] && *it0.seq()[i].1 == sv_[i],
        sorted(si_), sorted(li_), si_.len() == sv_.len(), li_.len() == lv_.len(),
        lnext(lseq, li_, lv_, q, l_tr, long_iter.remaining()),
        0 <= b <= full(), split(si_, it0.index() as int, b), split(li_, q, b), total@ == fsum(1, si_, sv_, li_, lv_, b),
    ensures q >= li_.len() || li_[q] >= *si,
//@ before l_tr = long_iter . next ()
    proof { let p = it0.index() as int; lemma_take(1, si_, sv_, li_, lv_, p, q, b, *li as int, false, true); lemma_term(1, lv_[q].as_real()); b = *li as int + 1; q = q + 1; }
//@ before if let Some ((li, lv)) = l_tr
    let ghost b0 = b; let ghost q0 = q;
//@ loopend 0
    proof {
        let p = it0.index() as int; let both = q0 < li_.len() && li_[q0] == *si;
        lemma_take(1, si_, sv_, li_, lv_, p, q0, b0, *si as int, true, both);
        lemma_term(1, sv_[p].as_real()); if both { lemma_term2(1, sv_[p].as_real(), lv_[q0].as_real()); }
        b = *si as int + 1; if both { q = q0 + 1; }
    }
//@ loop 2
    invariant sorted(si_), sorted(li_), si_.len() == sv_.len(), li_.len() == lv_.len(),
        lnext(lseq, li_, lv_, q, l_tr, long_iter.remaining()),
        0 <= b <= full(), split(si_, si_.len() as int, b), split(li_, q, b), total@ == fsum(1, si_, sv_, li_, lv_, b),
    ensures q >= li_.len(),
//@ before#3 l_tr = long_iter . next ()
    proof { lemma_take(1, si_, sv_, li_, lv_, si_.len() as int, q, b, li_[q] as int, false, true); lemma_term(1, lv_[q].as_real()); b = li_[q] as int + 1; q = q + 1; }
//@ loopafter 2
    proof { lemma_end(1, si_, sv_, li_, lv_, b); }
//@ end

//@ fn m1u8 L1 as Metric<[u8]>::dist
//@ name dist_l1_u8
//@ subst x . deref () => x
//@ subst y . deref () => y
//@ spec
    requires x@.len() == y@.len(),
    ensures res@ == fin(1, dsum(1, x@, y@)),
//@ end
//@ fn m1u8 L1 as Metric<RawSparse<u8,u32>>::dist
//@ name dist_l1_u8_u32
//@ spec
    requires x.ok(), y.ok(),
    ensures res@ == fin(1, fsum(1, x.ix(), x.vx(), y.ix(), y.vx(), full())),
//@ end
//@ fn m1u8 L1 as Metric<RawSparse<u8,u16>>::dist
//@ name dist_l1_u8_u16
//@ spec
    requires x.ok(), y.ok(),
    ensures res@ == fin(1, fsum(1, x.ix(), x.vx(), y.ix(), y.vx(), full())),
//@ end
//@ fn m1u8 L1 as Metric<RawSparse<u8,u8>>::dist
//@ name dist_l1_u8_u8
//@ spec
    requires x.ok(), y.ok(),
    ensures res@ == fin(1, fsum(1, x.ix(), x.vx(), y.ix(), y.vx(), full())),
//@ end
//@ macro m2u8 pointcloud/src/metrics/l2_misc.rs make_l2_distance base=u8 simd_16_base=u8x16 simd_8_base=u8x8 sparse_base=l2_sparse_u8_f32 dist_base=l2_dense_u8 norm_base=l2_norm_u8
//@ fn m2u8 l2_dense_u8
//@ loops 2
//@ spec
    requires x@.len() == y@.len(),
    ensures res@ == dsum(2, x@, y@),
//@ start
    let ghost x0 = x@; let ghost y0 = y@;
//@ after let mut d_acc_16
    proof { lemma_rsum_zero(d_acc_16@); }
//@ after let mut d_acc_8
    proof { lemma_rsum_zero(d_acc_8@); } let ghost x1 = x@; let ghost y1 = y@;
//@ loop 0
    invariant x@.len() == y@.len(), d_acc_16@.len() == 16, rsum(d_acc_16@) + dsum(2, x@, y@) == dsum(2, x0, y0),
    decreases y@.len()
//@ loopstart 0
    let ghost xa = x@; let ghost ya = y@; let ghost aa = d_acc_16@;
//@ loopend 0
    proof { assert forall|i: int| 0 <= i < 16 implies #[trigger] d_acc_16@[i] == aa[i] + term(2, xa[i].as_real(), ya[i].as_real()) by { lemma_square(2, xa[i].as_real(), ya[i].as_real()); } lemma_dstep(2, xa, ya, 16, aa, d_acc_16@); }
//@ before let leftover
    proof { if y1.len() > 8 { let z = Seq::new(8, |i: int| 0real); lemma_rsum_zero(z); assert forall|i: int| 0 <= i < 8 implies #[trigger] d_acc_8@[i] == z[i] + term(2, x1[i].as_real(), y1[i].as_real()) by { lemma_square(2, x1[i].as_real(), y1[i].as_real()); } lemma_dstep(2, x1, y1, 8, z, d_acc_8@); } } let ghost x2 = x@; let ghost y2 = y@;
//@ loop 1
    invariant x2.len() == y2.len(), it1.seq().len() == y2.len(),
        forall|i: int| 0 <= i < it1.seq().len() ==> (*(#[trigger] it1.seq()[i]).0 == y2[i] && *it1.seq()[i].1 == x2[i]) || (*it1.seq()[i].0 == x2[i] && *it1.seq()[i].1 == y2[i]),
        __acc1@ == dsum(2, x2.take(it1.index() as int), y2.take(it1.index() as int)),
//@ loopend 1
    proof { let n = it1.index() as int; lemma_square(2, x2[n].as_real(), y2[n].as_real()); assert(x2.take(n + 1).drop_last() =~= x2.take(n)); assert(y2.take(n + 1).drop_last() =~= y2.take(n)); }
//@ after let leftover
    proof { assert(x@.take(x@.len() as int) =~= x@); assert(y@.take(y@.len() as int) =~= y@); }
//@ end
//@ fn m2u8 l2_norm_u8
//@ loops 2
//@ spec
    ensures res@ == nsum(2, x@),
//@ start
    let ghost x0 = x@;
//@ after let mut d_acc_16
    proof { lemma_rsum_zero(d_acc_16@); }
//@ after let mut d_acc_8
    proof { lemma_rsum_zero(d_acc_8@); } let ghost x1 = x@;
//@ loop 0
    invariant d_acc_16@.len() == 16, rsum(d_acc_16@) + nsum(2, x@) == nsum(2, x0),
    decreases x@.len()
//@ loopstart 0
    let ghost xa = x@; let ghost aa = d_acc_16@;
//@ loopend 0
    proof { assert forall|i: int| 0 <= i < 16 implies #[trigger] d_acc_16@[i] == aa[i] + term(2, xa[i].as_real(), 0real) by { lemma_square(2, xa[i].as_real(), 0real); } lemma_nstep(2, xa, 16, aa, d_acc_16@); }
//@ before let leftover
    proof { if x1.len() > 8 { let z = Seq::new(8, |i: int| 0real); lemma_rsum_zero(z); assert forall|i: int| 0 <= i < 8 implies #[trigger] d_acc_8@[i] == z[i] + term(2, x1[i].as_real(), 0real) by { lemma_square(2, x1[i].as_real(), 0real); } lemma_nstep(2, x1, 8, z, d_acc_8@); } } let ghost x2 = x@;
//@ loop 1
    invariant it1.seq().len() == x2.len(),
        forall|i: int| 0 <= i < it1.seq().len() ==> *(#[trigger] it1.seq()[i]) == x2[i],
        __acc1@ == nsum(2, x2.take(it1.index() as int)),
//@ loopend 1
    proof { let n = it1.index() as int; lemma_square(2, x2[n].as_real(), 0real); assert(x2.take(n + 1).drop_last() =~= x2.take(n)); }
//@ after let leftover
    proof { assert(x@.take(x@.len() as int) =~= x@); }
//@ end
//@ fn m2u8 l2_sparse_u8_f32
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ loops 3
//@ spec
    requires sorted(x_ind@), sorted(y_ind@), x_ind@.len() == x_val@.len(), y_ind@.len() == y_val@.len(),
    ensures res@ == fsum(2, x_ind@, x_val@, y_ind@, y_val@, full()),
//@ start
    hide(split); hide(sorted); hide(fsum); hide(at); hide(term); hide(nsum);
    proof { lemma_fsym(2, x_ind@, x_val@, y_ind@, y_val@, full()); if y_ind@.len() == 0 { lemma_norm(2, x_ind@, x_val@, y_ind@, y_val@); lemma_n0(2, x_val@); } if x_ind@.len() == 0 { lemma_norm(2, y_ind@, y_val@, x_ind@, x_val@); } }
//@ after let (short_iter, mut long_iter)
    let ghost sw = x_ind@.len() > y_ind@.len();
    let ghost si_ = if sw { y_ind@ } else { x_ind@ }; let ghost sv_ = if sw { y_val@ } else { x_val@ };
    let ghost li_ = if sw { x_ind@ } else { y_ind@ }; let ghost lv_ = if sw { x_val@ } else { y_val@ };
    let ghost lseq = long_iter.remaining();
    let ghost mut b: int = 0; let ghost mut q: int = 0;
//@ before for (si, sv)
    proof { lemma_start(2, si_, sv_, li_, lv_); }
//@ loop 0
    invariant it0.seq().len() == si_.len(),
        forall|i: int| 0 <= i < si_.len() ==> *(#[trigger] it0.seq()[i]).0 == si_[i] && *it0.seq()[i].1 == sv_[i],
        sorted(si_), sorted(li_), si_.len() == sv_.len(), li_.len() == lv_.len(),
        lnext(lseq, li_, lv_, q, l_tr, long_iter.remaining()),
        0 <= b <= full(), split(si_, it0.index() as int, b), split(li_, q, b), total@ == fsum(2, si_, sv_, li_, lv_, b),
//@ loop 1
    invariant it0.seq().len() == si_.len(), it0.index() < si_.len(), *si == si_[it0.index() as int], *sv == sv_[it0.index() as int],
        forall|i: int| 0 <= i < si_.len() ==> *(#[trigger] it0.seq()[i]).0 == si_[i] && *it0.seq()[i].1 == sv_[i],
        sorted(si_), sorted(li_), si_.len() == sv_.len(), li_.len() == lv_.len(),
        lnext(lseq, li_, lv_, q, l_tr, long_iter.remaining()),
        0 <= b <= full(), split(si_, it0.index() as int, b), split(li_, q, b), total@ == fsum(2, si_, sv_, li_, lv_, b),
    ensures q >= li_.len() || li_[q] >= *si,
//@ before l_tr = long_iter . next ()
    proof { let p = it0.index() as int; lemma_take(2, si_, sv_, li_, lv_, p, q, b, *li as int, false, true); lemma_term(2, lv_[q].as_real()); b = *li as int + 1; q = q + 1; }
//@ before if let Some ((li, lv)) = l_tr
    let ghost b0 = b; let ghost q0 = q;
//@ loopend 0
    proof {
        let p = it0.index() as int; let both = q0 < li_.len() && li_[q0] == *si;
        lemma_take(2, si_, sv_, li_, lv_, p, q0, b0, *si as int, true, both);
        lemma_term(2, sv_[p].as_real()); if both { lemma_term2(2, sv_[p].as_real(), lv_[q0].as_real()); }
        b = *si as int + 1; if both { q = q0 + 1; }
    }
//@ loop 2
    invariant sorted(si_), sorted(li_), si_.len() == sv_.len(), li_.len() == lv_.len(),
        lnext(lseq, li_, lv_, q, l_tr, long_iter.remaining()),
        0 <= b <= full(), split(si_, si_.len() as int, b), split(li_, q, b), total@ == fsum(2, si_, sv_, li_, lv_, b),
    ensures q >= li_.len(),
//@ before#3 l_tr = long_iter . next ()
    proof { lemma_take(2, si_, sv_, li_, lv_, si_.len() as int, q, b, li_[q] as int, false, true); lemma_term(2, lv_[q].as_real()); b = li_[q] as int + 1; q = q + 1; }
//@ loopafter 2
    proof { lemma_end(2, si_, sv_, li_, lv_, b); }
//@ end

//@ fn m2u8 L2 as Metric<[u8]>::dist
//@ name dist_l2_u8
//@ subst x . deref () => x
//@ subst y . deref () => y
//@ spec
    requires x@.len() == y@.len(),
    ensures res@ == fin(2, dsum(2, x@, y@)),
//@ end
//@ fn m2u8 L2 as Metric<RawSparse<u8,u32>>::dist
//@ name dist_l2_u8_u32
//@ spec
    requires x.ok(), y.ok(),
    ensures res@ == fin(2, fsum(2, x.ix(), x.vx(), y.ix(), y.vx(), full())),
//@ end
//@ fn m2u8 L2 as Metric<RawSparse<u8,u16>>::dist
//@ name dist_l2_u8_u16
//@ spec
    requires x.ok(), y.ok(),
    ensures res@ == fin(2, fsum(2, x.ix(), x.vx(), y.ix(), y.vx(), full())),
//@ end
//@ fn m2u8 L2 as Metric<RawSparse<u8,u8>>::dist
//@ name dist_l2_u8_u8
//@ spec
    requires x.ok(), y.ok(),
    ensures res@ == fin(2, fsum(2, x.ix(), x.vx(), y.ix(), y.vx(), full())),
//@ end
//@ macro m1i16 pointcloud/src/metrics/l1_misc.rs make_l1_distance base=i16 simd_16_base=i16x16 simd_8_base=i16x8 sparse_base=l1_sparse_i16_f32 dist_base=l1_dense_i16 norm_base=l1_norm_i16
//@ fn m1i16 l1_dense_i16
//@ loops 2
//@ spec
    requires x@.len() == y@.len(),
    ensures res@ == dsum(1, x@, y@),
//@ start
    let ghost x0 = x@; let ghost y0 = y@;
//@ after let mut d_acc_16
    proof { lemma_rsum_zero(d_acc_16@); }
//@ after let mut d_acc_8
    proof { lemma_rsum_zero(d_acc_8@); } let ghost x1 = x@; let ghost y1 = y@;
//@ loop 0
    invariant x@.len() == y@.len(), d_acc_16@.len() == 16, rsum(d_acc_16@) + dsum(1, x@, y@) == dsum(1, x0, y0),
    decreases y@.len()
//@ loopstart 0
    let ghost xa = x@; let ghost ya = y@; let ghost aa = d_acc_16@;
//@ loopend 0
    proof { assert forall|i: int| 0 <= i < 16 implies #[trigger] d_acc_16@[i] == aa[i] + term(1, xa[i].as_real(), ya[i].as_real()) by { lemma_square(1, xa[i].as_real(), ya[i].as_real()); } lemma_dstep(1, xa, ya, 16, aa, d_acc_16@); }
//@ before let leftover
    proof { if y1.len() > 8 { let z = Seq::new(8, |i: int| 0real); lemma_rsum_zero(z); assert forall|i: int| 0 <= i < 8 implies #[trigger] d_acc_8@[i] == z[i] + term(1, x1[i].as_real(), y1[i].as_real()) by { lemma_square(1, x1[i].as_real(), y1[i].as_real()); } lemma_dstep(1, x1, y1, 8, z, d_acc_8@); } } let ghost x2 = x@; let ghost y2 = y@;
//@ loop 1
    invariant x2.len() == y2.len(), it1.seq().len() == y2.len(),
        forall|i: int| 0 <= i < it1.seq().len() ==> (*(#[trigger] it1.seq()[i]).0 == y2[i] && *it1.seq()[i].1 == x2[i]) || (*it1.seq()[i].0 == x2[i] && *it1.seq()[i].1 == y2[i]),
        __acc1@ == dsum(1, x2.take(it1.index() as int), y2.take(it1.index() as int)),
//@ loopend 1
    proof { let n = it1.index() as int; lemma_square(1, x2[n].as_real(), y2[n].as_real()); assert(x2.take(n + 1).drop_last() =~= x2.take(n)); assert(y2.take(n + 1).drop_last() =~= y2.take(n)); }
//@ after let leftover
    proof { assert(x@.take(x@.len() as int) =~= x@); assert(y@.take(y@.len() as int) =~= y@); }
//@ end
//@ fn m1i16 l1_norm_i16
//@ loops 2
//@ spec
    ensures res@ == nsum(1, x@),
//@ start
    let ghost x0 = x@;
//@ after let mut d_acc_16
    proof { lemma_rsum_zero(d_acc_16@); }
//@ after let mut d_acc_8
    proof { lemma_rsum_zero(d_acc_8@); } let ghost x1 = x@;
//@ loop 0
    invariant d_acc_16@.len() == 16, rsum(d_acc_16@) + nsum(1, x@) == nsum(1, x0),
    decreases x@.len()
//@ loopstart 0
    let ghost xa = x@; let ghost aa = d_acc_16@;
//@ loopend 0
    proof { assert forall|i: int| 0 <= i < 16 implies #[trigger] d_acc_16@[i] == aa[i] + term(1, xa[i].as_real(), 0real) by { lemma_square(1, xa[i].as_real(), 0real); } lemma_nstep(1, xa, 16, aa, d_acc_16@); }
//@ before let leftover
    proof { if x1.len() > 8 { let z = Seq::new(8, |i: int| 0real); lemma_rsum_zero(z); assert forall|i: int| 0 <= i < 8 implies #[trigger] d_acc_8@[i] == z[i] + term(1, x1[i].as_real(), 0real) by { lemma_square(1, x1[i].as_real(), 0real); } lemma_nstep(1, x1, 8, z, d_acc_8@); } } let ghost x2 = x@;
//@ loop 1
    invariant it1.seq().len() == x2.len(),
        forall|i: int| 0 <= i < it1.seq().len() ==> *(#[trigger] it1.seq()[i]) == x2[i],
        __acc1@ == nsum(1, x2.take(it1.index() as int)),
//@ loopend 1
    proof { let n = it1.index() as int; lemma_square(1, x2[n].as_real(), 0real); assert(x2.take(n + 1).drop_last() =~= x2.take(n)); }
//@ after let leftover
    proof { assert(x@.take(x@.len() as int) =~= x@); }
//@ end
//@ fn m1i16 l1_sparse_i16_f32
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ loops 3
//@ spec
    requires sorted(x_ind@), sorted(y_ind@), x_ind@.len() == x_val@.len(), y_ind@.len() == y_val@.len(),
    ensures res@ == fsum(1, x_ind@, x_val@, y_ind@, y_val@, full()),
//@ start
    hide(split); hide(sorted); hide(fsum); hide(at); hide(term); hide(nsum);
    proof { lemma_fsym(1, x_ind@, x_val@, y_ind@, y_val@, full()); if y_ind@.len() == 0 { lemma_norm(1, x_ind@, x_val@, y_ind@, y_val@); lemma_n0(1, x_val@); } if x_ind@.len() == 0 { lemma_norm(1, y_ind@, y_val@, x_ind@, x_val@); } }
//@ after let (short_iter, mut long_iter)
    let ghost sw = x_ind@.len() > y_ind@.len();
    let ghost si_ = if sw { y_ind@ } else { x_ind@ }; let ghost sv_ = if sw { y_val@ } else { x_val@ };
    let ghost li_ = if sw { x_ind@ } else { y_ind@ }; let ghost lv_ = if sw { x_val@ } else { y_val@ };
    let ghost lseq = long_iter.remaining();
    let ghost mut b: int = 0; let ghost mut q: int = 0;
//@ before for (si, sv)
    proof { lemma_start(1, si_, sv_, li_, lv_); }
//@ loop 0
    invariant it0.seq().len() == si_.len(),
        forall|i: int| 0 <= i < si_.len() ==> *(#[trigger] it0.seq()[i]).0 == si_[i] && *it0.seq()[i].1 == sv_[i],
        sorted(si_), sorted(li_), si_.len() == sv_.len(), li_.len() == lv_.len(),
        lnext(lseq, li_, lv_, q, l_tr, long_iter.remaining()),
        0 <= b <= full(), split(si_, it0.index() as int, b), split(li_, q, b), total@ == fsum(1, si_, sv_, li_, lv_, b),
//@ loop 1
    invariant it0.seq().len() == si_.len(), it0.index() < si_.len(), *si == si_[it0.index() as int], *sv == sv_[it0.index() as int],
        forall|i: int| 0 <= i < si_.len() ==> *(#[trigger] it0.seq()[i]).0 == si_[i] && *it0.seq()[i].1 == sv_[i],
        sorted(si_), sorted(li_), si_.len() == sv_.len(), li_.len() == lv_.len(),
        lnext(lseq, li_, lv_, q, l_tr, long_iter.remaining()),
        0 <= b <= full(), split(si_, it0.index() as int, b), split(li_, q, b), total@ == fsum(1, si_, sv_, li_, lv_, b),
    ensures q >= li_.len() || li_[q] >= *si,
//@ before l_tr = long_iter . next ()
    proof { let p = it0.index() as int; lemma_take(1, si_, sv_, li_, lv_, p, q, b, *li as int, false, true); lemma_term(1, lv_[q].as_real()); b = *li as int + 1; q = q + 1; }
//@ before if let Some ((li, lv)) = l_tr
    let ghost b0 = b; let ghost q0 = q;
//@ loopend 0
    proof {
        let p = it0.index() as int; let both = q0 < li_.len() && li_[q0] == *si;
        lemma_take(1, si_, sv_, li_, lv_, p, q0, b0, *si as int, true, both);
        lemma_term(1, sv_[p].as_real()); if both { lemma_term2(1, sv_[p].as_real(), lv_[q0].as_real()); }
        b = *si as int + 1; if both { q = q0 + 1; }
    }
//@ loop 2
    invariant sorted(si_), sorted(li_), si_.len() == sv_.len(), li_.len() == lv_.len(),
        lnext(lseq, li_, lv_, q, l_tr, long_iter.remaining()),
        0 <= b <= full(), split(si_, si_.len() as int, b), split(li_, q, b), total@ == fsum(1, si_, sv_, li_, lv_, b),
    ensures q >= li_.len(),
//@ before#3 l_tr = long_iter . next ()
    proof { lemma_take(1, si_, sv_, li_, lv_, si_.len() as int, q, b, li_[q] as int, false, true); lemma_term(1, lv_[q].as_real()); b = li_[q] as int + 1; q = q + 1; }
//@ loopafter 2
    proof { lemma_end(1, si_, sv_, li_, lv_, b); }
//@ end

//@ fn m1i16 L1 as Metric<[i16]>::dist
//@ name dist_l1_i16
//@ subst x . deref () => x
//@ subst y . deref () => y
//@ spec
    requires x@.len() == y@.len(),
    ensures res@ == fin(1, dsum(1, x@, y@)),
//@ end
//@ fn m1i16 L1 as Metric<RawSparse<i16,u32>>::dist
//@ name dist_l1_i16_u32
//@ spec
    requires x.ok(), y.ok(),
    ensures res@ == fin(1, fsum(1, x.ix(), x.vx(), y.ix(), y.vx(), full())),
//@ end
//@ fn m1i16 L1 as Metric<RawSparse<i16,u16>>::dist
//@ name dist_l1_i16_u16
//@ spec
    requires x.ok(), y.ok(),
    ensures res@ == fin(1, fsum(1, x.ix(), x.vx(), y.ix(), y.vx(), full())),
//@ end
//@ fn m1i16 L1 as Metric<RawSparse<i16,u8>>::dist
//@ name dist_l1_i16_u8
//@ spec
    requires x.ok(), y.ok(),
    ensures res@ == fin(1, fsum(1, x.ix(), x.vx(), y.ix(), y.vx(), full())),
//@ end
//@ macro m2i16 pointcloud/src/metrics/l2_misc.rs make_l2_distance base=i16 simd_16_base=i16x16 simd_8_base=i16x8 sparse_base=l2_sparse_i16_f32 dist_base=l2_dense_i16 norm_base=l2_norm_i16
//@ fn m2i16 l2_dense_i16
//@ loops 2
//@ spec
    requires x@.len() == y@.len(),
    ensures res@ == dsum(2, x@, y@),
//@ start
    let ghost x0 = x@; let ghost y0 = y@;
//@ after let mut d_acc_16
    proof { lemma_rsum_zero(d_acc_16@); }
//@ after let mut d_acc_8
    proof { lemma_rsum_zero(d_acc_8@); } let ghost x1 = x@; let ghost y1 = y@;
//@ loop 0
    invariant x@.len() == y@.len(), d_acc_16@.len() == 16, rsum(d_acc_16@) + dsum(2, x@, y@) == dsum(2, x0, y0),
    decreases y@.len()
//@ loopstart 0
    let ghost xa = x@; let ghost ya = y@; let ghost aa = d_acc_16@;
//@ loopend 0
    proof { assert forall|i: int| 0 <= i < 16 implies #[trigger] d_acc_16@[i] == aa[i] + term(2, xa[i].as_real(), ya[i].as_real()) by { lemma_square(2, xa[i].as_real(), ya[i].as_real()); } lemma_dstep(2, xa, ya, 16, aa, d_acc_16@); }
//@ before let leftover
    proof { if y1.len() > 8 { let z = Seq::new(8, |i: int| 0real); lemma_rsum_zero(z); assert forall|i: int| 0 <= i < 8 implies #[trigger] d_acc_8@[i] == z[i] + term(2, x1[i].as_real(), y1[i].as_real()) by { lemma_square(2, x1[i].as_real(), y1[i].as_real()); } lemma_dstep(2, x1, y1, 8, z, d_acc_8@); } } let ghost x2 = x@; let ghost y2 = y@;
//@ loop 1
    invariant x2.len() == y2.len(), it1.seq().len() == y2.len(),
        forall|i: int| 0 <= i < it1.seq().len() ==> (*(#[trigger] it1.seq()[i]).0 == y2[i] && *it1.seq()[i].1 == x2[i]) || (*it1.seq()[i].0 == x2[i] && *it1.seq()[i].1 == y2[i]),
        __acc1@ == dsum(2, x2.take(it1.index() as int), y2.take(it1.index() as int)),
//@ loopend 1
    proof { let n = it1.index() as int; lemma_square(2, x2[n].as_real(), y2[n].as_real()); assert(x2.take(n + 1).drop_last() =~= x2.take(n)); assert(y2.take(n + 1).drop_last() =~= y2.take(n)); }
//@ after let leftover
    proof { assert(x@.take(x@.len() as int) =~= x@); assert(y@.take(y@.len() as int) =~= y@); }
//@ end
//@ fn m2i16 l2_norm_i16
//@ loops 2
//@ spec
    ensures res@ == nsum(2, x@),
//@ start
    let ghost x0 = x@;
//@ after let mut d_acc_16
    proof { lemma_rsum_zero(d_acc_16@); }
//@ after let mut d_acc_8
    proof { lemma_rsum_zero(d_acc_8@); } let ghost x1 = x@;
//@ loop 0
    invariant d_acc_16@.len() == 16, rsum(d_acc_16@) + nsum(2, x@) == nsum(2, x0),
    decreases x@.len()
//@ loopstart 0
    let ghost xa = x@; let ghost aa = d_acc_16@;
//@ loopend 0
    proof { assert forall|i: int| 0 <= i < 16 implies #[trigger] d_acc_16@[i] == aa[i] + term(2, xa[i].as_real(), 0real) by { lemma_square(2, xa[i].as_real(), 0real); } lemma_nstep(2, xa, 16, aa, d_acc_16@); }
//@ before let leftover
    proof { if x1.len() > 8 { let z = Seq::new(8, |i: int| 0real); lemma_rsum_zero(z); assert forall|i: int| 0 <= i < 8 implies #[trigger] d_acc_8@[i] == z[i] + term(2, x1[i].as_real(), 0real) by { lemma_square(2, x1[i].as_real(), 0real); } lemma_nstep(2, x1, 8, z, d_acc_8@); } } let ghost x2 = x@;
//@ loop 1
    invariant it1.seq().len() == x2.len(),
        forall|i: int| 0 <= i < it1.seq().len() ==> *(#[trigger] it1.seq()[i]) == x2[i],
        __acc1@ == nsum(2, x2.take(it1.index() as int)),
//@ loopend 1
    proof { let n = it1.index() as int; lemma_square(2, x2[n].as_real(), 0real); assert(x2.take(n + 1).drop_last() =~= x2.take(n)); }
//@ after let leftover
    proof { assert(x@.take(x@.len() as int) =~= x@); }
//@ end
//@ fn m2i16 l2_sparse_i16_f32
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ loops 3
//@ spec
    requires sorted(x_ind@), sorted(y_ind@), x_ind@.len() == x_val@.len(), y_ind@.len() == y_val@.len(),
    ensures res@ == fsum(2, x_ind@, x_val@, y_ind@, y_val@, full()),
//@ start
    hide(split); hide(sorted); hide(fsum); hide(at); hide(term); hide(nsum);
    proof { lemma_fsym(2, x_ind@, x_val@, y_ind@, y_val@, full()); if y_ind@.len() == 0 { lemma_norm(2, x_ind@, x_val@, y_ind@, y_val@); lemma_n0(2, x_val@); } if x_ind@.len() == 0 { lemma_norm(2, y_ind@, y_val@, x_ind@, x_val@); } }
//@ after let (short_iter, mut long_iter)
    let ghost sw = x_ind@.len() > y_ind@.len();
    let ghost si_ = if sw { y_ind@ } else { x_ind@ }; let ghost sv_ = if sw { y_val@ } else { x_val@ };
    let ghost li_ = if sw { x_ind@ } else { y_ind@ }; let ghost lv_ = if sw { x_val@ } else { y_val@ };
    let ghost lseq = long_iter.remaining();
    let ghost mut b: int = 0; let ghost mut q: int = 0;
//@ before for (si, sv)
    proof { lemma_start(2, si_, sv_, li_, lv_); }
//@ loop 0
    invariant it0.seq().len() == si_.len(),
        forall|i: int| 0 <= i < si_.len() ==> *(#[trigger] it0.seq()[i]).0 == si_[i] && *it0.seq()[i].1 == sv_[i],
        sorted(si_), sorted(li_), si_.len() == sv_.len(), li_.len() == lv_.len(),
        lnext(lseq, li_, lv_, q, l_tr, long_iter.remaining()),
        0 <= b <= full(), split(si_, it0.index() as int, b), split(li_, q, b), total@ == fsum(2, si_, sv_, li_, lv_, b),
//@ loop 1
    invariant it0.seq().len() == si_.len(), it0.index() < si_.len(), *si == si_[it0.index() as int], *sv == sv_[it0.index() as int],
        forall|i: int| 0 <= i < si_.len() ==> *(#[trigger] it0.seq()[i]).0 == si_[i] && *it0.seq()[i].1 == sv_[i],
        sorted(si_), sorted(li_), si_.len() == sv_.len(), li_.len() == lv_.len(),
        lnext(lseq, li_, lv_, q, l_tr, long_iter.remaining()),
        0 <= b <= full(), split(si_, it0.index() as int, b), split(li_, q, b), total@ == fsum(2, si_, sv_, li_, lv_, b),
    ensures q >= li_.len() || li_[q] >= *si,
//@ before l_tr = long_iter . next ()
    proof { let p = it0.index() as int; lemma_take(2, si_, sv_, li_, lv_, p, q, b, *li as int, false, true); lemma_term(2, lv_[q].as_real()); b = *li as int + 1; q = q + 1; }
//@ before if let Some ((li, lv)) = l_tr
    let ghost b0 = b; let ghost q0 = q;
//@ loopend 0
    proof {
        let p = it0.index() as int; let both = q0 < li_.len() && li_[q0] == *si;
        lemma_take(2, si_, sv_, li_, lv_, p, q0, b0, *si as int, true, both);
        lemma_term(2, sv_[p].as_real()); if both { lemma_term2(2, sv_[p].as_real(), lv_[q0].as_real()); }
        b = *si as int + 1; if both { q = q0 + 1; }
    }
//@ loop 2
    invariant sorted(si_), sorted(li_), si_.len() == sv_.len(), li_.len() == lv_.len(),
        lnext(lseq, li_, lv_, q, l_tr, long_iter.remaining()),
        0 <= b <= full(), split(si_, si_.len() as int, b), split(li_, q, b), total@ == fsum(2, si_, sv_, li_, lv_, b),
    ensures q >= li_.len(),
//@ before#3 l_tr = long_iter . next ()
    proof { lemma_take(2, si_, sv_, li_, lv_, si_.len() as int, q, b, li_[q] as int, false, true); lemma_term(2, lv_[q].as_real()); b = li_[q] as int + 1; q = q + 1; }
//@ loopafter 2
    proof { lemma_end(2, si_, sv_, li_, lv_, b); }
//@ end

//@ fn m2i16 L2 as Metric<[i16]>::dist
//@ name dist_l2_i16
//@ subst x . deref () => x
//@ subst y . deref () => y
//@ spec
    requires x@.len() == y@.len(),
    ensures res@ == fin(2, dsum(2, x@, y@)),
//@ end
//@ fn m2i16 L2 as Metric<RawSparse<i16,u32>>::dist
//@ name dist_l2_i16_u32
//@ spec
    requires x.ok(), y.ok(),
    ensures res@ == fin(2, fsum(2, x.ix(), x.vx(), y.ix(), y.vx(), full())),
//@ end
//@ fn m2i16 L2 as Metric<RawSparse<i16,u16>>::dist
//@ name dist_l2_i16_u16
//@ spec
    requires x.ok(), y.ok(),
    ensures res@ == fin(2, fsum(2, x.ix(), x.vx(), y.ix(), y.vx(), full())),
//@ end
//@ fn m2i16 L2 as Metric<RawSparse<i16,u8>>::dist
//@ name dist_l2_i16_u8
//@ spec
    requires x.ok(), y.ok(),
    ensures res@ == fin(2, fsum(2, x.ix(), x.vx(), y.ix(), y.vx(), full())),
//@ end
//@ macro m1u16 pointcloud/src/metrics/l1_misc.rs make_l1_distance base=u16 simd_16_base=u16x16 simd_8_base=u16x8 sparse_base=l1_sparse_u16_f32 dist_base=l1_dense_u16 norm_base=l1_norm_u16
//@ fn m1u16 l1_dense_u16
//@ loops 2
//@ spec
    requires x@.len() == y@.len(),
    ensures res@ == dsum(1, x@, y@),
//@ start
    let ghost x0 = x@; let ghost y0 = y@;
//@ after let mut d_acc_16
    proof { lemma_rsum_zero(d_acc_16@); }
//@ after let mut d_acc_8
    proof { lemma_rsum_zero(d_acc_8@); } let ghost x1 = x@; let ghost y1 = y@;
//@ loop 0
    invariant x@.len() == y@.len(), d_acc_16@.len() == 16, rsum(d_acc_16@) + dsum(1, x@, y@) == dsum(1, x0, y0),
    decreases y@.len()
//@ loopstart 0
    let ghost xa = x@; let ghost ya = y@; let ghost aa = d_acc_16@;
//@ loopend 0
    proof { assert forall|i: int| 0 <= i < 16 implies #[trigger] d_acc_16@[i] == aa[i] + term(1, xa[i].as_real(), ya[i].as_real()) by { lemma_square(1, xa[i].as_real(), ya[i].as_real()); } lemma_dstep(1, xa, ya, 16, aa, d_acc_16@); }
//@ before let leftover
    proof { if y1.len() > 8 { let z = Seq::new(8, |i: int| 0real); lemma_rsum_zero(z); assert forall|i: int| 0 <= i < 8 implies #[trigger] d_acc_8@[i] == z[i] + term(1, x1[i].as_real(), y1[i].as_real()) by { lemma_square(1, x1[i].as_real(), y1[i].as_real()); } lemma_dstep(1, x1, y1, 8, z, d_acc_8@); } } let ghost x2 = x@; let ghost y2 = y@;
//@ loop 1
    invariant x2.len() == y2.len(), it1.seq().len() == y2.len(),
        forall|i: int| 0 <= i < it1.seq().len() ==> (*(#[trigger] it1.seq()[i]).0 == y2[i] && *it1.seq()[i].1 == x2[i]) || (*it1.seq()[i].0 == x2[i] && *it1.seq()[i].1 == y2[i]),
        __acc1@ == dsum(1, x2.take(it1.index() as int), y2.take(it1.index() as int)),
//@ loopend 1
    proof { let n = it1.index() as int; lemma_square(1, x2[n].as_real(), y2[n].as_real()); assert(x2.take(n + 1).drop_last() =~= x2.take(n)); assert(y2.take(n + 1).drop_last() =~= y2.take(n)); }
//@ after let leftover
    proof { assert(x@.take(x@.len() as int) =~= x@); assert(y@.take(y@.len() as int) =~= y@); }
//@ end
//@ fn m1u16 l1_norm_u16
//@ loops 2
//@ spec
    ensures res@ == nsum(1, x@),
//@ start
    let ghost x0 = x@;
//@ after let mut d_acc_16
    proof { lemma_rsum_zero(d_acc_16@); }
//@ after let mut d_acc_8
    proof { lemma_rsum_zero(d_acc_8@); } let ghost x1 = x@;
//@ loop 0
    invariant d_acc_16@.len() == 16, rsum(d_acc_16@) + nsum(1, x@) == nsum(1, x0),
    decreases x@.len()
//@ loopstart 0
    let ghost xa = x@; let ghost aa = d_acc_16@;
//@ loopend 0
    proof { assert forall|i: int| 0 <= i < 16 implies #[trigger] d_acc_16@[i] == aa[i] + term(1, xa[i].as_real(), 0real) by { lemma_square(1, xa[i].as_real(), 0real); } lemma_nstep(1, xa, 16, aa, d_acc_16@); }
//@ before let leftover
    proof { if x1.len() > 8 { let z = Seq::new(8, |i: int| 0real); lemma_rsum_zero(z); assert forall|i: int| 0 <= i < 8 implies #[trigger] d_acc_8@[i] == z[i] + term(1, x1[i].as_real(), 0real) by { lemma_square(1, x1[i].as_real(), 0real); } lemma_nstep(1, x1, 8, z, d_acc_8@); } } let ghost x2 = x@;
//@ loop 1
    invariant it1.seq().len() == x2.len(),
        forall|i: int| 0 <= i < it1.seq().len() ==> *(#[trigger] it1.seq()[i]) == x2[i],
        __acc1@ == nsum(1, x2.take(it1.index() as int)),
//@ loopend 1
    proof { let n = it1.index() as int; lemma_square(1, x2[n].as_real(), 0real); assert(x2.take(n + 1).drop_last() =~= x2.take(n)); }
//@ after let leftover
    proof { assert(x@.take(x@.len() as int) =~= x@); }
//@ end
//@ fn m1u16 l1_sparse_u16_f32
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ loops 3
//@ spec
    requires sorted(x_ind@), sorted(y_ind@), x_ind@.len() == x_val@.len(), y_ind@.len() == y_val@.len(),
    ensures res@ == fsum(1, x_ind@, x_val@, y_ind@, y_val@, full()),
//@ start
    hide(split); hide(sorted); hide(fsum); hide(at); hide(term); hide(nsum);
    proof { lemma_fsym(1, x_ind@, x_val@, y_ind@, y_val@, full()); if y_ind@.len() == 0 { lemma_norm(1, x_ind@, x_val@, y_ind@, y_val@); lemma_n0(1, x_val@); } if x_ind@.len() == 0 { lemma_norm(1, y_ind@, y_val@, x_ind@, x_val@); } }
//@ after let (short_iter, mut long_iter)
    let ghost sw = x_ind@.len() > y_ind@.len();
    let ghost si_ = if sw { y_ind@ } else { x_ind@ }; let ghost sv_ = if sw { y_val@ } else { x_val@ };
    let ghost li_ = if sw { x_ind@ } else { y_ind@ }; let ghost lv_ = if sw { x_val@ } else { y_val@ };
    let ghost lseq = long_iter.remaining();
    let ghost mut b: int = 0; let ghost mut q: int = 0;
//@ before for (si, sv)
    proof { lemma_start(1, si_, sv_, li_, lv_); }
//@ loop 0
    invariant it0.seq().len() == si_.len(),
        forall|i: int| 0 <= i < si_.len() ==> *(#[trigger] it0.seq()[i]).0 == si_[i] && *it0.seq()[i].1 == sv_[i],
        sorted(si_), sorted(li_), si_.len() == sv_.len(), li_.len() == lv_.len(),
        lnext(lseq, li_, lv_, q, l_tr, long_iter.remaining()),
        0 <= b <= full(), split(si_, it0.index() as int, b), split(li_, q, b), total@ == fsum(1, si_, sv_, li_, lv_, b),
//@ loop 1
    invariant it0.seq().len() == si_.len(), it0.index() < si_.len(), *si == si_[it0.index() as int], *sv == sv_[it0.index() as int],
        forall|i: int| 0 <= i < si_.len() ==> *(#[trigger] it0.seq()[i]).0 == si_[i] && *it0.seq()[i].1 == sv_[i],
        sorted(si_), sorted(li_), si_.len() == sv_.len(), li_.len() == lv_.len(),
        lnext(lseq, li_, lv_, q, l_tr, long_iter.remaining()),
        0 <= b <= full(), split(si_, it0.index() as int, b), split(li_, q, b), total@ == fsum(1, si_, sv_, li_, lv_, b),
    ensures q >= li_.len() || li_[q] >= *si,
//@ before l_tr = long_iter . next ()
    proof { let p = it0.index() as int; lemma_take(1, si_, sv_, li_, lv_, p, q, b, *li as int, false, true); lemma_term(1, lv_[q].as_real()); b = *li as int + 1; q = q + 1; }
//@ before if let Some ((li, lv)) = l_tr
    let ghost b0 = b; let ghost q0 = q;
//@ loopend 0
    proof {
        let p = it0.index() as int; let both = q0 < li_.len() && li_[q0] == *si;
        lemma_take(1, si_, sv_, li_, lv_, p, q0, b0, *si as int, true, both);
        lemma_term(1, sv_[p].as_real()); if both { lemma_term2(1, sv_[p].as_real(), lv_[q0].as_real()); }
        b = *si as int + 1; if both { q = q0 + 1; }
    }
//@ loop 2
    invariant sorted(si_), sorted(li_), si_.len() == sv_.len(), li_.len() == lv_.len(),
        lnext(lseq, li_, lv_, q, l_tr, long_iter.remaining()),
        0 <= b <= full(), split(si_, si_.len() as int, b), split(li_, q, b), total@ == fsum(1, si_, sv_, li_, lv_, b),
    ensures q >= li_.len(),
//@ before#3 l_tr = long_iter . next ()
    proof { lemma_take(1, si_, sv_, li_, lv_, si_.len() as int, q, b, li_[q] as int, false, true); lemma_term(1, lv_[q].as_real()); b = li_[q] as int + 1; q = q + 1; }
//@ loopafter 2
    proof { lemma_end(1, si_, sv_, li_, lv_, b); }
//@ end

//@ fn m1u16 L1 as Metric<[u16]>::dist
//@ name dist_l1_u16
//@ subst x . deref () => x
//@ subst y . deref () => y
//@ spec
    requires x@.len() == y@.len(),
    ensures res@ == fin(1, dsum(1, x@, y@)),
//@ end
//@ fn m1u16 L1 as Metric<RawSparse<u16,u32>>::dist
//@ name dist_l1_u16_u32
//@ spec
    requires x.ok(), y.ok(),
    ensures res@ == fin(1, fsum(1, x.ix(), x.vx(), y.ix(), y.vx(), full())),
//@ end
//@ fn m1u16 L1 as Metric<RawSparse<u16,u16>>::dist
//@ name dist_l1_u16_u16
//@ spec
    requires x.ok(), y.ok(),
    ensures res@ == fin(1, fsum(1, x.ix(), x.vx(), y.ix(), y.vx(), full())),
//@ end
//@ fn m1u16 L1 as Metric<RawSparse<u16,u8>>::dist
//@ name dist_l1_u16_u8
//@ spec
    requires x.ok(), y.ok(),
    ensures res@ == fin(1, fsum(1, x.ix(), x.vx(), y.ix(), y.vx(), full())),
//@ end
//@ macro m2u16 pointcloud/src/metrics/l2_misc.rs make_l2_distance base=u16 simd_16_base=u16x16 simd_8_base=u16x8 sparse_base=l2_sparse_u16_f32 dist_base=l2_dense_u16 norm_base=l2_norm_u16
//@ fn m2u16 l2_dense_u16
//@ loops 2
//@ spec
    requires x@.len() == y@.len(),
    ensures res@ == dsum(2, x@, y@),
//@ start
    let ghost x0 = x@; let ghost y0 = y@;
//@ after let mut d_acc_16
    proof { lemma_rsum_zero(d_acc_16@); }
//@ after let mut d_acc_8
    proof { lemma_rsum_zero(d_acc_8@); } let ghost x1 = x@; let ghost y1 = y@;
//@ loop 0
    invariant x@.len() == y@.len(), d_acc_16@.len() == 16, rsum(d_acc_16@) + dsum(2, x@, y@) == dsum(2, x0, y0),
    decreases y@.len()
//@ loopstart 0
    let ghost xa = x@; let ghost ya = y@; let ghost aa = d_acc_16@;
//@ loopend 0
    proof { assert forall|i: int| 0 <= i < 16 implies #[trigger] d_acc_16@[i] == aa[i] + term(2, xa[i].as_real(), ya[i].as_real()) by { lemma_square(2, xa[i].as_real(), ya[i].as_real()); } lemma_dstep(2, xa, ya, 16, aa, d_acc_16@); }
//@ before let leftover
    proof { if y1.len() > 8 { let z = Seq::new(8, |i: int| 0real); lemma_rsum_zero(z); assert forall|i: int| 0 <= i < 8 implies #[trigger] d_acc_8@[i] == z[i] + term(2, x1[i].as_real(), y1[i].as_real()) by { lemma_square(2, x1[i].as_real(), y1[i].as_real()); } lemma_dstep(2, x1, y1, 8, z, d_acc_8@); } } let ghost x2 = x@; let ghost y2 = y@;
//@ loop 1
    invariant x2.len() == y2.len(), it1.seq().len() == y2.len(),
        forall|i: int| 0 <= i < it1.seq().len() ==> (*(#[trigger] it1.seq()[i]).0 == y2[i] && *it1.seq()[i].1 == x2[i]) || (*it1.seq()[i].0 == x2[i] && *it1.seq()[i].1 == y2[i]),
        __acc1@ == dsum(2, x2.take(it1.index() as int), y2.take(it1.index() as int)),
//@ loopend 1
    proof { let n = it1.index() as int; lemma_square(2, x2[n].as_real(), y2[n].as_real()); assert(x2.take(n + 1).drop_last() =~= x2.take(n)); assert(y2.take(n + 1).drop_last() =~= y2.take(n)); }
//@ after let leftover
    proof { assert(x@.take(x@.len() as int) =~= x@); assert(y@.take(y@.len() as int) =~= y@); }
//@ end
//@ fn m2u16 l2_norm_u16
//@ loops 2
//@ spec
    ensures res@ == nsum(2, x@),
//@ start
    let ghost x0 = x@;
//@ after let mut d_acc_16
    proof { lemma_rsum_zero(d_acc_16@); }
//@ after let mut d_acc_8
    proof { lemma_rsum_zero(d_acc_8@); } let ghost x1 = x@;
//@ loop 0
    invariant d_acc_16@.len() == 16, rsum(d_acc_16@) + nsum(2, x@) == nsum(2, x0),
    decreases x@.len()
//@ loopstart 0
    let ghost xa = x@; let ghost aa = d_acc_16@;
//@ loopend 0
    proof { assert forall|i: int| 0 <= i < 16 implies #[trigger] d_acc_16@[i] == aa[i] + term(2, xa[i].as_real(), 0real) by { lemma_square(2, xa[i].as_real(), 0real); } lemma_nstep(2, xa, 16, aa, d_acc_16@); }
//@ before let leftover
    proof { if x1.len() > 8 { let z = Seq::new(8, |i: int| 0real); lemma_rsum_zero(z); assert forall|i: int| 0 <= i < 8 implies #[trigger] d_acc_8@[i] == z[i] + term(2, x1[i].as_real(), 0real) by { lemma_square(2, x1[i].as_real(), 0real); } lemma_nstep(2, x1, 8, z, d_acc_8@); } } let ghost x2 = x@;
//@ loop 1
    invariant it1.seq().len() == x2.len(),
        forall|i: int| 0 <= i < it1.seq().len() ==> *(#[trigger] it1.seq()[i]) == x2[i],
        __acc1@ == nsum(2, x2.take(it1.index() as int)),
//@ loopend 1
    proof { let n = it1.index() as int; lemma_square(2, x2[n].as_real(), 0real); assert(x2.take(n + 1).drop_last() =~= x2.take(n)); }
//@ after let leftover
    proof { assert(x@.take(x@.len() as int) =~= x@); }
//@ end
//@ fn m2u16 l2_sparse_u16_f32
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ loops 3
//@ spec
    requires sorted(x_ind@), sorted(y_ind@), x_ind@.len() == x_val@.len(), y_ind@.len() == y_val@.len(),
    ensures res@ == fsum(2, x_ind@, x_val@, y_ind@, y_val@, full()),
//@ start
    hide(split); hide(sorted); hide(fsum); hide(at); hide(term); hide(nsum);
    proof { lemma_fsym(2, x_ind@, x_val@, y_ind@, y_val@, full()); if y_ind@.len() == 0 { lemma_norm(2, x_ind@, x_val@, y_ind@, y_val@); lemma_n0(2, x_val@); } if x_ind@.len() == 0 { lemma_norm(2, y_ind@, y_val@, x_ind@, x_val@); } }
//@ after let (short_iter, mut long_iter)
    let ghost sw = x_ind@.len() > y_ind@.len();
    let ghost si_ = if sw { y_ind@ } else { x_ind@ }; let ghost sv_ = if sw { y_val@ } else { x_val@ };
    let ghost li_ = if sw { x_ind@ } else { y_ind@ }; let ghost lv_ = if sw { x_val@ } else { y_val@ };
    let ghost lseq = long_iter.remaining();
    let ghost mut b: int = 0; let ghost mut q: int = 0;
//@ before for (si, sv)
    proof { lemma_start(2, si_, sv_, li_, lv_); }
//@ loop 0
    invariant it0.seq().len() == si_.len(),
        forall|i: int| 0 <= i < si_.len() ==> *(#[trigger] it0.seq()[i]).0 == si_[i] && *it0.seq()[i].1 == sv_[i],
        sorted(si_), sorted(li_), si_.len() == sv_.len(), li_.len() == lv_.len(),
        lnext(lseq, li_, lv_, q, l_tr, long_iter.remaining()),
        0 <= b <= full(), split(si_, it0.index() as int, b), split(li_, q, b), total@ == fsum(2, si_, sv_, li_, lv_, b),
//@ loop 1
    invariant it0.seq().len() == si_.len(), it0.index() < si_.len(), *si == si_[it0.index() as int], *sv == sv_[it0.index() as int],
        forall|i: int| 0 <= i < si_.len() ==> *(#[trigger] it0.seq()[i]).0 == si_[i] && *it0.seq()[i].1 == sv_[i],
        sorted(si_), sorted(li_), si_.len() == sv_.len(), li_.len() == lv_.len(),
        lnext(lseq, li_, lv_, q, l_tr, long_iter.remaining()),
        0 <= b <= full(), split(si_, it0.index() as int, b), split(li_, q, b), total@ == fsum(2, si_, sv_, li_, lv_, b),
    ensures q >= li_.len() || li_[q] >= *si,
//@ before l_tr = long_iter . next ()
    proof { let p = it0.index() as int; lemma_take(2, si_, sv_, li_, lv_, p, q, b, *li as int, false, true); lemma_term(2, lv_[q].as_real()); b = *li as int + 1; q = q + 1; }
//@ before if let Some ((li, lv)) = l_tr
    let ghost b0 = b; let ghost q0 = q;
//@ loopend 0
    proof {
        let p = it0.index() as int; let both = q0 < li_.len() && li_[q0] == *si;
        lemma_take(2, si_, sv_, li_, lv_, p, q0, b0, *si as int, true, both);
        lemma_term(2, sv_[p].as_real()); if both { lemma_term2(2, sv_[p].as_real(), lv_[q0].as_real()); }
        b = *si as int + 1; if both { q = q0 + 1; }
    }
//@ loop 2
    invariant sorted(si_), sorted(li_), si_.len() == sv_.len(), li_.len() == lv_.len(),
        lnext(lseq, li_, lv_, q, l_tr, long_iter.remaining()),
        0 <= b <= full(), split(si_, si_.len() as int, b), split(li_, q, b), total@ == fsum(2, si_, sv_, li_, lv_, b),
    ensures q >= li_.len(),
//@ before#3 l_tr = long_iter . next ()
    proof { lemma_take(2, si_, sv_, li_, lv_, si_.len() as int, q, b, li_[q] as int, false, true); lemma_term(2, lv_[q].as_real()); b = li_[q] as int + 1; q = q + 1; }
//@ loopafter 2
    proof { lemma_end(2, si_, sv_, li_, lv_, b); }
//@ end

//@ fn m2u16 L2 as Metric<[u16]>::dist
//@ name dist_l2_u16
//@ subst x . deref () => x
//@ subst y . deref () => y
//@ spec
    requires x@.len() == y@.len(),
    ensures res@ == fin(2, dsum(2, x@, y@)),
//@ end
//@ fn m2u16 L2 as Metric<RawSparse<u16,u32>>::dist
//@ name dist_l2_u16_u32
//@ spec
    requires x.ok(), y.ok(),
    ensures res@ == fin(2, fsum(2, x.ix(), x.vx(), y.ix(), y.vx(), full())),
//@ end
//@ fn m2u16 L2 as Metric<RawSparse<u16,u16>>::dist
//@ name dist_l2_u16_u16
//@ spec
    requires x.ok(), y.ok(),
    ensures res@ == fin(2, fsum(2, x.ix(), x.vx(), y.ix(), y.vx(), full())),
//@ end
//@ fn m2u16 L2 as Metric<RawSparse<u16,u8>>::dist
//@ name dist_l2_u16_u8
//@ spec
    requires x.ok(), y.ok(),
    ensures res@ == fin(2, fsum(2, x.ix(), x.vx(), y.ix(), y.vx(), full())),
//@ end
//@ macro m1i32 pointcloud/src/metrics/l1_misc.rs make_l1_distance base=i32 simd_16_base=i32x16 simd_8_base=i32x8 sparse_base=l1_sparse_i32_f32 dist_base=l1_dense_i32 norm_base=l1_norm_i32
//@ fn m1i32 l1_dense_i32
//@ loops 2
//@ spec
    requires x@.len() == y@.len(),
    ensures res@ == dsum(1, x@, y@),
//@ start
    let ghost x0 = x@; let ghost y0 = y@;
//@ after let mut d_acc_16
    proof { lemma_rsum_zero(d_acc_16@); }
//@ after let mut d_acc_8
    proof { lemma_rsum_zero(d_acc_8@); } let ghost x1 = x@; let ghost y1 = y@;
//@ loop 0
    invariant x@.len() == y@.len(), d_acc_16@.len() == 16, rsum(d_acc_16@) + dsum(1, x@, y@) == dsum(1, x0, y0),
    decreases y@.len()
//@ loopstart 0
    let ghost xa = x@; let ghost ya = y@; let ghost aa = d_acc_16@;
//@ loopend 0
    proof { assert forall|i: int| 0 <= i < 16 implies #[trigger] d_acc_16@[i] == aa[i] + term(1, xa[i].as_real(), ya[i].as_real()) by { lemma_square(1, xa[i].as_real(), ya[i].as_real()); } lemma_dstep(1, xa, ya, 16, aa, d_acc_16@); }
//@ before let leftover
    proof { if y1.len() > 8 { let z = Seq::new(8, |i: int| 0real); lemma_rsum_zero(z); assert forall|i: int| 0 <= i < 8 implies #[trigger] d_acc_8@[i] == z[i] + term(1, x1[i].as_real(), y1[i].as_real()) by { lemma_square(1, x1[i].as_real(), y1[i].as_real()); } lemma_dstep(1, x1, y1, 8, z, d_acc_8@); } } let ghost x2 = x@; let ghost y2 = y@;
//@ loop 1
    invariant x2.len() == y2.len(), it1.seq().len() == y2.len(),
        forall|i: int| 0 <= i < it1.seq().len() ==> (*(#[trigger] it1.seq()[i]).0 == y2[i] && *it1.seq()[i].1 == x2[i]) || (*it1.seq()[i].0 == x2[i] && *it1.seq()[i].1 == y2[i]),
        __acc1@ == dsum(1, x2.take(it1.index() as int), y2.take(it1.index() as int)),
//@ loopend 1
    proof { let n = it1.index() as int; lemma_square(1, x2[n].as_real(), y2[n].as_real()); assert(x2.take(n + 1).drop_last() =~= x2.take(n)); assert(y2.take(n + 1).drop_last() =~= y2.take(n)); }
//@ after let leftover
    proof { assert(x@.take(x@.len() as int) =~= x@); assert(y@.take(y@.len() as int) =~= y@); }
//@ end
//@ fn m1i32 l1_norm_i32
//@ loops 2
//@ spec
    ensures res@ == nsum(1, x@),
//@ start
    let ghost x0 = x@;
//@ after let mut d_acc_16
    proof { lemma_rsum_zero(d_acc_16@); }
//@ after let mut d_acc_8
    proof { lemma_rsum_zero(d_acc_8@); } let ghost x1 = x@;
//@ loop 0
    invariant d_acc_16@.len() == 16, rsum(d_acc_16@) + nsum(1, x@) == nsum(1, x0),
    decreases x@.len()
//@ loopstart 0
    let ghost xa = x@; let ghost aa = d_acc_16@;
//@ loopend 0
    proof { assert forall|i: int| 0 <= i < 16 implies #[trigger] d_acc_16@[i] == aa[i] + term(1, xa[i].as_real(), 0real) by { lemma_square(1, xa[i].as_real(), 0real); } lemma_nstep(1, xa, 16, aa, d_acc_16@); }
//@ before let leftover
    proof { if x1.len() > 8 { let z = Seq::new(8, |i: int| 0real); lemma_rsum_zero(z); assert forall|i: int| 0 <= i < 8 implies #[trigger] d_acc_8@[i] == z[i] + term(1, x1[i].as_real(), 0real) by { lemma_square(1, x1[i].as_real(), 0real); } lemma_nstep(1, x1, 8, z, d_acc_8@); } } let ghost x2 = x@;
//@ loop 1
    invariant it1.seq().len() == x2.len(),
        forall|i: int| 0 <= i < it1.seq().len() ==> *(#[trigger] it1.seq()[i]) == x2[i],
        __acc1@ == nsum(1, x2.take(it1.index() as int)),
//@ loopend 1
    proof { let n = it1.index() as int; lemma_square(1, x2[n].as_real(), 0real); assert(x2.take(n + 1).drop_last() =~= x2.take(n)); }
//@ after let leftover
    proof { assert(x@.take(x@.len() as int) =~= x@); }
//@ end
//@ fn m1i32 l1_sparse_i32_f32
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ loops 3
//@ spec
    requires sorted(x_ind@), sorted(y_ind@), x_ind@.len() == x_val@.len(), y_ind@.len() == y_val@.len(),
    ensures res@ == fsum(1, x_ind@, x_val@, y_ind@, y_val@, full()),
//@ start
    hide(split); hide(sorted); hide(fsum); hide(at); hide(term); hide(nsum);
    proof { lemma_fsym(1, x_ind@, x_val@, y_ind@, y_val@, full()); if y_ind@.len() == 0 { lemma_norm(1, x_ind@, x_val@, y_ind@, y_val@); lemma_n0(1, x_val@); } if x_ind@.len() == 0 { lemma_norm(1, y_ind@, y_val@, x_ind@, x_val@); } }
//@ after let (short_iter, mut long_iter)
    let ghost sw = x_ind@.len() > y_ind@.len();
    let ghost si_ = if sw { y_ind@ } else { x_ind@ }; let ghost sv_ = if sw { y_val@ } else { x_val@ };
    let ghost li_ = if sw { x_ind@ } else { y_ind@ }; let ghost lv_ = if sw { x_val@ } else { y_val@ };
    let ghost lseq = long_iter.remaining();
    let ghost mut b: int = 0; let ghost mut q: int = 0;
//@ before for (si, sv)
    proof { lemma_start(1, si_, sv_, li_, lv_); }
//@ loop 0
    invariant it0.seq().len() == si_.len(),
        forall|i: int| 0 <= i < si_.len() ==> *(#[trigger] it0.seq()[i]).0 == si_[i] && *it0.seq()[i].1 == sv_[i],
        sorted(si_), sorted(li_), si_.len() == sv_.len(), li_.len() == lv_.len(),
        lnext(lseq, li_, lv_, q, l_tr, long_iter.remaining()),
        0 <= b <= full(), split(si_, it0.index() as int, b), split(li_, q, b), total@ == fsum(1, si_, sv_, li_, lv_, b),
//@ loop 1
    invariant it0.seq().len() == si_.len(), it0.index() < si_.len(), *si == si_[it0.index() as int], *sv == sv_[it0.index() as int],
        forall|i: int| 0 <= i < si_.len() ==> *(#[trigger] it0.seq()[i]).0 == si_[i] && *it0.seq()[i].1 == sv_[i],
        sorted(si_), sorted(li_), si_.len() == sv_.len(), li_.len() == lv_.len(),
        lnext(lseq, li_, lv_, q, l_tr, long_iter.remaining()),
        0 <= b <= full(), split(si_, it0.index() as int, b), split(li_, q, b), total@ == fsum(1, si_, sv_, li_, lv_, b),
    ensures q >= li_.len() || li_[q] >= *si,
//@ before l_tr = long_iter . next ()
    proof { let p = it0.index() as int; lemma_take(1, si_, sv_, li_, lv_, p, q, b, *li as int, false, true); lemma_term(1, lv_[q].as_real()); b = *li as int + 1; q = q + 1; }
//@ before if let Some ((li, lv)) = l_tr
    let ghost b0 = b; let ghost q0 = q;
//@ loopend 0
    proof {
        let p = it0.index() as int; let both = q0 < li_.len() && li_[q0] == *si;
        lemma_take(1, si_, sv_, li_, lv_, p, q0, b0, *si as int, true, both);
        lemma_term(1, sv_[p].as_real()); if both { lemma_term2(1, sv_[p].as_real(), lv_[q0].as_real()); }
        b = *si as int + 1; if both { q = q0 + 1; }
    }
//@ loop 2
    invariant sorted(si_), sorted(li_), si_.len() == sv_.len(), li_.len() == lv_.len(),
        lnext(lseq, li_, lv_, q, l_tr, long_iter.remaining()),
        0 <= b <= full(), split(si_, si_.len() as int, b), split(li_, q, b), total@ == fsum(1, si_, sv_, li_, lv_, b),
    ensures q >= li_.len(),
//@ before#3 l_tr = long_iter . next ()
    proof { lemma_take(1, si_, sv_, li_, lv_, si_.len() as int, q, b, li_[q] as int, false, true); lemma_term(1, lv_[q].as_real()); b = li_[q] as int + 1; q = q + 1; }
//@ loopafter 2
    proof { lemma_end(1, si_, sv_, li_, lv_, b); }
//@ end

//@ fn m1i32 L1 as Metric<[i32]>::dist
//@ name dist_l1_i32
//@ subst x . deref () => x
//@ subst y . deref () => y
//@ spec
    requires x@.len() == y@.len(),
    ensures res@ == fin(1, dsum(1, x@, y@)),
//@ end
//@ fn m1i32 L1 as Metric<RawSparse<i32,u32>>::dist
//@ name dist_l1_i32_u32
//@ spec
    requires x.ok(), y.ok(),
    ensures res@ == fin(1, fsum(1, x.ix(), x.vx(), y.ix(), y.vx(), full())),
//@ end
//@ fn m1i32 L1 as Metric<RawSparse<i32,u16>>::dist
//@ name dist_l1_i32_u16
//@ spec
    requires x.ok(), y.ok(),
    ensures res@ == fin(1, fsum(1, x.ix(), x.vx(), y.ix(), y.vx(), full())),
//@ end
//@ fn m1i32 L1 as Metric<RawSparse<i32,u8>>::dist
//@ name dist_l1_i32_u8
//@ spec
    requires x.ok(), y.ok(),
    ensures res@ == fin(1, fsum(1, x.ix(), x.vx(), y.ix(), y.vx(), full())),
//@ end
//@ macro m2i32 pointcloud/src/metrics/l2_misc.rs make_l2_distance base=i32 simd_16_base=i32x16 simd_8_base=i32x8 sparse_base=l2_sparse_i32_f32 dist_base=l2_dense_i32 norm_base=l2_norm_i32
//@ fn m2i32 l2_dense_i32
//@ loops 2
//@ spec
    requires x@.len() == y@.len(),
    ensures res@ == dsum(2, x@, y@),
//@ start
    let ghost x0 = x@; let ghost y0 = y@;
//@ after let mut d_acc_16
    proof { lemma_rsum_zero(d_acc_16@); }
//@ after let mut d_acc_8
    proof { lemma_rsum_zero(d_acc_8@); } let ghost x1 = x@; let ghost y1 = y@;
//@ loop 0
    invariant x@.len() == y@.len(), d_acc_16@.len() == 16, rsum(d_acc_16@) + dsum(2, x@, y@) == dsum(2, x0, y0),
    decreases y@.len()
//@ loopstart 0
    let ghost xa = x@; let ghost ya = y@; let ghost aa = d_acc_16@;
//@ loopend 0
    proof { assert forall|i: int| 0 <= i < 16 implies #[trigger] d_acc_16@[i] == aa[i] + term(2, xa[i].as_real(), ya[i].as_real()) by { lemma_square(2, xa[i].as_real(), ya[i].as_real()); } lemma_dstep(2, xa, ya, 16, aa, d_acc_16@); }
//@ before let leftover
    proof { if y1.len() > 8 { let z = Seq::new(8, |i: int| 0real); lemma_rsum_zero(z); assert forall|i: int| 0 <= i < 8 implies #[trigger] d_acc_8@[i] == z[i] + term(2, x1[i].as_real(), y1[i].as_real()) by { lemma_square(2, x1[i].as_real(), y1[i].as_real()); } lemma_dstep(2, x1, y1, 8, z, d_acc_8@); } } let ghost x2 = x@; let ghost y2 = y@;
//@ loop 1
    invariant x2.len() == y2.len(), it1.seq().len() == y2.len(),
        forall|i: int| 0 <= i < it1.seq().len() ==> (*(#[trigger] it1.seq()[i]).0 == y2[i] && *it1.seq()[i].1 == x2[i]) || (*it1.seq()[i].0 == x2[i] && *it1.seq()[i].1 == y2[i]),
        __acc1@ == dsum(2, x2.take(it1.index() as int), y2.take(it1.index() as int)),
//@ loopend 1
    proof { let n = it1.index() as int; lemma_square(2, x2[n].as_real(), y2[n].as_real()); assert(x2.take(n + 1).drop_last() =~= x2.take(n)); assert(y2.take(n + 1).drop_last() =~= y2.take(n)); }
//@ after let leftover
    proof { assert(x@.take(x@.len() as int) =~= x@); assert(y@.take(y@.len() as int) =~= y@); }
//@ end
//@ fn m2i32 l2_norm_i32
//@ loops 2
//@ spec
    ensures res@ == nsum(2, x@),
//@ start
    let ghost x0 = x@;
//@ after let mut d_acc_16
    proof { lemma_rsum_zero(d_acc_16@); }
//@ after let mut d_acc_8
    proof { lemma_rsum_zero(d_acc_8@); } let ghost x1 = x@;
//@ loop 0
    invariant d_acc_16@.len() == 16, rsum(d_acc_16@) + nsum(2, x@) == nsum(2, x0),
    decreases x@.len()
//@ loopstart 0
    let ghost xa = x@; let ghost aa = d_acc_16@;
//@ loopend 0
    proof { assert forall|i: int| 0 <= i < 16 implies #[trigger] d_acc_16@[i] == aa[i] + term(2, xa[i].as_real(), 0real) by { lemma_square(2, xa[i].as_real(), 0real); } lemma_nstep(2, xa, 16, aa, d_acc_16@); }
//@ before let leftover
    proof { if x1.len() > 8 { let z = Seq::new(8, |i: int| 0real); lemma_rsum_zero(z); assert forall|i: int| 0 <= i < 8 implies #[trigger] d_acc_8@[i] == z[i] + term(2, x1[i].as_real(), 0real) by { lemma_square(2, x1[i].as_real(), 0real); } lemma_nstep(2, x1, 8, z, d_acc_8@); } } let ghost x2 = x@;
//@ loop 1
    invariant it1.seq().len() == x2.len(),
        forall|i: int| 0 <= i < it1.seq().len() ==> *(#[trigger] it1.seq()[i]) == x2[i],
        __acc1@ == nsum(2, x2.take(it1.index() as int)),
//@ loopend 1
    proof { let n = it1.index() as int; lemma_square(2, x2[n].as_real(), 0real); assert(x2.take(n + 1).drop_last() =~= x2.take(n)); }
//@ after let leftover
    proof { assert(x@.take(x@.len() as int) =~= x@); }
//@ end
//@ fn m2i32 l2_sparse_i32_f32
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ loops 3
//@ spec
    requires sorted(x_ind@), sorted(y_ind@), x_ind@.len() == x_val@.len(), y_ind@.len() == y_val@.len(),
    ensures res@ == fsum(2, x_ind@, x_val@, y_ind@, y_val@, full()),
//@ start
    hide(split); hide(sorted); hide(fsum); hide(at); hide(term); hide(nsum);
    proof { lemma_fsym(2, x_ind@, x_val@, y_ind@, y_val@, full()); if y_ind@.len() == 0 { lemma_norm(2, x_ind@, x_val@, y_ind@, y_val@); lemma_n0(2, x_val@); } if x_ind@.len() == 0 { lemma_norm(2, y_ind@, y_val@, x_ind@, x_val@); } }
//@ after let (short_iter, mut long_iter)
    let ghost sw = x_ind@.len() > y_ind@.len();
    let ghost si_ = if sw { y_ind@ } else { x_ind@ }; let ghost sv_ = if sw { y_val@ } else { x_val@ };
    let ghost li_ = if sw { x_ind@ } else { y_ind@ }; let ghost lv_ = if sw { x_val@ } else { y_val@ };
    let ghost lseq = long_iter.remaining();
    let ghost mut b: int = 0; let ghost mut q: int = 0;
//@ before for (si, sv)
    proof { lemma_start(2, si_, sv_, li_, lv_); }
//@ loop 0
    invariant it0.seq().len() == si_.len(),
        forall|i: int| 0 <= i < si_.len() ==> *(#[trigger] it0.seq()[i]).0 == si_[i] && *it0.seq()[i].1 == sv_[i],
        sorted(si_), sorted(li_), si_.len() == sv_.len(), li_.len() == lv_.len(),
        lnext(lseq, li_, lv_, q, l_tr, long_iter.remaining()),
        0 <= b <= full(), split(si_, it0.index() as int, b), split(li_, q, b), total@ == fsum(2, si_, sv_, li_, lv_, b),
//@ loop 1
    invariant it0.seq().len() == si_.len(), it0.index() < si_.len(), *si == si_[it0.index() as int], *sv == sv_[it0.index() as int],
        forall|i: int| 0 <= i < si_.len() ==> *(#[trigger] it0.seq()[i]).0 == si_[i] && *it0.seq()[i].1 == sv_[i],
        sorted(si_), sorted(li_), si_.len() == sv_.len(), li_.len() == lv_.len(),
        lnext(lseq, li_, lv_, q, l_tr, long_iter.remaining()),
        0 <= b <= full(), split(si_, it0.index() as int, b), split(li_, q, b), total@ == fsum(2, si_, sv_, li_, lv_, b),
    ensures q >= li_.len() || li_[q] >= *si,
//@ before l_tr = long_iter . next ()
    proof { let p = it0.index() as int; lemma_take(2, si_, sv_, li_, lv_, p, q, b, *li as int, false, true); lemma_term(2, lv_[q].as_real()); b = *li as int + 1; q = q + 1; }
//@ before if let Some ((li, lv)) = l_tr
    let ghost b0 = b; let ghost q0 = q;
//@ loopend 0
    proof {
        let p = it0.index() as int; let both = q0 < li_.len() && li_[q0] == *si;
        lemma_take(2, si_, sv_, li_, lv_, p, q0, b0, *si as int, true, both);
        lemma_term(2, sv_[p].as_real()); if both { lemma_term2(2, sv_[p].as_real(), lv_[q0].as_real()); }
        b = *si as int + 1; if both { q = q0 + 1; }
    }
//@ loop 2
    invariant sorted(si_), sorted(li_), si_.len() == sv_.len(), li_.len() == lv_.len(),
        lnext(lseq, li_, lv_, q, l_tr, long_iter.remaining()),
        0 <= b <= full(), split(si_, si_.len() as int, b), split(li_, q, b), total@ == fsum(2, si_, sv_, li_, lv_, b),
    ensures q >= li_.len(),
//@ before#3 l_tr = long_iter . next ()
    proof { lemma_take(2, si_, sv_, li_, lv_, si_.len() as int, q, b, li_[q] as int, false, true); lemma_term(2, lv_[q].as_real()); b = li_[q] as int + 1; q = q + 1; }
//@ loopafter 2
    proof { lemma_end(2, si_, sv_, li_, lv_, b); }
//@ end

//@ fn m2i32 L2 as Metric<[i32]>::dist
//@ name dist_l2_i32
//@ subst x . deref () => x
//@ subst y . deref () => y
//@ spec
    requires x@.len() == y@.len(),
    ensures res@ == fin(2, dsum(2, x@, y@)),
//@ end
//@ fn m2i32 L2 as Metric<RawSparse<i32,u32>>::dist
//@ name dist_l2_i32_u32
//@ spec
    requires x.ok(), y.ok(),
    ensures res@ == fin(2, fsum(2, x.ix(), x.vx(), y.ix(), y.vx(), full())),
//@ end
//@ fn m2i32 L2 as Metric<RawSparse<i32,u16>>::dist
//@ name dist_l2_i32_u16
//@ spec
    requires x.ok(), y.ok(),
    ensures res@ == fin(2, fsum(2, x.ix(), x.vx(), y.ix(), y.vx(), full())),
//@ end
//@ fn m2i32 L2 as Metric<RawSparse<i32,u8>>::dist
//@ name dist_l2_i32_u8
//@ spec
    requires x.ok(), y.ok(),
    ensures res@ == fin(2, fsum(2, x.ix(), x.vx(), y.ix(), y.vx(), full())),
//@ end
//@ macro m1u32 pointcloud/src/metrics/l1_misc.rs make_l1_distance base=u32 simd_16_base=u32x16 simd_8_base=u32x8 sparse_base=l1_sparse_u32_f32 dist_base=l1_dense_u32 norm_base=l1_norm_u32
//@ fn m1u32 l1_dense_u32
//@ loops 2
//@ spec
    requires x@.len() == y@.len(),
    ensures res@ == dsum(1, x@, y@),
//@ start
    let ghost x0 = x@; let ghost y0 = y@;
//@ after let mut d_acc_16
    proof { lemma_rsum_zero(d_acc_16@); }
//@ after let mut d_acc_8
    proof { lemma_rsum_zero(d_acc_8@); } let ghost x1 = x@; let ghost y1 = y@;
//@ loop 0
    invariant x@.len() == y@.len(), d_acc_16@.len() == 16, rsum(d_acc_16@) + dsum(1, x@, y@) == dsum(1, x0, y0),
    decreases y@.len()
//@ loopstart 0
    let ghost xa = x@; let ghost ya = y@; let ghost aa = d_acc_16@;
//@ loopend 0
    proof { assert forall|i: int| 0 <= i < 16 implies #[trigger] d_acc_16@[i] == aa[i] + term(1, xa[i].as_real(), ya[i].as_real()) by { lemma_square(1, xa[i].as_real(), ya[i].as_real()); } lemma_dstep(1, xa, ya, 16, aa, d_acc_16@); }
//@ before let leftover
    proof { if y1.len() > 8 { let z = Seq::new(8, |i: int| 0real); lemma_rsum_zero(z); assert forall|i: int| 0 <= i < 8 implies #[trigger] d_acc_8@[i] == z[i] + term(1, x1[i].as_real(), y1[i].as_real()) by { lemma_square(1, x1[i].as_real(), y1[i].as_real()); } lemma_dstep(1, x1, y1, 8, z, d_acc_8@); } } let ghost x2 = x@; let ghost y2 = y@;
//@ loop 1
    invariant x2.len() == y2.len(), it1.seq().len() == y2.len(),
        forall|i: int| 0 <= i < it1.seq().len() ==> (*(#[trigger] it1.seq()[i]).0 == y2[i] && *it1.seq()[i].1 == x2[i]) || (*it1.seq()[i].0 == x2[i] && *it1.seq()[i].1 == y2[i]),
        __acc1@ == dsum(1, x2.take(it1.index() as int), y2.take(it1.index() as int)),
//@ loopend 1
    proof { let n = it1.index() as int; lemma_square(1, x2[n].as_real(), y2[n].as_real()); assert(x2.take(n + 1).drop_last() =~= x2.take(n)); assert(y2.take(n + 1).drop_last() =~= y2.take(n)); }
//@ after let leftover
    proof { assert(x@.take(x@.len() as int) =~= x@); assert(y@.take(y@.len() as int) =~= y@); }
//@ end
//@ fn m1u32 l1_norm_u32
//@ loops 2
//@ spec
    ensures res@ == nsum(1, x@),
//@ start
    let ghost x0 = x@;
//@ after let mut d_acc_16
    proof { lemma_rsum_zero(d_acc_16@); }
//@ after let mut d_acc_8
    proof { lemma_rsum_zero(d_acc_8@); } let ghost x1 = x@;
//@ loop 0
    invariant d_acc_16@.len() == 16, rsum(d_acc_16@) + nsum(1, x@) == nsum(1, x0),
    decreases x@.len()
//@ loopstart 0
    let ghost xa = x@; let ghost aa = d_acc_16@;
//@ loopend 0
    proof { assert forall|i: int| 0 <= i < 16 implies #[trigger] d_acc_16@[i] == aa[i] + term(1, xa[i].as_real(), 0real) by { lemma_square(1, xa[i].as_real(), 0real); } lemma_nstep(1, xa, 16, aa, d_acc_16@); }
//@ before let leftover
    proof { if x1.len() > 8 { let z = Seq::new(8, |i: int| 0real); lemma_rsum_zero(z); assert forall|i: int| 0 <= i < 8 implies #[trigger] d_acc_8@[i] == z[i] + term(1, x1[i].as_real(), 0real) by { lemma_square(1, x1[i].as_real(), 0real); } lemma_nstep(1, x1, 8, z, d_acc_8@); } } let ghost x2 = x@;
//@ loop 1
    invariant it1.seq().len() == x2.len(),
        forall|i: int| 0 <= i < it1.seq().len() ==> *(#[trigger] it1.seq()[i]) == x2[i],
        __acc1@ == nsum(1, x2.take(it1.index() as int)),
//@ loopend 1
    proof { let n = it1.index() as int; lemma_square(1, x2[n].as_real(), 0real); assert(x2.take(n + 1).drop_last() =~= x2.take(n)); }
//@ after let leftover
    proof { assert(x@.take(x@.len() as int) =~= x@); }
//@ end
//@ fn m1u32 l1_sparse_u32_f32
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ loops 3
//@ spec
    requires sorted(x_ind@), sorted(y_ind@), x_ind@.len() == x_val@.len(), y_ind@.len() == y_val@.len(),
    ensures res@ == fsum(1, x_ind@, x_val@, y_ind@, y_val@, full()),
//@ start
    hide(split); hide(sorted); hide(fsum); hide(at); hide(term); hide(nsum);
    proof { lemma_fsym(1, x_ind@, x_val@, y_ind@, y_val@, full()); if y_ind@.len() == 0 { lemma_norm(1, x_ind@, x_val@, y_ind@, y_val@); lemma_n0(1, x_val@); } if x_ind@.len() == 0 { lemma_norm(1, y_ind@, y_val@, x_ind@, x_val@); } }
//@ after let (short_iter, mut long_iter)
    let ghost sw = x_ind@.len() > y_ind@.len();
    let ghost si_ = if sw { y_ind@ } else { x_ind@ }; let ghost sv_ = if sw { y_val@ } else { x_val@ };
    let ghost li_ = if sw { x_ind@ } else { y_ind@ }; let ghost lv_ = if sw { x_val@ } else { y_val@ };
    let ghost lseq = long_iter.remaining();
    let ghost mut b: int = 0; let ghost mut q: int = 0;
//@ before for (si, sv)
    proof { lemma_start(1, si_, sv_, li_, lv_); }
//@ loop 0
    invariant it0.seq().len() == si_.len(),
        forall|i: int| 0 <= i < si_.len() ==> *(#[trigger] it0.seq()[i]).0 == si_[i] && *it0.seq()[i].1 == sv_[i],
        sorted(si_), sorted(li_), si_.len() == sv_.len(), li_.len() == lv_.len(),
        lnext(lseq, li_, lv_, q, l_tr, long_iter.remaining()),
        0 <= b <= full(), split(si_, it0.index() as int, b), split(li_, q, b), total@ == fsum(1, si_, sv_, li_, lv_, b),
//@ loop 1
    invariant it0.seq().len() == si_.len(), it0.index() < si_.len(), *si == si_[it0.index() as int], *sv == sv_[it0.index() as int],
        forall|i: int| 0 <= i < si_.len() ==> *(#[trigger] it0.seq()[i]).0 == si_[i] && *it0.seq()[i].1 == sv_[i],
        sorted(si_), sorted(li_), si_.len() == sv_.len(), li_.len() == lv_.len(),
        lnext(lseq, li_, lv_, q, l_tr, long_iter.remaining()),
        0 <= b <= full(), split(si_, it0.index() as int, b), split(li_, q, b), total@ == fsum(1, si_, sv_, li_, lv_, b),
    ensures q >= li_.len() || li_[q] >= *si,
//@ before l_tr = long_iter . next ()
    proof { let p = it0.index() as int; lemma_take(1, si_, sv_, li_, lv_, p, q, b, *li as int, false, true); lemma_term(1, lv_[q].as_real()); b = *li as int + 1; q = q + 1; }
//@ before if let Some ((li, lv)) = l_tr
    let ghost b0 = b; let ghost q0 = q;
//@ loopend 0
    proof {
        let p = it0.index() as int; let both = q0 < li_.len() && li_[q0] == *si;
        lemma_take(1, si_, sv_, li_, lv_, p, q0, b0, *si as int, true, both);
        lemma_term(1, sv_[p].as_real()); if both { lemma_term2(1, sv_[p].as_real(), lv_[q0].as_real()); }
        b = *si as int + 1; if both { q = q0 + 1; }
    }
//@ loop 2
    invariant sorted(si_), sorted(li_), si_.len() == sv_.len(), li_.len() == lv_.len(),
        lnext(lseq, li_, lv_, q, l_tr, long_iter.remaining()),
        0 <= b <= full(), split(si_, si_.len() as int, b), split(li_, q, b), total@ == fsum(1, si_, sv_, li_, lv_, b),
    ensures q >= li_.len(),
//@ before#3 l_tr = long_iter . next ()
    proof { lemma_take(1, si_, sv_, li_, lv_, si_.len() as int, q, b, li_[q] as int, false, true); lemma_term(1, lv_[q].as_real()); b = li_[q] as int + 1; q = q + 1; }
//@ loopafter 2
    proof { lemma_end(1, si_, sv_, li_, lv_, b); }
//@ end

//@ fn m1u32 L1 as Metric<[u32]>::dist
//@ name dist_l1_u32
//@ subst x . deref () => x
//@ subst y . deref () => y
//@ spec
    requires x@.len() == y@.len(),
    ensures res@ == fin(1, dsum(1, x@, y@)),
//@ end
//@ fn m1u32 L1 as Metric<RawSparse<u32,u32>>::dist
//@ name dist_l1_u32_u32
//@ spec
    requires x.ok(), y.ok(),
    ensures res@ == fin(1, fsum(1, x.ix(), x.vx(), y.ix(), y.vx(), full())),
//@ end
//@ fn m1u32 L1 as Metric<RawSparse<u32,u16>>::dist
//@ name dist_l1_u32_u16
//@ spec
    requires x.ok(), y.ok(),
    ensures res@ == fin(1, fsum(1, x.ix(), x.vx(), y.ix(), y.vx(), full())),
//@ end
//@ fn m1u32 L1 as Metric<RawSparse<u32,u8>>::dist
//@ name dist_l1_u32_u8
//@ spec
    requires x.ok(), y.ok(),
    ensures res@ == fin(1, fsum(1, x.ix(), x.vx(), y.ix(), y.vx(), full())),
//@ end
//@ macro m2u32 pointcloud/src/metrics/l2_misc.rs make_l2_distance base=u32 simd_16_base=u32x16 simd_8_base=u32x8 sparse_base=l2_sparse_u32_f32 dist_base=l2_dense_u32 norm_base=l2_norm_u32
//@ fn m2u32 l2_dense_u32
//@ loops 2
//@ spec
    requires x@.len() == y@.len(),
    ensures res@ == dsum(2, x@, y@),
//@ start
    let ghost x0 = x@; let ghost y0 = y@;
//@ after let mut d_acc_16
    proof { lemma_rsum_zero(d_acc_16@); }
//@ after let mut d_acc_8
    proof { lemma_rsum_zero(d_acc_8@); } let ghost x1 = x@; let ghost y1 = y@;
//@ loop 0
    invariant x@.len() == y@.len(), d_acc_16@.len() == 16, rsum(d_acc_16@) + dsum(2, x@, y@) == dsum(2, x0, y0),
    decreases y@.len()
//@ loopstart 0
    let ghost xa = x@; let ghost ya = y@; let ghost aa = d_acc_16@;
//@ loopend 0
    proof { assert forall|i: int| 0 <= i < 16 implies #[trigger] d_acc_16@[i] == aa[i] + term(2, xa[i].as_real(), ya[i].as_real()) by { lemma_square(2, xa[i].as_real(), ya[i].as_real()); } lemma_dstep(2, xa, ya, 16, aa, d_acc_16@); }
//@ before let leftover
    proof { if y1.len() > 8 { let z = Seq::new(8, |i: int| 0real); lemma_rsum_zero(z); assert forall|i: int| 0 <= i < 8 implies #[trigger] d_acc_8@[i] == z[i] + term(2, x1[i].as_real(), y1[i].as_real()) by { lemma_square(2, x1[i].as_real(), y1[i].as_real()); } lemma_dstep(2, x1, y1, 8, z, d_acc_8@); } } let ghost x2 = x@; let ghost y2 = y@;
//@ loop 1
    invariant x2.len() == y2.len(), it1.seq().len() == y2.len(),
        forall|i: int| 0 <= i < it1.seq().len() ==> (*(#[trigger] it1.seq()[i]).0 == y2[i] && *it1.seq()[i].1 == x2[i]) || (*it1.seq()[i].0 == x2[i] && *it1.seq()[i].1 == y2[i]),
        __acc1@ == dsum(2, x2.take(it1.index() as int), y2.take(it1.index() as int)),
//@ loopend 1
    proof { let n = it1.index() as int; lemma_square(2, x2[n].as_real(), y2[n].as_real()); assert(x2.take(n + 1).drop_last() =~= x2.take(n)); assert(y2.take(n + 1).drop_last() =~= y2.take(n)); }
//@ after let leftover
    proof { assert(x@.take(x@.len() as int) =~= x@); assert(y@.take(y@.len() as int) =~= y@); }
//@ end
//@ fn m2u32 l2_norm_u32
//@ loops 2
//@ spec
    ensures res@ == nsum(2, x@),
//@ start
    let ghost x0 = x@;
//@ after let mut d_acc_16
    proof { lemma_rsum_zero(d_acc_16@); }
//@ after let mut d_acc_8
    proof { lemma_rsum_zero(d_acc_8@); } let ghost x1 = x@;
//@ loop 0
    invariant d_acc_16@.len() == 16, rsum(d_acc_16@) + nsum(2, x@) == nsum(2, x0),
    decreases x@.len()
//@ loopstart 0
    let ghost xa = x@; let ghost aa = d_acc_16@;
//@ loopend 0
    proof { assert forall|i: int| 0 <= i < 16 implies #[trigger] d_acc_16@[i] == aa[i] + term(2, xa[i].as_real(), 0real) by { lemma_square(2, xa[i].as_real(), 0real); } lemma_nstep(2, xa, 16, aa, d_acc_16@); }
//@ before let leftover
    proof { if x1.len() > 8 { let z = Seq::new(8, |i: int| 0real); lemma_rsum_zero(z); assert forall|i: int| 0 <= i < 8 implies #[trigger] d_acc_8@[i] == z[i] + term(2, x1[i].as_real(), 0real) by { lemma_square(2, x1[i].as_real(), 0real); } lemma_nstep(2, x1, 8, z, d_acc_8@); } } let ghost x2 = x@;
//@ loop 1
    invariant it1.seq().len() == x2.len(),
        forall|i: int| 0 <= i < it1.seq().len() ==> *(#[trigger] it1.seq()[i]) == x2[i],
        __acc1@ == nsum(2, x2.take(it1.index() as int)),
//@ loopend 1
    proof { let n = it1.index() as int; lemma_square(2, x2[n].as_real(), 0real); assert(x2.take(n + 1).drop_last() =~= x2.take(n)); }
//@ after let leftover
    proof { assert(x@.take(x@.len() as int) =~= x@); }
//@ end
//@ fn m2u32 l2_sparse_u32_f32
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ loops 3
//@ spec
    requires sorted(x_ind@), sorted(y_ind@), x_ind@.len() == x_val@.len(), y_ind@.len() == y_val@.len(),
    ensures res@ == fsum(2, x_ind@, x_val@, y_ind@, y_val@, full()),
//@ start
    hide(split); hide(sorted); hide(fsum); hide(at); hide(term); hide(nsum);
    proof { lemma_fsym(2, x_ind@, x_val@, y_ind@, y_val@, full()); if y_ind@.len() == 0 { lemma_norm(2, x_ind@, x_val@, y_ind@, y_val@); lemma_n0(2, x_val@); } if x_ind@.len() == 0 { lemma_norm(2, y_ind@, y_val@, x_ind@, x_val@); } }
//@ after let (short_iter, mut long_iter)
    let ghost sw = x_ind@.len() > y_ind@.len();
    let ghost si_ = if sw { y_ind@ } else { x_ind@ }; let ghost sv_ = if sw { y_val@ } else { x_val@ };
    let ghost li_ = if sw { x_ind@ } else { y_ind@ }; let ghost lv_ = if sw { x_val@ } else { y_val@ };
    let ghost lseq = long_iter.remaining();
    let ghost mut b: int = 0; let ghost mut q: int = 0;
//@ before for (si, sv)
    proof { lemma_start(2, si_, sv_, li_, lv_); }
//@ loop 0
    invariant it0.seq().len() == si_.len(),
        forall|i: int| 0 <= i < si_.len() ==> *(#[trigger] it0.seq()[i]).0 == si_[i] && *it0.seq()[i].1 == sv_[i],
        sorted(si_), sorted(li_), si_.len() == sv_.len(), li_.len() == lv_.len(),
        lnext(lseq, li_, lv_, q, l_tr, long_iter.remaining()),
        0 <= b <= full(), split(si_, it0.index() as int, b), split(li_, q, b), total@ == fsum(2, si_, sv_, li_, lv_, b),
//@ loop 1
    invariant it0.seq().len() == si_.len(), it0.index() < si_.len(), *si == si_[it0.index() as int], *sv == sv_[it0.index() as int],
        forall|i: int| 0 <= i < si_.len() ==> *(#[trigger] it0.seq()[i]).0 == si_[i] && *it0.seq()[i].1 == sv_[i],
        sorted(si_), sorted(li_), si_.len() == sv_.len(), li_.len() == lv_.len(),
        lnext(lseq, li_, lv_, q, l_tr, long_iter.remaining()),
        0 <= b <= full(), split(si_, it0.index() as int, b), split(li_, q, b), total@ == fsum(2, si_, sv_, li_, lv_, b),
    ensures q >= li_.len() || li_[q] >= *si,
//@ before l_tr = long_iter . next ()
    proof { let p = it0.index() as int; lemma_take(2, si_, sv_, li_, lv_, p, q, b, *li as int, false, true); lemma_term(2, lv_[q].as_real()); b = *li as int + 1; q = q + 1; }
//@ before if let Some ((li, lv)) = l_tr
    let ghost b0 = b; let ghost q0 = q;
//@ loopend 0
    proof {
        let p = it0.index() as int; let both = q0 < li_.len() && li_[q0] == *si;
        lemma_take(2, si_, sv_, li_, lv_, p, q0, b0, *si as int, true, both);
        lemma_term(2, sv_[p].as_real()); if both { lemma_term2(2, sv_[p].as_real(), lv_[q0].as_real()); }
        b = *si as int + 1; if both { q = q0 + 1; }
    }
//@ loop 2
    invariant sorted(si_), sorted(li_), si_.len() == sv_.len(), li_.len() == lv_.len(),
        lnext(lseq, li_, lv_, q, l_tr, long_iter.remaining()),
        0 <= b <= full(), split(si_, si_.len() as int, b), split(li_, q, b), total@ == fsum(2, si_, sv_, li_, lv_, b),
    ensures q >= li_.len(),
//@ before#3 l_tr = long_iter . next ()
    proof { lemma_take(2, si_, sv_, li_, lv_, si_.len() as int, q, b, li_[q] as int, false, true); lemma_term(2, lv_[q].as_real()); b = li_[q] as int + 1; q = q + 1; }
//@ loopafter 2
    proof { lemma_end(2, si_, sv_, li_, lv_, b); }
//@ end

//@ fn m2u32 L2 as Metric<[u32]>::dist
//@ name dist_l2_u32
//@ subst x . deref () => x
//@ subst y . deref () => y
//@ spec
    requires x@.len() == y@.len(),
    ensures res@ == fin(2, dsum(2, x@, y@)),
//@ end
//@ fn m2u32 L2 as Metric<RawSparse<u32,u32>>::dist
//@ name dist_l2_u32_u32
//@ spec
    requires x.ok(), y.ok(),
    ensures res@ == fin(2, fsum(2, x.ix(), x.vx(), y.ix(), y.vx(), full())),
//@ end
//@ fn m2u32 L2 as Metric<RawSparse<u32,u16>>::dist
//@ name dist_l2_u32_u16
//@ spec
    requires x.ok(), y.ok(),
    ensures res@ == fin(2, fsum(2, x.ix(), x.vx(), y.ix(), y.vx(), full())),
//@ end
//@ fn m2u32 L2 as Metric<RawSparse<u32,u8>>::dist
//@ name dist_l2_u32_u8
//@ spec
    requires x.ok(), y.ok(),
    ensures res@ == fin(2, fsum(2, x.ix(), x.vx(), y.ix(), y.vx(), full())),
//@ end
} // verus
fn main() {}
