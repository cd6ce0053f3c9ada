//@ include prelude.vrs
//@ include coll.vrs
//@ include summ_body.vrs
// =====================================================================================
// UNIT clouds: rows of a cloud, batch distances and moments
// =====================================================================================
//@ gsubst min => vmin
//@ include cloud_trait.vrs
pub open spec fn imin(a: int, b: int) -> int { if a <= b { a } else { b } }
pub fn vmin(a: usize, b: usize) -> (r: usize) ensures r == imin(a as int, b as int) { if a <= b { a } else { b } }
pub open spec fn chunks_of(n: int, c: int) -> int recommends c > 0 { (n + c - 1) / c }
/// TRUSTED (rayon/std): chunks of a sequence are its consecutive pieces of c elements, the last one shorter
#[verifier::external_body] pub fn chunk_count(n: usize, c: usize, m: usize, d: usize) -> (r: usize) requires c > 0, d > 0 ensures r == imin(chunks_of(n as int, c as int), chunks_of(m as int, d as int)) { unimplemented!() }
#[verifier::external_body] pub fn chunk_at<'a>(v: &'a [usize], c: usize, k: usize) -> (r: &'a [usize]) requires c > 0, k < chunks_of(v@.len() as int, c as int) ensures r@ == v@.subrange(k * c, imin(k * c + c, v@.len() as int)) { unimplemented!() }
#[verifier::external_body] pub fn chunk_mut<'a>(v: &'a mut Vec<f32>, c: usize, k: usize) -> (r: &'a mut [f32]) requires c > 0, k < chunks_of(old(v)@.len() as int, c as int)
    ensures r@ == old(v)@.subrange(k * c, imin(k * c + c, old(v)@.len() as int)), final(v)@.len() == old(v)@.len(), final(r)@.len() == r@.len(),
        forall|i: int| 0 <= i < old(v)@.len() ==> #[trigger] final(v)@[i] == (if k * c <= i < k * c + c { final(r)@[i - k * c] } else { old(v)@[i] }) { unimplemented!() }
/// TRUSTED (ndarray): arrays filled from a vector in row-major order
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct Array1<T> { v: Vec<T> }
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct Array2<T> { v: Vec<T> }
impl<T> Array1<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body] pub fn from_shape_vec(sh: (usize,), v: Vec<T>) -> (r: Result<Self, ()>) ensures (r is Ok) == (v@.len() == sh.0), r is Ok ==> r->Ok_0@ == v@ { unimplemented!() }
}
impl<T> Array2<T> {
    pub uninterp spec fn rows(&self) -> int;
    pub uninterp spec fn cols(&self) -> int;
    pub uninterp spec fn el(&self, r: int, c: int) -> T;
    #[verifier::external_body] pub fn from_shape_vec(sh: (usize, usize), v: Vec<T>) -> (res: Result<Self, ()>) ensures (res is Ok) == (v@.len() == sh.0 * sh.1), res is Ok ==> res->Ok_0.rows() == sh.0 && res->Ok_0.cols() == sh.1 && forall|r: int, c: int| 0 <= r < sh.0 && 0 <= c < sh.1 ==> #[trigger] res->Ok_0.el(r, c) == v@[r * sh.1 + c] { unimplemented!() }
}
/// the metric of a cloud, as a function of the two points (decided by unit `metrics` for L1 and L2)
pub uninterp spec fn dist_s<C: PointCloud>(a: C::Pt, b: C::Pt) -> real;
#[verifier::external_body] pub fn vdist<C: PointCloud, A: PRef<C::Pt>, B: PRef<C::Pt>>(a: &A, b: &B) -> (r: f32) ensures r@ == dist_s::<C>(a.pt(), b.pt()) { unimplemented!() }
//@ fn pointcloud/src/base_traits.rs chunk
//@ spec
    requires data_dim > 0
    ensures 1 <= res <= 100,
//@ end
pub open spec fn all_ok<C: PointCloud>(c: &C, ix: Seq<usize>, n: int) -> bool { forall|i: int| 0 <= i < n ==> c.point_s(#[trigger] ix[i] as int) is Ok }
pub open spec fn dd<C: PointCloud>(c: &C, x: C::Pt, ix: Seq<usize>, i: int) -> real { dist_s::<C>(x, c.point_s(ix[i] as int)->Ok_0.pt()) }
pub proof fn l_chunks(n: int, c: int, k: int) requires c > 0, n >= 0, 0 <= k ensures k < chunks_of(n, c) ==> k * c < n, k >= chunks_of(n, c) ==> k * c >= n
{
    assert(k < chunks_of(n, c) ==> k * c < n) by (nonlinear_arith) requires c > 0, n >= 0, 0 <= k, chunks_of(n, c) == (n + c - 1) / c;
    assert(k >= chunks_of(n, c) ==> k * c >= n) by (nonlinear_arith) requires c > 0, n >= 0, 0 <= k, chunks_of(n, c) == (n + c - 1) / c;
}
/// per coordinate sum over the listed points of the value, of its square
pub open spec fn moment_1<C: PointCloud>(s: &C, ix: Seq<usize>, n: int, c: int) -> real decreases n { if n <= 0 { 0real } else { moment_1(s, ix, n - 1, c) + s.point_s(ix[n - 1] as int)->Ok_0.vw()[c]@ } }
pub open spec fn moment_2<C: PointCloud>(s: &C, ix: Seq<usize>, n: int, c: int) -> real decreases n { if n <= 0 { 0real } else { let y = s.point_s(ix[n - 1] as int)->Ok_0.vw()[c]@; moment_2(s, ix, n - 1, c) + y * y } }
//@ gsubst Self :: Metric :: dist => vdist::<Self, _, _>
pub trait PcDefaults: PointCloud {
//@ fn pointcloud/src/base_traits.rs PointCloud::distances_to_point
//@ opt nopub
//@ opt result_map
//@ opt collect_into Result
//@ subst let mut __acc3 = Vec => let mut __acc3 : Vec<f32> = Vec
//@ subst let __m5 = => let __m5 : PointCloudResult<f32> =
//@ loops 3
//@ sig
    fn distances_to_point<T: PRef<Self::Pt>>(&self, x: &T, indexes: &[usize]) -> (res: PointCloudResult<Vec<f32>>)
//@ spec
    requires self.inv(), self.d() > 0,
    ensures (res is Ok) == all_ok(self, indexes@, indexes@.len() as int),
        res is Ok ==> res->Ok_0@.len() == indexes@.len() && forall|i: int| 0 <= i < indexes@.len() ==> (#[trigger] res->Ok_0@[i])@ == dist_s::<Self>(x.pt(), self.point_s(indexes@[i] as int)->Ok_0.pt()),
//@ start
    proof { assert(indexes@.len() == vstd::slice::spec_slice_len(indexes)); }
//@ loop 0
    invariant chunk > 0, __n2 == chunks_of(indexes@.len() as int, chunk as int), dists@.len() == indexes@.len(),
        (error is Ok) == all_ok(self, indexes@, imin(__k1 * chunk, indexes@.len() as int)),
        error is Ok ==> forall|i: int| 0 <= i < imin(__k1 * chunk, indexes@.len() as int) ==> (#[trigger] dists@[i])@ == dd(self, x.pt(), indexes@, i),
//@ loopstart 0
    let ghost kc = __k1 * chunk; let ghost ds0 = dists@;
    proof { l_chunks(indexes@.len() as int, chunk as int, __k1 as int); assert((__k1 + 1) * chunk == kc + chunk) by (nonlinear_arith) requires kc == __k1 * chunk; assert(0 <= kc); }
//@ loop 1
    invariant it1.seq().len() == chunk_indexes@.len(), chunk_indexes@ == indexes@.subrange(kc, imin(kc + chunk, indexes@.len() as int)), kc < indexes@.len(),
        forall|j: int| 0 <= j < it1.seq().len() ==> *(#[trigger] it1.seq()[j]).1 == chunk_indexes@[j],
        (error is Ok) == all_ok(self, indexes@, kc + it1.index()),
        error is Ok ==> forall|j: int| #![trigger it1.seq()[j]] #![trigger chunk_indexes@[j]] 0 <= j < it1.index() ==> (*final((it1.seq()[j]).0))@ == dd(self, x.pt(), indexes@, kc + j),
//@ loopend 0
    proof {
        assert forall|i: int| error is Ok && 0 <= i < imin(kc + chunk, indexes@.len() as int) implies (#[trigger] dists@[i])@ == dd(self, x.pt(), indexes@, i) by { if i >= kc { let j = i - kc; assert(chunk_indexes@[j] == indexes@[i]); } else { assert(dists@[i] == ds0[i]); } }
    }
//@ loopafter 0
    proof { l_chunks(indexes@.len() as int, chunk as int, __n2 as int); }
//@ loop 2
    invariant it2.seq().len() == indexes@.len(), forall|j: int| 0 <= j < it2.seq().len() ==> *(#[trigger] it2.seq()[j]) == indexes@[j], all_ok(self, indexes@, it2.index()), __acc3@.len() == it2.index(), forall|i: int| 0 <= i < it2.index() ==> (#[trigger] __acc3@[i])@ == dd(self, x.pt(), indexes@, i),
//@ loopstart 2
    proof { assert(*i == indexes@[it2.index()]); }
//@ loopstart 1
    proof { assert(*i == chunk_indexes@[it1.index()]); assert(chunk_indexes@[it1.index()] == indexes@[kc + it1.index()]); }
//@ loopend 1
    proof { let m = kc + it1.index(); assert(all_ok(self, indexes@, m + 1) == (all_ok(self, indexes@, m) && self.point_s(indexes@[m] as int) is Ok)) by { assert forall|q: int| all_ok(self, indexes@, m) && 0 <= q < m + 1 && self.point_s(indexes@[m] as int) is Ok implies self.point_s(#[trigger] indexes@[q] as int) is Ok by { if q < m { } } } }
//@ end
//@ fn pointcloud/src/base_traits.rs PointCloud::distances_to_point_index
//@ opt nopub
//@ spec
    requires self.inv(), self.d() > 0,
    ensures (res is Ok) == (self.point_s(i as int) is Ok && all_ok(self, indexes@, indexes@.len() as int)),
        res is Ok ==> res->Ok_0@.len() == indexes@.len() && forall|k: int| 0 <= k < indexes@.len() ==> (#[trigger] res->Ok_0@[k])@ == dist_s::<Self>(self.point_s(i as int)->Ok_0.pt(), self.point_s(indexes@[k] as int)->Ok_0.pt()),
//@ end
//@ fn pointcloud/src/base_traits.rs PointCloud::moment_1
//@ opt nopub
//@ loops 2
//@ sig
    fn moment_1(&self, indexes: &[usize]) -> (res: PointCloudResult<Vec<f32>>)
//@ spec
    requires self.inv(),
    ensures (res is Ok) == all_ok(self, indexes@, indexes@.len() as int),
        res is Ok ==> res->Ok_0@.len() == self.d() && forall|c: int| 0 <= c < self.d() ==> (#[trigger] res->Ok_0@[c])@ == moment_1(self, indexes@, indexes@.len() as int, c),
//@ start
    proof { assert(indexes@.len() == vstd::slice::spec_slice_len(indexes)); }
//@ loop 0
    invariant it0.seq().len() == indexes@.len(), forall|j: int| 0 <= j < it0.seq().len() ==> *(#[trigger] it0.seq()[j]) == indexes@[j], all_ok(self, indexes@, it0.index()), moment_vec@.len() == self.d(),
        forall|c: int| 0 <= c < self.d() ==> (#[trigger] moment_vec@[c])@ == moment_1(self, indexes@, it0.index(), c),
//@ loopstart 0
    let ghost v0 = moment_vec@;
    proof { assert(*i == indexes@[it0.index()]); }
//@ loop 1
    invariant it1.seq().len() == v0.len(), v0.len() == self.d(), y.vw().len() == self.d(), forall|c: int| 0 <= c < v0.len() ==> *(#[trigger] it1.seq()[c]).0 == v0[c] && it1.seq()[c].1 == y.vw()[c],
        forall|c: int| #![trigger it1.seq()[c]] #![trigger v0[c]] 0 <= c < it1.index() ==> (*final((it1.seq()[c]).0))@ == v0[c]@ + y.vw()[c]@,
//@ loopend 0
    proof { assert forall|c: int| 0 <= c < self.d() implies (#[trigger] moment_vec@[c])@ == moment_1(self, indexes@, it0.index() + 1, c) by { assert(v0[c]@ == moment_1(self, indexes@, it0.index(), c)); } }
//@ end
//@ fn pointcloud/src/base_traits.rs PointCloud::moment_2
//@ opt nopub
//@ loops 2
//@ sig
    fn moment_2(&self, indexes: &[usize]) -> (res: PointCloudResult<Vec<f32>>)
//@ spec
    requires self.inv(),
    ensures (res is Ok) == all_ok(self, indexes@, indexes@.len() as int),
        res is Ok ==> res->Ok_0@.len() == self.d() && forall|c: int| 0 <= c < self.d() ==> (#[trigger] res->Ok_0@[c])@ == moment_2(self, indexes@, indexes@.len() as int, c),
//@ start
    proof { assert(indexes@.len() == vstd::slice::spec_slice_len(indexes)); }
//@ loop 0
    invariant it0.seq().len() == indexes@.len(), forall|j: int| 0 <= j < it0.seq().len() ==> *(#[trigger] it0.seq()[j]) == indexes@[j], all_ok(self, indexes@, it0.index()), moment_vec@.len() == self.d(),
        forall|c: int| 0 <= c < self.d() ==> (#[trigger] moment_vec@[c])@ == moment_2(self, indexes@, it0.index(), c),
//@ loopstart 0
    let ghost v0 = moment_vec@;
    proof { assert(*i == indexes@[it0.index()]); }
//@ loop 1
    invariant it1.seq().len() == v0.len(), v0.len() == self.d(), y.vw().len() == self.d(), forall|c: int| 0 <= c < v0.len() ==> *(#[trigger] it1.seq()[c]).0 == v0[c] && it1.seq()[c].1 == y.vw()[c],
        forall|c: int| #![trigger it1.seq()[c]] #![trigger v0[c]] 0 <= c < it1.index() ==> (*final((it1.seq()[c]).0))@ == v0[c]@ + y.vw()[c]@ * y.vw()[c]@,
//@ loopend 0
    proof { assert forall|c: int| 0 <= c < self.d() implies (#[trigger] moment_vec@[c])@ == moment_2(self, indexes@, it0.index() + 1, c) by { assert(v0[c]@ == moment_2(self, indexes@, it0.index(), c)); } }
//@ end
//@ fn pointcloud/src/base_traits.rs PointCloud::point_dense_array
//@ opt nopub
//@ loops 1
//@ loop 0
    invariant it0.seq() =~= pref.vw(), __acc1@.len() == it0.index(), forall|k: int| 0 <= k < it0.index() ==> #[trigger] __acc1@[k] == pref.vw()[k],
//@ loopafter 0
    proof { assert(__acc1@ =~= pref.vw()); }
//@ spec
    requires self.inv()
    ensures (res is Ok) == (self.point_s(index as int) is Ok), res is Ok ==> res->Ok_0@ == self.point_s(index as int)->Ok_0.vw()
//@ end
//@ fn pointcloud/src/base_traits.rs PointCloud::points_dense_matrix
//@ opt nopub
//@ opt extend
//@ loops 1
//@ spec
    requires self.inv(), self.d() * indexes@.len() <= usize::MAX
    ensures (res is Ok) == all_ok(self, indexes@, indexes@.len() as int), res is Ok ==> res->Ok_0.rows() == indexes@.len() && res->Ok_0.cols() == self.d() && forall|r: int, c: int| 0 <= r < indexes@.len() && 0 <= c < self.d() ==> #[trigger] res->Ok_0.el(r, c) == self.point_s(indexes@[r] as int)->Ok_0.vw()[c]
//@ start
    proof { assert(indexes@.len() == vstd::slice::spec_slice_len(indexes)); }
//@ loop 0
    invariant it0.seq().len() == indexes@.len(), forall|j: int| 0 <= j < it0.seq().len() ==> *(#[trigger] it0.seq()[j]) == indexes@[j], all_ok(self, indexes@, it0.index()), data@.len() == it0.index() * dim, dim == self.d(),
        forall|r: int, c: int| 0 <= r < it0.index() && 0 <= c < dim ==> #[trigger] data@[r * dim + c] == self.point_s(indexes@[r] as int)->Ok_0.vw()[c],
//@ loopstart 0
    let ghost d0 = data@; let ghost m = it0.index();
    proof { assert(*pi == indexes@[m]); assert((m + 1) * dim == m * dim + dim) by (nonlinear_arith); }
//@ loopend 0
    proof { assert forall|r: int, c: int| 0 <= r < m + 1 && 0 <= c < dim implies #[trigger] data@[r * dim + c] == self.point_s(indexes@[r] as int)->Ok_0.vw()[c] by {
        if r < m { assert(r * dim + c < m * dim && r * dim + c >= 0) by (nonlinear_arith) requires 0 <= r < m, 0 <= c < dim; assert(d0[r * dim + c] == self.point_s(indexes@[r] as int)->Ok_0.vw()[c]); }
        else { assert(r * dim == m * dim); assert(data@[m * dim + c] == pref.vw()[c]); } } }
//@ end
}
// ------------------------------------------------------------------ rows in memory
use std::marker::PhantomData;
//@ gsubst Mmapf32 => Vec<f32>
//@ gsubst pn . parse :: < usize > () . map_err (| _ | ParsingError :: RegularParsingError ("Unable to parse your str into an usize") . into ()) => vparse (pn)
//@ gsubst str => VStr
pub uninterp spec fn dec(i: usize) -> VString;
pub uninterp spec fn chars(s: VString) -> VStr;
pub uninterp spec fn parsed(s: VStr) -> Option<usize>;
/// TRUSTED (std): decimal text of a number parses back to it
pub axiom fn ax_dec(i: usize) ensures parsed(chars(dec(i))) == Some(i);
#[verifier::external_body] pub fn vparse(s: &VStr) -> (r: PointCloudResult<usize>) ensures (r is Ok) == (parsed(*s) is Some), r is Ok ==> r->Ok_0 == parsed(*s)->0 { unimplemented!() }
pub trait VToString { fn vto_string(&self) -> VString; }
impl VToString for usize { #[verifier::external_body] fn vto_string(&self) -> (r: VString) ensures r == dec(*self) { unimplemented!() } }
/// the summary of a cloud without labels: nothing can be added to it
impl Summary for () {
    type Label = (); type G = ();
    open spec fn g(v: &()) -> () { () }
    open spec fn desc(&self, ls: Seq<()>) -> bool { ls.len() == 0 }
    open spec fn can_add(&self, v: &()) -> bool { false }
    open spec fn can_combine(&self, o: &Self) -> bool { true }
    open spec fn can_count(&self) -> bool { true }
    fn default() -> (res: Self) { () }
    fn add(&mut self, val: &()) { }
    fn combine(&mut self, other: &Self) { }
    fn count(&self) -> (res: usize) { 0 }
}
impl PointCloudError {
//@ fn pointcloud/src/pc_errors.rs PointCloudError::data_access
//@ end
}
//@ macro dr pointcloud/src/data_sources/memmap_ram.rs make_point_cloud name=DataRam
//@ struct pointcloud/src/data_sources/memmap_ram.rs DataRam
//@ subst M = L2 => M
//@ end
impl<M> DataRam<M> {
    pub open spec fn inv(&self) -> bool { self.dim > 0 && self.data@.len() % self.dim as nat == 0 }
    pub open spec fn n(&self) -> int { self.data@.len() as int / self.dim as int }
    pub open spec fn row(&self, i: int) -> Seq<f32> { self.data@.subrange(i * self.dim, i * self.dim + self.dim) }
//@ fn dr DataRam as PointCloud::len
//@ spec
    requires self.inv()
    ensures res == self.n(), self.data@.len() == self.n() * self.dim
//@ finish
    proof { l_rows(self.data@.len() as int, self.dim as int, 0); }
//@ end
//@ fn dr DataRam as PointCloud::is_empty
//@ spec
    requires self.inv()
    ensures res == (self.n() == 0)
//@ finish
    proof { l_rows(self.data@.len() as int, self.dim as int, 0); }
//@ end
//@ fn dr DataRam as PointCloud::dim
//@ spec
    ensures res == self.dim
//@ end
//@ fn dr DataRam as PointCloud::point
//@ spec
    requires self.inv()
    ensures (res is Ok) == (i < self.n()), res is Ok ==> res->Ok_0@ == self.row(i as int) && res->Ok_0@.len() == self.dim,
//@ start
    proof { l_rows(self.data@.len() as int, self.dim as int, i as int); assert(self.data@.len() == self.data.len()); assert(self.dim * i == i * self.dim) by (nonlinear_arith); assert(i * self.dim >= 0) by (nonlinear_arith); }
//@ end
//@ fn dr DataRam as PointCloud::reference_indexes
//@ loops 1
//@ subst let mut __acc1 = Vec => let mut __acc1 : Vec<usize> = Vec
//@ spec
    requires self.inv()
    ensures res@.len() == self.n(), forall|i: int| 0 <= i < self.n() ==> #[trigger] res@[i] == i
//@ loop 0
    invariant __acc1@.len() == it0.index(), it0.seq().len() == self.n(), forall|k: int| 0 <= k < it0.index() ==> #[trigger] __acc1@[k] == k
//@ end
//@ fn dr DataRam as PointCloud::names
//@ subst to_string => vto_string
//@ loops 1
//@ subst let mut __acc1 = Vec => let mut __acc1 : Vec<VString> = Vec
//@ spec
    requires self.inv()
    ensures res@.len() == self.n(), forall|i: int| 0 <= i < self.n() ==> #[trigger] res@[i] == dec(i as usize)
//@ loop 0
    invariant __acc1@.len() == it0.index(), it0.seq().len() == self.n(), forall|k: int| 0 <= k < it0.index() ==> #[trigger] __acc1@[k] == dec(k as usize)
//@ end
//@ fn dr DataRam as PointCloud::name
//@ subst to_string => vto_string
//@ spec
    ensures res == Ok::<VString, PointCloudError>(dec(pi))
//@ end
//@ fn dr DataRam as PointCloud::index
//@ spec
    ensures (res is Ok) == (parsed(*pn) is Some), res is Ok ==> res->Ok_0 == parsed(*pn)->0, forall|i: usize| *pn == chars(#[trigger] dec(i)) ==> res is Ok && res->Ok_0 == i
//@ finish
    proof { assert forall|i: usize| *pn == chars(#[trigger] dec(i)) implies res is Ok && res->Ok_0 == i by { ax_dec(i); } }
//@ end
//@ fn dr DataRam as PointCloud::metasummary
//@ subst Self :: MetaSummary => ()
//@ spec
    ensures res is Ok, res->Ok_0.nones == pns@.len(), res->Ok_0.errors == 0
//@ start
    proof { assert(pns@.len() == vstd::slice::spec_slice_len(pns)); }
//@ end
//@ fn dr DataRam as PointCloud::label_summary
//@ subst Self :: LabelSummary => ()
//@ spec
    ensures res is Ok, res->Ok_0.nones == pns@.len(), res->Ok_0.errors == 0
//@ start
    proof { assert(pns@.len() == vstd::slice::spec_slice_len(pns)); }
//@ end
//@ fn dr DataRam as PointCloud::label
//@ subst Self :: Label => ()
//@ spec
    ensures res == Ok::<Option<&()>, PointCloudError>(None)
//@ end
//@ fn dr DataRam as PointCloud::metadata
//@ subst Self :: Metadata => ()
//@ spec
    ensures res == Ok::<Option<&()>, PointCloudError>(None)
//@ end
//@ fn pointcloud/src/data_sources/memmap_ram.rs DataRam::new
//@ spec
    requires dim > 0, data@.len() % dim as nat == 0
    ensures res is Ok, res->Ok_0.inv(), res->Ok_0.data == data, res->Ok_0.dim == dim
//@ end
//@ fn pointcloud/src/data_sources/memmap_ram.rs DataRam::merge
//@ opt extend
//@ spec
    requires old(self).inv(), other.inv(), old(self).dim == other.dim
    ensures final(self).inv(), final(self).dim == old(self).dim, final(self).n() == old(self).n() + other.n(),
        forall|i: int| 0 <= i < old(self).n() ==> #[trigger] final(self).row(i) == old(self).row(i),
        forall|i: int| 0 <= i < other.n() ==> #[trigger] final(self).row(old(self).n() + i) == other.row(i),
//@ start
    let ghost a = self.data@; let ghost b = other.data@; let ghost d = self.dim as int; let ghost me0 = *self;
    proof { l_rows(a.len() as int, d, 0); l_rows(b.len() as int, d, 0); l_sum_rows(a.len() as int, b.len() as int, d); }
//@ finish
    proof {
        assert forall|i: int| 0 <= i < me0.n() implies #[trigger] self.row(i) == me0.row(i) by { l_rows(a.len() as int, d, i); assert(i * d >= 0) by (nonlinear_arith) requires i >= 0, d > 0; assert(self.row(i) =~= me0.row(i)); }
        assert forall|i: int| 0 <= i < other.n() implies #[trigger] self.row(me0.n() + i) == other.row(i) by { l_rows(b.len() as int, d, i); assert(i * d >= 0) by (nonlinear_arith) requires i >= 0, d > 0; assert((me0.n() + i) * d == a.len() + i * d) by (nonlinear_arith) requires a.len() == me0.n() * d; assert(self.row(me0.n() + i) =~= other.row(i)); }
    }
//@ end
}
//@ macro dm pointcloud/src/data_sources/memmap_ram.rs make_point_cloud name=DataMemmap
//@ struct pointcloud/src/data_sources/memmap_ram.rs DataMemmap
//@ subst M = L2 => M
//@ end
impl<M> DataMemmap<M> {
    pub open spec fn inv(&self) -> bool { self.dim > 0 && self.data@.len() % self.dim as nat == 0 }
    pub open spec fn n(&self) -> int { self.data@.len() as int / self.dim as int }
    pub open spec fn row(&self, i: int) -> Seq<f32> { self.data@.subrange(i * self.dim, i * self.dim + self.dim) }
//@ fn dm DataMemmap as PointCloud::len
//@ spec
    requires self.inv()
    ensures res == self.n(), self.data@.len() == self.n() * self.dim
//@ finish
    proof { l_rows(self.data@.len() as int, self.dim as int, 0); }
//@ end
//@ fn dm DataMemmap as PointCloud::is_empty
//@ spec
    requires self.inv()
    ensures res == (self.n() == 0)
//@ finish
    proof { l_rows(self.data@.len() as int, self.dim as int, 0); }
//@ end
//@ fn dm DataMemmap as PointCloud::dim
//@ spec
    ensures res == self.dim
//@ end
//@ fn dm DataMemmap as PointCloud::point
//@ spec
    requires self.inv()
    ensures (res is Ok) == (i < self.n()), res is Ok ==> res->Ok_0@ == self.row(i as int) && res->Ok_0@.len() == self.dim,
//@ start
    proof { l_rows(self.data@.len() as int, self.dim as int, i as int); assert(self.data@.len() == self.data.len()); assert(self.dim * i == i * self.dim) by (nonlinear_arith); assert(i * self.dim >= 0) by (nonlinear_arith); }
//@ end
//@ fn dm DataMemmap as PointCloud::reference_indexes
//@ loops 1
//@ subst let mut __acc1 = Vec => let mut __acc1 : Vec<usize> = Vec
//@ spec
    requires self.inv()
    ensures res@.len() == self.n(), forall|i: int| 0 <= i < self.n() ==> #[trigger] res@[i] == i
//@ loop 0
    invariant __acc1@.len() == it0.index(), it0.seq().len() == self.n(), forall|k: int| 0 <= k < it0.index() ==> #[trigger] __acc1@[k] == k
//@ end
//@ fn dm DataMemmap as PointCloud::names
//@ subst to_string => vto_string
//@ loops 1
//@ subst let mut __acc1 = Vec => let mut __acc1 : Vec<VString> = Vec
//@ spec
    requires self.inv()
    ensures res@.len() == self.n(), forall|i: int| 0 <= i < self.n() ==> #[trigger] res@[i] == dec(i as usize)
//@ loop 0
    invariant __acc1@.len() == it0.index(), it0.seq().len() == self.n(), forall|k: int| 0 <= k < it0.index() ==> #[trigger] __acc1@[k] == dec(k as usize)
//@ end
//@ fn dm DataMemmap as PointCloud::name
//@ subst to_string => vto_string
//@ spec
    ensures res == Ok::<VString, PointCloudError>(dec(pi))
//@ end
//@ fn dm DataMemmap as PointCloud::index
//@ spec
    ensures (res is Ok) == (parsed(*pn) is Some), res is Ok ==> res->Ok_0 == parsed(*pn)->0, forall|i: usize| *pn == chars(#[trigger] dec(i)) ==> res is Ok && res->Ok_0 == i
//@ finish
    proof { assert forall|i: usize| *pn == chars(#[trigger] dec(i)) implies res is Ok && res->Ok_0 == i by { ax_dec(i); } }
//@ end
//@ fn dm DataMemmap as PointCloud::metasummary
//@ subst Self :: MetaSummary => ()
//@ spec
    ensures res is Ok, res->Ok_0.nones == pns@.len(), res->Ok_0.errors == 0
//@ start
    proof { assert(pns@.len() == vstd::slice::spec_slice_len(pns)); }
//@ end
//@ fn dm DataMemmap as PointCloud::label_summary
//@ subst Self :: LabelSummary => ()
//@ spec
    ensures res is Ok, res->Ok_0.nones == pns@.len(), res->Ok_0.errors == 0
//@ start
    proof { assert(pns@.len() == vstd::slice::spec_slice_len(pns)); }
//@ end
//@ fn dm DataMemmap as PointCloud::label
//@ subst Self :: Label => ()
//@ spec
    ensures res == Ok::<Option<&()>, PointCloudError>(None)
//@ end
//@ fn dm DataMemmap as PointCloud::metadata
//@ subst Self :: Metadata => ()
//@ spec
    ensures res == Ok::<Option<&()>, PointCloudError>(None)
//@ end
//@ fn pointcloud/src/data_sources/memmap_ram.rs DataMemmap::convert_to_ram
//@ spec
    requires self.inv()
    ensures res.inv(), res.dim == self.dim, res.data@ == self.data@, res.name == self.name
//@ end
}
// ------------------------------------------------------------------ wrappers: labels or names from elsewhere
/// CONTRACT of a label source (decided by unit `labels`)
pub trait LabelSet: Sized {
    type Label; type LabelSummary: Summary<Label = Self::Label>;
    spec fn linv(&self) -> bool;
    spec fn label_s(&self, i: int) -> PointCloudResult<Option<&Self::Label>>;
    fn label(&self, pn: usize) -> (r: PointCloudResult<Option<&Self::Label>>) requires self.linv() ensures r == self.label_s(pn as int);
}
/// CONTRACT of a name source
pub trait NamedSet: Sized {
    spec fn ninv(&self) -> bool;
    spec fn nn(&self) -> int;
    spec fn name_s(&self, i: int) -> PointCloudResult<VString>;
    spec fn index_s(&self, n: VStr) -> PointCloudResult<usize>;
    fn len(&self) -> (r: usize) requires self.ninv() ensures r == self.nn();
    fn name(&self, i: usize) -> (r: PointCloudResult<VString>) requires self.ninv() ensures r == self.name_s(i as int);
    fn index(&self, n: &VStr) -> (r: PointCloudResult<usize>) requires self.ninv() ensures r == self.index_s(*n);
}
//@ struct pointcloud/src/base_traits.rs SimpleLabeledCloud
//@ end
//@ struct pointcloud/src/base_traits.rs SimpleNamedCloud
//@ end
impl<D, L> SimpleLabeledCloud<D, L> {
//@ fn pointcloud/src/base_traits.rs SimpleLabeledCloud::new
//@ spec
    ensures res.data == data, res.labels == labels
//@ end
}
impl<D: PointCloud, N: NamedSet> SimpleNamedCloud<D, N> {
//@ fn pointcloud/src/base_traits.rs SimpleNamedCloud::new
//@ spec
    requires data.inv(), names.ninv(), data.n() == names.nn()
    ensures res.data == data, res.names == names, res.inv()
//@ end
}
impl<D: PointCloud, L: LabelSet> PointCloud for SimpleLabeledCloud<D, L> {
    type Pt = D::Pt; type Ref = D::Ref; type Label = L::Label; type LabelSummary = L::LabelSummary; type Metadata = D::Metadata; type MetaSummary = D::MetaSummary;
    closed spec fn inv(&self) -> bool { self.data.inv() && self.labels.linv() }
    closed spec fn n(&self) -> int { self.data.n() }
    closed spec fn d(&self) -> int { self.data.d() }
    closed spec fn point_s(&self, i: int) -> PointCloudResult<D::Ref> { self.data.point_s(i) }
    closed spec fn label_s(&self, i: int) -> PointCloudResult<Option<&L::Label>> { self.labels.label_s(i) }
    closed spec fn meta_s(&self, i: int) -> PointCloudResult<Option<&D::Metadata>> { self.data.meta_s(i) }
    closed spec fn name_s(&self, i: int) -> PointCloudResult<VString> { self.data.name_s(i) }
    closed spec fn index_s(&self, n: VStr) -> PointCloudResult<usize> { self.data.index_s(n) }
//@ fn pointcloud/src/base_traits.rs SimpleLabeledCloud as PointCloud::len
//@ opt nopub
//@ end
//@ fn pointcloud/src/base_traits.rs SimpleLabeledCloud as PointCloud::is_empty
//@ opt nopub
//@ end
//@ fn pointcloud/src/base_traits.rs SimpleLabeledCloud as PointCloud::dim
//@ opt nopub
//@ end
//@ fn pointcloud/src/base_traits.rs SimpleLabeledCloud as PointCloud::point
//@ opt nopub
//@ sig
    fn point(&self, i: usize) -> (res: PointCloudResult<Self::Ref>)
//@ end
//@ fn pointcloud/src/base_traits.rs SimpleLabeledCloud as PointCloud::label
//@ opt nopub
//@ end
//@ fn pointcloud/src/base_traits.rs SimpleLabeledCloud as PointCloud::metadata
//@ opt nopub
//@ end
//@ fn pointcloud/src/base_traits.rs SimpleLabeledCloud as PointCloud::name
//@ opt nopub
//@ end
//@ fn pointcloud/src/base_traits.rs SimpleLabeledCloud as PointCloud::index
//@ opt nopub
//@ end
}
impl<D: PointCloud, N: NamedSet> PointCloud for SimpleNamedCloud<D, N> {
    type Pt = D::Pt; type Ref = D::Ref; type Label = D::Label; type LabelSummary = D::LabelSummary; type Metadata = D::Metadata; type MetaSummary = D::MetaSummary;
    closed spec fn inv(&self) -> bool { self.data.inv() && self.names.ninv() && self.names.nn() == self.data.n() }
    closed spec fn n(&self) -> int { self.data.n() }
    closed spec fn d(&self) -> int { self.data.d() }
    closed spec fn point_s(&self, i: int) -> PointCloudResult<D::Ref> { self.data.point_s(i) }
    closed spec fn label_s(&self, i: int) -> PointCloudResult<Option<&D::Label>> { self.data.label_s(i) }
    closed spec fn meta_s(&self, i: int) -> PointCloudResult<Option<&D::Metadata>> { self.data.meta_s(i) }
    closed spec fn name_s(&self, i: int) -> PointCloudResult<VString> { self.names.name_s(i) }
    closed spec fn index_s(&self, n: VStr) -> PointCloudResult<usize> { self.names.index_s(n) }
//@ fn pointcloud/src/base_traits.rs SimpleNamedCloud as PointCloud::len
//@ opt nopub
//@ end
//@ fn pointcloud/src/base_traits.rs SimpleNamedCloud as PointCloud::is_empty
//@ opt nopub
//@ end
//@ fn pointcloud/src/base_traits.rs SimpleNamedCloud as PointCloud::dim
//@ opt nopub
//@ end
//@ fn pointcloud/src/base_traits.rs SimpleNamedCloud as PointCloud::point
//@ opt nopub
//@ sig
    fn point(&self, i: usize) -> (res: PointCloudResult<Self::Ref>)
//@ end
//@ fn pointcloud/src/base_traits.rs SimpleNamedCloud as PointCloud::label
//@ opt nopub
//@ end
//@ fn pointcloud/src/base_traits.rs SimpleNamedCloud as PointCloud::metadata
//@ opt nopub
//@ end
//@ fn pointcloud/src/base_traits.rs SimpleNamedCloud as PointCloud::name
//@ opt nopub
//@ end
//@ fn pointcloud/src/base_traits.rs SimpleNamedCloud as PointCloud::index
//@ opt nopub
//@ end
}
// ------------------------------------------------------------------ adjacency list
//@ struct pointcloud/src/base_traits.rs AdjMatrix
//@ end
pub open spec fn plt(a: (usize, usize), b: (usize, usize)) -> bool { a.0 < b.0 || (a.0 == b.0 && a.1 < b.1) }
/// TRUSTED (std): binary search in a rising list of pairs
pub trait PairSearch { fn binary_search(&self, x: &(usize, usize)) -> Result<usize, usize>; }
impl PairSearch for Vec<(usize, usize)> { #[verifier::external_body] fn binary_search(&self, x: &(usize, usize)) -> (r: Result<usize, usize>)
    ensures (forall|i: int, j: int| 0 <= i < j < self@.len() ==> plt(#[trigger] self@[i], #[trigger] self@[j])) ==> match r { Ok(k) => k < self@.len() && self@[k as int] == *x, Err(_) => !self@.contains(*x) } { unimplemented!() } }
impl AdjMatrix {
    /// one value per pair, pairs with the smaller index first, rising
    pub open spec fn wf(&self) -> bool { self.vals@.len() == self.indexes@.len() && forall|i: int, j: int| 0 <= i < j < self.indexes@.len() ==> plt(#[trigger] self.indexes@[i], #[trigger] self.indexes@[j]) }
//@ fn pointcloud/src/base_traits.rs AdjMatrix::get
//@ spec
    requires self.wf(),
    ensures i == j ==> res is Some && res->0@ == 0real,
        i != j ==> { let p = if i < j { (i, j) } else { (j, i) }; &&& (res is Some) == self.indexes@.contains(p) &&& forall|k: int| 0 <= k < self.indexes@.len() && #[trigger] self.indexes@[k] == p ==> res is Some && res->0 == self.vals@[k] },
//@ end
}
pub proof fn l_sum_rows(a: int, b: int, d: int) requires d > 0, a >= 0, b >= 0, a % d == 0, b % d == 0 ensures (a + b) % d == 0, (a + b) / d == a / d + b / d
{
    l_rows(a, d, 0); l_rows(b, d, 0);
    assert(a + b == (a / d + b / d) * d) by (nonlinear_arith) requires a == (a / d) * d, b == (b / d) * d;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(a + b, d, a / d + b / d, 0);
}
pub proof fn l_rows(n: int, d: int, i: int) requires d > 0, n >= 0, n % d == 0 ensures n == (n / d) * d, 0 <= i < n / d ==> i * d + d <= n, n == 0 <==> n / d == 0, n / d >= 0
{
    assert(n == (n / d) * d) by (nonlinear_arith) requires d > 0, n % d == 0;
    assert(0 <= i < n / d ==> i * d + d <= n) by (nonlinear_arith) requires n == (n / d) * d, d > 0;
    assert(n / d >= 0) by (nonlinear_arith) requires n >= 0, d > 0;
    assert(n / d == 0 ==> n == 0) by (nonlinear_arith) requires n == (n / d) * d;
}
} // verus!
fn main() {}
