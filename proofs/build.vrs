//@ include prelude.vrs
//@ include coll.vrs
// =====================================================================================
// UNIT build: how a node's points are split among its children
// =====================================================================================
//@ gsubst SmallVec < [NodeAddress; 10] > => Vec < NodeAddress >
//@ gsubst SmallVec < [usize; 20] > => Vec < usize >
//@ gsubst SmallVec::new => Vec::new
//@ gsubst atomic::AtomicUsize => Counter
//@ gsubst atomic::Ordering::SeqCst => 0
//@ gsubst RwLock < TreePluginSet > => Opaque
//@ gsubst Arc < CoverTreeParameters < D > > => CoverTreeParameters < D >
//@ gsubst Arc < D > => D
//@ gsubst NodePluginSet => Opaque
//@ gsubst PhantomData < D > => Ghost < Option < D > >
//@ gsubst RwLock::new (TreePluginSet::new ()) => Opaque::new ()
pub type NodeAddress = (i32, usize);
#[verifier::external_body] pub struct Opaque { x: usize }
/// the shared node counter, as a number of which every change is recorded
#[verifier::external_body] pub struct Counter { x: usize }
impl Counter {
    pub uninterp spec fn view(&self) -> int;
    #[verifier::external_body] pub fn new(n: usize) -> (r: Counter) ensures r@ == n { unimplemented!() }
    #[verifier::external_body] pub fn fetch_add(&mut self, n: usize, o: usize) -> (r: usize) ensures final(self)@ == old(self)@ + n { unimplemented!() }
    #[verifier::external_body] pub fn fetch_sub(&mut self, n: usize, o: usize) -> (r: usize) ensures final(self)@ == old(self)@ - n { unimplemented!() }
    #[verifier::external_body] pub fn load(&self, o: usize) -> (r: usize) ensures r == self@ { unimplemented!() }
}
#[verifier::external_body] pub fn vtake<T>(v: &mut Vec<T>) -> (r: Vec<T>) ensures r@ == old(v)@, final(v)@.len() == 0 { unimplemented!() }
/// TRUSTED: a float cast to an integer, saturating as Rust defines it
#[verifier::external_body] pub fn real_to_i32(x: Real32) -> (r: i32) ensures r == (if whole(x@) < i32::MIN { i32::MIN as int } else if whole(x@) > i32::MAX { i32::MAX as int } else { whole(x@) }) { unimplemented!() }
pub uninterp spec fn whole(x: real) -> int;
pub axiom fn ax_whole(k: int) ensures whole(k as real) == k;
impl Opaque { #[verifier::external_body] pub fn new() -> Opaque { unimplemented!() } }
pub enum GokoError { PointCloudError, DoubleNest, InsertBeforeNest, IndexNotInTree(usize) }
#[verifier::external] impl std::fmt::Debug for GokoError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
pub type GokoResult<T> = Result<T, GokoError>;
pub type PointCloudResult<T> = Result<T, GokoError>;
pub mod dm { use super::*;
/// distance between two data points: symmetric, not negative, zero from a point to itself (P14), a finite number
pub uninterp spec fn dd(i: usize, j: usize) -> real;
pub broadcast axiom fn ax_dd(i: usize, j: usize) ensures 0real <= (#[trigger] dd(i, j)) < rfmax(), dd(i, j) == dd(j, i), i == j ==> dd(i, j) == 0real;
}
pub use dm::dd;
pub uninterp spec fn valid(i: usize) -> bool;
pub uninterp spec fn rneginf() -> real;
pub axiom fn ax_neginf() ensures rneginf() < 0real;
#[verifier::external_body] pub fn f32_NEG_INF() -> (r: f32) ensures r@ == rneginf() { unimplemented!() }
/// the points of the cloud, in the order the cloud lists them
pub uninterp spec fn all_points() -> Seq<usize>;
pub trait PointCloud: Sized {
    // CONTRACT of the point cloud (decided by P15)
    fn distances_to_point_index(&self, i: usize, indexes: &[usize]) -> (r: PointCloudResult<Vec<f32>>)
        ensures
            (valid(i) && forall|j: int| 0 <= j < indexes@.len() ==> valid(#[trigger] indexes@[j])) ==> r is Ok,
            r is Ok ==> r->Ok_0@.len() == indexes@.len() && forall|j: int| 0 <= j < indexes@.len() ==> (#[trigger] r->Ok_0@[j])@ == dd(i, indexes@[j]);
    fn reference_indexes(&self) -> (r: Vec<usize>)
        ensures r@ == all_points(), r@.len() <= usize::MAX, r@.no_duplicates(), forall|j: int| 0 <= j < r@.len() ==> valid(#[trigger] r@[j]);
}
/// TRUSTED: the random source may return anything in the range asked for
/// TRUSTED (rand): a seed determines what is drawn
pub uninterp spec fn seeded(s: u64) -> int;
#[verifier::external_body] pub struct SmallRng { x: usize }
impl SmallRng {
    #[verifier::external_body] pub fn gen_range(&mut self, r: std::ops::Range<usize>) -> (k: usize) requires r.start < r.end ensures r.start <= k < r.end { unimplemented!() }
    /// what the generator will draw
    pub uninterp spec fn st(&self) -> int;
    #[verifier::external_body] pub fn seed_from_u64(s: u64) -> (r: SmallRng) ensures r.st() == seeded(s) { unimplemented!() }
    #[verifier::external_body] pub fn from_entropy() -> SmallRng { unimplemented!() }
}
pub trait Choose { fn choose(&self, rng: &mut SmallRng) -> Option<&usize>; }
impl Choose for Vec<usize> { #[verifier::external_body] fn choose(&self, rng: &mut SmallRng) -> (r: Option<&usize>) ensures (r is Some) == (self@.len() > 0), r is Some ==> self@.contains(*r->0) { unimplemented!() } }
broadcast use {fl::ax_mk, fl::ax_mk2, dm::ax_dd, vstd::seq_lib::group_to_multiset_ensures};
// ---------------------------------------------------------------- the points of a node
//@ struct goko/src/covertree/data_caches.rs FirstCoveredData
//@ end
//@ struct goko/src/covertree/data_caches.rs UncoveredData
//@ end
//@ struct goko/src/covertree/data_caches.rs NearestCoveredData
//@ end
//@ struct goko/src/covertree/data_caches.rs CoveredData
//@ end
/// how often x occurs
pub open spec fn cnt(s: Seq<usize>, x: usize) -> nat { s.to_multiset().count(x) }
pub open spec fn one(b: bool) -> nat { if b { 1 } else { 0 } }
/// how often x occurs in a node's points, its centre included
pub open spec fn pcnt(c: usize, s: Seq<usize>, x: usize) -> nat { cnt(s, x) + one(x == c) }
/// different points, all in the cloud
pub open spec fn uniq(s: Seq<usize>) -> bool { forall|x: usize| #![trigger cnt(s, x)] cnt(s, x) <= 1 && (cnt(s, x) > 0 ==> valid(x)) }
/// a centre and the other points of a node: different points, all in the cloud, with their distances to the centre
pub open spec fn pinv(c: usize, pts: Seq<usize>, ds: Seq<Real32>) -> bool {
    &&& valid(c) && cnt(pts, c) == 0 && uniq(pts) && pts.len() == ds.len() && pts.len() < usize::MAX
    &&& forall|j: int| 0 <= j < pts.len() ==> (#[trigger] ds[j])@ == dd(c, pts[j])
}
/// every one of these points is strictly closer than r to c
pub open spec fn within(c: usize, pts: Seq<usize>, r: real) -> bool { forall|j: int| 0 <= j < pts.len() ==> dd(c, #[trigger] pts[j]) < r }
pub open spec fn beyond(c: usize, pts: Seq<usize>, r: real) -> bool { forall|j: int| 0 <= j < pts.len() ==> dd(c, #[trigger] pts[j]) >= r }
/// r is the largest of these distances (minus infinity when there is none)
pub open spec fn largest(ds: Seq<Real32>, r: real) -> bool { if ds.len() == 0 { r == rneginf() } else { (forall|j: int| 0 <= j < ds.len() ==> (#[trigger] ds[j])@ <= r) && exists|j: int| 0 <= j < ds.len() && (#[trigger] ds[j])@ == r } }
proof fn l_cnt(s: Seq<usize>, i: int) requires 0 <= i < s.len() ensures cnt(s, s[i]) > 0 { assert(s.contains(s[i])); }
proof fn l_take(s: Seq<usize>, i: int) requires 0 <= i < s.len() ensures s.take(i + 1) == s.take(i).push(s[i]), cnt(s.take(i), s[i]) < cnt(s, s[i])
{
    assert(s.take(i + 1) =~= s.take(i).push(s[i]));
    l_le(s, i + 1, s[i]);
}
proof fn l_le(s: Seq<usize>, n: int, x: usize) requires 0 <= n <= s.len() ensures cnt(s.take(n), x) <= cnt(s, x) decreases s.len() - n
{
    if n < s.len() { l_le(s, n + 1, x); assert(s.take(n + 1) =~= s.take(n).push(s[n])); } else { assert(s.take(n) =~= s); }
}
proof fn l_nodup(s: Seq<usize>) requires s.no_duplicates() ensures forall|x: usize| #![trigger cnt(s, x)] cnt(s, x) <= 1 { s.lemma_multiset_has_no_duplicates(); }
proof fn l_zero(x: usize) ensures cnt(Seq::<usize>::empty(), x) == 0 { Seq::<usize>::empty().to_multiset_ensures(); assert(!Seq::<usize>::empty().contains(x)); }
proof fn l_all(s: Seq<usize>, c: usize)
    requires s.push(c) == all_points(), all_points().no_duplicates(), forall|j: int| 0 <= j < all_points().len() ==> valid(#[trigger] all_points()[j])
    ensures valid(c), cnt(s, c) == 0, uniq(s), forall|j: int| 0 <= j < s.len() ==> valid(#[trigger] s[j])
{
    let a = s.push(c);
    l_nodup(a);
    assert(valid(a[s.len() as int]));
    assert forall|j: int| 0 <= j < s.len() implies valid(#[trigger] s[j]) by { assert(s[j] == a[j]); }
    assert(cnt(a, c) == cnt(s, c) + 1);
    assert forall|x: usize| #![trigger cnt(s, x)] cnt(s, x) <= 1 && (cnt(s, x) > 0 ==> valid(x)) by {
        assert(cnt(a, x) <= 1);
        if cnt(s, x) > 0 { assert(s.contains(x)); let j = choose|j: int| 0 <= j < s.len() && s[j] == x; assert(valid(s[j])); }
    }
}
proof fn l_largest(ds: Seq<Real32>, n: int, a: real, b: real)
    requires 0 <= n < ds.len(), largest(ds.take(n), a), b == rmax(a, ds[n]@), ds[n]@ >= 0real
    ensures largest(ds.take(n + 1), b)
{
    ax_neginf();
    let t = ds.take(n + 1);
    assert(t[n] == ds[n]);
    assert forall|j: int| 0 <= j < t.len() implies (#[trigger] t[j])@ <= b by { if j < n { assert(t[j] == ds.take(n)[j]); } }
    if b == ds[n]@ { assert(t[n]@ == b); } else {
        assert(n > 0);
        let j = choose|j: int| 0 <= j < n && (#[trigger] ds.take(n)[j])@ == a;
        assert(t[j] == ds.take(n)[j]); assert(t[j]@ == b);
    }
}
impl FirstCoveredData {
    pub open spec fn inv(&self) -> bool { pinv(self.center_index, self.coverage@, self.dists@) }
    pub open spec fn count(&self, x: usize) -> nat { pcnt(self.center_index, self.coverage@, x) }
//@ fn goko/src/covertree/data_caches.rs FirstCoveredData::new
//@ spec
    requires all_points().len() > 0,
    ensures res is Ok, res->Ok_0.inv(), res->Ok_0.coverage@.push(res->Ok_0.center_index) == all_points(),
//@ after let center_index
    proof { assert(coverage@.push(center_index) =~= all_points()); l_all(coverage@, center_index); assert(coverage@.len() == coverage.len()); }
//@ end
//@ fn goko/src/covertree/data_caches.rs FirstCoveredData::split
//@ spec
    requires self.inv(),
    ensures
        res is Ok, res->Ok_0.0.inv(), res->Ok_0.0.center_index == self.center_index,
        uniq(res->Ok_0.1.coverage@), cnt(res->Ok_0.1.coverage@, self.center_index) == 0, res->Ok_0.0.coverage@.len() + res->Ok_0.1.coverage@.len() == self.coverage@.len(),
        forall|x: usize| #![trigger cnt(self.coverage@, x)] #![trigger cnt(res->Ok_0.0.coverage@, x)] #![trigger cnt(res->Ok_0.1.coverage@, x)] cnt(res->Ok_0.0.coverage@, x) + cnt(res->Ok_0.1.coverage@, x) == cnt(self.coverage@, x),
        within(self.center_index, res->Ok_0.0.coverage@, thresh@), beyond(self.center_index, res->Ok_0.1.coverage@, thresh@),
//@ subst let mut close_dist = Vec => let mut close_dist : Vec<f32> = Vec
//@ finish
    proof {
        assert(self.coverage@.take(self.coverage@.len() as int) =~= self.coverage@);
        assert forall|x: usize| #![trigger cnt(self.coverage@, x)] #![trigger cnt(close_index@, x)] #![trigger cnt(far@, x)] cnt(close_index@, x) + cnt(far@, x) == cnt(self.coverage@, x) by { assert(cnt(self.coverage@.take(self.coverage@.len() as int), x) == cnt(self.coverage@, x)); }
    }
//@ loopbefore 0
    proof { assert forall|x: usize| cnt(self.coverage@.take(0), x) == 0 by { assert(self.coverage@.take(0) =~= Seq::empty()); l_zero(x); } assert(close_index@ =~= Seq::empty()); assert(far@ =~= Seq::empty()); }
//@ loopstart 0
    proof { l_take(self.coverage@, it0.index()); l_cnt(self.coverage@, it0.index()); }
    let ghost oi = close_index@; let ghost of = far@;
//@ loopend 0
    proof {
        assert forall|x: usize| #![trigger cnt(self.coverage@.take(it0.index() + 1), x)] cnt(close_index@, x) + cnt(far@, x) == cnt(self.coverage@.take(it0.index() + 1), x) by {
            assert(cnt(oi, x) + cnt(of, x) == cnt(self.coverage@.take(it0.index()), x));
        }
    }
//@ loop 0
    invariant
        self.inv(),
        forall|x: usize| #![trigger cnt(self.coverage@.take(it0.index()), x)] cnt(close_index@, x) + cnt(far@, x) == cnt(self.coverage@.take(it0.index()), x),
        close_index@.len() == close_dist@.len(), close_index@.len() + far@.len() == it0.index(),
        forall|j: int| 0 <= j < close_index@.len() ==> (#[trigger] close_dist@[j])@ == dd(self.center_index, close_index@[j]),
        within(self.center_index, close_index@, thresh@), beyond(self.center_index, far@, thresh@),
//@ end
//@ fn goko/src/covertree/data_caches.rs FirstCoveredData::into_indexes
//@ spec
    ensures res@ == self.coverage@
//@ end
//@ fn goko/src/covertree/data_caches.rs FirstCoveredData::max_distance
//@ spec
    requires self.inv(),
    ensures largest(self.dists@, res@),
//@ start
    proof { ax_neginf(); }
//@ loop 0
    invariant self.inv(), largest(self.dists@.take(it0.index()), __acc1@),
//@ loopend 0
    proof { l_largest(self.dists@, it0.index(), __a@, __acc1@); }
//@ loopstart 0
    let ghost __a = __acc1;
//@ finish
    proof { assert(self.dists@.take(self.dists@.len() as int) =~= self.dists@); }
//@ end
//@ fn goko/src/covertree/data_caches.rs FirstCoveredData::len
//@ spec
    requires self.inv(),
    ensures res == self.coverage@.len() + 1,
//@ end
}
impl UncoveredData {
//@ fn goko/src/covertree/data_caches.rs UncoveredData::pick_center
//@ spec
    requires uniq(old(self).coverage@), old(self).coverage@.len() > 0,
    ensures
        res is Ok, res->Ok_0.inv(), res->Ok_0.coverage@.len() + 1 + final(self).coverage@.len() == old(self).coverage@.len(), uniq(final(self).coverage@),
        forall|x: usize| #![trigger cnt(old(self).coverage@, x)] #![trigger cnt(final(self).coverage@, x)] #![trigger res->Ok_0.count(x)] res->Ok_0.count(x) + cnt(final(self).coverage@, x) == cnt(old(self).coverage@, x),
        within(res->Ok_0.center_index, res->Ok_0.coverage@, radius@), beyond(res->Ok_0.center_index, final(self).coverage@, radius@),
//@ subst let mut close_dist = Vec => let mut close_dist : Vec<f32> = Vec
//@ before let dists
    let ghost cov = self.coverage@;
    proof {
        assert(old(self).coverage@ =~= old(self).coverage@.take(new_center as int) + seq![center_index] + old(self).coverage@.skip(new_center as int + 1));
        assert forall|x: usize| #![trigger cnt(old(self).coverage@, x)] #![trigger cnt(cov, x)] cnt(cov, x) + one(x == center_index) == cnt(old(self).coverage@, x) by { old(self).coverage@.to_multiset_ensures(); assert(cov == old(self).coverage@.remove(new_center as int)); l_cnt(old(self).coverage@, new_center as int); }
        l_cnt(old(self).coverage@, new_center as int);
        assert(uniq(cov));
        assert forall|j: int| 0 <= j < cov.len() implies valid(#[trigger] cov[j]) by { l_cnt(cov, j); }
    }
//@ loopbefore 0
    proof { assert forall|x: usize| cnt(cov.take(0), x) == 0 by { assert(cov.take(0) =~= Seq::empty()); l_zero(x); } assert(close_index@ =~= Seq::empty()); assert(far@ =~= Seq::empty()); }
//@ loopstart 0
    proof { l_take(cov, it0.index()); l_cnt(cov, it0.index()); }
    let ghost oi = close_index@; let ghost of = far@;
//@ loopend 0
    proof {
        assert forall|x: usize| #![trigger cnt(cov.take(it0.index() + 1), x)] cnt(close_index@, x) + cnt(far@, x) == cnt(cov.take(it0.index() + 1), x) by {
            assert(cnt(oi, x) + cnt(of, x) == cnt(cov.take(it0.index()), x));
        }
    }
//@ loop 0
    invariant
        cov == self.coverage@,
        forall|x: usize| #![trigger cnt(cov.take(it0.index()), x)] cnt(close_index@, x) + cnt(far@, x) == cnt(cov.take(it0.index()), x),
        close_index@.len() == close_dist@.len(), close_index@.len() + far@.len() == it0.index(),
        forall|j: int| 0 <= j < close_index@.len() ==> (#[trigger] close_dist@[j])@ == dd(center_index, close_index@[j]),
        within(center_index, close_index@, radius@), beyond(center_index, far@, radius@),
//@ loopafter 0
    proof {
        assert(cov.take(cov.len() as int) =~= cov);
        assert forall|x: usize| #![trigger cnt(cov, x)] #![trigger cnt(close_index@, x)] #![trigger cnt(far@, x)] cnt(close_index@, x) + cnt(far@, x) == cnt(cov, x) by { assert(cnt(cov.take(cov.len() as int), x) == cnt(cov, x)); }
    }
//@ finish
    proof {
        assert forall|x: usize| #![trigger cnt(old(self).coverage@, x)] #![trigger cnt(self.coverage@, x)] #![trigger close.count(x)] close.count(x) + cnt(self.coverage@, x) == cnt(old(self).coverage@, x) by { assert(cnt(close_index@, x) + cnt(far@, x) == cnt(cov, x)); }
    }
//@ end
//@ fn goko/src/covertree/data_caches.rs UncoveredData::len
//@ spec
    ensures res == self.coverage@.len(),
//@ end
}
/// point i is inside the ball around the node's centre or around one of the new centres
pub open spec fn cov_by(n: NearestCoveredData, i: int, r: real) -> bool { n.center_dists@[i]@ < r || exists|k: int| 0 <= k < n.dists@.len() && (#[trigger] n.dists@[k]@[i])@ < r }
/// the new centres: points of the node, at least r away from the node's centre and from each other
pub open spec fn spread(n: NearestCoveredData, r: real) -> bool {
    &&& pinv(n.center_index, n.point_indexes@, n.center_dists@)
    &&& n.centers@.len() == n.dists@.len()
    &&& forall|k: int| 0 <= k < n.dists@.len() ==> (#[trigger] n.dists@[k])@.len() == n.point_indexes@.len()
    &&& forall|k: int, i: int| 0 <= k < n.dists@.len() && 0 <= i < n.point_indexes@.len() ==> (#[trigger] n.dists@[k]@[i])@ == dd(n.centers@[k], n.point_indexes@[i])
    &&& forall|k: int| 0 <= k < n.centers@.len() ==> n.point_indexes@.contains(#[trigger] n.centers@[k]) && dd(n.center_index, n.centers@[k]) >= r
    &&& forall|k: int, l: int| 0 <= k < l < n.centers@.len() ==> dd(#[trigger] n.centers@[k], #[trigger] n.centers@[l]) >= r
}
pub open spec fn covered(n: NearestCoveredData, r: real) -> bool { spread(n, r) && forall|i: int| 0 <= i < n.point_indexes@.len() ==> #[trigger] cov_by(n, i, r) }
proof fn l_sub_len(a: Seq<usize>, b: Seq<usize>) requires a.no_duplicates(), forall|i: int| 0 <= i < a.len() ==> b.contains(#[trigger] a[i]) ensures a.len() <= b.len()
{
    a.unique_seq_to_set(); b.lemma_cardinality_of_set();
    assert(a.to_set().subset_of(b.to_set())) by { assert forall|x: usize| a.to_set().contains(x) implies b.to_set().contains(x) by { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert(b.contains(a[i])); } }
    vstd::set_lib::lemma_len_subset(a.to_set(), b.to_set());
}
proof fn l_spread_len(n: NearestCoveredData, r: real) requires spread(n, r), r > 0real ensures n.centers@.no_duplicates(), n.centers@.len() <= n.point_indexes@.len()
{
    assert forall|k: int, l: int| 0 <= k < n.centers@.len() && 0 <= l < n.centers@.len() && k != l implies n.centers@[k] != n.centers@[l] by { if k < l { assert(dd(n.centers@[k], n.centers@[l]) >= r); } else { assert(dd(n.centers@[l], n.centers@[k]) >= r); } }
    l_sub_len(n.centers@, n.point_indexes@);
}
pub open spec fn on(o: Option<(usize, Real32)>) -> int { match o { Some((n, d)) => n as int, None => 0 } }
pub open spec fn od(o: Option<(usize, Real32)>) -> real { match o { Some((n, d)) => d@, None => 0real } }
/// how often x was handed to the children / belongs to the children, their centres included
pub open spec fn csum(v: Seq<NearestCoveredData>, x: usize) -> nat decreases v.len() { if v.len() == 0 { 0 } else { csum(v.drop_last(), x) + cnt(v.last().point_indexes@, x) } }
pub open spec fn psum(v: Seq<NearestCoveredData>, x: usize) -> nat decreases v.len() { if v.len() == 0 { 0 } else { psum(v.drop_last(), x) + v.last().count(x) } }
proof fn l_csum_upd(v: Seq<NearestCoveredData>, k: int, n: NearestCoveredData, x: usize) requires 0 <= k < v.len() ensures csum(v.update(k, n), x) + cnt(v[k].point_indexes@, x) == csum(v, x) + cnt(n.point_indexes@, x), csum(v, x) >= cnt(v[k].point_indexes@, x) decreases v.len()
{
    let w = v.update(k, n);
    if k == v.len() - 1 { assert(w.drop_last() =~= v.drop_last()); } else { assert(w.drop_last() =~= v.drop_last().update(k, n)); l_csum_upd(v.drop_last(), k, n, x); }
}
proof fn l_psum(v: Seq<NearestCoveredData>, cs: Seq<usize>, x: usize) requires v.len() == cs.len(), forall|k: int| 0 <= k < v.len() ==> (#[trigger] v[k]).center_index == cs[k] ensures psum(v, x) == csum(v, x) + cnt(cs, x) decreases v.len()
{
    if v.len() == 0 { assert(cs =~= Seq::empty()); l_zero(x); } else {
        assert(cs =~= cs.drop_last().push(cs.last()));
        assert forall|k: int| 0 <= k < v.drop_last().len() implies (#[trigger] v.drop_last()[k]).center_index == cs.drop_last()[k] by { assert(v[k].center_index == cs[k]); }
        l_psum(v.drop_last(), cs.drop_last(), x);
        assert(v.last().center_index == cs.last());
    }
}
proof fn l_csum_zero(v: Seq<NearestCoveredData>, x: usize) requires forall|k: int| 0 <= k < v.len() ==> (#[trigger] v[k]).point_indexes@.len() == 0 ensures csum(v, x) == 0 decreases v.len()
{
    if v.len() > 0 {
        assert(v.last().point_indexes@ =~= Seq::empty()); l_zero(x);
        assert forall|k: int| 0 <= k < v.drop_last().len() implies (#[trigger] v.drop_last()[k]).point_indexes@.len() == 0 by { assert(v[k].point_indexes@.len() == 0); }
        l_csum_zero(v.drop_last(), x);
    }
}
/// d is the distance from p to the nearest of these centres
pub open spec fn nearest_of(cs: Seq<usize>, p: usize, d: real) -> bool { forall|k: int| 0 <= k < cs.len() ==> d <= #[trigger] dd(cs[k], p) }
/// a piece handed to the centre c: its points with their distances to c, none of them nearer to another centre
pub open spec fn piece(n: NearestCoveredData, c: usize, root: usize, cs: Seq<usize>) -> bool {
    &&& n.center_index == c && n.centers@.len() == 0 && n.dists@.len() == 0 && n.point_indexes@.len() == n.center_dists@.len() && cnt(n.point_indexes@, c) == 0
    &&& forall|j: int| 0 <= j < n.point_indexes@.len() ==> (#[trigger] n.center_dists@[j])@ == dd(c, n.point_indexes@[j])
    &&& forall|j: int| 0 <= j < n.point_indexes@.len() ==> nearest_of(cs, #[trigger] n.point_indexes@[j], dd(c, n.point_indexes@[j])) && dd(c, n.point_indexes@[j]) <= dd(root, n.point_indexes@[j])
}
/// point x of the node has been seen and is one of the new centres
pub open spec fn seen_center(n: NearestCoveredData, m: int, x: usize) -> bool { n.centers@.contains(x) && n.point_indexes@.take(m).contains(x) }
proof fn l_idx(s: Seq<usize>, i: int) requires 0 <= i < s.len() ensures s.contains(s[i]) {}
proof fn l_seen(n: NearestCoveredData, m: int, x: usize) requires 0 <= m < n.point_indexes@.len(), cnt(n.point_indexes@.take(m), n.point_indexes@[m]) == 0 ensures seen_center(n, m + 1, x) == (seen_center(n, m, x) || (n.point_indexes@[m] == x && n.centers@.contains(x))), x == n.point_indexes@[m] ==> !seen_center(n, m, x)
{
    let p = n.point_indexes@;
    assert(p.take(m + 1) =~= p.take(m).push(p[m]));
    assert(p.take(m + 1)[m] == x || p[m] != x);
    if p.take(m).contains(x) { let j = choose|j: int| 0 <= j < m && p.take(m)[j] == x; assert(p.take(m + 1)[j] == x); }
    if p.take(m + 1).contains(x) && x != p[m] { let j = choose|j: int| 0 <= j < m + 1 && #[trigger] p.take(m + 1)[j] == x; assert(p.take(m)[j] == x); }
    if x == p[m] && p.take(m).contains(x) { let j = choose|j: int| 0 <= j < m && p.take(m)[j] == x; l_cnt(p.take(m), j); }
    if p[m] == x { assert(p.take(m + 1)[m] == x); }
}
proof fn l_piece_push(a: NearestCoveredData, b: NearestCoveredData, c: usize, root: usize, cs: Seq<usize>, p: usize, d: Real32)
    requires piece(a, c, root, cs), b.point_indexes@ == a.point_indexes@.push(p), b.center_dists@ == a.center_dists@.push(d), b.centers == a.centers, b.dists == a.dists, b.center_index == a.center_index, p != c, d@ == dd(c, p), nearest_of(cs, p, d@), d@ <= dd(root, p)
    ensures piece(b, c, root, cs)
{
    let n = a.point_indexes@.len() as int;
    assert forall|j: int| 0 <= j < b.point_indexes@.len() implies (#[trigger] b.center_dists@[j])@ == dd(c, b.point_indexes@[j]) by { if j < n { assert(b.center_dists@[j] == a.center_dists@[j]); } }
    assert forall|j: int| 0 <= j < b.point_indexes@.len() implies nearest_of(cs, #[trigger] b.point_indexes@[j], dd(c, b.point_indexes@[j])) && dd(c, b.point_indexes@[j]) <= dd(root, b.point_indexes@[j]) by { if j < n { assert(b.point_indexes@[j] == a.point_indexes@[j]); } }
}
pub open spec fn blank(n: NearestCoveredData, c: usize) -> bool { n.center_index == c && n.centers@.len() == 0 && n.dists@.len() == 0 && n.point_indexes@.len() == 0 && n.center_dists@.len() == 0 }
/// what add_point does
pub open spec fn added(a: NearestCoveredData, b: NearestCoveredData, p: usize, d: Real32) -> bool {
    &&& b.centers == a.centers && b.dists == a.dists && b.center_index == a.center_index
    &&& p == a.center_index ==> b == a
    &&& p != a.center_index ==> b.center_dists@ == a.center_dists@.push(d) && b.point_indexes@ == a.point_indexes@.push(p)
}
/// the first m points have been handed out
pub open spec fn asg(n: NearestCoveredData, m: int, nc: NearestCoveredData, cv: Seq<NearestCoveredData>) -> bool {
    &&& cv.len() == n.centers@.len()
    &&& piece(nc, n.center_index, n.center_index, n.centers@) && nc.point_indexes@.len() <= m
    &&& forall|k: int| 0 <= k < cv.len() ==> piece(#[trigger] cv[k], n.centers@[k], n.center_index, n.centers@) && cv[k].point_indexes@.len() <= m
    &&& forall|x: usize| #![trigger cnt(n.point_indexes@.take(m), x)] cnt(nc.point_indexes@, x) + csum(cv, x) + one(seen_center(n, m, x)) == cnt(n.point_indexes@.take(m), x)
}
proof fn l_shape(n: NearestCoveredData, r: real) requires covered(n, r)
    ensures n.point_indexes@.len() == n.center_dists@.len() < usize::MAX, n.dists@.len() == n.centers@.len(), forall|k: int| 0 <= k < n.dists@.len() ==> (#[trigger] n.dists@[k])@.len() == n.point_indexes@.len() {}
proof fn l_asg_init(n: NearestCoveredData, nc: NearestCoveredData, cv: Seq<NearestCoveredData>)
    requires blank(nc, n.center_index), cv.len() == n.centers@.len(), forall|k: int| 0 <= k < cv.len() ==> blank(#[trigger] cv[k], n.centers@[k])
    ensures asg(n, 0, nc, cv)
{
    let pts = n.point_indexes@;
    assert(pts.take(0) =~= Seq::empty()); l_zero(n.center_index);
    assert(nc.point_indexes@ =~= Seq::empty());
    assert forall|k: int| 0 <= k < cv.len() implies piece(#[trigger] cv[k], n.centers@[k], n.center_index, n.centers@) && cv[k].point_indexes@.len() <= 0 by { assert(blank(cv[k], n.centers@[k])); assert(cv[k].point_indexes@ =~= Seq::empty()); l_zero(n.centers@[k]); }
    assert forall|x: usize| #![trigger cnt(pts.take(0), x)] cnt(nc.point_indexes@, x) + csum(cv, x) + one(seen_center(n, 0, x)) == cnt(pts.take(0), x) by { l_zero(x); l_csum_zero(cv, x); }
}
/// index and d are the nearest new centre of point m and its distance
pub open spec fn chosen(n: NearestCoveredData, m: int, index: int, d: real) -> bool {
    if n.dists@.len() == 0 { index == 0 && d == rfmax() } else { 0 <= index < n.dists@.len() && d == n.dists@[index]@[m]@ && forall|k: int| 0 <= k < n.dists@.len() ==> d <= (#[trigger] n.dists@[k]@[m])@ }
}
proof fn l_asg_idx(n: NearestCoveredData, rr: real, m: int, index: int, d: real)
    requires rr > 0real, covered(n, rr), 0 <= m < n.point_indexes@.len(), chosen(n, m, index, d)
    ensures
        n.center_dists@[m]@ >= d ==> 0 <= index < n.centers@.len() && d == dd(n.centers@[index], n.point_indexes@[m]),
        nearest_of(n.centers@, n.point_indexes@[m], d), n.center_dists@[m]@ == dd(n.center_index, n.point_indexes@[m]),
        n.centers@.contains(n.point_indexes@[m]) ==> n.center_dists@[m]@ >= d && n.centers@[index] == n.point_indexes@[m],
        n.point_indexes@[m] != n.center_index, n.center_dists@[m]@ < d ==> n.center_dists@[m]@ < rr, n.center_dists@[m]@ >= d ==> d < rr,
{
    let pts = n.point_indexes@;
    l_cnt(pts, m);
    assert(n.center_dists@[m]@ == dd(n.center_index, pts[m]));
    assert(cov_by(n, m, rr));
    if n.dists@.len() > 0 {
        assert(n.dists@[index]@[m]@ == dd(n.centers@[index], pts[m]));
        assert forall|k: int| 0 <= k < n.centers@.len() implies d <= #[trigger] dd(n.centers@[k], pts[m]) by { assert(n.dists@[k]@[m]@ == dd(n.centers@[k], pts[m])); }
        if n.centers@.contains(pts[m]) {
            let q = choose|q: int| 0 <= q < n.centers@.len() && n.centers@[q] == pts[m];
            assert(dd(n.centers@[q], pts[m]) == 0real);
            assert(dd(n.center_index, n.centers@[q]) >= rr);
            if q < index { assert(dd(n.centers@[q], n.centers@[index]) >= rr); }
            if index < q { assert(dd(n.centers@[index], n.centers@[q]) >= rr); }
        }
        if !(n.center_dists@[m]@ < rr) { let k = choose|k: int| 0 <= k < n.dists@.len() && (#[trigger] n.dists@[k]@[m])@ < rr; assert(d <= n.dists@[k]@[m]@); }
    } else { assert(!n.centers@.contains(pts[m])); }
}
proof fn l_asg_step(n: NearestCoveredData, rr: real, m: int, nc0: NearestCoveredData, cv0: Seq<NearestCoveredData>, nc1: NearestCoveredData, cv1: Seq<NearestCoveredData>, index: int, d: Real32)
    requires
        rr > 0real, covered(n, rr), 0 <= m < n.point_indexes@.len(), chosen(n, m, index, d@), asg(n, m, nc0, cv0),
        n.center_dists@[m]@ < d@ ==> cv1 == cv0 && added(nc0, nc1, n.point_indexes@[m], n.center_dists@[m]),
        n.center_dists@[m]@ >= d@ ==> nc1 == nc0 && cv1 == cv0.update(index, cv1[index]) && added(cv0[index], cv1[index], n.point_indexes@[m], d),
    ensures asg(n, m + 1, nc1, cv1),
{
    let pts = n.point_indexes@; let p = pts[m]; let cs = n.centers@; let root = n.center_index;
    l_take(pts, m); l_cnt(pts, m); l_asg_idx(n, rr, m, index, d@);
    let near = n.center_dists@[m]@ < d@;
    if near {
        assert forall|k: int| 0 <= k < cs.len() implies n.center_dists@[m]@ <= #[trigger] dd(cs[k], p) by {}
        l_piece_push(nc0, nc1, root, root, cs, p, n.center_dists@[m]);
    } else {
        assert(piece(cv0[index], cs[index], root, cs));
        if p != cs[index] { l_piece_push(cv0[index], cv1[index], cs[index], root, cs, p, d); l_idx(cs, index); } else { l_idx(cs, index); }
        assert forall|k: int| 0 <= k < cv1.len() implies piece(#[trigger] cv1[k], cs[k], root, cs) && cv1[k].point_indexes@.len() <= m + 1 by { if k != index { assert(cv1[k] == cv0[k]); assert(piece(cv0[k], cs[k], root, cs)); } }
    }
    assert forall|x: usize| #![trigger cnt(pts.take(m + 1), x)] cnt(nc1.point_indexes@, x) + csum(cv1, x) + one(seen_center(n, m + 1, x)) == cnt(pts.take(m + 1), x) by {
        assert(cnt(nc0.point_indexes@, x) + csum(cv0, x) + one(seen_center(n, m, x)) == cnt(pts.take(m), x));
        l_seen(n, m, x);
        if !near { l_csum_upd(cv0, index, cv1[index], x); }
    }
}
proof fn l_asg_done(n: NearestCoveredData, rr: real, nc: NearestCoveredData, cv: Seq<NearestCoveredData>)
    requires rr > 0real, covered(n, rr), asg(n, n.point_indexes@.len() as int, nc, cv)
    ensures
        nc.inv(), forall|k: int| 0 <= k < cv.len() ==> (#[trigger] cv[k]).inv() && cv[k].center_index == n.centers@[k],
        nc.center_index == n.center_index, cv.len() == n.centers@.len(),
        piece(nc, n.center_index, n.center_index, n.centers@), forall|k: int| 0 <= k < cv.len() ==> piece(#[trigger] cv[k], n.centers@[k], n.center_index, n.centers@),
        forall|x: usize| #![trigger n.count(x)] #![trigger nc.count(x)] #![trigger psum(cv, x)] nc.count(x) + psum(cv, x) == n.count(x),
        forall|r: real| r > 0real && #[trigger] covered(n, r) ==> within(n.center_index, nc.point_indexes@, r) && forall|k: int| 0 <= k < cv.len() ==> within(n.centers@[k], (#[trigger] cv[k]).point_indexes@, r),
{
    let pts = n.point_indexes@; let m = pts.len() as int; let cs = n.centers@;
    assert(pts.take(m) =~= pts);
    l_spread_len(n, rr); l_nodup(cs);
    assert forall|x: usize| #![trigger cnt(pts, x)] cnt(nc.point_indexes@, x) + csum(cv, x) + cnt(cs, x) == cnt(pts, x) by {
        assert(cnt(nc.point_indexes@, x) + csum(cv, x) + one(seen_center(n, m, x)) == cnt(pts.take(m), x));
        assert(cnt(cs, x) <= 1);
        if cs.contains(x) { let q = choose|q: int| 0 <= q < cs.len() && cs[q] == x; assert(pts.contains(cs[q])); l_cnt(cs, q); } else if cnt(cs, x) > 0 { assert(cs.contains(x)); }
    }
    assert forall|x: usize| #![trigger n.count(x)] #![trigger nc.count(x)] #![trigger psum(cv, x)] nc.count(x) + psum(cv, x) == n.count(x) by { l_psum(cv, cs, x); assert(cnt(nc.point_indexes@, x) + csum(cv, x) + cnt(cs, x) == cnt(pts, x)); }
    assert(uniq(nc.point_indexes@)) by { assert forall|x: usize| #![trigger cnt(nc.point_indexes@, x)] cnt(nc.point_indexes@, x) <= 1 && (cnt(nc.point_indexes@, x) > 0 ==> valid(x)) by { assert(cnt(nc.point_indexes@, x) + csum(cv, x) + cnt(cs, x) == cnt(pts, x)); } }
    assert forall|k: int| 0 <= k < cv.len() implies (#[trigger] cv[k]).inv() && cv[k].center_index == cs[k] by {
        assert(piece(cv[k], cs[k], n.center_index, cs));
        assert(uniq(cv[k].point_indexes@)) by { assert forall|x: usize| #![trigger cnt(cv[k].point_indexes@, x)] cnt(cv[k].point_indexes@, x) <= 1 && (cnt(cv[k].point_indexes@, x) > 0 ==> valid(x)) by { l_csum_upd(cv, k, cv[k], x); assert(cnt(nc.point_indexes@, x) + csum(cv, x) + cnt(cs, x) == cnt(pts, x)); } }
        assert(pts.contains(cs[k])); assert(cnt(pts, cs[k]) > 0);
    }
    assert forall|r: real| r > 0real && #[trigger] covered(n, r) implies within(n.center_index, nc.point_indexes@, r) && forall|k: int| 0 <= k < cv.len() ==> within(n.centers@[k], (#[trigger] cv[k]).point_indexes@, r) by {
        assert forall|j: int| 0 <= j < nc.point_indexes@.len() implies dd(n.center_index, #[trigger] nc.point_indexes@[j]) < r by {
            let x = nc.point_indexes@[j]; l_cnt(nc.point_indexes@, j);
            assert(cnt(nc.point_indexes@, x) + csum(cv, x) + cnt(cs, x) == cnt(pts, x)); l_cov(n, r, x, n.center_index);
        }
        assert forall|k: int| 0 <= k < cv.len() implies within(n.centers@[k], (#[trigger] cv[k]).point_indexes@, r) by {
            assert(piece(cv[k], cs[k], n.center_index, cs));
            assert forall|j: int| 0 <= j < cv[k].point_indexes@.len() implies dd(n.centers@[k], #[trigger] cv[k].point_indexes@[j]) < r by {
                let x = cv[k].point_indexes@[j]; l_cnt(cv[k].point_indexes@, j); l_csum_upd(cv, k, cv[k], x);
                assert(cnt(nc.point_indexes@, x) + csum(cv, x) + cnt(cs, x) == cnt(pts, x)); l_cov(n, r, x, cs[k]);
            }
        }
    }
}
/// the nearest centre covers
proof fn l_cov(n: NearestCoveredData, r: real, x: usize, c: usize)
    requires covered(n, r), cnt(n.point_indexes@, x) > 0, nearest_of(n.centers@, x, dd(c, x)), dd(c, x) <= dd(n.center_index, x)
    ensures dd(c, x) < r
{
    let pts = n.point_indexes@;
    assert(pts.contains(x));
    let i = choose|i: int| 0 <= i < pts.len() && pts[i] == x;
    assert(cov_by(n, i, r));
    assert(n.center_dists@[i]@ == dd(n.center_index, pts[i]));
    if !(n.center_dists@[i]@ < r) {
        let k = choose|k: int| 0 <= k < n.dists@.len() && (#[trigger] n.dists@[k]@[i])@ < r;
        assert(n.dists@[k]@[i]@ == dd(n.centers@[k], pts[i]));
    }
}
pub open spec fn centers_of(v: Seq<NearestCoveredData>) -> Seq<usize> { Seq::new(v.len(), |k: int| v[k].center_index) }
/// every piece holds points strictly inside the ball around its centre, none of them nearer to another centre
pub open spec fn nearest_split(root: usize, r: real, nested: NearestCoveredData, v: Seq<NearestCoveredData>) -> bool {
    &&& piece(nested, root, root, centers_of(v)) && within(root, nested.point_indexes@, r)
    &&& forall|k: int| 0 <= k < v.len() ==> piece(#[trigger] v[k], v[k].center_index, root, centers_of(v)) && within(v[k].center_index, v[k].point_indexes@, r) && dd(root, v[k].center_index) >= r
}
impl NearestCoveredData {
    /// a node's points before they are split
    pub open spec fn inv(&self) -> bool { pinv(self.center_index, self.point_indexes@, self.center_dists@) && self.centers@.len() == 0 && self.dists@.len() == 0 }
    pub open spec fn count(&self, x: usize) -> nat { pcnt(self.center_index, self.point_indexes@, x) }
//@ fn goko/src/covertree/data_caches.rs NearestCoveredData::new
//@ spec
    requires all_points().len() > 0,
    ensures res is Ok, res->Ok_0.inv(), res->Ok_0.point_indexes@.push(res->Ok_0.center_index) == all_points(),
//@ after let center_index
    proof { assert(point_indexes@.push(center_index) =~= all_points()); l_all(point_indexes@, center_index); assert(point_indexes@.len() == point_indexes.len()); }
//@ end
//@ fn goko/src/covertree/data_caches.rs NearestCoveredData::cover_thyself
//@ opt zip_index
//@ spec
    requires old(self).inv(), radius@ > 0real,
    ensures res is Ok, covered(*final(self), radius@), final(self).center_index == old(self).center_index, final(self).point_indexes@ == old(self).point_indexes@, final(self).center_dists@ == old(self).center_dists@,
//@ loop 0
    invariant __acc1@.len() == it0.index(), forall|i: int| 0 <= i < it0.index() ==> #[trigger] __acc1@[i] == (self.center_dists@[i]@ < radius@),
//@ loop 1
    invariant
        self.center_index == old(self).center_index, self.point_indexes@ == old(self).point_indexes@, self.center_dists@ == old(self).center_dists@,
        radius@ > 0real, spread(*self, radius@), coverage@.len() == self.point_indexes@.len(),
        forall|i: int| 0 <= i < coverage@.len() ==> #[trigger] coverage@[i] == cov_by(*self, i, radius@),
    ensures forall|i: int| 0 <= i < coverage@.len() ==> #[trigger] coverage@[i],
    decreases self.point_indexes@.len() - self.centers@.len()
//@ loop 2
    invariant_except_break !__acc4, forall|i: int| 0 <= i < it2.index() ==> #[trigger] coverage@[i],
    ensures __acc4 ==> (exists|i: int| 0 <= i < coverage@.len() && !#[trigger] coverage@[i]), !__acc4 ==> forall|i: int| 0 <= i < coverage@.len() ==> #[trigger] coverage@[i],
//@ loop 3
    invariant
        forall|j: int| 0 <= j < __acc6@.len() ==> exists|i: int| 0 <= i < coverage@.len() && !coverage@[i] && #[trigger] self.point_indexes@[i] == #[trigger] __acc6@[j],
        __acc6@.len() > 0 || forall|i: int| 0 <= i < it3.index() ==> #[trigger] coverage@[i],
//@ loopafter 1
    proof { assert forall|i: int| 0 <= i < self.point_indexes@.len() implies #[trigger] cov_by(*self, i, radius@) by { assert(coverage@[i]); } }
//@ before let new_dists
    let ghost ci = choose|i: int| 0 <= i < coverage@.len() && !coverage@[i] && self.point_indexes@[i] == center_index;
    proof {
        let j = choose|j: int| 0 <= j < uncovered_indexes@.len() && uncovered_indexes@[j] == center_index;
        assert(uncovered_indexes@[j] == center_index);
        assert(!cov_by(*self, ci, radius@));
        assert forall|j: int| 0 <= j < self.point_indexes@.len() implies valid(#[trigger] self.point_indexes@[j]) by { l_cnt(self.point_indexes@, j); }
        assert(valid(self.point_indexes@[ci]));
    }
    let ghost n0 = *self; let ghost c0 = coverage@;
//@ loop 4
    invariant
        *self == n0, __k11 <= coverage@.len(), coverage@.len() == c0.len(), c0.len() == new_dists@.len(),
        forall|i: int| 0 <= i < __k11 ==> #[trigger] coverage@[i] == (c0[i] || new_dists@[i]@ < radius@),
        forall|i: int| __k11 <= i < c0.len() ==> #[trigger] coverage@[i] == c0[i],
    decreases coverage@.len() - __k11
//@ after self.centers.push
    proof {
        let n1 = *self; let r = radius@; let m = n0.dists@.len() as int;
        assert(n1.centers@ == n0.centers@.push(center_index));
        assert(n1.dists@ == n0.dists@.push(new_dists));
        assert forall|k: int, i: int| 0 <= k < n1.dists@.len() && 0 <= i < n1.point_indexes@.len() implies (#[trigger] n1.dists@[k]@[i])@ == dd(n1.centers@[k], n1.point_indexes@[i]) by { if k < m { assert(n1.dists@[k] == n0.dists@[k]); assert(n0.dists@[k]@[i]@ == dd(n0.centers@[k], n0.point_indexes@[i])); } }
        assert forall|k: int, l: int| 0 <= k < l < n1.centers@.len() implies dd(#[trigger] n1.centers@[k], #[trigger] n1.centers@[l]) >= r by {
            if l < m { assert(n1.centers@[l] == n0.centers@[l]); } else { assert(n0.dists@[k]@[ci]@ >= r); assert(dd(n0.centers@[k], n0.point_indexes@[ci]) >= r); }
        }
        assert(n1.center_dists@[ci]@ >= r);
        assert(spread(n1, r));
        l_spread_len(n1, r);
        assert forall|i: int| 0 <= i < coverage@.len() implies #[trigger] coverage@[i] == cov_by(n1, i, r) by {
            assert(c0[i] == cov_by(n0, i, r));
            if cov_by(n0, i, r) && !(n0.center_dists@[i]@ < r) { let k = choose|k: int| 0 <= k < n0.dists@.len() && (#[trigger] n0.dists@[k]@[i])@ < r; assert(n1.dists@[k]@[i]@ < r); }
            if new_dists@[i]@ < r { assert(n1.dists@[m]@[i]@ < r); }
            if cov_by(n1, i, r) && !(n1.center_dists@[i]@ < r) { let k = choose|k: int| 0 <= k < n1.dists@.len() && (#[trigger] n1.dists@[k]@[i])@ < r; if k < m { assert(n0.dists@[k]@[i]@ < r); } }
        }
    }
//@ end
//@ fn goko/src/covertree/data_caches.rs NearestCoveredData::add_point
//@ spec
    ensures
        final(self).centers == old(self).centers, final(self).dists == old(self).dists, final(self).center_index == old(self).center_index,
        point_index == old(self).center_index ==> *final(self) == *old(self),
        point_index != old(self).center_index ==> final(self).center_dists@ == old(self).center_dists@.push(distance) && final(self).point_indexes@ == old(self).point_indexes@.push(point_index),
//@ end
//@ fn goko/src/covertree/data_caches.rs NearestCoveredData::assign_to_nearest
//@ spec
    requires exists|r: real| r > 0real && #[trigger] covered(*self, r),
    ensures
        res.0.inv(), res.0.center_index == self.center_index, res.1@.len() == self.centers@.len(),
        forall|k: int| 0 <= k < res.1@.len() ==> (#[trigger] res.1@[k]).inv() && res.1@[k].center_index == self.centers@[k],
        piece(res.0, self.center_index, self.center_index, self.centers@), forall|k: int| 0 <= k < res.1@.len() ==> piece(#[trigger] res.1@[k], self.centers@[k], self.center_index, self.centers@),
        forall|x: usize| #![trigger self.count(x)] #![trigger res.0.count(x)] #![trigger psum(res.1@, x)] res.0.count(x) + psum(res.1@, x) == self.count(x),
        forall|r: real| r > 0real && #[trigger] covered(*self, r) ==> within(self.center_index, res.0.point_indexes@, r) && forall|k: int| 0 <= k < res.1@.len() ==> within(self.centers@[k], (#[trigger] res.1@[k]).point_indexes@, r),
//@ start
    hide(asg); hide(covered); hide(piece);
    let ghost rr = choose|r: real| r > 0real && #[trigger] covered(*self, r);
    let ghost pts = self.point_indexes@;
    proof { l_shape(*self, rr); assert(self.dists@.len() == self.dists.len()); assert(pts.len() == self.point_indexes.len()); }
//@ loop 0
    invariant __acc1@.len() == it0.index(), forall|k: int| 0 <= k < it0.index() ==> blank(#[trigger] __acc1@[k], self.centers@[k]),
//@ loopbefore 1
    proof { l_asg_init(*self, new_center_coverage, new_coverage@); }
//@ loopstart 1
    let ghost nc0 = new_center_coverage; let ghost cv0 = new_coverage@;
//@ before if self.center_dists
    proof { l_asg_idx(*self, rr, it1.index(), index as int, d@); }
//@ loopend 1
    proof { assert(new_coverage@ =~= cv0 || new_coverage@ =~= cv0.update(index as int, new_coverage@[index as int])); l_asg_step(*self, rr, it1.index(), nc0, cv0, new_center_coverage, new_coverage@, index as int, d); }
//@ loop 1
    invariant
        __c5 == it1.index(), new_coverage@.len() == self.centers@.len(), rr > 0real, covered(*self, rr), asg(*self, it1.index(), new_center_coverage, new_coverage@),
//@ loop 2
    invariant
        __c12 == it2.index(), it2.index() == 0 ==> __acc8 is None,
        it2.index() > 0 ==> __acc8 is Some && on(__acc8) < it2.index() && od(__acc8) == self.dists@[on(__acc8)]@[i as int]@ && forall|k: int| 0 <= k < it2.index() ==> od(__acc8) <= (#[trigger] self.dists@[k]@[i as int])@,
//@ finish
    proof { l_asg_done(*self, rr, new_center_coverage, new_coverage@); }
//@ end
//@ fn goko/src/covertree/data_caches.rs NearestCoveredData::split
//@ spec
    requires self.inv(), radius@ > 0real,
    ensures
        res is Ok, res->Ok_0.0.inv(), res->Ok_0.0.center_index == self.center_index, forall|k: int| 0 <= k < res->Ok_0.1@.len() ==> (#[trigger] res->Ok_0.1@[k]).inv(),
        forall|x: usize| #![trigger self.count(x)] #![trigger res->Ok_0.0.count(x)] #![trigger psum(res->Ok_0.1@, x)] res->Ok_0.0.count(x) + psum(res->Ok_0.1@, x) == self.count(x),
        nearest_split(self.center_index, radius@, res->Ok_0.0, res->Ok_0.1@),
//@ finish
    proof { assert(covered(self_, radius@)); }
//@ end
//@ fn goko/src/covertree/data_caches.rs NearestCoveredData::into_indexes
//@ spec
    ensures res@ == self.point_indexes@
//@ end
//@ fn goko/src/covertree/data_caches.rs NearestCoveredData::max_distance
//@ spec
    requires self.inv(),
    ensures largest(self.center_dists@, res@),
//@ start
    proof { ax_neginf(); }
//@ loop 0
    invariant self.inv(), largest(self.center_dists@.take(it0.index()), __acc1@),
//@ loopend 0
    proof { l_largest(self.center_dists@, it0.index(), __a@, __acc1@); }
//@ loopstart 0
    let ghost __a = __acc1;
//@ finish
    proof { assert(self.center_dists@.take(self.center_dists@.len() as int) =~= self.center_dists@); }
//@ end
//@ fn goko/src/covertree/data_caches.rs NearestCoveredData::len
//@ spec
    requires self.inv(),
    ensures res == self.point_indexes@.len() + 1,
//@ end
}
impl CoveredData {
    pub open spec fn inv(&self) -> bool { match self { Self::FirstCoveredData(a) => a.inv(), Self::NearestCoveredData(a) => a.inv() } }
    pub open spec fn pts(&self) -> Seq<usize> { match self { Self::FirstCoveredData(a) => a.coverage@, Self::NearestCoveredData(a) => a.point_indexes@ } }
    pub open spec fn ds(&self) -> Seq<Real32> { match self { Self::FirstCoveredData(a) => a.dists@, Self::NearestCoveredData(a) => a.center_dists@ } }
    pub open spec fn ctr(&self) -> usize { match self { Self::FirstCoveredData(a) => a.center_index, Self::NearestCoveredData(a) => a.center_index } }
    pub open spec fn count(&self, x: usize) -> nat { pcnt(self.ctr(), self.pts(), x) }
//@ fn goko/src/covertree/data_caches.rs CoveredData::max_distance
//@ spec
    requires self.inv(),
    ensures largest(self.ds(), res@),
//@ end
//@ fn goko/src/covertree/data_caches.rs CoveredData::into_indexes
//@ spec
    ensures res@ == self.pts(),
//@ end
//@ fn goko/src/covertree/data_caches.rs CoveredData::len
//@ spec
    requires self.inv(),
    ensures res == self.pts().len() + 1,
//@ end
//@ fn goko/src/covertree/data_caches.rs CoveredData::center_index
//@ spec
    ensures res == self.ctr(),
//@ end
}
// ---------------------------------------------------------------- the node a split makes
//@ struct goko/src/covertree/node.rs NodeChildren
//@ end
//@ struct goko/src/covertree/node.rs CoverNode
//@ end
//@ include tree_core.vrs
//@ struct goko/src/covertree/builders.rs BuilderNode
//@ end
impl<D: PointCloud> CoverNode<D> {
    /// everything but the coverage, the children and the singletons is kept
    pub open spec fn same(&self, o: &Self) -> bool { self.parent_address == o.parent_address && self.address == o.address && self.radius == o.radius }
//@ fn goko/src/covertree/node.rs CoverNode::new
//@ subst PhantomData => Ghost (None)
//@ spec
    ensures res.parent_address == parent_address, res.address == address, res.coverage_count == 1, res.children is None, res.singles_indexes@.len() == 0,
//@ end
//@ fn goko/src/covertree/node.rs CoverNode::singletons
//@ spec
    ensures res@ == self.singles_indexes@,
//@ end
//@ fn goko/src/covertree/node.rs CoverNode::children
//@ spec
    ensures (res is Some) == (self.children is Some), res is Some ==> (res->0).0 == (self.children->0).nested_scale && (res->0).1@ == (self.children->0).addresses@
//@ end
//@ fn goko/src/covertree/node.rs CoverNode::children_len
//@ spec
    requires self.children is Some ==> self.children->0.addresses@.len() < usize::MAX
    ensures res == (if self.children is Some { self.children->0.addresses@.len() + 1 } else { 0 })
//@ end
//@ fn goko/src/covertree/node.rs CoverNode::is_leaf
//@ spec
    ensures res == (self.children is None),
//@ end
//@ fn goko/src/covertree/node.rs CoverNode::set_radius
//@ spec
    ensures final(self).radius == radius, final(self).parent_address == old(self).parent_address, final(self).address == old(self).address, final(self).coverage_count == old(self).coverage_count, final(self).children == old(self).children, final(self).singles_indexes == old(self).singles_indexes,
//@ end
//@ fn goko/src/covertree/node.rs CoverNode::remove_children
//@ spec
    ensures final(self).children is None, final(self).same(old(self)), final(self).coverage_count == old(self).coverage_count, final(self).singles_indexes == old(self).singles_indexes,
//@ end
//@ fn goko/src/covertree/node.rs CoverNode::insert_nested_child
//@ spec
    requires coverage > 0, old(self).children is None, old(self).coverage_count + coverage - 1 <= usize::MAX,
    ensures
        res is Ok, final(self).same(old(self)), final(self).singles_indexes == old(self).singles_indexes, final(self).coverage_count == old(self).coverage_count + coverage - 1,
        final(self).children is Some, final(self).children->0.nested_scale == scale_index, final(self).children->0.addresses@.len() == 0,
//@ end
//@ fn goko/src/covertree/node.rs CoverNode::insert_child
//@ spec
    requires old(self).children is Some, old(self).coverage_count + coverage <= usize::MAX,
    ensures
        res is Ok, final(self).same(old(self)), final(self).singles_indexes == old(self).singles_indexes, final(self).coverage_count == old(self).coverage_count + coverage,
        final(self).children is Some, final(self).children->0.nested_scale == old(self).children->0.nested_scale, final(self).children->0.addresses@ == old(self).children->0.addresses@.push(address),
//@ end
//@ fn goko/src/covertree/node.rs CoverNode::insert_singletons
//@ opt extend
//@ spec
    requires old(self).coverage_count + addresses@.len() <= usize::MAX,
    ensures final(self).same(old(self)), final(self).children == old(self).children, final(self).coverage_count == old(self).coverage_count + addresses@.len(), final(self).singles_indexes@ == old(self).singles_indexes@ + addresses@,
//@ end
//@ fn goko/src/covertree/node.rs CoverNode::insert_singleton
//@ spec
    requires old(self).coverage_count + 1 <= usize::MAX,
    ensures final(self).same(old(self)), final(self).children == old(self).children, final(self).coverage_count == old(self).coverage_count + 1, final(self).singles_indexes@ == old(self).singles_indexes@.push(pi),
//@ end
}
// ---------------------------------------------------------------- one step of the build
pub fn min(a: i32, b: i32) -> (r: i32) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
pub fn max(a: i32, b: i32) -> (r: i32) ensures r == (if a >= b { a } else { b }) { if a >= b { a } else { b } }
/// TRUSTED: a power whose exponent is at least the logarithm is at least the number
pub axiom fn ax_log(x: real, b: real, e: int) requires b > 1real, x > 0real, e >= rceil(rlog(x, b)) ensures x <= rpowi(b, e);
/// TRUSTED: the logarithm of a finite f32 to an f32 base above 1 (so at least 1 + 2^-23) fits an i32
pub axiom fn ax_log_fits(x: real, b: real) requires b > 1real, x < rfmax() ensures rceil(rlog(x, b)) <= 1_000_000_000, 0real < x ==> rceil(rlog(x, b)) >= -1_000_000_000;
/// how often x belongs to the nodes still to be made, and how many points they have
pub open spec fn bsum(v: Seq<BuilderNode>, x: usize) -> nat decreases v.len() { if v.len() == 0 { 0 } else { bsum(v.drop_last(), x) + v.last().covered.count(x) } }
pub open spec fn blen(v: Seq<BuilderNode>) -> nat decreases v.len() { if v.len() == 0 { 0 } else { blen(v.drop_last()) + v.last().covered.pts().len() + 1 } }
pub open spec fn plen(v: Seq<NearestCoveredData>) -> nat decreases v.len() { if v.len() == 0 { 0 } else { plen(v.drop_last()) + v.last().point_indexes@.len() + 1 } }
pub open spec fn addr(b: BuilderNode) -> NodeAddress { (b.scale_index, b.covered.ctr()) }
pub open spec fn addrs(v: Seq<BuilderNode>) -> Seq<NodeAddress> { v.map_values(|b: BuilderNode| addr(b)) }
/// a child to be made at scale s: its points are strictly inside its ball
pub open spec fn kid_ok(b: BuilderNode, parent: NodeAddress, s: int, base: real) -> bool {
    b.parent_address == Some(parent) && b.scale_index == s && b.covered.inv() && within(b.covered.ctr(), b.covered.pts(), rpowi(base, s))
}
/// the nodes to be made and the children recorded are the same; the nested child keeps the centre
pub open spec fn links(v: Seq<BuilderNode>, kids: Seq<NodeAddress>, nested: NodeAddress) -> bool { addrs(v).to_multiset() == kids.to_multiset().insert(nested) }
/// first rule: no point of a later child lies inside the ball of an earlier one, and no singleton inside any
pub open spec fn first_rule(v: Seq<BuilderNode>, singles: Seq<usize>, r: real) -> bool {
    &&& forall|k: int, l: int, j: int| 0 <= k < l < v.len() && 0 <= j < v[l].covered.pts().len() ==> dd((#[trigger] v[k]).covered.ctr(), #[trigger] v[l].covered.pts()[j]) >= r
    &&& forall|k: int, l: int| 0 <= k < l < v.len() ==> dd((#[trigger] v[k]).covered.ctr(), (#[trigger] v[l]).covered.ctr()) >= r
    &&& forall|k: int, i: int| 0 <= k < v.len() && 0 <= i < singles.len() ==> dd((#[trigger] v[k]).covered.ctr(), #[trigger] singles[i]) >= r
}
/// nearest rule: no point of a child is nearer to another child's centre or to a singleton
pub open spec fn nearest_rule(v: Seq<BuilderNode>, singles: Seq<usize>) -> bool {
    &&& forall|k: int, l: int, j: int| 0 <= k < v.len() && 0 <= l < v.len() && 0 <= j < v[k].covered.pts().len() ==> dd(v[k].covered.ctr(), #[trigger] v[k].covered.pts()[j]) <= dd((#[trigger] v[l]).covered.ctr(), v[k].covered.pts()[j])
    &&& forall|k: int, i: int, j: int| 0 <= k < v.len() && 0 <= i < singles.len() && 0 <= j < v[k].covered.pts().len() ==> dd(v[k].covered.ctr(), #[trigger] v[k].covered.pts()[j]) <= dd(#[trigger] singles[i], v[k].covered.pts()[j])
}
/// the parameters, apart from the node counter
pub open spec fn same_params<D: PointCloud>(a: CoverTreeParameters<D>, b: CoverTreeParameters<D>) -> bool {
    a.scale_base == b.scale_base && a.leaf_cutoff == b.leaf_cutoff && a.min_res_index == b.min_res_index && a.use_singletons == b.use_singletons && a.partition_type == b.partition_type && a.rng_seed == b.rng_seed
}
/// a node and the nodes still to be made for it account for all the points it was given
pub open spec fn accounted<D: PointCloud>(c: CoveredData, n: CoverNode<D>, v: Seq<BuilderNode>) -> bool {
    &&& n.coverage_count == c.pts().len() + 1
    &&& n.singles_indexes@.len() + blen(v) + one(v.len() == 0) == n.coverage_count
    &&& forall|x: usize| #![trigger c.count(x)] #![trigger cnt(n.singles_indexes@, x)] #![trigger bsum(v, x)] cnt(n.singles_indexes@, x) + bsum(v, x) + one(v.len() == 0 && x == c.ctr()) == c.count(x)
    &&& (v.len() == 0) == (n.children is None)
    &&& n.children is Some ==> links(v, n.children->0.addresses@, (n.children->0.nested_scale, c.ctr()))
}
proof fn l_push(v: Seq<BuilderNode>, b: BuilderNode) ensures blen(v.push(b)) == blen(v) + b.covered.pts().len() + 1, forall|x: usize| #![trigger bsum(v.push(b), x)] bsum(v.push(b), x) == bsum(v, x) + b.covered.count(x), addrs(v.push(b)) == addrs(v).push(addr(b)) { assert(v.push(b).drop_last() =~= v); assert(addrs(v.push(b)) =~= addrs(v).push(addr(b))); }
proof fn l_ptake(v: Seq<NearestCoveredData>, i: int) requires 0 <= i < v.len() ensures plen(v.take(i + 1)) == plen(v.take(i)) + v[i].point_indexes@.len() + 1, forall|x: usize| #![trigger psum(v.take(i + 1), x)] psum(v.take(i + 1), x) == psum(v.take(i), x) + v[i].count(x) { assert(v.take(i + 1).drop_last() =~= v.take(i)); }
proof fn l_plen_le(v: Seq<NearestCoveredData>, i: int) requires 0 <= i <= v.len() ensures plen(v.take(i)) <= plen(v) decreases v.len() - i { if i < v.len() { l_ptake(v, i); l_plen_le(v, i + 1); } else { assert(v.take(i) =~= v); } }
pub open spec fn msum(v: Seq<NearestCoveredData>) -> Multiset<usize> decreases v.len() { if v.len() == 0 { Multiset::empty() } else { msum(v.drop_last()).add(v.last().point_indexes@.to_multiset().insert(v.last().center_index)) } }
proof fn l_msum(v: Seq<NearestCoveredData>) ensures msum(v).len() == plen(v), forall|x: usize| #[trigger] msum(v).count(x) == psum(v, x) decreases v.len()
{ if v.len() > 0 { l_msum(v.drop_last()); } }
/// the pieces have as many points as the whole
proof fn l_len(n: NearestCoveredData, nc: NearestCoveredData, cv: Seq<NearestCoveredData>)
    requires forall|x: usize| #![trigger n.count(x)] nc.count(x) + psum(cv, x) == n.count(x)
    ensures nc.point_indexes@.len() + 1 + plen(cv) == n.point_indexes@.len() + 1
{
    l_msum(cv);
    let a = n.point_indexes@.to_multiset().insert(n.center_index);
    let b = nc.point_indexes@.to_multiset().insert(nc.center_index).add(msum(cv));
    assert forall|x: usize| #![trigger a.count(x)] #![trigger b.count(x)] a.count(x) == b.count(x) by { assert(nc.count(x) + psum(cv, x) == n.count(x)); }
    assert(a =~= b);
    assert(a.len() == n.point_indexes@.len() + 1); assert(b.len() == nc.point_indexes@.to_multiset().insert(nc.center_index).len() + msum(cv).len());
}
pub open spec fn far_from(c: usize, far: Seq<usize>, r: real) -> bool { forall|x: usize| #![trigger cnt(far, x)] cnt(far, x) > 0 ==> dd(c, x) >= r }
/// halfway through the first rule: the children made so far, the singletons, and the points left
pub open spec fn fst<D: PointCloud>(c0: FirstCoveredData, n: CoverNode<D>, v: Seq<BuilderNode>, far: Seq<usize>, s: int, parent: NodeAddress, base: real) -> bool {
    &&& v.len() > 0 && uniq(far) && n.children is Some && n.children->0.nested_scale == s
    &&& n.coverage_count + far.len() == c0.coverage@.len() + 1
    &&& n.singles_indexes@.len() + blen(v) == n.coverage_count
    &&& forall|x: usize| #![trigger c0.count(x)] cnt(n.singles_indexes@, x) + bsum(v, x) + cnt(far, x) == c0.count(x)
    &&& links(v, n.children->0.addresses@, (n.children->0.nested_scale, c0.center_index))
    &&& forall|k: int| 0 <= k < v.len() ==> kid_ok(#[trigger] v[k], parent, s, base) && far_from(v[k].covered.ctr(), far, rpowi(base, s))
    &&& forall|i: int| 0 <= i < n.singles_indexes@.len() ==> far_from(#[trigger] n.singles_indexes@[i], far, rpowi(base, s))
    &&& first_rule(v, n.singles_indexes@, rpowi(base, s))
}
/// what pick_center gives
pub open spec fn picked(f0: Seq<usize>, f1: Seq<usize>, p: FirstCoveredData, r: real) -> bool {
    &&& p.inv() && p.coverage@.len() + 1 + f1.len() == f0.len() && uniq(f1)
    &&& forall|x: usize| #![trigger cnt(f0, x)] #![trigger cnt(f1, x)] #![trigger p.count(x)] p.count(x) + cnt(f1, x) == cnt(f0, x)
    &&& within(p.center_index, p.coverage@, r) && beyond(p.center_index, f1, r)
}
proof fn l_picked(f0: Seq<usize>, f1: Seq<usize>, p: FirstCoveredData, r: real) requires picked(f0, f1, p, r)
    ensures
        far_from(p.center_index, f1, r), forall|c: usize| #[trigger] far_from(c, f0, r) ==> far_from(c, f1, r) && dd(c, p.center_index) >= r && forall|j: int| 0 <= j < p.coverage@.len() ==> dd(c, #[trigger] p.coverage@[j]) >= r
{
    assert forall|x: usize| #![trigger cnt(f1, x)] cnt(f1, x) > 0 implies dd(p.center_index, x) >= r by { assert(f1.contains(x)); let j = choose|j: int| 0 <= j < f1.len() && f1[j] == x; assert(dd(p.center_index, f1[j]) >= r); }
    assert forall|c: usize| #[trigger] far_from(c, f0, r) implies far_from(c, f1, r) && dd(c, p.center_index) >= r && forall|j: int| 0 <= j < p.coverage@.len() ==> dd(c, #[trigger] p.coverage@[j]) >= r by {
        assert(far_from(c, f1, r)) by { assert forall|x: usize| #![trigger cnt(f1, x)] cnt(f1, x) > 0 implies dd(c, x) >= r by { assert(cnt(f0, x) > 0); } }
        assert(p.count(p.center_index) > 0); assert(cnt(f0, p.center_index) > 0);
        assert forall|j: int| 0 <= j < p.coverage@.len() implies dd(c, #[trigger] p.coverage@[j]) >= r by { l_cnt(p.coverage@, j); let x = p.coverage@[j]; assert(p.count(x) > 0); assert(cnt(f0, x) > 0); }
    }
}
proof fn l_mk_picked(f0: Seq<usize>, f1: Seq<usize>, p: FirstCoveredData, r: real)
    requires p.inv(), p.coverage@.len() + 1 + f1.len() == f0.len(), uniq(f1), within(p.center_index, p.coverage@, r), beyond(p.center_index, f1, r), forall|x: usize| #![trigger cnt(f0, x)] #![trigger cnt(f1, x)] #![trigger p.count(x)] p.count(x) + cnt(f1, x) == cnt(f0, x)
    ensures picked(f0, f1, p, r) {}
proof fn l_fst_len<D: PointCloud>(c0: FirstCoveredData, n: CoverNode<D>, v: Seq<BuilderNode>, far: Seq<usize>, s: int, parent: NodeAddress, base: real) requires fst(c0, n, v, far, s, parent, base), c0.inv()
    ensures n.coverage_count + far.len() == c0.coverage@.len() + 1, c0.coverage@.len() + 1 <= usize::MAX, n.children is Some {}
proof fn l_fst_init<D: PointCloud>(c0: FirstCoveredData, n0: CoverNode<D>, n: CoverNode<D>, b: BuilderNode, close: FirstCoveredData, far: Seq<usize>, s: int, parent: NodeAddress, base: real)
    requires
        n0.singles_indexes@.len() == 0, n.singles_indexes == n0.singles_indexes, n.coverage_count == close.coverage@.len() + 1, n.children is Some, n.children->0.nested_scale == s, n.children->0.addresses@.len() == 0,
        close.inv(), uniq(far), close.center_index == c0.center_index, cnt(far, c0.center_index) == 0, close.coverage@.len() + far.len() == c0.coverage@.len(),
        forall|x: usize| #![trigger cnt(c0.coverage@, x)] cnt(close.coverage@, x) + cnt(far, x) == cnt(c0.coverage@, x),
        within(c0.center_index, close.coverage@, rpowi(base, s)), beyond(c0.center_index, far, rpowi(base, s)),
        b.covered == CoveredData::FirstCoveredData(close), b.parent_address == Some(parent), b.scale_index == s,
    ensures fst(c0, n, Seq::empty().push(b), far, s, parent, base)
{
    let r = rpowi(base, s); let v0 = Seq::<BuilderNode>::empty(); let v = v0.push(b);
    l_push(v0, b);
    assert(n.singles_indexes@ =~= Seq::empty());
    assert forall|x: usize| #![trigger c0.count(x)] cnt(n.singles_indexes@, x) + bsum(v, x) + cnt(far, x) == c0.count(x) by { l_zero(x); assert(cnt(close.coverage@, x) + cnt(far, x) == cnt(c0.coverage@, x)); assert(bsum(v, x) == bsum(v0, x) + b.covered.count(x)); }
    assert forall|x: usize| #![trigger cnt(far, x)] cnt(far, x) > 0 implies dd(c0.center_index, x) >= r by { assert(far.contains(x)); let j = choose|j: int| 0 <= j < far.len() && far[j] == x; assert(dd(c0.center_index, far[j]) >= r); }
    assert(n.children->0.addresses@ =~= Seq::empty());
    assert(addrs(v0) =~= Seq::empty());
}
proof fn l_fst_done<D: PointCloud>(c0: FirstCoveredData, n: CoverNode<D>, v: Seq<BuilderNode>, far: Seq<usize>, s: int, parent: NodeAddress, base: real)
    requires fst(c0, n, v, far, s, parent, base), far.len() == 0
    ensures accounted(CoveredData::FirstCoveredData(c0), n, v), first_rule(v, n.singles_indexes@, rpowi(base, s)), n.children->0.nested_scale == s, forall|k: int| 0 <= k < v.len() ==> kid_ok(#[trigger] v[k], parent, s, base)
{
    assert(far =~= Seq::empty());
    let c = CoveredData::FirstCoveredData(c0);
    assert forall|x: usize| #![trigger c.count(x)] #![trigger cnt(n.singles_indexes@, x)] #![trigger bsum(v, x)] cnt(n.singles_indexes@, x) + bsum(v, x) + one(v.len() == 0 && x == c.ctr()) == c.count(x) by { l_zero(x); assert(cnt(n.singles_indexes@, x) + bsum(v, x) + cnt(far, x) == c0.count(x)); }
}
proof fn l_fst_single<D: PointCloud>(c0: FirstCoveredData, n0: CoverNode<D>, n1: CoverNode<D>, v: Seq<BuilderNode>, f0: Seq<usize>, f1: Seq<usize>, p: FirstCoveredData, s: int, parent: NodeAddress, base: real)
    requires fst(c0, n0, v, f0, s, parent, base), picked(f0, f1, p, rpowi(base, s)), p.coverage@.len() == 0, n1.children == n0.children, n1.coverage_count == n0.coverage_count + 1, n1.singles_indexes@ == n0.singles_indexes@.push(p.center_index)
    ensures fst(c0, n1, v, f1, s, parent, base)
{
    let r = rpowi(base, s); l_picked(f0, f1, p, r);
    let s0 = n0.singles_indexes@; let s1 = n1.singles_indexes@;
    assert(p.coverage@ =~= Seq::empty());
    assert forall|x: usize| #![trigger c0.count(x)] cnt(s1, x) + bsum(v, x) + cnt(f1, x) == c0.count(x) by { assert(cnt(s0, x) + bsum(v, x) + cnt(f0, x) == c0.count(x)); assert(p.count(x) + cnt(f1, x) == cnt(f0, x)); l_zero(x); }
    assert forall|k: int| 0 <= k < v.len() implies kid_ok(#[trigger] v[k], parent, s, base) && far_from(v[k].covered.ctr(), f1, r) by { assert(far_from(v[k].covered.ctr(), f0, r)); }
    assert forall|i: int| 0 <= i < s1.len() implies far_from(#[trigger] s1[i], f1, r) by { if i < s0.len() { assert(s1[i] == s0[i]); assert(far_from(s0[i], f0, r)); } }
    assert forall|k: int, i: int| 0 <= k < v.len() && 0 <= i < s1.len() implies dd((#[trigger] v[k]).covered.ctr(), #[trigger] s1[i]) >= r by { if i < s0.len() { assert(s1[i] == s0[i]); } else { assert(far_from(v[k].covered.ctr(), f0, r)); } }
}
proof fn l_fst_kid<D: PointCloud>(c0: FirstCoveredData, n0: CoverNode<D>, n1: CoverNode<D>, v0: Seq<BuilderNode>, b: BuilderNode, f0: Seq<usize>, f1: Seq<usize>, p: FirstCoveredData, s: int, parent: NodeAddress, base: real)
    requires
        fst(c0, n0, v0, f0, s, parent, base), picked(f0, f1, p, rpowi(base, s)), b.covered == CoveredData::FirstCoveredData(p), b.parent_address == Some(parent), b.scale_index == s,
        n1.children is Some, n1.children->0.nested_scale == n0.children->0.nested_scale, n1.children->0.addresses@ == n0.children->0.addresses@.push((b.scale_index, p.center_index)),
        n1.coverage_count == n0.coverage_count + p.coverage@.len() + 1, n1.singles_indexes@ == n0.singles_indexes@,
    ensures fst(c0, n1, v0.push(b), f1, s, parent, base)
{
    let r = rpowi(base, s); l_picked(f0, f1, p, r); l_push(v0, b);
    let v = v0.push(b); let ss = n0.singles_indexes@;
    assert forall|x: usize| #![trigger c0.count(x)] cnt(ss, x) + bsum(v, x) + cnt(f1, x) == c0.count(x) by { assert(cnt(ss, x) + bsum(v0, x) + cnt(f0, x) == c0.count(x)); assert(p.count(x) + cnt(f1, x) == cnt(f0, x)); }
    assert forall|k: int| 0 <= k < v.len() implies kid_ok(#[trigger] v[k], parent, s, base) && far_from(v[k].covered.ctr(), f1, r) by { if k < v0.len() { assert(v[k] == v0[k]); assert(far_from(v0[k].covered.ctr(), f0, r)); } }
    assert forall|i: int| 0 <= i < ss.len() implies far_from(#[trigger] ss[i], f1, r) by { assert(far_from(ss[i], f0, r)); }
    assert forall|k: int, l: int, j: int| 0 <= k < l < v.len() && 0 <= j < v[l].covered.pts().len() implies dd((#[trigger] v[k]).covered.ctr(), #[trigger] v[l].covered.pts()[j]) >= r by { assert(v[k] == v0[k]); if l < v0.len() { assert(v[l] == v0[l]); assert(dd(v0[k].covered.ctr(), v0[l].covered.pts()[j]) >= r); } else { assert(far_from(v0[k].covered.ctr(), f0, r)); } }
    assert forall|k: int, l: int| 0 <= k < l < v.len() implies dd((#[trigger] v[k]).covered.ctr(), (#[trigger] v[l]).covered.ctr()) >= r by { assert(v[k] == v0[k]); if l < v0.len() { assert(v[l] == v0[l]); } else { assert(far_from(v0[k].covered.ctr(), f0, r)); } }
    assert forall|k: int, i: int| 0 <= k < v.len() && 0 <= i < ss.len() implies dd((#[trigger] v[k]).covered.ctr(), #[trigger] ss[i]) >= r by { if k < v0.len() { assert(v[k] == v0[k]); } else { assert(far_from(ss[i], f0, r)); } }
    let (a0, a1, ns) = (n0.children->0.addresses@, n1.children->0.addresses@, (n0.children->0.nested_scale, c0.center_index));
    assert(a1.to_multiset().insert(ns) =~= a0.to_multiset().insert(ns).insert(addr(b)));
}
proof fn l_acc_leaf<D: PointCloud>(c: CoveredData, n: CoverNode<D>, v: Seq<BuilderNode>) requires c.inv(), n.children is None, v.len() == 0, n.singles_indexes@ == c.pts(), n.coverage_count == c.pts().len() + 1 ensures accounted(c, n, v) {}
proof fn l_acc_cov<D: PointCloud>(c: CoveredData, n: CoverNode<D>, v: Seq<BuilderNode>) requires accounted(c, n, v) ensures n.coverage_count == c.pts().len() + 1, (v.len() == 0) == (n.children is None) {}
proof fn l_rule_none(v: Seq<BuilderNode>, ss: Seq<usize>) requires v.len() == 0 ensures nearest_rule(v, ss) {}
/// a single child covering nothing but its centre is dropped again
proof fn l_acc_drop<D: PointCloud>(c: CoveredData, n: CoverNode<D>, v: Seq<BuilderNode>, n2: CoverNode<D>, v2: Seq<BuilderNode>)
    requires accounted(c, n, v), v.len() == 1, v[0].covered.pts().len() == 0, v2.len() == 0, n2.children is None, n2.coverage_count == n.coverage_count, n2.singles_indexes@ == n.singles_indexes@
    ensures accounted(c, n2, v2), n.singles_indexes@.len() == c.pts().len()
{
    let e = Seq::<BuilderNode>::empty();
    assert(v =~= e.push(v[0])); l_push(e, v[0]);
    assert(v[0].covered.pts() =~= Seq::empty());
    let ns = (n.children->0.nested_scale, c.ctr()); let kids = n.children->0.addresses@;
    assert(addrs(v).to_multiset() == kids.to_multiset().insert(ns));
    assert(addrs(v) =~= seq![addr(v[0])]);
    assert(addrs(v).to_multiset().count(ns) > 0);
    assert(addrs(v).contains(ns));
    assert(addr(v[0]) == ns);
    assert forall|x: usize| #![trigger c.count(x)] #![trigger cnt(n2.singles_indexes@, x)] #![trigger bsum(v2, x)] cnt(n2.singles_indexes@, x) + bsum(v2, x) + one(v2.len() == 0 && x == c.ctr()) == c.count(x) by {
        l_zero(x); assert(cnt(n.singles_indexes@, x) + bsum(v, x) + one(v.len() == 0 && x == c.ctr()) == c.count(x)); assert(bsum(e.push(v[0]), x) == bsum(e, x) + v[0].covered.count(x));
    }
}
/// what one step of the build makes of the points b: the node n and the nodes v still to be made
pub open spec fn step<D: PointCloud>(b: BuilderNode, n: CoverNode<D>, v: Seq<BuilderNode>, base: real, min_res: int) -> bool {
    &&& accounted(b.covered, n, v)
    &&& n.address == addr(b) && n.parent_address == b.parent_address && largest(b.covered.ds(), n.radius@)
    &&& n.children is Some ==> n.children->0.nested_scale < b.scale_index && n.children->0.nested_scale >= min_res - 1
            && forall|k: int| 0 <= k < v.len() ==> kid_ok(#[trigger] v[k], addr(b), n.children->0.nested_scale as int, base)
    &&& b.covered is FirstCoveredData && n.children is Some ==> first_rule(v, n.singles_indexes@, rpowi(base, n.children->0.nested_scale as int))
    &&& b.covered is NearestCoveredData ==> nearest_rule(v, n.singles_indexes@)
}
pub type Ins = Seq<((i32, usize), usize)>;
pub open spec fn ilen(v: Ins) -> nat decreases v.len() { if v.len() == 0 { 0 } else { ilen(v.drop_last()) + v.last().1 as nat } }
pub open spec fn iadr(v: Ins) -> Seq<NodeAddress> { v.map_values(|b: ((i32, usize), usize)| b.0) }
proof fn l_itake(v: Ins, i: int) requires 0 <= i < v.len() ensures ilen(v.take(i + 1)) == ilen(v.take(i)) + v[i].1, iadr(v.take(i + 1)) == iadr(v.take(i)).push(v[i].0) { assert(v.take(i + 1).drop_last() =~= v.take(i)); assert(iadr(v.take(i + 1)) =~= iadr(v.take(i)).push(v[i].0)); }
proof fn l_ile(v: Ins, i: int) requires 0 <= i <= v.len() ensures ilen(v.take(i)) <= ilen(v) decreases v.len() - i { if i < v.len() { l_itake(v, i); l_ile(v, i + 1); } else { assert(v.take(i) =~= v); } }
/// a node to be made from one of the first i pieces
pub open spec fn from_piece(b: BuilderNode, sp: Seq<NearestCoveredData>, i: int, s: int, parent: NodeAddress) -> bool { b.parent_address == Some(parent) && b.scale_index == s && exists|j: int| 0 <= j < i && b.covered == CoveredData::NearestCoveredData(#[trigger] sp[j]) }
/// halfway through the nearest rule: the first i pieces have become children or singletons
pub open spec fn nrs<D: PointCloud>(n: CoverNode<D>, v: Seq<BuilderNode>, ins: Ins, sp: Seq<NearestCoveredData>, i: int, s: int, parent: NodeAddress, base: real) -> bool {
    &&& n.children is None && n.coverage_count == 1 + n.singles_indexes@.len() && ins.len() == v.len()
    &&& forall|k: int| 0 <= k < v.len() ==> #[trigger] ins[k] == (addr(v[k]), (v[k].covered.pts().len() + 1) as usize)
    &&& n.singles_indexes@.len() + blen(v) == plen(sp.take(i))
    &&& forall|x: usize| #![trigger psum(sp.take(i), x)] cnt(n.singles_indexes@, x) + bsum(v, x) == psum(sp.take(i), x)
    &&& forall|k: int| 0 <= k < v.len() ==> from_piece(#[trigger] v[k], sp, i, s, parent)
    &&& forall|k: int| 0 <= k < n.singles_indexes@.len() ==> centers_of(sp).contains(#[trigger] n.singles_indexes@[k])
}
proof fn l_nrs_init<D: PointCloud>(n: CoverNode<D>, sp: Seq<NearestCoveredData>, s: int, parent: NodeAddress, base: real)
    requires n.children is None, n.coverage_count == 1, n.singles_indexes@.len() == 0
    ensures nrs(n, Seq::empty(), Seq::empty(), sp, 0, s, parent, base)
{
    assert(sp.take(0) =~= Seq::empty()); assert(n.singles_indexes@ =~= Seq::empty());
    assert forall|x: usize| #![trigger psum(sp.take(0), x)] cnt(n.singles_indexes@, x) + bsum(Seq::empty(), x) == psum(sp.take(0), x) by { l_zero(x); }
}
proof fn l_nrs_len<D: PointCloud>(n: CoverNode<D>, v: Seq<BuilderNode>, ins: Ins, sp: Seq<NearestCoveredData>, i: int, s: int, parent: NodeAddress, base: real)
    requires nrs(n, v, ins, sp, i, s, parent, base)
    ensures n.children is None, n.coverage_count == 1 + n.singles_indexes@.len(), n.singles_indexes@.len() + blen(v) == plen(sp.take(i)), ins.len() == v.len() {}
proof fn l_ilen<D: PointCloud>(n: CoverNode<D>, v: Seq<BuilderNode>, ins: Ins, sp: Seq<NearestCoveredData>, i: int, s: int, parent: NodeAddress, base: real)
    requires nrs(n, v, ins, sp, i, s, parent, base), i <= sp.len(), forall|k: int| 0 <= k < sp.len() ==> (#[trigger] sp[k]).inv()
    ensures ilen(ins) == blen(v), iadr(ins) == addrs(v)
{
    assert(iadr(ins) =~= addrs(v)) by { assert forall|k: int| 0 <= k < v.len() implies iadr(ins)[k] == addrs(v)[k] by { assert(ins[k].0 == addr(v[k])); } }
    assert forall|k: int| 0 <= k < v.len() implies ins[k].1 == (#[trigger] v[k]).covered.pts().len() + 1 by { assert(ins[k] == (addr(v[k]), (v[k].covered.pts().len() + 1) as usize)); assert(from_piece(v[k], sp, i, s, parent)); let j = choose|j: int| 0 <= j < i && v[k].covered == CoveredData::NearestCoveredData(#[trigger] sp[j]); assert(sp[j].inv()); }
    l_ilen2(v, ins);
}
proof fn l_ilen2(v: Seq<BuilderNode>, ins: Ins) requires v.len() == ins.len(), forall|k: int| 0 <= k < v.len() ==> ins[k].1 == (#[trigger] v[k]).covered.pts().len() + 1 ensures ilen(ins) == blen(v) decreases v.len()
{
    if v.len() > 0 {
        assert forall|k: int| 0 <= k < v.drop_last().len() implies ins.drop_last()[k].1 == (#[trigger] v.drop_last()[k]).covered.pts().len() + 1 by { assert(v[k] == v.drop_last()[k]); }
        l_ilen2(v.drop_last(), ins.drop_last()); assert(ins.last().1 == v[v.len() - 1].covered.pts().len() + 1);
    }
}
proof fn l_nrs_step<D: PointCloud>(n0: CoverNode<D>, n1: CoverNode<D>, v0: Seq<BuilderNode>, v1: Seq<BuilderNode>, i0: Ins, i1: Ins, sp: Seq<NearestCoveredData>, i: int, s: int, parent: NodeAddress, base: real)
    requires
        nrs(n0, v0, i0, sp, i, s, parent, base), 0 <= i < sp.len(), n1.children == n0.children,
        (v1 == v0 && i1 == i0 && sp[i].point_indexes@.len() == 0 && n1.coverage_count == n0.coverage_count + 1 && n1.singles_indexes@ == n0.singles_indexes@.push(sp[i].center_index))
        || (n1.coverage_count == n0.coverage_count && n1.singles_indexes == n0.singles_indexes && v1 == v0.push(v1.last()) && v1.last().covered == CoveredData::NearestCoveredData(sp[i]) && v1.last().parent_address == Some(parent) && v1.last().scale_index == s && i1 == i0.push((addr(v1.last()), (sp[i].point_indexes@.len() + 1) as usize))),
    ensures nrs(n1, v1, i1, sp, i + 1, s, parent, base)
{
    l_ptake(sp, i);
    let s0 = n0.singles_indexes@; let s1 = n1.singles_indexes@;
    if s1.len() > s0.len() { assert(sp[i].point_indexes@ =~= Seq::empty()); assert(centers_of(sp)[i] == sp[i].center_index); } else { l_push(v0, v1.last()); assert(sp[i] == sp[i]); }
    assert forall|x: usize| #![trigger psum(sp.take(i + 1), x)] cnt(s1, x) + bsum(v1, x) == psum(sp.take(i + 1), x) by { l_zero(x); assert(cnt(s0, x) + bsum(v0, x) == psum(sp.take(i), x)); if s1.len() == s0.len() { assert(bsum(v0.push(v1.last()), x) == bsum(v0, x) + v1.last().covered.count(x)); } }
    assert forall|k: int| 0 <= k < v1.len() implies from_piece(#[trigger] v1[k], sp, i + 1, s, parent) by {
        if k < v0.len() { assert(v1[k] == v0[k]); assert(from_piece(v0[k], sp, i, s, parent)); let j = choose|j: int| 0 <= j < i && v0[k].covered == CoveredData::NearestCoveredData(#[trigger] sp[j]); assert(v1[k].covered == CoveredData::NearestCoveredData(sp[j])); } else { assert(v1[k].covered == CoveredData::NearestCoveredData(sp[i])); }
    }
    assert forall|k: int| 0 <= k < v1.len() implies #[trigger] i1[k] == (addr(v1[k]), (v1[k].covered.pts().len() + 1) as usize) by { if k < v0.len() { assert(v1[k] == v0[k]); assert(i1[k] == i0[k]); } }
    assert forall|k: int| 0 <= k < s1.len() implies centers_of(sp).contains(#[trigger] s1[k]) by { if k < s0.len() { assert(s1[k] == s0[k]); } else { assert(centers_of(sp)[i] == s1[k]); } }
}
proof fn l_nrs_done<D: PointCloud>(c0: NearestCoveredData, no: CoverNode<D>, na: CoverNode<D>, n: CoverNode<D>, va: Seq<BuilderNode>, v: Seq<BuilderNode>, ins: Ins, nested: NearestCoveredData, sp: Seq<NearestCoveredData>, s: int, parent: NodeAddress, base: real)
    requires
        nrs(na, va, ins, sp, sp.len() as int, s, parent, base), nearest_split(c0.center_index, rpowi(base, s), nested, sp), forall|k: int| 0 <= k < sp.len() ==> (#[trigger] sp[k]).inv(), nested.inv(), nested.center_index == c0.center_index,
        forall|x: usize| #![trigger c0.count(x)] nested.count(x) + psum(sp, x) == c0.count(x), nested.point_indexes@.len() + 1 + plen(sp) == c0.point_indexes@.len() + 1,
        n.singles_indexes == na.singles_indexes, ilen(ins) == blen(va), iadr(ins) == addrs(va),
        (v == va && n == na && va.len() == 0 && nested.point_indexes@.len() == 0)
        || (n.children is Some && n.children->0.nested_scale == s && n.children->0.addresses@ == iadr(ins) && n.coverage_count == na.coverage_count + nested.point_indexes@.len() + ilen(ins) && v == va.push(v.last()) && v.last().covered == CoveredData::NearestCoveredData(nested) && v.last().parent_address == Some(parent) && v.last().scale_index == s),
    ensures accounted(CoveredData::NearestCoveredData(c0), n, v), forall|k: int| 0 <= k < v.len() ==> kid_ok(#[trigger] v[k], parent, s, base), nearest_rule(v, n.singles_indexes@)
{
    let c = CoveredData::NearestCoveredData(c0); let m = sp.len() as int; let ss = n.singles_indexes@;
    assert(sp.take(m) =~= sp);
    let leaf = v.len() == 0;
    if !leaf { l_push(va, v.last()); } else { assert(nested.point_indexes@ =~= Seq::empty()); }
    assert forall|x: usize| #![trigger c.count(x)] #![trigger cnt(ss, x)] #![trigger bsum(v, x)] cnt(ss, x) + bsum(v, x) + one(v.len() == 0 && x == c.ctr()) == c.count(x) by {
        assert(cnt(ss, x) + bsum(va, x) == psum(sp.take(m), x)); assert(nested.count(x) + psum(sp, x) == c0.count(x)); l_zero(x);
        if !leaf { assert(bsum(va.push(v.last()), x) == bsum(va, x) + v.last().covered.count(x)); }
    }
    assert forall|k: int| 0 <= k < v.len() implies kid_ok(#[trigger] v[k], parent, s, base) && (centers_of(sp).contains(v[k].covered.ctr()) || v[k].covered.ctr() == c0.center_index) by {
        if k < va.len() { assert(v[k] == va[k]); assert(from_piece(va[k], sp, m, s, parent)); let j = choose|j: int| 0 <= j < m && va[k].covered == CoveredData::NearestCoveredData(#[trigger] sp[j]); assert(sp[j].inv()); assert(centers_of(sp)[j] == v[k].covered.ctr()); }
    }
    // every child's points are at least as near to its centre as to any piece's centre
    assert forall|k: int, x: usize, j: int| 0 <= k < v.len() && 0 <= j < v[k].covered.pts().len() && (#[trigger] centers_of(sp).contains(x) || x == c0.center_index) implies dd(v[k].covered.ctr(), #[trigger] v[k].covered.pts()[j]) <= dd(x, v[k].covered.pts()[j]) by {
        let p = v[k].covered.pts()[j];
        if k < va.len() { assert(v[k] == va[k]); assert(from_piece(va[k], sp, m, s, parent)); let q = choose|q: int| 0 <= q < m && va[k].covered == CoveredData::NearestCoveredData(#[trigger] sp[q]); assert(piece(sp[q], sp[q].center_index, c0.center_index, centers_of(sp))); assert(sp[q].point_indexes@[j] == p); assert(nearest_of(centers_of(sp), p, dd(v[k].covered.ctr(), p))); }
        else { assert(nested.point_indexes@[j] == p); assert(nearest_of(centers_of(sp), p, dd(c0.center_index, p))); }
        if x != c0.center_index { let q = choose|q: int| 0 <= q < centers_of(sp).len() && centers_of(sp)[q] == x; assert(dd(centers_of(sp)[q], p) >= dd(v[k].covered.ctr(), p)); }
    }
    assert(nearest_rule(v, ss)) by {
        assert forall|k: int, l: int, j: int| 0 <= k < v.len() && 0 <= l < v.len() && 0 <= j < v[k].covered.pts().len() implies dd(v[k].covered.ctr(), #[trigger] v[k].covered.pts()[j]) <= dd((#[trigger] v[l]).covered.ctr(), v[k].covered.pts()[j]) by { let y = v[l].covered.ctr(); let z = centers_of(sp).contains(y); }
        assert forall|k: int, i: int, j: int| 0 <= k < v.len() && 0 <= i < ss.len() && 0 <= j < v[k].covered.pts().len() implies dd(v[k].covered.ctr(), #[trigger] v[k].covered.pts()[j]) <= dd(#[trigger] ss[i], v[k].covered.pts()[j]) by { assert(centers_of(sp).contains(ss[i])); }
    }
    if !leaf { assert(addrs(v).to_multiset() =~= iadr(ins).to_multiset().insert((v.last().scale_index, c0.center_index))); }
}
/// the node keeps to the configuration: below the cutoff or the resolution it is a leaf, otherwise it is divided (or falls apart into singletons); without singletons only leaves hold any
pub open spec fn obeys<D: PointCloud>(p: CoverTreeParameters<D>, b: BuilderNode, n: CoverNode<D>) -> bool {
    (b.covered.pts().len() + 1 <= p.leaf_cutoff || b.scale_index < p.min_res_index ==> n.children is None) && (!p.use_singletons && n.children is Some ==> n.singles_indexes@.len() == 0)
    && (b.covered.pts().len() + 1 > p.leaf_cutoff && b.covered.pts().len() > 0 && b.scale_index > p.min_res_index && n.children is None ==> p.use_singletons)
}
impl BuilderNode {
//@ fn goko/src/covertree/builders.rs BuilderNode::new
//@ opt float_to_int_cast
//@ spec
    requires all_points().len() > 0, parameters.scale_base@ > 1real,
    ensures
        res is Ok, res->Ok_0.parent_address is None, res->Ok_0.covered.inv(), res->Ok_0.covered.pts().push(res->Ok_0.covered.ctr()) == all_points(),
        res->Ok_0.scale_index >= parameters.min_res_index, res->Ok_0.scale_index <= 1_000_000_000 || res->Ok_0.scale_index == parameters.min_res_index,
        forall|j: int| 0 <= j < res->Ok_0.covered.pts().len() ==> dd(res->Ok_0.covered.ctr(), #[trigger] res->Ok_0.covered.pts()[j]) <= rpowi(parameters.scale_base@, res->Ok_0.scale_index as int),
//@ finish
    proof {
        let b = parameters.scale_base@; let e = scale_index as int;
        let x = choose|x: real| #[trigger] largest(covered.ds(), x) && scale_index >= parameters.min_res_index && (0real < x < rfmax() ==> scale_index >= rceil(rlog(x, b)));
        ax_pos_powi(b, e);
        assert forall|j: int| 0 <= j < covered.pts().len() implies dd(covered.ctr(), #[trigger] covered.pts()[j]) <= rpowi(b, e) by {
            assert(covered.ds()[j]@ <= x);
            if x > 0real { ax_log(x, b, e); }
        }
    }
//@ before let scale_index
    proof {
        ax_neginf();
        assert forall|x: real| #[trigger] largest(covered.ds(), x) && 0real < x implies x < rfmax() by { if covered.ds().len() > 0 { let j = choose|j: int| 0 <= j < covered.ds().len() && (#[trigger] covered.ds()[j])@ == x; assert(covered.ds()[j]@ == dd(covered.ctr(), covered.pts()[j])); } }
        assert forall|x: real| whole(rceil(#[trigger] rlog(x, parameters.scale_base@)) as real) == rceil(rlog(x, parameters.scale_base@)) by { ax_whole(rceil(rlog(x, parameters.scale_base@))); }
        assert forall|x: real| x < rfmax() implies rceil(#[trigger] rlog(x, parameters.scale_base@)) <= 1_000_000_000 && (0real < x ==> rceil(rlog(x, parameters.scale_base@)) >= -1_000_000_000) by { ax_log_fits(x, parameters.scale_base@); }
    }
//@ end
//@ fn goko/src/covertree/builders.rs BuilderNode::address
//@ spec
    ensures res == addr(*self),
//@ end
//@ fn goko/src/covertree/builders.rs BuilderNode::split
//@ opt float_to_int_cast
//@ sig
fn split<D: PointCloud>(self, parameters: &mut CoverTreeParameters<D>) -> (res: GokoResult<(CoverNode<D>, Vec<BuilderNode>)>)
//@ spec
    requires self.covered.inv(), old(parameters).scale_base@ > 1real, old(parameters).min_res_index > i32::MIN,
    ensures
        res is Ok, same_params(*final(parameters), *old(parameters)), final(parameters).total_nodes@ == old(parameters).total_nodes@ + res->Ok_0.1@.len(),
        step(self, res->Ok_0.0, res->Ok_0.1@, old(parameters).scale_base@, old(parameters).min_res_index as int),
        obeys(*old(parameters), self, res->Ok_0.0),
//@ start
    hide(links); hide(nearest_rule); hide(first_rule); hide(accounted);
    let ghost c0 = self.covered;
//@ before if new_nodes.len
    let ghost n1 = node; let ghost v1 = new_nodes@;
    proof { if node.children is None && new_nodes@.len() == 0 && node.singles_indexes@ =~= c0.pts() && node.coverage_count == c0.pts().len() + 1 { l_acc_leaf(c0, node, new_nodes@); } l_acc_cov(c0, n1, v1); if v1.len() == 0 { l_rule_none(v1, n1.singles_indexes@); } }
//@ finish
    proof {
        if v1.len() == 1 && new_nodes@.len() == 0 { assert(node.singles_indexes@ =~= n1.singles_indexes@); l_acc_drop(c0, n1, v1, node, new_nodes@); l_rule_none(new_nodes@, node.singles_indexes@); }
    }
//@ end
//@ fn goko/src/covertree/builders.rs BuilderNode::split_nearest
//@ sig
fn split_nearest<D: PointCloud>(parent_node: &mut CoverNode<D>, parent_address: NodeAddress, covered: NearestCoveredData, split_scale_index: i32, parameters: &mut CoverTreeParameters<D>) -> (res: GokoResult<Vec<BuilderNode>>)
//@ spec
    requires covered.inv(), old(parameters).scale_base@ > 1real, old(parent_node).children is None, old(parent_node).singles_indexes@.len() == 0, old(parent_node).coverage_count == 1,
    ensures
        res is Ok, same_params(*final(parameters), *old(parameters)), final(parameters).total_nodes@ == old(parameters).total_nodes@ + res->Ok_0@.len(),
        final(parent_node).same(old(parent_node)), accounted(CoveredData::NearestCoveredData(covered), *final(parent_node), res->Ok_0@),
        final(parent_node).children is Some ==> final(parent_node).children->0.nested_scale == split_scale_index,
        forall|k: int| 0 <= k < res->Ok_0@.len() ==> kid_ok(#[trigger] res->Ok_0@[k], parent_address, split_scale_index as int, old(parameters).scale_base@),
        nearest_rule(res->Ok_0@, final(parent_node).singles_indexes@),
        !old(parameters).use_singletons ==> final(parent_node).children is Some && final(parent_node).singles_indexes@.len() == 0,
//@ start
    hide(nrs); hide(nearest_rule); hide(kid_ok); hide(links); hide(nearest_split); hide(accounted);
    let ghost c0 = covered; let ghost s = split_scale_index as int; let ghost base = parameters.scale_base@;
    proof { ax_pos_powi(base, s); }
//@ after let mut small_rng
    // the seed and the node decide what is drawn
    proof { assert(parameters.rng_seed is Some ==> small_rng.st() == seeded(parameters.rng_seed->0 ^ parent_address.1 as u64)); }
//@ loopbefore 0
    let ghost sp = splits@;
    proof { l_len(c0, nested_potential, sp); l_nrs_init(*parent_node, sp, s, parent_address, base); }
//@ loop 0
    invariant
        it0.seq() == sp, same_params(*parameters, *old(parameters)), parameters.total_nodes@ == old(parameters).total_nodes@ + new_nodes@.len(), parent_node.same(old(parent_node)), !old(parameters).use_singletons ==> parent_node.singles_indexes@.len() == 0,
        nrs(*parent_node, new_nodes@, inserts@, sp, it0.index(), s, parent_address, base),
//@ loopstart 0
    let ghost n0 = *parent_node; let ghost v0 = new_nodes@; let ghost i0 = inserts@; let ghost pot = potential;
    proof { l_plen_le(sp, it0.index() + 1); l_ptake(sp, it0.index()); l_nrs_len(n0, v0, i0, sp, it0.index(), s, parent_address, base); assert(sp[it0.index()].inv()); }
//@ loopend 0
    proof {
        if new_nodes@.len() == v0.len() { assert(new_nodes@ =~= v0); assert(inserts@ =~= i0); }
        else { assert(new_nodes@ =~= v0.push(new_nodes@.last())); }
        l_nrs_step(n0, *parent_node, v0, new_nodes@, i0, inserts@, sp, it0.index(), s, parent_address, base);
    }
//@ loopafter 0
    let ghost na = *parent_node; let ghost va = new_nodes@; let ghost ia = inserts@; let ghost nested = nested_potential;
    proof { assert(sp.take(sp.len() as int) =~= sp); l_nrs_len(na, va, ia, sp, sp.len() as int, s, parent_address, base); l_ilen(na, va, ia, sp, sp.len() as int, s, parent_address, base); }
//@ loop 1
    invariant
        it1.seq() == ia, same_params(*parameters, *old(parameters)), parameters.total_nodes@ == old(parameters).total_nodes@ + new_nodes@.len(), parent_node.same(old(parent_node)),
        parent_node.singles_indexes == na.singles_indexes, parent_node.children is Some, parent_node.children->0.nested_scale == s, parent_node.children->0.addresses@ == iadr(ia.take(it1.index())),
        parent_node.coverage_count == na.coverage_count + nested.point_indexes@.len() + ilen(ia.take(it1.index())),
//@ loopbefore 1
    proof { assert(ia.take(0) =~= Seq::empty()); assert(parent_node.children->0.addresses@ =~= iadr(ia.take(0))); }
//@ loopstart 1
    proof { l_itake(ia, it1.index()); l_ile(ia, it1.index() + 1); }
//@ loopafter 1
    proof { assert(ia.take(ia.len() as int) =~= ia); assert(new_nodes@ =~= va.push(new_nodes@.last())); }
//@ finish
    proof { l_nrs_done(c0, *old(parent_node), na, *parent_node, va, new_nodes@, ia, nested, sp, s, parent_address, base); }
//@ end
//@ fn goko/src/covertree/builders.rs BuilderNode::split_first
//@ sig
fn split_first<D: PointCloud>(parent_node: &mut CoverNode<D>, parent_address: NodeAddress, covered: FirstCoveredData, split_scale_index: i32, parameters: &mut CoverTreeParameters<D>) -> (res: GokoResult<Vec<BuilderNode>>)
//@ spec
    requires covered.inv(), old(parent_node).children is None, old(parent_node).singles_indexes@.len() == 0, old(parent_node).coverage_count == 1,
    ensures
        res is Ok, same_params(*final(parameters), *old(parameters)), final(parameters).total_nodes@ == old(parameters).total_nodes@ + res->Ok_0@.len(),
        final(parent_node).same(old(parent_node)), accounted(CoveredData::FirstCoveredData(covered), *final(parent_node), res->Ok_0@),
        final(parent_node).children is Some ==> final(parent_node).children->0.nested_scale == split_scale_index,
        forall|k: int| 0 <= k < res->Ok_0@.len() ==> kid_ok(#[trigger] res->Ok_0@[k], parent_address, split_scale_index as int, old(parameters).scale_base@),
        first_rule(res->Ok_0@, final(parent_node).singles_indexes@, rpowi(old(parameters).scale_base@, split_scale_index as int)),
        !old(parameters).use_singletons ==> final(parent_node).children is Some && final(parent_node).singles_indexes@.len() == 0,
//@ start
    hide(fst); hide(picked); hide(first_rule); hide(kid_ok); hide(links);
    let ghost c0 = covered; let ghost s = split_scale_index as int; let ghost base = parameters.scale_base@; let ghost r = rpowi(base, s);
//@ after let mut small_rng
    // the seed and the node decide what is drawn
    proof { assert(parameters.rng_seed is Some ==> small_rng.st() == seeded(parameters.rng_seed->0 ^ parent_address.1 as u64)); }
//@ after#1 parameters.total_nodes
    proof { assert(new_nodes@ =~= Seq::empty().push(new_node)); l_fst_init(c0, *old(parent_node), *parent_node, new_node, close, fars.coverage@, s, parent_address, base); }
//@ loop 0
    invariant
        same_params(*parameters, *old(parameters)), parameters.total_nodes@ == old(parameters).total_nodes@ + new_nodes@.len(), parent_node.same(old(parent_node)), !old(parameters).use_singletons ==> parent_node.singles_indexes@.len() == 0,
        fst(c0, *parent_node, new_nodes@, fars.coverage@, s, parent_address, base), uniq(fars.coverage@), new_nodes@.len() > 0,
    decreases fars.coverage@.len()
//@ loopstart 0
    let ghost n0 = *parent_node; let ghost f0 = fars.coverage@; let ghost v0 = new_nodes@;
    proof { l_fst_len(c0, n0, v0, f0, s, parent_address, base); }
//@ before if new_close.len
    let ghost p = new_close;
    proof { l_mk_picked(f0, fars.coverage@, p, r); }
//@ loopend 0
    proof {
        if new_nodes@.len() == v0.len() { assert(new_nodes@ =~= v0); l_fst_single(c0, n0, *parent_node, v0, f0, fars.coverage@, p, s, parent_address, base); }
        else { assert(new_nodes@ =~= v0.push(new_nodes@.last())); l_fst_kid(c0, n0, *parent_node, v0, new_nodes@.last(), f0, fars.coverage@, p, s, parent_address, base); }
    }
//@ finish
    proof { l_fst_done(c0, *parent_node, new_nodes@, fars.coverage@, s, parent_address, base); }
//@ end
//@ fn goko/src/covertree/builders.rs BuilderNode::split_parallel
//@ sig
fn split_parallel<D: PointCloud>(self, parameters: &mut CoverTreeParameters<D>, node_sender: &mut Sender<NodeSplitResult<D>>)
//@ subst let parameters = Arc :: clone (parameters) ; =>
//@ subst let node_sender = Arc :: clone (node_sender) ; =>
//@ subst self . split (& parameters) => self . split (parameters)
//@ subst node . split_parallel (& parameters, & node_sender) => node . split_parallel (parameters, node_sender)
//@ spec
    requires self.covered.inv(), old(parameters).scale_base@ > 1real, old(parameters).min_res_index > i32::MIN,
    ensures
        same_params(*final(parameters), *old(parameters)),
        exists|t: GT<D>| #[trigger] grown(t, self, old(parameters).scale_base@, old(parameters).min_res_index as int) && final(node_sender)@ == old(node_sender)@.add(flat(t)) && final(parameters).total_nodes@ == old(parameters).total_nodes@ + flat(t).len() - 1,
    decreases (if self.scale_index >= old(parameters).min_res_index - 1 { self.scale_index - old(parameters).min_res_index + 2 } else { 0 }),
//@ start
    hide(obeys);
    let ghost base = parameters.scale_base@; let ghost min_res = parameters.min_res_index as int; let ghost s0 = node_sender@; let ghost c0 = parameters.total_nodes@; let ghost me = self;
    let ghost mut ks: Seq<GT<D>> = Seq::empty();
//@ before node_sender.send
    let ghost nn = new_node; let ghost v0 = new_nodes@;
//@ loop 0
    invariant
        same_params(*parameters, *old(parameters)), step(me, nn, v0, base, min_res), gwfs(ks, base, min_res),
        new_nodes@.len() <= v0.len(), new_nodes@ == v0.take(new_nodes@.len() as int), kbs(ks) == v0.skip(new_nodes@.len() as int),
        node_sender@ == s0.insert(msg(nn)).add(flats(ks)), parameters.total_nodes@ == c0 + new_nodes@.len() + flats(ks).len(),
    ensures new_nodes@.len() == 0,
    decreases new_nodes@.len()
//@ loopstart 0
    let ghost s1 = node_sender@; let ghost c1 = parameters.total_nodes@; let ghost ks1 = ks; let ghost len1 = new_nodes@.len() as int;
//@ before node.split_parallel
    proof { assert(node == v0[len1 - 1]); assert(nn.children is Some); assert(kid_ok(v0[len1 - 1], addr(me), nn.children->0.nested_scale as int, base)); }
    let ghost nd = node;
//@ after node.split_parallel
    proof {
        let t = choose|t: GT<D>| #[trigger] grown(t, nd, base, min_res) && node_sender@ == s1.add(flat(t)) && parameters.total_nodes@ == c1 + flat(t).len() - 1;
        l_front(t, ks1, base, min_res);
        ks = seq![t] + ks1;
        assert(kbs(ks) =~= v0.skip(new_nodes@.len() as int)) by { assert(seq![nd] + v0.skip(len1) =~= v0.skip(len1 - 1)); }
        assert(new_nodes@ =~= v0.take(new_nodes@.len() as int));
        assert(node_sender@ =~= s0.insert(msg(nn)).add(flats(ks)));
    }
//@ loopbefore 0
    proof { assert(new_nodes@ =~= v0.take(v0.len() as int)); assert(kbs(ks) =~= v0.skip(v0.len() as int)); assert(node_sender@ =~= s0.insert(msg(nn)).add(flats(ks))); }
//@ loopafter 0
    proof {
        let t = GT::<D> { b: me, n: nn, kids: ks };
        assert(v0.skip(0) =~= v0);
        assert(grown(t, me, base, min_res));
        assert(node_sender@ =~= s0.add(flat(t)));
    }
//@ end
}
/// a node, the points it was made from, and the trees below it
pub struct GT<D: PointCloud> { pub b: BuilderNode, pub n: CoverNode<D>, pub kids: Seq<GT<D>> }
/// TRUSTED: the channel, read as a bag that never blocks while it has a message
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Sender<T> { x: Option<T> }
#[verifier::external_body] pub struct SendError { x: usize }
#[verifier::external] impl std::fmt::Debug for SendError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
impl<T> View for Sender<T> { type V = Multiset<T>; uninterp spec fn view(&self) -> Multiset<T>; }
impl<T> Sender<T> {
    #[verifier::external_body] pub fn send(&mut self, x: T) -> (r: Result<(), SendError>) ensures r is Ok, final(self)@ == old(self)@.insert(x) { unimplemented!() }
    #[verifier::external_body] pub fn recv(&mut self) -> (r: Result<T, SendError>) requires old(self)@.len() > 0 ensures r is Ok, old(self)@.count(r->Ok_0) > 0, final(self)@ == old(self)@.remove(r->Ok_0) { unimplemented!() }
}
pub type NodeSplitResult<D> = GokoResult<(i32, usize, CoverNode<D>)>;
pub open spec fn kbs<D: PointCloud>(ks: Seq<GT<D>>) -> Seq<BuilderNode> { ks.map_values(|t: GT<D>| t.b) }
/// every node of the tree is what one step of the build makes of its points
pub open spec fn gwf<D: PointCloud>(t: GT<D>, base: real, min_res: int) -> bool decreases t
{
    t.b.covered.inv() && step(t.b, t.n, kbs(t.kids), base, min_res) && gwfs(t.kids, base, min_res)
}
pub open spec fn gwfs<D: PointCloud>(ks: Seq<GT<D>>, base: real, min_res: int) -> bool decreases ks
{
    ks.len() == 0 || (gwfs(ks.drop_last(), base, min_res) && gwf(ks.last(), base, min_res))
}
pub open spec fn msg<D: PointCloud>(n: CoverNode<D>) -> NodeSplitResult<D> { Ok((n.address.0, n.address.1, n)) }
/// the messages sent for a tree, and how many
pub open spec fn flat<D: PointCloud>(t: GT<D>) -> Multiset<NodeSplitResult<D>> decreases t { flats(t.kids).insert(msg(t.n)) }
pub open spec fn flats<D: PointCloud>(ks: Seq<GT<D>>) -> Multiset<NodeSplitResult<D>> decreases ks { if ks.len() == 0 { Multiset::empty() } else { flats(ks.drop_last()).add(flat(ks.last())) } }
pub open spec fn grown<D: PointCloud>(t: GT<D>, b: BuilderNode, base: real, min_res: int) -> bool { t.b == b && gwf(t, base, min_res) }
proof fn l_front<D: PointCloud>(t: GT<D>, ks: Seq<GT<D>>, base: real, min_res: int)
    ensures flats(seq![t] + ks) == flat(t).add(flats(ks)), gwf(t, base, min_res) && gwfs(ks, base, min_res) ==> gwfs(seq![t] + ks, base, min_res), kbs(seq![t] + ks) == seq![t.b] + kbs(ks)
    decreases ks.len()
{
    let w = seq![t] + ks;
    assert(kbs(w) =~= seq![t.b] + kbs(ks));
    if ks.len() == 0 {
        assert(w =~= seq![t]); assert(w.drop_last() =~= Seq::empty()); assert(w.last() == t);
        let e = Seq::<GT<D>>::empty(); assert(flats(e) == Multiset::<NodeSplitResult<D>>::empty()); assert(gwfs(e, base, min_res)); assert(ks =~= e);
        assert(flats(w) == flats(w.drop_last()).add(flat(w.last()))); assert(gwfs(w, base, min_res) == (gwfs(w.drop_last(), base, min_res) && gwf(w.last(), base, min_res)));
        assert(flats(w) =~= flat(t).add(flats(ks)));
    } else {
        assert(w.drop_last() =~= seq![t] + ks.drop_last()); assert(w.last() == ks.last());
        l_front(t, ks.drop_last(), base, min_res);
        assert(flats(w) =~= flat(t).add(flats(ks)));
    }
}
// ---------------------------------------------------------------- what such a tree guarantees
/// how often point x is stored at or below the node (as a singleton, or as the centre of a leaf)
pub open spec fn local<D: PointCloud>(n: CoverNode<D>, x: usize) -> nat { cnt(n.singles_indexes@, x) + one(n.children is None && x == n.address.1) }
pub open spec fn stored<D: PointCloud>(t: GT<D>, x: usize) -> nat decreases t { local(t.n, x) + storeds(t.kids, x) }
pub open spec fn storeds<D: PointCloud>(ks: Seq<GT<D>>, x: usize) -> nat decreases ks { if ks.len() == 0 { 0 } else { storeds(ks.drop_last(), x) + stored(ks.last(), x) } }
/// how many points are stored at or below the node, and what its children report
pub open spec fn total<D: PointCloud>(t: GT<D>) -> nat decreases t { t.n.singles_indexes@.len() + one(t.n.children is None) + totals(t.kids) }
pub open spec fn totals<D: PointCloud>(ks: Seq<GT<D>>) -> nat decreases ks { if ks.len() == 0 { 0 } else { totals(ks.drop_last()) + total(ks.last()) } }
pub open spec fn reported<D: PointCloud>(ks: Seq<GT<D>>) -> nat decreases ks.len() { if ks.len() == 0 { 0 } else { reported(ks.drop_last()) + ks.last().n.coverage_count as nat } }
/// P01: every point is stored exactly as often as it was given, and the node reports the number of points at or below it
pub proof fn t_partition<D: PointCloud>(t: GT<D>, base: real, min_res: int) requires gwf(t, base, min_res)
    ensures forall|x: usize| #[trigger] stored(t, x) == t.b.covered.count(x), t.n.coverage_count == total(t), t.n.coverage_count == t.b.covered.pts().len() + 1,
        t.n.coverage_count == t.n.singles_indexes@.len() + one(t.n.children is None) + reported(t.kids)
    decreases t
{
    t_partitions(t.kids, base, min_res);
    let v = kbs(t.kids);
    assert(v.len() == t.kids.len());
    assert forall|x: usize| #[trigger] stored(t, x) == t.b.covered.count(x) by { assert(storeds(t.kids, x) == bsum(v, x)); assert(cnt(t.n.singles_indexes@, x) + bsum(v, x) + one(v.len() == 0 && x == t.b.covered.ctr()) == t.b.covered.count(x)); }
}
proof fn t_partitions<D: PointCloud>(ks: Seq<GT<D>>, base: real, min_res: int) requires gwfs(ks, base, min_res)
    ensures forall|x: usize| #[trigger] storeds(ks, x) == bsum(kbs(ks), x), totals(ks) == blen(kbs(ks)), reported(ks) == blen(kbs(ks))
    decreases ks
{
    if ks.len() > 0 {
        t_partitions(ks.drop_last(), base, min_res); t_partition(ks.last(), base, min_res);
        assert(kbs(ks).drop_last() =~= kbs(ks.drop_last())); assert(kbs(ks).last() == ks.last().b);
        assert forall|x: usize| #[trigger] storeds(ks, x) == bsum(kbs(ks), x) by { assert(storeds(ks.drop_last(), x) == bsum(kbs(ks.drop_last()), x)); assert(stored(ks.last(), x) == ks.last().b.covered.count(x)); }
    }
}
/// P02: a point stored at or below a node below the root lies strictly inside the node's ball; its radius is the largest distance to the points it covers
pub proof fn t_covering<D: PointCloud>(t: GT<D>, base: real, min_res: int, x: usize)
    requires gwf(t, base, min_res), base > 1real, stored(t, x) > 0, within(t.b.covered.ctr(), t.b.covered.pts(), rpowi(base, t.b.scale_index as int))
    ensures dd(t.n.address.1, x) < rpowi(base, t.n.address.0 as int)
{
    t_partition(t, base, min_res); ax_pos_powi(base, t.b.scale_index as int);
    if x != t.b.covered.ctr() { assert(cnt(t.b.covered.pts(), x) > 0); let p = t.b.covered.pts(); assert(p.contains(x)); let j = choose|j: int| 0 <= j < p.len() && p[j] == x; assert(dd(t.b.covered.ctr(), p[j]) < rpowi(base, t.b.scale_index as int)); }
}
pub proof fn t_covering_kid<D: PointCloud>(t: GT<D>, base: real, min_res: int, k: int)
    requires gwf(t, base, min_res), 0 <= k < t.kids.len()
    ensures gwf(t.kids[k], base, min_res), within(t.kids[k].b.covered.ctr(), t.kids[k].b.covered.pts(), rpowi(base, t.kids[k].b.scale_index as int)), t.kids[k].n.parent_address == Some(t.n.address), t.kids[k].n.address.0 < t.n.address.0, t.kids[k].n.address.0 >= min_res - 1,
{
    t_kid(t.kids, base, min_res, k);
    assert(kbs(t.kids)[k] == t.kids[k].b);
    assert(kid_ok(kbs(t.kids)[k], addr(t.b), t.n.children->0.nested_scale as int, base));
}
proof fn t_kid<D: PointCloud>(ks: Seq<GT<D>>, base: real, min_res: int, k: int) requires gwfs(ks, base, min_res), 0 <= k < ks.len() ensures gwf(ks[k], base, min_res), ks[k].n.address == addr(ks[k].b), ks[k].n.parent_address == ks[k].b.parent_address decreases ks.len()
{ if k < ks.len() - 1 { t_kid(ks.drop_last(), base, min_res, k); } }
pub proof fn t_radius<D: PointCloud>(t: GT<D>, base: real, min_res: int, x: usize)
    requires gwf(t, base, min_res), stored(t, x) > 0, x != t.n.address.1
    ensures dd(t.n.address.1, x) <= t.n.radius@, exists|y: usize| stored(t, y) > 0 && y != t.n.address.1 && #[trigger] dd(t.n.address.1, y) == t.n.radius@
{
    t_partition(t, base, min_res);
    let c = t.b.covered; let p = c.pts();
    assert(cnt(p, x) > 0); assert(p.contains(x)); let j = choose|j: int| 0 <= j < p.len() && p[j] == x; assert(c.ds()[j]@ == dd(c.ctr(), p[j]));
    let q = choose|q: int| 0 <= q < c.ds().len() && (#[trigger] c.ds()[q])@ == t.n.radius@;
    l_cnt(p, q); assert(c.ds()[q]@ == dd(c.ctr(), p[q])); assert(stored(t, p[q]) > 0); assert(dd(t.n.address.1, p[q]) == t.n.radius@);
}
/// P03: the children a node records are exactly the nodes below it, the nested child keeps the centre
pub proof fn t_links<D: PointCloud>(t: GT<D>, base: real, min_res: int) requires gwf(t, base, min_res)
    ensures
        t.n.children is Some ==> t.kids.len() > 0 && Seq::new(t.kids.len(), |k: int| t.kids[k].n.address).to_multiset() == t.n.children->0.addresses@.to_multiset().insert((t.n.children->0.nested_scale, t.n.address.1)),
        t.n.children is None ==> t.kids.len() == 0,
{
    let v = kbs(t.kids);
    assert(v.len() == t.kids.len());
    assert(Seq::new(t.kids.len(), |k: int| t.kids[k].n.address) =~= addrs(v)) by { assert forall|k: int| 0 <= k < t.kids.len() implies t.kids[k].n.address == addrs(v)[k] by { t_kid(t.kids, base, min_res, k); } }
}
/// a node of the tree: its centre is one of the points, its scale at most the root's
proof fn l_in<D: PointCloud>(t: GT<D>, base: real, min_res: int, m: NodeSplitResult<D>) requires gwf(t, base, min_res), flat(t).count(m) > 0
    ensures m is Ok, m == msg(m->Ok_0.2), t.b.covered.count(m->Ok_0.1) > 0, m->Ok_0.0 <= t.b.scale_index, m != msg(t.n) ==> flats(t.kids).count(m) > 0, m->Ok_0.0 == t.b.scale_index || m->Ok_0.0 >= min_res - 1,
        flats(t.kids).count(m) > 0 ==> m->Ok_0.0 < t.b.scale_index,
    decreases t
{
    let v = kbs(t.kids); assert(v.len() == t.kids.len());
    if flats(t.kids).count(m) > 0 {
        if t.kids.len() == 0 { assert(false); }
        assert forall|k: int| 0 <= k < t.kids.len() implies (#[trigger] t.kids[k]).b.scale_index == t.n.children->0.nested_scale by { assert(kid_ok(v[k], addr(t.b), t.n.children->0.nested_scale as int, base)); assert(v[k] == t.kids[k].b); }
        l_ins(t.kids, base, min_res, m, t.n.children->0.nested_scale as int);
        let x = m->Ok_0.1;
        assert(cnt(t.n.singles_indexes@, x) + bsum(v, x) + one(v.len() == 0 && x == t.b.covered.ctr()) == t.b.covered.count(x));
    }
}
proof fn l_ins<D: PointCloud>(ks: Seq<GT<D>>, base: real, min_res: int, m: NodeSplitResult<D>, s: int)
    requires gwfs(ks, base, min_res), flats(ks).count(m) > 0, forall|k: int| 0 <= k < ks.len() ==> (#[trigger] ks[k]).b.scale_index == s, s >= min_res - 1
    ensures m is Ok, m == msg(m->Ok_0.2), bsum(kbs(ks), m->Ok_0.1) > 0, m->Ok_0.0 <= s, m->Ok_0.0 >= min_res - 1
    decreases ks
{
    if ks.len() > 0 {
        assert(kbs(ks).drop_last() =~= kbs(ks.drop_last())); assert(kbs(ks).last() == ks.last().b);
        assert(ks[ks.len() - 1].b.scale_index == s);
        if flat(ks.last()).count(m) > 0 { l_in(ks.last(), base, min_res, m); }
        else {
            assert forall|k: int| 0 <= k < ks.drop_last().len() implies (#[trigger] ks.drop_last()[k]).b.scale_index == s by { assert(ks.drop_last()[k] == ks[k]); }
            l_ins(ks.drop_last(), base, min_res, m, s);
        }
    }
}
/// no two nodes have the same address
pub proof fn l_uni<D: PointCloud>(t: GT<D>, base: real, min_res: int, m1: NodeSplitResult<D>, m2: NodeSplitResult<D>)
    requires gwf(t, base, min_res), flat(t).count(m1) > 0, flat(t).count(m2) > 0, m1->Ok_0.0 == m2->Ok_0.0, m1->Ok_0.1 == m2->Ok_0.1
    ensures m1 == m2, flat(t).count(m1) == 1
    decreases t
{
    l_in(t, base, min_res, m1); l_in(t, base, min_res, m2);
    let v = kbs(t.kids); assert(v.len() == t.kids.len());
    assert(flat(t).count(m1) == flats(t.kids).count(m1) + one(m1 == msg(t.n)));
    if flats(t.kids).count(m1) > 0 && flats(t.kids).count(m2) > 0 {
        assert forall|x: usize| #[trigger] bsum(v, x) <= 1 by { assert(cnt(t.n.singles_indexes@, x) + bsum(v, x) + one(v.len() == 0 && x == t.b.covered.ctr()) == t.b.covered.count(x)); let p = t.b.covered.pts(); assert(cnt(p, x) <= 1); }
        if t.kids.len() == 0 { assert(false); }
        assert forall|k: int| 0 <= k < t.kids.len() implies (#[trigger] t.kids[k]).b.scale_index == t.n.children->0.nested_scale by { assert(kid_ok(v[k], addr(t.b), t.n.children->0.nested_scale as int, base)); assert(v[k] == t.kids[k].b); }
        l_unis(t.kids, base, min_res, m1, m2, t.n.children->0.nested_scale as int);
    }
}
proof fn l_unis<D: PointCloud>(ks: Seq<GT<D>>, base: real, min_res: int, m1: NodeSplitResult<D>, m2: NodeSplitResult<D>, s: int)
    requires gwfs(ks, base, min_res), flats(ks).count(m1) > 0, flats(ks).count(m2) > 0, m1->Ok_0.0 == m2->Ok_0.0, m1->Ok_0.1 == m2->Ok_0.1, forall|x: usize| #[trigger] bsum(kbs(ks), x) <= 1, forall|k: int| 0 <= k < ks.len() ==> (#[trigger] ks[k]).b.scale_index == s, s >= min_res - 1
    ensures m1 == m2, flats(ks).count(m1) == 1
    decreases ks
{
    if ks.len() > 0 {
        let d = ks.drop_last(); let l = ks.last();
        assert(kbs(ks).drop_last() =~= kbs(d)); assert(kbs(ks).last() == l.b);
        assert forall|k: int| 0 <= k < d.len() implies (#[trigger] d[k]).b.scale_index == s by { assert(d[k] == ks[k]); }
        assert forall|x: usize| #[trigger] bsum(kbs(d), x) <= 1 by { assert(bsum(kbs(ks), x) <= 1); }
        let x = m1->Ok_0.1;
        assert(bsum(kbs(ks), x) == bsum(kbs(d), x) + l.b.covered.count(x));
        if flat(l).count(m1) > 0 { l_in(l, base, min_res, m1); }
        if flat(l).count(m2) > 0 { l_in(l, base, min_res, m2); }
        if flats(d).count(m1) > 0 { l_ins(d, base, min_res, m1, s); }
        if flats(d).count(m2) > 0 { l_ins(d, base, min_res, m2, s); }
        if flat(l).count(m1) > 0 && flat(l).count(m2) > 0 { l_uni(l, base, min_res, m1, m2); }
        if flats(d).count(m1) > 0 && flats(d).count(m2) > 0 { l_unis(d, base, min_res, m1, m2, s); }
    }
}
// ---------------------------------------------------------------- filing the nodes
/// CONTRACT of the lock-free map (decided by P08): `view` is what the next refresh will publish
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::accept_recursive_types(V)] pub struct MonoWriteHandle<K, V> { x: Option<(K, V)> }
impl<K, V> View for MonoWriteHandle<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
impl<K, V> MonoWriteHandle<K, V> {
    pub uninterp spec fn published(&self) -> Map<K, V>;
    #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) ensures final(self)@ == old(self)@.insert(k, v), final(self).published() == old(self).published() { unimplemented!() }
    #[verifier::external_body] pub fn refresh(&mut self) ensures final(self)@ == old(self)@, final(self).published() == old(self)@ { unimplemented!() }
    /// a reader made through the factory sees what is published
    #[verifier::external_body] pub fn factory(&self) -> (r: MonoReadHandleFactory<K, V>) ensures r@ == self.published() { unimplemented!() }
}
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::accept_recursive_types(V)] pub struct MonoReadHandleFactory<K, V> { x: Option<(K, V)> }
impl<K, V> View for MonoReadHandleFactory<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
impl<K, V> MonoReadHandleFactory<K, V> { #[verifier::external_body] pub fn handle(&self) -> (r: MonoReadHandle<K, V>) ensures r@ == self@ { unimplemented!() } }
pub mod monomap { use super::*;
    #[verifier::external_body] pub fn new<K, V>() -> (r: (MonoReadHandle<K, V>, MonoWriteHandle<K, V>)) ensures r.1@ == Map::<K, V>::empty(), r.1.published() == Map::<K, V>::empty() { unimplemented!() }
}
/// TRUSTED: shared ownership is read as ownership (nothing but the counter and the channel is written through it)
pub struct Arc { }
impl Arc {
    pub fn new<T>(x: T) -> (r: T) ensures r == x { x }
    #[verifier::external_body] pub fn clone<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
}
#[verifier::external_body] pub fn unbounded<T>() -> (r: Sender<T>) ensures r@ == Multiset::<T>::empty() { unimplemented!() }
pub struct ProgressBar { pub total: u64 }
pub struct Instant { pub x: u64 }
impl Instant { #[verifier::external_body] pub fn now() -> Instant { unimplemented!() } }
impl ProgressBar {
    #[verifier::external_body] pub fn new(n: u64) -> ProgressBar { unimplemented!() }
    #[verifier::external_body] pub fn inc(&mut self) { unimplemented!() }
    #[verifier::external_body] pub fn format(&mut self, f: &str) { unimplemented!() }
}
//@ struct goko/src/covertree/builders.rs CoverTreeBuilder
//@ end
//@ struct goko/src/covertree/layer.rs CoverLayerWriter
//@ end
//@ struct goko/src/covertree/tree.rs CoverTreeWriter
//@ end
impl<D: PointCloud> CoverLayerWriter<D> {
//@ fn goko/src/covertree/layer.rs CoverLayerWriter::new
//@ spec
    ensures res.scale_index == scale_index, res.node_writer@ == Map::<usize, CoverNode<D>>::empty(), res.node_writer.published() == Map::<usize, CoverNode<D>>::empty(),
//@ end
//@ fn goko/src/covertree/layer.rs CoverLayerWriter::insert_raw
//@ spec
    ensures final(self).node_writer@ == old(self).node_writer@.insert(index, node), final(self).scale_index == old(self).scale_index,
//@ end
//@ fn goko/src/covertree/layer.rs CoverLayerWriter::refresh
//@ spec
    ensures final(self).node_writer@ == old(self).node_writer@, final(self).node_writer.published() == old(self).node_writer@, final(self).scale_index == old(self).scale_index,
//@ end
//@ fn goko/src/covertree/layer.rs CoverLayerWriter::scale_index
//@ spec
    ensures res == self.scale_index,
//@ end
//@ fn goko/src/covertree/layer.rs CoverLayerWriter::reader
//@ spec
    ensures res.scale_index == self.scale_index, res.node_reader@ == self.node_writer.published(),
//@ end
}
impl<D: PointCloud> CoverTreeWriter<D> {
//@ fn goko/src/covertree/tree.rs CoverTreeWriter::insert_raw
//@ spec
    requires
        scale_index - old(self).parameters.min_res_index + 1 <= i32::MAX, layer_of(old(self).parameters.min_res_index as int, scale_index as int) < old(self).layers@.len(),
    ensures
        final(self).parameters == old(self).parameters, final(self).root_address == old(self).root_address, final(self).final_addresses == old(self).final_addresses, final(self).layers@.len() == old(self).layers@.len(),
        forall|i: int| 0 <= i < old(self).layers@.len() ==> (#[trigger] final(self).layers@[i]).scale_index == old(self).layers@[i].scale_index
            && final(self).layers@[i].node_writer@ == (if i == layer_of(old(self).parameters.min_res_index as int, scale_index as int) { old(self).layers@[i].node_writer@.insert(point_index, node) } else { old(self).layers@[i].node_writer@ }),
//@ end
//@ fn goko/src/covertree/tree.rs CoverTreeWriter::refresh
//@ spec
    ensures
        final(self).parameters == old(self).parameters, final(self).root_address == old(self).root_address, final(self).final_addresses == old(self).final_addresses, final(self).layers@.len() == old(self).layers@.len(),
        forall|i: int| 0 <= i < old(self).layers@.len() ==> (#[trigger] final(self).layers@[i]).scale_index == old(self).layers@[i].scale_index && final(self).layers@[i].node_writer@ == old(self).layers@[i].node_writer@ && final(self).layers@[i].node_writer.published() == old(self).layers@[i].node_writer@,
//@ loop 0
    invariant
        self.parameters == old(self).parameters, self.root_address == old(self).root_address, self.final_addresses == old(self).final_addresses, self.layers@.len() == old(self).layers@.len(), __k1 <= self.layers@.len(),
        forall|i: int| 0 <= i < self.layers@.len() ==> (#[trigger] self.layers@[i]).scale_index == old(self).layers@[i].scale_index && self.layers@[i].node_writer@ == old(self).layers@[i].node_writer@,
        forall|i: int| __k1 <= i < self.layers@.len() ==> (#[trigger] self.layers@[i]).node_writer.published() == old(self).layers@[i].node_writer@,
    decreases __k1
//@ end
//@ fn goko/src/covertree/tree.rs CoverTreeWriter::reader
//@ subst let mut __acc1 = Vec => let mut __acc1 : Vec < CoverLayerReader < D > > = Vec
//@ spec
    ensures
        res.parameters == self.parameters, res.root_address == self.root_address, res.final_addresses@ == self.final_addresses.published(), res.layers@.len() == self.layers@.len(),
        forall|i: int| 0 <= i < self.layers@.len() ==> (#[trigger] res.layers@[i]).scale_index == self.layers@[i].scale_index && res.layers@[i].node_reader@ == self.layers@[i].node_writer.published(),
//@ loop 0
    invariant
        __acc1@.len() == it0.index(), it0.seq().len() == self.layers@.len(), forall|i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == self.layers@[i],
        forall|i: int| 0 <= i < it0.index() ==> (#[trigger] __acc1@[i]).scale_index == self.layers@[i].scale_index && __acc1@[i].node_reader@ == self.layers@[i].node_writer.published(),
//@ end
}
/// a layer per scale, from one below the minimum resolution up to the root
pub open spec fn scaled<D: PointCloud>(ls: Seq<CoverLayerWriter<D>>, min_res: int) -> bool { forall|i: int| 0 <= i < ls.len() ==> (#[trigger] ls[i]).scale_index == min_res - 1 + i }
pub type Maps<D> = Seq<Map<usize, CoverNode<D>>>;
pub open spec fn pend<D: PointCloud>(ls: Seq<CoverLayerWriter<D>>) -> Maps<D> { Seq::new(ls.len(), |i: int| ls[i].node_writer@) }
pub open spec fn pubs<D: PointCloud>(ls: Seq<CoverLayerWriter<D>>) -> Maps<D> { Seq::new(ls.len(), |i: int| ls[i].node_writer.published()) }
pub open spec fn in_layer<D: PointCloud>(ms: Maps<D>, i: int, k: usize) -> bool { ms[i].dom().contains(k) }
pub open spec fn lcount<D: PointCloud>(ms: Maps<D>) -> nat decreases ms.len() { if ms.len() == 0 { 0 } else { lcount(ms.drop_last()) + ms.last().dom().len() } }
/// the nodes sent are filed each in the layer of its scale under its centre, and nothing else is
pub open spec fn filed<D: PointCloud>(ms: Maps<D>, min_res: int, done: Multiset<NodeSplitResult<D>>) -> bool {
    &&& forall|m: NodeSplitResult<D>| #[trigger] done.count(m) > 0 ==> m is Ok && m == msg(m->Ok_0.2) && m->Ok_0.0 >= min_res - 1 && layer_of(min_res, m->Ok_0.0 as int) < ms.len()
            && in_layer(ms, layer_of(min_res, m->Ok_0.0 as int), m->Ok_0.1) && ms[layer_of(min_res, m->Ok_0.0 as int)][m->Ok_0.1] == m->Ok_0.2
    &&& forall|i: int, k: usize| 0 <= i < ms.len() && #[trigger] in_layer(ms, i, k) ==> done.count(msg(ms[i][k])) > 0 && ms[i][k].address.1 == k && ms[i][k].address.0 == min_res - 1 + i
    &&& forall|i: int| 0 <= i < ms.len() ==> (#[trigger] ms[i]).dom().finite()
    &&& lcount(ms) == done.len()
}
/// a node where point x is stored
pub open spec fn keeps<D: PointCloud>(m: NodeSplitResult<D>, x: usize) -> bool { local(m->Ok_0.2, x) > 0 }
/// every stored point is mapped to the node that stores it
pub open spec fn ended<D: PointCloud>(fa: Map<usize, NodeAddress>, done: Multiset<NodeSplitResult<D>>) -> bool {
    &&& forall|m: NodeSplitResult<D>, x: usize| done.count(m) > 0 && #[trigger] keeps(m, x) ==> fa.dom().contains(x) && fa[x] == (m->Ok_0.0, m->Ok_0.1)
    &&& forall|x: usize| #[trigger] fa.dom().contains(x) ==> exists|m: NodeSplitResult<D>| done.count(m) > 0 && #[trigger] keeps(m, x)
}
pub open spec fn put(fa: Map<usize, NodeAddress>, s: Seq<usize>, n: int, a: NodeAddress) -> Map<usize, NodeAddress> decreases n { if n <= 0 { fa } else { put(fa, s, n - 1, a).insert(s[n - 1], a) } }
proof fn l_put(fa: Map<usize, NodeAddress>, s: Seq<usize>, n: int, a: NodeAddress, x: usize) requires 0 <= n <= s.len()
    ensures s.take(n).contains(x) ==> put(fa, s, n, a).dom().contains(x) && put(fa, s, n, a)[x] == a, !s.take(n).contains(x) ==> put(fa, s, n, a).dom().contains(x) == fa.dom().contains(x) && put(fa, s, n, a)[x] == fa[x],
    decreases n
{
    if n > 0 {
        l_put(fa, s, n - 1, a, x);
        let t = s.take(n); let u = s.take(n - 1);
        if u.contains(x) { let j = choose|j: int| 0 <= j < u.len() && u[j] == x; assert(t[j] == x); }
        if t.contains(x) && !u.contains(x) { let j = choose|j: int| 0 <= j < t.len() && t[j] == x; if j < n - 1 { assert(u[j] == x); } }
        assert(t[n - 1] == s[n - 1]);
    } else { assert(!s.take(0).contains(x)); }
}
/// a point stored at a node of the tree is stored in the tree
proof fn l_keep<D: PointCloud>(t: GT<D>, m: NodeSplitResult<D>, x: usize) requires flat(t).count(m) > 0, keeps(m, x) ensures stored(t, x) > 0, flats(t.kids).count(m) > 0 ==> storeds(t.kids, x) > 0 decreases t
{ if flats(t.kids).count(m) > 0 { l_keeps(t.kids, m, x); } }
proof fn l_keeps<D: PointCloud>(ks: Seq<GT<D>>, m: NodeSplitResult<D>, x: usize) requires flats(ks).count(m) > 0, keeps(m, x) ensures storeds(ks, x) > 0 decreases ks
{ if ks.len() > 0 { if flat(ks.last()).count(m) > 0 { l_keep(ks.last(), m, x); } else { l_keeps(ks.drop_last(), m, x); } } }
/// a point is stored at one node only
pub proof fn l_one<D: PointCloud>(t: GT<D>, m1: NodeSplitResult<D>, m2: NodeSplitResult<D>, x: usize) requires stored(t, x) <= 1, flat(t).count(m1) > 0, flat(t).count(m2) > 0, keeps(m1, x), keeps(m2, x) ensures m1 == m2 decreases t
{
    l_keep(t, m1, x); l_keep(t, m2, x);
    if flats(t.kids).count(m1) > 0 && flats(t.kids).count(m2) > 0 { l_ones(t.kids, m1, m2, x); }
    else if m1 != m2 { assert(local(t.n, x) > 0 || storeds(t.kids, x) > 0); assert(m1 == msg(t.n) || flats(t.kids).count(m1) > 0); assert(m2 == msg(t.n) || flats(t.kids).count(m2) > 0); }
}
proof fn l_ones<D: PointCloud>(ks: Seq<GT<D>>, m1: NodeSplitResult<D>, m2: NodeSplitResult<D>, x: usize) requires storeds(ks, x) <= 1, flats(ks).count(m1) > 0, flats(ks).count(m2) > 0, keeps(m1, x), keeps(m2, x) ensures m1 == m2 decreases ks
{
    if ks.len() > 0 {
        let d = ks.drop_last(); let l = ks.last();
        if flat(l).count(m1) > 0 { l_keep(l, m1, x); }
        if flat(l).count(m2) > 0 { l_keep(l, m2, x); }
        if flats(d).count(m1) > 0 { l_keeps(d, m1, x); }
        if flats(d).count(m2) > 0 { l_keeps(d, m2, x); }
        if flat(l).count(m1) > 0 && flat(l).count(m2) > 0 { l_one(l, m1, m2, x); } else if flats(d).count(m1) > 0 && flats(d).count(m2) > 0 { l_ones(d, m1, m2, x); }
    }
}
proof fn l_lcount<D: PointCloud>(a: Maps<D>, i: int, k: usize, n: CoverNode<D>) requires 0 <= i < a.len(), !a[i].dom().contains(k), a[i].dom().finite() ensures lcount(a.update(i, a[i].insert(k, n))) == lcount(a) + 1 decreases a.len()
{
    let b = a.update(i, a[i].insert(k, n));
    if i == a.len() - 1 { assert(b.drop_last() =~= a.drop_last()); assert(b.last().dom() =~= a[i].dom().insert(k)); }
    else { assert(b.drop_last() =~= a.drop_last().update(i, a.drop_last()[i].insert(k, n))); l_lcount(a.drop_last(), i, k, n); }
}
proof fn l_lcount0<D: PointCloud>(a: Maps<D>) requires forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]) == Map::<usize, CoverNode<D>>::empty() ensures lcount(a) == 0 decreases a.len()
{ if a.len() > 0 { assert(a[a.len() - 1].dom() =~= Set::empty()); let d = a.drop_last(); assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]) == Map::<usize, CoverNode<D>>::empty() by { assert(d[i] == a[i]); } l_lcount0(d); } }
/// one more node is filed
proof fn l_file<D: PointCloud>(t: GT<D>, base: real, min_res: int, a: Maps<D>, b: Maps<D>, done: Multiset<NodeSplitResult<D>>, bag: Multiset<NodeSplitResult<D>>, m: NodeSplitResult<D>)
    requires gwf(t, base, min_res), t.b.scale_index >= min_res, a.len() == t.b.scale_index - min_res + 2, filed(a, min_res, done), bag.count(m) > 0, done.add(bag) == flat(t), m is Ok,
        b == a.update(layer_of(min_res, m->Ok_0.0 as int), a[layer_of(min_res, m->Ok_0.0 as int)].insert(m->Ok_0.1, m->Ok_0.2)),
    ensures filed(b, min_res, done.insert(m)), done.insert(m).add(bag.remove(m)) == flat(t), bag.remove(m).len() == bag.len() - 1, done.insert(m).len() == done.len() + 1, m->Ok_0.0 >= min_res - 1, layer_of(min_res, m->Ok_0.0 as int) < a.len()
{
    assert(flat(t).count(m) > 0);
    l_in(t, base, min_res, m);
    let i0 = layer_of(min_res, m->Ok_0.0 as int); let k0 = m->Ok_0.1;
    assert(done.insert(m).add(bag.remove(m)) =~= flat(t));
    if in_layer(a, i0, k0) { let q = msg(a[i0][k0]); assert(done.count(q) > 0); assert(flat(t).count(q) > 0); l_uni(t, base, min_res, q, m); assert(flat(t).count(m) >= 2); assert(false); }
    assert(!a[i0].dom().contains(k0));
    l_lcount(a, i0, k0, m->Ok_0.2);
    let d1 = done.insert(m);
    assert forall|q: NodeSplitResult<D>| #[trigger] d1.count(q) > 0 implies q is Ok && q == msg(q->Ok_0.2) && q->Ok_0.0 >= min_res - 1 && layer_of(min_res, q->Ok_0.0 as int) < b.len()
            && in_layer(b, layer_of(min_res, q->Ok_0.0 as int), q->Ok_0.1) && b[layer_of(min_res, q->Ok_0.0 as int)][q->Ok_0.1] == q->Ok_0.2 by {
        if q != m { assert(done.count(q) > 0); let i = layer_of(min_res, q->Ok_0.0 as int); assert(in_layer(a, i, q->Ok_0.1)); }
    }
    assert forall|i: int, k: usize| 0 <= i < b.len() && #[trigger] in_layer(b, i, k) implies d1.count(msg(b[i][k])) > 0 && b[i][k].address.1 == k && b[i][k].address.0 == min_res - 1 + i by {
        if i == i0 && k == k0 { } else { assert(in_layer(a, i, k)); }
    }
    assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).dom().finite() by { assert(a[i].dom().finite()); }
}
/// ... and its points end there
proof fn l_end<D: PointCloud>(t: GT<D>, base: real, min_res: int, fa: Map<usize, NodeAddress>, fb: Map<usize, NodeAddress>, done: Multiset<NodeSplitResult<D>>, bag: Multiset<NodeSplitResult<D>>, m: NodeSplitResult<D>)
    requires gwf(t, base, min_res), forall|x: usize| #[trigger] t.b.covered.count(x) <= 1, ended(fa, done), bag.count(m) > 0, done.add(bag) == flat(t), m is Ok, m == msg(m->Ok_0.2),
        ({ let n = m->Ok_0.2; let a = (m->Ok_0.0, m->Ok_0.1); let p = put(fa, n.singles_indexes@, n.singles_indexes@.len() as int, a); fb == (if n.children is None { p.insert(m->Ok_0.1, a) } else { p }) }),
    ensures ended(fb, done.insert(m))
{
    let n = m->Ok_0.2; let a = (m->Ok_0.0, m->Ok_0.1); let ss = n.singles_indexes@; let d1 = done.insert(m);
    assert(ss.take(ss.len() as int) =~= ss);
    t_partition(t, base, min_res);
    assert forall|x: usize| keeps(m, x) == (ss.contains(x) || (n.children is None && x == m->Ok_0.1)) by { if ss.contains(x) { let j = choose|j: int| 0 <= j < ss.len() && ss[j] == x; l_cnt(ss, j); } else { assert(cnt(ss, x) == 0); } }
    assert forall|q: NodeSplitResult<D>, x: usize| d1.count(q) > 0 && #[trigger] keeps(q, x) implies fb.dom().contains(x) && fb[x] == (q->Ok_0.0, q->Ok_0.1) by {
        l_put(fa, ss, ss.len() as int, a, x);
        if q != m {
            assert(done.count(q) > 0); assert(flat(t).count(q) > 0); assert(flat(t).count(m) > 0);
            assert(stored(t, x) == t.b.covered.count(x));
            if keeps(m, x) { l_one(t, q, m, x); }
        }
    }
    assert forall|x: usize| #[trigger] fb.dom().contains(x) implies exists|q: NodeSplitResult<D>| d1.count(q) > 0 && #[trigger] keeps(q, x) by {
        l_put(fa, ss, ss.len() as int, a, x);
        if keeps(m, x) { assert(d1.count(m) > 0); } else { assert(fa.dom().contains(x)); let q = choose|q: NodeSplitResult<D>| done.count(q) > 0 && #[trigger] keeps(q, x); assert(d1.count(q) > 0); }
    }
}
/// what a finished build is: the tree t over all the points, filed in its layers, with every point's last node known
pub open spec fn planted<D: PointCloud>(t: GT<D>, w: CoverTreeWriter<D>, base: real, min_res: int) -> bool {
    &&& gwf(t, base, min_res) && t.b.parent_address is None && t.b.covered.pts().push(t.b.covered.ctr()) == all_points()
    &&& forall|j: int| 0 <= j < t.b.covered.pts().len() ==> dd(t.b.covered.ctr(), #[trigger] t.b.covered.pts()[j]) <= rpowi(base, t.b.scale_index as int)
    &&& w.root_address == t.n.address && w.root_address.0 >= min_res && w.layers@.len() == w.root_address.0 - min_res + 2
    &&& scaled(w.layers@, min_res) && filed(pubs(w.layers@), min_res, flat(t)) && ended(w.final_addresses.published(), flat(t))
}
impl CoverTreeBuilder {
//@ fn goko/src/covertree/builders.rs CoverTreeBuilder::build
//@ subst let (node_sender, node_receiver) : (Sender < NodeSplitResult < D > >, Receiver < NodeSplitResult < D > >,) = unbounded () => let node_sender : Sender < NodeSplitResult < D > > = unbounded ()
//@ subst let node_sender = Arc => let mut node_sender = Arc
//@ subst let parameters = Arc => let mut parameters = Arc
//@ subst root . split_parallel (& parameters, & node_sender) => root . split_parallel (& mut parameters, & mut node_sender)
//@ subst node_receiver . recv () => node_sender . recv ()
//@ spec
    requires all_points().len() > 0, self.scale_base@ > 1real, -1_000_000_000 <= self.min_res_index <= 1_000_000_000,
    ensures
        res is Ok, exists|t: GT<D>| #[trigger] planted(t, res->Ok_0, self.scale_base@, self.min_res_index as int),
        ({ let p = res->Ok_0.parameters; p.scale_base == self.scale_base && p.leaf_cutoff == self.leaf_cutoff && p.min_res_index == self.min_res_index && p.use_singletons == self.use_singletons && p.partition_type == self.partition_type && p.rng_seed == self.rng_seed }),
//@ start
    hide(gwf); hide(flat); hide(filed); hide(ended); hide(grown);
    let ghost base = self.scale_base@; let ghost min_res = self.min_res_index as int;
//@ loop 0
    invariant layers@.len() == i + 1, scale_range == root_address.0 - parameters.min_res_index, scaled(layers@, min_res), forall|j: int| 0 <= j < layers@.len() ==> (#[trigger] layers@[j]).node_writer@ == Map::<usize, CoverNode<D>>::empty(),
//@ before root.split_parallel
    let ghost rb = root; let ghost par0 = parameters;
//@ after root.split_parallel
    let ghost t = choose|t: GT<D>| #[trigger] grown(t, rb, base, min_res) && node_sender@ == Multiset::<NodeSplitResult<D>>::empty().add(flat(t)) && parameters.total_nodes@ == 1 + flat(t).len() - 1;
    let ghost mut done: Multiset<NodeSplitResult<D>> = Multiset::empty();
    proof { l_root(t, rb, base, min_res); l_start(pend(layers@), min_res, t, node_sender@); }
//@ loop 1
    invariant_except_break node_sender@.len() > 0,
    invariant
        done.add(node_sender@) == flat(t), inserted_nodes == done.len(), parameters.total_nodes@ == flat(t).len(), inserted_nodes == 0 || flat(t).len() <= usize::MAX, same_params(parameters, par0), same_params(cover_tree.parameters, par0),
        cover_tree.root_address == root_address, cover_tree.layers@.len() == root_address.0 - min_res + 2, scaled(cover_tree.layers@, min_res), filed(pend(cover_tree.layers@), min_res, done), ended(cover_tree.final_addresses@, done),
    ensures node_sender@.len() == 0,
    decreases node_sender@.len()
//@ loopstart 1
    let ghost bag0 = node_sender@; let ghost ms0 = pend(cover_tree.layers@); let ghost fa0 = cover_tree.final_addresses@;
    proof { l_some(t, base, min_res, done, bag0); }
//@ before let (scale_index, point_index, new_node)
    let ghost m = res;
    proof { l_member(t, base, min_res, done, bag0, m); }
//@ loopbefore 2
    let ghost ct0 = cover_tree; let ghost nn = new_node; let ghost sk = new_node.singles_indexes@;
//@ loop 2
    invariant it2.seq().len() == sk.len(), forall|i: int| 0 <= i < sk.len() ==> *(#[trigger] it2.seq()[i]) == sk[i], cover_tree.final_addresses@ == put(fa0, sk, it2.index() as int, (scale_index, point_index)),
        cover_tree.parameters == ct0.parameters, cover_tree.layers == ct0.layers, cover_tree.root_address == ct0.root_address,
//@ before inserted_nodes = inserted_nodes
    proof {
        assert(pend(cover_tree.layers@) =~= ms0.update(layer_of(min_res, scale_index as int), ms0[layer_of(min_res, scale_index as int)].insert(point_index, nn)));
        l_file(t, base, min_res, ms0, pend(cover_tree.layers@), done, bag0, m);
        l_end(t, base, min_res, fa0, cover_tree.final_addresses@, done, bag0, m);
        done = done.insert(m);
    }
//@ finish
    proof {
        assert(pubs(cover_tree.layers@) =~= msf);
        assert(planted(t, cover_tree, base, min_res));
    }
//@ before cover_tree.refresh
    let ghost msf = pend(cover_tree.layers@);
    proof { l_full(t, done, node_sender@); }
//@ end
}
// ---------------------------------------------------------------- what a reader reports about its layers
/// CONTRACT of the lock-free map's reader (decided by P08)
impl<K, V> MonoReadHandle<K, V> {
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.dom().len(), self@.dom().finite() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.dom().len() == 0), self@.dom().finite() { unimplemented!() }
}
/// ASSUMED: zip pairs position by position up to the shorter side, rev turns the result around
pub trait ZipRev: Sized {
    spec fn lo(self) -> int; spec fn hi(self) -> int;
    fn zip_rev<'a, D: PointCloud>(self, ls: &'a Vec<CoverLayerReader<D>>) -> (v: Vec<(i32, &'a CoverLayerReader<D>)>)
        ensures ({ let n = if self.hi() - self.lo() < ls@.len() { if self.hi() < self.lo() { 0 } else { self.hi() - self.lo() } } else { ls@.len() as int };
            v@.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] v@[i]).0 == self.lo() + (n - 1 - i) && *v@[i].1 == ls@[n - 1 - i] });
}
impl ZipRev for core::ops::Range<i32> {
    open spec fn lo(self) -> int { self.start as int } open spec fn hi(self) -> int { self.end as int }
    #[verifier::external_body] fn zip_rev<'a, D: PointCloud>(self, ls: &'a Vec<CoverLayerReader<D>>) -> (v: Vec<(i32, &'a CoverLayerReader<D>)>) { unimplemented!() }
}
pub open spec fn rmaps<D: PointCloud>(ls: Seq<CoverLayerReader<D>>) -> Maps<D> { Seq::new(ls.len(), |i: int| ls[i].node_reader@) }
/// nodes of the layers from i up
pub open spec fn upcount<D: PointCloud>(ms: Maps<D>, i: int) -> nat decreases ms.len() - i { if 0 <= i < ms.len() { ms[i].dom().len() + upcount(ms, i + 1) } else { 0 } }
proof fn l_upcount<D: PointCloud>(ms: Maps<D>) ensures upcount(ms, 0) == lcount(ms) decreases ms.len()
{
    if ms.len() > 0 { l_upcount(ms.drop_last()); l_updrop(ms, 0); }
}
proof fn l_updrop<D: PointCloud>(ms: Maps<D>, i: int) requires ms.len() > 0, 0 <= i <= ms.len() - 1 ensures upcount(ms, i) == upcount(ms.drop_last(), i) + ms.last().dom().len() decreases ms.len() - i
{
    let d = ms.drop_last();
    if i < ms.len() - 1 { l_updrop(ms, i + 1); assert(d[i] == ms[i]); } else { assert(upcount(ms, i + 1) == 0); assert(upcount(d, i) == 0); }
}
proof fn l_upmono<D: PointCloud>(ms: Maps<D>) ensures forall|i: int| 0 <= i <= ms.len() ==> #[trigger] upcount(ms, i) <= upcount(ms, 0)
{ assert forall|i: int| 0 <= i <= ms.len() implies #[trigger] upcount(ms, i) <= upcount(ms, 0) by { l_upmono1(ms, i); } }
proof fn l_upmono1<D: PointCloud>(ms: Maps<D>, i: int) requires 0 <= i <= ms.len() ensures upcount(ms, i) <= upcount(ms, 0) decreases i
{ if i > 0 { l_upmono1(ms, i - 1); } }
pub assume_specification<T> [ Option::<Option<T>>::flatten ](o: Option<Option<T>>) -> (r: Option<T>) ensures r == (if o is Some { o->0 } else { None });
impl<D: PointCloud> CoverLayerReader<D> {
//@ fn goko/src/covertree/layer.rs CoverLayerReader::len
//@ spec
    ensures res == self.node_reader@.dom().len(), self.node_reader@.dom().finite(),
//@ end
//@ fn goko/src/covertree/layer.rs CoverLayerReader::is_empty
//@ spec
    ensures res == (self.node_reader@.dom().len() == 0),
//@ end
//@ fn goko/src/covertree/layer.rs CoverLayerReader::scale_index
//@ spec
    ensures res == self.scale_index,
//@ end
//@ fn goko/src/covertree/layer.rs CoverLayerReader::get_node_children_and
//@ name get_node_children_ref
//@ sig
pub fn get_node_children_ref(&self, pi: usize) -> (res: Option<(NodeAddress, &[NodeAddress])>)
//@ subst f ((si , pi) , c) => ((si , pi) , c)
//@ spec
    ensures (res is Some) == (self.node_reader@.dom().contains(pi) && self.node_reader@[pi].children is Some),
        res is Some ==> (res->0).0 == (self.node_reader@[pi].children->0.nested_scale, pi) && (res->0).1@ == self.node_reader@[pi].children->0.addresses@,
//@ end
}
impl<D: PointCloud> CoverTreeReader<D> {
//@ fn goko/src/covertree/tree.rs CoverTreeReader::layers
//@ sig
pub fn layers(&self) -> (res: Vec<(i32, &CoverLayerReader<D>)>)
//@ subst . zip (self . layers . iter ()) . rev () => . zip_rev(&self.layers)
//@ spec
    requires i32::MIN < self.parameters.min_res_index, self.layers@.len() + self.parameters.min_res_index <= i32::MAX, self.layers@.len() <= i32::MAX
    ensures res@.len() == self.layers@.len(),
        forall|i: int| 0 <= i < res@.len() ==> (#[trigger] res@[i]).0 == self.parameters.min_res_index - 1 + (res@.len() - 1 - i) && *res@[i].1 == self.layers@[res@.len() - 1 - i],
//@ end
//@ fn goko/src/covertree/tree.rs CoverTreeReader::layer
//@ spec
    requires self.known((scale_index, 0)),
    ensures *res == self.layers@[layer_of(self.parameters.min_res_index as int, scale_index as int)],
//@ end
//@ fn goko/src/covertree/tree.rs CoverTreeReader::len
//@ spec
    ensures res == self.layers@.len(),
//@ end
//@ fn goko/src/covertree/tree.rs CoverTreeReader::is_empty
//@ spec
    ensures res == (self.layers@.len() == 0),
//@ end
//@ fn goko/src/covertree/tree.rs CoverTreeReader::node_count
//@ spec
    requires i32::MIN < self.parameters.min_res_index, self.layers@.len() + self.parameters.min_res_index <= i32::MAX, self.layers@.len() <= i32::MAX, lcount(rmaps(self.layers@)) <= usize::MAX
    ensures res == lcount(rmaps(self.layers@)),
//@ start
    let ghost ms = rmaps(self.layers@); proof { l_upcount(ms); l_upmono(ms); }
//@ loop 0
    invariant ms == rmaps(self.layers@), __acc1 == upcount(ms, ms.len() - it0.index()), it0.seq().len() == ms.len(), forall|i: int| 0 <= i <= ms.len() ==> #[trigger] upcount(ms, i) <= usize::MAX,
        forall|i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]).1 == self.layers@[it0.seq().len() - 1 - i],
//@ loopstart 0
    proof { let j = ms.len() - 1 - it0.index(); assert(upcount(ms, j) == ms[j].dom().len() + upcount(ms, j + 1)); assert(ms[j] == self.layers@[j].node_reader@); assert(upcount(ms, j) <= usize::MAX); }
//@ end
//@ fn goko/src/covertree/tree.rs CoverTreeReader::scale_range
//@ sig
pub fn scale_range(&self) -> (res: core::ops::Range<i32>)
//@ spec
    requires i32::MIN < self.parameters.min_res_index, self.layers@.len() + self.parameters.min_res_index <= i32::MAX, self.layers@.len() <= i32::MAX
    ensures res.start == self.parameters.min_res_index, res.end == self.parameters.min_res_index - 1 + self.layers@.len(),
//@ end
//@ fn goko/src/covertree/tree.rs CoverTreeReader::get_node_children_and
//@ name get_node_children_ref
//@ sig
pub fn get_node_children_ref(&self, node_address: (i32, usize)) -> (res: Option<(NodeAddress, &[NodeAddress])>)
//@ subst . get_node_children_and (node_address . 1 , f) => .get_node_children_ref(node_address.1)
//@ spec
    requires self.known(node_address),
    ensures (res is Some) == (self.lookup(node_address) is Some && (self.lookup(node_address)->0).children is Some),
        res is Some ==> (res->0).0 == ((self.lookup(node_address)->0).children->0.nested_scale, node_address.1) && (res->0).1@ == (self.lookup(node_address)->0).children->0.addresses@,
//@ end
}
proof fn l_full<D: PointCloud>(t: GT<D>, done: Multiset<NodeSplitResult<D>>, bag: Multiset<NodeSplitResult<D>>) requires done.add(bag) == flat(t), bag.len() == 0 ensures done == flat(t)
{ assert(bag =~= Multiset::empty()); assert(done =~= flat(t)); }
proof fn l_root<D: PointCloud>(t: GT<D>, b: BuilderNode, base: real, min_res: int) requires grown(t, b, base, min_res) ensures gwf(t, base, min_res), t.b == b, t.n.address == addr(b), flat(t).len() > 0 {}
proof fn l_start<D: PointCloud>(ms: Maps<D>, min_res: int, t: GT<D>, bag: Multiset<NodeSplitResult<D>>) requires forall|i: int| 0 <= i < ms.len() ==> (#[trigger] ms[i]) == Map::<usize, CoverNode<D>>::empty(), bag == Multiset::<NodeSplitResult<D>>::empty().add(flat(t))
    ensures filed(ms, min_res, Multiset::empty()), ended::<D>(Map::empty(), Multiset::empty()), Multiset::<NodeSplitResult<D>>::empty().add(bag) == flat(t), bag.len() == flat(t).len()
{ l_lcount0(ms); assert(Multiset::<NodeSplitResult<D>>::empty().add(bag) =~= flat(t)); assert(bag =~= flat(t)); }
proof fn l_some<D: PointCloud>(t: GT<D>, base: real, min_res: int, done: Multiset<NodeSplitResult<D>>, bag: Multiset<NodeSplitResult<D>>) requires done.add(bag) == flat(t) ensures flat(t).len() == done.len() + bag.len() {}
proof fn l_member<D: PointCloud>(t: GT<D>, base: real, min_res: int, done: Multiset<NodeSplitResult<D>>, bag: Multiset<NodeSplitResult<D>>, m: NodeSplitResult<D>) requires gwf(t, base, min_res), done.add(bag) == flat(t), bag.count(m) > 0 ensures flat(t).count(m) > 0, m is Ok, m == msg(m->Ok_0.2), m->Ok_0.0 <= t.b.scale_index, m->Ok_0.0 == t.b.scale_index || m->Ok_0.0 >= min_res - 1
{ assert(flat(t).count(m) == done.count(m) + bag.count(m)); l_in(t, base, min_res, m); }
} // verus!
fn main() {}
