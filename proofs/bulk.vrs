//@ include prelude.vrs
//@ include coll.vrs
// =====================================================================================
// UNIT bulk: one answer per query, in the order asked
// =====================================================================================
//@ gsubst < P : Deref < Target = D::Point > + Send + Sync > => < P >
//@ gsubst P : Deref < Target = D::Point > + Send + Sync , => P ,
//@ gsubst + Send + Sync => 
//@ gopt chunk_list
//@ gopt extend
pub type NodeAddress = (i32, usize);
#[verifier::external_body] pub struct GokoError { x: usize }
pub type GokoResult<T> = Result<T, GokoError>;
pub trait PointCloud: Sized { }
/// TRUSTED: a reader's clone reads the same tree; the single queries are decided by P04-P06
#[verifier::external_body] #[verifier::accept_recursive_types(D)] pub struct CoverTreeReader<D> { p: Option<D> }
impl<D: PointCloud> CoverTreeReader<D> {
    pub uninterp spec fn known_path_is(&self, i: usize, r: GokoResult<Vec<(f32, NodeAddress)>>) -> bool;
    pub uninterp spec fn path_is<P>(&self, p: P, r: GokoResult<Vec<(f32, NodeAddress)>>) -> bool;
    pub uninterp spec fn knn_is<P>(&self, p: P, k: usize, r: GokoResult<Vec<(f32, usize)>>) -> bool;
    pub uninterp spec fn routing_knn_is<P>(&self, p: P, k: usize, r: GokoResult<Vec<(f32, usize)>>) -> bool;
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn known_path(&self, i: usize) -> (r: GokoResult<Vec<(f32, NodeAddress)>>) ensures self.known_path_is(i, r) { unimplemented!() }
    #[verifier::external_body] pub fn path<P>(&self, p: &P) -> (r: GokoResult<Vec<(f32, NodeAddress)>>) ensures self.path_is(*p, r) { unimplemented!() }
    #[verifier::external_body] pub fn knn<P>(&self, p: &P, k: usize) -> (r: GokoResult<Vec<(f32, usize)>>) ensures self.knn_is(*p, k, r) { unimplemented!() }
    #[verifier::external_body] pub fn routing_knn<P>(&self, p: &P, k: usize) -> (r: GokoResult<Vec<(f32, usize)>>) ensures self.routing_knn_is(*p, k, r) { unimplemented!() }
}
pub open spec fn imin(a: int, b: int) -> int { if a < b { a } else { b } }
pub open spec fn chunks_of(n: int, c: int) -> int recommends c > 0 { (n + c - 1) / c }
/// TRUSTED (rayon/std): chunks of a sequence are its consecutive pieces of c elements, the last one shorter
#[verifier::external_body] pub fn chunk_list<'a, T>(v: &'a [T], c: usize) -> (r: Vec<&'a [T]>) requires c > 0
    ensures r@.len() == chunks_of(v@.len() as int, c as int), forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k])@ == piece(v@, c as int, k) { unimplemented!() }
/// TRUSTED (rayon): n copies
#[verifier::external_body] pub fn repeatn<T>(x: T, n: usize) -> (r: Vec<T>) ensures r@.len() == n, forall|k: int| 0 <= k < n ==> #[trigger] r@[k] == x { unimplemented!() }
#[verifier::external_body] pub fn vtake<T>(v: &mut Vec<T>) -> (r: Vec<T>) ensures r@ == old(v)@, final(v)@.len() == 0 { unimplemented!() }
#[verifier::external_body] pub fn vmove_all<T>(a: &mut Vec<T>, v: &mut Vec<T>) ensures final(a)@ == old(a)@ + old(v)@, final(v)@.len() == 0 { unimplemented!() }
#[verifier::external_body] pub fn vmove<T>(a: &mut Vec<T>, v: Vec<T>) ensures final(a)@ == old(a)@ + v@ { unimplemented!() }
/// TRUSTED (ndarray): a matrix and its rows; a row is one slice or not, depending on the layout
#[verifier::external_body] pub struct ArrayView2 { p: u8 }
impl ArrayView2 {
    pub uninterp spec fn rows(&self) -> int;
    pub uninterp spec fn at(&self, i: int) -> Seq<f32>;
    #[verifier::external_body] pub fn nrows(&self) -> (r: usize) ensures r == self.rows() { unimplemented!() }
    #[verifier::external_body] pub fn row(&self, i: usize) -> (r: ArrayRow) requires i < self.rows() ensures r.v() == self.at(i as int) { unimplemented!() }
}
#[verifier::external_body] pub struct ArrayRow { p: u8 }
impl ArrayRow {
    pub uninterp spec fn v(&self) -> Seq<f32>;
    #[verifier::external_body] pub fn as_slice(&self) -> (r: Option<&[f32]>) ensures r is Some ==> r->0@ == self.v() { unimplemented!() }
    #[verifier::external_body] pub fn to_vec(&self) -> (r: Vec<f32>) ensures r@ == self.v() { unimplemented!() }
}
pub open spec fn answers_row<D, T, F: Fn(&CoverTreeReader<D>, &&[f32]) -> T>(f: F, r: CoverTreeReader<D>, row: Seq<f32>, a: T) -> bool { exists|s: &[f32]| s@ == row && #[trigger] f.ensures((&r, &s), a) }
pub open spec fn goodr<D, T, F: Fn(&CoverTreeReader<D>, &&[f32]) -> T>(f: F, r: CoverTreeReader<D>, v: ArrayView2, q: Seq<usize>, a: Seq<T>) -> bool { a.len() == q.len() && forall|i: int| 0 <= i < a.len() ==> answers_row(f, r, v.at(q[i] as int), #[trigger] a[i]) }
pub open spec fn kp_and<D: PointCloud, T, F: Fn(&CoverTreeReader<D>, GokoResult<Vec<(f32, NodeAddress)>>) -> T>(f: F, reader: CoverTreeReader<D>, i: usize, r: T) -> bool { exists|a: GokoResult<Vec<(f32, NodeAddress)>>| reader.known_path_is(i, a) && #[trigger] f.ensures((&reader, a), r) }
/// the k-th piece of c elements
pub open spec fn piece<X>(v: Seq<X>, c: int, k: int) -> Seq<X> { v.subrange(k * c, imin(k * c + c, v.len() as int)) }
pub open spec fn goodp<D, P, T, F: Fn(&CoverTreeReader<D>, &P) -> T>(f: F, r: CoverTreeReader<D>, q: Seq<P>, a: Seq<T>) -> bool { a.len() == q.len() && forall|i: int| 0 <= i < a.len() ==> f.ensures((&r, &q[i]), #[trigger] a[i]) }
/// one answer of f per query, in order
pub open spec fn good<D, T, F: Fn(&CoverTreeReader<D>, usize) -> T>(f: F, r: CoverTreeReader<D>, q: Seq<usize>, a: Seq<T>) -> bool { a.len() == q.len() && forall|i: int| 0 <= i < a.len() ==> f.ensures((&r, q[i]), #[trigger] a[i]) }
broadcast use {fl::ax_mk, fl::ax_mk2};
//@ struct goko/src/query_interface/mod.rs BulkInterface
//@ end
impl<D: PointCloud> BulkInterface<D> {
//@ fn goko/src/query_interface/mod.rs BulkInterface::new
//@ spec
    ensures res.reader == reader
//@ end
//@ fn goko/src/query_interface/mod.rs BulkInterface::index_map_with_reader
//@ loops 3
//@ subst let mut __acc4 = Vec => let mut __acc4 : Vec<T> = Vec
//@ subst let mut __acc7 = None => let mut __acc7 : Option<Vec<T>> = None
//@ spec
    requires forall|r: &CoverTreeReader<D>, i: usize| f.requires((r, i))
    ensures res@.len() == point_indexes@.len(), forall|i: int| 0 <= i < res@.len() ==> f.ensures((&self.reader, point_indexes@[i]), #[trigger] res@[i])
//@ loop 0
    invariant it0.seq().len() == chunks_of(point_indexes@.len() as int, 100), forall|k: int| 0 <= k < it0.seq().len() ==> (#[trigger] it0.seq()[k]).1 == self.reader && it0.seq()[k].0@ == piece(point_indexes@, 100, k),
        __acc1@.len() == it0.index@, forall|k: int| 0 <= k < it0.index@ ==> good(f, self.reader, piece(point_indexes@, 100, k), #[trigger] __acc1@[k]@),
//@ loop 1
    invariant reader == self.reader, it1.seq().len() == chunk_indexes@.len(), forall|k: int| 0 <= k < chunk_indexes@.len() ==> *(#[trigger] it1.seq()[k]) == chunk_indexes@[k], __acc4@.len() == it1.index@, forall|k: int| 0 <= k < __acc4@.len() ==> f.ensures((&self.reader, chunk_indexes@[k]), #[trigger] __acc4@[k])
//@ loopbefore 2
    let ghost parts = chunked_results@;
//@ loop 2
    invariant it2.seq() == parts, parts.len() == chunks_of(point_indexes@.len() as int, 100), forall|k: int| 0 <= k < parts.len() ==> good(f, self.reader, piece(point_indexes@, 100, k), #[trigger] parts[k]@),
        it2.index@ == 0 ==> __acc7 is None, it2.index@ > 0 ==> __acc7 is Some && good(f, self.reader, point_indexes@.subrange(0, imin(it2.index@ * 100, point_indexes@.len() as int)), __acc7->0@)
//@ end
//@ fn goko/src/query_interface/mod.rs BulkInterface::point_map_with_reader
//@ loops 3
//@ subst let mut __acc4 = Vec => let mut __acc4 : Vec<T> = Vec
//@ subst let mut __acc7 = None => let mut __acc7 : Option<Vec<T>> = None
//@ spec
    requires forall|r: &CoverTreeReader<D>, i: &P| f.requires((r, i))
    ensures res@.len() == points@.len(), forall|i: int| 0 <= i < res@.len() ==> f.ensures((&self.reader, &points@[i]), #[trigger] res@[i])
//@ loop 0
    invariant it0.seq().len() == chunks_of(points@.len() as int, 100), forall|k: int| 0 <= k < it0.seq().len() ==> (#[trigger] it0.seq()[k]).1 == self.reader && it0.seq()[k].0@ == piece(points@, 100, k),
        __acc1@.len() == it0.index@, forall|k: int| 0 <= k < it0.index@ ==> goodp(f, self.reader, piece(points@, 100, k), #[trigger] __acc1@[k]@),
//@ loop 1
    invariant reader == self.reader, it1.seq().len() == chunk_points@.len(), forall|k: int| 0 <= k < chunk_points@.len() ==> *(#[trigger] it1.seq()[k]) == chunk_points@[k], __acc4@.len() == it1.index@, forall|k: int| 0 <= k < __acc4@.len() ==> f.ensures((&self.reader, &chunk_points@[k]), #[trigger] __acc4@[k])
//@ loopbefore 2
    let ghost parts = chunked_results@;
//@ loop 2
    invariant it2.seq() == parts, parts.len() == chunks_of(points@.len() as int, 100), forall|k: int| 0 <= k < parts.len() ==> goodp(f, self.reader, piece(points@, 100, k), #[trigger] parts[k]@),
        it2.index@ == 0 ==> __acc7 is None, it2.index@ > 0 ==> __acc7 is Some && goodp(f, self.reader, points@.subrange(0, imin(it2.index@ * 100, points@.len() as int)), __acc7->0@)
//@ end
//@ fn goko/src/query_interface/mod.rs BulkInterface::known_path
//@ closure 0
    |reader: &CoverTreeReader<D>, i: usize| -> (r: GokoResult<Vec<(f32, NodeAddress)>>) ensures reader.known_path_is(i, r)
//@ spec
    ensures res@.len() == point_indexes@.len(), forall|i: int| 0 <= i < res@.len() ==> self.reader.known_path_is(point_indexes@[i], #[trigger] res@[i])
//@ end
//@ fn goko/src/query_interface/mod.rs BulkInterface::path
//@ closure 0
    |reader: &CoverTreeReader<D>, p: &P| -> (r: GokoResult<Vec<(f32, NodeAddress)>>) ensures reader.path_is(*p, r)
//@ spec
    ensures res@.len() == points@.len(), forall|i: int| 0 <= i < res@.len() ==> self.reader.path_is(points@[i], #[trigger] res@[i])
//@ end
//@ fn goko/src/query_interface/mod.rs BulkInterface::knn
//@ closure 0
    |reader: &CoverTreeReader<D>, p: &P| -> (r: GokoResult<Vec<(f32, usize)>>) ensures reader.knn_is(*p, k, r)
//@ spec
    ensures res@.len() == points@.len(), forall|i: int| 0 <= i < res@.len() ==> self.reader.knn_is(points@[i], k, #[trigger] res@[i])
//@ end
//@ fn goko/src/query_interface/mod.rs BulkInterface::routing_knn
//@ closure 0
    |reader: &CoverTreeReader<D>, p: &P| -> (r: GokoResult<Vec<(f32, usize)>>) ensures reader.routing_knn_is(*p, k, r)
//@ spec
    ensures res@.len() == points@.len(), forall|i: int| 0 <= i < res@.len() ==> self.reader.routing_knn_is(points@[i], k, #[trigger] res@[i])
//@ end
//@ fn goko/src/query_interface/mod.rs BulkInterface::known_path_and
//@ closure 0
    |reader: &CoverTreeReader<D>, i: usize| -> (r: T) ensures kp_and(f, *reader, i, r)
//@ spec
    requires forall|r: &CoverTreeReader<D>, a: GokoResult<Vec<(f32, NodeAddress)>>| f.requires((r, a))
    ensures res@.len() == point_indexes@.len(), forall|i: int| 0 <= i < res@.len() ==> kp_and(f, self.reader, point_indexes@[i], #[trigger] res@[i])
//@ end
//@ fn goko/src/query_interface/mod.rs BulkInterface::array_map_with_reader
//@ sig
    pub fn array_map_with_reader<F, T>(&self, points: ArrayView2, f: F) -> (res: Vec<T>) where F: Fn(&CoverTreeReader<D>, &&[f32]) -> T
//@ loops 4
//@ subst let mut __acc6 = Vec => let mut __acc6 : Vec<T> = Vec
//@ subst let mut __acc9 = None => let mut __acc9 : Option<Vec<T>> = None
//@ spec
    requires forall|r: &CoverTreeReader<D>, i: &&[f32]| f.requires((r, i))
    ensures res@.len() == points.rows(), forall|i: int| 0 <= i < res@.len() ==> answers_row(f, self.reader, points.at(i), #[trigger] res@[i])
//@ loop 0
    invariant __acc1@.len() == __s2, forall|i: int| 0 <= i < __s2 ==> #[trigger] __acc1@[i] == i
//@ loop 1
    invariant indexes@.len() == points.rows(), forall|i: int| 0 <= i < indexes@.len() ==> #[trigger] indexes@[i] == i, it1.seq().len() == chunks_of(indexes@.len() as int, 100), forall|k: int| 0 <= k < it1.seq().len() ==> (#[trigger] it1.seq()[k]).1 == self.reader && it1.seq()[k].0@ == piece(indexes@, 100, k),
        __acc3@.len() == it1.index@, forall|k: int| 0 <= k < it1.index@ ==> goodr(f, self.reader, points, piece(indexes@, 100, k), #[trigger] __acc3@[k]@),
//@ loop 2
    invariant reader == self.reader, it2.seq().len() == chunk_points@.len(), forall|k: int| 0 <= k < chunk_points@.len() ==> *(#[trigger] it2.seq()[k]) == chunk_points@[k], forall|k: int| 0 <= k < chunk_points@.len() ==> (#[trigger] chunk_points@[k]) < points.rows(), __acc6@.len() == it2.index@, goodr(f, self.reader, points, chunk_points@.subrange(0, it2.index@ as int), __acc6@)
//@ loopbefore 3
    let ghost parts = chunked_results@;
//@ loop 3
    invariant it3.seq() == parts, parts.len() == chunks_of(indexes@.len() as int, 100), forall|k: int| 0 <= k < parts.len() ==> goodr(f, self.reader, points, piece(indexes@, 100, k), #[trigger] parts[k]@),
        it3.index@ == 0 ==> __acc9 is None, it3.index@ > 0 ==> __acc9 is Some && goodr(f, self.reader, points, indexes@.subrange(0, imin(it3.index@ * 100, indexes@.len() as int)), __acc9->0@)
//@ end
}
} // verus!
fn main() {}
