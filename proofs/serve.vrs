//@ include prelude.vrs
//@ include coll.vrs
// =====================================================================================
// UNIT serve: the query server answers each request from the tree, with the request's own parameters
// =====================================================================================
//@ gsubst Arc < RwLock < HashMap < String, InternalServiceOperator < TrackingRequest < T >, TrackingResponse > > > > => HashMap < Name, InternalServiceOperator < D, T > >
//@ gsubst Arc < InternalServiceOperator < TrackingRequest < T >, TrackingResponse > > => InternalServiceOperator < D, T >
//@ gsubst String::new() => Name::empty()
//@ gsubst String => Name
//@ gsubst f64 => f32
//@ gsubst L : Summary + Clone => L
//@ gsubst L : Summary => L
//@ gsubst T : Send + 'static => T
pub type NodeAddress = (i32, usize);
pub type Path = Vec<(f32, NodeAddress)>;
pub enum GokoError { PointCloudError, IndexNotInTree(usize) }
pub type GokoResult<T> = Result<T, GokoError>;
/// TRUSTED: a string, read as a value
#[verifier::external_body] pub struct Name { x: usize }
impl Name {
    pub uninterp spec fn none() -> Name;
    #[verifier::external_body] pub fn empty() -> (r: Name) ensures r == Name::none() { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: Name) ensures r == *self { unimplemented!() }
}
#[verifier::external_body] #[verifier::reject_recursive_types(L)] pub struct SummaryCounter<L> { x: Option<L> }
impl<L> SummaryCounter<L> { #[verifier::external_body] pub fn clone(&self) -> (r: SummaryCounter<L>) ensures r == *self { unimplemented!() } }
// ---------------------------------------------------------------- CONTRACT of the tree (decided by P04 - P06, P12): its answers to queries
pub uninterp spec fn t_knn<D, T>(tree: CoverTreeReader<D>, q: T, k: usize) -> Option<Seq<(f32, usize)>>;
pub uninterp spec fn t_routing<D, T>(tree: CoverTreeReader<D>, q: T, k: usize) -> Option<Seq<(f32, usize)>>;
pub uninterp spec fn t_path<D, T>(tree: CoverTreeReader<D>, q: T) -> Option<Seq<(f32, NodeAddress)>>;
pub uninterp spec fn t_summary<D: PointCloud>(tree: CoverTreeReader<D>, a: NodeAddress) -> Option<SummaryCounter<D::LabelSummary>>;
pub trait PcSpec: Sized { spec fn named(&self, i: usize) -> Option<Name>; }
pub trait PointCloud: PcSpec {
    type LabelSummary;
    fn name(&self, i: usize) -> (r: GokoResult<Name>) ensures (r is Ok) == (self.named(i) is Some), r is Ok ==> r->Ok_0 == self.named(i)->0;
}
pub enum PartitionType { Nearest, First }
impl Copy for PartitionType {}
impl Clone for PartitionType { #[verifier::external_body] fn clone(&self) -> (r: PartitionType) ensures r == *self { unimplemented!() } }
pub struct CoverTreeParameters<D> { pub scale_base: f32, pub leaf_cutoff: usize, pub min_res_index: i32, pub use_singletons: bool, pub partition_type: PartitionType, pub verbosity: u32, pub rng_seed: Option<u64>, pub point_cloud: D }
#[verifier::external_body] #[verifier::reject_recursive_types(D)] pub struct CoverTreeReader<D> { x: Option<D> }
impl<D: PointCloud> CoverTreeReader<D> {
    pub uninterp spec fn params(&self) -> CoverTreeParameters<D>;
    #[verifier::external_body] pub fn parameters(&self) -> (r: &CoverTreeParameters<D>) ensures *r == self.params() { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn knn<T>(&self, q: &T, k: usize) -> (r: GokoResult<Vec<(f32, usize)>>) ensures (r is Ok) == (t_knn(*self, *q, k) is Some), r is Ok ==> r->Ok_0@ == t_knn(*self, *q, k)->0 { unimplemented!() }
    #[verifier::external_body] pub fn routing_knn<T>(&self, q: &T, k: usize) -> (r: GokoResult<Vec<(f32, usize)>>) ensures (r is Ok) == (t_routing(*self, *q, k) is Some), r is Ok ==> r->Ok_0@ == t_routing(*self, *q, k)->0 { unimplemented!() }
    #[verifier::external_body] pub fn path<T>(&self, q: &T) -> (r: GokoResult<Path>) ensures (r is Ok) == (t_path(*self, *q) is Some), r is Ok ==> r->Ok_0@ == t_path(*self, *q)->0 { unimplemented!() }
    #[verifier::external_body] pub fn get_node_label_summary(&self, a: NodeAddress) -> (r: Option<&SummaryCounter<D::LabelSummary>>) ensures (r is Some) == (t_summary(*self, a) is Some), r is Some ==> *r->0 == t_summary(*self, a)->0 { unimplemented!() }
}
#[verifier::external_body] pub fn clone_path(p: &Path) -> (r: Path) ensures r@ == p@ { unimplemented!() }
// ---------------------------------------------------------------- CONTRACT of the trackers (decided by P11)
pub struct Stats { pub max: f32, pub min: f32, pub nz_count: u64, pub moment1_nz: f32, pub moment2_nz: f32, pub sequence_len: usize }
/// the paths a tracker was given, in order
pub type Hist = Seq<Seq<(f32, NodeAddress)>>;
pub uninterp spec fn h_kl<D>(tree: CoverTreeReader<D>, w: usize, h: Hist) -> f32;
pub uninterp spec fn h_stats<D>(tree: CoverTreeReader<D>, w: usize, h: Hist) -> Stats;
#[verifier::external_body] #[verifier::reject_recursive_types(D)] pub struct BayesCategoricalTracker<D> { x: Option<D> }
impl<D: PointCloud> BayesCategoricalTracker<D> {
    pub uninterp spec fn hist(&self) -> Hist;
    pub uninterp spec fn window(&self) -> usize;
    pub uninterp spec fn tree(&self) -> CoverTreeReader<D>;
    #[verifier::external_body] pub fn new(w: usize, reader: CoverTreeReader<D>) -> (r: Self) ensures r.hist() == Seq::<Seq<(f32, NodeAddress)>>::empty(), r.window() == w, r.tree() == reader { unimplemented!() }
    #[verifier::external_body] pub fn add_path(&mut self, p: Path) ensures final(self).hist() == old(self).hist().push(p@), final(self).window() == old(self).window(), final(self).tree() == old(self).tree() { unimplemented!() }
    #[verifier::external_body] pub fn kl_div(&self) -> (r: f32) ensures r == h_kl(self.tree(), self.window(), self.hist()) { unimplemented!() }
    #[verifier::external_body] pub fn kl_div_stats(&self) -> (r: Stats) ensures r == h_stats(self.tree(), self.window(), self.hist()) { unimplemented!() }
}
impl<K, V> HashMap<K, V> {
    #[verifier::external_body] pub fn values_mut(&mut self) -> (r: Vec<&mut V>)
        ensures mlists(old(self).ord(), old(self)@), r@.len() == old(self).ord().len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == old(self).ord()[i].1,
            final(self)@.dom() == old(self)@.dom(), forall|i: int| #![trigger r@[i]] #![trigger old(self).ord()[i]] 0 <= i < r@.len() ==> final(self)@[old(self).ord()[i].0] == *final(r@[i]) { unimplemented!() }
}
broadcast use {fl::ax_mk, fl::ax_mk2};
#[verifier::external_body] #[verifier::reject_recursive_types(T)] #[verifier::reject_recursive_types(D)] pub struct InternalServiceOperator<D, T> { x: Option<(D, T)> }
pub enum InternalServiceError { Other(GokoError), FailedSend, FailedRecv }
impl InternalServiceError { #[verifier::external_body] pub fn from(e: GokoError) -> (r: InternalServiceError) ensures r == InternalServiceError::Other(e) { unimplemented!() } }
//@ struct serve_goko/src/api/knn.rs KnnRequest
//@ end
//@ struct serve_goko/src/api/knn.rs KnnResponse
//@ end
//@ struct serve_goko/src/api/knn.rs RoutingKnnRequest
//@ end
//@ struct serve_goko/src/api/knn.rs RoutingKnnResponse
//@ end
//@ struct serve_goko/src/api/path.rs PathRequest
//@ end
//@ struct serve_goko/src/api/path.rs PathResponse
//@ attr #[verifier::reject_recursive_types(L)]
//@ end
//@ struct serve_goko/src/api/parameters.rs ParametersRequest
//@ end
//@ struct serve_goko/src/api/parameters.rs ParametersResponse
//@ end
//@ struct serve_goko/src/api/tracker.rs TrackPointRequest
//@ end
//@ struct serve_goko/src/api/tracker.rs TrackPathRequest
//@ end
//@ struct serve_goko/src/api/tracker.rs TrackPathResponse
//@ end
//@ struct serve_goko/src/api/tracker.rs AddTrackerRequest
//@ end
//@ struct serve_goko/src/api/tracker.rs AddTrackerResponse
//@ end
//@ struct serve_goko/src/api/tracker.rs CurrentStatsRequest
//@ end
//@ struct serve_goko/src/api/tracker.rs CurrentStatsResponse
//@ end
//@ struct serve_goko/src/api/tracker.rs TrackerWorker
//@ attr #[verifier::reject_recursive_types(D)]
//@ end
//@ struct serve_goko/src/api/mod.rs GokoRequest
//@ end
//@ struct serve_goko/src/api/mod.rs TrackingRequest
//@ end
//@ struct serve_goko/src/api/mod.rs TrackingRequestChoice
//@ end
//@ struct serve_goko/src/api/mod.rs GokoResponse
//@ attr #[verifier::reject_recursive_types(L)]
//@ end
//@ struct serve_goko/src/api/mod.rs TrackingResponse
//@ end
//@ struct serve_goko/src/api/mod.rs NamedDistance
//@ end
//@ struct serve_goko/src/api/mod.rs NodeDistance
//@ attr #[verifier::reject_recursive_types(L)]
//@ end
//@ struct serve_goko/src/core/mod.rs CoreReader
//@ attr #[verifier::reject_recursive_types(D)] #[verifier::reject_recursive_types(T)]
//@ end
// ---------------------------------------------------------------- answers
/// the neighbours v under their names
pub open spec fn names_of<D: PointCloud>(pc: D, v: Seq<(f32, usize)>, r: Seq<NamedDistance>) -> bool {
    r.len() == v.len() && forall|i: int| 0 <= i < v.len() ==> pc.named((#[trigger] v[i]).1) is Some && r[i].name == pc.named(v[i].1)->0 && r[i].distance == v[i].0
}
pub open spec fn all_named<D: PointCloud>(pc: D, v: Seq<(f32, usize)>) -> bool { forall|i: int| 0 <= i < v.len() ==> pc.named((#[trigger] v[i]).1) is Some }
pub open spec fn knn_answer<D: PointCloud>(pc: D, a: Option<Seq<(f32, usize)>>, r: Option<Seq<NamedDistance>>) -> bool {
    &&& r is Some == (a is Some && all_named(pc, a->0))
    &&& r is Some ==> names_of(pc, a->0, r->0)
}
pub open spec fn path_answer<D: PointCloud>(tree: CoverTreeReader<D>, v: Seq<(f32, NodeAddress)>, r: Seq<NodeDistance<D::LabelSummary>>) -> bool {
    r.len() == v.len() && forall|i: int| 0 <= i < v.len() ==> tree.params().point_cloud.named((#[trigger] v[i]).1.1) is Some && r[i].name == tree.params().point_cloud.named(v[i].1.1)->0 && r[i].layer == v[i].1.0 && r[i].distance == v[i].0 && r[i].label_summary == t_summary(tree, v[i].1)
}
pub open spec fn all_named_path<D: PointCloud>(pc: D, v: Seq<(f32, NodeAddress)>) -> bool { forall|i: int| 0 <= i < v.len() ==> pc.named((#[trigger] v[i]).1.1) is Some }
proof fn l_names<D: PointCloud>(pc: D, v: Seq<(f32, usize)>, x: (f32, usize), a: Seq<NamedDistance>, b: Seq<NamedDistance>)
    requires names_of(pc, v, a), b.len() == a.len() + 1, b.drop_last() == a, pc.named(x.1) is Some, b.last().name == pc.named(x.1)->0, b.last().distance == x.0
    ensures names_of(pc, v.push(x), b)
{ let w = v.push(x); assert forall|i: int| 0 <= i < w.len() implies pc.named((#[trigger] w[i]).1) is Some && b[i].name == pc.named(w[i].1)->0 && b[i].distance == w[i].0 by { if i < v.len() { assert(w[i] == v[i]); assert(b[i] == a[i]); } } }
proof fn l_steps<D: PointCloud>(tree: CoverTreeReader<D>, v: Seq<(f32, NodeAddress)>, x: (f32, NodeAddress), a: Seq<NodeDistance<D::LabelSummary>>, b: Seq<NodeDistance<D::LabelSummary>>)
    requires path_answer(tree, v, a), b.len() == a.len() + 1, b.drop_last() == a, path_answer(tree, seq![x], seq![b.last()])
    ensures path_answer(tree, v.push(x), b)
{ let w = v.push(x); assert(seq![x][0] == x); assert(seq![b.last()][0] == b.last()); assert forall|i: int| 0 <= i < w.len() implies tree.params().point_cloud.named((#[trigger] w[i]).1.1) is Some && b[i].name == tree.params().point_cloud.named(w[i].1.1)->0 && b[i].layer == w[i].1.0 && b[i].distance == w[i].0 && b[i].label_summary == t_summary(tree, w[i].1) by { if i < v.len() { assert(w[i] == v[i]); assert(b[i] == a[i]); } } }
impl<T> KnnRequest<T> {
//@ fn serve_goko/src/api/knn.rs KnnRequest::process
//@ subst let mut __acc1 = Vec => let mut __acc1 : Vec < NamedDistance > = Vec
//@ loop 0
    invariant it0.seq().len() == knn@.len(), forall|i: int| 0 <= i < knn@.len() ==> *(#[trigger] it0.seq()[i]) == knn@[i], *pc == reader.tree.params().point_cloud, names_of(*pc, knn@.take(it0.index() as int), __acc1@),
//@ loopstart 0
    let ghost at = it0.index() as int;
    assert(it0.seq()[at] == it0.seq()[at]); assert(knn@[at] == (*distance, *pi)); assert(knn@.take(at + 1) =~= knn@.take(at).push(knn@[at]));
    let ghost acc0 = __acc1@;
//@ loopend 0
    assert(__acc1@.drop_last() =~= acc0); proof { l_names(*pc, knn@.take(at), knn@[at], acc0, __acc1@); }
//@ loopafter 0
    assert(knn@.take(knn@.len() as int) =~= knn@);
//@ sig
    pub fn process<D: PointCloud>(self, reader: &mut CoreReader<D, T>) -> (res: Result<KnnResponse, GokoError>)
//@ spec
    ensures *final(reader) == *old(reader), knn_answer(old(reader).tree.params().point_cloud, t_knn(old(reader).tree, self.point, self.k), match res { Ok(r) => Some(r.knn@), Err(_) => None }),
//@ end
}
impl<T> RoutingKnnRequest<T> {
//@ fn serve_goko/src/api/knn.rs RoutingKnnRequest::process
//@ subst let mut __acc1 = Vec => let mut __acc1 : Vec < NamedDistance > = Vec
//@ loop 0
    invariant it0.seq().len() == knn@.len(), forall|i: int| 0 <= i < knn@.len() ==> *(#[trigger] it0.seq()[i]) == knn@[i], *pc == reader.tree.params().point_cloud, names_of(*pc, knn@.take(it0.index() as int), __acc1@),
//@ loopstart 0
    let ghost at = it0.index() as int;
    assert(it0.seq()[at] == it0.seq()[at]); assert(knn@[at] == (*distance, *pi)); assert(knn@.take(at + 1) =~= knn@.take(at).push(knn@[at]));
    let ghost acc0 = __acc1@;
//@ loopend 0
    assert(__acc1@.drop_last() =~= acc0); proof { l_names(*pc, knn@.take(at), knn@[at], acc0, __acc1@); }
//@ loopafter 0
    assert(knn@.take(knn@.len() as int) =~= knn@);
//@ sig
    pub fn process<D: PointCloud>(self, reader: &CoreReader<D, T>) -> (res: Result<RoutingKnnResponse, GokoError>)
//@ spec
    ensures knn_answer(reader.tree.params().point_cloud, t_routing(reader.tree, self.point, self.k), match res { Ok(r) => Some(r.routing_knn@), Err(_) => None }),
//@ end
}
impl<T> PathRequest<T> {
//@ fn serve_goko/src/api/path.rs PathRequest::process
//@ subst let mut __acc1 = Vec => let mut __acc1 : Vec < NodeDistance < D :: LabelSummary > > = Vec
//@ loop 0
    invariant it0.seq().len() == knn@.len(), forall|i: int| 0 <= i < knn@.len() ==> *(#[trigger] it0.seq()[i]) == knn@[i], *pc == reader.tree.params().point_cloud, path_answer(reader.tree, knn@.take(it0.index() as int), __acc1@),
//@ loopstart 0
    let ghost at = it0.index() as int;
    assert(it0.seq()[at] == it0.seq()[at]); assert(knn@[at] == (*distance, (*layer, *pi))); assert(knn@.take(at + 1) =~= knn@.take(at).push(knn@[at]));
    let ghost acc0 = __acc1@;
//@ loopend 0
    assert(__acc1@.drop_last() =~= acc0); proof { l_steps(reader.tree, knn@.take(at), knn@[at], acc0, __acc1@); }
//@ loopafter 0
    assert(knn@.take(knn@.len() as int) =~= knn@);
//@ sig
    pub fn process<D: PointCloud>(self, reader: &mut CoreReader<D, T>) -> (res: Result<PathResponse<D::LabelSummary>, GokoError>)
//@ spec
    ensures *final(reader) == *old(reader), (res is Ok) == (t_path(old(reader).tree, self.point) is Some && all_named_path(old(reader).tree.params().point_cloud, t_path(old(reader).tree, self.point)->0)),
        res is Ok ==> path_answer(old(reader).tree, t_path(old(reader).tree, self.point)->0, res->Ok_0.path@),
//@ end
}
pub open spec fn same_parameters<D: PointCloud>(p: CoverTreeParameters<D>, r: ParametersResponse) -> bool {
    r.scale_base == p.scale_base && r.leaf_cutoff == p.leaf_cutoff && r.min_res_index == p.min_res_index && r.use_singletons == p.use_singletons && r.partition_type == p.partition_type && r.verbosity == p.verbosity && r.rng_seed == p.rng_seed
}
impl ParametersRequest {
//@ fn serve_goko/src/api/parameters.rs ParametersRequest::process
//@ sig
    pub fn process<D: PointCloud, T>(self, reader: &mut CoreReader<D, T>) -> (res: Result<ParametersResponse, GokoError>)
//@ spec
    ensures *final(reader) == *old(reader), res is Ok, same_parameters(old(reader).tree.params(), res->Ok_0),
//@ end
}
// ---------------------------------------------------------------- trackers
/// what a worker holds: for every window size, the paths given to that tracker
use TrackingRequestChoice::*;
pub type Held = Map<usize, Hist>;
pub open spec fn held<D: PointCloud>(w: TrackerWorker<D>) -> Held { Map::new(w.trackers@.dom(), |k: usize| w.trackers@[k].hist()) }
pub open spec fn winv<D: PointCloud>(w: TrackerWorker<D>) -> bool { forall|k: usize| #[trigger] w.trackers@.dom().contains(k) ==> w.trackers@[k].window() == k && w.trackers@[k].tree() == w.reader }
/// every tracker is given the path p
pub open spec fn fed(h: Held, p: Seq<(f32, NodeAddress)>) -> Held { Map::new(h.dom(), |k: usize| h[k].push(p)) }
pub open spec fn stats_answer<D: PointCloud>(tree: CoverTreeReader<D>, w: usize, h: Hist, r: CurrentStatsResponse) -> bool {
    let s = h_stats(tree, w, h);
    r.kl_div == h_kl(tree, w, h) && r.max == s.max && r.min == s.min && r.nz_count == s.nz_count && r.moment1_nz == s.moment1_nz && r.moment2_nz == s.moment2_nz && r.sequence_len == s.sequence_len
}
/// one tracking request served: what is held before and after, and the answer
pub open spec fn served<D: PointCloud, T>(tree: CoverTreeReader<D>, a: Held, q: TrackingRequest<T>, r: Option<TrackingResponse>, b: Held) -> bool {
    match q.request {
        TrackingRequestChoice::TrackPoint(p) => match t_path(tree, p.point) {
            None => r is None && b == a,
            Some(path) => b == fed(a, path) && r == Some(TrackingResponse::TrackPath(TrackPathResponse { success: a.dom() != Set::<usize>::empty() })),
        },
        TrackingRequestChoice::TrackPath(p) => b == fed(a, p.path@) && r == Some(TrackingResponse::TrackPath(TrackPathResponse { success: true })),
        TrackingRequestChoice::AddTracker(p) => b == (if a.dom().contains(p.window_size) { a } else { a.insert(p.window_size, Seq::empty()) }) && r == Some(TrackingResponse::AddTracker(AddTrackerResponse { success: !a.dom().contains(p.window_size) })),
        TrackingRequestChoice::CurrentStats(p) => b == a && r is Some && (if a.dom().contains(p.window_size) { r->0 is CurrentStats && stats_answer(tree, p.window_size, a[p.window_size], r->0->CurrentStats_0) } else { r->0 == TrackingResponse::Unknown(q.tracker_name, Some(p.window_size)) }),
    }
}
pub open spec fn fed_one<D: PointCloud>(a: BayesCategoricalTracker<D>, b: BayesCategoricalTracker<D>, p: Seq<(f32, NodeAddress)>) -> bool { b.hist() == a.hist().push(p) && b.window() == a.window() && b.tree() == a.tree() }
proof fn l_fed<D: PointCloud>(a: TrackerWorker<D>, b: TrackerWorker<D>, p: Seq<(f32, NodeAddress)>)
    requires winv(a), b.reader == a.reader, b.trackers@.dom() == a.trackers@.dom(), mlists(a.trackers.ord(), a.trackers@), forall|i: int| 0 <= i < a.trackers.ord().len() ==> fed_one((#[trigger] a.trackers.ord()[i]).1, b.trackers@[a.trackers.ord()[i].0], p)
    ensures winv(b), held(b) == fed(held(a), p)
{
    assert forall|k: usize| #[trigger] b.trackers@.dom().contains(k) implies fed_one(a.trackers@[k], b.trackers@[k], p) by { let i = choose|i: int| 0 <= i < a.trackers.ord().len() && a.trackers.ord()[i].0 == k; assert(a.trackers.ord()[i].1 == a.trackers@[k]); }
    assert(held(b) =~= fed(held(a), p));
}
proof fn l_none<D: PointCloud>(b: TrackerWorker<D>, h: Held) requires b.trackers@.dom() == h.dom() ensures (b.trackers@ == Map::<usize, BayesCategoricalTracker<D>>::empty()) == (h.dom() == Set::<usize>::empty())
{ if h.dom() == Set::<usize>::empty() { assert(b.trackers@ =~= Map::empty()); } else { if b.trackers@ == Map::<usize, BayesCategoricalTracker<D>>::empty() { assert(h.dom() =~= Set::empty()); } } }
#[verifier::external_body] pub fn clone_name(n: &Option<Name>) -> (r: Option<Name>) ensures r == *n { unimplemented!() }
pub open spec fn okr<S, E>(r: Result<S, E>) -> Option<S> { match r { Ok(x) => Some(x), Err(_) => None } }
impl<D: PointCloud> TrackerWorker<D> {
//@ fn serve_goko/src/api/tracker.rs TrackerWorker::new
//@ spec
    ensures res.reader == reader, held(res) == Map::<usize, Hist>::empty(), winv(res),
//@ finish
    assert(held(res) =~= Map::empty());
//@ end
//@ fn serve_goko/src/api/tracker.rs TrackerWorker as InternalService<TrackingRequest<T>, TrackingResponse>::process
//@ sig
    fn process<T>(&mut self, request: TrackingRequest<T>) -> (res: Result<TrackingResponse, GokoError>)
//@ subst (path . clone ()) => (clone_path(& path))
//@ subst req . path . clone () => clone_path(& req . path)
//@ subst request . tracker_name . clone () => clone_name(& request . tracker_name)
//@ start
    let ghost h0 = held(*self); let ghost q0 = request; let ghost m0 = self.trackers; let ghost tree = self.reader;
//@ loop 0
    invariant it0.seq().len() == m0.ord().len(), mlists(m0.ord(), m0@), winv(*old(self)), m0 == old(self).trackers, old(self).reader == tree, 
        forall|i: int| 0 <= i < m0.ord().len() ==> it0.index() <= i ==> *(#[trigger] it0.seq()[i]) == m0.ord()[i].1,
        forall|i: int| 0 <= i < it0.index() ==> fed_one(m0.ord()[i].1, *final(#[trigger] it0.seq()[i]), path@),
//@ loop 1
    invariant it1.seq().len() == m0.ord().len(), mlists(m0.ord(), m0@), winv(*old(self)), m0 == old(self).trackers, old(self).reader == tree, 
        forall|i: int| 0 <= i < m0.ord().len() ==> it1.index() <= i ==> *(#[trigger] it1.seq()[i]) == m0.ord()[i].1,
        forall|i: int| 0 <= i < it1.index() ==> fed_one(m0.ord()[i].1, *final(#[trigger] it1.seq()[i]), req.path@),
//@ loopafter 0
    proof { l_fed(*old(self), *self, path@); l_none(*self, h0); }
//@ loopafter 1
    proof { l_fed(*old(self), *self, req.path@); }
//@ finish
    proof { if q0.request is AddTracker || q0.request is CurrentStats { assert(held(*self) =~= (if q0.request is CurrentStats || h0.dom().contains(q0.request->AddTracker_0.window_size) { h0 } else { h0.insert(q0.request->AddTracker_0.window_size, Seq::empty()) })); } }
//@ spec
    requires winv(*old(self)),
    ensures winv(*final(self)), final(self).reader == old(self).reader, served(old(self).reader, held(*old(self)), request, okr(res), held(*final(self))),
//@ end
}
/// TRUSTED: a worker behind its channel: each message is served by the worker's `process` (above), one at a time, in the order sent
impl<D: PointCloud, T> InternalServiceOperator<D, T> {
    pub uninterp spec fn holds(&self) -> Held;
    pub uninterp spec fn tree(&self) -> CoverTreeReader<D>;
    #[verifier::external_body] pub fn message(&mut self, q: TrackingRequest<T>) -> (r: Result<TrackingResponse, InternalServiceError>)
        ensures served(old(self).tree(), old(self).holds(), q, okr(r), final(self).holds()), final(self).tree() == old(self).tree() { unimplemented!() }
}
#[verifier::external_body] pub fn operator<D: PointCloud, T>(reader: CoverTreeReader<D>) -> (r: InternalServiceOperator<D, T>) ensures r.holds() == Map::<usize, Hist>::empty(), r.tree() == reader { unimplemented!() }
// ---------------------------------------------------------------- the requests
pub open spec fn cinv<D: PointCloud, T>(c: CoreReader<D, T>) -> bool { c.main_tracker.tree() == c.tree && forall|n: Name| #[trigger] c.trackers@.dom().contains(n) ==> c.trackers@[n].tree() == c.tree }
/// the named trackers and what they hold
pub open spec fn shelf<D: PointCloud, T>(c: CoreReader<D, T>) -> Map<Name, Held> { Map::new(c.trackers@.dom(), |n: Name| c.trackers@[n].holds()) }
pub open spec fn opened(a: Map<Name, Held>, n: Name, add: bool) -> Map<Name, Held> { if add && !a.dom().contains(n) { a.insert(n, Map::empty()) } else { a } }
/// one request answered
pub open spec fn answered<D: PointCloud, T>(a: CoreReader<D, T>, q: GokoRequest<T>, r: Option<GokoResponse<D::LabelSummary>>, b: CoreReader<D, T>) -> bool {
    let pc = a.tree.params().point_cloud;
    b.tree == a.tree && match q {
        GokoRequest::Parameters(_) => b == a && r is Some && r->0 is Parameters && same_parameters(a.tree.params(), r->0->Parameters_0),
        GokoRequest::Knn(p) => b == a && (r is Some ==> r->0 is Knn) && knn_answer(pc, t_knn(a.tree, p.point, p.k), match r { Some(x) => Some(x->Knn_0.knn@), None => None }),
        GokoRequest::RoutingKnn(p) => b == a && (r is Some ==> r->0 is RoutingKnn) && knn_answer(pc, t_routing(a.tree, p.point, p.k), match r { Some(x) => Some(x->RoutingKnn_0.routing_knn@), None => None }),
        GokoRequest::Path(p) => b == a && (r is Some) == (t_path(a.tree, p.point) is Some && all_named_path(pc, t_path(a.tree, p.point)->0)) && (r is Some ==> r->0 is Path && path_answer(a.tree, t_path(a.tree, p.point)->0, r->0->Path_0.path@)),
        GokoRequest::Unknown(s, c) => b == a && r is Some && r->0 == GokoResponse::<D::LabelSummary>::Unknown(s, c),
        GokoRequest::Tracking(t) => match t.tracker_name {
            None => b.trackers == a.trackers && (r is Some ==> r->0 is Tracking) && served(a.tree, a.main_tracker.holds(), t, match r { Some(x) => Some(x->Tracking_0), None => None }, b.main_tracker.holds()),
            Some(n) => {
                let o = opened(shelf(a), n, t.request is AddTracker);
                b.main_tracker == a.main_tracker && (r is Some ==> r->0 is Tracking)
                && (if o.dom().contains(n) { served(a.tree, o[n], t, match r { Some(x) => Some(x->Tracking_0), None => None }, shelf(b)[n]) && shelf(b) == o.insert(n, shelf(b)[n]) }
                    else { shelf(b) == shelf(a) && r is Some && r->0 == GokoResponse::<D::LabelSummary>::Tracking(TrackingResponse::Unknown(Some(n), None)) })
            }
        },
    }
}
impl<D: PointCloud, P> CoreReader<D, P> {
//@ fn serve_goko/src/api/mod.rs CoreReader::process
//@ opt result_map
//@ subst e . into () => InternalServiceError::from(e)
//@ subst self . trackers . write () . => self . trackers .
//@ subst self . trackers . read () . get (tracker_name) => self . trackers . get_mut (tracker_name)
//@ subst TrackerWorker :: operator => operator
//@ start
    let ghost a = *self; let ghost q = request; let ghost o = match q { GokoRequest::Tracking(t) => opened(shelf(a), t.tracker_name->0, t.request is AddTracker), _ => shelf(a) };
//@ finish
    proof { if q is Tracking && q->Tracking_0.tracker_name is Some { let n = q->Tracking_0.tracker_name->0; if o.dom().contains(n) { assert(shelf(*self) =~= o.insert(n, shelf(*self)[n])); } else { assert(shelf(*self) =~= shelf(a)); } } }
//@ sig
    pub fn process(&mut self, request: GokoRequest<P>) -> (res: Result<GokoResponse<D::LabelSummary>, InternalServiceError>)
//@ spec
    requires cinv(*old(self)),
    ensures cinv(*final(self)), answered(*old(self), request, okr(res), *final(self)),
//@ end
}
// ---------------------------------------------------------------- HTTP
/// TRUSTED: the HTTP request as hyper presents it
#[verifier::external_body] pub struct Request { x: usize }
#[verifier::external_body] pub struct Uri { x: usize }
pub enum Method { GET, POST, Other }
impl Method { pub fn veq(&self, o: &Method) -> (r: bool) ensures r == (*self == *o) { match (self, o) { (Method::GET, Method::GET) => true, (Method::POST, Method::POST) => true, (Method::Other, Method::Other) => true, _ => false } } }
impl Request {
    pub uninterp spec fn m(&self) -> Method;
    pub uninterp spec fn u(&self) -> Uri;
    #[verifier::external_body] pub fn method(&self) -> (r: &Method) ensures *r == self.m() { unimplemented!() }
    #[verifier::external_body] pub fn uri(&self) -> (r: &Uri) ensures *r == self.u() { unimplemented!() }
}
#[verifier::external_body] pub fn str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
/// what a parameter of the query says: nothing, something unreadable, or a value
pub enum Param<V> { Absent, Unreadable, Is(V) }
pub uninterp spec fn query_of(u: Uri) -> Option<Seq<char>>;
pub uninterp spec fn k_in(s: Seq<char>) -> Option<Caps>;
pub uninterp spec fn window_in(s: Seq<char>) -> Option<Caps>;
pub uninterp spec fn name_in(s: Seq<char>) -> Option<Caps>;
pub open spec fn k_of(u: Uri) -> Param<usize> { match query_of(u) { None => Param::Absent, Some(s) => as_num(k_in(s)) } }
pub open spec fn window_of(u: Uri) -> Param<usize> { match query_of(u) { None => Param::Absent, Some(s) => as_num(window_in(s)) } }
pub open spec fn name_of(u: Uri) -> Param<Name> { match query_of(u) { None => Param::Absent, Some(s) => as_text(name_in(s)) } }
pub assume_specification<T> [Option::<Option<T>>::flatten] (o: Option<Option<T>>) -> (r: Option<T>) ensures r == (match o { Some(x) => x, None => None::<T> });
/// TRUSTED: the regular expressions (each finds its parameter) and the number parser; the replay decides them
#[verifier::external_body] pub struct Caps { x: usize }
impl Caps {
    pub uninterp spec fn num(&self) -> Option<usize>;
    pub uninterp spec fn text(&self) -> Option<Name>;
    #[verifier::external_body] pub fn parse_num(&self) -> (r: Option<usize>) ensures r == self.num() { unimplemented!() }
    #[verifier::external_body] pub fn parse_text(&self) -> (r: Option<Name>) ensures r == self.text() { unimplemented!() }
}
pub open spec fn as_num(c: Option<Caps>) -> Param<usize> { match c { None => Param::Absent, Some(c) => match c.num() { None => Param::Unreadable, Some(v) => Param::Is(v) } } }
pub open spec fn as_text(c: Option<Caps>) -> Param<Name> { match c { None => Param::Absent, Some(c) => match c.text() { None => Param::Unreadable, Some(v) => Param::Is(v) } } }
#[verifier::external_body] pub fn find_k(s: &str) -> (r: Option<Caps>) ensures r == k_in(s@) { unimplemented!() }
#[verifier::external_body] pub fn find_window(s: &str) -> (r: Option<Caps>) ensures r == window_in(s@) { unimplemented!() }
#[verifier::external_body] pub fn find_name(s: &str) -> (r: Option<Caps>) ensures r == name_in(s@) { unimplemented!() }
pub enum GokoClientError { Underlying(InternalServiceError), MalformedQuery(&'static str), Http, Parse, MissingBody }
/// CONTRACT of the body parser: a function of the request alone
pub trait PointParser: Sized { type Point; }
pub uninterp spec fn point_of<P: PointParser>(q: Request) -> Option<P::Point>;
#[verifier::external_body] #[verifier::reject_recursive_types(P)] pub struct PointBuffer<P> { x: Option<P> }
impl<P: PointParser> PointBuffer<P> {
    #[verifier::external_body] pub fn point(&mut self, q: Request) -> (r: Result<P::Point, GokoClientError>) ensures okr(r) == point_of::<P>(q) { unimplemented!() }
}
pub open spec fn num_or(p: Param<usize>, d: usize) -> Option<usize> { match p { Param::Absent => Some(d), Param::Unreadable => None, Param::Is(v) => Some(v) } }
pub open spec fn val<V>(p: Param<V>) -> Option<V> { match p { Param::Is(v) => Some(v), _ => None } }
/// the operation a request names; None: it is malformed
pub open spec fn routed<P: PointParser>(q: Request) -> Option<GokoRequest<P::Point>> {
    let p = path_of(q.u()); let pt = point_of::<P>(q); let k = num_or(k_of(q.u()), 10); let w = val(window_of(q.u())); let n = val(name_of(q.u()));
    if q.m() == Method::GET && p == "/"@ { Some(GokoRequest::Parameters(ParametersRequest)) }
    else if q.m() == Method::GET && p == "/knn"@ { if k is Some && pt is Some { Some(GokoRequest::Knn(KnnRequest { point: pt->0, k: k->0 })) } else { None } }
    else if q.m() == Method::GET && p == "/routing_knn"@ { if k is Some && pt is Some { Some(GokoRequest::RoutingKnn(RoutingKnnRequest { point: pt->0, k: k->0 })) } else { None } }
    else if q.m() == Method::GET && p == "/path"@ { if pt is Some { Some(GokoRequest::Path(PathRequest { point: pt->0 })) } else { None } }
    else if q.m() == Method::POST && p == "/track/add"@ { if w is Some { Some(GokoRequest::Tracking(TrackingRequest { tracker_name: n, request: TrackingRequestChoice::AddTracker(AddTrackerRequest { window_size: w->0 }) })) } else { None } }
    else if q.m() == Method::POST && p == "/track/point"@ { if pt is Some { Some(GokoRequest::Tracking(TrackingRequest { tracker_name: n, request: TrackingRequestChoice::TrackPoint(TrackPointRequest { point: pt->0 }) })) } else { None } }
    else if q.m() == Method::GET && p == "/track/stats"@ { if w is Some { Some(GokoRequest::Tracking(TrackingRequest { tracker_name: n, request: TrackingRequestChoice::CurrentStats(CurrentStatsRequest { window_size: w->0 }) })) } else { None } }
    else { Some(GokoRequest::Unknown(Name::none(), 404)) }
}
pub uninterp spec fn path_of(u: Uri) -> Seq<char>;
impl Uri { #[verifier::external_body] pub fn query(&self) -> (r: Option<&str>) ensures (r is Some) == (query_of(*self) is Some), r is Some ==> r->0@ == query_of(*self)->0 { unimplemented!() }
    #[verifier::external_body] pub fn path(&self) -> (r: &str) ensures r@ == path_of(*self) { unimplemented!() } }
//@ fn serve_goko/src/http/service.rs parse_knn_query
//@ subst RE . captures => find_k
//@ subst caps ["k"] . parse :: < usize > () . ok () => caps . parse_num ()
//@ spec
    ensures res == num_or(k_of(*uri), 10),
//@ end
//@ fn serve_goko/src/http/service.rs parse_tracker_query
//@ subst RE_TRACKER . captures => find_name
//@ subst RE_WINDOW . captures => find_window
//@ subst caps ["tracker_name"] . parse :: < Name > () . ok () => caps . parse_text ()
//@ subst caps ["window_size"] . parse :: < usize > () . ok () => caps . parse_num ()
//@ spec
    ensures res.0 == val(name_of(*uri)), res.1 == val(window_of(*uri)),
//@ end
//@ fn serve_goko/src/http/service.rs parse_http
//@ sig
    pub fn parse_http<P: PointParser>(request: Request, parser: &mut PointBuffer<P>) -> (res: Result<GokoRequest<P::Point>, GokoClientError>)
//@ spec
    ensures okr(res) == routed::<P>(request),
//@ end
/// an Unknown answer to a routed request has status 404 (what unit http assumes of `process`)
pub proof fn lemma_unknown<D: PointCloud, P: PointParser>(a: CoreReader<D, P::Point>, q: Request, x: GokoResponse<D::LabelSummary>, b: CoreReader<D, P::Point>)
    requires routed::<P>(q) is Some, answered(a, routed::<P>(q)->0, Some(x), b), x is Unknown
    ensures x->Unknown_1 == 404
{ }
} // verus!
fn main() {}
