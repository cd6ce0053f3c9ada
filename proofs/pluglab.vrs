//@ include prelude.vrs
//@ include coll.vrs
//@ include summ_body.vrs
// =====================================================================================
// UNIT pluglab: label and metadata summaries of nodes
// =====================================================================================
//@ gsubst SmallVec < [NodeAddress; 10] > => Vec < NodeAddress >
//@ gsubst SmallVec < [usize; 20] > => Vec < usize >
//@ gsubst NodePluginSet => Opaque
//@ gsubst PhantomData < D > => Ghost < Option < D > >
//@ gsubst Arc < SummaryCounter < T > > => SummaryCounter < T >
pub type NodeAddress = (i32, usize);
#[verifier::external_body] pub struct Opaque { x: usize }
/// CONTRACT of the labelled cloud (decided by P15, P16 and P18): label(i) is a function of i, label_summary the summary of exactly these lookups
pub trait PcSpec: Sized {
    type Label; type LabelSummary: Summary<Label = Self::Label>; type Metadata; type MetaSummary: Summary<Label = Self::Metadata>;
    spec fn label_s(&self, i: int) -> PointCloudResult<Option<&Self::Label>>;
    spec fn meta_s(&self, i: int) -> PointCloudResult<Option<&Self::Metadata>>;
    spec fn valid(&self, i: int) -> bool;
}
pub trait PointCloud: PcSpec {
    fn label(&self, i: usize) -> (r: PointCloudResult<Option<&Self::Label>>) ensures r == self.label_s(i as int);
    fn metadata(&self, i: usize) -> (r: PointCloudResult<Option<&Self::Metadata>>) ensures r == self.meta_s(i as int);
    fn label_summary(&self, pns: &[usize]) -> (r: PointCloudResult<SummaryCounter<Self::LabelSummary>>)
        ensures (forall|j: int| 0 <= j < pns@.len() ==> self.valid(#[trigger] pns@[j] as int)) ==> r is Ok, r is Ok ==> r->Ok_0.of(lseen(self, pns@));
    fn metasummary(&self, pns: &[usize]) -> (r: PointCloudResult<SummaryCounter<Self::MetaSummary>>)
        ensures (forall|j: int| 0 <= j < pns@.len() ==> self.valid(#[trigger] pns@[j] as int)) ==> r is Ok, r is Ok ==> r->Ok_0.of(mseen(self, pns@));
}
pub open spec fn lseen<D: PcSpec>(d: &D, ps: Seq<usize>) -> Seq<Obs<<D::LabelSummary as Summary>::G>> { Seq::new(ps.len(), |i: int| obs::<D::LabelSummary>(d.label_s(ps[i] as int))) }
pub open spec fn mseen<D: PcSpec>(d: &D, ps: Seq<usize>) -> Seq<Obs<<D::MetaSummary as Summary>::G>> { Seq::new(ps.len(), |i: int| obs::<D::MetaSummary>(d.meta_s(ps[i] as int))) }
/// a summary of at most n of the cloud's own labels has room: machine integers do not overflow, vectors agree in dimension
pub open spec fn lroomy<D: PcSpec>(d: &D, n: int) -> bool {
    &&& forall|s: D::LabelSummary, ps: Seq<usize>, i: usize| #![trigger s.desc(vals(lseen(d, ps))), d.label_s(i as int)] s.desc(vals(lseen(d, ps))) && ps.len() < n && d.label_s(i as int) is Ok && d.label_s(i as int)->Ok_0 is Some ==> s.can_add(d.label_s(i as int)->Ok_0->0)
    &&& forall|s: D::LabelSummary, ps: Seq<usize>, o: D::LabelSummary, qs: Seq<usize>| #![trigger s.desc(vals(lseen(d, ps))), o.desc(vals(lseen(d, qs)))] s.desc(vals(lseen(d, ps))) && o.desc(vals(lseen(d, qs))) && ps.len() + qs.len() <= n ==> s.can_combine(&o)
}
/// a summary of at most n of the cloud's own metadata has room: machine integers do not overflow, vectors agree in dimension
pub open spec fn mroomy<D: PcSpec>(d: &D, n: int) -> bool {
    &&& forall|s: D::MetaSummary, ps: Seq<usize>, i: usize| #![trigger s.desc(vals(mseen(d, ps))), d.meta_s(i as int)] s.desc(vals(mseen(d, ps))) && ps.len() < n && d.meta_s(i as int) is Ok && d.meta_s(i as int)->Ok_0 is Some ==> s.can_add(d.meta_s(i as int)->Ok_0->0)
    &&& forall|s: D::MetaSummary, ps: Seq<usize>, o: D::MetaSummary, qs: Seq<usize>| #![trigger s.desc(vals(mseen(d, ps))), o.desc(vals(mseen(d, qs)))] s.desc(vals(mseen(d, ps))) && o.desc(vals(mseen(d, qs))) && ps.len() + qs.len() <= n ==> s.can_combine(&o)
}
//@ include plug_tree.vrs
pub struct CoverTreeParameters<D> { pub point_cloud: D }
impl<D: PointCloud> CoverTreeReader<D> {
    pub uninterp spec fn cloud(&self) -> D;
    #[verifier::external_body] pub fn parameters(&self) -> (r: &CoverTreeParameters<D>) ensures r.point_cloud == self.cloud() { unimplemented!() }
}
#[verifier::external] impl core::fmt::Debug for PointCloudError { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
pub struct LabelSummaryPlugin {}
//@ struct goko/src/plugins/labels.rs NodeLabelSummary
//@ subst Summary + Clone => Summary
//@ end
impl<D: PointCloud> CoverTreeReader<D> {
    pub uninterp spec fn lab(&self, a: NodeAddress) -> Option<NodeLabelSummary<D::LabelSummary>>;
    #[verifier::external_body] pub fn get_lab_ref(&self, a: NodeAddress) -> (r: Option<&NodeLabelSummary<D::LabelSummary>>) ensures (r is Some) == (self.lab(a) is Some), r is Some ==> *r->0 == self.lab(a)->0 { unimplemented!() }
}
impl LabelSummaryPlugin {
//@ fn goko/src/plugins/labels.rs LabelSummaryPlugin as GokoPlugin::node_component
//@ subst get_node_plugin_ref => get_lab_ref
//@ subst p . summary . as_ref ( ) => & p . summary
//@ subst Arc :: new ( bucket ) => bucket
//@ sig
pub fn node_component<D: PointCloud>(parameters: &Self, my_node: &CoverNode<D>, my_tree: &CoverTreeReader<D>) -> (res: Option<NodeLabelSummary<D::LabelSummary>>)
//@ spec
    requires
        lroomy(&my_tree.cloud(), stored(my_tree, my_node).len() as int), stored(my_tree, my_node).len() < usize::MAX,
        forall|j: int| 0 <= j < my_node.singles_indexes@.len() ==> my_tree.cloud().valid(#[trigger] my_node.singles_indexes@[j] as int),
        forall|a: NodeAddress| #[trigger] is_child(my_node, a) ==> my_tree.lab(a) is Some && my_tree.lab(a)->0.summary.of(lseen(&my_tree.cloud(), cov(my_tree, a))),
    ensures res is Some, res->0.summary.of(lseen(&my_tree.cloud(), stored(my_tree, my_node))),
//@ start
    let ghost sg = my_node.singles_indexes@; let ghost dd = my_tree.cloud(); let ghost na = (my_node.children->0.nested_scale, my_node.address.1);
    proof { assert(my_node.children is Some ==> is_child(my_node, na)); }
//@ after let mut bucket
    proof { let o = lseen(&dd, sg); l_obs_len(o); assert(bucket.of(o)); assert(bucket.summary.desc(vals(o)));
        if my_node.children is Some { let b = cov(my_tree, na); let k = my_node.children->0.addresses@; l_obs_len(lseen(&dd, b)); assert((sg + b).len() <= stored(my_tree, my_node).len()); }
        else { assert(lseen(&dd, sg.push(my_node.address.1)) =~= o.push(obs::<D::LabelSummary>(dd.label_s(my_node.address.1 as int)))); } }
//@ before for ca in
    proof { let b = cov(my_tree, na); assert(lseen(&dd, sg + b + covs(my_tree, child_addresses@, 0)) =~= lseen(&dd, sg) + lseen(&dd, b)); }
//@ loop 0
    invariant it0.seq().len() == child_addresses@.len(), forall|j: int| 0 <= j < it0.seq().len() ==> *(#[trigger] it0.seq()[j]) == child_addresses@[j],
        my_node.children is Some, child_addresses@ == my_node.children->0.addresses@, nested_scale == my_node.children->0.nested_scale,
        bucket.of(lseen(&dd, sg + cov(my_tree, na) + covs(my_tree, child_addresses@, it0.index()))),
//@ loopstart 0
    proof { let k = it0.index(); assert(child_addresses@[k] == *ca); assert(is_child(my_node, *ca)); let c = sg + cov(my_tree, na) + covs(my_tree, child_addresses@, k); let b = cov(my_tree, *ca);
        l_covs_mono(my_tree, child_addresses@, k + 1, child_addresses@.len() as int); assert(sg + cov(my_tree, na) + covs(my_tree, child_addresses@, k + 1) =~= c + b);
        assert(lseen(&dd, c + b) =~= lseen(&dd, c) + lseen(&dd, b)); l_obs_len(lseen(&dd, c)); l_obs_len(lseen(&dd, b)); assert(bucket.summary.desc(vals(lseen(&dd, c)))); }
//@ end
}
pub struct MetaSummaryPlugin {}
//@ struct goko/src/plugins/labels.rs NodeMetaSummary
//@ subst Summary + Clone => Summary
//@ end
impl<D: PointCloud> CoverTreeReader<D> {
    pub uninterp spec fn met(&self, a: NodeAddress) -> Option<NodeMetaSummary<D::MetaSummary>>;
    #[verifier::external_body] pub fn get_met_ref(&self, a: NodeAddress) -> (r: Option<&NodeMetaSummary<D::MetaSummary>>) ensures (r is Some) == (self.met(a) is Some), r is Some ==> *r->0 == self.met(a)->0 { unimplemented!() }
}
impl MetaSummaryPlugin {
//@ fn goko/src/plugins/labels.rs MetaSummaryPlugin as GokoPlugin::node_component
//@ subst get_node_plugin_ref => get_met_ref
//@ subst p . summary . as_ref ( ) => & p . summary
//@ subst Arc :: new ( bucket ) => bucket
//@ sig
pub fn node_component<D: PointCloud>(parameters: &Self, my_node: &CoverNode<D>, my_tree: &CoverTreeReader<D>) -> (res: Option<NodeMetaSummary<D::MetaSummary>>)
//@ spec
    requires
        mroomy(&my_tree.cloud(), stored(my_tree, my_node).len() as int), stored(my_tree, my_node).len() < usize::MAX,
        forall|j: int| 0 <= j < my_node.singles_indexes@.len() ==> my_tree.cloud().valid(#[trigger] my_node.singles_indexes@[j] as int),
        forall|a: NodeAddress| #[trigger] is_child(my_node, a) ==> my_tree.met(a) is Some && my_tree.met(a)->0.summary.of(mseen(&my_tree.cloud(), cov(my_tree, a))),
    ensures res is Some, res->0.summary.of(mseen(&my_tree.cloud(), stored(my_tree, my_node))),
//@ start
    let ghost sg = my_node.singles_indexes@; let ghost dd = my_tree.cloud(); let ghost na = (my_node.children->0.nested_scale, my_node.address.1);
    proof { assert(my_node.children is Some ==> is_child(my_node, na)); }
//@ after let mut bucket
    proof { let o = mseen(&dd, sg); l_obs_len(o); assert(bucket.of(o)); assert(bucket.summary.desc(vals(o)));
        if my_node.children is Some { let b = cov(my_tree, na); let k = my_node.children->0.addresses@; l_obs_len(mseen(&dd, b)); assert((sg + b).len() <= stored(my_tree, my_node).len()); }
        else { assert(mseen(&dd, sg.push(my_node.address.1)) =~= o.push(obs::<D::MetaSummary>(dd.meta_s(my_node.address.1 as int)))); } }
//@ before for ca in
    proof { let b = cov(my_tree, na); assert(mseen(&dd, sg + b + covs(my_tree, child_addresses@, 0)) =~= mseen(&dd, sg) + mseen(&dd, b)); }
//@ loop 0
    invariant it0.seq().len() == child_addresses@.len(), forall|j: int| 0 <= j < it0.seq().len() ==> *(#[trigger] it0.seq()[j]) == child_addresses@[j],
        my_node.children is Some, child_addresses@ == my_node.children->0.addresses@, nested_scale == my_node.children->0.nested_scale,
        bucket.of(mseen(&dd, sg + cov(my_tree, na) + covs(my_tree, child_addresses@, it0.index()))),
//@ loopstart 0
    proof { let k = it0.index(); assert(child_addresses@[k] == *ca); assert(is_child(my_node, *ca)); let c = sg + cov(my_tree, na) + covs(my_tree, child_addresses@, k); let b = cov(my_tree, *ca);
        l_covs_mono(my_tree, child_addresses@, k + 1, child_addresses@.len() as int); assert(sg + cov(my_tree, na) + covs(my_tree, child_addresses@, k + 1) =~= c + b);
        assert(mseen(&dd, c + b) =~= mseen(&dd, c) + mseen(&dd, b)); l_obs_len(mseen(&dd, c)); l_obs_len(mseen(&dd, b)); assert(bucket.summary.desc(vals(mseen(&dd, c)))); }
//@ end
}
} // verus!
fn main() {}
