//@ include prelude.vrs
//@ include coll.vrs
//@ gsubst PI => f32_PI()
//@ gsubst SmallVec < [NodeAddress; 10] > => Vec < NodeAddress >
//@ gsubst SmallVec < [usize; 20] > => Vec < usize >
//@ gsubst NodePluginSet => Opaque
//@ gsubst PhantomData < D > => Ghost < Option < D > >
//@ include gauss_body.vrs
// =====================================================================================
// UNIT pluggauss: Gaussian moments of nodes
// =====================================================================================
pub type NodeAddress = (i32, usize);
#[verifier::external_body] pub struct Opaque { x: usize }
#[derive(Debug)] pub struct PointCloudError { }
pub type PointCloudResult<T> = Result<T, PointCloudError>;
/// CONTRACT of the point cloud (decided by P15 and P16): point(i) has fixed coordinates, the moments are coordinate-wise sums over the indexes given
pub trait PcSpec: Sized { spec fn d(&self) -> int; spec fn valid(&self, i: int) -> bool; spec fn row(&self, i: int) -> Seq<f32>; }
pub trait PointCloud: PcSpec {
    type Ref: PointRef;
    fn point(&self, i: usize) -> (r: PointCloudResult<Self::Ref>) ensures self.valid(i as int) ==> r is Ok && r->Ok_0.vw() == self.row(i as int) && self.row(i as int).len() == self.d();
    fn moment_1(&self, ix: &[usize]) -> (r: PointCloudResult<Vec<f32>>)
        ensures (forall|j: int| 0 <= j < ix@.len() ==> self.valid(#[trigger] ix@[j] as int)) ==> r is Ok && r->Ok_0@.len() == self.d() && forall|c: int| 0 <= c < self.d() ==> (#[trigger] r->Ok_0@[c])@ == m1(rows(self, ix@), c);
    fn moment_2(&self, ix: &[usize]) -> (r: PointCloudResult<Vec<f32>>)
        ensures (forall|j: int| 0 <= j < ix@.len() ==> self.valid(#[trigger] ix@[j] as int)) ==> r is Ok && r->Ok_0@.len() == self.d() && forall|c: int| 0 <= c < self.d() ==> (#[trigger] r->Ok_0@[c])@ == m2(rows(self, ix@), c);
}
pub open spec fn rows<D: PcSpec>(d: &D, ps: Seq<usize>) -> Seq<Seq<f32>> { Seq::new(ps.len(), |i: int| d.row(ps[i] as int)) }
//@ include plug_tree.vrs
pub struct CoverTreeParameters<D> { pub point_cloud: D }
impl<D: PointCloud> CoverTreeReader<D> {
    pub uninterp spec fn cloud(&self) -> D;
    #[verifier::external_body] pub fn parameters(&self) -> (r: &CoverTreeParameters<D>) ensures r.point_cloud == self.cloud() { unimplemented!() }
    pub uninterp spec fn comp(&self, a: NodeAddress) -> Option<DiagGaussian>;
    #[verifier::external_body] pub fn get_node_plugin_ref(&self, a: NodeAddress) -> (r: Option<&DiagGaussian>) ensures (r is Some) == (self.comp(a) is Some), r is Some ==> *r->0 == self.comp(a)->0 { unimplemented!() }
}
//@ struct goko/src/plugins/gaussians/diag_gaussian.rs GokoDiagGaussian
//@ end
impl GokoDiagGaussian {
//@ fn goko/src/plugins/gaussians/diag_gaussian.rs GokoDiagGaussian::recursive
//@ spec
    ensures res.recursive
//@ end
//@ fn goko/src/plugins/gaussians/diag_gaussian.rs GokoDiagGaussian::singletons
//@ spec
    ensures !res.recursive
//@ end
//@ fn goko/src/plugins/gaussians/diag_gaussian.rs GokoDiagGaussian as GokoPlugin::node_component
//@ sig
pub fn node_component<D: PointCloud>(parameters: &Self, my_node: &CoverNode<D>, my_tree: &CoverTreeReader<D>) -> (res: Option<DiagGaussian>)
//@ spec
    requires
        0 <= my_tree.cloud().d() <= usize::MAX, stored(my_tree, my_node).len() < usize::MAX, my_tree.cloud().valid(my_node.address.1 as int),
        forall|j: int| 0 <= j < my_node.singles_indexes@.len() ==> my_tree.cloud().valid(#[trigger] my_node.singles_indexes@[j] as int) && my_tree.cloud().row(my_node.singles_indexes@[j] as int).len() == my_tree.cloud().d(),
        parameters.recursive ==> forall|a: NodeAddress| #[trigger] is_child(my_node, a) ==> my_tree.comp(a) is Some && my_tree.comp(a)->0.moment1@.len() == my_tree.cloud().d() && describes(my_tree.comp(a)->0, rows(&my_tree.cloud(), cov(my_tree, a))),
    ensures res is Some, res->0.moment1@.len() == my_tree.cloud().d(),
        parameters.recursive || my_node.children is None ==> describes(res->0, rows(&my_tree.cloud(), stored(my_tree, my_node))),
        !parameters.recursive && my_node.children is Some ==> describes(res->0, rows(&my_tree.cloud(), my_node.singles_indexes@)),
//@ start
    let ghost sg = my_node.singles_indexes@; let ghost dd = my_tree.cloud(); let ghost na = (my_node.children->0.nested_scale, my_node.address.1);
    proof { assert(my_node.children is Some ==> is_child(my_node, na)); assert(sg.len() <= stored(my_tree, my_node).len()); }
//@ after let mut my_dg
    proof { assert(describes(my_dg, rows(&dd, sg)));
        if my_node.children is Some { assert((sg + cov(my_tree, na)).len() <= stored(my_tree, my_node).len()); assert(rows(&dd, cov(my_tree, na)).len() == cov(my_tree, na).len()); }
        else { assert(rows(&dd, sg.push(my_node.address.1)) =~= rows(&dd, sg).push(dd.row(my_node.address.1 as int))); } }
//@ before for ca in
    proof { let b = cov(my_tree, na); assert(rows(&dd, sg + b + covs(my_tree, child_addresses@, 0)) =~= rows(&dd, sg) + rows(&dd, b)); }
//@ loop 0
    invariant it0.seq().len() == child_addresses@.len(), forall|j: int| 0 <= j < it0.seq().len() ==> *(#[trigger] it0.seq()[j]) == child_addresses@[j],
        my_node.children is Some, child_addresses@ == my_node.children->0.addresses@, nested_scale == my_node.children->0.nested_scale, my_dg.moment1@.len() == dd.d(),
        describes(my_dg, rows(&dd, sg + cov(my_tree, na) + covs(my_tree, child_addresses@, it0.index()))),
//@ loopstart 0
    proof { let k = it0.index(); assert(child_addresses@[k] == *ca); assert(is_child(my_node, *ca)); let c = sg + cov(my_tree, na) + covs(my_tree, child_addresses@, k); let b = cov(my_tree, *ca);
        l_covs_mono(my_tree, child_addresses@, k + 1, child_addresses@.len() as int); assert(sg + cov(my_tree, na) + covs(my_tree, child_addresses@, k + 1) =~= c + b);
        assert(rows(&dd, c + b) =~= rows(&dd, c) + rows(&dd, b)); assert(rows(&dd, c).len() == c.len() && rows(&dd, b).len() == b.len()); }
//@ end
}
} // verus!
fn main() {}
