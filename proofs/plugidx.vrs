//@ include prelude.vrs
//@ include coll.vrs
// =====================================================================================
// UNIT plugidx: the list of points a node covers
// =====================================================================================
//@ gsubst SmallVec < [NodeAddress; 10] > => Vec < NodeAddress >
//@ gsubst SmallVec < [usize; 20] > => Vec < usize >
//@ gsubst NodePluginSet => Opaque
//@ gsubst PhantomData < D > => Ghost < Option < D > >
//@ gsubst Self :: NodeComponent => CoverageIndexes
//@ gsubst Arc < Vec < usize > > => Vec < usize >
pub type NodeAddress = (i32, usize);
#[verifier::external_body] pub struct Opaque { x: usize }
pub trait PointCloud: Sized { }
//@ include plug_tree.vrs
//@ struct goko/src/plugins/utils.rs CoverageIndexes
//@ end
//@ struct goko/src/plugins/utils.rs GokoCoverageIndexes
//@ end
impl<D: PointCloud> CoverTreeReader<D> {
    pub uninterp spec fn comp(&self, a: NodeAddress) -> Option<CoverageIndexes>;
    #[verifier::external_body] pub fn get_node_plugin_ref(&self, a: NodeAddress) -> (r: Option<&CoverageIndexes>) ensures (r is Some) == (self.comp(a) is Some), r is Some ==> *r->0 == self.comp(a)->0 { unimplemented!() }
}
impl CoverageIndexes {
//@ fn goko/src/plugins/utils.rs CoverageIndexes::point_indexes
//@ subst self . pis . as_ref ( ) => self . pis . as_slice ( )
//@ spec
    ensures res@ == self.pis@
//@ end
}
impl GokoCoverageIndexes {
//@ fn goko/src/plugins/utils.rs GokoCoverageIndexes::restricted
//@ spec
    ensures res.max == max
//@ end
//@ fn goko/src/plugins/utils.rs GokoCoverageIndexes::new
//@ spec
    ensures res.max == usize::MAX
//@ end
//@ fn goko/src/plugins/utils.rs GokoCoverageIndexes as GokoPlugin::node_component
//@ opt extend
//@ subst Arc :: new ( indexes ) => indexes
//@ sig
pub fn node_component<D: PointCloud>(parameters: &Self, my_node: &CoverNode<D>, my_tree: &CoverTreeReader<D>) -> (res: Option<CoverageIndexes>)
//@ spec
    requires
        my_node.coverage_count == stored(my_tree, my_node).len(),
        forall|a: NodeAddress| #[trigger] is_child(my_node, a) ==> lists_points(my_tree.comp(a), cov(my_tree, a), parameters.max),
    ensures lists_points(res, stored(my_tree, my_node), parameters.max),
//@ start
    let ghost sg = my_node.singles_indexes@;
    proof { l_child_len(my_tree, my_node); }
//@ loop 0
    invariant it0.seq().len() == child_addresses@.len(), forall|j: int| 0 <= j < it0.seq().len() ==> *(#[trigger] it0.seq()[j]) == child_addresses@[j],
        my_node.children is Some, child_addresses@ == my_node.children->0.addresses@, nested_scale == my_node.children->0.nested_scale,
        indexes@.to_multiset() == (sg + cov(my_tree, (nested_scale, my_node.address.1)) + covs(my_tree, child_addresses@, it0.index())).to_multiset(),
//@ loopstart 0
    let ghost i0 = indexes@;
    proof { assert(is_child(my_node, *ca)) by { assert(child_addresses@[it0.index()] == *ca); } }
//@ loopend 0
    proof { let a = sg + cov(my_tree, (nested_scale, my_node.address.1)); let c = covs(my_tree, child_addresses@, it0.index()); let b = cov(my_tree, *ca);
        assert(a + (c + b) =~= (a + c) + b); l_ms(a + c, b); l_ms(i0, my_tree.comp(*ca)->0.pis@); }
//@ after let mut indexes
    proof { assert(indexes@ =~= sg); }
//@ before for ca in
    proof { let b = cov(my_tree, (nested_scale, my_node.address.1)); assert(is_child(my_node, (nested_scale, my_node.address.1))); l_ms(sg, b); l_ms(sg, my_tree.comp((nested_scale, my_node.address.1))->0.pis@);
        assert(sg + b + covs(my_tree, child_addresses@, 0) =~= sg + b); }
//@ end
}
pub proof fn l_ms(a: Seq<usize>, b: Seq<usize>) ensures (a + b).to_multiset() == a.to_multiset().add(b.to_multiset()) { vstd::seq_lib::lemma_multiset_commutative(a, b); }
/// c is the list of exactly these points, each as often as it occurs; absent only from max points on
pub open spec fn lists_points(c: Option<CoverageIndexes>, ps: Seq<usize>, max: usize) -> bool { (c is Some) == (ps.len() < max) && (c is Some ==> c->0.pis@.to_multiset() == ps.to_multiset()) }
} // verus!
fn main() {}
