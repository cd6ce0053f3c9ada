//@ include prelude.vrs
//@ include coll.vrs
// =====================================================================================
// UNIT plugdisc: how a node's points spread over its children
// =====================================================================================
//@ gsubst SmallVec < [NodeAddress; 10] > => Vec < NodeAddress >
//@ gsubst SmallVec < [usize; 20] > => Vec < usize >
//@ gsubst NodePluginSet => Opaque
//@ gsubst PhantomData < D > => Ghost < Option < D > >
//@ include discrete_body.vrs
#[verifier::external_body] pub struct Opaque { x: usize }
pub trait PointCloud: Sized { }
//@ include plug_tree.vrs
pub struct GokoCategorical {}
pub struct GokoDirichlet {}
/// points a category stands for: a child's own points, or (None) the points held by the node itself
pub open spec fn share<D: PointCloud>(t: &CoverTreeReader<D>, n: &CoverNode<D>, l: Option<NodeAddress>) -> real {
    match l { None => (n.singles_indexes@.len() + (if n.children is None { 1nat } else { 0 })) as real, Some(a) => if is_child(n, a) { cov(t, a).len() as real } else { 0real } }
}
pub open spec fn distinct(s: Seq<NodeAddress>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] != #[trigger] s[j] }
/// the children of a node have different addresses (property P03)
pub open spec fn kids_distinct<D: PointCloud>(n: &CoverNode<D>) -> bool { n.children is Some ==> distinct(n.children->0.addresses@) && !n.children->0.addresses@.contains((n.children->0.nested_scale, n.address.1)) }
pub open spec fn upto(s: Seq<NodeAddress>, a: NodeAddress, n: int) -> bool { exists|j: int| 0 <= j < n && #[trigger] s[j] == a }
impl<D: PointCloud> CoverTreeReader<D> {
    pub uninterp spec fn cat(&self, a: NodeAddress) -> Option<Categorical>;
    #[verifier::external_body] pub fn get_cat_ref(&self, a: NodeAddress) -> (r: Option<&Categorical>) ensures (r is Some) == (self.cat(a) is Some), r is Some ==> *r->0 == self.cat(a)->0 { unimplemented!() }
}
impl GokoCategorical {
//@ fn goko/src/plugins/discrete/categorical.rs GokoCategorical as GokoPlugin::node_component
//@ subst get_node_plugin_ref => get_cat_ref
//@ sig
pub fn node_component<D: PointCloud>(parameters: &Self, my_node: &CoverNode<D>, my_tree: &CoverTreeReader<D>) -> (res: Option<Categorical>)
//@ spec
    requires
        kids_distinct(my_node), my_node.singles_indexes@.len() < usize::MAX,
        forall|a: NodeAddress| #[trigger] is_child(my_node, a) ==> my_tree.cat(a) is Some && my_tree.cat(a)->0.wf() && my_tree.cat(a)->0.tot() == cov(my_tree, a).len() as real,
    ensures
        res is Some, res->0.wf(), res->0.tot() == stored(my_tree, my_node).len() as real,
        forall|l: Option<NodeAddress>| #[trigger] res->0.wt(l) == share(my_tree, my_node, l),
        forall|a: NodeAddress| #[trigger] hask(res->0.cc(), a) ==> is_child(my_node, a),
//@ loop 0
    invariant it0.seq().len() == child_addresses@.len(), forall|j: int| 0 <= j < it0.seq().len() ==> *(#[trigger] it0.seq()[j]) == child_addresses@[j],
        my_node.children is Some, child_addresses@ == my_node.children->0.addresses@, nested_scale == my_node.children->0.nested_scale,
        bucket.wf(),
        bucket.tot() == (cov(my_tree, na).len() + covs(my_tree, child_addresses@, it0.index()).len()) as real,
        bucket.wt(None) == 0real,
        forall|a: NodeAddress| #[trigger] bucket.wt(Some(a)) == (if a == na || upto(child_addresses@, a, it0.index()) { cov(my_tree, a).len() as real } else { 0real }),
        forall|a: NodeAddress| #[trigger] hask(bucket.cc(), a) ==> a == na || upto(child_addresses@, a, it0.index()),
//@ loopstart 0
    let ghost b0 = bucket; let ghost k = it0.index();
    proof { assert(child_addresses@[k] == *ca); assert(is_child(my_node, *ca)); }
//@ loopend 0
    proof {
        assert(!upto(child_addresses@, *ca, k));
        assert forall|a: NodeAddress| upto(child_addresses@, a, k + 1) == (upto(child_addresses@, a, k) || a == *ca) by {
            if upto(child_addresses@, a, k) { let j = choose|j: int| 0 <= j < k && #[trigger] child_addresses@[j] == a; assert(0 <= j < k + 1 && child_addresses@[j] == a); }
            if a == *ca { assert(0 <= k < k + 1 && child_addresses@[k] == a); }
        }
        assert forall|a: NodeAddress| #[trigger] bucket.wt(Some(a)) == (if a == na || upto(child_addresses@, a, k + 1) { cov(my_tree, a).len() as real } else { 0real }) by { assert(bucket.wt(Some(a)) == b0.wt(Some(a)) + (if Some(a) == Some(*ca) { cov(my_tree, *ca).len() as real } else { 0real })); }
    }
//@ start
    let ghost na = (my_node.children->0.nested_scale, my_node.address.1);
    proof { assert(my_node.children is Some ==> is_child(my_node, na)); }
//@ after#1 for ca in
    proof {
        let n = child_addresses@.len() as int;
        assert forall|a: NodeAddress| upto(child_addresses@, a, n) == child_addresses@.contains(a) by { if child_addresses@.contains(a) { let j = choose|j: int| 0 <= j < n && child_addresses@[j] == a; assert(0 <= j < n && child_addresses@[j] == a); } }
    }
//@ end
}
impl<D: PointCloud> CoverTreeReader<D> {
    pub uninterp spec fn dir(&self, a: NodeAddress) -> Option<Dirichlet>;
    #[verifier::external_body] pub fn get_dir_ref(&self, a: NodeAddress) -> (r: Option<&Dirichlet>) ensures (r is Some) == (self.dir(a) is Some), r is Some ==> *r->0 == self.dir(a)->0 { unimplemented!() }
}
impl GokoDirichlet {
//@ fn goko/src/plugins/discrete/dirichlet.rs GokoDirichlet as GokoPlugin::node_component
//@ subst get_node_plugin_ref => get_dir_ref
//@ sig
pub fn node_component<D: PointCloud>(parameters: &Self, my_node: &CoverNode<D>, my_tree: &CoverTreeReader<D>) -> (res: Option<Dirichlet>)
//@ spec
    requires
        kids_distinct(my_node), my_node.singles_indexes@.len() < usize::MAX,
        forall|a: NodeAddress| #[trigger] is_child(my_node, a) ==> my_tree.dir(a) is Some && my_tree.dir(a)->0.wf() && my_tree.dir(a)->0.tot() == cov(my_tree, a).len() as real,
    ensures
        res is Some, res->0.wf(), res->0.tot() == stored(my_tree, my_node).len() as real,
        forall|l: Option<NodeAddress>| #[trigger] res->0.wt(l) == share(my_tree, my_node, l),
        forall|a: NodeAddress| #[trigger] hask(res->0.cc(), a) ==> is_child(my_node, a),
//@ loop 0
    invariant it0.seq().len() == child_addresses@.len(), forall|j: int| 0 <= j < it0.seq().len() ==> *(#[trigger] it0.seq()[j]) == child_addresses@[j],
        my_node.children is Some, child_addresses@ == my_node.children->0.addresses@, nested_scale == my_node.children->0.nested_scale,
        bucket.wf(),
        bucket.tot() == (cov(my_tree, na).len() + covs(my_tree, child_addresses@, it0.index()).len()) as real,
        bucket.wt(None) == 0real,
        forall|a: NodeAddress| #[trigger] bucket.wt(Some(a)) == (if a == na || upto(child_addresses@, a, it0.index()) { cov(my_tree, a).len() as real } else { 0real }),
        forall|a: NodeAddress| #[trigger] hask(bucket.cc(), a) ==> a == na || upto(child_addresses@, a, it0.index()),
//@ loopstart 0
    let ghost b0 = bucket; let ghost k = it0.index();
    proof { assert(child_addresses@[k] == *ca); assert(is_child(my_node, *ca)); }
//@ loopend 0
    proof {
        assert(!upto(child_addresses@, *ca, k));
        assert forall|a: NodeAddress| upto(child_addresses@, a, k + 1) == (upto(child_addresses@, a, k) || a == *ca) by {
            if upto(child_addresses@, a, k) { let j = choose|j: int| 0 <= j < k && #[trigger] child_addresses@[j] == a; assert(0 <= j < k + 1 && child_addresses@[j] == a); }
            if a == *ca { assert(0 <= k < k + 1 && child_addresses@[k] == a); }
        }
        assert forall|a: NodeAddress| #[trigger] bucket.wt(Some(a)) == (if a == na || upto(child_addresses@, a, k + 1) { cov(my_tree, a).len() as real } else { 0real }) by { assert(bucket.wt(Some(a)) == b0.wt(Some(a)) + (if Some(a) == Some(*ca) { cov(my_tree, *ca).len() as real } else { 0real })); }
    }
//@ start
    let ghost na = (my_node.children->0.nested_scale, my_node.address.1);
    proof { assert(my_node.children is Some ==> is_child(my_node, na)); }
//@ after#1 for ca in
    proof {
        let n = child_addresses@.len() as int;
        assert forall|a: NodeAddress| upto(child_addresses@, a, n) == child_addresses@.contains(a) by { if child_addresses@.contains(a) { let j = choose|j: int| 0 <= j < n && child_addresses@[j] == a; assert(0 <= j < n && child_addresses@[j] == a); } }
    }
//@ end
}
} // verus!
fn main() {}
