//@ include prelude.vrs
//@ include coll.vrs
// =====================================================================================
// UNIT fractal: fractal dimension estimates of nodes and layers
// =====================================================================================
//@ gsubst SmallVec < [NodeAddress; 10] > => Vec < NodeAddress >
//@ gsubst SmallVec < [usize; 20] > => Vec < usize >
//@ gsubst atomic::AtomicUsize => Opaque
//@ gsubst RwLock < TreePluginSet > => Opaque
//@ gsubst Arc < CoverTreeParameters < D > > => CoverTreeParameters < D >
//@ gsubst Arc < D > => D
//@ gsubst NodePluginSet => Opaque
//@ gsubst Vec < CoverLayerWriter < D > > => Opaque
//@ gsubst PhantomData < D > => Ghost < Option < D > >
pub type NodeAddress = (i32, usize);
#[verifier::external_body] pub struct Opaque { x: usize }
pub trait PointCloud: Sized { }
broadcast use {fl::ax_mk, fl::ax_mk2};
//@ struct goko/src/covertree/node.rs NodeChildren
//@ end
//@ struct goko/src/covertree/node.rs CoverNode
//@ end
pub open spec fn kid_pair(r: (i32, &[NodeAddress]), c: NodeChildren) -> bool { r.0 == c.nested_scale && r.1@ == c.addresses@ }
/// children of a node, the nested one included
pub open spec fn nkids<D: PointCloud>(n: &CoverNode<D>) -> int { if n.children is Some { n.children->0.addresses@.len() as int + 1 } else { 0 } }
/// children and singletons of a node
pub open spec fn offspring<D: PointCloud>(n: &CoverNode<D>) -> int { n.singles_indexes@.len() as int + nkids(n) }
/// fewer than 2^64 of them: they are stored in one tree
pub open spec fn small<D: PointCloud>(n: &CoverNode<D>) -> bool { offspring(n) <= usize::MAX }
/// TRUSTED (std): the largest of a list
pub open spec fn top(s: Seq<usize>, m: usize) -> bool { s.contains(m) && forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] <= m }
#[verifier::external_body] pub fn vmax<'a>(v: &'a Vec<usize>) -> (r: Option<&'a usize>) ensures (r is None) == (v@.len() == 0), r is Some ==> top(v@, *r->0) { unimplemented!() }
/// the list with every entry divided by m, added up
pub open spec fn wsum(s: Seq<usize>, m: real, n: int) -> real decreases n { if n <= 0 { 0real } else { wsum(s, m, n - 1) + ((s[n - 1] as int) as real) / m } }
/// the largest of a list, one if it is empty
pub open spec fn big(s: Seq<usize>, m: usize) -> bool { if s.len() == 0 { m == 1 } else { top(s, m) } }
pub fn vtop(v: &Vec<usize>) -> (r: usize) ensures big(v@, r) { match vmax(v) { Some(m) => *m, None => 1 } }
/// weights, each divided by the largest: what the estimate takes the logarithm of
pub open spec fn weighted(s: Seq<usize>, extra: real, w: real) -> bool { exists|m: usize| #[trigger] big(s, m) && w == wsum(s, (m as int) as real, s.len() as int) + extra / ((m as int) as real) }
pub open spec fn plain(s: Seq<usize>, w: real) -> bool { exists|m: usize| #[trigger] big(s, m) && w == wsum(s, (m as int) as real, s.len() as int) }
impl<D: PointCloud> CoverNode<D> {
//@ fn goko/src/covertree/node.rs CoverNode::singletons
//@ subst & self . singles_indexes => self . singles_indexes . as_slice ( )
//@ spec
    ensures res@ == self.singles_indexes@
//@ end
//@ fn goko/src/covertree/node.rs CoverNode::singletons_len
//@ spec
    ensures res == self.singles_indexes@.len()
//@ end
//@ fn goko/src/covertree/node.rs CoverNode::children
//@ spec
    ensures (res is Some) == (self.children is Some), res is Some ==> kid_pair(res->0, self.children->0)
//@ end
//@ fn goko/src/covertree/node.rs CoverNode::children_len
//@ spec
    requires small(self),
    ensures res == nkids(self)
//@ end
//@ fn goko/src/covertree/node.rs CoverNode::coverage_count
//@ spec
    ensures res == self.coverage_count
//@ end
}
//@ include tree_core.vrs
/// the nodes of a layer in the order its map lists them; nothing is assumed of that order
pub uninterp spec fn listed<D: PointCloud>(m: Map<usize, CoverNode<D>>) -> Seq<(usize, CoverNode<D>)>;
pub broadcast axiom fn ax_listed<D: PointCloud>(m: Map<usize, CoverNode<D>>) ensures
    (#[trigger] listed(m)).len() == m.dom().len(),
    forall|i: int| 0 <= i < listed(m).len() ==> m.dom().contains((#[trigger] listed(m)[i]).0) && m[listed(m)[i].0] == listed(m)[i].1,
    forall|k: usize| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < listed(m).len() && (#[trigger] listed(m)[i]).0 == k,
    forall|i: int, j: int| 0 <= i < j < listed(m).len() ==> (#[trigger] listed(m)[i]).0 != (#[trigger] listed(m)[j]).0;
impl<D: PointCloud> MonoReadHandle<usize, CoverNode<D>> {
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.dom().len(), r == listed(self@).len() { unimplemented!() }
}
impl<D: PointCloud> CoverLayerReader<D> {
    pub open spec fn ns(&self) -> Seq<(usize, CoverNode<D>)> { listed(self.node_reader@) }
    #[verifier::external_body] pub fn entries_ref<'a>(&'a self) -> (r: Vec<(&'a usize, &'a CoverNode<D>)>)
        ensures r@.len() == self.ns().len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]).0 == self.ns()[i].0 && *r@[i].1 == self.ns()[i].1 { unimplemented!() }
//@ fn goko/src/covertree/layer.rs CoverLayerReader::len
//@ spec
    ensures res == self.ns().len(), res == self.node_reader@.dom().len()
//@ end
}
pub open spec fn offs<D: PointCloud>(s: Seq<(usize, CoverNode<D>)>, n: int) -> int decreases n { if n <= 0 { 0 } else { offs(s, n - 1) + offspring(&s[n - 1].1) } }
pub open spec fn singles<D: PointCloud>(s: Seq<(usize, CoverNode<D>)>, n: int) -> int decreases n { if n <= 0 { 0 } else { singles(s, n - 1) + s[n - 1].1.singles_indexes@.len() } }
pub open spec fn covs<D: PointCloud>(s: Seq<(usize, CoverNode<D>)>, n: int) -> Seq<usize> { Seq::new(n as nat, |i: int| s[i].1.coverage_count) }
impl<D: PointCloud> CoverTreeReader<D> {
    /// what the children of a node cover, one entry each: the listed ones, then the nested one
    pub open spec fn pops(&self, n: &CoverNode<D>, c: usize) -> Seq<usize> {
        if n.children is Some { Seq::new(n.children->0.addresses@.len(), |i: int| self.lookup(n.children->0.addresses@[i])->0.coverage_count).push(self.lookup((n.children->0.nested_scale, c))->0.coverage_count) } else { Seq::empty() }
    }
    /// P03: the children of a node are nodes of the tree
    pub open spec fn complete(&self, n: &CoverNode<D>, c: usize) -> bool {
        &&& small(n)
        &&& n.children is Some ==> self.known((n.children->0.nested_scale, c)) && self.lookup((n.children->0.nested_scale, c)) is Some
        &&& n.children is Some ==> forall|i: int| 0 <= i < n.children->0.addresses@.len() ==> self.known(#[trigger] n.children->0.addresses@[i]) && self.lookup(n.children->0.addresses@[i]) is Some
    }
    pub open spec fn lay(&self, s: i32) -> CoverLayerReader<D> { self.layers@[layer_of(self.parameters.min_res_index as int, s as int)] }
    pub open spec fn all_pops(&self, s: Seq<(usize, CoverNode<D>)>, n: int) -> Seq<usize> decreases n { if n <= 0 { Seq::empty() } else { self.all_pops(s, n - 1) + self.pops(&s[n - 1].1, s[n - 1].0) } }
//@ fn goko/src/covertree/tree.rs CoverTreeReader::layer
//@ spec
    requires self.known((scale_index, 0)),
    ensures *res == self.lay(scale_index),
//@ end
//@ fn goko/src/covertree/tree.rs CoverTreeReader::node_fractal_dim
//@ spec
    requires self.known(node_address), self.lookup(node_address) is Some, small(&self.lookup(node_address)->0),
    ensures res@ == rlog((offspring(&self.lookup(node_address)->0)) as real, self.parameters.scale_base@),
//@ end
//@ fn goko/src/covertree/tree.rs CoverTreeReader::layer_fractal_dim
//@ loops 1
//@ spec
    requires self.known((scale_index, 0)), forall|i: int| 0 <= i < self.lay(scale_index).ns().len() ==> small(&(#[trigger] self.lay(scale_index).ns()[i]).1),
    ensures ({ let ns = self.lay(scale_index).ns(); res@ == rlog(offs(ns, ns.len() as int) as real, self.parameters.scale_base@) - rlog((ns.len() as int) as real, self.parameters.scale_base@) }),
//@ loop 0
    invariant it0.seq().len() == self.lay(scale_index).ns().len(), forall|i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]).1 == self.lay(scale_index).ns()[i].1,
        child_count@ == offs(self.lay(scale_index).ns(), it0.index() as int) as real,
//@ end
//@ fn goko/src/covertree/tree.rs CoverTreeReader::node_weighted_fractal_dim
//@ subst pops . iter () . max () => vmax(&pops)
//@ loops 2
//@ spec
    requires self.known(node_address), self.lookup(node_address) is Some, self.complete(&self.lookup(node_address)->0, node_address.1),
    ensures ({ let n = self.lookup(node_address)->0; exists|w: real| #[trigger] weighted(self.pops(&n, node_address.1), (n.singles_indexes@.len() as int) as real, w) && res@ == rlog(w, self.parameters.scale_base@) }),
//@ loop 0
    invariant n.children is Some, children@ == n.children->0.addresses@, self.complete(n, node_address.1),
        it0.seq().len() == children@.len(), forall|i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == children@[i],
        __acc1@.len() == it0.index(), forall|i: int| 0 <= i < it0.index() ==> #[trigger] __acc1@[i] == self.lookup(children@[i])->0.coverage_count,
//@ loop 1
    invariant it1.seq().len() == pops@.len(), forall|i: int| 0 <= i < it1.seq().len() ==> *(#[trigger] it1.seq()[i]) == pops@[i],
        weighted_count@ == wsum(pops@, (max_pop as int) as real, it1.index() as int),
//@ after max_pop =
    proof { assert(pops@ =~= self.pops(n, node_address.1)); assert(big(pops@, max_pop)); }
//@ before weighted_count + singleton_count
    proof { assert(big(self.pops(n, node_address.1), max_pop)); assert(weighted(self.pops(n, node_address.1), singleton_count@, weighted_count@ + singleton_count@ / ((max_pop as int) as real))); }
//@ end
//@ fn goko/src/covertree/tree.rs CoverTreeReader::layer_weighted_fractal_dim
//@ subst * parent_coverage_counts . iter () . max () . unwrap_or (& 1) => vtop(&parent_coverage_counts)
//@ subst * child_coverage_counts . iter () . max () . unwrap_or (& 1) => vtop(&child_coverage_counts)
//@ loops 4
//@ spec
    requires self.known((scale_index, 0)), forall|i: int| 0 <= i < self.lay(scale_index).ns().len() ==> self.complete(&(#[trigger] self.lay(scale_index).ns()[i]).1, self.lay(scale_index).ns()[i].0),
    ensures ({ let ns = self.lay(scale_index).ns(); let l = ns.len() as int; exists|w: real, v: real| #[trigger] weighted(self.all_pops(ns, l), singles(ns, l) as real, w) && #[trigger] plain(covs(ns, l), v) && res@ == rlog(w, self.parameters.scale_base@) - rlog(v, self.parameters.scale_base@) }),
//@ loop 0
    invariant it0.seq().len() == self.lay(scale_index).ns().len(), forall|i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]).0 == self.lay(scale_index).ns()[i].0 && *it0.seq()[i].1 == self.lay(scale_index).ns()[i].1,
        parent_coverage_counts@ == covs(self.lay(scale_index).ns(), it0.index() as int),
        child_coverage_counts@ == self.all_pops(self.lay(scale_index).ns(), it0.index() as int),
        singletons_count@ == singles(self.lay(scale_index).ns(), it0.index() as int) as real,
//@ loopstart 0
    let ghost before = child_coverage_counts@; let ghost ns = self.lay(scale_index).ns();
    proof { assert(self.complete(&ns[it0.index() as int].1, ns[it0.index() as int].0)); }
//@ loop 1
    invariant n.children is Some, children@ == n.children->0.addresses@, self.complete(n, *center_index),
        it1.seq().len() == children@.len(), forall|i: int| 0 <= i < it1.seq().len() ==> *(#[trigger] it1.seq()[i]) == children@[i],
        child_coverage_counts@.len() == before.len() + it1.index(),
        forall|i: int| 0 <= i < before.len() ==> child_coverage_counts@[i] == before[i],
        forall|i: int| 0 <= i < it1.index() ==> child_coverage_counts@[before.len() + i] == self.lookup(#[trigger] children@[i])->0.coverage_count,
//@ loopend 0
    proof {
        assert(parent_coverage_counts@ =~= covs(ns, it0.index() as int + 1));
        assert(child_coverage_counts@ =~= before + self.pops(n, *center_index));
        assert(child_coverage_counts@ =~= self.all_pops(ns, it0.index() as int + 1));
    }
//@ loop 2
    invariant it2.seq().len() == child_coverage_counts@.len(), forall|i: int| 0 <= i < it2.seq().len() ==> *(#[trigger] it2.seq()[i]) == child_coverage_counts@[i],
        __acc5@ == wsum(child_coverage_counts@, max_child_pop@, it2.index() as int),
//@ loop 3
    invariant it3.seq().len() == parent_coverage_counts@.len(), forall|i: int| 0 <= i < it3.seq().len() ==> *(#[trigger] it3.seq()[i]) == parent_coverage_counts@[i],
        __acc6@ == wsum(parent_coverage_counts@, max_parent_pop@, it3.index() as int),
//@ before let weighted_child_sum
    let ghost ns = self.lay(scale_index).ns();
    let ghost mp: usize = choose|m: usize| big(parent_coverage_counts@, m) && max_parent_pop@ == ((m as int) as real);
    let ghost mc: usize = choose|m: usize| big(child_coverage_counts@, m) && max_child_pop@ == ((m as int) as real);
//@ finish
    proof { assert(big(parent_coverage_counts@, mp) && big(child_coverage_counts@, mc)); assert(weighted(child_coverage_counts@, singletons_count@, weighted_child_sum@)); assert(plain(parent_coverage_counts@, weighted_parent_sum@)); }
//@ end
}
} // verus!
fn main() {}
