//@ include prelude.vrs
//@ include coll.vrs
// =====================================================================================
// UNIT paths: path queries and stored paths
// =====================================================================================
//@ gsubst SmallVec < [NodeAddress; 10] > => Vec < NodeAddress >
//@ gsubst SmallVec < [usize; 20] > => Vec < usize >
//@ gsubst < P : Deref < Target = D::Point > + Send + Sync > => < P >
//@ gsubst D::Metric::dist => metric_dist
//@ gsubst atomic::AtomicUsize => Opaque
//@ gsubst RwLock < TreePluginSet > => Opaque
//@ gsubst Arc < CoverTreeParameters < D > > => CoverTreeParameters < D >
//@ gsubst Arc < D > => D
//@ gsubst NodePluginSet => Opaque
//@ gsubst Vec < CoverLayerWriter < D > > => Opaque
//@ gsubst PhantomData < D > => Ghost < Option < D > >
pub type NodeAddress = (i32, usize);
#[verifier::external_body] pub struct Opaque { x: usize }
#[verifier::external_body] pub fn f32_MAX_ref() -> (r: &'static f32) { unimplemented!() }
pub enum GokoError { PointCloudError, IndexNotInTree(usize) }
#[verifier::external] impl std::fmt::Debug for GokoError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
/// TRUSTED: std
pub assume_specification<T> [<[T]>::reverse] (s: &mut [T]) ensures final(s)@ == old(s)@.reverse();
pub assume_specification<T> [Option::<Option<T>>::flatten] (o: Option<Option<T>>) -> (r: Option<T>) ensures r == (match o { Some(x) => x, None => None::<T> });
pub type GokoResult<T> = Result<T, GokoError>;
pub type PointCloudResult<T> = Result<T, GokoError>;
#[verifier::external_body] pub struct PointHandle { x: usize }
impl PointHandle { pub uninterp spec fn idx(&self) -> usize; }
/// distance from the query point to data point i
pub uninterp spec fn qd(i: usize) -> real;
/// distance between two data points
pub uninterp spec fn dd(i: usize, j: usize) -> real;
pub uninterp spec fn valid(i: usize) -> bool;
pub trait PointCloud: Sized {
    // CONTRACT of the point cloud (decided by P15)
    fn distances_to_point<P>(&self, point: &P, indexes: &[usize]) -> (r: PointCloudResult<Vec<f32>>)
        ensures
            (forall|j: int| 0 <= j < indexes@.len() ==> valid(#[trigger] indexes@[j])) ==> r is Ok,
            r is Ok ==> r->Ok_0@.len() == indexes@.len() && forall|j: int| 0 <= j < indexes@.len() ==> (#[trigger] r->Ok_0@[j])@ == qd(indexes@[j]);
    fn distances_to_point_index(&self, i: usize, indexes: &[usize]) -> (r: PointCloudResult<Vec<f32>>)
        ensures
            (valid(i) && forall|j: int| 0 <= j < indexes@.len() ==> valid(#[trigger] indexes@[j])) ==> r is Ok,
            r is Ok ==> r->Ok_0@.len() == indexes@.len() && forall|j: int| 0 <= j < indexes@.len() ==> (#[trigger] r->Ok_0@[j])@ == dd(i, indexes@[j]);
    fn point(&self, i: usize) -> (r: PointCloudResult<PointHandle>)
        ensures valid(i) ==> r is Ok, r is Ok ==> r->Ok_0.idx() == i;
}
#[verifier::external_body]
pub fn metric_dist<P>(a: &PointHandle, b: &P) -> (r: f32) ensures r@ == qd(a.idx()) { unimplemented!() }
broadcast use {fl::ax_mk, fl::ax_mk2};
//@ struct goko/src/covertree/node.rs NodeChildren
//@ end
//@ struct goko/src/covertree/node.rs CoverNode
//@ end
/// the children of a node in order: the nested one first
pub open spec fn kid<D: PointCloud>(n: &CoverNode<D>, j: int) -> NodeAddress { if j == 0 { (n.children->0.nested_scale, n.address.1) } else { n.children->0.addresses@[j - 1] } }
pub open spec fn nkids<D: PointCloud>(n: &CoverNode<D>) -> int { if n.children is Some { n.children->0.addresses@.len() as int + 1 } else { 0 } }
pub open spec fn is_kid<D: PointCloud>(n: &CoverNode<D>, a: NodeAddress) -> bool { exists|i: int| 0 <= i < nkids(n) && #[trigger] kid(n, i) == a }
pub open spec fn covers(a: NodeAddress, b: real) -> bool { qd(a.1) < rpowi(b, a.0 as int) }
pub open spec fn kids_valid<D: PointCloud>(n: &CoverNode<D>) -> bool { n.children is Some ==> forall|j: int| 0 <= j < n.children->0.addresses@.len() ==> valid((#[trigger] n.children->0.addresses@[j]).1) }
/// the step a path takes from node n under the nearest rule: to a nearest child, if that one covers the query
pub open spec fn step_nearest<D: PointCloud>(n: &CoverNode<D>, b: real, r: Option<(f32, NodeAddress)>) -> bool {
    match r {
        Some(s) => s.0@ == qd(s.1.1) && covers(s.1, b) && (exists|j: int| 0 <= j < nkids(n) && #[trigger] kid(n, j) == s.1) && forall|j: int| 0 <= j < nkids(n) ==> qd((#[trigger] kid(n, j)).1) >= qd(s.1.1),
        None => nkids(n) == 0 || exists|j: int| 0 <= j < nkids(n) && !covers(#[trigger] kid(n, j), b) && forall|i: int| 0 <= i < nkids(n) ==> qd((#[trigger] kid(n, i)).1) >= qd(kid(n, j).1),
    }
}
/// under the first rule: to the first child that covers the query
pub open spec fn step_first<D: PointCloud>(n: &CoverNode<D>, b: real, r: Option<(f32, NodeAddress)>) -> bool {
    match r {
        Some(s) => s.0@ == qd(s.1.1) && exists|j: int| 0 <= j < nkids(n) && #[trigger] kid(n, j) == s.1 && covers(s.1, b) && forall|i: int| 0 <= i < j ==> !covers(#[trigger] kid(n, i), b),
        None => forall|j: int| 0 <= j < nkids(n) ==> !covers(#[trigger] kid(n, j), b),
    }
}
pub open spec fn kid_pair(r: (i32, &[NodeAddress]), c: NodeChildren) -> bool { r.0 == c.nested_scale && r.1@ == c.addresses@ }
pub open spec fn best(a: Option<(usize, &f32)>, ds: Seq<f32>, n: int) -> bool {
    match a { Some(p) => p.0 < n && *p.1 == ds[p.0 as int] && forall|j: int| 0 <= j < n ==> (#[trigger] ds[j])@ >= p.1@, None => n == 0 }
}
impl<D: PointCloud> CoverNode<D> {
//@ fn goko/src/covertree/node.rs CoverNode::singletons
//@ subst & self . singles_indexes => self . singles_indexes . as_slice ( )
//@ spec
    ensures res@ == self.singles_indexes@
//@ end
//@ fn goko/src/covertree/node.rs CoverNode::children
//@ spec
    ensures (res is Some) == (self.children is Some), res is Some ==> kid_pair(res->0, self.children->0)
//@ end
//@ fn goko/src/covertree/node.rs CoverNode::parent_address
//@ spec
    ensures res == self.parent_address
//@ end
//@ fn goko/src/covertree/node.rs CoverNode::nearest_covering_child
//@ spec
    requires kids_valid(self), dist_to_center@ == qd(self.address.1),
    ensures res is Ok, step_nearest(self, scale_base@, res->Ok_0),
//@ subst & f32_MAX () => f32_MAX_ref ()
//@ loop 0
    invariant
        __acc1@.len() == it0.index(), it0.seq().len() == children.addresses@.len(),
        forall|j: int| 0 <= j < it0.seq().len() ==> *(#[trigger] it0.seq()[j]) == children.addresses@[j],
        forall|j: int| 0 <= j < it0.index() ==> #[trigger] __acc1@[j] == children.addresses@[j].1,
//@ loop 1
    invariant
        it1.seq().len() == distances@.len(), __c8 == it1.index(), distances@.len() == distances.len(),
        forall|j: int| 0 <= j < it1.seq().len() ==> *(#[trigger] it1.seq()[j]) == distances@[j],
        __acc4 is None <==> it1.index() == 0,
        best(__acc4, distances@, it1.index()),
//@ after let (min_index, min_dist)
    proof {
        let ch = self.children->0.addresses@;
        assert(kid(self, 0) == (children.nested_scale, self.address.1));
        assert(ch.len() > 0 ==> kid(self, min_index as int + 1) == ch[min_index as int]);
        assert forall|j: int| 0 <= j < nkids(self) implies qd((#[trigger] kid(self, j)).1) == (if j == 0 { dist_to_center@ } else { distances@[j - 1]@ }) by { if j > 0 { assert(distances@[j - 1]@ == qd(children_indexes@[j - 1])); } }
    }
//@ end
//@ fn goko/src/covertree/node.rs CoverNode::first_covering_child
//@ spec
    requires kids_valid(self), dist_to_center@ == qd(self.address.1),
    ensures res is Ok, step_first(self, scale_base@, res->Ok_0),
//@ start
    assert(self.children is Some ==> kid(self, 0) == (self.children->0.nested_scale, self.address.1));
//@ loop 0
    invariant
        __acc1@.len() == it0.index(), it0.seq().len() == children.addresses@.len(),
        forall|j: int| 0 <= j < it0.seq().len() ==> *(#[trigger] it0.seq()[j]) == children.addresses@[j],
        forall|j: int| 0 <= j < it0.index() ==> #[trigger] __acc1@[j] == children.addresses@[j].1,
//@ loop 1
    invariant
        it1.seq().len() == children.addresses@.len(),
        forall|j: int| 0 <= j < it1.seq().len() ==> *(#[trigger] it1.seq()[j]).0 == children.addresses@[j] && it1.seq()[j].1@ == qd(children.addresses@[j].1),
        forall|j: int| 0 <= j < it1.index() ==> !covers(#[trigger] children.addresses@[j], scale_base@),
//@ loopstart 1
    assert(kid(self, it1.index() as int + 1) == *ca);
//@ end
}

//@ include tree_core.vrs
/// one step of a path query: the nearest rule or the first rule, as the tree was built
pub open spec fn step<D: PointCloud>(t: &CoverTreeReader<D>, n: &CoverNode<D>, r: Option<(f32, NodeAddress)>) -> bool {
    match t.parameters.partition_type { PartitionType::Nearest => step_nearest(n, t.parameters.scale_base@, r), PartitionType::First => step_first(n, t.parameters.scale_base@, r) }
}
/// a chain of steps from the root
pub open spec fn chain<D: PointCloud>(t: &CoverTreeReader<D>, p: Seq<(f32, NodeAddress)>) -> bool {
    &&& p.len() > 0 && p[0].1 == t.root_address && p[0].0@ == qd(t.root_address.1)
    &&& forall|i: int| 1 <= i < p.len() ==> (#[trigger] t.lookup(p[i - 1].1)) is Some && step(t, &t.lookup(p[i - 1].1)->0, Some(p[i]))
}
/// a complete path: the last node has no step left
pub open spec fn full_path<D: PointCloud>(t: &CoverTreeReader<D>, p: Seq<(f32, NodeAddress)>) -> bool {
    chain(t, p) && step(t, &t.lookup(p.last().1)->0, None)
}
pub open spec fn scale_of(a: Option<NodeAddress>) -> int { match a { Some(x) => x.0 as int, None => 0 } }
pub open spec fn parent_of<D: PointCloud>(t: &CoverTreeReader<D>, a: NodeAddress) -> Option<NodeAddress> { match t.lookup(a) { Some(n) => n.parent_address, None => None } }
/// p climbs from the node where i is stored by parent links
pub open spec fn climb<D: PointCloud>(t: &CoverTreeReader<D>, i: usize, p: Seq<NodeAddress>) -> bool {
    p.len() > 0 && p[0] == t.final_addresses@[i] && forall|j: int| 1 <= j < p.len() ==> parent_of(t, p[j - 1]) == Some(#[trigger] p[j])
}
/// the stored path of point i: from the root by parent links to the node where it is stored
pub open spec fn stored_path<D: PointCloud>(t: &CoverTreeReader<D>, i: usize, p: Seq<(f32, NodeAddress)>) -> bool {
    &&& p.len() > 0 && parent_of(t, p[0].1) is None && p.last().1 == t.final_addresses@[i]
    &&& forall|j: int| 0 <= j < p.len() ==> (#[trigger] p[j]).0@ == dd(i, p[j].1.1)
    &&& forall|j: int| 0 <= j < p.len() - 1 ==> parent_of(t, #[trigger] p[j + 1].1) == Some(p[j].1)
}
impl<D: PointCloud> CoverTreeReader<D> {
    /// the tree invariant a path query relies on (P03): links lead to nodes, children lie at lower scales, parents at higher ones
    pub open spec fn ok(&self) -> bool { self.links() && self.finals() }
    pub open spec fn finals(&self) -> bool {
        forall|i: usize| #[trigger] self.final_addresses@.dom().contains(i) ==> valid(i) && self.lookup(self.final_addresses@[i]) is Some
            && 0 <= self.root_address.0 - self.final_addresses@[i].0 <= i32::MAX
    }
    pub open spec fn links(&self) -> bool {
        &&& self.lookup(self.root_address) is Some && valid(self.root_address.1)
        &&& forall|a: NodeAddress| #[trigger] self.lookup(a) is Some ==> self.lookup(a)->0.address == a && kids_valid(&self.lookup(a)->0) && valid(a.1)
            && forall|j: int| 0 <= j < nkids(&self.lookup(a)->0) ==> (#[trigger] kid(&self.lookup(a)->0, j)).0 < a.0 && self.lookup(kid(&self.lookup(a)->0, j)) is Some
        &&& forall|a: NodeAddress| #[trigger] self.lookup(a) is Some && self.lookup(a)->0.parent_address is Some ==> scale_of(self.lookup(a)->0.parent_address) > a.0 && self.lookup(self.lookup(a)->0.parent_address->0) is Some
    }
//@ fn goko/src/covertree/tree.rs CoverTreeReader::path
//@ spec
    requires self.ok(),
    ensures res is Ok, full_path(self, res->Ok_0@),
//@ loop 0
    invariant_except_break
        chain(self, trace@),
    invariant
        self.ok(), chain(self, trace@), self.lookup(current_address) is Some,
        trace@.last() == (current_distance, current_address), current_distance@ == qd(current_address.1),
    ensures full_path(self, trace@),
    decreases current_address.0 - i32::MIN
//@ end
//@ fn goko/src/covertree/tree.rs CoverTreeReader::known_path
//@ spec
    requires self.ok(),
    ensures (res is Ok) == self.final_addresses@.dom().contains(point_index), res is Ok ==> stored_path(self, point_index, res->Ok_0@),
//@ subst let mut path = Vec => let mut path : Vec < NodeAddress > = Vec
//@ loop 0
    invariant
        self.ok(), self.final_addresses@.dom().contains(point_index),
        parent is Some ==> self.lookup(parent->0) is Some,
        path@.len() == 0 ==> parent == Some(self.final_addresses@[point_index]),
        path@.len() > 0 ==> climb(self, point_index, path@) && parent == parent_of(self, path@.last()),
        forall|j: int| 0 <= j < path@.len() ==> self.lookup(#[trigger] path@[j]) is Some,
    ensures parent is None, path@.len() > 0
    decreases (match parent { Some(a) => i32::MAX - a.0 + 1, None => 0 })
//@ loop 1
    invariant
        it1.seq().len() == path@.len(), __acc1@.len() == it1.index(),
        forall|j: int| 0 <= j < it1.seq().len() ==> *(#[trigger] it1.seq()[j]) == path@[j],
        forall|j: int| 0 <= j < it1.index() ==> #[trigger] __acc1@[j] == path@[j].1,
//@ loop 2
    invariant
        it2.seq().len() == dists@.len(), __acc4@.len() == it2.index(),
        forall|j: int| 0 <= j < it2.seq().len() ==> *(#[trigger] it2.seq()[j]).0 == dists@[j] && it2.seq()[j].1 == path@[j],
        forall|j: int| 0 <= j < it2.index() ==> #[trigger] __acc4@[j] == (dists@[j], path@[j]),
//@ end
}
// ---------------------------------------------------------------- where each point is stored
/// point p is stored at node n: among its singletons, or as the centre of a leaf
pub open spec fn stores<D: PointCloud>(n: &CoverNode<D>, p: usize) -> bool { n.singles_indexes@.contains(p) || (n.children is None && p == n.address.1) }
/// the points stored in the subtree at an address: what the node stores and what its children's subtrees store
pub uninterp spec fn cov<D: PointCloud>(t: &CoverTreeReader<D>, a: NodeAddress) -> Set<usize>;
pub open spec fn cov_ok<D: PointCloud>(t: &CoverTreeReader<D>) -> bool {
    forall|a: NodeAddress, p: usize| (#[trigger] cov(t, a).contains(p)) && t.lookup(a) is Some ==> stores(&t.lookup(a)->0, p) || exists|j: int| 0 <= j < nkids(&t.lookup(a)->0) && cov(t, #[trigger] kid(&t.lookup(a)->0, j)).contains(p)
}
/// CONTRACT of the write half of the map (decided by P08): `view` is what the next refresh will publish
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::accept_recursive_types(V)] pub struct MonoWriteHandle<K, V> { x: Option<(K, V)> }
impl<K, V> View for MonoWriteHandle<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
impl<K, V> MonoWriteHandle<K, V> {
    pub uninterp spec fn published(&self) -> Map<K, V>;
    #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) ensures final(self)@ == old(self)@.insert(k, v), final(self).published() == old(self).published() { unimplemented!() }
    #[verifier::external_body] pub fn refresh(&mut self) ensures final(self)@ == old(self)@, final(self).published() == old(self)@ { unimplemented!() }
}
//@ struct goko/src/covertree/tree.rs CoverTreeWriter
//@ end
impl<D: PointCloud> CoverTreeWriter<D> {
    /// the reader a writer hands out: same root, same nodes
    pub uninterp spec fn seen(&self) -> CoverTreeReader<D>;
    #[verifier::external_body] pub fn reader(&self) -> (r: CoverTreeReader<D>) ensures r == self.seen(), r.root_address == self.root_address { unimplemented!() }
//@ fn goko/src/covertree/tree.rs CoverTreeWriter::refresh_final_indexes
//@ opt extend
//@ loop 0
    invariant
        reader == old(self).seen(), reader.links(), cov_ok(&reader), reader.root_address == old(self).root_address,
        walk(&reader, old(self).final_addresses@, self.final_addresses@, unvisited_nodes@),
        self.parameters == old(self).parameters, self.layers == old(self).layers, self.root_address == old(self).root_address,
//@ loopstart 0
    let ghost u0 = unvisited_nodes@;
    let ghost m0 = self.final_addresses@;
//@ loop 1
    invariant
        it1.seq().len() == n.singles_indexes@.len(),
        forall|j: int| 0 <= j < it1.seq().len() ==> *(#[trigger] it1.seq()[j]) == n.singles_indexes@[j],
        added(m0, self.final_addresses@, cur_add, n.singles_indexes@.take(it1.index())),
//@ loopstart 1
    proof { l_added(m0, self.final_addresses@, cur_add, n.singles_indexes@.take(it1.index()), *singleton); }
    assert(n.singles_indexes@.take(it1.index() + 1) == n.singles_indexes@.take(it1.index()).push(*singleton));
//@ loopafter 1
    assert(n.singles_indexes@.take(n.singles_indexes@.len() as int) == n.singles_indexes@);
//@ after unvisited_nodes.push
    proof {
        let c = n.children->0.addresses@;
        let b = u0.drop_last();
        assert(unvisited_nodes@ == (b + c).push((nested_si, cur_add.1)));
        assert(unvisited_nodes@.take(b.len() as int) == b);
        assert forall|j: int| 0 <= j < nkids(n) implies unvisited_nodes@.contains(#[trigger] kid(n, j)) by {
            if j == 0 { assert(unvisited_nodes@[(b + c).len() as int] == kid(n, 0)); } else { assert(unvisited_nodes@[b.len() + j - 1] == kid(n, j)); }
        }
        assert forall|j: int| b.len() <= j < unvisited_nodes@.len() implies is_kid(n, #[trigger] unvisited_nodes@[j]) by {
            if j == b.len() + c.len() { assert(unvisited_nodes@[j] == kid(n, 0)); } else { assert(unvisited_nodes@[j] == kid(n, j - b.len() + 1)); }
        }
    }
    let ghost done = true;
//@ before#2 self.final_addresses.insert
    proof { l_added(m0, self.final_addresses@, cur_add, n.singles_indexes@, cur_add.1); assert(unvisited_nodes@ == u0.drop_last()); assert(unvisited_nodes@.take(u0.len() - 1) == u0.drop_last()); }
//@ loopend 0
    proof { l_walk(&reader, old(self).final_addresses@, m0, self.final_addresses@, u0, unvisited_nodes@, cur_add); }
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ spec
    requires old(self).seen().links(), cov_ok(&old(self).seen()),
    ensures
        // every entry is old or names a node that stores the point; every stored point has an entry that names a node that stores it
        forall|p: usize| #[trigger] final(self).final_addresses.published().dom().contains(p) ==> placed(&old(self).seen(), final(self).final_addresses.published(), p) || (old(self).final_addresses@.dom().contains(p) && final(self).final_addresses.published()[p] == old(self).final_addresses@[p]),
        forall|p: usize| #[trigger] cov(&old(self).seen(), old(self).root_address).contains(p) ==> placed(&old(self).seen(), final(self).final_addresses.published(), p),
        final(self).parameters == old(self).parameters, final(self).layers == old(self).layers, final(self).root_address == old(self).root_address,
//@ end
}
/// the walk so far: every entry is old or right; every point of the tree is placed or still to be met
pub open spec fn walk<D: PointCloud>(t: &CoverTreeReader<D>, old_m: Map<usize, NodeAddress>, m: Map<usize, NodeAddress>, todo: Seq<NodeAddress>) -> bool {
    &&& forall|p: usize| #[trigger] m.dom().contains(p) ==> placed(t, m, p) || (old_m.dom().contains(p) && m[p] == old_m[p])
    &&& forall|j: int| 0 <= j < todo.len() ==> t.lookup(#[trigger] todo[j]) is Some
    &&& forall|p: usize| #[trigger] cov(t, t.root_address).contains(p) ==> placed(t, m, p) || exists|j: int| 0 <= j < todo.len() && cov(t, #[trigger] todo[j]).contains(p)
}
/// m1 is m0 with the points of s put at a
pub open spec fn added(m0: Map<usize, NodeAddress>, m1: Map<usize, NodeAddress>, a: NodeAddress, s: Seq<usize>) -> bool {
    forall|p: usize| (#[trigger] m1.dom().contains(p)) == (m0.dom().contains(p) || s.contains(p)) && (m1.dom().contains(p) ==> m1[p] == (if s.contains(p) { a } else { m0[p] }))
}
pub open spec fn here<D: PointCloud>(n: &CoverNode<D>) -> Seq<usize> { if n.children is None { n.singles_indexes@.push(n.address.1) } else { n.singles_indexes@ } }
pub proof fn l_walk<D: PointCloud>(t: &CoverTreeReader<D>, om: Map<usize, NodeAddress>, m0: Map<usize, NodeAddress>, m1: Map<usize, NodeAddress>, u0: Seq<NodeAddress>, u1: Seq<NodeAddress>, a: NodeAddress)
    requires t.links(), cov_ok(t), walk(t, om, m0, u0), u0.len() > 0, a == u0.last(), added(m0, m1, a, here(&t.lookup(a)->0)),
        u1.len() >= u0.len() - 1, u1.take(u0.len() - 1) == u0.drop_last(),
        forall|j: int| 0 <= j < nkids(&t.lookup(a)->0) ==> u1.contains(#[trigger] kid(&t.lookup(a)->0, j)),
        forall|j: int| u0.len() - 1 <= j < u1.len() ==> is_kid(&t.lookup(a)->0, #[trigger] u1[j]),
    ensures walk(t, om, m1, u1)
{
    let n = t.lookup(a)->0;
    assert(a == u0[u0.len() - 1]);
    assert forall|j: int| 0 <= j < u0.len() - 1 implies u1[j] == u0[j] by { assert(u1.take(u0.len() - 1)[j] == u0.drop_last()[j]); }
    assert forall|p: usize| here(&n).contains(p) implies stores(&n, p) by {
        let k = choose|k: int| 0 <= k < here(&n).len() && here(&n)[k] == p;
        if k < n.singles_indexes@.len() { assert(n.singles_indexes@[k] == p); }
    }
    assert forall|p: usize| stores(&n, p) implies here(&n).contains(p) by {
        if n.singles_indexes@.contains(p) { let k = choose|k: int| 0 <= k < n.singles_indexes@.len() && n.singles_indexes@[k] == p; assert(here(&n)[k] == p); }
        else { assert(here(&n)[n.singles_indexes@.len() as int] == p); }
    }
    assert forall|p: usize| #[trigger] m1.dom().contains(p) implies placed(t, m1, p) || (om.dom().contains(p) && m1[p] == om[p]) by {
        if !here(&n).contains(p) { assert(m0.dom().contains(p)); }
    }
    assert forall|j: int| 0 <= j < u1.len() implies t.lookup(#[trigger] u1[j]) is Some by {
        if j < u0.len() - 1 { assert(u1[j] == u0[j]); } else { assert(is_kid(&n, u1[j])); let i = choose|i: int| 0 <= i < nkids(&n) && #[trigger] kid(&n, i) == u1[j]; assert(t.lookup(kid(&n, i)) is Some); }
    }
    assert forall|p: usize| #[trigger] cov(t, t.root_address).contains(p) implies placed(t, m1, p) || exists|j: int| 0 <= j < u1.len() && cov(t, #[trigger] u1[j]).contains(p) by {
        if placed(t, m0, p) { assert(m1.dom().contains(p)); if here(&n).contains(p) { assert(m1[p] == a); } else { assert(m1[p] == m0[p]); } }
        else {
            let j = choose|j: int| 0 <= j < u0.len() && cov(t, #[trigger] u0[j]).contains(p);
            if j < u0.len() - 1 { assert(cov(t, u1[j]).contains(p)); }
            else {
                assert(cov(t, a).contains(p));
                if stores(&n, p) { assert(here(&n).contains(p)); assert(m1.dom().contains(p)); }
                else {
                    let i = choose|i: int| 0 <= i < nkids(&n) && cov(t, #[trigger] kid(&n, i)).contains(p);
                    assert(u1.contains(kid(&n, i)));
                    let k = choose|k: int| 0 <= k < u1.len() && u1[k] == kid(&n, i);
                    assert(cov(t, u1[k]).contains(p));
                }
            }
        }
    }
}
pub proof fn l_added(m0: Map<usize, NodeAddress>, m1: Map<usize, NodeAddress>, a: NodeAddress, s: Seq<usize>, q: usize) requires added(m0, m1, a, s) ensures added(m0, m1.insert(q, a), a, s.push(q))
{
    let m2 = m1.insert(q, a); let s2 = s.push(q);
    assert(s2[s.len() as int] == q);
    assert forall|p: usize| (#[trigger] m2.dom().contains(p)) == (m0.dom().contains(p) || s2.contains(p)) && (m2.dom().contains(p) ==> m2[p] == (if s2.contains(p) { a } else { m0[p] })) by {
        if s.contains(p) { let k = choose|k: int| 0 <= k < s.len() && s[k] == p; assert(s2[k] == p); }
        if s2.contains(p) && p != q { let k = choose|k: int| 0 <= k < s2.len() && s2[k] == p; assert(s[k] == p); }
        assert(m1.dom().contains(p) == (m0.dom().contains(p) || s.contains(p)));
    }
}
pub open spec fn placed<D: PointCloud>(t: &CoverTreeReader<D>, m: Map<usize, NodeAddress>, p: usize) -> bool { m.dom().contains(p) && t.lookup(m[p]) is Some && stores(&t.lookup(m[p])->0, p) }
} // verus!
fn main() {}
