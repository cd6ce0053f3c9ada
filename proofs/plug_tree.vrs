/// TRUSTED: slice::to_vec of Copy items
pub assume_specification<T: Clone> [<[T]>::to_vec] (s: &[T]) -> (r: Vec<T>) ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> cloned(#[trigger] s@[i], r@[i]);
// ---- the node whose summary is computed, and the tree it reads its children's summaries from
//@ struct goko/src/covertree/node.rs NodeChildren
//@ end
//@ struct goko/src/covertree/node.rs CoverNode
//@ end
pub open spec fn kid_pair(r: (i32, &[NodeAddress]), c: NodeChildren) -> bool { r.0 == c.nested_scale && r.1@ == c.addresses@ }
impl<D: PointCloud> CoverNode<D> {
//@ fn goko/src/covertree/node.rs CoverNode::coverage_count
//@ spec
    ensures res == self.coverage_count
//@ end
//@ fn goko/src/covertree/node.rs CoverNode::singletons_len
//@ spec
    ensures res == self.singles_indexes@.len()
//@ end
//@ fn goko/src/covertree/node.rs CoverNode::singletons
//@ subst & self . singles_indexes => self . singles_indexes . as_slice ( )
//@ spec
    ensures res@ == self.singles_indexes@
//@ end
//@ fn goko/src/covertree/node.rs CoverNode::center_index
//@ spec
    ensures *res == self.address.1
//@ end
//@ fn goko/src/covertree/node.rs CoverNode::children
//@ spec
    ensures (res is Some) == (self.children is Some), res is Some ==> kid_pair(res->0, self.children->0)
//@ end
}
/// TRUSTED: the tree; `comp(a)` is the summary already attached to the node at a
#[verifier::external_body] #[verifier::accept_recursive_types(D)] pub struct CoverTreeReader<D> { p: Option<D> }
/// the points stored at or below the node at a (each child's list follows its own node: `stored`)
pub uninterp spec fn cov<D>(t: &CoverTreeReader<D>, a: NodeAddress) -> Seq<usize>;
pub open spec fn covs<D>(t: &CoverTreeReader<D>, kids: Seq<NodeAddress>, n: int) -> Seq<usize> decreases n { if n <= 0 { Seq::empty() } else { covs(t, kids, n - 1) + cov(t, kids[n - 1]) } }
/// the points stored at or below this node: its singletons, then what its nested child and its children hold; a leaf holds its own centre
pub open spec fn stored<D: PointCloud>(t: &CoverTreeReader<D>, n: &CoverNode<D>) -> Seq<usize> {
    match n.children { None => n.singles_indexes@.push(n.address.1), Some(c) => n.singles_indexes@ + cov(t, (c.nested_scale, n.address.1)) + covs(t, c.addresses@, c.addresses@.len() as int) }
}
pub open spec fn is_child<D: PointCloud>(n: &CoverNode<D>, a: NodeAddress) -> bool {
    n.children is Some && (a == (n.children->0.nested_scale, n.address.1) || n.children->0.addresses@.contains(a))
}
pub proof fn l_covs_len<D>(t: &CoverTreeReader<D>, kids: Seq<NodeAddress>, j: int, n: int) requires 0 <= j < n <= kids.len() ensures cov(t, kids[j]).len() <= covs(t, kids, n).len() decreases n
{ if j < n - 1 { l_covs_len(t, kids, j, n - 1); } }
/// no child holds more points than its parent
pub proof fn l_child_len<D: PointCloud>(t: &CoverTreeReader<D>, n: &CoverNode<D>) ensures forall|a: NodeAddress| #[trigger] is_child(n, a) ==> cov(t, a).len() <= stored(t, n).len()
{
    assert forall|a: NodeAddress| #[trigger] is_child(n, a) implies cov(t, a).len() <= stored(t, n).len() by {
        let k = n.children->0.addresses@;
        if k.contains(a) { let j = choose|j: int| 0 <= j < k.len() && k[j] == a; l_covs_len(t, k, j, k.len() as int); }
    }
}
pub proof fn l_covs_mono<D>(t: &CoverTreeReader<D>, kids: Seq<NodeAddress>, m: int, n: int) requires 0 <= m <= n ensures covs(t, kids, m).len() <= covs(t, kids, n).len() decreases n
{ if m < n { l_covs_mono(t, kids, m, n - 1); } }
