//@ include prelude.vrs
//@ include coll.vrs
// =====================================================================================
// UNIT addplug: attaching a summary to the tree. The node components are computed from the leaves up, each from
// children whose components are already published, so the induction over the contracts of node_component is sound.
// =====================================================================================
//@ gopt index_mut
pub type NodeAddress = (i32, usize);
pub trait PointCloud: Sized { }
#[verifier::external_body] #[verifier::accept_recursive_types(D)] pub struct CoverTreeReader<D> { p: Option<D> }
#[verifier::external_body] #[verifier::accept_recursive_types(D)] pub struct CoverNode<D> { p: Option<D> }
#[verifier::external_body] pub struct Component { x: usize }
impl Component { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<D> CoverNode<D> {
    pub uninterp spec fn addr(&self) -> NodeAddress;
    pub uninterp spec fn is_kid(&self, a: NodeAddress) -> bool;
}
/// CONTRACT of a summary (units plugidx, plugdisc, pluglab, pluggauss): the component of a node is right when those of its children are
pub trait Judge: Sized { spec fn right(&self, a: NodeAddress, c: Option<Component>) -> bool; }
pub trait GokoPlugin<D: PointCloud>: Judge {
    fn prepare_tree(this: &Self, tree: &mut CoverTreeWriter<D>) requires old(tree).wf(), old(tree).blank() ensures final(tree).same(old(tree)), final(tree).wf(), final(tree).blank();
    fn node_component(this: &Self, n: &CoverNode<D>, reader: &CoverTreeReader<D>, shown: Ghost<Seq<CoverLayerWriter<D>>>) -> (res: Option<Component>)
        requires forall|a: NodeAddress| #[trigger] n.is_kid(a) ==> ready(*this, shown@, a)
        ensures this.right(n.addr(), res);
}
/// TRUSTED (P08): a layer holds a written and a published state; refresh publishes what was written
#[verifier::external_body] #[verifier::accept_recursive_types(D)] pub struct CoverLayerWriter<D> { p: Option<D> }
#[verifier::external_body] #[verifier::accept_recursive_types(D)] pub struct CoverLayerReader<D> { p: Option<D> }
impl<D> CoverLayerReader<D> {
    pub uninterp spec fn nodes(&self) -> Map<usize, CoverNode<D>>;
    #[verifier::external_body] pub fn entries_ref<'a>(&'a self) -> (r: Vec<(&'a usize, &'a CoverNode<D>)>)
        ensures forall|k: int| 0 <= k < r@.len() ==> self.nodes().contains_key(*(#[trigger] r@[k]).0) && self.nodes()[*r@[k].0] == *r@[k].1, forall|i: int, j: int| 0 <= i < j < r@.len() ==> *(#[trigger] r@[i]).0 != *(#[trigger] r@[j]).0, forall|pi: usize| #[trigger] self.nodes().contains_key(pi) ==> (exists|k: int| 0 <= k < r@.len() && *(#[trigger] r@[k]).0 == pi) { unimplemented!() }
}
impl<D> CoverLayerWriter<D> {
    pub uninterp spec fn scale(&self) -> int;
    pub uninterp spec fn nodes(&self) -> Map<usize, CoverNode<D>>;
    pub uninterp spec fn written(&self, pi: usize) -> Option<Component>;
    pub uninterp spec fn shown(&self, pi: usize) -> Option<Component>;
    pub open spec fn same(&self, o: &Self) -> bool { self.scale() == o.scale() && self.nodes() == o.nodes() }
    #[verifier::external_body] pub fn reader(&self) -> (r: CoverLayerReader<D>) ensures r.nodes() == self.nodes() { unimplemented!() }
    #[verifier::external_body] pub fn attach(&mut self, pi: usize, c: Component) requires old(self).nodes().contains_key(pi)
        ensures final(self).same(old(self)), forall|x: usize| #[trigger] final(self).written(x) == (if x == pi { Some(c) } else { old(self).written(x) }), forall|x: usize| #[trigger] final(self).shown(x) == old(self).shown(x) { unimplemented!() }
    #[verifier::external_body] pub fn refresh(&mut self) ensures final(self).same(old(self)), forall|x: usize| #[trigger] final(self).written(x) == old(self).written(x), forall|x: usize| #[trigger] final(self).shown(x) == old(self).written(x) { unimplemented!() }
}
#[verifier::external_body] #[verifier::accept_recursive_types(D)] pub struct Parameters<D> { p: Option<D> }
impl<D> Parameters<D> { #[verifier::external_body] pub fn keep<P>(&self, p: P) { unimplemented!() } }
#[verifier::accept_recursive_types(D)] pub struct CoverTreeWriter<D> { pub parameters: Parameters<D>, pub layers: Vec<CoverLayerWriter<D>>, pub root_address: NodeAddress }
/// the node at `a` is published with a right component
pub open spec fn ready<D, P: Judge>(p: P, ls: Seq<CoverLayerWriter<D>>, a: NodeAddress) -> bool { exists|i: int| #[trigger] has_at(ls, i, a) && p.right(a, ls[i].shown(a.1)) }
pub open spec fn has_at<D>(ls: Seq<CoverLayerWriter<D>>, i: int, a: NodeAddress) -> bool { 0 <= i < ls.len() && ls[i].nodes().contains_key(a.1) && ls[i].nodes()[a.1].addr() == a }
impl<D> CoverTreeWriter<D> {
    /// P03: a node is on one layer, under its centre; its children are on layers further down
    pub open spec fn wf(&self) -> bool { lwf(self.layers@) }
    pub open spec fn blank(&self) -> bool { forall|i: int, x: usize| 0 <= i < self.layers@.len() ==> #[trigger] self.layers@[i].shown(x) is None && self.layers@[i].written(x) is None }
    pub open spec fn same(&self, o: &Self) -> bool { lsame(self.layers@, o.layers@) && self.root_address == o.root_address }
    #[verifier::external_body] pub fn reader(&self) -> CoverTreeReader<D> { unimplemented!() }
}
pub open spec fn lsame<D>(a: Seq<CoverLayerWriter<D>>, b: Seq<CoverLayerWriter<D>>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).same(&b[i]) }
pub open spec fn lwf<D>(ls: Seq<CoverLayerWriter<D>>) -> bool {
    &&& forall|i: int, x: usize| 0 <= i < ls.len() && #[trigger] ls[i].nodes().contains_key(x) ==> ls[i].nodes()[x].addr().1 == x
    &&& forall|i: int, j: int, a: NodeAddress| #[trigger] has_at(ls, i, a) && #[trigger] has_at(ls, j, a) ==> i == j
    &&& forall|i: int, x: usize, a: NodeAddress| 0 <= i < ls.len() && ls[i].nodes().contains_key(x) && #[trigger] ls[i].nodes()[x].is_kid(a) ==> exists|j: int| j < i && has_at(ls, j, a)
}
/// the layers below `n` show a right component on every node
pub open spec fn done<D, P: Judge>(p: P, ls: Seq<CoverLayerWriter<D>>, n: int) -> bool { forall|i: int, x: usize| 0 <= i < n && i < ls.len() && #[trigger] ls[i].nodes().contains_key(x) ==> p.right(ls[i].nodes()[x].addr(), ls[i].shown(x)) }
proof fn l_shown<D, P: Judge>(p: P, ls: Seq<CoverLayerWriter<D>>, i: int, x: usize)
    requires lwf(ls), done(p, ls, i), 0 <= i < ls.len(), ls[i].nodes().contains_key(x)
    ensures forall|a: NodeAddress| #[trigger] ls[i].nodes()[x].is_kid(a) ==> ready(p, ls, a)
{
    assert forall|a: NodeAddress| #[trigger] ls[i].nodes()[x].is_kid(a) implies ready(p, ls, a) by {
        let j = choose|j: int| j < i && has_at(ls, j, a);
        assert(ls[j].nodes().contains_key(a.1));
    }
}
proof fn l_lwf<D>(a: Seq<CoverLayerWriter<D>>, b: Seq<CoverLayerWriter<D>>) requires lwf(a), lsame(a, b) ensures lwf(b)
{
    assert forall|i: int, x: usize| 0 <= i < b.len() && #[trigger] b[i].nodes().contains_key(x) implies b[i].nodes()[x].addr().1 == x by { assert(a[i].same(&b[i])); }
    assert forall|i: int, j: int, e: NodeAddress| #[trigger] has_at(b, i, e) && #[trigger] has_at(b, j, e) implies i == j by { assert(a[i].same(&b[i]) && a[j].same(&b[j])); assert(has_at(a, i, e) && has_at(a, j, e)); }
    assert forall|i: int, x: usize, e: NodeAddress| 0 <= i < b.len() && b[i].nodes().contains_key(x) && #[trigger] b[i].nodes()[x].is_kid(e) implies exists|j: int| j < i && has_at(b, j, e) by {
        assert(a[i].same(&b[i])); assert(a[i].nodes()[x].is_kid(e)); let j = choose|j: int| j < i && has_at(a, j, e); assert(a[j].same(&b[j])); assert(has_at(b, j, e));
    }
}
impl<D: PointCloud> CoverTreeWriter<D> {
//@ fn goko/src/covertree/tree.rs CoverTreeWriter::add_plugin
//@ spec
    requires old(self).wf(), old(self).blank(),
    ensures final(self).same(old(self)), done(plug_in, final(self).layers@, final(self).layers@.len() as int),
//@ subst layer . update_node (* pi, move | n | n . insert_plugin (node_component . clone ())) => layer . attach (* pi, node_component . clone ())
//@ subst (& plug_in, n, & reader) => (& plug_in, n, & reader, Ghost(ls))
//@ subst self . parameters . plugins . write () . unwrap () . insert (plug_in) => self . parameters . keep (plug_in)
//@ loops 2
//@ loop 0
    invariant __k1 <= self.layers@.len(), lsame(self.layers@, old(self).layers@), self.root_address == old(self).root_address, lwf(self.layers@), done(plug_in, self.layers@, __k1 as int),
        forall|i: int, x: usize| __k1 <= i < self.layers@.len() ==> #[trigger] self.layers@[i].shown(x) is None && self.layers@[i].written(x) is None,
    decreases self.layers@.len() - __k1
//@ loopstart 0
    let ghost ls = self.layers@; let ghost k = __k1 as int;
//@ loopend 0
    proof { l_lwf(ls, self.layers@); }
//@ loopbefore 1
    proof { assert forall|x: usize| #[trigger] layer.written(x) is None by { assert(ls[k].shown(x) is None); } }
//@ loop 1
    invariant
        0 <= k < ls.len(), lwf(ls), done(plug_in, ls, k), layer.same(&ls[k]), __o3.nodes() == ls[k].nodes(),
        forall|j: int| 0 <= j < it1.seq().len() ==> __o3.nodes().contains_key(*(#[trigger] it1.seq()[j]).0) && __o3.nodes()[*it1.seq()[j].0] == *it1.seq()[j].1,
        forall|i: int, j: int| 0 <= i < j < it1.seq().len() ==> *(#[trigger] it1.seq()[i]).0 != *(#[trigger] it1.seq()[j]).0,
        forall|x: usize| #[trigger] layer.shown(x) == ls[k].shown(x),
        forall|j: int| 0 <= j < it1.index() ==> plug_in.right((#[trigger] it1.seq()[j]).1.addr(), layer.written(*it1.seq()[j].0)),
        forall|j: int| it1.index() <= j < it1.seq().len() ==> layer.written(*(#[trigger] it1.seq()[j]).0) is None,
//@ loopstart 1
    proof { l_shown(plug_in, ls, k, *pi); }
//@ end
}
} // verus!
fn main() {}
