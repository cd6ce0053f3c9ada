//@ include prelude.vrs
//@ include coll.vrs
// =====================================================================================
// UNIT knn: exact k-nearest-neighbour search
// =====================================================================================
//@ gsubst SmallVec < [NodeAddress; 10] > => Vec < NodeAddress >
//@ gsubst SmallVec < [usize; 20] > => Vec < usize >
//@ gsubst < P : Deref < Target = D::Point > + Send + Sync > => < P >
//@ gsubst P : Deref < Target = D::Point > + Send + Sync, => P,
//@ gsubst D::Metric::dist => metric_dist
//@ gsubst Vec :: with_capacity => vcap
//@ gsubst atomic::AtomicUsize => Opaque
//@ gsubst RwLock < TreePluginSet > => Opaque
//@ gsubst Arc < CoverTreeParameters < D > > => CoverTreeParameters < D >
//@ gsubst Arc < D > => D
//@ gsubst NodePluginSet => Opaque
//@ gsubst PhantomData < D > => Ghost < Option < D > >
pub type NodeAddress = (i32, usize);
#[verifier::external_body] pub struct Opaque { x: usize }
#[verifier::external_body] pub struct GokoError { x: usize }
pub type GokoResult<T> = Result<T, GokoError>;
pub type PointCloudResult<T> = Result<T, GokoError>;
#[verifier::external_body] pub struct PointHandle { x: usize }
impl PointHandle { pub uninterp spec fn idx(&self) -> usize; }

// ---- the query and the tree are fixed but arbitrary
/// distance from the query point to data point i
pub uninterp spec fn qd(i: usize) -> real;
/// the points covered by the node at an address (its whole subtree)
pub uninterp spec fn cov(a: NodeAddress) -> Set<usize>;
/// the centres of the node at an address and of the nodes below it
pub uninterp spec fn cen(a: NodeAddress) -> Set<usize>;
/// indexes for which the point cloud has a point
pub uninterp spec fn valid(i: usize) -> bool;

pub trait PointCloud: Sized {
    // CONTRACT of the point cloud (decided by the data-source unit for the shipped sources)
    fn distances_to_point<P>(&self, point: &P, indexes: &[usize]) -> (r: PointCloudResult<Vec<f32>>)
        ensures
            (forall|j: int| 0 <= j < indexes@.len() ==> valid(#[trigger] indexes@[j])) ==> r is Ok,
            r is Ok ==> r->Ok_0@.len() == indexes@.len() && forall|j: int| 0 <= j < indexes@.len() ==> (#[trigger] r->Ok_0@[j])@ == qd(indexes@[j]);
    fn point(&self, i: usize) -> (r: PointCloudResult<PointHandle>)
        ensures valid(i) ==> r is Ok, r is Ok ==> r->Ok_0.idx() == i;
}
#[verifier::external_body]
pub fn metric_dist<P>(a: &PointHandle, b: &P) -> (r: f32) ensures r@ == qd(a.idx()) { unimplemented!() }

//@ struct goko/src/covertree/query_tools/query_items.rs QueryAddress
//@ attr #[derive(Clone, Copy)]
//@ end
//@ struct goko/src/covertree/query_tools/query_items.rs QuerySingleton
//@ attr #[derive(Clone, Copy)]
//@ end
impl QuerySingleton {
//@ fn goko/src/covertree/query_tools/query_items.rs QuerySingleton::new
//@ spec
    ensures res.index == index, res.dist == dist
//@ end
//@ fn goko/src/covertree/query_tools/query_items.rs QuerySingleton as PartialOrd::partial_cmp
//@ spec
    ensures res == Some(rcmp(self.dist@, other.dist@))
//@ end
}
impl HeapOrd for QuerySingleton {
    open spec fn hle(&self, o: &Self) -> bool { self.dist@ <= o.dist@ }
//@ fn goko/src/covertree/query_tools/query_items.rs QuerySingleton as Ord::cmp
//@ opt nopub
//@ subst Less => Ordering::Less
//@ end
}
/// the order on addresses is decided in unit `order`; here only totality is not needed
impl HeapOrd for QueryAddress {
    uninterp spec fn hle(&self, o: &Self) -> bool;
    #[verifier::external_body] fn cmp(&self, other: &Self) -> Ordering { unimplemented!() }
}

//@ struct goko/src/covertree/query_tools/knn_query_heap.rs KnnQueryHeap
//@ end

/// the heap already holds k points, none further than r
pub open spec fn exdm(h: Multiset<QuerySingleton>, k: usize, r: real) -> bool {
    h.len() >= k && (k > 0 ==> forall|s: QuerySingleton| #[trigger] h.count(s) > 0 ==> s.dist@ <= r)
}
pub open spec fn sing(i: usize) -> QuerySingleton { QuerySingleton { dist: mkr(qd(i)), index: i } }
pub open spec fn emd(a: NodeAddress, b: real) -> real { rmax(qd(a.1) - rpowi(b, a.0 as int), 0real) }
/// ghost: "some queued node has address a"
pub open spec fn queued(h: Multiset<QueryAddress>, a: NodeAddress) -> bool {
    exists|q: QueryAddress| #[trigger] h.count(q) > 0 && q.address == a
}

pub broadcast proof fn queued_insert(h: Multiset<QueryAddress>, q: QueryAddress)
    ensures #![trigger h.insert(q)]
        forall|a: NodeAddress| #[trigger] queued(h, a) ==> queued(h.insert(q), a),
        queued(h.insert(q), q.address),
{
    assert forall|a: NodeAddress| #[trigger] queued(h, a) implies queued(h.insert(q), a) by {
        let w = choose|w: QueryAddress| #[trigger] h.count(w) > 0 && w.address == a; assert(h.insert(q).count(w) > 0);
    }
    assert(h.insert(q).count(q) > 0);
}
pub broadcast proof fn queued_remove(h: Multiset<QueryAddress>, q: QueryAddress)
    ensures #![trigger h.remove(q)]
        forall|a: NodeAddress| #[trigger] queued(h, a) ==> a == q.address || queued(h.remove(q), a),
        forall|a: NodeAddress| #[trigger] queued(h.remove(q), a) ==> queued(h, a),
        h.count(q) > 0 ==> queued(h, q.address),
{
    assert forall|a: NodeAddress| #[trigger] queued(h, a) implies a == q.address || queued(h.remove(q), a) by {
        let w = choose|w: QueryAddress| #[trigger] h.count(w) > 0 && w.address == a;
        if w != q { assert(h.remove(q).count(w) > 0); }
    }
    assert forall|a: NodeAddress| #[trigger] queued(h.remove(q), a) implies queued(h, a) by {
        let w = choose|w: QueryAddress| #[trigger] h.remove(q).count(w) > 0 && w.address == a;
        assert(h.count(w) > 0);
    }
}
pub broadcast proof fn queued_insert_inv(h: Multiset<QueryAddress>, q: QueryAddress)
    ensures #![trigger h.insert(q)]
        forall|a: NodeAddress| #[trigger] queued(h.insert(q), a) ==> queued(h, a) || a == q.address,
{
    assert forall|a: NodeAddress| #[trigger] queued(h.insert(q), a) implies queued(h, a) || a == q.address by {
        let w = choose|w: QueryAddress| #[trigger] h.insert(q).count(w) > 0 && w.address == a;
        if w != q { assert(h.count(w) > 0); }
    }
}
/// what `unpack` has taken off the heap so far: greatest first, nothing lost
pub open spec fn desc(out: Seq<(f32, usize)>, rest: Multiset<QuerySingleton>, all: Multiset<QuerySingleton>) -> bool {
    &&& out.len() + rest.len() == all.len()
    &&& forall|j: int| 0 <= j < out.len() ==> out[j] == (sing((#[trigger] out[j]).1).dist, out[j].1) && all.count(sing(out[j].1)) > 0 && rest.count(sing(out[j].1)) == 0
    &&& forall|s: QuerySingleton| #[trigger] rest.count(s) <= all.count(s)
    &&& forall|s: QuerySingleton| #[trigger] all.count(s) > 0 ==> rest.count(s) > 0 || exists|j: int| 0 <= j < out.len() && (#[trigger] out[j]).1 == s.index
    &&& forall|i: int, j: int| 0 <= i < j < out.len() ==> (#[trigger] out[i]).0@ >= (#[trigger] out[j]).0@ && out[i].1 != out[j].1
    &&& forall|j: int, s: QuerySingleton| 0 <= j < out.len() && rest.count(s) > 0 ==> #[trigger] rest.count(s) > 0 && s.dist@ <= (#[trigger] out[j]).0@
}
pub proof fn lemma_desc(r0: Seq<(f32, usize)>, h0: Multiset<QuerySingleton>, r1: Seq<(f32, usize)>, h1: Multiset<QuerySingleton>, all: Multiset<QuerySingleton>)
    requires desc(r0, h0, all), r1.len() == r0.len() + 1, r1 == r0.push((sing(r1.last().1).dist, r1.last().1)),
        h1 == h0.remove(sing(r1.last().1)), h0.count(sing(r1.last().1)) > 0,
        forall|s: QuerySingleton| #[trigger] all.count(s) > 0 ==> s == sing(s.index) && all.count(s) == 1,
        forall|x: QuerySingleton| #[trigger] h0.count(x) > 0 ==> x.dist@ <= sing(r1.last().1).dist@,
    ensures desc(r1, h1, all)
{
    let el = sing(r1.last().1);
    assert(r1[r1.len() - 1] == (el.dist, el.index));
    assert forall|s: QuerySingleton| #[trigger] all.count(s) > 0 implies h1.count(s) > 0 || exists|j: int| 0 <= j < r1.len() && (#[trigger] r1[j]).1 == s.index by {
        if s == el { assert(r1[r1.len() - 1].1 == s.index); }
        else if h0.count(s) > 0 { assert(h1.count(s) > 0); }
        else { let j = choose|j: int| 0 <= j < r0.len() && (#[trigger] r0[j]).1 == s.index; assert(r1[j].1 == s.index); }
    }
    assert forall|j: int| 0 <= j < r1.len() implies r1[j] == (sing((#[trigger] r1[j]).1).dist, r1[j].1) && all.count(sing(r1[j].1)) > 0 && h1.count(sing(r1[j].1)) == 0 by {
        if j < r0.len() { assert(r1[j] == r0[j]); } else { assert(h0.count(el) <= all.count(el)); }
    }
    assert forall|i: int, j: int| 0 <= i < j < r1.len() implies (#[trigger] r1[i]).0@ >= (#[trigger] r1[j]).0@ && r1[i].1 != r1[j].1 by {
        assert(r1[i] == r0[i]); if j < r0.len() { assert(r1[j] == r0[j]); } else { assert(h0.count(el) > 0); assert(h0.count(sing(r0[i].1)) == 0); }
    }
    assert forall|j: int, s: QuerySingleton| 0 <= j < r1.len() && h1.count(s) > 0 implies #[trigger] h1.count(s) > 0 && s.dist@ <= (#[trigger] r1[j]).0@ by {
        assert(h0.count(s) > 0);
        if j < r0.len() { assert(r1[j] == r0[j]); }
    }
}
pub proof fn lemma_answer(h: KnnQueryHeap, out: Seq<(f32, usize)>, res: Seq<(f32, usize)>)
    requires h.dinv(), desc(out, Multiset::empty(), h.dist_heap@), res.len() == out.len(),
        forall|j: int| 0 <= j < res.len() ==> (#[trigger] res[j]) == out[out.len() - 1 - j],
    ensures answer(res, h.known_indexes@, h.k as int),
        forall|r: real| #[trigger] h.exd(r) ==> res.len() == h.k && forall|j: int| 0 <= j < res.len() ==> (#[trigger] res[j]).0@ <= r,
{
    assert forall|r: real| #[trigger] h.exd(r) implies res.len() == h.k && forall|j: int| 0 <= j < res.len() ==> (#[trigger] res[j]).0@ <= r by {
        assert forall|j: int| 0 <= j < res.len() implies (#[trigger] res[j]).0@ <= r by {
            let s = sing(out[out.len() - 1 - j].1);
            assert(h.dist_heap@.count(s) > 0);
        }
    }
    assert forall|p: usize| #[trigger] h.known_indexes@.contains(p) implies (exists|j: int| 0 <= j < res.len() && (#[trigger] res[j]).1 == p)
            || (res.len() == h.k && forall|j: int| 0 <= j < res.len() ==> (#[trigger] res[j]).0@ <= qd(p)) by {
        if h.dist_heap@.count(sing(p)) > 0 {
            let j = choose|j: int| 0 <= j < out.len() && (#[trigger] out[j]).1 == p;
            assert(res[out.len() - 1 - j].1 == p);
        } else {
            assert forall|j: int| 0 <= j < res.len() implies (#[trigger] res[j]).0@ <= qd(p) by {
                let s = sing(out[out.len() - 1 - j].1);
                assert(h.dist_heap@.count(s) > 0);
            }
        }
    }
}
/// `res` is an exact k-nearest answer among the points `known`
pub open spec fn answer(res: Seq<(f32, usize)>, known: Set<usize>, k: int) -> bool {
    &&& res.len() <= k
    &&& forall|j: int| 0 <= j < res.len() ==> (#[trigger] res[j]).0@ == qd(res[j].1) && known.contains(res[j].1)
    &&& forall|i: int, j: int| 0 <= i < j < res.len() ==> (#[trigger] res[i]).0@ <= (#[trigger] res[j]).0@ && res[i].1 != res[j].1
    &&& forall|p: usize| #[trigger] known.contains(p) ==> (exists|j: int| 0 <= j < res.len() && (#[trigger] res[j]).1 == p)
            || (res.len() == k && forall|j: int| 0 <= j < res.len() ==> (#[trigger] res[j]).0@ <= qd(p))
}
broadcast use {fl::ax_mk, fl::ax_mk2};

impl KnnQueryHeap {
    /// the k best so far, among the points known so far
    pub open spec fn dinv(&self) -> bool {
        &&& self.dist_heap@.len() <= self.k
        &&& self.dinv0()
    }
    pub open spec fn dinv0(&self) -> bool {
        &&& forall|s: QuerySingleton| #[trigger] self.dist_heap@.count(s) > 0 ==> s == sing(s.index) && self.known_indexes@.contains(s.index) && self.dist_heap@.count(s) == 1
        &&& forall|i: usize| #[trigger] self.known_indexes@.contains(i) ==> self.dist_heap@.count(sing(i)) > 0 || self.exd(qd(i))
    }
    /// every point at distance >= r can be discarded
    #[verifier::inline]
    pub open spec fn exd(&self, r: real) -> bool { exdm(self.dist_heap@, self.k, r) }
    pub open spec fn qinv(&self) -> bool {
        &&& self.scale_base@ > 0real
        &&& forall|q: QueryAddress| #[trigger] self.child_heap@.count(q) > 0 ==> q.dist_to_center@ == qd(q.address.1) && self.known_indexes@.contains(q.address.1)
        &&& forall|q: QueryAddress| #[trigger] self.singleton_heap@.count(q) > 0 ==> q.dist_to_center@ == qd(q.address.1) && self.known_indexes@.contains(q.address.1)
    }
    pub open spec fn inv(&self) -> bool { self.dinv() && self.qinv() }
    /// later states only discard more, know more
    pub open spec fn extends(&self, o: &KnnQueryHeap) -> bool {
        &&& self.k == o.k && self.scale_base == o.scale_base
        &&& forall|r: real| #[trigger] o.exd(r) ==> self.exd(r)
        &&& forall|i: usize| #[trigger] o.known_indexes@.contains(i) ==> self.known_indexes@.contains(i)
    }
    pub open spec fn node_done(&self, a: NodeAddress) -> bool { queued(self.child_heap@, a) || self.exd(emd(a, self.scale_base@)) }

//@ fn goko/src/covertree/query_tools/knn_query_heap.rs KnnQueryHeap::new
//@ spec
    ensures res.k == k, res.scale_base == scale_base, res.dinv(),
        scale_base@ > 0real ==> res.inv(),
        res.child_heap@ == Multiset::<QueryAddress>::empty(), res.singleton_heap@ == Multiset::<QueryAddress>::empty(),
        res.known_indexes@ == Set::<usize>::empty(), res.dist_heap@ == Multiset::<QuerySingleton>::empty(),
//@ end
//@ fn goko/src/covertree/query_tools/knn_query_heap.rs KnnQueryHeap::len
//@ spec
    ensures res == self.dist_heap@.len()
//@ end
//@ fn goko/src/covertree/query_tools/knn_query_heap.rs KnnQueryHeap::is_empty
//@ spec
    ensures res == (self.dist_heap@.len() == 0)
//@ end
//@ fn goko/src/covertree/query_tools/knn_query_heap.rs KnnQueryHeap::node_len
//@ spec
    requires self.child_heap@.len() + self.singleton_heap@.len() <= usize::MAX
    ensures res == self.child_heap@.len() + self.singleton_heap@.len()
//@ end
//@ fn goko/src/covertree/query_tools/knn_query_heap.rs KnnQueryHeap::max_dist
//@ spec
    ensures
        self.dist_heap@.len() < self.k ==> res@ == rfmax(),
        res@ == rfmax() || self.exd(res@),
//@ end
//@ fn goko/src/covertree/query_tools/knn_query_heap.rs KnnQueryHeap::increase_estimated_distance
//@ spec
    ensures *final(self) == (KnnQueryHeap { est_min_dist: final(self).est_min_dist, ..*old(self) }),
//@ end

//@ fn goko/src/covertree/query_tools/knn_query_heap.rs KnnQueryHeap as RoutingQueryHeap::push_nodes
//@ loops 2
//@ spec
    requires
        old(self).inv(),
        indexes@.len() == dists@.len(),
        forall|j: int| 0 <= j < dists@.len() ==> (#[trigger] dists@[j])@ == qd(indexes@[j].1) && 0real <= qd(indexes@[j].1) < rfmax(),
    ensures
        final(self).inv(), final(self).extends(old(self)),
        final(self).singleton_heap@ == old(self).singleton_heap@,
        forall|j: int| 0 <= j < indexes@.len() ==> final(self).known_indexes@.contains((#[trigger] indexes@[j]).1),
        forall|i: usize| #[trigger] final(self).known_indexes@.contains(i) ==> old(self).known_indexes@.contains(i) || exists|j: int| 0 <= j < indexes@.len() && (#[trigger] indexes@[j]).1 == i,
        forall|a: NodeAddress| #[trigger] queued(final(self).child_heap@, a) ==> queued(old(self).child_heap@, a) || indexes@.contains(a),
        forall|j: int| 0 <= j < indexes@.len() ==> final(self).node_done(#[trigger] indexes@[j]),
        forall|a: NodeAddress| #[trigger] queued(old(self).child_heap@, a) ==> queued(final(self).child_heap@, a),
//@ start
    let ghost me0 = *self; broadcast use queued_insert;
//@ loop 0
    invariant
        self.inv(), self.extends(&me0), self.singleton_heap@ == me0.singleton_heap@,
        it0.index() <= indexes@.len(), indexes@.len() == dists@.len(),
        it0.seq().len() == indexes@.len(),
        forall|j: int| 0 <= j < dists@.len() ==> *(#[trigger] it0.seq()[j]).0 == indexes@[j] && *it0.seq()[j].1 == dists@[j],
        max_dist@ == rfmax() || self.exd(max_dist@),
        forall|j: int| 0 <= j < it0.index() ==> self.known_indexes@.contains((#[trigger] indexes@[j]).1),
        forall|i: usize| #[trigger] self.known_indexes@.contains(i) ==> me0.known_indexes@.contains(i) || exists|j: int| 0 <= j < it0.index() && (#[trigger] indexes@[j]).1 == i,
        forall|a: NodeAddress| #[trigger] queued(self.child_heap@, a) ==> queued(me0.child_heap@, a) || indexes@.contains(a),
        forall|j: int| 0 <= j < it0.index() ==> self.node_done(#[trigger] indexes@[j]),
        forall|a: NodeAddress| #[trigger] queued(me0.child_heap@, a) ==> queued(self.child_heap@, a),
//@ loopstart 0
    broadcast use {queued_insert, queued_insert_inv, fl::ax_pos_powi};
    proof { ax_fmax(); }
//@ loop 1
    invariant
        self.dinv0(), self.qinv(), self.extends(&me0), self.singleton_heap@ == me0.singleton_heap@,
        self.dist_heap@.len() <= self.k + 1,
        max_dist@ == rfmax() || self.exd(max_dist@),
        forall|j: int| 0 <= j <= it0.index() ==> self.known_indexes@.contains((#[trigger] indexes@[j]).1),
        forall|i: usize| #[trigger] self.known_indexes@.contains(i) ==> me0.known_indexes@.contains(i) || exists|j: int| 0 <= j <= it0.index() && (#[trigger] indexes@[j]).1 == i,
        forall|a: NodeAddress| #[trigger] queued(self.child_heap@, a) ==> queued(me0.child_heap@, a) || indexes@.contains(a),
        forall|j: int| 0 <= j <= it0.index() ==> self.node_done(#[trigger] indexes@[j]),
        forall|a: NodeAddress| #[trigger] queued(me0.child_heap@, a) ==> queued(self.child_heap@, a),
    decreases self.dist_heap@.len()
//@ end

//@ fn goko/src/covertree/query_tools/knn_query_heap.rs KnnQueryHeap as SingletonQueryHeap::push_outliers
//@ loops 2
//@ spec
    requires
        old(self).inv(),
        indexes@.len() == dists@.len(),
        forall|j: int| 0 <= j < dists@.len() ==> (#[trigger] dists@[j])@ == qd(indexes@[j]),
    ensures
        final(self).inv(), final(self).extends(old(self)),
        final(self).singleton_heap@ == old(self).singleton_heap@,
        final(self).child_heap@ == old(self).child_heap@,
        forall|j: int| 0 <= j < indexes@.len() ==> final(self).known_indexes@.contains(#[trigger] indexes@[j]),
        forall|i: usize| #[trigger] final(self).known_indexes@.contains(i) ==> old(self).known_indexes@.contains(i) || indexes@.contains(i),
//@ start
    let ghost me0 = *self;
//@ loop 0
    invariant
        self.inv(), self.extends(&me0), self.singleton_heap@ == me0.singleton_heap@, self.child_heap@ == me0.child_heap@,
        it0.index() <= indexes@.len(), indexes@.len() == dists@.len(), it0.seq().len() == indexes@.len(),
        forall|j: int| 0 <= j < dists@.len() ==> *(#[trigger] it0.seq()[j]).0 == indexes@[j] && *it0.seq()[j].1 == dists@[j],
        forall|j: int| 0 <= j < dists@.len() ==> (#[trigger] dists@[j])@ == qd(indexes@[j]),
        forall|j: int| 0 <= j < it0.index() ==> self.known_indexes@.contains(#[trigger] indexes@[j]),
        forall|i: usize| #[trigger] self.known_indexes@.contains(i) ==> me0.known_indexes@.contains(i) || indexes@.contains(i),
//@ loop 1
    invariant
        self.dinv0(), self.qinv(), self.extends(&me0), self.singleton_heap@ == me0.singleton_heap@, self.child_heap@ == me0.child_heap@,
        self.dist_heap@.len() <= self.k + 1,
        forall|j: int| 0 <= j <= it0.index() ==> self.known_indexes@.contains(#[trigger] indexes@[j]),
        forall|i: usize| #[trigger] self.known_indexes@.contains(i) ==> me0.known_indexes@.contains(i) || indexes@.contains(i),
    decreases self.dist_heap@.len()
//@ end

//@ fn goko/src/covertree/query_tools/knn_query_heap.rs KnnQueryHeap::closest_unvisited_child_covering_address
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ loops 1
//@ spec
    requires old(self).inv()
    ensures
        final(self).inv(),
        final(self).dist_heap@ == old(self).dist_heap@, final(self).known_indexes@ == old(self).known_indexes@, final(self).k == old(self).k, final(self).scale_base == old(self).scale_base,
        forall|a: NodeAddress| #[trigger] queued(old(self).singleton_heap@, a) ==> queued(final(self).singleton_heap@, a),
        forall|a: NodeAddress| #[trigger] queued(final(self).singleton_heap@, a) ==> queued(old(self).singleton_heap@, a) || (res is Some && a == (res->0).1),
        match res {
            None => forall|a: NodeAddress| !queued(old(self).child_heap@, a) && !queued(final(self).child_heap@, a),
            Some(da) => da.0@ == qd(da.1.1) && queued(old(self).child_heap@, da.1) && queued(final(self).singleton_heap@, da.1)
                && (forall|a: NodeAddress| #[trigger] queued(old(self).child_heap@, a) ==> a == da.1 || queued(final(self).child_heap@, a))
                && (forall|a: NodeAddress| #[trigger] queued(final(self).child_heap@, a) ==> queued(old(self).child_heap@, a)),
        },
//@ start
    let ghost me0 = *self;
    broadcast use {queued_insert, queued_remove};
//@ loop 0
    invariant
        self.inv(),
        self.dist_heap@ == me0.dist_heap@, self.known_indexes@ == me0.known_indexes@, self.k == me0.k, self.scale_base == me0.scale_base,
        self.singleton_heap@ == me0.singleton_heap@,
        forall|a: NodeAddress| #[trigger] queued(me0.child_heap@, a) == queued(self.child_heap@, a),
    ensures
        self.inv(),
        self.dist_heap@ == me0.dist_heap@, self.known_indexes@ == me0.known_indexes@, self.k == me0.k, self.scale_base == me0.scale_base,
        self.singleton_heap@ == me0.singleton_heap@,
        forall|a: NodeAddress| !queued(me0.child_heap@, a) && !queued(self.child_heap@, a),
//@ loopstart 0
    broadcast use {queued_insert, queued_remove, queued_insert_inv};
//@ end

//@ fn goko/src/covertree/query_tools/knn_query_heap.rs KnnQueryHeap::closest_unvisited_singleton_covering_address
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ loops 1
//@ spec
    requires old(self).inv()
    ensures
        final(self).inv(),
        final(self).dist_heap@ == old(self).dist_heap@, final(self).known_indexes@ == old(self).known_indexes@, final(self).k == old(self).k, final(self).scale_base == old(self).scale_base,
        final(self).child_heap@ == old(self).child_heap@,
        match res {
            None => forall|a: NodeAddress| !queued(old(self).singleton_heap@, a) && !queued(final(self).singleton_heap@, a),
            Some(da) => queued(old(self).singleton_heap@, da.1)
                && (forall|a: NodeAddress| #[trigger] queued(old(self).singleton_heap@, a) ==> a == da.1 || queued(final(self).singleton_heap@, a))
                && (forall|a: NodeAddress| #[trigger] queued(final(self).singleton_heap@, a) ==> queued(old(self).singleton_heap@, a)),
        },
//@ start
    let ghost me0 = *self;
//@ loop 0
    invariant
        self.inv(),
        self.dist_heap@ == me0.dist_heap@, self.known_indexes@ == me0.known_indexes@, self.k == me0.k, self.scale_base == me0.scale_base,
        self.child_heap@ == me0.child_heap@,
        forall|a: NodeAddress| #[trigger] queued(me0.singleton_heap@, a) == queued(self.singleton_heap@, a),
    ensures
        self.inv(),
        self.dist_heap@ == me0.dist_heap@, self.known_indexes@ == me0.known_indexes@, self.k == me0.k, self.scale_base == me0.scale_base,
        self.child_heap@ == me0.child_heap@,
        forall|a: NodeAddress| !queued(me0.singleton_heap@, a) && !queued(self.singleton_heap@, a),
//@ loopstart 0
    broadcast use {queued_insert, queued_remove, queued_insert_inv};
//@ end

//@ fn goko/src/covertree/query_tools/knn_query_heap.rs KnnQueryHeap::unpack
//@ loops 2
//@ spec
    requires self.dinv()
    ensures
        answer(res@, self.known_indexes@, self.k as int),
        forall|r: real| #[trigger] self.exd(r) ==> res@.len() == self.k && forall|j: int| 0 <= j < res@.len() ==> (#[trigger] res@[j]).0@ <= r,
//@ loop 0
    invariant
        self.dinv(),
        desc(result@, self_.dist_heap@, self.dist_heap@),
    ensures desc(result@, self_.dist_heap@, self.dist_heap@), self_.dist_heap@.len() == 0,
    decreases self_.dist_heap@.len()
//@ loopstart 0
    let ghost r0 = result@; let ghost h0 = self_.dist_heap@;
//@ loopend 0
    proof { lemma_desc(r0, h0, result@, self_.dist_heap@, self.dist_heap@); }
//@ loop 1
    invariant
        __acc1@.len() == it1.index(), it1.index() <= result@.len(), it1.seq().len() == result@.len(),
        forall|j: int| 0 <= j < result@.len() ==> *(#[trigger] it1.seq()[j]) == result@[result@.len() - 1 - j],
        forall|j: int| 0 <= j < __acc1@.len() ==> (#[trigger] __acc1@[j]) == result@[result@.len() - 1 - j],
//@ finish
    proof { lemma_answer(self, result@, res@); }
//@ end
}

// ---------------------------------------------------------------- nodes
//@ gsubst P, T : SingletonQueryHeap > => P >
//@ gsubst P, T : RoutingQueryHeap > => P >
//@ gsubst & mut T => & mut KnnQueryHeap
//@ struct goko/src/covertree/node.rs NodeChildren
//@ end
//@ struct goko/src/covertree/node.rs CoverNode
//@ end
/// the tree invariant at one node (established by construction: properties tree-partition and covering-radius)
pub open spec fn node_ok<D: PointCloud>(n: &CoverNode<D>, a: NodeAddress, b: real) -> bool {
    &&& n.address == a
    &&& cov(a).contains(a.1) && cen(a).contains(a.1)
    &&& forall|p: usize| #[trigger] cen(a).contains(p) ==> p == a.1 || (n.children is Some && (cen((n.children->0.nested_scale, a.1)).contains(p) || exists|j: int| 0 <= j < n.children->0.addresses@.len() && cen(#[trigger] n.children->0.addresses@[j]).contains(p)))
    &&& forall|p: usize| #[trigger] cov(a).contains(p) ==> valid(p) && 0real <= qd(p) < rfmax() && qd(p) >= qd(a.1) - rpowi(b, a.0 as int)
    &&& forall|j: int| 0 <= j < n.singles_indexes@.len() ==> cov(a).contains(#[trigger] n.singles_indexes@[j])
    &&& match n.children {
        None => forall|p: usize| #[trigger] cov(a).contains(p) ==> p == a.1 || n.singles_indexes@.contains(p),
        Some(c) => (forall|p: usize| #[trigger] cov(a).contains(p) ==> n.singles_indexes@.contains(p) || cov((c.nested_scale, a.1)).contains(p)
                        || exists|j: int| 0 <= j < c.addresses@.len() && cov(#[trigger] c.addresses@[j]).contains(p))
            && forall|j: int| 0 <= j < c.addresses@.len() ==> cov(a).contains((#[trigger] c.addresses@[j]).1),
    }
}
pub open spec fn is_child<D: PointCloud>(n: &CoverNode<D>, a: NodeAddress) -> bool {
    n.children is Some && (a == (n.children->0.nested_scale, n.address.1) || n.children->0.addresses@.contains(a))
}
pub open spec fn is_kid_center<D: PointCloud>(n: &CoverNode<D>, i: usize) -> bool { n.children is Some && (i == n.address.1 || exists|j: int| 0 <= j < n.children->0.addresses@.len() && (#[trigger] n.children->0.addresses@[j]).1 == i) }
/// all nodes reachable from a routing step have been queued or can be discarded
pub open spec fn children_done<D: PointCloud>(n: &CoverNode<D>, h: &KnnQueryHeap) -> bool {
    match n.children {
        None => true,
        Some(c) => h.node_done((c.nested_scale, n.address.1)) && forall|j: int| 0 <= j < c.addresses@.len() ==> h.node_done(#[trigger] c.addresses@[j]),
    }
}
impl<D: PointCloud> CoverNode<D> {
//@ fn goko/src/covertree/node.rs CoverNode::is_leaf
//@ spec
    ensures res == (self.children is None)
//@ end
//@ fn goko/src/covertree/node.rs CoverNode::singleton_knn
//@ spec
    requires old(query_heap).inv(), node_ok(self, self.address, old(query_heap).scale_base@),
    ensures
        final(query_heap).inv(), final(query_heap).extends(old(query_heap)),
        final(query_heap).singleton_heap@ == old(query_heap).singleton_heap@,
        final(query_heap).child_heap@ == old(query_heap).child_heap@,
        forall|i: usize| #[trigger] final(query_heap).known_indexes@.contains(i) ==> old(query_heap).known_indexes@.contains(i) || cov(self.address).contains(i),
        res is Ok,
        forall|j: int| 0 <= j < self.singles_indexes@.len() ==> final(query_heap).known_indexes@.contains(#[trigger] self.singles_indexes@[j]),
//@ end
//@ fn goko/src/covertree/node.rs CoverNode::child_knn
//@ spec
    requires old(query_heap).inv(), node_ok(self, self.address, old(query_heap).scale_base@),
        dist_to_center is Some ==> dist_to_center->0@ == qd(self.address.1),
    ensures
        final(query_heap).inv(), final(query_heap).extends(old(query_heap)),
        final(query_heap).singleton_heap@ == old(query_heap).singleton_heap@,
        forall|a: NodeAddress| #[trigger] queued(old(query_heap).child_heap@, a) ==> queued(final(query_heap).child_heap@, a),
        forall|i: usize| #[trigger] final(query_heap).known_indexes@.contains(i) ==> old(query_heap).known_indexes@.contains(i) || cov(self.address).contains(i),
        forall|a: NodeAddress| #[trigger] queued(final(query_heap).child_heap@, a) ==> queued(old(query_heap).child_heap@, a) || is_child(self, a),
        forall|i: usize| #[trigger] final(query_heap).known_indexes@.contains(i) ==> old(query_heap).known_indexes@.contains(i) || is_kid_center(self, i),
        res is Ok,
        children_done(self, final(query_heap)),
//@ loop 0
    invariant
        __acc1@.len() == it0.index(), it0.seq().len() == children.addresses@.len(),
        forall|j: int| 0 <= j < it0.seq().len() ==> *(#[trigger] it0.seq()[j]) == children.addresses@[j],
        forall|j: int| 0 <= j < it0.index() ==> #[trigger] __acc1@[j] == children.addresses@[j].1,
//@ end
}
//@ include tree_core.vrs
/// every point of the data set that a search still has to account for is accounted for
pub open spec fn pending<D: PointCloud>(t: &CoverTreeReader<D>, h: &KnnQueryHeap, p: usize) -> bool {
    ||| h.known_indexes@.contains(p)
    ||| h.exd(qd(p))
    ||| exists|a: NodeAddress| #[trigger] queued(h.child_heap@, a) && cov(a).contains(p)
    ||| exists|a: NodeAddress| #[trigger] queued(h.singleton_heap@, a) && t.lookup(a) is Some && t.lookup(a)->0.singles_indexes@.contains(p)
}
pub open spec fn sinv<D: PointCloud>(t: &CoverTreeReader<D>, h: &KnnQueryHeap) -> bool {
    &&& h.inv() && h.scale_base == t.parameters.scale_base
    &&& forall|p: usize| #[trigger] cov(t.root_address).contains(p) ==> pending(t, h, p)
    &&& forall|p: usize| #[trigger] h.known_indexes@.contains(p) ==> cov(t.root_address).contains(p)
    &&& forall|a: NodeAddress| #[trigger] queued(h.child_heap@, a) ==> t.lookup(a) is Some
    &&& forall|a: NodeAddress| #[trigger] queued(h.singleton_heap@, a) ==> t.lookup(a) is Some
}
/// the same for the centres of nodes alone
pub open spec fn rpending<D: PointCloud>(t: &CoverTreeReader<D>, h: &KnnQueryHeap, p: usize) -> bool {
    ||| h.known_indexes@.contains(p)
    ||| h.exd(qd(p))
    ||| exists|a: NodeAddress| #[trigger] queued(h.child_heap@, a) && cen(a).contains(p)
}
pub open spec fn rinv<D: PointCloud>(t: &CoverTreeReader<D>, h: &KnnQueryHeap) -> bool {
    &&& forall|p: usize| #[trigger] cen(t.root_address).contains(p) ==> rpending(t, h, p)
    &&& forall|p: usize| #[trigger] h.known_indexes@.contains(p) ==> cen(t.root_address).contains(p)
}
pub proof fn lemma_routed_centers<D: PointCloud>(t: &CoverTreeReader<D>, h0: &KnnQueryHeap, h1: &KnnQueryHeap, h2: &KnnQueryHeap, a: NodeAddress)
    requires t.ok(), sinv(t, h0), rinv(t, h0), h1.inv(), h2.inv(), h2.extends(h1), h1.dist_heap@ == h0.dist_heap@, h1.known_indexes@ == h0.known_indexes@, h1.k == h0.k, h1.scale_base == h0.scale_base,
        queued(h0.child_heap@, a),
        forall|x: NodeAddress| #[trigger] queued(h0.child_heap@, x) ==> x == a || queued(h1.child_heap@, x),
        forall|x: NodeAddress| #[trigger] queued(h1.child_heap@, x) ==> queued(h2.child_heap@, x),
        children_done(&t.lookup(a)->0, h2),
        forall|i: usize| #[trigger] h2.known_indexes@.contains(i) ==> h1.known_indexes@.contains(i) || is_kid_center(&t.lookup(a)->0, i),
    ensures rinv(t, h2)
{
    let n = t.lookup(a)->0;
    assert(node_ok(&n, a, t.parameters.scale_base@));
    assert forall|p: usize| #[trigger] h2.known_indexes@.contains(p) implies cen(t.root_address).contains(p) by {
        if !h1.known_indexes@.contains(p) {
            let c = n.children->0;
            if p == a.1 { assert(cen(a).contains(p)); } else { let j = choose|j: int| 0 <= j < c.addresses@.len() && (#[trigger] c.addresses@[j]).1 == p; let y = c.addresses@[j]; assert(t.lookup(y) is Some); assert(cen(y).contains(p)); }
        } else { assert(h0.known_indexes@.contains(p)); }
    }
    assert forall|p: usize| #[trigger] cen(t.root_address).contains(p) implies rpending(t, h2, p) by {
        assert(rpending(t, h0, p));
        if h0.known_indexes@.contains(p) { assert(h1.known_indexes@.contains(p)); }
        else if h0.exd(qd(p)) { assert(h1.exd(qd(p))); }
        else {
            let x = choose|x: NodeAddress| #[trigger] queued(h0.child_heap@, x) && cen(x).contains(p);
            if x != a { assert(queued(h2.child_heap@, x)); }
            else {
                let q = choose|q: QueryAddress| #[trigger] h0.child_heap@.count(q) > 0 && q.address == a;
                assert(h0.known_indexes@.contains(a.1));
                assert(n.children is Some);
                let c = n.children->0;
                let y = if cen((c.nested_scale, a.1)).contains(p) { (c.nested_scale, a.1) } else { c.addresses@[choose|j: int| 0 <= j < c.addresses@.len() && cen(#[trigger] c.addresses@[j]).contains(p)] };
                assert(cen(y).contains(p));
                assert(h2.node_done(y));
                if !queued(h2.child_heap@, y) {
                    assert(t.lookup(y) is Some);
                    assert(node_ok(&t.lookup(y)->0, y, t.parameters.scale_base@));
                    assert(cov(y).contains(p));
                    assert(qd(p) >= emd(y, h2.scale_base@));
                    assert(h2.exd(qd(p)));
                }
            }
        }
    }
}
pub proof fn lemma_routed<D: PointCloud>(t: &CoverTreeReader<D>, h0: &KnnQueryHeap, h1: &KnnQueryHeap, h2: &KnnQueryHeap, a: NodeAddress)
    requires t.ok(), sinv(t, h0), h1.inv(), h2.inv(), h2.extends(h1), h1.dist_heap@ == h0.dist_heap@, h1.known_indexes@ == h0.known_indexes@, h1.k == h0.k, h1.scale_base == h0.scale_base,
        forall|x: NodeAddress| #[trigger] queued(h0.singleton_heap@, x) ==> queued(h1.singleton_heap@, x),
        queued(h0.child_heap@, a), queued(h1.singleton_heap@, a),
        forall|x: NodeAddress| #[trigger] queued(h0.child_heap@, x) ==> x == a || queued(h1.child_heap@, x),
        forall|x: NodeAddress| #[trigger] queued(h1.child_heap@, x) ==> queued(h2.child_heap@, x),
        h2.singleton_heap@ == h1.singleton_heap@,
        children_done(&t.lookup(a)->0, h2),
    ensures forall|p: usize| #[trigger] cov(t.root_address).contains(p) ==> pending(t, h2, p)
{
    let n = t.lookup(a)->0;
    assert forall|p: usize| #[trigger] cov(t.root_address).contains(p) implies pending(t, h2, p) by {
        assert(pending(t, h0, p));
        if h0.known_indexes@.contains(p) { assert(h1.known_indexes@.contains(p)); }
        else if h0.exd(qd(p)) { assert(h1.exd(qd(p))); }
        else if exists|x: NodeAddress| #[trigger] queued(h0.singleton_heap@, x) && t.lookup(x) is Some && t.lookup(x)->0.singles_indexes@.contains(p) {
            let x = choose|x: NodeAddress| #[trigger] queued(h0.singleton_heap@, x) && t.lookup(x) is Some && t.lookup(x)->0.singles_indexes@.contains(p);
            assert(queued(h2.singleton_heap@, x));
        } else {
            let x = choose|x: NodeAddress| #[trigger] queued(h0.child_heap@, x) && cov(x).contains(p);
            if x != a { assert(queued(h2.child_heap@, x)); }
            else {
                assert(node_ok(&n, a, t.parameters.scale_base@));
                if n.singles_indexes@.contains(p) { assert(queued(h2.singleton_heap@, a)); }
                else {
                    match n.children {
                        None => {
                            assert(p == a.1);
                            let q = choose|q: QueryAddress| #[trigger] h0.child_heap@.count(q) > 0 && q.address == a;
                            assert(h0.known_indexes@.contains(p));
                        }
                        Some(c) => {
                            let y = if cov((c.nested_scale, a.1)).contains(p) { (c.nested_scale, a.1) } else { c.addresses@[choose|j: int| 0 <= j < c.addresses@.len() && cov(#[trigger] c.addresses@[j]).contains(p)] };
                            assert(cov(y).contains(p));
                            assert(h2.node_done(y));
                            if queued(h2.child_heap@, y) { }
                            else {
                                assert(t.lookup(y) is Some);
                                assert(node_ok(&t.lookup(y)->0, y, t.parameters.scale_base@));
                                assert(qd(p) >= emd(y, h2.scale_base@));
                                assert(h2.exd(qd(p)));
                            }
                        }
                    }
                }
            }
        }
    }
}
pub proof fn lemma_singles<D: PointCloud>(t: &CoverTreeReader<D>, h0: &KnnQueryHeap, h2: &KnnQueryHeap, a: NodeAddress)
    requires t.ok(), sinv(t, h0), h2.inv(), h2.extends(h0),
        queued(h0.singleton_heap@, a), h2.child_heap@ == h0.child_heap@,
        forall|x: NodeAddress| #[trigger] queued(h0.singleton_heap@, x) ==> x == a || queued(h2.singleton_heap@, x),
        forall|j: int| 0 <= j < t.lookup(a)->0.singles_indexes@.len() ==> h2.known_indexes@.contains(#[trigger] t.lookup(a)->0.singles_indexes@[j]),
    ensures forall|p: usize| #[trigger] cov(t.root_address).contains(p) ==> pending(t, h2, p)
{
    assert forall|p: usize| #[trigger] cov(t.root_address).contains(p) implies pending(t, h2, p) by {
        assert(pending(t, h0, p));
        if h0.known_indexes@.contains(p) || h0.exd(qd(p)) { }
        else if exists|x: NodeAddress| #[trigger] queued(h0.singleton_heap@, x) && t.lookup(x) is Some && t.lookup(x)->0.singles_indexes@.contains(p) {
            let x = choose|x: NodeAddress| #[trigger] queued(h0.singleton_heap@, x) && t.lookup(x) is Some && t.lookup(x)->0.singles_indexes@.contains(p);
            if x == a { let j = choose|j: int| 0 <= j < t.lookup(a)->0.singles_indexes@.len() && t.lookup(a)->0.singles_indexes@[j] == p; assert(h2.known_indexes@.contains(t.lookup(a)->0.singles_indexes@[j])); }
            else { assert(queued(h2.singleton_heap@, x)); }
        } else {
            let x = choose|x: NodeAddress| #[trigger] queued(h0.child_heap@, x) && cov(x).contains(p);
            assert(queued(h2.child_heap@, x));
        }
    }
}
impl<D: PointCloud> CoverTreeReader<D> {
    /// the tree invariant
    pub open spec fn ok(&self) -> bool {
        &&& self.parameters.scale_base@ > 0real
        &&& self.lookup(self.root_address) is Some
        &&& forall|a: NodeAddress, p: usize| self.lookup(a) is Some && #[trigger] cov(a).contains(p) ==> cov(self.root_address).contains(p)
        &&& forall|a: NodeAddress, p: usize| self.lookup(a) is Some && #[trigger] cen(a).contains(p) ==> cen(self.root_address).contains(p) && cov(a).contains(p)
        &&& forall|a: NodeAddress| #[trigger] self.lookup(a) is Some ==> node_ok(&self.lookup(a)->0, a, self.parameters.scale_base@)
        &&& forall|a: NodeAddress| self.lookup(a) is Some && (#[trigger] self.lookup(a)->0.children) is Some ==> self.lookup((self.lookup(a)->0.children->0.nested_scale, a.1)) is Some
        &&& forall|a: NodeAddress, j: int| self.lookup(a) is Some && (self.lookup(a)->0.children) is Some && 0 <= j < self.lookup(a)->0.children->0.addresses@.len()
                ==> self.lookup(#[trigger] self.lookup(a)->0.children->0.addresses@[j]) is Some
    }
//@ fn goko/src/covertree/tree.rs CoverTreeReader::greedy_knn_nodes
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ loops 1
//@ spec
    requires self.ok(), sinv(self, old(query_heap)),
    ensures
        sinv(self, final(query_heap)), final(query_heap).extends(old(query_heap)),
        // it stops only when no node is left to expand, or when a node whose singletons are unread is waiting
        (forall|a: NodeAddress| !queued(final(query_heap).child_heap@, a)) || (exists|a: NodeAddress| queued(final(query_heap).singleton_heap@, a)),
//@ loop 0
    invariant
        self.ok(), sinv(self, query_heap), query_heap.extends(old(query_heap)),
    ensures
        sinv(self, query_heap), query_heap.extends(old(query_heap)),
        (forall|a: NodeAddress| !queued(query_heap.child_heap@, a)) || (exists|a: NodeAddress| queued(query_heap.singleton_heap@, a)),
//@ loopstart 0
    let ghost h0 = *query_heap;
//@ before if
    let ghost h1 = *query_heap;
    proof {
        assert forall|a: NodeAddress| #[trigger] queued(h1.singleton_heap@, a) implies self.lookup(a) is Some by {}
        if self.lookup(nearest_address)->0.children is None { lemma_routed(self, &h0, &h1, &h1, nearest_address); }
    }
//@ after if
    proof { lemma_routed(self, &h0, &h1, query_heap, nearest_address); }
//@ end
//@ fn goko/src/covertree/tree.rs CoverTreeReader::knn
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ loops 1
//@ spec
    requires self.ok()
    ensures res is Ok,
        answer(res->Ok_0@, cov(self.root_address), k as int),
//@ loop 0
    invariant
        self.ok(), sinv(self, &query_heap), query_heap.k == k,
        (forall|a: NodeAddress| !queued(query_heap.child_heap@, a)) || (exists|a: NodeAddress| queued(query_heap.singleton_heap@, a)),
    ensures
        sinv(self, &query_heap), query_heap.k == k,
        forall|a: NodeAddress| !queued(query_heap.child_heap@, a) && !queued(query_heap.singleton_heap@, a),
//@ loopstart 0
    let ghost h0 = query_heap;
//@ before#2 self.greedy_knn_nodes
    proof { lemma_singles(self, &h0, &query_heap, address); }
//@ loopafter 0
    proof {
        assert forall|p: usize| #[trigger] cov(self.root_address).contains(p) implies query_heap.known_indexes@.contains(p) || query_heap.exd(qd(p)) by {
            assert(pending(self, &query_heap, p));
        }
    }
//@ before#1 self.greedy_knn_nodes
    proof {
        assert([self.root_address]@[0] == self.root_address);
        assert(query_heap.node_done(self.root_address));
        assert(cov(self.root_address).contains(self.root_address.1));
    }
//@ end
//@ fn goko/src/covertree/tree.rs CoverTreeReader::greedy_knn_nodes
//@ name greedy_for_centers
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ loops 1
//@ spec
    requires self.ok(), sinv(self, old(query_heap)),
    ensures
        sinv(self, final(query_heap)), final(query_heap).extends(old(query_heap)),
        // it stops only when no node is left to expand, or when a node whose singletons are unread is waiting
        (forall|a: NodeAddress| !queued(final(query_heap).child_heap@, a)) || (exists|a: NodeAddress| queued(final(query_heap).singleton_heap@, a)),
        rinv(self, old(query_heap)) ==> rinv(self, final(query_heap)),
        // it reports no progress only when no node is left to expand
        !res ==> forall|a: NodeAddress| !queued(final(query_heap).child_heap@, a),
//@ loop 0
    invariant
        self.ok(), sinv(self, query_heap), query_heap.extends(old(query_heap)), rinv(self, old(query_heap)) ==> rinv(self, query_heap),
    ensures
        sinv(self, query_heap), query_heap.extends(old(query_heap)), rinv(self, old(query_heap)) ==> rinv(self, query_heap),
        !did_something ==> forall|a: NodeAddress| !queued(query_heap.child_heap@, a),
        (forall|a: NodeAddress| !queued(query_heap.child_heap@, a)) || (exists|a: NodeAddress| queued(query_heap.singleton_heap@, a)),
//@ loopstart 0
    let ghost h0 = *query_heap;
//@ before if
    let ghost h1 = *query_heap;
    proof {
        assert forall|a: NodeAddress| #[trigger] queued(h1.singleton_heap@, a) implies self.lookup(a) is Some by {}
        if self.lookup(nearest_address)->0.children is None { lemma_routed(self, &h0, &h1, &h1, nearest_address); if rinv(self, &h0) { lemma_routed_centers(self, &h0, &h1, &h1, nearest_address); } }
    }
//@ after if
    proof { lemma_routed(self, &h0, &h1, query_heap, nearest_address); if rinv(self, &h0) { lemma_routed_centers(self, &h0, &h1, query_heap, nearest_address); } }
//@ end
//@ fn goko/src/covertree/tree.rs CoverTreeReader::routing_knn
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ loops 1
//@ subst greedy_knn_nodes => greedy_for_centers
//@ spec
    requires self.ok()
    ensures res is Ok,
        answer(res->Ok_0@, cen(self.root_address), k as int),
//@ loop 0
    invariant
        self.ok(), sinv(self, &query_heap), rinv(self, &query_heap), query_heap.k == k,
    ensures
        sinv(self, &query_heap), rinv(self, &query_heap), query_heap.k == k,
        forall|a: NodeAddress| !queued(query_heap.child_heap@, a),
//@ loopafter 0
    proof {
        assert forall|p: usize| #[trigger] cen(self.root_address).contains(p) implies query_heap.known_indexes@.contains(p) || query_heap.exd(qd(p)) by {
            assert(rpending(self, &query_heap, p));
        }
    }
//@ before#1 self.greedy_knn_nodes
    proof {
        assert([self.root_address]@[0] == self.root_address);
        assert(query_heap.node_done(self.root_address));
        assert(cov(self.root_address).contains(self.root_address.1));
        assert(cen(self.root_address).contains(self.root_address.1));
    }
//@ end
}
} // verus!
fn main() {}
