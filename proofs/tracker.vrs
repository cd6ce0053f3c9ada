//@ include prelude.vrs
//@ include coll.vrs
//@ include discrete_body.vrs
// =====================================================================================
// UNIT tracker: windows of paths and the counts kept over them
// =====================================================================================
/// TRUSTED: std::collections::VecDeque as a sequence
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct VecDeque<T> { p: Vec<T> }
impl<T> VecDeque<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn push_back(&mut self, t: T) ensures final(self)@ == old(self)@.push(t) { unimplemented!() }
    #[verifier::external_body] pub fn push(&mut self, t: T) ensures final(self)@ == old(self)@.push(t) { unimplemented!() }
    #[verifier::external_body] pub fn iter_ref(&self) -> (r: Vec<&T>) ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self@[i] { unimplemented!() }
    #[verifier::external_body] pub fn pop_front(&mut self) -> (r: Option<T>) ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@, old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.subrange(1, old(self)@.len() as int) { unimplemented!() }
}
pub assume_specification<T> [Option::<Option<T>>::flatten] (r: Option<Option<T>>) -> (o: Option<T>) ensures o == (match r { Some(x) => x, None => None });
/// TRUSTED: a derived clone equals the original
#[verifier::external_body] pub fn vdeep<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
/// Categorical::default() is Categorical::new() (impl Default in categorical.rs)
pub fn vdefault() -> (r: Categorical) ensures r.wf(), r.tot() == 0real, forall|l: Option<NodeAddress>| #[trigger] r.wt(l) == 0real, r.cc().len() == 0 { Categorical::new() }
/// TRUSTED: the tree a tracker reads its priors from
#[verifier::external_body] #[verifier::accept_recursive_types(D)] pub struct CoverTreeReader<D> { p: Option<D> }
#[verifier::external_body] pub struct CoverNode { p: u8 }
impl CoverNode { pub uninterp spec fn covered(&self) -> usize; #[verifier::external_body] pub fn coverage_count(&self) -> (r: usize) ensures r == self.covered() { unimplemented!() } }
/// the numbering of the layers (unit paths: CoverTreeParameters::internal_index)
#[verifier::external_body] pub struct Numbering { p: u8 }
impl Numbering { pub uninterp spec fn lay(&self, s: i32) -> int; #[verifier::external_body] pub fn internal_index(&self, s: i32) -> (r: usize) ensures r == self.lay(s) { unimplemented!() } }
#[verifier::external_body] pub fn many_lists(n: usize) -> (r: Vec<Vec<usize>>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r@[i])@.len() == 0 { unimplemented!() }
/// TRUSTED (std): the largest of a list
pub open spec fn top(s: Seq<usize>, m: usize) -> bool { s.contains(m) && forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] <= m }
#[verifier::external_body] pub fn vmax<'a>(v: &'a Vec<usize>) -> (r: Option<&'a usize>) ensures (r is None) == (v@.len() == 0), r is Some ==> top(v@, *r->0) { unimplemented!() }
pub open spec fn big(s: Seq<usize>, m: usize) -> bool { if s.len() == 0 { m == 1 } else { top(s, m) } }
pub fn vtop(v: &Vec<usize>) -> (r: usize) ensures big(v@, r) { match vmax(v) { Some(m) => *m, None => 1 } }
pub open spec fn wsum(s: Seq<usize>, m: real, n: int) -> real decreases n { if n <= 0 { 0real } else { wsum(s, m, n - 1) + ((s[n - 1] as int) as real) / m } }
/// every entry divided by the largest, added up
pub open spec fn plain(s: Seq<usize>, w: real) -> bool { exists|m: usize| #[trigger] big(s, m) && w == wsum(s, (m as int) as real, s.len() as int) }
/// what the nodes of layer l among the first n of a list cover
pub open spec fn on<D>(r: CoverTreeReader<D>, s: Seq<(real, NodeAddress)>, l: int, n: int) -> Seq<usize> decreases n {
    if n <= 0 { Seq::empty() } else if r.par().lay(s[n - 1].1.0) == l { on(r, s, l, n - 1).push(r.node(s[n - 1].1)->0.covered()) } else { on(r, s, l, n - 1) }
}
pub proof fn l_on<D>(r: CoverTreeReader<D>, s: Seq<(real, NodeAddress)>, l: int, n: int) ensures on(r, s, l, n).len() <= (if n <= 0 { 0 } else { n }) decreases n { if n > 0 { l_on(r, s, l, n - 1); } }
impl CoverNode { pub uninterp spec fn singles(&self) -> nat; #[verifier::external_body] pub fn singletons_len(&self) -> (r: usize) ensures r == self.singles() { unimplemented!() } }
impl<D> CoverTreeReader<D> {
    /// the Dirichlet summary attached to a node
    pub uninterp spec fn prior(&self, a: NodeAddress) -> Option<Dirichlet>;
    pub uninterp spec fn node(&self, a: NodeAddress) -> Option<CoverNode>;
    #[verifier::external_body] pub fn get_node_plugin_ref(&self, a: NodeAddress) -> (r: Option<&Dirichlet>) ensures (r is Some) == (self.prior(a) is Some), r is Some ==> *r->0 == self.prior(a)->0 { unimplemented!() }
    #[verifier::external_body] pub fn get_node_ref(&self, a: NodeAddress) -> (r: Option<&CoverNode>) ensures (r is Some) == (self.node(a) is Some), r is Some ==> *r->0 == self.node(a)->0 { unimplemented!() }
    pub uninterp spec fn par(&self) -> Numbering;
    pub uninterp spec fn nlayers(&self) -> nat;
    #[verifier::external_body] pub fn parameters(&self) -> (r: &Numbering) ensures *r == self.par() { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.nlayers() { unimplemented!() }
    /// points of the cloud plus nodes of the tree
    pub uninterp spec fn points(&self) -> nat;
    pub uninterp spec fn nodes(&self) -> nat;
    #[verifier::external_body] pub fn cloud_len(&self) -> (r: usize) ensures r == self.points() { unimplemented!() }
    #[verifier::external_body] pub fn node_count(&self) -> (r: usize) ensures r == self.nodes() { unimplemented!() }
    pub open spec fn wf(&self) -> bool { self.points() + self.nodes() <= usize::MAX && forall|a: NodeAddress| (#[trigger] self.prior(a)) is Some ==> self.prior(a)->0.wf() }
}
//@ struct goko/src/plugins/discrete/tracker.rs FractalDimStats
//@ end
//@ struct goko/src/plugins/discrete/tracker.rs BayesCategoricalTracker
//@ subst < D : PointCloud > => <D>
//@ end
pub type Path = Seq<(f32, NodeAddress)>;
/// where a path goes from its i-th node: the next node, or nowhere
pub open spec fn nxt(p: Path, i: int) -> Option<NodeAddress> { if i + 1 < p.len() { Some(p[i + 1].1) } else { None } }
/// how often (among its first n nodes) a path leaves node a through l
pub open spec fn hop_n(p: Path, a: NodeAddress, l: Option<NodeAddress>, n: int) -> real decreases n { if n <= 0 { 0real } else { hop_n(p, a, l, n - 1) + (if p[n - 1].1 == a && nxt(p, n - 1) == l { 1real } else { 0real }) } }
pub open spec fn hop(p: Path, a: NodeAddress, l: Option<NodeAddress>) -> real { hop_n(p, a, l, p.len() as int) }
pub open spec fn cnt(w: Seq<Path>, a: NodeAddress, l: Option<NodeAddress>) -> real decreases w.len() { if w.len() == 0 { 0real } else { cnt(w.drop_last(), a, l) + hop(w.last(), a, l) } }
pub open spec fn evw(ev: Map<NodeAddress, Categorical>, a: NodeAddress, l: Option<NodeAddress>) -> real { if ev.contains_key(a) { ev[a].wt(l) } else { 0real } }
pub open spec fn cok(c: Categorical) -> bool { c.wf() && nonneg(c.cc()) && c.singleton_count@ >= 0real && c.tot() > 0real }
pub open spec fn evok(ev: Map<NodeAddress, Categorical>) -> bool { forall|a: NodeAddress| #[trigger] ev.contains_key(a) ==> cok(ev[a]) }
pub proof fn l_hop_mono(p: Path, a: NodeAddress, l: Option<NodeAddress>, m: int, n: int) requires 0 <= m <= n ensures 0real <= hop_n(p, a, l, m) <= hop_n(p, a, l, n) decreases n
{ if m < n { l_hop_mono(p, a, l, m, n - 1); } else if n > 0 { l_hop_mono(p, a, l, m - 1, n - 1); } }
/// weights that are nowhere negative
pub proof fn l_nonneg(c: Categorical) requires c.wf(), forall|l: Option<NodeAddress>| #[trigger] c.wt(l) >= 0real ensures nonneg(c.cc()), c.singleton_count@ >= 0real
{ lemma_lookup(c.cc()); assert forall|i: int| 0 <= i < c.cc().len() implies (#[trigger] c.cc()[i]).1@ >= 0real by { assert(c.wt(Some(c.cc()[i].0)) == c.cc()[i].1@); } assert(c.wt(None) == c.singleton_count@); }
pub proof fn l_wt_n(s: Seq<(NodeAddress, f64)>, a: NodeAddress, n: int) requires nonneg(s), 0 <= n <= s.len() ensures 0real <= wtn(s, a, n) <= sumn(s, n) decreases n { if n > 0 { l_wt_n(s, a, n - 1); assert(s[n - 1].1@ >= 0real); } }
/// no weight is negative or above the total
pub proof fn l_wt(c: Categorical) requires nonneg(c.cc()), c.singleton_count@ >= 0real ensures forall|l: Option<NodeAddress>| 0real <= #[trigger] c.wt(l) <= c.tot(), c.tot() >= 0real
{
    l_wt_n(c.cc(), (0, 0), c.cc().len() as int);
    assert forall|l: Option<NodeAddress>| 0real <= #[trigger] c.wt(l) <= c.tot() by { if let Some(a) = l { l_wt_n(c.cc(), a, c.cc().len() as int); } }
}
/// one more departure from b through m
pub open spec fn bumped(x: Map<NodeAddress, Categorical>, y: Map<NodeAddress, Categorical>, b: NodeAddress, m: Option<NodeAddress>, d: real) -> bool {
    forall|a: NodeAddress, l: Option<NodeAddress>| #[trigger] evw(y, a, l) == evw(x, a, l) + (if a == b && l == m { d } else { 0real })
}
pub proof fn l_bump(x: Map<NodeAddress, Categorical>, y: Map<NodeAddress, Categorical>, c: Categorical, b: NodeAddress, m: Option<NodeAddress>)
    requires evok(x), c.wf(), c.tot() == (if x.contains_key(b) { x[b].tot() } else { 0real }) + 1real, forall|l: Option<NodeAddress>| #[trigger] c.wt(l) == evw(x, b, l) + (if l == m { 1real } else { 0real }), y == x.insert(b, c)
    ensures evok(y), bumped(x, y, b, m, 1real)
{
    if x.contains_key(b) { assert(cok(x[b])); l_wt(x[b]); }
    assert forall|l: Option<NodeAddress>| #[trigger] c.wt(l) >= 0real by { assert(evw(x, b, l) >= 0real); }
    l_nonneg(c);
    assert forall|a: NodeAddress| #[trigger] y.contains_key(a) implies cok(y[a]) by { if a != b { assert(x.contains_key(a)); assert(y[a] == x[a]); } }
    assert forall|a: NodeAddress, l: Option<NodeAddress>| #[trigger] evw(y, a, l) == evw(x, a, l) + (if a == b && l == m { 1real } else { 0real }) by { if a == b { assert(c.wt(l) == evw(x, b, l) + (if l == m { 1real } else { 0real })); } else { assert(y.contains_key(a) == x.contains_key(a)); } }
}
pub proof fn l_drop(x: Map<NodeAddress, Categorical>, y: Map<NodeAddress, Categorical>, c: Categorical, b: NodeAddress, m: Option<NodeAddress>)
    requires evok(x), x.contains_key(b), x[b].wt(m) >= 1real,
        c.wf(), nonneg(c.cc()), c.wt(m) == rmax(x[b].wt(m) - 1real, 0real) || (x[b].singleton_count@ < 0real && m is None), c.tot() == x[b].tot() + c.wt(m) - x[b].wt(m),
        forall|l: Option<NodeAddress>| l != m ==> #[trigger] c.wt(l) == x[b].wt(l),
        c.tot() <= 0real ==> y == x.insert(b, c).remove(b), c.tot() > 0real ==> y == x.insert(b, c)
    ensures evok(y), bumped(x, y, b, m, -1real)
{
    assert(cok(x[b])); l_wt(x[b]);
    assert forall|l: Option<NodeAddress>| #[trigger] c.wt(l) >= 0real by { assert(x[b].wt(l) >= 0real); }
    l_nonneg(c); l_wt(c);
    assert forall|a: NodeAddress| #[trigger] y.contains_key(a) implies cok(y[a]) by { if a != b { assert(x.contains_key(a)); assert(y[a] == x[a]); } }
    assert forall|a: NodeAddress, l: Option<NodeAddress>| #[trigger] evw(y, a, l) == evw(x, a, l) + (if a == b && l == m { -1real } else { 0real }) by {
        if a == b { assert(0real <= c.wt(l) <= c.tot()); if l != m { assert(c.wt(l) == x[b].wt(l)); } } else { assert(y.contains_key(a) == x.contains_key(a)); }
    }
}
pub open spec fn paths(q: Seq<Vec<(f32, NodeAddress)>>) -> Seq<Path> { q.map_values(|v: Vec<(f32, NodeAddress)>| v@) }
/// the window: the last w paths of a history, all of them for w = 0
pub open spec fn win(h: Seq<Path>, w: int) -> Seq<Path> { if w == 0 || h.len() <= w { h } else { h.subrange(h.len() - w, h.len() as int) } }
pub open spec fn realpaths(h: Seq<Path>) -> bool { forall|i: int| 0 <= i < h.len() ==> (#[trigger] h[i]).len() > 0 }
pub proof fn l_cnt_push(w: Seq<Path>, p: Path) ensures forall|a: NodeAddress, l: Option<NodeAddress>| #[trigger] cnt(w.push(p), a, l) == cnt(w, a, l) + hop(p, a, l) { assert(w.push(p).drop_last() =~= w); }
pub proof fn l_cnt_add(v: Seq<Path>, w: Seq<Path>, a: NodeAddress, l: Option<NodeAddress>) ensures cnt(v + w, a, l) == cnt(v, a, l) + cnt(w, a, l), cnt(w, a, l) >= 0real decreases w.len()
{ if w.len() == 0 { assert(v + w =~= v); } else { assert((v + w).drop_last() =~= v + w.drop_last()); l_cnt_add(v, w.drop_last(), a, l); l_hop_mono(w.last(), a, l, 0, w.last().len() as int); } }
pub proof fn l_cnt_front(w: Seq<Path>) requires w.len() > 0 ensures forall|a: NodeAddress, l: Option<NodeAddress>| #[trigger] cnt(w, a, l) == hop(w[0], a, l) + cnt(w.subrange(1, w.len() as int), a, l), forall|a: NodeAddress, l: Option<NodeAddress>| #[trigger] cnt(w, a, l) >= hop(w[0], a, l)
{
    let f = seq![w[0]]; let r = w.subrange(1, w.len() as int);
    assert(w =~= f + r);
    assert forall|a: NodeAddress, l: Option<NodeAddress>| #[trigger] cnt(w, a, l) == hop(w[0], a, l) + cnt(r, a, l) && cnt(w, a, l) >= hop(w[0], a, l) by { l_cnt_add(f, r, a, l); assert(f.drop_last() =~= Seq::<Path>::empty()); assert(cnt(f.drop_last(), a, l) == 0real); }
}
pub open spec fn seen(o: Seq<(NodeAddress, Categorical)>, n: int, a: NodeAddress) -> bool { exists|i: int| 0 <= i < n && (#[trigger] o[i]).0 == a }
pub open spec fn part(o: Seq<(NodeAddress, Categorical)>, m: Map<NodeAddress, Categorical>, n: int, a: NodeAddress, l: Option<NodeAddress>) -> real { if seen(o, n, a) { evw(m, a, l) } else { 0real } }
/// folding one entry of another tracker's evidence into x
pub proof fn l_fold(x: Map<NodeAddress, Categorical>, y: Map<NodeAddress, Categorical>, m: Map<NodeAddress, Categorical>, o: Seq<(NodeAddress, Categorical)>, n: int, c: Categorical)
    requires evok(x), evok(m), mlists(o, m), 0 <= n < o.len(), y == x.insert(o[n].0, c), c.wf(),
        c.tot() == (if x.contains_key(o[n].0) { x[o[n].0].tot() } else { 0real }) + o[n].1.tot(), forall|l: Option<NodeAddress>| #[trigger] c.wt(l) == evw(x, o[n].0, l) + o[n].1.wt(l),
    ensures evok(y), forall|a: NodeAddress, l: Option<NodeAddress>| #[trigger] evw(y, a, l) == evw(x, a, l) + part(o, m, n + 1, a, l) - part(o, m, n, a, l)
{
    let b = o[n].0;
    assert(m.contains_key(b) && m[b] == o[n].1); assert(cok(m[b])); l_wt(m[b]);
    if x.contains_key(b) { assert(cok(x[b])); l_wt(x[b]); }
    assert forall|l: Option<NodeAddress>| #[trigger] c.wt(l) >= 0real by { assert(evw(x, b, l) >= 0real); assert(m[b].wt(l) >= 0real); }
    l_nonneg(c);
    assert forall|a: NodeAddress| #[trigger] y.contains_key(a) implies cok(y[a]) by { if a != b { assert(x.contains_key(a)); assert(y[a] == x[a]); } }
    assert(seen(o, n + 1, b)); 
    if seen(o, n, b) { let i = choose|i: int| 0 <= i < n && (#[trigger] o[i]).0 == b; assert(o[i].0 != o[n].0); }
    assert forall|a: NodeAddress, l: Option<NodeAddress>| #[trigger] evw(y, a, l) == evw(x, a, l) + part(o, m, n + 1, a, l) - part(o, m, n, a, l) by {
        if a == b { assert(c.wt(l) == evw(x, b, l) + o[n].1.wt(l)); }
        else {
            assert(y.contains_key(a) == x.contains_key(a));
            if seen(o, n + 1, a) { let i = choose|i: int| 0 <= i < n + 1 && (#[trigger] o[i]).0 == a; assert(i != n); assert(seen(o, n, a)); }
            if seen(o, n, a) { let i = choose|i: int| 0 <= i < n && (#[trigger] o[i]).0 == a; assert(o[i].0 == a); assert(seen(o, n + 1, a)); }
        }
    }
}
/// a probability vector: each category's weight over the total
pub open spec fn pvec(cc: Seq<(NodeAddress, f64)>, s: real, t: real, r: (Vec<(NodeAddress, f64)>, f64)) -> bool { r.0@.len() == cc.len() && r.1@ == s / t && forall|i: int| 0 <= i < cc.len() ==> (#[trigger] r.0@[i]).0 == cc[i].0 && r.0@[i].1@ == cc[i].1@ / t }
/// divergence of each node with evidence, for the nodes the tree knows, in the map's order
pub open spec fn kls<D>(r: CoverTreeReader<D>, o: Seq<(NodeAddress, Categorical)>, n: int) -> Seq<(real, NodeAddress)> decreases n {
    if n <= 0 { Seq::empty() } else { match r.prior(o[n - 1].0) { Some(p) => kls(r, o, n - 1).push((rmax(pkl(p, o[n - 1].1), 0real), o[n - 1].0)), None => kls(r, o, n - 1) } }
}
pub open spec fn known<D>(r: CoverTreeReader<D>, ev: Map<NodeAddress, Categorical>) -> bool { forall|a: NodeAddress| #[trigger] ev.contains_key(a) && r.prior(a) is Some ==> forall|i: int| 0 <= i < ev[a].cc().len() ==> hask(r.prior(a)->0.cc(), (#[trigger] ev[a].cc()[i]).0) }
pub open spec fn tiny() -> real { 1real / 10000000000real }
pub open spec fn nzc(s: Seq<(real, NodeAddress)>, n: int) -> int decreases n { if n <= 0 { 0 } else { nzc(s, n - 1) + (if s[n - 1].0 > tiny() { 1int } else { 0 }) } }
pub open spec fn nz1(s: Seq<(real, NodeAddress)>, n: int) -> real decreases n { if n <= 0 { 0real } else { nz1(s, n - 1) + (if s[n - 1].0 > tiny() { s[n - 1].0 } else { 0real }) } }
pub open spec fn nz2(s: Seq<(real, NodeAddress)>, n: int) -> real decreases n { if n <= 0 { 0real } else { nz2(s, n - 1) + (if s[n - 1].0 > tiny() { s[n - 1].0 * s[n - 1].0 } else { 0real }) } }
pub open spec fn nzmax(s: Seq<(real, NodeAddress)>, n: int) -> real decreases n { if n <= 0 { -rfmax() } else { if s[n - 1].0 > tiny() && s[n - 1].0 > nzmax(s, n - 1) { s[n - 1].0 } else { nzmax(s, n - 1) } } }
pub open spec fn nzmin(s: Seq<(real, NodeAddress)>, n: int) -> real decreases n { if n <= 0 { rfmax() } else { if s[n - 1].0 > tiny() && s[n - 1].0 < nzmin(s, n - 1) { s[n - 1].0 } else { nzmin(s, n - 1) } } }
// ---- whole-tree divergence: over the nodes where paths of the window stop
pub open spec fn stop<D>(r: CoverTreeReader<D>, e: (NodeAddress, Categorical)) -> bool { e.1.singleton_count@ > 0real && r.node(e.0) is Some }
pub open spec fn base<D>(r: CoverTreeReader<D>, e: (NodeAddress, Categorical)) -> real { r.node(e.0)->0.singles() as real + 1real }
pub open spec fn t1<D>(r: CoverTreeReader<D>, o: Seq<(NodeAddress, Categorical)>, n: int) -> real decreases n { if n <= 0 { 0real } else { t1(r, o, n - 1) + (if stop(r, o[n - 1]) { rgamma(base(r, o[n - 1])) } else { 0real }) } }
pub open spec fn t2<D>(r: CoverTreeReader<D>, o: Seq<(NodeAddress, Categorical)>, n: int) -> real decreases n { if n <= 0 { 0real } else { t2(r, o, n - 1) + (if stop(r, o[n - 1]) { rgamma(o[n - 1].1.singleton_count@ + base(r, o[n - 1])) } else { 0real }) } }
pub open spec fn t3<D>(r: CoverTreeReader<D>, o: Seq<(NodeAddress, Categorical)>, n: int, tot: real) -> real decreases n { if n <= 0 { 0real } else { t3(r, o, n - 1, tot) + (if stop(r, o[n - 1]) { o[n - 1].1.singleton_count@ * (rdigamma(o[n - 1].1.singleton_count@ + base(r, o[n - 1])) - rdigamma(tot)) } else { 0real }) } }
//@ struct goko/src/plugins/discrete/tracker.rs KLDivergenceStats
//@ end
impl<D> BayesCategoricalTracker<D> {
    pub open spec fn slen(&self) -> int { if self.sequence_queue@.len() == 0 { self.sequence_count as int } else { self.sequence_queue@.len() as int } }
    /// this tracker has been given exactly the paths h, in this order
    pub open spec fn tracks(&self, h: Seq<Path>) -> bool {
        &&& realpaths(h) && self.sequence_count == h.len()
        &&& evok(self.running_evidence@)
        &&& paths(self.sequence_queue@) == (if self.window_size == 0 { Seq::<Path>::empty() } else { win(h, self.window_size as int) })
        &&& forall|a: NodeAddress, l: Option<NodeAddress>| #[trigger] evw(self.running_evidence@, a, l) == cnt(win(h, self.window_size as int), a, l)
    }
//@ fn goko/src/plugins/discrete/tracker.rs BayesCategoricalTracker::new
//@ spec
    ensures res.running_evidence@ == Map::<NodeAddress, Categorical>::empty(), res.sequence_queue@.len() == 0, res.sequence_count == 0, res.window_size == window_size, res.reader == reader
//@ end
//@ fn goko/src/plugins/discrete/tracker.rs BayesCategoricalTracker::add_trace_to_pdfs
//@ loops 1
//@ spec
    requires trace@.len() > 0, evok(old(self).running_evidence@)
    ensures evok(final(self).running_evidence@),
        forall|a: NodeAddress, l: Option<NodeAddress>| #[trigger] evw(final(self).running_evidence@, a, l) == evw(old(self).running_evidence@, a, l) + hop(trace@, a, l),
        final(self).sequence_queue == old(self).sequence_queue, final(self).sequence_count == old(self).sequence_count, final(self).window_size == old(self).window_size, final(self).reader == old(self).reader,
//@ start
    let ghost me0 = *self;
//@ loop 0
    invariant trace@.len() > 0, __k3 < trace@.len(), evok(self.running_evidence@), self.sequence_queue == me0.sequence_queue, self.sequence_count == me0.sequence_count, self.window_size == me0.window_size, self.reader == me0.reader,
        forall|a: NodeAddress, l: Option<NodeAddress>| #[trigger] evw(self.running_evidence@, a, l) == evw(me0.running_evidence@, a, l) + hop_n(trace@, a, l, __k3 as int),
    decreases trace@.len() - __k3
//@ before self . running_evidence
    let ghost ev = self.running_evidence@; let ghost kk = __k3 - 1;
    proof { assert(nxt(trace@, kk) == Some(*child) && trace@[kk].1 == *parent); if ev.contains_key(*parent) { assert(cok(ev[*parent])); } }
//@ after self . running_evidence
    proof {
        l_bump(ev, self.running_evidence@, self.running_evidence@[*parent], *parent, Some(*child));
        assert forall|a: NodeAddress, l: Option<NodeAddress>| #[trigger] evw(self.running_evidence@, a, l) == evw(me0.running_evidence@, a, l) + hop_n(trace@, a, l, __k3 as int) by { assert(evw(ev, a, l) == evw(me0.running_evidence@, a, l) + hop_n(trace@, a, l, kk)); }
    }
//@ before#2 self . running_evidence
    let ghost ev = self.running_evidence@; let ghost kk = trace@.len() - 1;
    proof { assert(nxt(trace@, kk) == None::<NodeAddress> && trace@[kk].1 == last); if ev.contains_key(last) { assert(cok(ev[last])); } }
//@ after#2 self . running_evidence
    proof {
        l_bump(ev, self.running_evidence@, self.running_evidence@[last], last, None);
        assert forall|a: NodeAddress, l: Option<NodeAddress>| #[trigger] evw(self.running_evidence@, a, l) == evw(me0.running_evidence@, a, l) + hop(trace@, a, l) by { assert(evw(ev, a, l) == evw(me0.running_evidence@, a, l) + hop_n(trace@, a, l, kk)); }
    }
//@ end
//@ fn goko/src/plugins/discrete/tracker.rs BayesCategoricalTracker::remove_trace_from_pdfs
//@ loops 1
//@ spec
    requires trace@.len() > 0, evok(old(self).running_evidence@), forall|a: NodeAddress, l: Option<NodeAddress>| #[trigger] evw(old(self).running_evidence@, a, l) >= hop(trace@, a, l),
    ensures evok(final(self).running_evidence@),
        forall|a: NodeAddress, l: Option<NodeAddress>| #[trigger] evw(final(self).running_evidence@, a, l) == evw(old(self).running_evidence@, a, l) - hop(trace@, a, l),
        final(self).sequence_queue == old(self).sequence_queue, final(self).sequence_count == old(self).sequence_count, final(self).window_size == old(self).window_size, final(self).reader == old(self).reader,
//@ start
    let ghost me0 = *self;
//@ loop 0
    invariant trace@.len() > 0, __k3 < trace@.len(), evok(self.running_evidence@), self.sequence_queue == me0.sequence_queue, self.sequence_count == me0.sequence_count, self.window_size == me0.window_size, self.reader == me0.reader,
        forall|a: NodeAddress, l: Option<NodeAddress>| #[trigger] evw(self.running_evidence@, a, l) == evw(me0.running_evidence@, a, l) - hop_n(trace@, a, l, __k3 as int),
    decreases trace@.len() - __k3
//@ before let parent_evidence
    let ghost ev = self.running_evidence@; let ghost kk = __k3 - 1;
    proof {
        assert(nxt(trace@, kk) == Some(*child) && trace@[kk].1 == *parent);
        l_hop_mono(trace@, *parent, Some(*child), kk + 1, trace@.len() as int);
        assert(evw(me0.running_evidence@, *parent, Some(*child)) >= hop(trace@, *parent, Some(*child)));
        assert(evw(ev, *parent, Some(*child)) >= 1real);
        assert(cok(ev[*parent]));
    }
//@ after let parent_evidence
    let ghost mut cc: Categorical = *parent_evidence;
//@ after parent_evidence . remove_child_pop
    proof { cc = *parent_evidence; }
//@ after if parent_evidence . total
    proof {
        l_drop(ev, self.running_evidence@, cc, *parent, Some(*child));
        assert forall|a: NodeAddress, l: Option<NodeAddress>| #[trigger] evw(self.running_evidence@, a, l) == evw(me0.running_evidence@, a, l) - hop_n(trace@, a, l, __k3 as int) by { assert(evw(ev, a, l) == evw(me0.running_evidence@, a, l) - hop_n(trace@, a, l, kk)); }
    }
//@ before let last_evidence
    let ghost ev = self.running_evidence@; let ghost kk = trace@.len() - 1;
    proof {
        assert(nxt(trace@, kk) == None::<NodeAddress> && trace@[kk].1 == last);
        assert(evw(me0.running_evidence@, last, None) >= hop(trace@, last, None));
        assert(evw(ev, last, None) >= 1real);
        assert(cok(ev[last]));
    }
//@ after let last_evidence
    let ghost mut cc: Categorical = *last_evidence;
//@ after last_evidence . remove_child_pop
    proof { cc = *last_evidence; }
//@ after if last_evidence . total
    proof {
        l_drop(ev, self.running_evidence@, cc, last, None);
        assert forall|a: NodeAddress, l: Option<NodeAddress>| #[trigger] evw(self.running_evidence@, a, l) == evw(me0.running_evidence@, a, l) - hop(trace@, a, l) by { assert(evw(ev, a, l) == evw(me0.running_evidence@, a, l) - hop_n(trace@, a, l, kk)); }
    }
//@ end
//@ fn goko/src/plugins/discrete/tracker.rs BayesCategoricalTracker::add_path
//@ spec
    requires trace@.len() > 0, old(self).sequence_count < usize::MAX, exists|h: Seq<Path>| #[trigger] old(self).tracks(h),
    ensures forall|h: Seq<Path>| #[trigger] old(self).tracks(h) ==> final(self).tracks(h.push(trace@)), final(self).window_size == old(self).window_size, final(self).reader == old(self).reader,
//@ start
    let ghost me0 = *self;
    let ghost hh = choose|h: Seq<Path>| #[trigger] me0.tracks(h);
//@ after self . add_trace_to_pdfs
    let ghost me1 = *self;
    proof { l_cnt_push(win(hh, self.window_size as int), trace@); }
//@ before let oldest
    proof {
        let w = win(hh, self.window_size as int);
        assert(paths(self.sequence_queue@) =~= w.push(trace@));
        l_cnt_front(w.push(trace@));
        assert(paths(self.sequence_queue@)[0] == self.sequence_queue@[0]@);
        assert(w.push(trace@)[0].len() > 0);
        assert forall|a: NodeAddress, l: Option<NodeAddress>| #[trigger] evw(me1.running_evidence@, a, l) >= hop(w.push(trace@)[0], a, l) by { assert(evw(me0.running_evidence@, a, l) == cnt(w, a, l)); assert(cnt(w.push(trace@), a, l) == cnt(w, a, l) + hop(trace@, a, l)); }
    }
//@ finish
    proof {
        assert forall|h: Seq<Path>| #[trigger] me0.tracks(h) implies self.tracks(h.push(trace@)) by {
            let wz = self.window_size as int;
            let w = win(h, wz); let w2 = win(h.push(trace@), wz);
            l_cnt_push(w, trace@);
            assert(realpaths(h.push(trace@)));
            assert(paths(me0.sequence_queue@).len() == me0.sequence_queue@.len());
            assert forall|a: NodeAddress, l: Option<NodeAddress>| #[trigger] evw(me1.running_evidence@, a, l) == cnt(w.push(trace@), a, l) by { assert(evw(me0.running_evidence@, a, l) == cnt(w, a, l)); }
            if wz != 0 {
                let q1 = me0.sequence_queue@.push(trace);
                assert(paths(q1) =~= w.push(trace@));
                if h.len() + 1 > wz {
                    assert(w2 =~= w.push(trace@).subrange(1, (w.len() + 1) as int));
                    l_cnt_front(w.push(trace@));
                    assert(paths(q1.subrange(1, q1.len() as int)) =~= w2);
                } else { assert(w2 =~= w.push(trace@)); }
            } else { assert(w2 =~= w.push(trace@)); }
        }
    }
//@ end
//@ fn goko/src/plugins/discrete/tracker.rs BayesCategoricalTracker::sequence_len
//@ spec
    ensures res == self.slen(), forall|h: Seq<Path>| #[trigger] self.tracks(h) ==> res == win(h, self.window_size as int).len()
//@ start
    proof { assert forall|h: Seq<Path>| #[trigger] self.tracks(h) implies self.sequence_queue@.len() == (if self.window_size == 0 { 0 } else { win(h, self.window_size as int).len() }) && self.sequence_count == h.len() by { assert(paths(self.sequence_queue@).len() == self.sequence_queue@.len()); } }
//@ end
//@ fn goko/src/plugins/discrete/tracker.rs BayesCategoricalTracker::append
//@ loops 3
//@ subst other . running_evidence . iter () => other.running_evidence.iter_ref()
//@ subst other . sequence_queue . iter () => other.sequence_queue.iter_ref()
//@ subst v . clone () => vdeep(v)
//@ subst vclone (__x2) => vdeep(__x2)
//@ spec
    requires self.window_size == other.window_size, self.sequence_count + other.sequence_count <= usize::MAX, exists|h: Seq<Path>, g: Seq<Path>| #[trigger] self.tracks(h) && #[trigger] other.tracks(g),
    ensures forall|h: Seq<Path>, g: Seq<Path>| #[trigger] self.tracks(h) && #[trigger] other.tracks(g) ==> res.tracks(h + g), res.window_size == self.window_size, res.reader == self.reader,
//@ start
    let ghost (hh, gg) = choose|h: Seq<Path>, g: Seq<Path>| #[trigger] self.tracks(h) && #[trigger] other.tracks(g);
    let ghost oo = other.running_evidence.ord(); let ghost om = other.running_evidence@; let ghost me0 = self;
    let ghost wz = self.window_size as int;
    let ghost ww = win(hh, wz) + win(gg, wz);
//@ loop 0
    invariant it0.seq().len() == oo.len(), mlists(oo, om), forall|i: int| 0 <= i < oo.len() ==> *(#[trigger] it0.seq()[i]).0 == oo[i].0 && *it0.seq()[i].1 == oo[i].1, evok(self_.running_evidence@), evok(om),
        self_.sequence_queue == me0.sequence_queue, self_.sequence_count == me0.sequence_count, self_.window_size == me0.window_size, self_.reader == me0.reader,
        forall|a: NodeAddress, l: Option<NodeAddress>| #[trigger] evw(self_.running_evidence@, a, l) == evw(me0.running_evidence@, a, l) + part(oo, om, it0.index@ as int, a, l),
//@ loopstart 0
    let ghost ev = self_.running_evidence@; let ghost kk = it0.index@ as int;
    proof { assert(*k == oo[kk].0 && *v == oo[kk].1); assert(om.contains_key(*k)); assert(cok(om[*k])); if ev.contains_key(*k) { assert(cok(ev[*k])); } }
//@ loopend 0
    proof {
        l_fold(ev, self_.running_evidence@, om, oo, kk, self_.running_evidence@[*k]);
        assert forall|a: NodeAddress, l: Option<NodeAddress>| #[trigger] evw(self_.running_evidence@, a, l) == evw(me0.running_evidence@, a, l) + part(oo, om, kk + 1, a, l) by { assert(evw(ev, a, l) == evw(me0.running_evidence@, a, l) + part(oo, om, kk, a, l)); }
    }
//@ loopafter 0
    let ghost ev1 = self_.running_evidence@;
    proof {
        assert forall|a: NodeAddress, l: Option<NodeAddress>| #[trigger] evw(ev1, a, l) == cnt(ww, a, l) by {
            l_cnt_add(win(hh, wz), win(gg, wz), a, l);
            if om.contains_key(a) { let i = choose|i: int| 0 <= i < oo.len() && (#[trigger] oo[i]).0 == a; assert(seen(oo, oo.len() as int, a)); }
            assert(evw(me0.running_evidence@, a, l) == cnt(win(hh, wz), a, l) && evw(om, a, l) == cnt(win(gg, wz), a, l));
        }
    }
//@ loop 1
    invariant it1.seq().len() == other.sequence_queue@.len(), forall|i: int| 0 <= i < it1.seq().len() ==> *(#[trigger] it1.seq()[i]) == other.sequence_queue@[i],
        self_.running_evidence@ == ev1, self_.sequence_count == me0.sequence_count, self_.window_size == me0.window_size, self_.reader == me0.reader,
        self_.sequence_queue@ == me0.sequence_queue@ + other.sequence_queue@.subrange(0, it1.index@ as int),
//@ loopend 1
    proof { let q = other.sequence_queue@; let k = it1.index@ as int; assert(q.subrange(0, k + 1) =~= q.subrange(0, k).push(q[k])); assert(self_.sequence_queue@ =~= me0.sequence_queue@ + q.subrange(0, k + 1)); }
//@ loopafter 1
    proof {
        assert(other.sequence_queue@.subrange(0, other.sequence_queue@.len() as int) =~= other.sequence_queue@);
        if wz != 0 { assert(paths(self_.sequence_queue@) =~= ww); assert(ww.subrange(0, ww.len() as int) =~= ww); } else { assert(paths(self_.sequence_queue@) =~= Seq::<Path>::empty()); assert(paths(me0.sequence_queue@).len() == 0 && paths(other.sequence_queue@).len() == 0); }
    }
//@ loop 2
    invariant wz == self_.window_size, wz > 0, evok(self_.running_evidence@), self_.sequence_count == me0.sequence_count + other.sequence_count, self_.window_size == me0.window_size, self_.reader == me0.reader,
        self_.sequence_queue@.len() <= ww.len(), ww.len() > wz ==> self_.sequence_queue@.len() >= wz, ww.len() <= wz ==> self_.sequence_queue@.len() == ww.len(),
        paths(self_.sequence_queue@) == ww.subrange(ww.len() - self_.sequence_queue@.len(), ww.len() as int), realpaths(ww),
        forall|a: NodeAddress, l: Option<NodeAddress>| #[trigger] evw(self_.running_evidence@, a, l) == cnt(paths(self_.sequence_queue@), a, l),
    decreases self_.sequence_queue@.len()
//@ loopstart 2
    let ghost q2 = self_.sequence_queue@;
    proof { l_cnt_front(paths(q2)); assert(paths(q2)[0] == q2[0]@); assert(paths(q2)[0] == ww[ww.len() - q2.len()]); }
//@ loopend 2
    proof { assert(paths(self_.sequence_queue@) =~= paths(q2).subrange(1, q2.len() as int)); assert(paths(self_.sequence_queue@) =~= ww.subrange(ww.len() - self_.sequence_queue@.len(), ww.len() as int)); }
//@ finish
    proof {
        assert forall|h: Seq<Path>, g: Seq<Path>| #[trigger] self.tracks(h) && #[trigger] other.tracks(g) implies self_.tracks(h + g) by {
            assert(realpaths(h + g));
            let w1 = win(h, wz) + win(g, wz);
            let w2 = win(h + g, wz);
            if wz == 0 {
                assert(w2 =~= w1);
                assert forall|a: NodeAddress, l: Option<NodeAddress>| #[trigger] evw(self_.running_evidence@, a, l) == cnt(w2, a, l) by { l_cnt_add(win(hh, wz), win(gg, wz), a, l); l_cnt_add(h, g, a, l); assert(evw(me0.running_evidence@, a, l) == cnt(h, a, l)); assert(evw(om, a, l) == cnt(g, a, l)); assert(evw(me0.running_evidence@, a, l) == cnt(hh, a, l)); assert(evw(om, a, l) == cnt(gg, a, l)); assert(evw(ev1, a, l) == cnt(ww, a, l)); }
            } else {
                assert(w1 =~= ww);
                assert(paths(self_.sequence_queue@) =~= w2);
            }
        }
    }
//@ end
//@ fn goko/src/plugins/discrete/tracker.rs BayesCategoricalTracker::running_evidence
//@ spec
    ensures res == self.running_evidence
//@ end
//@ fn goko/src/plugins/discrete/tracker.rs BayesCategoricalTracker::evidence_prob_vector
//@ spec
    requires evok(self.running_evidence@)
    ensures (res is Some) == self.running_evidence@.contains_key(na), res is Some ==> pvec(self.running_evidence@[na].cc(), self.running_evidence@[na].singleton_count@, self.running_evidence@[na].tot(), res->0)
//@ end
//@ fn goko/src/plugins/discrete/tracker.rs BayesCategoricalTracker::prob_vector
//@ subst p . clone () => vdeep(p)
//@ spec
    requires self.reader.wf(), evok(self.running_evidence@)
    ensures self.reader.prior(na) is None ==> res is None,
        // the probabilities of the prior weights with the evidence added
        self.reader.prior(na) is Some ==> exists|d: Dirichlet| #[trigger] d.wf() && (forall|l: Option<NodeAddress>| #[trigger] d.wt(l) == self.reader.prior(na)->0.wt(l) + evw(self.running_evidence@, na, l)) && (res is Some) == (d.tot() > 0real) && (res is Some ==> pvec(d.cc(), d.singleton_count@, d.tot(), res->0)),
//@ end
//@ fn goko/src/plugins/discrete/tracker.rs BayesCategoricalTracker::all_node_kl
//@ loops 1
//@ subst self . running_evidence () . iter () => self.running_evidence().iter_ref()
//@ subst let mut __acc1 = Vec => let mut __acc1 : Vec<(f64, NodeAddress)> = Vec
//@ spec
    requires self.reader.wf(), evok(self.running_evidence@), known(self.reader, self.running_evidence@)
    ensures mlists(self.running_evidence.ord(), self.running_evidence@), ({ let s = kls(self.reader, self.running_evidence.ord(), self.running_evidence.ord().len() as int);
        res@.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] res@[i]).0@ == s[i].0 && res@[i].1 == s[i].1 })
//@ start
    let ghost oo = self.running_evidence.ord();
//@ loop 0
    invariant it0.seq().len() == oo.len(), mlists(oo, self.running_evidence@), forall|i: int| 0 <= i < oo.len() ==> *(#[trigger] it0.seq()[i]).0 == oo[i].0 && *it0.seq()[i].1 == oo[i].1,
        ({ let s = kls(self.reader, oo, it0.index@ as int); __acc1@.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] __acc1@[i]).0@ == s[i].0 && __acc1@[i].1 == s[i].1 }),
//@ loopstart 0
    proof { let k = it0.index@ as int; assert(*__x3.0 == oo[k].0 && *__x3.1 == oo[k].1); assert(self.running_evidence@.contains_key(oo[k].0)); assert(cok(self.running_evidence@[oo[k].0])); }
//@ end
//@ fn goko/src/plugins/discrete/tracker.rs BayesCategoricalTracker::fractal_dim_stats
//@ loops 3
//@ subst vec_repeat (Vec :: < usize > :: new () , self . reader . len ()) => many_lists(self.reader.len())
//@ subst * counts . iter () . max () . unwrap_or (& 1) => vtop(counts)
//@ subst for (_kl , address) in it0 : self . all_node_kl () . iter () => let __l = self.all_node_kl(); proof { assert(__l@.len() == __l.len()); } for (_kl , address) in it0 : __l.iter()
//@ spec
    requires self.reader.wf(), evok(self.running_evidence@), known(self.reader, self.running_evidence@),
        ({ let s = kls(self.reader, self.running_evidence.ord(), self.running_evidence.ord().len() as int); forall|i: int| 0 <= i < s.len() ==> self.reader.node((#[trigger] s[i]).1) is Some && 0 <= self.reader.par().lay(s[i].1.0) < self.reader.nlayers() }),
    ensures res.sequence_len == self.slen(), res.layer_totals@.len() == self.reader.nlayers(), res.weighted_layer_totals@.len() == self.reader.nlayers(),
        ({ let s = kls(self.reader, self.running_evidence.ord(), self.running_evidence.ord().len() as int); forall|l: int| 0 <= l < self.reader.nlayers() ==>
            #[trigger] res.layer_totals@[l] == on(self.reader, s, l, s.len() as int).len() && plain(on(self.reader, s, l, s.len() as int), res.weighted_layer_totals@[l]@) }),
//@ start
    let ghost ss = kls(self.reader, self.running_evidence.ord(), self.running_evidence.ord().len() as int);
//@ loop 0
    invariant ss.len() <= usize::MAX, it0.seq().len() == ss.len(), forall|i: int| 0 <= i < ss.len() ==> (#[trigger] it0.seq()[i]).1 == ss[i].1,
        layer_totals@.len() == self.reader.nlayers(), layer_node_counts@.len() == self.reader.nlayers(), *parameters == self.reader.par(),
        forall|l: int| 0 <= l < layer_totals@.len() ==> #[trigger] layer_totals@[l] == on(self.reader, ss, l, it0.index() as int).len(),
        forall|l: int| 0 <= l < layer_totals@.len() ==> (#[trigger] layer_node_counts@[l])@ == on(self.reader, ss, l, it0.index() as int),
//@ loopstart 0
    let ghost lt0 = layer_totals@; let ghost lc0 = layer_node_counts@;
    proof { assert(*address == ss[it0.index() as int].1); l_on(self.reader, ss, self.reader.par().lay(address.0), it0.index() as int); }
//@ loopend 0
    proof {
        let k = self.reader.par().lay(address.0); let n = it0.index() as int;
        assert forall|l: int| 0 <= l < layer_totals@.len() implies #[trigger] layer_totals@[l] == on(self.reader, ss, l, n + 1).len() by { assert(lt0[l] == on(self.reader, ss, l, n).len()); }
        assert forall|l: int| 0 <= l < layer_totals@.len() implies (#[trigger] layer_node_counts@[l])@ == on(self.reader, ss, l, n + 1) by { assert(lc0[l]@ == on(self.reader, ss, l, n)); }
    }
//@ loop 1
    invariant it1.seq().len() == layer_node_counts@.len(), forall|i: int| 0 <= i < it1.seq().len() ==> *(#[trigger] it1.seq()[i]) == layer_node_counts@[i],
        __acc1@.len() == it1.index(), forall|i: int| 0 <= i < it1.index() ==> plain(layer_node_counts@[i]@, (#[trigger] __acc1@[i])@),
//@ loop 2
    invariant it2.seq().len() == counts@.len(), forall|i: int| 0 <= i < it2.seq().len() ==> *(#[trigger] it2.seq()[i]) == counts@[i],
        __acc4@ == wsum(counts@, max@, it2.index() as int),
//@ loopend 1
    proof { assert(plain(counts@, __s2@)); }
//@ end
//@ fn goko/src/plugins/discrete/tracker.rs BayesCategoricalTracker::kl_div
//@ loops 1
//@ subst self . reader . parameters () . point_cloud . len () => self.reader.cloud_len()
//@ subst self . running_evidence . iter () => self.running_evidence.iter_ref()
//@ spec
    requires self.reader.wf(), evok(self.running_evidence@)
    ensures ({ let o = self.running_evidence.ord(); let n = o.len() as int; let prior = (self.reader.points() + self.reader.nodes()) as real; let post = prior + self.slen() as real;
        mlists(o, self.running_evidence@) && res@ == rmax(rgamma(post) - t2(self.reader, o, n) - rgamma(prior) + t1(self.reader, o, n) + t3(self.reader, o, n, post), 0real) })
//@ start
    let ghost oo = self.running_evidence.ord();
//@ loop 0
    invariant it0.seq().len() == oo.len(), mlists(oo, self.running_evidence@), forall|i: int| 0 <= i < oo.len() ==> *(#[trigger] it0.seq()[i]).0 == oo[i].0 && *it0.seq()[i].1 == oo[i].1,
        posterior_total@ == (self.reader.points() + self.reader.nodes()) as real + self.slen() as real,
        prior_total_lng@ == t1(self.reader, oo, it0.index@ as int), posterior_total_lng@ == t2(self.reader, oo, it0.index@ as int), digamma_portion@ == t3(self.reader, oo, it0.index@ as int, posterior_total@),
//@ loopstart 0
    proof { let k = it0.index@ as int; assert(*addr == oo[k].0 && *evidence == oo[k].1); }
//@ end
//@ fn goko/src/plugins/discrete/tracker.rs BayesCategoricalTracker::kl_div_stats
//@ loops 1
//@ subst for (kl , _address) in it0 : self . all_node_kl () . iter () => let __l = self.all_node_kl(); proof { assert(__l@.len() == __l.len()); } for (kl , _address) in it0 : __l.iter()
//@ spec
    requires self.reader.wf(), evok(self.running_evidence@), known(self.reader, self.running_evidence@)
    ensures ({ let s = kls(self.reader, self.running_evidence.ord(), self.running_evidence.ord().len() as int); let n = s.len() as int;
        res.max@ == nzmax(s, n) && res.min@ == nzmin(s, n) && res.nz_count == nzc(s, n) && res.moment1_nz@ == nz1(s, n) && res.moment2_nz@ == nz2(s, n) && res.sequence_len == self.slen() })
//@ start
    let ghost ss = kls(self.reader, self.running_evidence.ord(), self.running_evidence.ord().len() as int);
//@ loop 0
    invariant ss.len() <= usize::MAX, it0.seq().len() == ss.len(), forall|i: int| 0 <= i < ss.len() ==> (#[trigger] it0.seq()[i]).0@ == ss[i].0,
        max@ == nzmax(ss, it0.index@ as int), min@ == nzmin(ss, it0.index@ as int), 0 <= nz_count <= it0.index@, nz_count == nzc(ss, it0.index@ as int), moment1_nz@ == nz1(ss, it0.index@ as int), moment2_nz@ == nz2(ss, it0.index@ as int),
//@ loopstart 0
    proof { assert(kl@ == ss[it0.index@ as int].0); }
//@ end
}
// ---- baseline
//@ struct goko/src/plugins/discrete/baseline.rs KLDivergenceBaselineStats
//@ end
//@ struct goko/src/plugins/discrete/baseline.rs KLDivergenceBaseline
//@ end
pub fn vdef_stats() -> (r: KLDivergenceBaselineStats) ensures r.max.0@ == 0real, r.max.1@ == 0real, r.min.0@ == 0real, r.min.1@ == 0real, r.nz_count.0@ == 0real, r.nz_count.1@ == 0real, r.moment1_nz.0@ == 0real, r.moment1_nz.1@ == 0real, r.moment2_nz.0@ == 0real, r.moment2_nz.1@ == 0real { let z = rlit(0, 1); KLDivergenceBaselineStats { max: (z, z), min: (z, z), nz_count: (z, z), moment1_nz: (z, z), moment2_nz: (z, z) } }
/// one statistic of one sample
pub open spec fn mean(m: (f64, f64), c: real) -> real { m.0@ / c }
pub open spec fn var(m: (f64, f64), c: real) -> real { m.1@ / c - (m.0@ / c) * (m.0@ / c) }
pub open spec fn mv(s: KLDivergenceBaselineStats, c: real, r: KLDivergenceBaselineStats) -> bool { r.max.0@ == mean(s.max, c) && r.max.1@ == var(s.max, c) && r.min.0@ == mean(s.min, c) && r.min.1@ == var(s.min, c) && r.nz_count.0@ == mean(s.nz_count, c) && r.nz_count.1@ == var(s.nz_count, c) && r.moment1_nz.0@ == mean(s.moment1_nz, c) && r.moment1_nz.1@ == var(s.moment1_nz, c) && r.moment2_nz.0@ == mean(s.moment2_nz, c) && r.moment2_nz.1@ == var(s.moment2_nz, c) }
/// a + w (b - a), for mean and variance of every statistic
pub open spec fn between(a: (f64, f64), b: (f64, f64), ca: real, w: real, r: (f64, f64)) -> bool { r.0@ == mean(a, ca) + w * (mean(b, ca) - mean(a, ca)) && r.1@ == var(a, ca) + w * (var(b, ca) - var(a, ca)) }
pub open spec fn mix(a: KLDivergenceBaselineStats, b: KLDivergenceBaselineStats, c: real, w: real, r: KLDivergenceBaselineStats) -> bool { between(a.max, b.max, c, w, r.max) && between(a.min, b.min, c, w, r.min) && between(a.nz_count, b.nz_count, c, w, r.nz_count) && between(a.moment1_nz, b.moment1_nz, c, w, r.moment1_nz) && between(a.moment2_nz, b.moment2_nz, c, w, r.moment2_nz) }
/// TRUSTED: slice::binary_search on a strictly increasing list
pub trait BinSearch { spec fn lst(&self) -> Seq<usize>; fn binary_search(&self, x: &usize) -> (r: Result<usize, usize>) requires forall|i: int, j: int| 0 <= i < j < self.lst().len() ==> self.lst()[i] < self.lst()[j] ensures match r { Ok(k) => k < self.lst().len() && self.lst()[k as int] == *x, Err(k) => k <= self.lst().len() && (forall|j: int| 0 <= j < k ==> self.lst()[j] < *x) && (forall|j: int| k <= j < self.lst().len() ==> *x < self.lst()[j]) }; }
impl BinSearch for Vec<usize> { open spec fn lst(&self) -> Seq<usize> { self@ } #[verifier::external_body] fn binary_search(&self, x: &usize) -> (r: Result<usize, usize>) { unimplemented!() } }
impl KLDivergenceBaselineStats {
//@ fn goko/src/plugins/discrete/baseline.rs KLDivergenceBaselineStats::add
//@ spec
    requires stats.nz_count < 0x1_0000_0000
    ensures final(self).max.0@ == old(self).max.0@ + stats.max@, final(self).max.1@ == old(self).max.1@ + stats.max@ * stats.max@, final(self).min.0@ == old(self).min.0@ + stats.min@, final(self).min.1@ == old(self).min.1@ + stats.min@ * stats.min@, final(self).nz_count.0@ == old(self).nz_count.0@ + stats.nz_count as real, final(self).nz_count.1@ == old(self).nz_count.1@ + (stats.nz_count * stats.nz_count) as real, final(self).moment1_nz.0@ == old(self).moment1_nz.0@ + stats.moment1_nz@, final(self).moment1_nz.1@ == old(self).moment1_nz.1@ + stats.moment1_nz@ * stats.moment1_nz@, final(self).moment2_nz.0@ == old(self).moment2_nz.0@ + stats.moment2_nz@, final(self).moment2_nz.1@ == old(self).moment2_nz.1@ + stats.moment2_nz@ * stats.moment2_nz@
//@ start
    proof { assert(stats.nz_count * stats.nz_count <= u64::MAX) by (nonlinear_arith) requires stats.nz_count < 0x1_0000_0000; }
//@ end
//@ fn goko/src/plugins/discrete/baseline.rs KLDivergenceBaselineStats::to_mean_var
//@ spec
    requires count@ > 0real
    ensures mv(*self, count@, res)
//@ end
//@ fn goko/src/plugins/discrete/baseline.rs KLDivergenceBaselineStats::interpolate
//@ spec
    ensures res.max.0@ == self.max.0@ + w@ * (other.max.0@ - self.max.0@), res.max.1@ == self.max.1@ + w@ * (other.max.1@ - self.max.1@), res.min.0@ == self.min.0@ + w@ * (other.min.0@ - self.min.0@), res.min.1@ == self.min.1@ + w@ * (other.min.1@ - self.min.1@), res.nz_count.0@ == self.nz_count.0@ + w@ * (other.nz_count.0@ - self.nz_count.0@), res.nz_count.1@ == self.nz_count.1@ + w@ * (other.nz_count.1@ - self.nz_count.1@), res.moment1_nz.0@ == self.moment1_nz.0@ + w@ * (other.moment1_nz.0@ - self.moment1_nz.0@), res.moment1_nz.1@ == self.moment1_nz.1@ + w@ * (other.moment1_nz.1@ - self.moment1_nz.1@), res.moment2_nz.0@ == self.moment2_nz.0@ + w@ * (other.moment2_nz.0@ - self.moment2_nz.0@), res.moment2_nz.1@ == self.moment2_nz.1@ + w@ * (other.moment2_nz.1@ - self.moment2_nz.1@)
//@ end
}
impl KLDivergenceBaseline {
    pub open spec fn wf(&self) -> bool { self.num_sequences > 0 && self.stats@.len() == self.sequence_len@.len() && forall|i: int, j: int| 0 <= i < j < self.sequence_len@.len() ==> self.sequence_len@[i] < self.sequence_len@[j] }
    /// the sampled lengths around i: the largest at or below it and the next one up (the last two when i is beyond them)
    pub open spec fn around(&self, i: usize, k: int) -> bool { 0 < k < self.sequence_len@.len() && self.sequence_len@[k - 1] < i && (i < self.sequence_len@[k] || k == self.sequence_len@.len() - 1) && forall|j: int| 0 <= j < self.sequence_len@.len() ==> self.sequence_len@[j] != i }
//@ fn goko/src/plugins/discrete/baseline.rs KLDivergenceBaseline::stats
//@ subst KLDivergenceBaselineStats :: default () => vdef_stats()
//@ spec
    requires self.wf()
    ensures
        // a recorded length: mean and variance of the samples at that length
        forall|k: int| 0 <= k < self.sequence_len@.len() && #[trigger] self.sequence_len@[k] == i ==> mv(self.stats@[k], self.num_sequences as real, res),
        // between (or beyond) recorded lengths: linear in the length
        forall|k: int| #[trigger] self.around(i, k) ==> mix(self.stats@[k - 1], self.stats@[k], self.num_sequences as real, (i - self.sequence_len@[k - 1]) as real / (self.sequence_len@[k] - self.sequence_len@[k - 1]) as real, res),
        self.sequence_len@.len() == 1 && self.sequence_len@[0] < i ==> mv(self.stats@[0], self.num_sequences as real, res),
        // below the first recorded length: nothing
        (forall|j: int| 0 <= j < self.sequence_len@.len() ==> i < self.sequence_len@[j]) ==> res.max.0@ == 0real && res.max.1@ == 0real && res.min.0@ == 0real && res.min.1@ == 0real && res.nz_count.0@ == 0real && res.nz_count.1@ == 0real && res.moment1_nz.0@ == 0real && res.moment1_nz.1@ == 0real && res.moment2_nz.0@ == 0real && res.moment2_nz.1@ == 0real,
//@ end
}
} // verus!
fn main() {}
