//@ include prelude.vrs
//@ include coll.vrs
//@ include summ_body.vrs
// =====================================================================================
// UNIT glued: a glued cloud is the union of its sources
// =====================================================================================
//@ gsubst HashMap < usize , (usize , usize) , FxBuildHasher > => HashMap < usize , (usize , usize) >
//@ gsubst HashMap :: with_hasher (FxBuildHasher :: default ()) => HashMap :: new ()
//@ include cloud_trait.vrs
/// points in the first i sources
pub open spec fn before<D: PointCloud>(ds: Seq<D>, i: int) -> int decreases i { if i <= 0 { 0 } else { before(ds, i - 1) + ds[i - 1].n() } }
pub open spec fn sized<D: PointCloud>(ds: Seq<D>) -> bool { forall|i: int| 0 <= i < ds.len() ==> (#[trigger] ds[i]).n() >= 0 && ds[i].inv() }
pub proof fn l_before<D: PointCloud>(ds: Seq<D>, a: int, b: int) requires sized(ds), 0 <= a <= b <= ds.len() ensures before(ds, a) <= before(ds, b), before(ds, a) >= 0 decreases b
{ if a < b { l_before(ds, a, b - 1); } else if a > 0 { l_before(ds, a - 1, a - 1); } }
impl<S: Summary> SummaryCounter<S> {
    /// derived Default: the summary's own default, no missing, no failed
    pub fn default() -> (res: Self) ensures res.of(Seq::empty()) { SummaryCounter { summary: S::default(), nones: 0, errors: 0 } }
}
pub proof fn l_uniq<D: PointCloud>(ds: Seq<D>, i: int, j: int, p: int, q: int) requires sized(ds), 0 <= i < ds.len(), 0 <= j < ds[i].n(), 0 <= p < ds.len(), 0 <= q < ds[p].n(), before(ds, i) + j == before(ds, p) + q ensures i == p, j == q
{ if i < p { l_before(ds, i + 1, p); } else if p < i { l_before(ds, p + 1, i); } }
/// global index g holds its place in source order
pub open spec fn placed<D: PointCloud>(m: Map<usize, (usize, usize)>, ds: Seq<D>, g: usize) -> bool { let a = m[g]; 0 <= a.0 < ds.len() && 0 <= a.1 < ds[a.0 as int].n() && before(ds, a.0 as int) + a.1 == g }
/// the name is none of the source's points (a source of unnamed points reads any number as a name)
pub open spec fn nowhere<D: PointCloud>(d: D, n: VStr) -> bool { d.index_s(n) matches Ok(j) ==> j >= d.n() }
/// every (source, local index) is behind exactly one global index
pub open spec fn exact<D: PointCloud>(m: Map<usize, (usize, usize)>, ds: Seq<D>) -> bool {
    &&& forall|g: usize| #[trigger] m.contains_key(g) ==> 0 <= m[g].0 < ds.len() && 0 <= m[g].1 < ds[m[g].0 as int].n()
    &&& forall|g: usize, h: usize| #[trigger] m.contains_key(g) && #[trigger] m.contains_key(h) && m[g] == m[h] ==> g == h
    &&& forall|i: int, j: int| #![trigger behind(m, i, j)] 0 <= i < ds.len() && 0 <= j < ds[i].n() ==> behind(m, i, j)
}
pub open spec fn behind(m: Map<usize, (usize, usize)>, i: int, j: int) -> bool { exists|g: usize| #[trigger] m.contains_key(g) && m[g].0 == i && m[g].1 == j }
//@ struct pointcloud/src/glued_data_cloud.rs HashGluedCloud
//@ end
/// the lookups a list of global indexes comes down to
pub open spec fn lseen<D: PointCloud>(c: HashGluedCloud<D>, pns: Seq<usize>, n: int) -> Seq<Obs<<D::LabelSummary as Summary>::G>> decreases n { if n <= 0 { Seq::empty() } else { let a = c.addresses@[pns[n - 1]]; lseen(c, pns, n - 1).push(obs::<D::LabelSummary>(c.data_sources@[a.0 as int].label_s(a.1 as int))) } }
pub open spec fn mseen<D: PointCloud>(c: HashGluedCloud<D>, pns: Seq<usize>, n: int) -> Seq<Obs<<D::MetaSummary as Summary>::G>> decreases n { if n <= 0 { Seq::empty() } else { let a = c.addresses@[pns[n - 1]]; mseen(c, pns, n - 1).push(obs::<D::MetaSummary>(c.data_sources@[a.0 as int].meta_s(a.1 as int))) } }
pub proof fn l_lseen<D: PointCloud>(c: HashGluedCloud<D>, pns: Seq<usize>, n: int) requires n >= 0 ensures lseen(c, pns, n).len() == n decreases n { if n > 0 { l_lseen(c, pns, n - 1); } }
pub proof fn l_mseen<D: PointCloud>(c: HashGluedCloud<D>, pns: Seq<usize>, n: int) requires n >= 0 ensures mseen(c, pns, n).len() == n decreases n { if n > 0 { l_mseen(c, pns, n - 1); } }
/// the summary's own machine integers do not overflow
pub open spec fn roomy<S: Summary>() -> bool { forall|s: S, ls: Seq<S::G>, v: &S::Label| #![trigger s.desc(ls), s.can_add(v)] s.desc(ls) && ls.len() < usize::MAX ==> s.can_add(v) }
pub open spec fn known(m: Map<usize, (usize, usize)>, pns: Seq<usize>, n: int) -> bool { forall|i: int| 0 <= i < n ==> m.contains_key(#[trigger] pns[i]) }
impl<D: PointCloud> HashGluedCloud<D> {
    pub open spec fn addr(&self, g: usize) -> Option<(usize, usize)> { if self.addresses@.contains_key(g) { Some(self.addresses@[g]) } else { None } }
    pub open spec fn src(&self, g: usize) -> int { self.addresses@[g].0 as int }
    pub open spec fn loc(&self, g: usize) -> usize { self.addresses@[g].1 }
    pub open spec fn wf(&self) -> bool { sized(self.data_sources@) && exact(self.addresses@, self.data_sources@) }
    pub open spec fn total(&self) -> int { before(self.data_sources@, self.data_sources@.len() as int) }
//@ fn pointcloud/src/glued_data_cloud.rs HashGluedCloud::new
//@ loops 2
//@ spec
    requires sized(data_sources@), before(data_sources@, data_sources@.len() as int) < usize::MAX,
    ensures res.data_sources == data_sources, res.wf(),
        forall|g: usize| #[trigger] res.addresses@.contains_key(g) <==> g < res.total(),
        forall|i: int, j: int| #![trigger res.addresses@[(before(data_sources@, i) + j) as usize]] 0 <= i < data_sources@.len() && 0 <= j < data_sources@[i].n() ==> res.addresses@[(before(data_sources@, i) + j) as usize] == (i as usize, j as usize),
//@ start
    proof { assert(data_sources@.len() == data_sources.len()); }
//@ loop 0
    invariant it0.seq().len() == data_sources@.len(), forall|k: int| 0 <= k < it0.seq().len() ==> *(#[trigger] it0.seq()[k]) == data_sources@[k], __c2 == it0.index(), pi == before(data_sources@, it0.index()), forall|g: usize| #[trigger] addresses@.contains_key(g) <==> g < pi, forall|g: usize| #[trigger] addresses@.contains_key(g) ==> placed(addresses@, data_sources@, g),
//@ loopstart 0
    proof { l_before(data_sources@, it0.index() + 1, data_sources@.len() as int); l_before(data_sources@, it0.index(), it0.index()); assert(data_sources@[it0.index()].n() >= 0); assert(*__x1 == data_sources@[it0.index()]); }
//@ loop 1
    invariant it1.seq().len() == data_sources@[it0.index()].n(), pi == before(data_sources@, it0.index()) + it1.index(), forall|g: usize| #[trigger] addresses@.contains_key(g) <==> g < pi, forall|g: usize| #[trigger] addresses@.contains_key(g) ==> placed(addresses@, data_sources@, g),
//@ loopstart 1
    let ghost m0 = addresses@;
//@ loopend 1
    proof { assert forall|g: usize| #[trigger] addresses@.contains_key(g) implies placed(addresses@, data_sources@, g) by { if g + 1 != pi { assert(m0.contains_key(g)); assert(placed(m0, data_sources@, g)); } } }
//@ loopafter 0
    proof {
        let m = addresses@; let ds = data_sources@; let n = ds.len() as int;
        assert forall|g: usize, h: usize| #[trigger] m.contains_key(g) && #[trigger] m.contains_key(h) && m[g] == m[h] implies g == h by { assert(placed(m, ds, g) && placed(m, ds, h)); }
        assert forall|i: int, j: int| 0 <= i < n && 0 <= j < ds[i].n() implies #[trigger] m[(before(ds, i) + j) as usize] == (i as usize, j as usize) && m.contains_key((before(ds, i) + j) as usize) by {
            l_before(ds, i, n); l_before(ds, i + 1, n); let g = (before(ds, i) + j) as usize; assert(m.contains_key(g)); assert(placed(m, ds, g)); l_uniq(ds, i, j, m[g].0 as int, m[g].1 as int);
        }
        assert forall|i: int, j: int| #![trigger behind(m, i, j)] 0 <= i < n && 0 <= j < ds[i].n() implies behind(m, i, j) by { let g = (before(ds, i) + j) as usize; l_before(ds, i, n); l_before(ds, i + 1, n); assert(m[g] == (i as usize, j as usize)); }
        assert(exact(m, ds));
    }
//@ end
//@ fn pointcloud/src/glued_data_cloud.rs HashGluedCloud::get_address
//@ spec
    ensures (res is Ok) == (self.addr(pn) is Some), res is Ok ==> res->Ok_0 == self.addr(pn)->0,
//@ end
//@ fn pointcloud/src/glued_data_cloud.rs HashGluedCloud::data_sources
//@ spec
    ensures res@ == self.data_sources@
//@ end
//@ fn pointcloud/src/glued_data_cloud.rs HashGluedCloud::take_data_sources
//@ spec
    ensures res == self.data_sources
//@ end
//@ fn pointcloud/src/glued_data_cloud.rs HashGluedCloud as PointCloud::point
//@ subst Self :: PointRef < 'a > => D::Ref
//@ spec
    requires self.wf(),
    ensures self.addr(pi) is Some ==> res == self.data_sources@[self.src(pi)].point_s(self.loc(pi) as int), self.addr(pi) is None ==> res is Err,
//@ end
//@ fn pointcloud/src/glued_data_cloud.rs HashGluedCloud as PointCloud::label
//@ subst Self :: Label => D::Label
//@ spec
    requires self.wf(),
    ensures self.addr(pn) is Some ==> res == self.data_sources@[self.src(pn)].label_s(self.loc(pn) as int), self.addr(pn) is None ==> res is Err,
//@ end
//@ fn pointcloud/src/glued_data_cloud.rs HashGluedCloud as PointCloud::metadata
//@ subst Self :: Metadata => D::Metadata
//@ spec
    requires self.wf(),
    ensures self.addr(pn) is Some ==> res == self.data_sources@[self.src(pn)].meta_s(self.loc(pn) as int), self.addr(pn) is None ==> res is Err,
//@ end
//@ fn pointcloud/src/glued_data_cloud.rs HashGluedCloud as PointCloud::name
//@ spec
    requires self.wf(),
    ensures self.addr(pi) is Some ==> res == self.data_sources@[self.src(pi)].name_s(self.loc(pi) as int), self.addr(pi) is None ==> res is Err,
//@ end
//@ fn pointcloud/src/glued_data_cloud.rs HashGluedCloud as PointCloud::len
//@ loops 1
//@ spec
    requires self.wf(), self.total() <= usize::MAX,
    ensures res == self.total(),
//@ subst let mut __acc1 = => let mut __acc1 : usize =
//@ loop 0
    invariant it0.seq().len() == self.data_sources@.len(), forall|k: int| 0 <= k < it0.seq().len() ==> *(#[trigger] it0.seq()[k]) == self.data_sources@[k], __acc1 == before(self.data_sources@, it0.index()),
//@ loopstart 0
    proof { l_before(self.data_sources@, it0.index() + 1, self.data_sources@.len() as int); assert(*mm == self.data_sources@[it0.index()]); }
//@ end
//@ fn pointcloud/src/glued_data_cloud.rs HashGluedCloud as PointCloud::is_empty
//@ loops 1
//@ spec
    requires self.wf(),
    ensures res == (self.total() == 0),
//@ loop 0
    invariant_except_break __acc1, before(self.data_sources@, it0.index()) == 0,
    invariant it0.seq().len() == self.data_sources@.len(), forall|k: int| 0 <= k < it0.seq().len() ==> *(#[trigger] it0.seq()[k]) == self.data_sources@[k],
    ensures __acc1 == (self.total() == 0),
//@ loopstart 0
    proof { l_before(self.data_sources@, it0.index() + 1, self.data_sources@.len() as int); assert(*__x2 == self.data_sources@[it0.index()]); assert(self.data_sources@[it0.index()].n() >= 0); }
//@ end
//@ fn pointcloud/src/glued_data_cloud.rs HashGluedCloud as PointCloud::reference_indexes
//@ loops 1
//@ subst self . addresses . keys () => self . addresses . keys_ref ()
//@ spec
    ensures res@.len() == self.addresses@.len(), forall|i: int| 0 <= i < res@.len() ==> self.addresses@.contains_key(#[trigger] res@[i]), forall|g: usize| #[trigger] self.addresses@.contains_key(g) ==> res@.contains(g),
//@ subst let mut __acc1 = Vec => let mut __acc1 : Vec<usize> = Vec
//@ loop 0
    invariant it0.seq().len() == self.addresses.ord().len(), mlists(self.addresses.ord(), self.addresses@), forall|k: int| 0 <= k < it0.seq().len() ==> *(#[trigger] it0.seq()[k]) == self.addresses.ord()[k].0,
        __acc1@.len() == it0.index(), forall|k: int| 0 <= k < it0.index() ==> #[trigger] __acc1@[k] == self.addresses.ord()[k].0,
//@ loopafter 0
    proof { assert forall|g: usize| #[trigger] self.addresses@.contains_key(g) implies __acc1@.contains(g) by { let i = choose|i: int| 0 <= i < self.addresses.ord().len() && (#[trigger] self.addresses.ord()[i]).0 == g; assert(__acc1@[i] == g); } }
//@ end
//@ fn pointcloud/src/glued_data_cloud.rs HashGluedCloud as PointCloud::label_summary
//@ loops 1
//@ subst Self :: LabelSummary => D::LabelSummary
//@ spec
    requires self.wf(), roomy::<D::LabelSummary>(),
    ensures (res is Ok) == known(self.addresses@, pns@, pns@.len() as int), res is Ok ==> res->Ok_0.of(lseen(*self, pns@, pns@.len() as int)),
//@ start
    proof { assert(pns@.len() == vstd::slice::spec_slice_len(pns)); }
//@ loop 0
    invariant it0.seq().len() == pns@.len(), forall|k: int| 0 <= k < it0.seq().len() ==> *(#[trigger] it0.seq()[k]) == pns@[k], known(self.addresses@, pns@, it0.index()), summary.of(lseen(*self, pns@, it0.index())),
//@ loopstart 0
    proof { let o = lseen(*self, pns@, it0.index()); assert(*pn == pns@[it0.index()]); l_lseen(*self, pns@, it0.index()); l_obs_len(o); assert(summary.summary.desc(vals(o))); }
//@ end
//@ fn pointcloud/src/glued_data_cloud.rs HashGluedCloud as PointCloud::metasummary
//@ loops 1
//@ subst Self :: MetaSummary => D::MetaSummary
//@ spec
    requires self.wf(), roomy::<D::MetaSummary>(),
    ensures (res is Ok) == known(self.addresses@, pns@, pns@.len() as int), res is Ok ==> res->Ok_0.of(mseen(*self, pns@, pns@.len() as int)),
//@ start
    proof { assert(pns@.len() == vstd::slice::spec_slice_len(pns)); }
//@ loop 0
    invariant it0.seq().len() == pns@.len(), forall|k: int| 0 <= k < it0.seq().len() ==> *(#[trigger] it0.seq()[k]) == pns@[k], known(self.addresses@, pns@, it0.index()), summary.of(mseen(*self, pns@, it0.index())),
//@ loopstart 0
    proof { let o = mseen(*self, pns@, it0.index()); assert(*pn == pns@[it0.index()]); l_mseen(*self, pns@, it0.index()); l_obs_len(o); assert(summary.summary.desc(vals(o))); }
//@ end
//@ fn pointcloud/src/glued_data_cloud.rs HashGluedCloud as PointCloud::index
//@ loops 2
//@ subst self . addresses . iter () => self . addresses . iter_ref ()
//@ subst str => VStr
//@ subst * addr == (i , j) => addr . 0 == i && addr . 1 == j
//@ spec
    requires self.wf(),
    ensures res is Ok ==> self.addr(res->Ok_0) is Some && self.data_sources@[self.src(res->Ok_0)].index_s(*pn) == Ok::<usize, PointCloudError>(self.loc(res->Ok_0)),
        res is Err ==> forall|i: int| 0 <= i < self.data_sources@.len() ==> nowhere(#[trigger] self.data_sources@[i], *pn),
//@ loop 0
    invariant it0.seq().len() == self.data_sources@.len(), forall|k: int| 0 <= k < it0.seq().len() ==> *(#[trigger] it0.seq()[k]) == self.data_sources@[k], __c2 == it0.index(),
        forall|k: int| 0 <= k < it0.index() ==> nowhere(#[trigger] self.data_sources@[k], *pn),
//@ loopstart 0
    proof { assert(self.data_sources@.len() == self.data_sources.len()); assert(*__x1 == self.data_sources@[it0.index()]); }
//@ loop 1
    invariant it1.seq().len() == self.addresses.ord().len(), mlists(self.addresses.ord(), self.addresses@), forall|k: int| 0 <= k < it1.seq().len() ==> *(#[trigger] it1.seq()[k]).0 == self.addresses.ord()[k].0 && *it1.seq()[k].1 == self.addresses.ord()[k].1,
        forall|k: int| 0 <= k < it1.index() ==> (#[trigger] self.addresses.ord()[k]).1 != (i, j),
//@ loopstart 1
    proof { assert(*pi == self.addresses.ord()[it1.index()].0 && *addr == self.addresses.ord()[it1.index()].1); }
//@ loopafter 1
    proof { if j < data_source.n() { assert(behind(self.addresses@, i as int, j as int)); let g = choose|g: usize| #[trigger] self.addresses@.contains_key(g) && self.addresses@[g].0 == i && self.addresses@[g].1 == j; let k = choose|k: int| 0 <= k < self.addresses.ord().len() && (#[trigger] self.addresses.ord()[k]).0 == g; assert(self.addresses.ord()[k].1 == (i, j)); assert(false); } }
//@ end
//@ fn pointcloud/src/glued_data_cloud.rs HashGluedCloud::reindex
//@ loops 1
//@ subst get (& old_index) => get (old_index)
//@ spec
    requires new_indexes@.len() == old(self).addresses@.len(), old(self).addresses@.dom().finite(), old(self).wf(),
        // the re-indexing is one-to-one
        forall|i: int, j: int| 0 <= i < j < new_indexes@.len() ==> (#[trigger] new_indexes@[i]).0 != (#[trigger] new_indexes@[j]).0 && new_indexes@[i].1 != new_indexes@[j].1,
    ensures final(self).data_sources == old(self).data_sources, final(self).wf(),
        res is Err ==> *final(self) == *old(self),
        (res is Ok) == (forall|i: int| 0 <= i < new_indexes@.len() ==> old(self).addresses@.contains_key((#[trigger] new_indexes@[i]).0)),
        res is Ok ==> forall|i: int| 0 <= i < new_indexes@.len() ==> final(self).addr((#[trigger] new_indexes@[i]).1) == old(self).addr(new_indexes@[i].0),
        res is Ok ==> forall|g: usize| #[trigger] final(self).addresses@.contains_key(g) ==> exists|i: int| 0 <= i < new_indexes@.len() && (#[trigger] new_indexes@[i]).1 == g,
//@ loop 0
    invariant it0.seq().len() == new_indexes@.len(), forall|k: int| 0 <= k < it0.seq().len() ==> *(#[trigger] it0.seq()[k]) == new_indexes@[k],
        forall|k: int| 0 <= k < it0.index() ==> self.addresses@.contains_key((#[trigger] new_indexes@[k]).0) && new_addresses@.contains_key(new_indexes@[k].1) && new_addresses@[new_indexes@[k].1] == self.addresses@[new_indexes@[k].0],
        forall|g: usize| #[trigger] new_addresses@.contains_key(g) ==> exists|k: int| 0 <= k < it0.index() && (#[trigger] new_indexes@[k]).1 == g,
//@ loopstart 0
    let ghost m0 = new_addresses@;
    proof { assert(*old_index == new_indexes@[it0.index()].0 && *new_index == new_indexes@[it0.index()].1); }
//@ loopend 0
    proof {
        assert forall|g: usize| #[trigger] new_addresses@.contains_key(g) implies exists|k: int| 0 <= k < it0.index() + 1 && (#[trigger] new_indexes@[k]).1 == g by {
            if m0.contains_key(g) { let k = choose|k: int| 0 <= k < it0.index() && (#[trigger] new_indexes@[k]).1 == g; assert(new_indexes@[k].1 == g); } else { assert(new_indexes@[it0.index()].1 == g); }
        }
    }
//@ loopafter 0
    proof { l_reindex(self.addresses@, new_addresses@, new_indexes@, self.data_sources@); }
//@ end
}
/// one entry per key, distinct keys, all of them in the map: then every key is listed
pub proof fn l_cover(m: Map<usize, (usize, usize)>, p: Seq<(usize, usize)>)
    requires p.len() == m.len(), m.dom().finite(), forall|i: int| 0 <= i < p.len() ==> m.contains_key((#[trigger] p[i]).0), forall|i: int, j: int| 0 <= i < j < p.len() ==> (#[trigger] p[i]).0 != (#[trigger] p[j]).0
    ensures forall|g: usize| #[trigger] m.contains_key(g) ==> exists|i: int| 0 <= i < p.len() && (#[trigger] p[i]).0 == g
{
    let q = Seq::new(p.len(), |i: int| p[i].0);
    assert forall|i: int, j: int| 0 <= i < q.len() && 0 <= j < q.len() && i != j implies q[i] != q[j] by { if i < j { assert(p[i].0 != p[j].0); } else { assert(p[j].0 != p[i].0); } }
    assert(q.no_duplicates());
    q.unique_seq_to_set();
    assert(q.to_set().subset_of(m.dom())) by { assert forall|x: usize| q.to_set().contains(x) implies m.dom().contains(x) by { let i = choose|i: int| 0 <= i < q.len() && q[i] == x; assert(p[i].0 == x); } }
    vstd::set_lib::lemma_subset_equality(q.to_set(), m.dom());
    assert forall|g: usize| #[trigger] m.contains_key(g) implies exists|i: int| 0 <= i < p.len() && (#[trigger] p[i]).0 == g by { assert(q.to_set().contains(g)); let i = choose|i: int| 0 <= i < q.len() && q[i] == g; assert(p[i].0 == g); }
}
pub proof fn l_reindex<D: PointCloud>(m: Map<usize, (usize, usize)>, t: Map<usize, (usize, usize)>, p: Seq<(usize, usize)>, ds: Seq<D>)
    requires exact(m, ds), p.len() == m.len(), m.dom().finite(),
        forall|i: int, j: int| 0 <= i < j < p.len() ==> (#[trigger] p[i]).0 != (#[trigger] p[j]).0 && p[i].1 != p[j].1,
        forall|k: int| 0 <= k < p.len() ==> m.contains_key((#[trigger] p[k]).0) && t.contains_key(p[k].1) && t[p[k].1] == m[p[k].0],
        forall|g: usize| #[trigger] t.contains_key(g) ==> exists|k: int| 0 <= k < p.len() && (#[trigger] p[k]).1 == g,
    ensures exact(t, ds)
{
    l_cover(m, p);
    assert forall|g: usize| #[trigger] t.contains_key(g) implies 0 <= t[g].0 < ds.len() && 0 <= t[g].1 < ds[t[g].0 as int].n() by { let k = choose|k: int| 0 <= k < p.len() && (#[trigger] p[k]).1 == g; assert(m.contains_key(p[k].0)); }
    assert forall|g: usize, h: usize| #[trigger] t.contains_key(g) && #[trigger] t.contains_key(h) && t[g] == t[h] implies g == h by {
        let a = choose|k: int| 0 <= k < p.len() && (#[trigger] p[k]).1 == g; let b = choose|k: int| 0 <= k < p.len() && (#[trigger] p[k]).1 == h;
        assert(m.contains_key(p[a].0) && m.contains_key(p[b].0));
        if a < b { assert(p[a].0 != p[b].0); } else if b < a { assert(p[b].0 != p[a].0); }
    }
    assert forall|i: int, j: int| #![trigger behind(t, i, j)] 0 <= i < ds.len() && 0 <= j < ds[i].n() implies behind(t, i, j) by {
        assert(behind(m, i, j)); let g = choose|g: usize| #[trigger] m.contains_key(g) && m[g].0 == i && m[g].1 == j; let k = choose|k: int| 0 <= k < p.len() && (#[trigger] p[k]).0 == g; assert(t.contains_key(p[k].1));
    }
}
} // verus!
fn main() {}
