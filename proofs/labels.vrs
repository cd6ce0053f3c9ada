//@ include prelude.vrs
//@ include coll.vrs
//@ include summ_body.vrs
// =====================================================================================
// UNIT labels: label sources
// =====================================================================================
//@ struct pointcloud/src/label_sources/mod.rs SmallIntLabels
//@ end
pub open spec fn keep(mask: Option<Vec<bool>>, i: int) -> bool { mask is None || mask->0@[i] }
/// the lookups of a list of indexes
pub open spec fn seen(l: SmallIntLabels, pns: Seq<usize>, n: int) -> Seq<Obs<i64>> decreases n { if n <= 0 { Seq::empty() } else { seen(l, pns, n - 1).push(l.at(pns[n - 1] as int)) } }
pub proof fn l_seen(l: SmallIntLabels, pns: Seq<usize>, n: int) requires n >= 0 ensures seen(l, pns, n).len() == n decreases n { if n > 0 { l_seen(l, pns, n - 1); } }
impl SmallIntLabels {
    /// masks, where present, have one entry per label
    pub open spec fn wf(&self) -> bool { self.mask is Some ==> self.mask->0@.len() == self.labels@.len() }
    pub open spec fn n(&self) -> int { self.labels@.len() as int }
    pub open spec fn at(&self, i: int) -> Obs<i64> { if keep(self.mask, i) { Obs::Val(self.labels@[i]) } else { Obs::Missing } }
//@ fn pointcloud/src/label_sources/mod.rs SmallIntLabels::new
//@ spec
    ensures res.labels == labels, res.mask == mask,
//@ end
//@ fn pointcloud/src/label_sources/mod.rs SmallIntLabels as LabelSet::len
//@ spec
    ensures res == self.n()
//@ end
//@ fn pointcloud/src/label_sources/mod.rs SmallIntLabels as LabelSet::is_empty
//@ spec
    ensures res == (self.n() == 0)
//@ end
//@ fn pointcloud/src/label_sources/mod.rs SmallIntLabels as LabelSet::label
//@ spec
    requires self.wf(), pn < self.n(),
    ensures res is Ok, (res->Ok_0 is Some) == keep(self.mask, pn as int), res->Ok_0 is Some ==> *(res->Ok_0->0) == self.labels@[pn as int],
//@ end
//@ fn pointcloud/src/label_sources/mod.rs SmallIntLabels as LabelSet::label_summary
//@ subst Self :: LabelSummary => CategorySummary
//@ subst let mut nones = => let mut nones : usize =
//@ loops 2
//@ spec
    requires self.wf(), forall|i: int| 0 <= i < pns@.len() ==> (#[trigger] pns@[i]) < self.n(),
    ensures res is Ok, res->Ok_0.of(seen(*self, pns@, pns@.len() as int)),
//@ start
    proof { assert(pns@.len() == vstd::slice::spec_slice_len(pns)); }
//@ loop 0
    invariant self.mask is Some, *mask == self.mask->0, it0.seq().len() == pns@.len(), forall|i: int| 0 <= i < pns@.len() ==> *(#[trigger] it0.seq()[i]) == pns@[i],
        summary.desc(vals(seen(*self, pns@, it0.index()))), nones == missing(seen(*self, pns@, it0.index())), failed(seen(*self, pns@, it0.index())) == 0,
//@ loopstart 0
    let ghost k = it0.index();
    proof { assert(*i == pns@[k]); l_seen(*self, pns@, k); l_obs_len(seen(*self, pns@, k)); l_occ_nonneg(vals(seen(*self, pns@, k)), self.labels@[*i as int]); l_obs_push(seen(*self, pns@, k), self.at(*i as int)); assert(cv(summary.items@, self.labels@[*i as int]) == occ(vals(seen(*self, pns@, k)), self.labels@[*i as int])); assert(CategorySummary::g(&self.labels@[*i as int]) == self.labels@[*i as int]); }
//@ loop 1
    invariant self.mask is None, it1.seq().len() == pns@.len(), forall|i: int| 0 <= i < pns@.len() ==> *(#[trigger] it1.seq()[i]) == pns@[i],
        summary.desc(vals(seen(*self, pns@, it1.index()))), nones == missing(seen(*self, pns@, it1.index())), failed(seen(*self, pns@, it1.index())) == 0,
//@ loopstart 1
    let ghost k = it1.index();
    proof { assert(*i == pns@[k]); l_seen(*self, pns@, k); l_obs_len(seen(*self, pns@, k)); l_occ_nonneg(vals(seen(*self, pns@, k)), self.labels@[*i as int]); l_obs_push(seen(*self, pns@, k), self.at(*i as int)); assert(cv(summary.items@, self.labels@[*i as int]) == occ(vals(seen(*self, pns@, k)), self.labels@[*i as int])); assert(CategorySummary::g(&self.labels@[*i as int]) == self.labels@[*i as int]); }
//@ end
//@ fn pointcloud/src/label_sources/mod.rs SmallIntLabels::merge
//@ opt extend
//@ spec
    requires old(self).wf(), other.wf(),
    ensures final(self).wf(), final(self).n() == old(self).n() + other.n(),
        forall|i: int| 0 <= i < old(self).n() ==> #[trigger] final(self).at(i) == old(self).at(i),
        forall|i: int| old(self).n() <= i < final(self).n() ==> #[trigger] final(self).at(i) == other.at(i - old(self).n()),
//@ end
}
//@ struct pointcloud/src/label_sources/mod.rs VecLabels
//@ end
pub open spec fn vseen(l: VecLabels, pns: Seq<usize>, n: int) -> Seq<Obs<Seq<f32>>> decreases n { if n <= 0 { Seq::empty() } else { vseen(l, pns, n - 1).push(l.at(pns[n - 1] as int)) } }
pub proof fn l_vseen(l: VecLabels, pns: Seq<usize>, n: int) requires n >= 0 ensures vseen(l, pns, n).len() == n decreases n { if n > 0 { l_vseen(l, pns, n - 1); } }
/// the first coordinate above one half, or the dimension if there is none
pub open spec fn hot(r: Seq<f32>, n: int) -> int decreases r.len() - n { if 0 <= n < r.len() { if r[n]@ > 0.5real { n } else { hot(r, n + 1) } } else { r.len() as int } }
impl VecLabels {
    pub proof fn l_row(&self, i: int) requires self.wf(), 0 <= i < self.n() ensures 0 <= self.label_dim * i <= self.label_dim * (i + 1) <= self.labels@.len() <= usize::MAX, i + 1 <= usize::MAX, self.label_dim * (i + 1) - self.label_dim * i == self.label_dim, self.row(i).len() == self.label_dim
    {
        assert(self.labels@.len() == self.labels.len());
        let d = self.label_dim as int; let n = self.n(); let l = self.labels@.len() as int;
        assert(d * (i + 1) <= d * n) by (nonlinear_arith) requires d > 0, i + 1 <= n;
        assert(d * (i + 1) == d * i + d) by (nonlinear_arith);
        assert(i + 1 <= d * (i + 1)) by (nonlinear_arith) requires d > 0, i >= 0;
        assert(d * i >= 0) by (nonlinear_arith) requires d > 0, i >= 0;
    }
    pub open spec fn wf(&self) -> bool { self.label_dim > 0 && self.labels@.len() == self.label_dim * self.n() && (self.mask is Some ==> self.mask->0@.len() == self.n()) }
    pub open spec fn n(&self) -> int { self.labels@.len() as int / self.label_dim as int }
    pub open spec fn row(&self, i: int) -> Seq<f32> { self.labels@.subrange(self.label_dim * i, self.label_dim * (i + 1)) }
    pub open spec fn at(&self, i: int) -> Obs<Seq<f32>> { if keep(self.mask, i) { Obs::Val(self.row(i)) } else { Obs::Missing } }
//@ fn pointcloud/src/label_sources/mod.rs VecLabels::new
//@ spec
    requires label_dim > 0, labels@.len() % label_dim as nat == 0, mask is Some ==> mask->0@.len() == labels@.len() / label_dim as nat
    ensures res.labels == labels, res.mask == mask, res.label_dim == label_dim, res.wf(),
//@ start
    proof { let l = labels@.len() as int; let d = label_dim as int; vstd::arithmetic::div_mod::lemma_fundamental_div_mod(l, d); }
//@ end
//@ fn pointcloud/src/label_sources/mod.rs VecLabels::dim
//@ spec
    ensures res == self.label_dim
//@ end
//@ fn pointcloud/src/label_sources/mod.rs VecLabels as LabelSet::len
//@ spec
    requires self.wf()
    ensures res == self.n()
//@ end
//@ fn pointcloud/src/label_sources/mod.rs VecLabels as LabelSet::is_empty
//@ spec
    requires self.wf()
    ensures res == (self.n() == 0)
//@ end
//@ fn pointcloud/src/label_sources/mod.rs VecLabels as LabelSet::label
//@ subst Self :: Label => [f32]
//@ spec
    requires self.wf(), pn < self.n(),
    ensures res is Ok, (res->Ok_0 is Some) == keep(self.mask, pn as int), res->Ok_0 is Some ==> (res->Ok_0->0)@ == self.row(pn as int),
//@ start
    proof { self.l_row(pn as int); }
//@ end
//@ fn pointcloud/src/label_sources/mod.rs VecLabels as LabelSet::label_summary
//@ subst Self :: LabelSummary => VecSummary
//@ subst let mut nones = => let mut nones : usize =
//@ loops 2
//@ spec
    requires self.wf(), forall|i: int| 0 <= i < pns@.len() ==> (#[trigger] pns@[i]) < self.n(),
    ensures res is Ok, res->Ok_0.of(vseen(*self, pns@, pns@.len() as int)),
//@ start
    proof { assert(pns@.len() == vstd::slice::spec_slice_len(pns)); }
//@ loop 0
    invariant self.mask is Some, *mask == self.mask->0, it0.seq().len() == pns@.len(), forall|i: int| 0 <= i < pns@.len() ==> *(#[trigger] it0.seq()[i]) == pns@[i],
        nones == missing(vseen(*self, pns@, it0.index())), failed(vseen(*self, pns@, it0.index())) == 0, summary.desc(vals(vseen(*self, pns@, it0.index()))),
        forall|q: int| 0 <= q < vals(vseen(*self, pns@, it0.index())).len() ==> (#[trigger] vals(vseen(*self, pns@, it0.index()))[q]).len() == self.label_dim,
//@ loopstart 0
    let ghost k = it0.index();
    proof { assert(summary.vdesc(vals(vseen(*self, pns@, k)))); assert(*i == pns@[k]); l_vseen(*self, pns@, k); l_obs_len(vseen(*self, pns@, k)); l_obs_push(vseen(*self, pns@, k), self.at(*i as int)); self.l_row(*i as int); }
//@ loop 1
    invariant self.mask is None, it1.seq().len() == pns@.len(), forall|i: int| 0 <= i < pns@.len() ==> *(#[trigger] it1.seq()[i]) == pns@[i],
        nones == missing(vseen(*self, pns@, it1.index())), failed(vseen(*self, pns@, it1.index())) == 0, summary.desc(vals(vseen(*self, pns@, it1.index()))),
        forall|q: int| 0 <= q < vals(vseen(*self, pns@, it1.index())).len() ==> (#[trigger] vals(vseen(*self, pns@, it1.index()))[q]).len() == self.label_dim,
//@ loopstart 1
    let ghost k = it1.index();
    proof { assert(summary.vdesc(vals(vseen(*self, pns@, k)))); assert(*i == pns@[k]); l_vseen(*self, pns@, k); l_obs_len(vseen(*self, pns@, k)); l_obs_push(vseen(*self, pns@, k), self.at(*i as int)); self.l_row(*i as int); }
//@ end
//@ fn pointcloud/src/label_sources/mod.rs VecLabels::one_hot_to_int
//@ loops 2
//@ subst let mut __acc4 = None => let mut __acc4 : Option<i64> = None
//@ subst * x > & rlit (5 , 10) => * * x > rlit(5, 10)
//@ spec
    requires self.wf(), self.label_dim <= i64::MAX,
    ensures res.wf(), res.n() == self.n(),
        forall|i: int| 0 <= i < self.n() ==> #[trigger] res.at(i) == (if keep(self.mask, i) && hot(self.row(i), 0) < self.label_dim { Obs::Val(hot(self.row(i), 0) as i64) } else { Obs::<i64>::Missing }),
//@ loop 0
    invariant it0.seq().len() == self.n(), __acc1@.len() == it0.index(), mask@.len() == self.n(),
        forall|j: int| 0 <= j < it0.index() ==> #[trigger] mask@[j] == (keep(self.mask, j) && hot(self.row(j), 0) < self.label_dim),
        forall|j: int| 0 <= j < it0.index() && hot(self.row(j), 0) < self.label_dim ==> #[trigger] __acc1@[j] == hot(self.row(j), 0),
        forall|j: int| it0.index() <= j < self.n() ==> #[trigger] mask@[j] == keep(self.mask, j),
//@ loopstart 0
    proof { self.l_row(i as int); }
//@ loop 1
    invariant_except_break __acc4 is None, __c7 == it1.index(), hot(self.row(i as int), 0) == hot(self.row(i as int), it1.index()),
    invariant it1.seq().len() == self.label_dim, forall|j: int| 0 <= j < it1.seq().len() ==> *(#[trigger] it1.seq()[j]) == self.row(i as int)[j],
    ensures __acc4 is Some ==> __acc4->0 == hot(self.row(i as int), 0) && __acc4->0 < self.label_dim, __acc4 is None ==> hot(self.row(i as int), 0) == self.label_dim,
//@ end
//@ fn pointcloud/src/label_sources/mod.rs VecLabels::binary_to_int
//@ loops 1
//@ subst x > & rlit (5 , 10) => * x > rlit(5, 10)
//@ spec
    requires self.wf(), self.label_dim == 1,
    ensures res.wf(), res.n() == self.n(),
        forall|i: int| 0 <= i < self.n() ==> #[trigger] res.at(i) == (if keep(self.mask, i) { Obs::Val(if self.row(i)[0]@ > 0.5real { 1i64 } else { 0i64 }) } else { Obs::<i64>::Missing }),
//@ loop 0
    invariant it0.seq().len() == self.n(), __acc1@.len() == it0.index(), mask@.len() == self.n(),
        forall|j: int| 0 <= j < self.n() ==> #[trigger] mask@[j] == keep(self.mask, j),
        forall|j: int| 0 <= j < it0.index() ==> #[trigger] __acc1@[j] == (if self.row(j)[0]@ > 0.5real { 1i64 } else { 0i64 }),
//@ loopstart 0
    proof { self.l_row(i as int); }
//@ end
}
} // verus!
fn main() {}
