// =====================================================================================
// UNIT gauss: diagonal Gaussian summaries
// =====================================================================================
pub broadcast axiom fn ax_vecf(v: Vec<f32>) ensures #[trigger] v@.len() <= usize::MAX;
broadcast use {fl::ax_mk, fl::ax_mk2};
/// CONTRACT of a point reference: `dense_iter` yields its coordinates in order (decided by unit `points`)
pub trait PointRef: Sized {
    spec fn vw(&self) -> Seq<f32>;
    fn dense_iter(&self) -> (r: Vec<f32>) ensures r@ == self.vw();
}
/// source of random numbers: `z(i)` is the i-th of the standard normal values it is about to hand out (nothing is assumed of them)
pub struct Normals { pub n: usize }
impl Normals { pub uninterp spec fn z(&self, i: int) -> real; }
pub struct StandardNormal;
impl StandardNormal {
    #[verifier::external_body] pub fn draw_n(self, rng: &mut Normals, n: usize) -> (r: Vec<f32>)
        ensures r@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r@[i])@ == old(rng).z(i) { unimplemented!() }
}
//@ struct goko/src/plugins/gaussians/diag_gaussian.rs DiagGaussian
//@ end
/// moments of a multiset of points, listed in any order
pub open spec fn m1(ps: Seq<Seq<f32>>, i: int) -> real decreases ps.len() { if ps.len() == 0 { 0real } else { m1(ps.drop_last(), i) + ps.last()[i]@ } }
pub open spec fn m2(ps: Seq<Seq<f32>>, i: int) -> real decreases ps.len() { if ps.len() == 0 { 0real } else { m2(ps.drop_last(), i) + ps.last()[i]@ * ps.last()[i]@ } }
pub open spec fn describes(g: DiagGaussian, ps: Seq<Seq<f32>>) -> bool {
    &&& g.wf()
    &&& g.count == ps.len()
    &&& forall|k: int| 0 <= k < ps.len() ==> (#[trigger] ps[k]).len() == g.moment1@.len()
    &&& forall|i: int| 0 <= i < g.moment1@.len() ==> (#[trigger] g.moment1@[i])@ == m1(ps, i)
    &&& forall|i: int| 0 <= i < g.moment1@.len() ==> (#[trigger] g.moment2@[i])@ == m2(ps, i)
}
impl DiagGaussian {
    pub open spec fn wf(&self) -> bool { self.moment1@.len() == self.moment2@.len() }
    pub open spec fn me(&self, i: int) -> real { self.moment1@[i]@ / ((self.count as int) as real) }
    pub open spec fn va(&self, i: int) -> real { self.moment2@[i]@ / ((self.count as int) as real) - self.me(i) * self.me(i) }
//@ fn goko/src/plugins/gaussians/diag_gaussian.rs DiagGaussian::new
//@ spec
    ensures res.wf(), res.count == 0, res.moment1@.len() == dim, forall|i: int| 0 <= i < dim ==> (#[trigger] res.moment1@[i])@ == 0real && res.moment2@[i]@ == 0real,
        describes(res, Seq::empty()),
//@ end
//@ fn goko/src/plugins/gaussians/diag_gaussian.rs DiagGaussian::dim
//@ spec
    ensures res == self.moment1@.len()
//@ end
//@ fn goko/src/plugins/gaussians/diag_gaussian.rs DiagGaussian::count
//@ spec
    ensures res == self.count
//@ end
//@ fn goko/src/plugins/gaussians/diag_gaussian.rs DiagGaussian::add_point
//@ loops 2
//@ spec
    requires old(self).wf(), point.vw().len() == old(self).moment1@.len(), old(self).count < usize::MAX,
    ensures final(self).wf(), final(self).moment1@.len() == old(self).moment1@.len(),
        final(self).count == old(self).count + 1,
        forall|i: int| 0 <= i < point.vw().len() ==> (#[trigger] final(self).moment1@[i])@ == old(self).moment1@[i]@ + point.vw()[i]@,
        forall|i: int| 0 <= i < point.vw().len() ==> (#[trigger] final(self).moment2@[i])@ == old(self).moment2@[i]@ + point.vw()[i]@ * point.vw()[i]@,
        forall|ps: Seq<Seq<f32>>| #[trigger] describes(*old(self), ps) ==> describes(*final(self), ps.push(point.vw())),
//@ start
    let ghost me0 = *self;
//@ loop 0
    invariant it0.seq().len() == me0.moment1@.len(), point.vw().len() == me0.moment1@.len(),
        forall|i: int| 0 <= i < me0.moment1@.len() ==> *(#[trigger] it0.seq()[i]).0 == me0.moment1@[i] && it0.seq()[i].1 == point.vw()[i],
        forall|i: int| #![trigger it0.seq()[i]] #![trigger me0.moment1@[i]] 0 <= i < it0.index() ==> (*final((it0.seq()[i]).0))@ == me0.moment1@[i]@ + point.vw()[i]@,
//@ loop 1
    invariant it1.seq().len() == me0.moment1@.len(), point.vw().len() == me0.moment1@.len(),
        forall|i: int| 0 <= i < me0.moment1@.len() ==> *(#[trigger] it1.seq()[i]).0 == me0.moment2@[i] && it1.seq()[i].1 == point.vw()[i],
        forall|i: int| #![trigger it1.seq()[i]] #![trigger me0.moment2@[i]] 0 <= i < it1.index() ==> (*final((it1.seq()[i]).0))@ == me0.moment2@[i]@ + point.vw()[i]@ * point.vw()[i]@,
//@ finish
    proof {
        assert forall|ps: Seq<Seq<f32>>| #[trigger] describes(me0, ps) implies describes(*self, ps.push(point.vw())) by {
            assert(ps.push(point.vw()).drop_last() =~= ps);
        }
    }
//@ end
//@ fn goko/src/plugins/gaussians/diag_gaussian.rs DiagGaussian::remove_point
//@ loops 2
//@ spec
    requires old(self).wf(), point.vw().len() == old(self).moment1@.len(), 
    ensures final(self).wf(), final(self).moment1@.len() == old(self).moment1@.len(),
        final(self).count == (if old(self).count == 0 { 0 } else { old(self).count - 1 }),
        old(self).count == 0 ==> *final(self) == *old(self),
        old(self).count > 0 ==> forall|i: int| 0 <= i < point.vw().len() ==> (#[trigger] final(self).moment1@[i])@ == old(self).moment1@[i]@ - point.vw()[i]@,
        old(self).count > 0 ==> forall|i: int| 0 <= i < point.vw().len() ==> (#[trigger] final(self).moment2@[i])@ == old(self).moment2@[i]@ - point.vw()[i]@ * point.vw()[i]@,
        forall|ps: Seq<Seq<f32>>, k: int| #![trigger describes(*old(self), ps), ps[k]] describes(*old(self), ps) && 0 <= k < ps.len() && ps[k] == point.vw() ==> describes(*final(self), ps.remove(k)),
//@ start
    let ghost me0 = *self;
//@ loop 0
    invariant it0.seq().len() == me0.moment1@.len(), point.vw().len() == me0.moment1@.len(),
        forall|i: int| 0 <= i < me0.moment1@.len() ==> *(#[trigger] it0.seq()[i]).0 == me0.moment1@[i] && it0.seq()[i].1 == point.vw()[i],
        forall|i: int| #![trigger it0.seq()[i]] #![trigger me0.moment1@[i]] 0 <= i < it0.index() ==> (*final((it0.seq()[i]).0))@ == me0.moment1@[i]@ - point.vw()[i]@,
//@ loop 1
    invariant it1.seq().len() == me0.moment1@.len(), point.vw().len() == me0.moment1@.len(),
        forall|i: int| 0 <= i < me0.moment1@.len() ==> *(#[trigger] it1.seq()[i]).0 == me0.moment2@[i] && it1.seq()[i].1 == point.vw()[i],
        forall|i: int| #![trigger it1.seq()[i]] #![trigger me0.moment2@[i]] 0 <= i < it1.index() ==> (*final((it1.seq()[i]).0))@ == me0.moment2@[i]@ - point.vw()[i]@ * point.vw()[i]@,
//@ finish
    proof {
        assert forall|ps: Seq<Seq<f32>>, k: int| #![trigger describes(me0, ps), ps[k]] describes(me0, ps) && 0 <= k < ps.len() && ps[k] == point.vw() implies describes(*self, ps.remove(k)) by {
            assert forall|i: int| 0 <= i < self.moment1@.len() implies (#[trigger] self.moment1@[i])@ == m1(ps.remove(k), i) by { lemma_rem(ps, k, i); }
            assert forall|i: int| 0 <= i < self.moment1@.len() implies (#[trigger] self.moment2@[i])@ == m2(ps.remove(k), i) by { lemma_rem(ps, k, i); }
        }
    }
//@ end
//@ fn goko/src/plugins/gaussians/diag_gaussian.rs DiagGaussian::merge
//@ loops 2
//@ spec
    requires old(self).wf(), other.wf(), other.moment1@.len() == old(self).moment1@.len(), old(self).count + other.count <= usize::MAX,
    ensures final(self).wf(), final(self).moment1@.len() == old(self).moment1@.len(), final(self).count == old(self).count + other.count,
        forall|i: int| 0 <= i < other.moment1@.len() ==> (#[trigger] final(self).moment1@[i])@ == old(self).moment1@[i]@ + other.moment1@[i]@,
        forall|i: int| 0 <= i < other.moment1@.len() ==> (#[trigger] final(self).moment2@[i])@ == old(self).moment2@[i]@ + other.moment2@[i]@,
        forall|ps: Seq<Seq<f32>>, qs: Seq<Seq<f32>>| #[trigger] describes(*old(self), ps) && #[trigger] describes(*other, qs) ==> describes(*final(self), ps + qs),
//@ start
    let ghost me0 = *self;
//@ loop 0
    invariant it0.seq().len() == me0.moment1@.len(),
        forall|i: int| 0 <= i < me0.moment1@.len() ==> *(#[trigger] it0.seq()[i]).0 == me0.moment1@[i] && *it0.seq()[i].1 == other.moment1@[i],
        forall|i: int| #![trigger it0.seq()[i]] #![trigger me0.moment1@[i]] 0 <= i < it0.index() ==> (*final((it0.seq()[i]).0))@ == me0.moment1@[i]@ + other.moment1@[i]@,
//@ loop 1
    invariant it1.seq().len() == me0.moment1@.len(),
        forall|i: int| 0 <= i < me0.moment1@.len() ==> *(#[trigger] it1.seq()[i]).0 == me0.moment2@[i] && *it1.seq()[i].1 == other.moment2@[i],
        forall|i: int| #![trigger it1.seq()[i]] #![trigger me0.moment2@[i]] 0 <= i < it1.index() ==> (*final((it1.seq()[i]).0))@ == me0.moment2@[i]@ + other.moment2@[i]@,
//@ finish
    proof {
        assert forall|ps: Seq<Seq<f32>>, qs: Seq<Seq<f32>>| #[trigger] describes(me0, ps) && #[trigger] describes(*other, qs) implies describes(*self, ps + qs) by {
            assert forall|i: int| 0 <= i < self.moment1@.len() implies (#[trigger] self.moment1@[i])@ == m1(ps + qs, i) by { lemma_cat(ps, qs, i); }
            assert forall|i: int| 0 <= i < self.moment1@.len() implies (#[trigger] self.moment2@[i])@ == m2(ps + qs, i) by { lemma_cat(ps, qs, i); }
        }
    }
//@ end
//@ fn goko/src/plugins/gaussians/diag_gaussian.rs DiagGaussian::mean
//@ subst let mut __acc1 = Vec :: new () => let mut __acc1 : Vec < f32 > = Vec :: new ()
//@ loops 1
//@ spec
    requires self.wf(),
    ensures res@.len() == self.moment1@.len(),
        self.count > 0 ==> forall|i: int| 0 <= i < res@.len() ==> (#[trigger] res@[i])@ == self.me(i),
        self.count == 0 ==> forall|i: int| 0 <= i < res@.len() ==> (#[trigger] res@[i])@ == 0real,
//@ loop 0
    invariant it0.seq().len() == self.moment1@.len(), __acc1@.len() == it0.index(),
        forall|i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == self.moment1@[i],
        forall|i: int| 0 <= i < it0.index() ==> (#[trigger] __acc1@[i])@ == self.me(i),
//@ end
//@ fn goko/src/plugins/gaussians/diag_gaussian.rs DiagGaussian::var
//@ subst let mut __acc1 = Vec :: new () => let mut __acc1 : Vec < f32 > = Vec :: new ()
//@ loops 1
//@ spec
    requires self.wf(),
    ensures res@.len() == self.moment1@.len(),
        self.count > 0 ==> forall|i: int| 0 <= i < res@.len() ==> (#[trigger] res@[i])@ == self.va(i),
        self.count == 0 ==> forall|i: int| 0 <= i < res@.len() ==> (#[trigger] res@[i])@ == 0real,
//@ loop 0
    invariant it0.seq().len() == self.moment1@.len(), __acc1@.len() == it0.index(),
        forall|i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]).0 == self.moment2@[i] && *it0.seq()[i].1 == self.moment1@[i],
        forall|i: int| 0 <= i < it0.index() ==> (#[trigger] __acc1@[i])@ == self.va(i),
//@ end
    /// sums of the first n terms of the divergence of two Gaussians: variance ratio, Mahalanobis term, log-determinant ratio
    pub open spec fn tr(&self, o: &DiagGaussian, n: int) -> real decreases n { if n <= 0 { 0real } else { self.tr(o, n - 1) + self.va(n - 1) / o.va(n - 1) } }
    pub open spec fn mh(&self, o: &DiagGaussian, n: int) -> real decreases n { if n <= 0 { 0real } else { self.mh(o, n - 1) + (o.me(n - 1) - self.me(n - 1)) * (o.me(n - 1) - self.me(n - 1)) / o.va(n - 1) } }
    pub open spec fn ld(&self, o: &DiagGaussian, n: int) -> real decreases n { if n <= 0 { 0real } else { self.ld(o, n - 1) + (rln(o.va(n - 1)) - rln(self.va(n - 1))) } }
    pub open spec fn mp(&self, p: Seq<f32>, n: int) -> real decreases n { if n <= 0 { 0real } else { self.mp(p, n - 1) + (p[n - 1]@ - self.me(n - 1)) * (p[n - 1]@ - self.me(n - 1)) / self.va(n - 1) } }
    pub open spec fn lv(&self, n: int) -> real decreases n { if n <= 0 { 0real } else { self.lv(n - 1) + rln(self.va(n - 1)) } }
//@ fn goko/src/plugins/gaussians/diag_gaussian.rs DiagGaussian as ContinousDistribution::kl_divergence
//@ loops 1
//@ spec
    requires self.wf(), other.wf(), self.moment1@.len() == other.moment1@.len(), self.count > 0, other.count > 0,
    ensures res is Some, ({ let n = self.moment1@.len() as int; (res->0)@ == (self.tr(other, n) + self.mh(other, n) - (n as real) + self.ld(other, n)) / 2real }),
//@ loop 0
    invariant it0.seq().len() == self.moment1@.len(),
        forall|i: int| 0 <= i < it0.seq().len() ==> it0.seq()[i] == (((#[trigger] it0.seq()[i]).0), it0.seq()[i].1)
            && *it0.seq()[i].0.0 == self.moment1@[i] && *it0.seq()[i].0.1.0 == self.moment2@[i] && *it0.seq()[i].0.1.1 == self.moment1@[i]
            && *it0.seq()[i].1.0 == other.moment1@[i] && *it0.seq()[i].1.1.0 == other.moment2@[i] && *it0.seq()[i].1.1.1 == other.moment1@[i],
        __acc1.0@ == self.tr(other, it0.index() as int), __acc1.1@ == self.mh(other, it0.index() as int), __acc1.2@ == self.ld(other, it0.index() as int),
//@ end
//@ fn goko/src/plugins/gaussians/diag_gaussian.rs DiagGaussian as ContinousDistribution::sample
//@ loops 1
//@ subst let mut __acc1 = Vec => let mut __acc1 : Vec<f32> = Vec
//@ sig
    pub fn sample(&self, rng: &mut Normals) -> (res: Vec<f32>)
//@ spec
    requires self.wf(), self.count > 0,
    ensures res@.len() == self.moment1@.len(),
        forall|i: int| 0 <= i < res@.len() ==> (#[trigger] res@[i])@ == old(rng).z(i) * rsqrt(rmax(self.va(i), 0real)) + self.me(i),
//@ loop 0
    invariant it0.seq().len() == self.moment1@.len(), __acc1@.len() == it0.index(),
        forall|i: int| 0 <= i < it0.seq().len() ==> (#[trigger] it0.seq()[i]).0@ == old(rng).z(i) && *it0.seq()[i].1.0 == self.moment1@[i] && *it0.seq()[i].1.1.0 == self.moment2@[i] && *it0.seq()[i].1.1.1 == self.moment1@[i],
        forall|i: int| 0 <= i < it0.index() ==> (#[trigger] __acc1@[i])@ == old(rng).z(i) * rsqrt(rmax(self.va(i), 0real)) + self.me(i),
//@ end
//@ fn goko/src/plugins/gaussians/diag_gaussian.rs DiagGaussian as ContinousDistribution::ln_pdf
//@ subst point . dense_iter () => point . dense_iter () . into_iter ()
//@ loops 1
//@ spec
    requires self.wf(), point.vw().len() == self.moment1@.len(), self.count > 0,
    ensures res is Some, ({ let n = self.moment1@.len() as int; (res->0)@ == -(self.mp(point.vw(), n) + self.lv(n) + (n as real) * rln(2real * rpi())) / 2real }),
//@ loop 0
    invariant it0.seq().len() == self.moment1@.len(),
        forall|i: int| 0 <= i < it0.seq().len() ==> (#[trigger] it0.seq()[i]).0 == point.vw()[i] && *it0.seq()[i].1.0 == self.moment1@[i] && *it0.seq()[i].1.1.0 == self.moment2@[i] && *it0.seq()[i].1.1.1 == self.moment1@[i],
        __acc1.0@ == self.mp(point.vw(), it0.index() as int), __acc1.1@ == self.lv(it0.index() as int),
//@ end
}
pub proof fn lemma_rem(ps: Seq<Seq<f32>>, k: int, i: int)
    requires 0 <= k < ps.len()
    ensures m1(ps.remove(k), i) == m1(ps, i) - ps[k][i]@, m2(ps.remove(k), i) == m2(ps, i) - ps[k][i]@ * ps[k][i]@
    decreases ps.len()
{
    if k == ps.len() - 1 { assert(ps.remove(k) =~= ps.drop_last()); }
    else { lemma_rem(ps.drop_last(), k, i); assert(ps.remove(k).drop_last() =~= ps.drop_last().remove(k)); assert(ps.remove(k).last() == ps.last()); }
}
pub proof fn lemma_cat(ps: Seq<Seq<f32>>, qs: Seq<Seq<f32>>, i: int)
    ensures m1(ps + qs, i) == m1(ps, i) + m1(qs, i), m2(ps + qs, i) == m2(ps, i) + m2(qs, i)
    decreases qs.len()
{
    if qs.len() == 0 { assert(ps + qs =~= ps); }
    else { lemma_cat(ps, qs.drop_last(), i); assert((ps + qs).drop_last() =~= ps + qs.drop_last()); }
}
