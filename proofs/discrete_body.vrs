// =====================================================================================
// UNIT discrete: counting and Dirichlet summaries
// =====================================================================================
//@ include discrete_spec.vrs

//@ struct goko/src/plugins/discrete/categorical.rs Categorical
//@ end
impl Categorical {
    pub open spec fn cc(&self) -> Seq<(NodeAddress, f64)> { self.child_counts@ }
    pub open spec fn wf(&self) -> bool { sorted(self.cc()) }
    /// weight of a category; None is the node's own category (singletons / stopping here)
    pub open spec fn wt(&self, l: Option<NodeAddress>) -> real { match l { Some(a) => wtn(self.cc(), a, self.cc().len() as int), None => self.singleton_count@ } }
    pub open spec fn tot(&self) -> real { self.singleton_count@ + sumn(self.cc(), self.cc().len() as int) }
//@ fn goko/src/plugins/discrete/categorical.rs Categorical::new
//@ spec
    ensures res.wf(), res.tot() == 0real, forall|l: Option<NodeAddress>| #[trigger] res.wt(l) == 0real, res.cc().len() == 0,
//@ end
//@ fn goko/src/plugins/discrete/categorical.rs Categorical::total
//@ loops 1
//@ spec
    ensures res@ == self.tot()
//@ loop 0
    invariant it0.seq().len() == self.cc().len(), forall|i: int| 0 <= i < self.cc().len() ==> *(#[trigger] it0.seq()[i]) == self.cc()[i], __acc1@ == sumn(self.cc(), it0.index()),
//@ end
//@ fn goko/src/plugins/discrete/categorical.rs Categorical::prob_vector
//@ loops 1
//@ spec
    ensures (res is Some) == (self.tot() > 0real),
        res is Some ==> (res->0).0@.len() == self.cc().len() && (res->0).1@ == self.singleton_count@ / self.tot()
            && forall|i: int| 0 <= i < self.cc().len() ==> (#[trigger] (res->0).0@[i]).0 == self.cc()[i].0 && (res->0).0@[i].1@ == self.cc()[i].1@ / self.tot(),
//@ loop 0
    invariant it0.seq().len() == self.cc().len(), forall|i: int| 0 <= i < self.cc().len() ==> *(#[trigger] it0.seq()[i]) == self.cc()[i], __acc1@.len() == it0.index(), total@ == self.tot(),
        forall|i: int| 0 <= i < it0.index() ==> (#[trigger] __acc1@[i]).0 == self.cc()[i].0 && __acc1@[i].1@ == self.cc()[i].1@ / self.tot(),
//@ end
//@ fn goko/src/plugins/discrete/categorical.rs Categorical::sample
//@ loops 1
//@ sig
    pub fn sample(&self, rng: &mut Draws) -> (res: Option<NodeAddress>)
//@ spec
    requires self.wf(), nonneg(self.cc()), self.singleton_count@ >= 0real,
    ensures self.tot() <= 0real ==> res is None, self.tot() > 0real ==> falls(self.cc(), draw(*old(rng), 0real, self.tot()), res) && self.wt(res) > 0real,
//@ loop 0
    invariant it0.seq().len() == self.cc().len(), forall|i: int| 0 <= i < self.cc().len() ==> *(#[trigger] it0.seq()[i]) == self.cc()[i], count@ == sumn(self.cc(), it0.index()), sumn(self.cc(), it0.index()) <= sample@,
//@ before return Some
    proof { assert(slice_of(self.cc(), it0.index(), sample@)); lemma_at(self.cc(), it0.index()); }
//@ end
//@ fn goko/src/plugins/discrete/categorical.rs Categorical::add_child_pop
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).tot() == old(self).tot() + count@,
        forall|l: Option<NodeAddress>| #[trigger] final(self).wt(l) == old(self).wt(l) + (if l == loc { count@ } else { 0real }),
        forall|a: NodeAddress| #[trigger] hask(final(self).cc(), a) == (hask(old(self).cc(), a) || loc == Some(a)),
//@ start
    let ghost s0 = self.cc();
//@ finish
    proof {
        if loc is Some { lemma_add(s0, self.cc(), loc->0, count); }
    }
//@ end
//@ fn goko/src/plugins/discrete/categorical.rs Categorical::remove_child_pop
//@ spec
    requires old(self).wf(), count@ >= 0real, nonneg(old(self).cc()),
    ensures final(self).wf(), final(self).wt(loc) == rmax(old(self).wt(loc) - count@, 0real) || (old(self).singleton_count@ < 0real && loc is None),
        nonneg(final(self).cc()),
        final(self).tot() == old(self).tot() + final(self).wt(loc) - old(self).wt(loc),
        forall|l: Option<NodeAddress>| l != loc ==> #[trigger] final(self).wt(l) == old(self).wt(l),
        forall|a: NodeAddress| #[trigger] hask(final(self).cc(), a) == hask(old(self).cc(), a),
//@ start
    let ghost s0 = self.cc();
//@ finish
    proof {
        if loc is Some { lemma_rem(s0, self.cc(), loc->0, count); }
    }
//@ end
//@ fn goko/src/plugins/discrete/categorical.rs Categorical::ln_pdf
//@ opt result_map
//@ spec
    requires self.wf(),
    ensures (res is Some) == (self.tot() > 0real), res is Some ==> (res->0)@ == rln(self.wt(own(loc))) - rln(self.tot()),
//@ start
    proof { lemma_lookup(self.cc()); }
//@ end

//@ fn goko/src/plugins/discrete/categorical.rs Categorical::merge
//@ loops 1
//@ spec
    requires old(self).wf(), other.wf(),
    ensures final(self).wf(), final(self).tot() == old(self).tot() + other.tot(),
        forall|l: Option<NodeAddress>| #[trigger] final(self).wt(l) == old(self).wt(l) + other.wt(l),
        forall|a: NodeAddress| #[trigger] hask(final(self).cc(), a) == (hask(old(self).cc(), a) || hask(other.cc(), a)),
//@ start
    let ghost me0 = *self;
//@ loop 0
    invariant it0.seq().len() == other.cc().len(), forall|i: int| 0 <= i < other.cc().len() ==> *(#[trigger] it0.seq()[i]) == other.cc()[i],
        self.wf(), self.tot() == me0.tot() + sumn(other.cc(), it0.index()),
        self.wt(None) == me0.wt(None),
        forall|a: NodeAddress| #[trigger] self.wt(Some(a)) == me0.wt(Some(a)) + wtn(other.cc(), a, it0.index()),
        forall|a: NodeAddress| #[trigger] hask(self.cc(), a) == (hask(me0.cc(), a) || exists|i: int| 0 <= i < it0.index() && (#[trigger] other.cc()[i]).0 == a),
//@ loopstart 0
    let ghost m1 = *self;
//@ loopend 0
    proof {
        assert(other.cc()[it0.index()] == (*na, *c));
        assert forall|a: NodeAddress| #[trigger] self.wt(Some(a)) == me0.wt(Some(a)) + wtn(other.cc(), a, it0.index() + 1) by { assert(m1.wt(Some(a)) == me0.wt(Some(a)) + wtn(other.cc(), a, it0.index())); }
        assert forall|a: NodeAddress| #[trigger] hask(self.cc(), a) == (hask(me0.cc(), a) || exists|i: int| 0 <= i < it0.index() + 1 && (#[trigger] other.cc()[i]).0 == a) by {
            assert(hask(m1.cc(), a) == (hask(me0.cc(), a) || exists|i: int| 0 <= i < it0.index() && (#[trigger] other.cc()[i]).0 == a));
            if a == *na { assert(other.cc()[it0.index()].0 == a); }
        }
    }
//@ finish
    proof {
        assert forall|l: Option<NodeAddress>| #[trigger] self.wt(l) == me0.wt(l) + other.wt(l) by { }
        assert forall|a: NodeAddress| #[trigger] hask(self.cc(), a) == (hask(me0.cc(), a) || hask(other.cc(), a)) by {
            if hask(other.cc(), a) { let i = choose|i: int| 0 <= i < other.cc().len() && (#[trigger] other.cc()[i]).0 == a; assert(other.cc()[i].0 == a); }
        }
    }
//@ end

//@ fn goko/src/plugins/discrete/categorical.rs Categorical::kl_divergence
//@ loops 1
//@ spec
    requires self.wf(), other.wf(), nonneg(self.cc()), nonneg(other.cc()), self.singleton_count@ >= 0real, other.singleton_count@ >= 0real,
    ensures
        (res is Some) == (self.tot() != 0real && other.tot() != 0real && supported(*self, *other)),
        res is Some ==> (res->0)@ == ckl(*self, *other),
//@ start
    proof { lemma_lookup(other.cc()); lemma_lookup(self.cc()); }
//@ loop 0
    invariant it0.seq().len() == self.cc().len(), forall|i: int| 0 <= i < self.cc().len() ==> *(#[trigger] it0.seq()[i]) == self.cc()[i],
        sum@ == ckl_n(*self, *other, it0.index()), my_total@ == self.tot(), other_total@ == other.tot(), ln_total@ == rln(self.tot()) - rln(other.tot()),
        self.singleton_count@ > 0real ==> other.singleton_count@ > 0real,
        forall|i: int| 0 <= i < it0.index() ==> (#[trigger] self.cc()[i]).1@ > 0real ==> other.wt(Some(self.cc()[i].0)) > 0real,
//@ loopstart 0
    proof { assert(self.cc()[it0.index()] == (*ca, *ca_count)); lemma_at(self.cc(), it0.index()); }
//@ end
}
impl Categorical {
    /// zero between identical summaries
    pub proof fn kl_self(&self) requires self.wf(), nonneg(self.cc()), self.singleton_count@ >= 0real, self.tot() > 0real ensures supported(*self, *self), ckl(*self, *self) == 0real
    {
        lemma_lookup(self.cc());
        self.kl_self_n(self.cc().len() as int);
        let s = self.cc();
        assert forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]).1@ > 0real implies self.wt(Some(s[i].0)) > 0real by { lemma_at(s, i); }
    }
    proof fn kl_self_n(&self, n: int) requires self.wf(), 0 <= n <= self.cc().len() ensures ckl_n(*self, *self, n) == 0real decreases n {
        let z = rln(self.tot()) - rln(self.tot());
        assert(z == 0real);
        if n > 0 { self.kl_self_n(n - 1); lemma_at(self.cc(), n - 1); zero_mul(self.cc()[n-1].1@ / self.tot()); } else { zero_mul(self.singleton_count@ / self.tot()); }
    }
}

//@ struct goko/src/plugins/discrete/dirichlet.rs Dirichlet
//@ end
impl Dirichlet {
    pub open spec fn cc(&self) -> Seq<(NodeAddress, f64)> { self.child_counts@ }
    pub open spec fn wf(&self) -> bool { sorted(self.cc()) }
    /// weight of a category; None is the node's own category (singletons / stopping here)
    pub open spec fn wt(&self, l: Option<NodeAddress>) -> real { match l { Some(a) => wtn(self.cc(), a, self.cc().len() as int), None => self.singleton_count@ } }
    pub open spec fn tot(&self) -> real { self.singleton_count@ + sumn(self.cc(), self.cc().len() as int) }
//@ fn goko/src/plugins/discrete/dirichlet.rs Dirichlet::new
//@ spec
    ensures res.wf(), res.tot() == 0real, forall|l: Option<NodeAddress>| #[trigger] res.wt(l) == 0real, res.cc().len() == 0,
//@ end
//@ fn goko/src/plugins/discrete/dirichlet.rs Dirichlet::total
//@ loops 1
//@ spec
    ensures res@ == self.tot()
//@ loop 0
    invariant it0.seq().len() == self.cc().len(), forall|i: int| 0 <= i < self.cc().len() ==> *(#[trigger] it0.seq()[i]) == self.cc()[i], __acc1@ == sumn(self.cc(), it0.index()),
//@ end
//@ fn goko/src/plugins/discrete/dirichlet.rs Dirichlet::prob_vector
//@ loops 1
//@ spec
    ensures (res is Some) == (self.tot() > 0real),
        res is Some ==> (res->0).0@.len() == self.cc().len() && (res->0).1@ == self.singleton_count@ / self.tot()
            && forall|i: int| 0 <= i < self.cc().len() ==> (#[trigger] (res->0).0@[i]).0 == self.cc()[i].0 && (res->0).0@[i].1@ == self.cc()[i].1@ / self.tot(),
//@ loop 0
    invariant it0.seq().len() == self.cc().len(), forall|i: int| 0 <= i < self.cc().len() ==> *(#[trigger] it0.seq()[i]) == self.cc()[i], __acc1@.len() == it0.index(), total@ == self.tot(),
        forall|i: int| 0 <= i < it0.index() ==> (#[trigger] __acc1@[i]).0 == self.cc()[i].0 && __acc1@[i].1@ == self.cc()[i].1@ / self.tot(),
//@ end
//@ fn goko/src/plugins/discrete/dirichlet.rs Dirichlet::sample
//@ loops 1
//@ sig
    pub fn sample(&self, rng: &mut Draws) -> (res: Option<NodeAddress>)
//@ spec
    requires self.wf(), nonneg(self.cc()), self.singleton_count@ >= 0real,
    ensures self.tot() <= 0real ==> res is None, self.tot() > 0real ==> falls(self.cc(), draw(*old(rng), 0real, self.tot()), res) && self.wt(res) > 0real,
//@ loop 0
    invariant it0.seq().len() == self.cc().len(), forall|i: int| 0 <= i < self.cc().len() ==> *(#[trigger] it0.seq()[i]) == self.cc()[i], count@ == sumn(self.cc(), it0.index()), sumn(self.cc(), it0.index()) <= sample@,
//@ before return Some
    proof { assert(slice_of(self.cc(), it0.index(), sample@)); lemma_at(self.cc(), it0.index()); }
//@ end
//@ fn goko/src/plugins/discrete/dirichlet.rs Dirichlet::add_child_pop
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).tot() == old(self).tot() + count@,
        forall|l: Option<NodeAddress>| #[trigger] final(self).wt(l) == old(self).wt(l) + (if l == loc { count@ } else { 0real }),
        forall|a: NodeAddress| #[trigger] hask(final(self).cc(), a) == (hask(old(self).cc(), a) || loc == Some(a)),
//@ start
    let ghost s0 = self.cc();
//@ finish
    proof {
        if loc is Some { lemma_add(s0, self.cc(), loc->0, count); }
    }
//@ end
//@ fn goko/src/plugins/discrete/dirichlet.rs Dirichlet::remove_child_pop
//@ spec
    requires old(self).wf(), count@ >= 0real, nonneg(old(self).cc()),
    ensures final(self).wf(), final(self).wt(loc) == rmax(old(self).wt(loc) - count@, 0real) || (old(self).singleton_count@ < 0real && loc is None),
        nonneg(final(self).cc()),
        final(self).tot() == old(self).tot() + final(self).wt(loc) - old(self).wt(loc),
        forall|l: Option<NodeAddress>| l != loc ==> #[trigger] final(self).wt(l) == old(self).wt(l),
        forall|a: NodeAddress| #[trigger] hask(final(self).cc(), a) == hask(old(self).cc(), a),
//@ start
    let ghost s0 = self.cc();
//@ finish
    proof {
        if loc is Some { lemma_rem(s0, self.cc(), loc->0, count); }
    }
//@ end
//@ fn goko/src/plugins/discrete/dirichlet.rs Dirichlet::ln_pdf
//@ opt result_map
//@ spec
    requires self.wf(),
    ensures res is Some, (res->0)@ == rln(self.wt(own(loc))) - rln(self.tot()),
//@ start
    proof { lemma_lookup(self.cc()); }
//@ end

//@ fn goko/src/plugins/discrete/dirichlet.rs Dirichlet::add_evidence
//@ loops 1
//@ spec
    requires old(self).wf(), other.wf(),
    ensures final(self).wf(), final(self).tot() == old(self).tot() + other.tot(),
        forall|l: Option<NodeAddress>| #[trigger] final(self).wt(l) == old(self).wt(l) + other.wt(l),
        forall|a: NodeAddress| #[trigger] hask(final(self).cc(), a) == (hask(old(self).cc(), a) || hask(other.cc(), a)),
//@ start
    let ghost me0 = *self;
//@ loop 0
    invariant it0.seq().len() == other.cc().len(), forall|i: int| 0 <= i < other.cc().len() ==> *(#[trigger] it0.seq()[i]) == other.cc()[i],
        self.wf(), self.tot() == me0.tot() + sumn(other.cc(), it0.index()),
        self.wt(None) == me0.wt(None),
        forall|a: NodeAddress| #[trigger] self.wt(Some(a)) == me0.wt(Some(a)) + wtn(other.cc(), a, it0.index()),
        forall|a: NodeAddress| #[trigger] hask(self.cc(), a) == (hask(me0.cc(), a) || exists|i: int| 0 <= i < it0.index() && (#[trigger] other.cc()[i]).0 == a),
//@ loopstart 0
    let ghost m1 = *self;
//@ loopend 0
    proof {
        assert(other.cc()[it0.index()] == (*na, *c));
        assert forall|a: NodeAddress| #[trigger] self.wt(Some(a)) == me0.wt(Some(a)) + wtn(other.cc(), a, it0.index() + 1) by { assert(m1.wt(Some(a)) == me0.wt(Some(a)) + wtn(other.cc(), a, it0.index())); }
        assert forall|a: NodeAddress| #[trigger] hask(self.cc(), a) == (hask(me0.cc(), a) || exists|i: int| 0 <= i < it0.index() + 1 && (#[trigger] other.cc()[i]).0 == a) by {
            assert(hask(m1.cc(), a) == (hask(me0.cc(), a) || exists|i: int| 0 <= i < it0.index() && (#[trigger] other.cc()[i]).0 == a));
            if a == *na { assert(other.cc()[it0.index()].0 == a); }
        }
    }
//@ finish
    proof {
        assert forall|l: Option<NodeAddress>| #[trigger] self.wt(l) == me0.wt(l) + other.wt(l) by { }
        assert forall|a: NodeAddress| #[trigger] hask(self.cc(), a) == (hask(me0.cc(), a) || hask(other.cc(), a)) by {
            if hask(other.cc(), a) { let i = choose|i: int| 0 <= i < other.cc().len() && (#[trigger] other.cc()[i]).0 == a; assert(other.cc()[i].0 == a); }
        }
    }
//@ end

//@ fn goko/src/plugins/discrete/dirichlet.rs Dirichlet::weight
//@ loops 1
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).tot() == old(self).tot() * weight@,
        forall|l: Option<NodeAddress>| #[trigger] final(self).wt(l) == old(self).wt(l) * weight@,
//@ start
    let ghost me0 = *self;
//@ loop 0
    invariant it0.seq().len() == me0.cc().len(),
        forall|i: int| #![trigger it0.seq()[i]] #![trigger me0.cc()[i]] 0 <= i < me0.cc().len() ==> *(it0.seq()[i]) == me0.cc()[i],
        forall|i: int| #![trigger it0.seq()[i]] #![trigger me0.cc()[i]] 0 <= i < it0.index() ==> (*final(it0.seq()[i])).0 == me0.cc()[i].0 && (*final(it0.seq()[i])).1@ == me0.cc()[i].1@ * weight@,
//@ finish
    proof { lemma_scale(me0.cc(), self.cc(), weight@);
        let (a, b, w, t) = (me0.singleton_count@, sumn(me0.cc(), me0.cc().len() as int), weight@, me0.tot());
        assert(t * w == a * w + b * w) by (nonlinear_arith) requires t == a + b; }
//@ end
//@ fn goko/src/plugins/discrete/dirichlet.rs Dirichlet::ln_prob_vector
//@ loops 1
//@ spec
    ensures (res is Some) == (self.tot() > 0real),
        res is Some ==> (res->0).0@.len() == self.cc().len() && (res->0).1@ == rln(self.singleton_count@) - rln(self.tot())
            && forall|i: int| 0 <= i < self.cc().len() ==> (#[trigger] (res->0).0@[i]).0 == self.cc()[i].0 && (res->0).0@[i].1@ == rln(self.cc()[i].1@) - rln(self.tot()),
//@ loop 0
    invariant it0.seq().len() == self.cc().len(), forall|i: int| 0 <= i < self.cc().len() ==> *(#[trigger] it0.seq()[i]) == self.cc()[i], __acc1@.len() == it0.index(), total_ln@ == rln(self.tot()),
        forall|i: int| 0 <= i < it0.index() ==> (#[trigger] __acc1@[i]).0 == self.cc()[i].0 && __acc1@[i].1@ == rln(self.cc()[i].1@) - rln(self.tot()),
//@ end
//@ fn goko/src/plugins/discrete/dirichlet.rs Dirichlet::add_observation
//@ spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).tot() == old(self).tot() + 1real,
        forall|l: Option<NodeAddress>| #[trigger] final(self).wt(l) == old(self).wt(l) + (if l == loc { 1real } else { 0real }),
//@ end
//@ fn goko/src/plugins/discrete/dirichlet.rs Dirichlet::posterior_kl_divergence
//@ loops 1
//@ spec
    requires self.wf(), other.wf(),
    ensures
        (res is Some) == (forall|i: int| 0 <= i < other.cc().len() ==> hask(self.cc(), (#[trigger] other.cc()[i]).0)),
        res is Some ==> (res->0)@ == rmax(pkl(*self, *other), 0real),
//@ start
    proof { lemma_lookup(self.cc()); lemma_lookup(other.cc()); }
//@ loop 0
    invariant it0.seq().len() == other.cc().len(), forall|i: int| 0 <= i < other.cc().len() ==> *(#[trigger] it0.seq()[i]) == other.cc()[i],
        my_total@ == self.tot(), other_total@ == other.tot() + self.tot(),
        my_total_lng@ == p1(*self, *other, it0.index()), other_total_lng@ == p2(*self, *other, it0.index()), digamma_portion@ == p3(*self, *other, it0.index()),
        forall|i: int| 0 <= i < it0.index() ==> hask(self.cc(), (#[trigger] other.cc()[i]).0),
//@ loopstart 0
    proof { assert(other.cc()[it0.index()] == (*other_ca, *other_ca_count)); lemma_at(other.cc(), it0.index()); }
//@ end
//@ fn goko/src/plugins/discrete/dirichlet.rs Dirichlet::kl_divergence
//@ loops 1
//@ spec
    requires self.wf(), other.wf(), same_cats(self.cc(), other.cc()),
    ensures res is Some, (res->0)@ == rmax(dkl(*self, *other), 0real),
//@ start
    proof { lemma_same(self.cc(), other.cc()); lemma_lookup(self.cc()); lemma_lookup(other.cc()); }
//@ loop 0
    invariant it0.seq().len() == self.cc().len(), self.cc().len() == other.cc().len(),
        forall|i: int| 0 <= i < self.cc().len() ==> *(#[trigger] it0.seq()[i]).0 == self.cc()[i] && *it0.seq()[i].1 == other.cc()[i],
        forall|i: int| 0 <= i < self.cc().len() ==> (#[trigger] self.cc()[i]).0 == other.cc()[i].0,
        my_total@ == self.tot(), other_total@ == other.singleton_count@ + sumn(other.cc(), it0.index()),
        my_total_lng@ == d1(*self, it0.index()), other_total_lng@ == d2(*self, *other, it0.index()), digamma_portion@ == d3(*self, *other, it0.index()),
//@ loopstart 0
    proof { assert(self.cc()[it0.index()] == (*ca, *ca_count)); assert(other.cc()[it0.index()] == (*other_ca, *other_ca_count)); lemma_at(self.cc(), it0.index()); lemma_at(other.cc(), it0.index()); }
//@ end
}
impl Dirichlet {
    pub proof fn kl_self(&self) requires self.wf() ensures dkl(*self, *self) == 0real { self.kl_self_n(self.cc().len() as int); }
    proof fn kl_self_n(&self, n: int) requires self.wf(), 0 <= n <= self.cc().len() ensures d1(*self, n) == d2(*self, *self, n), d3(*self, *self, n) == 0real decreases n {
        if n > 0 { self.kl_self_n(n - 1); lemma_at(self.cc(), n - 1); }
    }
}
