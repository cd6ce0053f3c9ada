// =====================================================================================
// UNIT summ: label and metadata summaries are additive
// =====================================================================================
//@ gsubst String => VString
broadcast use {fl::ax_mk, fl::ax_mk2};
#[verifier::external_body]
pub struct VString { s: Vec<u8> }
impl VText for VString { #[verifier::external_body] fn opaque() -> (r: VString) { unimplemented!() } }
impl Clone for VString { #[verifier::external_body] fn clone(&self) -> (r: VString) ensures r == *self { unimplemented!() } }
impl VString { #[verifier::external_body] pub fn to_string(&self) -> (r: VString) ensures r == *self { unimplemented!() } }
//@ include summ_spec.vrs
/// CONTRACT of a summary: `desc(ls)` says self is the summary of exactly the values ls
pub trait Summary: Sized {
    type Label: ?Sized;
    type G;
    spec fn g(v: &Self::Label) -> Self::G;
    spec fn desc(&self, ls: Seq<Self::G>) -> bool;
    /// no overflow of the machine integers, equal dimensions
    spec fn can_add(&self, v: &Self::Label) -> bool;
    spec fn can_combine(&self, o: &Self) -> bool;
    spec fn can_count(&self) -> bool;
    fn default() -> (res: Self) ensures res.desc(Seq::empty());
    fn add(&mut self, val: &Self::Label)
        requires old(self).can_add(val)
        ensures forall|ls: Seq<Self::G>| #[trigger] old(self).desc(ls) ==> final(self).desc(ls.push(Self::g(val)));
    fn combine(&mut self, other: &Self)
        requires old(self).can_combine(other), exists|a: Seq<Self::G>| #[trigger] old(self).desc(a), exists|a: Seq<Self::G>| #[trigger] other.desc(a)
        ensures forall|a: Seq<Self::G>, b: Seq<Self::G>| #[trigger] old(self).desc(a) && #[trigger] other.desc(b) ==> final(self).desc(a + b);
    fn count(&self) -> (res: usize)
        requires self.can_count(), exists|a: Seq<Self::G>| #[trigger] self.desc(a)
        ensures forall|a: Seq<Self::G>| #[trigger] self.desc(a) ==> res == a.len();
}
// ------------------------------------------------------------------ categories
//@ struct pointcloud/src/summaries/mod.rs CategorySummary
//@ subst SmallVec < [(i64 , usize) ; 4] > => Vec < (i64 , usize) >
//@ end
impl Summary for CategorySummary {
    type Label = i64;
    type G = i64;
    open spec fn g(v: &i64) -> i64 { *v }
    open spec fn desc(&self, ls: Seq<i64>) -> bool { cdesc(self.items@, ls) }
    open spec fn can_add(&self, v: &i64) -> bool { cv(self.items@, *v) < usize::MAX && dk(self.items@) }
    open spec fn can_combine(&self, o: &Self) -> bool { forall|v: i64| (#[trigger] cv(self.items@, v)) + cv(o.items@, v) <= usize::MAX }
    open spec fn can_count(&self) -> bool { csum(self.items@, self.items@.len() as int) <= usize::MAX }
//@ fn pointcloud/src/summaries/mod.rs CategorySummary as Default::default
//@ opt nopub
//@ subst SmallVec => Vec
//@ finish
    proof { assert(forall|v: i64| cv(Seq::<(i64, usize)>::empty(), v) == 0); }
//@ end
//@ fn pointcloud/src/summaries/mod.rs CategorySummary as Summary::add
//@ opt nopub
//@ loops 1
//@ subst val == stored_val => * val == * stored_val
//@ start
    let ghost s0 = self.items@;
    let ghost mut jj: int = 0;
//@ loop 0
    invariant_except_break 0 <= __k1 <= s0.len(), !added_to_existing, self.items@ == s0, forall|i: int| 0 <= i < __k1 ==> (#[trigger] s0[i]).0 != *val,
    ensures
        added_to_existing ==> 0 <= jj < s0.len() && s0[jj].0 == *val && self.items@.len() == s0.len() && self.items@[jj].0 == *val && self.items@[jj].1 == s0[jj].1 + 1 && (forall|j: int| 0 <= j < s0.len() && j != jj ==> self.items@[j] == #[trigger] s0[j]),
        !added_to_existing ==> self.items@ == s0 && forall|i: int| 0 <= i < s0.len() ==> (#[trigger] s0[i]).0 != *val,
    decreases s0.len() - __k1
//@ loopstart 0
    proof { jj = __k1 as int; l_at(s0, jj, s0.len() as int); }
//@ finish
    proof {
        assert(bump(s0, self.items@, *val, 1));
        l_bump(s0, self.items@, *val, 1);
        assert forall|ls: Seq<i64>| #[trigger] cdesc(s0, ls) implies cdesc(self.items@, ls.push(*val)) by {
            assert forall|v: i64| #[trigger] cv(self.items@, v) == occ(ls.push(*val), v) by { l_occ_push(ls, *val, v); assert(cv(s0, v) == occ(ls, v)); }
        }
    }
//@ end
//@ fn pointcloud/src/summaries/mod.rs CategorySummary as Summary::combine
//@ opt nopub
//@ loops 2
//@ subst val == stored_val => * val == * stored_val
//@ subst + (count) => + (* count)
//@ start
    let ghost me0 = self.items@;
    let ghost ot = other.items@;
    let ghost mut jj: int = 0;
    proof {
        let a = choose|a: Seq<i64>| #[trigger] self.desc(a);
        let b = choose|a: Seq<i64>| #[trigger] other.desc(a);
        assert(dk(me0) && pos(me0) && dk(ot) && pos(ot));
    }
//@ loop 0
    invariant it0.seq().len() == ot.len(), forall|i: int| 0 <= i < ot.len() ==> *(#[trigger] it0.seq()[i]) == ot[i],
        dk(self.items@), pos(self.items@),
        forall|v: i64| #[trigger] cv(self.items@, v) == cv(me0, v) + cval(ot, v, it0.index()),
//@ loopstart 0
    let ghost s0 = self.items@;
    proof { assert(ot[it0.index()] == (*val, *count)); assert(ot[it0.index()].1 > 0);  }
//@ loop 1
    invariant_except_break 0 <= __k1 <= s0.len(), !added_to_existing, self.items@ == s0, forall|i: int| 0 <= i < __k1 ==> (#[trigger] s0[i]).0 != *val,
    ensures
        added_to_existing ==> 0 <= jj < s0.len() && s0[jj].0 == *val && self.items@.len() == s0.len() && self.items@[jj].0 == *val && self.items@[jj].1 == s0[jj].1 + *count && (forall|j: int| 0 <= j < s0.len() && j != jj ==> self.items@[j] == #[trigger] s0[j]),
        !added_to_existing ==> self.items@ == s0 && forall|i: int| 0 <= i < s0.len() ==> (#[trigger] s0[i]).0 != *val,
    decreases s0.len() - __k1
//@ loopstart 1
    proof { jj = __k1 as int; l_at(s0, jj, s0.len() as int);
        let n = it0.index();
        assert(cv(s0, s0[jj].0) == cv(me0, s0[jj].0) + cval(ot, s0[jj].0, n));
        l_at(ot, n, ot.len() as int); l_at(ot, n, n + 1);
        assert(cv(me0, *val) + cv(ot, *val) <= usize::MAX);
        l_nonneg(ot, *val, n);
    }
//@ loopend 0
    proof {
        assert(bump(s0, self.items@, *val, *count as int));
        l_bump(s0, self.items@, *val, *count as int);
        assert forall|v: i64| #[trigger] cv(self.items@, v) == cv(me0, v) + cval(ot, v, it0.index() + 1) by { assert(cv(s0, v) == cv(me0, v) + cval(ot, v, it0.index())); }
    }
//@ finish
    proof {
        assert forall|a: Seq<i64>, b: Seq<i64>| #[trigger] cdesc(me0, a) && #[trigger] cdesc(ot, b) implies cdesc(self.items@, a + b) by {
            assert forall|v: i64| #[trigger] cv(self.items@, v) == occ(a + b, v) by { l_occ_add(a, b, v); assert(cv(me0, v) == occ(a, v)); assert(cv(ot, v) == occ(b, v)); assert(cv(self.items@, v) == cv(me0, v) + cval(ot, v, ot.len() as int)); }
        }
    }
//@ end
//@ fn pointcloud/src/summaries/mod.rs CategorySummary as Summary::count
//@ opt nopub
//@ loops 1
//@ subst let mut __acc1 = => let mut __acc1 : usize =
//@ start
    proof { assert forall|a: Seq<i64>| #[trigger] self.desc(a) implies csum(self.items@, self.items@.len() as int) == a.len() by { l_count(self.items@, a); } }
//@ loop 0
    invariant it0.seq().len() == self.items@.len(), forall|i: int| 0 <= i < self.items@.len() ==> *(#[trigger] it0.seq()[i]) == self.items@[i],
        __acc1 == csum(self.items@, it0.index()),
//@ loopstart 0
    proof { assert(self.items@[it0.index()].1 == *b); l_csum_mono(self.items@, it0.index() + 1, self.items@.len() as int); }
//@ end
}
// ------------------------------------------------------------------ vectors
//@ struct pointcloud/src/summaries/mod.rs VecSummary
//@ end
impl VecSummary {
    pub open spec fn vdesc(&self, ls: Seq<Seq<f32>>) -> bool {
        &&& self.moment1@.len() == self.moment2@.len()
        &&& self.count == ls.len()
        &&& self.moment1@.len() == (if ls.len() == 0 { 0 } else { ls[0].len() })
        &&& forall|k: int| 0 <= k < ls.len() ==> (#[trigger] ls[k]).len() == self.moment1@.len() && ls[k].len() > 0
        &&& forall|i: int| 0 <= i < self.moment1@.len() ==> (#[trigger] self.moment1@[i])@ == s1(col(ls, i))
        &&& forall|i: int| 0 <= i < self.moment1@.len() ==> (#[trigger] self.moment2@[i])@ == s2(col(ls, i))
    }
}
impl Summary for VecSummary {
    type Label = [f32];
    type G = Seq<f32>;
    open spec fn g(v: &[f32]) -> Seq<f32> { v@ }
    open spec fn desc(&self, ls: Seq<Seq<f32>>) -> bool { self.vdesc(ls) }
    open spec fn can_add(&self, v: &[f32]) -> bool { v@.len() > 0 && (self.moment1@.len() == 0 || self.moment1@.len() == v@.len()) && self.count < usize::MAX && self.moment1@.len() == self.moment2@.len() }
    open spec fn can_combine(&self, o: &Self) -> bool { (self.moment1@.len() == 0 || o.moment1@.len() == 0 || self.moment1@.len() == o.moment1@.len()) && self.count + o.count <= usize::MAX }
    open spec fn can_count(&self) -> bool { true }
    fn default() -> (res: Self) { VecSummary { moment1: Vec::new(), moment2: Vec::new(), count: 0 } }
//@ fn pointcloud/src/summaries/mod.rs VecSummary as Summary::add
//@ opt nopub
//@ loops 3
//@ subst self . moment1 . extend (val) => self . moment1 . extend_from_slice (val)
//@ start
    let ghost me0 = *self;
//@ loop 0
    invariant it0.seq().len() == me0.moment1@.len(), val@.len() == me0.moment1@.len(),
        forall|i: int| 0 <= i < me0.moment1@.len() ==> *(#[trigger] it0.seq()[i]).0 == me0.moment1@[i] && *it0.seq()[i].1 == val@[i],
        forall|i: int| #![trigger it0.seq()[i]] #![trigger me0.moment1@[i]] 0 <= i < it0.index() ==> (*final((it0.seq()[i]).0))@ == me0.moment1@[i]@ + val@[i]@,
//@ loop 1
    invariant it1.seq().len() == me0.moment1@.len(), val@.len() == me0.moment1@.len(),
        forall|i: int| 0 <= i < me0.moment1@.len() ==> *(#[trigger] it1.seq()[i]).0 == me0.moment2@[i] && *it1.seq()[i].1 == val@[i],
        forall|i: int| #![trigger it1.seq()[i]] #![trigger me0.moment2@[i]] 0 <= i < it1.index() ==> (*final((it1.seq()[i]).0))@ == me0.moment2@[i]@ + val@[i]@ * val@[i]@,
//@ loop 2
    invariant it2.seq().len() == val@.len(), forall|i: int| 0 <= i < val@.len() ==> *(#[trigger] it2.seq()[i]) == val@[i],
        self.moment2@.len() == it2.index(), self.moment1@.len() == val@.len(), forall|i: int| 0 <= i < val@.len() ==> (#[trigger] self.moment1@[i])@ == val@[i]@,
        forall|i: int| 0 <= i < it2.index() ==> (#[trigger] self.moment2@[i])@ == val@[i]@ * val@[i]@,
//@ finish
    proof {
        assert forall|ls: Seq<Seq<f32>>| #[trigger] me0.vdesc(ls) implies self.vdesc(ls.push(val@)) by {
            let l2 = ls.push(val@);
            assert forall|i: int| #![trigger self.moment1@[i]] #![trigger self.moment2@[i]] 0 <= i < self.moment1@.len() implies self.moment1@[i]@ == s1(col(l2, i)) && self.moment2@[i]@ == s2(col(l2, i)) by {
                l_col_push(ls, val@, i); l_s_push(col(ls, i), val@[i]@);
                if me0.moment1@.len() == 0 { if ls.len() > 0 { assert(ls[0].len() > 0); } assert(col(ls, i) =~= Seq::empty()); } else { assert(me0.moment1@[i]@ == s1(col(ls, i)) && me0.moment2@[i]@ == s2(col(ls, i))); }
            }
            assert forall|k: int| 0 <= k < l2.len() implies (#[trigger] l2[k]).len() == self.moment1@.len() && l2[k].len() > 0 by { if k < ls.len() { assert(ls[k].len() > 0 && ls[k].len() == me0.moment1@.len()); assert(l2[k] == ls[k]); } }
            if ls.len() > 0 { assert(l2[0] == ls[0]); }
        }
    }
//@ end
//@ fn pointcloud/src/summaries/mod.rs VecSummary as Summary::combine
//@ opt nopub
//@ opt zip_index
//@ loops 2
//@ start
    let ghost me0 = *self;
    let ghost mut me1 = *self;
    let ghost mut me2 = *self;
    let ghost mut n: int = 0;
    proof { let a = choose|a: Seq<Seq<f32>>| #[trigger] self.desc(a); let b = choose|a: Seq<Seq<f32>>| #[trigger] other.desc(a); assert(me0.vdesc(a) && other.vdesc(b)); }
//@ loopbefore 0
    proof {
        me1 = *self;
        n = if me1.moment1@.len() < other.moment1@.len() { me1.moment1@.len() as int } else { other.moment1@.len() as int };
        assert(me1.moment1@.len() == me1.moment2@.len());
        assert forall|i: int| 0 <= i < me1.moment1@.len() implies (#[trigger] me1.moment1@[i])@ == (if i < me0.moment1@.len() { me0.moment1@[i]@ } else { 0real }) by {}
        assert forall|i: int| 0 <= i < me1.moment2@.len() implies (#[trigger] me1.moment2@[i])@ == (if i < me0.moment1@.len() { me0.moment2@[i]@ } else { 0real }) by {}
    }
//@ loop 0
    invariant 0 <= __k1 <= n, self.moment2@ == me1.moment2@, self.count == me1.count, self.moment1@.len() == me1.moment1@.len(),
        forall|i: int| 0 <= i < __k1 ==> (#[trigger] self.moment1@[i])@ == me1.moment1@[i]@ + other.moment1@[i]@,
        forall|i: int| __k1 <= i < self.moment1@.len() ==> (#[trigger] self.moment1@[i]) == me1.moment1@[i],
    decreases n - __k1
//@ loopbefore 1
    proof { me2 = *self; }
//@ loop 1
    invariant 0 <= __k2 <= n, self.moment1@ == me2.moment1@, self.count == me1.count, self.moment2@.len() == me1.moment2@.len(),
        forall|i: int| 0 <= i < __k2 ==> (#[trigger] self.moment2@[i])@ == me1.moment2@[i]@ + other.moment2@[i]@,
        forall|i: int| __k2 <= i < self.moment2@.len() ==> (#[trigger] self.moment2@[i]) == me1.moment2@[i],
    decreases n - __k2
//@ finish
    proof {
        assert(self.moment1@.len() == me1.moment1@.len() && self.moment2@.len() == me1.moment1@.len());
        assert forall|a: Seq<Seq<f32>>, b: Seq<Seq<f32>>| #[trigger] me0.vdesc(a) && #[trigger] other.vdesc(b) implies self.vdesc(a + b) by {
            let l2 = a + b;
            if a.len() > 0 { assert(a[0].len() > 0); assert(l2[0] == a[0]); }
            if b.len() > 0 { assert(b[0].len() > 0); if a.len() == 0 { assert(l2[0] == b[0]); } }
            assert forall|k: int| 0 <= k < l2.len() implies (#[trigger] l2[k]).len() == self.moment1@.len() && l2[k].len() > 0 by { if k < a.len() { assert(l2[k] == a[k]); } else { assert(l2[k] == b[k - a.len()]); } }
            assert forall|i: int| #![trigger self.moment1@[i]] #![trigger self.moment2@[i]] 0 <= i < self.moment1@.len() implies self.moment1@[i]@ == s1(col(l2, i)) && self.moment2@[i]@ == s2(col(l2, i)) by {
                l_col_add(a, b, i); l_s_add(col(a, i), col(b, i));
                assert(me1.moment1@[i]@ == (if i < me0.moment1@.len() { me0.moment1@[i]@ } else { 0real }));
                assert(me1.moment2@[i]@ == (if i < me0.moment1@.len() { me0.moment2@[i]@ } else { 0real }));
                if a.len() == 0 { assert(col(a, i) =~= Seq::empty()); } else { assert(me0.moment1@[i]@ == s1(col(a, i)) && me0.moment2@[i]@ == s2(col(a, i))); }
                if b.len() == 0 { assert(col(b, i) =~= Seq::empty()); } else { assert(other.moment1@[i]@ == s1(col(b, i)) && other.moment2@[i]@ == s2(col(b, i))); }
            }
        }
    }
//@ end
//@ fn pointcloud/src/summaries/mod.rs VecSummary as Summary::count
//@ opt nopub
//@ end
}
// ------------------------------------------------------------------ floats
//@ struct pointcloud/src/summaries/mod.rs FloatSummary
//@ end
pub open spec fn reals(ls: Seq<f64>) -> Seq<real> { Seq::new(ls.len(), |i: int| ls[i]@) }
impl Summary for FloatSummary {
    type Label = f64;
    type G = f64;
    open spec fn g(v: &f64) -> f64 { *v }
    open spec fn desc(&self, ls: Seq<f64>) -> bool { self.count == ls.len() && self.moment1@ == s1(reals(ls)) && self.moment2@ == s2(reals(ls)) }
    open spec fn can_add(&self, v: &f64) -> bool { self.count < usize::MAX }
    open spec fn can_combine(&self, o: &Self) -> bool { self.count + o.count <= usize::MAX }
    open spec fn can_count(&self) -> bool { true }
    fn default() -> (res: Self) { proof { assert(reals(Seq::empty()) =~= Seq::empty()); } FloatSummary { moment1: rlit(0, 1), moment2: rlit(0, 1), count: 0 } }
//@ fn pointcloud/src/summaries/mod.rs FloatSummary as Summary::add
//@ opt nopub
//@ start
    let ghost me0 = *self;
//@ finish
    proof { assert forall|ls: Seq<f64>| #[trigger] me0.desc(ls) implies self.desc(ls.push(*val)) by { assert(reals(ls.push(*val)) =~= reals(ls).push(val@)); l_s_push(reals(ls), val@); } }
//@ end
//@ fn pointcloud/src/summaries/mod.rs FloatSummary as Summary::combine
//@ opt nopub
//@ start
    let ghost me0 = *self;
//@ finish
    proof { assert forall|a: Seq<f64>, b: Seq<f64>| #[trigger] me0.desc(a) && #[trigger] other.desc(b) implies self.desc(a + b) by { assert(reals(a + b) =~= reals(a) + reals(b)); l_s_add(reals(a), reals(b)); } }
//@ end
//@ fn pointcloud/src/summaries/mod.rs FloatSummary as Summary::count
//@ opt nopub
//@ end
}
// ------------------------------------------------------------------ integers
//@ struct pointcloud/src/summaries/mod.rs IntSummary
//@ end
impl Summary for IntSummary {
    type Label = i64;
    type G = i64;
    open spec fn g(v: &i64) -> i64 { *v }
    open spec fn desc(&self, ls: Seq<i64>) -> bool { self.count == ls.len() && self.moment1 == i1(ls) && self.moment2 == i2(ls) }
    open spec fn can_add(&self, v: &i64) -> bool { self.count < usize::MAX && i64::MIN <= self.moment1 + *v <= i64::MAX && *v * *v <= i64::MAX && self.moment2 + *v * *v <= i64::MAX && self.moment2 >= 0 }
    open spec fn can_combine(&self, o: &Self) -> bool { self.count + o.count <= usize::MAX && i64::MIN <= self.moment1 + o.moment1 <= i64::MAX && i64::MIN <= self.moment2 + o.moment2 <= i64::MAX }
    open spec fn can_count(&self) -> bool { true }
    fn default() -> (res: Self) { IntSummary { moment1: 0, moment2: 0, count: 0 } }
//@ fn pointcloud/src/summaries/mod.rs IntSummary as Summary::add
//@ opt nopub
//@ subst + (val) => + (* val)
//@ subst (val * val) => (* val * * val)
//@ start
    let ghost me0 = *self;
    proof { assert(*val * *val >= 0) by (nonlinear_arith); }
//@ finish
    proof { assert forall|ls: Seq<i64>| #[trigger] me0.desc(ls) implies self.desc(ls.push(*val)) by { l_i_push(ls, *val); } }
//@ end
//@ fn pointcloud/src/summaries/mod.rs IntSummary as Summary::combine
//@ opt nopub
//@ start
    let ghost me0 = *self;
//@ finish
    proof { assert forall|a: Seq<i64>, b: Seq<i64>| #[trigger] me0.desc(a) && #[trigger] other.desc(b) implies self.desc(a + b) by { l_i_add(a, b); } }
//@ end
//@ fn pointcloud/src/summaries/mod.rs IntSummary as Summary::count
//@ opt nopub
//@ end
}
// ------------------------------------------------------------------ strings
//@ struct pointcloud/src/summaries/mod.rs StringSummary
//@ end
impl HashMap<VString, usize> {
  // std HashMap::iter / values: every entry once, in some order
  pub uninterp spec fn order(&self) -> Seq<(VString, usize)>;
  #[verifier::external_body] pub fn entries_ref(&self) -> (r: Vec<(&VString, &usize)>) ensures lists(self.order(), self@), r@.len() == self.order().len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]).0 == self.order()[i].0 && *r@[i].1 == self.order()[i].1 { unimplemented!() }
  #[verifier::external_body] pub fn values(&self) -> (r: Vec<&usize>) ensures lists(self.order(), self@), r@.len() == self.order().len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self.order()[i].1 { unimplemented!() }
}
impl Summary for StringSummary {
    type Label = VString;
    type G = VString;
    open spec fn g(v: &VString) -> VString { *v }
    open spec fn desc(&self, ls: Seq<VString>) -> bool { mdesc(self.items@, ls) }
    open spec fn can_add(&self, v: &VString) -> bool { mval(self.items@, *v) < usize::MAX }
    open spec fn can_combine(&self, o: &Self) -> bool { forall|v: VString| (#[trigger] mval(self.items@, v)) + mval(o.items@, v) <= usize::MAX }
    open spec fn can_count(&self) -> bool { forall|e: Seq<(VString, usize)>| #[trigger] lists(e, self.items@) ==> csum(e, e.len() as int) <= usize::MAX }
//@ fn pointcloud/src/summaries/mod.rs StringSummary as Default::default
//@ opt nopub
//@ end
//@ fn pointcloud/src/summaries/mod.rs StringSummary as Summary::add
//@ opt nopub
//@ start
    let ghost m0 = self.items@;
//@ finish
    proof {
        let m1 = self.items@;
        assert forall|ls: Seq<VString>| #[trigger] mdesc(m0, ls) implies mdesc(m1, ls.push(*val)) by {
            assert forall|v: VString| #[trigger] mval(m1, v) == occ(ls.push(*val), v) by { l_occ_push(ls, *val, v); assert(mval(m0, v) == occ(ls, v)); }
        }
    }
//@ end
//@ fn pointcloud/src/summaries/mod.rs StringSummary as Summary::combine
//@ opt nopub
//@ loops 1
//@ subst other . items . iter () => other . items . entries_ref ()
//@ subst + (count) => + (* count)
//@ start
    let ghost m0 = self.items@;
    proof { let b = choose|a: Seq<VString>| #[trigger] other.desc(a); assert(mdesc(other.items@, b)); let a = choose|a: Seq<VString>| #[trigger] self.desc(a); assert(mdesc(m0, a)); }
//@ loop 0
    invariant
        lists(other.items.order(), other.items@), it0.seq().len() == other.items.order().len(),
        forall|i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]).0 == other.items.order()[i].0 && *it0.seq()[i].1 == other.items.order()[i].1,
        forall|v: VString| #[trigger] self.items@.contains_key(v) ==> self.items@[v] > 0,
        forall|v: VString| #[trigger] mval(self.items@, v) == mval(m0, v) + cval(other.items.order(), v, it0.index()),
//@ loopstart 0
    let ghost mm = self.items@;
    let ghost es = other.items.order();
    proof {
        let n = it0.index();
        assert(es[n] == (*val, *count));
        l_lists(es, other.items@);
        l_at(es, n, es.len() as int); l_at(es, n, n + 1); l_nonneg(es, *val, n);
        assert(mval(mm, *val) == mval(m0, *val) + cval(es, *val, n));
        assert(mval(m0, *val) + mval(other.items@, *val) <= usize::MAX);
        assert(cv(es, *val) == mval(other.items@, *val));
        assert(es[n].1 > 0);
    }
//@ loopend 0
    proof {
        assert forall|v: VString| #[trigger] mval(self.items@, v) == mval(m0, v) + cval(es, v, it0.index() + 1) by { assert(mval(mm, v) == mval(m0, v) + cval(es, v, it0.index())); }
    }
//@ finish
    proof {
        let m1 = self.items@;
        l_lists(other.items.order(), other.items@);
        assert forall|v: VString| #[trigger] mval(m1, v) == mval(m0, v) + mval(other.items@, v) by { assert(cv(other.items.order(), v) == mval(other.items@, v)); }
        assert forall|a: Seq<VString>, b: Seq<VString>| #[trigger] mdesc(m0, a) && #[trigger] mdesc(other.items@, b) implies mdesc(m1, a + b) by {
            assert forall|v: VString| #[trigger] mval(m1, v) == occ(a + b, v) by { l_occ_add(a, b, v); assert(mval(m0, v) == occ(a, v)); assert(mval(other.items@, v) == occ(b, v)); }
        }
    }
//@ end
//@ fn pointcloud/src/summaries/mod.rs StringSummary as Summary::count
//@ opt nopub
//@ loops 1
//@ subst let mut __acc1 = => let mut __acc1 : usize =
//@ loop 0
    invariant lists(self.items.order(), self.items@), it0.seq().len() == self.items.order().len(),
        forall|i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == self.items.order()[i].1,
        __acc1 == csum(self.items.order(), it0.index()),
//@ loopstart 0
    proof { l_csum_mono(self.items.order(), it0.index() + 1, self.items.order().len() as int); }
//@ loopafter 0
    proof {
        let e = self.items.order();
        l_lists(e, self.items@);
        assert forall|a: Seq<VString>| #[trigger] self.desc(a) implies csum(e, e.len() as int) == a.len() by {
            assert(mdesc(self.items@, a));
            assert forall|v: VString| #[trigger] cv(e, v) == occ(a, v) by { assert(mval(self.items@, v) == occ(a, v)); }
            l_count(e, a);
        }
    }
//@ end
}
// ------------------------------------------------------------------ the counter around any summary
#[verifier::external_body] pub struct ErrRest { x: u8 }
pub enum PointCloudError { DataAccessError { index: usize, reason: VString }, MetricError, NotSorted, UnknownName, Rest(ErrRest) }
pub type PointCloudResult<T> = Result<T, PointCloudError>;
/// what a lookup hands to the counter
pub enum Obs<G> { Val(G), Missing, Failed }
pub open spec fn vals<G>(o: Seq<Obs<G>>) -> Seq<G> decreases o.len() { if o.len() == 0 { Seq::empty() } else { match o.last() { Obs::Val(g) => vals(o.drop_last()).push(g), _ => vals(o.drop_last()) } } }
pub open spec fn missing<G>(o: Seq<Obs<G>>) -> int decreases o.len() { if o.len() == 0 { 0 } else { missing(o.drop_last()) + (if o.last() is Missing { 1int } else { 0 }) } }
pub open spec fn failed<G>(o: Seq<Obs<G>>) -> int decreases o.len() { if o.len() == 0 { 0 } else { failed(o.drop_last()) + (if o.last() is Failed { 1int } else { 0 }) } }
pub open spec fn obs<S: Summary>(v: PointCloudResult<Option<&S::Label>>) -> Obs<S::G> { match v { Ok(Some(x)) => Obs::Val(S::g(x)), Ok(None) => Obs::Missing, Err(_) => Obs::Failed } }
pub proof fn l_obs_push<G>(a: Seq<Obs<G>>, x: Obs<G>) ensures missing(a.push(x)) == missing(a) + (if x is Missing { 1int } else { 0 }), failed(a.push(x)) == failed(a) + (if x is Failed { 1int } else { 0 }),
    vals(a.push(x)) == (match x { Obs::Val(g) => vals(a).push(g), _ => vals(a) }) { assert(a.push(x).drop_last() =~= a); }
pub proof fn l_obs_add<G>(a: Seq<Obs<G>>, b: Seq<Obs<G>>) ensures missing(a + b) == missing(a) + missing(b), failed(a + b) == failed(a) + failed(b), vals(a + b) == vals(a) + vals(b) decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(vals(a) + vals(b) =~= vals(a)); } else {
        assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); l_obs_add(a, b.drop_last());
        match b.last() { Obs::Val(g) => { assert((vals(a) + vals(b.drop_last())).push(g) =~= vals(a) + vals(b.drop_last()).push(g)); } _ => {} }
    }
}
pub proof fn l_obs_len<G>(a: Seq<Obs<G>>) ensures vals(a).len() + missing(a) + failed(a) == a.len(), missing(a) >= 0, failed(a) >= 0 decreases a.len() { if a.len() > 0 { l_obs_len(a.drop_last()); } }
//@ struct pointcloud/src/base_traits.rs SummaryCounter
//@ subst Summary + Clone => Summary
//@ end
impl<S: Summary> SummaryCounter<S> {
    /// self is the summary of exactly these lookups
    pub open spec fn of(&self, o: Seq<Obs<S::G>>) -> bool { self.summary.desc(vals(o)) && self.nones == missing(o) && self.errors == failed(o) }
//@ fn pointcloud/src/base_traits.rs SummaryCounter::add
//@ spec
    requires old(self).nones < usize::MAX, old(self).errors < usize::MAX, v matches Ok(Some(x)) ==> old(self).summary.can_add(x),
    ensures forall|o: Seq<Obs<S::G>>| #[trigger] old(self).of(o) ==> final(self).of(o.push(obs::<S>(v))),
//@ start
    let ghost me0 = *self;
//@ finish
    proof { assert forall|o: Seq<Obs<S::G>>| #[trigger] me0.of(o) implies self.of(o.push(obs::<S>(v))) by { l_obs_push(o, obs::<S>(v)); assert(me0.summary.desc(vals(o))); } }
//@ end
//@ fn pointcloud/src/base_traits.rs SummaryCounter::combine
//@ spec
    requires old(self).nones + other.nones <= usize::MAX, old(self).errors + other.errors <= usize::MAX, old(self).summary.can_combine(&other.summary),
        exists|o: Seq<Obs<S::G>>| #[trigger] old(self).of(o), exists|o: Seq<Obs<S::G>>| #[trigger] other.of(o),
    ensures forall|a: Seq<Obs<S::G>>, b: Seq<Obs<S::G>>| #[trigger] old(self).of(a) && #[trigger] other.of(b) ==> final(self).of(a + b),
//@ start
    let ghost me0 = *self;
    proof { let a = choose|o: Seq<Obs<S::G>>| #[trigger] self.of(o); let b = choose|o: Seq<Obs<S::G>>| #[trigger] other.of(o); assert(self.summary.desc(vals(a)) && other.summary.desc(vals(b))); }
//@ finish
    proof { assert forall|a: Seq<Obs<S::G>>, b: Seq<Obs<S::G>>| #[trigger] me0.of(a) && #[trigger] other.of(b) implies self.of(a + b) by { l_obs_add(a, b); assert(me0.summary.desc(vals(a)) && other.summary.desc(vals(b))); } }
//@ end
//@ fn pointcloud/src/base_traits.rs SummaryCounter::summary
//@ spec
    ensures *res == self.summary
//@ end
//@ fn pointcloud/src/base_traits.rs SummaryCounter::count
//@ spec
    requires self.summary.can_count(), exists|o: Seq<Obs<S::G>>| #[trigger] self.of(o) && o.len() <= usize::MAX,
    ensures forall|o: Seq<Obs<S::G>>| #[trigger] self.of(o) ==> res == o.len(),
//@ start
    proof {
        let o0 = choose|o: Seq<Obs<S::G>>| #[trigger] self.of(o) && o.len() <= usize::MAX; l_obs_len(o0); assert(self.summary.desc(vals(o0)));
        assert forall|o: Seq<Obs<S::G>>| #[trigger] self.of(o) implies self.summary.desc(vals(o)) && self.nones + self.errors + vals(o).len() == o.len() by { l_obs_len(o); }
    }
//@ end
//@ fn pointcloud/src/base_traits.rs SummaryCounter::nones
//@ spec
    ensures res == self.nones
//@ end
//@ fn pointcloud/src/base_traits.rs SummaryCounter::errors
//@ spec
    ensures res == self.errors
//@ end
}
