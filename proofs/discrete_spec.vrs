pub type NodeAddress = (i32, usize);
broadcast use {fl::ax_mk, fl::ax_mk2};
pub fn ln_gamma(x: f64) -> (r: f64) ensures r@ == rgamma(x@) { f64_ln_gamma(x) }
pub fn digamma(x: f64) -> (r: f64) ensures r@ == rdigamma(x@) { f64_digamma(x) }
#[verifier::external_body] pub fn f64_ln_gamma(x: f64) -> (r: f64) ensures r@ == rgamma(x@) { unimplemented!() }
#[verifier::external_body] pub fn f64_digamma(x: f64) -> (r: f64) ensures r@ == rdigamma(x@) { unimplemented!() }
pub assume_specification<T, E> [Result::<T, E>::unwrap_or] (r: Result<T, E>, d: T) -> (o: T) ensures o == (match r { Ok(x) => x, Err(_) => d });
pub open spec fn rmax(a: real, b: real) -> real { if a > b { a } else { b } }
pub open spec fn own(l: Option<&NodeAddress>) -> Option<NodeAddress> { match l { Some(a) => Some(*a), None => None } }
/// the order of the tuple (scale, index)
pub open spec fn alt(a: NodeAddress, b: NodeAddress) -> bool { a.0 < b.0 || (a.0 == b.0 && a.1 < b.1) }
pub open spec fn sorted(s: Seq<(NodeAddress, f64)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> alt((#[trigger] s[i]).0, (#[trigger] s[j]).0) }
pub open spec fn nonneg(s: Seq<(NodeAddress, f64)>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).1@ >= 0real }
pub open spec fn hask(s: Seq<(NodeAddress, f64)>, a: NodeAddress) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == a }
/// weight of category a among the first n entries, and the sum of all their weights
pub open spec fn wtn(s: Seq<(NodeAddress, f64)>, a: NodeAddress, n: int) -> real decreases n { if n <= 0 { 0real } else { wtn(s, a, n - 1) + (if s[n - 1].0 == a { s[n - 1].1@ } else { 0real }) } }
pub open spec fn sumn(s: Seq<(NodeAddress, f64)>, n: int) -> real decreases n { if n <= 0 { 0real } else { sumn(s, n - 1) + s[n - 1].1@ } }
/// TRUSTED (rand): a generator, and its next uniform draw between two bounds
#[verifier::external_body] pub struct Draws { p: u8 }
pub uninterp spec fn draw(r: Draws, lo: real, hi: real) -> real;
pub struct Uniform { pub lo: f64, pub hi: f64 }
impl Uniform {
    pub fn new(lo: f64, hi: f64) -> (r: Uniform) requires lo@ < hi@ ensures r.lo == lo, r.hi == hi { Uniform { lo, hi } }
    #[verifier::external_body] pub fn sample(&self, rng: &mut Draws) -> (r: f64) ensures r@ == draw(*old(rng), self.lo@, self.hi@), self.lo@ <= r@ < self.hi@ { unimplemented!() }
}
/// the outcome whose slice_of of [0, total) the number u falls into: the shares are laid side by side, each as long as its weight, the node's own last
pub open spec fn slice_of(s: Seq<(NodeAddress, f64)>, k: int, u: real) -> bool { 0 <= k < s.len() && sumn(s, k) <= u < sumn(s, k + 1) }
pub open spec fn falls(s: Seq<(NodeAddress, f64)>, u: real, o: Option<NodeAddress>) -> bool { match o { Some(a) => exists|k: int| #[trigger] slice_of(s, k, u) && s[k].0 == a, None => u >= sumn(s, s.len() as int) } }
/// CONTRACT of slice::binary_search_by_key on a slice sorted by the key (std)
pub trait KeyLike { spec fn k(self) -> NodeAddress; }
impl<'a> KeyLike for &'a NodeAddress { open spec fn k(self) -> NodeAddress { *self } }
impl<'a, 'b> KeyLike for &'b &'a NodeAddress { open spec fn k(self) -> NodeAddress { **self } }
pub open spec fn bs_ok(s: Seq<(NodeAddress, f64)>, k: NodeAddress, r: Result<usize, usize>) -> bool {
    match r {
        Ok(i) => i < s.len() && s[i as int].0 == k,
        Err(i) => i <= s.len() && (forall|j: int| 0 <= j < i ==> alt((#[trigger] s[j]).0, k)) && (forall|j: int| i <= j < s.len() ==> alt(k, (#[trigger] s[j]).0)),
    }
}
pub trait BinarySearchFirst { spec fn bsv(&self) -> Seq<(NodeAddress, f64)>; fn binary_search_first<K: KeyLike>(&self, k: K) -> (r: Result<usize, usize>) requires sorted(self.bsv()) ensures bs_ok(self.bsv(), k.k(), r); }
impl BinarySearchFirst for Vec<(NodeAddress, f64)> {
    open spec fn bsv(&self) -> Seq<(NodeAddress, f64)> { self@ }
    #[verifier::external_body] fn binary_search_first<K: KeyLike>(&self, k: K) -> (r: Result<usize, usize>) { unimplemented!() }
}
pub proof fn zero_mul(x: real) ensures x * 0real == 0real {}
pub proof fn lemma_absent(s: Seq<(NodeAddress, f64)>, a: NodeAddress, n: int) requires 0 <= n <= s.len(), forall|i: int| 0 <= i < n ==> (#[trigger] s[i]).0 != a ensures wtn(s, a, n) == 0real decreases n { if n > 0 { lemma_absent(s, a, n - 1); } }
pub proof fn lemma_at_n(s: Seq<(NodeAddress, f64)>, i: int, n: int) requires sorted(s), 0 <= i < n <= s.len() ensures wtn(s, s[i].0, n) == s[i].1@ decreases n {
    if n - 1 == i { lemma_absent(s, s[i].0, n - 1); } else { lemma_at_n(s, i, n - 1); assert(alt(s[i].0, s[n - 1].0)); }
}
pub proof fn lemma_at(s: Seq<(NodeAddress, f64)>, i: int) requires sorted(s), 0 <= i < s.len() ensures wtn(s, s[i].0, s.len() as int) == s[i].1@ { lemma_at_n(s, i, s.len() as int); }
/// what a binary search finds is the category's weight
pub proof fn lemma_lookup(s: Seq<(NodeAddress, f64)>) requires sorted(s)
    ensures forall|i: int| 0 <= i < s.len() ==> wtn(s, (#[trigger] s[i]).0, s.len() as int) == s[i].1@,
        forall|k: NodeAddress, i: usize| #[trigger] bs_ok(s, k, Err::<usize, usize>(i)) ==> !hask(s, k) && wtn(s, k, s.len() as int) == 0real,
        forall|k: NodeAddress, i: usize| #[trigger] bs_ok(s, k, Ok::<usize, usize>(i)) ==> hask(s, k) && wtn(s, k, s.len() as int) == s[i as int].1@,
        forall|k: NodeAddress| !(#[trigger] hask(s, k)) ==> wtn(s, k, s.len() as int) == 0real,
{
    assert forall|i: int| 0 <= i < s.len() implies wtn(s, (#[trigger] s[i]).0, s.len() as int) == s[i].1@ by { lemma_at(s, i); }
    assert forall|k: NodeAddress, i: usize| #[trigger] bs_ok(s, k, Err::<usize, usize>(i)) implies !hask(s, k) && wtn(s, k, s.len() as int) == 0real by {
        assert forall|j: int| 0 <= j < s.len() implies (#[trigger] s[j]).0 != k by { if j < i {} else {} }
        lemma_absent(s, k, s.len() as int);
    }
    assert forall|k: NodeAddress| !(#[trigger] hask(s, k)) implies wtn(s, k, s.len() as int) == 0real by { lemma_absent(s, k, s.len() as int); }
}
pub proof fn lemma_update_n(s: Seq<(NodeAddress, f64)>, t: Seq<(NodeAddress, f64)>, i: int, n: int)
    requires 0 <= i < s.len(), 0 <= n <= s.len(), t.len() == s.len(), forall|j: int| 0 <= j < s.len() && j != i ==> t[j] == #[trigger] s[j], t[i].0 == s[i].0,
    ensures sumn(t, n) == sumn(s, n) + (if i < n { t[i].1@ - s[i].1@ } else { 0real }),
        forall|b: NodeAddress| #[trigger] wtn(t, b, n) == wtn(s, b, n) + (if i < n && b == s[i].0 { t[i].1@ - s[i].1@ } else { 0real }),
    decreases n
{
    if n > 0 { lemma_update_n(s, t, i, n - 1); 
        assert forall|b: NodeAddress| #[trigger] wtn(t, b, n) == wtn(s, b, n) + (if i < n && b == s[i].0 { t[i].1@ - s[i].1@ } else { 0real }) by {
            assert(wtn(t, b, n - 1) == wtn(s, b, n - 1) + (if i < n - 1 && b == s[i].0 { t[i].1@ - s[i].1@ } else { 0real }));
            if n - 1 != i { assert(t[n - 1] == s[n - 1]); }
        }
        if n - 1 != i { assert(t[n - 1] == s[n - 1]); }
    }
}
pub proof fn lemma_prefix_n(s: Seq<(NodeAddress, f64)>, t: Seq<(NodeAddress, f64)>, n: int)
    requires 0 <= n <= s.len(), n <= t.len(), forall|j: int| 0 <= j < n ==> t[j] == #[trigger] s[j],
    ensures sumn(t, n) == sumn(s, n), forall|b: NodeAddress| #[trigger] wtn(t, b, n) == wtn(s, b, n),
    decreases n
{ if n > 0 { lemma_prefix_n(s, t, n - 1); assert(t[n - 1] == s[n - 1]); assert forall|b: NodeAddress| #[trigger] wtn(t, b, n) == wtn(s, b, n) by { assert(wtn(t, b, n - 1) == wtn(s, b, n - 1)); } } }
pub proof fn lemma_insert_n(s: Seq<(NodeAddress, f64)>, i: int, x: (NodeAddress, f64), n: int)
    requires 0 <= i <= n <= s.len(),
    ensures sumn(s.insert(i, x), n + 1) == sumn(s, n) + x.1@,
        forall|b: NodeAddress| #[trigger] wtn(s.insert(i, x), b, n + 1) == wtn(s, b, n) + (if b == x.0 { x.1@ } else { 0real }),
    decreases n
{
    let t = s.insert(i, x);
    if n == i {
        lemma_prefix_n(s, t, n);
        assert(t[n] == x);
        assert forall|b: NodeAddress| #[trigger] wtn(t, b, n + 1) == wtn(s, b, n) + (if b == x.0 { x.1@ } else { 0real }) by { assert(wtn(t, b, n) == wtn(s, b, n)); }
    } else {
        lemma_insert_n(s, i, x, n - 1);
        assert(t[n] == s[n - 1]);
        assert forall|b: NodeAddress| #[trigger] wtn(t, b, n + 1) == wtn(s, b, n) + (if b == x.0 { x.1@ } else { 0real }) by { assert(wtn(t, b, n) == wtn(s, b, n - 1) + (if b == x.0 { x.1@ } else { 0real })); }
    }
}
/// adding `c` to category `a` by update or by sorted insertion
pub proof fn lemma_add(s: Seq<(NodeAddress, f64)>, t: Seq<(NodeAddress, f64)>, a: NodeAddress, c: f64)
    requires sorted(s),
        (exists|i: usize| #[trigger] bs_ok(s, a, Ok::<usize, usize>(i)) && t.len() == s.len() && t[i as int].0 == s[i as int].0 && t[i as int].1@ == s[i as int].1@ + c@ && (forall|j: int| 0 <= j < s.len() && j != i ==> t[j] == #[trigger] s[j]))
        || (exists|i: usize| #[trigger] bs_ok(s, a, Err::<usize, usize>(i)) && t == s.insert(i as int, (a, c))),
    ensures sorted(t), sumn(t, t.len() as int) == sumn(s, s.len() as int) + c@,
        forall|b: NodeAddress| #[trigger] wtn(t, b, t.len() as int) == wtn(s, b, s.len() as int) + (if b == a { c@ } else { 0real }),
        forall|b: NodeAddress| #[trigger] hask(t, b) == (hask(s, b) || a == b),
{
    if exists|i: usize| #[trigger] bs_ok(s, a, Ok::<usize, usize>(i)) && t.len() == s.len() && t[i as int].0 == s[i as int].0 && t[i as int].1@ == s[i as int].1@ + c@ && (forall|j: int| 0 <= j < s.len() && j != i ==> t[j] == #[trigger] s[j]) {
        let i = choose|i: usize| #[trigger] bs_ok(s, a, Ok::<usize, usize>(i)) && t.len() == s.len() && t[i as int].0 == s[i as int].0 && t[i as int].1@ == s[i as int].1@ + c@ && (forall|j: int| 0 <= j < s.len() && j != i ==> t[j] == #[trigger] s[j]);
        lemma_update_n(s, t, i as int, s.len() as int);
        lemma_keys(s, t);
        assert(s[i as int].0 == a);
    } else {
        let i = choose|i: usize| #[trigger] bs_ok(s, a, Err::<usize, usize>(i)) && t == s.insert(i as int, (a, c));
        lemma_insert_n(s, i as int, (a, c), s.len() as int);
        assert(t.len() == s.len() + 1);
        assert forall|p: int, q: int| 0 <= p < q < t.len() implies alt((#[trigger] t[p]).0, (#[trigger] t[q]).0) by {
            let x = if p < i { p } else { p - 1 };
            let y = if q < i { q } else { q - 1 };
            if p != i { assert(t[p] == s[x]); }
            if q != i { assert(t[q] == s[y]); }
        }
        assert forall|b: NodeAddress| #[trigger] hask(t, b) == (hask(s, b) || a == b) by {
            if hask(s, b) { let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0 == b; let jj = if j < i { j } else { j + 1 }; assert(t[jj] == s[j]); }
            if a == b { assert(t[i as int].0 == b); }
            if hask(t, b) && a != b { let j = choose|j: int| 0 <= j < t.len() && (#[trigger] t[j]).0 == b; let jj = if j < i { j } else { j - 1 }; assert(t[j] == s[jj]); }
        }
    }
}
pub proof fn lemma_keys(s: Seq<(NodeAddress, f64)>, t: Seq<(NodeAddress, f64)>)
    requires sorted(s), t.len() == s.len(), forall|j: int| 0 <= j < s.len() ==> t[j].0 == (#[trigger] s[j]).0,
    ensures sorted(t), forall|b: NodeAddress| #[trigger] hask(t, b) == hask(s, b),
{
    assert forall|p: int, q: int| 0 <= p < q < t.len() implies alt((#[trigger] t[p]).0, (#[trigger] t[q]).0) by { assert(alt(s[p].0, s[q].0)); }
    assert forall|b: NodeAddress| #[trigger] hask(t, b) == hask(s, b) by {
        if hask(s, b) { let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0 == b; assert(t[j].0 == b); }
        if hask(t, b) { let j = choose|j: int| 0 <= j < t.len() && (#[trigger] t[j]).0 == b; assert(s[j].0 == b); }
    }
}
pub proof fn lemma_rem(s: Seq<(NodeAddress, f64)>, t: Seq<(NodeAddress, f64)>, a: NodeAddress, c: f64)
    requires sorted(s), nonneg(s), c@ >= 0real,
        (exists|i: usize| #[trigger] bs_ok(s, a, Ok::<usize, usize>(i)) && t.len() == s.len() && t[i as int].0 == s[i as int].0 && t[i as int].1@ == rmax(s[i as int].1@ - c@, 0real) && (forall|j: int| 0 <= j < s.len() && j != i ==> t[j] == #[trigger] s[j]))
        || (exists|i: usize| #[trigger] bs_ok(s, a, Err::<usize, usize>(i)) && t == s),
    ensures sorted(t), nonneg(t), wtn(t, a, t.len() as int) == rmax(wtn(s, a, s.len() as int) - c@, 0real),
        sumn(t, t.len() as int) == sumn(s, s.len() as int) + wtn(t, a, t.len() as int) - wtn(s, a, s.len() as int),
        forall|b: NodeAddress| b != a ==> #[trigger] wtn(t, b, t.len() as int) == wtn(s, b, s.len() as int),
        forall|b: NodeAddress| #[trigger] hask(t, b) == hask(s, b),
{
    lemma_lookup(s);
    if exists|i: usize| #[trigger] bs_ok(s, a, Ok::<usize, usize>(i)) && t.len() == s.len() && t[i as int].0 == s[i as int].0 && t[i as int].1@ == rmax(s[i as int].1@ - c@, 0real) && (forall|j: int| 0 <= j < s.len() && j != i ==> t[j] == #[trigger] s[j]) {
        let i = choose|i: usize| #[trigger] bs_ok(s, a, Ok::<usize, usize>(i)) && t.len() == s.len() && t[i as int].0 == s[i as int].0 && t[i as int].1@ == rmax(s[i as int].1@ - c@, 0real) && (forall|j: int| 0 <= j < s.len() && j != i ==> t[j] == #[trigger] s[j]);
        lemma_update_n(s, t, i as int, s.len() as int);
        lemma_keys(s, t);
        lemma_at(s, i as int);
        assert forall|j: int| 0 <= j < t.len() implies (#[trigger] t[j]).1@ >= 0real by { if j != i { assert(t[j] == s[j]); } }
    }
}
pub proof fn lemma_scale_n(s: Seq<(NodeAddress, f64)>, t: Seq<(NodeAddress, f64)>, w: real, n: int)
    requires 0 <= n <= s.len(), t.len() == s.len(), forall|j: int| 0 <= j < s.len() ==> t[j].0 == (#[trigger] s[j]).0 && t[j].1@ == s[j].1@ * w,
    ensures sumn(t, n) == sumn(s, n) * w, forall|b: NodeAddress| #[trigger] wtn(t, b, n) == wtn(s, b, n) * w,
    decreases n
{
    if n > 0 {
        lemma_scale_n(s, t, w, n - 1);
        assert(t[n - 1].1@ == s[n - 1].1@ * w && t[n - 1].0 == s[n - 1].0);
        assert(sumn(s, n) * w == sumn(s, n - 1) * w + s[n - 1].1@ * w) by (nonlinear_arith) requires sumn(s, n) == sumn(s, n - 1) + s[n - 1].1@;
        assert forall|b: NodeAddress| #[trigger] wtn(t, b, n) == wtn(s, b, n) * w by {
            assert(wtn(t, b, n - 1) == wtn(s, b, n - 1) * w);
            let e = if s[n - 1].0 == b { s[n - 1].1@ } else { 0real };
            assert(wtn(s, b, n) * w == wtn(s, b, n - 1) * w + e * w) by (nonlinear_arith) requires wtn(s, b, n) == wtn(s, b, n - 1) + e;
        }
    }
}
pub proof fn lemma_scale(s: Seq<(NodeAddress, f64)>, t: Seq<(NodeAddress, f64)>, w: real)
    requires sorted(s), t.len() == s.len(), forall|j: int| 0 <= j < s.len() ==> t[j].0 == (#[trigger] s[j]).0 && t[j].1@ == s[j].1@ * w,
    ensures sorted(t), sumn(t, t.len() as int) == sumn(s, s.len() as int) * w, forall|b: NodeAddress| #[trigger] wtn(t, b, t.len() as int) == wtn(s, b, s.len() as int) * w,
{ lemma_keys(s, t); lemma_scale_n(s, t, w, s.len() as int); }
pub open spec fn same_cats(s: Seq<(NodeAddress, f64)>, t: Seq<(NodeAddress, f64)>) -> bool { forall|a: NodeAddress| #[trigger] hask(s, a) == hask(t, a) }
/// two sorted lists of the same categories list them alike
pub proof fn lemma_same_n(s: Seq<(NodeAddress, f64)>, t: Seq<(NodeAddress, f64)>, n: int)
    requires sorted(s), sorted(t), same_cats(s, t), 0 <= n <= s.len(), n <= t.len()
    ensures forall|j: int| 0 <= j < n ==> (#[trigger] s[j]).0 == t[j].0
    decreases n
{
    if n > 0 {
        lemma_same_n(s, t, n - 1);
        let k = n - 1;
        assert(hask(s, s[k].0) && hask(t, t[k].0));
        assert(hask(t, s[k].0) && hask(s, t[k].0));
        let j = choose|j: int| 0 <= j < t.len() && (#[trigger] t[j]).0 == s[k].0;
        let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == t[k].0;
        if j < k { assert(s[j].0 == t[j].0); assert(alt(s[j].0, s[k].0)); }
        if i < k { assert(s[i].0 == t[i].0); assert(alt(t[i].0, t[k].0)); }
        if j > k { assert(alt(t[k].0, t[j].0)); if i > k { assert(alt(s[k].0, s[i].0)); } }
    }
}
pub proof fn lemma_same(s: Seq<(NodeAddress, f64)>, t: Seq<(NodeAddress, f64)>)
    requires sorted(s), sorted(t), same_cats(s, t)
    ensures s.len() == t.len(), forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]).0 == t[j].0
{
    if s.len() < t.len() {
        lemma_same_n(s, t, s.len() as int);
        let k = s.len() as int;
        assert(hask(t, t[k].0)); assert(hask(s, t[k].0));
        let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == t[k].0;
        assert(s[i].0 == t[i].0); assert(alt(t[i].0, t[k].0));
    } else if t.len() < s.len() {
        lemma_same_n(s, t, t.len() as int);
        let k = t.len() as int;
        assert(hask(s, s[k].0)); assert(hask(t, s[k].0));
        let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0 == s[k].0;
        assert(s[i].0 == t[i].0); assert(alt(s[i].0, s[k].0));
    } else { lemma_same_n(s, t, s.len() as int); }
}
// ---- Kullback-Leibler of counts: sum over the categories of positive weight, matched by category
pub open spec fn supported(p: Categorical, q: Categorical) -> bool {
    &&& p.singleton_count@ > 0real ==> q.singleton_count@ > 0real
    &&& forall|i: int| 0 <= i < p.cc().len() ==> (#[trigger] p.cc()[i]).1@ > 0real ==> q.wt(Some(p.cc()[i].0)) > 0real
}
pub open spec fn kl_term(pw: real, qw: real, pt: real, qt: real) -> real { if pw > 0real { (pw / pt) * (rln(pw) - rln(qw) - (rln(pt) - rln(qt))) } else { 0real } }
pub open spec fn ckl_n(p: Categorical, q: Categorical, n: int) -> real decreases n {
    if n <= 0 { kl_term(p.singleton_count@, q.singleton_count@, p.tot(), q.tot()) } else { ckl_n(p, q, n - 1) + kl_term(p.wt(Some(p.cc()[n - 1].0)), q.wt(Some(p.cc()[n - 1].0)), p.tot(), q.tot()) }
}
pub open spec fn ckl(p: Categorical, q: Categorical) -> real { ckl_n(p, q, p.cc().len() as int) }
// ---- Dirichlet divergences
pub open spec fn d1(p: Dirichlet, n: int) -> real decreases n { if n <= 0 { if p.singleton_count@ > 0real { rgamma(p.singleton_count@) } else { 0real } } else { d1(p, n - 1) + rgamma(p.wt(Some(p.cc()[n - 1].0))) } }
pub open spec fn d2(p: Dirichlet, q: Dirichlet, n: int) -> real decreases n { if n <= 0 { if p.singleton_count@ > 0real { rgamma(q.singleton_count@) } else { 0real } } else { d2(p, q, n - 1) + rgamma(q.wt(Some(p.cc()[n - 1].0))) } }
pub open spec fn d3(p: Dirichlet, q: Dirichlet, n: int) -> real decreases n {
    if n <= 0 { if p.singleton_count@ > 0real { (p.singleton_count@ - q.singleton_count@) * (rdigamma(p.singleton_count@) - rdigamma(p.tot())) } else { 0real } }
    else { d3(p, q, n - 1) + (p.wt(Some(p.cc()[n - 1].0)) - q.wt(Some(p.cc()[n - 1].0))) * (rdigamma(p.wt(Some(p.cc()[n - 1].0))) - rdigamma(p.tot())) }
}
pub open spec fn dkl(p: Dirichlet, q: Dirichlet) -> real { let n = p.cc().len() as int; rgamma(p.tot()) - d1(p, n) - rgamma(q.tot()) + d2(p, q, n) + d3(p, q, n) }
// ---- KL(prior || prior + evidence), over the categories the evidence names
pub open spec fn p1(p: Dirichlet, e: Categorical, n: int) -> real decreases n { if n <= 0 { if p.singleton_count@ > 0real { rgamma(p.singleton_count@) } else { 0real } } else { p1(p, e, n - 1) + rgamma(p.wt(Some(e.cc()[n - 1].0))) } }
pub open spec fn p2(p: Dirichlet, e: Categorical, n: int) -> real decreases n { if n <= 0 { if p.singleton_count@ > 0real { rgamma(e.singleton_count@ + p.singleton_count@) } else { 0real } } else { p2(p, e, n - 1) + rgamma(e.cc()[n - 1].1@ + p.wt(Some(e.cc()[n - 1].0))) } }
pub open spec fn p3(p: Dirichlet, e: Categorical, n: int) -> real decreases n {
    if n <= 0 { if p.singleton_count@ > 0real { -(e.singleton_count@ * (rdigamma(p.singleton_count@) - rdigamma(p.tot()))) } else { 0real } }
    else { p3(p, e, n - 1) - e.cc()[n - 1].1@ * (rdigamma(p.wt(Some(e.cc()[n - 1].0))) - rdigamma(p.tot())) }
}
pub open spec fn pkl(p: Dirichlet, e: Categorical) -> real { let n = e.cc().len() as int; rgamma(p.tot()) - p1(p, e, n) - rgamma(e.tot() + p.tot()) + p2(p, e, n) + p3(p, e, n) }
