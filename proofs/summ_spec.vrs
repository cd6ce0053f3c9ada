// ---- occurrences and keyed counts
pub open spec fn occ<K>(ls: Seq<K>, v: K) -> int decreases ls.len() { if ls.len() == 0 { 0 } else { occ(ls.drop_last(), v) + (if ls.last() == v { 1int } else { 0 }) } }
pub open spec fn cval<K>(s: Seq<(K, usize)>, v: K, n: int) -> int decreases n { if n <= 0 { 0 } else { cval(s, v, n - 1) + (if s[n - 1].0 == v { s[n - 1].1 as int } else { 0 }) } }
pub open spec fn csum<K>(s: Seq<(K, usize)>, n: int) -> int decreases n { if n <= 0 { 0 } else { csum(s, n - 1) + s[n - 1].1 } }
pub open spec fn cv<K>(s: Seq<(K, usize)>, v: K) -> int { cval(s, v, s.len() as int) }
pub open spec fn dk<K>(s: Seq<(K, usize)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0 }
pub open spec fn pos<K>(s: Seq<(K, usize)>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).1 > 0 }
pub open spec fn cdesc<K>(s: Seq<(K, usize)>, ls: Seq<K>) -> bool { dk(s) && pos(s) && forall|v: K| #[trigger] cv(s, v) == occ(ls, v) }
pub proof fn l_occ_add<K>(a: Seq<K>, b: Seq<K>, v: K) ensures occ(a + b, v) == occ(a, v) + occ(b, v) decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); l_occ_add(a, b.drop_last(), v); }
}
pub proof fn l_occ_push<K>(a: Seq<K>, x: K, v: K) ensures occ(a.push(x), v) == occ(a, v) + (if v == x { 1int } else { 0 }) { assert(a.push(x).drop_last() =~= a); }
pub proof fn l_occ_nonneg<K>(a: Seq<K>, v: K) ensures occ(a, v) >= 0, occ(a, v) <= a.len() decreases a.len() { if a.len() > 0 { l_occ_nonneg(a.drop_last(), v); } }
pub proof fn l_occ_has<K>(a: Seq<K>, i: int) requires 0 <= i < a.len() ensures occ(a, a[i]) > 0 decreases a.len() { l_occ_nonneg(a.drop_last(), a[i]); if i < a.len() - 1 { l_occ_has(a.drop_last(), i); } }
pub proof fn l_absent<K>(s: Seq<(K, usize)>, v: K, n: int) requires 0 <= n <= s.len(), forall|i: int| 0 <= i < n ==> (#[trigger] s[i]).0 != v ensures cval(s, v, n) == 0 decreases n { if n > 0 { l_absent(s, v, n - 1); } }
pub proof fn l_at<K>(s: Seq<(K, usize)>, i: int, n: int) requires dk(s), 0 <= i < n <= s.len() ensures cval(s, s[i].0, n) == s[i].1 decreases n { if n - 1 == i { l_absent(s, s[i].0, n - 1); } else { l_at(s, i, n - 1); } }
pub proof fn l_nonneg<K>(s: Seq<(K, usize)>, v: K, n: int) ensures cval(s, v, n) >= 0 decreases n { if n > 0 { l_nonneg(s, v, n - 1); } }
pub proof fn l_csum_mono<K>(s: Seq<(K, usize)>, a: int, b: int) requires 0 <= a <= b <= s.len() ensures csum(s, a) <= csum(s, b), csum(s, a) >= 0 decreases b { if b > a { l_csum_mono(s, a, b - 1); } else if a > 0 { l_csum_mono(s, a - 1, a - 1); } }
pub proof fn l_pre<K>(s: Seq<(K, usize)>, t: Seq<(K, usize)>, n: int) requires 0 <= n <= s.len(), n <= t.len(), forall|j: int| 0 <= j < n ==> t[j] == #[trigger] s[j] ensures forall|b: K| #[trigger] cval(t, b, n) == cval(s, b, n) decreases n
{ if n > 0 { l_pre(s, t, n - 1); assert(t[n - 1] == s[n - 1]); assert forall|b: K| #[trigger] cval(t, b, n) == cval(s, b, n) by { assert(cval(t, b, n - 1) == cval(s, b, n - 1)); } } }
pub proof fn l_upd<K>(s: Seq<(K, usize)>, t: Seq<(K, usize)>, i: int, n: int)
    requires 0 <= i < s.len(), 0 <= n <= s.len(), t.len() == s.len(), forall|j: int| 0 <= j < s.len() && j != i ==> t[j] == #[trigger] s[j], t[i].0 == s[i].0,
    ensures forall|b: K| #[trigger] cval(t, b, n) == cval(s, b, n) + (if i < n && b == s[i].0 { t[i].1 - s[i].1 } else { 0 }),
    decreases n
{
    if n > 0 { l_upd(s, t, i, n - 1);
        assert forall|b: K| #[trigger] cval(t, b, n) == cval(s, b, n) + (if i < n && b == s[i].0 { t[i].1 - s[i].1 } else { 0 }) by {
            assert(cval(t, b, n - 1) == cval(s, b, n - 1) + (if i < n - 1 && b == s[i].0 { t[i].1 - s[i].1 } else { 0 }));
            if n - 1 != i { assert(t[n - 1] == s[n - 1]); }
        } }
}
/// `t` is `s` with `c` more of key `a`: counted on top where the key is stored, else appended
pub open spec fn bump<K>(s: Seq<(K, usize)>, t: Seq<(K, usize)>, a: K, c: int) -> bool {
    ||| exists|i: int| 0 <= i < s.len() && t.len() == s.len() && (#[trigger] s[i]).0 == a && t[i].0 == a && t[i].1 == s[i].1 + c && (forall|j: int| 0 <= j < s.len() && j != i ==> t[j] == #[trigger] s[j])
    ||| (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 != a) && t.len() == s.len() + 1 && (forall|j: int| 0 <= j < s.len() ==> t[j] == #[trigger] s[j]) && t[s.len() as int].0 == a && t[s.len() as int].1 == c
}
pub proof fn l_bump<K>(s: Seq<(K, usize)>, t: Seq<(K, usize)>, a: K, c: int) requires dk(s), c >= 0, bump(s, t, a, c)
    ensures dk(t), pos(s) && c > 0 ==> pos(t), forall|b: K| #[trigger] cv(t, b) == cv(s, b) + (if b == a { c } else { 0 })
{
    if exists|i: int| 0 <= i < s.len() && t.len() == s.len() && (#[trigger] s[i]).0 == a && t[i].0 == a && t[i].1 == s[i].1 + c && (forall|j: int| 0 <= j < s.len() && j != i ==> t[j] == #[trigger] s[j]) {
        let i = choose|i: int| 0 <= i < s.len() && t.len() == s.len() && (#[trigger] s[i]).0 == a && t[i].0 == a && t[i].1 == s[i].1 + c && (forall|j: int| 0 <= j < s.len() && j != i ==> t[j] == #[trigger] s[j]);
        l_upd(s, t, i, s.len() as int);
        assert forall|p: int| 0 <= p < t.len() implies t[p].0 == (#[trigger] s[p]).0 && t[p].1 >= s[p].1 by {}
        assert forall|p: int, q: int| 0 <= p < q < t.len() implies (#[trigger] t[p]).0 != (#[trigger] t[q]).0 by { assert(s[p].0 != s[q].0); }
        if pos(s) { assert forall|p: int| 0 <= p < t.len() implies (#[trigger] t[p]).1 > 0 by { assert(s[p].1 > 0); } }
        assert forall|b: K| #[trigger] cv(t, b) == cv(s, b) + (if b == a { c } else { 0 }) by { }
    } else {
        let n = s.len() as int;
        l_pre(s, t, n);
        assert forall|p: int, q: int| 0 <= p < q < t.len() implies (#[trigger] t[p]).0 != (#[trigger] t[q]).0 by { assert(t[p] == s[p]); if q < n { assert(t[q] == s[q]); } }
        if pos(s) && c > 0 { assert forall|p: int| 0 <= p < t.len() implies (#[trigger] t[p]).1 > 0 by { if p < n { assert(t[p] == s[p]); } } }
        assert forall|b: K| #[trigger] cv(t, b) == cv(s, b) + (if b == a { c } else { 0 }) by { assert(cval(t, b, n) == cval(s, b, n)); }
    }
}
pub proof fn l_sum_occ<K>(s: Seq<(K, usize)>, ls: Seq<K>, x: K, n: int)
    requires dk(s), 0 <= n <= s.len()
    ensures occ_sum(s, ls.push(x), n) == occ_sum(s, ls, n) + (if exists|i: int| 0 <= i < n && (#[trigger] s[i]).0 == x { 1int } else { 0 })
    decreases n
{
    if n > 0 {
        l_sum_occ(s, ls, x, n - 1);
        l_occ_push(ls, x, s[n - 1].0);
        if s[n - 1].0 == x { } else {
            if exists|i: int| 0 <= i < n && (#[trigger] s[i]).0 == x { let i = choose|i: int| 0 <= i < n && (#[trigger] s[i]).0 == x; assert(0 <= i < n - 1 && s[i].0 == x); }
        }
    }
}
pub open spec fn haskey<K>(s: Seq<(K, usize)>, k: K) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k }
pub open spec fn occ_sum<K>(s: Seq<(K, usize)>, ls: Seq<K>, n: int) -> int decreases n { if n <= 0 { 0 } else { occ_sum(s, ls, n - 1) + occ(ls, s[n - 1].0) } }
pub proof fn l_total<K>(s: Seq<(K, usize)>, ls: Seq<K>)
    requires dk(s), forall|k: int| 0 <= k < ls.len() ==> haskey(s, #[trigger] ls[k])
    ensures occ_sum(s, ls, s.len() as int) == ls.len()
    decreases ls.len()
{
    if ls.len() == 0 { l_zero(s, ls, s.len() as int); } else {
        let d = ls.drop_last();
        assert forall|k: int| 0 <= k < d.len() implies haskey(s, #[trigger] d[k]) by { assert(d[k] == ls[k]); }
        l_total(s, d);
        assert(ls == d.push(ls.last()));
        l_sum_occ(s, d, ls.last(), s.len() as int);
        assert(haskey(s, ls[ls.len() - 1]));
    }
}
pub proof fn l_zero<K>(s: Seq<(K, usize)>, ls: Seq<K>, n: int) requires ls.len() == 0, n <= s.len() ensures occ_sum(s, ls, n) == 0 decreases n { if n > 0 { l_zero(s, ls, n - 1); } }
/// the stored counts add up to the number of values described
pub proof fn l_count<K>(s: Seq<(K, usize)>, ls: Seq<K>) requires cdesc(s, ls) ensures csum(s, s.len() as int) == ls.len()
{
    assert forall|k: int| 0 <= k < ls.len() implies haskey(s, #[trigger] ls[k]) by {
        l_occ_has(ls, k);
        if forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 != ls[k] { l_absent(s, ls[k], s.len() as int); assert(cv(s, ls[k]) == occ(ls, ls[k])); }
    }
    l_total(s, ls);
    l_count_n(s, ls, s.len() as int);
}
pub proof fn l_count_n<K>(s: Seq<(K, usize)>, ls: Seq<K>, n: int) requires cdesc(s, ls), 0 <= n <= s.len() ensures csum(s, n) == occ_sum(s, ls, n) decreases n
{ if n > 0 { l_count_n(s, ls, n - 1); l_at(s, n - 1, s.len() as int); assert(cv(s, s[n - 1].0) == occ(ls, s[n - 1].0)); } }
// ---- keyed counts in a map
pub open spec fn mval<K>(m: Map<K, usize>, v: K) -> int { if m.contains_key(v) { m[v] as int } else { 0 } }
pub open spec fn mdesc<K>(m: Map<K, usize>, ls: Seq<K>) -> bool { (forall|v: K| #[trigger] mval(m, v) == occ(ls, v)) && (forall|v: K| #[trigger] m.contains_key(v) ==> m[v] > 0) }
/// the entries of a map in iteration order
pub open spec fn lists<K>(e: Seq<(K, usize)>, m: Map<K, usize>) -> bool {
    &&& dk(e)
    &&& forall|i: int| 0 <= i < e.len() ==> m.contains_key((#[trigger] e[i]).0) && m[e[i].0] == e[i].1
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0 == k
}
pub proof fn l_lists<K>(e: Seq<(K, usize)>, m: Map<K, usize>) requires lists(e, m) ensures forall|v: K| #[trigger] cv(e, v) == mval(m, v), (forall|v: K| #[trigger] m.contains_key(v) ==> m[v] > 0) ==> pos(e)
{
    assert forall|v: K| #[trigger] cv(e, v) == mval(m, v) by {
        if m.contains_key(v) { let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0 == v; l_at(e, i, e.len() as int); } else { l_absent(e, v, e.len() as int); }
    }
}
// ---- moments
pub open spec fn s1(ls: Seq<real>) -> real decreases ls.len() { if ls.len() == 0 { 0real } else { s1(ls.drop_last()) + ls.last() } }
pub open spec fn s2(ls: Seq<real>) -> real decreases ls.len() { if ls.len() == 0 { 0real } else { s2(ls.drop_last()) + ls.last() * ls.last() } }
pub proof fn l_s_push(a: Seq<real>, x: real) ensures s1(a.push(x)) == s1(a) + x, s2(a.push(x)) == s2(a) + x * x { assert(a.push(x).drop_last() =~= a); }
pub proof fn l_s_add(a: Seq<real>, b: Seq<real>) ensures s1(a + b) == s1(a) + s1(b), s2(a + b) == s2(a) + s2(b) decreases b.len()
{ if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); l_s_add(a, b.drop_last()); } }
pub open spec fn i1(ls: Seq<i64>) -> int decreases ls.len() { if ls.len() == 0 { 0 } else { i1(ls.drop_last()) + ls.last() } }
pub open spec fn i2(ls: Seq<i64>) -> int decreases ls.len() { if ls.len() == 0 { 0 } else { i2(ls.drop_last()) + ls.last() * ls.last() } }
pub proof fn l_i_push(a: Seq<i64>, x: i64) ensures i1(a.push(x)) == i1(a) + x, i2(a.push(x)) == i2(a) + x * x { assert(a.push(x).drop_last() =~= a); }
pub proof fn l_i_add(a: Seq<i64>, b: Seq<i64>) ensures i1(a + b) == i1(a) + i1(b), i2(a + b) == i2(a) + i2(b) decreases b.len()
{ if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); l_i_add(a, b.drop_last()); } }
/// coordinate i of a list of vectors
pub open spec fn col(ls: Seq<Seq<f32>>, i: int) -> Seq<real> { Seq::new(ls.len(), |k: int| ls[k][i]@) }
pub proof fn l_col_push(a: Seq<Seq<f32>>, x: Seq<f32>, i: int) ensures col(a.push(x), i) == col(a, i).push(x[i]@) { assert(col(a.push(x), i) =~= col(a, i).push(x[i]@)); }
pub proof fn l_col_add(a: Seq<Seq<f32>>, b: Seq<Seq<f32>>, i: int) ensures col(a + b, i) == col(a, i) + col(b, i) { assert(col(a + b, i) =~= col(a, i) + col(b, i)); }
