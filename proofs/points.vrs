//@ include prelude.vrs
// =====================================================================================
// UNIT points: sparse and dense views of a point agree
// =====================================================================================
broadcast use {fl::ax_mk, fl::ax_mk2};
use vstd::std_specs::iter::IteratorSpec;
use std::marker::PhantomData;
pub open spec fn rseq(s: Seq<f32>) -> Seq<real> { Seq::new(s.len(), |i: int| s[i]@) }
/// CONTRACT of an iterator over the coordinates: `rest` is what is still to come
pub trait CoordIter: Sized {
    spec fn ok(&self) -> bool;
    #[verifier::prophetic] spec fn rest(&self) -> Seq<real>;
    fn next(&mut self) -> (res: Option<f32>)
        requires old(self).ok()
        ensures final(self).ok(),
            old(self).rest().len() == 0 ==> res is None && final(self).rest() == old(self).rest(),
            old(self).rest().len() > 0 ==> res is Some && res->0@ == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1);
}
/// CONTRACT of a point: both views are the coordinates
pub trait PointRef: Sized {
    type DenseIter: CoordIter;
    spec fn ok(&self) -> bool;
    spec fn coords(&self) -> Seq<real>;
    fn dense(&self) -> (res: Vec<f32>) requires self.ok() ensures rseq(res@) == self.coords();
    fn dense_iter(&self) -> (res: Self::DenseIter) requires self.ok() ensures res.ok(), res.rest() == self.coords();
}
// ---- TRUSTED: raw pointers into a buffer; reading needs the offset to be inside it
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VPtr<T> { p: *const T }
impl<T> Copy for VPtr<T> {}
impl<T> Clone for VPtr<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl<T> VPtr<T> {
    /// the buffer from this address on
    pub uninterp spec fn buf(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn vread(&self, k: usize) -> (r: T) where T: Copy requires k < self.buf().len() ensures r == self.buf()[k as int] { unimplemented!() }
}
#[verifier::external_body]
pub fn from_raw_parts<'a, T>(p: VPtr<T>, len: usize) -> (r: &'a [T]) requires len <= p.buf().len() ensures r@ == p.buf().subrange(0, len as int) { unimplemented!() }
pub trait VAsPtr<T> { fn vas_ptr(&self) -> VPtr<T>; }
impl<T> VAsPtr<T> for [T] { #[verifier::external_body] fn vas_ptr(&self) -> (r: VPtr<T>) ensures r.buf() == self@ { unimplemented!() } }
// ---- TRUSTED: element and index conversions are exact
pub trait Elem: Copy + Sized { spec fn re(self) -> real; fn into(self) -> (r: f32) ensures r@ == self.re(); }
pub trait Index: Copy + Sized { spec fn ix(self) -> int; fn try_into(self) -> (r: Result<usize, ()>) ensures self.ix() <= usize::MAX ==> r is Ok && r->Ok_0 == self.ix(); }
//@ gsubst * const T => VPtr<T>
//@ gsubst * const S => VPtr<S>
//@ struct pointcloud/src/points/mod.rs RawSparse
//@ end
//@ struct pointcloud/src/points/mod.rs SparseRef
//@ end
//@ struct pointcloud/src/points/mod.rs SparseDenseIter
//@ subst T : std :: fmt :: Debug , S : std :: fmt :: Debug => T, S
//@ end
impl<T: Elem, S: Index> RawSparse<T, S> {
    pub open spec fn v(&self) -> Seq<T> { self.values_ptr.buf() }
    pub open spec fn i(&self) -> Seq<S> { self.indexes_ptr.buf() }
    /// a well formed sparse vector: as many values as indexes, indexes rising and below the dimension
    pub open spec fn ok(&self) -> bool {
        &&& self.v().len() == self.len && self.i().len() == self.len
        &&& forall|k: int| 0 <= k < self.len ==> 0 <= (#[trigger] self.i()[k]).ix() < self.dim
        &&& forall|j: int, k: int| 0 <= j < k < self.len ==> (#[trigger] self.i()[j]).ix() < (#[trigger] self.i()[k]).ix()
    }
    /// the value at coordinate c: the stored one, zero where nothing is stored
    pub open spec fn at(&self, c: int) -> real { if exists|k: int| 0 <= k < self.len && (#[trigger] self.i()[k]).ix() == c { self.v()[choose|k: int| 0 <= k < self.len && (#[trigger] self.i()[k]).ix() == c].re() } else { 0real } }
    pub open spec fn coords(&self) -> Seq<real> { Seq::new(self.dim as nat, |c: int| self.at(c)) }
    pub proof fn l_at(&self, k: int) requires self.ok(), 0 <= k < self.len ensures self.at(self.i()[k].ix()) == self.v()[k].re()
    {
        let c = self.i()[k].ix();
        let q = choose|q: int| 0 <= q < self.len && (#[trigger] self.i()[q]).ix() == c;
        assert(0 <= k < self.len && self.i()[k].ix() == c);
        if q < k { assert(self.i()[q].ix() < self.i()[k].ix()); } else if k < q { assert(self.i()[k].ix() < self.i()[q].ix()); }
    }
//@ fn pointcloud/src/points/mod.rs RawSparse::indexes
//@ subst std :: slice :: from_raw_parts :: < 'a > => from_raw_parts
//@ spec
    requires self.ok()
    ensures res@ == self.i()
//@ finish
    assert(self.i().subrange(0, self.len as int) =~= self.i());
//@ end
//@ fn pointcloud/src/points/mod.rs RawSparse::values
//@ subst std :: slice :: from_raw_parts :: < 'a > => from_raw_parts
//@ spec
    requires self.ok()
    ensures res@ == self.v()
//@ finish
    assert(self.v().subrange(0, self.len as int) =~= self.v());
//@ end
//@ fn pointcloud/src/points/mod.rs RawSparse::dim
//@ spec
    ensures res == self.dim
//@ end
}
impl<'a, T: Elem, S: Index> SparseRef<'a, T, S> {
//@ fn pointcloud/src/points/mod.rs SparseRef::new
//@ subst as_ptr => vas_ptr
//@ spec
    requires values@.len() == indexes@.len()
    ensures res.raw.v() == values@, res.raw.i() == indexes@, res.raw.len == values@.len(), res.raw.dim == dim,
//@ end
//@ fn pointcloud/src/points/mod.rs SparseRef::indexes
//@ subst std :: slice :: from_raw_parts :: < 'a > => from_raw_parts
//@ spec
    requires self.raw.ok()
    ensures res@ == self.raw.i()
//@ finish
    assert(self.raw.i().subrange(0, self.raw.len as int) =~= self.raw.i());
//@ end
//@ fn pointcloud/src/points/mod.rs SparseRef::values
//@ subst std :: slice :: from_raw_parts :: < 'a > => from_raw_parts
//@ spec
    requires self.raw.ok()
    ensures res@ == self.raw.v()
//@ finish
    assert(self.raw.v().subrange(0, self.raw.len as int) =~= self.raw.v());
//@ end
//@ fn pointcloud/src/points/mod.rs SparseRef::dim
//@ spec
    ensures res == self.raw.dim
//@ end
}
impl<'a, T: Elem, S: Index> PointRef for SparseRef<'a, T, S> {
    type DenseIter = SparseDenseIter<'a, T, S>;
    open spec fn ok(&self) -> bool { self.raw.ok() }
    open spec fn coords(&self) -> Seq<real> { self.raw.coords() }
//@ fn pointcloud/src/points/mod.rs SparseRef as PointRef::dense
//@ opt nopub
//@ loops 1
//@ loop 0
    invariant
        it0.seq().len() == self.raw.len, forall|k: int| 0 <= k < it0.seq().len() ==> *(#[trigger] it0.seq()[k]).0 == self.raw.v()[k] && *it0.seq()[k].1 == self.raw.i()[k],
        v@.len() == dim, dim == self.raw.dim,
        forall|k: int| 0 <= k < it0.index() ==> v@[(#[trigger] self.raw.i()[k]).ix()]@ == self.raw.v()[k].re(),
        forall|c: int| 0 <= c < dim && (forall|k: int| 0 <= k < it0.index() ==> (#[trigger] self.raw.i()[k]).ix() != c) ==> (#[trigger] v@[c])@ == 0real,
//@ loopafter 0
    proof {
        assert forall|c: int| 0 <= c < dim implies (#[trigger] v@[c])@ == self.raw.at(c) by {
            if exists|k: int| 0 <= k < self.raw.len && (#[trigger] self.raw.i()[k]).ix() == c { let k = choose|k: int| 0 <= k < self.raw.len && (#[trigger] self.raw.i()[k]).ix() == c; self.raw.l_at(k); }
        }
        assert(rseq(v@) =~= self.raw.coords());
    }
//@ end
//@ fn pointcloud/src/points/mod.rs SparseRef as PointRef::dense_iter
//@ opt nopub
//@ finish
    assert(res.rest() =~= self.coords());
//@ end
}
impl<'a, T: Elem, S: Index> CoordIter for SparseDenseIter<'a, T, S> {
    open spec fn ok(&self) -> bool {
        &&& self.raw.ok() && self.index <= self.raw.dim && self.sparse_index <= self.raw.len
        &&& forall|k: int| 0 <= k < self.sparse_index ==> (#[trigger] self.raw.i()[k]).ix() < self.index
        &&& forall|k: int| self.sparse_index <= k < self.raw.len ==> (#[trigger] self.raw.i()[k]).ix() >= self.index
    }
    #[verifier::prophetic] open spec fn rest(&self) -> Seq<real> { self.raw.coords().skip(self.index as int) }
//@ fn pointcloud/src/points/mod.rs SparseDenseIter as Iterator::next
//@ opt nopub
//@ subst Self :: Item => f32
//@ end
}
impl<'a, T: Elem, S: Index> SparseDenseIter<'a, T, S> {
//@ fn pointcloud/src/points/mod.rs SparseDenseIter as Iterator::size_hint
//@ opt nopub
//@ spec
    requires self.ok(), ensures res.0 == self.raw.dim - self.index && res.1 == Some(res.0)
//@ end
}
pub open spec fn cast<T: ToReal>(s: Seq<T>) -> Seq<real> { Seq::new(s.len(), |i: int| s[i].as_real()) }
pub open spec fn unref<T>(s: Seq<&T>) -> Seq<T> { Seq::new(s.len(), |i: int| *s[i]) }
// ---- f32 slices
//@ fn pointcloud/src/points/mod.rs Slice as PointRef::dense

//@ sig
fn dense_f32<'a>(self_: &&'a [f32]) -> (res: Vec<f32>)
//@ subst * self => * self_
//@ subst Vec :: from => vstd::slice::slice_to_vec
//@ spec
    ensures res@ == self_@
//@ end
//@ macro pti8 pointcloud/src/points/mod.rs make_misc_point base=i8 iter_name=Converteri8
//@ struct pti8 Converteri8
//@ end
impl<'a> CoordIter for Converteri8<'a> {
    open spec fn ok(&self) -> bool { true }
    #[verifier::prophetic] open spec fn rest(&self) -> Seq<real> { cast(unref(self.iter.remaining())) }
//@ fn pti8 Converteri8 as Iterator::next
//@ opt nopub
//@ subst Self :: Item => f32
//@ finish
    assert(old(self).rest().len() > 0 ==> self.rest() =~= old(self).rest().skip(1));
    assert(old(self).rest().len() == 0 ==> self.rest() =~= old(self).rest());
//@ end
}
impl<'a> PointRef for &'a [i8] {
    type DenseIter = Converteri8<'a>;
    open spec fn ok(&self) -> bool { true }
    open spec fn coords(&self) -> Seq<real> { cast(self@) }
//@ fn pti8 Slice as PointRef::dense
//@ opt nopub
//@ subst let mut __acc1 = Vec => let mut __acc1 : Vec<f32> = Vec
//@ loops 1
//@ loop 0
    invariant it0.seq().len() == self@.len(), forall|k: int| 0 <= k < it0.seq().len() ==> *(#[trigger] it0.seq()[k]) == self@[k], __acc1@.len() == it0.index(), forall|k: int| 0 <= k < it0.index() ==> (#[trigger] __acc1@[k])@ == self@[k].as_real(),
//@ loopafter 0
    assert(rseq(__acc1@) =~= cast(self@));
//@ end
//@ fn pti8 Slice as PointRef::dense_iter
//@ opt nopub
//@ subst Self :: DenseIter => Converteri8<'a>
//@ finish
    assert(res.rest() =~= self.coords());
//@ end
}
//@ macro ptu8 pointcloud/src/points/mod.rs make_misc_point base=u8 iter_name=Converteru8
//@ struct ptu8 Converteru8
//@ end
impl<'a> CoordIter for Converteru8<'a> {
    open spec fn ok(&self) -> bool { true }
    #[verifier::prophetic] open spec fn rest(&self) -> Seq<real> { cast(unref(self.iter.remaining())) }
//@ fn ptu8 Converteru8 as Iterator::next
//@ opt nopub
//@ subst Self :: Item => f32
//@ finish
    assert(old(self).rest().len() > 0 ==> self.rest() =~= old(self).rest().skip(1));
    assert(old(self).rest().len() == 0 ==> self.rest() =~= old(self).rest());
//@ end
}
impl<'a> PointRef for &'a [u8] {
    type DenseIter = Converteru8<'a>;
    open spec fn ok(&self) -> bool { true }
    open spec fn coords(&self) -> Seq<real> { cast(self@) }
//@ fn ptu8 Slice as PointRef::dense
//@ opt nopub
//@ subst let mut __acc1 = Vec => let mut __acc1 : Vec<f32> = Vec
//@ loops 1
//@ loop 0
    invariant it0.seq().len() == self@.len(), forall|k: int| 0 <= k < it0.seq().len() ==> *(#[trigger] it0.seq()[k]) == self@[k], __acc1@.len() == it0.index(), forall|k: int| 0 <= k < it0.index() ==> (#[trigger] __acc1@[k])@ == self@[k].as_real(),
//@ loopafter 0
    assert(rseq(__acc1@) =~= cast(self@));
//@ end
//@ fn ptu8 Slice as PointRef::dense_iter
//@ opt nopub
//@ subst Self :: DenseIter => Converteru8<'a>
//@ finish
    assert(res.rest() =~= self.coords());
//@ end
}
//@ macro pti16 pointcloud/src/points/mod.rs make_misc_point base=i16 iter_name=Converteri16
//@ struct pti16 Converteri16
//@ end
impl<'a> CoordIter for Converteri16<'a> {
    open spec fn ok(&self) -> bool { true }
    #[verifier::prophetic] open spec fn rest(&self) -> Seq<real> { cast(unref(self.iter.remaining())) }
//@ fn pti16 Converteri16 as Iterator::next
//@ opt nopub
//@ subst Self :: Item => f32
//@ finish
    assert(old(self).rest().len() > 0 ==> self.rest() =~= old(self).rest().skip(1));
    assert(old(self).rest().len() == 0 ==> self.rest() =~= old(self).rest());
//@ end
}
impl<'a> PointRef for &'a [i16] {
    type DenseIter = Converteri16<'a>;
    open spec fn ok(&self) -> bool { true }
    open spec fn coords(&self) -> Seq<real> { cast(self@) }
//@ fn pti16 Slice as PointRef::dense
//@ opt nopub
//@ subst let mut __acc1 = Vec => let mut __acc1 : Vec<f32> = Vec
//@ loops 1
//@ loop 0
    invariant it0.seq().len() == self@.len(), forall|k: int| 0 <= k < it0.seq().len() ==> *(#[trigger] it0.seq()[k]) == self@[k], __acc1@.len() == it0.index(), forall|k: int| 0 <= k < it0.index() ==> (#[trigger] __acc1@[k])@ == self@[k].as_real(),
//@ loopafter 0
    assert(rseq(__acc1@) =~= cast(self@));
//@ end
//@ fn pti16 Slice as PointRef::dense_iter
//@ opt nopub
//@ subst Self :: DenseIter => Converteri16<'a>
//@ finish
    assert(res.rest() =~= self.coords());
//@ end
}
//@ macro ptu16 pointcloud/src/points/mod.rs make_misc_point base=u16 iter_name=Converteru16
//@ struct ptu16 Converteru16
//@ end
impl<'a> CoordIter for Converteru16<'a> {
    open spec fn ok(&self) -> bool { true }
    #[verifier::prophetic] open spec fn rest(&self) -> Seq<real> { cast(unref(self.iter.remaining())) }
//@ fn ptu16 Converteru16 as Iterator::next
//@ opt nopub
//@ subst Self :: Item => f32
//@ finish
    assert(old(self).rest().len() > 0 ==> self.rest() =~= old(self).rest().skip(1));
    assert(old(self).rest().len() == 0 ==> self.rest() =~= old(self).rest());
//@ end
}
impl<'a> PointRef for &'a [u16] {
    type DenseIter = Converteru16<'a>;
    open spec fn ok(&self) -> bool { true }
    open spec fn coords(&self) -> Seq<real> { cast(self@) }
//@ fn ptu16 Slice as PointRef::dense
//@ opt nopub
//@ subst let mut __acc1 = Vec => let mut __acc1 : Vec<f32> = Vec
//@ loops 1
//@ loop 0
    invariant it0.seq().len() == self@.len(), forall|k: int| 0 <= k < it0.seq().len() ==> *(#[trigger] it0.seq()[k]) == self@[k], __acc1@.len() == it0.index(), forall|k: int| 0 <= k < it0.index() ==> (#[trigger] __acc1@[k])@ == self@[k].as_real(),
//@ loopafter 0
    assert(rseq(__acc1@) =~= cast(self@));
//@ end
//@ fn ptu16 Slice as PointRef::dense_iter
//@ opt nopub
//@ subst Self :: DenseIter => Converteru16<'a>
//@ finish
    assert(res.rest() =~= self.coords());
//@ end
}
//@ macro pti32 pointcloud/src/points/mod.rs make_misc_point base=i32 iter_name=Converteri32
//@ struct pti32 Converteri32
//@ end
impl<'a> CoordIter for Converteri32<'a> {
    open spec fn ok(&self) -> bool { true }
    #[verifier::prophetic] open spec fn rest(&self) -> Seq<real> { cast(unref(self.iter.remaining())) }
//@ fn pti32 Converteri32 as Iterator::next
//@ opt nopub
//@ subst Self :: Item => f32
//@ finish
    assert(old(self).rest().len() > 0 ==> self.rest() =~= old(self).rest().skip(1));
    assert(old(self).rest().len() == 0 ==> self.rest() =~= old(self).rest());
//@ end
}
impl<'a> PointRef for &'a [i32] {
    type DenseIter = Converteri32<'a>;
    open spec fn ok(&self) -> bool { true }
    open spec fn coords(&self) -> Seq<real> { cast(self@) }
//@ fn pti32 Slice as PointRef::dense
//@ opt nopub
//@ subst let mut __acc1 = Vec => let mut __acc1 : Vec<f32> = Vec
//@ loops 1
//@ loop 0
    invariant it0.seq().len() == self@.len(), forall|k: int| 0 <= k < it0.seq().len() ==> *(#[trigger] it0.seq()[k]) == self@[k], __acc1@.len() == it0.index(), forall|k: int| 0 <= k < it0.index() ==> (#[trigger] __acc1@[k])@ == self@[k].as_real(),
//@ loopafter 0
    assert(rseq(__acc1@) =~= cast(self@));
//@ end
//@ fn pti32 Slice as PointRef::dense_iter
//@ opt nopub
//@ subst Self :: DenseIter => Converteri32<'a>
//@ finish
    assert(res.rest() =~= self.coords());
//@ end
}
//@ macro ptu32 pointcloud/src/points/mod.rs make_misc_point base=u32 iter_name=Converteru32
//@ struct ptu32 Converteru32
//@ end
impl<'a> CoordIter for Converteru32<'a> {
    open spec fn ok(&self) -> bool { true }
    #[verifier::prophetic] open spec fn rest(&self) -> Seq<real> { cast(unref(self.iter.remaining())) }
//@ fn ptu32 Converteru32 as Iterator::next
//@ opt nopub
//@ subst Self :: Item => f32
//@ finish
    assert(old(self).rest().len() > 0 ==> self.rest() =~= old(self).rest().skip(1));
    assert(old(self).rest().len() == 0 ==> self.rest() =~= old(self).rest());
//@ end
}
impl<'a> PointRef for &'a [u32] {
    type DenseIter = Converteru32<'a>;
    open spec fn ok(&self) -> bool { true }
    open spec fn coords(&self) -> Seq<real> { cast(self@) }
//@ fn ptu32 Slice as PointRef::dense
//@ opt nopub
//@ subst let mut __acc1 = Vec => let mut __acc1 : Vec<f32> = Vec
//@ loops 1
//@ loop 0
    invariant it0.seq().len() == self@.len(), forall|k: int| 0 <= k < it0.seq().len() ==> *(#[trigger] it0.seq()[k]) == self@[k], __acc1@.len() == it0.index(), forall|k: int| 0 <= k < it0.index() ==> (#[trigger] __acc1@[k])@ == self@[k].as_real(),
//@ loopafter 0
    assert(rseq(__acc1@) =~= cast(self@));
//@ end
//@ fn ptu32 Slice as PointRef::dense_iter
//@ opt nopub
//@ subst Self :: DenseIter => Converteru32<'a>
//@ finish
    assert(res.rest() =~= self.coords());
//@ end
}
} // verus!
fn main() {}
