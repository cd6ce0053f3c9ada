// ---------------------------------------------------------------- collections (TRUSTED contracts on std / smallvec)
pub mod coll {
use vstd::prelude::*;
use core::cmp::Ordering;
use vstd::multiset::Multiset;

// std::collections::HashMap as a partial map
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { k: Vec<(K, V)> }
impl<K, V> HashMap<K, V> {
  pub uninterp spec fn view(&self) -> Map<K, V>;
  #[verifier::external_body]
  pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
  #[verifier::external_body]
  pub fn len(&self) -> (r: usize) ensures r == self@.len(), r <= mem() { unimplemented!() }
  #[verifier::external_body]
  pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Map::<K, V>::empty()) { unimplemented!() }
  #[verifier::external_body]
  pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
     ensures final(self)@ == old(self)@.insert(k, v), r == (if old(self)@.contains_key(k) { Some(old(self)@[k]) } else { None }) { unimplemented!() }
  #[verifier::external_body]
  pub fn remove(&mut self, k: &K) -> (r: Option<V>)
     ensures final(self)@ == old(self)@.remove(*k), r == (if old(self)@.contains_key(*k) { Some(old(self)@[*k]) } else { None }) { unimplemented!() }
  #[verifier::external_body]
  pub fn get(&self, k: &K) -> (r: Option<&V>)
     ensures r == (if self@.contains_key(*k) { Some(&self@[*k]) } else { None }) { unimplemented!() }
  #[verifier::external_body]
  pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(*k) { unimplemented!() }
  #[verifier::external_body]
  pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
     ensures
       old(self)@.contains_key(*k) ==> r is Some && *r->0 == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(r->0)),
       !old(self)@.contains_key(*k) ==> r is None && final(self)@ == old(self)@,
  { unimplemented!() }
  // entry(k).or_insert(v)
  #[verifier::external_body]
  pub fn entry_or_insert(&mut self, k: K, v: V) -> (r: &mut V)
     ensures
       *r == (if old(self)@.contains_key(k) { old(self)@[k] } else { v }),
       final(self)@ == old(self)@.insert(k, *final(r)),
  { unimplemented!() }
  // the entries in iteration order: any order, each key once
  #[verifier::external_body]
  pub fn entries(&self) -> (r: Vec<(K, V)>) where K: Copy, V: Copy
     ensures
       r@.len() == self@.len(),
       forall|i: int, j: int| 0 <= i < j < r@.len() ==> (#[trigger] r@[i]).0 != (#[trigger] r@[j]).0,
       forall|i: int| 0 <= i < r@.len() ==> self@.contains_key((#[trigger] r@[i]).0) && self@[r@[i].0] == r@[i].1,
       forall|k: K| #[trigger] self@.contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0 == k,
  { unimplemented!() }
}
/// the entries of a map, each key once, in some order
pub open spec fn mlists<K, V>(e: Seq<(K, V)>, m: Map<K, V>) -> bool {
  &&& e.len() == m.len()
  &&& forall|i: int, j: int| 0 <= i < j < e.len() ==> (#[trigger] e[i]).0 != (#[trigger] e[j]).0
  &&& forall|i: int| 0 <= i < e.len() ==> m.contains_key((#[trigger] e[i]).0) && m[e[i].0] == e[i].1
  &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0 == k
}
impl<K, V> HashMap<K, V> {
  /// the iteration order of this map: fixed but arbitrary
  pub uninterp spec fn ord(&self) -> Seq<(K, V)>;
  #[verifier::external_body] pub fn iter_ref(&self) -> (r: Vec<(&K, &V)>) ensures mlists(self.ord(), self@), r@.len() == self.ord().len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]).0 == self.ord()[i].0 && *r@[i].1 == self.ord()[i].1 { unimplemented!() }
  #[verifier::external_body] pub fn keys_ref(&self) -> (r: Vec<&K>) ensures mlists(self.ord(), self@), r@.len() == self.ord().len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self.ord()[i].0 { unimplemented!() }
  #[verifier::external_body] pub fn vals_ref(&self) -> (r: Vec<&V>) ensures mlists(self.ord(), self@), r@.len() == self.ord().len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self.ord()[i].1 { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct HashSet<K> { k: Vec<K> }
impl<K> HashSet<K> {
  pub uninterp spec fn view(&self) -> Set<K>;
  #[verifier::external_body]
  pub fn new() -> (r: Self) ensures r@ == Set::<K>::empty() { unimplemented!() }
  #[verifier::external_body]
  pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
  #[verifier::external_body]
  pub fn insert(&mut self, k: K) -> (r: bool) ensures final(self)@ == old(self)@.insert(k), r == !old(self)@.contains(k) { unimplemented!() }
  #[verifier::external_body]
  pub fn remove(&mut self, k: &K) -> (r: bool) ensures final(self)@ == old(self)@.remove(*k), r == old(self)@.contains(*k) { unimplemented!() }
  #[verifier::external_body]
  pub fn contains(&self, k: &K) -> (r: bool) ensures r == self@.contains(*k) { unimplemented!() }
}
/// the number of elements a collection can be asked to hold without exhausting memory: whatever is already held, and at least 1024
pub uninterp spec fn mem() -> int;
#[verifier::external_body] pub proof fn ax_mem() ensures mem() >= 1024 {}
/// Vec::with_capacity: a capacity nobody can provide ends the process, so the capacity is an obligation
pub fn vcap<T>(n: usize) -> (r: Vec<T>) requires n <= mem() ensures r@.len() == 0 { Vec::new() }
// std::collections::BinaryHeap: a multiset whose pop returns a greatest element of the item's own order.
pub trait HeapOrd: Sized {
  /// The order the heap sees; `cmp` is the code's own function, proved to agree with it.
  spec fn hle(&self, o: &Self) -> bool;
  fn cmp(&self, other: &Self) -> (r: Ordering)
    ensures (r == Ordering::Less) == !other.hle(self), (r == Ordering::Greater) == !self.hle(other);
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct BinaryHeap<T> { v: Vec<T> }
impl<T: HeapOrd> BinaryHeap<T> {
  pub uninterp spec fn view(&self) -> Multiset<T>;
  #[verifier::external_body]
  pub fn new() -> (r: Self) ensures r@ == Multiset::<T>::empty() { unimplemented!() }
  #[verifier::external_body]
  pub fn len(&self) -> (r: usize) ensures r == self@.len(), r <= mem() { unimplemented!() }
  #[verifier::external_body]
  pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
  #[verifier::external_body]
  pub fn push(&mut self, t: T) ensures final(self)@ == old(self)@.insert(t) { unimplemented!() }
  #[verifier::external_body]
  pub fn pop(&mut self) -> (r: Option<T>)
    ensures match r {
      Some(t) => old(self)@.count(t) > 0 && final(self)@ == old(self)@.remove(t) && old(self)@.len() > 0
                 && (forall|x: T| #[trigger] old(self)@.count(x) > 0 ==> x.hle(&t)),
      None => old(self)@ == Multiset::<T>::empty() && final(self)@ == old(self)@ && old(self)@.len() == 0,
    } { unimplemented!() }
  #[verifier::external_body]
  pub fn peek(&self) -> (r: Option<&T>)
    ensures match r {
      Some(t) => self@.count(*t) > 0 && self@.len() > 0 && (forall|x: T| #[trigger] self@.count(x) > 0 ==> x.hle(t)),
      None => self@ == Multiset::<T>::empty() && self@.len() == 0,
    } { unimplemented!() }
}
// appending a sequence of Copy items (Vec::extend), slices of a range (slice::get)
pub trait SeqLike<T> { spec fn sl(self) -> Seq<T>; }
impl<'a, T> SeqLike<T> for &'a Vec<T> { open spec fn sl(self) -> Seq<T> { self@ } }
impl<'a, T> SeqLike<T> for &'a [T] { open spec fn sl(self) -> Seq<T> { self@ } }
impl<'a, 'b, T> SeqLike<T> for &'b &'a Vec<T> { open spec fn sl(self) -> Seq<T> { (**self)@ } }
impl<T> SeqLike<T> for Vec<T> { open spec fn sl(self) -> Seq<T> { self@ } }
pub trait VExtend<T> { fn vextend<S: SeqLike<T>>(&mut self, s: S); }
impl<T: Copy> VExtend<T> for Vec<T> { #[verifier::external_body] fn vextend<S: SeqLike<T>>(&mut self, s: S) ensures final(self)@ == old(self)@ + s.sl() { unimplemented!() } }
pub trait GetRange<T> { fn get_range(&self, a: usize, b: usize) -> Option<&[T]>; }
impl<T> GetRange<T> for Vec<T> { #[verifier::external_body] fn get_range(&self, a: usize, b: usize) -> (r: Option<&[T]>) ensures (r is Some) == (a <= b <= self@.len()), r is Some ==> r->0@ == self@.subrange(a as int, b as int) { unimplemented!() } }
impl<T> GetRange<T> for [T] { #[verifier::external_body] fn get_range(&self, a: usize, b: usize) -> (r: Option<&[T]>) ensures (r is Some) == (a <= b <= self@.len()), r is Some ==> r->0@ == self@.subrange(a as int, b as int) { unimplemented!() } }
} // mod coll
pub use coll::*;
pub use vstd::multiset::*;
