//@ include prelude.vrs
//@ include coll.vrs
// =====================================================================================
// UNIT mono: readers see exactly the last published state
// =====================================================================================
broadcast use {fl::ax_mk, fl::ax_mk2};
use std::marker::PhantomData;
global size_of usize == 8;
//@ gsubst MapImpl < K , T , S > => HashMap<K, T>
//@ gsubst Box < Inner < K , V , M , S > > => Inner<K, V, M>
//@ gsubst Inner < K , V , M , S > => Inner<K, V, M>
//@ gsubst MonoReadHandle < K , V , M , S > => MonoReadHandle<K, V, M>
//@ gsubst MonoWriteHandle < K , V , M , S > => MonoWriteHandle<K, V, M>
//@ gsubst sync :: Arc < AtomicPtr < Inner < K , V , M , S > > > => Shared<Inner<K, V, M>>
//@ gsubst sync :: Arc < AtomicPtr < Inner<K, V, M> > > => Shared<Inner<K, V, M>>
//@ gsubst MapImpl :: with_hasher => HashMap::with_hasher
//@ gsubst MapImpl :: with_capacity_and_hasher => HashMap::with_capacity_and_hasher
//@ gsubst mem :: swap => std::mem::swap
//@ gsubst Box :: new => vbox
//@ gsubst Box :: into_raw => vbox
//@ gsubst Box :: from_raw => vbox
//@ gsubst crate :: monomap :: Epochs => Epochs
pub fn vbox<T>(x: T) -> (r: T) ensures r == x { x }
pub fn vdrop<T>(x: T) {}
/// clones of keys, values and meta are equal to the original (TRUSTED contract of Clone)
pub trait Cl: Sized { fn clone(&self) -> (r: Self) ensures r == *self; }
impl<K, V> HashMap<K, V> {
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn with_hasher(h: Hasher) -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn with_capacity_and_hasher(n: usize, h: Hasher) -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn capacity(&self) -> usize { unimplemented!() }
    #[verifier::external_body] pub fn hasher(&self) -> &Hasher { unimplemented!() }
    #[verifier::external_body] pub fn drain(&mut self) ensures final(self)@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn clear(&mut self) ensures final(self)@ == Map::<K, V>::empty() { unimplemented!() }
}
#[verifier::external_body] pub struct Hasher { p: u8 }
impl Hasher { #[verifier::external_body] pub fn clone(&self) -> Self { unimplemented!() } }
/// TRUSTED: an update closure is a function of the value it is given
#[verifier::external_body] #[verifier::accept_recursive_types(V)] pub struct Updater<V> { f: Option<V> }
impl<V> Updater<V> {
    pub uninterp spec fn f(&self, v: V) -> V;
    #[verifier::external_body] pub fn eval(&self, v: &mut V) ensures *final(v) == self.f(*old(v)) { unimplemented!() }
}
/// TRUSTED: the atomic pointer shared with the readers, between two steps of the writer
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct Shared<T> { p: Option<T> }
impl<T> Shared<T> {
    pub uninterp spec fn cur(&self) -> Option<T>;
    /// how often the pointer has been swapped
    pub uninterp spec fn gen(&self) -> int;
    #[verifier::external_body] pub fn new(x: T) -> (r: Self) ensures r.cur() == Some(x), r.gen() == 0 { unimplemented!() }
    /// a second pointer to the same cell (equal until the writer's next swap)
    #[verifier::external_body] pub fn share(&self) -> (r: Self) ensures r.cur() == self.cur(), r.gen() == self.gen() { unimplemented!() }
    #[verifier::external_body] pub fn swap_null(&mut self, o: MemOrd) -> (r: T) requires old(self).cur() is Some ensures r == old(self).cur()->0, final(self).cur() is None, final(self).gen() == old(self).gen() + 1 { unimplemented!() }
    /// the writer holds the lock on the list of readers, so the ones listed are the ones there are when the pointer moves
    #[verifier::external_body] pub fn swap_locked(&mut self, x: T, l: &Vec<Epoch>, e: &Epochs, o: MemOrd) -> (r: T) requires old(self).cur() is Some ensures r == old(self).cur()->0, final(self).cur() == Some(x), final(self).gen() == old(self).gen() + 1, e.known(final(self).gen()) <= l@.len() { unimplemented!() }
    /// a reader may load the pointer only while the epoch it announces is its latest one, not idle and not zero
    #[verifier::external_body] pub fn load_announced(&self, e: &Epoch, m: &Epoch, o: MemOrd) -> (r: Option<&T>) requires e.val() == m.val(), e.val() != 0, !idle(e.val()) ensures (r is Some) == (self.cur() is Some), r is Some ==> *r->0 == self.cur()->0 { unimplemented!() }
    #[verifier::external_body] pub fn load(&self, o: MemOrd) -> (r: Option<&T>) ensures (r is Some) == (self.cur() is Some), r is Some ==> *r->0 == self.cur()->0 { unimplemented!() }
}
pub enum MemOrd { Relaxed, Acquire, Release, SeqCst }
//@ gsubst atomic :: Ordering :: Relaxed => MemOrd::Relaxed
//@ gsubst atomic :: Ordering :: Acquire => MemOrd::Acquire
//@ gsubst atomic :: Ordering :: Release => MemOrd::Release
//@ gsubst atomic :: Ordering :: SeqCst => MemOrd::SeqCst
pub mod thread { use super::*; #[verifier::external_body] pub fn yield_now() { unimplemented!() } }
pub mod atomic { use super::*; #[verifier::external_body] pub fn fence(o: MemOrd) { unimplemented!() } }
/// TRUSTED: a reader's epoch counter; `was(v, g)`: the writer has observed it at v while the pointer was in its g-th state
#[verifier::external_body] pub struct Epoch { p: u8 }
impl Epoch {
    pub uninterp spec fn was(&self, v: usize, g: int) -> bool;
    #[verifier::external_body] pub fn load_at<T>(&self, p: &Shared<T>, o: MemOrd) -> (r: usize) ensures self.was(r, p.gen()) { unimplemented!() }
    /// the owner reads its own counter
    #[verifier::external_body] pub fn own(&self, o: MemOrd) -> (r: usize) ensures r == self.val() { unimplemented!() }
    /// the owner's view of its own counter
    pub uninterp spec fn val(&self) -> usize;
    #[verifier::external_body] pub fn share(&self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] pub fn new(v: usize) -> (r: Self) ensures r.val() == v { unimplemented!() }
    #[verifier::external_body] pub fn store(&mut self, v: usize, o: MemOrd) ensures final(self).val() == v { unimplemented!() }
    #[verifier::external_body] pub fn fetch_add(&mut self, v: usize, o: MemOrd) -> (r: usize) requires old(self).val() + v <= usize::MAX ensures r == old(self).val(), final(self).val() == old(self).val() + v { unimplemented!() }
}
#[verifier::external_body] pub struct Epochs { p: u8 }
impl Epochs {
    /// the i-th reader; readers are only ever added at the end
    pub uninterp spec fn at(&self, i: int) -> Epoch;
    /// how many readers there were when the pointer reached its g-th state: only they can hold the copy swapped out then
    pub uninterp spec fn known(&self, g: int) -> int;
    #[verifier::external_body] pub fn default() -> (r: Self) ensures r.known(0) == 0 { unimplemented!() }
    #[verifier::external_body] pub fn share(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    #[verifier::external_body] pub fn register(&self, e: Epoch) { unimplemented!() }
    /// TRUSTED: the list of readers, under its lock
    #[verifier::external_body] pub fn locked<T>(&self, p: &Shared<T>) -> (r: Vec<Epoch>) ensures r@.len() >= self.known(p.gen()), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == self.at(i) { unimplemented!() }
}
/// TRUSTED: `v.drain(0..n)`, consumed to the end
#[verifier::external_body] pub fn drain_front<T>(v: &mut Vec<T>, n: usize) -> (r: Vec<T>) requires n <= old(v)@.len() ensures r@ == old(v)@.subrange(0, n as int), final(v)@ == old(v)@.subrange(n as int, old(v)@.len() as int) { unimplemented!() }
/// the counter value of a reader that is not inside a read
pub open spec fn idle(v: usize) -> bool { v & (1usize << 63) != 0 }
/// this reader, observed at `last` since the pointer moved, cannot be using the copy that was swapped out: it was idle then, or has moved on
pub open spec fn gone(e: Epoch, last: usize, g: int) -> bool { idle(last) || exists|v: usize| #[trigger] e.was(v, g) && (v != last || idle(v) || v == 0) }
/// The writer may touch a copy that readers have used only when they are all known to have left it.
#[verifier::external_body] pub fn exclusive<T>(Ghost(left): Ghost<bool>, h: &mut Option<T>) -> (r: &mut T) requires left, *old(h) is Some ensures *r == (*old(h))->0, *final(h) == Some(*final(r)) { unimplemented!() }
pub fn free_exclusive<T>(Ghost(left): Ghost<bool>, x: T) requires left { }
//@ struct goko/src/monomap/inner.rs Inner
//@ attr #[verifier::reject_recursive_types(K)]
//@ subst Inner < K , T , M , S > where K : Eq + Hash , S : BuildHasher , => Inner < K , T , M >
//@ end
//@ struct goko/src/monomap/read.rs MonoReadHandle
//@ attr #[verifier::reject_recursive_types(K)]
//@ subst M = () , S = FxBuildHasher > where K : Eq + Hash , S : BuildHasher , => M >
//@ subst sync :: Arc < sync :: atomic :: AtomicUsize > => Epoch
//@ subst sync :: atomic :: AtomicUsize => Epoch
//@ subst cell :: Cell < () > => ()
//@ end
//@ struct goko/src/monomap/mod.rs MonoOperation
//@ end
//@ struct goko/src/monomap/write.rs MonoWriteHandle
//@ attr #[verifier::reject_recursive_types(K)]
//@ subst M = () , S = FxBuildHasher > where K : Eq + Hash + Clone , S : BuildHasher + Clone , V : Clone , M : 'static + Clone , => M >
//@ end
pub open spec fn apply<K, V>(m: Map<K, V>, op: MonoOperation<K, V>) -> Map<K, V> {
    match op {
        MonoOperation::Insert(k, v) => m.insert(k, v),
        MonoOperation::Update(k, u) => if m.contains_key(k) { m.insert(k, u.f(m[k])) } else { m },
        MonoOperation::Remove(k) => m.remove(k),
        MonoOperation::Purge => Map::empty(),
    }
}
/// the operations of a list, applied in order
pub open spec fn run<K, V>(m: Map<K, V>, ops: Seq<MonoOperation<K, V>>) -> Map<K, V> decreases ops.len() { if ops.len() == 0 { m } else { apply(run(m, ops.drop_last()), ops.last()) } }
pub proof fn l_run_add<K, V>(m: Map<K, V>, a: Seq<MonoOperation<K, V>>, b: Seq<MonoOperation<K, V>>) ensures run(m, a + b) == run(run(m, a), b) decreases b.len()
{ if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); l_run_add(m, a, b.drop_last()); } }
pub proof fn l_run_push<K, V>(m: Map<K, V>, a: Seq<MonoOperation<K, V>>, x: MonoOperation<K, V>) ensures run(m, a.push(x)) == apply(run(m, a), x) { assert(a.push(x).drop_last() =~= a); }
impl<K, T, M> Inner<K, T, M> {
//@ fn goko/src/monomap/inner.rs Inner::with_hasher
//@ subst hash_builder : S => hash_builder : Hasher
//@ spec
    ensures res.data@ == Map::<K, T>::empty(), res.meta == m, !res.ready
//@ end
//@ fn goko/src/monomap/inner.rs Inner::with_capacity_and_hasher
//@ subst hash_builder : S => hash_builder : Hasher
//@ spec
    ensures res.data@ == Map::<K, T>::empty(), res.meta == m, !res.ready
//@ end
//@ fn goko/src/monomap/inner.rs Inner::mark_ready
//@ spec
    ensures final(self).ready, final(self).data == old(self).data, final(self).meta == old(self).meta
//@ end
//@ fn goko/src/monomap/inner.rs Inner::is_ready
//@ spec
    ensures res == self.ready
//@ end
}
impl<K, T, M: Cl> Inner<K, T, M> {
//@ fn goko/src/monomap/inner.rs Inner as Clone::clone
//@ spec
    requires self.data@ == Map::<K, T>::empty()
    ensures res.data@ == self.data@, res.meta == self.meta, res.ready == self.ready
//@ end
}
//@ struct goko/src/monomap/mod.rs MonoOptions
//@ subst MonoOptions < M , S > where S : BuildHasher , => MonoOptions < M >
//@ subst hasher : S => hasher : Hasher
//@ end
//@ gsubst sync :: Arc :: new (atomic :: AtomicUsize :: new (0)) => Epoch::new(0)
//@ gsubst atomic :: AtomicUsize :: new (0) => Epoch::new(0)
//@ gsubst sync :: Arc :: clone (& self . inner) => self.inner.share()
//@ gsubst sync :: Arc :: clone (& self . epochs) => self.epochs.share()
//@ gsubst Arc :: clone (& epochs) => epochs.share()
//@ gsubst Arc :: clone (& epoch) => epoch.share()
//@ gsubst epochs . lock () . unwrap () . push => epochs.register
//@ gsubst sync :: Arc :: new (AtomicPtr :: new (store)) => Shared::new(store)
//@ gsubst epochs : crate :: monomap :: Epochs => epochs: Epochs
//@ gsubst read :: new => read_new
//@ gsubst write :: new => write_new
impl<K, V, M> MonoReadHandle<K, V, M> {
//@ fn goko/src/monomap/read.rs MonoReadHandle::new
//@ spec
    ensures res.inner.cur() == inner.cur(), res.inner.gen() == inner.gen(), res.my_epoch.val() == 0, res.epoch.val() == 0
//@ end
//@ fn goko/src/monomap/read.rs MonoReadHandle as Clone::clone
//@ sig
    pub fn clone(&self) -> (res: Self)
//@ spec
    ensures res.inner.cur() == self.inner.cur(), res.inner.gen() == self.inner.gen(), res.my_epoch.val() == 0, res.epoch.val() == 0
//@ end
}
//@ fn goko/src/monomap/read.rs new
//@ sig
    pub fn read_new<K, V, M>(inner: Inner<K, V, M>, epochs: Epochs) -> (res: MonoReadHandle<K, V, M>)
//@ spec
    ensures res.inner.cur() == Some(inner), res.inner.gen() == 0, res.my_epoch.val() == 0, res.epoch.val() == 0
//@ end
//@ fn goko/src/monomap/write.rs new
//@ sig
    pub fn write_new<K: Cl, V: Cl, M: Cl>(w_handle: Inner<K, V, M>, epochs: Epochs, r_handle: MonoReadHandle<K, V, M>) -> (res: MonoWriteHandle<K, V, M>)
//@ spec
    requires r_handle.inner.cur() is Some && r_handle.inner.cur()->0.data@ == Map::<K, V>::empty() && !r_handle.inner.cur()->0.ready, epochs.known(r_handle.inner.gen()) == 0
    ensures res.inv(), res.full() == w_handle.data@, res.meta == w_handle.meta, res.pubd() == r_handle.inner.cur()->0, res.first
//@ end
pub open spec fn apply_ins<K, V>(m: Map<K, V>, kv: Seq<(K, V)>) -> Map<K, V> decreases kv.len() { if kv.len() == 0 { m } else { apply(apply_ins(m, kv.drop_last()), MonoOperation::Insert(kv.last().0, kv.last().1)) } }
impl<M: Cl> MonoOptions<M> {
//@ fn goko/src/monomap/mod.rs MonoOptions::construct
//@ subst let epochs = Default :: default () => let epochs = Epochs::default()
//@ sig
    pub fn construct<K: Cl, V: Cl>(self) -> (res: (MonoReadHandle<K, V, M>, MonoWriteHandle<K, V, M>))
//@ spec
    ensures res.1.inv(), res.1.first, res.1.full() == Map::<K, V>::empty(), res.1.meta == self.meta,
        // the reader sees an empty map that is not ready, with the given meta, through the writer's pointer
        res.0.seen() == Some(res.1.pubd()), res.0.seen()->0.data@ == Map::<K, V>::empty(), !res.0.seen()->0.ready, res.0.seen()->0.meta == self.meta, res.0.rinv(),
//@ end
}
impl<K: Cl, V: Cl, M: Cl> MonoWriteHandle<K, V, M> {
    /// the copy the readers use
    pub open spec fn pubd(&self) -> Inner<K, V, M> { self.r_handle.inner.cur()->0 }
    /// operations not yet published
    pub open spec fn todo(&self) -> Seq<MonoOperation<K, V>> { self.oplog@.subrange(self.swap_index as int, self.oplog@.len() as int) }
    /// the state all writes so far amount to
    pub open spec fn full(&self) -> Map<K, V> { if self.first { self.w_handle->0.data@ } else { run(self.pubd().data@, self.todo()) } }
    /// the readers that could hold the copy swapped out last have been observed since
    pub open spec fn noted(&self) -> bool {
        &&& self.epochs.known(self.r_handle.inner.gen()) <= self.last_epochs@.len()
        &&& forall|i: int| 0 <= i < self.epochs.known(self.r_handle.inner.gen()) ==> self.epochs.at(i).was(#[trigger] self.last_epochs@[i], self.r_handle.inner.gen())
    }
    /// and they have all left it
    pub open spec fn left(&self) -> bool { self.noted() && forall|i: int| 0 <= i < self.epochs.known(self.r_handle.inner.gen()) ==> gone(self.epochs.at(i), #[trigger] self.last_epochs@[i], self.r_handle.inner.gen()) }
    pub open spec fn inv(&self) -> bool {
        &&& self.noted()
        // before the first refresh nobody has seen the writer's copy
        &&& self.first ==> self.epochs.known(self.r_handle.inner.gen()) == 0
        &&& self.r_handle.inner.cur() is Some && self.w_handle is Some
        &&& self.swap_index <= self.oplog@.len()
        &&& self.first ==> !self.second && self.oplog@.len() == 0 && self.pubd().data@ == Map::<K, V>::empty()
        &&& self.pubd().ready == !self.first
        &&& self.second ==> !self.first && self.swap_index == 0
        &&& !self.first && !self.second ==> run(self.w_handle->0.data@, self.oplog@.subrange(0, self.swap_index as int)) == self.pubd().data@
    }
//@ fn goko/src/monomap/write.rs MonoWriteHandle::apply_first
//@ sig
    fn apply_first(inner: &mut Inner<K, V, M>, op: &mut MonoOperation<K, V>)
//@ spec
    ensures final(inner).data@ == apply(old(inner).data@, *old(op)), *final(op) == *old(op), final(inner).meta == old(inner).meta, final(inner).ready == old(inner).ready
//@ end
//@ fn goko/src/monomap/write.rs MonoWriteHandle::apply_second
//@ sig
    fn apply_second(inner: &mut Inner<K, V, M>, op: MonoOperation<K, V>)
//@ spec
    ensures final(inner).data@ == apply(old(inner).data@, op), final(inner).meta == old(inner).meta, final(inner).ready == old(inner).ready
//@ end
//@ fn goko/src/monomap/write.rs MonoWriteHandle::add_op
//@ subst self . w_handle . as_mut () . unwrap () => exclusive(Ghost(self.left()), &mut self.w_handle)
//@ spec
    requires old(self).inv()
    ensures res.inv(), res.full() == apply(old(self).full(), op), res.pubd() == old(self).pubd(), res.meta == old(self).meta, *final(self) == *final(res)
//@ start
    let ghost me0 = *self;
//@ finish
    proof { if !me0.first { assert(self.todo() =~= me0.todo().push(op)); l_run_push(self.pubd().data@, me0.todo(), op); assert(self.oplog@.subrange(0, self.swap_index as int) =~= me0.oplog@.subrange(0, self.swap_index as int)); } }
//@ end
//@ fn goko/src/monomap/write.rs MonoWriteHandle::insert
//@ spec
    requires old(self).inv()
    ensures res.inv(), res.full() == apply(old(self).full(), MonoOperation::Insert(k, v)), res.pubd() == old(self).pubd(), res.meta == old(self).meta, *final(self) == *final(res)
//@ end
//@ fn goko/src/monomap/write.rs MonoWriteHandle::remove
//@ spec
    requires old(self).inv()
    ensures res.inv(), res.full() == apply(old(self).full(), MonoOperation::Remove(k)), res.pubd() == old(self).pubd(), res.meta == old(self).meta, *final(self) == *final(res)
//@ end
//@ fn goko/src/monomap/write.rs MonoWriteHandle::update
//@ sig
    pub fn update(&mut self, k: K, f: Updater<V>) -> (res: &mut Self)
//@ subst Updater (vbox (f)) => f
//@ spec
    requires old(self).inv()
    ensures res.inv(), res.full() == apply(old(self).full(), MonoOperation::Update(k, f)), res.pubd() == old(self).pubd(), res.meta == old(self).meta, *final(self) == *final(res)
//@ end
//@ fn goko/src/monomap/write.rs MonoWriteHandle as Extend<(K, V)>::extend
//@ opt nopub
//@ sig
    fn extend_vec(&mut self, iter: Vec<(K, V)>)
//@ spec
    requires old(self).inv()
    ensures final(self).inv(), final(self).full() == apply_ins(old(self).full(), iter@), final(self).pubd() == old(self).pubd(), final(self).meta == old(self).meta
//@ loop 0
    invariant self.inv(), self.full() == apply_ins(old(self).full(), it0.seq().take(it0.index())), self.pubd() == old(self).pubd(), self.meta == old(self).meta, it0.seq() == iter@
//@ loopend 0
    proof { assert(it0.seq().take(it0.index() + 1).drop_last() =~= it0.seq().take(it0.index())); }
//@ finish
    proof { assert(iter@.take(iter@.len() as int) =~= iter@); }
//@ end
//@ fn goko/src/monomap/write.rs MonoWriteHandle::purge
//@ spec
    requires old(self).inv()
    ensures res.inv(), res.full() == apply(old(self).full(), MonoOperation::Purge), res.pubd() == old(self).pubd(), res.meta == old(self).meta, *final(self) == *final(res)
//@ end
//@ fn goko/src/monomap/write.rs MonoWriteHandle as Drop::drop
//@ subst use std :: ptr ; =>
//@ loops 1
//@ subst swap (ptr :: null_mut () , MemOrd::Release) => swap_null (MemOrd::Release)
//@ subst self . w_handle . as_mut () . unwrap () => exclusive(Ghost(self.left()), &mut self.w_handle)
//@ subst epoch . load (MemOrd::Acquire) => epoch.load_at(&self.r_handle.inner, MemOrd::Acquire)
//@ subst Arc :: clone (& self . epochs) => &self.epochs
//@ subst let mut epochs = epochs . lock () . unwrap () => let epochs = self.epochs.locked(&self.r_handle.inner)
//@ subst self . wait (& mut epochs) => self . wait (& epochs)
//@ subst drop (vbox (r_handle)) => free_exclusive(Ghost(self.left()), r_handle)
//@ name drop_writer
//@ spec
    // dropping the writer never panics and leaves the readers without a map
    requires old(self).inv()
    ensures final(self).r_handle.inner.cur() is None
//@ loop 0
    invariant __c2 == it0.index@, it0.seq().len() == epochs@.len(), forall|i: int| 0 <= i < epochs@.len() ==> *(#[trigger] it0.seq()[i]) == epochs@[i], self.last_epochs@.len() == epochs@.len(), self.w_handle is Some, self.r_handle.inner.cur() is None, epochs@.len() >= self.epochs.known(self.r_handle.inner.gen()),
        forall|i: int| 0 <= i < epochs@.len() ==> #[trigger] epochs@[i] == self.epochs.at(i), forall|i: int| 0 <= i < it0.index@ ==> self.epochs.at(i).was(#[trigger] self.last_epochs@[i], self.r_handle.inner.gen()),
//@ end
//@ fn goko/src/monomap/write.rs MonoWriteHandle::set_meta
//@ spec
    requires old(self).inv()
    ensures res == old(self).meta, final(self).meta == meta, final(self).inv(), final(self).pubd() == old(self).pubd(), final(self).full() == old(self).full()
//@ end
//@ fn goko/src/monomap/write.rs MonoWriteHandle::pending
//@ subst & self . oplog [self . swap_index ..] => vstd::slice::slice_subrange(self.oplog.as_slice(), self.swap_index, self.oplog.len())
//@ spec
    requires self.inv()
    ensures res@ == self.todo()
//@ start
    proof { assert(self.oplog@.len() == self.oplog.len()); }
//@ end
//@ fn goko/src/monomap/write.rs MonoWriteHandle::flush
//@ spec
    requires old(self).inv()
    ensures res.inv(), res.full() == old(self).full(), *final(self) == *final(res), !old(self).first ==> res.pubd().data@ == old(self).full(), res.todo().len() == 0,
//@ end
//@ fn goko/src/monomap/write.rs MonoWriteHandle::wait
//@ loops 2
//@ subst epoch . load (MemOrd::Acquire) => epoch.load_at(&self.r_handle.inner, MemOrd::Acquire)
//@ subst & mut MutexGuard < Vec < Arc < atomic :: AtomicUsize > > > => &Vec<Epoch>
//@ subst mem :: size_of :: < usize > () => 8
//@ attr #[verifier::exec_allows_no_decreases_clause]
//@ spec
    requires old(self).noted(), epochs@.len() >= old(self).epochs.known(old(self).r_handle.inner.gen()), forall|i: int| 0 <= i < epochs@.len() ==> #[trigger] epochs@[i] == old(self).epochs.at(i)
    ensures final(self).w_handle == old(self).w_handle, final(self).oplog == old(self).oplog, final(self).swap_index == old(self).swap_index, final(self).r_handle == old(self).r_handle, final(self).meta == old(self).meta, final(self).first == old(self).first, final(self).second == old(self).second, final(self).epochs == old(self).epochs,
        final(self).last_epochs@.len() == epochs@.len(),
        // every reader was seen to have left the copy that was swapped out
        final(self).left(),
//@ start
    let ghost me0 = *self;
//@ loopbefore 0
    proof {
        assert forall|i: int| 0 <= i < self.epochs.known(self.r_handle.inner.gen()) implies self.epochs.at(i).was(#[trigger] self.last_epochs@[i], self.r_handle.inner.gen()) by { assert(self.last_epochs@[i] == me0.last_epochs@[i]); }
    }
//@ loopafter 0
    proof {
        assert forall|i: int| 0 <= i < self.epochs.known(self.r_handle.inner.gen()) implies gone(self.epochs.at(i), #[trigger] self.last_epochs@[i], self.r_handle.inner.gen()) by { assert(epochs@[i] == self.epochs.at(i)); }
    }
//@ loop 0
    invariant starti <= epochs@.len(), self.last_epochs@.len() == epochs@.len(), high_bit == 1usize << 63, 0 <= iter <= 20,
        self.w_handle == me0.w_handle, self.oplog == me0.oplog, self.swap_index == me0.swap_index, self.r_handle == me0.r_handle, self.meta == me0.meta, self.first == me0.first, self.second == me0.second, self.epochs == me0.epochs, self.noted(), epochs@.len() >= self.epochs.known(self.r_handle.inner.gen()), forall|i: int| 0 <= i < epochs@.len() ==> #[trigger] epochs@[i] == self.epochs.at(i),
        forall|i: int| 0 <= i < starti ==> gone(#[trigger] epochs@[i], self.last_epochs@[i], self.r_handle.inner.gen()),
    ensures forall|i: int| 0 <= i < epochs@.len() ==> gone(#[trigger] epochs@[i], self.last_epochs@[i], self.r_handle.inner.gen()),
//@ loop 1
    invariant starti <= epochs@.len(), self.last_epochs@.len() == epochs@.len(), high_bit == 1usize << 63, 0 <= iter <= 20, __k1 <= epochs@.len(),
        self.w_handle == me0.w_handle, self.oplog == me0.oplog, self.swap_index == me0.swap_index, self.r_handle == me0.r_handle, self.meta == me0.meta, self.first == me0.first, self.second == me0.second, self.epochs == me0.epochs, self.noted(), epochs@.len() >= self.epochs.known(self.r_handle.inner.gen()), forall|i: int| 0 <= i < epochs@.len() ==> #[trigger] epochs@[i] == self.epochs.at(i),
        forall|i: int| 0 <= i < __k1 ==> gone(#[trigger] epochs@[i], self.last_epochs@[i], self.r_handle.inner.gen()),
//@ end
//@ fn goko/src/monomap/write.rs MonoWriteHandle::refresh
//@ loops 3
//@ subst self . w_handle . as_mut () . unwrap () => exclusive(Ghost(self.left()), &mut self.w_handle)
//@ subst epoch . load (MemOrd::Acquire) => epoch.load_at(&self.r_handle.inner, MemOrd::Acquire)
//@ subst swap (w_handle , MemOrd::Release) => swap_locked(w_handle, &epochs, &self.epochs, MemOrd::Release)
//@ subst Arc :: clone (& self . epochs) => &self.epochs
//@ subst let mut epochs = epochs . lock () . unwrap () => let epochs = self.epochs.locked(&self.r_handle.inner)
//@ subst self . wait (& mut epochs) => self . wait (& epochs)
//@ subst . as_mut () . unwrap () ; w_handle . data => . unwrap () ; w_handle . data
//@ subst self . oplog . drain (0 .. self . swap_index) => drain_front(&mut self.oplog, self.swap_index)
//@ spec
    requires old(self).inv()
    ensures res.inv(), *final(self) == *final(res), res.full() == old(self).full(), !res.first, res.meta == old(self).meta,
        // what the readers see is the state of all writes so far, with the current meta
        res.pubd().data@ == old(self).full(), res.pubd().ready, res.pubd().meta == old(self).meta, res.todo().len() == 0,
        // a second refresh without a write in between brings the other copy up to date and empties the log
        !old(self).first && old(self).todo().len() == 0 ==> res.oplog@.len() == 0 && res.swap_index == 0 && res.w_handle->0.data@ == res.pubd().data@,
//@ start
    let ghost me0 = *self;
//@ loopbefore 0
    let ghost d0 = w_handle.data@; let ghost log0 = self.oplog@; let ghost sw0 = self.swap_index as int;
    proof { assert(log0 == me0.oplog@); if me0.second { assert(false); } assert(d0 == me0.w_handle->0.data@); }
//@ loop 0
    invariant it0.seq() == log0.subrange(0, sw0), w_handle.data@ == run(d0, log0.subrange(0, sw0).subrange(0, it0.index@ as int)), 
//@ loopend 0
    proof { let q = log0.subrange(0, sw0); let k = it0.index@ as int; assert(q.subrange(0, k + 1) =~= q.subrange(0, k).push(q[k])); l_run_push(d0, q.subrange(0, k), q[k]); }
//@ loopafter 0
    proof { let q = log0.subrange(0, sw0); assert(q.subrange(0, sw0) =~= q); }
//@ loopbefore 1
    let ghost d1 = w_handle.data@; let ghost log1 = self.oplog@;
    proof {
        assert(log1 =~= me0.todo());
        if me0.first { assert(d1 == me0.full()); } else { assert(d1 == me0.pubd().data@); }
    }
//@ loop 1
    invariant it1.seq().len() == log1.len(), forall|i: int| 0 <= i < log1.len() ==> *(#[trigger] it1.seq()[i]) == log1[i],
        w_handle.data@ == run(d1, log1.subrange(0, it1.index@ as int)),
        forall|i: int| 0 <= i < it1.index@ ==> *final(#[trigger] it1.seq()[i]) == log1[i],
//@ loopend 1
    proof { let k = it1.index@ as int; assert(log1.subrange(0, k + 1) =~= log1.subrange(0, k).push(log1[k])); l_run_push(d1, log1.subrange(0, k), log1[k]); }
//@ loopafter 1
    proof { assert(log1.subrange(0, log1.len() as int) =~= log1); assert(self.oplog@ =~= log1); assert(w_handle.data@ == me0.full()); }
//@ loopbefore 2
    proof { assert(epochs@.len() == epochs.len()); }
//@ loop 2
    invariant __c2 == it2.index@, epochs@.len() <= usize::MAX, it2.seq().len() == epochs@.len(), forall|i: int| 0 <= i < epochs@.len() ==> *(#[trigger] it2.seq()[i]) == epochs@[i], forall|i: int| 0 <= i < epochs@.len() ==> #[trigger] epochs@[i] == self.epochs.at(i), self.epochs.known(self.r_handle.inner.gen()) <= epochs@.len(),
        forall|i: int| 0 <= i < it2.index@ ==> self.epochs.at(i).was(#[trigger] self.last_epochs@[i], self.r_handle.inner.gen()),
        self.last_epochs@.len() == epochs@.len(), self.oplog@ == me0.todo(), self.swap_index == self.oplog@.len(),
        self.r_handle.inner.cur() is Some, self.pubd().data@ == me0.full(), self.pubd().ready, self.pubd().meta == me0.meta, self.meta == me0.meta, self.first == me0.first, self.second == me0.second,
//@ finish
    proof { assert(self.todo().len() == 0); assert(self.oplog@.subrange(0, self.swap_index as int) =~= me0.todo()); assert(self.w_handle->0 == me0.pubd()); }
//@ end
}

impl<K: Cl, V, M: Cl> MonoReadHandle<K, V, M> {
    /// between reads, or inside one: the private count is below 2^63 - 1 and the announced epoch is the start value or marked idle
    pub open spec fn rinv(&self) -> bool { self.my_epoch.val() < 0x7fff_ffff_ffff_ffff && (self.epoch.val() == 0 || idle(self.epoch.val()) || self.reading()) }
    /// inside a read: the latest epoch is announced
    pub open spec fn reading(&self) -> bool { self.epoch.val() == self.my_epoch.val() && self.epoch.val() != 0 && !idle(self.epoch.val()) }
    /// what a reader is shown
    pub open spec fn seen(&self) -> Option<Inner<K, V, M>> { self.inner.cur() }
    /// after one more read: same pointer; idle again and the count advanced, but a read inside another leaves the announced epoch alone
    pub open spec fn read_once(&self, then: Self) -> bool { then.inner == self.inner && if self.reading() { then.epoch.val() == self.epoch.val() && then.my_epoch.val() == self.my_epoch.val() } else { then.my_epoch.val() == self.my_epoch.val() + 1 && idle(then.epoch.val()) } }
//@ fn goko/src/monomap/read.rs MonoReadHandle::with_handle
//@ subst mem :: size_of :: < usize > () => 8
//@ subst self . inner . load (MemOrd::Acquire) => self.inner.load_announced(&self.epoch, &self.my_epoch, MemOrd::Acquire)
//@ subst self . epoch . load (MemOrd::Relaxed) => self.epoch.own(MemOrd::Relaxed)
//@ subst r_handle . as_ref () . map (f) => match r_handle { Some(__h) => Some(f(__h)), None => None }
//@ sig
    fn with_handle<F, T>(&mut self, f: F) -> (res: Option<T>) where F: FnOnce(&Inner<K, V, M>) -> T
//@ spec
    requires old(self).rinv(), old(self).seen() is Some ==> f.requires((&old(self).seen()->0,))
    ensures match res { Some(t) => old(self).seen() is Some && f.ensures((&old(self).seen()->0,), t), None => old(self).seen() is None }, old(self).read_once(*final(self))
//@ start
    proof {
        assert forall|e: usize| e <= 0x7fff_ffff_ffff_ffff implies !#[trigger] idle(e) by { assert(e & (1usize << 63) == 0) by (bit_vector) requires e <= 0x7fff_ffff_ffff_ffff; }
        assert forall|e: usize| idle(#[trigger] (e | (1usize << 63))) by { assert((e | (1usize << 63)) & (1usize << 63) != 0) by (bit_vector); }
    }
//@ end
//@ fn goko/src/monomap/read.rs MonoReadHandle::len
//@ sig
    pub fn len(&mut self) -> (res: usize)
//@ closure 0
    |inner: &Inner<K, V, M>| -> (r: usize) ensures r == inner.data@.len()
//@ spec
    requires old(self).rinv()
    ensures old(self).read_once(*final(self)), res == (match old(self).seen() { Some(i) => i.data@.len(), None => 0 })
//@ end
//@ fn goko/src/monomap/read.rs MonoReadHandle::is_empty
//@ sig
    pub fn is_empty(&mut self) -> (res: bool)
//@ closure 0
    |inner: &Inner<K, V, M>| -> (r: bool) ensures r == (inner.data@ == Map::<K, V>::empty())
//@ spec
    requires old(self).rinv()
    ensures old(self).read_once(*final(self)), res == (match old(self).seen() { Some(i) => i.data@ == Map::<K, V>::empty(), None => true })
//@ end
//@ fn goko/src/monomap/read.rs MonoReadHandle::meta
//@ sig
    pub fn meta(&mut self) -> (res: Option<M>)
//@ closure 0
    |inner: &Inner<K, V, M>| -> (r: M) ensures r == inner.meta
//@ spec
    requires old(self).rinv()
    ensures old(self).read_once(*final(self)), res == (match old(self).seen() { Some(i) => Some(i.meta), None => None })
//@ end
//@ fn goko/src/monomap/read.rs MonoReadHandle::is_destroyed
//@ sig
    pub fn is_destroyed(&mut self) -> (res: bool)
//@ closure 0
    |_i: &Inner<K, V, M>| -> (r: ()) ensures true
//@ spec
    requires old(self).rinv()
    ensures old(self).read_once(*final(self)), res == (old(self).seen() is None)
//@ end
//@ fn goko/src/monomap/read.rs MonoReadHandle::contains_key
//@ sig
    pub fn contains_key(&mut self, key: &K) -> (res: bool)
//@ closure 0
    |inner: &Inner<K, V, M>| -> (r: bool) ensures r == inner.data@.contains_key(*key)
//@ spec
    requires old(self).rinv()
    ensures old(self).read_once(*final(self)), res == (old(self).seen() is Some && old(self).seen()->0.data@.contains_key(*key))
//@ end
    /// a value is shown to the caller's function exactly when the published copy is ready and holds the key, and the answer is the function's
    pub open spec fn answers<F: FnOnce(&V) -> T, T>(i: Option<Inner<K, V, M>>, key: K, then: F, r: Option<T>) -> bool {
        match r { Some(t) => i is Some && i->0.ready && i->0.data@.contains_key(key) && then.ensures((&i->0.data@[key],), t), None => !(i is Some && i->0.ready && i->0.data@.contains_key(key)) }
    }
//@ fn goko/src/monomap/read.rs MonoReadHandle::get_raw
//@ sig
    fn get_raw<F, T>(&mut self, key: &K, then: F) -> (res: Option<T>) where F: FnOnce(&V) -> T
//@ closure 0
    move |inner: &Inner<K, V, M>| -> (r: Option<T>) requires forall|v: &V| then.requires((v,)) ensures Self::answers(Some(*inner), *key, then, r)
//@ spec
    requires old(self).rinv(), forall|v: &V| then.requires((v,))
    ensures old(self).read_once(*final(self)), Self::answers(old(self).seen(), *key, then, res)
//@ end
//@ fn goko/src/monomap/read.rs MonoReadHandle::get_and
//@ subst key . borrow () => key
//@ sig
    pub fn get_and<F, T>(&mut self, key: &K, then: F) -> (res: Option<T>) where F: FnOnce(&V) -> T
//@ closure 0
    |value: &V| -> (r: T) requires then.requires((value,)) ensures then.ensures((value,), r)
//@ spec
    requires old(self).rinv(), forall|v: &V| then.requires((v,))
    ensures old(self).read_once(*final(self)), Self::answers(old(self).seen(), *key, then, res)
//@ end
//@ fn goko/src/monomap/read.rs MonoReadHandle::meta_get_and
//@ sig
    pub fn meta_get_and<F, T>(&mut self, key: &K, then: F) -> (res: Option<(Option<T>, M)>) where F: FnOnce(&V) -> T
//@ closure 0
    move |inner: &Inner<K, V, M>| -> (r: Option<(Option<T>, M)>) requires forall|v: &V| then.requires((v,)) ensures match r { Some(q) => inner.ready && Self::answers(Some(*inner), *key, then, q.0) && q.1 == inner.meta, None => !inner.ready }
//@ spec
    requires old(self).rinv(), forall|v: &V| then.requires((v,))
    ensures old(self).read_once(*final(self)), match res { Some(q) => old(self).seen() is Some && old(self).seen()->0.ready && Self::answers(old(self).seen(), *key, then, q.0) && q.1 == old(self).seen()->0.meta, None => !(old(self).seen() is Some && old(self).seen()->0.ready) }
//@ end
}
} // verus!
fn main() {}
