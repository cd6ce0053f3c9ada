# appends the dense-slice instances (f32 and the six macro-generated element types) to points_sparse.vrs -> points.vrs
base=open('points_sparse.vrs').read()
o=[]
P='pointcloud/src/points/mod.rs'
o.append('''pub open spec fn cast<T: ToReal>(s: Seq<T>) -> Seq<real> { Seq::new(s.len(), |i: int| s[i].as_real()) }
pub open spec fn unref<T>(s: Seq<&T>) -> Seq<T> { Seq::new(s.len(), |i: int| *s[i]) }
// ---- f32 slices
//@ fn %s Slice as PointRef::dense

//@ sig
fn dense_f32<'a>(self_: &&'a [f32]) -> (res: Vec<f32>)
//@ subst * self => * self_
//@ subst Vec :: from => vstd::slice::slice_to_vec
//@ spec
    ensures res@ == self_@
//@ end'''%P)
for t in ('i8','u8','i16','u16','i32','u32'):
    o.append(f'''//@ macro pt{t} {P} make_misc_point base={t} iter_name=Converter{t}
//@ struct pt{t} Converter{t}
//@ end
impl<'a> CoordIter for Converter{t}<'a> {{
    open spec fn ok(&self) -> bool {{ true }}
    #[verifier::prophetic] open spec fn rest(&self) -> Seq<real> {{ cast(unref(self.iter.remaining())) }}
//@ fn pt{t} Converter{t} as Iterator::next
//@ opt nopub
//@ subst Self :: Item => f32
//@ finish
    assert(old(self).rest().len() > 0 ==> self.rest() =~= old(self).rest().skip(1));
    assert(old(self).rest().len() == 0 ==> self.rest() =~= old(self).rest());
//@ end
}}
impl<'a> PointRef for &'a [{t}] {{
    type DenseIter = Converter{t}<'a>;
    open spec fn ok(&self) -> bool {{ true }}
    open spec fn coords(&self) -> Seq<real> {{ cast(self@) }}
//@ fn pt{t} Slice as PointRef::dense
//@ opt nopub
//@ subst let mut __acc1 = Vec => let mut __acc1 : Vec<f32> = Vec
//@ loops 1
//@ loop 0
    invariant it0.seq().len() == self@.len(), forall|k: int| 0 <= k < it0.seq().len() ==> *(#[trigger] it0.seq()[k]) == self@[k], __acc1@.len() == it0.index(), forall|k: int| 0 <= k < it0.index() ==> (#[trigger] __acc1@[k])@ == self@[k].as_real(),
//@ loopafter 0
    assert(rseq(__acc1@) =~= cast(self@));
//@ end
//@ fn pt{t} Slice as PointRef::dense_iter
//@ opt nopub
//@ subst Self :: DenseIter => Converter{t}<'a>
//@ finish
    assert(res.rest() =~= self.coords());
//@ end
}}''')
tail='} // verus!\nfn main() {}\n'
assert base.endswith(tail)
open('points.vrs','w').write(base[:-len(tail)]+'\n'.join(o)+'\n'+tail)
