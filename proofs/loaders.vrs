//@ include prelude.vrs
//@ include coll.vrs
// =====================================================================================
// UNIT loaders: a cloud loaded from files holds the rows of the files, in the order of the files
// =====================================================================================
//@ gsubst String => VString
broadcast use {fl::ax_mk, fl::ax_mk2};
#[verifier::external_body] pub struct VString { s: Vec<u8> }
#[verifier::external_body] pub struct PointCloudError { p: u8 }
pub type PointCloudResult<T> = Result<T, PointCloudError>;
/// what a label source says about a point
pub enum Obs<G> { Val(G), Missing }
/// TRUSTED (std, glob, yaml-rust, csv, flate2, memmap): files are what they contain
#[verifier::external_body] #[derive(Clone, Copy)] pub struct PathBuf { p: u8 }
#[verifier::external_body] pub struct Bytes { p: u8 }
/// the numbers of a file of packed floats, the raw bytes of a file, what they inflate to, the records of a CSV text below its header
pub uninterp spec fn floats(p: PathBuf) -> Seq<f32>;
pub uninterp spec fn raw(p: PathBuf) -> Bytes;
pub uninterp spec fn gunzip(b: Bytes) -> Bytes;
pub uninterp spec fn csv(b: Bytes) -> Seq<Record>;
pub enum Ext { Csv, Gz, Dat, Other }
pub uninterp spec fn ext(p: PathBuf) -> Ext;
impl PathBuf {
    #[verifier::external_body] pub fn exists(&self) -> bool { unimplemented!() }
    #[verifier::external_body] pub fn ext(&self) -> (r: Ext) ensures r == ext(*self) { unimplemented!() }
    #[verifier::external_body] pub fn ext_is_gz(&self) -> (r: bool) ensures r == (ext(*self) is Gz) { unimplemented!() }
}
#[verifier::external_body] pub fn file_name(p: &PathBuf) -> VString { unimplemented!() }
#[verifier::external_body] pub struct File { p: u8 }
impl File {
    pub uninterp spec fn of(&self) -> PathBuf;
    #[verifier::external_body] pub fn open(p: &PathBuf) -> (r: Result<File, ()>) ensures r is Ok ==> r->Ok_0.of() == *p { unimplemented!() }
}
/// a file opened for mapping, and the mapping of it
#[verifier::external_body] pub fn open_rw(p: &PathBuf) -> (r: Result<File, ()>) ensures r is Ok ==> r->Ok_0.of() == *p { unimplemented!() }
#[verifier::external_body] pub fn map_f32(f: &File) -> (r: PointCloudResult<Vec<f32>>) ensures r is Ok ==> r->Ok_0@ == floats(f.of()) { unimplemented!() }
pub trait Read: Sized { spec fn bytes(&self) -> Bytes; }
impl Read for File { open spec fn bytes(&self) -> Bytes { raw(self.of()) } }
#[verifier::external_body] #[verifier::accept_recursive_types(R)] pub struct GzDecoder<R> { r: R }
impl<R: Read> GzDecoder<R> {
    pub uninterp spec fn inner(&self) -> R;
    #[verifier::external_body] pub fn new(r: R) -> (g: GzDecoder<R>) ensures g.inner() == r { unimplemented!() }
}
impl<R: Read> Read for GzDecoder<R> { open spec fn bytes(&self) -> Bytes { gunzip(self.inner().bytes()) } }
#[verifier::external_body] pub struct Field { p: u8 }
impl Field {
    pub uninterp spec fn int(&self) -> Option<i64>;
    #[verifier::external_body] pub fn parse_i64(&self) -> (r: PointCloudResult<i64>) ensures (r is Ok) == (self.int() is Some), r is Ok ==> r->Ok_0 == self.int()->0 { unimplemented!() }
}
#[verifier::external_body] pub struct Record { p: u8 }
impl Record {
    pub uninterp spec fn view(&self) -> Seq<Field>;
    #[verifier::external_body] pub fn get(&self, i: usize) -> (r: Option<&Field>) ensures (r is Some) == (i < self@.len()), r is Some ==> *(r->0) == self@[i as int] { unimplemented!() }
}
#[verifier::external_body] #[verifier::accept_recursive_types(R)] pub struct Reader<R> { r: R }
impl<R: Read> Reader<R> {
    pub uninterp spec fn recs(&self) -> Seq<Record>;
    #[verifier::external_body] pub fn from_reader(r: R) -> (x: Reader<R>) ensures x.recs() == csv(r.bytes()) { unimplemented!() }
    #[verifier::external_body] pub fn records(&mut self) -> (v: Vec<Result<Record, ()>>) ensures v@.len() == old(self).recs().len(), forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]) is Ok && v@[i]->Ok_0 == old(self).recs()[i] { unimplemented!() }
}
#[verifier::external_body] pub fn vcmp(a: usize, b: usize) -> (r: core::cmp::Ordering) ensures (r is Less) == (a < b), (r is Equal) == (a == b), (r is Greater) == (a > b) { unimplemented!() }
use std::marker::PhantomData;
#[verifier::external_body] pub fn vto_vec<T>(v: &Vec<T>) -> (r: Vec<T>) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body] pub fn vtake<T>(v: &mut Vec<T>) -> (r: Vec<T>) ensures r@ == old(v)@, final(v)@.len() == 0 { unimplemented!() }
/// a loader refuses by stopping: files that are not there or do not fit together, label files of no known kind
#[verifier::external_body] pub fn refuse() -> (r: !) { unimplemented!() }
//@ gsubst vpanic () => refuse()
// ------------------------------------------------------------------ clouds and labels (contracts of units `clouds`, `glued`, `labels`)
//@ struct pointcloud/src/data_sources/memmap_ram.rs DataRam
//@ subst M = L2 => M
//@ end
//@ struct pointcloud/src/data_sources/memmap_ram.rs DataMemmap
//@ subst M = L2 => M
//@ subst Mmapf32 => Vec<f32>
//@ end
//@ struct pointcloud/src/label_sources/mod.rs SmallIntLabels
//@ end
//@ struct pointcloud/src/label_sources/mod.rs VecLabels
//@ end
//@ struct pointcloud/src/base_traits.rs SimpleLabeledCloud
//@ end
//@ struct pointcloud/src/glued_data_cloud.rs HashGluedCloud
//@ subst HashMap < usize , (usize , usize) , FxBuildHasher > => HashMap < usize , (usize , usize) >
//@ end
pub struct L2 {}
pub open spec fn keep(mask: Option<Vec<bool>>, i: int) -> bool { mask is None || mask->0@[i] }
pub open spec fn hot(r: Seq<f32>, n: int) -> int decreases r.len() - n { if 0 <= n < r.len() { if r[n]@ > 0.5real { n } else { hot(r, n + 1) } } else { r.len() as int } }
impl SmallIntLabels {
    pub open spec fn wf(&self) -> bool { self.mask is Some ==> self.mask->0@.len() == self.labels@.len() }
    pub open spec fn n(&self) -> int { self.labels@.len() as int }
    pub open spec fn at(&self, i: int) -> Obs<i64> { if keep(self.mask, i) { Obs::Val(self.labels@[i]) } else { Obs::Missing } }
    pub open spec fn all(&self) -> Seq<Obs<i64>> { Seq::new(self.n() as nat, |i: int| self.at(i)) }
//@ fn pointcloud/src/label_sources/mod.rs SmallIntLabels::new
//@ spec
    ensures res.labels == labels, res.mask == mask,
//@ end
    /// CONTRACT decided by unit `labels`
    #[verifier::external_body] pub fn merge(&mut self, other: &SmallIntLabels) requires old(self).wf(), other.wf()
        ensures final(self).wf(), final(self).n() == old(self).n() + other.n(),
            forall|i: int| 0 <= i < old(self).n() ==> #[trigger] final(self).at(i) == old(self).at(i),
            forall|i: int| old(self).n() <= i < final(self).n() ==> #[trigger] final(self).at(i) == other.at(i - old(self).n()) { unimplemented!() }
}
impl VecLabels {
    pub open spec fn wf(&self) -> bool { self.label_dim > 0 && self.labels@.len() == self.label_dim * self.n() && (self.mask is Some ==> self.mask->0@.len() == self.n()) }
    pub open spec fn n(&self) -> int { self.labels@.len() as int / self.label_dim as int }
    pub open spec fn row(&self, i: int) -> Seq<f32> { self.labels@.subrange(self.label_dim * i, self.label_dim * (i + 1)) }
    /// CONTRACTS decided by unit `labels`
    #[verifier::external_body] pub fn new(labels: Vec<f32>, label_dim: usize, mask: Option<Vec<bool>>) -> (res: VecLabels)
        requires label_dim > 0, labels@.len() % label_dim as nat == 0, mask is Some ==> mask->0@.len() == labels@.len() / label_dim as nat
        ensures res.labels == labels, res.mask == mask, res.label_dim == label_dim, res.wf() { unimplemented!() }
    #[verifier::external_body] pub fn one_hot_to_int(&self) -> (res: SmallIntLabels) requires self.wf(), self.label_dim <= i64::MAX
        ensures res.wf(), res.n() == self.n(), forall|i: int| 0 <= i < self.n() ==> #[trigger] res.at(i) == (if keep(self.mask, i) && hot(self.row(i), 0) < self.label_dim { Obs::Val(hot(self.row(i), 0) as i64) } else { Obs::<i64>::Missing }) { unimplemented!() }
    #[verifier::external_body] pub fn binary_to_int(&self) -> (res: SmallIntLabels) requires self.wf(), self.label_dim == 1
        ensures res.wf(), res.n() == self.n(), forall|i: int| 0 <= i < self.n() ==> #[trigger] res.at(i) == (if keep(self.mask, i) { Obs::Val(if self.row(i)[0]@ > 0.5real { 1i64 } else { 0i64 }) } else { Obs::<i64>::Missing }) { unimplemented!() }
}
impl<M> DataRam<M> {
    pub open spec fn inv(&self) -> bool { self.dim > 0 && self.data@.len() % self.dim as nat == 0 }
//@ fn pointcloud/src/data_sources/memmap_ram.rs DataRam::merge
//@ opt extend
//@ spec
    requires old(self).dim == other.dim
    ensures final(self).dim == old(self).dim, final(self).data@ == old(self).data@ + other.data@
//@ end
//@ fn pointcloud/src/data_sources/memmap_ram.rs DataRam::convert_to_labels
//@ spec
    requires self.inv()
    ensures res.labels@ == self.data@, res.label_dim == self.dim, res.mask is None, res.wf()
//@ end
}
impl<M> DataMemmap<M> {
    pub open spec fn inv(&self) -> bool { self.dim > 0 && self.data@.len() % self.dim as nat == 0 }
//@ fn pointcloud/src/data_sources/memmap_ram.rs DataMemmap::new
//@ subst & Path => &PathBuf
//@ subst path . to_string_lossy () . to_string () => file_name(path)
//@ subst OpenOptions :: new () . read (true) . write (true) . open (& path) => open_rw(path)
//@ subst Mmapf32 :: map (& file) . map_err (PointCloudError :: from) => map_f32(&file)
//@ spec
    ensures res is Ok ==> res->Ok_0.data@ == floats(*path) && res->Ok_0.dim == dim
//@ end
//@ fn pointcloud/src/data_sources/memmap_ram.rs DataMemmap::convert_to_labels
//@ subst self . data . to_vec () => vto_vec(&self.data)
//@ spec
    requires self.inv()
    ensures res.labels@ == self.data@, res.label_dim == self.dim, res.mask is None, res.wf()
//@ end
//@ fn pointcloud/src/data_sources/memmap_ram.rs DataMemmap::convert_to_ram
//@ spec
    ensures res.dim == self.dim, res.data@ == self.data@
//@ end
}
impl<D, L> SimpleLabeledCloud<D, L> {
//@ fn pointcloud/src/base_traits.rs SimpleLabeledCloud::new
//@ spec
    ensures res.data == data, res.labels == labels
//@ end
}
impl<D> HashGluedCloud<D> {
    /// CONTRACT decided by unit `glued`: the sources are kept as given, and the points are numbered through them in order
    #[verifier::external_body] pub fn new(data_sources: Vec<D>) -> (res: HashGluedCloud<D>) ensures res.data_sources == data_sources { unimplemented!() }
//@ fn pointcloud/src/glued_data_cloud.rs HashGluedCloud::take_data_sources
//@ spec
    ensures res == self.data_sources
//@ end
}
/// the files of a list hold whole rows
pub open spec fn whole(ps: Seq<PathBuf>, d: usize) -> bool { d > 0 && forall|i: int| 0 <= i < ps.len() ==> floats(#[trigger] ps[i]).len() % d as nat == 0 }
/// the files of a list one after the other
pub open spec fn cat(ps: Seq<PathBuf>, n: int) -> Seq<f32> decreases n { if n <= 0 { Seq::empty() } else { cat(ps, n - 1) + floats(ps[n - 1]) } }
pub open spec fn cat_data<M>(ds: Seq<DataMemmap<M>>, n: int) -> Seq<f32> decreases n { if n <= 0 { Seq::empty() } else { cat_data(ds, n - 1) + ds[n - 1].data@ } }
pub proof fn l_cat_eq<M>(ds: Seq<DataMemmap<M>>, ps: Seq<PathBuf>, n: int) requires 0 <= n <= ps.len(), ds.len() == ps.len(), forall|i: int| 0 <= i < ps.len() ==> (#[trigger] ds[i]).data@ == floats(ps[i]) ensures cat_data(ds, n) == cat(ps, n) decreases n { if n > 0 { l_cat_eq(ds, ps, n - 1); } }
pub proof fn l_whole(ps: Seq<PathBuf>, d: usize, n: int) requires whole(ps, d), 0 <= n <= ps.len() ensures cat(ps, n).len() % d as nat == 0 decreases n
{
    if n > 0 { l_whole(ps, d, n - 1); let a = cat(ps, n - 1).len() as int; let b = floats(ps[n - 1]).len() as int; assert(cat(ps, n).len() == a + b); assert(a % d as int == 0 && b % d as int == 0); vstd::arithmetic::div_mod::lemma_add_mod_noop(a, b, d as int); assert((a + b) % d as int == 0); } else { assert(cat(ps, n).len() == 0); vstd::arithmetic::div_mod::lemma_small_mod(0, d as nat); }
}
/// THE PROPERTY in rows: row j of file i is row (rows before file i) + j of the concatenation
pub open spec fn rows_before(ps: Seq<PathBuf>, d: usize, i: int) -> int { cat(ps, i).len() as int / d as int }
pub proof fn l_cat_prefix(ps: Seq<PathBuf>, i: int, n: int) requires 0 <= i <= n <= ps.len() ensures cat(ps, i).len() <= cat(ps, n).len(), cat(ps, n).subrange(0, cat(ps, i).len() as int) == cat(ps, i) decreases n - i
{
    if i < n { l_cat_prefix(ps, i, n - 1); assert(cat(ps, n).subrange(0, cat(ps, i).len() as int) =~= cat(ps, n - 1).subrange(0, cat(ps, i).len() as int)); } else { assert(cat(ps, n).subrange(0, cat(ps, i).len() as int) =~= cat(ps, i)); }
}
pub proof fn l_rows(ps: Seq<PathBuf>, d: usize, i: int, j: int)
    requires whole(ps, d), 0 <= i < ps.len(), 0 <= j < floats(ps[i]).len() as int / d as int
    ensures ({ let all = cat(ps, ps.len() as int); let r = (rows_before(ps, d, i) + j) * d; 0 <= r && r + d <= all.len() && all.subrange(r, r + d) == floats(ps[i]).subrange(j * d, j * d + d) })
{
    let n = ps.len() as int; let all = cat(ps, n); let f = floats(ps[i]); let b = cat(ps, i).len() as int; let dd = d as int;
    l_whole(ps, d, i); l_cat_prefix(ps, i + 1, n); l_cat_prefix(ps, i, i + 1);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(b, dd); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(f.len() as int, dd);
    let k = f.len() as int / dd;
    assert((b / dd + j) * dd == b + j * dd) by (nonlinear_arith) requires b == dd * (b / dd);
    assert(j * dd + dd <= f.len()) by (nonlinear_arith) requires j + 1 <= k, f.len() == dd * k, dd > 0;
    assert(j * dd >= 0) by (nonlinear_arith) requires j >= 0, dd > 0;
    let r = b + j * dd;
    assert(cat(ps, i + 1) == cat(ps, i) + f);
    assert forall|q: int| 0 <= q < dd implies #[trigger] all.subrange(r, r + dd)[q] == f.subrange(j * dd, j * dd + dd)[q] by {
        assert(all.subrange(0, cat(ps, i + 1).len() as int)[r + q] == all[r + q]); assert(cat(ps, i + 1)[r + q] == f[r + q - b]);
    }
    assert(all.subrange(r, r + dd) =~= f.subrange(j * dd, j * dd + dd));
}
pub open spec fn opened<M>(ds: Seq<DataMemmap<M>>, ps: Seq<PathBuf>, d: usize) -> bool { ds.len() == ps.len() && forall|i: int| 0 <= i < ds.len() ==> (#[trigger] ds[i]).data@ == floats(ps[i]) && ds[i].dim == d }
pub open spec fn labeled<M>(c: SimpleLabeledCloud<DataMemmap<M>, VecLabels>, dp: PathBuf, d: usize, lp: PathBuf, l: usize) -> bool { c.data.data@ == floats(dp) && c.data.dim == d && c.labels.labels@ == floats(lp) && c.labels.label_dim == l && c.labels.mask is None }
//@ fn pointcloud/src/loaders/mod.rs open_memmaps
//@ subst < M : Metric < [f32] > > => < M >
//@ subst & dp => dp
//@ subst let mut __acc1 = Vec => let mut __acc1 : Vec<DataMemmap<M>> = Vec
//@ opt collect_into Result
//@ loops 1
//@ spec
    ensures res is Ok ==> opened(res->Ok_0.data_sources@, data_paths@, data_dim)
//@ loop 0
    invariant it0.seq().len() == data_paths@.len(), forall|j: int| 0 <= j < it0.seq().len() ==> *(#[trigger] it0.seq()[j]) == data_paths@[j], __acc1@.len() == it0.index(), forall|j: int| 0 <= j < __acc1@.len() ==> (#[trigger] __acc1@[j]).data@ == floats(data_paths@[j]) && __acc1@[j].dim == data_dim,
//@ loopstart 0
    proof { assert(*dp == data_paths@[it0.index()]); }
//@ end
//@ fn pointcloud/src/loaders/mod.rs open_labeled_memmaps
//@ subst < M : Metric < [f32] > > => < M >
//@ subst & dp => dp
//@ subst & lp => lp
//@ subst let mut __acc1 = Vec => let mut __acc1 : Vec<SimpleLabeledCloud<DataMemmap<M>, VecLabels>> = Vec
//@ subst let __m3 = => let __m3 : PointCloudResult<SimpleLabeledCloud<DataMemmap<M>, VecLabels>> =
//@ opt collect_into Result
//@ loops 1
//@ spec
    requires whole(labels_paths@, label_dim)
    ensures data_paths@.len() == labels_paths@.len(), res is Ok ==> ({ let ds = res->Ok_0.data_sources@; ds.len() == data_paths@.len() && forall|i: int| 0 <= i < ds.len() ==> labeled(#[trigger] ds[i], data_paths@[i], data_dim, labels_paths@[i], label_dim) })
//@ loop 0
    invariant it0.seq().len() == data_paths@.len(), data_paths@.len() == labels_paths@.len(), forall|j: int| 0 <= j < it0.seq().len() ==> *(#[trigger] it0.seq()[j]).0 == data_paths@[j] && *it0.seq()[j].1 == labels_paths@[j], __acc1@.len() == it0.index(), forall|j: int| 0 <= j < __acc1@.len() ==> labeled(#[trigger] __acc1@[j], data_paths@[j], data_dim, labels_paths@[j], label_dim),
//@ loopstart 0
    proof { assert(*dp == data_paths@[it0.index()] && *lp == labels_paths@[it0.index()]); }
//@ end
//@ fn pointcloud/src/loaders/mod.rs convert_glued_memmap_to_ram
//@ subst < M : Metric < [f32] > > => < M >
//@ subst vtake (& mut glued_cloud . take_data_sources ()) => glued_cloud . take_data_sources ()
//@ subst let mut __acc1 = None => let mut __acc1 : Option<DataRam<M>> = None
//@ loops 1
//@ spec
    requires glued_cloud.data_sources@.len() > 0, forall|i: int| 0 <= i < glued_cloud.data_sources@.len() ==> (#[trigger] glued_cloud.data_sources@[i]).dim == glued_cloud.data_sources@[0].dim
    ensures res.dim == glued_cloud.data_sources@[0].dim, res.data@ == cat_data(glued_cloud.data_sources@, glued_cloud.data_sources@.len() as int)
//@ start
    let ghost ds0 = glued_cloud.data_sources@;
//@ loop 0
    invariant it0.seq() == ds0, (__acc1 is None) == (it0.index() == 0), __acc1 is Some ==> __acc1->0.dim == ds0[0].dim && __acc1->0.data@ == cat_data(ds0, it0.index()),
//@ loopstart 0
    proof { assert(ds == ds0[it0.index()]); assert(cat_data(ds0, it0.index() + 1) =~= cat_data(ds0, it0.index()) + ds.data@); assert(cat_data(ds0, 0) =~= Seq::<f32>::empty()); }
//@ end
// ------------------------------------------------------------------ configuration files
pub enum Key { DataPath, DataDim, LabelsPath, LabelsDim, LabelsIndex, Count }
pub enum Entry { Int(i64), Text(Seq<char>), Other }
#[verifier::external_body] pub struct Yaml { p: u8 }
impl Yaml {
    pub uninterp spec fn at(&self, k: Key) -> Entry;
    #[verifier::external_body] pub fn entry(&self, k: Key) -> (r: YamlEntry) ensures r.is() == self.at(k) { unimplemented!() }
    pub open spec fn int(&self, k: Key) -> usize { self.at(k)->Int_0 as usize }
    pub open spec fn opt(&self, k: Key) -> Option<usize> { match self.at(k) { Entry::Int(i) => Some(i as usize), _ => None } }
}
#[verifier::external_body] pub struct YamlEntry { p: u8 }
impl YamlEntry {
    pub uninterp spec fn is(&self) -> Entry;
    #[verifier::external_body] pub fn as_i64(&self) -> (r: Option<i64>) ensures r == (match self.is() { Entry::Int(x) => Some(x), _ => None::<i64> }) { unimplemented!() }
    #[verifier::external_body] pub fn as_str(&self) -> (r: Option<&'static str>) ensures (r is Some) == (self.is() is Text), r is Some ==> r->0@ == self.is()->Text_0 { unimplemented!() }
}
#[verifier::external_body] pub struct Text { p: u8 }
pub uninterp spec fn text(p: PathBuf) -> Text;
pub uninterp spec fn parse(t: Text) -> Yaml;
pub open spec fn file(p: PathBuf) -> Yaml { parse(text(p)) }
#[verifier::external_body] pub fn read_text(p: &PathBuf) -> (r: Text) ensures r == text(*p) { unimplemented!() }
#[verifier::external_body] pub fn parse_yaml(t: &Text) -> (r: Yaml) ensures r == parse(*t) { unimplemented!() }
/// paths: a relative pattern is taken from the folder of the configuration file
pub uninterp spec fn path_s(s: Seq<char>) -> PathBuf;
pub uninterp spec fn absolute(p: PathBuf) -> bool;
pub uninterp spec fn folder(p: PathBuf) -> PathBuf;
pub uninterp spec fn joined(p: PathBuf, q: PathBuf) -> PathBuf;
/// the files a pattern matches, in alphabetical order
pub uninterp spec fn globbed(p: PathBuf) -> Seq<PathBuf>;
pub open spec fn listed(pat: Seq<char>, yaml: PathBuf) -> Seq<PathBuf> { let p = path_s(pat); if absolute(p) { globbed(p) } else { globbed(joined(folder(yaml), p)) } }
pub struct MatchOptions { pub case_sensitive: bool }
impl PathBuf {
    #[verifier::external_body] pub fn new(s: &str) -> (r: PathBuf) ensures r == path_s(s@) { unimplemented!() }
    #[verifier::external_body] pub fn is_absolute(&self) -> (r: bool) ensures r == absolute(*self) { unimplemented!() }
    #[verifier::external_body] pub fn parent(&self) -> (r: Option<PathBuf>) ensures r == Some(folder(*self)) { unimplemented!() }
    #[verifier::external_body] pub fn join(&self, q: PathBuf) -> (r: PathBuf) ensures r == joined(*self, q) { unimplemented!() }
    #[verifier::external_body] pub fn to_str(&self) -> (r: Option<PathBuf>) ensures r == Some(*self) { unimplemented!() }
}
#[verifier::external_body] pub fn glob_with(p: &PathBuf, o: MatchOptions) -> (r: Result<Vec<Result<PathBuf, ()>>, ()>)
    ensures r is Ok ==> r->Ok_0@.len() == globbed(*p).len() && forall|i: int| 0 <= i < r->Ok_0@.len() ==> (#[trigger] r->Ok_0@[i]) is Ok ==> r->Ok_0@[i]->Ok_0 == globbed(*p)[i] { unimplemented!() }
//@ fn pointcloud/src/loaders/yaml_loaders.rs get_file_list
//@ subst Path => PathBuf
//@ subst , .. Default :: default () =>
//@ loops 1
//@ spec
    ensures res@ == listed(files_reg@, *yaml_path)
//@ loop 0
    invariant it0.seq().len() == listed(files_reg@, *yaml_path).len(), forall|j: int| 0 <= j < it0.seq().len() ==> (#[trigger] it0.seq()[j]) is Ok ==> it0.seq()[j]->Ok_0 == listed(files_reg@, *yaml_path)[j], paths@ == listed(files_reg@, *yaml_path).subrange(0, it0.index()),
//@ loopstart 0
    proof { assert(entry == it0.seq()[it0.index()]); }
//@ loopend 0
    proof { assert(paths@ =~= listed(files_reg@, *yaml_path).subrange(0, it0.index() + 1)); }
//@ loopafter 0
    proof { assert(paths@ =~= listed(files_reg@, *yaml_path)); }
//@ end
/// the entries a loader reads are there, and the files they name hold whole rows
pub open spec fn loadable(y: Yaml, path: PathBuf, k: Key, d: Key) -> bool { y.at(k) is Text && y.at(d) is Int && ({ let ps = listed(y.at(k)->Text_0, path); ps.len() > 0 && whole(ps, y.int(d)) }) }
/// the numbers of the files an entry names
pub open spec fn loaded(y: Yaml, path: PathBuf, k: Key) -> Seq<f32> { let ps = listed(y.at(k)->Text_0, path); cat(ps, ps.len() as int) }
//@ gsubst let config = fs :: read_to_string (& path) . unwrap_or_else (| _ | refuse ()) ; => let config = read_text(&path) ;
//@ gsubst & YamlLoader :: load_from_str (& config) . unwrap () [0] => parse_yaml(&config)
//@ gsubst params_files ["data_path"] => params_files.entry(Key::DataPath)
//@ gsubst params_files ["data_dim"] => params_files.entry(Key::DataDim)
//@ gsubst params_files ["labels_path"] => params_files.entry(Key::LabelsPath)
//@ gsubst params_files ["labels_dim"] => params_files.entry(Key::LabelsDim)
//@ gsubst params_files ["labels_index"] => params_files.entry(Key::LabelsIndex)
pub open spec fn data_of<M>(r: DataRam<M>, path: PathBuf) -> bool { r.inv() && r.dim == file(path).int(Key::DataDim) && r.data@ == loaded(file(path), path, Key::DataPath) }
//@ fn pointcloud/src/loaders/yaml_loaders.rs ram_from_yaml
//@ sig
    pub fn ram_from_yaml<M>(path: PathBuf) -> (res: PointCloudResult<DataRam<M>>)
//@ spec
    requires loadable(file(path), path, Key::DataPath, Key::DataDim)
    ensures res is Ok ==> data_of(res->Ok_0, path)
//@ subst path . as_ref () => &path
//@ before Ok
    proof { let ps = data_paths@; l_cat_eq(data_set.data_sources@, ps, ps.len() as int); l_whole(ps, data_dim, ps.len() as int); }
//@ end
//@ fn pointcloud/src/loaders/yaml_loaders.rs vec_labeled_ram_from_yaml
//@ sig
    pub fn vec_labeled_ram_from_yaml<M>(path: PathBuf) -> (res: PointCloudResult<SimpleLabeledCloud<DataRam<M>, VecLabels>>)
//@ spec
    requires loadable(file(path), path, Key::DataPath, Key::DataDim), loadable(file(path), path, Key::LabelsPath, Key::LabelsDim)
    ensures res is Ok ==> data_of(res->Ok_0.data, path) && ({ let l = res->Ok_0.labels; l.wf() && l.mask is None && l.label_dim == file(path).int(Key::LabelsDim) && l.labels@ == loaded(file(path), path, Key::LabelsPath) })
//@ subst path . as_ref () => &path
//@ subst convert_glued_memmap_to_ram :: < L2 > (open_memmaps (labels_dim , labels_path) ?) . convert_to_labels () => { let lab0: HashGluedCloud<DataMemmap<L2>> = open_memmaps(labels_dim, labels_path)?; proof { let ps = labels_path@; l_cat_eq(lab0.data_sources@, ps, ps.len() as int); l_whole(ps, labels_dim, ps.len() as int); } convert_glued_memmap_to_ram::<L2>(lab0).convert_to_labels() }
//@ subst convert_glued_memmap_to_ram (open_memmaps (data_dim , data_paths) ?) => { let dat0: HashGluedCloud<DataMemmap<M>> = open_memmaps(data_dim, data_paths)?; proof { let ps = data_paths@; l_cat_eq(dat0.data_sources@, ps, ps.len() as int); l_whole(ps, data_dim, ps.len() as int); } convert_glued_memmap_to_ram(dat0) }
//@ end
// ------------------------------------------------------------------ integer labels from files
/// what one record of a table says about its point: the number in the column asked for; negative numbers and missing columns are no label
pub open spec fn cell(r: Record, c: usize) -> Obs<i64> { if c < r@.len() && r@[c as int].int() is Some && r@[c as int].int()->0 >= 0 { Obs::Val(r@[c as int].int()->0) } else { Obs::Missing } }
pub open spec fn readable(r: Record, c: usize) -> bool { c < r@.len() ==> r@[c as int].int() is Some }
pub open spec fn all_readable(rs: Seq<Record>, c: usize) -> bool { forall|i: int| 0 <= i < rs.len() ==> readable(#[trigger] rs[i], c) }
pub open spec fn csv_labels(rs: Seq<Record>, c: usize) -> Seq<Obs<i64>> { Seq::new(rs.len(), |i: int| cell(rs[i], c)) }
pub open spec fn table(p: PathBuf) -> Seq<Record> { csv(if ext(p) is Gz { gunzip(raw(p)) } else { raw(p) }) }
//@ fn pointcloud/src/loaders/csv_loaders.rs read_csv
//@ sig
    pub fn read_csv<R: Read>(index: usize, path: &PathBuf, mut rdr: Reader<R>) -> (res: PointCloudResult<SmallIntLabels>)
//@ subst val . parse :: < i64 > () . map_err (| _ | { PointCloudError :: ParsingError (ParsingError :: CSVReadError { file_name : path . as_ref () . to_string_lossy () . to_string () , line_number : record . position () . unwrap () . line () as usize , key : vformat () , }) }) => val.parse_i64()
//@ loops 2
//@ spec
    ensures (res is Ok) == all_readable(rdr.recs(), index), res is Ok ==> res->Ok_0.wf() && res->Ok_0.all() == csv_labels(rdr.recs(), index)
//@ start
    let ghost rs = rdr.recs();
//@ subst let mut labels = Vec => let mut labels : Vec<i64> = Vec
//@ loop 0
    invariant it0.seq().len() == rs.len(), forall|j: int| 0 <= j < it0.seq().len() ==> (#[trigger] it0.seq()[j]) is Ok && it0.seq()[j]->Ok_0 == rs[j], labels@.len() == it0.index(), mask@.len() == it0.index(),
        forall|j: int| 0 <= j < it0.index() ==> readable(#[trigger] rs[j], index),
        forall|j: int| 0 <= j < it0.index() ==> cell(#[trigger] rs[j], index) == (if mask@[j] { Obs::Val(labels@[j]) } else { Obs::Missing }),
//@ loopstart 0
    proof { assert(result == it0.seq()[it0.index()]); }
//@ loop 1
    invariant_except_break !__acc1, forall|j: int| 0 <= j < it1.index() ==> #[trigger] mask@[j],
    invariant it1.seq().len() == mask@.len(), forall|j: int| 0 <= j < it1.seq().len() ==> *(#[trigger] it1.seq()[j]) == mask@[j],
    ensures !__acc1 ==> forall|j: int| 0 <= j < mask@.len() ==> #[trigger] mask@[j],
//@ loopstart 1
    proof { assert(*__x2 == mask@[it1.index()]); }
//@ finish
    proof { assert(res->Ok_0.all() =~= csv_labels(rs, index)); }
//@ end
//@ fn pointcloud/src/loaders/csv_loaders.rs open_int_csv
//@ sig
    pub fn open_int_csv(path: &PathBuf, index: usize) -> (res: PointCloudResult<SmallIntLabels>)
//@ subst path . as_ref () . exists () => path.exists()
//@ subst File :: open (& path) => File::open(path)
//@ subst path . as_ref () . extension () . unwrap () == "gz" => path.ext_is_gz()
//@ spec
    ensures (res is Ok) == all_readable(table(*path), index), res is Ok ==> res->Ok_0.wf() && res->Ok_0.all() == csv_labels(table(*path), index)
//@ end
/// label rows in a file of packed floats: one number per row says yes or no, several are the indicator of a class
pub open spec fn one_row(f: Seq<f32>, d: usize, i: int) -> Obs<i64> { if d == 1 { Obs::Val(if f[i]@ > 0.5real { 1i64 } else { 0i64 }) } else { let h = hot(f.subrange(d * i, d * (i + 1)), 0); if h < d { Obs::Val(h as i64) } else { Obs::Missing } } }
pub open spec fn dat_labels(f: Seq<f32>, d: usize) -> Seq<Obs<i64>> { Seq::new((f.len() / d as nat) as nat, |i: int| one_row(f, d, i)) }
pub open spec fn labels_in(p: PathBuf, ix: Option<usize>, dm: Option<usize>) -> Seq<Obs<i64>> { if ext(p) is Dat { dat_labels(floats(p), dm->0) } else { csv_labels(table(p), ix->0) } }
pub open spec fn cat_labels(ps: Seq<PathBuf>, ix: Option<usize>, dm: Option<usize>, n: int) -> Seq<Obs<i64>> decreases n { if n <= 0 { Seq::empty() } else { cat_labels(ps, ix, dm, n - 1) + labels_in(ps[n - 1], ix, dm) } }
pub open spec fn labels_ok(ps: Seq<PathBuf>, dm: Option<usize>) -> bool { ps.len() > 0 && forall|i: int| 0 <= i < ps.len() && ext(#[trigger] ps[i]) is Dat && dm is Some ==> 0 < dm->0 <= i64::MAX && floats(ps[i]).len() % dm->0 as nat == 0 }
/// the postcondition of SmallIntLabels::merge as one sequence
pub proof fn l_merged(a: SmallIntLabels, b: SmallIntLabels, r: SmallIntLabels) requires r.n() == a.n() + b.n(), forall|i: int| 0 <= i < a.n() ==> #[trigger] r.at(i) == a.at(i), forall|i: int| a.n() <= i < r.n() ==> #[trigger] r.at(i) == b.at(i - a.n()) ensures r.all() == a.all() + b.all() { assert(r.all() =~= a.all() + b.all()); }
/// the labels the configuration asks for
pub open spec fn labels_of(l: SmallIntLabels, path: PathBuf) -> bool { let y = file(path); let ps = listed(y.at(Key::LabelsPath)->Text_0, path); l.wf() && l.all() == cat_labels(ps, y.opt(Key::LabelsIndex), y.opt(Key::LabelsDim), ps.len() as int) }
//@ fn pointcloud/src/loaders/yaml_loaders.rs labels_from_yaml
//@ opt collect_into Result
//@ opt keep_str
//@ sig
    pub fn labels_from_yaml(path: PathBuf) -> (res: PointCloudResult<SmallIntLabels>)
//@ subst let path : & Path = path . as_ref () ; => let ghost path0 = path ; let path : &PathBuf = &path ;
//@ subst path . extension () . unwrap () . to_str () . unwrap () => path.ext()
//@ subst "csv" => Ext::Csv
//@ subst "gz" => Ext::Gz
//@ subst "dat" => Ext::Dat
//@ subst (& path , index) => (path, index)
//@ subst (dim , & path) => (dim, path)
//@ subst dim . cmp (& 1) => vcmp(dim, 1)
//@ subst let mut __acc1 = Vec => let mut __acc1 : Vec<SmallIntLabels> = Vec
//@ subst let __m3 = => let __m3 : PointCloudResult<SmallIntLabels> =
//@ subst let mut __acc7 = None => let mut __acc7 : Option<SmallIntLabels> = None
//@ loops 2
//@ spec
    requires file(path).at(Key::LabelsPath) is Text, labels_ok(listed(file(path).at(Key::LabelsPath)->Text_0, path), file(path).opt(Key::LabelsDim))
    ensures res is Ok ==> labels_of(res->Ok_0, path)
//@ loop 0
    invariant it0.seq().len() == labels_path@.len(), forall|j: int| 0 <= j < it0.seq().len() ==> *(#[trigger] it0.seq()[j]) == labels_path@[j], __acc1@.len() == it0.index(),
        forall|j: int| 0 <= j < __acc1@.len() ==> (#[trigger] __acc1@[j]).wf() && __acc1@[j].all() == labels_in(labels_path@[j], labels_index, labels_dim),
//@ loopstart 0
    proof { assert(*path == labels_path@[it0.index()]); }
//@ loopbefore 1
    let ghost ls = label_set@;
//@ loop 1
    invariant it1.seq() == ls, (__acc7 is None) == (it1.index() == 0), __acc7 is Some ==> __acc7->0.wf() && __acc7->0.all() == cat_labels(labels_path@, labels_index, labels_dim, it1.index()),
//@ loopstart 1
    let ghost a0 = __acc7; let ghost k = it1.index();
    proof { assert(__x8 == ls[it1.index()]); assert(cat_labels(labels_path@, labels_index, labels_dim, 0) =~= Seq::empty()); }
//@ loopend 1
    proof { assert(__acc7->0.all() =~= cat_labels(labels_path@, labels_index, labels_dim, k + 1)) by { if a0 is Some { l_merged(a0->0, ls[k], __acc7->0); } } }
//@ end
//@ fn pointcloud/src/loaders/yaml_loaders.rs labeled_ram_from_yaml
//@ sig
    pub fn labeled_ram_from_yaml<M>(path: PathBuf) -> (res: PointCloudResult<SimpleLabeledCloud<DataRam<M>, SmallIntLabels>>)
//@ subst labels_from_yaml (& path) => labels_from_yaml (path)
//@ subst ram_from_yaml (& path) => ram_from_yaml (path)
//@ spec
    requires loadable(file(path), path, Key::DataPath, Key::DataDim), file(path).at(Key::LabelsPath) is Text, labels_ok(listed(file(path).at(Key::LabelsPath)->Text_0, path), file(path).opt(Key::LabelsDim))
    ensures res is Ok ==> data_of(res->Ok_0.data, path) && labels_of(res->Ok_0.labels, path)
//@ end
// ------------------------------------------------------------------ trees from configuration files
#[verifier::external_body] pub struct GokoError { p: u8 }
impl From<PointCloudError> for GokoError { #[verifier::external_body] fn from(e: PointCloudError) -> GokoError { unimplemented!() } }
pub type GokoResult<T> = Result<T, GokoError>;
pub trait Cloud: Sized { spec fn rows(&self) -> int; spec fn ready(&self) -> bool; fn len(&self) -> (r: usize) requires self.ready() ensures r == self.rows(); }
impl<M> Cloud for DataRam<M> {
    open spec fn rows(&self) -> int { self.data@.len() as int / self.dim as int }
    open spec fn ready(&self) -> bool { self.inv() }
    /// CONTRACT decided by unit `clouds`
    #[verifier::external_body] fn len(&self) -> (r: usize) { unimplemented!() }
}
impl<D: Cloud, L> Cloud for SimpleLabeledCloud<D, L> {
    open spec fn rows(&self) -> int { self.data.rows() }
    open spec fn ready(&self) -> bool { self.data.ready() }
    #[verifier::external_body] fn len(&self) -> (r: usize) { unimplemented!() }
}
/// CONTRACTS decided by units `config` (the settings of a file) and `build` (a tree over the cloud it is given)
#[verifier::external_body] #[verifier::accept_recursive_types(D)] pub struct CoverTreeWriter<D> { d: D }
impl<D> CoverTreeWriter<D> { pub uninterp spec fn cloud(&self) -> D; pub uninterp spec fn settings(&self) -> CoverTreeBuilder; }
#[verifier::external_body] pub struct CoverTreeBuilder { p: u8 }
pub uninterp spec fn settings(y: Yaml) -> CoverTreeBuilder;
impl CoverTreeBuilder {
    #[verifier::external_body] pub fn from_yaml(p: &PathBuf) -> (r: CoverTreeBuilder) ensures r == settings(file(*p)) { unimplemented!() }
    #[verifier::external_body] pub fn build<D>(&self, c: D) -> (r: GokoResult<CoverTreeWriter<D>>) ensures r is Ok ==> r->Ok_0.cloud() == c && r->Ok_0.settings() == *self { unimplemented!() }
}
/// a count in the configuration is the number of rows there are
pub open spec fn counted<C: Cloud>(c: C, y: Yaml) -> bool { y.at(Key::Count) is Int ==> c.rows() == y.int(Key::Count) }
//@ gsubst let config = read_to_string (& path) . expect ("Unable to read config file") ; => let config = read_text(&path) ;
//@ gsubst let params_files = YamlLoader :: load_from_str (& config) . unwrap () ; =>
//@ gsubst & params_files [0] => parse_yaml(&config)
//@ gsubst params ["count"] => params.entry(Key::Count)
//@ gsubst Arc :: new (point_cloud) => point_cloud
//@ fn goko/src/utils.rs cover_tree_from_yaml
//@ sig
    pub fn cover_tree_from_yaml(path: PathBuf) -> (res: GokoResult<CoverTreeWriter<DataRam<L2>>>)
//@ subst ram_from_yaml :: < _ , L2 > (& path) => ram_from_yaml::<L2>(path)
//@ spec
    requires loadable(file(path), path, Key::DataPath, Key::DataDim)
    ensures res is Ok ==> data_of(res->Ok_0.cloud(), path) && counted(res->Ok_0.cloud(), file(path)) && res->Ok_0.settings() == settings(file(path))
//@ end
//@ fn goko/src/utils.rs cover_tree_from_labeled_yaml
//@ sig
    pub fn cover_tree_from_labeled_yaml(path: PathBuf) -> (res: GokoResult<CoverTreeWriter<SimpleLabeledCloud<DataRam<L2>, SmallIntLabels>>>)
//@ subst labeled_ram_from_yaml :: < _ , L2 > (& path) => labeled_ram_from_yaml::<L2>(path)
//@ spec
    requires loadable(file(path), path, Key::DataPath, Key::DataDim), file(path).at(Key::LabelsPath) is Text, labels_ok(listed(file(path).at(Key::LabelsPath)->Text_0, path), file(path).opt(Key::LabelsDim))
    ensures res is Ok ==> data_of(res->Ok_0.cloud().data, path) && labels_of(res->Ok_0.cloud().labels, path) && counted(res->Ok_0.cloud(), file(path)) && res->Ok_0.settings() == settings(file(path))
//@ end
} // verus!
fn main() {}
