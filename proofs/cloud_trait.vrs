#[verifier::external_body] pub struct VStr { s: u8 }
/// a reference to a point: the point it stands for and its coordinates in order (decided by unit `points`)
pub trait PRef<P>: Sized {
    spec fn pt(&self) -> P;
    spec fn vw(&self) -> Seq<f32>;
    fn dense_iter(&self) -> (r: Vec<f32>) ensures r@ == self.vw();
}
impl<'a, P, T: PRef<P>> PRef<P> for &'a T {
    open spec fn pt(&self) -> P { (**self).pt() }
    open spec fn vw(&self) -> Seq<f32> { (**self).vw() }
    fn dense_iter(&self) -> (r: Vec<f32>) { (**self).dense_iter() }
}
/// CONTRACT of a point cloud: every lookup is a function of the index (or name) asked for
pub trait PointCloud: Sized {
    type Pt; type Ref: PRef<Self::Pt>; type Label; type LabelSummary: Summary<Label = Self::Label>; type Metadata; type MetaSummary: Summary<Label = Self::Metadata>;
    /// what the constructors establish
    spec fn inv(&self) -> bool;
    spec fn n(&self) -> int;
    spec fn d(&self) -> int;
    spec fn point_s(&self, i: int) -> PointCloudResult<Self::Ref>;
    spec fn label_s(&self, i: int) -> PointCloudResult<Option<&Self::Label>>;
    spec fn meta_s(&self, i: int) -> PointCloudResult<Option<&Self::Metadata>>;
    spec fn name_s(&self, i: int) -> PointCloudResult<VString>;
    spec fn index_s(&self, n: VStr) -> PointCloudResult<usize>;
    fn len(&self) -> (r: usize) requires self.inv() ensures r == self.n();
    fn is_empty(&self) -> (r: bool) requires self.inv() ensures r == (self.n() == 0);
    fn dim(&self) -> (r: usize) requires self.inv() ensures r == self.d();
    fn point(&self, i: usize) -> (r: PointCloudResult<Self::Ref>) requires self.inv() ensures r == self.point_s(i as int), r is Ok ==> r->Ok_0.vw().len() == self.d();
    fn label(&self, i: usize) -> (r: PointCloudResult<Option<&Self::Label>>) requires self.inv() ensures r == self.label_s(i as int);
    fn metadata(&self, i: usize) -> (r: PointCloudResult<Option<&Self::Metadata>>) requires self.inv() ensures r == self.meta_s(i as int);
    fn name(&self, i: usize) -> (r: PointCloudResult<VString>) requires self.inv() ensures r == self.name_s(i as int);
    fn index(&self, n: &VStr) -> (r: PointCloudResult<usize>) requires self.inv() ensures r == self.index_s(*n);
}
