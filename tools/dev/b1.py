HEAD_TREE='''use goko::*;
use pointcloud::*;
use pointcloud::data_sources::DataRam;
use std::sync::Arc;
struct Lcg(u64);
impl Lcg { fn next(&mut self) -> f32 { self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); ((self.0 >> 40) as f32) / ((1u64 << 24) as f32) } }
'''
HEAD_CAT='''use goko::*;
use goko::plugins::discrete::prelude::*;
use pointcloud::*;
use pointcloud::data_sources::DataRam;
use std::sync::Arc;
fn reader() -> CoverTreeReader<DataRam<L2>> {
    let mut b = CoverTreeBuilder::new();
    b.set_verbosity(0).set_rng_seed(0);
    let w = b.build(Arc::new(DataRam::<L2>::new(vec![0.0, 1.0, 2.0], 1).unwrap())).unwrap();
    w.reader()
}
const HOME: (i32, usize) = (9, 0);
/// counts seen at HOME: one observation per entry
fn counts(obs: &[Option<(i32, usize)>]) -> Categorical {
    let mut t = BayesCategoricalTracker::new(0, reader());
    for o in obs {
        let mut p = vec![(0.0, HOME)];
        if let Some(c) = o { p.push((0.0, *c)); }
        t.add_path(p);
    }
    t.running_evidence().get(&HOME).cloned().unwrap_or_else(Categorical::new)
}
'''
BUGS=[
dict(id='S01',property='P04',edits=[('goko/src/covertree/query_tools/knn_query_heap.rs','let emd = (d - self.scale_base.powi(*si)).max(0.0);','let emd = (d - self.scale_base.powi(*si - 1)).max(0.0);')],
 needs='k points known and a subtree whose nearest member lies between the true and the too tight lower bound',
 what='the lower bound of a subtree uses the next smaller scale, so subtrees that hold a nearer point are pruned',
 main=HEAD_TREE+'''fn main() {
    let mut r = Lcg(7);
    for round in 0..60u64 {
        let n = 5 + (round as usize % 40);
        let data: Vec<f32> = (0..n * 2).map(|_| { let x = r.next(); if x > 0.6 { x * 100.0 } else { x } }).collect();
        let pc = Arc::new(DataRam::<L2>::new(data.clone(), 2).unwrap());
        let mut b = CoverTreeBuilder::new();
        b.set_leaf_cutoff(1).set_min_res_index(-20).set_scale_base(1.5).set_use_singletons(round % 2 == 0).set_rng_seed(round).set_verbosity(0);
        let tree = b.build(pc.clone()).unwrap();
        let reader = tree.reader();
        let total: usize = n;
        if round % 2 == 1 { continue; }
        for k in 1..=n.min(6) {
            let q = [r.next() * 50.0, r.next()];
            let got = reader.knn(&&q[..], k).unwrap();
            let mut all: Vec<f32> = (0..n).map(|i| ((data[2 * i] - q[0]).powi(2) + (data[2 * i + 1] - q[1]).powi(2)).sqrt()).collect();
            all.sort_by(|a, b| a.partial_cmp(b).unwrap());
            assert_eq!(got.len(), k.min(total), "k {} n {}", k, n);
            for (i, (d, _)) in got.iter().enumerate() { assert!((d - all[i]).abs() <= 1e-3 * (1.0 + all[i]), "k {} n {} got {:?} want {:?}", k, n, got, &all[..k]); }
        }
    }
}
'''),
dict(id='S02',property='P13',edits=[('goko/src/plugins/gaussians/diag_gaussian.rs','        if self.count != 0 {\n            self.moment1','        if self.count > 1 {\n            self.moment1')],
 needs='a summary from which the only remaining point is removed',what='removing the last point leaves it in the moments and the count',
 main='''use goko::plugins::gaussians::*;
fn main() {
    let mut g = DiagGaussian::new(2);
    g.add_point(&&[1.0f32, 2.0][..]);
    g.add_point(&&[3.0f32, -1.0][..]);
    g.remove_point(&&[1.0f32, 2.0][..]);
    assert_eq!(g.count(), 1);
    g.remove_point(&&[3.0f32, -1.0][..]);
    assert_eq!(g.count(), 0);
    g.add_point(&&[5.0f32, 5.0][..]);
    assert_eq!(g.mean(), vec![5.0, 5.0]);
    assert_eq!(g.count(), 1);
}
'''),
dict(id='S03',property='P14',edits=[('pointcloud/src/metrics/l2_f32.rs','''        while let Some((_li, lv)) = l_tr {
            total += *lv * *lv;
            l_tr = long_iter.next();
        }
        total''','''        for (_li, lv) in long_iter {
            total += *lv * *lv;
        }
        total''')],
 needs='a sparse pair where the longer side has an index past the last index of the shorter that is already read',what='the coordinate read ahead is left out of the distance',
 main='''use pointcloud::metrics::*;
use pointcloud::points::*;
use pointcloud::*;
fn main() {
    let a = SparseRef::<f32, u32>::new(10, &[3.0, 4.0], &[1, 7]);
    let b = SparseRef::<f32, u32>::new(10, &[1.0], &[1]);
    let d = <L2 as Metric<RawSparse<f32, u32>>>::dist(&a, &b);
    assert!((d * d - 20.0).abs() < 1e-3, "{}", d);
    let c = SparseRef::<f32, u32>::new(10, &[1.0, 2.0], &[1, 7]);
    let d = <L2 as Metric<RawSparse<f32, u32>>>::dist(&a, &c);
    assert!((d * d - 8.0).abs() < 1e-3, "{}", d);
}
'''),
dict(id='S04',property='P09',edits=[('goko/src/plugins/discrete/dirichlet.rs',"""    pub fn add_evidence(&mut self, other: &Categorical) {
        for""","""    pub fn add_evidence(&mut self, other: &Categorical) {
        if self.child_counts.is_empty() {
            self.child_counts = other.child_counts.clone();
            self.singleton_count = other.singleton_count;
            return;
        }
        for""")],
 needs='a Dirichlet with singleton weight and no child categories yet, to which evidence is added',what='the singleton weight held before is thrown away, so weights are no longer the sum of what was added',
 main=HEAD_CAT+'''fn main() {
    let mut d = Dirichlet::new();
    d.add_observation(None);
    d.add_observation(None);
    d.add_evidence(&counts(&[Some((3, 1)), None, Some((3, 1))]));
    assert!((d.total() - 5.0).abs() < 1e-9, "{}", d.total());
    let (v, s) = d.prob_vector().unwrap();
    assert!((s - 0.6).abs() < 1e-9 && v.len() == 1);
}
'''),
dict(id='S05',property='P17',edits=[('pointcloud/src/base_traits.rs','        self.errors += other.errors;\n    }\n\n    /// a refernce','        self.errors = self.errors.max(other.errors);\n    }\n\n    /// a refernce')],
 needs='two summaries that both saw failed lookups, combined',what='failed lookups of one side are lost when summaries are combined',
 main='''use pointcloud::*;
use pointcloud::summaries::*;
use pointcloud::pc_errors::*;
fn main() {
    let mut a = SummaryCounter::<CategorySummary>::default();
    let mut b = SummaryCounter::<CategorySummary>::default();
    a.add(Err(PointCloudError::data_access(0, "x".to_string())));
    b.add(Err(PointCloudError::data_access(1, "x".to_string())));
    b.add(Err(PointCloudError::data_access(2, "x".to_string())));
    b.add(Ok(Some(&4)));
    a.combine(&b);
    assert_eq!(a.errors(), 3);
    assert_eq!(a.count(), 4);
}
'''),
dict(id='S06',property='P18',edits=[('pointcloud/src/label_sources/mod.rs','''                            .get(self.label_dim * (*i as usize)..self.label_dim * (*i as usize + 1))
                            .unwrap(),
                    );
                } else {
                    nones += 1;''','''                            .get(self.label_dim * (*i as usize)..self.label_dim * (*i as usize + 1))
                            .unwrap(),
                    );
                } else if nones == 0 {
                    nones = 1;''')],
 needs='a vector label source with a mask, summarised over two unlabelled points',what='only one of the unlabelled points is counted as missing',
 main='''use pointcloud::*;
use pointcloud::label_sources::*;
fn main() {
    let l = VecLabels::new(vec![0.0, 1.0, 1.0, 0.0, 0.5, 0.5], 2, Some(vec![false, true, false]));
    let s = l.label_summary(&[0, 1, 2]).unwrap();
    assert_eq!(s.nones(), 2);
    assert_eq!(s.count(), 3);
}
'''),
dict(id='S07',property='P10',edits=[('goko/src/plugins/discrete/dirichlet.rs',"""                Ok(ind) => self.child_counts[ind].1,
                Err(_) => return None,
            };

            my_total_lng""","""                Ok(ind) => self.child_counts[ind].1,
                Err(_) => continue,
            };

            my_total_lng""")],
 needs='evidence in a category the prior does not have',what='the posterior divergence reports a number, silently leaving the unknown category out, where it should be absent',
 main=HEAD_CAT+'''fn main() {
    let mut d = Dirichlet::new();
    d.add_observation(None);
    d.add_observation(Some((3, 1)));
    assert!(d.posterior_kl_divergence(&counts(&[Some((3, 1)), None])).is_some());
    assert!(d.posterior_kl_divergence(&counts(&[Some((2, 7)), None])).is_none());
    assert!(d.posterior_kl_divergence(&counts(&[Some((3, 1)), Some((4, 7))])).is_none());
}
'''),
]
