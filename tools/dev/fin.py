s=open('/tmp/bugs/b2.py').read()
i=s.index("dict(id='S15'"); s=s[:i]
s+='''dict(id='S15',property='P11',edits=[('goko/src/plugins/discrete/baseline.rs','/ ((self.sequence_len[index] - self.sequence_len[index - 1]) as f64);','/ ((self.sequence_len[index] - self.sequence_len[0]) as f64);')],
 needs='a baseline with at least three recorded lengths, asked between the second and the third or later',
 what='the interpolation weight uses the distance from the first recorded length, so the answer is off',
 main=\'\'\'use goko::plugins::discrete::prelude::*;
fn main() {
    let s = |x: f64| KLDivergenceBaselineStats { max: (x, x * x), min: (x, x * x), nz_count: (x, x * x), moment1_nz: (x, x * x), moment2_nz: (x, x * x) };
    let b = KLDivergenceBaseline { num_sequences: 1, sequence_len: vec![2, 4, 8, 16], stats: vec![s(1.0), s(2.0), s(10.0), s(20.0)] };
    for (q, want) in [(2usize, 1.0f64), (3, 1.5), (4, 2.0), (5, 4.0), (6, 6.0), (7, 8.0), (8, 10.0), (12, 15.0)].iter() {
        assert!((b.stats(*q).max.0 - want).abs() < 1e-9, "at {}: {} expected {}", q, b.stats(*q).max.0, want);
        assert!((b.stats(*q).moment1_nz.0 - want).abs() < 1e-9);
    }
}
\'\'\'),
dict(id='S14',property='P08',edits=[('goko/src/monomap/write.rs',"            MonoOperation::Insert(key, value) => {\\n                inner.data.insert(key, value);","            MonoOperation::Insert(key, value) => {\\n                inner.data.entry(key).or_insert(value);")],
 needs='a key that is inserted a second time after the first refresh, and then two refreshes',
 what='the second copy of the map keeps the older value, so readers see the newer one only every other refresh',
 main=\'\'\'#![allow(dead_code, unused)]
#[path = "/repo/goko/src/monomap/mod.rs"]
mod monomap;
use monomap::*;
fn main() {
    let (r, mut w) = new::<i32, i64>();
    w.insert(1, 10);
    w.refresh();
    w.refresh();
    w.insert(1, 20);
    for k in 0..4 { w.refresh(); assert_eq!(r.get_and(&1, |v| *v), Some(20), "refresh {}", k); }
    w.remove(1);
    w.insert(1, 30);
    for k in 0..4 { w.refresh(); assert_eq!(r.get_and(&1, |v| *v), Some(30), "refresh {}", k); }
}
\'\'\',cargo=CARGO.replace('serde_json = "1"','serde_json = "1"\\nfxhash = "0.2.1"\\nhashbrown = { version = "0.11.2", features = ["rayon"] }')),
dict(id='S16',property='P12',edits=[('goko/src/plugins/utils.rs',"            } else {\\n                indexes.push(*my_node.center_index());\\n            }","            } else if indexes.len() != 1 {\\n                indexes.push(*my_node.center_index());\\n            }")],
 needs='a leaf with exactly one singleton besides its centre',
 what='the centre is missing from the covered indexes of that leaf and of all its ancestors',
 main=T+\'\'\'use goko::plugins::utils::*;
fn main() {
    let mut r = Lcg(21);
    for round in 0..60u64 {
        let n = 2 + (round as usize % 30);
        let d = data(&mut r, n, 2, round);
        let mut w = builder(2.0, true, 1 + round as usize % 4, -12, round, false).build(Arc::new(Cloud::new(d, 2).unwrap())).unwrap();
        w.add_plugin(GokoCoverageIndexes::new());
        let rd = w.reader();
        let m = snap(&rd);
        for (a, _) in &m {
            let mut v = vec![];
            below(&m, *a, &mut v);
            v.sort();
            let mut g = rd.get_node_plugin_and::<CoverageIndexes, _, _>(*a, |p| p.point_indexes().to_vec()).unwrap();
            g.sort();
            assert_eq!(g, v, "round {} node {:?}", round, a);
        }
    }
}
\'\'\'),
dict(id='S17',property='P15',edits=[('pointcloud/src/base_traits.rs',"                            Err(e) => {\\n                                *error.lock().unwrap() = Err(e);\\n                            }\\n                        }\\n                    }\\n                });\\n            (error.into_inner().unwrap())?;\\n            Ok(dists)\\n        } else {\\n            indexes","                            Err(_e) => {\\n                                *d = f32::MAX;\\n                            }\\n                        }\\n                    }\\n                });\\n            (error.into_inner().unwrap())?;\\n            Ok(dists)\\n        } else {\\n            indexes")],
 needs='a batch large enough for the parallel path that contains an index past the end',
 what='the batch answers with a made-up distance instead of an error',
 main=\'\'\'use pointcloud::*;
use pointcloud::data_sources::DataRam;
fn main() {
    let n = 2000usize;
    let c = DataRam::<L2>::new((0..n).map(|i| i as f32 * 0.5).collect(), 1).unwrap();
    let q = [0.0f32];
    for size in [5usize, 290, 310, 900, 1900].iter() {
        let ix: Vec<usize> = (0..*size).collect();
        let d = c.distances_to_point(&&q[..], &ix).unwrap();
        assert_eq!(d, ix.iter().map(|i| *i as f32 * 0.5).collect::<Vec<f32>>());
        let d = c.distances_to_point_index(0, &ix).unwrap();
        assert_eq!(d, ix.iter().map(|i| *i as f32 * 0.5).collect::<Vec<f32>>());
        let mut bad = ix.clone();
        bad[size / 2] = n + 3;
        assert!(c.distances_to_point(&&q[..], &bad).is_err(), "size {}", size);
        assert!(c.distances_to_point_index(0, &bad).is_err(), "size {}", size);
    }
}
\'\'\'),
dict(id='S18',property='P16',edits=[('pointcloud/src/glued_data_cloud.rs',"        let mut new_addresses = HashMap::with_hasher(FxBuildHasher::default());\\n        for (old_index, new_index)","        let mut new_addresses = self.addresses.clone();\\n        for (old_index, new_index)")],
 needs='a re-indexing to a set of indexes other than the present ones',
 what='the old indexes keep answering beside the new ones and the length grows',
 main=\'\'\'use pointcloud::*;
use pointcloud::data_sources::DataRam;
use pointcloud::glued_data_cloud::HashGluedCloud;
fn main() {
    let mut g = HashGluedCloud::new(vec![DataRam::<L2>::new(vec![0.0, 1.0, 2.0], 1).unwrap(), DataRam::<L2>::new(vec![3.0, 4.0], 1).unwrap()]);
    let map: Vec<(usize, usize)> = (0..5).map(|i| (i, 8 - i)).collect();
    g.reindex(&map).unwrap();
    assert_eq!(g.len(), 5);
    for i in 0..5usize { assert_eq!(g.point(8 - i).unwrap()[0], i as f32); }
    for i in 0..4usize { assert!(g.point(i).is_err(), "index {} still answers", i); }
    let mut ix = g.reference_indexes();
    ix.sort();
    assert_eq!(ix, vec![4, 5, 6, 7, 8]);
}
\'\'\'),
dict(id='S19',property='P19',edits=[('pointcloud/src/points/mod.rs',"        let mut v = vec![0.0; dim];\\n\\n        for (xi, i)","        let mut v: Vec<f32> = vec![0.0; dim];\\n        if self.values().len() + 1 >= dim {\\n            v = self.values().iter().map(|x| (*x).into()).collect();\\n            v.resize(dim, 0.0);\\n            return v;\\n        }\\n\\n        for (xi, i)")],
 needs='a sparse point that stores all coordinates but one, and that one not the last',
 what='the dense expansion shifts the values behind the gap and disagrees with the iterator',
 main=\'\'\'use pointcloud::*;
use pointcloud::points::SparseRef;
fn main() {
    for dim in 1..7usize {
        for mask in 0..(1u32 << dim) {
            let ix: Vec<u32> = (0..dim as u32).filter(|i| mask & (1 << i) != 0).collect();
            let vs: Vec<f32> = ix.iter().map(|i| *i as f32 + 1.5).collect();
            let p: SparseRef<f32, u32> = SparseRef::new(dim, &vs, &ix);
            let mut want = vec![0.0f32; dim];
            for (v, i) in vs.iter().zip(&ix) { want[*i as usize] = *v; }
            assert_eq!(p.dense(), want, "stored {:?} of {}", ix, dim);
            assert_eq!(p.dense_iter().collect::<Vec<f32>>(), want);
        }
    }
}
\'\'\'),
dict(id='S20',property='P20',edits=[('serve_goko/src/parsers/mod.rs',"                    Err(e) => {\\n                        this.body_buffer.clear();","                    Err(e) => {"),('serve_goko/src/parsers/mod.rs',"        self.request = req;\\n        self.body_buffer.clear();","        self.request = req;")],
 needs='a request whose body breaks off half-way, followed by a good request on the same connection',
 what='the bytes of the broken request are put in front of the next one, which is then misread',
 main=\'\'\'use goko::*;
use hyper::{Body, Request};
use pointcloud::*;
use serve_goko::core::CoreWriter;
use serve_goko::http::{GokoHttp, MakeGokoHttp};
use serve_goko::parsers::MsgPackDense;
use std::sync::Arc;
use tower::Service;
type Cloud = DefaultLabeledCloud<L2>;
async fn ask(c: &mut GokoHttp<Cloud, MsgPackDense>, body: Body) -> Option<String> {
    let r = Request::builder().method("GET").uri("/knn?k=3").body(body).unwrap();
    match tokio::time::timeout(std::time::Duration::from_secs(20), c.call(r)).await.expect("no answer") {
        Ok(r) if r.status().as_u16() == 200 => Some(String::from_utf8(hyper::body::to_bytes(r.into_body()).await.unwrap().to_vec()).unwrap()),
        _ => None,
    }
}
fn main() {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    rt.block_on(async {
        let data: Vec<f32> = (0..40).map(|x| (x * 7 % 11) as f32 + 0.1 * x as f32).collect();
        let mut b = CoverTreeBuilder::new();
        b.set_verbosity(0).set_rng_seed(0);
        let w = b.build(Arc::new(Cloud::new_simple(data, 2, vec![0; 20]))).unwrap();
        let mut maker: MakeGokoHttp<Cloud, MsgPackDense> = MakeGokoHttp::new(Arc::new(CoreWriter::new(w)));
        let mut one = maker.call(()).await.unwrap();
        let mut two = maker.call(()).await.unwrap();
        let good = rmp_serde::to_vec(&vec![1.0f32, 2.0]).unwrap();
        let other = rmp_serde::to_vec(&vec![30.0f32, -20.0]).unwrap();
        let want = ask(&mut two, Body::from(good.clone())).await.expect("an answer");
        assert_eq!(ask(&mut one, Body::from(good.clone())).await.as_ref(), Some(&want));
        let parts: Vec<Result<Vec<u8>, std::io::Error>> = vec![Ok(other), Err(std::io::Error::new(std::io::ErrorKind::Other, "cut"))];
        let _ = ask(&mut one, Body::wrap_stream(futures_util::stream::iter(parts))).await;
        assert_eq!(ask(&mut one, Body::from(good)).await, Some(want));
    });
}
\'\'\',cargo=CARGO.replace('serde_json = "1"','serde_json = "1"\\nserve_goko = { path = "/repo/serve_goko" }\\nhyper = { version = "0.14", features = ["full"] }\\ntokio = { version = "1", features = ["full"] }\\ntower = "0.4"\\nrmp-serde = "0.15"\\nfutures-util = "0.3"')),
]
'''
import re
src=open('/tmp/bugs/mk.py').read()
cg=re.search(r"CARGO='''(.*?)'''",src,re.S).group(1)
s="CARGO='''"+cg+"'''\n"+s
open('/tmp/bugs/b2.py','w').write(s)
