CARGO='''[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
goko = { path = "/repo/goko" }
pointcloud = { path = "/repo/pointcloud" }
rand = { version = "0.8.3", features = ["small_rng"] }
serde_json = "1"
[[bin]]
name = "demo"
path = "main.rs"
[profile.dev]
debug = 0
'''
T='''use goko::*;
use pointcloud::*;
use pointcloud::data_sources::DataRam;
use std::sync::Arc;
use std::collections::{BTreeMap, BTreeSet};
type Cloud = DataRam<L2>;
type Addr = (i32, usize);
struct Lcg(u64);
impl Lcg { fn next(&mut self) -> f32 { self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); ((self.0 >> 40) as f32) / ((1u64 << 24) as f32) } }
fn builder(base: f32, single: bool, cutoff: usize, minres: i32, seed: u64, first: bool) -> CoverTreeBuilder {
    let mut b = if first {
        let p = std::env::temp_dir().join(format!("demo_first_{}.yml", std::process::id()));
        std::fs::write(&p, "---\\npartition_type: first\\n").unwrap();
        let b = CoverTreeBuilder::from_yaml(&p);
        std::fs::remove_file(&p).unwrap();
        b
    } else { CoverTreeBuilder::new() };
    b.set_scale_base(base).set_use_singletons(single).set_leaf_cutoff(cutoff).set_min_res_index(minres).set_rng_seed(seed).set_verbosity(0);
    b
}
#[derive(Clone, Debug, PartialEq)]
struct N { parent: Option<Addr>, radius: u32, count: usize, nested: Option<i32>, kids: Vec<Addr>, sing: Vec<usize> }
fn snap(r: &CoverTreeReader<Cloud>) -> BTreeMap<Addr, N> {
    let mut m = BTreeMap::new();
    for (_si, l) in r.layers() {
        l.for_each_node(|_pi, n| { m.insert(n.address(), N { parent: n.parent_address(), radius: n.radius().to_bits(), count: n.coverage_count(), nested: n.children().map(|c| c.0), kids: n.children().map(|c| c.1.to_vec()).unwrap_or(vec![]), sing: n.singletons().to_vec() }); });
    }
    m
}
fn below(m: &BTreeMap<Addr, N>, a: Addr, out: &mut Vec<usize>) {
    let n = m.get(&a).unwrap_or_else(|| panic!("no node at {:?}", a));
    out.extend(&n.sing);
    match n.nested {
        None => out.push(a.1),
        Some(s) => { below(m, (s, a.1), out); for k in &n.kids { below(m, *k, out); } }
    }
}
fn data(r: &mut Lcg, n: usize, dim: usize, kind: u64) -> Vec<f32> {
    (0..n * dim).map(|i| { let x = r.next(); match kind % 3 { 0 => x, 1 => if x > 0.7 { x * 100.0 } else { x }, _ => (i as f32) * 0.125 + (x * 4.0).floor() } }).collect()
}
'''
BUGS=[
dict(id='S08',property='P01',edits=[('goko/src/covertree/builders.rs','if !inserts.is_empty() || !(nested_potential.len() == 1 && parameters.use_singletons) {','if !(nested_potential.len() == 1 && parameters.use_singletons) {')],
 needs='a node, split by the nearest rule with singletons on, whose own centre ends up alone while another child keeps two or more points',
 what='the children of such a node are built but never attached to it: their points are no longer reachable and the coverage counts are short',
 main=T+'''fn main() {
    let mut r = Lcg(11);
    for round in 0..200u64 {
        let (n, dim) = (3 + (round as usize % 30), 1 + (round as usize % 3));
        let d = data(&mut r, n, dim, round);
        let w = builder(1.5, true, 1, -20, round, false).build(Arc::new(Cloud::new(d, dim).unwrap())).unwrap();
        let rd = w.reader();
        let m = snap(&rd);
        let mut all = vec![];
        below(&m, rd.root_address(), &mut all);
        all.sort();
        assert_eq!(all, (0..n).collect::<Vec<_>>(), "round {}", round);
        for (a, node) in &m { let mut v = vec![]; below(&m, *a, &mut v); assert_eq!(node.count, v.len(), "{:?}", a); }
    }
}
'''),
dict(id='S09',property='P02',edits=[('goko/src/covertree/data_caches.rs','            if *d < radius {\n                close_index.push(*i);','            if *d <= radius {\n                close_index.push(*i);')],
 needs='the first rule and a point exactly at a power of the scale base from a newly picked centre',
 what='a child keeps a point that lies on, not inside, its covering ball',
 main=T+'''fn main() {
    let mut r = Lcg(5);
    for round in 0..200u64 {
        let n = 4 + (round as usize % 20);
        let d: Vec<f32> = (0..n).map(|_| (r.next() * 33.0).floor()).collect();
        let w = builder(2.0, round % 2 == 0, 1, -4, round, true).build(Arc::new(Cloud::new(d.clone(), 1).unwrap())).unwrap();
        let rd = w.reader();
        let m = snap(&rd);
        for (a, _) in &m {
            if *a == rd.root_address() { continue; }
            let mut v = vec![];
            below(&m, *a, &mut v);
            for p in v { assert!((d[p] - d[a.1]).abs() < (2.0f32).powi(a.0), "round {}: point {} ({}) in node {:?} ({})", round, p, d[p], a, d[a.1]); }
        }
    }
}
'''),
dict(id='S10',property='P03',edits=[('goko/src/covertree/builders.rs','''                    .insert_child((split_scale_index, new_close.center_index), new_close.len())?;
                let new_node = BuilderNode {
                    parent_address: Some(parent_address),''','''                    .insert_child((split_scale_index, new_close.center_index), new_close.len())?;
                let new_node = BuilderNode {
                    parent_address: Some((split_scale_index + 1, parent_address.1)),''')],
 needs='the first rule and a node whose children are more than one scale below it',
 what='children record a parent address that is not the node they hang from',
 main=T+'''fn main() {
    let mut r = Lcg(3);
    for round in 0..200u64 {
        let n = 4 + (round as usize % 20);
        let d = data(&mut r, n, 1, round);
        let w = builder(1.5, round % 2 == 0, 1, -20, round, true).build(Arc::new(Cloud::new(d, 1).unwrap())).unwrap();
        let rd = w.reader();
        let m = snap(&rd);
        for (a, node) in &m {
            let mut kids = node.kids.clone();
            if let Some(s) = node.nested { kids.push((s, a.1)); }
            for k in kids { assert_eq!(m.get(&k).expect("child").parent, Some(*a), "child {:?}", k); assert!(k.0 < a.0); }
        }
    }
}
'''),
dict(id='S11',property='P05',edits=[('goko/src/covertree/tree.rs','''                .get_node_and(nearest_address, |n| n.is_leaf())''','''                .get_node_and(nearest_address, |n| n.children_len() < 2)''')],
 needs='a node whose only child is its nested one, with further node centres below it',
 what='such a node is treated like a leaf, so the centres below it are never offered',
 main=T+'''fn main() {
    let mut r = Lcg(3);
    for round in 0..300u64 {
        let (n, dim) = (4 + (round as usize % 25), 1 + (round as usize % 2));
        let mut d = data(&mut r, n, dim, round);
        if round % 2 == 0 { for x in d.iter_mut().take(n * dim / 2) { *x *= 0.01; } }
        let w = builder([1.3, 2.0][(round % 2) as usize], round % 3 != 0, 1, -30, round, round % 5 == 0).build(Arc::new(Cloud::new(d.clone(), dim).unwrap())).unwrap();
        let rd = w.reader();
        let centers: BTreeSet<usize> = snap(&rd).keys().map(|a| a.1).collect();
        for k in 1..6usize {
            let q: Vec<f32> = (0..dim).map(|_| r.next() * 2.0).collect();
            let mut want: Vec<f32> = centers.iter().map(|c| (0..dim).map(|j| (d[c * dim + j] - q[j]).powi(2)).sum::<f32>().sqrt()).collect();
            want.sort_by(|a, b| a.partial_cmp(b).unwrap());
            want.truncate(k);
            let got: Vec<f32> = rd.routing_knn(&&q[..], k).unwrap().iter().map(|x| x.0).collect();
            assert_eq!(got.len(), want.len(), "round {} k {}", round, k);
            for (g, w) in got.iter().zip(&want) { assert!((g - w).abs() <= 1e-3 * (1.0 + w), "round {} k {}: {:?} expected {:?}", round, k, got, want); }
        }
    }
}
'''),
dict(id='S12',property='P06',edits=[('goko/src/covertree/node.rs','            } else if *min_dist < scale_base.powi(children.addresses[min_index].0) {','            } else if *min_dist < scale_base.powi(children.nested_scale + 1) {')],
 needs='a query between the radius of the nearest child and that radius times the scale base, no nearer to the centre',
 what='the path steps into a child that does not cover the query',
 main=T+'''fn main() {
    let mut r = Lcg(9);
    for round in 0..200u64 {
        let n = 4 + (round as usize % 25);
        let d = data(&mut r, n, 2, round);
        let w = builder(2.0, true, 1, -20, round, false).build(Arc::new(Cloud::new(d.clone(), 2).unwrap())).unwrap();
        let rd = w.reader();
        for _ in 0..20 {
            let q = [r.next() * 3.0 - 1.0, r.next() * 3.0 - 1.0];
            for (dist, a) in rd.path(&&q[..]).unwrap().iter().skip(1) { assert!(*dist < (2.0f32).powi(a.0), "round {} {:?} at {}", round, a, dist); }
        }
    }
}
'''),
dict(id='S13',property='P07',edits=[('goko/src/covertree/node.rs','        proto.set_radius(self.radius);','        proto.set_radius(self.radius.max(0.0));')],
 needs='a node that covers only its own centre (its radius is minus infinity)',
 what='the radius of such a node comes back as zero',
 main=T+'''fn main() {
    let mut r = Lcg(9);
    for round in 0..40u64 {
        let n = 3 + (round as usize % 25);
        let d = data(&mut r, n, 2, round);
        let pc = Arc::new(Cloud::new(d, 2).unwrap());
        let w = builder(2.0, round % 2 == 0, round as usize % 3, -20, round, false).build(pc.clone()).unwrap();
        let proto = w.save();
        let w2 = CoverTreeWriter::load(&proto, pc).unwrap();
        assert_eq!(snap(&w.reader()), snap(&w2.reader()), "round {}", round);
    }
}
'''),
dict(id='S15',property='P11',edits=[('goko/src/plugins/discrete/baseline.rs','/ ((self.sequence_len[index] - self.sequence_len[index - 1]) as f64);','/ ((self.sequence_len[index] - self.sequence_len[0]) as f64);')],
 needs='a baseline with at least three recorded lengths, asked between the second and the third or later',
 what='the interpolation weight uses the distance from the first recorded length, so the answer is off',
 main='''use goko::plugins::discrete::prelude::*;
fn main() {
    let s = |x: f64| KLDivergenceBaselineStats { max: (x, x * x), min: (x, x * x), nz_count: (x, x * x), moment1_nz: (x, x * x), moment2_nz: (x, x * x) };
    let b = KLDivergenceBaseline { num_sequences: 1, sequence_len: vec![2, 4, 8, 16], stats: vec![s(1.0), s(2.0), s(10.0), s(20.0)] };
    for (q, want) in [(2usize, 1.0f64), (3, 1.5), (4, 2.0), (5, 4.0), (6, 6.0), (7, 8.0), (8, 10.0), (12, 15.0)].iter() {
        assert!((b.stats(*q).max.0 - want).abs() < 1e-9, "at {}: {} expected {}", q, b.stats(*q).max.0, want);
        assert!((b.stats(*q).moment1_nz.0 - want).abs() < 1e-9);
    }
}
'''),
dict(id='S14',property='P08',edits=[('goko/src/monomap/write.rs',"            MonoOperation::Insert(key, value) => {\n                inner.data.insert(key, value);","            MonoOperation::Insert(key, value) => {\n                inner.data.entry(key).or_insert(value);")],
 needs='a key that is inserted a second time after the first refresh, and then two refreshes',
 what='the second copy of the map keeps the older value, so readers see the newer one only every other refresh',
 main='''#![allow(dead_code, unused)]
#[path = "/repo/goko/src/monomap/mod.rs"]
mod monomap;
use monomap::*;
fn main() {
    let (r, mut w) = new::<i32, i64>();
    w.insert(1, 10);
    w.refresh();
    w.refresh();
    w.insert(1, 20);
    for k in 0..4 { w.refresh(); assert_eq!(r.get_and(&1, |v| *v), Some(20), "refresh {}", k); }
    w.remove(1);
    w.insert(1, 30);
    for k in 0..4 { w.refresh(); assert_eq!(r.get_and(&1, |v| *v), Some(30), "refresh {}", k); }
}
''',cargo=CARGO.replace('serde_json = "1"','serde_json = "1"\nfxhash = "0.2.1"\nhashbrown = { version = "0.11.2", features = ["rayon"] }')),
dict(id='S16',property='P12',edits=[('goko/src/plugins/utils.rs',"            } else {\n                indexes.push(*my_node.center_index());\n            }","            } else if indexes.len() != 1 {\n                indexes.push(*my_node.center_index());\n            }")],
 needs='a leaf with exactly one singleton besides its centre',
 what='the centre is missing from the covered indexes of that leaf and of all its ancestors',
 main=T+'''use goko::plugins::utils::*;
fn main() {
    let mut r = Lcg(21);
    for round in 0..60u64 {
        let n = 2 + (round as usize % 30);
        let d = data(&mut r, n, 2, round);
        let mut w = builder(2.0, true, 1 + round as usize % 4, -12, round, false).build(Arc::new(Cloud::new(d, 2).unwrap())).unwrap();
        w.add_plugin(GokoCoverageIndexes::new());
        let rd = w.reader();
        let m = snap(&rd);
        for (a, _) in &m {
            let mut v = vec![];
            below(&m, *a, &mut v);
            v.sort();
            let mut g = rd.get_node_plugin_and::<CoverageIndexes, _, _>(*a, |p| p.point_indexes().to_vec()).unwrap();
            g.sort();
            assert_eq!(g, v, "round {} node {:?}", round, a);
        }
    }
}
'''),
dict(id='S17',property='P15',edits=[('pointcloud/src/base_traits.rs',"                            Err(e) => {\n                                *error.lock().unwrap() = Err(e);\n                            }\n                        }\n                    }\n                });\n            (error.into_inner().unwrap())?;\n            Ok(dists)\n        } else {\n            indexes","                            Err(_e) => {\n                                *d = f32::MAX;\n                            }\n                        }\n                    }\n                });\n            (error.into_inner().unwrap())?;\n            Ok(dists)\n        } else {\n            indexes")],
 needs='a batch large enough for the parallel path that contains an index past the end',
 what='the batch answers with a made-up distance instead of an error',
 main='''use pointcloud::*;
use pointcloud::data_sources::DataRam;
fn main() {
    let n = 2000usize;
    let c = DataRam::<L2>::new((0..n).map(|i| i as f32 * 0.5).collect(), 1).unwrap();
    let q = [0.0f32];
    for size in [5usize, 290, 310, 900, 1900].iter() {
        let ix: Vec<usize> = (0..*size).collect();
        let d = c.distances_to_point(&&q[..], &ix).unwrap();
        assert_eq!(d, ix.iter().map(|i| *i as f32 * 0.5).collect::<Vec<f32>>());
        let d = c.distances_to_point_index(0, &ix).unwrap();
        assert_eq!(d, ix.iter().map(|i| *i as f32 * 0.5).collect::<Vec<f32>>());
        let mut bad = ix.clone();
        bad[size / 2] = n + 3;
        assert!(c.distances_to_point(&&q[..], &bad).is_err(), "size {}", size);
        assert!(c.distances_to_point_index(0, &bad).is_err(), "size {}", size);
    }
}
'''),
dict(id='S18',property='P16',edits=[('pointcloud/src/glued_data_cloud.rs',"        let mut new_addresses = HashMap::with_hasher(FxBuildHasher::default());\n        for (old_index, new_index)","        let mut new_addresses = self.addresses.clone();\n        for (old_index, new_index)")],
 needs='a re-indexing to a set of indexes other than the present ones',
 what='the old indexes keep answering beside the new ones and the length grows',
 main='''use pointcloud::*;
use pointcloud::data_sources::DataRam;
use pointcloud::glued_data_cloud::HashGluedCloud;
fn main() {
    let mut g = HashGluedCloud::new(vec![DataRam::<L2>::new(vec![0.0, 1.0, 2.0], 1).unwrap(), DataRam::<L2>::new(vec![3.0, 4.0], 1).unwrap()]);
    let map: Vec<(usize, usize)> = (0..5).map(|i| (i, 8 - i)).collect();
    g.reindex(&map).unwrap();
    assert_eq!(g.len(), 5);
    for i in 0..5usize { assert_eq!(g.point(8 - i).unwrap()[0], i as f32); }
    for i in 0..4usize { assert!(g.point(i).is_err(), "index {} still answers", i); }
    let mut ix = g.reference_indexes();
    ix.sort();
    assert_eq!(ix, vec![4, 5, 6, 7, 8]);
}
'''),
dict(id='S19',property='P19',edits=[('pointcloud/src/points/mod.rs',"        let mut v = vec![0.0; dim];\n\n        for (xi, i)","        let mut v: Vec<f32> = vec![0.0; dim];\n        if self.values().len() + 1 >= dim {\n            v = self.values().iter().map(|x| (*x).into()).collect();\n            v.resize(dim, 0.0);\n            return v;\n        }\n\n        for (xi, i)")],
 needs='a sparse point that stores all coordinates but one, and that one not the last',
 what='the dense expansion shifts the values behind the gap and disagrees with the iterator',
 main='''use pointcloud::*;
use pointcloud::points::SparseRef;
fn main() {
    for dim in 1..7usize {
        for mask in 0..(1u32 << dim) {
            let ix: Vec<u32> = (0..dim as u32).filter(|i| mask & (1 << i) != 0).collect();
            let vs: Vec<f32> = ix.iter().map(|i| *i as f32 + 1.5).collect();
            let p: SparseRef<f32, u32> = SparseRef::new(dim, &vs, &ix);
            let mut want = vec![0.0f32; dim];
            for (v, i) in vs.iter().zip(&ix) { want[*i as usize] = *v; }
            assert_eq!(p.dense(), want, "stored {:?} of {}", ix, dim);
            assert_eq!(p.dense_iter().collect::<Vec<f32>>(), want);
        }
    }
}
'''),
dict(id='S20',property='P20',edits=[('serve_goko/src/parsers/mod.rs',"                    Err(e) => {\n                        this.body_buffer.clear();","                    Err(e) => {"),('serve_goko/src/parsers/mod.rs',"        self.request = req;\n        self.body_buffer.clear();","        self.request = req;")],
 needs='a request whose body breaks off half-way, followed by a good request on the same connection',
 what='the bytes of the broken request are put in front of the next one, which is then misread',
 main='''use goko::*;
use hyper::{Body, Request};
use pointcloud::*;
use serve_goko::core::CoreWriter;
use serve_goko::http::{GokoHttp, MakeGokoHttp};
use serve_goko::parsers::MsgPackDense;
use std::sync::Arc;
use tower::Service;
type Cloud = DefaultLabeledCloud<L2>;
async fn ask(c: &mut GokoHttp<Cloud, MsgPackDense>, body: Body) -> Option<String> {
    let r = Request::builder().method("GET").uri("/knn?k=3").body(body).unwrap();
    match tokio::time::timeout(std::time::Duration::from_secs(20), c.call(r)).await.expect("no answer") {
        Ok(r) if r.status().as_u16() == 200 => Some(String::from_utf8(hyper::body::to_bytes(r.into_body()).await.unwrap().to_vec()).unwrap()),
        _ => None,
    }
}
fn main() {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    rt.block_on(async {
        let data: Vec<f32> = (0..40).map(|x| (x * 7 % 11) as f32 + 0.1 * x as f32).collect();
        let mut b = CoverTreeBuilder::new();
        b.set_verbosity(0).set_rng_seed(0);
        let w = b.build(Arc::new(Cloud::new_simple(data, 2, vec![0; 20]))).unwrap();
        let mut maker: MakeGokoHttp<Cloud, MsgPackDense> = MakeGokoHttp::new(Arc::new(CoreWriter::new(w)));
        let mut one = maker.call(()).await.unwrap();
        let mut two = maker.call(()).await.unwrap();
        let good = rmp_serde::to_vec(&vec![1.0f32, 2.0]).unwrap();
        let other = rmp_serde::to_vec(&vec![30.0f32, -20.0]).unwrap();
        let want = ask(&mut two, Body::from(good.clone())).await.expect("an answer");
        assert_eq!(ask(&mut one, Body::from(good.clone())).await.as_ref(), Some(&want));
        let parts: Vec<Result<Vec<u8>, std::io::Error>> = vec![Ok(other), Err(std::io::Error::new(std::io::ErrorKind::Other, "cut"))];
        let _ = ask(&mut one, Body::wrap_stream(futures_util::stream::iter(parts))).await;
        assert_eq!(ask(&mut one, Body::from(good)).await, Some(want));
    });
}
''',cargo=CARGO.replace('serde_json = "1"','serde_json = "1"\nserve_goko = { path = "/repo/serve_goko" }\nhyper = { version = "0.14", features = ["full"] }\ntokio = { version = "1", features = ["full"] }\ntower = "0.4"\nrmp-serde = "0.15"\nfutures-util = "0.3"')),
]
