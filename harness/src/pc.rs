//! Replay of the point-cloud contracts (P14 metrics, P15 clouds, P16 glued clouds, P19 sparse points).
use crate::common::*;
use pointcloud::data_sources::*;
use pointcloud::glued_data_cloud::HashGluedCloud;
use pointcloud::label_sources::*;
use pointcloud::loaders::*;
use pointcloud::metrics::{L1, L2};
use pointcloud::pc_errors::*;
use pointcloud::points::*;
use pointcloud::*;
use rand::rngs::SmallRng;
use rand::Rng;
use serde_json::json;
use std::collections::BTreeMap;

fn ref_l2(x: &[f64], y: &[f64]) -> f64 { x.iter().zip(y).map(|(a, b)| (a - b) * (a - b)).sum::<f64>().sqrt() }
fn ref_l1(x: &[f64], y: &[f64]) -> f64 { x.iter().zip(y).map(|(a, b)| (a - b).abs()).sum::<f64>() }

fn near(got: f32, want: f64, what: &str) -> R {
    let g = got as f64;
    ensure!(g.is_finite() && (g - want).abs() <= 1e-4 * (want.abs() + 1e-6), "{}: got {} expected {}", what, got, want);
    Ok(())
}

macro_rules! metric_type {
    ($f:ident, $t:ty, $gen:expr) => {
        fn $f(x: &mut Ctx, k: u64) {
            let mut rng = x.rng(1000 + k);
            let gen: fn(&mut SmallRng) -> $t = $gen;
            for round in 0..x.n(12) {
                for len in (0..70usize).chain([100, 128, 129, 257].iter().cloned()) {
                    if x.done() { return; }
                    let mut a: Vec<$t> = (0..len).map(|_| gen(&mut rng)).collect();
                    let mut b: Vec<$t> = (0..len).map(|_| gen(&mut rng)).collect();
                    if round % 3 == 2 { b = a.clone(); }
                    if round == 1 && len > 0 { // all the difference in one coordinate
                        b = a.clone();
                        let j = rng.gen_range(0..len);
                        b[j] = gen(&mut rng);
                    }
                    if round % 5 == 4 { std::mem::swap(&mut a, &mut b); }
                    let fa: Vec<f64> = a.iter().map(|v| *v as f64).collect();
                    let fb: Vec<f64> = b.iter().map(|v| *v as f64).collect();
                    x.case(json!({"type": stringify!($t), "x": fa, "y": fb}), len > 1, || {
                        near(<L2 as Metric<[$t]>>::dist(&a, &b), ref_l2(&fa, &fb), "L2 dense")?;
                        near(<L2 as Metric<[$t]>>::dist(&b, &a), ref_l2(&fa, &fb), "L2 dense, swapped")?;
                        near(<L1 as Metric<[$t]>>::dist(&a, &b), ref_l1(&fa, &fb), "L1 dense")?;
                        near(<L1 as Metric<[$t]>>::dist(&b, &a), ref_l1(&fa, &fb), "L1 dense, swapped")?;
                        ensure!(<L2 as Metric<[$t]>>::dist(&a, &a) == 0.0 && <L1 as Metric<[$t]>>::dist(&a, &a) == 0.0, "distance to itself is not zero");
                        Ok(())
                    });
                }
            }
            // sparse
            for i in 0..x.n(1000) {
                if x.done() { return; }
                let dim = [3usize, 8, 17, 40, 100, 250][rng.gen_range(0..6)];
                let mk = |rng: &mut SmallRng, p: u32, lo: usize, hi: usize| -> (Vec<usize>, Vec<$t>) {
                    let mut ix = vec![]; let mut v = vec![];
                    for j in lo..hi { if rng.gen_range(0..100) < p { ix.push(j); v.push(gen(rng)); } }
                    (ix, v)
                };
                let ps = [0u32, 10, 30, 60, 100];
                let (pa, pb) = (ps[rng.gen_range(0..5)], ps[rng.gen_range(0..5)]);
                let half = dim / 2;
                let (ra, rb) = match i % 4 { 0 | 1 => ((0, dim), (0, dim)), 2 => ((0, half), (half, dim)), _ => ((half, dim), (0, half)) };
                let (ia, va) = mk(&mut rng, pa, ra.0, ra.1);
                let (mut ib, mut vb) = mk(&mut rng, pb, rb.0, rb.1);
                if i % 13 == 0 { ib = ia.clone(); vb = va.clone(); }
                let (mut fa, mut fb) = (vec![0.0f64; dim], vec![0.0f64; dim]);
                for (j, v) in ia.iter().zip(&va) { fa[*j] = *v as f64; }
                for (j, v) in ib.iter().zip(&vb) { fb[*j] = *v as f64; }
                let desc = json!({"type": stringify!($t), "dim": dim, "x_indexes": ia, "x_values": va.iter().map(|v| *v as f64).collect::<Vec<_>>(), "y_indexes": ib, "y_values": vb.iter().map(|v| *v as f64).collect::<Vec<_>>()});
                x.case(desc, !ia.is_empty() && !ib.is_empty(), || {
                    macro_rules! sp { ($s:ty) => {{
                        let (ja, jb): (Vec<$s>, Vec<$s>) = (ia.iter().map(|v| *v as $s).collect(), ib.iter().map(|v| *v as $s).collect());
                        let (sa, sb) = (SparseRef::<$t, $s>::new(dim, &va, &ja), SparseRef::<$t, $s>::new(dim, &vb, &jb));
                        near(<L2 as Metric<RawSparse<$t, $s>>>::dist(&sa, &sb), ref_l2(&fa, &fb), concat!("L2 sparse ", stringify!($s)))?;
                        near(<L2 as Metric<RawSparse<$t, $s>>>::dist(&sb, &sa), ref_l2(&fa, &fb), concat!("L2 sparse swapped ", stringify!($s)))?;
                        near(<L1 as Metric<RawSparse<$t, $s>>>::dist(&sa, &sb), ref_l1(&fa, &fb), concat!("L1 sparse ", stringify!($s)))?;
                        near(<L1 as Metric<RawSparse<$t, $s>>>::dist(&sb, &sa), ref_l1(&fa, &fb), concat!("L1 sparse swapped ", stringify!($s)))?;
                        ensure!(<L2 as Metric<RawSparse<$t, $s>>>::dist(&sa, &sa) == 0.0, "L2 sparse distance to itself is not zero");
                        ensure!(<L1 as Metric<RawSparse<$t, $s>>>::dist(&sa, &sa) == 0.0, "L1 sparse distance to itself is not zero");
                    }}}
                    sp!(u8); sp!(u16); sp!(u32);
                    Ok(())
                });
            }
        }
    };
}
metric_type!(m_f32, f32, |r| (r.gen::<f32>() - 0.5) * [1.0f32, 10.0, 1000.0][r.gen_range(0..3)]);
metric_type!(m_i8, i8, |r| r.gen());
metric_type!(m_u8, u8, |r| r.gen());
metric_type!(m_i16, i16, |r| r.gen());
metric_type!(m_u16, u16, |r| r.gen());
metric_type!(m_i32, i32, |r| r.gen_range(-1_000_000..1_000_000));
metric_type!(m_u32, u32, |r| r.gen_range(0..1_000_000));

pub fn p14(x: &mut Ctx) {
    x.rule = "dense pairs of every length 0..70 and around the vector width for all 7 coefficient types, sparse pairs over all three index types with overlapping, disjoint, empty and equal supports; compared with an f64 evaluation of the definition; non-trivial = more than one coordinate / both supports non-empty".into();
    m_f32(x, 1); m_i8(x, 2); m_u8(x, 3); m_i16(x, 4); m_u16(x, 5); m_i32(x, 6); m_u32(x, 7);
}

// ---------------------------------------------------------------- P15
pub struct Names(pub Vec<String>);
impl NamedSet for Names {
    fn len(&self) -> usize { self.0.len() }
    fn is_empty(&self) -> bool { self.0.is_empty() }
    fn name(&self, pi: usize) -> PointCloudResult<String> { self.0.get(pi).cloned().ok_or(PointCloudError::UnknownName) }
    fn index(&self, pn: &str) -> PointCloudResult<usize> { self.0.iter().position(|n| n == pn).ok_or(PointCloudError::UnknownName) }
    fn names(&self) -> Vec<String> { self.0.clone() }
}

pub fn write_dat(name: &str, v: &[f32]) -> std::path::PathBuf {
    let b: Vec<u8> = v.iter().flat_map(|f| f.to_ne_bytes().to_vec()).collect();
    std::fs::write(name, b).unwrap();
    std::env::current_dir().unwrap().join(name)
}

fn cloud_ok<D: PointCloud<Point = [f32]>>(d: &D, rows: &[Vec<f32>], dim: usize, rng: &mut SmallRng, l1: bool, what: &str) -> R {
    let n = rows.len();
    let rf = |a: &[f32], b: &[f32]| -> f64 {
        let (a, b): (Vec<f64>, Vec<f64>) = (a.iter().map(|v| *v as f64).collect(), b.iter().map(|v| *v as f64).collect());
        if l1 { ref_l1(&a, &b) } else { ref_l2(&a, &b) }
    };
    ensure!(d.len() == n && d.dim() == dim && d.is_empty() == (n == 0), "{}: len {} dim {} is_empty {} for {} rows of {}", what, d.len(), d.dim(), d.is_empty(), n, dim);
    let mut ri = d.reference_indexes(); ri.sort();
    ensure!(ri == (0..n).collect::<Vec<_>>(), "{}: reference indexes {:?}", what, ri);
    for i in 0..n {
        let p = d.point(i).map_err(|e| format!("{}: point {} : {:?}", what, i, e))?;
        ensure!(p.dense() == rows[i] && (*p).iter().eq(rows[i].iter()), "{}: point({}) is {:?}", what, i, p.dense());
        ensure!(p.dense_iter().eq(rows[i].iter().cloned()), "{}: dense_iter of point {}", what, i);
        let a = d.point_dense_array(i).map_err(|e| format!("{}: {:?}", what, e))?;
        ensure!(a.iter().eq(rows[i].iter()), "{}: point_dense_array({})", what, i);
    }
    for i in [n, n + 1, n + 7, 10 * n + 100, usize::MAX, usize::MAX / 2 + 1, (usize::MAX / dim).wrapping_add(1), usize::MAX - 1, usize::MAX / dim] {
        if i < n { continue; }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| d.point(i).is_err()));
        ensure!(matches!(r, Ok(true)), "{}: index {} past the end does not give an error", what, i);
        ensure!(d.point_dense_array(i).is_err() && d.points_dense_matrix(&[i]).is_err() && d.distances_to_point_index(i, &[]).is_err() && d.moment_1(&[i]).is_err() && d.moment_2(&[i]).is_err(),
            "{}: index {} past the end is accepted", what, i);
    }
    if n == 0 { return Ok(()); }
    let chunk = (300000 / dim).min(100);
    for len in [0usize, 1, 2, 7, n, chunk, 3 * chunk, 3 * chunk + 1, 3 * chunk + 57, 5 * chunk].iter() {
        if *len * dim > 3_000_000 { continue; }
        let ix: Vec<usize> = (0..*len).map(|_| rng.gen_range(0..n)).collect();
        let q = rows[rng.gen_range(0..n)].iter().map(|v| v + if rng.gen() { 0.0 } else { 0.37 }).collect::<Vec<f32>>();
        let ds = d.distances_to_point(&&q[..], &ix).map_err(|e| format!("{}: {:?}", what, e))?;
        ensure!(ds.len() == ix.len(), "{}: {} distances for {} indexes", what, ds.len(), ix.len());
        for (g, i) in ds.iter().zip(&ix) { near(*g, rf(&q, &rows[*i]), &format!("{}: distance to point, batch of {} at index {}", what, len, i)).map_err(|e| e)?; }
        let c = rng.gen_range(0..n);
        let ds = d.distances_to_point_index(c, &ix).map_err(|e| format!("{}: {:?}", what, e))?;
        ensure!(ds.len() == ix.len(), "{}: {} distances for {} indexes", what, ds.len(), ix.len());
        for (g, i) in ds.iter().zip(&ix) { near(*g, rf(&rows[c], &rows[*i]), &format!("{}: distance to index {}, batch of {} at index {}", what, c, len, i))?; }
        if *len > 0 {
            let mut bad = ix.clone();
            let at = rng.gen_range(0..bad.len());
            bad[at] = n + rng.gen_range(0..3);
            ensure!(d.distances_to_point(&&q[..], &bad).is_err(), "{}: a batch with an index past the end gives no error", what);
        }
        let small: Vec<usize> = ix.iter().cloned().take(40).collect();
        let m = d.points_dense_matrix(&small).map_err(|e| format!("{:?}", e))?;
        ensure!(m.shape() == [small.len(), dim] && m.iter().cloned().eq(small.iter().flat_map(|i| rows[*i].clone())), "{}: points_dense_matrix of {:?}", what, small);
        let (m1, m2) = (d.moment_1(&small).map_err(|e| format!("{:?}", e))?, d.moment_2(&small).map_err(|e| format!("{:?}", e))?);
        ensure!(m1.len() == dim && m2.len() == dim, "{}: moment length", what);
        for j in 0..dim {
            let (a, b): (f64, f64) = (small.iter().map(|i| rows[*i][j] as f64).sum(), small.iter().map(|i| (rows[*i][j] as f64).powi(2)).sum());
            let sc: f64 = small.iter().map(|i| rows[*i][j].abs() as f64).sum();
            ensure!((m1[j] as f64 - a).abs() <= 1e-4 * (sc + 1e-6), "{}: first moment of {:?} at {}: {} expected {}", what, small, j, m1[j], a);
            ensure!((m2[j] as f64 - b).abs() <= 1e-4 * (b + 1e-6), "{}: second moment of {:?} at {}: {} expected {}", what, small, j, m2[j], b);
        }
    }
    Ok(())
}

fn names_ok<D: PointCloud>(d: &D, names: &[String], what: &str) -> R {
    ensure!(d.names().len() == names.len(), "{}: {} names", what, d.names().len());
    let (mut a, mut b) = (d.names(), names.to_vec()); a.sort(); b.sort();
    ensure!(a == b, "{}: names {:?}", what, a);
    for (i, n) in names.iter().enumerate() {
        ensure!(d.name(i).map_err(|e| format!("{:?}", e))? == *n, "{}: name of {}", what, i);
        ensure!(d.index(n).map_err(|e| format!("{}: index of {} {:?}", what, n, e))? == i, "{}: index of {} is {:?}", what, n, d.index(n));
    }
    Ok(())
}

pub fn p15(x: &mut Ctx) {
    x.rule = "in-memory, memory-mapped, labelled and named clouds over random rows, several dimensions (1 to 400001) and batch sizes on both sides of the parallel threshold, with indexes past the end; compared with the rows given; non-trivial = at least two rows".into();
    let mut rng = x.rng(15);
    for t in 0..x.n(300) {
        if x.done() { return; }
        let m = rng.gen_range(0..9usize);
        let mut pairs: Vec<(usize, usize)> = vec![];
        for i in 0..m { for j in i..m { if (j > i || t % 3 == 0) && rng.gen_range(0..3) > 0 { pairs.push((i * 2, j * 2)); } } }
        let vals: Vec<f32> = (0..pairs.len()).map(|v| v as f32 + 0.5).collect();
        x.case(json!({"case": t, "adjacency pairs": pairs}), pairs.len() > 1, || {
            let a = AdjMatrix { vals: vals.clone(), indexes: pairs.clone() };
            for i in 0..2 * m + 2 { for j in 0..2 * m + 2 {
                let want = if i == j { Some(0.0) } else { pairs.iter().position(|p| *p == (i.min(j), i.max(j))).map(|k| vals[k]) };
                ensure!(a.get(i, j) == want, "AdjMatrix::get({}, {}) is {:?} expected {:?}", i, j, a.get(i, j), want);
            } }
            Ok(())
        });
    }
    for t in 0..x.n(400) {
        if x.done() { return; }
        let dim = if t % 10 == 9 { [400_001, 3000, 100_001, 7001, 299_999, 300_001][(t / 10) % 6] } else { [1usize, 2, 3, 5, 8, 16, 17, 33][rng.gen_range(0..8)] };
        let n = if dim > 1000 { 3 } else { [1, 2, 3, 7, 20][rng.gen_range(0..5)] };
        let data: Vec<f32> = (0..n * dim).map(|_| (rng.gen::<f32>() - 0.4) * 3.0).collect();
        let rows: Vec<Vec<f32>> = data.chunks(dim).map(|c| c.to_vec()).collect();
        let seed: u64 = rng.gen();
        let desc = if dim > 1000 { json!({"dim": dim, "rows": n, "seed": x.seed, "case": t}) } else { json!({"dim": dim, "data": fs(&data), "case": t}) };
        x.case(desc, n > 1, || {
            use rand::SeedableRng;
            let mut rng = SmallRng::seed_from_u64(seed);
            let ram = DataRam::<L2>::new(data.clone(), dim).map_err(|e| format!("{:?}", e))?;
            cloud_ok(&ram, &rows, dim, &mut rng, false, "DataRam<L2>")?;
            names_ok(&ram, &(0..n).map(|i| i.to_string()).collect::<Vec<_>>(), "DataRam")?;
            if dim > 1000 { return Ok(()); }
            ensure!(ram.label(0).unwrap().is_none() && ram.metadata(0).unwrap().is_none(), "an unlabelled cloud reports a label");
            let s = ram.label_summary(&(0..n).collect::<Vec<_>>()).unwrap();
            ensure!(s.nones() == n && s.errors() == 0, "label summary of an unlabelled cloud");
            let r1 = DataRam::<L1>::new(data.clone(), dim).map_err(|e| format!("{:?}", e))?;
            cloud_ok(&r1, &rows, dim, &mut rng, true, "DataRam<L1>")?;
            let p = write_dat("d.dat", &data);
            let mm = DataMemmap::<L2>::new(dim, &p).map_err(|e| format!("{:?}", e))?;
            cloud_ok(&mm, &rows, dim, &mut rng, false, "DataMemmap")?;
            names_ok(&mm, &(0..n).map(|i| i.to_string()).collect::<Vec<_>>(), "DataMemmap")?;
            let conv = mm.convert_to_ram();
            cloud_ok(&conv, &rows, dim, &mut rng, false, "DataMemmap::convert_to_ram")?;
            let mut m = DataRam::<L2>::new(data.clone(), dim).unwrap();
            m.merge(DataRam::<L2>::new(rows[0].clone(), dim).unwrap());
            let mut more = rows.clone(); more.push(rows[0].clone());
            cloud_ok(&m, &more, dim, &mut rng, false, "DataRam::merge")?;
            let labels: Vec<i64> = (0..n).map(|i| (i as i64 * 7) % 3 - 1).collect();
            let lc = SimpleLabeledCloud::new(DataRam::<L2>::new(data.clone(), dim).unwrap(), SmallIntLabels::new(labels.clone(), None));
            cloud_ok(&lc, &rows, dim, &mut rng, false, "SimpleLabeledCloud")?;
            for i in 0..n { ensure!(lc.label(i).unwrap() == Some(&labels[i]) && lc.name(i).unwrap() == i.to_string() && lc.metadata(i).unwrap().is_none(), "labelled cloud, index {}", i); }
            let names: Vec<String> = (0..n).map(|i| format!("pt{}", (i * 17 + 3) % 1009)).collect();
            let nc = SimpleNamedCloud::new(lc, Names(names.clone()));
            cloud_ok(&nc, &rows, dim, &mut rng, false, "SimpleNamedCloud")?;
            names_ok(&nc, &names, "SimpleNamedCloud")?;
            ensure!(nc.index("no such name").is_err(), "an unknown name resolves");
            for i in 0..n { ensure!(nc.label(i).unwrap() == Some(&labels[i]), "named cloud label {}", i); }
            let ix: Vec<usize> = (0..n).rev().collect();
            let s = nc.label_summary(&ix).unwrap();
            for v in -1i64..3 {
                let want = labels.iter().filter(|l| **l == v).count();
                let got: usize = s.summary.items.iter().filter(|(k, _)| *k == v).map(|(_, c)| *c).sum();
                ensure!(want == got, "named cloud label summary: label {} counted {} expected {}", v, got, want);
            }
            Ok(())
        });
    }
    // adjacency lists
    for t in 0..x.n(500) {
        if x.done() { return; }
        let n = rng.gen_range(1..9usize);
        let mut ix = vec![]; let mut vals = vec![];
        for i in 0..n { for j in i + 1..n { if rng.gen_range(0..4) != 0 { ix.push((i, j)); vals.push(rng.gen::<f32>() * 5.0 + if t % 3 == 0 { 2.0 } else { 0.0 }); } } }
        let desc = json!({"adjacency": ix, "vals": fs(&vals)});
        let m: BTreeMap<(usize, usize), f32> = ix.iter().cloned().zip(vals.iter().cloned()).collect();
        x.case(desc, !m.is_empty(), || {
            let a = AdjMatrix { vals: vals.clone(), indexes: ix.clone() };
            for i in 0..n + 2 { for j in 0..n + 2 {
                let want = if i == j { Some(0.0) } else { m.get(&(i.min(j), i.max(j))).cloned() };
                ensure!(a.get(i, j) == want, "adjacency get({},{}) = {:?} expected {:?}", i, j, a.get(i, j), want);
            } }
            let want = vals.iter().cloned().fold(f32::INFINITY, f32::min);
            ensure!(a.min() == want, "adjacency min {} expected {}", a.min(), want);
            Ok(())
        });
    }
}

// ---------------------------------------------------------------- P16
type Src = SimpleNamedCloud<SimpleLabeledCloud<DataRam<L2>, SmallIntLabels>, Names>;
struct Want { row: Vec<f32>, label: Option<i64>, name: String }

fn glued_ok(g: &HashGluedCloud<Src>, want: &BTreeMap<usize, Want>, what: &str) -> R {
    ensure!(g.len() == want.len(), "{}: len {} expected {}", what, g.len(), want.len());
    ensure!(g.is_empty() == want.is_empty(), "{}: is_empty {} with {} points", what, g.is_empty(), want.len());
    let mut ri = g.reference_indexes(); ri.sort();
    ensure!(ri == want.keys().cloned().collect::<Vec<_>>(), "{}: reference indexes {:?}", what, ri);
    for (i, w) in want {
        let p = g.point(*i).map_err(|e| format!("{}: point {}: {:?}", what, i, e))?;
        ensure!(p.dense() == w.row, "{}: point {} is {:?} expected {:?}", what, i, p.dense(), w.row);
        ensure!(g.label(*i).map_err(|e| format!("{:?}", e))?.cloned() == w.label, "{}: label of {}", what, i);
        ensure!(g.name(*i).map_err(|e| format!("{:?}", e))? == w.name, "{}: name of {}", what, i);
        ensure!(g.metadata(*i).map_err(|e| format!("{:?}", e))?.is_none(), "{}: metadata of {}", what, i);
        let ix = g.index(&w.name).map_err(|e| format!("{}: index of {}: {:?}", what, w.name, e))?;
        ensure!(ix == *i, "{}: the name {} of global index {} resolves to {}", what, w.name, i, ix);
    }
    let mut nm = g.names(); nm.sort();
    let mut wn: Vec<String> = want.values().map(|w| w.name.clone()).collect(); wn.sort();
    ensure!(nm == wn, "{}: names {:?}", what, nm);
    ensure!(g.index("no such name").is_err(), "{}: an unknown name resolves", what);
    let mx = want.keys().last().cloned().unwrap_or(0);
    for i in [mx + 1, mx + 100, usize::MAX] {
        if want.contains_key(&i) { continue; }
        ensure!(g.point(i).is_err() && g.label(i).is_err() && g.name(i).is_err() && g.metadata(i).is_err() && g.label_summary(&[i]).is_err() && g.metasummary(&[i]).is_err(), "{}: index {} that no source owns is accepted", what, i);
    }
    let all: Vec<usize> = want.keys().cloned().collect();
    let s = g.label_summary(&all).map_err(|e| format!("{:?}", e))?;
    for v in 0..4i64 {
        let wv = want.values().filter(|w| w.label == Some(v)).count();
        let got: usize = s.summary.items.iter().filter(|(k, _)| *k == v).map(|(_, c)| *c).sum();
        ensure!(wv == got, "{}: label {} counted {} expected {}", what, v, got, wv);
    }
    ensure!(s.nones() == want.values().filter(|w| w.label.is_none()).count() && s.errors() == 0, "{}: nones {} errors {}", what, s.nones(), s.errors());
    let ms = g.metasummary(&all).map_err(|e| format!("{:?}", e))?;
    ensure!(ms.nones() == all.len() && ms.errors() == 0, "{}: metadata summary", what);
    Ok(())
}

pub fn p16(x: &mut Ctx) {
    x.rule = "clouds glued from 0..5 named and labelled sources (some empty, some masked) and their one-to-one re-indexings, compared entry by entry with the sources; plus the file loaders that glue; non-trivial = at least two sources".into();
    let mut rng = x.rng(16);
    for t in 0..x.n(2500) {
        if x.done() { return; }
        let dim = rng.gen_range(1..4usize);
        let ns = rng.gen_range(0..6usize);
        let sizes: Vec<usize> = (0..ns).map(|_| [0usize, 1, 1, 2, 3, 5][rng.gen_range(0..6)]).collect();
        let mut want: BTreeMap<usize, Want> = BTreeMap::new();
        let mut srcs: Vec<Src> = vec![];
        let mut c = 0;
        for s in &sizes {
            let data: Vec<f32> = (0..s * dim).map(|i| (c * dim + i) as f32 * 0.5).collect();
            let labels: Vec<i64> = (0..*s).map(|_| rng.gen_range(0..4)).collect();
            let mask: Option<Vec<bool>> = if rng.gen() { Some((0..*s).map(|_| rng.gen()).collect()) } else { None };
            let names: Vec<String> = (0..*s).map(|i| format!("n{}", c + i)).collect();
            for i in 0..*s { want.insert(c + i, Want { row: data[i * dim..(i + 1) * dim].to_vec(), label: if mask.as_ref().map(|m| m[i]).unwrap_or(true) { Some(labels[i]) } else { None }, name: names[i].clone() }); }
            srcs.push(SimpleNamedCloud::new(SimpleLabeledCloud::new(DataRam::new(data, dim).unwrap(), SmallIntLabels::new(labels, mask)), Names(names)));
            c += s;
        }
        let mut perm: Vec<usize> = (0..c).collect();
        for i in (1..c).rev() { perm.swap(i, rng.gen_range(0..i + 1)); }
        if t % 3 == 0 { for p in perm.iter_mut() { *p = *p * 3 + 1000; } }
        let mut order: Vec<usize> = (0..c).collect();
        for i in (1..c).rev() { order.swap(i, rng.gen_range(0..i + 1)); }
        let desc = json!({"sizes": sizes, "dim": dim, "new_index_of": perm, "listed_in_order": order});
        x.case(desc, ns > 1, || {
            let mut g = HashGluedCloud::new(srcs);
            glued_ok(&g, &want, "glued")?;
            if ns > 0 { ensure!(g.dim() == dim, "dim"); }
            ensure!(g.data_sources().len() == ns, "data_sources");
            if c > 0 {
                // an unknown old index is refused and changes nothing
                let mut bad: Vec<(usize, usize)> = order.iter().map(|o| (*o, perm[*o])).collect();
                bad[c / 2].0 = 5_000_000;
                ensure!(g.reindex(&bad).is_err(), "re-indexing accepts an old index that is not there");
                glued_ok(&g, &want, "glued, after a refused re-indexing")?;
            }
            let moves: Vec<(usize, usize)> = order.iter().map(|o| (*o, perm[*o])).collect();
            g.reindex(&moves).map_err(|e| format!("{:?}", e))?;
            let w2: BTreeMap<usize, Want> = want.iter().map(|(k, w)| (perm[*k], Want { row: w.row.clone(), label: w.label, name: w.name.clone() })).collect();
            glued_ok(&g, &w2, "re-indexed")?;
            // back again
            let back: Vec<(usize, usize)> = moves.iter().map(|(a, b)| (*b, *a)).collect();
            g.reindex(&back).map_err(|e| format!("{:?}", e))?;
            glued_ok(&g, &want, "re-indexed back")?;
            ensure!(g.take_data_sources().len() == ns, "take_data_sources");
            Ok(())
        });
    }
    for t in 0..x.n(100) {
        if x.done() { return; }
        let dim = rng.gen_range(1..4usize);
        let sizes: Vec<usize> = (0..rng.gen_range(1..4)).map(|_| rng.gen_range(1..5)).collect();
        let total: usize = sizes.iter().sum();
        let data: Vec<f32> = (0..total * dim).map(|i| i as f32 * 0.25 + t as f32).collect();
        let lab: Vec<f32> = (0..total * 2).map(|i| i as f32).collect();
        x.case(json!({"files": sizes, "dim": dim, "data": fs(&data)}), sizes.len() > 1, || {
            let (mut dp, mut lp, mut o) = (vec![], vec![], 0);
            for (i, s) in sizes.iter().enumerate() {
                dp.push(write_dat(&format!("g{}.dat", i), &data[o * dim..(o + s) * dim]));
                lp.push(write_dat(&format!("l{}.dat", i), &lab[o * 2..(o + s) * 2]));
                o += s;
            }
            let g = open_labeled_memmaps::<L2>(dim, 2, &dp, &lp).map_err(|e| format!("{:?}", e))?;
            ensure!(g.len() == total, "loader: {} points of {}", g.len(), total);
            for i in 0..total {
                ensure!(g.point(i).map_err(|e| format!("{:?}", e))?.dense() == data[i * dim..(i + 1) * dim], "loader: point {}", i);
                ensure!(g.label(i).map_err(|e| format!("{:?}", e))? == Some(&lab[i * 2..i * 2 + 2]), "loader: label {}", i);
            }
            let r = convert_glued_memmap_to_ram(open_memmaps::<L2>(dim, &dp).map_err(|e| format!("{:?}", e))?);
            ensure!(r.len() == total, "converted: {} points", r.len());
            for i in 0..total { ensure!(r.point(i).map_err(|e| format!("{:?}", e))? == &data[i * dim..(i + 1) * dim], "converted: point {}", i); }
            std::fs::write("c.yml", format!("---\ndata_path: g*.dat\ndata_dim: {}\nlabels_path: l*.dat\nlabels_dim: 2\n", dim)).unwrap();
            let y = vec_labeled_ram_from_yaml::<_, L2>("c.yml").map_err(|e| format!("{:?}", e))?;
            ensure!(y.len() >= total, "yaml: {} points", y.len());
            for i in 0..total {
                ensure!(y.point(i).map_err(|e| format!("{:?}", e))? == &data[i * dim..(i + 1) * dim], "yaml: point {}", i);
                ensure!(y.label(i).map_err(|e| format!("{:?}", e))? == Some(&lab[i * 2..i * 2 + 2]), "yaml: label {}", i);
            }
            for f in dp.iter().chain(&lp) { let _ = std::fs::remove_file(f); }
            Ok(())
        });
    }
}

// ---------------------------------------------------------------- P19
pub fn p19(x: &mut Ctx) {
    x.rule = "sparse points of dimension 0..40 with random supports (empty, full, leading or trailing zeros, stored zeros) in several coefficient and index types; dense(), dense_iter() and the stored pairs compared with the vector they denote; non-trivial = some but not all coordinates stored".into();
    let mut rng = x.rng(19);
    for t in 0..x.n(8000) {
        if x.done() { return; }
        let dim = rng.gen_range(0..40usize);
        let p = [0u32, 20, 50, 80, 100][rng.gen_range(0..5)];
        let (lo, hi) = match t % 4 { 0 => (0, dim), 1 => (dim / 2, dim), 2 => (0, dim / 2), _ => (dim / 4, dim * 3 / 4) };
        let mut ix = vec![];
        for j in lo..hi { if rng.gen_range(0..100) < p { ix.push(j); } }
        let v: Vec<i16> = ix.iter().map(|_| rng.gen_range(-120..121)).collect();
        let mut want = vec![0.0f32; dim];
        for (i, a) in ix.iter().zip(&v) { want[*i] = *a as f32; }
        x.case(json!({"dim": dim, "indexes": ix, "values": v}), !ix.is_empty() && ix.len() < dim, || {
            macro_rules! sp { ($t:ty, $s:ty, $conv:expr) => {{
                let f: fn(i16) -> $t = $conv;
                let vals: Vec<$t> = v.iter().map(|a| f(*a)).collect();
                let want: Vec<f32> = { let mut w = vec![0.0f32; dim]; for (i, a) in ix.iter().zip(&vals) { w[*i] = (*a).into(); } w };
                let idx: Vec<$s> = ix.iter().map(|a| *a as $s).collect();
                let s = SparseRef::<$t, $s>::new(dim, &vals, &idx);
                ensure!(s.dim() == dim && s.values() == &vals[..] && s.indexes() == &idx[..], "the point does not report what it was given");
                ensure!(s.dense() == want, concat!("dense() of ", stringify!($t), "/", stringify!($s), " is {:?} expected {:?}"), s.dense(), want);
                let it: Vec<f32> = s.dense_iter().take(dim + 5).collect();
                ensure!(it == want, concat!("dense_iter() of ", stringify!($t), "/", stringify!($s), " is {:?} expected {:?}"), it, want);
                let it2: Vec<f32> = s.dense_iter().take(dim + 5).collect();
                ensure!(it2 == want, "a second dense_iter differs");
                let mut it3 = s.dense_iter();
                for left in (0..=dim).rev() {
                    let (lo, hi) = it3.size_hint();
                    ensure!(lo <= left && hi.map_or(true, |h| h >= left), concat!("dense_iter() of ", stringify!($t), "/", stringify!($s), " with {} coordinates left announces {:?}"), left, (lo, hi));
                    it3.next();
                }
            }}}
            sp!(f32, u32, |a| a as f32); sp!(f32, u8, |a| a as f32); sp!(i16, u16, |a| a); sp!(u8, u32, |a| a as u8); sp!(i8, u16, |a| a as i8); sp!(u16, u8, |a| a as u16);
            // against the dense representation under both metrics
            let vals: Vec<f32> = v.iter().map(|a| *a as f32).collect();
            let idx: Vec<u32> = ix.iter().map(|a| *a as u32).collect();
            let s = SparseRef::<f32, u32>::new(dim, &vals, &idx);
            let (ai, av): (Vec<u32>, Vec<f32>) = ((0..dim as u32).collect(), (0..dim).map(|i| (i as f32) - 3.5).collect());
            let full = SparseRef::<f32, u32>::new(dim, &av, &ai);
            let (a, b) = (<L2 as Metric<RawSparse<f32, u32>>>::dist(&s, &full), <L2 as Metric<[f32]>>::dist(&want, &av));
            ensure!(close(a as f64, b as f64, 1e-4), "L2 between sparse points {} and between their dense expansions {}", a, b);
            let (a, b) = (<L1 as Metric<RawSparse<f32, u32>>>::dist(&s, &full), <L1 as Metric<[f32]>>::dist(&want, &av));
            ensure!(close(a as f64, b as f64, 1e-4), "L1 between sparse points {} and between their dense expansions {}", a, b);
            Ok(())
        });
        // other dense element types
        let (a, b, c): (Vec<i8>, Vec<u16>, Vec<i32>) = (v.iter().map(|x| *x as i8).collect(), v.iter().map(|x| *x as u16).collect(), v.iter().map(|x| *x as i32 * 3).collect());
        x.case(json!({"dense_values": v}), v.len() > 1, || {
            let wa: Vec<f32> = a.iter().map(|x| *x as f32).collect();
            ensure!((&a[..]).dense() == wa && (&a[..]).dense_iter().eq(wa.iter().cloned()), "i8 point");
            let wb: Vec<f32> = b.iter().map(|x| *x as f32).collect();
            ensure!((&b[..]).dense() == wb && (&b[..]).dense_iter().eq(wb.iter().cloned()), "u16 point");
            let wc: Vec<f32> = c.iter().map(|x| *x as f32).collect();
            ensure!((&c[..]).dense() == wc && (&c[..]).dense_iter().eq(wc.iter().cloned()), "i32 point");
            ensure!((&wc[..]).dense() == wc && (&wc[..]).dense_iter().eq(wc.iter().cloned()), "f32 point");
            Ok(())
        });
    }
}
