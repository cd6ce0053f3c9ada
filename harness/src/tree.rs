//! Replay of the tree contracts (P01-P07) on the real builder, query and persistence code.
use ndarray::{s, Array2};
use crate::common::*;
use goko::*;
use goko::query_interface::BulkInterface;
use pointcloud::data_sources::DataRam;
use pointcloud::*;
use pointcloud::metrics::L1;
use rand::rngs::SmallRng;
use rand::Rng;
use serde_json::{json, Value};
use std::collections::{BTreeSet, HashMap};
use std::sync::Arc;

pub type Addr = (i32, usize);

#[derive(Clone, Debug)]
pub struct N { pub addr: Addr, pub parent: Option<Addr>, pub radius: f32, pub count: usize, pub nested: Option<i32>, pub kids: Vec<Addr>, pub sing: Vec<usize> }

#[derive(Clone)]
pub struct Case { pub pts: Vec<f32>, pub dim: usize, pub base: f32, pub cutoff: usize, pub minres: i32, pub single: bool, pub first: bool, pub l1: bool, pub seed: u64, pub exact: bool, pub rule: Option<String> }

impl Case {
    pub fn n(&self) -> usize { self.pts.len() / self.dim }
    pub fn p(&self, i: usize) -> &[f32] { &self.pts[i * self.dim..(i + 1) * self.dim] }
    pub fn desc(&self) -> Value {
        json!({"points": match &self.rule { Some(r) => json!(r), None => fs(&self.pts) }, "dim": self.dim, "scale_base": self.base, "leaf_cutoff": self.cutoff, "min_res_index": self.minres, "use_singletons": self.single,
            "partition": if self.first {"first"} else {"nearest"}, "metric": if self.l1 {"L1"} else {"L2"}, "rng_seed": self.seed})
    }
    /// Distances, scales and their comparisons are exact here (dyadic coordinates, one dimension or L1, base 2), so ties with a
    /// radius are decided without tolerance.
    fn gen_exact(rng: &mut SmallRng) -> Case {
        let l1: bool = rng.gen();
        let dim = if l1 { [1, 2, 3, 9][rng.gen_range(0..4)] } else { 1 };
        let n = [2, 3, 4, 5, 8, 13, 21, 40][rng.gen_range(0..8)];
        let (span, unit) = ([2i32, 4, 8, 16, 64][rng.gen_range(0..5)], [1.0f32, 0.5, 0.125, 2.0][rng.gen_range(0..4)]);
        let pts = (0..n * dim).map(|_| if rng.gen_range(0..4) == 0 { (1 << rng.gen_range(0..6)) as f32 * unit } else { rng.gen_range(-span..span + 1) as f32 * unit }).collect();
        Case { pts, dim, base: 2.0, cutoff: [0, 1, 1, 2, 3][rng.gen_range(0..5)], minres: [-10, -6, -4, -2, 0, 1][rng.gen_range(0..6)], single: rng.gen(),
            first: rng.gen_range(0..3) == 0, l1, seed: rng.gen_range(0..1000), exact: true, rule: None }
    }
    /// A chain of points approaching one of them geometrically: the tree is as deep as it has points.
    fn gen_deep(rng: &mut SmallRng) -> Case {
        let l1: bool = rng.gen();
        let (n, dim) = (if l1 { rng.gen_range(40..110) } else { rng.gen_range(30..58) }, rng.gen_range(1..3));
        let up = if l1 { 0 } else { rng.gen_range(0..20) };
        let mut pts = vec![0.0; n * dim];
        for i in 1..n { pts[i * dim] = (2.0f32).powi(up - i as i32) * if i % 3 == 0 && rng.gen() { 1.25 } else { 1.0 }; }
        Case { pts, dim, base: [1.5, 2.0, 2.0, 3.0][rng.gen_range(0..4)], cutoff: [0, 1, 1, 2][rng.gen_range(0..4)], minres: [-200, -130, -60][rng.gen_range(0..3)], single: rng.gen(),
            first: rng.gen_range(0..3) == 0, l1, seed: rng.gen_range(0..1000), exact: false, rule: None }
    }
    /// Nodes with hundreds of singletons or hundreds of children: large leaf cutoffs, equidistant points, heaps of duplicates.
    fn gen_wide(rng: &mut SmallRng) -> Case {
        let kind = rng.gen_range(0..4);
        let (n, dim) = match kind { 0 => { let n = rng.gen_range(120..330); (n, n) }, 1 => (rng.gen_range(280..700), 1), _ => (rng.gen_range(280..1300), [1, 2, 3][rng.gen_range(0..3)]) };
        let mut pts = if kind == 3 { gen_points(rng, n, dim) } else { vec![0.0; n * dim] };
        for i in 0..n { match kind {
            0 => pts[i * dim + i] = 1.0 + 0.001 * (i % 7) as f32,
            1 => pts[i] = if i % 50 == 0 { i as f32 } else { 3.25 },
            2 => for j in 0..dim { pts[i * dim + j] = rng.gen::<f32>() * 10.0; },
            _ => {}
        } }
        let cutoff = match kind { 0 => rng.gen_range(0..2), 1 => [1, 50][rng.gen_range(0..2)], _ => [100, 150, 270, 600, 1100, 3000][rng.gen_range(0..6)] };
        Case { pts, dim, base: [1.5, 2.0, 2.0, 3.0][rng.gen_range(0..4)], cutoff, minres: [-10, -4, 0][rng.gen_range(0..3)], single: kind == 0 || rng.gen(),
            first: rng.gen_range(0..3) == 0, l1: kind != 0 && rng.gen(), seed: rng.gen_range(0..1000), exact: false, rule: None }
    }
    /// More points than a 16 bit index can name.
    fn gen_huge(rng: &mut SmallRng) -> Case {
        let n = 66000 + rng.gen_range(0..3000usize);
        let pts = (0..n).map(|i| ((i * 7919) % n) as f32 * 0.25).collect();
        Case { pts, dim: 1, base: 2.0, cutoff: [900, 2500][rng.gen_range(0..2)], minres: -4, single: true, first: false, l1: true, seed: rng.gen_range(0..1000), exact: false,
            rule: Some(format!("x_i = ((7919 i) mod {}) / 4 for i in 0..{}", n, n)) }
    }
    fn tol(&self, d: f32) -> f32 { if self.exact { 0.0 } else { tol(d) } }
    pub fn gen(rng: &mut SmallRng, big: bool) -> Case {
        let dim = [1, 1, 2, 2, 3, 5, 9, 17][rng.gen_range(0..8)];
        let n = if big { rng.gen_range(320..420) } else { [1, 2, 3, 5, 8, 13, 21, 40, 70][rng.gen_range(0..9)] };
        let pts = gen_points(rng, n, dim);
        Case { pts, dim, base: [1.3, 1.5, 2.0, 2.0, 3.0][rng.gen_range(0..5)], cutoff: [0, 1, 1, 2, 3, 5, 25][rng.gen_range(0..7)],
            minres: [-20, -10, -10, -4, -2, 0, 3][rng.gen_range(0..7)], single: rng.gen(), first: rng.gen_range(0..3) == 0, l1: rng.gen_range(0..4) == 0, seed: rng.gen_range(0..1000), exact: false, rule: None }
    }
    fn builder(&self) -> CoverTreeBuilder {
        let mut b = if self.first {
            std::fs::write("b.yml", "---\npartition_type: first\n").unwrap();
            CoverTreeBuilder::from_yaml("b.yml")
        } else { CoverTreeBuilder::new() };
        b.set_scale_base(self.base).set_leaf_cutoff(self.cutoff).set_min_res_index(self.minres).set_use_singletons(self.single).set_rng_seed(self.seed).set_verbosity(0);
        b
    }
}

pub fn snap<D: PointCloud>(r: &CoverTreeReader<D>) -> HashMap<Addr, N> {
    let mut m = HashMap::new();
    for (_si, l) in r.layers() {
        l.for_each_node(|_pi, n| {
            m.insert(n.address(), N { addr: n.address(), parent: n.parent_address(), radius: n.radius(), count: n.coverage_count(),
                nested: n.children().map(|c| c.0), kids: n.children().map(|c| c.1.to_vec()).unwrap_or_default(), sing: n.singletons().to_vec() });
        });
    }
    m
}

/// points covered by a node, found by walking the real links
pub fn covered(m: &HashMap<Addr, N>, a: Addr, depth: usize) -> Result<Vec<usize>, String> {
    ensure!(depth < 400, "the child links from the root do not end (cycle through {:?})", a);
    let n = m.get(&a).ok_or(format!("address {:?} is linked to but no node lives there", a))?;
    let mut v = n.sing.clone();
    match n.nested {
        None => v.push(a.1),
        Some(s) => {
            v.extend(covered(m, (s, a.1), depth + 1)?);
            for k in &n.kids { v.extend(covered(m, *k, depth + 1)?); }
        }
    }
    Ok(v)
}

fn metric(c: &Case, x: &[f32], y: &[f32]) -> f32 { if c.l1 { <L1 as Metric<[f32]>>::dist(x, y) } else { <L2 as Metric<[f32]>>::dist(x, y) } }
fn tol(d: f32) -> f32 { 1e-4 * (d.abs() + 1e-3) }

pub fn p01<D: PointCloud<Point = [f32]>>(c: &Case, r: &CoverTreeReader<D>) -> R {
    let m = snap(r);
    let all = covered(&m, r.root_address(), 0)?;
    let set: BTreeSet<usize> = all.iter().cloned().collect();
    let want: BTreeSet<usize> = (0..c.n()).collect();
    ensure!(set == want, "the root covers {:?}, not every point 0..{}", set, c.n());
    ensure!(all.len() == c.n(), "a point is covered twice: {:?}", all);
    let mut reach = 0;
    let mut todo = vec![r.root_address()];
    while let Some(a) = todo.pop() {
        reach += 1;
        let n = &m[&a];
        let cov = covered(&m, a, 0)?;
        let s: BTreeSet<usize> = cov.iter().cloned().collect();
        ensure!(s.len() == cov.len(), "node {:?}: the children and singletons overlap: {:?}", a, cov);
        ensure!(cov.len() == n.count, "node {:?}: coverage_count is {} but it covers {:?}", a, n.count, cov);
        ensure!(s.contains(&a.1), "node {:?} does not cover its own center", a);
        if let Some(ns) = n.nested { todo.push((ns, a.1)); }
        todo.extend(&n.kids);
    }
    ensure!(reach == m.len(), "{} nodes stored, {} reachable from the root", m.len(), reach);
    ensure!(r.node_count() == m.len(), "node_count {} but {} nodes", r.node_count(), m.len());
    Ok(())
}

pub fn p02<D: PointCloud<Point = [f32]>>(c: &Case, r: &CoverTreeReader<D>) -> R {
    let m = snap(r);
    let root = r.root_address();
    for n in m.values() {
        let cov = covered(&m, n.addr, 0)?;
        let mut mx: f32 = f32::NEG_INFINITY;
        for p in &cov {
            if *p == n.addr.1 { continue; }
            let d = metric(c, c.p(*p), c.p(n.addr.1));
            mx = mx.max(d);
            ensure!(d <= n.radius + c.tol(d), "node {:?}: covers point {} at distance {} > radius {}", n.addr, p, d, n.radius);
            let b = c.base.powi(n.addr.0);
            if n.addr != root { ensure!(d < b + c.tol(b), "node {:?}: covers point {} at distance {} >= scale_base^scale {}", n.addr, p, d, b); }
            else { ensure!(d <= b + c.tol(b), "root {:?}: covers point {} at distance {} > scale_base^scale {}", n.addr, p, d, b); }
        }
        if cov.len() > 1 { ensure!((mx - n.radius).abs() <= c.tol(mx), "node {:?}: radius {} is not the largest covered distance {}", n.addr, n.radius, mx); }
        // centers of sibling routing children and the nested child are separated by less than nothing: each child center is a covered point
        for k in n.kids.iter() {
            let d = metric(c, c.p(k.1), c.p(n.addr.1));
            ensure!(d <= n.radius + c.tol(d), "node {:?}: child {:?} lies outside the radius", n.addr, k);
            let cb = c.base.powi(k.0);
            ensure!(d >= cb - c.tol(cb), "node {:?}: child {:?} is within the child scale {} of the center ({}), it had to be covered by the nested child", n.addr, k, cb, d);
        }
        if let Some(ns) = n.nested {
            let cb = c.base.powi(ns);
            let mut cs: Vec<usize> = n.kids.iter().map(|k| k.1).collect();
            cs.extend(&n.sing);
            for i in 0..cs.len() { for j in 0..i {
                let d = metric(c, c.p(cs[i]), c.p(cs[j]));
                ensure!(d >= cb - c.tol(cb), "node {:?}: child centers {} and {} are {} apart, less than the child scale {}", n.addr, cs[i], cs[j], d, cb);
            } }
        }
        for s in n.sing.iter() { if n.nested.is_some() {
            let cb = c.base.powi(n.nested.unwrap());
            let d = metric(c, c.p(*s), c.p(n.addr.1));
            ensure!(d >= cb - c.tol(cb), "node {:?}: singleton {} is within {} of the center", n.addr, s, cb);
        } }
    }
    Ok(())
}

pub fn p03<D: PointCloud<Point = [f32]>>(c: &Case, r: &CoverTreeReader<D>) -> R {
    let m = snap(r);
    let root = r.root_address();
    ensure!(m.contains_key(&root), "no node at the root address {:?}", root);
    ensure!(m[&root].parent.is_none(), "the root has a parent");
    let mut parents: HashMap<Addr, Addr> = HashMap::new();
    for n in m.values() {
        if n.addr != root { let pa = n.parent.ok_or(format!("{:?} has no parent", n.addr))?; ensure!(m.contains_key(&pa), "parent {:?} of {:?} does not resolve", pa, n.addr); }
        let mut kids = n.kids.clone();
        if let Some(s) = n.nested { kids.push((s, n.addr.1)); ensure!(n.kids.iter().all(|k| k.1 != n.addr.1), "two nested children"); }
        for k in kids {
            let kn = m.get(&k).ok_or(format!("child {:?} of {:?} does not resolve", k, n.addr))?;
            ensure!(k.0 < n.addr.0, "child {:?} is not on a lower scale than its parent {:?}", k, n.addr);
            ensure!(kn.parent == Some(n.addr), "child {:?} of {:?} says its parent is {:?}", k, n.addr, kn.parent);
            ensure!(parents.insert(k, n.addr).is_none(), "two parents list {:?}", k);
        }
    }
    let mut nl = 0;
    for (si, l) in r.layers() {
        nl += 1;
        ensure!(l.scale_index() == si, "layer iterator says {} for the layer of scale {}", si, l.scale_index());
        ensure!(r.layer(si).scale_index() == si, "layer({}) answers with layer {}", si, r.layer(si).scale_index());
        ensure!(l.len() == l.node_center_indexes().len(), "layer len");
        ensure!(l.is_empty() == (l.len() == 0), "layer is_empty");
        let mut bad = None;
        l.for_each_node(|pi, n| if n.address().1 != *pi || n.address().0 != si { bad = Some((si, *pi, n.address())) });
        ensure!(bad.is_none(), "node stored under the wrong address: {:?}", bad);
        for pi in l.node_center_indexes() {
            ensure!(r.get_node_and((si, pi), |n| n.address()) == Some((si, pi)), "get_node_and({:?})", (si, pi));
            let want = m[&(si, pi)].clone();
            let got = r.get_node_children_and((si, pi), |nested, kids| (nested, kids.to_vec()));
            ensure!(got == want.nested.map(|s| ((s, pi), want.kids.clone())), "get_node_children_and({:?})", (si, pi));
        }
    }
    ensure!(nl == r.len(), "len() {} layers {}", r.len(), nl);
    let sr = r.scale_range();
    ensure!(sr.start == c.minres && sr.end == root.0 + 1, "scale_range is {:?} for scales {}..={}", sr, c.minres, root.0);
    let mut seen: Vec<i32> = r.layers().map(|(s, _)| s).collect();
    seen.dedup();
    ensure!(seen.len() == r.len(), "a scale is listed twice: {:?}", seen);
    ensure!(m.values().all(|n| seen.contains(&n.addr.0)), "a node on an unlisted scale");
    for (si, _) in r.layers() { ensure!(si <= root.0 && si >= c.minres - 1, "layer {} outside [{}, {}]", si, c.minres - 1, root.0); }
    ensure!(r.get_node_and((root.0, c.n() + 5), |_| ()).is_none(), "a node for an unknown point");
    Ok(())
}

fn knn_ok(c: &Case, q: &[f32], k: usize, cand: &[usize], got: &[(f32, usize)], what: &str) -> R {
    let mut all: Vec<(f32, usize)> = cand.iter().map(|i| (metric(c, c.p(*i), q), *i)).collect();
    all.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
    let want = k.min(cand.len());
    ensure!(got.len() == want, "{}: {} results for k={} over {} points (query {:?}): {:?}", what, got.len(), k, cand.len(), q, got);
    let mut seen = BTreeSet::new();
    for (j, (d, i)) in got.iter().enumerate() {
        ensure!(seen.insert(*i), "{}: point {} returned twice: {:?}", what, i, got);
        ensure!(cand.contains(i), "{}: point {} is not a candidate", what, i);
        let real = metric(c, c.p(*i), q);
        ensure!((real - d).abs() <= tol(real), "{}: reported distance {} of point {} is not {}", what, d, i, real);
        ensure!(j == 0 || got[j - 1].0 <= *d, "{}: not sorted: {:?}", what, got);
        ensure!((all[j].0 - d).abs() <= tol(all[j].0), "{}: neighbour {} at {} but the true {}-th distance is {} (query {:?}, k={}): {:?}", what, i, d, j, all[j].0, q, k, got);
    }
    Ok(())
}

fn queries(c: &Case, rng: &mut SmallRng) -> Vec<Vec<f32>> {
    let mut qs: Vec<Vec<f32>> = vec![vec![0.0; c.dim]];
    for _ in 0..4 {
        let i = rng.gen_range(0..c.n());
        qs.push(c.p(i).to_vec());
        let j = rng.gen_range(0..c.n());
        qs.push(c.p(i).iter().zip(c.p(j)).map(|(a, b)| (a + b) * 0.5).collect());
        qs.push(c.p(i).iter().map(|a| a + (rng.gen::<f32>() - 0.5) * (a.abs() + 0.1)).collect());
    }
    qs.push(c.p(0).iter().map(|a| a * 3.0 + 7.0).collect());
    qs.push(vec![1.0e4; c.dim]);
    qs
}

pub fn p04<D: PointCloud<Point = [f32]>>(c: &Case, r: &CoverTreeReader<D>, rng: &mut SmallRng) -> R {
    let all: Vec<usize> = (0..c.n()).collect();
    for q in queries(c, rng) {
        for k in [1usize, 2, 3, 5, 10, c.n(), c.n() + 3, 1 << 40, usize::MAX].iter() {
            let got = r.knn(&&q[..], *k).map_err(|e| format!("knn error {:?}", e))?;
            knn_ok(c, &q, *k, &all, &got, "knn")?;
        }
        let z = r.knn(&&q[..], 0).map_err(|e| format!("knn error {:?}", e))?;
        ensure!(z.is_empty(), "k=0 gave {:?}", z);
    }
    Ok(())
}

pub fn p05<D: PointCloud<Point = [f32]>>(c: &Case, r: &CoverTreeReader<D>, rng: &mut SmallRng) -> R {
    let m = snap(r);
    let centers: Vec<usize> = m.keys().map(|a| a.1).collect::<BTreeSet<usize>>().into_iter().collect();
    let qs = queries(c, rng);
    for q in &qs {
        for k in [1usize, 2, 4, 9, centers.len(), c.n() + 2, usize::MAX].iter() {
            let got = r.routing_knn(&&q[..], *k).map_err(|e| format!("routing_knn error {:?}", e))?;
            knn_ok(c, q, *k, &centers, &got, "routing_knn")?;
        }
    }
    Ok(())
}

/// the bulk interface answers each query like the reader, one answer per query and in order
pub fn p21<D: PointCloud<Point = [f32]>>(c: &Case, r: &CoverTreeReader<D>, b: &BulkInterface<D>, rng: &mut SmallRng) -> R {
    // many queries to a small tree, a few to a large one, and now and then very many
    let count = if c.n() > 60 { rng.gen_range(0..8) } else if rng.gen_range(0..300) == 0 { 5003 } else { match rng.gen_range(0..12) { 0 => 0, 1 => 1, 2 => 99, 3 => 100, 4 => 101, 5 => 199, 6 => 200, 7 => 201, 8 => 1001, _ => rng.gen_range(2..640) } };
    let k = match rng.gen_range(0..6) { 0 => 0, 1 => 1, 2 => 3, 3 => c.n(), 4 => usize::MAX, _ => rng.gen_range(0..c.n() + 2) };
    // distinct queries, so that a misplaced answer shows
    let qs: Vec<Vec<f32>> = (0..count).map(|_| { let i = rng.gen_range(0..c.n()); c.p(i).iter().map(|a| a + (rng.gen::<f32>() - 0.5) * (a.abs() + 0.1)).collect() }).collect();
    let refs: Vec<&[f32]> = qs.iter().map(|q| &q[..]).collect();
    let is: Vec<usize> = (0..count).map(|_| rng.gen_range(0..c.n() + 2)).collect();
    type K = Result<Vec<(f32, usize)>, goko::errors::GokoError>;
    let ok = |x: &K, y: K| x.as_ref().ok().map(|v| v.iter().map(|a| a.0.to_bits()).collect::<Vec<_>>()) == y.ok().map(|v| v.iter().map(|a| a.0.to_bits()).collect::<Vec<_>>());
    let (bk, br, bp, bkp) = (b.knn(&refs, k), b.routing_knn(&refs, k), b.path(&refs), b.known_path(&is));
    let (ki, kp) = (b.known_path_and(&is, |rr, a| (rr.root_address(), a.ok())), b.index_map_with_reader(&is, |rr, i| (i, rr.known_path(i).ok())));
    let pm = b.point_map_with_reader(&refs, |rr, p| (p.to_vec(), rr.path(p).ok()));
    for (n, what) in [(bk.len(), "knn"), (br.len(), "routing_knn"), (bp.len(), "path"), (bkp.len(), "known_path"), (ki.len(), "known_path_and"), (kp.len(), "index_map"), (pm.len(), "point_map")].iter() {
        ensure!(*n == count, "bulk {}: {} answers for {} queries", what, n, count);
    }
    for i in 0..count {
        ensure!(ok(&bk[i], r.knn(&refs[i], k)), "bulk knn differs from knn at query {} of {}", i, count);
        ensure!(ok(&br[i], r.routing_knn(&refs[i], k)), "bulk routing_knn differs at query {} of {}", i, count);
        let (path, known) = (r.path(&refs[i]).ok(), r.known_path(is[i]).ok());
        ensure!(bp[i].as_ref().ok() == path.as_ref(), "bulk path differs at query {} of {}", i, count);
        ensure!(bkp[i].as_ref().ok() == known.as_ref(), "bulk known_path differs at query {} of {}", i, count);
        ensure!(ki[i].0 == r.root_address() && ki[i].1 == known && kp[i] == (is[i], known), "bulk map over indexes differs at query {} of {}", i, count);
        ensure!(pm[i] == (qs[i].clone(), path), "bulk map over points differs at query {} of {}", i, count);
    }
    // the same queries as the rows of an array, in whatever layout
    let flat: Vec<f32> = qs.iter().flatten().cloned().collect();
    let std = Array2::from_shape_vec((count, c.dim), flat.clone()).unwrap();
    let cols: Vec<f32> = (0..c.dim).flat_map(|j| qs.iter().map(move |q| q[j])).collect();
    let col_major = Array2::from_shape_vec((c.dim, count), cols).unwrap();
    let padded = { let mut a = Array2::<f32>::from_elem((2 * count, 2 * c.dim), -1.0); for i in 0..count { for j in 0..c.dim { a[[2 * i, 2 * j]] = qs[i][j]; } } a };
    let layout = rng.gen_range(0..3);
    let view = match layout { 0 => std.view(), 1 => col_major.t(), _ => padded.slice(s![..;2, ..;2]) };
    let am = b.array_map_with_reader(view, |rr, p| (p.to_vec(), rr.path(p).ok()));
    let lay = ["row by row", "column by column", "strided"][layout];
    ensure!(am.len() == count, "bulk map over an array ({}): {} answers for {} rows", lay, am.len(), count);
    for i in 0..count { ensure!(am[i] == pm[i], "bulk map over an array ({}) differs at row {} of {}", lay, i, count); }
    Ok(())
}

pub fn p06<D: PointCloud<Point = [f32]>>(c: &Case, r: &CoverTreeReader<D>, rng: &mut SmallRng) -> R {
    let m = snap(r);
    let walk = |q: &[f32], path: &[(f32, Addr)]| -> R {
        ensure!(!path.is_empty() && path[0].1 == r.root_address(), "the path does not start at the root: {:?}", path);
        for (j, (d, a)) in path.iter().enumerate() {
            ensure!(m.contains_key(a), "path address {:?} does not resolve", a);
            let real = metric(c, c.p(a.1), q);
            ensure!((real - d).abs() <= c.tol(real), "path distance {} to {:?} is not {}", d, a, real);
            if j > 0 {
                let pn = &m[&path[j - 1].1];
                ensure!(pn.kids.contains(a) || pn.nested == Some(a.0) && pn.addr.1 == a.1, "{:?} is not a child of {:?}", a, pn.addr);
            }
        }
        Ok(())
    };
    for q in queries(c, rng) {
        let path = r.path(&&q[..]).map_err(|e| format!("{:?}", e))?;
        walk(&q, &path)?;
        for j in 1..=path.len() {
            let pn = &m[&path[j - 1].1];
            let mut kids: Vec<Addr> = vec![];
            if let Some(s) = pn.nested { kids.push((s, pn.addr.1)); }
            kids.extend(&pn.kids);
            let ds: Vec<f32> = kids.iter().map(|k| metric(c, c.p(k.1), &q)).collect();
            let inside = |i: usize| ds[i] < c.base.powi(kids[i].0);
            if j < path.len() {
                let i = kids.iter().position(|k| *k == path[j].1).unwrap();
                let b = c.base.powi(kids[i].0);
                ensure!(ds[i] < b + c.tol(b), "step to {:?} which does not cover the query (distance {} scale {})", kids[i], ds[i], b);
                if !c.first { for (o, d) in ds.iter().enumerate() { ensure!(*d >= ds[i] - c.tol(*d), "step to {:?} at {} though {:?} is nearer at {}", kids[i], ds[i], kids[o], d); } }
                else { for o in 0..i { let b = c.base.powi(kids[o].0); ensure!(ds[o] >= b - c.tol(b), "step to {:?} though the earlier child {:?} covers the query", kids[i], kids[o]); } }
            } else if !kids.is_empty() {
                // the path stops: the nearest child (nearest) / every child (first) does not cover
                let mi = (0..kids.len()).min_by(|a, b| ds[*a].partial_cmp(&ds[*b]).unwrap()).unwrap();
                let b = c.base.powi(kids[mi].0);
                ensure!(!inside(mi) || ds[mi] >= b - c.tol(b), "the path stops at {:?} though its nearest child {:?} at {} covers the query (scale {})", pn.addr, kids[mi], ds[mi], b);
            }
        }
    }
    let far = vec![1.0e30f32; c.p(0).len()];
    let path = r.path(&&far[..]).map_err(|e| format!("{:?}", e))?;
    ensure!(!path.is_empty() && path[0].1 == r.root_address(), "the path of a far point does not start at the root: {:?}", path);
    for i in 0..c.n() {
        let kp = r.known_path(i).map_err(|e| format!("known_path({}) of a tree point: {:?}", i, e))?;
        walk(c.p(i), &kp)?;
        let last = &m[&kp[kp.len() - 1].1];
        ensure!(last.sing.contains(&i) || last.nested.is_none() && last.addr.1 == i, "known_path({}) ends at {:?} which does not hold the point", i, last.addr);
        let ca: Vec<Addr> = kp.iter().map(|x| x.1).collect();
        let fresh: Vec<Addr> = r.path(&c.p(i)).map_err(|e| format!("{:?}", e))?.iter().map(|x| x.1).collect();
        ensure!(fresh == ca, "point {} of the tree: path of its coordinates is {:?}, known_path is {:?}", i, fresh, ca);
        for a in &ca { ensure!(covered(&m, *a, 0)?.contains(&i), "known_path({}) passes {:?} which does not cover it", i, a); }
        for (a, n) in &m { if covered(&m, *a, 0)?.contains(&i) { ensure!(ca.contains(&n.addr), "known_path({}) misses the covering node {:?}", i, a); } }
    }
    ensure!(r.known_path(c.n()).is_err() && r.known_path(usize::MAX).is_err(), "known_path of a point outside the tree is not an error");
    Ok(())
}

pub fn p07<D: PointCloud<Point = [f32]>>(c: &Case, w: &CoverTreeWriter<D>, rng: &mut SmallRng) -> R {
    let r = w.reader();
    let pc = r.point_cloud().clone();
    let f = std::env::current_dir().unwrap().join("t.tree");
    // overwriting an older, longer file must not leave its tail behind
    if rng.gen() { std::fs::write(&f, vec![0x55u8; 1 << 16]).unwrap(); }
    goko::utils::save_tree(&f, w).map_err(|e| format!("save: {:?}", e))?;
    let w2 = goko::utils::load_tree(&f, pc.clone()).map_err(|e| format!("load: {:?}", e))?;
    let same = |w2: &CoverTreeWriter<D>, what: &str, rng: &mut SmallRng| -> R {
        let r2 = w2.reader();
        ensure!(r2.root_address() == r.root_address(), "{}: root {:?} became {:?}", what, r.root_address(), r2.root_address());
        let (m, m2) = (snap(&r), snap(&r2));
        ensure!(m.len() == m2.len(), "{}: {} nodes became {}", what, m.len(), m2.len());
        for (a, n) in &m {
            let n2 = m2.get(a).ok_or(format!("{}: node {:?} lost", what, a))?;
            ensure!(format!("{:?}", n) == format!("{:?}", n2), "{}: node changed: {:?} -> {:?}", what, n, n2);
        }
        ensure!(r.len() == r2.len(), "{}: layers {} -> {}", what, r.len(), r2.len());
        for ((s1, l1), (s2, l2)) in r.layers().zip(r2.layers()) { ensure!(s1 == s2 && l1.scale_index() == l2.scale_index() && l1.len() == l2.len(), "{}: layer {} became {}", what, l1.scale_index(), l2.scale_index()); }
        let (p, p2) = (r.parameters(), r2.parameters());
        ensure!(p.scale_base == p2.scale_base && p.leaf_cutoff == p2.leaf_cutoff && p.min_res_index == p2.min_res_index && p.use_singletons == p2.use_singletons && format!("{:?}", p.partition_type) == format!("{:?}", p2.partition_type),
            "{}: parameters changed", what);
        for q in queries(c, rng) {
            ensure!(r.knn(&&q[..], 3).ok().map(|v| v.iter().map(|x| x.0.to_bits()).collect::<Vec<_>>()) == r2.knn(&&q[..], 3).ok().map(|v| v.iter().map(|x| x.0.to_bits()).collect::<Vec<_>>()), "{}: knn differs at {:?}", what, q);
            ensure!(r.path(&&q[..]).ok() == r2.path(&&q[..]).ok(), "{}: path differs at {:?}", what, q);
        }
        for i in 0..c.n() + 1 { ensure!(r.known_path(i).ok() == r2.known_path(i).ok(), "{}: known_path({}) differs: {:?} -> {:?}", what, i, r.known_path(i), r2.known_path(i)); }
        Ok(())
    };
    same(&w2, "save/load", rng)?;
    // and a second generation
    goko::utils::save_tree(&f, &w2).map_err(|e| format!("save: {:?}", e))?;
    let w3 = goko::utils::load_tree(&f, pc).map_err(|e| format!("load: {:?}", e))?;
    same(&w3, "save/load twice", rng)
}

/// what a builder is asked for, by setters or by a file, is what the tree is built with; a seed makes the build reproducible
fn p22<M: Metric<[f32]>>(c: &Case, rng: &mut SmallRng) -> R {
    let build = |b: &CoverTreeBuilder| -> Result<CoverTreeWriter<DataRam<M>>, String> { let d: DataRam<M> = DataRam::new(c.pts.clone(), c.dim).unwrap(); b.build(Arc::new(d)).map_err(|e| format!("build: {:?}", e)) };
    // a configuration file; each entry may be missing, the base may be a whole number
    let have: Vec<bool> = (0..6).map(|_| rng.gen_range(0..4) > 0).collect();
    let whole = c.base.fract() == 0.0;
    let base_txt = if whole && rng.gen() { format!("{}", c.base as i64) } else { format!("{:?}", c.base) };
    let seed = if rng.gen_range(0..4) == 0 { c.seed << 40 } else { c.seed };
    let mut lines: Vec<String> = vec![];
    if have[0] { lines.push(format!("scale_base: {}", base_txt)); }
    if have[1] { lines.push(format!("leaf_cutoff: {}", c.cutoff)); }
    if have[2] { lines.push(format!("min_res_index: {}", c.minres)); }
    if have[3] { lines.push(format!("use_singletons: {}", c.single)); }
    if have[4] { lines.push(format!("partition_type: {}", if c.first { "first" } else { "nearest" })); }
    if have[5] { lines.push(format!("rng_seed: {}", seed)); }
    if rng.gen() { lines.push(format!("verbosity: {}", rng.gen_range(0..3))); }
    if rng.gen() { lines.push("count: 17".to_string()); }
    for i in (1..lines.len()).rev() { let j = rng.gen_range(0..i + 1); lines.swap(i, j); }
    let text = format!("---\n{}\n", lines.join("\n"));
    let text = if lines.is_empty() { "---\nother: 1\n".to_string() } else { text };
    std::fs::write("c.yml", &text).unwrap();
    let mut by_file = CoverTreeBuilder::from_yaml("c.yml");
    let (eb, ec, em, es, ef) = (if have[0] { c.base } else { 2.0 }, if have[1] { c.cutoff } else { 1 }, if have[2] { c.minres } else { -10 }, !have[3] || c.single, have[4] && c.first);
    let tell = |p: &CoverTreeParameters<DataRam<M>>, what: &str, eb: f32, ec: usize, em: i32, es: bool, ef: bool, er: Option<u64>| -> R {
        ensure!(p.scale_base == eb && p.leaf_cutoff == ec && p.min_res_index == em && p.use_singletons == es && matches!(p.partition_type, PartitionType::First) == ef && p.rng_seed == er,
            "{}: the tree is built with base {} cutoff {} resolution {} singletons {} rule {:?} seed {:?}, asked for {} {} {} {} {} {:?}", what, p.scale_base, p.leaf_cutoff, p.min_res_index, p.use_singletons, p.partition_type, p.rng_seed, eb, ec, em, es, if ef { "First" } else { "Nearest" }, er);
        Ok(())
    };
    let w = build(&by_file)?;
    tell(&w.reader().parameters(), &format!("file {:?}", text), eb, ec, em, es, ef, if have[5] { Some(seed) } else { None })?;
    let keeps = |w: &CoverTreeWriter<DataRam<M>>| -> R {
        let r = w.reader();
        let p = r.parameters();
        for n in snap(&r).values() {
            ensure!(n.count > p.leaf_cutoff || n.nested.is_none(), "node {:?} covers {} points, no more than the cutoff {}, and has children", n.addr, n.count, p.leaf_cutoff);
            ensure!(n.addr.0 >= p.min_res_index || n.nested.is_none(), "node {:?} lies below the resolution {} and has children", n.addr, p.min_res_index);
            if n.nested.is_none() && n.count > p.leaf_cutoff.max(1) && n.addr.0 > p.min_res_index {
                ensure!(p.use_singletons, "node {:?} covers {} points, more than the cutoff {}, and is not divided", n.addr, n.count, p.leaf_cutoff);
                // its points are apart at the scale it would be divided at (one scale of slack for rounding)
                let far = p.scale_base.powi((n.addr.0 - 1).min((n.radius.log(p.scale_base).ceil() as i32).max(p.min_res_index)) - 1) as f64;
                let pts: Vec<usize> = n.sing.iter().cloned().chain(Some(n.addr.1)).take(40).collect();
                for (j, x) in pts.iter().enumerate() { for y in &pts[..j] {
                    ensure!(metric(c, c.p(*x), c.p(*y)) as f64 >= far, "points {} and {} lie within {} of each other, but node {:?} of {} points (cutoff {}) is not divided", x, y, far, n.addr, n.count, p.leaf_cutoff);
                } }
            }
            ensure!(p.use_singletons || n.nested.is_none() || n.sing.is_empty(), "node {:?} has children and singletons {:?} though they are switched off", n.addr, n.sing);
        }
        Ok(())
    };
    keeps(&w)?;
    let same = |w: &CoverTreeWriter<DataRam<M>>, v: &CoverTreeWriter<DataRam<M>>, what: &str| -> R {
        let (r, q) = (w.reader(), v.reader());
        let (a, b) = (snap(&r), snap(&q));
        ensure!(r.root_address() == q.root_address() && a.len() == b.len(), "{}: root {:?} and {} nodes, then root {:?} and {} nodes", what, r.root_address(), a.len(), q.root_address(), b.len());
        for (k, x) in &a {
            match b.get(k) {
                Some(y) => ensure!(x.parent == y.parent && x.radius.to_bits() == y.radius.to_bits() && x.count == y.count && x.nested == y.nested && x.kids == y.kids && x.sing == y.sing, "{}: node {:?} differs: parent {:?}/{:?} radius {}/{} children {:?}/{:?} singletons {:?}/{:?}", what, k, x.parent, y.parent, x.radius, y.radius, x.kids, y.kids, x.sing, y.sing),
                None => return Err(format!("{}: node {:?} is in one tree only", what, k)),
            }
        }
        Ok(())
    };
    if have[5] { same(&w, &build(&CoverTreeBuilder::from_yaml("c.yml"))?, "two builds from one file with a seed")?; }
    // the setters, in any order; the last call of a kind counts, the others stay
    let mut order: Vec<usize> = (0..6).chain((0..6).filter(|_| rng.gen_range(0..4) == 0)).collect();
    for i in (1..order.len()).rev() { let j = rng.gen_range(0..i + 1); order.swap(i, j); }
    for (n, o) in order.iter().enumerate() {
        let last = !order[n + 1..].contains(o);
        match o {
            0 => { by_file.set_scale_base(if last { c.base } else { 1.7 }); }
            1 => { by_file.set_leaf_cutoff(if last { c.cutoff } else { 31 }); }
            2 => { by_file.set_min_res_index(if last { c.minres } else { 2 }); }
            3 => { by_file.set_use_singletons(if last { c.single } else { !c.single }); }
            4 => { by_file.set_rng_seed(if last { seed } else { 12345 }); }
            _ => { by_file.set_verbosity(0); }
        }
    }
    let w = build(&by_file)?;
    tell(&w.reader().parameters(), "setters", c.base, c.cutoff, c.minres, c.single, ef, Some(seed))?;
    keeps(&w)?;
    same(&w, &build(&by_file)?, "two builds with one seed")?;
    if !ef {
        // a builder of its own, set in one chain
        let mut b = CoverTreeBuilder::new();
        b.set_rng_seed(seed).set_use_singletons(c.single).set_min_res_index(c.minres).set_leaf_cutoff(c.cutoff).set_scale_base(c.base).set_verbosity(0);
        same(&w, &build(&b)?, "the same configuration by a file and by setters")?;
    }
    Ok(())
}

fn one<M: Metric<[f32]>>(c: &Case, pid: &str, mut rng: SmallRng) -> R {
    if pid == "P22" { return p22::<M>(c, &mut rng); }
    let data: DataRam<M> = DataRam::new(c.pts.clone(), c.dim).unwrap();
    let w = c.builder().build(Arc::new(data)).map_err(|e| format!("build: {:?}", e))?;
    let r = w.reader();
    match pid {
        "P01" => p01(c, &r),
        "P02" => p02(c, &r),
        "P03" => p03(c, &r),
        "P04" => p04(c, &r, &mut rng),
        "P05" => p05(c, &r, &mut rng),
        "P21" => p21(c, &r, &BulkInterface::new(w.reader()), &mut rng),
        "P06" => p06(c, &r, &mut rng),
        "P07" => p07(c, &w, &mut rng),
        _ => Ok(()),
    }
}

pub fn run(x: &mut Ctx, pid: &str) {
    x.rule = "a generated point set (7 shapes x 6 magnitudes, plus dyadic sets compared without tolerance and geometric chains up to 110 levels deep; 1-110 points or 320-420 for the parallel distance path, dim 1-17, L1/L2; nodes with hundreds of children or singletons; one cloud of more than 66000 points) and builder parameters; non-trivial: at least 3 points; checked against brute force over all points".into();
    let n = x.n(match pid { "P01" => 48000, "P02" => 40000, "P03" => 36000, "P04" => 9000, "P05" => 6000, "P06" => 6000, "P21" => 1500, "P22" => 8000, _ => 7000 });
    for i in 0..n {
        if x.done() { break; }
        let mut rng = x.rng(i as u64);
        let c = if i == 70 && pid != "P04" && pid != "P06" && pid != "P21" { Case::gen_huge(&mut rng) } else if i % 120 == 57 { Case::gen_wide(&mut rng) } else if i % 60 == 58 { Case::gen_deep(&mut rng) } else if i % 3 == 2 { Case::gen_exact(&mut rng) } else { Case::gen(&mut rng, i % 60 == 59) };
        let d = c.desc();
        x.case(d, c.n() >= 3, || if c.l1 { one::<L1>(&c, pid, rng.clone()) } else { one::<L2>(&c, pid, rng.clone()) });
    }
}
