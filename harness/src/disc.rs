//! Replay of the summary-statistics contracts: discrete distributions (P09, P10), trackers (P11), node summaries (P12), Gaussians (P13).
use crate::common::*;
use crate::tree::{covered, snap, Addr};
use goko::plugins::discrete::prelude::*;
use goko::plugins::gaussians::*;
use goko::plugins::labels::*;
use goko::plugins::utils::*;
use goko::*;
use pointcloud::data_sources::DataRam;
use pointcloud::label_sources::SmallIntLabels;
use pointcloud::*;
use pointcloud::pc_errors::PointCloudResult;
use pointcloud::summaries::CategorySummary;
use rand::rngs::SmallRng;
use rand::Rng;
use serde_json::json;
use std::collections::{BTreeMap, VecDeque};
use std::sync::Arc;

type Counts = BTreeMap<Option<Addr>, f64>; // None = singletons
type Tr = BayesCategoricalTracker<DataRam>;

fn small_tree() -> CoverTreeReader<DataRam> {
    let d = Arc::new(DataRam::<L2>::new(vec![0.0, 0.3, 0.9, 1.4, 2.0, 3.3], 1).unwrap());
    let mut b = CoverTreeBuilder::new();
    b.set_scale_base(2.0).set_leaf_cutoff(1).set_min_res_index(-6).set_use_singletons(true).set_verbosity(0);
    let mut t = b.build(d).unwrap();
    t.add_plugin::<GokoDirichlet>(GokoDirichlet::default());
    let r = t.reader();
    std::mem::forget(t); // readers go blank once their writer is dropped
    r
}

const HOME: Addr = (77, 0); // never an address of a tree here
/// a Categorical with exactly these (integer) counts, obtained through the public tracker
fn categorical(r: &CoverTreeReader<DataRam>, c: &Counts, order: &mut SmallRng) -> Categorical {
    let mut t: Tr = BayesCategoricalTracker::new(0, r.clone());
    let mut paths: Vec<Option<Addr>> = vec![];
    for (k, n) in c { for _ in 0..*n as usize { paths.push(*k); } }
    for i in (1..paths.len()).rev() { paths.swap(i, order.gen_range(0..i + 1)); }
    for p in paths { t.add_path(match p { Some(a) => vec![(0.0, HOME), (0.0, a)], None => vec![(0.0, HOME)] }); }
    t.running_evidence().get(&HOME).cloned().unwrap_or_else(Categorical::new)
}
/// the same, but the summary has first seen, and then let expire, paths into the given categories: it holds entries of weight zero
fn categorical_after(r: &CoverTreeReader<DataRam>, c: &Counts, gone: &[Option<Addr>], order: &mut SmallRng) -> Categorical {
    let n = total(c) as usize;
    if n == 0 { return categorical(r, c, order); }
    let mut t: Tr = BayesCategoricalTracker::new(n, r.clone());
    let mut paths: Vec<Option<Addr>> = vec![];
    for (k, n) in c { for _ in 0..*n as usize { paths.push(*k); } }
    for i in (1..paths.len()).rev() { paths.swap(i, order.gen_range(0..i + 1)); }
    for p in gone.iter().chain(&paths) { t.add_path(match p { Some(a) => vec![(0.0, HOME), (0.0, *a)], None => vec![(0.0, HOME)] }); }
    t.running_evidence().get(&HOME).cloned().unwrap_or_else(Categorical::new)
}
const POOL: [Addr; 6] = [(-1, 0), (-1, 3), (-2, 1), (0, 5), (1, 2), (-7, 0)];
fn rand_gone(rng: &mut SmallRng) -> Vec<Option<Addr>> {
    (0..rng.gen_range(0..4)).map(|_| if rng.gen_range(0..4) == 0 { None } else { Some(POOL[rng.gen_range(0..6)]) }).collect()
}
fn rand_counts(rng: &mut SmallRng) -> Counts {
    let mut c = Counts::new();
    let pool = [(-1, 0usize), (-1, 3), (-2, 1), (0, 5), (1, 2), (-7, 0)];
    for _ in 0..rng.gen_range(0..5) { c.insert(Some(pool[rng.gen_range(0..pool.len())]), rng.gen_range(1..7) as f64); }
    if rng.gen() { c.insert(None, rng.gen_range(1..7) as f64); }
    // now and then one weight that dwarfs the others
    if rng.gen_range(0..12) == 0 { let k = c.keys().nth(rng.gen_range(0..c.len().max(1))).cloned(); if let Some(k) = k { c.insert(k, [40.0, 100.0, 300.0, 1100.0][rng.gen_range(0..4)]); } }
    c
}
fn jc(c: &Counts) -> serde_json::Value { json!(c.iter().map(|(k, v)| (format!("{:?}", k), *v)).collect::<BTreeMap<_, _>>()) }
fn total(c: &Counts) -> f64 { c.values().sum() }

fn pv_ok(pv: &Option<(Vec<(Addr, f64)>, f64)>, c: &Counts, ln: bool, what: &str) -> R {
    let t = total(c);
    if t <= 0.0 { ensure!(pv.is_none(), "{}: {:?} reported for an empty distribution", what, pv); return Ok(()); }
    let (v, s) = pv.as_ref().ok_or(format!("{}: nothing reported for a total of {}", what, t))?;
    let mut g: BTreeMap<Addr, f64> = BTreeMap::new();
    for (a, p) in v { ensure!(g.insert(*a, *p).is_none(), "{}: {:?} listed twice", what, a); }
    let f = |p: f64| if ln { p.ln() } else { p };
    for (a, p) in &g { let w = f(c.get(&Some(*a)).cloned().unwrap_or(0.0) / t); ensure!(close(*p, w, 1e-9), "{}: {:?} has {} expected {}", what, a, p, w); }
    for (k, w) in c { if let Some(a) = k { if *w > 0.0 { ensure!(g.contains_key(a), "{}: category {:?} is missing", what, a); } } }
    let w = f(c.get(&None).cloned().unwrap_or(0.0) / t);
    ensure!(close(*s, w, 1e-9), "{}: singletons have {} expected {}", what, s, w);
    Ok(())
}
fn cat_ok(k: &Categorical, c: &Counts, what: &str) -> R {
    ensure!(close(k.total(), total(c), 1e-9), "{}: total {} expected {}", what, k.total(), total(c));
    pv_ok(&k.prob_vector(), c, false, what)?;
    lnpdf_ok(&|l| k.ln_pdf(l), c, true, what)
}
fn lnpdf_ok(f: &dyn Fn(Option<&Addr>) -> Option<f64>, c: &Counts, none_if_empty: bool, what: &str) -> R {
    let t = total(c);
    for a in [None, Some((-1, 0usize)), Some((-1, 3)), Some((-2, 1)), Some((0, 5)), Some((1, 2)), Some((-7, 0)), Some((9, 9))] {
        let g = f(a.as_ref());
        if t <= 0.0 { if none_if_empty { ensure!(g.is_none(), "{}: ln_pdf of an empty distribution is {:?}", what, g); } continue; }
        let w = c.get(&a).cloned().unwrap_or(0.0).ln() - t.ln();
        let g = g.ok_or(format!("{}: ln_pdf({:?}) is absent", what, a))?;
        ensure!(close(g, w, 1e-9), "{}: ln_pdf({:?}) is {} expected {}", what, a, g, w);
    }
    Ok(())
}
fn dir_ok(d: &Dirichlet, c: &Counts, what: &str) -> R {
    ensure!(close(d.total(), total(c), 1e-9), "{}: total {} expected {}", what, d.total(), total(c));
    pv_ok(&d.prob_vector(), c, false, what)?;
    pv_ok(&d.ln_prob_vector(), c, true, &format!("{}, log probabilities", what))?;
    lnpdf_ok(&|l| d.ln_pdf(l), c, false, what)
}
fn add(c: &mut Counts, o: &Counts) { for (k, v) in o { *c.entry(*k).or_insert(0.0) += v; } }

pub fn p09(x: &mut Ctx) {
    x.rule = "random sequences of observations, evidence merges and re-weightings of a Dirichlet summary, and of added and expired paths of a counting summary, compared after every step with a reference multiset; non-trivial = two or more categories".into();
    let r = small_tree();
    let mut rng = x.rng(9);
    let pool = [(-1, 0usize), (-1, 3), (-2, 1), (0, 5), (1, 2), (-7, 0)];
    for t in 0..x.n(30000) {
        if x.done() { return; }
        let mut o2 = x.rng(900 + t as u64);
        let steps: Vec<(u8, Option<Addr>, Counts, f64)> = (0..rng.gen_range(1..14)).map(|_| (rng.gen_range(0..8u8), if rng.gen_range(0..4) == 0 { None } else { Some(pool[rng.gen_range(0..pool.len())]) }, rand_counts(&mut rng), [0.5, 2.0, 1.0, 0.25, 0.01][rng.gen_range(0..5)])).collect();
        let desc = json!({"dirichlet_steps": steps.iter().map(|s| match s.0 { 0 => json!({"weight": s.3}), 1 => json!({"evidence": jc(&s.2)}), _ => json!({"observe": s.1}) }).collect::<Vec<_>>()});
        x.case(desc, steps.len() > 1, || {
            let mut d = Dirichlet::new();
            let mut c = Counts::new();
            dir_ok(&d, &c, "empty")?;
            for (i, s) in steps.iter().enumerate() {
                match s.0 {
                    0 => { d.weight(s.3); for v in c.values_mut() { *v *= s.3; } }
                    1 => { let e = categorical(&r, &s.2, &mut o2); cat_ok(&e, &s.2, "evidence")?; d.add_evidence(&e); add(&mut c, &s.2); cat_ok(&e, &s.2, "evidence afterwards")?; }
                    _ => { d.add_observation(s.1); *c.entry(s.1).or_insert(0.0) += 1.0; }
                }
                dir_ok(&d, &c, &format!("after step {}", i))?;
            }
            let s = d.clone();
            dir_ok(&s, &c, "clone")
        });
        let big = t % 40 == 17;
        let w = if big { rng.gen_range(60..400) } else { rng.gen_range(1..5usize) };
        let paths: Vec<Option<Addr>> = (0..if big { 500 } else { rng.gen_range(1..14) }).map(|_| if rng.gen_range(0..4) == 0 { None } else { Some(pool[rng.gen_range(0..pool.len())]) }).collect();
        let second = rand_counts(&mut rng);
        x.case(json!({"window": w, "paths": paths, "merged": jc(&second)}), paths.len() > 1, || {
            let mut tr: Tr = BayesCategoricalTracker::new(w, r.clone());
            for (i, p) in paths.iter().enumerate() {
                tr.add_path(match p { Some(a) => vec![(0.0, HOME), (0.0, *a)], None => vec![(0.0, HOME)] });
                let mut c = Counts::new();
                for q in &paths[(i + 1).saturating_sub(w)..=i] { *c.entry(*q).or_insert(0.0) += 1.0; }
                let e = tr.running_evidence().get(&HOME).cloned().unwrap_or_else(Categorical::new);
                cat_ok(&e, &c, &format!("after path {}", i))?;
            }
            // merging adds the other side's weights
            let mut one: Tr = BayesCategoricalTracker::new(0, r.clone());
            for p in &paths { one.add_path(match p { Some(a) => vec![(0.0, HOME), (0.0, *a)], None => vec![(0.0, HOME)] }); }
            let mut two: Tr = BayesCategoricalTracker::new(0, r.clone());
            for (k, n) in &second { for _ in 0..*n as usize { two.add_path(match k { Some(a) => vec![(0.0, HOME), (0.0, *a)], None => vec![(0.0, HOME)] }); } }
            let both = one.append(&two);
            let mut c = Counts::new();
            for q in &paths { *c.entry(*q).or_insert(0.0) += 1.0; }
            add(&mut c, &second);
            cat_ok(&both.running_evidence().get(&HOME).cloned().unwrap_or_else(Categorical::new), &c, "merged")
        });
    }
}

// ---- special functions, independent of the library used by the code under test
fn ln_gamma(mut x: f64) -> f64 {
    let mut shift = 0.0;
    while x < 20.0 { shift += x.ln(); x += 1.0; }
    let i = 1.0 / x; let i2 = i * i;
    (x - 0.5) * x.ln() - x + 0.5 * (2.0 * std::f64::consts::PI).ln() + i * (1.0 / 12.0 - i2 * (1.0 / 360.0 - i2 * (1.0 / 1260.0 - i2 / 1680.0))) - shift
}
fn digamma(mut x: f64) -> f64 {
    let mut shift = 0.0;
    while x < 20.0 { shift += 1.0 / x; x += 1.0; }
    let i = 1.0 / x; let i2 = i * i;
    x.ln() - 0.5 * i - i2 * (1.0 / 12.0 - i2 * (1.0 / 120.0 - i2 / 252.0)) - shift
}
fn dir_kl(a: &Counts, b: &Counts) -> f64 {
    let (ta, tb) = (total(a), total(b));
    let mut s = ln_gamma(ta) - ln_gamma(tb);
    for (k, x) in a { if *x > 0.0 { let y = b[k]; s += ln_gamma(y) - ln_gamma(*x) + (x - y) * (digamma(*x) - digamma(ta)); } }
    s.max(0.0)
}
fn cat_kl(a: &Counts, b: &Counts) -> Option<f64> {
    let (ta, tb) = (total(a), total(b));
    if ta == 0.0 || tb == 0.0 { return None; }
    let mut s = 0.0;
    for (k, x) in a { if *x > 0.0 { let y = b.get(k).cloned().unwrap_or(0.0); if y <= 0.0 { return None; } s += x / ta * ((x / ta) / (y / tb)).ln(); } }
    Some(s)
}
fn dirichlet(c: &Counts, rng: &mut SmallRng, scale: f64) -> Dirichlet {
    let mut d = Dirichlet::new();
    let mut obs: Vec<Option<Addr>> = vec![];
    for (k, n) in c { for _ in 0..*n as usize { obs.push(*k); } }
    for i in (1..obs.len()).rev() { obs.swap(i, rng.gen_range(0..i + 1)); }
    for o in obs { d.add_observation(o); }
    d.weight(scale);
    d
}
fn scaled(c: &Counts, s: f64) -> Counts { c.iter().map(|(k, v)| (*k, v * s)).collect() }

pub fn p10(x: &mut Ctx) {
    x.rule = "pairs of counting and Dirichlet summaries with equal, nested, overlapping and disjoint category sets, filled in random order; divergences and log-probabilities compared with the textbook formulas evaluated independently; non-trivial = both sides hold two or more categories".into();
    let r = small_tree();
    let mut rng = x.rng(10);
    for t in 0..x.n(60000) {
        if x.done() { return; }
        let a = rand_counts(&mut rng);
        let mut b = rand_counts(&mut rng);
        match t % 4 { 0 => { for k in a.keys() { b.entry(*k).or_insert(rng.gen_range(1..6) as f64); } } 1 => { b = a.keys().map(|k| (*k, rng.gen_range(1..9) as f64)).collect(); } 2 if t % 8 == 2 => { b = a.clone(); } _ => {} }
        let mut o = x.rng(5000 + t as u64);
        let (za, zb) = (rand_gone(&mut rng), rand_gone(&mut rng));
        x.case(json!({"counts": jc(&a), "other": jc(&b), "expired": za, "expired_other": zb}), a.len() > 1 && b.len() > 1, || {
            let (ka, kb) = (categorical_after(&r, &a, &za, &mut o), categorical_after(&r, &b, &zb, &mut o));
            let (g, w) = (ka.kl_divergence(&kb), cat_kl(&a, &b));
            ensure!(g.is_some() == w.is_some() && (w.is_none() || (g.unwrap() - w.unwrap()).abs() <= 1e-9 * (1.0 + w.unwrap())), "count divergence {:?} expected {:?}", g, w);
            if total(&a) > 0.0 { let z = ka.kl_divergence(&ka).ok_or("self divergence absent")?; ensure!(z.abs() < 1e-12, "self divergence {}", z); }
            cat_ok(&ka, &a, "counts")?;
            Ok(())
        });
        let (sa, sb) = ([1.0, 0.5, 2.0, 0.1][rng.gen_range(0..4)], [1.0, 3.0, 0.25][rng.gen_range(0..3)]);
        // same keys on both sides, all weights positive
        let (ca, cb): (Counts, Counts) = (scaled(&a, sa), a.keys().map(|k| (*k, (b.get(k).cloned().unwrap_or(1.0)) * sb)).collect());
        let cb0: Counts = a.keys().map(|k| (*k, b.get(k).cloned().unwrap_or(1.0))).collect();
        x.case(json!({"dirichlet": jc(&ca), "other": jc(&cb)}), a.len() > 1, || {
            if a.is_empty() { return Ok(()); }
            let (da, db) = (dirichlet(&a, &mut o, sa), dirichlet(&cb0, &mut o, sb));
            dir_ok(&da, &ca, "dirichlet")?;
            let (g, w) = (da.kl_divergence(&db).ok_or("divergence absent")?, dir_kl(&ca, &cb));
            ensure!((g - w).abs() <= 1e-7 * (1.0 + w), "Dirichlet divergence {} expected {}", g, w);
            let z = da.kl_divergence(&da).ok_or("self divergence absent")?;
            ensure!(z.abs() < 1e-9, "self divergence {}", z);
            // posterior: evidence only on known categories
            let mut ev = Counts::new();
            for k in a.keys() { if o.gen_range(0..3) > 0 { ev.insert(*k, if o.gen_range(0..20) == 0 { 150.0 } else { o.gen_range(1..5) as f64 }); } }
            let gone: Vec<Option<Addr>> = a.keys().filter(|_| o.gen_range(0..3) == 0).cloned().collect();
            let e = categorical_after(&r, &ev, &gone, &mut o);
            let mut post = ca.clone(); add(&mut post, &ev);
            let (g, w) = (da.posterior_kl_divergence(&e).ok_or("posterior divergence absent")?, dir_kl(&ca, &post));
            ensure!((g - w).abs() <= 1e-7 * (1.0 + w), "posterior divergence {} expected {} for evidence {:?}", g, w, ev);
            let mut dp = da.clone(); dp.add_evidence(&e);
            let g2 = da.kl_divergence(&dp).ok_or("absent")?;
            ensure!((g - g2).abs() <= 1e-7 * (1.0 + g), "posterior divergence {} but divergence from the updated summary {}", g, g2);
            let z = da.posterior_kl_divergence(&Categorical::new()).ok_or("absent")?;
            ensure!(z.abs() < 1e-9, "posterior divergence of no evidence {}", z);
            // a category the prior does not have
            let mut unk = ev.clone(); unk.insert(Some((77, 7)), 1.0);
            ensure!(da.posterior_kl_divergence(&categorical(&r, &unk, &mut o)).is_none(), "evidence on an unknown category gives a divergence");
            Ok(())
        });
    }
}

// ---------------------------------------------------------------- P11
type Path = Vec<(f32, Addr)>;
fn window_counts(q: &[Path]) -> BTreeMap<Addr, Counts> {
    let mut m: BTreeMap<Addr, Counts> = BTreeMap::new();
    for p in q {
        for i in 0..p.len() {
            let k = if i + 1 < p.len() { Some(p[i + 1].1) } else { None };
            *m.entry(p[i].1).or_default().entry(k).or_insert(0.0) += 1.0;
        }
    }
    m
}
fn tracker_ok(t: &Tr, win: &[Path], what: &str) -> R {
    let (w, ghost) = (window_counts(win), (t.reader().root_address().0, usize::MAX));
    ensure!(t.sequence_len() == win.len(), "{}: length {} expected {}", what, t.sequence_len(), win.len());
    for (a, e) in t.running_evidence() { cat_ok(e, &w.get(a).cloned().unwrap_or_default(), &format!("{}: evidence at {:?}", what, a))?; }
    for (a, c) in &w {
        let e = t.running_evidence().get(a).ok_or(format!("{}: no evidence at {:?}", what, a))?;
        cat_ok(e, c, &format!("{}: evidence at {:?}", what, a))?;
        pv_ok(&t.evidence_prob_vector(*a), c, false, &format!("{}: evidence_prob_vector at {:?}", what, a))?;
    }
    ensure!(t.evidence_prob_vector(ghost).is_none() && t.prob_vector(ghost).is_none(), "{}: a node that does not exist has probabilities", what);
    // statistics: the ones of a tracker that never saw anything but these paths
    let mut f: Tr = BayesCategoricalTracker::new(0, t.reader().clone());
    for p in win { f.add_path(p.clone()); }
    let mut kl: BTreeMap<Addr, f64> = BTreeMap::new();
    for (a, c) in &w {
        let prior = t.reader().get_node_plugin_and::<Dirichlet, _, _>(*a, |p| p.clone()).ok_or("no prior")?;
        let mut o = rand::SeedableRng::seed_from_u64(1);
        let e = categorical(t.reader(), &c.iter().map(|(k, v)| (*k, *v)).collect(), &mut o);
        kl.insert(*a, prior.posterior_kl_divergence(&e).ok_or("no divergence")?);
        let mut post = prior.clone(); post.add_evidence(&e);
        let (g, pw) = (t.prob_vector(*a).ok_or(format!("{}: no prob_vector at {:?}", what, a))?, post.prob_vector().ok_or("no posterior")?);
        ensure!(g.0.len() == pw.0.len() && g.0.iter().zip(&pw.0).all(|(x, y)| x.0 == y.0 && close(x.1, y.1, 1e-9)) && close(g.1, pw.1, 1e-9), "{}: prob_vector at {:?} is {:?} expected {:?}", what, a, g, pw);
    }
    let got: BTreeMap<Addr, f64> = t.all_node_kl().into_iter().map(|(k, a)| (a, k)).collect();
    ensure!(t.all_node_kl().len() == got.len(), "{}: a node is listed twice", what);
    for (a, k) in &kl { ensure!(got.get(a).map(|g| close(*g, *k, 1e-7)).unwrap_or(false), "{}: divergence at {:?} is {:?} expected {}", what, a, got.get(a), k); }
    for a in got.keys() { ensure!(kl.contains_key(a), "{}: node {:?} is listed but no path of the window touches it", what, a); }
    let s = t.kl_div_stats();
    let nz: Vec<f64> = kl.values().cloned().filter(|k| *k > 1.0e-10).collect();
    ensure!(s.nz_count as usize == nz.len() && s.sequence_len == win.len(), "{}: {} non-zero nodes of {}, length {}", what, s.nz_count, nz.len(), s.sequence_len);
    if !nz.is_empty() {
        ensure!(close(s.max, nz.iter().cloned().fold(f64::MIN, f64::max), 1e-7) && close(s.min, nz.iter().cloned().fold(f64::MAX, f64::min), 1e-7), "{}: extremes {} {}", what, s.max, s.min);
    }
    ensure!(close(s.moment1_nz, nz.iter().sum(), 1e-6) && close(s.moment2_nz, nz.iter().map(|k| k * k).sum(), 1e-6), "{}: moments {} {}", what, s.moment1_nz, s.moment2_nz);
    ensure!(close(t.kl_div(), f.kl_div(), 1e-6), "{}: tree divergence {} but {} for the same paths alone", what, t.kl_div(), f.kl_div());
    let (fs, ff) = (t.fractal_dim_stats(), f.fractal_dim_stats());
    ensure!(fs.sequence_len == win.len() && fs.layer_totals == ff.layer_totals && fs.weighted_layer_totals.iter().zip(&ff.weighted_layer_totals).all(|(a, b)| close(*a as f64, *b as f64, 1e-4)), "{}: layer totals {:?} but {:?} for the same paths alone", what, fs.layer_totals, ff.layer_totals);
    let mut lt: Vec<u64> = vec![0; t.reader().len()];
    for a in w.keys() { lt[t.reader().parameters().internal_index(a.0)] += 1; }
    ensure!(fs.layer_totals == lt, "{}: layer totals {:?} expected {:?}", what, fs.layer_totals, lt);
    Ok(())
}
fn bigger_tree(rng: &mut SmallRng) -> (CoverTreeReader<DataRam>, usize) {
    let (n, dim) = (rng.gen_range(2..40), rng.gen_range(1..3));
    let d = Arc::new(DataRam::<L2>::new(gen_points(rng, n, dim), dim).unwrap());
    let mut b = CoverTreeBuilder::new();
    b.set_scale_base(2.0).set_leaf_cutoff(rng.gen_range(0..4)).set_min_res_index(-8).set_use_singletons(rng.gen()).set_verbosity(0).set_rng_seed(rng.gen_range(0..99));
    let mut t = b.build(d).unwrap();
    t.add_plugin::<GokoDirichlet>(GokoDirichlet::default());
    let r = t.reader();
    std::mem::forget(t); // readers go blank once their writer is dropped
    (r, n)
}

pub fn p11(x: &mut Ctx) {
    x.rule = "random sequences of stored-point paths through random trees with window 0..20, checked after every step against the paths in the window, and appended pairs of trackers; baselines interpolated between recorded lengths; baselines trained on small trees, compared with trackers over every selection of their points; non-trivial = at least one path left the window".into();
    let mut rng = x.rng(11);
    for t in 0..x.n(2500) {
        if x.done() { return; }
        let (r, n) = bigger_tree(&mut rng);
        let w = [0usize, 1, 2, 3, 4, 7, 12, 20][rng.gen_range(0..8)];
        let np = if w > 4 { rng.gen_range(1..30) } else { rng.gen_range(1..10) };
        let pis: Vec<usize> = (0..np).map(|_| rng.gen_range(0..n)).collect();
        let more: Vec<usize> = (0..rng.gen_range(0..6)).map(|_| rng.gen_range(0..n)).collect();
        // only paths every node of which has a prior with positive singleton weight are in the domain of the posterior divergence
        let path = |pi: usize| -> Path {
            let mut p = match r.known_path(pi) { Ok(p) => p, Err(_) => vec![(0.0, r.root_address())] };
            while p.len() > 1 && r.get_node_and(p[p.len() - 1].1, |n| n.singletons_len() == 0 && !n.is_leaf()).unwrap_or(true) { p.pop(); }
            p
        };
        let ok = |p: &Path| r.get_node_and(p[p.len() - 1].1, |n| n.singletons_len() > 0 || n.is_leaf()).unwrap_or(false);
        let (pa, pb): (Vec<Path>, Vec<Path>) = (pis.iter().map(|i| path(*i)).filter(|p| ok(p)).collect(), more.iter().map(|i| path(*i)).filter(|p| ok(p)).collect());
        x.case(json!({"case": t, "seed": x.seed, "window": w, "paths": pa.iter().map(|p| p.iter().map(|s| s.1).collect::<Vec<_>>()).collect::<Vec<_>>(), "appended": pb.iter().map(|p| p.iter().map(|s| s.1).collect::<Vec<_>>()).collect::<Vec<_>>()}), w > 0 && pa.len() > w, || {
            let mut tr: Tr = BayesCategoricalTracker::new(w, r.clone());
            let mut q: VecDeque<Path> = VecDeque::new();
            tracker_ok(&tr, &[], "new tracker")?;
            for (i, p) in pa.iter().enumerate() {
                tr.add_path(p.clone());
                q.push_back(p.clone());
                if w > 0 && q.len() > w { q.pop_front(); }
                let v: Vec<Path> = q.iter().cloned().collect();
                tracker_ok(&tr, &v, &format!("after path {}", i))?;
            }
            let mut o: Tr = BayesCategoricalTracker::new(w, r.clone());
            let mut q2: VecDeque<Path> = VecDeque::new();
            for p in &pb { o.add_path(p.clone()); q2.push_back(p.clone()); if w > 0 && q2.len() > w { q2.pop_front(); } }
            let mut tr = tr.append(&o);
            q.extend(q2.iter().cloned());
            while w > 0 && q.len() > w { q.pop_front(); }
            let v: Vec<Path> = q.iter().cloned().collect();
            tracker_ok(&tr, &v, "after appending")?;
            tracker_ok(&o, &q2.iter().cloned().collect::<Vec<_>>(), "the appended tracker")?;
            for (i, p) in pa.iter().take(3).enumerate() {
                tr.add_path(p.clone());
                q.push_back(p.clone());
                while w > 0 && q.len() > w { q.pop_front(); }
                tracker_ok(&tr, &q.iter().cloned().collect::<Vec<_>>(), &format!("after appending and path {}", i))?;
            }
            Ok(())
        });
    }
    for _ in 0..x.n(1500) {
        if x.done() { return; }
        let k = rng.gen_range(1..5usize);
        let mut lens = vec![]; let mut l = 0;
        for _ in 0..k { l += rng.gen_range(1..5usize); lens.push(l); }
        let ns = rng.gen_range(1..4usize);
        let raw: Vec<Vec<[f64; 5]>> = (0..k).map(|_| (0..ns).map(|_| [rng.gen_range(1..9) as f64, rng.gen_range(0..3) as f64, rng.gen_range(0..7) as f64, rng.gen_range(0..20) as f64, rng.gen_range(0..50) as f64]).collect()).collect();
        x.case(json!({"baseline_lengths": lens, "samples": raw}), k > 1, || {
            let mv = |i: usize, f: usize| { let m: f64 = raw[i].iter().map(|r| r[f]).sum::<f64>() / ns as f64; (m, raw[i].iter().map(|r| r[f] * r[f]).sum::<f64>() / ns as f64 - m * m) };
            let mom = |i: usize, f: usize| (raw[i].iter().map(|r| r[f]).sum::<f64>(), raw[i].iter().map(|r| r[f] * r[f]).sum::<f64>());
            let b = KLDivergenceBaseline { num_sequences: ns, sequence_len: lens.clone(), stats: (0..k).map(|i| KLDivergenceBaselineStats { max: mom(i, 0), min: mom(i, 1), nz_count: mom(i, 2), moment1_nz: mom(i, 3), moment2_nz: mom(i, 4) }).collect() };
            for q in 0..l + 6 {
                let s = b.stats(q);
                let got = [s.max, s.min, s.nz_count, s.moment1_nz, s.moment2_nz];
                for f in 0..5 {
                    let want = if q < lens[0] { (0.0, 0.0) } else if k == 1 { mv(0, f) } else {
                        let j = (0..k - 1).rev().find(|j| lens[*j] <= q).unwrap();
                        let wt = (q - lens[j]) as f64 / (lens[j + 1] - lens[j]) as f64;
                        let (a, c) = (mv(j, f), mv(j + 1, f));
                        (a.0 + wt * (c.0 - a.0), a.1 + wt * (c.1 - a.1))
                    };
                    ensure!(close(got[f].0, want.0, 1e-9) && close(got[f].1, want.1, 1e-9), "baseline at length {}, statistic {}: {:?} expected {:?}", q, f, got[f], want);
                }
            }
            Ok(())
        });
    }
    // training: at every recorded length, the statistics of a tracker fed that many different training points
    for t in 0..x.n(600) {
        if x.done() { return; }
        let (n, dim) = (rng.gen_range(2..8usize), rng.gen_range(1..3usize));
        let pts = gen_points(&mut rng, n, dim);
        let d = Arc::new(DataRam::<L2>::new(pts.clone(), dim).unwrap());
        let mut b = CoverTreeBuilder::new();
        b.set_scale_base(2.0).set_leaf_cutoff(rng.gen_range(0..3)).set_min_res_index(-8).set_use_singletons(rng.gen()).set_verbosity(0).set_rng_seed(rng.gen_range(0..99));
        let mut tree = b.build(d).unwrap();
        tree.add_plugin::<GokoDirichlet>(GokoDirichlet::default());
        let r = tree.reader();
        let (rate, ns, cap) = (rng.gen_range(1..4usize), [1usize, 1, 2, 3][rng.gen_range(0..4)], if rng.gen() { 0 } else { rng.gen_range(1..n + 3) });
        x.case(json!({"train": t, "seed": x.seed, "points": pts, "sample_rate": rate, "sequences": ns, "sequence_len": cap}), ns > 1 || rate > 1, || {
            let mut db = DirichletBaseline::default();
            db.set_sample_rate(rate); db.set_num_sequences(ns); db.set_sequence_len(cap);
            let base = match db.train(r.clone()) { Ok(v) => v, Err(e) => return Err(format!("training failed: {:?}", e)) };
            let eff = if cap == 0 { n } else { cap.min(n) };
            let lens: Vec<usize> = (0..eff).filter(|i| i % rate == 0).map(|i| i + 1).collect();
            ensure!(base.num_sequences == ns, "{} sequences recorded, {} trained", base.num_sequences, ns);
            ensure!(base.sequence_len == lens && base.stats.len() == lens.len(), "lengths {:?} recorded with {} statistics, expected {:?}", base.sequence_len, base.stats.len(), lens);
            let tuple = |m: u32| -> [f64; 5] {
                let mut tr: Tr = BayesCategoricalTracker::new(0, r.clone());
                for i in 0..n { if m >> i & 1 == 1 { tr.add_path(r.known_path(i).unwrap()); } }
                let s = tr.kl_div_stats();
                [s.max, s.min, s.nz_count as f64, s.moment1_nz, s.moment2_nz]
            };
            let all: Vec<(u32, [f64; 5])> = (1..1u32 << n).map(|m| (m.count_ones(), tuple(m))).collect();
            let same = |a: f64, b: f64| a == b || close(a, b, 1e-9);
            for (j, l) in lens.iter().enumerate() {
                let s = &base.stats[j];
                let got = [s.max, s.min, s.nz_count, s.moment1_nz, s.moment2_nz];
                let of: Vec<&[f64; 5]> = all.iter().filter(|a| a.0 as usize == *l).map(|a| &a.1).collect();
                let add = |w: &[&[f64; 5]]| -> bool { (0..5).all(|f| { let (mut a, mut q) = (0.0, 0.0); for t in w { a += t[f]; q += t[f] * t[f]; } same(got[f].0, a) && same(got[f].1, q) }) };
                let fits = match ns {
                    1 => of.iter().any(|t| add(&[t])),
                    2 => of.iter().any(|t| of.iter().any(|u| add(&[t, u]))),
                    _ => if *l == n || *l == 1 { of.iter().any(|t| of.iter().any(|u| of.iter().any(|v| add(&[t, u, v])))) } else { true },
                };
                ensure!(fits, "at length {} the recorded sums {:?} are not those of {} selections of {} different training points", l, got, ns, l);
            }
            Ok(())
        });
        drop(tree);
    }
}

// ---------------------------------------------------------------- P12
type LC = SimpleLabeledCloud<DataRam, SmallIntLabels>;
/// A labelled cloud whose points also carry metadata; some of it missing, some of it unreadable.
struct MetaCloud { d: LC, meta: Vec<Result<Option<i64>, ()>> }
impl PointCloud for MetaCloud {
    type Metric = L2;
    type Point = [f32];
    type PointRef<'a> = &'a [f32];
    type Metadata = i64;
    type MetaSummary = CategorySummary;
    type Label = i64;
    type LabelSummary = <LC as PointCloud>::LabelSummary;
    fn metadata(&self, pn: usize) -> PointCloudResult<Option<&i64>> { match &self.meta[pn] { Ok(v) => Ok(v.as_ref()), Err(_) => Err(pointcloud::pc_errors::PointCloudError::UnknownName) } }
    fn metasummary(&self, pns: &[usize]) -> PointCloudResult<SummaryCounter<CategorySummary>> { let mut s = SummaryCounter::<CategorySummary>::default(); for p in pns { s.add(self.metadata(*p)); } Ok(s) }
    fn label(&self, pn: usize) -> PointCloudResult<Option<&i64>> { self.d.label(pn) }
    fn label_summary(&self, pns: &[usize]) -> PointCloudResult<SummaryCounter<Self::LabelSummary>> { self.d.label_summary(pns) }
    fn name(&self, pi: usize) -> PointCloudResult<String> { self.d.name(pi) }
    fn index(&self, pn: &str) -> PointCloudResult<usize> { self.d.index(pn) }
    fn names(&self) -> Vec<String> { self.d.names() }
    fn len(&self) -> usize { self.d.len() }
    fn is_empty(&self) -> bool { self.d.is_empty() }
    fn dim(&self) -> usize { self.d.dim() }
    fn reference_indexes(&self) -> Vec<usize> { self.d.reference_indexes() }
    fn point<'a, 'b: 'a>(&'b self, i: usize) -> PointCloudResult<&'a [f32]> { self.d.point(i) }
}
pub fn p12(x: &mut Ctx) {
    x.rule = "random labelled trees (masked labels, duplicates, singletons on and off) with all node summaries attached together; every node's summary recomputed from the points found by walking its links; non-trivial = more than three nodes".into();
    let mut rng = x.rng(12);
    for t in 0..x.n(8000) {
        if x.done() { return; }
        let wide = t % 200 == 77;
        let (n, dim) = if wide { (rng.gen_range(280..900), rng.gen_range(1..3usize)) } else { ([1, 2, 3, 6, 15, 40, 60][rng.gen_range(0..7)], rng.gen_range(1..4usize)) };
        let pts = gen_points(&mut rng, n, dim);
        let meta: Vec<Result<Option<i64>, ()>> = (0..n).map(|_| match rng.gen_range(0..9) { 0 => Ok(None), 1 => Err(()), _ => Ok(Some(rng.gen_range(10..16))) }).collect();
        let labels: Vec<i64> = (0..n).map(|_| rng.gen_range(-1..4)).collect();
        let mask: Option<Vec<bool>> = if rng.gen() { Some((0..n).map(|_| rng.gen_range(0..3) > 0).collect()) } else { None };
        let (base, cut, res, single, max, seed, recursive) = ([1.5f32, 2.0][rng.gen_range(0..2)], if wide { [1, 40, 270, 600][rng.gen_range(0..4)] } else { rng.gen_range(0..5usize) }, [-8, -3, 0][rng.gen_range(0..3)], rng.gen::<bool>(), [1usize, 3, 10, usize::MAX][rng.gen_range(0..4)], rng.gen_range(0..99u64), t % 4 != 0);
        let order = rng.gen_range(0..3);
        let desc = json!({"points": fs(&pts), "dim": dim, "labels": labels, "mask": mask, "metadata": meta.iter().map(|m| match m { Ok(v) => json!(v), Err(_) => json!("unreadable") }).collect::<Vec<_>>(), "scale_base": base, "leaf_cutoff": cut, "min_res_index": res, "use_singletons": single, "coverage_max": if max == usize::MAX { json!("none") } else { json!(max) }, "rng_seed": seed, "gaussian_recursive": recursive, "plugin_order": order});
        x.case(desc, n > 3, || {
            let cloud = Arc::new(MetaCloud { d: SimpleLabeledCloud::new(DataRam::<L2>::new(pts.clone(), dim).unwrap(), SmallIntLabels::new(labels.clone(), mask.clone())), meta: meta.clone() });
            let mut b = CoverTreeBuilder::new();
            b.set_scale_base(base).set_leaf_cutoff(cut).set_min_res_index(res).set_use_singletons(single).set_verbosity(0).set_rng_seed(seed);
            let mut w = b.build(cloud).map_err(|e| format!("{:?}", e))?;
            let gp = || if recursive { GokoDiagGaussian::recursive() } else { GokoDiagGaussian::singletons() };
            let cp = || if max == usize::MAX { GokoCoverageIndexes::new() } else { GokoCoverageIndexes::restricted(max) };
            match order {
                0 => { w.generate_summaries(); w.generate_meta_summaries(); w.add_plugin(cp()); w.add_plugin(gp()); w.add_plugin(GokoDirichlet::default()); w.add_plugin(GokoCategorical {}); }
                1 => { w.add_plugin(GokoCategorical {}); w.add_plugin(GokoDirichlet::default()); w.add_plugin(gp()); w.add_plugin(cp()); w.generate_meta_summaries(); w.generate_summaries(); }
                _ => { w.add_plugin(gp()); w.generate_summaries(); w.add_plugin(GokoDirichlet::default()); w.generate_meta_summaries(); w.add_plugin(GokoCategorical {}); w.add_plugin(cp()); w.refresh(); w.refresh(); }
            }
            let r = w.reader();
            let m = snap(&r);
            ensure!(r.get_plugin_and::<GokoDiagGaussian, _, _>(|_| ()).is_some() && r.get_plugin_and::<GokoDirichlet, _, _>(|_| ()).is_some(), "the tree does not keep the plugin's parameters");
            for (a, node) in &m {
                let mut cov = covered(&m, *a, 0)?;
                cov.sort();
                // labels
                let ls = r.get_node_label_summary(*a).ok_or(format!("no label summary at {:?}", a))?;
                let mut want: BTreeMap<i64, usize> = BTreeMap::new();
                let mut nones = 0;
                for i in &cov { if mask.as_ref().map(|m| m[*i]).unwrap_or(true) { *want.entry(labels[*i]).or_insert(0) += 1; } else { nones += 1; } }
                let got: BTreeMap<i64, usize> = ls.summary.items.iter().cloned().collect();
                ensure!(got == want && got.len() == ls.summary.items.len() && ls.nones() == nones && ls.errors() == 0, "node {:?}: labels {:?} missing {} errors {}, expected {:?} missing {}", a, ls.summary.items, ls.nones(), ls.errors(), want, nones);
                let ms = r.get_node_metasummary(*a).ok_or(format!("no metadata summary at {:?}", a))?;
                let (mut want, mut nones, mut errs): (BTreeMap<i64, usize>, usize, usize) = Default::default();
                for i in &cov { match &meta[*i] { Ok(Some(v)) => *want.entry(*v).or_insert(0) += 1, Ok(None) => nones += 1, Err(_) => errs += 1 } }
                let got: BTreeMap<i64, usize> = ms.summary.items.iter().cloned().collect();
                ensure!(got == want && got.len() == ms.summary.items.len() && ms.nones() == nones && ms.errors() == errs, "node {:?}: metadata {:?} missing {} unreadable {}, expected {:?} missing {} unreadable {}", a, ms.summary.items, ms.nones(), ms.errors(), want, nones, errs);
                // indexes
                let ix = r.get_node_plugin_and::<CoverageIndexes, _, _>(*a, |p| p.point_indexes().to_vec());
                if cov.len() < max {
                    let mut ix = ix.ok_or(format!("no covered indexes at {:?}", a))?; ix.sort();
                    ensure!(ix == cov, "node {:?}: covered indexes {:?} expected {:?}", a, ix, cov);
                } else { ensure!(ix.is_none(), "node {:?} covers {} points and lists them over the limit {}", a, cov.len(), max); }
                // gaussian
                let g = r.get_node_plugin_and::<DiagGaussian, _, _>(*a, |p| p.clone()).ok_or(format!("no gaussian at {:?}", a))?;
                let mut src: Vec<usize> = if recursive { cov.clone() } else { let mut s = node.sing.clone(); if node.nested.is_none() { s.push(a.1); } s };
                src.sort();
                ensure!(g.count() == src.len() && g.dim() == dim, "node {:?}: gaussian of {} points, expected {}", a, g.count(), src.len());
                for j in 0..dim {
                    let (m1, m2, sc): (f64, f64, f64) = (src.iter().map(|i| pts[i * dim + j] as f64).sum(), src.iter().map(|i| (pts[i * dim + j] as f64).powi(2)).sum(), src.iter().map(|i| pts[i * dim + j].abs() as f64).sum());
                    ensure!((g.moment1[j] as f64 - m1).abs() <= 1e-4 * (sc + 1e-9) && (g.moment2[j] as f64 - m2).abs() <= 1e-4 * (m2 + 1e-9), "node {:?}: gaussian moments {} {} expected {} {}", a, g.moment1[j], g.moment2[j], m1, m2);
                }
                // child distributions
                let mut c = Counts::new();
                if let Some(ns) = node.nested {
                    for ca in std::iter::once((ns, a.1)).chain(node.kids.iter().cloned()) { c.insert(Some(ca), covered(&m, ca, 0)?.len() as f64); }
                    c.insert(None, node.sing.len() as f64);
                } else { c.insert(None, node.sing.len() as f64 + 1.0); }
                let d = r.get_node_plugin_and::<Dirichlet, _, _>(*a, |p| p.clone()).ok_or(format!("no child distribution at {:?}", a))?;
                ensure!(close(d.total(), cov.len() as f64, 1e-9), "node {:?}: child distribution totals {} of {}", a, d.total(), cov.len());
                pv_ok(&d.prob_vector(), &c, false, &format!("node {:?}: Dirichlet", a))?;
                let k = r.get_node_plugin_and::<Categorical, _, _>(*a, |p| p.clone()).ok_or(format!("no child counts at {:?}", a))?;
                ensure!(close(k.total(), cov.len() as f64, 1e-9), "node {:?}: child counts total {} of {}", a, k.total(), cov.len());
                pv_ok(&k.prob_vector(), &c, false, &format!("node {:?}: Categorical", a))?;
            }
            Ok(())
        });
    }
}

// ---------------------------------------------------------------- P13
pub fn p13(x: &mut Ctx) {
    x.rule = "random sequences of added points, removed points and merges of diagonal Gaussians, compared after every step with the multiset of points; divergence and log-density compared with the formulas evaluated in f64; non-trivial = at least one removal or merge".into();
    let mut rng = x.rng(13);
    for _t in 0..x.n(40000) {
        if x.done() { return; }
        let dim = rng.gen_range(1..6usize);
        let pt = |rng: &mut SmallRng| -> Vec<f32> { (0..dim).map(|_| rng.gen_range(-8i32..9) as f32 / 4.0).collect() };
        let steps: Vec<(u8, usize, Vec<Vec<f32>>)> = (0..rng.gen_range(1..16)).map(|_| (rng.gen_range(0..6u8), rng.gen_range(0..1000), (0..if rng.gen_range(0..40) == 0 { 300 } else { rng.gen_range(0..4) }).map(|_| pt(&mut rng)).collect::<Vec<_>>())).map(|s| if s.0 > 1 && s.2.is_empty() { (1, s.1, s.2) } else { s }).collect();
        let other: Vec<Vec<f32>> = (0..rng.gen_range(2..9)).map(|_| pt(&mut rng)).collect();
        let probe = pt(&mut rng);
        let nt = steps.iter().any(|s| s.0 < 2);
        x.case(json!({"dim": dim, "steps": steps.iter().map(|s| match s.0 { 0 => json!({"remove": s.1}), 1 => json!({"merge": s.2}), _ => json!({"add": s.2[0]}) }).collect::<Vec<_>>(), "other": other, "probe": probe}), nt, || {
            let mut g = DiagGaussian::new(dim);
            let mut set: Vec<Vec<f32>> = vec![];
            let of = |ps: &[Vec<f32>]| { let mut h = DiagGaussian::new(dim); for p in ps { h.add_point(&&p[..]); } h };
            let check = |g: &DiagGaussian, set: &[Vec<f32>], what: &str| -> R {
                ensure!(g.count() == set.len() && g.count == set.len() && g.dim() == dim, "{}: count {} expected {}", what, g.count(), set.len());
                let (mean, var) = (g.mean(), g.var());
                ensure!(mean.len() == dim && var.len() == dim, "{}: lengths", what);
                for j in 0..dim {
                    let (m1, m2): (f64, f64) = (set.iter().map(|p| p[j] as f64).sum(), set.iter().map(|p| (p[j] as f64).powi(2)).sum());
                    ensure!(close(g.moment1[j] as f64, m1, 1e-5) && close(g.moment2[j] as f64, m2, 1e-5), "{}: moments {} {} expected {} {}", what, g.moment1[j], g.moment2[j], m1, m2);
                    let n = set.len() as f64;
                    let (mu, v) = if set.is_empty() { (0.0, 0.0) } else { (m1 / n, m2 / n - (m1 / n) * (m1 / n)) };
                    ensure!(close(mean[j] as f64, mu, 1e-5) && close(var[j] as f64, v, 1e-5), "{}: mean {} variance {} expected {} {}", what, mean[j], var[j], mu, v);
                }
                Ok(())
            };
            check(&g, &set, "new")?;
            g.remove_point(&&probe[..]);
            check(&g, &set, "removing from an empty summary")?;
            for (i, s) in steps.iter().enumerate() {
                match s.0 {
                    0 => if !set.is_empty() { let p = set.remove(s.1 % set.len()); g.remove_point(&&p[..]); },
                    1 => { let h = of(&s.2); g.merge(&h); set.extend(s.2.iter().cloned()); check(&h, &s.2, "the merged-in summary")?; }
                    _ => { g.add_point(&&s.2[0][..]); set.push(s.2[0].clone()); }
                }
                check(&g, &set, &format!("after step {}", i))?;
            }
            let h = of(&other);
            if set.is_empty() { return Ok(()); }
            let f = |g: &DiagGaussian| -> (Vec<f64>, Vec<f64>) { (g.mean().iter().map(|v| *v as f64).collect(), g.var().iter().map(|v| *v as f64).collect()) };
            let ((m0, v0), (m1, v1)) = (f(&g), f(&h));
            if v0.iter().chain(&v1).all(|v| *v > 1e-2) {
                let want: f64 = (0..dim).map(|j| 0.5 * (v0[j] / v1[j] + (m1[j] - m0[j]).powi(2) / v1[j] - 1.0 + v1[j].ln() - v0[j].ln())).sum();
                let got = g.kl_divergence(&h).ok_or("divergence absent")?;
                ensure!(close(got, want, 2e-3), "divergence {} expected {}", got, want);
                ensure!(g.kl_divergence(&g).ok_or("absent")?.abs() < 1e-3, "self divergence {:?}", g.kl_divergence(&g));
                let want: f64 = (0..dim).map(|j| -0.5 * ((probe[j] as f64 - m0[j]).powi(2) / v0[j] + v0[j].ln() + (2.0 * std::f64::consts::PI).ln())).sum();
                let got = g.ln_pdf(&&probe[..]).ok_or("log density absent")?;
                ensure!(close(got, want, 2e-3), "log density {} expected {}", got, want);
            }
            Ok(())
        });
    }
}

/// how often each outcome comes up, against its weight: seven standard deviations (and ten draws) of slack
fn shares(what: &str, c: &Counts, n: usize, mut f: impl FnMut() -> Option<Addr>) -> R {
    let t = total(c);
    let mut seen: BTreeMap<Option<Addr>, usize> = BTreeMap::new();
    for _ in 0..n { *seen.entry(f()).or_insert(0) += 1; }
    if t <= 0.0 { ensure!(seen.keys().all(|k| k.is_none()), "{}: an empty distribution drew {:?}", what, seen); return Ok(()); }
    for k in c.keys().chain(seen.keys()) {
        let p = c.get(k).cloned().unwrap_or(0.0) / t;
        let s = seen.get(k).cloned().unwrap_or(0);
        ensure!(p > 0.0 || s == 0, "{}: {:?} has no weight and was drawn {} times in {}", what, k, s, n);
        let want = n as f64 * p;
        ensure!((s as f64 - want).abs() <= 7.0 * (want * (1.0 - p)).sqrt() + 10.0, "{}: {:?} has probability {} and was drawn {} times in {}", what, k, p, s, n);
    }
    Ok(())
}
pub fn p24(x: &mut Ctx) {
    x.rule = "counting and Dirichlet summaries with whole, fractional, tiny, lopsided, vanished and no weights, each sampled some thousand times and every outcome's frequency compared with its probability; diagonal Gaussians (some with constant coordinates, some of a single point) sampled likewise and compared in length, mean, spread and correlation; non-trivial = several outcomes or several points".into();
    let r = small_tree();
    let mut rng = x.rng(24);
    for t in 0..x.n(5000) {
        if x.done() { return; }
        let mut c = rand_counts(&mut rng);
        if t % 40 == 0 { c.clear(); }
        let gone = rand_gone(&mut rng);
        let scale = [1.0, 0.5, 0.3, 0.01, 1e-6, 2.5, 1e6][rng.gen_range(0..7)];
        let seed: u64 = rng.gen();
        x.case(json!({"weights": jc(&c), "vanished": format!("{:?}", gone), "scale": scale, "seed": seed}), c.len() > 1, || {
            let mut rg: SmallRng = rand::SeedableRng::seed_from_u64(seed);
            let cat = categorical_after(&r, &c, &gone, &mut rg);
            shares("a count", &c, 3000, || cat.sample(&mut rg))?;
            let d = dirichlet(&c, &mut rg, scale);
            shares("a Dirichlet summary", &scaled(&c, scale), 3000, || d.sample(&mut rg))?;
            Ok(())
        });
    }
    let pool: std::cell::RefCell<Vec<u64>> = std::cell::RefCell::new(vec![0; 9]);
    for t in 0..x.n(5000) {
        if x.done() { return; }
        let dim = rng.gen_range(1..6usize);
        let np = if t % 5 == 0 { rng.gen_range(1..4) } else { rng.gen_range(2..30) };
        let fixed: Vec<Option<f32>> = (0..dim).map(|_| if rng.gen_range(0..3) == 0 { Some(rng.gen_range(-30i32..31) as f32 / 10.0) } else { None }).collect();
        let (off, wide) = (rng.gen_range(-3i32..4) as f32, [0.1f32, 1.0, 4.0][rng.gen_range(0..3)]);
        let pts: Vec<Vec<f32>> = (0..np).map(|_| (0..dim).map(|j| fixed[j].unwrap_or_else(|| off + wide * rng.gen_range(-1.0f32..1.0))).collect()).collect();
        let seed: u64 = rng.gen();
        x.case(json!({"points": pts, "seed": seed}), np > 1, || {
            let mut rg: SmallRng = rand::SeedableRng::seed_from_u64(seed);
            let mut g = DiagGaussian::new(dim);
            for p in &pts { g.add_point(&&p[..]); }
            let n = 2000usize;
            let draws: Vec<Vec<f32>> = (0..n).map(|_| g.sample(&mut rg)).collect();
            ensure!(draws.iter().all(|d| d.len() == dim && d.iter().all(|v| v.is_finite())), "a draw is not a point of dimension {}: {:?}", dim, draws.iter().find(|d| d.len() != dim || d.iter().any(|v| !v.is_finite())));
            let stat = |v: &[f64]| { let m = v.iter().sum::<f64>() / v.len() as f64; (m, (v.iter().map(|a| (a - m) * (a - m)).sum::<f64>() / v.len() as f64).sqrt()) };
            let col = |j: usize| -> Vec<f64> { draws.iter().map(|d| d[j] as f64).collect() };
            let mut live = vec![];
            for j in 0..dim {
                let (m, s) = stat(&pts.iter().map(|p| p[j] as f64).collect::<Vec<_>>());
                let (dm, ds) = stat(&col(j));
                // the moments are kept in single precision: the spread of nearly constant data is only known up to its rounding
                let eps = 1e-3 * (1.0 + m.abs());
                let (tm, ts) = (8.0 * (s + eps) / (n as f64).sqrt() + eps, 8.0 * s / (2.0 * n as f64).sqrt() + 3.0 * eps);
                ensure!((dm - m).abs() <= tm, "coordinate {}: draws average {} and the points {} (spread {})", j, dm, m, s);
                ensure!((ds - s).abs() <= ts, "coordinate {}: draws spread {} and the points {}", j, ds, s);
                if s > 30.0 * eps { live.push(j); }
                if s > 100.0 * eps { let mut p = pool.borrow_mut(); for v in col(j) { p[((((v - m) / s).abs() * 2.0) as usize).min(8)] += 1; } }
            }
            for (a, j) in live.iter().enumerate() {
                for k in &live[..a] {
                    let (u, v) = (col(*j), col(*k));
                    let ((mu, su), (mv, sv)) = (stat(&u), stat(&v));
                    let cor = u.iter().zip(&v).map(|(p, q)| (p - mu) * (q - mv)).sum::<f64>() / (n as f64 * su * sv);
                    ensure!(cor.abs() <= 8.0 / (n as f64).sqrt(), "coordinates {} and {} of the draws move together: correlation {}", j, k, cor);
                }
            }
            Ok(())
        });
    }
    // all Gaussian draws of this run together: how far from the mean they lie, in half deviations
    let seen = pool.into_inner();
    let all = seen.iter().sum::<u64>() as f64;
    let p = [0.3829249, 0.2997476, 0.1837306, 0.0881308, 0.0330802, 0.0097191, 0.0022345, 0.0004019, 0.0000633];
    if all > 1e5 {
        x.case(json!({"draws": all, "seed": x.seed, "distance from the mean in half deviations": seen}), true, || {
            for (k, (s, p)) in seen.iter().zip(p.iter()).enumerate() {
                let want = all * p;
                ensure!((*s as f64 - want).abs() <= 8.0 * want.sqrt() + 0.05 * want + 10.0, "of {} draws {} lie {} half deviations from the mean, expected {}", all, s, k, want);
            }
            Ok(())
        });
    }
}

pub fn p25(x: &mut Ctx) {
    x.rule = "random trees (singletons on and off, cut-offs, resolutions, bases, duplicates): the fractal dimension and the weighted one of every node and layer with children or singletons recomputed from the nodes; the per-layer totals of trackers over random paths recomputed from the nodes the window touches; non-trivial = more than three points".into();
    let mut rng = x.rng(25);
    for t in 0..x.n(30000) {
        if x.done() { return; }
        let (n, dim) = ([1usize, 2, 3, 6, 15, 40, 90][rng.gen_range(0..7)], rng.gen_range(1..4usize));
        let pts = gen_points(&mut rng, n, dim);
        let (base, cut, res, single, seed, win) = ([1.3f32, 1.5, 2.0, 3.0][rng.gen_range(0..4)], rng.gen_range(0..5usize), [-8, -3, 0][rng.gen_range(0..3)], rng.gen::<bool>(), rng.gen_range(0..99u64), rng.gen_range(0..6usize));
        let pis: Vec<usize> = (0..rng.gen_range(0..12)).map(|_| rng.gen_range(0..n)).collect();
        x.case(json!({"points": fs(&pts), "dim": dim, "scale_base": base, "leaf_cutoff": cut, "min_res_index": res, "use_singletons": single, "seed": seed, "window": win, "tracked": pis}), n > 3, || {
            let mut b = CoverTreeBuilder::new();
            b.set_scale_base(base).set_leaf_cutoff(cut).set_min_res_index(res).set_use_singletons(single).set_verbosity(0).set_rng_seed(seed);
            let mut w = b.build(Arc::new(DataRam::<L2>::new(pts.clone(), dim).unwrap())).map_err(|e| format!("{:?}", e))?;
            if t % 2 == 0 { w.add_plugin(GokoDirichlet::default()); }
            let r = w.reader();
            let m = snap(&r);
            let lg = |v: f64| v.ln() / (base as f64).ln();
            let tol = |want: f64| 2e-4 * (1.0 + want.abs()) / (base as f64).ln();
            let cov = |a: Addr| -> Result<f64, String> { Ok(covered(&m, a, 0)?.len() as f64) };
            let kids = |a: Addr| -> Result<Vec<f64>, String> { let k = &m[&a]; match k.nested { None => Ok(vec![]), Some(s) => k.kids.iter().cloned().chain(Some((s, a.1))).map(|c| cov(c)).collect() } };
            let top = |v: &[f64]| v.iter().cloned().fold(f64::MIN, f64::max);
            for (a, node) in &m {
                let k = kids(*a)?;
                if k.is_empty() && node.sing.is_empty() { continue; }
                let want = lg((k.len() + node.sing.len()) as f64);
                let got = r.node_fractal_dim(*a) as f64;
                ensure!((got - want).abs() <= tol(want), "node {:?}: fractal dimension {} expected {}", a, got, want);
                let mx = if k.is_empty() { 1.0 } else { top(&k) };
                let want = lg((k.iter().sum::<f64>() + node.sing.len() as f64) / mx);
                let got = r.node_weighted_fractal_dim(*a) as f64;
                ensure!((got - want).abs() <= tol(want), "node {:?}: weighted fractal dimension {} expected {}", a, got, want);
            }
            for (si, l) in r.layers() {
                let mut at: Vec<Addr> = vec![];
                l.for_each_node(|_, n| at.push(n.address()));
                let (mut k, mut s) = (vec![], 0.0);
                for a in &at { k.extend(kids(*a)?); s += m[a].sing.len() as f64; }
                if k.is_empty() && s == 0.0 { continue; }
                let want = lg(k.len() as f64 + s) - lg(at.len() as f64);
                let got = r.layer_fractal_dim(si) as f64;
                ensure!((got - want).abs() <= tol(want), "layer {}: fractal dimension {} expected {}", si, got, want);
                let own: Vec<f64> = at.iter().map(|a| cov(*a)).collect::<Result<_, _>>()?;
                let mx = if k.is_empty() { 1.0 } else { top(&k) };
                let want = lg((k.iter().sum::<f64>() + s) / mx) - lg(own.iter().sum::<f64>() / top(&own));
                let got = r.layer_weighted_fractal_dim(si) as f64;
                ensure!((got - want).abs() <= tol(want), "layer {}: weighted fractal dimension {} expected {}", si, got, want);
            }
            if t % 2 == 0 {
                let mut tr: Tr = BayesCategoricalTracker::new(win, r.clone());
                let mut q: VecDeque<Vec<Addr>> = VecDeque::new();
                for i in &pis {
                    let p = match r.known_path(*i) { Ok(p) => p, Err(_) => continue };
                    if p.is_empty() { continue; }
                    q.push_back(p.iter().map(|s| s.1).collect());
                    if win > 0 && q.len() > win { q.pop_front(); }
                    tr.add_path(p);
                }
                let touched: std::collections::BTreeSet<Addr> = q.iter().flatten().cloned().collect();
                let f = tr.fractal_dim_stats();
                ensure!(f.sequence_len == q.len() && f.layer_totals.len() == r.len() && f.weighted_layer_totals.len() == r.len(), "tracker totals: lengths {} {} {}", f.sequence_len, f.layer_totals.len(), f.weighted_layer_totals.len());
                for l in 0..r.len() {
                    let on: Vec<f64> = touched.iter().filter(|a| r.parameters().internal_index(a.0) == l).map(|a| cov(*a)).collect::<Result<_, _>>()?;
                    let want = if on.is_empty() { 0.0 } else { on.iter().sum::<f64>() / top(&on) };
                    ensure!(f.layer_totals[l] as usize == on.len() && close(f.weighted_layer_totals[l] as f64, want, 1e-4), "tracker totals of layer {}: {} and {} expected {} and {}", l, f.layer_totals[l], f.weighted_layer_totals[l], on.len(), want);
                }
            }
            Ok(())
        });
    }
}
