//! Replay of the summary (P17) and label-source (P18) contracts.
use crate::common::*;
use crate::pc::write_dat;
use pointcloud::data_sources::*;
use pointcloud::label_sources::*;
use pointcloud::loaders::*;
use pointcloud::metrics::L2;
use pointcloud::pc_errors::*;
use pointcloud::summaries::*;
use pointcloud::*;
use rand::rngs::SmallRng;
use rand::Rng;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::fmt::Debug;

/// One thing handed to a counter: a value, nothing, or a failed lookup.
#[derive(Clone, Debug)]
enum In<T> { V(T), Nothing, Failed }

trait Model<S: Summary>: Clone + Debug {
    fn label(&self) -> &S::Label;
    /// does `s` describe exactly these values?
    fn check(s: &S, vals: &[&Self]) -> R;
}
#[derive(Clone, Debug)] struct Cat(i64);
#[derive(Clone, Debug)] struct Int(i64);
#[derive(Clone, Debug)] struct Flo(f64);
#[derive(Clone, Debug)] struct Str(String);
#[derive(Clone, Debug)] struct Vecs(Vec<f32>);
fn eqf(a: f64, b: f64, sc: f64) -> bool { (a - b).abs() <= 1e-4 * (sc + 1e-9) }

impl Model<CategorySummary> for Cat {
    fn label(&self) -> &i64 { &self.0 }
    fn check(s: &CategorySummary, vals: &[&Self]) -> R {
        let mut w: BTreeMap<i64, usize> = BTreeMap::new();
        for v in vals { *w.entry(v.0).or_insert(0) += 1; }
        let mut g: BTreeMap<i64, usize> = BTreeMap::new();
        for (k, c) in s.items.iter() { ensure!(g.insert(*k, *c).is_none(), "category {} is listed twice: {:?}", k, s.items); }
        ensure!(g == w, "categories {:?} expected {:?}", g, w);
        Ok(())
    }
}
impl Model<StringSummary> for Str {
    fn label(&self) -> &String { &self.0 }
    fn check(s: &StringSummary, vals: &[&Self]) -> R {
        let mut w: BTreeMap<String, usize> = BTreeMap::new();
        for v in vals { *w.entry(v.0.clone()).or_insert(0) += 1; }
        let g: BTreeMap<String, usize> = s.items.iter().map(|(a, b)| (a.clone(), *b)).collect();
        ensure!(g == w, "strings {:?} expected {:?}", g, w);
        Ok(())
    }
}
impl Model<IntSummary> for Int {
    fn label(&self) -> &i64 { &self.0 }
    fn check(s: &IntSummary, vals: &[&Self]) -> R {
        let (a, b): (i64, i64) = (vals.iter().map(|v| v.0).sum(), vals.iter().map(|v| v.0 * v.0).sum());
        ensure!(s.moment1 == a && s.moment2 == b, "moments {} {} expected {} {}", s.moment1, s.moment2, a, b);
        Ok(())
    }
}
impl Model<FloatSummary> for Flo {
    fn label(&self) -> &f64 { &self.0 }
    fn check(s: &FloatSummary, vals: &[&Self]) -> R {
        let (a, b, sc): (f64, f64, f64) = (vals.iter().map(|v| v.0).sum(), vals.iter().map(|v| v.0 * v.0).sum(), vals.iter().map(|v| v.0.abs()).sum());
        ensure!(eqf(s.moment1, a, sc) && eqf(s.moment2, b, b), "moments {} {} expected {} {}", s.moment1, s.moment2, a, b);
        Ok(())
    }
}
impl Model<VecSummary> for Vecs {
    fn label(&self) -> &[f32] { &self.0 }
    fn check(s: &VecSummary, vals: &[&Self]) -> R {
        if vals.is_empty() { ensure!(s.moment1.iter().all(|m| *m == 0.0) && s.moment2.iter().all(|m| *m == 0.0), "moments of nothing {:?}", s); return Ok(()); }
        let dim = vals[0].0.len();
        ensure!(s.moment1.len() == dim && s.moment2.len() == dim, "moments have {} and {} coordinates, labels have {}", s.moment1.len(), s.moment2.len(), dim);
        for j in 0..dim {
            let (a, b, sc): (f64, f64, f64) = (vals.iter().map(|v| v.0[j] as f64).sum(), vals.iter().map(|v| (v.0[j] as f64).powi(2)).sum(), vals.iter().map(|v| v.0[j].abs() as f64).sum());
            ensure!(eqf(s.moment1[j] as f64, a, sc) && eqf(s.moment2[j] as f64, b, b), "moments at {}: {} {} expected {} {}", j, s.moment1[j], s.moment2[j], a, b);
        }
        Ok(())
    }
}

fn counter_ok<S: Summary, T: Model<S>>(c: &SummaryCounter<S>, ins: &[In<T>], what: &str) -> R {
    let vals: Vec<&T> = ins.iter().filter_map(|i| if let In::V(v) = i { Some(v) } else { None }).collect();
    let (nn, ne) = (ins.iter().filter(|i| matches!(i, In::Nothing)).count(), ins.iter().filter(|i| matches!(i, In::Failed)).count());
    ensure!(c.nones() == nn && c.nones == nn && c.errors() == ne && c.errors == ne, "{}: missing {} errors {} expected {} {}", what, c.nones(), c.errors(), nn, ne);
    ensure!(c.summary().count() == vals.len(), "{}: {} values counted, {} given", what, c.summary().count(), vals.len());
    ensure!(c.count() == ins.len(), "{}: counts {} inputs of {}", what, c.count(), ins.len());
    T::check(c.summary(), &vals).map_err(|e| format!("{}: {}", what, e))
}

fn feed<S: Summary, T: Model<S>>(ins: &[In<T>]) -> SummaryCounter<S> {
    let mut c = SummaryCounter::<S>::default();
    for i in ins {
        c.add(match i { In::V(v) => Ok(Some(v.label())), In::Nothing => Ok(None), In::Failed => Err(PointCloudError::UnknownName) });
    }
    c
}

fn fold<S: Summary, T: Model<S>>(groups: &[Vec<In<T>>], right: bool) -> R {
    let cs: Vec<SummaryCounter<S>> = groups.iter().map(|g| feed::<S, T>(g)).collect();
    for (g, c) in groups.iter().zip(&cs) { counter_ok(c, g, "one group")?; }
    let all: Vec<In<T>> = groups.iter().flatten().cloned().collect();
    // left to right
    let mut acc = cs[0].clone();
    for c in &cs[1..] { acc.combine(c); }
    counter_ok(&acc, &all, "combined left to right")?;
    for (g, c) in groups.iter().zip(&cs) { counter_ok(c, g, "an operand after combining")?; }
    // right to left
    if right {
        let mut acc = cs[cs.len() - 1].clone();
        for c in cs[..cs.len() - 1].iter().rev() { let mut d = c.clone(); d.combine(&acc); acc = d; }
        counter_ok(&acc, &all, "combined right to left")?;
    }
    // empty on either side
    let mut e = SummaryCounter::<S>::default();
    e.combine(&acc);
    counter_ok(&e, &all, "empty combined with everything")?;
    acc.combine(&SummaryCounter::<S>::default());
    counter_ok(&acc, &all, "everything combined with empty")?;
    // and it still accepts values afterwards
    for g in groups.iter().take(1) { for i in g { if let In::V(v) = i { acc.add(Ok(Some(v.label()))); } } }
    let mut more = all.clone();
    more.extend(groups[0].iter().filter(|i| matches!(i, In::V(_))).cloned());
    counter_ok(&acc, &more, "values added after combining")?;
    Ok(())
}

pub fn p17(x: &mut Ctx) {
    x.rule = "1..5 groups of up to 8 inputs (values, missing, failed) for every summary type, combined left to right, right to left and with empty summaries; compared with the multiset of inputs; non-trivial = two or more groups holding values".into();
    let mut rng = x.rng(17);
    for t in 0..x.n(6000) {
        if x.done() { return; }
        let ng = rng.gen_range(1..5usize);
        let dim = rng.gen_range(1..4usize);
        let shape: Vec<Vec<(u8, i64)>> = (0..ng).map(|_| (0..[0usize, 1, 2, 5, 8][rng.gen_range(0..5)]).map(|_| (rng.gen_range(0..6u8), rng.gen_range(-3i64..4))).collect()).collect();
        let nv = shape.iter().filter(|g| g.iter().any(|(k, _)| *k > 1)).count();
        fn mk<T>(shape: &[Vec<(u8, i64)>], f: &dyn Fn(i64) -> T) -> Vec<Vec<In<T>>> {
            shape.iter().map(|g| g.iter().map(|(k, v)| match k { 0 => In::Nothing, 1 => In::Failed, _ => In::V(f(*v)) }).collect()).collect()
        }
        x.case(json!({"groups": shape, "label_dim": dim, "case": t}), nv > 1, || {
            fold::<CategorySummary, Cat>(&mk(&shape, &|v| Cat(v)), true).map_err(|e| format!("CategorySummary, {}", e))?;
            fold::<IntSummary, Int>(&mk(&shape, &|v| Int(v * 11)), true).map_err(|e| format!("IntSummary, {}", e))?;
            fold::<FloatSummary, Flo>(&mk(&shape, &|v| Flo(v as f64 * 0.7)), true).map_err(|e| format!("FloatSummary, {}", e))?;
            fold::<StringSummary, Str>(&mk(&shape, &|v| Str(format!("k{}", v))), true).map_err(|e| format!("StringSummary, {}", e))?;
            fold::<VecSummary, Vecs>(&mk(&shape, &|v| Vecs((0..dim).map(|j| v as f32 + j as f32 * 0.5).collect())), true).map_err(|e| format!("VecSummary, {}", e))?;
            Ok(())
        });
    }
}

// ---------------------------------------------------------------- P18
fn ints_ok(l: &SmallIntLabels, want: &[Option<i64>], what: &str) -> R {
    ensure!(l.len() == want.len() && l.is_empty() == want.is_empty(), "{}: len {} expected {}", what, l.len(), want.len());
    for (i, w) in want.iter().enumerate() {
        let g = l.label(i).map_err(|e| format!("{:?}", e))?.cloned();
        ensure!(g == *w, "{}: label of {} is {:?} expected {:?}", what, i, g, w);
    }
    let ix: Vec<usize> = (0..want.len()).chain(0..want.len() / 2).collect();
    let s = l.label_summary(&ix).map_err(|e| format!("{:?}", e))?;
    let w: Vec<In<Cat>> = ix.iter().map(|i| match want[*i] { Some(v) => In::V(Cat(v)), None => In::Nothing }).collect();
    counter_ok(&s, &w, &format!("{}: label_summary", what))
}
fn vecs_ok(l: &VecLabels, want: &[Option<Vec<f32>>], dim: usize, what: &str) -> R {
    ensure!(l.len() == want.len() && l.is_empty() == want.is_empty() && l.dim() == dim, "{}: len {} expected {}", what, l.len(), want.len());
    for (i, w) in want.iter().enumerate() {
        let g = l.label(i).map_err(|e| format!("{:?}", e))?.map(|v| v.to_vec());
        ensure!(g == *w, "{}: label of {} is {:?} expected {:?}", what, i, g, w);
    }
    let ix: Vec<usize> = (0..want.len()).chain(0..want.len() / 2).collect();
    let s = l.label_summary(&ix).map_err(|e| format!("{:?}", e))?;
    let w: Vec<In<Vecs>> = ix.iter().map(|i| match &want[*i] { Some(v) => In::V(Vecs(v.clone())), None => In::Nothing }).collect();
    counter_ok(&s, &w, &format!("{}: label_summary", what))
}

fn src(rng: &mut SmallRng) -> (Vec<i64>, Option<Vec<bool>>) {
    let n = [0usize, 1, 2, 3, 6][rng.gen_range(0..5)];
    ((0..n).map(|_| rng.gen_range(-2..3)).collect(), if rng.gen() { Some((0..n).map(|_| rng.gen()).collect()) } else { None })
}
fn masked<T: Clone>(v: &[T], m: &Option<Vec<bool>>) -> Vec<Option<T>> {
    v.iter().enumerate().map(|(i, x)| if m.as_ref().map(|m| m[i]).unwrap_or(true) { Some(x.clone()) } else { None }).collect()
}

pub fn p18(x: &mut Ctx) {
    x.rule = "integer and vector label sources with and without masks, chains of merges, one-hot and binary conversions, CSV and YAML loading; compared with the labels given; non-trivial = at least two labels".into();
    let mut rng = x.rng(18);
    for t in 0..x.n(4000) {
        if x.done() { return; }
        let parts: Vec<(Vec<i64>, Option<Vec<bool>>)> = (0..rng.gen_range(1..4usize)).map(|_| src(&mut rng)).collect();
        let total: usize = parts.iter().map(|p| p.0.len()).sum();
        x.case(json!({"sources": parts, "case": t}), total > 1, || {
            let mut acc = SmallIntLabels::new(parts[0].0.clone(), parts[0].1.clone());
            let mut want = masked(&parts[0].0, &parts[0].1);
            ints_ok(&acc, &want, "source")?;
            for (l, m) in &parts[1..] {
                let o = SmallIntLabels::new(l.clone(), m.clone());
                acc.merge(&o);
                want.extend(masked(l, m));
                ints_ok(&acc, &want, "merged")?;
                ints_ok(&o, &masked(l, m), "the merged-in source")?;
            }
            Ok(())
        });
        let dim = rng.gen_range(1..4usize);
        let n = rng.gen_range(0..6usize);
        let hot: Vec<Option<usize>> = (0..n).map(|_| { let v = rng.gen_range(0..dim + 1); if v == dim { None } else { Some(v) } }).collect();
        let flat: Vec<f32> = hot.iter().flat_map(|h| (0..dim).map(|j| if Some(j) == *h { 1.0 } else { 0.0 }).collect::<Vec<f32>>()).collect();
        let mask: Option<Vec<bool>> = if rng.gen() { Some((0..n).map(|_| rng.gen()).collect()) } else { None };
        x.case(json!({"one_hot": hot, "dim": dim, "mask": mask}), n > 1, || {
            let v = VecLabels::new(flat.clone(), dim, mask.clone());
            let rows: Vec<Vec<f32>> = flat.chunks(dim).map(|c| c.to_vec()).collect();
            vecs_ok(&v, &masked(&rows, &mask), dim, "vector labels")?;
            let want: Vec<Option<i64>> = masked(&hot, &mask).into_iter().map(|h| h.flatten().map(|j| j as i64)).collect();
            ints_ok(&v.one_hot_to_int(), &want, "one_hot_to_int")?;
            if dim == 1 {
                let want: Vec<Option<i64>> = masked(&rows, &mask).into_iter().map(|r| r.map(|r| if r[0] > 0.5 { 1 } else { 0 })).collect();
                ints_ok(&v.binary_to_int(), &want, "binary_to_int")?;
            }
            let r = DataRam::<L2>::new(flat.clone(), dim).unwrap().convert_to_labels();
            vecs_ok(&r, &rows.iter().cloned().map(Some).collect::<Vec<_>>(), dim, "DataRam::convert_to_labels")?;
            Ok(())
        });
    }
    // files
    for t in 0..x.n(100) {
        if x.done() { return; }
        let files: Vec<Vec<i64>> = (0..rng.gen_range(1..4usize)).map(|_| (0..rng.gen_range(1..5usize)).map(|_| rng.gen_range(-2i64..4)).collect()).collect();
        let col = rng.gen_range(0..3usize);
        let short = t % 3 == 0;
        x.case(json!({"csv_files": files, "column": col, "rows_without_column": short}), true, || {
            let mut want: Vec<Option<i64>> = vec![];
            let mut made = vec![];
            for (k, f) in files.iter().enumerate() {
                let mut s = String::from(if short { "a\n" } else { "a,b,c\n" });
                let mut w = vec![];
                for v in f {
                    if short && col > 0 { s.push_str("9\n"); w.push(None); }
                    else if short { s.push_str(&format!("{}\n", v)); w.push(if *v < 0 { None } else { Some(*v) }); }
                    else { let mut c = vec!["7".to_string(); 3]; c[col] = v.to_string(); s.push_str(&(c.join(",") + "\n")); w.push(if *v < 0 { None } else { Some(*v) }); }
                }
                let name = format!("y{}.csv", k);
                std::fs::write(&name, s).unwrap();
                let p = std::env::current_dir().unwrap().join(&name);
                ints_ok(&open_int_csv(&p, col).map_err(|e| format!("{:?}", e))?, &w, "CSV file")?;
                made.push(p);
                want.extend(w);
            }
            let data: Vec<f32> = (0..want.len()).map(|i| i as f32).collect();
            made.push(write_dat("yd.dat", &data));
            std::fs::write("l.yml", format!("---\ndata_path: yd.dat\ndata_dim: 1\nlabels_path: y*.csv\nlabels_index: {}\n", col)).unwrap();
            ints_ok(&labels_from_yaml("l.yml").map_err(|e| format!("{:?}", e))?, &want, "labels_from_yaml")?;
            let lc = labeled_ram_from_yaml::<_, L2>("l.yml").map_err(|e| format!("{:?}", e))?;
            ensure!(lc.len() == want.len(), "yaml cloud: {} points", lc.len());
            for i in 0..want.len() { ensure!(lc.label(i).map_err(|e| format!("{:?}", e))?.cloned() == want[i] && lc.point(i).map_err(|e| format!("{:?}", e))?[0] == i as f32, "yaml cloud: entry {}", i); }
            for f in made { let _ = std::fs::remove_file(f); }
            let _: Option<Value> = None;
            Ok(())
        });
    }
}
