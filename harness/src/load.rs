//! Replay of the loader contracts (P23): a cloud loaded from files holds the rows of the files in order.
use crate::common::*;
use flate2::{write::GzEncoder, Compression};
use goko::utils::{cover_tree_from_labeled_yaml, cover_tree_from_yaml};
use pointcloud::loaders::*;
use pointcloud::metrics::{L1, L2};
use pointcloud::*;
use rand::Rng;
use serde_json::json;
use std::io::Write;
use std::path::{Path, PathBuf};

fn dat(p: &Path, v: &[f32]) { std::fs::write(p, v.iter().flat_map(|f| f.to_ne_bytes().to_vec()).collect::<Vec<u8>>()).unwrap(); }
fn er<E: std::fmt::Debug>(e: E) -> String { format!("{:?}", e) }

fn rows_ok<D: PointCloud<Point = [f32]>>(d: &D, data: &[f32], dim: usize, what: &str) -> R {
    let n = data.len() / dim;
    ensure!(d.len() == n && d.is_empty() == (n == 0) && d.dim() == dim, "{}: {} points of dimension {}, the files hold {} of dimension {}", what, d.len(), d.dim(), n, dim);
    for i in 0..n {
        let p: Vec<f32> = d.point(i).map_err(er)?.dense_iter().collect();
        let w = &data[i * dim..(i + 1) * dim];
        ensure!(p.len() == dim && p.iter().zip(w).all(|(a, b)| a.to_bits() == b.to_bits()), "{}: point {} is {:?}, the files say {:?}", what, i, p, w);
    }
    ensure!(d.point(n).is_err(), "{}: there is a point {} of {}", what, n, n);
    Ok(())
}
fn labels_ok<L: LabelSet<Label = i64>>(l: &L, want: &[Option<i64>], what: &str) -> R {
    ensure!(l.len() == want.len(), "{}: {} labels, the files hold {}", what, l.len(), want.len());
    for (i, w) in want.iter().enumerate() {
        let g = l.label(i).map_err(er)?.cloned();
        ensure!(g == *w, "{}: label {} is {:?}, the files say {:?}", what, i, g, w);
    }
    Ok(())
}

pub fn p23(x: &mut Ctx) {
    x.rule = "1..13 data files of 0..7 rows of dimension 1..5, named so that they sort in order (file10 before file2), with labels in CSV (plain or gzipped, any column, short rows, negative numbers, unreadable fields), one-hot or yes/no files, read through configuration files with relative or absolute patterns, in a folder other than the current one, with a right or wrong count".into();
    let mut rng = x.rng(23);
    for t in 0..x.n(1200) {
        if x.done() { return; }
        let dim = rng.gen_range(1..6usize);
        let nf = if t % 7 == 3 { rng.gen_range(10..13usize) } else { rng.gen_range(1..5usize) };
        let mut names: Vec<String> = (0..nf).map(|i| format!("{}", i)).collect();
        names.sort();
        let mut sizes: Vec<usize> = (0..nf).map(|_| rng.gen_range(0..8usize)).collect();
        // an empty file cannot be mapped; a cloud has at least one point
        for s in sizes.iter_mut() { if *s == 0 { *s = 1; } }
        let total: usize = sizes.iter().sum();
        let data: Vec<f32> = (0..total * dim).map(|i| if rng.gen_range(0..6) == 0 { rng.gen_range(-3i32..4) as f32 } else { i as f32 * 0.37 - rng.gen_range(0..9) as f32 }).collect();
        let ldim = rng.gen_range(1..5usize);
        let lab: Vec<f32> = (0..total * ldim).map(|_| [0.0, 0.0, 1.0, 0.5, 0.75, -2.0][rng.gen_range(0..6)]).collect();
        let kind = t % 4; // 0: csv, 1: gz, 2: dat, 3: csv without some columns
        let col = rng.gen_range(0..4usize);
        let ints: Vec<i64> = (0..total).map(|_| [0, 1, 2, 40, -1, -7, i64::MAX, i64::MIN][rng.gen_range(0..8)]).collect();
        let width: Vec<usize> = sizes.iter().map(|_| if kind == 3 && rng.gen_range(0..2) == 0 { rng.gen_range(0..4usize) + 1 } else { 4 }).collect();
        let bad = kind != 2 && t % 16 == 12;
        let abs = t % 3 == 0;
        let desc = json!({"files": names.iter().zip(&sizes).collect::<Vec<_>>(), "dim": dim, "data": fs(&data), "labels": kind, "labels_dim": ldim, "label_rows": fs(&lab), "label_column": col, "integers": ints, "columns": width, "unreadable_field": bad, "absolute_pattern": abs});
        x.case(desc, nf > 1, || {
            let here = std::env::current_dir().unwrap();
            let dir = here.join(format!("p23_{}", std::process::id()));
            let _ = std::fs::remove_dir_all(&dir);
            std::fs::create_dir_all(dir.join("in")).unwrap();
            let r = one(&dir, &names, &sizes, &data, dim, &lab, ldim, kind, col, &ints, &width, bad, abs);
            let _ = std::fs::remove_dir_all(&dir);
            r
        });
    }
}

#[allow(clippy::too_many_arguments)]
fn one(dir: &Path, names: &[String], sizes: &[usize], data: &[f32], dim: usize, lab: &[f32], ldim: usize, kind: usize, col: usize, ints: &[i64], width: &[usize], bad: bool, abs: bool) -> R {
    let total: usize = sizes.iter().sum();
    let (mut dp, mut vp): (Vec<PathBuf>, Vec<PathBuf>) = (vec![], vec![]);
    let mut want: Vec<Option<i64>> = vec![];
    let mut o = 0;
    let mut broken = false;
    for (k, s) in sizes.iter().enumerate() {
        let d = dir.join("in").join(format!("file{}.dat", names[k]));
        dat(&d, &data[o * dim..(o + s) * dim]);
        dp.push(d);
        let v = dir.join("in").join(format!("vec{}.dat", names[k]));
        dat(&v, &lab[o * ldim..(o + s) * ldim]);
        vp.push(v);
        if kind == 2 {
            for i in o..o + s {
                let r = &lab[i * ldim..(i + 1) * ldim];
                want.push(if ldim == 1 { Some(if r[0] > 0.5 { 1 } else { 0 }) } else { r.iter().position(|x| *x > 0.5).map(|p| p as i64) });
            }
        } else {
            let w = width[k];
            let mut text = (0..w).map(|c| format!("c{}", c)).collect::<Vec<_>>().join(",") + "\n";
            let mut part = vec![];
            for i in o..o + s {
                let mut c = vec!["7".to_string(); w];
                if col < w { c[col] = ints[i].to_string(); part.push(if ints[i] < 0 { None } else { Some(ints[i]) }); } else { part.push(None); }
                if bad && i == total / 2 && col < w { c[col] = "1x".to_string(); broken = true; }
                text.push_str(&(c.join(",") + "\n"));
            }
            let f = dir.join("in").join(format!("lab{}.{}", names[k], if kind == 1 { "csv.gz" } else { "csv" }));
            if kind == 1 {
                let mut e = GzEncoder::new(vec![], Compression::default());
                e.write_all(text.as_bytes()).unwrap();
                std::fs::write(&f, e.finish().unwrap()).unwrap();
            } else { std::fs::write(&f, text).unwrap(); }
            if !broken { labels_ok(&open_int_csv(&f, col).map_err(er)?, &part, "CSV file")?; }
            want.extend(part);
        }
        o += s;
    }
    // the files given in a list keep the order of the list
    let g = open_labeled_memmaps::<L1>(dim, ldim, &dp, &vp).map_err(er)?;
    rows_ok(&g, data, dim, "open_labeled_memmaps")?;
    for i in 0..total { ensure!(g.label(i).map_err(er)? == Some(&lab[i * ldim..(i + 1) * ldim]), "open_labeled_memmaps: label {}", i); }
    rows_ok(&open_memmaps::<L2>(dim, &dp).map_err(er)?, data, dim, "open_memmaps")?;
    rows_ok(&convert_glued_memmap_to_ram(open_memmaps::<L2>(dim, &dp).map_err(er)?), data, dim, "convert_glued_memmap_to_ram")?;
    {
        let (mut back, mut rd): (Vec<PathBuf>, Vec<f32>) = (dp.clone(), vec![]);
        back.reverse();
        let mut e = total;
        for s in sizes.iter().rev() { rd.extend_from_slice(&data[(e - s) * dim..e * dim]); e -= s; }
        rows_ok(&convert_glued_memmap_to_ram(open_memmaps::<L2>(dim, &back).map_err(er)?), &rd, dim, "convert_glued_memmap_to_ram, files in reverse")?;
    }
    // through configuration files
    let pre = if abs { dir.join("in").to_string_lossy().to_string() + "/" } else { "in/".to_string() };
    let vy = dir.join("v.yml");
    std::fs::write(&vy, format!("---\ndata_path: {}file*.dat\ndata_dim: {}\nlabels_path: {}vec*.dat\nlabels_dim: {}\n", pre, dim, pre, ldim)).unwrap();
    let v = vec_labeled_ram_from_yaml::<_, L2>(&vy).map_err(er)?;
    rows_ok(&v, data, dim, "vec_labeled_ram_from_yaml")?;
    for i in 0..total { ensure!(v.label(i).map_err(er)? == Some(&lab[i * ldim..(i + 1) * ldim]), "vec_labeled_ram_from_yaml: label {}", i); }
    rows_ok(&ram_from_yaml::<_, L1>(&vy).map_err(er)?, data, dim, "ram_from_yaml")?;
    let ly = dir.join("l.yml");
    let source = if kind == 2 { format!("labels_path: {}vec*.dat\nlabels_dim: {}\n", pre, ldim) } else { format!("labels_path: {}lab*\nlabels_index: {}\n", pre, col) };
    let cfg = |count: &str| format!("---\n{}data_path: {}file*.dat\ndata_dim: {}\n{}leaf_cutoff: 2\nscale_base: 1.5\nmin_res_index: -4\n", count, pre, dim, source);
    std::fs::write(&ly, cfg("")).unwrap();
    if broken {
        ensure!(labels_from_yaml(&ly).is_err() && labeled_ram_from_yaml::<_, L2>(&ly).is_err(), "a label field that is no integer is accepted");
        return Ok(());
    }
    labels_ok(&labels_from_yaml(&ly).map_err(er)?, &want, "labels_from_yaml")?;
    let l = labeled_ram_from_yaml::<_, L2>(&ly).map_err(er)?;
    rows_ok(&l, data, dim, "labeled_ram_from_yaml")?;
    for i in 0..total { ensure!(l.label(i).map_err(er)?.cloned() == want[i], "labeled_ram_from_yaml: label {} is {:?}, the files say {:?}", i, l.label(i), want[i]); }
    for count in ["".to_string(), format!("count: {}\n", total)] {
        std::fs::write(&ly, cfg(&count)).unwrap();
        let t = cover_tree_from_yaml(&ly).map_err(er)?;
        let r = t.reader();
        rows_ok(&**r.point_cloud(), data, dim, "cover_tree_from_yaml")?;
        let p = r.parameters();
        ensure!(p.leaf_cutoff == 2 && p.scale_base == 1.5 && p.min_res_index == -4, "cover_tree_from_yaml: settings {} {} {}", p.leaf_cutoff, p.scale_base, p.min_res_index);
        let t = cover_tree_from_labeled_yaml(&ly).map_err(er)?;
        let r = t.reader();
        rows_ok(&**r.point_cloud(), data, dim, "cover_tree_from_labeled_yaml")?;
        for i in 0..total { ensure!(r.point_cloud().label(i).map_err(er)?.cloned() == want[i], "cover_tree_from_labeled_yaml: label {}", i); }
        let p = r.parameters();
        ensure!(p.leaf_cutoff == 2 && p.scale_base == 1.5 && p.min_res_index == -4, "cover_tree_from_labeled_yaml: settings {} {} {}", p.leaf_cutoff, p.scale_base, p.min_res_index);
    }
    for wrong in [total + 1, total - 1] {
        std::fs::write(&ly, cfg(&format!("count: {}\n", wrong))).unwrap();
        let a = std::panic::catch_unwind(|| cover_tree_from_yaml(&ly).is_ok());
        ensure!(!matches!(a, Ok(true)), "cover_tree_from_yaml: a count of {} is accepted for {} points", wrong, total);
        let a = std::panic::catch_unwind(|| cover_tree_from_labeled_yaml(&ly).is_ok());
        ensure!(!matches!(a, Ok(true)), "cover_tree_from_labeled_yaml: a count of {} is accepted for {} points", wrong, total);
    }
    if dp.len() > 1 {
        let a = std::panic::catch_unwind(|| open_labeled_memmaps::<L1>(dim, ldim, &dp, &vp[1..]).is_ok());
        ensure!(!matches!(a, Ok(true)), "open_labeled_memmaps: {} label files are accepted for {} data files", vp.len() - 1, dp.len());
    }
    Ok(())
}
