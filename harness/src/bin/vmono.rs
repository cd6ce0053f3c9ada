//! Replay of the map contracts (P08). The map is private to goko, so its real source files are compiled in by path;
//! they live in a binary of their own so that nothing else depends on them.
#![allow(dead_code, unused, clippy::all)]
#[path = "../common.rs"]
#[macro_use]
mod common;
#[path = "/repo/goko/src/monomap/mod.rs"]
mod monomap;
use common::*;
use monomap::*;
use rand::Rng;
use serde_json::json;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{mpsc, Arc};
use std::time::Duration;

type Model = BTreeMap<i32, i64>;
#[derive(Clone, Debug, serde::Serialize)]
enum Op { Ins(i32, i64), Upd(i32, i64), Rem(i32), Purge, Refresh, Flush, Extend(Vec<(i32, i64)>), Meta(u32), Clone }

fn step(m: &mut Model, o: &Op) {
    match o {
        Op::Ins(k, v) => { m.insert(*k, *v); }
        Op::Upd(k, d) => { if let Some(v) = m.get_mut(k) { *v = *v * 3 + d; } }
        Op::Rem(k) => { m.remove(k); }
        Op::Purge => m.clear(),
        Op::Extend(l) => for (k, v) in l { m.insert(*k, *v); },
        _ => {}
    }
}

fn see(r: &MonoReadHandle<i32, i64, u32>, published: bool, m: &Model, meta: u32, what: &str) -> R {
    let got: Vec<(i32, i64)> = r.map_into(|k, v| (*k, *v));
    let mut got2 = vec![];
    r.for_each(|k, v| got2.push((*k, *v)));
    let (mut a, mut b) = (got.clone(), got2);
    a.sort(); b.sort();
    let w: Vec<(i32, i64)> = m.iter().map(|(k, v)| (*k, *v)).collect();
    ensure!(a == w && b == w, "{}: a reader sees {:?}, published {:?}", what, a, w);
    ensure!(r.len() == w.len() && r.is_empty() == w.is_empty(), "{}: len {} of {}", what, r.len(), w.len());
    ensure!(!r.is_destroyed(), "{}: destroyed", what);
    for k in -1..8 {
        ensure!(r.get_and(&k, |v| *v) == m.get(&k).cloned(), "{}: key {} gives {:?}", what, k, r.get_and(&k, |v| *v));
        ensure!(r.contains_key(&k) == m.contains_key(&k), "{}: contains_key {}", what, k);
        if published { ensure!(r.meta_get_and(&k, |v| *v) == Some((m.get(&k).cloned(), meta)), "{}: meta_get_and {} gives {:?}", what, k, r.meta_get_and(&k, |v| *v)); }
        else { ensure!(r.meta_get_and(&k, |v| *v).is_none(), "{}: something is visible before the first refresh", what); }
    }
    ensure!(r.meta() == Some(meta), "{}: meta {:?} expected {}", what, r.meta(), meta);
    Ok(())
}

fn history(ops: &[Op]) -> R {
    let (r, mut w) = with_meta::<i32, i64, u32>(0);
    let f = r.factory();
    let mut readers = vec![r];
    let (mut all, mut publ, mut meta, mut pmeta, mut published, mut pending) = (Model::new(), Model::new(), 0u32, 0u32, false, 0usize);
    for (i, o) in ops.iter().enumerate() {
        match o {
            Op::Ins(k, v) => { w.insert(*k, *v); }
            Op::Upd(k, d) => { let d = *d; w.update(*k, move |v| *v = *v * 3 + d); }
            Op::Rem(k) => { w.remove(*k); }
            Op::Purge => { w.purge(); }
            Op::Extend(l) => w.extend(l.clone()),
            Op::Meta(x) => { let old = w.set_meta(*x); ensure!(old == meta, "set_meta returned {} expected {}", old, meta); meta = *x; }
            Op::Refresh => { w.refresh(); publ = all.clone(); pmeta = meta; published = true; pending = 0; }
            Op::Flush => { if published && pending > 0 { publ = all.clone(); pmeta = meta; pending = 0; } w.flush(); }
            Op::Clone => { let c = readers[0].clone(); readers.push(c); readers.push(f.handle()); if readers.len() > 6 { readers.remove(1); } }
        }
        step(&mut all, o);
        match o { Op::Ins(..) | Op::Upd(..) | Op::Rem(..) | Op::Purge => pending += 1, Op::Extend(l) => pending += l.len(), _ => {} }
        if published { ensure!(w.pending().len() == pending, "after op {}: {} operations pending, expected {}", i, w.pending().len(), pending); }
        for r in &readers { see(r, published, &publ, pmeta, &format!("after op {} {:?}", i, o))?; }
        see(&w, published, &publ, pmeta, &format!("through the write handle after op {} {:?}", i, o))?;
    }
    // two refreshes make both copies equal to everything written, further ones change nothing
    for k in 0..5 { w.refresh(); for r in &readers { see(r, true, &all, meta, &format!("final refresh {}", k))?; } ensure!(w.pending().is_empty(), "pending after refresh"); }
    drop(w);
    for r in &readers { ensure!(r.is_destroyed() && r.get_and(&1, |v| *v).is_none() && r.len() == 0 && r.is_empty(), "the map outlives its writer"); }
    Ok(())
}

/// Many operations between two refreshes: all of them become visible at once, and stay visible in the other copy.
fn long_log(len: usize, seed: u64) -> R {
    use rand::SeedableRng;
    let mut rng = rand::rngs::SmallRng::seed_from_u64(seed);
    let (r, mut w) = new::<i32, i64>();
    let mut m = Model::new();
    for round in 0..4 {
        let before = m.clone();
        for i in 0..len {
            let o = match rng.gen_range(0..8) { 0 => Op::Rem(rng.gen_range(0..3000)), 1 | 2 => Op::Upd(rng.gen_range(0..3000), i as i64), 3 if i % 997 == 996 => Op::Purge, _ => Op::Ins(rng.gen_range(0..3000), i as i64) };
            match &o { Op::Ins(k, v) => { w.insert(*k, *v); } Op::Upd(k, d) => { let d = *d; w.update(*k, move |v| *v = v.wrapping_mul(3) % 1000003 + d); } Op::Rem(k) => { w.remove(*k); } _ => { w.purge(); } }
            match &o { Op::Upd(k, d) => { if let Some(v) = m.get_mut(k) { *v = v.wrapping_mul(3) % 1000003 + d; } } o => step(&mut m, o) }
        }
        let mut now: Vec<(i32, i64)> = r.map_into(|k, v| (*k, *v)); now.sort();
        ensure!(now == before.into_iter().collect::<Vec<_>>(), "round {}: {} unpublished operations are visible", round, len);
        for k in 0..if round == 3 { 3 } else { 1 } {
            w.refresh();
            let mut now: Vec<(i32, i64)> = r.map_into(|k, v| (*k, *v)); now.sort();
            let want: Vec<(i32, i64)> = m.iter().map(|(k, v)| (*k, *v)).collect();
            ensure!(now == want, "round {} refresh {}: after {} operations the readers see {} entries, {} written, first difference {:?}", round, k, len, now.len(), want.len(), now.iter().zip(&want).find(|(a, b)| a != b));
        }
    }
    Ok(())
}

/// A reader that is inside a read keeps its snapshot: the writer may publish once, but not touch the copy being read.
fn parked(refreshes_before: usize, inside: usize) -> R {
    let (r, mut w) = new::<i32, i64>();
    for i in 0..8 { w.insert(i, 100); }
    w.refresh();
    for _ in 0..refreshes_before { for i in 0..8 { w.update(i, |v| *v += 1); } w.refresh(); }
    let base = 100 + refreshes_before as i64;
    let done = Arc::new(AtomicUsize::new(0));
    let (started_tx, started_rx) = mpsc::channel();
    let (go_tx, go_rx) = mpsc::channel::<()>();
    let d2 = done.clone();
    let fac = r.factory();
    let h = std::thread::spawn(move || {
        let r = fac.handle();
        // the handle has read before, so its epoch is not the initial one
        let _ = r.len();
        let other = if inside == 2 { Some(r.clone()) } else { None };
        let mut seen: Vec<i64> = vec![];
        let mut first = true;
        r.for_each(|_k, v| {
            if first { first = false; 
                match inside {
                    1 => { let _ = (r.len(), r.get_and(&3, |v| *v)); }
                    2 => { let o = other.as_ref().unwrap(); let _ = (o.len(), o.get_and(&3, |v| *v)); }
                    3 => { let o = r.clone(); let _ = (o.len(), o.get_and(&3, |v| *v)); }
                    4 => { let o = r.factory().clone().handle(); let _ = (o.len(), o.get_and(&3, |v| *v)); drop(o); }
                    5 => { let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| r.get_and(&3, |_| -> () { panic!("inside") }))); }
                    _ => {}
                }
                started_tx.send(()).unwrap(); let _ = go_rx.recv_timeout(Duration::from_secs(20)); }
            seen.push(*v);
        });
        seen
    });
    started_rx.recv_timeout(Duration::from_secs(20)).map_err(|_| "the reader did not start".to_string())?;
    let wt = std::thread::spawn(move || {
        for _ in 0..3 {
            for i in 0..8 { w.update(i, |v| *v += 1000); }
            w.refresh();
            d2.fetch_add(1, Ordering::SeqCst);
        }
        w
    });
    std::thread::sleep(Duration::from_millis(120));
    let n = done.load(Ordering::SeqCst);
    let _ = go_tx.send(());
    let seen = h.join().map_err(|_| "the reader panicked".to_string())?;
    let _w = wt.join().map_err(|_| "the writer panicked".to_string())?;
    ensure!(n <= 1, "the writer refreshed {} times while a read of the older copy was going on", n);
    ensure!(seen == vec![base; 8], "a read that spans a refresh saw {:?}, published {}", seen, base);
    let mut fin: Vec<i64> = r.map_into(|_, v| *v); fin.sort();
    ensure!(fin == vec![base + 3000; 8], "final state {:?}", fin);
    Ok(())
}

/// Two overlapping reads on two handles: the one that ends last is protected until it ends, whichever began first.
fn overlap(kind: usize, refreshes_before: usize) -> R {
    let (r, mut w) = new::<i32, i64>();
    for i in 0..8 { w.insert(i, 100); }
    w.refresh();
    for _ in 0..refreshes_before { for i in 0..8 { w.update(i, |v| *v += 1); } w.refresh(); }
    let base = 100 + refreshes_before as i64;
    let _ = r.len();
    let a = r.factory().handle();
    let _ = a.len();
    let b = match kind { 0 => a.clone(), 1 => a.factory().handle(), _ => { let c = a.clone(); let _ = c.len(); c.clone() } };
    let (started_tx, started_rx) = mpsc::channel();
    let (go_tx, go_rx) = mpsc::channel::<()>();
    let h = a.get_and(&0, |_| {
        let h = std::thread::spawn(move || {
            let mut seen: Vec<i64> = vec![];
            let mut first = true;
            b.for_each(|_k, v| {
                if first { first = false; started_tx.send(()).unwrap(); let _ = go_rx.recv_timeout(Duration::from_secs(20)); }
                seen.push(*v);
            });
            seen
        });
        started_rx.recv_timeout(Duration::from_secs(20)).map(|_| h)
    }).ok_or("no value for a key")?.map_err(|_| "the reader did not start".to_string())?;
    let done = Arc::new(AtomicUsize::new(0));
    let d2 = done.clone();
    let wt = std::thread::spawn(move || {
        for _ in 0..3 { for i in 0..8 { w.update(i, |v| *v += 1000); } w.refresh(); d2.fetch_add(1, Ordering::SeqCst); }
        w
    });
    std::thread::sleep(Duration::from_millis(120));
    let n = done.load(Ordering::SeqCst);
    let _ = go_tx.send(());
    let seen = h.join().map_err(|_| "the reader panicked".to_string())?;
    let _w = wt.join().map_err(|_| "the writer panicked".to_string())?;
    ensure!(n <= 1, "the writer refreshed {} times while a read of the older copy was going on", n);
    ensure!(seen == vec![base; 8], "a read that spans a refresh saw {:?}, published {}", seen, base);
    Ok(())
}

/// A read that is going on when the map is dropped ends before its data is freed. Kinds: a handle that has read before, a new one, one that is inside a read within a read.
fn parked_drop(kind: usize, refreshes: usize) -> R {
    let (r, mut w) = new::<i32, Arc<i64>>();
    for i in 0..8 { w.insert(i, Arc::new(7)); }
    w.refresh();
    for _ in 0..refreshes { w.refresh(); }
    let probe = r.get_and(&0, |v| Arc::downgrade(v)).unwrap();
    let (started_tx, started_rx) = mpsc::channel();
    let (go_tx, go_rx) = mpsc::channel::<()>();
    let fac = r.factory();
    let h = std::thread::spawn(move || {
        let r = fac.handle();
        if kind != 1 { let _ = r.len(); }
        let (mut first, mut alive) = (true, true);
        r.for_each(|_k, _v| {
            if first {
                first = false;
                if kind == 2 { let _ = r.len(); }
                started_tx.send(()).unwrap();
                let _ = go_rx.recv_timeout(Duration::from_secs(20));
                // the data of the map this read iterates over must still be there; `_v` is not touched in case it is not
                alive = probe.upgrade().is_some();
            }
            if !alive { panic!("freed") }
        });
        alive
    });
    started_rx.recv_timeout(Duration::from_secs(20)).map_err(|_| "the reader did not start".to_string())?;
    let done = Arc::new(AtomicBool::new(false));
    let d2 = done.clone();
    let wt = std::thread::spawn(move || { drop(w); d2.store(true, Ordering::SeqCst); });
    std::thread::sleep(Duration::from_millis(120));
    let early = done.load(Ordering::SeqCst);
    let _ = go_tx.send(());
    let alive = h.join();
    let _ = wt.join();
    ensure!(!early && matches!(alive, Ok(true)), "the map was freed while a read of it was going on");
    ensure!(r.is_destroyed(), "the map outlives its writer");
    Ok(())
}

/// Free-running readers: every read sees one published generation, generations never go back.
fn stress(gens: i64, readers: usize) -> R {
    let (r, mut w) = new::<i32, i64>();
    for i in 0..16 { w.insert(i, 0); }
    w.refresh();
    let stop = Arc::new(AtomicBool::new(false));
    let bad: Arc<std::sync::Mutex<Option<String>>> = Default::default();
    let hs: Vec<_> = (0..readers).map(|_| {
        let (f, stop, bad) = (r.factory(), stop.clone(), bad.clone());
        std::thread::spawn(move || {
            let r = f.handle();
            let mut last = 0;
            while !stop.load(Ordering::Relaxed) {
                let v: Vec<i64> = r.map_into(|_, v| *v);
                if v.len() != 16 || v.iter().any(|g| *g != v[0]) || v[0] < last { *bad.lock().unwrap() = Some(format!("a read saw {:?} after generation {}", v, last)); break; }
                last = v[0];
            }
        })
    }).collect();
    for g in 1..=gens {
        if g % 3 == 0 { for i in 0..16 { w.insert(i, g); } } else if g % 3 == 1 { for i in 0..16 { w.update(i, |v| *v += 1); } } else { w.purge(); for i in (0..16).rev() { w.insert(i, g); } }
        w.refresh();
    }
    stop.store(true, Ordering::Relaxed);
    for h in hs { h.join().map_err(|_| "a reader panicked".to_string())?; }
    let b = bad.lock().unwrap().clone();
    match b { Some(e) => Err(e), None => Ok(()) }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let mut x = Ctx::new(a[2] == "thorough", a[3].parse().unwrap(), &a[4]);
    x.rule = "random histories of up to 40 inserts, updates, removals, clears, metadata changes and refreshes, every reader checked after every operation against a reference map; all histories of length 4 over a small alphabet; a reader parked across refreshes; free-running readers; non-trivial = at least one refresh followed by writes".into();
    let mut rng = x.rng(8);
    // exhaustive small histories
    let alpha = [Op::Ins(1, 10), Op::Ins(2, 20), Op::Upd(1, 1), Op::Rem(1), Op::Purge, Op::Refresh];
    let depth = if x.thorough { 7 } else { 5 };
    let total = alpha.len().pow(depth as u32);
    for c in 0..total {
        if x.done() { break; }
        let mut k = c;
        let ops: Vec<Op> = (0..depth).map(|_| { let o = alpha[k % alpha.len()].clone(); k /= alpha.len(); o }).collect();
        let nt = ops.iter().position(|o| matches!(o, Op::Refresh)).map(|p| p + 1 < ops.len()).unwrap_or(false);
        x.case(json!({"ops": ops}), nt, || history(&ops));
    }
    for _ in 0..x.n(1200) {
        if x.done() { break; }
        let n = rng.gen_range(1..40);
        let ops: Vec<Op> = (0..n).map(|_| match rng.gen_range(0..14) {
            0..=3 => Op::Ins(rng.gen_range(0..6), rng.gen_range(0..50)),
            4 | 5 => Op::Upd(rng.gen_range(0..6), rng.gen_range(0..9)),
            6 | 7 => Op::Rem(rng.gen_range(0..6)),
            8 => if rng.gen_range(0..3) == 0 { Op::Purge } else { Op::Meta(rng.gen_range(0..9)) },
            9 => Op::Flush,
            10 => Op::Extend((0..rng.gen_range(0..4)).map(|_| (rng.gen_range(0..6), rng.gen_range(0..50))).collect()),
            11 => Op::Clone,
            _ => Op::Refresh,
        }).collect();
        let nt = ops.iter().position(|o| matches!(o, Op::Refresh)).map(|p| p + 1 < ops.len()).unwrap_or(false);
        x.case(json!({"ops": ops}), nt, || history(&ops));
    }
    // long logs between two refreshes
    for len in [300usize, 1500, 5000, 9000, 20000, 70000] {
        if x.done() { break; }
        let seed: u64 = rng.gen();
        x.case(json!({"operations_between_refreshes": len, "seed": seed}), true, || long_log(len, seed));
    }
    let insides = ["none", "on the same handle", "on a clone of the handle", "on a clone made during the read", "on a new handle", "on the same handle, panicking"];
    for k in 0..6 { for inside in 0..6 { if x.done() { break; } if k > 2 && inside > 1 { continue; } x.case(json!({"parked_reader_after_refreshes": k, "reads_inside_the_read": insides[inside]}), true, || parked(k, inside)); } }
    for k in 0..3 { for f in 0..3 { if x.done() { break; } let on = ["a handle and its clone", "two handles of a factory", "a handle and a clone of its clone"][k]; x.case(json!({"overlapping_reads_on": on, "refreshes_before": f}), true, || overlap(k, f)); } }
    for k in 0..3 { for f in 0..3 { if x.done() { break; } let how = ["by a used handle", "by a new handle", "with a read inside"][k]; x.case(json!({"dropped_during_a_read": how, "extra_refreshes": f}), true, || parked_drop(k, f)); } }
    for k in 0..x.n(4) { if x.done() { break; } x.case(json!({"free_running_readers": 3, "round": k}), true, || stress(3000, 3)); }
    x.finish();
}
