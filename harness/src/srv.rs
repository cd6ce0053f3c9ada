//! Replay of the query-server contract (P20): random interleaved requests of two connections, answered as the library answers them.
use crate::common::*;
use goko::plugins::discrete::prelude::*;
use goko::*;
use http::{Method, Request};
use hyper::Body;
use pointcloud::*;
use rand::rngs::SmallRng;
use rand::Rng;
use serde_json::{json, Value};
use serve_goko::core::CoreWriter;
use serve_goko::http::{GokoHttp, MakeGokoHttp};
use serve_goko::parsers::MsgPackDense;
use std::collections::HashMap;
use std::io::Write;
use std::sync::Arc;
use std::time::Duration;
use tower::Service;

type Cloud = DefaultLabeledCloud<L2>;
type Tr = BayesCategoricalTracker<Cloud>;
type Conn = GokoHttp<Cloud, MsgPackDense>;

#[derive(Clone, Debug)]
struct Rq { conn: usize, post: bool, path: String, query: Option<String>, body: Vec<u8>, chunks: usize, ctype: Option<Vec<u8>>, cut: bool }
/// what must come back
enum Want { Json(Value), Err, NotFound, Any, Served }

fn pack(v: &[f32]) -> Vec<u8> { rmp_serde::to_vec(&v.to_vec()).unwrap() }
fn zlib(b: &[u8]) -> Vec<u8> { let mut e = flate2::write::ZlibEncoder::new(vec![], flate2::Compression::fast()); e.write_all(b).unwrap(); e.finish().unwrap() }

fn deflate(b: &[u8]) -> Vec<u8> { let mut e = flate2::write::DeflateEncoder::new(vec![], flate2::Compression::fast()); e.write_all(b).unwrap(); e.finish().unwrap() }

fn request(r: &Rq) -> Request<Body> {
    let uri = format!("{}{}", r.path, r.query.as_ref().map(|q| format!("?{}", q)).unwrap_or_default());
    let body = if r.cut {
        // the connection breaks off in the middle of the body
        let parts: Vec<Result<Vec<u8>, std::io::Error>> = vec![Ok(r.body[..r.body.len() / 2].to_vec()), Err(std::io::Error::new(std::io::ErrorKind::Other, "cut"))];
        Body::wrap_stream(futures_util::stream::iter(parts))
    } else if r.chunks < 2 || r.body.len() < 2 { Body::from(r.body.clone()) } else {
        let size = (r.body.len() + r.chunks - 1) / r.chunks;
        let parts: Vec<Result<Vec<u8>, std::io::Error>> = r.body.chunks(size).map(|c| Ok(c.to_vec())).collect();
        Body::wrap_stream(futures_util::stream::iter(parts))
    };
    let mut b = Request::builder().method(if r.post { Method::POST } else { Method::GET }).uri(uri);
    if let Some(c) = &r.ctype { b = b.header(http::header::CONTENT_TYPE, http::HeaderValue::from_bytes(c).unwrap()); }
    b.body(body).unwrap()
}
/// status and body of the answer, or the error it was answered with
async fn answer<F: std::future::Future<Output = Result<http::Response<Body>, E>>, E: std::fmt::Debug>(f: F) -> Result<Result<(u16, String), String>, String> {
    match tokio::time::timeout(Duration::from_secs(20), f).await {
        Err(_) => Err("no answer within 20 s".into()),
        Ok(Err(e)) => Ok(Err(format!("{:?}", e))),
        Ok(Ok(r)) => { let s = r.status().as_u16(); let b = hyper::body::to_bytes(r.into_body()).await.map_err(|e| format!("{:?}", e))?; Ok(Ok((s, String::from_utf8(b.to_vec()).map_err(|e| e.to_string())?))) }
    }
}
fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => close(x.as_f64().unwrap(), y.as_f64().unwrap(), 1e-6),
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same(p, q)),
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, p)| y.get(k).map_or(false, |q| same(p, q))),
        _ => a == b,
    }
}
fn right(w: &Want, got: &Result<(u16, String), String>) -> R {
    match (w, got) {
        (Want::Any, _) | (Want::Served, Ok((200, _))) => Ok(()),
        (Want::Served, g) => Err(format!("the main tracker no longer answers: {:?}", g)),
        (Want::Json(v), Ok((200, s))) => { let g: Value = serde_json::from_str(s).map_err(|e| format!("{}: {}", e, s))?; ensure!(same(v, &g), "answered {} instead of {}", g, v); Ok(()) }
        (Want::Json(v), g) => Err(format!("answered {:?} instead of {}", g, v)),
        (Want::NotFound, Ok((404, _))) => Ok(()),
        (Want::NotFound, g) => Err(format!("answered {:?} where nothing is served", g)),
        (Want::Err, Err(_)) => Ok(()),
        (Want::Err, Ok((s, b))) => { ensure!(*s >= 400, "a malformed request was answered with {} {}", s, b); Ok(()) }
    }
}
struct Model { r: CoverTreeReader<Cloud>, trackers: HashMap<(Option<String>, usize), Tr>, named: Vec<String>, odd: bool }
fn num(x: f64) -> Value { if x.is_finite() { json!(x) } else { Value::Null } }
impl Model {
    fn named(&self, v: Vec<(f32, usize)>) -> Vec<Value> { v.iter().map(|(d, i)| json!({"name": self.r.parameters().point_cloud.name(*i).unwrap(), "distance": num(*d as f64)})).collect() }
    fn knn(&self, q: &Vec<f32>, k: usize) -> Want { match self.r.knn(q, k) { Ok(v) => Want::Json(json!({"knn": self.named(v)})), Err(_) => Want::Err } }
    fn routing(&self, q: &Vec<f32>, k: usize) -> Want { match self.r.routing_knn(q, k) { Ok(v) => Want::Json(json!({"routing_knn": self.named(v)})), Err(_) => Want::Err } }
    fn path(&self, q: &Vec<f32>) -> Want {
        match self.r.path(q) {
            Ok(v) => Want::Json(json!({"path": v.iter().map(|(d, a)| json!({"name": self.r.parameters().point_cloud.name(a.1).unwrap(), "layer": a.0, "distance": num(*d as f64),
                "label_summary": self.r.get_node_label_summary(*a).map(|s| serde_json::to_value(&*s).unwrap())})).collect::<Vec<_>>()})),
            Err(_) => Want::Err,
        }
    }
    fn params(&self) -> Want {
        let p = self.r.parameters();
        Want::Json(json!({"scale_base": p.scale_base, "leaf_cutoff": p.leaf_cutoff, "min_res_index": p.min_res_index, "use_singletons": p.use_singletons, "partition_type": serde_json::to_value(&p.partition_type).unwrap(), "verbosity": p.verbosity, "rng_seed": p.rng_seed}))
    }
    fn known(&self, name: &Option<String>) -> bool { name.as_ref().map_or(true, |n| self.named.contains(n)) }
    fn unknown(name: &Option<String>, w: Option<usize>) -> Want { Want::Json(json!({"Unknown": [name, w]})) }
    fn add(&mut self, name: Option<String>, w: usize) -> Want {
        if let Some(n) = &name { if !self.named.contains(n) { self.named.push(n.clone()); } }
        let fresh = !self.trackers.contains_key(&(name.clone(), w));
        if fresh { self.trackers.insert((name, w), BayesCategoricalTracker::new(w, self.r.clone())); }
        Want::Json(json!({"AddTracker": {"success": fresh}}))
    }
    fn track(&mut self, name: Option<String>, q: &Vec<f32>) -> Want {
        if !self.known(&name) { return Model::unknown(&name, None); }
        let p = match self.r.path(q) { Ok(p) => p, Err(_) => return Want::Err };
        let mut any = false;
        for ((n, _), t) in self.trackers.iter_mut() { if *n == name { t.add_path(p.clone()); any = true; } }
        Want::Json(json!({"TrackPath": {"success": any}}))
    }
    fn stats(&self, name: Option<String>, w: usize) -> Want {
        if !self.known(&name) { return Model::unknown(&name, None); }
        if self.odd && name.is_none() { return Want::Served; }
        match self.trackers.get(&(name.clone(), w)) {
            None => Model::unknown(&name, Some(w)),
            Some(t) => { let s = t.kl_div_stats(); Want::Json(json!({"CurrentStats": {"kl_div": num(t.kl_div()), "max": num(s.max), "min": num(s.min), "nz_count": s.nz_count, "moment1_nz": num(s.moment1_nz), "moment2_nz": num(s.moment2_nz), "sequence_len": s.sequence_len}})) }
        }
    }
}
const NAMES: [&str; 10] = ["a", "b", "ab", "tracker_2", "web-1", "web-2", "a.b", "a%20c", "a-rather-long-tracker-name-of-some-service-in-some-region-with-a-suffix-0123456789", "a-rather-long-tracker-name-of-some-service-in-some-region-with-a-suffix-9876543210"];
fn tq(rng: &mut SmallRng, conn: usize) -> (Option<String>, Option<String>) {
    // requests in flight together name different trackers, so their order does not matter
    let n = if conn == 0 && rng.gen_range(0..3) == 0 { None } else { Some(NAMES[rng.gen_range(0..5) * 2 + conn].to_string()) };
    (n.clone(), n.map(|n| format!("tracker_name={}", n)))
}
fn join(rng: &mut SmallRng, mut v: Vec<Option<String>>) -> Option<String> {
    if v.len() > 1 && rng.gen() { v.swap(0, 1); }
    let mut v: Vec<String> = v.into_iter().flatten().collect();
    // parameters with other names say nothing
    if rng.gen_range(0..4) == 0 { v.insert(rng.gen_range(0..v.len() + 1), ["rank=3", "x_tracker_name=b", "my_window_size=2", "K=4", "verbose"][rng.gen_range(0..5)].to_string()); }
    if v.is_empty() { None } else { Some(v.join("&")) }
}
/// a request, and what must come back given the state of the model (which it advances)
fn make(rng: &mut SmallRng, m: &mut Model, dim: usize, conn: usize, tracking: bool) -> (Rq, Want) {
    let q: Vec<f32> = if rng.gen() { gen_points(rng, 1, dim) } else { let n = m.r.parameters().point_cloud.len(); let i = rng.gen_range(0..n); m.r.parameters().point_cloud.point(i).unwrap().to_vec() };
    let mut rq = Rq { conn, post: false, path: "/".into(), query: None, body: vec![], chunks: if dim > 100 { [0, 2, 9, 60][rng.gen_range(0..4)] } else { rng.gen_range(0..4) }, ctype: None, cut: false };
    let body = |rq: &mut Rq, rng: &mut SmallRng| { rq.body = pack(&q); match rng.gen_range(0..8) { 0 => { rq.body = zlib(&rq.body); rq.ctype = Some(b"gzip".to_vec()); } 1 => { rq.body = deflate(&rq.body); rq.ctype = Some(b"zlib".to_vec()); } _ => {} } };
    if tracking {
        let (name, nq) = tq(rng, conn);
        let w = if rng.gen_range(0..12) == 0 { [17usize, 300, 5000][rng.gen_range(0..3)] } else { rng.gen_range(0..4usize) };
        match rng.gen_range(0..6) {
            0 | 1 => { rq.post = true; rq.path = "/track/add".into(); rq.query = join(rng, vec![Some(format!("window_size={}", w)), nq]); let want = m.add(name, w); return (rq, want); }
            2 | 3 => { rq.post = true; rq.path = "/track/point".into(); rq.query = join(rng, vec![nq]); body(&mut rq, rng); let want = m.track(name, &q); return (rq, want); }
            _ => { rq.path = "/track/stats".into(); rq.query = join(rng, vec![Some(format!("window_size={}", w)), nq]); let want = m.stats(name, w); return (rq, want); }
        }
    }
    let k = if rng.gen_range(0..10) == 0 { [25usize, 70, 1000, 1001, 100_000, 5_000_000_000][rng.gen_range(0..6)] } else { rng.gen_range(0..15usize) };
    let kq = |rng: &mut SmallRng| if rng.gen_range(0..4) == 0 { (10, None) } else { (k, Some(format!("k={}", k))) };
    match rng.gen_range(0..13) {
        0 => (rq, m.params()),
        1 | 2 | 3 => { rq.path = "/knn".into(); let (k, s) = kq(rng); rq.query = join(rng, vec![s]); body(&mut rq, rng); let w = m.knn(&q, k); (rq, w) }
        4 | 5 => { rq.path = "/routing_knn".into(); let (k, s) = kq(rng); rq.query = join(rng, vec![s]); body(&mut rq, rng); let w = m.routing(&q, k); (rq, w) }
        6 | 7 => { rq.path = "/path".into(); body(&mut rq, rng); let w = m.path(&q); (rq, w) }
        8 => { // nothing is served there
            let (post, p) = [(true, "/"), (true, "/knn"), (true, "/routing_knn"), (true, "/path"), (false, "/track/add"), (false, "/track/point"), (true, "/track/stats"), (false, "/knn/"), (false, "/nothing"), (false, "/track")][rng.gen_range(0..10)];
            rq.post = post; rq.path = p.into(); body(&mut rq, rng); (rq, Want::NotFound)
        }
        9 => { rq.path = ["/knn", "/routing_knn", "/path"][rng.gen_range(0..3)].into(); // a body that is no point
            match rng.gen_range(0..6) { 5 => { rq.body = pack(&q); rq.cut = true; } 0 => rq.body = vec![], 1 => rq.body = vec![0xc1, 1, 2], 2 => { rq.body = pack(&q); rq.body.pop(); } 3 => { body(&mut rq, rng); rq.ctype = Some(b"text/plain".to_vec()); } _ => { rq.body = pack(&q); rq.ctype = Some(b"gzip".to_vec()); } }
            (rq, Want::Err) }
        10 => { rq.path = ["/knn", "/routing_knn"][rng.gen_range(0..2)].into(); rq.query = Some(format!("k={}", "99999999999999999999999")); body(&mut rq, rng); (rq, Want::Err) }
        11 => { rq.post = rng.gen(); rq.path = if rq.post { "/track/add".into() } else { "/track/stats".into() }; rq.query = [None, Some("window_size=".to_string()), Some("window_size=99999999999999999999999".to_string()), Some("tracker_name=zz".to_string())][rng.gen_range(0..4)].clone(); (rq, Want::Err) }
        _ => { // a point of another dimension, a body type that is not text, values that are no numbers: any answer, but an answer
            let (post, p) = [(false, "/knn"), (false, "/routing_knn"), (false, "/path"), (true, "/track/point")][rng.gen_range(0..4)];
            rq.post = post; rq.path = p.into();
            match rng.gen_range(0..3) { 0 => { rq.body = pack(&q[..dim - 1]); m.odd = m.odd || rq.post; } 1 => { rq.body = pack(&q); rq.ctype = Some(vec![0xff, 0xfe]); } _ => { let mut q = q.clone(); q[0] = f32::NAN; rq.body = pack(&q); if rq.post { rq.path = "/knn".into(); rq.post = false; } } }
            (rq, Want::Any) }
    }
}

pub fn p20(x: &mut Ctx) {
    x.rule = "random sequences of well-formed and malformed requests on two connections of one server, two in flight at a time, answers compared with the library's own; non-trivial = a tracker was used or a malformed request was sent".into();
    let mut rng = x.rng(20);
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    for t in 0..x.n(4000) {
        if x.done() { return; }
        let (n, dim) = if t % 60 == 31 { (rng.gen_range(2..6), [300, 2000, 15000][rng.gen_range(0..3)]) } else { (rng.gen_range(2..30), rng.gen_range(2..4)) };
        let data = gen_points(&mut rng, n, dim);
        let labels: Vec<i64> = (0..n).map(|_| rng.gen_range(0..4)).collect();
        let (cut, seed, sing) = (rng.gen_range(0..4), rng.gen_range(0..99), rng.gen());
        let steps = rng.gen_range(1..14);
        let mut r2 = x.rng(2000 + t as u64);
        x.case(json!({"case": t, "seed": x.seed, "points": n, "dim": dim, "batches": steps}), true, || rt.block_on(async {
            let mut b = CoverTreeBuilder::new();
            b.set_scale_base(2.0).set_leaf_cutoff(cut).set_min_res_index(-8).set_use_singletons(sing).set_verbosity(0).set_rng_seed(seed);
            let mut w = b.build(Arc::new(Cloud::new_simple(data.clone(), dim, labels.clone()))).unwrap();
            w.add_plugin::<GokoDirichlet>(GokoDirichlet::default());
            w.generate_summaries();
            let mut m = Model { r: w.reader(), trackers: HashMap::new(), named: vec![], odd: false };
            let core = Arc::new(CoreWriter::new(w));
            let mut maker: MakeGokoHttp<Cloud, MsgPackDense> = MakeGokoHttp::new(core);
            let mut conns: Vec<Conn> = vec![];
            for _ in 0..2 { conns.push(maker.call(()).await.unwrap()); }
            let mut sent: Vec<Rq> = vec![];
            for _ in 0..steps {
                let (ta, tb, flip) = (r2.gen_range(0..3) > 0, r2.gen_range(0..3) > 0, r2.gen_range(0..2));
                let (mut a, wa) = make(&mut r2, &mut m, dim, 0, ta);
                let (mut b, wb) = make(&mut r2, &mut m, dim, 1, tb);
                a.conn = flip; b.conn = 1 - flip;
                let (fa, fb) = (conns[a.conn].call(request(&a)), conns[b.conn].call(request(&b)));
                sent.push(a.clone()); sent.push(b.clone());
                let (ga, gb) = futures_util::future::join(answer(fa), answer(fb)).await;
                for (r, w, g) in vec![(a, wa, ga), (b, wb, gb)] {
                    right(&w, &g.map_err(|e| format!("{}: {:?}", e, r))?).map_err(|e| format!("{} {}{}: {} (after {:?})", if r.post { "POST" } else { "GET" }, r.path, r.query.map(|q| format!("?{}", q)).unwrap_or_default(), e, sent.iter().map(|s| format!("{}:{}?{:?}", s.conn, s.path, s.query)).collect::<Vec<_>>()))?;
                }
            }
            Ok(())
        }));
    }
}

