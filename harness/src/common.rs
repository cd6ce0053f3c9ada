//! Case generation, bookkeeping and reporting shared by the replay drivers.
use rand::rngs::SmallRng;
use rand::{Rng, SeedableRng};
use serde_json::{json, Value};
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub type R = Result<(), String>;

pub struct Ctx {
    pub thorough: bool,
    pub seed: u64,
    pub out: String,
    pub rule: String,
    pub evaluations: usize,
    pub distinct: HashSet<u64>,
    pub samples: Vec<Value>,
    pub failure: Option<Value>,
    pub known: Vec<String>,
    start: Instant,
    budget: Duration,
    current: Arc<Mutex<(Instant, String)>>,
}

impl Ctx {
    pub fn new(thorough: bool, seed: u64, out: &str) -> Ctx {
        let current = Arc::new(Mutex::new((Instant::now(), "start".to_string())));
        let c2 = current.clone();
        let o2 = out.to_string();
        // a case that does not come back is a failure of the code under test, not a silent timeout
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let (t, what) = { let g = c2.lock().unwrap(); (g.0, g.1.clone()) };
            if t.elapsed() > Duration::from_secs(150) {
                let j = json!({"evaluations": 1, "distinct": 1, "rule": "watchdog", "samples": [], "known_hits": [],
                    "failure": {"what": "the call did not return within 150 s", "input": what}});
                std::fs::write(&o2, j.to_string()).unwrap();
                std::process::exit(0);
            }
        });
        Ctx { thorough, seed, out: out.to_string(), rule: String::new(), evaluations: 0, distinct: HashSet::new(), samples: vec![], failure: None, known: vec![],
            start: Instant::now(), budget: Duration::from_secs(if thorough { 1500 } else { 60 }), current }
    }
    pub fn n(&self, quick: usize) -> usize { if self.thorough { quick * 25 } else { quick } }
    pub fn rng(&self, k: u64) -> SmallRng { SmallRng::seed_from_u64(self.seed.wrapping_mul(0x9E3779B97F4A7C15) ^ k.wrapping_mul(0xD1B54A32D192ED03)) }
    pub fn done(&self) -> bool { self.failure.is_some() || self.start.elapsed() > self.budget }
    /// Runs one case. `desc` is the literal input, enough to repeat the case.
    pub fn case<F: FnOnce() -> R>(&mut self, desc: Value, nontrivial: bool, f: F) {
        if self.failure.is_some() { return; }
        self.evaluations += 1;
        let s = desc.to_string();
        *self.current.lock().unwrap() = (Instant::now(), s.clone());
        if nontrivial {
            let mut h = DefaultHasher::new();
            s.hash(&mut h);
            self.distinct.insert(h.finish());
        }
        if self.samples.len() < 2 { self.samples.push(serde_json::from_str(&s).unwrap()); }
        let r = catch_unwind(AssertUnwindSafe(f));
        let what = match r {
            Ok(Ok(())) => return,
            Ok(Err(e)) => e,
            Err(p) => format!("panic: {}", p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()),
        };
        self.failure = Some(json!({"what": what, "input": serde_json::from_str::<Value>(&s).unwrap()}));
    }
    /// A listed defect: run its specific input; a failure of it is recorded under `key`, never as a violation.
    #[allow(dead_code)]
    pub fn known_case<F: FnOnce() -> R>(&mut self, key: &str, f: F) {
        self.evaluations += 1;
        match catch_unwind(AssertUnwindSafe(f)) { Ok(Ok(())) => {}, _ => self.known.push(key.to_string()) }
    }
    pub fn finish(self) {
        let j = json!({"evaluations": self.evaluations, "distinct": self.distinct.len(), "rule": self.rule, "samples": self.samples,
            "failure": self.failure, "known_hits": self.known});
        std::fs::write(&self.out, j.to_string()).unwrap();
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } };
}

pub fn close(a: f64, b: f64, rel: f64) -> bool {
    if a == b { return true; }
    if a.is_nan() || b.is_nan() { return false; }
    (a - b).abs() <= rel * (1.0 + a.abs().max(b.abs()))
}

/// f32 values that survive a JSON round trip in the replay file
pub fn fs(v: &[f32]) -> Value { json!(v.iter().map(|x| *x as f64).collect::<Vec<f64>>()) }

/// A point set with the shapes that matter for a cover tree: ties, duplicates, clusters, outliers, several magnitudes.
pub fn gen_points(rng: &mut SmallRng, n: usize, dim: usize) -> Vec<f32> {
    let kind = rng.gen_range(0..7);
    let mag = [0.01f32, 1.0, 1.0, 1.0, 50.0, 1000.0][rng.gen_range(0..6)];
    let mut v = Vec::with_capacity(n * dim);
    for i in 0..n {
        for _ in 0..dim {
            let x: f32 = match kind {
                0 => rng.gen::<f32>() - 0.5,
                1 => rng.gen_range(-3i32..4) as f32 / 4.0,
                2 => (i % 4) as f32 + 0.01 * rng.gen::<f32>(),
                3 => if i % 7 == 0 { 5.0 * rng.gen::<f32>() } else { 0.05 * rng.gen::<f32>() },
                4 => i as f32 * 0.125,
                5 => (2.0f32).powi(-((i % 9) as i32)) + if rng.gen() { 0.0 } else { 0.001 * rng.gen::<f32>() },
                _ => if i == 0 { 1.0 } else if i % 2 == 0 { 0.25 } else { rng.gen::<f32>() },
            };
            v.push(x * mag);
        }
    }
    v
}
