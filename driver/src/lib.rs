//! Concrete cross-check harness: every test is a function of a vector of 64-bit words, so a failing case can be
//! written down and replayed.  Request on stdin (JSON), answer on stdout (JSON).
use serde_json::{json, Value};
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub mod curve;
pub mod glh;
pub const P: u64 = 0xFFFF_FFFF_0000_0001;

pub struct G {
    s: u64,
    /// index of the case for this test: generators enumerate small cases first
    pub i: u64,
    pub dict: Vec<u64>,
}
impl G {
    pub fn next(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    /// any 64-bit word: boundary values, mined literals and their neighbours, random of every bit length
    pub fn word(&mut self) -> u64 {
        const B: [u64; 24] = [
            0, 1, 2, 3, 4, 5, 7, 8, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFF, 0x1_0000_0000, 0x1_0000_0001,
            0x7FFF_FFFF_FFFF_FFFF, 0x8000_0000_0000_0000, 0xFFFF_FFFF_0000_0000, P, P - 1, P - 2, P + 1,
            0xFFFF_FFFF_FFFF_FFFF, 0xFFFF_FFFF_FFFF_FFFE, 0x7FFF_FFFF_8000_0000, 0x7FFF_FFFF_8000_0001,
        ];
        match self.below(10) {
            0..=2 => B[self.below(24) as usize],
            3..=4 if !self.dict.is_empty() => {
                let k = self.below(self.dict.len() as u64) as usize;
                let d = self.dict[k];
                match self.below(6) {
                    0 => d.wrapping_add(1),
                    1 => d.wrapping_sub(1),
                    2 => P.wrapping_sub(d),
                    _ => d,
                }
            }
            5 => {
                let n = self.below(64);
                let x = self.next();
                x >> n
            }
            6 => {
                let a = B[self.below(24) as usize];
                a.wrapping_add(self.below(17)).wrapping_sub(8)
            }
            7 => 1u64 << self.below(64),
            _ => self.next(),
        }
    }
    /// a canonical field element
    pub fn fe(&mut self) -> u64 {
        let w = self.word();
        if w >= P { w - P } else { w }
    }
    pub fn words(&mut self, n: usize) -> Vec<u64> {
        (0..n).map(|_| self.word()).collect()
    }
    pub fn fes(&mut self, n: usize) -> Vec<u64> {
        (0..n).map(|_| self.fe()).collect()
    }
}

pub struct T {
    pub prop: &'static str,
    pub name: &'static str,
    /// cases run whatever the time budget
    pub min: u64,
    /// upper bound of cases in the time budget (0: as many as fit)
    pub max: u64,
    pub gen: fn(&mut G) -> Vec<u64>,
    pub check: fn(&[u64]) -> Result<(), String>,
}

static TICK: AtomicU64 = AtomicU64::new(0);
static DONE: AtomicBool = AtomicBool::new(false);
static CUR: Mutex<Option<(String, Vec<u64>)>> = Mutex::new(None);

fn tojson(n: &str, v: &[u64], why: &str) -> Value {
    json!({"test": n, "words": v.iter().map(|x| x.to_string()).collect::<Vec<_>>(), "why": why})
}

pub fn run(t: &T, v: &[u64]) -> Result<(), String> {
    match catch_unwind(AssertUnwindSafe(|| (t.check)(v))) {
        Ok(r) => r,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Err(format!("panicked: {m}"))
        }
    }
}

fn emit(evals: u64, distinct: u64, viol: Vec<Value>, samples: Vec<Value>, per: Value) {
    let o = json!({"evaluations": evals, "distinct": distinct, "violations": viol, "samples": samples, "tests": per});
    println!("RESULT {}", o);
    std::io::stdout().flush().unwrap();
}

pub fn main_with(tests: Vec<T>) {
    std::panic::set_hook(Box::new(|_| {}));
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let req: Value = serde_json::from_str(&s).unwrap_or(json!({}));
    let prop = req["prop"].as_str().unwrap_or("").to_string();
    let seed = req["seed"].as_u64().unwrap_or(1);
    let secs = req["secs"].as_f64().unwrap_or(5.0);
    let scale = req["scale"].as_f64().unwrap_or(1.0);
    let only: Option<Vec<String>> = req["only"].as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(String::from)).collect());
    let limit = req["case_limit"].as_u64().unwrap_or(60);
    let journal = req["journal"].as_str().map(String::from);
    let dict: Vec<u64> = req["dict"].as_array().map(|a| a.iter().filter_map(|x| x.as_str().and_then(|s| s.parse().ok())).collect()).unwrap_or_default();
    // watchdog
    std::thread::spawn(move || {
        let mut last = (0u64, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(250));
            if DONE.load(Ordering::SeqCst) { return; }
            let t = TICK.load(Ordering::SeqCst);
            if t != last.0 { last = (t, Instant::now()); continue; }
            if last.1.elapsed().as_secs() >= limit {
                let c = CUR.lock().unwrap().clone();
                if let Some((n, v)) = c {
                    emit(t, t, vec![tojson(&n, &v, &format!("no answer within {limit} s"))], vec![], json!({}));
                }
                std::process::exit(0);
            }
        }
    });
    let mut viol: Vec<Value> = vec![];
    let mut samples: Vec<Value> = vec![];
    let mut seen: HashSet<u64> = HashSet::new();
    let mut evals = 0u64;
    let mut per = serde_json::Map::new();
    let mut jf = journal.map(|p| std::fs::File::create(p).unwrap());
    let mut go = |t: &T, v: &[u64], viol: &mut Vec<Value>| -> bool {
        TICK.fetch_add(1, Ordering::SeqCst);
        *CUR.lock().unwrap() = Some((t.name.to_string(), v.to_vec()));
        if let Some(f) = jf.as_mut() {
            use std::io::Seek;
            f.set_len(0).unwrap();
            f.seek(std::io::SeekFrom::Start(0)).unwrap();
            f.write_all(tojson(t.name, v, "crash").to_string().as_bytes()).unwrap();
        }
        match run(t, v) {
            Ok(()) => true,
            Err(e) => {
                viol.push(tojson(t.name, v, &e));
                false
            }
        }
    };
    // given cases first
    if let Some(cs) = req["cases"].as_array() {
        for c in cs {
            let n = c["test"].as_str().unwrap_or("");
            let w: Vec<u64> = c["words"].as_array().map(|a| a.iter().filter_map(|x| x.as_str().and_then(|s| s.parse().ok())).collect()).unwrap_or_default();
            for t in tests.iter().filter(|t| t.name == n) {
                evals += 1;
                go(t, &w, &mut viol);
            }
        }
    }
    let sel: Vec<&T> = tests.iter().filter(|t| t.prop == prop && only.as_ref().map_or(true, |o| o.iter().any(|x| x == t.name))).collect();
    if req["cases_only"].as_bool() != Some(true) && !sel.is_empty() {
        let start = Instant::now();
        let mut gs: Vec<G> = sel.iter().enumerate().map(|(k, _)| G { s: seed.wrapping_mul(1000003).wrapping_add(k as u64 * 7919), i: 0, dict: dict.clone() }).collect();
        let mut bad: HashSet<&str> = HashSet::new();
        let mut round = 0;
        loop {
            let over = start.elapsed().as_secs_f64() > secs;
            let mut any = false;
            for (k, t) in sel.iter().enumerate() {
                if bad.contains(t.name) { continue; }
                let batch = if round == 0 { (t.min as f64 * scale) as u64 } else if over { 0 } else { t.min.max(1) };
                let g = &mut gs[k];
                for _ in 0..batch {
                    if t.max != 0 && g.i >= (t.max as f64 * scale) as u64 { break; }
                    if round > 0 && start.elapsed().as_secs_f64() > secs { break; }
                    any = true;
                    let v = (t.gen)(g);
                    g.i += 1;
                    evals += 1;
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    (t.name, &v).hash(&mut h);
                    if seen.len() < 4_000_000 { seen.insert(h.finish()); }
                    if g.i == 7 && samples.len() < 40 { samples.push(tojson(t.name, &v[..v.len().min(24)], "")); }
                    if !go(t, &v, &mut viol) {
                        bad.insert(t.name);
                        break;
                    }
                }
            }
            round += 1;
            if !any { break; }
        }
        for (k, t) in sel.iter().enumerate() { per.insert(t.name.into(), json!(gs[k].i)); }
    }
    DONE.store(true, Ordering::SeqCst);
    emit(evals, seen.len() as u64, viol, samples, Value::Object(per));
}

#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($m:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return Err(format!("{}: got {:?}, expected {:?}", format!($($m)*), a, b)); }
    }};
}
