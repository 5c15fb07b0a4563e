//! Executable versions of the contracts, run against the real crate in /repo.
//! usage: harness PROPERTY --seed S --tier quick|thorough --secs N --out FILE [--case NAME:K]
mod gen;
mod p_ga;
mod p_ls;
mod p_model;
mod props;

use std::cell::RefCell;
use std::panic;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

thread_local! { pub static NOTE: RefCell<String> = RefCell::new(String::new()); }
pub static PROGRESS: AtomicU64 = AtomicU64::new(0);
pub static SHARED: Mutex<String> = Mutex::new(String::new());


/// Record the input that is about to be run (kept for the replay file).
pub fn note(s: String) {
    PROGRESS.fetch_add(1, Ordering::Relaxed);
    *SHARED.lock().unwrap() = s;
}

#[macro_export]
macro_rules! check {
    ($c:expr, $($arg:tt)*) => { if !($c) { return Err(format!($($arg)*)); } };
}

pub struct Stats {
    pub evals: u64,
    pub nontrivial: u64,
    pub samples: Vec<String>,
    pub thorough: bool,
}
impl Stats {
    pub fn hit(&mut self) {
        self.nontrivial += 1;
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 6 {
            let mut t = s();
            t.truncate(400);
            self.samples.push(t);
        }
    }
}

pub type Out = Result<(), String>;
pub type CaseFn = fn(&mut gen::Rng, &mut Stats) -> Out;
pub struct Case {
    pub name: &'static str,
    pub weight: u32,
    pub f: CaseFn,
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|p| args.get(p + 1)).cloned();
    let prop = args.get(1).cloned().unwrap_or_default();
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = get("--tier").unwrap_or("quick".into());
    let secs: f64 = get("--secs").and_then(|s| s.parse().ok()).unwrap_or(20.0);
    let out = get("--out").unwrap_or("/dev/stdout".into());
    let only = get("--case");
    let cases = props::cases(&prop);
    if cases.is_empty() {
        std::fs::write(&out, format!("{{\"evaluations\":0,\"cases\":[],\"property\":\"{}\"}}", prop)).unwrap();
        return;
    }
    panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        NOTE.with(|n| *n.borrow_mut() = format!("panic at {}: {}", loc, m));
    }));
    let started = Instant::now();
    let stats = Arc::new(Mutex::new((Vec::<(String, u64, u64)>::new(), Vec::<String>::new())));
    let current = Arc::new(Mutex::new((String::new(), 0u64)));
    let result: Arc<Mutex<Option<(String, u64, String, String)>>> = Arc::new(Mutex::new(None));
    let finished = Arc::new(AtomicU64::new(0));
    let (st2, cur2, res2, fin2) = (stats.clone(), current.clone(), result.clone(), finished.clone());
    let only2 = only.clone();
    let tier2 = tier.clone();
    let worker = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            let total: u32 = cases.iter().map(|c| c.weight).sum();
            let mut acc = 0u32;
            'cases: for c in &cases {
                acc += c.weight;
                let mut s = Stats { evals: 0, nontrivial: 0, samples: vec![], thorough: tier2 == "thorough" };
                let limit = Duration::from_secs_f64(secs * acc as f64 / total as f64);
                let (mut k, kmax) = match &only2 {
                    Some(o) => {
                        let (n, kk) = o.split_once(':').unwrap();
                        if n != c.name {
                            continue;
                        }
                        let kk: u64 = kk.parse().unwrap();
                        (kk, kk + 1)
                    }
                    None => (0, u64::MAX),
                };
                while k < kmax && (started.elapsed() < limit || s.evals < 5) {
                    *cur2.lock().unwrap() = (c.name.to_string(), k);
                    PROGRESS.fetch_add(1, Ordering::Relaxed);
                    let mut rng = gen::Rng::new(seed ^ (k.wrapping_mul(0x9E3779B97F4A7C15)) ^ hash(c.name));
                    rng.k = k;
                    note(String::new());
                    let r = panic::catch_unwind(panic::AssertUnwindSafe(|| (c.f)(&mut rng, &mut s)));
                    s.evals += 1;
                    let bad = match r {
                        Ok(Ok(())) => None,
                        Ok(Err(m)) => Some(m),
                        Err(_) => Some(NOTE.with(|n| n.borrow().clone())),
                    };
                    if let Some(m) = bad {
                        *res2.lock().unwrap() = Some((c.name.to_string(), k, m, SHARED.lock().unwrap().clone()));
                        let mut g = st2.lock().unwrap();
                        g.0.push((c.name.to_string(), s.evals, s.nontrivial));
                        g.1.extend(s.samples);
                        break 'cases;
                    }
                    k += 1;
                }
                let mut g = st2.lock().unwrap();
                g.0.push((c.name.to_string(), s.evals, s.nontrivial));
                g.1.extend(s.samples);
            }
            fin2.store(1, Ordering::SeqCst);
        })
        .unwrap();
    // watchdog: a single step that makes no progress for a long time is a hang
    let hang_secs: f64 = get("--hang").and_then(|s| s.parse().ok()).unwrap_or(75.0);
    let mut last = (PROGRESS.load(Ordering::Relaxed), Instant::now());
    let mut hung = false;
    while finished.load(Ordering::SeqCst) == 0 && !worker.is_finished() {
        std::thread::sleep(Duration::from_millis(20));
        let p = PROGRESS.load(Ordering::Relaxed);
        if p != last.0 {
            last = (p, Instant::now());
        } else if last.1.elapsed().as_secs_f64() > hang_secs {
            hung = true;
            let (n, k) = current.lock().unwrap().clone();
            *result.lock().unwrap() = Some((n, k, format!("no termination within {} s", hang_secs), SHARED.lock().unwrap().clone()));
            break;
        }
    }
    let g = stats.lock().unwrap();
    let mut js = String::from("{");
    js.push_str(&format!("\"property\":\"{}\",\"seed\":{},\"tier\":\"{}\",\"wall\":{:.2},", prop, seed, tier, started.elapsed().as_secs_f64()));
    js.push_str(&format!("\"evaluations\":{},\"nontrivial\":{},", g.0.iter().map(|x| x.1).sum::<u64>(), g.0.iter().map(|x| x.2).sum::<u64>()));
    js.push_str("\"cases\":[");
    js.push_str(&g.0.iter().map(|(n, e, t)| format!("{{\"name\":\"{}\",\"evaluations\":{},\"nontrivial\":{}}}", n, e, t)).collect::<Vec<_>>().join(","));
    js.push_str("],\"samples\":[");
    js.push_str(&g.1.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(","));
    js.push(']');
    let r = result.lock().unwrap();
    if let Some((n, k, m, input)) = r.as_ref() {
        js.push_str(&format!(",\"violation\":{{\"case\":\"{}\",\"k\":{},\"message\":\"{}\",\"input\":\"{}\"}}", n, k, esc(m), esc(input)));
    }
    js.push('}');
    std::fs::write(&out, js).unwrap();
    let code = if r.is_some() { 1 } else { 0 };
    let _ = hung;
    std::process::exit(code);
}

fn hash(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}
