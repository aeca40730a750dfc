//! Concrete search and replay: every case is (property, sub-check, number, seed), runs the real crates of /repo and compares
//! them with an oracle written against the property statement.
mod am;
mod rng;
mod props;

use rng::Rng;
use std::collections::BTreeSet;
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// A failed case.
#[derive(Clone, Debug)]
pub struct Fail {
    /// identifies a listed finding; "" for anything else
    pub key: String,
    pub input: String,
    pub expected: String,
    pub observed: String,
}
/// Ok(tag): the case ran, `tag` describes what kind of case it was ("" = trivial).
pub type Res = Result<String, Fail>;
pub fn fail<A: ToString, B: ToString, C: ToString>(input: A, expected: B, observed: C) -> Res {
    Err(Fail { key: String::new(), input: input.to_string(), expected: expected.to_string(), observed: observed.to_string() })
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $input:expr, $expected:expr, $observed:expr) => {
        if !$c {
            return $crate::fail($input, $expected, $observed);
        }
    };
}
pub struct Sub {
    pub name: &'static str,
    /// how many cases (quick, thorough)
    pub cases: (u64, u64),
    pub what: &'static str,
    pub run: fn(u64, &mut Rng) -> Res,
}

fn hash(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x1000_0000_01b3);
    }
    h
}
fn js(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}
fn run_case(prop: &str, sub: &Sub, case: u64, seed: u64) -> Res {
    let mut r = Rng::new(seed ^ hash(prop).wrapping_mul(31) ^ hash(sub.name) ^ case.wrapping_mul(0x9E37_79B9));
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (sub.run)(case, &mut r))) {
        Ok(x) => x,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Err(Fail {
                key: String::new(),
                input: format!("case {} of {} (seed {})", case, sub.name, seed),
                expected: "no panic".to_string(),
                observed: format!("panic: {} {}", m, LAST.lock().map(|l| l.clone()).unwrap_or_default()),
            })
        }
    }
}
static LAST: Mutex<String> = Mutex::new(String::new());

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| {
        if let Ok(mut l) = LAST.lock() {
            *l = i.location().map(|l| format!("at {}", l)).unwrap_or_default();
        }
    }));
    match a.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let (prop, tier, seed, out) = (a[2].clone(), a[3].clone(), a[4].parse::<u64>().unwrap(), a[5].clone());
            std::process::exit(run(&prop, &tier, seed, &out))
        }
        Some("replay") => {
            let (prop, sub, case, seed) = (&a[2], &a[3], a[4].parse::<u64>().unwrap(), a[5].parse::<u64>().unwrap());
            for s in props::subs(prop) {
                if s.name == sub {
                    match run_case(prop, &s, case, seed) {
                        Ok(t) => {
                            println!("holds: {}", t);
                            std::process::exit(0)
                        }
                        Err(f) => {
                            println!("{}/{} case {}\ninput:    {}\nexpected: {}\nobserved: {}", prop, sub, case, f.input, f.expected, f.observed);
                            std::process::exit(1)
                        }
                    }
                }
            }
            eprintln!("no such sub-check");
            std::process::exit(2)
        }
        _ => {
            eprintln!("usage: vharness run PROP TIER SEED OUT | replay PROP SUB CASE SEED");
            std::process::exit(2)
        }
    }
}

struct Shared {
    fails: Vec<(usize, u64, Fail)>,
    tags: BTreeSet<String>,
    samples: Vec<String>,
    evals: Vec<u64>,
}

fn run(prop: &str, tier: &str, seed: u64, out: &str) -> i32 {
    let subs = Arc::new(props::subs(prop));
    if subs.is_empty() {
        eprintln!("no such property");
        return 2;
    }
    let thorough = tier == "thorough";
    let budget = Duration::from_secs(if thorough { 420 } else { 120 });
    let start = Instant::now();
    let sh = Arc::new(Mutex::new(Shared { fails: vec![], tags: BTreeSet::new(), samples: vec![], evals: vec![0; subs.len()] }));
    let nthreads = 8usize;
    // the case each thread is running: (sub + 1) << 40 | case, and when it began
    let cur: Arc<Vec<(AtomicU64, AtomicU64)>> = Arc::new((0..nthreads).map(|_| (AtomicU64::new(0), AtomicU64::new(0))).collect());
    let mut hs = vec![];
    let next: Arc<Vec<AtomicU64>> = Arc::new(subs.iter().map(|_| AtomicU64::new(0)).collect());
    for t in 0..nthreads {
        let (subs, sh, cur, next, prop) = (subs.clone(), sh.clone(), cur.clone(), next.clone(), prop.to_string());
        hs.push(
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || {
                    for (si, s) in subs.iter().enumerate() {
                        let n = if thorough { s.cases.1 } else { s.cases.0 };
                        let mut failed = 0;
                        loop {
                            let case = next[si].fetch_add(1, Ordering::SeqCst);
                            if case >= n || failed >= 3 || start.elapsed() > budget {
                                break;
                            }
                            cur[t].1.store(start.elapsed().as_millis() as u64, Ordering::SeqCst);
                            cur[t].0.store(((si as u64 + 1) << 40) | case, Ordering::SeqCst);
                            let r = run_case(&prop, s, case, seed);
                            cur[t].0.store(0, Ordering::SeqCst);
                            let mut g = sh.lock().unwrap_or_else(|e| e.into_inner());
                            g.evals[si] += 1;
                            match r {
                                Ok(tag) => {
                                    if !tag.is_empty() {
                                        if g.samples.len() < 12 && !g.tags.contains(&tag) {
                                            let x = format!("{}: {}", s.name, tag.chars().take(200).collect::<String>());
                                            g.samples.push(x);
                                        }
                                        if g.tags.len() < 2_000_000 {
                                            g.tags.insert(format!("{}:{:x}", si, hash(&tag)));
                                        }
                                    }
                                }
                                Err(f) => {
                                    if f.key.is_empty() {
                                        failed += 1;
                                    }
                                    if g.fails.len() < 200 {
                                        g.fails.push((si, case, f));
                                    }
                                }
                            }
                        }
                    }
                })
                .unwrap(),
        );
    }
    let mut hang = None;
    while hs.iter().any(|h| !h.is_finished()) {
        std::thread::sleep(Duration::from_millis(20));
        for c in cur.iter() {
            let (v, t) = (c.0.load(Ordering::SeqCst), c.1.load(Ordering::SeqCst));
            if v != 0 && start.elapsed().as_millis() as u64 > t + 60_000 && c.0.load(Ordering::SeqCst) == v {
                hang = Some(((v >> 40) as usize - 1, v & ((1 << 40) - 1)));
            }
        }
        if hang.is_some() {
            break;
        }
    }
    let mut g = sh.lock().unwrap_or_else(|e| e.into_inner());
    if let Some((si, case)) = hang {
        g.fails.push((si, case, Fail { key: String::new(), input: format!("case {} of {}", case, subs[si].name), expected: "an answer".into(), observed: "no answer within 60 s".into() }));
    }
    g.fails.sort_by_key(|f| (f.0, f.1));
    let mut o = String::from("{\"subs\":[");
    for (i, s) in subs.iter().enumerate() {
        o += &format!("{}{{\"name\":{},\"what\":{},\"cases\":{}}}", if i > 0 { "," } else { "" }, js(s.name), js(s.what), g.evals[i]);
    }
    o += &format!("],\"evaluations\":{},\"distinct\":{},\"samples\":[", g.evals.iter().sum::<u64>(), g.tags.len());
    o += &g.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(",");
    o += "],\"failures\":[";
    o += &g
        .fails
        .iter()
        .map(|(si, case, f)| {
            format!(
                "{{\"sub\":{},\"case\":{},\"seed\":{},\"key\":{},\"input\":{},\"expected\":{},\"observed\":{}}}",
                js(subs[*si].name),
                case,
                seed,
                js(&f.key),
                js(&f.input),
                js(&f.expected),
                js(&f.observed)
            )
        })
        .collect::<Vec<_>>()
        .join(",");
    o += "]}\n";
    std::fs::File::create(out).unwrap().write_all(o.as_bytes()).unwrap();
    std::process::exit(if g.fails.is_empty() { 0 } else { 1 })
}
