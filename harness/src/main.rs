//! Bounded concrete checks of the properties with an independent oracle.
//!
//! `gh run PROP SEED SECS OUT` looks for a failing case; `gh replay PROP CASE
//! SIZE` repeats one case; `gh assumed` tries what the proofs assume of libraries;
//! `gh finite` tries the functions on packed fields for all values.
mod assumed;
mod generate;
mod model;
mod props;
mod rng;

use std::cell::RefCell;
use std::collections::HashSet;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// What one case looked like
#[derive(Default)]
pub struct Case {
    pub text: String,
    pub hash: u64,
    pub trivial: bool,
}

impl Case {
    pub fn add(&mut self, what: &str, bytes: &[u8]) {
        self.text.push_str(what);
        self.text.push('=');
        for b in bytes.iter().take(4000) {
            self.text.push_str(&format!("{b:02x}"));
        }
        if bytes.len() > 4000 {
            self.text.push_str(&format!("...({} bytes)", bytes.len()));
        }
        self.text.push(' ');
        self.mix(what.as_bytes());
        self.mix(bytes);
    }
    pub fn note(&mut self, s: String) {
        self.mix(s.as_bytes());
        self.text.push_str(&s);
        self.text.push(' ');
    }
    fn mix(&mut self, b: &[u8]) {
        for x in b {
            self.hash = (self.hash ^ u64::from(*x)).wrapping_mul(0x0000_0100_0000_01B3).rotate_left(5);
        }
    }
}

pub type R = Result<(), String>;

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub all: Option<fn(&mut u64) -> R>,
    pub case: fn(&mut rng::Rng, usize, &mut Case) -> R,
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn one(p: &Prop, seed: u64, size: usize) -> (Case, R) {
    let mut c = Case::default();
    let r = catch_unwind(AssertUnwindSafe(|| (p.case)(&mut rng::Rng::new(seed), size, &mut c)));
    let r = match r {
        Ok(r) => r,
        Err(_) => Err(format!("panic: {}", PANIC.with(|p| p.borrow().clone()))),
    };
    (c, r)
}

fn all(p: &Prop, n: &mut u64) -> R {
    if let Some(f) = p.all {
        match catch_unwind(AssertUnwindSafe(|| f(n))) {
            Ok(r) => r,
            Err(_) => Err(format!("panic: {}", PANIC.with(|p| p.borrow().clone()))),
        }
    } else {
        Ok(())
    }
}

fn size_of_case(i: u64) -> usize {
    match i {
        0..400 => 0,
        400..1200 => (i % 2) as usize,
        _ => match i % 32 {
            0 => 3,
            1..=4 => 2,
            5..=16 => 1,
            _ => 0,
        },
    }
}

fn case_seed(seed: u64, i: u64) -> u64 {
    rng::Rng::new(seed.wrapping_mul(0x1_0000_01B3) ^ i.wrapping_mul(0x9E37_79B9)).u64()
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        PANIC.with(|p| *p.borrow_mut() = i.to_string());
    }));
    let a: Vec<String> = std::env::args().collect();
    let find = |id: &str| props::PROPS.iter().find(|p| p.id == id).expect("no such property");
    match a[1].as_str() {
        "list" => {
            for p in props::PROPS {
                println!("{}", p.id);
            }
        }
        "replay" => {
            let p = find(&a[2]);
            let seed: u64 = a[3].parse().unwrap();
            let (c, r) = if seed == 0 {
                (Case::default(), all(p, &mut 0))
            } else {
                one(p, seed, a[4].parse().unwrap())
            };
            println!("{}", c.text);
            match r {
                Ok(()) => println!("held"),
                Err(e) => {
                    println!("FAILED: {e}");
                    std::process::exit(1);
                }
            }
        }
        "assumed" => {
            let mut n = 0;
            match assumed::check(&mut n) {
                Ok(()) => println!("{n}"),
                Err(e) => {
                    println!("{e}");
                    std::process::exit(1);
                }
            }
        }
        "finite" => {
            let mut n = 0;
            for p in ["C13", "C14"] {
                if let Err(e) = all(find(p), &mut n) {
                    println!("{e}");
                    std::process::exit(1);
                }
            }
            println!("{n}");
        }
        "run" => run(find(&a[2]), a[3].parse().unwrap(), a[4].parse().unwrap(), &a[5]),
        _ => panic!("usage"),
    }
}

struct Fail {
    seed: u64,
    size: usize,
    what: String,
    text: String,
}

fn report(out: &str, p: &Prop, evals: u64, exhaustive: u64, distinct: usize, samples: &[String], fail: Option<&Fail>) {
    let mut s = format!(
        "{{\"property\":{},\"evaluations\":{evals},\"finite_domain_cases\":{exhaustive},\"distinct_nontrivial\":{distinct},\"rule\":{},\"samples\":[",
        esc(p.id),
        esc(p.rule)
    );
    s.push_str(&samples.iter().map(|x| esc(x)).collect::<Vec<_>>().join(","));
    s.push_str("],\"failure\":");
    match fail {
        None => s.push_str("null"),
        Some(f) => s.push_str(&format!(
            "{{\"case\":\"{}\",\"size\":{},\"what\":{},\"input\":{}}}",
            f.seed,
            f.size,
            esc(&f.what),
            esc(&f.text)
        )),
    }
    s.push('}');
    std::fs::write(out, s).expect("write report");
}

fn run(p: &'static Prop, seed: u64, secs: f64, out: &str) {
    let start = Instant::now();
    let limit = Duration::from_secs_f64(secs);
    let next = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let fails: Arc<Mutex<Vec<Fail>>> = Arc::default();
    let seen: Arc<Mutex<HashSet<u64>>> = Arc::default();
    let samples: Arc<Mutex<Vec<String>>> = Arc::default();
    let evals = Arc::new(AtomicU64::new(0));
    let exhaustive = Arc::new(AtomicU64::new(0));
    let threads: usize = std::env::var("GH_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(4);
    // per thread: (case seed, size, start in ms + 1 or 0)
    let now: Arc<Vec<(AtomicU64, AtomicU64, AtomicU64)>> =
        Arc::new((0..threads + 1).map(|_| (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0))).collect());
    let mut hs = vec![];
    for t in 0..threads {
        let (next, stop, fails, seen, samples, evals, now, exhaustive) = (
            next.clone(),
            stop.clone(),
            fails.clone(),
            seen.clone(),
            samples.clone(),
            evals.clone(),
            now.clone(),
            exhaustive.clone(),
        );
        hs.push(
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || {
                    if t == 0 && p.all.is_some() {
                        let mut n = 0;
                        let r = all(p, &mut n);
                        exhaustive.store(n, Ordering::SeqCst);
                        if let Err(what) = r {
                            fails.lock().unwrap().push(Fail { seed: 0, size: 0, what, text: String::from("finite domain") });
                            stop.store(true, Ordering::SeqCst);
                        }
                    }
                    while !stop.load(Ordering::SeqCst) && start.elapsed() < limit {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        let size = size_of_case(i);
                        let cs = case_seed(seed, i) | 1;
                        now[t].0.store(cs, Ordering::SeqCst);
                        now[t].1.store(size as u64, Ordering::SeqCst);
                        now[t].2.store(start.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
                        let (c, r) = one(p, cs, size);
                        now[t].2.store(0, Ordering::SeqCst);
                        evals.fetch_add(1, Ordering::SeqCst);
                        if !c.trivial {
                            let mut s = seen.lock().unwrap();
                            if s.len() < 2_000_000 {
                                s.insert(c.hash);
                            }
                        }
                        if (i == 3 || i == 500 || i == 1100) && !c.text.is_empty() {
                            samples.lock().unwrap().push(c.text.chars().take(400).collect());
                        }
                        if let Err(what) = r {
                            fails.lock().unwrap().push(Fail { seed: cs, size, what, text: c.text });
                            stop.store(true, Ordering::SeqCst);
                        }
                    }
                })
                .unwrap(),
        );
    }
    // watch for calls which do not return
    loop {
        std::thread::sleep(Duration::from_millis(50));
        if hs.iter().all(|h| h.is_finished()) {
            break;
        }
        let ms = start.elapsed().as_millis() as u64;
        for w in now.iter() {
            let s = w.2.load(Ordering::SeqCst);
            if s > 0 && ms > s + 40_000 {
                let f = Fail {
                    seed: w.0.load(Ordering::SeqCst),
                    size: w.1.load(Ordering::SeqCst) as usize,
                    what: String::from("no result after 40 s"),
                    text: String::from("use replay"),
                };
                let sm = samples.lock().unwrap();
                report(out, p, evals.load(Ordering::SeqCst), exhaustive.load(Ordering::SeqCst), seen.lock().unwrap().len(), &sm, Some(&f));
                std::process::exit(0);
            }
        }
    }
    for h in hs {
        let _ = h.join();
    }
    let f = fails.lock().unwrap();
    let best = f.iter().min_by_key(|f| f.text.len());
    let sm = samples.lock().unwrap();
    report(out, p, evals.load(Ordering::SeqCst), exhaustive.load(Ordering::SeqCst), seen.lock().unwrap().len(), &sm, best);
}
