//! Searches for an input of the real library on which a property fails, and replays one.
//!
//! probe search PROPERTY SEED SECONDS DICTIONARY OUT    exit 1 and OUT written when a failing input is found
//! probe replay FILE                                    exit 1 when the input in FILE fails again
mod gen;
mod model;
mod ops;

use serde_json::{json, Value};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

thread_local! {
    /// the virtual real-time clock of this thread: nanoseconds since the epoch, and what each reading adds
    static NOW: Cell<Option<i128>> = const { Cell::new(None) };
    static STEP: Cell<i128> = const { Cell::new(0) };
}

pub fn set_clock(now: Option<i128>, step: i128) {
    NOW.with(|n| n.set(now));
    STEP.with(|s| s.set(step));
}

pub fn clock() -> i128 {
    NOW.with(|n| n.get()).unwrap_or(0)
}

#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}

extern "C" {
    fn syscall(n: i64, a: i64, b: *mut Timespec) -> i64;
}

/// Replaces the C library's clock in this program, so that exact boundaries can be tested.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut Timespec) -> i32 {
    if clk == 0 {
        if let Ok(Some(n)) = NOW.try_with(|n| n.get()) {
            (*ts).sec = n.div_euclid(1_000_000_000) as i64;
            (*ts).nsec = n.rem_euclid(1_000_000_000) as i64;
            let _ = NOW.try_with(|c| c.set(Some(n + STEP.with(|s| s.get()))));
            return 0;
        }
    }
    syscall(228, clk as i64, ts) as i32
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    match a.get(1).map(|s| s.as_str()) {
        Some("search") => search(&a[2], a[3].parse().unwrap_or(1), a[4].parse().unwrap_or(60), &a[5], &a[6]),
        Some("replay") => {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            let p = v["property"].as_str().unwrap_or("").to_owned();
            let f: Vec<_> = ops::run(&v["case"]).violations.into_iter().filter(|(q, _)| *q == p).collect();
            for (_, m) in &f {
                println!("{p}: {m}");
            }
            std::process::exit(if f.is_empty() { 0 } else { 1 });
        }
        Some("dist") => {
            // how often each outcome of a kind of case is reached
            let mut g = gen::Gen::new(1, &json!({}));
            let mut m = std::collections::BTreeMap::<String, u64>::new();
            for _ in 0..20000 {
                let c = g.case(&a[2]);
                let r = ops::run(&c);
                *m.entry(format!("{} {}", r.interesting, r.key)).or_default() += 1;
            }
            for (k, n) in m {
                println!("{n:6} {k}");
            }
        }
        Some("one") => {
            // print everything observed on one case (debugging aid)
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            let r = ops::run(if v.get("case").is_some() { &v["case"] } else { &v });
            println!("{:?} interesting={} {}", r.violations, r.interesting, r.key);
        }
        _ => {
            eprintln!("usage");
            std::process::exit(2);
        }
    }
}

fn search(prop: &str, seed: u64, secs: u64, dict: &str, out: &str) {
    let dict: Value = std::fs::read_to_string(dict).ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or(json!({}));
    let kinds = ops::kinds(prop);
    let stop = Arc::new(AtomicBool::new(false));
    let n = Arc::new(AtomicU64::new(0));
    let found: Arc<Mutex<Option<(Value, Vec<String>)>>> = Arc::new(Mutex::new(None));
    let keys = Arc::new(Mutex::new(std::collections::HashSet::<u64>::new()));
    let samples = Arc::new(Mutex::new(Vec::<Value>::new()));
    let accepted = Arc::new(AtomicU64::new(0));
    let mut hs = vec![];
    for t in 0..8u64 {
        let (kinds, prop, dict) = (kinds.clone(), prop.to_owned(), dict.clone());
        let (stop, n, found, keys, samples, accepted) = (stop.clone(), n.clone(), found.clone(), keys.clone(), samples.clone(), accepted.clone());
        hs.push(std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            let mut g = gen::Gen::new(seed.wrapping_mul(0x9e37_79b9).wrapping_add(t * 7919 + 1), &dict);
            let mut local = std::collections::HashSet::new();
            let mut i = 0u64;
            while !stop.load(Ordering::Relaxed) {
                let k = kinds[(i % kinds.len() as u64) as usize];
                i += 1;
                let case = g.case(k);
                let r = ops::run(&case);
                n.fetch_add(1, Ordering::Relaxed);
                if r.interesting {
                    accepted.fetch_add(1, Ordering::Relaxed);
                    if local.len() < 1_000_000 && local.insert(r.hash) && local.len() <= 1 {
                        let mut s = samples.lock().unwrap();
                        if s.len() < 3 {
                            s.push(case.clone());
                        }
                    }
                }
                let v: Vec<String> = r.violations.iter().filter(|(p, _)| *p == prop).map(|(_, m)| m.clone()).collect();
                if !v.is_empty() {
                    let mut f = found.lock().unwrap();
                    if f.is_none() {
                        *f = Some((case, v));
                    }
                    stop.store(true, Ordering::Relaxed);
                }
            }
            keys.lock().unwrap().extend(local);
        }).unwrap());
    }
    let mut waited = 0;
    while waited < secs * 20 && !stop.load(Ordering::Relaxed) {
        std::thread::sleep(Duration::from_millis(50));
        waited += 1;
    }
    stop.store(true, Ordering::Relaxed);
    for h in hs {
        let _ = h.join();
    }
    let f = found.lock().unwrap().clone();
    let stats = json!({
        "evaluations": n.load(Ordering::Relaxed), "distinct_nontrivial": keys.lock().unwrap().len(),
        "rule": "cases start from an accepted one and get 0 to 3 random mutations (values near each other, boundaries, constants of the code); non-trivial: not rejected before the code the property is about, distinct by the observed outcome and inputs",
        "kinds": kinds, "samples": *samples.lock().unwrap(), "seconds": waited as f64 / 20.0, "found": f.is_some(),
    });
    if let Some((case, v)) = f {
        let small = ops::shrink(&case, prop);
        let msgs: Vec<String> = ops::run(&small).violations.into_iter().filter(|(p, _)| *p == prop).map(|(_, m)| m).collect();
        let o = json!({"property": prop, "what": if msgs.is_empty() { v } else { msgs }, "case": small});
        std::fs::write(out, serde_json::to_string_pretty(&o).unwrap()).unwrap();
        println!("{stats}");
        std::process::exit(1);
    }
    println!("{stats}");
}
