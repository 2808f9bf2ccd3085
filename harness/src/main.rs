//! Executable form of the contracts: each property's postconditions as run-time oracles over the real crates.
//! `vh run <ID> --seed N --secs S --out FILE` searches for an input on which a contract fails;
//! `vh replay FILE` runs one recorded case again.
#![allow(clippy::type_complexity)]
mod rng;
mod p_pak;
mod p_cont;
mod p_helpers;
mod p_hash;
mod p_names;
mod ar;
mod p_pkg;
mod p_unv;
mod p_kismet;
mod p_ver;
mod p_reg;
mod p_usmap;
mod p_prop;
mod p_asset;
mod p_exp;
mod p_meta;

use rng::Rng;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub type Case = (&'static str, fn(&mut Rng) -> Result<(), String>);

fn cases(id: &str) -> Vec<Case> {
    match id {
        "P01" => p_pak::roundtrip_cases(),
        "P02" => p_pak::layout_cases(),
        "H01" => p_helpers::h01(),
        "H02" => p_helpers::h02(),
        "H03" => p_helpers::h03(),
        "H04" => p_helpers::h04(),
        "N01" => p_names::n01(),
        "T01" => p_pkg::t01(),
        "V01" => p_unv::v01(),
        "K01" => p_kismet::k01(),
        "V02" => p_ver::v02(),
        "R01" => p_reg::r01(),
        "U01" => p_usmap::u01(),
        "S01" => p_prop::s01(),
        "S02" => p_prop::s02(),
        "E01" => p_exp::e01(),
        "A01" => p_asset::a01(),
        "N03" => p_asset::n03(),
        "M01" => p_meta::m01(),
        "N02" => p_hash::n02(),
        "A02" => p_hash::a02(),
        "C01" => p_cont::c01(),
        "C02" => p_cont::c02(),
        _ => vec![],
    }
}

fn one(case: &Case, seed: u64) -> Result<(), String> {
    one_f(case, seed).0
}

/// the outcome, and the fingerprint of the choices made with their number
fn one_f(case: &Case, seed: u64) -> (Result<(), String>, (u64, u64)) {
    let mut rng = Rng::new(seed);
    let r = match catch_unwind(AssertUnwindSafe(|| case.1(&mut rng))) {
        Ok(r) => r,
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "panic".to_string());
            let loc = LAST_PANIC.with(|l| l.borrow().clone());
            Err(format!("panicked: {m} ({loc})"))
        }
    };
    (r, rng.finger())
}

thread_local! { static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

fn main() {
    std::panic::set_hook(Box::new(|i| {
        if std::env::var_os("VH_BT").is_some() { eprintln!("{}", std::backtrace::Backtrace::force_capture()); }
        let l = i.location().map(|l| l.to_string()).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = l);
    }));
    let a: Vec<String> = std::env::args().collect();
    let opt = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1).cloned());
    match a.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let id = a[2].clone();
            let seed: u64 = opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
            let secs: f64 = opt("--secs").and_then(|s| s.parse().ok()).unwrap_or(10.0);
            let out = opt("--out").unwrap_or_else(|| "/dev/null".into());
            let skip: Vec<String> = opt("--skip").map(|s| s.split(',').map(|x| x.to_string()).collect()).unwrap_or_default();
            let threads: u64 = opt("--threads").and_then(|s| s.parse().ok()).unwrap_or(6);
            let trace = a.iter().any(|x| x == "--trace");
            let only = opt("--only");
            let cs: Vec<Case> = cases(&id).into_iter().filter(|c| !skip.iter().any(|s| s == c.0)).filter(|c| only.as_deref().map_or(true, |o| o == c.0)).collect();
            if cs.is_empty() {
                println!("NOCASES {id}");
                std::process::exit(3);
            }
            let stop = Arc::new(AtomicBool::new(false));
            let total = Arc::new(AtomicU64::new(0));
            let fails: Arc<Mutex<Vec<(String, u64, String)>>> = Arc::new(Mutex::new(vec![]));
            let beat: Arc<Vec<(AtomicU64, AtomicU64, AtomicU64)>> =
                Arc::new((0..threads).map(|_| (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0))).collect());
            let distinct = Arc::new(Mutex::new(std::collections::HashSet::<u64>::new()));
            let samples = Arc::new(Mutex::new(Vec::<String>::new()));
            let start = Instant::now();
            let mut hs = vec![];
            for t in 0..threads {
                let (distinct, samples) = (distinct.clone(), samples.clone());
                let (cs, stop, total, fails, beat) = (cs.clone(), stop.clone(), total.clone(), fails.clone(), beat.clone());
                hs.push(std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
                    let mut n = 0u64;
                    let mut seen = std::collections::HashSet::new();
                    while !stop.load(Ordering::Relaxed) {
                        if n >= cs.len() as u64 && start.elapsed().as_secs_f64() > secs {
                            break;
                        }
                        let ci = ((n + t) % cs.len() as u64) as usize;
                        let s = Rng::mix(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ (t << 48) ^ n);
                        beat[t as usize].1.store(ci as u64, Ordering::Relaxed);
                        beat[t as usize].2.store(s, Ordering::Relaxed);
                        beat[t as usize].0.store(start.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                        if trace {
                            eprintln!("CASE {} {}", cs[ci].0, s);
                        }
                        let (r, (fp, draws)) = one_f(&cs[ci], s);
                        if draws >= 3 && seen.len() < 2_000_000 { seen.insert(fp ^ ((ci as u64) << 57)); }
                        if n < 2 { samples.lock().unwrap().push(format!("{}:{}:{}", cs[ci].0, s, draws)); }
                        total.fetch_add(1, Ordering::Relaxed);
                        if let Err(m) = r {
                            fails.lock().unwrap().push((cs[ci].0.to_string(), s, m));
                            stop.store(true, Ordering::Relaxed);
                        }
                        n += 1;
                    }
                    beat[t as usize].0.store(0, Ordering::Relaxed);
                    distinct.lock().unwrap().extend(seen);
                }).unwrap());
            }
            // watchdog: one case may not run for more than 60 s
            loop {
                std::thread::sleep(Duration::from_millis(20));
                if hs.iter().all(|h| h.is_finished()) {
                    break;
                }
                let now = start.elapsed().as_millis() as u64;
                for b in beat.iter() {
                    let s = b.0.load(Ordering::Relaxed);
                    if s != 0 && now > s + 60_000 {
                        let ci = b.1.load(Ordering::Relaxed) as usize;
                        let sd = b.2.load(Ordering::Relaxed);
                        report(&id, &out, cs[ci].0, sd, "does not terminate (60 s)");
                        std::process::exit(1);
                    }
                }
            }
            let f = fails.lock().unwrap();
            println!("EXPLORED cases={} kinds={} secs={:.1}", total.load(Ordering::Relaxed), cs.len(), start.elapsed().as_secs_f64());
            println!("DISTINCT {}", distinct.lock().unwrap().len());
            println!("SAMPLES {}", samples.lock().unwrap().iter().take(8).cloned().collect::<Vec<_>>().join(","));
            println!("KINDS {}", cs.iter().map(|c| c.0).collect::<Vec<_>>().join(","));
            if let Some((k, s, m)) = f.first() {
                report(&id, &out, k, *s, m);
                std::process::exit(1);
            }
        }
        Some("replay") => {
            let t = std::fs::read_to_string(&a[2]).unwrap();
            let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(&format!("{k}: "))).unwrap_or("").to_string();
            let (id, kind, seed) = (get("property"), get("case"), get("seed").parse::<u64>().unwrap_or(0));
            let c = cases(&id).into_iter().find(|c| c.0 == kind).expect("unknown case");
            match one(&c, seed) {
                Ok(()) => println!("PASS"),
                Err(m) => {
                    println!("FAIL {m}");
                    std::process::exit(1);
                }
            }
        }
        Some("list") => {
            for c in cases(&a[2]) {
                println!("{}", c.0);
            }
        }
        _ => std::process::exit(2),
    }
}

fn report(id: &str, out: &str, kind: &str, seed: u64, m: &str) {
    println!("FAIL case={kind} seed={seed}: {m}");
    let _ = std::fs::write(out, format!("property: {id}\ncase: {kind}\nseed: {seed}\nfailure: {m}\n"));
}
