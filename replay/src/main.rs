//! Evaluates the contracts of /verif on concrete inputs, against the real crate.
//! usage: kvc-replay PROPERTY SEED SECONDS OUTFILE [LITERALFILE]
//!        kvc-replay --case FILE
//! exit 0: no violation; 1: violation written to OUTFILE; 2: usage
mod chain;
mod ik;
mod joint;
mod threads;
mod urdf;
mod util;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use util::Rng;

pub type R = Result<(), String>;

#[macro_export]
macro_rules! ck {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

fn trial(p: &str, r: &mut Rng) -> R {
    match p {
        "C01" => joint::c01(r),
        "C02" => joint::c02(r),
        "C03" => joint::c03(r),
        "C04" => chain::c04(r),
        "C05" => joint::c05(r),
        "C06" => chain::c06(r),
        "C07" => chain::c07(r),
        "C08" => chain::c08(r),
        "C09" => chain::c09(r),
        "C10" => chain::c10(r),
        "C11" => chain::c11(r),
        "C12" => chain::c12(r),
        "C13" => ik::c13(r),
        "C14" => ik::c14(r),
        "C15" => ik::c15(r),
        "C16" => ik::c16(r),
        "C17" => ik::c17(r),
        "C18" => urdf::c18(r),
        "C19" => urdf::c19(r),
        "C20" => urdf::c20(r),
        "C21" => joint::c21(r),
        "C22" => joint::c22(r),
        "C23" => chain::c23(r),
        "C24" => chain::c24(r),
        "C25" => ik::c25(r),
        "C26" => threads::c26(r),
        _ => Err(format!("no such property {}", p)),
    }
}

fn guarded(p: &str, seed: u64, n: u64) -> R {
    match catch_unwind(AssertUnwindSafe(|| trial(p, &mut Rng::new(seed, n)))) {
        Ok(r) => r,
        Err(e) => {
            let m = if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else {
                "?".to_string()
            };
            Err(format!("panic: {} at {}", m, LAST.lock().map(|l| l.clone()).unwrap_or_default()))
        }
    }
}

static LAST: Mutex<String> = Mutex::new(String::new());

fn report(out: &str, p: &str, seed: u64, n: u64, msg: &str) {
    let mut f = std::fs::File::create(out).expect("output file");
    let _ = writeln!(f, "property={}\nseed={}\ntrial={}\nrerun: kvc-replay --case {}\n\n{}", p, seed, n, out, msg);
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| {
        if let Ok(mut l) = LAST.lock() {
            *l = i.location().map(|l| l.to_string()).unwrap_or_default();
        }
    }));
    let mut only = None;
    let (p, seed, secs, out) = if a.len() >= 3 && a[1] == "--case" {
        let t = std::fs::read_to_string(&a[2]).expect("case file");
        let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)).map(|s| s.to_string()).expect("field");
        only = Some(get("trial=").parse::<u64>().expect("trial"));
        (get("property="), get("seed=").parse::<u64>().expect("seed"), 60.0, "/dev/stdout".to_string())
    } else if a.len() >= 5 {
        (a[1].clone(), a[2].parse().expect("seed"), a[3].parse::<f64>().expect("seconds"), a[4].clone())
    } else {
        eprintln!("usage");
        std::process::exit(2);
    };
    if a.len() >= 6 {
        if let Ok(t) = std::fs::read_to_string(&a[5]) {
            unsafe { util::LITS = t.split_whitespace().filter_map(|x| x.parse().ok()).collect() };
        }
    }
    let most = std::env::var("KVC_TRIALS").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(u64::MAX);
    let now = Arc::new(AtomicU64::new(0));
    let done = Arc::new(Mutex::new(None));
    let beat = Arc::new(AtomicU64::new(0));
    let b2 = beat.clone();
    let (n2, d2, p2) = (now.clone(), done.clone(), p.clone());
    let start = Instant::now();
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            let mut n = only.unwrap_or(1);
            loop {
                n2.store(n, Ordering::SeqCst);
                b2.fetch_add(1, Ordering::SeqCst);
                let r = guarded(&p2, seed, n);
                if let Err(m) = r {
                    *d2.lock().unwrap() = Some((n, Some(m)));
                    return;
                }
                // with threads, the same calls have to meet again
                if only.is_some() && p2 == "C26" && start.elapsed().as_secs_f64() < secs {
                    continue;
                }
                if only.is_some() || n >= most || start.elapsed().as_secs_f64() > secs {
                    *d2.lock().unwrap() = Some((n, None));
                    return;
                }
                n += 1;
            }
        })
        .expect("thread");
    let mut last = (0, Instant::now());
    loop {
        std::thread::sleep(Duration::from_millis(5));
        if let Some((n, m)) = done.lock().unwrap().clone() {
            match m {
                Some(m) => {
                    report(&out, &p, seed, n, &m);
                    println!("violation trial={} {}", n, m.lines().next().unwrap_or(""));
                    std::process::exit(1);
                }
                None => {
                    println!("ok trials={}", n);
                    std::process::exit(0);
                }
            }
        }
        let c = now.load(Ordering::SeqCst);
        let b = beat.load(Ordering::SeqCst);
        if b != last.0 {
            last = (b, Instant::now());
        } else if last.1.elapsed() > Duration::from_secs(25) {
            report(&out, &p, seed, c, "blocked: the operation did not come back within 25 s");
            println!("violation trial={} blocked", c);
            std::process::exit(1);
        }
    }
}
