//! conc SEED FIRST N MILLISECONDS small|full : runs configurations FIRST.. until done.
mod work;
use std::{sync::atomic::Ordering::Relaxed, time::{Duration, Instant}};

/// A data race, to show that the detector works.
fn selftest() {
    static mut X: u64 = 0;
    let t = std::thread::spawn(|| {
        for _ in 0..1000 {
            // SAFETY: none, on purpose.
            unsafe { *std::ptr::addr_of_mut!(X) += 1 };
        }
    });
    for _ in 0..1000 {
        // SAFETY: none, on purpose.
        unsafe { *std::ptr::addr_of_mut!(X) += 1 };
    }
    let _ = t.join();
}

fn main() {
    match std::env::args().nth(1).as_deref() {
        Some("selftest") => return selftest(),
        Some("store") => {
            // Fixed seed: the interpreter explores schedules with its own.
            match work::store(7, 3, 6) {
                Ok(n) => println!("OK store {n}"),
                Err(m) => {
                    println!("BAD store {m}");
                    std::process::exit(1);
                }
            }
            return;
        }
        Some("tiny") => {
            let i = std::env::args().nth(2).and_then(|x| x.parse().ok()).unwrap_or(0);
            let c = work::tiny(i);
            match work::run(&c) {
                Ok(_) => println!("OK tiny {i}"),
                Err(m) => {
                    println!("BAD tiny {i} {m}");
                    std::process::exit(1);
                }
            }
            return;
        }
        _ => {}
    }
    let a: Vec<u64> = std::env::args().skip(1).take(4).filter_map(|x| x.parse().ok()).collect();
    let small = std::env::args().nth(5).as_deref() == Some("small");
    let [seed, first, n, ms] = a[..] else {
        eprintln!("usage: conc SEED FIRST N MILLISECONDS small|full");
        std::process::exit(2);
    };
    if !small {
        std::thread::spawn(|| {
            let (mut last, mut since) = (0, Instant::now());
            loop {
                std::thread::sleep(Duration::from_millis(500));
                let p = work::PROGRESS.load(Relaxed);
                if p != last {
                    (last, since) = (p, Instant::now());
                } else if since.elapsed() > Duration::from_secs(60) {
                    println!("STALL");
                    std::process::exit(3);
                }
            }
        });
    }
    let t0 = Instant::now();
    for i in first..first + n {
        if ms > 0 && t0.elapsed() > Duration::from_millis(ms) {
            break;
        }
        let c = work::cfg(seed, i, small);
        println!("RUN {i}");
        let hot = !small && i % 8 == 7;
        match if hot { work::hot(seed ^ i, 2 + i as usize / 8 % 4, 60) } else { work::run(&c) } {
            Ok(s) => {
                let k: Vec<String> = s.counts.iter().map(|(k, n)| format!("{k}={n}")).collect();
                println!("OK {i} trace={} switches={} {}", s.trace, s.switches, k.join(";"));
            }
            Err(m) => {
                println!("BAD {i} {m} ({c:?})");
                std::process::exit(1);
            }
        }
    }
}
