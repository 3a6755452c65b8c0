//! F20: sharing an index between threads.
use std::{
    io::Read,
    process::{Command, Stdio},
    time::{Duration, Instant},
};

use crate::{
    ck,
    rng::mix,
    run::{verif_dir, Cx, Fail, Part, Prop, Res, P},
    viol, work,
};

pub static PROPS: [&Prop; 1] = [&F20];

static F20: Prop = Prop {
    id: "F20",
    level: "exploration",
    rule: "2 to 6 threads with 1 to 3 interleaved tasks each share one index object over in-memory stores: random additions, \
           deletions, searches and compactions, with pauses, failing and panicking backend calls, interruption callbacks and \
           filters. No operation may panic by itself, fail without a fault of its own (rounds without compaction), or block for \
           ever; afterwards the object must still work and hold every acknowledged addition. Hot: 2 to 8 threads without pause \
           on four keywords, two keys and two labels, each search compared with what it must find. The same workload is run natively, \
           under ThreadSanitizer (built with its own standard library) and under Miri with many schedules, after checking that \
           both report a planted race. Identity: order of the backend calls.",
    parts: &[
        Part { name: "threads", f: f20_threads, quick: 6_000, thorough: 120_000, threads: 3, secs: 60, ..P },
        Part { name: "hot", f: f20_hot, quick: 150, thorough: 3_000, threads: 1, secs: 40, ..P },
        Part { name: "ext-tsan", f: f20_tsan, quick: 1, thorough: 1, threads: 1, secs: 600, cpu: 100_000, ..P },
        Part { name: "ext-miri", f: f20_miri, quick: 1, thorough: 1, threads: 1, secs: 600, cpu: 100_000, ..P },
    ],
    assumptions: &["operations concurrent with a compaction may be refused, never panic"],
};

fn f20_threads(cx: &mut Cx) -> Res {
    let c = work::cfg(cx.seed, 0, false);
    cx.log(format!("{c:?}"));
    match work::run(&c) {
        Ok(s) => {
            for (k, n) in &s.counts {
                cx.count(k, *n);
            }
            cx.count("switches between tasks at backend calls", s.switches);
            if s.switches > c.threads as u64 {
                cx.nontrivial(mix(s.trace));
            }
            let t = format!("{c:?}: {:?}, {} switches", s.counts, s.switches);
            cx.sample(|| t);
            Ok(())
        }
        Err(m) => viol!("{m} ({c:?})"),
    }
}

fn f20_hot(cx: &mut Cx) -> Res {
    let n = *cx.r.pick(&[2, 3, 4, 8, 8]);
    let ops = if cx.idx % 2 == 0 { 200 } else { 1_000 };
    match work::hot(cx.seed, n, ops) {
        Ok(s) => {
            for (k, n) in &s.counts {
                cx.count(k, *n);
            }
            cx.count("switches between threads at backend calls", s.switches);
            cx.max("threads on the same keywords", n as u64);
            if s.switches > n as u64 {
                cx.nontrivial(mix(s.trace));
            }
            Ok(())
        }
        Err(m) => viol!("{m} ({n} threads, {ops} operations each)"),
    }
}

/// Runs a command; its output and exit code, `None` when it was stopped.
fn ext(mut c: Command, limit: Duration) -> Result<(String, Option<i32>), Fail> {
    let mut p = c
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .map_err(|e| Fail::Incon(format!("cannot run {c:?}: {e}")))?;
    let rd = |r: Option<Box<dyn Read + Send>>| {
        std::thread::spawn(move || {
            let mut b = vec![];
            if let Some(mut r) = r {
                let _ = r.read_to_end(&mut b);
            }
            String::from_utf8_lossy(&b).into_owned()
        })
    };
    let o = rd(p.stdout.take().map(|x| Box::new(x) as _));
    let e = rd(p.stderr.take().map(|x| Box::new(x) as _));
    let t0 = Instant::now();
    let code = loop {
        match p.try_wait() {
            Ok(Some(s)) => break Some(s.code().unwrap_or(-1)),
            Ok(None) if t0.elapsed() > limit => {
                let _ = p.kill();
                let _ = p.wait();
                break None;
            }
            _ => std::thread::sleep(Duration::from_millis(50)),
        }
    };
    let (o, e) = (o.join().unwrap_or_default(), e.join().unwrap_or_default());
    Ok((format!("{o}\n{e}"), code))
}
fn tail(s: &str, from: &str) -> String {
    let i = s.find(from).unwrap_or(0);
    s[i..].chars().take(3000).collect()
}

fn f20_tsan(cx: &mut Cx) -> Res {
    let Ok(bin) = std::env::var("VH_TSAN_BIN") else {
        return Err(Fail::Incon("the ThreadSanitizer build is missing".into()));
    };
    let cmd = |args: &[&str]| {
        let mut c = Command::new(&bin);
        c.args(args).env("TSAN_OPTIONS", "halt_on_error=1 exitcode=66 history_size=4");
        c
    };
    let (o, code) = ext(cmd(&["selftest"]), Duration::from_secs(60))?;
    if code != Some(66) || !o.contains("data race") {
        return Err(Fail::Incon(format!("ThreadSanitizer does not report the planted race: {code:?} {}", tail(&o, ""))));
    }
    cx.count("planted races reported by ThreadSanitizer", 1);
    let secs = if cx.thorough { 300 } else { 30 };
    let hs: Vec<_> = (0..3u64)
        .map(|i| {
            let c = cmd(&[&(cx.seed % 1_000_000_007).to_string(), &(i * 1_000_000).to_string(), "1000000", &(secs * 1000).to_string(), "full"]);
            std::thread::spawn(move || ext(c, Duration::from_secs(secs + 200)))
        })
        .collect();
    let mut h = 0;
    for t in hs {
        let (o, code) = t.join().map_err(|_| Fail::Incon("join".into()))??;
        let runs = o.lines().filter(|l| l.starts_with("OK ")).count();
        cx.count("runs under ThreadSanitizer", runs as u64);
        for l in o.lines().filter(|l| l.starts_with("OK ")) {
            h = mix(h ^ crate::rng::hash_bytes(0, l.as_bytes()));
            for kv in l.split_once("switches=").map_or("", |x| x.1).split_once(' ').map_or("", |x| x.1).split(';') {
                if let Some((k, Ok(n))) = kv.split_once('=').map(|(k, v)| (k, v.parse::<u64>())) {
                    cx.count(&format!("under ThreadSanitizer: {k}"), n);
                }
            }
        }
        if o.contains("WARNING: ThreadSanitizer") {
            viol!("ThreadSanitizer: {}", tail(&o, "WARNING: ThreadSanitizer"));
        }
        if let Some(l) = o.lines().find(|l| l.starts_with("BAD ")) {
            viol!("under ThreadSanitizer: {l}");
        }
        ck!(code != Some(3), "the threads block each other for ever: {}", o.lines().filter(|l| l.starts_with("RUN")).next_back().unwrap_or(""));
        if code != Some(0) {
            return Err(Fail::Incon(format!("the ThreadSanitizer run ended with {code:?}: {}", tail(&o, "FATAL"))));
        }
    }
    cx.nontrivial(h);
    Ok(())
}

fn f20_miri(cx: &mut Cx) -> Res {
    let dir = format!("{}/conc", verif_dir());
    let miri = |args: &[&str], seeds: u64| {
        let mut c = Command::new("cargo");
        c.current_dir(&dir)
            .args(["+nightly", "miri", "run", "--quiet", "--offline", "--locked", "--target-dir"])
            .arg(format!("{dir}/target-miri"))
            .arg("--")
            .args(args)
            .env("MIRIFLAGS", format!("-Zmiri-disable-isolation -Zmiri-many-seeds=0..{seeds}"));
        c
    };
    let (o, code) = ext(miri(&["selftest"], 1), Duration::from_secs(400))?;
    if code == Some(0) || !o.contains("Data race detected") {
        // No verdict of this part: the others stand.
        cx.count("Miri is not available", 1);
        cx.log(tail(&o, "error"));
        return Err(Fail::Incon(format!("Miri does not report the planted race: {code:?} {}", tail(&o, "error"))));
    }
    cx.count("planted races reported by Miri", 1);
    let mut todo = vec![("store".to_string(), String::new(), if cx.thorough { 200 } else { 16 })];
    for i in 0..if cx.thorough { 12 } else { 1 } {
        todo.push(("tiny".into(), i.to_string(), 8));
    }
    for (a, b, n) in todo {
        let (o, code) = ext(miri(&[&a, &b], n), Duration::from_secs(if cx.thorough { 1500 } else { 250 }))?;
        let runs = o.lines().filter(|l| l.starts_with("OK ")).count() as u64;
        cx.count(&format!("schedules of the {} workload under Miri", if a == "store" { "store" } else { "index" }), runs);
        for bad in ["Undefined Behavior", "Data race detected", "deadlock"] {
            if o.contains(bad) {
                viol!("Miri ({a} {b}): {}", tail(&o, "error"));
            }
        }
        if let Some(l) = o.lines().find(|l| l.starts_with("BAD ")) {
            viol!("under Miri: {l}");
        }
        if code != Some(0) && runs == 0 {
            return Err(Fail::Incon(format!("the Miri run ended with {code:?}: {}", tail(&o, "error"))));
        }
    }
    cx.nontrivial(1);
    Ok(())
}
