//! Case runner, watchdog, verdicts and evidence.
use std::{
    cell::RefCell,
    collections::{BTreeMap, HashSet},
    fmt::Write as _,
    fs,
    os::unix::process::ExitStatusExt,
    panic::{catch_unwind, AssertUnwindSafe},
    process::Command,
    sync::{
        atomic::{AtomicBool, AtomicI32, AtomicU64, Ordering::SeqCst},
        Arc, Mutex,
    },
    time::{Duration, Instant},
};

use serde_json::{json, Value};

use crate::rng::{hash_bytes, mix, R};

pub enum Fail {
    /// The property is broken: message.
    Viol(String),
    /// No verdict for this case.
    Incon(String),
}
pub type Res<T = ()> = Result<T, Fail>;

#[macro_export]
macro_rules! viol {
    ($($a:tt)*) => { return Err($crate::run::Fail::Viol(format!($($a)*))) };
}
#[macro_export]
macro_rules! ck {
    ($c:expr, $($a:tt)*) => { if !$c { return Err($crate::run::Fail::Viol(format!($($a)*))) } };
}
#[macro_export]
macro_rules! incon {
    ($($a:tt)*) => { return Err($crate::run::Fail::Incon(format!($($a)*))) };
}

pub fn must<T>(r: Result<T, String>, what: impl std::fmt::Display) -> Res<T> {
    r.map_err(|e| Fail::Viol(format!("{what} failed: {e}")))
}
/// Runs a sequential call that must neither crash nor hang.
pub fn seq<T>(w: &crate::mondb::World, f: impl std::future::Future<Output = T>) -> Res<T> {
    match crate::sched::run1(w, 0, f) {
        crate::sched::Run::Done(x) => Ok(x),
        crate::sched::Run::Crashed => Err(Fail::Incon("unexpected crash injection".into())),
        crate::sched::Run::Stuck => Err(Fail::Viol("the operation never completes".into())),
    }
}
pub fn ok<T>(
    w: &crate::mondb::World,
    what: impl std::fmt::Display,
    f: impl std::future::Future<Output = Result<T, String>>,
) -> Res<T> {
    must(seq(w, f)?, what)
}

#[derive(Default)]
pub struct Obs {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub incon: Vec<String>,
}
impl Obs {
    fn merge(&mut self, o: Obs) {
        self.evaluations += o.evaluations;
        self.distinct.extend(o.distinct);
        for (k, v) in o.counters {
            if k.starts_with("max ") {
                let e = self.counters.entry(k).or_insert(0);
                *e = (*e).max(v);
            } else {
                *self.counters.entry(k).or_insert(0) += v;
            }
        }
        self.samples.extend(o.samples);
        self.incon.extend(o.incon);
    }
}

pub struct Cx {
    pub idx: u64,
    pub seed: u64,
    pub thorough: bool,
    pub r: R,
    pub obs: Obs,
    pub note: String,
    /// Shared accumulator of the part (statistics over all cases).
    pub acc: Arc<Mutex<BTreeMap<String, f64>>>,
}
impl Cx {
    pub fn count(&mut self, k: &str, n: u64) {
        if let Some(v) = self.obs.counters.get_mut(k) {
            *v += n;
        } else {
            self.obs.counters.insert(k.to_string(), n);
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.obs.counters.entry(format!("max {k}")).or_insert(0);
        *e = (*e).max(n);
    }
    /// Marks the case as non-trivial, identified by `h`.
    pub fn nontrivial(&mut self, h: u64) {
        // One identity per case.
        let h = self.obs.distinct.drain().next().map_or(h, |o| mix(o ^ h));
        self.obs.distinct.insert(h);
    }
    pub fn nontrivial_s(&mut self, s: &str) {
        self.nontrivial(hash_bytes(7, s.as_bytes()));
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.obs.samples.len() < 2 {
            let mut s = f();
            s.truncate(s.char_indices().nth(600).map_or(s.len(), |x| x.0));
            self.obs.samples.push(s);
        }
    }
    pub fn accum(&self, k: &str, v: f64) {
        *self
            .acc
            .lock()
            .unwrap_or_else(|e| e.into_inner())
            .entry(k.to_string())
            .or_insert(0.0) += v;
    }
    /// Step log shown with a violation.
    pub fn log(&mut self, s: impl AsRef<str>) {
        if self.note.len() < 20_000 {
            self.note.push_str(s.as_ref());
            self.note.push('\n');
        }
    }
}

pub type Acc = BTreeMap<String, f64>;
#[derive(Clone, Copy)]
pub struct Part {
    pub name: &'static str,
    pub f: fn(&mut Cx) -> Res,
    pub quick: u64,
    pub thorough: u64,
    pub threads: usize,
    /// CPU seconds after which one case counts as not terminating.
    pub cpu: u64,
    /// Wall-clock cap of the whole part (quick); thorough gets 8 times more.
    pub secs: u64,
    /// Judges the accumulated statistics at the end.
    pub end: Option<fn(&Acc, &mut Obs) -> Res>,
    /// Only run by the binary built with the hooks on / off (None: off).
    pub hooked: bool,
    /// Cases generate large operations, of up to this size (four times more when thorough).
    pub big: usize,
}
pub const P: Part = Part {
    name: "",
    f: |_| Ok(()),
    quick: 1,
    thorough: 1,
    threads: 8,
    cpu: 40,
    secs: 60,
    end: None,
    hooked: false,
    big: 0,
};
pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub parts: &'static [Part],
    pub assumptions: &'static [&'static str],
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

/// Every path of the harness' own sources, as the compiler writes it.
fn in_harness(file: &str) -> bool {
    file.starts_with("src/") || file.contains("/verif/") || file.contains("verif/harness")
}

struct Slot {
    clock: AtomicI32,
    has_clock: AtomicBool,
    start_cpu: AtomicU64,
    start: Mutex<Option<Instant>>,
    case: Mutex<Option<(String, u64, u64)>>,
}

fn clock_ns(id: libc::clockid_t) -> u64 {
    let mut t = libc::timespec {
        tv_sec: 0,
        tv_nsec: 0,
    };
    // SAFETY: plain system call on an owned struct.
    if unsafe { libc::clock_gettime(id, &mut t) } != 0 {
        return 0;
    }
    t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64
}

pub struct Found {
    pub part: String,
    pub idx: u64,
    pub seed: u64,
    pub msg: String,
    pub note: String,
}

struct Shared {
    stop: AtomicBool,
    found: Mutex<Vec<Found>>,
    errors: Mutex<Vec<String>>,
    slots: Vec<Slot>,
}

fn slot_file() -> Option<String> {
    std::env::var("VH_SLOTS").ok()
}

fn case_seed(seed: u64, prop: &str, part: &str, idx: u64) -> u64 {
    mix(hash_bytes(seed, format!("{prop}/{part}").as_bytes()) ^ mix(idx))
}

fn run_case(p: &Part, prop: &str, idx: u64, seed: u64, thorough: bool, acc: &Arc<Mutex<Acc>>) -> (Cx, Res) {
    let cs = case_seed(seed, prop, p.name, idx);
    let mut cx = Cx {
        idx,
        seed: cs,
        thorough,
        r: R::new(cs),
        obs: Obs::default(),
        note: String::new(),
        acc: acc.clone(),
    };
    if p.big > 0 {
        let max = if thorough { 4 * p.big } else { p.big } as f64;
        cx.r.big = (100.0 * (max / 100.0).powf((cx.r.u64() >> 11) as f64 / (1u64 << 53) as f64)) as usize;
        let n = cx.r.big as u64;
        cx.max("size of large operations", n);
    }
    crate::mondb::seed_delays(cs);
    PANIC.with(|x| *x.borrow_mut() = None);
    let r = catch_unwind(AssertUnwindSafe(|| (p.f)(&mut cx)));
    cx.obs.evaluations += 1;
    let r = match r {
        Ok(r) => r,
        Err(_) => {
            let (loc, msg) = PANIC.with(|x| x.borrow_mut().take()).unwrap_or_default();
            if in_harness(&loc) {
                Err(Fail::Incon(format!("harness panic at {loc}: {msg}")))
            } else {
                Err(Fail::Viol(format!("panic at {loc}: {msg}")))
            }
        }
    };
    (cx, r)
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| (*s).to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        PANIC.with(|x| {
            if let Ok(mut x) = x.try_borrow_mut() {
                if x.is_none() {
                    *x = Some((loc, msg));
                }
            }
        });
    }));
}
/// Last panic caught on this thread, if any (used by parts that catch panics).
pub fn last_panic() -> Option<(String, String)> {
    PANIC.with(|x| x.borrow_mut().take())
}

pub fn verif_dir() -> String {
    std::env::var("VH_DIR").unwrap_or_else(|_| "/verif".into())
}

/// Runs every part of the property; this is the worker process.
pub fn worker(p: &Prop, seed: u64, thorough: bool, hooked: bool) -> i32 {
    install_hook();
    let t0 = Instant::now();
    let mut obs = Obs::default();
    let mut parts_info = vec![];
    let shared = Arc::new(Shared {
        stop: AtomicBool::new(false),
        found: Mutex::default(),
        errors: Mutex::default(),
        slots: (0..64)
            .map(|_| Slot {
                clock: AtomicI32::new(0),
                has_clock: AtomicBool::new(false),
                start_cpu: AtomicU64::new(0),
                start: Mutex::new(None),
                case: Mutex::new(None),
            })
            .collect(),
    });
    let only = std::env::var("VH_PART").ok();
    for part in p.parts.iter().filter(|x| x.hooked == hooked) {
        if only.as_deref().is_some_and(|o| o != part.name) {
            continue;
        }
        let pt = Instant::now();
        let mut n = if thorough { part.thorough } else { part.quick };
        // Shorter runs, for mutation campaigns (not used by the registered commands).
        if let (Some(f), None) = (std::env::var("VH_SCALE").ok().and_then(|s| s.parse::<f64>().ok()), part.end) {
            n = (n as f64 * f).ceil() as u64;
        }
        if n == 0 {
            continue;
        }
        let cap = Duration::from_secs(if thorough { part.secs * 6 } else { part.secs });
        let next = Arc::new(AtomicU64::new(0));
        let acc: Arc<Mutex<Acc>> = Arc::default();
        let n_thr = (part.threads as u64).min(n.max(1)) as usize;
        let part = *part;
        let prop = p.id;
        let live = Arc::new(AtomicU64::new(n_thr as u64));
        let hs: Vec<_> = (0..n_thr)
            .map(|ti| {
                let (sh, next, acc, live) = (shared.clone(), next.clone(), acc.clone(), live.clone());
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn(move || {
                        let slot = &sh.slots[ti];
                        // SAFETY: queries the clock of the current thread.
                        unsafe {
                            let mut c: libc::clockid_t = 0;
                            if libc::pthread_getcpuclockid(libc::pthread_self(), &mut c) == 0 {
                                slot.clock.store(c, SeqCst);
                                slot.has_clock.store(true, SeqCst);
                            }
                        }
                        let mut obs = Obs::default();
                        loop {
                            let i = next.fetch_add(1, SeqCst);
                            if i >= n || sh.stop.load(SeqCst) || pt.elapsed() > cap {
                                break;
                            }
                            if let Ok(mut c) = slot.case.lock() {
                                *c = Some((part.name.to_string(), i, seed));
                            }
                            slot.start_cpu
                                .store(clock_ns(slot.clock.load(SeqCst)), SeqCst);
                            if let Ok(mut s) = slot.start.lock() {
                                *s = Some(Instant::now());
                            }
                            write_slot(ti, part.name, i);
                            let (mut cx, r) = run_case(&part, prop, i, seed, thorough, &acc);
                            if let Ok(mut c) = slot.case.lock() {
                                *c = None;
                            }
                            let samples = std::mem::take(&mut cx.obs.samples);
                            if obs.samples.len() < 1 {
                                obs.samples.extend(samples);
                            }
                            obs.merge(cx.obs);
                            match r {
                                Ok(()) => {}
                                Err(Fail::Viol(m)) => {
                                    sh.stop.store(true, SeqCst);
                                    if let Ok(mut f) = sh.found.lock() {
                                        f.push(Found {
                                            part: part.name.into(),
                                            idx: i,
                                            seed,
                                            msg: m,
                                            note: cx.note,
                                        });
                                    }
                                }
                                Err(Fail::Incon(m)) => {
                                    obs.incon.push(format!("{}#{i}: {m}", part.name));
                                    if obs.incon.len() > 50 {
                                        sh.stop.store(true, SeqCst);
                                    }
                                }
                            }
                        }
                        slot.has_clock.store(false, SeqCst);
                        live.fetch_sub(1, SeqCst);
                        obs
                    })
            })
            .collect();
        // Watchdog.
        let mut last_cpu = 0;
        let mut idle_since = Instant::now();
        let mut hung = None;
        let mut pause = 1;
        while live.load(SeqCst) > 0 {
            std::thread::sleep(Duration::from_millis(pause));
            pause = (pause * 2).min(50);
            let cpu = clock_ns(libc::CLOCK_PROCESS_CPUTIME_ID);
            if cpu.saturating_sub(last_cpu) > 2_000_000_000 {
                last_cpu = cpu;
                idle_since = Instant::now();
            }
            for (ti, s) in shared.slots.iter().enumerate().take(n_thr) {
                if !s.has_clock.load(SeqCst) {
                    continue;
                }
                let case = s.case.lock().ok().and_then(|c| c.clone());
                let Some((pn, i, _)) = case else { continue };
                let used = clock_ns(s.clock.load(SeqCst)).saturating_sub(s.start_cpu.load(SeqCst));
                let wall = s
                    .start
                    .lock()
                    .ok()
                    .and_then(|x| *x)
                    .map_or(Duration::ZERO, |x| x.elapsed());
                if used / 1_000_000_000 >= part.cpu {
                    hung = Some((ti, pn, i, format!("an operation does not terminate ({} s of CPU time in one case)", part.cpu)));
                } else if idle_since.elapsed() > Duration::from_secs(45) && wall > Duration::from_secs(45) && !part.name.starts_with("ext") {
                    hung = Some((ti, pn, i, "deadlock: nothing progresses for 45 s and no CPU time is used".into()));
                }
            }
            if hung.is_some() {
                break;
            }
        }
        if let Some((_, pn, i, m)) = hung {
            if let Ok(mut f) = shared.found.lock() {
                f.push(Found {
                    part: pn,
                    idx: i,
                    seed,
                    msg: m,
                    note: String::new(),
                });
            }
            // The stuck threads cannot be joined: report and leave.
            return finish(p, seed, thorough, hooked, obs, parts_info, &shared, t0);
        }
        let mut po = Obs::default();
        for h in hs {
            match h.map(|h| h.join()) {
                Ok(Ok(o)) => po.merge(o),
                _ => {
                    if let Ok(mut e) = shared.errors.lock() {
                        e.push("a worker thread died".into());
                    }
                }
            }
        }
        if !shared.stop.load(SeqCst) {
            if let Some(end) = part.end {
                let a = acc.lock().map(|a| a.clone()).unwrap_or_default();
                match end(&a, &mut po) {
                    Ok(()) => {}
                    Err(Fail::Viol(m)) => {
                        if let Ok(mut f) = shared.found.lock() {
                            f.push(Found {
                                part: part.name.into(),
                                idx: u64::MAX,
                                seed,
                                msg: m,
                                note: format!("{a:?}"),
                            });
                        }
                    }
                    Err(Fail::Incon(m)) => po.incon.push(m),
                }
            }
        }
        let min = (n / 20).max(1);
        if po.evaluations < min && shared.found.lock().map(|f| f.is_empty()).unwrap_or(true) {
            if let Ok(mut e) = shared.errors.lock() {
                e.push(format!(
                    "part {} only ran {} of {n} cases within its time",
                    part.name, po.evaluations
                ));
            }
        }
        if std::env::var("VH_VERBOSE").is_ok() {
            eprintln!(
                "part {:<28} cases {:>8} distinct {:>8}  {:.1} s",
                part.name,
                po.evaluations,
                po.distinct.len(),
                pt.elapsed().as_secs_f64()
            );
        }
        parts_info.push(json!({
            "part": part.name,
            "cases": po.evaluations,
            "planned": n,
            "distinct_nontrivial": po.distinct.len(),
            "wall_s": (pt.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        }));
        po.samples.truncate(2);
        let d: HashSet<u64> = po
            .distinct
            .iter()
            .map(|h| mix(h ^ hash_bytes(3, part.name.as_bytes())))
            .collect();
        po.distinct = d;
        obs.merge(po);
        if shared.stop.load(SeqCst) {
            break;
        }
    }
    finish(p, seed, thorough, hooked, obs, parts_info, &shared, t0)
}

fn write_slot(ti: usize, part: &str, i: u64) {
    use std::os::unix::fs::FileExt;
    thread_local!(static F: Option<fs::File> = slot_file().and_then(|f| fs::OpenOptions::new().write(true).open(f).ok()));
    F.with(|f| {
        if let Some(f) = f {
            let mut b = [b' '; 63];
            let s = format!("{part} {i}");
            let n = s.len().min(63);
            b[..n].copy_from_slice(&s.as_bytes()[..n]);
            let mut l = b.to_vec();
            l.push(b'\n');
            let _ = f.write_at(&l, ti as u64 * 64);
        }
    });
}

pub struct Known {
    pub prop: String,
    pub sig: String,
    pub what: String,
}
/// `finding: property=F01 sig=<substring of the violation message> -- text`
pub fn known(prop: &str) -> Vec<Known> {
    let f = fs::read_to_string(format!("{}/known_findings.txt", verif_dir())).unwrap_or_default();
    f.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("finding: property=")?;
            let (p, rest) = l.split_once(" sig=")?;
            let (sig, what) = rest.split_once(" -- ")?;
            (p == prop).then(|| Known {
                prop: p.into(),
                sig: sig.into(),
                what: what.into(),
            })
        })
        .collect()
}

fn finish(
    p: &Prop,
    _seed: u64,
    thorough: bool,
    hooked: bool,
    obs: Obs,
    parts: Vec<Value>,
    sh: &Shared,
    t0: Instant,
) -> i32 {
    let found = sh.found.lock().map(|mut f| std::mem::take(&mut *f)).unwrap_or_default();
    let mut errors = sh.errors.lock().map(|e| e.clone()).unwrap_or_default();
    let kn = known(p.id);
    let mut code = 0;
    let mut viols = vec![];
    for f in &found {
        if let Some(k) = kn.iter().find(|k| f.msg.contains(&k.sig)) {
            eprintln!("known finding hit: {}", k.what);
        } else {
            viols.push(f);
        }
    }
    let report = |f: &Found| -> String {
        let dir = format!("{}/evidence/replay", verif_dir());
        let _ = fs::create_dir_all(&dir);
        let path = format!("{dir}/{}.txt", p.id);
        let mut s = String::new();
        let _ = writeln!(s, "property {}\npart {}\ncase {}\nseed {}\ntier {}\nhooked {hooked}", p.id, f.part, f.idx, f.seed, if thorough { "thorough" } else { "quick" });
        let _ = writeln!(s, "replay: VERIF_SEED={} ./check.sh {} --replay {} {}", f.seed, p.id, f.part, f.idx);
        let _ = writeln!(s, "\n{}\n\n{}", f.msg, f.note);
        let _ = fs::write(&path, s);
        path
    };
    if let Some(f) = viols.first() {
        let path = report(f);
        println!("{}: part {} case {}: {}", p.id, f.part, f.idx, f.msg);
        let mut note = f.note.clone();
        note.truncate(note.char_indices().nth(3000).map_or(note.len(), |x| x.0));
        println!("{note}");
        println!("VIOLATION property={} replay={path}", p.id);
        code = 1;
    }
    // A few undecided cases are tolerated, reported; many mean no verdict.
    let incon = obs.incon.len() as u64;
    if code == 0 {
        if incon > 0 && (incon * 50 > obs.evaluations || obs.incon.iter().any(|m| m.contains("harness"))) {
            errors.push(format!("{incon} undecided cases, e.g. {}", obs.incon[0]));
        }
        for part in &parts {
            let name = part["part"].as_str().unwrap_or("");
            let cases = part["cases"].as_u64().unwrap_or(0);
            let of: Vec<&String> = obs.incon.iter().filter(|m| m.starts_with(&format!("{name}#"))).collect();
            if of.len() as u64 * 20 > cases && errors.is_empty() {
                errors.push(format!("{} undecided cases of {cases} in part {name}, e.g. {}", of.len(), of[0]));
            }
        }
        if !errors.is_empty() {
            for e in errors.iter().take(5) {
                println!("{}: ERROR {e}", p.id);
            }
            code = 2;
        }
    }
    let out = json!({
        "code": code,
        "parts": parts,
        "evaluations": obs.evaluations,
        "distinct": obs.distinct.len(),
        "samples": obs.samples.iter().take(6).collect::<Vec<_>>(),
        "observed": obs.counters,
        "undecided": incon,
        "undecided_examples": obs.incon.iter().take(3).collect::<Vec<_>>(),
        "violations": viols.iter().map(|f| format!("{}#{}: {}", f.part, f.idx, f.msg)).collect::<Vec<_>>(),
        "wall": t0.elapsed().as_secs_f64(),
    });
    if let Ok(f) = std::env::var("VH_OUT") {
        let _ = fs::write(f, serde_json::to_vec(&out).unwrap_or_default());
    }
    use std::io::Write;
    let _ = std::io::stdout().flush();
    code
}

pub fn replay(p: &Prop, seed: u64, part: &str, idx: u64, thorough: bool) -> i32 {
    install_hook();
    let Some(part) = p.parts.iter().find(|x| x.name == part) else {
        eprintln!("no such part");
        return 2;
    };
    let acc: Arc<Mutex<Acc>> = Arc::default();
    let (cx, r) = run_case(part, p.id, idx, seed, thorough, &acc);
    println!("{}", cx.note);
    println!("{:?}", cx.obs.counters);
    match r {
        Ok(()) => {
            println!("no violation");
            0
        }
        Err(Fail::Viol(m)) => {
            println!("VIOLATION (replay) {m}");
            1
        }
        Err(Fail::Incon(m)) => {
            println!("undecided: {m}");
            2
        }
    }
}

/// Spawns one worker per build (plain / hooked), combines the outcomes and
/// writes the evidence file.
pub fn supervise(p: &Prop, seed: u64, thorough: bool, hooked_bin: Option<String>) -> i32 {
    let t0 = Instant::now();
    let dir = std::env::temp_dir().join(format!("vh-{}-{}", p.id, std::process::id()));
    let _ = fs::create_dir_all(&dir);
    let mut outs: Vec<Value> = vec![];
    let mut code = 0;
    for k in known(p.id) {
        println!("KNOWN-FINDING: property={} {}", p.id, k.what);
    }
    let mut runs: Vec<(bool, String)> = vec![];
    if p.parts.iter().any(|x| !x.hooked) {
        runs.push((
            false,
            std::env::current_exe()
                .map(|x| x.display().to_string())
                .unwrap_or_default(),
        ));
    }
    if p.parts.iter().any(|x| x.hooked) {
        match hooked_bin {
            Some(b) => runs.push((true, b)),
            None => {
                println!("{}: ERROR the binary built with the hooks is missing", p.id);
                code = 2;
            }
        }
    }
    for (hooked, bin) in runs {
        let slots = dir.join("slots");
        let out = dir.join("out.json");
        let _ = fs::write(&slots, vec![b' '; 64 * 64]);
        let _ = fs::remove_file(&out);
        let st = Command::new(&bin)
            .args([
                "worker",
                p.id,
                &seed.to_string(),
                if thorough { "thorough" } else { "quick" },
                if hooked { "hooked" } else { "plain" },
            ])
            .env("VH_SLOTS", &slots)
            .env("VH_OUT", &out)
            .status();
        let o: Option<Value> = fs::read(&out).ok().and_then(|b| serde_json::from_slice(&b).ok());
        let c = match st {
            Ok(s) => match (s.code(), s.signal()) {
                (Some(c @ (0 | 1)), _) if o.is_some() => c,
                (_, Some(sig @ (libc::SIGSEGV | libc::SIGABRT | libc::SIGBUS | libc::SIGILL | libc::SIGFPE))) => {
                    let cur = fs::read_to_string(&slots).unwrap_or_default();
                    let cur: Vec<&str> = cur.lines().map(str::trim).filter(|l| !l.is_empty()).collect();
                    let rd = format!("{}/evidence/replay", verif_dir());
                    let _ = fs::create_dir_all(&rd);
                    let path = format!("{rd}/{}.txt", p.id);
                    let _ = fs::write(
                        &path,
                        format!(
                            "property {}\nthe process died on signal {sig} (stack overflow, abort or invalid memory access)\nseed {seed}\ncases running (part index):\n{}\n",
                            p.id,
                            cur.join("\n")
                        ),
                    );
                    println!("{}: the process died on signal {sig} while running {cur:?}", p.id);
                    println!("VIOLATION property={} replay={path}", p.id);
                    1
                }
                (c, s) => {
                    println!("{}: ERROR worker ended with code {c:?} signal {s:?}", p.id);
                    2
                }
            },
            Err(e) => {
                println!("{}: ERROR cannot run the worker: {e}", p.id);
                2
            }
        };
        if c == 1 || (c == 2 && code == 0) {
            code = c;
        }
        outs.extend(o);
        if code == 1 {
            break;
        }
    }
    let _ = fs::remove_dir_all(&dir);
    let sum = |k: &str| outs.iter().filter_map(|o| o[k].as_u64()).sum::<u64>();
    let cat = |k: &str| -> Vec<Value> {
        outs.iter()
            .filter_map(|o| o[k].as_array())
            .flatten()
            .cloned()
            .collect()
    };
    let mut observed = serde_json::Map::new();
    for o in &outs {
        if let Some(m) = o["observed"].as_object() {
            for (k, v) in m {
                let n = v.as_u64().unwrap_or(0);
                let old = observed.get(k).and_then(Value::as_u64).unwrap_or(0);
                let new = if k.starts_with("max ") { old.max(n) } else { old + n };
                observed.insert(k.clone(), json!(new));
            }
        }
    }
    let ev = json!({
        "property": p.id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": p.level,
        "coverage": {
            "evaluations": sum("evaluations"),
            "distinct_nontrivial": sum("distinct"),
            "rule": if p.parts.iter().any(|p| p.big > 0) {
                format!("{} Parts big*: the same with operations of 100 to 3000 items.", p.rule)
            } else {
                p.rule.to_string()
            },
            "samples": cat("samples"),
            "parts": cat("parts"),
            "observed": observed,
            "undecided": sum("undecided"),
            "undecided_examples": cat("undecided_examples"),
            "violation_messages": cat("violations"),
        },
        "assumptions": p.assumptions,
        "wall_s": (t0.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        "violations": if code == 1 { 1.max(cat("violations").len()) } else { 0 },
    });
    let _ = fs::create_dir_all(format!("{}/evidence", verif_dir()));
    let _ = fs::write(
        format!("{}/evidence/{}.json", verif_dir(), p.id),
        serde_json::to_string_pretty(&ev).unwrap_or_default(),
    );
    println!(
        "{}: {} cases, {} distinct non-trivial, {:.1} s -> exit {code}",
        p.id,
        sum("evaluations"),
        sum("distinct"),
        t0.elapsed().as_secs_f64()
    );
    code
}
