//! F27 fresh random material, F28 searches during a compaction, F29 no secret
//! in logs and messages.
use std::{
    cell::RefCell,
    collections::{BTreeMap, BTreeSet, HashMap, HashSet},
    fmt::Write as _,
    panic::{catch_unwind, AssertUnwindSafe},
    process::Command,
    rc::Rc,
    sync::{
        atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst},
        Mutex, Once,
    },
};

use cosmian_findex::Index;

use super::seqp::{fill, new_kl};
use crate::{
    ck, fmt, gen,
    incon,
    ix::*,
    mondb::{seed_delays, Fault, Log, Mode, FK},
    rng::{hash_bytes, mix, R},
    run::{last_panic, ok, seq, Acc, Cx, Fail, Obs, Part, Prop, Res, P},
    sched::{run1, run_all, Policy, Run, Task},
    viol,
};

pub static PROPS: [&Prop; 3] = [&F27, &F28, &F29];

// ---------------------------------------------------------------------------

static F27: Prop = Prop {
    id: "F27",
    level: "exploration",
    rule: "user keys generated by many index objects (created together, shared by threads, one after another, in separate \
           processes), and the chain seeds, nonces and stored tokens of their first operations: none may repeat; the bytes \
           of the keys, and of the difference of successive keys, are tested for uniformity (chi-square per position and per pair of half-bytes of a key, rank over GF(2)); a \
           fresh process must read at least 16 more bytes from the system's random source when it generates a key than \
           when it does not (system calls traced). Identity: case.",
    parts: &[
        Part { name: "objects", f: f27_objects, quick: 400, thorough: 6_000, end: Some(f27_end), ..P },
        Part { name: "restarts", f: f27_restarts, quick: 24, thorough: 240, end: Some(f27_restarts_end), ..P },
        Part { name: "entropy", f: f27_entropy, quick: 2, thorough: 8, threads: 1, ..P },
    ],
    assumptions: &["the system's random source is sound", "the chi-square alarm has probability below 1e-9 on a correct tree"],
};

/// Values that must never be drawn twice by this process.
static DRAWN: Mutex<Option<HashMap<Vec<u8>, &'static str>>> = Mutex::new(None);
fn drawn(what: &'static str, b: &[u8]) -> Res {
    let mut g = DRAWN.lock().unwrap_or_else(|e| e.into_inner());
    if let Some(o) = g.get_or_insert_with(HashMap::new).insert(b.to_vec(), what) {
        viol!("{what} has the same bytes as {o} drawn before: {}", show(b));
    }
    Ok(())
}
/// The seeds and nonces found in a store written under the given key.
fn material(env: &Env, key: &[u8]) -> Vec<(&'static str, Vec<u8>)> {
    let s = env.snap();
    let ek = fmt::et_key(key);
    let mut v = vec![];
    for x in s.et.values() {
        v.push(("the nonce of an entry", x[..12].to_vec()));
        if let Some(e) = fmt::open(&ek.dem, x) {
            v.push(("a chain seed", fmt::Ent::dec(&e).seed.to_vec()));
        }
    }
    v.extend(s.ct.values().map(|x| ("the nonce of a link", x[..12].to_vec())));
    v
}

fn f27_objects(cx: &mut Cx) -> Res {
    let r = &mut cx.r.fork();
    let n_obj = *r.pick(&[1, 2, 4, 8]);
    let per = r.range(20, 60);
    // All threads create their object and use it at the same time; some share one.
    let shared = Env::new(Mode::Seq, Log::Off, true);
    let sfx = shared.fx();
    let share = r.chance(1, 3);
    let ready = AtomicUsize::new(0);
    let got: Mutex<Vec<Vec<u8>>> = Mutex::default();
    let mats: Mutex<Vec<(&'static str, Vec<u8>)>> = Mutex::default();
    let bad: Mutex<Option<String>> = Mutex::new(None);
    let kl0 = Kl::random(r);
    std::thread::scope(|sc| {
        for t in 0..n_obj {
            let (ready, got, mats, bad, sfx, kl0) = (&ready, &got, &mats, &bad, &sfx, &kl0);
            sc.spawn(move || {
                let x = catch_unwind(AssertUnwindSafe(|| {
                    ready.fetch_add(1, SeqCst);
                    while ready.load(SeqCst) < n_obj {
                        std::hint::spin_loop();
                    }
                    let env = Env::new(Mode::Seq, Log::Off, true);
                    let own = env.fx();
                    let fx = if share { sfx } else { &own };
                    let mut keys: Vec<Vec<u8>> = (0..per / 2).map(|_| fx.keygen().to_vec()).collect();
                    // Equal contents in every object, under the same key.
                    let a: Assoc = vec![(Val::D(b"same".to_vec()), vec![b"k1".to_vec(), b"k2".to_vec()])];
                    let r = match run1(&env.w, t as u32, modify(&own, kl0, true, &a)) {
                        Run::Done(r) => r,
                        _ => Err("never completes".into()),
                    };
                    if let Err(e) = r {
                        *bad.lock().unwrap_or_else(|e| e.into_inner()) = Some(format!("addition failed: {e}"));
                    }
                    keys.extend((0..per / 2).map(|_| fx.keygen().to_vec()));
                    got.lock().unwrap_or_else(|e| e.into_inner()).extend(keys);
                    mats.lock().unwrap_or_else(|e| e.into_inner()).extend(material(&env, &kl0.key));
                }));
                if x.is_err() {
                    let (l, m) = last_panic().unwrap_or_default();
                    *bad.lock().unwrap_or_else(|e| e.into_inner()) = Some(format!("a thread panicked at {l}: {m}"));
                }
            });
        }
    });
    if let Some(m) = bad.into_inner().unwrap_or_else(|e| e.into_inner()) {
        viol!("{m}");
    }
    let keys = got.into_inner().unwrap_or_else(|e| e.into_inner());
    let mut hist = vec![vec![0u32; 256]; 32];
    for (i, k) in keys.iter().enumerate() {
        ck!(k.len() == 16, "a key of {} bytes", k.len());
        drawn("a user key", k)?;
        for (p, b) in k.iter().enumerate() {
            hist[p][*b as usize] += 1;
            if i > 0 {
                hist[16 + p][(*b ^ keys[i - 1][p]) as usize] += 1;
            }
        }
    }
    for (i, hh) in hist.iter().enumerate() {
        for (b, n) in hh.iter().enumerate() {
            if *n > 0 {
                cx.accum(&format!("{i:02}/{b:03}"), f64::from(*n));
            }
        }
    }
    let mats = mats.into_inner().unwrap_or_else(|e| e.into_inner());
    ck!(mats.len() >= 6 * n_obj, "{} random values only are found in {n_obj} stores", mats.len());
    cx.count("seeds and nonces collected", mats.len() as u64);
    for (w, b) in mats {
        drawn(w, &b)?;
    }
    cx.count("keys generated", keys.len() as u64);
    cx.count("index objects", n_obj as u64 + 1);
    let n = keys.len();
    cx.sample(|| format!("{n_obj} objects at once, one {}, {n} keys, the last one {}", if share { "shared by all threads" } else { "by thread" }, show(&keys[n - 1])));
    cx.nontrivial(mix(cx.seed));
    Ok(())
}
fn f27_end(a: &Acc, o: &mut Obs) -> Res {
    for p in 0..32 {
        let h: Vec<f64> = (0..256).map(|b| a.get(&format!("{p:02}/{b:03}")).copied().unwrap_or(0.0)).collect();
        let n: f64 = h.iter().sum();
        if n < 5_000.0 {
            return Err(Fail::Incon(format!("only {n} keys")));
        }
        let e = n / 256.0;
        let x: f64 = h.iter().map(|v| (v - e) * (v - e) / e).sum();
        let k = 255.0;
        let z = ((x / k).powf(1.0 / 3.0) - (1.0 - 2.0 / (9.0 * k))) / (2.0f64 / (9.0 * k)).sqrt();
        let e = o.counters.entry("max chi-square over key bytes (255 degrees)".into()).or_insert(0);
        *e = (*e).max(x as u64);
        if z > 6.7 {
            viol!(
                "byte {} of {} is not uniform: chi-square {x:.0} over {n} keys",
                p % 16,
                if p < 16 { "generated keys" } else { "the difference of successive keys" }
            );
        }
    }
    // Relations between the bytes of a key.
    let keys: Vec<Vec<u8>> = {
        let g = DRAWN.lock().unwrap_or_else(|e| e.into_inner());
        g.iter().flatten().filter(|(_, w)| **w == "a user key").map(|(k, _)| k.clone()).collect()
    };
    let mut worst = 0.0f64;
    for i in 0..16 {
        for j in 0..i {
            for (a, b) in [(4, 4), (0, 0), (0, 4), (4, 0)] {
                let mut h = [0u32; 256];
                for k in &keys {
                    h[usize::from(k[i] >> a & 15) << 4 | usize::from(k[j] >> b & 15)] += 1;
                }
                let e = keys.len() as f64 / 256.0;
                let x: f64 = h.iter().map(|v| (f64::from(*v) - e).powi(2) / e).sum();
                let k = 255.0;
                let z = ((x / k).powf(1.0 / 3.0) - (1.0 - 2.0 / (9.0 * k))) / (2.0f64 / (9.0 * k)).sqrt();
                worst = worst.max(x);
                if z > 7.0 {
                    viol!("bytes {j} and {i} of generated keys depend on each other: chi-square {x:.0} over {} keys", keys.len());
                }
            }
        }
    }
    o.counters.insert("max chi-square over pairs of half-bytes of a key (255 degrees)".into(), worst as u64);
    // Linear relations between the bits.
    let mut rows: Vec<u128> = vec![];
    let origin = keys.first().map_or(0, |k| k.iter().fold(0u128, |a, b| a << 8 | u128::from(*b)));
    for k in &keys {
        let mut v = origin ^ k.iter().fold(0u128, |a, b| a << 8 | u128::from(*b));
        for r in &rows {
            v = v.min(v ^ r);
        }
        if v != 0 {
            rows.push(v);
            if rows.len() == 128 {
                break;
            }
        }
    }
    o.counters.insert("rank of the differences of keys".into(), rows.len() as u64);
    if rows.len() < 128 {
        viol!("the bits of generated keys are related: they span a space of dimension {} instead of 128", rows.len());
    }
    Ok(())
}

/// `vh keys N`: what a fresh process draws, in hexadecimal.
pub fn child(n: usize) {
    let mut out = String::new();
    // Draws the keys of the hash maps even if nothing else is done.
    std::hint::black_box(HashMap::<u8, u8>::new());
    for _ in 0..n {
        let env = Env::new(Mode::Seq, Log::Off, true);
        let fx = env.fx();
        let k = fx.keygen().to_vec();
        let hex = |b: &[u8]| b.iter().fold(String::new(), |mut s, c| {
            let _ = write!(s, "{c:02x}");
            s
        });
        let _ = writeln!(out, "key {}", hex(&k));
        let kl = Kl { key: vec![7; 16], label: b"label".to_vec() };
        let a: Assoc = vec![(Val::D(b"same".to_vec()), vec![b"k1".to_vec()])];
        if let Run::Done(Ok(_)) = run1(&env.w, 0, modify(&fx, &kl, true, &a)) {
            for (w, b) in material(&env, &kl.key) {
                let _ = writeln!(out, "{} {}", w.rsplit(' ').next().unwrap_or(""), hex(&b));
            }
        }
    }
    print!("{out}");
}
fn exe() -> Res<std::path::PathBuf> {
    std::env::current_exe().map_err(|e| Fail::Incon(format!("no path to this program: {e}")))
}
fn f27_restarts(cx: &mut Cx) -> Res {
    let n = 1 + cx.idx % 4;
    let o = Command::new(exe()?).args(["keys", &n.to_string()]).env_clear().output();
    let o = o.map_err(|e| Fail::Incon(format!("cannot restart: {e}")))?;
    let out = String::from_utf8_lossy(&o.stdout).into_owned();
    if !o.status.success() {
        incon!("the restarted process ended with {}", o.status);
    }
    let mut keys = 0;
    for l in out.lines() {
        let (w, h) = l.split_once(' ').unwrap_or((l, ""));
        let b: Vec<u8> = (0..h.len() / 2).filter_map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).ok()).collect();
        keys += u64::from(w == "key");
        drawn(
            match w {
                "key" => "the user key generated by a restarted process",
                "seed" => "a chain seed drawn by a restarted process",
                _ => "a nonce drawn by a restarted process",
            },
            &b,
        )?;
        cx.count("values drawn by restarted processes", 1);
    }
    ck!(keys == n, "{keys} keys generated instead of {n}");
    cx.accum("processes", 1.0);
    cx.nontrivial(mix(cx.idx));
    Ok(())
}
fn f27_restarts_end(a: &Acc, _: &mut Obs) -> Res {
    if a.get("processes").copied().unwrap_or(0.0) < 2.0 {
        return Err(Fail::Incon("fewer than two processes were started".into()));
    }
    Ok(())
}
/// Bytes read from the system's random source by `vh keys n`.
fn entropy(n: usize) -> Res<Option<u64>> {
    let dir = std::env::temp_dir().join(format!("vh-entropy-{}-{n}", std::process::id()));
    let _ = std::fs::remove_file(&dir);
    let o = Command::new("strace")
        .args(["-f", "-e", "trace=getrandom,read,openat,close", "-o"])
        .arg(&dir)
        .arg(exe()?)
        .args(["keys", &n.to_string()])
        .env_clear()
        .output();
    let Ok(o) = o else { return Ok(None) };
    let t = std::fs::read_to_string(&dir).unwrap_or_default();
    let _ = std::fs::remove_file(&dir);
    if !o.status.success() || !String::from_utf8_lossy(&o.stdout).lines().any(|l| l.starts_with("key ")) && n > 0 {
        return Ok(None);
    }
    let mut fds: BTreeSet<String> = BTreeSet::new();
    let mut total = 0;
    for l in t.lines() {
        let ret: Option<u64> = l.rsplit(" = ").next().and_then(|x| x.split_whitespace().next()).and_then(|x| x.parse().ok());
        let fd = |name: &str| l.split(&format!("{name}(")).nth(1).map(|a| a.split([',', ')']).next().unwrap_or("").to_string());
        if l.contains("openat(") && l.contains("random\"") {
            fds.extend(ret.map(|x| x.to_string()));
        } else if l.contains("getrandom(") {
            total += ret.unwrap_or(0);
        } else if fd("read").is_some_and(|f| fds.contains(&f)) {
            total += ret.unwrap_or(0);
        } else if let Some(f) = fd("close") {
            fds.remove(&f);
        }
    }
    Ok(Some(total))
}
fn f27_entropy(cx: &mut Cx) -> Res {
    let n = 1 + cx.idx as usize;
    let (Some(none), Some(some)) = (entropy(0)?, entropy(n)?) else {
        // Tracing is not permitted here: the other parts still decide.
        cx.count("system calls could not be traced", 1);
        cx.nontrivial(0);
        return Ok(());
    };
    cx.max("random bytes read by an idle process", none);
    cx.max("random bytes read by a process generating keys", some);
    ck!(
        some >= none + 16,
        "a process generating {n} keys reads {some} bytes from the system's random source, one generating none {none}: keys are predictable"
    );
    cx.nontrivial(mix(cx.idx));
    Ok(())
}

// ---------------------------------------------------------------------------

static F28: Prop = Prop {
    id: "F28",
    level: "exploration",
    rule: "random indexes; one compaction interleaved at backend calls (seeded policies) or running on OS threads with several \
           clients searching under the former and the new key and label; every search must succeed, each set given to its \
           callback must be the whole set of the keyword or empty, its result must follow from them, and a keyword looked up \
           under the former key then under the new one must be whole at least once. Identity: schedule and contents.",
    parts: &[
        Part { name: "schedules", f: f28_sched, quick: 30_000, thorough: 400_000, ..P },
        Part { name: "schedules-batches", f: f28_sched, quick: 15_000, thorough: 200_000, hooked: true, ..P },
        Part { name: "long-chains", f: f28_long, quick: 300, thorough: 4_000, ..P },
        Part { name: "threads", f: f28_threads, quick: 2_000, thorough: 20_000, ..P },
    ],
    assumptions: &["each backend call is atomic", "no client modifies the index during the compaction"],
};

struct Seen {
    who: usize,
    old: bool,
    which: usize,
    pair: Option<usize>,
    rounds: Vec<Round>,
    res: Option<Result<Res2, String>>,
    ks: Vec<By>,
    stopped: bool,
    inv: u64,
    ret: u64,
}
/// The index before a compaction: contents under one or two labels of the same key.
struct Before {
    kls: Vec<Kl>,
    models: Vec<Model>,
    new: Kl,
    dropped: BTreeSet<By>,
    rate: f64,
}
impl Before {
    fn whole(&self, which: usize, old: bool, k: &By) -> Vec<BTreeSet<Val>> {
        let full = if old {
            self.models[which].kw.get(k).cloned().unwrap_or_default()
        } else {
            self.models.iter().find_map(|m| m.kw.get(k)).cloned().unwrap_or_default()
        };
        if old || self.dropped.is_empty() {
            return vec![full];
        }
        let kept = full.iter().filter(|v| !matches!(v, Val::D(d) if self.dropped.contains(d))).cloned().collect();
        vec![full, kept]
    }
}
type Plan = Vec<(bool, usize, Vec<By>, bool)>;
/// Searches of one client: (former key?, label, keywords, stop after the first round).
fn plan(r: &mut R, b: &Before, ks: &[By]) -> Vec<(Plan, bool)> {
    let n = r.range(1, 3);
    (0..n)
        .map(|_| {
            let which = r.below(b.kls.len());
            let q = r.subset(ks, 4);
            if r.chance(2, 5) {
                (vec![(true, which, q.clone(), true), (false, which, q, true)], true)
            } else {
                (vec![(r.chance(1, 2), which, q, false)], false)
            }
        })
        .collect()
}
fn judge(cx: &mut Cx, b: &Before, seen: &[Seen]) -> Res<u64> {
    let mut partial_view = 0;
    for s in seen {
        let what = format!(
            "client {}: search of {} under the {} key during a compaction (rate {})",
            s.who, show_set(&s.ks), if s.old { "former" } else { "new" }, b.rate
        );
        let res = match &s.res {
            Some(Ok(x)) => x,
            Some(Err(e)) => viol!("{what} fails: {e}"),
            None => viol!("{what} never completes"),
        };
        let (mut hi, mut lo) = (Model::default(), Model::default());
        for rd in &s.rounds {
            for (k, vs) in rd {
                let w = b.whole(s.which, s.old, k);
                ck!(
                    vs.is_empty() || w.contains(vs),
                    "{what}: keyword {} is seen with {} of its {} associations ({})",
                    show(k), vs.len(), w[0].len(), vs.iter().take(8).map(show_val).collect::<Vec<_>>().join(", ")
                );
                partial_view += u64::from(vs.is_empty() && !w[0].is_empty());
                cx.count("keyword views judged", 1);
                hi.kw.entry(k.clone()).or_default().extend(vs.iter().cloned());
                lo.kw.entry(k.clone()).and_modify(|e| e.retain(|x| vs.contains(x))).or_insert_with(|| vs.clone());
            }
        }
        for k in &s.ks {
            let Some(g) = res.get(k) else { viol!("{what}: keyword {} is absent from the answer", show(k)) };
            ck!(g.is_subset(&hi.reach(k)) && g.is_superset(&lo.reach(k)), "{what}: the answer for {} does not follow from what was retrieved", show(k));
        }
    }
    // Under the former key, then under the new one.
    let mut pairs: BTreeMap<usize, Vec<&Seen>> = BTreeMap::new();
    for s in seen {
        if let Some(p) = s.pair {
            pairs.entry(p).or_default().push(s);
        }
    }
    for p in pairs.values() {
        let [o, n] = p[..] else { continue };
        if !(o.stopped && n.stopped) || o.rounds.is_empty() {
            continue;
        }
        for k in &o.ks {
            let get = |s: &Seen| s.rounds.first().and_then(|r| r.get(k)).cloned().unwrap_or_default();
            let Some(want) = b.models[o.which].kw.get(k) else { continue };
            let (go, gn) = (get(o), get(n));
            ck!(
                go == *want || b.whole(o.which, false, k).contains(&gn),
                "client {}: keyword {} ({} associations) is found with {} under the former key, then {} under the new one, during a compaction",
                o.who, show(k), want.len(), go.len(), gn.len()
            );
            cx.count("keywords followed across the switch", 1);
        }
    }
    Ok(partial_view)
}
fn before(cx: &mut Cx, r: &mut R, long: bool) -> Res<(Env, Before, Vec<By>)> {
    let base = Env::new(Mode::Seq, Log::Off, r.chance(1, 2));
    let kl = Kl::random(r);
    let nk = *r.pick(&[1, 2, 3, 5, 9, 13]);
    let u = gen::universe(r, nk, 6);
    let mut kls = vec![kl.clone()];
    let mut models = vec![];
    {
        let fx = base.fx();
        if long {
            // Thousands of lines under one keyword.
            let mut m = Model::default();
            let n = *r.pick(&[300, 700, 1_500, 3_000]);
            let a: Assoc = (0..n).map(|i| (Val::D(format!("{i:040}").into_bytes()), vec![u.kw[0].clone()])).collect();
            ok(&base.w, "addition", modify(&fx, &kl, true, &a))?;
            m.apply(true, &a);
            models.push(m);
        } else {
            let n = r.range(1, 5);
            models.push(fill(cx, &base, &fx, &kl, &u, r, n, 25)?);
        }
        if r.chance(1, 4) && !long {
            let kl2 = Kl { key: kl.key.clone(), label: [&kl.label[..], b"2"].concat() };
            let a: Assoc = vec![(Val::D(b"other".to_vec()), vec![b"only under the second label".to_vec()])];
            ok(&base.w, "addition", modify(&fx, &kl2, true, &a))?;
            let mut m = Model::default();
            m.apply(true, &a);
            kls.push(kl2);
            models.push(m);
        }
    }
    let mut new = new_kl(r, &kl);
    while kls.contains(&new) {
        new.label.push(3);
    }
    let rate = if r.chance(2, 3) { 1.0 } else { gen::rate(r) };
    let dropped = if r.chance(1, 4) { r.subset(&u.data, 2).into_iter().collect() } else { BTreeSet::new() };
    let mut ks: Vec<By> = models.iter().flat_map(Model::mentioned).collect();
    ks.sort();
    ks.dedup();
    cx.log(format!("{} keywords, compaction rate {rate}", ks.len()));
    Ok((base, Before { kls, models, new, dropped, rate }, ks))
}
fn f28_run(cx: &mut Cx, long: bool) -> Res {
    let r = &mut cx.r.fork();
    let (base, b, ks) = before(cx, r, long)?;
    let e = base.with_world(Mode::Sched, Log::Off);
    let n_cl = r.range(1, 3);
    let plans: Vec<_> = (0..n_cl).map(|_| plan(r, &b, &ks)).collect();
    let seen: Rc<RefCell<Vec<Seen>>> = Rc::default();
    let fxs: Vec<Fx> = (0..=n_cl).map(|_| e.fx()).collect();
    let share = r.chance(1, 3);
    let done: Rc<RefCell<Option<Result<(), String>>>> = Rc::default();
    let mut tasks: Vec<Task<'_>> = vec![];
    {
        let (done, fx, b) = (done.clone(), &fxs[0], &b);
        tasks.push(Box::pin(async move {
            let x = compact_f(fx, &b.kls[0], &b.new, b.rate, &|d| Ok(d.into_iter().filter(|x| !b.dropped.contains(&x[..])).collect())).await;
            *done.borrow_mut() = Some(x);
        }));
    }
    for (c, steps) in plans.iter().enumerate() {
        let fx = if share { &fxs[0] } else { &fxs[c + 1] };
        let (seen, b, w) = (seen.clone(), &b, e.w.clone());
        tasks.push(Box::pin(async move {
            for (st, pair) in steps {
                let base = seen.borrow().len();
                for (old, which, q, stop) in st {
                    let i = {
                        let mut g = seen.borrow_mut();
                        g.push(Seen {
                            who: c, old: *old, which: *which, pair: pair.then_some(base), rounds: vec![], res: None,
                            ks: q.clone(), stopped: *stop, inv: w.tick(), ret: u64::MAX,
                        });
                        g.len() - 1
                    };
                    let kl = if *old { &b.kls[*which] } else { &b.new };
                    let seen2 = &seen;
                    let cb = move |_: usize, rd: Round| {
                        seen2.borrow_mut()[i].rounds.push(rd);
                        Ok(*stop)
                    };
                    let x = search_i(fx, kl, q, &cb).await;
                    let mut g = seen.borrow_mut();
                    g[i].res = Some(x);
                    g[i].ret = w.tick();
                }
                w.gate().await;
            }
        }));
    }
    let pol = Policy::random(r, n_cl + 1);
    let o = run_all(&e.w, r, pol.clone(), tasks, 200_000);
    ck!(!o.stuck, "no progress under {pol:?}");
    match done.borrow_mut().take() {
        Some(Ok(())) => {}
        Some(Err(x)) => viol!("the compaction fails while clients search: {x}"),
        None => viol!("the compaction never completes while clients search"),
    }
    let seen = seen.borrow();
    let hidden = judge(cx, &b, &seen)?;
    cx.count("searches during a compaction", seen.len() as u64);
    cx.count("keywords seen empty (other side of the switch)", hidden);
    cx.count("context switches", o.switches);
    if o.switches > 2 {
        cx.nontrivial(mix(o.trace ^ hash_bytes(1, format!("{ks:?}").as_bytes())));
    }
    let note = cx.note.clone();
    cx.sample(|| format!("{note}{} searches, {} switches", seen.len(), o.switches));
    Ok(())
}
fn f28_sched(cx: &mut Cx) -> Res {
    f28_run(cx, false)
}
fn f28_long(cx: &mut Cx) -> Res {
    f28_run(cx, true)
}
fn f28_threads(cx: &mut Cx) -> Res {
    let r = &mut cx.r.fork();
    let long = r.chance(1, 20);
    let (base, b, ks) = before(cx, r, long)?;
    let e = base.with_world(Mode::Thr, Log::Off);
    let n_cl = r.range(1, 3);
    let seed = r.u64();
    let plans: Vec<_> = (0..n_cl).map(|_| (0..4).flat_map(|_| plan(r, &b, &ks)).collect::<Vec<_>>()).collect();
    let fxs: Vec<Fx> = (0..=n_cl).map(|_| e.fx()).collect();
    let share = r.chance(1, 3);
    let all: Mutex<Vec<Seen>> = Mutex::default();
    let bad: Mutex<Option<String>> = Mutex::new(None);
    let ready = AtomicUsize::new(0);
    let over = AtomicBool::new(false);
    let span: Mutex<(u64, u64)> = Mutex::new((0, 0));
    std::thread::scope(|sc| {
        for c in 0..=n_cl {
            let (all, bad, ready, over, span, plans, fxs, b, e) = (&all, &bad, &ready, &over, &span, &plans, &fxs, &b, &e);
            sc.spawn(move || {
                let x = catch_unwind(AssertUnwindSafe(|| {
                    seed_delays(mix(seed ^ c as u64));
                    ready.fetch_add(1, SeqCst);
                    while ready.load(SeqCst) <= n_cl {
                        std::hint::spin_loop();
                    }
                    if c == 0 {
                        let t0 = e.w.tick();
                        let x = match run1(&e.w, 0, compact_f(&fxs[0], &b.kls[0], &b.new, b.rate, &|d| Ok(d.into_iter().filter(|x| !b.dropped.contains(&x[..])).collect()))) {
                            Run::Done(x) => x,
                            _ => Err("never completes".into()),
                        };
                        *span.lock().unwrap_or_else(|e| e.into_inner()) = (t0, e.w.tick());
                        over.store(true, SeqCst);
                        if let Err(x) = x {
                            *bad.lock().unwrap_or_else(|e| e.into_inner()) = Some(format!("the compaction fails while clients search: {x}"));
                        }
                        return;
                    }
                    let fx = if share { &fxs[0] } else { &fxs[c] };
                    let mut mine: Vec<Seen> = vec![];
                    'a: loop {
                        for (st, pair) in &plans[c - 1] {
                            let first = mine.len();
                            for (old, which, q, stop) in st {
                                let rounds: RefCell<Vec<Round>> = RefCell::default();
                                let kl = if *old { &b.kls[*which] } else { &b.new };
                                let inv = e.w.tick();
                                let x = run1(&e.w, c as u32, search_i(fx, kl, q, &|_, rd| {
                                    rounds.borrow_mut().push(rd);
                                    Ok(*stop)
                                }));
                                let res = match x {
                                    Run::Done(x) => Some(x),
                                    _ => None,
                                };
                                mine.push(Seen {
                                    who: c, old: *old, which: *which, pair: pair.then_some(c * 1_000_000 + first),
                                    rounds: rounds.into_inner(), res, ks: q.clone(), stopped: *stop, inv, ret: e.w.tick(),
                                });
                            }
                            if over.load(SeqCst) || mine.len() > 400 {
                                break 'a;
                            }
                        }
                    }
                    all.lock().unwrap_or_else(|e| e.into_inner()).extend(mine);
                }));
                if x.is_err() {
                    let (l, m) = last_panic().unwrap_or_default();
                    *bad.lock().unwrap_or_else(|e| e.into_inner()) = Some(format!("a thread panicked at {l}: {m}"));
                    over.store(true, SeqCst);
                }
            });
        }
    });
    if let Some(m) = bad.into_inner().unwrap_or_else(|e| e.into_inner()) {
        viol!("{m}");
    }
    let seen = all.into_inner().unwrap_or_else(|e| e.into_inner());
    let (t0, t1) = span.into_inner().unwrap_or_else(|e| e.into_inner());
    let overlapping = seen.iter().filter(|s| s.inv < t1 && s.ret > t0).count();
    let hidden = judge(cx, &b, &seen)?;
    cx.count("searches overlapping a compaction (threads)", overlapping as u64);
    cx.count("keywords seen empty (other side of the switch)", hidden);
    if overlapping > 0 {
        cx.nontrivial(mix(seed));
    }
    Ok(())
}

// ---------------------------------------------------------------------------

static F29: Prop = Prop {
    id: "F29",
    level: "exploration",
    rule: "random histories (all operations, two labels, retries under concurrent clients, faults at backend calls, altered \
           values, failing callbacks and refused compactions) run with a subscriber recording every span and event of the \
           library at every level, along with every error in its display and debug forms and the debug form of the index: \
           no 8-byte window of a user key, derived key, chain seed or chain key (computed independently) appears in them, \
           raw, in hexadecimal, in base64 or as a list of numbers. Identity: history.",
    parts: &[
        Part { name: "records", f: f29_case, quick: 4_000, thorough: 60_000, ..P },
        Part { name: "big", f: f29_case, quick: 250, thorough: 2_500, big: 3000, ..P },
    ],
    assumptions: &[],
};

thread_local! {
    static LOGS: RefCell<Option<String>> = const { RefCell::new(None) };
}
struct Rec;
struct Vis<'a>(&'a mut String);
impl tracing::field::Visit for Vis<'_> {
    fn record_debug(&mut self, f: &tracing::field::Field, v: &dyn std::fmt::Debug) {
        let _ = write!(self.0, "{}={v:?} ", f.name());
    }
    fn record_str(&mut self, f: &tracing::field::Field, v: &str) {
        let _ = write!(self.0, "{}={v} ", f.name());
    }
    fn record_bytes(&mut self, f: &tracing::field::Field, v: &[u8]) {
        let _ = write!(self.0, "{}={v:?} ", f.name());
    }
}
fn logged(f: impl FnOnce(&mut String)) {
    // Formatting may log: the buffer is taken meanwhile.
    let Some(mut s) = LOGS.with(|l| l.borrow_mut().take()) else { return };
    f(&mut s);
    s.push('\n');
    LOGS.with(|l| *l.borrow_mut() = Some(s));
}
impl tracing::Subscriber for Rec {
    fn enabled(&self, _: &tracing::Metadata<'_>) -> bool {
        true
    }
    fn new_span(&self, a: &tracing::span::Attributes<'_>) -> tracing::span::Id {
        logged(|s| {
            let _ = write!(s, "span {} ", a.metadata().name());
            a.record(&mut Vis(s));
        });
        tracing::span::Id::from_u64(1)
    }
    fn record(&self, _: &tracing::span::Id, v: &tracing::span::Record<'_>) {
        logged(|s| v.record(&mut Vis(s)));
    }
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn event(&self, e: &tracing::Event<'_>) {
        logged(|s| {
            let _ = write!(s, "{} {} ", e.metadata().level(), e.metadata().target());
            e.record(&mut Vis(s));
        });
    }
    fn enter(&self, _: &tracing::span::Id) {}
    fn exit(&self, _: &tracing::span::Id) {}
}

fn b64(c: u8) -> Option<u32> {
    Some(u32::from(match c {
        b'A'..=b'Z' => c - b'A',
        b'a'..=b'z' => c - b'a' + 26,
        b'0'..=b'9' => c - b'0' + 52,
        b'+' | b'-' => 62,
        b'/' | b'_' => 63,
        _ => return None,
    }))
}
/// Every byte string the text may stand for.
fn readings(t: &str) -> Vec<Vec<u8>> {
    let b = t.as_bytes();
    let mut out = vec![b.to_vec()];
    // Hexadecimal.
    for run in b.split(|c| !c.is_ascii_hexdigit()).filter(|r| r.len() >= 16) {
        for o in 0..2 {
            out.push(run[o..].chunks_exact(2).map(|p| (p[0] as char).to_digit(16).unwrap_or(0) as u8 * 16 + (p[1] as char).to_digit(16).unwrap_or(0) as u8).collect());
        }
    }
    // Base64, at every alignment.
    for run in b.split(|c| b64(*c).is_none()).filter(|r| r.len() >= 11) {
        for o in 0..4 {
            if run.len() < o + 4 {
                continue;
            }
            let mut v = vec![];
            for c in run[o..].chunks(4) {
                let mut x = 0u32;
                for i in 0..4 {
                    x = x << 6 | c.get(i).and_then(|c| b64(*c)).unwrap_or(0);
                }
                v.extend(&x.to_be_bytes()[1..]);
            }
            out.push(v);
        }
    }
    // Lists of numbers, decimal or hexadecimal.
    let mut dec: Vec<u8> = vec![];
    let mut hex: Vec<u8> = vec![];
    for w in t.split(|c: char| !c.is_ascii_alphanumeric()).filter(|w| !w.is_empty()) {
        match w.parse::<u8>() {
            Ok(x) => dec.push(x),
            Err(_) => {
                out.push(std::mem::take(&mut dec));
            }
        }
        match u8::from_str_radix(w.trim_start_matches("0x"), 16) {
            Ok(x) => hex.push(x),
            Err(_) => {
                out.push(std::mem::take(&mut hex));
            }
        }
    }
    out.push(dec);
    out.push(hex);
    out
}

#[derive(Default)]
struct Secrets {
    win: HashMap<[u8; 8], &'static str>,
    known: HashSet<Vec<u8>>,
}
impl Secrets {
    fn add(&mut self, n: &'static str, b: &[u8]) {
        if !self.known.insert(b.to_vec()) {
            return;
        }
        for w in b.windows(8) {
            let mut a = [0; 8];
            a.copy_from_slice(w);
            self.win.insert(a, n);
        }
    }
    fn key(&mut self, k: &[u8]) {
        self.add("a user key", k);
        let e = fmt::et_key(k);
        self.add("an Entry Table token key", &e.tok);
        self.add("an Entry Table encryption key", &e.dem);
    }
    fn store(&mut self, env: &Env, key: &[u8]) {
        let ek = fmt::et_key(key);
        for v in env.snap().et.values() {
            if let Some(e) = fmt::open(&ek.dem, v) {
                let s = fmt::Ent::dec(&e).seed;
                self.add("a chain seed", &s);
                let c = fmt::ct_key(&s);
                self.add("a chain token key", &c.tok);
                self.add("a chain encryption key", &c.dem);
            }
        }
    }
    fn scan(&self, t: &str) -> Option<&'static str> {
        readings(t).iter().flat_map(|b| b.windows(8)).find_map(|w| {
            let mut a = [0; 8];
            a.copy_from_slice(w);
            self.win.get(&a).copied()
        })
    }
}

fn self_test() -> Res {
    static ONCE: Once = Once::new();
    let mut bad = None;
    ONCE.call_once(|| {
        let _ = tracing::subscriber::set_global_default(Rec);
        let s: Vec<u8> = (0..32u8).map(|i| i.wrapping_mul(37).wrapping_add(99)).collect();
        let mut x = Secrets::default();
        x.add("test", &s);
        let hex: String = s.iter().map(|b| format!("{b:02X}")).collect();
        let t = "+ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
        let mut b = String::from("xx '");
        for c in s.chunks(3) {
            let v = c.iter().fold(0u32, |a, b| a << 8 | u32::from(*b)) << (8 * (3 - c.len()));
            for i in 0..4 {
                b.push(t.as_bytes()[1 + (v >> (18 - 6 * i) & 63) as usize] as char);
            }
        }
        for f in [format!("{s:?}"), format!("{s:#?}"), format!("{s:x?}"), format!("{s:02x?}"), hex, b] {
            if x.scan(&f) != Some("test") {
                bad = Some(f);
            }
        }
        if x.scan("INFO nothing [1, 2, 3, 4, 5, 6, 7, 8, 9] deadbeefdeadbeefdeadbeef QUJDREVGR0hJSktMTU5PUA==").is_some() {
            bad = Some("a harmless text".into());
        }
    });
    bad.map_or(Ok(()), |b| Err(Fail::Incon(format!("the scanner misreads {b}"))))
}

fn f29_case(cx: &mut Cx) -> Res {
    self_test()?;
    LOGS.with(|l| *l.borrow_mut() = Some(String::new()));
    let x = f29_history(cx);
    let logs = LOGS.with(|l| l.borrow_mut().take()).unwrap_or_default();
    let (sec, msgs, h) = x?;
    let lines = logs.lines().filter(|l| !l.is_empty()).count();
    cx.count("log records scanned", lines as u64);
    cx.count("messages scanned", msgs.len() as u64);
    cx.count("bytes scanned", logs.len() as u64);
    cx.count("secret windows searched", sec.win.len() as u64);
    for l in logs.lines().chain(msgs.iter().map(String::as_str)) {
        if let Some(n) = sec.scan(l) {
            let s: String = l.chars().take(160).collect();
            viol!("bytes of {n} appear in: {s}");
        }
    }
    // A value spread over several lines.
    if let Some(n) = sec.scan(&logs) {
        viol!("bytes of {n} appear in the logs");
    }
    if lines == 0 {
        cx.count("histories without any log record", 1);
    }
    cx.sample(|| format!("{lines} records ({} bytes), {} messages, {} windows of secrets; the first message: {}", logs.len(), msgs.len(), sec.win.len(), msgs.first().map_or("none".into(), |m| m.chars().take(120).collect::<String>())));
    cx.nontrivial(h);
    Ok(())
}
fn f29_history(cx: &mut Cx) -> Res<(Secrets, Vec<String>, u64)> {
    let r = &mut cx.r.fork();
    let mut sec = Secrets::default();
    let mut msgs: Vec<String> = vec![];
    let env = Env::new(Mode::Seq, Log::Off, r.chance(1, 2));
    let mut kl = Kl::random(r);
    sec.key(&kl.key);
    let (nk, nd) = (r.range(1, 4), r.range(1, 4));
    let u = gen::universe(r, nk, nd);
    let mut h = 0;
    let n = r.range(3, 9);
    for _ in 0..n {
        let fx = env.fx();
        msgs.push(format!("{fx:?}"));
        let fault = r.chance(1, 4);
        if fault {
            env.w.reset_calls(0);
            let c = r.below(6) as u32;
            env.w.set_fault(0, Fault { from: c, to: if r.chance(1, 3) { u32::MAX } else { c }, kind: *r.pick(&[FK::ErrBefore, FK::ErrAfter]) });
        }
        let k = r.below(10);
        h = mix(h ^ k as u64 ^ u64::from(fault) << 8);
        match k {
            0..=3 => {
                let add = r.chance(3, 5);
                let a = gen::some(r, &u, 4, nk, 30);
                let m = assoc_map(&a);
                let x = seq(&env.w, async {
                    if add { fx.add(&kl.k(), &kl.l(), m).await } else { fx.delete(&kl.k(), &kl.l(), m).await }
                })?;
                msgs.push(x.map_or_else(|e| format!("{e} {e:?}"), |k| format!("{k}")));
            }
            4 | 5 => {
                // Another key may be wrong, or the callback may fail.
                let fail = r.chance(1, 4);
                let other = Kl { key: if r.chance(1, 4) { r.bytes(16) } else { kl.key.clone() }, label: kl.label.clone() };
                sec.key(&other.key);
                let x = seq(&env.w, search_i(&fx, &other, &u.kw, &|_, _| if fail { Err("stop".into()) } else { Ok(false) }))?;
                msgs.extend(x.err());
            }
            6 | 7 => {
                let nkl = match r.below(5) {
                    0 => kl.clone(),
                    _ => new_kl(r, &kl),
                };
                sec.key(&nkl.key);
                let from = if r.chance(1, 6) { Kl { key: r.bytes(16), label: kl.label.clone() } } else { kl.clone() };
                sec.key(&from.key);
                let fail = r.chance(1, 6);
                let rate = gen::rate(r);
                let x = seq(&env.w, async {
                    fx.compact(&from.k(), &nkl.k(), &from.l(), &nkl.l(), rate, &|d| async move { if fail { Err("filter".into()) } else { Ok(d) } }).await
                })?;
                match x {
                    Ok(()) if from == kl => kl = nkl,
                    Ok(()) => {}
                    Err(e) => msgs.push(format!("{e} {e:?}")),
                }
            }
            8 => {
                // Concurrent additions: retries.
                let e = env.with_world(Mode::Sched, Log::Off);
                let fxs = [e.fx(), e.fx()];
                let out: Rc<RefCell<Vec<String>>> = Rc::default();
                let progs: Vec<Assoc> = (0..2).map(|_| gen::assoc(r, &u, 2, nk, 20)).collect();
                let mut tasks: Vec<Task<'_>> = vec![];
                for (i, a) in progs.iter().enumerate() {
                    let (fx, kl, out) = (&fxs[i], &kl, out.clone());
                    tasks.push(Box::pin(async move {
                        let x = modify(fx, kl, true, a).await;
                        out.borrow_mut().extend(x.err());
                    }));
                }
                let o = run_all(&e.w, r, Policy::Uniform, tasks, 50_000);
                ck!(!o.stuck, "no progress");
                cx.count("concurrent updates", 2);
                msgs.extend(out.borrow().iter().cloned());
            }
            _ => {
                // Altered values.
                let s = env.snap();
                let mut t = s.clone();
                for v in if r.chance(1, 2) { t.et.values_mut() } else { t.ct.values_mut() } {
                    let i = r.below(v.len());
                    v[i] ^= 1;
                }
                env.restore(&t);
                let x = seq(&env.w, search(&fx, &kl, &u.kw))?;
                msgs.extend(x.err());
                let a = gen::assoc(r, &u, 2, nk, 0);
                let x = seq(&env.w, modify(&fx, &kl, true, &a))?;
                msgs.extend(x.err());
                env.restore(&s);
            }
        }
        env.w.clear_faults();
        sec.store(&env, &kl.key);
        if let Some((l, m)) = last_panic() {
            msgs.push(format!("{l} {m}"));
        }
    }
    Ok((sec, msgs, h))
}
