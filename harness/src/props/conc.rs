//! Concurrent clients: F03, F04, F21.
use std::{
    cell::RefCell,
    future::Future as _,
    collections::{BTreeMap, BTreeSet, HashMap},
    panic::{catch_unwind, AssertUnwindSafe},
    rc::Rc,
    sync::{
        atomic::{AtomicUsize, Ordering::SeqCst},
        Mutex,
    },
};

use super::seqp::new_kl;
use crate::{
    ck, fmt, gen,
    ix::*,
    lin::{self, Act, Verdict, H},
    mondb::{seed_delays, tok, Ev, Log, Mode, Op, Tb},
    rng::{hash_bytes, mix, R},
    run::{last_panic, must, ok, Cx, Fail, Part, Prop, Res, P},
    sched::{run1, run_all, Policy, Run, Task},
    viol,
};

pub static PROPS: [&Prop; 3] = [&F03, &F04, &F21];

/// One program step of a client.
#[derive(Clone, Debug)]
pub enum St {
    Mod(bool, Assoc),
    Find(Vec<By>),
}
#[derive(Clone, Debug)]
pub enum Out {
    New(BTreeSet<By>),
    Found(Res2),
}
#[derive(Clone, Debug)]
pub struct Rec {
    pub who: u32,
    pub st: St,
    pub inv: u64,
    pub ret: u64,
    pub res: Option<Result<Out, String>>,
}
pub fn show_st(s: &St) -> String {
    match s {
        St::Mod(true, a) => format!("add {}", show_assoc(a)),
        St::Mod(false, a) => format!("delete {}", show_assoc(a)),
        St::Find(k) => format!("search {}", show_set(k)),
    }
}
async fn step(fx: &Fx, kl: &Kl, s: &St) -> Result<Out, String> {
    match s {
        St::Mod(add, a) => modify(fx, kl, *add, a).await.map(Out::New),
        St::Find(k) => search(fx, kl, k).await.map(Out::Found),
    }
}

pub struct Ran {
    pub h: Vec<Rec>,
    pub trace: u64,
    pub switches: u64,
}

/// Runs the programs under the deterministic scheduler.
pub fn run_sched(e: &Env, kl: &Kl, r: &mut R, progs: &[Vec<St>], share: bool, max: u64) -> Res<Ran> {
    let hist: Rc<RefCell<Vec<Rec>>> = Rc::default();
    let shared = e.fx();
    let own: Vec<Fx> = progs.iter().map(|_| e.fx()).collect();
    let mut tasks: Vec<Task<'_>> = vec![];
    for (c, prog) in progs.iter().enumerate() {
        let fx = if share { &shared } else { &own[c] };
        let (w, hist) = (e.w.clone(), hist.clone());
        tasks.push(Box::pin(async move {
            for s in prog {
                let i = hist.borrow().len();
                hist.borrow_mut().push(Rec { who: c as u32, st: s.clone(), inv: w.tick(), ret: u64::MAX, res: None });
                let res = step(fx, kl, s).await;
                let mut g = hist.borrow_mut();
                g[i].ret = w.tick();
                g[i].res = Some(res);
                drop(g);
                w.gate().await;
            }
        }));
    }
    let pol = Policy::random(r, progs.len());
    let o = run_all(&e.w, r, pol.clone(), tasks, max);
    let h = hist.borrow().clone();
    if o.stuck {
        let d: Vec<String> = h.iter().filter(|x| x.res.is_none()).map(|x| format!("client {}: {}", x.who, show_st(&x.st))).collect();
        viol!("clients make no progress after {max} scheduler steps ({pol:?}): {}", d.join(" | "));
    }
    Ok(Ran { h, trace: o.trace, switches: o.switches })
}

/// Runs the programs on OS threads.
pub fn run_threads(e: &Env, kl: &Kl, r: &mut R, progs: &[Vec<St>], share: bool) -> Res<Ran> {
    let shared = e.fx();
    let ready = AtomicUsize::new(0);
    let n = progs.len();
    let seed = r.u64();
    let bad: Mutex<Option<String>> = Mutex::new(None);
    let hs: Mutex<Vec<Rec>> = Mutex::default();
    std::thread::scope(|sc| {
        for (c, prog) in progs.iter().enumerate() {
            let (shared, ready, bad, hs) = (&shared, &ready, &bad, &hs);
            sc.spawn(move || {
                let x = catch_unwind(AssertUnwindSafe(|| {
                    seed_delays(mix(seed ^ c as u64));
                    let own = e.fx();
                    let fx = if share { shared } else { &own };
                    ready.fetch_add(1, SeqCst);
                    while ready.load(SeqCst) < n {
                        std::hint::spin_loop();
                    }
                    let mut mine = vec![];
                    for s in prog {
                        let inv = e.w.tick();
                        let res = match run1(&e.w, c as u32, step(fx, kl, s)) {
                            Run::Done(x) => x,
                            Run::Crashed | Run::Stuck => Err("never completes".into()),
                        };
                        mine.push(Rec { who: c as u32, st: s.clone(), inv, ret: e.w.tick(), res: Some(res) });
                    }
                    hs.lock().unwrap_or_else(|e| e.into_inner()).extend(mine);
                }));
                if x.is_err() {
                    let (l, m) = last_panic().unwrap_or_default();
                    *bad.lock().unwrap_or_else(|e| e.into_inner()) = Some(format!("{l}: {m}"));
                }
            });
        }
    });
    if let Some(m) = bad.into_inner().unwrap_or_else(|e| e.into_inner()) {
        viol!("a thread panicked at {m}");
    }
    let mut h = hs.into_inner().unwrap_or_else(|e| e.into_inner());
    h.sort_by_key(|x| x.inv);
    let mut trace = 0;
    let mut sw = 0;
    let mut evs: Vec<(u64, u32)> = h.iter().flat_map(|x| [(x.inv, x.who), (x.ret, x.who)]).collect();
    evs.sort_unstable();
    for w in evs.windows(2) {
        if w[0].1 != w[1].1 {
            sw += 1;
        }
        trace = mix(trace ^ u64::from(w[1].1 + 1));
    }
    Ok(Ran { h, trace, switches: sw })
}

fn all_ok(h: &[Rec]) -> Res {
    for x in h {
        match &x.res {
            Some(Err(e)) => viol!("client {} {} fails because of concurrent clients: {e}", x.who, show_st(&x.st)),
            None => viol!("client {} {} never completes", x.who, show_st(&x.st)),
            _ => {}
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------

static F03: Prop = Prop {
    id: "F03",
    level: "exploration",
    rule: "random histories (several labels, deletions of unknown keywords, compactions that drop keywords): what each \
           operation reports as new is compared with the lines stored before it, looked up by an independent reader; \
           concurrent clients under a seeded scheduler and on threads: each absent keyword is reported exactly once. \
           Identity: history, or schedule trace.",
    parts: &[
        Part { name: "history", f: f03_history, quick: 60_000, thorough: 600_000, ..P },
        Part { name: "big-history", f: f03_history, quick: 250, thorough: 2_500, big: 3000, ..P },
        Part { name: "schedules", f: f03_sched, quick: 60_000, thorough: 600_000, ..P },
        Part { name: "big-schedules", f: f03_sched, quick: 250, thorough: 2_500, big: 3000, ..P },
        Part { name: "threads", f: f03_threads, quick: 3_000, thorough: 30_000, ..P },
    ],
    assumptions: &["backend calls are atomic"],
};

fn f03_history(cx: &mut Cx) -> Res {
    let r = &mut cx.r.fork();
    let env = Env::new(Mode::Seq, Log::Off, r.chance(1, 2));
    let fx = env.fx();
    let nk = r.range(1, 6);
    let u = gen::universe(r, nk, 5);
    let mut kls = vec![Kl::random(r)];
    if r.chance(1, 3) {
        // Another label of the same user, or another user.
        let mut k = Kl::random(r);
        if r.chance(1, 2) {
            k.key = kls[0].key.clone();
            if k == kls[0] {
                k.label.push(3);
            }
        }
        kls.push(k);
    }
    let single = kls.len() == 1;
    let mut h = 0;
    let (mut news, mut olds) = (0, 0);
    for i in 0..r.range(2, 14) {
        if single && r.chance(1, 5) {
            let nkl = new_kl(r, &kls[0]);
            let rate = gen::rate(r);
            let drop_all = r.chance(1, 4);
            cx.log(format!("compact rate {rate} drop {drop_all}"));
            h = hash_bytes(h, format!("c{rate}{drop_all}").as_bytes());
            ok(&env.w, "compaction", compact_f(&fx, &kls[0], &nkl, rate, &|d| Ok(if drop_all { Default::default() } else { d })))?;
            kls[0] = nkl;
            continue;
        }
        let kl = r.pick(&kls).clone();
        let add = r.chance(3, 5);
        let a = gen::assoc(r, &u, 3, 3, 15);
        h = hash_bytes(h, format!("{add}{a:?}").as_bytes());
        let s0 = env.et.snap();
        let ek = fmt::et_key(&kl.key);
        let tk = |k: &By| fmt::et_token(&ek, &fmt::tag_hash(k), &kl.label);
        let want: BTreeSet<By> = per_kw(&a).into_keys().filter(|k| !s0.contains_key(&tk(k))).collect();
        let got = ok(&env.w, "modification", modify(&fx, &kl, add, &a))?;
        let what = format!("operation {i} ({} {})", if add { "add" } else { "delete" }, show_assoc(&a));
        cx.log(format!("{what} -> {}", show_set(&got)));
        ck!(got == want, "{what} reported {} as new, the keywords without entry before it were {}", show_set(&got), show_set(&want));
        let s1 = env.et.snap();
        for k in per_kw(&a).keys() {
            ck!(s1.contains_key(&tk(k)), "{what}: keyword {} has no entry afterwards", show(k));
        }
        news += got.len();
        olds += per_kw(&a).len() - got.len();
    }
    cx.count("keywords reported as new", news as u64);
    cx.count("keywords not new", olds as u64);
    if news > 0 && olds > 0 {
        cx.nontrivial(h);
    }
    let note = cx.note.clone();
    cx.sample(|| note);
    Ok(())
}

fn mods_prog(r: &mut R, u: &gen::Uni, n_cl: usize, del: usize) -> Vec<Vec<St>> {
    (0..n_cl)
        .map(|_| {
            (0..r.range(1, 3))
                .map(|_| St::Mod(r.below(100) >= del, gen::assoc(r, u, 2, 3, 10)))
                .collect()
        })
        .collect()
}

fn f03_conc(cx: &mut Cx, threads: bool) -> Res {
    let r = &mut cx.r.fork();
    let e = Env::new(if threads { Mode::Thr } else { Mode::Sched }, if threads { Log::Off } else { Log::Shape }, r.chance(1, 2));
    let kl = Kl::random(r);
    let nk = r.range(1, 5);
    let u = gen::universe(r, nk, 4);
    let setup = e.with_world(Mode::Seq, Log::Off);
    let mut known: BTreeSet<By> = BTreeSet::new();
    if r.chance(1, 2) {
        let a = gen::assoc(r, &u, 1, 2, 0);
        known = per_kw(&a).into_keys().collect();
        ok(&setup.w, "initial addition", modify(&setup.fx(), &kl, true, &a))?;
    }
    let n_cl = r.range(2, 5);
    let progs = mods_prog(r, &u, n_cl, 30);
    let share = r.chance(1, 2);
    let ran = if threads { run_threads(&e, &kl, r, &progs, share)? } else { run_sched(&e, &kl, r, &progs, share, 50_000)? };
    all_ok(&ran.h)?;
    let mut reported: BTreeMap<By, Vec<u32>> = BTreeMap::new();
    let mut touched: BTreeSet<By> = BTreeSet::new();
    for x in &ran.h {
        cx.log(format!("client {} [{}..{}] {} -> {:?}", x.who, x.inv, x.ret, show_st(&x.st), x.res.as_ref().map(|r| r.as_ref().map(|o| if let Out::New(n) = o { show_set(n) } else { String::new() }))));
        if let (St::Mod(_, a), Some(Ok(Out::New(n)))) = (&x.st, &x.res) {
            let ks = per_kw(a);
            for k in n {
                ck!(ks.contains_key(k), "client {} {} reports keyword {} which it does not touch", x.who, show_st(&x.st), show(k));
                reported.entry(k.clone()).or_default().push(x.who);
            }
            touched.extend(ks.into_keys());
        }
    }
    for k in &touched {
        let by = reported.get(k).cloned().unwrap_or_default();
        if known.contains(k) {
            ck!(by.is_empty(), "keyword {} was already indexed and is reported as new by clients {by:?}", show(k));
        } else {
            ck!(by.len() == 1, "keyword {} is reported as new by {} operations (clients {by:?})", show(k), by.len());
        }
    }
    cx.count("operations", ran.h.len() as u64);
    cx.count("keywords reported as new", reported.len() as u64);
    cx.count("context switches", ran.switches);
    if ran.switches > n_cl as u64 {
        cx.nontrivial(hash_bytes(ran.trace, format!("{progs:?}").as_bytes()));
    }
    let note = cx.note.clone();
    cx.sample(|| note);
    Ok(())
}
fn f03_sched(cx: &mut Cx) -> Res {
    f03_conc(cx, false)
}
fn f03_threads(cx: &mut Cx) -> Res {
    f03_conc(cx, true)
}

// ---------------------------------------------------------------------------

static F04: Prop = Prop {
    id: "F04",
    level: "exploration",
    rule: "2 to 5 clients (sharing one index object or not) add, delete and search a few associations, interleaved at every \
           backend call by seeded random / priority / starving / bursty schedules, or on OS threads with random delays, over a \
           plain store and the in-memory store; the recorded history of every (keyword, value) is decided by a complete \
           linearizability checker, with a final search. Additions and searches over pointers are checked against what was \
           acknowledged before and invoked until then. Identity: schedule trace and programs.",
    parts: &[
        Part { name: "schedules", f: f04_sched, quick: 120_000, thorough: 1_500_000, ..P },
        Part { name: "big-schedules", f: f04_sched, quick: 250, thorough: 2_500, big: 3000, ..P },
        Part { name: "threads", f: f04_threads, quick: 6_000, thorough: 60_000, ..P },
        Part { name: "pointers", f: f04_graph, quick: 40_000, thorough: 400_000, ..P },
        Part { name: "many-keywords", f: f04_many, quick: 300, thorough: 3_000, ..P },
    ],
    assumptions: &["backend calls are atomic", "no concurrent compaction"],
};

/// Linearizability of each association.
pub fn check_lin(cx: &mut Cx, h: &[Rec], init: &Model, vals: &[Val], ks: &[By]) -> Res {
    let mut regs: BTreeMap<(&By, &Val), Vec<H>> = BTreeMap::new();
    let univ: BTreeSet<&Val> = vals.iter().collect();
    for x in h {
        match (&x.st, &x.res) {
            (St::Mod(add, a), res) => {
                let optional = !matches!(res, Some(Ok(_)));
                for (v, kk) in a {
                    for k in kk {
                        regs.entry((k, v)).or_default().push(H { act: Act::Write(*add), inv: x.inv, ret: if optional { u64::MAX } else { x.ret }, optional, who: x.who });
                    }
                }
            }
            (St::Find(q), Some(Ok(Out::Found(f)))) => {
                for k in f.keys() {
                    ck!(q.contains(k), "client {} {} answered keyword {} which was not queried", x.who, show_st(&x.st), show(k));
                }
                for k in q {
                    let Some(g) = f.get(k) else { viol!("client {} {}: keyword {} is absent from the answer", x.who, show_st(&x.st), show(k)) };
                    for d in g {
                        ck!(univ.contains(&Val::D(d.clone())), "client {} {} returned {} which nobody ever indexed", x.who, show_st(&x.st), show(d));
                    }
                    for v in vals {
                        if let Val::D(d) = v {
                            let seen = g.contains(d);
                            if let Some(k) = ks.iter().find(|x| *x == k) {
                                regs.entry((k, v)).or_default().push(H { act: Act::Read(seen), inv: x.inv, ret: x.ret, optional: false, who: x.who });
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
    for ((k, v), h) in regs {
        let i = init.kw.get(k).is_some_and(|s| s.contains(v));
        cx.count("register histories checked", 1);
        cx.max("operations in one register history", h.len() as u64);
        match lin::check(&h, i) {
            Verdict::Ok => {}
            Verdict::Inconclusive => return Err(Fail::Incon("history too large for the checker".into())),
            Verdict::Bad => {
                let d: Vec<String> = h.iter().map(|x| format!("client {} [{}..{}] {:?}", x.who, x.inv, x.ret, x.act)).collect();
                viol!("association ({}, {}), initially {i}: no sequential order explains {}", show(k), show_val(v), d.join("; "));
            }
        }
    }
    Ok(())
}

fn f04_conc(cx: &mut Cx, threads: bool) -> Res {
    if !lin::self_test() {
        return Err(Fail::Incon("the linearizability checker fails its self-test".into()));
    }
    let r = &mut cx.r.fork();
    let e = Env::new(if threads { Mode::Thr } else { Mode::Sched }, if threads { Log::Off } else { Log::Shape }, r.chance(1, 2));
    let kl = Kl::random(r);
    let (nk, nd) = (r.range(1, 3), r.range(1, 3));
    let u = gen::universe(r, nk, nd);
    let setup = e.with_world(Mode::Seq, Log::Off);
    let mut init = Model::default();
    for _ in 0..r.below(3) {
        let a = gen::assoc(r, &u, 2, nk, 0);
        ok(&setup.w, "initial addition", modify(&setup.fx(), &kl, true, &a))?;
        init.apply(true, &a);
    }
    let n_cl = r.range(2, 5);
    let reads = r.range(10, 60);
    // Unique values make lost and duplicated updates visible; shared ones make conflicts.
    let uniq = r.chance(1, 3);
    let mut vals: Vec<Val> = u.data.iter().map(|d| Val::D(d.clone())).collect();
    let mut progs: Vec<Vec<St>> = vec![];
    for c in 0..n_cl {
        let mut p = vec![];
        for j in 0..r.range(1, if threads { 5 } else { 4 }) {
            if r.below(100) < reads {
                p.push(St::Find(r.subset(&u.kw, nk)));
            } else if uniq {
                let v = Val::D(format!("client {c} value {j}").into_bytes());
                vals.push(v.clone());
                p.push(St::Mod(true, vec![(v.clone(), r.subset(&u.kw, nk))]));
                if r.chance(1, 3) {
                    p.push(St::Mod(false, vec![(v, r.subset(&u.kw, nk))]));
                }
            } else {
                p.push(St::Mod(r.chance(3, 5), gen::assoc(r, &u, 2, nk, 0)));
            }
        }
        progs.push(p);
    }
    let share = r.chance(1, 2);
    let mut ran = if threads { run_threads(&e, &kl, r, &progs, share)? } else { run_sched(&e, &kl, r, &progs, share, 100_000)? };
    // Final search by a fresh client.
    let after = e.with_world(Mode::Seq, Log::Off);
    let got = ok(&after.w, "final search", search(&after.fx(), &kl, &u.kw))?;
    let t = e.w.tick();
    ran.h.push(Rec { who: 99, st: St::Find(u.kw.clone()), inv: t, ret: t + 1, res: Some(Ok(Out::Found(got))) });
    for x in &ran.h {
        cx.log(format!("client {} [{}..{}] {} -> {}", x.who, x.inv, x.ret, show_st(&x.st), match &x.res {
            Some(Ok(Out::Found(f))) => f.iter().map(|(k, d)| format!("{}={}", show(k), show_set(d))).collect::<Vec<_>>().join(" "),
            Some(Ok(Out::New(n))) => format!("new {}", show_set(n)),
            o => format!("{o:?}"),
        }));
    }
    all_ok(&ran.h)?;
    check_lin(cx, &ran.h, &init, &vals, &u.kw)?;
    cx.count("operations", ran.h.len() as u64);
    cx.count("context switches", ran.switches);
    let writes = progs.iter().flatten().filter(|s| matches!(s, St::Mod(..))).count();
    if ran.switches > n_cl as u64 && writes > 1 {
        cx.nontrivial(hash_bytes(ran.trace, format!("{progs:?}").as_bytes()));
    }
    let note = cx.note.clone();
    cx.sample(|| note);
    Ok(())
}
fn f04_sched(cx: &mut Cx) -> Res {
    f04_conc(cx, false)
}
fn f04_threads(cx: &mut Cx) -> Res {
    f04_conc(cx, true)
}

/// Additions and searches over pointers: bounds on each answer.
fn f04_graph(cx: &mut Cx) -> Res {
    let r = &mut cx.r.fork();
    let e = Env::new(Mode::Sched, Log::Shape, r.chance(1, 2));
    let kl = Kl::random(r);
    let nk = r.range(2, 5);
    let ks: Vec<By> = (0..nk).map(|i| vec![b'k', i as u8]).collect();
    let n_cl = r.range(2, 4);
    let mut serial = 0u8;
    let mut progs = vec![];
    for _ in 0..n_cl {
        let mut p = vec![];
        for _ in 0..r.range(1, 4) {
            if r.chance(2, 5) {
                p.push(St::Find(r.subset(&ks, 2)));
            } else {
                let mut a: Assoc = vec![];
                for _ in 0..r.range(1, 2) {
                    let v = if r.chance(1, 2) {
                        Val::P(r.pick(&ks).clone())
                    } else {
                        serial += 1;
                        Val::D(vec![b'd', serial])
                    };
                    if !a.iter().any(|x| x.0 == v) {
                        a.push((v, r.subset(&ks, 2)));
                    }
                }
                p.push(St::Mod(true, a));
            }
        }
        progs.push(p);
    }
    let share = r.chance(1, 2);
    let ran = run_sched(&e, &kl, r, &progs, share, 100_000)?;
    all_ok(&ran.h)?;
    let mut seen = 0;
    for x in &ran.h {
        cx.log(format!("client {} [{}..{}] {} -> {:?}", x.who, x.inv, x.ret, show_st(&x.st), x.res));
        let (St::Find(q), Some(Ok(Out::Found(f)))) = (&x.st, &x.res) else { continue };
        let (mut lo, mut hi) = (Model::default(), Model::default());
        for y in &ran.h {
            if let St::Mod(true, a) = &y.st {
                if y.ret < x.inv {
                    lo.apply(true, a);
                }
                if y.inv < x.ret {
                    hi.apply(true, a);
                }
            }
        }
        for k in q {
            let Some(g) = f.get(k) else { viol!("keyword {} is absent from the answer", show(k)) };
            let (l, h) = (lo.reach(k), hi.reach(k));
            seen += g.len();
            let miss: Vec<By> = l.difference(g).cloned().collect();
            let extra: Vec<By> = g.difference(&h).cloned().collect();
            ck!(miss.is_empty(), "client {} {}: misses {} reachable by acknowledged additions", x.who, show_st(&x.st), show_set(&miss));
            ck!(extra.is_empty(), "client {} {}: returns {} not reachable by any addition so far", x.who, show_st(&x.st), show_set(&extra));
        }
    }
    // Nothing acknowledged is lost.
    let mut m = Model::default();
    for y in &ran.h {
        if let St::Mod(true, a) = &y.st {
            m.apply(true, a);
        }
    }
    let after = e.with_world(Mode::Seq, Log::Off);
    let got = ok(&after.w, "final search", search(&after.fx(), &kl, &ks))?;
    if let Some(d) = diff(&got, &m.expect(&ks)) {
        viol!("after all clients finished: {d}");
    }
    cx.count("searches during additions", ran.h.iter().filter(|x| matches!(x.st, St::Find(_))).count() as u64);
    cx.count("context switches", ran.switches);
    if ran.switches > n_cl as u64 && seen > 0 {
        cx.nontrivial(hash_bytes(ran.trace, format!("{progs:?}").as_bytes()));
    }
    let note = cx.note.clone();
    cx.sample(|| note);
    Ok(())
}

/// Wide operations over many common keywords: partial rejections.
fn f04_many(cx: &mut Cx) -> Res {
    let r = &mut cx.r.fork();
    let e = Env::new(Mode::Sched, Log::Shape, r.chance(1, 2));
    let kl = Kl::random(r);
    let ks: Vec<By> = (0..40).map(|i| format!("keyword {i}").into_bytes()).collect();
    let n_cl = r.range(3, 8);
    let mut m = Model::default();
    let mut progs = vec![];
    for c in 0..n_cl {
        let mut p = vec![];
        for j in 0..3 {
            let a: Assoc = vec![(Val::D(format!("{c}/{j}").into_bytes()), r.subset(&ks, 30))];
            m.apply(true, &a);
            p.push(St::Mod(true, a));
        }
        progs.push(p);
    }
    let share = r.chance(1, 2);
    let ran = run_sched(&e, &kl, r, &progs, share, 100_000)?;
    all_ok(&ran.h)?;
    let after = e.with_world(Mode::Seq, Log::Off);
    let got = ok(&after.w, "final search", search(&after.fx(), &kl, &ks))?;
    if let Some(d) = diff(&got, &m.expect(&ks)) {
        viol!("after all clients finished: {d}");
    }
    let rej: usize = e.w.log_take().iter().filter(|x| x.op == Op::Upsert).map(|x| x.n_out).sum();
    cx.count("rejected entries", rej as u64);
    if rej > 0 {
        cx.nontrivial(ran.trace);
    }
    Ok(())
}

// ---------------------------------------------------------------------------

static F21: Prop = Prop {
    id: "F21",
    level: "exploration",
    rule: "concurrent additions and deletions under seeded schedules with every request recorded; an offline checker follows \
           the entry of each keyword of each operation: accepted exactly once, submitted again only after a rejection, \
           rejections at most as many as the commits of others meanwhile, chain lines inserted exactly once, constant number \
           of calls when alone, all clients finish under every policy, a client which loses dozens of races in a row included. Identity: schedule trace and programs.",
    parts: &[
        Part { name: "schedules", f: f21_sched, quick: 60_000, thorough: 700_000, ..P },
        Part { name: "big-schedules", f: f21_sched, quick: 250, thorough: 2_500, big: 3000, ..P },
        Part { name: "alone", f: f21_alone, quick: 20_000, thorough: 200_000, ..P },
        Part { name: "big-alone", f: f21_alone, quick: 250, thorough: 2_500, big: 3000, ..P },
        Part { name: "contended", f: f21_hot, quick: 3_000, thorough: 30_000, ..P },
        Part { name: "starved", f: f21_starved, quick: 40, thorough: 400, ..P },
    ],
    assumptions: &["backend calls are atomic"],
};

fn check_trace(cx: &mut Cx, evs: &[Ev], h: &[Rec], kl: &Kl) -> Res<u64> {
    let ek = fmt::et_key(&kl.key);
    // Commits of each entry, in order of effect.
    let mut commits: HashMap<[u8; 32], Vec<(u64, u32)>> = HashMap::new();
    for e in evs {
        if e.tb == Tb::E && e.op == Op::Upsert && e.applied {
            let rej: BTreeSet<[u8; 32]> = e.out.iter().map(|x| tok(&x.0)).collect();
            for (t, _) in &e.news {
                if !rej.contains(&tok(t)) {
                    commits.entry(tok(t)).or_default().push((e.t, e.task));
                }
            }
        }
    }
    let mut retries = 0;
    for x in h {
        let St::Mod(_, a) = &x.st else { continue };
        let what = format!("client {} {}", x.who, show_st(&x.st));
        let mine: Vec<&Ev> = evs.iter().filter(|e| e.task == x.who && x.inv < e.t && e.t < x.ret).collect();
        let want: BTreeMap<[u8; 32], By> = per_kw(a).into_keys().map(|k| (fmt::et_token(&ek, &fmt::tag_hash(&k), &kl.label), k)).collect();
        let lines: usize = per_kw(a).values().map(|vs| lines_of(vs)).sum();
        let mut state: BTreeMap<[u8; 32], (u32, bool)> = BTreeMap::new();
        let mut rejections = 0usize;
        let mut upserts = 0usize;
        let mut ct: BTreeSet<[u8; 32]> = BTreeSet::new();
        let mut n_ct = 0;
        for e in &mine {
            match (e.tb, e.op) {
                (_, Op::Fetch) => {}
                (Tb::E, Op::Upsert) => {
                    upserts += 1;
                    let rej: BTreeSet<[u8; 32]> = e.out.iter().map(|x| tok(&x.0)).collect();
                    for (t, _) in &e.news {
                        let t = tok(t);
                        let Some(k) = want.get(&t) else { viol!("{what} writes an entry which is not one of its keywords'") };
                        let st = state.entry(t).or_insert((0, false));
                        ck!(!st.1, "{what} submits the entry of keyword {} again although it was accepted", show(k));
                        if rej.contains(&t) {
                            rejections += 1;
                        } else {
                            st.0 += 1;
                            st.1 = true;
                        }
                    }
                }
                (Tb::C, Op::Insert) => {
                    for (t, _) in &e.news {
                        n_ct += 1;
                        ck!(ct.insert(tok(t)), "{what} inserts the same chain line twice");
                    }
                }
                o => viol!("{what} makes the unexpected request {o:?}"),
            }
        }
        for (t, k) in &want {
            let n = state.get(t).map_or(0, |s| s.0);
            ck!(n == 1, "{what}: the entry of keyword {} was committed {n} times", show(k));
        }
        ck!(n_ct == lines, "{what} inserted {n_ct} chain lines instead of {lines}");
        let others: usize = want
            .keys()
            .map(|t| commits.get(t).map_or(0, |c| c.iter().filter(|(ts, who)| *who != x.who && x.inv < *ts && *ts < x.ret).count()))
            .sum();
        ck!(rejections <= others, "{what}: {rejections} entries were rejected while other clients committed {others} of them");
        ck!(upserts <= want.len() + others && mine.len() <= 6 + want.len() * 2 + 4 * others, "{what} made {} calls ({upserts} upserts) for {} keywords while other clients committed {others} of its entries", mine.len(), want.len());
        retries += rejections as u64;
        cx.max("rejections of one operation", rejections as u64);
    }
    Ok(retries)
}

fn f21_run(cx: &mut Cx, n_cl: usize, nk: usize, steps: usize) -> Res {
    let r = &mut cx.r.fork();
    let e = Env::new(Mode::Sched, Log::Full, r.chance(1, 2));
    let kl = Kl::random(r);
    let u = gen::universe(r, nk, 4);
    let setup = e.with_world(Mode::Seq, Log::Off);
    if r.chance(1, 2) {
        let a = gen::assoc(r, &u, 2, nk, 0);
        ok(&setup.w, "initial addition", modify(&setup.fx(), &kl, true, &a))?;
    }
    let mut progs = mods_prog(r, &u, n_cl, 30);
    for p in &mut progs {
        while p.len() < steps {
            p.push(St::Mod(r.chance(2, 3), gen::assoc(r, &u, 2, nk, 0)));
        }
    }
    let share = r.chance(1, 2);
    let max = 4_000 + 400 * (n_cl * n_cl * (steps + 3) * nk) as u64;
    let ran = run_sched(&e, &kl, r, &progs, share, max)?;
    for x in &ran.h {
        cx.log(format!("client {} [{}..{}] {} -> {}", x.who, x.inv, x.ret, show_st(&x.st), matches!(x.res, Some(Ok(_)))));
    }
    all_ok(&ran.h)?;
    let evs = e.w.log_take();
    let retries = check_trace(cx, &evs, &ran.h, &kl)?;
    cx.count("operations followed", ran.h.len() as u64);
    cx.count("backend requests checked", evs.len() as u64);
    cx.count("rejected entries", retries);
    if retries > 0 {
        cx.nontrivial(hash_bytes(ran.trace, format!("{progs:?}").as_bytes()));
    }
    let note = cx.note.clone();
    cx.sample(|| note);
    Ok(())
}
fn f21_sched(cx: &mut Cx) -> Res {
    let (n, k) = (2 + cx.idx as usize % 4, 1 + cx.idx as usize / 4 % 5);
    f21_run(cx, n, k, 0)
}
fn f21_hot(cx: &mut Cx) -> Res {
    let (n, k) = (8 + cx.idx as usize % 9, 1 + cx.idx as usize % 2);
    f21_run(cx, n, k, 3)
}

/// One operation, between any two calls of which another client modifies
/// some of its entries, many times in a row.
fn f21_starved(cx: &mut Cx) -> Res {
    let r = &mut cx.r.fork();
    let e = Env::new(Mode::Sched, Log::Full, r.chance(1, 2));
    let kl = Kl::random(r);
    let other = e.with_world(Mode::Seq, Log::Off);
    let (fx, ofx) = (e.fx(), other.fx());
    let gaps = [30, 300, 1_100, 5_000][cx.idx as usize % 4];
    let nk = [1, 1, 2, 4][cx.idx as usize / 4 % 4];
    let ks: Vec<By> = (0..nk).map(|i| format!("k{i}").into_bytes()).collect();
    let mut m = Model::default();
    let first: Assoc = vec![(Val::D(b"mine 0".to_vec()), ks.clone()), (Val::D(b"other".to_vec()), vec![ks[0].clone()])];
    if r.chance(1, 2) {
        ok(&other.w, "initial addition", modify(&ofx, &kl, true, &first))?;
        m.apply(true, &first);
    }
    let add = r.chance(2, 3);
    let mine: Assoc = (0..r.range(1, 7)).map(|i| (Val::D(format!("mine {i}").into_bytes()), ks.clone())).collect();
    let inv = e.w.tick();
    let (mut left, mut commits) = (gaps, 0usize);
    let res = {
        let mut f = Box::pin(modify(&fx, &kl, add, &mine));
        let wk = crate::sched::waker();
        let mut c = std::task::Context::from_waker(&wk);
        let mut polls = 0;
        loop {
            crate::mondb::CUR.with(|c| c.set(0));
            if let std::task::Poll::Ready(x) = f.as_mut().poll(&mut c) {
                break x;
            }
            polls += 1;
            ck!(polls < 6 * gaps + 1_000, "the operation never completes although nobody modifies its entries any more");
            if left > 0 {
                left -= 1;
                let at = r.subset(&ks, nk);
                commits += at.len();
                let a: Assoc = vec![(Val::D(format!("other {}", left % 50).into_bytes()), at)];
                let add = r.chance(3, 4);
                crate::mondb::CUR.with(|c| c.set(1));
                ok(&other.w, "operation of the other client", modify(&ofx, &kl, add, &a))?;
                m.apply(add, &a);
            }
        }
    };
    must(res, format!("an operation whose entries were modified {commits} times meanwhile"))?;
    m.apply(add, &mine);
    let evs = e.w.log_take();
    let ek = fmt::et_key(&kl.key);
    let mut rejections = 0;
    for k in &ks {
        let t = fmt::et_token(&ek, &fmt::tag_hash(k), &kl.label);
        let sent = evs.iter().filter(|x| x.tb == Tb::E && x.op == Op::Upsert && x.news.iter().any(|y| tok(&y.0) == t)).count();
        let rej = evs.iter().filter(|x| x.tb == Tb::E && x.op == Op::Upsert && x.out.iter().any(|y| tok(&y.0) == t)).count();
        ck!(sent == rej + 1, "the entry of keyword {} was submitted {sent} times and rejected {rej} times", show(k));
        rejections += rej;
    }
    let calls = evs.iter().filter(|x| x.t > inv).count();
    ck!(calls <= 6 + 4 * rejections, "{calls} backend calls for {rejections} rejections");
    ck!(rejections <= commits, "{rejections} rejections while others committed {commits} times");
    let got = ok(&other.w, "search", search(&ofx, &kl, &ks))?;
    if let Some(d) = diff(&got, &m.expect(&ks)) {
        viol!("after an operation rejected {rejections} times: {d}");
    }
    cx.max("rejections in a row", rejections as u64);
    cx.count("rejected entries", rejections as u64);
    if rejections > 0 {
        cx.nontrivial(hash_bytes(cx.idx, format!("{rejections}").as_bytes()));
    }
    Ok(())
}

/// Without interference: constant number of calls whatever the size.
fn f21_alone(cx: &mut Cx) -> Res {
    let r = &mut cx.r.fork();
    let e = Env::new(Mode::Seq, Log::Full, r.chance(1, 2));
    let kl = Kl::random(r);
    let nk = *r.pick(&[1, 2, 5, 20, 60]);
    let u = gen::universe(r, nk, 8);
    let fx = e.fx();
    let mut most = 0;
    for i in 0..r.range(1, 6) {
        let nv = r.range(1, 8);
        let a = gen::assoc(r, &u, nv, nk, 20);
        e.w.log_take();
        let inv = e.w.tick();
        let add = r.chance(2, 3);
        let res = must(crate::run::seq(&e.w, modify(&fx, &kl, add, &a))?, "modification")?;
        let ret = e.w.tick();
        let evs = e.w.log_take();
        ck!(evs.len() <= 6, "operation {i} made {} backend calls alone on {} keywords", evs.len(), per_kw(&a).len());
        most = most.max(evs.len());
        check_trace(cx, &evs, &[Rec { who: 0, st: St::Mod(add, a), inv, ret, res: Some(Ok(Out::New(res))) }], &kl)?;
    }
    cx.max("calls of an operation alone", most as u64);
    cx.nontrivial(cx.seed);
    Ok(())
}
