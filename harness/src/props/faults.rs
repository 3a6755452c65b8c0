//! Additions and deletions under faults, error propagation: F11, F12.
use std::{
    cell::RefCell,
    collections::{BTreeMap, BTreeSet},
    rc::Rc,
};

use super::{
    compactp::direct,
    seqp::{check_search, fill, new_kl},
};
use crate::{
    ck, gen,
    ix::*,
    lin,
    mondb::{Fault, Log, Mode, Tb, ALL_FK, FK},
    rng::{hash_bytes, R},
    run::{must, ok, seq, Cx, Part, Prop, Res, P},
    sched::{run1, run_all, Policy, Run, Task},
    viol,
};

pub static PROPS: [&Prop; 2] = [&F11, &F12];

static F11: Prop = Prop {
    id: "F11",
    level: "fault_enumeration",
    rule: "random indexes and one addition or deletion over several keywords: every backend call x (error before / after \
           taking effect, crash before / after, backend down from there on); then all associations are looked up (state \
           before or after, nothing in between), and retries, other clients' updates and compactions are checked; plus \
           concurrent clients of which some fail or crash at random calls. Identity: hash of contents / schedule and faults.",
    parts: &[
        Part { name: "faults", f: f11_case, quick: 4_000, thorough: 40_000, ..P },
        Part { name: "big-faults", f: f11_case, quick: 250, thorough: 2_500, big: 3000, ..P },
        Part { name: "flaky", f: f11_flaky, quick: 12_000, thorough: 120_000, ..P },
        Part { name: "concurrent", f: f11_conc, quick: 20_000, thorough: 200_000, ..P },
    ],
    assumptions: &["each backend call is atomic"],
};

pub type Direct = BTreeMap<By, BTreeSet<Val>>;
pub fn same(got: &Direct, m: &Model, ks: &[By]) -> Option<String> {
    for k in ks {
        let g = got.get(k).cloned().unwrap_or_default();
        let w = m.kw.get(k).cloned().unwrap_or_default();
        if g != w {
            return Some(format!(
                "keyword {} indexes {:?} instead of {:?}",
                show(k),
                g.iter().map(show_val).collect::<Vec<_>>(),
                w.iter().map(show_val).collect::<Vec<_>>()
            ));
        }
    }
    None
}

fn f11_case(cx: &mut Cx) -> Res {
    let r = &mut cx.r.fork();
    let base = Env::new(Mode::Seq, Log::Off, r.chance(1, 2));
    let kl = Kl::random(r);
    let nk = r.range(1, 5);
    let u = gen::universe(r, nk, 6);
    let n = r.below(4);
    let m0 = {
        let fx = base.fx();
        if n == 0 { Model::default() } else { fill(cx, &base, &fx, &kl, &u, r, n, 20)? }
    };
    let add = r.chance(1, 2);
    let a = gen::some(r, &u, 4, nk, 20);
    let b = gen::some(r, &u, 3, nk, 20);
    cx.log(format!("{} {}", if add { "add" } else { "delete" }, show_assoc(&a)));
    let mut m1 = m0.clone();
    m1.apply(add, &a);
    let mut ks: Vec<By> = u.kw.clone();
    ks.extend(m1.mentioned());
    let mem = r.chance(1, 2);
    let n_calls = {
        let e = base.fork(Mode::Seq, Log::Shape, mem);
        let fx = e.fx();
        ok(&e.w, "modification without fault", modify(&fx, &kl, add, &a))?;
        e.w.calls(0)
    };
    ck!(n_calls >= 3, "a modification makes {n_calls} backend calls only");
    cx.nontrivial(hash_bytes(u64::from(add), format!("{m0:?}{a:?}").as_bytes()));
    let mut plans: Vec<Fault> = vec![];
    for c in 0..n_calls {
        plans.extend(ALL_FK.map(|k| Fault { from: c, to: c, kind: k }));
        plans.push(Fault { from: c, to: u32::MAX, kind: FK::ErrBefore });
    }
    for f in plans {
        let e = base.fork(Mode::Seq, Log::Shape, mem);
        e.w.set_fault(0, f);
        let fx = e.fx();
        let res = match run1(&e.w, 0, modify(&fx, &kl, add, &a)) {
            Run::Done(r) => Some(r),
            Run::Crashed => None,
            Run::Stuck => viol!("the operation never completes after {f:?}"),
        };
        e.w.clear_faults();
        if e.w.fired().is_empty() {
            continue;
        }
        let what = format!("{} hit by {:?}", if add { "addition" } else { "deletion" }, e.w.fired());
        cx.count("faulty operations", 1);
        ck!(!matches!(res, Some(Ok(_))), "{what} reports success");
        // Through the same index object or another client's.
        let f2 = e.fx();
        let fx = if res.is_some() && r.chance(1, 2) { &fx } else { &f2 };
        let got = direct(&e, &kl, &ks)?;
        let before = same(&got, &m0, &ks);
        let after = same(&got, &m1, &ks);
        if let (Some(b), Some(a)) = (&before, &after) {
            viol!("{what}: neither the state before ({b}) nor the one after ({a})");
        }
        cx.count(if before.is_none() { "left without effect" } else { "left with effect" }, 1);
        let mut m = if before.is_none() { m0.clone() } else { m1.clone() };
        check_search(cx, &e, fx, &kl, &m, &ks, &format!("after a {what}"))?;
        // Another client first (sometimes), then a retry, then a compaction.
        let other = r.below(3);
        if other == 0 {
            let add = r.chance(1, 2);
            ok(&e.w, format!("operation of another client after a {what}"), modify(&e.fx(), &kl, add, &b))?;
            m.apply(add, &b);
        }
        if other == 1 {
            let nkl = new_kl(r, &kl);
            ok(&e.w, format!("compaction after a {what}"), compact(fx, &kl, &nkl, gen::rate(r)))?;
            if let Some(d) = same(&direct(&e, &nkl, &ks)?, &m, &ks) {
                viol!("compaction after a {what}: {d}");
            }
            ok(&e.w, format!("retry after compaction and a {what}"), modify(fx, &nkl, add, &a))?;
            m.apply(add, &a);
            if let Some(d) = same(&direct(&e, &nkl, &ks)?, &m, &ks) {
                viol!("retry after compaction and a {what}: {d}");
            }
            continue;
        }
        ok(&e.w, format!("retry after a {what}"), modify(fx, &kl, add, &a))?;
        m.apply(add, &a);
        if let Some(d) = same(&direct(&e, &kl, &ks)?, &m, &ks) {
            viol!("retry after a {what}: {d}");
        }
        let nkl = new_kl(r, &kl);
        ok(&e.w, format!("compaction after a {what} and a retry"), compact(fx, &kl, &nkl, 1.0))?;
        if let Some(d) = same(&direct(&e, &nkl, &ks)?, &m, &ks) {
            viol!("compaction after a {what} and a retry: {d}");
        }
    }
    let note = cx.note.clone();
    cx.sample(|| note);
    Ok(())
}

/// Long histories over an unreliable backend; what was acknowledged must stay.
fn f11_flaky(cx: &mut Cx) -> Res {
    let r = &mut cx.r.fork();
    let e = Env::new(Mode::Seq, Log::Shape, r.chance(1, 2));
    let kl = Kl::random(r);
    let nk = r.range(1, 5);
    let u = gen::universe(r, nk, 6);
    let mut m = Model::default();
    let mut fx = e.fx();
    let mut kl = kl;
    let (mut bad, mut good) = (0u64, 0u64);
    let mut h = 0;
    for i in 0..r.range(4, 16) {
        let add = r.chance(3, 5);
        let a = gen::assoc(r, &u, 3, nk, 10);
        let mut m1 = m.clone();
        m1.apply(add, &a);
        let faulty = r.chance(1, 2);
        e.w.reset_calls(0);
        e.w.fired_clear();
        if faulty {
            let c = r.below(4) as u32;
            let k = *r.pick(&ALL_FK);
            e.w.set_fault(0, Fault { from: c, to: c + r.below(2) as u32, kind: k });
        }
        let res = match run1(&e.w, 0, modify(&fx, &kl, add, &a)) {
            Run::Done(x) => Some(x),
            Run::Crashed => None,
            Run::Stuck => viol!("operation {i} never completes"),
        };
        e.w.clear_faults();
        cx.log(format!("{} {} -> {:?} {:?}", if add { "add" } else { "delete" }, show_assoc(&a), res, e.w.fired()));
        h = hash_bytes(h, format!("{add}{a:?}{:?}", e.w.fired()).as_bytes());
        let ks = m1.mentioned();
        match res {
            Some(Ok(_)) => {
                m = m1;
                good += 1;
            }
            Some(Err(x)) if e.w.fired().is_empty() => viol!("operation {i} fails without any fault: {x}"),
            x => {
                bad += 1;
                let got = direct(&e, &kl, &ks)?;
                match (same(&got, &m, &ks), same(&got, &m1, &ks)) {
                    (None, _) => {}
                    (_, None) => m = m1,
                    (Some(b), Some(a)) => viol!("operation {i} hit by {:?}: neither the state before ({b}) nor the one after ({a})", e.w.fired()),
                }
                if x.is_none() {
                    fx = e.fx();
                }
            }
        }
        if let Some(d) = same(&direct(&e, &kl, &ks)?, &m, &ks) {
            viol!("after operation {i}: {d}");
        }
        if r.chance(1, 8) {
            let nkl = new_kl(r, &kl);
            ok(&e.w, format!("compaction after operation {i}"), compact(&fx, &kl, &nkl, gen::rate(r)))?;
            kl = nkl;
            if let Some(d) = same(&direct(&e, &kl, &ks)?, &m, &ks) {
                viol!("compaction after operation {i}: {d}");
            }
        }
    }
    cx.count("operations hit by a fault", bad);
    cx.count("operations acknowledged", good);
    if bad > 0 && good > 0 {
        cx.nontrivial(h);
    }
    let note = cx.note.clone();
    cx.sample(|| note);
    Ok(())
}

struct Done {
    who: u32,
    add: bool,
    a: Assoc,
    inv: u64,
    ret: u64,
    res: Option<Result<(), String>>,
}

/// Several clients, some of which fail or crash; adds use values of their own.
fn f11_conc(cx: &mut Cx) -> Res {
    let r = &mut cx.r.fork();
    let e = Env::new(Mode::Sched, Log::Shape, r.chance(1, 2));
    let kl = Kl::random(r);
    let nk = r.range(1, 3);
    let kws: Vec<By> = (0..nk).map(|i| vec![b'k', i as u8]).collect();
    let n_cl = r.range(2, 4);
    let setup = e.with_world(Mode::Seq, Log::Off);
    // Values there beforehand, some of which will be deleted.
    let mut serial = 0u32;
    let mut fresh = || {
        serial += 1;
        Val::D(format!("value {serial} {}", "x".repeat(serial as usize * 5 % 60)).into_bytes())
    };
    let mut init: Assoc = vec![];
    if r.chance(3, 4) {
        for _ in 0..r.range(1, 4) {
            init.push((fresh(), r.subset(&kws, nk)));
        }
        ok(&setup.w, "initial addition", modify(&setup.fx(), &kl, true, &init))?;
    }
    let mut progs: Vec<Vec<(bool, Assoc)>> = vec![];
    let mut deletable = init.clone();
    for c in 0..n_cl {
        let mut p = vec![];
        for _ in 0..r.range(1, 3) {
            if !deletable.is_empty() && r.chance(1, 3) {
                p.push((false, vec![deletable.remove(r.below(deletable.len()))]));
            } else {
                let n = r.range(1, 2);
                p.push((true, (0..n).map(|_| (fresh(), r.subset(&kws, nk))).collect()));
            }
        }
        progs.push(p);
        if r.chance(2, 3) {
            let from = r.below(9) as u32;
            let down = r.chance(1, 4);
            e.w.set_fault(c as u32, Fault { from, to: if down { u32::MAX } else { from }, kind: *r.pick(&ALL_FK) });
        }
    }
    let hist: Rc<RefCell<Vec<Done>>> = Rc::default();
    let shared = e.fx();
    let own: Vec<Fx> = (0..n_cl).map(|_| e.fx()).collect();
    let share = r.chance(1, 2);
    let mut tasks: Vec<Task<'_>> = vec![];
    for (c, prog) in progs.into_iter().enumerate() {
        let fx = if share { &shared } else { &own[c] };
        let (w, kl, hist) = (e.w.clone(), kl.clone(), hist.clone());
        tasks.push(Box::pin(async move {
            for (add, a) in prog {
                let i = hist.borrow().len();
                hist.borrow_mut().push(Done { who: c as u32, add, a: a.clone(), inv: w.tick(), ret: u64::MAX, res: None });
                let res = modify(fx, &kl, add, &a).await.map(|_| ());
                let mut g = hist.borrow_mut();
                g[i].ret = w.tick();
                g[i].res = Some(res);
            }
        }));
    }
    let pol = Policy::random(r, n_cl);
    let o = run_all(&e.w, r, pol, tasks, 20_000);
    ck!(!o.stuck, "some client never completes its operation");
    let hist = hist.borrow();
    let fired = e.w.fired();
    let after = e.with_world(Mode::Seq, Log::Off);
    let got = direct(&after, &kl, &kws)?;
    let mut expect_known: Model = Model::default();
    expect_known.apply(true, &init);
    let mut allowed: BTreeMap<By, BTreeSet<Val>> = expect_known.kw.clone();
    for d in hist.iter() {
        let what = format!("client {} {} {}", d.who, if d.add { "add" } else { "delete" }, show_assoc(&d.a));
        cx.log(format!("{what} -> {:?}", d.res));
        let n: usize = per_kw(&d.a).values().map(BTreeSet::len).sum();
        let seen: usize = per_kw(&d.a)
            .iter()
            .map(|(k, vs)| vs.iter().filter(|v| got.get(k).is_some_and(|g| g.contains(v))).count())
            .sum();
        let eff = if d.add { seen } else { n - seen };
        match &d.res {
            Some(Ok(())) => ck!(eff == n, "{what} was acknowledged and {eff} of its {n} associations took effect (faults {fired:?})"),
            Some(Err(x)) if !fired.iter().any(|f| f.0 == d.who) => viol!("{what} fails without any fault of its own: {x}"),
            _ => ck!(eff == 0 || eff == n, "{what} was interrupted and {eff} of its {n} associations took effect (faults {fired:?})"),
        }
        for (k, vs) in per_kw(&d.a) {
            allowed.entry(k).or_default().extend(vs);
        }
    }
    let touched: BTreeMap<By, BTreeSet<Val>> = hist.iter().filter(|d| !d.add).fold(BTreeMap::new(), |mut m, d| {
        for (k, vs) in per_kw(&d.a) {
            m.entry(k).or_insert_with(BTreeSet::new).extend(vs);
        }
        m
    });
    for k in &kws {
        let g = got.get(k).cloned().unwrap_or_default();
        for v in &g {
            ck!(allowed.get(k).is_some_and(|a| a.contains(v)), "keyword {} indexes {} which nobody added", show(k), show_val(v));
        }
        for v in expect_known.kw.get(k).into_iter().flatten() {
            if !touched.get(k).is_some_and(|t| t.contains(v)) {
                ck!(g.contains(v), "keyword {} lost {} which nobody deleted (faults {fired:?})", show(k), show_val(v));
            }
        }
    }
    // Later operations and a compaction work.
    let m = Model { kw: got.clone() };
    let fx = after.fx();
    let a = vec![(Val::D(b"later".to_vec()), kws.clone())];
    let mut m2 = m.clone();
    ok(&after.w, "addition after interrupted operations", modify(&fx, &kl, true, &a))?;
    m2.apply(true, &a);
    check_search(cx, &after, &fx, &kl, &m2, &kws, "after interrupted operations")?;
    let nkl = new_kl(r, &kl);
    ok(&after.w, "compaction after interrupted operations", compact(&fx, &kl, &nkl, 1.0))?;
    check_search(cx, &after, &fx, &nkl, &m2, &kws, "after interrupted operations and a compaction")?;
    cx.count("faults fired", fired.len() as u64);
    cx.count("clients crashed", o.crashed.len() as u64);
    cx.count("context switches", o.switches);
    if !fired.is_empty() && o.switches > n_cl as u64 {
        cx.nontrivial(hash_bytes(o.trace, format!("{fired:?}").as_bytes()));
    }
    let note = cx.note.clone();
    cx.sample(|| note);
    debug_assert!(lin::self_test());
    Ok(())
}

// ---------------------------------------------------------------------------

static F12: Prop = Prop {
    id: "F12",
    level: "fault_enumeration",
    rule: "for each kind of operation every backend call is made to fail (without or with effect) and the operation must \
           report an error, with the backend's message when it is the only failure; every round of a search callback and every \
           call of a filter is made to fail and its message must be reported; whatever reported success is looked up by a \
           fresh client on a copy of the stores. Identity: contents, operation and failing call.",
    parts: &[
        Part { name: "backend", f: f12_backend, quick: 8_000, thorough: 80_000, ..P },
        Part { name: "big-backend", f: f12_backend, quick: 250, thorough: 2_500, big: 3000, ..P },
        Part { name: "callbacks", f: f12_callbacks, quick: 12_000, thorough: 120_000, ..P },
        Part { name: "durable", f: f12_durable, quick: 12_000, thorough: 120_000, ..P },
        Part { name: "big-durable", f: f12_durable, quick: 250, thorough: 2_500, big: 3000, ..P },
        Part { name: "backend-batches", f: f12_backend, quick: 4_000, thorough: 40_000, hooked: true, ..P },
        Part { name: "callbacks-batches", f: f12_callbacks, quick: 4_000, thorough: 40_000, hooked: true, ..P },
    ],
    assumptions: &["one client at a time"],
};

enum Do {
    Mod(bool, Assoc),
    Search(Vec<By>),
    Compact(Kl, f64),
}
fn run_do(e: &Env, fx: &Fx, kl: &Kl, d: &Do) -> Res<Result<(), String>> {
    match d {
        Do::Mod(add, a) => seq(&e.w, async { modify(fx, kl, *add, a).await.map(|_| ()) }),
        Do::Search(ks) => seq(&e.w, async { search(fx, kl, ks).await.map(|_| ()) }),
        Do::Compact(n, rate) => seq(&e.w, compact(fx, kl, n, *rate)),
    }
}
fn setup(cx: &mut Cx, r: &mut R, ptr: usize) -> Res<(Env, Kl, gen::Uni, Model)> {
    let base = Env::new(Mode::Seq, Log::Shape, r.chance(1, 2));
    let kl = Kl::random(r);
    let nk = *r.pick(&[1, 2, 4, 6, 10]);
    let u = gen::universe(r, nk, 6);
    let n = r.range(1, 5);
    let fx = base.fx();
    let m = fill(cx, &base, &fx, &kl, &u, r, n, ptr)?;
    Ok((base, kl, u, m))
}

fn f12_backend(cx: &mut Cx) -> Res {
    let r = &mut cx.r.fork();
    let (base, kl, u, m) = setup(cx, r, 40)?;
    let mem = r.chance(1, 2);
    let ks = r.subset(&u.kw, 3);
    let ops = [
        Do::Mod(true, gen::assoc(r, &u, 3, 3, 20)),
        Do::Mod(false, gen::assoc(r, &u, 3, 3, 20)),
        Do::Search(ks),
        Do::Compact(new_kl(r, &kl), gen::rate(r)),
    ];
    let names = ["addition", "deletion", "search", "compaction"];
    for (d, name) in ops.iter().zip(names) {
        let n_calls = {
            let e = base.fork(Mode::Seq, Log::Shape, mem);
            must(run_do(&e, &e.fx(), &kl, d)?, format!("{name} without fault"))?;
            e.w.calls(0)
        };
        ck!(n_calls >= 1, "{name} makes {n_calls} backend calls only");
        for c in 0..n_calls {
            for kind in [FK::ErrBefore, FK::ErrAfter] {
                let down = r.chance(1, 6);
                let e = base.fork(Mode::Seq, Log::Shape, mem);
                e.w.set_fault(0, Fault { from: c, to: if down { u32::MAX } else { c }, kind });
                let res = run_do(&e, &e.fx(), &kl, d)?;
                let fired = e.w.fired();
                if fired.is_empty() {
                    continue;
                }
                cx.count(&format!("failing backend calls: {name}"), 1);
                match res {
                    Ok(()) => viol!("{name} reports success although the backend call {:?} failed ({kind:?}, call {} of {n_calls})", (fired[0].2, fired[0].3), c + 1),
                    Err(x) => ck!(!x.is_empty(), "{name} reports an empty error"),
                }
            }
        }
        cx.max(&format!("backend calls of one {name}"), u64::from(n_calls));
    }
    cx.nontrivial(hash_bytes(1, format!("{m:?}").as_bytes()));
    Ok(())
}

fn f12_callbacks(cx: &mut Cx) -> Res {
    let r = &mut cx.r.fork();
    let (base, kl, u, m) = setup(cx, r, 60)?;
    let mem = r.chance(1, 2);
    let fx = base.fx();
    // Search callback failing at each round.
    let ks = r.subset(&u.kw, 2);
    let rounds = RefCell::new(0usize);
    ok(&base.w, "search", search_i(&fx, &kl, &ks, &|i, _| {
        *rounds.borrow_mut() = i + 1;
        Ok(false)
    }))?;
    let rounds = rounds.into_inner();
    let msg = format!("callback says no #{}", r.u64());
    for bad in 0..rounds {
        let s0 = base.snap();
        let n = RefCell::new(0);
        let res = seq(&base.w, search_i(&fx, &kl, &ks, &|i, _| {
            *n.borrow_mut() += 1;
            if i == bad { Err(msg.clone()) } else { Ok(false) }
        }))?;
        match res {
            Ok(_) => viol!("a search reports success although its callback failed at round {bad} of {rounds}"),
            Err(x) => ck!(x.contains(&msg), "the error {x:?} does not hold the message of the callback"),
        }
        ck!(n.into_inner() == bad + 1, "the callback was called again after it failed");
        ck!(base.snap() == s0, "a failed search changed the stores");
        cx.count("failing search callbacks", 1);
    }
    // Filter failing at each call.
    let nkl = new_kl(r, &kl);
    let rate = gen::rate(r);
    let calls = RefCell::new(0usize);
    {
        let e = base.fork(Mode::Seq, Log::Shape, mem);
        ok(&e.w, "compaction", compact_f(&e.fx(), &kl, &nkl, rate, &|d| {
            *calls.borrow_mut() += 1;
            Ok(d)
        }))?;
    }
    let calls = calls.into_inner();
    ck!(calls > 0, "the filter of a compaction is never called");
    cx.max("filter calls in one compaction", calls as u64);
    for bad in 0..calls {
        let e = base.fork(Mode::Seq, Log::Shape, mem);
        let n = RefCell::new(0);
        let res = seq(&e.w, compact_f(&e.fx(), &kl, &nkl, rate, &|d| {
            let i = *n.borrow();
            *n.borrow_mut() += 1;
            if i == bad { Err(msg.clone()) } else { Ok(d) }
        }))?;
        match res {
            Ok(_) => viol!("a compaction reports success although its filter failed at call {bad} of {calls}"),
            Err(x) => ck!(x.contains(&msg), "the error {x:?} does not hold the message of the filter"),
        }
        cx.count("failing filters", 1);
        // Nothing lost: every association under the former or the new key.
        let all = m.mentioned();
        let (o, w) = (direct(&e, &kl, &all)?, direct(&e, &nkl, &all)?);
        for (k, want) in &m.kw {
            ck!(o.get(k).cloned().unwrap_or_default() == *want || w.get(k).cloned().unwrap_or_default() == *want,
                "a failing filter lost associations of keyword {}", show(k));
        }
    }
    cx.nontrivial(hash_bytes(2, format!("{m:?}{ks:?}").as_bytes()));
    Ok(())
}

/// What reported success is there for everybody, at once, and stays.
fn f12_durable(cx: &mut Cx) -> Res {
    let r = &mut cx.r.fork();
    let e = Env::new(Mode::Seq, Log::Shape, r.chance(1, 2));
    let kl = Kl::random(r);
    let nk = r.range(1, 4);
    let u = gen::universe(r, nk, 6);
    let mut m = Model::default();
    let fx = e.fx();
    let mut h = 0;
    let mut oks = 0;
    for i in 0..r.range(2, 10) {
        let add = r.chance(2, 3);
        let a = gen::assoc(r, &u, 3, nk, 10);
        h = hash_bytes(h, format!("{add}{a:?}").as_bytes());
        let mut m1 = m.clone();
        m1.apply(add, &a);
        e.w.reset_calls(0);
        e.w.fired_clear();
        if r.chance(1, 3) {
            let c = r.below(5) as u32;
            e.w.set_fault(0, Fault { from: c, to: c, kind: *r.pick(&[FK::ErrBefore, FK::ErrAfter]) });
        }
        let t0 = e.w.log_len();
        let res = seq(&e.w, modify(&fx, &kl, add, &a))?;
        e.w.clear_faults();
        let log = e.w.log_from(t0);
        let ks = m1.mentioned();
        let copy = e.fork(Mode::Seq, Log::Off, r.chance(1, 2));
        let got = direct(&copy, &kl, &ks)?;
        match res {
            Ok(_) => {
                oks += 1;
                if let Some(d) = same(&got, &m1, &ks) {
                    viol!("operation {i} reported success but {d}");
                }
                ck!(log.iter().all(|x| x.ok), "operation {i} reported success although a backend call failed");
                ck!(log.iter().any(|x| x.tb == Tb::E && x.applied) && log.iter().any(|x| x.tb == Tb::C && x.applied),
                    "operation {i} reported success without writing both tables");
                m = m1;
            }
            Err(_) => {
                if same(&got, &m, &ks).is_some() {
                    m = m1;
                }
            }
        }
    }
    cx.count("acknowledged operations looked up by a fresh client", oks);
    if oks > 0 {
        cx.nontrivial(h);
    }
    Ok(())
}
