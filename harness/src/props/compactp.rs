//! Compaction under faults and refusals: F10, F23, F25, F26.
use std::{
    cell::RefCell,
    collections::{BTreeMap, BTreeSet, HashSet},
};

use cosmian_findex::Data;

use super::seqp::{check_search, fill, new_kl};
use crate::{
    ck, fmt, gen,
    ix::*,
    mondb::{Fault, Log, Mode, Op, Tb, ALL_FK, FK},
    rng::hash_bytes,
    run::{must, ok, seq, Acc, Cx, Fail, Obs, Part, Prop, Res, P},
    sched::{run1, Run},
    viol,
};

pub static PROPS: [&Prop; 4] = [&F10, &F23, &F25, &F26];

/// Associations of each keyword, as answered by a search stopped after its first round.
pub fn direct(env: &Env, kl: &Kl, ks: &[By]) -> Res<BTreeMap<By, BTreeSet<Val>>> {
    let fx = env.fx();
    let out: RefCell<Round> = RefCell::default();
    let r = seq(
        &env.w,
        search_i(&fx, kl, ks, &|i, m| {
            if i == 0 {
                *out.borrow_mut() = m;
            }
            Ok(true)
        }),
    )?;
    must(r, "search of the direct associations")?;
    Ok(out.into_inner())
}

static F10: Prop = Prop {
    id: "F10",
    level: "fault_enumeration",
    rule: "random indexes; for one compaction each, every backend call x (error before / error after taking effect / \
           crash before / crash after) and the backend going down at every call; then each association is looked up \
           under the former and the new key and label, the stores compared with the initial ones when the switch was \
           not reached. Counts per compaction with data; identity: hash of contents and rate. Also with batches of 4 (hook).",
    parts: &[
        Part { name: "faults", f: f10_case, quick: 2_500, thorough: 25_000, ..P },
        Part { name: "big", f: f10_case, quick: 60, thorough: 600, big: 3000, ..P },
        Part { name: "faults-batches", f: f10_case, quick: 1_200, thorough: 12_000, hooked: true, ..P },
    ],
    assumptions: &["each backend call is atomic", "no client modifies the index during a compaction"],
};

fn f10_case(cx: &mut Cx) -> Res {
    let r = &mut cx.r.fork();
    let base = Env::new(Mode::Seq, Log::Off, r.chance(1, 2));
    let kl = Kl::random(r);
    let nk = *r.pick(&[1, 2, 3, 5, 9, 13]);
    let u = gen::universe(r, nk, 6);
    let n = r.range(1, 6);
    let m = {
        let fx = base.fx();
        fill(cx, &base, &fx, &kl, &u, r, n, 20)?
    };
    let nkl = new_kl(r, &kl);
    let rate = if r.chance(1, 2) { 1.0 } else { gen::rate(r) };
    cx.log(format!("compaction rate {rate}"));
    let ks: Vec<By> = m.kw.keys().cloned().collect();
    let s0 = base.snap();
    let mem = r.chance(1, 2);
    // Fault-free run: number of calls.
    let n_calls = {
        let e = base.fork(Mode::Seq, Log::Shape, mem);
        let fx = e.fx();
        ok(&e.w, "compaction without fault", compact(&fx, &kl, &nkl, rate))?;
        e.w.calls(0)
    };
    ck!(n_calls >= 3, "a compaction makes {n_calls} backend calls only");
    if m.live() > 0 {
        cx.nontrivial(hash_bytes(0, format!("{m:?}{rate}").as_bytes()));
    }
    let mut plans: Vec<Vec<Fault>> = vec![];
    for c in 0..n_calls {
        for k in ALL_FK {
            plans.push(vec![Fault { from: c, to: c, kind: k }]);
        }
        plans.push(vec![Fault { from: c, to: u32::MAX, kind: FK::ErrBefore }]);
        // A failure, then another one during the clean-up.
        let k = *r.pick(&[FK::ErrBefore, FK::ErrAfter]);
        let d = c + r.range(1, 3) as u32;
        plans.push(vec![
            Fault { from: c, to: c, kind: k },
            Fault { from: d, to: d, kind: *r.pick(&ALL_FK) },
        ]);
    }
    for plan in plans {
        let e = base.fork(Mode::Seq, Log::Shape, mem);
        for f in &plan {
            e.w.set_fault(0, *f);
        }
        let fx = e.fx();
        let res = match run1(&e.w, 0, compact(&fx, &kl, &nkl, rate)) {
            Run::Done(r) => Some(r),
            Run::Crashed => None,
            Run::Stuck => viol!("the compaction never completes after {plan:?}"),
        };
        let fired = e.w.fired();
        e.w.clear_faults();
        let what = format!("compaction (rate {rate}, {} entries) with {fired:?}", s0.et.len());
        let log = e.w.log_take();
        let switched = log.iter().any(|x| x.tb == Tb::E && x.op == Op::Insert && x.applied);
        // An insertion which took effect but failed is reverted too.
        let kept = log.iter().any(|x| x.tb == Tb::E && x.op == Op::Insert && x.ok);
        let seen_old = direct(&e, &kl, &ks)?;
        let seen_new = direct(&e, &nkl, &ks)?;
        cx.count("faulty compactions", 1);
        cx.count("associations looked up", m.live() as u64);
        if fired.is_empty() {
            continue;
        }
        for (k, want) in &m.kw {
            let o = seen_old.get(k).cloned().unwrap_or_default();
            let w = seen_new.get(k).cloned().unwrap_or_default();
            for (side, got) in [("former", &o), ("new", &w)] {
                let extra: Vec<String> = got.difference(want).map(show_val).collect();
                ck!(extra.is_empty(), "{what}: keyword {} answers {extra:?} under the {side} key, which is not indexed", show(k));
            }
            ck!(
                o == *want || w == *want,
                "{what}: keyword {} has {} associations, {} are left under the former key and {} under the new one",
                show(k), want.len(), o.len(), w.len()
            );
            if !switched {
                ck!(o == *want, "{what}: keyword {} is not intact under the former key although the switch was not reached", show(k));
            }
        }
        let single_err = fired.len() == 1 && res.is_some();
        if !kept && single_err {
            let s1 = e.snap();
            ck!(s1.et == s0.et, "{what}: the Entry Table is not as before although the switch was not completed");
            ck!(s1.ct == s0.ct, "{what}: traces of the new lines are left in the Chain Table ({} lines instead of {})", s1.ct.len(), s0.ct.len());
            cx.count("exact restorations", 1);
        }
        if e.snap() == s0 {
            // Nothing happened: a retry must work.
            let fx = e.fx();
            ok(&e.w, format!("retry after {what}"), compact(&fx, &kl, &nkl, rate))?;
            let after = direct(&e, &nkl, &ks)?;
            for (k, want) in &m.kw {
                ck!(after.get(k).cloned().unwrap_or_default() == *want, "retry after {what}: keyword {} is wrong", show(k));
            }
            cx.count("retries", 1);
        }
    }
    let note = cx.note.clone();
    cx.sample(|| note);
    Ok(())
}

// ---------------------------------------------------------------------------

static F23: Prop = Prop {
    id: "F23",
    level: "exploration",
    rule: "indexes of 1 to 200 keywords (and of 300 to 70 000 keywords for a few compactions), n successive compactions at rate 1/n (n = 2..12); an independent reader \
           tells from the chain keys which chains were rewritten. The average number of chains never compacted is \
           compared with the documented coupon-collector residue, each chain position must be reached; rate one must \
           rewrite all, rate zero none. Identity: (size, n, trial).",
    parts: &[
        Part { name: "coverage", f: f23_case, quick: 9_000, thorough: 60_000, end: Some(f23_end), ..P },
        Part { name: "extremes", f: f23_ext, quick: 1_600, thorough: 8_000, ..P },
        Part { name: "extremes-batches", f: f23_ext, quick: 800, thorough: 4_000, hooked: true, ..P },
        Part { name: "coverage-batches", f: f23_case, quick: 4_500, thorough: 30_000, end: Some(f23_end), hooked: true, ..P },
        Part { name: "large", f: f23_large, quick: 14, thorough: 140, end: Some(f23_large_end), ..P },
    ],
    assumptions: &["verdict on averages: a correct tree exceeds the threshold with probability below 1e-8"],
};

fn seeds(e: &Env, kl: &Kl) -> Res<BTreeMap<[u8; 32], [u8; 16]>> {
    let s = e.snap();
    Ok(must(fmt::read_all(&s.et, &s.ct, &kl.key), "independent reading")?
        .into_iter()
        .map(|(_, v)| (v.ent.tag, v.ent.seed))
        .collect())
}
fn simple_index(env: &Env, fx: &Fx, kl: &Kl, m: usize, extra: bool) -> Res {
    let a: Assoc = (0..m)
        .map(|i| (Val::D(vec![i as u8; 3]), vec![format!("k{i}").into_bytes()]))
        .collect();
    ok(&env.w, "add", modify(fx, kl, true, &a))?;
    if extra {
        ok(&env.w, "add", modify(fx, kl, true, &a))?;
    }
    Ok(())
}

// (size, number of compactions): the formula makes them select strictly less than everything.
const CFG: [(usize, usize); 18] = [
    (1, 2), (1, 5), (1, 10), (2, 2), (2, 4), (3, 3), (3, 6), (4, 5), (5, 6), (8, 6), (10, 10),
    (16, 6), (20, 8), (32, 10), (50, 10), (64, 8), (100, 10), (200, 12),
];
// Too large for an index or a count held in a narrow integer.
const LARGE: [(usize, usize); 7] = [
    (300, 12), (600, 14), (1_000, 20), (1_500, 16), (3_000, 20), (5_000, 25), (70_000, 18),
];
fn residue(m: usize, n: usize) -> f64 {
    // Expected number of chains not drawn in n draws-batches of the documented size.
    let l = m as f64;
    let per = (l.mul_add(l.log2() + 0.5772, 0.5) / n as f64).ceil();
    if per >= l {
        0.0
    } else {
        l * (1.0 - 1.0 / l).powf(per * n as f64)
    }
}

fn f23_case(cx: &mut Cx) -> Res {
    f23_followed(cx, &CFG)
}
fn f23_large(cx: &mut Cx) -> Res {
    f23_followed(cx, &LARGE)
}
fn f23_followed(cx: &mut Cx, cfg: &[(usize, usize)]) -> Res {
    let r = &mut cx.r.fork();
    let c = cx.idx as usize % cfg.len();
    let (m, n) = cfg[c];
    let env = Env::new(Mode::Seq, Log::Off, false);
    let fx = env.fx();
    let mut kl = Kl::random(r);
    simple_index(&env, &fx, &kl, m, false)?;
    let before = seeds(&env, &kl)?;
    for _ in 0..n {
        let nkl = new_kl(r, &kl);
        ok(&env.w, "compaction", compact(&fx, &kl, &nkl, 1.0 / n as f64))?;
        kl = nkl;
    }
    let after = seeds(&env, &kl)?;
    let missed = before.iter().filter(|(t, s)| after.get(*t) == Some(s)).count();
    cx.accum(&format!("{c:02} trials"), 1.0);
    cx.accum(&format!("{c:02} missed"), missed as f64);
    cx.count("compactions", n as u64);
    cx.count("chains followed", m as u64);
    cx.count("chains never compacted", missed as u64);
    cx.nontrivial(cx.idx);
    cx.sample(|| format!("{m} keywords, {n} compactions at rate 1/{n}: {missed} chains missed"));
    Ok(())
}
fn f23_end(a: &Acc, o: &mut Obs) -> Res {
    f23_judge(a, o, &CFG, 100.0)
}
fn f23_large_end(a: &Acc, o: &mut Obs) -> Res {
    f23_judge(a, o, &LARGE, 2.0)
}
fn f23_judge(a: &Acc, o: &mut Obs, cfg: &[(usize, usize)], least: f64) -> Res {
    for (c, (m, n)) in cfg.iter().enumerate() {
        let t = a.get(&format!("{c:02} trials")).copied().unwrap_or(0.0);
        let miss = a.get(&format!("{c:02} missed")).copied().unwrap_or(0.0);
        if t < least {
            return Err(Fail::Incon(format!("only {t} trials of configuration {c}")));
        }
        let e = residue(*m, *n);
        let avg = miss / t;
        // The misses are at most as dispersed as a Poisson variable; at least 0.03 slack.
        let lim = e + 0.03 + 7.0 * (e.max(0.05) / t).sqrt();
        o.counters.insert(
            format!("average missed x1000, {m:03} keywords {n:02} compactions (limit {})", (lim * 1000.0) as u64),
            (avg * 1000.0) as u64,
        );
        if avg > lim {
            viol!(
                "after {n} compactions at rate 1/{n} of an index of {m} keywords, {avg:.3} chains were never compacted on average over {t} trials; the documented selection leaves {e:.3}"
            );
        }
    }
    Ok(())
}
fn f23_ext(cx: &mut Cx) -> Res {
    let r = &mut cx.r.fork();
    let m = (cx.idx % 40) as usize;
    let env = Env::new(Mode::Seq, Log::Off, false);
    let fx = env.fx();
    let kl = Kl::random(r);
    if m > 0 {
        simple_index(&env, &fx, &kl, m, true)?;
    }
    let before = seeds(&env, &kl)?;
    let lines = env.snap().ct;
    let k1 = new_kl(r, &kl);
    ok(&env.w, "compaction at rate 0", compact(&fx, &kl, &k1, 0.0))?;
    ck!(seeds(&env, &k1)? == before && env.snap().ct == lines, "a compaction at rate zero compacted chains ({m} keywords)");
    let k2 = new_kl(r, &k1);
    ok(&env.w, "compaction at rate 1", compact(&fx, &k1, &k2, 1.0))?;
    let after = seeds(&env, &k2)?;
    ck!(after.len() == m, "{} entries instead of {m}", after.len());
    let same = after.iter().filter(|(t, s)| before.get(*t) == Some(s)).count();
    ck!(same == 0, "a compaction at rate one left {same} of {m} chains uncompacted");
    ck!(env.ct.len() == m, "{} lines left for {m} keywords with one value each after a compaction at rate one", env.ct.len());
    cx.nontrivial(m as u64);
    Ok(())
}

// ---------------------------------------------------------------------------

static F25: Prop = Prop {
    id: "F25",
    level: "exploration",
    rule: "random indexes sharing data between keywords; compaction with a recording filter that keeps a random part \
           and invents data; the chains actually compacted are told by an independent reader (changed chain key), the data \
           given must be their live data and what is left must be what the filter returned. Identity: contents, rate, kept set.",
    parts: &[
        Part { name: "filter", f: f25_case, quick: 30_000, thorough: 300_000, ..P },
        Part { name: "big", f: f25_case, quick: 250, thorough: 2_500, big: 3000, ..P },
        Part { name: "filter-batches", f: f25_case, quick: 12_000, thorough: 120_000, hooked: true, ..P },
    ],
    assumptions: &["no client modifies the index during a compaction"],
};

fn f25_case(cx: &mut Cx) -> Res {
    let r = &mut cx.r.fork();
    let env = Env::new(Mode::Seq, Log::Off, r.chance(1, 2));
    let fx = env.fx();
    let kl = Kl::random(r);
    let nk = *r.pick(&[1, 2, 3, 5, 9, 13]);
    let nd = r.range(1, 6);
    let u = gen::universe(r, nk, nd);
    let n = r.range(1, 7);
    let m = fill(cx, &env, &fx, &kl, &u, r, n, 25)?;
    let before = seeds(&env, &kl)?;
    let nkl = new_kl(r, &kl);
    let rate = if r.chance(1, 2) { 1.0 } else { gen::rate(r) };
    let keep_all = r.chance(1, 5);
    let keep: BTreeSet<By> = u.data.iter().filter(|_| keep_all || r.chance(1, 2)).cloned().collect();
    let invented = if r.chance(1, 2) { vec![b"invented by the filter".to_vec(), u.data[0].clone()] } else { vec![] };
    cx.log(format!("compact rate {rate} keep {}", show_set(&keep)));
    let given: RefCell<Vec<BTreeSet<By>>> = RefCell::default();
    let kept: RefCell<BTreeSet<By>> = RefCell::default();
    ok(
        &env.w,
        "compaction with filter",
        compact_f(&fx, &kl, &nkl, rate, &|d: HashSet<Data>| {
            let g: BTreeSet<By> = d.iter().map(|d| d.to_vec()).collect();
            let mut out: HashSet<Data> = g.iter().filter(|d| keep.contains(*d)).map(|d| Data::from(d.clone())).collect();
            kept.borrow_mut().extend(out.iter().map(|d| d.to_vec()));
            // Inventing data that was dropped would be keeping it: only truly foreign data.
            for i in &invented {
                if !g.contains(i) {
                    out.insert(Data::from(i.clone()));
                }
            }
            given.borrow_mut().push(g);
            Ok(out)
        }),
    )?;
    let given = given.into_inner();
    let all_given: BTreeSet<By> = given.iter().flatten().cloned().collect();
    // Which chains were compacted: a new chain key, or the entry is gone.
    let after = seeds(&env, &nkl)?;
    let mut want_given = BTreeSet::new();
    let mut want = Model::default();
    let mut n_comp = 0;
    for (k, vs) in &m.kw {
        let t = fmt::tag_hash(k);
        let compacted = after.get(&t) != before.get(&t);
        if compacted {
            n_comp += 1;
            want_given.extend(vs.iter().filter_map(|v| if let Val::D(d) = v { Some(d.clone()) } else { None }));
        }
        let left: BTreeSet<Val> = vs
            .iter()
            .filter(|v| match v {
                Val::D(d) => !compacted || keep.contains(d),
                Val::P(_) => true,
            })
            .cloned()
            .collect();
        if rate >= 1.0 && !left.is_empty() {
            ck!(compacted, "keyword {} was not compacted at rate one", show(k));
        }
        if compacted && left.is_empty() {
            ck!(!after.contains_key(&t), "keyword {} still has an entry without association", show(k));
        } else {
            ck!(after.contains_key(&t), "keyword {} lost its entry", show(k));
        }
        want.kw.insert(k.clone(), left);
    }
    let miss: Vec<By> = want_given.difference(&all_given).cloned().collect();
    let extra: Vec<By> = all_given.difference(&want_given).cloned().collect();
    ck!(miss.is_empty(), "the filter was not given {} although their chains are compacted", show_set(&miss));
    ck!(extra.is_empty(), "the filter was given {} which no compacted chain holds", show_set(&extra));
    let mut ks: Vec<By> = m.kw.keys().cloned().collect();
    ks.push(b"never indexed".to_vec());
    let got = direct(&env, &nkl, &ks)?;
    for k in &ks {
        let g = got.get(k).cloned().unwrap_or_default();
        let w = want.kw.get(k).cloned().unwrap_or_default();
        ck!(
            g == w,
            "after the filter kept {} keyword {} indexes {:?}, expected {:?}",
            show_set(&keep), show(k),
            g.iter().map(show_val).collect::<Vec<_>>(),
            w.iter().map(show_val).collect::<Vec<_>>()
        );
    }
    check_search(cx, &env, &fx, &nkl, &want, &ks, "after a filtered compaction")?;
    cx.count("filter calls", given.len() as u64);
    cx.count("data given to the filter", all_given.len() as u64);
    cx.count("chains compacted", n_comp);
    if !all_given.is_empty() {
        cx.nontrivial(hash_bytes(n_comp, format!("{m:?}{keep:?}").as_bytes()));
    }
    let note = cx.note.clone();
    cx.sample(|| note);
    Ok(())
}

// ---------------------------------------------------------------------------

static F26: Prop = Prop {
    id: "F26",
    level: "exploration",
    rule: "random indexes and compactions that must be refused: same key and label, wrong former key, foreign entries, \
           failing filter, keywords indexed under several labels of the same key (target label used or not); stores compared \
           bit for bit after an error, all associations of all labels looked up after a success. Identity: kind and contents.",
    parts: &[
        Part { name: "refused", f: f26_case, quick: 30_000, thorough: 300_000, ..P },
        Part { name: "big", f: f26_case, quick: 250, thorough: 2_500, big: 3000, ..P },
        Part { name: "labels", f: f26_labels, quick: 20_000, thorough: 200_000, ..P },
        Part { name: "labels-batches", f: f26_labels, quick: 10_000, thorough: 100_000, hooked: true, ..P },
    ],
    assumptions: &["no client modifies the index during a compaction"],
};

fn f26_case(cx: &mut Cx) -> Res {
    let r = &mut cx.r.fork();
    let env = Env::new(Mode::Seq, Log::Off, r.chance(1, 2));
    let fx = env.fx();
    let kl = Kl::random(r);
    let nk = *r.pick(&[1, 2, 3, 5, 9]);
    let u = gen::universe(r, nk, 6);
    let n = r.range(1, 6);
    let m = fill(cx, &env, &fx, &kl, &u, r, n, 20)?;
    let rate = gen::rate(r);
    let kind = r.below(5);
    let (mut old, mut new) = (kl.clone(), new_kl(r, &kl));
    let msg = format!("no such data #{}", r.u64());
    let mut foreign = None;
    let names = ["same key and label", "wrong former key", "failing filter", "entries of another key", "wrong former key equal to the new one"];
    match kind {
        0 => new = kl.clone(),
        1 => old.key = r.bytes(16),
        2 => {}
        3 => {
            let o = Kl { key: r.bytes(16), label: kl.label.clone() };
            let a = gen::some(r, &u, 3, 3, 0);
            let mut om = Model::default();
            ok(&env.w, "add by another user", modify(&fx, &o, true, &a))?;
            om.apply(true, &a);
            foreign = Some((o, om));
        }
        _ => {
            new.key = r.bytes(16);
            old.key = new.key.clone();
            old.label = kl.label.clone();
            if old == new {
                new.label.push(1);
            }
        }
    }
    cx.log(format!("compaction with {} at rate {rate}", names[kind]));
    let s0 = env.snap();
    let res = seq(
        &env.w,
        compact_f(&fx, &old, &new, rate, &|d| if kind == 2 { Err(msg.clone()) } else { Ok(d) }),
    )?;
    match res {
        Ok(()) => viol!("a compaction with {} succeeded on an index of {} entries", names[kind], s0.et.len()),
        Err(e) => {
            if kind == 2 {
                ck!(e.contains(&msg), "the error {e:?} does not contain the message of the filter");
            }
        }
    }
    let s1 = env.snap();
    ck!(s1.et == s0.et, "a refused compaction ({}) changed the Entry Table", names[kind]);
    ck!(s1.ct == s0.ct, "a refused compaction ({}) changed the Chain Table", names[kind]);
    cx.count(&format!("refused: {}", names[kind]), 1);
    let ks = m.mentioned();
    check_search(cx, &env, &fx, &kl, &m, &ks, "after a refused compaction")?;
    if let Some((o, om)) = foreign {
        check_search(cx, &env, &fx, &o, &om, &ks, "of the other user after a refused compaction")?;
    }
    cx.nontrivial(hash_bytes(kind as u64, format!("{m:?}").as_bytes()));
    let note = cx.note.clone();
    cx.sample(|| note);
    Ok(())
}

/// One key, several labels on the same tables.
fn f26_labels(cx: &mut Cx) -> Res {
    let r = &mut cx.r.fork();
    let env = Env::new(Mode::Seq, Log::Shape, r.chance(1, 2));
    let fx = env.fx();
    let key = r.bytes(16);
    let labels: Vec<By> = (0..3).map(|i| vec![b'l', i]).collect();
    let nk = *r.pick(&[1, 2, 3, 4, 7, 10]);
    let u = gen::universe(r, nk, 6);
    let shared = r.chance(2, 3);
    let n_lab = r.range(1, 2);
    let mut ms: BTreeMap<By, Model> = BTreeMap::new();
    for l in labels.iter().take(n_lab) {
        let kl = Kl { key: key.clone(), label: l.clone() };
        let mut m = Model::default();
        for _ in 0..r.range(1, 3) {
            let mut a = gen::some(r, &u, 3, nk, 0);
            if !shared {
                for (_, k) in &mut a {
                    for k in k {
                        k.extend(l);
                    }
                }
            }
            cx.log(format!("label {} add {}", show(l), show_assoc(&a)));
            ok(&env.w, "add", modify(&fx, &kl, true, &a))?;
            m.apply(true, &a);
        }
        ms.insert(l.clone(), m);
    }
    let from = Kl { key: key.clone(), label: r.pick(&labels).clone() };
    let mut to = Kl { key: if r.chance(1, 3) { r.bytes(16) } else { key.clone() }, label: r.pick(&labels).clone() };
    if to == from {
        to.label.push(7);
    }
    let rate = gen::rate(r);
    cx.log(format!("compact label {} -> {} key changed {} rate {rate}", show(&from.label), show(&to.label), to.key != key));
    let s0 = env.snap();
    env.w.log_take();
    let res = seq(&env.w, compact(&fx, &from, &to, rate))?;
    let batches = env.w.log_take().iter().filter(|e| e.tb == Tb::E && e.op == Op::Fetch).count();
    let mut all: Model = Model::default();
    for m in ms.values() {
        for (k, vs) in &m.kw {
            all.kw.entry(k.clone()).or_default().extend(vs.iter().cloned());
        }
    }
    let ks = all.mentioned();
    // Where each association can be found now.
    let mut places: Vec<Kl> = labels.iter().map(|l| Kl { key: key.clone(), label: l.clone() }).collect();
    places.push(to.clone());
    let mut found: BTreeMap<By, BTreeSet<Val>> = BTreeMap::new();
    let mut per_place = vec![];
    for p in &places {
        let d = direct(&env, p, &ks)?;
        for (k, vs) in &d {
            found.entry(k.clone()).or_default().extend(vs.iter().cloned());
        }
        per_place.push((p.clone(), d));
    }
    for (k, vs) in &all.kw {
        let f = found.get(k).cloned().unwrap_or_default();
        let lost: Vec<String> = vs.difference(&f).map(show_val).collect();
        ck!(
            lost.is_empty(),
            "compaction from label {} to {} answered {res:?} and keyword {} lost {lost:?} under every label",
            show(&from.label), show(&to.label), show(k)
        );
    }
    match &res {
        Ok(()) => {
            cx.count("successful compactions", 1);
            // Success: everything is under the new key and label.
            let d = direct(&env, &to, &ks)?;
            for (k, vs) in &all.kw {
                let f = d.get(k).cloned().unwrap_or_default();
                let lost: Vec<String> = vs.difference(&f).map(show_val).collect();
                ck!(lost.is_empty(), "a successful compaction lost {lost:?} of keyword {}", show(k));
            }
        }
        Err(_) => {
            cx.count("refused compactions", 1);
            if batches <= 1 {
                let s1 = env.snap();
                ck!(s1.et == s0.et, "a refused compaction changed the Entry Table");
                ck!(s1.ct == s0.ct, "a refused compaction changed the Chain Table");
                for (p, d) in &per_place {
                    if let Some(m) = ms.get(&p.label).filter(|_| p.key == key) {
                        for (k, vs) in &m.kw {
                            ck!(d.get(k).cloned().unwrap_or_default() == *vs, "keyword {} changed under label {} by a refused compaction", show(k), show(&p.label));
                        }
                    }
                }
            }
            if ms.len() == 1 && !ms.contains_key(&to.label) {
                viol!("a compaction without any obstacle was refused: {res:?}");
            }
        }
    }
    cx.nontrivial(hash_bytes(7, cx.note.clone().as_bytes()));
    let note = cx.note.clone();
    cx.sample(|| note);
    Ok(())
}
