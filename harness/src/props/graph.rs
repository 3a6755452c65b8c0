//! F05 (graph search) and F06 (interrupt contract).
use std::{
    cell::{Cell, RefCell},
    collections::{BTreeMap, BTreeSet},
};

use crate::{
    ck, fmt, gen,
    ix::*,
    mondb::{Log, Mode, Op, Tb},
    rng::{hash_bytes, R},
    run::{ok, seq, Cx, Part, Prop, Res, P},
    viol,
};

pub static PROPS: [&Prop; 2] = [&F05, &F06];

static F05: Prop = Prop {
    id: "F05",
    level: "exploration",
    rule: "all 512 directed graphs over three keywords x all query sets; random graphs of up to 60 keywords \
           (cycles, self-loops, diamonds, dangling pointers, deleted pointers); ladders, cliques, stars; chains \
           of up to 150 000 pointers. Answers compared with an independent breadth-first walk, lookup rounds with \
           the distance bound (farthest distance + 3). Identity: adjacency and query.",
    parts: &[
        Part { name: "exhaustive", f: f05_exhaustive, quick: 512, thorough: 512, ..P },
        Part { name: "random", f: f05_random, quick: 30_000, thorough: 300_000, ..P },
        Part { name: "shapes", f: f05_shapes, quick: 24, thorough: 96, ..P },
        Part { name: "deep", f: f05_deep, quick: 4, thorough: 8, threads: 4, cpu: 150, secs: 200, ..P },
    ],
    assumptions: &["8 MB thread stacks for the deep chains"],
};

fn bound_rounds(m: &Model, q: &[By]) -> usize {
    m.dist(q).values().max().copied().unwrap_or(0) + 3
}

/// Searches, counting the rounds.
fn search_rounds(cx: &mut Cx, env: &Env, fx: &Fx, kl: &Kl, m: &Model, q: &[By], what: &str) -> Res {
    let n = Cell::new(0);
    let got = ok(
        &env.w,
        format!("search {what}"),
        search_i(fx, kl, q, &|_, _| {
            n.set(n.get() + 1);
            Ok(false)
        }),
    )?;
    if let Some(d) = diff(&got, &m.expect(q)) {
        viol!("search {what}: {d}");
    }
    let b = bound_rounds(m, q);
    ck!(n.get() <= b, "search {what} took {} lookup rounds, the farthest keyword is at distance {}", n.get(), b - 3);
    cx.count("lookup rounds", n.get() as u64);
    cx.count("searches compared", 1);
    cx.max("rounds in one search", n.get() as u64);
    Ok(())
}

fn f05_exhaustive(cx: &mut Cx) -> Res {
    let env = Env::new(Mode::Seq, Log::Off, false);
    let fx = env.fx();
    let kl = Kl { key: vec![1; 16], label: b"l".to_vec() };
    let name = |i: usize| vec![b'A' + i as u8; 3];
    let mut a: Assoc = (0..3).map(|i| (Val::D(vec![i as u8; 2]), vec![name(i)])).collect();
    for i in 0..3 {
        for j in 0..3 {
            if cx.idx >> (3 * i + j) & 1 == 1 {
                a.push((Val::P(name(j)), vec![name(i)]));
            }
        }
    }
    let mut b: BTreeMap<Val, Vec<By>> = BTreeMap::new();
    for (v, k) in a {
        b.entry(v).or_default().extend(k);
    }
    let a: Assoc = b.into_iter().collect();
    let mut m = Model::default();
    ok(&env.w, "add", modify(&fx, &kl, true, &a))?;
    m.apply(true, &a);
    for q in 1..8usize {
        let ks: Vec<By> = (0..3).filter(|i| q >> i & 1 == 1).map(name).collect();
        search_rounds(cx, &env, &fx, &kl, &m, &ks, &format!("of graph {:09b} from {:03b}", cx.idx, q))?;
    }
    cx.nontrivial(cx.idx);
    cx.sample(|| show_assoc(&a));
    Ok(())
}

/// Random graph over `n` nodes.
pub fn random_graph(r: &mut R, n: usize) -> (Assoc, Vec<By>) {
    let ks: Vec<By> = (0..n).map(|i| format!("n{i}").into_bytes()).collect();
    let deg = r.range(0, 4);
    let mut b: BTreeMap<Val, BTreeSet<By>> = BTreeMap::new();
    for (i, k) in ks.iter().enumerate() {
        if r.chance(2, 3) {
            b.entry(Val::D(format!("d{}", r.below(n)).into_bytes())).or_default().insert(k.clone());
        }
        for _ in 0..r.range(0, deg) {
            let t = match r.below(10) {
                0 => k.clone(),
                1 => format!("dangling{}", r.below(4)).into_bytes(),
                2..=4 => ks[(i + 1) % n].clone(),
                _ => r.pick(&ks).clone(),
            };
            b.entry(Val::P(t)).or_default().insert(k.clone());
        }
    }
    (b.into_iter().map(|(v, k)| (v, k.into_iter().collect())).collect(), ks)
}

fn f05_random(cx: &mut Cx) -> Res {
    let r = &mut cx.r.fork();
    let env = Env::new(Mode::Seq, Log::Off, r.chance(1, 2));
    let fx = env.fx();
    let mut kl = Kl::random(r);
    let n = *r.pick(&[1, 2, 3, 4, 5, 6, 8, 10, 15, 30, 60]);
    let (a, mut ks) = random_graph(r, n);
    ks.extend((0..2).map(|i| format!("dangling{i}").into_bytes()));
    let mut m = Model::default();
    ok(&env.w, "add", modify(&fx, &kl, true, &a))?;
    m.apply(true, &a);
    // Some pointers removed again, the targets of others removed.
    if r.chance(1, 2) && !a.is_empty() {
        let d = r.subset(&a, 3);
        ok(&env.w, "delete", modify(&fx, &kl, false, &d))?;
        m.apply(false, &d);
    }
    if r.chance(1, 3) {
        let nkl = super::seqp::new_kl(r, &kl);
        ok(&env.w, "compact", compact(&fx, &kl, &nkl, gen::rate(r)))?;
        kl = nkl;
    }
    let mut h = hash_bytes(0, format!("{m:?}").as_bytes());
    for _ in 0..4 {
        let q = r.subset(&ks, 4);
        h = hash_bytes(h, format!("{q:?}").as_bytes());
        cx.note = format!("graph {} query {}", show_assoc(&a), show_set(&q));
        search_rounds(cx, &env, &fx, &kl, &m, &q, "of a random graph")?;
    }
    cx.nontrivial(h);
    Ok(())
}

fn f05_shapes(cx: &mut Cx) -> Res {
    let env = Env::new(Mode::Seq, Log::Off, false);
    let fx = env.fx();
    let kl = Kl { key: vec![1; 16], label: b"l".to_vec() };
    let k = |s: String| s.into_bytes();
    let mut b: BTreeMap<Val, BTreeSet<By>> = BTreeMap::new();
    let mut edge = |x: String, y: String| {
        b.entry(Val::P(y.into_bytes())).or_default().insert(x.into_bytes());
    };
    let size = 10 + 13 * (cx.idx as usize / 6);
    let shape = cx.idx % 6;
    let (q, last): (Vec<String>, String) = match shape {
        0 => {
            // Ladder: the number of paths is exponential.
            for i in 0..size * 4 {
                for (x, y) in [("a", "a"), ("a", "b"), ("b", "a"), ("b", "b")] {
                    edge(format!("{x}{i}"), format!("{y}{}", i + 1));
                }
            }
            (vec!["a0".into()], format!("b{}", size * 4))
        }
        1 => {
            for i in 0..size {
                for j in 0..size {
                    edge(format!("c{i}"), format!("c{j}"));
                }
            }
            (vec!["c0".into()], format!("c{}", size - 1))
        }
        2 => {
            for i in 0..size * 40 {
                edge("hub".into(), format!("s{i}"));
            }
            (vec!["hub".into()], format!("s{}", size * 40 - 1))
        }
        3 => {
            for i in 0..size * 10 {
                edge(format!("r{i}"), format!("r{}", (i + 1) % (size * 10)));
            }
            (vec!["r0".into(), "r5".into()], format!("r{}", size * 10 - 1))
        }
        4 => {
            // Binary tree with links back to the root.
            for i in 1..size * 8 {
                edge(format!("t{i}"), format!("t{}", 2 * i));
                edge(format!("t{i}"), format!("t{}", 2 * i + 1));
                edge(format!("t{i}"), "t1".into());
            }
            (vec!["t1".into()], format!("t{}", size * 8))
        }
        _ => {
            for i in 0..size * 10 {
                edge(format!("x{i}"), format!("x{}", i + 1));
                edge(format!("x{}", i + 1), format!("x{i}"));
            }
            (vec![format!("x{}", size * 5)], format!("x{}", size * 10))
        }
    };
    let mut a: Assoc = b.into_iter().map(|(v, k)| (v, k.into_iter().collect())).collect();
    a.push((Val::D(b"end".to_vec()), vec![k(last)]));
    let mut m = Model::default();
    ok(&env.w, "add", modify(&fx, &kl, true, &a))?;
    m.apply(true, &a);
    let q: Vec<By> = q.into_iter().map(k).collect();
    ck!(m.reach(&q[0]).len() == 1, "model: end not reachable");
    search_rounds(cx, &env, &fx, &kl, &m, &q, &format!("of shape {shape} size {size}"))?;
    cx.nontrivial(cx.idx);
    Ok(())
}

fn f05_deep(cx: &mut Cx) -> Res {
    let env = Env::new(Mode::Seq, Log::Off, false);
    let fx = env.fx();
    let kl = Kl { key: vec![1; 16], label: b"l".to_vec() };
    let n: u32 = [150_000, 60_000, 20_000, 5_000][cx.idx as usize % 4];
    let cyc = cx.idx % 2 == 1;
    let name = |i: u32| i.to_be_bytes().to_vec();
    let mut a: Assoc = (0..n).map(|i| (Val::P(name(i + 1)), vec![name(i)])).collect();
    a.push((Val::D(b"deep data".to_vec()), vec![name(n)]));
    if cyc {
        a.push((Val::P(name(0)), vec![name(n)]));
    }
    ok(&env.w, "add", modify(&fx, &kl, true, &a))?;
    let rounds = Cell::new(0u32);
    let got = ok(
        &env.w,
        format!("search through {n} pointers"),
        search_i(&fx, &kl, &[name(0)], &|_, _| {
            rounds.set(rounds.get() + 1);
            Ok(false)
        }),
    )?;
    ck!(
        got == BTreeMap::from([(name(0), BTreeSet::from([b"deep data".to_vec()]))]),
        "the data behind {n} pointers is not found"
    );
    ck!(rounds.get() <= n + 4, "{} rounds for a chain of {n} pointers", rounds.get());
    cx.count("lookup rounds", rounds.get() as u64);
    cx.max("pointer depth", n as u64);
    cx.nontrivial(cx.idx);
    Ok(())
}

// ---------------------------------------------------------------------------

static F06: Prop = Prop {
    id: "F06",
    level: "exploration",
    rule: "random graphs searched with a recording callback that lets the search finish, stops it or fails at \
           a chosen round (also beyond the last one); every call is compared with the associations at that distance, \
           backend requests are counted before and after the decision. Identity: graph, query, decision round.",
    parts: &[Part { name: "callback", f: f06_case, quick: 60_000, thorough: 600_000, ..P }],
    assumptions: &["no client modifies the index during a search"],
};

fn f06_case(cx: &mut Cx) -> Res {
    let r = &mut cx.r.fork();
    let env = Env::new(Mode::Seq, Log::Full, r.chance(1, 2));
    let fx = env.fx();
    let mut kl = Kl::random(r);
    let n = *r.pick(&[1, 2, 3, 4, 5, 6, 8, 10, 15, 30]);
    let (a, mut ks) = random_graph(r, n);
    ks.push(b"dangling0".to_vec());
    let mut m = Model::default();
    ok(&env.w, "add", modify(&fx, &kl, true, &a))?;
    m.apply(true, &a);
    if r.chance(1, 3) && !a.is_empty() {
        let d = r.subset(&a, 3);
        ok(&env.w, "delete", modify(&fx, &kl, false, &d))?;
        m.apply(false, &d);
    }
    if r.chance(1, 4) {
        let nkl = super::seqp::new_kl(r, &kl);
        ok(&env.w, "compact", compact(&fx, &kl, &nkl, 0.5))?;
        kl = nkl;
    }
    let q = r.subset(&ks, 4);
    let dist = m.dist(&q);
    let far = dist.values().max().copied().unwrap_or(0);
    let decision = r.below(3);
    let at = r.below(far + 3);
    cx.note = format!(
        "graph {} query {} {} at round {at}",
        show_assoc(&a),
        show_set(&q),
        ["never stopped", "stopped", "failing"][decision]
    );
    let rounds: RefCell<Vec<Round>> = RefCell::new(vec![]);
    let calls_at_end = Cell::new(None);
    let msg = format!("callback refused #{}", r.u64());
    env.w.log_take();
    let res = seq(
        &env.w,
        search_i(&fx, &kl, &q, &|i, round| {
            rounds.borrow_mut().push(round);
            if i == at && decision > 0 {
                calls_at_end.set(Some(env.w.log_len()));
                return if decision == 1 { Ok(true) } else { Err(msg.clone()) };
            }
            Ok(false)
        }),
    )?;
    let log = env.w.log_take();
    let rounds = rounds.into_inner();
    cx.count("callback calls checked", rounds.len() as u64);
    ck!(!rounds.is_empty(), "the callback was never called");
    let mut fed: BTreeMap<By, BTreeSet<Val>> = BTreeMap::new();
    for (i, round) in rounds.iter().enumerate() {
        for (k, vs) in round {
            let Some(d) = dist.get(k) else {
                viol!("round {i} reports keyword {} which is not reachable", show(k));
            };
            ck!(*d <= i, "round {i} reports keyword {} which is at distance {d}", show(k));
            if i == 0 {
                ck!(q.contains(k), "the first round reports {} which was not queried", show(k));
            }
            let want = m.kw.get(k).cloned().unwrap_or_default();
            ck!(*vs == want, "round {i} reports other associations for keyword {} than the indexed ones", show(k));
            fed.insert(k.clone(), vs.clone());
        }
        for (k, d) in &dist {
            if *d == i && m.kw.get(k).is_some_and(|v| !v.is_empty()) {
                ck!(round.contains_key(k) , "round {i} does not report keyword {} at distance {d}", show(k));
            }
        }
    }
    let fetches = log.iter().filter(|e| e.tb == Tb::E && e.op == Op::Fetch).count();
    ck!(fetches == rounds.len(), "{} callback calls for {fetches} lookup rounds", rounds.len());
    // What each round retrieved.
    let ek = fmt::et_key(&kl.key);
    let asked = log.iter().filter(|e| e.tb == Tb::E && e.op == Op::Fetch);
    for (i, (round, e)) in rounds.iter().zip(asked).enumerate() {
        let toks: BTreeSet<&[u8]> = e.toks.iter().map(|t| &**t).collect();
        for (k, vs) in round.iter().filter(|(_, vs)| !vs.is_empty()) {
            ck!(
                toks.contains(&fmt::et_token(&ek, &fmt::tag_hash(k), &kl.label)[..]),
                "round {i} reports {} associations of keyword {}, which this round did not look up",
                vs.len(),
                show(k)
            );
        }
        for k in m.kw.iter().filter(|(k, v)| !v.is_empty() && !round.contains_key(*k)).map(|x| x.0) {
            ck!(
                !toks.contains(&fmt::et_token(&ek, &fmt::tag_hash(k), &kl.label)[..]),
                "round {i} looks keyword {} up and does not report it",
                show(k)
            );
        }
        cx.count("rounds compared with the requests", 1);
    }
    if let Some(c) = calls_at_end.get() {
        ck!(rounds.len() == at + 1, "the callback was called again after its decision of round {at}");
        ck!(log.len() == c, "{} more backend requests after the callback decided at round {at}", log.len() - c);
        cx.count(if decision == 1 { "searches stopped" } else { "searches failed" }, 1);
    }
    match (decision, calls_at_end.get()) {
        (2, Some(_)) => {
            let e = match res {
                Ok(_) => viol!("the search succeeded although its callback failed"),
                Err(e) => e,
            };
            ck!(e.contains(&msg), "the error {e:?} does not contain the callback's message");
        }
        _ => {
            let got = crate::run::must(res, "search")?;
            // Exactly what is reachable within what was given.
            let sub = Model { kw: fed };
            if let Some(d) = diff(&got, &sub.expect(&q)) {
                viol!("result of the search: {d}");
            }
            if calls_at_end.get().is_none() {
                if let Some(d) = diff(&got, &m.expect(&q)) {
                    viol!("result of the uninterrupted search: {d}");
                }
            }
        }
    }
    cx.nontrivial(hash_bytes(at as u64 * 3 + decision as u64, cx.note.clone().as_bytes()));
    let note = cx.note.clone();
    cx.sample(|| note);
    Ok(())
}
