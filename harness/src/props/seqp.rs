//! Sequential properties: F01, F02, F07, F08, F09.
use std::collections::BTreeSet;

use crate::{
    ck, fmt, gen,
    ix::*,
    mondb::{Log, Mode, Tb},
    rng::{hash_bytes, mix, R},
    run::{must, ok, seq, Cx, Part, Prop, Res, P},
    viol,
};

pub static PROPS: [&Prop; 5] = [&F01, &F02, &F07, &F08, &F09];

static F01: Prop = Prop {
    id: "F01",
    level: "exploration",
    rule: "random histories of add / delete / compact / search / restart over a small universe of \
           byte strings, every search compared with a reference multi-map and graph walk; plus every \
           sequence of five operations on one keyword; histories over hundreds of keywords and large sets of values. A case counts when at least one search returned \
           data and one association was deleted or compacted; identity: hash of the history.",
    parts: &[
        Part { name: "history", f: f01_history, quick: 60_000, thorough: 600_000, ..P },
        Part { name: "big-history", f: f01_history, quick: 250, thorough: 2_500, big: 3000, ..P },
        Part { name: "exhaustive", f: f01_exhaustive, quick: 3_125, thorough: 15_625 + 3_125, ..P },
        Part { name: "wide", f: f01_wide, quick: 24, thorough: 200, ..P },
        Part { name: "scale", f: f01_scale, quick: 14, thorough: 70, cpu: 150, secs: 200, ..P },
    ],
    assumptions: &["one client at a time", "backend honours the documented contract"],
};

pub fn new_kl(r: &mut R, old: &Kl) -> Kl {
    let mut n = old.clone();
    match r.below(3) {
        0 => n.key = r.bytes(16),
        1 => n.label = Kl::random(r).label,
        _ => n = Kl::random(r),
    }
    if n == *old {
        n.label.push(1);
    }
    n
}

/// Searches `ks` and compares with the model.
pub fn check_search(cx: &mut Cx, env: &Env, fx: &Fx, kl: &Kl, m: &Model, ks: &[By], when: &str) -> Res<Res2> {
    let got = ok(&env.w, format!("search ({when})"), search(fx, kl, ks))?;
    cx.count("searches compared", 1);
    cx.count("data returned", got.values().map(|v| v.len() as u64).sum());
    if let Some(d) = diff(&got, &m.expect(ks)) {
        viol!("search {when}: {d}");
    }
    Ok(got)
}

fn f01_history(cx: &mut Cx) -> Res {
    let r = &mut cx.r.fork();
    let (nk, nd) = (r.range(1, 6), r.range(1, 8));
    let u = gen::universe(r, nk, nd);
    let env = Env::new(Mode::Seq, Log::Off, r.chance(1, 2));
    let mut kl = Kl::random(r);
    let mut m = Model::default();
    let mut fx = env.fx();
    let ptr = *r.pick(&[0, 20, 50]);
    let n = r.range(2, 14);
    let mut h = 0;
    let (mut data, mut mods) = (0, 0);
    for i in 0..n {
        match r.below(20) {
            0..=8 => {
                let a = gen::assoc(r, &u, 4, 3, ptr);
                cx.log(format!("add {}", show_assoc(&a)));
                h = hash_bytes(h, format!("+{a:?}").as_bytes());
                ok(&env.w, "add", modify(&fx, &kl, true, &a))?;
                m.apply(true, &a);
            }
            9..=14 => {
                let mut a = gen::assoc(r, &u, 3, 3, ptr);
                // Mostly delete what exists.
                if r.chance(3, 4) {
                    let all: Vec<(Val, By)> = m
                        .kw
                        .iter()
                        .flat_map(|(k, vs)| vs.iter().map(move |v| (v.clone(), k.clone())))
                        .collect();
                    if !all.is_empty() {
                        let (v, k) = r.pick(&all).clone();
                        a = vec![(v, vec![k])];
                    }
                }
                cx.log(format!("delete {}", show_assoc(&a)));
                h = hash_bytes(h, format!("-{a:?}").as_bytes());
                ok(&env.w, "delete", modify(&fx, &kl, false, &a))?;
                m.apply(false, &a);
                mods += 1;
            }
            15 | 16 => {
                let nkl = new_kl(r, &kl);
                let rate = gen::rate(r);
                cx.log(format!("compact rate {rate}"));
                h = hash_bytes(h, format!("c{rate}").as_bytes());
                ok(&env.w, "compact", compact(&fx, &kl, &nkl, rate))?;
                kl = nkl;
                mods += 1;
                cx.count("compactions", 1);
            }
            17 => fx = env.fx(),
            _ => {}
        }
        let mut ks = r.subset(&u.kw, 3);
        if r.chance(1, 4) {
            ks.push(gen::byte_string(r));
        }
        if i + 1 == n {
            ks = u.kw.clone();
            ks.extend(m.mentioned());
        }
        let g = check_search(cx, &env, &fx, &kl, &m, &ks, &format!("after operation {i}"))?;
        data += g.values().map(BTreeSet::len).sum::<usize>();
    }
    // Each keyword alone gives the same as all together.
    for k in &u.kw {
        check_search(cx, &env, &fx, &kl, &m, &[k.clone()], "of a single keyword")?;
    }
    let e = ok(&env.w, "search of no keyword", search(&fx, &kl, &[]))?;
    ck!(e.is_empty(), "a search of no keyword returned something");
    cx.count("operations", n as u64);
    if data > 0 && mods > 0 {
        cx.nontrivial(h);
    }
    let note = cx.note.clone();
    cx.sample(|| note);
    Ok(())
}

fn f01_exhaustive(cx: &mut Cx) -> Res {
    // Every sequence of 5 (then 6) operations over 5 operation kinds.
    let mut i = cx.idx;
    let len = if i < 3_125 { 5 } else { i -= 3_125; 6 };
    let env = Env::new(Mode::Seq, Log::Off, false);
    let fx = env.fx();
    let mut kl = Kl { key: vec![7; 16], label: vec![] };
    let k = b"k".to_vec();
    let a = Val::D(b"a".to_vec());
    let b = Val::D(b"b".to_vec());
    let mut m = Model::default();
    let mut s = String::new();
    for _ in 0..len {
        let op = i % 5;
        i /= 5;
        if op == 4 {
            let mut n = kl.clone();
            n.label.push(1);
            s.push('C');
            ok(&env.w, "compact", compact(&fx, &kl, &n, 1.0))?;
            kl = n;
        } else {
            let v = if op & 1 == 0 { &a } else { &b };
            let add = op < 2;
            s.push_str(["a+", "b+", "a-", "b-"][op as usize]);
            let asc = vec![(v.clone(), vec![k.clone()])];
            ok(&env.w, "modification", modify(&fx, &kl, add, &asc))?;
            m.apply(add, &asc);
        }
        cx.note = s.clone();
        check_search(cx, &env, &fx, &kl, &m, &[k.clone()], &format!("after {s}"))?;
    }
    cx.nontrivial_s(&s);
    cx.sample(|| s);
    Ok(())
}

fn f01_wide(cx: &mut Cx) -> Res {
    // Many keywords in one operation / many operations on one keyword.
    let r = &mut cx.r.fork();
    let env = Env::new(Mode::Seq, Log::Off, cx.idx % 2 == 0);
    let fx = env.fx();
    let mut kl = Kl::random(r);
    let mut m = Model::default();
    let ks: Vec<By> = (0..400).map(|i| format!("keyword {i}").into_bytes()).collect();
    let wide = cx.idx % 3;
    let n = if wide == 0 { 6 } else { 120 };
    for i in 0..n {
        let a: Assoc = if wide == 0 {
            (0..30)
                .map(|_| (Val::D(r.bytes(12)), r.subset(&ks, 120)))
                .collect()
        } else {
            vec![(Val::D(vec![r.below(20) as u8; 3]), vec![ks[0].clone()])]
        };
        let add = r.chance(2, 3);
        ok(&env.w, "modification", modify(&fx, &kl, add, &a))?;
        m.apply(add, &a);
        if wide == 0 && add {
            // remove part of it again
            let d: Assoc = a.iter().take(7).cloned().collect();
            ok(&env.w, "delete", modify(&fx, &kl, false, &d))?;
            m.apply(false, &d);
        }
        if i % 40 == 39 {
            let n = new_kl(r, &kl);
            ok(&env.w, "compact", compact(&fx, &kl, &n, 0.5))?;
            kl = n;
        }
    }
    check_search(cx, &env, &fx, &kl, &m, &ks, "of all keywords")?;
    let n = new_kl(r, &kl);
    ok(&env.w, "compact", compact(&fx, &kl, &n, 1.0))?;
    check_search(cx, &env, &fx, &n, &m, &ks, "of all keywords after compaction")?;
    cx.nontrivial(cx.seed);
    Ok(())
}

// ---------------------------------------------------------------------------

/// Counts above what 8 and 16 bits hold, in each dimension of an index.
fn f01_scale(cx: &mut Cx) -> Res {
    let r = &mut cx.r.fork();
    let env = Env::new(Mode::Seq, Log::Off, cx.idx % 2 == 0);
    let fx = env.fx();
    let mut kl = Kl::random(r);
    let mut m = Model::default();
    let big = 65_536 + r.range(10, 3_000);
    let k = |i: usize| format!("k{i}").into_bytes();
    let d = |i: usize| Val::D(i.to_le_bytes().to_vec());
    let (what, ops): (&str, Vec<(bool, Assoc)>) = match cx.idx % 7 {
        // The lines of a keyword (five short values in each), added at once, then more.
        0 => ("lines of a keyword", vec![
            (true, (0..5 * big).map(|i| (d(i), vec![k(0)])).collect()),
            (false, (0..300).map(|i| (d(i * 7), vec![k(0)])).collect()),
            (true, vec![(d(0), vec![k(0)]), (d(5 * big), vec![k(0)])]),
        ]),
        // The values of a keyword, with operations of moderate size.
        1 => ("values of a keyword", (0..70).map(|j| (j % 9 != 4, (0..1_000).map(|i| (d(if j % 9 == 4 { j * 990 - i } else { j * 1_000 + i }), vec![k(0)])).collect())).collect()),
        // The keywords of an operation.
        2 => ("keywords of an operation", vec![
            (true, vec![(d(1), (0..big).map(k).collect())]),
            (true, (0..40).map(|i| (d(i + 2), vec![k(i * 1_000)])).collect()),
            (false, vec![(d(1), (0..500).map(|i| k(i * 3)).collect())]),
        ]),
        // The operations on a keyword.
        3 => ("operations on a keyword", (0..big).map(|i| (i % 11 != 10, vec![(d(i - i % 11 / 10 * 5), vec![k(0)])])).collect()),
        // The bytes of a value, of a pointer and of a keyword.
        4 => {
            let long = r.bytes(16 * big);
            let mut twin = long.clone();
            twin[16 * big - 1] ^= 1;
            ("bytes of a keyword and of a value", vec![
                (true, vec![
                    (Val::D(long.clone()), vec![k(0), long.clone()]),
                    (Val::P(long.clone()), vec![k(1)]),
                    (Val::P(twin.clone()), vec![k(2)]),
                    (Val::D(b"twin".to_vec()), vec![twin.clone()]),
                ]),
                (false, vec![(Val::D(twin), vec![k(0)])]),
                (false, vec![(Val::P(long), vec![k(1)])]),
            ])
        }
        // The pointers from and to a keyword.
        5 => ("pointers of a keyword", vec![
            (true, (0..big).map(|i| (Val::P(k(i + 1)), vec![k(0)])).collect()),
            (true, (1..=big).filter(|i| i % 16 == 0 || *i + 20 > big).map(|i| (d(i), vec![k(i)])).collect()),
            (false, vec![(Val::P(k(16)), vec![k(0)])]),
        ]),
        // A value indexed under many keywords pointing to one.
        _ => ("pointers to a keyword", vec![
            (true, vec![(Val::P(k(0)), (1..=big).map(k).collect()), (d(7), vec![k(0)])]),
            (false, vec![(Val::P(k(0)), (1..300).map(|i| k(2 * i)).collect())]),
        ]),
    };
    for (add, a) in &ops {
        ok(&env.w, "modification", modify(&fx, &kl, *add, a))?;
        m.apply(*add, a);
    }
    let mut ks: Vec<By> = (0..3).map(k).collect();
    match cx.idx % 7 {
        2 => ks = (0..big + 5).map(k).collect(),
        4 => ks = m.mentioned(),
        6 => ks = (0..big + 5).step_by(if cx.thorough { 1 } else { 20 }).map(k).collect(),
        _ => {}
    }
    check_search(cx, &env, &fx, &kl, &m, &ks, &format!("with {big} {what}"))?;
    let n = new_kl(r, &kl);
    ok(&env.w, "compact", compact(&fx, &kl, &n, 1.0))?;
    kl = n;
    check_search(cx, &env, &fx, &kl, &m, &ks, &format!("with {big} {what}, after a compaction"))?;
    // Still updatable.
    let a: Assoc = vec![(Val::D(b"last".to_vec()), vec![k(0), k(2), k(big + 9)])];
    ok(&env.w, "add", modify(&fx, &kl, true, &a))?;
    m.apply(true, &a);
    check_search(cx, &env, &fx, &kl, &m, &[k(0), k(2), k(big + 9)], &format!("with {big} {what}, after an addition"))?;
    cx.max(&format!("scale: {what}"), big as u64);
    cx.nontrivial(mix(cx.idx));
    cx.sample(|| format!("{big} {what}"));
    Ok(())
}

static F02: Prop = Prop {
    id: "F02",
    level: "exploration",
    rule: "every length 0..=700 (and selected ones up to 1.1 MB) x data / pointer / keyword x byte \
           contents, alone; random groups of hostile values in one operation; add, search, delete, \
           re-add, compact, each answer compared byte for byte. Identity: role, length and content class.",
    parts: &[
        Part { name: "lengths", f: f02_lengths, quick: 701 * 3, thorough: 701 * 3 * 8, ..P },
        Part { name: "together", f: f02_together, quick: 40_000, thorough: 400_000, ..P },
        Part { name: "large", f: f02_large, quick: 60, thorough: 600, ..P },
        Part { name: "bytes", f: f02_bytes, quick: 256 * 3, thorough: 256 * 3, ..P },
    ],
    assumptions: &["one client at a time"],
};

/// add / search / delete / re-add / compact of one value next to neighbours.
fn lossless(cx: &mut Cx, k: By, v: Val, r: &mut R) -> Res {
    let env = Env::new(Mode::Seq, Log::Off, r.chance(1, 2));
    let fx = env.fx();
    let kl = Kl::random(r);
    let mut m = Model::default();
    let other = {
        let mut o = k.clone();
        o.push(0);
        o
    };
    let near = match &v {
        Val::D(d) => {
            let mut d = d.clone();
            d.push(0);
            Val::D(d)
        }
        Val::P(d) => Val::D(d.clone()),
    };
    let tgt = if let Val::P(p) = &v { p.clone() } else { k.clone() };
    let steps: Vec<(bool, Assoc)> = vec![
        (true, vec![(v.clone(), vec![k.clone(), other.clone()])]),
        (true, vec![(Val::D(b"target data".to_vec()), vec![tgt.clone()])]),
        (true, vec![(near.clone(), vec![k.clone()])]),
        (false, vec![(near, vec![k.clone()])]),
        (false, vec![(v.clone(), vec![k.clone()])]),
        (true, vec![(v.clone(), vec![k.clone()])]),
        (false, vec![(v.clone(), vec![other.clone()])]),
    ];
    let ks = vec![k.clone(), other, tgt, vec![]];
    for (i, (add, a)) in steps.iter().enumerate() {
        cx.note = format!("step {i}: value {} under keyword {}", show_val(&v), show(&k));
        ok(&env.w, format!("{} of {} under {}", if *add { "add" } else { "delete" }, show_val(&v), show(&k)), modify(&fx, &kl, *add, a))?;
        m.apply(*add, a);
        check_search(cx, &env, &fx, &kl, &m, &ks, &format!("after step {i} for value {} under {}", show_val(&v), show(&k)))?;
    }
    let mut old = kl;
    for rate in [1.0, 1.0] {
        let n = new_kl(r, &old);
        ok(&env.w, format!("compaction with value {}", show_val(&v)), compact(&fx, &old, &n, rate))?;
        check_search(cx, &env, &fx, &n, &m, &ks, &format!("after compaction, value {} under {}", show_val(&v), show(&k)))?;
        old = n;
    }
    Ok(())
}
fn role(i: u64, b: By, other: By) -> (By, Val) {
    match i {
        0 => (other, Val::D(b)),
        1 => (other, Val::P(b)),
        _ => (b, Val::D(other)),
    }
}
fn f02_lengths(cx: &mut Cx) -> Res {
    let r = &mut cx.r.fork();
    let n = (cx.idx / 3 % 701) as usize;
    let b = gen::content(r, n);
    let (k, v) = role(cx.idx % 3, b, b"other".to_vec());
    cx.nontrivial(mix(cx.idx % (701 * 3)));
    cx.sample(|| format!("length {n}: {} under {}", show_val(&v), show(&k)));
    lossless(cx, k, v, r)
}
fn f02_bytes(cx: &mut Cx) -> Res {
    let r = &mut cx.r.fork();
    let c = (cx.idx / 3) as u8;
    for n in [1, 2, 15, 16, 17, 31, 33, 79, 80] {
        let (k, v) = role(cx.idx % 3, vec![c; n], b"other".to_vec());
        lossless(cx, k, v, r)?;
    }
    cx.nontrivial(cx.idx);
    Ok(())
}
fn f02_large(cx: &mut Cx) -> Res {
    let r = &mut cx.r.fork();
    let base = *r.pick(&[1_000, 4_080, 4_096, 20_000, 65_535, 65_536, 200_000, 1_048_560, 1_114_000]);
    let n = base + r.below(20);
    let b = gen::content(r, n);
    let (k, v) = role(cx.idx % 3, b, b"other".to_vec());
    cx.nontrivial(n as u64 * 3 + cx.idx % 3);
    lossless(cx, k, v, r)
}
fn f02_together(cx: &mut Cx) -> Res {
    let r = &mut cx.r.fork();
    let env = Env::new(Mode::Seq, Log::Off, r.chance(1, 2));
    let fx = env.fx();
    let mut kl = Kl::random(r);
    let mut m = Model::default();
    let (nk, nd) = (r.range(1, 3), r.range(2, 24));
    let u = gen::universe(r, nk, nd);
    let mut h = 0;
    for _ in 0..r.range(1, 4) {
        let a: Assoc = {
            let mut vals: Vec<Val> = u.data.iter().map(|d| Val::D(d.clone())).collect();
            vals.extend(u.data.iter().take(4).map(|d| Val::P(d.clone())));
            vals = r.subset(&vals, nd);
            vals.into_iter().map(|v| (v, r.subset(&u.kw, nk))).collect()
        };
        let add = m.live() == 0 || r.chance(2, 3);
        h = hash_bytes(h, format!("{add}{a:?}").as_bytes());
        cx.log(format!("{} {}", if add { "add" } else { "delete" }, show_assoc(&a)));
        ok(&env.w, "modification", modify(&fx, &kl, add, &a))?;
        m.apply(add, &a);
        let ks = m.mentioned();
        check_search(cx, &env, &fx, &kl, &m, &ks, "after values added or deleted together")?;
        if r.chance(1, 3) {
            let n = new_kl(r, &kl);
            ok(&env.w, "compaction", compact(&fx, &kl, &n, gen::rate(r)))?;
            kl = n;
            check_search(cx, &env, &fx, &kl, &m, &ks, "after compaction")?;
        }
    }
    cx.count("values indexed together", m.live() as u64);
    cx.nontrivial(h);
    Ok(())
}

// ---------------------------------------------------------------------------

static F07: Prop = Prop {
    id: "F07",
    level: "exploration",
    rule: "random indexes (with duplicates, deletions, pointers, empty chains), answers of all keywords \
           recorded, then one to four successive compactions (key, label or both changed; rates 0..1) with \
           the answers compared after each; the same with a batch size of 4 (hook) so that an index spans \
           up to eight batches. Counts when data is indexed and at least two lines existed; identity: hash of the contents.",
    parts: &[
        Part { name: "one-batch", f: f07_case, quick: 30_000, thorough: 300_000, ..P },
        Part { name: "big", f: f07_case, quick: 250, thorough: 2_500, big: 3000, ..P },
        Part { name: "many-batches", f: f07_case, quick: 20_000, thorough: 200_000, hooked: true, ..P },
        Part { name: "sizes", f: f07_sizes, quick: 41 * 4, thorough: 41 * 40, hooked: true, ..P },
        Part { name: "million", f: f07_million, quick: 0, thorough: 1, threads: 1, cpu: 800, secs: 800, ..P },
    ],
    assumptions: &["no client modifies the index during a compaction", "filter returns everything"],
};

/// Random index content: returns the model.
pub fn fill(cx: &mut Cx, env: &Env, fx: &Fx, kl: &Kl, u: &gen::Uni, r: &mut R, n: usize, ptr: usize) -> Res<Model> {
    let mut m = Model::default();
    for _ in 0..n {
        let add = m.live() == 0 || r.chance(7, 10);
        let some = if m.live() == 0 { gen::some } else { gen::assoc };
        let a = some(r, u, 4, u.kw.len().min(6), ptr);
        cx.log(format!("{} {}", if add { "add" } else { "delete" }, show_assoc(&a)));
        ok(&env.w, "modification", modify(fx, kl, add, &a))?;
        m.apply(add, &a);
    }
    Ok(m)
}

fn f07_case(cx: &mut Cx) -> Res {
    let r = &mut cx.r.fork();
    let env = Env::new(Mode::Seq, Log::Off, r.chance(1, 2));
    let fx = env.fx();
    let mut kl = Kl::random(r);
    let nk = *r.pick(&[1, 2, 3, 5, 8, 13, 20, 30]);
    let u = gen::universe(r, nk, 6);
    let n = r.range(0, 10);
    let m = fill(cx, &env, &fx, &kl, &u, r, n, 25)?;
    let mut ks = m.mentioned();
    ks.extend(u.kw.iter().cloned());
    ks.sort();
    ks.dedup();
    let before = ok(&env.w, "search before", search(&fx, &kl, &ks))?;
    if env.ct.len() > 1 && m.live() > 0 {
        cx.nontrivial(hash_bytes(0, format!("{m:?}").as_bytes()));
    }
    for c in 0..r.range(1, 4) {
        let nkl = new_kl(r, &kl);
        let rate = gen::rate(r);
        cx.log(format!("compact {c} rate {rate}"));
        ok(&env.w, format!("compaction {c} (rate {rate}, {} entries)", env.et.len()), compact(&fx, &kl, &nkl, rate))?;
        kl = nkl;
        cx.count("compactions compared", 1);
        cx.max("entries", env.et.len() as u64);
        // Through the same or another index object.
        let f2 = env.fx();
        let after = ok(&env.w, "search after", search(if r.chance(1, 2) { &fx } else { &f2 }, &kl, &ks))?;
        if let Some(d) = diff(&after, &before) {
            viol!("answers changed by compaction {c} (rate {rate}, {} entries): {d}", env.et.len());
        }
    }
    // The index still works for modifications afterwards.
    let mut m = m;
    let a = gen::assoc(r, &u, 2, 2, 20);
    ok(&env.w, "add after compaction", modify(&fx, &kl, true, &a))?;
    m.apply(true, &a);
    check_search(cx, &env, &fx, &kl, &m, &u.kw, "after compaction then addition")?;
    let note = cx.note.clone();
    cx.sample(|| note);
    Ok(())
}
/// Exactly n keywords for every n around the batch size multiples.
fn f07_sizes(cx: &mut Cx) -> Res {
    let r = &mut cx.r.fork();
    let n = (cx.idx % 41) as usize;
    let env = Env::new(Mode::Seq, Log::Shape, false);
    let fx = env.fx();
    let mut kl = Kl::random(r);
    let mut m = Model::default();
    let ks: Vec<By> = (0..n).map(|i| format!("k{i}").into_bytes()).collect();
    let a: Assoc = ks.iter().map(|k| (Val::D(k.clone()), vec![k.clone()])).collect();
    if n > 0 {
        ok(&env.w, "add", modify(&fx, &kl, true, &a))?;
        m.apply(true, &a);
        let d: Assoc = a.iter().step_by(5).cloned().collect();
        ok(&env.w, "delete", modify(&fx, &kl, false, &d))?;
        m.apply(false, &d);
    }
    for rate in [0.4, 1.0, 0.0] {
        let nkl = new_kl(r, &kl);
        env.w.log_take();
        ok(&env.w, format!("compaction of {n} entries"), compact(&fx, &kl, &nkl, rate))?;
        let log = env.w.log_take();
        let b = log.iter().filter(|e| e.tb == Tb::E && e.op == crate::mondb::Op::Fetch).count();
        cx.max("batches in one compaction", b as u64);
        kl = nkl;
        check_search(cx, &env, &fx, &kl, &m, &ks, &format!("after compacting {n} entries at rate {rate}"))?;
    }
    cx.nontrivial(n as u64);
    Ok(())
}
fn f07_million(cx: &mut Cx) -> Res {
    let r = &mut cx.r.fork();
    let env = Env::new(Mode::Seq, Log::Shape, false);
    let fx = env.fx();
    let kl = Kl::random(r);
    let n = 1_000_300u32;
    let mut i = 0;
    while i < n {
        let a: Assoc = (i..(i + 50_000).min(n))
            .map(|i| (Val::D(i.to_le_bytes().to_vec()), vec![i.to_be_bytes().to_vec()]))
            .collect();
        ok(&env.w, "add", modify(&fx, &kl, true, &a))?;
        i += 50_000;
    }
    let nkl = new_kl(r, &kl);
    env.w.log_take();
    ok(&env.w, "compaction of a million entries", compact(&fx, &kl, &nkl, 0.2))?;
    let b = env.w.log_take().iter().filter(|e| e.tb == Tb::E && e.op == crate::mondb::Op::Fetch).count();
    cx.max("batches in one compaction", b as u64);
    ck!(env.et.len() == n as usize, "{} entries instead of {n}", env.et.len());
    let mut i = 0;
    while i < n {
        let ks: Vec<By> = (i..(i + 50_000).min(n)).map(|i| i.to_be_bytes().to_vec()).collect();
        let got = ok(&env.w, "search", search(&fx, &nkl, &ks))?;
        for j in i..(i + 50_000).min(n) {
            let want = BTreeSet::from([j.to_le_bytes().to_vec()]);
            ck!(got.get(&j.to_be_bytes().to_vec()) == Some(&want), "keyword {j} lost by the compaction");
        }
        i += 50_000;
    }
    cx.nontrivial(1);
    Ok(())
}

// ---------------------------------------------------------------------------

static F08: Prop = Prop {
    id: "F08",
    level: "exploration",
    rule: "random histories; after every operation the number of Entry Table lines, the growth of the Chain \
           Table and, after full compactions, the exact minimal number of lines are compared with the model, \
           and every stored line is traced to a keyword by an independent reader. Identity: hash of the history.",
    parts: &[
        Part { name: "history", f: f08_case, quick: 30_000, thorough: 300_000, ..P },
        Part { name: "big", f: f08_case, quick: 250, thorough: 2_500, big: 3000, ..P },
        Part { name: "many-batches", f: f08_case, quick: 12_000, thorough: 120_000, hooked: true, ..P },
    ],
    assumptions: &["one client at a time", "format of F19 (independent reader)"],
};

/// Every stored line belongs to an indexed keyword: returns (entries, lines).
pub fn trace_lines(s: &Snap, kl: &Kl) -> Res<(usize, usize)> {
    let all = must(fmt::read_all(&s.et, &s.ct, &kl.key), "independent reading of the index")?;
    let mut used: BTreeSet<[u8; 32]> = BTreeSet::new();
    for (_, v) in &all {
        ck!(v.missing == 0, "{} lines of a chain are missing", v.missing);
        for t in &v.chain {
            ck!(used.insert(*t), "a chain line is shared by two keywords");
        }
    }
    for t in s.ct.keys() {
        ck!(used.contains(t), "the Chain Table holds {} lines, only {} of them belong to an indexed keyword", s.ct.len(), used.len());
    }
    Ok((all.len(), used.len()))
}

fn f08_case(cx: &mut Cx) -> Res {
    let r = &mut cx.r.fork();
    let env = Env::new(Mode::Seq, Log::Off, r.chance(1, 2));
    let fx = env.fx();
    let mut kl = Kl::random(r);
    let nk = r.range(1, 10);
    let nd = r.range(1, 12);
    let u = gen::universe(r, nk, nd);
    let mut m = Model::default();
    let mut h = 0;
    // Keywords without association may or may not be dropped by a partial compaction.
    for i in 0..r.range(2, 10) {
        if r.chance(3, 4) || m.kw.is_empty() {
            let add = m.live() == 0 || r.chance(3, 5);
            let a = gen::assoc(r, &u, 10, 4, 20);
            h = hash_bytes(h, format!("{add}{a:?}").as_bytes());
            cx.log(format!("{} {}", if add { "add" } else { "delete" }, show_assoc(&a)));
            let n0 = env.ct.len();
            ok(&env.w, "modification", modify(&fx, &kl, add, &a))?;
            m.apply(add, &a);
            let want: usize = per_kw(&a).values().map(lines_of).sum();
            let got = env.ct.len() as i64 - n0 as i64;
            ck!(got == want as i64, "operation {i} added {got} lines to the Chain Table, its padded values need {want}");
            cx.count("modifications measured", 1);
            ck!(env.et.len() == m.kw.len(), "{} Entry Table lines for {} indexed keywords after operation {i}", env.et.len(), m.kw.len());
        } else {
            let full = r.chance(2, 3);
            let nkl = new_kl(r, &kl);
            let rate = if full { 1.0 } else { gen::rate(r) };
            cx.log(format!("compact {rate}"));
            let n0 = env.ct.len();
            ok(&env.w, "compaction", compact(&fx, &kl, &nkl, rate))?;
            kl = nkl;
            if rate >= 1.0 {
                m.compact_full();
                let want: usize = m.kw.values().map(lines_of).sum();
                ck!(env.ct.len() == want, "{} lines in the Chain Table after a full compaction, the live associations need {want}", env.ct.len());
                ck!(env.et.len() == m.kw.len(), "{} Entry Table lines for {} keywords with associations after a full compaction", env.et.len(), m.kw.len());
                cx.count("full compactions measured", 1);
            } else {
                // Some chains may have been compacted: find which keywords are left.
                let s = env.snap();
                ck!(s.ct.len() <= n0, "a partial compaction made the Chain Table grow from {n0} to {} lines", s.ct.len());
                let k = fmt::et_key(&kl.key);
                let present = |kw: &By| s.et.contains_key(&fmt::et_token(&k, &fmt::tag_hash(kw), &kl.label));
                let gone: Vec<By> = m.kw.keys().filter(|k| !present(k)).cloned().collect();
                for g in gone {
                    ck!(m.kw[&g].is_empty(), "keyword {} lost its entry in a partial compaction", show(&g));
                    m.kw.remove(&g);
                }
                ck!(env.et.len() == m.kw.len(), "{} Entry Table lines for {} keywords after a partial compaction", env.et.len(), m.kw.len());
            }
        }
        let (e, l) = trace_lines(&env.snap(), &kl)?;
        cx.count("lines traced", (e + l) as u64);
        // Searches neither add nor remove lines.
        if r.chance(1, 3) {
            let s0 = env.snap();
            check_search(cx, &env, &fx, &kl, &m, &u.kw, "between operations")?;
            ck!(env.snap() == s0, "a search changed the stored lines");
        }
    }
    cx.nontrivial(h);
    let note = cx.note.clone();
    cx.sample(|| note);
    Ok(())
}

// ---------------------------------------------------------------------------

static F09: Prop = Prop {
    id: "F09",
    level: "exploration",
    rule: "random indexes then compactions of every kind; tokens, ciphertexts, nonces and tags of all stored \
           lines before and after compared, the independent reader tells which chains were compacted; searches \
           with every former key and label must be empty. Counts when at least one entry is left; identity: hash of the tables.",
    parts: &[
        Part { name: "renewal", f: f09_case, quick: 30_000, thorough: 300_000, ..P },
        Part { name: "big", f: f09_case, quick: 250, thorough: 2_500, big: 3000, ..P },
        Part { name: "many-batches", f: f09_case, quick: 12_000, thorough: 120_000, hooked: true, ..P },
    ],
    assumptions: &["no client modifies the index during a compaction"],
};

fn f09_case(cx: &mut Cx) -> Res {
    let r = &mut cx.r.fork();
    let env = Env::new(Mode::Seq, Log::Off, r.chance(1, 2));
    let fx = env.fx();
    let mut kl = Kl::random(r);
    let nk = *r.pick(&[1, 2, 3, 5, 8, 13]);
    let u = gen::universe(r, nk, 6);
    let n = r.range(1, 7);
    let m = fill(cx, &env, &fx, &kl, &u, r, n, 20)?;
    let mut former = vec![];
    let ks = m.mentioned();
    let parts = |v: &Vec<u8>| (v[..12].to_vec(), v[12..v.len() - 16].to_vec(), v[v.len() - 16..].to_vec());
    for c in 0..r.range(1, 3) {
        let s0 = env.snap();
        let k0 = must(fmt::read_all(&s0.et, &s0.ct, &kl.key), "independent reading")?;
        let nkl = new_kl(r, &kl);
        let rate = if r.chance(1, 2) { 1.0 } else { gen::rate(r) };
        cx.log(format!("compaction {c} rate {rate}"));
        ok(&env.w, "compaction", compact(&fx, &kl, &nkl, rate))?;
        former.push(kl.clone());
        kl = nkl;
        let s1 = env.snap();
        for t in s1.et.keys() {
            ck!(!s0.et.contains_key(t), "a token of the previous Entry Table is still in use after compaction {c}");
        }
        let old: BTreeSet<_> = s0.et.values().map(parts).collect();
        let (on, oc, ot): (BTreeSet<_>, BTreeSet<_>, BTreeSet<_>) = (
            old.iter().map(|x| x.0.clone()).collect(),
            old.iter().map(|x| x.1.clone()).collect(),
            old.iter().map(|x| x.2.clone()).collect(),
        );
        for v in s1.et.values() {
            let p = parts(v);
            ck!(!on.contains(&p.0) && !oc.contains(&p.1) && !ot.contains(&p.2), "an encrypted value of the previous Entry Table is reused after compaction {c}");
        }
        cx.count("entries compared", s1.et.len() as u64);
        // Chains: those rewritten share nothing with before; for a full compaction that is all.
        let k1 = must(fmt::read_all(&s1.et, &s1.ct, &kl.key), "independent reading")?;
        let oldv: BTreeSet<Vec<u8>> = s0.ct.values().cloned().collect();
        for (_, v) in &k1 {
            let Some((_, o)) = k0.iter().find(|(_, o)| o.ent.tag == v.ent.tag) else {
                viol!("a keyword appeared during a compaction");
            };
            let same_seed = o.ent.seed == v.ent.seed;
            if rate >= 1.0 {
                ck!(!same_seed, "the chain key of a keyword is the same after a full compaction");
            }
            if !same_seed || rate >= 1.0 {
                for t in &v.chain {
                    ck!(!s0.ct.contains_key(t), "a chain token is reused by a compacted chain");
                }
                for t in &o.chain {
                    ck!(!s1.ct.contains_key(t), "a line of a compacted chain is still in the store");
                }
                cx.count("chains compared", 1);
            }
        }
        if rate >= 1.0 {
            for (t, v) in &s1.ct {
                ck!(!s0.ct.contains_key(t), "a chain token is still in use after a full compaction");
                ck!(!oldv.contains(v), "an encrypted chain line is still in use after a full compaction");
            }
        }
        if !s1.et.is_empty() {
            cx.nontrivial(hash_bytes(c as u64, format!("{m:?}{rate}").as_bytes()));
        }
        for f in &former {
            if f.key == kl.key && f.label == kl.label {
                continue;
            }
            let got = must(seq(&env.w, search(&fx, f, &ks))?, "search with a former key and label")?;
            for (k, v) in got {
                ck!(v.is_empty(), "keyword {} still answers {} data under a former key and label", show(&k), v.len());
            }
            cx.count("searches with former key", 1);
        }
        // and the new ones do find it
        check_search(cx, &env, &fx, &kl, &m, &ks, "under the new key and label")?;
    }
    let note = cx.note.clone();
    cx.sample(|| note);
    Ok(())
}
