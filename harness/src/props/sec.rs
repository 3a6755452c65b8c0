//! Confidentiality, isolation and integrity: F13, F14, F15, F16, F24.
use std::{
    collections::{BTreeMap, BTreeSet, HashMap, HashSet},
    mem::ManuallyDrop,
};

use cosmian_crypto_core::{
    reexport::rand_core::SeedableRng, CsRng, RandomFixedSizeCBytes,
};
use cosmian_findex::{ChainTable, DxEnc, EntryTable, InMemoryDb, UserKey};

use super::{
    compactp::direct,
    faults::same,
    seqp::{check_search, fill, new_kl},
};
use crate::{
    alloc,
    ck, fmt, gen,
    ix::*,
    mondb::{tok, Log, Mode, Op, Tb},
    rng::{hash_bytes, mix, R},
    run::{must, ok, seq, Acc, Cx, Fail, Obs, Part, Prop, Res, P},
    viol,
};

pub static PROPS: [&Prop; 5] = [&F13, &F14, &F15, &F16, &F24];

// ---------------------------------------------------------------------------

static F13: Prop = Prop {
    id: "F13",
    level: "exploration",
    rule: "random histories (additions, deletions, compactions, several clients, shared contents) with every byte given to the \
           backend recorded: no 8-byte window of a keyword, a value, a key or a derived secret (computed independently), no \
           nonce or value or value fragment twice, constant line sizes; over all cases the bytes of tokens, nonces, \
           ciphertexts and tags are tested for uniformity (chi-square). Identity: history.",
    parts: &[
        Part { name: "traffic", f: f13_case, quick: 8_000, thorough: 80_000, end: Some(f13_end), ..P },
        Part { name: "big", f: f13_case, quick: 250, thorough: 2_500, big: 3000, ..P },
    ],
    assumptions: &["the chi-square alarm has probability below 1e-9 on a correct tree"],
};

fn f13_case(cx: &mut Cx) -> Res {
    let r = &mut cx.r.fork();
    let env = Env::new(Mode::Seq, Log::Full, r.chance(1, 2));
    let mut kl = Kl::random(r);
    let (nk, nd) = (r.range(1, 5), r.range(1, 6));
    let mut u = gen::universe(r, nk, nd);
    for b in u.kw.iter_mut().chain(u.data.iter_mut()) {
        // Long enough to be recognised.
        while b.len() < 8 {
            b.push(*r.pick(&[b'a', 0, 255, b'w']));
        }
    }
    u.kw.sort();
    u.kw.dedup();
    u.data.sort();
    u.data.dedup();
    let mut fxs = [env.fx(), env.fx()];
    let mut secrets: Vec<(&'static str, Vec<u8>)> = vec![];
    let mut seeds: BTreeSet<[u8; 16]> = BTreeSet::new();
    let mut keys: BTreeSet<By> = BTreeSet::new();
    let mut h = 0;
    let mut m = Model::default();
    let n = r.range(3, 12);
    for i in 0..n {
        let f = r.below(2);
        if i > 0 && r.chance(1, 6) {
            let nkl = new_kl(r, &kl);
            keys.insert(kl.key.clone());
            ok(&env.w, "compaction", compact(&fxs[f], &kl, &nkl, gen::rate(r)))?;
            kl = nkl;
        } else if r.chance(1, 6) {
            check_search(cx, &env, &fxs[f], &kl, &m, &u.kw, "during the history")?;
        } else {
            let add = r.chance(3, 5);
            let a = gen::assoc(r, &u, 4, nk, 30);
            h = hash_bytes(h, format!("{add}{a:?}").as_bytes());
            ok(&env.w, "modification", modify(&fxs[f], &kl, add, &a))?;
            m.apply(add, &a);
        }
        if r.chance(1, 4) {
            fxs[f] = env.fx();
        }
        // Chain seeds in use.
        let s = env.snap();
        let ek = fmt::et_key(&kl.key);
        for v in s.et.values() {
            if let Some(e) = fmt::open(&ek.dem, v) {
                seeds.insert(fmt::Ent::dec(&e).seed);
            }
        }
    }
    keys.insert(kl.key.clone());
    for k in &keys {
        secrets.push(("the user key", k.clone()));
        let e = fmt::et_key(k);
        secrets.push(("the Entry Table token key", e.tok.to_vec()));
        secrets.push(("the Entry Table encryption key", e.dem.to_vec()));
    }
    for s in &seeds {
        secrets.push(("a chain seed", s.to_vec()));
        let e = fmt::ct_key(s);
        secrets.push(("a chain token key", e.tok.to_vec()));
        secrets.push(("a chain encryption key", e.dem.to_vec()));
    }
    for k in &m.mentioned() {
        secrets.push(("a keyword", k.clone()));
        secrets.push(("the hash of a keyword", fmt::tag_hash(k).to_vec()));
    }
    for d in &u.data {
        secrets.push(("indexed data", d.clone()));
    }
    let mut win: HashMap<[u8; 8], &'static str> = HashMap::new();
    for (n, s) in &secrets {
        for w in s.windows(8) {
            let mut a = [0; 8];
            a.copy_from_slice(w);
            win.insert(a, n);
        }
    }
    let mut hist: Vec<Vec<u32>> = vec![vec![0; 256]; 8];
    let mut nonces: HashSet<Vec<u8>> = HashSet::new();
    let mut pieces: HashSet<(Tb, usize, [u8; 8])> = HashSet::new();
    let mut toks: HashSet<([u8; 32], Tb)> = HashSet::new();
    let (mut n_val, mut bytes) = (0u64, 0u64);
    for e in env.w.log_take() {
        let t = usize::from(e.tb == Tb::C);
        let what = format!("the {:?} request to the {} Table", e.op, if t == 0 { "Entry" } else { "Chain" });
        let mut blobs: Vec<&[u8]> = vec![];
        blobs.extend(e.toks.iter().map(|t| &t[..]));
        for (t, v) in e.olds.iter().chain(&e.news) {
            blobs.push(&t[..]);
            blobs.push(v);
        }
        for b in &blobs {
            bytes += b.len() as u64;
            for w in b.windows(8) {
                let mut a = [0; 8];
                a.copy_from_slice(w);
                if let Some(n) = win.get(&a) {
                    viol!("{what} holds bytes of {n}");
                }
            }
        }
        for tk in e.toks.iter().chain(e.news.iter().map(|x| &x.0)) {
            if toks.insert((tok(tk), e.tb)) {
                ck!(!toks.contains(&(tok(tk), if t == 0 { Tb::C } else { Tb::E })), "both tables use the same token");
                for b in &tk[..] {
                    hist[t * 4][*b as usize] += 1;
                }
            }
        }
        for (_, v) in &e.news {
            n_val += 1;
            let want = 28 + if t == 0 { 80 } else { 86 };
            ck!(v.len() == want, "{what} holds a value of {} bytes, others have {want}", v.len());
            ck!(nonces.insert(v[..12].to_vec()), "{what} holds a nonce used before");
            for (i, c) in v.chunks_exact(8).enumerate() {
                let mut a = [0; 8];
                a.copy_from_slice(c);
                ck!(pieces.insert((e.tb, i, a)), "{what} holds 8 bytes (offset {}) of another value written before", i * 8);
            }
            let l = v.len();
            for (region, part) in [(1, &v[..12]), (2, &v[12..l - 16]), (3, &v[l - 16..])] {
                for b in part {
                    hist[t * 4 + region][*b as usize] += 1;
                }
            }
        }
    }
    for (i, hh) in hist.iter().enumerate() {
        for (b, n) in hh.iter().enumerate() {
            if *n > 0 {
                cx.accum(&format!("{i}/{b:03}"), f64::from(*n));
            }
        }
    }
    cx.count("values written", n_val);
    cx.count("bytes scanned", bytes);
    cx.count("secret windows searched", win.len() as u64);
    if n_val > 2 {
        cx.nontrivial(h);
    }
    Ok(())
}
fn f13_end(a: &Acc, o: &mut Obs) -> Res {
    let names = ["ET tokens", "ET nonces", "ET ciphertexts", "ET tags", "CT tokens", "CT nonces", "CT ciphertexts", "CT tags"];
    for (i, name) in names.iter().enumerate() {
        let h: Vec<f64> = (0..256).map(|b| a.get(&format!("{i}/{b:03}")).copied().unwrap_or(0.0)).collect();
        let n: f64 = h.iter().sum();
        if n < 20_000.0 {
            return Err(Fail::Incon(format!("only {n} bytes of {name}")));
        }
        let e = n / 256.0;
        let x: f64 = h.iter().map(|v| (v - e) * (v - e) / e).sum();
        // Wilson-Hilferty: normal approximation of the cube root.
        let k = 255.0;
        let z = ((x / k).powf(1.0 / 3.0) - (1.0 - 2.0 / (9.0 * k))) / (2.0f64 / (9.0 * k)).sqrt();
        o.counters.insert(format!("chi-square of {name} (255 degrees)"), x as u64);
        if z > 6.2 {
            viol!("the bytes of {name} are not uniform: chi-square {x:.0} over {n} bytes");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------

static F14: Prop = Prop {
    id: "F14",
    level: "exploration",
    rule: "an index under one key and label, then searches, under keys one bit or byte away, labels and keywords one bit, one \
           byte, a prefix or an extension away, bytes moved between keyword and label: all must be empty; and 2 to 5 \
           users with near keys and labels sharing the tables, each compared with its own model; and keywords and labels \
           of 64 bytes to 1 MB (around the powers of two) one byte, a prefix or an extension away. Identity: contents.",
    parts: &[
        Part { name: "near", f: f14_near, quick: 12_000, thorough: 120_000, ..P },
        Part { name: "long", f: f14_long, quick: 120, thorough: 1_200, ..P },
        Part { name: "shared", f: f14_shared, quick: 20_000, thorough: 200_000, ..P },
        Part { name: "big-shared", f: f14_shared, quick: 250, thorough: 2_500, big: 3000, ..P },
    ],
    assumptions: &["no compaction of shared tables"],
};

fn near_bytes(r: &mut R, b: &[u8]) -> Vec<By> {
    let mut v: Vec<By> = vec![];
    for _ in 0..3 {
        if !b.is_empty() {
            let mut x = b.to_vec();
            let i = r.below(x.len());
            x[i] ^= 1 << r.below(8);
            v.push(x);
        }
    }
    if !b.is_empty() {
        v.push(b[..b.len() - 1].to_vec());
        v.push(b[1..].to_vec());
        let mut x = b.to_vec();
        x.reverse();
        v.push(x);
    }
    for c in [0u8, 1, b' ', 255] {
        let mut x = b.to_vec();
        x.push(c);
        v.push(x);
        let mut x = vec![c];
        x.extend(b);
        v.push(x);
    }
    v.push(b.to_ascii_uppercase());
    v.push([b, b].concat());
    v.retain(|x| x != b);
    v.sort();
    v.dedup();
    v
}
fn f14_near(cx: &mut Cx) -> Res {
    let r = &mut cx.r.fork();
    let env = Env::new(Mode::Seq, Log::Off, r.chance(1, 2));
    let fx = env.fx();
    let kl = Kl::random(r);
    let nk = r.range(1, 4);
    let u = gen::universe(r, nk, 4);
    let n = r.range(1, 3);
    let m = fill(cx, &env, &fx, &kl, &u, r, n, 20)?;
    let ks: Vec<By> = m.kw.keys().cloned().collect();
    let live = ks.iter().any(|k| !m.reach(k).is_empty());
    let s0 = env.snap();
    let mut tries: Vec<(Kl, Vec<By>, &str)> = vec![];
    for k in near_bytes(r, &kl.key).into_iter().filter(|k| k.len() == 16) {
        tries.push((Kl { key: k, label: kl.label.clone() }, ks.clone(), "another key"));
    }
    for i in 0..16 {
        // Every byte of the key matters.
        let mut k = kl.key.clone();
        k[i] ^= 1 << r.below(8);
        tries.push((Kl { key: k, label: kl.label.clone() }, ks.clone(), "another key"));
    }
    for l in near_bytes(r, &kl.label) {
        tries.push((Kl { key: kl.key.clone(), label: l }, ks.clone(), "another label"));
    }
    for i in 0..kl.label.len() {
        let mut l = kl.label.clone();
        l[i] ^= 1 << r.below(8);
        tries.push((Kl { key: kl.key.clone(), label: l }, ks.clone(), "another label"));
    }
    for k in &ks {
        let q: Vec<By> = near_bytes(r, k).into_iter().filter(|x| !m.kw.contains_key(x)).collect();
        tries.push((kl.clone(), q, "another keyword"));
        // Bytes moved between keyword and label, and tag hash used as a keyword.
        for j in 1..=k.len().min(4) {
            let cut = k.len() - j;
            let mut l = k[cut..].to_vec();
            l.extend(&kl.label);
            if l != kl.label && k[..cut] != k[..] {
                tries.push((Kl { key: kl.key.clone(), label: l }, vec![k[..cut].to_vec()], "bytes moved from the keyword to the label"));
            }
        }
        for j in 1..=kl.label.len().min(4) {
            let mut q = k.clone();
            q.extend(&kl.label[..j]);
            tries.push((Kl { key: kl.key.clone(), label: kl.label[j..].to_vec() }, vec![q], "bytes moved from the label to the keyword"));
        }
        let h = fmt::tag_hash(k).to_vec();
        if !m.kw.contains_key(&h) {
            tries.push((kl.clone(), vec![h], "the hash of the keyword"));
        }
    }
    for (k2, q, what) in &tries {
        let got = ok(&env.w, format!("search with {what}"), search(&fx, k2, q))?;
        for (k, d) in &got {
            ck!(d.is_empty(), "a search with {what} ({}) returns {}", show(k), show_set(d));
        }
        ck!(got.len() == q.iter().collect::<BTreeSet<_>>().len(), "a search with {what} does not answer all keywords");
        cx.count(&format!("searches with {what}"), 1);
    }
    ck!(env.snap() == s0, "a search changed the stores");
    check_search(cx, &env, &fx, &kl, &m, &ks, "with the right key")?;
    if live {
        cx.nontrivial(hash_bytes(0, format!("{m:?}{kl:?}").as_bytes()));
    }
    Ok(())
}
/// Long keywords and labels: every byte of them counts, wherever it is.
fn f14_long(cx: &mut Cx) -> Res {
    let r = &mut cx.r.fork();
    let env = Env::new(Mode::Seq, Log::Off, r.chance(1, 2));
    let fx = env.fx();
    let mut kl = Kl::random(r);
    // Sizes around the powers of two, from 64 bytes to 1 MB.
    let e = 6 + cx.idx as usize % 15;
    let n = (1usize << e) + r.range(0, 4) - 1;
    let long = cx.idx / 15 % 2 == 1;
    let mut kw = r.bytes(n);
    if long {
        kl.label = kw.clone();
        kw = r.bytes(12);
    }
    let a = vec![(Val::D(r.bytes(5)), vec![kw.clone()])];
    let mut m = Model::default();
    m.apply(true, &a);
    ok(&env.w, "add under a long name", modify(&fx, &kl, true, &a))?;
    check_search(cx, &env, &fx, &kl, &m, &[kw.clone()], "with the right names")?;
    let b = if long { &kl.label } else { &kw }.clone();
    let mut near = vec![];
    let mut at: Vec<usize> = vec![0, 1, n / 2, n - 2, n - 1];
    at.extend((0..=e).map(|i| 1 << i).filter(|i| *i < n));
    at.extend((0..=e).map(|i| (1 << i) - 1).filter(|i| *i < n));
    at.extend((0..4).map(|_| r.below(n)));
    at.sort();
    at.dedup();
    for i in at {
        let mut x = b.clone();
        x[i] ^= 1 << r.below(8);
        near.push(x);
    }
    near.push(b[..n - 1].to_vec());
    near.push(b[1..].to_vec());
    near.push(b[..1 << (e - 1)].to_vec());
    near.push(b[..b.len().min(1 << e)].to_vec());
    for c in [0, 1, 255] {
        near.push([&b[..], &[c]].concat());
        near.push([&[c], &b[..]].concat());
    }
    near.push([&b[..], &b[..]].concat());
    near.retain(|x| *x != b);
    let what = if long { "another long label" } else { "another long keyword" };
    if long {
        for l in &near {
            let k2 = Kl { key: kl.key.clone(), label: l.clone() };
            let got = ok(&env.w, format!("search with {what}"), search(&fx, &k2, &[kw.clone()]))?;
            ck!(got.values().all(|d| d.is_empty()), "a search with {what} ({} bytes for {n}) returns data", l.len());
        }
        // The bytes moved between the two.
        let k2 = Kl { key: kl.key.clone(), label: b[1..].to_vec() };
        let q = [&kw[..], &b[..1]].concat();
        let got = ok(&env.w, "search with bytes moved", search(&fx, &k2, &[q]))?;
        ck!(got.values().all(|d| d.is_empty()), "a byte moved from a label of {n} bytes to the keyword gives the same data");
    } else {
        let got = ok(&env.w, format!("search with {what}"), search(&fx, &kl, &near))?;
        for (k, d) in &got {
            ck!(d.is_empty(), "a search with {what} ({} bytes for {n}) returns {}", k.len(), show_set(d));
        }
        let k2 = Kl { key: kl.key.clone(), label: [&b[n - 1..], &kl.label[..]].concat() };
        let got = ok(&env.w, "search with bytes moved", search(&fx, &k2, &[b[..n - 1].to_vec()]))?;
        ck!(got.values().all(|d| d.is_empty()), "a byte moved from a keyword of {n} bytes to the label gives the same data");
    }
    cx.count(&format!("searches with {what}"), near.len() as u64);
    cx.nontrivial(hash_bytes(n as u64, &b));
    Ok(())
}
fn f14_shared(cx: &mut Cx) -> Res {
    let r = &mut cx.r.fork();
    let env = Env::new(Mode::Seq, Log::Off, r.chance(1, 2));
    let fx = env.fx();
    let nk = r.range(1, 4);
    let u = gen::universe(r, nk, 5);
    let mut kls = vec![Kl::random(r)];
    while kls.len() < 2 + cx.idx as usize % 4 {
        let b = r.pick(&kls).clone();
        let n = match r.below(4) {
            0 => Kl { key: { let mut k = b.key; k[r.below(16)] ^= 1 << r.below(8); k }, label: b.label },
            1 => Kl { label: gen::near(r, &[b.label]), key: b.key },
            2 => Kl { key: r.bytes(16), label: b.label },
            _ => Kl { label: u.kw[0].clone(), key: b.key },
        };
        if !kls.contains(&n) {
            kls.push(n);
        }
    }
    let mut ms = vec![Model::default(); kls.len()];
    let mut h = 0;
    for i in 0..r.range(4, 16) {
        let c = r.below(kls.len());
        let add = r.chance(3, 5);
        let a = gen::assoc(r, &u, 3, nk, 20);
        h = hash_bytes(h, format!("{c}{add}{a:?}").as_bytes());
        cx.log(format!("user {c} {} {}", if add { "add" } else { "delete" }, show_assoc(&a)));
        let new = ok(&env.w, "modification", modify(&fx, &kls[c], add, &a))?;
        let want = ms[c].apply(add, &a);
        ck!(new == want, "operation {i} of user {c} reports {} as new instead of {}", show_set(&new), show_set(&want));
        for (j, kl) in kls.iter().enumerate() {
            check_search(cx, &env, &fx, kl, &ms[j], &u.kw, &format!("of user {j} after operation {i} of user {c}"))?;
        }
    }
    let want: usize = ms.iter().map(|m| m.kw.len()).sum();
    ck!(env.et.len() == want, "{} entries for {want} keywords of {} users", env.et.len(), kls.len());
    cx.nontrivial(h);
    let note = cx.note.clone();
    cx.sample(|| note);
    Ok(())
}

// ---------------------------------------------------------------------------

static F15: Prop = Prop {
    id: "F15",
    level: "exploration",
    rule: "twin indexes with the same history up to a renaming of keywords and values of equal padded size (other key, label and \
           contents), and an addition versus a deletion run on copies of the same state: the recorded request sequences (table, \
           kind, numbers of lines, numbers returned) must be identical; searches must only fetch. Identity: history.",
    parts: &[
        Part { name: "add-delete", f: f15_ad, quick: 60_000, thorough: 800_000, ..P },
        Part { name: "big-add-delete", f: f15_ad, quick: 250, thorough: 2_500, big: 3000, ..P },
        Part { name: "twins", f: f15_twins, quick: 40_000, thorough: 500_000, ..P },
        Part { name: "big-twins", f: f15_twins, quick: 250, thorough: 2_500, big: 3000, ..P },
    ],
    assumptions: &["compactions at rate zero or one (no random selection)"],
};

type Shape = Vec<(Tb, Op, usize, usize, usize)>;
fn shape(env: &Env) -> Shape {
    env.w.log_take().iter().map(|e| (e.tb, e.op, e.n, e.n_old, e.n_out)).collect()
}
/// A byte string with as many blocks, once indexed, as one of `n` bytes.
fn same_size(r: &mut R, n: usize, used: &mut BTreeSet<By>) -> By {
    let q = (n + 1) / 16;
    loop {
        let lo = (q * 16).saturating_sub(1);
        let hi = q * 16 + 14;
        // Enough entropy to be distinct even in the smallest class.
        let len = r.range(lo.max(if q == 0 { 4 } else { 0 }), hi);
        let b = r.bytes(len);
        if used.insert(b.clone()) {
            return b;
        }
    }
}

fn f15_ad(cx: &mut Cx) -> Res {
    let r = &mut cx.r.fork();
    let base = Env::new(Mode::Seq, Log::Off, r.chance(1, 2));
    let kl = Kl::random(r);
    let nk = r.range(1, 6);
    let u = gen::universe(r, nk, 8);
    let n = r.below(4);
    let m = {
        let fx = base.fx();
        if n == 0 { Model::default() } else { fill(cx, &base, &fx, &kl, &u, r, n, 20)? }
    };
    let nv = r.range(1, 6);
    let a = gen::assoc(r, &u, nv, nk, 25);
    // The same operation on other values of the same sizes.
    let mut used = BTreeSet::new();
    let b: Assoc = a
        .iter()
        .map(|(v, k)| {
            let (Val::P(x) | Val::D(x)) = v;
            let x = same_size(r, x.len(), &mut used);
            (if r.chance(1, 2) { Val::P(x) } else { Val::D(x) }, k.clone())
        })
        .collect();
    let mem = r.chance(1, 2);
    let mut shapes: Vec<(&str, Shape, BTreeMap<[u8; 32], usize>)> = vec![];
    for (what, add, a) in [("addition", true, &a), ("deletion", false, &a), ("addition of other values", true, &b), ("deletion of other values", false, &b)] {
        let e = base.fork(Mode::Seq, Log::Full, mem);
        let before = e.snap();
        ok(&e.w, what, modify(&e.fx(), &kl, add, a))?;
        let mut et: BTreeMap<[u8; 32], usize> = BTreeMap::new();
        let log = e.w.log_take();
        for x in &log {
            if x.tb == Tb::E {
                for t in x.toks.iter().chain(x.news.iter().map(|y| &y.0)) {
                    *et.entry(tok(t)).or_default() += 1;
                }
            }
        }
        let s: Shape = log.iter().map(|e| (e.tb, e.op, e.n, e.n_old, e.n_out)).collect();
        // Only the touched entries and new lines changed.
        let after = e.snap();
        let touched = before.et.iter().filter(|(k, v)| after.et.get(*k) != Some(v)).count();
        ck!(touched <= per_kw(a).len(), "{what} rewrote {touched} existing entries for {} keywords", per_kw(a).len());
        ck!(before.ct.iter().all(|(k, v)| after.ct.get(k) == Some(v)), "{what} changed existing chain lines");
        shapes.push((what, s, et));
    }
    for s in &shapes[1..] {
        ck!(
            s.1 == shapes[0].1 && s.2 == shapes[0].2,
            "an {} and a {} of the same sizes on the same state make different requests: {:?} / {:?}",
            shapes[0].0, s.0, shapes[0].1, s.1
        );
    }
    cx.count("request sequences compared", shapes.len() as u64);
    cx.nontrivial(hash_bytes(1, format!("{m:?}{a:?}").as_bytes()));
    cx.sample(|| format!("{:?}", shapes[0].1));
    Ok(())
}

fn f15_twins(cx: &mut Cx) -> Res {
    let r = &mut cx.r.fork();
    let mut envs = [Env::new(Mode::Seq, Log::Shape, r.chance(1, 2)), Env::new(Mode::Seq, Log::Shape, r.chance(1, 2))];
    let mut kls = [Kl::random(r), Kl::random(r)];
    let nk = r.range(1, 6);
    let u = gen::universe(r, nk, 6);
    let mut used = BTreeSet::new();
    let kmap: BTreeMap<By, By> = u.kw.iter().map(|k| (k.clone(), same_size(r, k.len(), &mut used))).collect();
    let dmap: BTreeMap<By, By> = u.data.iter().map(|k| (k.clone(), same_size(r, k.len(), &mut used))).collect();
    let tr = |a: &Assoc| -> Assoc {
        a.iter()
            .map(|(v, ks)| {
                let v = match v {
                    Val::D(d) => Val::D(dmap[d].clone()),
                    Val::P(p) => Val::P(kmap[p].clone()),
                };
                (v, ks.iter().map(|k| kmap[k].clone()).collect())
            })
            .collect()
    };
    let mut h = 0;
    let mut n_req = 0;
    for i in 0..r.range(3, 10) {
        let mut sh = vec![];
        let what;
        match r.below(8) {
            0 => {
                let rate = *r.pick(&[0.0, 1.0]);
                what = format!("compaction at rate {rate}");
                for j in 0..2 {
                    let n = new_kl(r, &kls[j]);
                    ok(&envs[j].w, &what, compact(&envs[j].fx(), &kls[j], &n, rate))?;
                    kls[j] = n;
                    sh.push(shape(&envs[j]));
                }
            }
            1..=3 => {
                what = "search".to_string();
                let q = r.subset(&u.kw, nk);
                let q2: Vec<By> = q.iter().map(|k| kmap[k].clone()).collect();
                for (j, q) in [q, q2].iter().enumerate() {
                    let s0 = envs[j].snap();
                    ok(&envs[j].w, "search", search(&envs[j].fx(), &kls[j], q))?;
                    ck!(envs[j].snap() == s0, "a search changed the stores");
                    let s = shape(&envs[j]);
                    ck!(s.iter().all(|e| e.1 == Op::Fetch), "a search sends requests other than fetches: {s:?}");
                    sh.push(s);
                }
            }
            _ => {
                let add = r.chance(2, 3);
                let mut a = gen::assoc(r, &u, 4, nk, 30);
                // Dangling pointers outside of the universe have no twin.
                a.retain(|(v, _)| !matches!(v, Val::P(p) if !kmap.contains_key(p)));
                if a.is_empty() {
                    continue;
                }
                what = format!("{} {}", if add { "add" } else { "delete" }, show_assoc(&a));
                for (j, a) in [a.clone(), tr(&a)].iter().enumerate() {
                    ok(&envs[j].w, &what, modify(&envs[j].fx(), &kls[j], add, a))?;
                    sh.push(shape(&envs[j]));
                }
            }
        }
        cx.log(&what);
        h = hash_bytes(h, what.as_bytes());
        n_req += sh[0].len();
        ck!(sh[0] == sh[1], "step {i} ({what}) on two indexes of the same shape makes different requests: {:?} / {:?}", sh[0], sh[1]);
        if r.chance(1, 6) {
            envs.swap(0, 0);
        }
    }
    cx.count("requests compared", n_req as u64);
    if n_req > 4 {
        cx.nontrivial(h);
    }
    let note = cx.note.clone();
    cx.sample(|| note);
    Ok(())
}

// ---------------------------------------------------------------------------

static F16: Prop = Prop {
    id: "F16",
    level: "fault_enumeration",
    rule: "random indexes in which one stored value is altered (each field and every stored value in turn: single bits, several \
           bits, zeroed or randomised fields, the whole value, an older value under another key) or two chain values of different \
           keywords exchanged; searches of each keyword, additions, deletions and compactions: those that read it \
           must fail without writing, the others be right. Identity: contents, value and alteration.",
    parts: &[
        Part { name: "altered", f: f16_case, quick: 80_000, thorough: 800_000, ..P },
        Part { name: "big", f: f16_case, quick: 250, thorough: 2_500, big: 3000, ..P },
        Part { name: "every-bit", f: f16_bits, quick: 208 * 8, thorough: 208 * 8 * 40, ..P },
    ],
    assumptions: &["exchanging two values of the Entry Table of the same key is out of reach of the format"],
};

#[derive(Clone, Copy, PartialEq)]
enum Who {
    Et([u8; 32]),
    Ct([u8; 32]),
}
/// Runs every operation against the altered state `s`.
fn f16_ops(cx: &mut Cx, r: &mut R, s: &Snap, kl: &Kl, m: &Model, bad: &BTreeSet<By>, et: bool, what: &str) -> Res {
    let e = Env::new(Mode::Seq, Log::Shape, r.chance(1, 2));
    e.restore(s);
    let fx = e.fx();
    let ks: Vec<By> = m.mentioned();
    for k in &ks {
        let reads: Vec<By> = m.dist(&[k.clone()]).into_keys().collect();
        let hit = reads.iter().any(|x| bad.contains(x));
        let res = seq(&e.w, search(&fx, kl, &[k.clone()]))?;
        match (hit, res) {
            (true, Ok(g)) => viol!("{what}: the search of keyword {} succeeds and returns {}", show(k), show_set(g.values().flatten())),
            (false, Err(x)) => viol!("{what}: the search of keyword {}, which does not use it, fails: {x}", show(k)),
            (false, Ok(g)) => {
                if let Some(d) = diff(&g, &m.expect(&[k.clone()])) {
                    viol!("{what}: search of an unaffected keyword: {d}");
                }
            }
            _ => cx.count("searches refused", 1),
        }
    }
    ck!(e.snap() == *s, "{what}: searches changed the stores");
    for add in [true, false] {
        for k in m.kw.keys() {
            if !(bad.contains(k) && et) {
                continue;
            }
            let other = r.pick(&ks).clone();
            let a: Assoc = vec![(Val::D(b"new".to_vec()), vec![k.clone(), other])];
            if let Ok(n) = seq(&e.w, modify(&fx, kl, add, &a))? {
                viol!("{what}: {} under keyword {} succeeds and reports {} as new", if add { "an addition" } else { "a deletion" }, show(k), show_set(&n));
            }
            ck!(e.snap() == *s, "{what}: a failed modification changed the stores");
            cx.count("modifications refused", 1);
        }
    }
    let nkl = new_kl(r, kl);
    let rate = if et { gen::rate(r) } else { 1.0 };
    if seq(&e.w, compact(&fx, kl, &nkl, rate))?.is_ok() {
        viol!("{what}: a compaction succeeds");
    }
    ck!(e.snap() == *s, "{what}: a failed compaction changed the stores");
    cx.count("compactions refused", 1);
    // Unaffected keywords can still be modified.
    if let Some(k) = m.kw.keys().find(|k| !bad.contains(*k)) {
        let a: Assoc = vec![(Val::D(b"new".to_vec()), vec![k.clone()])];
        ok(&e.w, format!("{what}: addition under an unaffected keyword"), modify(&fx, kl, true, &a))?;
        let mut m2 = m.clone();
        m2.apply(true, &a);
        if let Some(d) = same(&direct(&e, kl, &[k.clone()])?, &m2, &[k.clone()]) {
            viol!("{what}: {d}");
        }
    }
    Ok(())
}
/// Keyword of every stored value.
fn owners(s: &Snap, kl: &Kl, m: &Model) -> Res<Vec<(Who, By)>> {
    let mut v = vec![];
    for k in m.kw.keys() {
        match fmt::read_kw(&s.et, &s.ct, &kl.key, &kl.label, k) {
            Ok(Some(w)) => {
                v.push((Who::Et(fmt::et_token(&fmt::et_key(&kl.key), &fmt::tag_hash(k), &kl.label)), k.clone()));
                v.extend(w.chain.iter().map(|t| (Who::Ct(*t), k.clone())));
            }
            o => viol!("independent reading of keyword {}: {:?}", show(k), o.map(|x| x.is_some())),
        }
    }
    Ok(v)
}
fn f16_setup(cx: &mut Cx, r: &mut R, nk: usize, n: usize) -> Res<(Snap, Kl, Model)> {
    let env = Env::new(Mode::Seq, Log::Off, r.chance(1, 2));
    let fx = env.fx();
    let mut kl = Kl::random(r);
    let u = gen::universe(r, nk, 5);
    let mut m = fill(cx, &env, &fx, &kl, &u, r, n, 15)?;
    if r.chance(1, 3) {
        let nkl = new_kl(r, &kl);
        ok(&env.w, "compaction", compact(&fx, &kl, &nkl, 1.0))?;
        kl = nkl;
        m.compact_full();
        let a = gen::some(r, &u, 2, 2, 0);
        ok(&env.w, "addition", modify(&fx, &kl, true, &a))?;
        m.apply(true, &a);
    }
    Ok((env.snap(), kl, m))
}
fn alter(r: &mut R, v: &mut [u8]) -> String {
    let l = v.len();
    let (name, a, b) = *r.pick(&[("nonce", 0, 12), ("ciphertext", 12, l - 16), ("tag", l - 16, l)]);
    let old = v.to_vec();
    let mut what;
    loop {
        match r.below(6) {
            0..=2 => {
                let i = r.range(a, b - 1);
                let bit = r.below(8);
                v[i] ^= 1 << bit;
                what = format!("bit {bit} of byte {i} ({name})");
            }
            3 => {
                for _ in 0..r.range(2, 6) {
                    let i = r.below(l);
                    v[i] ^= 1 << r.below(8);
                }
                what = "several bits".into();
            }
            4 => {
                v[a..b].fill(*r.pick(&[0, 255]));
                what = format!("the whole {name}");
            }
            _ => {
                let n = r.bytes(l);
                v.copy_from_slice(&n);
                what = "the whole value, randomly".into();
            }
        }
        if v != &old[..] {
            return what;
        }
    }
}
fn f16_case(cx: &mut Cx) -> Res {
    let r = &mut cx.r.fork();
    let nk = r.range(1, 4);
    let n = r.range(1, 4);
    let (s0, kl, m) = f16_setup(cx, r, nk, n)?;
    let own = owners(&s0, &kl, &m)?;
    let cts: Vec<&(Who, By)> = own.iter().filter(|o| matches!(o.0, Who::Ct(_))).collect();
    for _ in 0..r.range(2, 6) {
        let mut s = s0.clone();
        let mut bad = BTreeSet::new();
        let (what, et);
        if r.chance(1, 3) && cts.len() > 1 {
            let (a, b) = (*r.pick(&cts), *r.pick(&cts));
            let ((Who::Ct(ta), ka), (Who::Ct(tb), kb)) = (a, b) else { continue };
            if ka == kb {
                continue;
            }
            let (va, vb) = (s.ct[ta].clone(), s.ct[tb].clone());
            bad.insert(ka.clone());
            if r.chance(1, 2) {
                s.ct.insert(*tb, va);
                bad.insert(kb.clone());
                what = "two chain values of different keywords exchanged";
            } else {
                what = "a chain value replaced by the one of another keyword";
            }
            s.ct.insert(*ta, vb);
            et = false;
            cx.log(what);
            f16_ops(cx, r, &s, &kl, &m, &bad, et, what)?;
        } else {
            let (w, k) = r.pick(&own).clone();
            bad.insert(k.clone());
            let (v, n) = match w {
                Who::Et(t) => (s.et.get_mut(&t), "an entry"),
                Who::Ct(t) => (s.ct.get_mut(&t), "a chain value"),
            };
            let Some(v) = v else { viol!("a stored value of keyword {} is missing", show(&k)) };
            let what = if matches!(w, Who::Et(_)) && r.chance(1, 8) {
                // A valid value of another user.
                let x = fmt::seal(&fmt::et_key(&r.bytes(16)).dem, &r.bytes(12), &r.bytes(80));
                v.copy_from_slice(&x);
                "replaced by the one of another user".to_string()
            } else {
                format!("altered: {}", alter(r, v))
            };
            let what = format!("{n} of keyword {} {what}", show(&k));
            cx.log(&what);
            f16_ops(cx, r, &s, &kl, &m, &bad, matches!(w, Who::Et(_)), &what)?;
        }
        cx.count("alterations", 1);
    }
    cx.nontrivial(hash_bytes(2, format!("{m:?}{}", cx.note).as_bytes()));
    let note = cx.note.clone();
    cx.sample(|| note);
    Ok(())
}
/// Every bit of one entry and of one chain value.
fn f16_bits(cx: &mut Cx) -> Res {
    let r = &mut cx.r.fork();
    let i = cx.idx as usize % (208 * 8);
    let (s0, kl, m) = f16_setup(cx, r, 2, 2)?;
    let mut s = s0.clone();
    let own = owners(&s0, &kl, &m)?;
    // 108 bytes of entry then 100 of the 114 bytes of a chain value: the rest by the other part.
    let byte = i / 8;
    let pick: Vec<&(Who, By)> = own.iter().filter(|o| matches!(o.0, Who::Et(_)) == (byte < 108)).collect();
    if pick.is_empty() {
        return Ok(());
    }
    let (w, k) = r.pick(&pick);
    let v = match w {
        Who::Et(t) => s.et.get_mut(t),
        Who::Ct(t) => s.ct.get_mut(t),
    };
    let Some(v) = v else { viol!("a stored value of keyword {} is missing", show(k)) };
    let pos = if byte < 108 { byte } else { byte - 108 + r.below(2) * 14 };
    v[pos] ^= 1 << (i % 8);
    let what = format!("bit {} of byte {pos} of {} of keyword {} flipped", i % 8, if byte < 108 { "the entry" } else { "a chain value" }, show(k));
    f16_ops(cx, r, &s, &kl, &m, &BTreeSet::from([k.clone()]), byte < 108, &what)?;
    cx.count("alterations", 1);
    cx.nontrivial(mix(cx.idx));
    Ok(())
}

// ---------------------------------------------------------------------------

static F24: Prop = Prop {
    id: "F24",
    level: "exploration",
    rule: "seeds, Entry and Chain Table keys and user keys with random bytes, built by each public constructor, stored in a \
           known place and dropped there: the place and the heap blocks freed by the drop are read and no piece of the secret may be left in them; \
           whole operations in which every freed heap block is searched for the keys; processes which use two keys, drop them and \
           then search all their own writable memory (globals, thread-locals, heap blocks in use; stack excluded) for the keys. \
           A case counts when the secret was seen in the place before the drop; identity: type and secret.",
    parts: &[
        Part { name: "dropped", f: f24_case, quick: 400_000, thorough: 4_000_000, ..P },
        Part { name: "freed", f: f24_freed, quick: 10_000, thorough: 200_000, ..P },
        Part { name: "kept", f: f24_kept, quick: 120, thorough: 2_000, ..P },
    ],
    assumptions: &["copies made by moves are out of scope", "the type's destructor is run by drop_in_place"],
};

struct Mem {
    place: Vec<u8>,
    heap: Vec<u8>,
}
/// Bytes of the value made by `f` (in place and in the heap blocks it owns)
/// before and after its destructor.
fn dropped<T>(f: impl FnOnce() -> T) -> (Mem, Mem) {
    let mut m = alloc::record(|| ManuallyDrop::new(f()));
    let p = std::ptr::addr_of_mut!(*m);
    let n = std::mem::size_of::<T>();
    // SAFETY: the place is ours for the whole function; it is read bytewise
    // (types made of byte arrays without padding) before and after the drop.
    unsafe {
        let read = |p: *const u8| (0..n).map(|i| std::ptr::read_volatile(p.add(i))).collect::<Vec<u8>>();
        let a = Mem { place: read(p.cast()), heap: alloc::live() };
        alloc::track(|| std::ptr::drop_in_place(p));
        let mut b = Mem { place: read(p.cast()), heap: alloc::freed() };
        b.heap.extend(alloc::live());
        (a, b)
    }
}
fn find(mem: &[u8], s: &[u8]) -> Option<usize> {
    mem.windows(s.len()).position(|w| w == s)
}
/// Bytes that wiped memory could hold as well tell nothing.
fn flat(w: &[u8]) -> bool {
    w.iter().all(|b| *b == w[0])
}
/// `secrets`: computed apart, or drawn from an identical generator.
fn wiped<T>(cx: &mut Cx, what: &str, secrets: &[&[u8]], f: impl FnOnce() -> T) -> Res {
    let (before, after) = dropped(f);
    for s in secrets {
        let at = find(&before.place, s);
        if at.is_none() && find(&before.heap, s).is_none() {
            return Err(Fail::Incon(format!("{what}: its secret cannot be located")));
        }
        cx.count(&format!("secrets seen before the drop: {what}"), 1);
        if let Some(at) = at {
            for (x, y) in s.windows(3).zip(after.place[at..].windows(3)) {
                ck!(x != y || flat(x), "the memory of {what} still holds its bytes after the drop");
            }
        }
        for w in s.windows(6) {
            ck!(flat(w) || find(&after.heap, w).is_none(), "the memory freed by {what} still holds its bytes after the drop");
        }
    }
    Ok(())
}

type Et = EntryTable<80, InMemoryDb<80>>;
type Ct = ChainTable<86, InMemoryDb<86>>;
fn f24_case(cx: &mut Cx) -> Res {
    let r = &mut cx.r.fork();
    let s32 = <[u8; 32]>::try_from(r.bytes(32)).unwrap_or([0; 32]);
    // The same generator twice: what it will produce is known in advance.
    let mut rng = CsRng::from_seed(s32);
    let mut twin = CsRng::from_seed(s32);
    let et = Et::setup(InMemoryDb::default());
    let ct = Ct::setup(InMemoryDb::default());
    let secret = r.bytes(16);
    let eseed = || {
        let mut s = <Et as DxEnc<80>>::Seed::default();
        s.as_mut().copy_from_slice(&secret);
        s
    };
    let cseed = || {
        let mut s = <Ct as DxEnc<86>>::Seed::default();
        s.as_mut().copy_from_slice(&secret);
        s
    };
    match cx.idx % 8 {
        0 => {
            let b = et.gen_seed(&mut twin).as_ref().to_vec();
            wiped(cx, "a generated Entry Table seed", &[&b], || et.gen_seed(&mut rng))?;
        }
        1 => {
            let b = ct.gen_seed(&mut twin).as_ref().to_vec();
            wiped(cx, "a generated chain seed", &[&b], || ct.gen_seed(&mut rng))?;
        }
        2 => wiped(cx, "an Entry Table seed", &[&secret], eseed)?,
        3 => wiped(cx, "a chain seed", &[&secret], cseed)?,
        4 => {
            let s = eseed();
            let w = fmt::et_key(&secret);
            wiped(cx, "an Entry Table key", &[&w.tok, &w.dem], || et.derive_keys(&s))?;
        }
        5 => {
            let s = cseed();
            let w = fmt::ct_key(&secret);
            wiped(cx, "a chain key", &[&w.tok, &w.dem], || ct.derive_keys(&s))?;
        }
        6 => wiped(cx, "a user key", &[&secret], || ukey(&secret))?,
        _ => {
            let b = UserKey::new(&mut twin).to_vec();
            wiped(cx, "a generated user key", &[&b], || UserKey::new(&mut rng))?;
        }
    }
    cx.nontrivial(hash_bytes(cx.idx % 8, &secret));
    Ok(())
}

/// No heap block freed by an operation holds the keys.
fn f24_freed(cx: &mut Cx) -> Res {
    alloc::cleaned(|| f24_freed_case(cx))
}
fn f24_freed_case(cx: &mut Cx) -> Res {
    let r = &mut cx.r.fork();
    let env = Env::new(Mode::Seq, Log::Off, r.chance(1, 2));
    let fx = env.fx();
    let (nk, nd) = (r.range(1, 5), r.range(1, 6));
    let u = gen::universe(r, nk, nd);
    let mut kl = Kl::random(r);
    let half = |b: &[u8]| <[u8; 16]>::try_from(&b[..16]).unwrap_or([0; 16]);
    let secrets = |kl: &Kl| {
        let w = fmt::et_key(&kl.key);
        vec![half(&kl.key), half(&w.tok), half(&w.tok[16..]), half(&w.dem)]
    };
    for what in ["add", "delete", "search", "compact", "search"] {
        let ss = secrets(&kl);
        let (a, add) = (gen::assoc(r, &u, 5, 4, 20), what == "add");
        let nkl = super::seqp::new_kl(r, &kl);
        let (k, l, nk, nl) = (kl.k(), kl.l(), nkl.k(), nkl.l());
        let m = assoc_map(&a);
        let q: cosmian_findex::Keywords = u.kw.iter().map(|k| cosmian_findex::Keyword::from(k.clone())).collect();
        use cosmian_findex::Index;
        let (res, left, freed) = alloc::scanned(&ss, || {
            seq(&env.w, async {
                match what {
                    "search" => fx.search(&k, &l, q, &|_| async { Ok(false) }).await.map(|_| ()),
                    "compact" => fx.compact(&k, &nk, &l, &nl, 0.5, &|d| async { Ok(d) }).await,
                    _ if add => fx.add(&k, &l, m).await.map(|_| ()),
                    _ => fx.delete(&k, &l, m).await.map(|_| ()),
                }
                .map_err(|e| e.to_string())
            })
        });
        must(res?, what)?;
        if what == "compact" {
            kl = nkl;
        }
        cx.count("heap blocks freed and searched", freed);
        ck!(left == 0, "{what} frees {left} heap blocks that still hold the user key or a key derived from it");
    }
    let cs = half(&r.bytes(16));
    let (et, ct) = (Et::setup(InMemoryDb::default()), Ct::setup(InMemoryDb::default()));
    let w = fmt::ct_key(&cs);
    let ((), left, freed) = alloc::scanned(&[cs, half(&w.tok), half(&w.tok[16..]), half(&w.dem)], || {
        let s = <Ct as DxEnc<86>>::Seed::from(cs);
        drop(ct.derive_keys(&s));
        drop(s);
    });
    ck!(left == 0, "a heap block freed by the derivation of a chain key holds the seed or the key");
    let w = fmt::et_key(&cs);
    let ((), left, freed2) = alloc::scanned(&[cs, half(&w.tok), half(&w.tok[16..]), half(&w.dem)], || {
        let s = <Et as DxEnc<80>>::Seed::from(cs);
        drop(et.derive_keys(&s));
        drop(s);
    });
    ck!(left == 0, "a heap block freed by the derivation of an Entry Table key holds the seed or the key");
    cx.count("heap blocks freed and searched", freed + freed2);
    cx.nontrivial(cx.seed);
    Ok(())
}

// ---------------------------------------------------------------------------
// What a process keeps of the keys it used.

const MASK: u8 = 0xa7;
fn unmask(m: &[u8; 16]) -> [u8; 16] {
    let mut k = *m;
    for b in &mut k {
        *b ^= std::hint::black_box(MASK);
    }
    k
}
static CANARY: std::sync::Mutex<[u8; 16]> = std::sync::Mutex::new([1; 16]);
thread_local!(static LOCAL_CANARY: std::cell::Cell<[u8; 16]> = const { std::cell::Cell::new([1; 16]) });

/// `vh kept SEED`: uses two keys, drops them, then looks for them in its own memory.
pub fn kept_child(seed: u64) {
    alloc::wiping(|| kept_run(seed));
}
fn kept_run(seed: u64) {
    use cosmian_findex::{Index, Keyword, Keywords, Label};
    let mut r = R::new(mix(seed));
    let r = &mut r;
    let m: Vec<[u8; 16]> = (0..5).map(|_| <[u8; 16]>::try_from(r.bytes(16)).unwrap_or([0; 16])).collect();
    let env = Env::new(Mode::Seq, Log::Off, r.chance(1, 2));
    let (nk, nd) = (r.range(1, 4), r.range(1, 4));
    let u = gen::universe(r, nk, nd);
    let (l, l2) = (Label::from(r.bytes(8)), Label::from(r.bytes(9)));
    let q = || -> Keywords { u.kw.iter().map(|k| Keyword::from(k.clone())).collect() };
    let key = |i: usize| {
        let k = unmask(&m[i]);
        ukey(&k)
    };
    let a = [gen::assoc(r, &u, 4, 4, 20), gen::assoc(r, &u, 4, 4, 20)];
    let mut done = 0;
    let mut snaps = vec![];
    {
        let fx = env.fx();
        let mut go = |x: Result<Result<(), String>, Fail>| done += u32::from(matches!(x, Ok(Ok(()))));
        go(seq(&env.w, async { fx.add(&key(0), &l, assoc_map(&a[0])).await.map(|_| ()).map_err(|e| e.to_string()) }));
        go(seq(&env.w, async { fx.delete(&key(0), &l, assoc_map(&a[1])).await.map(|_| ()).map_err(|e| e.to_string()) }));
        go(seq(&env.w, async { fx.search(&key(0), &l, q(), &|_| async { Ok(false) }).await.map(|_| ()).map_err(|e| e.to_string()) }));
        snaps.push((0, env.snap()));
        // A wrong key, then failures.
        go(seq(&env.w, async { fx.search(&key(1), &l, q(), &|_| async { Ok(false) }).await.map(|_| ()).map_err(|e| e.to_string()) }));
        go(seq(&env.w, async { fx.compact(&key(0), &key(1), &l, &l2, 1.0, &|d| async { Ok(d) }).await.map_err(|e| e.to_string()) }));
        go(seq(&env.w, async { fx.search(&key(1), &l2, q(), &|_| async { Ok(false) }).await.map(|_| ()).map_err(|e| e.to_string()) }));
        snaps.push((1, env.snap()));
        let _ = seq(&env.w, async { fx.compact(&key(0), &key(1), &l2, &l, 1.0, &|d| async { Ok(d) }).await.map_err(|e| e.to_string()) });
        let _ = seq(&env.w, async { fx.search(&key(1), &l2, q(), &|_| async { Err("stop".into()) }).await.map(|_| ()).map_err(|e| e.to_string()) });
    }
    // Controls.
    *CANARY.lock().unwrap_or_else(|e| e.into_inner()) = unmask(&m[2]);
    LOCAL_CANARY.set(unmask(&m[3]));
    let boxed = Box::leak(Box::new(unmask(&m[4])));
    std::hint::black_box(&boxed);

    // Copies the writable memory before any secret is computed again.
    let mut maps = [0u8; 1 << 16];
    let mut n = 0;
    if let Ok(mut f) = std::fs::File::open("/proc/self/maps") {
        while let Ok(k) = std::io::Read::read(&mut f, &mut maps[n..]) {
            n += k;
            if k == 0 {
                break;
            }
        }
    }
    let maps = std::str::from_utf8(&maps[..n]).unwrap_or("");
    let regions = || {
        maps.lines().filter_map(|l| {
            let mut w = l.split_whitespace();
            let (a, b) = w.next()?.split_once('-')?;
            let rw = w.next()?.starts_with("rw");
            let name = w.nth(3).unwrap_or("anonymous");
            (rw && !name.starts_with("[stack") && !name.starts_with("[v")).then_some(())?;
            Some((usize::from_str_radix(a, 16).ok()?, usize::from_str_radix(b, 16).ok()?, name))
        })
    };
    let total: usize = regions().map(|(a, b, _)| b - a).sum();
    let mut copy: Vec<u8> = Vec::with_capacity(total.max(1 << 22));
    for (a, b, _) in regions() {
        // SAFETY: mapped and readable; the copy is in a mapping made since.
        unsafe { std::ptr::copy_nonoverlapping(a as *const u8, copy.as_mut_ptr().add(copy.len()), b - a) };
        // SAFETY: just written, within the capacity.
        unsafe { copy.set_len(copy.len() + b - a) };
    }
    let mut needles: Vec<(&str, Vec<u8>)> = vec![];
    for (i, n) in ["a user key", "another user key", "canary", "canary", "canary"].into_iter().enumerate() {
        let k = unmask(&m[i]);
        needles.push((n, k.to_vec()));
        if i < 2 {
            let w = fmt::et_key(&k);
            needles.push(("a derived token key", w.tok.to_vec()));
            needles.push(("a derived encryption key", w.dem.to_vec()));
            for v in snaps.iter().filter(|(j, _)| *j == i).flat_map(|(_, s)| s.et.values()) {
                if let Some(e) = fmt::open(&w.dem, v) {
                    let s = fmt::Ent::dec(&e).seed;
                    let c = fmt::ct_key(&s);
                    needles.push(("a chain seed", s.to_vec()));
                    needles.push(("a chain token key", c.tok.to_vec()));
                    needles.push(("a chain encryption key", c.dem.to_vec()));
                }
            }
        }
    }
    let chains = needles.iter().filter(|n| n.0 == "a chain seed").count();
    let mut index: std::collections::HashMap<[u8; 8], &str> = std::collections::HashMap::new();
    let mut first = [false; 1 << 16];
    for (n, b) in &needles {
        for c in b.chunks_exact(8) {
            first[usize::from(c[0]) << 8 | usize::from(c[1])] = true;
            index.insert(<[u8; 8]>::try_from(c).unwrap_or([0; 8]), n);
        }
    }
    let mut found: std::collections::BTreeMap<(&str, &str), usize> = std::collections::BTreeMap::new();
    let mut at = 0;
    for (a, b, name) in regions() {
        for w in copy[at..at + b - a].windows(8) {
            if first[usize::from(w[0]) << 8 | usize::from(w[1])] {
                if let Some(n) = index.get(w) {
                    *found.entry((n, name)).or_default() += 1;
                }
            }
        }
        at += b - a;
    }
    std::hint::black_box((CANARY.lock().map(|c| *c).ok(), LOCAL_CANARY.get()));
    println!("operations {done}");
    println!("chains {chains}");
    println!("bytes {total}");
    for ((n, region), k) in found {
        if n == "canary" {
            println!("canary {k} in {region}");
        } else {
            println!("kept {n} in {region} ({k} pieces)");
        }
    }
}
fn f24_kept(cx: &mut Cx) -> Res {
    let exe = std::env::current_exe().map_err(|e| Fail::Incon(format!("no path to this program: {e}")))?;
    let o = std::process::Command::new(exe).args(["kept", &cx.seed.to_string()]).env_clear().output();
    let o = o.map_err(|e| Fail::Incon(format!("cannot start a process: {e}")))?;
    if !o.status.success() {
        return Err(Fail::Incon(format!("the process ended with {}", o.status)));
    }
    let out = String::from_utf8_lossy(&o.stdout).into_owned();
    let num = |k: &str| out.lines().filter_map(|l| l.strip_prefix(k)?.trim().parse::<u64>().ok()).sum::<u64>();
    if out.lines().filter(|l| l.starts_with("canary ")).count() < 3 || num("operations ") < 4 {
        return Err(Fail::Incon(format!("the memory cannot be searched: {out}")));
    }
    cx.count("keys of chains searched in processes' memory", num("chains "));
    if let Some(l) = out.lines().find(|l| l.starts_with("kept ")) {
        viol!("after all keys and indexes were dropped the process has {l}");
    }
    cx.count("bytes of processes' memory searched", num("bytes "));
    cx.count("operations before the search", num("operations "));
    cx.sample(|| out.lines().collect::<Vec<_>>().join(", "));
    cx.nontrivial(cx.seed);
    Ok(())
}
