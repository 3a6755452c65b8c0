//! F17 (store contract), F18 (store serialization).
use std::{
    collections::{BTreeMap, BTreeSet, HashMap},
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst},
        Mutex,
    },
};

use cosmian_crypto_core::bytes_ser_de::{Deserializer, Serializable, Serializer};
use cosmian_findex::{DbInterface, EncryptedValue, InMemoryDb, Token, TokenToEncryptedValueMap, Tokens};

use crate::{
    alloc, ck, fmt,
    ix::*,
    mondb::{raw, tok, unraw},
    rng::{hash_bytes, mix, R},
    run::{last_panic, must, Cx, Part, Prop, Res, P},
    sched::now,
    viol,
};

pub static PROPS: [&Prop; 2] = [&F17, &F18];

type B32 = [u8; 32];
type M = BTreeMap<B32, By>;

// ---------------------------------------------------------------------------

static F17: Prop = Prop {
    id: "F17",
    level: "exploration",
    rule: "truth table: every combination of stored / expected / new values over three tokens (enumerated); sequences: random \
           batches of all store operations against a model of the documented contract; threads: batches over one group of \
           tokens always carry one version, so that a reply or dump mixing versions, or a part of a group, shows a torn \
           modification, and the number of accepted upserts must equal the last version. Identity: combination, or sequence, \
           or (threads) replies observed.",
    parts: &[
        Part { name: "truth-table", f: f17_table, quick: 46_656, thorough: 46_656, ..P },
        Part { name: "sequences", f: f17_seq, quick: 60_000, thorough: 1_000_000, ..P },
        Part { name: "threads", f: f17_threads, quick: 300, thorough: 4_000, threads: 2, secs: 100, ..P },
    ],
    assumptions: &["an expected value given without a new value for the same token may be ignored or refused"],
};

const V: usize = 4;
fn t(i: usize) -> Token {
    let mut b = [7; 32];
    b[0] = i as u8;
    b[31] = (i >> 8) as u8;
    Token::from(b)
}
/// Value `v` of a token. Two different values differ in one part only.
fn val(v: usize) -> EncryptedValue<V> {
    let mut b = vec![9; 12 + V + 16];
    match v % 3 {
        0 => b[3] ^= 1 + v as u8,
        1 => b[12] ^= 1 + v as u8,
        _ => b[12 + V + 15] ^= 1 + v as u8,
    }
    unraw(&b)
}
fn put<const L: usize>(m: &M) -> TokenToEncryptedValueMap<L> {
    TokenToEncryptedValueMap::from_iter(m.iter().map(|(k, v)| (Token::from(*k), unraw::<L>(v))))
}
fn get<const L: usize>(m: impl IntoIterator<Item = (Token, EncryptedValue<L>)>, what: &str) -> Res<M> {
    let mut r = M::new();
    for (k, v) in m {
        ck!(r.insert(tok(&k), raw(&v)).is_none(), "{what} returns token {k} twice");
    }
    Ok(r)
}
fn toks(m: impl IntoIterator<Item = B32>) -> Tokens {
    Tokens::from_iter(m.into_iter().map(Token::from))
}
fn content<const L: usize>(db: &InMemoryDb<L>) -> Res<M> {
    let d = must(now(db.dump_tokens()), "dump")?;
    let all: BTreeSet<B32> = d.iter().map(tok).collect();
    let m = get(must(now(db.fetch(d)), "fetch")?, "fetch")?;
    ck!(m.keys().copied().collect::<BTreeSet<_>>() == all, "fetching the dumped tokens gives {} values for {} tokens", m.len(), all.len());
    ck!(db.len() == m.len() && db.is_empty() == m.is_empty(), "length {} for {} stored values", db.len(), m.len());
    Ok(m)
}
enum Ups {
    Rej(M),
    Refused,
    /// Refused or rejected.
    Any(M),
}
/// The documented contract.
fn model_upsert(s: &M, old: &M, new: &M) -> (Ups, M) {
    if new.keys().any(|k| old.contains_key(k) && !s.contains_key(k)) {
        return (Ups::Refused, s.clone());
    }
    let mut rej = M::new();
    let mut s2 = s.clone();
    for (k, v) in new {
        if s.get(k) == old.get(k) {
            s2.insert(*k, v.clone());
        } else if let Some(x) = s.get(k) {
            rej.insert(*k, x.clone());
        }
    }
    if old.keys().any(|k| !new.contains_key(k) && !s.contains_key(k)) {
        (Ups::Any(rej), s2)
    } else {
        (Ups::Rej(rej), s2)
    }
}
fn check_upsert<const L: usize>(db: &InMemoryDb<L>, s: &mut M, old: &M, new: &M) -> Res<&'static str> {
    let (want, after) = model_upsert(s, old, new);
    let got = now(db.upsert(put(old), put(new)));
    let now_in = content(db)?;
    let sh = |m: &M| m.iter().map(|(k, v)| format!("{}:{}", k[0], hash_bytes(0, v) % 1000)).collect::<Vec<_>>().join(",");
    let ctx = format!("upsert of {{{}}} expecting {{{}}} over {{{}}}", sh(new), sh(old), sh(s));
    let kind = match (got, want) {
        (Ok(r), Ups::Rej(w) | Ups::Any(w)) => {
            let r = get(r, "upsert")?;
            ck!(r == w, "{ctx} rejects {{{}}}, expected {{{}}}", sh(&r), sh(&w));
            ck!(now_in == after, "{ctx} leaves {{{}}}, expected {{{}}}", sh(&now_in), sh(&after));
            *s = after;
            if w.is_empty() { "upserts accepted" } else { "upserts rejected in part or whole" }
        }
        (Err(_), Ups::Refused | Ups::Any(_)) => {
            ck!(now_in == *s, "{ctx} is refused but leaves {{{}}}", sh(&now_in));
            "upserts refused"
        }
        (Ok(_), Ups::Refused) => viol!("{ctx} succeeds, an expected value is missing from the store"),
        (Err(e), Ups::Rej(_)) => viol!("{ctx} fails: {e:?}"),
    };
    Ok(kind)
}
fn f17_table(cx: &mut Cx) -> Res {
    let mut i = cx.idx as usize;
    let (mut s, mut old, mut new) = (M::new(), M::new(), M::new());
    for k in 0..3 {
        let d = i % 36;
        i /= 36;
        let put = |m: &mut M, v: usize| {
            if v > 0 {
                m.insert(tok(&t(k)), raw(&val(v)));
            }
        };
        put(&mut s, d % 3);
        put(&mut old, d / 3 % 3);
        put(&mut new, d / 9);
    }
    let db = InMemoryDb::<V>::default();
    must(now(db.insert(put(&s))), "insertion into an empty store")?;
    let kind = check_upsert(&db, &mut s, &old, &new)?;
    cx.count(kind, 1);
    cx.nontrivial(mix(cx.idx));
    Ok(())
}

fn f17_seq(cx: &mut Cx) -> Res {
    let r = &mut cx.r.fork();
    let mut db = InMemoryDb::<V>::default();
    let mut s = M::new();
    let nt = *r.pick(&[2, 5, 20, 300]);
    let nv = 6;
    let mut h = nt as u64;
    for _ in 0..r.range(3, 30) {
        let sub = |r: &mut R| -> Vec<usize> {
            let n = r.below(nt.min(12) + 1);
            (0..n).map(|_| r.below(nt)).collect()
        };
        let batch = |r: &mut R| -> M { sub(r).into_iter().map(|i| (tok(&t(i)), raw(&val(r.below(nv))))).collect() };
        let op = r.below(12);
        h = mix(h ^ op as u64 ^ hash_bytes(1, format!("{s:?}").as_bytes()));
        match op {
            0..=4 => {
                let new = batch(r);
                let mut old = M::new();
                // Mostly what is stored, so that many tokens pass.
                for k in new.keys() {
                    match r.below(10) {
                        0 => {}
                        1 => {
                            old.insert(*k, raw(&val(r.below(nv))));
                        }
                        _ => {
                            if let Some(v) = s.get(k) {
                                old.insert(*k, v.clone());
                            }
                        }
                    }
                }
                if r.chance(1, 12) {
                    old.extend(batch(r));
                }
                let kind = check_upsert(&db, &mut s, &old, &new)?;
                cx.count(kind, 1);
            }
            5 | 6 => {
                let mut m = batch(r);
                if r.chance(1, 2) {
                    m.retain(|k, _| !s.contains_key(k));
                }
                let used = m.keys().any(|k| s.contains_key(k));
                let got = now(db.insert(put(&m)));
                ck!(got.is_err() == used, "insertion of {} values ({}) gives {got:?}", m.len(), if used { "some used" } else { "all free" });
                if !used {
                    s.extend(m);
                }
                cx.count(if used { "insertions refused" } else { "insertions accepted" }, 1);
            }
            7 | 8 => {
                let d: BTreeSet<B32> = sub(r).into_iter().map(|i| tok(&t(i))).collect();
                must(now(db.delete(toks(d.clone()))), "deletion")?;
                s.retain(|k, _| !d.contains(k));
                cx.count("deletions", 1);
            }
            9 | 10 => {
                let q: BTreeSet<B32> = sub(r).into_iter().map(|i| tok(&t(i))).collect();
                let got = get(must(now(db.fetch(toks(q.clone()))), "fetch")?, "fetch")?;
                let want: M = s.iter().filter(|(k, _)| q.contains(*k)).map(|(k, v)| (*k, v.clone())).collect();
                ck!(got == want, "fetch of {} tokens returns {} values, {} are stored", q.len(), got.len(), want.len());
                cx.count("fetches", 1);
            }
            _ => {
                if r.chance(1, 4) {
                    s = batch(r);
                    db.load(put(&s));
                } else if r.chance(1, 4) {
                    s.clear();
                    db.flush();
                }
                ck!(db.size() == s.len() * (32 + 12 + V + 16), "size {} for {} values", db.size(), s.len());
            }
        }
        let c = content(&db)?;
        ck!(c == s, "the store holds {} values after operation {op}, {} expected: {:?} instead of {:?}", c.len(), s.len(), c, s);
    }
    cx.nontrivial(h);
    Ok(())
}

/// Version written in every value of a group.
fn ver(v: &EncryptedValue<8>) -> u64 {
    u64::from_le_bytes(v.ciphertext)
}
fn mk(v: u64, who: u8) -> EncryptedValue<8> {
    let mut b = vec![who; 36];
    b[12..20].copy_from_slice(&v.to_le_bytes());
    unraw(&b)
}
fn f17_threads(cx: &mut Cx) -> Res {
    let r = &mut cx.r.fork();
    let n = *r.pick(&[2usize, 8, 64, 200]);
    let mode = r.below(2);
    let (nw, nr) = (r.range(1, 3), r.range(1, 3));
    let rounds = 12_000 / n as u64 + 40;
    let db = InMemoryDb::<8>::default();
    let group: Vec<Token> = (0..n).map(t).collect();
    let all = |v: u64, who: u8| -> HashMap<Token, EncryptedValue<8>> { group.iter().map(|t| (*t, mk(v, who))).collect() };
    if mode == 0 {
        must(now(db.insert(all(0, 0).into())), "insertion into an empty store")?;
    }
    let bad: Mutex<Option<String>> = Mutex::new(None);
    let done = AtomicBool::new(false);
    let working = AtomicUsize::new(nw);
    let ready = AtomicUsize::new(0);
    let (acc, rej, part, whole, empty, changes) =
        (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0));
    let fail = |m: String| {
        let mut b = bad.lock().unwrap_or_else(|e| e.into_inner());
        if b.is_none() {
            *b = Some(m);
        }
        done.store(true, SeqCst);
    };
    /// One version for everything seen, and all of the group or nothing.
    fn one(seen: &[(Token, EncryptedValue<8>)], n: usize) -> Result<Option<(u64, EncryptedValue<8>)>, String> {
        let Some((_, f)) = seen.first() else { return Ok(None) };
        if let Some((t, x)) = seen.iter().find(|x| x.1 != *f) {
            return Err(format!("mixes version {} and version {} (token {t})", ver(f), ver(x)));
        }
        if seen.len() != n {
            return Err(format!("holds {} of the {n} values of version {}", seen.len(), ver(f)));
        }
        Ok(Some((ver(f), f.clone())))
    }
    let start = |f: &dyn Fn() -> Result<(), String>| {
        ready.fetch_add(1, SeqCst);
        while ready.load(SeqCst) < nw + nr {
            std::hint::spin_loop();
        }
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(Ok(())) => {}
            Ok(Err(m)) => fail(m),
            Err(_) => {
                let (l, m) = last_panic().unwrap_or_default();
                fail(format!("a thread panicked at {l}: {m}"));
            }
        }
    };
    let fetch = || -> Result<Vec<(Token, EncryptedValue<8>)>, String> {
        Ok(now(db.fetch(Tokens::from_iter(group.iter().copied()))).map_err(|e| format!("fetch fails: {e:?}"))?.into_iter().collect())
    };
    std::thread::scope(|sc| {
        let (start, fetch, all, db, done, working) = (&start, &fetch, &all, &db, &done, &working);
        let (acc, rej, part, whole, empty, changes) = (&acc, &rej, &part, &whole, &empty, &changes);
        for w in 0..nw {
            sc.spawn(move || {
                let who = w as u8 + 1;
                start(&|| {
                    for i in 0..rounds {
                        if done.load(SeqCst) {
                            break;
                        }
                        if mode == 0 {
                            // Compare and swap of the whole group.
                            let seen = fetch()?;
                            let Some((v, f)) = one(&seen, n).map_err(|m| format!("fetch of the group {m}"))? else {
                                return Err("the group disappeared".into());
                            };
                            let old: HashMap<_, _> = seen.iter().map(|(t, _)| (*t, f.clone())).collect();
                            let rj: Vec<_> = now(db.upsert(old.into(), all(v + 1, who).into()))
                                .map_err(|e| format!("upsert fails: {e:?}"))?
                                .into_iter()
                                .collect();
                            match one(&rj, n).map_err(|m| format!("the rejection of the group {m}"))? {
                                None => acc.fetch_add(1, SeqCst),
                                Some((v2, _)) if v2 > v || v2 == v && rj[0].1 != f => rej.fetch_add(1, SeqCst),
                                Some((v2, _)) => return Err(format!("an upsert expecting version {v} is rejected with version {v2}")),
                            };
                        } else {
                            // Insertion and deletion of the whole group.
                            match now(db.insert(all(i, who).into())) {
                                Ok(()) => {
                                    acc.fetch_add(1, SeqCst);
                                    now(db.delete(Tokens::from_iter(group_of(n)))).map_err(|e| format!("deletion fails: {e:?}"))?;
                                }
                                Err(_) => {
                                    rej.fetch_add(1, SeqCst);
                                }
                            }
                        }
                    }
                    Ok(())
                });
                if working.fetch_sub(1, SeqCst) == 1 {
                    done.store(true, SeqCst);
                }
            });
        }
        for _ in 0..nr {
            sc.spawn(move || {
                start(&|| {
                    let mut last = 0;
                    while !done.load(SeqCst) {
                        let seen = fetch()?;
                        match one(&seen, n).map_err(|m| format!("a fetch of the group {m}"))? {
                            None if mode == 0 => return Err("a fetch of the group returns nothing".into()),
                            None => empty.fetch_add(1, SeqCst),
                            Some((v, _)) => {
                                if mode == 0 && v < last {
                                    return Err(format!("version {v} is fetched after version {last}"));
                                }
                                if v != last {
                                    changes.fetch_add(1, SeqCst);
                                }
                                last = v;
                                whole.fetch_add(1, SeqCst)
                            }
                        };
                        let d = now(db.dump_tokens()).map_err(|e| format!("dump fails: {e:?}"))?.len();
                        if d != n && (mode == 0 || d != 0) {
                            return Err(format!("a dump holds {d} of the {n} tokens of the group"));
                        }
                        part.fetch_add(1, SeqCst);
                        let l = db.len();
                        if l != n && (mode == 0 || l != 0) {
                            return Err(format!("the store holds {l} of the {n} values of the group"));
                        }
                    }
                    Ok(())
                });
            });
        }
    });
    if let Some(m) = bad.into_inner().unwrap_or_else(|e| e.into_inner()) {
        viol!("{m} ({nw} writers, {nr} readers, groups of {n})");
    }
    let g = |x: &AtomicU64| x.load(SeqCst);
    if mode == 0 {
        let seen: Vec<_> = must(fetch(), "fetch")?;
        let v = must(one(&seen, n), "last fetch")?.map_or(0, |x| x.0);
        ck!(v == g(&acc), "{} upserts were accepted and the group is at version {v}", g(&acc));
        ck!(g(&rej) + g(&acc) == rounds * nw as u64, "upserts were lost");
    } else {
        ck!(db.is_empty(), "{} values stay after the deletion of all of them", db.len());
    }
    cx.count("batches applied", g(&acc));
    cx.count("batches rejected", g(&rej));
    cx.count("whole groups fetched", g(&whole));
    cx.count("fetches without any value", g(&empty));
    cx.count("version changes seen by readers", g(&changes));
    cx.count("dumps", g(&part));
    if g(&changes) > 0 {
        cx.nontrivial(mix(cx.seed ^ mix(g(&rej) ^ mix(g(&whole) ^ mix(g(&empty) ^ mix(g(&changes)))))));
    }
    let s = format!("{nw} writers, {nr} readers, groups of {n}, {}: {} applied, {} rejected, {} whole fetches, {} empty, {} changes seen", if mode == 0 { "compare and swap" } else { "insert and delete" }, g(&acc), g(&rej), g(&whole), g(&empty), g(&changes));
    cx.sample(|| s);
    Ok(())
}
fn group_of(n: usize) -> Vec<Token> {
    (0..n).map(t).collect()
}

// ---------------------------------------------------------------------------

static F18: Prop = Prop {
    id: "F18",
    level: "exploration",
    rule: "round-trip: random stores with values of 9 sizes, serialized alone and between other objects; the bytes are decoded by \
           an independent parser, the store read back must be equal, and the announced length exact; stores written by an \
           independent writer of the format of earlier versions are read. Hostile: each truncation, random bytes, altered \
           counts and sizes: an error (truncations, trailing bytes) or a store made of the given bytes, no panic, and a peak \
           allocation bounded by the input. File: the index shipped with the sources. Identity: bytes read.",
    parts: &[
        Part { name: "round-trip", f: f18_rt, quick: 40_000, thorough: 500_000, ..P },
        Part { name: "hostile", f: f18_bad, quick: 60_000, thorough: 1_000_000, ..P },
        Part { name: "truncations", f: f18_cut, quick: 3_000, thorough: 40_000, ..P },
        Part { name: "large", f: f18_large, quick: 16, thorough: 80, ..P },
        Part { name: "shipped", f: f18_file, quick: 1, thorough: 1, threads: 1, ..P },
    ],
    assumptions: &["64 bits"],
};

fn leb(mut n: u64) -> By {
    let mut v = vec![];
    loop {
        let b = (n & 127) as u8;
        n >>= 7;
        if n == 0 {
            v.push(b);
            return v;
        }
        v.push(b | 128);
    }
}
fn unleb(b: &[u8], p: &mut usize) -> Option<u64> {
    let mut n = 0u64;
    for i in 0..10 {
        let x = *b.get(*p)?;
        *p += 1;
        n |= u64::from(x & 127).checked_shl(7 * i)?;
        if x & 128 == 0 {
            return Some(n);
        }
    }
    None
}
/// Format of all versions: number of values, then for each the token, the size
/// of the value and its bytes.
fn parse(b: &[u8], p: &mut usize, size: usize) -> Option<Vec<(B32, By)>> {
    let n = unleb(b, p)?;
    let mut v = vec![];
    for _ in 0..n {
        let k = B32::try_from(b.get(*p..*p + 32)?).ok()?;
        *p += 32;
        if unleb(b, p)? != size as u64 {
            return None;
        }
        v.push((k, b.get(*p..*p + size)?.to_vec()));
        *p += size;
    }
    Some(v)
}
fn print(m: &M) -> By {
    let mut v = leb(m.len() as u64);
    for (k, x) in m {
        v.extend(k);
        v.extend(leb(x.len() as u64));
        v.extend(x);
    }
    v
}
fn random_store(r: &mut R, n: usize, size: usize) -> M {
    let flat = r.chance(1, 8);
    (0..n)
        .map(|_| {
            let mut k = [0; 32];
            k.copy_from_slice(&r.bytes(32));
            (k, if flat { vec![r.u64() as u8; size] } else { r.bytes(size) })
        })
        .collect()
}
fn db_of<const L: usize>(m: &M) -> InMemoryDb<L> {
    let mut d = InMemoryDb::<L>::default();
    d.load(put(m));
    d
}
fn held<const L: usize>(d: &InMemoryDb<L>) -> M {
    d.lock().unwrap_or_else(|e| e.into_inner()).iter().map(|(k, v)| (tok(k), raw(v))).collect()
}

fn rt<const L: usize>(cx: &mut Cx, r: &mut R) -> Res<u64> {
    let size = L + 28;
    let n = *r.pick(&[0, 1, 2, 3, 5, 8, 127, 128, 129, 300]);
    let m = random_store(r, n, size);
    let d = db_of::<L>(&m);
    let ctx = format!("a store of {n} values of {L} bytes");
    let b = must(d.serialize().map_err(|e| format!("{e:?}")), format!("writing {ctx}"))?.to_vec();
    ck!(d.length() == b.len(), "{ctx} announces {} bytes and writes {}", d.length(), b.len());
    let mut p = 0;
    let got: Option<M> = parse(&b, &mut p, size).map(|v| v.into_iter().collect());
    ck!(got.as_ref() == Some(&m) && p == b.len(), "the {} bytes of {ctx} are not in the documented format", b.len());
    let back = must(InMemoryDb::<L>::deserialize(&b).map_err(|e| format!("{e:?}")), format!("reading back {ctx}"))?;
    ck!(held(&back) == m, "{ctx} is read back with other contents ({} values)", back.len());
    ck!(held(&d) == m, "writing {ctx} changes it");
    // What earlier versions wrote.
    let old = print(&m);
    let back = must(InMemoryDb::<L>::deserialize(&old).map_err(|e| format!("{e:?}")), format!("reading {ctx} written in the format of earlier versions"))?;
    ck!(held(&back) == m, "{ctx} written in the format of earlier versions is read with other contents");
    // Among other objects.
    let m2 = random_store(r, r_small(n), 80 + 28);
    let d2 = db_of::<80>(&m2);
    let nb = r.below(200);
    let blob = r.bytes(nb);
    let x = r.u64();
    let e = |e: &dyn std::fmt::Debug| format!("{e:?}");
    let mut s = Serializer::new();
    let mut total = 0;
    total += must(s.write_vec(&blob).map_err(|x| e(&x)), "write")?;
    total += must(s.write(&d).map_err(|x| e(&x)), format!("writing {ctx} among other objects"))?;
    total += must(s.write_leb128_u64(x).map_err(|x| e(&x)), "write")?;
    total += must(s.write(&d2).map_err(|x| e(&x)), "writing a store")?;
    total += must(s.write(&d).map_err(|x| e(&x)), format!("writing {ctx} a second time"))?;
    let all = s.finalize().to_vec();
    ck!(total == all.len(), "the writers report {total} bytes, {} were written ({ctx})", all.len());
    let mut de = Deserializer::new(&all);
    ck!(must(de.read_vec().map_err(|x| e(&x)), "read")? == blob, "a vector next to {ctx} is not read back");
    let a = must(de.read::<InMemoryDb<L>>().map_err(|x| e(&x)), format!("reading {ctx} among other objects"))?;
    ck!(held(&a) == m, "{ctx} among other objects is read back with other contents");
    ck!(must(de.read_leb128_u64().map_err(|x| e(&x)), format!("reading what follows {ctx}"))? == x, "what follows {ctx} is not read back");
    let a = must(de.read::<InMemoryDb<80>>().map_err(|x| e(&x)), format!("reading a store after {ctx}"))?;
    ck!(held(&a) == m2, "the store following {ctx} is read back with other contents");
    let a = must(de.read::<InMemoryDb<L>>().map_err(|x| e(&x)), format!("reading {ctx} after another store"))?;
    ck!(held(&a) == m, "{ctx} after another store is read back with other contents");
    ck!(de.finalize().is_empty(), "bytes are left after the last object");
    // The restored store is a working one.
    if let Some(k) = m.keys().next() {
        let g = get(must(now(a.fetch(toks([*k]))), "fetch in a restored store")?, "fetch")?;
        ck!(g.get(k) == m.get(k), "a restored store does not give a value it holds");
        must(now(a.delete(toks([*k]))), "deletion in a restored store")?;
        ck!(a.len() == n - 1, "a restored store does not delete a value");
    }
    cx.count("values written and read back", 3 * n as u64);
    Ok(hash_bytes(L as u64, &b))
}
fn r_small(n: usize) -> usize {
    n % 4
}
macro_rules! sizes {
    ($i:expr, $f:ident, $($a:expr),*) => {
        match $i % 9 {
            0 => $f::<80>($($a),*),
            1 => $f::<86>($($a),*),
            2 => $f::<0>($($a),*),
            3 => $f::<1>($($a),*),
            4 => $f::<16>($($a),*),
            5 => $f::<99>($($a),*),
            6 => $f::<100>($($a),*),
            7 => $f::<101>($($a),*),
            _ => $f::<300>($($a),*),
        }
    };
}
fn f18_rt(cx: &mut Cx) -> Res {
    let r = &mut cx.r.fork();
    let h = sizes!(cx.idx, rt, cx, r)?;
    cx.nontrivial(h);
    Ok(())
}

/// Reads arbitrary bytes; `whole`: contents expected if they are accepted.
fn read_any<const L: usize>(cx: &mut Cx, b: &[u8], what: &str) -> Res<bool> {
    let size = L + 28;
    let (out, peak) = alloc::measure(|| catch_unwind(AssertUnwindSafe(|| InMemoryDb::<L>::deserialize(b))));
    let Ok(out) = out else {
        let (l, m) = last_panic().unwrap_or_default();
        viol!("reading {what} ({} bytes, values of {L} bytes) panics at {l}: {m}", b.len());
    };
    cx.max("allocation for hostile input, bytes", peak as u64);
    ck!(peak <= 40 * b.len() + 65_536, "reading {what} ({} bytes, values of {L} bytes) allocates {peak} bytes", b.len());
    match out {
        Err(_) => {
            cx.count("refused", 1);
            Ok(false)
        }
        Ok(d) => {
            let mut p = 0;
            let want = parse(b, &mut p, size);
            let Some(want) = want else {
                viol!("{what} ({} bytes, values of {L} bytes) is accepted and is not a serialized store", b.len())
            };
            ck!(p == b.len(), "{what} is accepted with {} trailing bytes", b.len() - p);
            let got = held(&d);
            for (k, v) in &got {
                ck!(want.iter().any(|x| x.0 == *k && x.1 == *v), "{what} is read as values that it does not hold");
            }
            for (k, _) in &want {
                ck!(got.contains_key(k), "{what} is read without one of its values");
            }
            cx.count("accepted", 1);
            Ok(true)
        }
    }
}
fn bad<const L: usize>(cx: &mut Cx, r: &mut R) -> Res<u64> {
    let size = L + 28;
    let n = r.below(6);
    let m = random_store(r, n, size);
    let good = print(&m);
    let kind = r.below(9);
    let (what, b, must_fail) = match kind {
        0 => {
            let n = *r.pick(&[0, 1, 2, 9, 10, 11, 40, 300, 2000]);
            ("random bytes", r.bytes(n), n == 0)
        }
        1 => {
            // Huge number of values.
            let huge = *r.pick(&[u64::MAX, u64::MAX / 2, 1 << 62, 1 << 40, 1 << 32, 1 << 31, 1 << 28, 1 << 24, 1 << 20, 100_000]);
            let mut b = leb(huge);
            b.extend(&good[1..]);
            ("a store announcing far too many values", b, true)
        }
        2 => {
            // Wrong size of a value.
            let huge = *r.pick(&[0, 1, size as u64 - 1, size as u64 + 1, 127, 128, 255, 256, 1 << 20, 1 << 31, 1 << 32, 1 << 33, 1 << 63, u64::MAX, (1 << 32) + size as u64, (1 << 8) + size as u64, (1 << 16) + size as u64]);
            let mut b = leb(m.len() as u64 + 1);
            b.extend(&good[1..]);
            b.extend(r.bytes(32));
            b.extend(leb(huge));
            let x = if r.chance(1, 2) { size } else { (huge as usize).min(1000) };
            b.extend(r.bytes(x));
            ("a store with a value of another size", b, huge != size as u64)
        }
        3 => {
            let mut b = good.clone();
            let x = r.range(1, 40);
            b.extend(r.bytes(x));
            ("a store followed by other bytes", b, true)
        }
        4 => {
            let mut b = good.clone();
            let i = r.below(b.len());
            b[i] ^= 1 << r.below(8);
            ("a store with an altered bit", b, false)
        }
        5 => {
            // Number announced by the count changed by a few.
            let d = *r.pick(&[1i64, -1, 2, 100]);
            let c = (n as i64 + d).max(0) as u64;
            let mut b = leb(c);
            b.extend(&good[1..]);
            ("a store announcing another number of values", b, c != n as u64)
        }
        6 => ("an unterminated number", vec![255; r.range(1, 30)], true),
        7 => {
            // The same token twice.
            let mut b = leb(2);
            let k = r.bytes(32);
            for _ in 0..2 {
                b.extend(&k);
                b.extend(leb(size as u64));
                b.extend(r.bytes(size));
            }
            ("a store with the same token twice", b, false)
        }
        _ => {
            let mut b = good.clone();
            let i = r.below(b.len());
            let j = r.range(i, b.len());
            if r.chance(1, 2) {
                b.drain(i..j);
            } else {
                let x = b[i..j].to_vec();
                b.splice(i..i, x);
            }
            ("a store with a piece removed or repeated", b, false)
        }
    };
    let acc = read_any::<L>(cx, &b, what)?;
    ck!(!(acc && must_fail), "{what} is accepted (values of {L} bytes)");
    cx.count(what, 1);
    Ok(hash_bytes(L as u64, &b))
}
fn f18_bad(cx: &mut Cx) -> Res {
    let r = &mut cx.r.fork();
    let h = sizes!(cx.idx, bad, cx, r)?;
    cx.nontrivial(h);
    Ok(())
}
fn cut<const L: usize>(cx: &mut Cx, r: &mut R) -> Res<u64> {
    let n = r.range(1, 3);
    let m = random_store(r, n, L + 28);
    let b = print(&m);
    ck!(read_any::<L>(cx, &b, "a whole store")?, "a store of {n} values of {L} bytes is refused");
    for i in 0..b.len() {
        ck!(!read_any::<L>(cx, &b[..i], "a truncated store")?, "a store of {n} values of {L} bytes is accepted when truncated to {i} bytes of {}", b.len());
    }
    cx.count("truncations", b.len() as u64);
    Ok(hash_bytes(L as u64, &b))
}
fn f18_cut(cx: &mut Cx) -> Res {
    let r = &mut cx.r.fork();
    let h = sizes!(cx.idx, cut, cx, r)?;
    cx.nontrivial(h);
    Ok(())
}
fn f18_large(cx: &mut Cx) -> Res {
    let r = &mut cx.r.fork();
    // Around the sizes of the numbers which count them.
    const SIZES: [usize; 16] =
        [65_536, 65_537, 16_384, 256, 128, 131_072, 16_383, 65_535, 255, 257, 127, 129, 16_385, 32_768, 70_000, 40_000];
    let n = match cx.idx as usize {
        i if i < SIZES.len() => SIZES[i],
        _ => r.range(100, 100_000),
    };
    let m = random_store(r, n, 86 + 28);
    let d = db_of::<86>(&m);
    let b = must(d.serialize().map_err(|e| format!("{e:?}")), format!("writing {n} values"))?.to_vec();
    ck!(d.length() == b.len(), "a store of {n} values announces {} bytes and writes {}", d.length(), b.len());
    let back = must(InMemoryDb::<86>::deserialize(&b).map_err(|e| format!("{e:?}")), format!("reading {n} values"))?;
    ck!(held(&back) == m, "a store of {n} values is read back with other contents");
    cx.count("values written and read back", n as u64);
    cx.nontrivial(hash_bytes(1, &b));
    Ok(())
}
/// The index of the sources, decoded apart.
pub fn shipped() -> Result<(fmt::Tbl, fmt::Tbl, Kl, By), String> {
    let rd = |n: &str| std::fs::read(format!("/repo/datasets/{n}")).map_err(|e| format!("{n}: {e}"));
    let b = rd("serialized_index")?;
    let kl = Kl { key: rd("key")?, label: rd("label")? };
    let mut p = 0;
    let et = parse(&b, &mut p, 108).ok_or("Entry Table of the shipped index")?;
    let ct = parse(&b, &mut p, 114).ok_or("Chain Table of the shipped index")?;
    if p != b.len() {
        return Err("shipped index: trailing bytes".into());
    }
    Ok((et.into_iter().collect(), ct.into_iter().collect(), kl, b))
}
fn f18_file(cx: &mut Cx) -> Res {
    let (et, ct, _, b) = shipped().map_err(crate::run::Fail::Incon)?;
    let e = |e: &dyn std::fmt::Debug| format!("{e:?}");
    let mut de = Deserializer::new(&b);
    let d = must(de.read::<InMemoryDb<80>>().map_err(|x| e(&x)), "reading the shipped Entry Table")?;
    let c = must(de.read::<InMemoryDb<86>>().map_err(|x| e(&x)), "reading the shipped Chain Table")?;
    ck!(de.finalize().is_empty(), "bytes of the shipped index are left");
    ck!(held(&d) == et && held(&c) == ct, "the shipped index is read with other contents");
    let mut s = Serializer::new();
    must(s.write(&d).map_err(|x| e(&x)), "write")?;
    must(s.write(&c).map_err(|x| e(&x)), "write")?;
    let b2 = s.finalize().to_vec();
    let mut p = 0;
    let et2: Option<M> = parse(&b2, &mut p, 108).map(|v| v.into_iter().collect());
    let ct2: Option<M> = parse(&b2, &mut p, 114).map(|v| v.into_iter().collect());
    ck!(et2 == Some(et.clone()) && ct2 == Some(ct.clone()) && b2.len() == b.len(), "the shipped index is not written back in its format");
    cx.count("shipped entries and lines", (et.len() + ct.len()) as u64);
    cx.nontrivial(1);
    Ok(())
}
