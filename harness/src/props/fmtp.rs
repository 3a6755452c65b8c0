//! F19 (stored format), F22 (conversions).
use std::{
    collections::{BTreeMap, BTreeSet, HashMap, HashSet},
    panic::{catch_unwind, AssertUnwindSafe},
};

use cosmian_crypto_core::{reexport::rand_core::SeedableRng, CsRng, FixedSizeCBytes, SymmetricKey};
use cosmian_findex::{
    Data, EncryptedValue, IndexedValue, IndexedValueToKeywordsMap, Keyword, KeywordToDataMap, Keywords, Label, Token,
    TokenToEncryptedValueMap, TokenWithEncryptedValueList, Tokens,
};

use super::{
    compactp::direct,
    faults::same,
    seqp::{check_search, new_kl, trace_lines},
    store::shipped,
};
use crate::{
    ck, fmt, gen,
    ix::*,
    mondb::{raw, unraw, Log, Mode},
    rng::{hash_bytes, mix, R},
    run::{last_panic, must, ok, Cx, Fail, Part, Prop, Res, P},
    viol,
};

pub static PROPS: [&Prop; 2] = [&F19, &F22];

static F19: Prop = Prop {
    id: "F19",
    level: "exploration",
    rule: "an independent implementation (SHA3, SHAKE, KMAC, AES-GCM, entry and link layouts; nothing shared with the crate) \
           decodes everything the library writes in random histories with compactions and must find exactly the expected \
           associations, in complete chains, and no other line; it writes indexes that the library searches, updates and \
           compacts; both take turns on the same tables; the index shipped with the sources is decoded and searched for all its \
           keywords, then updated and compacted. Identity: history.",
    parts: &[
        Part { name: "turns", f: f19_turns, quick: 60_000, thorough: 800_000, ..P },
        Part { name: "big-turns", f: f19_turns, quick: 250, thorough: 2_500, big: 3000, ..P },
        Part { name: "read", f: f19_read, quick: 30_000, thorough: 400_000, ..P },
        Part { name: "lengths", f: f19_lengths, quick: 130, thorough: 1_300, ..P },
        Part { name: "shipped", f: f19_shipped, quick: 1, thorough: 8, ..P },
    ],
    assumptions: &["cryptographic primitives of tiny-keccak and aes-gcm"],
};

/// What the independent reader finds under each keyword.
fn decode(s: &Snap, kl: &Kl, ks: &[By]) -> Res<BTreeMap<By, Option<BTreeSet<Val>>>> {
    ks.iter()
        .map(|k| {
            let v = must(fmt::read_kw(&s.et, &s.ct, &kl.key, &kl.label, k), format!("independent reading of keyword {}", show(k)))?;
            let v = match v {
                None => None,
                Some(v) => {
                    ck!(v.missing == 0, "{} lines of the chain of keyword {} are missing", v.missing, show(k));
                    let mut out = BTreeSet::new();
                    for b in &v.live {
                        let Some(x) = Val::from_iv(b) else {
                            viol!("keyword {} holds a value that is not an indexed value: {}", show(k), show(b))
                        };
                        out.insert(x);
                    }
                    Some(out)
                }
            };
            Ok((k.clone(), v))
        })
        .collect()
}
fn check_decode(cx: &mut Cx, s: &Snap, kl: &Kl, m: &Model, ks: &[By], when: &str) -> Res {
    for (k, got) in decode(s, kl, ks)? {
        let want = m.kw.get(&k);
        match (&got, want) {
            (None, None) => {}
            (Some(g), Some(w)) if g == w => {}
            // Entry of a keyword without association: kept or not by a compaction.
            (None, Some(w)) if w.is_empty() => {}
            _ => {
                let f = |v: Option<&BTreeSet<Val>>| v.map_or("no entry".into(), |v| format!("{{{}}}", v.iter().map(show_val).collect::<Vec<_>>().join(", ")));
                viol!("{when}, the tables decoded independently hold for keyword {}: {}, expected {}", show(&k), f(got.as_ref()), f(want));
            }
        }
    }
    trace_lines(s, kl)?;
    cx.count("keywords decoded", ks.len() as u64);
    cx.count("lines decoded", s.ct.len() as u64);
    Ok(())
}
/// The independent writer's turn.
fn write(r: &mut R, env: &Env, kl: &Kl, add: bool, a: &Assoc) -> Res {
    let mut s = env.snap();
    for (k, vs) in per_kw(a) {
        let mods: Vec<(bool, By)> = vs.iter().map(|v| (add, v.iv())).collect();
        must(fmt::write_kw(r, &mut s.et, &mut s.ct, &kl.key, &kl.label, &k, &mods), "independent writing")?;
    }
    env.restore(&s);
    Ok(())
}
/// Several additions and deletions in one go: lines mixing both.
fn write_mixed(r: &mut R, env: &Env, kl: &Kl, u: &gen::Uni, m: &mut Model) -> Res<String> {
    let mut s = env.snap();
    let k = r.pick(&u.kw).clone();
    let mods: Vec<(bool, Val)> = (0..r.range(1, 8)).map(|_| (r.chance(2, 3), gen::value(r, u, 20))).collect();
    let raw: Vec<(bool, By)> = mods.iter().map(|(a, v)| (*a, v.iv())).collect();
    must(fmt::write_kw(r, &mut s.et, &mut s.ct, &kl.key, &kl.label, &k, &raw), "independent writing")?;
    env.restore(&s);
    let e = m.kw.entry(k.clone()).or_default();
    let mut t = format!("independent writer, keyword {}:", show(&k));
    for (a, v) in mods {
        t.push_str(&format!(" {}{}", if a { '+' } else { '-' }, show_val(&v)));
        if a {
            e.insert(v);
        } else {
            e.remove(&v);
        }
    }
    Ok(t)
}
fn universe_keywords(m: &Model, u: &gen::Uni) -> Vec<By> {
    let mut ks = m.mentioned();
    ks.extend(u.kw.iter().cloned());
    ks.sort();
    ks.dedup();
    ks
}
fn f19_turns(cx: &mut Cx) -> Res {
    let r = &mut cx.r.fork();
    let env = Env::new(Mode::Seq, Log::Off, r.chance(1, 2));
    let mut kl = Kl::random(r);
    let (nk, nd) = (r.range(1, 5), r.range(1, 8));
    let u = gen::universe(r, nk, nd);
    let mut m = Model::default();
    let (mut lib, mut own) = (0, 0);
    for i in 0..r.range(2, 12) {
        let fx = env.fx();
        let add = m.live() == 0 || r.chance(3, 5);
        match r.below(10) {
            0..=3 => {
                let a = gen::assoc(r, &u, 4, 3, 20);
                cx.log(format!("library {} {}", if add { "add" } else { "delete" }, show_assoc(&a)));
                let before = env.snap();
                let k = fmt::et_key(&kl.key);
                let new: BTreeSet<By> = per_kw(&a).into_keys().filter(|x| !before.et.contains_key(&fmt::et_token(&k, &fmt::tag_hash(x), &kl.label))).collect();
                let got = ok(&env.w, "modification", modify(&fx, &kl, add, &a))?;
                ck!(got == new, "operation {i} reports {} as new, {} had no entry", show_set(&got), show_set(&new));
                m.apply(add, &a);
                lib += 1;
            }
            4..=6 => {
                let a = gen::assoc(r, &u, 4, 3, 20);
                cx.log(format!("independent writer {} {}", if add { "add" } else { "delete" }, show_assoc(&a)));
                write(r, &env, &kl, add, &a)?;
                m.apply(add, &a);
                own += 1;
            }
            7 | 8 => {
                let t = write_mixed(r, &env, &kl, &u, &mut m)?;
                cx.log(t);
                own += 1;
            }
            _ => {
                let nkl = new_kl(r, &kl);
                let rate = gen::rate(r);
                cx.log(format!("compact {rate}"));
                ok(&env.w, "compaction", compact(&fx, &kl, &nkl, rate))?;
                kl = nkl;
                lib += 1;
                cx.count("compactions", 1);
            }
        }
        let ks = universe_keywords(&m, &u);
        let s = env.snap();
        check_decode(cx, &s, &kl, &m, &ks, &format!("after operation {i}"))?;
        let q = r.subset(&ks, 4);
        check_search(cx, &env, &env.fx(), &kl, &m, &q, &format!("after operation {i}"))?;
        let got = direct(&env, &kl, &ks)?;
        if let Some(d) = same(&got, &m, &ks) {
            viol!("after operation {i}: {d}");
        }
        // Dropped keywords are not in the model any more.
        let k = fmt::et_key(&kl.key);
        m.kw.retain(|kw, vs| !vs.is_empty() || s.et.contains_key(&fmt::et_token(&k, &fmt::tag_hash(kw), &kl.label)));
    }
    cx.count("turns of the library", lib);
    cx.count("turns of the independent writer", own);
    if lib > 0 && own > 0 {
        cx.nontrivial(hash_bytes(0, cx.note.as_bytes()));
    }
    let note = cx.note.clone();
    cx.sample(|| note);
    Ok(())
}
fn f19_read(cx: &mut Cx) -> Res {
    let r = &mut cx.r.fork();
    let env = Env::new(Mode::Seq, Log::Off, r.chance(1, 2));
    // Several labels of one user on the same tables.
    let kl = Kl::random(r);
    let mut kls = vec![kl.clone()];
    if r.chance(1, 2) {
        let mut k2 = kl;
        k2.label = gen::near(r, &[k2.label.clone()]);
        kls.push(k2);
    }
    let u = gen::universe(r, 4, 6);
    let mut ms = vec![Model::default(); kls.len()];
    let fx = env.fx();
    for i in 0..r.range(2, 9) {
        let j = r.below(kls.len());
        let add = ms[j].live() == 0 || r.chance(3, 5);
        let a = gen::assoc(r, &u, 6, 4, 20);
        cx.log(format!("label {j} {} {}", if add { "add" } else { "delete" }, show_assoc(&a)));
        ok(&env.w, "modification", modify(&fx, &kls[j], add, &a))?;
        ms[j].apply(add, &a);
        let s = env.snap();
        for (kl, m) in kls.iter().zip(&ms) {
            let ks = universe_keywords(m, &u);
            check_decode(cx, &s, kl, m, &ks, &format!("after operation {i}"))?;
        }
        let n: usize = ms.iter().map(|m| m.kw.len()).sum();
        ck!(s.et.len() == n, "{} entries for {n} keywords", s.et.len());
    }
    // Every line is well-formed: unused blocks are empty, tokens and seeds differ.
    let s = env.snap();
    let all = must(fmt::read_all(&s.et, &s.ct, &kls[0].key), "independent reading")?;
    let seeds: BTreeSet<[u8; 16]> = all.iter().map(|x| x.1.ent.seed).collect();
    ck!(seeds.len() == all.len(), "{} seeds for {} keywords", seeds.len(), all.len());
    cx.nontrivial(hash_bytes(0, cx.note.as_bytes()));
    let note = cx.note.clone();
    cx.sample(|| note);
    Ok(())
}
/// One value of each length, written by one side and read by the other.
fn f19_lengths(cx: &mut Cx) -> Res {
    let r = &mut cx.r.fork();
    let n = (cx.idx % 130) as usize;
    let kl = Kl::random(r);
    for add_by_lib in [true, false] {
        for kind in 0..2 {
            let env = Env::new(Mode::Seq, Log::Off, false);
            let fx = env.fx();
            let k = gen::byte_string(r);
            let mk = |b: By| if kind == 0 { Val::D(b) } else { Val::P(b) };
            let (x, y) = (mk(gen::content(r, n)), mk(gen::content(r, n + 1)));
            let mut m = Model::default();
            let turns = [(true, vec![x.clone(), y.clone()], add_by_lib), (false, vec![x.clone()], !add_by_lib), (true, vec![x.clone()], add_by_lib), (false, vec![y.clone()], add_by_lib)];
            for (i, (add, vs, by_lib)) in turns.into_iter().enumerate() {
                let a: Assoc = vs.into_iter().map(|v| (v, vec![k.clone()])).collect();
                if by_lib {
                    ok(&env.w, "modification", modify(&fx, &kl, add, &a))?;
                } else {
                    write(r, &env, &kl, add, &a)?;
                }
                m.apply(add, &a);
                let when = format!("after turn {i} with values of {n} bytes");
                check_decode(cx, &env.snap(), &kl, &m, &[k.clone()], &when)?;
                let got = direct(&env, &kl, &[k.clone()])?;
                if let Some(d) = same(&got, &m, &[k.clone()]) {
                    viol!("{when}: {d}");
                }
            }
        }
    }
    cx.nontrivial(mix(cx.idx));
    Ok(())
}
fn f19_shipped(cx: &mut Cx) -> Res {
    let r = &mut cx.r.fork();
    let (et, ct, mut kl, _) = shipped().map_err(Fail::Incon)?;
    let env = Env::new(Mode::Seq, Log::Off, true);
    env.restore(&Snap { et, ct });
    // Keywords: first names and their prefixes.
    let names = std::fs::read_to_string("/repo/datasets/first_names.txt").map_err(|e| Fail::Incon(e.to_string()))?;
    let mut cand: BTreeSet<By> = BTreeSet::new();
    for n in names.lines() {
        for i in 0..=n.len() {
            cand.insert(n.as_bytes()[..i].to_vec());
        }
    }
    let s = env.snap();
    let k = fmt::et_key(&kl.key);
    let mut m = Model::default();
    for c in &cand {
        if s.et.contains_key(&fmt::et_token(&k, &fmt::tag_hash(c), &kl.label)) {
            let v = decode(&s, &kl, &[c.clone()])?;
            if let Some(Some(v)) = v.get(c) {
                m.kw.insert(c.clone(), v.clone());
            }
        }
    }
    ck!(m.kw.len() == s.et.len(), "{} keywords of the shipped index are known, it holds {} entries", m.kw.len(), s.et.len());
    trace_lines(&s, &kl)?;
    let fx = env.fx();
    let ks: Vec<By> = m.kw.keys().cloned().collect();
    let got = direct(&env, &kl, &ks)?;
    if let Some(d) = same(&got, &m, &ks) {
        viol!("shipped index: {d}");
    }
    // Each keyword on its own, recursively.
    for k in &ks {
        check_search(cx, &env, &fx, &kl, &m, &[k.clone()], "of the shipped index")?;
    }
    let vector = std::fs::read_to_string("/repo/datasets/test_vector.txt").map_err(|e| Fail::Incon(e.to_string()))?;
    let want: BTreeSet<By> = vector.lines().map(|l| l.as_bytes().to_vec()).collect();
    ck!(m.reach(b"Abd") == want, "the shipped test vector is not what the shipped index holds");
    // It stays usable.
    for i in 0..3 {
        let q: Vec<By> = r.subset(&ks, 50);
        let a: Assoc = q.iter().map(|k| (Val::D([k.as_slice(), b"_new"].concat()), vec![k.clone()])).collect();
        ok(&env.w, "addition to the shipped index", modify(&fx, &kl, true, &a))?;
        m.apply(true, &a);
        let d: Assoc = r.subset(&ks, 50).into_iter().filter_map(|k| m.kw[&k].first().cloned().map(|v| (v, vec![k]))).collect();
        ok(&env.w, "deletion in the shipped index", modify(&fx, &kl, false, &d))?;
        m.apply(false, &d);
        let nkl = new_kl(r, &kl);
        ok(&env.w, "compaction of the shipped index", compact(&fx, &kl, &nkl, *r.pick(&[0.3, 1.0])))?;
        kl = nkl;
        check_decode(cx, &env.snap(), &kl, &m, &ks, &format!("after round {i} on the shipped index"))?;
        let got = direct(&env, &kl, &ks)?;
        if let Some(d) = same(&got, &m, &ks) {
            viol!("after round {i} on the shipped index: {d}");
        }
    }
    cx.count("keywords of the shipped index", ks.len() as u64);
    cx.nontrivial(mix(cx.idx));
    cx.sample(|| format!("{} keywords of the shipped index", ks.len()));
    Ok(())
}

// ---------------------------------------------------------------------------

static F22: Prop = Prop {
    id: "F22",
    level: "exploration",
    rule: "random and structured values and byte strings (all lengths around the expected ones, neighbours differing in one bit \
           or by a zero byte) through every public conversion: decode(encode(x)) = x, encodings equal only for equal values, \
           decode(b) fails or re-encodes to b and never panics, collections keep every element; the byte form of encrypted \
           values is nonce, ciphertext, tag. Identity: bytes converted.",
    parts: &[
        Part { name: "tokens", f: f22_token, quick: 100_000, thorough: 1_000_000, ..P },
        Part { name: "encrypted", f: f22_enc, quick: 100_000, thorough: 1_000_000, ..P },
        Part { name: "indexed", f: f22_iv, quick: 200_000, thorough: 2_000_000, ..P },
        Part { name: "first-bytes", f: f22_first, quick: 256 * 40, thorough: 256 * 40, ..P },
        Part { name: "strings", f: f22_str, quick: 60_000, thorough: 600_000, ..P },
        Part { name: "sets", f: f22_sets, quick: 30_000, thorough: 300_000, ..P },
    ],
    assumptions: &["an encoded indexed value is the kind byte followed by the content"],
};

/// `f` must not panic.
fn calm<T>(what: &str, f: impl FnOnce() -> T) -> Res<T> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        let (l, m) = last_panic().unwrap_or_default();
        Fail::Viol(format!("{what} panics at {l}: {m}"))
    })
}
fn lens(r: &mut R, l: usize) -> usize {
    match r.below(4) {
        0 => l,
        1 => (l + 2).saturating_sub(r.below(5)),
        2 => r.below(2 * l + 40),
        _ => *r.pick(&[0, 1, l, l / 2, 2 * l, l + 16, 1000]),
    }
}
fn f22_token(cx: &mut Cx) -> Res {
    let r = &mut cx.r.fork();
    let n = lens(r, 32);
    let b = gen::content(r, n);
    let t = calm("decoding a token", || Token::try_from(b.as_slice()))?;
    match t {
        Err(_) => ck!(n != 32, "32 bytes are refused as a token"),
        Ok(t) => {
            ck!(n == 32, "{n} bytes are accepted as a token");
            ck!(t.to_vec() == b && <[u8; 32]>::from(t).to_vec() == b, "a token made of {} gives back {}", show(&b), show(&t));
        }
    }
    let mut a = [0; 32];
    a.copy_from_slice(&gen::content(r, 32));
    let x = Token::from(a);
    let mut a2 = a;
    a2[r.below(32)] ^= 1 << r.below(8);
    let y = Token::from(a2);
    ck!(<[u8; 32]>::from(x) == a && x[..] == a, "a token does not give its bytes back");
    ck!(x != y && x == Token::from(a), "comparison of tokens");
    calm("showing", || format!("{x} {x:?}"))?;
    ck!(HashSet::from([x, y]).len() == 2, "two tokens in a set");
    ck!(Token::LENGTH == 32, "token length");
    cx.count(if n == 32 { "token bytes accepted" } else { "token bytes refused" }, 1);
    cx.nontrivial(hash_bytes(n as u64, &b));
    Ok(())
}
fn enc<const L: usize>(cx: &mut Cx, r: &mut R) -> Res<u64> {
    let size = L + 28;
    ck!(EncryptedValue::<L>::LENGTH == size, "announced length of an encrypted value");
    let n = lens(r, size);
    let b = gen::content(r, n);
    match calm("decoding an encrypted value", || EncryptedValue::<L>::try_from(b.as_slice()))? {
        Err(_) => ck!(n != size, "{size} bytes are refused as an encrypted value of {L} bytes"),
        Ok(v) => {
            ck!(n == size, "{n} bytes are accepted as an encrypted value of {L} bytes");
            let back = Vec::<u8>::from(&v);
            ck!(back == b, "an encrypted value decoded from {} is encoded as {}", show(&b), show(&back));
            ck!(raw(&v) == b, "the parts of an encrypted value are not its nonce, ciphertext and tag in this order");
        }
    }
    let b = r.bytes(size);
    let v: EncryptedValue<L> = unraw(&b);
    let w = Vec::<u8>::from(&v);
    ck!(w == b, "an encrypted value is not encoded as nonce, ciphertext, tag: {} instead of {}", show(&w), show(&b));
    let v2 = must(EncryptedValue::<L>::try_from(w.as_slice()).map_err(|e| e.to_string()), "decoding an encoded value")?;
    ck!(v2 == v, "an encrypted value changes when encoded and decoded");
    let mut b2 = b.clone();
    b2[r.below(size)] ^= 1 << r.below(8);
    let o: EncryptedValue<L> = unraw(&b2);
    ck!(Vec::<u8>::from(&o) != w && o != v, "two encrypted values have one encoding");
    calm("showing", || format!("{v} {o:?}"))?;
    // Through encryption.
    let mut kb = [0; 32];
    kb.copy_from_slice(&r.bytes(32));
    let key = must(SymmetricKey::<32>::try_from_bytes(kb).map_err(|e| e.to_string()), "key")?;
    let mut pt = [0; L];
    pt.copy_from_slice(&gen::content(r, L));
    let mut rng = CsRng::from_seed(kb);
    let e1 = must(EncryptedValue::<L>::encrypt(&mut rng, &key, pt).map_err(|e| e.to_string()), "encryption")?;
    let e2 = must(EncryptedValue::<L>::try_from(Vec::<u8>::from(&e1).as_slice()).map_err(|e| e.to_string()), "decoding")?;
    let d = must(e2.decrypt(&key).map_err(|e| e.to_string()), "decryption of a value encoded and decoded")?;
    ck!(d == pt, "a value encrypted, encoded, decoded and decrypted changes");
    ck!(fmt::open(&kb, &raw(&e1)).as_deref() == Some(&pt[..]), "an encrypted value is not AES-256-GCM with its nonce and tag");
    cx.count(if n == size { "value bytes accepted" } else { "value bytes refused" }, 1);
    Ok(hash_bytes(L as u64, &b))
}
fn f22_enc(cx: &mut Cx) -> Res {
    let r = &mut cx.r.fork();
    let h = match cx.idx % 5 {
        0 => enc::<80>(cx, r)?,
        1 => enc::<86>(cx, r)?,
        2 => enc::<0>(cx, r)?,
        3 => enc::<1>(cx, r)?,
        _ => enc::<200>(cx, r)?,
    };
    cx.nontrivial(h);
    Ok(())
}
type Iv = IndexedValue<Keyword, Data>;
fn decode_iv(cx: &mut Cx, b: &[u8]) -> Res {
    match calm(&format!("decoding the indexed value {}", show(b)), || Iv::try_from(b))? {
        Err(_) => {
            ck!(Val::from_iv(b).is_none(), "the encoded indexed value {} is refused", show(b));
            cx.count("indexed values refused", 1);
        }
        Ok(v) => {
            let back = Vec::<u8>::from(&v);
            ck!(back == b, "{} is decoded as an indexed value encoded as {}", show(b), show(&back));
            ck!(Val::from_iv(b) == Some(Val::of(&v)), "{} is decoded as {}", show(b), show_val(&Val::of(&v)));
            cx.count("indexed values accepted", 1);
        }
    }
    Ok(())
}
fn f22_iv(cx: &mut Cx) -> Res {
    let r = &mut cx.r.fork();
    let mk = |r: &mut R| {
        let b = gen::byte_string(r);
        if r.chance(1, 2) { Val::P(b) } else { Val::D(b) }
    };
    let a = mk(r);
    let b = match r.below(4) {
        0 => match &a {
            Val::P(x) => Val::D(x.clone()),
            Val::D(x) => Val::P(x.clone()),
        },
        1 => match &a {
            Val::P(x) => Val::P(gen::near(r, &[x.clone()])),
            Val::D(x) => Val::D(gen::near(r, &[x.clone()])),
        },
        _ => mk(r),
    };
    for v in [&a, &b] {
        let i = v.to();
        let e = Vec::<u8>::from(&i);
        ck!(e == v.iv(), "{} is encoded as {}", show_val(v), show(&e));
        let d = must(calm("decoding", || Iv::try_from(e.as_slice()))?.map_err(|e| e.to_string()), format!("decoding the encoding of {}", show_val(v)))?;
        ck!(d == i, "{} is encoded then decoded as {}", show_val(v), show_val(&Val::of(&d)));
        let (data, ptr) = (i.get_data().map(|x| x.to_vec()), i.get_pointer().map(|x| x.to_vec()));
        let want = match v {
            Val::P(x) => (None, Some(x.clone())),
            Val::D(x) => (Some(x.clone()), None),
        };
        ck!((data, ptr.clone()) == want && i.is_pointer() == ptr.is_some(), "accessors of {}", show_val(v));
    }
    ck!((Vec::<u8>::from(&a.to()) == Vec::<u8>::from(&b.to())) == (a == b), "{} and {} have one encoding", show_val(&a), show_val(&b));
    ck!((a.to() == b.to()) == (a == b), "comparison of {} and {}", show_val(&a), show_val(&b));
    let mut x = if r.chance(1, 2) { a.iv() } else { gen::byte_string(r) };
    if r.chance(1, 2) && !x.is_empty() {
        let i = r.below(x.len().min(3));
        x[i] ^= 1 << r.below(8);
    }
    decode_iv(cx, &x)?;
    cx.nontrivial(hash_bytes(1, format!("{a:?}{b:?}{x:?}").as_bytes()));
    Ok(())
}
/// Every first byte, every length from 0.
fn f22_first(cx: &mut Cx) -> Res {
    let r = &mut cx.r.fork();
    let n = (cx.idx / 256) as usize;
    let mut b = gen::content(r, n);
    if let Some(x) = b.first_mut() {
        *x = cx.idx as u8;
    }
    decode_iv(cx, &b)?;
    cx.nontrivial(mix(cx.idx));
    Ok(())
}
macro_rules! string {
    ($t:ty, $b:expr, $o:expr, $name:literal) => {{
        let (b, o): (&[u8], &[u8]) = ($b, $o);
        let all = [<$t>::from(b), <$t>::from(b.to_vec())];
        for x in &all {
            ck!(&x[..] == b && x.as_ref() == b && Vec::<u8>::from(x.clone()) == b, "a {} made of {} holds {}", $name, show(b), show(x));
            ck!(*x == all[0], "two ways to make a {} of {} differ", $name, show(b));
            ck!((*x == <$t>::from(o)) == (b == o), "{} {} compared with {}", $name, show(b), show(o));
            calm("showing", || format!("{x} {x:?}"))?;
        }
        if let Ok(s) = std::str::from_utf8(b) {
            ck!(<$t>::from(s) == all[0], "a {} made of the text {s:?} differs from the one made of its bytes", $name);
        }
        let mut y = all[0].clone();
        if !o.is_empty() && !b.is_empty() {
            y[0] = o[0];
            let mut w = b.to_vec();
            w[0] = o[0];
            ck!(&y[..] == w.as_slice(), "writing through a {}", $name);
        }
    }};
}
fn f22_str(cx: &mut Cx) -> Res {
    let r = &mut cx.r.fork();
    let b = if r.chance(1, 3) {
        (0..r.below(30)).map(|_| *r.pick(&['a', 'é', '日', '\u{0}', '🦀', '\u{202e}', ' ', '\n'])).collect::<String>().into_bytes()
    } else {
        gen::byte_string(r)
    };
    let o = if r.chance(1, 2) { gen::near(r, &[b.clone()]) } else { gen::byte_string(r) };
    string!(Keyword, &b, &o, "keyword");
    string!(Data, &b, &o, "data");
    string!(Label, &b, &o, "label");
    ck!(HashSet::from([Keyword::from(b.clone()), Keyword::from(o.clone())]).len() == if b == o { 1 } else { 2 }, "keywords in a set");
    let mut rng = CsRng::from_seed([r.u64() as u8; 32]);
    let (l1, l2) = (Label::random(&mut rng), Label::random(&mut rng));
    ck!(l1 != l2 && l1.len() == 32, "random labels");
    cx.nontrivial(hash_bytes(2, &b));
    Ok(())
}
fn f22_sets(cx: &mut Cx) -> Res {
    let r = &mut cx.r.fork();
    let (nk, nd) = (r.range(1, 8), r.range(1, 8));
    let u = gen::universe(r, nk, nd);
    let kws: HashSet<Keyword> = u.kw.iter().map(|k| Keyword::from(k.clone())).collect();
    ck!(kws.len() == u.kw.len(), "{} keywords make a set of {}", u.kw.len(), kws.len());
    let a = Keywords::from(kws.clone());
    let b = Keywords::from_iter(kws.clone());
    ck!(a == b && a.len() == kws.len(), "two ways to make keywords");
    ck!(HashSet::<Keyword>::from(a.clone()) == kws && a.clone().into_iter().collect::<HashSet<_>>() == kws && *a == kws, "keywords do not give back their elements");
    // Lists repeating elements.
    let rep: Vec<Keyword> = kws.iter().chain(kws.iter()).cloned().collect();
    ck!(Keywords::from_iter(rep) == a, "repeated keywords");
    let texts = ["", "a", "é", "a", "b\0"];
    ck!(*Keywords::from_iter(texts) == texts.iter().map(|t| Keyword::from(*t)).collect::<HashSet<_>>(), "keywords made of texts");
    let mut c = Keywords::default();
    for k in &kws {
        c.insert(k.clone());
    }
    ck!(c == a, "keywords inserted one by one");
    calm("showing", || format!("{a} {a:?}"))?;
    // Results.
    let m: HashMap<Keyword, HashSet<Data>> = kws.iter().map(|k| (k.clone(), r.subset(&u.data, 4).into_iter().map(Data::from).collect())).collect();
    let x = KeywordToDataMap::from(m.clone());
    let y = KeywordToDataMap::from_iter(m.clone());
    ck!(x == y && *x == m && HashMap::from(x.clone()) == m && x.clone().into_iter().collect::<HashMap<_, _>>() == m, "results do not give back their elements");
    calm("showing", || format!("{x} {x:?}"))?;
    // Modifications.
    let as_ = gen::assoc(r, &u, 6, 4, 30);
    let m: HashMap<IndexedValue<Keyword, Data>, HashSet<Keyword>> = as_.iter().map(|(v, ks)| (v.to(), ks.iter().map(|k| Keyword::from(k.clone())).collect())).collect();
    let mk: HashMap<IndexedValue<Keyword, Data>, Keywords> = m.iter().map(|(v, k)| (v.clone(), Keywords::from(k.clone()))).collect();
    ck!(m.len() == as_.len(), "{} indexed values make a map of {}", as_.len(), m.len());
    let all = [
        IndexedValueToKeywordsMap::from(m.clone()),
        IndexedValueToKeywordsMap::from(mk.clone()),
        IndexedValueToKeywordsMap::from_iter(m.clone()),
        IndexedValueToKeywordsMap::from_iter(mk.clone()),
    ];
    for x in &all {
        ck!(**x == mk && x.clone().into_iter().collect::<HashMap<_, _>>() == mk, "a modification does not give back its elements");
        calm("showing", || format!("{x} {x:?}"))?;
    }
    if let Some((v, k)) = mk.iter().next() {
        ck!(IndexedValueToKeywordsMap::from([(v.clone(), k.clone())]).len() == 1, "a modification made of an array");
    }
    // Store arguments.
    let ts: BTreeMap<[u8; 32], By> = (0..r.below(8)).map(|_| (<[u8; 32]>::try_from(r.bytes(32)).unwrap_or([0; 32]), r.bytes(29))).collect();
    let hs: HashSet<Token> = ts.keys().map(|t| Token::from(*t)).collect();
    let t = Tokens::from(hs.clone());
    ck!(t == Tokens::from_iter(hs.clone()) && *t == hs && HashSet::from(t.clone()) == hs && t.clone().into_iter().collect::<HashSet<_>>() == hs, "tokens do not give back their elements");
    let vm: HashMap<Token, EncryptedValue<1>> = ts.iter().map(|(t, v)| (Token::from(*t), unraw(v))).collect();
    let x = TokenToEncryptedValueMap::from(vm.clone());
    ck!(x == TokenToEncryptedValueMap::from_iter(vm.clone()) && *x == vm && HashMap::from(x.clone()) == vm && x.clone().into_iter().collect::<HashMap<_, _>>() == vm, "a map of values does not give back its elements");
    let vl: Vec<(Token, EncryptedValue<1>)> = vm.clone().into_iter().chain(vm.clone()).collect();
    let x = TokenWithEncryptedValueList::from(vl.clone());
    ck!(x[..] == vl[..], "a list of values does not hold its elements in order");
    ck!(TokenWithEncryptedValueList::from_iter(vl.clone())[..] == vl[..], "a list of values does not hold its elements in order");
    calm("showing", || format!("{x} {x:?} {t}"))?;
    ck!(Vec::from(TokenWithEncryptedValueList::from(vl.clone())) == vl && x.into_iter().collect::<Vec<_>>() == vl, "a list of values does not give back its elements");
    cx.count("collections", 9);
    cx.nontrivial(hash_bytes(3, format!("{u:?}{as_:?}").as_bytes()));
    Ok(())
}
