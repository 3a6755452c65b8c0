//! F31: the encrypted dictionaries used directly, and the index over another dictionary.
use std::{
    collections::{BTreeMap, BTreeSet, HashMap, HashSet},
    sync::{Arc, Mutex},
};

use async_trait::async_trait;
use cosmian_crypto_core::{
    reexport::rand_core::{CryptoRngCore, SeedableRng},
    CsRng,
};
use cosmian_findex::{
    ChainTable, Data, DxEnc, EncryptedValue, EntryTable, Error, Findex, Index, IndexedValue, Keyword, Keywords, Label,
    Token, ENTRY_LENGTH, LINK_LENGTH,
};
use zeroize::ZeroizeOnDrop;

use super::seqp::new_kl;
use crate::{
    ck, fmt, gen,
    ix::*,
    mondb::{raw, tok, Fault, Log, Mode, MonDb, MonErr, Table, Tb, World, FK},
    rng::{hash_bytes, mix, R},
    run::{must, seq, Cx, Prop, Res, Part, P},
    viol,
};

pub static PROPS: [&Prop; 1] = [&F31];

static F31: Prop = Prop {
    id: "F31",
    level: "exploration",
    rule: "dictionary: random histories of all the calls of both dictionaries, used directly through their public interface with \
           eight value lengths, tags and labels of any length (and none), several seeds, objects and store failures; tokens, \
           values and store contents are compared with an independent implementation and a model. other: the index is run over a \
           Chain Table written by the harness (own seeds, keys, tokens, cipher and value type), which checks how it is used, in \
           histories with compactions and failures of each of its calls. Identity: history.",
    parts: &[
        Part { name: "dictionary", f: dictionary, quick: 40_000, thorough: 600_000, ..P },
        Part { name: "other", f: other, quick: 40_000, thorough: 500_000, ..P },
        Part { name: "big-other", f: other, quick: 100, thorough: 1_000, big: 2_000, ..P },
    ],
    assumptions: &["cryptographic primitives of tiny-keccak and aes-gcm"],
};

fn dictionary(cx: &mut Cx) -> Res {
    macro_rules! go {
        ($($i:literal $l:literal),*) => {
            match (cx.idx / 2 % 8, cx.idx % 2) {
                $(($i, 0) => dict::<$l, EntryTable<$l, MonDb<$l>>>(cx, true),
                  ($i, _) => dict::<$l, ChainTable<$l, MonDb<$l>>>(cx, false),)*
                _ => unreachable!("eight lengths"),
            }
        };
    }
    go!(0 1, 1 15, 2 16, 3 32, 4 80, 5 86, 6 300, 7 4096)
}

struct User<K> {
    key: K,
    own: fmt::EK,
}

fn dict<const L: usize, E>(cx: &mut Cx, et: bool) -> Res
where
    E: DxEnc<L, EncryptedValue = EncryptedValue<L>, Error = Error<MonErr>, Database = MonDb<L>>,
{
    let r = &mut cx.r.fork();
    let mut rng = CsRng::seed_from_u64(r.u64());
    let w = World::new(Mode::Seq, Log::Off);
    let t = Arc::new(if r.chance(1, 2) { Table::<L>::mem() } else { Table::<L>::own() });
    let tb = if et { Tb::E } else { Tb::C };
    let dx: Vec<E> = (0..2).map(|_| E::setup(MonDb { tb, w: w.clone(), t: t.clone() })).collect();
    let mut seeds: Vec<By> = vec![];
    for i in 0..r.range(1, 3) {
        seeds.push(match r.below(3) {
            0 if i > 0 => {
                let mut s = seeds[0].clone();
                s[r.below(16)] ^= 1 << r.below(8);
                s
            }
            1 => dx[0].gen_seed(&mut rng).as_ref().to_vec(),
            _ => r.bytes(16),
        });
        ck!(seeds[i].len() == 16, "a seed of {} bytes", seeds[i].len());
    }
    let users: Vec<User<E::Key>> = seeds
        .iter()
        .map(|s| {
            let mut x = E::Seed::default();
            x.as_mut().copy_from_slice(s);
            let d = r.pick(&dx);
            User { key: d.derive_keys(&x), own: if et { fmt::et_key(s) } else { fmt::ct_key(s) } }
        })
        .collect();
    let tags: Vec<By> = (0..r.range(1, 6))
        .map(|i| if i == 0 { r.bytes(32) } else { gen::byte_string(r) })
        .collect();
    let labels: Vec<Option<By>> = vec![None, Some(vec![]), Some(r.bytes(1)), Some(gen::byte_string(r))];
    // Token => user and clear value.
    let mut m: BTreeMap<[u8; 32], (usize, By)> = BTreeMap::new();
    let mut seen: HashSet<By> = HashSet::new();
    let mut h = mix(L as u64);
    let n = r.range(3, 25);
    for _ in 0..n {
        let d = &dx[r.below(2)];
        // Some tokens, derived again each time.
        let mut who: BTreeMap<[u8; 32], usize> = BTreeMap::new();
        for _ in 0..r.range(0, 4) {
            let u = r.below(users.len());
            let (tag, label) = (r.pick(&tags).clone(), r.pick(&labels).clone());
            let l = label.as_ref().map(|l| Label::from(l.clone()));
            let got = tok(&d.tokenize(&users[u].key, &tag, l.as_ref()));
            let l = label.unwrap_or_default();
            let want = fmt::kmac(&users[u].own.tok, &[&tag, if et { &l } else { fmt::CT_INFO }]);
            ck!(got == want, "another token than documented for tag {} and label {}", show(&tag), show(&l));
            who.insert(got, u);
            cx.count("tokens derived", 1);
        }
        let all: HashSet<Token> = who.keys().map(|t| Token::from(*t)).collect();
        let before = t.snap();
        let op = r.below(8);
        h = mix(h ^ op as u64 ^ ((who.len() as u64) << 8));
        let mut news: HashMap<Token, EncryptedValue<L>> = HashMap::new();
        let mut clear: BTreeMap<[u8; 32], (usize, By)> = BTreeMap::new();
        if matches!(op, 0..=3) {
            for (k, u) in &who {
                let x = gen_value::<L>(r);
                let (a, b) = (must(d.prepare(&mut rng, &users[*u].key, x).map_err(|e| e.to_string()), "prepare")?, must(d.prepare(&mut rng, &users[*u].key, x).map_err(|e| e.to_string()), "prepare")?);
                ck!(a.nonce.0 != b.nonce.0, "one value is encrypted twice under the same nonce");
                ck!(L < 15 || a.ciphertext != b.ciphertext, "one value is encrypted twice to the same bytes");
                for v in [&a, &b] {
                    ck!(seen.insert(v.nonce.0.to_vec()), "a nonce comes back");
                    let o = fmt::open(&users[*u].own.dem, &raw(v));
                    ck!(o.as_deref() == Some(&x[..]), "the encrypted value is not the documented one");
                    let back = must(d.resolve(&users[*u].key, v).map_err(|e| e.to_string()), "resolve")?;
                    ck!(back == x, "another value is decrypted than the one encrypted");
                }
                news.insert(Token::from(*k), a);
                clear.insert(*k, (*u, x.to_vec()));
                cx.count("values encrypted", 2);
            }
        }
        let fault = r.chance(1, 8);
        if fault {
            w.reset_calls(0);
            w.set_fault(0, Fault { from: 0, to: 0, kind: FK::ErrBefore });
            h = mix(h ^ 77);
        }
        let failed = |e: Option<&Error<MonErr>>, what: &str| -> Res {
            w.clear_faults();
            match e {
                Some(Error::DbInterface(MonErr(m))) if m.contains("injected backend fault") => {}
                _ => viol!("the store failed a call of {what}, the answer is {e:?}"),
            }
            ck!(t.snap() == before, "a failed {what} changed the store");
            Ok(())
        };
        match op {
            0 | 1 => {
                let used = who.keys().any(|k| m.contains_key(k));
                let res = seq(&w, d.insert(news))?;
                if fault {
                    failed(res.as_ref().err(), "insert")?;
                    continue;
                }
                match (used, res) {
                    (false, Ok(())) => m.extend(clear),
                    (true, Err(_)) => ck!(t.snap() == before, "a refused insertion changed the store"),
                    (true, Ok(())) => viol!("an insertion over used tokens is accepted"),
                    (_, Err(e)) => viol!("inserting {} new tokens fails: {e}", who.len()),
                }
                cx.count("insertions", 1);
            }
            2 | 3 if et => {
                // Old values: those stored, or others.
                let mut olds = HashMap::new();
                let mut fresh = BTreeSet::new();
                for k in who.keys() {
                    let cur = t.with(|t| t.get(&Token::from(*k)).cloned());
                    match (cur, r.below(4)) {
                        (Some(c), 0) => {
                            let mut c = c;
                            c.tag[r.below(16)] ^= 1;
                            olds.insert(Token::from(*k), c);
                        }
                        (Some(_), 1) => {}
                        (Some(c), _) => {
                            olds.insert(Token::from(*k), c);
                            fresh.insert(*k);
                        }
                        (None, _) => {
                            fresh.insert(*k);
                        }
                    }
                }
                let res = seq(&w, d.upsert(olds, news))?;
                if fault {
                    failed(res.as_ref().err(), "upsert")?;
                    continue;
                }
                let res = must(res.map_err(|e| e.to_string()), "upsert")?;
                let got: BTreeSet<[u8; 32]> = res.keys().map(tok).collect();
                let want: BTreeSet<[u8; 32]> = who.keys().filter(|k| !fresh.contains(*k)).copied().collect();
                ck!(got == want, "an upsert rejects {} values instead of {}", got.len(), want.len());
                for (k, v) in &res {
                    ck!(before.get(&tok(k)) == Some(&raw(v)), "a rejected upsert is given another value than the stored one");
                }
                m.extend(clear.into_iter().filter(|(k, _)| fresh.contains(k)));
                cx.count("upserts", 1);
            }
            4 => {
                let res = seq(&w, d.delete(all))?;
                if fault {
                    failed(res.as_ref().err(), "delete")?;
                    continue;
                }
                must(res.map_err(|e| e.to_string()), "delete")?;
                m.retain(|k, _| !who.contains_key(k));
                cx.count("deletions", 1);
            }
            _ => {
                let res = seq(&w, d.get(all))?;
                if fault {
                    failed(res.as_ref().err(), "get")?;
                    continue;
                }
                let res = must(res.map_err(|e| e.to_string()), "get")?;
                let got: Vec<[u8; 32]> = res.iter().map(|(k, _)| tok(k)).collect();
                let set: BTreeSet<[u8; 32]> = got.iter().copied().collect();
                ck!(set.len() == got.len(), "get gives a token twice");
                let want: BTreeSet<[u8; 32]> = who.keys().filter(|k| m.contains_key(*k)).copied().collect();
                ck!(set == want, "get gives {} values, {} are stored", set.len(), want.len());
                for (k, v) in &res {
                    read(cx, r, d, &users, &seeds, &m[&tok(k)], v)?;
                }
                cx.count("readings", 1);
            }
        }
        w.clear_faults();
        // The store holds exactly the model.
        let s = t.snap();
        ck!(s.keys().eq(m.keys()), "the store holds {} tokens instead of {}", s.len(), m.len());
        for (k, (u, x)) in &m {
            ck!(fmt::open(&users[*u].own.dem, &s[k]).as_ref() == Some(x), "the store holds another value than the last one written");
        }
    }
    cx.max("values in the store", m.len() as u64);
    if n > 4 {
        cx.nontrivial(h ^ hash_bytes(3, &seeds.concat()));
    }
    Ok(())
}
fn gen_value<const L: usize>(r: &mut R) -> [u8; L] {
    let mut x = [0; L];
    x.copy_from_slice(&gen::content(r, L));
    x
}
/// One stored value, under the right key, under others, and altered.
fn read<const L: usize, E>(cx: &mut Cx, r: &mut R, d: &E, users: &[User<E::Key>], seeds: &[By], (u, x): &(usize, By), v: &EncryptedValue<L>) -> Res
where
    E: DxEnc<L, EncryptedValue = EncryptedValue<L>, Error = Error<MonErr>, Database = MonDb<L>>,
{
    match d.resolve(&users[*u].key, v) {
        Ok(y) => ck!(y[..] == x[..], "a stored value is decrypted to another one"),
        Err(e) => viol!("a stored value cannot be decrypted: {e}"),
    }
    for (i, o) in users.iter().enumerate() {
        if seeds[i] != seeds[*u] {
            ck!(d.resolve(&o.key, v).is_err(), "a stored value is decrypted under another key");
        }
    }
    let mut a = v.clone();
    match r.below(3) {
        0 => a.tag[r.below(16)] ^= 1 << r.below(8),
        1 => a.nonce.0[r.below(12)] ^= 1 << r.below(8),
        _ => a.ciphertext[r.below(L)] ^= 1 << r.below(8),
    }
    ck!(d.resolve(&users[*u].key, &a).is_err(), "an altered value is decrypted");
    cx.count("values read", 1);
    cx.count("altered values refused", 1);
    Ok(())
}

// ---------------------------------------------------------------------------
// The index over another Chain Table.

const SEED: usize = 16;
struct OwnSeed([u8; SEED]);
impl AsRef<[u8]> for OwnSeed {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl AsMut<[u8]> for OwnSeed {
    fn as_mut(&mut self) -> &mut [u8] {
        &mut self.0
    }
}
impl Default for OwnSeed {
    fn default() -> Self {
        Self([0xA5; SEED])
    }
}
impl ZeroizeOnDrop for OwnSeed {}
struct OwnKey(u64);
impl ZeroizeOnDrop for OwnKey {}
#[derive(Debug, Clone, PartialEq)]
enum OwnValue {
    Boxed(u64, Box<[u8]>),
    Listed(u64, Vec<u8>),
}
impl OwnValue {
    fn id(&self) -> u64 {
        match self {
            Self::Boxed(i, _) | Self::Listed(i, _) => *i,
        }
    }
}

#[derive(Default)]
struct St {
    table: HashMap<Token, OwnValue>,
    seeds: HashSet<[u8; SEED]>,
    /// Key of each token derived and of each value encrypted.
    derived: HashMap<Token, u64>,
    prepared: HashMap<u64, u64>,
    misuse: Option<String>,
    calls: u64,
    fail_at: Option<u64>,
    fired: Option<&'static str>,
    last: u64,
    counts: BTreeMap<&'static str, u64>,
}
impl St {
    fn call(&mut self, what: &'static str) -> Result<(), Error<MonErr>> {
        self.calls += 1;
        *self.counts.entry(what).or_default() += 1;
        if self.fail_at == Some(self.calls) {
            self.fired = Some(what);
            let m = format!("own dictionary failed in {what}");
            return Err(match self.calls % 4 {
                0 => Error::Crypto(m),
                1 => Error::Conversion(m),
                _ => Error::DbInterface(MonErr(m)),
            });
        }
        Ok(())
    }
    fn wrong(&mut self, m: impl Into<String>) {
        self.misuse.get_or_insert(m.into());
    }
}
#[derive(Clone)]
struct Own(Arc<Mutex<St>>);
impl Own {
    fn st(&self) -> std::sync::MutexGuard<'_, St> {
        self.0.lock().unwrap_or_else(|e| e.into_inner())
    }
}
fn stream(key: u64, id: u64, b: &[u8]) -> Vec<u8> {
    b.iter().enumerate().map(|(i, x)| x ^ mix(key ^ mix(id ^ i as u64)) as u8).collect()
}

#[async_trait(?Send)]
impl DxEnc<LINK_LENGTH> for Own {
    type Seed = OwnSeed;
    type Key = OwnKey;
    type Error = Error<MonErr>;
    type EncryptedValue = OwnValue;
    type Database = MonDb<LINK_LENGTH>;

    fn setup(_: Self::Database) -> Self {
        Own(Arc::default())
    }
    fn gen_seed(&self, rng: &mut impl CryptoRngCore) -> OwnSeed {
        let mut s = [0; SEED];
        rng.fill_bytes(&mut s);
        let mut st = self.st();
        *st.counts.entry("seed").or_default() += 1;
        if !st.seeds.insert(s) {
            st.wrong("one seed is generated twice");
        }
        OwnSeed(s)
    }
    fn derive_keys(&self, seed: &OwnSeed) -> OwnKey {
        let mut st = self.st();
        if !st.seeds.contains(&seed.0) {
            st.wrong("a key is derived from a seed the dictionary never generated");
        }
        OwnKey(hash_bytes(11, &seed.0))
    }
    fn tokenize(&self, key: &OwnKey, bytes: &[u8], _: Option<&Label>) -> Token {
        let mut t = [0; 32];
        for (i, c) in t.chunks_mut(8).enumerate() {
            c.copy_from_slice(&hash_bytes(key.0 ^ mix(i as u64 + 1), bytes).to_be_bytes());
        }
        let t = Token::from(t);
        let mut st = self.st();
        if st.derived.insert(t, key.0).is_some_and(|k| k != key.0) {
            st.wrong("two keys share a token");
        }
        t
    }
    async fn get(&self, tokens: HashSet<Token>) -> Result<Vec<(Token, OwnValue)>, Self::Error> {
        let mut st = self.st();
        st.call("get")?;
        // From the last one to the first one, whatever the order of the request.
        let mut v: Vec<_> = tokens.into_iter().filter_map(|t| st.table.get(&t).map(|v| (t, v.clone()))).collect();
        v.sort_by_key(|(t, _)| std::cmp::Reverse(tok(t)));
        Ok(v)
    }
    fn resolve(&self, key: &OwnKey, v: &OwnValue) -> Result<[u8; LINK_LENGTH], Self::Error> {
        let mut st = self.st();
        st.call("resolve")?;
        let (id, b) = match v {
            OwnValue::Boxed(i, b) => (*i, &b[..]),
            OwnValue::Listed(i, b) => (*i, &b[..]),
        };
        if st.prepared.get(&id) != Some(&key.0) {
            st.wrong("a value is decrypted under another key than the one it was encrypted with");
            return Err(Error::Crypto("wrong key".into()));
        }
        let mut o = [0; LINK_LENGTH];
        o.copy_from_slice(&stream(key.0, id, b));
        Ok(o)
    }
    fn prepare(&self, _: &mut impl CryptoRngCore, key: &OwnKey, value: [u8; LINK_LENGTH]) -> Result<OwnValue, Self::Error> {
        let mut st = self.st();
        st.call("prepare")?;
        st.last += 1;
        let id = st.last;
        st.prepared.insert(id, key.0);
        let b = stream(key.0, id, &value);
        Ok(if id % 2 == 0 { OwnValue::Boxed(id, b.into()) } else { OwnValue::Listed(id, b) })
    }
    async fn upsert(&self, _: HashMap<Token, OwnValue>, _: HashMap<Token, OwnValue>) -> Result<HashMap<Token, OwnValue>, Self::Error> {
        self.st().wrong("upsert is called on the Chain Table");
        Ok(HashMap::new())
    }
    async fn insert(&self, items: HashMap<Token, OwnValue>) -> Result<(), Self::Error> {
        let mut st = self.st();
        st.call("insert")?;
        for (t, v) in &items {
            if st.table.contains_key(t) {
                return Err(Error::Crypto("used token".into()));
            }
            let (a, b) = (st.derived.get(t).copied(), st.prepared.get(&v.id()).copied());
            if a.is_none() {
                st.wrong("a value is inserted under a token that was never derived");
            }
            if a != b {
                st.wrong("a value is inserted under the token of another key");
            }
        }
        st.table.extend(items);
        Ok(())
    }
    async fn delete(&self, tokens: HashSet<Token>) -> Result<(), Self::Error> {
        let mut st = self.st();
        st.call("delete")?;
        for t in &tokens {
            st.table.remove(t);
        }
        Ok(())
    }
}

type OwnFx = Findex<MonErr, EntryTable<ENTRY_LENGTH, MonDb<ENTRY_LENGTH>>, Own>;

struct Ix {
    w: Arc<World>,
    et: Arc<Table<ENTRY_LENGTH>>,
    ct: Own,
}
impl Ix {
    fn fx(&self) -> OwnFx {
        Findex::new(EntryTable::setup(MonDb { tb: Tb::E, w: self.w.clone(), t: self.et.clone() }), self.ct.clone())
    }
    fn search(&self, fx: &OwnFx, kl: &Kl, ks: &[By]) -> Res<Result<Res2, String>> {
        let kws: Keywords = ks.iter().map(|k| Keyword::from(k.clone())).collect();
        let (k, l) = (kl.k(), kl.l());
        let cb = |_: HashMap<Keyword, HashSet<IndexedValue<Keyword, Data>>>| async { Ok(false) };
        let g = seq(&self.w, fx.search(&k, &l, kws, &cb))?;
        Ok(g.map(|g| g.iter().map(|(k, v)| (k.to_vec(), v.iter().map(|d| d.to_vec()).collect())).collect())
            .map_err(|e| e.to_string()))
    }
    fn modify(&self, fx: &OwnFx, kl: &Kl, add: bool, a: &Assoc) -> Res<Result<BTreeSet<By>, String>> {
        let (k, l) = (kl.k(), kl.l());
        let m = assoc_map(a);
        let g = if add { seq(&self.w, fx.add(&k, &l, m))? } else { seq(&self.w, fx.delete(&k, &l, m))? };
        Ok(g.map(|g| g.iter().map(|k| k.to_vec()).collect()).map_err(|e| e.to_string()))
    }
    fn compact(&self, fx: &OwnFx, old: &Kl, new: &Kl, rate: f64) -> Res<Result<(), String>> {
        let (ok, ol, nk, nl) = (old.k(), old.l(), new.k(), new.l());
        let all = |d: HashSet<Data>| async { Ok(d) };
        Ok(seq(&self.w, fx.compact(&ok, &nk, &ol, &nl, rate, &all))?.map_err(|e| e.to_string()))
    }
    fn misuse(&self, when: &str) -> Res {
        match &self.ct.st().misuse {
            Some(m) => viol!("{when}: {m}"),
            None => Ok(()),
        }
    }
    /// The next operation of the dictionary that fails, if any.
    fn arm(&self, n: Option<u64>) {
        let mut st = self.ct.st();
        st.calls = 0;
        st.fail_at = n;
        st.fired = None;
    }
    fn fired(&self) -> Option<&'static str> {
        let mut st = self.ct.st();
        st.fail_at = None;
        st.fired.take()
    }
    fn check(&self, cx: &mut Cx, fx: &OwnFx, kl: &Kl, m: &Model, ks: &[By], when: &str) -> Res {
        let got = must(self.search(fx, kl, ks)?, format!("search ({when})"))?;
        cx.count("searches compared", 1);
        cx.count("data returned", got.values().map(|v| v.len() as u64).sum());
        if let Some(d) = diff(&got, &m.expect(ks)) {
            viol!("search {when}: {d}");
        }
        Ok(())
    }
}

fn other(cx: &mut Cx) -> Res {
    let r = &mut cx.r.fork();
    let ix = Ix {
        w: World::new(Mode::Seq, Log::Off),
        et: Arc::new(if r.chance(1, 2) { Table::mem() } else { Table::own() }),
        ct: Own(Arc::default()),
    };
    let (nk, nd) = (r.range(1, 5), r.range(1, 6));
    let u = gen::universe(r, nk, nd);
    let mut kl = Kl::random(r);
    let mut m = Model::default();
    let mut fx = ix.fx();
    let ptr = *r.pick(&[0, 20, 50]);
    let mut h = 0;
    for i in 0..r.range(2, 10) {
        if r.chance(1, 3) {
            fx = ix.fx();
        }
        let mut ks = m.mentioned();
        ks.extend(u.kw.iter().cloned());
        let fail = r.chance(1, 4).then(|| r.range(1, 12) as u64);
        let what = if m.live() == 0 { 0 } else { r.below(8) };
        let when = format!("after step {i}");
        h = mix(h ^ what as u64 ^ ((fail.unwrap_or(0)) << 8));
        match what {
            0..=4 => {
                let add = m.live() == 0 || r.chance(2, 3);
                let a = gen::some(r, &u, 4, nk.min(4), ptr);
                cx.log(format!("step {i}: {} {} (call to fail: {fail:?})", if add { "add" } else { "delete" }, show_assoc(&a)));
                ix.arm(fail);
                let got = ix.modify(&fx, &kl, add, &a)?;
                if let Some(c) = ix.fired() {
                    match got {
                        Ok(_) => viol!("an update succeeds although the dictionary failed its {c}"),
                        Err(e) => ck!(e.contains("own dictionary failed"), "an update whose {c} failed answers {e}"),
                    }
                    // What is found lies between the contents before and after the update.
                    let mut after = m.clone();
                    after.apply(add, &a);
                    let (lo, hi) = if add { (&m, &after) } else { (&after, &m) };
                    let got = must(ix.search(&fx, &kl, &ks)?, format!("search {when}, an update having failed"))?;
                    for (k, d) in &got {
                        ck!(
                            lo.reach(k).is_subset(d) && d.is_subset(&hi.reach(k)),
                            "after a failed update keyword {} gives {{{}}}",
                            show(k),
                            show_set(d)
                        );
                    }
                    let new = must(ix.modify(&fx, &kl, add, &a)?, "the same update again")?;
                    let want = m.apply(add, &a);
                    ck!(new.is_subset(&want), "repeating a failed update reports keywords as new that were not");
                    cx.count("failures injected", 1);
                } else {
                    let new = must(got, "update")?;
                    let want = m.apply(add, &a);
                    ck!(new == want, "{} keywords are reported as new instead of {}", new.len(), want.len());
                }
            }
            5 => {
                cx.log(format!("step {i}: search (call to fail: {fail:?})"));
                ix.arm(fail);
                let got = ix.search(&fx, &kl, &ks)?;
                if let Some(c) = ix.fired() {
                    match got {
                        Ok(_) => viol!("a search succeeds although the dictionary failed its {c}"),
                        Err(e) => ck!(e.contains("own dictionary failed"), "a search whose {c} failed answers {e}"),
                    }
                    cx.count("failures injected", 1);
                }
            }
            _ => {
                let new = new_kl(r, &kl);
                let rate = gen::rate(r);
                cx.log(format!("step {i}: compact at {rate} (call to fail: {fail:?})"));
                let (et, ct) = (ix.et.snap(), ix.ct.st().table.clone());
                ix.arm(fail);
                let got = ix.compact(&fx, &kl, &new, rate)?;
                match ix.fired() {
                    Some("delete") => {
                        // The new index is complete.
                        ck!(got.is_err(), "a compaction succeeds although the dictionary failed its delete");
                        ix.check(cx, &fx, &new, &m, &ks, &format!("{when}, under the new key"))?;
                        cx.count("failures injected", 1);
                        ix.misuse(&when)?;
                        break;
                    }
                    Some(c) => {
                        match got {
                            Ok(()) => viol!("a compaction succeeds although the dictionary failed its {c}"),
                            Err(e) => ck!(e.contains("own dictionary failed"), "a compaction whose {c} failed answers {e}"),
                        }
                        ck!(ix.et.snap() == et, "a compaction whose {c} failed changed the Entry Table");
                        ck!(ix.ct.st().table == ct, "a compaction whose {c} failed changed the Chain Table");
                        cx.count("failures injected", 1);
                    }
                    None => {
                        must(got, "compaction")?;
                        // Those without association are kept or not.
                        let left = ix.et.len();
                        let live = m.kw.values().filter(|v| !v.is_empty()).count();
                        ck!(left >= live && left <= m.kw.len(), "{left} entries are left for {live} keywords");
                        if left == live {
                            m.compact_full();
                        } else if left < m.kw.len() {
                            // Which ones is unknown: not followed any further.
                            ix.check(cx, &fx, &new, &m, &ks, &when)?;
                            ix.misuse(&when)?;
                            break;
                        }
                        ix.check(cx, &fx, &kl, &Model::default(), &u.kw, &format!("{when}, under the former key"))?;
                        kl = new;
                        cx.count("compactions", 1);
                    }
                }
            }
        }
        ix.misuse(&when)?;
        ix.check(cx, &fx, &kl, &m, &ks, &when)?;
    }
    let st = ix.ct.st();
    for (k, v) in &st.counts {
        let (k, v) = (format!("calls to {k}"), *v);
        cx.count(&k, v);
    }
    cx.max("lines in the own Chain Table", st.table.len() as u64);
    cx.nontrivial(h ^ hash_bytes(5, &kl.key));
    Ok(())
}
