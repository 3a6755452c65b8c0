//! Thin layer over the public API working on plain byte strings, and the
//! reference model.
use std::{
    collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque},
    sync::Arc,
};

use cosmian_crypto_core::FixedSizeCBytes;
use cosmian_findex::{
    ChainTable, Data, DxEnc, EntryTable, Findex, Index, IndexedValue, IndexedValueToKeywordsMap,
    Keyword, Keywords, Label, UserKey, ENTRY_LENGTH, LINK_LENGTH,
};

use crate::{
    fmt::Tbl,
    mondb::{Log, Mode, MonDb, MonErr, Table, Tb, World},
    rng::R,
};

pub type By = Vec<u8>;
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Val {
    P(By),
    D(By),
}
impl Val {
    /// Documented byte form.
    pub fn iv(&self) -> By {
        let (c, b) = match self {
            Val::P(b) => (b'w', b),
            Val::D(b) => (b'l', b),
        };
        let mut v = vec![c];
        v.extend(b);
        v
    }
    pub fn from_iv(b: &[u8]) -> Option<Val> {
        match b.first()? {
            b'w' => Some(Val::P(b[1..].to_vec())),
            b'l' => Some(Val::D(b[1..].to_vec())),
            _ => None,
        }
    }
    pub fn to(&self) -> IndexedValue<Keyword, Data> {
        match self {
            Val::P(b) => IndexedValue::Pointer(Keyword::from(b.clone())),
            Val::D(b) => IndexedValue::Data(Data::from(b.clone())),
        }
    }
    pub fn of(v: &IndexedValue<Keyword, Data>) -> Val {
        match v {
            IndexedValue::Pointer(k) => Val::P(k.to_vec()),
            IndexedValue::Data(d) => Val::D(d.to_vec()),
        }
    }
    pub fn blocks(&self) -> usize {
        1 + self.iv().len() / 16
    }
}
pub fn lines_of<'a>(vals: impl IntoIterator<Item = &'a Val>) -> usize {
    let b: usize = vals.into_iter().map(Val::blocks).sum();
    b.div_ceil(5)
}

/// Modification: values with the keywords they are (un)indexed under.
pub type Assoc = Vec<(Val, Vec<By>)>;
pub fn assoc_map(a: &Assoc) -> IndexedValueToKeywordsMap {
    let mut m: HashMap<IndexedValue<Keyword, Data>, HashSet<Keyword>> = HashMap::new();
    for (v, ks) in a {
        m.entry(v.to())
            .or_default()
            .extend(ks.iter().map(|k| Keyword::from(k.clone())));
    }
    IndexedValueToKeywordsMap::from(m)
}
pub fn per_kw(a: &Assoc) -> BTreeMap<By, BTreeSet<Val>> {
    let mut m: BTreeMap<By, BTreeSet<Val>> = BTreeMap::new();
    for (v, ks) in a {
        for k in ks {
            m.entry(k.clone()).or_default().insert(v.clone());
        }
    }
    m
}

pub type Fx = Findex<
    MonErr,
    EntryTable<ENTRY_LENGTH, MonDb<ENTRY_LENGTH>>,
    ChainTable<LINK_LENGTH, MonDb<LINK_LENGTH>>,
>;

#[derive(Clone)]
pub struct Env {
    pub w: Arc<World>,
    pub et: Arc<Table<ENTRY_LENGTH>>,
    pub ct: Arc<Table<LINK_LENGTH>>,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Snap {
    pub et: Tbl,
    pub ct: Tbl,
}
impl Env {
    pub fn new(mode: Mode, log: Log, in_memory: bool) -> Self {
        Env {
            w: World::new(mode, log),
            et: Arc::new(if in_memory { Table::mem() } else { Table::own() }),
            ct: Arc::new(if in_memory { Table::mem() } else { Table::own() }),
        }
    }
    /// A new index object over the same stores.
    pub fn fx(&self) -> Fx {
        Findex::new(
            EntryTable::setup(MonDb {
                tb: Tb::E,
                w: self.w.clone(),
                t: self.et.clone(),
            }),
            ChainTable::setup(MonDb {
                tb: Tb::C,
                w: self.w.clone(),
                t: self.ct.clone(),
            }),
        )
    }
    /// The same stores seen through another world (mode / log / faults).
    pub fn with_world(&self, mode: Mode, log: Log) -> Self {
        Env {
            w: World::new(mode, log),
            et: self.et.clone(),
            ct: self.ct.clone(),
        }
    }
    pub fn snap(&self) -> Snap {
        Snap {
            et: self.et.snap(),
            ct: self.ct.snap(),
        }
    }
    pub fn restore(&self, s: &Snap) {
        self.et.restore(&s.et);
        self.ct.restore(&s.ct);
    }
    /// Independent copy of the current contents.
    pub fn fork(&self, mode: Mode, log: Log, in_memory: bool) -> Self {
        let e = Env::new(mode, log, in_memory);
        e.restore(&self.snap());
        e
    }
}

pub fn ukey(b: &[u8]) -> UserKey {
    let mut a = [0; 16];
    a.copy_from_slice(b);
    match UserKey::try_from_bytes(a) {
        Ok(k) => k,
        Err(_) => unreachable!("16 bytes make a key"),
    }
}
/// Key and label as plain bytes.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Kl {
    pub key: By,
    pub label: By,
}
impl Kl {
    pub fn random(r: &mut R) -> Self {
        let n = *r.pick(&[0, 1, 5, 16, 31, 32, 33, 100]);
        Kl {
            key: r.bytes(16),
            label: r.bytes(n),
        }
    }
    pub fn k(&self) -> UserKey {
        ukey(&self.key)
    }
    pub fn l(&self) -> Label {
        Label::from(self.label.clone())
    }
}

pub type Res2 = BTreeMap<By, BTreeSet<By>>;
pub type Round = BTreeMap<By, BTreeSet<Val>>;

fn kws(k: &[By]) -> Keywords {
    k.iter().map(|k| Keyword::from(k.clone())).collect()
}
pub async fn search(fx: &Fx, kl: &Kl, k: &[By]) -> Result<Res2, String> {
    let r = fx
        .search(&kl.k(), &kl.l(), kws(k), &|_| async { Ok(false) })
        .await
        .map_err(|e| format!("{e}"))?;
    Ok(r.iter()
        .map(|(k, v)| (k.to_vec(), v.iter().map(|d| d.to_vec()).collect()))
        .collect())
}
/// Search with a callback given the number of the round and its content.
pub async fn search_i(
    fx: &Fx,
    kl: &Kl,
    k: &[By],
    cb: &dyn Fn(usize, Round) -> Result<bool, String>,
) -> Result<Res2, String> {
    let n = std::cell::Cell::new(0);
    let r = fx
        .search(&kl.k(), &kl.l(), kws(k), &|m: HashMap<
            Keyword,
            HashSet<IndexedValue<Keyword, Data>>,
        >| {
            let i = n.get();
            n.set(i + 1);
            let round: Round = m
                .iter()
                .map(|(k, v)| (k.to_vec(), v.iter().map(Val::of).collect()))
                .collect();
            let res = cb(i, round);
            async move { res }
        })
        .await
        .map_err(|e| format!("{e}"))?;
    Ok(r.iter()
        .map(|(k, v)| (k.to_vec(), v.iter().map(|d| d.to_vec()).collect()))
        .collect())
}
pub async fn modify(fx: &Fx, kl: &Kl, add: bool, a: &Assoc) -> Result<BTreeSet<By>, String> {
    let m = assoc_map(a);
    let r = if add {
        fx.add(&kl.k(), &kl.l(), m).await
    } else {
        fx.delete(&kl.k(), &kl.l(), m).await
    };
    r.map(|k| k.iter().map(|k| k.to_vec()).collect())
        .map_err(|e| format!("{e}"))
}
pub async fn compact(fx: &Fx, old: &Kl, new: &Kl, rate: f64) -> Result<(), String> {
    compact_f(fx, old, new, rate, &|d| Ok(d)).await
}
pub async fn compact_f(
    fx: &Fx,
    old: &Kl,
    new: &Kl,
    rate: f64,
    filter: &dyn Fn(HashSet<Data>) -> Result<HashSet<Data>, String>,
) -> Result<(), String> {
    fx.compact(
        &old.k(),
        &new.k(),
        &old.l(),
        &new.l(),
        rate,
        &|d: HashSet<Data>| {
            let r = filter(d);
            async move { r }
        },
    )
    .await
    .map_err(|e| format!("{e}"))
}

/// Reference model: what is indexed under each keyword.
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Model {
    pub kw: BTreeMap<By, BTreeSet<Val>>,
}
impl Model {
    /// Applies a modification; returns the keywords that are new.
    pub fn apply(&mut self, add: bool, a: &Assoc) -> BTreeSet<By> {
        let mut new = BTreeSet::new();
        for (k, vs) in per_kw(a) {
            if !self.kw.contains_key(&k) {
                new.insert(k.clone());
            }
            let e = self.kw.entry(k).or_default();
            for v in vs {
                if add {
                    e.insert(v);
                } else {
                    e.remove(&v);
                }
            }
        }
        new
    }
    /// Full compaction: keywords without association disappear.
    pub fn compact_full(&mut self) {
        self.kw.retain(|_, v| !v.is_empty());
    }
    pub fn reach(&self, k: &[u8]) -> BTreeSet<By> {
        let mut seen: BTreeSet<&[u8]> = BTreeSet::new();
        let mut out = BTreeSet::new();
        let mut q: VecDeque<&[u8]> = VecDeque::from([k]);
        while let Some(k) = q.pop_front() {
            if !seen.insert(k) {
                continue;
            }
            if let Some((_, vs)) = self.kw.get_key_value(k) {
                for v in vs {
                    match v {
                        Val::P(p) => q.push_back(p),
                        Val::D(d) => {
                            out.insert(d.clone());
                        }
                    }
                }
            }
        }
        out
    }
    /// Distance of every mentioned keyword from the queried ones.
    pub fn dist(&self, ks: &[By]) -> BTreeMap<By, usize> {
        let mut d: BTreeMap<By, usize> = BTreeMap::new();
        let mut q: VecDeque<(By, usize)> = ks.iter().map(|k| (k.clone(), 0)).collect();
        while let Some((k, n)) = q.pop_front() {
            if d.contains_key(&k) {
                continue;
            }
            d.insert(k.clone(), n);
            if let Some(vs) = self.kw.get(&k) {
                for v in vs {
                    if let Val::P(p) = v {
                        q.push_back((p.clone(), n + 1));
                    }
                }
            }
        }
        d
    }
    pub fn expect(&self, ks: &[By]) -> Res2 {
        ks.iter().map(|k| (k.clone(), self.reach(k))).collect()
    }
    pub fn mentioned(&self) -> Vec<By> {
        let mut s: BTreeSet<By> = self.kw.keys().cloned().collect();
        for vs in self.kw.values() {
            for v in vs {
                if let Val::P(p) = v {
                    s.insert(p.clone());
                }
            }
        }
        s.into_iter().collect()
    }
    pub fn live(&self) -> usize {
        self.kw.values().map(BTreeSet::len).sum()
    }
}

pub fn show(b: &[u8]) -> String {
    if b.len() <= 24 {
        if !b.is_empty() && b.iter().all(|c| (32..127).contains(c)) {
            return format!("{:?}", String::from_utf8_lossy(b));
        }
        let mut s = String::from("0x");
        for c in b {
            s.push_str(&format!("{c:02x}"));
        }
        return s;
    }
    format!("<{} bytes #{:08x}>", b.len(), crate::rng::hash_bytes(0, b) as u32)
}
pub fn show_set<'a>(s: impl IntoIterator<Item = &'a By>) -> String {
    let v: Vec<String> = s.into_iter().take(12).map(|b| show(b)).collect();
    format!("{{{}}}", v.join(", "))
}
pub fn show_val(v: &Val) -> String {
    match v {
        Val::P(p) => format!("->{}", show(p)),
        Val::D(p) => show(p),
    }
}
pub fn show_assoc(a: &Assoc) -> String {
    let v: Vec<String> = a
        .iter()
        .take(8)
        .map(|(v, k)| format!("{}:{}", show_val(v), show_set(k)))
        .collect();
    v.join("; ")
}
/// Description of the first difference between two search results.
pub fn diff(got: &Res2, want: &Res2) -> Option<String> {
    for (k, w) in want {
        match got.get(k) {
            None => return Some(format!("queried keyword {} absent from the result", show(k))),
            Some(g) if g != w => {
                let miss: Vec<By> = w.difference(g).cloned().collect();
                let extra: Vec<By> = g.difference(w).cloned().collect();
                return Some(format!(
                    "keyword {}: missing {} unexpected {}",
                    show(k),
                    show_set(&miss),
                    show_set(&extra)
                ));
            }
            _ => {}
        }
    }
    got.keys()
        .find(|k| !want.contains_key(*k))
        .map(|k| format!("keyword {} was not queried", show(k)))
}
