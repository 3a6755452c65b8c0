//! F30: the cost of the operations.
use std::{
    cell::Cell,
    collections::{HashMap, HashSet},
    future::Future,
    pin::pin,
    sync::{Arc, Mutex},
    task::{Context, Poll, Waker},
};

use async_trait::async_trait;
use cosmian_findex::{
    ChainTable, Data, DbInterface, DxEnc, EncryptedValue, EntryTable, Findex, Index, IndexedValue,
    IndexedValueToKeywordsMap, Keyword, Keywords, Token, TokenToEncryptedValueMap,
    TokenWithEncryptedValueList, Tokens, ENTRY_LENGTH, LINK_LENGTH,
};

use crate::{
    alloc, ck,
    ix::Kl,
    mondb::MonErr,
    rng::{mix, R},
    run::{Cx, Fail, Part, Prop, Res, P},
    viol,
};

pub static PROPS: [&Prop; 1] = [&F30];

static F30: Prop = Prop {
    id: "F30",
    level: "exploration",
    rule: "the same operation on n and 8n items (values, full lines, blocks of one value, keywords, pointers in a row, pointers of \
           one keyword), measuring within the library the bytes allocated, the processor time and the tokens and lines exchanged \
           with the store: none may grow much faster than the items. The same operation in a small and a large index, or on a \
           short and a long chain for additions: no cost may follow the rest. Compactions in batches of four entries of indexes of \
           different sizes: the peak memory may only grow by the tokens, and no request or filter call may exceed a batch. \
           Identity: operation and size.",
    parts: &[
        Part { name: "rest", f: f30_rest, quick: 200, thorough: 2_000, threads: 4, ..P },
        Part { name: "batches", f: f30_batches, quick: 40, thorough: 400, threads: 4, hooked: true, ..P },
        Part { name: "growth", f: f30_growth, quick: 3 * KINDS.len() as u64, thorough: 30 * KINDS.len() as u64, threads: 4, cpu: 120, secs: 200, ..P },
    ],
    assumptions: &["costs are compared within factors of two, not exactly"],
};

/// A bare store, the work of which is not measured.
#[derive(Default)]
struct Store<const L: usize> {
    map: Mutex<HashMap<Token, EncryptedValue<L>>>,
    seen: Arc<Mutex<Seen>>,
}
#[derive(Default, Clone, Debug)]
struct Seen {
    on: bool,
    calls: u64,
    /// Tokens and lines sent and received.
    items: u64,
    /// Largest request.
    largest: u64,
    /// Processor time spent in the store.
    cpu: u64,
}
fn cpu() -> u64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    // SAFETY: plain system call on an owned struct.
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64
}
#[derive(Clone)]
struct Db<const L: usize>(Arc<Store<L>>);
impl<const L: usize> std::fmt::Debug for Db<L> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Db")
    }
}
impl<const L: usize> Db<L> {
    /// `f` gives its result and the number of items returned.
    fn call<T>(&self, n: usize, dump: bool, f: impl FnOnce(&mut HashMap<Token, EncryptedValue<L>>) -> (T, usize)) -> T {
        let t0 = cpu();
        let (x, m) = f(&mut self.0.map.lock().unwrap_or_else(|e| e.into_inner()));
        let mut s = self.0.seen.lock().unwrap_or_else(|e| e.into_inner());
        if s.on {
            s.calls += 1;
            s.items += (n + m) as u64;
            if !dump {
                s.largest = s.largest.max(n as u64);
            }
            s.cpu += cpu() - t0;
        }
        x
    }
}
#[async_trait(?Send)]
impl<const L: usize> DbInterface<L> for Db<L> {
    type Error = MonErr;

    async fn dump_tokens(&self) -> Result<Tokens, MonErr> {
        Ok(self.call(0, true, |m| (Tokens(m.keys().copied().collect()), m.len())))
    }
    async fn fetch(&self, tokens: Tokens) -> Result<TokenWithEncryptedValueList<L>, MonErr> {
        Ok(self.call(tokens.0.len(), false, |m| {
            let v: Vec<_> = tokens.0.iter().filter_map(|t| m.get(t).map(|v| (*t, v.clone()))).collect();
            let n = v.len();
            (TokenWithEncryptedValueList::from(v), n)
        }))
    }
    async fn upsert(&self, old: TokenToEncryptedValueMap<L>, new: TokenToEncryptedValueMap<L>) -> Result<TokenToEncryptedValueMap<L>, MonErr> {
        Ok(self.call(new.0.len(), false, |m| {
            let mut bad = HashMap::new();
            alloc::unmeasured(|| {
                for (t, v) in &new.0 {
                    match m.get(t) {
                        Some(c) if old.0.get(t) != Some(c) => {
                            bad.insert(*t, c.clone());
                        }
                        _ => {
                            m.insert(*t, v.clone());
                        }
                    }
                }
            });
            let n = bad.len();
            (bad.into(), n)
        }))
    }
    async fn insert(&self, values: TokenToEncryptedValueMap<L>) -> Result<(), MonErr> {
        self.call(values.0.len(), false, |m| {
            if values.0.keys().any(|t| m.contains_key(t)) {
                return (Err(MonErr("used token".into())), 0);
            }
            alloc::unmeasured(|| m.extend(values.0.iter().map(|(t, v)| (*t, v.clone()))));
            (Ok(()), 0)
        })
    }
    async fn delete(&self, tokens: Tokens) -> Result<(), MonErr> {
        self.call(tokens.0.len(), false, |m| {
            alloc::unmeasured(|| {
                for t in &tokens.0 {
                    m.remove(t);
                }
            });
            (Ok(()), 0)
        })
    }
}

type Fx = Findex<MonErr, EntryTable<ENTRY_LENGTH, Db<ENTRY_LENGTH>>, ChainTable<LINK_LENGTH, Db<LINK_LENGTH>>>;
struct Ix {
    fx: Fx,
    seen: Arc<Mutex<Seen>>,
    et: Arc<Store<ENTRY_LENGTH>>,
    ct: Arc<Store<LINK_LENGTH>>,
    kl: Kl,
}
fn now<T>(f: impl Future<Output = T>) -> Res<T> {
    let mut f = pin!(f);
    match f.as_mut().poll(&mut Context::from_waker(Waker::noop())) {
        Poll::Ready(x) => Ok(x),
        Poll::Pending => Err(Fail::Viol("the operation waits although the store never does".into())),
    }
}
type Pairs = Vec<(IndexedValue<Keyword, Data>, Vec<Keyword>)>;
#[derive(Clone)]
enum Do {
    Mod(bool, Pairs),
    Search(Vec<Keyword>),
    /// Rate.
    Compact(f64),
}
#[derive(Clone, Copy, Debug, Default)]
struct Cost {
    /// Bytes allocated.
    bytes: u64,
    peak: u64,
    cpu: u64,
    calls: u64,
    items: u64,
    largest: u64,
    /// Data in the largest set given to the filter.
    filtered: u64,
    /// Data found.
    found: u64,
}
impl Ix {
    fn new(r: &mut R) -> Self {
        let seen = Arc::new(Mutex::new(Seen::default()));
        let et = Arc::new(Store { map: Mutex::default(), seen: seen.clone() });
        let ct = Arc::new(Store { map: Mutex::default(), seen: seen.clone() });
        Self {
            fx: Fx::new(EntryTable::setup(Db(et.clone())), ChainTable::setup(Db(ct.clone()))),
            seen,
            et,
            ct,
            kl: Kl::random(r),
        }
    }
    /// Runs the operation; its cost within the library.
    fn run(&mut self, d: &Do) -> Res<Cost> {
        let (k, l) = (self.kl.k(), self.kl.l());
        let filtered = Cell::new(0);
        let found = Cell::new(0);
        let seen = self.seen.clone();
        *seen.lock().unwrap_or_else(|e| e.into_inner()) = Seen { on: true, ..Seen::default() };
        let (t, bytes, peak);
        macro_rules! time {
            ($x: expr) => {{
                let t0 = cpu();
                let (res, p) = alloc::measure(|| now($x).map(|r| r.map(|_| ()).map_err(|e| e.to_string())));
                t = cpu() - t0;
                bytes = alloc::volume();
                peak = p;
                res?
            }};
        }
        let res = match d {
            Do::Mod(add, a) => {
                let m: HashMap<_, HashSet<_>> = a.iter().map(|(v, k)| (v.clone(), k.iter().cloned().collect())).collect();
                let m = IndexedValueToKeywordsMap::from(m);
                if *add {
                    time!(self.fx.add(&k, &l, m))
                } else {
                    time!(self.fx.delete(&k, &l, m))
                }
            }
            Do::Search(ks) => {
                let ks: Keywords = ks.iter().cloned().collect();
                time!(async {
                    let res = self.fx.search(&k, &l, ks, &|_| async { Ok(false) }).await;
                    if let Ok(m) = &res {
                        found.set(m.values().map(|d| d.len() as u64).sum());
                    }
                    res
                })
            }
            Do::Compact(rate) => {
                let mut nkl = self.kl.clone();
                nkl.label.push(1);
                let nl = nkl.l();
                let r = time!(self.fx.compact(&k, &k, &l, &nl, *rate, &|d: HashSet<Data>| {
                    filtered.set(filtered.get().max(d.len() as u64));
                    async { Ok(d) }
                }));
                self.kl = nkl;
                r
            }
        };
        let mut s = seen.lock().unwrap_or_else(|e| e.into_inner());
        s.on = false;
        if let Err(e) = res {
            viol!("the operation fails: {e}");
        }
        Ok(Cost {
            bytes,
            peak: peak as u64,
            cpu: t.saturating_sub(s.cpu),
            calls: s.calls,
            items: s.items,
            largest: s.largest,
            filtered: filtered.get(),
            found: found.get(),
        })
    }
}

fn kw(i: usize) -> Keyword {
    Keyword::from(format!("keyword {i}").into_bytes())
}
fn val(i: usize, len: usize) -> IndexedValue<Keyword, Data> {
    let mut v = format!("{i:08}").into_bytes();
    v.resize(len, b'.');
    IndexedValue::Data(Data::from(v))
}
fn ptr(i: usize) -> IndexedValue<Keyword, Data> {
    IndexedValue::Pointer(kw(i))
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum K {
    AddValues,
    AddLines,
    AddLong,
    AddKeywords,
    DeleteValues,
    DeleteKeywords,
    SearchValues,
    SearchLines,
    SearchLong,
    SearchKeywords,
    SearchUnknown,
    SearchHistory,
    SearchRow,
    SearchStar,
    SearchLeaves,
    CompactKeywords,
    CompactNone,
    CompactLines,
    CompactHistory,
}
const KINDS: [K; 19] = [
    K::AddValues,
    K::AddLines,
    K::AddLong,
    K::AddKeywords,
    K::DeleteValues,
    K::DeleteKeywords,
    K::SearchValues,
    K::SearchLines,
    K::SearchLong,
    K::SearchKeywords,
    K::SearchUnknown,
    K::SearchHistory,
    K::SearchRow,
    K::SearchStar,
    K::SearchLeaves,
    K::CompactKeywords,
    K::CompactNone,
    K::CompactLines,
    K::CompactHistory,
];
/// What must be indexed before, and the operation to measure on `n` items.
fn plan(k: K, n: usize) -> (Vec<Do>, Do) {
    let values = |l| (0..n).map(|i| (val(i, l), vec![kw(0)])).collect::<Pairs>();
    let keywords = vec![(val(0, 8), (0..n).map(kw).collect())];
    let long = vec![(val(0, 16 * n), vec![kw(0)])];
    // The first values are added and deleted in turn.
    let history = || (0..n).map(|i| Do::Mod(i % 3 != 2, vec![(val(i % 7, 8), vec![kw(0)])])).collect();
    let one = || Do::Search(vec![kw(0)]);
    match k {
        K::AddValues => (vec![], Do::Mod(true, values(8))),
        K::AddLines => (vec![], Do::Mod(true, values(70))),
        K::AddLong => (vec![], Do::Mod(true, long)),
        K::AddKeywords => (vec![], Do::Mod(true, keywords)),
        K::DeleteValues => (vec![Do::Mod(true, values(8))], Do::Mod(false, values(8))),
        K::DeleteKeywords => (vec![Do::Mod(true, keywords.clone())], Do::Mod(false, keywords)),
        K::SearchValues => (vec![Do::Mod(true, values(8))], one()),
        K::SearchLines => (vec![Do::Mod(true, values(70))], one()),
        K::SearchLong => (vec![Do::Mod(true, long)], one()),
        K::SearchKeywords => (vec![Do::Mod(true, keywords)], Do::Search((0..n).map(kw).collect())),
        K::SearchUnknown => (vec![], Do::Search((0..n).map(kw).collect())),
        K::SearchHistory => (history(), one()),
        K::SearchRow => (vec![Do::Mod(true, (1..n).map(|i| (ptr(i), vec![kw(i - 1)])).collect())], one()),
        K::SearchStar => (vec![Do::Mod(true, (1..n).map(|i| (ptr(i), vec![kw(0)])).collect())], one()),
        K::SearchLeaves => (
            vec![Do::Mod(true, (1..n).flat_map(|i| [(ptr(i), vec![kw(0)]), (val(i, 8), vec![kw(i)])]).collect())],
            one(),
        ),
        K::CompactKeywords => (vec![Do::Mod(true, keywords)], Do::Compact(1.0)),
        K::CompactNone => (vec![Do::Mod(true, keywords)], Do::Compact(0.0)),
        K::CompactLines => (vec![Do::Mod(true, values(70))], Do::Compact(1.0)),
        K::CompactHistory => (history(), Do::Compact(1.0)),
    }
}
fn cost(r: &mut R, k: K, n: usize) -> Res<Cost> {
    let mut ix = Ix::new(r);
    let (before, d) = plan(k, n);
    for b in &before {
        ix.run(b)?;
    }
    ix.run(&d)
}

/// Eight times more items: about eight times the cost.
fn f30_growth(cx: &mut Cx) -> Res {
    let r = &mut cx.r.fork();
    let k = KINDS[cx.idx as usize % KINDS.len()];
    let (lo, hi) = if cx.thorough { (800, 5_000) } else { (800, 2_000) };
    let n = r.range(lo, hi);
    cx.log(format!("{k:?} on {n} and {} items", 8 * n));
    cost(r, k, n)?;
    let (a, b) = (cost(r, k, n)?, cost(r, k, 8 * n)?);
    let rate = |a: u64, b: u64| b as f64 / a.max(1) as f64;
    for (what, a, b) in [("bytes allocated", a.bytes, b.bytes), ("peak of memory", a.peak, b.peak), ("tokens and lines exchanged", a.items, b.items)] {
        // The capacities of maps are powers of two.
        ck!(rate(a, b) <= 12.0, "{k:?}: from {n} to {} items the {what} go from {a} to {b}", 8 * n);
        cx.max(&format!("growth of the {what} for 8 times more items, in tenths"), (10.0 * rate(a, b)) as u64);
    }
    ck!(b.calls <= 9 * a.calls, "{k:?}: {} calls of the store for {n} items, {} for {}", a.calls, b.calls, 8 * n);
    // Time is noisy: the least of several, and again before an alarm.
    let mut last = 0.0;
    for _ in 0..3 {
        let (mut a, mut b) = (a.cpu, b.cpu);
        for _ in 0..2 {
            a = a.min(cost(r, k, n)?.cpu);
            b = b.min(cost(r, k, 8 * n)?.cpu);
        }
        last = rate(a, b);
        if last <= 24.0 {
            break;
        }
    }
    cx.max("growth of the processor time for 8 times more items, in tenths", (10.0 * last) as u64);
    ck!(last <= 24.0, "{k:?}: 8 times more items than {n} take {last:.0} times more processor time");
    cx.count("operations compared on n and 8n items", 1);
    cx.nontrivial(mix(mix(k as u64) ^ n as u64));
    let t = format!("{k:?} {n} -> {}: bytes {} -> {}, items {} -> {}, time x {last:.1}", 8 * n, a.bytes, b.bytes, a.items, b.items);
    cx.sample(|| t);
    Ok(())
}

/// The rest of the index, or the length of the chain, costs nothing.
fn f30_rest(cx: &mut Cx) -> Res {
    let r = &mut cx.r.fork();
    let n = 1 << r.below(if cx.thorough { 15 } else { 12 });
    let n = n + r.below(n);
    let (many, lines, keep) = (r.range(1, 30), r.range(1, 40), r.chance(1, 2));
    let own: Pairs = (0..lines).map(|i| (val(i, 70), (0..many).map(kw).collect())).collect();
    // Others: many keywords, or a few large ones.
    let wide = r.chance(1, 2);
    let others = |n: usize| -> Pairs {
        if wide {
            vec![(val(0, 8), (1_000..1_000 + n).map(kw).collect())]
        } else {
            (0..n).map(|i| (val(i, 70), vec![kw(1_000)])).collect()
        }
    };
    let ops = [
        Do::Mod(true, own.clone()),
        Do::Search((0..many).map(kw).collect()),
        Do::Mod(false, own[..lines.div_ceil(2)].to_vec()),
        Do::Search(vec![kw(0), kw(500)]),
        Do::Mod(true, vec![(val(0, 8), vec![kw(0), kw(500)])]),
    ];
    let mut run = |n: usize| -> Res<Vec<Cost>> {
        let mut ix = Ix::new(r);
        ix.run(&Do::Mod(true, others(n)))?;
        if keep {
            ix.run(&Do::Compact(1.0))?;
        }
        ops.iter().map(|d| ix.run(d)).collect()
    };
    let (a, b) = (run(1)?, run(n)?);
    for (i, (a, b)) in a.iter().zip(&b).enumerate() {
        ck!(
            (a.calls, a.items) == (b.calls, b.items),
            "operation {i} makes {} calls with {} tokens and lines in a small index, {} with {} beside {n} others",
            a.calls, a.items, b.calls, b.items
        );
        ck!(
            b.bytes <= 2 * a.bytes + 4096 && b.peak <= 2 * a.peak + 4096,
            "operation {i} allocates {} bytes (peak {}) in a small index, {} (peak {}) beside {n} others",
            a.bytes, a.peak, b.bytes, b.peak
        );
        ck!(a.found == b.found, "operation {i} finds {} data in a small index, {} beside {n} others", a.found, b.found);
    }
    // Additions to a long chain.
    let mut run = |n: usize| -> Res<Cost> {
        let mut ix = Ix::new(r);
        ix.run(&Do::Mod(true, (0..n).map(|i| (val(i, 70), vec![kw(0)])).collect()))?;
        ix.run(&Do::Mod(r.chance(1, 2), vec![(val(7, 70), vec![kw(0)])]))
    };
    let (a, b) = (run(1)?, run(n)?);
    ck!(
        (a.calls, a.items) == (b.calls, b.items),
        "a modification of one association makes {} calls with {} tokens and lines on a chain of one line, {} with {} on {n}",
        a.calls, a.items, b.calls, b.items
    );
    ck!(
        b.bytes <= 2 * a.bytes + 4096,
        "a modification of one association allocates {} bytes on a chain of one line, {} on {n}",
        a.bytes, b.bytes
    );
    cx.count("operations compared in a small and a large index", ops.len() as u64 + 1);
    cx.max("size of the rest of the index", n as u64);
    cx.nontrivial(mix(n as u64 ^ (many as u64) << 32 ^ (lines as u64) << 48));
    Ok(())
}

/// Compactions hold one batch of four entries at once.
fn f30_batches(cx: &mut Cx) -> Res {
    const BATCH: u64 = 4;
    let r = &mut cx.r.fork();
    let (n, lines, rate) = (r.range(20, 80), r.range(5, 40), *r.pick(&[1.0, 0.5, 0.1, 1.0]));
    let mut run = |n: usize| -> Res<(Cost, u64)> {
        let mut ix = Ix::new(r);
        for k in 0..n {
            // Own values.
            ix.run(&Do::Mod(true, (0..lines).map(|i| (val(k * lines + i, 70), vec![kw(k)])).collect()))?;
        }
        let c = ix.run(&Do::Compact(rate))?;
        ck!(ix.et.map.lock().unwrap_or_else(|e| e.into_inner()).len() == n, "the index of {n} keywords has not as many entries");
        let m = ix.ct.map.lock().unwrap_or_else(|e| e.into_inner()).len();
        ck!(m == n * lines, "the index of {n} keywords of {lines} lines has {m} lines");
        Ok((c, ix.run(&Do::Search((0..n).map(kw).collect()))?.found))
    };
    let ((a, fa), (b, fb)) = (run(n)?, run(8 * n)?);
    ck!(fa == (n * lines) as u64 && fb == (8 * n * lines) as u64, "data lost: {fa} of {}, {fb} of {}", n * lines, 8 * n * lines);
    for (c, n) in [(a, n), (b, 8 * n)] {
        ck!(c.largest <= BATCH * lines as u64, "a compaction by batches of {BATCH} entries of {lines} lines makes a request about {} lines ({n} keywords)", c.largest);
        ck!(c.filtered <= BATCH * lines as u64, "a compaction by batches of {BATCH} entries of {lines} data gives {} to the filter ({n} keywords)", c.filtered);
    }
    // The tokens: a list, a set, the selected ones.
    let more = b.peak.saturating_sub(a.peak) / (7 * n as u64);
    cx.max("peak memory per entry of a compaction by batches", more);
    ck!(more <= 400, "a compaction by batches needs {more} bytes more for each entry: {} for {n} entries, {} for {}", a.peak, b.peak, 8 * n);
    cx.count("compactions by batches compared", 2);
    cx.nontrivial(mix((n * 64 + lines) as u64));
    Ok(())
}
