//! Threads sharing one index object: built plainly, with ThreadSanitizer and
//! for Miri. Nothing here synchronizes the threads besides the library itself
//! (tickets are relaxed), so that the detectors see its own synchronization.
use std::{
    cell::{Cell, RefCell},
    collections::{BTreeMap, BTreeSet, HashMap, HashSet},
    future::Future,
    panic::{catch_unwind, resume_unwind, AssertUnwindSafe},
    pin::Pin,
    sync::{
        atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed},
        Arc,
    },
    task::{Context, Poll, Wake, Waker},
};

use async_trait::async_trait;
use cosmian_crypto_core::FixedSizeCBytes;
use cosmian_findex::{
    ChainTable, Data, DbInterface, DbInterfaceErrorTrait, DxEnc, EntryTable, Findex, InMemoryDb, Index, IndexedValue,
    IndexedValueToKeywordsMap, Keyword, Keywords, Label, TokenToEncryptedValueMap, TokenWithEncryptedValueList, Tokens, UserKey,
    ENTRY_LENGTH, LINK_LENGTH,
};

#[derive(Clone, Copy, Debug)]
pub struct Cfg {
    pub seed: u64,
    pub threads: usize,
    /// Tasks interleaved on each thread.
    pub tasks: usize,
    pub ops: usize,
    pub compactions: bool,
    /// One backend call or callback out of so many fails or panics (0: none).
    pub faults: u64,
    /// Switches tasks or yields at one call out of so many (0: never).
    pub pauses: u64,
}
#[derive(Default, Debug)]
pub struct Stats {
    pub counts: BTreeMap<&'static str, u64>,
    pub trace: u64,
    pub switches: u64,
}

fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}
struct Injected;
thread_local! {
    static RND: Cell<u64> = const { Cell::new(1) };
    static FAULT: Cell<u64> = const { Cell::new(0) };
    static PAUSE: Cell<u64> = const { Cell::new(0) };
    /// An injected fault hit the operation of this task.
    static HIT: RefCell<HashMap<usize, u64>> = RefCell::default();
    static TASK: Cell<usize> = const { Cell::new(0) };
    static CALLS: RefCell<Vec<(u64, usize)>> = const { RefCell::new(vec![]) };
}
static TICKET: AtomicU64 = AtomicU64::new(0);
fn rnd(n: u64) -> u64 {
    RND.with(|r| {
        r.set(mix(r.get()));
        r.get() % n.max(1)
    })
}
fn one_in(n: u64) -> bool {
    n != 0 && rnd(n) == 0
}
fn hit() {
    HIT.with(|h| *h.borrow_mut().entry(TASK.get()).or_default() += 1);
}
fn hits(task: usize) -> u64 {
    HIT.with(|h| h.borrow().get(&task).copied().unwrap_or(0))
}
/// Gives way to the other tasks of the thread, once.
struct Yield(bool);
impl Future for Yield {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> {
        if self.0 {
            return Poll::Ready(());
        }
        self.0 = true;
        Poll::Pending
    }
}
async fn pause() {
    if one_in(PAUSE.get()) {
        if rnd(2) == 0 {
            std::thread::yield_now();
        } else {
            Yield(false).await;
        }
    }
}
/// Fails or panics sometimes.
fn fault(what: &str) -> Result<(), String> {
    if one_in(FAULT.get()) {
        hit();
        if rnd(2) == 0 {
            resume_unwind(Box::new(Injected));
        }
        return Err(format!("injected fault in {what}"));
    }
    Ok(())
}

#[derive(Debug)]
pub struct DbErr(String);
impl std::fmt::Display for DbErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for DbErr {}
impl DbInterfaceErrorTrait for DbErr {}

pub struct Db<const L: usize>(Arc<InMemoryDb<L>>);
impl<const L: usize> Db<L> {
    async fn call<T, E: std::fmt::Debug>(&self, what: &str, f: impl Future<Output = Result<T, E>>) -> Result<T, DbErr> {
        pause().await;
        fault(what).map_err(DbErr)?;
        CALLS.with(|c| c.borrow_mut().push((TICKET.fetch_add(1, Relaxed), TASK.get())));
        let r = f.await.map_err(|e| DbErr(format!("{e:?}")));
        pause().await;
        fault(what).map_err(DbErr)?;
        r
    }
}
#[async_trait(?Send)]
impl<const L: usize> DbInterface<L> for Db<L> {
    type Error = DbErr;
    async fn dump_tokens(&self) -> Result<Tokens, DbErr> {
        self.call("dump", self.0.dump_tokens()).await
    }
    async fn fetch(&self, t: Tokens) -> Result<TokenWithEncryptedValueList<L>, DbErr> {
        self.call("fetch", self.0.fetch(t)).await
    }
    async fn upsert(&self, o: TokenToEncryptedValueMap<L>, n: TokenToEncryptedValueMap<L>) -> Result<TokenToEncryptedValueMap<L>, DbErr> {
        self.call("upsert", self.0.upsert(o, n)).await
    }
    async fn insert(&self, v: TokenToEncryptedValueMap<L>) -> Result<(), DbErr> {
        self.call("insert", self.0.insert(v)).await
    }
    async fn delete(&self, t: Tokens) -> Result<(), DbErr> {
        self.call("delete", self.0.delete(t)).await
    }
}
type Fx = Findex<DbErr, EntryTable<ENTRY_LENGTH, Db<ENTRY_LENGTH>>, ChainTable<LINK_LENGTH, Db<LINK_LENGTH>>>;

struct Nop;
impl Wake for Nop {
    fn wake(self: Arc<Self>) {}
}
fn waker() -> Waker {
    Arc::new(Nop).into()
}
fn label(i: u64) -> Label {
    Label::from(format!("label {i}").into_bytes())
}
fn kw(i: u64) -> Keyword {
    Keyword::from(format!("keyword {i}").into_bytes())
}
fn assoc(vs: &[(IndexedValue<Keyword, Data>, Vec<Keyword>)]) -> IndexedValueToKeywordsMap {
    let mut m: HashMap<IndexedValue<Keyword, Data>, HashSet<Keyword>> = HashMap::new();
    for (v, k) in vs {
        m.entry(v.clone()).or_default().extend(k.iter().cloned());
    }
    IndexedValueToKeywordsMap::from(m)
}
async fn find(fx: &Fx, key: &UserKey, l: &Label, ks: &[Keyword]) -> Result<BTreeMap<Vec<u8>, BTreeSet<Vec<u8>>>, String> {
    let r = fx
        .search(key, l, Keywords::from_iter(ks.iter().cloned()), &|_| async {
            pause().await;
            fault("the interruption callback")?;
            // A callback may use the index.
            match rnd(12) {
                0 => drop(fx.keygen()),
                1 => {
                    let r = Box::pin(fx.search(key, l, Keywords::from_iter([kw(0)]), &|_| async { Ok(true) }));
                    if let Err(e) = r.await {
                        return Err(e.to_string());
                    }
                }
                _ => {}
            }
            Ok(rnd(40) == 39)
        })
        .await
        .map_err(|e| e.to_string())?;
    Ok(r.into_iter().map(|(k, d)| (k.to_vec(), d.into_iter().map(|x| x.to_vec()).collect())).collect())
}

/// What one task did.
#[derive(Default)]
struct Done {
    counts: BTreeMap<&'static str, u64>,
    /// Keyword of the task: data acknowledged, data that may be there.
    acked: BTreeSet<Vec<u8>>,
    maybe: BTreeSet<Vec<u8>>,
    bad: Option<String>,
}
struct Env {
    fx: Fx,
    key: UserKey,
    cur: AtomicU64,
    next: AtomicU64,
}

/// Polls a future, catching the panics of one operation.
async fn guarded<T>(f: impl Future<Output = T>) -> Result<T, Box<dyn std::any::Any + Send>> {
    let mut f = Box::pin(f);
    std::future::poll_fn(move |cx| match catch_unwind(AssertUnwindSafe(|| f.as_mut().poll(cx))) {
        Ok(Poll::Ready(x)) => Poll::Ready(Ok(x)),
        Ok(Poll::Pending) => Poll::Pending,
        Err(e) => Poll::Ready(Err(e)),
    })
    .await
}
fn text(p: &(dyn std::any::Any + Send)) -> String {
    p.downcast_ref::<&str>().map(|s| (*s).to_string()).or_else(|| p.downcast_ref::<String>().cloned()).unwrap_or_default()
}

async fn task(e: &Env, c: &Cfg, id: usize) -> Done {
    let mut d = Done::default();
    let own = Keyword::from(format!("own {id}").into_bytes());
    for i in 0..c.ops {
        let l = label(e.cur.load(Relaxed));
        let before = hits(id);
        if rnd(3) == 0 {
            let m = 1 + rnd((8 * (c.ops * c.ops) as u64).min(150));
            let r = catch_unwind(AssertUnwindSafe(|| (0..m).for_each(|_| drop(e.fx.keygen()))));
            if let Err(p) = r {
                d.bad = Some(format!("key generation of task {id} panics: {}", text(&*p)));
                return d;
            }
            *d.counts.entry("key generation").or_default() += m;
        }
        let n = rnd(if c.compactions { 22 } else { 20 });
        let mine = (rnd(3) == 0).then(|| format!("data {id}/{i}").into_bytes());
        let mut vs: Vec<(IndexedValue<Keyword, Data>, Vec<Keyword>)> = (0..1 + rnd(3))
            .map(|_| {
                let v = if rnd(4) == 0 { IndexedValue::Pointer(kw(rnd(4))) } else { IndexedValue::Data(Data::from(vec![b'd'; rnd(40) as usize])) };
                (v, (0..1 + rnd(2)).map(|_| kw(rnd(4))).collect())
            })
            .collect();
        let (what, r): (&'static str, _) = match n {
            0..=8 => {
                if let Some(x) = &mine {
                    vs.push((IndexedValue::Data(Data::from(x.clone())), vec![own.clone()]));
                }
                let r = guarded(async { e.fx.add(&e.key, &l, assoc(&vs)).await.map(|_| ()).map_err(|x| x.to_string()) }).await;
                if let Some(x) = mine {
                    if matches!(r, Ok(Ok(()))) {
                        d.acked.insert(x);
                    } else {
                        d.maybe.insert(x);
                    }
                }
                ("addition", r)
            }
            9..=13 => {
                let r = guarded(async { e.fx.delete(&e.key, &l, assoc(&vs)).await.map(|_| ()).map_err(|x| x.to_string()) }).await;
                ("deletion", r)
            }
            14..=19 => {
                let ks: Vec<Keyword> = (0..1 + rnd(3)).map(|_| kw(rnd(4))).collect();
                let r = guarded(async { find(&e.fx, &e.key, &l, &ks).await.map(|_| ()) }).await;
                ("search", r)
            }
            _ => {
                let to = e.next.fetch_add(1, Relaxed) + 1;
                let l2 = label(to);
                let rate = [0.0, 0.5, 1.0][rnd(3) as usize];
                let r = guarded(async {
                    e.fx.compact(&e.key, &e.key, &l, &l2, rate, &|d| async {
                        pause().await;
                        fault("the filter")?;
                        drop(e.fx.keygen());
                        Ok(d)
                    })
                    .await
                    .map_err(|x| x.to_string())
                })
                .await;
                if matches!(r, Ok(Ok(()))) {
                    e.cur.store(to, Relaxed);
                }
                ("compaction", r)
            }
        };
        let injected = hits(id) > before;
        match r {
            Ok(Ok(())) => *d.counts.entry(what).or_default() += 1,
            Ok(Err(m)) => {
                *d.counts.entry(if injected { "failed by a fault" } else { "refused" }).or_default() += 1;
                if !injected && !c.compactions {
                    d.bad = Some(format!("{what} of task {id} fails because of the others: {m}"));
                    return d;
                }
            }
            Err(p) if p.is::<Injected>() => *d.counts.entry("panicked by a fault").or_default() += 1,
            Err(p) => {
                d.bad = Some(format!("{what} of task {id} panics: {}", text(&*p)));
                return d;
            }
        }
        pause().await;
    }
    d
}

/// Progress of all runs, for a watchdog.
pub static PROGRESS: AtomicU64 = AtomicU64::new(0);

pub fn run(c: &Cfg) -> Result<Stats, String> {
    let (et, ct) = (Arc::new(InMemoryDb::default()), Arc::new(InMemoryDb::default()));
    let mut kb = [0; 16];
    for (i, b) in kb.iter_mut().enumerate() {
        *b = mix(c.seed ^ i as u64) as u8;
    }
    let e = Env {
        fx: Findex::new(EntryTable::setup(Db(et.clone())), ChainTable::setup(Db(ct.clone()))),
        key: UserKey::try_from_bytes(kb).map_err(|e| e.to_string())?,
        cur: AtomicU64::new(0),
        next: AtomicU64::new(0),
    };
    let ready = AtomicUsize::new(0);
    let mut st = Stats::default();
    let mut all: Vec<(usize, Done)> = vec![];
    let mut calls: Vec<(u64, usize)> = vec![];
    std::thread::scope(|sc| {
        let hs: Vec<_> = (0..c.threads)
            .map(|t| {
                let (e, ready) = (&e, &ready);
                sc.spawn(move || {
                    RND.set(mix(c.seed ^ mix(t as u64 + 1)));
                    FAULT.set(c.faults);
                    PAUSE.set(c.pauses);
                    HIT.with(|h| h.borrow_mut().clear());
                    CALLS.with(|h| h.borrow_mut().clear());
                    ready.fetch_add(1, Relaxed);
                    while ready.load(Relaxed) < c.threads {
                        std::thread::yield_now();
                    }
                    let mut out: Vec<(usize, Done)> = vec![];
                    let mut fs: Vec<(usize, Pin<Box<dyn Future<Output = Done> + '_>>)> = (0..c.tasks)
                        .map(|k| {
                            let id = t * c.tasks + k;
                            (id, Box::pin(task(e, c, id)) as _)
                        })
                        .collect();
                    let w = waker();
                    let mut cx = Context::from_waker(&w);
                    while !fs.is_empty() {
                        let i = rnd(fs.len() as u64) as usize;
                        TASK.set(fs[i].0);
                        if let Poll::Ready(d) = fs[i].1.as_mut().poll(&mut cx) {
                            out.push((fs[i].0, d));
                            drop(fs.swap_remove(i));
                        }
                        PROGRESS.fetch_add(1, Relaxed);
                    }
                    (out, CALLS.with(|c| std::mem::take(&mut *c.borrow_mut())))
                })
            })
            .collect();
        for h in hs {
            match h.join() {
                Ok((d, c)) => {
                    all.extend(d);
                    calls.extend(c);
                }
                Err(p) => all.push((0, Done { bad: Some(format!("a thread panics: {}", text(&*p))), ..Done::default() })),
            }
        }
    });
    for (_, d) in &mut all {
        if let Some(b) = d.bad.take() {
            return Err(b);
        }
        for (k, n) in &d.counts {
            *st.counts.entry(k).or_default() += n;
        }
    }
    // Afterwards, without faults: the same object is still usable.
    FAULT.set(0);
    PAUSE.set(0);
    let wait = |f: &mut dyn FnMut(&mut Context<'_>) -> Poll<Result<(), String>>| -> Result<(), String> {
        let w = waker();
        let mut cx = Context::from_waker(&w);
        for _ in 0..100_000 {
            let r = catch_unwind(AssertUnwindSafe(|| f(&mut cx)));
            match r {
                Ok(Poll::Ready(x)) => return x,
                Ok(Poll::Pending) => {}
                Err(p) => return Err(format!("panics: {}", text(&*p))),
            }
        }
        Err("never completes".into())
    };
    let l = label(if c.compactions { 1_000_000 } else { 0 });
    let last = Keyword::from("last keyword");
    let mut f = Box::pin(async {
        let v = IndexedValue::Data(Data::from("last data"));
        e.fx.add(&e.key, &l, assoc(&[(v.clone(), vec![last.clone()])])).await.map_err(|x| format!("addition fails: {x}"))?;
        let mut ks = vec![last.clone()];
        ks.extend(all.iter().map(|x| Keyword::from(format!("own {}", x.0).into_bytes())));
        let mut got = e
            .fx
            .search(&e.key, &l, Keywords::from_iter(ks), &|_| async { Ok(false) })
            .await
            .map_err(|x| format!("search fails: {x}"))?
            .into_iter()
            .map(|(k, d)| (k.to_vec(), d.into_iter().map(|x| x.to_vec()).collect::<BTreeSet<_>>()))
            .collect::<BTreeMap<_, _>>();
        if got.remove(&last.to_vec()) != Some(BTreeSet::from([b"last data".to_vec()])) {
            return Err("a search does not find what was just added".to_string());
        }
        if !c.compactions {
            for (id, d) in &all {
                let g = got.remove(format!("own {id}").as_bytes()).unwrap_or_default();
                if let Some(x) = d.acked.iter().find(|x| !g.contains(*x)) {
                    return Err(format!("{} added by task {id} is lost", String::from_utf8_lossy(x)));
                }
                if let Some(x) = g.iter().find(|x| !d.acked.contains(*x) && !d.maybe.contains(*x)) {
                    return Err(format!("task {id} finds {} which it did not add", String::from_utf8_lossy(x)));
                }
            }
        }
        e.fx.delete(&e.key, &l, assoc(&[(v, vec![last.clone()])])).await.map_err(|x| format!("deletion fails: {x}"))?;
        Ok(())
    });
    wait(&mut |cx| f.as_mut().poll(cx)).map_err(|m| format!("after all threads are done, {m}"))?;
    drop(f);
    calls.sort_unstable();
    for w in calls.windows(2) {
        if w[0].1 != w[1].1 {
            st.switches += 1;
        }
        st.trace = mix(st.trace ^ (w[1].1 as u64 + 1));
    }
    *st.counts.entry("backend calls").or_default() += calls.len() as u64;
    Ok(st)
}
/// Configuration number `i`.
pub fn cfg(seed: u64, i: u64, small: bool) -> Cfg {
    let s = mix(seed ^ mix(i));
    let f = |k: u64, n: u64| mix(s ^ k) % n;
    Cfg {
        seed: s,
        threads: 2 + f(1, if small { 2 } else { 5 }) as usize,
        tasks: 1 + f(2, 3) as usize,
        ops: if small { 3 } else { 4 + f(3, 12) as usize },
        compactions: f(4, 3) == 0,
        faults: [0, 15, 60][f(5, 3) as usize],
        pauses: [0, 2, 5][f(6, 3) as usize],
    }
}
/// Threads hammering few keywords of one object, without any pause: each search is compared with
/// what it must find.
pub fn hot(seed: u64, threads: usize, ops: usize) -> Result<Stats, String> {
    fn now<T>(f: impl Future<Output = Result<T, String>>) -> Result<T, String> {
        let w = waker();
        let mut f = Box::pin(f);
        for _ in 0..100_000 {
            match catch_unwind(AssertUnwindSafe(|| f.as_mut().poll(&mut Context::from_waker(&w)))) {
                Ok(Poll::Ready(x)) => return x,
                Ok(Poll::Pending) => {}
                Err(p) => return Err(format!("panics: {}", text(&*p))),
            }
        }
        Err("never completes".into())
    }
    let (et, ct) = (Arc::new(InMemoryDb::default()), Arc::new(InMemoryDb::default()));
    let fx: Fx = Findex::new(EntryTable::setup(Db(et)), ChainTable::setup(Db(ct)));
    let key = |j: u64| UserKey::try_from_bytes(((mix(seed) as u128) << 8 | j as u128).to_le_bytes()).map_err(|e| e.to_string());
    let keys = [key(0)?, key(1)?];
    let name = |j: u64, l: u64, k: u64| format!("data of {j} {l} {k}").into_bytes();
    let val = |b: &[u8]| IndexedValue::Data(Data::from(b));
    FAULT.set(0);
    PAUSE.set(0);
    for j in 0..2 {
        for l in 0..2 {
            let mut v: Vec<_> = (0..3).map(|k| (val(&name(j, l, k)), vec![kw(k)])).collect();
            v.push((IndexedValue::Pointer(kw(1)), vec![kw(3)]));
            now(async { fx.add(&keys[j as usize], &label(l), assoc(&v)).await.map(|_| ()).map_err(|e| e.to_string()) })?;
        }
    }
    let shared = Keyword::from("shared keyword");
    let ready = AtomicUsize::new(0);
    type Acked = BTreeSet<Vec<u8>>;
    let one = |t: usize| -> Result<(BTreeMap<&'static str, u64>, Acked, Vec<(u64, usize)>), String> {
        RND.set(mix(seed ^ mix(t as u64 + 7)));
        FAULT.set(0);
        PAUSE.set(0);
        TASK.set(t);
        CALLS.with(|h| h.borrow_mut().clear());
        ready.fetch_add(1, Relaxed);
        while ready.load(Relaxed) < threads {
            std::hint::spin_loop();
        }
        let own = Keyword::from(format!("own {t}").into_bytes());
        let (mut n, mut acked) = (BTreeMap::new(), Acked::new());
        let look = |j: u64, l: u64, ks: &[Keyword]| {
            now(async {
                let r = fx.search(&keys[j as usize], &label(l), Keywords::from_iter(ks.iter().cloned()), &|_| async { Ok(false) }).await;
                let r = r.map_err(|e| e.to_string())?;
                Ok(r.into_iter().map(|(k, d)| (k.to_vec(), d.into_iter().map(|x| x.to_vec()).collect())).collect::<BTreeMap<_, Acked>>())
            })
        };
        for i in 0..ops {
            PROGRESS.fetch_add(1, Relaxed);
            let (j, l, k) = (rnd(2), rnd(2), rnd(4));
            match rnd(12) {
                0..=6 => {
                    *n.entry("hot searches").or_default() += 1;
                    let g = look(j, l, &[kw(k)]).map_err(|m| format!("a search of thread {t} fails: {m}"))?;
                    let want = Acked::from([name(j, l, if k == 3 { 1 } else { k })]);
                    if g.len() != 1 || g.get(&kw(k).to_vec()) != Some(&want) {
                        return Err(format!("thread {t} searches keyword {k} under key {j} and label {l} and gets {g:?}"));
                    }
                }
                7 => {
                    *n.entry("hot searches under another label").or_default() += 1;
                    let g = look(j, 2, &[kw(k), shared.clone()]).map_err(|m| format!("a search of thread {t} fails: {m}"))?;
                    if g.len() != 2 || g.values().any(|d| !d.is_empty()) {
                        return Err(format!("thread {t} searches keyword {k} under an unused label and gets {g:?}"));
                    }
                }
                8 if acked.len() < 12 => {
                    *n.entry("hot additions").or_default() += 1;
                    let x = format!("{t}/{i}").into_bytes();
                    now(async { fx.add(&keys[0], &label(0), assoc(&[(val(&x), vec![shared.clone(), own.clone()])])).await.map(|_| ()).map_err(|e| e.to_string()) })
                        .map_err(|m| format!("an addition of thread {t} fails: {m}"))?;
                    acked.insert(x);
                }
                9 => {
                    let x = b"transient".to_vec();
                    let v = [(val(&x), vec![own.clone()])];
                    let r = now(async {
                        fx.add(&keys[1], &label(1), assoc(&v)).await.map_err(|e| e.to_string())?;
                        fx.delete(&keys[1], &label(1), assoc(&v)).await.map(|_| ()).map_err(|e| e.to_string())
                    });
                    r.map_err(|m| format!("an addition or deletion of thread {t} fails: {m}"))?;
                }
                10 => {
                    let r = catch_unwind(AssertUnwindSafe(|| fx.keygen()));
                    r.map_err(|p| format!("key generation of thread {t} panics: {}", text(&*p)))?;
                }
                _ => {
                    let g = look(0, 0, &[shared.clone(), own.clone()]).map_err(|m| format!("a search of thread {t} fails: {m}"))?;
                    let (s, o) = (g.get(&shared.to_vec()), g.get(&own.to_vec()));
                    if o != Some(&acked) || !s.is_some_and(|s| acked.is_subset(s)) {
                        return Err(format!("thread {t} added {} data and finds {g:?}", acked.len()));
                    }
                }
            }
        }
        Ok((n, acked, CALLS.with(|c| std::mem::take(&mut *c.borrow_mut()))))
    };
    let rs: Vec<_> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let one = &one;
                sc.spawn(move || one(t))
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|p| Err(format!("a thread panics: {}", text(&*p))))).collect()
    });
    let (mut st, mut all, mut calls) = (Stats::default(), Acked::new(), vec![]);
    for r in rs {
        let (n, a, c) = r?;
        n.into_iter().for_each(|(k, n)| *st.counts.entry(k).or_default() += n);
        all.extend(a);
        calls.extend(c);
    }
    let got = now(async { fx.search(&keys[0], &label(0), Keywords::from_iter([shared.clone()]), &|_| async { Ok(false) }).await.map_err(|e| e.to_string()) })
        .map_err(|m| format!("after all threads are done, a search fails: {m}"))?;
    let got: Acked = got.into_iter().flat_map(|(_, d)| d).map(|d| d.to_vec()).collect();
    if got != all {
        return Err(format!("after all threads are done, {} data are found and {} were added", got.len(), all.len()));
    }
    calls.sort_unstable();
    for w in calls.windows(2) {
        st.switches += u64::from(w[0].1 != w[1].1);
        st.trace = mix(st.trace ^ (w[1].1 as u64 + 1));
    }
    *st.counts.entry("backend calls").or_default() += calls.len() as u64;
    Ok(st)
}
/// As little as possible, for the interpreter.
pub fn tiny(i: u64) -> Cfg {
    Cfg { seed: mix(i), threads: 2, tasks: 1, ops: 1, compactions: i % 4 == 3, faults: 0, pauses: 0 }
}
/// Threads on the store alone, without any cryptography.
pub fn store(seed: u64, threads: usize, ops: usize) -> Result<u64, String> {
    use cosmian_findex::{EncryptedValue, Token};
    let db = InMemoryDb::<8>::default();
    let t = |i: u64| Token::from([i as u8; 32]);
    let v = |n: u64| -> Result<EncryptedValue<8>, String> {
        let mut b = [0; 36];
        b[12..20].copy_from_slice(&n.to_le_bytes());
        EncryptedValue::try_from(&b[..]).map_err(|e| e.to_string())
    };
    fn now<T, E: std::fmt::Debug>(f: impl Future<Output = Result<T, E>>) -> Result<T, String> {
        let w = waker();
        let mut f = Box::pin(f);
        loop {
            if let Poll::Ready(x) = f.as_mut().poll(&mut Context::from_waker(&w)) {
                return x.map_err(|e| format!("{e:?}"));
            }
        }
    }
    let num = |e: &EncryptedValue<8>| u64::from_le_bytes(e.ciphertext);
    now(db.insert(TokenToEncryptedValueMap::from_iter([(t(0), v(0)?), (t(1), v(0)?)])))?;
    let accepted = AtomicU64::new(0);
    let r: Vec<Result<(), String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads)
            .map(|k| {
                let (db, accepted, v) = (&db, &accepted, &v);
                sc.spawn(move || -> Result<(), String> {
                    RND.set(mix(seed ^ k as u64));
                    for _ in 0..ops {
                        let got: HashMap<Token, EncryptedValue<8>> = now(db.fetch(Tokens::from_iter([t(0), t(1)])))?.into_iter().collect();
                        let (Some(a), Some(b)) = (got.get(&t(0)), got.get(&t(1))) else { return Err("a value disappeared".into()) };
                        if a != b {
                            return Err(format!("a fetch mixes versions {} and {}", num(a), num(b)));
                        }
                        let n = num(a);
                        let old = TokenToEncryptedValueMap::from_iter([(t(0), a.clone()), (t(1), b.clone())]);
                        let new = TokenToEncryptedValueMap::from_iter([(t(0), v(n + 1)?), (t(1), v(n + 1)?)]);
                        let rej = now(db.upsert(old, new))?;
                        match rej.len() {
                            0 => {
                                accepted.fetch_add(1, Relaxed);
                            }
                            2 => {}
                            _ => return Err("an upsert is applied in part".into()),
                        }
                        let mine = 10 + k as u64;
                        now(db.insert(TokenToEncryptedValueMap::from_iter([(t(mine), v(mine)?)])))?;
                        if !now(db.dump_tokens())?.contains(&t(mine)) {
                            return Err("an inserted token is not dumped".into());
                        }
                        now(db.delete(Tokens::from_iter([t(mine)])))?;
                        let _ = (db.len(), db.is_empty(), db.size());
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|p| Err(format!("panics: {}", text(&*p))))).collect()
    });
    r.into_iter().collect::<Result<(), String>>()?;
    let got: HashMap<Token, EncryptedValue<8>> = now(db.fetch(Tokens::from_iter([t(0)])))?.into_iter().collect();
    let n = got.get(&t(0)).map(num);
    if n != Some(accepted.load(Relaxed)) || db.len() != 2 {
        return Err(format!("{} upserts accepted, version {n:?}, {} values", accepted.load(Relaxed), db.len()));
    }
    Ok(accepted.load(Relaxed))
}
