//! Monitored storage backend: the observation and fault-injection point of the
//! whole harness.  It implements the *documented* `DbInterface` contract
//! (atomic calls, upsert truth table) and records every request it receives.
use std::{
    cell::Cell,
    collections::{BTreeMap, HashMap},
    future::Future,
    pin::Pin,
    sync::{
        atomic::{AtomicU64, Ordering::SeqCst},
        Arc, Mutex,
    },
    task::{Context, Poll},
};

use async_trait::async_trait;
use cosmian_findex::{
    DbInterface, DbInterfaceErrorTrait, EncryptedValue, InMemoryDb, Token, TokenToEncryptedValueMap,
    TokenWithEncryptedValueList, Tokens,
};

use crate::rng::mix;

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct MonErr(pub String);
impl std::fmt::Display for MonErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for MonErr {}
impl DbInterfaceErrorTrait for MonErr {}

thread_local! {
    pub static CUR: Cell<u32> = const { Cell::new(0) };
    static DELAY: Cell<u64> = const { Cell::new(0x1234_5678) };
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Op {
    Dump,
    Fetch,
    Upsert,
    Insert,
    Delete,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Tb {
    E,
    C,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum FK {
    ErrBefore,
    ErrAfter,
    CrashBefore,
    CrashAfter,
}
pub const ALL_FK: [FK; 4] = [FK::ErrBefore, FK::ErrAfter, FK::CrashBefore, FK::CrashAfter];

#[derive(Clone, Copy, Debug)]
pub struct Fault {
    pub from: u32,
    pub to: u32,
    pub kind: FK,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    /// Calls complete at once.
    Seq,
    /// Every call yields to the scheduler before and after taking effect.
    Sched,
    /// OS threads; calls are surrounded by small random delays.
    Thr,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Log {
    Off,
    Shape,
    Full,
}

pub type Raw = (Token, Vec<u8>);

/// One request seen by the backend.
#[derive(Clone, Debug)]
pub struct Ev {
    pub task: u32,
    pub idx: u32,
    pub tb: Tb,
    pub op: Op,
    /// Number of tokens / new values in the request, of old values, of values returned.
    pub n: usize,
    pub n_old: usize,
    pub n_out: usize,
    pub toks: Vec<Token>,
    pub olds: Vec<Raw>,
    pub news: Vec<Raw>,
    pub out: Vec<Raw>,
    pub applied: bool,
    pub ok: bool,
    pub t: u64,
}

#[derive(Default)]
struct WIn {
    log: Vec<Ev>,
    calls: HashMap<u32, u32>,
    faults: HashMap<u32, Vec<Fault>>,
    fired: Vec<(u32, u32, Tb, Op, FK)>,
    crashed: Vec<u32>,
}

pub struct World {
    pub mode: Mode,
    pub log: Log,
    clock: AtomicU64,
    pub n_calls: AtomicU64,
    inner: Mutex<WIn>,
}

impl World {
    pub fn new(mode: Mode, log: Log) -> Arc<Self> {
        Arc::new(Self {
            mode,
            log,
            clock: AtomicU64::new(1),
            n_calls: AtomicU64::new(0),
            inner: Mutex::new(WIn::default()),
        })
    }
    fn lk(&self) -> std::sync::MutexGuard<'_, WIn> {
        self.inner.lock().unwrap_or_else(|e| e.into_inner())
    }
    pub fn tick(&self) -> u64 {
        self.clock.fetch_add(1, SeqCst)
    }
    pub fn set_fault(&self, task: u32, f: Fault) {
        self.lk().faults.entry(task).or_default().push(f);
    }
    pub fn clear_faults(&self) {
        self.lk().faults.clear();
    }
    pub fn fired(&self) -> Vec<(u32, u32, Tb, Op, FK)> {
        self.lk().fired.clone()
    }
    pub fn fired_clear(&self) {
        self.lk().fired.clear();
    }
    pub fn calls(&self, task: u32) -> u32 {
        self.lk().calls.get(&task).copied().unwrap_or(0)
    }
    pub fn reset_calls(&self, task: u32) {
        self.lk().calls.remove(&task);
    }
    pub fn take_crashed(&self, task: u32) -> bool {
        let mut g = self.lk();
        if let Some(p) = g.crashed.iter().position(|t| *t == task) {
            g.crashed.swap_remove(p);
            true
        } else {
            false
        }
    }
    pub fn log_len(&self) -> usize {
        self.lk().log.len()
    }
    pub fn log_from(&self, i: usize) -> Vec<Ev> {
        self.lk().log[i..].to_vec()
    }
    pub fn log_take(&self) -> Vec<Ev> {
        std::mem::take(&mut self.lk().log)
    }
    fn begin(&self, tb: Tb, op: Op) -> (u32, u32, Option<FK>) {
        self.n_calls.fetch_add(1, SeqCst);
        let task = CUR.with(|c| c.get());
        if self.mode == Mode::Thr && self.log == Log::Off {
            return (task, 0, None);
        }
        let mut g = self.lk();
        let c = g.calls.entry(task).or_insert(0);
        let idx = *c;
        *c += 1;
        let f = g
            .faults
            .get(&task)
            .and_then(|fs| fs.iter().find(|f| f.from <= idx && idx <= f.to))
            .map(|f| f.kind);
        if let Some(k) = f {
            g.fired.push((task, idx, tb, op, k));
        }
        (task, idx, f)
    }
    pub fn gate(&self) -> Gate {
        match self.mode {
            Mode::Seq => Gate(0),
            Mode::Sched => Gate(1),
            Mode::Thr => {
                let d = DELAY.with(|d| {
                    let v = mix(d.get());
                    d.set(v);
                    v
                });
                match d % 16 {
                    0..=7 => {}
                    8..=11 => std::thread::yield_now(),
                    12..=14 => {
                        for _ in 0..(d >> 8) % 400 {
                            std::hint::spin_loop();
                        }
                    }
                    _ => std::thread::sleep(std::time::Duration::from_micros((d >> 8) % 60)),
                }
                Gate(0)
            }
        }
    }
}

pub fn seed_delays(s: u64) {
    DELAY.with(|d| d.set(mix(s)));
}

/// Yields to the scheduler the given number of times.
pub struct Gate(pub u8);
impl Future for Gate {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 == 0 {
            Poll::Ready(())
        } else {
            self.0 -= 1;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    }
}
struct Never;
impl Future for Never {
    type Output = ();
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> {
        Poll::Pending
    }
}

pub enum Table<const L: usize> {
    Own(Mutex<HashMap<Token, EncryptedValue<L>>>),
    Mem(InMemoryDb<L>),
}

pub type Snap<const L: usize> = BTreeMap<[u8; 32], Vec<u8>>;

pub fn tok(t: &Token) -> [u8; 32] {
    <[u8; 32]>::from(*t)
}
/// Canonical bytes of a stored value, computed by the harness itself.
pub fn raw<const L: usize>(v: &EncryptedValue<L>) -> Vec<u8> {
    let mut r = v.nonce.0.to_vec();
    r.extend_from_slice(&v.ciphertext);
    r.extend_from_slice(&v.tag);
    r
}
pub fn unraw<const L: usize>(b: &[u8]) -> EncryptedValue<L> {
    let mut n = [0; 12];
    n.copy_from_slice(&b[..12]);
    let mut c = [0; L];
    c.copy_from_slice(&b[12..12 + L]);
    let mut t = [0; 16];
    t.copy_from_slice(&b[12 + L..]);
    EncryptedValue {
        ciphertext: c,
        tag: t,
        nonce: cosmian_crypto_core::Nonce::from(n),
    }
}

impl<const L: usize> Table<L> {
    pub fn own() -> Self {
        Self::Own(Mutex::default())
    }
    pub fn mem() -> Self {
        Self::Mem(InMemoryDb::default())
    }
    pub fn with<T>(&self, f: impl FnOnce(&mut HashMap<Token, EncryptedValue<L>>) -> T) -> T {
        match self {
            Self::Own(m) => f(&mut m.lock().unwrap_or_else(|e| e.into_inner())),
            Self::Mem(d) => {
                let arc: &Arc<Mutex<TokenToEncryptedValueMap<L>>> = d;
                let mut g = arc.lock().unwrap_or_else(|e| e.into_inner());
                f(&mut g.0)
            }
        }
    }
    pub fn snap(&self) -> BTreeMap<[u8; 32], Vec<u8>> {
        self.with(|m| m.iter().map(|(k, v)| (tok(k), raw(v))).collect())
    }
    pub fn restore(&self, s: &BTreeMap<[u8; 32], Vec<u8>>) {
        self.with(|m| {
            *m = s
                .iter()
                .map(|(k, v)| (Token::from(*k), unraw::<L>(v)))
                .collect();
        });
    }
    pub fn len(&self) -> usize {
        self.with(|m| m.len())
    }
}

#[derive(Clone)]
pub struct MonDb<const L: usize> {
    pub tb: Tb,
    pub w: Arc<World>,
    pub t: Arc<Table<L>>,
}
impl<const L: usize> std::fmt::Debug for MonDb<L> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "MonDb")
    }
}

fn e2s<E: std::fmt::Debug>(e: E) -> MonErr {
    MonErr(format!("{e:?}"))
}

struct Req {
    op: Op,
    toks: Vec<Token>,
    olds: Vec<Raw>,
    news: Vec<Raw>,
    n: usize,
    n_old: usize,
}

impl<const L: usize> MonDb<L> {
    fn raws(m: &HashMap<Token, EncryptedValue<L>>) -> Vec<Raw> {
        let mut v: Vec<Raw> = m.iter().map(|(k, v)| (*k, raw(v))).collect();
        v.sort_by_key(|x| tok(&x.0));
        v
    }
    fn req(&self, op: Op, n: usize, n_old: usize) -> Req {
        Req {
            op,
            toks: vec![],
            olds: vec![],
            news: vec![],
            n,
            n_old,
        }
    }
    async fn around<T, F: Future<Output = Result<T, MonErr>>>(
        &self,
        req: Req,
        apply: F,
        out: impl Fn(&T) -> (usize, Vec<Raw>),
    ) -> Result<T, MonErr> {
        let (task, idx, fault) = self.w.begin(self.tb, req.op);
        self.w.gate().await;
        let mk = |applied: bool, ok: bool, n_out: usize, o: Vec<Raw>, req: Req| {
            if self.w.log != Log::Off {
                let t = self.w.tick();
                self.w.lk().log.push(Ev {
                    task,
                    idx,
                    tb: self.tb,
                    op: req.op,
                    n: req.n,
                    n_old: req.n_old,
                    n_out,
                    toks: req.toks,
                    olds: req.olds,
                    news: req.news,
                    out: o,
                    applied,
                    ok,
                    t,
                });
            }
        };
        match fault {
            Some(FK::ErrBefore) => {
                mk(false, false, 0, vec![], req);
                self.w.gate().await;
                return Err(MonErr(format!("injected backend fault #{idx}")));
            }
            Some(FK::CrashBefore) => {
                mk(false, false, 0, vec![], req);
                self.w.lk().crashed.push(task);
                Never.await;
                return Err(MonErr("crashed".into()));
            }
            _ => {}
        }
        let r = apply.await;
        let (n_out, o) = match &r {
            Ok(x) => out(x),
            Err(_) => (0, vec![]),
        };
        let bad = matches!(fault, Some(FK::ErrAfter | FK::CrashAfter));
        mk(r.is_ok(), r.is_ok() && !bad, n_out, o, req);
        if fault == Some(FK::CrashAfter) {
            self.w.lk().crashed.push(task);
            Never.await;
        }
        self.w.gate().await;
        if fault == Some(FK::ErrAfter) {
            return Err(MonErr(format!("injected backend fault #{idx}")));
        }
        r
    }
    fn full(&self) -> bool {
        self.w.log == Log::Full
    }
}

#[async_trait(?Send)]
impl<const L: usize> DbInterface<L> for MonDb<L> {
    type Error = MonErr;

    async fn dump_tokens(&self) -> Result<Tokens, MonErr> {
        let req = self.req(Op::Dump, 0, 0);
        let full = self.full();
        self.around(
            req,
            async {
                match &*self.t {
                    Table::Own(m) => Ok(m
                        .lock()
                        .unwrap_or_else(|e| e.into_inner())
                        .keys()
                        .copied()
                        .collect::<Tokens>()),
                    Table::Mem(d) => d.dump_tokens().await.map_err(e2s),
                }
            },
            |r: &Tokens| {
                (
                    r.0.len(),
                    if full {
                        r.0.iter().map(|t| (*t, vec![])).collect()
                    } else {
                        vec![]
                    },
                )
            },
        )
        .await
    }

    async fn fetch(&self, tokens: Tokens) -> Result<TokenWithEncryptedValueList<L>, MonErr> {
        let mut req = self.req(Op::Fetch, tokens.0.len(), 0);
        let full = self.full();
        if full {
            req.toks = tokens.0.iter().copied().collect();
        }
        self.around(
            req,
            async {
                match &*self.t {
                    Table::Own(m) => {
                        let g = m.lock().unwrap_or_else(|e| e.into_inner());
                        Ok(TokenWithEncryptedValueList::from(
                            tokens
                                .0
                                .iter()
                                .filter_map(|t| g.get(t).map(|v| (*t, v.clone())))
                                .collect::<Vec<_>>(),
                        ))
                    }
                    Table::Mem(d) => d.fetch(tokens).await.map_err(e2s),
                }
            },
            |r: &TokenWithEncryptedValueList<L>| {
                (
                    r.0.len(),
                    if full {
                        r.0.iter().map(|(t, v)| (*t, raw(v))).collect()
                    } else {
                        vec![]
                    },
                )
            },
        )
        .await
    }

    async fn upsert(
        &self,
        old: TokenToEncryptedValueMap<L>,
        new: TokenToEncryptedValueMap<L>,
    ) -> Result<TokenToEncryptedValueMap<L>, MonErr> {
        let mut req = self.req(Op::Upsert, new.0.len(), old.0.len());
        let full = self.full();
        if full {
            req.olds = Self::raws(&old.0);
            req.news = Self::raws(&new.0);
        }
        self.around(
            req,
            async {
                match &*self.t {
                    Table::Own(m) => {
                        let mut g = m.lock().unwrap_or_else(|e| e.into_inner());
                        if old.0.keys().any(|t| !g.contains_key(t)) {
                            return Err(MonErr("upsert: old value for an absent token".into()));
                        }
                        let mut rej = HashMap::new();
                        for (t, v) in new.0 {
                            let cur = g.get(&t);
                            if cur == old.0.get(&t) {
                                g.insert(t, v);
                            } else if let Some(c) = cur {
                                rej.insert(t, c.clone());
                            }
                        }
                        Ok(TokenToEncryptedValueMap::from(rej))
                    }
                    Table::Mem(d) => d.upsert(old, new).await.map_err(e2s),
                }
            },
            |r: &TokenToEncryptedValueMap<L>| {
                (
                    r.0.len(),
                    if full {
                        Self::raws(&r.0)
                    } else {
                        vec![]
                    },
                )
            },
        )
        .await
    }

    async fn insert(&self, values: TokenToEncryptedValueMap<L>) -> Result<(), MonErr> {
        let mut req = self.req(Op::Insert, values.0.len(), 0);
        if self.full() {
            req.news = Self::raws(&values.0);
        }
        self.around(
            req,
            async {
                match &*self.t {
                    Table::Own(m) => {
                        let mut g = m.lock().unwrap_or_else(|e| e.into_inner());
                        if values.0.keys().any(|t| g.contains_key(t)) {
                            return Err(MonErr("insert: token already used".into()));
                        }
                        g.extend(values.0);
                        Ok(())
                    }
                    Table::Mem(d) => d.insert(values).await.map_err(e2s),
                }
            },
            |_: &()| (0, vec![]),
        )
        .await
    }

    async fn delete(&self, tokens: Tokens) -> Result<(), MonErr> {
        let mut req = self.req(Op::Delete, tokens.0.len(), 0);
        if self.full() {
            req.toks = tokens.0.iter().copied().collect();
        }
        self.around(
            req,
            async {
                match &*self.t {
                    Table::Own(m) => {
                        let mut g = m.lock().unwrap_or_else(|e| e.into_inner());
                        for t in &tokens.0 {
                            g.remove(t);
                        }
                        Ok(())
                    }
                    Table::Mem(d) => d.delete(tokens).await.map_err(e2s),
                }
            },
            |_: &()| (0, vec![]),
        )
        .await
    }
}
