//! Allocator that lets a check look at the heap blocks its own thread
//! allocates and frees during a bracketed piece of code.
use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::{Cell, UnsafeCell},
};

pub struct Watch;

const MAX: usize = 256;
struct St {
    n: usize,
    /// Blocks allocated while recording and not freed since.
    blocks: [(usize, usize); MAX],
    /// Bytes of the watched blocks at the time they were freed.
    freed_n: usize,
    freed: [u8; 8192],
}
thread_local! {
    static ON: Cell<u8> = const { Cell::new(0) };
    static CURB: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static VOLUME: Cell<u64> = const { Cell::new(0) };
    static NEEDLES: UnsafeCell<([[u8; 16]; 4], usize, u64, u64)> = const { UnsafeCell::new(([[0; 16]; 4], 0, 0, 0)) };
    static ST: UnsafeCell<St> = const { UnsafeCell::new(St { n: 0, blocks: [(0, 0); MAX], freed_n: 0, freed: [0; 8192] }) };
}
const RECORD: u8 = 1;
const TRACK: u8 = 2;
const MEASURE: u8 = 4;
const SCAN: u8 = 8;
/// Blocks are zeroed when allocated: what they hold was written since.
const CLEAN: u8 = 16;
/// Blocks are overwritten when freed: what is found in the heap is in use.
const WIPE: u8 = 32;
fn wipe(p: *mut u8, n: usize) {
    if ON.try_with(Cell::get) == Ok(WIPE) {
        for i in 0..n {
            // SAFETY: the block is still allocated.
            unsafe { std::ptr::write_volatile(p.add(i), 0) };
        }
    }
}
/// Runs `f`, overwriting the blocks it frees.
pub fn wiping<T>(f: impl FnOnce() -> T) -> T {
    ON.with(|o| o.set(WIPE));
    let x = f();
    ON.with(|o| o.set(0));
    x
}
fn size(d: isize) {
    if ON.try_with(Cell::get) == Ok(MEASURE) {
        let c = CURB.get() + d;
        CURB.set(c);
        PEAK.set(PEAK.get().max(c));
        VOLUME.set(VOLUME.get() + d.max(0) as u64);
    }
}
/// Runs `f`; gives the peak of what this thread allocated in it.
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, usize) {
    CURB.set(0);
    PEAK.set(0);
    VOLUME.set(0);
    ON.with(|o| o.set(MEASURE));
    let x = f();
    ON.with(|o| o.set(0));
    (x, PEAK.get() as usize)
}

/// Bytes allocated in all by the last `measure`.
pub fn volume() -> u64 {
    VOLUME.get()
}
/// Runs `f` without measuring what it allocates and frees.
pub fn unmeasured<T>(f: impl FnOnce() -> T) -> T {
    let was = ON.with(|o| o.replace(0));
    let x = f();
    ON.with(|o| o.set(was));
    x
}

// SAFETY: forwards to the system allocator; the bookkeeping is thread-local and
// allocates nothing.
unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        size(l.size() as isize);
        if clean() {
            return System.alloc_zeroed(l);
        }
        let p = System.alloc(l);
        if ON.try_with(Cell::get) == Ok(RECORD) {
            add(p as usize, l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        size(l.size() as isize);
        let p = System.alloc_zeroed(l);
        if ON.try_with(Cell::get) == Ok(RECORD) {
            add(p as usize, l.size());
        }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let on = ON.try_with(Cell::get);
        if clean() {
            let Ok(m) = Layout::from_size_align(n, l.align()) else { return std::ptr::null_mut() };
            let q = System.alloc_zeroed(m);
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, n.min(l.size()));
                scan(p, l.size());
                wipe(p, l.size());
                System.dealloc(p, l);
            }
            return q;
        }
        if on.is_ok_and(|x| x & 3 != 0) {
            del(p as usize);
        }
        size(n as isize - l.size() as isize);
        let q = System.realloc(p, l, n);
        if on == Ok(RECORD) {
            add(q as usize, n);
        }
        q
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ON.try_with(Cell::get).is_ok_and(|x| x & 3 != 0) {
            del(p as usize);
        }
        scan(p, l.size());
        wipe(p, l.size());
        size(-(l.size() as isize));
        System.dealloc(p, l);
    }
}
fn clean() -> bool {
    ON.try_with(Cell::get).is_ok_and(|x| x & (SCAN | CLEAN | WIPE) != 0)
}
/// Runs `f` with every block zeroed when allocated.
pub fn cleaned<T>(f: impl FnOnce() -> T) -> T {
    ON.with(|o| o.set(CLEAN));
    let x = f();
    ON.with(|o| o.set(0));
    x
}
/// Looks for the needles in a block about to be freed.
fn scan(p: *mut u8, n: usize) {
    if ON.try_with(Cell::get) != Ok(SCAN) {
        return;
    }
    let _ = NEEDLES.try_with(|x| {
        // SAFETY: thread-local, never re-entered; the block is still allocated.
        let (x, b) = unsafe { (&mut *x.get(), std::slice::from_raw_parts(p, n)) };
        x.3 += 1;
        for s in &x.0[..x.1] {
            if n >= 16 && (0..=n - 16).any(|i| b[i] == s[0] && b[i + 1] == s[1] && b[i..i + 16] == *s) {
                x.2 += 1;
            }
        }
    });
}
/// Runs `f` (within `cleaned`); gives how many of the heap blocks it freed held one of the
/// (at most four) secrets at that time, and how many it freed.
pub fn scanned<T>(secrets: &[[u8; 16]], f: impl FnOnce() -> T) -> (T, u64, u64) {
    NEEDLES.with(|x| {
        // SAFETY: thread-local, not in use.
        let x = unsafe { &mut *x.get() };
        x.1 = secrets.len().min(4);
        x.0[..x.1].copy_from_slice(&secrets[..x.1]);
        (x.2, x.3) = (0, 0);
    });
    let was = ON.with(|o| o.replace(SCAN));
    let r = f();
    ON.with(|o| o.set(was));
    // SAFETY: as above.
    let (n, m) = NEEDLES.with(|x| unsafe { ((*x.get()).2, (*x.get()).3) });
    (r, n, m)
}
fn with<T>(f: impl FnOnce(&mut St) -> T) -> Option<T> {
    // SAFETY: thread-local, never re-entered (nothing allocates inside).
    ST.try_with(|s| f(unsafe { &mut *s.get() })).ok()
}
fn add(p: usize, n: usize) {
    with(|s| {
        if p != 0 && s.n < MAX {
            s.blocks[s.n] = (p, n);
            s.n += 1;
        }
    });
}
fn del(p: usize) {
    with(|s| {
        let Some(i) = (0..s.n).find(|i| s.blocks[*i].0 == p) else { return };
        let (_, n) = s.blocks[i];
        s.n -= 1;
        s.blocks[i] = s.blocks[s.n];
        if ON.try_with(Cell::get) == Ok(TRACK) {
            for j in 0..n.min(s.freed.len() - s.freed_n) {
                // SAFETY: the block is still allocated.
                s.freed[s.freed_n] = unsafe { std::ptr::read_volatile((p + j) as *const u8) };
                s.freed_n += 1;
            }
        }
    });
}
/// Runs `f`, recording the heap blocks it allocates.
pub fn record<T>(f: impl FnOnce() -> T) -> T {
    with(|s| {
        s.n = 0;
        s.freed_n = 0;
    });
    ON.with(|o| o.set(RECORD));
    let x = f();
    ON.with(|o| o.set(0));
    x
}
/// Runs `f`, keeping the bytes that the recorded blocks hold when it frees them.
pub fn track(f: impl FnOnce()) {
    ON.with(|o| o.set(TRACK));
    f();
    ON.with(|o| o.set(0));
}
/// Contents of the recorded blocks that are still allocated. Every block
/// freed out of `record` and `track` must be forgotten before.
pub fn live() -> Vec<u8> {
    let b = with(|s| s.blocks[..s.n].to_vec()).unwrap_or_default();
    let mut v = vec![];
    for (p, n) in b {
        // SAFETY: allocated and not freed since, as the caller guarantees.
        v.extend((0..n).map(|i| unsafe { std::ptr::read_volatile((p + i) as *const u8) }));
    }
    v
}
/// What the freed recorded blocks held.
pub fn freed() -> Vec<u8> {
    with(|s| s.freed[..s.freed_n].to_vec()).unwrap_or_default()
}
