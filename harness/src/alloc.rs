//! A global allocator that can watch the heap blocks the runtime takes.
//!
//! While a session is on, every block allocated inside `inside(stamp, ..)` is recorded, surrounded by
//! guard bytes, and on free filled with a poison pattern and kept back until the session ends. So a
//! block that is freed twice, freed and then written, written out of bounds, or never freed shows.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};

const PAD: usize = 16;
const POISON: u8 = 0xDD;
const GUARD: u8 = 0xFB;
const MAX: usize = 1 << 15;
const SLOTS: usize = 1 << 17;

#[derive(Clone, Copy)]
struct Rec {
    ptr: usize,
    size: usize,
    align: usize,
    stamp: u32,
    freed: u32,
}

struct Table {
    n: usize,
    full: bool,
    recs: [Rec; MAX],
    slots: [u32; SLOTS],
    double_free: u32,
    bad_size: u32,
    guard_broken: u32,
}

static mut TABLE: Table = Table {
    n: 0,
    full: false,
    recs: [Rec { ptr: 0, size: 0, align: 0, stamp: 0, freed: 0 }; MAX],
    slots: [0; SLOTS],
    double_free: 0,
    bad_size: 0,
    guard_broken: 0,
};
static ON: AtomicBool = AtomicBool::new(false);
static LOCK: AtomicBool = AtomicBool::new(false);
static STAMP: AtomicU32 = AtomicU32::new(0);

thread_local! {
    static INSIDE: Cell<bool> = const { Cell::new(false) };
}

struct Guard;
fn lock() -> Guard {
    while LOCK.compare_exchange_weak(false, true, Ordering::Acquire, Ordering::Relaxed).is_err() {
        std::hint::spin_loop();
    }
    Guard
}
impl Drop for Guard {
    fn drop(&mut self) {
        LOCK.store(false, Ordering::Release);
    }
}

#[allow(static_mut_refs)]
fn table() -> &'static mut Table {
    unsafe { &mut TABLE }
}

fn hash(p: usize) -> usize {
    (p >> 4).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 40 & (SLOTS - 1)
}

impl Table {
    fn find(&self, p: usize) -> Option<usize> {
        let mut h = hash(p);
        loop {
            let s = self.slots[h];
            if s == 0 {
                return None;
            }
            if self.recs[s as usize - 1].ptr == p {
                return Some(s as usize - 1);
            }
            h = (h + 1) & (SLOTS - 1);
        }
    }
    fn add(&mut self, p: usize, l: Layout, stamp: u32) {
        let mut h = hash(p);
        while self.slots[h] != 0 {
            h = (h + 1) & (SLOTS - 1);
        }
        self.recs[self.n] = Rec { ptr: p, size: l.size(), align: l.align(), stamp, freed: 0 };
        self.n += 1;
        self.slots[h] = self.n as u32;
    }
}

pub struct Watch;

fn padded(l: Layout) -> Layout {
    unsafe { Layout::from_size_align_unchecked(l.size() + 2 * PAD, l.align().max(PAD)) }
}

unsafe fn guards_ok(p: usize, size: usize) -> bool {
    unsafe {
        let a = std::slice::from_raw_parts((p - PAD) as *const u8, PAD);
        let b = std::slice::from_raw_parts((p + size) as *const u8, PAD);
        a.iter().chain(b).all(|x| *x == GUARD)
    }
}

unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        unsafe {
            if ON.load(Ordering::Relaxed) && INSIDE.with(Cell::get) && l.align() <= PAD {
                let _g = lock();
                let t = table();
                if t.n < MAX {
                    let base = System.alloc(padded(l));
                    if base.is_null() {
                        return base;
                    }
                    let p = base.add(PAD);
                    std::ptr::write_bytes(base, GUARD, PAD);
                    std::ptr::write_bytes(p, 0xA5, l.size());
                    std::ptr::write_bytes(p.add(l.size()), GUARD, PAD);
                    t.add(p as usize, l, STAMP.load(Ordering::Relaxed));
                    return p;
                }
                t.full = true;
            }
            System.alloc(l)
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe {
            if ON.load(Ordering::Relaxed) {
                let _g = lock();
                let t = table();
                if let Some(i) = t.find(p as usize) {
                    let r = &mut t.recs[i];
                    if r.freed != 0 {
                        t.double_free += 1;
                        return;
                    }
                    r.freed = STAMP.load(Ordering::Relaxed).max(1);
                    if r.size != l.size() {
                        t.bad_size += 1;
                    }
                    if !guards_ok(r.ptr, r.size) {
                        t.guard_broken += 1;
                    }
                    std::ptr::write_bytes(p, POISON, r.size);
                    return;
                }
            }
            System.dealloc(p, l);
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        unsafe {
            if ON.load(Ordering::Relaxed) {
                // Move by hand, so that the old block is watched like any freed one.
                let nl = Layout::from_size_align_unchecked(new, l.align());
                let q = self.alloc(nl);
                if !q.is_null() {
                    std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
                    self.dealloc(p, l);
                }
                return q;
            }
            System.realloc(p, l, new)
        }
    }
}

/// Runs a runtime call; blocks it takes belong to `stamp` (not 0).
pub fn inside<R>(stamp: u32, f: impl FnOnce() -> R) -> R {
    STAMP.store(stamp, Ordering::Relaxed);
    let was = INSIDE.with(|i| i.replace(true));
    let r = f();
    INSIDE.with(|i| i.set(was));
    r
}

/// Runs harness code from within a runtime call (a callback).
pub fn outside<R>(f: impl FnOnce() -> R) -> R {
    let was = INSIDE.with(|i| i.replace(false));
    let r = f();
    INSIDE.with(|i| i.set(was));
    r
}

pub fn begin() {
    assert!(!ON.load(Ordering::Relaxed));
    ON.store(true, Ordering::SeqCst);
}

/// A mark of how many blocks were recorded so far.
pub fn mark() -> usize {
    let _g = lock();
    table().n
}

/// Indices of blocks taken since `mark` that are still held.
pub fn held_since(mark: usize) -> Vec<usize> {
    let (mut v, n) = ([0_usize; 64], &mut 0_usize);
    {
        let _g = lock();
        let t = table();
        for i in mark..t.n {
            if t.recs[i].freed == 0 && *n < 64 {
                v[*n] = i;
                *n += 1;
            }
        }
    }
    v[..*n].to_vec()
}

pub fn is_freed(i: usize) -> bool {
    let _g = lock();
    table().recs[i].freed != 0
}

pub fn describe(i: usize) -> String {
    let r = {
        let _g = lock();
        table().recs[i]
    };
    format!("block {i} of {} bytes taken in step {}", r.size, r.stamp)
}

/// Anything wrong so far that is wrong at any time.
pub fn trouble() -> Option<String> {
    let (d, s, g) = {
        let _g = lock();
        let t = table();
        (t.double_free, t.bad_size, t.guard_broken)
    };
    if d > 0 {
        return Some("a heap block was freed twice".into());
    }
    if s > 0 {
        return Some("a heap block was freed with another size than it was taken with".into());
    }
    if g > 0 {
        return Some("memory around a heap block was overwritten".into());
    }
    None
}

pub struct Report {
    /// Blocks never freed: (size, step that took it).
    pub leaked: Vec<(usize, u32)>,
    pub trouble: Option<String>,
    pub full: bool,
}

/// Ends the session, really freeing what was freed.
pub fn end() -> Report {
    ON.store(false, Ordering::SeqCst);
    let mut trouble = trouble();
    let t = table();
    let mut leaked = vec![];
    for i in 0..t.n {
        let r = t.recs[i];
        unsafe {
            if !guards_ok(r.ptr, r.size) && trouble.is_none() {
                trouble = Some(format!("memory around a block of {} bytes was overwritten", r.size));
            }
            if r.freed == 0 {
                leaked.push((r.size, r.stamp));
            } else {
                let b = std::slice::from_raw_parts(r.ptr as *const u8, r.size);
                if b.iter().any(|x| *x != POISON) && trouble.is_none() {
                    trouble = Some(format!("a block of {} bytes was written after it was freed (in step {})", r.size, r.freed));
                }
            }
            if r.freed != 0 {
                System.dealloc((r.ptr - PAD) as *mut u8, padded(Layout::from_size_align_unchecked(r.size, r.align)));
            }
            let mut h = hash(r.ptr);
            // Clear the probe run.
            while t.slots[h] != 0 {
                t.slots[h] = 0;
                h = (h + 1) & (SLOTS - 1);
            }
        }
    }
    let full = t.full;
    t.n = 0;
    t.full = false;
    t.double_free = 0;
    t.bad_size = 0;
    t.guard_broken = 0;
    Report { leaked, trouble, full }
}
