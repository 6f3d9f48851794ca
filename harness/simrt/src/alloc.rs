//! The simulated heap: placement (alignment), initial content, red zones, guard pages and a
//! ledger of live blocks are decided by the harness.
use crate::rng::combine;
use crate::sched::fatal;
use crate::sys::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};

const MAGIC: u64 = 0x51a1_10c8_ee77_3312;
const DEAD: u64 = 0xdead_10c8_ee77_dead;
const RZ: usize = 64;

#[repr(C)]
#[derive(Clone, Copy)]
struct Header {
    magic: u64,
    base: usize,
    total: usize,
    size: usize,
    align: usize,
    epoch: u64,
    serial: u64,
    guard: u64,
}
const HS: usize = std::mem::size_of::<Header>();

static ARMED: AtomicBool = AtomicBool::new(false);
static SEED: AtomicU64 = AtomicU64::new(0);
static POISON: AtomicU64 = AtomicU64::new(0xA5);
static EPOCH: AtomicU64 = AtomicU64::new(0);
static SERIAL: AtomicU64 = AtomicU64::new(0);
static LIVE: AtomicUsize = AtomicUsize::new(0);
static LIVE_BYTES: AtomicUsize = AtomicUsize::new(0);
static ALLOCS: AtomicU64 = AtomicU64::new(0);
static MISALIGN: AtomicBool = AtomicBool::new(false);
static GUARD: AtomicU64 = AtomicU64::new(0);
static GUARD_HITS: AtomicU64 = AtomicU64::new(0);
static MISALIGNED: AtomicU64 = AtomicU64::new(0);

const SLOT_PAGES: usize = 6; // 4 usable + 2 guards
const SLOTS: usize = 1024;
static POOL: AtomicUsize = AtomicUsize::new(0);
static SLOT_NEXT: AtomicUsize = AtomicUsize::new(0);
static mut SLOT_USED: [bool; SLOTS] = [false; SLOTS];

pub struct SimAlloc;

#[derive(Clone, Debug)]
pub struct AllocConfig {
    pub seed: u64,
    pub poison: u8,
    /// vary the address of element aligned blocks relative to the register size
    pub misalign: bool,
    /// 0: never, n: one in n blocks is placed at a guard page
    pub guard_one_in: u64,
}

impl AllocConfig {
    pub fn plain() -> AllocConfig {
        AllocConfig { seed: 0, poison: 0xA5, misalign: false, guard_one_in: 0 }
    }
}

fn ensure_pool() -> usize {
    let p = POOL.load(Ordering::SeqCst);
    if p != 0 {
        return p;
    }
    unsafe {
        // PROT_NONE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE
        let m = mmap(std::ptr::null_mut(), SLOTS * SLOT_PAGES * 4096, 0, 0x2 | 0x20 | 0x4000, -1, 0);
        if m as isize == -1 {
            return 0;
        }
        POOL.store(m as usize, Ordering::SeqCst);
        m as usize
    }
}

/// Starts a ledger epoch. Returns the epoch id.
pub fn arm(cfg: &AllocConfig) -> u64 {
    if cfg.guard_one_in > 0 {
        ensure_pool();
    }
    SEED.store(cfg.seed, Ordering::SeqCst);
    POISON.store(cfg.poison as u64, Ordering::SeqCst);
    MISALIGN.store(cfg.misalign, Ordering::SeqCst);
    GUARD.store(cfg.guard_one_in, Ordering::SeqCst);
    SERIAL.store(0, Ordering::SeqCst);
    LIVE.store(0, Ordering::SeqCst);
    LIVE_BYTES.store(0, Ordering::SeqCst);
    GUARD_HITS.store(0, Ordering::SeqCst);
    MISALIGNED.store(0, Ordering::SeqCst);
    ALLOCS.store(0, Ordering::SeqCst);
    let e = EPOCH.fetch_add(1, Ordering::SeqCst) + 1;
    ARMED.store(true, Ordering::SeqCst);
    e
}

pub struct Ledger {
    pub live: usize,
    pub live_bytes: usize,
    pub allocs: u64,
    pub guarded: u64,
    pub misaligned: u64,
}

/// Number of blocks allocated since `arm` which are still alive
pub fn ledger() -> Ledger {
    Ledger {
        live: LIVE.load(Ordering::SeqCst),
        live_bytes: LIVE_BYTES.load(Ordering::SeqCst),
        allocs: ALLOCS.load(Ordering::SeqCst),
        guarded: GUARD_HITS.load(Ordering::SeqCst),
        misaligned: MISALIGNED.load(Ordering::SeqCst),
    }
}
pub fn disarm() {
    ARMED.store(false, Ordering::SeqCst);
    GUARD.store(0, Ordering::SeqCst);
    MISALIGN.store(false, Ordering::SeqCst);
}
/// Suspends arming (for harness bookkeeping); returns the previous state
pub fn pause() -> bool {
    ARMED.swap(false, Ordering::SeqCst)
}
pub fn resume(prev: bool) {
    ARMED.store(prev, Ordering::SeqCst);
}

fn redzone_byte(i: usize) -> u8 {
    0xC3 ^ (i as u8).wrapping_mul(29)
}

unsafe fn guard_alloc(layout: Layout, r: u64) -> *mut u8 {
    let pool = POOL.load(Ordering::Relaxed);
    let usable = (SLOT_PAGES - 2) * 4096;
    if pool == 0 || layout.size() + HS + 64 > usable || layout.align() > 64 {
        return std::ptr::null_mut();
    }
    let start = SLOT_NEXT.load(Ordering::Relaxed);
    let mut slot = usize::MAX;
    for k in 0..SLOTS {
        let i = (start + k) % SLOTS;
        if !SLOT_USED[i] {
            slot = i;
            break;
        }
    }
    if slot == usize::MAX {
        return std::ptr::null_mut();
    }
    SLOT_USED[slot] = true;
    SLOT_NEXT.store((slot + 1) % SLOTS, Ordering::Relaxed);
    let base = pool + slot * SLOT_PAGES * 4096 + 4096;
    if mprotect(base as *mut _, usable, 3) != 0 {
        fatal("simulator", "mprotect");
    }
    // The block ends at the guard page (as far as its alignment allows); sometimes it begins at
    // the lower guard page instead.
    let a = layout.align();
    let low = r & 7 == 7;
    let p = if low {
        base
    } else {
        (base + usable - layout.size()) & !(a - 1)
    };
    std::ptr::write_bytes(base as *mut u8, 0x99, usable);
    let h = Header {
        magic: MAGIC,
        base,
        total: usable,
        size: layout.size(),
        align: a,
        epoch: EPOCH.load(Ordering::Relaxed),
        serial: 0,
        guard: 1 + low as u64,
    };
    // headers of guarded blocks live in a side table
    GHEAD[slot] = h;
    p as *mut u8
}

const EMPTY: Header = Header { magic: 0, base: 0, total: 0, size: 0, align: 0, epoch: 0, serial: 0, guard: 0 };
static mut GHEAD: [Header; SLOTS] = [EMPTY; SLOTS];

fn guard_slot(p: usize) -> Option<usize> {
    let pool = POOL.load(Ordering::Relaxed);
    if pool == 0 || p < pool || p >= pool + SLOTS * SLOT_PAGES * 4096 {
        return None;
    }
    Some((p - pool) / (SLOT_PAGES * 4096))
}

fn bad(kind: &str, h: &Header, what: &str) -> ! {
    let msg = format!("{} (block of {} bytes, align {})", what, h.size, h.align);
    fatal(kind, &msg)
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let armed = ARMED.load(Ordering::Relaxed);
        let mut r = 0;
        let mut serial = 0;
        if armed {
            serial = SERIAL.fetch_add(1, Ordering::Relaxed);
            r = combine(SEED.load(Ordering::Relaxed), serial);
            ALLOCS.fetch_add(1, Ordering::Relaxed);
            if LOGGING.load(Ordering::Relaxed) && LOG_N < LOG.len() {
                LOG[LOG_N] = (crate::sched::steps(), layout.size());
                LOG_N += 1;
            }
            LIVE.fetch_add(1, Ordering::Relaxed);
            LIVE_BYTES.fetch_add(layout.size(), Ordering::Relaxed);
            let gd = GUARD.load(Ordering::Relaxed);
            if gd > 0 && (r >> 32) % gd == 0 {
                let p = guard_alloc(layout, r);
                if !p.is_null() {
                    GUARD_HITS.fetch_add(1, Ordering::Relaxed);
                    std::ptr::write_bytes(p, POISON.load(Ordering::Relaxed) as u8, layout.size());
                    return p;
                }
            }
        }
        let align = layout.align().max(16);
        let pre = HS + RZ;
        let total = pre + align + 128 + layout.size() + RZ;
        let base = System.alloc(Layout::from_size_align_unchecked(total, 64)) as usize;
        if base == 0 {
            return std::ptr::null_mut();
        }
        let mut p = (base + pre + align - 1) & !(align - 1);
        // canonical placement: 64 byte aligned
        if align <= 64 {
            p = (base + pre + 63) & !63;
        }
        if armed && MISALIGN.load(Ordering::Relaxed) && layout.align() < 64 {
            // any address which is legal for the element type
            let a = layout.align();
            let k = (r as usize % 64) / a * a;
            p += k;
            if k % 64 != 0 {
                MISALIGNED.fetch_add(1, Ordering::Relaxed);
            }
        }
        let h = (p - RZ - HS) as *mut Header;
        std::ptr::write_unaligned(
            h,
            Header {
                magic: MAGIC,
                base,
                total,
                size: layout.size(),
                align: layout.align(),
                epoch: if armed { EPOCH.load(Ordering::Relaxed) } else { 0 },
                serial,
                guard: 0,
            },
        );
        for i in 0..RZ {
            *((p - RZ + i) as *mut u8) = redzone_byte(i);
            *((p + layout.size() + i) as *mut u8) = redzone_byte(i);
        }
        if armed {
            std::ptr::write_bytes(p as *mut u8, POISON.load(Ordering::Relaxed) as u8, layout.size());
        }
        p as *mut u8
    }

    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        let p = ptr as usize;
        if let Some(slot) = guard_slot(p) {
            let h = GHEAD[slot];
            if h.magic != MAGIC || !SLOT_USED[slot] {
                bad("memory:double-free", &h, "guarded block freed twice");
            }
            if h.size != layout.size() || h.align != layout.align() {
                bad("memory:layout", &h, "freed with a different layout");
            }
            // slack inside the slot must be untouched
            let base = h.base;
            let end = base + h.total;
            let lo = p.saturating_sub(base).min(256);
            for i in 0..lo {
                if *((p - 1 - i) as *const u8) != 0x99 {
                    bad("memory:red-zone", &h, "write before a block");
                }
            }
            let hi = (end - (p + h.size)).min(256);
            for i in 0..hi {
                if *((p + h.size + i) as *const u8) != 0x99 {
                    bad("memory:red-zone", &h, "write behind a block");
                }
            }
            if h.epoch == EPOCH.load(Ordering::Relaxed) {
                LIVE.fetch_sub(1, Ordering::Relaxed);
                LIVE_BYTES.fetch_sub(h.size, Ordering::Relaxed);
            }
            GHEAD[slot].magic = DEAD;
            mprotect(base as *mut _, h.total, 0);
            SLOT_USED[slot] = false;
            return;
        }
        let hp = (p - RZ - HS) as *mut Header;
        let h = std::ptr::read_unaligned(hp);
        if h.magic != MAGIC {
            if h.magic == DEAD {
                bad("memory:double-free", &h, "block freed twice");
            }
            bad("memory:bad-free", &EMPTY, "freed pointer is no block");
        }
        if h.size != layout.size() || h.align != layout.align() {
            bad("memory:layout", &h, "freed with a different layout");
        }
        for i in 0..RZ {
            if *((p - RZ + i) as *const u8) != redzone_byte(i) {
                bad("memory:red-zone", &h, "write before a block");
            }
            if *((p + h.size + i) as *const u8) != redzone_byte(i) {
                bad("memory:red-zone", &h, "write behind a block");
            }
        }
        if h.epoch != 0 {
            if h.epoch == EPOCH.load(Ordering::Relaxed) {
                LIVE.fetch_sub(1, Ordering::Relaxed);
                LIVE_BYTES.fetch_sub(h.size, Ordering::Relaxed);
            }
            std::ptr::write_bytes(ptr, !(POISON.load(Ordering::Relaxed) as u8), h.size);
        }
        std::ptr::write_unaligned(hp as *mut u64, DEAD);
        System.dealloc(h.base as *mut u8, Layout::from_size_align_unchecked(h.total, 64));
    }

    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        // always moves
        let n = Layout::from_size_align_unchecked(new_size, layout.align());
        let q = self.alloc(n);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(ptr, q, layout.size().min(new_size));
            self.dealloc(ptr, layout);
        }
        q
    }

    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        let p = self.alloc(layout);
        if !p.is_null() {
            std::ptr::write_bytes(p, 0, layout.size());
        }
        p
    }
}

/// The allocations of executions which are repeated to show that they are deterministic
static LOGGING: AtomicBool = AtomicBool::new(false);
static mut LOG: [(u64, usize); 1 << 14] = [(0, 0); 1 << 14];
static mut LOG_N: usize = 0;
pub fn log_start() {
    unsafe { LOG_N = 0 }
    LOGGING.store(true, Ordering::SeqCst);
}
pub fn log_take() -> Vec<(u64, usize)> {
    LOGGING.store(false, Ordering::SeqCst);
    unsafe { LOG[..LOG_N].to_vec() }
}

/// Number of epoch blocks currently alive, listing sizes is left to the harness
pub fn live() -> usize {
    LIVE.load(Ordering::SeqCst)
}
