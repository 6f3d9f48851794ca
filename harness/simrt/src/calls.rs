//! Record of the calls the library makes to user supplied functions, and the place where such a
//! function is made to fail.
use std::cell::UnsafeCell;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Call {
    pub kind: u8,
    pub id: u8,
    pub a: u64,
    pub b: u64,
    pub c: u64,
}

pub const MAP: u8 = 1;
pub const AGGMAP: u8 = 2;
pub const AGG: u8 = 3;
pub const WIN: u8 = 4;
pub const IMP: u8 = 5;
pub const IMPC: u8 = 6;
pub const FRQ: u8 = 7;
pub const FRQC: u8 = 8;

pub const CAP: usize = 1 << 17;

struct State {
    log: Vec<Call>,
    n: usize,
    logging: bool,
    open: bool,
    late: u64,
    count: u64,
    panic_at: u64,
    panics: u64,
}
struct G(UnsafeCell<State>);
unsafe impl Sync for G {}
static S: G = G(UnsafeCell::new(State {
    log: Vec::new(),
    n: 0,
    logging: false,
    open: false,
    late: 0,
    count: 0,
    panic_at: u64::MAX,
    panics: 0,
}));

#[allow(clippy::mut_from_ref)]
fn g() -> &'static mut State {
    unsafe { &mut *S.0.get() }
}

/// Must be called once before a simulation starts: the log must not allocate later on
pub fn init() {
    g().log = vec![Call { kind: 0, id: 0, a: 0, b: 0, c: 0 }; CAP];
}

pub fn begin(logging: bool) {
    let s = g();
    s.n = 0;
    s.logging = logging;
    s.open = true;
    s.late = 0;
    s.count = 0;
    s.panics = 0;
}
/// A further operation starts: the log begins anew, counts go on
pub fn open(logging: bool) {
    let s = g();
    s.n = 0;
    s.logging = logging;
    s.open = true;
}
/// The operation returned; calls from now on are late
pub fn close() {
    g().open = false;
}
pub fn arm_panic(at: u64) {
    g().panic_at = at;
}
pub fn disarm_panic() {
    g().panic_at = u64::MAX;
}
pub fn panics() -> u64 {
    g().panics
}
pub fn count() -> u64 {
    g().count
}
pub fn late() -> u64 {
    g().late
}
pub fn overflow() -> bool {
    g().n > CAP
}
pub fn log() -> &'static [Call] {
    let s = g();
    &s.log[0..s.n.min(CAP)]
}

/// Notes a call; true asks the caller to panic
#[inline(never)]
pub fn record(kind: u8, id: u8, a: u64, b: u64, c: u64) -> bool {
    let s = g();
    if !s.open {
        s.late += 1;
    }
    if s.logging {
        if s.n < CAP {
            s.log[s.n] = Call { kind, id, a, b, c };
        }
        s.n += 1;
    }
    let k = s.count;
    s.count += 1;
    if k == s.panic_at {
        s.panics += 1;
        return true;
    }
    false
}

/// Fault plan for storages: resize requests from..from+n are refused
struct StoreState {
    requests: u64,
    from: u64,
    n: u64,
    refused: u64,
}
struct SG(UnsafeCell<StoreState>);
unsafe impl Sync for SG {}
static SS: SG = SG(UnsafeCell::new(StoreState { requests: 0, from: u64::MAX, n: 0, refused: 0 }));
pub fn store_arm(from_now: u64, n: u64) {
    let s = unsafe { &mut *SS.0.get() };
    s.from = s.requests.saturating_add(from_now);
    s.n = n;
}
pub fn store_disarm() {
    let s = unsafe { &mut *SS.0.get() };
    s.from = u64::MAX;
    s.n = 0;
}
pub fn store_reset() {
    let s = unsafe { &mut *SS.0.get() };
    *s = StoreState { requests: 0, from: u64::MAX, n: 0, refused: 0 };
}
pub fn store_refused() -> u64 {
    unsafe { (*SS.0.get()).refused }
}
/// a storage wants to grow: false refuses
pub fn store_grow() -> bool {
    let s = unsafe { &mut *SS.0.get() };
    let r = s.requests;
    s.requests += 1;
    if r >= s.from && r - s.from < s.n {
        s.refused += 1;
        return false;
    }
    true
}
