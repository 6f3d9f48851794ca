//! What a case runs in: counters, the shared result page and the simulated runs.
use simrt::rng::{combine, hash_str};
use simrt::{alloc, calls, sched, sys, Rng};
use std::cell::UnsafeCell;

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub detail: String,
}
pub type Res<X = ()> = Result<X, Violation>;

pub fn violation<X>(class: &str, detail: String) -> Res<X> {
    Err(Violation { class: class.to_string(), detail })
}

macro_rules! counters {
    ($($k:ident),* $(,)?) => {
        #[allow(non_camel_case_types)]
        #[derive(Clone, Copy, PartialEq, Eq, Debug)]
        pub enum C { $($k),* }
        pub const COUNTERS: &[&str] = &[$(stringify!($k)),*];
    }
}
counters! {
    cases, runs, ops, checked, unspecified, rejected, panics_documented, steps, switches, preemptions,
    threads, futex_waits, clock_reads, vtime_us, parallel_ops, refills, comparisons, user_calls,
    nested, fault_user_panic, fault_spawn, fault_spurious_wake, fault_clock_jump, fault_clock_stall, fault_clock_coarse, fault_clock_script,
    fault_store_refused, fault_store_full, fault_dirty_buffer, fault_small_buffer, fault_stale_spare, fault_misaligned,
    fault_guard_page, fault_poison, fault_bad_argument, fault_row, fault_cpu_count, allocations, determinism_checks,
    known_findings, skipped_known, simd_path, unsupported, forks,
}
pub const NC: usize = COUNTERS.len();
pub const BITS: usize = 1 << 22;
pub const MAXV: usize = 48;
pub const CLASS: usize = 192;
pub const DETAIL: usize = 6000;
pub const MAXDEC: usize = 1 << 18;

#[repr(C)]
pub struct VRec {
    pub case: u64,
    pub class_len: u64,
    pub detail_len: u64,
    pub class: [u8; CLASS],
    pub detail: [u8; DETAIL],
}
/// One page per worker shared with the supervisor. It survives the worker.
#[repr(C)]
pub struct Shm {
    pub case: u64,
    pub next: u64,
    pub state: u64,
    pub nviol: u64,
    pub digest: u64,
    pub run: u64,
    pub cnt: [u64; NC],
    pub ops: [u64; 256],
    pub ndec: u64,
    pub ntape: u64,
    pub known: [u64; 64],
    pub viol: [VRec; MAXV],
    pub dec: [(u32, u32, u64); MAXDEC],
    pub tape: [u64; 1 << 16],
    pub bits: [u8; BITS / 8],
    pub cover: [u8; 1 << 18],
    /// distinct interleavings of more than one thread
    pub interleavings: [u8; BITS / 8],
    /// distinct cases which judged something
    pub distinct: [u8; BITS / 8],
    pub log_len: u64,
    pub log: [u8; 1 << 18],
}

pub struct G(UnsafeCell<*mut Shm>);
unsafe impl Sync for G {}
static SHM: G = G(UnsafeCell::new(std::ptr::null_mut()));

#[allow(clippy::mut_from_ref)]
pub fn shm() -> &'static mut Shm {
    unsafe { &mut **SHM.0.get() }
}
pub fn set_shm(p: *mut Shm) {
    unsafe {
        *SHM.0.get() = p;
    }
}
pub fn new_shm() -> *mut Shm {
    let p = unsafe { sys::mmap(std::ptr::null_mut(), std::mem::size_of::<Shm>(), 3, 0x1 | 0x20 | 0x4000, -1, 0) };
    assert!(p as isize != -1);
    p as *mut Shm
}

pub fn push_violation(s: &mut Shm, case: u64, class: &str, detail: &str) {
    if s.nviol as usize >= MAXV {
        return;
    }
    let v = &mut s.viol[s.nviol as usize];
    v.case = case;
    let n = class.len().min(CLASS);
    v.class[..n].copy_from_slice(&class.as_bytes()[..n]);
    v.class_len = n as u64;
    let n = detail.len().min(DETAIL);
    v.detail[..n].copy_from_slice(&detail.as_bytes()[..n]);
    v.detail_len = n as u64;
    s.nviol += 1;
}
pub fn read_violation(v: &VRec) -> (u64, Violation) {
    (
        v.case,
        Violation {
            class: String::from_utf8_lossy(&v.class[..v.class_len as usize]).to_string(),
            detail: String::from_utf8_lossy(&v.detail[..v.detail_len as usize]).to_string(),
        },
    )
}

pub fn bump(c: C, n: u64) {
    shm().cnt[c as usize] += n;
}
/// notes a reached state
pub fn state(h: u64) {
    let i = (simrt::rng::mix(h) % BITS as u64) as usize;
    shm().bits[i / 8] |= 1 << (i % 8);
}
fn set_bit(b: &mut [u8; BITS / 8], h: u64) {
    let i = (simrt::rng::mix(h) % BITS as u64) as usize;
    b[i / 8] |= 1 << (i % 8);
}
/// A case is over: it counts if it judged or compared something
pub fn count_case(judged_before: u64) {
    let s = shm();
    if judged() > judged_before {
        let d = s.digest;
        set_bit(&mut s.distinct, d);
    }
}
pub fn judged() -> u64 {
    let s = shm();
    s.cnt[C::checked as usize] + s.cnt[C::comparisons as usize]
}
pub fn digest(h: u64) {
    let s = shm();
    s.digest = combine(s.digest, h);
    unsafe {
        if TRACING && TRACE_N < TRACE.len() {
            TRACE[TRACE_N] = (h, sched::steps(), alloc::ledger().allocs, [0; 96]);
            TRACE[TRACE_N].3.copy_from_slice(&CONTEXT[..96]);
            TRACE_N += 1;
        }
    }
}
/// What went into the digest, kept where an execution is repeated to show that it is deterministic
pub static mut TRACING: bool = false;
type Entry = (u64, u64, u64, [u8; 96]);
pub static mut TRACE_N: usize = 0;
pub static mut TRACE: [Entry; 1024] = [(0, 0, 0, [0; 96]); 1024];
pub fn trace_start() {
    unsafe {
        TRACING = true;
        TRACE_N = 0;
    }
}
pub fn trace_take() -> Vec<Entry> {
    unsafe {
        TRACING = false;
        TRACE[..TRACE_N].to_vec()
    }
}
pub fn trace_diff(a: &[Entry], b: &[Entry]) -> String {
    for i in 0..a.len().min(b.len()) {
        if (a[i].0, a[i].1, a[i].2) != (b[i].0, b[i].1, b[i].2) {
            return format!(
                "entry {}: {:x} {} steps {} allocations, then {:x} {} steps {} allocations at {}",
                i,
                a[i].0,
                a[i].1,
                a[i].2,
                b[i].0,
                b[i].1,
                b[i].2,
                String::from_utf8_lossy(&b[i].3)
            );
        }
    }
    format!("{} and {} entries", a.len(), b.len())
}

/// Heap used by the harness itself is not part of the simulated heap.
pub fn outside<X>(f: impl FnOnce() -> X) -> X {
    let p = alloc::pause();
    sched::harness_begin();
    let r = f();
    sched::harness_end();
    alloc::resume(p);
    r
}

pub fn log(f: impl FnOnce() -> String) {
    if unsafe { LOGGING } {
        outside(|| {
            let t = f();
            let s = shm();
            let room = s.log.len() - s.log_len as usize;
            let n = (t.len() + 1).min(room);
            if n > 1 {
                let o = s.log_len as usize;
                s.log[o..o + n - 1].copy_from_slice(&t.as_bytes()[..n - 1]);
                s.log[o + n - 1] = b'\n';
                s.log_len += n as u64;
            }
        })
    }
}
pub static mut LOGGING: bool = false;

/// Name of the operation which is being executed: attributes fatal conditions
static mut CONTEXT: [u8; 256] = [0; 256];
static mut CONTEXT_LEN: usize = 0;
pub fn context(t: &str) {
    let n = t.len().min(256);
    unsafe {
        std::ptr::copy_nonoverlapping(t.as_ptr(), std::ptr::addr_of_mut!(CONTEXT) as *mut u8, n);
        CONTEXT_LEN = n;
    }
}
pub fn get_context() -> String {
    unsafe {
        let s = std::slice::from_raw_parts(std::ptr::addr_of!(CONTEXT) as *const u8, CONTEXT_LEN);
        String::from_utf8_lossy(s).to_string()
    }
}

#[derive(Clone)]
pub struct RunCfg {
    pub sched: sched::Config,
    pub alloc: alloc::AllocConfig,
    pub armed: bool,
    /// one in how many calls of a user function uses the library itself, 0: none
    pub nest: u32,
}
impl RunCfg {
    pub fn plain() -> RunCfg {
        RunCfg { sched: sched::Config::plain(), alloc: alloc::AllocConfig::plain(), armed: true, nest: 0 }
    }
}

pub struct Env {
    /// recorded scheduling decisions to be replayed instead of the strategy, per run
    pub overrides: Option<Vec<Vec<(u64, u32)>>>,
    pub run: usize,
    pub known: Vec<String>,
    pub deep: bool,
    pub variant: String,
}

pub struct RunOut {
    pub stats: sched::RunStats,
    pub ledger: alloc::Ledger,
}

impl Env {
    pub fn new(known: Vec<String>, deep: bool, variant: &str) -> Env {
        Env { overrides: None, run: 0, known, deep, variant: variant.to_string() }
    }
    /// for use inside of a run
    pub fn inner(&self) -> Env {
        outside(|| Env { overrides: None, run: 0, known: self.known.clone(), deep: self.deep, variant: self.variant.clone() })
    }
    /// A violation which is listed as a known finding is noted and otherwise ignored
    pub fn report(&mut self, class: &str, detail: impl FnOnce() -> String) -> Res {
        let full = class.to_string();
        if let Some(i) = self.known.iter().position(|k| *k == full) {
            bump(C::known_findings, 1);
            if i < 64 {
                shm().known[i] += 1;
            }
            return Ok(());
        }
        Err(Violation { class: full, detail: detail() })
    }

    /// One simulated run. `f` must drop everything it allocated, apart from its result which must
    /// be allocated `outside`.
    pub fn simulate<X>(&mut self, cfg: &RunCfg, f: impl FnOnce() -> X) -> (X, RunOut) {
        let mut sc = cfg.sched.clone();
        if let Some(ref o) = self.overrides {
            sc.strategy = sched::Strategy::Replay;
            sc.decisions = o.get(self.run).cloned().unwrap_or_default();
        }
        let run = self.run;
        self.run += 1;
        shm().run = run as u64;
        calls::begin(false);
        calls::disarm_panic();
        calls::store_reset();
        subject::funcs::NEST.store(cfg.nest, std::sync::atomic::Ordering::Relaxed);
        subject::funcs::NESTED.store(0, std::sync::atomic::Ordering::Relaxed);
        // every run starts on a fresh thread: nothing which is kept per thread (hash keys, lazily
        // created thread locals) survives into the next one
        let mut f = Some(f);
        let mut result = None;
        sched::on_fresh_thread(&mut || {
            set_signal_stack();
            let f = f.take().unwrap();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                if cfg.armed {
                    alloc::arm(&cfg.alloc);
                }
                sched::begin(&sc);
                let x = f();
                let was = alloc::pause();
                let stats = sched::end();
                alloc::resume(was);
                let ledger = alloc::ledger();
                alloc::disarm();
                (x, stats, ledger)
            }));
            result = Some(r);
        });
        let (x, stats, ledger) = match result.expect("simulated run") {
            Ok(r) => r,
            Err(_) => fatal_handler("simulator", &format!("the harness panicked: {}", take_panic())),
        };
        calls::close();
        subject::funcs::NEST.store(0, std::sync::atomic::Ordering::Relaxed);
        bump(C::nested, subject::funcs::NESTED.load(std::sync::atomic::Ordering::Relaxed));
        drop(sc);
        record_decisions(run as u32);
        bump(C::runs, 1);
        bump(C::steps, stats.steps);
        bump(C::switches, stats.switches);
        bump(C::preemptions, stats.preemptions);
        bump(C::threads, stats.spawns);
        bump(C::futex_waits, stats.futex_waits);
        bump(C::clock_reads, stats.clock_reads);
        bump(C::vtime_us, stats.vtime_ns / 1000);
        bump(C::fault_spawn, stats.spawn_faults);
        bump(C::fault_spurious_wake, stats.spurious);
        bump(C::fault_clock_jump, stats.clock_jumps);
        if cfg.armed {
            bump(C::allocations, ledger.allocs);
            bump(C::fault_guard_page, ledger.guarded);
            bump(C::fault_misaligned, ledger.misaligned);
        }
        if stats.spawns > 0 {
            set_bit(&mut shm().interleavings, stats.schedule_hash);
        }
        digest(stats.schedule_hash);
        digest(stats.steps);
        digest(ledger.allocs);
        (x, RunOut { stats, ledger })
    }
}

pub fn record_decisions(run: u32) {
    let s = shm();
    for (i, c) in sched::decisions() {
        let n = s.ndec as usize;
        if n >= MAXDEC {
            break;
        }
        s.dec[n] = (run, *c, *i);
        s.ndec += 1;
    }
}

// ------------------------------------------------------------------------------------------
// panics

static mut LAST_PANIC: [u8; 512] = [0; 512];
static mut LAST_PANIC_LEN: usize = 0;
static mut PANICS: u64 = 0;
static mut FIRST_PANIC_LEN: usize = 0;

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let p = alloc::pause();
        {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".to_string()
            };
            let loc = info
                .location()
                .map(|l| {
                    let f = l.file();
                    let f = f.rsplit("/repo/").next().unwrap_or(f);
                    format!(" at {}:{}", f, l.line())
                })
                .unwrap_or_default();
            let t = format!("{}{}", msg.replace('\n', " "), loc);
            unsafe {
                PANICS += 1;
                // the first one is the cause
                if FIRST_PANIC_LEN == 0 {
                    let n = t.len().min(512);
                    std::ptr::copy_nonoverlapping(t.as_ptr(), std::ptr::addr_of_mut!(LAST_PANIC) as *mut u8, n);
                    LAST_PANIC_LEN = n;
                    FIRST_PANIC_LEN = n;
                }
            }
        }
        alloc::resume(p);
    }));
}
/// message of the first panic since the last call
pub fn take_panic() -> String {
    unsafe {
        let s = std::slice::from_raw_parts(std::ptr::addr_of!(LAST_PANIC) as *const u8, LAST_PANIC_LEN);
        let t = String::from_utf8_lossy(s).to_string();
        FIRST_PANIC_LEN = 0;
        LAST_PANIC_LEN = 0;
        t
    }
}
pub fn reset_panic() {
    unsafe {
        FIRST_PANIC_LEN = 0;
        LAST_PANIC_LEN = 0;
    }
}

// ------------------------------------------------------------------------------------------
// fatal conditions end the process after leaving a note

fn fatal_handler(kind: &str, detail: &str) -> ! {
    alloc::disarm();
    let s = shm();
    let d = format!("{} while executing {}", detail, get_context());
    let op = get_context();
    let op = op.split('(').next().unwrap_or("").rsplit('.').next().unwrap_or("").to_string();
    record_decisions(s.run as u32);
    push_violation(s, s.case, &format!("{}:{}", kind, op), &d);
    s.state = 2;
    unsafe { sys::_exit(71) }
}

extern "C" fn on_signal(sig: i32) {
    let k = match sig {
        11 | 7 => "memory:invalid-access",
        6 => "abort",
        14 => "hang",
        4 => "illegal-instruction",
        8 => "arithmetic-fault",
        _ => "signal",
    };
    fatal_handler(k, &format!("signal {}", sig))
}

static mut SIGNAL_STACK: usize = 0;
const SIGNAL_STACK_SIZE: usize = 1 << 18;
/// only one thread of the harness runs at a time
fn set_signal_stack() {
    unsafe {
        let ss = sys::StackT { sp: SIGNAL_STACK as *mut _, flags: 0, size: SIGNAL_STACK_SIZE };
        sys::sigaltstack(&ss, std::ptr::null_mut());
    }
}

pub fn install_fatal() {
    sched::set_fatal(fatal_handler);
    unsafe {
        SIGNAL_STACK = sys::mmap(std::ptr::null_mut(), SIGNAL_STACK_SIZE, 3, 0x2 | 0x20, -1, 0) as usize;
        set_signal_stack();
        for sig in [11, 7, 6, 4, 8, 14] {
            let sa = sys::SigAction { handler: on_signal as usize, mask: [0; 16], flags: 0x08000000 | 0x40000000, restorer: 0 };
            sys::sigaction(sig, &sa, std::ptr::null_mut());
        }
    }
}

pub fn op_hash(name: &str) -> u64 {
    hash_str(name)
}
pub fn rng(seed: u64) -> Rng {
    Rng::new(seed)
}
