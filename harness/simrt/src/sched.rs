//! The scheduler: real threads, of which exactly one runs at a time. Which one is decided here,
//! from a PRNG or from a recorded list of decisions.
use crate::rng::{combine, Rng};
use crate::sys::*;
use std::cell::UnsafeCell;
use std::ffi::c_void;
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};

pub const MAXT: usize = 1024;
pub const MAX_DECISIONS: usize = 1 << 17;
pub const MAX_TRACE: usize = 4096;
pub const MAX_GUARDS: usize = 1 << 20;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St {
    Free,
    Runnable,
    Futex { addr: usize, deadline: u64 },
    Sleep { deadline: u64 },
    Join(usize),
    Finished,
}

pub struct Thr {
    pub state: St,
    sem: AtomicU32,
    start: usize,
    arg: usize,
    pth: usize,
    parent: usize,
    detached: bool,
    prio: u64,
    timed_out: bool,
    pub kids_alive: usize,
    pub kids_max: usize,
    pub kids_spawned: usize,
}

impl Thr {
    const fn new() -> Thr {
        Thr {
            state: St::Free,
            sem: AtomicU32::new(0),
            start: 0,
            arg: 0,
            pth: 0,
            parent: 0,
            detached: false,
            prio: 0,
            timed_out: false,
            kids_alive: 0,
            kids_max: 0,
            kids_spawned: 0,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Strategy {
    /// never preempts, random thread at blocking points
    Cooperative,
    /// preempts with probability 1/n at every yield point
    Random(u64),
    /// random priorities, changed at some points (1/n per yield point)
    Priority(u64),
    /// switches at each yield point in order
    RoundRobin,
    /// youngest thread first
    Lifo,
    /// decisions come from a recorded list, 0 otherwise
    Replay,
}

#[derive(Clone, Debug)]
pub struct ClockModel {
    /// ns per simulated step
    pub step_ns: u64,
    /// clock resolution in ns
    pub resolution: u64,
    /// probability 1/n (0 = never) that a read jumps forward
    pub jump_one_in: u64,
    pub jump_max: u64,
    /// the clock makes no progress at all
    pub stalled: bool,
    /// ns per read
    pub read_ns: u64,
    /// every second interval between two reads takes as long as listed here, nothing else takes time
    pub script: [u64; 32],
    pub script_n: usize,
}

impl ClockModel {
    pub fn normal() -> ClockModel {
        ClockModel { step_ns: 10, resolution: 1, jump_one_in: 0, jump_max: 0, stalled: false, read_ns: 25, script: [0; 32], script_n: 0 }
    }
}

#[derive(Clone, Debug)]
pub struct Config {
    pub strategy: Strategy,
    pub seed: u64,
    pub decisions: Vec<(u64, u32)>,
    pub step_limit: u64,
    pub clock: ClockModel,
    pub ncpu: usize,
    /// probability 1/n that a futex wait wakes spuriously (0 = never)
    pub spurious_one_in: u64,
}

impl Config {
    pub fn plain() -> Config {
        Config {
            strategy: Strategy::Cooperative,
            seed: 1,
            decisions: Vec::new(),
            step_limit: 200_000_000,
            clock: ClockModel::normal(),
            ncpu: 8,
            spurious_one_in: 0,
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct RunStats {
    pub steps: u64,
    pub switches: u64,
    pub preemptions: u64,
    pub spawns: u64,
    pub spawn_faults: u64,
    pub futex_waits: u64,
    pub spurious: u64,
    pub clock_reads: u64,
    pub clock_jumps: u64,
    pub vtime_ns: u64,
    pub schedule_hash: u64,
    pub n_decisions: usize,
    pub threads_left: usize,
    pub max_alive: usize,
}

struct Sim {
    cur: usize,
    n: usize,
    alive: usize,
    max_alive: usize,
    runnable: usize,
    rng: Rng,
    /// decides what isn't a scheduling decision, so that replaying other decisions keeps it
    aux: Rng,
    strategy: Strategy,
    replay_pos: usize,
    decisions_in: Vec<(u64, u32)>,
    dec_idx: u64,
    dec_out: [(u64, u32); MAX_DECISIONS],
    dec_n: usize,
    steps: u64,
    step_limit: u64,
    vclock: u64,
    last_clock: u64,
    clock: ClockModel,
    ncpu: usize,
    spurious: u64,
    // spawn faults
    spawn_count: u64,
    spawn_fail_from: u64,
    spawn_fail_n: u64,
    // stats
    switches: u64,
    preemptions: u64,
    spawns: u64,
    spawn_faults: u64,
    futex_waits: u64,
    spurious_fired: u64,
    clock_reads: u64,
    clock_jumps: u64,
    hash: u64,
    trace: [(u64, u16, u16, u32); MAX_TRACE],
    trace_n: usize,
    site: u32,
    t: [Thr; MAXT],
}

struct Global(UnsafeCell<Sim>);
unsafe impl Sync for Global {}

const THR: Thr = Thr::new();
static G: Global = Global(UnsafeCell::new(Sim {
    cur: 0,
    n: 0,
    alive: 0,
    max_alive: 0,
    runnable: 0,
    rng: Rng::new(0),
    aux: Rng::new(0),
    strategy: Strategy::Cooperative,
    replay_pos: 0,
    decisions_in: Vec::new(),
    dec_idx: 0,
    dec_out: [(0, 0); MAX_DECISIONS],
    dec_n: 0,
    steps: 0,
    step_limit: u64::MAX,
    vclock: 0,
    last_clock: 0,
    clock: ClockModel { step_ns: 10, resolution: 1, jump_one_in: 0, jump_max: 0, stalled: false, read_ns: 25, script: [0; 32], script_n: 0 },
    ncpu: 8,
    spurious: 0,
    spawn_count: 0,
    spawn_fail_from: u64::MAX,
    spawn_fail_n: 0,
    switches: 0,
    preemptions: 0,
    spawns: 0,
    spawn_faults: 0,
    futex_waits: 0,
    spurious_fired: 0,
    clock_reads: 0,
    clock_jumps: 0,
    hash: 0,
    trace: [(0, 0, 0, 0); MAX_TRACE],
    trace_n: 0,
    site: 0,
    t: [THR; MAXT],
}));

static ACTIVE: AtomicBool = AtomicBool::new(false);
static KEY_READY: AtomicBool = AtomicBool::new(false);
static mut KEY: u32 = 0;
static mut FATAL: fn(&str, &str) -> ! = default_fatal;

fn default_fatal(kind: &str, detail: &str) -> ! {
    eprintln!("FATAL {} {}", kind, detail);
    unsafe { _exit(70) }
}

pub fn set_fatal(f: fn(&str, &str) -> !) {
    unsafe { FATAL = f }
}
pub fn fatal(kind: &str, detail: &str) -> ! {
    unsafe { FATAL(kind, detail) }
}

#[allow(clippy::mut_from_ref)]
#[inline(always)]
fn g() -> &'static mut Sim {
    unsafe { &mut *G.0.get() }
}

#[inline(always)]
pub fn active() -> bool {
    ACTIVE.load(Ordering::Relaxed)
}

// ---------------------------------------------------------------------------------------------
// control interface used by the harness (always called by the thread which holds the baton)

pub fn begin(cfg: &Config) {
    assert!(!active());
    let s = g();
    for t in s.t.iter_mut() {
        t.state = St::Free;
        t.sem.store(0, Ordering::SeqCst);
        t.kids_alive = 0;
        t.kids_max = 0;
        t.kids_spawned = 0;
    }
    s.cur = 0;
    s.n = 1;
    s.alive = 1;
    s.max_alive = 1;
    s.runnable = 1;
    s.t[0].state = St::Runnable;
    s.t[0].prio = 1 << 40;
    s.rng = Rng::new(cfg.seed);
    s.aux = Rng::new(combine(cfg.seed, 77));
    s.strategy = cfg.strategy.clone();
    s.decisions_in = cfg.decisions.clone();
    s.replay_pos = 0;
    s.dec_idx = 0;
    s.dec_n = 0;
    s.steps = 0;
    s.step_limit = cfg.step_limit;
    s.vclock = 1_000_000_000;
    s.last_clock = 0;
    s.clock = cfg.clock.clone();
    s.ncpu = cfg.ncpu;
    s.spurious = cfg.spurious_one_in;
    s.spawn_count = 0;
    s.spawn_fail_from = u64::MAX;
    s.spawn_fail_n = 0;
    s.switches = 0;
    s.preemptions = 0;
    s.spawns = 0;
    s.spawn_faults = 0;
    s.futex_waits = 0;
    s.spurious_fired = 0;
    s.clock_reads = 0;
    s.clock_jumps = 0;
    s.hash = 0;
    s.trace_n = 0;
    s.site = 0;
    RANDOM.store(0, Ordering::SeqCst);
    ACTIVE.store(true, Ordering::SeqCst);
}

/// Ends the run. All other threads must have finished by then, otherwise the number of left over
/// threads is reported (they are then never scheduled again).
pub fn end() -> RunStats {
    let s = g();
    // Give detached/left over runnable threads the chance to finish.
    let mut guard = 0;
    while s.runnable > 1 && guard < 1_000_000 {
        give_way(s, u32::MAX);
        guard += 1;
    }
    let left = (1..s.n).filter(|i| !matches!(s.t[*i].state, St::Free | St::Finished)).count();
    ACTIVE.store(false, Ordering::SeqCst);
    let r = RunStats {
        steps: s.steps,
        switches: s.switches,
        preemptions: s.preemptions,
        spawns: s.spawns,
        spawn_faults: s.spawn_faults,
        futex_waits: s.futex_waits,
        spurious: s.spurious_fired,
        clock_reads: s.clock_reads,
        clock_jumps: s.clock_jumps,
        vtime_ns: s.vclock - 1_000_000_000,
        schedule_hash: s.hash,
        n_decisions: s.dec_n,
        threads_left: left,
        max_alive: s.max_alive,
    };
    s.decisions_in = Vec::new();
    r
}

/// the choices of the current or last run which differ from the default
pub fn decisions() -> &'static [(u64, u32)] {
    let s = g();
    &s.dec_out[0..s.dec_n]
}
pub fn decisions_overflow() -> bool {
    g().dec_n >= MAX_DECISIONS
}

pub fn trace() -> Vec<String> {
    let s = g();
    s.trace[0..s.trace_n]
        .iter()
        .map(|(step, a, b, site)| format!("step {} thread {} -> {} at site {}", step, a, b, site))
        .collect()
}

pub fn current() -> usize {
    g().cur
}
pub fn steps() -> u64 {
    g().steps
}
pub fn vnow() -> u64 {
    g().vclock
}
/// Mutes the scheduler's preemptions (e.g. while the harness inspects state)
pub fn set_strategy(st: Strategy) -> Strategy {
    std::mem::replace(&mut g().strategy, st)
}
/// The spawns from_now..from_now+n fail with EAGAIN
pub fn arm_spawn_failure(from_now: u64, n: u64) {
    let s = g();
    s.spawn_fail_from = s.spawn_count + from_now;
    s.spawn_fail_n = n;
}
pub fn disarm_spawn_failure() {
    let s = g();
    s.spawn_fail_from = u64::MAX;
    s.spawn_fail_n = 0;
}
pub fn spawn_faults() -> u64 {
    g().spawn_faults
}
/// (alive, max alive, spawned) children of the calling thread since the last reset
pub fn kids() -> (usize, usize, usize) {
    let s = g();
    let t = &s.t[s.cur];
    (t.kids_alive, t.kids_max, t.kids_spawned)
}
pub fn reset_kids() {
    let s = g();
    let c = s.cur;
    s.t[c].kids_max = s.t[c].kids_alive;
    s.t[c].kids_spawned = 0;
}
pub fn set_ncpu(n: usize) {
    g().ncpu = n;
}

// ---------------------------------------------------------------------------------------------
// core

fn decide(s: &mut Sim, n_choices: u32, forced: bool, cur_slot: usize, cands: &dyn Fn(&Sim, u32) -> usize) -> u32 {
    // choice 0 is the default: continue (if not forced) or lowest thread id (if forced)
    let idx = s.dec_idx;
    s.dec_idx += 1;
    let choice = match s.strategy {
        Strategy::Replay => {
            while s.replay_pos < s.decisions_in.len() && s.decisions_in[s.replay_pos].0 < idx {
                s.replay_pos += 1;
            }
            if s.replay_pos < s.decisions_in.len() && s.decisions_in[s.replay_pos].0 == idx {
                s.decisions_in[s.replay_pos].1 % n_choices
            } else {
                0
            }
        }
        Strategy::Cooperative => {
            if forced {
                s.rng.below(n_choices as u64) as u32
            } else {
                0
            }
        }
        Strategy::Random(p) => {
            if forced {
                s.rng.below(n_choices as u64) as u32
            } else if s.rng.below(p) == 0 {
                1 + s.rng.below(n_choices as u64 - 1) as u32
            } else {
                0
            }
        }
        Strategy::Priority(p) => {
            if s.rng.below(p) == 0 {
                let low = s.rng.below(1 << 20);
                s.t[cur_slot].prio = low;
            }
            let mut best = 0;
            let mut bestp = 0;
            for c in 0..n_choices {
                let t = cands(s, c);
                if s.t[t].prio >= bestp {
                    bestp = s.t[t].prio;
                    best = c;
                }
            }
            best
        }
        Strategy::RoundRobin => {
            // next higher slot, cyclic
            let mut best = 0;
            let mut bestd = usize::MAX;
            for c in 0..n_choices {
                let t = cands(s, c);
                let d = (t + MAXT - cur_slot - 1) % MAXT;
                if d < bestd {
                    bestd = d;
                    best = c;
                }
            }
            best
        }
        Strategy::Lifo => {
            let mut best = 0;
            let mut bt = 0;
            for c in 0..n_choices {
                let t = cands(s, c);
                if t >= bt {
                    bt = t;
                    best = c;
                }
            }
            best
        }
    };
    if choice != 0 {
        if s.dec_n < MAX_DECISIONS {
            s.dec_out[s.dec_n] = (idx, choice);
            s.dec_n += 1;
        }
    }
    choice
}

/// k-th runnable thread which isn't `not`
fn nth_runnable(s: &Sim, k: usize, not: usize) -> usize {
    let mut i = 0;
    for t in 0..s.n {
        if t != not && s.t[t].state == St::Runnable {
            if i == k {
                return t;
            }
            i += 1;
        }
    }
    fatal("simulator", "nth_runnable");
}

fn switch_to(s: &mut Sim, next: usize, wait: bool) {
    let me = s.cur;
    s.switches += 1;
    s.hash = combine(s.hash, (me as u64) << 48 | (next as u64) << 32 | s.site as u64);
    if s.trace_n < MAX_TRACE {
        s.trace[s.trace_n] = (s.steps, me as u16, next as u16, s.site);
        s.trace_n += 1;
    }
    s.cur = next;
    let p = &s.t[next].sem as *const AtomicU32;
    unsafe {
        (*p).store(1, Ordering::Release);
        futex_wake(p as *const u32);
    }
    if wait {
        wait_baton(me);
    }
}

fn wait_baton(me: usize) {
    let p = &g().t[me].sem as *const AtomicU32;
    unsafe {
        while (*p).swap(0, Ordering::Acquire) == 0 {
            futex_wait(p as *const u32, 0);
        }
    }
}

fn tick(s: &mut Sim) {
    s.steps += 1;
    s.vclock += s.clock.step_ns;
    if s.steps > s.step_limit {
        fatal("no-progress", "step budget exhausted");
    }
}

#[inline]
pub fn yield_point(site: u32) {
    if !active() {
        return;
    }
    let s = g();
    tick(s);
    if s.runnable <= 1 {
        return;
    }
    yield_slow(s, site);
}

#[cold]
fn yield_slow(s: &mut Sim, site: u32) {
    s.site = site;
    let me = s.cur;
    let n = s.runnable as u32;
    let c = decide(s, n, false, me, &|s, c| if c == 0 { me } else { nth_runnable(s, c as usize - 1, me) });
    if c == 0 {
        return;
    }
    let next = nth_runnable(s, c as usize - 1, me);
    if next == me {
        return;
    }
    s.preemptions += 1;
    switch_to(s, next, true);
}

/// The current thread cannot continue (its state has been set by the caller)
fn block(s: &mut Sim, wait: bool) {
    loop {
        if s.runnable > 0 {
            break;
        }
        // advance the clock to the next deadline
        let mut best: Option<(u64, usize)> = None;
        for i in 0..s.n {
            let d = match s.t[i].state {
                St::Futex { deadline, .. } => deadline,
                St::Sleep { deadline } => deadline,
                _ => u64::MAX,
            };
            if d != u64::MAX && (best.is_none() || d < best.unwrap().0) {
                best = Some((d, i));
            }
        }
        match best {
            Some((d, i)) => {
                if d > s.vclock {
                    s.vclock = d;
                }
                s.t[i].timed_out = true;
                make_runnable(s, i);
            }
            None => fatal("deadlock", "no thread can make progress"),
        }
    }
    let me = s.cur;
    let n = s.runnable as u32;
    let c = if n > 1 { decide(s, n, true, me, &|s, c| nth_runnable(s, c as usize, usize::MAX)) } else { 0 };
    let next = nth_runnable(s, c as usize, usize::MAX);
    if next == me {
        return;
    }
    switch_to(s, next, wait);
}

fn make_runnable(s: &mut Sim, i: usize) {
    if s.t[i].state != St::Runnable {
        s.t[i].state = St::Runnable;
        s.runnable += 1;
    }
}

fn set_blocked(s: &mut Sim, st: St) {
    let me = s.cur;
    s.t[me].state = st;
    s.runnable -= 1;
}

// ---------------------------------------------------------------------------------------------
// interposed symbols

type PthreadCreate = unsafe extern "C" fn(*mut usize, *const c_void, extern "C" fn(*mut c_void) -> *mut c_void, *mut c_void) -> i32;
type PthreadJoin = unsafe extern "C" fn(usize, *mut *mut c_void) -> i32;
type PthreadDetach = unsafe extern "C" fn(usize) -> i32;

extern "C" {
    fn pthread_key_create(key: *mut u32, dtor: Option<unsafe extern "C" fn(*mut c_void)>) -> i32;
    fn pthread_setspecific(key: u32, v: *const c_void) -> i32;
}

static mut REAL_CREATE: Option<PthreadCreate> = None;
static mut REAL_JOIN: Option<PthreadJoin> = None;
static mut REAL_DETACH: Option<PthreadDetach> = None;

/// Must be called once before the first run
pub fn init() {
    unsafe {
        if KEY_READY.load(Ordering::SeqCst) {
            return;
        }
        REAL_CREATE = Some(std::mem::transmute(next_sym(b"pthread_create\0")));
        REAL_JOIN = Some(std::mem::transmute(next_sym(b"pthread_join\0")));
        REAL_DETACH = Some(std::mem::transmute(next_sym(b"pthread_detach\0")));
        let mut k = 0u32;
        if pthread_key_create(&mut k, Some(thread_end)) != 0 {
            fatal("simulator", "pthread_key_create");
        }
        KEY = k;
        KEY_READY.store(true, Ordering::SeqCst);
    }
}

extern "C" fn fresh_main(p: *mut c_void) -> *mut c_void {
    let f = unsafe { &mut *(p as *mut &mut dyn FnMut()) };
    f();
    std::ptr::null_mut()
}
/// Calls `f`, which must not unwind, on a thread of its own. The calling thread sleeps meanwhile
/// and executes nothing that the simulator could see.
pub fn on_fresh_thread(mut f: &mut dyn FnMut()) {
    assert!(!active());
    unsafe {
        let mut th = 0usize;
        let p = &mut f as *mut &mut dyn FnMut() as *mut c_void;
        if REAL_CREATE.unwrap()(&mut th, std::ptr::null(), fresh_main, p) != 0 {
            fatal("simulator", "pthread_create");
        }
        REAL_JOIN.unwrap()(th, std::ptr::null_mut());
    }
}

extern "C" fn thread_main(slot: *mut c_void) -> *mut c_void {
    let slot = slot as usize;
    unsafe {
        pthread_setspecific(KEY, 1 as *const c_void);
    }
    wait_baton(slot);
    let (start, arg) = {
        let t = &g().t[slot];
        (t.start, t.arg)
    };
    let f: extern "C" fn(*mut c_void) -> *mut c_void = unsafe { std::mem::transmute(start) };
    f(arg as *mut c_void)
}

/// Runs after all thread local destructors of the thread (which still hold the baton)
unsafe extern "C" fn thread_end(v: *mut c_void) {
    let round = v as usize;
    if round < 3 {
        pthread_setspecific(KEY, (round + 1) as *const c_void);
        return;
    }
    if !active() {
        return;
    }
    let s = g();
    let me = s.cur;
    s.site = 0xffff_fffe;
    let parent = s.t[me].parent;
    s.t[parent].kids_alive -= 1;
    s.alive -= 1;
    s.runnable -= 1;
    s.t[me].state = if s.t[me].detached { St::Free } else { St::Finished };
    for i in 0..s.n {
        if s.t[i].state == St::Join(me) {
            make_runnable(s, i);
        }
    }
    block(s, false);
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    th: *mut usize,
    attr: *const c_void,
    start: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
) -> i32 {
    if !active() {
        return match REAL_CREATE {
            Some(f) => f(th, attr, start, arg),
            None => {
                let f: PthreadCreate = std::mem::transmute(next_sym(b"pthread_create\0"));
                f(th, attr, start, arg)
            }
        };
    }
    yield_point(0xffff_fff0);
    let s = g();
    let idx = s.spawn_count;
    s.spawn_count += 1;
    if idx >= s.spawn_fail_from && idx - s.spawn_fail_from < s.spawn_fail_n {
        s.spawn_faults += 1;
        return 11; // EAGAIN
    }
    let mut slot = usize::MAX;
    for i in 1..MAXT {
        if s.t[i].state == St::Free {
            slot = i;
            break;
        }
    }
    if slot == usize::MAX {
        return 11;
    }
    if slot >= s.n {
        s.n = slot + 1;
    }
    let me = s.cur;
    let prio = (1 << 30) + s.aux.below(1 << 30);
    {
        let t = &mut s.t[slot];
        t.sem.store(0, Ordering::SeqCst);
        t.start = start as usize;
        t.arg = arg as usize;
        t.parent = me;
        t.detached = false;
        t.prio = prio;
        t.timed_out = false;
        t.kids_alive = 0;
        t.kids_max = 0;
        t.kids_spawned = 0;
    }
    let mut pth = 0usize;
    let r = (REAL_CREATE.unwrap())(&mut pth, attr, thread_main, slot as *mut c_void);
    if r != 0 {
        fatal("simulator", "real thread creation failed");
    }
    let s = g();
    s.t[slot].pth = pth;
    *th = pth;
    s.spawns += 1;
    s.alive += 1;
    if s.alive > s.max_alive {
        s.max_alive = s.alive;
    }
    make_runnable(s, slot);
    let t = &mut s.t[me];
    t.kids_alive += 1;
    t.kids_spawned += 1;
    if t.kids_alive > t.kids_max {
        t.kids_max = t.kids_alive;
    }
    yield_point(0xffff_fff1);
    0
}

fn slot_of(s: &Sim, pth: usize) -> Option<usize> {
    (1..s.n).find(|i| s.t[*i].pth == pth && s.t[*i].state != St::Free && !s.t[*i].detached)
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(th: usize, ret: *mut *mut c_void) -> i32 {
    let real = || -> PthreadJoin {
        match REAL_JOIN {
            Some(f) => f,
            None => std::mem::transmute(next_sym(b"pthread_join\0")),
        }
    };
    if !active() {
        return real()(th, ret);
    }
    yield_point(0xffff_fff2);
    let s = g();
    let slot = match slot_of(s, th) {
        Some(x) => x,
        None => return real()(th, ret),
    };
    while s.t[slot].state != St::Finished {
        set_blocked(s, St::Join(slot));
        block(s, true);
    }
    let r = real()(th, ret);
    let s = g();
    s.t[slot].state = St::Free;
    s.t[slot].pth = 0;
    r
}

#[no_mangle]
pub unsafe extern "C" fn pthread_detach(th: usize) -> i32 {
    let real: PthreadDetach = match REAL_DETACH {
        Some(f) => f,
        None => std::mem::transmute(next_sym(b"pthread_detach\0")),
    };
    if active() {
        let s = g();
        if let Some(slot) = slot_of(s, th) {
            if s.t[slot].state == St::Finished {
                s.t[slot].state = St::Free;
                s.t[slot].pth = 0;
            } else {
                s.t[slot].detached = true;
            }
        }
    }
    real(th)
}

unsafe fn ret_errno(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}

/// std's mutexes, condition variables, parking and one-time initialisation all end here
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    if n == 318 {
        return getrandom(a as *mut u8, b, c as u32) as i64;
    }
    if n != SYS_FUTEX || !active() {
        return ret_errno(raw_syscall6(n, a, b, c, d, e, f));
    }
    let op = b & 127;
    match op {
        0 | 9 => {
            yield_point(0xffff_fff3);
            let s = g();
            s.futex_waits += 1;
            let cur = (*(a as *const AtomicU32)).load(Ordering::SeqCst);
            if cur != c as u32 {
                set_errno(11);
                return -1;
            }
            if s.spurious > 0 && s.aux.below(s.spurious) == 0 {
                s.spurious_fired += 1;
                return 0;
            }
            let deadline = if d == 0 {
                u64::MAX
            } else {
                let ts = d as *const i64;
                let v = (*ts as u64).saturating_mul(1_000_000_000).saturating_add(*ts.add(1) as u64);
                if op == 9 {
                    v
                } else {
                    s.vclock.saturating_add(v)
                }
            };
            let me = s.cur;
            s.t[me].timed_out = false;
            set_blocked(s, St::Futex { addr: a, deadline });
            block(s, true);
            let s = g();
            if s.t[me].timed_out {
                set_errno(110);
                return -1;
            }
            0
        }
        1 | 10 => {
            let s = g();
            let mut woken = 0;
            let max = c as i32 as i64;
            for i in 0..s.n {
                if woken >= max {
                    break;
                }
                if let St::Futex { addr, .. } = s.t[i].state {
                    if addr == a {
                        make_runnable(s, i);
                        woken += 1;
                    }
                }
            }
            yield_point(0xffff_fff4);
            woken
        }
        _ => ret_errno(raw_syscall6(n, a, b, c, d, e, f)),
    }
}

static RANDOM: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
/// Randomness of the process (hash map keys): a function of the number of requests of the run
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let k = RANDOM.fetch_add(1, Ordering::SeqCst);
    for i in 0..len {
        *buf.add(i) = (combine(k ^ 0x5eed_5eed, (i / 8) as u64) >> (8 * (i % 8))) as u8;
    }
    len as isize
}

/// A voluntary yield always gives way
fn give_way(s: &mut Sim, site: u32) {
    tick(s);
    if s.runnable > 1 {
        s.site = site;
        let me = s.cur;
        let n = s.runnable as u32 - 1;
        let c = if n > 1 { decide(s, n, true, me, &|s, c| nth_runnable(s, c as usize, me)) } else { 0 };
        let next = nth_runnable(s, c as usize, me);
        switch_to(s, next, true);
    }
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if active() {
        give_way(g(), 0xffff_fff5);
        return 0;
    }
    raw_syscall6(24, 0, 0, 0, 0, 0, 0);
    0
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const i64, rem: *mut i64) -> i32 {
    if active() {
        let s = g();
        let d = (*req as u64) * 1_000_000_000 + *req.add(1) as u64;
        let deadline = s.vclock + d;
        set_blocked(s, St::Sleep { deadline });
        block(s, true);
        return 0;
    }
    ret_errno(raw_syscall6(35, req as usize, rem as usize, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: i32, flags: i32, req: *const i64, rem: *mut i64) -> i32 {
    if active() {
        let s = g();
        let d = (*req as u64) * 1_000_000_000 + *req.add(1) as u64;
        let deadline = if flags & 1 != 0 { d } else { s.vclock + d };
        set_blocked(s, St::Sleep { deadline });
        block(s, true);
        return 0;
    }
    -raw_syscall6(230, clk as usize, flags as usize, req as usize, rem as usize, 0, 0) as i32
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut i64) -> i32 {
    if active() {
        let s = g();
        s.clock_reads += 1;
        if s.clock.stalled {
            *ts = 1;
            *ts.add(1) = 0;
            return 0;
        }
        s.vclock += s.clock.read_ns;
        if s.clock.script_n > 0 {
            let k = s.clock_reads - 1;
            if k >= 2 && k % 2 == 0 {
                let d = s.clock.script[(k as usize / 2 - 1) % s.clock.script_n.min(32)];
                s.vclock = s.vclock.saturating_add(d).min(1 << 62);
            }
        }
        if s.clock.jump_one_in > 0 && s.aux.below(s.clock.jump_one_in) == 0 {
            s.clock_jumps += 1;
            let j = s.aux.below(s.clock.jump_max.max(1));
            s.vclock = s.vclock.saturating_add(j).min(1 << 62);
        }
        let mut v = s.vclock - s.vclock % s.clock.resolution.max(1);
        if v < s.last_clock {
            v = s.last_clock;
        }
        s.last_clock = v;
        *ts = (v / 1_000_000_000) as i64;
        *ts.add(1) = (v % 1_000_000_000) as i64;
        return 0;
    }
    ret_errno(raw_syscall6(SYS_CLOCK_GETTIME, clk as usize, ts as usize, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: i32, size: usize, mask: *mut u8) -> i32 {
    if active() {
        let n = g().ncpu;
        for i in 0..size {
            *mask.add(i) = 0;
        }
        for i in 0..n.min(size * 8) {
            *mask.add(i / 8) |= 1 << (i % 8);
        }
        return 0;
    }
    let r = raw_syscall6(204, pid as usize, size, mask as usize, 0, 0, 0);
    if r < 0 {
        set_errno(-r as i32);
        return -1;
    }
    // the libc wrapper zeroes the rest of the mask
    for i in (r as usize)..size {
        *mask.add(i) = 0;
    }
    0
}

type SigAction = unsafe extern "C" fn(i32, *const c_void, *mut c_void) -> i32;
/// The standard library keeps a map of its threads, ordered by their addresses, if it handles
/// stack overflows. It doesn't if it finds that somebody else does.
#[no_mangle]
pub unsafe extern "C" fn sigaction(sig: i32, act: *const c_void, old: *mut c_void) -> i32 {
    if act.is_null() && !old.is_null() && !KEY_READY.load(Ordering::SeqCst) && (sig == 11 || sig == 7) {
        std::ptr::write_bytes(old as *mut u8, 0, 152);
        *(old as *mut usize) = 1;
        return 0;
    }
    let f: SigAction = std::mem::transmute(next_sym(b"sigaction\0"));
    f(sig, act, old)
}

unsafe fn do_open(path: *const u8, flags: i32, mode: u32) -> i32 {
    if active() {
        // container limits are not part of the simulated machine
        let mut len = 0;
        while *path.add(len) != 0 {
            len += 1;
        }
        let p = std::slice::from_raw_parts(path, len);
        if p.starts_with(b"/proc/") || p.starts_with(b"/sys/") {
            set_errno(2);
            return -1;
        }
    }
    ret_errno(raw_syscall6(257, -100isize as usize, path as usize, flags as usize, mode as usize, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const u8, flags: i32, mode: u32) -> i32 {
    do_open(path, flags, mode)
}

// ---------------------------------------------------------------------------------------------
// instrumentation of the code under test: every edge is a yield point and a coverage probe

static mut COVER: [u8; MAX_GUARDS] = [0; MAX_GUARDS];
static mut NGUARDS: u32 = 0;

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 {
        return;
    }
    let mut p = start;
    while p < stop {
        NGUARDS += 1;
        *p = NGUARDS;
        p = p.add(1);
    }
}

/// Code of the harness which must not be interrupted runs between these
static mut HARNESS: u32 = 0;
pub fn harness_begin() {
    unsafe { HARNESS += 1 }
}
pub fn harness_end() {
    unsafe { HARNESS -= 1 }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    if !active() || HARNESS > 0 {
        return;
    }
    let id = *guard;
    let c = (std::ptr::addr_of_mut!(COVER) as *mut u8).add(id as usize & (MAX_GUARDS - 1));
    *c = 1;
    yield_point(id);
}

pub fn coverage() -> (usize, usize) {
    unsafe {
        let n = NGUARDS as usize;
        let c = std::slice::from_raw_parts(std::ptr::addr_of!(COVER) as *const u8, MAX_GUARDS);
        (c[1..=n.min(MAX_GUARDS - 1)].iter().filter(|x| **x != 0).count(), n)
    }
}
pub fn coverage_map() -> &'static [u8] {
    unsafe { std::slice::from_raw_parts(std::ptr::addr_of!(COVER) as *const u8, (NGUARDS as usize + 1).min(MAX_GUARDS)) }
}
