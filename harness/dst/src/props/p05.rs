//! Calibration under simulated clocks and processor counts. It happens once per process: each case
//! runs in a process of its own.
use super::*;
use basic_dsp_vector::*;
use simrt::sys;

#[derive(Clone, Copy, Debug)]
enum Call {
    Parallel,
    New(usize),
    Print,
    Vector,
}

pub fn case(env: &mut Env, t: &mut Tape) -> Res {
    // everything is drawn before the process is split
    let mut cfg = RunCfg::plain();
    cfg.alloc = draw_alloc(t, false, false);
    cfg.sched = draw_sched(t);
    if t.flag() {
        // long measuring loops: preempt rarely
cfg.sched.strategy = match t.draw(3) {
            0 => sched::Strategy::Cooperative,
            1 => sched::Strategy::Random(2000),
            _ => sched::Strategy::Random(20000),
        };
    }
    let c = &mut cfg.sched;
    c.ncpu = *t.pick(&[8usize, 1, 2, 3, 4, 5, 6, 7, 12, 16, 24]);
    if c.ncpu != 8 {
        bump(C::fault_cpu_count, 1);
    }
    c.clock.step_ns = *t.pick(&[10u64, 1, 2, 5, 100, 1000, 100_000, 0]);
    c.clock.read_ns = *t.pick(&[25u64, 0, 1, 1000, 100_000, 50_000_000]);
    c.clock.resolution = *t.pick(&[1u64, 1, 100, 1000, 10_000, 1_000_000, 15_625_000, 1_000_000_000]);
    if c.clock.resolution > 1 {
        bump(C::fault_clock_coarse, 1);
    }
    if t.one_in(3) {
        c.clock.jump_one_in = *t.pick(&[3u64, 1, 10, 40]);
        c.clock.jump_max = *t.pick(&[1_000u64, 1_000_000, 1_000_000_000, 1_000_000_000_000, 1 << 60]);
    }
    if t.one_in(10) {
        c.clock.stalled = true;
        bump(C::fault_clock_stall, 1);
    }
    if t.one_in(3) {
        script(&mut cfg.sched, t);
        bump(C::fault_clock_script, 1);
    }
    let n = 1 + t.draw(4) as usize;
    let callers: Vec<Vec<Call>> = (0..n)
        .map(|_| {
            (0..1 + t.draw(2))
                .map(|_| match t.draw(5) {
                    0 | 1 => Call::Parallel,
                    2 => Call::New(t.draw(20) as usize),
                    3 => Call::Vector,
                    _ => Call::Print,
                })
                .collect()
        })
        .collect();
    bump(C::forks, 1);
    let s = shm();
    let before = s.nviol;
    let pid = unsafe { sys::fork() };
    if pid == 0 {
        unsafe {
            sys::alarm(120);
        }
        let r = child(env, &cfg, &callers);
        let s = shm();
        let code = match r {
            Ok(()) => 0,
            Err(v) => {
                push_violation(s, s.case, &v.class, &v.detail);
                70
            }
        };
        unsafe { sys::_exit(code) }
    }
    let mut st = 0;
    unsafe {
        sys::waitpid(pid, &mut st, 0);
    }
    s.state = 1;
    if s.nviol > before {
        s.nviol -= 1;
        return Err(read_violation(&s.viol[s.nviol as usize]).1);
    }
    if st != 0 {
        return violation("died", format!("the process ended with status {:x}", st));
    }
    Ok(())
}

/// A machine on which a loop over `n` samples takes `a * n + b` ns, with other `a` and `b` for one
/// thread, two threads and all threads; with and without noise.
fn script(c: &mut sched::Config, t: &mut Tape) {
    c.clock.step_ns = 0;
    c.clock.read_ns = 0;
    c.clock.stalled = false;
    c.clock.jump_one_in = 0;
    c.clock.resolution = 1;
    // picoseconds per sample
    let unit = *t.pick(&[1000u64, 1000, 100, 1_000_000, 1]);
    let a1 = (1 + t.draw(40)) * unit;
    // a second thread only adds a constant overhead: the lines never meet, up to rounding
    let parallel = t.one_in(3);
    let mut line = |t: &mut Tape, k: u64| {
        if parallel {
            return (a1, (1 << t.draw(25)) + t.draw(1000));
        }
        let a = match t.draw(6) {
            0 => a1,
            1 => a1 / k.max(2),
            2 => a1 + 1,
            3 => a1.saturating_sub(1),
            4 => (1 + t.draw(40)) * unit,
            _ => 0,
        };
        let b = match t.draw(5) {
            0 => 0,
            1 => t.draw(200_000),
            2 => t.draw(10_000_000),
            3 => 1 << t.draw(45),
            _ => a1 * 10 * t.draw(20_000) / 1000,
        };
        (a, b)
    };
    let lines = [(a1, if t.one_in(6) { t.draw(100_000) } else { 0 }), line(t, 2), line(t, 4)];
    let noise = if parallel { 0 } else { *t.pick(&[0u64, 0, 1, 10, 10_000, 10_000_000]) };
    let per = if c.ncpu > 2 { 3 } else { 2 };
    for i in 0..10u64 {
        for k in 0..per {
            let (a, b) = lines[k];
            let e = if noise > 0 { t.draw(noise) } else { 0 };
            c.clock.script[i as usize * per + k] = a * (10_000 + 5_000 * i) / 1000 + b + e;
        }
    }
    c.clock.script_n = 10 * per;
}

fn check(env: &mut Env, what: &str, s: &MultiCoreSettings, requested: usize, ncpu: usize, auto: bool) -> Res {
    let show = || format!("{}: {:?} with {} processors", what, s, ncpu);
    if s.core_limit < 1 {
        return env.report("core-limit:zero", || show());
    }
    if s.core_limit > requested.max(1) {
        return env.report(if auto { "core-limit:parallel" } else { "core-limit:new" }, || show());
    }
    let th = [s.med_dual_core_threshold, s.med_multi_core_threshold, s.large_dual_core_threshold, s.large_multi_core_threshold];
    if th == [50_000, 100_000, 20_000, 30_000] {
        return Ok(());
    }
    for (name, d, m) in [("med", th[0], th[1]), ("large", th[2], th[3])] {
        if d < 5_000 || d > 100_000 {
            return env.report(&format!("thresholds:{}-dual", name), || show());
        }
        if m > 200_000 {
            return env.report(&format!("thresholds:{}-multi", name), || show());
        }
        if m <= d {
            return env.report(&format!("thresholds:{}-order", name), || show());
        }
    }
    Ok(())
}

fn child(env: &mut Env, cfg: &RunCfg, callers: &[Vec<Call>]) -> Res {
    let ncpu = cfg.sched.ncpu;
    let ((all, again), out) = env.simulate(cfg, || {
        let mut all: Vec<Vec<(Call, Result<Option<MultiCoreSettings>, String>)>> = vec![];
        std::thread::scope(|s| {
            let h: Vec<_> = callers.iter().map(|c| s.spawn(move || c.iter().map(|c| (*c, one(*c))).collect::<Vec<_>>())).collect();
            for h in h {
                all.push(h.join().unwrap());
            }
        });
        let all = outside(|| all.clone());
        sched::reset_kids();
        let again = one(Call::New(2));
        let again = outside(|| (again.clone(), sched::kids().2));
        (all, again)
    });
    let _ = out;
    // the calibration is kept until the process ends, nothing else
    let mut first: Option<MultiCoreSettings> = None;
    let key = |s: &MultiCoreSettings| [s.med_dual_core_threshold, s.med_multi_core_threshold, s.large_dual_core_threshold, s.large_multi_core_threshold];
    let before = all.iter().flatten().any(|(c, r)| match (c, r) {
        (Call::Print, Ok(_)) => true,
        (_, Ok(Some(s))) => s.core_limit > 1,
        _ => false,
    });
    let all: Vec<(Call, Result<Option<MultiCoreSettings>, String>)> = all.into_iter().flatten().chain(std::iter::once((Call::New(2), again.0.clone()))).collect();
    log(|| format!("{:?}\n{:?}", cfg.sched, all));
    for (c, r) in all.iter() {
        bump(C::checked, 1);
        bump(C::ops, 1);
        let s = match r {
            Ok(s) => s,
            Err(m) => {
                env.report("panic:calibration", || format!("{:?} panicked: {}", c, m))?;
                continue;
            }
        };
        if let Some(s) = s {
            digest(key(s).iter().fold(s.core_limit as u64, |a, x| simrt::rng::combine(a, *x as u64)));
            state(key(s).iter().fold(ncpu as u64, |a, x| simrt::rng::combine(a, *x as u64)));
            let (req, auto) = match c {
                Call::New(n) => (*n, false),
                _ => (ncpu, true),
            };
            check(env, &format!("{:?}", c), s, req, ncpu, auto)?;
            if s.core_limit > 1 {
                match first {
                    None => first = Some(*s),
                    Some(f) => {
                        if key(&f) != key(s) {
                            env.report("differs:calibration", || format!("one caller got {:?}, another one {:?}", f, s))?;
                        }
                    }
                }
            }
        }
    }
    if before && again.1 > 0 {
        env.report("repeated:calibration", || format!("settings requested later on started {} threads", again.1))?;
    }
    if out.stats.threads_left > 0 {
        env.report("threads-left:calibration", || format!("{} threads are still alive at the end", out.stats.threads_left))?;
    }
    Ok(())
}

fn one(c: Call) -> Result<Option<MultiCoreSettings>, String> {
    reset_panic();
    let r = std::panic::catch_unwind(|| match c {
        Call::Parallel => Some(MultiCoreSettings::parallel()),
        Call::New(n) => Some(MultiCoreSettings::new(n)),
        Call::Print => {
            let _ = print_calibration();
            None
        }
        Call::Vector => {
            let mut v = vec![0.5f64; 16].to_real_time_vec_par();
            v.sin();
            Some(*v.get_multicore_settings())
        }
    });
    match r {
        Ok(s) => Ok(s),
        Err(e) => {
            drop(e);
            Err(outside(take_panic))
        }
    }
}
