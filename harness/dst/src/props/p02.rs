//! The same program under several schedules: results are bitwise the same.
use super::*;
use basic_dsp_vector::*;
use super::twin::*;

pub fn case(env: &mut Env, t: &mut Tape) -> Res {
    if t.flag() {
        generic::<f32>(env, t)
    } else {
        generic::<f64>(env, t)
    }
}

/// Another part of the program which uses the library at the same time
fn noise<T: Num>(n: usize) {
    for i in 0..n {
        let v: Vec<T> = (0..40 + i).map(|x| T::f(x as f64 * 0.25)).collect();
        let mut v = v.to_real_time_vec();
        v.set_multicore_settings(settings(&[3, 4, 8, 4, 8]));
        v.sin();
        v.offset(T::f(1.0));
        let _ = v.statistics();
    }
}

fn generic<T: Num>(env: &mut Env, t: &mut Tape) -> Res {
    let prof = p01::profile(t);
    let mut cfg = RunCfg::plain();
    cfg.alloc = draw_alloc(t, false, false);
    let nops = 2 + t.draw(if env.deep { 16 } else { 8 }) as usize;
    let mut prints: Vec<Step<T>> = Vec::new();
    let mut e2 = env.inner();
    let (items, out) = env.simulate(&cfg, || {
        let mut w: World<T, VecKind> = World::new(VecKind, prof.nregs, Spare::none());
        let plan = Plan { prof: &prof, ops: nops, is32: T::IS32 };
        run_gen(&mut e2, t, &plan, &mut w, None, &mut |_, op, obs, pre, w| {
            prints.push(record(op, obs, pre, &w.snaps));
            Ok(())
        })
    });
    leaks(env, &out)?;
    let items = items?;
    let k = if env.deep { 8 } else { 3 };
    for round in 0..k {
        let mut cfg = cfg.clone();
        cfg.sched = draw_sched(t);
        let with_noise = t.one_in(3);
        let mut e2 = env.inner();
        let mut n = 0;
        let prints = &prints;
        let items = &items;
        let (r, out) = env.simulate(&cfg, || {
            std::thread::scope(|s| {
                if with_noise {
                    s.spawn(|| noise::<T>(3));
                }
                let mut w: World<T, VecKind> = World::new(VecKind, prof.nregs, Spare::none());
                run_items(&mut e2, &mut w, items, None, &mut |e, op, obs, pre, w| {
                    state(w.shape(op, obs));
                    let first = &prints[n];
                    n += 1;
                    match differs(first, op, obs, pre, &w.snaps, true) {
                        None => Ok(()),
                        Some(d) => e.report(&format!("schedule-dependent:{}", refmodel::ops::name(op.k)), || format!("schedule {}: {}", round, d)),
                    }
                })
            })
        });
        r?;
        leaks(env, &out)?;
    }
    Ok(())
}
