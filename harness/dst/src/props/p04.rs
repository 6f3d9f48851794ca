//! User functions which panic and worker threads which cannot be created.
use super::*;
use crate::check::*;
use refmodel::model::apply;
use simrt::calls;

pub const NOTHING: u8 = 0;
pub const PANIC: u8 = 1;
pub const SPAWN: u8 = 2;

/// Plans a fault for the next operation
pub fn arm(t: &mut Tape, op: &Op) -> u8 {
    let user = refmodel::ops::user_fn(op.k);
    let par = refmodel::ops::parallel(op.k);
    match t.draw(6) {
        0 | 1 | 2 if user => {
            let at = *t.pick(&[0u64, 1, 2, 5, 17, 40, 100]) + t.draw(4);
            calls::arm_panic(calls::count() + at);
            PANIC
        }
        0 | 1 | 2 | 3 | 4 if par => {
            let from = t.draw(8);
            let n = *t.pick(&[1u64, 1, 2, 100]);
            sched::arm_spawn_failure(from, n);
            SPAWN
        }
        _ => NOTHING,
    }
}
pub fn disarm() {
    calls::disarm_panic();
    sched::disarm_spawn_failure();
}
pub fn note(kind: u8) {
    if kind == PANIC {
        bump(C::fault_user_panic, 1);
    }
}

pub fn case(env: &mut Env, t: &mut Tape) -> Res {
    if t.flag() {
        generic::<f32>(env, t)
    } else {
        generic::<f64>(env, t)
    }
}

fn generic<T: Num>(env: &mut Env, t: &mut Tape) -> Res {
    let mut prof = p01::profile(t).weight(|k| if refmodel::ops::user_fn(k) || refmodel::ops::parallel(k) { 3 } else { 1 });
    prof.bad_one_in = 0;
    let mut cfg = RunCfg::plain();
    let guard = t.one_in(4);
    cfg.alloc = draw_alloc(t, false, guard);
    cfg.sched = draw_sched(t);
    let nops = 3 + t.draw(if env.deep { 24 } else { 10 }) as usize;
    let ctx = Ctx::new(T::IS32, is_simd(env));
    let mut e2 = env.inner();
    let (r, out) = env.simulate(&cfg, || {
        let mut w: World<T, VecKind> = World::new(VecKind, prof.nregs, Spare::none());
        let plan = Plan { prof: &prof, ops: nops, is32: T::IS32 };
        let mut bufs = 0;
        for _ in 0..nops {
            let items = gen_next(t, &plan, &w, &mut bufs);
            for it in items.iter() {
                let op = match it {
                    Item::Op(op) => op,
                    it => {
                        log(|| it.show());
                        w.setup(it);
                        continue;
                    }
                };
                one::<T>(&mut e2, t, &mut w, op, &ctx)?;
            }
            outside(|| drop(items));
        }
        Ok(())
    });
    r?;
    leaks(env, &out)
}

fn one<T: Num>(env: &mut Env, t: &mut Tape, w: &mut World<T, VecKind>, op: &Op, ctx: &Ctx) -> Res {
    let (pre, exp) = outside(|| {
        let pre = w.model();
        let exp = apply(op, &pre, ctx);
        (pre, exp)
    });
    let n = refmodel::ops::name(op.k);
    let fault = outside(|| arm(t, op));
    if fault != NOTHING {
        log(|| format!("fault {} is armed", if fault == PANIC { "user function panics" } else { "thread creation fails" }));
    }
    let obs = w.op(op);
    disarm();
    bump(C::checked, 1);
    if obs.injected {
        note(fault);
    }
    let r = outside(|| {
        state(simrt::rng::combine(w.shape(op, &obs), (fault * 2) as u64 + obs.injected as u64));
        digest(w.hash());
        digest(obs.status as u64);
        if obs.kids.0 > 0 {
            return env.report(&format!("outlived:{}", n), || format!("{}: {} threads are still alive afterwards", op.show(), obs.kids.0));
        }
        let (post, broken) = models(&w.snaps);
        if !obs.injected {
            return match judge_dev(op, &exp, &pre, &post, &broken, &obs, ctx) {
                Some((c, d)) => env.report(&c, || format!("{}: {}", op.show(), d)),
                None => Ok(()),
            };
        }
        if obs.status == 0 {
            if fault == PANIC {
                return env.report(&format!("swallowed:{}", n), || format!("{}: a user function panicked but the operation returned normally", op.show()));
            }
            if let Some((c, d)) = judge_dev(op, &exp, &pre, &post, &broken, &obs, ctx) {
                return env.report(&format!("silent:{}", c), || format!("{}: a thread could not be created and the result is wrong: {}", op.show(), d));
            }
        }
        for i in 0..post.len() {
            let involved = i == op.t || op.others().contains(&i);
            if broken[i] {
                return env.report(&format!("failed-length:{}", n), || format!("{}: r{}: the valid length exceeds the storage", op.show(), i));
            }
            if involved {
                continue;
            }
            let same = match (&pre[i], &post[i]) {
                (Some(a), Some(b)) => same_model(a, b),
                (None, None) => true,
                _ => false,
            };
            if !same {
                return env.report(&format!("failed-foreign:{}", n), || format!("{}: r{} isn't involved but changed", op.show(), i));
            }
        }
        Ok(())
    });
    r?;
    let more = outside(|| {
        let mut v = tidy(w, Some((op, &pre[..])));
        if obs.injected {
            v.clear();
            for r in std::iter::once(op.t).chain(op.others().iter().copied()) {
                // overwritten and reused, or dropped
                if !w.snaps[r].as_ref().map(|s| s.broken || s.model().erroneous()).unwrap_or(true) && !t.one_in(3) {
                    v.push(Item::Mend(r, 0));
                } else {
                    v.push(Item::Drop(r));
                }
            }
        }
        v
    });
    for m in more.iter() {
        log(|| m.show());
        w.setup(m);
    }
    outside(|| {
        drop(more);
        drop(pre);
        drop(exp);
    });
    Ok(())
}
