//! Memory: no access outside of the operands, no influence of memory which wasn't initialised, no
//! allocation lost or returned in another form than it was requested.
use super::twin::*;
use super::*;
use crate::check::*;
use refmodel::model::apply;
use simrt::calls;
use subject::store::*;

pub fn case(env: &mut Env, t: &mut Tape) -> Res {
    let f32s = t.flag();
    let which = t.draw(12);
    let limit = *t.pick(&[16usize, 60, 200, usize::MAX, usize::MAX]);
    let slack = *t.pick(&[0usize, 0, 1, 7]);
    let shrinks = t.flag();
    macro_rules! go {
        ($t:ty) => {
            match which {
                0 => generic::<$t, _>(env, t, || BoxKind, |k| everywhere(k)),
                1 => generic::<$t, _>(env, t, || ArrayKind, |k| everywhere(k)),
                2 => generic::<$t, _>(env, t, || SliceKind { owned: vec![] }, |k| everywhere(k) && !matches!(k, K::CloneFrom | K::ConvolveReal | K::ConvolveComplex | K::ConvolveSignal)),
                3 => generic::<$t, _>(env, t, || SimKind { limit, slack, shrinks }, |_| true),
                4 | 5 | 6 => super::p11conv::case::<$t>(env, t),
                _ => generic::<$t, _>(env, t, || VecKind, |_| true),
            }
        };
    }
    if f32s {
        go!(f32)
    } else {
        go!(f64)
    }
}

fn everywhere(k: K) -> bool {
    !matches!(k, K::SetRealImag | K::SetMagPhase | K::Merge)
}

#[derive(Clone)]
struct Fault {
    kind: u8,
    a: u64,
    b: u64,
}
const STORE: u8 = 3;

fn arm(t: &mut Tape, op: &Op) -> Fault {
    let user = refmodel::ops::user_fn(op.k);
    let par = refmodel::ops::parallel(op.k);
    match t.draw(8) {
        0 if user => Fault { kind: super::p04::PANIC, a: *t.pick(&[0u64, 1, 5, 17, 40]) + t.draw(4), b: 0 },
        1 if par => Fault { kind: super::p04::SPAWN, a: t.draw(6), b: *t.pick(&[1u64, 1, 2, 100]) },
        2 => Fault { kind: STORE, a: *t.pick(&[0u64, 0, 1]), b: *t.pick(&[1u64, 1000]) },
        _ => Fault { kind: super::p04::NOTHING, a: 0, b: 0 },
    }
}
fn set(f: &Fault) {
    match f.kind {
        super::p04::PANIC => calls::arm_panic(calls::count() + f.a),
        super::p04::SPAWN => sched::arm_spawn_failure(f.a, f.b),
        STORE => calls::store_arm(f.a, f.b),
        _ => (),
    }
}
fn clear() {
    super::p04::disarm();
    calls::store_disarm();
}

fn generic<T: Num, Q: Kind<T>>(env: &mut Env, t: &mut Tape, kind: impl Fn() -> Q, can: impl Fn(K) -> bool) -> Res {
    let mut prof = Profile::all().filter(can);
    prof.max_points = *t.pick(&[9u64, 20, 60, 120]);
    prof.bufs = vec![BUF_SINGLE, BUF_NONE, BUF_FIXED, BUF_DIRTY];
    prof.parallel = t.one_in(3);
    prof.max_len = 400;
    prof.bad_one_in = 10;
    if t.one_in(12) {
        prof.long_one_in = 3;
        prof.max_len = 4000;
        prof.conv_len = 30;
    }
    let mut cfg = RunCfg::plain();
    let misalign = t.flag();
    cfg.alloc = draw_alloc(t, misalign, true);
    cfg.alloc.guard_one_in = *t.pick(&[1u64, 1, 2]);
    if prof.parallel {
        cfg.sched = draw_sched(t);
    }
    let spare = Spare { stale: *t.pick(&[0usize, 0, 3, 30]), exact: false, cap: *t.pick(&[0usize, 0, 1, 20]), fill: t.draw(5) as u8 };
    let nops = 2 + t.draw(if env.deep { 20 } else { 8 }) as usize;
    let ctx = Ctx::new(T::IS32, is_simd(env));
    let mut e2 = env.inner();
    let mut prints: Vec<Step<T>> = Vec::new();
    let mut items: Vec<(Item, Fault)> = Vec::new();
    let none = Fault { kind: super::p04::NOTHING, a: 0, b: 0 };
    calls::store_reset();
    let (r, out) = env.simulate(&cfg, || {
        let mut w: World<T, Q> = World::new(kind(), prof.nregs, spare.clone());
        let plan = Plan { prof: &prof, ops: nops, is32: T::IS32 };
        let mut bufs = 0;
        for _ in 0..nops {
            let next = gen_next(t, &plan, &w, &mut bufs);
            for it in next.iter() {
                if let Item::Op(op) = it {
                    if std::iter::once(&op.t).chain(op.others()).any(|r| w.regs[*r].is_none()) {
                        continue;
                    }
                    let f = outside(|| arm(t, op));
                    outside(|| items.push((it.clone(), f.clone())));
                    let pre = outside(|| w.model());
                    let obs = one::<T, Q>(&mut e2, &mut w, op, &f, Some(&ctx))?;
                    outside(|| prints.push(record(op, &obs, &pre, &w.snaps)));
                    let more = outside(|| after::<T, Q>(t, &w, op, &obs, &pre));
                    for m in more.iter() {
                        w.setup(m);
                        outside(|| items.push((m.clone(), none.clone())));
                    }
                    outside(|| {
                        drop(more);
                        drop(pre);
                        drop(obs);
                    });
                } else {
                    log(|| it.show());
                    w.setup(it);
                    outside(|| items.push((it.clone(), none.clone())));
                }
            }
            outside(|| drop(next));
        }
        Ok(())
    });
    calls::store_reset();
    r?;
    leaks(env, &out)?;
    // Again with other contents of fresh memory and everything at the same alignment: nobody may
    // notice, not even in the last bit.
    let mut cfg = cfg;
    let old = cfg.alloc.poison;
    cfg.alloc.poison = *t.pick(&[0xA5u8, 0x00, 0xFF, 0x7F, 0x41]);
    if cfg.alloc.poison == old {
        cfg.alloc.poison = old ^ 0x3C;
    }
    bump(C::fault_poison, 1);
    let mut e2 = env.inner();
    let (r, out) = env.simulate(&cfg, || {
        let mut w: World<T, Q> = World::new(kind(), prof.nregs, spare.clone());
        let mut n = 0;
        for (it, f) in items.iter() {
            if let Item::Op(op) = it {
                let pre = outside(|| w.model());
                let obs = one::<T, Q>(&mut e2, &mut w, op, f, None)?;
                let d = outside(|| {
                    let d = if obs.injected && prof.parallel { None } else { differs(&prints[n], op, &obs, &pre, &w.snaps, !prof.parallel) };
                    n += 1;
                    drop(pre);
                    drop(obs);
                    d
                });
                if let Some(d) = d {
                    return outside(|| e2.report(&format!("poison:{}", refmodel::ops::name(op.k)), || format!("another content of fresh memory is visible: {}", d)));
                }
            } else {
                w.setup(it);
            }
        }
        Ok(())
    });
    calls::store_reset();
    r?;
    leaks(env, &out)
}

fn one<T: Num, Q: Kind<T>>(env: &mut Env, w: &mut World<T, Q>, op: &Op, f: &Fault, ctx: Option<&Ctx>) -> Res<Obs> {
    let pre = outside(|| w.model());
    let refused0 = calls::store_refused();
    set(f);
    let obs = w.op(op);
    clear();
    let refused = calls::store_refused() - refused0;
    bump(C::checked, 1);
    bump(C::fault_store_refused, refused);
    if obs.injected {
        super::p04::note(f.kind);
    }
    let r = outside(|| {
        digest(w.hash());
        digest(obs.status as u64);
        state(simrt::rng::combine(w.shape(op, &obs), f.kind as u64));
        let (post, broken) = models(&w.snaps);
        for i in 0..post.len() {
            if broken[i] {
                return env.report(&format!("length:{}", refmodel::ops::name(op.k)), || format!("{}: r{}: the valid length exceeds the storage", op.show(), i));
            }
        }
        let ctx = match ctx {
            Some(c) => c,
            None => return Ok(()),
        };
        // Everything without faults is judged: a wrong address shows in the samples, too
        if obs.injected || refused > 0 || obs.status == PANICKED || obs.status == refmodel::ops::NORESIZE {
            return Ok(());
        }
        let exp = apply(op, &pre, ctx);
        match judge_dev(op, &exp, &pre, &post, &broken, &obs, ctx) {
            Some((c, d)) => env.report(&c, || format!("{}: {}", op.show(), d)),
            None => Ok(()),
        }
    });
    outside(|| drop(pre));
    r?;
    Ok(obs)
}

fn after<T: Num, Q: Kind<T>>(t: &mut Tape, w: &World<T, Q>, op: &Op, obs: &Obs, pre: &[Option<refmodel::model::MVec>]) -> Vec<Item> {
    let mut v = tidy(w, Some((op, pre)));
    if obs.injected || obs.status == PANICKED {
        v.clear();
        for r in std::iter::once(op.t).chain(op.others().iter().copied()) {
            if !w.snaps[r].as_ref().map(|s| s.broken || s.model().erroneous()).unwrap_or(true) && !t.one_in(3) {
                v.push(Item::Mend(r, 0));
            } else {
                v.push(Item::Drop(r));
            }
        }
    }
    v
}
