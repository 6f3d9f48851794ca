//! Spare and stale storage: the same program on other storages, with other content behind the
//! valid samples.
use super::*;
use super::twin::*;
use subject::store::*;

pub fn case(env: &mut Env, t: &mut Tape) -> Res {
    if t.flag() {
        generic::<f32>(env, t)
    } else {
        generic::<f64>(env, t)
    }
}

/// Operations every storage offers
fn everywhere(k: K) -> bool {
    !matches!(k, K::SetRealImag | K::SetMagPhase | K::Merge)
}
fn slice_only(k: K) -> bool {
    everywhere(k) && !matches!(k, K::CloneFrom | K::ConvolveReal | K::ConvolveComplex | K::ConvolveSignal)
}

fn generic<T: Num>(env: &mut Env, t: &mut Tape) -> Res {
    let which = t.draw(8);
    let mut prof = Profile::all();
    prof.max_points = *t.pick(&[24u64, 50, 100]);
    prof.parallel = t.one_in(4);
    prof.bufs = vec![BUF_DIRTY];
    prof.max_len = 500;
    if which >= 4 {
        prof = prof.filter(if which == 5 { slice_only } else { everywhere });
    }
    if t.one_in(10) {
        prof.long_one_in = 3;
        prof.max_len = 4000;
        prof.conv_len = 30;
    }
    let room = prof.max_len * 4 + 200;
    let mut cfg = RunCfg::plain();
    cfg.alloc = draw_alloc(t, false, false);
    if prof.parallel {
        cfg.sched = draw_sched(t);
    }
    let nops = 2 + t.draw(if env.deep { 24 } else { 10 }) as usize;
    let mut prints: Vec<Step<T>> = Vec::new();
    let mut e2 = env.inner();
    let (items, out) = env.simulate(&cfg, || {
        let mut w: World<T, VecKind> = World::new(VecKind, prof.nregs, Spare::none());
        let plan = Plan { prof: &prof, ops: nops, is32: T::IS32 };
        run_gen(&mut e2, t, &plan, &mut w, None, &mut |_, op, obs, pre, w| {
            prints.push(record(op, obs, pre, &w.snaps));
            Ok(())
        })
    });
    let items = items?;
    leaks(env, &out)?;
    let spare = |t: &mut Tape, fixed: bool| Spare {
        stale: if fixed { room } else { *t.pick(&[0usize, 1, 2, 5, 16, 40, 300]) },
        exact: fixed,
        cap: *t.pick(&[0usize, 0, 1, 8, 100]),
        fill: t.draw(5) as u8,
    };
    let ctx = Ctx::new(T::IS32, is_simd(env));
    let fixed = which == 4 || which == 5;
    let sp = spare(t, fixed);
    match which {
        0 | 1 => again(env, t, &cfg, &items, &prints, VecKind, sp, prof.nregs, None),
        2 => again(env, t, &cfg, &items, &prints, SimKind { limit: usize::MAX, slack: 64, shrinks: true }, sp, prof.nregs, None),
        3 => again(env, t, &cfg, &items, &prints, SimKind { limit: usize::MAX, slack: 0, shrinks: false }, sp, prof.nregs, None),
        4 => again(env, t, &cfg, &items, &prints, BoxKind, sp, prof.nregs, None),
        5 => again(env, t, &cfg, &items, &prints, SliceKind { owned: vec![] }, sp, prof.nregs, None),
        6 => again(env, t, &cfg, &items, &prints, VecKind, sp, prof.nregs, None),
        _ => again(env, t, &cfg, &items, &prints, VecKind, sp, prof.nregs, Some(&ctx)),
    }
}

#[allow(clippy::too_many_arguments)]
fn again<T: Num, Q: Kind<T>>(env: &mut Env, _t: &mut Tape, cfg: &RunCfg, items: &[Item], prints: &[Step<T>], kind: Q, sp: Spare, nregs: usize, ctx: Option<&Ctx>) -> Res {
    let mut e2 = env.inner();
    let mut n = 0;
    let (r, out) = env.simulate(cfg, || {
        let mut w: World<T, Q> = World::new(kind, nregs, sp);
        run_items(&mut e2, &mut w, items, ctx, &mut |e, op, obs, pre, w| {
            state(w.shape(op, obs));
            let first = &prints[n];
            n += 1;
            match differs(first, op, obs, pre, &w.snaps, true) {
                None => Ok(()),
                Some(d) => e.report(&format!("storage-visible:{}", refmodel::ops::name(op.k)), || format!("{}: {}", Q::NAME, d)),
            }
        })
    });
    r?;
    leaks(env, &out)
}
