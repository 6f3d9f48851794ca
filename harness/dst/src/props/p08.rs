//! Placement of the samples: every allocation is only aligned as its type requires, blocks may end
//! at an inaccessible page. Each step is judged by the reference model, in each build variant.
use super::*;
use subject::store::*;

pub fn case(env: &mut Env, t: &mut Tape) -> Res {
    match t.draw(6) {
        0 => generic::<f32, _>(env, t, true, || SliceKind { owned: vec![] }),
        1 => generic::<f64, _>(env, t, true, || SliceKind { owned: vec![] }),
        2 | 3 => generic::<f32, _>(env, t, false, || VecKind),
        _ => generic::<f64, _>(env, t, false, || VecKind),
    }
}

fn slices(k: K) -> bool {
    !matches!(
        k,
        K::SetRealImag | K::SetMagPhase | K::Merge | K::CloneFrom | K::ConvolveReal | K::ConvolveComplex | K::ConvolveSignal
    )
}

fn generic<T: Num, Q: Kind<T>>(env: &mut Env, t: &mut Tape, slice: bool, kind: impl Fn() -> Q) -> Res {
    let mut prof = Profile::all();
    prof.max_points = *t.pick(&[40u64, 20, 100, 300]);
    prof.parallel = t.one_in(3);
    prof.bad_one_in = 40;
    match t.draw(12) {
        10 => {
            prof.long_one_in = 2;
            prof.max_len = 4000;
            prof.conv_len = 40;
            prof.long = (1000, 1100);
            prof = prof.weight(|k| if matches!(k, K::ConvolveReal | K::ConvolveComplex | K::ConvolveSignal | K::Interpolatef) { 8 } else { 1 });
        }
        11 => {
            prof.long_one_in = 4;
            prof.max_len = 4000;
            prof.conv_len = 40;
        }
        _ => (),
    }
    let mut spare = Spare::none();
    if slice {
        prof = prof.filter(slices);
        prof.bufs = vec![BUF_DIRTY];
        prof.growth = false;
        spare = Spare { stale: prof.max_len * 4 + 200, exact: true, cap: 0, fill: t.draw(5) as u8 };
    }
    let mut cfg = RunCfg::plain();
    let guard = t.one_in(3);
    cfg.alloc = draw_alloc(t, true, guard);
    if prof.parallel {
        cfg.sched = draw_sched(t);
    }
    let nops = 3 + t.draw(if env.deep { 30 } else { 12 }) as usize;
    let ctx = Ctx::new(T::IS32, is_simd(env));
    let mut e2 = env.inner();
    let (r, out) = env.simulate(&cfg, || {
        let mut w: World<T, Q> = World::new(kind(), prof.nregs, spare);
        let plan = Plan { prof: &prof, ops: nops, is32: T::IS32 };
        run_gen(&mut e2, t, &plan, &mut w, Some(&ctx), &mut |_, op, obs, _, w| {
            // placements reached: address modulo the widest register
            for r in std::iter::once(&op.t).chain(op.others()) {
                if let Some(Some(v)) = w.regs.get(*r) {
                    let p = basic_dsp_vector::ToSlice::<T>::to_slice(&v.data).as_ptr() as usize as u64 % 64;
                    state(simrt::rng::combine(w.shape(op, obs), p));
                }
            }
            Ok(())
        })
    });
    r?;
    leaks(env, &out)
}
