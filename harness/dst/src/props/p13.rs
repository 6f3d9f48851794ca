//! Histories of operations on one thread, each step judged by the reference model.
use super::*;

pub fn case(env: &mut Env, t: &mut Tape) -> Res {
    if t.flag() {
        generic::<f32>(env, t)
    } else {
        generic::<f64>(env, t)
    }
}

fn generic<T: Num>(env: &mut Env, t: &mut Tape) -> Res {
    let mut prof = Profile::all();
    prof.max_points = *t.pick(&[40u64, 20, 100]);
    match t.draw(60) {
        50..=58 => {
            prof.long_one_in = 4;
            prof.max_len = 4000;
            prof.conv_len = 40;
        }
        59 => {
            // long enough for overlap_discard
            prof.long_one_in = 2;
            prof.long = (5001, 6000);
            prof.max_len = 14000;
            prof.conv_len = 30;
            prof = prof.filter(|k| k != K::Interpolatei && k != K::Interpolate).weight(|k| if k == K::ConvolveSignal { 12 } else { 1 });
        }
        _ => (),
    }
    let mut cfg = RunCfg::plain();
    cfg.alloc = draw_alloc(t, false, false);
    let nops = 3 + t.draw(if env.deep { 40 } else { 15 }) as usize;
    let ctx = Ctx::new(T::IS32, is_simd(env));
    let mut e2 = env.inner();
    let (r, out) = env.simulate(&cfg, || {
        let mut w: World<T, VecKind> = World::new(VecKind, prof.nregs, Spare::none());
        let plan = Plan { prof: &prof, ops: nops, is32: T::IS32 };
        run_gen(&mut e2, t, &plan, &mut w, Some(&ctx), &mut no_hook)
    });
    r?;
    leaks(env, &out)
}
