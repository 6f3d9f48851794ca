//! Programs on several worker threads: each step judged by the (single-threaded) model.
use super::*;

pub fn profile(t: &mut Tape) -> Profile {
    let mut prof = Profile::all().weight(|k| if refmodel::ops::parallel(k) { 5 } else { 1 });
    prof.parallel = true;
    prof.bad_one_in = 40;
    prof.max_points = *t.pick(&[24u64, 60, 120, 250]);
    if t.one_in(12) {
        prof.long_one_in = 3;
        prof.max_len = 4000;
        prof.conv_len = 40;
    }
    prof
}

pub fn case(env: &mut Env, t: &mut Tape) -> Res {
    if t.flag() {
        generic::<f32>(env, t)
    } else {
        generic::<f64>(env, t)
    }
}

fn generic<T: Num>(env: &mut Env, t: &mut Tape) -> Res {
    let prof = profile(t);
    let mut cfg = RunCfg::plain();
    cfg.alloc = draw_alloc(t, false, false);
    cfg.sched = draw_sched(t);
    cfg.nest = draw_nest(t);
    let nops = 2 + t.draw(if env.deep { 24 } else { 10 }) as usize;
    let ctx = Ctx::new(T::IS32, is_simd(env));
    let mut e2 = env.inner();
    let (r, out) = env.simulate(&cfg, || {
        let mut w: World<T, VecKind> = World::new(VecKind, prof.nregs, Spare::none());
        let plan = Plan { prof: &prof, ops: nops, is32: T::IS32 };
        run_gen(&mut e2, t, &plan, &mut w, Some(&ctx), &mut no_hook)
    });
    r?;
    leaks(env, &out)
}
