//! Number of worker threads: never above the limit, none where the vector stays below its
//! thresholds, none left when a call returns or unwinds.
use super::*;

pub fn case(env: &mut Env, t: &mut Tape) -> Res {
    if t.flag() {
        generic::<f32>(env, t)
    } else {
        generic::<f64>(env, t)
    }
}

/// operations whose intermediate vectors may be longer than their operands
fn factor(k: K) -> usize {
    match k {
        K::ConvolveSignal | K::Correlate | K::Interpolatef | K::Interpolatei | K::Interpolate | K::Interpft | K::PrepareArgument | K::PrepareArgumentPadded | K::ConvolveReal | K::ConvolveComplex => 4,
        K::InterpolateLin | K::InterpolateHermite => 4,
        _ => 1,
    }
}

/// Which thresholds count, as far as `MultiCoreSettings` documents it: "med denotes operations of
/// medium complexity, e.g. such as log and sin. large denotes operations like convolution and
/// interpolation"
enum Complexity {
    Medium,
    Large,
    Any,
}
fn complexity(k: K) -> Complexity {
    match k {
        K::Sin | K::Cos | K::Tan | K::Asin | K::Acos | K::Atan | K::Sinh | K::Cosh | K::Tanh | K::Asinh | K::Acosh | K::Atanh | K::Ln | K::Log => Complexity::Medium,
        K::ConvolveReal | K::ConvolveComplex | K::Interpolatef => Complexity::Large,
        _ => Complexity::Any,
    }
}

/// `with_thresholds` takes everything a caller may pass, e.g. the largest number for "never"
fn constructed(env: &mut Env, t: &mut Tape) -> Res {
    let a: Vec<usize> = (0..5)
        .map(|_| match t.draw(5) {
            0 => usize::MAX - t.draw(2) as usize,
            1 => t.draw(4) as usize,
            _ => t.draw(300_000) as usize,
        })
        .collect();
    reset_panic();
    let r = std::panic::catch_unwind(|| basic_dsp_vector::MultiCoreSettings::with_thresholds(a[0], a[1], a[2], a[3], a[4]));
    bump(C::checked, 1);
    let s = match r {
        Ok(s) => s,
        Err(e) => {
            drop(e);
            let m = take_panic();
            return env.report("settings:panic", || format!("MultiCoreSettings::with_thresholds{:?} panicked: {}", a, m));
        }
    };
    let r = [s.core_limit, s.med_dual_core_threshold, s.med_multi_core_threshold, s.large_dual_core_threshold, s.large_multi_core_threshold];
    for (d, m) in [(1, 2), (3, 4)] {
        let multi = if a[m] > a[d] { r[m] == a[m] } else { r[m] > r[d] || a[d] == usize::MAX };
        if (r[0] != a[0] && r[0] != 1.max(a[0])) || r[d] != a[d] || !multi {
            return env.report("settings:thresholds", || format!("MultiCoreSettings::with_thresholds{:?} gives {:?}", a, r));
        }
    }
    Ok(())
}

/// The number of threads an operation may use, by the settings of its vector and the sizes involved
pub fn budget<T: Num>(op: &Op, set: &Set, pre: &[Option<refmodel::model::MVec>], post: &[Option<Snap<T>>]) -> usize {
    if set[0] <= 1 {
        return 0;
    }
    let mut size = 0;
    for r in std::iter::once(&op.t).chain(op.others()) {
        if let Some(Some(v)) = pre.get(*r) {
            size = size.max(v.d.len());
        }
        if let Some(Some(v)) = post.get(*r) {
            size = size.max(v.d.len());
        }
    }
    size = size * factor(op.k) + 2 * (factor(op.k) - 1);
    let (dual, multi) = match complexity(op.k) {
        Complexity::Medium => (set[1], set[2]),
        Complexity::Large => (set[3], set[4]),
        Complexity::Any => (set[1].min(set[3]), set[2].min(set[4])),
    };
    if size < dual {
        0
    } else if size < multi {
        set[0].min(2)
    } else {
        set[0]
    }
}

pub fn judge_kids(env: &mut Env, op: &Op, obs: &Obs, set: &Set, allowed: usize) -> Res {
    let (alive, max, spawned) = obs.kids;
    let n = refmodel::ops::name(op.k);
    if alive > 0 {
        return env.report(&format!("outlived:{}", n), || format!("{} returned while {} of its {} threads are alive", op.show(), alive, spawned));
    }
    if max > allowed {
        return env.report(&format!("too-many:{}", n), || {
            format!("{}: {} threads at once, {} started, allowed are {} (settings {:?})", op.show(), max, spawned, allowed, set)
        });
    }
    Ok(())
}

fn generic<T: Num>(env: &mut Env, t: &mut Tape) -> Res {
    let mut prof = p01::profile(t);
    prof.max_points = prof.max_points.max(60);
    let mut cfg = RunCfg::plain();
    cfg.alloc = draw_alloc(t, false, false);
    cfg.sched = draw_sched(t);
    let nops = 3 + t.draw(if env.deep { 24 } else { 10 }) as usize;
    let faulty = t.one_in(3);
    if t.one_in(20) {
        constructed(env, t)?;
    }
    let mut e2 = env.inner();
    let (r, out) = env.simulate(&cfg, || {
        let mut w: World<T, VecKind> = World::new(VecKind, prof.nregs, Spare::none());
        let plan = Plan { prof: &prof, ops: nops, is32: T::IS32 };
        let mut bufs = 0;
        for _ in 0..nops {
            let items = gen_next(t, &plan, &w, &mut bufs);
            for it in items.iter() {
                let op = match it {
                    Item::Op(op) => op,
                    it => {
                        log(|| it.show());
                        w.setup(it);
                        continue;
                    }
                };
                let (set, pre) = outside(|| (w.snaps[op.t].as_ref().map(|s| s.set).unwrap_or(SINGLE), w.model()));
                let fault = if faulty { outside(|| p04::arm(t, op)) } else { 0 };
                let obs = w.op(op);
                p04::disarm();
                if obs.injected {
                    p04::note(fault);
                }
                bump(C::checked, 1);
                let r = outside(|| {
                    state(w.shape(op, &obs));
                    digest(w.hash());
                    let allowed = budget(op, &set, &pre, &w.snaps);
                    judge_kids(&mut e2, op, &obs, &set, allowed)
                });
                r?;
                let more = outside(|| {
                    let mut v: Vec<Item> = tidy(&w, Some((op, &pre[..])));
                    if obs.status == PANICKED {
                        v = std::iter::once(op.t).chain(op.others().iter().copied()).map(Item::Drop).collect();
                    }
                    v
                });
                for m in more.iter() {
                    w.setup(m);
                }
                outside(|| {
                    drop(more);
                    drop(pre);
                });
            }
            outside(|| drop(items));
        }
        Ok(())
    });
    r?;
    leaks(env, &out)
}
