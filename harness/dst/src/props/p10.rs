//! Rejected operations: half of the operations get unsuitable operands or arguments. Each step is
//! judged by the model, overloads of the same operation have to agree on what they accept.
use super::*;
use crate::check::*;

pub fn case(env: &mut Env, t: &mut Tape) -> Res {
    if t.flag() {
        generic::<f32>(env, t)
    } else {
        generic::<f64>(env, t)
    }
}

/// another overload with the same requirements
fn sibling(k: K) -> Option<K> {
    Some(match k {
        K::ZeroPad => K::ZeroPadB,
        K::ZeroPadB => K::ZeroPad,
        K::ZeroInterleave => K::ZeroInterleaveB,
        K::ZeroInterleaveB => K::ZeroInterleave,
        K::Resize => K::ResizeB,
        K::ResizeB => K::Resize,
        K::Magnitude => K::MagnitudeB,
        K::MagnitudeSq => K::MagnitudeSqB,
        K::ToReal => K::ToRealB,
        K::ToImag => K::ToImagB,
        K::Phase => K::PhaseB,
        K::MagnitudeB => K::Magnitude,
        K::MagnitudeSqB => K::MagnitudeSq,
        K::ToRealB => K::ToReal,
        K::ToImagB => K::ToImag,
        K::PhaseB => K::Phase,
        K::Dot => K::DotPrec,
        K::DotPrec => K::Dot,
        K::Stats => K::StatsPrec,
        K::StatsPrec => K::Stats,
        K::StatsSplit => K::StatsSplitPrec,
        K::StatsSplitPrec => K::StatsSplit,
        K::Sum => K::SumPrec,
        K::SumPrec => K::Sum,
        K::SumSq => K::SumSqPrec,
        K::SumSqPrec => K::SumSq,
        K::Add => K::Sub,
        K::Sub => K::Mul,
        K::Mul => K::Div,
        K::Div => K::Add,
        K::AddSmaller => K::SubSmaller,
        K::SubSmaller => K::MulSmaller,
        K::MulSmaller => K::DivSmaller,
        K::DivSmaller => K::AddSmaller,
        K::PlainSfft => K::Sfft,
        K::Sfft => K::WindowedSfft,
        K::WindowedSfft => K::PlainSfft,
        K::PlainSifft => K::Sifft,
        K::Sifft => K::WindowedSifft,
        K::WindowedSifft => K::PlainSifft,
        K::SetRealImag => K::SetMagPhase,
        K::SetMagPhase => K::SetRealImag,
        _ => return None,
    })
}

fn generic<T: Num>(env: &mut Env, t: &mut Tape) -> Res {
    let mut prof = Profile::all().weight(|k| {
        if matches!(
            k,
            K::Add | K::Sub | K::Mul | K::Div | K::AddSmaller | K::SubSmaller | K::MulSmaller | K::DivSmaller | K::Dot | K::DotPrec
                | K::ZeroPad | K::ZeroPadB | K::SplitInto | K::Merge | K::Resize | K::ResizeB | K::StatsSplit | K::StatsSplitPrec
                | K::SetRealImag | K::SetMagPhase | K::PlainSfft | K::Sfft | K::WindowedSfft | K::PlainSifft | K::Sifft | K::WindowedSifft
                | K::ConvolveSignal | K::Correlate | K::Interpolatei | K::Interpolate | K::MapAggReal | K::MapAggComplex | K::ToComplex
        ) {
            4
        } else {
            1
        }
    });
    prof.bad_one_in = *t.pick(&[2u64, 2, 3, 1, 5]);
    prof.max_points = *t.pick(&[12u64, 40, 6]);
    prof.parallel = t.one_in(6);
    if t.one_in(30) {
        prof.long_one_in = 4;
        prof.max_len = 4000;
        prof.conv_len = 40;
    }
    let mut cfg = RunCfg::plain();
    cfg.alloc = draw_alloc(t, false, false);
    if prof.parallel {
        cfg.sched = draw_sched(t);
    }
    let nops = 3 + t.draw(if env.deep { 40 } else { 16 }) as usize;
    let ctx = Ctx::new(T::IS32, is_simd(env));
    let mut e2 = env.inner();
    let (r, out) = env.simulate(&cfg, || {
        let spare = prof.nregs;
        let mut w: World<T, VecKind> = World::new(VecKind, prof.nregs + 1, Spare::none());
        let plan = Plan { prof: &prof, ops: nops, is32: T::IS32 };
        let mut bufs = 0;
        for _ in 0..nops {
            let items = gen_next(t, &plan, &w, &mut bufs);
            for it in items.iter() {
                let op = match it {
                    Item::Op(op) => op,
                    it => {
                        log(|| it.show());
                        w.setup(it);
                        continue;
                    }
                };
                let pre = outside(|| w.model());
                let other = sibling(op.k);
                let mut twin = None;
                if let Some(k) = other {
                    if !op.others().contains(&op.t) {
                        // on a copy, so that both start at the same state
                        w.regs[spare] = w.regs[op.t].clone();
                        w.refresh(spare);
                        let mut o = op.clone();
                        o.k = k;
                        o.t = spare;
                        let (obs, bad) = step(&mut w, &o, &ctx);
                        if let Some((c, d)) = bad {
                            e2.report(&c, || d)?;
                        }
                        let ended = outside(|| w.snaps[spare].as_ref().map(|s| s.model().erroneous()).unwrap_or(false));
                        twin = Some((obs, ended));
                        w.regs[spare] = None;
                        w.refresh(spare);
                    }
                }
                let (obs, bad) = step(&mut w, op, &ctx);
                if let Some((c, d)) = bad {
                    e2.report(&c, || d)?;
                }
                if obs.status > 0 {
                    bump(C::fault_bad_argument, 1);
                }
                if let Some((o, ended)) = twin {
                    bump(C::comparisons, 1);
                    let mine = outside(|| w.snaps[op.t].as_ref().map(|s| s.model().erroneous()).unwrap_or(false));
                    if o.status != obs.status || mine != ended {
                        e2.report(&format!("overloads:{}", refmodel::ops::name(op.k)), || {
                            format!("{} returned {} but {} returned {} for the same arguments", op.show(), status_name(obs.status), refmodel::ops::name(other.unwrap()), status_name(o.status))
                        })?;
                    }
                    outside(|| drop(o));
                }
                let more = outside(|| tidy(&w, Some((op, &pre[..]))));
                for m in more.iter() {
                    w.setup(m);
                }
                outside(|| {
                    drop(more);
                    drop(pre);
                    drop(obs);
                });
            }
            outside(|| drop(items));
        }
        Ok(())
    });
    r?;
    leaks(env, &out)
}
