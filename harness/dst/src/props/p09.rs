//! Storage which cannot grow: fixed capacities, refused growth at any moment, small buffers.
use super::*;
use crate::check::*;
use refmodel::model::{apply, MVec, RegExp, Status};
use simrt::calls;
use subject::store::*;

pub fn case(env: &mut Env, t: &mut Tape) -> Res {
    let f32s = t.flag();
    let which = t.draw(8);
    let limit = *t.pick(&[8usize, 16, 40, 100, 200, 1000, usize::MAX, usize::MAX]);
    let slack = *t.pick(&[0usize, 0, 0, 1, 3, 30]);
    let shrinks = t.flag();
    macro_rules! go {
        ($t:ty) => {
            match which {
                0 => generic::<$t, _>(env, t, BoxKind, |k| everywhere(k)),
                1 => generic::<$t, _>(env, t, ArrayKind, |k| everywhere(k)),
                2 => generic::<$t, _>(env, t, SliceKind { owned: vec![] }, |k| everywhere(k) && !matches!(k, K::CloneFrom | K::ConvolveReal | K::ConvolveComplex | K::ConvolveSignal)),
                _ => generic::<$t, _>(env, t, SimKind { limit, slack, shrinks }, |_| true),
            }
        };
    }
    if f32s {
        go!(f32)
    } else {
        go!(f64)
    }
}

fn everywhere(k: K) -> bool {
    !matches!(k, K::SetRealImag | K::SetMagPhase | K::Merge)
}

/// operations which ask the storage of a vector for more room
fn grows(k: K) -> bool {
    refmodel::ops::buffered(k)
        || matches!(
            k,
            K::ZeroPad | K::ZeroInterleave | K::ToComplex | K::Resize | K::SplitInto | K::Merge | K::GetReal | K::GetImag | K::GetMagnitude
                | K::GetMagnitudeSq | K::GetPhase | K::GetRealImag | K::GetMagPhase | K::SetRealImag | K::SetMagPhase | K::CloneFrom
        )
}

/// operations which first take room for a longer intermediate result
fn stopover(k: K) -> bool {
    matches!(
        k,
        K::Interpolate | K::Interpft | K::Interpolatei | K::PlainSfft | K::Sfft | K::WindowedSfft | K::PlainSifft | K::Sifft | K::WindowedSifft
            | K::Fft | K::WindowedFft | K::PlainFft | K::Ifft | K::WindowedIfft | K::PlainIfft | K::PrepareArgument | K::PrepareArgumentPadded
            | K::Correlate
    )
}

/// the operation returns no result which could tell about a failure
fn mute(k: K) -> bool {
    !matches!(
        k,
        K::ZeroPad | K::ZeroPadB | K::ZeroInterleave | K::Resize | K::ResizeB | K::SplitInto | K::Merge | K::ToComplex
    )
}

fn generic<T: Num, Q: Kind<T>>(env: &mut Env, t: &mut Tape, kind: Q, can: impl Fn(K) -> bool) -> Res {
    let mut prof = Profile::all().filter(can).weight(|k| if grows(k) { 6 } else { 1 });
    prof.max_points = *t.pick(&[8u64, 20, 60, 130]);
    prof.bufs = vec![BUF_DIRTY, BUF_FIXED];
    prof.max_len = 2 * prof.max_points as usize;
    prof.bad_one_in = 30;
    let mut cfg = RunCfg::plain();
    cfg.alloc = draw_alloc(t, false, true);
    let spare = Spare { stale: *t.pick(&[0usize, 0, 3, 10, 60]), exact: false, cap: *t.pick(&[0usize, 0, 5, 20]), fill: t.draw(5) as u8 };
    let nops = 3 + t.draw(if env.deep { 24 } else { 10 }) as usize;
    let ctx = Ctx::new(T::IS32, is_simd(env));
    let mut e2 = env.inner();
    calls::store_reset();
    let (r, out) = env.simulate(&cfg, || {
        let mut w: World<T, Q> = World::new(kind, prof.nregs, spare);
        let plan = Plan { prof: &prof, ops: nops, is32: T::IS32 };
        let mut bufs = 0;
        for _ in 0..nops {
            let items = gen_next(t, &plan, &w, &mut bufs);
            for it in items.iter() {
                match it {
                    Item::Op(op) => one::<T, Q>(&mut e2, t, &mut w, op, &ctx)?,
                    Item::Buf(slot, BUF_FIXED, len, d) => {
                        // sometimes too small
                        let len = if t.one_in(4) { t.draw(40) as usize } else { *len };
                        w.setup(&Item::Buf(*slot, BUF_FIXED, len, *d));
                    }
                    it => {
                        log(|| it.show());
                        w.setup(it);
                    }
                }
            }
            outside(|| drop(items));
        }
        Ok(())
    });
    calls::store_reset();
    r?;
    leaks(env, &out)
}

fn one<T: Num, Q: Kind<T>>(env: &mut Env, t: &mut Tape, w: &mut World<T, Q>, op: &Op, ctx: &Ctx) -> Res {
    let involved: Vec<usize> = outside(|| std::iter::once(op.t).chain(op.others().iter().copied()).collect());
    if involved.iter().any(|r| w.regs[*r].is_none()) {
        return Ok(());
    }
    let (pre, exp, rooms) = outside(|| {
        let pre = w.model();
        let exp = apply(op, &pre, ctx);
        let rooms: Vec<usize> = w.regs.iter().map(|v| v.as_ref().map(|v| Q::room(v)).unwrap_or(0)).collect();
        (pre, exp, rooms)
    });
    let n = refmodel::ops::name(op.k);
    let arm = outside(|| grows(op.k) && t.flag());
    if arm {
        let (a, b) = outside(|| (*t.pick(&[0u64, 0, 0, 1, 2]), *t.pick(&[1u64, 1, 2, 1000])));
        calls::store_arm(a, b);
        log(|| format!("growth is refused from request {} on, {} times", a, b));
    }
    let refused0 = calls::store_refused();
    let obs = w.op(op);
    calls::store_disarm();
    let refused = calls::store_refused() - refused0;
    bump(C::fault_store_refused, refused);
    bump(C::checked, 1);
    let r = outside(|| {
        state(simrt::rng::combine(w.shape(op, &obs), refused.min(3)));
        digest(w.hash());
        digest(obs.status as u64);
        let (post, broken) = models(&w.snaps);
        let too_long = exp.out.iter().any(|(r, e)| match e {
            RegExp::Val(x) => x.v.len() > rooms[*r],
            RegExp::Unspecified => true,
            _ => false,
        }) || (stopover(op.k) && pre[op.t].as_ref().map(|p| 4 * p.points().max(op.n) > rooms[op.t]).unwrap_or(false));
        let lack = refused > 0 || too_long;
        if lack {
            bump(C::fault_store_full, 1);
        }
        for i in 0..post.len() {
            if broken[i] {
                return env.report(&format!("length:{}", n), || format!("{}: r{}: the valid length exceeds the storage", op.show(), i));
            }
        }
        let out_of_buffer = obs.status == PANICKED && (obs.panic.contains("Out of memory") || obs.panic.contains(NO_ROOM));
        let said_no = obs.status == refmodel::ops::NORESIZE;
        let fine = matches!(exp.status, Status::Ok | Status::Unspecified);
        if (out_of_buffer || obs.status == PANICKED && lack && mute(op.k)) && fine {
            // Only a report by panic is left. Others mustn't be affected.
            for i in 0..post.len() {
                if !involved.contains(&i) && !same(&pre[i], &post[i]) {
                    return env.report(&format!("full-foreign:{}", n), || format!("{}: r{} isn't involved but changed", op.show(), i));
                }
            }
            bump(C::panics_documented, 1);
            return Ok(());
        }
        if said_no && lack && fine {
            for i in 0..post.len() {
                if !same(&pre[i], &post[i]) {
                    return env.report(&format!("full-changed:{}", n), || {
                        format!("{}: reported that the storage can't grow, r{} changed from {:?} to {:?}", op.show(), i, pre[i].as_ref().map(brief), post[i].as_ref().map(brief))
                    });
                }
            }
            return Ok(());
        }
        match judge_dev(op, &exp, &pre, &post, &broken, &obs, ctx) {
            Some((c, d)) => env.report(&c, || format!("{}: {} (growth refused {} times)", op.show(), d, refused)),
            None => Ok(()),
        }
    });
    r?;
    let more = outside(|| {
        let mut v = tidy(w, Some((op, &pre[..])));
        if obs.status == PANICKED {
            v.clear();
            for r in involved.iter() {
                if !w.snaps[*r].as_ref().map(|s| s.broken || s.model().erroneous()).unwrap_or(true) && !t.one_in(3) {
                    v.push(Item::Mend(*r, 0));
                } else {
                    v.push(Item::Drop(*r));
                }
            }
        }
        v
    });
    for m in more.iter() {
        log(|| m.show());
        w.setup(m);
    }
    outside(|| {
        drop(more);
        drop(pre);
        drop(exp);
        drop(rooms);
        drop(involved);
    });
    Ok(())
}

fn same(a: &Option<MVec>, b: &Option<MVec>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => same_model(a, b),
        (None, None) => true,
        _ => false,
    }
}

fn brief(v: &MVec) -> String {
    format!("{} {} samples, delta {:?}, {:?}", if v.cx { "complex" } else { "real" }, v.d.len(), v.delta, &v.d[..v.d.len().min(6)])
}
