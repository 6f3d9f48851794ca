//! Calls of user functions: which samples, which positions, how often and when.
use super::*;
use refmodel::func;
use refmodel::model::{apply, Exp, MVec, RegExp, Status};
use simrt::calls::{self, Call};

pub fn case(env: &mut Env, t: &mut Tape) -> Res {
    if t.flag() {
        generic::<f32>(env, t)
    } else {
        generic::<f64>(env, t)
    }
}

type Bad = Option<(&'static str, String)>;

fn kinds_of(k: K) -> &'static [u8] {
    match k {
        K::MapReal | K::MapComplex => &[calls::MAP],
        K::MapAggReal | K::MapAggComplex => &[calls::AGGMAP, calls::AGG],
        K::WindowedFft | K::WindowedIfft | K::WindowedSfft | K::WindowedSifft | K::ApplyWindow | K::UnapplyWindow => &[calls::WIN],
        K::ConvolveReal | K::Interpolatef => &[calls::IMP],
        K::ConvolveComplex => &[calls::IMPC],
        K::MulFreqReal | K::Interpolatei | K::Interpolate => &[calls::FRQ],
        K::MulFreqComplex => &[calls::FRQC],
        _ => &[],
    }
}

/// each sample once, with its index and value
fn mapped<T: Num>(log: &[Call], kind: u8, pre: &Snap<T>, all: bool) -> Bad {
    let n = pre.points();
    let mut seen = vec![0u32; n];
    for c in log.iter().filter(|c| c.kind == kind) {
        let i = c.a as usize;
        if i >= n {
            return Some(("index", format!("called with index {} of {} samples", i, n)));
        }
        seen[i] += 1;
        let (re, im) = if pre.cx { (pre.d[2 * i].bits(), pre.d[2 * i + 1].bits()) } else { (pre.d[i].bits(), T::zero().bits()) };
        let im_ok = kind == calls::MAP && !pre.cx || c.c == im;
        if c.b != re || !im_ok {
            return Some(("sample", format!("called for index {} with a value which isn't the sample's ({:x} {:x} instead of {:x} {:x})", i, c.b, c.c, re, im)));
        }
    }
    if let Some(i) = seen.iter().position(|x| *x > 1) {
        return Some(("twice", format!("called {} times for sample {} of {}", seen[i], i, n)));
    }
    if all {
        if let Some(i) = seen.iter().position(|x| *x == 0) {
            return Some(("missing", format!("not called for sample {} of {}", i, n)));
        }
    }
    None
}

/// every mapped value and every intermediate aggregate is combined exactly once, the last one is returned
fn aggregated<T: Num>(log: &[Call], op: &Op, pre: &Snap<T>, ret: f64) -> Bad {
    let m = pre.model();
    let mut have: Vec<i64> = m.cvals().iter().enumerate().map(|(i, z)| func::agg_map(op.f, refmodel::sample_bits(*z), i, op.a as i64)).collect();
    let mut used = vec![];
    for c in log.iter().filter(|c| c.kind == calls::AGG) {
        used.push(c.a as i64);
        used.push(c.b as i64);
        have.push(func::agg(op.f, c.a as i64, c.b as i64));
    }
    used.push(ret as i64);
    have.sort_unstable();
    used.sort_unstable();
    if have != used {
        return Some(("combined", format!("{} values were to be combined and {} were", have.len(), used.len())));
    }
    None
}

fn windowed(log: &[Call], points: usize, symmetric: bool, all: bool) -> Bad {
    let mut seen = vec![0u32; points];
    for c in log.iter().filter(|c| c.kind == calls::WIN) {
        if c.b as usize != points {
            return Some(("window-length", format!("window evaluated for length {} instead of {}", c.b, points)));
        }
        if c.a as usize >= points {
            return Some(("window-range", format!("window evaluated at {} of {}", c.a, points)));
        }
        seen[c.a as usize] += 1;
    }
    if let Some(i) = seen.iter().position(|x| *x > 1) {
        return Some(("window-twice", format!("window evaluated {} times at {} of {}", seen[i], i, points)));
    }
    if !all {
        return None;
    }
    for i in 0..points {
        let ok = seen[i] == 1 || (symmetric && seen[points - 1 - i] == 1);
        if !ok {
            return Some(("window-missing", format!("window not evaluated at {} of {}", i, points)));
        }
    }
    None
}

/// the positions of a spectrum's bins: -1 .. 1, scaled
fn spectrum(log: &[Call], kind: u8, points: usize, ratio: f64, symmetric: bool, is32: bool, all: bool) -> Bad {
    let off = (points % 2) as f64;
    let max = (points as f64 - off) / 2.0;
    if points < 2 {
        return None;
    }
    let pos = |i: usize| (i as f64 - max) / max * ratio;
    let tol = if is32 { 1e-4 } else { 1e-9 } * (1.0 + ratio.abs());
    let mut seen = vec![0u32; points];
    for c in log.iter().filter(|c| c.kind == kind) {
        let x = f64::from_bits(c.a);
        let i = (x / ratio * max + max).round();
        let j = (-x / ratio * max + max).round();
        let i = if i >= 0.0 && (i as usize) < points {
            i as usize
        } else if symmetric && j >= 0.0 && (j as usize) < points {
            j as usize
        } else {
            return Some(("response-range", format!("frequency response evaluated at {} which is outside of -{}..{}", x, ratio, ratio)));
        };
        if (pos(i).abs() - x.abs()).abs() > tol {
            return Some(("response-position", format!("frequency response evaluated at {} which is the position of none of the {} bins", x, points)));
        }
        seen[i] += 1;
    }
    if !all {
        return None;
    }
    if !symmetric {
        if let Some(i) = seen.iter().position(|x| *x != 1) {
            return Some(("response-count", format!("frequency response evaluated {} times for bin {} of {}", seen[i], i, points)));
        }
        return None;
    }
    for i in 0..points {
        // the bin at the negated position, if there is one
        let j = (2.0 * max) as usize - i;
        let n = seen[i] + if j < points && j != i { seen[j] } else { 0 };
        if n == 0 {
            return Some(("response-missing", format!("frequency response not evaluated for bin {} of {}", i, points)));
        }
    }
    None
}

/// the bins of a spectrum before its halves are swapped: any order, inside of the range
fn range(log: &[Call], kind: u8, max: f64) -> Bad {
    for c in log.iter().filter(|c| c.kind == kind) {
        let x = f64::from_bits(c.a);
        if !(x.abs() <= max) {
            return Some(("range", format!("evaluated at {} which is outside of -{}..{}", x, max, max)));
        }
    }
    None
}

fn judge_calls<T: Num>(op: &Op, pre: &Snap<T>, exp: &Exp, obs: &Obs, post: Option<&Snap<T>>) -> Bad {
    if obs.late > 0 {
        return Some(("late", format!("{} calls of user functions after the operation returned", obs.late)));
    }
    if calls::overflow() {
        return None;
    }
    let log = calls::log();
    let allowed = kinds_of(op.k);
    if let Some(c) = log.iter().find(|c| !allowed.contains(&c.kind)) {
        return Some(("foreign", format!("a function of kind {} was called", c.kind)));
    }
    if let Some(c) = log.iter().find(|c| c.id as usize != op.f) {
        return Some(("foreign", format!("function {} was called instead of {}", c.id, op.f)));
    }
    let rejected = match exp.status {
        Status::Err(_) => true,
        _ => exp.out.iter().any(|o| o.0 == op.t && matches!(o.1, RegExp::Invalid)),
    };
    if rejected {
        return None;
    }
    let good = matches!(exp.status, Status::Ok) && obs.status == 0;
    let failed = obs.injected;
    if !good && !failed {
        return None;
    }
    let points = pre.points();
    match op.k {
        K::MapReal | K::MapComplex => mapped(log, calls::MAP, pre, good),
        K::MapAggReal | K::MapAggComplex => {
            let r = mapped(log, calls::AGGMAP, pre, good);
            if r.is_some() || !good {
                return r;
            }
            aggregated(log, op, pre, obs.rets[0])
        }
        K::WindowedFft | K::WindowedSfft | K::ApplyWindow | K::UnapplyWindow => windowed(log, points, func::win_symmetric(op.f), good),
        K::WindowedIfft | K::WindowedSifft => match post {
            Some(p) if good => windowed(log, p.points(), func::win_symmetric(op.f), true),
            _ => None,
        },
        K::MulFreqReal => spectrum(log, calls::FRQ, points, op.a, func::freq_symmetric(op.f), T::IS32, good),
        K::MulFreqComplex => spectrum(log, calls::FRQC, points, op.a, op.f % 2 == 0, T::IS32, good),
        K::Interpolatei => {
            let n = points * op.n;
            let r = range(log, calls::FRQ, op.n as f64 * (1.0 + 1e-5));
            if r.is_none() && good && n > 1 && op.n > 1 {
                let c = log.len();
                let sym = func::freq_symmetric(op.f);
                if c > n || (!sym && c != n) || (sym && c * 2 < n) {
                    return Some(("response-count", format!("frequency response evaluated {} times for {} bins", c, n)));
                }
            }
            r
        }
        K::Interpolate => {
            let f = (op.n as f64 / points.max(1) as f64).max(1.0);
            range(log, calls::FRQ, f * (1.0 + 1e-5))
        }
        K::ConvolveReal => range(log, calls::IMP, (op.n + 1) as f64 * op.a.max(1.0 / op.a)),
        K::ConvolveComplex => range(log, calls::IMPC, (op.n + 1) as f64 * op.a.max(1.0 / op.a)),
        K::Interpolatef => range(log, calls::IMP, (op.n + 1) as f64 + op.b.abs() / pre.delta.d().abs() + 1e-3),
        _ => None,
    }
}

fn generic<T: Num>(env: &mut Env, t: &mut Tape) -> Res {
    let mut prof = p01::profile(t).filter(|k| refmodel::ops::user_fn(k)).weight(|k| match k {
        K::MapReal | K::MapComplex | K::MapAggReal | K::MapAggComplex | K::ApplyWindow | K::UnapplyWindow | K::MulFreqReal | K::MulFreqComplex => 4,
        _ => 1,
    });
    prof.bad_one_in = 25;
    if t.one_in(4) {
        prof.parallel = false;
    }
    let mut cfg = RunCfg::plain();
    cfg.alloc = draw_alloc(t, false, false);
    cfg.sched = draw_sched(t);
    cfg.nest = draw_nest(t);
    let nops = 3 + t.draw(if env.deep { 24 } else { 10 }) as usize;
    let ctx = Ctx::new(T::IS32, is_simd(env));
    let faulty = t.one_in(4);
    let mut e2 = env.inner();
    let (r, out) = env.simulate(&cfg, || {
        let mut w: World<T, VecKind> = World::new(VecKind, prof.nregs, Spare::none());
        w.logging = true;
        let plan = Plan { prof: &prof, ops: nops, is32: T::IS32 };
        let mut bufs = 0;
        for _ in 0..nops {
            let items = gen_next(t, &plan, &w, &mut bufs);
            for it in items.iter() {
                let op = match it {
                    Item::Op(op) => op,
                    it => {
                        log(|| it.show());
                        w.setup(it);
                        continue;
                    }
                };
                let (pre, snap, exp): (Vec<Option<MVec>>, Option<Snap<T>>, Exp) = outside(|| {
                    let pre = w.model();
                    let exp = apply(op, &pre, &ctx);
                    (pre, w.snaps[op.t].clone(), exp)
                });
                let fault = if faulty { outside(|| p04::arm(t, op)) } else { p04::NOTHING };
                let obs = w.op(op);
                p04::disarm();
                if obs.injected {
                    p04::note(fault);
                }
                bump(C::checked, 1);
                let r = outside(|| {
                    state(simrt::rng::combine(w.shape(op, &obs), obs.calls));
                    digest(w.hash());
                    digest(obs.status as u64);
                    let mut h = 0;
                    for c in calls::log() {
                        h = simrt::rng::combine(h, c.a);
                    }
                    digest(h);
                    let n = refmodel::ops::name(op.k);
                    if let Some(ref s) = snap {
                        if let Some((c, d)) = judge_calls(op, s, &exp, &obs, w.snaps[op.t].as_ref()) {
                            return e2.report(&format!("calls-{}:{}", c, n), || format!("{} on {} samples, {} worker threads: {}", op.show(), s.d.len(), obs.kids.2, d));
                        }
                    }
                    if !obs.injected {
                        let (post, broken) = crate::check::models(&w.snaps);
                        if let Some((c, d)) = crate::check::judge_dev(op, &exp, &pre, &post, &broken, &obs, &ctx) {
                            return e2.report(&c, || format!("{}: {}", op.show(), d));
                        }
                    }
                    Ok(())
                });
                r?;
                let more = outside(|| {
                    let mut v: Vec<Item> = tidy(&w, Some((op, &pre[..])));
                    if obs.status == PANICKED {
                        v = std::iter::once(op.t).chain(op.others().iter().copied()).map(Item::Drop).collect();
                    }
                    v
                });
                for m in more.iter() {
                    w.setup(m);
                }
                outside(|| {
                    drop(more);
                    drop(pre);
                    drop(snap);
                    drop(exp);
                });
            }
            outside(|| drop(items));
        }
        Ok(())
    });
    r?;
    leaks(env, &out)
}
