//! Scratch buffers: the same program with other kinds, sizes and contents of buffers.
use super::*;
use super::twin::*;
use subject::store::*;

pub fn case(env: &mut Env, t: &mut Tape) -> Res {
    match t.draw(6) {
        0 => generic::<f32, _>(env, t, || SimKind { limit: usize::MAX, slack: 0, shrinks: false }),
        1 => generic::<f64, _>(env, t, || SimKind { limit: usize::MAX, slack: 3, shrinks: true }),
        2 | 3 => generic::<f32, _>(env, t, || VecKind),
        _ => generic::<f64, _>(env, t, || VecKind),
    }
}

fn draw_buf(t: &mut Tape, room: usize) -> (usize, usize, u8) {
    let kind = *t.pick(&[BUF_SINGLE, BUF_NONE, BUF_FIXED, BUF_DIRTY]);
    let len = match kind {
        BUF_FIXED => room + t.draw(3) as usize * 50,
        _ => *t.pick(&[0usize, 1, 7, 10, 33, 100, 257, 700, 3000]),
    };
    if len < 100 {
        bump(C::fault_small_buffer, 1);
    }
    bump(C::fault_dirty_buffer, 1);
    (kind, len, t.draw(4) as u8)
}

fn generic<T: Num, Q: Kind<T>>(env: &mut Env, t: &mut Tape, kind: impl Fn() -> Q) -> Res {
    let mut prof = Profile::all().weight(|k| if refmodel::ops::buffered(k) { 4 } else { 1 });
    prof.bufs = vec![BUF_SINGLE, BUF_NONE, BUF_DIRTY];
    prof.max_points = *t.pick(&[24u64, 60, 120]);
    prof.parallel = t.one_in(4);
    prof.bad_one_in = 30;
    if t.one_in(12) {
        prof.long_one_in = 3;
        prof.max_len = 4000;
        prof.conv_len = 40;
    }
    // no operation needs more than that
    let room = prof.max_len * 4 + 12000;
    let mut cfg = RunCfg::plain();
    cfg.alloc = draw_alloc(t, false, false);
    if prof.parallel {
        cfg.sched = draw_sched(t);
    }
    let nops = 2 + t.draw(if env.deep { 24 } else { 10 }) as usize;
    let ctx = Ctx::new(T::IS32, is_simd(env));
    let mut prints: Vec<Step<T>> = Vec::new();
    let mut e2 = env.inner();
    let (items, out) = env.simulate(&cfg, || {
        let mut w: World<T, Q> = World::new(kind(), prof.nregs, Spare::none());
        let plan = Plan { prof: &prof, ops: nops, is32: T::IS32 };
        run_gen(&mut e2, t, &plan, &mut w, Some(&ctx), &mut |_, op, obs, pre, w| {
            prints.push(record(op, obs, pre, &w.snaps));
            Ok(())
        })
    });
    let items = items?;
    leaks(env, &out)?;
    let k = if env.deep { 6 } else { 2 };
    for round in 0..k {
        // all buffers are replaced: half of the time by a new one for each operation
        let fresh = t.flag();
        let mut other: Vec<Item> = vec![];
        for slot in 0..3 {
            let (kind, len, d) = draw_buf(t, room);
            other.push(Item::Buf(slot, kind, len, d));
        }
        for it in items.iter() {
            match it {
                Item::Buf(..) => (),
                Item::Op(op) if fresh && refmodel::ops::buffered(op.k) => {
                    let (kind, len, d) = draw_buf(t, room);
                    other.push(Item::Buf(op.buf, kind, len, d));
                    other.push(it.clone());
                }
                _ => other.push(it.clone()),
            }
        }
        let mut e2 = env.inner();
        let mut n = 0;
        let prints = &prints;
        let other = &other;
        let (r, out) = env.simulate(&cfg, || {
            let mut w: World<T, Q> = World::new(kind(), prof.nregs, Spare::none());
            run_items(&mut e2, &mut w, other, None, &mut |e, op, obs, pre, w| {
                state(simrt::rng::combine(w.shape(op, obs), op.buf as u64));
                let first = &prints[n];
                n += 1;
                match differs(first, op, obs, pre, &w.snaps, true) {
                    None => Ok(()),
                    Some(d) => e.report(&format!("buffer-visible:{}", refmodel::ops::name(op.k)), || format!("buffers {}: {}", round, d)),
                }
            })
        });
        r?;
        leaks(env, &out)?;
    }
    Ok(())
}
