//! Several callers at once: they share some vectors, which they may only read, and change vectors
//! of their own. Each call is judged by the model and has to agree bit by bit with the execution
//! in which the callers run one after the other.
use super::*;
use crate::check::*;
use refmodel::model::{apply, MVec};
use simrt::rng::combine;
use std::panic::{catch_unwind, AssertUnwindSafe};
use subject::exec::Outcome;

pub fn case(env: &mut Env, t: &mut Tape) -> Res {
    if t.flag() {
        generic::<f32>(env, t)
    } else {
        generic::<f64>(env, t)
    }
}

const SHARED: usize = 3;
const OWN: usize = 4;

#[derive(Clone)]
struct Plan12 {
    seed: u64,
    ops: usize,
}

/// What a caller observed
struct Note {
    name: String,
    k: K,
    hash: u64,
    detail: String,
}

type V<T> = <VecKind as Kind<T>>::S;

fn call<T: Num>(shared: &[basic_dsp_vector::GenDspVec<V<T>, T>], w: &mut World<T, VecKind>, op: &Op) -> Result<Outcome, ()> {
    while w.bufs.len() <= op.buf {
        let b = <VecKind as Kind<T>>::buf(&mut w.kind, subject::store::BUF_DIRTY, 0, subject::store::Dirt { mode: 0 });
        w.bufs.push(b);
    }
    let mut own: Vec<Option<_>> = w.regs.drain(..).collect();
    let buf = &mut w.bufs[op.buf];
    let r = catch_unwind(AssertUnwindSafe(|| {
        use refmodel::ops::*;
        if read_only(op.k) {
            let get = |i: usize| if i < SHARED { &shared[i] } else { own[i - SHARED].as_ref().unwrap() };
            let o = if op.no > 0 { Some(get(op.o[0])) } else { None };
            return <VecKind as Kind<T>>::read(get(op.t), o, op).unwrap_or_else(|| Outcome::of(Err(-1)));
        }
        if op.t < SHARED {
            // results are written to vectors of this caller
            let mut outs: Vec<&mut basic_dsp_vector::GenDspVec<V<T>, T>> = vec![];
            let p = own.as_mut_ptr();
            for o in op.others() {
                outs.push(unsafe { (*p.add(*o - SHARED)).as_mut().unwrap() });
            }
            return <VecKind as Kind<T>>::get(&shared[op.t], &mut outs[..], op);
        }
        if op.others().iter().any(|o| *o < SHARED) {
            let mut v = own[op.t - SHARED].take().unwrap();
            let r = {
                let os: Vec<&basic_dsp_vector::GenDspVec<V<T>, T>> =
                    op.others().iter().map(|o| if *o < SHARED { &shared[*o] } else { own[*o - SHARED].as_ref().unwrap() }).collect();
                catch_unwind(AssertUnwindSafe(|| <VecKind as Kind<T>>::change(&mut v, buf, &os[..], op)))
            };
            own[op.t - SHARED] = Some(v);
            return match r {
                Ok(o) => o,
                Err(p) => std::panic::resume_unwind(p),
            };
        }
        let mut o2 = op.clone();
        o2.t -= SHARED;
        for i in 0..o2.no {
            o2.o[i] -= SHARED;
        }
        <VecKind as Kind<T>>::run(&mut own[..], buf, &o2)
    }));
    w.regs = own;
    r.map_err(|_| ())
}

/// One caller
fn client<T: Num>(env: &mut Env, shared: &[basic_dsp_vector::GenDspVec<V<T>, T>], snaps: &[Snap<T>], prof: &Profile, plan: &Plan12, ctx: &Ctx, notes: &mut Vec<Note>) -> Res {
    let mut w: World<T, VecKind> = World::new(VecKind, OWN, Spare::none());
    let mut tape = outside(|| Tape::generate(plan.seed));
    let mut bufs = 0;
    for _ in 0..plan.ops {
        let items = outside(|| {
            let mut regs: Vec<Option<MVec>> = snaps.iter().map(|s| Some(s.model())).collect();
            regs.extend(w.model());
            for r in regs.iter_mut() {
                if r.as_ref().map(|r| r.erroneous()).unwrap_or(false) {
                    *r = None;
                }
            }
            let mut sets: Vec<Set> = snaps.iter().map(|s| s.set).collect();
            sets.extend(w.snaps.iter().map(|s| s.as_ref().map(|s| s.set).unwrap_or(SINGLE)));
            let mut g = Gen { t: &mut tape, p: prof, regs, sets, items: vec![], bufs, is32: T::IS32, frozen: SHARED, k: K::Sin };
            g.next();
            bufs = g.bufs;
            g.items
        });
        for it in items.iter() {
            let op = match it {
                Item::Op(op) => op,
                Item::Fill(f) => {
                    let mut f = f.clone();
                    log(|| format!("caller {}: {}", plan.seed % 1000, Item::Fill(f.clone()).show()));
                    f.reg -= SHARED;
                    w.setup(&Item::Fill(f));
                    continue;
                }
                it => {
                    log(|| format!("caller {}: {}", plan.seed % 1000, it.show()));
                    w.setup(it);
                    continue;
                }
            };
            let known = |r: usize| r < SHARED || w.regs[r - SHARED].is_some();
            let writes_shared = op.t < SHARED && !refmodel::ops::read_only(op.k) && !subject::groups::is_target_output(op.k);
            let outs_shared = subject::groups::is_target_output(op.k) && op.others().iter().any(|o| *o < SHARED);
            let twice = op.others().iter().enumerate().any(|(i, o)| *o == op.t || op.others()[..i].contains(o));
            if writes_shared || outs_shared || (twice && op.t >= SHARED) || !known(op.t) || op.others().iter().any(|o| !known(*o)) {
                continue;
            }
            let (pre, exp) = outside(|| {
                let mut pre: Vec<Option<MVec>> = snaps.iter().map(|s| Some(s.model())).collect();
                pre.extend(w.model());
                let exp = apply(op, &pre, ctx);
                let n = op.show();
                context(&n);
                (pre, exp)
            });
            sched::reset_kids();
            let r = call(shared, &mut w, op);
            let kids = sched::kids();
            bump(C::ops, 1);
            shm().ops[op.k as usize] += 1;
            if kids.2 > 0 {
                bump(C::parallel_ops, 1);
            }
            for i in 0..OWN {
                w.refresh(i);
            }
            let mut obs = Obs { status: PANICKED, rets: vec![], panic: String::new(), injected: false, kids, calls: 0, late: 0, steps: 0 };
            match r {
                Ok(o) => {
                    outside(|| {
                        obs.status = match o.status {
                            Ok(()) => 0,
                            Err(e) => e,
                        };
                        obs.rets = o.rets.clone();
                    });
                    drop(o);
                }
                Err(()) => outside(|| obs.panic = take_panic()),
            }
            bump(C::checked, 1);
            let r = outside(|| {
                let mut post: Vec<Option<MVec>> = vec![];
                let mut broken = vec![];
                let mut h = obs.status as u64;
                for (i, v) in shared.iter().enumerate() {
                    let now = Snap::of(v);
                    if !now.same(&snaps[i]) {
                        return env.report(&format!("shared-changed:{}", refmodel::ops::name(op.k)), || format!("{}: shared r{} changed from {} to {}", op.show(), i, snaps[i].show(), now.show()));
                    }
                    post.push(Some(now.model()));
                    broken.push(now.broken);
                }
                for s in w.snaps.iter() {
                    post.push(s.as_ref().map(|s| s.model()));
                    broken.push(s.as_ref().map(|s| s.broken).unwrap_or(false));
                }
                let unspecified_growth = matches!(op.k, K::Resize | K::ResizeB);
                if !unspecified_growth {
                    for s in w.snaps.iter() {
                        h = combine(h, s.as_ref().map(|s| s.hash()).unwrap_or(1));
                    }
                }
                for r in obs.rets.iter() {
                    h = combine(h, r.to_bits());
                }
                let d = format!("{} {:?} {}", status_name(obs.status), obs.rets, if op.t >= SHARED { w.snaps[op.t - SHARED].as_ref().map(|s| s.show()).unwrap_or_default() } else { String::new() });
                log(|| format!("caller {}: {} -> {}", plan.seed % 1000, op.show(), d));
                notes.push(Note { name: op.show(), k: op.k, hash: h, detail: d });
                state(combine(h, obs.kids.2 as u64));
                digest(h);
                if let Some((c, d)) = judge_dev(op, &exp, &pre, &post, &broken, &obs, ctx) {
                    return env.report(&c, || format!("{} (shared are r0..r{}): {}", op.show(), SHARED - 1, d));
                }
                if kids.0 > 0 {
                    return env.report(&format!("outlived:{}", refmodel::ops::name(op.k)), || format!("{} returned while {} of its threads are alive", op.show(), kids.0));
                }
                Ok(())
            });
            outside(|| {
                drop(exp);
                drop(obs);
            });
            r?;
            let more = outside(|| {
                let o2 = if op.t >= SHARED {
                    let mut o = op.clone();
                    o.t -= SHARED;
                    Some(o)
                } else {
                    None
                };
                let v = match o2 {
                    Some(ref o) => tidy(&w, Some((o, &pre[SHARED..]))),
                    None => tidy(&w, None),
                };
                drop(pre);
                v
            });
            for m in more.iter() {
                w.setup(m);
            }
            outside(|| drop(more));
        }
        outside(|| drop(items));
    }
    outside(|| drop(tape));
    Ok(())
}

fn generic<T: Num>(env: &mut Env, t: &mut Tape) -> Res {
    let mut prof = Profile::all().weight(|k| {
        if refmodel::ops::read_only(k) || subject::groups::is_target_output(k) || k == K::CloneFrom {
            4
        } else if refmodel::ops::parallel(k) || refmodel::ops::arity(k) > 0 {
            2
        } else {
            1
        }
    });
    prof.nregs = SHARED + OWN;
    prof.max_points = *t.pick(&[24u64, 60, 120]);
    prof.parallel = t.one_in(2);
    prof.bad_one_in = 30;
    if t.one_in(12) {
        prof.long_one_in = 4;
        prof.max_len = 4000;
        prof.conv_len = 40;
    }
    let mut cfg = RunCfg::plain();
    cfg.alloc = draw_alloc(t, false, false);
    cfg.sched = draw_sched(t);
    cfg.nest = draw_nest(t);
    let nclients = 2 + t.draw(if env.deep { 5 } else { 3 }) as usize;
    let mut fills = vec![];
    for reg in 0..SHARED {
        let cx = if reg == 2 { t.flag() } else { reg == 1 };
        let fr = t.one_in(3);
        let points = gen_points(t, &prof);
        let style = t.draw(6);
        let seed = t.draw(1 << 16);
        let delta = *t.pick(DELTAS);
        let set = gen_settings(t, prof.parallel);
        fills.push(Fill { reg, points, cx, fr, delta, seed, style, dc_real: false, set });
    }
    let plans: Vec<Plan12> = (0..nclients)
        .map(|_| Plan12 { ops: 1 + t.draw(if env.deep { 16 } else { 7 }) as usize, seed: t.draw(1 << 32) })
        .collect();
    let ctx = Ctx::new(T::IS32, is_simd(env));
    let mut first: Vec<Vec<Note>> = vec![];
    for together in [true, false] {
        let mut c = cfg.clone();
        if !together {
            c.sched = sched::Config::plain();
        }
        let mut envs: Vec<Env> = (0..nclients).map(|_| env.inner()).collect();
        let mut notes: Vec<Vec<Note>> = (0..nclients).map(|_| vec![]).collect();
        let (fills, plans, prof, ctx) = (&fills, &plans, &prof, &ctx);
        let (r, out) = env.simulate(&c, || {
            let mut w: World<T, VecKind> = World::new(VecKind, SHARED, Spare::none());
            for f in fills.iter() {
                log(|| Item::Fill(f.clone()).show());
                w.setup(&Item::Fill(f.clone()));
            }
            let shared: Vec<basic_dsp_vector::GenDspVec<V<T>, T>> = w.regs.drain(..).map(|r| r.unwrap()).collect();
            let snaps: Vec<Snap<T>> = outside(|| shared.iter().map(Snap::of).collect());
            let mut results: Vec<Res> = outside(|| (0..nclients).map(|_| Ok(())).collect());
            {
                let (shared, snaps) = (&shared, &snaps);
                if together {
                    std::thread::scope(|s| {
                        let mut handles = vec![];
                        for (((e, n), p), r) in envs.iter_mut().zip(notes.iter_mut()).zip(plans.iter()).zip(results.iter_mut()) {
                            handles.push(s.spawn(move || *r = client(e, shared, snaps, prof, p, ctx, n)));
                        }
                        // until they ended, not only until they are done
                        for h in handles {
                            h.join().unwrap();
                        }
                    });
                } else {
                    for (((e, n), p), r) in envs.iter_mut().zip(notes.iter_mut()).zip(plans.iter()).zip(results.iter_mut()) {
                        *r = client(e, shared, snaps, prof, p, ctx, n);
                    }
                }
            }
            outside(|| {
                drop(snaps);
                let mut all = Ok(());
                for r in results {
                    if all.is_ok() {
                        all = r;
                    }
                }
                all
            })
        });
        r?;
        leaks(env, &out)?;
        if together {
            first = notes;
            continue;
        }
        for (c, (a, b)) in first.iter().zip(notes.iter()).enumerate() {
            bump(C::comparisons, a.len() as u64);
            for (x, y) in a.iter().zip(b.iter()) {
                if x.hash != y.hash || x.name != y.name {
                    return env.report(&format!("interference:{}", refmodel::ops::name(x.k)), || {
                        format!("caller {}: {} together with others: {}; alone: {} {}", c, x.name, x.detail, y.name, y.detail)
                    });
                }
            }
            if a.len() != b.len() {
                return env.report("interference:calls", || format!("caller {} made {} calls and alone {}", c, a.len(), b.len()));
            }
        }
    }
    Ok(())
}
