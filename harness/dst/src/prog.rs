//! Runs programs: generated on the fly or recorded ones.
use crate::check::*;
use crate::env::*;
use crate::gen::*;
use crate::world::*;
use refmodel::model::MVec;
use refmodel::ops::*;
use refmodel::elem::Ctx;
use simrt::Tape;
use subject::num::Num;

pub type Hook<'a, T, K> = &'a mut dyn FnMut(&mut Env, &Op, &Obs, &[Option<MVec>], &World<T, K>) -> Res;

pub fn no_hook<T: Num, K: Kind<T>>(_: &mut Env, _: &Op, _: &Obs, _: &[Option<MVec>], _: &World<T, K>) -> Res {
    Ok(())
}

/// One item of a program. `ctx`: judge against the model.
pub fn run_item<T: Num, K: Kind<T>>(env: &mut Env, w: &mut World<T, K>, item: &Item, ctx: Option<&Ctx>, hook: Hook<T, K>) -> Res {
    match item {
        Item::Op(op) => {
            if op.t >= w.regs.len() || std::iter::once(&op.t).chain(op.others()).any(|r| w.regs[*r].is_none()) {
                return Ok(());
            }
            let pre = outside(|| w.model());
            let r = match ctx {
                Some(c) => {
                    let (obs, bad) = step(w, op, c);
                    let r = match bad {
                        Some((class, detail)) => outside(|| env.report(&class, || detail.clone())),
                        None => Ok(()),
                    };
                    r.and_then(|_| outside(|| hook(env, op, &obs, &pre, w)))
                }
                None => {
                    let obs = w.op(op);
                    outside(|| {
                        digest(w.hash());
                        digest(obs.status as u64);
                        hook(env, op, &obs, &pre, w)
                    })
                }
            };
            outside(|| drop(pre));
            r
        }
        i => {
            log(|| i.show());
            w.setup(i);
            Ok(())
        }
    }
}

/// what has to happen before the program can go on
pub fn tidy<T: Num, K: Kind<T>>(w: &World<T, K>, last: Option<(&Op, &[Option<MVec>])>) -> Vec<Item> {
    let mut v = vec![];
    if let Some((op, pre)) = last {
        if matches!(op.k, refmodel::ops::K::Resize | refmodel::ops::K::ResizeB) {
            if let (Some(Some(a)), Some(Some(b))) = (pre.get(op.t), w.snaps.get(op.t)) {
                if b.d.len() > a.d.len() && !b.broken {
                    v.push(Item::Mend(op.t, a.d.len()));
                    return v;
                }
            }
        }
    }
    for (i, s) in w.snaps.iter().enumerate() {
        if let Some(s) = s {
            if s.wild() {
                v.push(Item::Drop(i));
            }
        }
    }
    v
}

pub struct Plan<'a> {
    pub prof: &'a Profile,
    pub ops: usize,
    pub is32: bool,
}

/// The next items of a program: an operation and what it needs
pub fn gen_next<T: Num, K: Kind<T>>(tape: &mut Tape, plan: &Plan, w: &World<T, K>, bufs: &mut usize) -> Vec<Item> {
    outside(|| {
        let mut g = Gen {
            t: tape,
            p: plan.prof,
            regs: w.model(),
            sets: w.snaps.iter().map(|s| s.as_ref().map(|s| s.set).unwrap_or(SINGLE)).collect(),
            items: vec![],
            bufs: *bufs,
            is32: plan.is32,
            frozen: 0,
            k: refmodel::ops::K::Sin,
        };
        for r in g.regs.iter_mut() {
            if r.as_ref().map(|r| r.erroneous()).unwrap_or(false) {
                *r = None;
            }
        }
        g.next();
        *bufs = g.bufs;
        g.items
    })
}

/// Generates and runs a program. Returns everything that was executed.
pub fn run_gen<T: Num, K: Kind<T>>(
    env: &mut Env,
    tape: &mut Tape,
    plan: &Plan,
    w: &mut World<T, K>,
    ctx: Option<&Ctx>,
    hook: Hook<T, K>,
) -> Res<Vec<Item>> {
    let mut all: Vec<Item> = outside(|| Vec::with_capacity(64));
    let mut bufs = 0;
    for _ in 0..plan.ops {
        let items = gen_next(tape, plan, w, &mut bufs);
        for it in items.iter() {
            let pre = outside(|| w.model());
            let r = run_item(env, w, it, ctx, hook);
            outside(|| all.push(it.clone()));
            if let Err(e) = r {
                return Err(e);
            }
            let more = outside(|| tidy(w, if let Item::Op(op) = it { Some((op, &pre[..])) } else { None }));
            for m in more.iter() {
                w.setup(m);
                outside(|| all.push(m.clone()));
            }
            outside(|| {
                drop(pre);
                drop(more);
            });
        }
        outside(|| drop(items));
    }
    Ok(all)
}

pub fn run_items<T: Num, K: Kind<T>>(env: &mut Env, w: &mut World<T, K>, items: &[Item], ctx: Option<&Ctx>, hook: Hook<T, K>) -> Res {
    for it in items {
        run_item(env, w, it, ctx, hook)?;
    }
    Ok(())
}
