//! Matrices: every operation is executed on a matrix and, row by row, on vectors.
use super::*;
use crate::check::*;
use refmodel::model::MVec;
use simrt::calls;
use simrt::rng::combine;
use std::panic::{catch_unwind, AssertUnwindSafe};
use subject::exec::{Outcome, UNSUPPORTED};
use subject::mat::*;
use subject::store::*;
use basic_dsp_matrix::*;

type W<T> = World<T, VecKind>;

pub fn case(env: &mut Env, t: &mut Tape) -> Res {
    match t.draw(12) {
        0 => generic::<f32, Matrix2xN<Row<f32>, Vec<f32>, f32>>(env, t),
        1 | 2 => generic::<f64, Matrix2xN<Row<f64>, Vec<f64>, f64>>(env, t),
        3 => generic::<f32, Matrix3xN<Row<f32>, Vec<f32>, f32>>(env, t),
        4 => generic::<f64, Matrix3xN<Row<f64>, Vec<f64>, f64>>(env, t),
        5 => generic::<f32, Matrix4xN<Row<f32>, Vec<f32>, f32>>(env, t),
        6 => generic::<f64, Matrix4xN<Row<f64>, Vec<f64>, f64>>(env, t),
        7 | 8 => generic::<f32, MatrixMxN<Row<f32>, Vec<f32>, f32>>(env, t),
        _ => generic::<f64, MatrixMxN<Row<f64>, Vec<f64>, f64>>(env, t),
    }
}

struct Sim<T: Num, M: Mat<T>> {
    rows: usize,
    /// row k of every register; one more than there are rows if there are none
    w: Vec<W<T>>,
    mats: Vec<Option<M>>,
    bufs: Vec<VecBuf<T>>,
}

fn take<T: Num>(w: &W<T>, r: usize) -> Option<Row<T>> {
    w.regs[r].clone()
}

impl<T: Num, M: Mat<T>> Sim<T, M> {
    /// the matrix gets the content of the rows
    fn sync(&mut self, r: usize) {
        self.mats[r] = None;
        if self.w[0].regs[r].is_some() {
            let rows: Vec<Row<T>> = self.w[..self.rows].iter().map(|w| take(w, r).unwrap()).collect();
            self.mats[r] = Some(M::build(rows));
        }
    }
    fn drop_reg(&mut self, r: usize) {
        for w in self.w.iter_mut() {
            w.setup(&Item::Drop(r));
        }
        self.mats[r] = None;
    }
    /// The rows of a matrix against the vectors
    fn compare(&self, what: &str) -> Result<(), (String, String)> {
        outside(|| {
            for r in 0..self.mats.len() {
                let m = match self.mats[r] {
                    Some(ref m) => m,
                    None => continue,
                };
                bump(C::comparisons, 1);
                if m.rows().len() != self.rows {
                    return Err((format!("rows:{}", what), format!("r{} has {} rows instead of {}", r, m.rows().len(), self.rows)));
                }
                for k in 0..self.rows {
                    let s = match self.w[k].snaps[r] {
                        Some(ref s) => s,
                        None => continue,
                    };
                    let x = Snap::of(&m.rows()[k]);
                    if !x.same(s) {
                        return Err((format!("row:{}", what), format!("row {} of r{} is {} (cores {:?}), the vector {} (cores {:?})", k, r, x.show(), x.set, s.show(), s.set)));
                    }
                }
                let m = m.meta();
                let e = match self.w[0].snaps[r] {
                    Some(ref s) if self.rows > 0 => Meta { fr: s.fr, cx: s.cx, delta: s.delta.d(), row_len: s.d.len(), row_points: s.points(), col_len: self.rows },
                    _ => Meta { fr: false, cx: false, delta: 0.0, row_len: 0, row_points: 0, col_len: self.rows },
                };
                if m != e && !(m.delta.is_nan() && e.delta.is_nan() && Meta { delta: 0.0, ..m.clone() } == Meta { delta: 0.0, ..e.clone() }) {
                    return Err((format!("meta:{}", what), format!("r{} reports {:?}, its rows are {:?}", r, m, e)));
                }
            }
            Ok(())
        })
    }
}

fn observe<X>(f: impl FnOnce() -> X) -> (Result<X, ()>, Obs) {
    reset_panic();
    let panics0 = calls::panics();
    let count0 = calls::count();
    let late0 = calls::late();
    let faults0 = sched::spawn_faults();
    sched::reset_kids();
    calls::open(false);
    let r = catch_unwind(AssertUnwindSafe(f));
    calls::close();
    let mut obs = Obs { status: 0, rets: vec![], panic: String::new(), injected: false, kids: sched::kids(), calls: 0, late: 0, steps: 0 };
    let r = match r {
        Ok(x) => Ok(x),
        Err(p) => {
            drop(p);
            obs.status = PANICKED;
            obs.panic = outside(take_panic);
            Err(())
        }
    };
    obs.calls = calls::count() - count0;
    obs.late = calls::late() - late0;
    obs.injected = calls::panics() > panics0 || sched::spawn_faults() > faults0;
    (r, obs)
}
fn outcome(o: (Result<Outcome, ()>, Obs)) -> Obs {
    let (r, mut obs) = o;
    if let Ok(x) = r {
        obs.status = match x.status {
            Ok(()) => 0,
            Err(e) => e,
        };
        outside(|| obs.rets = x.rets.clone());
        drop(x);
    }
    obs
}

/// One operation on one row. `o`: the operand if it isn't a register of that row
fn row_op<T: Num>(w: &mut W<T>, o: Option<&Row<T>>, op: &Op) -> Obs {
    let read = refmodel::ops::read_only(op.k);
    if !read && o.is_none() {
        return w.op(op);
    }
    while w.bufs.len() <= op.buf {
        let b = <VecKind as Kind<T>>::buf(&mut w.kind, BUF_DIRTY, 0, Dirt { mode: 0 });
        w.bufs.push(b);
    }
    bump(C::ops, 1);
    let obs = if read {
        let v = w.regs[op.t].as_ref().unwrap();
        let own = if op.no > 0 { w.regs[op.o[0]].as_ref() } else { None };
        outcome(observe(|| row_read(v, o.or(own), op)))
    } else {
        let v = w.regs[op.t].as_mut().unwrap();
        let b = &mut w.bufs[op.buf];
        outcome(observe(|| <VecKind as Kind<T>>::change(v, b, &[o.unwrap()], op)))
    };
    w.refresh(op.t);
    obs
}

fn close(a: f64, b: f64, scale: f64, is32: bool) -> bool {
    a == b || (a - b).abs() <= scale * if is32 { 2e-5 } else { 1e-11 }
}

fn supported(k: K) -> bool {
    use K::*;
    !matches!(
        k,
        SplitInto | Merge | ZeroPad | ZeroPadB | ZeroInterleave | ZeroInterleaveB | ResizeB | CloneFrom | Stats | StatsPrec | StatsSplit | StatsSplitPrec
            | MapAggComplex
    )
}
fn may_take_vector(k: K) -> bool {
    use K::*;
    matches!(k, Add | Sub | Mul | Div | AddSmaller | SubSmaller | MulSmaller | DivSmaller | Dot | DotPrec)
}
/// operations whose matrix operands have to have as many rows
fn pairs_rows(k: K) -> bool {
    use K::*;
    may_take_vector(k) || matches!(k, Correlate | SetRealImag | SetMagPhase)
}

fn generic<T: Num, M: Mat<T>>(env: &mut Env, t: &mut Tape) -> Res
where
    M: 'static,
{
    let mut prof = Profile::all().filter(supported);
    prof.bad_one_in = *t.pick(&[12, 12, 40, 5]);
    prof.max_points = *t.pick(&[12u64, 30, 60]);
    prof.bufs = vec![BUF_SINGLE, BUF_NONE, BUF_DIRTY];
    prof.parallel = t.one_in(4);
    prof.nregs = 3;
    if t.one_in(20) {
        prof.long_one_in = 2;
        prof.max_len = 3600;
        prof.conv_len = 40;
    }
    let rows = match M::ROWS {
        0 if t.one_in(60) => {
            prof.max_points = 6;
            prof.long_one_in = 0;
            60 + t.draw(12) as usize
        }
        0 => *t.pick(&[1usize, 2, 3, 5, 2, 0]),
        n => n,
    };
    let mut cfg = RunCfg::plain();
    cfg.alloc = draw_alloc(t, false, false);
    if prof.parallel {
        cfg.sched = draw_sched(t);
    }
    let faults = t.one_in(3);
    let nops = 3 + t.draw(if env.deep { 20 } else { 8 }) as usize;
    let mut e2 = env.inner();
    let (r, out) = env.simulate(&cfg, || {
        let mut s: Sim<T, M> = Sim {
            rows,
            w: (0..rows.max(1)).map(|_| World::new(VecKind, prof.nregs, Spare::none())).collect(),
            mats: (0..prof.nregs).map(|_| None).collect(),
            bufs: vec![],
        };
        let plan = Plan { prof: &prof, ops: nops, is32: T::IS32 };
        let mut bufs = 0;
        for _ in 0..nops {
            let items = gen_next(t, &plan, &s.w[0], &mut bufs);
            for it in items.iter() {
                match it {
                    Item::Op(op) => {
                        let mut op = op.clone();
                        one(&mut e2, t, &mut s, &mut op, faults)?
                    }
                    it => setup(t, &mut s, it),
                }
            }
            outside(|| drop(items));
            if t.one_in(6) {
                convert(&mut e2, t, &mut s)?;
            }
        }
        Ok(())
    });
    r?;
    leaks(env, &out)
}

fn setup<T: Num, M: Mat<T>>(t: &mut Tape, s: &mut Sim<T, M>, it: &Item) {
    log(|| it.show());
    match it {
        Item::Fill(f) => {
            // one row differs in a property
            let odd = if t.one_in(12) { t.draw(4) as usize + 1 } else { usize::MAX };
            let how = t.draw(5);
            for k in 0..s.w.len() {
                let mut g = f.clone();
                if k > 0 {
                    g.seed = combine(f.seed, k as u64) & 0xffff;
                }
                if k == odd % s.rows.max(1) && k > 0 && odd != usize::MAX {
                    bump(C::fault_row, 1);
                    match how {
                        0 => g.points += 1,
                        1 => g.points /= 2,
                        2 => g.cx = !g.cx,
                        3 => g.fr = !g.fr,
                        _ => g.delta *= 4.0,
                    }
                }
                s.w[k].setup(&Item::Fill(g));
            }
            s.sync(f.reg);
        }
        Item::Buf(i, k, l, d) => {
            for w in s.w.iter_mut() {
                w.setup(it);
            }
            while s.bufs.len() <= *i {
                s.bufs.push(VecBuf::new(BUF_DIRTY, 0, Dirt { mode: 0 }));
            }
            let (k, l, d) = match t.draw(4) {
                0 => (*k, *l, *d),
                1 => (BUF_SINGLE, t.draw(300) as usize, t.draw(4) as u8),
                2 => (BUF_NONE, 0, 0),
                _ => (BUF_DIRTY, t.draw(300) as usize, t.draw(4) as u8),
            };
            s.bufs[*i] = VecBuf::new(k, l, Dirt { mode: d });
        }
        Item::Set(r, _) | Item::Drop(r) | Item::Mend(r, _) => {
            for w in s.w.iter_mut() {
                w.setup(it);
            }
            s.sync(*r);
        }
        Item::Op(_) => unreachable!(),
    }
}

fn one<T: Num, M: Mat<T>>(e: &mut Env, t: &mut Tape, s: &mut Sim<T, M>, op: &mut Op, faults: bool) -> Res {
    if op.t >= s.mats.len() || std::iter::once(&op.t).chain(op.others()).any(|r| s.mats[*r].is_none()) {
        return Ok(());
    }
    if op.k == K::Dot || op.k == K::DotPrec {
        op.m = 0;
    }
    let name = refmodel::ops::name(op.k);
    while s.bufs.len() <= op.buf {
        s.bufs.push(VecBuf::new(BUF_DIRTY, 0, Dirt { mode: 0 }));
    }
    // how the operand is given
    let choice = t.draw(6);
    let vector = op.no == 1 && ((may_take_vector(op.k) && choice < 2) || (op.k == K::ConvolveSignal && choice < 3));
    let operand: Option<Row<T>> = if vector { take(&s.w[0], op.o[0]) } else { None };
    if op.k == K::ConvolveSignal && !vector {
        return mat_conv(e, t, s, op);
    }
    if M::ROWS == 0 && pairs_rows(op.k) && op.no > 0 && !vector && choice == 5 {
        return other_rows(e, t, s, op);
    }
    let fault = if faults && t.one_in(3) { p04::arm(t, op) } else { p04::NOTHING };
    let pre: Vec<Vec<Option<MVec>>> = outside(|| s.w.iter().map(|w| w.model()).collect());
    outside(|| {
        let o = op.show();
        context(&format!("matrix {}", o));
    });
    let obs = {
        let (mats, b) = (&mut s.mats, &mut s.bufs[op.buf]);
        let o = operand.as_ref();
        let op = &*op;
        outcome(observe(|| M::exec(mats, o, None, b, op)))
    };
    p04::disarm();
    bump(C::ops, 1);
    log(|| format!("matrix {}{} -> {} {:?} {}", op.show(), if vector { " by a vector" } else { "" }, status_name(obs.status), obs.rets, obs.panic));
    if obs.injected {
        p04::note(fault);
        if obs.status == PANICKED {
            // the rows of the target are lost, nothing else is
            drop(operand);
            let outs: Vec<usize> = if subject::groups::is_target_output(op.k) { op.others().to_vec() } else { vec![op.t] };
            for r in outs {
                s.drop_reg(r);
            }
            outside(|| drop(pre));
            digest(obs.status as u64);
            return match s.compare(name) {
                Ok(()) => Ok(()),
                Err((c, d)) => e.report(&format!("panic-{}", c), || format!("{} (a user function panicked or a thread couldn't be created): {}", op.show(), d)),
            };
        }
        if fault == p04::PANIC {
            return e.report(&format!("panic-lost:{}", name), || format!("{}: a user function panicked, the result was {}", op.show(), status_name(obs.status)));
        }
    }
    // the rows, one after the other
    let mut rows: Vec<Obs> = outside(|| Vec::with_capacity(8));
    for k in 0..s.w.len() {
        let o = row_op(&mut s.w[k], operand.as_ref(), op);
        if k < s.rows {
            outside(|| rows.push(o));
        }
    }
    drop(operand);
    let r = outside(|| judge_rows(e, s, op, &obs, &rows, name));
    r?;
    let failed = rows.iter().any(|o| o.status != 0);
    outside(|| {
        state(combine(s.w[0].shape(op, &obs), combine(s.rows as u64, M::ROWS as u64)));
        for w in s.w.iter() {
            digest(w.hash());
        }
        digest(obs.status as u64);
        for x in obs.rets.iter() {
            digest(x.to_bits());
        }
    });
    let panicked = rows.iter().any(|o| o.status == PANICKED);
    // the matrix goes on with what the rows hold
    let mut drops: Vec<usize> = vec![];
    let mut changed: Vec<usize> = vec![];
    for k in 0..s.w.len() {
        for m in outside(|| tidy(&s.w[k], Some((op, &pre[k][..])))) {
            match m {
                Item::Drop(r) => drops.push(r),
                m => {
                    if let Item::Mend(r, _) = m {
                        changed.push(r);
                    }
                    s.w[k].setup(&m);
                }
            }
        }
        for (i, x) in s.w[k].regs.iter().enumerate() {
            if x.is_none() && s.mats[i].is_some() {
                drops.push(i);
            }
        }
    }
    if panicked {
        drops.push(op.t);
        drops.extend_from_slice(op.others());
    }
    for r in drops {
        s.drop_reg(r);
    }
    if failed {
        changed.push(op.t);
        changed.extend_from_slice(op.others());
    }
    for r in changed {
        s.sync(r);
    }
    outside(|| {
        drop(pre);
        drop(rows);
        drop(obs);
    });
    Ok(())
}

fn judge_rows<T: Num, M: Mat<T>>(e: &mut Env, s: &Sim<T, M>, op: &Op, obs: &Obs, rows: &[Obs], name: &str) -> Res {
    bump(C::checked, 1);
    let text = || {
        let st: Vec<String> = rows.iter().map(|o| status_name(o.status)).collect();
        format!("{} on a matrix of {} rows: {} {}; the rows alone: {}", op.show(), s.rows, status_name(obs.status), obs.panic, st.join(", "))
    };
    if obs.status == UNSUPPORTED {
        return e.report(&format!("unsupported:{}", name), text);
    }
    let worst = rows.iter().map(|o| o.status).find(|x| *x == PANICKED).or_else(|| rows.iter().map(|o| o.status).find(|x| *x != 0)).unwrap_or(0);
    if worst == PANICKED {
        bump(C::panics_documented, 1);
        if obs.status != PANICKED {
            return e.report(&format!("no-panic:{}", name), text);
        }
        return Ok(());
    }
    if obs.status == PANICKED {
        return e.report(&format!("panic:{}", name), text);
    }
    if worst != 0 {
        bump(C::rejected, 1);
        bump(C::fault_bad_argument, 1);
        if obs.status == 0 {
            return e.report(&format!("not-rejected:{}", name), text);
        }
        if !rows.iter().any(|o| o.status == obs.status) {
            return e.report(&format!("reason:{}", name), text);
        }
        // each row is as before or as after
        if let Some(ref m) = s.mats[op.t] {
            for k in 0..s.rows {
                let x = Snap::of(&m.rows()[k]);
                if let Some(ref y) = s.w[k].snaps[op.t] {
                    if rows[k].status != 0 && !x.same(y) {
                        return e.report(&format!("rejected-row:{}", name), || format!("{}; row {} was rejected and is {}, the vector {}", text(), k, x.show(), y.show()));
                    }
                }
            }
        }
        return Ok(());
    }
    if obs.status != 0 {
        return e.report(&format!("rejected:{}", name), text);
    }
    let want: Vec<f64> = rows.iter().flat_map(|o| o.rets.iter().copied()).collect();
    if want.len() != obs.rets.len() || want.iter().zip(obs.rets.iter()).any(|(a, b)| a.to_bits() != b.to_bits()) {
        return e.report(&format!("returned:{}", name), || format!("{}; returned {:?}, the rows {:?}", text(), obs.rets, want));
    }
    if matches!(op.k, K::Resize) {
        // what growing adds is unspecified
        for k in 0..s.rows {
            if let (Some(ref m), Some(ref y)) = (&s.mats[op.t], &s.w[k].snaps[op.t]) {
                if m.rows()[k].len() != y.d.len() {
                    return e.report(&format!("row:{}", name), || format!("{}; row {} has {} samples", text(), k, m.rows()[k].len()));
                }
            }
        }
        return Ok(());
    }
    match s.compare(name) {
        Ok(()) => Ok(()),
        Err((c, d)) => e.report(&c, || format!("{}; {}", text(), d)),
    }
}
use basic_dsp_vector::*;

/// An operand with another number of rows
fn other_rows<T: Num, M: Mat<T>>(e: &mut Env, t: &mut Tape, s: &mut Sim<T, M>, op: &Op) -> Res {
    let name = refmodel::ops::name(op.k);
    let which = op.o[t.draw(op.no as u64) as usize];
    let n = match t.draw(3) {
        0 => s.rows + 1,
        1 if s.rows > 0 => s.rows - 1,
        _ => s.rows + 2,
    };
    let list: Vec<Row<T>> = (0..n).map(|i| take(&s.w[i % s.w.len()], which).unwrap()).collect();
    s.mats[which] = Some(M::build(list));
    bump(C::fault_row, 1);
    bump(C::fault_bad_argument, 1);
    let obs = {
        let (mats, b) = (&mut s.mats, &mut s.bufs[op.buf]);
        outcome(observe(|| M::exec(mats, None, None, b, op)))
    };
    s.sync(which);
    log(|| format!("matrix {} with {} rows and {} -> {}", op.show(), s.rows, n, status_name(obs.status)));
    bump(C::checked, 1);
    digest(obs.status as u64);
    if obs.status <= 0 {
        return e.report(&format!("row-counts:{}", name), || format!("{} with {} and {} rows: {} {}", op.show(), s.rows, n, status_name(obs.status), obs.panic));
    }
    match s.compare(name) {
        Ok(()) => Ok(()),
        Err((c, d)) => e.report(&format!("rejected-{}", c), || format!("{} with {} and {} rows: {}", op.show(), s.rows, n, d)),
    }
}

/// Convolution with a matrix of impulse responses
fn mat_conv<T: Num, M: Mat<T>>(e: &mut Env, t: &mut Tape, s: &mut Sim<T, M>, op: &Op) -> Res {
    let n = s.rows;
    let shift = t.draw(4) as usize;
    let src: Vec<usize> = outside(|| (0..n * n).map(|i| (i / n.max(1) * shift + i) % n.max(1)).collect());
    let short = M::ROWS == 0 && n > 0 && t.one_in(10);
    let own: Vec<Row<T>> = (0..n).map(|k| take(&s.w[k], op.o[0]).unwrap()).collect();
    let mut grid: Vec<Vec<&Row<T>>> = (0..n).map(|a| (0..n).map(|b| &own[src[a * n + b]]).collect()).collect();
    if short {
        grid.pop();
    }
    let obs = {
        let (mats, b) = (&mut s.mats, &mut s.bufs[op.buf]);
        let g = &grid;
        outcome(observe(|| M::exec(mats, None, Some(g), b, op)))
    };
    bump(C::ops, 1);
    bump(C::checked, 1);
    drop(grid);
    log(|| format!("matrix {} by a matrix -> {} {}", op.show(), status_name(obs.status), obs.panic));
    // what the rows give
    let pair = |s: &mut Sim<T, M>, a: usize, b: usize| -> (i32, Vec<f64>) {
        let mut v = take(&s.w[b], op.t).unwrap();
        let o = &own[src[a * n + b]];
        while s.w[b].bufs.len() <= op.buf {
            let x = <VecKind as Kind<T>>::buf(&mut s.w[b].kind, BUF_DIRTY, 0, Dirt { mode: 0 });
            s.w[b].bufs.push(x);
        }
        let buf = &mut s.w[b].bufs[op.buf];
        let r = outcome(observe(|| <VecKind as Kind<T>>::change(&mut v, buf, &[o], op)));
        (r.status, outside(|| v.data(..).iter().map(|x| x.d()).collect()))
    };
    let mut codes: Vec<i32> = vec![];
    let mut sums: Vec<Vec<f64>> = vec![];
    let mut scale = 1.0;
    for a in 0..n {
        let mut sum: Vec<f64> = vec![];
        for b in 0..n {
            let (c, v) = pair(s, a, b);
            if c != 0 {
                codes.push(c);
            }
            if b == 0 {
                sum = v;
            } else {
                for (x, y) in sum.iter_mut().zip(v.iter()) {
                    *x += *y;
                }
            }
        }
        sums.push(sum);
    }
    let mut uneven = false;
    let mut deltas = false;
    for k in 0..n {
        let (x, y) = (s.w[k].snaps[op.t].as_ref().unwrap(), s.w[k].snaps[op.o[0]].as_ref().unwrap());
        let (x0, y0) = (s.w[0].snaps[op.t].as_ref().unwrap(), s.w[0].snaps[op.o[0]].as_ref().unwrap());
        uneven |= x.d.len() != x0.d.len() || y.d.len() != y0.d.len();
        deltas |= x.delta.bits() != x0.delta.bits() || y.delta.bits() != x0.delta.bits();
        let m: f64 = x.d.iter().map(|v| v.d().abs()).fold(0.0, f64::max);
        let h: f64 = y.d.iter().map(|v| v.d().abs()).sum();
        scale += m * h * n as f64;
    }
    let text = || format!("{} with a matrix of impulse responses, {} rows: {} {}; pairs of vectors: {:?}", op.show(), n, status_name(obs.status), obs.panic, codes);
    let meta = codes.iter().all(|c| *c == refmodel::ops::META) && deltas;
    let r: Res = outside(|| {
        if obs.status == PANICKED {
            return e.report("panic:ConvolveSignal-matrix", text);
        }
        if short {
            return if obs.status == 0 { e.report("not-rejected:ConvolveSignal-matrix", || format!("{}; one row of impulse responses is missing", text())) } else { Ok(()) };
        }
        if !codes.is_empty() && !meta && obs.status == 0 {
            return e.report("not-rejected:ConvolveSignal-matrix", text);
        }
        if codes.is_empty() && !uneven && !deltas && obs.status != 0 {
            return e.report("rejected:ConvolveSignal-matrix", text);
        }
        if obs.status == 0 {
            let m = s.mats[op.t].as_ref().unwrap();
            for k in 0..n {
                let x = Snap::of(&m.rows()[k]);
                let y = s.w[k].snaps[op.t].as_ref().unwrap();
                if x.cx != y.cx || x.fr != y.fr || x.delta.bits() != y.delta.bits() || x.d.len() != y.d.len() {
                    return e.report("meta:ConvolveSignal-matrix", || format!("{}; row {} was {} and is {}", text(), k, y.show(), x.show()));
                }
                if meta {
                    continue;
                }
                for i in 0..x.d.len() {
                    if !close(x.d[i].d(), sums[k][i], scale, T::IS32) {
                        return e.report("row:ConvolveSignal-matrix", || format!("{}; row {} at {} is {:?}, expected {:?}", text(), k, i, x.d[i], sums[k][i]));
                    }
                }
            }
        }
        Ok(())
    });
    r?;
    digest(obs.status as u64);
    if obs.status == 0 {
        for k in 0..n {
            let v = s.mats[op.t].as_ref().unwrap().rows()[k].clone();
            s.w[k].regs[op.t] = Some(v);
            s.w[k].refresh(op.t);
        }
        if n > 0 && s.w[..n].iter().any(|w| w.snaps[op.t].as_ref().unwrap().wild()) {
            s.drop_reg(op.t);
        }
    } else {
        bump(C::rejected, 1);
    }
    match s.compare("ConvolveSignal") {
        Ok(()) => Ok(()),
        Err((c, d)) => e.report(&format!("other-{}", c), || d),
    }
}

/// Conversions between matrices and what they are made of
fn convert<T: Num, M: Mat<T>>(e: &mut Env, t: &mut Tape, s: &mut Sim<T, M>) -> Res {
    let r = t.draw(s.mats.len() as u64) as usize;
    let how = t.draw(5);
    let (cx, fr, to) = (t.flag(), t.flag(), t.draw(4) as usize);
    if s.rows == 0 || s.mats[r].is_none() {
        return Ok(());
    }
    let m = s.mats[r].take().unwrap();
    log(|| format!("r{} conversion {} complex {} freq {} to {}", r, how, cx, fr, to));
    let what = ["get", "runtime", "static", "samples", "typed-samples"][how as usize];
    let samples: Vec<Vec<T>> = m.rows().iter().map(|v| v.data(..).to_vec()).collect();
    bump(C::checked, 1);
    let m = match how {
        0 => {
            let (rows, len) = m.unbuild();
            let l0 = s.w[0].snaps[r].as_ref().unwrap().d.len();
            if len != l0 {
                return e.report("get:length", || format!("get reports {} valid samples, a row has {}", len, l0));
            }
            M::build(rows)
        }
        1 => m.runtime(cx, fr),
        2 => m.there_and_back(to),
        3 => {
            drop(m);
            M::raw(samples.clone(), cx, fr)
        }
        _ => {
            drop(m);
            M::typed(samples.clone(), cx, fr)
        }
    };
    s.mats[r] = Some(m);
    for (k, d) in samples.into_iter().enumerate() {
        let v = s.w[k].regs[r].take().unwrap();
        let v = match how {
            0 => v,
            1 => row_runtime(v, cx, fr),
            2 => row_there_and_back(v, to),
            3 => row_raw(d, cx, fr),
            _ => row_typed(d, cx, fr),
        };
        s.w[k].regs[r] = Some(v);
        s.w[k].refresh(r);
    }
    if let Err((c, d)) = s.compare(what) {
        return e.report(&format!("convert-{}", c), || d);
    }
    // (half a complex number is nothing operations have to cope with)
    let odd = |x: &Snap<T>| x.cx && x.d.len() % 2 != 0;
    if (0..s.rows).any(|k| s.w[k].snaps[r].as_ref().map_or(false, |x| x.wild() || odd(x))) {
        s.drop_reg(r);
    }
    Ok(())
}
