//! The C interface: every history of calls is executed through the exported C functions and
//! through the Rust API, where each call gets a scratch buffer of its own.
use super::*;
use crate::check::*;
use basic_dsp_vector::*;
use refmodel::model::MVec;
use simrt::rng::combine;
use subject::cabi::*;
use subject::store::*;

type W<T> = World<T, VecKind>;

pub fn case(env: &mut Env, t: &mut Tape) -> Res {
    if t.flag() {
        generic::<f32>(env, t)
    } else {
        generic::<f64>(env, t)
    }
}

/// One client of the C interface with its handles, and its twin
struct Client<T: Num> {
    w: W<T>,
    h: Vec<H>,
    bufs: usize,
}

impl<T: Num + Abi> Client<T> {
    fn new(n: usize) -> Self {
        Client { w: World::new(VecKind, n, Spare::none()), h: vec![std::ptr::null_mut(); n], bufs: 0 }
    }
    fn delete(&mut self, r: usize) {
        if !self.h[r].is_null() {
            <T as Abi>::delete(self.h[r]);
            self.h[r] = std::ptr::null_mut();
        }
    }
    fn drop_reg(&mut self, r: usize) {
        self.w.setup(&Item::Drop(r));
        self.delete(r);
    }
    /// the handle gets the content of the register
    fn sync(&mut self, e: &mut Env, t: &mut Tape, r: usize) -> Res {
        self.delete(r);
        let (d, cx, fr, delta, set) = match self.w.snaps[r] {
            Some(ref s) => (s.d.clone(), s.cx, s.fr, s.delta, s.set),
            None => return Ok(()),
        };
        let plain = [
            (0, settings_of(&MultiCoreSettings::default())),
            (1, settings_of(&MultiCoreSettings::new(set[0]))),
        ];
        let mut hows: Vec<u64> = plain.iter().filter(|p| p.1 == set).map(|p| p.0).collect();
        hows.push(2);
        let how = hows[t.draw(hows.len() as u64) as usize];
        let init = T::f(0.75);
        let mut h = <T as Abi>::new(how, if cx { *t.pick(&[1, 1, 2, -1]) } else { 0 }, if fr { 1 } else { 0 }, init, d.len(), delta, &set);
        let x = <T as Abi>::samples(h, 2);
        if x.len() != d.len() || x.iter().any(|x| *x != init) {
            return e.report("new", || format!("a new vector of {} times {:?} has the samples {:?}", d.len(), init, x));
        }
        let way = t.draw(3);
        if way == 0 {
            for (i, x) in d.iter().enumerate() {
                <T as Abi>::set(h, i, *x);
            }
        } else {
            // a part of it after all of it
            let parts = [d.len(), if way == 2 { t.draw(d.len() as u64 + 1) as usize } else { 0 }];
            for n in parts {
                let (h2, c) = <T as Abi>::overwrite(h, &d[..n]);
                h = h2;
                if c != 0 {
                    self.h[r] = h;
                    return e.report("overwrite_data", || format!("overwriting {} of {} samples returned {}", n, d.len(), c));
                }
            }
        }
        self.h[r] = h;
        bump(C::fault_bad_argument, 1);
        let long: Vec<T> = vec![T::zero(); d.len() + 1 + t.draw(3) as usize];
        if t.one_in(4) {
            let (h2, c) = <T as Abi>::overwrite(h, &long);
            self.h[r] = h2;
            if c != refmodel::ops::ARGLEN {
                return e.report("overwrite_data", || format!("overwriting {} of {} samples returned {}", long.len(), d.len(), c));
            }
        }
        Ok(())
    }
    fn compare(&self, t: u64) -> Result<(), (String, String)> {
        for r in 0..self.h.len() {
            let s = match self.w.snaps[r] {
                Some(ref s) => s,
                None => continue,
            };
            bump(C::comparisons, 1);
            let h = self.h[r] as P;
            let p = <T as Abi>::props(h);
            let alloc_ok = p.alloc >= p.len;
            let want = Props { cx: s.cx as i32, domain: s.fr as i32, len: s.d.len(), points: s.points(), alloc: p.alloc, delta: s.delta.bits() };
            let nan = s.delta.d().is_nan() && want.delta != p.delta;
            if !alloc_ok || (p != want && !(nan && Props { delta: want.delta, ..p.clone() } == want)) {
                return Err(("properties".into(), format!("r{} reports {:?} ({:?}), the vector {}", r, p, f64::from_bits(p.delta), s.show())));
            }
            let x = <T as Abi>::samples(h, if t % 3 == 1 && s.cx { 1 } else { t % 3 / 2 * 2 });
            let same = x.len() == s.d.len() && x.iter().zip(s.d.iter()).all(|(a, b)| a.bits() == b.bits() || (a.d().is_nan() && b.d().is_nan()));
            if !same {
                return Err(("samples".into(), format!("r{} has the samples {:?}, the vector {}", r, x, s.show())));
            }
        }
        Ok(())
    }
}

fn settings_of(m: &MultiCoreSettings) -> Set {
    [m.core_limit, m.med_dual_core_threshold, m.med_multi_core_threshold, m.large_dual_core_threshold, m.large_multi_core_threshold]
}

fn supported(k: K) -> bool {
    in_c(k)
}
fn global_data(k: K) -> bool {
    matches!(k, K::MapReal | K::MapComplex | K::MapAggReal | K::MapAggComplex)
}

fn generic<T: Num + Abi>(env: &mut Env, t: &mut Tape) -> Res {
    let mut prof = Profile::all().filter(supported);
    prof.bad_one_in = *t.pick(&[12, 12, 40, 5]);
    prof.max_points = *t.pick(&[12u64, 30, 60]);
    prof.bufs = vec![BUF_SINGLE];
    prof.parallel = t.one_in(4);
    prof.nregs = *t.pick(&[4, 5]);
    if t.one_in(16) {
        prof.long_one_in = 2;
        prof.max_len = 3600;
        prof.conv_len = 40;
    }
    let clients = if t.one_in(5) { 2 } else { 1 };
    let mut cfg = RunCfg::plain();
    cfg.alloc = draw_alloc(t, false, false);
    if prof.parallel || clients > 1 {
        cfg.sched = draw_sched(t);
    }
    let nops = 3 + t.draw(if env.deep { 24 } else { 9 }) as usize;
    let mut e2 = env.inner();
    let (r, out) = env.simulate(&cfg, || {
        let mut cs: Vec<Client<T>> = (0..clients).map(|_| Client::new(prof.nregs)).collect();
        let r = history(&mut e2, t, &prof, nops, &mut cs);
        for c in cs.iter_mut() {
            for r in 0..c.h.len() {
                c.delete(r);
            }
        }
        r
    });
    r?;
    leaks(env, &out)
}

/// One call and what it has to return
struct Call {
    op: Op,
    alt: u64,
    obs: Obs,
    erroneous: bool,
    pre: Vec<Option<MVec>>,
}

fn history<T: Num + Abi>(e: &mut Env, t: &mut Tape, prof: &Profile, nops: usize, cs: &mut Vec<Client<T>>) -> Res {
    let plan = Plan { prof, ops: nops, is32: T::IS32 };
    for _ in 0..nops {
        let mut calls: Vec<Option<Call>> = vec![];
        for c in cs.iter_mut() {
            calls.push(prepare(e, t, &plan, c)?);
        }
        let together = calls.iter().flatten().count() > 1 && !calls.iter().flatten().any(|c| global_data(c.op.k));
        let mut outs: Vec<Option<(COut, usize)>> = vec![];
        if together {
            let hs: Vec<_> = cs
                .iter()
                .zip(calls.iter())
                .map(|(c, call)| {
                    let mut p = Ptrs(c.h.clone());
                    let call = call.as_ref().unwrap();
                    let (op, alt) = (call.op.clone(), call.alt);
                    std::thread::spawn(move || {
                        let p2 = &mut p;
                        let o = one_call::<T>(&mut p2.0, &op, alt);
                        (p, o)
                    })
                })
                .collect();
            for (c, h) in cs.iter_mut().zip(hs) {
                let (p, o) = h.join().expect("client");
                c.h = p.0;
                outs.push(o);
            }
        } else {
            for (c, call) in cs.iter_mut().zip(calls.iter()) {
                outs.push(match call {
                    Some(call) => one_call::<T>(&mut c.h, &call.op, call.alt),
                    None => None,
                });
            }
        }
        for ((c, call), out) in cs.iter_mut().zip(calls).zip(outs) {
            if let Some(call) = call {
                judge_call(e, t, c, call, out, together)?;
            }
        }
    }
    Ok(())
}

struct Ptrs(Vec<H>);
unsafe impl Send for Ptrs {}

fn one_call<T: Num + Abi>(h: &mut [H], op: &Op, alt: u64) -> Option<(COut, usize)> {
    sched::reset_kids();
    simrt::calls::open(false);
    let o = <T as Abi>::call(h, op, alt);
    simrt::calls::close();
    let kids = sched::kids().2;
    o.map(|o| (o, kids))
}

/// Runs setup steps and the Rust half of the next call
fn prepare<T: Num + Abi>(e: &mut Env, t: &mut Tape, plan: &Plan, c: &mut Client<T>) -> Res<Option<Call>> {
    let items = gen_next(t, plan, &c.w, &mut c.bufs);
    let mut call = None;
    for it in items.iter() {
        match it {
            Item::Op(op) => call = Some(op.clone()),
            Item::Buf(..) => (),
            it => {
                log(|| it.show());
                c.w.setup(it);
                if let Item::Fill(Fill { reg, .. }) | Item::Set(reg, _) | Item::Drop(reg) | Item::Mend(reg, _) = it {
                    c.sync(e, t, *reg)?;
                }
            }
        }
    }
    outside(|| drop(items));
    let mut op = match call {
        Some(op) => op,
        None => return Ok(None),
    };
    if op.t >= c.h.len() || std::iter::once(&op.t).chain(op.others()).any(|r| c.w.regs[*r].is_none()) {
        return Ok(None);
    }
    let alt = t.draw(4);
    if op.k == K::Interpolate && op.f == usize::MAX {
        op.f = 0;
    }
    op.buf = 0;
    // each call gets a scratch buffer of its own
    c.w.setup(&Item::Buf(0, BUF_SINGLE, 0, 0));
    let pre = outside(|| c.w.model());
    let mut rust = op.clone();
    if op.k == K::ScaleC && alt == 0 {
        let z = num_complex::Complex::new(T::one(), T::zero()) / num_complex::Complex::new(T::f(op.a), T::f(op.b));
        rust.a = z.re.d();
        rust.b = z.im.d();
        if !rust.a.is_finite() || !rust.b.is_finite() {
            outside(|| drop(pre));
            return Ok(None);
        }
    }
    let obs = c.w.op(&rust);
    if obs.status == PANICKED {
        bump(C::panics_documented, 1);
        c.drop_reg(op.t);
        for r in op.others() {
            c.drop_reg(*r);
        }
        outside(|| drop(pre));
        return Ok(None);
    }
    let erroneous = c.w.regs[op.t].as_ref().map_or(false, |v| v.is_erroneous());
    Ok(Some(Call { op, alt, obs, erroneous, pre }))
}

fn judge_call<T: Num + Abi>(e: &mut Env, t: &mut Tape, c: &mut Client<T>, call: Call, out: Option<(COut, usize)>, together: bool) -> Res {
    let op = &call.op;
    let name = refmodel::ops::name(op.k);
    let suffix = if T::IS32 { "32" } else { "64" };
    let status = call.obs.status;
    bump(C::checked, 1);
    let (out, kids) = match out {
        Some(o) => o,
        None => return e.report(&format!("unsupported:{}", name), || op.show()),
    };
    log(|| format!("{}{} alt {} -> {:?} {:?}", op.show(), suffix, call.alt, out.code, out.rets));
    let text = || {
        format!(
            "{} ({} bit, alternative {}{}): result code {:?}, returned {:?}; the Rust API: {} {:?}{}",
            op.show(), suffix, call.alt, if together { ", two clients at a time" } else { "" }, out.code, out.rets, status_name(status), call.obs.rets,
            if call.erroneous { ", the vector is erroneous" } else { "" }
        )
    };
    outside(|| {
        state(combine(c.w.shape(op, &call.obs), combine(call.alt, T::IS32 as u64)));
        digest(c.w.hash());
        digest(out.code.unwrap_or(99) as u64);
        for x in out.rets.iter() {
            digest(x.to_bits());
        }
    });
    let r: Res = outside(|| {
        // result code
        if let Some(code) = out.code {
            let ok = match (status, call.erroneous) {
                (0, false) if subject::groups::is_target_output(op.k) && op.k != K::SplitInto => {
                    // operands of the wrong number space: the vectors are empty afterwards, the Rust API has no result
                    let valid = call.pre[op.t].as_ref().unwrap().cx && op.others().iter().all(|o| !call.pre[*o].as_ref().unwrap().cx);
                    code == 0 || (!valid && code == -1)
                }
                (0, false) => code == 0,
                (0, true) => code == -1,
                (s, _) => code == s,
            };
            if !ok {
                return e.report(&format!("code:{}", name), text);
            }
        }
        if status != 0 {
            bump(C::rejected, 1);
            bump(C::fault_bad_argument, 1);
        }
        if status == 0 {
            let want = &call.obs.rets;
            let mut rets = &out.rets[..];
            if matches!(op.k, K::StatsSplit | K::StatsSplitPrec) && rets.len() > want.len() && out.rets[want.len()..].iter().all(|x| [0.25, 0.5, 77.0].contains(x)) {
                // an empty vector has no parts: the memory of the caller isn't touched
                rets = &rets[..want.len()];
            }
            if want.len() != rets.len() || want.iter().zip(rets.iter()).any(|(a, b)| a.to_bits() != b.to_bits() && !(a.is_nan() && b.is_nan())) {
                return e.report(&format!("returned:{}", name), text);
            }
        }
        if kids != call.obs.kids.2 {
            return e.report(&format!("threads:{}", name), || format!("{}; {} threads instead of {}", text(), kids, call.obs.kids.2));
        }
        Ok(())
    });
    r?;
    let way = t.draw(3);
    // the samples which growing added are unspecified
    for m in outside(|| tidy(&c.w, Some((op, &call.pre[..])))) {
        if let Item::Mend(r, from) = m {
            let h = c.h[r];
            c.w.setup(&m);
            let (n, d) = {
                let s = c.w.snaps[r].as_ref().unwrap();
                (s.d.len(), s.d[from..].to_vec())
            };
            let p = <T as Abi>::props(h);
            if p.len != n {
                return e.report(&format!("resize:{}", name), || format!("{}; {} samples instead of {}", text(), p.len, n));
            }
            for (i, x) in d.iter().enumerate() {
                <T as Abi>::set(h, from + i, *x);
            }
        }
    }
    let r = c.compare(way);
    if let Err((cl, d)) = r {
        return e.report(&format!("{}:{}", cl, name), || format!("{}; {}", text(), d));
    }
    for m in outside(|| tidy(&c.w, None)) {
        if let Item::Drop(r) = m {
            c.drop_reg(r);
        }
    }
    outside(|| drop(call));
    Ok(())
}
