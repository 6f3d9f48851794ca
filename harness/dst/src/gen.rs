//! Generates programs: each next item from the state the program has reached.
use crate::world::*;
use refmodel::func;
use refmodel::model::MVec;
use refmodel::ops::{K::*, *};
use simrt::Tape;
use subject::store::*;

#[derive(Clone)]
pub struct Profile {
    pub kinds: Vec<(K, u64)>,
    pub max_points: u64,
    /// one in n fills is long enough for the special paths of long vectors (0: never)
    pub long_one_in: u64,
    /// one in n operations gets unsuitable operands or arguments (0: never)
    pub bad_one_in: u64,
    pub parallel: bool,
    pub bufs: Vec<usize>,
    pub max_len: usize,
    pub nregs: usize,
    /// operand combinations which have to be able to grow are fine
    pub growth: bool,
    pub empty: bool,
    pub conv_len: u64,
    /// points of a long vector
    pub long: (u64, u64),
}

impl Profile {
    pub fn all() -> Profile {
        Profile {
            kinds: ALL.iter().map(|k| (*k, 2)).collect(),
            max_points: 64,
            long_one_in: 0,
            bad_one_in: 12,
            parallel: false,
            bufs: vec![BUF_SINGLE, BUF_NONE, BUF_DIRTY],
            max_len: 600,
            nregs: 4,
            growth: true,
            empty: true,
            conv_len: 12,
            long: (1000, 1700),
        }
    }
    pub fn filter(mut self, f: impl Fn(K) -> bool) -> Profile {
        self.kinds.retain(|k| f(k.0));
        self
    }
    pub fn weight(mut self, f: impl Fn(K) -> u64) -> Profile {
        for k in self.kinds.iter_mut() {
            k.1 *= f(k.0);
        }
        self.kinds.retain(|k| k.1 > 0);
        self
    }
}

pub fn gen_settings(t: &mut Tape, parallel: bool) -> Set {
    if !parallel || t.one_in(6) {
        let l = *t.pick(&[1usize, 1, 2, 0]);
        let mut s = SINGLE;
        s[0] = l;
        return s;
    }
    let limit = *t.pick(&[2usize, 3, 4, 5, 6, 7, 8, 13, 16, 33]);
    let dual = *t.pick(&[0usize, 0, 1, 2, 7, 20, 50, 100]);
    let multi = dual + 1 + *t.pick(&[0usize, 0, 0, 3, 20, 100]);
    let big = t.one_in(4);
    let (ld, lm) = if big { (*t.pick(&[0usize, 5, 30, 400]), 0) } else { (dual, multi) };
    let lm = lm.max(ld + 1);
    match t.draw(24) {
        // "never" for one kind of operation
        1 => return [limit, usize::MAX - 1, usize::MAX, ld, lm],
        2 => return [limit, dual, multi, usize::MAX - 1, usize::MAX],
        3 => return [limit, dual, usize::MAX, ld, usize::MAX],
        _ => {}
    }
    [limit, dual, multi, ld, lm]
}

pub fn gen_points(t: &mut Tape, p: &Profile) -> usize {
    let w = t.weighted(&[3, 6, 5, 3]);
    let m = p.max_points;
    let r = match w {
        1 => t.range(5, 17.min(m).max(5)),
        0 => t.range(if p.empty { 0 } else { 1 }, 4.min(m)),
        2 => t.range(16.min(m), (m / 2).max(17).min(m)),
        _ => t.range((m / 2).max(1).min(m), m),
    };
    if p.long_one_in > 0 && t.one_in(p.long_one_in) {
        return t.range(p.long.0, p.long.1) as usize;
    }
    (r as usize).min(p.max_points as usize)
}

pub struct Want {
    pub cx: Option<bool>,
    pub fr: Option<bool>,
    pub points: Option<usize>,
    pub min: usize,
    pub odd: Option<bool>,
    pub delta: Option<f64>,
    pub positive: bool,
    pub dc_real: bool,
    pub max: usize,
}
impl Want {
    pub fn any() -> Want {
        Want { cx: None, fr: None, points: None, min: 0, odd: None, delta: None, positive: false, dc_real: false, max: usize::MAX }
    }
    fn cx(mut self, c: bool) -> Want {
        self.cx = Some(c);
        self
    }
    fn fr(mut self, c: bool) -> Want {
        self.fr = Some(c);
        self
    }
    fn pts(mut self, n: usize) -> Want {
        self.points = Some(n);
        self
    }
    fn min(mut self, n: usize) -> Want {
        self.min = n;
        self
    }
    fn max(mut self, n: usize) -> Want {
        self.max = n;
        self
    }
    fn fits(&self, v: &MVec) -> bool {
        if v.erroneous() {
            return false;
        }
        let p = v.points();
        self.cx.map(|c| c == v.cx).unwrap_or(true)
            && self.fr.map(|c| c == v.fr).unwrap_or(true)
            && self.points.map(|c| c == p).unwrap_or(true)
            && p >= self.min
            && p <= self.max
            && self.odd.map(|c| c == (p % 2 == 1)).unwrap_or(true)
            && self.delta.map(|d| (d / v.delta - 1.0).abs() < 0.05).unwrap_or(true)
            && (!self.positive || v.d.iter().all(|x| *x > 0.0))
            && (!self.dc_real || v.d.len() < 2 || v.d[1] == 0.0)
    }
}

pub struct Gen<'a> {
    pub t: &'a mut Tape,
    pub p: &'a Profile,
    pub regs: Vec<Option<MVec>>,
    pub sets: Vec<Set>,
    pub items: Vec<Item>,
    pub bufs: usize,
    pub is32: bool,
    /// the first registers are shared with others and may only be read
    pub frozen: usize,
    pub k: K,
}

pub const DELTAS: &[f64] = &[1.0, 1.0, 0.5, 2.0, 0.25];

impl<'a> Gen<'a> {
    pub fn fill_fresh(&mut self, reg: usize, w: &Want) {
        let cx = w.cx.unwrap_or_else(|| self.t.flag());
        let fr = w.fr.unwrap_or_else(|| self.t.flag());
        let mut points = match w.points {
            Some(p) => p,
            None => gen_points(self.t, self.p).max(w.min).min(w.max),
        };
        if let Some(odd) = w.odd {
            if (points % 2 == 1) != odd {
                points += 1;
            }
        }
        let style = if w.positive { 3 } else { self.t.draw(6) };
        let seed = self.t.draw(1 << 16);
        let delta = w.delta.unwrap_or_else(|| *self.t.pick(DELTAS));
        let set = gen_settings(self.t, self.p.parallel);
        self.push_fill(Fill { reg, points, cx, fr, delta, seed, style, dc_real: w.dc_real, set });
    }
    fn push_fill(&mut self, f: Fill) {
        let d = samples(&f);
        self.regs[f.reg] = Some(MVec { d, cx: f.cx, fr: f.fr, delta: f.delta });
        self.sets[f.reg] = f.set;
        self.items.push(Item::Fill(f));
    }
    /// provides a register which suits
    fn want(&mut self, w: &Want, not: &[usize]) -> usize {
        let n = self.p.nregs;
        let start = self.t.draw(n as u64) as usize;
        let mut cand: Vec<usize> = (0..n).map(|i| (start + i) % n).filter(|i| !not.contains(i)).collect();
        let mut fresh = cand[0];
        if self.frozen > 0 {
            let get = subject::groups::is_target_output(self.k);
            let writes = if not.is_empty() { !read_only(self.k) && !get } else { get };
            if writes {
                cand.retain(|i| *i >= self.frozen);
            }
            fresh = match cand.iter().find(|i| **i >= self.frozen) {
                Some(i) => *i,
                None => cand[0],
            };
        }
        let sloppy = self.p.bad_one_in > 0 && self.t.one_in(self.p.bad_one_in);
        if cand.is_empty() {
            return n - 1;
        }
        if sloppy {
            if self.regs[cand[0]].is_some() {
                return cand[0];
            }
        } else if !self.t.one_in(8) {
            for c in cand.iter() {
                if let Some(ref v) = self.regs[*c] {
                    if w.fits(v) && v.d.len() <= self.p.max_len {
                        return *c;
                    }
                }
            }
        }
        if sloppy {
            let mut w2 = Want::any();
            w2.max = w.max;
            self.fill_fresh(fresh, &w2);
        } else {
            self.fill_fresh(fresh, w);
        }
        fresh
    }
    fn bad(&mut self) -> bool {
        self.p.bad_one_in > 0 && self.t.one_in(self.p.bad_one_in)
    }
    fn v(&self, r: usize) -> &MVec {
        self.regs[r].as_ref().unwrap()
    }
    /// largest number of points a vector of that kind may grow to
    fn room(&self, r: usize) -> usize {
        self.p.max_len / if self.v(r).cx { 2 } else { 1 }
    }

    pub fn next(&mut self) {
        let w: Vec<u64> = self.p.kinds.iter().map(|k| k.1).collect();
        let k = self.p.kinds[self.t.weighted(&w)].0;
        self.op(k)
    }

    pub fn op(&mut self, k: K) {
        let any = Want::any;
        let mut op = Op::new(k, 0);
        self.k = k;
        match k {
            Sin | Cos | Tan | Asin | Acos | Atan | Sinh | Cosh | Tanh | Asinh | Acosh | Atanh | Square | Exp => {
                op.t = self.want(&any(), &[]);
            }
            Sqrt | Ln | Root | Powf | Log | Expf => {
                let mut w = any();
                w.positive = !self.t.one_in(4);
                op.t = self.want(&w, &[]);
                op.a = *self.t.pick(&[2.0, 3.0, 4.0, 1.5, 2.5]);
            }
            Abs | ExpApprox | SinApprox | CosApprox => op.t = self.want(&any().cx(false), &[]),
            LnApprox | LogApprox | PowfApprox | ExpfApprox => {
                let mut w = any().cx(false);
                w.positive = true;
                op.t = self.want(&w, &[]);
                op.a = *self.t.pick(&[2.0, 3.0, 1.5, 4.0]);
            }
            Wrap | Unwrap => {
                op.t = self.want(&any().cx(false), &[]);
                op.a = *self.t.pick(&[2.0, 3.0, 1.5, 6.25]);
            }
            Scale | Offset => {
                op.t = self.want(&any(), &[]);
                op.a = *self.t.pick(&[2.0, -1.0, 0.5, 3.0, 0.0, 1.0]);
            }
            Conj | MulCExp | ScaleC | OffsetC => {
                op.t = self.want(&any().cx(true), &[]);
                op.a = *self.t.pick(&[2.0, -1.0, 0.5, 0.25, 0.0]);
                op.b = *self.t.pick(&[1.0, 0.0, -0.5, 2.0]);
            }
            Add | Sub | Mul | Div | Dot | DotPrec => {
                op.t = self.want(&any(), &[]);
                let v = self.v(op.t).clone();
                let mut w = any().cx(v.cx).fr(v.fr).pts(v.points());
                w.delta = Some(v.delta);
                w.positive = k == Div && !self.t.one_in(3);
                let o = self.want(&w, &[op.t]);
                op = op.with(o);
                op.m = v.cx as usize;
                if self.bad() && (k == Dot || k == DotPrec) {
                    op.m = 1 - op.m;
                }
            }
            AddSmaller | SubSmaller | MulSmaller | DivSmaller => {
                op.t = self.want(&any(), &[]);
                let v = self.v(op.t).clone();
                let p = v.points();
                let divs: Vec<usize> = (1..=p).filter(|d| p % d == 0).collect();
                let q = if divs.is_empty() { 0 } else { *self.t.pick(&divs) };
                let mut w = any().cx(v.cx).fr(v.fr).pts(q);
                w.delta = Some(v.delta);
                w.positive = k == DivSmaller;
                let o = self.want(&w, &[op.t]);
                op = op.with(o);
            }
            Reverse | SwapHalves | Diff | DiffWithStart | CumSum | Stats | StatsPrec | Sum | SumSq | SumPrec | SumSqPrec => {
                op.t = self.want(&any(), &[]);
            }
            StatsSplit | StatsSplitPrec => {
                op.t = self.want(&any(), &[]);
                op.n = if self.bad() { *self.t.pick(&[17, 0, 40]) } else { self.t.range(1, 16) as usize };
            }
            SetDelta => {
                op.t = self.want(&any(), &[]);
                op.a = *self.t.pick(DELTAS);
            }
            CloneFrom => {
                op.t = self.want(&any(), &[]);
                let o = self.want(&any(), &[op.t]);
                op = op.with(o);
            }
            ZeroPad | ZeroPadB => {
                op.t = self.want(&any().max(self.p.max_len / 3), &[]);
                let p = self.v(op.t).points();
                op.m = self.t.draw(3) as usize;
                let max = self.room(op.t).max(p + 1);
                op.n = if self.bad() { self.t.range(0, p as u64) as usize } else { p + self.t.range(1, (max - p).min(40) as u64) as usize };
            }
            ZeroInterleave | ZeroInterleaveB => {
                op.t = self.want(&any().max(self.p.max_len / 8), &[]);
                op.n = *self.t.pick(&[2usize, 3, 4, 1, 5]);
                if self.bad() {
                    op.n = 0;
                }
            }
            SplitInto => {
                op.t = self.want(&any(), &[]);
                let v = self.v(op.t).clone();
                let p = v.points();
                let ok: Vec<usize> = (1..=3usize).filter(|m| p % m == 0).collect();
                let m = if self.bad() { self.t.draw(4) as usize } else { *self.t.pick(&ok) };
                for _ in 0..m {
                    let mut not = vec![op.t];
                    not.extend_from_slice(op.others());
                    let o = self.want(&any().cx(v.cx), &not);
                    op = op.with(o);
                }
            }
            Merge => {
                op.t = self.want(&any(), &[]);
                let v = self.v(op.t).clone();
                let m = if self.bad() { 0 } else { self.t.range(1, 3) as usize };
                let p = (gen_points(self.t, self.p)).min(self.room(op.t) / m.max(1));
                for _ in 0..m {
                    let mut not = vec![op.t];
                    not.extend_from_slice(op.others());
                    let o = self.want(&any().cx(v.cx).pts(p), &not);
                    op = op.with(o);
                }
            }
            Resize | ResizeB => {
                op.t = self.want(&any(), &[]);
                let v = self.v(op.t).clone();
                let max = if self.p.growth { v.d.len() + 40 } else { v.d.len() };
                op.n = self.t.range(0, max as u64) as usize;
                if v.cx && !self.bad() {
                    op.n &= !1;
                }
            }
            MapReal | MapAggReal => {
                op.t = self.want(&any().cx(false), &[]);
                op.f = self.t.draw(func::N_MAP as u64) as usize;
                op.a = *self.t.pick(&[1.0, 2.0, -3.0]);
            }
            MapComplex | MapAggComplex => {
                op.t = self.want(&any().cx(true), &[]);
                op.f = self.t.draw(func::N_MAP as u64) as usize;
                op.a = *self.t.pick(&[1.0, 2.0, -3.0]);
            }
            ToComplex | ToComplexB => op.t = self.want(&any().cx(false).max(self.p.max_len / 2), &[]),
            Magnitude | MagnitudeSq | ToReal | ToImag | Phase | MagnitudeB | MagnitudeSqB | ToRealB | ToImagB | PhaseB => {
                op.t = self.want(&any().cx(true), &[]);
            }
            GetReal | GetImag | GetMagnitude | GetMagnitudeSq | GetPhase => {
                op.t = self.want(&any().cx(true), &[]);
                let o = self.want(&any().cx(false), &[op.t]);
                op = op.with(o);
            }
            GetRealImag | GetMagPhase => {
                op.t = self.want(&any().cx(true), &[]);
                let o = self.want(&any().cx(false), &[op.t]);
                op = op.with(o);
                let o = self.want(&any().cx(false), &[op.t, o]);
                op = op.with(o);
            }
            SetRealImag | SetMagPhase => {
                op.t = self.want(&any().cx(true), &[]);
                let p = gen_points(self.t, self.p).min(self.p.max_len / 2);
                let o = self.want(&any().cx(false).pts(p), &[op.t]);
                op = op.with(o);
                let o = self.want(&any().cx(false).pts(p), &[op.t, o]);
                op = op.with(o);
            }
            PlainFft | Fft | WindowedFft => {
                op.t = self.want(&any().fr(false).max((self.p.max_len / 2).min(200)), &[]);
                op.f = self.t.draw(func::N_WIN as u64) as usize;
            }
            PlainIfft | Ifft | WindowedIfft => {
                op.t = self.want(&any().fr(true).max((self.p.max_len / 2).min(200)), &[]);
                op.f = self.t.draw(func::N_WIN as u64) as usize;
            }
            PlainSfft | Sfft | WindowedSfft => {
                let mut w = any().fr(false).cx(false).max((self.p.max_len / 2).min(200));
                w.odd = Some(true);
                op.t = self.want(&w, &[]);
                op.f = self.t.draw(func::N_WIN as u64) as usize;
            }
            PlainSifft | Sifft | WindowedSifft => {
                let mut w = any().fr(true).cx(true).max((self.p.max_len / 4).min(100));
                w.dc_real = true;
                op.t = self.want(&w, &[]);
                op.f = self.t.draw(func::N_WIN as u64) as usize;
            }
            Mirror => op.t = self.want(&any().fr(true).cx(true).max(self.p.max_len / 4), &[]),
            FftShift | IfftShift => op.t = self.want(&any().fr(true).cx(true), &[]),
            ApplyWindow | UnapplyWindow => {
                op.t = self.want(&any().fr(false), &[]);
                op.f = self.t.draw(func::N_WIN as u64) as usize;
            }
            ConvolveReal | ConvolveComplex => {
                let cx = if k == ConvolveComplex { Some(true) } else { None };
                let mut w = any().fr(false);
                w.cx = cx;
                op.t = self.want(&w, &[]);
                op.f = self.t.draw(if k == ConvolveReal { func::N_IMP as u64 } else { 2 }) as usize;
                op.a = *self.t.pick(&[1.0, 0.5, 2.0, 0.25, 1.5]);
                op.n = self.t.range(0, self.p.conv_len) as usize;
            }
            ConvolveSignal => {
                op.t = self.want(&any().fr(false), &[]);
                let v = self.v(op.t).clone();
                let p = v.points();
                let q = self.t.range((p > 0) as u64, (p as u64).min(self.p.conv_len * 2)) as usize;
                let mut w = any().cx(v.cx).fr(false).pts(q);
                w.delta = Some(v.delta);
                let o = self.want(&w, &[op.t]);
                op = op.with(o);
            }
            MulFreqReal | MulFreqComplex => {
                let mut w = any().fr(true);
                w.cx = if k == MulFreqComplex { Some(true) } else { None };
                op.t = self.want(&w, &[]);
                op.f = self.t.draw(if k == MulFreqReal { func::N_FREQ as u64 } else { 2 }) as usize;
                op.a = *self.t.pick(&[1.0, 0.5, 2.0, 1.5]);
            }
            PrepareArgument | PrepareArgumentPadded => {
                op.t = self.want(&any().fr(false).cx(true).max((self.p.max_len / 4).min(100)), &[]);
            }
            Correlate => {
                op.t = self.want(&any().fr(false).cx(true).max((self.p.max_len / 4).min(100)), &[]);
                let v = self.v(op.t).clone();
                let p = v.points();
                let q = if self.bad() { p.saturating_sub(1) } else if self.t.one_in(3) || p == 0 { p } else { 2 * p - 1 + self.t.draw(2) as usize };
                let mut w = any().fr(true).cx(true).pts(q);
                w.delta = Some(v.delta);
                let o = self.want(&w, &[op.t]);
                op = op.with(o);
            }
            Interpolatef => {
                op.t = self.want(&any().fr(false).max(self.p.max_len / 5), &[]);
                op.f = self.t.draw(func::N_IMP as u64) as usize;
                op.a = *self.t.pick(&[2.0, 1.0, 3.0, 1.5, 2.5, 0.5, 4.0]);
                op.b = *self.t.pick(&[0.0, 0.0, 0.25, 0.5, 0.125]);
                op.n = self.t.range(1, self.p.conv_len) as usize;
            }
            Interpolatei => {
                op.t = self.want(&any().fr(false).max((self.p.max_len / 8).min(60)), &[]);
                let cx = self.v(op.t).cx;
                op.f = self.t.draw(func::N_FREQ as u64) as usize;
                if !cx && !func::freq_symmetric(op.f) && !self.bad() {
                    op.f = 0;
                }
                op.n = *self.t.pick(&[2usize, 3, 4, 1]);
            }
            Interpolate | Interpft => {
                op.t = self.want(&any().fr(false).min(1).max((self.p.max_len / 5).min(100)), &[]);
                let v = self.v(op.t).clone();
                let p = v.points();
                op.n = match self.t.draw(4) {
                    0 => p * 2,
                    1 => p,
                    2 => (p / 2).max(1),
                    _ => self.t.range(1, (2 * p + 3) as u64) as usize,
                };
                op.f = if self.t.flag() { usize::MAX } else { self.t.draw(func::N_FREQ as u64) as usize };
                if k == Interpolate && op.f != usize::MAX && !v.cx && !func::freq_symmetric(op.f) && !self.bad() {
                    op.f = 0;
                }
                op.b = if k == Interpft { 0.0 } else { *self.t.pick(&[0.0, 0.0, 0.5, 0.25]) };
            }
            Decimatei => {
                op.t = self.want(&any(), &[]);
                op.n = self.t.range(1, 4) as usize;
                op.m = self.t.draw(op.n as u64 + 1) as usize;
            }
            InterpolateLin | InterpolateHermite => {
                op.t = self.want(&any().fr(false).cx(false).min(2).max(self.p.max_len / 5), &[]);
                op.a = *self.t.pick(&[2.0, 1.0, 3.0, 1.5, 2.5, 4.0]);
                op.b = if k == InterpolateLin { *self.t.pick(&[0.0, 0.0, 0.125]) } else { 0.0 };
                let n = self.v(op.t).d.len();
                if n >= 1 && k == InterpolateLin {
                    let span = ((n - 1) as f64 * op.a).round();
                    if (span - 1.0) / op.a + op.b >= (n - 1) as f64 {
                        op.b = 0.0;
                    }
                    if (span - 1.0) / op.a >= (n - 1) as f64 {
                        op.a = 2.0;
                    }
                }
            }
        }
        if buffered(k) {
            op.buf = self.buffer();
        }
        // arguments have to be representable
        if self.is32 {
            op.a = op.a as f32 as f64;
            op.b = op.b as f32 as f64;
        }
        self.items.push(Item::Op(op));
    }
    pub fn buffer(&mut self) -> usize {
        let b = self.t.draw(3) as usize;
        if b >= self.bufs || self.t.one_in(10) {
            let slot = b.min(self.bufs);
            let kind = *self.t.pick(&self.p.bufs);
            let len = if kind == BUF_FIXED {
                self.p.max_len * 2 + 64
            } else {
                *self.t.pick(&[0usize, 1, 10, 100, 700])
            };
            let d = self.t.draw(4) as u8;
            self.items.push(Item::Buf(slot, kind, len, d));
            if slot == self.bufs {
                self.bufs += 1;
            }
            return slot;
        }
        b
    }
}
