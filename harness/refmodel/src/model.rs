//! What each operation is documented to do to its operands.
use crate::elem::*;
use crate::func;
use crate::ops::K::*;
use crate::ops::*;
use num_complex::Complex;

#[derive(Clone, Debug, PartialEq)]
pub struct MVec {
    pub d: Vec<f64>,
    pub cx: bool,
    pub fr: bool,
    pub delta: f64,
}

impl MVec {
    pub fn points(&self) -> usize {
        if self.cx {
            self.d.len() / 2
        } else {
            self.d.len()
        }
    }
    pub fn cvals(&self) -> Vec<C64> {
        if self.cx {
            self.d.chunks(2).map(|c| C64::new(c[0], c[1])).collect()
        } else {
            self.d.iter().map(|x| C64::new(*x, 0.0)).collect()
        }
    }
    pub fn erroneous(&self) -> bool {
        self.d.is_empty() && self.delta.is_nan()
    }
}

#[derive(Clone, Debug)]
pub struct EVec {
    pub v: Vec<Iv>,
    pub cx: bool,
    pub fr: bool,
    pub delta: Iv,
}

#[derive(Clone, Debug)]
pub enum RegExp {
    /// marked as failed: no samples, sample step NaN
    Invalid,
    /// no samples, the rest of the state is not specified
    Empty,
    Val(EVec),
    /// bit for bit unchanged
    Same,
    /// nothing is specified
    Unspecified,
}

#[derive(Clone, Debug)]
pub enum Ret {
    I(Iv),
    Set(Vec<f64>),
}

impl Ret {
    pub fn has(&self, x: f64) -> bool {
        match self {
            Ret::I(i) => i.has(x),
            Ret::Set(s) => s.iter().any(|y| *y == x),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Status {
    Ok,
    Err(Vec<i32>),
    /// the operation's documentation says nothing about this situation
    Unspecified,
}

#[derive(Clone, Debug)]
pub struct Exp {
    pub status: Status,
    pub out: Vec<(usize, RegExp)>,
    pub rets: Option<Vec<Ret>>,
}

fn done(t: usize, r: RegExp) -> Exp {
    Exp { status: Status::Ok, out: vec![(t, r)], rets: None }
}
fn err(codes: &[i32]) -> Exp {
    Exp { status: Status::Err(codes.to_vec()), out: vec![], rets: None }
}
fn err_with(t: usize, codes: &[i32], r: RegExp) -> Exp {
    Exp { status: Status::Err(codes.to_vec()), out: vec![(t, r)], rets: None }
}
fn rets(v: Vec<Ret>) -> Exp {
    Exp { status: Status::Ok, out: vec![], rets: Some(v) }
}
fn unspecified(op: &Op) -> Exp {
    let mut out = vec![(op.t, RegExp::Unspecified)];
    for o in op.others() {
        if *o != op.t {
            out.push((*o, RegExp::Unspecified));
        }
    }
    Exp { status: Status::Unspecified, out, rets: None }
}
fn exact(v: &[f64]) -> Vec<Iv> {
    v.iter().map(|x| Iv::exact(*x)).collect()
}
fn delta_iv(d: f64, cx: &Ctx) -> Iv {
    Iv::tol(d, d.abs() * 16.0 * cx.eps + cx.tiny())
}
fn like(x: &MVec, v: Vec<Iv>) -> RegExp {
    RegExp::Val(EVec { v, cx: x.cx, fr: x.fr, delta: Iv::exact(x.delta) })
}
fn like_d(x: &MVec, v: Vec<Iv>, delta: Iv) -> RegExp {
    RegExp::Val(EVec { v, cx: x.cx, fr: x.fr, delta })
}

pub fn flat(v: &[(Iv, Iv)]) -> Vec<Iv> {
    let mut r = Vec::with_capacity(v.len() * 2);
    for (a, b) in v {
        r.push(*a);
        r.push(*b);
    }
    r
}

/// complex samples with one radius each
#[derive(Clone, Debug)]
pub struct CV {
    pub z: Vec<C64>,
    pub r: Vec<f64>,
}

impl CV {
    pub fn exact(z: Vec<C64>) -> CV {
        let n = z.len();
        CV { z, r: vec![0.0; n] }
    }
    fn ivs(&self) -> Vec<Iv> {
        let mut v = Vec::with_capacity(self.z.len() * 2);
        for (z, r) in self.z.iter().zip(self.r.iter()) {
            v.push(Iv::tol(z.re, *r));
            v.push(Iv::tol(z.im, *r));
        }
        v
    }
    fn re_ivs(&self) -> Vec<Iv> {
        self.z.iter().zip(self.r.iter()).map(|(z, r)| Iv::tol(z.re, *r)).collect()
    }
    fn scale(&self, f: f64, eps: f64) -> CV {
        CV {
            z: self.z.iter().map(|z| z * f).collect(),
            r: self.r.iter().zip(self.z.iter()).map(|(r, z)| r * f.abs() + 4.0 * eps * z.norm() * f.abs()).collect(),
        }
    }
    fn mul(&self, o: &CV, eps: f64) -> CV {
        let n = self.z.len();
        let mut z = Vec::with_capacity(n);
        let mut r = Vec::with_capacity(n);
        for i in 0..n {
            let p = self.z[i] * o.z[i];
            z.push(p);
            r.push(
                self.r[i] * (o.z[i].norm() + o.r[i])
                    + o.r[i] * self.z[i].norm()
                    + 8.0 * eps * self.z[i].norm() * o.z[i].norm(),
            );
        }
        CV { z, r }
    }
}

pub fn dft(x: &CV, inverse: bool, eps: f64) -> CV {
    let n = x.z.len();
    if n == 0 {
        return CV { z: vec![], r: vec![] };
    }
    let s = if inverse { 1.0 } else { -1.0 };
    let tw: Vec<C64> = (0..n)
        .map(|k| {
            let a = s * 2.0 * std::f64::consts::PI * k as f64 / n as f64;
            C64::new(a.cos(), a.sin())
        })
        .collect();
    let mut z = Vec::with_capacity(n);
    for k in 0..n {
        let mut sum = C64::new(0.0, 0.0);
        let mut p = 0;
        for v in x.z.iter() {
            sum += v * tw[p];
            p += k;
            if p >= n {
                p %= n;
            }
        }
        z.push(sum);
    }
    let mag: f64 = x.z.iter().map(|v| v.norm()).sum();
    let rad: f64 = x.r.iter().sum();
    let t = rad + (32.0 + 8.0 * (n as f64).log2()) * eps * mag;
    CV { z, r: vec![t; n] }
}

/// moves the zero bin: forward maps index 0 to len/2
pub fn shift<T: Clone>(v: &[T], forward: bool) -> Vec<T> {
    let n = v.len();
    if n == 0 {
        return vec![];
    }
    let k = if forward { n - n / 2 } else { n / 2 };
    let mut r = Vec::with_capacity(n);
    for i in 0..n {
        r.push(v[(i + k) % n].clone());
    }
    r
}
fn shift_cv(v: &CV, forward: bool) -> CV {
    CV { z: shift(&v.z, forward), r: shift(&v.r, forward) }
}

fn pad<T: Clone>(v: &[T], points: usize, option: usize, zero: T) -> Vec<T> {
    let n = v.len();
    let diff = points - n;
    let mut r = Vec::with_capacity(points);
    match option {
        0 => {
            r.extend_from_slice(v);
            r.resize(points, zero);
        }
        1 => {
            let right = diff / 2;
            r.resize(diff - right, zero.clone());
            r.extend_from_slice(v);
            r.resize(r.len() + right, zero);
        }
        _ => {
            let right = n / 2;
            let left = n - right;
            r.extend_from_slice(&v[0..left]);
            r.resize(left + diff, zero);
            r.extend_from_slice(&v[left..]);
        }
    }
    r
}

fn interleave_flat(v: &MVec, c: &[C64]) -> Vec<f64> {
    if v.cx {
        c.iter().flat_map(|z| [z.re, z.im]).collect()
    } else {
        c.iter().map(|z| z.re).collect()
    }
}

/// hull of a user function around x
fn fhull_real(f: &dyn Fn(f64) -> f64, f32v: &dyn Fn(f32) -> f32, x: f64, dx: f64, cx: &Ctx) -> Iv {
    let v = f(x);
    let mut h = Iv::exact(v);
    h.join(f(x - dx));
    h.join(f(x + dx));
    if cx.is32 {
        h.join(f32v(x as f32) as f64);
    }
    h.widen(16.0 * cx.eps * v.abs() + 4.0 * cx.eps)
}
pub fn imp_hull(id: usize, x: f64, dx: f64, cx: &Ctx) -> Iv {
    fhull_real(&|x| func::imp_real::<f64>(id, x), &|x| func::imp_real::<f32>(id, x), x, dx, cx)
}
pub fn freq_hull(id: usize, x: f64, dx: f64, cx: &Ctx) -> Iv {
    fhull_real(&|x| func::freq_real::<f64>(id, x), &|x| func::freq_real::<f32>(id, x), x, dx, cx)
}
fn chull(f: &dyn Fn(f64) -> C64, x: f64, dx: f64, cx: &Ctx) -> (Iv, Iv) {
    let v = f(x);
    let mut a = Iv::exact(v.re);
    let mut b = Iv::exact(v.im);
    for y in [x - dx, x + dx] {
        let w = f(y);
        a.join(w.re);
        b.join(w.im);
    }
    let t = 16.0 * cx.eps * v.norm() + 4.0 * cx.eps;
    (a.widen(t), b.widen(t))
}
pub fn win_hull(id: usize, n: usize, len: usize, cx: &Ctx) -> Iv {
    let v = func::window::<f64>(id, n, len);
    let mut h = Iv::exact(v);
    if cx.is32 {
        h.join(func::window::<f32>(id, n, len) as f64);
    }
    h.widen(32.0 * cx.eps * (v.abs() + 1.0) + if v.is_finite() { 0.0 } else { f64::INFINITY })
}

fn min_iv(a: Iv, b: Iv) -> bool {
    a.lo <= b.lo
}
#[allow(dead_code)]
fn unused(a: Iv, b: Iv) -> bool {
    min_iv(a, b)
}

fn cmulc(a: (Iv, Iv), b: (Iv, Iv)) -> (Iv, Iv) {
    (a.0.mul(&b.0).sub(&a.1.mul(&b.1)), a.0.mul(&b.1).add(&a.1.mul(&b.0)))
}

fn csqrt_hull(c: C64, e: f64, cx: &Ctx) -> (Iv, Iv) {
    let v = c.sqrt();
    let mut a = Iv::exact(v.re);
    let mut b = Iv::exact(v.im);
    for dr in [-e, 0.0, e] {
        for di in [-e, 0.0, e] {
            let w = C64::new(c.re + dr, c.im + di).sqrt();
            a.join(w.re);
            b.join(w.im);
            if c.re - e <= 0.0 && (c.im + di).abs() <= e {
                // both sides of the branch cut
                a.join(w.re);
                b.join(-w.im);
            }
        }
    }
    let n = v.norm();
    let t = 8.0 * cx.eps * n + if n > 0.0 { 0.5 * e / n.max(e.sqrt()) } else { e.sqrt() } + cx.tiny();
    (a.widen(t), b.widen(t))
}

/// the accepted values of a statistics record over the given samples
pub fn stats_real(x: &[f64], cx: &Ctx) -> Vec<Ret> {
    let n = x.len();
    if n == 0 {
        return vec![
            Ret::Set(vec![0.0]),
            Ret::Set(vec![0.0]),
            Ret::I(Iv::any()),
            Ret::I(Iv::any()),
            Ret::I(Iv::any()),
            Ret::I(Iv::any()),
            Ret::I(Iv::any()),
            Ret::I(Iv::any()),
        ];
    }
    let s: f64 = x.iter().sum();
    let sa: f64 = x.iter().map(|v| v.abs()).sum();
    let q: f64 = x.iter().map(|v| v * v).sum();
    let k = (8.0 + n as f64) * cx.eps;
    let ms = q / n as f64;
    let rms = ms.sqrt();
    let min = x.iter().cloned().fold(f64::INFINITY, f64::min);
    let max = x.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
    let mini: Vec<f64> = (0..n).filter(|i| x[*i] == min).map(|i| i as f64).collect();
    let maxi: Vec<f64> = (0..n).filter(|i| x[*i] == max).map(|i| i as f64).collect();
    vec![
        Ret::I(Iv::tol(s, k * sa + cx.tiny())),
        Ret::Set(vec![n as f64]),
        Ret::I(Iv::tol(s / n as f64, k * sa / n as f64 + cx.tiny())),
        Ret::I(Iv::tol(rms, (k + 4.0 * cx.eps) * rms + if rms == 0.0 { 0.0 } else { cx.tiny().sqrt() })),
        Ret::Set(vec![min]),
        Ret::Set(mini),
        Ret::Set(vec![max]),
        Ret::Set(maxi),
    ]
}

pub fn stats_complex(x: &[C64], cx: &Ctx) -> Vec<Ret> {
    let n = x.len();
    if n == 0 {
        let mut r = vec![Ret::Set(vec![0.0]), Ret::Set(vec![0.0]), Ret::Set(vec![0.0])];
        for _ in 0..10 {
            r.push(Ret::I(Iv::any()));
        }
        return r;
    }
    let s: C64 = x.iter().sum();
    let sr: f64 = x.iter().map(|v| v.re.abs()).sum();
    let si: f64 = x.iter().map(|v| v.im.abs()).sum();
    let q: C64 = x.iter().map(|v| v * v).sum();
    let qa: f64 = x.iter().map(|v| v.norm_sqr()).sum();
    let k = (8.0 + n as f64) * cx.eps;
    let nf = n as f64;
    let (rr, ri) = csqrt_hull(q / nf, k * qa / nf, cx);
    let norms: Vec<f64> = x.iter().map(|v| v.norm()).collect();
    let min = norms.iter().cloned().fold(f64::INFINITY, f64::min);
    let max = norms.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
    let t = 4.0 * cx.eps;
    let mi: Vec<usize> = (0..n).filter(|i| norms[*i] <= min * (1.0 + t)).collect();
    let ma: Vec<usize> = (0..n).filter(|i| norms[*i] >= max * (1.0 - t)).collect();
    let set = |l: &[usize], f: &dyn Fn(usize) -> f64| Ret::Set(l.iter().map(|i| f(*i)).collect());
    // the maximum of samples which are all zero has no index which would stand out
    vec![
        Ret::I(Iv::tol(s.re, k * sr + cx.tiny())),
        Ret::I(Iv::tol(s.im, k * si + cx.tiny())),
        Ret::Set(vec![nf]),
        Ret::I(Iv::tol(s.re / nf, k * sr / nf + cx.tiny())),
        Ret::I(Iv::tol(s.im / nf, k * si / nf + cx.tiny())),
        Ret::I(rr),
        Ret::I(ri),
        set(&mi, &|i| x[i].re),
        set(&mi, &|i| x[i].im),
        set(&mi, &|i| i as f64),
        set(&ma, &|i| x[i].re),
        set(&ma, &|i| x[i].im),
        set(&ma, &|i| i as f64),
    ]
}

fn sum_ret(x: &[f64], cx: &Ctx) -> Ret {
    let s: f64 = x.iter().sum();
    let a: f64 = x.iter().map(|v| v.abs()).sum();
    Ret::I(Iv::tol(s, (8.0 + x.len() as f64) * cx.eps * a + cx.tiny()))
}

fn meta_agree(a: &MVec, b: &MVec) -> bool {
    let r = a.delta / b.delta;
    a.cx == b.cx && a.fr == b.fr && !(r > 1.1 || r < 0.9)
}
/// the sample steps are so close to the tolerance that either verdict is fine
fn meta_borderline(a: &MVec, b: &MVec) -> bool {
    let r = a.delta / b.delta;
    (r - 1.1).abs() < 1e-5 || (r - 0.9).abs() < 1e-5
}

fn window_ivs(c: &CV, id: usize, inverse: bool, cx: &Ctx) -> Vec<(Iv, Iv)> {
    let n = c.z.len();
    (0..n)
        .map(|i| {
            let w = win_hull(id, i, n, cx);
            let (lo, hi) = if inverse {
                if w.is_any() || (w.lo <= 0.0 && w.hi >= 0.0) {
                    return (Iv::any(), Iv::any());
                }
                let a = 1.0 / w.lo;
                let b = 1.0 / w.hi;
                (a.min(b), a.max(b))
            } else {
                if w.is_any() {
                    return (Iv::any(), Iv::any());
                }
                (w.lo, w.hi)
            };
            let f = Iv { lo, hi };
            let re = f.mul(&Iv::tol(c.z[i].re, c.r[i]));
            let im = f.mul(&Iv::tol(c.z[i].im, c.r[i]));
            (re.widen(4.0 * cx.eps * re.mag()), im.widen(4.0 * cx.eps * im.mag()))
        })
        .collect()
}
fn to_cv(v: &[(Iv, Iv)]) -> CV {
    CV {
        z: v.iter().map(|(a, b)| C64::new(a.mid(), b.mid())).collect(),
        r: v.iter().map(|(a, b)| a.rad().max(b.rad())).collect(),
    }
}

fn spectrum(z: &CV, delta: f64, points: usize, cx: &Ctx) -> RegExp {
    let _ = points;
    RegExp::Val(EVec { v: z.ivs(), cx: true, fr: true, delta: delta_iv(delta, cx) })
}

/// the value of y = h * x at one position, circular
fn circ_conv(x: &[C64], h: &[C64], eps: f64) -> CV {
    let n = x.len();
    let m = h.len();
    let off = (m + 1) / 2;
    let mut z = Vec::with_capacity(n);
    let mut r = Vec::with_capacity(n);
    for i in 0..n {
        let mut s = C64::new(0.0, 0.0);
        let mut a = 0.0;
        for k in 0..m {
            let p = (i as i64 + off as i64 - 1 - k as i64).rem_euclid(n as i64) as usize;
            let t = h[k] * x[p];
            s += t;
            a += h[k].norm() * x[p].norm();
        }
        z.push(s);
        r.push((16.0 + m as f64) * 2.0 * eps * a);
    }
    // long signals may be convolved in frequency domain
    if m > 15 && n > 4000 {
        let hx: f64 = h.iter().map(|v| v.norm()).sum();
        let mx = x.iter().map(|v| v.norm()).fold(0.0, f64::max);
        for q in r.iter_mut() {
            *q += 400.0 * eps * hx * mx * 8.0;
        }
    }
    CV { z, r }
}

pub fn apply(op: &Op, regs: &[Option<MVec>], cx: &Ctx) -> Exp {
    let x = match regs[op.t] {
        Some(ref x) => x,
        None => return unspecified(op),
    };
    let t = op.t;
    let eps = cx.eps;
    let n = x.d.len();
    let p = x.points();
    let other = |i: usize| -> &MVec { regs[op.o[i]].as_ref().expect("operand") };
    for o in op.others() {
        if regs[*o].is_none() {
            return unspecified(op);
        }
    }
    let k = op.k;
    let invalid_if = |b: bool| b;
    match k {
        Sin | Cos | Tan | Asin | Acos | Atan | Sinh | Cosh | Tanh | Asinh | Acosh | Atanh | Sqrt | Square | Root
        | Powf | Ln | Exp | Log | Expf | Scale | Offset => {
            let v = if x.cx {
                flat(&x.cvals().iter().map(|z| hull_complex(k, *z, op.a, op.b, cx)).collect::<Vec<_>>())
            } else {
                x.d.iter().map(|z| hull_real(k, *z, op.a, cx)).collect()
            };
            done(t, like(x, v))
        }
        Abs | Wrap | LnApprox | ExpApprox | SinApprox | CosApprox | LogApprox | ExpfApprox | PowfApprox => {
            if invalid_if(x.cx) {
                return done(t, RegExp::Invalid);
            }
            done(t, like(x, x.d.iter().map(|z| hull_real(k, *z, op.a, cx)).collect()))
        }
        Unwrap => {
            if x.cx {
                return done(t, RegExp::Invalid);
            }
            // sequential correction of jumps larger than half of the divisor
            let d = op.a;
            let half = d / 2.0;
            let mut v: Vec<Iv> = Vec::with_capacity(n);
            let mut prev = 0.0;
            let mut tol = 0.0;
            let mut lost = false;
            for (i, s) in x.d.iter().enumerate() {
                if i == 0 {
                    v.push(Iv::exact(*s));
                    prev = *s;
                    continue;
                }
                if lost {
                    v.push(Iv::any());
                    continue;
                }
                let diff = s - prev;
                let mag = s.abs() + prev.abs() + d.abs();
                let et = tol + 4.0 * eps * mag;
                if (diff - half).abs() <= et || (diff + half).abs() <= et {
                    lost = true;
                    v.push(Iv::any());
                    continue;
                }
                let y = if diff > half {
                    prev + (diff % d - d)
                } else if diff < -half {
                    prev + (diff % d + d)
                } else {
                    *s
                };
                if diff.abs() > half {
                    let m = (diff / d).fract().abs();
                    if m * d.abs() <= et || (1.0 - m) * d.abs() <= et {
                        lost = true;
                        v.push(Iv::any());
                        continue;
                    }
                    tol = et;
                } else {
                    tol = 0.0;
                }
                v.push(Iv::tol(y, tol));
                prev = y;
            }
            done(t, like(x, v))
        }
        Conj | ScaleC | OffsetC => {
            if !x.cx {
                return done(t, RegExp::Invalid);
            }
            let v = flat(&x.cvals().iter().map(|z| hull_complex(k, *z, op.a, op.b, cx)).collect::<Vec<_>>());
            done(t, like(x, v))
        }
        MulCExp => {
            if !x.cx {
                return done(t, RegExp::Invalid);
            }
            let a = op.a * x.delta;
            let b = op.b * x.delta;
            let mut v = Vec::with_capacity(n);
            for (i, z) in x.cvals().iter().enumerate() {
                let ph = a * i as f64 + b;
                let y = z * C64::new(ph.cos(), ph.sin());
                let tol = z.norm() * eps * (16.0 + 8.0 * i as f64 + 4.0 * ph.abs() + 4.0 * (a * i as f64).abs() + 4.0 * b.abs()) + cx.tiny();
                v.push(Iv::tol(y.re, tol));
                v.push(Iv::tol(y.im, tol));
            }
            done(t, like(x, v))
        }
        Add | Sub | Mul | Div | AddSmaller | SubSmaller | MulSmaller | DivSmaller => {
            let y = other(0);
            let smaller = matches!(k, AddSmaller | SubSmaller | MulSmaller | DivSmaller);
            let mut codes = vec![];
            if smaller {
                if y.d.is_empty() {
                    if n != 0 {
                        codes.push(ARGLEN);
                        codes.push(SAME_SIZE);
                    }
                } else if n % y.d.len() != 0 {
                    codes.push(ARGLEN);
                }
            } else if n != y.d.len() {
                codes.push(SAME_SIZE);
            }
            if !meta_agree(x, y) {
                codes.push(META);
            }
            if meta_borderline(x, y) {
                return unspecified(op);
            }
            if smaller && y.d.is_empty() && !codes.is_empty() {
                codes.push(ARGLEN);
            }
            if smaller && n == 0 && y.d.is_empty() && codes.is_empty() {
                return Exp { status: Status::Unspecified, out: vec![(t, RegExp::Same)], rets: None };
            }
            if !codes.is_empty() {
                return err(&codes);
            }
            let kk = match k {
                AddSmaller => Add,
                SubSmaller => Sub,
                MulSmaller => Mul,
                DivSmaller => Div,
                z => z,
            };
            let mut v = Vec::with_capacity(n);
            if x.cx && (kk == Mul || kk == Div) {
                let a = x.cvals();
                let b = y.cvals();
                for (i, z) in a.iter().enumerate() {
                    let w = b[i % b.len()];
                    if kk == Mul {
                        let q = z * w;
                        let e = 8.0 * eps * z.norm() * w.norm() + cx.tiny();
                        v.push(Iv::tol(q.re, e));
                        v.push(Iv::tol(q.im, e));
                    } else {
                        let q = z / w;
                        let nn = w.norm_sqr();
                        if nn < if cx.is32 { 1e-30 } else { 1e-280 } || !q.re.is_finite() || !q.im.is_finite() {
                            v.push(Iv::any());
                            v.push(Iv::any());
                        } else {
                            let e = 16.0 * eps * q.norm() + cx.tiny();
                            v.push(Iv::tol(q.re, e));
                            v.push(Iv::tol(q.im, e));
                        }
                    }
                }
            } else {
                for (i, z) in x.d.iter().enumerate() {
                    let w = y.d[i % y.d.len()];
                    let q = match kk {
                        Add => z + w,
                        Sub => z - w,
                        Mul => z * w,
                        _ => z / w,
                    };
                    v.push(Iv::tol(q, 2.0 * eps * q.abs() + cx.tiny()));
                }
            }
            done(t, like(x, v))
        }
        Reverse => {
            let mut c = x.cvals();
            c.reverse();
            done(t, like(x, exact(&interleave_flat(x, &c))))
        }
        SwapHalves | FftShift => {
            let c = shift(&x.cvals(), true);
            if k == FftShift && (!x.cx || !x.fr) {
                // only defined on spectra
                return Exp { status: Status::Unspecified, out: vec![(t, RegExp::Unspecified)], rets: None };
            }
            done(t, like(x, exact(&interleave_flat(x, &c))))
        }
        IfftShift => {
            if !x.cx || !x.fr {
                return Exp { status: Status::Unspecified, out: vec![(t, RegExp::Unspecified)], rets: None };
            }
            let c = shift(&x.cvals(), false);
            done(t, like(x, exact(&interleave_flat(x, &c))))
        }
        ZeroPad | ZeroPadB => {
            if op.n <= p {
                return err(&[ARGLEN]);
            }
            let c = pad(&x.cvals(), op.n, op.m, C64::new(0.0, 0.0));
            done(t, like(x, exact(&interleave_flat(x, &c))))
        }
        ZeroInterleave | ZeroInterleaveB => {
            if op.n <= 1 {
                return done(t, RegExp::Same);
            }
            let c = x.cvals();
            let mut r = Vec::with_capacity(p * op.n);
            for z in c {
                r.push(z);
                for _ in 1..op.n {
                    r.push(C64::new(0.0, 0.0));
                }
            }
            done(t, like(x, exact(&interleave_flat(x, &r))))
        }
        SplitInto => {
            let m = op.no;
            if m == 0 || p % m != 0 {
                // the interleaved length is what is documented to be a multiple of the targets
                let mut c = vec![ARGLEN];
                if m != 0 && x.cx {
                    c.push(EVEN);
                }
                return err(&c);
            }
            let c = x.cvals();
            let mut out = vec![];
            for (i, o) in op.others().iter().enumerate() {
                let y = regs[*o].as_ref().unwrap();
                if y.cx != x.cx {
                    return unspecified(op);
                }
                let part: Vec<C64> = c.iter().skip(i).step_by(m).cloned().collect();
                out.push((*o, like(y, exact(&interleave_flat(x, &part)))));
            }
            Exp { status: Status::Ok, out, rets: None }
        }
        Merge => {
            let m = op.no;
            if m == 0 {
                return err(&[ARGLEN]);
            }
            let l = other(0).d.len();
            for i in 0..m {
                if other(i).d.len() != l {
                    return err(&[ARGLEN]);
                }
            }
            for i in 0..m {
                if other(i).cx != x.cx {
                    return unspecified(op);
                }
            }
            let parts: Vec<Vec<C64>> = (0..m).map(|i| other(i).cvals()).collect();
            let mut c = Vec::new();
            for i in 0..other(0).points() {
                for q in parts.iter() {
                    c.push(q[i]);
                }
            }
            done(t, like(x, exact(&interleave_flat(x, &c))))
        }
        Resize | ResizeB => {
            if x.cx && op.n % 2 != 0 {
                return err(&[EVEN]);
            }
            let mut v = exact(&x.d);
            // content of the new part is whatever the storage holds
            v.resize(op.n, Iv::any());
            done(t, like(x, v))
        }
        CloneFrom => {
            let y = other(0).clone();
            let v = exact(&y.d);
            done(t, like(&y, v))
        }
        SetDelta => done(t, like_d(x, exact(&x.d), Iv::exact(op.a))),
        Diff | DiffWithStart => {
            let c = x.cvals();
            let mut v: Vec<Iv> = vec![];
            let push = |v: &mut Vec<Iv>, z: C64, m: C64| {
                v.push(Iv::tol(z.re, 2.0 * eps * m.re + cx.tiny()));
                if x.cx {
                    v.push(Iv::tol(z.im, 2.0 * eps * m.im + cx.tiny()));
                }
            };
            if k == DiffWithStart && p > 0 {
                push(&mut v, c[0], C64::new(0.0, 0.0));
            }
            for i in 1..p {
                let (a, b) = (c[i], c[i - 1]);
                push(&mut v, a - b, C64::new(a.re.abs() + b.re.abs(), a.im.abs() + b.im.abs()));
            }
            done(t, like(x, v))
        }
        CumSum => {
            let c = x.cvals();
            let mut v = vec![];
            let mut s = C64::new(0.0, 0.0);
            let mut ar = 0.0;
            let mut ai = 0.0;
            for (i, z) in c.iter().enumerate() {
                s += z;
                ar += z.re.abs();
                ai += z.im.abs();
                let f = (4.0 + i as f64) * eps;
                v.push(Iv::tol(s.re, f * ar + cx.tiny()));
                if x.cx {
                    v.push(Iv::tol(s.im, f * ai + cx.tiny()));
                }
            }
            done(t, like(x, v))
        }
        Dot | DotPrec => {
            let y = other(0);
            // op.m: 0 asks for the real product, 1 for the complex one
            let want = op.m == 1;
            if x.cx != want {
                return err(if want { &[COMPLEX] } else { &[REAL] });
            }
            let mut codes = vec![];
            if x.cx != y.cx || x.fr != y.fr {
                codes.push(META);
            }
            if n != y.d.len() {
                codes.push(SAME_SIZE);
                codes.push(META);
            }
            if !codes.is_empty() {
                return err(&codes);
            }
            if x.cx {
                let (a, b) = (x.cvals(), y.cvals());
                let mut s = C64::new(0.0, 0.0);
                let mut m = 0.0;
                for (u, w) in a.iter().zip(b.iter()) {
                    s += u * w;
                    m += u.norm() * w.norm();
                }
                let e = (16.0 + p as f64) * 2.0 * eps * m + cx.tiny();
                rets(vec![Ret::I(Iv::tol(s.re, e)), Ret::I(Iv::tol(s.im, e))])
            } else {
                let pr: Vec<f64> = x.d.iter().zip(y.d.iter()).map(|(a, b)| a * b).collect();
                rets(vec![sum_ret(&pr, cx)])
            }
        }
        Stats | StatsPrec => {
            if x.cx {
                rets(stats_complex(&x.cvals(), cx))
            } else {
                rets(stats_real(&x.d, cx))
            }
        }
        StatsSplit | StatsSplitPrec => {
            let m = op.n;
            if m > 16 {
                return err(&[ARGLEN]);
            }
            let mut r = vec![];
            for i in 0..m {
                let part: Vec<C64> = x.cvals().iter().skip(i).step_by(m).cloned().collect();
                if x.cx {
                    r.extend(stats_complex(&part, cx));
                } else {
                    let part: Vec<f64> = part.iter().map(|z| z.re).collect();
                    r.extend(stats_real(&part, cx));
                }
            }
            if n == 0 && m > 0 {
                // either no record or empty ones
                return Exp { status: Status::Ok, out: vec![], rets: None };
            }
            rets(r)
        }
        Sum | SumPrec => {
            if x.cx {
                let c = x.cvals();
                let re: Vec<f64> = c.iter().map(|z| z.re).collect();
                let im: Vec<f64> = c.iter().map(|z| z.im).collect();
                rets(vec![sum_ret(&re, cx), sum_ret(&im, cx)])
            } else {
                rets(vec![sum_ret(&x.d, cx)])
            }
        }
        SumSq | SumSqPrec => {
            if x.cx {
                let c = x.cvals();
                let q: C64 = c.iter().map(|z| z * z).sum();
                let m: f64 = c.iter().map(|z| z.norm_sqr()).sum();
                let e = (16.0 + p as f64) * 2.0 * eps * m + cx.tiny();
                rets(vec![Ret::I(Iv::tol(q.re, e)), Ret::I(Iv::tol(q.im, e))])
            } else {
                let q: Vec<f64> = x.d.iter().map(|z| z * z).collect();
                rets(vec![sum_ret(&q, cx)])
            }
        }
        MapReal => {
            if x.cx {
                return done(t, RegExp::Invalid);
            }
            let v = x
                .d
                .iter()
                .enumerate()
                .map(|(i, z)| {
                    let y = func::map_real::<f64>(op.f, *z, i, op.a);
                    let m = z.abs() * (1.0 + op.a.abs()) + i as f64 + op.a.abs();
                    Iv::tol(y, 4.0 * eps * m + cx.tiny())
                })
                .collect();
            done(t, like(x, v))
        }
        MapComplex => {
            if !x.cx {
                return done(t, RegExp::Invalid);
            }
            let mut v = vec![];
            for (i, z) in x.cvals().iter().enumerate() {
                let y = func::map_complex::<f64>(op.f, *z, i, op.a);
                let m = z.norm() * (1.0 + op.a.abs()) + i as f64 + op.a.abs();
                let e = 4.0 * eps * m + cx.tiny();
                v.push(Iv::tol(y.re, e));
                v.push(Iv::tol(y.im, e));
            }
            done(t, like(x, v))
        }
        MapAggReal | MapAggComplex => {
            if x.cx != (k == MapAggComplex) {
                return err(if x.cx { &[REAL] } else { &[COMPLEX] });
            }
            if n == 0 {
                return err(&[NOTEMPTY]);
            }
            let mut acc: Option<i64> = None;
            for (i, z) in x.cvals().iter().enumerate() {
                let m = func::agg_map(op.f, sample_bits(*z), i, op.a as i64);
                acc = Some(match acc {
                    None => m,
                    Some(a) => func::agg(op.f, a, m),
                });
            }
            rets(vec![Ret::Set(vec![acc.unwrap() as f64])])
        }
        ToComplex | ToComplexB => {
            if x.cx {
                return if k == ToComplex { err(&[REAL]) } else { done(t, RegExp::Invalid) };
            }
            let mut v = vec![];
            for z in x.d.iter() {
                v.push(Iv::exact(*z));
                v.push(Iv::exact(0.0));
            }
            done(t, RegExp::Val(EVec { v, cx: true, fr: x.fr, delta: Iv::exact(x.delta) }))
        }
        Magnitude | MagnitudeSq | ToReal | ToImag | Phase | MagnitudeB | MagnitudeSqB | ToRealB | ToImagB | PhaseB => {
            if !x.cx {
                return done(t, RegExp::Invalid);
            }
            let v = x.cvals().iter().map(|z| part(k, *z, cx)).collect();
            done(t, RegExp::Val(EVec { v, cx: false, fr: x.fr, delta: Iv::exact(x.delta) }))
        }
        GetReal | GetImag | GetMagnitude | GetMagnitudeSq | GetPhase => {
            let y = other(0);
            if !x.cx || y.cx {
                return done(op.o[0], RegExp::Empty);
            }
            let v = x.cvals().iter().map(|z| part(k, *z, cx)).collect();
            done(op.o[0], RegExp::Val(EVec { v, cx: false, fr: y.fr, delta: Iv::exact(x.delta) }))
        }
        GetRealImag | GetMagPhase => {
            let (y, z) = (other(0), other(1));
            if !x.cx || y.cx || z.cx {
                return Exp { status: Status::Ok, out: vec![(op.o[0], RegExp::Empty), (op.o[1], RegExp::Empty)], rets: None };
            }
            let (k0, k1) = if k == GetRealImag { (GetReal, GetImag) } else { (GetMagnitude, GetPhase) };
            let v0 = x.cvals().iter().map(|z| part(k0, *z, cx)).collect();
            let v1 = x.cvals().iter().map(|z| part(k1, *z, cx)).collect();
            // whether the sample step is taken over isn't specified for these two
            let dl = |y: &MVec| Iv { lo: y.delta.min(x.delta), hi: y.delta.max(x.delta) };
            Exp {
                status: Status::Ok,
                out: vec![
                    (op.o[0], RegExp::Val(EVec { v: v0, cx: false, fr: y.fr, delta: dl(y) })),
                    (op.o[1], RegExp::Val(EVec { v: v1, cx: false, fr: z.fr, delta: dl(z) })),
                ],
                rets: None,
            }
        }
        SetRealImag | SetMagPhase => {
            let (y, z) = (other(0), other(1));
            if y.d.len() != z.d.len() {
                return err(&[ARGLEN]);
            }
            if !x.cx || y.cx || z.cx {
                return unspecified(op);
            }
            let mut v = vec![];
            for (a, b) in y.d.iter().zip(z.d.iter()) {
                if k == SetRealImag {
                    v.push(Iv::exact(*a));
                    v.push(Iv::exact(*b));
                } else {
                    let e = a.abs() * (8.0 * eps + 4.0 * eps * b.abs()) + cx.tiny();
                    v.push(Iv::tol(a * b.cos(), e));
                    v.push(Iv::tol(a * b.sin(), e));
                }
            }
            done(t, like(x, v))
        }
        PlainFft | Fft | WindowedFft => {
            if x.fr {
                return done(t, RegExp::Invalid);
            }
            let mut c = CV::exact(x.cvals());
            if k == WindowedFft {
                c = to_cv(&window_ivs(&c, op.f, false, cx));
            }
            let mut z = dft(&c, false, eps);
            if k != PlainFft {
                z = shift_cv(&z, true);
            }
            done(t, spectrum(&z, x.delta * p.max(1) as f64, p, cx))
        }
        PlainIfft | Ifft | WindowedIfft => {
            if !x.fr {
                return done(t, RegExp::Invalid);
            }
            let mut c = CV::exact(x.cvals());
            if k != PlainIfft {
                c = shift_cv(&c.scale(1.0 / p.max(1) as f64, eps), false);
            }
            let z = dft(&c, true, eps);
            let v = if k == WindowedIfft { flat(&window_ivs(&z, op.f, true, cx)) } else { z.ivs() };
            done(t, RegExp::Val(EVec { v, cx: true, fr: false, delta: delta_iv(x.delta / p.max(1) as f64, cx) }))
        }
        PlainSfft | Sfft | WindowedSfft => {
            if x.fr || x.cx {
                let c = if x.fr && x.cx {
                    vec![TIME, REAL]
                } else if x.fr {
                    vec![TIME]
                } else {
                    vec![TIME, REAL]
                };
                return err_with(t, &c, RegExp::Invalid);
            }
            if p % 2 == 0 {
                return err_with(t, &[ODD], RegExp::Invalid);
            }
            let mut c = CV::exact(x.cvals());
            if k == WindowedSfft {
                c = to_cv(&window_ivs(&c, op.f, false, cx));
            }
            let mut z = dft(&c, false, eps);
            z.z.truncate(p / 2 + 1);
            z.r.truncate(p / 2 + 1);
            done(t, spectrum(&z, x.delta * p.max(1) as f64, p, cx))
        }
        PlainSifft | Sifft | WindowedSifft => {
            if !x.fr || !x.cx {
                return err_with(t, &[FREQ, COMPLEX], RegExp::Invalid);
            }
            // the spectrum may be scaled before it is checked
            let scaled = if k == PlainSifft { 1.0 } else { (2 * p.max(1) - 1) as f64 };
            if p > 0 && x.d[1].abs() > 1e-9 * scaled {
                return err_with(t, &[CONJSYM], RegExp::Invalid);
            }
            if p > 0 && x.d[1].abs() > 1e-11 {
                return unspecified(op);
            }
            let h = x.cvals();
            let mut full = h.clone();
            for i in (1..p).rev() {
                full.push(h[i].conj());
            }
            let m = full.len();
            let mut c = CV::exact(full);
            if k != PlainSifft {
                c = c.scale(1.0 / m.max(1) as f64, eps);
            }
            let z = dft(&c, true, eps);
            let v = if k == WindowedSifft {
                window_ivs(&z, op.f, true, cx).iter().map(|w| w.0).collect()
            } else {
                z.re_ivs()
            };
            done(t, RegExp::Val(EVec { v, cx: false, fr: false, delta: delta_iv(x.delta / m.max(1) as f64, cx) }))
        }
        Mirror => {
            if !x.fr || !x.cx {
                return done(t, RegExp::Invalid);
            }
            let h = x.cvals();
            let mut full = h.clone();
            for i in (1..p).rev() {
                full.push(h[i].conj());
            }
            done(t, like(x, exact(&interleave_flat(x, &full))))
        }
        ApplyWindow | UnapplyWindow => {
            let w = window_ivs(&CV::exact(x.cvals()), op.f, k == UnapplyWindow, cx);
            let v = if x.cx { flat(&w) } else { w.iter().map(|z| z.0).collect() };
            done(t, like(x, v))
        }
        ConvolveReal | ConvolveComplex => {
            if k == ConvolveComplex && !x.cx {
                return done(t, RegExp::Invalid);
            }
            if x.fr {
                return done(t, RegExp::Invalid);
            }
            let l = op.n.min(p) as i64;
            let ri = 1.0 / op.a;
            let c = x.cvals();
            // y[i] = sum over m of x[i+m] f(-m*ratio), m = -l..=l
            let taps: Vec<(Iv, Iv)> = (-l..=l)
                .map(|m| {
                    let pos = -(m as f64) * conv_pos(op.a, ri);
                    let dx = 8.0 * eps * (pos.abs() + 1.0);
                    if k == ConvolveReal {
                        (imp_hull(op.f, pos, dx, cx), Iv::exact(0.0))
                    } else {
                        chull(&|x| func::imp_complex::<f64>(op.f, x), pos, dx, cx)
                    }
                })
                .collect();
            done(t, like(x, weighted(&c, &taps, l, x.cx, eps)))
        }
        ConvolveSignal => {
            let h = other(0);
            let mut codes = vec![];
            if meta_borderline(x, h) {
                return unspecified(op);
            }
            if !meta_agree(x, h) {
                codes.push(META);
            }
            if x.fr || h.fr {
                codes.push(TIME);
            }
            if p < h.points() {
                codes.push(ARGLEN);
            }
            if !codes.is_empty() {
                return err(&codes);
            }
            let z = circ_conv(&x.cvals(), &h.cvals(), eps);
            let v = if x.cx { z.ivs() } else { z.re_ivs() };
            done(t, like(x, v))
        }
        MulFreqReal | MulFreqComplex => {
            if (k == MulFreqComplex && !x.cx) || !x.fr {
                return done(t, RegExp::Invalid);
            }
            let c = x.cvals();
            let off = (p % 2) as f64;
            let max = (p as f64 - off) / 2.0;
            let mut v = vec![];
            for (i, z) in c.iter().enumerate() {
                let pos = (i as f64 - max) / max * op.a;
                let pos = if pos.is_nan() { 0.0 } else { pos };
                let dx = 8.0 * eps * (pos.abs() + 1.0);
                let f = if k == MulFreqReal {
                    (freq_hull(op.f, pos, dx, cx).scale(op.a), Iv::exact(0.0))
                } else {
                    let h = chull(&|x| func::freq_complex::<f64>(op.f, x), pos, dx, cx);
                    (h.0.scale(op.a), h.1.scale(op.a))
                };
                if p == 1 {
                    // the scale of a single bin isn't defined
                    v.push(Iv::any());
                    if x.cx {
                        v.push(Iv::any());
                    }
                    continue;
                }
                let y = cmulc((Iv::exact(z.re), Iv::exact(z.im)), f);
                let e = 8.0 * eps * z.norm() * (f.0.mag() + f.1.mag()) + cx.tiny();
                v.push(y.0.widen(e));
                if x.cx {
                    v.push(y.1.widen(e));
                }
            }
            done(t, like(x, v))
        }
        PrepareArgument | PrepareArgumentPadded => {
            if x.fr {
                return done(t, RegExp::Invalid);
            }
            if !x.cx {
                return unspecified(op);
            }
            let mut c = x.cvals();
            if k == PrepareArgumentPadded && p > 1 {
                c = pad(&c, 2 * p - 1, 1, C64::new(0.0, 0.0));
            }
            let m = c.len();
            let mut z = dft(&CV::exact(c), false, eps);
            for w in z.z.iter_mut() {
                *w = w.conj();
            }
            done(t, spectrum(&z, x.delta * m.max(1) as f64, m, cx))
        }
        Correlate => {
            let y = other(0);
            let mut codes = vec![];
            if !x.cx {
                codes.push(COMPLEX);
            }
            if x.fr {
                codes.push(TIME);
            }
            if !y.cx {
                codes.extend_from_slice(&[META, COMPLEX]);
            }
            if !y.fr {
                codes.extend_from_slice(&[META, FREQ]);
            }
            if !codes.is_empty() {
                return err(&codes);
            }
            let m = y.points();
            if m < p {
                return err(&[ARGLEN]);
            }
            if m == 0 {
                return unspecified(op);
            }
            let c = pad(&x.cvals(), m, 1, C64::new(0.0, 0.0));
            let f = dft(&CV::exact(c), false, eps);
            let z = f.mul(&CV::exact(y.cvals()), eps);
            let z = dft(&z, true, eps).scale(1.0 / m as f64, eps);
            let z = shift_cv(&z, true);
            done(t, RegExp::Val(EVec { v: z.ivs(), cx: true, fr: false, delta: Iv::exact(x.delta) }))
        }
        Interpolatef => {
            let factor = op.a;
            let delay = if cx.flip { -op.b } else { op.b } / x.delta;
            let l = op.n.min(p / 2) as i64;
            let mut len = (n as f64 * factor).round() as usize;
            if cx.is32 {
                len = (n as f32 * factor as f32).round() as usize;
            }
            len += len % 2;
            let c = x.cvals();
            if p == 0 {
                return done(t, like(x, vec![]));
            }
            let np = if x.cx { len / 2 } else { len };
            let mut v: Vec<Iv> = vec![];
            for i in 0..np {
                let center = i as f64 / factor;
                let dc = 8.0 * eps * (center.abs() + delay.abs() + l as f64 + 1.0);
                let near = (center - center.round()).abs() <= dc;
                let mut acc: Option<Vec<Iv>> = None;
                let fl = center.floor();
                let mut bases = vec![fl];
                if near {
                    bases = vec![center.round()];
                    if center.round() != center {
                        bases.push(center.round() - 1.0);
                    }
                }
                for b in bases {
                    let frac = center - b;
                    {
                        let mut s = (Iv::exact(0.0), Iv::exact(0.0));
                        let mut mag = 0.0;
                        for m in -l..=l {
                            let f = imp_hull(op.f, m as f64 - frac + delay, dc, cx);
                            let z = c[(b as i64 + m).rem_euclid(p as i64) as usize];
                            s.0 = s.0.add(&f.scale(z.re));
                            s.1 = s.1.add(&f.scale(z.im));
                            mag += f.mag() * z.norm();
                        }
                        let e = (16.0 + 2.0 * l as f64) * 2.0 * eps * mag + cx.tiny();
                        let mut r = vec![s.0.widen(e)];
                        if x.cx {
                            r.push(s.1.widen(e));
                        }
                        acc = Some(match acc {
                            None => r,
                            Some(a) => a.iter().zip(r.iter()).map(|(p, q)| p.union(q)).collect(),
                        });
                    }
                }
                v.extend(acc.unwrap());
            }
            done(t, like_d(x, v, Iv::exact(x.delta)))
        }
        Interpolatei => {
            if op.n <= 1 {
                return done(t, RegExp::Same);
            }
            if !x.cx && !func::freq_symmetric(op.f) {
                return err(&[SYMFN]);
            }
            if p == 0 {
                return done(t, like(x, vec![]));
            }
            let f = op.n;
            let mut c = vec![];
            for z in x.cvals() {
                c.push(z);
                for _ in 1..f {
                    c.push(C64::new(0.0, 0.0));
                }
            }
            let m = c.len();
            let z = dft(&CV::exact(c), false, eps);
            let z = freq_mul_fft_order(&z, op.f, f as f64, cx);
            let z = dft(&z, true, eps).scale(1.0 / m as f64, eps);
            let v = if x.cx { z.ivs() } else { z.re_ivs() };
            done(t, like(x, v))
        }
        Interpolate | Interpft => {
            let dest = op.n;
            let with_fn = k == Interpolate && op.f != usize::MAX;
            let delay = if k == Interpft { 0.0 } else { op.b };
            if with_fn && !x.cx && !func::freq_symmetric(op.f) {
                return err(&[SYMFN]);
            }
            if p == 0 || dest == 0 {
                return unspecified(op);
            }
            let factor = dest as f64 / p as f64;
            let mut z = dft(&CV::exact(x.cvals()), false, eps);
            if delay != 0.0 {
                let inc = 2.0 * std::f64::consts::PI * (delay / x.delta) / p as f64;
                let pos = p - p / 2;
                for (i, w) in z.z.iter_mut().enumerate() {
                    let bin = if i < pos { i as f64 } else { i as f64 - p as f64 };
                    let ph = bin * inc;
                    z.r[i] += w.norm() * eps * (16.0 + 16.0 * p as f64 + 8.0 * (inc * p as f64).abs());
                    *w *= C64::new(ph.cos(), ph.sin());
                }
            }
            if dest > p {
                z = CV { z: pad(&z.z, dest, 2, C64::new(0.0, 0.0)), r: pad(&z.r, dest, 2, 0.0) };
                if with_fn {
                    z = freq_mul_fft_order(&z, op.f, factor, cx);
                } else {
                    z = z.scale(factor, eps);
                }
            } else if dest < p {
                let neg = dest / 2;
                let head = dest - neg;
                let cut = |v: &[C64]| -> Vec<C64> { v[0..head].iter().chain(v[p - neg..].iter()).cloned().collect() };
                let cutr = |v: &[f64]| -> Vec<f64> { v[0..head].iter().chain(v[p - neg..].iter()).cloned().collect() };
                z = CV { z: cut(&z.z), r: cutr(&z.r) }.scale(factor, eps);
            }
            let z = dft(&z, true, eps).scale(1.0 / dest as f64, eps);
            let v = if x.cx { z.ivs() } else { z.re_ivs() };
            done(t, like_d(x, v, delta_iv(x.delta / factor, cx)))
        }
        Decimatei => {
            if op.n == 0 {
                return unspecified(op);
            }
            let c: Vec<C64> = x.cvals().iter().skip(op.m).step_by(op.n).cloned().collect();
            done(t, like(x, exact(&interleave_flat(x, &c))))
        }
        InterpolateLin | InterpolateHermite => {
            if x.cx {
                return done(t, RegExp::Invalid);
            }
            if n == 0 {
                return done(t, like(x, vec![]));
            }
            let span = if cx.is32 {
                ((n - 1) as f32 * op.a as f32).round() as usize
            } else {
                ((n - 1) as f64 * op.a).round() as usize
            };
            let dest = span + 1;
            let mut v = vec![];
            for i in 0..dest {
                let pos = i as f64 / op.a + op.b;
                let dp = 16.0 * eps * (pos + 1.0);
                if k == InterpolateLin && i == dest - 1 {
                    v.push(Iv::exact(x.d[n - 1]));
                    continue;
                }
                let mut h: Option<Iv> = None;
                for q in [pos, (pos - dp).max(0.0), pos + dp] {
                    let iv = if k == InterpolateLin { lerp(&x.d, q, eps) } else { hermite(&x.d, q, eps) };
                    h = Some(match h {
                        None => iv,
                        Some(a) => a.union(&iv),
                    });
                }
                v.push(h.unwrap());
            }
            done(t, like(x, v))
        }
    }
}

pub fn sample_bits(z: C64) -> i64 {
    // an integer which depends on the sample but not on rounding
    (z.re * 16.0).round() as i64 * 31 + (z.im * 16.0).round() as i64
}

fn conv_pos(ratio: f64, _inv: f64) -> f64 {
    ratio
}

fn lerp(d: &[f64], pos: f64, eps: f64) -> Iv {
    let n = d.len();
    if n == 1 {
        return Iv::exact(d[0]);
    }
    let b = (pos.floor() as usize).min(n - 2);
    let y = d[b] + (d[b + 1] - d[b]) * (pos - b as f64);
    Iv::tol(y, 8.0 * eps * (d[b].abs() + d[b + 1].abs()) * (1.0 + (pos - b as f64).abs()))
}

fn hermite(d: &[f64], pos: f64, eps: f64) -> Iv {
    let n = d.len() as i64;
    if n == 1 {
        return Iv::exact(d[0]);
    }
    let b = pos.floor() as i64;
    let x = pos - b as f64;
    // samples outside of the data are extrapolated linearly
    let at = |i: i64| -> f64 {
        if i < 0 {
            d[0] + (d[1] - d[0]) * i as f64
        } else if i >= n {
            d[n as usize - 1] + (d[n as usize - 1] - d[n as usize - 2]) * (i - n + 1) as f64
        } else {
            d[i as usize]
        }
    };
    let (y0, y1, y2, y3) = (at(b - 1), at(b), at(b + 1), at(b + 2));
    let a0 = -0.5 * y0 + 1.5 * y1 - 1.5 * y2 + 0.5 * y3;
    let a1 = y0 - 2.5 * y1 + 2.0 * y2 - 0.5 * y3;
    let a2 = -0.5 * y0 + 0.5 * y2;
    let y = a0 * x * x * x + a1 * x * x + a2 * x + y1;
    Iv::tol(y, 64.0 * eps * (y0.abs() + y1.abs() + y2.abs() + y3.abs()))
}

/// multiplies a spectrum in natural FFT order (zero bin first) with a frequency response; bin b of
/// n has the normalised frequency b/(n/2)
fn freq_mul_fft_order(z: &CV, id: usize, ratio: f64, cx: &Ctx) -> CV {
    let n = z.z.len();
    let half = n as f64 / 2.0;
    let mut r = CV { z: vec![], r: vec![] };
    for i in 0..n {
        // the bin at half of the sample rate counts as positive
        let bin = if i as f64 <= half { i as f64 } else { i as f64 - n as f64 };
        let x = bin / half * ratio;
        let f = freq_hull(id, x, 8.0 * cx.eps * (x.abs() + 1.0), cx).scale(ratio);
        r.z.push(z.z[i] * f.mid());
        r.r.push(z.r[i] * f.mag() + z.z[i].norm() * (f.rad() + 8.0 * cx.eps * f.mag()));
    }
    r
}

fn part(k: K, z: C64, cx: &Ctx) -> Iv {
    match k {
        Magnitude | MagnitudeB | GetMagnitude => Iv::tol(z.norm(), 4.0 * cx.eps * z.norm() + cx.tiny().sqrt() * 10.0),
        MagnitudeSq | MagnitudeSqB | GetMagnitudeSq => Iv::tol(z.norm_sqr(), 4.0 * cx.eps * z.norm_sqr() + cx.tiny()),
        ToReal | ToRealB | GetReal => Iv::exact(z.re),
        ToImag | ToImagB | GetImag => Iv::exact(z.im),
        _ => {
            if z.re == 0.0 && z.im == 0.0 {
                return Iv::any();
            }
            let a = z.arg();
            if z.im == 0.0 && z.re < 0.0 {
                return Iv { lo: -3.2, hi: 3.2 };
            }
            Iv::tol(a, 4.0 * cx.eps * a.abs() + cx.tiny())
        }
    }
}

fn weighted(c: &[Complex<f64>], taps: &[(Iv, Iv)], l: i64, complex: bool, eps: f64) -> Vec<Iv> {
    let p = c.len() as i64;
    let mut v = vec![];
    for i in 0..p {
        let mut re = 0.0;
        let mut im = 0.0;
        let mut rr = 0.0;
        let mut mag = 0.0;
        for m in -l..=l {
            let (a, b) = &taps[(m + l) as usize];
            let z = c[(i + m).rem_euclid(p) as usize];
            let (fa, fb) = (a.mid(), b.mid());
            re += z.re * fa - z.im * fb;
            im += z.re * fb + z.im * fa;
            let zn = z.re.abs() + z.im.abs();
            rr += zn * (a.rad() + b.rad());
            mag += zn * (fa.abs() + fb.abs());
        }
        let e = rr + (16.0 + 2.0 * l as f64) * 2.0 * eps * mag;
        v.push(Iv::tol(re, e));
        if complex {
            v.push(Iv::tol(im, e));
        }
    }
    v
}

/// Known deviation from the documentation which can't be repaired without breaking other users:
/// what the operation gives instead
pub fn deviation(op: &Op, regs: &[Option<MVec>], cx: &Ctx) -> Option<(&'static str, Exp)> {
    let x = regs[op.t].as_ref()?;
    if op.k == Interpolatef && op.b != 0.0 && op.a == op.a.round() {
        let len = (x.d.len() as f64 * op.a).round();
        if len >= 1999.0 && op.n.min(x.points() / 2) <= 202 {
            let mut c = cx.clone();
            c.flip = true;
            return Some(("finding:interpolatef-delay-direction", apply(op, regs, &c)));
        }
    }
    None
}
