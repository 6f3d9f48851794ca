//! Elementwise functions and interval arithmetic by perturbation.
use crate::ops::K::{self, *};
use num_complex::Complex;
use num_traits::{Float, FloatConst};

pub type C64 = Complex<f64>;

/// Interval of accepted values. `any` accepts everything (also NaN).
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Iv {
    pub lo: f64,
    pub hi: f64,
}

impl Iv {
    pub fn exact(v: f64) -> Iv {
        if v.is_nan() {
            return Iv::any();
        }
        Iv { lo: v, hi: v }
    }
    pub fn any() -> Iv {
        Iv { lo: f64::NEG_INFINITY, hi: f64::INFINITY }
    }
    pub fn is_any(&self) -> bool {
        self.lo == f64::NEG_INFINITY && self.hi == f64::INFINITY
    }
    pub fn tol(v: f64, t: f64) -> Iv {
        if !v.is_finite() || !t.is_finite() {
            return Iv::any();
        }
        Iv { lo: v - t, hi: v + t }
    }
    pub fn has(&self, x: f64) -> bool {
        if self.is_any() {
            return true;
        }
        x >= self.lo && x <= self.hi
    }
    pub fn join(&mut self, x: f64) {
        if !x.is_finite() {
            *self = Iv::any();
        } else {
            self.lo = self.lo.min(x);
            self.hi = self.hi.max(x);
        }
    }
    pub fn union(&self, o: &Iv) -> Iv {
        Iv { lo: self.lo.min(o.lo), hi: self.hi.max(o.hi) }
    }
    pub fn widen(&self, t: f64) -> Iv {
        if self.is_any() || !t.is_finite() {
            return Iv::any();
        }
        Iv { lo: self.lo - t, hi: self.hi + t }
    }
    pub fn mid(&self) -> f64 {
        if self.is_any() {
            0.0
        } else {
            (self.lo + self.hi) / 2.0
        }
    }
    pub fn rad(&self) -> f64 {
        if self.is_any() {
            f64::INFINITY
        } else {
            (self.hi - self.lo) / 2.0
        }
    }
    pub fn mag(&self) -> f64 {
        self.lo.abs().max(self.hi.abs())
    }
    pub fn scale(&self, f: f64) -> Iv {
        if self.is_any() {
            return *self;
        }
        let (a, b) = (self.lo * f, self.hi * f);
        Iv { lo: a.min(b), hi: a.max(b) }
    }
    pub fn add(&self, o: &Iv) -> Iv {
        if self.is_any() || o.is_any() {
            return Iv::any();
        }
        Iv { lo: self.lo + o.lo, hi: self.hi + o.hi }
    }
    pub fn sub(&self, o: &Iv) -> Iv {
        self.add(&o.scale(-1.0))
    }
    pub fn mul(&self, o: &Iv) -> Iv {
        if self.is_any() || o.is_any() {
            return Iv::any();
        }
        let p = [self.lo * o.lo, self.lo * o.hi, self.hi * o.lo, self.hi * o.hi];
        Iv { lo: p.iter().cloned().fold(f64::INFINITY, f64::min), hi: p.iter().cloned().fold(f64::NEG_INFINITY, f64::max) }
    }
}

pub fn ev_real<F: Float + FloatConst>(k: K, x: F, a: F) -> F {
    let one = F::one();
    match k {
        Sin | SinApprox => x.sin(),
        Cos | CosApprox => x.cos(),
        Tan => x.tan(),
        Asin => x.asin(),
        Acos => x.acos(),
        Atan => x.atan(),
        Sinh => x.sinh(),
        Cosh => x.cosh(),
        Tanh => x.tanh(),
        Asinh => x.asinh(),
        Acosh => x.acosh(),
        Atanh => x.atanh(),
        Sqrt => x.sqrt(),
        Square => x * x,
        Root => x.powf(one / a),
        Powf | PowfApprox => x.powf(a),
        Ln | LnApprox => x.ln(),
        Exp | ExpApprox => x.exp(),
        Log | LogApprox => x.ln() / a.ln(),
        Expf | ExpfApprox => a.powf(x),
        Abs => x.abs(),
        Wrap => x % a,
        Scale => x * a,
        Offset => x + a,
        _ => unreachable!(),
    }
}

pub fn ev_complex<F: Float + FloatConst>(k: K, x: Complex<F>, a: F, b: F) -> Complex<F> {
    let one = F::one();
    match k {
        Sin => x.sin(),
        Cos => x.cos(),
        Tan => x.tan(),
        Asin => x.asin(),
        Acos => x.acos(),
        Atan => x.atan(),
        Sinh => x.sinh(),
        Cosh => x.cosh(),
        Tanh => x.tanh(),
        Asinh => x.asinh(),
        Acosh => x.acosh(),
        Atanh => x.atanh(),
        Sqrt => x.sqrt(),
        Square => x * x,
        Root => x.powf(one / a),
        Powf => x.powf(a),
        Ln => x.ln(),
        Exp => x.exp(),
        Log => x.log(a),
        Expf => x.expf(a),
        Conj => x.conj(),
        Scale => Complex::new(x.re * a, x.im * a),
        Offset => Complex::new(x.re + a, x.im),
        ScaleC => x * Complex::new(a, b),
        OffsetC => x + Complex::new(a, b),
        _ => unreachable!(),
    }
}

#[derive(Clone)]
pub struct Ctx {
    pub eps: f64,
    pub is32: bool,
    /// built with SIMD registers: approximated functions are really approximated
    pub simd: bool,
    /// the direction of the delay of interpolatef (see `deviation`)
    pub flip: bool,
}

impl Ctx {
    pub fn new(is32: bool, simd: bool) -> Ctx {
        Ctx { eps: if is32 { f32::EPSILON as f64 } else { f64::EPSILON }, is32, simd, flip: false }
    }
    pub fn tiny(&self) -> f64 {
        if self.is32 {
            1e-37
        } else {
            1e-300
        }
    }
}

fn r32(k: K, x: f64, a: f64) -> f64 {
    ev_real::<f32>(k, x as f32, a as f32) as f64
}
fn c32(k: K, x: C64, a: f64, b: f64) -> C64 {
    let r = ev_complex::<f32>(k, Complex::new(x.re as f32, x.im as f32), a as f32, b as f32);
    C64::new(r.re as f64, r.im as f64)
}

pub fn approximated(k: K) -> bool {
    matches!(k, LnApprox | ExpApprox | SinApprox | CosApprox | LogApprox | ExpfApprox | PowfApprox)
}

/// hull of the accepted results of a real elementwise function
pub fn hull_real(k: K, x: f64, a: f64, cx: &Ctx) -> Iv {
    let e = 4.0 * cx.eps;
    let v = ev_real::<f64>(k, x, a);
    if !v.is_finite() {
        return Iv::any();
    }
    let mut h = Iv::exact(v);
    if matches!(k, Abs | Scale | Offset | Square) {
        return h.widen(cx.eps * 2.0 * v.abs() + cx.tiny());
    }
    if cx.is32 {
        h.join(r32(k, x, a));
    }
    if approximated(k) && cx.simd {
        return match k {
            LnApprox | LogApprox => {
                let s = if k == LogApprox { a.ln().abs() } else { 1.0 };
                if x <= 1.0 {
                    h.widen(0.05 * v.abs() + 0.05 / s)
                } else {
                    h.widen(0.02 * v.abs() + 1e-2 / s)
                }
            }
            // the documentation promises an accuracy for small arguments only
            ExpApprox if x.abs() > 80.0 => Iv::any(),
            ExpfApprox if (x * a.ln()).abs() > 80.0 => Iv::any(),
            ExpApprox | ExpfApprox => h.widen(0.03 * v.abs() + 1e-6),
            PowfApprox => {
                if x <= 0.0 || (a * x.ln()).abs() > 80.0 {
                    return Iv::any();
                }
                h.widen((0.05 + 0.05 * a.abs()) * v.abs() + 1e-3)
            }
            _ => h.widen(if x.abs() > 100.0 { 1e-2 } else { 1e-4 }),
        };
    }
    for s in [-1.0, 1.0] {
        h.join(ev_real::<f64>(k, x * (1.0 + s * e), a));
        if k == Root || k == Powf || k == Log || k == LogApprox || k == PowfApprox || k == Expf || k == ExpfApprox {
            h.join(ev_real::<f64>(k, x, a * (1.0 + s * e)));
        }
        if k == ExpfApprox || k == PowfApprox {
            // composed of exp and ln
            h.join(ev_real::<f64>(k, x, a * (1.0 + s * e)));
            h = h.widen(8.0 * cx.eps * v.abs() * (1.0 + v.abs().max(cx.tiny()).ln().abs()));
        }
        if h.is_any() {
            return h;
        }
    }
    if matches!(k, Wrap) {
        return h.widen(cx.tiny());
    }
    h.widen(8.0 * cx.eps * v.abs() + 2.0 * cx.eps * v.abs().min(1.0) + cx.tiny())
}

pub fn hull_complex(k: K, x: C64, a: f64, b: f64, cx: &Ctx) -> (Iv, Iv) {
    let e = 4.0 * cx.eps;
    let v = ev_complex::<f64>(k, x, a, b);
    if !v.re.is_finite() || !v.im.is_finite() {
        return (Iv::any(), Iv::any());
    }
    let mut hr = Iv::exact(v.re);
    let mut hi = Iv::exact(v.im);
    match k {
        Conj => return (hr, hi),
        Scale | Offset => {
            return (hr.widen(2.0 * cx.eps * v.re.abs() + cx.tiny()), hi.widen(2.0 * cx.eps * v.im.abs() + cx.tiny()))
        }
        Square | ScaleC | OffsetC => {
            let m = match k {
                Square => x.norm_sqr(),
                OffsetC => x.norm() + a.hypot(b),
                _ => x.norm() * a.hypot(b),
            };
            return (hr.widen(6.0 * cx.eps * m + cx.tiny()), hi.widen(6.0 * cx.eps * m + cx.tiny()));
        }
        _ => (),
    }
    let mut add = |z: C64| {
        hr.join(z.re);
        hi.join(z.im);
    };
    if cx.is32 {
        add(c32(k, x, a, b));
    }
    for s in [-1.0, 0.0, 1.0] {
        for t in [-1.0, 0.0, 1.0] {
            let y = C64::new(x.re * (1.0 + s * e), x.im * (1.0 + t * e));
            add(ev_complex::<f64>(k, y, a, b));
            if cx.is32 {
                add(c32(k, y, a, b));
            }
        }
    }
    if k == Root || k == Powf || k == Log || k == Expf {
        for s in [-1.0, 1.0] {
            add(ev_complex::<f64>(k, x, a * (1.0 + s * e), b));
        }
    }
    if x.im == 0.0 {
        add(ev_complex::<f64>(k, C64::new(x.re, 0.0), a, b));
        add(ev_complex::<f64>(k, C64::new(x.re, -0.0), a, b));
    }
    if x.re == 0.0 {
        add(ev_complex::<f64>(k, C64::new(0.0, x.im), a, b));
        add(ev_complex::<f64>(k, C64::new(-0.0, x.im), a, b));
    }
    // intermediate terms of the usual formulas grow with |x|
    let m = v.norm();
    let t = 16.0 * cx.eps * (m + 1.0) + cx.tiny();
    (hr.widen(t), hi.widen(t))
}
