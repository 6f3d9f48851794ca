//! The user functions known to the harness: pure functions of (id, argument), shared by the code
//! which hands them to the library and by the model.
use num_complex::Complex;
use num_traits::{Float, FloatConst};

pub const N_MAP: usize = 3;
pub const N_AGG: usize = 3;
/// impulse responses: 0,1 custom (1 asymmetric), 2 raised cosine, 3 sinc, 4 table (symmetric)
pub const N_IMP: usize = 5;
/// frequency responses: same meaning
pub const N_FREQ: usize = 5;
/// windows: 0 custom symmetric, 1 custom asymmetric, 2 triangular, 3 hamming, 4 blackman harris, 5 rectangular
pub const N_WIN: usize = 6;
pub const ROLLOFF: f64 = 0.35;

fn c<F: Float>(x: f64) -> F {
    F::from(x).unwrap()
}

/// map functions for real samples: value, index, argument
pub fn map_real<F: Float>(id: usize, v: F, i: usize, arg: F) -> F {
    let fi: F = c(i as f64);
    match id % N_MAP {
        0 => v + fi,
        1 => v * arg - c::<F>(0.5) * fi,
        _ => {
            if i % 2 == 0 {
                v
            } else {
                arg
            }
        }
    }
}
pub fn map_complex<F: Float>(id: usize, v: Complex<F>, i: usize, arg: F) -> Complex<F> {
    let fi: F = c(i as f64);
    match id % N_MAP {
        0 => Complex::new(v.re + fi, v.im - fi),
        1 => Complex::new(v.im * arg, v.re + c::<F>(0.5) * fi),
        _ => {
            if i % 2 == 0 {
                v
            } else {
                Complex::new(arg, v.re)
            }
        }
    }
}
/// aggregations over the mapped values are associative and commutative on integers
pub fn agg_map(id: usize, bits: i64, i: usize, arg: i64) -> i64 {
    match id % N_AGG {
        0 => (i as i64 + 1) * 7 + (bits % 13) * arg,
        1 => bits ^ ((i as i64) << 7),
        _ => 1,
    }
}
pub fn agg(id: usize, a: i64, b: i64) -> i64 {
    match id % N_AGG {
        0 => a.wrapping_add(b),
        1 => a.max(b),
        _ => a.wrapping_add(b),
    }
}

pub fn imp_symmetric(id: usize) -> bool {
    id % N_IMP != 1
}
pub fn imp_real<F: Float + FloatConst>(id: usize, x: F) -> F {
    match id % N_IMP {
        0 => (-(x * x) / c(6.0)).exp(),
        1 => (c::<F>(1.0) + c::<F>(0.4) * x) * (-(x - c(0.3)) * (x - c(0.3)) / c(7.0)).exp(),
        2 => raised_cosine(x),
        3 => sinc(x),
        _ => table(x),
    }
}
pub fn imp_complex<F: Float + FloatConst>(id: usize, x: F) -> Complex<F> {
    match id % 2 {
        0 => Complex::new((-(x * x) / c(6.0)).exp(), c::<F>(0.25) * (-(x * x) / c(9.0)).exp()),
        _ => Complex::new(
            (c::<F>(1.0) + c::<F>(0.4) * x) * (-(x * x) / c(7.0)).exp(),
            c::<F>(0.5) * x * (-(x - c(0.5)) * (x - c(0.5)) / c(5.0)).exp(),
        ),
    }
}
pub fn freq_symmetric(id: usize) -> bool {
    id % N_FREQ != 1
}
pub fn freq_real<F: Float + FloatConst>(id: usize, x: F) -> F {
    match id % N_FREQ {
        0 => c::<F>(1.0) / (c::<F>(1.0) + c::<F>(2.0) * x * x),
        1 => (c::<F>(1.0) + c::<F>(0.5) * x) / (c::<F>(1.0) + x * x),
        2 => rc_freq(x),
        3 => {
            if x.abs() <= c(1.0) {
                c(1.0)
            } else {
                c(0.0)
            }
        }
        _ => table(x),
    }
}
pub fn freq_complex<F: Float + FloatConst>(id: usize, x: F) -> Complex<F> {
    match id % 2 {
        0 => Complex::new(c::<F>(1.0) / (c::<F>(1.0) + c::<F>(2.0) * x * x), c::<F>(0.3) / (c::<F>(1.0) + x * x)),
        _ => Complex::new((c::<F>(1.0) + c::<F>(0.5) * x) / (c::<F>(1.0) + x * x), c::<F>(0.7) * x / (c::<F>(1.0) + x * x)),
    }
}

/// samples and step of the lookup table which function id 4 is handed over as
pub const TABLE: [f64; 9] = [0.0, 0.25, 0.5, 0.75, 1.0, 0.75, 0.5, 0.25, 0.0];
pub const TABLE_DELTA: f64 = 0.5;
/// linear interpolation between the table's bins: here a triangle of width 2
fn table<F: Float>(x: F) -> F {
    let v = c::<F>(1.0) - x.abs() / c(2.0);
    if v > c(0.0) {
        v
    } else {
        c(0.0)
    }
}

fn sinc<F: Float + FloatConst>(x: F) -> F {
    if x == c(0.0) {
        return c(1.0);
    }
    let p = F::PI() * x;
    p.sin() / p
}
fn raised_cosine<F: Float + FloatConst>(x: F) -> F {
    if x == c(0.0) {
        return c(1.0);
    }
    let r: F = c(ROLLOFF);
    let p = F::PI() * x;
    let a = (c::<F>(2.0) * r * x).abs();
    let d = c::<F>(1.0) - a;
    let q = if d == c(0.0) { F::PI() / c(2.0) } else { (F::PI() / c(2.0) * d).sin() / d };
    p.sin() / p * q / (c::<F>(1.0) + a)
}
fn rc_freq<F: Float + FloatConst>(x: F) -> F {
    let r: F = c(ROLLOFF);
    let one: F = c(1.0);
    let x = x.abs();
    if x <= one - r {
        one
    } else if x <= one + r {
        let a = F::PI() / r * (x - (one - r)) / c(2.0);
        c::<F>(0.5) * (one + a.cos())
    } else {
        c(0.0)
    }
}

pub fn win_symmetric(id: usize) -> bool {
    id % N_WIN != 1
}
pub fn window<F: Float + FloatConst>(id: usize, n: usize, len: usize) -> F {
    let one: F = c(1.0);
    let two: F = c(2.0);
    let n_: F = c(n as f64);
    let l: F = c(len as f64);
    match id % N_WIN {
        0 => {
            // symmetric by construction
            let d = if n < len { n.min(len - 1 - n) } else { 0 };
            one + c::<F>(d as f64) / l
        }
        1 => c::<F>(0.5) + n_ / l,
        2 => one - ((n_ - (l - one) / two) / (l / two)).abs(),
        3 => c::<F>(0.54) - c::<F>(1.0 - 0.54) * (two * F::PI() * n_ / (l - one)).cos(),
        4 => {
            let a = two * F::PI() * n_ / (l - one);
            c::<F>(0.35875) - c::<F>(0.48829) * a.cos() + c::<F>(0.14128) * (two * a).cos() - c::<F>(0.01168) * (c::<F>(3.0) * a).cos()
        }
        _ => one,
    }
}
