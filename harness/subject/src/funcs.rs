//! The user functions handed over to the library: each call is recorded and may be told to fail.
use crate::num::Num;
use basic_dsp_vector::conv_types::*;
use basic_dsp_vector::window_functions::*;
use basic_dsp_vector::*;
use num_complex::Complex;
use refmodel::func;
use simrt::calls;
use simrt::rng::combine;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};

pub const INJECTED: &str = "injected panic of a user function";

/// One in how many calls of a user function uses the library itself, 0: none. It has to be set
/// while nothing runs.
pub static NEST: AtomicU32 = AtomicU32::new(0);
pub static NESTED: AtomicU64 = AtomicU64::new(0);
pub const MAX_NESTED: u64 = 200;
pub const NESTED_DIFFERS: &str = "an operation within a user function returned another result";

#[inline]
fn note(kind: u8, id: usize, a: u64, b: u64, c: u64) {
    if calls::record(kind, id as u8, a, b, c) {
        panic!("{}", INJECTED);
    }
    let every = NEST.load(Ordering::Relaxed) as u64;
    if every > 0 {
        let h = combine(combine(kind as u64, a), b);
        if h % every == 0 && NESTED.load(Ordering::Relaxed) < MAX_NESTED {
            nested(h);
        }
    }
}

/// A user function may use the library for vectors of its own
fn nested(h: u64) {
    NESTED.fetch_add(1, Ordering::Relaxed);
    let n = 4 + (h >> 8) % 8;
    let run = |set: MultiCoreSettings| {
        let d: Vec<f64> = (0..n).map(|i| 0.25 + i as f64 / 8.0).collect();
        let mut v = d.to_real_time_vec();
        v.set_multicore_settings(set);
        match (h >> 16) % 4 {
            0 => v.sin(),
            1 => v.ln(),
            2 => v.powf(3.0),
            _ => v.apply_window(&HammingWindow::default()),
        }
        v
    };
    let many = run(MultiCoreSettings::with_thresholds(2 + ((h >> 24) % 3) as usize, 0, 1, 0, 1));
    let one = run(MultiCoreSettings::single_threaded());
    if many[..].iter().map(|x| x.to_bits()).ne(one[..].iter().map(|x| x.to_bits())) {
        panic!("{}", NESTED_DIFFERS);
    }
}

pub fn map_real<T: Num>(id: usize, v: T, i: usize, arg: T) -> T {
    note(calls::MAP, id, i as u64, v.bits(), arg.bits());
    func::map_real(id, v, i, arg)
}
pub fn map_complex<T: Num>(id: usize, v: Complex<T>, i: usize, arg: T) -> Complex<T> {
    note(calls::MAP, id, i as u64, v.re.bits(), v.im.bits());
    func::map_complex(id, v, i, arg)
}
pub fn agg_map<T: Num>(id: usize, v: Complex<T>, i: usize, arg: i64) -> i64 {
    note(calls::AGGMAP, id, i as u64, v.re.bits(), v.im.bits());
    let z = Complex::new(v.re.d(), v.im.d());
    func::agg_map(id, refmodel::sample_bits(z), i, arg)
}
pub fn agg(id: usize, a: i64, b: i64) -> i64 {
    note(calls::AGG, id, a as u64, b as u64, 0);
    func::agg(id, a, b)
}

pub struct Win<T: Num> {
    pub id: usize,
    inner: Option<Box<dyn WindowFunction<T>>>,
}
impl<T: Num> Win<T> {
    pub fn new(id: usize) -> Win<T> {
        let inner: Option<Box<dyn WindowFunction<T>>> = match id % func::N_WIN {
            2 => Some(Box::new(TriangularWindow)),
            3 => Some(Box::new(HammingWindow::<T>::default())),
            4 => Some(Box::new(BlackmanHarrisWindow)),
            5 => Some(Box::new(RectangularWindow)),
            _ => None,
        };
        Win { id, inner }
    }
}
// the wrapped functions are stateless
unsafe impl<T: Num> Sync for Win<T> {}
unsafe impl<T: Num> Send for Win<T> {}
impl<T: Num> WindowFunction<T> for Win<T> {
    fn is_symmetric(&self) -> bool {
        match self.inner {
            Some(ref i) => i.is_symmetric(),
            None => func::win_symmetric(self.id),
        }
    }
    fn window(&self, n: usize, length: usize) -> T {
        note(calls::WIN, self.id, n as u64, length as u64, 0);
        match self.inner {
            Some(ref i) => i.window(n, length),
            None => func::window::<T>(self.id, n, length),
        }
    }
}

pub struct Imp<T: Num> {
    pub id: usize,
    inner: Option<Box<dyn RealImpulseResponse<T>>>,
}
impl<T: Num> Imp<T> {
    pub fn new(id: usize) -> Imp<T> {
        let inner: Option<Box<dyn RealImpulseResponse<T>>> = match id % func::N_IMP {
            2 => Some(Box::new(RaisedCosineFunction::new(T::f(func::ROLLOFF)))),
            3 => Some(Box::new(SincFunction::<T>::new())),
            4 => Some(T::table_time()),
            _ => None,
        };
        Imp { id, inner }
    }
}
unsafe impl<T: Num> Sync for Imp<T> {}
impl<T: Num> RealImpulseResponse<T> for Imp<T> {
    fn is_symmetric(&self) -> bool {
        match self.inner {
            Some(ref i) => i.is_symmetric(),
            None => func::imp_symmetric(self.id),
        }
    }
    fn calc(&self, x: T) -> T {
        note(calls::IMP, self.id, x.d().to_bits(), 0, 0);
        match self.inner {
            Some(ref i) => i.calc(x),
            None => func::imp_real::<T>(self.id, x),
        }
    }
}

pub struct ImpC<T: Num> {
    pub id: usize,
    pub p: std::marker::PhantomData<T>,
}
impl<T: Num> ImpC<T> {
    pub fn new(id: usize) -> ImpC<T> {
        ImpC { id, p: std::marker::PhantomData }
    }
}
impl<T: Num> ComplexImpulseResponse<T> for ImpC<T> {
    fn is_symmetric(&self) -> bool {
        self.id % 2 == 0
    }
    fn calc(&self, x: T) -> Complex<T> {
        note(calls::IMPC, self.id, x.d().to_bits(), 0, 0);
        func::imp_complex::<T>(self.id, x)
    }
}

pub struct Frq<T: Num> {
    pub id: usize,
    inner: Option<Box<dyn RealFrequencyResponse<T>>>,
}
impl<T: Num> Frq<T> {
    pub fn new(id: usize) -> Frq<T> {
        let inner: Option<Box<dyn RealFrequencyResponse<T>>> = match id % func::N_FREQ {
            2 => Some(Box::new(RaisedCosineFunction::new(T::f(func::ROLLOFF)))),
            3 => Some(Box::new(SincFunction::<T>::new())),
            4 => Some(T::table_freq()),
            _ => None,
        };
        Frq { id, inner }
    }
}
unsafe impl<T: Num> Sync for Frq<T> {}
impl<T: Num> RealFrequencyResponse<T> for Frq<T> {
    fn is_symmetric(&self) -> bool {
        match self.inner {
            Some(ref i) => i.is_symmetric(),
            None => func::freq_symmetric(self.id),
        }
    }
    fn calc(&self, x: T) -> T {
        note(calls::FRQ, self.id, x.d().to_bits(), 0, 0);
        match self.inner {
            Some(ref i) => i.calc(x),
            None => func::freq_real::<T>(self.id, x),
        }
    }
}

pub struct FrqC<T: Num> {
    pub id: usize,
    pub p: std::marker::PhantomData<T>,
}
impl<T: Num> FrqC<T> {
    pub fn new(id: usize) -> FrqC<T> {
        FrqC { id, p: std::marker::PhantomData }
    }
}
impl<T: Num> ComplexFrequencyResponse<T> for FrqC<T> {
    fn is_symmetric(&self) -> bool {
        self.id % 2 == 0
    }
    fn calc(&self, x: T) -> Complex<T> {
        note(calls::FRQC, self.id, x.d().to_bits(), 0, 0);
        func::freq_complex::<T>(self.id, x)
    }
}
