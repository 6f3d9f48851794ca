//! The C interface, called the way a C program does: symbols, opaque pointers and plain structs.
//! Nothing here uses the Rust declarations of the facade.
use crate::funcs::*;
use crate::groups::{push_complex, push_real};
use crate::num::Num;
use basic_dsp_vector::conv_types::*;
use basic_dsp_vector::window_functions::*;
use basic_dsp_vector::Statistics;
use num_complex::Complex;
use refmodel::func;
use refmodel::ops::{Op, K, K::*};
use std::os::raw::c_void;
use std::sync::atomic::{AtomicU64, Ordering};

/// A handle
pub type H = *mut c_void;
pub type P = *const c_void;

#[repr(C)]
pub struct VR {
    pub code: i32,
    pub vector: H,
}
#[repr(C)]
pub struct SR<X> {
    pub code: i32,
    pub result: X,
}

/// What a call returned
pub struct COut {
    /// `None`: the function doesn't return one
    pub code: Option<i32>,
    pub rets: Vec<f64>,
}

#[derive(Debug, Clone, PartialEq)]
pub struct Props {
    pub cx: i32,
    pub domain: i32,
    pub len: usize,
    pub points: usize,
    pub alloc: usize,
    pub delta: u64,
}

pub trait Abi: Num {
    /// `how`: which of the constructors. Cores only count for some of them.
    fn new(how: u64, cx: i32, domain: i32, init: Self, len: usize, delta: Self, cores: &[usize; 5]) -> H;
    fn delete(h: H);
    fn clone(h: P) -> H;
    fn props(h: P) -> Props;
    /// `how`: through the pointer to the samples, the one to the complex samples or one by one
    fn samples(h: P, how: u64) -> Vec<Self>;
    fn set(h: H, i: usize, x: Self);
    fn overwrite(h: H, d: &[Self]) -> (H, i32);
    /// One operation. `alt` decides between functions which do the same
    fn call(regs: &mut [H], op: &Op, alt: u64) -> Option<COut>;
}

/// parameters of functions without user data
static MAP_ID: AtomicU64 = AtomicU64::new(0);
static MAP_ARG: AtomicU64 = AtomicU64::new(0);

fn map_args<T: Num>() -> (usize, T) {
    (MAP_ID.load(Ordering::Relaxed) as usize, T::f(f64::from_bits(MAP_ARG.load(Ordering::Relaxed))))
}
extern "C" fn c_map_real<T: Num>(v: T, i: usize) -> T {
    let (id, a) = map_args::<T>();
    map_real(id, v, i, a)
}
extern "C" fn c_map_complex<T: Num>(v: Complex<T>, i: usize) -> Complex<T> {
    let (id, a) = map_args::<T>();
    map_complex(id, v, i, a)
}
extern "C" fn c_agg_real<T: Num>(v: T, i: usize) -> P {
    let (id, a) = map_args::<f64>();
    agg_map(id, Complex::new(v, T::zero()), i, a as i64) as usize as P
}
extern "C" fn c_agg_complex<T: Num>(v: Complex<T>, i: usize) -> P {
    let (id, a) = map_args::<f64>();
    agg_map(id, v, i, a as i64) as usize as P
}
extern "C" fn c_agg(a: P, b: P) -> P {
    let (id, _) = map_args::<f64>();
    agg(id, a as usize as i64, b as usize as i64) as usize as P
}
extern "C" fn c_win<T: Num>(data: P, i: usize, points: usize) -> T {
    unsafe { &*(data as *const Win<T>) }.window(i, points)
}
extern "C" fn c_imp<T: Num>(data: P, x: T) -> T {
    RealImpulseResponse::calc(unsafe { &*(data as *const Imp<T>) }, x)
}
extern "C" fn c_frq<T: Num>(data: P, x: T) -> T {
    RealFrequencyResponse::calc(unsafe { &*(data as *const Frq<T>) }, x)
}
extern "C" fn c_impc<T: Num>(data: P, x: T) -> Complex<T> {
    ComplexImpulseResponse::calc(unsafe { &*(data as *const ImpC<T>) }, x)
}
extern "C" fn c_frqc<T: Num>(data: P, x: T) -> Complex<T> {
    ComplexFrequencyResponse::calc(unsafe { &*(data as *const FrqC<T>) }, x)
}

/// operations which exist in the C interface
pub fn in_c(k: K) -> bool {
    !matches!(
        k,
        SetDelta | ResizeB | ZeroPad | ZeroInterleave | ToComplex | Magnitude | MagnitudeSq | ToReal | ToImag | Phase
    )
}

macro_rules! ext {
    ($s:literal; $($n:ident($($a:ty),*) $(-> $r:ty)?;)*) => {
        extern "C" { $(
            #[link_name = concat!(stringify!($n), $s)]
            pub fn $n($(_: $a),*) $(-> $r)?;
        )* }
    };
}

macro_rules! abi {
    ($m:ident, $t:ty, $s:literal) => {
        mod $m {
            use super::*;
            type T = $t;
            type C = Complex<T>;
            type D = f64;
            type Z = Complex<f64>;
            type Fw = extern "C" fn(P, usize, usize) -> T;
            type Fr = extern "C" fn(P, T) -> T;
            type Fc = extern "C" fn(P, T) -> C;
            ext! { $s;
                delete_vector(H);
                new(i32, i32, T, usize, T) -> H;
                new_with_performance_options(i32, i32, T, usize, T, usize) -> H;
                new_with_detailed_performance_options(i32, i32, T, usize, T, usize, usize, usize, usize, usize) -> H;
                get_value(P, usize) -> T;
                set_value(H, usize, T);
                is_complex(P) -> i32;
                get_domain(P) -> i32;
                get_len(P) -> usize;
                set_len(H, usize);
                get_points(P) -> usize;
                get_delta(P) -> T;
                data(P) -> *const T;
                complex_data(P) -> *const C;
                get_allocated_len(P) -> usize;
                overwrite_data(H, *const T, usize) -> VR;
                clone(P) -> H;

                add(H, P) -> VR; sub(H, P) -> VR; div(H, P) -> VR; mul(H, P) -> VR;
                add_vector(H, P) -> VR; sub_vector(H, P) -> VR; div_vector(H, P) -> VR; mul_vector(H, P) -> VR;
                add_smaller_vector(H, P) -> VR; sub_smaller_vector(H, P) -> VR;
                div_smaller_vector(H, P) -> VR; mul_smaller_vector(H, P) -> VR;
                correlate(H, P) -> VR; convolve_signal(H, P) -> VR;

                real_dot_product(P, P) -> SR<T>; complex_dot_product(P, P) -> SR<C>;
                real_dot_product_prec(P, P) -> SR<T>; complex_dot_product_prec(P, P) -> SR<C>;
                real_statistics(P) -> Statistics<T>; complex_statistics(P) -> Statistics<C>;
                real_statistics_prec(P) -> Statistics<D>; complex_statistics_prec(P) -> Statistics<Z>;
                real_sum(P) -> T; complex_sum(P) -> C; real_sum_sq(P) -> T; complex_sum_sq(P) -> C;
                real_sum_prec(P) -> D; complex_sum_prec(P) -> Z; real_sum_sq_prec(P) -> D; complex_sum_sq_prec(P) -> Z;
                real_statistics_split(P, *mut Statistics<T>, usize) -> i32;
                complex_statistics_split(P, *mut Statistics<C>, usize) -> i32;
                real_statistics_split_prec(P, *mut Statistics<D>, usize) -> i32;
                complex_statistics_split_prec(P, *mut Statistics<Z>, usize) -> i32;
                map_aggregate_real(P, extern "C" fn(T, usize) -> P, extern "C" fn(P, P) -> P) -> SR<P>;
                map_aggregate_complex(P, extern "C" fn(C, usize) -> P, extern "C" fn(P, P) -> P) -> SR<P>;

                zero_pad(H, usize, i32) -> VR; zero_interleave(H, i32) -> VR;
                diff(H) -> VR; diff_with_start(H) -> VR; cum_sum(H) -> VR;
                real_offset(H, T) -> VR; real_scale(H, T) -> VR;
                complex_offset(H, T, T) -> VR; complex_scale(H, T, T) -> VR; complex_divide(H, T, T) -> VR;
                abs(H) -> VR; sqrt(H) -> VR; square(H) -> VR; root(H, T) -> VR; powf(H, T) -> VR; ln(H) -> VR; exp(H) -> VR;
                log(H, T) -> VR; expf(H, T) -> VR; to_complex(H) -> VR;
                sin(H) -> VR; cos(H) -> VR; tan(H) -> VR; asin(H) -> VR; acos(H) -> VR; atan(H) -> VR;
                sinh(H) -> VR; cosh(H) -> VR; tanh(H) -> VR; asinh(H) -> VR; acosh(H) -> VR; atanh(H) -> VR;
                ln_approx(H) -> VR; exp_approx(H) -> VR; sin_approx(H) -> VR; cos_approx(H) -> VR;
                log_approx(H, T) -> VR; expf_approx(H, T) -> VR; powf_approx(H, T) -> VR;
                wrap(H, T) -> VR; unwrap(H, T) -> VR; swap_halves(H) -> VR; reverse(H) -> VR;
                magnitude(H) -> VR; magnitude_squared(H) -> VR; conj(H) -> VR; to_real(H) -> VR; to_imag(H) -> VR; phase(H) -> VR;
                get_magnitude(P, H) -> i32; get_magnitude_squared(P, H) -> i32; get_real(P, H) -> i32; get_imag(P, H) -> i32;
                get_phase(P, H) -> i32; get_real_imag(P, H, H) -> i32; get_mag_phase(P, H, H) -> i32;
                set_real_imag(H, P, P) -> VR; set_mag_phase(H, P, P) -> VR;
                map_inplace_real(H, extern "C" fn(T, usize) -> T) -> VR;
                map_inplace_complex(H, extern "C" fn(C, usize) -> C) -> VR;
                multiply_complex_exponential(H, T, T) -> VR;
                split_into(P, *mut H, usize) -> i32;
                merge(H, *const H, usize) -> VR;

                plain_fft(H) -> VR; plain_sfft(H) -> VR; plain_ifft(H) -> VR; plain_sifft(H) -> VR;
                fft(H) -> VR; sfft(H) -> VR; ifft(H) -> VR; sifft(H) -> VR;
                mirror(H) -> VR; fft_shift(H) -> VR; ifft_shift(H) -> VR;
                apply_window(H, i32) -> VR; unapply_window(H, i32) -> VR;
                windowed_fft(H, i32) -> VR; windowed_sfft(H, i32) -> VR; windowed_ifft(H, i32) -> VR; windowed_sifft(H, i32) -> VR;
                apply_custom_window(H, Fw, P, bool) -> VR; unapply_custom_window(H, Fw, P, bool) -> VR;
                windowed_custom_fft(H, Fw, P, bool) -> VR; windowed_custom_sfft(H, Fw, P, bool) -> VR;
                windowed_custom_ifft(H, Fw, P, bool) -> VR; windowed_custom_sifft(H, Fw, P, bool) -> VR;
                decimatei(H, u32, u32) -> VR;
                prepare_argument(H) -> VR; prepare_argument_padded(H) -> VR;
                convolve(H, i32, T, T, usize) -> VR;
                convolve_real(H, Fr, P, bool, T, usize) -> VR;
                convolve_complex(H, Fc, P, bool, T, usize) -> VR;
                multiply_frequency_response(H, i32, T, T) -> VR;
                multiply_frequency_response_real(H, Fr, P, bool, T) -> VR;
                multiply_frequency_response_complex(H, Fc, P, bool, T) -> VR;
                interpolatef(H, i32, T, T, T, usize) -> VR;
                interpolatef_custom(H, Fr, P, bool, T, T, usize) -> VR;
                interpolate(H, i32, T, usize, T) -> VR;
                interpolate_custom(H, Fr, P, bool, usize, T) -> VR;
                interpft(H, usize) -> VR;
                interpolatei(H, i32, T, i32) -> VR;
                interpolatei_custom(H, Fr, P, bool, i32) -> VR;
                interpolate_lin(H, T, T) -> VR; interpolate_hermite(H, T, T) -> VR;
            }
        }
        impl Abi for $t {
            fn new(how: u64, cx: i32, domain: i32, init: Self, len: usize, delta: Self, c: &[usize; 5]) -> H {
                unsafe {
                    match how {
                        0 => $m::new(cx, domain, init, len, delta),
                        1 => $m::new_with_performance_options(cx, domain, init, len, delta, c[0]),
                        _ => $m::new_with_detailed_performance_options(cx, domain, init, len, delta, c[0], c[1], c[2], c[3], c[4]),
                    }
                }
            }
            fn delete(h: H) {
                unsafe { $m::delete_vector(h) }
            }
            fn clone(h: P) -> H {
                unsafe { $m::clone(h) }
            }
            fn props(h: P) -> Props {
                unsafe {
                    Props {
                        cx: $m::is_complex(h),
                        domain: $m::get_domain(h),
                        len: $m::get_len(h),
                        points: $m::get_points(h),
                        alloc: $m::get_allocated_len(h),
                        delta: $m::get_delta(h).bits(),
                    }
                }
            }
            fn samples(h: P, how: u64) -> Vec<Self> {
                unsafe {
                    let n = $m::get_len(h);
                    match how {
                        0 => (0..n).map(|i| $m::get_value(h, i)).collect(),
                        1 if n > 0 && n % 2 == 0 => {
                            let p = $m::complex_data(h);
                            (0..n).map(|i| { let z = *p.add(i / 2); if i % 2 == 0 { z.re } else { z.im } }).collect()
                        }
                        _ => {
                            let p = $m::data(h);
                            (0..n).map(|i| *p.add(i)).collect()
                        }
                    }
                }
            }
            fn set(h: H, i: usize, x: Self) {
                unsafe { $m::set_value(h, i, x) }
            }
            fn overwrite(h: H, d: &[Self]) -> (H, i32) {
                let r = unsafe { $m::overwrite_data(h, d.as_ptr(), d.len()) };
                (r.vector, r.code)
            }
            fn call(regs: &mut [H], op: &Op, alt: u64) -> Option<COut> {
                type T = $t;
                let h = regs[op.t];
                let o = |i: usize| regs[op.o[i]];
                let (a, b) = (T::f(op.a), T::f(op.b));
                let rets = |code: Option<i32>, rets: Vec<f64>| Some(COut { code, rets });
                let back = |c: i32| Some(COut { code: Some(c), rets: vec![] });
                let cx = unsafe { $m::is_complex(h) } != 0;
                MAP_ID.store(op.f as u64, Ordering::Relaxed);
                MAP_ARG.store(op.a.to_bits(), Ordering::Relaxed);
                unsafe {
                    // the functions which return the vector
                    let r = match op.k {
                        Add if alt == 0 => $m::add_vector(h, o(0)),
                        Sub if alt == 0 => $m::sub_vector(h, o(0)),
                        Mul if alt == 0 => $m::mul_vector(h, o(0)),
                        Div if alt == 0 => $m::div_vector(h, o(0)),
                        Add => $m::add(h, o(0)),
                        Sub => $m::sub(h, o(0)),
                        Mul => $m::mul(h, o(0)),
                        Div => $m::div(h, o(0)),
                        AddSmaller => $m::add_smaller_vector(h, o(0)),
                        SubSmaller => $m::sub_smaller_vector(h, o(0)),
                        MulSmaller => $m::mul_smaller_vector(h, o(0)),
                        DivSmaller => $m::div_smaller_vector(h, o(0)),
                        Correlate => $m::correlate(h, o(0)),
                        ConvolveSignal => $m::convolve_signal(h, o(0)),
                        ZeroPadB => $m::zero_pad(h, op.n, op.m as i32),
                        ZeroInterleaveB => $m::zero_interleave(h, op.n as i32),
                        Diff => $m::diff(h),
                        DiffWithStart => $m::diff_with_start(h),
                        CumSum => $m::cum_sum(h),
                        Offset => $m::real_offset(h, a),
                        Scale => $m::real_scale(h, a),
                        OffsetC => $m::complex_offset(h, a, b),
                        ScaleC if alt == 0 => $m::complex_divide(h, a, b),
                        ScaleC => $m::complex_scale(h, a, b),
                        Abs => $m::abs(h),
                        Sqrt => $m::sqrt(h),
                        Square => $m::square(h),
                        Root => $m::root(h, a),
                        Powf => $m::powf(h, a),
                        Ln => $m::ln(h),
                        Exp => $m::exp(h),
                        Log => $m::log(h, a),
                        Expf => $m::expf(h, a),
                        ToComplexB => $m::to_complex(h),
                        Sin => $m::sin(h),
                        Cos => $m::cos(h),
                        Tan => $m::tan(h),
                        Asin => $m::asin(h),
                        Acos => $m::acos(h),
                        Atan => $m::atan(h),
                        Sinh => $m::sinh(h),
                        Cosh => $m::cosh(h),
                        Tanh => $m::tanh(h),
                        Asinh => $m::asinh(h),
                        Acosh => $m::acosh(h),
                        Atanh => $m::atanh(h),
                        LnApprox => $m::ln_approx(h),
                        ExpApprox => $m::exp_approx(h),
                        SinApprox => $m::sin_approx(h),
                        CosApprox => $m::cos_approx(h),
                        LogApprox => $m::log_approx(h, a),
                        ExpfApprox => $m::expf_approx(h, a),
                        PowfApprox => $m::powf_approx(h, a),
                        Wrap => $m::wrap(h, a),
                        Unwrap => $m::unwrap(h, a),
                        SwapHalves => $m::swap_halves(h),
                        Reverse => $m::reverse(h),
                        MagnitudeB => $m::magnitude(h),
                        MagnitudeSqB => $m::magnitude_squared(h),
                        Conj => $m::conj(h),
                        ToRealB => $m::to_real(h),
                        ToImagB => $m::to_imag(h),
                        PhaseB => $m::phase(h),
                        SetRealImag => $m::set_real_imag(h, o(0), o(1)),
                        SetMagPhase => $m::set_mag_phase(h, o(0), o(1)),
                        MapReal => $m::map_inplace_real(h, c_map_real::<T>),
                        MapComplex => $m::map_inplace_complex(h, c_map_complex::<T>),
                        MulCExp => $m::multiply_complex_exponential(h, a, b),
                        Merge => {
                            let s: Vec<H> = op.others().iter().map(|x| regs[*x]).collect();
                            $m::merge(h, s.as_ptr(), s.len())
                        }
                        PlainFft => $m::plain_fft(h),
                        PlainSfft => $m::plain_sfft(h),
                        PlainIfft => $m::plain_ifft(h),
                        PlainSifft => $m::plain_sifft(h),
                        Fft => $m::fft(h),
                        Sfft => $m::sfft(h),
                        Ifft => $m::ifft(h),
                        Sifft => $m::sifft(h),
                        Mirror => $m::mirror(h),
                        FftShift => $m::fft_shift(h),
                        IfftShift => $m::ifft_shift(h),
                        ApplyWindow | UnapplyWindow | WindowedFft | WindowedSfft | WindowedIfft | WindowedSifft => {
                            let id = op.f % func::N_WIN;
                            if alt != 0 && (2..6).contains(&id) {
                                let w = if id == 5 && alt > 1 { 4 + alt as i32 } else { id as i32 - 2 };
                                match op.k {
                                    ApplyWindow => $m::apply_window(h, w),
                                    UnapplyWindow => $m::unapply_window(h, w),
                                    WindowedFft => $m::windowed_fft(h, w),
                                    WindowedSfft => $m::windowed_sfft(h, w),
                                    WindowedIfft => $m::windowed_ifft(h, w),
                                    _ => $m::windowed_sifft(h, w),
                                }
                            } else {
                                let w = Win::<T>::new(op.f);
                                let s = w.is_symmetric();
                                let p = &w as *const Win<T> as P;
                                match op.k {
                                    ApplyWindow => $m::apply_custom_window(h, c_win::<T>, p, s),
                                    UnapplyWindow => $m::unapply_custom_window(h, c_win::<T>, p, s),
                                    WindowedFft => $m::windowed_custom_fft(h, c_win::<T>, p, s),
                                    WindowedSfft => $m::windowed_custom_sfft(h, c_win::<T>, p, s),
                                    WindowedIfft => $m::windowed_custom_ifft(h, c_win::<T>, p, s),
                                    _ => $m::windowed_custom_sifft(h, c_win::<T>, p, s),
                                }
                            }
                        }
                        Decimatei => $m::decimatei(h, op.n as u32, op.m as u32),
                        PrepareArgument => $m::prepare_argument(h),
                        PrepareArgumentPadded => $m::prepare_argument_padded(h),
                        ConvolveReal | Interpolatef => {
                            let id = op.f % func::N_IMP;
                            let ro = T::f(func::ROLLOFF);
                            if alt != 0 && (id == 2 || id == 3) {
                                let w = if id == 3 { 0 } else { alt as i32 };
                                if op.k == ConvolveReal {
                                    $m::convolve(h, w, ro, a, op.n)
                                } else {
                                    $m::interpolatef(h, w, ro, a, b, op.n)
                                }
                            } else {
                                let f = Imp::<T>::new(op.f);
                                let s = RealImpulseResponse::is_symmetric(&f);
                                let p = &f as *const Imp<T> as P;
                                if op.k == ConvolveReal {
                                    $m::convolve_real(h, c_imp::<T>, p, s, a, op.n)
                                } else {
                                    $m::interpolatef_custom(h, c_imp::<T>, p, s, a, b, op.n)
                                }
                            }
                        }
                        ConvolveComplex => {
                            let f = ImpC::<T>::new(op.f);
                            $m::convolve_complex(h, c_impc::<T>, &f as *const ImpC<T> as P, ComplexImpulseResponse::is_symmetric(&f), a, op.n)
                        }
                        MulFreqComplex => {
                            let f = FrqC::<T>::new(op.f);
                            let s = ComplexFrequencyResponse::is_symmetric(&f);
                            $m::multiply_frequency_response_complex(h, c_frqc::<T>, &f as *const FrqC<T> as P, s, a)
                        }
                        MulFreqReal | Interpolate | Interpolatei => {
                            let id = op.f % func::N_FREQ;
                            let ro = T::f(func::ROLLOFF);
                            if alt != 0 && (id == 2 || id == 3) {
                                let w = if id == 3 { 0 } else { alt as i32 };
                                match op.k {
                                    MulFreqReal => $m::multiply_frequency_response(h, w, ro, a),
                                    Interpolate => $m::interpolate(h, w, ro, op.n, b),
                                    _ => $m::interpolatei(h, w, ro, op.n as i32),
                                }
                            } else {
                                let f = Frq::<T>::new(op.f);
                                let s = RealFrequencyResponse::is_symmetric(&f);
                                let p = &f as *const Frq<T> as P;
                                match op.k {
                                    MulFreqReal => $m::multiply_frequency_response_real(h, c_frq::<T>, p, s, a),
                                    Interpolate => $m::interpolate_custom(h, c_frq::<T>, p, s, op.n, b),
                                    _ => $m::interpolatei_custom(h, c_frq::<T>, p, s, op.n as i32),
                                }
                            }
                        }
                        Interpft => $m::interpft(h, op.n),
                        InterpolateLin => $m::interpolate_lin(h, a, b),
                        InterpolateHermite => $m::interpolate_hermite(h, a, b),
                        // and all others
                        Resize => {
                            $m::set_len(h, op.n);
                            return rets(None, vec![]);
                        }
                        CloneFrom => {
                            let c = $m::clone(o(0));
                            $m::delete_vector(h);
                            regs[op.t] = c;
                            return rets(None, vec![]);
                        }
                        GetMagnitude => return back($m::get_magnitude(h, o(0))),
                        GetMagnitudeSq => return back($m::get_magnitude_squared(h, o(0))),
                        GetReal => return back($m::get_real(h, o(0))),
                        GetImag => return back($m::get_imag(h, o(0))),
                        GetPhase => return back($m::get_phase(h, o(0))),
                        GetRealImag => return back($m::get_real_imag(h, o(0), o(1))),
                        GetMagPhase => return back($m::get_mag_phase(h, o(0), o(1))),
                        SplitInto => {
                            let mut s: Vec<H> = op.others().iter().map(|x| regs[*x]).collect();
                            return back($m::split_into(h, s.as_mut_ptr(), s.len()));
                        }
                        Dot | DotPrec => {
                            if op.m == 1 {
                                let r = if op.k == Dot { $m::complex_dot_product(h, o(0)) } else { $m::complex_dot_product_prec(h, o(0)) };
                                return rets(Some(r.code), vec![r.result.re.d(), r.result.im.d()]);
                            }
                            let r = if op.k == Dot { $m::real_dot_product(h, o(0)) } else { $m::real_dot_product_prec(h, o(0)) };
                            return rets(Some(r.code), vec![r.result.d()]);
                        }
                        MapAggReal => {
                            let r = $m::map_aggregate_real(h, c_agg_real::<T>, c_agg);
                            return rets(Some(r.code), vec![r.result as usize as i64 as f64]);
                        }
                        MapAggComplex => {
                            let r = $m::map_aggregate_complex(h, c_agg_complex::<T>, c_agg);
                            return rets(Some(r.code), vec![r.result as usize as i64 as f64]);
                        }
                        Stats => {
                            let mut v = vec![];
                            if cx {
                                push_complex(&mut v, &$m::complex_statistics(h));
                            } else {
                                push_real(&mut v, &$m::real_statistics(h));
                            }
                            return rets(None, v);
                        }
                        StatsPrec => {
                            let mut v = vec![];
                            if cx {
                                push_complex(&mut v, &$m::complex_statistics_prec(h));
                            } else {
                                push_real(&mut v, &$m::real_statistics_prec(h));
                            }
                            return rets(None, v);
                        }
                        Sum | SumSq => {
                            let s = op.k == Sum;
                            return rets(None, if cx {
                                let z = if s { $m::complex_sum(h) } else { $m::complex_sum_sq(h) };
                                vec![z.re.d(), z.im.d()]
                            } else {
                                vec![if s { $m::real_sum(h) } else { $m::real_sum_sq(h) }.d()]
                            });
                        }
                        SumPrec | SumSqPrec => {
                            let s = op.k == SumPrec;
                            return rets(None, if cx {
                                let z = if s { $m::complex_sum_prec(h) } else { $m::complex_sum_sq_prec(h) };
                                vec![z.re, z.im]
                            } else {
                                vec![if s { $m::real_sum_prec(h) } else { $m::real_sum_sq_prec(h) }]
                            });
                        }
                        StatsSplit => {
                            let mut v = vec![];
                            let code = if cx {
                                let (c, s) = split_buf(op.n, |p, n| $m::complex_statistics_split(h, p, n), Complex::new(0.25 as T, 0.5));
                                s.iter().for_each(|s| push_complex(&mut v, s));
                                c
                            } else {
                                let (c, s) = split_buf(op.n, |p, n| $m::real_statistics_split(h, p, n), 0.25 as T);
                                s.iter().for_each(|s| push_real(&mut v, s));
                                c
                            };
                            return rets(Some(code), v);
                        }
                        StatsSplitPrec => {
                            let mut v = vec![];
                            let code = if cx {
                                let (c, s) = split_buf(op.n, |p, n| $m::complex_statistics_split_prec(h, p, n), Complex::new(0.25, 0.5));
                                s.iter().for_each(|s| push_complex(&mut v, s));
                                c
                            } else {
                                let (c, s) = split_buf(op.n, |p, n| $m::real_statistics_split_prec(h, p, n), 0.25);
                                s.iter().for_each(|s| push_real(&mut v, s));
                                c
                            };
                            return rets(Some(code), v);
                        }
                        _ => return None,
                    };
                    regs[op.t] = r.vector;
                    back(r.code)
                }
            }
        }
    };
}

/// Memory of the caller for several statistics
fn split_buf<X: Copy>(n: usize, f: impl FnOnce(*mut Statistics<X>, usize) -> i32, x: X) -> (i32, Vec<Statistics<X>>) {
    let s = Statistics { sum: x, count: 77, average: x, rms: x, min: x, min_index: 77, max: x, max_index: 77 };
    let mut v = vec![s; n];
    let c = f(v.as_mut_ptr(), n);
    if c != 0 {
        v.clear();
    }
    (c, v)
}

abi!(c32, f32, "32");
abi!(c64, f64, "64");

extern crate basic_dsp_interop;
