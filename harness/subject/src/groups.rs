//! The operations, grouped by the library trait they come from, generic over what implements it
//! (generic vectors, typed vectors, matrices).
use crate::funcs::*;
use crate::num::Num;
use basic_dsp_vector::conv_types::*;
use basic_dsp_vector::*;
use num_complex::Complex;
use refmodel::ops::{Op, K, K::*};

pub type R = Result<(), i32>;

pub fn code(e: ErrorReason) -> i32 {
    match e {
        ErrorReason::InputMustHaveTheSameSize => 1,
        ErrorReason::InputMetaDataMustAgree => 2,
        ErrorReason::InputMustBeComplex => 3,
        ErrorReason::InputMustBeReal => 4,
        ErrorReason::InputMustBeInTimeDomain => 5,
        ErrorReason::InputMustBeInFrequencyDomain => 6,
        ErrorReason::InvalidArgumentLength => 7,
        ErrorReason::InputMustBeConjSymmetric => 8,
        ErrorReason::InputMustHaveAnOddLength => 9,
        ErrorReason::ArgumentFunctionMustBeSymmetric => 10,
        ErrorReason::InvalidNumberOfArgumentsForCombinedOp => 11,
        ErrorReason::InputMustNotBeEmpty => 12,
        ErrorReason::InputMustHaveAnEvenLength => 13,
        ErrorReason::TypeCanNotResize => 14,
    }
}
pub fn res(r: VoidResult) -> R {
    r.map_err(code)
}
pub fn pad_option(m: usize) -> PaddingOption {
    match m {
        0 => PaddingOption::End,
        1 => PaddingOption::Surround,
        _ => PaddingOption::Center,
    }
}

pub fn inplace<T, V>(v: &mut V, op: &Op) -> Option<R>
where
    T: Num,
    V: TrigOps + PowerOps<T> + ScaleOps<T> + OffsetOps<T> + ReorganizeDataOps<T> + DiffSumOps,
{
    let a = T::f(op.a);
    match op.k {
        Sin => v.sin(),
        Cos => v.cos(),
        Tan => v.tan(),
        Asin => v.asin(),
        Acos => v.acos(),
        Atan => v.atan(),
        Sinh => v.sinh(),
        Cosh => v.cosh(),
        Tanh => v.tanh(),
        Asinh => v.asinh(),
        Acosh => v.acosh(),
        Atanh => v.atanh(),
        Sqrt => v.sqrt(),
        Square => v.square(),
        Root => v.root(a),
        Powf => v.powf(a),
        Ln => v.ln(),
        Exp => v.exp(),
        Log => v.log(a),
        Expf => v.expf(a),
        Scale => v.scale(a),
        Offset => v.offset(a),
        Reverse => v.reverse(),
        SwapHalves => v.swap_halves(),
        Diff => v.diff(),
        DiffWithStart => v.diff_with_start(),
        CumSum => v.cum_sum(),
        _ => return None,
    }
    Some(Ok(()))
}

pub fn zeros<T, V>(v: &mut V, op: &Op) -> Option<R>
where
    T: Num,
    V: InsertZerosOps<T>,
{
    match op.k {
        ZeroPad => Some(res(v.zero_pad(op.n, pad_option(op.m)))),
        ZeroInterleave => Some(res(v.zero_interleave(op.n as u32))),
        _ => None,
    }
}

pub fn inplace_real<T, V>(v: &mut V, op: &Op) -> Option<R>
where
    T: Num,
    V: RealOps + ModuloOps<T> + ApproximatedOps<T> + MapInplaceOps<T>,
{
    let a = T::f(op.a);
    match op.k {
        Abs => v.abs(),
        Wrap => v.wrap(a),
        Unwrap => v.unwrap(a),
        LnApprox => v.ln_approx(),
        ExpApprox => v.exp_approx(),
        SinApprox => v.sin_approx(),
        CosApprox => v.cos_approx(),
        LogApprox => v.log_approx(a),
        ExpfApprox => v.expf_approx(a),
        PowfApprox => v.powf_approx(a),
        MapReal => {
            let f = op.f;
            v.map_inplace(a, &move |x, i, arg| map_real(f, x, i, arg))
        }
        _ => return None,
    }
    Some(Ok(()))
}

pub fn inplace_complex<T, V>(v: &mut V, op: &Op) -> Option<R>
where
    T: Num,
    V: ComplexOps<T> + ScaleOps<Complex<T>> + OffsetOps<Complex<T>> + MapInplaceOps<Complex<T>>,
{
    let a = T::f(op.a);
    let b = T::f(op.b);
    match op.k {
        Conj => v.conj(),
        MulCExp => v.multiply_complex_exponential(a, b),
        ScaleC => ScaleOps::<Complex<T>>::scale(v, Complex::new(a, b)),
        OffsetC => OffsetOps::<Complex<T>>::offset(v, Complex::new(a, b)),
        MapComplex => {
            let f = op.f;
            v.map_inplace(a, &move |x, i, arg| map_complex(f, x, i, arg))
        }
        _ => return None,
    }
    Some(Ok(()))
}

pub fn inplace_buffered<S, T, V, B>(v: &mut V, b: &mut B, op: &Op) -> Option<R>
where
    T: Num,
    S: ToSliceMut<T>,
    V: InsertZerosOpsBuffered<S, T>,
    B: for<'a> Buffer<'a, S, T>,
{
    match op.k {
        ZeroPadB => return Some(res(v.zero_pad_b(b, op.n, pad_option(op.m)))),
        ZeroInterleaveB => v.zero_interleave_b(b, op.n as u32),
        _ => return None,
    }
    Some(Ok(()))
}

pub fn binary<T, O, V, N, D>(v: &mut V, o: &O, op: &Op) -> Option<R>
where
    T: Num,
    N: NumberSpace,
    D: Domain,
    O: GetMetaData<T, N, D>,
    V: ElementaryOps<O, T, N, D> + ElementaryWrapAroundOps<O, T, N, D>,
{
    Some(res(match op.k {
        Add => v.add(o),
        Sub => v.sub(o),
        Mul => v.mul(o),
        Div => v.div(o),
        AddSmaller => v.add_smaller(o),
        SubSmaller => v.sub_smaller(o),
        MulSmaller => v.mul_smaller(o),
        DivSmaller => v.div_smaller(o),
        _ => return None,
    }))
}

pub fn windows<S, T, V>(v: &mut V, op: &Op) -> Option<R>
where
    T: Num,
    S: ToSliceMut<T>,
    V: TimeDomainOperations<S, T>,
{
    let w = Win::<T>::new(op.f);
    match op.k {
        ApplyWindow => v.apply_window(&w),
        UnapplyWindow => v.unapply_window(&w),
        _ => return None,
    }
    Some(Ok(()))
}

pub fn freq<S, T, V, B>(v: &mut V, b: &mut B, op: &Op) -> Option<R>
where
    T: Num,
    S: ToSliceMut<T>,
    V: FrequencyDomainOperations<S, T>,
    B: for<'a> Buffer<'a, S, T>,
{
    match op.k {
        Mirror => v.mirror(b),
        FftShift => v.fft_shift(),
        IfftShift => v.ifft_shift(),
        _ => return None,
    }
    Some(Ok(()))
}

pub fn freq_mul_real<S, T, V>(v: &mut V, op: &Op) -> Option<R>
where
    T: Num,
    S: ToSliceMut<T>,
    V: for<'c> FrequencyMultiplication<'c, S, T, &'c dyn RealFrequencyResponse<T>>,
{
    if op.k != MulFreqReal {
        return None;
    }
    let f = Frq::<T>::new(op.f);
    v.multiply_frequency_response(&f as &dyn RealFrequencyResponse<T>, T::f(op.a));
    Some(Ok(()))
}
pub fn freq_mul_complex<S, T, V>(v: &mut V, op: &Op) -> Option<R>
where
    T: Num,
    S: ToSliceMut<T>,
    V: for<'c> FrequencyMultiplication<'c, S, T, &'c dyn ComplexFrequencyResponse<T>>,
{
    if op.k != MulFreqComplex {
        return None;
    }
    let f = FrqC::<T>::new(op.f);
    v.multiply_frequency_response(&f as &dyn ComplexFrequencyResponse<T>, T::f(op.a));
    Some(Ok(()))
}

pub fn conv_real<S, T, V, B>(v: &mut V, b: &mut B, op: &Op) -> Option<R>
where
    T: Num,
    S: ToSliceMut<T>,
    V: for<'c> Convolution<'c, S, T, &'c dyn RealImpulseResponse<T>>,
    B: for<'a> Buffer<'a, S, T>,
{
    if op.k != ConvolveReal {
        return None;
    }
    let f = Imp::<T>::new(op.f);
    v.convolve(b, &f as &dyn RealImpulseResponse<T>, T::f(op.a), op.n);
    Some(Ok(()))
}
pub fn conv_complex<S, T, V, B>(v: &mut V, b: &mut B, op: &Op) -> Option<R>
where
    T: Num,
    S: ToSliceMut<T>,
    V: for<'c> Convolution<'c, S, T, &'c dyn ComplexImpulseResponse<T>>,
    B: for<'a> Buffer<'a, S, T>,
{
    if op.k != ConvolveComplex {
        return None;
    }
    let f = ImpC::<T>::new(op.f);
    v.convolve(b, &f as &dyn ComplexImpulseResponse<T>, T::f(op.a), op.n);
    Some(Ok(()))
}

pub fn interpolation<S, T, V, B>(v: &mut V, b: &mut B, op: &Op) -> Option<R>
where
    T: Num,
    S: ToSliceMut<T>,
    V: InterpolationOps<S, T>,
    B: for<'a> Buffer<'a, S, T>,
{
    match op.k {
        Interpolatef => {
            let f = Imp::<T>::new(op.f);
            v.interpolatef(b, &f, T::f(op.a), T::f(op.b), op.n);
        }
        Interpolatei => {
            let f = Frq::<T>::new(op.f);
            return Some(res(v.interpolatei(b, &f, op.n as u32)));
        }
        Interpolate => {
            return Some(res(if op.f == usize::MAX {
                v.interpolate(b, None, op.n, T::f(op.b))
            } else {
                let f = Frq::<T>::new(op.f);
                v.interpolate(b, Some(&f as &dyn RealFrequencyResponse<T>), op.n, T::f(op.b))
            }));
        }
        Interpft => v.interpft(b, op.n),
        Decimatei => v.decimatei(op.n as u32, op.m as u32),
        _ => return None,
    }
    Some(Ok(()))
}

pub fn real_interpolation<S, T, V, B>(v: &mut V, b: &mut B, op: &Op) -> Option<R>
where
    T: Num,
    S: ToSliceMut<T>,
    V: RealInterpolationOps<S, T>,
    B: for<'a> Buffer<'a, S, T>,
{
    match op.k {
        InterpolateLin => v.interpolate_lin(b, T::f(op.a), T::f(op.b)),
        InterpolateHermite => v.interpolate_hermite(b, T::f(op.a), T::f(op.b)),
        _ => return None,
    }
    Some(Ok(()))
}

pub fn push_real<T: Num>(r: &mut Vec<f64>, s: &Statistics<T>) {
    r.push(s.sum.d());
    r.push(s.count as f64);
    r.push(s.average.d());
    r.push(s.rms.d());
    r.push(s.min.d());
    r.push(s.min_index as f64);
    r.push(s.max.d());
    r.push(s.max_index as f64);
}
pub fn push_complex<T: Num>(r: &mut Vec<f64>, s: &Statistics<Complex<T>>) {
    for z in [s.sum] {
        r.push(z.re.d());
        r.push(z.im.d());
    }
    r.push(s.count as f64);
    for z in [s.average, s.rms, s.min] {
        r.push(z.re.d());
        r.push(z.im.d());
    }
    r.push(s.min_index as f64);
    r.push(s.max.re.d());
    r.push(s.max.im.d());
    r.push(s.max_index as f64);
}

pub fn is_target_output(k: K) -> bool {
    matches!(k, GetReal | GetImag | GetMagnitude | GetMagnitudeSq | GetPhase | GetRealImag | GetMagPhase | SplitInto)
}

pub type Rets = Result<Vec<f64>, i32>;

fn scalar(v: ScalarResult<Vec<f64>>) -> Rets {
    v.map_err(code)
}

/// results computed from the samples without changing them, for vectors which can be real
pub fn read_real<S, T, N, D>(v: &DspVec<S, T, N, D>, o: Option<&DspVec<S, T, N, D>>, op: &Op) -> Option<Rets>
where
    T: Num,
    S: ToSliceMut<T>,
    N: RealNumberSpace + PosEq<N>,
    D: Domain + PosEq<D>,
{
    let mut r: Vec<f64> = Vec::with_capacity(16 * 8);
    match op.k {
        Stats => {
            let s: Statistics<T> = StatisticsOps::<T>::statistics(v);
            push_real(&mut r, &s);
        }
        StatsSplit => match StatisticsSplitOps::<T>::statistics_split(v, op.n) {
            Ok(s) => {
                for x in s.iter() {
                    push_real(&mut r, x);
                }
            }
            Err(e) => return Some(Err(code(e))),
        },
        Sum => r.push(SumOps::<T>::sum(v).d()),
        SumSq => r.push(SumOps::<T>::sum_sq(v).d()),
        Dot => match DotProductOps::<_, T, T, N, D>::dot_product(v, o?) {
            Ok(s) => r.push(s.d()),
            Err(e) => return Some(Err(code(e))),
        },
        MapAggReal => {
            let f = op.f;
            let s = MapAggregateOps::<T, i64>::map_aggregate(
                v,
                op.a as i64,
                &move |x, i, arg| agg_map(f, Complex::new(x, T::zero()), i, arg),
                &move |a, b| agg(f, a, b),
            );
            match s {
                Ok(x) => r.push(x as f64),
                Err(e) => return Some(Err(code(e))),
            }
        }
        _ => return T::prec_real(v, o, op),
    }
    Some(Ok(r))
}

pub fn read_complex<S, T, N, D>(v: &DspVec<S, T, N, D>, o: Option<&DspVec<S, T, N, D>>, op: &Op) -> Option<Rets>
where
    T: Num,
    S: ToSliceMut<T>,
    N: ComplexNumberSpace + PosEq<N>,
    D: Domain + PosEq<D>,
{
    let mut r: Vec<f64> = Vec::with_capacity(16 * 13);
    match op.k {
        Stats => {
            let s: Statistics<Complex<T>> = StatisticsOps::<Complex<T>>::statistics(v);
            push_complex(&mut r, &s);
        }
        StatsSplit => match StatisticsSplitOps::<Complex<T>>::statistics_split(v, op.n) {
            Ok(s) => {
                for x in s.iter() {
                    push_complex(&mut r, x);
                }
            }
            Err(e) => return Some(Err(code(e))),
        },
        Sum => {
            let s: Complex<T> = SumOps::<Complex<T>>::sum(v);
            r.push(s.re.d());
            r.push(s.im.d());
        }
        SumSq => {
            let s: Complex<T> = SumOps::<Complex<T>>::sum_sq(v);
            r.push(s.re.d());
            r.push(s.im.d());
        }
        Dot => match DotProductOps::<_, Complex<T>, T, N, D>::dot_product(v, o?) {
            Ok(s) => {
                r.push(s.re.d());
                r.push(s.im.d());
            }
            Err(e) => return Some(Err(code(e))),
        },
        MapAggComplex => {
            let f = op.f;
            let s = MapAggregateOps::<Complex<T>, i64>::map_aggregate(
                v,
                op.a as i64,
                &move |x, i, arg| agg_map(f, x, i, arg),
                &move |a, b| agg(f, a, b),
            );
            match s {
                Ok(x) => r.push(x as f64),
                Err(e) => return Some(Err(code(e))),
            }
        }
        _ => return T::prec_complex(v, o, op),
    }
    Some(Ok(r))
}

macro_rules! prec {
    ($t:ident, $real:ident, $complex:ident) => {
        pub fn $real<S, N, D>(v: &DspVec<S, $t, N, D>, o: Option<&DspVec<S, $t, N, D>>, op: &Op) -> Option<Rets>
        where
            S: ToSliceMut<$t>,
            N: RealNumberSpace + PosEq<N>,
            D: Domain + PosEq<D>,
        {
            let mut r: Vec<f64> = Vec::with_capacity(16 * 8);
            match op.k {
                StatsPrec => {
                    let s: Statistics<f64> = PreciseStatisticsOps::<f64>::statistics_prec(v);
                    push_real(&mut r, &s);
                }
                StatsSplitPrec => match PreciseStatisticsSplitOps::<f64>::statistics_split_prec(v, op.n) {
                    Ok(s) => {
                        for x in s.iter() {
                            push_real(&mut r, x);
                        }
                    }
                    Err(e) => return Some(scalar(Err(e))),
                },
                SumPrec => r.push(PreciseSumOps::<f64>::sum_prec(v)),
                SumSqPrec => r.push(PreciseSumOps::<f64>::sum_sq_prec(v)),
                DotPrec => match PreciseDotProductOps::<_, $t, $t, N, D>::dot_product_prec(v, o?) {
                    Ok(s) => r.push(s as f64),
                    Err(e) => return Some(Err(code(e))),
                },
                _ => return None,
            }
            Some(Ok(r))
        }
        pub fn $complex<S, N, D>(v: &DspVec<S, $t, N, D>, o: Option<&DspVec<S, $t, N, D>>, op: &Op) -> Option<Rets>
        where
            S: ToSliceMut<$t>,
            N: ComplexNumberSpace + PosEq<N>,
            D: Domain + PosEq<D>,
        {
            let mut r: Vec<f64> = Vec::with_capacity(16 * 13);
            match op.k {
                StatsPrec => {
                    let s: Statistics<Complex<f64>> = PreciseStatisticsOps::<Complex<f64>>::statistics_prec(v);
                    push_complex(&mut r, &s);
                }
                StatsSplitPrec => match PreciseStatisticsSplitOps::<Complex<f64>>::statistics_split_prec(v, op.n) {
                    Ok(s) => {
                        for x in s.iter() {
                            push_complex(&mut r, x);
                        }
                    }
                    Err(e) => return Some(Err(code(e))),
                },
                SumPrec => {
                    let s: Complex<f64> = PreciseSumOps::<Complex<f64>>::sum_prec(v);
                    r.push(s.re);
                    r.push(s.im);
                }
                SumSqPrec => {
                    let s: Complex<f64> = PreciseSumOps::<Complex<f64>>::sum_sq_prec(v);
                    r.push(s.re);
                    r.push(s.im);
                }
                DotPrec => match PreciseDotProductOps::<_, Complex<$t>, $t, N, D>::dot_product_prec(v, o?) {
                    Ok(s) => {
                        r.push(s.re as f64);
                        r.push(s.im as f64);
                    }
                    Err(e) => return Some(Err(code(e))),
                },
                _ => return None,
            }
            Some(Ok(r))
        }
    };
}
prec!(f32, prec_real32, prec_complex32);
prec!(f64, prec_real64, prec_complex64);
