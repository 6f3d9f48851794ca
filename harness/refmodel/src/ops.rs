//! The operation catalogue. An operation is a flat record so that a program is plain data.

macro_rules! kinds {
    ($($k:ident),* $(,)?) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
        pub enum K { $($k),* }
        pub const ALL: &[K] = &[$(K::$k),*];
        pub fn name(k: K) -> &'static str {
            match k { $(K::$k => stringify!($k)),* }
        }
    }
}

kinds! {
    // elementwise functions
    Sin, Cos, Tan, Asin, Acos, Atan, Sinh, Cosh, Tanh, Asinh, Acosh, Atanh,
    Sqrt, Square, Root, Powf, Ln, Exp, Log, Expf,
    Abs, Wrap, Unwrap, LnApprox, ExpApprox, SinApprox, CosApprox, LogApprox, ExpfApprox, PowfApprox,
    Conj, MulCExp,
    Scale, ScaleC, Offset, OffsetC,
    // binary
    Add, Sub, Mul, Div, AddSmaller, SubSmaller, MulSmaller, DivSmaller,
    // reorganisation
    Reverse, SwapHalves, ZeroPad, ZeroPadB, ZeroInterleave, ZeroInterleaveB, SplitInto, Merge,
    Resize, ResizeB, CloneFrom, SetDelta,
    Diff, DiffWithStart, CumSum,
    // aggregation
    Dot, DotPrec, Stats, StatsPrec, StatsSplit, StatsSplitPrec, Sum, SumSq, SumPrec, SumSqPrec,
    MapReal, MapComplex, MapAggReal, MapAggComplex,
    // number space
    ToComplex, ToComplexB, Magnitude, MagnitudeSq, ToReal, ToImag, Phase,
    MagnitudeB, MagnitudeSqB, ToRealB, ToImagB, PhaseB,
    GetReal, GetImag, GetMagnitude, GetMagnitudeSq, GetPhase, GetRealImag, GetMagPhase,
    SetRealImag, SetMagPhase,
    // time/frequency
    PlainFft, Fft, WindowedFft, PlainIfft, Ifft, WindowedIfft,
    PlainSfft, Sfft, WindowedSfft, PlainSifft, Sifft, WindowedSifft,
    Mirror, FftShift, IfftShift, ApplyWindow, UnapplyWindow,
    ConvolveReal, ConvolveComplex, ConvolveSignal, MulFreqReal, MulFreqComplex,
    PrepareArgument, PrepareArgumentPadded, Correlate,
    Interpolatef, Interpolatei, Interpolate, Interpft, Decimatei, InterpolateHermite, InterpolateLin,
}

/// `t`: target register, `o`: other registers (`no` of them)
#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    pub k: K,
    pub t: usize,
    pub o: [usize; 4],
    pub no: usize,
    pub a: f64,
    pub b: f64,
    pub n: usize,
    pub m: usize,
    pub f: usize,
    pub buf: usize,
}

impl Op {
    pub fn new(k: K, t: usize) -> Op {
        Op { k, t, o: [0; 4], no: 0, a: 0.0, b: 0.0, n: 0, m: 0, f: 0, buf: 0 }
    }
    pub fn others(&self) -> &[usize] {
        &self.o[0..self.no]
    }
    pub fn with(mut self, o: usize) -> Op {
        self.o[self.no] = o;
        self.no += 1;
        self
    }
    pub fn show(&self) -> String {
        let o: Vec<String> = self.others().iter().map(|x| format!("r{}", x)).collect();
        format!("r{}.{}({}{}a={:?} b={:?} n={} m={} f={} buf={})", self.t, name(self.k), o.join(","), if o.is_empty() { "" } else { " " }, self.a, self.b, self.n, self.m, self.f, self.buf)
    }
}

use K::*;

pub fn buffered(k: K) -> bool {
    matches!(
        k,
        ZeroPadB | ZeroInterleaveB | ResizeB | ToComplexB | MagnitudeB | MagnitudeSqB | ToRealB | ToImagB | PhaseB
            | PlainFft | Fft | WindowedFft | PlainIfft | Ifft | WindowedIfft | PlainSfft | Sfft | WindowedSfft
            | PlainSifft | Sifft | WindowedSifft | Mirror | ConvolveReal | ConvolveComplex | ConvolveSignal
            | PrepareArgument | PrepareArgumentPadded | Correlate | Interpolatef | Interpolatei | Interpolate
            | Interpft | InterpolateHermite | InterpolateLin
    )
}

/// operations which may spread their work over several threads
pub fn parallel(k: K) -> bool {
    matches!(
        k,
        Sin | Cos | Tan | Asin | Acos | Atan | Sinh | Cosh | Tanh | Asinh | Acosh | Atanh | Root | Powf | Ln | Exp
            | Log | Expf | Dot | DotPrec | Stats | StatsPrec | StatsSplit | StatsSplitPrec | Sum | SumSq | SumPrec
            | SumSqPrec | MapReal | MapComplex | MapAggReal | MapAggComplex | WindowedFft | WindowedIfft
            | WindowedSfft | WindowedSifft | ApplyWindow | UnapplyWindow | ConvolveReal | ConvolveComplex
            | ConvolveSignal | MulFreqReal | MulFreqComplex | Interpolatef | Interpolatei | Interpolate
    )
}

/// operations which call a user supplied function
pub fn user_fn(k: K) -> bool {
    matches!(
        k,
        MapReal | MapComplex | MapAggReal | MapAggComplex | WindowedFft | WindowedIfft | WindowedSfft | WindowedSifft
            | ApplyWindow | UnapplyWindow | ConvolveReal | ConvolveComplex | MulFreqReal | MulFreqComplex
            | Interpolatef | Interpolatei | Interpolate
    )
}

/// operations which only read their operands
pub fn read_only(k: K) -> bool {
    matches!(
        k,
        Dot | DotPrec | Stats | StatsPrec | StatsSplit | StatsSplitPrec | Sum | SumSq | SumPrec | SumSqPrec
            | MapAggReal | MapAggComplex
    )
}

/// operations which consume `self`
pub fn consuming(k: K) -> bool {
    matches!(
        k,
        ToComplex | ToComplexB | Magnitude | MagnitudeSq | ToReal | ToImag | Phase | MagnitudeB | MagnitudeSqB
            | ToRealB | ToImagB | PhaseB | PlainFft | Fft | WindowedFft | PlainIfft | Ifft | WindowedIfft
            | PlainSfft | Sfft | WindowedSfft | PlainSifft | Sifft | WindowedSifft | PrepareArgument
            | PrepareArgumentPadded
    )
}

/// number of further vector operands
pub fn arity(k: K) -> usize {
    match k {
        Add | Sub | Mul | Div | AddSmaller | SubSmaller | MulSmaller | DivSmaller | Dot | DotPrec | CloneFrom
        | GetReal | GetImag | GetMagnitude | GetMagnitudeSq | GetPhase | ConvolveSignal | Correlate => 1,
        GetRealImag | GetMagPhase | SetRealImag | SetMagPhase => 2,
        _ => 0,
    }
}

pub const SAME_SIZE: i32 = 1;
pub const META: i32 = 2;
pub const COMPLEX: i32 = 3;
pub const REAL: i32 = 4;
pub const TIME: i32 = 5;
pub const FREQ: i32 = 6;
pub const ARGLEN: i32 = 7;
pub const CONJSYM: i32 = 8;
pub const ODD: i32 = 9;
pub const SYMFN: i32 = 10;
pub const NARGS: i32 = 11;
pub const NOTEMPTY: i32 = 12;
pub const EVEN: i32 = 13;
pub const NORESIZE: i32 = 14;

pub fn reason_name(c: i32) -> &'static str {
    match c {
        1 => "InputMustHaveTheSameSize",
        2 => "InputMetaDataMustAgree",
        3 => "InputMustBeComplex",
        4 => "InputMustBeReal",
        5 => "InputMustBeInTimeDomain",
        6 => "InputMustBeInFrequencyDomain",
        7 => "InvalidArgumentLength",
        8 => "InputMustBeConjSymmetric",
        9 => "InputMustHaveAnOddLength",
        10 => "ArgumentFunctionMustBeSymmetric",
        11 => "InvalidNumberOfArgumentsForCombinedOp",
        12 => "InputMustNotBeEmpty",
        13 => "InputMustHaveAnEvenLength",
        14 => "TypeCanNotResize",
        _ => "?",
    }
}
