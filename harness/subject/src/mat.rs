//! Operations on matrices. The same glue as for vectors, instantiated for the four shapes.
use crate::consume_body;
use crate::exec::*;
use crate::funcs::*;
use crate::groups::*;
use crate::num::Num;
use crate::store::VecBuf;
use basic_dsp_matrix::*;
use basic_dsp_vector::*;
use refmodel::ops::{Op, K::*};

pub type Row<T> = GenDspVec<Vec<T>, T>;

#[derive(Clone, Debug, PartialEq)]
pub struct Meta {
    pub fr: bool,
    pub cx: bool,
    pub delta: f64,
    pub row_len: usize,
    pub row_points: usize,
    pub col_len: usize,
}

/// How a matrix is created and what it is converted to and back before an operation
pub trait Mat<T: Num>: Sized + Send + Sync + 'static {
    /// fixed number of rows, 0: any
    const ROWS: usize;
    fn build(rows: Vec<Row<T>>) -> Self;
    /// from the samples alone: delta has its default
    fn raw(rows: Vec<Vec<T>>, cx: bool, fr: bool) -> Self;
    fn rows(&self) -> &[Row<T>];
    fn rows_mut(&mut self) -> &mut [Row<T>];
    fn meta(&self) -> Meta;
    /// the rows and the reported length
    fn unbuild(self) -> (Vec<Row<T>>, usize);
    /// one operation. `v`: an operand which is a vector, `imps`: impulse responses for each pair of rows
    fn exec(regs: &mut [Option<Self>], v: Option<&Row<T>>, imps: Option<&Vec<Vec<&Row<T>>>>, b: &mut VecBuf<T>, op: &Op) -> Outcome;
    /// to one of the static types and back, through `rededicate_from_force`
    fn there_and_back(self, to: usize) -> Self;
    /// `rededicate_with_runtime_data`
    fn runtime(self, cx: bool, fr: bool) -> Self;
    /// through a static matrix made from samples
    fn typed(rows: Vec<Vec<T>>, cx: bool, fr: bool) -> Self;
}

/// One row of an operation which only reads: a matrix offers the real variants alone
pub fn row_read<T: Num>(v: &Row<T>, o: Option<&Row<T>>, op: &Op) -> Outcome {
    match read_real(v, o, op) {
        Some(Ok(r)) => Outcome { status: Ok(()), rets: r },
        Some(Err(e)) => Outcome::of(Err(e)),
        None => Outcome::of(Err(UNSUPPORTED)),
    }
}

fn list<T: Num, I: IntoIterator<Item = T>>(i: I) -> Rets {
    Ok(i.into_iter().map(|x| x.d()).collect())
}
fn listed<T: Num, I: IntoIterator<Item = T>>(i: ScalarResult<I>) -> Rets {
    match i {
        Ok(i) => list(i),
        Err(e) => Err(code(e)),
    }
}
fn domain(fr: bool) -> DataDomain {
    if fr {
        DataDomain::Frequency
    } else {
        DataDomain::Time
    }
}

/// the matrix types offer sums through results of different types
pub trait Reads<T: Num>: Sized {
    fn read(&self, o: Option<&Self>, v: Option<&Row<T>>, op: &Op) -> Option<Rets>;
}

macro_rules! reads {
    ($t:ident, $m:ident, $n:tt, $sum:ty, $sump:ty, $agg:ty) => {
        impl Reads<$t> for $m<Row<$t>, Vec<$t>, $t> {
            fn read(&self, o: Option<&Self>, v: Option<&Row<$t>>, op: &Op) -> Option<Rets> {
                Some(match op.k {
                    Sum => list(SumOps::<$sum>::sum(self)),
                    SumSq => list(SumOps::<$sum>::sum_sq(self)),
                    SumPrec => list(PreciseSumOps::<$sump>::sum_prec(self)),
                    SumSqPrec => list(PreciseSumOps::<$sump>::sum_sq_prec(self)),
                    Dot => match v {
                        Some(v) => listed(self.dot_product(v)),
                        None => listed(self.dot_product(o?)),
                    },
                    DotPrec => match v {
                        Some(v) => listed(self.dot_product_prec(v)),
                        None => listed(self.dot_product_prec(o?)),
                    },
                    MapAggReal => {
                        let f = op.f;
                        let r = MapAggregateOps::<$t, i64>::map_aggregate(
                            self,
                            op.a as i64,
                            &move |x, i, arg| agg_map(f, num_complex::Complex::new(x, 0.0), i, arg),
                            &move |a, b| agg(f, a, b),
                        );
                        match r {
                            Ok(x) => Ok(x.into_iter().map(|x| x as f64).collect()),
                            Err(e) => Err(code(e)),
                        }
                    }
                    _ => return None,
                })
            }
        }
    };
}
reads!(f32, MatrixMxN, 0, Vec<f32>, Vec<f64>, Vec<i64>);
reads!(f64, MatrixMxN, 0, Vec<f64>, Vec<f64>, Vec<i64>);
reads!(f32, Matrix2xN, 2, [f32; 2], [f64; 2], [i64; 2]);
reads!(f64, Matrix2xN, 2, [f64; 2], [f64; 2], [i64; 2]);
reads!(f32, Matrix3xN, 3, [f32; 3], [f64; 3], [i64; 3]);
reads!(f64, Matrix3xN, 3, [f64; 3], [f64; 3], [i64; 3]);
reads!(f32, Matrix4xN, 4, [f32; 4], [f64; 4], [i64; 4]);
reads!(f64, Matrix4xN, 4, [f64; 4], [f64; 4], [i64; 4]);

macro_rules! fixed {
    (0, $v:expr) => {
        $v
    };
    ($n:tt, $v:expr) => {
        match <[_; $n]>::try_from($v) {
            Ok(a) => a,
            Err(_) => panic!("rows"),
        }
    };
}
macro_rules! grid {
    (0, $i:ident) => {
        $i.iter().collect::<Vec<_>>()
    };
    ($n:tt, $i:ident) => {
        std::array::from_fn::<[&Row<_>; $n], $n, _>(|a| std::array::from_fn(|b| $i[a][b]))
    };
}

macro_rules! mats {
    ($t:ident, $m:ident, $n:tt) => {
        impl Mat<$t> for $m<Row<$t>, Vec<$t>, $t> {
            const ROWS: usize = $n;
            fn build(rows: Vec<Row<$t>>) -> Self {
                fixed!($n, rows).to_mat()
            }
            fn raw(rows: Vec<Vec<$t>>, cx: bool, fr: bool) -> Self {
                fixed!($n, rows).to_gen_dsp_mat(cx, domain(fr))
            }
            fn rows(&self) -> &[Row<$t>] {
                Matrix::rows(self)
            }
            fn rows_mut(&mut self) -> &mut [Row<$t>] {
                Matrix::rows_mut(self)
            }
            fn meta(&self) -> Meta {
                Meta {
                    fr: self.domain() == DataDomain::Frequency,
                    cx: self.is_complex(),
                    delta: self.delta().d(),
                    row_len: self.row_len(),
                    row_points: self.row_points(),
                    col_len: self.col_len(),
                }
            }
            fn unbuild(self) -> (Vec<Row<$t>>, usize) {
                let (r, n) = self.get();
                (r.into_iter().collect(), n)
            }
            fn there_and_back(self, to: usize) -> Self {
                match to {
                    0 => Self::rededicate_from_force($m::<RealTimeVec<Vec<$t>, $t>, Vec<$t>, $t>::rededicate_from_force(self)),
                    1 => Self::rededicate_from_force($m::<RealFreqVec<Vec<$t>, $t>, Vec<$t>, $t>::rededicate_from_force(self)),
                    2 => Self::rededicate_from_force($m::<ComplexTimeVec<Vec<$t>, $t>, Vec<$t>, $t>::rededicate_from_force(self)),
                    _ => Self::rededicate_from_force($m::<ComplexFreqVec<Vec<$t>, $t>, Vec<$t>, $t>::rededicate_from_force(self)),
                }
            }
            fn runtime(self, cx: bool, fr: bool) -> Self {
                Self::rededicate_with_runtime_data(self, cx, domain(fr))
            }
            fn typed(rows: Vec<Vec<$t>>, cx: bool, fr: bool) -> Self {
                let r = fixed!($n, rows);
                match (cx, fr) {
                    (false, false) => Self::rededicate_from_force(r.to_real_time_mat()),
                    (false, true) => Self::rededicate_from_force(r.to_real_freq_mat()),
                    (true, false) => Self::rededicate_from_force(r.to_complex_time_mat()),
                    // there is no `to_complex_freq_mat` for any collection
                    (true, true) => Self::rededicate_with_runtime_data(r.to_complex_time_mat(), true, DataDomain::Frequency),
                }
            }
            #[inline(never)]
            fn exec(regs: &mut [Option<Self>], v: Option<&Row<$t>>, imps: Option<&Vec<Vec<&Row<$t>>>>, b: &mut VecBuf<$t>, op: &Op) -> Outcome {
                if refmodel::read_only(op.k) {
                    let o = if op.no > 0 && v.is_none() { regs[op.o[0]].as_ref() } else { None };
                    let m = regs[op.t].as_ref().unwrap();
                    return match m.read(o, v, op) {
                        Some(Ok(r)) => Outcome { status: Ok(()), rets: r },
                        Some(Err(e)) => Outcome::of(Err(e)),
                        None => Outcome::of(Err(UNSUPPORTED)),
                    };
                }
                if refmodel::consuming(op.k) {
                    let m = regs[op.t].take().unwrap();
                    let (m, r) = Self::consumed(m, b, op);
                    regs[op.t] = Some(m);
                    return Outcome::of(r);
                }
                let p = regs.as_mut_ptr();
                assert!(std::iter::once(&op.t).chain(op.others()).all(|i| *i < regs.len()) && !op.others().contains(&op.t));
                let m = unsafe { (*p.add(op.t)).as_mut().unwrap() };
                if is_target_output(op.k) {
                    let d = unsafe { (*p.add(op.o[0])).as_mut().unwrap() };
                    match op.k {
                        GetReal => m.get_real(d),
                        GetImag => m.get_imag(d),
                        GetMagnitude => m.get_magnitude(d),
                        GetMagnitudeSq => m.get_magnitude_squared(d),
                        GetPhase => m.get_phase(d),
                        GetRealImag | GetMagPhase => {
                            assert!(op.o[0] != op.o[1]);
                            let e = unsafe { (*p.add(op.o[1])).as_mut().unwrap() };
                            if op.k == GetRealImag {
                                m.get_real_imag(d, e)
                            } else {
                                m.get_mag_phase(d, e)
                            }
                        }
                        _ => return Outcome::of(Err(UNSUPPORTED)),
                    }
                    return Outcome::of(Ok(()));
                }
                let other = |i: usize| unsafe { (*p.add(op.o[i])).as_ref().unwrap() };
                let r = match op.k {
                    Resize => Some(res(m.resize(op.n))),
                    SetDelta => {
                        m.set_delta(<$t as Num>::f(op.a));
                        Some(Ok(()))
                    }
                    Correlate => Some(res(m.correlate(b, other(0)))),
                    ConvolveReal => conv_real::<Vec<$t>, $t, _, VecBuf<$t>>(m, b, op),
                    ConvolveComplex => conv_complex::<Vec<$t>, $t, _, VecBuf<$t>>(m, b, op),
                    ConvolveSignal => Some(match (v, imps) {
                        (Some(v), _) => res(m.convolve_signal(b, v)),
                        (None, Some(i)) => {
                            let g = grid!($n, i);
                            res(m.convolve_signal(b, &g))
                        }
                        _ => Err(UNSUPPORTED),
                    }),
                    SetRealImag => Some(res(m.set_real_imag(other(0), other(1)))),
                    SetMagPhase => Some(res(m.set_mag_phase(other(0), other(1)))),
                    Add | Sub | Mul | Div | AddSmaller | SubSmaller | MulSmaller | DivSmaller => match v {
                        Some(v) => binary(m, v, op),
                        None => binary(m, other(0), op),
                    },
                    _ => None,
                };
                let r = r
                    .or_else(|| inplace(m, op))
                    .or_else(|| inplace_real(m, op))
                    .or_else(|| inplace_complex(m, op))
                    .or_else(|| windows(m, op))
                    .or_else(|| freq(m, b, op))
                    .or_else(|| freq_mul_real(m, op))
                    .or_else(|| freq_mul_complex(m, op))
                    .or_else(|| interpolation(m, b, op))
                    .or_else(|| real_interpolation(m, b, op));
                Outcome::of(r.unwrap_or(Err(UNSUPPORTED)))
            }
        }
        impl Consumed<$t> for $m<Row<$t>, Vec<$t>, $t> {
            fn consumed(m: Self, b: &mut VecBuf<$t>, op: &Op) -> (Self, R) {
                consume_body!(m, b, op, $t, match op.k {
                    PlainSfft => trans(m.plain_sfft(b)),
                    Sfft => trans(m.sfft(b)),
                    _ => trans(m.windowed_sfft(b, &Win::<$t>::new(op.f))),
                })
            }
        }
    };
}
trait Consumed<T: Num>: Sized {
    fn consumed(m: Self, b: &mut VecBuf<T>, op: &Op) -> (Self, R);
}
mats!(f32, MatrixMxN, 0);
mats!(f64, MatrixMxN, 0);
mats!(f32, Matrix2xN, 2);
mats!(f64, Matrix2xN, 2);
mats!(f32, Matrix3xN, 3);
mats!(f64, Matrix3xN, 3);
mats!(f32, Matrix4xN, 4);
mats!(f64, Matrix4xN, 4);

/// What `there_and_back` does to one row
pub fn row_there_and_back<T: Num>(v: Row<T>, to: usize) -> Row<T> {
    match to {
        0 => Row::<T>::rededicate_from_force(RealTimeVec::<Vec<T>, T>::rededicate_from_force(v)),
        1 => Row::<T>::rededicate_from_force(RealFreqVec::<Vec<T>, T>::rededicate_from_force(v)),
        2 => Row::<T>::rededicate_from_force(ComplexTimeVec::<Vec<T>, T>::rededicate_from_force(v)),
        _ => Row::<T>::rededicate_from_force(ComplexFreqVec::<Vec<T>, T>::rededicate_from_force(v)),
    }
}
pub fn row_runtime<T: Num>(v: Row<T>, cx: bool, fr: bool) -> Row<T> {
    Row::<T>::rededicate_with_runtime_data(v, cx, domain(fr))
}
pub fn row_raw<T: Num>(v: Vec<T>, cx: bool, fr: bool) -> Row<T> {
    v.to_gen_dsp_vec(cx, domain(fr))
}
pub fn row_typed<T: Num>(v: Vec<T>, cx: bool, fr: bool) -> Row<T> {
    match (cx, fr) {
        (false, false) => Row::<T>::rededicate_from_force(v.to_real_time_vec()),
        (false, true) => Row::<T>::rededicate_from_force(v.to_real_freq_vec()),
        (true, false) => Row::<T>::rededicate_from_force(v.to_complex_time_vec()),
        (true, true) => Row::<T>::rededicate_with_runtime_data(v.to_complex_time_vec(), true, DataDomain::Frequency),
    }
}
