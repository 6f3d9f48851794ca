//! The two sample types.
use basic_dsp_vector::conv_types::*;
use basic_dsp_vector::numbers::*;
use basic_dsp_vector::*;
use num_complex::Complex;
use crate::exec::*;
use crate::groups::{self, Rets, R};
use crate::store::*;
use arrayvec::ArrayVec;
use refmodel::func;
use refmodel::Op;

pub const ACAP: usize = 256;

macro_rules! kind_decl {
    ($all:ident, $read:ident, $get:ident, $mut:ident, $consume:ident, $s:ty, $b:ty) => {
        fn $all(_: &mut [Option<GenDspVec<$s, Self>>], _: &mut $b, _: &Op) -> Outcome {
            unreachable!()
        }
        fn $read(_: &GenDspVec<$s, Self>, _: Option<&GenDspVec<$s, Self>>, _: &Op) -> Option<Outcome> {
            unreachable!()
        }
        fn $get(_: &GenDspVec<$s, Self>, _: &mut [&mut GenDspVec<$s, Self>], _: &Op) -> Outcome {
            unreachable!()
        }
        fn $mut(_: &mut GenDspVec<$s, Self>, _: &mut $b, _: &[&GenDspVec<$s, Self>], _: &Op) -> Outcome {
            unreachable!()
        }
        fn $consume(_: GenDspVec<$s, Self>, _: &mut $b, _: &Op) -> (GenDspVec<$s, Self>, R) {
            unreachable!()
        }
    };
}

pub trait Num: RealNumber + 'static {
    const IS32: bool;
    fn f(x: f64) -> Self;
    fn d(self) -> f64;
    fn bits(self) -> u64;
    fn table_time() -> Box<dyn RealImpulseResponse<Self>>;
    fn table_freq() -> Box<dyn RealFrequencyResponse<Self>>;
    fn table_ctime() -> Box<dyn ComplexImpulseResponse<Self>>;
    fn table_cfreq() -> Box<dyn ComplexFrequencyResponse<Self>>;
    fn prec_real<S, N, D>(v: &DspVec<S, Self, N, D>, o: Option<&DspVec<S, Self, N, D>>, op: &Op) -> Option<Rets>
    where
        S: ToSliceMut<Self>,
        N: RealNumberSpace + PosEq<N>,
        D: Domain + PosEq<D>;
    fn prec_complex<S, N, D>(v: &DspVec<S, Self, N, D>, o: Option<&DspVec<S, Self, N, D>>, op: &Op) -> Option<Rets>
    where
        S: ToSliceMut<Self>,
        N: ComplexNumberSpace + PosEq<N>,
        D: Domain + PosEq<D>;
    // The instances of `exec` for all kinds of storages: they are compiled in this crate, where the
    // code is instrumented.
    kind_decl!(vec_all, vec_read, vec_get, vec_mut, vec_consume, Vec<Self>, VecBuf<Self>);
    kind_decl!(sim_all, sim_read, sim_get, sim_mut, sim_consume, SimStore<Self>, AnyBuf<SimStore<Self>, Self>);
    kind_decl!(boxed_all, boxed_read, boxed_get, boxed_mut, boxed_consume, Box<[Self]>, AnyBuf<Box<[Self]>, Self>);
    kind_decl!(slice_all, slice_read, slice_get, slice_mut, slice_consume, &'static mut [Self], AnyBuf<&'static mut [Self], Self>);
    kind_decl!(array_all, array_read, array_get, array_mut, array_consume, ArrayVec<Self, ACAP>, AnyBuf<ArrayVec<Self, ACAP>, Self>);
}

macro_rules! kind_impl {
    ($feature:expr, $all:ident, $read:ident, $get:ident, $mut:ident, $consume:ident, $s:ty, $b:ty) => {
        #[cfg(feature = $feature)]
        #[inline(never)]
        fn $all(regs: &mut [Option<GenDspVec<$s, Self>>], b: &mut $b, op: &Op) -> Outcome {
            exec(regs, b, op)
        }
        #[cfg(feature = $feature)]
        #[inline(never)]
        fn $read(v: &GenDspVec<$s, Self>, o: Option<&GenDspVec<$s, Self>>, op: &Op) -> Option<Outcome> {
            exec_read_on(v, o, op)
        }
        #[cfg(feature = $feature)]
        #[inline(never)]
        fn $get(v: &GenDspVec<$s, Self>, o: &mut [&mut GenDspVec<$s, Self>], op: &Op) -> Outcome {
            exec_get(v, o, op)
        }
        #[cfg(feature = $feature)]
        #[inline(never)]
        fn $mut(v: &mut GenDspVec<$s, Self>, b: &mut $b, o: &[&GenDspVec<$s, Self>], op: &Op) -> Outcome {
            exec_mut(v, b, o, op)
        }
        #[cfg(feature = $feature)]
        #[inline(never)]
        fn $consume(v: GenDspVec<$s, Self>, b: &mut $b, op: &Op) -> (GenDspVec<$s, Self>, R) {
            consume(v, b, op)
        }
    };
}
macro_rules! num_impl {
    ($t:ident, $is32:expr, $pr:ident, $pc:ident) => {
        impl Num for $t {
            const IS32: bool = $is32;
            #[inline]
            fn f(x: f64) -> Self {
                x as $t
            }
            #[inline]
            fn d(self) -> f64 {
                self as f64
            }
            #[inline]
            fn bits(self) -> u64 {
                self.to_bits() as u64
            }
            fn table_time() -> Box<dyn RealImpulseResponse<Self>> {
                let t: Vec<$t> = func::TABLE.iter().map(|x| *x as $t).collect();
                Box::new(RealTimeLinearTableLookup::<$t>::from_raw_parts(&t, func::TABLE_DELTA as $t, true))
            }
            fn table_freq() -> Box<dyn RealFrequencyResponse<Self>> {
                let t: Vec<$t> = func::TABLE.iter().map(|x| *x as $t).collect();
                Box::new(RealFrequencyLinearTableLookup::<$t>::from_raw_parts(&t, func::TABLE_DELTA as $t, true))
            }
            fn table_ctime() -> Box<dyn ComplexImpulseResponse<Self>> {
                let t: Vec<Complex<$t>> = func::TABLE.iter().map(|x| Complex::new(*x as $t, *x as $t * 0.5)).collect();
                Box::new(ComplexTimeLinearTableLookup::<$t>::from_raw_parts(&t, func::TABLE_DELTA as $t, true))
            }
            fn prec_real<S, N, D>(v: &DspVec<S, Self, N, D>, o: Option<&DspVec<S, Self, N, D>>, op: &Op) -> Option<Rets>
            where
                S: ToSliceMut<Self>,
                N: RealNumberSpace + PosEq<N>,
                D: Domain + PosEq<D>,
            {
                groups::$pr(v, o, op)
            }
            fn prec_complex<S, N, D>(v: &DspVec<S, Self, N, D>, o: Option<&DspVec<S, Self, N, D>>, op: &Op) -> Option<Rets>
            where
                S: ToSliceMut<Self>,
                N: ComplexNumberSpace + PosEq<N>,
                D: Domain + PosEq<D>,
            {
                groups::$pc(v, o, op)
            }
            kind_impl!("vec", vec_all, vec_read, vec_get, vec_mut, vec_consume, Vec<Self>, VecBuf<Self>);
            kind_impl!("sim", sim_all, sim_read, sim_get, sim_mut, sim_consume, SimStore<Self>, AnyBuf<SimStore<Self>, Self>);
            kind_impl!("boxed", boxed_all, boxed_read, boxed_get, boxed_mut, boxed_consume, Box<[Self]>, AnyBuf<Box<[Self]>, Self>);
            kind_impl!("slice", slice_all, slice_read, slice_get, slice_mut, slice_consume, &'static mut [Self], AnyBuf<&'static mut [Self], Self>);
            kind_impl!("array", array_all, array_read, array_get, array_mut, array_consume, ArrayVec<Self, ACAP>, AnyBuf<ArrayVec<Self, ACAP>, Self>);
            fn table_cfreq() -> Box<dyn ComplexFrequencyResponse<Self>> {
                let t: Vec<Complex<$t>> = func::TABLE.iter().map(|x| Complex::new(*x as $t, *x as $t * 0.5)).collect();
                Box::new(ComplexFrequencyLinearTableLookup::<$t>::from_raw_parts(&t, func::TABLE_DELTA as $t, true))
            }
        }
    };
}
num_impl!(f32, true, prec_real32, prec_complex32);
num_impl!(f64, false, prec_real64, prec_complex64);
