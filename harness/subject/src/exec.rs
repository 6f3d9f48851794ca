//! Executes one operation of the catalogue on registers of generic vectors.
use crate::groups::*;
use crate::num::Num;
use crate::store::*;
use basic_dsp_vector::*;
use refmodel::ops::{Op, K::*};

pub type Gen<S, T> = GenDspVec<S, T>;

/// The operation isn't available for this kind of vector
pub const UNSUPPORTED: i32 = -1;

pub struct Outcome {
    pub status: R,
    pub rets: Vec<f64>,
}
impl Outcome {
    pub fn of(r: R) -> Outcome {
        Outcome { status: r, rets: Vec::new() }
    }
    fn rets(r: Rets) -> Outcome {
        match r {
            Ok(v) => Outcome { status: Ok(()), rets: v },
            Err(e) => Outcome { status: Err(e), rets: Vec::new() },
        }
    }
}

/// What a storage type offers beyond slices
pub trait Store<T: Num>: ToSliceMut<T> + Sized + Send + Sync {
    const CLONES: bool;
    fn conv<B>(_v: &mut Gen<Self, T>, _b: &mut B, _o: Option<&Gen<Self, T>>, _op: &Op) -> Option<R>
    where
        B: for<'a> Buffer<'a, Self, T>,
    {
        None
    }
    fn resizing(_v: &mut Gen<Self, T>, _o: &[&Gen<Self, T>], _op: &Op) -> Option<R> {
        None
    }
    fn sfft<B>(v: Gen<Self, T>, _b: &mut B, _op: &Op) -> (Gen<Self, T>, R)
    where
        B: for<'a> Buffer<'a, Self, T>,
    {
        (v, Err(UNSUPPORTED))
    }
    fn interp<B>(_v: &mut Gen<Self, T>, _b: &mut B, _op: &Op) -> Option<R>
    where
        B: for<'a> Buffer<'a, Self, T>,
    {
        None
    }
    fn clone_vec(_v: &Gen<Self, T>) -> Option<Gen<Self, T>> {
        None
    }
    fn clone_from(_v: &mut Gen<Self, T>, _o: &Gen<Self, T>) -> bool {
        false
    }
}

pub fn conv_group<S, T, B>(v: &mut Gen<S, T>, b: &mut B, o: Option<&Gen<S, T>>, op: &Op) -> Option<R>
where
    S: ToSliceMut<T> + Clone,
    T: Num,
    B: for<'a> Buffer<'a, S, T>,
{
    match op.k {
        ConvolveReal => conv_real::<S, T, _, B>(v, b, op),
        ConvolveComplex => conv_complex::<S, T, _, B>(v, b, op),
        ConvolveSignal => Some(res(v.convolve_signal(b, o?))),
        _ => None,
    }
}
pub fn resize_group<S, T>(v: &mut Gen<S, T>, o: &[&Gen<S, T>], op: &Op) -> Option<R>
where
    S: ToSliceMut<T> + basic_dsp_vector::Resize,
    T: Num,
{
    match op.k {
        SetRealImag => Some(res(v.set_real_imag(o[0], o[1]))),
        SetMagPhase => Some(res(v.set_mag_phase(o[0], o[1]))),
        _ => None,
    }
}
pub fn trans<V>(r: TransRes<V>) -> (V, R) {
    match r {
        Ok(v) => (v, Ok(())),
        Err((e, v)) => (v, Err(code(e))),
    }
}
pub fn sfft_group<S, T, B>(v: Gen<S, T>, b: &mut B, op: &Op) -> (Gen<S, T>, R)
where
    S: ToSliceMut<T>,
    T: Num,
    B: for<'a> Buffer<'a, S, T>,
    Gen<S, T>: SymmetricTimeToFrequencyDomainOperations<S, T, FreqResult = Gen<S, T>>,
{
    match op.k {
        PlainSfft => trans(v.plain_sfft(b)),
        Sfft => trans(v.sfft(b)),
        WindowedSfft => trans(v.windowed_sfft(b, &crate::funcs::Win::<T>::new(op.f))),
        _ => (v, Err(UNSUPPORTED)),
    }
}

impl<T: Num> Store<T> for Vec<T> {
    const CLONES: bool = true;
    fn conv<B>(v: &mut Gen<Self, T>, b: &mut B, o: Option<&Gen<Self, T>>, op: &Op) -> Option<R>
    where
        B: for<'a> Buffer<'a, Self, T>,
    {
        conv_group(v, b, o, op)
    }
    fn resizing(v: &mut Gen<Self, T>, o: &[&Gen<Self, T>], op: &Op) -> Option<R> {
        resize_group(v, o, op)
    }
    fn sfft<B>(v: Gen<Self, T>, b: &mut B, op: &Op) -> (Gen<Self, T>, R)
    where
        B: for<'a> Buffer<'a, Self, T>,
    {
        sfft_group(v, b, op)
    }
    fn interp<B>(v: &mut Gen<Self, T>, b: &mut B, op: &Op) -> Option<R>
    where
        B: for<'a> Buffer<'a, Self, T>,
    {
        interpolation(v, b, op)
    }
    fn clone_vec(v: &Gen<Self, T>) -> Option<Gen<Self, T>> {
        Some(v.clone())
    }
    fn clone_from(v: &mut Gen<Self, T>, o: &Gen<Self, T>) -> bool {
        Clone::clone_from(v, o);
        true
    }
}
impl<T: Num> Store<T> for SimStore<T> {
    const CLONES: bool = true;
    fn conv<B>(v: &mut Gen<Self, T>, b: &mut B, o: Option<&Gen<Self, T>>, op: &Op) -> Option<R>
    where
        B: for<'a> Buffer<'a, Self, T>,
    {
        conv_group(v, b, o, op)
    }
    fn resizing(v: &mut Gen<Self, T>, o: &[&Gen<Self, T>], op: &Op) -> Option<R> {
        resize_group(v, o, op)
    }
    fn sfft<B>(v: Gen<Self, T>, b: &mut B, op: &Op) -> (Gen<Self, T>, R)
    where
        B: for<'a> Buffer<'a, Self, T>,
    {
        sfft_group(v, b, op)
    }
    fn interp<B>(v: &mut Gen<Self, T>, b: &mut B, op: &Op) -> Option<R>
    where
        B: for<'a> Buffer<'a, Self, T>,
    {
        interpolation(v, b, op)
    }
    fn clone_vec(v: &Gen<Self, T>) -> Option<Gen<Self, T>> {
        Some(v.clone())
    }
    fn clone_from(v: &mut Gen<Self, T>, o: &Gen<Self, T>) -> bool {
        Clone::clone_from(v, o);
        true
    }
}
impl<T: Num> Store<T> for Box<[T]> {
    const CLONES: bool = true;
    fn conv<B>(v: &mut Gen<Self, T>, b: &mut B, o: Option<&Gen<Self, T>>, op: &Op) -> Option<R>
    where
        B: for<'a> Buffer<'a, Self, T>,
    {
        conv_group(v, b, o, op)
    }
    fn sfft<B>(v: Gen<Self, T>, b: &mut B, op: &Op) -> (Gen<Self, T>, R)
    where
        B: for<'a> Buffer<'a, Self, T>,
    {
        sfft_group(v, b, op)
    }
    fn interp<B>(v: &mut Gen<Self, T>, b: &mut B, op: &Op) -> Option<R>
    where
        B: for<'a> Buffer<'a, Self, T>,
    {
        interpolation(v, b, op)
    }
    fn clone_vec(v: &Gen<Self, T>) -> Option<Gen<Self, T>> {
        Some(v.clone())
    }
    fn clone_from(v: &mut Gen<Self, T>, o: &Gen<Self, T>) -> bool {
        Clone::clone_from(v, o);
        true
    }
}
impl<T: Num, const N: usize> Store<T> for arrayvec::ArrayVec<T, N> {
    const CLONES: bool = true;
    fn conv<B>(v: &mut Gen<Self, T>, b: &mut B, o: Option<&Gen<Self, T>>, op: &Op) -> Option<R>
    where
        B: for<'a> Buffer<'a, Self, T>,
    {
        conv_group(v, b, o, op)
    }
    fn sfft<B>(v: Gen<Self, T>, b: &mut B, op: &Op) -> (Gen<Self, T>, R)
    where
        B: for<'a> Buffer<'a, Self, T>,
    {
        sfft_group(v, b, op)
    }
    fn interp<B>(v: &mut Gen<Self, T>, b: &mut B, op: &Op) -> Option<R>
    where
        B: for<'a> Buffer<'a, Self, T>,
    {
        interpolation(v, b, op)
    }
    fn clone_vec(v: &Gen<Self, T>) -> Option<Gen<Self, T>> {
        Some(v.clone())
    }
    fn clone_from(v: &mut Gen<Self, T>, o: &Gen<Self, T>) -> bool {
        Clone::clone_from(v, o);
        true
    }
}
impl<T: Num> Store<T> for &'static mut [T] {
    const CLONES: bool = false;
    fn sfft<B>(v: Gen<Self, T>, b: &mut B, op: &Op) -> (Gen<Self, T>, R)
    where
        B: for<'a> Buffer<'a, Self, T>,
    {
        sfft_group(v, b, op)
    }
    fn interp<B>(v: &mut Gen<Self, T>, b: &mut B, op: &Op) -> Option<R>
    where
        B: for<'a> Buffer<'a, Self, T>,
    {
        interpolation(v, b, op)
    }
}

/// Mutable access to one register and shared access to others at the same time.
/// The registers in `op.o` must differ from `op.t`.
fn split<'a, V>(regs: &'a mut [Option<V>], t: usize, o: &[usize]) -> (&'a mut Option<V>, Vec<&'a mut Option<V>>) {
    let n = regs.len();
    let p = regs.as_mut_ptr();
    let mut os: Vec<&'a mut Option<V>> = Vec::with_capacity(o.len());
    for (i, x) in o.iter().enumerate() {
        assert!(*x < n && *x != t && !o[0..i].contains(x));
        os.push(unsafe { &mut *p.add(*x) });
    }
    assert!(t < n);
    (unsafe { &mut *p.add(t) }, os)
}

pub fn shared<'a, V>(regs: &'a [Option<V>], o: &[usize]) -> Vec<&'a V> {
    o.iter().map(|x| regs[*x].as_ref().expect("operand")).collect()
}

/// Runs a reading operation on shared operands
pub fn exec_read<S, T>(regs: &[Option<Gen<S, T>>], op: &Op) -> Option<Outcome>
where
    S: Store<T>,
    T: Num,
{
    let v = regs[op.t].as_ref()?;
    let o = if op.no > 0 { Some(regs[op.o[0]].as_ref()?) } else { None };
    exec_read_on(v, o, op)
}
pub fn exec_read_on<S, T>(v: &Gen<S, T>, o: Option<&Gen<S, T>>, op: &Op) -> Option<Outcome>
where
    S: ToSliceMut<T>,
    T: Num,
{
    // a generic vector offers both flavours: the caller asks for the one which fits the vector,
    // op.m == 1 / the complex kinds ask for the complex one
    let complex = match op.k {
        Dot | DotPrec => op.m == 1,
        MapAggReal => false,
        MapAggComplex => true,
        _ => v.is_complex(),
    };
    let r = if complex { read_complex(v, o, op) } else { read_real(v, o, op) };
    r.map(Outcome::rets)
}

pub fn exec<S, T, B>(regs: &mut [Option<Gen<S, T>>], b: &mut B, op: &Op) -> Outcome
where
    S: Store<T>,
    T: Num,
    B: for<'a> Buffer<'a, S, T>,
{
    if refmodel::read_only(op.k) {
        return exec_read(regs, op).unwrap_or_else(|| Outcome::of(Err(UNSUPPORTED)));
    }
    let (t, mut os) = split(regs, op.t, op.others());
    if t.is_none() || os.iter().any(|o| o.is_none()) {
        return Outcome::of(Err(UNSUPPORTED));
    }
    if refmodel::consuming(op.k) {
        let v = t.take().unwrap();
        let (v, r) = consume(v, b, op);
        *t = Some(v);
        return Outcome::of(r);
    }
    let v = t.as_mut().unwrap();
    if is_target_output(op.k) {
        let mut o: Vec<&mut Gen<S, T>> = os.into_iter().map(|o| o.as_mut().unwrap()).collect();
        return exec_get(v, &mut o[..], op);
    }
    let o: Vec<&Gen<S, T>> = os.iter_mut().map(|o| &*o.as_mut().unwrap()).collect();
    exec_mut(v, b, &o, op)
}

/// Operations which read `v` and write to other vectors
pub fn exec_get<S, T>(v: &Gen<S, T>, o: &mut [&mut Gen<S, T>], op: &Op) -> Outcome
where
    S: Store<T>,
    T: Num,
{
    Outcome::of(match op.k {
        SplitInto => res(v.split_into(o)),
        GetReal => ok(v.get_real(o[0])),
        GetImag => ok(v.get_imag(o[0])),
        GetMagnitude => ok(v.get_magnitude(o[0])),
        GetMagnitudeSq => ok(v.get_magnitude_squared(o[0])),
        GetPhase => ok(v.get_phase(o[0])),
        _ => {
            let (a, c) = o.split_at_mut(1);
            if op.k == GetRealImag {
                ok(v.get_real_imag(a[0], c[0]))
            } else {
                ok(v.get_mag_phase(a[0], c[0]))
            }
        }
    })
}

/// Operations which change `v` and read other vectors
pub fn exec_mut<S, T, B>(v: &mut Gen<S, T>, b: &mut B, o: &[&Gen<S, T>], op: &Op) -> Outcome
where
    S: Store<T>,
    T: Num,
    B: for<'a> Buffer<'a, S, T>,
{
    let r = match op.k {
        Merge => Some(res(v.merge(o))),
        Resize => Some(res(v.resize(op.n))),
        ResizeB => Some(res(v.resize_b(b, op.n))),
        SetDelta => Some(ok(v.set_delta(T::f(op.a)))),
        CloneFrom => {
            if S::clone_from(v, o[0]) {
                Some(Ok(()))
            } else {
                None
            }
        }
        Correlate => Some(res(v.correlate(b, o[0]))),
        ConvolveReal | ConvolveComplex | ConvolveSignal => S::conv(v, b, o.first().copied(), op),
        SetRealImag | SetMagPhase => S::resizing(v, o, op),
        Interpolatef | Interpolatei | Interpolate | Interpft | Decimatei => S::interp(v, b, op),
        _ => None,
    };
    let r = r
        .or_else(|| inplace(v, op))
        .or_else(|| zeros(v, op))
        .or_else(|| inplace_real(v, op))
        .or_else(|| inplace_complex(v, op))
        .or_else(|| inplace_buffered(v, b, op))
        .or_else(|| if op.no == 1 { binary(v, o[0], op) } else { None })
        .or_else(|| windows(v, op))
        .or_else(|| freq(v, b, op))
        .or_else(|| freq_mul_real(v, op))
        .or_else(|| freq_mul_complex(v, op))
        .or_else(|| real_interpolation(v, b, op));
    Outcome::of(r.unwrap_or(Err(UNSUPPORTED)))
}

fn ok(_: ()) -> R {
    Ok(())
}

/// The operations which consume a vector or matrix
#[macro_export]
macro_rules! consume_body {
    ($v:ident, $b:ident, $op:ident, $t:ty, $sfft:expr) => {{
    let w = || crate::funcs::Win::<$t>::new($op.f);
    let r = match $op.k {
        ToComplex => return trans($v.to_complex()),
        ToComplexB => $v.to_complex_b($b),
        Magnitude => $v.magnitude(),
        MagnitudeSq => $v.magnitude_squared(),
        ToReal => $v.to_real(),
        ToImag => $v.to_imag(),
        Phase => $v.phase(),
        MagnitudeB => $v.magnitude_b($b),
        MagnitudeSqB => $v.magnitude_squared_b($b),
        ToRealB => $v.to_real_b($b),
        ToImagB => $v.to_imag_b($b),
        PhaseB => $v.phase_b($b),
        PlainFft => $v.plain_fft($b),
        Fft => $v.fft($b),
        WindowedFft => $v.windowed_fft($b, &w()),
        PlainIfft => $v.plain_ifft($b),
        Ifft => $v.ifft($b),
        WindowedIfft => $v.windowed_ifft($b, &w()),
        PlainSfft | Sfft | WindowedSfft => return $sfft,
        PlainSifft => return trans($v.plain_sifft($b)),
        Sifft => return trans($v.sifft($b)),
        WindowedSifft => return trans($v.windowed_sifft($b, &w())),
        PrepareArgument => $v.prepare_argument($b),
        PrepareArgumentPadded => $v.prepare_argument_padded($b),
        _ => return ($v, Err(UNSUPPORTED)),
    };
    (r, Ok(()))
    }};
}

pub fn consume<S, T, B>(v: Gen<S, T>, b: &mut B, op: &Op) -> (Gen<S, T>, R)
where
    S: Store<T>,
    T: Num,
    B: for<'a> Buffer<'a, S, T>,
{
    consume_body!(v, b, op, T, S::sfft(v, b, op))
}
