//! Storages and scratch buffers under the simulator's control.
use crate::num::Num;
use basic_dsp_vector::*;
use simrt::calls;

/// A storage with a hard limit which may refuse to grow. Fresh room holds stale samples.
#[derive(Debug)]
pub struct SimStore<T> {
    pub buf: Vec<T>,
    /// reported room beyond `len` which can always be claimed
    pub slack: usize,
    pub limit: usize,
    /// shrinks on request like a Vec, otherwise keeps its size like a boxed slice
    pub shrinks: bool,
}

impl<T: Clone> Clone for SimStore<T> {
    fn clone(&self) -> Self {
        SimStore { buf: self.buf.clone(), slack: self.slack, limit: self.limit, shrinks: self.shrinks }
    }
}

impl<T: Num> SimStore<T> {
    pub fn new(data: &[T], limit: usize, slack: usize, shrinks: bool) -> SimStore<T> {
        let slack = slack.min(limit.saturating_sub(data.len()));
        SimStore { buf: data.to_vec(), slack, limit: limit.max(data.len()), shrinks }
    }
}

fn stale<T: Num>(i: usize) -> T {
    T::f(-7700.5 - (i % 64) as f64)
}

impl<T: Num> ToSlice<T> for SimStore<T> {
    fn to_slice(&self) -> &[T] {
        &self.buf
    }
    fn len(&self) -> usize {
        self.buf.len()
    }
    fn is_empty(&self) -> bool {
        self.buf.is_empty()
    }
    fn alloc_len(&self) -> usize {
        self.buf.len() + self.slack
    }
    fn try_resize(&mut self, len: usize) -> VoidResult {
        let old = self.buf.len();
        if len > old {
            if len > old + self.slack && (len > self.limit || !calls::store_grow()) {
                return Err(ErrorReason::TypeCanNotResize);
            }
            for i in old..len {
                self.buf.push(stale(i));
            }
            self.slack = self.slack.saturating_sub(len - old);
        } else if self.shrinks {
            self.slack += old - len;
            self.buf.truncate(len);
        }
        Ok(())
    }
}
impl<T: Num> ToSliceMut<T> for SimStore<T> {
    fn to_slice_mut(&mut self) -> &mut [T] {
        &mut self.buf
    }
}
impl<T: Num> Resize for SimStore<T> {
    fn resize(&mut self, len: usize) {
        let old = self.buf.len();
        for i in old..len {
            self.buf.push(stale(i));
        }
        self.slack = self.slack.saturating_sub(len.saturating_sub(old));
        if len < old && self.shrinks {
            self.slack += old - len;
            self.buf.truncate(len);
        }
    }
}
fn domain(freq: bool) -> DataDomain {
    if freq {
        DataDomain::Frequency
    } else {
        DataDomain::Time
    }
}
/// A generic vector on any storage
pub fn gen_from<S: ToSlice<T>, T: Num>(s: S, cx: bool, fr: bool) -> GenDspVec<S, T> {
    let rt = RealTimeVec::<S, T>::from(s);
    GenDspVec::<S, T>::rededicate_with_runtime_data(rt, cx, domain(fr))
}
impl<T: Num> ToDspVector<T> for SimStore<T> {
    fn to_gen_dsp_vec(self, is_complex: bool, d: DataDomain) -> GenDspVec<Self, T> {
        gen_from(self, is_complex, d == DataDomain::Frequency)
    }
    fn to_dsp_vec<N: NumberSpace, D: Domain>(self, _meta: &TypeMetaData<T, N, D>) -> DspVec<Self, T, N, D> {
        unreachable!()
    }
}
impl<T: Num> ToComplexVector<SimStore<T>, T> for SimStore<T> {
    fn to_complex_time_vec(self) -> ComplexTimeVec<Self, T> {
        ComplexTimeVec::from(self)
    }
    fn to_complex_freq_vec(self) -> ComplexFreqVec<Self, T> {
        ComplexFreqVec::from(self)
    }
}

// ------------------------------------------------------------------------------------------
// buffers

pub const BUF_SINGLE: usize = 0;
pub const BUF_NONE: usize = 1;
pub const BUF_FIXED: usize = 2;
pub const BUF_DIRTY: usize = 3;
pub const BUF_KINDS: usize = 4;

/// content of dirty scratch memory
#[derive(Clone, Copy)]
pub struct Dirt {
    pub mode: u8,
}
impl Dirt {
    pub fn fill<T: Num>(&self, v: &mut [T]) {
        for (i, x) in v.iter_mut().enumerate() {
            *x = match self.mode % 4 {
                0 => T::f(9.0e4 + (i % 97) as f64),
                1 => T::nan(),
                2 => T::infinity(),
                _ => T::f(-1.0e-3 * (i % 13) as f64),
            };
        }
    }
}

pub enum VecBuf<T: Num> {
    Single(SingleBuffer<T>),
    No(NoBuffer),
    Fixed(FixedLenBuffer<Vec<T>, T>),
    Dirty(Dirt),
}
pub enum VecBorrow<'a, T: Num> {
    Single(<SingleBuffer<T> as Buffer<'a, Vec<T>, T>>::Borrow),
    No(<NoBuffer as Buffer<'a, Vec<T>, T>>::Borrow),
    Fixed(<FixedLenBuffer<Vec<T>, T> as Buffer<'a, Vec<T>, T>>::Borrow),
    Dirty(Vec<T>),
}
impl<T: Num> VecBuf<T> {
    pub fn new(kind: usize, len: usize, dirt: Dirt) -> VecBuf<T> {
        match kind {
            BUF_SINGLE => {
                if len == 0 {
                    VecBuf::Single(SingleBuffer::new())
                } else {
                    let mut b: SingleBuffer<T> = SingleBuffer::with_capacity(len);
                    {
                        let mut x = <SingleBuffer<T> as Buffer<Vec<T>, T>>::borrow(&mut b, len);
                        dirt.fill(x.to_slice_mut());
                    }
                    VecBuf::Single(b)
                }
            }
            BUF_NONE => VecBuf::No(NoBuffer),
            BUF_FIXED => {
                let mut v = vec![T::zero(); len];
                dirt.fill(&mut v);
                VecBuf::Fixed(FixedLenBuffer::new(v))
            }
            _ => VecBuf::Dirty(dirt),
        }
    }
}
impl<'a, T: Num> Buffer<'a, Vec<T>, T> for VecBuf<T> {
    type Borrow = VecBorrow<'a, T>;
    fn borrow(&'a mut self, len: usize) -> Self::Borrow {
        match self {
            VecBuf::Single(b) => VecBorrow::Single(b.borrow(len)),
            VecBuf::No(b) => VecBorrow::No(<NoBuffer as Buffer<Vec<T>, T>>::borrow(b, len)),
            VecBuf::Fixed(b) => VecBorrow::Fixed(b.borrow(len)),
            VecBuf::Dirty(d) => {
                let mut v = vec![T::zero(); len];
                d.fill(&mut v);
                VecBorrow::Dirty(v)
            }
        }
    }
    fn alloc_len(&self) -> usize {
        match self {
            VecBuf::Single(b) => <SingleBuffer<T> as Buffer<Vec<T>, T>>::alloc_len(b),
            VecBuf::No(b) => <NoBuffer as Buffer<Vec<T>, T>>::alloc_len(b),
            VecBuf::Fixed(b) => <FixedLenBuffer<Vec<T>, T> as Buffer<Vec<T>, T>>::alloc_len(b),
            VecBuf::Dirty(_) => 0,
        }
    }
}
macro_rules! each {
    ($self:ident, $b:ident => $e:expr) => {
        match $self {
            VecBorrow::Single($b) => $e,
            VecBorrow::No($b) => $e,
            VecBorrow::Fixed($b) => $e,
            VecBorrow::Dirty($b) => $e,
        }
    };
}
impl<'a, T: Num> ToSlice<T> for VecBorrow<'a, T> {
    fn to_slice(&self) -> &[T] {
        each!(self, b => b.to_slice())
    }
    fn len(&self) -> usize {
        each!(self, b => ToSlice::<T>::len(b))
    }
    fn is_empty(&self) -> bool {
        each!(self, b => ToSlice::<T>::is_empty(b))
    }
    fn alloc_len(&self) -> usize {
        each!(self, b => ToSlice::<T>::alloc_len(b))
    }
    fn try_resize(&mut self, len: usize) -> VoidResult {
        each!(self, b => b.try_resize(len))
    }
}
impl<'a, T: Num> ToSliceMut<T> for VecBorrow<'a, T> {
    fn to_slice_mut(&mut self) -> &mut [T] {
        each!(self, b => b.to_slice_mut())
    }
}
impl<'a, T: Num> BufferBorrow<Vec<T>, T> for VecBorrow<'a, T> {
    fn trade(self, storage: &mut Vec<T>) {
        match self {
            VecBorrow::Single(b) => b.trade(storage),
            VecBorrow::No(b) => b.trade(storage),
            VecBorrow::Fixed(b) => b.trade(storage),
            VecBorrow::Dirty(mut b) => std::mem::swap(&mut b, storage),
        }
    }
}

/// Buffers for any storage
pub enum AnyBuf<S: ToSliceMut<T>, T: Num> {
    Fixed(FixedLenBuffer<S, T>),
    Dirty(Dirt),
}
pub enum AnyBorrow<'a, S: ToSliceMut<T>, T: Num> {
    Fixed(<FixedLenBuffer<S, T> as Buffer<'a, S, T>>::Borrow),
    Dirty(Vec<T>),
}
impl<'a, S: ToSliceMut<T> + 'a, T: Num> Buffer<'a, S, T> for AnyBuf<S, T> {
    type Borrow = AnyBorrow<'a, S, T>;
    fn borrow(&'a mut self, len: usize) -> Self::Borrow {
        match self {
            AnyBuf::Fixed(b) => AnyBorrow::Fixed(b.borrow(len)),
            AnyBuf::Dirty(d) => {
                let mut v = vec![T::zero(); len];
                d.fill(&mut v);
                AnyBorrow::Dirty(v)
            }
        }
    }
    fn alloc_len(&self) -> usize {
        match self {
            AnyBuf::Fixed(b) => <FixedLenBuffer<S, T> as Buffer<S, T>>::alloc_len(b),
            AnyBuf::Dirty(_) => 0,
        }
    }
}
impl<'a, S: ToSliceMut<T>, T: Num> ToSlice<T> for AnyBorrow<'a, S, T> {
    fn to_slice(&self) -> &[T] {
        match self {
            AnyBorrow::Fixed(b) => b.to_slice(),
            AnyBorrow::Dirty(b) => &b[..],
        }
    }
    fn len(&self) -> usize {
        self.to_slice().len()
    }
    fn is_empty(&self) -> bool {
        self.to_slice().is_empty()
    }
    fn alloc_len(&self) -> usize {
        self.to_slice().len()
    }
    fn try_resize(&mut self, len: usize) -> VoidResult {
        match self {
            AnyBorrow::Fixed(b) => b.try_resize(len),
            AnyBorrow::Dirty(b) => {
                b.resize(len, T::zero());
                Ok(())
            }
        }
    }
}
impl<'a, S: ToSliceMut<T>, T: Num> ToSliceMut<T> for AnyBorrow<'a, S, T> {
    fn to_slice_mut(&mut self) -> &mut [T] {
        match self {
            AnyBorrow::Fixed(b) => b.to_slice_mut(),
            AnyBorrow::Dirty(b) => &mut b[..],
        }
    }
}
pub const NO_ROOM: &str = "buffer: the storage can not take the result";
impl<'a, S: ToSliceMut<T>, T: Num> BufferBorrow<S, T> for AnyBorrow<'a, S, T> {
    fn trade(self, storage: &mut S) {
        match self {
            AnyBorrow::Fixed(b) => b.trade(storage),
            AnyBorrow::Dirty(b) => {
                if storage.len() < b.len() && storage.try_resize(b.len()).is_err() {
                    panic!("{}", NO_ROOM);
                }
                storage.to_slice_mut()[0..b.len()].copy_from_slice(&b);
            }
        }
    }
}
