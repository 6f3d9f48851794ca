//! Registers of vectors, their snapshots and the execution of single steps.
use crate::env::*;
use basic_dsp_vector::*;
use refmodel::model::MVec;
use refmodel::ops::*;
use simrt::rng::combine;
use simrt::{calls, sched, Rng};
use std::panic::{catch_unwind, AssertUnwindSafe};
use subject::exec::*;
use subject::groups::R;
use subject::num::{Num, ACAP};
use subject::store::*;

pub const PANICKED: i32 = -2;

/// (core_limit, med dual, med multi, large dual, large multi)
pub type Set = [usize; 5];
pub const SINGLE: Set = [1, 50_000, 100_000, 20_000, 30_000];
pub fn settings(s: &Set) -> MultiCoreSettings {
    if s[1] < s[2] && s[3] < s[4] {
        return MultiCoreSettings::with_thresholds(s[0], s[1], s[2], s[3], s[4]);
    }
    MultiCoreSettings {
        core_limit: s[0],
        med_dual_core_threshold: s[1],
        med_multi_core_threshold: s[2],
        large_dual_core_threshold: s[3],
        large_multi_core_threshold: s[4],
    }
}

#[derive(Clone, Debug)]
pub struct Fill {
    pub reg: usize,
    pub points: usize,
    pub cx: bool,
    pub fr: bool,
    pub delta: f64,
    pub seed: u64,
    pub style: u64,
    /// imaginary part of the first sample is zero
    pub dc_real: bool,
    pub set: Set,
}

#[derive(Clone, Debug)]
pub enum Item {
    Fill(Fill),
    Op(Op),
    /// new scratch buffer: slot, kind, length, content
    Buf(usize, usize, usize, u8),
    Set(usize, Set),
    Drop(usize),
    /// gives the samples from an index on (unspecified after growing) definite values
    Mend(usize, usize),
}

impl Item {
    pub fn show(&self) -> String {
        match self {
            Item::Fill(f) => format!(
                "r{} = {} {} vector, {} points, delta {:?}, style {} seed {}, cores {:?}",
                f.reg,
                if f.cx { "complex" } else { "real" },
                if f.fr { "freq" } else { "time" },
                f.points,
                f.delta,
                f.style,
                f.seed,
                f.set
            ),
            Item::Op(o) => o.show(),
            Item::Buf(i, k, l, d) => format!("buffer {} = kind {} length {} content {}", i, k, l, d),
            Item::Set(r, s) => format!("r{}.settings {:?}", r, s),
            Item::Drop(r) => format!("drop r{}", r),
            Item::Mend(r, n) => format!("r{}[{}..] = definite values", r, n),
        }
    }
}

pub fn samples(f: &Fill) -> Vec<f64> {
    let n = f.points * if f.cx { 2 } else { 1 };
    let mut r = Rng::new(combine(f.seed, 0xF111));
    let mut v: Vec<f64> = (0..n)
        .map(|i| match f.style {
            0 => ((i % 7) + 1) as f64,
            1 => (r.below(257) as f64 - 128.0) / 16.0,
            2 => (r.below(129) as f64 - 64.0) / 64.0,
            3 => (r.below(128) + 1) as f64 / 16.0,
            4 => [0.0, 1.0, 0.0, -1.0, 0.5][r.below(5) as usize],
            _ => {
                if r.below(4) == 0 {
                    (r.below(2001) as f64 - 1000.0) / 8.0
                } else {
                    (r.below(33) as f64 - 16.0) / 16.0
                }
            }
        })
        .collect();
    if f.dc_real && f.cx && n > 1 {
        v[1] = 0.0;
    }
    v
}

#[derive(Clone, Debug)]
pub struct Snap<T> {
    pub d: Vec<T>,
    pub cx: bool,
    pub fr: bool,
    pub delta: T,
    pub set: Set,
    /// valid length beyond the storage
    pub broken: bool,
}
impl<T: Num> Snap<T> {
    pub fn of<S: ToSliceMut<T>>(v: &GenDspVec<S, T>) -> Snap<T> {
        let len = v.len();
        let st = v.data.to_slice();
        let broken = len > st.len();
        let m = v.get_multicore_settings();
        Snap {
            d: st[..len.min(st.len())].to_vec(),
            cx: v.is_complex(),
            fr: v.domain() == DataDomain::Frequency,
            delta: v.delta(),
            set: [
                m.core_limit,
                m.med_dual_core_threshold,
                m.med_multi_core_threshold,
                m.large_dual_core_threshold,
                m.large_multi_core_threshold,
            ],
            broken,
        }
    }
    pub fn model(&self) -> MVec {
        MVec { d: self.d.iter().map(|x| x.d()).collect(), cx: self.cx, fr: self.fr, delta: self.delta.d() }
    }
    pub fn same(&self, o: &Snap<T>) -> bool {
        self.cx == o.cx
            && self.fr == o.fr
            && self.delta.bits() == o.delta.bits()
            && self.set == o.set
            && self.d.len() == o.d.len()
            && self.d.iter().zip(o.d.iter()).all(|(a, b)| a.bits() == b.bits())
    }
    pub fn points(&self) -> usize {
        if self.cx {
            self.d.len() / 2
        } else {
            self.d.len()
        }
    }
    pub fn hash(&self) -> u64 {
        let mut h = combine(self.cx as u64 * 2 + self.fr as u64, self.d.len() as u64);
        h = combine(h, self.delta.bits());
        for x in self.d.iter() {
            h = combine(h, x.bits());
        }
        h
    }
    /// the samples are so large or small that the next operations could not be judged
    pub fn wild(&self) -> bool {
        let dl = self.delta.d();
        if self.broken || !(dl.abs() < 1e5 && dl.abs() > 1e-5) {
            return true;
        }
        self.d.iter().any(|x| {
            let x = x.d();
            !(x.abs() <= 2e4) || (x != 0.0 && x.abs() < 1e-12)
        })
    }
    pub fn show(&self) -> String {
        let n = self.d.len().min(40);
        format!(
            "[{} {} delta {:?} len {}: {:?}{}]",
            if self.cx { "complex" } else { "real" },
            if self.fr { "freq" } else { "time" },
            self.delta,
            self.d.len(),
            &self.d[..n],
            if n < self.d.len() { " .." } else { "" }
        )
    }
}

/// How storage is provided for fresh vectors
#[derive(Clone, Debug)]
pub struct Spare {
    /// stale samples kept behind the valid ones: upper bound, 0 for none
    pub stale: usize,
    /// exactly that many of them
    pub exact: bool,
    /// additional capacity
    pub cap: usize,
    /// content of stale samples
    pub fill: u8,
}
impl Spare {
    pub fn none() -> Spare {
        Spare { stale: 0, exact: false, cap: 0, fill: 0 }
    }
    fn value<T: Num>(&self, i: usize) -> T {
        match self.fill % 5 {
            0 => T::f(-3300.25 - (i % 31) as f64),
            1 => T::nan(),
            2 => T::infinity(),
            3 => T::f(5.5e6),
            _ => T::f(0.0),
        }
    }
}

/// A kind of storage
pub trait Kind<T: Num> {
    type S: Store<T> + 'static;
    type B: for<'a> Buffer<'a, Self::S, T>;
    const NAME: &'static str;
    /// None: doesn't fit
    fn make(&mut self, data: &[T], cx: bool, fr: bool, stale: &[T], cap: usize) -> Option<GenDspVec<Self::S, T>>;
    fn buf(&mut self, kind: usize, len: usize, dirt: Dirt) -> Self::B;
    fn run(regs: &mut [Option<GenDspVec<Self::S, T>>], b: &mut Self::B, op: &Op) -> Outcome;
    fn read(v: &GenDspVec<Self::S, T>, o: Option<&GenDspVec<Self::S, T>>, op: &Op) -> Option<Outcome>;
    fn get(v: &GenDspVec<Self::S, T>, o: &mut [&mut GenDspVec<Self::S, T>], op: &Op) -> Outcome;
    fn change(v: &mut GenDspVec<Self::S, T>, b: &mut Self::B, o: &[&GenDspVec<Self::S, T>], op: &Op) -> Outcome;
    fn consume(v: GenDspVec<Self::S, T>, b: &mut Self::B, op: &Op) -> (GenDspVec<Self::S, T>, R);
    fn limit(&self) -> usize {
        usize::MAX
    }
    fn growable(&self) -> bool {
        true
    }
    /// samples the storage of a vector may take
    fn room(v: &GenDspVec<Self::S, T>) -> usize {
        ToSlice::<T>::alloc_len(&v.data)
    }
}

macro_rules! instances {
    ($all:ident, $read:ident, $get:ident, $mut:ident, $consume:ident) => {
        fn run(regs: &mut [Option<GenDspVec<Self::S, T>>], b: &mut Self::B, op: &Op) -> Outcome {
            T::$all(regs, b, op)
        }
        fn read(v: &GenDspVec<Self::S, T>, o: Option<&GenDspVec<Self::S, T>>, op: &Op) -> Option<Outcome> {
            T::$read(v, o, op)
        }
        fn get(v: &GenDspVec<Self::S, T>, o: &mut [&mut GenDspVec<Self::S, T>], op: &Op) -> Outcome {
            T::$get(v, o, op)
        }
        fn change(v: &mut GenDspVec<Self::S, T>, b: &mut Self::B, o: &[&GenDspVec<Self::S, T>], op: &Op) -> Outcome {
            T::$mut(v, b, o, op)
        }
        fn consume(v: GenDspVec<Self::S, T>, b: &mut Self::B, op: &Op) -> (GenDspVec<Self::S, T>, R) {
            T::$consume(v, b, op)
        }
    };
}

pub struct VecKind;
impl<T: Num> Kind<T> for VecKind {
    instances!(vec_all, vec_read, vec_get, vec_mut, vec_consume);
    type S = Vec<T>;
    type B = VecBuf<T>;
    const NAME: &'static str = "Vec";
    fn make(&mut self, data: &[T], cx: bool, fr: bool, stale: &[T], cap: usize) -> Option<GenDspVec<Vec<T>, T>> {
        let mut v = Vec::with_capacity(data.len() + stale.len() + cap);
        v.extend_from_slice(data);
        v.extend_from_slice(stale);
        let mut g = v.to_gen_dsp_vec(cx, if fr { DataDomain::Frequency } else { DataDomain::Time });
        if !stale.is_empty() && g.resize(data.len()).is_err() {
            return None;
        }
        Some(g)
    }
    fn buf(&mut self, kind: usize, len: usize, dirt: Dirt) -> VecBuf<T> {
        VecBuf::new(kind, len, dirt)
    }
}

pub struct SimKind {
    pub limit: usize,
    pub slack: usize,
    pub shrinks: bool,
}
impl<T: Num> Kind<T> for SimKind {
    instances!(sim_all, sim_read, sim_get, sim_mut, sim_consume);
    type S = SimStore<T>;
    type B = AnyBuf<SimStore<T>, T>;
    const NAME: &'static str = "SimStore";
    fn make(&mut self, data: &[T], cx: bool, fr: bool, stale: &[T], cap: usize) -> Option<GenDspVec<SimStore<T>, T>> {
        let mut d = data.to_vec();
        d.extend_from_slice(stale);
        if d.len() > self.limit {
            d.truncate(self.limit.max(data.len()));
        }
        let n = d.len();
        let s = SimStore::new(&d, self.limit, self.slack + cap, self.shrinks);
        let mut g = gen_from(s, cx, fr);
        if n != data.len() && g.resize(data.len()).is_err() {
            return None;
        }
        Some(g)
    }
    fn buf(&mut self, kind: usize, len: usize, dirt: Dirt) -> Self::B {
        if kind == BUF_FIXED {
            let mut v = vec![T::zero(); len];
            dirt.fill(&mut v);
            AnyBuf::Fixed(FixedLenBuffer::new(SimStore::new(&v, self.limit.max(len), self.slack, self.shrinks)))
        } else {
            AnyBuf::Dirty(dirt)
        }
    }
    fn limit(&self) -> usize {
        self.limit
    }
    fn room(v: &GenDspVec<Self::S, T>) -> usize {
        v.data.limit.max(v.data.alloc_len())
    }
}

pub struct BoxKind;
impl<T: Num> Kind<T> for BoxKind {
    instances!(boxed_all, boxed_read, boxed_get, boxed_mut, boxed_consume);
    type S = Box<[T]>;
    type B = AnyBuf<Box<[T]>, T>;
    const NAME: &'static str = "Box";
    fn make(&mut self, data: &[T], cx: bool, fr: bool, stale: &[T], _cap: usize) -> Option<GenDspVec<Box<[T]>, T>> {
        let mut d = data.to_vec();
        d.extend_from_slice(stale);
        let mut g = d.into_boxed_slice().to_gen_dsp_vec(cx, if fr { DataDomain::Frequency } else { DataDomain::Time });
        if !stale.is_empty() && g.resize(data.len()).is_err() {
            return None;
        }
        Some(g)
    }
    fn buf(&mut self, kind: usize, len: usize, dirt: Dirt) -> Self::B {
        if kind == BUF_FIXED {
            let mut v = vec![T::zero(); len];
            dirt.fill(&mut v);
            AnyBuf::Fixed(FixedLenBuffer::new(v.into_boxed_slice()))
        } else {
            AnyBuf::Dirty(dirt)
        }
    }
    fn growable(&self) -> bool {
        false
    }
}

pub struct ArrayKind;
impl<T: Num> Kind<T> for ArrayKind {
    instances!(array_all, array_read, array_get, array_mut, array_consume);
    type S = arrayvec::ArrayVec<T, ACAP>;
    type B = AnyBuf<arrayvec::ArrayVec<T, ACAP>, T>;
    const NAME: &'static str = "ArrayVec";
    fn make(&mut self, data: &[T], cx: bool, fr: bool, stale: &[T], _cap: usize) -> Option<GenDspVec<Self::S, T>> {
        let mut a = arrayvec::ArrayVec::<T, ACAP>::new();
        for x in data.iter().chain(stale.iter()) {
            if a.try_push(*x).is_err() {
                break;
            }
        }
        if a.len() < data.len() {
            return None;
        }
        let full = a.len() != data.len();
        let mut g = a.to_gen_dsp_vec(cx, if fr { DataDomain::Frequency } else { DataDomain::Time });
        if full && g.resize(data.len()).is_err() {
            return None;
        }
        Some(g)
    }
    fn buf(&mut self, kind: usize, len: usize, dirt: Dirt) -> Self::B {
        if kind == BUF_FIXED {
            let mut v = vec![T::zero(); len.min(ACAP)];
            dirt.fill(&mut v);
            let mut a = arrayvec::ArrayVec::<T, ACAP>::new();
            for x in v {
                a.push(x);
            }
            AnyBuf::Fixed(FixedLenBuffer::new(a))
        } else {
            AnyBuf::Dirty(dirt)
        }
    }
    fn limit(&self) -> usize {
        ACAP
    }
    fn room(_: &GenDspVec<Self::S, T>) -> usize {
        ACAP
    }
}

pub struct SliceKind<T> {
    pub owned: Vec<*mut [T]>,
}
impl<T> Drop for SliceKind<T> {
    fn drop(&mut self) {
        for p in self.owned.drain(..) {
            unsafe { drop(Box::from_raw(p)) }
        }
    }
}
impl<T: Num> SliceKind<T> {
    fn lease(&mut self, v: Vec<T>) -> &'static mut [T] {
        let p = Box::into_raw(v.into_boxed_slice());
        self.owned.push(p);
        unsafe { &mut *p }
    }
}
impl<T: Num> Kind<T> for SliceKind<T> {
    instances!(slice_all, slice_read, slice_get, slice_mut, slice_consume);
    type S = &'static mut [T];
    type B = AnyBuf<&'static mut [T], T>;
    const NAME: &'static str = "&mut [T]";
    fn make(&mut self, data: &[T], cx: bool, fr: bool, stale: &[T], _cap: usize) -> Option<GenDspVec<Self::S, T>> {
        let mut d = data.to_vec();
        d.extend_from_slice(stale);
        let s = self.lease(d);
        let mut g = s.to_gen_dsp_vec(cx, if fr { DataDomain::Frequency } else { DataDomain::Time });
        if !stale.is_empty() && g.resize(data.len()).is_err() {
            return None;
        }
        Some(g)
    }
    fn buf(&mut self, kind: usize, len: usize, dirt: Dirt) -> Self::B {
        if kind == BUF_FIXED {
            let mut v = vec![T::zero(); len];
            dirt.fill(&mut v);
            let s = self.lease(v);
            AnyBuf::Fixed(FixedLenBuffer::new(s))
        } else {
            AnyBuf::Dirty(dirt)
        }
    }
    fn growable(&self) -> bool {
        false
    }
}

/// What was observed at one operation
#[derive(Clone, Debug)]
pub struct Obs {
    /// 0 success, > 0 error reason, PANICKED, UNSUPPORTED
    pub status: i32,
    pub rets: Vec<f64>,
    pub panic: String,
    pub injected: bool,
    pub kids: (usize, usize, usize),
    pub calls: u64,
    pub late: u64,
    pub steps: u64,
}

pub struct World<T: Num, K: Kind<T>> {
    pub kind: K,
    pub regs: Vec<Option<GenDspVec<K::S, T>>>,
    pub snaps: Vec<Option<Snap<T>>>,
    pub bufs: Vec<K::B>,
    pub spare: Spare,
    pub logging: bool,
    pub serial: u64,
}

pub fn status_name(s: i32) -> String {
    match s {
        0 => "Ok".to_string(),
        PANICKED => "panic".to_string(),
        x => format!("Err({})", reason_name(x)),
    }
}

impl<T: Num, K: Kind<T>> World<T, K> {
    pub fn new(kind: K, nregs: usize, spare: Spare) -> World<T, K> {
        World {
            kind,
            regs: (0..nregs).map(|_| None).collect(),
            snaps: (0..nregs).map(|_| None).collect(),
            bufs: Vec::new(),
            spare,
            logging: false,
            serial: 0,
        }
    }
    pub fn model(&self) -> Vec<Option<MVec>> {
        self.snaps.iter().map(|s| s.as_ref().map(|s| s.model())).collect()
    }
    pub fn refresh(&mut self, i: usize) {
        let r = &self.regs[i];
        let s = outside(|| r.as_ref().map(|v| Snap::of(v)));
        let old = std::mem::replace(&mut self.snaps[i], s);
        outside(|| drop(old));
    }
    /// everything which isn't a library operation
    pub fn setup(&mut self, item: &Item) {
        match item {
            Item::Fill(f) => {
                bump(C::refills, 1);
                self.serial += 1;
                let data: Vec<T> = samples(f).iter().map(|x| T::f(*x)).collect();
                let (mut ns, mut cap) = (0, 0);
                let h = combine(self.serial, 5);
                if self.spare.stale > 0 {
                    ns = if self.spare.exact { self.spare.stale } else { (h % (self.spare.stale as u64 + 1)) as usize };
                    bump(C::fault_stale_spare, (ns > 0) as u64);
                }
                if self.spare.cap > 0 {
                    cap = ((h >> 20) % (self.spare.cap as u64 + 1)) as usize;
                }
                if f.cx {
                    ns &= !1;
                }
                let stale: Vec<T> = (0..ns).map(|i| self.spare.value(i)).collect();
                self.regs[f.reg] = None;
                let lim = self.kind.limit();
                let n = data.len().min(if f.cx { lim & !1 } else { lim });
                let g = self.kind.make(&data[..n], f.cx, f.fr, &stale, cap);
                if let Some(mut g) = g {
                    g.set_delta(T::f(f.delta));
                    g.set_multicore_settings(settings(&f.set));
                    self.regs[f.reg] = Some(g);
                }
                self.refresh(f.reg);
            }
            Item::Buf(i, k, l, d) => {
                while self.bufs.len() <= *i {
                    let b = self.kind.buf(BUF_DIRTY, 0, Dirt { mode: 0 });
                    self.bufs.push(b);
                }
                let b = self.kind.buf(*k, *l, Dirt { mode: *d });
                self.bufs[*i] = b;
            }
            Item::Set(r, s) => {
                if let Some(ref mut v) = self.regs[*r] {
                    v.set_multicore_settings(settings(s));
                }
                self.refresh(*r);
            }
            Item::Drop(r) => {
                self.regs[*r] = None;
                self.refresh(*r);
            }
            Item::Mend(r, from) => {
                if let Some(ref mut v) = self.regs[*r] {
                    let n = v.len();
                    let d = v.data.to_slice_mut();
                    for i in *from..n.min(d.len()) {
                        d[i] = T::f(((i % 5) as f64) * 0.5 + 0.25);
                    }
                }
                self.refresh(*r);
            }
            Item::Op(_) => unreachable!(),
        }
    }
    /// Runs one operation. Snapshots are refreshed.
    pub fn op(&mut self, op: &Op) -> Obs {
        outside(|| {
            let t = op.show();
            context(&t);
        });
        while self.bufs.len() <= op.buf {
            let b = self.kind.buf(BUF_DIRTY, 0, Dirt { mode: 0 });
            self.bufs.push(b);
        }
        reset_panic();
        let panics0 = calls::panics();
        let count0 = calls::count();
        let late0 = calls::late();
        let faults0 = sched::spawn_faults();
        sched::reset_kids();
        let steps0 = sched::steps();
        calls::open(self.logging);
        let regs = &mut self.regs;
        let buf = &mut self.bufs[op.buf];
        let r = catch_unwind(AssertUnwindSafe(|| K::run(regs, buf, op)));
        calls::close();
        let kids = sched::kids();
        let steps = sched::steps() - steps0;
        bump(C::ops, 1);
        bump(C::user_calls, calls::count() - count0);
        if kids.2 > 0 {
            bump(C::parallel_ops, 1);
        }
        shm().ops[op.k as usize] += 1;
        let mut obs = match r {
            Ok(o) => {
                let o2 = outside(|| Obs {
                    status: match o.status {
                        Ok(()) => 0,
                        Err(e) => e,
                    },
                    rets: o.rets.clone(),
                    panic: String::new(),
                    injected: false,
                    kids,
                    calls: 0,
                    late: 0,
                    steps,
                });
                drop(o);
                o2
            }
            Err(p) => {
                drop(p);
                outside(|| Obs { status: PANICKED, rets: vec![], panic: take_panic(), injected: false, kids, calls: 0, late: 0, steps })
            }
        };
        obs.calls = calls::count() - count0;
        obs.late = calls::late() - late0;
        obs.injected = calls::panics() > panics0 || sched::spawn_faults() > faults0;
        for i in 0..self.regs.len() {
            self.refresh(i);
        }
        log(|| {
            let mut s = format!("{} -> {}", op.show(), status_name(obs.status));
            if !obs.panic.is_empty() {
                s += &format!(" {}", obs.panic);
            }
            if !obs.rets.is_empty() {
                s += &format!(" {:?}", obs.rets);
            }
            if let Some(Some(v)) = self.snaps.get(op.t) {
                s += &format!("\n      r{} {}", op.t, v.show());
            }
            s
        });
        obs
    }
    pub fn hash(&self) -> u64 {
        let mut h = 0;
        for s in self.snaps.iter() {
            h = combine(h, s.as_ref().map(|s| s.hash()).unwrap_or(1));
        }
        h
    }
    /// abstract state: kind of each vector and rough length
    pub fn shape(&self, op: &Op, obs: &Obs) -> u64 {
        let mut h = combine(op.k as u64, obs.status as u64);
        for s in std::iter::once(&op.t).chain(op.others()) {
            if let Some(Some(s)) = self.snaps.get(*s) {
                h = combine(h, (s.cx as u64) | (s.fr as u64) << 1 | (s.d.len() as u64) << 2);
                h = combine(h, s.set[0] as u64);
            }
        }
        combine(h, obs.kids.2 as u64)
    }
}
