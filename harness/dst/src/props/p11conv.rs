//! Conversions between storages and vectors, and the indexers.
use super::*;
use basic_dsp_vector::numbers::Complex;
use basic_dsp_vector::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use subject::num::ACAP;

type Bad = (String, String);
type Out = Result<(), Bad>;

/// expected panics aren't remembered
struct Forget;
impl Drop for Forget {
    fn drop(&mut self) {
        reset_panic();
    }
}

fn fail<X>(class: &str, d: String) -> Result<X, Bad> {
    Err((format!("convert:{}", class), d))
}
fn bits<T: Num>(a: &[T], b: &[T]) -> bool {
    a.len() == b.len() && a.iter().zip(b.iter()).all(|(x, y)| x.bits() == y.bits())
}
fn flat<T: Num>(a: &[Complex<T>]) -> Vec<T> {
    a.iter().flat_map(|c| vec![c.re, c.im]).collect()
}

/// metadata and samples right after the construction
fn fresh<S: ToSlice<T>, T: Num, N: NumberSpace, D: Domain>(how: &str, v: &DspVec<S, T, N, D>, want: &[T], cx: bool, fr: bool) -> Out {
    outside(|| {
        let dom = if fr { DataDomain::Frequency } else { DataDomain::Time };
        if v.is_complex() != cx || v.domain() != dom {
            return fail(how, format!("complex {} and domain {:?}", v.is_complex(), v.domain()));
        }
        if v.delta().d() != 1.0 {
            return fail(how, format!("delta is {:?}", v.delta()));
        }
        holds(how, v, want)
    })
}
/// the samples, by all indexers
fn holds<S: ToSlice<T>, T: Num, N: NumberSpace, D: Domain>(how: &str, v: &DspVec<S, T, N, D>, want: &[T]) -> Out {
    outside(|| {
        let len = v.len();
        if len > v.data.to_slice().len() {
            return fail(how, format!("length {} exceeds the storage of {}", len, v.data.to_slice().len()));
        }
        if !bits(v.data(..), want) {
            return fail(how, format!("holds {:?} instead of {:?}", v.data(..), want));
        }
        let points = if v.is_complex() { len / 2 } else { len };
        if v.points() != points {
            return fail(how, format!("{} points but {} samples", v.points(), len));
        }
        let (a, b) = (len / 3, len / 3 + (len - len / 3) / 2);
        if !bits(v.data(a..), &want[a..]) || !bits(v.data(..b), &want[..b]) || !bits(v.data(a..b), &want[a..b]) {
            return fail(how, "ranges of samples differ".to_string());
        }
        if len > 0 && v.data(len - 1).bits() != want[len - 1].bits() {
            return fail(how, "the last sample differs".to_string());
        }
        // samples behind the valid ones aren't reachable
        let _quiet = Forget;
        if catch_unwind(AssertUnwindSafe(|| *v.data(len))).is_ok() || catch_unwind(AssertUnwindSafe(|| v.data(..len + 1).len())).is_ok() {
            return fail(how, format!("sample {} of a vector with {} samples is reachable", len, len));
        }
        Ok(())
    })
}
fn holdsc<S: ToSlice<T>, T: Num, N: ComplexNumberSpace, D: Domain>(how: &str, v: &DspVec<S, T, N, D>, want: &[T]) -> Out {
    outside(|| {
        let p = want.len() / 2;
        let (a, b) = (p / 3, p / 3 + (p - p / 3) / 2);
        if !bits(&flat(v.datac(..)), want)
            || !bits(&flat(v.datac(a..)), &want[2 * a..])
            || !bits(&flat(v.datac(..b)), &want[..2 * b])
            || !bits(&flat(v.datac(a..b)), &want[2 * a..2 * b])
        {
            return fail(how, format!("complex view {:?} instead of {:?}", v.datac(..), want));
        }
        if p > 0 && (v.datac(p - 1).re.bits() != want[2 * p - 2].bits() || v.datac(p - 1).im.bits() != want[2 * p - 1].bits()) {
            return fail(how, "the last complex sample differs".to_string());
        }
        let _quiet = Forget;
        if catch_unwind(AssertUnwindSafe(|| *v.datac(p))).is_ok() {
            return fail(how, format!("complex sample {} of {} is reachable", p, p));
        }
        Ok(())
    })
}

/// Changes the length and the samples; returns the samples the vector has to hold
fn work<S: ToSliceMut<T>, T: Num, N: NumberSpace, D: Domain>(t: &mut Tape, v: &mut DspVec<S, T, N, D>, want: &mut Vec<T>) -> Out {
    let n = outside(|| t.draw(4));
    for _ in 0..n {
        let (to, x) = outside(|| {
            let to = *t.pick(&[0usize, 1, 2, 3, 5, 8, 17]) + if t.flag() { want.len() } else { 0 };
            let to = to.min(want.len() + 9);
            (if v.is_complex() { to & !1 } else { to }, T::f(t.draw(64) as f64 + 0.5))
        });
        let old = v.len();
        let r = v.resize(to);
        if r.is_err() {
            continue;
        }
        let len = v.len();
        outside(|| {
            want.truncate(len);
            for i in old..len {
                v.data_mut(..)[i] = x;
                want.push(x);
            }
            log(|| format!("resize to {} of {}", len, v.alloc_len()));
        });
        let k = outside(|| t.draw(len as u64 + 1) as usize);
        if k < len {
            *v.data_mut(k) = x;
            outside(|| want[k] = x);
        }
        holds("after-resize", v, want)?;
    }
    Ok(())
}

/// what was returned is used like any other Vec
fn own<X: Copy>(t: &mut Tape, mut v: Vec<X>) {
    let k = outside(|| t.draw(5));
    if let Some(x) = v.first().copied() {
        match k {
            0 => {
                for _ in 0..v.capacity() - v.len() + 1 {
                    v.push(x);
                }
            }
            1 => v.shrink_to_fit(),
            2 => {
                v.truncate(1);
                v.shrink_to_fit();
            }
            3 => drop(v.clone().into_boxed_slice()),
            _ => (),
        }
    }
    drop(v);
}

fn back_vec_real<T: Num, D: Domain>(t: &mut Tape, v: DspVec<Vec<T>, T, meta::Real, D>, want: &[T]) -> Out {
    let k = outside(|| t.draw(3));
    match k {
        0 => back_getf(t, v, want),
        1 => {
            let (s, n) = v.get();
            if n > s.len() || !outside(|| bits(&s[..n], want)) {
                return fail("get-real", format!("{} of {:?} instead of {:?}", n, s, want));
            }
            own(t, s);
            Ok(())
        }
        _ => {
            let s: Vec<T> = v.into();
            if !outside(|| bits(&s[..], want)) {
                return fail("into-real", format!("{:?} instead of {:?}", s, want));
            }
            own(t, s);
            Ok(())
        }
    }
}
fn back_vec_complex<T: Num, D: Domain>(t: &mut Tape, v: DspVec<Vec<T>, T, meta::Complex, D>, want: &[T]) -> Out {
    holdsc("vec-complex", &v, want)?;
    let k = outside(|| t.draw(3));
    match k {
        0 => back_getf(t, v, want),
        1 => {
            let (s, n) = v.get();
            if n > s.len() || !outside(|| bits(&flat(&s[..n]), want)) {
                return fail("get-complex", format!("{} of {:?} instead of {:?}", n, s, want));
            }
            own(t, s);
            Ok(())
        }
        _ => {
            let s: Vec<Complex<T>> = v.into();
            if !outside(|| bits(&flat(&s[..]), want)) {
                return fail("into-complex", format!("{:?} instead of {:?}", s, want));
            }
            own(t, s);
            Ok(())
        }
    }
}
fn back_getf<T: Num, N: NumberSpace, D: Domain>(t: &mut Tape, v: DspVec<Vec<T>, T, N, D>, want: &[T]) -> Out {
    let (s, n) = v.getf();
    if n > s.len() || !outside(|| bits(&s[..n], want)) {
        return fail("getf", format!("{} of {:?} instead of {:?}", n, s, want));
    }
    own(t, s);
    Ok(())
}
fn back_any<S: ToSlice<T>, T: Num, N: NumberSpace, D: Domain>(v: DspVec<S, T, N, D>, want: &[T]) -> Out {
    let (s, n) = v.getf();
    if n > s.to_slice().len() || !outside(|| bits(&s.to_slice()[..n], want)) {
        return fail("getf", format!("{} of {:?} instead of {:?}", n, s.to_slice(), want));
    }
    Ok(())
}

/// reinterprets a vector as one of another type
fn reinterpret<T: Num, N: NumberSpace, D: Domain>(t: &mut Tape, v: DspVec<Vec<T>, T, N, D>, want: &[T]) -> Out {
    let (cx, fr, alloc) = (v.is_complex(), v.domain() == DataDomain::Frequency, v.alloc_len());
    let k = outside(|| t.draw(5));
    macro_rules! to {
        ($target:ty, $cx:expr, $fr:expr) => {{
            let r = <$target>::rededicate_from(v);
            outside(|| {
                if r.is_complex() != $cx || r.alloc_len() != alloc {
                    return fail("rededicate", format!("complex {}, room for {} samples instead of {}", r.is_complex(), r.alloc_len(), alloc));
                }
                // data must not be taken for something else
                if cx == $cx && fr == $fr {
                    if r.len() != 0 {
                        return holds("rededicate", &r, want);
                    }
                } else if r.len() != 0 {
                    return fail("rededicate", format!("complex {} frequency {} became complex {} frequency {} and still has {} samples", cx, fr, $cx, $fr, r.len()));
                }
                Ok(())
            })?;
            back_any(r, if cx == $cx && fr == $fr { want } else { &[] })
        }};
    }
    match k {
        0 => to!(RealTimeVec<Vec<T>, T>, false, false),
        1 => to!(RealFreqVec<Vec<T>, T>, false, true),
        2 => to!(ComplexTimeVec<Vec<T>, T>, true, false),
        3 => to!(ComplexFreqVec<Vec<T>, T>, true, true),
        _ => to!(GenDspVec<Vec<T>, T>, cx, fr),
    }
}

fn dom(fr: bool) -> DataDomain {
    if fr {
        DataDomain::Frequency
    } else {
        DataDomain::Time
    }
}

fn even<T: Num>(d: &[T], cx: bool) -> Vec<T> {
    if cx && d.len() % 2 != 0 {
        vec![]
    } else {
        d.to_vec()
    }
}

fn round<T: Num>(t: &mut Tape) -> Out {
    let len = *t.pick(&[0usize, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 33, 64, 100]);
    let cap = len + *t.pick(&[0usize, 0, 0, 1, 2, 3, 8]);
    let (cx, fr) = (t.flag(), t.flag());
    let kind = t.draw(12);
    let data: Vec<T> = (0..len).map(|i| T::f(i as f64 * 0.5 - 3.25)).collect();
    log(|| format!("conversion {} of {} samples, capacity {}, complex {} frequency {}", kind, len, cap, cx, fr));
    let mut w = even(&data, cx);
    let make = || {
        let mut v: Vec<T> = Vec::with_capacity(cap);
        v.extend_from_slice(&data);
        v
    };
    match kind {
        // a Vec of floats, static types
        0 | 1 => {
            let mut s = make();
            if kind == 1 {
                // what get() returns is fit for another vector
                s.reserve(3);
            }
            macro_rules! with {
                ($make:ident, $back:ident) => {{
                    let room = s.capacity();
                    let mut v = s.$make();
                    fresh("vec", &v, &w, cx, fr)?;
                    if v.alloc_len() != room {
                        return fail("vec", format!("room for {} samples of {}", v.alloc_len(), room));
                    }
                    work(t, &mut v, &mut w)?;
                    if t.one_in(4) {
                        return reinterpret(t, v, &w);
                    }
                    if t.one_in(4) {
                        let c = v.clone();
                        holds("clone", &c, &w)?;
                        $back(t, c, &w)?;
                    }
                    $back(t, v, &w)
                }};
            }
            match (cx, fr) {
                (false, false) => with!(to_real_time_vec, back_vec_real),
                (false, true) => with!(to_real_freq_vec, back_vec_real),
                (true, false) => with!(to_complex_time_vec, back_vec_complex),
                (true, true) => with!(to_complex_freq_vec, back_vec_complex),
            }
        }
        // a Vec of complex numbers
        2 | 3 => {
            let p = len / 2;
            let mut s: Vec<Complex<T>> = Vec::with_capacity(cap);
            for i in 0..p {
                s.push(Complex::new(data[2 * i], data[2 * i + 1]));
            }
            w = data[..2 * p].to_vec();
            macro_rules! with {
                ($make:ident) => {{
                    let room = s.capacity();
                    let mut v = s.$make();
                    fresh("complex-vec", &v, &w, true, fr)?;
                    if v.alloc_len() != 2 * room {
                        return fail("complex-vec", format!("room for {} samples of {}", v.alloc_len(), 2 * room));
                    }
                    work(t, &mut v, &mut w)?;
                    back_vec_complex(t, v, &w)
                }};
            }
            if fr {
                with!(to_complex_freq_vec)
            } else {
                with!(to_complex_time_vec)
            }
        }
        // generic vectors and metadata taken from another vector
        4 => {
            let mut v = make().to_gen_dsp_vec(cx, dom(fr));
            fresh("gen", &v, &w, cx, fr)?;
            work(t, &mut v, &mut w)?;
            if t.flag() {
                return reinterpret(t, v, &w);
            }
            back_getf(t, v, &w)
        }
        5 => {
            let mut other = vec![T::zero(); 4].to_gen_dsp_vec(cx, dom(fr));
            other.set_delta(T::f(0.25));
            let m = other.get_meta_data();
            let mut v = make().to_dsp_vec(&m);
            if v.delta().d() != 0.25 {
                return fail("meta", format!("delta {:?} instead of 0.25", v.delta()));
            }
            if v.is_complex() != cx || v.domain() != dom(fr) {
                return fail("meta", "number space or domain differ".to_string());
            }
            holds("meta", &v, &w)?;
            work(t, &mut v, &mut w)?;
            back_getf(t, v, &w)
        }
        // From
        6 => {
            w = data.clone();
            if cx && len % 2 != 0 {
                return Ok(());
            }
            macro_rules! with {
                ($t:ty, $back:ident) => {{
                    let mut v: $t = make().into();
                    fresh("from", &v, &w, cx, fr)?;
                    work(t, &mut v, &mut w)?;
                    $back(t, v, &w)
                }};
            }
            match (cx, fr) {
                (false, false) => with!(RealTimeVec<Vec<T>, T>, back_vec_real),
                (false, true) => with!(RealFreqVec<Vec<T>, T>, back_vec_real),
                (true, false) => with!(ComplexTimeVec<Vec<T>, T>, back_vec_complex),
                (true, true) => with!(ComplexFreqVec<Vec<T>, T>, back_vec_complex),
            }
        }
        // boxed slices and arrays
        7 | 8 => {
            macro_rules! with {
                ($s:expr) => {{
                    let s = $s;
                    match (t.draw(3), cx, fr) {
                        (0, false, false) => with!(s, to_real_time_vec()),
                        (0, false, true) => with!(s, to_real_freq_vec()),
                        (0, true, false) => with!(s, to_complex_time_vec()),
                        (0, true, true) => with!(s, to_complex_freq_vec()),
                        _ => with!(s, to_gen_dsp_vec(cx, dom(fr))),
                    }
                }};
                ($s:ident, $make:ident ( $($arg:expr),* )) => {{
                    let mut v = $s.$make($($arg),*);
                    fresh("fixed", &v, &w, cx, fr)?;
                    work(t, &mut v, &mut w)?;
                    back_any(v, &w)
                }};
            }
            if kind == 7 {
                with!(make().into_boxed_slice())
            } else {
                let mut a = arrayvec::ArrayVec::<T, ACAP>::new();
                for x in data.iter() {
                    a.push(*x);
                }
                with!(a)
            }
        }
        // slices
        9 => {
            let s = make();
            let s = &s[..];
            macro_rules! with {
                ($v:expr) => {{
                    let v = $v;
                    fresh("slice", &v, &w, cx, fr)?;
                    back_any(v, &w)
                }};
            }
            match (t.draw(3), cx, fr) {
                (0, false, false) => with!(s.to_real_time_vec()),
                (0, false, true) => with!(s.to_real_freq_vec()),
                (0, true, false) => {
                    let v = s.to_complex_time_vec();
                    fresh("slice", &v, &w, cx, fr)?;
                    holdsc("slice", &v, &w)?;
                    let (c, n) = v.get();
                    if n > c.len() || !bits(&flat(&c[..n]), &w) {
                        return fail("slice-get", format!("{} of {:?} instead of {:?}", n, c, w));
                    }
                    Ok(())
                }
                (0, true, true) => with!(s.to_complex_freq_vec()),
                _ => with!(s.to_gen_dsp_vec(cx, dom(fr))),
            }
        }
        10 => {
            let mut s = make();
            {
                let s = &mut s[..];
                match (t.draw(3), cx, fr) {
                    (0, false, false) => {
                        let mut v = s.to_real_time_vec();
                        fresh("mut-slice", &v, &w, cx, fr)?;
                        work(t, &mut v, &mut w)?;
                        back_any(v, &w)?;
                    }
                    (0, true, false) => {
                        let mut v = s.to_complex_time_vec();
                        fresh("mut-slice", &v, &w, cx, fr)?;
                        work(t, &mut v, &mut w)?;
                        holdsc("mut-slice", &v, &w)?;
                        let (c, n) = v.get();
                        if n > c.len() || !bits(&flat(&c[..n]), &w) {
                            return fail("slice-get", format!("{} of {:?} instead of {:?}", n, c, w));
                        }
                    }
                    (0, false, true) => {
                        let mut v = s.to_real_freq_vec();
                        fresh("mut-slice", &v, &w, cx, fr)?;
                        work(t, &mut v, &mut w)?;
                        let (c, n) = v.get();
                        if n > c.len() || !bits(&c[..n], &w) {
                            return fail("slice-get", format!("{} of {:?} instead of {:?}", n, c, w));
                        }
                    }
                    (0, true, true) => {
                        let mut v = s.to_complex_freq_vec();
                        fresh("mut-slice", &v, &w, cx, fr)?;
                        work(t, &mut v, &mut w)?;
                        holdsc("mut-slice", &v, &w)?;
                        back_any(v, &w)?;
                    }
                    _ => {
                        let mut v = s.to_gen_dsp_vec(cx, dom(fr));
                        fresh("mut-slice", &v, &w, cx, fr)?;
                        work(t, &mut v, &mut w)?;
                        back_any(v, &w)?;
                    }
                }
            }
            // the vector worked on the caller's memory
            if !bits(&s[..w.len()], &w) {
                return fail("mut-slice", format!("{:?} instead of {:?}", s, w));
            }
            drop(s);
            Ok(())
        }
        // two slices
        _ => {
            let a = make();
            let n = if t.one_in(4) { len + 1 } else { len };
            let b: Vec<T> = (0..n).map(|i| T::f(100.0 + i as f64)).collect();
            let expect: Vec<T> = data.iter().zip(b.iter()).flat_map(|(x, y)| vec![*x, *y]).collect();
            macro_rules! with {
                ($r:expr) => {
                    match $r {
                        Err(ErrorReason::InputMustHaveTheSameSize) if n != len => Ok(()),
                        Err(e) => fail("interleave", format!("{:?}", e)),
                        Ok(_) if n != len => fail("interleave", format!("{} and {} samples were accepted", len, n)),
                        Ok(mut v) => {
                            fresh("interleave", &v, &expect, true, fr)?;
                            w = expect.clone();
                            work(t, &mut v, &mut w)?;
                            back_vec_complex(t, v, &w)
                        }
                    }
                };
            }
            if fr {
                with!(a.interleave_to_complex_freq_vec(&b))
            } else {
                with!(a.interleave_to_complex_time_vec(&b))
            }
        }
    }
}

pub fn case<T: Num>(env: &mut Env, t: &mut Tape) -> Res {
    let mut cfg = RunCfg::plain();
    let guard = t.flag();
    cfg.alloc = draw_alloc(t, guard, true);
    let n = 1 + t.draw(5);
    let mut e2 = env.inner();
    let (r, out) = env.simulate(&cfg, || {
        for _ in 0..n {
            reset_panic();
            let r = catch_unwind(AssertUnwindSafe(|| round::<T>(t)));
            bump(C::checked, 1);
            bump(C::ops, 1);
            match r {
                Ok(Ok(())) => (),
                Ok(Err((class, d))) => {
                    outside(|| e2.report(&class, || d.clone()))?;
                }
                Err(p) => {
                    drop(p);
                    outside(|| {
                        let d = take_panic();
                        e2.report("convert:panic", || d.clone())
                    })?;
                }
            }
        }
        Ok(())
    });
    r?;
    leaks(env, &out)
}
