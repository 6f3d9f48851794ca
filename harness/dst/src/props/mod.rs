//! The workloads, one per property.
#![allow(unused_imports)]
use crate::env::*;
use crate::gen::*;
use crate::prog::*;
use crate::world::*;
use refmodel::ops::{Op, K};
use refmodel::elem::Ctx;
use simrt::{alloc, sched, Tape};
use subject::num::Num;

mod p01;
#[cfg(feature = "p02")]
mod p02;
mod p03;
mod p04;
#[cfg(feature = "p05")]
mod p05;
#[cfg(feature = "p06")]
mod p06;
#[cfg(feature = "p07")]
mod p07;
#[cfg(feature = "p13")]
mod p13;
#[cfg(feature = "p08")]
mod p08;
#[cfg(feature = "p16")]
mod p16;
#[cfg(feature = "p10")]
mod p10;
#[cfg(feature = "p12")]
mod p12;
#[cfg(feature = "p09")]
mod p09;
#[cfg(feature = "p11")]
mod p11;
#[cfg(feature = "p11")]
mod p11conv;
#[cfg(feature = "p14")]
mod p14;
#[cfg(feature = "p15")]
mod p15;
mod twin;

pub fn run(prop: &str, env: &mut Env, t: &mut Tape) -> Res {
    match prop {
        #[cfg(feature = "p01")]
        "P01" => p01::case(env, t),
        #[cfg(feature = "p02")]
        "P02" => p02::case(env, t),
        #[cfg(feature = "p03")]
        "P03" => p03::case(env, t),
        #[cfg(feature = "p04")]
        "P04" => p04::case(env, t),
        #[cfg(feature = "p05")]
        "P05" => p05::case(env, t),
        #[cfg(feature = "p06")]
        "P06" => p06::case(env, t),
        #[cfg(feature = "p07")]
        "P07" => p07::case(env, t),
        #[cfg(feature = "p13")]
        "P13" => p13::case(env, t),
        #[cfg(feature = "p08")]
        "P08" => p08::case(env, t),
        #[cfg(feature = "p16")]
        "P16" => p16::case(env, t),
        #[cfg(feature = "p10")]
        "P10" => p10::case(env, t),
        #[cfg(feature = "p12")]
        "P12" => p12::case(env, t),
        #[cfg(feature = "p09")]
        "P09" => p09::case(env, t),
        #[cfg(feature = "p11")]
        "P11" => p11::case(env, t),
        #[cfg(feature = "p14")]
        "P14" => p14::case(env, t),
        #[cfg(feature = "p15")]
        "P15" => p15::case(env, t),
        _ => violation("no-such-property", prop.to_string()),
    }
}

pub fn is_simd(env: &Env) -> bool {
    env.variant == "sse2" || env.variant == "avx2"
}

pub fn warm_up(env: &mut Env) {
    // asked for by the FFT library and cached by std
    #[cfg(target_arch = "x86_64")]
    let _ = std::is_x86_feature_detected!("avx");
    let cfg = RunCfg { armed: false, ..RunCfg::plain() };
    env.simulate(&cfg, || {
        let mut w: World<f64, VecKind> = World::new(VecKind, 2, Spare::none());
        let set = [2, 0, 1, 0, 1];
        w.setup(&Item::Fill(Fill { reg: 0, points: 16, cx: false, fr: false, delta: 1.0, seed: 1, style: 0, dc_real: false, set }));
        w.op(&Op::new(K::Sin, 0));
        w.op(&Op::new(K::MapAggReal, 0));
        let _ = std::panic::catch_unwind(|| panic!("warm up"));
        // the calibration of the thresholds happens once per process
        #[cfg(feature = "p15")]
        let _ = basic_dsp_vector::MultiCoreSettings::new(2);
    });
}

/// seeds and strategy of the scheduler
pub fn draw_sched(t: &mut Tape) -> sched::Config {
    let mut c = sched::Config::plain();
    c.strategy = match t.draw(10) {
        0 => sched::Strategy::Cooperative,
        1 => sched::Strategy::Random(3),
        2 => sched::Strategy::Random(10),
        3 => sched::Strategy::Random(40),
        4 => sched::Strategy::Random(150),
        5 => sched::Strategy::Priority(1000),
        6 => sched::Strategy::Priority(40),
        7 => sched::Strategy::RoundRobin,
        8 => sched::Strategy::Lifo,
        _ => sched::Strategy::Random(20),
    };
    c.seed = t.draw(1 << 32);
    if t.one_in(5) {
        c.spurious_one_in = 4;
    }
    c
}
/// how often user functions use the library themselves
pub fn draw_nest(t: &mut Tape) -> u32 {
    if t.one_in(4) {
        *t.pick(&[1u32, 5, 30])
    } else {
        0
    }
}
pub fn draw_alloc(t: &mut Tape, misalign: bool, guard: bool) -> alloc::AllocConfig {
    let mut c = alloc::AllocConfig::plain();
    c.seed = t.draw(1 << 32);
    c.poison = *t.pick(&[0xA5u8, 0x00, 0xFF, 0x7F, 0x41]);
    c.misalign = misalign;
    if guard && t.flag() {
        c.guard_one_in = *t.pick(&[1u64, 2, 4]);
    }
    c
}

pub fn leaks(env: &mut Env, out: &RunOut) -> Res {
    if out.stats.threads_left > 0 {
        env.report("threads-left:run", || format!("{} threads are still alive at the end", out.stats.threads_left))?;
    }
    if out.ledger.live > 0 {
        env.report("leak:run", || format!("{} blocks ({} bytes) are still allocated at the end", out.ledger.live, out.ledger.live_bytes))?;
    }
    Ok(())
}
