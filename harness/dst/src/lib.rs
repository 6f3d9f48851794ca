//! Deterministic simulation of basic_dsp: see /verif/DESIGN.md.
#![allow(dead_code)]
pub mod check;
pub mod driver;
pub mod env;
pub mod gen;
pub mod prog;
pub mod props;
pub mod world;

use simrt::alloc::SimAlloc;

#[global_allocator]
static A: SimAlloc = SimAlloc;

pub fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| -> String { args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned().unwrap_or(d.to_string()) };
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") | Some("show") => {
            let known = get("--known", "");
            let known: Vec<String> = if known.is_empty() {
                vec![]
            } else {
                std::fs::read_to_string(&known).unwrap_or_default().lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty()).collect()
            };
            let a = driver::Args {
                property: get("--property", "P13"),
                tier: get("--tier", "quick"),
                seed: get("--seed", "1").parse().unwrap_or(1),
                variant: get("--variant", "std"),
                cases: get("--cases", "100").parse().unwrap_or(100),
                workers: get("--workers", "8").parse().unwrap_or(8),
                wall: get("--wall", "60").parse().unwrap_or(60.0),
                out: get("--out", ""),
                replays: get("--replays", "/tmp"),
                known,
            };
            if args[1] == "show" {
                driver::show_case(&a, get("--case", "0").parse().unwrap_or(0))
            } else {
                driver::check(&a)
            }
        }
        Some("replay") => driver::replay(&args[2]),
        _ => {
            eprintln!("usage: dst check --property P --tier T --seed N --variant V --cases N --out F | replay FILE");
            2
        }
    };
    std::process::exit(code);
}
