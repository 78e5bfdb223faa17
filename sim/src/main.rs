//! Deterministic simulation of linfa-linalg.
//!
//! sim check  --property C01 --tier quick --seed 1 --peer BIN --out DIR   run the check
//! sim worker ...                                                         one slice of the runs
//! sim one    ...                                                         one run, logging its choices
//! sim shrink FILE / sim replay FILE                                      minimise / reproduce a failure

mod alloc;
mod ctx;
mod env;
mod gen;
mod ops;
mod oracle;
mod prng;
mod props;
mod replay;
mod rng;
mod sched;
mod simf;
mod supervise;

use ctx::{Ctx, Res, Tier, V};
use prng::mix2;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[global_allocator]
static ALLOC: alloc::SimAlloc = alloc::SimAlloc;

/// The eight virtual slots of a check; the last two run the build with debug assertions
pub const SLOTS: u64 = 8;
pub fn checked_slot(index: u64) -> bool {
    index % SLOTS >= 6
}

pub fn run_seed(seed: u64, property: &str, index: u64) -> u64 {
    let p = property.bytes().fold(7u64, |h, b| mix2(h, b as u64));
    mix2(mix2(seed, p), index)
}

/// One run, whatever it does
pub fn execute(property: &str, ctx: &mut Ctx) -> Res {
    let f = props::find(property).expect("unknown property").run;
    match catch_unwind(AssertUnwindSafe(|| f(ctx))) {
        Ok(r) => r,
        Err(_) => {
            env::set_yielder(None);
            alloc::set_poison(None);
            Err(V {
                class: "panic-outside".into(),
                msg: format!("call that must not panic did: {}", env::take_panic()),
            })
        }
    }
}

pub fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter()
        .position(|a| a == name)
        .and_then(|i| args.get(i + 1))
        .cloned()
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    env::install_hook();
    let code = match args.first().map(|s| s.as_str()) {
        Some("check") => supervise::check(&args),
        Some("worker") => supervise::worker(&args),
        Some("one") => supervise::one(&args),
        Some("shrink") => supervise::shrink_main(&args),
        Some("replay") => supervise::replay_main(&args),
        Some("cold") => supervise::cold(&args),
        Some("list") => {
            for p in props::PROPS {
                println!("{} {} {}", p.id, p.quick, p.thorough);
            }
            0
        }
        _ => {
            eprintln!("usage: sim check|worker|one|shrink|replay|list");
            2
        }
    };
    std::process::exit(code);
}

pub fn tier_of(s: &str) -> Tier {
    if s == "thorough" {
        Tier::Thorough
    } else {
        Tier::Quick
    }
}
