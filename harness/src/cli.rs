//! Command line of the monitor programs.

use crate::codec::Types;
use crate::core::{Run, Tier};

pub fn run(derived: fn() -> &'static Types) {
    // Captured backtraces are not the library's memory.
    std::env::set_var("RUST_BACKTRACE", "0");
    std::env::set_var("RUST_LIB_BACKTRACE", "0");
    let mut args = std::env::args().skip(1);
    let prop = args.next().expect("property id");
    let (mut seed, mut tier, mut only, mut threads) = (1u64, Tier::Quick, None, 8usize);
    let mut scale = 1.0;
    let mut part = String::new();
    while let Some(a) = args.next() {
        let v = args.next().expect("value");
        match a.as_str() {
            "--seed" => seed = v.parse().expect("seed"),
            "--tier" => {
                tier = match v.as_str() {
                    "tiny" => Tier::Tiny,
                    "quick" => Tier::Quick,
                    "thorough" => Tier::Thorough,
                    _ => panic!("tier"),
                }
            }
            "--case" => {
                let (g, i) = v.rsplit_once(':').expect("group:index");
                only = Some((g.to_string(), i.parse().expect("index")));
            }
            "--threads" => threads = v.parse().expect("threads"),
            "--scale" => scale = v.parse().expect("scale"),
            "--part" => part = v,
            _ => panic!("unknown option {a}"),
        }
    }
    if cfg!(miri) {
        threads = 1;
    }
    let mut run = Run::new(&prop, seed, tier, only, threads);
    run.scale = scale;
    if part == "muted" {
        // The sanitizer or interpreter decides, not the oracles.
        crate::core::MUTED.store(true, std::sync::atomic::Ordering::Relaxed);
    }
    crate::props::dispatch(&prop, &part, &mut run, derived);
    let code = run.finish();
    // Under Miri a plain return lets the leak check happen.
    if code != 0 || !cfg!(miri) {
        std::process::exit(code);
    }
}
