//! C18: faulty sinks.

use super::serde::{bounded, budget, sinks};
use crate::codec::{derived_types, nth_type, std_types};
use crate::core::Run;

pub fn run(run: &mut Run) {
    let all = std_types().len() + derived_types().len();
    let n = run.n(all as u64 / 6, 40_000, 1_500_000);
    run.group("values", n, &|m, r, i| {
        let i = if cfg!(miri) { r.below(all) } else { i as usize % all };
        let t = if i < std_types().len() { &std_types()[i] } else { &derived_types()[i - std_types().len()] };
        let size = budget(r);
        let v = t.gen(r, size);
        sinks(m, r, &**t, &*v);
    });
    let n = run.n(0, 300, 9_000);
    run.group("boundaries", n, &|m, r, i| {
        let t = nth_type(i as usize);
        if let Some(v) = bounded(m, r, t, false) {
            sinks(m, r, t, &*v);
        }
    });
}
