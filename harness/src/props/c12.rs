//! C12: round trips.

use super::serde::{back_to_back, bounded, budget, round_trip};
use crate::codec::{derived_types, nth_type, pick_type, std_types};
use crate::core::Run;

pub fn run(run: &mut Run) {
    let all = std_types().len() + derived_types().len();
    let n = run.n(all as u64 / 6, 60_000, 2_000_000);
    run.group("values", n, &|m, r, i| {
        let i = if cfg!(miri) { r.below(all) } else { i as usize % all };
        let t = if i < std_types().len() { &std_types()[i] } else { &derived_types()[i - std_types().len()] };
        let size = budget(r);
        let v = t.gen(r, size);
        round_trip(m, r, &**t, &*v);
    });
    let n = run.n(0, 3_000, 60_000);
    run.group("boundaries", n, &|m, r, i| {
        let t = nth_type(i as usize);
        if let Some(v) = bounded(m, r, t, false) {
            round_trip(m, r, t, &*v);
        }
    });
    let n = run.n(4, 8_000, 300_000);
    run.group("sequences", n, &|m, r, _| back_to_back(m, r, &pick_type));
}
