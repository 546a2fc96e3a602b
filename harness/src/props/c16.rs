//! C16: derived types, against the model made from their attributes.

use super::serde::{back_to_back, bounded, budget, encode, forms, hostile, judge_all, round_trip, sinks};
use crate::codec::{Ty, Types};
use crate::core::Run;
use crate::rng::Rng;

pub fn run(run: &mut Run, types: &'static Types) {
    let all = types.len();
    assert!(all > 0, "no derived types");
    let pick = move |r: &mut Rng| -> &'static dyn Ty { &*types[r.below(all)] };
    let n = run.n(all as u64 / 4, 30_000, 600_000);
    run.group("values", n, &|m, r, i| {
        let t = &*types[if cfg!(miri) { r.below(all) } else { i as usize % all }];
        let size = budget(r).min(3000);
        let v = t.gen(r, size);
        encode(m, t, &*v);
        round_trip(m, r, t, &*v);
        // what the deserializer expects, where that differs
        judge_all(m, r, t, &v.wire().der());
        if r.chance(1, 4) {
            forms(m, r, t, &*v);
        }
        if r.chance(1, 8) {
            sinks(m, r, t, &*v);
        }
        m.ev("values");
    });
    let n = run.n(all as u64 / 4, 60_000, 1_200_000);
    run.group("elements", n, &|m, r, i| {
        let t = &*types[if cfg!(miri) { r.below(all) } else { i as usize % all }];
        hostile(m, r, t, &pick);
        m.ev("elements");
    });
    let n = run.n(0, 1_500, 30_000);
    run.group("boundaries", n, &|m, r, i| {
        let t = &*types[i as usize % all];
        if let Some(v) = bounded(m, r, t, false) {
            encode(m, t, &*v);
            round_trip(m, r, t, &*v);
            judge_all(m, r, t, &v.wire().der());
        }
    });
    let n = run.n(2, 2_000, 40_000);
    run.group("sequences", n, &|m, r, _| back_to_back(m, r, &pick));
    m_types(run, types);
}

fn m_types(run: &mut Run, types: &'static Types) {
    run.group("types", types.len() as u64, &|m, _, i| {
        m.evals += 1;
        m.ev("derived types");
        m.sample(|| types[i as usize].name().to_string());
    });
}
