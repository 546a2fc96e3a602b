//! C15: definite and indefinite encodings.

use super::serde::{bounded, budget, forms};
use crate::codec::{derived_types, nth_type, std_types};
use crate::core::Run;

pub fn run(run: &mut Run) {
    let all = std_types().len() + derived_types().len();
    let n = run.n(all as u64 / 6, 20_000, 700_000);
    run.group("forms", n, &|m, r, i| {
        let i = if cfg!(miri) { r.below(all) } else { i as usize % all };
        let t = if i < std_types().len() { &std_types()[i] } else { &derived_types()[i - std_types().len()] };
        let size = budget(r).min(200);
        let v = t.gen(r, size);
        forms(m, r, &**t, &*v);
    });
    let n = run.n(0, 600, 12_000);
    run.group("boundaries", n, &|m, r, i| {
        let t = nth_type(i as usize);
        if let Some(v) = bounded(m, r, t, false) {
            forms(m, r, t, &*v);
        }
    });
    // one long chain of nested levels
    let deep = derived_types().iter().find(|t| t.name() == "Tree");
    if let Some(t) = deep {
        let n = run.n(1, 60, 2_000);
        run.group("deep", n, &|m, r, _| {
            let s = if cfg!(miri) { 3 } else { 3 + r.below(150) };
            let v = t.gen(r, s);
            forms(m, r, &**t, &*v);
            m.max("levels", v.node().depth() as u64);
        });
    }
}
