//! C13: output is canonical DER of the announced size.

use super::serde::{bounded, budget, encode};
use crate::codec::{derived_types, el, nth_type, std_types, Mode};
use crate::core::{hex, Run};
use bsn1::DerRef;

pub fn run(run: &mut Run) {
    let all = std_types().len() + derived_types().len();
    let n = run.n(all as u64 / 6, 80_000, 3_000_000);
    run.group("values", n, &|m, r, i| {
        let i = if cfg!(miri) { r.below(all) } else { i as usize % all };
        let t = if i < std_types().len() { &std_types()[i] } else { &derived_types()[i - std_types().len()] };
        let size = budget(r);
        let v = t.gen(r, size);
        encode(m, &**t, &*v);
    });
    let n = run.n(0, 6_000, 120_000);
    run.group("boundaries", n, &|m, r, i| {
        let t = nth_type(i as usize);
        if let Some(v) = bounded(m, r, t, true) {
            encode(m, t, &*v);
        }
    });
    // Equal values built in other ways: hash tables differ in order and capacity.
    let n = run.n(4, 10_000, 300_000);
    run.group("equal values", n, &|m, r, i| {
        let t = &std_types()[i as usize % std_types().len()];
        let size = budget(r).min(400);
        let v = t.gen(r, size);
        let b = v.node().der();
        let Ok((e, _)) = el(&b, Mode::Der) else { return };
        let Ok(w) = t.dec(&e, Mode::Der) else { return };
        if !w.same(&*v) {
            return;
        }
        let x = m.guard("to_der", || (v.to_der(), w.to_der(), v.copy().to_der()));
        if let Some((Ok(x), Ok(y), Ok(z))) = x {
            let (x, y, z): (&DerRef, &DerRef, &DerRef) = (&x, &y, &z);
            m.check(x.as_ref() as &[u8] == y.as_ref() as &[u8] && x == z, || {
                format!("{}: equal values written as {} and {}", t.name(), hex(x.as_ref()), hex(y.as_ref()))
            });
            m.ev("equal values compared");
        }
    });
}
