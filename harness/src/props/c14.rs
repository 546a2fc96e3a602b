//! C14: what deserialization makes of arbitrary elements.

use super::serde::{hostile, judge_all};
use crate::codec::{derived_types, pick_type, std_types, Ty};
use crate::core::Run;
use crate::gens;
use crate::model::enc_tlv;

fn nth(i: usize) -> &'static dyn Ty {
    let s = std_types();
    if i < s.len() {
        &*s[i]
    } else {
        &*derived_types()[i - s.len()]
    }
}

pub fn run(run: &mut Run) {
    let all = std_types().len() + derived_types().len();
    let n = run.n(all as u64 / 4, 150_000, 5_000_000);
    run.group("elements", n, &|m, r, i| {
        let i = if cfg!(miri) { r.below(all) } else { i as usize % all };
        hostile(m, r, nth(i), &pick_type);
    });
    // every short primitive contents, as every scalar type
    let n = run.n(8, 65_536 + 257, 65_536 + 257);
    run.group("short contents", n, &|m, r, i| {
        let b = match i {
            _ if cfg!(miri) => r.bytes(2),
            0 => vec![],
            1..=256 => vec![(i - 1) as u8],
            _ => vec![((i - 257) >> 8) as u8, (i - 257) as u8],
        };
        for k in 0..15 {
            let t = nth(k);
            let id = match t.name() {
                "bool" => 1,
                "String" => 12,
                "Oct" => 4,
                _ => 2,
            };
            if b.len() == 2 && (r.chance(3, 4) || cfg!(miri)) {
                continue;
            }
            judge_all(m, r, t, &enc_tlv(&[id], &b));
        }
    });
    // short elements over the octets that matter, as every type
    const A: &[u8] = &[0x00, 0x01, 0x02, 0x03, 0x04, 0x0c, 0x30, 0x31, 0x80, 0xff];
    let len = if cfg!(miri) { 3 } else { 5 };
    let total = gens::enumeration_size(A.len() as u64, len);
    let n = run.n(6, 12_000, total);
    run.group("short elements", n, &|m, r, i| {
        let i = if n < total { r.below(total as usize) as u64 } else { i };
        let Some(body) = gens::enumerate(A, i, len as usize) else { return };
        for k in 0..all {
            if cfg!(miri) && !r.chance(1, 20) {
                continue;
            }
            let t = nth(k);
            if body.len() > 1 && r.chance(1, 2) {
                // as contents of the outer element
                let id = if r.chance(1, 2) { 0x30 } else { 0x31 };
                judge_all(m, r, t, &enc_tlv(&[id], &body));
            } else {
                judge_all(m, r, t, &body);
            }
        }
    });
}
