//! C05: position of the caller's slice or stream after success and failure.

use crate::core::{hex, Mon, Run};
use crate::gens;
use crate::io::{End, ScriptReader};
use crate::model::{self, Kinds};
use crate::rng::Rng;
use bsn1::{Ber, BerRef, Der, DerRef, Id, IdRef, Length};
use std::collections::BTreeMap;

/// Concatenation of elements and junk. Junk is rare, so that cursors get far.
fn stream(r: &mut Rng, junk: usize) -> Vec<u8> {
    let mut b = Vec::new();
    for _ in 0..r.range(1, 9) {
        match r.below(10) {
            0 if junk > 0 => {
                let n = r.below(12);
                b.extend(gens::noisy(r, n));
            }
            1 => {
                let v = r.u64() as i64 >> r.below(63);
                b.extend(AsRef::<[u8]>::as_ref(&Der::from(v)));
            }
            2 => {
                let s = gens::string(r);
                b.extend(AsRef::<[u8]>::as_ref(&Der::from(&s[..])));
            }
            3 if !cfg!(miri) && r.chance(1, 6) => b.extend(gens::deep(r)),
            3 => b.extend([1, 1, 0xff]),
            4 => b.extend([0x30, 0x06, 0x02, 0x01, r.u8(), 0x02, 0x01, r.u8()]),
            5 => b.extend([0x30, 0x80, 0x02, 0x01, r.u8(), 0x00, 0x00]),
            _ => {
                let (d, x) = (r.below(4), r.below(5));
                b.extend(gens::element(r, d, x));
            }
        }
        if b.len() > 20_000 {
            break;
        }
    }
    if junk > 0 && r.chance(1, 3) {
        let n = r.below(b.len() + 1);
        b.truncate(n);
    }
    b
}

/// Call `f` on a cursor; the cursor must move by `want` octets (Ok) or not at all (Err).
fn moved(m: &mut Mon, what: &str, before: &[u8], after: &[u8], want: Result<usize, Kinds>, ok: bool) {
    let n = want.unwrap_or(0);
    m.evals += 1;
    if ok != want.is_ok() {
        m.fail(format!("{what}({}): success {ok}, want {:?}", hex(before), want));
    } else if after.len() != before.len() - n || (after.len() > 0 && after.as_ptr() != before[n..].as_ptr()) {
        m.fail(format!(
            "{what}({}): cursor moved by {} octets, want {} ({})",
            hex(before),
            before.len().wrapping_sub(after.len()) as isize,
            n,
            if ok { "parsed" } else { "refused" }
        ));
    }
    m.ev(if ok { "moved past an element" } else { "refusal left the cursor" });
}

fn serde_call<T: bsn1_serde::de::Deserialize>(entry: usize, s: &mut &[u8]) -> Result<(), bsn1::Error> {
    match entry {
        0 => bsn1_serde::parse_der::<T>(s).map(drop),
        1 => bsn1_serde::parse_ber::<T>(s).map(drop),
        2 => bsn1_serde::read_der::<_, T>(s).map(drop),
        _ => bsn1_serde::read_ber::<_, T>(s).map(drop),
    }
}

const ENTRY: [&str; 4] = ["parse_der", "parse_ber", "read_der", "read_ber"];

fn serde_type(t: usize, entry: usize, s: &mut &[u8]) -> Result<(), bsn1::Error> {
    match t {
        0 => serde_call::<bool>(entry, s),
        1 => serde_call::<i64>(entry, s),
        2 => serde_call::<u8>(entry, s),
        3 => serde_call::<String>(entry, s),
        4 => serde_call::<bsn1_serde::OctetString>(entry, s),
        5 => serde_call::<Vec<u8>>(entry, s),
        6 => serde_call::<Vec<Vec<i32>>>(entry, s),
        _ => serde_call::<BTreeMap<i32, String>>(entry, s),
    }
}

/// What a cursor left behind by a mutable parse shows of `v`.
fn part_of(v: &[u8], (at, len): (*const u8, usize)) -> &[u8] {
    match (at as usize).checked_sub(v.as_ptr() as usize) {
        Some(i) if i <= v.len() && len <= v.len() - i => &v[i..i + len],
        _ => unsafe { std::slice::from_raw_parts(at, len) },
    }
}

/// Walk one cursor with a random mix of entry points.
fn walk(m: &mut Mon, r: &mut Rng, b: &[u8]) {
    let mut pos = 0usize;
    let mut steps = 0u64;
    let mut shape = 0u64;
    for _ in 0..24 {
        let rest = &b[pos..];
        let der = model::tlv_der(rest);
        let ber = model::tlv_ber(rest);
        if ber.odd_eoc {
            break;
        }
        let dlen = der.res.map(|t| t.total);
        let blen = ber.res.map(|t| t.total);
        let op = r.below(12);
        let adv: Option<usize> = match op {
            0 | 1 => {
                let mut s = rest;
                let g = m.guard("DerRef::parse", || DerRef::parse(&mut s).is_ok());
                g.map(|ok| {
                    moved(m, "DerRef::parse", rest, s, dlen, ok);
                    rest.len() - s.len()
                })
            }
            2 | 3 => {
                let mut s = rest;
                let g = m.guard("BerRef::parse", || BerRef::parse(&mut s).is_ok());
                g.map(|ok| {
                    moved(m, "BerRef::parse", rest, s, blen, ok);
                    rest.len() - s.len()
                })
            }
            4 | 5 => {
                let mut v = rest.to_vec();
                let mut s = &mut v[..];
                let (name, want) = if op == 4 { ("DerRef::parse_mut", dlen) } else { ("BerRef::parse_mut", blen) };
                let g = m.guard(name, || {
                    if op == 4 {
                        DerRef::parse_mut(&mut s).is_ok()
                    } else {
                        BerRef::parse_mut(&mut s).is_ok()
                    }
                });
                let left = (s.as_ptr(), s.len());
                g.map(|ok| {
                    let (whole, after) = (&v[..], part_of(&v, left));
                    moved(m, name, whole, after, want, ok);
                    rest.len() - after.len()
                })
            }
            6 | 7 => {
                // owned parsers on a reader: success must consume exactly the element
                let max = *r.pick(&[1usize, 2, 7, usize::MAX]);
                let mut rd = ScriptReader::new(rest, max, 0, rest.len(), End::Eof, r.clone());
                let (name, want) = if op == 6 { ("Der::parse", dlen) } else { ("Ber::parse", blen) };
                let g = m.guard(name, || {
                    if op == 6 {
                        Der::parse(&mut rd).is_ok()
                    } else {
                        Ber::parse(&mut rd).is_ok()
                    }
                });
                match g {
                    Some(true) => {
                        m.eq(name, Ok(rd.pos), want);
                        m.ev("stream moved past an element");
                        Some(rd.pos)
                    }
                    Some(false) => {
                        m.check(want.is_err(), || format!("{name}({}) refused", hex(rest)));
                        Some(0)
                    }
                    None => None,
                }
            }
            8 => {
                // identifier and length alone, then back out
                let want = model::id_at(rest);
                let mut s = rest;
                if let Some(ok) = m.guard("IdRef::parse", || IdRef::parse(&mut s).is_ok()) {
                    moved(m, "IdRef::parse", rest, s, want, ok);
                }
                let mut v = rest.to_vec();
                let mut s = &mut v[..];
                if let Some(ok) = m.guard("IdRef::parse_mut", || IdRef::parse_mut(&mut s).is_ok()) {
                    let left = (s.as_ptr(), s.len());
                    let (whole, after) = (&v[..], part_of(&v, left));
                    moved(m, "IdRef::parse_mut", whole, after, want, ok);
                }
                let mut rd = ScriptReader::plain(rest);
                if let Some(Ok(i)) = m.guard("Id::parse", || Id::parse(&mut rd)) {
                    m.eq("Id::parse taken", rd.pos, i.len());
                    let at = rd.pos;
                    if let (Some(Ok(_)), Ok((n, _))) = (m.guard("Length::parse", || Length::parse(&mut rd)), model::len_at(&rest[at..])) {
                        m.eq("Length::parse taken", rd.pos, at + n);
                    }
                }
                Some(0)
            }
            _ => {
                // straight to a value
                let entry = r.below(4);
                let t = r.below(8);
                let want = if entry % 2 == 0 { dlen } else { blen };
                let mut s = rest;
                let g = m.guard(ENTRY[entry], || serde_type(t, entry, &mut s));
                g.map(|res| {
                    match want {
                        Ok(n) => {
                            // past the element, whether or not the value fits
                            moved(m, ENTRY[entry], rest, s, Ok(n), true);
                            m.ev(if res.is_ok() { "value read" } else { "value refused, element passed" });
                            n
                        }
                        Err(_) => {
                            m.check(res.is_err(), || format!("{} read a value from {}", ENTRY[entry], hex(rest)));
                            if entry < 2 {
                                moved(m, ENTRY[entry], rest, s, want, false);
                            }
                            0
                        }
                    }
                })
            }
        };
        let Some(adv) = adv else { return };
        shape = crate::rng::mix(shape ^ (op as u64) << 32 ^ adv as u64);
        pos += adv;
        steps += 1;
        if adv == 0 && dlen.is_err() && blen.is_err() && op != 8 {
            break;
        }
    }
    m.ev_n("calls on one cursor", steps);
    m.max("longest call sequence", steps);
    m.sig(shape);
    m.sample(|| format!("{steps} calls over {} octets: {}", b.len(), hex(b)));
}

/// A run of elements must come back one by one, each through one entry point.
fn recover(m: &mut Mon, r: &mut Rng) {
    let k = r.range(1, 12);
    let definite = r.chance(1, 2);
    let es: Vec<Vec<u8>> = (0..k).map(|_| {
        let d = r.below(4);
        gens::element(r, d, if definite { 0 } else { 4 })
    }).collect();
    let all: Vec<u8> = es.concat();
    let mut s = &all[..];
    for e in &es {
        match m.guard("BerRef::parse", || BerRef::parse(&mut s).ok()) {
            Some(Some(g)) => {
                m.eq_bytes("element recovered", g.as_ref(), e);
            }
            _ => {
                m.fail(format!("BerRef::parse refused {}", hex(e)));
                return;
            }
        }
    }
    m.eq("nothing left", s.len(), 0);
    let mut v = all.clone();
    {
        let mut s = &mut v[..];
        for e in &es {
            match m.guard("BerRef::parse_mut", || BerRef::parse_mut(&mut s).ok().map(|g| AsRef::<[u8]>::as_ref(g).to_vec())) {
                Some(Some(g)) => {
                    m.eq_bytes("element recovered (mut)", &g, e);
                }
                _ => {
                    m.fail(format!("BerRef::parse_mut refused {}", hex(e)));
                    return;
                }
            }
        }
        m.eq("nothing left (mut)", s.len(), 0);
    }
    let max = *r.pick(&[1usize, 3, 50, usize::MAX]);
    let mut rd = ScriptReader::new(&all, max, 2, all.len(), End::Eof, r.clone());
    for e in &es {
        let ok = if definite {
            m.guard("Der::parse", || Der::parse(&mut rd).ok().map(|d| d.into_vec()))
        } else {
            m.guard("Ber::parse", || Ber::parse(&mut rd).ok().map(|d| d.into_vec()))
        };
        match ok {
            Some(Some(g)) => {
                m.eq_bytes("element recovered (stream)", &g, e);
            }
            _ => {
                m.fail(format!("stream parser refused {}", hex(e)));
                return;
            }
        }
    }
    m.eq("nothing left (stream)", rd.pos, all.len());
    m.ev_n("elements recovered in order", 3 * k as u64);
    m.sig_bytes(9, &all);
}

pub fn run(run: &mut Run) {
    let w = run.n(15, 60_000, 1_500_000);
    run.group("walks", w, &|m, r, _| {
        let b = stream(r, 0);
        walk(m, r, &b);
    });
    run.group("walks with junk", w, &|m, r, _| {
        let b = stream(r, 1);
        walk(m, r, &b);
    });
    let n = run.n(8, 20_000, 500_000);
    run.group("recovery", n, &|m, r, _| recover(m, r));
    let f = run.n(20, 100_000, 2_000_000);
    run.group("refusals", f, &|m, r, _| {
        // mostly-broken single elements, all slice entry points on the same bytes
        let d = r.below(4);
        let mut b = gens::element(r, d, 3);
        gens::mutate(r, &mut b);
        for _ in 0..3 {
            walk(m, r, &b);
        }
    });
}
