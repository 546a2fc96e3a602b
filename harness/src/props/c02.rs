//! C02: length octets and length values correspond one to one.

use crate::core::{hex, Mon, Run, Tier};
use crate::gens;
use crate::io::{End, ScriptReader};
use crate::model::{self, enc_len, kind, Kinds};
use crate::rng::Rng;
use bsn1::Length;
use std::cmp::Ordering;

fn value(m: &mut Mon, n: usize) {
    let want = enc_len(n);
    let l = Length::Definite(n);
    let Some(got) = m.guard("to_bytes", || l.to_bytes().to_vec()) else { return };
    m.eq_bytes("Length::to_bytes", &got, &want);
    m.eq("Length::len", l.len(), want.len());
    m.eq("definite", l.definite(), Some(n));
    m.eq("is_definite", (l.is_definite(), l.is_indefinite()), (true, false));
    let mut b = want.clone();
    b.extend([0x85, 0x00, 0x80]);
    check_bytes(m, &b);
    m.ev("values");
    m.sig_bytes(1, &want);
}

pub fn check_bytes(m: &mut Mon, b: &[u8]) {
    let want = model::len_at(b);
    for mode in 0..2 {
        let mut s = b;
        let mut rd = ScriptReader::new(b, 1, 0, b.len(), End::Eof, Rng::new(0));
        let got = if mode == 0 {
            m.guard("Length::parse(slice)", || Length::parse(&mut s))
        } else {
            m.guard("Length::parse(stream)", || Length::parse(&mut rd))
        };
        let Some(got) = got else { continue };
        let used = if mode == 0 { b.len() - s.len() } else { rd.pos };
        m.evals += 1;
        match (got, want) {
            (Ok(l), Ok((n, d))) => {
                m.eq("length read", l.definite(), d);
                m.eq("octets taken", used, n);
                m.eq("is_indefinite", l.is_indefinite(), d.is_none());
                m.eq("announced size of a parsed length", l.len(), n);
                m.eq_bytes("octets of a parsed length", &l.to_bytes(), &b[..n]);
                m.ev(if d.is_none() { "indefinite" } else { "accepted" });
            }
            (Err(e), Err(k)) => {
                m.check(k.has(kind(&e)), || format!("Length::parse({}) refused as {:?}, want {:?}", hex(b), kind(&e), k));
                m.ev(match kind(&e) {
                    Kinds::UNTERM => "ended early",
                    Kinds::REDUND => "redundant",
                    Kinds::OVER => "overflow",
                    _ => "other refusal",
                });
            }
            (got, _) => m.fail(format!("Length::parse({}): {:?}, want {:?}", hex(b), got.map_err(|e| kind(&e)), want)),
        }
    }
}

fn pair(m: &mut Mon, a: Option<usize>, b: Option<usize>) {
    let mk = |x: Option<usize>| match x {
        Some(n) => Length::Definite(n),
        None => Length::Indefinite,
    };
    let (x, y) = (mk(a), mk(b));
    let want: Option<Ordering> = match (a, b) {
        (Some(a), Some(b)) => Some(a.cmp(&b)),
        _ => None,
    };
    m.eq("partial_cmp", x.partial_cmp(&y), want);
    m.eq(
        "operators",
        [x == y, x != y, x < y, x <= y, x > y, x >= y],
        [
            want == Some(Ordering::Equal),
            want != Some(Ordering::Equal),
            want == Some(Ordering::Less),
            matches!(want, Some(Ordering::Less | Ordering::Equal)),
            want == Some(Ordering::Greater),
            matches!(want, Some(Ordering::Greater | Ordering::Equal)),
        ],
    );
    m.ev("pairs");
    m.sig(match (a, b) {
        (None, None) => 0,
        (None, Some(_)) => 1,
        (Some(_), None) => 2,
        (Some(a), Some(b)) => crate::rng::mix(a as u64 ^ crate::rng::mix(b as u64)),
    });
}

fn num(r: &mut Rng) -> usize {
    match r.below(4) {
        0 => {
            let e = *r.pick(gens::EDGES);
            e
        }
        1 => {
            let k = r.below(usize::BITS as usize);
            (1usize << k).wrapping_add(r.below(5)).wrapping_sub(2)
        }
        2 => r.u64() as usize >> r.below(usize::BITS as usize),
        _ => usize::MAX - r.below(3),
    }
}

pub fn run(run: &mut Run) {
    run.group("indefinite", 1, &|m, _, _| {
        let l = Length::Indefinite;
        m.eq_bytes("to_bytes", &l.to_bytes(), &[0x80]);
        m.eq("len", l.len(), 1);
        m.eq("definite", l.definite(), None);
        m.eq("flags", (l.is_indefinite(), l.is_definite()), (true, false));
        pair(m, None, None);
        check_bytes(m, &[0x80]);
        check_bytes(m, &[0x80, 0x00, 0x00]);
    });
    let dense = run.n(20, 300_000, 20_000_000);
    run.group("small values", dense, &|m, _, i| value(m, i as usize));
    let pw = run.n(30, usize::BITS as u64 * 17, usize::BITS as u64 * 17);
    run.group("powers of two", pw, &|m, r, i| {
        let i = if cfg!(miri) { r.u64() } else { i };
        let k = (i % usize::BITS as u64) as u32;
        let d = (i / usize::BITS as u64 % 17) as usize;
        value(m, (1usize << k).wrapping_add(d).wrapping_sub(8));
    });
    let rnd = run.n(20, 200_000, 10_000_000);
    run.group("random values", rnd, &|m, r, _| {
        let n = num(r);
        value(m, n);
        m.sample(|| format!("length {n}"));
    });
    let ps = run.n(40, 200_000, 5_000_000);
    run.group("comparisons", ps, &|m, r, _| {
        let a = if r.chance(1, 6) { None } else { Some(num(r)) };
        let b = match r.below(6) {
            0 => None,
            1 => a,
            2 => a.map(|n| n.wrapping_add(1)),
            _ => Some(num(r)),
        };
        pair(m, a, b);
    });
    let two = run.n(40, 65_536 + 257, 65_536 + 257);
    run.group("all octet pairs", two, &|m, r, i| {
        let b = match i {
            _ if cfg!(miri) => r.bytes(2),
            0 => vec![],
            1..=256 => vec![(i - 1) as u8],
            _ => vec![((i - 257) >> 8) as u8, (i - 257) as u8],
        };
        check_bytes(m, &b);
        m.sig_bytes(2, &b);
    });
    let all = run.tier == Tier::Thorough;
    let three = run.n(0, 300_000, 1 << 24);
    run.group("octet triples", three, &|m, r, i| {
        let x = if all { i as u32 } else { r.u64() as u32 | 0x80_0000 };
        let b = [(x >> 16) as u8, (x >> 8) as u8, x as u8];
        check_bytes(m, &b);
        m.sig_bytes(3, &b);
    });
    // every number of octets near those of a machine word, on each machine
    run.group("about the word", 15 * 3 * 5, &|m, r, i| {
        let n = (i / 15) as usize;
        let mut b = vec![0x80 | n as u8];
        b.extend(r.bytes((n + i as usize % 3).saturating_sub(1)));
        match (i / 3 % 5, b.get_mut(1)) {
            (0, Some(x)) => *x = 0,
            (1, Some(x)) => *x = 1,
            (2, Some(x)) => *x = 0x80,
            (3, _) => b[1..].fill(0xff),
            (_, Some(x)) => *x |= 1,
            _ => {}
        }
        check_bytes(m, &b);
        m.sig_bytes(5, &b);
    });
    // every count octet, cut and filled in every way around the word size
    let forms = run.n(60, 128 * 14 * 6, 128 * 14 * 60);
    run.group("count forms", forms, &|m, r, i| {
        let i = if cfg!(miri) { r.u64() } else { i };
        let n = (i % 128) as usize;
        let have = (i / 128 % 14) as usize;
        let have = if have < 12 { have } else { n + have - 12 };
        let mut b = vec![0x80 | n as u8];
        b.extend(r.bytes(have));
        match i / (128 * 14) % 6 {
            0 if have > 0 => b[1] = 0,
            1 if have > 0 => b[1] = 1,
            2 => b[1..].fill(0xff),
            3 if have > 0 => b[1] = 0x7f,
            4 if have > 0 => b[1] = 0x80,
            _ => {}
        }
        check_bytes(m, &b);
        m.sig_bytes(4, &b);
        m.sample(|| hex(&b));
    });
}
