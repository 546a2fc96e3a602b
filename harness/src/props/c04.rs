//! C04: parsers accept exactly the well-formed elements and split them right.

use crate::core::{hex, Mon, Run, Tier};
use crate::gens;
use crate::model::{self, kind, Kinds, Parsed};
use crate::rng::Rng;
use bsn1::{Ber, BerRef, Der, DerRef, Error, Length};

struct Parts {
    all: Vec<u8>,
    id: Vec<u8>,
    length: Option<usize>,
    contents: Vec<u8>,
    rest: Option<usize>,
}

fn verdict(m: &mut Mon, what: &str, b: &[u8], got: Result<Parts, Error>, want: &Parsed) {
    m.evals += 1;
    match (got, &want.res) {
        (Ok(p), Ok(t)) => {
            m.ev("accepted");
            if p.all != b[..t.total] || p.id != b[..t.id] || p.length != t.definite || p.contents != b[t.id + t.len..t.total] {
                m.fail(format!(
                    "{what}({}): split as id {} length {:?} contents {} of {}; want {:?}",
                    hex(b),
                    hex(&p.id),
                    p.length,
                    hex(&p.contents),
                    hex(&p.all),
                    t
                ));
            }
            if let Some(rest) = p.rest {
                m.eq("octets left", rest, b.len() - t.total);
            }
        }
        (Err(e), Err(k)) => {
            let g = kind(&e);
            m.check(k.has(g) || (want.odd_eoc && g == Kinds::BADEOC), || {
                format!("{what}({}): refused as {:?}, want {:?}", hex(b), g, k)
            });
            m.ev(match g {
                Kinds::UNTERM => "refused: ended early",
                Kinds::REDUND => "refused: redundant",
                Kinds::OVER => "refused: overflow",
                Kinds::INDEF => "refused: indefinite",
                _ => "refused: other",
            });
        }
        (Err(e), Ok(_)) if want.odd_eoc && kind(&e) == Kinds::BADEOC => {}
        (g, w) => m.fail(format!("{what}({}): {:?}, want {:?}", hex(b), g.map(|p| hex(&p.all)).map_err(|e| kind(&e)), w)),
    }
}

macro_rules! parts {
    ($e:expr, $rest:expr) => {{
        let e = $e;
        let (i, l, c) = e.disassemble();
        let p = Parts {
            all: AsRef::<[u8]>::as_ref(e).to_vec(),
            id: AsRef::<[u8]>::as_ref(i).to_vec(),
            length: l.definite(),
            contents: c.as_ref().to_vec(),
            rest: $rest,
        };
        // The single accessors must tell the same story.
        let same = e.id() == i
            && e.contents() == c
            && e.length().definite() == l.definite()
            && matches!(e.length(), Length::Indefinite) == l.is_indefinite();
        (p, same)
    }};
}

fn done(m: &mut Mon, what: &str, b: &[u8], r: Option<Result<(Parts, bool), Error>>, want: &Parsed) {
    let Some(r) = r else { return };
    let r = r.map(|(p, same)| {
        m.check(same, || format!("{what}({}): accessors disagree with disassemble", hex(b)));
        p
    });
    verdict(m, what, b, r, want);
}

pub fn check(m: &mut Mon, b: &[u8]) {
    let der = model::tlv_der(b);
    let ber = model::tlv_ber(b);
    m.max("deepest indefinite nesting", ber.depth as u64);

    let g = m.guard("DerRef::parse", || {
        let mut s = b;
        DerRef::parse(&mut s).map(|e| parts!(e, Some(s.len())))
    });
    done(m, "DerRef::parse", b, g, &der);
    let g = m.guard("BerRef::parse", || {
        let mut s = b;
        BerRef::parse(&mut s).map(|e| parts!(e, Some(s.len())))
    });
    done(m, "BerRef::parse", b, g, &ber);

    let mut v = b.to_vec();
    let g = m.guard("DerRef::parse_mut", || {
        let mut s = &mut v[..];
        DerRef::parse_mut(&mut s).map(|e| {
            let rest = s.len();
            let x = parts!(&*e, Some(rest));
            let (i, l, c) = e.disassemble_mut();
            let same = AsRef::<[u8]>::as_ref(i) == x.0.id && l.definite() == x.0.length && c.as_ref() == x.0.contents;
            let same = same && AsRef::<[u8]>::as_ref(e.mut_id()) == x.0.id && e.mut_contents().as_ref() == x.0.contents;
            (x.0, x.1 && same)
        })
    });
    done(m, "DerRef::parse_mut", b, g, &der);
    m.eq_bytes("octets after DerRef::parse_mut", &v, b);
    let g = m.guard("BerRef::parse_mut", || {
        let mut s = &mut v[..];
        BerRef::parse_mut(&mut s).map(|e| {
            let rest = s.len();
            let x = parts!(&*e, Some(rest));
            let (i, l, c) = e.disassemble_mut();
            let same = AsRef::<[u8]>::as_ref(i) == x.0.id && l.definite() == x.0.length && c.as_ref() == x.0.contents;
            let same = same && AsRef::<[u8]>::as_ref(e.mut_id()) == x.0.id && e.mut_contents().as_ref() == x.0.contents;
            (x.0, x.1 && same)
        })
    });
    done(m, "BerRef::parse_mut", b, g, &ber);
    m.eq_bytes("octets after BerRef::parse_mut", &v, b);

    let g = m.guard("Der::parse", || {
        let mut s = b;
        Der::parse(&mut s).map(|e| parts!(&*e, Some(s.len())))
    });
    done(m, "Der::parse", b, g, &der);
    let g = m.guard("Ber::parse", || {
        let mut s = b;
        Ber::parse(&mut s).map(|e| parts!(&*e, Some(s.len())))
    });
    done(m, "Ber::parse", b, g, &ber);
}

const ALPHA: &[u8] = &[0x00, 0x01, 0x02, 0x1f, 0x30, 0x3f, 0x7f, 0x80, 0x81, 0x82, 0x88, 0xff];
/// Few symbols, longer strings: nesting and end-of-contents structure.
const NEST: &[u8] = &[0x00, 0x30, 0x80, 0x01];

fn hostile_length(r: &mut Rng) -> Vec<u8> {
    let mut b = gens::id(r);
    let n = r.below(12);
    b.push(0x80 | n as u8);
    let mut l = r.bytes(n);
    if n > 0 && r.chance(1, 3) {
        l[0] = *r.pick(&[0, 1, 0x7f, 0x80, 0xff]);
    }
    if r.chance(1, 3) {
        l.fill(0xff);
    }
    b.extend(l);
    let k = r.below(20);
    b.extend(r.bytes(k));
    b
}

pub fn run(run: &mut Run) {
    let en = run.n(0, gens::enumeration_size(12, 4), gens::enumeration_size(12, 6));
    run.group("small alphabet", en, &|m, _, i| {
        let b = gens::enumerate(ALPHA, i, 6).unwrap();
        check(m, &b);
        m.sig_bytes(1, &b);
    });
    let ne = run.n(0, gens::enumeration_size(4, 8), gens::enumeration_size(4, 11));
    run.group("nesting alphabet", ne, &|m, _, i| {
        let b = gens::enumerate(NEST, i, 11).unwrap();
        check(m, &b);
        m.sig_bytes(2, &b);
    });
    let all = run.tier == Tier::Thorough;
    let three = run.n(0, 65_536 + 257, 65_793 + (1 << 24));
    run.group("all short strings", three, &|m, _, i| {
        let b = match i {
            0 => vec![],
            1..=256 => vec![(i - 1) as u8],
            257..=65_792 => vec![((i - 257) >> 8) as u8, (i - 257) as u8],
            _ => {
                let j = i - 65_793;
                vec![(j >> 16) as u8, (j >> 8) as u8, j as u8]
            }
        };
        check(m, &b);
        m.sig_bytes(3, &b);
    });
    let _ = all;
    let va = run.n(10, 30_000, 600_000);
    run.group("valid elements", va, &|m, r, _| {
        let d = r.below(6);
        let x = r.below(6);
        let mut b = gens::element(r, d, x);
        match r.below(4) {
            0 => {}
            1 => b.extend([0, 0]),
            2 => {
                let n = r.below(20);
                b.extend(gens::noisy(r, n));
            }
            _ => b.extend(gens::element(r, 1, 2)),
        }
        check(m, &b);
        m.sig_bytes(4, &b);
        m.sample(|| hex(&b));
    });
    let si = run.n(10, 1500, 20_000);
    run.group("sizes", si, &|m, r, i| {
        let n = if i % 5 == 0 { *r.pick(gens::BIG_EDGES) } else { gens::size(r) };
        let n = if cfg!(miri) { n.min(300) } else { n };
        let mut b = model::enc_tlv(&gens::id(r), &gens::fill(r, n));
        match r.below(3) {
            0 => {
                b.pop();
            }
            1 => b.push(0),
            _ => {}
        }
        check(m, &b);
        m.sig(b.len() as u64);
    });
    let mu = run.n(20, 150_000, 4_000_000);
    run.group("mutated elements", mu, &|m, r, _| {
        let d = r.below(5);
        let x = r.below(6);
        let mut b = gens::element(r, d, x);
        gens::mutate(r, &mut b);
        check(m, &b);
        m.sig_bytes(5, &b);
        m.sample(|| hex(&b));
    });
    let tr = run.n(4, 1500, 40_000);
    run.group("truncations", tr, &|m, r, _| {
        let d = r.below(4);
        let x = r.below(8);
        let b = gens::element(r, d, x);
        let step = (b.len() / 150).max(1);
        let mut k = 0;
        while k < b.len() {
            check(m, &b[..k]);
            k += step;
        }
        check(m, &b[..b.len() - 1]);
        m.ev_n("truncation points", (b.len() / step) as u64);
        m.sig_bytes(6, &b);
    });
    let no = run.n(20, 150_000, 4_000_000);
    run.group("noise", no, &|m, r, _| {
        let n = r.below(40);
        let b = gens::noisy(r, n);
        check(m, &b);
        m.sig_bytes(7, &b);
    });
    // announced lengths about the size of a machine word, on each machine
    run.group("about the word", 12 * 5 * 2, &|m, r, i| {
        let n = i as usize % 12;
        let mut b = vec![if i < 60 { 0x04 } else { 0x30 }, 0x80 | n as u8];
        b.extend(r.bytes(n));
        match (i / 12 % 5, n > 0) {
            (0, true) => b[2] = 0,
            (1, true) => b[2] = 1,
            (2, true) => b[2..].fill(0xff),
            (3, true) => {
                // a small number if the upper octets are lost
                b[2..].fill(0);
                b[2] = 1;
                b[n + 1] = 5;
            }
            _ => {}
        }
        b.extend([0x02, 0x03, 0x00, 0x81, 0x00]);
        check(m, &b);
        m.sig_bytes(9, &b);
    });
    let ho = run.n(20, 60_000, 1_000_000);
    run.group("announced lengths", ho, &|m, r, _| {
        let b = hostile_length(r);
        check(m, &b);
        m.sig_bytes(8, &b);
        m.sample(|| hex(&b));
    });
    let de = run.n(0, 60, 300);
    let maxd = if all { 200_000 } else { 20_000 };
    run.group("deep nesting", de, &|m, r, i| {
        let depth = if i < 20 { 1 + 7 * i as usize } else { 1 + r.below(maxd) };
        let style = i % 3;
        let mut b = gens::nested(depth, |l| style == 0 || (style == 1 && l % 2 == 0), &[0x05, 0x00]);
        match r.below(4) {
            0 => {
                b.pop();
            }
            1 => {
                let k = b.len() - r.below(b.len().min(2 * depth));
                b.truncate(k);
            }
            2 => b.extend([0, 0]),
            _ => {}
        }
        check(m, &b);
        m.sig(depth as u64 * 4 + style);
        m.sample(|| format!("{} levels, {} octets", depth, b.len()));
    });
}
