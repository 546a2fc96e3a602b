//! C01: identifier octets and (class, form, number) correspond one to one.

use crate::core::{hex, Mon, Run};
use crate::gens;
use crate::io::{End, ScriptReader};
use crate::model::{self, enc_id, kind, Kinds};
use crate::rng::Rng;
use bsn1::{ClassTag, Id, IdRef, PCTag, TagNumber};

pub const CLASSES: [ClassTag; 4] = [
    ClassTag::Universal,
    ClassTag::Application,
    ClassTag::ContextSpecific,
    ClassTag::Private,
];

pub fn class_no(c: ClassTag) -> u8 {
    match c {
        ClassTag::Universal => 0,
        ClassTag::Application => 1,
        ClassTag::ContextSpecific => 2,
        ClassTag::Private => 3,
    }
}

pub fn pc(constructed: bool) -> PCTag {
    if constructed {
        PCTag::Constructed
    } else {
        PCTag::Primitive
    }
}

/// Everything an identifier says about itself must agree with its octets.
pub fn check_id(m: &mut Mon, what: &str, id: &IdRef, octets: &[u8]) {
    m.eq_bytes(what, id.as_ref(), octets);
    m.eq("len", id.len(), octets.len());
    let (c, p) = (octets[0] >> 6, octets[0] & 0x20 != 0);
    m.eq("class", class_no(id.class()), c);
    m.eq(
        "class predicates",
        [id.is_universal(), id.is_application(), id.is_context_specific(), id.is_private()],
        [c == 0, c == 1, c == 2, c == 3],
    );
    m.eq("pc", id.pc() == PCTag::Constructed, p);
    m.eq("pc predicates", [id.is_primitive(), id.is_constructed()], [!p, p]);
    let got = id.number().map(|n| n.get()).map_err(|e| kind(&e));
    m.eq("number", got, model::id_number(octets));
}

fn triple(m: &mut Mon, c: u8, p: bool, n: u128) {
    let want = enc_id(c, p, n);
    let Some(id) = m.guard("Id::new", || Id::new(CLASSES[c as usize], pc(p), TagNumber::from(n))) else {
        return;
    };
    check_id(m, "Id::new octets", &id, &want);
    m.eq("number read back", id.number().map(|x| x.get()).ok(), Some(n));
    // and back through every parser, with something behind it
    let mut b = want.clone();
    b.extend([0x1f, 0x80, 0x05]);
    check_bytes(m, &b);
    m.ev("triples");
    m.sig(crate::rng::hash_bytes(1, &want));
}

fn widths(m: &mut Mon, n: u128) {
    let mut t: Vec<(&str, TagNumber)> = vec![("u128", n.into())];
    if let Ok(v) = u8::try_from(n) {
        t.push(("u8", v.into()));
    }
    if let Ok(v) = u16::try_from(n) {
        t.push(("u16", v.into()));
    }
    if let Ok(v) = u32::try_from(n) {
        t.push(("u32", v.into()));
    }
    if let Ok(v) = u64::try_from(n) {
        t.push(("u64", v.into()));
    }
    if let Ok(v) = usize::try_from(n) {
        t.push(("usize", v.into()));
    }
    for (name, v) in t {
        m.eq(name, v.get(), n);
        m.check(v == TagNumber::from(n), || format!("TagNumber from {name} differs from u128"));
    }
}

/// All identifier parsers on one byte string.
pub fn check_bytes(m: &mut Mon, b: &[u8]) {
    let want = model::id_at(b);
    // shared slice
    let mut s = b;
    let got = m.guard("IdRef::parse", || IdRef::parse(&mut s));
    if let Some(got) = got {
        match (&got, &want) {
            (Ok(id), Ok(n)) => {
                check_id(m, "IdRef::parse", id, &b[..*n]);
                m.eq_bytes("rest after IdRef::parse", s, &b[*n..]);
                m.ev("accepted");
            }
            (Err(e), Err(k)) => {
                m.check(k.has(kind(e)), || format!("IdRef::parse({}) refused as {:?}, want {:?}", hex(b), kind(e), k));
                m.ev(if kind(e) == Kinds::REDUND { "redundant" } else { "ended early" });
            }
            _ => m.fail(format!("IdRef::parse({}): {:?}, want {:?}", hex(b), got.as_ref().map(|i| hex(i.as_ref())).map_err(kind), want)),
        }
        m.evals += 1;
    }
    // mutable slice
    let mut v = b.to_vec();
    let mut s = &mut v[..];
    if let Some(got) = m.guard("IdRef::parse_mut", || IdRef::parse_mut(&mut s)) {
        match (got, &want) {
            (Ok(id), Ok(n)) => {
                check_id(m, "IdRef::parse_mut", id, &b[..*n]);
                m.eq_bytes("rest after IdRef::parse_mut", s, &b[*n..]);
            }
            (Err(e), Err(k)) => {
                m.check(k.has(kind(&e)), || format!("IdRef::parse_mut({}) refused as {:?}, want {:?}", hex(b), kind(&e), k));
            }
            (got, _) => m.fail(format!("IdRef::parse_mut({}): {:?}, want {:?}", hex(b), got.map(|i| hex(i.as_ref())).map_err(|e| kind(&e)), want)),
        }
    }
    // stream, one octet at a time
    let mut rd = ScriptReader::new(b, 1, 0, b.len(), End::Eof, Rng::new(0));
    if let Some(got) = m.guard("Id::parse", || Id::parse(&mut rd)) {
        match (got, &want) {
            (Ok(id), Ok(n)) => {
                check_id(m, "Id::parse", &id, &b[..*n]);
                m.eq("octets taken from the stream", rd.pos, *n);
            }
            (Err(e), Err(k)) => {
                m.check(k.has(kind(&e)), || format!("Id::parse({}) refused as {:?}, want {:?}", hex(b), kind(&e), k));
            }
            (got, _) => m.fail(format!("Id::parse({}): {:?}, want {:?}", hex(b), got.map(|i| hex(i.as_ref())).map_err(|e| kind(&e)), want)),
        }
    }
}

fn history(m: &mut Mon, r: &mut Rng) {
    // Starting point: built, parsed (possibly beyond 128 bits), constant, copied.
    let (mut id, mut cur) = match r.below(5) {
        0 => {
            let n = r.range(3, 40);
            let o = gens::long_id(r, n);
            let Some(Ok(id)) = m.guard("Id::parse", || Id::parse(&mut &o[..])) else {
                m.fail(format!("valid identifier {} refused", hex(&o)));
                return;
            };
            (id, o)
        }
        1 => {
            let o = gens::id(r);
            (Id::from(unsafe { IdRef::from_bytes_unchecked(&o) }), o)
        }
        2 => (IdRef::sequence().to_owned(), vec![0x30]),
        3 => {
            let o = gens::id(r);
            (unsafe { Id::from_bytes_unchecked(&o) }, o)
        }
        _ => {
            let (c, p, n) = (r.below(4) as u8, r.chance(1, 2), gens::number(r));
            (Id::new(CLASSES[c as usize], pc(p), n.into()), enc_id(c, p, n))
        }
    };
    let ops = r.range(1, 12);
    let mut shape = 0u64;
    for _ in 0..ops {
        let op = r.below(6);
        match op {
            0 | 1 => {
                let c = r.below(4) as u8;
                m.guard("set_class", || id.set_class(CLASSES[c as usize]));
                cur[0] = cur[0] & 0x3f | c << 6;
                m.ev("set_class");
            }
            2 => {
                let p = r.chance(1, 2);
                m.guard("set_pc", || id.set_pc(pc(p)));
                cur[0] = cur[0] & 0xdf | (p as u8) << 5;
                m.ev("set_pc");
            }
            3 | 4 => {
                let n = gens::number(r);
                let before = cur.len();
                m.guard("set_number", || id.set_number(n.into()));
                cur = enc_id(cur[0] >> 6, cur[0] & 0x20 != 0, n);
                m.ev(if cur.len() > before {
                    "set_number grows"
                } else if cur.len() < before {
                    "set_number shrinks"
                } else {
                    "set_number same size"
                });
            }
            _ => {
                // edit through a borrowed mutable view of a copy, then take it over
                let mut v = cur.clone();
                v.push(0x77);
                let mut s = &mut v[..];
                let c = r.below(4) as u8;
                let p = r.chance(1, 2);
                if let Some(Ok(i)) = m.guard("parse_mut", || IdRef::parse_mut(&mut s)) {
                    i.set_class(CLASSES[c as usize]);
                    i.set_pc(pc(p));
                    id = i.to_owned();
                } else {
                    m.fail(format!("valid identifier {} refused by parse_mut", hex(&cur)));
                }
                cur[0] = cur[0] & 0x1f | c << 6 | (p as u8) << 5;
                if r.chance(1, 3) {
                    // and through the view of the owned one
                    let c = r.below(4) as u8;
                    AsMut::<IdRef>::as_mut(&mut id).set_class(CLASSES[c as usize]);
                    cur[0] = cur[0] & 0x3f | c << 6;
                }
                m.eq("octet behind a mutable identifier", *v.last().unwrap(), 0x77);
                m.ev("edit in place");
            }
        }
        shape = shape.wrapping_mul(31).wrapping_add((op as u64) << 8 | cur.len() as u64);
        check_id(m, "after edit", &id, &cur);
        if r.chance(1, 4) {
            id = id.clone();
        }
    }
    m.sig(shape);
    m.sample(|| format!("history of {ops} edits ends with {}", hex(&cur)));
}

const ALPHA: &[u8] = &[0x00, 0x1e, 0x1f, 0x20, 0x3f, 0x5f, 0x7f, 0x80, 0x81, 0x9f, 0xc0, 0xff];

pub fn run(run: &mut Run) {
    run.group("constants", 1, &|m, _, _| {
        let t: [(&IdRef, u8); 11] = [
            (IdRef::eoc(), 0x00),
            (IdRef::boolean(), 0x01),
            (IdRef::integer(), 0x02),
            (IdRef::octet_string(), 0x04),
            (IdRef::octet_string_constructed(), 0x24),
            (IdRef::null(), 0x05),
            (IdRef::real(), 0x09),
            (IdRef::utf8_string(), 0x0c),
            (IdRef::utf8_string_constructed(), 0x2c),
            (IdRef::sequence(), 0x30),
            (IdRef::set(), 0x31),
        ];
        for (i, o) in t {
            check_id(m, "constant identifier", i, &[o]);
        }
    });
    let dense = run.n(20, 20_000, 300_000);
    run.group("small numbers", dense, &|m, _, i| {
        let (c, p, n) = ((i % 4) as u8, i / 4 % 2 == 1, (i / 8) as u128);
        triple(m, c, p, n);
    });
    let bits = run.n(30, 129 * 8 * 9, 129 * 8 * 9);
    run.group("powers of two", bits, &|m, r, i| {
        let i = if cfg!(miri) { r.u64() } else { i };
        let (c, p) = ((i % 4) as u8, i / 4 % 2 == 1);
        let d = (i / 8 % 9) as u128;
        let k = i / 72 % 129;
        let b = if k == 128 { 0u128 } else { 1u128 << k };
        let n = b.wrapping_add(d).wrapping_sub(4);
        triple(m, c, p, n);
        widths(m, n);
    });
    let rnd = run.n(20, 100_000, 3_000_000);
    run.group("random triples", rnd, &|m, r, _| {
        let n = gens::number(r);
        let (c, p) = (r.below(4) as u8, r.chance(1, 2));
        triple(m, c, p, n);
        widths(m, n);
        m.sample(|| format!("class {c} constructed {p} number {n}"));
    });
    let h = run.n(20, 60_000, 2_000_000);
    run.group("edit histories", h, &|m, r, _| history(m, r));
    let two = run.n(40, 65_536 + 257, 65_536 + 257);
    run.group("all octet pairs", two, &|m, r, i| {
        let b = match i {
            _ if cfg!(miri) => r.bytes(2),
            0 => vec![],
            1..=256 => vec![(i - 1) as u8],
            _ => vec![((i - 257) >> 8) as u8, (i - 257) as u8],
        };
        check_bytes(m, &b);
        m.sig_bytes(2, &b);
    });
    let three = run.n(0, 200_000, 1 << 24);
    let all = run.tier == crate::core::Tier::Thorough;
    run.group("octet triples", three, &|m, r, i| {
        let x = if all { i as u32 } else { r.u64() as u32 };
        let mut b = [(x >> 16) as u8, (x >> 8) as u8, x as u8];
        if !all {
            b[0] |= 0x1f;
        }
        check_bytes(m, &b);
        m.sig_bytes(3, &b);
    });
    let en = run.n(0, gens::enumeration_size(12, 4), gens::enumeration_size(12, 6));
    run.group("small alphabet", en, &|m, _, i| {
        let b = gens::enumerate(ALPHA, i, 6).unwrap();
        check_bytes(m, &b);
        m.sig_bytes(4, &b);
    });
    let ns = run.n(40, 100_000, 3_000_000);
    run.group("long identifiers", ns, &|m, r, _| {
        let n = r.range(3, 45);
        let mut b = gens::long_id(r, n);
        if r.chance(1, 3) {
            let k = r.below(b.len());
            b.truncate(k);
        } else if r.chance(1, 3) {
            gens::mutate(r, &mut b);
        }
        check_bytes(m, &b);
        m.sig_bytes(5, &b);
        m.sample(|| hex(&b));
    });
    // The number is exactly at, or just beyond, what 128 bits hold.
    let edge = run.n(12, 20_000, 200_000);
    run.group("128-bit edge", edge, &|m, r, i| {
        let mut b = enc_id(r.below(4) as u8, r.chance(1, 2), u128::MAX - (i % 5) as u128);
        // 19 number octets: the first carries bits 126 and 127
        b[1] = 0x80 | (i % 9) as u8;
        if b[1] == 0x80 {
            b[1] = 0x83;
        }
        if i % 3 == 1 {
            for k in 2..b.len() - 1 {
                b[k] = 0x80 | if r.chance(1, 2) { 0 } else { r.u8() };
            }
        }
        if i % 7 == 3 {
            let n = r.range(1, 8);
            for _ in 0..n {
                b.insert(2, 0x80);
            }
        }
        check_bytes(m, &b);
        m.sig_bytes(6, &b);
    });
}
