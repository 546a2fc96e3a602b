//! C07: no input crashes, hangs or makes the decoders take memory out of proportion.

use crate::alloc;
use crate::core::{cpu_ns, hex, Mon, Run, Tier};
use crate::gens;
use crate::io::ScriptReader;
use crate::rng::Rng;
use bsn1::{Ber, BerRef, ContentsRef, Der, DerRef, Error, Id, IdRef, Length};
use bsn1_serde::{Deserialize, OctetString};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, LinkedList, VecDeque};

#[allow(dead_code)]
#[derive(Deserialize, Debug)]
pub struct Rec {
    a: i32,
    b: Vec<String>,
    #[bsn1_serde(skip)]
    c: u8,
    d: Option2,
}
#[allow(dead_code)]
#[derive(Deserialize, Debug)]
pub enum Option2 {
    #[bsn1_serde(id = Null)]
    Nothing,
    #[bsn1_serde(tag_class = CONTEXT_SPECIFIC, tag_pc = CONSTRUCTED, tag_num = 1)]
    Both { x: u64, y: Vec<Inner> },
    #[bsn1_serde(tag_class = PRIVATE, tag_pc = CONSTRUCTED, tag_num = 0xffff)]
    One(String),
}
#[allow(dead_code)]
#[derive(Deserialize, Debug)]
#[bsn1_serde(transparent)]
pub struct Inner {
    v: BTreeMap<u8, OctetString<'static>>,
}
/// Recursive type: its depth is bounded by the input octets, so it is exercised with bounded nesting only.
#[allow(dead_code)]
#[derive(Deserialize, Debug)]
#[bsn1_serde(id = Set)]
pub struct Unit;

fn note(r: Result<impl Sized, Error>) -> bool {
    match r {
        Ok(_) => true,
        Err(e) => {
            // errors must be printable, too
            let _ = e.to_string();
            let _ = format!("{:?}", e);
            let _ = format!("{:?}", e.root_cause());
            false
        }
    }
}

pub const TYPES: usize = 22;
pub fn as_type(t: usize, der: Option<&DerRef>, ber: Option<&BerRef>, raw: &[u8], entry: usize) -> bool {
    fn go<T: bsn1_serde::de::Deserialize>(der: Option<&DerRef>, ber: Option<&BerRef>, raw: &[u8], entry: usize) -> bool {
        match entry {
            0 => der.map_or(false, |d| note(bsn1_serde::from_der::<T>(d))),
            1 => ber.map_or(false, |d| note(bsn1_serde::from_ber::<T>(d))),
            2 => note(bsn1_serde::parse_der::<T>(&mut &raw[..])),
            3 => note(bsn1_serde::parse_ber::<T>(&mut &raw[..])),
            4 => note(bsn1_serde::read_der::<_, T>(&mut ScriptReader::plain(raw))),
            _ => note(bsn1_serde::read_ber::<_, T>(&mut ScriptReader::plain(raw))),
        }
    }
    match t {
        0 => go::<bool>(der, ber, raw, entry),
        1 => go::<i8>(der, ber, raw, entry),
        2 => go::<u64>(der, ber, raw, entry),
        3 => go::<i128>(der, ber, raw, entry),
        4 => go::<u128>(der, ber, raw, entry),
        5 => go::<String>(der, ber, raw, entry),
        6 => go::<OctetString>(der, ber, raw, entry),
        7 => go::<Vec<i32>>(der, ber, raw, entry),
        8 => go::<Vec<Vec<Vec<bool>>>>(der, ber, raw, entry),
        9 => go::<VecDeque<String>>(der, ber, raw, entry),
        10 => go::<LinkedList<Vec<u8>>>(der, ber, raw, entry),
        11 => go::<BTreeSet<i64>>(der, ber, raw, entry),
        12 => go::<HashSet<String>>(der, ber, raw, entry),
        13 => go::<BTreeMap<u16, String>>(der, ber, raw, entry),
        14 => go::<HashMap<i8, Vec<u8>>>(der, ber, raw, entry),
        15 => go::<Rec>(der, ber, raw, entry),
        16 => go::<Option2>(der, ber, raw, entry),
        17 => go::<Inner>(der, ber, raw, entry),
        18 => go::<Unit>(der, ber, raw, entry),
        19 => go::<Vec<Rec>>(der, ber, raw, entry),
        20 => go::<BTreeMap<String, HashMap<u8, BTreeSet<u8>>>>(der, ber, raw, entry),
        _ => go::<usize>(der, ber, raw, entry),
    }
}

/// Octets allowed per octet received, plus a constant.
const PER_OCTET: i64 = 256;
const BASE: i64 = 64 << 10;

/// Run `f` under the memory limit; a refused request aborts and is reported from the signal handler.
fn bounded<T>(m: &mut Mon, what: &str, octets: usize, f: impl FnOnce() -> T) -> Option<T> {
    let limit = BASE + PER_OCTET * octets as i64;
    alloc::arm(limit);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    let peak = alloc::disarm();
    m.evals += 1;
    m.max("peak octets requested", peak.max(0) as u64);
    if octets >= 4096 {
        m.max("peak octets requested per 100 octets received", (peak.max(0) as u64) * 100 / octets as u64);
    }
    match r {
        Ok(v) => Some(v),
        Err(_) => {
            let p = m.guard(what, || panic_again());
            let _: Option<()> = p;
            None
        }
    }
}

fn panic_again() {
    std::panic::resume_unwind(Box::new(()))
}

fn low_level(m: &mut Mon, b: &[u8]) {
    let n = b.len();
    let mut ok = 0u64;
    macro_rules! call {
        ($name:expr, $e:expr) => {
            if bounded(m, $name, n, || note($e)) == Some(true) {
                ok += 1;
            }
        };
    }
    call!("IdRef::parse", IdRef::parse(&mut &b[..]).map(|i| i.number().map(|n| n.get())));
    call!("Id::parse", Id::parse(&mut ScriptReader::plain(b)).map(|i| i.number().map(|n| n.get())));
    call!("Length::parse", Length::parse(&mut ScriptReader::plain(b)));
    call!("DerRef::parse", DerRef::parse(&mut &b[..]).map(|d| d.disassemble().2.len()));
    call!("BerRef::parse", BerRef::parse(&mut &b[..]).map(|d| d.disassemble().2.len()));
    call!("Der::parse", Der::parse(&mut ScriptReader::plain(b)).map(|d| d.disassemble().2.len()));
    call!("Ber::parse", Ber::parse(&mut ScriptReader::plain(b)).map(|d| d.disassemble().2.len()));
    let mut v = b.to_vec();
    call!("DerRef::parse_mut", DerRef::parse_mut(&mut &mut v[..]).map(|d| d.disassemble_mut().2.len()));
    call!("BerRef::parse_mut", BerRef::parse_mut(&mut &mut v[..]).map(|d| d.disassemble_mut().2.len()));
    call!("IdRef::parse_mut", IdRef::parse_mut(&mut &mut v[..]).map(|d| d.len()));
    let c = <&ContentsRef>::from(b);
    macro_rules! ints { ($($t:ident),*) => {$( call!(stringify!($t), c.to_integer::<$t>()); )*}; }
    ints!(i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize);
    call!("to_bool_ber", c.to_bool_ber());
    call!("to_bool_der", c.to_bool_der());
    m.ev_n("low-level calls", 24);
    m.ev_n("low-level successes", ok);
}

fn typed(m: &mut Mon, b: &[u8], types: impl Iterator<Item = usize>) {
    let der = DerRef::parse(&mut &b[..]).ok();
    let ber = BerRef::parse(&mut &b[..]).ok();
    for t in types {
        for entry in 0..6 {
            if bounded(m, "deserialize", b.len(), || as_type(t, der, ber, b, entry)) == Some(true) {
                m.ev("values read");
            } else {
                m.ev("values refused");
            }
        }
    }
}

/// Everything on one input.
pub fn hammer(m: &mut Mon, r: &mut Rng, b: &[u8], types: usize) {
    low_level(m, b);
    let off = r.below(TYPES);
    typed(m, b, (0..types).map(|i| (i * 7 + off) % TYPES));
    // the same octets as contents of each constructed kind
    if b.len() < 4000 && r.chance(1, 2) {
        let id = *r.pick(&[0x30u8, 0x31, 0x02, 0x0c, 0x04, 0xa1]);
        let w = crate::model::enc_tlv(&[id], b);
        typed(m, &w, (0..types).map(|i| (i * 5 + off) % TYPES));
    }
}

/// Something that looks like an encoding of one of the fixed types.
pub fn plausible(r: &mut Rng, depth: usize) -> Vec<u8> {
    let mut c = Vec::new();
    match r.below(if depth == 0 { 4 } else { 9 }) {
        0 => {
            let n = r.below(18);
            return crate::model::enc_tlv(&[0x02], &gens::fill(r, n));
        }
        1 => return vec![1, 1, r.u8()],
        2 => return crate::model::enc_tlv(&[0x0c], gens::string(r).as_bytes()),
        3 => {
            let n = gens::small_size(r);
            return crate::model::enc_tlv(&[0x04], &gens::fill(r, n));
        }
        _ => {
            for _ in 0..r.below(5) {
                c.extend(plausible(r, depth - 1));
                if c.len() > 60_000 {
                    break;
                }
            }
        }
    }
    let id: &[u8] = match r.below(6) {
        0 => &[0x31],
        1 => &[0xa1],
        2 => &[0xff, 0x83, 0xff, 0x7f],
        3 => &[0x05],
        _ => &[0x30],
    };
    if r.chance(1, 4) {
        let mut v = id.to_vec();
        v.push(0x80);
        v.extend(c);
        v.extend([0, 0]);
        v
    } else {
        crate::model::enc_tlv(id, &c)
    }
}

pub fn hostile(r: &mut Rng) -> Vec<u8> {
    // huge announced sizes, at the top and inside
    let n = r.range(1, 9);
    let mut l = vec![0x80 | n as u8];
    let mut body = r.bytes(n);
    match r.below(5) {
        0 => body.fill(0xff),
        1 => body[0] = 0x7f,
        2 => {
            body.fill(0);
            body[0] = 1 << r.below(8);
        }
        3 => {
            // isize::MAX and neighbours
            body = (isize::MAX as u64).wrapping_add(r.below(40) as u64).wrapping_sub(20).to_be_bytes().to_vec();
            l = vec![0x88];
        }
        _ => {}
    }
    l.extend(body);
    let mut b = Vec::new();
    let levels = r.below(4);
    for _ in 0..levels {
        b.extend([*r.pick(&[0x30u8, 0x31, 0xa1]), 0x80]);
    }
    b.push(*r.pick(&[0x30u8, 0x04, 0x0c, 0x02, 0x31, 0x24, 0x01]));
    b.extend(l);
    let k = r.below(30);
    b.extend(gens::noisy(r, k));
    b
}

/// (name, input of about n octets)
fn shape(r: &mut Rng, k: u64, n: usize) -> (&'static str, Vec<u8>) {
    match k {
        0 => ("nested indefinite, closed", gens::nested(n / 4, |_| true, &[])),
        1 => ("nested indefinite, open", [0x30u8, 0x80].repeat(n / 2)),
        2 => ("nested definite", gens::nested(n / 5, |_| false, &[])),
        3 => ("nested alternating", gens::nested(n / 5, |l| l % 2 == 0, &[0x05, 0])),
        4 => ("many small integers", crate::model::enc_tlv(&[0x30], &[2u8, 1, 7].repeat(n / 3))),
        5 => {
            let mut v = vec![0x30, 0x80];
            v.extend([2u8, 1, 7].repeat(n / 3));
            v.extend([0, 0]);
            ("many small integers, indefinite", v)
        }
        6 => ("one long string", crate::model::enc_tlv(&[0x0c], &vec![b'a'; n])),
        7 => ("one long integer", crate::model::enc_tlv(&[0x02], &vec![0x55; n])),
        8 => {
            let mut v = vec![0x3f];
            v.extend(vec![0x81u8; n]);
            v.extend([0x01, 0x00]);
            ("long identifier", v)
        }
        9 => ("long open identifier", vec![0xffu8; n]),
        10 => ("many empty sequences", crate::model::enc_tlv(&[0x30], &[0x30u8, 0].repeat(n / 2))),
        11 => {
            let pairs: Vec<u8> = (0..n / 9).flat_map(|i| {
                let i = i as u32;
                vec![0x30, 0x07, 0x02, 0x03, 0x01, (i >> 8) as u8, i as u8, 0x0c, 0x00]
            }).collect();
            ("many pairs", crate::model::enc_tlv(&[0x31], &pairs))
        }
        12 => ("zeroes", vec![0; n]),
        13 => ("end marks inside", {
            let mut v = vec![0x30, 0x80];
            v.extend(vec![0u8; n]);
            v
        }),
        14 => ("noise", gens::noisy(r, n)),
        15 => {
            let rows: Vec<u8> = [0x30u8, 0x80, 0x30, 0x80, 0, 0, 0, 0].repeat(n / 8);
            ("many indefinite sequences", crate::model::enc_tlv(&[0x30], &rows))
        }
        _ => {
            let strs: Vec<u8> = (0..n / 6).flat_map(|i| vec![0x0c, 4, b'a' + (i % 23) as u8, b'b' + (i / 23 % 19) as u8, b'0' + (i / 437 % 10) as u8, b'0' + (i / 4370 % 10) as u8]).collect();
            ("many strings", crate::model::enc_tlv(&[0x31], &strs))
        }
    }
}
const SHAPES: u64 = 17;

/// CPU time of one call must stay within a small multiple of the input.
fn timed(m: &mut Mon, name: &str, what: &str, n: usize, f: impl Fn()) {
    // 1.5 microseconds per octet plus a constant: far above what linear work needs,
    // far below what work quadratic in these sizes needs.
    let limit = 100_000_000 + n as u64 * 1500;
    let mut best = u64::MAX;
    for _ in 0..3 {
        let t = cpu_ns();
        f();
        best = best.min(cpu_ns() - t);
        if best <= limit {
            break;
        }
    }
    m.max("slowest call, ns per octet", best / n.max(1) as u64);
    m.check(best <= limit, || format!("{what} on {n} octets ({name}): {} ms of CPU", best / 1_000_000));
    m.ev("timed calls");
}

fn big(m: &mut Mon, r: &mut Rng, k: u64, n: usize) {
    let (name, b) = shape(r, k, n);
    let n = b.len();
    // from a thread with a small stack, so that recursion over nesting shows
    timed(m, name, "slice parsers", n, || {
        note(BerRef::parse(&mut &b[..]).map(|d| d.disassemble().2.len()));
        note(DerRef::parse(&mut &b[..]).map(|d| d.disassemble().2.len()));
        note(IdRef::parse(&mut &b[..]).map(|d| d.number().map(|n| n.get())));
    });
    timed(m, name, "Ber::parse", n, || {
        note(Ber::parse(&mut ScriptReader::plain(&b)));
    });
    timed(m, name, "Der::parse", n, || {
        note(Der::parse(&mut ScriptReader::plain(&b)));
    });
    timed(m, name, "Id::parse", n, || {
        note(Id::parse(&mut ScriptReader::plain(&b)));
    });
    let der = DerRef::parse(&mut &b[..]).ok();
    let ber = BerRef::parse(&mut &b[..]).ok();
    for t in 0..TYPES {
        for entry in [0, 1, 3] {
            let what = format!("type {t} entry {entry}");
            timed(m, name, &what, n, || {
                as_type(t, der, ber, &b, entry);
            });
        }
    }
    low_level(m, &b);
    typed(m, &b, 0..TYPES);
    m.max("largest input", n as u64);
    m.sig(k << 40 | n as u64);
    m.sample(|| format!("{name}, {n} octets"));
}

pub fn run(run: &mut Run) {
    let n = run.n(6, 25_000, 600_000);
    run.group("plausible encodings", n, &|m, r, _| {
        let d = r.below(6);
        let mut b = plausible(r, d);
        if r.chance(2, 3) {
            gens::mutate(r, &mut b);
        }
        hammer(m, r, &b, 6);
        m.sig_bytes(1, &b);
        m.sample(|| hex(&b));
    });
    let n = run.n(4, 10_000, 300_000);
    run.group("mutated elements", n, &|m, r, _| {
        let (d, x) = (r.below(5), r.below(8));
        let mut b = gens::element(r, d, x);
        gens::mutate(r, &mut b);
        hammer(m, r, &b, 4);
        m.sig_bytes(2, &b);
    });
    let n = run.n(6, 30_000, 800_000);
    run.group("announced sizes", n, &|m, r, _| {
        let b = hostile(r);
        hammer(m, r, &b, 6);
        m.ev("hostile announcements");
        m.sig_bytes(3, &b);
        m.sample(|| hex(&b));
    });
    let n = run.n(6, 30_000, 800_000);
    run.group("noise", n, &|m, r, _| {
        let k = r.below(60);
        let b = if r.chance(1, 2) { gens::noisy(r, k) } else { r.bytes(k) };
        hammer(m, r, &b, 4);
        m.sig_bytes(4, &b);
    });
    let en = run.n(0, gens::enumeration_size(12, 4), gens::enumeration_size(12, 5));
    run.group("short strings", en, &|m, r, i| {
        const A: &[u8] = &[0x00, 0x01, 0x02, 0x0c, 0x1f, 0x30, 0x31, 0x7f, 0x80, 0x81, 0x88, 0xff];
        let b = gens::enumerate(A, i, 5).unwrap();
        hammer(m, r, &b, 3);
        m.sig_bytes(5, &b);
    });
    let thorough = run.tier == Tier::Thorough;
    let n = run.n(0, SHAPES, SHAPES * 2);
    run.group_big("large inputs", n, 1 << 20, &|m, r, i| {
        let size = if !thorough {
            1 << 19
        } else if i < SHAPES {
            1 << 21
        } else {
            1 << 20
        };
        let k = r.below(1000);
        big(m, r, i % SHAPES, size + k);
    });
    let n = run.n(0, SHAPES * 12, SHAPES * 60);
    run.group_big("medium inputs", n, 512 << 10, &|m, r, i| {
        let size = 1000 + r.below(40_000);
        let (_, b) = shape(r, i % SHAPES, size);
        let mut b = b;
        if r.chance(1, 2) {
            let k = r.below(b.len());
            b[k] ^= 1 << r.below(8);
        }
        hammer(m, r, &b, 8);
        m.sig(i << 32 | size as u64);
    });
}
