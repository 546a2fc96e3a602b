//! Oracles over serializable types, shared by C12 to C16, C18 and C19.

use crate::codec::{el, Got, Mode, Node, Ty, Val};
use crate::core::{hex, short, Mon, MUTED};
use crate::gens;
use crate::io::{End, ScriptReader, ScriptWriter, WEnd, FAILS};
use crate::model::{enc_int, kind, Kinds};
use crate::rng::{hash_bytes, mix, Rng};
use bsn1::{BerRef, DerRef, Error};
use std::sync::atomic::Ordering;

/// Budget for the members and octets of a generated value.
pub fn budget(r: &mut Rng) -> usize {
    if cfg!(miri) {
        return r.below(6);
    }
    match r.below(40) {
        0..=13 => r.below(6),
        14..=27 => r.below(24),
        28..=36 => r.below(200),
        37 | 38 => 140 + r.below(300),
        _ => match r.below(24) {
            0 => 66_000,
            _ => 1000 + r.below(2000),
        },
    }
}

/// A value some level of which is as long as the boundaries of length forms, or
/// nearly; the types that hold no text nor octets give none.
pub fn bounded(m: &mut Mon, r: &mut Rng, t: &dyn Ty, huge: bool) -> Option<Box<dyn Val>> {
    let at = match r.below(12) {
        0..=3 => 128usize,
        4..=7 => 256,
        8..=10 => 65_536,
        _ if huge && !cfg!(debug_assertions) && !MUTED.load(Ordering::Relaxed) && r.chance(1, 40) => 1 << 24,
        _ => 65_536,
    };
    let n = match r.below(4) {
        0 => at - 1 + r.below(3),
        1 => at - 8 + r.below(9),
        _ => at - r.below(60),
    };
    let size = r.below(5) + 1;
    let v = crate::codec::gen_exact(r, t, size, n)?;
    if v.node().lengths().iter().any(|&l| l == at || l + 1 == at) {
        m.ev(match at {
            128 => "a level of 127 or 128 octets",
            256 => "a level of 255 or 256 octets",
            65_536 => "a level of 65535 or 65536 octets",
            _ => "a level of 2^24 octets or one less",
        });
    }
    Some(v)
}

pub fn tag(t: &dyn Ty) -> u64 {
    hash_bytes(77, t.name().as_bytes())
}

pub const ENTRIES: usize = 6;
const ENTRY: [&str; ENTRIES] = ["from_der", "parse_der", "read_der", "from_ber", "parse_ber", "read_ber"];

/// What one entry point made of `b` followed by `tail`: the value, and the octets left in front of it.
fn decode(t: &dyn Ty, entry: usize, b: &[u8], tail: &[u8], r: &mut Rng) -> (Option<Got>, Option<usize>) {
    let mut all = b.to_vec();
    all.extend_from_slice(tail);
    match entry {
        0 => match DerRef::parse(&mut &b[..]) {
            Ok(d) => (Some(t.from_der(d)), None),
            Err(_) => (None, None),
        },
        3 => match BerRef::parse(&mut &b[..]) {
            Ok(d) => (Some(t.from_ber(d)), None),
            Err(_) => (None, None),
        },
        1 | 4 => {
            let mut s = &all[..];
            let g = if entry == 1 { t.parse_der(&mut s) } else { t.parse_ber(&mut s) };
            (Some(g), Some(s.len()))
        }
        _ => {
            let max = *r.pick(&[1usize, 3, 17, usize::MAX]);
            let mut s = ScriptReader::new(&all, max, r.below(3), all.len(), End::Eof, Rng::new(r.u64()));
            let g = if entry == 2 { t.read_der(&mut s) } else { t.read_ber(&mut s) };
            (Some(g), Some(all.len() - s.pos))
        }
    }
}

fn mode(entry: usize) -> Mode {
    if entry < 3 {
        Mode::Der
    } else {
        Mode::Ber
    }
}

/// Deserialize `b` through one entry point and compare with the model.
pub fn judge(m: &mut Mon, r: &mut Rng, t: &dyn Ty, entry: usize, b: &[u8], tail: &[u8]) {
    let md = mode(entry);
    let direct = entry % 3 == 0;
    let (want, end) = {
        let mut all = b.to_vec();
        if !direct {
            all.extend_from_slice(tail);
        }
        match el(&all, md) {
            // for from_der and from_ber the caller gives one element exactly
            Ok((_, rest)) if direct && !rest.is_empty() => return,
            Err(_) if direct => return,
            Ok((e, rest)) => (t.dec(&e, md), Some(rest.len())),
            Err(k) => (Err(k), None),
        }
    };
    if let Err(k) = want {
        if k.has(Kinds::ANY) {
            m.ev("left open");
            return;
        }
    }
    let what = || format!("{}::<{}> of {}", ENTRY[entry], t.name(), hex(b));
    let Some((got, left)) = m.guard(ENTRY[entry], || decode(t, entry, b, tail, r)) else { return };
    m.evals += 1;
    let Some(got) = got else {
        m.fail(format!("{}: not taken for an element", what()));
        return;
    };
    if let (Some(l), Some(e)) = (left, end) {
        m.check(l == e, || format!("{}: left the input {} octets before its end, want {}", what(), l, e));
    }
    match (got, want) {
        (Ok(g), Ok(w)) => {
            m.check(g.same(&*w), || format!("{}: got {}, want {}", what(), short(&g), short(&w)));
            m.ev("values read");
        }
        (Err(e), Err(k)) => {
            let g = kind(&e);
            m.check(k.has(g), || format!("{}: refused as {:?} ({}), want {:?}", what(), g, e, k));
            m.ev(match g {
                Kinds::UNTERM => "refused UnterminatedBytes",
                Kinds::REDUND => "refused RedundantBytes",
                Kinds::OVER => "refused OverFlow",
                Kinds::INDEF => "refused IndefiniteLength",
                Kinds::EXTRA => "refused ExtraContentsOctet",
                Kinds::UNMATCHED => "refused UnmatchedId",
                Kinds::UTF8 => "refused InvalidUtf8",
                Kinds::BOOL => "refused InvalidDerBooleanContents",
                Kinds::PAIR => "refused InvalidKeyValuePair",
                Kinds::ANYHOW => "refused by a conversion",
                _ => "refused otherwise",
            });
        }
        (Ok(g), Err(k)) => m.fail(format!("{}: read as {}, want refused as {:?}", what(), short(&g), k)),
        (Err(e), Ok(w)) => m.fail(format!("{}: refused as {:?} ({}), want {}", what(), kind(&e), e, short(&w))),
    }
}

pub fn judge_all(m: &mut Mon, r: &mut Rng, t: &dyn Ty, b: &[u8]) {
    let n = r.below(4);
    let tail = r.bytes(n);
    for e in 0..ENTRIES {
        judge(m, r, t, e, b, &tail);
    }
    m.sig(hash_bytes(mix(tag(t)), b));
}

// ---------------------------------------------------------------- writing

fn into<T>(m: &mut Mon, what: &str, v: &dyn Val, r: Option<Result<T, Error>>) -> Option<T> {
    match r? {
        Ok(x) => Some(x),
        Err(e) => {
            m.fail(format!("{what} of {}: {:?} ({})", short(&v), kind(&e), e));
            None
        }
    }
}

/// Octets, announced sizes and the parts of one value against the model.
pub fn encode(m: &mut Mon, t: &dyn Ty, v: &dyn Val) {
    let node = v.node();
    let want = node.der();
    let name = t.name();
    let g = m.guard("to_der", || v.to_der());
    if let Some(d) = into(m, "to_der", v, g) {
        let d: &DerRef = &d;
        m.eq_bytes(name, d.as_ref(), &want);
    }
    let g = m.guard("to_ber", || v.to_ber());
    if let Some(d) = into(m, "to_ber", v, g) {
        let d: &BerRef = &d;
        m.eq_bytes(name, d.as_ref(), &want);
    }
    for (what, f) in [
        ("write_der", (|v, w| v.write_der(w)) as fn(&dyn Val, &mut Vec<u8>) -> Result<(), Error>),
        ("write_ber", |v, w| v.write_ber(w)),
    ] {
        // what the sink already holds stays
        let mut w = vec![0xa5u8, 0x5a];
        let g = m.guard(what, || f(v, &mut w));
        if into(m, what, v, g).is_some() {
            m.check(w.starts_with(&[0xa5, 0x5a]), || format!("{what} of {name}: changed what the sink held"));
            m.eq_bytes(&format!("{what} of {name}"), &w[2..], &want);
        }
    }
    let mut w = Vec::new();
    let g = m.guard("write_id", || v.write_id(&mut w));
    if into(m, "write_id", v, g).is_some() {
        m.eq_bytes(&format!("write_id of {name}"), &w, node.id());
    }
    let mut w = Vec::new();
    let g = m.guard("write_der_contents", || v.write_der_contents(&mut w));
    let c = node.contents();
    if into(m, "write_der_contents", v, g).is_some() {
        m.eq_bytes(&format!("write_der_contents of {name}"), &w, &c);
    }
    let g = m.guard("id_len", || v.id_len());
    if let Some(Some(n)) = into(m, "id_len", v, g) {
        m.check(n == node.id().len(), || format!("{name} announces {n} identifier octets, has {}", node.id().len()));
        m.ev("announced identifier sizes");
    }
    let g = m.guard("der_contents_len", || v.der_contents_len());
    if let Some(a) = into(m, "der_contents_len", v, g) {
        if let Some(n) = a {
            m.check(n == c.len(), || format!("{name} announces {n} contents octets, has {}: {}", c.len(), short(&v)));
            m.ev("announced contents sizes");
        } else {
            m.ev("contents sizes not announced");
        }
    }
    m.ev(match c.len() {
        0 => "contents empty",
        1..=127 => "contents to 127 octets",
        128..=255 => "contents to 255 octets",
        256..=65535 => "contents to 65535 octets",
        _ => "contents over 65535 octets",
    });
    m.max("levels", node.depth() as u64);
    m.sig(hash_bytes(mix(tag(t)), &want));
    m.sample(|| format!("{name} {} = {}", short(&v), hex(&want)));
}

/// Write, then read back through everything.
pub fn round_trip(m: &mut Mon, r: &mut Rng, t: &dyn Ty, v: &dyn Val) {
    let Some(want) = v.after() else { return };
    let g = m.guard("to_der", || v.to_der());
    let Some(der) = into(m, "to_der", v, g) else { return };
    let g = m.guard("to_ber", || v.to_ber());
    let Some(ber) = into(m, "to_ber", v, g) else { return };
    let mut wd = Vec::new();
    let g = m.guard("write_der", || v.write_der(&mut wd));
    if into(m, "write_der", v, g).is_none() {
        return;
    }
    let mut wb = Vec::new();
    let g = m.guard("write_ber", || v.write_ber(&mut wb));
    if into(m, "write_ber", v, g).is_none() {
        return;
    }
    let db: &DerRef = &der;
    let bb: &BerRef = &ber;
    for (how, b, der_ok) in [
        ("to_der", db.as_ref() as &[u8], true),
        ("to_ber", bb.as_ref(), false),
        ("write_der", &wd[..], true),
        ("write_ber", &wb[..], false),
    ] {
        for e in if der_ok { 0 } else { 3 }..ENTRIES {
            let Some((got, left)) = m.guard(ENTRY[e], || decode(t, e, b, b"", r)) else { continue };
            m.evals += 1;
            match got {
                Some(Ok(g)) if g.same(&*want) && left.unwrap_or(0) == 0 => {
                    m.ev(match e {
                        0 => "round trips, from_der",
                        1 => "round trips, parse_der",
                        2 => "round trips, read_der",
                        3 => "round trips, from_ber",
                        4 => "round trips, parse_ber",
                        _ => "round trips, read_ber",
                    });
                }
                Some(Ok(g)) if g.same(&*want) => {
                    m.fail(format!("{} after {how} of {}: {} octets left", ENTRY[e], t.name(), left.unwrap()))
                }
                Some(Ok(g)) => m.fail(format!(
                    "{} after {how} of {}: {} came back as {} (octets {})",
                    ENTRY[e],
                    t.name(),
                    short(&want),
                    short(&g),
                    hex(b)
                )),
                Some(Err(x)) => m.fail(format!(
                    "{} after {how} of {}: {} refused as {:?} ({}) (octets {})",
                    ENTRY[e],
                    t.name(),
                    short(&want),
                    kind(&x),
                    x,
                    hex(b)
                )),
                None => m.fail(format!("{how} of {}: {} is no element: {}", t.name(), short(&want), hex(b))),
            }
        }
    }
    m.sig(hash_bytes(mix(tag(t)), db.as_ref()));
    m.sample(|| format!("{} {} = {}", t.name(), short(&v), hex(db.as_ref())));
}

/// Values of several types one after the other in one sink, read back one by one.
pub fn back_to_back(m: &mut Mon, r: &mut Rng, pick: &dyn Fn(&mut Rng) -> &'static dyn Ty) {
    let n = 2 + r.below(if cfg!(miri) { 2 } else { 7 });
    let mut sink = Vec::new();
    let mut list = Vec::new();
    for _ in 0..n {
        let t = pick(r);
        let size = budget(r).min(300);
        let v = t.gen(r, size);
        if v.after().is_none() {
            continue;
        }
        let ber = r.chance(1, 2);
        let g = m.guard("write", || if ber { v.write_ber(&mut sink) } else { v.write_der(&mut sink) });
        if into(m, "write", &*v, g).is_none() {
            return;
        }
        list.push((t, v));
    }
    let mut s = &sink[..];
    let mut d = ScriptReader::new(&sink, *r.pick(&[1usize, 5, usize::MAX]), 1, sink.len(), End::Eof, Rng::new(r.u64()));
    for (i, (t, v)) in list.iter().enumerate() {
        let want = v.after().unwrap();
        let ber = r.chance(1, 2);
        let a = m.guard("parse", || if ber { t.parse_ber(&mut s) } else { t.parse_der(&mut s) });
        let b = m.guard("read", || if ber { t.read_ber(&mut d) } else { t.read_der(&mut d) });
        for (how, g) in [("parse", a), ("read", b)] {
            let Some(g) = g else { return };
            let ok = matches!(&g, Ok(g) if g.same(&*want));
            if !m.check(ok, || {
                format!(
                    "{how}: value {} of {} written back to back, {}: got {}, want {}",
                    i + 1,
                    list.len(),
                    t.name(),
                    short(&g.map_err(|e| kind(&e))),
                    short(&want)
                )
            }) {
                return;
            }
        }
        m.ev("values read from a sequence");
    }
    m.check(s.is_empty() && d.pos == sink.len(), || "octets left after the last value".to_string());
    m.ev("sequences of values");
    m.sig_bytes(3, &sink);
}

// ---------------------------------------------------------------- hostile elements

fn contents_like(r: &mut Rng) -> Vec<u8> {
    match r.below(9) {
        0 => vec![],
        1 => vec![*r.pick(&[0u8, 1, 0x7f, 0x80, 0xff])],
        2 => {
            let low = r.u128() >> r.below(128);
            let mut c = enc_int(if r.chance(1, 2) { 0 } else { -1 }, low);
            if r.chance(1, 3) {
                c.insert(0, *r.pick(&[0, 0xff]));
            }
            c
        }
        3 => {
            let n = r.below(20);
            r.bytes(n)
        }
        4 => {
            let mut s = crate::codec::gen_string(r, 20).into_bytes();
            let n = s.len();
            if n > 0 && r.chance(1, 2) {
                s[r.below(n)] = *r.pick(&[0x80, 0xc0, 0xed, 0xf5, 0xff, 0xc3]);
            }
            s
        }
        5 => {
            // an integer that fits or just does not fit a width
            let w = *r.pick(&[1usize, 2, 4, 8, 16]);
            let mut c = vec![*r.pick(&[0u8, 0xff, 0x7f, 0x80]); w + r.below(2)];
            let n = c.len();
            c[0] = *r.pick(&[0u8, 0xff, 0x7f, 0x80, 1]);
            c[n - 1] = r.u8();
            c
        }
        _ => {
            let n = r.below(4);
            (0..n).flat_map(|_| gens::element(r, 1, 0)).collect()
        }
    }
}

const IDS: &[u8] = &[0x00, 0x01, 0x02, 0x04, 0x0c, 0x24, 0x2c, 0x30, 0x31, 0x22, 0x21, 0x10, 0x11, 0x80, 0xa0, 0x70, 0xb0];

fn some_id(r: &mut Rng) -> Vec<u8> {
    if r.chance(1, 5) {
        gens::id(r)
    } else {
        vec![*r.pick(IDS)]
    }
}

/// One structural change somewhere in the tree; `other` supplies foreign nodes.
pub fn disturb(r: &mut Rng, n: &mut Node, other: &mut dyn FnMut(&mut Rng) -> Node) {
    let c = n.count();
    let at = r.below(c);
    let x = n.nth(at).unwrap();
    match r.below(16) {
        0 => *x.id_mut() = some_id(r),
        1 => {
            // one bit of the identifier
            let b = 1u8 << r.below(8);
            let i = x.id_mut();
            let new = i[0] ^ b;
            if i.len() == 1 && new & 0x1f != 0x1f {
                i[0] = new;
            } else if i.len() > 1 && new & 0x1f == 0x1f {
                i[0] = new;
            }
        }
        2 => *x = other(r),
        3 => {
            let k = some_id(r);
            *x = Node::Prim(k, contents_like(r));
        }
        4 => {
            let k = some_id(r);
            let y = x.clone();
            *x = Node::Cons(k, vec![y]);
        }
        _ => match x {
            Node::Prim(_, c) => match r.below(8) {
                0 => c.insert(0, *r.pick(&[0u8, 0xff, 0x80])),
                1 => {
                    c.pop();
                }
                2 => c.push(r.u8()),
                3 if !c.is_empty() => {
                    let i = r.below(c.len());
                    c[i] = *r.pick(&[0u8, 1, 0x7f, 0x80, 0xff, 0xc3, 0xed]);
                }
                4 if !c.is_empty() => {
                    let i = r.below(c.len());
                    c[i] ^= 1 << r.below(8);
                }
                5 => c.clear(),
                _ => *c = contents_like(r),
            },
            Node::Cons(_, k) => match r.below(8) {
                0 | 1 if !k.is_empty() => {
                    let i = r.below(k.len());
                    k.remove(i);
                }
                2 if !k.is_empty() => {
                    let i = r.below(k.len());
                    let y = k[i].clone();
                    let j = r.below(k.len() + 1);
                    k.insert(j, y);
                }
                3 if k.len() > 1 => {
                    let (i, j) = (r.below(k.len()), r.below(k.len()));
                    k.swap(i, j);
                }
                4 => {
                    let j = r.below(k.len() + 1);
                    let y = other(r);
                    k.insert(j, y);
                }
                5 => {
                    let j = r.below(k.len() + 1);
                    let i = some_id(r);
                    k.insert(j, Node::Prim(i, contents_like(r)));
                }
                6 => k.clear(),
                _ if !k.is_empty() => {
                    // splice a member into its parent
                    let i = r.below(k.len());
                    if let Node::Cons(_, g) = k[i].clone() {
                        k.remove(i);
                        for (d, y) in g.into_iter().enumerate() {
                            k.insert(i + d, y);
                        }
                    } else {
                        k.truncate(i);
                    }
                }
                _ => {
                    let i = some_id(r);
                    k.push(Node::Prim(i, contents_like(r)));
                }
            },
        },
    }
}

/// Elements near the encodings of `t`, judged by the model.
pub fn hostile(m: &mut Mon, r: &mut Rng, t: &dyn Ty, pick: &dyn Fn(&mut Rng) -> &'static dyn Ty) {
    let size = match r.below(12) {
        0 => 150,
        1..=4 => 20,
        _ => 6,
    };
    let size = if cfg!(miri) { 4 } else { size };
    let mut n = t.gen(r, size).wire();
    let k = r.below(4);
    let mut other = |r: &mut Rng| {
        let o = pick(r);
        o.gen(r, 4).wire()
    };
    for _ in 0..k {
        disturb(r, &mut n, &mut other);
    }
    m.max("levels", n.depth() as u64);
    let mut b = if r.chance(1, 2) {
        n.der()
    } else {
        let p = 1 + r.below(4);
        let mut f = Rng::new(r.u64());
        n.ber(&mut || f.below(4) < p, &mut Vec::new())
    };
    if r.chance(1, 5) {
        gens::mutate(r, &mut b);
    }
    judge_all(m, r, t, &b);
    m.sample(|| format!("{} from {}", t.name(), hex(&b)));
}

/// All definite and indefinite forms of one value.
pub fn forms(m: &mut Mon, r: &mut Rng, t: &dyn Ty, v: &dyn Val) {
    let node = v.wire();
    let n = node.levels();
    if n == 0 {
        return;
    }
    let der = node.der();
    let Ok((e, rest)) = el(&der, Mode::Ber) else { return };
    assert!(rest.is_empty());
    // what the all-definite encoding is read as
    let Some(got) = m.guard("from_ber", || decode(t, 3, &der, b"", r).0) else { return };
    let model = t.dec(&e, Mode::Ber);
    if matches!(&model, Err(k) if k.has(Kinds::ANY)) {
        m.ev("left open");
        return;
    }
    let base = match got {
        Some(Ok(g)) => g,
        Some(Err(e)) => {
            let k = kind(&e);
            let ok = matches!(&model, Err(w) if w.has(k));
            m.check(ok, || format!("{}: definite encoding {} refused as {:?}", t.name(), hex(&der), k));
            return;
        }
        None => {
            m.fail(format!("{}: {} not taken for an element", t.name(), hex(&der)));
            return;
        }
    };
    if let Ok(w) = &model {
        m.check(base.same(&**w), || format!("{}: {} read as {}, want {}", t.name(), hex(&der), short(&base), short(w)));
    }
    let all = n <= 5 && !cfg!(miri);
    let count = if all { 1u64 << n } else { if cfg!(miri) { 2 } else { 24 } };
    for i in 0..count {
        let bits: Vec<bool> = match i {
            _ if all => (0..n).map(|k| i >> k & 1 == 1).collect(),
            0 => vec![true; n],
            1..=6 => {
                let one = r.below(n);
                (0..n).map(|k| k == one).collect()
            }
            _ => {
                let p = 1 + r.below(7);
                (0..n).map(|_| r.below(8) < p).collect()
            }
        };
        let mut at = 0;
        let mut eocs = Vec::new();
        let b = node.ber(
            &mut || {
                at += 1;
                bits[at - 1]
            },
            &mut eocs,
        );
        let used = eocs.len();
        for entry in 3..ENTRIES {
            let Some((g, _)) = m.guard(ENTRY[entry], || decode(t, entry, &b, b"", r)) else { continue };
            m.evals += 1;
            match g {
                Some(Ok(g)) if g.same(&*base) => {}
                Some(Ok(g)) => m.fail(format!(
                    "{} of {}: {} read as {}, the definite form {} as {}",
                    ENTRY[entry],
                    t.name(),
                    hex(&b),
                    short(&g),
                    hex(&der),
                    short(&base)
                )),
                Some(Err(e)) => m.fail(format!(
                    "{} of {}: {} refused as {:?} ({}), the definite form {} is read",
                    ENTRY[entry],
                    t.name(),
                    hex(&b),
                    kind(&e),
                    e,
                    hex(&der)
                )),
                None => m.fail(format!("{}: {} is not taken for an element", t.name(), hex(&b))),
            }
        }
        if used > 0 {
            // DER
            for entry in 1..3 {
                let Some((g, _)) = m.guard(ENTRY[entry], || decode(t, entry, &b, b"", r)) else { continue };
                let bad = matches!(g, Some(Ok(_)));
                m.check(!bad, || format!("{} of {}: accepted indefinite length in {}", ENTRY[entry], t.name(), hex(&b)));
            }
            if let Ok(d) = DerRef::parse(&mut &b[..]) {
                let Some(g) = m.guard("from_der", || t.from_der(d)) else { continue };
                m.check(g.is_err(), || format!("from_der of {}: accepted indefinite length in {}", t.name(), hex(&b)));
                m.ev("inner indefinite lengths put to DER");
            }
            m.ev("indefinite forms");
            m.ev_n("indefinite levels", used as u64);
            m.max("indefinite levels in one form", used as u64);
            // markers dropped or put elsewhere
            let p = *r.pick(&eocs);
            let mut c = b.clone();
            c.drain(p..p + 2);
            if r.chance(1, 2) {
                let q = r.below(c.len() + 1);
                c.splice(q..q, [0, 0]);
                m.ev("markers moved");
            } else {
                m.ev("markers dropped");
            }
            let tail: &[u8] = *r.pick(&[&b""[..], &[0], &[0x30]]);
            for entry in 3..ENTRIES {
                judge(m, r, t, entry, &c, tail);
            }
            // and one level with a marker too many
            let mut c = b.clone();
            c.splice(p..p, [0, 0]);
            for entry in 3..ENTRIES {
                judge(m, r, t, entry, &c, b"");
            }
            m.ev("markers doubled");
        }
        m.sig(hash_bytes(mix(tag(t)), &b));
    }
    m.sample(|| format!("{} levels {n}: {}", t.name(), hex(&der)));
}

// ---------------------------------------------------------------- faulty sinks

fn sink_once(m: &mut Mon, t: &dyn Ty, v: &dyn Val, want: &[u8], what: usize, mut w: ScriptWriter) {
    let name = ["write_der", "write_ber", "write_der_contents", "write_id"][what];
    let Some(got) = m.guard(name, || match what {
        0 => v.write_der(&mut w),
        1 => v.write_ber(&mut w),
        2 => v.write_der_contents(&mut w),
        _ => v.write_id(&mut w),
    }) else {
        return;
    };
    let room = w.end == WEnd::Never || w.stop >= want.len();
    m.check(want.starts_with(&w.got), || {
        format!("{name} of {}: the sink holds {}, no prefix of {}", t.name(), hex(&w.got), hex(want))
    });
    match got {
        Ok(()) => {
            m.check(w.got == want, || {
                format!("{name} of {}: success, but the sink holds {} of {} octets", t.name(), w.got.len(), want.len())
            });
            m.ev("successes");
            if w.interrupted > 0 {
                m.ev("successes after interruptions");
            }
        }
        Err(e) => {
            let io = match e.root_cause() {
                Error::Io(i) => Some(i),
                _ => None,
            };
            m.check(io.is_some(), || format!("{name} of {}: failed with {:?}, want an I/O error", t.name(), kind(&e)));
            m.check(!room, || {
                format!("{name} of {}: failed ({}) though the sink takes all {} octets", t.name(), e, want.len())
            });
            if let (Some(i), WEnd::Fail(k)) = (io, w.end) {
                m.check(w.failed_with(i), || {
                    format!("{name} of {}: the sink failed with {:?}, reported is {:?}", t.name(), k, i)
                });
            }
            m.ev(match w.end {
                WEnd::Zero => "failures, sink full",
                _ => "failures, sink error",
            });
        }
    }
}

pub fn sinks(m: &mut Mon, r: &mut Rng, t: &dyn Ty, v: &dyn Val) {
    let node = v.node();
    let want = node.der();
    // to_der of the value before any failure
    let n = want.len();
    let few = if cfg!(miri) { 2 } else { 12 };
    let stops: Vec<usize> = if n <= few { (0..=n + 1).collect() } else { (0..few).map(|i| match i {
        0 => 0,
        1 => n - 1,
        2 => n,
        3 => node.id().len(),
        4 => n - node.contents().len(),
        _ => r.below(n),
    }).collect() };
    for stop in stops {
        let max = *r.pick(&[1usize, 2, 7, 100, usize::MAX]);
        let ints = *r.pick(&[0usize, 0, 2, 6]);
        let end = if r.chance(1, 3) { WEnd::Zero } else { WEnd::Fail(*r.pick(FAILS)) };
        let what = r.below(2);
        sink_once(m, t, v, &want, what, ScriptWriter::new(max, ints, stop, end, Rng::new(r.u64())));
        m.sig(hash_bytes(mix(tag(t) ^ stop as u64), &want));
    }
    for what in 0..4 {
        let max = *r.pick(&[1usize, 2, 7]);
        let w = match what {
            0 | 1 => want.clone(),
            2 => node.contents(),
            _ => node.id().to_vec(),
        };
        let never = ScriptWriter::new(max, 3, 0, WEnd::Never, Rng::new(r.u64()));
        sink_once(m, t, v, &w, what, never);
        if what >= 2 {
            let stop = r.below(w.len() + 1);
            let end = if r.chance(1, 3) { WEnd::Zero } else { WEnd::Fail(*r.pick(FAILS)) };
            sink_once(m, t, v, &w, what, ScriptWriter::new(max, 1, stop, end, Rng::new(r.u64())));
        }
    }
    // the value is as good as before
    let g = m.guard("to_der", || v.to_der());
    if let Some(d) = into(m, "to_der", v, g) {
        let d: &DerRef = &d;
        m.eq_bytes("octets after failed writes", d.as_ref(), &want);
    }
    m.sample(|| format!("{} to faulty sinks: {}", t.name(), hex(&want)));
}
