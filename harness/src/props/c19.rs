//! C19: causes stay reachable behind contexts.

use super::serde::disturb;
use crate::codec::{derived_types, el, pick_type, std_types, Mode, Refused};
use crate::core::{hex, Mon, Run};
use crate::gens;
use crate::io::{End, ScriptReader, FAILS, MARK};
use crate::model::{kind, Kinds};
use crate::rng::Rng;
use anyhow::Context;
use bsn1::Error;
use std::error::Error as StdError;

const PLAIN: usize = 10;

fn plain(i: usize) -> Error {
    match i {
        0 => Error::UnterminatedBytes,
        1 => Error::RedundantBytes,
        2 => Error::OverFlow,
        3 => Error::IndefiniteLength,
        4 => Error::BadEoc,
        5 => Error::ExtraContentsOctet,
        6 => Error::UnmatchedId,
        7 => Error::InvalidUtf8,
        8 => Error::InvalidDerBooleanContents,
        _ => Error::InvalidKeyValuePair,
    }
}

/// Kind of this very error, not of a cause.
fn own(e: &Error) -> usize {
    match e {
        Error::UnterminatedBytes => 0,
        Error::RedundantBytes => 1,
        Error::OverFlow => 2,
        Error::IndefiniteLength => 3,
        Error::BadEoc => 4,
        Error::ExtraContentsOctet => 5,
        Error::UnmatchedId => 6,
        Error::InvalidUtf8 => 7,
        Error::InvalidDerBooleanContents => 8,
        Error::InvalidKeyValuePair => 9,
        Error::Io(_) => 10,
        Error::Anyhow(_) => 11,
        _ => 12,
    }
}

#[derive(Debug)]
struct Foreign(u64);
impl std::fmt::Display for Foreign {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "foreign {}", self.0)
    }
}
impl StdError for Foreign {}

struct Ctx(String);
impl std::fmt::Display for Ctx {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}

/// Texts of the failure and everything below it.
fn chain(e: &Error) -> Vec<String> {
    match e.as_anyhow() {
        Some(a) => a.chain().map(|c| c.to_string()).collect(),
        None => {
            let mut v = vec![e.to_string()];
            let mut s = e.source();
            while let Some(x) = s {
                v.push(x.to_string());
                s = x.source();
            }
            v
        }
    }
}

/// The foreign error, also behind library errors that hold further chains.
fn find(a: &anyhow::Error) -> Option<&Foreign> {
    a.chain().find_map(|c| match c.downcast_ref::<Error>() {
        Some(Error::Anyhow(b)) => find(b),
        _ => c.downcast_ref::<Foreign>(),
    })
}

fn has_in_order(all: &[String], part: &[String]) -> bool {
    let mut it = all.iter();
    part.iter().all(|p| it.any(|a| a == p))
}

fn start(r: &mut Rng) -> (Error, usize, Option<u64>) {
    match r.below(13) {
        i @ 0..=9 => (plain(i), i, None),
        10 => {
            let k = *r.pick(FAILS);
            (Error::from(std::io::Error::new(k, MARK)), 10, None)
        }
        11 => {
            let n = r.u64();
            (Error::from(anyhow::Error::new(Foreign(n))), 11, Some(n))
        }
        _ => {
            let n = r.u64();
            (Error::from(anyhow::anyhow!("text {n}")), 11, None)
        }
    }
}

fn histories(m: &mut Mon, r: &mut Rng) {
    let (mut e, what, foreign) = start(r);
    let first = e.to_string();
    let io = match &e {
        Error::Io(i) => Some(i.kind()),
        _ => None,
    };
    // newest first
    let mut texts = vec![first];
    let mut rewrapped = 0;
    let n = if cfg!(miri) { r.below(4) } else { *r.pick(&[0usize, 1, 2, 3, 5, 8, 40]) };
    for i in 0..n {
        let t = format!("context {i} {}", r.below(1000));
        let op = r.below(7);
        e = match op {
            0 | 1 => e.context(t.clone()),
            2 => e.context(Ctx(t.clone())),
            3 => Error::from(e.into_anyhow().context(t.clone())),
            4 => {
                // as a function that returns anyhow::Result would do
                let f = || -> anyhow::Result<()> { Err(e)? };
                Error::from(f().context(t.clone()).unwrap_err())
            }
            5 => {
                let res: Result<(), Error> = Err(e);
                Error::from(res.with_context(|| t.clone()).unwrap_err())
            }
            _ => Error::from(anyhow::Error::new(e)),
        };
        if op < 6 {
            texts.insert(0, t);
        }
        if op >= 4 {
            rewrapped += 1;
        }
    }
    let all = chain(&e);
    m.check(has_in_order(&all, &texts), || format!("chain {:?} does not list {:?}", all, texts));
    m.check(all.last() == texts.last(), || format!("chain {:?} does not end with {:?}", all, texts.last()));
    m.check(e.to_string() == texts[0], || format!("{:?} shown as {:?}", texts, e.to_string()));
    let root = e.root_cause();
    if what < 11 {
        m.check(own(root) == what, || format!("root cause of {:?} is {:?}, want {:?}", texts, root, texts.last()));
        if let (Error::Io(i), Some(k)) = (root, io) {
            m.check(i.kind() == k && i.to_string() == MARK, || format!("I/O cause became {:?}", i));
        }
        if what < 10 {
            m.check(*root == plain(what), || format!("root cause {:?} does not equal its kind", root));
        }
        m.ev("library causes found");
    } else {
        m.check(own(root) == 11, || format!("root cause of {:?} is {:?}", texts, root));
        if rewrapped == 0 {
            m.check(std::ptr::eq(root, &e), || format!("root cause of {:?} is not the failure itself", texts));
        }
        if let Some(n) = foreign {
            let found = e.as_anyhow().and_then(|a| find(a)).map(|f| f.0);
            m.check(found == Some(n), || format!("the foreign error is lost behind {:?}", texts));
        }
        m.ev("foreign causes kept");
    }
    if n > 0 {
        m.check(e != plain(what % PLAIN) && plain(what % PLAIN) != e, || format!("{:?} equals a plain kind", texts));
    }
    m.max("contexts", (texts.len() - 1) as u64);
    if rewrapped > 0 {
        m.ev("failures wrapped again");
    }
    m.sig((what as u64) << 32 | (texts.len() as u64) << 8 | rewrapped);
    m.sample(|| format!("{:?}", all));
}

fn equality(m: &mut Mon) {
    let make = |i: usize| match i {
        10 => Error::from(std::io::Error::new(std::io::ErrorKind::Other, MARK)),
        11 => Error::from(anyhow::Error::new(Foreign(1))),
        12 => Error::UnmatchedId.context("x"),
        i => plain(i),
    };
    for i in 0..13 {
        for j in 0..13 {
            let (a, b) = (make(i), make(j));
            m.check((a == b) == (i == j && i < 10), || format!("{:?} == {:?} is {}", a, b, a == b));
            m.check((a != b) != (a == b), || format!("{:?} != {:?}", a, b));
            m.sig((i * 16 + j) as u64 | 1 << 50);
        }
        let a = make(i);
        #[allow(clippy::eq_op)]
        let same = a == a;
        m.check(same == (i < 10), || format!("{:?} == itself is {}", a, same));
    }
    m.ev("equality tables");
}

/// A failure of deserialization: its cause against the model, also after more contexts.
fn examine(m: &mut Mon, r: &mut Rng, e: Error, k: Kinds, what: &dyn Fn() -> String) {
    let g = kind(&e);
    let texts = chain(&e);
    let mut e = e;
    let mut added = Vec::new();
    for i in 0..r.below(4) {
        let t = format!("caller {i}");
        e = e.context(t.clone());
        added.insert(0, t);
    }
    let mut want = added;
    want.extend(texts);
    let now = chain(&e);
    m.check(has_in_order(&now, &want), || format!("{}: chain {:?}, want {:?}", what(), now, want));
    let root = e.root_cause();
    if k == Kinds::ANYHOW {
        let a = e.as_anyhow();
        let found = a.is_some_and(|a| {
            a.chain().any(|c| c.downcast_ref::<Refused>().is_some() || c.downcast_ref::<std::num::ParseIntError>().is_some())
        });
        m.check(found, || format!("{}: the converter's error is not in the chain {:?}", what(), now));
        m.ev("conversion failures");
    } else if !k.has(Kinds::ANYHOW) {
        m.check(own(root) < 11, || format!("{}: root cause is {:?}", what(), root));
        m.check(k.has(kind(root)), || format!("{}: root cause is {:?}, want {:?}", what(), root, k));
        if own(root) < 10 {
            m.check(*root == plain(own(root)), || format!("{:?} does not equal its own kind", root));
        }
        m.ev(if now.len() > 1 { "causes behind contexts" } else { "bare causes" });
        m.max("texts in a chain", now.len() as u64);
    }
    m.sig((g.0 as u64) << 20 | now.len() as u64 | 2 << 50);
}

fn failures(m: &mut Mon, r: &mut Rng, i: usize) {
    let all = std_types().len() + derived_types().len();
    let i = if cfg!(miri) { r.below(all) } else { i % all };
    let t = if i < std_types().len() { &std_types()[i] } else { &derived_types()[i - std_types().len()] };
    let mut n = t.gen(r, if cfg!(miri) { 4 } else { 12 }).wire();
    let mut other = |r: &mut Rng| pick_type(r).gen(r, 3).wire();
    for _ in 0..1 + r.below(2) {
        disturb(r, &mut n, &mut other);
    }
    let md = if r.chance(1, 2) { Mode::Der } else { Mode::Ber };
    let mut b = match md {
        Mode::Der => n.der(),
        Mode::Ber => {
            let mut f = Rng::new(r.u64());
            n.ber(&mut || f.chance(1, 3), &mut Vec::new())
        }
    };
    if r.chance(1, 6) {
        gens::mutate(r, &mut b);
    }
    let want = match el(&b, md) {
        Ok((e, _)) => t.dec(&e, md).err(),
        Err(k) => Some(k),
    };
    let Some(k) = want else { return };
    if k.has(Kinds::ANY) {
        return;
    }
    let stream = r.chance(1, 2);
    let g = m.guard("deserialize", || match (md, stream) {
        (Mode::Der, false) => t.parse_der(&mut &b[..]),
        (Mode::Ber, false) => t.parse_ber(&mut &b[..]),
        (Mode::Der, true) => t.read_der(&mut &b[..]),
        (Mode::Ber, true) => t.read_ber(&mut &b[..]),
    });
    let Some(Err(e)) = g else { return };
    examine(m, r, e, k, &|| format!("{} from {}", t.name(), hex(&b)));
}

fn streams(m: &mut Mon, r: &mut Rng) {
    let t = pick_type(r);
    let b = t.gen(r, 8).wire().der();
    let stop = r.below(b.len());
    let k = *r.pick(FAILS);
    let mut s = ScriptReader::new(&b, 3, 1, stop, End::Fail(k), Rng::new(r.u64()));
    let ber = r.chance(1, 2);
    let Some(g) = m.guard("read", || if ber { t.read_ber(&mut s) } else { t.read_der(&mut s) }) else { return };
    let Err(e) = g else {
        m.fail(format!("{}: read {} of {} octets and succeeded", t.name(), stop, b.len()));
        return;
    };
    let e = if r.chance(1, 2) { e.context("reading") } else { e };
    let ok = matches!(e.root_cause(), Error::Io(i) if s.failed_with(i));
    m.check(ok, || format!("{}: the stream failed with {:?}, the cause is {:?}", t.name(), k, e.root_cause()));
    m.ev("stream failures");
}

#[cfg(feature = "derived")]
mod relay {
    //! A conversion that deserializes on its own and fails with the library's error.
    use super::*;

    #[derive(Clone, Debug, bsn1_serde::Deserialize)]
    #[bsn1_serde(try_from = "bsn1_serde::OctetString")]
    pub struct Whole(pub Vec<Vec<u8>>);
    #[derive(Clone, Debug, bsn1_serde::Deserialize)]
    pub struct Part {
        #[bsn1_serde(try_from = "bsn1_serde::OctetString")]
        pub inner: Whole,
    }
    impl TryFrom<bsn1_serde::OctetString<'_>> for Whole {
        type Error = Error;
        fn try_from(o: bsn1_serde::OctetString<'_>) -> Result<Self, Error> {
            let b: &[u8] = o.as_ref();
            let v: Vec<Vec<u8>> = bsn1_serde::parse_der(&mut &b[..]).map_err(|e| e.context("inner element"))?;
            Ok(Whole(v))
        }
    }

    pub fn run(m: &mut Mon, r: &mut Rng) {
        use crate::model::enc_tlv;
        let t = std_types().iter().find(|t| t.name() == "Vec<Vec<u8>>").unwrap();
        let mut n = t.gen(r, 5).wire();
        let mut other = |r: &mut Rng| pick_type(r).gen(r, 3).wire();
        disturb(r, &mut n, &mut other);
        let b = n.der();
        let Ok((e, _)) = el(&b, Mode::Der) else { return };
        let Err(k) = t.dec(&e, Mode::Der) else { return };
        let whole = enc_tlv(&[4], &b);
        let part = enc_tlv(&[0x30], &whole);
        let (x, y) = match m.guard("deserialize", || {
            (bsn1_serde::parse_der::<Whole>(&mut &whole[..]).err(), bsn1_serde::parse_ber::<Part>(&mut &part[..]).err())
        }) {
            Some((Some(x), Some(y))) => (x, y),
            _ => return,
        };
        for e in [x, y] {
            m.check(chain(&e).iter().any(|t| t == "inner element"), || {
                format!("chain {:?} lost the converter's context", chain(&e))
            });
            examine(m, r, e, k, &|| format!("conversion of {}", hex(&b)));
            m.ev("library errors out of conversions");
        }
    }
}
#[cfg(not(feature = "derived"))]
mod relay {
    use super::*;
    pub fn run(_: &mut Mon, _: &mut Rng) {}
}

pub fn run(run: &mut Run) {
    run.group("equality", 1, &|m, _, _| equality(m));
    let n = run.n(20, 60_000, 2_000_000);
    run.group("histories", n, &|m, r, _| histories(m, r));
    let n = run.n(40, 60_000, 2_000_000);
    run.group("failures", n, &|m, r, i| failures(m, r, i as usize));
    let n = run.n(4, 20_000, 400_000);
    run.group("streams", n, &|m, r, _| streams(m, r));
    let n = run.n(4, 10_000, 200_000);
    run.group("conversions", n, &|m, r, _| relay::run(m, r));
}
