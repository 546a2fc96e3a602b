//! C21: a failure of the caller's own serializer or deserializer reaches the caller.

use crate::core::{hex, Mon, Run};
use crate::rng::{hash_bytes, Rng};
use bsn1::{BerRef, ContentsRef, DerRef, Error, IdRef, Length};
use bsn1_serde::{de::Deserialize, ser::Serialize};
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, LinkedList, VecDeque};
use std::fmt::Debug;
use std::io::{self, Write};

thread_local! {
    /// Calls until the next failure, and calls so far.
    static FUSE: Cell<(u64, u64)> = const { Cell::new((u64::MAX, 0)) };
    /// How the failure looks, and the step it happened in.
    static STYLE: Cell<(u8, &'static str)> = const { Cell::new((0, "")) };
}

#[derive(Debug)]
struct Spark(&'static str);
impl std::fmt::Display for Spark {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "spark in {}", self.0)
    }
}
impl std::error::Error for Spark {}

/// Comes first in every method of a member.
fn step(name: &'static str) -> Result<(), Error> {
    let (left, calls) = FUSE.get();
    FUSE.set((left.wrapping_sub(1), calls + 1));
    if left != 0 {
        return Ok(());
    }
    let style = STYLE.get().0;
    STYLE.set((style, name));
    Err(match style {
        0 => Error::from(anyhow::Error::new(Spark(name))),
        1 => Error::InvalidUtf8,
        2 => Error::from(io::Error::new(io::ErrorKind::Other, Spark(name))),
        3 => Error::from(anyhow::Error::new(Spark(name))).context("member"),
        4 => Error::from(io::Error::new(io::ErrorKind::Interrupted, Spark(name))),
        _ => Error::UnterminatedBytes.context("member"),
    })
}

fn spark_in(e: &anyhow::Error) -> bool {
    e.chain().any(|c| match c.downcast_ref::<Error>() {
        Some(Error::Anyhow(b)) => spark_in(b),
        _ => c.is::<Spark>(),
    })
}

/// Is `e` the failure that was made, behind any contexts?
fn is_ours(e: &Error) -> bool {
    let inner = |e: &io::Error| e.get_ref().is_some_and(|x| x.is::<Spark>());
    match (STYLE.get().0, e.root_cause()) {
        (0 | 3, _) => e.as_anyhow().is_some_and(spark_in),
        (1, r) => *r == Error::InvalidUtf8,
        (2 | 4, Error::Io(e)) => inner(e),
        (5.., r) => *r == Error::UnterminatedBytes,
        _ => false,
    }
}

/// A member of the caller's. `sized` tells which sizes it announces.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct Flaky {
    octets: Vec<u8>,
    sized: u8,
}

impl Serialize for Flaky {
    fn write_id<W: ?Sized + Write>(&self, w: &mut W) -> Result<(), Error> {
        step("write_id")?;
        w.write_all(&[0x5f, 0x21]).map_err(Error::from)
    }
    fn write_der_contents<W: ?Sized + Write>(&self, w: &mut W) -> Result<(), Error> {
        step("write_der_contents")?;
        w.write_all(&[self.sized])?;
        w.write_all(&self.octets[..self.octets.len() / 2])?;
        step("the middle of write_der_contents")?;
        w.write_all(&self.octets[self.octets.len() / 2..]).map_err(Error::from)
    }
    fn id_len(&self) -> Result<Option<usize>, Error> {
        step("id_len")?;
        Ok(if self.sized & 1 != 0 { Some(2) } else { None })
    }
    fn der_contents_len(&self) -> Result<Option<usize>, Error> {
        step("der_contents_len")?;
        Ok(if self.sized & 2 != 0 { Some(self.octets.len() + 1) } else { None })
    }
}

impl Deserialize for Flaky {
    unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
        step("from_ber")?;
        if length.is_indefinite() {
            return Err(Error::IndefiniteLength);
        }
        Self::read(id, contents)
    }
    fn from_der(id: &IdRef, contents: &ContentsRef) -> Result<Self, Error> {
        step("from_der")?;
        Self::read(id, contents)
    }
}

impl Flaky {
    fn read(id: &IdRef, contents: &ContentsRef) -> Result<Self, Error> {
        let b: &[u8] = contents.as_ref();
        match b {
            [sized, rest @ ..] if AsRef::<[u8]>::as_ref(id) == [0x5f, 0x21] => Ok(Flaky { octets: rest.to_vec(), sized: *sized }),
            _ => Err(Error::UnmatchedId),
        }
    }
    fn gen(r: &mut Rng) -> Self {
        let n = if r.chance(1, 12) && !cfg!(miri) { r.range(100, 300) } else { r.below(5) };
        Flaky { octets: r.bytes(n), sized: r.below(4) as u8 }
    }
}

/// Run `f` once undisturbed, then with a failure at every call of a member in turn.
fn every_call<T>(m: &mut Mon, r: &mut Rng, what: &str, f: &mut dyn FnMut() -> Result<T, Error>, same: &dyn Fn(&T, &T) -> bool) -> Option<T> {
    FUSE.set((u64::MAX, 0));
    let whole = match m.guard(what, &mut *f)? {
        Ok(w) => w,
        Err(e) => {
            m.fail(format!("{what} failed undisturbed: {e:?}"));
            return None;
        }
    };
    let calls = FUSE.get().1;
    m.check(calls > 0, || format!("{what} asked no member"));
    m.max("calls of members in one run", calls);
    let few = if cfg!(miri) { 4 } else { 40 };
    for k in 0..calls.min(few) {
        let k = if calls > few { r.below(calls as usize) as u64 } else { k };
        STYLE.set((r.below(6) as u8, ""));
        FUSE.set((k, 0));
        let got = m.guard(what, &mut *f);
        let fired = FUSE.get().1 > k;
        FUSE.set((u64::MAX, 0));
        let Some(got) = got else { continue };
        m.evals += 1;
        let at = STYLE.get().1;
        match got {
            Err(e) if fired && is_ours(&e) => m.ev(match at {
                "write_id" => "failures of write_id",
                "id_len" => "failures of id_len",
                "der_contents_len" => "failures of der_contents_len",
                "from_ber" => "failures of from_ber",
                "from_der" => "failures of from_der",
                _ => "failures of write_der_contents",
            }),
            Err(e) if fired => m.fail(format!("{what}: a member failed in {at} (call {k} of {calls}), but the error is {e:?}")),
            Err(e) => m.fail(format!("{what} failed though no member did: {e:?}")),
            // Doing without the call is fine as long as nothing is missing.
            Ok(x) if same(&x, &whole) => m.ev("done without the failing call"),
            Ok(_) => m.fail(format!("{what}: a member failed in {at} (call {k} of {calls}), but success with another result")),
        }
        m.sig(k << 32 | calls << 8 | STYLE.get().0 as u64 | hash_bytes(3, what.as_bytes()) << 40);
    }
    // as good as before
    match m.guard(what, &mut *f) {
        Some(Ok(x)) => {
            m.check(same(&x, &whole), || format!("{what}: another result after failures"));
        }
        Some(Err(e)) => m.fail(format!("{what} still fails after the failures: {e:?}")),
        None => {}
    }
    Some(whole)
}

fn put<T: Serialize + Deserialize + PartialEq + Debug>(m: &mut Mon, r: &mut Rng, name: &str, v: T) {
    let eq = |a: &Vec<u8>, b: &Vec<u8>| a == b;
    let der = every_call(m, r, &format!("to_der of {name}"), &mut || bsn1_serde::to_der(&v).map(|d| d.into_vec()), &eq);
    let Some(der) = der else { return };
    let write = |ber: bool| {
        let mut w = Vec::new();
        if ber { bsn1_serde::write_ber(&v, &mut w) } else { bsn1_serde::write_der(&v, &mut w) }.map(|_| w)
    };
    for (what, f) in [
        ("to_ber", &mut (|| bsn1_serde::to_ber(&v).map(|d| d.into_vec())) as &mut dyn FnMut() -> Result<Vec<u8>, Error>),
        ("write_der", &mut || write(false)),
        ("write_ber", &mut || write(true)),
    ] {
        if let Some(b) = every_call(m, r, &format!("{what} of {name}"), f, &eq) {
            m.eq_bytes(what, &b, &der);
        }
    }
    let same = |a: &T, b: &T| a == b;
    for (what, f) in [
        ("parse_der", &mut (|| bsn1_serde::parse_der(&mut &der[..])) as &mut dyn FnMut() -> Result<T, Error>),
        ("parse_ber", &mut || bsn1_serde::parse_ber(&mut &der[..])),
        ("read_der", &mut || bsn1_serde::read_der(&mut &der[..])),
        ("read_ber", &mut || bsn1_serde::read_ber(&mut &der[..])),
        ("from_der", &mut || bsn1_serde::from_der(DerRef::parse(&mut &der[..])?)),
        ("from_ber", &mut || bsn1_serde::from_ber(BerRef::parse(&mut &der[..])?)),
    ] {
        if let Some(x) = every_call(m, r, &format!("{what} of {name}"), f, &same) {
            m.check(x == v, || format!("{what} of {name}: {x:?}, want {v:?}"));
        }
    }
    m.sample(|| format!("{name}: {}", hex(&der)));
}

#[cfg(feature = "derived")]
mod derived {
    use super::*;
    use bsn1_serde::{Deserialize, Serialize};

    #[derive(Debug, PartialEq, Serialize, Deserialize)]
    pub struct Named {
        pub a: Flaky,
        #[bsn1_serde(skip)]
        pub b: u8,
        pub c: Vec<Flaky>,
    }
    #[derive(Debug, PartialEq, Serialize, Deserialize)]
    #[bsn1_serde(tag_num = 40)]
    pub struct Tuple(pub u16, pub Flaky);
    #[derive(Debug, PartialEq, Serialize, Deserialize)]
    #[bsn1_serde(transparent)]
    pub struct Clear {
        pub only: Flaky,
    }
    #[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
    #[bsn1_serde(into = "Flaky", from = "Flaky")]
    pub struct Turned(pub Flaky);
    impl From<Flaky> for Turned {
        fn from(f: Flaky) -> Self {
            Turned(f)
        }
    }
    impl From<Turned> for Flaky {
        fn from(t: Turned) -> Self {
            t.0
        }
    }
    #[derive(Debug, PartialEq, Serialize, Deserialize)]
    pub struct Fields {
        #[bsn1_serde(into = "Flaky", try_from = "Flaky")]
        pub x: Turned,
        #[bsn1_serde(to = "turn_out", from = "Flaky")]
        pub y: Turned,
        pub z: bool,
    }
    fn turn_out(t: &Turned) -> Flaky {
        t.0.clone()
    }
    #[derive(Debug, PartialEq, Serialize, Deserialize)]
    pub enum Choice<T: bsn1_serde::ser::Serialize + bsn1_serde::de::Deserialize> {
        #[bsn1_serde(tag_num = 1)]
        One(T, Flaky),
        #[bsn1_serde(tag_num = 2)]
        Two { t: T },
    }

    pub fn run(m: &mut Mon, r: &mut Rng, i: u64) {
        let f = |r: &mut Rng| Flaky::gen(r);
        match i {
            0 => {
                let v = Named { a: f(r), b: 0, c: (0..r.below(3)).map(|_| f(r)).collect() };
                put(m, r, "a struct", v)
            }
            1 => {
                let v = Tuple(r.u64() as u16, f(r));
                put(m, r, "a tuple struct", v)
            }
            2 => {
                let v = Clear { only: f(r) };
                put(m, r, "a transparent struct", v)
            }
            3 => {
                let v = Turned(f(r));
                put(m, r, "a converted struct", v)
            }
            4 => {
                let v = Fields { x: Turned(f(r)), y: Turned(f(r)), z: true };
                put(m, r, "a struct of converted fields", v)
            }
            5 => {
                let v = if r.chance(1, 2) { Choice::One(vec![f(r)], f(r)) } else { Choice::Two { t: vec![f(r), f(r)] } };
                put(m, r, "an enum", v)
            }
            _ => {
                let v: BTreeMap<u8, Tuple> = (0..1 + r.below(3)).map(|k| (k as u8, Tuple(3, f(r)))).collect();
                put(m, r, "a map of structs", v)
            }
        }
    }
}

#[cfg(not(feature = "derived"))]
mod derived {
    pub fn run(_: &mut super::Mon, _: &mut super::Rng, _: u64) {}
}

fn library(m: &mut Mon, r: &mut Rng, i: u64) {
    let n = 1 + r.below(3);
    let mut some: Vec<Flaky> = (0..n).map(|_| Flaky::gen(r)).collect();
    match i {
        0 => put(m, r, "a member", some.swap_remove(0)),
        1 => put(m, r, "Vec", some),
        2 => put(m, r, "LinkedList", some.into_iter().collect::<LinkedList<_>>()),
        3 => put(m, r, "VecDeque", some.into_iter().collect::<VecDeque<_>>()),
        4 => put(m, r, "BTreeSet", some.into_iter().collect::<BTreeSet<_>>()),
        5 => put(m, r, "HashSet", some.into_iter().collect::<HashSet<_>>()),
        6 => put(m, r, "BTreeMap by value", some.into_iter().enumerate().map(|(k, f)| (k as u16 * 90, f)).collect::<BTreeMap<_, _>>()),
        7 => put(m, r, "BTreeMap by key", some.into_iter().map(|f| (f, true)).collect::<BTreeMap<_, _>>()),
        8 => put(m, r, "HashMap by value", some.into_iter().enumerate().map(|(k, f)| (k as u16 * 90, f)).collect::<HashMap<_, _>>()),
        9 => {
            let other = Flaky::gen(r);
            put(m, r, "HashMap of members", some.into_iter().map(|f| (f, other.clone())).collect::<HashMap<_, _>>())
        }
        10 => put(m, r, "nested Vec", vec![some.clone(), some]),
        _ => put(m, r, "sets in a map", BTreeMap::from([(1u8, some.into_iter().collect::<BTreeSet<_>>())])),
    }
}

pub fn run(run: &mut Run) {
    let n = run.n(12, 24_000, 1_000_000);
    run.group("library types", n, &|m, r, i| library(m, r, i % 12));
    let n = run.n(7, 14_000, 600_000);
    run.group("derived types", n, &|m, r, i| derived::run(m, r, i % 7));
}
