//! C10: memory safety, leaks and races. The deciding observers are the checking allocator, the
//! sanitizer or interpreter the workload is built for, and the leak accounting here. Functional
//! oracles of the reused workloads are muted: they decide other properties.

use crate::alloc;
use crate::core::{forget_panic, Mon, Run, Tier, MUTED};
use crate::gens;
use crate::io::{End, ScriptReader, FAILS};
use crate::model::{enc_len, enc_tlv};
use crate::props::{c07, c08, c09, c11};
use crate::rng::{hash_bytes, Rng};
use bsn1::{Ber, BerRef, Contents, ContentsRef, Der, DerRef, Error, Id, IdRef, Length};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering;
use std::sync::Arc;

/// Run `f`; nothing it obtained may still be held afterwards.
fn balanced(m: &mut Mon, r: &Rng, what: &'static str, f: &dyn Fn(&mut Mon, &mut Rng)) {
    if catch_unwind(AssertUnwindSafe(|| f(m, &mut r.clone()))).is_err() {
        m.ev("panics passed through");
    }
    if cfg!(any(miri, mon_asan)) {
        return;
    }
    m.ev("accounted cases");
    m.evals += 1;
    // Whatever is set up lazily once is not a leak, so only a repeated loss counts.
    if measured(r, f) != (0, 0) {
        let held = measured(r, f);
        if held != (0, 0) {
            m.fail_hard(format!("{what}: {} octets in {} blocks still held afterwards", held.0, held.1));
        }
    }
}

fn measured(r: &Rng, f: &dyn Fn(&mut Mon, &mut Rng)) -> (i64, i64) {
    let mut rr = r.clone();
    forget_panic();
    let a = alloc::live();
    {
        let mut t = Mon::new("measure");
        let _ = catch_unwind(AssertUnwindSafe(|| f(&mut t, &mut rr)));
    }
    forget_panic();
    let b = alloc::live();
    (b.0 - a.0, b.1 - a.1)
}

/// Read every octet so that reads of dead or uninitialised memory are seen.
fn touch(b: &[u8]) -> u64 {
    let h = hash_bytes(7, b);
    if h == 1 {
        // depends on every octet
        println!("unlikely");
    }
    h
}
fn touch_ber(m: &mut Mon, b: &BerRef) {
    let (i, _, c) = b.disassemble();
    m.sig(touch(b.as_ref()) ^ touch(i.as_ref()).rotate_left(1) ^ touch(c.as_ref()));
    m.ev("elements read in full");
}

// ---- byte sources that change their mind ----

struct Shifty {
    a: Vec<u8>,
    b: Vec<u8>,
    n: Cell<usize>,
    flip: usize,
    panic_at: usize,
}
impl AsRef<[u8]> for Shifty {
    fn as_ref(&self) -> &[u8] {
        let n = self.n.get();
        self.n.set(n + 1);
        if n == self.panic_at {
            panic!("source gives up");
        }
        if n % self.flip == 0 {
            &self.a
        } else {
            &self.b
        }
    }
}
fn shifty(r: &mut Rng) -> Shifty {
    let (x, y) = (r.below(80), r.below(80));
    Shifty {
        a: r.bytes(x),
        b: r.bytes(y),
        n: Cell::new(0),
        flip: r.range(1, 3),
        panic_at: if r.chance(1, 6) { r.below(3) } else { usize::MAX },
    }
}

fn sources(m: &mut Mon, r: &mut Rng) {
    let id = gens::id(r);
    let i = unsafe { IdRef::from_bytes_unchecked(&id) };
    let s = shifty(r);
    let mut d = Der::new(i, <&ContentsRef>::from(&[1u8, 2, 3]));
    if catch_unwind(AssertUnwindSafe(|| d.extend_from_slice(&s))).is_err() {
        m.ev("source panicked");
    }
    touch_ber(m, <&BerRef>::from(AsRef::<DerRef>::as_ref(&d)));
    let mut b = Ber::from(d);
    let _ = catch_unwind(AssertUnwindSafe(|| b.extend_from_slice(&s)));
    touch_ber(m, &b);
    m.ev("shifting sources");
}

/// An iterator whose copies do not agree with it.
struct Liar {
    seed: Rng,
    left: usize,
    agree: bool,
    max: usize,
}
impl Clone for Liar {
    fn clone(&self) -> Self {
        let mut s = self.seed.clone();
        if !self.agree {
            s.u64();
        }
        Liar { seed: s, left: if self.agree { self.left } else { self.left + 1 }, agree: self.agree, max: self.max }
    }
}
impl Iterator for Liar {
    type Item = Vec<u8>;
    fn next(&mut self) -> Option<Vec<u8>> {
        if self.left == 0 {
            return None;
        }
        self.left -= 1;
        let n = self.seed.below(self.max);
        Some(self.seed.bytes(n))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (usize::MAX / 2, Some(0))
    }
}

fn iterators(m: &mut Mon, r: &mut Rng) {
    let id = gens::id(r);
    let i = unsafe { IdRef::from_bytes_unchecked(&id) };
    let l = Liar {
        seed: r.clone(),
        left: r.below(6),
        agree: r.chance(1, 5),
        max: *r.pick(&[4usize, 12, 24, 60, 200]),
    };
    let items: Vec<Shifty> = (0..r.below(4)).map(|_| shifty(r)).collect();
    let run = |m: &mut Mon, f: &dyn Fn() -> Ber| match catch_unwind(AssertUnwindSafe(f)) {
        Ok(b) => {
            touch_ber(m, &b);
            let v = b.into_vec();
            touch(&v);
            m.ev("disagreeing iterators accepted");
        }
        Err(_) => m.ev("disagreeing iterators refused"),
    };
    run(m, &|| Ber::from(Der::from_id_iterator(i, l.clone())));
    run(m, &|| Ber::from_id_iterator(i, l.clone()));
    run(m, &|| unsafe { Ber::from_id_iterator_indefinite(i, l.clone()) });
    run(m, &|| Ber::from(Der::from_id_iterator(i, items.iter())));
    run(m, &|| Ber::from_id_iterator(i, items.iter()));
    run(m, &|| unsafe { Ber::from_id_iterator_indefinite(i, items.iter()) });
}

/// A reader that looks at the space it is given, claims odd counts, or panics.
struct Nasty<'a> {
    data: &'a [u8],
    pos: usize,
    mode: usize,
    at: usize,
    calls: usize,
    seen: u64,
}
impl Read for Nasty<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.calls += 1;
        // reading the space is safe code
        self.seen ^= hash_bytes(3, buf);
        if self.calls > self.at {
            match self.mode {
                0 => panic!("reader gives up"),
                1 => return Ok(buf.len() + 1 + self.calls % 7),
                2 => return Err(FAILS[self.calls % FAILS.len()].into()),
                3 => return Ok(usize::MAX),
                4 if self.calls < self.at + 20 && self.pos < 400_000 => {
                    // claims progress without writing
                    self.pos += buf.len();
                    return Ok(buf.len());
                }
                _ => {}
            }
        }
        let rest = &self.data[self.pos.min(self.data.len())..];
        let n = rest.len().min(buf.len()).min(1 + self.calls % 5000);
        buf[..n].copy_from_slice(&rest[..n]);
        self.pos += n;
        Ok(n)
    }
}

fn readers(m: &mut Mon, r: &mut Rng) {
    let mut b = match r.below(3) {
        0 => {
            let (d, x) = (r.below(4), r.below(8));
            gens::element(r, d, x)
        }
        1 => {
            // larger than the data that follows
            let mut v = gens::id(r);
            v.extend(enc_len(*r.pick(&[30usize, 5000, 70_000])));
            let n = if cfg!(miri) { r.below(50) } else { r.below(10_000) };
            v.extend(r.bytes(n));
            v
        }
        _ => {
            let n = if cfg!(miri) { r.below(60) } else { *r.pick(&[10usize, 100, 5000, 20_000]) };
            let n = r.range(1, n + 1);
            enc_tlv(&gens::id(r), &r.bytes(n))
        }
    };
    if r.chance(1, 4) {
        gens::mutate(r, &mut b);
    }
    let (mode, at) = (r.below(6), r.below(12));
    for w in 0..6 {
        let mut rd = Nasty { data: &b, pos: 0, mode, at, calls: 0, seen: 0 };
        let x = catch_unwind(AssertUnwindSafe(|| match w {
            0 => Der::parse(&mut rd).map(|d| touch(d.as_ref())).is_ok(),
            1 => Ber::parse(&mut rd).map(|d| touch(d.as_ref())).is_ok(),
            2 => Id::parse(&mut rd).map(|d| touch(d.as_ref())).is_ok(),
            3 => Length::parse(&mut rd).is_ok(),
            4 => bsn1_serde::read_ber::<_, Vec<String>>(&mut rd).is_ok(),
            _ => bsn1_serde::read_der::<_, bsn1_serde::OctetString>(&mut rd).is_ok(),
        }));
        match x {
            Ok(true) => m.ev("hostile reader: value"),
            Ok(false) => m.ev("hostile reader: error"),
            Err(_) => m.ev("hostile reader: panic passed on"),
        }
        m.sig(rd.seen ^ (w as u64) << 60 ^ (mode as u64) << 50);
    }
}

/// A writer that claims odd counts or panics.
struct BadSink {
    mode: usize,
    at: usize,
    calls: usize,
    sum: u64,
}
impl Write for BadSink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.calls += 1;
        self.sum ^= touch(b);
        if self.calls > self.at {
            match self.mode {
                0 => panic!("sink gives up"),
                1 => return Ok(b.len() + 3),
                2 => return Ok(0),
                3 => return Err(FAILS[self.calls % FAILS.len()].into()),
                _ => return Ok(b.len().div_ceil(2)),
            }
        }
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        panic!("flush")
    }
}

fn writers(m: &mut Mon, r: &mut Rng) {
    use std::collections::*;
    let (n, k) = (r.below(20), r.below(6));
    let a: Vec<u64> = (0..n).map(|_| r.u64() >> r.below(64)).collect();
    let b: BTreeMap<String, Vec<i8>> = (0..k).map(|_| (gens::string(r), vec![r.u8() as i8; r.below(4)])).collect();
    let c: HashSet<i128> = (0..n).map(|_| r.u128() as i128 >> r.below(127)).collect();
    let d: HashMap<u8, String> = (0..k).map(|_| (r.u8(), gens::string(r))).collect();
    let (mode, at) = (r.below(5), r.below(30));
    let mut s = BadSink { mode, at, calls: 0, sum: 0 };
    let x = catch_unwind(AssertUnwindSafe(|| {
        (
            bsn1_serde::write_der(&a, &mut s).is_ok(),
            bsn1_serde::write_der(&b, &mut s).is_ok(),
            bsn1_serde::write_ber(&c, &mut s).is_ok(),
            bsn1_serde::write_der(&d, &mut s).is_ok(),
        )
    }));
    m.ev(match x {
        Err(_) => "hostile writer: panic passed on",
        Ok((true, true, true, true)) => "hostile writer: all written",
        Ok(_) => "hostile writer: error",
    });
    m.sig(s.sum);
    if let Ok(e) = bsn1_serde::to_der(&d) {
        touch_ber(m, <&BerRef>::from(AsRef::<DerRef>::as_ref(&e)));
    }
}

/// Views into a caller's buffer, read and written through, then the buffer is used again.
fn views(m: &mut Mon, r: &mut Rng) {
    let (d, x) = (r.below(3), r.below(8));
    let mut b = gens::element(r, d, x);
    let tail = r.below(5);
    b.extend(r.bytes(tail));
    let keep = b.clone();
    {
        let mut s = &mut b[..];
        if let Ok(e) = BerRef::parse_mut(&mut s) {
            e.mut_id().set_class(bsn1::ClassTag::Private);
            let (i, _, c) = e.disassemble_mut();
            i.set_pc(bsn1::PCTag::Constructed);
            for o in c.as_mut() {
                *o = o.wrapping_add(1);
            }
            i.set_class(bsn1::ClassTag::Universal);
            let n = c.len();
            if n > 0 {
                c[n - 1] = 0;
            }
            m.sig(touch(e.as_ref()));
        }
        for o in s.iter_mut() {
            *o ^= 1;
        }
    }
    touch(&b);
    let mut b = keep;
    {
        let mut s = &mut b[..];
        if let Ok(e) = DerRef::parse_mut(&mut s) {
            let (i, _, c) = e.disassemble_mut();
            i.set_class(bsn1::ClassTag::Application);
            c.as_mut().reverse();
            i.set_pc(bsn1::PCTag::Primitive);
            m.sig(touch(e.as_ref()));
        }
        if !s.is_empty() {
            s[0] = 1;
        }
    }
    {
        let mut s = &mut b[..];
        if let Ok(i) = IdRef::parse_mut(&mut s) {
            i.set_class(bsn1::ClassTag::Private);
            i.set_pc(bsn1::PCTag::Constructed);
            let _ = i.number().map(|n| n.get());
            touch(i.as_ref());
        }
        for o in s.iter_mut() {
            *o = 0;
        }
    }
    touch(&b);
    let n = r.below(40);
    let mut c = Contents::from(r.bytes(n));
    for o in AsMut::<[u8]>::as_mut(&mut c) {
        *o ^= 3;
    }
    touch(c.as_ref());
    let mut raw = r.bytes(n + 1);
    let cr = <&mut ContentsRef>::from(&mut raw[..]);
    cr[0] = 1;
    touch(cr.as_ref());
    m.ev("mutable views");
}

fn identifiers(m: &mut Mon, r: &mut Rng) {
    let mut i = Id::new(
        *r.pick(&[bsn1::ClassTag::Universal, bsn1::ClassTag::Private]),
        bsn1::PCTag::Primitive,
        gens::number(r).into(),
    );
    for _ in 0..r.below(8) {
        match r.below(4) {
            0 | 1 => i.set_number(gens::number(r).into()),
            2 => i.set_class(bsn1::ClassTag::ContextSpecific),
            _ => i = i.clone(),
        }
        m.sig(touch(i.as_ref()));
        let _ = i.number();
    }
    m.ev("identifier histories");
}

/// Blanks must not show what memory held before.
fn blanks(m: &mut Mon, r: &mut Rng) {
    let id = gens::id(r);
    let i = unsafe { IdRef::from_bytes_unchecked(&id) };
    let n = if cfg!(miri) { r.below(80) } else { gens::size(r) };
    let make = |k: usize| -> Vec<u8> {
        match k {
            0 => Der::with_id_length(i, n).into_vec(),
            1 => Ber::with_id_length(i, n).into_vec(),
            _ => unsafe { Ber::with_id_length_indefinite(i, n).into_vec() },
        }
    };
    for k in 0..3 {
        let old = alloc::FRESH.swap(0x11, Ordering::Relaxed);
        let a = make(k);
        alloc::FRESH.store(0xE7, Ordering::Relaxed);
        let b = make(k);
        alloc::FRESH.store(old, Ordering::Relaxed);
        m.evals += 1;
        touch(&a);
        if a != b {
            m.fail_hard(format!("blank element of {n} contents octets shows what memory held before"));
        }
    }
    m.ev("blanks");
    m.sig(n as u64);
}

/// The same calls with fresh memory filled in different ways.
fn fills(m: &mut Mon, r: &mut Rng) {
    let rr = r.clone();
    let go = |fill: u8| -> u64 {
        let mut r = rr.clone();
        let old = alloc::FRESH.swap(fill, Ordering::Relaxed);
        let (el, _, _) = c08::start(&mut r);
        let mut h = hash_bytes(1, el.octets());
        let mut d = match el {
            c08::El::D(d) => Ber::from(d),
            c08::El::B(b) => b,
        };
        for _ in 0..6 {
            match r.below(4) {
                0 => d.push(r.u8()),
                1 => {
                    let n = r.below(100);
                    d.extend_from_slice(&r.bytes(n))
                }
                2 => d.truncate(r.below(100)),
                _ => d = d.clone(),
            }
            h = h.rotate_left(9) ^ hash_bytes(2, d.as_ref());
        }
        let b = c07::plausible(&mut r, 3);
        for t in 0..6 {
            let e = bsn1_serde::parse_ber::<Vec<Vec<String>>>(&mut &b[..]);
            h = h.rotate_left(3) ^ e.map(|v| v.len() as u64).unwrap_or(77) ^ t;
        }
        let e = Ber::parse(&mut ScriptReader::new(&b, 3, 1, b.len(), End::Eof, r.clone()));
        h ^= e.map(|e| touch(e.as_ref())).unwrap_or(5);
        h ^= touch(Contents::from(r.u128() >> r.below(127)).as_ref());
        alloc::FRESH.store(old, Ordering::Relaxed);
        h
    };
    let (a, b) = (go(0x13), go(0xE9));
    m.evals += 1;
    m.ev("fill patterns compared");
    if a != b {
        m.fail_hard("results depend on what fresh memory held".into());
    }
    m.sig(a);
}

fn partial_values(m: &mut Mon, r: &mut Rng) {
    let d = r.range(1, 4);
    let mut b = c07::plausible(r, d);
    if r.chance(1, 2) {
        gens::mutate(r, &mut b);
    }
    if r.chance(1, 8) {
        b = c07::hostile(r);
    }
    let der = DerRef::parse(&mut &b[..]).ok();
    let ber = BerRef::parse(&mut &b[..]).ok();
    for _ in 0..4 {
        let (t, e) = (r.below(c07::TYPES), r.below(6));
        if c07::as_type(t, der, ber, &b, e) {
            m.ev("values built and dropped");
        } else {
            m.ev("values given up half-way");
        }
    }
    m.sig_bytes(9, &b);
}

fn errors(m: &mut Mon, r: &mut Rng) {
    let b = c07::hostile(r);
    let e: Result<Vec<i32>, Error> = bsn1_serde::parse_ber(&mut &b[..]);
    if let Err(e) = e {
        let e = e.context("outer").context(String::from("owned"));
        touch(format!("{e} {e:?}").as_bytes());
        let _ = format!("{:?}", e.root_cause());
        let a = e.as_anyhow().map(|a| a.chain().count());
        m.sig(a.unwrap_or(0) as u64);
        let _ = e.into_anyhow();
        m.ev("errors built and dropped");
    }
}

/// Shared and moved between threads.
/// What several threads look at together.
struct Shared {
    der: Der,
    ber: Ber,
    contents: Contents,
    id: Id,
    octets: Vec<u8>,
    body: Vec<u8>,
    map: BTreeMap<String, Vec<i32>>,
    text: bsn1_serde::OctetString<'static>,
    error: Error,
}

/// One look at the shared values through `&self` alone; false if something is not as it was built.
fn look(s: &Shared, r: &mut Rng) -> bool {
    let d: &DerRef = s.der.as_ref();
    let b: &BerRef = s.ber.as_ref();
    match r.below(14) {
        0 => AsRef::<[u8]>::as_ref(&s.der) == s.octets && AsRef::<[u8]>::as_ref(&s.ber) == s.octets,
        1 => {
            let (i, l, c) = d.disassemble();
            i == s.id.as_ref() as &IdRef && l.definite() == Some(s.body.len()) && c.as_ref() == s.body
        }
        2 => {
            let mut mine = s.ber.clone();
            mine.push(r.u8());
            let mut also = s.der.clone();
            also.extend_from_slice(&s.body);
            mine != s.ber && (also != s.der || s.body.is_empty())
        }
        3 => b.id() == d.id() && b.length() == d.length() && b.contents() == d.contents(),
        4 => {
            let mut mine = s.id.clone();
            mine.set_class(bsn1::ClassTag::Private);
            let n = s.id.number();
            let _ = (mine.set_number((r.u128() >> r.below(128)).into()), s.id.class(), s.id.pc(), s.id.len());
            n == (d.id() as &IdRef).number()
        }
        5 => {
            let c: &ContentsRef = s.contents.as_ref();
            let _ = (c.to_integer::<i8>(), c.to_integer::<u64>(), c.to_bool_ber(), c.to_bool_der());
            c.to_integer::<i128>() == d.contents().to_integer::<i128>()
        }
        6 => s.der == s.der.clone() && s.ber == b.to_owned() && s.id <= s.id.clone() && s.contents == Contents::from(&s.body[..]),
        7 => {
            let h = |v: &dyn Fn(&mut std::collections::hash_map::DefaultHasher)| {
                let mut h = Default::default();
                v(&mut h);
                std::hash::Hasher::finish(&h)
            };
            use std::hash::Hash;
            h(&|x| s.der.hash(x)) == h(&|x| d.hash(x)) && h(&|x| s.id.hash(x)) == h(&|x| s.id.clone().hash(x))
        }
        8 => {
            let v = s.ber.clone().into_vec();
            v == s.octets && d.to_owned().into_vec() == v
        }
        9 => {
            let mut i = &s.octets[..];
            let mut j = &s.octets[..];
            Ber::parse(&mut i).is_ok_and(|x| x == s.ber) && DerRef::parse(&mut j).is_ok_and(|x| x == d)
        }
        10 => {
            let x = bsn1_serde::to_der(&s.map);
            let mut out = Vec::new();
            bsn1_serde::write_der(&s.map, &mut out).is_ok() && x.is_ok_and(|x| AsRef::<[u8]>::as_ref(&x) == out)
        }
        11 => {
            let x = bsn1_serde::to_ber(&s.text).unwrap();
            bsn1_serde::from_ber::<bsn1_serde::OctetString>(&x).is_ok_and(|x| x == s.text)
        }
        12 => {
            let x = bsn1_serde::from_ber::<Vec<u8>>(b);
            let y = bsn1_serde::from_der::<Vec<u8>>(d);
            let e = y.as_ref().err().map(|e| e.root_cause().to_string());
            drop(y);
            x.map_err(|e| e.context("again")).is_ok() || e.is_some() || s.body.is_empty()
        }
        _ => {
            let _ = (s.error.to_string(), format!("{:?} {:?}", s.der, s.id));
            s.error.root_cause() == &Error::OverFlow
                && AsRef::<[u8]>::as_ref(IdRef::sequence()) == [0x30]
                && AsRef::<[u8]>::as_ref(DerRef::boolean(true)).len() == 3
        }
    }
}

fn threads(m: &mut Mon, r: &mut Rng) {
    let id = gens::id(r);
    let n = *r.pick(&[0usize, 5, 15, 22, 40, 200]);
    let c = r.bytes(n);
    let octets = enc_tlv(&id, &c);
    let der = Der::new(unsafe { IdRef::from_bytes_unchecked(&id) }, <&ContentsRef>::from(&c[..]));
    let shared = Arc::new(Shared {
        ber: Ber::from(AsRef::<DerRef>::as_ref(&der)),
        contents: Contents::from(&c[..]),
        id: der.id().to_owned(),
        map: (0..r.below(4)).map(|i| (i.to_string(), vec![i as i32 - 2; i])).collect(),
        text: bsn1_serde::OctetString::new(&[7; 20][..]),
        error: Error::OverFlow.context("shared"),
        octets: octets.clone(),
        body: c,
        der,
    });
    let nt = if cfg!(miri) { 2 } else { 3 };
    let looks = if cfg!(miri) { 8 } else { 30 };
    let handles: Vec<_> = (0..nt)
        .map(|t| {
            let s = shared.clone();
            let mut own = shared.der.clone();
            let mut rr = Rng::new(r.u64());
            std::thread::spawn(move || {
                let mut ok = true;
                for k in 0..looks {
                    ok &= look(&s, &mut rr);
                    own.extend_from_slice(&[t as u8; 3][..k % 4]);
                }
                // the last owner may be any thread
                drop(s);
                (ok, own)
            })
        })
        .collect();
    if r.chance(1, 2) {
        drop(shared);
    }
    for h in handles {
        match h.join() {
            Ok((ok, own)) => {
                m.evals += 1;
                touch(own.as_ref());
                if !ok {
                    m.fail_hard(format!("{} changed or misread under concurrent readers", crate::core::hex(&octets)));
                }
                drop(own);
            }
            Err(_) => m.ev("thread panicked"),
        }
    }
    m.ev_n("threads", nt as u64);
    m.ev_n("looks at shared values", nt as u64 * looks as u64);
    m.sig_bytes(4, &octets);
}

fn sendable() {
    fn both<T: ?Sized + Send + Sync>() {}
    both::<Der>();
    both::<Ber>();
    both::<Contents>();
    both::<Id>();
    both::<DerRef>();
    both::<Error>();
}

pub fn run(run: &mut Run) {
    MUTED.store(true, Ordering::Relaxed);
    sendable();
    let native = run.tier != Tier::Tiny;
    macro_rules! acc {
        ($name:expr, $n:expr, $f:expr) => {{
            let n = $n;
            run.group($name, n, &|m, r, _| balanced(m, r, $name, &$f));
        }};
    }
    acc!("hostile byte sources", run.n(6, 60_000, 1_500_000), sources);
    acc!("hostile iterators", run.n(6, 15_000, 1_500_000), iterators);
    acc!("hostile readers", run.n(5, 20_000, 800_000), readers);
    acc!("hostile writers", run.n(2, 15_000, 300_000), writers);
    acc!("mutable views", run.n(5, 60_000, 1_500_000), views);
    acc!("identifiers", run.n(4, 60_000, 1_500_000), identifiers);
    acc!("histories", run.n(12, 50_000, 1_000_000), |m: &mut Mon, r: &mut Rng| c08::history(m, r, 12));
    acc!("routes", run.n(3, 8_000, 200_000), |m: &mut Mon, r: &mut Rng| {
        let id = gens::id(r);
        let n = if cfg!(miri) { r.below(60) } else { gens::size(r) };
        let c = gens::fill(r, n);
        c09::routes(m, r, &id, &c)
    });
    acc!("primitive values", run.n(3, 20_000, 400_000), |m: &mut Mon, r: &mut Rng| c09::prims(m, r));
    acc!("copies", run.n(2, 15_000, 300_000), |m: &mut Mon, r: &mut Rng| c11::independence(m, r));
    acc!("comparisons", run.n(1, 4_000, 80_000), |m: &mut Mon, r: &mut Rng| {
        c11::elements(m, r);
        c11::ids(m, r)
    });
    acc!("values", run.n(8, 60_000, 1_500_000), partial_values);
    acc!("errors", run.n(4, 20_000, 400_000), errors);
    if native {
        // patterns are process-wide: one thread
        let t = std::mem::replace(&mut run.threads, 1);
        let n = run.n(0, 6_000, 100_000);
        run.group("blanks", n, &|m, r, _| blanks(m, r));
        let n = run.n(0, 10_000, 150_000);
        run.group("fill patterns", n, &|m, r, _| fills(m, r));
        run.threads = t;
    } else {
        run.group("blanks", 4, &|m, r, _| blanks(m, r));
    }
    let n = run.n(2, 3_000, 60_000);
    run.group("threads", n, &|m, r, _| threads(m, r));
}
