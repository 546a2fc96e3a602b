//! C11: equality, order, hash and copies follow the octets.

use crate::core::{hex, Mon, Run};
use crate::gens;
use crate::rng::Rng;
use bsn1::{Ber, BerRef, Contents, ContentsRef, Der, DerRef, Id, IdRef};
use bsn1_serde::OctetString;
use std::borrow::Borrow;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::{Hash, Hasher};

fn h<T: ?Sized + Hash>(t: &T) -> u64 {
    let mut s = DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}

/// Two related byte strings: equal, differing in one place, prefix, or unrelated.
fn variant(r: &mut Rng, a: &[u8], min: usize) -> Vec<u8> {
    let mut b = a.to_vec();
    match r.below(6) {
        0 | 1 => {}
        2 if b.len() > min => {
            let i = r.range(min, b.len() - 1);
            b[i] ^= 1 << r.below(8);
        }
        3 if b.len() > min => {
            b.pop();
        }
        4 => b.push(r.u8()),
        _ => {
            if b.len() > min {
                let i = b.len() - 1;
                b[i] = b[i].wrapping_add(1);
            }
        }
    }
    b
}

/// The same octets in owned forms stored differently, for one kind.
macro_rules! kind_checks {
    ($m:expr, $name:expr, $owned:ty, $bor:ty, $forms:expr, $view:expr, $a:expr, $b:expr) => {{
        let m: &mut Mon = $m;
        let (a, b): (&[u8], &[u8]) = ($a, $b);
        let eq = a == b;
        let fa: Vec<$owned> = $forms(a);
        let fb: Vec<$owned> = $forms(b);
        let ra: &$bor = $view(a);
        let rb: &$bor = $view(b);
        let mut bad: Vec<&'static str> = Vec::new();
        let mut n = 0u64;
        {
            let mut want = |got: bool, w: bool, what: &'static str| {
                n += 1;
                if got != w {
                    bad.push(what);
                }
            };
            want(*ra == *rb, eq, "borrowed == borrowed");
            want(*rb == *ra, eq, "borrowed == borrowed (swapped)");
            want(*ra == *ra, true, "borrowed == itself");
            for x in &fa {
                let xb: &$bor = x.borrow();
                want(*x == *x, true, "owned == itself");
                want(*x == rb, eq, "owned == borrowed");
                want(*rb == *x, eq, "borrowed == owned");
                want(*x == ra, true, "owned == its own octets");
                want(*xb == *ra, true, "borrow of owned == borrowed");
                want(h(x) == h(ra), true, "hash owned = hash borrowed");
                want(h(xb) == h(ra), true, "hash of borrow = hash borrowed");
                want(AsRef::<[u8]>::as_ref(x) == a, true, "octets of owned");
                let c = x.clone();
                want(c == *x && h(&c) == h(x), true, "clone equal");
                want(x.to_owned() == c, true, "to_owned equal");
                for y in &fb {
                    want(*x == *y, eq, "owned == owned");
                    want(*y == *x, eq, "owned == owned (swapped)");
                    want((*x != *y) == !eq, true, "owned != owned");
                    if eq {
                        want(h(x) == h(y), true, "equal values, equal hash");
                    }
                }
            }
            // lookups by borrowed form
            let mut map: HashMap<$owned, usize> = HashMap::new();
            for (i, x) in fa.iter().enumerate() {
                map.insert(x.clone(), i);
            }
            want(map.len() == 1, true, "one key for equal octets");
            want(map.contains_key(ra), true, "lookup by borrowed form");
            want(map.contains_key(rb), eq, "lookup of another value");
            for y in &fb {
                want(map.contains_key(y), eq, "lookup by owned form");
            }
            for y in &fb {
                map.insert(y.clone(), 99);
            }
            want(map.len() == if eq { 1 } else { 2 }, true, "keys after inserting both");
        }
        m.evals += n;
        for w in bad {
            m.fail(format!("{} {}: wrong for {} and {}", $name, w, hex(a), hex(b)));
        }
        m.ev(if eq { "equal pairs" } else { "different pairs" });
    }};
}

fn vec_spare(b: &[u8], n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(b.len() + n);
    v.extend_from_slice(b);
    v
}

fn der_forms(b: &[u8]) -> Vec<Der> {
    unsafe {
        vec![
            Der::from_bytes_unchecked(b),
            Der::from_vec_unchecked(vec_spare(b, 0)),
            Der::from_vec_unchecked(vec_spare(b, 40)),
            DerRef::from_bytes_unchecked(b).to_owned(),
            {
                // shrunk from something larger, stays on the heap
                let mut d = Der::from_vec_unchecked(vec_spare(b, 0));
                let n = d.contents().len();
                d.extend_from_slice(&[9u8; 70]);
                d.truncate(n);
                d
            },
        ]
    }
}
fn ber_forms(b: &[u8]) -> Vec<Ber> {
    unsafe {
        vec![
            Ber::from_bytes_unchecked(b),
            Ber::from_vec_unchecked(vec_spare(b, 0)),
            Ber::from_vec_unchecked(vec_spare(b, 40)),
            BerRef::from_bytes_unchecked(b).to_owned(),
            Ber::from_vec_unchecked(vec_spare(b, 1)).clone(),
        ]
    }
}
fn contents_forms(b: &[u8]) -> Vec<Contents> {
    vec![
        Contents::from(b),
        Contents::from(vec_spare(b, 0)),
        Contents::from(vec_spare(b, 40)),
        Contents::from(<&ContentsRef>::from(b)),
        Contents::from(vec_spare(b, 3)).clone(),
    ]
}
fn id_forms(b: &[u8]) -> Vec<Id> {
    unsafe {
        vec![
            Id::from_bytes_unchecked(b),
            Id::from(IdRef::from_bytes_unchecked(b)),
            IdRef::from_bytes_unchecked(b).to_owned(),
            Id::from_bytes_unchecked(b).clone(),
            Id::parse(&mut &b[..]).expect("valid identifier refused"),
        ]
    }
}

pub fn elements(m: &mut Mon, r: &mut Rng) {
    let id = gens::id(r);
    let n = gens::small_size(r);
    let c = gens::fill(r, n);
    let idb = if r.chance(1, 4) { gens::id(r) } else { id.clone() };
    let cb = variant(r, &c, 0);
    let (a, b) = (crate::model::enc_tlv(&id, &c), crate::model::enc_tlv(&idb, &cb));
    kind_checks!(m, "DER", Der, DerRef, der_forms, |x| unsafe { DerRef::from_bytes_unchecked(x) }, &a, &b);
    kind_checks!(m, "BER", Ber, BerRef, ber_forms, |x| unsafe { BerRef::from_bytes_unchecked(x) }, &a, &b);
    kind_checks!(m, "contents", Contents, ContentsRef, contents_forms, |x: &'static [u8]| <&ContentsRef>::from(x), leak(&c), leak(&cb));
    m.sig_bytes(1, &a);
    m.sig_bytes(2, &b);
    m.sample(|| format!("{} against {}", hex(&a), hex(&b)));
}

// The borrowed view closure needs one concrete lifetime; the slices outlive the call anyway.
fn leak(b: &[u8]) -> &'static [u8] {
    unsafe { std::slice::from_raw_parts(b.as_ptr(), b.len()) }
}

pub fn indefinite(m: &mut Mon, r: &mut Rng) {
    let (d, x) = (r.range(1, 3), r.range(1, 8));
    let a = gens::element(r, d, x);
    // the same value in another length form is another BER
    let b = if r.chance(1, 2) { a.clone() } else { gens::element(r, d, x) };
    kind_checks!(m, "BER", Ber, BerRef, ber_forms, |x| unsafe { BerRef::from_bytes_unchecked(x) }, &a, &b);
    m.sig_bytes(3, &a);
}

pub fn ids(m: &mut Mon, r: &mut Rng) {
    let a = gens::id(r);
    let b = match r.below(5) {
        0 => a.clone(),
        1 => {
            let mut b = a.clone();
            b[0] ^= *r.pick(&[0x20u8, 0x40, 0x80]);
            b
        }
        2 if a.len() > 2 => {
            let mut b = a.clone();
            let l = b.len() - 1;
            b[l] = (b[l] + 1) & 0x7f;
            b
        }
        _ => gens::id(r),
    };
    kind_checks!(m, "identifier", Id, IdRef, id_forms, |x| unsafe { IdRef::from_bytes_unchecked(x) }, &a, &b);
    let want = a.cmp(&b);
    let (fa, fb) = (id_forms(&a), id_forms(&b));
    let (ra, rb) = unsafe { (IdRef::from_bytes_unchecked(&a), IdRef::from_bytes_unchecked(&b)) };
    m.eq("IdRef cmp", ra.cmp(rb), want);
    m.eq("IdRef partial_cmp", PartialOrd::partial_cmp(ra, rb), Some(want));
    m.eq("IdRef operators", [ra < rb, ra <= rb, ra > rb, ra >= rb], ops(want));
    for x in &fa {
        m.eq("Id cmp IdRef", PartialOrd::<&IdRef>::partial_cmp(x, &rb), Some(want));
        m.eq("IdRef cmp Id", PartialOrd::<Id>::partial_cmp(ra, &fb[0]), Some(want));
        for y in &fb {
            m.eq("Id cmp", x.cmp(y), want);
            m.eq("Id partial_cmp", PartialOrd::<Id>::partial_cmp(x, y), Some(want));
            m.eq("Id operators", [x < y, x <= y, x > y, x >= y], ops(want));
            m.eq("Id max", x.clone().max(y.clone()) == *x, want != Ordering::Less || a == b);
        }
    }
    // ordered lookup by borrowed form, with company
    let mut map: BTreeMap<Id, Vec<u8>> = BTreeMap::new();
    let mut all = vec![a.clone(), b.clone()];
    for _ in 0..6 {
        all.push(gens::id(r));
    }
    for x in &all {
        map.insert(id_forms(x).swap_remove(r.below(5)), x.clone());
    }
    for x in &all {
        let k = unsafe { IdRef::from_bytes_unchecked(x) };
        m.eq("BTreeMap lookup by borrowed form", map.get(k), Some(x));
    }
    let mut sorted: Vec<Vec<u8>> = all.clone();
    sorted.sort();
    sorted.dedup();
    m.eq("BTreeMap order", map.values().cloned().collect::<Vec<_>>(), sorted.clone());
    let set: HashSet<Id> = all.iter().map(|x| unsafe { Id::from_bytes_unchecked(x) }).collect();
    m.eq("HashSet size", set.len(), sorted.len());
    m.ev("identifier orderings");
    m.sig_bytes(4, &a);
    m.sig_bytes(5, &b);
}

fn ops(o: Ordering) -> [bool; 4] {
    [o == Ordering::Less, o != Ordering::Greater, o == Ordering::Greater, o != Ordering::Less]
}

/// A copy and its source never see each other's later changes.
pub fn independence(m: &mut Mon, r: &mut Rng) {
    let id = gens::id(r);
    let n = gens::small_size(r);
    let c = r.bytes(n);
    let a = crate::model::enc_tlv(&id, &c);
    for mut d in der_forms(&a) {
        let copies: [Der; 3] = [d.clone(), (*d).to_owned(), Der::from(AsRef::<DerRef>::as_ref(&d))];
        let ber: Ber = Ber::from(AsRef::<DerRef>::as_ref(&d));
        let grown = r.below(60);
        d.extend_from_slice(&vec![1u8; grown]);
        d.mut_id().set_class(bsn1::ClassTag::Private);
        if !c.is_empty() {
            d.mut_contents()[0] = c[0] ^ 0xff;
        }
        d.truncate(c.len() / 2);
        for k in &copies {
            m.eq_bytes("copy after the source changed", k.as_ref(), &a);
        }
        m.eq_bytes("BER copy after the source changed", ber.as_ref(), &a);
        let before = AsRef::<[u8]>::as_ref(&d).to_vec();
        for mut k in copies {
            if !c.is_empty() {
                k.mut_contents()[0] ^= 0x55;
            }
            k.push(3);
        }
        m.eq_bytes("source after its copies changed", d.as_ref(), &before);
    }
    for mut k in contents_forms(&c) {
        let copy = k.clone();
        let owned: Contents = AsRef::<ContentsRef>::as_ref(&k).to_owned();
        for x in AsMut::<[u8]>::as_mut(&mut k).iter_mut() {
            *x ^= 0xff;
        }
        m.eq_bytes("contents copy", copy.as_ref(), &c);
        m.eq_bytes("contents owned copy", owned.as_ref(), &c);
    }
    for mut k in id_forms(&id) {
        let copy = k.clone();
        k.set_number(12345u32.into());
        k.set_class(bsn1::ClassTag::Application);
        m.eq_bytes("identifier copy", copy.as_ref(), &id);
    }
    m.ev("independence histories");
    m.sig_bytes(6, &a);
}

fn octet_strings(m: &mut Mon, r: &mut Rng) {
    let n = gens::small_size(r);
    let a = gens::fill(r, n);
    let b = variant(r, &a, 0);
    let forms = |c: &[u8]| [OctetString::from(c.to_vec()), OctetString::from(c.to_vec()).clone()];
    let (fa, fb) = (forms(&a), forms(&b));
    let la = [OctetString::new(&a), OctetString::from(&a[..]).clone()];
    let lb = [OctetString::new(&b), OctetString::from(&b[..]).clone()];
    for x in fa.iter().chain(&la) {
        for y in fb.iter().chain(&lb) {
            m.check((x == y) == (a == b), || format!("octet strings {} and {}: equal is {}", hex(&a), hex(&b), x == y));
            m.check(x.cmp(y) == a.cmp(&b) && x.partial_cmp(y) == Some(a.cmp(&b)), || {
                format!("octet strings {} and {}: order is {:?}", hex(&a), hex(&b), x.cmp(y))
            });
            if a == b {
                m.check(h(x) == h(y), || format!("octet strings {}: hashes differ", hex(&a)));
            }
        }
    }
    m.ev(if a == b { "equal pairs" } else { "different pairs" });
    m.sig_bytes(9, &a);
    m.sig_bytes(10, &b);
}

pub fn run(run: &mut Run) {
    let n = run.n(4, 15_000, 400_000);
    run.group("elements", n, &|m, r, _| elements(m, r));
    run.group("indefinite elements", n / 2, &|m, r, _| indefinite(m, r));
    run.group("identifiers", n, &|m, r, _| ids(m, r));
    run.group("copies", n, &|m, r, _| independence(m, r));
    run.group("octet strings", n, &|m, r, _| octet_strings(m, r));
}
