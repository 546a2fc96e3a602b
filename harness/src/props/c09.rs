//! C09: every construction route and conversion gives the same octets.

use crate::core::{hex, Mon, Run};
use crate::gens;
use crate::model::{enc_int, enc_tlv, Int};
use crate::rng::Rng;
use bsn1::{Ber, BerRef, Contents, ContentsRef, Der, DerRef, IdRef};
use bsn1_serde::OctetString;

fn idref(b: &[u8]) -> &IdRef {
    unsafe { IdRef::from_bytes_unchecked(b) }
}

fn pieces(r: &mut Rng, c: &[u8]) -> Vec<Vec<u8>> {
    let mut v = Vec::new();
    let mut at = 0;
    // few large pieces, or very many small ones
    let most = if r.chance(1, 4) { r.range(1, 3) } else { 9.max(c.len() / 5) };
    while at < c.len() {
        let n = r.range(0, most).min(c.len() - at);
        v.push(c[at..at + n].to_vec());
        at += n;
    }
    for _ in 0..r.below(3) {
        let i = r.below(v.len() + 1);
        v.insert(i, vec![]);
    }
    v
}

pub fn routes(m: &mut Mon, r: &mut Rng, id: &[u8], c: &[u8]) {
    let want = enc_tlv(id, c);
    let i = idref(id);
    let cr = <&ContentsRef>::from(c);
    let ps = pieces(r, c);
    let der = Der::new(i, cr);
    let ber = Ber::new(i, cr);
    let mut checked = 0u64;
    let mut same = |m: &mut Mon, what: &str, got: &[u8]| {
        checked += 1;
        m.eq_bytes(what, got, &want);
    };
    same(m, "Der::new", der.as_ref());
    same(m, "Ber::new", ber.as_ref());
    let mut d = Der::with_id_length(i, c.len());
    m.eq("with_id_length contents size", d.contents().len(), c.len());
    d.mut_contents().as_mut().copy_from_slice(c);
    same(m, "Der::with_id_length", d.as_ref());
    let mut b = Ber::with_id_length(i, c.len());
    m.eq("with_id_length contents size", b.contents().len(), c.len());
    b.mut_contents().as_mut().copy_from_slice(c);
    same(m, "Ber::with_id_length", b.as_ref());
    same(m, "Der::from_id_iterator", Der::from_id_iterator(i, ps.iter()).as_ref());
    same(m, "Ber::from_id_iterator", Ber::from_id_iterator(i, ps.iter()).as_ref());
    let der_pieces: Vec<&ContentsRef> = ps.iter().map(|p| <&ContentsRef>::from(&p[..])).collect();
    same(m, "Der::from_id_iterator(ContentsRef)", Der::from_id_iterator(i, der_pieces.iter()).as_ref());
    match Der::parse(&mut &want[..]) {
        Ok(d) => same(m, "Der::parse", d.as_ref()),
        Err(e) => m.fail(format!("Der::parse refused {}: {e}", hex(&want))),
    }
    match Ber::parse(&mut &want[..]) {
        Ok(d) => same(m, "Ber::parse", d.as_ref()),
        Err(e) => m.fail(format!("Ber::parse refused {}: {e}", hex(&want))),
    }
    match DerRef::parse(&mut &want[..]) {
        Ok(d) => {
            same(m, "DerRef::parse", d.as_ref());
            same(m, "DerRef::to_owned", d.to_owned().as_ref());
            same(m, "Der::from(&DerRef)", Der::from(d).as_ref());
            same(m, "Ber::from(&DerRef)", Ber::from(d).as_ref());
            same(m, "<&BerRef>::from(&DerRef)", <&BerRef>::from(d).as_ref());
        }
        Err(e) => m.fail(format!("DerRef::parse refused {}: {e}", hex(&want))),
    }
    match BerRef::parse(&mut &want[..]) {
        Ok(d) => {
            same(m, "BerRef::parse", d.as_ref());
            same(m, "BerRef::to_owned", d.to_owned().as_ref());
            same(m, "Ber::from(&BerRef)", Ber::from(d).as_ref());
        }
        Err(e) => m.fail(format!("BerRef::parse refused {}: {e}", hex(&want))),
    }
    let mut spare = Vec::with_capacity(want.len() + r.below(64));
    spare.extend_from_slice(&want);
    unsafe {
        same(m, "Der::from_bytes_unchecked", Der::from_bytes_unchecked(&want).as_ref());
        same(m, "Ber::from_bytes_unchecked", Ber::from_bytes_unchecked(&want).as_ref());
        same(m, "Der::from_vec_unchecked", Der::from_vec_unchecked(spare.clone()).as_ref());
        same(m, "Ber::from_vec_unchecked", Ber::from_vec_unchecked(spare.clone()).as_ref());
        same(m, "Der vec round trip", Der::from_vec_unchecked(Der::from_vec_unchecked(spare.clone()).into_vec()).as_ref());
        same(m, "Ber vec round trip", Ber::from_vec_unchecked(Ber::from_vec_unchecked(spare).into_vec()).as_ref());
        same(m, "DerRef::from_bytes_unchecked", DerRef::from_bytes_unchecked(&want).as_ref());
        same(m, "BerRef::from_bytes_unchecked", BerRef::from_bytes_unchecked(&want).as_ref());
        let mut w = want.clone();
        same(m, "DerRef::from_mut_bytes_unchecked", (*DerRef::from_mut_bytes_unchecked(&mut w)).as_ref());
        same(m, "BerRef::from_mut_bytes_unchecked", (*BerRef::from_mut_bytes_unchecked(&mut w)).as_ref());
    }
    same(m, "Ber::from(Der)", Ber::from(der.clone()).as_ref());
    same(m, "clone", der.clone().as_ref());
    same(m, "clone", ber.clone().as_ref());
    same(m, "Der::into_vec", &der.into_vec());
    same(m, "Ber::into_vec", &ber.into_vec());
    // grown from nothing
    let mut d = Der::new(i, <&ContentsRef>::from(&[]));
    for p in &ps {
        d.extend_from_slice(p);
    }
    same(m, "grown piecewise", d.as_ref());
    // indefinite routes agree with each other
    let mut wi = id.to_vec();
    wi.push(0x80);
    wi.extend_from_slice(c);
    unsafe {
        m.eq_bytes("Ber::new_indefinite", Ber::new_indefinite(i, cr).as_ref(), &wi);
        let mut b = Ber::with_id_length_indefinite(i, c.len());
        m.eq("with_id_length_indefinite contents size", b.contents().len(), c.len());
        b.mut_contents().as_mut().copy_from_slice(c);
        m.eq_bytes("Ber::with_id_length_indefinite", b.as_ref(), &wi);
        m.eq_bytes("Ber::from_id_iterator_indefinite", Ber::from_id_iterator_indefinite(i, ps.iter()).as_ref(), &wi);
        m.check(b.length().is_indefinite(), || "new_indefinite is not indefinite".into());
        m.eq_bytes("indefinite into_vec", &b.into_vec(), &wi);
    }
    // contents in every form
    m.eq_bytes("Contents::from(&[u8])", Contents::from(c).as_ref(), c);
    m.eq_bytes("Contents::from(Vec)", Contents::from(c.to_vec()).as_ref(), c);
    m.eq_bytes("Contents::from(&ContentsRef)", Contents::from(cr).as_ref(), c);
    let mut blank = Contents::from(vec![0; c.len()]);
    AsMut::<ContentsRef>::as_mut(&mut blank).as_mut().copy_from_slice(c);
    m.eq_bytes("Contents filled through its view", blank.as_ref(), c);
    m.eq_bytes("ContentsRef::to_owned", cr.to_owned().as_ref(), c);
    m.eq("ContentsRef len", (cr.len(), cr.is_empty()), (c.len(), c.is_empty()));
    if let Ok(s) = std::str::from_utf8(c) {
        m.eq_bytes("Contents::from(&str)", Contents::from(s).as_ref(), c);
        m.eq_bytes("Contents::from(String)", Contents::from(s.to_string()).as_ref(), c);
        m.eq_bytes("<&ContentsRef>::from(&str)", <&ContentsRef>::from(s).as_ref(), c);
        m.ev("text contents");
    }
    m.ev_n("routes compared", checked);
    m.sig_bytes(c.len() as u64, id);
}

fn prim<T: Int>(m: &mut Mon, v: T, d: Der, b: Ber) {
    let (hi, low) = v.split();
    let want = enc_tlv(&[0x02], &enc_int(hi, low));
    m.eq_bytes(T::NAME, d.as_ref(), &want);
    m.eq_bytes(T::NAME, b.as_ref(), &want);
    m.ev("primitive values");
    m.sig_bytes(T::BITS as u64, &want);
}

pub fn prims(m: &mut Mon, r: &mut Rng) {
    let low = r.u128() >> r.below(128);
    let low = if r.chance(1, 2) { low } else { low.wrapping_neg() };
    macro_rules! go {
        ($($t:ident),*) => {$(
            let v = low as $t;
            prim::<$t>(m, v, Der::from(v), Ber::from(v));
        )*};
    }
    go!(i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize);
    let s = gens::string(r);
    let want = enc_tlv(&[0x0c], s.as_bytes());
    m.eq_bytes("Der::from(&str)", Der::from(&s[..]).as_ref(), &want);
    m.eq_bytes("Ber::from(&str)", Ber::from(&s[..]).as_ref(), &want);
    let o = if cfg!(miri) { s.as_bytes().to_vec() } else { gens::contents(r) };
    let want = enc_tlv(&[0x04], &o);
    m.eq_bytes("Der::from(&[u8])", Der::from(&o[..]).as_ref(), &want);
    m.eq_bytes("Ber::from(&[u8])", Ber::from(&o[..]).as_ref(), &want);
    for v in [false, true] {
        let want = [1, 1, if v { 0xff } else { 0 }];
        m.eq_bytes("Der::from(bool)", Der::from(v).as_ref(), &want);
        m.eq_bytes("Ber::from(bool)", Ber::from(v).as_ref(), &want);
        m.eq_bytes("DerRef::boolean", DerRef::boolean(v).as_ref(), &want);
    }
    m.eq_bytes("BerRef::eoc", BerRef::eoc().as_ref(), &[0, 0]);
}

/// Every way to an octet string and out of it.
fn octet_strings(m: &mut Mon, r: &mut Rng) {
    let text = r.chance(1, 2);
    let c = if text {
        gens::string(r).into_bytes()
    } else {
        let n = gens::small_size(r);
        gens::fill(r, n)
    };
    let want = enc_tlv(&[4], &c);
    let mut ways: Vec<(&str, OctetString)> = vec![
        ("new", OctetString::new(&c)),
        ("from slice", OctetString::from(&c[..])),
        ("from vector", OctetString::from(c.clone())),
    ];
    let s = String::from_utf8(c.clone()).ok();
    if let Some(s) = &s {
        ways.push(("from str", OctetString::from(&s[..])));
        ways.push(("from string", OctetString::from(s.clone())));
        ways.push(("new of text", OctetString::new(s)));
    }
    let g = m.guard("from_der", || Der::parse(&mut &want[..]).and_then(|d| bsn1_serde::from_der::<OctetString<'static>>(&d)));
    match g {
        Some(Ok(o)) => ways.push(("from_der", o)),
        Some(Err(e)) => m.fail(format!("octet string {} refused: {e:?}", hex(&want))),
        None => {}
    }
    let copies: Vec<_> = ways.iter().map(|(w, o)| (*w, o.clone())).collect();
    for (w, o) in ways.into_iter().chain(copies) {
        m.eq_bytes(w, o.as_ref(), &c);
        let g = m.guard("to_der", || bsn1_serde::to_der(&o));
        if let Some(Ok(d)) = g {
            m.eq_bytes(w, d.as_ref(), &want);
        }
        match String::try_from(o.clone()) {
            Ok(t) => {
                m.check(s.as_ref() == Some(&t), || format!("{w}: octets {} became the text {t:?}", hex(&c)));
            }
            Err(e) => {
                m.check(s.is_none(), || format!("{w}: octets {} are text but {e}", hex(&c)));
                m.eq_bytes(w, e.as_bytes(), &c);
            }
        }
        if r.chance(1, 2) {
            m.eq_bytes(w, &o.into_vec(), &c);
        } else {
            m.eq_bytes(w, &Vec::from(o), &c);
        }
        m.ev("octet string routes");
    }
    m.sig_bytes(4, &c);
}

pub fn run(run: &mut Run) {
    let k = gens::EDGES.len() as u64;
    let n = run.n(10, k * 40, k * 400);
    run.group("sizes on boundaries", n, &|m, r, i| {
        let e = if cfg!(miri) { &gens::EDGES[..36] } else { gens::EDGES };
        let s = e[(i % e.len() as u64) as usize];
        let id = gens::id(r);
        let c = gens::fill(r, s);
        routes(m, r, &id, &c);
    });
    let n = run.n(0, 64, 600);
    run.group("big sizes", n, &|m, r, i| {
        let s = gens::BIG_EDGES[(i % gens::BIG_EDGES.len() as u64) as usize];
        let id = gens::id(r);
        let c = gens::fill(r, s);
        routes(m, r, &id, &c);
    });
    let n = run.n_huge(3, 9);
    run.group("huge sizes", n, &|m, r, i| {
        let s = gens::HUGE_EDGES[(i % 3) as usize];
        let c = gens::fill(r, s);
        routes(m, r, &[0x30], &c);
    });
    let n = run.n(8, 30_000, 800_000);
    run.group("random", n, &|m, r, _| {
        let id = gens::id(r);
        let c = if r.chance(1, 3) {
            gens::string(r).into_bytes()
        } else {
            let n = gens::small_size(r);
            gens::fill(r, n)
        };
        routes(m, r, &id, &c);
        m.sample(|| format!("id {} contents {}", hex(&id), hex(&c)));
    });
    let n = run.n(10, 60_000, 2_000_000);
    run.group("primitive values", n, &|m, r, _| prims(m, r));
    let n = run.n(4, 20_000, 400_000);
    run.group("octet strings", n, &|m, r, _| octet_strings(m, r));
    let n = run.n(8, 20_000, 400_000);
    run.group("indefinite vectors", n, &|m, r, _| {
        // conversions of indefinite elements lose and add nothing either
        let d = r.range(1, 4);
        let mut e = gens::element(r, d, 8);
        if e[0] == 0 {
            e[0] = 0x30;
        }
        let g = m.guard("Ber::parse", || Ber::parse(&mut &e[..]).map(|b| b.into_vec()));
        if let Some(Ok(v)) = g {
            m.eq_bytes("Ber::parse into_vec", &v, &e);
            let b = unsafe { Ber::from_vec_unchecked(v) };
            m.eq_bytes("from_vec", b.as_ref(), &e);
            m.eq_bytes("to_owned", AsRef::<BerRef>::as_ref(&b).to_owned().as_ref(), &e);
            m.sig_bytes(3, &e);
        } else {
            m.fail(format!("valid element {} refused", hex(&e)));
        }
    });
}
