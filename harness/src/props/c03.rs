//! C03: integer and boolean contents are exact.

use crate::core::{hex, Mon, Run, Tier};
use crate::model::{self, dec_int_as, enc_int, kind, Int, Kinds};
use crate::rng::Rng;
use bsn1::{Contents, ContentsRef};

pub trait Lib: Int {
    fn contents(self) -> Contents;
    fn read(c: &ContentsRef) -> Result<Self, bsn1::Error>;
    unsafe fn read_unchecked(c: &ContentsRef) -> Self;
}
macro_rules! lib {
    ($($t:ident),*) => {$(
        impl Lib for $t {
            fn contents(self) -> Contents { Contents::from(self) }
            fn read(c: &ContentsRef) -> Result<Self, bsn1::Error> { c.to_integer::<$t>() }
            unsafe fn read_unchecked(c: &ContentsRef) -> Self { c.to_integer_unchecked::<$t>() }
        }
    )*};
}
lib!(i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize);

fn write<T: Lib>(m: &mut Mon, v: T) {
    let (hi, low) = v.split();
    let want = enc_int(hi, low);
    let Some(c) = m.guard("Contents::from", || v.contents()) else { return };
    m.eq_bytes(T::NAME, c.as_ref(), &want);
    if let Some(g) = m.guard("to_integer", || T::read(&c)) {
        match g {
            Ok(g) => {
                m.eq(T::NAME, g, v);
            }
            Err(e) => m.fail(format!("{} {:?}: own contents {} refused as {:?}", T::NAME, v, hex(&want), kind(&e))),
        }
    }
    m.ev("values written");
    m.sig_bytes(T::BITS as u64 * 2 + T::SIGNED as u64, &want);
}

fn read<T: Lib>(m: &mut Mon, b: &[u8]) {
    let want = dec_int_as::<T>(b);
    let c = <&ContentsRef>::from(b);
    let Some(got) = m.guard(T::NAME, || T::read(c)) else { return };
    m.evals += 1;
    match (got, want) {
        (Ok(g), Ok(w)) => {
            m.eq(T::NAME, g, w);
            let u = unsafe { T::read_unchecked(c) };
            m.eq("to_integer_unchecked", u, w);
            m.ev("read");
        }
        (Err(e), Err(k)) => {
            m.check(k.has(kind(&e)), || format!("{} from {}: refused as {:?}, want {:?}", T::NAME, hex(b), kind(&e), k));
            m.ev(match kind(&e) {
                Kinds::UNTERM => "refused empty",
                Kinds::REDUND => "refused redundant",
                Kinds::OVER => "refused overflow",
                _ => "refused otherwise",
            });
        }
        (g, w) => m.fail(format!("{} from {}: {:?}, want {:?}", T::NAME, hex(b), g.map_err(|e| kind(&e)), w)),
    }
}

pub fn read_all(m: &mut Mon, b: &[u8]) {
    read::<i8>(m, b);
    read::<i16>(m, b);
    read::<i32>(m, b);
    read::<i64>(m, b);
    read::<i128>(m, b);
    read::<isize>(m, b);
    read::<u8>(m, b);
    read::<u16>(m, b);
    read::<u32>(m, b);
    read::<u64>(m, b);
    read::<u128>(m, b);
    read::<usize>(m, b);
    booleans(m, b);
}

fn write_all(m: &mut Mon, hi: i8, low: u128) {
    macro_rules! go { ($($t:ident),*) => {$( if let Some(v) = <$t as Int>::join(hi, low) { write::<$t>(m, v); } )*}; }
    go!(i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize);
}

fn booleans(m: &mut Mon, b: &[u8]) {
    let c = <&ContentsRef>::from(b);
    let ber = match b {
        [] => Err(Kinds::UNTERM),
        [x] => Ok(*x != 0),
        _ => Err(Kinds::EXTRA),
    };
    let der = match b {
        [] => Err(Kinds::UNTERM),
        [0] => Ok(false),
        [0xff] => Ok(true),
        [_] => Err(Kinds::BOOL),
        _ => Err(Kinds::EXTRA),
    };
    if let Some(g) = m.guard("to_bool_ber", || c.to_bool_ber()) {
        m.eq("to_bool_ber", g.map_err(|e| kind(&e)), ber);
    }
    if let Some(g) = m.guard("to_bool_der", || c.to_bool_der()) {
        m.eq("to_bool_der", g.map_err(|e| kind(&e)), der);
    }
    m.ev("boolean reads");
}

fn octets(r: &mut Rng) -> Vec<u8> {
    let n = r.below(20);
    let mut b = r.bytes(n);
    if n > 0 && r.chance(1, 2) {
        b[0] = *r.pick(&[0x00, 0xff, 0x7f, 0x80, 0x01, 0xfe]);
    }
    if n > 1 && r.chance(1, 2) {
        b[1] = *r.pick(&[0x00, 0xff, 0x7f, 0x80, 0x01, 0xfe]);
    }
    if n > 2 && r.chance(1, 4) {
        let v = *r.pick(&[0x00, 0xff]);
        b[1..].fill(v);
    }
    b
}

pub fn run(run: &mut Run) {
    run.group("booleans", 2, &|m, _, i| {
        let v = i == 1;
        let want = [if v { 0xffu8 } else { 0 }];
        m.eq_bytes("Contents::from(bool)", Contents::from(v).as_ref(), &want);
        m.eq_bytes("<&ContentsRef>::from(bool)", <&ContentsRef>::from(v).as_ref(), &want);
        for x in 0..=255u8 {
            booleans(m, &[x]);
        }
    });
    // the limits of every type, on each machine
    run.group("limits", 10 * 2 * 3, &|m, _, i| {
        let k = [7, 8, 15, 16, 31, 32, 63, 64, 127, 128][i as usize % 10];
        let base = if k == 128 { 0u128 } else { 1u128 << k };
        let low = base.wrapping_add((i / 20) as u128).wrapping_sub(1);
        let low = if i / 10 % 2 == 1 { low.wrapping_neg() } else { low };
        for hi in [0, -1] {
            write_all(m, hi, low);
            read_all(m, &enc_int(hi, low));
        }
        m.sig(low as u64 ^ (low >> 64) as u64);
    });
    run.group("widths", 19 * 4 * 3, &|m, r, i| {
        let mut b = r.bytes(i as usize % 19);
        for (x, y) in b.iter_mut().zip([[0x00, 0x7f, 0x80, 0xff][i as usize / 19 % 4], [0x00, 0x80, 0xff][i as usize / 76]]) {
            *x = y;
        }
        read_all(m, &b);
        m.sig_bytes(1003, &b);
    });
    let pw = run.n(30, 129 * 2 * 17, 129 * 2 * 17);
    run.group("powers of two", pw, &|m, r, i| {
        let i = if cfg!(miri) { r.u64() } else { i };
        let k = i % 129;
        let neg = i / 129 % 2 == 1;
        let d = (i / 258 % 17) as i128 - 8;
        let base = if k == 128 { 0u128 } else { 1u128 << k };
        let low = base.wrapping_add(d as u128);
        let low = if neg { low.wrapping_neg() } else { low };
        write_all(m, 0, low);
        if (low as i128) < 0 {
            write_all(m, -1, low);
        }
        // contents of that number as every type, also ones it does not fit
        read_all(m, &enc_int(0, low));
        read_all(m, &enc_int(-1, low));
        m.sig(low as u64 ^ (low >> 64) as u64);
    });
    let small = run.n(20, 131_072, 131_072);
    run.group("16-bit values", small, &|m, r, i| {
        let i = if cfg!(miri) { r.below(131_072) as u64 } else { i };
        let v = i as i64 - 65_536;
        if v < 0 {
            write_all(m, -1, v as i128 as u128)
        } else {
            write_all(m, 0, v as u128)
        }
    });
    let rnd = run.n(20, 200_000, 6_000_000);
    run.group("random values", rnd, &|m, r, _| {
        let low = r.u128() >> r.below(128);
        let low = if r.chance(1, 2) { low } else { low.wrapping_neg() };
        write_all(m, 0, low);
        if (low as i128) < 0 {
            write_all(m, -1, low);
        }
        m.sample(|| format!("value {}", low as i128));
    });
    let two = run.n(40, 65_536 + 257, 65_536 + 257);
    run.group("all octet pairs", two, &|m, r, i| {
        let b = match i {
            _ if cfg!(miri) => r.bytes(2),
            0 => vec![],
            1..=256 => vec![(i - 1) as u8],
            _ => vec![((i - 257) >> 8) as u8, (i - 257) as u8],
        };
        read_all(m, &b);
        m.sig_bytes(1000, &b);
    });
    let all = run.tier == Tier::Thorough;
    let three = run.n(0, 100_000, 1 << 24);
    run.group("octet triples", three, &|m, r, i| {
        let x = if all { i as u32 } else { r.u64() as u32 };
        let b = [(x >> 16) as u8, (x >> 8) as u8, x as u8];
        read_all(m, &b);
        m.sig_bytes(1001, &b);
    });
    let oc = run.n(40, 200_000, 6_000_000);
    run.group("octet strings", oc, &|m, r, _| {
        let b = octets(r);
        read_all(m, &b);
        m.sig_bytes(1002, &b);
        m.sample(|| format!("contents {} = {:?}", hex(&b), model::dec_int(&b)));
    });
}
