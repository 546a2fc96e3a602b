//! C20: the byte store under every element behaves like a plain byte vector.

use crate::core::{hex, Mon, Run};
use crate::gens;
use crate::rng::Rng;
use bsn1::Buffer;
use std::borrow::Borrow;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::io::Write;

fn hash<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn check(m: &mut Mon, b: &Buffer, want: &[u8], what: &str) -> bool {
    let ok = m.eq(what, b.len(), want.len())
        && m.eq_bytes(what, b.as_slice(), want)
        && m.eq_bytes(what, b, want)
        && m.eq_bytes(what, Borrow::<[u8]>::borrow(b), want)
        && m.check(b.capacity() >= b.len(), || format!("{what}: room for {} of {} octets", b.capacity(), b.len()));
    ok && m.eq(what, b.as_ptr(), b.as_slice().as_ptr()) && m.eq(what, hash(b), hash(want))
}

/// Contents that differ little, so that comparisons go deep.
fn similar(r: &mut Rng, v: &[u8]) -> Vec<u8> {
    let mut w = v.to_vec();
    for _ in 0..r.below(4) {
        match r.below(6) {
            0 => w.truncate(r.below(w.len() + 1)),
            1 => w.push(r.u64() as u8),
            2 => {
                let n = r.below(20);
                w.extend(r.bytes(n));
            }
            _ if w.is_empty() => {}
            3 => {
                let i = r.below(w.len());
                w[i] ^= 1 << r.below(8);
            }
            4 => {
                // within the last few octets
                let i = w.len() - 1 - r.below(w.len().min(9));
                w[i] = r.u64() as u8;
            }
            _ => {
                let i = w.len() - 1;
                w[i] = w[i].wrapping_add(1);
            }
        }
    }
    w
}

fn compare(m: &mut Mon, r: &mut Rng, b: &Buffer, v: &[u8]) {
    let w = similar(r, v);
    let c = if r.chance(1, 2) { Buffer::from(&w[..]) } else { Buffer::from(w.clone()) };
    m.eq("equality of stores", (*b == c, *b != c, c == *b), (v == &w[..], v != &w[..], v == &w[..]));
    m.eq("equality with octets", (*b == w, *b == &w[..]), (v == &w[..], v == &w[..]));
    m.eq("order of stores", b.cmp(&c), v.cmp(&w));
    m.eq("partial order", (b.partial_cmp(&c), b.partial_cmp(&w)), (Some(v.cmp(&w)), Some(v.cmp(&w))));
    m.eq("operators", (*b < c, *b >= c), (v < &w[..], v >= &w[..]));
    m.ev("comparisons");
}

fn amount(r: &mut Rng, len: usize) -> usize {
    match r.below(5) {
        0 => r.below(4),
        1 => r.below(26),
        // onto or next to a boundary
        2 => {
            let e = *r.pick(if cfg!(miri) { &[7usize, 8, 15, 16, 22, 23, 24, 25] } else { &[15usize, 16, 22, 23, 24, 25, 127, 128, 255, 256][..] });
            (e + r.below(3)).saturating_sub(len + 1)
        }
        3 if len < 64 || !cfg!(miri) => len,
        _ if cfg!(miri) => r.below(40),
        _ => r.below(400),
    }
}

fn history(m: &mut Mon, r: &mut Rng, steps: usize) {
    let n = if r.chance(1, 3) { r.below(30) } else { 0 };
    let mut v = gens::fill(r, n);
    let mut b = match r.below(6) {
        0 => {
            v.clear();
            Buffer::new()
        }
        1 => {
            v.clear();
            let n = amount(r, 0);
            let b = Buffer::with_capacity(n);
            m.check(b.capacity() >= n, || format!("with_capacity({n}) gives {}", b.capacity()));
            b
        }
        2 => Buffer::from(&v[..]),
        3 => {
            let mut w = Vec::with_capacity(v.len() + r.below(60));
            w.extend_from_slice(&v);
            Buffer::from(w)
        }
        4 => Buffer::from(v.clone()),
        _ => {
            v = vec![1, 2, 3];
            Buffer::from(&[1u8, 2, 3])
        }
    };
    if !check(m, &b, &v, "new store") {
        return;
    }
    let mut old: Option<(Buffer, Vec<u8>)> = None;
    for _ in 0..steps {
        let what = match r.below(14) {
            0 | 1 => {
                let n = amount(r, v.len());
                let c = gens::fill(r, n);
                let got = m.guard("write", || b.write(&c));
                m.check(matches!(got, Some(Ok(k)) if k == n), || format!("write of {n} octets: {got:?}"));
                v.extend_from_slice(&c);
                "write"
            }
            2 => {
                let n = amount(r, v.len());
                let c = gens::fill(r, n);
                m.check(b.write_all(&c).is_ok() && b.flush().is_ok(), || "write_all failed".into());
                v.extend_from_slice(&c);
                "write_all"
            }
            3 => {
                let n = amount(r, v.len());
                b.reserve(n);
                m.check(b.capacity() >= v.len() + n, || format!("reserve({n}) at {} leaves {}", v.len(), b.capacity()));
                "reserve"
            }
            4 | 5 => {
                let n = amount(r, v.len());
                let c = gens::fill(r, n);
                b.reserve(n);
                unsafe { b.extend_from_slice(&c) };
                v.extend_from_slice(&c);
                "extend_from_slice"
            }
            6 => {
                // as far as the room goes
                let room = (b.capacity() - b.len()).min(300);
                let c = gens::fill(r, room);
                let addr = b.as_ptr() as usize;
                for &x in &c {
                    unsafe { b.push(x) };
                }
                m.eq("place of a store filled up", b.as_ptr() as usize, addr);
                v.extend_from_slice(&c);
                m.ev("filled to the last octet");
                "push"
            }
            7 => {
                let n = r.below(v.len() + 1);
                unsafe { b.set_len(n) };
                v.truncate(n);
                "set_len down"
            }
            8 => {
                // octets written behind the end, then taken in
                let n = amount(r, v.len()).min(100);
                b.reserve(n);
                let c = gens::fill(r, n);
                unsafe {
                    std::ptr::copy_nonoverlapping(c.as_ptr(), b.as_mut_ptr().add(v.len()), n);
                    b.set_len(v.len() + n);
                }
                v.extend_from_slice(&c);
                "set_len up"
            }
            9 if !v.is_empty() => {
                let i = r.below(v.len());
                let x = r.u64() as u8;
                match r.below(4) {
                    0 => b[i] = x,
                    1 => b.as_mut_slice()[i] = x,
                    2 => (&mut *b)[i] = x,
                    _ => b.iter_mut().nth(i).map(|p| *p = x).unwrap_or(()),
                }
                v[i] = x;
                m.eq("octet read", (b[i], b.get(i).copied(), b.get(v.len()).copied()), (x, Some(x), None));
                "octet write"
            }
            10 => {
                let c = b.clone();
                check(m, &c, &v, "clone");
                if let Some((o, w)) = old.replace(if r.chance(1, 2) { (std::mem::replace(&mut b, c), v.clone()) } else { (c, v.clone()) }) {
                    check(m, &o, &w, "copy put aside");
                    m.eq_bytes("copy as a vector", &o.into_vec(), &w);
                }
                "clone"
            }
            11 => {
                let w = std::mem::replace(&mut b, Buffer::new()).into_vec();
                m.eq_bytes("into_vec", &w, &v);
                m.check(w.capacity() >= w.len(), || "vector without room".into());
                let mut w = w;
                if r.chance(1, 2) {
                    w.push(0x77);
                    v.push(0x77);
                }
                b = Buffer::from(w);
                "through a vector"
            }
            12 => {
                // moved to another place
                let boxed = Box::new(b);
                check(m, &boxed, &v, "moved store");
                b = *boxed;
                "move"
            }
            _ => {
                compare(m, r, &b, &v);
                m.eq("Debug", format!("{b:?}"), format!("Buffer({:?})", &v[..]));
                "compare"
            }
        };
        m.ev(what);
        if !check(m, &b, &v, what) {
            return;
        }
        m.sig_bytes(1, &v);
    }
    if let Some((o, w)) = old {
        check(m, &o, &w, "copy put aside");
    }
    m.max("octets held", v.len() as u64);
    m.sample(|| format!("history of {steps} ends with {} octets: {}", v.len(), hex(&v[..v.len().min(24)])));
}

pub fn run(run: &mut Run) {
    // every size and every growth about the room inside the value itself
    let all = 48u64 * 48;
    let n = run.n(20, all, all * 4);
    run.group("growth", n, &|m, r, i| {
        let i = if cfg!(miri) { r.u64() } else { i } % all;
        let (a, g) = ((i % 48) as usize, (i / 48) as usize);
        let v = gens::fill(r, a);
        let c = gens::fill(r, g);
        let want = [&v[..], &c].concat();
        for start in 0..4 {
            let mut b = match start {
                0 => Buffer::from(&v[..]),
                1 => Buffer::from(v.clone()),
                2 => {
                    let mut b = Buffer::with_capacity(a + g);
                    unsafe { b.extend_from_slice(&v) };
                    b
                }
                _ => {
                    let mut b = Buffer::new();
                    for x in &v {
                        b.reserve(1);
                        unsafe { b.push(*x) };
                    }
                    b
                }
            };
            check(m, &b, &v, "before growth");
            b.reserve(g);
            check(m, &b, &v, "after reserve");
            let d = b.clone();
            unsafe { b.extend_from_slice(&c) };
            check(m, &b, &want, "after growth");
            check(m, &d, &v, "copy from before growth");
            unsafe { b.set_len(a) };
            check(m, &b, &v, "after shrinking");
            m.eq_bytes("into_vec", &b.into_vec(), &v);
        }
        m.ev("growths");
        m.sig(i);
    });
    let n = run.n(40, 100_000, 3_000_000);
    run.group("comparisons", n, &|m, r, _| {
        let n = if r.chance(1, 2) { r.below(48) } else { r.below(if cfg!(miri) { 60 } else { 700 }) };
        let v = if r.chance(1, 3) { vec![0x5a; n] } else { gens::fill(r, n) };
        let b = if r.chance(1, 2) { Buffer::from(&v[..]) } else { Buffer::from(v.clone()) };
        for _ in 0..3 {
            compare(m, r, &b, &v);
        }
        m.sig_bytes(2, &v);
    });
    let n = run.n(20, 60_000, 1_500_000);
    run.group("histories", n, &|m, r, _| history(m, r, 12));
    let n = run.n(2, 4000, 80_000);
    run.group("long histories", n, &|m, r, _| history(m, r, if cfg!(miri) { 30 } else { 100 }));
    let n = run.n_huge(2, 60);
    run.group("large stores", n, &|m, r, i| {
        let s = [65_535usize, 65_536, (1 << 24) - 1, 1 << 24][i as usize % 4];
        let mut v = gens::fill(r, s);
        let mut b = Buffer::from(v.clone());
        for k in 0..4 {
            b.write_all(&v[..1000 * k + 1]).unwrap();
            v.extend_from_within(..1000 * k + 1);
            check(m, &b, &v, "large store");
        }
        let n = r.below(300);
        unsafe { b.set_len(n) };
        v.truncate(n);
        check(m, &b, &v, "large store cut down");
        check(m, &b.clone(), &v, "copy of a large store");
        m.eq_bytes("large store as a vector", &b.into_vec(), &v);
        m.ev("large");
        m.sig(i);
    });
}
