//! Workload generators.

use crate::model::{enc_id, enc_len};
use crate::rng::Rng;

/// Sizes on both sides of every boundary that matters: inline storage, length forms.
pub const EDGES: &[usize] = &[
    0, 1, 2, 3, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 31, 32, 47, 63, 64, 65, 124, 125, 126, 127, 128, 129,
    130, 131, 132, 200, 253, 254, 255, 256, 257, 258, 300, 511, 512, 1000, 4095, 4096, 4097, 8192,
];
pub const BIG_EDGES: &[usize] = &[65533, 65534, 65535, 65536, 65537, 65540, 100_000];
pub const HUGE_EDGES: &[usize] = &[(1 << 24) - 1, 1 << 24, (1 << 24) + 1];

pub fn size(r: &mut Rng) -> usize {
    match r.below(10) {
        0..=3 => r.below(30),
        4..=6 => {
            let e = *r.pick(EDGES);
            (e + r.below(3)).saturating_sub(1)
        }
        7 => r.below(200),
        8 => r.below(2000),
        _ => {
            if r.chance(1, 8) {
                let e = *r.pick(BIG_EDGES);
                e
            } else {
                *r.pick(EDGES)
            }
        }
    }
}

pub fn small_size(r: &mut Rng) -> usize {
    match r.below(6) {
        0..=2 => r.below(8),
        3 | 4 => r.below(40),
        _ => {
            let e = *r.pick(&EDGES[..36]);
            e
        }
    }
}

pub fn number(r: &mut Rng) -> u128 {
    match r.below(8) {
        0 => r.below(31) as u128,
        1 => 25 + r.below(12) as u128,
        2 | 3 => {
            // around powers of two, in particular multiples of seven bits
            let k = r.below(129);
            let p = if k == 128 { 0u128 } else { 1u128 << k };
            let d = r.below(5) as u128;
            p.wrapping_add(d).wrapping_sub(2)
        }
        4 => {
            let k = 7 * r.below(19);
            let p = if k >= 128 { 0 } else { 1u128 << k };
            p.wrapping_sub(r.below(3) as u128)
        }
        5 => r.u128() >> r.below(128),
        6 => u128::MAX - r.below(3) as u128,
        _ => r.below(300) as u128,
    }
}

pub fn id(r: &mut Rng) -> Vec<u8> {
    if r.chance(1, 40) {
        // more octets than 128 bits need
        let n = r.range(19, 40);
        return long_id(r, n);
    }
    if r.chance(1, 2) {
        return enc_id(r.below(4) as u8, r.chance(1, 2), r.below(40) as u128);
    }
    let n = number(r);
    enc_id(r.below(4) as u8, r.chance(1, 2), n)
}

/// Valid identifier that is exactly n >= 3 octets long.
pub fn long_id(r: &mut Rng, n: usize) -> Vec<u8> {
    let mut v = vec![r.u8() | 0x1f];
    v.push(0x81 + r.below(127) as u8);
    for _ in 2..n - 1 {
        v.push(r.u8() | 0x80);
    }
    v.push(r.u8() & 0x7f);
    v
}

pub fn contents(r: &mut Rng) -> Vec<u8> {
    let n = size(r);
    fill(r, n)
}

pub fn fill(r: &mut Rng, n: usize) -> Vec<u8> {
    match r.below(4) {
        0 => vec![0; n],
        1 => vec![0xff; n],
        _ => r.bytes(n),
    }
}

fn child_id(r: &mut Rng) -> Vec<u8> {
    loop {
        let i = if r.chance(3, 4) {
            vec![*r.pick(&[0x02u8, 0x01, 0x04, 0x05, 0x0c, 0x30, 0x31, 0x24, 0x2c, 0xa0, 0x5f])]
        } else {
            id(r)
        };
        if i == [0x5f] {
            return enc_id(1, false, 31 + r.below(200) as u128);
        }
        if i[0] != 0 {
            return i;
        }
    }
}

/// Well-formed element. `indef` is the chance (in 8) that a level is indefinite.
pub fn element(r: &mut Rng, depth: usize, indef: usize) -> Vec<u8> {
    let i = child_id(r);
    let mut c = Vec::new();
    if depth > 0 && r.chance(3, 4) {
        for _ in 0..r.below(4) {
            let e = element(r, depth - 1, indef);
            c.extend(e);
            if c.len() > 100_000 {
                break;
            }
        }
        if r.below(8) < indef {
            let mut v = i;
            v.push(0x80);
            v.extend(c);
            v.extend([0, 0]);
            return v;
        }
    } else {
        let n = small_size(r);
        c = fill(r, n);
    }
    let mut v = i;
    v.extend(enc_len(c.len()));
    v.extend(c);
    v
}

/// Deeply nested element: `kinds(i)` tells whether level i is indefinite.
pub fn nested(depth: usize, mut indef: impl FnMut(usize) -> bool, core: &[u8]) -> Vec<u8> {
    // Headers are collected from the inside; all end-of-contents end up behind the core.
    let mut rev: Vec<u8> = Vec::new();
    let (mut total, mut marks) = (core.len(), 0usize);
    for l in 0..depth {
        if indef(l) {
            rev.extend([0x80, 0x30]);
            total += 4;
            marks += 1;
        } else {
            let len = enc_len(total);
            rev.extend(len.iter().rev());
            rev.push(0x30);
            total += len.len() + 1;
        }
    }
    rev.reverse();
    rev.extend_from_slice(core);
    rev.resize(rev.len() + 2 * marks, 0);
    rev
}

/// Element with many levels, all indefinite or mixed, around a few children.
pub fn deep(r: &mut Rng) -> Vec<u8> {
    let depth = match r.below(4) {
        0 => r.range(120, 135),
        1 => r.range(250, 262),
        2 => r.range(5, 60),
        _ => r.range(60, 1200),
    };
    let mix = *r.pick(&[8usize, 8, 7, 4]);
    let mut core = Vec::new();
    for _ in 0..r.below(3) {
        core.extend(element(r, 1, 3));
    }
    let mut q = r.clone();
    r.u64();
    nested(depth, |_| q.below(8) < mix, &core)
}

pub fn mutate(r: &mut Rng, b: &mut Vec<u8>) {
    for _ in 0..r.range(1, 3) {
        match r.below(9) {
            0 if !b.is_empty() => {
                let i = r.below(b.len());
                b[i] ^= 1 << r.below(8);
            }
            1 if !b.is_empty() => {
                let i = r.below(b.len());
                b[i] = *r.pick(&[0x00, 0x80, 0xff, 0x7f, 0x81, 0x82, 0x1f, 0x30, 0x84, 0x88, 0x89]);
            }
            2 if !b.is_empty() => {
                let n = r.below(b.len());
                b.truncate(n);
            }
            3 => {
                let i = r.below(b.len() + 1);
                let v = *r.pick(&[0x00, 0x80, 0xff, 0x01, 0x1f]);
                b.insert(i, v);
            }
            4 if !b.is_empty() => {
                let i = r.below(b.len());
                b.remove(i);
            }
            5 => {
                let n = r.below(4);
                let t = r.bytes(n);
                b.extend(t);
            }
            6 if b.len() > 1 => {
                // change something near the front, where headers live
                let i = r.below(b.len().min(6));
                b[i] = r.u8();
            }
            7 if b.len() > 1 => {
                // duplicate a stretch
                let i = r.below(b.len());
                let j = r.range(i, b.len().min(i + 12));
                let s: Vec<u8> = b[i..j].to_vec();
                let at = r.below(b.len() + 1);
                b.splice(at..at, s);
            }
            _ => {
                let i = r.below(b.len() + 1);
                b.splice(i..i, [0u8, 0]);
            }
        }
    }
}

/// Octet string with header-like bytes over-represented.
pub fn noisy(r: &mut Rng, n: usize) -> Vec<u8> {
    const A: &[u8] = &[
        0x00, 0x00, 0x01, 0x02, 0x03, 0x1e, 0x1f, 0x30, 0x31, 0x3f, 0x7f, 0x80, 0x80, 0x81, 0x82, 0x83, 0x88, 0x89,
        0x9f, 0xff, 0xfe, 0x04, 0x0c, 0x7e,
    ];
    (0..n).map(|_| if r.chance(1, 5) { r.u8() } else { *r.pick(A) }).collect()
}

/// The idx-th string over the alphabet, shortest first; None when beyond max_len.
pub fn enumerate(alphabet: &[u8], mut idx: u64, max_len: usize) -> Option<Vec<u8>> {
    let k = alphabet.len() as u64;
    let mut count = 1u64;
    for n in 0..=max_len {
        if idx < count {
            let mut v = Vec::with_capacity(n);
            for _ in 0..n {
                v.push(alphabet[(idx % k) as usize]);
                idx /= k;
            }
            return Some(v);
        }
        idx -= count;
        count *= k;
    }
    None
}

pub fn enumeration_size(k: u64, max_len: u32) -> u64 {
    (0..=max_len).map(|n| k.pow(n)).sum()
}

pub fn string(r: &mut Rng) -> String {
    let n = small_size(r);
    let mut s = String::new();
    for _ in 0..n {
        let c = match r.below(6) {
            0 => char::from_u32(r.below(0x80) as u32),
            1 => char::from_u32(0x80 + r.below(0x780) as u32),
            2 => char::from_u32(0x800 + r.below(0xd000) as u32),
            3 => char::from_u32(0x10000 + r.below(0x100000) as u32),
            4 => Some('\u{0}'),
            _ => Some((b'a' + r.below(26) as u8) as char),
        };
        s.push(c.unwrap_or('x'));
    }
    s
}
