//! C08: owned elements behave like (identifier, byte vector) under any editing history.

use crate::core::{hex, Mon, Run};
use crate::gens;
use crate::model::{enc_len, enc_tlv};
use crate::props::c01::{pc, CLASSES};
use crate::rng::Rng;
use bsn1::{Ber, BerRef, ContentsRef, Der, DerRef, IdRef, Length};

pub enum El {
    D(Der),
    B(Ber),
}

pub struct Model {
    pub id: Vec<u8>,
    pub indef: bool,
    pub contents: Vec<u8>,
}

impl Model {
    pub fn octets(&self) -> Vec<u8> {
        let mut v = self.id.clone();
        if self.indef {
            v.push(0x80);
        } else {
            v.extend(enc_len(self.contents.len()));
        }
        v.extend_from_slice(&self.contents);
        v
    }
}

fn idref(b: &[u8]) -> &IdRef {
    unsafe { IdRef::from_bytes_unchecked(b) }
}

impl El {
    pub fn octets(&self) -> &[u8] {
        match self {
            El::D(d) => d.as_ref(),
            El::B(d) => d.as_ref(),
        }
    }
}

/// Build the element in one of many ways; all must be the same afterwards.
pub fn start(r: &mut Rng) -> (El, Model, &'static str) {
    let id = gens::id(r);
    let n = if cfg!(miri) { gens::small_size(r).min(140) } else { gens::size(r) };
    let c = gens::fill(r, n);
    let cref = <&ContentsRef>::from(&c[..]);
    let octets = enc_tlv(&id, &c);
    let (el, how) = match r.below(14) {
        0 => (El::D(Der::new(idref(&id), cref)), "Der::new"),
        1 => {
            let mut d = Der::with_id_length(idref(&id), c.len());
            d.mut_contents().as_mut().copy_from_slice(&c);
            (El::D(d), "Der::with_id_length")
        }
        2 => (El::D(Der::parse(&mut &octets[..]).expect("valid element refused")), "Der::parse"),
        3 => {
            let mut v = Vec::with_capacity(octets.len() + r.below(300));
            v.extend_from_slice(&octets);
            (El::D(unsafe { Der::from_vec_unchecked(v) }), "Der::from_vec_unchecked")
        }
        4 => (El::D(unsafe { Der::from_bytes_unchecked(&octets) }), "Der::from_bytes_unchecked"),
        5 => {
            let k = r.range(1, 9);
            (El::D(Der::from_id_iterator(idref(&id), c.chunks(k))), "Der::from_id_iterator")
        }
        6 => (El::D(unsafe { DerRef::from_bytes_unchecked(&octets) }.to_owned()), "DerRef::to_owned"),
        7 => (El::B(Ber::new(idref(&id), cref)), "Ber::new"),
        8 => (El::B(Ber::from(Der::new(idref(&id), cref))), "Ber::from(Der)"),
        9 => (El::B(Ber::parse(&mut &octets[..]).expect("valid element refused")), "Ber::parse"),
        10 => (El::B(unsafe { BerRef::from_bytes_unchecked(&octets) }.to_owned()), "BerRef::to_owned"),
        11 => {
            let mut v = Vec::with_capacity(octets.len() + r.below(300));
            v.extend_from_slice(&octets);
            (El::B(unsafe { Ber::from_vec_unchecked(v) }), "Ber::from_vec_unchecked")
        }
        12 => {
            // indefinite: the caller promises well-formed contents, so use an element and its end mark
            let mut c2 = gens::element(r, 1, 0);
            c2.extend([0, 0]);
            let b = match r.below(3) {
                0 => unsafe { Ber::new_indefinite(idref(&id), <&ContentsRef>::from(&c2[..])) },
                1 => unsafe {
                    let mut b = Ber::with_id_length_indefinite(idref(&id), c2.len());
                    b.mut_contents().as_mut().copy_from_slice(&c2);
                    b
                },
                _ => unsafe { Ber::from_id_iterator_indefinite(idref(&id), c2.chunks(3)) },
            };
            return (El::B(b), Model { id, indef: true, contents: c2 }, "indefinite");
        }
        _ => {
            let mut c2 = gens::element(r, 2, 4);
            c2.extend([0, 0]);
            let mut o = id.clone();
            o.push(0x80);
            o.extend(&c2);
            if id[0] == 0 {
                return start(r);
            }
            let b = Ber::parse(&mut &o[..]).expect("valid element refused");
            return (El::B(b), Model { id, indef: true, contents: c2 }, "indefinite parsed");
        }
    };
    (el, Model { id, indef: false, contents: c }, how)
}

fn check(m: &mut Mon, el: &El, md: &Model, what: &str) -> bool {
    let want = md.octets();
    if el.octets() != want {
        m.fail(format!("{what}: octets {}, want {}", hex(el.octets()), hex(&want)));
        return false;
    }
    let (i, l, c) = match el {
        El::D(d) => d.disassemble(),
        El::B(d) => d.disassemble(),
    };
    let l_ok = match l {
        Length::Indefinite => md.indef,
        Length::Definite(n) => !md.indef && n == md.contents.len(),
    };
    m.evals += 1;
    if AsRef::<[u8]>::as_ref(i) != md.id || !l_ok || c.as_ref() != md.contents {
        m.fail(format!("{what}: parts disagree with octets {}", hex(&want)));
        return false;
    }
    true
}

/// Where to go next: sizes around a boundary, a bit more or less, or far away.
fn target(r: &mut Rng, cur: usize, head: usize) -> usize {
    let edges: &[usize] = if cfg!(miri) { &gens::EDGES[..29] } else { gens::EDGES };
    match r.below(8) {
        0 => 0,
        1..=3 => {
            let e = *r.pick(edges);
            (e + r.below(3)).saturating_sub(1)
        }
        // total size around inline capacity
        4 => (20 + r.below(8)).saturating_sub(head),
        5 => cur + r.below(4),
        6 => cur.saturating_sub(r.below(4)),
        _ => {
            if !cfg!(miri) && r.chance(1, 20) {
                *r.pick(gens::BIG_EDGES)
            } else {
                r.below(300)
            }
        }
    }
}

pub fn history(m: &mut Mon, r: &mut Rng, max_ops: usize) {
    let (mut el, mut md, how) = start(r);
    if !check(m, &el, &md, how) {
        return;
    }
    let ops = r.range(1, max_ops);
    let mut shape = 0u64;
    for step in 0..ops {
        let cur = md.contents.len();
        let before_head = md.octets().len() - cur;
        let op = r.below(13);
        let what: &'static str = match op {
            0 => {
                let b = r.u8();
                match &mut el {
                    El::D(d) => d.push(b),
                    El::B(d) => d.push(b),
                }
                md.contents.push(b);
                "push"
            }
            1..=4 => {
                let t = target(r, cur, before_head);
                let n = t.saturating_sub(cur);
                let add = if r.chance(1, 3) { vec![b'a'; n] } else { gens::fill(r, n) };
                let as_str = std::str::from_utf8(&add).ok();
                match (&mut el, as_str, r.below(3)) {
                    (El::D(d), Some(s), 0) => d.extend_from_slice(s),
                    (El::B(d), Some(s), 0) => d.extend_from_slice(s),
                    (El::D(d), _, 1) => d.extend_from_slice(&add),
                    (El::B(d), _, 1) => d.extend_from_slice(&add),
                    (El::D(d), _, _) => d.extend_from_slice(&add[..]),
                    (El::B(d), _, _) => d.extend_from_slice(&add[..]),
                }
                md.contents.extend(add);
                "extend_from_slice"
            }
            5..=7 => {
                let t = target(r, cur, before_head);
                match &mut el {
                    El::D(d) => d.truncate(t),
                    El::B(d) => d.truncate(t),
                }
                if t >= cur {
                    m.ev("truncate to at least the current size");
                }
                md.contents.truncate(t);
                "truncate"
            }
            8 => {
                // write contents through one of the mutable views
                if cur > 0 {
                    let (at, b) = (r.below(cur), r.u8());
                    match (&mut el, r.below(4)) {
                        (El::D(d), 0) => d.mut_contents()[at] = b,
                        (El::B(d), 0) => d.mut_contents()[at] = b,
                        (El::D(d), 1) => d.disassemble_mut().2.as_mut()[at] = b,
                        (El::B(d), 1) => d.disassemble_mut().2.as_mut()[at] = b,
                        (El::D(d), 2) => AsMut::<DerRef>::as_mut(d).mut_contents().as_mut()[at] = b,
                        (El::B(d), 2) => AsMut::<BerRef>::as_mut(d).mut_contents().as_mut()[at] = b,
                        (El::D(d), _) => d.mut_contents()[at..=at].fill(b),
                        (El::B(d), _) => d.mut_contents()[at..=at].fill(b),
                    }
                    md.contents[at] = b;
                }
                "write contents"
            }
            9 | 10 => {
                let (c, p) = (r.below(4), r.chance(1, 2));
                let keep_pc = md.indef;
                let p = if keep_pc { md.id[0] & 0x20 != 0 } else { p };
                let i: &mut IdRef = match (&mut el, r.below(2)) {
                    (El::D(d), 0) => d.mut_id(),
                    (El::B(d), 0) => d.mut_id(),
                    (El::D(d), _) => d.disassemble_mut().0,
                    (El::B(d), _) => d.disassemble_mut().0,
                };
                i.set_class(CLASSES[c]);
                i.set_pc(pc(p));
                md.id[0] = md.id[0] & 0x1f | (c as u8) << 6 | (p as u8) << 5;
                "edit identifier"
            }
            11 => {
                // go through a copy; the original must not notice later edits
                let copy = match &el {
                    El::D(d) => El::D(d.clone()),
                    El::B(d) => El::B(d.clone()),
                };
                let old = std::mem::replace(&mut el, copy);
                match &mut el {
                    El::D(d) => d.push(7),
                    El::B(d) => d.push(7),
                }
                let ok = check(m, &old, &md, "original after its copy was changed");
                md.contents.push(7);
                if !ok {
                    return;
                }
                "clone"
            }
            _ => {
                el = match el {
                    El::D(d) => {
                        if r.chance(1, 3) {
                            El::B(Ber::from(d))
                        } else {
                            let mut v = d.into_vec();
                            if r.chance(1, 2) {
                                v.shrink_to_fit();
                            } else {
                                v.reserve(r.below(50));
                            }
                            El::D(unsafe { Der::from_vec_unchecked(v) })
                        }
                    }
                    El::B(d) => El::B(unsafe { Ber::from_vec_unchecked(d.into_vec()) }),
                };
                "through a byte vector"
            }
        };
        m.ev(what);
        let after_head = md.octets().len() - md.contents.len();
        if after_head > before_head {
            m.ev("length octets grew");
        } else if after_head < before_head {
            m.ev("length octets shrank");
        }
        let was_inline = before_head + cur <= 23;
        let is_inline = after_head + md.contents.len() <= 23;
        if was_inline && !is_inline {
            m.ev("outgrew inline size");
        }
        shape = crate::rng::mix(shape ^ (op as u64) << 40 ^ (md.contents.len() as u64));
        m.sig(shape);
        if !check(m, &el, &md, what) {
            m.fail(format!("step {step} of a history started by {how}"));
            return;
        }
        if md.contents.len() > 300_000 {
            break;
        }
    }
    m.max("largest contents", md.contents.len() as u64);
    m.sample(|| format!("{how}, {ops} operations, ends with {} contents octets, id {}", md.contents.len(), hex(&md.id)));
}

/// Every pair of sizes around the boundaries, for one identifier size.
pub fn pairs(m: &mut Mon, r: &mut Rng, i: u64) {
    let e = if cfg!(miri) { &gens::EDGES[..30] } else { gens::EDGES };
    let k = e.len() as u64;
    let (a, b) = (e[(i % k) as usize], e[(i / k % k) as usize]);
    let idn = [1usize, 3, 4, 6, 20][(i / k / k % 5) as usize];
    let id = if idn == 1 { vec![0x04] } else { gens::long_id(r, idn) };
    for indef in [false, true] {
        let c = r.bytes(a);
        let cref = <&ContentsRef>::from(&c[..]);
        let mut md = Model { id: id.clone(), indef, contents: c.clone() };
        let mut el = if indef {
            El::B(unsafe { Ber::new_indefinite(idref(&id), cref) })
        } else {
            El::D(Der::new(idref(&id), cref))
        };
        let what;
        if b >= a {
            let add = r.bytes(b - a);
            match &mut el {
                El::D(d) => d.extend_from_slice(&add),
                El::B(d) => d.extend_from_slice(&add),
            }
            md.contents.extend(add);
            what = "grow across boundary";
        } else {
            match &mut el {
                El::D(d) => d.truncate(b),
                El::B(d) => d.truncate(b),
            }
            md.contents.truncate(b);
            what = "shrink across boundary";
        }
        m.ev(what);
        check(m, &el, &md, what);
        m.sig((a as u64) << 40 | (b as u64) << 8 | (idn as u64) << 1 | indef as u64);
        // and back
        if b >= a {
            match &mut el {
                El::D(d) => d.truncate(a),
                El::B(d) => d.truncate(a),
            }
            md.contents.truncate(a);
        } else {
            match &mut el {
                El::D(d) => d.extend_from_slice(&c[b..]),
                El::B(d) => d.extend_from_slice(&c[b..]),
            }
            md.contents = c.clone();
        }
        check(m, &el, &md, "and back");
    }
}

pub fn run(run: &mut Run) {
    let k = gens::EDGES.len() as u64;
    let p = run.n(25, k * k * 5, k * k * 5 * 8);
    run.group("boundary pairs", p, &|m, r, i| {
        let i = if cfg!(miri) { r.u64() >> 8 } else { i };
        pairs(m, r, i)
    });
    let n = run.n(25, 60_000, 1_500_000);
    run.group("histories", n, &|m, r, _| history(m, r, 12));
    let n = run.n(4, 4000, 80_000);
    run.group("long histories", n, &|m, r, _| history(m, r, 80));
    let n = run.n_huge(6, 40);
    run.group("huge contents", n, &|m, r, i| {
        let e = gens::HUGE_EDGES[(i % 3) as usize];
        let id = gens::id(r);
        let mut d = Der::new(idref(&id), <&ContentsRef>::from(&[1u8, 2, 3]));
        let add = vec![0x5a; e - 3];
        d.extend_from_slice(&add);
        let mut md = Model { id, indef: false, contents: [&[1u8, 2, 3][..], &add].concat() };
        for t in [e, e - 1, (1 << 24) - 1, 65536, 65535, 256, 255, 128, 127, 0] {
            d.truncate(t);
            md.contents.truncate(t);
            let el = El::D(d);
            if !check(m, &el, &md, "truncate huge") {
                return;
            }
            d = match el {
                El::D(d) => d,
                _ => unreachable!(),
            };
        }
        m.ev("huge");
        m.sig(i);
    });
}
