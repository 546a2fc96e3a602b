//! C06: reading from a stream equals parsing the complete slice, under any delivery and faults.

use crate::core::{hex, Mon, Run};
use crate::gens;
use crate::io::{End, ScriptReader, FAILS};
use crate::model::{self, kind, Kinds, Parsed};
use crate::rng::Rng;
use bsn1::{Ber, BerRef, Der, DerRef, Error, Id, Length};
use std::io::ErrorKind;

fn io_error(e: &Error) -> Option<&std::io::Error> {
    match e {
        Error::Io(e) => Some(e),
        Error::Anyhow(a) => a.chain().find_map(|c| match c.downcast_ref::<Error>() {
            Some(Error::Io(e)) => Some(e),
            _ => c.downcast_ref::<std::io::Error>(),
        }),
        _ => None,
    }
}

#[derive(Clone, Copy, PartialEq)]
enum What {
    Der,
    Ber,
    Id,
    Length,
    ReadDer,
    ReadBer,
}
const ALL: [What; 6] = [What::Der, What::Ber, What::Id, What::Length, What::ReadDer, What::ReadBer];
const NAME: [&str; 6] = ["Der::parse", "Ber::parse", "Id::parse", "Length::parse", "read_der", "read_ber"];

/// Total octets of the thing at the front of b according to the model.
fn expect(w: What, b: &[u8]) -> (Result<usize, Kinds>, bool) {
    let tot = |p: Parsed| (p.res.map(|t| t.total), p.odd_eoc);
    match w {
        What::Der | What::ReadDer => tot(model::tlv_der(b)),
        What::Ber | What::ReadBer => tot(model::tlv_ber(b)),
        What::Id => (model::id_at(b), false),
        What::Length => (model::len_at(b).map(|x| x.0), false),
    }
}

/// The octets read, or the refusal. For the value readers the octets are not visible.
fn call(w: What, rd: &mut ScriptReader) -> Result<Option<Vec<u8>>, Error> {
    match w {
        What::Der => Der::parse(rd).map(|d| Some(d.into_vec())),
        What::Ber => Ber::parse(rd).map(|d| Some(d.into_vec())),
        What::Id => Id::parse(rd).map(|d| Some(AsRef::<[u8]>::as_ref(&d).to_vec())),
        What::Length => Length::parse(rd).map(|d| Some(d.to_bytes().to_vec())),
        What::ReadDer => bsn1_serde::read_der::<_, bsn1_serde::OctetString>(rd).map(|_| None),
        What::ReadBer => bsn1_serde::read_ber::<_, bsn1_serde::OctetString>(rd).map(|_| None),
    }
}

fn one(m: &mut Mon, w: What, b: &[u8], max: usize, intr: usize, stop: usize, end: End, rng: Rng) {
    let name = NAME[w as usize];
    let stop = stop.min(b.len());
    let mut rd = ScriptReader::new(b, max, intr, stop, end, rng);
    let Some(got) = m.guard(name, || call(w, &mut rd)) else { return };
    let (want, odd) = expect(w, &b[..stop]);
    let how = || format!("chunks<={max} interrupts {intr}/8 stop {stop} {end:?}");
    m.evals += 1;
    m.ev_n("interruptions delivered", rd.interrupted as u64);
    m.ev_n("read calls", rd.calls as u64);
    match want {
        Ok(n) => {
            // the whole element was available
            m.check(rd.ends_seen == 0, || format!("{name}({}): read past the element, {}", hex(b), how()));
            m.check(rd.max_asked <= n, || {
                format!("{name}({}): asked for octet {} of an element of {n}, {}", hex(b), rd.max_asked, how())
            });
            match got {
                Ok(o) => {
                    if let Some(o) = o {
                        m.eq_bytes(name, &o, &b[..n]);
                    }
                    m.eq("octets taken", rd.pos, n);
                    m.ev("whole element read");
                }
                Err(e) => {
                    if matches!(w, What::ReadDer | What::ReadBer) && kind(&e) != Kinds::IO {
                        // same refusal as from the slice, and the element was taken
                        let slice = if w == What::ReadDer {
                            DerRef::parse(&mut &b[..n]).and_then(|d| bsn1_serde::from_der::<bsn1_serde::OctetString>(d).map(drop))
                        } else {
                            BerRef::parse(&mut &b[..n]).and_then(|d| bsn1_serde::from_ber::<bsn1_serde::OctetString>(d).map(drop))
                        };
                        m.eq("refusal from slice and stream", Some(kind(&e)), slice.as_ref().err().map(kind));
                        m.eq("octets taken", rd.pos, n);
                        m.ev("value refused");
                    } else if !(odd && kind(&e) == Kinds::BADEOC) {
                        m.fail(format!("{name}({}): {:?} though the element was complete, {}", hex(b), e, how()));
                    }
                }
            }
        }
        Err(k) => {
            let e = match got {
                Ok(_) => {
                    m.fail(format!("{name}({}): success, want {:?}, {}", hex(&b[..stop]), k, how()));
                    return;
                }
                Err(e) => e,
            };
            if rd.ends_seen > 0 {
                if let End::Fail(fk) = end {
                    let ok = io_error(&e).map_or(false, |x| rd.failed_with(x));
                    m.check(ok, || format!("{name}({}): reader failed with {fk:?} but the call returned {:?}, {}", hex(b), e, how()));
                    m.ev("reader error passed on");
                    return;
                }
                m.ev("end of stream seen");
            }
            let g = kind(&e);
            m.check(k.has(g) || (odd && g == Kinds::BADEOC), || {
                format!("{name}({}): refused as {:?}, want {:?}, {}", hex(&b[..stop]), g, k, how())
            });
            m.ev("refused");
        }
    }
}

fn element(r: &mut Rng) -> Vec<u8> {
    if !cfg!(miri) && r.chance(1, 60) {
        return gens::deep(r);
    }
    match r.below(5) {
        0 => {
            let n = gens::small_size(r);
            let c = gens::fill(r, n);
            model::enc_tlv(&[0x04], &c)
        }
        1 => {
            let n = gens::small_size(r);
            model::enc_tlv(&gens::id(r), &gens::fill(r, n))
        }
        _ => {
            let (d, x) = (r.below(4), r.below(8));
            gens::element(r, d, x)
        }
    }
}

fn schedule(r: &mut Rng) -> (usize, usize) {
    (*r.pick(&[1usize, 2, 3, 5, 23, 24, 100, 4096, usize::MAX]), *r.pick(&[0usize, 0, 1, 3, 6]))
}

pub fn run(run: &mut Run) {
    // Every fault position of small elements, every kind of end, several chunk sizes.
    let ex = run.n(2, 1500, 30_000);
    run.group("every fault position", ex, &|m, r, _| {
        let mut b = element(r);
        while b.len() > 48 {
            b = element(r);
        }
        if r.chance(1, 3) {
            b.extend([0x30, 0x80, 0x00]);
        }
        if r.chance(1, 4) {
            gens::mutate(r, &mut b);
        }
        let step = if cfg!(miri) { 5 } else { 1 };
        for stop in (0..=b.len()).step_by(step) {
            for w in ALL {
                for max in [1usize, 3, usize::MAX] {
                    let intr = r.below(4);
                    one(m, w, &b, max, intr, stop, End::Eof, r.clone());
                    let k = *r.pick(FAILS);
                    one(m, w, &b, max, intr, stop, End::Fail(k), r.clone());
                }
            }
            m.ev("fault positions");
        }
        m.sig_bytes(1, &b);
        m.sample(|| format!("all positions of {}", hex(&b)));
    });
    let kinds = run.n(2, 200, 4000);
    run.group("every error kind", kinds, &|m, r, _| {
        let b = element(r);
        for k in FAILS {
            let stop = r.below(b.len());
            let (max, intr) = schedule(r);
            for w in ALL {
                one(m, w, &b, max, intr, stop, End::Fail(*k), r.clone());
            }
        }
        m.sig_bytes(2, &b);
    });
    let sc = run.n(10, 40_000, 1_000_000);
    run.group("random schedules", sc, &|m, r, _| {
        let mut b = element(r);
        if r.chance(1, 3) {
            gens::mutate(r, &mut b);
        }
        if r.chance(1, 2) {
            let n = r.below(10);
            b.extend(gens::noisy(r, n));
        }
        let (max, intr) = schedule(r);
        let stop = if r.chance(1, 2) { b.len() } else { r.below(b.len() + 1) };
        let end = if r.chance(1, 2) { End::Eof } else { End::Fail(*r.pick(FAILS)) };
        let w = *r.pick(&ALL);
        one(m, w, &b, max, intr, stop, end, r.clone());
        m.sig(crate::rng::hash_bytes(max as u64 ^ (intr as u64) << 40 ^ stop as u64, &b));
        m.sample(|| format!("{} chunks<={max} interrupts {intr}/8 stop {stop} of {} {end:?}", NAME[w as usize], b.len()));
    });
    let no = run.n(10, 40_000, 1_000_000);
    run.group("noise", no, &|m, r, _| {
        let n = r.below(30);
        let b = gens::noisy(r, n);
        let (max, intr) = schedule(r);
        for w in ALL {
            one(m, w, &b, max, intr, b.len(), End::Eof, r.clone());
        }
        m.sig_bytes(3, &b);
    });
    let big = run.n(0, 300, 5000);
    run.group("large elements", big, &|m, r, i| {
        let n = if i % 3 == 0 { *r.pick(gens::BIG_EDGES) } else { 3000 + r.below(30_000) };
        let mut b = model::enc_tlv(&gens::id(r), &r.bytes(n));
        let total = b.len();
        if i % 4 == 1 {
            // inside an indefinite level, behind other elements
            let mut v = vec![0x30, 0x80, 0x05, 0x00];
            v.extend(&b);
            v.extend([0, 0]);
            b = v;
        }
        b.extend([0x99, 0x99]);
        let max = *r.pick(&[1usize, 7, 1000, 4095, 4096, 4097, usize::MAX]);
        let intr = r.below(3);
        let stop = match r.below(4) {
            0 => r.below(total),
            1 => total - 1,
            2 => *r.pick(&[4096usize, 4097, 8192, 5, 6]),
            _ => b.len(),
        };
        let end = if r.chance(1, 2) { End::Eof } else { End::Fail(*r.pick(FAILS)) };
        for w in [What::Der, What::Ber, What::ReadDer, What::ReadBer] {
            one(m, w, &b, max, intr, stop, end, r.clone());
        }
        m.sig(n as u64 * 31 + stop as u64);
    });
    // A reader that never interrupts for ever is required to make progress only; long bursts still pass.
    let bursts = run.n(3, 300, 3000);
    run.group("interrupt bursts", bursts, &|m, r, _| {
        let b = element(r);
        for w in ALL {
            one(m, w, &b, 1, 7, b.len(), End::Eof, r.clone());
        }
        m.ev("bursts");
        m.sig_bytes(5, &b);
    });
    let _ = ErrorKind::Interrupted;
}
