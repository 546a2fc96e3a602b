//! Readers and writers with scripted behaviour. They log what was asked of them.

use crate::rng::Rng;
use std::io::{self, ErrorKind, Read, Write};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum End {
    /// Ok(0) for ever.
    Eof,
    /// An error of this kind, for ever or (`recovers`) once.
    Fail(ErrorKind),
}

/// After so many answers `Ok(0)` in a row a caller is stuck.
const PATIENCE: usize = 200;

pub const FAILS: &[ErrorKind] = &[
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::ConnectionReset,
    ErrorKind::BrokenPipe,
    ErrorKind::InvalidData,
    ErrorKind::Other,
    ErrorKind::PermissionDenied,
    ErrorKind::UnexpectedEof,
    ErrorKind::WriteZero,
    ErrorKind::OutOfMemory,
];

/// Message carried by injected errors, so that the very same error can be recognised.
pub const MARK: &str = "injected-fault-7c3";

/// How an injected fault is made; callers may tell them apart.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Style {
    Message,
    Os(i32),
    Bare,
}

impl Style {
    fn draw(r: &mut Rng, k: Option<ErrorKind>) -> Style {
        let code = match k {
            Some(ErrorKind::WouldBlock) => 11,
            Some(ErrorKind::TimedOut) => 110,
            Some(ErrorKind::ConnectionReset) => 104,
            Some(ErrorKind::BrokenPipe) => 32,
            Some(ErrorKind::PermissionDenied) => 13,
            Some(ErrorKind::OutOfMemory) => 12,
            _ => 0,
        };
        match r.below(4) {
            0 if code != 0 && !cfg!(miri) => Style::Os(code),
            1 => Style::Bare,
            _ => Style::Message,
        }
    }
    fn make(self, k: ErrorKind) -> io::Error {
        match self {
            Style::Message => io::Error::new(k, MARK),
            Style::Os(c) => io::Error::from_raw_os_error(c),
            Style::Bare => io::Error::from(k),
        }
    }
    /// Is `e` the injected error itself?
    fn is(self, e: &io::Error, k: ErrorKind) -> bool {
        e.kind() == k
            && match self {
                Style::Message => e.raw_os_error().is_none() && e.to_string() == MARK,
                Style::Os(c) => e.raw_os_error() == Some(c),
                Style::Bare => e.raw_os_error().is_none() && e.get_ref().is_none(),
            }
    }
}

fn interruption(r: &mut Rng) -> io::Error {
    match r.below(3) {
        0 => io::Error::new(ErrorKind::Interrupted, "interrupted"),
        1 if !cfg!(miri) => io::Error::from_raw_os_error(4),
        _ => io::Error::from(ErrorKind::Interrupted),
    }
}

/// (call, number) of one long run of interruptions; mostly none.
fn burst(r: &mut Rng, interrupts: usize) -> (usize, usize) {
    let n = match r.below(4096) {
        _ if interrupts == 0 || cfg!(miri) => 0,
        0 => 40_000,
        1..=32 => 1_000,
        33..=200 => 100,
        _ => 0,
    };
    (r.below(12), n)
}

pub struct ScriptReader<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    /// Largest octet count handed out per call; drawn anew each call from 1..=max.
    pub max: usize,
    /// Interrupted is returned before a call with this chance in 8; also before the first/last octets.
    pub interrupts: usize,
    /// Position from which `end` takes over.
    pub stop: usize,
    pub end: End,
    /// A failing reader delivers the rest when asked again; the failed call must not ask again.
    pub recovers: bool,
    pub rng: Rng,
    pub calls: usize,
    pub interrupted: usize,
    pub ends_seen: usize,
    pub max_asked: usize,
    streak: usize,
    burst: (usize, usize),
    style: Style,
}

impl<'a> ScriptReader<'a> {
    pub fn new(data: &'a [u8], max: usize, interrupts: usize, stop: usize, end: End, rng: Rng) -> Self {
        let mut side = rng.clone();
        let style = Style::draw(&mut side, if let End::Fail(k) = end { Some(k) } else { None });
        ScriptReader {
            burst: burst(&mut side, interrupts),
            style,
            data,
            pos: 0,
            max,
            interrupts,
            stop,
            end,
            recovers: rng.clone().chance(1, 2),
            rng,
            calls: 0,
            interrupted: 0,
            ends_seen: 0,
            max_asked: 0,
            streak: 0,
        }
    }
    /// Is `e` the error this reader fails with?
    pub fn failed_with(&self, e: &io::Error) -> bool {
        matches!(self.end, End::Fail(k) if self.style.is(e, k))
    }
    pub fn plain(data: &'a [u8]) -> Self {
        ScriptReader::new(data, usize::MAX, 0, data.len(), End::Eof, Rng::new(0))
    }
}

impl Read for ScriptReader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        if buf.is_empty() {
            return Ok(0);
        }
        self.max_asked = self.max_asked.max(self.pos + buf.len());
        if self.burst.1 > 0 && self.calls > self.burst.0 {
            self.burst.1 -= 1;
            self.interrupted += 1;
            return Err(interruption(&mut self.rng));
        }
        if self.rng.below(8) < self.interrupts && self.streak < 5 {
            self.streak += 1;
            self.interrupted += 1;
            return Err(interruption(&mut self.rng));
        }
        self.streak = 0;
        let again = self.recovers && self.ends_seen > 0 && self.end != End::Eof;
        let stop = if again { self.data.len() } else { self.stop.min(self.data.len()) };
        if self.pos >= stop {
            self.ends_seen += 1;
            return match self.end {
                End::Eof if self.ends_seen > PATIENCE => Err(io::Error::new(ErrorKind::Other, "asked for ever after the end")),
                End::Eof => Ok(0),
                End::Fail(k) => Err(self.style.make(k)),
            };
        }
        let m = if self.max == usize::MAX {
            usize::MAX
        } else {
            self.rng.range(1, self.max)
        };
        let n = buf.len().min(stop - self.pos).min(m);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum WEnd {
    /// Ok(0): the sink takes nothing more.
    Zero,
    Fail(ErrorKind),
    Never,
}

/// No encoding of a workload with sinks comes near this size.
const FLOOD: usize = 1 << 26;

pub struct ScriptWriter {
    pub got: Vec<u8>,
    pub max: usize,
    pub interrupts: usize,
    pub stop: usize,
    pub end: WEnd,
    /// A failing sink takes everything when asked again; the failed call must not ask again.
    pub recovers: bool,
    pub rng: Rng,
    pub calls: usize,
    pub interrupted: usize,
    pub ends_seen: usize,
    streak: usize,
    burst: (usize, usize),
    style: Style,
}

impl ScriptWriter {
    pub fn new(max: usize, interrupts: usize, stop: usize, end: WEnd, rng: Rng) -> Self {
        let mut side = rng.clone();
        let style = Style::draw(&mut side, if let WEnd::Fail(k) = end { Some(k) } else { None });
        ScriptWriter {
            burst: burst(&mut side, interrupts),
            style,
            got: Vec::new(),
            max,
            interrupts,
            stop,
            end,
            recovers: rng.clone().chance(1, 2),
            rng,
            calls: 0,
            interrupted: 0,
            ends_seen: 0,
            streak: 0,
        }
    }
    /// Is `e` the error this sink fails with?
    pub fn failed_with(&self, e: &io::Error) -> bool {
        matches!(self.end, WEnd::Fail(k) if self.style.is(e, k))
    }
}

impl Write for ScriptWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if buf.is_empty() {
            return Ok(0);
        }
        if self.burst.1 > 0 && self.calls > self.burst.0 {
            self.burst.1 -= 1;
            self.interrupted += 1;
            return Err(interruption(&mut self.rng));
        }
        if self.rng.below(8) < self.interrupts && self.streak < 5 {
            self.streak += 1;
            self.interrupted += 1;
            return Err(interruption(&mut self.rng));
        }
        self.streak = 0;
        let again = self.recovers && self.ends_seen > 0;
        let room = if self.end == WEnd::Never || again { usize::MAX } else { self.stop - self.got.len() };
        if room == 0 {
            self.ends_seen += 1;
            return match self.end {
                WEnd::Zero if self.ends_seen > PATIENCE => Err(io::Error::new(ErrorKind::Other, "asked for ever when full")),
                WEnd::Fail(k) => Err(self.style.make(k)),
                _ => Ok(0),
            };
        }
        if self.got.len() > FLOOD {
            return Err(io::Error::new(ErrorKind::Other, "given octets for ever"));
        }
        let m = if self.max == usize::MAX { usize::MAX } else { self.rng.range(1, self.max) };
        let n = buf.len().min(room).min(m);
        self.got.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
