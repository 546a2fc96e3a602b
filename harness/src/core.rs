//! Run control: cases, verdict counting, crash and hang reporting.

use crate::rng::{hash_bytes, mix, Rng};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Tier {
    /// Handful of cases for interpreters.
    Tiny,
    Quick,
    Thorough,
}

pub struct Violation {
    pub group: String,
    pub idx: u64,
    pub msg: String,
}

/// What the monitors of one worker have seen.
pub struct Mon {
    pub group: &'static str,
    pub idx: u64,
    pub evals: u64,
    pub cases: u64,
    pub events: BTreeMap<&'static str, u64>,
    pub sigs: HashSet<u64>,
    pub sig_overflow: u64,
    pub viol: Vec<Violation>,
    pub samples: Vec<String>,
    pub maxima: BTreeMap<&'static str, u64>,
}

const MAX_VIOL: usize = 20;
const MAX_SIGS: usize = 1_500_000;

impl Mon {
    pub fn new(group: &'static str) -> Self {
        Mon {
            group,
            idx: 0,
            evals: 0,
            cases: 0,
            events: BTreeMap::new(),
            sigs: HashSet::new(),
            sig_overflow: 0,
            viol: Vec::new(),
            samples: Vec::new(),
            maxima: BTreeMap::new(),
        }
    }
    /// One oracle verdict.
    #[inline]
    pub fn check(&mut self, cond: bool, msg: impl FnOnce() -> String) -> bool {
        self.evals += 1;
        if !cond {
            self.fail(msg());
        }
        cond
    }
    #[inline]
    pub fn eq<T: PartialEq + std::fmt::Debug>(&mut self, what: &str, got: T, want: T) -> bool {
        self.evals += 1;
        if got != want {
            self.fail(format!("{what}: got {}, want {}", short(&got), short(&want)));
            return false;
        }
        true
    }
    pub fn eq_bytes(&mut self, what: &str, got: &[u8], want: &[u8]) -> bool {
        self.evals += 1;
        if got != want {
            self.fail(format!("{what}: got {}, want {}", hex(got), hex(want)));
            return false;
        }
        true
    }
    pub fn fail(&mut self, msg: String) {
        if MUTED.load(Ordering::Relaxed) {
            *self.events.entry("functional disagreements, judged elsewhere").or_insert(0) += 1;
            return;
        }
        self.fail_hard(msg)
    }
    /// A violation even where functional oracles are muted.
    pub fn fail_hard(&mut self, msg: String) {
        if self.viol.len() < MAX_VIOL {
            self.viol.push(Violation {
                group: self.group.to_string(),
                idx: self.idx,
                msg,
            });
        }
        FAILED.store(true, Ordering::Relaxed);
    }
    /// One observed event of the given kind.
    #[inline]
    pub fn ev(&mut self, name: &'static str) {
        *self.events.entry(name).or_insert(0) += 1;
    }
    pub fn ev_n(&mut self, name: &'static str, n: u64) {
        *self.events.entry(name).or_insert(0) += n;
    }
    pub fn max(&mut self, name: &'static str, v: u64) {
        let e = self.maxima.entry(name).or_insert(0);
        *e = (*e).max(v);
    }
    /// Remember a distinct observed situation.
    #[inline]
    pub fn sig(&mut self, s: u64) {
        if self.sigs.len() < MAX_SIGS {
            self.sigs.insert(s);
        } else {
            self.sig_overflow += 1;
        }
    }
    pub fn sig_bytes(&mut self, tag: u64, b: &[u8]) {
        self.sig(hash_bytes(mix(tag), b))
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            let s = f();
            self.samples.push(format!("{}:{} {}", self.group, self.idx, s));
        }
    }
    /// Run library code that must not panic.
    pub fn guard<T>(&mut self, what: &str, f: impl FnOnce() -> T) -> Option<T> {
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(v) => Some(v),
            Err(_) => {
                self.fail(format!("{what}: panicked: {}", last_panic()));
                None
            }
        }
    }
    /// Run library code that may panic; true if it did.
    pub fn may_panic<T>(&mut self, f: impl FnOnce() -> T) -> Result<T, String> {
        catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
    }
}

pub fn short<T: std::fmt::Debug>(v: &T) -> String {
    let mut s = format!("{:?}", v);
    if s.len() > 400 {
        let mut n = 400;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        s.truncate(n);
        s.push_str("...");
    }
    s
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b.iter().take(96) {
        s.push_str(&format!("{:02x}", x));
    }
    if b.len() > 96 {
        s.push_str(&format!("...({} octets)", b.len()));
    }
    if b.is_empty() {
        s.push_str("(empty)");
    }
    s
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
}

fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

static FAILED: AtomicBool = AtomicBool::new(false);
static REPLAY: AtomicBool = AtomicBool::new(false);

const SLOTS: usize = 64;
struct Slot {
    group: AtomicUsize,
    idx: AtomicU64,
    seq: AtomicU64,
    clock: AtomicU64,
}
#[allow(clippy::declare_interior_mutable_const)]
const SLOT0: Slot = Slot {
    group: AtomicUsize::new(usize::MAX),
    idx: AtomicU64::new(0),
    seq: AtomicU64::new(0),
    clock: AtomicU64::new(0),
};
static TABLE: [Slot; SLOTS] = [SLOT0; SLOTS];
static GROUPS: Mutex<Vec<&'static str>> = Mutex::new(Vec::new());

#[cfg(not(miri))]
mod sys {
    #[repr(C)]
    pub struct SigAction {
        pub handler: usize,
        pub mask: [u64; 16],
        pub flags: i32,
        pub restorer: usize,
    }
    #[repr(C)]
    pub struct Ts {
        pub s: i64,
        pub n: i64,
    }
    extern "C" {
        pub fn sigaction(sig: i32, act: *const SigAction, old: *mut SigAction) -> i32;
        pub fn write(fd: i32, p: *const std::ffi::c_void, n: usize) -> isize;
        pub fn _exit(code: i32) -> !;
        pub fn pthread_self() -> usize;
        pub fn pthread_getcpuclockid(t: usize, id: *mut i32) -> i32;
        pub fn clock_gettime(id: i32, ts: *mut Ts) -> i32;
    }
    #[cfg(mon_asan)]
    extern "C" {
        pub fn __sanitizer_set_death_callback(f: extern "C" fn());
    }
}

/// CPU time of the calling thread in nanoseconds.
#[cfg(not(miri))]
pub fn cpu_ns() -> u64 {
    let mut t = sys::Ts { s: 0, n: 0 };
    unsafe { sys::clock_gettime(3, &mut t) };
    t.s as u64 * 1_000_000_000 + t.n as u64
}
#[cfg(miri)]
pub fn cpu_ns() -> u64 {
    0
}

/// Name of the group table entry a slot points to, without taking locks.
static NAMES: [AtomicPtr<&'static str>; 512] = {
    #[allow(clippy::declare_interior_mutable_const)]
    const Z: AtomicPtr<&'static str> = AtomicPtr::new(std::ptr::null_mut());
    [Z; 512]
};

/// Set when a workload runs for the sake of crash, sanitizer and leak reports only.
pub static MUTED: AtomicBool = AtomicBool::new(false);

/// Forget the last panic message, so that it does not count as held memory.
pub fn forget_panic() {
    LAST_PANIC.with(|p| *p.borrow_mut() = String::new());
}

struct Fixed {
    b: [u8; 400],
    n: usize,
}
impl Fixed {
    fn put(&mut self, s: &[u8]) {
        for &c in s {
            if self.n < self.b.len() {
                self.b[self.n] = c;
                self.n += 1;
            }
        }
    }
    fn num(&mut self, mut v: u64) {
        let mut t = [0u8; 20];
        let mut i = 20;
        loop {
            i -= 1;
            t[i] = b'0' + (v % 10) as u8;
            v /= 10;
            if v == 0 {
                break;
            }
        }
        let t2 = t;
        self.put(&t2[i..]);
    }
}

fn report_slot(slot: usize, msg: &str, a: u64, b: u64) {
    let mut o = Fixed { b: [0; 400], n: 0 };
    o.put(b"\nCRASH\t");
    if slot < SLOTS {
        let g = TABLE[slot].group.load(Ordering::Relaxed);
        if g < NAMES.len() {
            let p = NAMES[g].load(Ordering::Acquire);
            if !p.is_null() {
                o.put(unsafe { (*p).as_bytes() });
            }
        }
        o.put(b"\t");
        o.num(TABLE[slot].idx.load(Ordering::Relaxed));
    } else {
        o.put(b"?\t0");
    }
    o.put(b"\t");
    o.put(msg.as_bytes());
    o.put(b" [");
    o.num(a);
    o.put(b",");
    o.num(b);
    o.put(b"]\n");
    #[cfg(not(miri))]
    unsafe {
        sys::write(1, o.b.as_ptr() as *const _, o.n);
    }
    #[cfg(miri)]
    println!("{}", String::from_utf8_lossy(&o.b[..o.n]));
}

/// Report an unrecoverable violation and end the process.
pub fn crash_report(msg: &str, a: u64, b: u64) -> ! {
    let slot = SLOT.try_with(|s| s.get()).unwrap_or(usize::MAX);
    report_slot(slot, msg, a, b);
    #[cfg(not(miri))]
    unsafe {
        sys::_exit(42)
    }
    #[cfg(miri)]
    std::process::exit(42)
}

#[cfg(not(any(miri, mon_asan)))]
extern "C" fn on_signal(sig: i32) {
    let refused = crate::alloc::refused() as u64;
    let msg = match sig {
        11 => "SIGSEGV (invalid memory access or stack overflow)",
        7 => "SIGBUS",
        6 if refused != 0 => "abort: memory request refused (size below)",
        6 => "abort",
        4 => "SIGILL",
        8 => "SIGFPE",
        _ => "signal",
    };
    crash_report(msg, refused, sig as u64)
}

#[cfg(mon_asan)]
extern "C" fn on_asan_death() {
    let slot = SLOT.try_with(|s| s.get()).unwrap_or(usize::MAX);
    report_slot(slot, "AddressSanitizer report (see stderr)", 0, 0);
}

fn install() {
    std::panic::set_hook(Box::new(|info| {
        let s = info.to_string();
        LAST_PANIC.with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = s;
            }
        });
    }));
    #[cfg(not(any(miri, mon_asan)))]
    unsafe {
        for sig in [4, 6, 7, 8, 11] {
            let act = sys::SigAction {
                handler: on_signal as *const () as usize,
                mask: [0; 16],
                flags: 0x0800_0000, // SA_ONSTACK
                restorer: 0,
            };
            sys::sigaction(sig, &act, std::ptr::null_mut());
        }
    }
    #[cfg(mon_asan)]
    unsafe {
        sys::__sanitizer_set_death_callback(on_asan_death);
    }
}

/// A case whose thread burns more CPU than this is reported as a hang.
fn hang_cpu_ns() -> u64 {
    if MUTED.load(Ordering::Relaxed) {
        400_000_000_000
    } else {
        60_000_000_000
    }
}

#[cfg(not(miri))]
fn watchdog() {
    std::thread::spawn(|| {
        let mut last = [(0u64, 0u64); SLOTS];
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            for (i, s) in TABLE.iter().enumerate() {
                if s.group.load(Ordering::Relaxed) == usize::MAX {
                    last[i].0 = 0;
                    continue;
                }
                let seq = s.seq.load(Ordering::Relaxed);
                let clock = s.clock.load(Ordering::Relaxed) as u32 as i32;
                let mut t = sys::Ts { s: 0, n: 0 };
                if unsafe { sys::clock_gettime(clock, &mut t) } != 0 {
                    continue;
                }
                let now = t.s as u64 * 1_000_000_000 + t.n as u64;
                if last[i].0 != seq || now < last[i].1 {
                    last[i] = (seq, now);
                } else if now - last[i].1 > hang_cpu_ns() {
                    report_slot(i, "case did not finish within the CPU limit", hang_cpu_ns(), 0);
                    unsafe { sys::_exit(42) }
                }
            }
        }
    });
}

pub struct Run {
    pub prop: String,
    pub seed: u64,
    pub tier: Tier,
    pub only: Option<(String, u64)>,
    pub threads: usize,
    pub total: Mon,
    pub per_group: Vec<(String, u64, u64, u64)>,
    pub scale: f64,
    groups_seen: usize,
}

type CaseFn<'a> = dyn Fn(&mut Mon, &mut Rng, u64) + Sync + 'a;

impl Run {
    pub fn new(prop: &str, seed: u64, tier: Tier, only: Option<(String, u64)>, threads: usize) -> Self {
        install();
        #[cfg(not(miri))]
        if only.is_none() {
            watchdog();
        }
        REPLAY.store(only.is_some(), Ordering::Relaxed);
        Run {
            prop: prop.to_string(),
            seed,
            tier,
            only,
            threads,
            total: Mon::new("total"),
            per_group: Vec::new(),
            scale: 1.0,
            groups_seen: 0,
        }
    }

    /// Number of cases by tier (interpreter, quick, thorough).
    pub fn n(&self, tiny: u64, quick: u64, thorough: u64) -> u64 {
        let n = match self.tier {
            Tier::Tiny => tiny,
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        };
        if self.tier == Tier::Tiny {
            n
        } else {
            ((n as f64) * self.scale).ceil() as u64
        }
    }

    /// The same for cases of many megabytes, which sanitizers and interpreters are spared.
    pub fn n_huge(&self, quick: u64, thorough: u64) -> u64 {
        if MUTED.load(Ordering::Relaxed) {
            0
        } else {
            self.n(0, quick, thorough)
        }
    }

    pub fn group(&mut self, name: &'static str, n: u64, f: &CaseFn) {
        self.group_big(name, n, 8 << 20, f)
    }

    pub fn group_big(&mut self, name: &'static str, n: u64, stack: usize, f: &CaseFn) {
        let gi = self.groups_seen;
        self.groups_seen += 1;
        {
            let mut g = GROUPS.lock().unwrap();
            g.push(name);
            NAMES[gi].store(Box::leak(Box::new(name)), Ordering::Release);
        }
        let base = hash_bytes(hash_bytes(mix(self.seed), self.prop.as_bytes()), name.as_bytes());
        let range: (u64, u64) = match &self.only {
            Some((g, i)) => {
                if g != name {
                    return;
                }
                (*i, *i + 1)
            }
            None => (0, n),
        };
        if range.0 >= range.1 {
            return;
        }
        let next = AtomicU64::new(range.0);
        let chunk = ((range.1 - range.0) / (self.threads as u64 * 16)).clamp(1, 1024);
        let work = |slot: usize| -> Mon {
            let mut m = Mon::new(name);
            SLOT.with(|s| s.set(slot));
            let s = &TABLE[slot];
            #[cfg(not(miri))]
            {
                let mut id = 0i32;
                unsafe { sys::pthread_getcpuclockid(sys::pthread_self(), &mut id) };
                s.clock.store(id as u32 as u64, Ordering::Relaxed);
            }
            s.group.store(gi, Ordering::Relaxed);
            loop {
                let from = next.fetch_add(chunk, Ordering::Relaxed);
                if from >= range.1 || m.viol.len() >= MAX_VIOL {
                    break;
                }
                for i in from..(from + chunk).min(range.1) {
                    s.idx.store(i, Ordering::Relaxed);
                    s.seq.fetch_add(1, Ordering::Relaxed);
                    m.idx = i;
                    m.cases += 1;
                    #[cfg(miri)]
                    println!("AT\t{}\t{}", name, i);
                    let mut rng = Rng::new(base ^ mix(i));
                    let r = catch_unwind(AssertUnwindSafe(|| f(&mut m, &mut rng, i)));
                    if r.is_err() {
                        m.fail(format!("panicked: {}", last_panic()));
                    }
                    if m.viol.len() >= MAX_VIOL {
                        break;
                    }
                }
            }
            s.group.store(usize::MAX, Ordering::Relaxed);
            m
        };
        let mons: Vec<Mon> = if self.threads <= 1 && cfg!(miri) {
            vec![work(0)]
        } else {
            let nt = if range.1 - range.0 == 1 { 1 } else { self.threads };
            std::thread::scope(|sc| {
                let hs: Vec<_> = (0..nt)
                    .map(|t| {
                        let w = &work;
                        std::thread::Builder::new()
                            .stack_size(stack)
                            .spawn_scoped(sc, move || w(t))
                            .expect("spawn")
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().expect("worker")).collect()
            })
        };
        let mut cases = 0;
        let mut evals = 0;
        let before = self.total.sigs.len();
        for m in mons {
            cases += m.cases;
            evals += m.evals;
            self.total.cases += m.cases;
            self.total.evals += m.evals;
            for (k, v) in m.events {
                *self.total.events.entry(k).or_insert(0) += v;
            }
            for (k, v) in m.maxima {
                self.total.max(k, v);
            }
            self.total.sig_overflow += m.sig_overflow;
            if self.total.sigs.len() < 8_000_000 {
                self.total.sigs.extend(m.sigs.into_iter().map(|s| s ^ base));
            }
            for s in m.samples {
                if self.total.samples.len() < 60
                    && self.total.samples.iter().filter(|x| x.starts_with(name)).count() < 3
                {
                    self.total.samples.push(s);
                }
            }
            for v in m.viol {
                if self.total.viol.len() < MAX_VIOL {
                    self.total.viol.push(v);
                }
            }
        }
        let d = (self.total.sigs.len() - before) as u64;
        self.per_group.push((name.to_string(), cases, evals, d));
    }

    /// Print the outcome; exit code 1 on violations, 3 if nothing was observed.
    pub fn finish(self) -> i32 {
        let mut o = String::new();
        o.push_str("EVIDENCE {");
        o.push_str(&format!("\"cases\":{},\"evaluations\":{},", self.total.cases, self.total.evals));
        o.push_str(&format!("\"distinct\":{},", self.total.sigs.len()));
        o.push_str("\"events\":{");
        o.push_str(&join(self.total.events.iter().map(|(k, v)| format!("{}:{}", jstr(k), v))));
        o.push_str("},\"maxima\":{");
        o.push_str(&join(self.total.maxima.iter().map(|(k, v)| format!("{}:{}", jstr(k), v))));
        o.push_str("},\"groups\":{");
        o.push_str(&join(self.per_group.iter().map(|(n, c, e, d)| {
            format!("{}:{{\"cases\":{},\"evaluations\":{},\"distinct\":{}}}", jstr(n), c, e, d)
        })));
        o.push_str("},\"samples\":[");
        o.push_str(&join(self.total.samples.iter().map(|s| jstr(s))));
        o.push_str("],\"violations\":[");
        o.push_str(&join(self.total.viol.iter().map(|v| {
            format!("{{\"group\":{},\"idx\":{},\"msg\":{}}}", jstr(&v.group), v.idx, jstr(&v.msg))
        })));
        o.push_str("]}");
        println!("{o}");
        if !self.total.viol.is_empty() {
            1
        } else if self.total.cases == 0 || self.total.evals == 0 {
            3
        } else {
            0
        }
    }
}

fn join(it: impl Iterator<Item = String>) -> String {
    it.collect::<Vec<_>>().join(",")
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
