//! Checking allocator. It guards both ends of every block, checks that each
//! block is released with the size it was obtained with, fills fresh and dead
//! blocks with distinct patterns, and refuses single requests or per-thread
//! totals beyond the armed limit.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Checking;

/// Pattern of fresh blocks; results must not depend on it.
pub static FRESH: std::sync::atomic::AtomicU8 = std::sync::atomic::AtomicU8::new(0xCD);
fn fresh() -> u8 {
    FRESH.load(std::sync::atomic::Ordering::Relaxed)
}

const HEAD: usize = 32;
const TAIL: usize = 16;
const LIVE: u64 = 0x51AB_0B5E_12E5_A11C;
const DEAD: u64 = 0xDEAD_51AB_DEAD_51AB;

thread_local! {
    static LIVE_BYTES: Cell<i64> = const { Cell::new(0) };
    static LIVE_BLOCKS: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static LIMIT: Cell<i64> = const { Cell::new(i64::MAX) };
    static BASE: Cell<i64> = const { Cell::new(0) };
    static REFUSED: Cell<usize> = const { Cell::new(0) };
}

pub fn refused() -> usize {
    REFUSED.with(|c| c.get())
}
pub fn live() -> (i64, i64) {
    (LIVE_BYTES.with(|c| c.get()), LIVE_BLOCKS.with(|c| c.get()))
}
pub fn calls() -> u64 {
    CALLS.with(|c| c.get())
}
/// Start measuring: the thread may hold at most `limit` more bytes than now.
pub fn arm(limit: i64) {
    let l = LIVE_BYTES.with(|c| c.get());
    BASE.with(|c| c.set(l));
    PEAK.with(|c| c.set(l));
    REFUSED.with(|c| c.set(0));
    LIMIT.with(|c| c.set(limit));
}
/// Stop measuring and return the highest additional amount held.
pub fn disarm() -> i64 {
    LIMIT.with(|c| c.set(i64::MAX));
    PEAK.with(|c| c.get()) - BASE.with(|c| c.get())
}

fn die(msg: &str, a: usize, b: usize) -> ! {
    crate::core::crash_report(msg, a as u64, b as u64)
}

fn account(delta: i64, blocks: i64) {
    LIVE_BYTES.with(|c| {
        let n = c.get() + delta;
        c.set(n);
        PEAK.with(|p| {
            if n > p.get() {
                p.set(n)
            }
        });
    });
    LIVE_BLOCKS.with(|c| c.set(c.get() + blocks));
}

fn over_limit(size: usize) -> bool {
    let lim = LIMIT.with(|c| c.get());
    if lim == i64::MAX {
        return false;
    }
    let used = LIVE_BYTES.with(|c| c.get()) - BASE.with(|c| c.get());
    if size as i64 > lim || used.saturating_add(size as i64) > lim {
        REFUSED.with(|c| c.set(size));
        return true;
    }
    false
}

unsafe fn head(p: *mut u8) -> *mut u64 {
    p.sub(16) as *mut u64
}

unsafe fn verify(p: *mut u8, layout: Layout) {
    let h = head(p);
    let magic = h.add(1).read_unaligned();
    if magic == DEAD {
        die("double free", p as usize, layout.size());
    }
    if magic != LIVE {
        die("corrupted block header or foreign pointer", p as usize, layout.size());
    }
    let size = h.read_unaligned() as usize;
    if size != layout.size() {
        die("block released with a size it was not obtained with", size, layout.size());
    }
    for i in 0..TAIL {
        if *p.add(size + i) != 0xA5 {
            die("write past the end of a block", size, i);
        }
    }
    let pad = front(layout.align());
    for i in 16..pad.min(64) {
        if *p.sub(i + 1) != 0x5A {
            die("write before the start of a block", size, i);
        }
    }
}

fn front(align: usize) -> usize {
    HEAD.max(align)
}

unsafe impl GlobalAlloc for Checking {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        CALLS.with(|c| c.set(c.get() + 1));
        if over_limit(layout.size()) {
            return std::ptr::null_mut();
        }
        let f = front(layout.align());
        let Some(total) = layout.size().checked_add(f + TAIL) else {
            return std::ptr::null_mut();
        };
        let Ok(l) = Layout::from_size_align(total, layout.align()) else {
            return std::ptr::null_mut();
        };
        let base = System.alloc(l);
        if base.is_null() {
            return base;
        }
        let p = base.add(f);
        base.write_bytes(0x5A, f);
        p.write_bytes(fresh(), layout.size());
        p.add(layout.size()).write_bytes(0xA5, TAIL);
        let h = head(p);
        h.write_unaligned(layout.size() as u64);
        h.add(1).write_unaligned(LIVE);
        account(layout.size() as i64, 1);
        p
    }

    unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
        verify(p, layout);
        let f = front(layout.align());
        head(p).add(1).write_unaligned(DEAD);
        p.write_bytes(0xDD, layout.size());
        account(-(layout.size() as i64), -1);
        System.dealloc(
            p.sub(f),
            Layout::from_size_align_unchecked(layout.size() + f + TAIL, layout.align()),
        );
    }

    unsafe fn realloc(&self, p: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        verify(p, layout);
        let nl = Layout::from_size_align_unchecked(new_size, layout.align());
        // Growing by a little goes through a real realloc-like path as well: copy, then free.
        let lim = LIMIT.with(|c| c.get());
        if lim != i64::MAX {
            let used = LIVE_BYTES.with(|c| c.get()) - BASE.with(|c| c.get());
            let extra = new_size as i64 - layout.size() as i64;
            if new_size as i64 > lim || used.saturating_add(extra) > lim {
                REFUSED.with(|c| c.set(new_size));
                return std::ptr::null_mut();
            }
        }
        if new_size >= 4096 && layout.size() >= 4096 {
            // Big blocks: keep the cost of many small growths linear.
            let f = front(layout.align());
            let ol = Layout::from_size_align_unchecked(layout.size() + f + TAIL, layout.align());
            let Some(total) = new_size.checked_add(f + TAIL) else {
                return std::ptr::null_mut();
            };
            let base = System.realloc(p.sub(f), ol, total);
            if base.is_null() {
                return base;
            }
            CALLS.with(|c| c.set(c.get() + 1));
            let q = base.add(f);
            if new_size > layout.size() {
                q.add(layout.size()).write_bytes(fresh(), new_size - layout.size());
            }
            q.add(new_size).write_bytes(0xA5, TAIL);
            head(q).write_unaligned(new_size as u64);
            account(new_size as i64 - layout.size() as i64, 0);
            return q;
        }
        let lim_saved = LIMIT.with(|c| c.replace(i64::MAX));
        let q = self.alloc(nl);
        LIMIT.with(|c| c.set(lim_saved));
        if !q.is_null() {
            q.copy_from_nonoverlapping(p, layout.size().min(new_size));
            self.dealloc(p, layout);
        }
        q
    }
}
