//! What a thread holds: live heap bytes, counted by the allocator (which also looks for writes beyond the end of
//! what it handed out), and how often its executor went to sleep.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::Duration;

use crate::rt::rounds;
use crate::runner::{violation, R};

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PARKS: Cell<u64> = const { Cell::new(0) };
    static OVERRUN: Cell<usize> = const { Cell::new(0) };
}
static ANY_OVERRUN: AtomicUsize = AtomicUsize::new(0);

pub struct Meter;

fn add(n: i64) {
    let _ = LIVE.try_with(|l| l.set(l.get() + n));
}

/// Behind every allocation lies a guard that is looked at when the memory is given back. AddressSanitizer has its own.
const GUARD: usize = if cfg!(asan) { 0 } else { 64 };
const MARK: u8 = 0xd3;

fn guarded(l: Layout) -> Layout {
    // SAFETY: the alignment is that of a valid layout; sizes near the limit do not occur
    unsafe { Layout::from_size_align_unchecked(l.size() + GUARD, l.align()) }
}
unsafe fn mark(p: *mut u8, size: usize) {
    if !p.is_null() {
        p.add(size).write_bytes(MARK, GUARD);
    }
}
unsafe fn inspect(p: *mut u8, size: usize) {
    let guard = std::slice::from_raw_parts(p.add(size), GUARD);
    if guard.iter().any(|b| *b != MARK) {
        let _ = OVERRUN.try_with(|o| o.set(size + 1));
        ANY_OVERRUN.store(size + 1, Ordering::Relaxed);
    }
}

/// The size of a block of memory that was written to beyond its end, on this thread, since this was last asked.
pub fn overrun() -> Option<usize> {
    OVERRUN.with(|o| o.replace(0)).checked_sub(1)
}
/// The same on any thread.
pub fn any_overrun() -> Option<usize> {
    ANY_OVERRUN.load(Ordering::Relaxed).checked_sub(1)
}

// SAFETY: forwards to the system allocator, with room for the guard
unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        let p = System.alloc(guarded(l));
        mark(p, l.size());
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        inspect(p, l.size());
        System.dealloc(p, guarded(l))
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        let p = System.alloc_zeroed(guarded(l));
        mark(p, l.size());
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as i64 - l.size() as i64);
        inspect(p, l.size());
        let q = System.realloc(p, guarded(l), n + GUARD);
        mark(q, n);
        q
    }
}

/// Heap bytes this thread has allocated and not freed (meaningful while everything of a case runs on one thread).
pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}

pub fn on_park() {
    PARKS.with(|p| p.set(p.get() + 1));
}
pub fn parks() -> u64 {
    PARKS.with(|p| p.get())
}

/// Nothing is left to do: the executor finds no runnable task and goes to sleep. `what` must not change any more.
pub async fn sleeps(what: impl Fn() -> String) -> R {
    for _ in 0..300 {
        rounds(10).await;
        let before = parks();
        tokio::time::sleep(Duration::from_millis(2)).await;
        if parks() > before {
            return Ok(());
        }
    }
    violation(format!("{}: with nothing left to do, its tasks keep asking to be polled", what()))
}

/// Bytes held after each repetition of the same traffic; Some(growth) if they look as if they grew with it.
pub fn growth(held: &[i64], calls_per_rep: usize) -> Option<i64> {
    let n = held.len();
    let early = *held[n / 8..n / 4].iter().max()?;
    let late = *held[n * 7 / 8..].iter().min()?;
    let calls = calls_per_rep.max(1) * n * 5 / 8;
    let g = late - early;
    (g > 512 && g > 6 * calls as i64).then_some(g)
}
