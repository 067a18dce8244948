//! Global allocator of the harness: poisons fresh and freed memory with a seeded pattern, accounts for live memory,
//! and fails planned requests.
use crate::{race, sched};
use std::alloc::{GlobalAlloc, Layout, System};

pub struct SimAlloc;

static mut ON: bool = false; // poisoning/accounting enabled
static mut QUIET: u32 = 0;
static mut POISON: u64 = 0xA5A5_A5A5_A5A5_A5A5;
static mut MIN_FAIL: usize = 0;
static mut LIVE: i64 = 0;
static mut COUNT: u64 = 0;
static mut FAILED_LAST: usize = 0;
static mut BIG_LIVE: i64 = 0;
static mut REQUESTED: i64 = 0;

pub fn quiet() {
    unsafe { QUIET += 1 }
}
pub fn unquiet() {
    unsafe { QUIET -= 1 }
}
#[inline(always)]
pub fn is_quiet() -> bool {
    unsafe { QUIET != 0 }
}
pub fn enable(poison: u64, min_fail: usize) {
    unsafe {
        ON = true;
        POISON = poison;
        MIN_FAIL = min_fail;
        QUIET = 0;
        LIVE = 0;
        COUNT = 0;
        BIG_LIVE = 0;
        REQUESTED = 0;
    }
}
pub fn disable() {
    unsafe { ON = false }
}
pub fn live() -> i64 {
    unsafe { LIVE }
}
/// live bytes in blocks of at least the failure threshold size
pub fn big_live() -> i64 {
    unsafe { BIG_LIVE }
}
/// bytes handed out since the start of the run
pub fn requested() -> i64 {
    unsafe { REQUESTED }
}
pub fn count() -> u64 {
    unsafe { COUNT }
}
pub fn failed_last() -> usize {
    unsafe { FAILED_LAST }
}

unsafe fn fill(p: *mut u8, n: usize) {
    let mut i = 0;
    let w = POISON;
    while i + 8 <= n {
        (p.add(i) as *mut u64).write_unaligned(w);
        i += 8;
    }
    while i < n {
        *p.add(i) = (w >> ((i & 7) * 8)) as u8;
        i += 1;
    }
}

#[inline(always)]
unsafe fn instrumented() -> bool {
    ON && QUIET == 0 && sched::active()
}

/// returns true if this request must fail
unsafe fn on_request(size: usize) -> bool {
    COUNT += 1;
    if size >= MIN_FAIL && !std::thread::panicking() {
        if sched::sim().cfg.alloc_yield {
            sched::yield_point();
        }
        if sched::fault(sched::F_ALLOC) {
            FAILED_LAST = size;
            return true;
        }
    }
    false
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if instrumented() {
            if on_request(l.size()) {
                return std::ptr::null_mut();
            }
            let p = System.alloc(l);
            if !p.is_null() {
                LIVE += l.size() as i64;
                REQUESTED += l.size() as i64;
                if l.size() >= MIN_FAIL {
                    BIG_LIVE += l.size() as i64;
                }
                fill(p, l.size());
                race::on_alloc(p as usize, l.size(), true);
            }
            return p;
        }
        let p = System.alloc(l);
        race::on_alloc(p as usize, l.size(), false);
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if instrumented() {
            if on_request(l.size()) {
                return std::ptr::null_mut();
            }
            LIVE += l.size() as i64;
            REQUESTED += l.size() as i64;
            if l.size() >= MIN_FAIL {
                BIG_LIVE += l.size() as i64;
            }
            let p = System.alloc_zeroed(l);
            race::on_alloc(p as usize, l.size(), !p.is_null());
            return p;
        }
        let p = System.alloc_zeroed(l);
        race::on_alloc(p as usize, l.size(), false);
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        race::on_free(p as usize, l.size());
        if ON && QUIET == 0 && sched::active() {
            LIVE -= l.size() as i64;
            if l.size() >= MIN_FAIL {
                BIG_LIVE -= l.size() as i64;
            }
            let keep = POISON;
            POISON = !POISON;
            fill(p, l.size());
            POISON = keep;
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if instrumented() {
            if on_request(new) {
                return std::ptr::null_mut();
            }
            race::access(p as usize, l.size(), true, "release");
            let q = System.realloc(p, l, new);
            if !q.is_null() {
                if q != p {
                    race::on_alloc(p as usize, l.size(), false);
                }
                race::on_alloc(q as usize, new, true);
                LIVE += new as i64 - l.size() as i64;
                REQUESTED += (new as i64 - l.size() as i64).max(0);
                if new > l.size() {
                    fill(q.add(l.size()), new - l.size());
                }
            }
            return q;
        }
        let q = System.realloc(p, l, new);
        race::on_alloc(q as usize, new, false);
        q
    }
}

pub fn install_oom_hook() {
    std::alloc::set_alloc_error_hook(|l| {
        if sched::active() {
            std::panic::panic_any(OomPanic(l.size()));
        }
    });
}

/// panic payload used when an infallible allocation fails (real programs abort here)
pub struct OomPanic(pub usize);
