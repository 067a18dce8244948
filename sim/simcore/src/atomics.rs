//! Seam for atomic operations. The crates under test are compiled with LLVM's "tsan" pass, which turns each atomic
//! operation (also those inside std's Arc, Mutex, Once.. compiled into these crates) into a call of one of the functions
//! below. Each is a point at which the simulated thread may be preempted, then the operation itself. Simulated threads
//! take turns on one OS thread: orderings weaker than sequential consistency are not simulated.
use crate::race;
use crate::sched::yield_atomic;
use core::sync::atomic::{AtomicU16, AtomicU32, AtomicU64, AtomicU8, Ordering::SeqCst};

macro_rules! rmw {
    ($name:ident, $t:ty, $at:ty, $m:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name(p: *mut $t, v: $t, order: i32) -> $t {
            yield_atomic();
            let old = <$at>::from_ptr(p).$m(v, SeqCst);
            race::atomic(p as usize, race::LOAD | race::STORE, order, old as u64, *p as u64);
            old
        }
    };
}
macro_rules! width {
    ($t:ty, $at:ty, $load:ident, $store:ident, $cas:ident, $xchg:ident, $add:ident, $sub:ident, $and:ident, $or:ident, $xor:ident, $nand:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $load(p: *mut $t, order: i32) -> $t {
            yield_atomic();
            let old = <$at>::from_ptr(p).load(SeqCst);
            race::atomic(p as usize, race::LOAD, order, old as u64, old as u64);
            old
        }
        #[no_mangle]
        pub unsafe extern "C" fn $store(p: *mut $t, v: $t, order: i32) {
            yield_atomic();
            <$at>::from_ptr(p).store(v, SeqCst);
            race::atomic(p as usize, race::STORE, order, 0, v as u64);
        }
        #[no_mangle]
        pub unsafe extern "C" fn $cas(p: *mut $t, expected: $t, v: $t, order: i32, failure: i32) -> $t {
            yield_atomic();
            match <$at>::from_ptr(p).compare_exchange(expected, v, SeqCst, SeqCst) {
                Ok(old) => {
                    race::atomic(p as usize, race::LOAD | race::STORE, order, old as u64, v as u64);
                    old
                },
                Err(old) => {
                    race::atomic(p as usize, race::LOAD, failure, old as u64, old as u64);
                    old
                },
            }
        }
        rmw!($xchg, $t, $at, swap);
        rmw!($add, $t, $at, fetch_add);
        rmw!($sub, $t, $at, fetch_sub);
        rmw!($and, $t, $at, fetch_and);
        rmw!($or, $t, $at, fetch_or);
        rmw!($xor, $t, $at, fetch_xor);
        rmw!($nand, $t, $at, fetch_nand);
    };
}
width!(
    u8,
    AtomicU8,
    __tsan_atomic8_load,
    __tsan_atomic8_store,
    __tsan_atomic8_compare_exchange_val,
    __tsan_atomic8_exchange,
    __tsan_atomic8_fetch_add,
    __tsan_atomic8_fetch_sub,
    __tsan_atomic8_fetch_and,
    __tsan_atomic8_fetch_or,
    __tsan_atomic8_fetch_xor,
    __tsan_atomic8_fetch_nand
);
width!(
    u16,
    AtomicU16,
    __tsan_atomic16_load,
    __tsan_atomic16_store,
    __tsan_atomic16_compare_exchange_val,
    __tsan_atomic16_exchange,
    __tsan_atomic16_fetch_add,
    __tsan_atomic16_fetch_sub,
    __tsan_atomic16_fetch_and,
    __tsan_atomic16_fetch_or,
    __tsan_atomic16_fetch_xor,
    __tsan_atomic16_fetch_nand
);
width!(
    u32,
    AtomicU32,
    __tsan_atomic32_load,
    __tsan_atomic32_store,
    __tsan_atomic32_compare_exchange_val,
    __tsan_atomic32_exchange,
    __tsan_atomic32_fetch_add,
    __tsan_atomic32_fetch_sub,
    __tsan_atomic32_fetch_and,
    __tsan_atomic32_fetch_or,
    __tsan_atomic32_fetch_xor,
    __tsan_atomic32_fetch_nand
);
width!(
    u64,
    AtomicU64,
    __tsan_atomic64_load,
    __tsan_atomic64_store,
    __tsan_atomic64_compare_exchange_val,
    __tsan_atomic64_exchange,
    __tsan_atomic64_fetch_add,
    __tsan_atomic64_fetch_sub,
    __tsan_atomic64_fetch_and,
    __tsan_atomic64_fetch_or,
    __tsan_atomic64_fetch_xor,
    __tsan_atomic64_fetch_nand
);
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic_thread_fence(order: i32) {
    yield_atomic();
    race::fence(order);
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic_signal_fence(_order: i32) {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_init() {}
