//! Seam for std's blocking primitives: std's Mutex/Condvar/Once/park end in `syscall(SYS_futex, ..)`. This symbol
//! overrides libc's in the harness binary, so that a contended lock blocks the simulated thread, not the process.
use crate::sched;

static mut FUTEX_WAITS: u64 = 0;
pub fn futex_waits() -> u64 {
    unsafe { FUTEX_WAITS }
}

extern "C" {
    fn __errno_location() -> *mut i32;
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a1: i64, a2: i64, a3: i64, a4: i64, a5: i64, a6: i64) -> i64 {
    if n == 202 && sched::active() {
        let op = (a2 & 127) as i32;
        if op == 0 || op == 9 {
            if *(a1 as *const u32) != a3 as u32 {
                *__errno_location() = 11;
                return -1;
            }
            FUTEX_WAITS += 1;
            sched::wait_on(a1 as usize);
            crate::race::futex_woke(a1 as usize);
            return 0;
        }
        if op == 1 || op == 10 {
            crate::race::futex_wake(a1 as usize);
            return sched::wake(a1 as usize, a3 as i32 as usize) as i64;
        }
    }
    let ret: i64;
    std::arch::asm!("syscall", inlateout("rax") n => ret, in("rdi") a1, in("rsi") a2, in("rdx") a3, in("r10") a4,
        in("r8") a5, in("r9") a6, lateout("rcx") _, lateout("r11") _, options(nostack));
    if ret < 0 && ret > -4096 {
        *__errno_location() = -ret as i32;
        return -1;
    }
    ret
}
