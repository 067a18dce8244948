//! std counts the panics in flight per OS thread. Fibers share one OS thread, so the count is swapped with the fiber.
//! Its address is found by experiment: the word of this thread's static TLS block that follows the nesting of panics.
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

static mut WORD: *mut usize = std::ptr::null_mut();

#[repr(C)]
struct Phdr {
    kind: u32,
    flags: u32,
    offset: u64,
    vaddr: u64,
    paddr: u64,
    filesz: u64,
    memsz: u64,
    align: u64,
}
extern "C" {
    static __ehdr_start: u8;
}
unsafe fn tls() -> (*mut usize, usize) {
    let e = &raw const __ehdr_start;
    let phoff = *(e.add(32) as *const u64) as usize;
    let n = *(e.add(56) as *const u16) as usize;
    let tp: usize;
    std::arch::asm!("mov {}, fs:[0]", out(reg) tp);
    for i in 0..n {
        let p = &*(e.add(phoff) as *const Phdr).add(i);
        if p.kind == 7 {
            let a = (p.align as usize).max(8);
            let size = (p.memsz as usize + a - 1) & !(a - 1);
            return ((tp - size) as *mut usize, size / 8);
        }
    }
    (std::ptr::null_mut(), 0)
}
struct Probe<'a>(&'a mut Vec<usize>, Option<&'a mut Vec<usize>>);
fn snap(v: &mut Vec<usize>) {
    unsafe {
        let (p, n) = tls();
        v.clear();
        for i in 0..n {
            v.push(std::ptr::read_volatile(p.add(i)));
        }
    }
}
impl Drop for Probe<'_> {
    fn drop(&mut self) {
        snap(self.0);
        if let Some(v) = self.1.take() {
            let _ = catch_unwind(AssertUnwindSafe(|| {
                let _p = Probe(v, None);
                resume_unwind(Box::new(()))
            }));
        }
    }
}
/// before the first run
pub fn find() {
    unsafe {
        let n = tls().1 + 8;
        let mk = || Vec::with_capacity(n);
        let (mut s0, mut s1, mut s2, mut s3): (Vec<usize>, Vec<usize>, Vec<usize>, Vec<usize>) = (mk(), mk(), mk(), mk());
        snap(&mut s0);
        let _ = catch_unwind(AssertUnwindSafe(|| {
            let _p = Probe(&mut s1, Some(&mut s2));
            resume_unwind(Box::new(()))
        }));
        snap(&mut s3);
        let c: Vec<usize> = (0..s0.len()).filter(|&i| s0[i] == 0 && s1[i] == 1 && s2[i] == 2 && s3[i] == 0).collect();
        if c.len() == 1 {
            WORD = tls().0.add(c[0]);
        }
    }
}
pub fn found() -> bool {
    unsafe { !WORD.is_null() }
}
/// leave the current fiber: its count, and none for whoever comes next
#[inline]
pub fn take() -> usize {
    unsafe {
        if WORD.is_null() {
            return 0;
        }
        let v = *WORD;
        *WORD = 0;
        v
    }
}
/// back in a fiber
#[inline]
pub fn put(v: usize) {
    unsafe {
        if !WORD.is_null() {
            *WORD = v;
        }
    }
}
/// this thread is unwinding, and its fiber must not be left
#[inline]
pub fn stuck() -> bool {
    std::thread::panicking() && !found()
}
