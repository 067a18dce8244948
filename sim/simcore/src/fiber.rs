//! Stackful fibers, x86_64 SysV.
use std::arch::naked_asm;

pub const STACK: usize = 8 << 20;

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(addr: *mut u8, len: usize, prot: i32) -> i32;
}

static mut FREE: Vec<*mut u8> = Vec::new();

pub fn stack_get() -> *mut u8 {
    unsafe {
        if let Some(p) = FREE.pop() {
            return p;
        }
        // PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE
        let p = mmap(std::ptr::null_mut(), STACK, 3, 0x2 | 0x20 | 0x4000, -1, 0);
        assert!(p as isize != -1, "mmap of fiber stack failed");
        mprotect(p, 16384, 0);
        p
    }
}
pub fn stack_put(p: *mut u8) {
    unsafe { FREE.push(p) }
}

/// save callee-saved state on the current stack, store sp in *from, load sp from to
#[unsafe(naked)]
pub unsafe extern "C" fn switch(from: *mut *mut u8, to: *mut u8) {
    naked_asm!(
        "push rbp",
        "push rbx",
        "push r12",
        "push r13",
        "push r14",
        "push r15",
        "sub rsp, 8",
        "stmxcsr [rsp]",
        "fnstcw [rsp+4]",
        "mov [rdi], rsp",
        "mov rsp, rsi",
        "ldmxcsr [rsp]",
        "fldcw [rsp+4]",
        "add rsp, 8",
        "pop r15",
        "pop r14",
        "pop r13",
        "pop r12",
        "pop rbx",
        "pop rbp",
        "ret",
    )
}

#[unsafe(naked)]
unsafe extern "C" fn trampoline() {
    // r12 = argument, r13 = entry
    naked_asm!("mov rdi, r12", "xor ebp, ebp", "call r13", "ud2")
}

/// prepare a fresh stack so that switching to the returned sp calls entry(arg)
pub unsafe fn prepare(stack: *mut u8, entry: unsafe extern "C" fn(usize) -> !, arg: usize) -> *mut u8 {
    let top = stack.add(STACK) as usize & !63;
    let mut sp = top - 64; // keep some zeroed space above
    let mut push = |v: u64| {
        sp -= 8;
        *(sp as *mut u64) = v;
    };
    push(trampoline as *const () as u64); // after `ret`, rsp is 16-aligned for the call
    push(0); // rbp
    push(0); // rbx
    push(arg as u64); // r12
    push(entry as u64); // r13
    push(0); // r14
    push(0); // r15
    push(0x037F_0000_1F80); // mxcsr | fcw
    sp as *mut u8
}
