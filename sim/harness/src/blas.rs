//! Seam for the external BLAS/LAPACK library. Compute routines are trampolines: a hook sees every call (and may let
//! other simulated threads run), then the call continues in the real, single-threaded OpenBLAS. The thread-control
//! routines of OpenBLAS (both threading models), MKL, BLIS, AOCL and KML are simulated: they change a model of the
//! library's settings with the scope (process-wide or per thread) that the library gives them.
use crate::fw;
use std::collections::BTreeMap;
use std::ffi::{c_char, c_int, c_void};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Lib {
    /// OpenBLAS on its own threads: one process-wide number
    OpenBlasThread,
    /// OpenBLAS on OpenMP: a number per thread
    OpenBlasOmp,
    /// process-wide number, overridden by a number per thread
    Mkl,
    /// process-wide number
    Blis,
    /// number per thread
    Aocl,
    /// KBLAS: process-wide number, overridden per thread; other routines: process-wide number
    Kml,
}
/// settings of the simulated library
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Settings {
    pub global: i32,
    /// per thread; for MKL and KML 0 or nothing means no override
    pub local: BTreeMap<usize, i32>,
    pub service: i32,
}
pub struct State {
    pub lib: Lib,
    pub set: Settings,
    /// called for every compute call with the routine's name and the thread number in force
    pub on_compute: Option<fn(&str, i32)>,
    pub yields: bool,
    pub computes: u64,
    pub controls: u64,
}
static mut STATE: Option<State> = None;
static mut REAL: Vec<usize> = vec![];
static mut NAMES: Vec<&'static str> = vec![];
const SYMS: &str = include_str!("blas_syms.txt");
const PATHS: [&str; 3] = [
    "/usr/lib/x86_64-linux-gnu/openblas-openmp/libopenblas.so.0\0",
    "/usr/lib/x86_64-linux-gnu/libopenblas.so.0\0",
    "libopenblas.so.0\0",
];

extern "C" {
    fn dlopen(f: *const c_char, flags: c_int) -> *mut c_void;
    fn dlsym(h: *mut c_void, s: *const c_char) -> *mut c_void;
    fn setenv(n: *const c_char, v: *const c_char, o: c_int) -> c_int;
}

/// before the simulation starts: load the real library
pub fn load() {
    unsafe {
        if !REAL.is_empty() {
            return;
        }
        for v in ["OMP_NUM_THREADS\0", "OPENBLAS_NUM_THREADS\0", "GOTO_NUM_THREADS\0"] {
            setenv(v.as_ptr() as _, "1\0".as_ptr() as _, 1);
        }
        let mut h = std::ptr::null_mut();
        for p in PATHS {
            // RTLD_NOW | RTLD_LOCAL | RTLD_DEEPBIND
            h = dlopen(p.as_ptr() as _, 2 | 8);
            if !h.is_null() {
                break;
            }
        }
        assert!(!h.is_null(), "no OpenBLAS to run the compute routines");
        NAMES = SYMS.lines().collect();
        REAL = NAMES
            .iter()
            .map(|n| {
                let z = format!("{n}\0");
                dlsym(h, z.as_ptr() as _) as usize
            })
            .collect();
    }
}
pub fn start(lib: Lib, set: Settings) {
    unsafe { STATE = Some(State { lib, set, on_compute: None, yields: true, computes: 0, controls: 0 }) }
}
pub fn state() -> &'static mut State {
    unsafe {
        if STATE.is_none() {
            start(Lib::OpenBlasThread, Settings { global: 1, local: BTreeMap::new(), service: 1 });
        }
        STATE.as_mut().unwrap()
    }
}
pub fn reset() {
    unsafe { STATE = None }
}
fn me() -> usize {
    if simcore::active() { simcore::current_fiber() } else { usize::MAX }
}
impl State {
    fn own(&self) -> i32 {
        self.set.local.get(&me()).copied().unwrap_or(0)
    }
    /// threads a compute routine called now from this thread would use
    pub fn effective(&self, name: &str) -> i32 {
        match self.lib {
            Lib::OpenBlasThread | Lib::Blis => self.set.global,
            Lib::OpenBlasOmp | Lib::Aocl | Lib::Mkl => match self.own() {
                0 => self.set.global,
                v => v,
            },
            Lib::Kml => {
                let blas = match self.own() {
                    0 => self.set.global,
                    v => v,
                };
                if name.starts_with("cblas_") { blas } else { blas.max(self.set.service) }
            },
        }
    }
}

std::arch::global_asm!(include_str!("blas_stubs.s"));
std::arch::global_asm!(
    "rsim_blas_common:",
    "push rbp",
    "mov rbp, rsp",
    "push rdi",
    "push rsi",
    "push rdx",
    "push rcx",
    "push r8",
    "push r9",
    "push rax",
    "push r10",
    "sub rsp, 128",
    "movups [rsp], xmm0",
    "movups [rsp+16], xmm1",
    "movups [rsp+32], xmm2",
    "movups [rsp+48], xmm3",
    "movups [rsp+64], xmm4",
    "movups [rsp+80], xmm5",
    "movups [rsp+96], xmm6",
    "movups [rsp+112], xmm7",
    "mov edi, r11d",
    "call {hook}",
    "mov r11, rax",
    "movups xmm0, [rsp]",
    "movups xmm1, [rsp+16]",
    "movups xmm2, [rsp+32]",
    "movups xmm3, [rsp+48]",
    "movups xmm4, [rsp+64]",
    "movups xmm5, [rsp+80]",
    "movups xmm6, [rsp+96]",
    "movups xmm7, [rsp+112]",
    "add rsp, 128",
    "pop r10",
    "pop rax",
    "pop r9",
    "pop r8",
    "pop rcx",
    "pop rdx",
    "pop rsi",
    "pop rdi",
    "pop rbp",
    "jmp r11",
    hook = sym hook,
);

extern "C" fn hook(id: u32) -> usize {
    unsafe {
        let p = REAL[id as usize];
        if p == 0 {
            eprintln!("no real routine {}", NAMES[id as usize]);
            std::process::abort();
        }
        let s = state();
        s.computes += 1;
        if s.yields && simcore::active() {
            simcore::yield_strong();
        }
        let s = state();
        if let Some(f) = s.on_compute {
            f(NAMES[id as usize], s.effective(NAMES[id as usize]));
        }
        p
    }
}

/// a thread-control call: other threads may run before and after it
fn control<R>(f: impl FnOnce(&mut State) -> R) -> R {
    let y = state().yields && simcore::active();
    if y {
        simcore::yield_point();
    }
    let s = state();
    s.controls += 1;
    let r = simcore::quiet(|| f(s));
    if y {
        simcore::yield_point();
    }
    r
}
fn own_or_global(s: &mut State) -> c_int {
    match s.own() {
        0 => s.set.global,
        v => v,
    }
}
fn set_own(s: &mut State, n: c_int) {
    if n > 0 {
        s.set.local.insert(me(), n);
    } else {
        s.set.local.remove(&me());
    }
}

#[no_mangle]
extern "C" fn openblas_set_num_threads(n: c_int) {
    control(|s| match s.lib {
        Lib::OpenBlasOmp => set_own(s, n.max(1)),
        _ => s.set.global = n.max(1),
    })
}
#[no_mangle]
extern "C" fn openblas_set_num_threads_local(n: c_int) -> c_int {
    control(|s| {
        let old = own_or_global(s);
        match s.lib {
            Lib::OpenBlasOmp => set_own(s, n.max(1)),
            _ => s.set.global = n.max(1),
        }
        old
    })
}
#[no_mangle]
extern "C" fn openblas_get_num_threads() -> c_int {
    control(own_or_global)
}
#[no_mangle]
extern "C" fn openblas_get_parallel() -> c_int {
    match state().lib {
        Lib::OpenBlasOmp => 2,
        _ => 1,
    }
}
#[no_mangle]
extern "C" fn omp_set_num_threads(n: c_int) {
    control(|s| set_own(s, n.max(1)))
}
#[no_mangle]
extern "C" fn omp_get_max_threads() -> c_int {
    control(own_or_global)
}
#[no_mangle]
extern "C" fn MKL_Set_Num_Threads_Local(n: c_int) -> c_int {
    control(|s| {
        let old = s.own();
        set_own(s, n);
        old
    })
}
#[no_mangle]
extern "C" fn MKL_Set_Num_Threads(n: c_int) {
    control(|s| s.set.global = n.max(1))
}
#[no_mangle]
extern "C" fn MKL_Get_Max_Threads() -> c_int {
    control(own_or_global)
}
#[no_mangle]
extern "C" fn bli_thread_set_num_threads(n: i64) {
    control(|s| match s.lib {
        Lib::Aocl => set_own(s, (n as c_int).max(1)),
        _ => s.set.global = (n as c_int).max(1),
    })
}
#[no_mangle]
extern "C" fn bli_thread_get_num_threads() -> i64 {
    control(own_or_global) as i64
}
#[no_mangle]
extern "C" fn BlasSetNumThreads(n: c_int) {
    control(|s| s.set.global = n.max(1))
}
#[no_mangle]
extern "C" fn BlasSetNumThreadsLocal(n: c_int) {
    control(|s| set_own(s, n))
}
#[no_mangle]
extern "C" fn BlasGetNumThreads() -> c_int {
    control(|s| s.set.global)
}
#[no_mangle]
extern "C" fn BlasGetNumThreadsLocal() -> c_int {
    control(|s| s.own())
}
#[no_mangle]
extern "C" fn KmlSetNumThreads(n: c_int) {
    control(|s| s.set.service = n.max(1))
}
#[no_mangle]
extern "C" fn KmlGetMaxThreads() -> c_int {
    control(|s| s.set.service)
}
/// OpenBLAS's threading model is asked for once per process: drawn per worker process, recorded in the trace
pub fn parity() -> bool {
    fw::parity() == 1
}
/// one of the libraries
pub fn pick_lib(w: &[u32; 5]) -> Lib {
    // always drawn, so that the streams of all libraries look alike
    let omp = parity();
    match fw::weighted(w) {
        0 => {
            if omp {
                Lib::OpenBlasOmp
            } else {
                Lib::OpenBlasThread
            }
        },
        1 => Lib::Mkl,
        2 => Lib::Blis,
        3 => Lib::Aocl,
        _ => Lib::Kml,
    }
}
