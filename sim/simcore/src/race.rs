//! Happens-before race detector. The crates under test are compiled with LLVM's thread-sanitizer instrumentation, but
//! its run-time library is not linked: every plain memory access ends here instead. Accesses to heap blocks allocated
//! during the run are checked against vector clocks. A clock belongs to a *task*: each job of the simulated pool is one,
//! even if the thread that pushed it also runs it, because another worker could have stolen it. Two accesses race if
//! they overlap, one writes, and no fork, join, atomic operation or blocking primitive orders them: then some schedule
//! runs them at the same time.
//!
//! Not followed: stacks and statics, code that is not compiled from source here (std's non-generic functions, BLAS
//! stand-ins, precompiled dependencies), blocks allocated by harness bookkeeping. All of these can only hide races.
use crate::sched;
use std::collections::HashMap;

pub const NT: usize = 256;
type Vc = [u32; NT];
#[derive(Clone, Copy, PartialEq)]
pub struct Tok(usize);
pub const NO_TOK: Tok = Tok(usize::MAX);

struct Task {
    vc: Box<Vc>,
    acq: Box<Vc>,
    rel: Option<Box<Vc>>,
    live: bool,
}
struct Sync {
    val: u64,
    vc: Box<Vc>,
}
struct Race {
    tasks: Vec<Task>,
    free: std::collections::VecDeque<usize>,
    toks: Vec<Vc>,
    free_toks: Vec<usize>,
    syncs: HashMap<usize, Sync, std::hash::BuildHasherDefault<std::collections::hash_map::DefaultHasher>>,
    found: bool,
    evict: usize,
}
static mut ON: bool = false;
static mut RACE: Option<Race> = None;
static mut CHECKED: u64 = 0;
static mut TASKS: u64 = 0;

/// granules checked and tasks followed in this run
pub fn checked() -> [u64; 2] {
    unsafe { [CHECKED, TASKS] }
}
#[inline(always)]
pub fn on() -> bool {
    unsafe { ON }
}

// ---------------------------------------------------------------- shadow memory: 4 words per 8 bytes
const LEAF_BITS: usize = 24;
const LEAF_BYTES: usize = (1 << LEAF_BITS) / 8 * 32;
static mut TOP: *mut *mut u64 = std::ptr::null_mut();
extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn madvise(a: *mut u8, n: usize, advice: i32) -> i32;
}
unsafe fn reserve(n: usize) -> *mut u8 {
    // PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE
    let p = mmap(std::ptr::null_mut(), n, 3, 0x2 | 0x20 | 0x4000, -1, 0);
    assert!(p as isize != -1, "no room for shadow memory");
    p
}
static mut LEAVES: Vec<usize> = Vec::new();
#[inline(always)]
unsafe fn leaf(addr: usize) -> *mut u64 {
    if addr >> 47 != 0 {
        return std::ptr::null_mut();
    }
    *TOP.add(addr >> LEAF_BITS)
}
unsafe fn leaf_make(addr: usize) -> *mut u64 {
    let l = leaf(addr);
    if !l.is_null() {
        return l;
    }
    let p = reserve(LEAF_BYTES) as *mut u64;
    *TOP.add(addr >> LEAF_BITS) = p;
    crate::alloc::quiet();
    LEAVES.push(p as usize);
    crate::alloc::unquiet();
    p
}
#[inline(always)]
unsafe fn cell(l: *mut u64, addr: usize) -> *mut u64 {
    l.add(((addr & ((1 << LEAF_BITS) - 1)) >> 3) * 4)
}

fn slot(tid: usize, epoch: u32, mask: u8, write: bool) -> u64 {
    mask as u64 | (write as u64) << 8 | (tid as u64) << 16 | (epoch as u64) << 32
}

// ---------------------------------------------------------------- life of a run
pub fn enable() {
    unsafe {
        if TOP.is_null() {
            TOP = reserve((1usize << (47 - LEAF_BITS)) * 8) as *mut *mut u64;
        }
        for &l in LEAVES.iter() {
            madvise(l as *mut u8, LEAF_BYTES, 4);
        }
        let mut r = Race {
            tasks: Vec::new(),
            free: (1..NT).collect(),
            toks: Vec::new(),
            free_toks: Vec::new(),
            syncs: HashMap::default(),
            found: false,
            evict: 0,
        };
        for i in 0..NT {
            let mut vc = Box::new([0; NT]);
            vc[i] = 1;
            r.tasks.push(Task { vc, acq: Box::new([0; NT]), rel: None, live: i == 0 });
        }
        UNTRACKED = 0;
        CHECKED = 0;
        TASKS = 0;
        RACE = Some(r);
        ON = true;
    }
}
pub fn disable() {
    unsafe {
        ON = false;
        RACE = None;
    }
}
#[inline(always)]
fn st() -> &'static mut Race {
    unsafe { RACE.as_mut().unwrap() }
}
#[inline(always)]
fn cur() -> usize {
    sched::current_task()
}
fn join_into(a: &mut Vc, b: &Vc) {
    for i in 0..NT {
        if b[i] > a[i] {
            a[i] = b[i];
        }
    }
}
struct Q;
fn hush() -> Q {
    crate::alloc::quiet();
    Q
}
impl Drop for Q {
    fn drop(&mut self) {
        crate::alloc::unquiet();
    }
}

// ---------------------------------------------------------------- tasks
/// what the current task has done so far happens before whoever starts from or joins this token
pub fn fork() -> Tok {
    if !on() || !sched::active() {
        return NO_TOK;
    }
    let _q = hush();
    let r = st();
    let c = cur();
    let v = *r.tasks[c].vc;
    r.tasks[c].vc[c] += 1;
    match r.free_toks.pop() {
        Some(i) => {
            r.toks[i] = v;
            Tok(i)
        },
        None => {
            r.toks.push(v);
            Tok(r.toks.len() - 1)
        },
    }
}
/// the calling fiber goes on as a new task, ordered after the token
pub fn start(t: Tok) -> usize {
    let prev = sched::current_task();
    if !on() || t == NO_TOK {
        return prev;
    }
    let _q = hush();
    let r = st();
    unsafe { TASKS += 1 };
    let Some(id) = r.free.pop_front() else {
        // out of clocks: run as part of the current task
        let v = r.toks[t.0];
        join_into(&mut r.tasks[prev].vc, &v);
        return prev;
    };
    let own = r.tasks[id].vc[id] + 1;
    *r.tasks[id].vc = r.toks[t.0];
    r.tasks[id].vc[id] = own;
    *r.tasks[id].acq = [0; NT];
    r.tasks[id].rel = None;
    r.tasks[id].live = true;
    r.free_toks.push(t.0);
    sched::set_current_task(id);
    prev
}
/// the task ends; the token stands for all it did
pub fn finish(prev: usize) -> Tok {
    if !on() {
        return NO_TOK;
    }
    let t = fork();
    let c = sched::current_task();
    if c != prev {
        let _q = hush();
        let r = st();
        r.tasks[c].live = false;
        r.free.push_back(c);
        sched::set_current_task(prev);
    }
    t
}
/// run `f` as a task of its own; returns the token to join
pub fn task<R>(t: Tok, f: impl FnOnce() -> R) -> (R, Tok) {
    struct G(usize);
    impl Drop for G {
        fn drop(&mut self) {
            let t = finish(self.0);
            unsafe { LAST = t };
        }
    }
    static mut LAST: Tok = NO_TOK;
    let g = G(start(t));
    let r = f();
    drop(g);
    (r, unsafe { LAST })
}
/// `f` is a task of its own whose end the caller awaits at once, even if it panics
pub fn inline<R>(t: Tok, f: impl FnOnce() -> R) -> R {
    struct G(usize);
    impl Drop for G {
        fn drop(&mut self) {
            join(finish(self.0));
        }
    }
    let _g = G(start(t));
    f()
}
pub fn join(t: Tok) {
    if !on() || t == NO_TOK || !sched::active() {
        return;
    }
    let _q = hush();
    let r = st();
    let v = r.toks[t.0];
    join_into(&mut r.tasks[cur()].vc, &v);
    r.free_toks.push(t.0);
}
pub fn copy(t: Tok) -> Tok {
    if t == NO_TOK || !on() {
        return t;
    }
    let _q = hush();
    let r = st();
    let v = r.toks[t.0];
    r.toks.push(v);
    Tok(r.toks.len() - 1)
}
static mut UNTRACKED: u32 = 0;
/// blocks allocated by `f` (the simulator's own bookkeeping) are not followed
pub fn untracked<R>(f: impl FnOnce() -> R) -> R {
    unsafe { UNTRACKED += 1 };
    let r = f();
    unsafe { UNTRACKED -= 1 };
    r
}
/// add the token `b` to `a` (several tasks joined at one place)
pub fn merge(a: Tok, b: Tok) -> Tok {
    if a == NO_TOK || !on() {
        return b;
    }
    if b == NO_TOK {
        return a;
    }
    let _q = hush();
    let r = st();
    let v = r.toks[b.0];
    join_into(&mut r.toks[a.0], &v);
    r.free_toks.push(b.0);
    a
}

// ---------------------------------------------------------------- atomics
fn join_all(r: &mut Race, c: usize) {
    // synchronisation that happened in code which is not followed: assume that it ordered everything
    let mut v = *r.tasks[c].vc;
    for t in r.tasks.iter() {
        join_into(&mut v, &t.vc);
    }
    *r.tasks[c].vc = v;
    for t in 0..NT {
        if t != c && r.tasks[t].live {
            r.tasks[t].vc[t] += 1;
        }
    }
}
pub const LOAD: u8 = 1;
pub const STORE: u8 = 2;
/// `old`: value before the operation, `new`: after it
pub fn atomic(addr: usize, kind: u8, order: i32, old: u64, new: u64) {
    if !on() || !sched::active() || crate::alloc::is_quiet() {
        return;
    }
    let _q = hush();
    let r = st();
    let c = cur();
    let acquire = matches!(order, 1 | 2 | 4 | 5);
    let release = matches!(order, 3 | 4 | 5);
    if kind & LOAD != 0 {
        match r.syncs.get(&addr) {
            Some(s) if s.val == old => {
                if acquire {
                    join_into(&mut r.tasks[c].vc, &s.vc);
                } else {
                    join_into(&mut r.tasks[c].acq, &s.vc);
                }
            },
            _ => {
                if acquire {
                    join_all(r, c);
                }
            },
        }
    }
    if kind & STORE != 0 {
        let v: Option<Vc> = if release { Some(*r.tasks[c].vc) } else { r.tasks[c].rel.as_ref().map(|b| **b) };
        let e = r.syncs.entry(addr).or_insert_with(|| Sync { val: new, vc: Box::new([0; NT]) });
        e.val = new;
        if let Some(v) = v {
            join_into(&mut e.vc, &v);
            if release {
                r.tasks[c].vc[c] += 1;
            }
        }
    }
}
pub fn fence(order: i32) {
    if !on() || !sched::active() || crate::alloc::is_quiet() {
        return;
    }
    let _q = hush();
    let r = st();
    let c = cur();
    if matches!(order, 1 | 2 | 4 | 5) {
        let v = *r.tasks[c].acq;
        join_into(&mut r.tasks[c].vc, &v);
    }
    if matches!(order, 3 | 4 | 5) {
        r.tasks[c].rel = Some(Box::new(*r.tasks[c].vc));
        r.tasks[c].vc[c] += 1;
    }
}
pub fn futex_woke(addr: usize) {
    if on() && sched::active() {
        let _q = hush();
        let r = st();
        let c = cur();
        if let Some(s) = r.syncs.get(&addr) {
            join_into(&mut r.tasks[c].vc, &s.vc);
        }
    }
}
pub fn futex_wake(addr: usize) {
    if on() && sched::active() {
        let _q = hush();
        let r = st();
        let c = cur();
        let v = *r.tasks[c].vc;
        let val = unsafe { *(addr as *const u32) } as u64;
        let e = r.syncs.entry(addr).or_insert_with(|| Sync { val, vc: Box::new([0; NT]) });
        join_into(&mut e.vc, &v);
        r.tasks[c].vc[c] += 1;
    }
}

// ---------------------------------------------------------------- memory
#[cold]
#[inline(never)]
fn report(what: &str, write: bool, s: u64) {
    let r = st();
    if r.found {
        return;
    }
    r.found = true;
    let _q = hush();
    let earlier = if s >> 8 & 1 == 1 { "write" } else { "read" };
    if std::env::var_os("RSIM_BT").is_some() {
        eprintln!("{}", std::backtrace::Backtrace::force_capture());
    }
    let now = if write { "write" } else { "read" };
    let how = if what.is_empty() { now.to_string() } else { format!("{what} (a {now})") };
    let msg = format!("{how} of memory that another task accessed ({earlier}) with nothing that orders the two");
    match unsafe { REPORT } {
        Some(f) => f(msg),
        None => sched::violation(msg),
    }
}
static mut REPORT: Option<fn(String)> = None;
pub fn set_report(f: fn(String)) {
    unsafe { REPORT = Some(f) }
}
#[inline(always)]
unsafe fn granule(c: *mut u64, m: u8, write: bool, tid: usize, vc: &Vc, what: &str) {
    let mine = slot(tid, vc[tid], m, write);
    let mut put = 4;
    let mut any = false;
    for k in 0..4 {
        let s = *c.add(k);
        if s == 0 {
            if put == 4 {
                put = k;
            }
            continue;
        }
        any = true;
        if s == mine {
            return;
        }
        let sm = s as u8;
        if sm & m == 0 {
            continue;
        }
        let sw = s >> 8 & 1 == 1;
        let st_ = (s >> 16) as usize & 0xff;
        let ordered = st_ == tid || (s >> 32) as u32 <= vc[st_];
        if !ordered && (sw || write) {
            report(what, write, s);
        }
        // covered by this access: everything that races with it also races with this one
        if ordered && sm & !m == 0 && (write || !sw) {
            *c.add(k) = 0;
            if put == 4 {
                put = k;
            }
        }
    }
    if !any {
        return; // not tracked
    }
    if put == 4 {
        let r = st();
        r.evict = (r.evict + 1) & 3;
        put = r.evict;
    }
    *c.add(put) = mine;
}
#[inline(always)]
pub unsafe fn access(addr: usize, n: usize, write: bool, what: &str) {
    if !ON || n == 0 || crate::alloc::is_quiet() || !sched::active() || crate::unwind::stuck() {
        return;
    }
    access_slow(addr, n, write, what)
}
unsafe fn access_slow(addr: usize, n: usize, write: bool, what: &str) {
    let tid = cur();
    let r = st();
    let vc: *const Vc = &*r.tasks[tid].vc;
    let end = addr + n;
    let mut a = addr;
    while a < end {
        let g = a & !7;
        let l = leaf(a);
        if l.is_null() {
            a = (a | ((1 << LEAF_BITS) - 1)) + 1;
            continue;
        }
        let hi = (g + 8).min(end);
        let m = (((1u16 << (hi - g)) - 1) & !((1u16 << (a - g)) - 1)) as u8;
        CHECKED += 1;
        granule(cell(l, a), m, write, tid, &*vc, what);
        a = hi;
    }
}
pub unsafe fn on_alloc(p: usize, n: usize, tracked: bool) {
    if !ON {
        return;
    }
    let tracked = tracked && UNTRACKED == 0;
    let tid = if tracked { cur() } else { 0 };
    let s = if tracked { slot(tid, st().tasks[tid].vc[tid], 0xff, true) } else { 0 };
    let mut a = p & !7;
    while a < p + n {
        let l = if tracked { leaf_make(a) } else { leaf(a) };
        if l.is_null() {
            a = (a | ((1 << LEAF_BITS) - 1)) + 1;
            continue;
        }
        let c = cell(l, a);
        *c = s;
        *c.add(1) = 0;
        *c.add(2) = 0;
        *c.add(3) = 0;
        a += 8;
    }
}
pub unsafe fn on_free(p: usize, n: usize) {
    if !ON {
        return;
    }
    access(p, n, true, "release");
    on_alloc(p, n, false);
}

macro_rules! plain {
    ($($name:ident $n:expr, $w:expr;)*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $name(p: usize) {
            access(p, $n, $w, "")
        }
    )* };
}
plain! {
    __tsan_read1 1, false;
    __tsan_read2 2, false;
    __tsan_read4 4, false;
    __tsan_read8 8, false;
    __tsan_read16 16, false;
    __tsan_write1 1, true;
    __tsan_write2 2, true;
    __tsan_write4 4, true;
    __tsan_write8 8, true;
    __tsan_write16 16, true;
    __tsan_unaligned_read2 2, false;
    __tsan_unaligned_read4 4, false;
    __tsan_unaligned_read8 8, false;
    __tsan_unaligned_read16 16, false;
    __tsan_unaligned_write2 2, true;
    __tsan_unaligned_write4 4, true;
    __tsan_unaligned_write8 8, true;
    __tsan_unaligned_write16 16, true;
}
extern "C" {
    fn memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8;
    fn memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8;
    fn memset(d: *mut u8, v: i32, n: usize) -> *mut u8;
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    access(s as usize, n, false, "");
    access(d as usize, n, true, "");
    memcpy(d, s, n)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    access(s as usize, n, false, "");
    access(d as usize, n, true, "");
    memmove(d, s, n)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memset(d: *mut u8, v: i32, n: usize) -> *mut u8 {
    access(d as usize, n, true, "");
    memset(d, v, n)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_vptr_update(_p: *mut u8, _v: *mut u8) {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_vptr_read(_p: *mut u8) {}
