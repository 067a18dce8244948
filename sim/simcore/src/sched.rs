//! The scheduler: one OS thread, many fibers, every decision drawn from the schedule stream.
use crate::fiber;
use crate::race;
use crate::rng::{mix, Rng};
use crate::stream::Stream;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum State {
    Runnable,
    Blocked(usize),
    Done,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    User,
    Worker,
}

struct Fiber {
    sp: *mut u8,
    stack: *mut u8,
    state: State,
    kind: Kind,
    prio: u32,
    local: [usize; 4],
    /// clock of the race detector
    task: usize,
    entry: Option<Box<dyn FnOnce()>>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Policy {
    /// never preempt; switch only when a fiber blocks
    RunToBlock,
    /// preempt with the given mean interval (in yield points), next fiber uniform
    Random { mean: u32 },
    /// random priorities with priority changes at preemption points (mean interval)
    Priority { mean: u32 },
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub policy: Policy,
    /// probability (num/8) of considering a switch at a strong point (push, pop, unlock, library call, allocation)
    pub strong: u32,
    pub max_steps: u64,
    pub alloc_yield: bool,
    pub global_threads: usize,
    /// fraction/8 of steals that look at the injector before other deques, etc. (extra steal randomness)
    pub steal_shuffle: bool,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            policy: Policy::Random { mean: 50 },
            strong: 4,
            max_steps: 400_000_000,
            alloc_yield: false,
            global_threads: 3,
            steal_shuffle: true,
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub steps: u64,
    pub switches: u64,
    pub preemptions: u64,
    pub atomics: u64,
    /// memory granules checked by the race detector, tasks it followed
    pub accesses: u64,
    pub tasks: u64,
    pub blocks: u64,
    pub fibers: u64,
    pub steals: u64,
    pub jobs: u64,
    pub sched_hash: u64,
}

pub const F_PANIC: usize = 0;
pub const F_ALLOC: usize = 1;
pub const F_SPAWN: usize = 2;
pub const F_SINK: usize = 3;
pub const F_BLAS: usize = 4;
pub const N_FAULT: usize = 5;
pub const FAULT_NAMES: [&str; N_FAULT] = ["element_panic", "alloc_fail", "thread_spawn_fail", "sink_error", "blas_call_fail"];

#[derive(Clone, Copy, Debug, Default)]
pub struct FaultPlan {
    /// inject at the n-th (1-based) site hit while armed; 0 = never
    pub at: u64,
    /// keep failing for this many further hits
    pub burst: u64,
    pub hits: u64,
    pub fired: u64,
    pub armed: bool,
    /// only workers and threads inside `in_scope` hit it
    pub scoped: bool,
}

pub struct Sim {
    fibers: Vec<Fiber>,
    cur: usize,
    main_sp: *mut u8,
    countdown: u32,
    pub sched: Stream,
    pub cfg: Cfg,
    pub stats: Stats,
    pub faults: [FaultPlan; N_FAULT],
    pub violation: Option<String>,
    no_preempt: u32,
    shutdown: bool,
    aborted: Option<String>,
    pub log: Vec<u64>,
    pub last_panic: String,
}

static mut SIM: Option<Box<Sim>> = None;
static mut ACTIVE: bool = false;
static mut TOTAL_STEPS: u64 = 0;

#[inline(always)]
pub fn active() -> bool {
    unsafe { ACTIVE }
}
/// a simulation exists (even if switched off by a crash handler)
pub fn sim_exists() -> bool {
    unsafe { SIM.is_some() }
}
/// crash handler: nothing below may schedule or account any more
pub fn force_inactive() {
    unsafe { ACTIVE = false }
}
#[inline(always)]
pub fn sim() -> &'static mut Sim {
    unsafe { SIM.as_mut().expect("no simulation running") }
}

extern "C" {
    fn _exit(code: i32) -> !;
}

/// what the process does when a run cannot be continued (deadlock / step limit): set by the harness
static mut ON_ABORT: Option<fn(&str)> = None;
pub fn set_on_abort(f: fn(&str)) {
    unsafe { ON_ABORT = Some(f) }
}

unsafe extern "C" fn fiber_main(id: usize) -> ! {
    let entry = sim().fibers[id].entry.take().unwrap();
    let r = catch_unwind(AssertUnwindSafe(entry));
    if let Err(e) = r {
        std::mem::forget(e);
        sim().report(format!("panic escaped a simulated thread: {}", sim().last_panic));
    }
    let s = sim();
    s.fibers[id].state = State::Done;
    s.switch_next(true);
    unreachable!()
}

impl Sim {
    fn report(&mut self, msg: String) {
        if self.violation.is_none() {
            self.violation = Some(msg);
        }
    }
    fn abort_run(&mut self, why: &str) -> ! {
        unsafe {
            ACTIVE = false;
            if let Some(f) = ON_ABORT {
                f(why);
            }
            _exit(3)
        }
    }

    fn spawn(&mut self, kind: Kind, f: Box<dyn FnOnce()>) -> usize {
        crate::alloc::quiet();
        let id = self.fibers.len();
        let stack = fiber::stack_get();
        let sp = unsafe { fiber::prepare(stack, fiber_main, id) };
        let prio = match self.cfg.policy {
            Policy::Priority { .. } => self.sched.choose(1 << 16),
            _ => 0,
        };
        self.fibers.push(Fiber { sp, stack, state: State::Runnable, kind, prio, local: [0; 4], task: 0, entry: Some(f) });
        self.stats.fibers += 1;
        crate::alloc::unquiet();
        id
    }

    fn draw_interval(&mut self) -> u32 {
        match self.cfg.policy {
            Policy::RunToBlock => 0,
            Policy::Random { mean } | Policy::Priority { mean } => self.sched.choose_with(1 << 20, |r| {
                // log-uniform around the mean: bursts of dense preemption and long quiet stretches
                let v = r.loguni(mean as u64 * 4);
                v as u32
            }),
        }
    }

    /// pick the next fiber to run. `must` = the current one cannot continue.
    fn pick(&mut self, must: bool) -> Option<usize> {
        let n = self.fibers.len();
        let mut buf: [usize; 256] = [0; 256];
        let mut m = 0;
        // order: current first (if it can continue), then round-robin after it
        for k in 0..n {
            let i = (self.cur + k) % n;
            if k == 0 && must {
                continue;
            }
            if self.fibers[i].state == State::Runnable {
                buf[m] = i;
                m += 1;
                if m == 256 {
                    break;
                }
            }
        }
        if m == 0 {
            return None;
        }
        if m == 1 {
            return Some(buf[0]);
        }
        let idx = match self.cfg.policy {
            Policy::RunToBlock => self.sched.choose_with(m as u32, |r| if must { r.below(m as u64) as u32 } else { 0 }),
            Policy::Random { .. } => self.sched.choose(m as u32),
            Policy::Priority { .. } => {
                let mut best = 0;
                for k in 1..m {
                    if self.fibers[buf[k]].prio > self.fibers[buf[best]].prio {
                        best = k;
                    }
                }
                self.sched.choose_with(m as u32, |_| best as u32)
            },
        };
        Some(buf[idx as usize])
    }

    fn switch_next(&mut self, must: bool) {
        let cur = self.cur;
        match self.pick(must) {
            Some(i) if i == cur => {},
            Some(i) => self.switch_to(i),
            None => {
                // nothing runnable: go back to the main context
                self.switch_main();
            },
        }
    }

    fn switch_to(&mut self, i: usize) {
        let cur = self.cur;
        self.cur = i;
        self.stats.switches += 1;
        self.stats.sched_hash = (self.stats.sched_hash ^ (i as u64 + 1)).wrapping_mul(0x100000001B3).rotate_left(17)
            ^ self.stats.steps;
        let to = self.fibers[i].sp;
        let from: *mut *mut u8 = &mut self.fibers[cur].sp;
        let saved = crate::unwind::take();
        unsafe { fiber::switch(from, to) }
        crate::unwind::put(saved);
    }

    fn switch_main(&mut self) {
        let cur = self.cur;
        let to = self.main_sp;
        let from: *mut *mut u8 = &mut self.fibers[cur].sp;
        let saved = crate::unwind::take();
        unsafe { fiber::switch(from, to) }
        crate::unwind::put(saved);
    }

    #[cold]
    #[inline(never)]
    fn preempt(&mut self) {
        if self.no_preempt > 0 || crate::unwind::stuck() {
            self.countdown = 1;
            return;
        }
        self.countdown = self.draw_interval();
        self.stats.preemptions += 1;
        if let Policy::Priority { .. } = self.cfg.policy {
            let p = self.sched.choose(1 << 16);
            let c = self.cur;
            self.fibers[c].prio = p;
        }
        self.switch_next(false);
    }

    #[cold]
    fn too_long(&mut self) {
        self.abort_run("no progress: step limit exceeded (livelock or unbounded work)");
    }
}

/// fine-grained yield point (element operations)
#[inline]
pub fn yield_point() {
    if !active() {
        return;
    }
    let s = sim();
    s.stats.steps += 1;
    if s.countdown != 0 {
        s.countdown -= 1;
        if s.countdown == 0 {
            s.preempt();
        }
    }
    if s.stats.steps > s.cfg.max_steps {
        s.too_long();
    }
}

/// yield point before an atomic operation: these are rare and matter, so each counts as several element operations
#[inline]
pub fn yield_atomic() {
    if !active() {
        return;
    }
    let s = sim();
    s.stats.steps += 1;
    s.stats.atomics += 1;
    if s.countdown != 0 {
        s.countdown = s.countdown.saturating_sub(8);
        if s.countdown == 0 {
            s.preempt();
        }
    }
    if s.stats.steps > s.cfg.max_steps {
        s.too_long();
    }
}

/// coarse yield point (task push/pop, library calls): considered with a fixed probability
#[inline]
pub fn yield_strong() {
    if !active() {
        return;
    }
    let s = sim();
    s.stats.steps += 1;
    if s.stats.steps > s.cfg.max_steps {
        s.too_long();
    }
    if s.no_preempt > 0 || crate::unwind::stuck() || s.fibers.len() < 2 {
        return;
    }
    let strong = s.cfg.strong;
    if strong > 0 && s.sched.choose_with(8, |r| (r.below(8) < strong as u64) as u32) != 0 {
        s.switch_next(false);
    }
}

/// give way to another fiber, if there is one
pub fn yield_now() {
    if !active() {
        return;
    }
    let s = sim();
    s.stats.steps += 1;
    if s.no_preempt > 0 || crate::unwind::stuck() || s.fibers.len() < 2 {
        return;
    }
    s.switch_next(false);
}

/// block the current fiber until `wake(key)`; spurious wake-ups are possible
pub fn wait_on(key: usize) {
    let s = sim();
    s.stats.steps += 1;
    s.stats.blocks += 1;
    if s.stats.steps > s.cfg.max_steps {
        s.too_long();
    }
    if s.shutdown {
        return;
    }
    if crate::unwind::stuck() {
        s.abort_run("simulated thread must block while unwinding");
    }
    let c = s.cur;
    s.fibers[c].state = State::Blocked(key);
    s.switch_next(true);
}

/// wake fibers blocked on key; at most `n`; returns number woken
pub fn wake(key: usize, n: usize) -> usize {
    let s = sim();
    let mut c = 0;
    for f in s.fibers.iter_mut() {
        if c >= n {
            break;
        }
        if f.state == State::Blocked(key) {
            f.state = State::Runnable;
            c += 1;
        }
    }
    c
}

pub fn spawn_fiber(kind: Kind, f: Box<dyn FnOnce()>) -> usize {
    sim().spawn(kind, f)
}

pub fn current_fiber() -> usize {
    sim().cur
}
pub fn current_kind() -> Kind {
    let s = sim();
    s.fibers[s.cur].kind
}
pub fn local_get(slot: usize) -> usize {
    let s = sim();
    s.fibers[s.cur].local[slot]
}
pub fn local_set(slot: usize, v: usize) {
    let s = sim();
    let c = s.cur;
    s.fibers[c].local[slot] = v;
}
pub fn current_task() -> usize {
    let s = sim();
    s.fibers[s.cur].task
}
pub fn set_current_task(t: usize) {
    let s = sim();
    let c = s.cur;
    s.fibers[c].task = t;
}
pub fn fiber_done(id: usize) -> bool {
    sim().fibers[id].state == State::Done
}
pub fn shutting_down() -> bool {
    active() && sim().shutdown
}

/// run `f` without preemption (harness bookkeeping)
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    if !active() {
        return f();
    }
    struct G;
    impl Drop for G {
        fn drop(&mut self) {
            sim().no_preempt -= 1;
            crate::alloc::unquiet();
        }
    }
    sim().no_preempt += 1;
    crate::alloc::quiet();
    let _g = G;
    f()
}

/// schedule-stream choice (steal victim etc.)
pub fn choose(n: u32) -> u32 {
    if n <= 1 {
        return 0;
    }
    sim().sched.choose(n)
}

/// record a violation (first one wins) and keep going
pub fn violation(msg: String) {
    if active() {
        let s = sim();
        s.report(msg);
    }
}
pub fn has_violation() -> bool {
    active() && sim().violation.is_some()
}

/// fault site: true when the planned fault fires here
#[inline]
pub fn fault(kind: usize) -> bool {
    if !active() {
        return false;
    }
    let f = &mut sim().faults[kind];
    if !f.armed {
        return false;
    }
    if f.scoped {
        let s = sim();
        let c = &s.fibers[s.cur];
        if c.kind == Kind::User && c.local[3] == 0 {
            return false;
        }
    }
    f.hits += 1;
    if f.at != 0 && f.hits >= f.at && f.hits <= f.at + f.burst {
        f.fired += 1;
        true
    } else {
        false
    }
}

/// mark the calling thread as running code under test (see `FaultPlan::scoped`)
pub fn in_scope(b: bool) {
    local_set(3, b as usize)
}

pub struct JoinHandle<T> {
    id: usize,
    slot: std::rc::Rc<std::cell::RefCell<Option<std::thread::Result<T>>>>,
    tok: std::rc::Rc<std::cell::Cell<(usize, race::Tok)>>,
}

/// spawn a simulated user thread
pub fn thread_spawn<T: 'static>(f: impl FnOnce() -> T + 'static) -> JoinHandle<T> {
    let (slot, idc) = race::untracked(|| {
        (
            std::rc::Rc::new(std::cell::RefCell::new(None)),
            std::rc::Rc::new(std::cell::Cell::new((usize::MAX, race::NO_TOK))),
        )
    });
    let s2 = slot.clone();
    let idc2 = idc.clone();
    let tok = race::fork();
    let entry = race::untracked(|| {
        Box::new(move || {
            let prev = race::start(tok);
            let r = catch_unwind(AssertUnwindSafe(f));
            *s2.borrow_mut() = Some(r);
            idc2.set((idc2.get().0, race::finish(prev)));
            wake(0x7000_0000 + idc2.get().0, usize::MAX);
        })
    });
    let id = spawn_fiber(Kind::User, entry);
    idc.set((id, race::NO_TOK));
    JoinHandle { id, slot, tok: idc }
}

impl<T> JoinHandle<T> {
    pub fn join(self) -> std::thread::Result<T> {
        while self.slot.borrow().is_none() {
            wait_on(0x7000_0000 + self.id);
        }
        race::join(self.tok.get().1);
        let r = self.slot.borrow_mut().take().unwrap();
        r
    }
}

pub struct Outcome {
    pub violation: Option<String>,
    pub stats: Stats,
    pub faults: [FaultPlan; N_FAULT],
    pub sched: Vec<u32>,
    pub log_hash: u64,
}

static mut AT_END: Vec<fn()> = Vec::new();
/// called at the end of each run, still inside the simulation, so that pools can shut down
pub fn at_end(f: fn()) {
    unsafe {
        if !AT_END.contains(&f) {
            AT_END.push(f)
        }
    }
}

/// Execute one simulated run of `main`.
pub fn run(cfg: Cfg, sched: Stream, main: Box<dyn FnOnce()>) -> Outcome {
    unsafe {
        assert!(!ACTIVE, "nested simulation");
        let s = Sim {
            fibers: Vec::with_capacity(64),
            cur: 0,
            main_sp: std::ptr::null_mut(),
            countdown: 0,
            sched,
            cfg,
            stats: Stats::default(),
            faults: Default::default(),
            violation: None,
            no_preempt: 0,
            shutdown: false,
            aborted: None,
            log: Vec::new(),
            last_panic: String::new(),
        };
        SIM = Some(Box::new(s));
        let s = sim();
        s.fibers.reserve(512);
        s.spawn(Kind::User, main);
        s.countdown = s.draw_interval();
        ACTIVE = true;
        // run until nothing is runnable
        s.cur = 0;
        let to = s.fibers[0].sp;
        fiber::switch(&mut s.main_sp, to);
        // every user thread must have finished
        let stuck: Vec<usize> = (0..s.fibers.len())
            .filter(|&i| s.fibers[i].kind == Kind::User && s.fibers[i].state != State::Done)
            .collect();
        if !stuck.is_empty() {
            s.abort_run(&format!("deadlock: simulated threads {stuck:?} are blocked forever"));
        }
        // shut the remaining workers down
        s.shutdown = true;
        s.countdown = 0;
        let mut rounds = 0;
        loop {
            let mut any = false;
            for i in 0..s.fibers.len() {
                if s.fibers[i].state != State::Done {
                    any = true;
                    s.fibers[i].state = State::Runnable;
                }
            }
            if !any {
                break;
            }
            rounds += 1;
            if rounds > 1000 {
                s.abort_run("workers do not shut down");
            }
            let i = (0..s.fibers.len()).find(|&i| s.fibers[i].state == State::Runnable).unwrap();
            s.cur = i;
            let to = s.fibers[i].sp;
            fiber::switch(&mut s.main_sp, to);
        }
        for f in AT_END.iter() {
            f();
        }
        ACTIVE = false;
        let s = SIM.take().unwrap();
        for f in s.fibers.iter() {
            fiber::stack_put(f.stack);
        }
        TOTAL_STEPS += s.stats.steps;
        let _ = &s.aborted;
        let log_hash = mix(&s.log);
        Outcome { violation: s.violation, stats: s.stats, faults: s.faults, sched: s.sched.rec, log_hash }
    }
}

/// append to the event log (never draws randomness)
#[inline]
pub fn log_event(v: u64) {
    if active() {
        let s = sim();
        if s.log.len() < 1 << 16 {
            crate::alloc::quiet();
            s.log.push(v);
            crate::alloc::unquiet();
        }
    }
}

pub fn install_panic_hook() {
    crate::unwind::find();
    assert!(crate::unwind::found(), "the panic count of this std was not found");
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<payload>".to_string()
        };
        if active() {
            let s = sim();
            s.last_panic = race::untracked(|| format!("{msg} @ {loc}"));
            if std::env::var_os("RSIM_TRACE").is_some() {
                eprintln!("[panic] {msg} @ {loc}");
                if std::env::var_os("RSIM_BT").is_some() {
                    eprintln!("{}", std::backtrace::Backtrace::force_capture());
                }
            }
        } else {
            eprintln!("panic outside simulation: {msg} @ {loc}");
        }
    }));
}

pub fn new_rng(seed: u64) -> Rng {
    Rng::new(seed)
}
