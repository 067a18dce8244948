//! rayon-core replaced by a simulated one: same API, same work-stealing semantics (own deque LIFO, steal FIFO, then
//! injector; a worker that waits keeps executing other work of its pool), but workers are simcore fibers and every
//! scheduling decision is drawn from the run's schedule stream.
#![allow(static_mut_refs, clippy::all)]
use simcore::race::{self, Tok};
use std::any::Any;
use std::cell::{Cell, RefCell, UnsafeCell};
use std::collections::VecDeque;
use std::error::Error;
use std::fmt;
use std::io;
use std::marker::PhantomData;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::Arc;

const SLOT_WORKER: usize = 0;
/// fiber-local slots readable by the harness: registry id + 1, worker index
pub const SLOT_REGISTRY: usize = 1;
pub const SLOT_INDEX: usize = 2;

// ------------------------------------------------------------------ jobs
#[derive(Clone, Copy)]
struct JobRef {
    ptr: *const (),
    exec: unsafe fn(*const (), bool),
}
impl JobRef {
    fn id(&self) -> (usize, usize) {
        (self.ptr as usize, self.exec as usize)
    }
}

enum JobResult<R> {
    None,
    Ok(R),
    Panic(Box<dyn Any + Send>),
}

/// what happens when a stack job completes
#[derive(Clone, Copy)]
enum Notify {
    /// wake fibers waiting on this key
    Key(usize),
}
impl Notify {
    fn fire(&self) {
        match *self {
            Notify::Key(k) => {
                simcore::wake(k, usize::MAX);
            },
        }
    }
}

struct StackJob<F, R> {
    f: UnsafeCell<Option<F>>,
    res: UnsafeCell<JobResult<R>>,
    done: Cell<bool>,
    notify: Notify,
    /// keeps the waiter's registry alive until the notification (cross-registry waits)
    keep: RefCell<Option<Arc<Registry>>>,
    /// clock of whoever pushed the job; then of its end
    tok: Cell<Tok>,
}
impl<F: FnOnce(bool) -> R, R> StackJob<F, R> {
    fn new(f: F, notify: Notify) -> Self {
        StackJob {
            f: UnsafeCell::new(Some(f)),
            res: UnsafeCell::new(JobResult::None),
            done: Cell::new(false),
            notify,
            keep: RefCell::new(None),
            tok: Cell::new(race::NO_TOK),
        }
    }
    fn job_ref(&self) -> JobRef {
        self.tok.set(race::fork());
        JobRef { ptr: self as *const Self as *const (), exec: Self::exec }
    }
    unsafe fn exec(p: *const (), migrated: bool) {
        let this = &*(p as *const Self);
        let f = (*this.f.get()).take().expect("rayon-sim: job executed twice");
        let (r, tok) = race::task(this.tok.get(), || match catch_unwind(AssertUnwindSafe(|| f(migrated))) {
            Ok(r) => JobResult::Ok(r),
            Err(e) => JobResult::Panic(e),
        });
        this.tok.set(tok);
        *this.res.get() = r;
        let n = this.notify;
        let keep = this.keep.borrow_mut().take();
        this.done.set(true);
        n.fire();
        drop(keep);
    }
    unsafe fn run_inline(self, migrated: bool) -> R {
        let f = self.f.into_inner().unwrap();
        race::inline(self.tok.get(), || f(migrated))
    }
    unsafe fn into_result(self) -> R {
        race::join(self.tok.get());
        match self.res.into_inner() {
            JobResult::Ok(r) => r,
            JobResult::Panic(e) => resume_unwind(e),
            JobResult::None => panic!("rayon-sim: job has no result"),
        }
    }
}

struct HeapJob<F: FnOnce()> {
    f: F,
    tok: Tok,
}
impl<F: FnOnce()> HeapJob<F> {
    fn into_ref(f: F) -> JobRef {
        let tok = race::fork();
        let b = race::untracked(|| Box::new(HeapJob { f, tok }));
        JobRef { ptr: Box::into_raw(b) as *const (), exec: Self::exec }
    }
    unsafe fn exec(p: *const (), _m: bool) {
        let b = Box::from_raw(p as *mut Self);
        let HeapJob { f, tok } = *b;
        race::task(tok, f);
    }
}
struct ArcJob<F: Fn()> {
    f: F,
    tok: Cell<Tok>,
}
impl<F: Fn()> ArcJob<F> {
    fn as_ref(a: &Arc<Self>) -> JobRef {
        // one clock each: the job object itself is shared
        a.tok.set(race::merge(a.tok.get(), race::fork()));
        JobRef { ptr: Arc::into_raw(a.clone()) as *const (), exec: Self::exec }
    }
    unsafe fn exec(p: *const (), _m: bool) {
        let a = Arc::from_raw(p as *const Self);
        race::task(race::copy(a.tok.get()), || (a.f)());
    }
}

// ------------------------------------------------------------------ registry
type PanicHandler = dyn Fn(Box<dyn Any + Send>) + Send + Sync;
type StartHandler = dyn Fn(usize) + Send + Sync;
type ExitHandler = dyn Fn(usize) + Send + Sync;

struct Shared {
    deques: Vec<VecDeque<JobRef>>,
    broadcasts: Vec<VecDeque<JobRef>>,
    fifos: Vec<VecDeque<JobRef>>,
    injector: VecDeque<JobRef>,
    terminate_count: usize,
    started: usize,
    exited: usize,
}

struct Registry {
    id: usize,
    n: usize,
    breadth_first: bool,
    sh: UnsafeCell<Shared>,
    panic_handler: Option<Box<PanicHandler>>,
    start_handler: Option<Box<StartHandler>>,
    exit_handler: Option<Box<ExitHandler>>,
}
unsafe impl Send for Registry {}
unsafe impl Sync for Registry {}

struct WorkerThread {
    reg: Arc<Registry>,
    index: usize,
}

static mut GLOBAL: Option<Arc<Registry>> = None;
static mut NEXT_ID: usize = 0;
static mut LIVE_WORKERS: usize = 0;
static mut REGISTRIES: usize = 0;
static mut JOBS: [u64; 256] = [0; 256];

/// jobs executed so far by the workers of each pool (index: pool id)
pub fn sim_jobs() -> [u64; 256] {
    unsafe { JOBS }
}

/// number of worker threads that were started and have not yet exited
pub fn sim_live_workers() -> usize {
    unsafe { LIVE_WORKERS }
}
/// registries created since the run began
pub fn sim_registries() -> usize {
    unsafe { REGISTRIES }
}
pub fn sim_global_exists() -> bool {
    unsafe { GLOBAL.is_some() }
}
/// id of the pool the calling simulated thread belongs to
pub fn sim_current_pool() -> Option<usize> {
    WorkerThread::current().map(|w| w.reg.id)
}
pub fn sim_pool_id(p: &ThreadPool) -> usize {
    p.registry.id
}
pub fn sim_global_id() -> usize {
    global_registry().id
}

fn end_of_run() {
    unsafe {
        GLOBAL = None;
        NEXT_ID = 0;
        LIVE_WORKERS = 0;
        REGISTRIES = 0;
        JOBS = [0; 256];
    }
}

fn need_sim() {
    if !simcore::active() {
        panic!("rayon-sim used outside a simulation");
    }
    simcore::at_end(end_of_run);
}

fn global_registry() -> &'static Arc<Registry> {
    need_sim();
    unsafe {
        if GLOBAL.is_none() {
            let n = simcore::sim().cfg.global_threads;
            let b = ThreadPoolBuilder::new().num_threads(n);
            match Registry::new(b) {
                Ok(r) => GLOBAL = Some(r),
                Err(e) => panic!("The global thread pool has not been initialized.: {e:?}"),
            }
        }
        GLOBAL.as_ref().unwrap()
    }
}

impl WorkerThread {
    fn current<'a>() -> Option<&'a WorkerThread> {
        if !simcore::active() {
            return None;
        }
        let p = simcore::local_get(SLOT_WORKER) as *const WorkerThread;
        unsafe { p.as_ref() }
    }
    fn sh(&self) -> &mut Shared {
        self.reg.sh()
    }
    fn push(&self, j: JobRef) {
        simcore::yield_strong();
        simcore::quiet(|| self.sh().deques[self.index].push_back(j));
        simcore::wake(self.reg.key(), usize::MAX);
        simcore::yield_strong();
    }
    fn push_fifo(&self, j: JobRef) {
        simcore::yield_strong();
        simcore::quiet(|| self.sh().fifos[self.index].push_back(j));
        simcore::wake(self.reg.key(), usize::MAX);
        simcore::yield_strong();
    }
    fn take_local(&self) -> Option<JobRef> {
        let sh = self.sh();
        if self.reg.breadth_first {
            sh.deques[self.index].pop_front()
        } else {
            sh.deques[self.index].pop_back()
        }
        .or_else(|| sh.fifos[self.index].pop_front())
        .or_else(|| sh.broadcasts[self.index].pop_front())
    }
    fn find_work(&self) -> Option<JobRef> {
        simcore::yield_strong();
        if let Some(j) = self.take_local() {
            return Some(j);
        }
        let sh = self.sh();
        let n = self.reg.n;
        // victims with work, in a drawn rotation
        let mut cand: [usize; 64] = [0; 64];
        let mut m = 0;
        for i in 0..n.min(64) {
            if i != self.index && (!sh.deques[i].is_empty() || !sh.fifos[i].is_empty()) {
                cand[m] = i;
                m += 1;
            }
        }
        let inj = !sh.injector.is_empty();
        if m > 0 {
            let extra = if inj && simcore::sim().cfg.steal_shuffle { 1 } else { 0 };
            let c = simcore::choose((m + extra) as u32) as usize;
            if c < m {
                simcore::sim().stats.steals += 1;
                let v = cand[c];
                return sh.deques[v].pop_front().or_else(|| sh.fifos[v].pop_front());
            }
        }
        if inj {
            return sh.injector.pop_front();
        }
        None
    }
    fn execute(&self, j: JobRef) {
        simcore::sim().stats.jobs += 1;
        unsafe { JOBS[self.reg.id.min(255)] += 1 };
        unsafe { (j.exec)(j.ptr, true) };
        simcore::yield_strong();
    }
    fn wait_until(&self, done: impl Fn() -> bool) {
        while !done() {
            if let Some(j) = self.find_work() {
                self.execute(j);
            } else if !done() {
                if simcore::shutting_down() {
                    // a worker stuck inside a job at the end of the run
                    loop {
                        simcore::wait_on(0xdead);
                        if simcore::shutting_down() {
                            panic!("rayon-sim: worker abandoned inside a job at the end of the run");
                        }
                    }
                }
                simcore::wait_on(self.reg.key());
            }
        }
    }
}

impl Registry {
    fn key(&self) -> usize {
        self as *const _ as usize
    }
    #[allow(clippy::mut_from_ref)]
    fn sh(&self) -> &mut Shared {
        unsafe { &mut *self.sh.get() }
    }
    fn new<S: ThreadSpawn>(mut b: ThreadPoolBuilder<S>) -> Result<Arc<Registry>, ThreadPoolBuildError> {
        need_sim();
        simcore::yield_strong();
        // more threads than this are folded (the simulator caps a pool, as rayon does with its own, larger, cap)
        let n = if b.num_threads > 0 { b.num_threads.min(max_num_threads()) } else { simcore::sim().cfg.global_threads };
        if b.use_current_thread {
            panic!("rayon-sim: use_current_thread is not simulated");
        }
        let id = unsafe {
            NEXT_ID += 1;
            REGISTRIES += 1;
            NEXT_ID
        };
        let reg = race::untracked(|| Arc::new(Registry {
            id,
            n,
            breadth_first: b.breadth_first,
            sh: UnsafeCell::new(Shared {
                deques: (0..n).map(|_| VecDeque::new()).collect(),
                broadcasts: (0..n).map(|_| VecDeque::new()).collect(),
                fifos: (0..n).map(|_| VecDeque::new()).collect(),
                injector: VecDeque::new(),
                terminate_count: 1,
                started: 0,
                exited: 0,
            }),
            panic_handler: b.panic_handler.take(),
            start_handler: b.start_handler.take(),
            exit_handler: b.exit_handler.take(),
        }));
        for index in 0..n {
            let name = b.get_thread_name.as_mut().map(|f| f(index));
            let t = ThreadBuilder { name, stack_size: b.stack_size, reg: reg.clone(), index };
            if let Err(e) = b.spawn_handler.spawn(t) {
                reg.terminate();
                return Err(ThreadPoolBuildError { kind: ErrorKind::IOError(e) });
            }
        }
        Ok(reg)
    }
    fn current() -> Arc<Registry> {
        match WorkerThread::current() {
            Some(w) => w.reg.clone(),
            None => global_registry().clone(),
        }
    }
    fn current_thread<'a>(&self) -> Option<&'a WorkerThread> {
        WorkerThread::current().filter(|w| w.reg.id == self.id)
    }
    fn inject(&self, j: JobRef) {
        simcore::yield_strong();
        simcore::quiet(|| self.sh().injector.push_back(j));
        simcore::wake(self.key(), usize::MAX);
        simcore::yield_strong();
    }
    fn inject_or_push(&self, j: JobRef) {
        match self.current_thread() {
            Some(w) => w.push(j),
            None => self.inject(j),
        }
    }
    fn inject_broadcast(&self, js: Vec<JobRef>) {
        simcore::yield_strong();
        simcore::quiet(|| {
            for (i, j) in js.iter().enumerate() {
                self.sh().broadcasts[i].push_back(*j);
            }
        });
        simcore::wake(self.key(), usize::MAX);
        simcore::yield_strong();
    }
    fn terminate(&self) {
        let sh = self.sh();
        sh.terminate_count -= 1;
        if sh.terminate_count == 0 {
            simcore::wake(self.key(), usize::MAX);
        }
    }
    fn increment_terminate_count(&self) {
        self.sh().terminate_count += 1;
    }
    fn catch(&self, f: impl FnOnce()) {
        if let Err(e) = catch_unwind(AssertUnwindSafe(f)) {
            match &self.panic_handler {
                Some(h) => h(e),
                None => {
                    simcore::violation("panic in a detached pool task: the real rayon aborts the process".to_string());
                    std::mem::forget(e);
                },
            }
        }
    }
    fn in_worker<R: Send>(self: &Arc<Self>, op: impl FnOnce(&WorkerThread, bool) -> R + Send) -> R {
        match WorkerThread::current() {
            Some(w) if w.reg.id == self.id => op(w, false),
            Some(w) => {
                // cross-registry: inject there, keep working for our own pool meanwhile
                let job = StackJob::new(
                    |_m| op(WorkerThread::current().expect("rayon-sim: not on a worker"), true),
                    Notify::Key(w.reg.key()),
                );
                *job.keep.borrow_mut() = Some(w.reg.clone());
                self.inject(job.job_ref());
                w.wait_until(|| job.done.get());
                unsafe { job.into_result() }
            },
            None => {
                let key = 0;
                let mut job = StackJob::new(
                    |_m| op(WorkerThread::current().expect("rayon-sim: not on a worker"), true),
                    Notify::Key(key),
                );
                job.notify = Notify::Key(&job.done as *const _ as usize);
                self.inject(job.job_ref());
                while !job.done.get() {
                    simcore::wait_on(&job.done as *const _ as usize);
                }
                unsafe { job.into_result() }
            },
        }
    }
}

fn in_worker<R: Send>(op: impl FnOnce(&WorkerThread, bool) -> R + Send) -> R {
    match WorkerThread::current() {
        Some(w) => op(w, false),
        None => global_registry().in_worker(op),
    }
}

fn worker_main(t: ThreadBuilder) {
    let w = WorkerThread { reg: t.reg.clone(), index: t.index };
    drop(t);
    let reg = w.reg.clone();
    simcore::local_set(SLOT_WORKER, &w as *const _ as usize);
    simcore::local_set(SLOT_REGISTRY, reg.id + 1);
    simcore::local_set(SLOT_INDEX, w.index);
    unsafe { LIVE_WORKERS += 1 };
    reg.sh().started += 1;
    if let Some(h) = &reg.start_handler {
        reg.catch(|| h(w.index));
    }
    loop {
        if let Some(j) = w.find_work() {
            w.execute(j);
            continue;
        }
        if reg.sh().terminate_count == 0 || simcore::shutting_down() {
            break;
        }
        simcore::wait_on(reg.key());
    }
    if let Some(h) = &reg.exit_handler {
        reg.catch(|| h(w.index));
    }
    reg.sh().exited += 1;
    unsafe { LIVE_WORKERS = LIVE_WORKERS.saturating_sub(1) };
    simcore::local_set(SLOT_WORKER, 0);
    simcore::local_set(SLOT_REGISTRY, 0);
}

// ------------------------------------------------------------------ builder
pub struct ThreadBuilder {
    name: Option<String>,
    stack_size: Option<usize>,
    reg: Arc<Registry>,
    index: usize,
}
impl ThreadBuilder {
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn name(&self) -> Option<&str> {
        self.name.as_deref()
    }
    pub fn stack_size(&self) -> Option<usize> {
        self.stack_size
    }
    pub fn run(self) {
        worker_main(self)
    }
}
impl fmt::Debug for ThreadBuilder {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("ThreadBuilder").field("index", &self.index).finish()
    }
}

mod private {
    pub trait Sealed {}
}
pub trait ThreadSpawn: private::Sealed {
    #[doc(hidden)]
    fn spawn(&mut self, t: ThreadBuilder) -> io::Result<()>;
}
#[derive(Debug, Default)]
pub struct DefaultSpawn;
impl private::Sealed for DefaultSpawn {}
impl ThreadSpawn for DefaultSpawn {
    fn spawn(&mut self, t: ThreadBuilder) -> io::Result<()> {
        simcore::yield_strong();
        if simcore::fault(simcore::F_SPAWN) {
            return Err(io::Error::from_raw_os_error(11));
        }
        let tok = race::fork();
        simcore::quiet(|| {
            simcore::spawn_fiber(simcore::Kind::Worker, Box::new(move || {
                race::task(tok, || worker_main(t));
            }))
        });
        simcore::yield_strong();
        Ok(())
    }
}
pub struct CustomSpawn<F>(F);
impl<F> private::Sealed for CustomSpawn<F> {}
impl<F: FnMut(ThreadBuilder) -> io::Result<()>> ThreadSpawn for CustomSpawn<F> {
    fn spawn(&mut self, t: ThreadBuilder) -> io::Result<()> {
        (self.0)(t)
    }
}

pub struct ThreadPoolBuilder<S = DefaultSpawn> {
    num_threads: usize,
    use_current_thread: bool,
    panic_handler: Option<Box<PanicHandler>>,
    get_thread_name: Option<Box<dyn FnMut(usize) -> String>>,
    stack_size: Option<usize>,
    start_handler: Option<Box<StartHandler>>,
    exit_handler: Option<Box<ExitHandler>>,
    spawn_handler: S,
    breadth_first: bool,
}
impl Default for ThreadPoolBuilder {
    fn default() -> Self {
        ThreadPoolBuilder {
            num_threads: 0,
            use_current_thread: false,
            panic_handler: None,
            get_thread_name: None,
            stack_size: None,
            start_handler: None,
            exit_handler: None,
            spawn_handler: DefaultSpawn,
            breadth_first: false,
        }
    }
}
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        Self::default()
    }
}
impl<S: ThreadSpawn> ThreadPoolBuilder<S> {
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        Ok(ThreadPool { registry: Registry::new(self)? })
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        need_sim();
        unsafe {
            if GLOBAL.is_some() {
                return Err(ThreadPoolBuildError { kind: ErrorKind::GlobalPoolAlreadyInitialized });
            }
            GLOBAL = Some(Registry::new(self)?);
        }
        Ok(())
    }
}
impl ThreadPoolBuilder {
    pub fn build_scoped<W, F, R>(self, _wrapper: W, with_pool: F) -> Result<R, ThreadPoolBuildError>
    where
        W: Fn(ThreadBuilder) + Sync,
        F: FnOnce(&ThreadPool) -> R,
    {
        let pool = self.build()?;
        Ok(with_pool(&pool))
    }
}
impl<S> ThreadPoolBuilder<S> {
    pub fn spawn_handler<F>(self, spawn: F) -> ThreadPoolBuilder<CustomSpawn<F>>
    where
        F: FnMut(ThreadBuilder) -> io::Result<()>,
    {
        ThreadPoolBuilder {
            spawn_handler: CustomSpawn(spawn),
            num_threads: self.num_threads,
            use_current_thread: self.use_current_thread,
            panic_handler: self.panic_handler,
            get_thread_name: self.get_thread_name,
            stack_size: self.stack_size,
            start_handler: self.start_handler,
            exit_handler: self.exit_handler,
            breadth_first: self.breadth_first,
        }
    }
    pub fn thread_name<F: FnMut(usize) -> String + 'static>(mut self, f: F) -> Self {
        self.get_thread_name = Some(Box::new(f));
        self
    }
    pub fn num_threads(mut self, n: usize) -> Self {
        self.num_threads = n;
        self
    }
    pub fn use_current_thread(mut self) -> Self {
        self.use_current_thread = true;
        self
    }
    pub fn panic_handler<H: Fn(Box<dyn Any + Send>) + Send + Sync + 'static>(mut self, h: H) -> Self {
        self.panic_handler = Some(Box::new(h));
        self
    }
    pub fn stack_size(mut self, n: usize) -> Self {
        self.stack_size = Some(n);
        self
    }
    #[deprecated]
    pub fn breadth_first(mut self) -> Self {
        self.breadth_first = true;
        self
    }
    pub fn start_handler<H: Fn(usize) + Send + Sync + 'static>(mut self, h: H) -> Self {
        self.start_handler = Some(Box::new(h));
        self
    }
    pub fn exit_handler<H: Fn(usize) + Send + Sync + 'static>(mut self, h: H) -> Self {
        self.exit_handler = Some(Box::new(h));
        self
    }
}
impl<S> fmt::Debug for ThreadPoolBuilder<S> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("ThreadPoolBuilder").field("num_threads", &self.num_threads).finish()
    }
}

#[derive(Debug)]
pub struct ThreadPoolBuildError {
    kind: ErrorKind,
}
#[derive(Debug)]
enum ErrorKind {
    GlobalPoolAlreadyInitialized,
    IOError(io::Error),
}
impl fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match &self.kind {
            ErrorKind::GlobalPoolAlreadyInitialized => {
                f.write_str("The global thread pool has already been initialized.")
            },
            ErrorKind::IOError(e) => e.fmt(f),
        }
    }
}
impl Error for ThreadPoolBuildError {
    fn source(&self) -> Option<&(dyn Error + 'static)> {
        match &self.kind {
            ErrorKind::IOError(e) => e.source(),
            _ => None,
        }
    }
}

// ------------------------------------------------------------------ ThreadPool
pub struct ThreadPool {
    registry: Arc<Registry>,
}
impl fmt::Debug for ThreadPool {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("ThreadPool")
            .field("num_threads", &self.current_num_threads())
            .field("id", &self.registry.id)
            .finish()
    }
}
impl Drop for ThreadPool {
    fn drop(&mut self) {
        self.registry.terminate();
    }
}
impl ThreadPool {
    pub fn install<OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce() -> R + Send,
        R: Send,
    {
        self.registry.in_worker(|_, _| op())
    }
    pub fn broadcast<OP, R>(&self, op: OP) -> Vec<R>
    where
        OP: Fn(BroadcastContext<'_>) -> R + Sync,
        R: Send,
    {
        broadcast_in(op, &self.registry)
    }
    pub fn current_num_threads(&self) -> usize {
        self.registry.n
    }
    pub fn current_thread_index(&self) -> Option<usize> {
        self.registry.current_thread().map(|w| w.index)
    }
    pub fn current_thread_has_pending_tasks(&self) -> Option<bool> {
        self.registry.current_thread().map(|w| !w.sh().deques[w.index].is_empty())
    }
    pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        self.install(|| join(a, b))
    }
    pub fn scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R + Send,
        R: Send,
    {
        self.install(|| scope(op))
    }
    pub fn scope_fifo<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&ScopeFifo<'scope>) -> R + Send,
        R: Send,
    {
        self.install(|| scope_fifo(op))
    }
    pub fn in_place_scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R,
    {
        let s = Scope { base: ScopeBase::new(self.registry.clone()) };
        s.base.complete(|| op(&s))
    }
    pub fn in_place_scope_fifo<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&ScopeFifo<'scope>) -> R,
    {
        let s = ScopeFifo { base: ScopeBase::new(self.registry.clone()) };
        s.base.complete(|| op(&s))
    }
    pub fn spawn<OP: FnOnce() + Send + 'static>(&self, op: OP) {
        spawn_in(op, &self.registry, false)
    }
    pub fn spawn_fifo<OP: FnOnce() + Send + 'static>(&self, op: OP) {
        spawn_in(op, &self.registry, true)
    }
    pub fn spawn_broadcast<OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static>(&self, op: OP) {
        spawn_broadcast_in(op, &self.registry)
    }
    pub fn yield_now(&self) -> Option<Yield> {
        self.registry.current_thread().map(do_yield)
    }
    pub fn yield_local(&self) -> Option<Yield> {
        self.registry.current_thread().map(do_yield_local)
    }
}

// ------------------------------------------------------------------ free functions
pub fn max_num_threads() -> usize {
    // the simulator's cap; rayon's own is 2^16 - 1
    64
}
pub fn current_num_threads() -> usize {
    match WorkerThread::current() {
        Some(w) => w.reg.n,
        None => global_registry().n,
    }
}
pub fn current_thread_index() -> Option<usize> {
    WorkerThread::current().map(|w| w.index)
}
pub fn current_thread_has_pending_tasks() -> Option<bool> {
    WorkerThread::current().map(|w| !w.sh().deques[w.index].is_empty())
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Yield {
    Executed,
    Idle,
}
fn do_yield(w: &WorkerThread) -> Yield {
    match w.find_work() {
        Some(j) => {
            w.execute(j);
            Yield::Executed
        },
        None => Yield::Idle,
    }
}
fn do_yield_local(w: &WorkerThread) -> Yield {
    match w.take_local() {
        Some(j) => {
            w.execute(j);
            Yield::Executed
        },
        None => Yield::Idle,
    }
}
pub fn yield_now() -> Option<Yield> {
    simcore::yield_strong();
    WorkerThread::current().map(do_yield)
}
pub fn yield_local() -> Option<Yield> {
    WorkerThread::current().map(do_yield_local)
}

pub fn spawn<F: FnOnce() + Send + 'static>(f: F) {
    spawn_in(f, &Registry::current(), false)
}
pub fn spawn_fifo<F: FnOnce() + Send + 'static>(f: F) {
    spawn_in(f, &Registry::current(), true)
}
fn spawn_in<F: FnOnce() + Send + 'static>(f: F, reg: &Arc<Registry>, fifo: bool) {
    reg.increment_terminate_count();
    let r2 = reg.clone();
    let j = HeapJob::into_ref(move || {
        r2.catch(f);
        r2.terminate();
    });
    match reg.current_thread() {
        Some(w) if fifo => w.push_fifo(j),
        _ => reg.inject_or_push(j),
    }
}

#[derive(Debug)]
pub struct FnContext {
    migrated: bool,
    _m: PhantomData<*mut ()>,
}
impl FnContext {
    fn new(migrated: bool) -> Self {
        FnContext { migrated, _m: PhantomData }
    }
    pub fn migrated(&self) -> bool {
        self.migrated
    }
}

pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    join_context(|_| a(), |_| b())
}

pub fn join_context<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    in_worker(|w, injected| unsafe {
        let job_b = StackJob::new(move |m| b(FnContext::new(m)), Notify::Key(w.reg.key()));
        let ref_b = job_b.job_ref();
        w.push(ref_b);
        let ra = match catch_unwind(AssertUnwindSafe(|| a(FnContext::new(injected)))) {
            Ok(r) => r,
            Err(e) => {
                w.wait_until(|| job_b.done.get());
                race::join(job_b.tok.get());
                resume_unwind(e)
            },
        };
        while !job_b.done.get() {
            simcore::yield_strong();
            if let Some(j) = w.take_local() {
                if j.id() == ref_b.id() {
                    let rb = job_b.run_inline(injected);
                    return (ra, rb);
                }
                w.execute(j);
            } else {
                w.wait_until(|| job_b.done.get());
                break;
            }
        }
        (ra, job_b.into_result())
    })
}

// ------------------------------------------------------------------ scope
struct ScopeBase<'scope> {
    registry: Arc<Registry>,
    panic: RefCell<Option<Box<dyn Any + Send>>>,
    count: Cell<usize>,
    /// what the scope's tasks have done
    tok: Cell<Tok>,
    marker: PhantomData<Box<dyn FnOnce(&Scope<'scope>) + Send + Sync + 'scope>>,
}
unsafe impl Sync for ScopeBase<'_> {}
unsafe impl Send for ScopeBase<'_> {}
pub struct Scope<'scope> {
    base: ScopeBase<'scope>,
}
pub struct ScopeFifo<'scope> {
    base: ScopeBase<'scope>,
}
struct Ptr<T>(*const T);
unsafe impl<T> Send for Ptr<T> {}
unsafe impl<T> Sync for Ptr<T> {}
impl<T> Ptr<T> {
    unsafe fn get(&self) -> &T {
        &*self.0
    }
}

impl<'scope> ScopeBase<'scope> {
    fn new(registry: Arc<Registry>) -> Self {
        ScopeBase { registry, panic: RefCell::new(None), count: Cell::new(1), tok: Cell::new(race::NO_TOK), marker: PhantomData }
    }
    fn key(&self) -> usize {
        &self.count as *const _ as usize
    }
    fn dec(&self) {
        self.count.set(self.count.get() - 1);
        if self.count.get() == 0 {
            simcore::wake(self.key(), usize::MAX);
            // a worker waits on its registry's key
            simcore::wake(self.registry.key(), usize::MAX);
            if let Some(k) = self.owner_key() {
                simcore::wake(k, usize::MAX);
            }
        }
    }
    fn owner_key(&self) -> Option<usize> {
        None
    }
    fn run<R>(&self, f: impl FnOnce() -> R) -> Option<R> {
        let r = match catch_unwind(AssertUnwindSafe(f)) {
            Ok(r) => Some(r),
            Err(e) => {
                let mut p = self.panic.borrow_mut();
                if p.is_none() {
                    *p = Some(e);
                }
                None
            },
        };
        self.tok.set(race::merge(self.tok.get(), race::fork()));
        self.dec();
        r
    }
    fn complete<R>(&self, f: impl FnOnce() -> R) -> R {
        let r = self.run(f);
        match WorkerThread::current() {
            Some(w) if w.reg.id == self.registry.id => w.wait_until(|| self.count.get() == 0),
            Some(w) => {
                // owner belongs to another pool: poll its own pool's work, woken through the scope key
                while self.count.get() != 0 {
                    match w.find_work() {
                        Some(j) => w.execute(j),
                        None if self.count.get() != 0 => simcore::wait_on(self.key()),
                        None => {},
                    }
                }
            },
            None => {
                while self.count.get() != 0 {
                    simcore::wait_on(self.key());
                }
            },
        }
        race::join(self.tok.replace(race::NO_TOK));
        if let Some(e) = self.panic.borrow_mut().take() {
            resume_unwind(e);
        }
        r.unwrap()
    }
    unsafe fn broadcast_job<F: Fn() + Send + Sync>(&self, f: F) {
        let n = self.registry.n;
        self.count.set(self.count.get() + n);
        let p = Ptr(self as *const Self);
        let job = race::untracked(|| Arc::new(ArcJob { f: move || { p.get().run(|| f()); }, tok: Cell::new(race::NO_TOK) }));
        let refs = (0..n).map(|_| ArcJob::as_ref(&job)).collect();
        self.registry.inject_broadcast(refs);
    }
}
impl<'scope> Scope<'scope> {
    pub fn spawn<BODY>(&self, body: BODY)
    where
        BODY: FnOnce(&Scope<'scope>) + Send + 'scope,
    {
        let p = Ptr(self as *const Self);
        self.base.count.set(self.base.count.get() + 1);
        let j = HeapJob::into_ref(move || unsafe {
            let s = p.get();
            s.base.run(|| body(s));
        });
        self.base.registry.inject_or_push(j);
    }
    pub fn spawn_broadcast<BODY>(&self, body: BODY)
    where
        BODY: Fn(&Scope<'scope>, BroadcastContext<'_>) + Send + Sync + 'scope,
    {
        let p = Ptr(self as *const Self);
        unsafe { self.base.broadcast_job(move || BroadcastContext::with(|c| body(p.get(), c))) }
    }
}
impl<'scope> ScopeFifo<'scope> {
    pub fn spawn_fifo<BODY>(&self, body: BODY)
    where
        BODY: FnOnce(&ScopeFifo<'scope>) + Send + 'scope,
    {
        let p = Ptr(self as *const Self);
        self.base.count.set(self.base.count.get() + 1);
        let j = HeapJob::into_ref(move || unsafe {
            let s = p.get();
            s.base.run(|| body(s));
        });
        match self.base.registry.current_thread() {
            Some(w) => w.push_fifo(j),
            None => self.base.registry.inject(j),
        }
    }
    pub fn spawn_broadcast<BODY>(&self, body: BODY)
    where
        BODY: Fn(&ScopeFifo<'scope>, BroadcastContext<'_>) + Send + Sync + 'scope,
    {
        let p = Ptr(self as *const Self);
        unsafe { self.base.broadcast_job(move || BroadcastContext::with(|c| body(p.get(), c))) }
    }
}
impl fmt::Debug for Scope<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("Scope").field("pool_id", &self.base.registry.id).finish()
    }
}
impl fmt::Debug for ScopeFifo<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("ScopeFifo").field("pool_id", &self.base.registry.id).finish()
    }
}

pub fn scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R + Send,
    R: Send,
{
    in_worker(|w, _| {
        let s = Scope { base: ScopeBase::new(w.reg.clone()) };
        s.base.complete(|| op(&s))
    })
}
pub fn scope_fifo<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&ScopeFifo<'scope>) -> R + Send,
    R: Send,
{
    in_worker(|w, _| {
        let s = ScopeFifo { base: ScopeBase::new(w.reg.clone()) };
        s.base.complete(|| op(&s))
    })
}
pub fn in_place_scope<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&Scope<'scope>) -> R,
{
    let s = Scope { base: ScopeBase::new(Registry::current()) };
    s.base.complete(|| op(&s))
}
pub fn in_place_scope_fifo<'scope, OP, R>(op: OP) -> R
where
    OP: FnOnce(&ScopeFifo<'scope>) -> R,
{
    let s = ScopeFifo { base: ScopeBase::new(Registry::current()) };
    s.base.complete(|| op(&s))
}

// ------------------------------------------------------------------ broadcast
pub struct BroadcastContext<'a> {
    worker: &'a WorkerThread,
    _m: PhantomData<&'a mut dyn Fn()>,
}
impl BroadcastContext<'_> {
    fn with<R>(f: impl FnOnce(BroadcastContext<'_>) -> R) -> R {
        let w = WorkerThread::current().expect("rayon-sim: broadcast outside a worker");
        f(BroadcastContext { worker: w, _m: PhantomData })
    }
    pub fn index(&self) -> usize {
        self.worker.index
    }
    pub fn num_threads(&self) -> usize {
        self.worker.reg.n
    }
}
impl fmt::Debug for BroadcastContext<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("BroadcastContext").field("index", &self.index()).finish()
    }
}
pub fn broadcast<OP, R>(op: OP) -> Vec<R>
where
    OP: Fn(BroadcastContext<'_>) -> R + Sync,
    R: Send,
{
    broadcast_in(op, &Registry::current())
}
pub fn spawn_broadcast<OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static>(op: OP) {
    spawn_broadcast_in(op, &Registry::current())
}
fn broadcast_in<OP, R>(op: OP, reg: &Arc<Registry>) -> Vec<R>
where
    OP: Fn(BroadcastContext<'_>) -> R + Sync,
    R: Send,
{
    let key = &op as *const _ as usize | 1;
    let f = |_m: bool| BroadcastContext::with(&op);
    let cur = WorkerThread::current();
    let notify = match cur {
        Some(w) => Notify::Key(w.reg.key()),
        None => Notify::Key(key),
    };
    let jobs: Vec<_> = (0..reg.n).map(|_| StackJob::new(&f, notify)).collect();
    reg.inject_broadcast(jobs.iter().map(|j| j.job_ref()).collect());
    match cur {
        Some(w) => w.wait_until(|| jobs.iter().all(|j| j.done.get())),
        None => {
            while !jobs.iter().all(|j| j.done.get()) {
                simcore::wait_on(key);
            }
        },
    }
    jobs.into_iter().map(|j| unsafe { j.into_result() }).collect()
}
fn spawn_broadcast_in<OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static>(op: OP, reg: &Arc<Registry>) {
    let r2 = reg.clone();
    let job = race::untracked(|| Arc::new(ArcJob {
        f: move || {
            r2.catch(|| BroadcastContext::with(&op));
            r2.terminate();
        },
        tok: Cell::new(race::NO_TOK),
    }));
    for _ in 0..reg.n {
        reg.increment_terminate_count();
    }
    reg.inject_broadcast((0..reg.n).map(|_| ArcJob::as_ref(&job)).collect());
}
