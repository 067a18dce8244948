//! A guard around an operation: arms one kind of fault, judges how the operation ends.
use super::util::*;
use crate::fw::*;
use rstsr_common::error::Result as RResult;
use simcore::{FaultPlan, F_PANIC};
use std::cell::{Cell, RefCell};

pub type Body = Box<dyn Fn(&Guard)>;
/// how an attempt ended
pub enum Out<R> {
    Done(R),
    Failed,
}
pub struct Guard {
    pub ctx: Ctx,
    pub kind: usize,
    pub at: u64,
    pub burst: u64,
    pub hits: Cell<u64>,
    pub fired: Cell<u64>,
    /// ids of tracked elements created while a failing call was running
    pub during: RefCell<Vec<(usize, usize)>>,
    /// how the last attempt ended: b'v'alue, b'e'rror, b'p'anic
    pub ended: Cell<u8>,
    /// bytes allocated by the failing calls
    pub bytes: Cell<i64>,
}
impl Guard {
    pub fn new(ctx: &Ctx, kind: usize, at: u64, burst: u64) -> Guard {
        Guard { ctx: ctx.clone(), kind, at, burst, hits: Cell::new(0), fired: Cell::new(0), ended: Cell::new(0), during: RefCell::new(vec![]), bytes: Cell::new(0) }
    }
    /// run a fallible operation once, with the fault armed
    pub fn attempt<R>(&self, what: &str, f: impl FnOnce() -> RResult<R>) -> Out<R> {
        let (id0, by0) = (tk_created(), simcore::alloc::requested());
        simcore::sim().faults[self.kind] = FaultPlan { at: self.at, burst: self.burst, hits: self.hits.get(), fired: 0, armed: true, scoped: false };
        let r = call(|| self.ctx.enter(f));
        let p = &mut simcore::sim().faults[self.kind];
        p.armed = false;
        let (hits, fired) = (p.hits, p.fired);
        self.hits.set(hits);
        self.fired.set(self.fired.get() + fired);
        self.ended.set(match &r {
            Ok(Ok(_)) => b'v',
            Ok(Err(_)) => b'e',
            Err(_) => b'p',
        });
        if fired == 0 {
            return match r {
                Ok(Ok(v)) => Out::Done(v),
                Ok(Err(e)) => {
                    fail!("unexpected-failure", "{what} returned an error although nothing was injected: {e:?}");
                    Out::Failed
                },
                Err(e) => {
                    fail!("unexpected-failure", "{what} panicked although nothing was injected: {e}");
                    Out::Failed
                },
            };
        }
        let r = match (r, self.kind) {
            (Ok(Ok(v)), F_PANIC) => {
                fail!("panic-swallowed", "{what} returned a result although an element operation panicked");
                Out::Done(v)
            },
            (Ok(Ok(v)), _) => Out::Done(v),
            (Ok(Err(e)), F_PANIC) => {
                fail!("panic-swallowed", "{what} returned an error instead of passing the panic on: {e:?}");
                Out::Failed
            },
            (Ok(Err(_)), _) => Out::Failed,
            (Err(e), F_PANIC) => {
                if e != "injected" {
                    fail!("other-panic", "{what}: an element operation panicked, but the caller got another panic: {e}");
                }
                Out::Failed
            },
            (Err(_), _) => Out::Failed,
        };
        if matches!(r, Out::Failed) {
            simcore::quiet(|| self.during.borrow_mut().push((id0, tk_created())));
            self.bytes.set(self.bytes.get() + simcore::alloc::requested() - by0);
            // nothing of the failed call may still be running
            retired(true);
            for _ in 0..24 {
                simcore::yield_now();
            }
            retired(false);
        }
        r
    }
    /// an operation on borrowed operands: after a failure the same call, undisturbed, has to succeed
    pub fn op<R>(&self, what: &str, f: &dyn Fn() -> RResult<R>, check: &dyn Fn(R)) {
        match self.attempt(what, || f()) {
            Out::Done(r) => check(r),
            Out::Failed => {
                if !failed() {
                    if let Some(r) = self.ctx.enter(|| must_f(&format!("{what}, repeated after the failure,"), || f())) {
                        check(r);
                    }
                }
            },
        }
    }
    /// an operation consuming operands
    pub fn once<R>(&self, what: &str, f: impl FnOnce() -> RResult<R>, check: &dyn Fn(R)) {
        match self.attempt(what, f) {
            Out::Done(r) => check(r),
            Out::Failed => {},
        }
    }
    /// an in-place operation; false when it failed
    pub fn inplace(&self, what: &str, f: impl FnOnce() -> RResult<()>) -> bool {
        matches!(self.attempt(what, f), Out::Done(_))
    }
}
pub fn target<T: Elem>(what: &str, done: bool, raw: &[T], o: &Opnd<T>, want: &[i64]) {
    if done {
        expect_inplace(what, raw, o, want);
        return;
    }
    // every element old or new, everything else untouched
    simcore::quiet(|| {
        let mut model: Vec<Option<i64>> = vec![None; o.keys.len()];
        for (i, p) in o.spec.positions().into_iter().enumerate() {
            model[p] = Some(want[i]);
        }
        for (i, r) in raw.iter().enumerate() {
            let old = T::mk(o.keys[i] as u64);
            let ok = r.same(&old) || model[i].is_some_and(|n| r.same(&T::mk(n as u64)));
            if !ok {
                let kind = if model[i].is_some() { "torn-target" } else { "outside-touched" };
                fail!(kind, "{what} failed; buffer position {i} holds {}, neither its old value {} nor its new one", r.show(), old.show());
                return;
            }
        }
    })
}

