//! C12: settings of the external BLAS library. Every device that delegates to one runs its operations against the
//! simulated thread-control routines; the compute routines are the real ones of OpenBLAS.
use crate::blas::{self, Lib, Settings};
use crate::fw::*;
use std::collections::BTreeMap;

/// what the operations in flight are entitled to
pub struct Mon {
    /// settings made by the threads before their operations
    pub expect: Settings,
    pub inflight: usize,
    /// per thread: the thread numbers of the devices of the operations it is in, innermost last
    pub limit: BTreeMap<usize, Vec<usize>>,
    pub overlap: bool,
}
static mut MON: Option<Mon> = None;
pub fn mon() -> &'static mut Mon {
    unsafe { MON.as_mut().unwrap() }
}
fn show(s: &Settings) -> String {
    let l: Vec<String> = s.local.iter().filter(|x| *x.1 > 0).map(|(k, v)| format!("thread {k}: {v}")).collect();
    format!("process-wide {}, service {}, per thread [{}]", s.global, s.service, l.join(", "))
}
/// settings as every thread sees them
fn same(lib: Lib, a: &Settings, b: &Settings) -> bool {
    let keys: std::collections::BTreeSet<usize> = a.local.keys().chain(b.local.keys()).copied().collect();
    let own = |s: &Settings, k: usize| s.local.get(&k).copied().unwrap_or(0);
    let eff = |s: &Settings, k: usize| match own(s, k) {
        0 => s.global,
        v => v,
    };
    a.global == b.global
        && a.service == b.service
        && keys.iter().all(|&k| match lib {
            // a thread's number is all there is to see
            Lib::OpenBlasOmp | Lib::Aocl => eff(a, k) == eff(b, k),
            // an override that was not there before hides later changes of the process-wide number
            _ => own(a, k) == own(b, k),
        })
}
pub fn check_settings(when: &str) {
    simcore::quiet(|| {
        let s = blas::state();
        if !same(s.lib, &s.set, &mon().expect) {
            let (now, want) = (show(&s.set), show(&mon().expect));
            fail!("settings-changed", "{:?}: {when}, no operation in flight: settings are {now}; before the operations they were {want}", s.lib);
        }
    })
}
/// an operation on a device of `nt` threads, from begin to end
pub struct Op;
impl Op {
    pub fn begin(nt: usize) -> Op {
        simcore::quiet(|| {
            let m = mon();
            m.inflight += 1;
            m.overlap |= m.inflight > 1;
            m.limit.entry(simcore::current_fiber()).or_default().push(nt);
        });
        Op
    }
}
impl Drop for Op {
    fn drop(&mut self) {
        simcore::quiet(|| {
            let m = mon();
            m.inflight -= 1;
            m.limit.get_mut(&simcore::current_fiber()).unwrap().pop();
            if m.inflight == 0 {
                check_settings("after an operation");
            }
        })
    }
}
fn on_compute(name: &str, eff: i32) {
    simcore::quiet(|| {
        let m = mon();
        let worker = simcore::current_kind() == simcore::Kind::Worker;
        if worker {
            probe("library call from a worker");
            if eff != 1 {
                fail!("nested-threads", "{:?}: {name} called from a parallel region with {eff} library threads", blas::state().lib);
            }
            return;
        }
        if let Some(&n) = m.limit.get(&simcore::current_fiber()).and_then(|v| v.last()) {
            probe("library call from a caller");
            if eff as usize > n {
                fail!("too-many-threads", "{:?}: {name} would use {eff} library threads on a device of {n} threads", blas::state().lib);
            }
        }
    })
}
/// the calling thread makes its own setting, where the library has such a thing
pub fn own_setting() {
    set_own(range(0, 6) as i32)
}
pub fn set_own(v: i32) {
    let s = blas::state();
    if v > 0 && matches!(s.lib, Lib::OpenBlasOmp | Lib::Aocl | Lib::Mkl) {
        let k = simcore::current_fiber();
        s.set.local.insert(k, v);
        mon().expect.local.insert(k, v);
    }
}
pub fn run() {
    let lib = blas::pick_lib(&[3, 2, 2, 2, 2]);
    let set = Settings { global: range(1, 9) as i32, local: BTreeMap::new(), service: range(1, 9) as i32 };
    desc!("library {lib:?}: {}", show(&set));
    blas::start(lib, set.clone());
    unsafe { MON = Some(Mon { expect: set, inflight: 0, limit: BTreeMap::new(), overlap: false }) };
    blas::state().on_compute = Some(on_compute);
    match lib {
        Lib::OpenBlasThread | Lib::OpenBlasOmp => super::dev_openblas::c12::run(),
        Lib::Mkl => super::dev_mkl::c12::run(),
        Lib::Blis => super::dev_blis::c12::run(),
        Lib::Aocl => super::dev_aocl::c12::run(),
        Lib::Kml => super::dev_kml::c12::run(),
    }
    if mon().overlap {
        probe("operations overlapped");
    }
    if !failed() {
        check_settings("at the end");
    }
    blas::reset();
}
