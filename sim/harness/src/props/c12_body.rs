//! Operations of C12 on one device.
use super::util::*;
use super::DEVNAME;
use crate::fw::*;
use crate::props::c12::{check_settings, own_setting, Op};
use num::Complex;
use rstsr_blas_traits::prelude_dev::BlasThreadAPI;
use rstsr_common::prelude::IxD;
use rstsr_core::prelude::*;
use rstsr_linalg_traits::prelude::rstsr_funcs as la;
use simcore::{FaultPlan, F_ALLOC, F_PANIC};

fn mat<T: Elem>(dev: &Dev, shape: &[usize], f: &dyn Fn(usize) -> i64) -> (Tsr<T>, Vec<T>) {
    let n = numel(shape);
    let v: Vec<T> = simcore::quiet(|| (0..n).map(|i| T::mk(f(i) as u64)).collect());
    let l = rstsr_common::prelude::Layout::<IxD>::new(shape.to_vec(), c_strides(shape), 0).unwrap();
    (rt::asarray((v.clone(), l, dev)), v)
}
fn c_strides(shape: &[usize]) -> Vec<isize> {
    let mut s = vec![1isize; shape.len()];
    for k in (0..shape.len().saturating_sub(1)).rev() {
        s[k] = s[k + 1] * shape[k + 1] as isize;
    }
    s
}
/// outcome of an operation: what its result must be when it returns
type Step = Box<dyn Fn(&Ctx)>;

/// some operation of the run has a fault planned; it may hit the other callers as well
static mut FAULTS: bool = false;
fn ended<R>(what: &str, faulty: bool, r: Result<rstsr_common::error::Result<R>, String>) -> Option<R> {
    let faulty = faulty || unsafe { FAULTS };
    match r {
        Ok(Ok(v)) => Some(v),
        Ok(Err(e)) => {
            if !faulty {
                fail!("unexpected-failure", "{what} returned an error: {e:?}");
            }
            None
        },
        Err(e) => {
            if !faulty {
                fail!("unexpected-failure", "{what} panicked: {e}");
            }
            None
        },
    }
}
/// arm a fault for one operation
#[derive(Clone, Copy)]
struct Fault {
    kind: usize,
    at: u64,
    burst: u64,
}
fn with_fault<R>(f: Option<Fault>, g: impl FnOnce() -> R) -> R {
    if let Some(x) = f {
        simcore::sim().faults[x.kind] = FaultPlan { at: x.at, burst: x.burst, hits: 0, fired: 0, armed: true, scoped: x.kind == F_ALLOC };
        if x.kind == F_ALLOC {
            simcore::in_scope(true);
        }
    }
    let r = g();
    if let Some(x) = f {
        if x.kind == F_ALLOC {
            simcore::in_scope(false);
        }
        let p = &mut simcore::sim().faults[x.kind];
        p.armed = false;
        if p.fired > 0 {
            probe(if x.kind == F_ALLOC { "memory failed in a delegated operation" } else { "panic in a delegated operation" });
        }
    }
    r
}

/// for the checks: no preemption, and faults planned by other callers do not hit
fn no_faults<R>(f: impl FnOnce() -> R) -> R {
    simcore::quiet(|| {
        let p = &mut simcore::sim().faults[F_PANIC].armed;
        let was = std::mem::replace(p, false);
        let r = f();
        simcore::sim().faults[F_PANIC].armed = was;
        r
    })
}
trait Num: Elem + num::Zero + num::One + PartialEq + std::ops::Mul<Output = Self> + std::ops::Add<Output = Self> {}
impl<T: Elem + num::Zero + num::One + PartialEq + std::ops::Mul<Output = T> + std::ops::Add<Output = T>> Num for T {}

macro_rules! product {
    ($T:ty, $ctx:expr, $fault:expr, $sa:expr, $sb:expr, $what:expr, $want:expr) => {{
        let (ctx, fault) = ($ctx, $fault);
        let (sa, sb): (Vec<usize>, Vec<usize>) = ($sa, $sb);
        let what: String = $what;
        let (a, va) = mat::<$T>(&ctx.dev, &sa, &|i| (i % 7) as i64);
        let (b, vb) = mat::<$T>(&ctx.dev, &sb, &|i| (i % 5) as i64);
        let r = {
            let _op = Op::begin(ctx.nt);
            with_fault(fault, || call(|| ctx.enter(|| rt::matmul_f(&a, &b))))
        };
        if let Some(c) = ended(&what, fault.is_some(), r) {
            let (shape, want): (Vec<usize>, Vec<$T>) = no_faults(|| ($want)(&sa, &sb, &va, &vb));
            expect_tensor(&what, &c, &shape, &want);
        }
    }};
}
fn dot<T: Num>(m: usize, n: usize, k: usize, a: &[T], b: &[T]) -> Vec<T> {
    let mut v = Vec::with_capacity(m * n);
    for i in 0..m {
        for j in 0..n {
            let mut s = T::zero();
            for p in 0..k {
                s = s + a[i * k + p].clone() * b[p * n + j].clone();
            }
            v.push(s);
        }
    }
    v
}
fn model<T: Num>(sa: &[usize], sb: &[usize], va: &[T], vb: &[T]) -> (Vec<usize>, Vec<T>) {
    if sa.len() == 1 {
        return (vec![], dot(1, 1, sa[0], va, vb));
    }
    let (m, k, n) = (sa[sa.len() - 2], sa[sa.len() - 1], sb[sb.len() - 1]);
    let rest = &sa[..sa.len() - 2];
    let mut v = vec![];
    for q in 0..numel(rest) {
        let b0 = if sb.len() == 2 { 0 } else { q * k * n };
        v.extend(dot(m, n, k, &va[q * m * k..], &vb[b0..]));
    }
    ([rest, &[m, n]].concat(), v)
}

fn step(ctx: &Ctx) -> Step {
    let dim = || range(1, 6);
    let faulty = coin(1, 4);
    unsafe { FAULTS |= faulty };
    let what = weighted(&[4, 8, 3, 4, 3, 8, 2, 3]);
    match what {
        // products: plain, batched on both sides of the outer-parallel switch, element types without library routine
        0..=4 => {
            let (m, k, n) = (dim(), dim(), dim());
            let ty = if what == 3 { 4 } else { below(5) };
            let (sa, sb) = match what {
                0 => (vec![m, k], vec![k, n]),
                4 => {
                    let k = logrange(1, 700);
                    (vec![k], vec![k])
                },
                _ => {
                    let q = match below(3) {
                        0 => 4 * ctx.nt + below(4),
                        1 => (4 * ctx.nt).saturating_sub(range(1, 4)).max(1),
                        _ => range(1, 6),
                    };
                    (vec![q, m, k], if coin(1, 2) { vec![q, k, n] } else { vec![k, n] })
                },
            };
            let fault = if !faulty {
                None
            } else if ty == 4 && coin(3, 4) {
                let t = numel(&sa) * sb[sb.len() - 1];
                Some(Fault { kind: F_PANIC, at: logrange(1, t.max(1)) as u64, burst: 1 })
            } else {
                Some(Fault { kind: F_ALLOC, at: range(1, 8) as u64, burst: pick(&[1u64, 1, 1_000_000]) })
            };
            let tn = ["f64", "f32", "c64", "c32", "user type"][ty];
            desc!(
                "  {DEVNAME} product of {sa:?} and {sb:?} of {tn}{}",
                match fault {
                    None => String::new(),
                    Some(f) => format!(", {} {} fails", if f.kind == F_PANIC { "element operation" } else { "memory request" }, f.at),
                }
            );
            let w = format!("product of {sa:?} and {sb:?} of {tn}");
            Box::new(move |ctx| match ty {
                0 => product!(f64, ctx, fault, sa.clone(), sb.clone(), w.clone(), model),
                1 => product!(f32, ctx, fault, sa.clone(), sb.clone(), w.clone(), model),
                2 => product!(Complex<f64>, ctx, fault, sa.clone(), sb.clone(), w.clone(), model),
                3 => product!(Complex<f32>, ctx, fault, sa.clone(), sb.clone(), w.clone(), model),
                _ => product!(Y, ctx, fault, sa.clone(), sb.clone(), w.clone(), model),
            })
        },
        // linear algebra, with and without a solution
        5 => {
            let n = range(1, 9);
            let bad = coin(1, 3);
            let f = below(11);
            let fault = if faulty { Some(Fault { kind: F_ALLOC, at: range(1, 12) as u64, burst: pick(&[1u64, 1, 1_000_000]) }) } else { None };
            let name = ["cholesky", "inv", "det", "eigh", "eigvalsh", "svd", "svdvals", "solve_general", "solve_symmetric", "solve_triangular", "pinv"][f];
            desc!("  {DEVNAME} {name} of order {n}{}{}", if bad { ", no solution" } else { "" }, if let Some(x) = fault { format!(", memory request {} fails", x.at) } else { String::new() });
            Box::new(move |ctx| {
                // diagonally dominant and symmetric; or indefinite and singular
                let mk = |i: usize| -> f64 {
                    let (r, c) = (i / n, i % n);
                    if bad {
                        if r == c { 0.0 } else { 0.0 }
                    } else if r == c {
                        20.0 + r as f64
                    } else {
                        1.0 / (1.0 + (r + c) as f64)
                    }
                };
                let v: Vec<f64> = (0..n * n).map(mk).collect();
                let a: Tsr<f64> = rt::asarray((v, rstsr_common::prelude::Layout::<IxD>::new(vec![n, n], vec![n as isize, 1], 0).unwrap(), &ctx.dev));
                let b: Tsr<f64> = rt::asarray((vec![1.0f64; n], rstsr_common::prelude::Layout::<IxD>::new(vec![n], vec![1], 0).unwrap(), &ctx.dev));
                let a2 = a.view().into_dim::<rstsr_common::prelude::Ix2>();
                let b2 = b.view().into_dim::<rstsr_common::prelude::Ix1>();
                let _ = (&a2, &b2);
                let r = {
                    let _op = Op::begin(ctx.nt);
                    with_fault(fault, || {
                        call(|| {
                            ctx.enter(|| match f {
                                0 => la::cholesky_f(a2.view()).map(|_| ()),
                                1 => la::inv_f(a2.view()).map(|_| ()),
                                2 => la::det_f(a2.view()).map(|_| ()),
                                3 => la::eigh_f(a2.view()).map(|_| ()),
                                4 => la::eigvalsh_f(a2.view()).map(|_| ()),
                                5 => la::svd_f(a2.view()).map(|_| ()),
                                6 => la::svdvals_f(a2.view()).map(|_| ()),
                                7 => la::solve_general_f((a2.view(), b2.view())).map(|_| ()),
                                8 => la::solve_symmetric_f((a2.view(), b2.view())).map(|_| ()),
                                9 => la::solve_triangular_f((a2.view(), b2.view())).map(|_| ()),
                                _ => la::pinv_f(a2.view()).map(|_| ()),
                            })
                        })
                    })
                };
                if matches!(r, Ok(Err(_))) {
                    probe("library routine failed");
                }
                ended(&format!("{name} of order {n}"), fault.is_some() || bad, r);
            })
        },
        // operands that do not fit
        6 => {
            let (m, k) = (dim(), dim());
            desc!("  {DEVNAME} product of shapes that do not fit");
            Box::new(move |ctx| {
                let (a, _) = mat::<f64>(&ctx.dev, &[m, k], &|i| i as i64);
                let (b, _) = mat::<f64>(&ctx.dev, &[k + 1, m], &|i| i as i64);
                let _op = Op::begin(ctx.nt);
                let _ = call(|| ctx.enter(|| rt::matmul_f(&a, &b).is_ok()));
            })
        },
        // the scoped setting of the device itself
        _ => {
            let (p, q) = (range(1, 8), range(1, 8));
            let panics = faulty;
            let inner = coin(1, 2);
            desc!("  {DEVNAME} with_blas_num_threads({p}){}{}", if inner { format!(" around with_blas_num_threads({q})") } else { String::new() }, if panics { ", panics" } else { "" });
            Box::new(move |ctx| {
                let _op = Op::begin(usize::MAX);
                let body = || {
                    ctx.enter(|| {
                        ctx.dev.with_blas_num_threads(p, || {
                            simcore::yield_strong();
                            see(ctx, p);
                            if inner {
                                ctx.dev.with_blas_num_threads(q, || {
                                    simcore::yield_strong();
                                    see(ctx, q);
                                });
                                see(ctx, p);
                            }
                            simcore::yield_strong();
                            if panics {
                                std::panic::panic_any(Injected);
                            }
                        })
                    })
                };
                match call(body) {
                    Ok(()) if panics => fail!("panic-swallowed", "with_blas_num_threads returned although its closure panicked"),
                    Err(e) if !panics && !unsafe { FAULTS } => fail!("unexpected-failure", "with_blas_num_threads panicked: {e}"),
                    _ => {},
                }
            })
        },
    }
}
/// inside a scope for `n` threads no call would use more
fn see(ctx: &Ctx, n: usize) {
    let e = crate::blas::state().effective("cblas_");
    if e as usize > n {
        fail!("too-many-threads", "inside with_blas_num_threads({n}) a library call would use {e} threads");
    }
    let _ = ctx;
}

pub fn run() {
    unsafe { FAULTS = false };
    let ctx = Ctx::gen(false);
    let k = pick(&[1usize, 2, 2, 3]);
    let mut plans = vec![];
    for t in 0..k {
        // a device of its own, or a clone of the first one
        let c = if t > 0 && coin(1, 2) { Ctx::gen(false) } else { ctx.clone() };
        let mut c = c;
        if t > 0 && coin(1, 2) && (c.mode != Mode::OtherPool) {
            c.mode = pick(&[Mode::Plain, Mode::OwnPool, Mode::GlobalPool]);
        }
        desc!("caller {t}: {} threads, {:?}", c.nt, c.mode);
        let n = range(1, 3);
        let steps: Vec<Step> = (0..n).map(|_| step(&c)).collect();
        plans.push((c, steps));
    }
    let go = |c: &Ctx, s: &Vec<Step>| {
        for x in s {
            if failed() {
                return;
            }
            x(c);
        }
    };
    if k == 1 {
        own_setting();
        go(&plans[0].0, &plans[0].1);
        return;
    }
    let hs: Vec<_> = plans
        .into_iter()
        .map(|(c, s)| {
            let v = range(0, 6) as i32;
            simcore::thread_spawn(move || {
                set_own(v);
                for x in &s {
                    if failed() {
                        return;
                    }
                    x(&c);
                }
            })
        })
        .collect();
    for h in hs {
        if h.join().is_err() {
            fail!("escaped", "panic escaped a caller: {}", simcore::sim().last_panic);
        }
    }
    check_settings("after all callers");
}
fn set_own(v: i32) {
    crate::props::c12::set_own(v)
}
