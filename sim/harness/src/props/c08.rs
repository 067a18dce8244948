//! C08: memory requests that fail.
use super::suite::{self, Body, Guard};
use super::util::*;
use crate::fw::*;
use simcore::F_ALLOC;

pub fn gen_body(ctx: &Ctx) -> Body {
    let b: [&dyn Fn(&Ctx) -> Body; 27] = [
        &suite::yb::vecdot,
        &suite::convert::<Tk>,
        &suite::convert::<f64>,
        &suite::yb::binary,
        &suite::yb::assign_op,
        &suite::yb::unary,
        &suite::yb::map,
        &suite::yb::reduce,
        &suite::yb::matmul,
        &suite::yb::argred,
        &suite::tb::binary,
        &suite::tb::assign_op,
        &suite::tb::map,
        &suite::tb::reduce,
        &suite::tb::tri,
        &suite::copy::<Tk>,
        &suite::join::<Tk>,
        &suite::select::<Tk>,
        &suite::diag::<Tk>,
        &suite::copy::<f64>,
        &suite::join::<f64>,
        &suite::select::<f64>,
        &suite::meshgrid::<f64>,
        &suite::iterate,
        &suite::pack,
        &suite::grids,
        &suite::float_ops,
    ];
    pick(&b)(ctx)
}
pub fn run() {
    unsafe { TK_LEAK_OK = true };
    let ctx = Ctx::gen(true);
    if coin(1, 12) {
        huge(&ctx);
        return;
    }
    let body = if coin(1, 6) { suite::creation(&ctx) } else { gen_body(&ctx) };
    let dry = Guard::new(&ctx, F_ALLOC, 0, 0);
    body(&dry);
    if failed() {
        return;
    }
    let hits = dry.hits.get();
    if hits == 0 {
        probe("no memory request");
        return;
    }
    let at = match weighted(&[6, 1, 1]) {
        0 => 1 + below(hits as usize) as u64,
        1 => 1,
        _ => hits,
    };
    let burst = pick(&[1u64, 1, 1, 2, 1000]);
    desc!("memory request {at} of {hits} fails, {burst} in a row");
    let (t0, b0) = (tk_ids_alive(), simcore::alloc::live());
    let g = Guard::new(&ctx, F_ALLOC, at, burst);
    body(&g);
    if failed() {
        return;
    }
    probe(if g.fired.get() == 0 { "fault not reached" } else { "request failed" });
    leaks(&g, &t0, b0);
    drop_quiet(t0);
    if failed() {
        return;
    }
    let clean = Guard::new(&ctx, F_ALLOC, 0, 0);
    body(&clean);
}
/// elements still alive must have been created by the failing call
fn leaks(g: &Guard, before: &[usize], b0: i64) {
    let by = simcore::alloc::live() - b0;
    let ids = tk_ids_alive();
    simcore::quiet(|| {
        for id in ids {
            if before.binary_search(&id).is_ok() {
                continue;
            }
            if !g.during.borrow().iter().any(|&(lo, hi)| id >= lo && id < hi) {
                fail!("leak", "element #{id}, which existed before the failing call, is never dropped");
                return;
            }
        }
        let slack = 4096;
        if by > g.bytes.get() + slack {
            fail!("leak", "{by} bytes more are in use than before, the failing call had obtained {}", g.bytes.get());
        }
    })
}

/// requests no machine can satisfy, among them those whose size in bytes wraps around
fn huge(ctx: &Ctx) {
    use rstsr_core::prelude::*;
    let n = (1usize << range(48, 62)) + pick(&[0usize, 1, 2, 16, 200, 4096]);
    let k = below(7);
    macro_rules! go {
        ($T:ty) => {{
            let dev = ctx.dev.clone();
            desc!("{} {} of {n} elements", <$T as Elem>::NAME, ["empty", "uninit", "full", "zeros", "ones", "linspace", "eye"][k]);
            let e = 1usize << 31;
            let num = |x: f32| <$T as num::NumCast>::from(x).unwrap();
            let r: Result<Result<usize, _>, String> = call(|| {
                ctx.enter(|| match k {
                    0 => unsafe { rt::empty_f(([n], &dev)).map(|t: Tsr<$T>| t.raw().len()) },
                    1 => rt::uninit_f(([n], &dev)).map(|t: Tensor<std::mem::MaybeUninit<$T>, Dev, IxD>| t.raw().len()),
                    2 => rt::full_f(([n], num(1.0), &dev)).map(|t: Tsr<$T>| t.raw().len()),
                    3 => rt::zeros_f(([n], &dev)).map(|t: Tsr<$T>| t.raw().len()),
                    4 => rt::ones_f(([n], &dev)).map(|t: Tsr<$T>| t.raw().len()),
                    5 => rt::linspace_f((num(0.0), num(1.0), n, &dev)).map(|t: Tensor<$T, Dev, _>| t.raw().len()),
                    _ => rt::eye_f((e, &dev)).map(|t: Tensor<$T, Dev, _>| t.raw().len()),
                })
            });
            match r {
                Ok(Err(_)) => probe("impossible request refused"),
                Ok(Ok(l)) => fail!("impossible-request", "a tensor with a buffer of {l} elements was returned for an impossible request"),
                Err(e) => fail!("exhaustion-panics", "the error-returning form panics on an impossible request: {e}"),
            }
        }};
    }
    match below(3) {
        0 => go!(f64),
        1 => go!(f32),
        _ => go!(num::Complex<f64>),
    }
    // and the device still works
    let body = suite::creation(ctx);
    body(&Guard::new(ctx, F_ALLOC, 0, 0));
}
