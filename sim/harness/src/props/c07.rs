//! C07: a panic of an element operation or user function inside a parallel operation.
use super::suite::{self, Body, Guard};
use super::util::*;
use crate::fw::*;
use rstsr_core::prelude::*;
use simcore::F_PANIC;
use std::cell::Cell;
use std::rc::Rc;

pub fn gen_body(ctx: &Ctx) -> Body {
    let y: [&dyn Fn(&Ctx) -> Body; 16] = [
        &suite::yb::vecdot,
        &suite::convert::<Y>,
        &suite::yb::binary,
        &suite::yb::assign_op,
        &suite::yb::unary,
        &suite::yb::map,
        &suite::yb::reduce,
        &suite::yb::matmul,
        &suite::yb::argred,
        &suite::yb::tri,
        &suite::yb::fill,
        &suite::iterate,
        &suite::yb::binary,
        &suite::yb::assign_op,
        &suite::yb::map,
        &suite::yb::reduce,
    ];
    let t: [&dyn Fn(&Ctx) -> Body; 21] = [
        &suite::tb::vecdot,
        &suite::convert::<Tk>,
        &suite::tb::binary,
        &suite::tb::assign_op,
        &suite::tb::unary,
        &suite::tb::map,
        &suite::tb::reduce,
        &suite::tb::matmul,
        &suite::tb::argred,
        &suite::tb::tri,
        &suite::tb::fill,
        &suite::copy::<Tk>,
        &suite::join::<Tk>,
        &suite::select::<Tk>,
        &suite::diag::<Tk>,
        &suite::meshgrid::<Tk>,
        &suite::tb::binary,
        &suite::tb::assign_op,
        &suite::tb::map,
        &suite::tb::reduce,
        &suite::copy::<Tk>,
    ];
    if coin(2, 5) {
        pick(&y)(ctx)
    } else {
        pick(&t)(ctx)
    }
}

/// another caller of the same device, whose results must not suffer
fn bystander(dev: Dev, n: usize, stop: Rc<Cell<bool>>) {
    let a: Tensor<i64, Dev, IxD> = rt::asarray(((0..n as i64).collect::<Vec<i64>>(), &dev)).into_dim();
    let mut rounds = 0;
    while rounds < 1 || (!stop.get() && rounds < 6) {
        rounds += 1;
        let r = call(|| (rt::sum_all_f(&a), rt::add_f(&a, &a)));
        match r {
            Ok((Ok(s), Ok(c))) => {
                if s != (n * (n - 1) / 2) as i64 {
                    fail!("bystander", "another caller's sum is {s} while a panic unwinds elsewhere");
                }
                expect_tensor("another caller's addition", &c, &[n], &(0..n as i64).map(|x| 2 * x).collect::<Vec<_>>());
            },
            Ok((a, b)) => fail!("bystander", "another caller's operation failed: {:?} {:?}", a.err(), b.err()),
            Err(e) => fail!("bystander", "another caller of the device got a panic: {e}"),
        }
        simcore::yield_now();
    }
}

pub fn run() {
    unsafe { TK_LEAK_OK = true };
    let ctx = Ctx::gen(true);
    let body = gen_body(&ctx);
    // where to panic: count the element operations of an undisturbed run first
    let dry = Guard::new(&ctx, F_PANIC, 0, 0);
    body(&dry);
    if failed() {
        return;
    }
    let hits = dry.hits.get();
    if hits == 0 {
        probe("no element operation");
        return;
    }
    let at = match weighted(&[6, 1, 1, 1]) {
        0 => 1 + below(hits as usize) as u64,
        1 => 1,
        2 => hits,
        _ => logrange(1, hits as usize) as u64,
    };
    let burst = pick(&[1u64, 1, 2, 5, 1000]);
    let by = coin(1, 4).then(|| range(600, 5000));
    desc!("panic at element operation {at} of {hits}, {burst} in a row{}", if by.is_some() { ", another caller active" } else { "" });
    let g = Guard::new(&ctx, F_PANIC, at, burst);
    match by {
        None => body(&g),
        Some(n) => {
            probe("bystander");
            let stop = Rc::new(Cell::new(false));
            let (s2, dev) = (stop.clone(), ctx.dev.clone());
            let h = simcore::thread_spawn(move || bystander(dev, n, s2));
            body(&g);
            stop.set(true);
            if h.join().is_err() {
                fail!("escaped", "panic escaped another caller: {}", simcore::sim().last_panic);
            }
        },
    }
    if failed() {
        return;
    }
    if g.fired.get() == 0 {
        probe("fault not reached");
    } else {
        probe("panic contained");
    }
    // the device keeps working
    let clean = Guard::new(&ctx, F_PANIC, 0, 0);
    body(&clean);
}
