//! C09: stale memory and ownership of elements.
use rstsr_core::prelude::*;
use super::suite::{self, Body, Guard};
use super::util::*;
use crate::fw::*;
use simcore::F_PANIC;

pub fn gen_body(ctx: &Ctx) -> Body {
    let b: [&dyn Fn(&Ctx) -> Body; 29] = [
        &suite::yb::vecdot,
        &suite::tb::vecdot,
        &suite::convert::<Tk>,
        &suite::convert::<f64>,
        &suite::yb::binary,
        &suite::yb::map,
        &suite::yb::reduce,
        &suite::yb::matmul,
        &suite::tb::binary,
        &suite::tb::assign_op,
        &suite::tb::unary,
        &suite::tb::map,
        &suite::tb::reduce,
        &suite::tb::matmul,
        &suite::tb::argred,
        &suite::tb::tri,
        &suite::tb::fill,
        &suite::copy::<Tk>,
        &suite::join::<Tk>,
        &suite::select::<Tk>,
        &suite::diag::<Tk>,
        &suite::meshgrid::<Tk>,
        &suite::copy::<f64>,
        &suite::join::<f64>,
        &suite::select::<f64>,
        &suite::diag::<f64>,
        &suite::pack,
        &suite::grids,
        &suite::float_ops,
    ];
    pick(&b)(ctx)
}
/// writing into a tensor that already holds elements: the old elements are dropped, the new ones are
/// owned by the output
pub fn live_output(ctx: &Ctx) -> Body {
    let shape = gen_shape(range(0, 3), logrange(1, 300));
    let k = below(6);
    let oc = suite::opnd::<Tk>(&shape, false, Vals::Small(9));
    let oa = suite::opnd::<Tk>(&gen_bshape(&shape, ctx.col), true, Vals::Small(9));
    let ob = suite::opnd::<Tk>(&gen_bshape(&shape, ctx.col), true, Vals::Small(9));
    let name = ["add_with_output", "sub_with_output", "mul_with_output", "assign", "fill", "mapv in place"][k];
    desc!("{name} into a tensor holding elements c[{}] a[{}] b[{}]", show_spec(&oc.spec), show_spec(&oa.spec), show_spec(&ob.spec));
    let ctx = ctx.clone();
    Box::new(move |_| {
        let (x, y) = (oa.blogical(&shape, ctx.col), ob.blogical(&shape, ctx.col));
        let want: Vec<i64> = x
            .iter()
            .zip(&y)
            .zip(oc.logical())
            .map(|((&x, &y), z)| match k {
                0 => x + y,
                1 => x - y,
                2 => x * y,
                3 => x,
                4 => 7,
                _ => -z,
            })
            .collect();
        let n = want.len() as i64;
        let live0 = tk_live();
        {
            let a = mk(&oa, &ctx.dev);
            let b = mk(&ob, &ctx.dev);
            let mut c = mk(&oc, &ctx.dev);
            ctx.enter(|| {
                must_f(name, || match k {
                    0 => rt::add_with_output_f(&a, &b, &mut c),
                    1 => rt::sub_with_output_f(&a, &b, &mut c),
                    2 => rt::mul_with_output_f(&a, &b, &mut c),
                    3 => c.assign_f(&a),
                    4 => c.fill_f(Tk::new(7)),
                    _ => c.mapvi_f(|v| -v),
                })
            });
            expect_inplace(name, c.raw(), &oc, &want);
        }
        let left = tk_live() - live0;
        if left == n && n > 0 && k < 3 {
            fail!("live-output-leak", "{name} into a tensor that holds elements: the {n} elements it replaced are never dropped");
        } else if left != 0 {
            fail!("element-leak", "{name} into a tensor that holds elements: {left} elements ({n} in the output) are never dropped");
        }
    })
}
/// the contraction into a tensor that already holds elements
pub fn live_vecdot(_ctx: &Ctx) -> Body {
    let nd = range(0, 2);
    let shape = gen_shape(nd, logrange(1, 100));
    let m = logrange(1, 20);
    let full: Vec<usize> = shape.iter().copied().chain([m]).collect();
    let oc = suite::opnd::<Tk>(&shape, false, Vals::Small(9));
    let oa = suite::opnd::<Tk>(&full, true, Vals::Small(9));
    let ob = suite::opnd::<Tk>(&full, true, Vals::Small(9));
    desc!("vecdot_from into a tensor holding elements c[{}] a[{}] b[{}]", show_spec(&oc.spec), show_spec(&oa.spec), show_spec(&ob.spec));
    Box::new(move |g| {
        let p: Vec<i64> = oa.logical().iter().zip(ob.logical()).map(|(&x, y)| x * y).collect();
        let (_, want) = suite::fold(&full, &p, &[nd], 0, &|a, b| a + b);
        let n = want.len() as i64;
        let live0 = tk_live();
        {
            let a = mk(&oa, &g.ctx.dev);
            let b = mk(&ob, &g.ctx.dev);
            let mut c = mk(&oc, &g.ctx.dev);
            g.ctx.enter(|| must_f("vecdot_from", || rt::vecdot_from_f(c.view_mut(), &a, &b, -1)));
            expect_inplace("vecdot_from", c.raw(), &oc, &want);
        }
        let left = tk_live() - live0;
        if left == n && n > 0 {
            fail!("live-output-leak", "vecdot_from into a tensor that holds elements: the {n} elements it replaced are never dropped");
        } else if left != 0 {
            fail!("element-leak", "vecdot_from into a tensor that holds elements: {left} elements ({n} in the output) are never dropped");
        }
    })
}
/// a copy into a layout that leaves places of its buffer unused
pub fn relayout(_ctx: &Ctx) -> Body {
    let shape = gen_shape(range(1, 3), logrange(1, 300));
    let o = suite::opnd::<Tk>(&shape, true, Vals::Distinct);
    let spec = gen_spec(&shape, false);
    let into = coin(1, 2);
    desc!("{} of [{}] as [{}]", if into { "change_layout" } else { "to_layout" }, show_spec(&o.spec), show_spec(&spec));
    Box::new(move |g| {
        let a = mk(&o, &g.ctx.dev);
        let want = o.logical();
        let r = g.ctx.enter(|| {
            must_f("to_layout", || if into { mk(&o, &g.ctx.dev).change_layout_f(spec.layout()).map(|c| c.into_owned_keep_layout()) } else { a.to_layout_f(spec.layout()).map(|c| c.into_owned_keep_layout()) })
        });
        if let Some(c) = r {
            expect_tensor("to_layout", &c, &shape, &suite::arr::<Tk>(&want));
            let bad = c.raw().iter().filter(|e| !tk_valid(e)).count();
            if bad > 0 {
                let used = spec.positions();
                let places = (0..c.raw().len()).filter(|i| !used.contains(i)).count();
                if bad == places {
                    fail!("gap-uninit", "to_layout into a layout with unused places: the tensor owns the elements of its whole buffer, but the {bad} unused places hold none, and dropping it drops them");
                } else {
                    fail!("element-uninit", "to_layout: {bad} places of the buffer hold no element, {places} are unused by the layout");
                }
                std::mem::forget(c);
            }
        }
    })
}
pub fn run() {
    let ctx = Ctx::gen(true);
    if below(24) == 0 {
        let b: [&dyn Fn(&Ctx) -> Body; 3] = [&live_output, &live_vecdot, &relayout];
        let body = pick(&b)(&ctx);
        body(&Guard::new(&ctx, F_PANIC, 0, 0));
        return;
    }
    let k = pick(&[1usize, 2, 3]);
    for _ in 0..k {
        let body = gen_body(&ctx);
        // a second round meets the memory the first one gave back
        for _ in 0..pick(&[1, 2]) {
            let g = Guard::new(&ctx, F_PANIC, 0, 0);
            body(&g);
            if failed() {
                return;
            }
        }
    }
}
