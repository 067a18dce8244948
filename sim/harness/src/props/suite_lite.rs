//! A few operations of every family, for the devices on top of a BLAS library.
pub use super::guard::*;
use super::util::*;
use crate::fw::*;
use rstsr_core::prelude::*;

pub fn any_body(_ctx: &Ctx) -> Body {
    let n = match weighted(&[3, 3, 3]) {
        0 => logrange(1, 200),
        1 => logrange(200, 3000),
        _ => 4096 + logrange(0, 900),
    };
    let k = below(6);
    let shape = match k {
        0 | 3 => gen_shape(range(1, 3), n),
        5 => vec![logrange(1, 24), logrange(1, 24)],
        _ => gen_shape(2, n),
    };
    let name = ["sum of two", "sum over all", "sum over one axis", "map", "transposed copy", "matrix product"][k];
    if k == 5 {
        let m = logrange(1, 24);
        let oa = Opnd::<f64>::gen(gen_spec(&shape, false), Vals::Small(9));
        let ob = Opnd::<f64>::gen(gen_spec(&[shape[1], m], false), Vals::Small(9));
        desc!("{name} a[{}] b[{}]", show_spec(&oa.spec), show_spec(&ob.spec));
        return Box::new(move |g| {
            let (x, y) = (oa.logical(), ob.logical());
            let (p, q) = (shape[0], shape[1]);
            let want: Vec<i64> = (0..p * m).map(|i| (0..q).map(|l| x[i / m * q + l] * y[l * m + i % m]).sum()).collect();
            let a = mk(&oa, &g.ctx.dev);
            let b = mk(&ob, &g.ctx.dev);
            g.op(name, &|| rt::matmul_f(&a, &b), &|c: Tsr<f64>| expect_tensor(name, &c, &[p, m], &vals::<f64>(&want)));
            oa.unchanged(a.raw(), "left operand");
            ob.unchanged(b.raw(), "right operand");
        });
    }
    let oa = Opnd::<Y>::gen(gen_spec(&shape, true), Vals::Small(50));
    let ob = Opnd::<Y>::gen(gen_spec(&shape, true), Vals::Small(50));
    desc!("{name} a[{}]", show_spec(&oa.spec));
    Box::new(move |g| {
        let (x, y) = (oa.logical(), ob.logical());
        let a = mk(&oa, &g.ctx.dev);
        let b = mk(&ob, &g.ctx.dev);
        match k {
            0 => {
                let want: Vec<i64> = x.iter().zip(&y).map(|(a, b)| a + b).collect();
                g.op(name, &|| rt::add_f(&a, &b), &|c| expect_tensor(name, &c, &shape, &vals::<Y>(&want)))
            },
            1 => {
                let want: i64 = x.iter().sum();
                g.op(name, &|| rt::sum_all_f(&a), &|v: Y| {
                    if v.0 != want {
                        fail!("wrong-value", "{name}: {} instead of {want}", v.0);
                    }
                })
            },
            2 => {
                let (r, c) = (shape[0], shape[1]);
                let want: Vec<i64> = (0..c).map(|j| (0..r).map(|i| x[i * c + j]).sum()).collect();
                g.op(name, &|| rt::sum_axes_f(&a, 0), &|v: Tsr<Y>| expect_tensor(name, &v, &[c], &vals::<Y>(&want)))
            },
            3 => {
                let want: Vec<i64> = x.iter().map(|a| 3 * a + 1).collect();
                g.op(
                    name,
                    &|| {
                        a.mapv_f(|v: Y| {
                            site();
                            Y(3 * v.0 + 1)
                        })
                    },
                    &|c| expect_tensor(name, &c, &shape, &vals::<Y>(&want)),
                )
            },
            _ => {
                let (r, c) = (shape[0], shape[1]);
                let want: Vec<i64> = (0..r * c).map(|i| x[i % r * c + i / r]).collect();
                g.op(name, &|| a.view().into_reverse_axes().into_contig_f(rstsr_core::prelude_dev::FlagOrder::C), &|v: Tsr<Y>| {
                    expect_tensor(name, &v, &[c, r], &vals::<Y>(&want))
                })
            },
        }
        oa.unchanged(a.raw(), "operand");
        ob.unchanged(b.raw(), "operand");
    })
}
