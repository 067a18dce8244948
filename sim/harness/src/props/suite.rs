//! A suite of operations run under a guard that arms one kind of fault around the operation and judges how it ends.
//! Used by the workloads that inject panics (C07), failing allocations (C08) and poison/ownership checks (C09).
pub use super::guard::*;
use super::util::*;
use crate::fw::*;
use rstsr_common::error::Result as RResult;
use rstsr_core::prelude::*;
use rstsr_core::prelude_dev::{FlagOrder, FlagSymm, FlagUpLo};

pub const THR: &[usize] = &[4096, 1024, 512];

/// any operation of the suite that runs through the device
pub fn any_body(ctx: &Ctx) -> Body {
    let b: [&dyn Fn(&Ctx) -> Body; 30] = [
        &yb::vecdot,
        &tb::vecdot,
        &convert::<Y>,
        &convert::<f64>,
        &yb::binary,
        &yb::assign_op,
        &yb::unary,
        &yb::map,
        &yb::reduce,
        &yb::matmul,
        &yb::argred,
        &yb::tri,
        &yb::fill,
        &tb::binary,
        &tb::map,
        &tb::reduce,
        &tb::matmul,
        &copy::<Y>,
        &copy::<Tk>,
        &copy::<f64>,
        &join::<Y>,
        &join::<f64>,
        &select::<Y>,
        &select::<f64>,
        &diag::<Y>,
        &meshgrid::<Y>,
        &pack,
        &grids,
        &float_ops,
        &float_matmul,
    ];
    pick(&b)(ctx)
}
pub fn arr<T: Elem>(keys: &[i64]) -> Vec<T> {
    vals::<T>(keys)
}
fn shape_of(maxnd: usize, cap: usize) -> Vec<usize> {
    let nd = pick(&[1usize, 2, 3, 2, 4, 0]).min(maxnd);
    let t = match weighted(&[4, 3, 5]) {
        0 => logrange(1, 40),
        1 => logrange(40, 700),
        _ => pick(THR) + logrange(0, 700),
    };
    gen_shape(nd, t.min(cap))
}
fn pair(col: bool, cap: usize) -> (Vec<usize>, Vec<usize>, Vec<usize>) {
    loop {
        let out = shape_of(4, cap);
        let sa = gen_bshape(&out, col);
        let sb = gen_bshape(&out, col);
        let nd = sa.len().max(sb.len());
        let get = |s: &Vec<usize>, k: usize| -> usize {
            if col {
                s.get(k).copied().unwrap_or(1)
            } else {
                let d = nd - s.len();
                if k < d { 1 } else { s[k - d] }
            }
        };
        let sc: Vec<usize> = (0..nd)
            .map(|k| {
                let (x, y) = (get(&sa, k), get(&sb, k));
                if x == 1 { y } else { x }
            })
            .collect();
        if !sc.is_empty() || coin(1, 4) {
            return (sa, sb, sc);
        }
    }
}
pub fn opnd<T: Elem>(shape: &[usize], bc: bool, v: Vals) -> Opnd<T> {
    Opnd::gen(gen_spec(shape, bc), v)
}
const SMALL: Vals = Vals::Small(50);

/// numbers with every arithmetic operation: the two instrumented element types
pub trait Num2: Elem + Default + num::Num + PartialOrd + rstsr_dtype_traits::DTypeCastAPI<Self> {
    fn of(v: i64) -> Self;
    fn n(&self) -> i64;
}
impl Num2 for Y {
    fn of(v: i64) -> Y {
        Y(v)
    }
    fn n(&self) -> i64 {
        self.0
    }
}
impl Num2 for Tk {
    fn of(v: i64) -> Tk {
        Tk::new(v)
    }
    fn n(&self) -> i64 {
        self.get()
    }
}

macro_rules! num_bodies {
    ($m:ident, $T:ty) => {
        pub mod $m {
            use super::*;
            type T = $T;
            pub fn binary(ctx: &Ctx) -> Body {
                let (sa, sb, sc) = pair(ctx.col, 5200);
                let form = below(6);
                let k = below(3);
                let oa = opnd::<T>(&sa, true, SMALL);
                let ob = opnd::<T>(&sb, true, SMALL);
                desc!("{} {} form {form} a[{}] b[{}]", T::NAME, ["add", "sub", "mul"][k], show_spec(&oa.spec), show_spec(&ob.spec));
                Box::new(move |g| {
                    let f = |a: i64, b: i64| match k {
                        0 => a.wrapping_add(b),
                        1 => a.wrapping_sub(b),
                        _ => a.wrapping_mul(b),
                    };
                    let want: Vec<i64> =
                        oa.blogical(&sc, g.ctx.col).iter().zip(ob.blogical(&sc, g.ctx.col)).map(|(&a, b)| f(a, b)).collect();
                    let a = mk(&oa, &g.ctx.dev);
                    let b = mk(&ob, &g.ctx.dev);
                    macro_rules! go {
                        ($x:expr, $y:expr) => {
                            match k {
                                0 => rt::add_f($x, $y),
                                1 => rt::sub_f($x, $y),
                                _ => rt::mul_f($x, $y),
                            }
                        };
                    }
                    let check = |c: Tsr<T>| expect_tensor("binary operation", &c, &sc, &arr::<T>(&want));
                    match form {
                        0 => g.op("binary operation on references", &|| go!(&a, &b), &check),
                        1 => g.op("binary operation on views", &|| go!(a.view(), b.view()), &check),
                        2 => {
                            let x = mk(&oa, &g.ctx.dev);
                            g.once("binary operation on (owned, reference)", || go!(x, &b), &check)
                        },
                        3 => {
                            let y = mk(&ob, &g.ctx.dev);
                            g.once("binary operation on (reference, owned)", || go!(&a, y), &check)
                        },
                        _ => {
                            let x = mk(&oa, &g.ctx.dev);
                            let y = mk(&ob, &g.ctx.dev);
                            g.once("binary operation on (owned, owned)", || go!(x, y), &check)
                        },
                    }
                    oa.unchanged(a.raw(), "left operand");
                    ob.unchanged(b.raw(), "right operand");
                })
            }
            pub fn assign_op(ctx: &Ctx) -> Body {
                let shape = shape_of(4, 5200);
                let oa = opnd::<T>(&shape, false, SMALL);
                let sb = gen_bshape(&shape, ctx.col);
                let ob = opnd::<T>(&sb, true, SMALL);
                let k = below(6);
                desc!("{} op-assign {k} a[{}] b[{}]", T::NAME, show_spec(&oa.spec), show_spec(&ob.spec));
                Box::new(move |g| {
                    let s = 7i64;
                    let x = oa.logical();
                    let y = match k {
                        0 | 1 | 5 => ob.blogical(&shape, g.ctx.col),
                        _ => vec![s; x.len()],
                    };
                    let want: Vec<i64> = x
                        .iter()
                        .zip(&y)
                        .map(|(&a, &b)| match k {
                            0 | 2 => a.wrapping_add(b),
                            1 | 3 => a.wrapping_sub(b),
                            4 => a.wrapping_mul(b),
                            _ => b,
                        })
                        .collect();
                    let mut a = mk(&oa, &g.ctx.dev);
                    let b = mk(&ob, &g.ctx.dev);
                    let sc = T::of(s);
                    let done = g.inplace("in-place operation", || match k {
                        0 => rt::add_assign_f(&mut a, &b),
                        1 => rt::sub_assign_f(&mut a, b.view()),
                        2 => rt::add_assign_f(&mut a, sc),
                        3 => rt::sub_assign_f(&mut a, sc),
                        4 => rt::mul_assign_f(&mut a, sc),
                        _ => a.assign_f(&b),
                    });
                    target("in-place operation", done, a.raw(), &oa, &want);
                    ob.unchanged(b.raw(), "right operand");
                })
            }
            pub fn unary(_ctx: &Ctx) -> Body {
                let shape = shape_of(4, 5200);
                let oa = opnd::<T>(&shape, true, SMALL);
                let k = below(4);
                let form = below(3);
                desc!("{} unary {k} form {form} [{}]", T::NAME, show_spec(&oa.spec));
                Box::new(move |g| {
                    let want: Vec<i64> = oa
                        .logical()
                        .iter()
                        .map(|&a| match k {
                            0 => a.wrapping_neg(),
                            1 => !a,
                            2 => a.wrapping_abs(),
                            _ => a.signum(),
                        })
                        .collect();
                    let a = mk(&oa, &g.ctx.dev);
                    let check = |c: Tsr<T>| expect_tensor("unary operation", &c, &shape, &arr::<T>(&want));
                    macro_rules! go {
                        ($x:expr) => {
                            match k {
                                0 => rt::neg_f($x),
                                1 => rt::not_f($x),
                                2 => rt::abs_f($x),
                                _ => rt::sign_f($x),
                            }
                        };
                    }
                    match form {
                        0 => g.op("unary operation on a reference", &|| go!(&a), &check),
                        1 => g.op("unary operation on a view", &|| go!(a.view()), &check),
                        _ => {
                            let x = mk(&oa, &g.ctx.dev);
                            g.once("unary operation by value", || go!(x), &check)
                        },
                    }
                    oa.unchanged(a.raw(), "operand");
                })
            }
            pub fn map(_ctx: &Ctx) -> Body {
                let shape = shape_of(4, 5200);
                let form = below(4);
                let oa = opnd::<T>(&shape, form < 2, SMALL);
                desc!("{} map form {form} [{}]", T::NAME, show_spec(&oa.spec));
                Box::new(move |g| {
                    let f = |a: i64| a.wrapping_mul(3).wrapping_add(1);
                    let want: Vec<i64> = oa.logical().iter().map(|&a| f(a)).collect();
                    let mut a = mk(&oa, &g.ctx.dev);
                    match form {
                        0 | 1 => {
                            g.op(
                                "map",
                                &|| {
                                    a.map_f(|v: &T| {
                                        site();
                                        T::of(f(v.n()))
                                    })
                                },
                                &|c| expect_tensor("map", &c, &shape, &arr::<T>(&want)),
                            );
                            oa.unchanged(a.raw(), "operand");
                        },
                        _ => {
                            let done = g.inplace("mapi", || {
                                a.mapi_f(|v: &mut T| {
                                    let n = f(v.n());
                                    site();
                                    *v = T::of(n);
                                })
                            });
                            target("mapi", done, a.raw(), &oa, &want);
                        },
                    }
                })
            }
            pub fn reduce(_ctx: &Ctx) -> Body {
                let shape = shape_of(4, 4800);
                let oa = opnd::<T>(&shape, true, Vals::Small(3));
                let (axes, sel) = gen_axes(shape.len());
                let k = below(4);
                let all = coin(1, 3);
                desc!("{} {} over {} [{}]", T::NAME, ["sum", "prod", "min", "max"][k], if all { "all".to_string() } else { format!("{axes:?}") }, show_spec(&oa.spec));
                let sel = if all { (0..shape.len()).collect() } else { sel };
                Box::new(move |g| {
                    let f = |a: i64, b: i64| match k {
                        0 => a.wrapping_add(b),
                        1 => a.wrapping_mul(b),
                        2 => a.min(b),
                        _ => a.max(b),
                    };
                    let init = [0, 1, i64::MAX, i64::MIN][k];
                    let (osh, groups) = fold(&shape, &oa.logical(), &sel, init, &f);
                    let a = mk(&oa, &g.ctx.dev);
                    if all {
                        g.op(
                            "reduction of all elements",
                            &|| match k {
                                0 => rt::sum_all_f(&a),
                                1 => rt::prod_all_f(&a),
                                2 => rt::min_all_f(&a),
                                _ => rt::max_all_f(&a),
                            },
                            &|c| {
                                if c.n() != groups[0] {
                                    fail!("wrong-value", "reduction of all elements: {} expected {}", c.n(), groups[0]);
                                }
                            },
                        );
                    } else {
                        g.op(
                            "reduction over axes",
                            &|| match k {
                                0 => rt::sum_axes_f(&a, axes_arg(&axes)),
                                1 => rt::prod_axes_f(&a, axes_arg(&axes)),
                                2 => rt::min_axes_f(&a, axes_arg(&axes)),
                                _ => rt::max_axes_f(&a, axes_arg(&axes)),
                            },
                            &|c| expect_tensor("reduction over axes", &c, &osh, &arr::<T>(&groups)),
                        );
                    }
                    oa.unchanged(a.raw(), "operand");
                })
            }
            pub fn matmul(ctx: &Ctx) -> Body {
                let _ = ctx;
                let (m, n, k) = (logrange(1, 20), logrange(1, 20), logrange(1, 20));
                let oa = opnd::<T>(&[m, k], false, Vals::Small(9));
                let ob = opnd::<T>(&[k, n], false, Vals::Small(9));
                desc!("{} matmul a[{}] b[{}]", T::NAME, show_spec(&oa.spec), show_spec(&ob.spec));
                Box::new(move |g| {
                    let (x, y) = (oa.logical(), ob.logical());
                    let mut want = vec![0i64; m * n];
                    for i in 0..m {
                        for j in 0..n {
                            for l in 0..k {
                                want[i * n + j] += x[i * k + l] * y[l * n + j];
                            }
                        }
                    }
                    let a = mk(&oa, &g.ctx.dev);
                    let b = mk(&ob, &g.ctx.dev);
                    g.op("matrix product", &|| rt::matmul_f(&a, &b), &|c| expect_tensor("matrix product", &c, &[m, n], &arr::<T>(&want)));
                    oa.unchanged(a.raw(), "left operand");
                    ob.unchanged(b.raw(), "right operand");
                })
            }
            /// contraction over one or two axes
            pub fn vecdot(_ctx: &Ctx) -> Body {
                let mut shape = shape_of(3, 3000);
                if shape.is_empty() {
                    shape.push(5);
                }
                let na = if shape.len() > 1 && coin(1, 3) { 2 } else { 1 };
                let sel: Vec<usize> = if na == 2 { vec![0, shape.len() - 1] } else { vec![below(shape.len())] };
                let oa = opnd::<T>(&shape, true, SMALL);
                let ob = opnd::<T>(&shape, true, SMALL);
                desc!("{} vecdot over {sel:?} a[{}] b[{}]", T::NAME, show_spec(&oa.spec), show_spec(&ob.spec));
                Box::new(move |g| {
                    let p: Vec<i64> = oa.logical().iter().zip(ob.logical()).map(|(&x, y)| x * y).collect();
                    let (osh, w) = fold(&shape, &p, &sel, 0, &|a, b| a + b);
                    let a = mk(&oa, &g.ctx.dev);
                    let b = mk(&ob, &g.ctx.dev);
                    let ax: Vec<isize> = sel.iter().map(|&i| i as isize).collect();
                    g.op("vecdot", &|| rt::vecdot_f(&a, &b, (ax.clone(), ax.clone())), &|c| expect_tensor("vecdot", &c, &osh, &arr::<T>(&w)));
                    oa.unchanged(a.raw(), "left operand");
                    ob.unchanged(b.raw(), "right operand");
                })
            }
            pub fn tri(ctx: &Ctx) -> Body {
                let (m, n) = (logrange(1, 30), logrange(1, 30));
                let bt = logrange(1, 6);
                // the inner matrix is made of the last two axes whatever the device's order
                let _ = ctx;
                let shape = vec![bt, m, n];
                let oa = opnd::<T>(&shape, false, SMALL);
                let lower = coin(1, 2);
                let k = range(0, 6) as isize - 3;
                let own = coin(1, 2);
                desc!("{} {} {k} [{}]", T::NAME, if lower { "tril" } else { "triu" }, show_spec(&oa.spec));
                Box::new(move |g| {
                    let want: Vec<i64> = oa
                        .logical()
                        .iter()
                        .enumerate()
                        .map(|(i, &v)| {
                            let ix = unravel(i, &shape);
                            let (r, c) = (ix[1], ix[2]);
                            let d = c as isize - r as isize;
                            if (lower && d > k) || (!lower && d < k) { 0 } else { v }
                        })
                        .collect();
                    let a = mk(&oa, &g.ctx.dev);
                    if own {
                        let mut x = mk(&oa, &g.ctx.dev);
                        let done = g.inplace("tril/triu in place", || {
                            if lower { rt::tril_f((x.view_mut(), k)).map(|_| ()) } else { rt::triu_f((x.view_mut(), k)).map(|_| ()) }
                        });
                        target("tril/triu in place", done, x.raw(), &oa, &want);
                    } else {
                        g.op(
                            "tril/triu",
                            &|| if lower { rt::tril_f((&a, k)) } else { rt::triu_f((&a, k)) },
                            &|c| expect_tensor("tril/triu", &c, &shape, &arr::<T>(&want)),
                        );
                    }
                    oa.unchanged(a.raw(), "operand");
                })
            }
            pub fn fill(_ctx: &Ctx) -> Body {
                let shape = shape_of(4, 5200);
                let oa = opnd::<T>(&shape, false, SMALL);
                let k = below(4);
                desc!("{} fill/create {k} [{}]", T::NAME, show_spec(&oa.spec));
                Box::new(move |g| {
                    let n = numel(&shape);
                    let dev = g.ctx.dev.clone();
                    match k {
                        0 => {
                            let mut a = mk(&oa, &dev);
                            let v = T::of(9);
                            let done = g.inplace("fill", || a.fill_f(v));
                            target("fill", done, a.raw(), &oa, &vec![9; n]);
                        },
                        1 => g.op("full", &|| rt::full_f((shape.clone(), T::of(5), &dev)), &|c: Tsr<T>| expect_tensor("full", &c, &shape, &arr::<T>(&vec![5; n]))),
                        2 => g.op("zeros", &|| rt::zeros_f((shape.clone(), &dev)), &|c: Tsr<T>| expect_tensor("zeros", &c, &shape, &arr::<T>(&vec![0; n]))),
                        _ => g.op("ones", &|| rt::ones_f((shape.clone(), &dev)), &|c: Tsr<T>| expect_tensor("ones", &c, &shape, &arr::<T>(&vec![1; n]))),
                    }
                })
            }
            pub fn argred(_ctx: &Ctx) -> Body {
                let mut shape = shape_of(3, 3000);
                if shape.is_empty() {
                    shape.push(5);
                }
                let oa = opnd::<T>(&shape, true, Vals::Small(30));
                let max = coin(1, 2);
                desc!("{} {} [{}]", T::NAME, if max { "argmax" } else { "argmin" }, show_spec(&oa.spec));
                Box::new(move |g| {
                    let x = oa.logical();
                    let mut best = 0;
                    for i in 0..x.len() {
                        if (max && x[i] > x[best]) || (!max && x[i] < x[best]) {
                            best = i;
                        }
                    }
                    let want = unravel(best, &shape);
                    let a = mk(&oa, &g.ctx.dev);
                    g.op(
                        "arg-reduction",
                        &|| if max { rt::unraveled_argmax_all_f(&a) } else { rt::unraveled_argmin_all_f(&a) },
                        &|ix| {
                            let ix: Vec<usize> = ix.to_vec();
                            if ix != want {
                                fail!("wrong-value", "arg-reduction: {ix:?}, expected {want:?}");
                            }
                        },
                    );
                    oa.unchanged(a.raw(), "operand");
                })
            }
        }
    };
}
num_bodies!(yb, Y);
num_bodies!(tb, Tk);

/// fold over the selected axes: shape and row-major values of the result
pub fn fold(shape: &[usize], x: &[i64], sel: &[usize], init: i64, f: &dyn Fn(i64, i64) -> i64) -> (Vec<usize>, Vec<i64>) {
    let rest: Vec<usize> = (0..shape.len()).filter(|k| !sel.contains(k)).collect();
    let osh: Vec<usize> = rest.iter().map(|&k| shape[k]).collect();
    let mut w = vec![init; numel(&osh)];
    for (i, &v) in x.iter().enumerate() {
        let ix = unravel(i, shape);
        let jx: Vec<usize> = rest.iter().map(|&k| ix[k]).collect();
        let j = ravel(&jx, &osh);
        w[j] = f(w[j], v);
    }
    (osh, w)
}

fn ord(f: bool) -> FlagOrder {
    if f { FlagOrder::F } else { FlagOrder::C }
}

/// copies and layout changes
pub fn copy<T: Elem + Default + rstsr_dtype_traits::DTypeCastAPI<T>>(_ctx: &Ctx) -> Body {
    let shape = shape_of(4, 17500);
    let o = opnd::<T>(&shape, true, Vals::Distinct);
    let k = below(7);
    let f = coin(1, 2);
    let flat = numel(&shape);
    desc!("{} copy {k} {} [{}]", T::NAME, if f { "F" } else { "C" }, show_spec(&o.spec));
    Box::new(move |g| {
        let want = o.logical();
        let a = mk(&o, &g.ctx.dev);
        let check = |c: Tsr<T>| expect_tensor("copy", &c, &shape, &arr::<T>(&want));
        match k {
            0 => g.op("to_contig", &|| a.to_contig_f(ord(f)).map(|c| c.into_owned()), &check),
            1 => g.op("to_owned", &|| Ok(a.to_owned()), &check),
            2 => {
                let x = mk(&o, &g.ctx.dev);
                g.once("into_contig", || x.into_contig_f(ord(f)), &check)
            },
            3 => {
                let x = mk(&o, &g.ctx.dev);
                g.once("into_prefer", || x.into_prefer_f(ord(f)), &check)
            },
            4 => g.op("into_contig of a transposed view", &|| a.view().into_reverse_axes().into_contig_f(ord(f)).map(|c| c.into_reverse_axes()), &check),
            5 if !g.ctx.col => g.op("reshape", &|| a.reshape_f([flat as isize]).map(|c| c.into_owned()), &|c: Tsr<T>| expect_tensor("reshape", &c, &[flat], &arr::<T>(&want))),
            _ if !g.ctx.col => {
                let x = mk(&o, &g.ctx.dev);
                g.once("into_shape", || x.into_shape_f([flat as isize]), &|c: Tsr<T>| expect_tensor("into_shape", &c, &[flat], &arr::<T>(&want)))
            },
            _ => g.op("clone", &|| Ok(a.clone()), &check),
        }
        o.unchanged(a.raw(), "operand");
    })
}
/// leaving the tensor world: vectors and scalars
pub fn convert<T: Elem + Default>(_ctx: &Ctx) -> Body {
    let shape = vec![match weighted(&[4, 3, 2, 1]) {
        0 => logrange(1, 40),
        1 => logrange(40, 2000),
        2 => 16384 + logrange(0, 700),
        _ => 0,
    }];
    let o = opnd::<T>(&shape, true, Vals::Distinct);
    let k = below(4);
    desc!("{} conversion {k} [{}]", T::NAME, show_spec(&o.spec));
    Box::new(move |g| {
        let want = o.logical();
        let a = mk(&o, &g.ctx.dev);
        let check = |what: &str, v: &[T]| {
            simcore::quiet(|| {
                if v.len() != want.len() {
                    fail!("wrong-length", "{what} of a tensor with {} elements has {} elements", want.len(), v.len());
                } else if let Some(i) = (0..v.len()).find(|&i| !v[i].same(&T::mk(want[i] as u64))) {
                    fail!("wrong-value", "{what}: element {i} is {}, defined as {}", v[i].show(), T::mk(want[i] as u64).show());
                }
            })
        };
        match k {
            0 => g.op("to_vec", &|| a.to_raw_f(), &|v: Vec<T>| check("to_vec", &v)),
            1 => {
                let x = mk(&o, &g.ctx.dev);
                g.once("into_vec", || x.into_vec_f(), &|v: Vec<T>| check("into_vec", &v))
            },
            2 => {
                let x = mk(&o, &g.ctx.dev);
                g.once("into_raw", || x.into_raw_f(), &|v: Vec<T>| check("into_raw", &v))
            },
            _ if !want.is_empty() => {
                let i = want.len() / 2;
                g.op("to_scalar", &|| a.i(i).to_scalar_f(), &|v: T| {
                    if !v.same(&T::mk(want[i] as u64)) {
                        fail!("wrong-value", "to_scalar of element {i} is {}, defined as {}", v.show(), T::mk(want[i] as u64).show());
                    }
                })
            },
            _ => {},
        }
        o.unchanged(a.raw(), "operand");
    })
}
pub fn join<T: Elem + Default>(_ctx: &Ctx) -> Body {
    let mut shape = shape_of(3, 6000);
    if shape.is_empty() {
        shape.push(4);
    }
    let stack = coin(1, 2);
    let axis = below(shape.len() + stack as usize);
    let n = range(1, 3);
    let ops: Vec<Opnd<T>> = (0..n).map(|_| opnd::<T>(&shape, true, Vals::Distinct)).collect();
    desc!("{} {} along {axis} of {n} x {:?}", T::NAME, if stack { "stack" } else { "concat" }, shape);
    Box::new(move |g| {
        let ts: Vec<Tsr<T>> = ops.iter().map(|o| mk(o, &g.ctx.dev)).collect();
        let mut osh = shape.clone();
        if stack { osh.insert(axis, n) } else { osh[axis] *= n }
        let mut w = vec![0i64; numel(&osh)];
        for (q, o) in ops.iter().enumerate() {
            for (i, k) in o.logical().into_iter().enumerate() {
                let mut ix = unravel(i, &shape);
                if stack { ix.insert(axis, q) } else { ix[axis] += q * shape[axis] }
                w[ravel(&ix, &osh)] = k;
            }
        }
        g.op(
            if stack { "stack" } else { "concat" },
            &|| {
                let refs: Vec<&Tsr<T>> = simcore::quiet(|| ts.iter().collect());
                if stack { rt::stack_f((refs, axis as isize)) } else { rt::concat_f((refs, axis as isize)) }
            },
            &|c| expect_tensor("stack/concat", &c, &osh, &arr::<T>(&w)),
        );
        for (t, o) in ts.iter().zip(&ops) {
            o.unchanged(t.raw(), "operand");
        }
    })
}
pub fn select<T: Elem + Default>(_ctx: &Ctx) -> Body {
    let mut shape = shape_of(3, 6000);
    if shape.is_empty() {
        shape.push(4);
    }
    let axis = below(shape.len());
    let n = shape[axis];
    let o = opnd::<T>(&shape, true, Vals::Distinct);
    let m = pick(&[1usize, 3, n.min(60)]);
    let mut r = rng(seed32());
    let ind: Vec<usize> = (0..m).map(|_| r.below(n as u64) as usize).collect();
    let boolean = coin(1, 3);
    desc!("{} {} along {axis} {ind:?} [{}]", T::NAME, if boolean { "bool_select" } else { "index_select" }, show_spec(&o.spec));
    Box::new(move |g| {
        let a = mk(&o, &g.ctx.dev);
        let keys = o.logical();
        let mask: Vec<bool> = (0..n).map(|i| ind.contains(&i)).collect();
        let sel: Vec<usize> = if boolean { (0..n).filter(|&i| mask[i]).collect() } else { ind.clone() };
        let mut osh = shape.clone();
        osh[axis] = sel.len();
        let w: Vec<i64> = (0..numel(&osh))
            .map(|j| {
                let mut ix = unravel(j, &osh);
                ix[axis] = sel[ix[axis]];
                keys[ravel(&ix, &shape)]
            })
            .collect();
        g.op(
            "selection",
            &|| {
                if boolean {
                    a.bool_select_f(axis as isize, mask.clone())
                } else {
                    a.index_select_f(axis as isize, ind.iter().map(|&i| i as isize).collect::<Vec<isize>>())
                }
            },
            &|c| expect_tensor("selection", &c, &osh, &arr::<T>(&w)),
        );
        o.unchanged(a.raw(), "operand");
    })
}
pub fn diag<T: Elem + Default>(_ctx: &Ctx) -> Body {
    let n = logrange(1, 60);
    let o = opnd::<T>(&[n], true, Vals::Small(1000));
    desc!("{} diag [{}]", T::NAME, show_spec(&o.spec));
    Box::new(move |g| {
        let a = mk(&o, &g.ctx.dev);
        let keys = o.logical();
        let mut w = vec![0i64; n * n];
        for i in 0..n {
            w[i * n + i] = keys[i];
        }
        g.op("diag", &|| rt::diag_f((&a, 0isize)), &|c| expect_tensor("diag", &c, &[n, n], &arr::<T>(&w)));
        o.unchanged(a.raw(), "operand");
    })
}
pub fn meshgrid<T: Elem>(_ctx: &Ctx) -> Body {
    let (n, m) = (logrange(1, 70), logrange(1, 70));
    let oa = opnd::<T>(&[n], true, Vals::Distinct);
    let ob = opnd::<T>(&[m], true, Vals::Distinct);
    desc!("{} meshgrid {n} x {m}", T::NAME);
    Box::new(move |g| {
        let a = mk(&oa, &g.ctx.dev);
        let b = mk(&ob, &g.ctx.dev);
        let (x, y) = (oa.logical(), ob.logical());
        let wa: Vec<i64> = (0..n * m).map(|i| x[i / m]).collect();
        let wb: Vec<i64> = (0..n * m).map(|i| y[i % m]).collect();
        g.op(
            "meshgrid",
            &|| {
                let refs: Vec<&Tsr<T>> = simcore::quiet(|| vec![&a, &b]);
                rt::meshgrid_f((refs, "ij", true))
            },
            &|c| {
                expect_tensor("meshgrid", &c[0], &[n, m], &arr::<T>(&wa));
                expect_tensor("meshgrid", &c[1], &[n, m], &arr::<T>(&wb));
            },
        );
        oa.unchanged(a.raw(), "operand");
        ob.unchanged(b.raw(), "operand");
    })
}
/// parallel iteration with a user function
pub fn iterate(_ctx: &Ctx) -> Body {
    use rayon::prelude::*;
    let shape = shape_of(4, 3000);
    let k = below(3);
    let o = opnd::<Y>(&shape, k == 0, SMALL);
    let mut shape1 = shape.clone();
    if shape1.is_empty() {
        shape1.push(1);
    }
    desc!("parallel iteration {k} [{}]", show_spec(&o.spec));
    Box::new(move |g| {
        let mut a = mk(&o, &g.ctx.dev);
        let x = o.logical();
        match k {
            0 => {
                g.op(
                    "par_iter().map().collect()",
                    &|| {
                        let v: Vec<Y> = a
                            .iter_with_order(TensorIterOrder::C)
                            .into_par_iter()
                            .map(|v| {
                                site();
                                *v + Y(1)
                            })
                            .collect();
                        Ok(v)
                    },
                    &|v| {
                        if v.len() != x.len() || v.iter().zip(&x).any(|(a, b)| a.0 != b + 1) {
                            fail!("wrong-value", "parallel iteration collected wrong values");
                        }
                    },
                );
                o.unchanged(a.raw(), "operand");
            },
            _ => {
                let want: Vec<i64> = x.iter().map(|v| v + 3).collect();
                let done = g.inplace("par_iter_mut().for_each()", || {
                    a.iter_mut_with_order(TensorIterOrder::C).into_par_iter().for_each(|v| {
                        let n = *v + Y(3);
                        site();
                        *v = n;
                    });
                    Ok(())
                });
                target("par_iter_mut().for_each()", done, a.raw(), &o, &want);
            },
        }
    })
}
use rstsr_core::prelude_dev::TensorIterOrder;

/// plain numbers: packing, grids, floats, products of blocks (allocation faults only)
pub fn pack(ctx: &Ctx) -> Body {
    let n = logrange(1, 40);
    let bt = logrange(1, 6);
    let shape = if ctx.col { vec![n, n, bt] } else { vec![bt, n, n] };
    let o = opnd::<f64>(&shape, false, Vals::Distinct);
    let lower = coin(1, 2);
    desc!("pack/unpack {} [{}]", if lower { "lower" } else { "upper" }, show_spec(&o.spec));
    Box::new(move |g| {
        let a = mk(&o, &g.ctx.dev);
        let keys = o.logical();
        let uplo = if lower { FlagUpLo::L } else { FlagUpLo::U };
        let col = g.ctx.col;
        let want: Vec<i64> = (0..keys.len())
            .map(|i| {
                let mut ix = unravel(i, &shape);
                let (r, c) = if col { (0, 1) } else { (1, 2) };
                let inside = if lower { ix[r] >= ix[c] } else { ix[r] <= ix[c] };
                if !inside {
                    ix.swap(r, c);
                }
                keys[ravel(&ix, &shape)]
            })
            .collect();
        g.op(
            "unpack_tri of pack_tri",
            &|| a.pack_tri_f(uplo)?.unpack_tri_f(uplo, FlagSymm::Sy),
            &|c| expect_tensor("unpack_tri of pack_tri", &c, &shape, &arr::<f64>(&want)),
        );
        o.unchanged(a.raw(), "operand");
    })
}
pub fn grids(_ctx: &Ctx) -> Body {
    let n = logrange(2, 9000);
    let k = below(4);
    let e = logrange(1, 90);
    desc!("grid {k} of {n}/{e}");
    Box::new(move |g| {
        let dev = g.ctx.dev.clone();
        match k {
            0 => g.op("arange", &|| rt::arange_f((n as i64, &dev)), &|c: Tensor<i64, Dev, _>| expect_tensor("arange", &c, &[n], &(0..n as i64).collect::<Vec<_>>())),
            1 => g.op("linspace", &|| rt::linspace_f((0.0, (n - 1) as f64, n, &dev)), &|c: Tensor<f64, Dev, _>| {
                let v = c.raw();
                if v.len() != n || v.iter().enumerate().any(|(i, &x)| (x - i as f64).abs() > 1e-6) {
                    fail!("wrong-value", "linspace: wrong values");
                }
            }),
            2 => g.op("eye", &|| rt::eye_f((e, &dev)), &|c: Tensor<f64, Dev, _>| {
                expect_tensor("eye", &c, &[e, e], &(0..e * e).map(|i| (i / e == i % e) as i32 as f64).collect::<Vec<_>>())
            }),
            _ => g.op("zeros", &|| rt::zeros_f(([e, n.min(90)], &dev)), &|c: Tensor<f64, Dev, _>| expect_tensor("zeros", &c, &[e, n.min(90)], &vec![0.0; e * n.min(90)])),
        }
    })
}
pub fn float_ops(ctx: &Ctx) -> Body {
    let (sa, sb, sc) = pair(ctx.col, 6000);
    let oa = opnd::<f64>(&sa, true, SMALL);
    let ob = opnd::<f64>(&sb, true, SMALL);
    let k = below(5);
    let (axes, sel) = gen_axes(sa.len());
    desc!("float operation {k} axes {axes:?} a[{}] b[{}]", show_spec(&oa.spec), show_spec(&ob.spec));
    Box::new(move |g| {
        let a = mk(&oa, &g.ctx.dev);
        let b = mk(&ob, &g.ctx.dev);
        let col = g.ctx.col;
        match k {
            0 => {
                let w: Vec<i64> = oa.blogical(&sc, col).iter().zip(ob.blogical(&sc, col)).map(|(&x, y)| x + y).collect();
                g.op("addition", &|| rt::add_f(&a, &b), &|c| expect_tensor("addition", &c, &sc, &arr::<f64>(&w)))
            },
            1 => {
                let w: Vec<bool> = oa.blogical(&sc, col).iter().zip(ob.blogical(&sc, col)).map(|(&x, y)| x < y).collect();
                g.op("comparison", &|| rt::less_f(&a, &b), &|c| expect_tensor("comparison", &c, &sc, &w))
            },
            2 => {
                let w: Vec<f64> = oa.logical().iter().map(|&x| (x as f64).exp()).collect();
                g.op("exp", &|| rt::exp_f(&a), &|c| expect_tensor("exp", &c, &sa, &w))
            },
            3 => {
                let (osh, w) = fold(&sa, &oa.logical(), &sel, 0, &|a, b| a + b);
                g.op("sum over axes", &|| rt::sum_axes_f(&a, axes_arg(&axes)), &|c| expect_tensor("sum over axes", &c, &osh, &arr::<f64>(&w)))
            },
            _ => {
                let (osh, w) = fold(&sa, &oa.logical(), &sel, i64::MIN, &|a, b| a.max(b));
                g.op("max over axes", &|| if w.is_empty() || numel(&sa) == 0 { rt::zeros_f((osh.clone(), &g.ctx.dev)) } else { rt::max_axes_f(&a, axes_arg(&axes)) }, &|c: Tsr<f64>| {
                    if numel(&sa) > 0 {
                        expect_tensor("max over axes", &c, &osh, &arr::<f64>(&w))
                    }
                })
            },
        }
        oa.unchanged(a.raw(), "left operand");
        ob.unchanged(b.raw(), "right operand");
    })
}

/// creation routines given a shape or a count: exhaustion of the requested buffer has to be an error value
pub fn creation(ctx: &Ctx) -> Body {
    let _ = ctx;
    macro_rules! go {
        ($T:ty) => {{
        type T = $T;
        let shape = shape_of(4, 17500);
        let k = below(7);
        let n = match k {
            5 => logrange(2, 9000),
            6 => logrange(1, 100).pow(2),
            _ => numel(&shape),
        };
        desc!("{} {} of {}", <T as Elem>::NAME, ["empty", "uninit", "full", "zeros", "ones", "linspace", "eye"][k], if k == 5 || k == 6 { n.to_string() } else { format!("{shape:?}") });
        Box::new(move |g| {
            let dev = g.ctx.dev.clone();
            let e = (n as f64).sqrt().round() as usize;
            let shape = match k {
                5 => vec![n],
                6 => vec![e, e],
                _ => shape.clone(),
            };
            let num = |x: f32| <T as num::NumCast>::from(x).unwrap();
            let same = |c: Tsr<T>, w: &dyn Fn(usize) -> T| expect_tensor("creation", &c, &shape, &(0..n).map(|i| w(i)).collect::<Vec<T>>());
            match k {
                0 => g.op("empty", &|| unsafe { rt::empty_f((shape.clone(), &dev)) }, &|mut c: Tsr<T>| {
                    c.fill(num(3.0));
                    same(c, &|_| num(3.0))
                }),
                1 => g.op("uninit", &|| rt::uninit_f((shape.clone(), &dev)), &|c: Tensor<std::mem::MaybeUninit<T>, Dev, IxD>| {
                    if c.raw().len() != n {
                        fail!("wrong-value", "uninit: buffer of {} elements instead of {n}", c.raw().len());
                    }
                }),
                2 => g.op("full", &|| rt::full_f((shape.clone(), num(2.5), &dev)), &|c| same(c, &|_| num(2.5))),
                3 => g.op("zeros", &|| rt::zeros_f((shape.clone(), &dev)), &|c| same(c, &|_| num(0.0))),
                4 => g.op("ones", &|| rt::ones_f((shape.clone(), &dev)), &|c| same(c, &|_| num(1.0))),
                5 => g.op("linspace", &|| rt::linspace_f((num(0.0), num((n - 1) as f32), n, &dev)), &|c: Tsr<T>| {
                    if c.raw().len() != n || c.raw().iter().enumerate().any(|(i, &x)| num::complex::ComplexFloat::abs(x - num(i as f32)) > 1e-2) {
                        fail!("wrong-value", "linspace: wrong values");
                    }
                }),
                _ => g.op("eye", &|| rt::eye_f((e, &dev)), &|c: Tsr<T>| same(c, &|i| if i / e == i % e { num(1.0) } else { num(0.0) })),
            }
            let bytes = n * std::mem::size_of::<T>();
            if g.ended.get() == b'p' && bytes >= 4096 && simcore::alloc::failed_last() >= bytes {
                fail!("exhaustion-panics", "the error-returning form panics when its buffer of {bytes} bytes cannot be obtained");
            }
        })
        }};
    }
    match below(3) {
        0 => go!(f64),
        1 => go!(f32),
        _ => go!(num::Complex<f64>),
    }
}

/// products of f64 matrices holding small integers: exact whatever the order of summation
pub fn float_matmul(ctx: &Ctx) -> Body {
    let big = coin(1, 3);
    let dim = || if big { range(60, 110) } else { logrange(1, 50) };
    let (m, n, k) = (dim(), dim(), dim());
    let form = weighted(&[4, 3, 2, 2]);
    let bt = if big { 1 } else { logrange(1, 40) };
    let _ = ctx;
    let v = Vals::Small(9);
    let (sa, sb) = match form {
        1 => (vec![m, k], vec![1]),
        2 if ctx.col => (vec![m, k, bt], vec![k, n, bt]),
        2 => (vec![bt, m, k], vec![bt, k, n]),
        3 => (vec![m, k], vec![k]),
        _ => (vec![m, k], vec![k, n]),
    };
    let oa = opnd::<f64>(&sa, false, v);
    let ob = opnd::<f64>(&sb, false, v);
    desc!("f64 matmul form {form} a[{}] b[{}]", show_spec(&oa.spec), show_spec(&ob.spec));
    Box::new(move |g| {
        let (x, y) = (oa.logical(), ob.logical());
        let a = mk(&oa, &g.ctx.dev);
        let b = mk(&ob, &g.ctx.dev);
        let prod = |m: usize, n: usize, k: usize, x: &dyn Fn(usize, usize) -> i64, y: &dyn Fn(usize, usize) -> i64| {
            let mut w = vec![0i64; m * n];
            for i in 0..m {
                for j in 0..n {
                    for l in 0..k {
                        w[i * n + j] += x(i, l) * y(l, j);
                    }
                }
            }
            w
        };
        match form {
            1 => {
                let w = prod(m, m, k, &|i, l| x[i * k + l], &|l, j| x[j * k + l]);
                g.op("A times its own transpose", &|| rt::matmul_f(&a, a.t()), &|c| expect_tensor("A times its own transpose", &c, &[m, m], &arr::<f64>(&w)));
            },
            2 => {
                let col = g.ctx.col;
                let at = |b: usize, i: usize, j: usize, sh: (usize, usize)| if col { (i * sh.1 + j) * bt + b } else { (b * sh.0 + i) * sh.1 + j };
                let osh = if col { vec![m, n, bt] } else { vec![bt, m, n] };
                let mut w = vec![0i64; m * n * bt];
                for q in 0..bt {
                    let p = prod(m, n, k, &|i, l| x[at(q, i, l, (m, k))], &|l, j| y[at(q, l, j, (k, n))]);
                    for i in 0..m {
                        for j in 0..n {
                            w[at(q, i, j, (m, n))] = p[i * n + j];
                        }
                    }
                }
                g.op("batched matrix product", &|| rt::matmul_f(&a, &b), &|c| expect_tensor("batched matrix product", &c, &osh, &arr::<f64>(&w)));
            },
            3 => {
                let w = prod(m, 1, k, &|i, l| x[i * k + l], &|l, _| y[l]);
                g.op("matrix-vector product", &|| rt::matmul_f(&a, &b), &|c| expect_tensor("matrix-vector product", &c, &[m], &arr::<f64>(&w)));
            },
            _ => {
                let w = prod(m, n, k, &|i, l| x[i * k + l], &|l, j| y[l * n + j]);
                g.op("matrix product", &|| rt::matmul_f(&a, &b), &|c| expect_tensor("matrix product", &c, &[m, n], &arr::<f64>(&w)));
            },
        }
        oa.unchanged(a.raw(), "left operand");
        ob.unchanged(b.raw(), "right operand");
    })
}
