//! C01: parallel elementwise operations.
use super::util::*;
use crate::fw::*;
use rstsr_common::prelude::IxD;
use rstsr_core::prelude::*;
use rstsr_core::prelude_dev::{FlagOrder, TensorIterOrder};
use std::cell::RefCell;

const THR: &[usize] = &[4096, 16384];
const THR_SMALL: &[usize] = &[4096];

pub fn mop(k: usize, a: i64, b: i64) -> i64 {
    match k {
        0 => a.wrapping_add(b),
        1 => a.wrapping_sub(b),
        2 => a.wrapping_mul(b),
        3 => sdiv(a, b),
        4 => srem(a, b),
        5 => a | b,
        6 => a & b,
        7 => a ^ b,
        8 => a.wrapping_shl((b & 63) as u32),
        _ => a.wrapping_shr((b & 63) as u32),
    }
}
pub const OPN: [&str; 10] = ["add", "sub", "mul", "div", "rem", "bitor", "bitand", "bitxor", "shl", "shr"];
#[macro_export]
macro_rules! with_op {
    ($k:expr, $op:ident => $e:expr) => {{
        use rstsr_core::prelude::rt;
        match $k {
            0 => { use rt::add_f as $op; $e },
            1 => { use rt::sub_f as $op; $e },
            2 => { use rt::mul_f as $op; $e },
            3 => { use rt::div_f as $op; $e },
            4 => { use rt::rem_f as $op; $e },
            5 => { use rt::bitor_f as $op; $e },
            6 => { use rt::bitand_f as $op; $e },
            7 => { use rt::bitxor_f as $op; $e },
            8 => { use rt::shl_f as $op; $e },
            _ => { use rt::shr_f as $op; $e },
        }
    }};
}
/// a cheaper selection (less monomorphisation): asymmetric operations only
macro_rules! with_op3 {
    ($k:expr, $op:ident => $e:expr) => {{
        use rstsr_core::prelude::rt;
        match $k {
            0 => { use rt::add_f as $op; $e },
            1 => { use rt::sub_f as $op; $e },
            _ => { use rt::div_f as $op; $e },
        }
    }};
}
pub fn k3(k: usize) -> usize {
    [0, 1, 3][k]
}

pub fn gen_vals() -> Vals {
    pick(&[Vals::Wide, Vals::Small(9), Vals::Distinct])
}

fn case_binary(ctx: &Ctx) -> Case {
    let (sa, sb, sc) = gen_pair(ctx.col, THR_SMALL);
    let form = below(12);
    let tk = coin(1, 4) && numel(&sc) < 6000;
    let k = if tk { k3(below(3)) } else { below(10) };
    // owned operands may carry broadcast (stride 0) axes too
    let a_spec = gen_spec(&sa, true);
    let b_spec = gen_spec(&sb, true);
    desc!("{} form {form}{} a[{}] b[{}]", OPN[k], if tk { " (tracked)" } else { "" }, show_spec(&a_spec), show_spec(&b_spec));
    if tk {
        binary_case::<Tk>(ctx, k, form, a_spec, b_spec, sc)
    } else {
        binary_case::<Y>(ctx, k, form, a_spec, b_spec, sc)
    }
}
trait BinAll: Elem {
    fn bin(k: usize, form: usize, a: &Tsr<Self>, b: &Tsr<Self>, ao: &mut Option<Tsr<Self>>, bo: &mut Option<Tsr<Self>>) -> rstsr_common::error::Result<Tsr<Self>>;
}
macro_rules! bin_forms {
    ($op:ident, $form:expr, $a:expr, $b:expr, $ao:expr, $bo:expr) => {
        match $form {
            0 | 8 => $op($a, $b),
            1 => $op($a.view(), $b),
            2 => $op($a, $b.view()),
            3 => $op($a.view(), $b.view()),
            4 | 9 => $op($ao.take().unwrap(), $b),
            5 | 10 => $op($a, $bo.take().unwrap()),
            6 | 11 => $op($ao.take().unwrap(), $bo.take().unwrap()),
            _ => $op($ao.take().unwrap().into_cow(), $b),
        }
    };
}
impl BinAll for Y {
    fn bin(k: usize, form: usize, a: &Tsr<Y>, b: &Tsr<Y>, ao: &mut Option<Tsr<Y>>, bo: &mut Option<Tsr<Y>>) -> rstsr_common::error::Result<Tsr<Y>> {
        with_op!(k, op => bin_forms!(op, form, a, b, ao, bo))
    }
}
impl BinAll for Tk {
    fn bin(k: usize, form: usize, a: &Tsr<Tk>, b: &Tsr<Tk>, ao: &mut Option<Tsr<Tk>>, bo: &mut Option<Tsr<Tk>>) -> rstsr_common::error::Result<Tsr<Tk>> {
        with_op3!(match k { 0 => 0, 1 => 1, _ => 2 }, op => bin_forms!(op, form, a, b, ao, bo))
    }
}
fn binary_case<T: BinAll>(ctx: &Ctx, k: usize, form: usize, sa: Spec, sb: Spec, sc: Vec<usize>) -> Case {
    let (va, vb) = (gen_vals(), gen_vals());
    let oa = Opnd::<T>::gen(sa, va);
    let ob = Opnd::<T>::gen(sb, vb);
    let ctx = ctx.clone();
    Box::new(move || {
        let want: Vec<T> = simcore::quiet(|| {
            let (x, y) = (oa.blogical(&sc, ctx.col), ob.blogical(&sc, ctx.col));
            x.iter().zip(&y).map(|(&x, &y)| T::mk(mop(k, x, y) as u64)).collect()
        });
        let what = format!("{} form {form}", OPN[k]);
        let a = mk(&oa, &ctx.dev);
        let b = mk(&ob, &ctx.dev);
        let mut ao = if matches!(form, 4 | 6 | 7 | 9 | 11) { Some(mk(&oa, &ctx.dev)) } else { None };
        let mut bo = if matches!(form, 5 | 6 | 10 | 11) { Some(mk(&ob, &ctx.dev)) } else { None };
        let r = ctx.enter(|| must_f(&what, || T::bin(k, form, &a, &b, &mut ao, &mut bo)));
        if let Some(c) = r {
            expect_tensor(&what, &c, &sc, &want);
        }
        simcore::quiet(|| {
            oa.unchanged(a.raw(), "left operand");
            ob.unchanged(b.raw(), "right operand");
        });
        simcore::quiet(|| drop(want));
    })
}

fn case_scalar(ctx: &Ctx) -> Case {
    let shape = gen_big_shape(THR_SMALL, 5);
    let k = below(10);
    let form = below(6);
    let spec = gen_spec(&shape, true);
    let s = val(gen_vals(), seed32(), 0) as i32;
    desc!("scalar {} form {form} s={s} t[{}]", OPN[k], show_spec(&spec));
    let o = Opnd::<Y>::gen(spec, gen_vals());
    let ctx = ctx.clone();
    Box::new(move || {
        let want: Vec<Y> = o.logical().iter().map(|&x| Y(if form < 3 { mop(k, x, s as i64) } else { mop(k, s as i64, x) })).collect();
        let t = mk(&o, &ctx.dev);
        let what = format!("scalar {} form {form}", OPN[k]);
        let r = ctx.enter(|| {
            must_f(&what, || {
                with_op!(k, op => match form {
                    0 => op(&t, s),
                    1 => op(t.view(), s),
                    2 => op(mk(&o, &ctx.dev), s),
                    3 => op(s, &t),
                    4 => op(s, t.view()),
                    _ => op(s, mk(&o, &ctx.dev)),
                })
            })
        });
        if let Some(c) = r {
            expect_tensor(&what, &c, &shape, &want);
        }
        o.unchanged(t.raw(), "operand");
    })
}

macro_rules! with_op_assign {
    ($k:expr, $op:ident => $e:expr) => {{
        match $k {
            0 => { use rt::add_assign_f as $op; $e },
            1 => { use rt::sub_assign_f as $op; $e },
            2 => { use rt::mul_assign_f as $op; $e },
            3 => { use rt::div_assign_f as $op; $e },
            4 => { use rt::rem_assign_f as $op; $e },
            5 => { use rt::bitor_assign_f as $op; $e },
            6 => { use rt::bitand_assign_f as $op; $e },
            7 => { use rt::bitxor_assign_f as $op; $e },
            8 => { use rt::shl_assign_f as $op; $e },
            _ => { use rt::shr_assign_f as $op; $e },
        }
    }};
}
fn case_assign_op(ctx: &Ctx) -> Case {
    let shape = gen_big_shape(THR_SMALL, 5);
    let k = below(10);
    let form = below(5);
    let spec = gen_spec(&shape, false);
    let sb = gen_bshape(&shape, ctx.col);
    let bspec = gen_spec(&sb, true);
    let s = val(gen_vals(), seed32(), 0) as i32;
    desc!("{}-assign form {form} a[{}] b[{}] s={s}", OPN[k], show_spec(&spec), show_spec(&bspec));
    let o = Opnd::<Y>::gen(spec, gen_vals());
    let ob = Opnd::<Y>::gen(bspec, gen_vals());
    let ctx = ctx.clone();
    Box::new(move || {
        let x = o.logical();
        let y = if form < 3 { ob.blogical(&shape, ctx.col) } else { vec![s as i64; x.len()] };
        let want: Vec<i64> = x.iter().zip(&y).map(|(&x, &y)| mop(k, x, y)).collect();
        let mut t = mk(&o, &ctx.dev);
        let b = mk(&ob, &ctx.dev);
        let what = format!("{}-assign form {form}", OPN[k]);
        ctx.enter(|| {
            must_f(&what, || {
                with_op_assign!(k, op => match form {
                    0 => op(&mut t, &b),
                    1 => op(&mut t, b.view()),
                    2 => op(&mut t.view_mut(), mk(&ob, &ctx.dev)),
                    3 => op(&mut t, Y(s as i64)),
                    _ => op(&mut t.view_mut(), Y(s as i64)),
                })
            })
        });
        expect_inplace(&what, t.raw(), &o, &want);
        ob.unchanged(b.raw(), "right operand");
    })
}

fn case_with_output(ctx: &Ctx) -> Case {
    let shape = gen_big_shape(THR_SMALL, 5);
    let k = below(3);
    let spec = gen_spec(&shape, false);
    let (sa, sb) = (gen_bshape(&shape, ctx.col), gen_bshape(&shape, ctx.col));
    let (aspec, bspec) = (gen_spec(&sa, true), gen_spec(&sb, true));
    desc!("{}_with_output c[{}] a[{}] b[{}]", OPN[k3(k)], show_spec(&spec), show_spec(&aspec), show_spec(&bspec));
    let oc = Opnd::<Y>::gen(spec, gen_vals());
    let oa = Opnd::<Y>::gen(aspec, gen_vals());
    let ob = Opnd::<Y>::gen(bspec, gen_vals());
    let ctx = ctx.clone();
    Box::new(move || {
        let (x, y) = (oa.blogical(&shape, ctx.col), ob.blogical(&shape, ctx.col));
        let want: Vec<i64> = x.iter().zip(&y).map(|(&x, &y)| mop(k3(k), x, y)).collect();
        let mut c = mk(&oc, &ctx.dev);
        let a = mk(&oa, &ctx.dev);
        let b = mk(&ob, &ctx.dev);
        ctx.enter(|| {
            must_f("with_output", || match k {
                0 => rt::add_with_output_f(&a, &b, &mut c),
                1 => rt::sub_with_output_f(&a, &b, &mut c),
                _ => rt::div_with_output_f(&a, &b, &mut c),
            })
        });
        expect_inplace("with_output", c.raw(), &oc, &want);
        oa.unchanged(a.raw(), "left operand");
        ob.unchanged(b.raw(), "right operand");
    })
}

/// A target whose elements are shared by several indices: an operation that would write different values to one element
/// has to be refused (no order of the writes is right, and the pool would race on them).
fn case_repeat(ctx: &Ctx) -> Case {
    let mut shape = gen_big_shape(THR_SMALL, 4);
    if shape.iter().all(|&n| n < 2) {
        shape.push(range(2, 5000));
    }
    let cand: Vec<usize> = (0..shape.len()).filter(|&i| shape[i] > 1).collect();
    let must_ax = pick(&cand);
    let base: Vec<usize> = (0..shape.len()).map(|i| if i == must_ax || (shape[i] > 1 && coin(1, 4)) { 1 } else { shape[i] }).collect();
    let form = below(9);
    let spec = gen_spec(&base, false);
    let (sa, sb) = (gen_bshape(&shape, ctx.col), gen_bshape(&shape, ctx.col));
    let (aspec, bspec) = (gen_spec(&sa, true), gen_spec(&sb, true));
    desc!("write form {form} to t[{}] broadcast to {shape:?}, a[{}] b[{}]", show_spec(&spec), show_spec(&aspec), show_spec(&bspec));
    let o = Opnd::<Y>::gen(spec, gen_vals());
    let oa = Opnd::<Y>::gen(aspec, gen_vals());
    let ob = Opnd::<Y>::gen(bspec, gen_vals());
    let ctx = ctx.clone();
    Box::new(move || {
        let x = o.logical();
        let mut t = mk(&o, &ctx.dev);
        let a = mk(&oa, &ctx.dev);
        let b = mk(&ob, &ctx.dev);
        let r = ctx.enter(|| {
            call(|| {
                let mut v = t.view_mut().into_broadcast(shape.clone());
                match form {
                    0 => rt::add_assign_f(&mut v, &a),
                    1 => rt::sub_assign_f(&mut v, b.view()),
                    2 => rt::add_with_output_f(&a, &b, &mut v),
                    3 => rt::mul_with_output_f(&a, &b, &mut v),
                    4 => v.assign_f(&a),
                    5 => v.fill_f(Y(1)),
                    6 => rstsr_core::tensor::exports::op_muta_refb_func(&mut v, &b, &mut |c: &mut core::mem::MaybeUninit<Y>, b: &Y| {
                        c.write(b.clone());
                    }),
                    7 => rt::add_assign_f(&mut v, Y(1)),
                    _ => {
                        v.mapvi(|x| x + Y(1));
                        Ok(())
                    },
                }
                .is_ok()
            })
        });
        match r {
            Ok(true) if form < 7 && !x.is_empty() => fail!("overlapping-target", "writing to a broadcast view is accepted (form {form}): its elements are shared by several indices"),
            // one value for all: harmless if each element gets it once
            Ok(true) => expect_inplace("write to a broadcast view", t.raw(), &o, &x.iter().map(|x| x + 1).collect::<Vec<_>>()),
            _ => {
                o.unchanged(t.raw(), "target of a refused write");
            },
        }
    })
}

fn case_unary_y(ctx: &Ctx) -> Case {
    let shape = gen_big_shape(THR_SMALL, 5);
    let k = below(6);
    let form = below(3);
    let spec = gen_spec(&shape, true);
    let name = ["neg", "not", "abs", "sign", "square", "real"][k];
    desc!("{name} form {form} t[{}]", show_spec(&spec));
    let o = Opnd::<Y>::gen(spec, gen_vals());
    let ctx = ctx.clone();
    Box::new(move || {
        let f = |x: i64| match k {
            0 => x.wrapping_neg(),
            1 => !x,
            2 => x.wrapping_abs(),
            3 => x.signum(),
            4 => x.wrapping_mul(x),
            _ => x,
        };
        let want: Vec<Y> = o.logical().iter().map(|&x| Y(f(x))).collect();
        let t = mk(&o, &ctx.dev);
        macro_rules! un {
            ($op:ident) => {
                match form {
                    0 => rt::$op(&t),
                    1 => rt::$op(t.view()),
                    _ => rt::$op(mk(&o, &ctx.dev)),
                }
            };
        }
        let what = format!("{name} form {form}");
        let r = ctx.enter(|| {
            must_f(&what, || match k {
                0 => un!(neg_f),
                1 => un!(not_f),
                2 => un!(abs_f),
                3 => un!(sign_f),
                4 => un!(square_f),
                _ => un!(real_f),
            })
        });
        if let Some(c) = r {
            expect_tensor(&what, &c, &shape, &want);
        }
        o.unchanged(t.raw(), "operand");
    })
}

fn case_unary_f(ctx: &Ctx) -> Case {
    let shape = gen_big_shape(THR_SMALL, 4);
    let k = below(20);
    let form = below(3);
    let spec = gen_spec(&shape, true);
    desc!("float function {k} form {form} t[{}]", show_spec(&spec));
    let o = Opnd::<f64>::gen(spec, Vals::Small(12));
    let ctx = ctx.clone();
    Box::new(move || {
        let sc = |x: i64| x as f64 * 0.375;
        let buf = || -> Vec<f64> {
            let mut v = Vec::with_capacity(o.keys.len());
            v.extend(o.keys.iter().map(|&x| sc(x)));
            v
        };
        let make = || -> Tsr<f64> { rt::asarray((buf(), o.spec.layout(), &ctx.dev)) };
        let t = make();
        let lg = o.logical();
        let what = format!("float function {k} form {form}");
        macro_rules! un {
            ($op:ident, $f:expr) => {{
                let f: fn(f64) -> f64 = $f;
                let want: Vec<f64> = lg.iter().map(|&x| f(sc(x))).collect();
                let r = ctx.enter(|| {
                    must_f(&what, || match form {
                        0 => rt::$op(&t),
                        1 => rt::$op(t.view()),
                        _ => rt::$op(make()),
                    })
                });
                if let Some(c) = r {
                    expect_tensor(&what, &c, &shape, &want);
                }
            }};
        }
        macro_rules! unb {
            ($op:ident, $f:expr) => {{
                let f: fn(f64) -> bool = $f;
                let want: Vec<bool> = lg.iter().map(|&x| f(sc(x))).collect();
                let r = ctx.enter(|| must_f(&what, || if form == 0 { rt::$op(t.view()) } else { rt::$op(&t) }));
                if let Some(c) = r {
                    expect_tensor(&what, &c, &shape, &want);
                }
            }};
        }
        match k {
            0 => un!(sin_f, |x| x.sin()),
            1 => un!(cos_f, |x| x.cos()),
            2 => un!(exp_f, |x| x.exp()),
            3 => un!(log_f, |x| x.ln()),
            4 => un!(sqrt_f, |x| x.sqrt()),
            5 => un!(floor_f, |x| x.floor()),
            6 => un!(ceil_f, |x| x.ceil()),
            7 => un!(round_f, |x| x.round()),
            8 => un!(trunc_f, |x| x.trunc()),
            9 => un!(tanh_f, |x| x.tanh()),
            10 => un!(abs_f, |x| x.abs()),
            11 => un!(reciprocal_f, |x| x.recip()),
            12 => un!(square_f, |x| x * x),
            13 => un!(neg_f, |x| -x),
            14 => un!(expm1_f, |x| x.exp_m1()),
            15 => un!(log2_f, |x| x.log2()),
            16 => unb!(is_nan_f, |x| x.is_nan()),
            17 => unb!(is_finite_f, |x| x.is_finite()),
            18 => unb!(is_inf_f, |x| x.is_infinite()),
            _ => unb!(signbit_f, |x| x.is_sign_negative()),
        }
        for (i, (r, &k)) in t.raw().iter().zip(&o.keys).enumerate() {
            if r.to_bits() != sc(k).to_bits() {
                fail!("operand-changed", "{what}: buffer position {i} changed");
                break;
            }
        }
    })
}

fn case_common(ctx: &Ctx) -> Case {
    let (sa, sb, sc) = gen_pair(ctx.col, THR_SMALL);
    let k = below(9);
    let form = below(4);
    let (aspec, bspec) = (gen_spec(&sa, true), gen_spec(&sb, true));
    desc!("common {k} form {form} a[{}] b[{}]", show_spec(&aspec), show_spec(&bspec));
    let vals = pick(&[Vals::Small(3), Vals::Small(40), Vals::Wide]);
    let oa = Opnd::<Y>::gen(aspec, vals);
    let ob = Opnd::<Y>::gen(bspec, vals);
    let s = val(Vals::Small(3), seed32(), 0);
    let ctx = ctx.clone();
    Box::new(move || {
        let shape = if form < 2 { sc.clone() } else if form == 2 { oa.spec.shape.clone() } else { ob.spec.shape.clone() };
        let x = if form == 3 { vec![s; numel(&shape)] } else { oa.blogical(&shape, ctx.col) };
        let y = if form == 2 { vec![s; numel(&shape)] } else { ob.blogical(&shape, ctx.col) };
        let a = mk(&oa, &ctx.dev);
        let b = mk(&ob, &ctx.dev);
        let what = format!("common function {k} form {form}");
        macro_rules! cm {
            ($op:ident, $T:ty, $f:expr) => {{
                let f: fn(i64, i64) -> $T = $f;
                let want: Vec<$T> = x.iter().zip(&y).map(|(&x, &y)| f(x, y)).collect();
                let r = ctx.enter(|| {
                    must_f(&what, || match form {
                        0 => rt::$op(&a, &b),
                        1 => rt::$op(a.view(), b.view()),
                        2 => rt::$op(&a, Y(s)),
                        _ => rt::$op(Y(s), &b),
                    })
                });
                if let Some(c) = r {
                    expect_tensor(&what, &c, &shape, &want);
                }
            }};
        }
        match k {
            0 => cm!(equal_f, bool, |x, y| x == y),
            1 => cm!(not_equal_f, bool, |x, y| x != y),
            2 => cm!(less_f, bool, |x, y| x < y),
            3 => cm!(less_equal_f, bool, |x, y| x <= y),
            4 => cm!(greater_f, bool, |x, y| x > y),
            5 => cm!(greater_equal_f, bool, |x, y| x >= y),
            6 => cm!(maximum_f, Y, |x, y| Y(x.max(y))),
            7 => cm!(minimum_f, Y, |x, y| Y(x.min(y))),
            _ => cm!(floor_divide_f, Y, |x, y| Y(fdiv(x, y))),
        }
        oa.unchanged(a.raw(), "left operand");
        ob.unchanged(b.raw(), "right operand");
    })
}

/// mixed element types and floating functions of two arguments
fn case_mixed(ctx: &Ctx) -> Case {
    let (sa, sb, sc) = gen_pair(ctx.col, THR_SMALL);
    let k = below(8);
    let (aspec, bspec) = (gen_spec(&sa, true), gen_spec(&sb, true));
    desc!("mixed {k} a[{}] b[{}]", show_spec(&aspec), show_spec(&bspec));
    let oa = Opnd::<f64>::gen(aspec.clone(), Vals::Small(20));
    let ob = Opnd::<f64>::gen(bspec.clone(), Vals::Small(5));
    let oi = Opnd::<i32> { spec: bspec.clone(), keys: ob.keys.clone(), _p: Default::default() };
    let ai = Opnd::<i64> { spec: aspec.clone(), keys: oa.keys.clone(), _p: Default::default() };
    let ctx = ctx.clone();
    Box::new(move || {
        let x = oa.blogical(&sc, ctx.col);
        let y = ob.blogical(&sc, ctx.col);
        let what = format!("mixed function {k}");
        macro_rules! mx {
            ($A:expr, $B:expr, $op:ident, $T:ty, $f:expr) => {{
                let f: fn(i64, i64) -> $T = $f;
                let want: Vec<$T> = x.iter().zip(&y).map(|(&x, &y)| f(x, y)).collect();
                let (a, b) = (mk(&$A, &ctx.dev), mk(&$B, &ctx.dev));
                let r = ctx.enter(|| must_f(&what, || rt::$op(&a, &b)));
                if let Some(c) = r {
                    expect_tensor(&what, &c, &sc, &want);
                }
                $A.unchanged(a.raw(), "left operand");
                $B.unchanged(b.raw(), "right operand");
            }};
        }
        match k {
            0 => mx!(oa, oi, pow_f, f64, |x, y| num::pow::Pow::pow(x as f64, y as i32)),
            1 => mx!(oa, ob, pow_f, f64, |x, y| (x as f64).powf(y as f64)),
            2 => mx!(oa, ob, hypot_f, f64, |x, y| (x as f64).hypot(y as f64)),
            3 => mx!(oa, ob, atan2_f, f64, |x, y| (x as f64).atan2(y as f64)),
            4 => mx!(oa, ob, copysign_f, f64, |x, y| (x as f64).copysign(y as f64)),
            5 => mx!(ai, oi, less_f, bool, |x, y| x < y),
            6 => mx!(oa, oi, maximum_f, f64, |x, y| (x as f64).max(y as f64)),
            _ => mx!(ai, oi, equal_f, bool, |x, y| x == y),
        }
    })
}

fn case_assign(ctx: &Ctx) -> Case {
    let shape = gen_big_shape(THR, 5);
    let form = below(5);
    let spec = gen_spec(&shape, false);
    let sb = gen_bshape(&shape, ctx.col);
    let bspec = gen_spec(&sb, true);
    desc!("assign form {form} a[{}] b[{}]", show_spec(&spec), show_spec(&bspec));
    let o = Opnd::<Y>::gen(spec.clone(), gen_vals());
    let ob = Opnd::<Y>::gen(bspec.clone(), Vals::Small(1000));
    let obi = Opnd::<i32> { spec: bspec, keys: ob.keys.clone(), _p: Default::default() };
    let of = Opnd::<f64> { spec, keys: o.keys.iter().map(|x| x % 1000).collect(), _p: Default::default() };
    let s = val(gen_vals(), seed32(), 0);
    let ctx = ctx.clone();
    Box::new(move || {
        let y = if form == 2 { vec![s; numel(&shape)] } else { ob.blogical(&shape, ctx.col) };
        if form == 4 {
            // assignment with conversion
            let mut t = mk(&of, &ctx.dev);
            let b = mk(&obi, &ctx.dev);
            ctx.enter(|| must_f("assign with cast", || t.assign_f(&b)));
            expect_inplace("assign with cast", t.raw(), &of, &y);
            obi.unchanged(b.raw(), "source");
            return;
        }
        let mut t = mk(&o, &ctx.dev);
        let b = mk(&ob, &ctx.dev);
        let what = format!("assign form {form}");
        ctx.enter(|| {
            must_f(&what, || match form {
                0 => t.assign_f(&b),
                1 => t.view_mut().assign_f(b.view()),
                2 => t.fill_f(Y(s)),
                _ => t.assign_f(mk(&ob, &ctx.dev)),
            })
        });
        expect_inplace(&what, t.raw(), &o, &y);
        ob.unchanged(b.raw(), "source");
    })
}

thread_local! {
    static COUNTS: RefCell<std::collections::HashMap<usize, u32, std::hash::BuildHasherDefault<std::collections::hash_map::DefaultHasher>>> = Default::default();
}

fn case_map(ctx: &Ctx) -> Case {
    let (sa, sb, sc) = gen_pair(ctx.col, THR_SMALL);
    let form = below(8);
    let (aspec, bspec) = (gen_spec(&sa, form != 4 && form != 5), gen_spec(&sb, true));
    desc!("map form {form} a[{}] b[{}]", show_spec(&aspec), show_spec(&bspec));
    // distinct values identify the element the function was called with
    let oa = Opnd::<Y>::gen(aspec, Vals::Distinct);
    let ob = Opnd::<Y>::gen(bspec, Vals::Small(1 << 20));
    let ctx = ctx.clone();
    Box::new(move || {
        let binary = form == 6 || form == 7;
        let shape = if binary { sc.clone() } else { oa.spec.shape.clone() };
        let x = oa.blogical(&shape, ctx.col);
        let y = if binary { ob.blogical(&shape, ctx.col) } else { vec![7; x.len()] };
        let f = |a: i64, b: i64| a.wrapping_mul(31).wrapping_add(b);
        let want: Vec<Y> = x.iter().zip(&y).map(|(&a, &b)| Y(f(a, b))).collect();
        let calls: Vec<std::cell::Cell<u32>> = simcore::quiet(|| (0..oa.keys.len() + 2).map(|_| std::cell::Cell::new(0)).collect());
        let calls = AssertSync(&calls);
        let g = |a: i64, b: i64| {
            let c = &calls;
            let i = (a as usize).min(c.0.len() - 1);
            c.0[i].set(c.0[i].get() + 1);
            simcore::yield_point();
            Y(f(a, b))
        };
        let a = mk(&oa, &ctx.dev);
        let b = mk(&ob, &ctx.dev);
        let what = format!("map form {form}");
        let inplace = matches!(form, 4 | 5);
        if inplace {
            let mut t = mk(&oa, &ctx.dev);
            ctx.enter(|| {
                must_f(&what, || match form {
                    4 => t.mapi_f(|v: &mut Y| *v = g(v.0, 7)),
                    _ => t.mapvi_f(|v: Y| g(v.0, 7)),
                })
            });
            let w: Vec<i64> = want.iter().map(|v| v.0).collect();
            expect_inplace(&what, t.raw(), &oa, &w);
        } else {
            let r = ctx.enter(|| {
                must_f(&what, || match form {
                    0 | 1 => a.map_f(|v: &Y| g(v.0, 7)),
                    2 => a.mapv_f(|v: Y| g(v.0, 7)),
                    3 => a.mapv_f(|v: Y| g(v.0, 7)),
                    6 => a.mapb_f(&b, |v: &Y, w: &Y| g(v.0, w.0)),
                    _ => a.mapvb_f(&b, |v: Y, w: Y| g(v.0, w.0)),
                })
            });
            if let Some(c) = r {
                expect_tensor(&what, &c, &shape, &want);
            }
        }
        // once per output element
        let mut exp = vec![0u32; calls.0.len()];
        for &v in &x {
            exp[v as usize] += 1;
        }
        for (i, (c, &e)) in calls.0.iter().zip(&exp).enumerate() {
            if c.get() != e {
                fail!("call-count", "{what}: the function was called {} times for the element with value {i}, expected {e}", c.get());
                break;
            }
        }
        oa.unchanged(a.raw(), "left operand");
        ob.unchanged(b.raw(), "right operand");
    })
}
pub struct AssertSync<'a, T>(pub &'a T);
unsafe impl<T> Sync for AssertSync<'_, T> {}
unsafe impl<T> Send for AssertSync<'_, T> {}

fn case_copy(ctx: &Ctx) -> Case {
    let shape = gen_big_shape(THR, 5);
    let form = below(8);
    let spec = gen_spec(&shape, true);
    let tk = coin(1, 4);
    desc!("copy form {form} t[{}]", show_spec(&spec));
    if tk { copy_case::<Tk>(ctx, form, spec) } else { copy_case::<Y>(ctx, form, spec) }
}
fn copy_case<T: Elem + rstsr_dtype_traits::DTypeCastAPI<T>>(ctx: &Ctx, form: usize, spec: Spec) -> Case {
    let o = Opnd::<T>::gen(spec, Vals::Distinct);
    let order = if coin(1, 2) { FlagOrder::C } else { FlagOrder::F };
    let target = gen_spec(&o.spec.shape, false);
    desc!("target order {order:?} layout [{}]", show_spec(&target));
    let ctx = ctx.clone();
    Box::new(move || {
        let shape = o.spec.shape.clone();
        let want: Vec<T> = vals(&o.logical());
        let t = mk(&o, &ctx.dev);
        let what = format!("copy form {form}");
        let r: Option<Tsr<T>> = ctx.enter(|| match form {
            0 => must_f(&what, || t.to_contig_f(order).map(|c| c.into_owned())),
            1 => must_f(&what, || t.to_prefer_f(order).map(|c| c.into_owned())),
            // gaps between elements stay unset, so only gapless targets for owned copies
            2 => must_f(&what, || t.to_layout_f(Spec::contig_f(&shape).layout()).map(|c| c.into_owned())),
            3 => must_f(&what, || mk(&o, &ctx.dev).into_contig_f(order)),
            4 => must_f(&what, || mk(&o, &ctx.dev).into_prefer_f(order)),
            5 => must(&what, call(|| t.to_owned())),
            6 => must(&what, call(|| rt::asarray((&t, if order == FlagOrder::C { TensorIterOrder::C } else { TensorIterOrder::F })))),
            _ => must(&what, call(|| t.view().into_owned())),
        });
        if let Some(c) = r {
            expect_tensor(&what, &c, &shape, &want);
            if matches!(form, 0 | 3) {
                let ok = match order {
                    FlagOrder::C => c.layout().c_contig(),
                    _ => c.layout().f_contig(),
                };
                if !ok {
                    fail!("wrong-layout", "{what}: result is not contiguous in the requested order: {:?}", c.layout());
                }
            }
        }
        simcore::quiet(|| {
            o.unchanged(t.raw(), "source");
            drop(want);
        });
        let _ = &target;
    })
}

pub fn run() {
    let ctx = Ctx::gen(true);
    let kind = weighted(&[10, 6, 6, 4, 4, 4, 6, 4, 6, 8, 6, 1]);
    let _ = IxD::default();
    let gens: [&dyn Fn(&Ctx) -> Case; 12] = [
        &case_binary, &case_scalar, &case_assign_op, &case_with_output, &case_unary_y, &case_unary_f, &case_common, &case_mixed, &case_assign,
        &case_map, &case_copy, &case_repeat,
    ];
    run_cases(&ctx, gens[kind]);
}
