//! C02: parallel reductions.
use super::util::*;
use crate::fw::*;
use num::complex::Complex;
use rstsr_core::prelude::*;
use rstsr_core::tensor::reduction::TensorSumBoolAPI;

const THR: &[usize] = &[1024, 2048];

/// groups of source positions (row-major numbering) contributing to each element of the result, in logical order
pub fn groups(shape: &[usize], sel: &[usize]) -> (Vec<usize>, Vec<Vec<usize>>) {
    let rest: Vec<usize> = (0..shape.len()).filter(|k| !sel.contains(k)).collect();
    let osh: Vec<usize> = rest.iter().map(|&k| shape[k]).collect();
    let mut g = vec![Vec::new(); numel(&osh)];
    // walk the source in order, keeping the output index incrementally
    let n = numel(shape);
    let mut ix = vec![0usize; shape.len()];
    let mut ost = vec![0usize; shape.len()];
    let mut acc = 1;
    for &k in rest.iter().rev() {
        ost[k] = acc;
        acc *= shape[k];
    }
    let mut o = 0usize;
    for i in 0..n {
        g[o].push(i);
        let mut k = shape.len();
        while k > 0 {
            k -= 1;
            ix[k] += 1;
            o += ost[k];
            if ix[k] < shape[k] {
                break;
            }
            o -= ost[k] * shape[k];
            ix[k] = 0;
        }
    }
    (osh, g)
}
/// compare float results within a tolerance; `w` gives the expected (re, im, scale)
fn expect_close(what: &str, shape: &[usize], got_shape: &[usize], got: &[(f64, f64)], want: &[(f64, f64)], tol: &[f64]) {
    if shape != got_shape {
        fail!("wrong-shape", "{what}: shape {got_shape:?}, expected {shape:?}");
        return;
    }
    let ok = |a: f64, b: f64, t: f64| (a.is_nan() && b.is_nan()) || a == b || (a - b).abs() <= t;
    let bad: Vec<usize> = (0..want.len()).filter(|&i| !(ok(got[i].0, want[i].0, tol[i]) && ok(got[i].1, want[i].1, tol[i]))).collect();
    if let Some(&i) = bad.first() {
        fail!(
            "wrong-value",
            "{what}: {} of {} elements wrong; index {:?} is {:?}, expected {:?} within {:e}",
            bad.len(),
            want.len(),
            unravel(i, shape),
            got[i],
            want[i],
            tol[i]
        );
    }
}

struct Setup {
    spec: Spec,
    axes: Option<Vec<isize>>,
    sel: Vec<usize>,
    /// reduce everything through the `_all` form
    all: bool,
    view: usize,
}
fn setup(what: &str, allow_zero: bool) -> Setup {
    let mut shape = gen_big_shape(THR, 5);
    if !allow_zero {
        shape.iter_mut().for_each(|n| *n = (*n).max(1));
    }
    let spec = gen_spec(&shape, true);
    let all = coin(1, 3);
    let (axes, sel) = gen_axes(shape.len());
    let view = below(3);
    let s = Setup { spec, axes, sel, all, view };
    desc!("{what} {} t[{}]", if s.all { "over all".to_string() } else { format!("over axes {:?}", s.axes) }, show_spec(&s.spec));
    s
}
impl Setup {
    fn groups(&self) -> (Vec<usize>, Vec<Vec<usize>>) {
        let sel = if self.all { (0..self.spec.ndim()).collect() } else { self.sel.clone() };
        groups(&self.spec.shape, &sel)
    }
}
/// call one reduction in the chosen form, `_all` results become a one-element list
macro_rules! reduce {
    ($s:expr, $t:expr, $all:ident, $axes:ident) => {{
        let s: &Setup = $s;
        if s.all {
            (if s.view == 0 { $t.$all() } else { $t.view().$all() }).map(|v| Out::All(v))
        } else {
            (if s.view == 0 { $t.$axes(axes_arg(&s.axes)) } else { $t.view().$axes(axes_arg(&s.axes)) }).map(Out::Axes)
        }
    }};
}
enum Out<T> {
    All(T),
    Axes(Tsr<T>),
}
fn check_exact<T: Elem>(what: &str, out: Out<T>, osh: &[usize], want: &[T]) {
    match out {
        Out::All(v) => {
            if !simcore::quiet(|| v.same(&want[0])) {
                fail!("wrong-value", "{what}: result {}, expected {}", v.show(), want[0].show());
            }
        },
        Out::Axes(t) => expect_tensor(what, &t, osh, want),
    }
}
fn check_float<T: Clone>(what: &str, out: Out<T>, osh: &[usize], f: impl Fn(&T) -> (f64, f64), want: &[(f64, f64)], tol: &[f64]) {
    match out {
        Out::All(v) => expect_close(what, &[], &[], &[f(&v)], want, tol),
        Out::Axes(t) => match read(&t) {
            None => fail!("layout-out-of-buffer", "{what}: result layout leaves its buffer"),
            Some((sh, v)) => {
                let g: Vec<(f64, f64)> = simcore::quiet(|| v.iter().map(&f).collect());
                expect_close(what, osh, &sh, &g, want, tol)
            },
        },
    }
}

trait Exact: Elem {
    const OPS: usize;
    fn red(k: usize, s: &Setup, t: &Tsr<Self>) -> rstsr_common::error::Result<Out<Self>>;
}
macro_rules! exact {
    ($T:ty) => {
        impl Exact for $T {
            const OPS: usize = 4;
            fn red(k: usize, s: &Setup, t: &Tsr<$T>) -> rstsr_common::error::Result<Out<$T>> {
                match k {
                    0 => reduce!(s, t, sum_all_f, sum_axes_f),
                    1 => reduce!(s, t, prod_all_f, prod_axes_f),
                    2 => reduce!(s, t, min_all_f, min_axes_f),
                    _ => reduce!(s, t, max_all_f, max_axes_f),
                }
            }
        }
    };
}
exact!(Y);
exact!(Tk);
exact!(u8);
fn exact_case<T: Exact>(ctx: &Ctx) -> Case {
    let k = below(T::OPS);
    let name = ["sum", "prod", "min", "max"][k];
    let s = setup(&format!("{name} of {}", T::NAME), k < 2);
    let mode = match k {
        // products: mostly ones so that a lost or repeated factor shows
        1 => pick(&[Vals::Const(1), Vals::Wide, Vals::Small(2)]),
        2 => pick(&[Vals::Wide, Vals::Const(5), Vals::Small(4)]),
        3 => pick(&[Vals::Wide, Vals::Const(-5), Vals::Small(4)]),
        _ => pick(&[Vals::Wide, Vals::Distinct, Vals::Small(9), Vals::Const(1)]),
    };
    // u8 would overflow (and panic in this build): values 0/1 only
    let is_u8 = T::NAME == "u8";
    let mut o = Opnd::<T>::gen(s.spec.clone(), if is_u8 { Vals::Const(if k == 1 { 1 } else { 0 }) } else { mode });
    // plant marks: few positions carry a distinguished value
    let n = o.keys.len();
    if n > 0 && coin(2, 3) {
        for _ in 0..range(1, 3) {
            let p = below(n);
            o.keys[p] = match k {
                0 => if is_u8 { 1 } else { 1 << 40 },
                1 => if is_u8 { 2 } else { 3 },
                2 => if is_u8 { 0 } else { -77 },
                _ => 77,
            };
        }
    }
    if is_u8 && k < 2 && s.spec.is_bcast() {
        o.keys.iter_mut().for_each(|v| *v = if k == 1 { 1 } else { 0 });
    }
    let ctx = ctx.clone();
    Box::new(move || {
        let (osh, g) = s.groups();
        let x = o.logical();
        let want: Vec<T> = simcore::quiet(|| {
            g.iter()
                .map(|ix| {
                    let it = ix.iter().map(|&i| x[i]);
                    T::mk(match k {
                        0 => it.fold(0, |a: i64, b| a.wrapping_add(b)),
                        1 => it.fold(1, |a: i64, b| a.wrapping_mul(b)),
                        2 => it.fold(i64::MAX, |a, b| a.min(b)),
                        _ => it.fold(i64::MIN, |a, b| a.max(b)),
                    } as u64)
                })
                .collect()
        });
        let what = name.to_string();
        let t = mk(&o, &ctx.dev);
        // an empty selection of non-empty result has no minimum: only non-empty tensors reach here for min/max
        let r = ctx.enter(|| must_f(&what, || T::red(k, &s, &t)));
        if let Some(out) = r {
            check_exact(&what, out, &osh, &want);
        }
        o.unchanged(t.raw(), "operand");
        simcore::quiet(|| drop(want));
    })
}
fn case_count(ctx: &Ctx) -> Case {
    let s = setup("count_nonzero", true);
    let o = Opnd::<Y>::gen(s.spec.clone(), pick(&[Vals::Small(1), Vals::Const(0), Vals::Const(3)]));
    let ctx = ctx.clone();
    Box::new(move || {
        let (osh, g) = s.groups();
        let x = o.logical();
        let want: Vec<usize> = g.iter().map(|ix| ix.iter().filter(|&&i| x[i] != 0).count()).collect();
        let t = mk(&o, &ctx.dev);
        let r = ctx.enter(|| must_f("count_nonzero", || reduce!(&s, t, count_nonzero_all_f, count_nonzero_axes_f)));
        if let Some(out) = r {
            check_exact("count_nonzero", out, &osh, &want);
        }
        o.unchanged(t.raw(), "operand");
    })
}
fn case_bool(ctx: &Ctx) -> Case {
    let k = below(3);
    let name = ["all", "any", "sum of bool"][k];
    let s = setup(name, true);
    let mut o = Opnd::<bool>::gen(s.spec.clone(), if k == 2 { Vals::Small(1) } else { Vals::Const(if k == 0 { 1 } else { 0 }) });
    for _ in 0..below(4) {
        if !o.keys.is_empty() {
            let p = below(o.keys.len());
            o.keys[p] ^= 1;
        }
    }
    let ctx = ctx.clone();
    Box::new(move || {
        let (osh, g) = s.groups();
        let x: Vec<bool> = o.logical().iter().map(|&v| v & 1 == 1).collect();
        let t = mk(&o, &ctx.dev);
        if k == 2 {
            let want: Vec<usize> = g.iter().map(|ix| ix.iter().filter(|&&i| x[i]).count()).collect();
            let r = ctx.enter(|| {
                must_f(name, || {
                    if s.all {
                        TensorSumBoolAPI::sum_all_f(&t).map(Out::All)
                    } else {
                        TensorSumBoolAPI::sum_axes_f(&t, axes_arg(&s.axes)).map(Out::Axes)
                    }
                })
            });
            if let Some(out) = r {
                check_exact(name, out, &osh, &want);
            }
        } else {
            let want: Vec<bool> = g.iter().map(|ix| if k == 0 { ix.iter().all(|&i| x[i]) } else { ix.iter().any(|&i| x[i]) }).collect();
            let r = ctx.enter(|| {
                must_f(name, || match k {
                    0 => reduce!(&s, t, all_all_f, all_axes_f),
                    _ => reduce!(&s, t, any_all_f, any_axes_f),
                })
            });
            if let Some(out) = r {
                check_exact(name, out, &osh, &want);
            }
        }
        o.unchanged(t.raw(), "operand");
    })
}

trait Flt: Elem + Copy {
    type Real: Copy + 'static;
    fn of(k: i64) -> Self;
    fn pair(&self) -> (f64, f64);
    fn rpair(r: &Self::Real) -> (f64, f64);
    const EPS: f64;
    fn f1(k: usize, s: &Setup, t: &Tsr<Self>) -> rstsr_common::error::Result<Out<Self>>;
    fn f2(k: usize, s: &Setup, t: &Tsr<Self>) -> rstsr_common::error::Result<Out<Self::Real>>;
}
macro_rules! flt {
    ($T:ty, $R:ty, $eps:expr, |$k:ident| $of:expr, |$v:ident| $pair:expr) => {
        impl Flt for $T {
            type Real = $R;
            const EPS: f64 = $eps;
            fn of($k: i64) -> $T {
                $of
            }
            fn pair(&self) -> (f64, f64) {
                let $v = self;
                $pair
            }
            fn rpair(r: &$R) -> (f64, f64) {
                (*r as f64, 0.0)
            }
            fn f1(k: usize, s: &Setup, t: &Tsr<$T>) -> rstsr_common::error::Result<Out<$T>> {
                match k {
                    0 => reduce!(s, t, sum_all_f, sum_axes_f),
                    _ => reduce!(s, t, mean_all_f, mean_axes_f),
                }
            }
            fn f2(k: usize, s: &Setup, t: &Tsr<$T>) -> rstsr_common::error::Result<Out<$R>> {
                match k {
                    2 => reduce!(s, t, var_all_f, var_axes_f),
                    3 => reduce!(s, t, std_all_f, std_axes_f),
                    _ => reduce!(s, t, l2_norm_all_f, l2_norm_axes_f),
                }
            }
        }
    };
}
flt!(f64, f64, 2.2e-16, |k| k as f64 * 0.1875, |v| (*v, 0.0));
flt!(f32, f32, 1.2e-7, |k| k as f32 * 0.1875, |v| (*v as f64, 0.0));
flt!(Complex<f64>, f64, 2.2e-16, |k| Complex::new(k as f64 * 0.25, ((k * 5 + 3) % 7) as f64 * 0.5), |v| (v.re, v.im));
fn float_case<T: Flt>(ctx: &Ctx) -> Case {
    let k = below(5);
    let name = ["sum", "mean", "var", "std", "l2_norm"][k];
    let s = setup(&format!("{name} of {}", T::NAME), true);
    let o = Opnd::<T>::gen(s.spec.clone(), pick(&[Vals::Small(9), Vals::Small(100), Vals::Const(3)]));
    let ctx = ctx.clone();
    Box::new(move || {
        let (osh, g) = s.groups();
        let buf = || {
            let mut v = Vec::with_capacity(o.keys.len());
            v.extend(o.keys.iter().map(|&k| T::of(k)));
            v
        };
        let x: Vec<(f64, f64)> = o.logical().iter().map(|&k| T::of(k).pair()).collect();
        let mut want = Vec::new();
        let mut tol = Vec::new();
        for ix in &g {
            let n = ix.len() as f64;
            let (mut sr, mut si, mut sq, mut sa) = (0.0f64, 0.0f64, 0.0f64, 0.0f64);
            for &i in ix {
                sr += x[i].0;
                si += x[i].1;
                sa += x[i].0.abs() + x[i].1.abs();
                sq += x[i].0 * x[i].0 + x[i].1 * x[i].1;
            }
            let (mr, mi) = (sr / n, if T::NAME.starts_with("c") { si / n } else { 0.0 });
            let var = ix.iter().map(|&i| (x[i].0 - mr).powi(2) + (x[i].1 - mi).powi(2)).sum::<f64>() / n;
            // any summation order is within n*eps*sum|x| of the exact sum
            let e = (n + 8.0) * T::EPS;
            let (w, t) = match k {
                0 => ((sr, si), e * sa),
                1 => ((mr, mi), e * sa / n),
                2 => ((var, 0.0), 4.0 * e * sq / n),
                // the one-pass formula may leave a tiny variance of either sign
                3 => ((var.sqrt(), 0.0), if var > 0.0 { (4.0 * e * sq / n / var.sqrt()).min((4.0 * e * sq / n).sqrt()) } else { (4.0 * e * sq / n).sqrt() }),
                _ => ((sq.sqrt(), 0.0), e * sq.sqrt()),
            };
            want.push(w);
            tol.push(t + 1e-300);
        }
        let t: Tsr<T> = rt::asarray((buf(), o.spec.layout(), &ctx.dev));
        if k < 2 {
            if let Some(out) = ctx.enter(|| must_f(name, || T::f1(k, &s, &t))) {
                check_float(name, out, &osh, |v| v.pair(), &want, &tol);
            }
        } else if let Some(out) = ctx.enter(|| must_f(name, || T::f2(k, &s, &t))) {
            // a variance within rounding of zero may come out negative, its root as NaN
            let f = |v: &T::Real| {
                let p = T::rpair(v);
                if k == 3 && p.0.is_nan() { (0.0, 0.0) } else { p }
            };
            let want: Vec<(f64, f64)> = if k == 3 { want.iter().map(|w| if w.0.is_nan() { (0.0, 0.0) } else { *w }).collect() } else { want };
            check_float(name, out, &osh, f, &want, &tol);
        }
        simcore::quiet(|| {
            for (a, b) in t.raw().iter().zip(buf()) {
                if a.key() != b.key() {
                    fail!("operand-changed", "{name}: operand changed");
                    break;
                }
            }
        });
    })
}
/// floating minima and maxima are exact, infinities included
fn case_fminmax(ctx: &Ctx) -> Case {
    let k = below(2);
    let name = ["min", "max"][k];
    let s = setup(&format!("{name} of f64"), false);
    let mut o = Opnd::<f64>::gen(s.spec.clone(), pick(&[Vals::Wide, Vals::Small(3), Vals::Const(i64::MAX), Vals::Const(i64::MIN)]));
    if !o.keys.is_empty() && coin(1, 2) {
        let p = below(o.keys.len());
        o.keys[p] = if k == 0 { -5 } else { 5 };
    }
    let f = |k: i64| match k {
        i64::MAX => f64::INFINITY,
        i64::MIN => f64::NEG_INFINITY,
        k => k as f64,
    };
    let ctx = ctx.clone();
    Box::new(move || {
        let (osh, g) = s.groups();
        let x: Vec<f64> = o.logical().into_iter().map(f).collect();
        let want: Vec<f64> = g
            .iter()
            .map(|ix| {
                let it = ix.iter().map(|&i| x[i]);
                if k == 0 { it.fold(f64::INFINITY, f64::min) } else { it.fold(f64::NEG_INFINITY, f64::max) }
            })
            .collect();
        let mut v = Vec::with_capacity(o.keys.len());
        v.extend(o.keys.iter().map(|&k| f(k)));
        let t: Tsr<f64> = rt::asarray((v, o.spec.layout(), &ctx.dev));
        let r = ctx.enter(|| {
            must_f(name, || match k {
                0 => reduce!(&s, t, min_all_f, min_axes_f),
                _ => reduce!(&s, t, max_all_f, max_axes_f),
            })
        });
        if let Some(out) = r {
            check_exact(name, out, &osh, &want);
        }
    })
}
fn case_allclose(ctx: &Ctx) -> Case {
    let (mut sa, mut sb, mut sc) = super::util::gen_pair(ctx.col, THR);
    for v in [&mut sa, &mut sb, &mut sc] {
        v.iter_mut().for_each(|n| *n = (*n).max(1));
    }
    let (spa, spb) = (gen_spec(&sa, true), gen_spec(&sb, true));
    let f32s = coin(1, 4);
    desc!("allclose{} a[{}] b[{}]", if f32s { " (f32,f64)" } else { "" }, show_spec(&spa), show_spec(&spb));
    // all values equal up to a difference planted at a few places
    let base = 3.0f64;
    let off = pick(&[0.0f64, 1e-9, 1e-3, 1.0]);
    let na = spa.len;
    let nb = spb.len;
    let (mut va, mut vb) = (vec![base; na], vec![base; nb]);
    let marks = below(3);
    for _ in 0..marks {
        if coin(1, 2) {
            let p = below(na);
            va[p] += off;
        } else {
            let p = below(nb);
            vb[p] += off;
        }
    }
    let args = (pick(&[1e-5f64, 1e-2, 0.0]), pick(&[1e-8f64, 0.0]), coin(1, 2));
    if coin(1, 6) && args.2 {
        va.iter_mut().for_each(|v| *v = f64::NAN);
        if coin(1, 2) {
            vb.iter_mut().for_each(|v| *v = f64::NAN);
        }
    }
    let ctx = ctx.clone();
    Box::new(move || {
        let pa = spa.bpositions_o(&sc, ctx.col);
        let pb = spb.bpositions_o(&sc, ctx.col);
        let cv = |v: f64| if f32s { v as f32 as f64 } else { v };
        let want = pa.iter().zip(&pb).all(|(&i, &j)| {
            let (a, b) = (cv(va[i]), vb[j]);
            (a - b).abs() <= args.1 + args.0 * b.abs() || (args.2 && a.is_nan() && b.is_nan())
        });
        let tb: Tsr<f64> = rt::asarray((vb.clone(), spb.layout(), &ctx.dev));
        let got = if f32s {
            let ta: Tsr<f32> = rt::asarray((va.iter().map(|&v| v as f32).collect::<Vec<f32>>(), spa.layout(), &ctx.dev));
            ctx.enter(|| must_f("allclose", || rt::allclose_f(&ta, &tb, args)))
        } else {
            let ta: Tsr<f64> = rt::asarray((va.clone(), spa.layout(), &ctx.dev));
            ctx.enter(|| must_f("allclose", || rt::allclose_f(&ta, &tb, args)))
        };
        if let Some(g) = got {
            if g != want {
                fail!("wrong-value", "allclose: {g}, expected {want}");
            }
        }
    })
}

pub fn run() {
    let ctx = Ctx::gen(true);
    let gens: [&dyn Fn(&Ctx) -> Case; 10] = [
        &exact_case::<Y>, &exact_case::<Tk>, &exact_case::<u8>, &case_count, &case_bool, &float_case::<f64>, &float_case::<f32>,
        &float_case::<Complex<f64>>, &case_fminmax, &case_allclose,
    ];
    let kind = weighted(&[10, 3, 1, 3, 3, 4, 2, 2, 2, 4]);
    run_cases(&ctx, gens[kind]);
}
