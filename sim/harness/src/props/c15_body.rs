// compiled once per device and element type: D, T, R, BLAS and device() come from the including module
use rstsr_common::prelude::{DimAPI, IxD};
use rstsr_core::prelude::*;
use rstsr_core::prelude_dev::{DataAPI, FlagUpLo, Lower, Upper};
use rstsr_linalg_traits::prelude::rstsr_funcs as la;

const CPLX: bool = <T as Sc>::CPLX;
const EPS: f64 = <T as Sc>::EPS;

fn mx<S, Dm: DimAPI>(t: &TensorAny<S, T, D, Dm>) -> Mx
where
    S: DataAPI<Data = Vec<T>>,
{
    let l = t.layout();
    let shape: Vec<usize> = l.shape().as_ref().to_vec();
    let stride: Vec<isize> = l.stride().as_ref().to_vec();
    let raw: &Vec<T> = t.raw();
    let v: Vec<C64> = positions(&shape, &stride, l.offset())
        .into_iter()
        .map(|p| match raw.get(p) {
            Some(x) => x.c(),
            None => {
                fail!("layout-out-of-buffer", "a result's layout leaves its buffer");
                C64::new(f64::NAN, 0.0)
            },
        })
        .collect();
    Mx { m: shape.get(0).copied().unwrap_or(1), n: shape.get(1).copied().unwrap_or(1), v }
}
fn reals<S, Dm: DimAPI>(t: &TensorAny<S, R, D, Dm>) -> Vec<f64>
where
    S: DataAPI<Data = Vec<R>>,
{
    let l = t.layout();
    let shape: Vec<usize> = l.shape().as_ref().to_vec();
    let stride: Vec<isize> = l.stride().as_ref().to_vec();
    positions(&shape, &stride, l.offset()).into_iter().map(|p| t.raw()[p] as f64).collect()
}
fn dims<S, E, Dm: DimAPI>(t: &TensorAny<S, E, D, Dm>) -> Vec<usize>
where
    D: rstsr_core::prelude_dev::DeviceAPI<E>,
    S: DataAPI<Data = Vec<E>>,
{
    t.layout().shape().as_ref().to_vec()
}
fn tensor(s: &Stored<T>, dev: &D) -> Tensor<T, D, IxD> {
    rt::asarray((s.buf.clone(), s.spec.layout(), dev))
}
fn tri(u: bool) -> FlagUpLo {
    if u { Upper } else { Lower }
}
/// Hermitian matrix of which only one triangle is given; the other one holds other numbers
fn one_triangle(a: &Mx, upper: bool) -> Stored<T> {
    Stored::new(&[a.m, a.n], &|i, j| if i == j || (j > i) == upper { a.at(i, j) } else { C64::new(31.0 + i as f64, 0.0) })
}
fn show(s: &Stored<T>) -> String {
    show_spec(&s.spec)
}
/// which triangle: given by the caller or the device's default
fn gen_uplo(ctx: &Ctx) -> (Option<bool>, bool) {
    match below(3) {
        0 => (None, ctx.col),
        1 => (Some(true), true),
        _ => (Some(false), false),
    }
}

fn case_cholesky(ctx: &Ctx) -> Case {
    let ctx = ctx.clone();
    let n = gen_n(&[64, 96]);
    let (up, upper) = gen_uplo(&ctx);
    let bad = coin(1, 6);
    let mut a = Mx::spd(n, seed32(), CPLX);
    if bad {
        let k = below(n);
        let x = a.at(k, k);
        a.set(k, k, -x);
    }
    let s = one_triangle(&a, upper);
    let form = below(3);
    desc!("{DEVNAME} cholesky of {} [{}] triangle {up:?}{}", <T as Elem>::NAME, show(&s), if bad { ", not positive definite" } else { "" });
    Box::new(move || {
        let dev = device(&ctx);
        let t = tensor(&s, &dev);
        let r = ctx.enter(|| {
            call(|| match (up, form) {
                (None, 0) => la::cholesky_f(&t),
                (None, 1) => la::cholesky_f(t.view()),
                (None, _) => la::cholesky_f((&t, None)),
                (Some(u), 0) => la::cholesky_f((&t, tri(u))),
                (Some(u), 1) => la::cholesky_f((t.view(), tri(u))),
                (Some(u), _) => la::cholesky_f((t.view(), Some(tri(u)))),
            })
        });
        s.unchanged(t.raw(), "operand of cholesky");
        simcore::quiet(|| match r {
            Err(e) => fail!("unexpected-failure", "cholesky panicked: {e}"),
            Ok(Err(_)) if bad => probe("not positive definite reported"),
            Ok(Err(e)) => fail!("unexpected-failure", "cholesky returned an error: {e:?}"),
            Ok(Ok(_)) if bad => fail!("error-not-reported", "cholesky of a matrix that is not positive definite succeeded"),
            Ok(Ok(l)) => {
                if !shape_is("cholesky", &dims(&l), &[n, n]) {
                    return;
                }
                let l = mx(&l);
                for i in 0..n {
                    for j in 0..n {
                        if i == j || (j > i) == upper {
                            continue;
                        }
                        if l.at(i, j).norm() != 0.0 {
                            fail!("wrong-value", "cholesky: the other triangle holds {} at ({i}, {j})", l.at(i, j));
                            return;
                        }
                    }
                }
                let p = if upper { l.h().mul(&l) } else { l.mul(&l.h()) };
                small("cholesky product", p.dist(&a), 20.0 * EPS * (n as f64 + 4.0) * a.norm());
                if (0..n).any(|i| !(l.at(i, i).re > 0.0)) {
                    fail!("wrong-value", "cholesky: the diagonal is not positive");
                }
            },
        })
    })
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Pass {
    Ref,
    View,
    Mut,
    Owned,
}
/// solve with every way of passing both operands
macro_rules! solve {
    ($f:path, $sa:expr, $dev:expr, $ta:ident, $tb:ident, $pa:expr, $pb:expr, ($($x:expr),*)) => {{
        use Pass::*;
        let get = |t: &Tensor<T, D, IxD>| (dims(t), mx(t));
        macro_rules! got {
            ($e:expr) => {
                $e.map(|t| (dims(&t), mx(&t)))
            };
        }
        let _ = get;
        let mut va = tensor($sa, $dev);
        let r = match ($pa, $pb) {
            (Ref, Ref) => got!($f((&$ta, &$tb $(, $x)*))),
            (Ref, View) => got!($f((&$ta, $tb.view() $(, $x)*))),
            (View, Ref) => got!($f(($ta.view(), &$tb $(, $x)*))),
            (View, View) => got!($f(($ta.view(), $tb.view() $(, $x)*))),
            (Ref, Mut) => got!($f((&$ta, $tb.view_mut() $(, $x)*))),
            (View, Mut) => got!($f(($ta.view(), $tb.view_mut() $(, $x)*))),
            (Ref, Owned) => got!($f((&$ta, $tb.clone() $(, $x)*))),
            (View, Owned) => got!($f(($ta.view(), $tb.clone() $(, $x)*))),
            (Mut, Ref) => got!($f((va.view_mut(), &$tb $(, $x)*))),
            (Mut, View) => got!($f((va.view_mut(), $tb.view() $(, $x)*))),
            (Owned, Ref) => got!($f(($ta.clone(), &$tb $(, $x)*))),
            (Owned, View) => got!($f(($ta.clone(), $tb.view() $(, $x)*))),
            (Mut, Mut) => got!($f((va.view_mut(), $tb.view_mut() $(, $x)*))),
            (Mut, Owned) => got!($f((va.view_mut(), $tb.clone() $(, $x)*))),
            (Owned, Mut) => got!($f(($ta.clone(), $tb.view_mut() $(, $x)*))),
            (Owned, Owned) => got!($f(($ta.clone(), $tb.clone() $(, $x)*))),
        };
        (r, va)
    }};
}
fn gen_pass() -> (Pass, Pass) {
    const P: [Pass; 4] = [Pass::Ref, Pass::View, Pass::Mut, Pass::Owned];
    (pick(&P), pick(&P))
}
/// checks shared by the solvers: the solution, and what became of the operands
fn solved(
    what: &str,
    a: &Mx,
    sa: &Stored<T>,
    sb: &Stored<T>,
    (pa, pb): (Pass, Pass),
    r: Result<rstsr_common::error::Result<(Vec<usize>, Mx)>, String>,
    (raw_a, raw_va): (&[T], &[T]),
    raw_b: &[T],
) {
    simcore::quiet(|| {
        sa.unchanged(raw_a, "matrix of the system");
        if pa == Pass::Mut {
            sa.overwritten(raw_va, "matrix of the system");
        }
        let (shape, x) = match r {
            Err(e) => return fail!("unexpected-failure", "{what} panicked: {e}"),
            Ok(Err(e)) => return fail!("unexpected-failure", "{what} returned an error: {e:?}"),
            Ok(Ok(v)) => v,
        };
        if !shape_is(what, &shape, &sb.spec.shape) {
            return;
        }
        let b = sb.mx();
        let n = a.m as f64;
        small(what, a.mul(&x).dist(&b), 300.0 * EPS * (n + 4.0) * (a.norm() * x.norm() + b.norm()));
        if pb == Pass::Mut {
            let now = sb.overwritten(raw_b, "right-hand side");
            if now.dist(&x) != 0.0 {
                fail!("wrong-value", "{what}: the overwritten operand does not hold the result");
            }
        } else {
            sb.unchanged(raw_b, "right-hand side");
        }
    })
}
fn gen_rhs(n: usize) -> Stored<T> {
    let shape: Vec<usize> = if coin(1, 3) { vec![n] } else { vec![n, range(1, 20)] };
    let b = Mx::rand(n, shape.get(1).copied().unwrap_or(1), seed32(), CPLX);
    Stored::new(&shape, &|i, j| if shape.len() == 1 { b.v[i + j] } else { b.at(i, j) })
}

fn case_triangular(ctx: &Ctx) -> Case {
    let ctx = ctx.clone();
    let n = gen_n(&[64, 128]);
    let (up, upper) = gen_uplo(&ctx);
    let mut a = Mx::rand(n, n, seed32(), CPLX);
    for i in 0..n {
        for j in 0..n {
            if i == j {
                let x = a.at(i, i);
                a.set(i, i, x + if x.re < 0.0 { -1.5 } else { 1.5 });
            } else if (j > i) != upper {
                a.set(i, j, C64::new(0.0, 0.0));
            } else {
                a.v[i * n + j] /= (n as f64).sqrt();
            }
        }
    }
    let sa = one_triangle(&a, upper);
    let sb = gen_rhs(n);
    let (pa, pb) = gen_pass();
    let sub = coin(1, 2);
    desc!("{DEVNAME} solve_triangular of {} a[{}] {pa:?} b[{}] {pb:?} triangle {up:?}", <T as Elem>::NAME, show(&sa), show(&sb));
    Box::new(move || {
        let dev = device(&ctx);
        let (ta, mut tb) = (tensor(&sa, &dev), tensor(&sb, &dev));
        let mut raw_va = ta.clone();
        let r = ctx.enter(|| {
            call(|| {
                let (r, va) = match (up, sub) {
                    (None, true) => solve!(la::solve_triangular_f, &sa, &dev, ta, tb, pa, pb, ()),
                    (Some(u), true) => solve!(la::solve_triangular_f, &sa, &dev, ta, tb, pa, pb, (tri(u))),
                    (u, false) => solve!(la::solve_triangular_f, &sa, &dev, ta, tb, pa, pb, (u.map(tri))),
                };
                raw_va = va;
                r
            })
        });
        solved("triangular solve", &a, &sa, &sb, (pa, pb), r, (ta.raw(), raw_va.raw()), tb.raw());
    })
}
fn case_general(ctx: &Ctx) -> Case {
    let ctx = ctx.clone();
    let n = gen_n(&[64, 40]);
    let a = Mx::general(n, seed32(), CPLX);
    let sa = Stored::new(&[n, n], &|i, j| a.at(i, j));
    let sb = gen_rhs(n);
    let (pa, pb) = gen_pass();
    desc!("{DEVNAME} solve_general of {} a[{}] {pa:?} b[{}] {pb:?}", <T as Elem>::NAME, show(&sa), show(&sb));
    Box::new(move || {
        let dev = device(&ctx);
        let (ta, mut tb) = (tensor(&sa, &dev), tensor(&sb, &dev));
        let mut raw_va = ta.clone();
        let r = ctx.enter(|| {
            call(|| {
                let (r, va) = solve!(la::solve_general_f, &sa, &dev, ta, tb, pa, pb, ());
                raw_va = va;
                r
            })
        });
        solved("general solve", &a, &sa, &sb, (pa, pb), r, (ta.raw(), raw_va.raw()), tb.raw());
    })
}
fn case_inv_det(ctx: &Ctx) -> Case {
    let ctx = ctx.clone();
    let n = gen_n(&[64, 40]);
    let a = Mx::general(n, seed32(), CPLX);
    let s = Stored::new(&[n, n], &|i, j| a.at(i, j));
    let (form, det) = (below(3), n < 24 && coin(1, 2));
    desc!("{DEVNAME} {} of {} [{}]", if det { "determinant" } else { "inverse" }, <T as Elem>::NAME, show(&s));
    Box::new(move || {
        let dev = device(&ctx);
        let t = tensor(&s, &dev);
        if det {
            let r = must_f("determinant", || {
                ctx.enter(|| match form {
                    0 => la::det_f(&t),
                    1 => la::det_f(t.view()),
                    _ => la::det_f(t.clone()),
                })
            });
            simcore::quiet(|| {
                if let Some(d) = r {
                    let want = s.mx().det();
                    small("determinant", (d.c() - want).norm(), 1000.0 * EPS * (n as f64 + 4.0) * want.norm());
                }
            });
        } else {
            let r = must_f("inverse", || {
                ctx.enter(|| match form {
                    0 => la::inv_f(&t),
                    1 => la::inv_f(t.view()),
                    _ => la::inv_f(t.clone()),
                })
            });
            simcore::quiet(|| {
                if let Some(x) = r {
                    if shape_is("inverse", &dims(&x), &[n, n]) {
                        let (x, a) = (mx(&x), s.mx());
                        let p = a.mul(&x);
                        small("inverse", p.dist(&Mx::eye(n)), 300.0 * EPS * (n as f64 + 4.0) * a.norm() * x.norm());
                    }
                }
            });
        }
        s.unchanged(t.raw(), "operand");
    })
}
fn case_pinv(ctx: &Ctx) -> Case {
    let ctx = ctx.clone();
    let (m, n) = (gen_n(&[40]), gen_n(&[40]));
    let rank = range(1, m.min(n));
    let sv = gen_svals(rank);
    let a = with_svals(m, n, &sv, seed32(), CPLX);
    let s = Stored::new(&[m, n], &|i, j| a.at(i, j));
    let (form, tol) = (below(3), rank < m.min(n) || coin(1, 2));
    desc!("{DEVNAME} pinv of {} [{}] rank {rank}", <T as Elem>::NAME, show(&s));
    Box::new(move || {
        let dev = device(&ctx);
        let t = tensor(&s, &dev);
        let (at, rt_) = (0.0 as R, (EPS * 200.0 * m.max(n) as f64) as R);
        let r = must_f("pseudo-inverse", || {
            ctx.enter(|| match (tol, form) {
                (true, 0) => la::pinv_f((&t, at, rt_)),
                (true, _) => la::pinv_f((t.view(), at, rt_)),
                (false, 0) => la::pinv_f(&t),
                (false, 1) => la::pinv_f(t.view()),
                (false, _) => la::pinv_f(t.clone()),
            })
        });
        simcore::quiet(|| {
            if let Some(p) = r {
                if p.rank != rank {
                    fail!("wrong-value", "pseudo-inverse: rank {} reported, {rank} expected", p.rank);
                }
                if shape_is("pseudo-inverse", &dims(&p.pinv), &[n, m]) {
                    let (x, a) = (mx(&p.pinv), s.mx());
                    let b = 1000.0 * EPS * (m.max(n) as f64 + 4.0) * a.norm() * x.norm();
                    let (ax, xa) = (a.mul(&x), x.mul(&a));
                    small("pseudo-inverse A X A", ax.mul(&a).dist(&a), b * a.norm());
                    small("pseudo-inverse X A X", xa.mul(&x).dist(&x), b * x.norm());
                    small("pseudo-inverse A X Hermitian", ax.dist(&ax.h()), b);
                    small("pseudo-inverse X A Hermitian", xa.dist(&xa.h()), b);
                }
            }
        });
        s.unchanged(t.raw(), "operand of pinv");
    })
}
fn case_eigh(ctx: &Ctx) -> Case {
    let ctx = ctx.clone();
    let n = gen_n(&[40, 64]);
    let (up, upper) = gen_uplo(&ctx);
    let mut w = gen_svals(n);
    w.reverse();
    let shift = w[n / 2];
    for x in w.iter_mut() {
        *x -= shift;
    }
    let q = reflections(n, seed32(), CPLX);
    let a = q.cols(&w).mul(&q.h()).hermitian();
    let s = one_triangle(&a, upper);
    let (form, vals) = (below(3), coin(1, 3));
    desc!("{DEVNAME} {} of {} [{}] triangle {up:?}", if vals { "eigvalsh" } else { "eigh" }, <T as Elem>::NAME, show(&s));
    Box::new(move || {
        let dev = device(&ctx);
        let t = tensor(&s, &dev);
        let scale = a.norm();
        let same = |got: &[f64]| {
            if shape_is("eigenvalues", &[got.len()], &[n]) {
                ascending("eigenvalues", got, true);
                let d = got.iter().zip(&w).map(|(x, y)| (x - y).abs()).fold(0.0, |m: f64, x| if x.is_nan() { x } else if m.is_nan() { m } else { m.max(x) });
                small("eigenvalues", d, 200.0 * EPS * (n as f64 + 4.0) * (scale + 1.0));
            }
        };
        if vals {
            let r = must_f("eigvalsh", || {
                ctx.enter(|| match (up, form) {
                    (None, 0) => la::eigvalsh_f(&t),
                    (None, 1) => la::eigvalsh_f(t.view()),
                    (None, _) => la::eigvalsh_f(t.clone()),
                    (Some(u), 0) => la::eigvalsh_f((&t, tri(u))),
                    (Some(u), 1) => la::eigvalsh_f((t.view(), tri(u))),
                    (Some(u), _) => la::eigvalsh_f((t.clone(), tri(u))),
                })
            });
            simcore::quiet(|| {
                if let Some(e) = r {
                    same(&reals(&e));
                }
            });
        } else {
            let r = must_f("eigh", || {
                ctx.enter(|| match (up, form) {
                    (None, 0) => la::eigh_f(&t),
                    (None, 1) => la::eigh_f(t.view()),
                    (None, _) => la::eigh_f(t.clone()),
                    (Some(u), 0) => la::eigh_f((&t, tri(u))),
                    (Some(u), 1) => la::eigh_f((t.view(), tri(u))),
                    (Some(u), _) => la::eigh_f((t.clone(), tri(u))),
                })
            });
            simcore::quiet(|| {
                if let Some(e) = r {
                    let ev = reals(&e.eigenvalues);
                    same(&ev);
                    if ev.len() == n && shape_is("eigenvectors", &dims(&e.eigenvectors), &[n, n]) {
                        let v = mx(&e.eigenvectors);
                        unitary("eigenvectors", &v, EPS);
                        small("eigenvalue equation", a.mul(&v).dist(&v.cols(&ev)), 200.0 * EPS * (n as f64 + 4.0) * (scale + 1.0));
                    }
                }
            });
        }
        s.unchanged(t.raw(), "operand");
    })
}
fn case_generalized(ctx: &Ctx) -> Case {
    let ctx = ctx.clone();
    let n = gen_n(&[40]);
    let (up, upper) = gen_uplo(&ctx);
    let a = Mx::rand(n, n, seed32(), CPLX).hermitian();
    let bad = coin(1, 8);
    let mut b = Mx::spd(n, seed32(), CPLX);
    if bad {
        let k = below(n);
        let x = b.at(k, k);
        b.set(k, k, -x);
    }
    let (sa, sb) = (one_triangle(&a, upper), one_triangle(&b, upper));
    let (form, itype) = (below(3), if up.is_none() { 1 } else { range(1, 3) as i32 });
    desc!("{DEVNAME} generalized eigh of {} a[{}] b[{}] triangle {up:?} type {itype}{}", <T as Elem>::NAME, show(&sa), show(&sb), if bad { ", not positive definite" } else { "" });
    Box::new(move || {
        let dev = device(&ctx);
        let (ta, tb) = (tensor(&sa, &dev), tensor(&sb, &dev));
        let r = ctx.enter(|| {
            call(|| match (up, itype, form) {
                (None, _, 0) => la::eigh_f((&ta, &tb)),
                (None, _, _) => la::eigh_f((ta.view(), tb.view())),
                (Some(u), 1, 0) => la::eigh_f((&ta, &tb, tri(u))),
                (Some(u), t, 1) => la::eigh_f((&ta, tb.view(), tri(u), t)),
                (Some(u), t, _) => la::eigh_f((ta.view(), &tb, tri(u), t)),
            })
        });
        sa.unchanged(ta.raw(), "first operand of eigh");
        sb.unchanged(tb.raw(), "second operand of eigh");
        simcore::quiet(|| match r {
            Err(e) => fail!("unexpected-failure", "generalized eigh panicked: {e}"),
            Ok(Err(_)) if bad => probe("not positive definite reported"),
            Ok(Err(e)) => fail!("unexpected-failure", "generalized eigh returned an error: {e:?}"),
            Ok(Ok(_)) if bad => fail!("error-not-reported", "eigh with a matrix that is not positive definite succeeded"),
            Ok(Ok(e)) => {
                let w = reals(&e.eigenvalues);
                if !shape_is("eigenvalues", &[w.len()], &[n]) || !shape_is("eigenvectors", &dims(&e.eigenvectors), &[n, n]) {
                    return;
                }
                ascending("eigenvalues", &w, true);
                let v = mx(&e.eigenvectors);
                let (l, rr) = match itype {
                    1 => (a.mul(&v), b.mul(&v).cols(&w)),
                    2 => (a.mul(&b.mul(&v)), v.cols(&w)),
                    _ => (b.mul(&a.mul(&v)), v.cols(&w)),
                };
                let bound = 2000.0 * EPS * (n as f64 + 4.0) * (l.norm() + rr.norm() + a.norm() * b.norm() * v.norm());
                small("generalized eigenvalue equation", l.dist(&rr), bound);
                if itype < 3 {
                    let g = v.h().mul(&b.mul(&v));
                    small("normalisation of the eigenvectors", g.dist(&Mx::eye(n)), 2000.0 * EPS * (n as f64 + 4.0) * (1.0 + b.norm() * v.norm() * v.norm()));
                }
            },
        })
    })
}
fn case_svd(ctx: &Ctx) -> Case {
    let ctx = ctx.clone();
    let (m, n) = (gen_n(&[40, 64]), gen_n(&[40, 64]));
    let k = m.min(n);
    let sv = gen_svals(k);
    let a = with_svals(m, n, &sv, seed32(), CPLX);
    let s = Stored::new(&[m, n], &|i, j| a.at(i, j));
    let (form, kind) = (below(3), below(4));
    desc!("{DEVNAME} {} of {} [{}]", ["svd", "svd full", "svd thin", "svdvals"][kind], <T as Elem>::NAME, show(&s));
    Box::new(move || {
        let dev = device(&ctx);
        let t = tensor(&s, &dev);
        let scale = a.norm();
        let same = |got: &[f64]| {
            if shape_is("singular values", &[got.len()], &[k]) {
                ascending("singular values", got, false);
                let d = got.iter().zip(&sv).map(|(x, y)| (x - y).abs()).fold(0.0, |m: f64, x| if x.is_nan() { x } else if m.is_nan() { m } else { m.max(x) });
                small("singular values", d, 200.0 * EPS * (m.max(n) as f64 + 4.0) * scale);
            }
        };
        if kind == 3 {
            let r = must_f("svdvals", || {
                ctx.enter(|| match form {
                    0 => la::svdvals_f(&t),
                    1 => la::svdvals_f(t.view()),
                    _ => la::svdvals_f(t.clone()),
                })
            });
            simcore::quiet(|| {
                if let Some(e) = r {
                    same(&reals(&e));
                }
            });
        } else {
            let r = must_f("svd", || {
                ctx.enter(|| match (kind, form) {
                    (0, 0) => la::svd_f(&t),
                    (0, _) => la::svd_f(t.view()),
                    (q, 0) => la::svd_f((&t, q == 1)),
                    (q, _) => la::svd_f((t.view(), q == 1)),
                })
            });
            simcore::quiet(|| {
                if let Some(e) = r {
                    let (ku, kv) = if kind == 2 { (k, k) } else { (m, n) };
                    same(&reals(&e.s));
                    if shape_is("left vectors", &dims(&e.u), &[m, ku]) && shape_is("right vectors", &dims(&e.vt), &[kv, n]) {
                        let (u, vt) = (mx(&e.u), mx(&e.vt));
                        unitary("left singular vectors", &u, EPS);
                        unitary("right singular vectors", &vt.h(), EPS);
                        let got = reals(&e.s);
                        if got.len() == k {
                            let p = u.head_cols(k).cols(&got).mul(&vt.h().head_cols(k).h());
                            small("singular value decomposition", p.dist(&a), 200.0 * EPS * (m.max(n) as f64 + 4.0) * scale);
                        }
                    }
                }
            });
        }
        s.unchanged(t.raw(), "operand of svd");
    })
}
/// matrices the routines are not defined for: anything but a result
fn case_misuse(ctx: &Ctx) -> Case {
    let ctx = ctx.clone();
    let n = gen_n(&[20]);
    let m = n + range(1, 4);
    let what = below(6);
    let a = Mx::rand(m, n, seed32(), CPLX);
    let flip = coin(1, 2);
    let shape = if flip { [n, m] } else { [m, n] };
    let s = Stored::new(&shape, &|i, j| if flip { a.at(j, i) } else { a.at(i, j) });
    let b = gen_rhs(shape[0]);
    desc!("{DEVNAME} {} of {} that is not square [{}]", ["cholesky", "determinant", "inverse", "eigvalsh", "solve_general", "solve_triangular"][what], <T as Elem>::NAME, show(&s));
    Box::new(move || {
        let dev = device(&ctx);
        let (t, tb) = (tensor(&s, &dev), tensor(&b, &dev));
        let ok = ctx.enter(|| {
            call(|| match what {
                0 => la::cholesky_f(&t).is_ok(),
                1 => la::det_f(&t).is_ok(),
                2 => la::inv_f(&t).is_ok(),
                3 => la::eigvalsh_f(&t).is_ok(),
                4 => la::solve_general_f((&t, &tb)).is_ok(),
                _ => la::solve_triangular_f((&t, &tb)).is_ok(),
            })
        });
        s.unchanged(t.raw(), "operand");
        match ok {
            Ok(true) => fail!("error-not-reported", "a result was given for a matrix that is not square"),
            Ok(false) => probe("not square reported"),
            Err(_) => probe("not square refused by panic"),
        }
    })
}
pub fn gen(ctx: &Ctx) -> Case {
    match weighted(&[4, 4, 4, 4, 3, 4, 3, 4, 1]) {
        0 => case_cholesky(ctx),
        1 => case_triangular(ctx),
        2 => case_general(ctx),
        3 => case_inv_det(ctx),
        4 => case_pinv(ctx),
        5 => case_eigh(ctx),
        6 => case_generalized(ctx),
        7 => case_svd(ctx),
        _ => case_misuse(ctx),
    }
}
