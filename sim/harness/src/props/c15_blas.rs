// routines only the BLAS devices have; included after c15_body.rs
use rstsr_blas_traits::prelude::*;
use rstsr_linalg_traits::prelude::rstsr_structs::{EighArgs, SVDArgs};
fn case_symmetric(ctx: &Ctx) -> Case {
    let ctx = ctx.clone();
    let n = gen_n(&[64, 40]);
    let (up, upper) = gen_uplo(&ctx);
    // symmetric or Hermitian; the default is Hermitian
    let hermi = coin(1, 2);
    let mut a = Mx::rand(n, n, seed32(), CPLX);
    for i in 0..n {
        let d = a.at(i, i);
        let big = if d.re < 0.0 { -1.0 } else { 1.0 } * (n as f64 * 0.8 + 1.0);
        a.set(i, i, if hermi { C64::new(d.re + big, 0.0) } else { d + big });
        for j in 0..i {
            let x = a.at(i, j);
            a.set(j, i, if hermi { x.conj() } else { x });
        }
    }
    let sa = one_triangle(&a, upper);
    let sb = gen_rhs(n);
    let (pa, pb) = gen_pass();
    let sub = below(3);
    desc!("{DEVNAME} solve_symmetric of {} a[{}] {pa:?} b[{}] {pb:?} triangle {up:?} {}", <T as Elem>::NAME, show(&sa), show(&sb), if hermi { "Hermitian" } else { "symmetric" });
    Box::new(move || {
        let dev = device(&ctx);
        let (ta, mut tb) = (tensor(&sa, &dev), tensor(&sb, &dev));
        let mut raw_va = ta.clone();
        let r = ctx.enter(|| {
            call(|| {
                let (r, va) = match (up, sub) {
                    (None, 0) if hermi => solve!(la::solve_symmetric_f, &sa, &dev, ta, tb, pa, pb, ()),
                    (None, 1) => solve!(la::solve_symmetric_f, &sa, &dev, ta, tb, pa, pb, (hermi)),
                    (Some(u), 0) if hermi => solve!(la::solve_symmetric_f, &sa, &dev, ta, tb, pa, pb, (tri(u))),
                    (Some(u), 1) => solve!(la::solve_symmetric_f, &sa, &dev, ta, tb, pa, pb, (hermi, tri(u))),
                    (u, _) => solve!(la::solve_symmetric_f, &sa, &dev, ta, tb, pa, pb, (hermi, u.map(tri))),
                };
                raw_va = va;
                r
            })
        });
        solved("symmetric solve", &a, &sa, &sb, (pa, pb), r, (ta.raw(), raw_va.raw()), tb.raw());
    })
}
fn case_slogdet(ctx: &Ctx) -> Case {
    let ctx = ctx.clone();
    let n = gen_n(&[24]);
    let a = Mx::general(n, seed32(), CPLX);
    let s = Stored::new(&[n, n], &|i, j| a.at(i, j));
    let form = below(3);
    desc!("{DEVNAME} slogdet of {} [{}]", <T as Elem>::NAME, show(&s));
    Box::new(move || {
        let dev = device(&ctx);
        let t = tensor(&s, &dev);
        let r = must_f("slogdet", || {
            ctx.enter(|| match form {
                0 => la::slogdet_f(&t),
                1 => la::slogdet_f(t.view()),
                _ => la::slogdet_f(t.clone()),
            })
        });
        simcore::quiet(|| {
            if let Some(d) = r {
                let want = s.mx().det();
                let got = d.sign.c() * (d.logabsdet as f64).exp();
                small("sign and logarithm of the determinant", (got - want).norm(), 2000.0 * EPS * (n as f64 + 4.0) * (n as f64 + want.norm().ln().abs()) * want.norm());
                small("modulus of the sign", (d.sign.c().norm() - 1.0).abs(), 100.0 * EPS * (n as f64 + 4.0));
            }
        });
        s.unchanged(t.raw(), "operand");
    })
}
/// a system without a solution is reported
fn case_singular(ctx: &Ctx) -> Case {
    let ctx = ctx.clone();
    let n = gen_n(&[24]);
    let (what, k) = (below(3), below(n));
    let mut a = Mx::general(n, seed32(), CPLX);
    for j in 0..n {
        a.set(k, j, C64::new(0.0, 0.0));
        if what == 2 {
            a.set(j, k, C64::new(0.0, 0.0));
        }
    }
    let sa = Stored::new(&[n, n], &|i, j| a.at(i, j));
    let sb = gen_rhs(n);
    desc!("{DEVNAME} {} of {} [{}] without a solution", ["solve_general", "inverse", "solve_triangular"][what], <T as Elem>::NAME, show(&sa));
    Box::new(move || {
        let dev = device(&ctx);
        let (ta, tb) = (tensor(&sa, &dev), tensor(&sb, &dev));
        let r = ctx.enter(|| {
            call(|| match what {
                0 => la::solve_general_f((&ta, &tb)).is_ok(),
                1 => la::inv_f(&ta).is_ok(),
                // the library itself does not look for zeros on the diagonal
                _ => la::solve_triangular_f((&ta, &tb, Lower)).is_ok() && false,
            })
        });
        sa.unchanged(ta.raw(), "matrix of the system");
        sb.unchanged(tb.raw(), "right-hand side");
        match r {
            Ok(true) => fail!("error-not-reported", "a system without a solution was solved"),
            Ok(false) => probe("singular matrix reported"),
            Err(e) => fail!("unexpected-failure", "a singular matrix makes the routine panic: {e}"),
        }
    })
}
/// operands passed for overwriting hold the result afterwards
fn case_overwriting(ctx: &Ctx) -> Case {
    let ctx = ctx.clone();
    let n = gen_n(&[40, 64]);
    let (up, upper) = gen_uplo(&ctx);
    let what = below(6);
    let a = match what {
        0 => Mx::spd(n, seed32(), CPLX),
        1 | 4 | 5 => Mx::general(n, seed32(), CPLX),
        _ => Mx::rand(n, n, seed32(), CPLX).hermitian(),
    };
    let s = match what {
        0 | 2 | 3 => one_triangle(&a, upper),
        _ => Stored::new(&[n, n], &|i, j| a.at(i, j)),
    };
    desc!("{DEVNAME} {} of {} [{}] triangle {up:?}, overwriting", ["cholesky", "inv", "eigh", "eigvalsh", "det", "slogdet"][what], <T as Elem>::NAME, show(&s));
    Box::new(move || {
        let dev = device(&ctx);
        let mut t = tensor(&s, &dev);
        let nf = n as f64 + 4.0;
        let res = match what {
            0 | 1 => {
                let r = must_f("cholesky or inv", || {
                    ctx.enter(|| {
                        let v = t.view_mut();
                        let r = match (what, up) {
                            (0, None) => la::cholesky_f(v),
                            (0, Some(u)) => la::cholesky_f((v, tri(u))),
                            _ => la::inv_f(v),
                        };
                        r.map(|r| (dims(&r), mx(&r)))
                    })
                });
                simcore::quiet(|| {
                    let (d, l) = r?;
                    if !shape_is("result", &d, &[n, n]) {
                        return None;
                    }
                    if what == 0 {
                        let p = if upper { l.h().mul(&l) } else { l.mul(&l.h()) };
                        small("cholesky product", p.dist(&a), 20.0 * EPS * nf * a.norm());
                        for i in 0..n {
                            for j in 0..n {
                                if i != j && (j > i) != upper && l.at(i, j).norm() != 0.0 {
                                    fail!("wrong-value", "cholesky: the other triangle holds {} at ({i}, {j})", l.at(i, j));
                                    return None;
                                }
                            }
                        }
                    } else {
                        small("inverse", a.mul(&l).dist(&Mx::eye(n)), 300.0 * EPS * nf * a.norm() * l.norm());
                    }
                    Some(l)
                })
            },
            2 => {
                let r = must_f("eigh", || {
                    ctx.enter(|| {
                        let v = t.view_mut();
                        let r = match up {
                            None => la::eigh_f(v),
                            Some(u) => la::eigh_f((v, tri(u))),
                        };
                        r.map(|e| (reals(&e.eigenvalues), dims(&e.eigenvectors), mx(&e.eigenvectors)))
                    })
                });
                simcore::quiet(|| {
                    let (w, d, v) = r?;
                    if !shape_is("eigenvalues", &[w.len()], &[n]) || !shape_is("eigenvectors", &d, &[n, n]) {
                        return None;
                    }
                    ascending("eigenvalues", &w, true);
                    unitary("eigenvectors", &v, EPS);
                    small("eigenvalue equation", a.mul(&v).dist(&v.cols(&w)), 200.0 * EPS * nf * (a.norm() + 1.0));
                    Some(v)
                })
            },
            3 => {
                let r = must_f("eigvalsh", || {
                    ctx.enter(|| {
                        let v = t.view_mut();
                        match up {
                            None => la::eigvalsh_f(v),
                            Some(u) => la::eigvalsh_f((v, tri(u))),
                        }
                    })
                });
                simcore::quiet(|| {
                    if let Some(w) = r.map(|w| reals(&w)) {
                        ascending("eigenvalues", &w, true);
                        let tr = (0..n).map(|i| a.at(i, i).re).sum::<f64>();
                        small("sum of the eigenvalues", (w.iter().sum::<f64>() - tr).abs(), 200.0 * EPS * nf * nf * (a.norm() + 1.0));
                        let f = w.iter().map(|x| x * x).sum::<f64>().sqrt();
                        small("norm of the eigenvalues", (f - a.norm()).abs(), 200.0 * EPS * nf * nf * (a.norm() + 1.0));
                    }
                });
                None
            },
            _ => {
                let r = must_f("det", || {
                    ctx.enter(|| {
                        let v = t.view_mut();
                        if what == 4 {
                            la::det_f(v).map(|d| d.c())
                        } else {
                            la::slogdet_f(v).map(|d| d.sign.c() * (d.logabsdet as f64).exp())
                        }
                    })
                });
                simcore::quiet(|| {
                    if let Some(got) = r {
                        let want = a.det();
                        // beyond the range of the type the determinant itself says nothing
                        if what == 5 || want.norm().ln().abs() < 60.0 {
                            small("determinant", (got - want).norm(), 2000.0 * EPS * nf * (n as f64 + want.norm().ln().abs()) * want.norm());
                        }
                    }
                });
                None
            },
        };
        let now = s.overwritten(t.raw(), "overwritten operand");
        if let Some(r) = res {
            if now.dist(&r) != 0.0 {
                fail!("wrong-value", "the overwritten operand does not hold the result");
            }
        }
    })
}
/// singular values and vectors by the routine asked for
fn case_svd_driver(ctx: &Ctx) -> Case {
    let ctx = ctx.clone();
    let (m, n) = (gen_n(&[40, 64]), gen_n(&[40, 64]));
    let k = m.min(n);
    let sv = gen_svals(k);
    let a = with_svals(m, n, &sv, seed32(), CPLX);
    let s = Stored::new(&[m, n], &|i, j| a.at(i, j));
    let (full, driver, mutable) = (pick(&[None, Some(true), Some(false)]), pick(&[None, Some("gesdd"), Some("gesvd"), Some("gesvd")]), coin(1, 4));
    desc!("{DEVNAME} svd of {} [{}] full {full:?} driver {driver:?}{}", <T as Elem>::NAME, show(&s), if mutable { ", overwriting" } else { "" });
    Box::new(move || {
        let dev = device(&ctx);
        let mut t = tensor(&s, &dev);
        let scale = a.norm();
        let r = must_f("svd", || {
            ctx.enter(|| {
                let args = if mutable { SVDArgs::default().a(t.view_mut().into_dim::<Ix2>()) } else { SVDArgs::default().a(t.view().into_dim::<Ix2>()) };
                let args = args.full_matrices(full).driver(driver).build()?;
                match full {
                    None => la::svdvals_f(args).map(|s| (None, s, None)),
                    _ => la::svd_f(args).map(|r| (Some(r.u), r.s, Some(r.vt))),
                }
            })
        });
        simcore::quiet(|| {
            if let Some((u, sg, vt)) = r {
                let got = reals(&sg);
                if !shape_is("singular values", &[got.len()], &[k]) {
                    return;
                }
                ascending("singular values", &got, false);
                let d = got.iter().zip(&sv).map(|(x, y)| (x - y).abs()).fold(0.0, |m: f64, x| if x.is_nan() || m.is_nan() { f64::NAN } else { m.max(x) });
                small("singular values", d, 200.0 * EPS * (m.max(n) as f64 + 4.0) * scale);
                match (u, vt, full) {
                    (None, None, None) => (),
                    (Some(u), Some(vt), Some(full)) => {
                        let (ku, kv) = if full { (m, n) } else { (k, k) };
                        if shape_is("left vectors", &dims(&u), &[m, ku]) && shape_is("right vectors", &dims(&vt), &[kv, n]) {
                            let (u, vt) = (mx(&u), mx(&vt));
                            unitary("left singular vectors", &u, EPS);
                            unitary("right singular vectors", &vt.h(), EPS);
                            let p = u.head_cols(k).cols(&got).mul(&vt.h().head_cols(k).h());
                            small("singular value decomposition", p.dist(&a), 200.0 * EPS * (m.max(n) as f64 + 4.0) * scale);
                        }
                    },
                    _ => (),
                }
            }
        });
        if mutable {
            s.overwritten(t.raw(), "operand of svd");
        } else {
            s.unchanged(t.raw(), "operand of svd");
        }
    })
}
/// eigenvalues and vectors by the routine asked for
fn case_eigh_driver(ctx: &Ctx) -> Case {
    let ctx = ctx.clone();
    let n = gen_n(&[40]);
    let (up, upper) = gen_uplo(&ctx);
    let a = Mx::rand(n, n, seed32(), CPLX).hermitian();
    let general = coin(1, 2);
    let b = if general { Mx::spd(n, seed32(), CPLX) } else { Mx::eye(n) };
    let (sa, sb) = (one_triangle(&a, upper), one_triangle(&b, upper));
    let driver = if general { pick(&[None, Some("gvd"), Some("gv"), Some("gv")]) } else { pick(&[None, Some("evd"), Some("ev"), Some("ev")]) };
    let (only, form) = (coin(1, 3), below(4));
    let itype = if general && up.is_some() { range(1, 3) as i32 } else { 1 };
    desc!("{DEVNAME} eigh of {} a[{}] b[{}] triangle {up:?} type {itype} driver {driver:?} values only {only}", <T as Elem>::NAME, show(&sa), if general { show(&sb) } else { "-".into() });
    Box::new(move || {
        let dev = device(&ctx);
        let (ta, tb) = (tensor(&sa, &dev), tensor(&sb, &dev));
        let args = |only| {
            let mut args = EighArgs::default().a(ta.view().into_dim::<Ix2>()).uplo(up.map(tri)).eig_type(itype).eigvals_only(only);
            if general {
                args = args.b(tb.view().into_dim::<Ix2>());
            }
            if let Some(d) = driver {
                args = args.driver(d);
            }
            args.build()
        };
        let vals = if only {
            must_f("eigvalsh", || {
                ctx.enter(|| match (general, form, up) {
                    (true, 0, None) => la::eigvalsh_f((&ta, &tb)),
                    (true, 0, Some(u)) => la::eigvalsh_f((ta.view(), &tb, tri(u), itype)),
                    (true, 1, Some(u)) if itype == 1 => la::eigvalsh_f((&ta, tb.view(), tri(u))),
                    _ => la::eigvalsh_f(args(true)?).map(|x| x.into_dim::<IxD>()),
                })
                .map(|x| reals(&x))
            })
        } else {
            None
        };
        let r = must_f("eigh", || ctx.enter(|| la::eigh_f(args(false)?)));
        sa.unchanged(ta.raw(), "first operand of eigh");
        sb.unchanged(tb.raw(), "second operand of eigh");
        simcore::quiet(|| {
            if let Some((w, v)) = r.map(|r| (r.eigenvalues, r.eigenvectors)) {
                let w = reals(&w);
                if !shape_is("eigenvalues", &[w.len()], &[n]) {
                    return;
                }
                ascending("eigenvalues", &w, true);
                if let Some(x) = vals {
                    if shape_is("eigenvalues alone", &[x.len()], &[n]) {
                        let d = x.iter().zip(&w).map(|(x, y)| (x - y).abs()).fold(0.0, |m: f64, x| if x.is_nan() || m.is_nan() { f64::NAN } else { m.max(x) });
                        let size = w.iter().fold(a.norm(), |m, x| m.max(x.abs()));
                        small("eigenvalues alone", d, 2000.0 * EPS * (n as f64 + 4.0) * size * if general { b.norm() } else { 1.0 });
                    }
                }
                {
                        let v = v.view();
                        if !shape_is("eigenvectors", &dims(&v), &[n, n]) {
                            return;
                        }
                        let v = mx(&v);
                        let (l, rr) = match itype {
                            1 => (a.mul(&v), b.mul(&v).cols(&w)),
                            2 => (a.mul(&b.mul(&v)), v.cols(&w)),
                            _ => (b.mul(&a.mul(&v)), v.cols(&w)),
                        };
                        let bound = 2000.0 * EPS * (n as f64 + 4.0) * (l.norm() + rr.norm() + a.norm() * b.norm() * v.norm());
                        small("eigenvalue equation", l.dist(&rr), bound);
                        if itype < 3 {
                            let g = v.h().mul(&b.mul(&v));
                            small("normalisation of the eigenvectors", g.dist(&Mx::eye(n)), 2000.0 * EPS * (n as f64 + 4.0) * (1.0 + b.norm() * v.norm() * v.norm()));
                        }
                }
            }
        });
    })
}
/// the builders of the level 3 routines: op(a) op(b), symmetric and triangular factors, into an output or a new one
fn case_blas3(ctx: &Ctx) -> Case {
    let ctx = ctx.clone();
    let what = weighted(&[4, 3, 3]);
    let (m, n) = (gen_n(&[40, 64]), gen_n(&[40, 64]));
    let seed = seed32();
    let scalar = |k: u32| Mx::rand(1, 1, seed.wrapping_add(k as _), CPLX).at(0, 0);
    let alpha = if coin(1, 3) { None } else { Some(scalar(1)) };
    let beta = pick(&[None, Some(C64::new(0.0, 0.0)), Some(C64::new(1.0, 0.0)), Some(scalar(2))]);
    let order = pick(&[None, None, Some(RowMajor), Some(ColMajor)]);
    let with_out = coin(2, 3);
    let left = coin(1, 2);
    let upper = coin(1, 2);
    let unit = coin(1, 3);
    let hermi = coin(1, 2);
    let pos = below(3);
    const TR: [FlagTrans; 3] = [FlagTrans::N, FlagTrans::T, FlagTrans::C];
    let (qa, qb) = (below(3), below(3));
    let op = |q: usize, x: &Mx| match q {
        0 => Mx { m: x.m, n: x.n, v: x.v.clone() },
        1 => x.t(),
        _ => x.h(),
    };
    // stored operands, and what they stand for
    let (sa, a, sb, b) = match what {
        0 => {
            let k = gen_n(&[40, 64]);
            let (ra, rb) = (if qa == 0 { [m, k] } else { [k, m] }, if qb == 0 { [k, n] } else { [n, k] });
            let (a, b) = (Mx::rand(ra[0], ra[1], seed32(), CPLX), Mx::rand(rb[0], rb[1], seed32(), CPLX));
            let (sa, sb) = (Stored::new(&ra, &|i, j| a.at(i, j)), Stored::new(&rb, &|i, j| b.at(i, j)));
            (sa, op(qa, &a), sb, op(qb, &b))
        },
        1 => {
            let k = if left { m } else { n };
            let mut a = Mx::rand(k, k, seed32(), CPLX);
            for i in 0..k {
                if hermi {
                    let d = a.at(i, i);
                    a.set(i, i, C64::new(d.re, 0.0));
                }
                for j in 0..i {
                    let x = a.at(i, j);
                    a.set(j, i, if hermi { x.conj() } else { x });
                }
            }
            let b = Mx::rand(m, n, seed32(), CPLX);
            let sb = Stored::new(&[m, n], &|i, j| b.at(i, j));
            (one_triangle(&a, upper), a, sb, b)
        },
        _ => {
            let k = if left { m } else { n };
            let mut a = Mx::rand(k, k, seed32(), CPLX);
            for i in 0..k {
                for j in 0..k {
                    if i == j {
                        let x = a.at(i, i);
                        a.set(i, i, x + if x.re < 0.0 { -1.5 } else { 1.5 });
                    } else if (j > i) != upper {
                        a.set(i, j, C64::new(0.0, 0.0));
                    } else {
                        a.v[i * k + j] /= k as f64;
                    }
                }
            }
            let sa = one_triangle(&a, upper);
            if unit {
                for i in 0..k {
                    a.set(i, i, C64::new(1.0, 0.0));
                }
            }
            let b = Mx::rand(m, n, seed32(), CPLX);
            let sb = Stored::new(&[m, n], &|i, j| b.at(i, j));
            (sa, op(qa, &a), sb, b)
        },
    };
    let c = Mx::rand(m, n, seed32(), CPLX);
    let sc = Stored::new(&[m, n], &|i, j| c.at(i, j));
    desc!(
        "{DEVNAME} {} of {} a[{}] {} b[{}] {} c[{}] alpha {alpha:?} beta {beta:?} order {order:?} left {left} upper {upper} unit {unit} hermitian {hermi}",
        ["gemm", "symm", "trsm"][what],
        <T as Elem>::NAME,
        show(&sa),
        ["N", "T", "C"][qa],
        show(&sb),
        ["N", "T", "C"][qb],
        if with_out && what < 2 { show(&sc) } else { "-".into() },
    );
    Box::new(move || {
        let dev = device(&ctx);
        let (ta, mut tb, mut tc) = (tensor(&sa, &dev), tensor(&sb, &dev), tensor(&sc, &dev));
        let (al, be) = (alpha.unwrap_or(C64::new(1.0, 0.0)), beta.unwrap_or(C64::new(0.0, 0.0)));
        let side = if left { FlagSide::L } else { FlagSide::R };
        let diag = if unit { FlagDiag::U } else { FlagDiag::N };
        macro_rules! set {
            ($x:ident) => {
                if let Some(v) = alpha {
                    $x = $x.alpha(T::of(v));
                }
                if let Some(v) = order {
                    $x = $x.order(v);
                }
            };
        }
        macro_rules! symm {
            ($h:literal) => {{
                let mut x = SYHEMM::<D, T, $h>::default().a(ta.view().into_dim::<Ix2>()).b(tb.view().into_dim::<Ix2>()).side(side).uplo(tri(upper));
                set!(x);
                if let Some(v) = beta {
                    x = x.beta(T::of(v));
                }
                if with_out {
                    x = x.c(tc.view_mut().into_dim::<Ix2>());
                }
                x.build()?.run().map(|r| {
                    let v = r.view();
                    (dims(&v), mx(&v))
                })
            }};
        }
        let r = must_f("level 3 routine", || {
            ctx.enter(|| -> rstsr_common::error::Result<(Vec<usize>, Mx)> {
                match what {
                    0 => {
                        let mut x = GEMM::default().a(ta.view().into_dim::<Ix2>()).b(tb.view().into_dim::<Ix2>()).transa(TR[qa]).transb(TR[qb]);
                        set!(x);
                        if let Some(v) = beta {
                            x = x.beta(T::of(v));
                        }
                        if with_out {
                            x = x.c(tc.view_mut().into_dim::<Ix2>());
                        }
                        x.build()?.run().map(|r| {
                            let v = r.view();
                            (dims(&v), mx(&v))
                        })
                    },
                    1 if hermi => symm!(true),
                    1 => symm!(false),
                    _ => {
                        let x = TRSM::default().a(ta.view().into_dim::<Ix2>()).side(side).uplo(if (pos > 0) || (upper != ctx.col) { Some(tri(upper)) } else { None }).transa(TR[qa]).diag(diag);
                        let mut x = if with_out { x.b(tb.view_mut().into_dim::<Ix2>()) } else { x.b(tb.view().into_dim::<Ix2>()) };
                        set!(x);
                        x.build()?.run().map(|r| {
                            let v = r.view();
                            (dims(&v), mx(&v))
                        })
                    },
                }
            })
        });
        sa.unchanged(ta.raw(), "first operand");
        let out = match (what, with_out) {
            (2, true) => Some(sb.overwritten(tb.raw(), "output")),
            (2, false) => {
                sb.unchanged(tb.raw(), "second operand");
                None
            },
            (_, true) => {
                sb.unchanged(tb.raw(), "second operand");
                Some(sc.overwritten(tc.raw(), "output"))
            },
            _ => None,
        };
        simcore::quiet(|| {
            let Some((d, x)) = r else { return };
            if !shape_is("product", &d, &[m, n]) {
                return;
            }
            let scaled = |x: &Mx, f: C64| Mx { m: x.m, n: x.n, v: x.v.iter().map(|y| y * f).collect() };
            let nf = (m.max(n) + a.m.max(a.n)) as f64 + 8.0;
            if what == 2 {
                let (l, rhs) = (if left { a.mul(&x) } else { x.mul(&a) }, scaled(&b, al));
                small("triangular solution", l.dist(&rhs), 50.0 * EPS * nf * (a.norm() * x.norm() + rhs.norm()));
            } else {
                let p = if what == 0 || left { a.mul(&b) } else { b.mul(&a) };
                let mut want = scaled(&p, al);
                let mut size = al.norm() * a.norm() * b.norm();
                if with_out {
                    for (w, c) in want.v.iter_mut().zip(&c.v) {
                        *w += be * c;
                    }
                    size += be.norm() * c.norm();
                }
                small("product", x.dist(&want), 20.0 * EPS * nf * size);
            }
            if let Some(o) = out {
                if o.dist(&x) != 0.0 {
                    fail!("wrong-value", "the output passed does not hold the result");
                }
            }
        });
    })
}
pub fn gen_more(ctx: &Ctx) -> Case {
    match weighted(&[12, 3, 1, 1, 4, 3, 3, 6]) {
        0 => gen(ctx),
        1 => case_symmetric(ctx),
        2 => case_slogdet(ctx),
        3 => case_singular(ctx),
        4 => case_overwriting(ctx),
        5 => case_svd_driver(ctx),
        6 => case_eigh_driver(ctx),
        _ => case_blas3(ctx),
    }
}
