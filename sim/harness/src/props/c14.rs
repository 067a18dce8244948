//! C14: pairwise distances.
use super::util::*;
use crate::fw::*;
use num::Complex;
use rstsr_common::prelude::{Ix1, Ix2, IxD, Layout};
use rstsr_core::prelude::*;
use rstsr_sci_traits::distance::metric::*;
use rstsr_sci_traits::distance::traits::cdist_f;
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::Arc;

type C64 = Complex<f64>;

/// plain arithmetic face of the input types
trait Pt: Elem + Copy {
    fn c(self) -> C64;
    fn gen(h: u64, positive: bool) -> Self;
    const TOL: f64;
}
fn frac(h: u64, positive: bool) -> f64 {
    let v = match h % 7 {
        0 => 0.0,
        1 => (h >> 8) as f64 % 9.0 - 4.0,
        _ => ((h >> 8) % 2001) as f64 / 512.0 - 1.9,
    };
    if positive { v.abs() + 0.03125 } else { v }
}
impl Pt for f64 {
    fn c(self) -> C64 {
        C64::new(self, 0.0)
    }
    fn gen(h: u64, p: bool) -> f64 {
        frac(h, p)
    }
    const TOL: f64 = 1e-9;
}
impl Pt for f32 {
    fn c(self) -> C64 {
        C64::new(self as f64, 0.0)
    }
    fn gen(h: u64, p: bool) -> f32 {
        frac(h, p) as f32
    }
    const TOL: f64 = 3e-3;
}
impl Pt for C64 {
    fn c(self) -> C64 {
        self
    }
    fn gen(h: u64, p: bool) -> C64 {
        C64::new(frac(h, p), frac(simcore::rng::mix(&[h]), p))
    }
    const TOL: f64 = 1e-9;
}
impl Pt for bool {
    fn c(self) -> C64 {
        C64::new(self as u8 as f64, 0.0)
    }
    fn gen(h: u64, _: bool) -> bool {
        h & 1 == 1
    }
    const TOL: f64 = 1e-12;
}
impl Pt for i32 {
    fn c(self) -> C64 {
        C64::new(self as f64, 0.0)
    }
    fn gen(h: u64, _: bool) -> i32 {
        (h % 3) as i32
    }
    const TOL: f64 = 1e-12;
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum M {
    Euclidean,
    Minkowski(f64),
    CityBlock,
    SqEuclidean,
    Canberra,
    Chebyshev,
    BrayCurtis,
    Hamming,
    Jaccard,
    Yule,
    Dice,
    RogersTanimoto,
    RussellRao,
    SokalSneath,
    Cosine,
    Correlation,
    JensenShannon,
    Default,
}
/// the definition; None where it has no value (zero denominators)
fn define(m: M, u: &[C64], v: &[C64], w: &[f64]) -> Option<f64> {
    let it = || u.iter().zip(v).zip(w).map(|((a, b), w)| (*a, *b, *w));
    let sum = |f: &dyn Fn(C64, C64, f64) -> f64| -> f64 { it().map(|(a, b, w)| f(a, b, w)).sum() };
    let ratio = |a: f64, b: f64| if b.abs() < 1e-12 { None } else { Some(a / b) };
    let ws: f64 = w.iter().sum();
    let t = |x: C64| x.re != 0.0;
    let ntt = sum(&|a, b, w| if t(a) && t(b) { w } else { 0.0 });
    let nff = sum(&|a, b, w| if !t(a) && !t(b) { w } else { 0.0 });
    let ntf = sum(&|a, b, w| if t(a) && !t(b) { w } else { 0.0 });
    let nft = sum(&|a, b, w| if !t(a) && t(b) { w } else { 0.0 });
    let nd = ntf + nft;
    match m {
        M::Euclidean | M::Default => Some(sum(&|a, b, w| w * (a - b).norm_sqr()).sqrt()),
        M::SqEuclidean => Some(sum(&|a, b, w| w * (a - b).norm_sqr())),
        M::Minkowski(p) => Some(sum(&|a, b, w| w * (a - b).norm().powf(p)).powf(1.0 / p)),
        M::CityBlock => Some(sum(&|a, b, w| w * (a - b).norm())),
        M::Canberra => Some(sum(&|a, b, w| {
            let d = a.norm() + b.norm();
            if d == 0.0 { 0.0 } else { w * (a - b).norm() / d }
        })),
        M::Chebyshev => Some(it().filter(|x| x.2 != 0.0).map(|(a, b, _)| (a - b).norm()).fold(0.0, f64::max)),
        M::BrayCurtis => ratio(sum(&|a, b, w| w * (a - b).norm()), sum(&|a, b, w| w * (a + b).norm())),
        M::Hamming => ratio(sum(&|a, b, w| if a != b { w } else { 0.0 }), ws),
        M::Jaccard => ratio(nd, ntt + nd),
        M::Yule => {
            if ntf * nft == 0.0 {
                Some(0.0)
            } else {
                ratio(2.0 * ntf * nft, ntt * nff + ntf * nft)
            }
        },
        M::Dice => ratio(nd, 2.0 * ntt + nd),
        M::RogersTanimoto => ratio(2.0 * nd, ws + nd),
        M::RussellRao => ratio(ws - ntt, ws),
        M::SokalSneath => ratio(2.0 * nd, ntt + 2.0 * nd),
        M::Cosine | M::Correlation => {
            let (mu, mv) = if m == M::Cosine {
                (0.0, 0.0)
            } else {
                if u.is_empty() {
                    return None;
                }
                // (weights enter the products, the means are plain)
                let n = u.len() as f64;
                (sum(&|a, _, _| a.re) / n, sum(&|_, b, _| b.re) / n)
            };
            let uu = sum(&|a, _, w| w * (a.re - mu) * (a.re - mu));
            let vv = sum(&|_, b, w| w * (b.re - mv) * (b.re - mv));
            // (nearly) constant points have no direction
            if uu < 1e-4 || vv < 1e-4 {
                return None;
            }
            Some(1.0 - sum(&|a, b, w| w * (a.re - mu) * (b.re - mv)) / (uu * vv).sqrt())
        },
        M::JensenShannon => {
            let (su, sv) = (sum(&|a, _, _| a.re), sum(&|_, b, _| b.re));
            if u.is_empty() {
                return None;
            }
            let d = sum(&|a, b, _| {
                let (p, q) = (a.re / su, b.re / sv);
                let m = (p + q) / 2.0;
                p * (p / m).ln() + q * (q / m).ln()
            });
            // near zero the square root amplifies rounding
            if d < 1e-6 { None } else { Some((d / 2.0).sqrt()) }
        },
    }
}

struct Points<T> {
    spec: Spec,
    buf: Vec<T>,
}
impl<T: Pt> Points<T> {
    fn gen(n: usize, k: usize, positive: bool) -> Points<T> {
        let spec = gen_spec(&[n, k], true);
        let seed = seed32();
        let buf = simcore::quiet(|| (0..spec.len).map(|i| T::gen(simcore::rng::mix(&[seed, i as u64]), positive)).collect());
        Points { spec, buf }
    }
    fn rows(&self) -> Vec<Vec<C64>> {
        let k = self.spec.shape[1];
        let p = self.spec.positions();
        (0..self.spec.shape[0]).map(|i| (0..k).map(|j| self.buf[p[i * k + j]].c()).collect()).collect()
    }
    fn tensor(&self, dev: &Dev) -> Tsr<T> {
        rt::asarray((self.buf.clone(), self.spec.layout(), dev))
    }
    fn check(&self, t: &Tsr<T>, what: &str) {
        simcore::quiet(|| {
            if t.raw().len() != self.buf.len() || t.raw().iter().zip(&self.buf).any(|(a, b)| !a.same(b)) {
                fail!("operand-changed", "{what} changed");
            }
        })
    }
}
fn gen_counts() -> (usize, usize, usize) {
    // batches have 8 to 64 points per side
    let side = || match weighted(&[4, 3, 2, 1]) {
        0 => logrange(1, 12),
        1 => range(1, 70),
        2 => range(60, 200),
        _ => 0,
    };
    let (m, n) = (side(), side());
    let cap = (120_000 / (m * n).max(1)).clamp(1, 60);
    let k = if coin(1, 30) {
        0
    } else if coin(1, 12) {
        // long vectors shrink the batches
        logrange(500, 20_000).min((400_000 / (m * n).max(1)).max(1))
    } else {
        logrange(1, cap)
    };
    (m, n, k)
}
/// weights: buffer and 1-D spec
fn gen_weights(k: usize) -> (Spec, Vec<f64>) {
    let spec = gen_spec(&[k], false);
    let seed = seed32();
    let zeros = coin(1, 3);
    let buf = (0..spec.len)
        .map(|i| {
            let h = simcore::rng::mix(&[seed, i as u64, 5]);
            if zeros && h % 4 == 0 { 0.0 } else { (1 + h % 37) as f64 / 8.0 }
        })
        .collect();
    (spec, buf)
}

trait Num1: Elem + Copy {
    fn f(self) -> f64;
    fn of(v: f64) -> Self;
}
impl Num1 for f64 {
    fn f(self) -> f64 {
        self
    }
    fn of(v: f64) -> f64 {
        v
    }
}
impl Num1 for f32 {
    fn f(self) -> f64 {
        self as f64
    }
    fn of(v: f64) -> f32 {
        v as f32
    }
}
fn compare<O: Num1, D: rstsr_common::prelude::DimAPI>(m: M, tol: f64, c: &Tensor<O, Dev, D>, ra: &[Vec<C64>], rb: &[Vec<C64>], w: &[f64]) {
    simcore::quiet(|| {
        let (mm, nn) = (ra.len(), rb.len());
        let Some((sh, got)) = read(c) else {
            fail!("layout-out-of-buffer", "result layout leaves its buffer");
            return;
        };
        if sh != [mm, nn] {
            fail!("wrong-shape", "{m:?}: shape {sh:?}, expected [{mm}, {nn}]");
            return;
        }
        for i in 0..mm {
            for j in 0..nn {
                let Some(want) = define(m, &ra[i], &rb[j], w) else { continue };
                let g = got[i * nn + j].f();
                // the root of a power sum amplifies rounding near zero
                let lim = match m {
                    M::Euclidean | M::Default | M::Minkowski(_) => tol * (1.0 + want.abs()) + tol.sqrt() * 1e-3,
                    _ => tol * (1.0 + want.abs()),
                };
                if !((g - want).abs() <= lim) {
                    fail!("wrong-value", "{m:?}: distance ({i}, {j}) is {g}, expected {want}");
                    return;
                }
            }
        }
    })
}

macro_rules! with_metric {
    ($m:expr, $T:ty, $call:ident, float) => {
        match $m {
            M::Euclidean => $call!(MetricEuclidean),
            M::Minkowski(p) => $call!(MetricMinkowski::<$T>::new(p as _)),
            M::CityBlock => $call!(MetricCityBlock),
            M::SqEuclidean => $call!(MetricSqEuclidean),
            M::Canberra => $call!(MetricCanberra),
            M::Chebyshev => $call!(MetricChebyshev),
            M::BrayCurtis => $call!(MetricBrayCurtis),
            M::Cosine => $call!(MetricCosine::new()),
            M::Correlation => $call!(MetricCorrelation::new()),
            _ => unreachable!(),
        }
    };
    ($m:expr, $T:ty, $call:ident, complex) => {
        match $m {
            M::Minkowski(p) => $call!(MetricMinkowski::<$T>::new(p as _)),
            M::CityBlock => $call!(MetricCityBlock),
            M::Canberra => $call!(MetricCanberra),
            M::Chebyshev => $call!(MetricChebyshev),
            M::BrayCurtis => $call!(MetricBrayCurtis),
            _ => unreachable!(),
        }
    };
    ($m:expr, $T:ty, $call:ident, boolean) => {
        match $m {
            M::Hamming => $call!(MetricHamming),
            M::Jaccard => $call!(MetricJaccard),
            M::Yule => $call!(MetricYule),
            M::Dice => $call!(MetricDice),
            M::RogersTanimoto => $call!(MetricRogersTanimoto),
            M::RussellRao => $call!(MetricRussellRao),
            M::SokalSneath => $call!(MetricSokalSneath),
            _ => unreachable!(),
        }
    };
    ($m:expr, $T:ty, $call:ident, int) => {
        match $m {
            M::Hamming => $call!(MetricHamming),
            _ => unreachable!(),
        }
    };
}
macro_rules! builtin {
    ($name:ident, $T:ty, $O:ty, $group:ident, $metrics:expr) => {
        fn $name(ctx: &Ctx) -> Case {
            let ctx = ctx.clone();
            let (mm, nn, k) = gen_counts();
            let metrics: &[M] = $metrics;
            let m = pick(metrics);
            let (a, b) = (Points::<$T>::gen(mm, k, false), Points::<$T>::gen(nn, k, false));
            let weighted = coin(1, 2);
            let (ws, wb) = gen_weights(k);
            let wb: Vec<$O> = wb.iter().map(|&x| <$O as Num1>::of(x)).collect();
            let dynamic = coin(1, 2);
            desc!(
                "cdist {m:?} of {} a[{}] b[{}]{}{}",
                <$T>::NAME,
                show_spec(&a.spec),
                show_spec(&b.spec),
                if weighted { format!(" weights[{}]", show_spec(&ws)) } else { String::new() },
                if dynamic { "" } else { " static dimensions" }
            );
            Box::new(move || {
                let (ta, tb) = (a.tensor(&ctx.dev), b.tensor(&ctx.dev));
                let tw: Tsr<$O> = rt::asarray((wb.clone(), ws.layout(), &ctx.dev));
                let tol = <$T>::TOL;
                let (ra, rb) = simcore::quiet(|| (a.rows(), b.rows()));
                let wv: Vec<f64> = if weighted { ws.positions().into_iter().map(|p| wb[p].f()).collect() } else { vec![1.0; k] };
                macro_rules! go {
                    ($metric:expr) => {
                        match (weighted, dynamic) {
                            (false, true) => {
                                if let Some(c) = must_f("distances", || ctx.enter(|| cdist_f((ta.view(), tb.view(), $metric)))) {
                                    compare(m, tol, &c, &ra, &rb, &wv)
                                }
                            },
                            (true, true) => {
                                if let Some(c) = must_f("weighted distances", || ctx.enter(|| cdist_f((ta.view(), tb.view(), $metric, tw.view())))) {
                                    compare(m, tol, &c, &ra, &rb, &wv)
                                }
                            },
                            (false, false) => {
                                if let Some(c) = must_f("distances", || ctx.enter(|| cdist_f((ta.view().into_dim::<Ix2>(), tb.view().into_dim::<Ix2>(), $metric)))) {
                                    compare(m, tol, &c, &ra, &rb, &wv)
                                }
                            },
                            (true, false) => {
                                if let Some(c) = must_f("weighted distances", || ctx.enter(|| cdist_f((ta.view().into_dim::<Ix2>(), tb.view().into_dim::<Ix2>(), $metric, tw.view().into_dim::<Ix1>())))) {
                                    compare(m, tol, &c, &ra, &rb, &wv)
                                }
                            },
                        }
                    };
                }
                with_metric!(m, $T, go, $group);
                a.check(&ta, "first operand");
                b.check(&tb, "second operand");
                if tw.raw().iter().zip(&wb).any(|(x, y)| !x.same(y)) {
                    fail!("operand-changed", "weights changed");
                }
            })
        }
    };
}
const FLOAT: &[M] = &[
    M::Euclidean,
    M::Minkowski(3.0),
    M::Minkowski(1.0),
    M::Minkowski(2.5),
    M::CityBlock,
    M::SqEuclidean,
    M::Canberra,
    M::Chebyshev,
    M::BrayCurtis,
    M::Cosine,
    M::Correlation,
];
const COMPLEX: &[M] = &[M::Minkowski(2.0), M::Minkowski(1.5), M::CityBlock, M::Canberra, M::Chebyshev, M::BrayCurtis];
const BOOL: &[M] = &[M::Hamming, M::Jaccard, M::Yule, M::Dice, M::RogersTanimoto, M::RussellRao, M::SokalSneath];
builtin!(case_f64, f64, f64, float, FLOAT);
builtin!(case_f32, f32, f32, float, FLOAT);
builtin!(case_c64, C64, f64, complex, COMPLEX);
builtin!(case_bool, bool, f64, boolean, BOOL);
builtin!(case_i32, i32, f64, int, &[M::Hamming]);

/// Jensen-Shannon, and the default metric
fn case_rest(ctx: &Ctx) -> Case {
    let ctx = ctx.clone();
    let (mm, nn, k) = gen_counts();
    let m = pick(&[M::JensenShannon, M::Default]);
    let (a, b) = (Points::<f64>::gen(mm, k, m == M::JensenShannon), Points::<f64>::gen(nn, k, m == M::JensenShannon));
    desc!("cdist {m:?} a[{}] b[{}]", show_spec(&a.spec), show_spec(&b.spec));
    Box::new(move || {
        let (ta, tb) = (a.tensor(&ctx.dev), b.tensor(&ctx.dev));
        let (ra, rb) = simcore::quiet(|| (a.rows(), b.rows()));
        let w = vec![1.0; k];
        let r = if m == M::Default {
            must_f("distances", || ctx.enter(|| cdist_f((ta.view(), tb.view()))))
        } else {
            must_f("distances", || ctx.enter(|| cdist_f((ta.view(), tb.view(), MetricJensenShannon::new()))))
        };
        if let Some(c) = r {
            compare(m, 1e-9, &c, &ra, &rb, &w)
        }
        a.check(&ta, "first operand");
        b.check(&tb, "second operand");
    })
}

/// a metric of the user: counts its evaluations, computes with instrumented numbers, can panic at one pair
struct User<O> {
    calls: Arc<Vec<AtomicU32>>,
    n: usize,
    bad: Option<(usize, usize)>,
    bad_init: bool,
    ready: bool,
    _o: std::marker::PhantomData<fn() -> O>,
}
trait MkOut: Elem {
    fn mk_out(v: i64) -> Self;
}
impl MkOut for Y {
    fn mk_out(v: i64) -> Y {
        Y(v)
    }
}
impl MkOut for Tk {
    fn mk_out(v: i64) -> Tk {
        Tk::new(v)
    }
}
impl MkOut for f64 {
    fn mk_out(v: i64) -> f64 {
        v as f64
    }
}
impl<O> User<O> {
    fn value<const STRIDED: bool>(&self, uv: (&Vec<Y>, &Vec<Y>), offsets: (usize, usize), ix: (usize, usize), strides: (isize, isize), size: usize, w: Option<&[f64]>) -> i64 {
        if !self.ready {
            fail!("not-initialised", "a metric is evaluated before its initialisation");
        }
        match self.calls.get(ix.0 * self.n + ix.1) {
            Some(c) if ix.1 < self.n => {
                c.fetch_add(1, Ordering::Relaxed);
            },
            _ => fail!("wrong-pair", "metric evaluated for pair {ix:?}"),
        }
        if self.bad == Some(ix) {
            simcore::sim().faults[simcore::F_PANIC].fired += 1;
            std::panic::panic_any(Injected);
        }
        let (sa, sb) = if STRIDED { strides } else { (1, 1) };
        let mut acc = Y(0);
        for i in 0..size as isize {
            let x = uv.0[(offsets.0 as isize + i * sa) as usize];
            let y = uv.1[(offsets.1 as isize + i * sb) as usize];
            let wi = w.map_or(1, |w| w[i as usize] as i64);
            acc = acc + x * Y(3 * wi) + y * Y((i as i64 + 2) * wi);
        }
        acc.0
    }
}
fn user_model(a: &[i64], b: &[i64], w: Option<&[f64]>) -> i64 {
    (0..a.len()).map(|i| (3 * a[i] + (i as i64 + 2) * b[i]) * w.map_or(1, |w| w[i] as i64)).sum()
}
impl<O: MkOut> MetricDistAPI<Vec<Y>> for User<O> {
    type Out = O;
    fn distance<const STRIDED: bool>(&self, uv: (&Vec<Y>, &Vec<Y>), offsets: (usize, usize), ix: (usize, usize), strides: (isize, isize), size: usize) -> O {
        let v = self.value::<STRIDED>(uv, offsets, ix, strides, size, None);
        O::mk_out(v)
    }
    fn initialize(&mut self, _: &Vec<Y>, _: &Layout<Ix2>, _: &Vec<Y>, _: &Layout<Ix2>) -> rstsr_common::error::Result<()> {
        if self.bad_init {
            simcore::sim().faults[simcore::F_PANIC].fired += 1;
            std::panic::panic_any(Injected);
        }
        self.ready = true;
        Ok(())
    }
}
impl MetricDistWeightedAPI<Vec<Y>> for User<f64> {
    type Weight = Vec<f64>;
    fn weighted_distance<const STRIDED: bool>(&self, uv: (&Vec<Y>, &Vec<Y>), offsets: (usize, usize), ix: (usize, usize), strides: (isize, isize), size: usize, w: &Vec<f64>, ws: f64) -> f64 {
        let v = self.value::<STRIDED>(uv, offsets, ix, strides, size, Some(w));
        v as f64 + ws
    }
    fn weighted_initialize(&mut self, a: &Vec<Y>, la: &Layout<Ix2>, b: &Vec<Y>, lb: &Layout<Ix2>, _: &Vec<f64>) -> rstsr_common::error::Result<()> {
        self.initialize(a, la, b, lb)
    }
}
fn user<O>(calls: &Arc<Vec<AtomicU32>>, n: usize, bad: Option<(usize, usize)>, fault: usize) -> User<O> {
    User { calls: calls.clone(), n, bad, bad_init: fault == 2, ready: false, _o: std::marker::PhantomData }
}
macro_rules! user_case {
($name:ident, $O:ident) => {
fn $name(ctx: &Ctx, weighted: bool) -> Case {
    let ctx = ctx.clone();
    let (mm, nn, k) = gen_counts();
    let k = k.min(40);
    let small = Vals::Small(50);
    let (oa, ob) = (Opnd::<Y>::gen(gen_spec(&[mm, k], true), small), Opnd::<Y>::gen(gen_spec(&[nn, k], true), small));
    let (ws, wb) = gen_weights(k);
    let wb: Vec<f64> = wb.iter().map(|x| (x * 8.0).round()).collect();
    let fault = if mm * nn > 0 { weighted_pick() } else { 0 };
    let bad = if fault == 1 { Some((below(mm), below(nn))) } else { None };
    desc!(
        "cdist with a user's metric into {} a[{}] b[{}]{}{}",
        <$O>::NAME,
        show_spec(&oa.spec),
        show_spec(&ob.spec),
        if weighted { format!(" weights[{}]", show_spec(&ws)) } else { String::new() },
        match fault {
            1 => format!(" panicking at {bad:?}"),
            2 => " panicking in its initialisation".to_string(),
            _ => String::new(),
        }
    );
    Box::new(move || {
        let (ta, tb) = (mk(&oa, &ctx.dev), mk(&ob, &ctx.dev));
        let tw: Tsr<f64> = rt::asarray((wb.clone(), ws.layout(), &ctx.dev));
        if fault != 0 {
            // distances computed before the panic may be left behind
            unsafe { TK_LEAK_OK = true };
        }
        let calls: Arc<Vec<AtomicU32>> = Arc::new((0..mm * nn).map(|_| AtomicU32::new(0)).collect());
        let rows = |o: &Opnd<Y>, n: usize| -> Vec<Vec<i64>> {
            let l = o.logical();
            (0..n).map(|i| l[i * k..(i + 1) * k].to_vec()).collect()
        };
        let w: Vec<f64> = ws.positions().into_iter().map(|p| wb[p]).collect();
        let sum: f64 = w.iter().sum();
        let ended = |what: &str, r: &Result<bool, String>| match (r, fault) {
            (Ok(true), 0) => {},
            (Ok(true), _) => fail!("panic-lost", "{what} returned although the metric panicked"),
            (Ok(false), _) => fail!("unexpected-failure", "{what} returned an error"),
            (Err(e), 0) => fail!("unexpected-failure", "{what} panicked: {e}"),
            (Err(e), _) => {
                if e != "injected" {
                    fail!("panic-changed", "{what}: the caller got another panic: {e}");
                }
            },
        };
        let expect = |v: &mut dyn FnMut(usize, i64)| {
            let (ra, rb) = (rows(&oa, mm), rows(&ob, nn));
            for i in 0..mm {
                for j in 0..nn {
                    v(i * nn + j, user_model(&ra[i], &rb[j], if weighted { Some(&w) } else { None }));
                }
            }
        };
        if weighted {
            let r = call(|| ctx.enter(|| cdist_f((ta.view(), tb.view(), user::<f64>(&calls, nn, bad, fault), tw.view()))));
            ended("weighted distances", &r.as_ref().map(|x| x.is_ok()).map_err(|e| e.clone()));
            if let Ok(Ok(c)) = &r {
                let mut want = vec![];
                expect(&mut |_, v| want.push(v as f64 + sum));
                expect_tensor("weighted distances", c, &[mm, nn], &want);
            }
        } else {
            let r = call(|| ctx.enter(|| cdist_f((ta.view(), tb.view(), user::<$O>(&calls, nn, bad, fault)))));
            ended("distances", &r.as_ref().map(|x| x.is_ok()).map_err(|e| e.clone()));
            if let Ok(Ok(c)) = &r {
                simcore::quiet(|| {
                    let mut want = vec![];
                    expect(&mut |_, v| want.push(<$O>::mk_out(v)));
                    expect_tensor("distances", c, &[mm, nn], &want);
                });
            }
        }
        if fault == 0 && !failed() {
            if let Some(p) = calls.iter().position(|c| c.load(Ordering::Relaxed) == 0) {
                fail!("pair-skipped", "pair ({}, {}) was never evaluated", p / nn, p % nn);
            }
        }
        oa.unchanged(ta.raw(), "first operand");
        ob.unchanged(tb.raw(), "second operand");
    })
}
};
}
user_case!(case_user_y, Y);
user_case!(case_user_tk, Tk);
user_case!(case_user_f, f64);
fn weighted_pick() -> usize {
    weighted(&[6, 3, 1])
}

pub fn run() {
    let ctx = Ctx::gen(true);
    run_cases(&ctx, &|ctx| match weighted(&[3, 1, 1, 2, 1, 1, 3, 3, 2]) {
        0 => case_f64(ctx),
        1 => case_f32(ctx),
        2 => case_c64(ctx),
        3 => case_bool(ctx),
        4 => case_i32(ctx),
        5 => case_rest(ctx),
        6 => case_user_y(ctx, false),
        7 => case_user_tk(ctx, false),
        _ => case_user_f(ctx, true),
    });
}
