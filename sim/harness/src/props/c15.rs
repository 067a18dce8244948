//! C15: decompositions and solvers. The cases are written once and compiled for each device that has the routines.
use super::util::*;
use crate::fw::*;
use num::Complex;

pub type C64 = Complex<f64>;

/// element types of the matrices, seen as complex numbers by the checks
pub trait Sc: Elem + Copy {
    fn c(self) -> C64;
    fn of(v: C64) -> Self;
    const EPS: f64;
    const CPLX: bool;
}
impl Sc for f64 {
    fn c(self) -> C64 {
        C64::new(self, 0.0)
    }
    fn of(v: C64) -> f64 {
        v.re
    }
    const EPS: f64 = 2.3e-16;
    const CPLX: bool = false;
}
impl Sc for f32 {
    fn c(self) -> C64 {
        C64::new(self as f64, 0.0)
    }
    fn of(v: C64) -> f32 {
        v.re as f32
    }
    const EPS: f64 = 1.2e-7;
    const CPLX: bool = false;
}
impl Sc for C64 {
    fn c(self) -> C64 {
        self
    }
    fn of(v: C64) -> C64 {
        v
    }
    const EPS: f64 = 2.3e-16;
    const CPLX: bool = true;
}
impl Sc for Complex<f32> {
    fn c(self) -> C64 {
        C64::new(self.re as f64, self.im as f64)
    }
    fn of(v: C64) -> Complex<f32> {
        Complex::new(v.re as f32, v.im as f32)
    }
    const EPS: f64 = 1.2e-7;
    const CPLX: bool = true;
}

/// dense row-major matrix of the checks
#[derive(Clone, Debug)]
pub struct Mx {
    pub m: usize,
    pub n: usize,
    pub v: Vec<C64>,
}
impl Mx {
    pub fn zero(m: usize, n: usize) -> Mx {
        Mx { m, n, v: vec![C64::new(0.0, 0.0); m * n] }
    }
    pub fn eye(n: usize) -> Mx {
        let mut r = Mx::zero(n, n);
        for i in 0..n {
            r.v[i * n + i] = C64::new(1.0, 0.0);
        }
        r
    }
    /// entries in [-1, 1]
    pub fn rand(m: usize, n: usize, seed: u64, cplx: bool) -> Mx {
        let mut s = seed;
        let mut next = || {
            s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            ((s >> 40) as f64 / (1u64 << 23) as f64) - 1.0
        };
        Mx { m, n, v: (0..m * n).map(|_| C64::new(next(), if cplx { next() } else { 0.0 })).collect() }
    }
    pub fn at(&self, i: usize, j: usize) -> C64 {
        self.v[i * self.n + j]
    }
    pub fn set(&mut self, i: usize, j: usize, x: C64) {
        self.v[i * self.n + j] = x
    }
    pub fn h(&self) -> Mx {
        let mut r = Mx::zero(self.n, self.m);
        for i in 0..self.m {
            for j in 0..self.n {
                r.v[j * self.m + i] = self.at(i, j).conj();
            }
        }
        r
    }
    pub fn t(&self) -> Mx {
        let mut r = Mx::zero(self.n, self.m);
        for i in 0..self.m {
            for j in 0..self.n {
                r.v[j * self.m + i] = self.at(i, j);
            }
        }
        r
    }
    pub fn mul(&self, o: &Mx) -> Mx {
        assert_eq!(self.n, o.m);
        let mut r = Mx::zero(self.m, o.n);
        for i in 0..self.m {
            for k in 0..self.n {
                let x = self.at(i, k);
                if x.re != 0.0 || x.im != 0.0 {
                    for j in 0..o.n {
                        r.v[i * o.n + j] += x * o.at(k, j);
                    }
                }
            }
        }
        r
    }
    /// columns scaled
    pub fn cols(&self, d: &[f64]) -> Mx {
        let mut r = self.clone();
        for i in 0..r.m {
            for j in 0..r.n {
                r.v[i * r.n + j] *= d[j];
            }
        }
        r
    }
    pub fn norm(&self) -> f64 {
        self.v.iter().map(|x| x.norm_sqr()).sum::<f64>().sqrt()
    }
    pub fn dist(&self, o: &Mx) -> f64 {
        if (self.m, self.n) != (o.m, o.n) {
            return f64::INFINITY;
        }
        let d = self.v.iter().zip(&o.v).map(|(x, y)| (x - y).norm_sqr()).sum::<f64>().sqrt();
        if d.is_nan() { f64::INFINITY } else { d }
    }
    pub fn head_cols(&self, k: usize) -> Mx {
        let mut r = Mx::zero(self.m, k);
        for i in 0..self.m {
            for j in 0..k {
                r.v[i * k + j] = self.at(i, j);
            }
        }
        r
    }
    pub fn hermitian(mut self) -> Mx {
        for i in 0..self.m {
            for j in 0..i {
                self.v[j * self.n + i] = self.at(i, j).conj();
            }
            self.v[i * self.n + i].im = 0.0;
        }
        self
    }
    /// well-conditioned positive definite
    pub fn spd(n: usize, seed: u64, cplx: bool) -> Mx {
        let r = Mx::rand(n, n, seed, cplx);
        let mut a = r.mul(&r.h());
        for i in 0..n {
            a.v[i * n + i] += 0.5 * n as f64 + 0.5;
        }
        a.hermitian()
    }
    pub fn general(n: usize, seed: u64, cplx: bool) -> Mx {
        let mut a = Mx::rand(n, n, seed, cplx);
        for i in 0..n {
            // dominant entries on a shifted diagonal: pivoting has something to do
            let j = (i + (seed as usize) % n.max(1)) % n;
            a.v[i * n + j] += n as f64 * 0.7 + 1.0;
        }
        a
    }
    /// determinant by elimination with partial pivoting
    pub fn det(&self) -> C64 {
        let n = self.m;
        let mut a = self.clone();
        let mut d = C64::new(1.0, 0.0);
        for k in 0..n {
            let p = (k..n).max_by(|&x, &y| a.at(x, k).norm_sqr().partial_cmp(&a.at(y, k).norm_sqr()).unwrap()).unwrap();
            if p != k {
                for j in 0..n {
                    let (x, y) = (a.at(k, j), a.at(p, j));
                    a.set(k, j, y);
                    a.set(p, j, x);
                }
                d = -d;
            }
            let x = a.at(k, k);
            d *= x;
            if x.norm_sqr() == 0.0 {
                return d;
            }
            for i in k + 1..n {
                let f = a.at(i, k) / x;
                for j in k..n {
                    let y = a.at(k, j);
                    a.v[i * n + j] -= f * y;
                }
            }
        }
        d
    }
}

/// a matrix stored in a buffer with a layout; what lies between its elements must survive
#[derive(Clone)]
pub struct Stored<T: Sc> {
    pub spec: Spec,
    pub buf: Vec<T>,
}
impl<T: Sc> Stored<T> {
    pub fn new(shape: &[usize], value: &dyn Fn(usize, usize) -> C64) -> Stored<T> {
        let spec = gen_spec(shape, false);
        Stored::with(spec, value)
    }
    pub fn with(spec: Spec, value: &dyn Fn(usize, usize) -> C64) -> Stored<T> {
        simcore::quiet(|| {
            let n = if spec.shape.len() == 2 { spec.shape[1] } else { 1 };
            let mut buf: Vec<T> = (0..spec.len).map(|i| T::of(C64::new(1e3 + i as f64, -7.0))).collect();
            for (i, p) in spec.positions().into_iter().enumerate() {
                buf[p] = T::of(value(i / n.max(1), i % n.max(1)));
            }
            Stored { spec, buf }
        })
    }
    pub fn mx(&self) -> Mx {
        let n = if self.spec.shape.len() == 2 { self.spec.shape[1] } else { 1 };
        Mx { m: self.spec.shape[0], n, v: self.spec.positions().into_iter().map(|p| self.buf[p].c()).collect() }
    }
    pub fn unchanged(&self, raw: &[T], what: &str) {
        simcore::quiet(|| {
            if raw.len() != self.buf.len() || raw.iter().zip(&self.buf).any(|(x, y)| !x.same(y)) {
                fail!("operand-changed", "{what} changed");
            }
        })
    }
    /// only the elements of the matrix may have changed; returns the new matrix
    pub fn overwritten(&self, raw: &[T], what: &str) -> Mx {
        simcore::quiet(|| {
            let pos = self.spec.positions();
            let mut inside = vec![false; self.buf.len()];
            for &p in &pos {
                inside[p] = true;
            }
            if raw.len() != self.buf.len() {
                fail!("operand-buffer-length", "{what}: buffer length changed");
            }
            for i in 0..raw.len().min(self.buf.len()) {
                if !inside[i] && !raw[i].same(&self.buf[i]) {
                    fail!("outside-touched", "{what}: buffer position {i} outside the matrix changed");
                    break;
                }
            }
            let n = if self.spec.shape.len() == 2 { self.spec.shape[1] } else { 1 };
            Mx { m: self.spec.shape[0], n, v: pos.into_iter().map(|p| raw[p].c()).collect() }
        })
    }
}

/// a residual that must be small
pub fn small(what: &str, r: f64, bound: f64) {
    if !(r <= bound) {
        fail!("wrong-value", "{what}: residual {r:.3e}, at most {bound:.3e} expected");
    }
}
pub fn gen_n(thr: &[usize]) -> usize {
    match weighted(&[5, 4, 2]) {
        0 => range(1, 9),
        1 => range(9, 34),
        _ => pick(thr) - 2 + range(0, 6),
    }
}
pub fn unitary(what: &str, q: &Mx, eps: f64) {
    let g = q.h().mul(q);
    small(what, g.dist(&Mx::eye(q.n)), 100.0 * eps * (q.m.max(q.n) as f64 + 4.0));
}
pub fn ascending(what: &str, w: &[f64], up: bool) {
    for i in 1..w.len() {
        if if up { w[i] < w[i - 1] } else { w[i] > w[i - 1] } {
            fail!("wrong-order", "{what}: value {i} is {} after {}", w[i], w[i - 1]);
            return;
        }
    }
}
/// shape of a result
pub fn shape_is(what: &str, got: &[usize], want: &[usize]) -> bool {
    if got != want {
        fail!("wrong-shape", "{what}: shape {got:?}, expected {want:?}");
        return false;
    }
    true
}


/// unitary matrix: two reflections
pub fn reflections(n: usize, seed: u64, cplx: bool) -> Mx {
    let mut q = Mx::eye(n);
    for k in 0..2 {
        let v = Mx::rand(n, 1, seed ^ (k + 1) * 77, cplx);
        let s = v.norm().powi(2);
        if s < 1e-6 {
            continue;
        }
        let mut h = v.mul(&v.h());
        for x in h.v.iter_mut() {
            *x *= -2.0 / s;
        }
        for i in 0..n {
            h.v[i * n + i] += 1.0;
        }
        q = q.mul(&h);
    }
    q
}
/// first columns of a unitary matrix scaled and multiplied: a matrix with the given singular values
pub fn with_svals(m: usize, n: usize, s: &[f64], seed: u64, cplx: bool) -> Mx {
    let u = reflections(m, seed, cplx).head_cols(s.len());
    let v = reflections(n, seed ^ 0x5a5a, cplx).head_cols(s.len());
    u.cols(s).mul(&v.h())
}
/// distinct, well separated values in descending order
pub fn gen_svals(k: usize) -> Vec<f64> {
    let mut x = 0.5;
    let mut s: Vec<f64> = (0..k)
        .map(|_| {
            x += below(100) as f64 / 64.0 + 0.125;
            x
        })
        .collect();
    s.reverse();
    s
}

macro_rules! c15_instance {
    ($name:ident, $T:ty, $R:ty, $($body:literal),*) => {
        pub mod $name {
            use super::*;
            type D = Dev;
            type T = $T;
            type R = $R;
            use super::super::DEVNAME;
            fn device(ctx: &Ctx) -> D {
                ctx.dev.clone()
            }
            $(include!($body);)*
        }
    };
}
pub(crate) use c15_instance;
c15_instance!(faer_f64, f64, f64, "c15_body.rs");
c15_instance!(faer_f32, f32, f32, "c15_body.rs");
c15_instance!(faer_c64, C64, f64, "c15_body.rs");

fn setting() -> String {
    format!("{:?}", faer::get_global_parallelism())
}
pub fn run() {
    if coin(1, 2) {
        return on_blas!(c15);
    }
    faer::set_global_parallelism(pick(&[faer::Par::Seq, faer::Par::rayon(3), faer::Par::rayon(2)]));
    let before = setting();
    let ctx = Ctx::gen(true);
    run_cases(&ctx, &|c| match weighted(&[4, 2, 3]) {
        0 => faer_f64::gen(c),
        1 => faer_f32::gen(c),
        _ => faer_c64::gen(c),
    });
    drop(ctx);
    if setting() != before {
        fail!("setting-left-changed", "the parallelism setting of the back end is {} after all calls have ended, {before} before", setting());
    }
}
