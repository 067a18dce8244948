//! C04: matrix products and vector dot products.
use super::util::*;
use crate::fw::*;
use num::{One, Zero};
use rstsr_common::prelude::{Ix1, Ix2, Ix3, IxD, Layout};
use rstsr_core::prelude::*;
use rstsr_core::prelude_dev::{AxesIndex, AxesPairIndex, DataAPI, ExtNum, Storage};
use std::ops::{Add, Mul};

pub trait Mm: Elem + Zero + One + PartialEq + Mul<Output = Self> + Add<Output = Self> + ExtNum {
    /// self + a * b, as plain arithmetic
    fn fma(&self, a: &Self, b: &Self) -> Self;
    fn cj(&self) -> Self;
    /// content of an output that is to be overwritten
    fn stale() -> Self;
}
impl Mm for Y {
    fn fma(&self, a: &Y, b: &Y) -> Y {
        Y(self.0.wrapping_add(a.0.wrapping_mul(b.0)))
    }
    fn cj(&self) -> Y {
        *self
    }
    fn stale() -> Y {
        Y(0x5555_1234_5555)
    }
}
macro_rules! mm_int {
    ($($t:ty),*) => {$(impl Mm for $t {
        fn fma(&self, a: &$t, b: &$t) -> $t { self.wrapping_add(a.wrapping_mul(*b)) }
        fn cj(&self) -> $t { *self }
        fn stale() -> $t { 12345 }
    })*};
}
mm_int!(i32, i64);
macro_rules! mm_float {
    ($($t:ty),*) => {$(impl Mm for $t {
        fn fma(&self, a: &$t, b: &$t) -> $t { self + a * b }
        fn cj(&self) -> $t { *self }
        fn stale() -> $t { <$t>::NAN }
    }
    impl Mm for num::Complex<$t> {
        fn fma(&self, a: &Self, b: &Self) -> Self { self + a * b }
        fn cj(&self) -> Self { self.conj() }
        fn stale() -> Self { num::Complex::new(<$t>::NAN, <$t>::INFINITY) }
    })*};
}
mm_float!(f32, f64);

fn zero<T: Mm>() -> T {
    // the complex `mk(0)` is zero as well
    T::mk(0)
}
/// output operand: buffer, expectation
struct Out<T: Elem> {
    spec: Spec,
    init: Vec<T>,
    want: Vec<T>,
}
impl<T: Mm> Out<T> {
    fn new(shape: &[usize], want: &[T], stale: bool, old: &mut dyn FnMut(usize) -> T) -> Out<T> {
        let spec = gen_spec(shape, false);
        let pos = spec.positions();
        let mut init: Vec<T> = (0..spec.len).map(|i| T::mk(i as u64 % 23 + 1)).collect();
        for (i, &p) in pos.iter().enumerate() {
            init[p] = if stale { T::stale() } else { old(i) };
        }
        let mut w = init.clone();
        for (i, &p) in pos.iter().enumerate() {
            w[p] = want[i].clone();
        }
        desc!("  output [{}]{}", show_spec(&spec), if stale { " with stale content" } else { "" });
        Out { spec, init, want: w }
    }
    fn tensor(&self, dev: &Dev) -> Tsr<T> {
        rt::asarray((self.init.clone(), self.spec.layout(), dev))
    }
    fn check(&self, what: &str, t: &Tsr<T>) {
        simcore::quiet(|| {
            let raw: &Vec<T> = t.raw();
            if raw.len() != self.want.len() {
                fail!("operand-buffer-length", "{what}: buffer length changed {} -> {}", self.want.len(), raw.len());
                return;
            }
            let inside: std::collections::HashSet<usize> = self.spec.positions().into_iter().collect();
            for i in 0..raw.len() {
                if !raw[i].same(&self.want[i]) {
                    let (kind, w) = if inside.contains(&i) { ("wrong-value", "inside") } else { ("outside-touched", "outside") };
                    fail!(kind, "{what}: buffer position {i} ({w} the output view) is {}, expected {}", raw[i].show(), self.want[i].show());
                    return;
                }
            }
        })
    }
}

fn bshape(sa: &[usize], sb: &[usize], col: bool) -> Vec<usize> {
    let nd = sa.len().max(sb.len());
    let get = |s: &[usize], k: usize| -> usize {
        if col {
            s.get(k).copied().unwrap_or(1)
        } else {
            let d = nd - s.len();
            if k < d { 1 } else { s[k - d] }
        }
    };
    (0..nd)
        .map(|k| {
            let (x, y) = (get(sa, k), get(sb, k));
            if x == 1 { y } else { x }
        })
        .collect()
}
/// order of axes: rest axes and matrix axes
fn joined(rest: &[usize], m: &[usize], col: bool) -> Vec<usize> {
    if col { [m, rest].concat() } else { [rest, m].concat() }
}

/// per batch entry (row-major over the broadcast rest shape): start position; plus the matrix strides
fn batches(s: &Spec, nm: usize, rest: &[usize], col: bool) -> (Vec<usize>, Vec<isize>) {
    let nd = s.shape.len();
    let (r, m): (Vec<usize>, Vec<usize>) = if col { ((nm..nd).collect(), (0..nm).collect()) } else { ((0..nd - nm).collect(), (nd - nm..nd).collect()) };
    let sub = Spec { shape: r.iter().map(|&k| s.shape[k]).collect(), stride: r.iter().map(|&k| s.stride[k]).collect(), offset: s.offset, len: s.len };
    (sub.bpositions_o(rest, col), m.iter().map(|&k| s.stride[k]).collect())
}

struct Dims {
    m: Option<usize>,
    k: usize,
    n: Option<usize>,
    ra: Vec<usize>,
    rb: Vec<usize>,
}
fn gen_dims(ctx: &Ctx, float: bool) -> Dims {
    let big = float && coin(1, 12);
    let lim = if big { 140 } else { pick(&[4usize, 9, 20, 40]) };
    let mut dim = || if big { range(80, lim) } else { logrange(1, lim) };
    let (m, mut k, n) = (dim(), dim(), dim());
    // long contractions
    if !big && coin(1, 5) {
        k = logrange(1, 3000 / (m * n).clamp(1, 60));
    }
    let (mut m, mut n) = (m, n);
    if coin(1, 25) {
        match below(3) {
            0 => m = 0,
            1 => n = 0,
            _ => k = 0,
        }
    }
    let rule = weighted(&[2, 8, 2, 2, 2, 2, 6]) + 1;
    let rest = if rule == 2 || rule == 1 {
        vec![]
    } else {
        let t = if big {
            range(1, 3)
        } else if coin(1, 2) {
            // around the switch between parallel over the batch and parallel inside
            (4 * ctx.nt + range(0, 6)).saturating_sub(3)
        } else {
            logrange(1, 12)
        };
        let mut s = gen_shape(range(1, 3), t);
        if coin(1, 40) {
            let i = below(s.len());
            s[i] = 0;
        }
        s
    };
    let (mut ra, mut rb) = (vec![], vec![]);
    let (mut mm, mut nn) = (Some(m), Some(n));
    match rule {
        1 => {
            mm = None;
            nn = None;
            k = if coin(1, 2) { logrange(1, 3000) } else { k };
        },
        2 => {},
        3 => {
            mm = None;
            rb = rest;
        },
        4 => {
            nn = None;
            ra = rest;
        },
        5 => rb = rest,
        6 => ra = rest,
        _ => {
            ra = gen_bshape(&rest, ctx.col);
            rb = gen_bshape(&rest, ctx.col);
        },
    }
    Dims { m: mm, k, n: nn, ra, rb }
}

fn product<T: Mm>(ctx: &Ctx, float: bool) -> Case
where
    Dev: Sized,
    Dev: rstsr_core::prelude_dev::DeviceAPI<T, Raw = Vec<T>> + rstsr_core::prelude_dev::DeviceCreationAnyAPI<T>,
{
    let ctx = ctx.clone();
    let col = ctx.col;
    let d = gen_dims(&ctx, float);
    // rule 3/4 when the vector operand meets a plain matrix are the cases with an empty rest
    let rest = bshape(&d.ra, &d.rb, col);
    let ma: Vec<usize> = match d.m {
        Some(m) => vec![m, d.k],
        None => vec![d.k],
    };
    let mb: Vec<usize> = match d.n {
        Some(n) => vec![d.k, n],
        None => vec![d.k],
    };
    let mc: Vec<usize> = [d.m, d.n].iter().flatten().copied().collect();
    let sa = gen_spec(&joined(&d.ra, &ma, col), true);
    let small = Vals::Small(pick(&[1i64, 3, 5]));
    let oa = Opnd::<T>::gen(sa, small);
    // the second operand: its own buffer, or the first operand seen transposed (recognised by the symmetric product)
    let selfprod = d.m.is_some() && d.n.is_some() && coin(1, 5);
    // (or only its first rows, seen transposed)
    let self_n = d.m.map_or(0, |m| if m > 1 && coin(1, 4) { range(1, m - 1) } else { m });
    let (shape_b, ob, rb, mb, mc) = if selfprod {
        let mb = vec![d.k, self_n];
        (joined(&d.ra, &mb, col), None, d.ra.clone(), mb, vec![d.m.unwrap(), self_n])
    } else {
        let s = joined(&d.rb, &mb, col);
        let o = Opnd::<T>::gen(gen_spec(&s, true), small);
        (s, Some(o), d.rb.clone(), mb, mc)
    };
    let rest = if selfprod { d.ra.clone() } else { rest };
    let _ = (&rb, &mb);
    let shape_c = joined(&rest, &mc, col);
    // specification of b
    let sb = match &ob {
        Some(o) => o.spec.clone(),
        None => {
            let mut s = oa.spec.clone();
            let nd = s.shape.len();
            let (i, j) = if col { (0, 1) } else { (nd - 2, nd - 1) };
            s.shape.swap(i, j);
            s.stride.swap(i, j);
            s.shape[j] = self_n;
            // another view of the same memory from the same element on, which only looks like the transposition
            if coin(1, 3) {
                let mut other = s.clone();
                match below(4) {
                    0 => other.stride[i] = pick(&[0, 1, other.stride[i] / 2]),
                    1 => other.stride[j] = pick(&[0, 1, other.stride[j] / 2]),
                    2 => other.stride.swap(i, j),
                    _ => other.offset = below(other.len.max(1)),
                }
                let (mut lo, mut hi) = (other.offset as isize, other.offset as isize);
                for (&n, &t) in other.shape.iter().zip(&other.stride) {
                    let e = (n as isize - 1).max(0) * t;
                    lo += e.min(0);
                    hi += e.max(0);
                }
                // (views whose elements overlap other than by broadcasting are not layouts of the library)
                if lo >= 0 && hi < other.len as isize && Layout::new(other.shape.clone(), other.stride.clone(), other.offset).is_ok() {
                    s = other;
                }
            }
            s
        },
    };
    assert_eq!(sb.shape, shape_b);
    let form = weighted(&[5, 2, 3, 6, 2]);
    let (alpha, beta) = if form == 3 { (pick(&[1i64, 2, -1, 3, 0]), pick(&[0i64, 1, -1, 2])) } else { (1, 0) };
    desc!(
        "{} product {}{} a[{}] b[{}]",
        T::NAME,
        ["matmul", "%", "with output", "from", "static dimensions"][form],
        if form == 3 { format!(" alpha {alpha} beta {beta}") } else { String::new() },
        show_spec(&oa.spec),
        if selfprod { format!("view of a {}", show_spec(&sb)) } else { show_spec(&sb) }
    );
    // model
    let scal = |v: i64| if form != 3 || v == 0 || v == 1 { if v == 0 { zero::<T>() } else { T::one() } } else { T::mk(v as u64) };
    let (al, be): (T, T) = (scal(alpha), scal(beta));
    let (want, old) = simcore::quiet(|| {
        let (va, vb) = (oa.vec(), ob.as_ref().unwrap_or(&oa).vec());
        let (pa, sta) = batches(&oa.spec, ma.len(), &rest, col);
        let (pb, stb) = batches(&sb, mb.len(), &rest, col);
        let (m, n) = (d.m.unwrap_or(1), if selfprod { self_n } else { d.n.unwrap_or(1) });
        let (sai, sak) = if ma.len() == 2 { (sta[0], sta[1]) } else { (0, sta[0]) };
        let (sbk, sbj) = if mb.len() == 2 { (stb[0], stb[1]) } else { (stb[0], 0) };
        // row-major over rest then m then n
        let mut v: Vec<T> = Vec::with_capacity(pa.len() * m * n);
        for (&qa, &qb) in pa.iter().zip(&pb) {
            for i in 0..m as isize {
                for j in 0..n as isize {
                    let mut acc: T = zero();
                    for k in 0..d.k as isize {
                        let x = &va[(qa as isize + i * sai + k * sak) as usize];
                        let y = &vb[(qb as isize + k * sbk + j * sbj) as usize];
                        acc = acc.fma(x, y);
                    }
                    v.push(acc);
                }
            }
        }
        // to the row-major order of the output's own axes
        let nc = numel(&shape_c);
        let mut order = Vec::with_capacity(nc);
        if col {
            let nr = numel(&rest);
            let nm = numel(&mc);
            // index (matrix, rest) row-major
            for q in 0..nm {
                for r in 0..nr {
                    order.push(r * nm + q);
                }
            }
        } else {
            order.extend(0..nc);
        }
        let seed = 77;
        let old: Vec<T> = (0..nc).map(|i| T::mk(val(Vals::Small(4), seed, i) as u64)).collect();
        let want: Vec<T> = order
            .into_iter()
            .enumerate()
            .map(|(i, q)| {
                let z: T = zero();
                let p = z.fma(&al, &v[q]);
                if beta == 0 { p } else { p.fma(&be, &old[i]) }
            })
            .collect();
        (want, old)
    });
    let out = if form == 2 || form == 3 { Some(Out::new(&shape_c, &want, beta == 0, &mut |i| old[i].clone())) } else { None };
    if coin(1, 3) {
        probe("product");
    }
    Box::new(move || {
        let ta = mk(&oa, &ctx.dev);
        let tb_own = ob.as_ref().map(|o| mk(o, &ctx.dev));
        {
            let va = ta.view();
            let vb = match &tb_own {
                Some(t) => t.view(),
                None => unsafe { TensorBase::new_unchecked(Storage::new(ta.data().as_ref(), ctx.dev.clone()), sb.layout()) },
            };
            let what = "product";
            match form {
                0 | 1 => {
                    let r = if form == 0 { must_f(what, || ctx.enter(|| rt::matmul_f(&va, &vb))) } else { must_f(what, || ctx.enter(|| Ok(&va % &vb))) };
                    if let Some(c) = r {
                        expect_tensor(what, &c, &shape_c, &want);
                    }
                },
                4 => {
                    macro_rules! st {
                        ($A:ty, $B:ty) => {{
                            let (xa, xb) = (va.view().into_dim::<$A>(), vb.view().into_dim::<$B>());
                            if let Some(c) = must_f(what, || ctx.enter(|| xa.matmul_f(&xb))) {
                                expect_tensor(what, &c, &shape_c, &want);
                            }
                        }};
                    }
                    match (va.ndim(), vb.ndim()) {
                        (1, 1) => st!(Ix1, Ix1),
                        (2, 2) => st!(Ix2, Ix2),
                        (1, 2) => st!(Ix1, Ix2),
                        (2, 1) => st!(Ix2, Ix1),
                        (3, 2) => st!(Ix3, Ix2),
                        (2, 3) => st!(Ix2, Ix3),
                        (3, 3) => st!(Ix3, Ix3),
                        (3, 1) => st!(Ix3, Ix1),
                        (1, 3) => st!(Ix1, Ix3),
                        _ => st!(IxD, IxD),
                    }
                },
                _ => {
                    let out = out.as_ref().unwrap();
                    let mut tc = out.tensor(&ctx.dev);
                    let r = if form == 2 {
                        let c = tc.view_mut();
                        must_f(what, || ctx.enter(move || rt::matmul_with_output_f(&va, &vb, c)))
                    } else {
                        let c = tc.view_mut();
                        must_f(what, || ctx.enter(move || rt::matmul_from_f(c, &va, &vb, al, be)))
                    };
                    if r.is_some() {
                        out.check(what, &tc);
                    }
                },
            }
        }
        oa.unchanged(ta.raw(), "first operand");
        if let (Some(o), Some(t)) = (&ob, &tb_own) {
            o.unchanged(t.raw(), "second operand");
        }
    })
}

fn dot<T: Mm>(ctx: &Ctx) -> Case {
    let ctx = ctx.clone();
    let col = ctx.col;
    const THR: &[usize] = &[8, 64, 512, 1024];
    // axes that remain, and the contracted ones
    let nr = pick(&[0usize, 1, 2, 1, 3]);
    let nc = pick(&[1usize, 1, 1, 2, 3, 0]);
    let total = gen_target(THR);
    let mut csh = gen_shape(nc, logrange(1, total.max(1)));
    let cn = numel(&csh).max(1);
    let mut osh = gen_shape(nr, (total / cn).max(1));
    if nr > 0 && coin(1, 30) {
        let i = below(nr);
        osh[i] = 0;
    }
    if nc > 0 && coin(1, 30) {
        let i = below(nc);
        csh[i] = 0;
    }
    let (ra, rb) = (gen_bshape(&osh, col), gen_bshape(&osh, col));
    let rest = bshape(&ra, &rb, col);
    // how the axes are written
    let style = if nc == 1 { below(3) } else { 2 };
    // 0 none / negative number (same place counted from the end), 1 same place from the start, 2 pair of lists
    let insert = |r: &[usize], pos: &[usize]| -> (Vec<usize>, Vec<usize>) {
        // pos: for each contracted axis its final place (distinct, any order)
        let nd = r.len() + pos.len();
        let mut s = vec![usize::MAX; nd];
        for (c, &p) in pos.iter().enumerate() {
            s[p] = csh[c];
        }
        let mut it = r.iter();
        for k in 0..nd {
            if s[k] == usize::MAX {
                s[k] = *it.next().unwrap();
            }
        }
        (s, pos.to_vec())
    };
    let places = |nd: usize| -> Vec<usize> {
        let mut p: Vec<usize> = (0..nd).collect();
        for i in (1..nd).rev() {
            let j = i - below(i + 1);
            p.swap(i, j);
        }
        p.truncate(nc);
        p
    };
    let (na, nb) = (ra.len() + nc, rb.len() + nc);
    let (pa, pb, arg) = match style {
        0 => {
            let back = range(1, na.min(nb));
            let arg = if back == 1 && coin(1, 2) { AxesPairIndex::None } else { AxesPairIndex::Val(-(back as isize)) };
            (vec![na - back], vec![nb - back], arg)
        },
        1 => {
            let p = below(na.min(nb));
            (vec![p], vec![p], AxesPairIndex::Val(p as isize))
        },
        _ => {
            let (pa, pb) = (places(na), places(nb));
            let w = |p: &[usize], nd: usize| {
                let v: Vec<isize> = p.iter().map(|&k| if coin(1, 3) { k as isize - nd as isize } else { k as isize }).collect();
                if v.len() == 1 && coin(1, 2) { AxesIndex::Val(v[0]) } else { AxesIndex::Vec(v) }
            };
            let arg = AxesPairIndex::Pair(w(&pa, na), w(&pb, nb));
            (pa, pb, arg)
        },
    };
    let (sha, pa) = insert(&ra, &pa);
    let (shb, pb) = insert(&rb, &pb);
    let small = Vals::Small(pick(&[1i64, 3, 5]));
    let oa = Opnd::<T>::gen(gen_spec(&sha, true), small);
    let ob = Opnd::<T>::gen(gen_spec(&shb, true), small);
    let from = coin(1, 3);
    desc!("{} vecdot{} axes {arg:?} a[{}] b[{}]", T::NAME, if from { " into output" } else { "" }, show_spec(&oa.spec), show_spec(&ob.spec));
    let want = simcore::quiet(|| {
        let (va, vb) = (oa.vec(), ob.vec());
        let split = |s: &Spec, p: &[usize]| {
            let r: Vec<usize> = (0..s.shape.len()).filter(|k| !p.contains(k)).collect();
            let sub = Spec { shape: r.iter().map(|&k| s.shape[k]).collect(), stride: r.iter().map(|&k| s.stride[k]).collect(), offset: s.offset, len: s.len };
            // relative contracted positions: may be negative
            let st: Vec<isize> = p.iter().map(|&k| s.stride[k]).collect();
            (sub.bpositions_o(&rest, col), st)
        };
        let (qa, sta) = split(&oa.spec, &pa);
        let (qb, stb) = split(&ob.spec, &pb);
        let cn = numel(&csh);
        let rel = |st: &[isize]| -> Vec<isize> { (0..cn).map(|i| unravel(i, &csh).iter().zip(st).map(|(&x, &s)| x as isize * s).sum()).collect() };
        let (da, db) = (rel(&sta), rel(&stb));
        qa.iter()
            .zip(&qb)
            .map(|(&x, &y)| {
                let mut acc: T = zero();
                for (&u, &v) in da.iter().zip(&db) {
                    acc = acc.fma(&va[(x as isize + u) as usize].cj(), &vb[(y as isize + v) as usize]);
                }
                acc
            })
            .collect::<Vec<T>>()
    });
    let out = if from { Some(Out::new(&rest, &want, true, &mut |_| T::stale())) } else { None };
    Box::new(move || {
        let (ta, tb) = (mk(&oa, &ctx.dev), mk(&ob, &ctx.dev));
        match &out {
            None => {
                let a2 = arg.clone();
                if let Some(c) = must_f("dot product", || ctx.enter(|| rt::vecdot_f(&ta, &tb, a2))) {
                    expect_tensor("dot product", &c, &rest, &want);
                }
            },
            Some(o) => {
                let mut tc = o.tensor(&ctx.dev);
                let c = tc.view_mut();
                if must_f("dot product", || ctx.enter(|| rt::vecdot_from_f(c, &ta, &tb, arg.clone()))).is_some() {
                    o.check("dot product", &tc);
                }
            },
        }
        oa.unchanged(ta.raw(), "first operand");
        ob.unchanged(tb.raw(), "second operand");
    })
}

/// on the device this file is compiled for
pub fn run() {
    let ctx = Ctx::gen(true);
    desc!("device {}", super::DEVNAME);
    run_cases(&ctx, &|ctx| match weighted(&[5, 1, 1, 2, 4, 1, 2, 4, 1, 1, 2]) {
        0 => product::<Y>(ctx, false),
        1 => product::<i64>(ctx, false),
        2 => product::<i32>(ctx, false),
        3 => product::<f32>(ctx, true),
        4 => product::<f64>(ctx, true),
        5 => product::<num::Complex<f32>>(ctx, true),
        6 => product::<num::Complex<f64>>(ctx, true),
        7 => dot::<Y>(ctx),
        8 => dot::<i32>(ctx),
        9 => dot::<f64>(ctx),
        _ => dot::<num::Complex<f64>>(ctx),
    });
}
