//! C10: handles sharing one buffer, used, modified, converted, handed over and dropped by concurrent threads.
use simcore::race;
use super::suite::{arr, Num2};
use super::util::*;
use crate::fw::*;
use rstsr_core::prelude::*;
use rstsr_core::prelude_dev::{DataArc, DataCow, DataMutAPI, DataOwned, FlagOrder, Storage};
use simcore::{FaultPlan, F_ALLOC, F_PANIC};
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::sync::Arc;

type Raw<T> = Vec<T>;
pub trait V: Num2 + rstsr_dtype_traits::ExtReal + std::ops::AddAssign + std::ops::MulAssign {}
impl<T: Num2 + rstsr_dtype_traits::ExtReal + std::ops::AddAssign + std::ops::MulAssign> V for T {}
enum Kind<T: V> {
    Arc(TensorArc<T, Dev, IxD>),
    Own(Tensor<T, Dev, IxD>),
    Cow(TensorCow<'static, T, Dev, IxD>),
    /// borrowed from memory that outlives every handle
    View(TensorView<'static, T, Dev, IxD>),
}
struct H<T: V> {
    t: Kind<T>,
    shape: Vec<usize>,
    vals: Vec<i64>,
    /// some element is addressed by several indices
    bcast: bool,
    name: usize,
}
macro_rules! with_ref {
    ($k:expr, |$t:ident| $e:expr) => {
        match $k {
            Kind::Arc($t) => $e,
            Kind::Own($t) => $e,
            Kind::Cow($t) => $e,
            Kind::View($t) => $e,
        }
    };
}
struct World<T: V> {
    ctx: Ctx,
    fault: Cell<bool>,
    mail: RefCell<Vec<(H<T>, race::Tok)>>,
    shared: Opnd<T>,
    sh: Tsr<T>,
    next: Cell<usize>,
}
impl<T: V> World<T> {
    /// a fault that may be hit anywhere is armed
    fn excused(&self, e: &str) -> bool {
        self.fault.get() && (e == "injected" || e == "oom" || simcore::sim().faults.iter().any(|f| f.fired > 0))
    }
    /// None: failed with an excuse (or reported)
    fn go<R>(&self, what: &str, f: impl FnOnce() -> rstsr_common::error::Result<R>) -> Option<R> {
        simcore::in_scope(true);
        let r = call(|| self.ctx.enter(f));
        simcore::in_scope(false);
        match r {
            Ok(Ok(v)) => Some(v),
            Ok(Err(e)) => {
                if !self.excused("") {
                    fail!("unexpected-failure", "{what} returned an error: {e:?}");
                }
                None
            },
            Err(e) => {
                if !self.excused(&e) {
                    fail!("unexpected-failure", "{what} panicked: {e}");
                }
                None
            },
        }
    }
}
fn same<T: V>(what: &str, h: &H<T>) {
    let w = arr::<T>(&h.vals);
    let what = simcore::quiet(|| format!("{what} (handle {})", h.name));
    with_ref!(&h.t, |t| expect_tensor(&what, t, &h.shape, &w));
    drop_quiet(w);
}
/// after a failed modification: each element holds its old or its new value; take what is there
fn resync<T: V>(what: &str, h: &mut H<T>, want: &[i64]) {
    simcore::quiet(|| {
        let mut got = vec![];
        let mut bad = None;
        with_ref!(&h.t, |t| with_refs(t, &mut |_, i, v| {
            got.push(v.n());
            if !v.same(&T::of(h.vals[i])) && !v.same(&T::of(want[i])) {
                bad = Some(i);
            }
        }));
        if let Some(i) = bad {
            fail!("torn-target", "{what} failed; element {i} of handle {} is neither its old nor its new value", h.name);
        }
        h.vals = got;
    })
}
fn ord(f: bool) -> FlagOrder {
    if f { FlagOrder::F } else { FlagOrder::C }
}

/// handles on one buffer, with different views of it
fn gen_handles<T: V>(dev: &Dev, n: usize, big: bool, next: &Cell<usize>) -> Vec<H<T>> {
    let len = if big { pick(&[4096usize, 5000, 4200]) } else { logrange(1, 300) };
    let seed = seed32();
    let keys: Vec<i64> = (0..len).map(|i| val(Vals::Small(90), seed, i)).collect();
    let buf: Arc<Raw<T>> = Arc::new(keys.iter().map(|&k| T::of(k)).collect());
    let mut out = vec![];
    for _ in 0..n {
        let s = loop {
            let nd = pick(&[1usize, 2, 3, 0]);
            let t = logrange(1, len);
            let shape = gen_shape(nd, if coin(1, 2) { len } else { t });
            let s = if coin(1, 3) { Spec::contig(&shape) } else { gen_spec(&shape, true) };
            if s.len <= len {
                break s;
            }
            if coin(1, 8) {
                break Spec::contig(&[len]);
            }
        };
        let vals: Vec<i64> = s.positions().into_iter().map(|p| keys[p]).collect();
        let t: TensorArc<T, Dev, IxD> = TensorBase::new(Storage::new(DataArc::from(buf.clone()), dev.clone()), s.layout());
        let name = next.get();
        next.set(name + 1);
        desc!("handle {name}: shape {:?} stride {:?} offset {} of a buffer of {len}", s.shape, s.stride, s.offset);
        out.push(H { t: Kind::Arc(t), shape: s.shape.clone(), vals, bcast: s.is_bcast(), name });
    }
    out
}

const N_READ: usize = 11;
fn read_op<T: V>(w: &World<T>, h: &H<T>, k: usize) {
    let (sh, x) = (&h.shape, &h.vals);
    let a = |v: &[i64]| arr::<T>(v);
    match k {
        0 => same("contents", h),
        1 => {
            if let Some(c) = w.go("h + h", || with_ref!(&h.t, |t| rt::add_f(t.view(), t.view()))) {
                let c: Tsr<T> = c;
                let want: Vec<i64> = x.iter().map(|v| v + v).collect();
                expect_tensor("h + h", &c, sh, &a(&want));
            }
        },
        2 => {
            if let Some(s) = w.go("sum", || with_ref!(&h.t, |t| rt::sum_all_f(t.view()))) {
                let s: T = s;
                let want: i64 = x.iter().sum();
                if s.n() != want {
                    fail!("wrong-value", "sum of handle {} is {}, expected {want}", h.name, s.n());
                }
            }
        },
        3 => {
            if let Some(c) = w.go("map", || {
                with_ref!(&h.t, |t| t.map_f(|v: &T| {
                    site();
                    T::of(v.n() + 1)
                }))
            }) {
                let want: Vec<i64> = x.iter().map(|v| v + 1).collect();
                expect_tensor("map", &c, sh, &a(&want));
            }
        },
        4 => {
            // an independent copy: modifying it is invisible here
            if let Some(mut c) = w.go("to_owned", || Ok(with_ref!(&h.t, |t| t.to_owned()))) {
                expect_tensor("to_owned", &c, sh, &a(x));
                if coin(1, 2) {
                    w.go("fill", || c.fill_f(T::of(-5)));
                }
            }
        },
        5 => {
            let f = coin(1, 2);
            if let Some(c) = w.go("to_contig", || with_ref!(&h.t, |t| t.to_contig_f(ord(f)))) {
                expect_tensor("to_contig", &c, sh, &a(x));
                if coin(1, 2) {
                    if let Some(mut o) = w.go("to_contig + into_owned", || Ok(c.into_owned())) {
                        w.go("fill", || o.fill_f(T::of(-6)));
                    }
                }
            }
        },
        6 => {
            // copy-on-write handle of a borrowed buffer
            let how = below(3);
            if let Some(c) = w.go("into_cow", || Ok(with_ref!(&h.t, |t| t.view().into_cow()))) {
                expect_tensor("copy-on-write handle", &c, sh, &a(x));
                let o = match how {
                    0 => w.go("cow.clone", || Ok(c.clone().into_owned())),
                    1 => w.go("cow.into_owned_keep_layout", || Ok(c.into_owned_keep_layout())),
                    _ => w.go("cow.into_shared", || Ok(c.into_shared().into_owned())),
                };
                if let Some(mut o) = o {
                    expect_tensor("converted copy-on-write handle", &o, sh, &a(x));
                    if !h.bcast {
                        w.go("fill", || o.fill_f(T::of(-7)));
                    }
                }
            }
        },
        7 => {
            let want: Vec<i64> = x.iter().copied().collect();
            if let Some(v) = w.go("par_iter", || {
                use rayon::prelude::*;
                Ok(with_ref!(&h.t, |t| t
                    .iter_with_order(TensorIterOrder::C)
                    .into_par_iter()
                    .map(|v| {
                        site();
                        v.n()
                    })
                    .collect::<Vec<i64>>()))
            }) {
                if v != want {
                    fail!("wrong-value", "parallel iteration over handle {} collects other values", h.name);
                }
            }
        },
        8 => {
            if sh.len() == 1 {
                if let Some(v) = w.go("to_vec", || with_ref!(&h.t, |t| t.to_raw_f())) {
                    if v.len() != x.len() || v.iter().zip(x).any(|(a, &b)| !simcore::quiet(|| a.same(&T::of(b)))) {
                        fail!("wrong-value", "to_vec of handle {} differs", h.name);
                    }
                }
            }
        },
        9 => {
            let m = *x.iter().max().unwrap_or(&0);
            if !x.is_empty() {
                if let Some(s) = w.go("max", || with_ref!(&h.t, |t| rt::max_all_f(t.view()))) {
                    let s: T = s;
                    if s.n() != m {
                        fail!("wrong-value", "max of handle {} is {}, expected {m}", h.name, s.n());
                    }
                }
            }
        },
        _ => {
            // the tensor every thread reads
            let x = w.shared.logical();
            let sh = &w.shared.spec.shape;
            match below(5) {
                0 => {
                    if let Some(s) = w.go("sum of the shared tensor", || rt::sum_all_f(&w.sh)) {
                        if s.n() != x.iter().sum::<i64>() {
                            fail!("wrong-value", "sum of the shared tensor is {}", s.n());
                        }
                    }
                },
                1 => {
                    if let Some(c) = w.go("shared * shared", || rt::mul_f(&w.sh, &w.sh)) {
                        let want: Vec<i64> = x.iter().map(|v| v * v).collect();
                        expect_tensor("shared * shared", &c, sh, &a(&want));
                    }
                },
                2 => {
                    if let Some(c) = w.go("transposed copy of the shared tensor", || w.sh.transpose_f(None)?.into_contig_f(FlagOrder::C)) {
                        let mut rsh = sh.clone();
                        rsh.reverse();
                        let want: Vec<i64> = (0..x.len())
                            .map(|i| {
                                let mut ix = unravel(i, &rsh);
                                ix.reverse();
                                x[ravel(&ix, sh)]
                            })
                            .collect();
                        expect_tensor("transposed copy of the shared tensor", &c, &rsh, &a(&want));
                    }
                },
                3 => {
                    if let Some(c) = w.go("clone of the shared tensor", || Ok(w.sh.clone())) {
                        expect_tensor("clone of the shared tensor", &c, sh, &a(&x));
                    }
                },
                _ => {
                    if let Some(c) = w.go("shared - scalar", || rt::sub_f(&w.sh, T::of(2))) {
                        let want: Vec<i64> = x.iter().map(|v| v - 2).collect();
                        expect_tensor("shared - scalar", &c, sh, &a(&want));
                    }
                },
            }
        },
    }
}

const N_WRITE: usize = 9;
fn write_op<T: V>(w: &World<T>, h: &mut H<T>, k: usize) {
    if h.bcast || matches!(h.t, Kind::Cow(_) | Kind::View(_)) {
        return;
    }
    let n = h.vals.len();
    let c = below(40) as i64 + 1;
    let (what, want): (&str, Vec<i64>) = match k {
        0 => ("fill", vec![c; n]),
        1 => ("+= scalar", h.vals.iter().map(|v| v + c).collect()),
        2 => ("mapi", h.vals.iter().map(|v| v * 2 + c).collect()),
        3 => ("assign", h.vals.iter().map(|v| v - c).collect()),
        4 => ("iter_mut", h.vals.iter().map(|v| v + c).collect()),
        5 => ("par_iter_mut", h.vals.iter().map(|v| v + c).collect()),
        6 | 7 if n > 0 => {
            let mut v = h.vals.clone();
            let i = below(n);
            v[i] = c;
            (if k == 6 { "raw_mut" } else { "as_mut_ptr" }, v)
        },
        8 => ("view_mut *= scalar", h.vals.iter().map(|v| v * 3).collect()),
        _ => return,
    };
    if want.iter().any(|v| v.abs() > 1 << 40) {
        return;
    }
    let src: Option<Tsr<T>> = if k == 3 { Some(rt::asarray((arr::<T>(&want), h.shape.clone().c(), &w.ctx.dev))) } else { None };
    let at = h.vals.iter().zip(&want).position(|(a, b)| a != b);
    let s = T::of(c);
    let r = w.go(what, || {
        with_mut_r(&mut h.t, &mut |m| match m {
            M::Arc(t) => apply(t, k, c, &s, src.as_ref(), at),
            M::Own(t) => apply(t, k, c, &s, src.as_ref(), at),
        })
    });
    if r.is_some() {
        h.vals = want;
    } else if !failed() {
        resync(what, h, &want);
    }
}
enum M<'a, T: V> {
    Arc(&'a mut TensorArc<T, Dev, IxD>),
    Own(&'a mut Tensor<T, Dev, IxD>),
}
fn with_mut_r<T: V, R>(k: &mut Kind<T>, f: &mut dyn FnMut(M<'_, T>) -> R) -> R {
    match k {
        Kind::Arc(t) => f(M::Arc(t)),
        Kind::Own(t) => f(M::Own(t)),
        Kind::Cow(_) | Kind::View(_) => unreachable!(),
    }
}
fn apply<T: V, R>(t: &mut TensorAny<R, T, Dev, IxD>, k: usize, c: i64, s: &T, src: Option<&Tsr<T>>, at: Option<usize>) -> rstsr_common::error::Result<()>
where
    R: DataMutAPI<Data = Vec<T>> + Send + Sync,
{
    use rayon::prelude::*;
    let pos = |t: &TensorAny<R, T, Dev, IxD>, i: usize| {
        let l = t.layout();
        let ix = unravel(i, l.shape().as_ref());
        let mut p = l.offset() as isize;
        for (a, b) in ix.iter().zip(l.stride().iter()) {
            p += *a as isize * *b;
        }
        p as usize
    };
    match k {
        0 => t.fill_f(s.clone()),
        1 => rt::add_assign_f(t, s.clone()),
        2 => t.mapi_f(|v: &mut T| {
            let n = v.n() * 2 + c;
            site();
            *v = T::of(n);
        }),
        3 => t.assign_f(src.unwrap()),
        4 => {
            for v in t.iter_mut() {
                let n = v.n() + c;
                site();
                *v = T::of(n);
            }
            Ok(())
        },
        5 => {
            t.iter_mut_with_order(TensorIterOrder::K).into_par_iter().for_each(|v| {
                let n = v.n() + c;
                site();
                *v = T::of(n);
            });
            Ok(())
        },
        6 => {
            if let Some(i) = at {
                let p = pos(t, i);
                t.raw_mut()[p] = T::of(c);
            }
            Ok(())
        },
        7 => {
            if let Some(i) = at {
                let p = pos(t, i);
                let off = t.layout().offset() as isize;
                unsafe { *t.as_mut_ptr().offset(p as isize - off) = T::of(c) };
            }
            Ok(())
        },
        _ => {
            let mut v = t.view_mut();
            rt::mul_assign_f(&mut v, T::of(3))
        },
    }
}

const N_CONV: usize = 11;
/// conversions consuming the handle; None when the handle is gone (failed under a fault)
fn conv_op<T: V>(w: &World<T>, h: H<T>, k: usize) -> Option<H<T>> {
    let H { t, mut shape, mut vals, mut bcast, name } = h;
    let n = vals.len();
    macro_rules! each {
        ($what:expr, |$x:ident| $e:expr, $wrap:expr) => {
            match t {
                Kind::Arc($x) => w.go($what, || $e).map($wrap),
                Kind::Own($x) => w.go($what, || $e).map($wrap),
                Kind::Cow($x) => w.go($what, || $e).map($wrap),
                Kind::View($x) => w.go($what, || $e).map($wrap),
            }
        };
    }
    let t = match k {
        0 => {
            bcast = false;
            each!("into_owned", |x| Ok(x.into_owned()), Kind::Own)
        },
        1 => each!("into_owned_keep_layout", |x| Ok(x.into_owned_keep_layout()), Kind::Own),
        2 => {
            bcast = false;
            each!("into_shared", |x| Ok(x.into_shared()), Kind::Arc)
        },
        3 => each!("into_shared_keep_layout", |x| Ok(x.into_shared_keep_layout()), Kind::Arc),
        4 => each!("into_cow", |x| Ok(x.into_cow()), Kind::Cow),
        5 => {
            bcast = false;
            // the reshaped handle: values in the device's order
            let ix: Vec<usize> = if w.ctx.col {
                let mut rsh = shape.clone();
                rsh.reverse();
                (0..n)
                    .map(|i| {
                        let mut ix = unravel(i, &rsh);
                        ix.reverse();
                        ravel(&ix, &shape)
                    })
                    .collect()
            } else {
                (0..n).collect()
            };
            vals = ix.into_iter().map(|i| vals[i]).collect();
            shape = vec![n];
            each!("into_shape", |x| x.into_shape_f([n]), Kind::Own)
        },
        6 => {
            bcast = false;
            let f = coin(1, 2);
            each!("into_contig", |x| x.into_contig_f(ord(f)), Kind::Own)
        },
        7 => {
            let f = coin(1, 2);
            each!("change_contig", |x| x.change_contig_f(ord(f)), Kind::Cow)
        },
        8 => {
            let nd = shape.len();
            let mut rsh = shape.clone();
            rsh.reverse();
            vals = (0..n)
                .map(|i| {
                    let mut ix = unravel(i, &rsh);
                    ix.reverse();
                    vals[ravel(&ix, &shape)]
                })
                .collect();
            shape = rsh;
            let ax: Vec<isize> = (0..nd as isize).rev().collect();
            match t {
                Kind::Arc(x) => w.go("into_transpose", || x.into_transpose_f(ax)).map(Kind::Arc),
                Kind::Own(x) => w.go("into_transpose", || x.into_transpose_f(ax)).map(Kind::Own),
                Kind::Cow(x) => w.go("into_transpose", || x.into_transpose_f(ax)).map(Kind::Cow),
                Kind::View(x) => w.go("into_transpose", || x.into_transpose_f(ax)).map(Kind::View),
            }
        },
        9 => {
            // another handle of the device
            let dev = w.ctx.dev.clone();
            let how = below(2);
            if how == 0 {
                match t {
                    Kind::Arc(x) => w.go("change_device", || x.change_device_f(&dev)).map(Kind::Arc),
                    Kind::Own(x) => w.go("change_device", || x.change_device_f(&dev)).map(Kind::Own),
                    Kind::Cow(x) => w.go("change_device", || x.change_device_f(&dev)).map(Kind::Cow),
                    Kind::View(x) => w.go("change_device", || x.change_device_f(&dev)).map(Kind::View),
                }
            } else {
                bcast = false;
                each!("into_device", |x| x.into_device_f(&dev), Kind::Own)
            }
        },
        _ => {
            // through the parts of the tensor
            let dev = w.ctx.dev.clone();
            match t {
                Kind::Own(x) => {
                    let (s, l) = x.into_raw_parts();
                    let (d, _) = s.into_raw_parts();
                    Some(Kind::Arc(TensorBase::new(Storage::new(DataArc::from(d.into_raw()), dev), l)))
                },
                Kind::Cow(x) => {
                    let (s, l) = x.into_raw_parts();
                    let (d, _) = s.into_raw_parts();
                    match d {
                        DataCow::Owned(d) => Some(Kind::Own(TensorBase::new(Storage::new(DataOwned::from(d.into_raw()), dev), l))),
                        d => Some(Kind::Cow(TensorBase::new(Storage::new(d, dev), l))),
                    }
                },
                t => Some(t),
            }
        },
    };
    t.map(|t| H { t, shape, vals, bcast, name })
}

fn script<T: V>(w: &World<T>, mut hs: Vec<H<T>>, acts: Vec<(u8, usize)>) {
    for (a, k) in acts {
        if failed() {
            break;
        }
        // handles handed over by other threads
        if a == 5 || hs.is_empty() {
            if let Some((h, tok)) = w.mail.borrow_mut().pop() {
                race::join(tok);
                probe("handle handed over");
                hs.push(h);
            }
        }
        if hs.is_empty() {
            continue;
        }
        let i = k % hs.len();
        let shared = match &hs[i].t {
            Kind::Arc(t) => t.data().strong_count() > 1,
            _ => false,
        };
        match a {
            0 => read_op(w, &hs[i], k / 7 % N_READ),
            1 => {
                if shared {
                    probe("write through a handle sharing its buffer");
                }
                write_op(w, &mut hs[i], k / 7 % N_WRITE)
            },
            2 => {
                if shared {
                    probe("conversion of a handle sharing its buffer");
                }
                let h = hs.remove(i);
                if let Some(h) = conv_op(w, h, k / 7 % N_CONV) {
                    same("converted handle", &h);
                    hs.push(h);
                }
            },
            3 => {
                let h = hs.remove(i);
                same("handle about to be dropped", &h);
                drop(h);
            },
            4 => {
                let h = hs.remove(i);
                race::untracked(|| w.mail.borrow_mut().push((h, race::fork())));
            },
            _ => same("contents", &hs[i]),
        }
    }
    if !failed() {
        for h in &hs {
            same("contents at the end", h);
        }
    }
}

fn world<T: V>() {
    let ctx = Ctx::gen(true);
    let k = pick(&[2usize, 3, 1, 4, 2]);
    let next = Cell::new(0);
    let big = coin(1, 8);
    let fault = coin(1, 5);
    if fault {
        unsafe { TK_LEAK_OK = true };
    }
    let b0 = simcore::alloc::live();
    {
        let shape = gen_shape(pick(&[1usize, 2, 3]), if coin(1, 6) { 4200 } else { logrange(1, 200) });
        let shared = Opnd::<T>::gen(gen_spec(&shape, true), Vals::Small(50));
        let sh = mk(&shared, &ctx.dev);
        let mut pool: Vec<H<T>> = gen_handles(&ctx.dev, range(k, 2 * k + 1), big, &next);
        if coin(1, 3) {
            pool.extend(gen_handles(&ctx.dev, range(1, 3), false, &next));
        }
        let mut per: Vec<Vec<H<T>>> = (0..k).map(|_| vec![]).collect();
        if coin(1, 3) {
            // handles borrowing the tensor every thread reads (which outlives them)
            for _ in 0..range(1, 3) {
                let name = next.get();
                next.set(name + 1);
                let s = shared.spec.clone();
                let t: TensorView<'static, T, Dev, IxD> = unsafe {
                    if coin(1, 2) {
                        std::mem::transmute::<TensorView<'_, T, Dev, IxD>, _>(sh.view())
                    } else {
                        let mem: &'static [T] = &*(sh.raw().as_slice() as *const [T]);
                        rt::asarray((mem, s.layout(), &ctx.dev))
                    }
                };
                desc!("handle {name}: borrows the tensor every thread reads");
                let vals = s.positions().into_iter().map(|p| sh.raw()[p].n()).collect();
                pool.push(H { t: Kind::View(t), shape: s.shape.clone(), vals, bcast: s.is_bcast(), name });
            }
        }
        for (i, h) in pool.into_iter().enumerate() {
            per[i % k].push(h);
        }
        let w = race::untracked(|| Rc::new(World { ctx: ctx.clone(), fault: Cell::new(fault), mail: RefCell::new(vec![]), shared, sh, next }));
        let acts: Vec<Vec<(u8, usize)>> =
            (0..k).map(|_| (0..range(2, 8)).map(|_| (weighted(&[5, 6, 4, 2, 2, 2]) as u8, below(1 << 20))).collect()).collect();
        desc!("{k} threads, actions {acts:?}{}", if fault { ", one fault" } else { "" });
        if fault {
            let kind = if coin(1, 3) { F_ALLOC } else { F_PANIC };
            simcore::sim().faults[kind] = FaultPlan { at: logrange(1, 400) as u64, burst: 0, hits: 0, fired: 0, armed: true, scoped: true };
        }
        if k == 1 {
            script(&w, per.pop().unwrap(), acts[0].clone());
        } else {
            probe("concurrent callers");
            let hs: Vec<_> = per
                .into_iter()
                .zip(acts)
                .map(|(p, a)| {
                    let w = w.clone();
                    simcore::thread_spawn(move || script(&w, p, a))
                })
                .collect();
            for h in hs {
                if h.join().is_err() {
                    fail!("escaped", "panic escaped a case: {}", simcore::sim().last_panic);
                }
            }
        }
        for f in simcore::sim().faults.iter_mut() {
            f.armed = false;
        }
        if !failed() {
            for (h, _) in w.mail.borrow().iter() {
                same("handle nobody took over", h);
            }
            w.shared.unchanged(w.sh.raw(), "tensor read by every thread");
        }
        w.fault.set(false);
        let _ = w.next.get();
    }
    if !fault && !failed() {
        let by = simcore::alloc::live() - b0;
        if by > 8192 {
            fail!("leak", "{by} bytes are still in use after every handle was dropped");
        }
    }
}

/// A tensor borrowing memory the caller owns: changes through it reach that memory, and conversions of it are independent.
fn borrowed<T: V>() {
    let ctx = Ctx::gen(true);
    let shape = gen_shape(pick(&[1usize, 2, 3, 0]), if coin(1, 8) { 4200 } else { logrange(1, 200) });
    let s = gen_spec(&shape, false);
    let o = Opnd::<T>::gen(s.clone(), Vals::Small(50));
    let mut mem: Vec<T> = o.vec();
    let how = below(3);
    let change = coin(1, 2);
    let conv = below(6);
    desc!("{} {}{}, {}, conversion {conv}", T::NAME, ["slice", "vector", "tensor"][how], if change { ", changed through the tensor" } else { "" }, show_spec(&s));
    let c = below(30) as i64 + 1;
    let mut vals: Vec<i64> = s.positions().into_iter().map(|p| mem[p].n()).collect();
    let mut keys: Vec<i64> = mem.iter().map(|v| v.n()).collect();
    if change {
        for (p, v) in s.positions().into_iter().zip(&mut vals) {
            *v += c;
            keys[p] = *v;
        }
    }
    let check = |what: &str, mem: &[T]| {
        simcore::quiet(|| {
            if let Some(i) = (0..keys.len()).find(|&i| !mem[i].same(&T::of(keys[i]))) {
                fail!("isolation", "{what}: element {i} of the borrowed memory is {}, expected {}", mem[i].show(), keys[i]);
            }
        })
    };
    let mut owner: Option<Tsr<T>> = None;
    if how == 2 {
        owner = Some(rt::asarray((std::mem::take(&mut mem), s.layout(), &ctx.dev)));
    }
    macro_rules! finish {
        ($out:expr) => {
            if let Some(mut out) = $out {
                let w = arr::<T>(&vals);
                expect_tensor("converted tensor", &out, &s.shape, &w);
                drop_quiet(w);
                // the conversion belongs to itself
                if must("fill", call(|| ctx.enter(|| out.fill(T::of(-5))))).is_some() {
                    check("conversion overwritten", owner.as_ref().map_or(&mem[..], |t| &t.raw()[..]));
                }
                drop(out);
                check("conversion dropped", owner.as_ref().map_or(&mem[..], |t| &t.raw()[..]));
            }
        };
    }
    if change {
        macro_rules! t {
            () => {{
                let t: TensorMut<T, Dev, IxD> = match how {
                    0 => rt::asarray((&mut mem[..], s.layout(), &ctx.dev)),
                    1 => rt::asarray((&mut mem, s.layout(), &ctx.dev)),
                    _ => owner.as_mut().unwrap().view_mut(),
                };
                t
            }};
        }
        let mut t = t!();
        if must("add to the borrowed tensor", call(|| ctx.enter(|| rt::add_assign(&mut t, T::of(c))))).is_none() {
            return;
        }
        match conv {
            0 => finish!(must("into_owned", call(|| ctx.enter(|| t.into_owned())))),
            1 => finish!(must("into_shared", call(|| ctx.enter(|| t.into_shared())))),
            2 => finish!(must("into_owned_keep_layout", call(|| ctx.enter(|| t.into_owned_keep_layout())))),
            3 => finish!(must("into_shared_keep_layout", call(|| ctx.enter(|| t.into_shared_keep_layout())))),
            4 => finish!(must("to_owned", call(|| ctx.enter(|| t.to_owned())))),
            _ => finish!(must("into_cow", call(|| ctx.enter(|| t.into_cow().into_owned())))),
        }
    } else {
        let t: TensorView<T, Dev, IxD> = match how {
            0 => rt::asarray((&mem[..], s.layout(), &ctx.dev)),
            1 => rt::asarray((&mem, s.layout(), &ctx.dev)),
            _ => owner.as_ref().unwrap().view(),
        };
        match conv {
            0 => finish!(must("into_owned", call(|| ctx.enter(|| t.into_owned())))),
            1 => finish!(must("into_shared", call(|| ctx.enter(|| t.into_shared())))),
            2 => finish!(must("into_owned_keep_layout", call(|| ctx.enter(|| t.into_owned_keep_layout())))),
            3 => finish!(must("into_shared_keep_layout", call(|| ctx.enter(|| t.into_shared_keep_layout())))),
            4 => finish!(must("into_cow", call(|| ctx.enter(|| t.into_cow().into_shared())))),
            _ => finish!(must("clone of the copy-on-write tensor", call(|| ctx.enter(|| t.into_cow().clone().into_owned())))),
        }
    }
}
pub fn run() {
    match weighted(&[2, 6, 1, 1]) {
        0 => world::<Y>(),
        1 => world::<Tk>(),
        2 => borrowed::<Y>(),
        _ => borrowed::<Tk>(),
    }
}
