//! Shared by the workloads: devices, calling contexts, result checks.
use crate::fw::*;
use rstsr_core::prelude::*;
use rstsr_core::prelude_dev::{DataAPI, FlagOrder};
use rstsr_common::prelude::{IxD, Layout};

pub type Dev = super::DevT;
pub type Tsr<T> = Tensor<T, Dev, IxD>;

/// where the call comes from
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    Plain,
    OwnPool,
    OtherPool,
    GlobalPool,
}
#[derive(Clone)]
pub struct Ctx {
    pub dev: Dev,
    pub nt: usize,
    pub mode: Mode,
    pub col: bool,
    pub other: std::rc::Rc<Option<rayon::ThreadPool>>,
}

pub struct AssertSend<T>(pub T);
unsafe impl<T> Send for AssertSend<T> {}
impl<R, F: FnOnce() -> R> AssertSend<F> {
    pub fn run(self) -> R {
        (self.0)()
    }
}

pub fn gen_dev(nt: usize, col: bool) -> Dev {
    let mut dev = Dev::new(nt);
    dev.set_default_order(if col { FlagOrder::F } else { FlagOrder::C });
    dev
}
pub fn gen_nt() -> usize {
    pick(&[2usize, 3, 1, 4, 5, 7, 8])
}
impl Ctx {
    pub fn gen(allow_col: bool) -> Ctx {
        let nt = gen_nt();
        let col = allow_col && coin(1, 4);
        let mode = match weighted(&[8, 2, 2, 1]) {
            0 => Mode::Plain,
            1 => Mode::OwnPool,
            2 => Mode::OtherPool,
            _ => Mode::GlobalPool,
        };
        let other = if mode == Mode::OtherPool { Some(rayon::ThreadPoolBuilder::new().num_threads(range(1, 4)).build().unwrap()) } else { None };
        desc!("device: {nt} threads, {}-major; called from {mode:?}", if col { "column" } else { "row" });
        Ctx { dev: gen_dev(nt, col), nt, mode, col, other: simcore::race::untracked(|| std::rc::Rc::new(other)) }
    }
    /// run `f` in this context's calling position
    pub fn enter<R>(&self, f: impl FnOnce() -> R) -> R {
        self.enter_mode(self.mode, f)
    }
    pub fn enter_mode<R>(&self, mode: Mode, f: impl FnOnce() -> R) -> R {
        let f = AssertSend(move || AssertSend(f()));
        match mode {
            Mode::Plain => f.run().0,
            Mode::OwnPool => self.dev.get_pool().install(move || f.run()).0,
            Mode::OtherPool => match self.other.as_ref() {
                Some(p) => p.install(move || f.run()).0,
                None => f.run().0,
            },
            Mode::GlobalPool => {
                let mut r = None;
                {
                    let rr = AssertSend(&mut r);
                    rayon::scope(move |_| {
                        let rr = rr;
                        let g = f;
                        *rr.0 = Some(g.run());
                    });
                }
                r.unwrap().0
            },
        }
    }
}

pub type Case = Box<dyn FnOnce()>;

/// one case in the current thread, or several cases in concurrent simulated threads
pub fn run_cases(ctx: &Ctx, gen: &dyn Fn(&Ctx) -> Case) {
    let k = match weighted(&[7, 2, 1]) {
        0 => 1,
        1 => 2,
        _ => 3,
    };
    if k == 1 {
        let c = gen(ctx);
        c();
        return;
    }
    probe("concurrent callers");
    desc!("{k} concurrent callers");
    let cases: Vec<Case> = (0..k).map(|_| gen(ctx)).collect();
    let hs: Vec<_> = cases.into_iter().map(|c| simcore::thread_spawn(move || c())).collect();
    for h in hs {
        if let Err(_e) = h.join() {
            fail!("escaped", "panic escaped a case: {}", simcore::sim().last_panic);
        }
    }
}

/// element counts around the given switch-over thresholds
pub fn gen_target(thr: &[usize]) -> usize {
    match weighted(&[3, 3, 8, 4]) {
        0 => logrange(1, 64),
        1 => logrange(64, 2000),
        2 => {
            let t = pick(thr);
            t - 3.min(t) + logrange(0, 600)
        },
        _ => {
            let t = pick(thr);
            t + logrange(0, 2 * t + 64)
        },
    }
}
pub fn gen_big_shape(thr: &[usize], maxnd: usize) -> Vec<usize> {
    let nd = pick(&[1usize, 2, 3, 2, 4, 0, 5]).min(maxnd);
    let mut s = gen_shape(nd, gen_target(thr));
    if nd > 0 && coin(1, 25) {
        let k = below(nd);
        s[k] = 0;
    }
    s
}

/// logical contents (row-major) of any tensor, read through its layout; None when the layout leaves the buffer
pub fn read<T: Clone, R, D: rstsr_common::prelude::DimAPI>(t: &TensorAny<R, T, Dev, D>) -> Option<(Vec<usize>, Vec<T>)>
where
    R: DataAPI<Data = Vec<T>>,
{
    simcore::quiet(|| {
        let l = t.layout();
        let shape: Vec<usize> = l.shape().as_ref().to_vec();
        let stride: Vec<isize> = l.stride().as_ref().to_vec();
        let raw: &Vec<T> = t.raw();
        let pos = positions(&shape, &stride, l.offset());
        let mut v = Vec::with_capacity(pos.len());
        for p in pos {
            if p >= raw.len() {
                return None;
            }
            v.push(raw[p].clone());
        }
        Some((shape, v))
    })
}
/// like `read`, but through references (for element types whose clone is instrumented)
pub fn with_refs<T, R, D: rstsr_common::prelude::DimAPI>(t: &TensorAny<R, T, Dev, D>, f: &mut dyn FnMut(&[usize], usize, &T)) -> bool
where
    R: DataAPI<Data = Vec<T>>,
{
    let l = t.layout();
    let shape: Vec<usize> = l.shape().as_ref().to_vec();
    let stride: Vec<isize> = l.stride().as_ref().to_vec();
    let raw: &Vec<T> = t.raw();
    let pos = positions(&shape, &stride, l.offset());
    for (i, p) in pos.into_iter().enumerate() {
        if p >= raw.len() {
            return false;
        }
        f(&shape, i, &raw[p]);
    }
    true
}

/// compare a result tensor with the expected shape and row-major values
pub fn expect_tensor<T: Elem, R, D: rstsr_common::prelude::DimAPI>(what: &str, t: &TensorAny<R, T, Dev, D>, shape: &[usize], want: &[T])
where
    R: DataAPI<Data = Vec<T>>,
{
    simcore::quiet(|| {
        let l = t.layout();
        if l.shape().as_ref() != shape {
            fail!("wrong-shape", "{what}: shape {:?}, expected {shape:?}", l.shape().as_ref());
            return;
        }
        let mut bad = 0usize;
        let mut first = String::new();
        let ok = with_refs(t, &mut |sh, i, v| {
            if !v.same(&want[i]) {
                if bad == 0 {
                    first = format!("index {:?} is {}, expected {}", unravel(i, sh), v.show(), want[i].show());
                }
                bad += 1;
            }
        });
        if !ok {
            fail!("layout-out-of-buffer", "{what}: result layout {:?}/{:?}+{} leaves its buffer of {}", l.shape().as_ref(), l.stride().as_ref(), l.offset(), t.raw().len());
        } else if bad > 0 {
            fail!("wrong-value", "{what}: {bad} of {} elements wrong; {first}", want.len());
        }
    })
}
pub fn vals<T: Elem>(v: &[i64]) -> Vec<T> {
    simcore::quiet(|| v.iter().map(|&x| T::mk(x as u64)).collect())
}
/// tensor owning its buffer with the operand's layout
pub fn mk<T: Elem>(o: &Opnd<T>, dev: &Dev) -> Tsr<T> {
    rt::asarray((o.vec(), o.spec.layout(), dev))
}
/// whole buffer after an in-place operation: inside = new logical values, outside = unchanged
pub fn expect_inplace<T: Elem>(what: &str, raw: &[T], o: &Opnd<T>, want: &[i64]) {
    simcore::quiet(|| {
        if raw.len() != o.keys.len() {
            fail!("operand-buffer-length", "{what}: buffer length changed {} -> {}", o.keys.len(), raw.len());
            return;
        }
        let mut model = o.keys.clone();
        for (i, p) in o.spec.positions().into_iter().enumerate() {
            model[p] = want[i];
        }
        let mut inside = vec![false; model.len()];
        for p in o.spec.positions() {
            inside[p] = true;
        }
        for (i, (r, &k)) in raw.iter().zip(&model).enumerate() {
            let w = T::mk(k as u64);
            if !r.same(&w) {
                let kind = if inside[i] { "wrong-value" } else { "outside-touched" };
                fail!(kind, "{what}: buffer position {i} ({}) is {}, expected {}", if inside[i] { "inside the view" } else { "outside the view" }, r.show(), w.show());
                return;
            }
        }
    })
}
pub fn show_spec(s: &Spec) -> String {
    format!("shape {:?} stride {:?} offset {} buffer {}", s.shape, s.stride, s.offset, s.len)
}
pub fn lay(s: &Spec) -> Layout<IxD> {
    s.layout()
}
/// unexpected error/panic of an operation that must succeed
pub fn must<R>(what: &str, r: Result<R, String>) -> Option<R> {
    match r {
        Ok(v) => Some(v),
        Err(e) => {
            fail!("unexpected-failure", "{what} failed: {e}");
            None
        },
    }
}
/// call an error-returning operation that must succeed
pub fn must_f<R>(what: &str, f: impl FnOnce() -> rstsr_common::error::Result<R>) -> Option<R> {
    match call(f) {
        Ok(Ok(v)) => Some(v),
        Ok(Err(e)) => {
            fail!("unexpected-failure", "{what} returned an error: {e:?}");
            None
        },
        Err(e) => {
            fail!("unexpected-failure", "{what} panicked: {e}");
            None
        },
    }
}
/// shapes of a pair of operands and of their broadcast result
pub fn gen_pair(col: bool, thr: &[usize]) -> (Vec<usize>, Vec<usize>, Vec<usize>) {
    let out = gen_big_shape(thr, 5);
    let sa = gen_bshape(&out, col);
    let sb = gen_bshape(&out, col);
    // recompute the result shape: axes where both are one collapse, and the number of axes is the larger one
    let nd = sa.len().max(sb.len());
    let get = |s: &Vec<usize>, k: usize| -> usize {
        if col {
            s.get(k).copied().unwrap_or(1)
        } else {
            let d = nd - s.len();
            if k < d { 1 } else { s[k - d] }
        }
    };
    let sc = (0..nd)
        .map(|k| {
            let (x, y) = (get(&sa, k), get(&sb, k));
            if x == 1 { y } else { x }
        })
        .collect();
    (sa, sb, sc)
}
/// a random subset of the axes, as the caller writes it (any order, negative or not); None = the `None` axes argument
pub fn gen_axes(nd: usize) -> (Option<Vec<isize>>, Vec<usize>) {
    if coin(1, 10) {
        return (None, (0..nd).collect());
    }
    let mut sel: Vec<usize> = Vec::new();
    for k in 0..nd {
        if coin(1, 2) {
            sel.push(k);
        }
    }
    let mut perm = sel.clone();
    for i in (1..perm.len()).rev() {
        let j = i - below(i + 1);
        perm.swap(i, j);
    }
    let ax = perm.iter().map(|&k| if coin(1, 3) { k as isize - nd as isize } else { k as isize }).collect();
    (Some(ax), sel)
}
pub fn axes_arg(a: &Option<Vec<isize>>) -> rstsr_core::prelude_dev::AxesIndex<isize> {
    match a {
        None => rstsr_core::prelude_dev::AxesIndex::None,
        Some(v) if v.len() == 1 => rstsr_core::prelude_dev::AxesIndex::Val(v[0]),
        Some(v) => rstsr_core::prelude_dev::AxesIndex::Vec(v.clone()),
    }
}
