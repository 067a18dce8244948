//! C03: parallel arg-reductions.
use super::util::*;
use crate::fw::*;
use rstsr_common::prelude::{Ix2, Ix3, IxD};
use rstsr_core::prelude::*;

const THR: &[usize] = &[1024, 2048];

#[derive(Clone, Copy, PartialEq)]
enum Form {
    All,
    AllUnraveled,
    AllStatic,
    Axes,
    AxesUnraveled,
}
struct Setup {
    spec: Spec,
    form: Form,
    /// axes as written by the caller (normalised), in that order
    axes: Vec<usize>,
    arg: Option<Vec<isize>>,
}
/// expected index lists: one per result element, each in the order of the axes given
fn model(s: &Setup, better: &dyn Fn(usize, usize) -> bool) -> (Vec<usize>, Vec<Vec<usize>>) {
    let nd = s.spec.ndim();
    let axes: Vec<usize> = if matches!(s.form, Form::Axes | Form::AxesUnraveled) { s.axes.clone() } else { (0..nd).collect() };
    let rest: Vec<usize> = (0..nd).filter(|k| !axes.contains(k)).collect();
    let osh: Vec<usize> = rest.iter().map(|&k| s.spec.shape[k]).collect();
    let ash: Vec<usize> = axes.iter().map(|&k| s.spec.shape[k]).collect();
    // row-major source numbers of the inner walk and of the outer walk
    let mut st = vec![0isize; nd];
    let mut acc = 1isize;
    for k in (0..nd).rev() {
        st[k] = acc;
        acc *= s.spec.shape[k] as isize;
    }
    let inner = positions(&ash, &axes.iter().map(|&k| st[k]).collect::<Vec<_>>(), 0);
    let outer = positions(&osh, &rest.iter().map(|&k| st[k]).collect::<Vec<_>>(), 0);
    let mut out = Vec::with_capacity(outer.len());
    for o in outer {
        let mut best = 0usize;
        for j in 1..inner.len() {
            if better(o + inner[j], o + inner[best]) {
                best = j;
            }
        }
        out.push(unravel(best, &ash));
    }
    (osh, out)
}
fn ravel_axes(s: &Setup, ix: &[usize]) -> usize {
    let axes: Vec<usize> = if matches!(s.form, Form::Axes) { s.axes.clone() } else { (0..s.spec.ndim()).collect() };
    let ash: Vec<usize> = axes.iter().map(|&k| s.spec.shape[k]).collect();
    ravel(ix, &ash)
}
trait ArgT: Elem {
    fn arg(k: usize, s: &Setup, t: &Tsr<Self>) -> rstsr_common::error::Result<Got>;
}
enum Got {
    Flat(usize),
    Ix(Vec<usize>),
    TFlat(Tsr<usize>),
    TIx(Tsr<IxD>),
}
macro_rules! forms {
    ($s:expr, $t:expr, $all:ident, $axes:ident, $uall:ident, $uaxes:ident) => {
        match $s.form {
            Form::All => $t.$all().map(Got::Flat),
            Form::AllUnraveled => $t.view().$uall().map(|v| Got::Ix(v)),
            Form::AllStatic => match $s.spec.ndim() {
                2 => $t.view().into_dim::<Ix2>().$uall().map(|v| Got::Ix(v.to_vec())),
                3 => $t.view().into_dim::<Ix3>().$uall().map(|v| Got::Ix(v.to_vec())),
                _ => $t.view().$uall().map(|v| Got::Ix(v)),
            },
            Form::Axes => $t.$axes(axes_arg(&$s.arg)).map(Got::TFlat),
            Form::AxesUnraveled => $t.view().$uaxes(axes_arg(&$s.arg)).map(Got::TIx),
        }
    };
}
macro_rules! argt {
    ($T:ty) => {
        impl ArgT for $T {
            fn arg(k: usize, s: &Setup, t: &Tsr<$T>) -> rstsr_common::error::Result<Got> {
                match k {
                    0 => forms!(s, t, argmin_all_f, argmin_axes_f, unraveled_argmin_all_f, unraveled_argmin_axes_f),
                    _ => forms!(s, t, argmax_all_f, argmax_axes_f, unraveled_argmax_all_f, unraveled_argmax_axes_f),
                }
            }
        }
    };
}
argt!(Y);
argt!(Tk);
argt!(f64);
fn gen(ctx: &Ctx, floats: bool) -> (usize, Setup, Vals) {
    let mut shape = gen_big_shape(THR, 4);
    // a selection without elements has no extremum
    shape.iter_mut().for_each(|n| *n = (*n).max(1));
    let spec = gen_spec(&shape, true);
    let k = below(2);
    let form = pick(&[Form::All, Form::Axes, Form::AllUnraveled, Form::AxesUnraveled, Form::AllStatic]);
    let nd = shape.len();
    let (mut arg, _) = gen_axes(nd);
    let axes: Vec<usize> = match &arg {
        None => (0..nd).collect(),
        Some(v) => v.iter().map(|&a| if a < 0 { (a + nd as isize) as usize } else { a as usize }).collect(),
    };
    if form == Form::All || form == Form::AllUnraveled || form == Form::AllStatic {
        arg = None;
    }
    let mode = if floats {
        Vals::Small(pick(&[1i64, 4, 50]))
    } else {
        // ties are the interesting case
        pick(&[Vals::Small(1), Vals::Const(4), Vals::Small(3), Vals::Wide])
    };
    let _ = ctx;
    let name = ["argmin", "argmax"][k];
    let f = match form {
        Form::All => "all",
        Form::AllUnraveled => "all, unraveled",
        Form::AllStatic => "all, unraveled, static dimension",
        Form::Axes => "axes",
        Form::AxesUnraveled => "axes, unraveled",
    };
    desc!("{name} ({f}{}) {mode:?} t[{}]", if f.starts_with("axes") { format!(" {arg:?}") } else { String::new() }, show_spec(&spec));
    (k, Setup { spec, form, axes, arg }, mode)
}
fn check(what: &str, s: &Setup, got: Got, osh: &[usize], want: &[Vec<usize>]) {
    simcore::quiet(|| match got {
        Got::Flat(v) => {
            let w = ravel_axes(s, &want[0]);
            if v != w {
                fail!("wrong-index", "{what}: index {v}, expected {w}");
            }
        },
        Got::Ix(v) => {
            if v != want[0] {
                fail!("wrong-index", "{what}: index {v:?}, expected {:?}", want[0]);
            }
        },
        Got::TFlat(t) => {
            let flat: Vec<usize> = want.iter().map(|w| ravel_axes(s, w)).collect();
            expect_tensor(what, &t, osh, &flat)
        },
        Got::TIx(t) => match read(&t) {
            None => fail!("layout-out-of-buffer", "{what}: result layout leaves its buffer"),
            Some((sh, v)) => {
                if sh != osh {
                    fail!("wrong-shape", "{what}: shape {sh:?}, expected {osh:?}");
                } else if let Some(i) = (0..v.len()).find(|&i| v[i] != want[i]) {
                    fail!("wrong-index", "{what}: result element {:?} is {:?}, expected {:?}", unravel(i, osh), v[i], want[i]);
                }
            },
        },
    })
}
/// with `AxesIndex::None` the axes forms reduce everything
fn fix_none(s: &mut Setup) {
    if s.arg.is_none() {
        s.axes = (0..s.spec.ndim()).collect();
    }
}
fn case_int<T: ArgT>(ctx: &Ctx) -> Case {
    let (k, mut s, mode) = gen(ctx, false);
    fix_none(&mut s);
    let o = Opnd::<T>::gen(s.spec.clone(), mode);
    let ctx = ctx.clone();
    Box::new(move || {
        let x = o.logical();
        let (osh, want) = simcore::quiet(|| model(&s, &|a, b| if k == 0 { x[a] < x[b] } else { x[a] > x[b] }));
        let what = ["argmin", "argmax"][k];
        let t = mk(&o, &ctx.dev);
        if let Some(g) = ctx.enter(|| must_f(what, || T::arg(k, &s, &t))) {
            check(what, &s, g, &osh, &want);
        }
        o.unchanged(t.raw(), "operand");
    })
}
fn case_f64(ctx: &Ctx) -> Case {
    let (k, mut s, mode) = gen(ctx, true);
    fix_none(&mut s);
    let o = Opnd::<f64>::gen(s.spec.clone(), mode);
    // -0.0 and 0.0 are equal; infinities are extrema like any other value
    let special = below(4);
    let f = move |k: i64| match (special, k) {
        (1, 1) => -0.0,
        (2, -1) => f64::NEG_INFINITY,
        (2, 1) => f64::INFINITY,
        (3, 2) => f64::NAN,
        (_, k) => k as f64,
    };
    let ctx = ctx.clone();
    Box::new(move || {
        let x: Vec<f64> = o.logical().into_iter().map(f).collect();
        // a NaN comes before everything, as in NumPy
        let (osh, want) = model(&s, &|a, b| {
            if x[a].is_nan() || x[b].is_nan() {
                x[a].is_nan() && !x[b].is_nan()
            } else if k == 0 {
                x[a] < x[b]
            } else {
                x[a] > x[b]
            }
        });
        let what = ["argmin", "argmax"][k];
        let mut v = Vec::with_capacity(o.keys.len());
        v.extend(o.keys.iter().map(|&k| f(k)));
        let t: Tsr<f64> = rt::asarray((v, o.spec.layout(), &ctx.dev));
        if let Some(g) = ctx.enter(|| must_f(what, || f64::arg(k, &s, &t))) {
            check(what, &s, g, &osh, &want);
        }
    })
}

pub fn run() {
    let ctx = Ctx::gen(true);
    let gens: [&dyn Fn(&Ctx) -> Case; 3] = [&case_int::<Y>, &case_f64, &case_int::<Tk>];
    run_cases(&ctx, gens[weighted(&[6, 3, 2])]);
}
