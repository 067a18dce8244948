//! C05: double-ended, splittable and parallel iterators.
use super::util::*;
use crate::fw::*;
use rayon::prelude::*;
use rstsr_common::layout::exports::*;
use rstsr_common::prelude::{Ix2, Ix3, Ix4, Ix5, IxD, Layout};
use rstsr_common::util::IterSplitAtAPI;
use rstsr_core::prelude::*;
use rstsr_core::prelude_dev::{DataAPI, DimAPI, DimDevAPI, FlagOrder, TensorIterOrder};
use std::collections::VecDeque;
use std::sync::Mutex;

/// what one visited item says about itself
#[derive(Clone, Debug, PartialEq)]
struct Rec {
    ix: Option<Vec<usize>>,
    id: usize,
}
/// what the walk over the whole iterator must give
struct Exp {
    /// (index, id) in the order of the iteration; for unordered kinds in row-major order
    items: Vec<(Vec<usize>, usize)>,
    ordered: bool,
    unique: bool,
}
const BIG: i64 = 1 << 40;

/// one record against the n-th expected one
fn check_rec(what: &str, r: &Rec, e: &(Vec<usize>, usize)) {
    if r.id != e.1 {
        fail!("wrong-item", "{what}: visited the item at {} but expected the item at {} (index {:?})", r.id, e.1, e.0);
    } else if let Some(ix) = &r.ix {
        if *ix != e.0 {
            fail!("wrong-index", "{what}: item at {} reported index {ix:?}, its index is {:?}", r.id, e.0);
        }
    }
}
/// an index reported with an item must address that item, whatever the order
fn check_set(what: &str, recs: &[Rec], exp: &Exp) {
    if recs.len() != exp.items.len() {
        fail!("wrong-count", "{what}: visited {} items of {}", recs.len(), exp.items.len());
        return;
    }
    let mut a: Vec<usize> = recs.iter().map(|r| r.id).collect();
    let mut b: Vec<usize> = exp.items.iter().map(|e| e.1).collect();
    a.sort();
    b.sort();
    if a != b {
        let bad = a.iter().zip(&b).find(|(x, y)| x != y);
        fail!("wrong-set", "{what}: the multiset of visited items differs (first difference {bad:?})");
    }
    for r in recs {
        if let Some(ix) = &r.ix {
            if !exp.items.iter().any(|e| e.0 == *ix && e.1 == r.id) {
                fail!("wrong-index", "{what}: item at {} reported index {ix:?}", r.id);
                return;
            }
        }
    }
}

/// sequential script over pieces: a model interval per piece
fn script<I, N>(what: &str, it: I, exp: &[(Vec<usize>, usize)], norm: &N) -> usize
where
    I: Iterator + DoubleEndedIterator + ExactSizeIterator + IterSplitAtAPI,
    N: Fn(I::Item) -> Rec,
{
    let mut visited = 0;
    let mut pieces: VecDeque<(I, usize, usize)> = VecDeque::new();
    pieces.push_back((it, 0, exp.len()));
    let mut splits = 0;
    while let Some((mut it, mut lo, mut hi)) = pieces.pop_front() {
        let mut steps = logrange(1, 40);
        loop {
            if failed() {
                return visited;
            }
            if it.len() != hi - lo {
                fail!("wrong-len", "{what}: len() is {} with {} items left", it.len(), hi - lo);
                return visited;
            }
            let drain = steps == 0 && splits > 40;
            steps = steps.saturating_sub(1);
            match if drain { 0 } else { weighted(&[6, 5, 2, 2, 1, 1]) } {
                0 => match it.next() {
                    Some(x) => {
                        let r = norm(x);
                        visited += 1;
                        if lo == hi {
                            fail!("extra-item", "{what}: next() gave item {} from an exhausted piece", r.id);
                            return visited;
                        }
                        check_rec(what, &r, &exp[lo]);
                        lo += 1;
                    },
                    None => {
                        if lo != hi {
                            fail!("missing-item", "{what}: next() ended with {} items left", hi - lo);
                        }
                        break;
                    },
                },
                1 => match it.next_back() {
                    Some(x) => {
                        let r = norm(x);
                        visited += 1;
                        if lo == hi {
                            fail!("extra-item", "{what}: next_back() gave item {} from an exhausted piece", r.id);
                            return visited;
                        }
                        hi -= 1;
                        check_rec(what, &r, &exp[hi]);
                    },
                    None => {
                        if lo != hi {
                            fail!("missing-item", "{what}: next_back() ended with {} items left", hi - lo);
                        }
                        break;
                    },
                },
                2 | 3 => {
                    splits += 1;
                    let mid = match below(6) {
                        0 => 0,
                        1 => hi - lo,
                        _ => below(hi - lo + 1),
                    };
                    let (l, r) = it.split_at(mid);
                    if coin(1, 2) {
                        it = l;
                        pieces.push_back((r, lo + mid, hi));
                        hi = lo + mid;
                    } else {
                        it = r;
                        pieces.push_back((l, lo, lo + mid));
                        lo += mid;
                    }
                    probe("split");
                },
                4 => {
                    let k = below(hi - lo + 1).min(7);
                    // the skipped items count as visited
                    let x = it.nth(k);
                    match x {
                        Some(x) => {
                            let r = norm(x);
                            if lo + k >= hi {
                                fail!("extra-item", "{what}: nth({k}) gave item {} with {} left", r.id, hi - lo);
                                return visited;
                            }
                            check_rec(what, &r, &exp[lo + k]);
                            lo += k + 1;
                        },
                        None => {
                            if lo + k < hi {
                                fail!("missing-item", "{what}: nth({k}) ended with {} items left", hi - lo);
                                return visited;
                            }
                            lo = hi;
                        },
                    }
                },
                _ => {
                    if steps == 0 && !pieces.is_empty() {
                        pieces.push_back((it, lo, hi));
                        break;
                    }
                },
            }
        }
    }
    visited
}

/// pieces handed to simulated threads, each walking in a random direction
fn threads<I, N>(it: I, n: usize, norm: &N) -> Vec<Rec>
where
    I: Iterator + DoubleEndedIterator + ExactSizeIterator + IterSplitAtAPI,
    N: Fn(I::Item) -> Rec,
{
    let mut pieces = vec![(it, 0usize, n)];
    for _ in 0..range(1, 6) {
        let k = below(pieces.len());
        let (it, lo, hi) = pieces.swap_remove(k);
        let mid = below(hi - lo + 1);
        let (l, r) = it.split_at(mid);
        pieces.push((l, lo, lo + mid));
        pieces.push((r, lo + mid, hi));
    }
    let out = Mutex::new(Vec::new());
    probe("pieces on threads");
    let mut hs = Vec::new();
    for (it, lo, _) in pieces {
        let seed = seed32();
        struct P<'x, I: Iterator, N>(I, usize, u64, &'x Mutex<Vec<(usize, Rec)>>, &'x N);
        let job = P(it, lo, seed as u64, &out, norm);
        let f = move || {
            let P(mut it, lo, seed, out, norm) = job;
            let mut rng = rng(seed);
            let (mut a, mut b) = (lo, lo + it.len());
            let bias = rng.below(5);
            loop {
                let fwd = rng.below(4) >= bias.min(4);
                let x = if fwd { it.next() } else { it.next_back() };
                let Some(x) = x else { break };
                let r = norm(x);
                let at = if fwd {
                    a += 1;
                    a - 1
                } else {
                    b -= 1;
                    b
                };
                out.lock().unwrap().push((at, r));
                simcore::yield_point();
            }
        };
        // the threads end before this function returns
        let b: Box<dyn FnOnce() + '_> = Box::new(f);
        let b: Box<dyn FnOnce()> = unsafe { std::mem::transmute(b) };
        let b = AssertSend(b);
        hs.push(simcore::thread_spawn(move || b.run()));
    }
    for h in hs {
        if h.join().is_err() {
            fail!("escaped", "panic in a thread walking a piece: {}", simcore::sim().last_panic);
        }
    }
    let mut v = out.into_inner().unwrap();
    v.sort_by_key(|x| x.0);
    v.into_iter().map(|x| x.1).collect()
}

/// run one iterator through one of the forms. `it` must be fresh.
fn drive<'x, I, N>(ctx: &Ctx, what: &str, it: I, fresh: Option<&dyn Fn() -> I>, exp: &Exp, norm: N) -> usize
where
    I: Iterator + DoubleEndedIterator + ExactSizeIterator + IterSplitAtAPI + Send + IntoParallelIterator<Item = <I as Iterator>::Item>,
    <I as IntoParallelIterator>::Iter: IndexedParallelIterator,
    <I as Iterator>::Item: Send,
    N: Fn(<I as Iterator>::Item) -> Rec + Sync + Send,
{
    let n = exp.items.len();
    if it.len() != n {
        fail!("wrong-len", "{what}: len() is {} for {n} items", it.len());
        return 0;
    }
    // an order that is the iterator's own business: take it from a forward walk
    let own;
    let items: Option<&[(Vec<usize>, usize)]> = if exp.ordered {
        Some(&exp.items)
    } else if let Some(fresh) = fresh {
        let recs: Vec<Rec> = fresh().map(&norm).collect();
        check_set(&format!("{what}, forward walk"), &recs, exp);
        if failed() {
            return 0;
        }
        own = recs.into_iter().map(|r| (r.ix.unwrap_or_default(), r.id)).collect::<Vec<_>>();
        Some(&own)
    } else {
        None
    };
    let in_order = |form: &str, recs: &[Rec]| {
        let w = format!("{what}, {form}");
        if recs.len() != n {
            fail!("wrong-count", "{w}: {} items of {n}", recs.len());
            return;
        }
        match items {
            Some(e) => {
                for (r, e) in recs.iter().zip(e) {
                    check_rec(&w, r, e);
                    if failed() {
                        return;
                    }
                }
            },
            None => check_set(&w, recs, exp),
        }
    };
    let form = below(12);
    match form {
        0 | 1 if items.is_some() => script(what, it, items.unwrap(), &norm),
        0 | 2 | 3 => {
            let recs = threads(it, n, &norm);
            in_order("pieces on threads", &recs);
            recs.len()
        },
        4 => {
            let v: Vec<Rec> = ctx.enter(|| it.into_par_iter().map(&norm).collect());
            in_order("parallel collect", &v);
            v.len()
        },
        5 => {
            let mut v: Vec<Rec> = ctx.enter(|| it.into_par_iter().rev().map(&norm).collect());
            v.reverse();
            in_order("parallel rev", &v);
            v.len()
        },
        6 => {
            let v: Vec<(usize, Rec)> = ctx.enter(|| it.into_par_iter().enumerate().map(|(i, x)| (i, norm(x))).collect());
            for (k, (i, _)) in v.iter().enumerate() {
                if k != *i {
                    fail!("wrong-item", "{what}: parallel enumerate gave number {i} at place {k}");
                    return 0;
                }
            }
            let v: Vec<Rec> = v.into_iter().map(|x| x.1).collect();
            in_order("parallel enumerate", &v);
            v.len()
        },
        7 => {
            // rayon panics on chunk size 0 only
            let c = range(1, 9);
            let v: Vec<Vec<Rec>> = ctx.enter(|| it.into_par_iter().chunks(c).map(|ch| ch.into_iter().map(&norm).collect()).collect());
            let v: Vec<Rec> = v.into_iter().flatten().collect();
            in_order("parallel chunks", &v);
            v.len()
        },
        8 => {
            // halves by skip and take would each consume the iterator; use one of them
            let k = below(n + 1);
            let head = coin(1, 2);
            let v: Vec<Rec> = if head { ctx.enter(|| it.into_par_iter().take(k).map(&norm).collect()) } else { ctx.enter(|| it.into_par_iter().skip(k).map(&norm).collect()) };
            let want = if head { 0..k } else { k..n };
            if v.len() != want.len() {
                fail!("wrong-count", "{what}: parallel take/skip gave {} of {}", v.len(), want.len());
                return v.len();
            }
            if let Some(e) = items {
                for (r, e) in v.iter().zip(&e[want]) {
                    check_rec(&format!("{what}, parallel {}({k})", if head { "take" } else { "skip" }), r, e);
                }
            }
            v.len()
        },
        9 => {
            let zi: Vec<usize> = (0..n).collect();
            let v: Vec<(usize, Rec)> = ctx.enter(|| zi.into_par_iter().zip(it.into_par_iter()).with_max_len(range(1, 5)).map(|(i, x)| (i, norm(x))).collect());
            for (k, (i, _)) in v.iter().enumerate() {
                if k != *i {
                    fail!("wrong-item", "{what}: parallel zip paired number {i} at place {k}");
                    return 0;
                }
            }
            let v: Vec<Rec> = v.into_iter().map(|x| x.1).collect();
            in_order("parallel zip", &v);
            v.len()
        },
        10 => {
            let s = range(1, 4);
            let v: Vec<Rec> = ctx.enter(|| it.into_par_iter().step_by(s).map(&norm).collect());
            if v.len() != n.div_ceil(s) {
                fail!("wrong-count", "{what}: parallel step_by({s}) gave {} items of {n}", v.len());
                return v.len();
            }
            if let Some(e) = items {
                for (r, e) in v.iter().zip(e.iter().step_by(s)) {
                    check_rec(&format!("{what}, parallel step_by({s})"), r, e);
                }
            }
            v.len()
        },
        _ => {
            let m = Mutex::new(Vec::new());
            ctx.enter(|| {
                it.into_par_iter().for_each(|x| {
                    let r = norm(x);
                    m.lock().unwrap().push(r)
                })
            });
            let v = m.into_inner().unwrap();
            check_set(&format!("{what}, parallel for_each"), &v, exp);
            v.len()
        },
    }
}

/// index/id pairs of a walk over axes `axes` (in that order) of the layout
fn expected(spec: &Spec, axes: &[usize], fortran: bool) -> Vec<(Vec<usize>, usize)> {
    let sh: Vec<usize> = axes.iter().map(|&k| spec.shape[k]).collect();
    let st: Vec<isize> = axes.iter().map(|&k| spec.stride[k]).collect();
    if fortran {
        let rsh: Vec<usize> = sh.iter().rev().cloned().collect();
        let rst: Vec<isize> = st.iter().rev().cloned().collect();
        positions(&rsh, &rst, spec.offset)
            .into_iter()
            .enumerate()
            .map(|(i, p)| {
                let mut ix = unravel(i, &rsh);
                ix.reverse();
                (ix, p)
            })
            .collect()
    } else {
        positions(&sh, &st, spec.offset).into_iter().enumerate().map(|(i, p)| (unravel(i, &sh), p)).collect()
    }
}
fn distinct(e: &[(Vec<usize>, usize)]) -> bool {
    let mut v: Vec<usize> = e.iter().map(|x| x.1).collect();
    v.sort();
    v.windows(2).all(|w| w[0] != w[1])
}
fn gen_order(indexed: bool, ctx: &Ctx) -> (Option<TensorIterOrder>, bool, bool) {
    // (order argument or the default form, ordered, fortran)
    let def = coin(1, 3);
    if def {
        return (None, true, ctx.col);
    }
    match if indexed { pick(&[0usize, 1, 0, 1, 0, 1, 3, 4]) } else { below(5) } {
        0 => (Some(TensorIterOrder::C), true, false),
        1 => (Some(TensorIterOrder::F), true, true),
        2 => (Some(TensorIterOrder::A), true, false),
        3 => (Some(TensorIterOrder::K), false, false),
        _ => (Some(TensorIterOrder::G), false, false),
    }
}
fn opnd(spec: Spec) -> Vec<i64> {
    (0..spec.len as i64).collect()
}
/// after a mutable walk: `cnt` visits in all, each item's positions bumped once per visit
fn check_buffer(what: &str, raw: &[i64], inside: &[bool], full: bool) {
    for (p, &v) in raw.iter().enumerate() {
        let (n, id) = (v.div_euclid(BIG), v.rem_euclid(BIG));
        if id != p as i64 {
            fail!("outside-touched", "{what}: position {p} holds {v}");
            return;
        }
        if !inside[p] && n != 0 {
            fail!("outside-touched", "{what}: position {p} outside the view was handed out");
            return;
        }
        if n > 1 {
            fail!("item-twice", "{what}: the item at {p} was handed out {n} times");
            return;
        }
        if full && inside[p] && n != 1 {
            fail!("item-lost", "{what}: an update of the item at {p} is missing (visited {n} times)");
            return;
        }
    }
}
/// orders without a defined index and mutable items that would overlap may be refused; nothing else
fn refused(what: &str, ordered: bool, overlap: bool, e: Option<rstsr_common::error::Error>) -> bool {
    match e {
        None => false,
        Some(_) if !ordered || overlap => {
            probe("request refused");
            true
        },
        Some(e) => {
            fail!("unexpected-failure", "{what} was refused: {e:?}");
            true
        },
    }
}
fn bump(x: &mut i64) {
    let v = unsafe { std::ptr::read_volatile(x) };
    simcore::yield_point();
    unsafe { std::ptr::write_volatile(x, v + BIG) };
}

fn elem_case<D: DimAPI + DimDevAPI + 'static>(ctx: &Ctx, spec: Spec, mutable: bool, indexed: bool, conv: fn(Tsr<i64>) -> Tensor<i64, Dev, D>)
where
    D: AsRef<[usize]>,
{
    let (order, ordered, fortran) = gen_order(indexed, ctx);
    let all: Vec<usize> = (0..spec.ndim()).collect();
    let items = expected(&spec, &all, fortran);
    let exp = Exp { unique: distinct(&items), items, ordered };
    let what = format!("{}iter{}({order:?}) over {}", if indexed { "indexed_" } else { "" }, if mutable { "_mut" } else { "" }, show_spec(&spec));
    desc!("{what}");
    let mut t = conv(rt::asarray((opnd(spec.clone()), spec.layout(), &ctx.dev)));
    let mut inside = vec![false; spec.len];
    exp.items.iter().for_each(|e| inside[e.1] = true);
    let rec = |v: i64| Rec { ix: None, id: v.rem_euclid(BIG) as usize };
    if !mutable {
        if indexed {
            if refused(&what, ordered, false, order.and_then(|o| t.indexed_iter_with_order_f(o).err())) {
                return;
            }
            let make = || match order {
                Some(o) => t.indexed_iter_with_order(o),
                None => t.indexed_iter(),
            };
            drive(ctx, &what, make(), Some(&make), &exp, |(ix, v): (D, &i64)| Rec { ix: Some(ix.as_ref().to_vec()), id: *v as usize });
        } else {
            let make = || match order {
                Some(o) => t.iter_with_order(o),
                None => t.iter(),
            };
            drive(ctx, &what, make(), Some(&make), &exp, |v: &i64| rec(*v));
        }
        check_buffer(&what, t.raw(), &vec![false; spec.len], false);
    } else {
        let n;
        if indexed {
            let tt: &'static mut Tensor<i64, Dev, D> = unsafe { &mut *(&mut t as *mut _) };
            if refused(&what, ordered, !exp.unique, tt.indexed_iter_mut_with_order_f(order.unwrap_or(TensorIterOrder::C)).err()) {
                return;
            }
            let it = match order {
                Some(o) => t.indexed_iter_mut_with_order(o),
                None => t.indexed_iter_mut(),
            };
            n = drive(ctx, &what, it, None, &exp, |(ix, v): (D, &mut i64)| {
                bump(v);
                Rec { ix: Some(ix.as_ref().to_vec()), id: v.rem_euclid(BIG) as usize }
            });
        } else {
            let tt: &'static mut Tensor<i64, Dev, D> = unsafe { &mut *(&mut t as *mut _) };
            if refused(&what, true, !exp.unique, tt.iter_mut_with_order_f(order.unwrap_or(TensorIterOrder::C)).err()) {
                return;
            }
            let it = match order {
                Some(o) => t.iter_mut_with_order(o),
                None => t.iter_mut(),
            };
            n = drive(ctx, &what, it, None, &exp, |v: &mut i64| {
                bump(v);
                rec(*v)
            });
        }
        if !failed() {
            // the iterator borrowed the tensor for good; look at the buffer itself
            let raw: Vec<i64> = unsafe { std::slice::from_raw_parts(t_raw_ptr(&t), spec.len).to_vec() };
            check_buffer(&what, &raw, &inside, n == exp.items.len());
        }
    }
}
fn t_raw_ptr<R: DataAPI<Data = Vec<i64>>, D: DimAPI>(t: *const TensorAny<R, i64, Dev, D>) -> *const i64 {
    unsafe { (*t).raw().as_ptr() }
}

fn axes_case(ctx: &Ctx, spec: Spec, mutable: bool, indexed: bool) {
    let nd = spec.ndim();
    let (mut arg, mut sel) = gen_axes(nd);
    if arg.is_none() {
        // no axes named: not a request these functions take
        arg = Some((0..nd as isize).collect());
        sel = (0..nd).collect();
    }
    let axes: Vec<usize> = arg.as_ref().unwrap().iter().map(|&a| if a < 0 { (a + nd as isize) as usize } else { a as usize }).collect();
    let _ = sel;
    let (order, ordered, fortran) = gen_order(indexed, ctx);
    // without an order argument the plain forms walk in an order of their own
    let (ordered, fortran) = if order.is_none() && !indexed { (false, false) } else { (ordered, fortran) };
    let items = expected(&spec, &axes, fortran);
    let rest: Vec<usize> = (0..nd).filter(|k| !axes.contains(k)).collect();
    let rsh: Vec<usize> = rest.iter().map(|&k| spec.shape[k]).collect();
    let rst: Vec<isize> = rest.iter().map(|&k| spec.stride[k]).collect();
    let exp = Exp { unique: distinct(&items), items, ordered };
    let what = format!("{}axes_iter{}({:?}, {order:?}) over {}", if indexed { "indexed_" } else { "" }, if mutable { "_mut" } else { "" }, arg.as_ref().unwrap(), show_spec(&spec));
    desc!("{what}");
    let mut t: Tsr<i64> = rt::asarray((opnd(spec.clone()), spec.layout(), &ctx.dev));
    let mut inside = vec![false; spec.len];
    spec.positions().into_iter().for_each(|p| inside[p] = true);
    let shape_check = |l: &Layout<IxD>| {
        if l.shape() != &rsh || l.stride() != &rst {
            fail!("wrong-item", "{what}: sub-tensor has shape {:?} stride {:?}, expected {rsh:?} {rst:?}", l.shape(), l.stride());
        }
        l.offset()
    };
    let ax = axes_arg(&arg);
    if !mutable {
        if indexed {
            if refused(&what, ordered, false, order.and_then(|o| t.indexed_axes_iter_with_order_f(ax.clone(), o).err())) {
                return;
            }
            let make = || match order {
                Some(o) => t.indexed_axes_iter_with_order(ax.clone(), o),
                None => t.indexed_axes_iter(ax.clone()),
            };
            drive(ctx, &what, make(), Some(&make), &exp, |(ix, v): (IxD, TensorView<'_, i64, Dev, IxD>)| Rec { ix: Some(ix), id: shape_check(v.layout()) });
        } else {
            let make = || match order {
                Some(o) => t.axes_iter_with_order(ax.clone(), o),
                None => t.axes_iter(ax.clone()),
            };
            drive(ctx, &what, make(), Some(&make), &exp, |v: TensorView<'_, i64, Dev, IxD>| Rec { ix: None, id: shape_check(v.layout()) });
        }
    } else {
        let visit = |v: &mut TensorMut<'_, i64, Dev, IxD>| {
            let id = shape_check(v.layout());
            let mut pos = positions(&rsh, &rst, id);
            // one item may show an element several times
            pos.sort();
            pos.dedup();
            let raw = v.raw_mut();
            for p in pos {
                bump(&mut raw[p]);
            }
            id
        };
        let n;
        if indexed {
            let tt: &'static mut Tsr<i64> = unsafe { &mut *(&mut t as *mut _) };
            if refused(&what, ordered, !exp.unique, tt.indexed_axes_iter_mut_with_order_f(ax.clone(), order.unwrap_or(TensorIterOrder::C)).err()) {
                return;
            }
            let it = match order {
                Some(o) => t.indexed_axes_iter_mut_with_order(ax, o),
                None => t.indexed_axes_iter_mut(ax),
            };
            n = drive(ctx, &what, it, None, &exp, |(ix, mut v): (IxD, TensorMut<'_, i64, Dev, IxD>)| {
                let id = visit(&mut v);
                Rec { ix: Some(ix), id }
            });
        } else {
            let tt: &'static mut Tsr<i64> = unsafe { &mut *(&mut t as *mut _) };
            if refused(&what, true, !exp.unique, tt.axes_iter_mut_with_order_f(ax.clone(), order.unwrap_or(TensorIterOrder::C)).err()) {
                return;
            }
            let it = match order {
                Some(o) => t.axes_iter_mut_with_order(ax, o),
                None => t.axes_iter_mut(ax),
            };
            n = drive(ctx, &what, it, None, &exp, |mut v: TensorMut<'_, i64, Dev, IxD>| Rec { ix: None, id: visit(&mut v) });
        }
        if !failed() {
            let raw: Vec<i64> = unsafe { std::slice::from_raw_parts(t_raw_ptr(&t), spec.len).to_vec() };
            check_buffer(&what, &raw, &inside, n == exp.items.len());
        }
    }
}

/// the layout iterators that everything else stands on
fn layout_case<D: DimAPI + DimDevAPI>(ctx: &Ctx, spec: Spec)
where
    D: AsRef<[usize]>,
{
    let l: Layout<D> = spec.layout().into_dim::<D>().unwrap();
    let all: Vec<usize> = (0..spec.ndim()).collect();
    let kind = below(4);
    let fortran = coin(1, 2);
    let mk_exp = |fortran, ordered| {
        let items = expected(&spec, &all, fortran);
        Exp { unique: distinct(&items), items, ordered }
    };
    let plain = |p: usize| Rec { ix: None, id: p };
    match kind {
        0 => {
            let what = format!("IterLayoutColMajor over {}", show_spec(&spec));
            desc!("{what}");
            drive(ctx, &what, IterLayoutColMajor::new(&l).unwrap(), None, &mk_exp(true, true), plain);
        },
        1 => {
            let what = format!("IterLayoutRowMajor over {}", show_spec(&spec));
            desc!("{what}");
            drive(ctx, &what, IterLayoutRowMajor::new(&l).unwrap(), None, &mk_exp(false, true), plain);
        },
        2 => {
            let (o, ordered, f) = gen_order(false, ctx);
            let (o, ordered, f) = match o {
                Some(o) => (o, ordered, f),
                None => (TensorIterOrder::K, false, false),
            };
            let what = format!("IterLayout({o:?}) over {}", show_spec(&spec));
            desc!("{what}");
            let make = || IterLayout::new(&l, o).unwrap();
            drive(ctx, &what, make(), Some(&make), &mk_exp(f, ordered), plain);
        },
        _ => {
            let o = if fortran { FlagOrder::F } else { FlagOrder::C };
            let what = format!("IndexedIterLayout({o:?}) over {}", show_spec(&spec));
            desc!("{what}");
            drive(ctx, &what, IndexedIterLayout::new(&l, o).unwrap(), None, &mk_exp(fortran, true), |(ix, p): (D, usize)| Rec { ix: Some(ix.as_ref().to_vec()), id: p });
        },
    }
}

fn gen_case(ctx: &Ctx) -> Case {
    let nd = pick(&[2usize, 1, 3, 4, 5, 2, 3, 0, 6]);
    let target = match weighted(&[6, 4, 1]) {
        0 => logrange(1, 40),
        1 => logrange(20, 300),
        _ => logrange(300, 1500),
    };
    let mut shape = gen_shape(nd, target);
    if nd > 0 && coin(1, 14) {
        let k = below(nd);
        shape[k] = 0;
    }
    let mutable = coin(1, 2);
    let indexed = coin(1, 2);
    let kind = weighted(&[4, 4, 2]);
    let spec = gen_spec(&shape, kind == 2 || !mutable || coin(1, 8));
    let st = coin(1, 2);
    let ctx = ctx.clone();
    Box::new(move || {
        let r = call(|| match kind {
            0 => match (st, nd) {
                (true, 2) => elem_case::<Ix2>(&ctx, spec.clone(), mutable, indexed, |t| t.into_dim()),
                (true, 3) => elem_case::<Ix3>(&ctx, spec.clone(), mutable, indexed, |t| t.into_dim()),
                (true, 4) => elem_case::<Ix4>(&ctx, spec.clone(), mutable, indexed, |t| t.into_dim()),
                (true, 5) => elem_case::<Ix5>(&ctx, spec.clone(), mutable, indexed, |t| t.into_dim()),
                _ => elem_case::<IxD>(&ctx, spec.clone(), mutable, indexed, |t| t),
            },
            1 => axes_case(&ctx, spec.clone(), mutable, indexed),
            _ => match (st, nd) {
                (true, 2) => layout_case::<Ix2>(&ctx, spec.clone()),
                (true, 3) => layout_case::<Ix3>(&ctx, spec.clone()),
                (true, 4) => layout_case::<Ix4>(&ctx, spec.clone()),
                (true, 5) => layout_case::<Ix5>(&ctx, spec.clone()),
                _ => layout_case::<IxD>(&ctx, spec.clone()),
            },
        });
        if let Err(e) = r {
            fail!("unexpected-failure", "iterating over {} panicked: {e}", show_spec(&spec));
        }
    })
}
pub fn run() {
    let ctx = Ctx::gen(true);
    run_cases(&ctx, &gen_case);
}
