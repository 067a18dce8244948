//! C06: parallel data movement and creation.
use super::util::*;
use crate::fw::*;
use num::complex::{Complex, ComplexFloat};
use rstsr_common::prelude::{IxD, Layout};
use rstsr_core::prelude::*;
use rstsr_core::prelude_dev::{AxesIndex, FlagOrder, FlagSymm, FlagUpLo, Ix2};

const THR: &[usize] = &[1024, 16384, 4096];

/// flat row-major numbers of a shape's indices, visited with the first (F) or last (C) axis fastest
pub fn visit(shape: &[usize], f: bool) -> Vec<usize> {
    let n = numel(shape);
    if !f {
        return (0..n).collect();
    }
    let rev: Vec<usize> = shape.iter().rev().copied().collect();
    (0..n)
        .map(|i| {
            let mut ix = unravel(i, &rev);
            ix.reverse();
            ravel(&ix, shape)
        })
        .collect()
}
fn ord(f: bool) -> FlagOrder {
    if f { FlagOrder::F } else { FlagOrder::C }
}
fn arr<T: Elem>(keys: &[i64]) -> Vec<T> {
    vals::<T>(keys)
}
/// another shape of the same number of elements
fn refactor(n: usize) -> Vec<usize> {
    if n == 0 {
        return pick(&[vec![0], vec![0, 3], vec![2, 0]]);
    }
    let mut s = vec![];
    let mut m = n;
    for _ in 0..below(4) {
        let d = pick(&[2usize, 3, 4, 5, 7, 1]);
        if m % d == 0 {
            s.push(d);
            m /= d;
        }
    }
    let at = below(s.len() + 1);
    s.insert(at, m);
    s
}
fn no_bcast(shape: &[usize]) -> Spec {
    let mut s = gen_spec(shape, false);
    if s.is_bcast() {
        s = Spec::contig(shape);
    }
    s
}
fn operand<T: Elem>(shape: &[usize]) -> Opnd<T> {
    let spec = gen_spec(shape, true);
    Opnd::gen(spec, Vals::Distinct)
}
fn unchanged<T: Elem>(t: &Tsr<T>, o: &Opnd<T>) {
    o.unchanged(t.raw(), "operand");
}

fn case_layout<T: Elem>(ctx: &Ctx) -> Case {
    let shape = gen_big_shape(THR, 5);
    let o = operand::<T>(&shape);
    let kind = below(9);
    let f = coin(1, 2);
    let nd = shape.len();
    let mut perm: Vec<usize> = (0..nd).collect();
    for i in (1..nd).rev() {
        perm.swap(i, below(i + 1));
    }
    let paxes: Vec<isize> = perm.iter().map(|&k| if coin(1, 4) { k as isize - nd as isize } else { k as isize }).collect();
    let tshape = refactor(numel(&shape));
    // gaps are allowed for plain types only
    let tspec = if T::NAME == "Tk" { if coin(1, 2) { Spec::contig(&tshape) } else { Spec::contig_f(&tshape) } } else { no_bcast(&tshape) };
    let infer = coin(1, 3) && numel(&shape) > 0;
    let infer_at = below(tshape.len().max(1));
    let copy = pick(&[None, Some(true), Some(false)]);
    let name = ["to_contig", "into_contig", "change_contig", "to_prefer", "transpose+into_contig", "to_layout", "reshape", "into_shape", "reshape_with_args"][kind];
    desc!("{name} of {} {} {} -> {}", T::NAME, show_spec(&o.spec), if f { "F" } else { "C" }, if kind == 5 { show_spec(&tspec) } else { format!("{tshape:?} {paxes:?} copy {copy:?}") });
    let ctx = ctx.clone();
    Box::new(move || {
        let t = mk(&o, &ctx.dev);
        let keys = o.logical();
        let log = || arr::<T>(&keys);
        let shp_arg = || {
            let mut v: Vec<isize> = tshape.iter().map(|&n| n as isize).collect();
            if infer && !v.is_empty() {
                v[infer_at] = -1;
            }
            AxesIndex::Vec(v)
        };
        let reordered = |f: bool| -> Vec<T> {
            let mut w = vec![0i64; keys.len()];
            for (s, d) in visit(&shape, f).into_iter().zip(visit(&tshape, f)) {
                w[d] = keys[s];
            }
            arr(&w)
        };
        let contig_layout = |l: &Layout<IxD>, f: bool| {
            let want: Layout<IxD> = if f { l.shape().new_f_contig(None) } else { l.shape().new_c_contig(None) };
            if l.size() > 1 && *l != want && l.shape().iter().zip(l.stride().iter()).zip(want.stride().iter()).any(|((&n, s), w)| n > 1 && s != w) {
                fail!("wrong-layout", "{name}: asked for {} order, got strides {:?} for shape {:?}", if f { "F" } else { "C" }, l.stride(), l.shape());
            }
        };
        ctx.enter(|| match kind {
            0 => {
                if let Some(r) = must_f(name, || t.to_contig_f(ord(f))) {
                    contig_layout(r.layout(), f);
                    expect_tensor(name, &r.view(), &shape, &log());
                }
                unchanged(&t, &o);
            },
            1 | 2 => {
                // by value: a view first half of the time
                let r = if kind == 1 { must_f(name, || t.view().into_contig_f(ord(f))) } else { must_f(name, || t.view().change_contig_f(ord(f)).map(|c| c.into_owned())) };
                if let Some(r) = r {
                    contig_layout(r.layout(), f);
                    expect_tensor(name, &r, &shape, &log());
                }
                unchanged(&t, &o);
                if let Some(r) = must_f(name, || t.into_contig_f(ord(f))) {
                    contig_layout(r.layout(), f);
                    expect_tensor(name, &r, &shape, &log());
                }
            },
            3 => {
                if let Some(r) = must_f(name, || t.to_prefer_f(ord(f))) {
                    expect_tensor(name, &r.view(), &shape, &log());
                }
                unchanged(&t, &o);
                if let Some(r) = must_f(name, || t.into_prefer_f(ord(f))) {
                    expect_tensor(name, &r, &shape, &log());
                }
            },
            4 => {
                let osh: Vec<usize> = perm.iter().map(|&k| shape[k]).collect();
                let mut w = vec![0i64; keys.len()];
                for i in 0..keys.len() {
                    let ix = unravel(i, &shape);
                    let jx: Vec<usize> = perm.iter().map(|&k| ix[k]).collect();
                    w[ravel(&jx, &osh)] = keys[i];
                }
                if let Some(r) = must_f(name, || t.transpose_f(paxes.clone()).and_then(|v| v.into_contig_f(ord(f)))) {
                    contig_layout(r.layout(), f);
                    expect_tensor(name, &r, &osh, &arr::<T>(&w));
                }
                unchanged(&t, &o);
            },
            5 => {
                if let Some(r) = must_f(name, || t.to_layout_f(tspec.layout())) {
                    expect_tensor(name, &r.view(), &tshape, &reordered(ctx.col));
                }
                unchanged(&t, &o);
            },
            6 => {
                if let Some(r) = must_f(name, || t.reshape_f(shp_arg())) {
                    expect_tensor(name, &r.view(), &tshape, &reordered(ctx.col));
                }
                unchanged(&t, &o);
            },
            7 => {
                if let Some(r) = must_f(name, || t.into_shape_f(shp_arg())) {
                    expect_tensor(name, &r, &tshape, &reordered(ctx.col));
                }
            },
            _ => {
                let r = call(|| t.reshape_with_args_f(shp_arg(), (ord(f), copy)));
                match r {
                    Ok(Ok(r)) => expect_tensor(name, &r.view(), &tshape, &reordered(f)),
                    Ok(Err(e)) if copy != Some(false) => {
                        fail!("unexpected-failure", "{name} returned an error: {e:?}");
                    },
                    Ok(Err(_)) => {},
                    Err(e) => {
                        fail!("unexpected-failure", "{name} panicked: {e}");
                    },
                }
                unchanged(&t, &o);
            },
        });
    })
}

fn case_join<T: Elem + Default>(ctx: &Ctx) -> Case {
    let kind = below(4);
    let name = ["concat", "stack", "hstack", "vstack"][kind];
    let shape = {
        let mut s = gen_big_shape(&[4096, 8192, 16384], 4);
        if s.is_empty() && kind == 0 {
            s.push(3);
        }
        s
    };
    let nd = shape.len();
    let k = range(1, 4);
    // axis in the result's coordinates and the pieces' promoted shapes
    let prom: Vec<usize> = match (kind, nd) {
        (2, 0) => vec![1],
        (3, 0) => vec![1, 1],
        (3, 1) => vec![1, shape[0]],
        _ => shape.clone(),
    };
    let axis = match kind {
        0 => below(nd),
        1 => below(nd + 1),
        2 => (prom.len() > 1) as usize,
        _ => 0,
    };
    let neg = coin(1, 3);
    // pieces differ along the joined axis, if it exists in the operands as given
    let own_axis = match kind {
        0 => Some(axis),
        2 if nd > 0 => Some(axis),
        3 if nd > 1 => Some(0),
        _ => None,
    };
    let ops: Vec<Opnd<T>> = (0..k)
        .map(|_| {
            let mut s = shape.clone();
            if let Some(a) = own_axis {
                s[a] = if coin(1, 8) { 0 } else { logrange(1, s[a].max(1)) };
            }
            operand::<T>(&s)
        })
        .collect();
    desc!("{name} of {} along {axis}{}: {}", T::NAME, if neg { " (negative)" } else { "" }, ops.iter().map(|o| show_spec(&o.spec)).collect::<Vec<_>>().join("; "));
    let ctx = ctx.clone();
    Box::new(move || {
        let ts: Vec<Tsr<T>> = ops.iter().map(|o| mk(o, &ctx.dev)).collect();
        // expected: every piece at its offset
        let psh = |o: &Opnd<T>| -> Vec<usize> {
            let s = &o.spec.shape;
            match kind {
                1 => {
                    let mut s = s.clone();
                    s.insert(axis, 1);
                    s
                },
                2 if nd == 0 => vec![1],
                3 if nd == 0 => vec![1, 1],
                3 if nd == 1 => vec![1, s[0]],
                _ => s.clone(),
            }
        };
        let mut osh = psh(&ops[0]);
        osh[axis] = ops.iter().map(|o| psh(o)[axis]).sum();
        let mut w = vec![0i64; numel(&osh)];
        let mut off = 0;
        for o in &ops {
            let ps = psh(o);
            for (i, k) in o.logical().into_iter().enumerate() {
                let mut ix = unravel(i, &ps);
                ix[axis] += off;
                w[ravel(&ix, &osh)] = k;
            }
            off += ps[axis];
        }
        let refs: Vec<&Tsr<T>> = ts.iter().collect();
        let ax = if neg { axis as isize - osh.len() as isize } else { axis as isize };
        let r = ctx.enter(|| {
            must_f(name, || match kind {
                0 => rt::concat_f((refs, ax)),
                1 => rt::stack_f((refs, ax)),
                2 => rt::hstack_f(refs),
                _ => rt::vstack_f(refs),
            })
        });
        if let Some(r) = r {
            expect_tensor(name, &r, &osh, &arr::<T>(&w));
        }
        for (t, o) in ts.iter().zip(&ops) {
            unchanged(t, o);
        }
    })
}

fn case_select<T: Elem + Default>(ctx: &Ctx) -> Case {
    let kind = below(4);
    let name = ["index_select", "take", "bool_select", "unstack"][kind];
    let mut shape = gen_big_shape(&[4096, 8192, 16384], 4);
    if shape.is_empty() {
        shape.push(4);
    }
    if kind == 3 {
        let k = below(shape.len());
        shape[k] = shape[k].min(6);
    }
    let nd = shape.len();
    let axis = below(nd);
    let n = shape[axis];
    let neg = coin(1, 3);
    let ax = if neg { axis as isize - nd as isize } else { axis as isize };
    let o = operand::<T>(&shape);
    let mut bad = false;
    let mut ind: Vec<isize> = vec![];
    let mut mask: Vec<bool> = vec![];
    match kind {
        0 | 1 => {
            let m = if n == 0 { 0 } else { pick(&[0usize, 1, 2, n, n + 3]).min(4096) };
            let mut r = rng(seed32());
            for _ in 0..m {
                let i = r.below(n as u64) as isize;
                ind.push(if r.below(3) == 0 { i - n as isize } else { i });
            }
            if coin(1, 12) {
                // one index outside the axis: the call has to be refused
                bad = true;
                let at = below(ind.len() + 1);
                let off = below(3) as isize;
                ind.insert(at, if coin(1, 2) { n as isize + off } else { -(n as isize) - 1 - off });
            }
        },
        2 => {
            let den = pick(&[1u64, 2, 3, 9]);
            let mut r = rng(seed32());
            mask = (0..n).map(|_| r.below(den) == 0).collect();
        },
        _ => {},
    }
    desc!("{name} of {} {} axis {ax}: {}", T::NAME, show_spec(&o.spec), if ind.len() <= 12 { format!("{ind:?}") } else { format!("{} indices", ind.len()) });
    let ctx = ctx.clone();
    Box::new(move || {
        let t = mk(&o, &ctx.dev);
        let keys = o.logical();
        let sel: Vec<usize> = match kind {
            0 | 1 => ind.iter().map(|&i| if i < 0 { i + n as isize } else { i } as usize).collect(),
            2 => (0..n).filter(|&i| mask[i]).collect(),
            _ => (0..n).collect(),
        };
        if kind == 3 {
            let mut osh = shape.clone();
            osh.remove(axis);
            ctx.enter(|| {
                if let Some(parts) = must_f(name, || rt::unstack_f((&t, ax))) {
                    if parts.len() != n {
                        fail!("wrong-shape", "unstack: {} parts, expected {n}", parts.len());
                        return;
                    }
                    for (i, p) in parts.into_iter().enumerate() {
                        let w: Vec<i64> = (0..numel(&osh))
                            .map(|j| {
                                let mut ix = unravel(j, &osh);
                                ix.insert(axis, i);
                                keys[ravel(&ix, &shape)]
                            })
                            .collect();
                        if let Some(p) = must_f("into_contig", || p.into_contig_f(ord(ctx.col))) {
                            expect_tensor(name, &p, &osh, &arr::<T>(&w));
                        }
                    }
                }
            });
            unchanged(&t, &o);
            return;
        }
        let r = ctx.enter(|| {
            let f = || match kind {
                0 => t.index_select_f(ax, ind.clone()),
                1 => t.take_f(ind.clone(), ax),
                _ => t.bool_select_f(ax, mask.clone()),
            };
            if bad {
                match call(f) {
                    Ok(Ok(_)) => fail!("accepted-bad-index", "{name} accepted an index outside the axis"),
                    Ok(Err(_)) => {},
                    Err(e) => fail!("unexpected-failure", "{name}: the error-returning form panicked: {e}"),
                }
                None
            } else {
                must_f(name, f)
            }
        });
        if let Some(r) = r {
            let mut osh = shape.clone();
            osh[axis] = sel.len();
            let w: Vec<i64> = (0..numel(&osh))
                .map(|j| {
                    let mut ix = unravel(j, &osh);
                    ix[axis] = sel[ix[axis]];
                    keys[ravel(&ix, &shape)]
                })
                .collect();
            expect_tensor(name, &r, &osh, &arr::<T>(&w));
        }
        unchanged(&t, &o);
    })
}

/// shape of a stack of matrices whose inner extents are n x n, in the device's convention
fn tri_shape(ctx: &Ctx, n: usize) -> (Vec<usize>, Vec<usize>) {
    let budget = (gen_target(THR) / (n * n).max(1)).min(2000);
    let rest = match below(3) {
        0 => vec![],
        1 => vec![budget.max(1)],
        _ => {
            let a = logrange(1, budget.max(1));
            vec![a, (budget / a).max(1)]
        },
    };
    let _ = ctx;
    let rest = if coin(1, 30) { vec![0] } else { rest };
    (rest, vec![n, n])
}
fn cat(ctx: &Ctx, rest: &[usize], inner: &[usize]) -> Vec<usize> {
    if ctx.col { [inner, rest].concat() } else { [rest, inner].concat() }
}
fn gen_n() -> usize {
    match weighted(&[3, 3, 2]) {
        0 => range(0, 4),
        1 => logrange(1, 24),
        _ => logrange(8, 130),
    }
}
/// packed position of element (i, j), i and j as the user sees the matrix
fn tri_pairs(n: usize, lower: bool, col: bool) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for a in 0..n {
        for b in 0..n {
            // row-major: rows in order; column-major: columns in order
            let (i, j) = if col { (b, a) } else { (a, b) };
            if if lower { i >= j } else { i <= j } {
                v.push((i, j));
            }
        }
    }
    v
}
fn case_pack<T: Elem + Default>(ctx: &Ctx) -> Case {
    let n = gen_n();
    let (rest, inner) = tri_shape(ctx, n);
    let shape = cat(ctx, &rest, &inner);
    let o = operand::<T>(&shape);
    let lower = coin(1, 2);
    desc!("pack_tri of {} {} {}", T::NAME, show_spec(&o.spec), if lower { "lower" } else { "upper" });
    let ctx = ctx.clone();
    Box::new(move || {
        let t = mk(&o, &ctx.dev);
        let r = ctx.enter(|| must_f("pack_tri", || t.pack_tri_f(if lower { FlagUpLo::L } else { FlagUpLo::U })));
        if let Some(r) = r {
            let keys = o.logical();
            let pairs = tri_pairs(n, lower, ctx.col);
            let osh = cat(&ctx, &rest, &[pairs.len()]);
            let w: Vec<i64> = (0..numel(&osh))
                .map(|q| {
                    let ix = unravel(q, &osh);
                    let (r, p) = if ctx.col { (ix[1..].to_vec(), ix[0]) } else { (ix[..ix.len() - 1].to_vec(), ix[ix.len() - 1]) };
                    let (i, j) = pairs[p];
                    keys[ravel(&cat(&ctx, &r, &[i, j]), &shape)]
                })
                .collect();
            expect_tensor("pack_tri", &r, &osh, &arr::<T>(&w));
        }
        unchanged(&t, &o);
    })
}
fn case_unpack<T: Elem + ComplexFloat>(ctx: &Ctx) -> Case {
    let n = gen_n();
    let (rest, _) = tri_shape(ctx, n);
    let shape = cat(ctx, &rest, &[n * (n + 1) / 2]);
    let o = operand::<T>(&shape);
    let lower = coin(1, 2);
    let symm = below(5);
    let flag = [FlagSymm::Sy, FlagSymm::He, FlagSymm::Ay, FlagSymm::Ah, FlagSymm::N][symm];
    desc!("unpack_tri of {} {} {} {flag:?}", T::NAME, show_spec(&o.spec), if lower { "lower" } else { "upper" });
    let ctx = ctx.clone();
    Box::new(move || {
        let t = mk(&o, &ctx.dev);
        let r = ctx.enter(|| must_f("unpack_tri", || t.unpack_tri_f(if lower { FlagUpLo::L } else { FlagUpLo::U }, flag)));
        if let Some(r) = r {
            let x: Vec<T> = arr(&o.logical());
            let pairs = tri_pairs(n, lower, ctx.col);
            let mut at = vec![usize::MAX; n * n];
            for (p, &(i, j)) in pairs.iter().enumerate() {
                at[i * n + j] = p;
            }
            let osh = cat(&ctx, &rest, &[n, n]);
            let l = r.layout();
            if l.shape() != &osh {
                fail!("wrong-shape", "unpack_tri: shape {:?}, expected {osh:?}", l.shape());
                return;
            }
            let mut bad = None;
            let ok = with_refs(&r, &mut |sh, q, v| {
                if bad.is_some() {
                    return;
                }
                let ix = unravel(q, sh);
                let nd = ix.len();
                let (rx, i, j) = if ctx.col { (ix[2..].to_vec(), ix[0], ix[1]) } else { (ix[..nd - 2].to_vec(), ix[nd - 2], ix[nd - 1]) };
                let get = |p: usize| x[ravel(&cat(&ctx, &rx, &[p]), &shape)];
                let p = at[i * n + j];
                let want = if p != usize::MAX {
                    if i == j && (symm == 2 || symm == 3) { T::zero() } else { get(p) }
                } else {
                    let y = get(at[j * n + i]);
                    match symm {
                        0 => y,
                        1 => y.conj(),
                        2 => -y,
                        3 => -y.conj(),
                        _ => return, // not defined by the operation
                    }
                };
                // a Hermitian matrix has a real diagonal: for packed values that do not, either conjugate will do
                if !v.same(&want) && !(symm == 1 && i == j && v.same(&want.conj())) {
                    bad = Some(format!("index {ix:?} is {}, expected {}", v.show(), want.show()));
                }
            });
            if !ok {
                fail!("layout-out-of-buffer", "unpack_tri: result layout leaves its buffer");
            }
            if let Some(b) = bad {
                fail!("wrong-value", "unpack_tri: {b}");
            }
        }
        unchanged(&t, &o);
    })
}
fn case_tri<T: Elem + num::Num>(ctx: &Ctx) -> Case {
    let mut shape = gen_big_shape(&[1024, 4096, 16384], 4);
    while shape.len() < 2 {
        shape.push(range(1, 40));
    }
    let nd = shape.len();
    // the inner matrix: last two axes (row-major convention) whatever the device
    let (r, c) = (shape[nd - 2], shape[nd - 1]);
    let k = below(r + c + 4) as isize - r as isize - 2;
    let lower = coin(1, 2);
    let how = below(3);
    let o = if how == 0 { operand::<T>(&shape) } else { Opnd::gen(no_bcast(&shape), Vals::Distinct) };
    let name = if lower { "tril" } else { "triu" };
    desc!("{name} of {} {} k={k} {}", T::NAME, show_spec(&o.spec), ["by reference", "in place", "by value"][how]);
    let ctx = ctx.clone();
    Box::new(move || {
        let mut t = mk(&o, &ctx.dev);
        let w: Vec<i64> = o
            .logical()
            .into_iter()
            .enumerate()
            .map(|(q, v)| {
                let ix = unravel(q, &shape);
                let (i, j) = (ix[nd - 2] as isize, ix[nd - 1] as isize);
                let keep = if lower { j - i <= k } else { j - i >= k };
                if keep { v } else { 0 }
            })
            .collect();
        match how {
            0 => {
                if let Some(x) = ctx.enter(|| must_f(name, || if lower { rt::tril_f((&t, k)) } else { rt::triu_f((&t, k)) })) {
                    expect_tensor(name, &x, &shape, &arr::<T>(&w));
                }
                unchanged(&t, &o);
            },
            1 => {
                let ok = ctx.enter(|| must_f(name, || if lower { rt::tril_f((t.view_mut(), k)).map(|_| ()) } else { rt::triu_f((t.view_mut(), k)).map(|_| ()) }));
                if ok.is_some() {
                    expect_inplace(name, t.raw(), &o, &w);
                }
            },
            _ => {
                if let Some(x) = ctx.enter(|| must_f(name, || if lower { rt::tril_f((t, k)) } else { rt::triu_f((t, k)) })) {
                    expect_tensor(name, &x, &shape, &arr::<T>(&w));
                }
            },
        }
    })
}
fn case_diag<T: Elem + Default>(ctx: &Ctx) -> Case {
    let one = coin(1, 2);
    let shape = if one { vec![pick(&[0usize, 1, 5, 40, 150])] } else { vec![logrange(1, 300), logrange(1, 300)] };
    let o = operand::<T>(&shape);
    let lim = if one { 6 } else { shape[0] + shape[1] };
    let k = below(2 * lim + 1) as isize - lim as isize;
    desc!("diag of {} {} offset {k}", T::NAME, show_spec(&o.spec));
    let ctx = ctx.clone();
    Box::new(move || {
        let t = mk(&o, &ctx.dev);
        let keys = o.logical();
        let zero = 0i64;
        let valid = one || (k < shape[1] as isize && k > -(shape[0] as isize));
        let r = ctx.enter(|| {
            if valid {
                must_f("diag", || rt::diag_f((&t, k)))
            } else {
                // no such diagonal: NumPy gives an empty result; an error is accepted too
                call(|| rt::diag_f((&t, k))).ok().and_then(|r| r.ok()).filter(|r| r.size() > 0)
            }
        });
        if let Some(r) = r {
            if !valid {
                fail!("wrong-shape", "diag: offset {k} of {shape:?} gave {} elements", r.size());
            } else if one {
                let n = shape[0] + k.unsigned_abs();
                let mut w = vec![zero; n * n];
                for i in 0..shape[0] {
                    let (r, c) = if k >= 0 { (i, i + k as usize) } else { (i + k.unsigned_abs(), i) };
                    w[r * n + c] = keys[i];
                }
                expect_tensor("diag", &r, &[n, n], &arr::<T>(&w));
            } else {
                let w: Vec<i64> = (0..shape[0])
                    .filter_map(|i| {
                        let j = i as isize + k;
                        (j >= 0 && j < shape[1] as isize).then(|| keys[i * shape[1] + j as usize])
                    })
                    .collect();
                expect_tensor("diag", &r, &[w.len()], &arr::<T>(&w));
            }
        }
        unchanged(&t, &o);
    })
}
fn case_meshgrid<T: Elem>(ctx: &Ctx) -> Case {
    let k = pick(&[2usize, 3, 1, 4, 0]);
    let total = gen_target(THR) as f64;
    let per = if k > 0 { total.powf(1.0 / k as f64) as usize } else { 1 };
    let ops: Vec<Opnd<T>> = (0..k).map(|_| operand::<T>(&[if coin(1, 20) { 0 } else { logrange(1, (2 * per).max(2)) }])).collect();
    let xy = coin(1, 2);
    let copy = coin(2, 3);
    desc!("meshgrid of {} {:?} {} copy {copy}", T::NAME, ops.iter().map(|o| o.spec.shape[0]).collect::<Vec<_>>(), if xy { "xy" } else { "ij" });
    let ctx = ctx.clone();
    Box::new(move || {
        let ts: Vec<Tsr<T>> = ops.iter().map(|o| mk(o, &ctx.dev)).collect();
        let refs: Vec<&Tsr<T>> = ts.iter().collect();
        let r = ctx.enter(|| must_f("meshgrid", || rt::meshgrid_f((refs, if xy { "xy" } else { "ij" }, copy))));
        if let Some(r) = r {
            if r.len() != k {
                fail!("wrong-shape", "meshgrid: {} results, expected {k}", r.len());
                return;
            }
            // axis of input q in the output
            let ax = |q: usize| if xy && k > 1 && q < 2 { 1 - q } else { q };
            let mut osh = vec![0; k];
            for q in 0..k {
                osh[ax(q)] = ops[q].spec.shape[0];
            }
            for (q, g) in r.iter().enumerate() {
                let keys = ops[q].logical();
                let w: Vec<i64> = (0..numel(&osh)).map(|i| keys[unravel(i, &osh)[ax(q)]]).collect();
                expect_tensor("meshgrid", g, &osh, &arr::<T>(&w));
            }
        }
        for (t, o) in ts.iter().zip(&ops) {
            unchanged(t, o);
        }
    })
}
fn case_orderchange(ctx: &Ctx) -> Case {
    let (r, c) = match weighted(&[2, 3]) {
        0 => (logrange(1, 200), logrange(1, 200)),
        _ => {
            let r = logrange(20, 2000);
            (r, (65536 / r).max(1) + logrange(0, 40))
        },
    };
    let (pa, pc) = (pick(&[0usize, 0, 1, 5]), pick(&[0usize, 0, 1, 5]));
    let (oa, oc) = (pick(&[0usize, 0, 3]), pick(&[0usize, 0, 3]));
    let r2c = coin(1, 2);
    let seed = seed32();
    desc!("orderchange {} {r}x{c} paddings {pa},{pc} offsets {oa},{oc}", if r2c { "r2c" } else { "c2r" });
    let ctx = ctx.clone();
    Box::new(move || {
        // for r2c: a has rows contiguous, c has columns contiguous
        let (sa, la_len) = if r2c { ([(c + pa) as isize, 1], (c + pa) * r) } else { ([1, (r + pa) as isize], (r + pa) * c) };
        let (sc, lc_len) = if r2c { ([1, (r + pc) as isize], (r + pc) * c) } else { ([(c + pc) as isize, 1], (c + pc) * r) };
        let a: Vec<Y> = (0..la_len + oa).map(|i| Y(val(Vals::Distinct, seed, i))).collect();
        let mut b: Vec<Y> = vec![Y(-7); lc_len + oc];
        let la: Layout<Ix2> = Layout::new([r, c], sa, oa).unwrap();
        let lc: Layout<Ix2> = Layout::new([r, c], sc, oc).unwrap();
        let ok = ctx.enter(|| {
            must_f("orderchange", || {
                let pool = if ctx.mode == Mode::Plain { Some(ctx.dev.get_pool()) } else { ctx.dev.get_current_pool() };
                if r2c {
                    rstsr_native_impl::prelude_dev::orderchange_out_r2c_ix2_cpu_rayon(&mut b, &lc, &a, &la, pool)
                } else {
                    rstsr_native_impl::prelude_dev::orderchange_out_c2r_ix2_cpu_rayon(&mut b, &lc, &a, &la, pool)
                }
            })
        });
        if ok.is_some() {
            simcore::quiet(|| {
                let mut w = vec![-7i64; b.len()];
                for i in 0..r {
                    for j in 0..c {
                        let s = (oa as isize + sa[0] * i as isize + sa[1] * j as isize) as usize;
                        let d = (oc as isize + sc[0] * i as isize + sc[1] * j as isize) as usize;
                        w[d] = a[s].0;
                    }
                }
                if let Some(i) = (0..w.len()).find(|&i| w[i] != b[i].0) {
                    fail!("wrong-value", "orderchange: buffer position {i} is {}, expected {}", b[i].0, w[i]);
                }
            });
        }
    })
}

trait Seq: Elem + Copy + PartialOrd {
    fn of(v: f64) -> Self;
    fn f(self) -> f64;
    const INT: bool;
    const SIGNED: bool;
    const EPS: f64;
}
macro_rules! seq {
    ($($t:ty, $i:expr, $s:expr, $e:expr);*) => {$(impl Seq for $t {
        fn of(v: f64) -> Self { v as $t }
        fn f(self) -> f64 { self as f64 }
        const INT: bool = $i;
        const SIGNED: bool = $s;
        const EPS: f64 = $e;
    })*};
}
seq!(f64, false, true, 1e-15; f32, false, true, 1e-6; i64, true, true, 0.0; i32, true, true, 0.0; isize, true, true, 0.0; usize, true, false, 0.0; u32, true, false, 0.0; u64, true, false, 0.0; i16, true, true, 0.0; u8, true, false, 0.0);

fn case_arange<T: Seq + std::ops::Add<Output = T> + num::Zero + num::One>(ctx: &Ctx) -> Case {
    let small = std::mem::size_of::<T>() < 4;
    let n = if small { range(0, 100) } else { pick(&[0usize, 1, 2, 5, 31, 1000, 5000]) + below(4) };
    let down = T::SIGNED && coin(1, 3);
    let mut step = if T::INT { range(1, if small { 1 } else { 6 }) as f64 } else { pick(&[1.0f64, 0.5, 0.25, 0.1, 3.0, 0.3]) };
    if down {
        step = -step;
    }
    let start = if T::INT { range(0, 20) as f64 } else { pick(&[0.0f64, -1.5, 2.25, 0.1]) };
    let start = if small && down { 100.0 } else { start };
    // the end: in the middle of a step, or exactly on one
    let exact = coin(1, 2);
    let end = start + step * (n as f64 - if exact { 0.0 } else if T::INT { 0.0 } else { 0.5 });
    let end = if T::INT && !exact && step.abs() > 1.0 { end - step.signum() } else { end };
    let end = if end < 0.0 && !T::SIGNED { start } else { end };
    // an end on the wrong side gives an empty result
    let wrong = coin(1, 12) && T::SIGNED;
    let end = if wrong { start - step } else { end };
    let (s, e, d) = (T::of(start), T::of(end), T::of(step));
    let form = if down || step != 1.0 { 0 } else { below(3) };
    desc!("arange({start}, {end}, {step}) as {} form {form}", T::NAME);
    let ctx = ctx.clone();
    Box::new(move || {
        let r = ctx.enter(|| {
            must_f("arange", || match form {
                0 => rt::arange_f((s, e, d, &ctx.dev)),
                1 => rt::arange_f((s, e, &ctx.dev)),
                _ => rt::arange_f((e, &ctx.dev)),
            })
        });
        let s = if form == 2 { T::of(0.0) } else { s };
        if let Some(r) = r {
            let (sf, ef, df) = (s.f(), e.f(), d.f());
            let x = (ef - sf) / df;
            let Some((sh, v)) = read(&r) else {
                fail!("layout-out-of-buffer", "arange");
                return;
            };
            let got = v.len();
            let (lo, hi) = if T::INT {
                let c = x.max(0.0).ceil() as usize;
                (c, c)
            } else {
                // rounding may include or exclude a value sitting on the end
                let tol = 1e-5 * (1.0 + x.abs());
                ((x - tol).max(0.0).ceil() as usize, (x + tol).max(0.0).ceil() as usize)
            };
            if sh.len() != 1 || got < lo || got > hi {
                fail!("wrong-shape", "arange: shape {sh:?}, expected [{lo}..={hi}]");
                return;
            }
            for (i, v) in v.iter().enumerate() {
                let w = sf + i as f64 * df;
                if (v.f() - w).abs() > 4.0 * T::EPS * (w.abs() + i as f64 * df.abs() + 1.0) {
                    fail!("wrong-value", "arange: element {i} is {}, expected {w}", v.f());
                    return;
                }
                if (df > 0.0 && v.f() >= ef) || (df < 0.0 && v.f() <= ef) {
                    fail!("wrong-value", "arange: element {i} is {} which is not before the end {ef}", v.f());
                    return;
                }
            }
        }
    })
}
fn case_linspace(ctx: &Ctx) -> Case {
    let kind = below(3);
    let n = pick(&[0usize, 1, 2, 3, 10, 100, 4097]) + below(3);
    let endpoint = coin(1, 2);
    let (a, b) = (pick(&[0.0f64, -3.5, 1e3]), pick(&[1.0f64, 0.0, -7.25, 1e3]));
    let short = coin(1, 4);
    desc!("linspace({a}, {b}, {n}, endpoint {endpoint}) {}", ["f64", "f32", "c64"][kind]);
    let ctx = ctx.clone();
    Box::new(move || {
        let endpoint = endpoint || short;
        let step = |i: usize, a: f64, b: f64| {
            let d = if endpoint { n.saturating_sub(1) } else { n };
            if d == 0 { a } else { a + (b - a) * i as f64 / d as f64 }
        };
        let v: Option<Vec<(f64, f64)>> = ctx.enter(|| match kind {
            0 => must_f("linspace", || if short { rt::linspace_f((a, b, n, &ctx.dev)) } else { rt::linspace_f((a, b, n, endpoint, &ctx.dev)) }).map(|t| t.raw().iter().map(|&x| (x, 0.0)).collect()),
            1 => must_f("linspace", || rt::linspace_f((a as f32, b as f32, n, endpoint, &ctx.dev))).map(|t| t.raw().iter().map(|&x| (x as f64, 0.0)).collect()),
            _ => must_f("linspace", || rt::linspace_f((Complex::new(a, b), Complex::new(b, a + 1.0), n, endpoint, &ctx.dev))).map(|t| t.raw().iter().map(|x| (x.re, x.im)).collect()),
        });
        if let Some(v) = v {
            if v.len() != n {
                fail!("wrong-shape", "linspace: {} elements, expected {n}", v.len());
                return;
            }
            let tol = (1.0 + a.abs() + b.abs()) * if kind == 1 { 1e-5 } else { 1e-13 };
            for (i, x) in v.iter().enumerate() {
                let w = if kind == 2 { (step(i, a, b), step(i, b, a + 1.0)) } else { (step(i, a, b), 0.0) };
                if (x.0 - w.0).abs() > tol || (x.1 - w.1).abs() > tol {
                    fail!("wrong-value", "linspace: element {i} is {x:?}, expected {w:?}");
                    return;
                }
            }
        }
    })
}
fn case_create(ctx: &Ctx) -> Case {
    let kind = below(4);
    if kind == 0 {
        let (r, c) = (logrange(1, 200), logrange(1, 200));
        let k = below(r + c + 1) as isize - r as isize;
        // only diagonals that exist
        let k = k.clamp(1 - r as isize, c as isize - 1);
        let form = below(3);
        let f = coin(1, 2);
        desc!("eye({r}, {c}, {k}) form {form} order {}", if f { "F" } else { "C" });
        let ctx = ctx.clone();
        return Box::new(move || {
            let (r, c, k) = if form == 0 { (r, r, 0) } else { (r, c, k) };
            let t: Option<Tsr<i64>> = ctx.enter(|| {
                must_f("eye", || match form {
                    0 => rt::eye_f((r, &ctx.dev)),
                    1 => rt::eye_f((r, c, k, &ctx.dev)),
                    _ => rt::eye_f((r, c, k, ord(f), &ctx.dev)),
                })
            });
            if let Some(t) = t {
                let w: Vec<i64> = (0..r * c).map(|q| ((q % c) as isize - (q / c) as isize == k) as i64).collect();
                expect_tensor("eye", &t, &[r, c], &w);
            }
        });
    }
    let shape = gen_big_shape(THR, 4);
    let spec = no_bcast(&shape);
    let o = Opnd::<i64>::gen(gen_spec(&shape, true), Vals::Small(9));
    let v = below(100) as i64;
    let form = below(3);
    desc!("{} shape {shape:?} form {form} layout {}", ["eye", "full", "zeros", "ones"][kind], show_spec(&spec));
    let ctx = ctx.clone();
    Box::new(move || {
        let t = mk(&o, &ctx.dev);
        let r: Option<Tsr<i64>> = ctx.enter(|| {
            must_f("creation", || match (kind, form) {
                (1, 0) => rt::full_f((shape.clone(), v, &ctx.dev)),
                (1, 1) => rt::full_f((spec.layout(), v, &ctx.dev)),
                (1, _) => rt::full_like_f((&t, v)),
                (2, 0) => rt::zeros_f((shape.clone(), &ctx.dev)),
                (2, 1) => rt::zeros_f((spec.layout(), &ctx.dev)),
                (2, _) => rt::zeros_like_f(&t),
                (_, 0) => rt::ones_f((shape.clone(), &ctx.dev)),
                (_, 1) => rt::ones_f((spec.layout(), &ctx.dev)),
                (_, _) => rt::ones_like_f(&t),
            })
        });
        if let Some(r) = r {
            let w = [0, v, 0, 1][kind];
            expect_tensor("creation", &r, &shape, &vec![w; numel(&shape)]);
        }
    })
}

pub fn run() {
    let ctx = Ctx::gen(true);
    let kind = weighted(&[5, 2, 1, 1, 3, 2, 3, 2, 3, 1, 2, 1, 2, 1, 1, 1, 1, 1, 1, 1, 1]);
    let gens: [&dyn Fn(&Ctx) -> Case; 21] = [
        &case_layout::<Y>,
        &case_layout::<Tk>,
        &case_layout::<u8>,
        &case_layout::<Complex<f64>>,
        &case_join::<Y>,
        &case_join::<i32>,
        &case_select::<Y>,
        &case_select::<Tk>,
        &case_pack::<Y>,
        &case_pack::<Tk>,
        &case_unpack::<f64>,
        &case_unpack::<f32>,
        &case_unpack::<Complex<f64>>,
        &case_tri::<i64>,
        &case_tri::<f32>,
        &case_diag::<Y>,
        &case_meshgrid::<Y>,
        &case_orderchange,
        &|c| match below(10) {
            0 => case_arange::<f64>(c),
            1 => case_arange::<f32>(c),
            2 => case_arange::<i64>(c),
            3 => case_arange::<i32>(c),
            4 => case_arange::<usize>(c),
            5 => case_arange::<u32>(c),
            6 => case_arange::<u64>(c),
            7 => case_arange::<i16>(c),
            8 => case_arange::<u8>(c),
            _ => case_arange::<isize>(c),
        },
        &case_linspace,
        &case_create,
    ];
    run_cases(&ctx, gens[kind]);
}
