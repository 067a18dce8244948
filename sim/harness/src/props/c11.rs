//! C11: thread configuration. The same operations from every calling position, while clones of the device are
//! reconfigured and thread creation fails.
use super::suite::{self, Body, Guard};
use super::util::*;
use crate::fw::*;
use rayon_core::{sim_jobs, sim_pool_id};
use rstsr_core::prelude::*;
use simcore::{FaultPlan, F_PANIC, F_SPAWN};
use std::rc::Rc;

fn quiet_guard(ctx: &Ctx) -> Guard {
    Guard::new(ctx, F_PANIC, 0, 0)
}
fn ctx_of(dev: Dev, nt: usize, col: bool) -> Ctx {
    Ctx { dev, nt, mode: Mode::Plain, col, other: simcore::race::untracked(|| Rc::new(None)) }
}
fn state(dev: &Dev) -> (usize, usize) {
    (dev.get_num_threads(), sim_pool_id(dev.get_pool()))
}
struct Send1<T>(T);
unsafe impl<T> Send for Send1<T> {}
unsafe impl<T> Sync for Send1<T> {}
impl<T> Send1<T> {
    fn get(&self) -> &T {
        &self.0
    }
}

/// run the bodies from a calling position
fn position(how: usize, ctx: &Ctx, other: &rayon::ThreadPool, bodies: &[Body]) {
    use rayon::prelude::*;
    let g = Send1((ctx, bodies, other));
    let g = &g;
    let run = |i: usize| {
        let (c, b, _) = g.get();
        b[i % b.len()](&quiet_guard(c))
    };
    let run = Send1(run);
    let run = &run;
    match how {
        0 => (0..bodies.len()).for_each(|i| (run.get())(i)),
        1 => ctx.dev.get_pool().install(|| (0..g.get().1.len()).for_each(|i| (run.get())(i))),
        2 => other.install(|| (0..g.get().1.len()).for_each(|i| (run.get())(i))),
        3 => ctx.dev.get_pool().install(|| {
            rayon::join(|| (run.get())(0), || (run.get())(1));
        }),
        4 => other.install(|| {
            rayon::join(|| (run.get())(0), || (run.get())(1));
        }),
        5 => ctx.dev.get_pool().scope(|s| {
            for i in 0..3 {
                s.spawn(move |_| (run.get())(i));
            }
        }),
        6 => {
            rayon::join(|| (run.get())(0), || (run.get())(1));
        },
        7 => ctx.dev.get_pool().install(|| (0..4usize).into_par_iter().for_each(|i| (run.get())(i))),
        8 => other.install(|| {
            let (c, _, _) = g.get();
            c.dev.get_pool().install(|| {
                let (_, _, o) = g.get();
                o.install(|| (run.get())(0))
            })
        }),
        _ => other.install(|| {
            rayon::join(
                || {
                    let (c, _, _) = g.get();
                    c.dev.get_pool().install(|| (run.get())(0))
                },
                || (run.get())(1),
            );
        }),
    }
}
const POS: [&str; 10] = [
    "plain",
    "device pool",
    "other pool",
    "join in the device pool",
    "join in another pool",
    "scope of the device pool",
    "join in the global pool",
    "parallel iterator in the device pool",
    "other pool inside device pool inside other pool",
    "join of device pool and own pool inside another pool",
];

fn check_state(what: &str, dev: &Dev, want: (usize, usize)) {
    let s = state(dev);
    if s.0 != want.0 {
        fail!("thread-count", "{what}: the device reports {} threads, configured with {}", s.0, want.0);
    }
    if s.1 != want.1 {
        fail!("pool-replaced", "{what}: the device handle works on another pool although only other handles were reconfigured");
    }
}
fn new_dev(n: usize, col: bool) -> Dev {
    let d = gen_dev(n, col);
    let want = if n == 0 { rayon::current_num_threads() } else { n };
    if d.get_num_threads() != want {
        fail!("thread-count", "a device made for {n} threads reports {}, expected {want}", d.get_num_threads());
    }
    if d.get_pool().current_num_threads() != want {
        fail!("thread-count", "the pool of a device made for {n} threads has {} threads, expected {want}", d.get_pool().current_num_threads());
    }
    d
}

/// handles are cloned, reconfigured and dropped; others must not notice
fn reconfigure(dev: &Dev, nt: usize, col: bool, steps: Vec<(usize, usize)>, bodies: Vec<Body>) {
    let st = state(dev);
    let mut mine: Vec<(Dev, usize)> = vec![(dev.clone(), nt)];
    let mut bodies = bodies.into_iter();
    for (a, n) in steps {
        if failed() {
            return;
        }
        let k = n % mine.len();
        match a {
            0 => {
                let (d, m) = &mut mine[k];
                let n = n % 9;
                d.set_num_threads(n);
                // 0 means the default of the place where it is set
                *m = if n == 0 { d.get_pool().current_num_threads() } else { n };
                if n == 0 && *m != rayon::current_num_threads() {
                    fail!("thread-count", "a device set to the default number of threads has {m} threads, the default is {}", rayon::current_num_threads());
                }
                if d.get_num_threads() != *m || d.get_pool().current_num_threads() != *m {
                    fail!(
                        "thread-count",
                        "a device set to {n} threads reports {} threads and its pool has {}",
                        d.get_num_threads(),
                        d.get_pool().current_num_threads()
                    );
                }
            },
            1 => {
                let (d, m) = &mine[k];
                let c = (d.clone(), *m);
                mine.push(c);
            },
            2 => {
                if mine.len() > 1 {
                    mine.remove(k);
                }
            },
            3 => {
                let (d, m) = &mine[k];
                if let Some(b) = bodies.next() {
                    b(&quiet_guard(&ctx_of(d.clone(), *m, col)));
                }
            },
            _ => {
                let m = mine[k].1;
                mine[k].0.set_num_threads(m)
            },
        }
        for (d, m) in &mine {
            if d.get_num_threads() != *m {
                fail!("thread-count", "a device configured with {m} threads reports {} after another handle was reconfigured", d.get_num_threads());
            }
        }
        check_state("after reconfiguring clones", dev, st);
    }
}

fn concurrent() {
    let col = coin(1, 4);
    let nt = gen_nt();
    let dev = new_dev(nt, col);
    let ctx = ctx_of(dev.clone(), nt, col);
    let st = state(&dev);
    let k = pick(&[2usize, 1, 3, 4]);
    desc!("device: {nt} threads, {}-major", if col { "column" } else { "row" });
    let mut hs: Vec<Box<dyn FnOnce()>> = vec![];
    for _ in 0..k {
        let how = weighted(&[3, 2, 2, 2, 2, 2, 1, 2, 2, 2]);
        let n = if how == 0 { range(1, 3) } else { 2 };
        desc!("thread in position: {}", POS[how]);
        let own = coin(1, 3);
        let c = if own {
            let m = gen_nt();
            desc!("with its own device of {m} threads");
            ctx_of(new_dev(m, col), m, col)
        } else {
            ctx_of(dev.clone(), nt, col)
        };
        let other = simcore::race::untracked(|| Rc::new(rayon::ThreadPoolBuilder::new().num_threads(range(1, 4)).build().unwrap()));
        let bodies: Vec<Body> = (0..n).map(|_| suite::any_body(&ctx)).collect();
        hs.push(Box::new(move || position(how, &c, &other, &bodies)));
    }
    if coin(2, 3) {
        let steps: Vec<(usize, usize)> = (0..range(2, 8)).map(|_| (weighted(&[5, 3, 2, 3, 1]), below(1 << 16))).collect();
        let bodies: Vec<Body> = (0..4).map(|_| suite::any_body(&ctx)).collect();
        desc!("one thread reconfigures clones: {steps:?}");
        let d = dev.clone();
        hs.push(Box::new(move || reconfigure(&d, nt, col, steps, bodies)));
    }
    drop(ctx);
    let hs: Vec<_> = hs.into_iter().map(|f| simcore::thread_spawn(move || f())).collect();
    for h in hs {
        if h.join().is_err() {
            fail!("escaped", "panic escaped a case: {}", simcore::sim().last_panic);
        }
    }
    check_state("after concurrent use", &dev, st);
}

/// one operation at a time from a plain thread: only workers of the device's pool may execute work for it
fn exclusive() {
    let col = coin(1, 4);
    let nt = pick(&[2usize, 3, 1, 5, 8, 0]);
    let n0 = if nt == 0 { rayon::current_num_threads() } else { nt };
    let dev = new_dev(nt, col);
    desc!("device: {nt} threads, {}-major, operations one at a time from a plain thread", if col { "column" } else { "row" });
    // another device and pool whose workers have nothing to do with it
    let _idle = (new_dev(2, col), rayon::ThreadPoolBuilder::new().num_threads(2).build().unwrap());
    let ctx = ctx_of(dev.clone(), n0, col);
    let own = sim_pool_id(dev.get_pool());
    for _ in 0..range(1, 3) {
        let b = suite::any_body(&ctx);
        let (j0, r0) = (sim_jobs(), rayon_core::sim_registries());
        b(&quiet_guard(&ctx));
        if failed() {
            return;
        }
        let (j1, r1) = (sim_jobs(), rayon_core::sim_registries());
        for i in 0..j0.len() {
            if i != own && j1[i] > j0[i] {
                let what = if i == rayon_core::sim_global_id() { "the global pool" } else { "a pool other than the device's" };
                fail!("foreign-workers", "{} pieces of work ran on workers of {what}", j1[i] - j0[i]);
                return;
            }
        }
        if j1[own] > j0[own] {
            probe("work on the device's workers");
        }
        if r1 > r0 {
            probe("pools created by an operation");
        }
    }
}

/// thread creation fails
fn spawn_fails() {
    let col = coin(1, 4);
    let nt = gen_nt();
    let mut dev = new_dev(nt, col);
    let keep = dev.clone();
    let st = state(&dev);
    let n = pick(&[1usize, 2, 3, 4, 6, 8]);
    let at = range(1, 8) as u64;
    let how = below(2);
    desc!("device: {nt} threads; {} with {n} threads, creation of thread {at} fails", ["set_num_threads", "new device"][how]);
    simcore::sim().faults[F_SPAWN] = FaultPlan { at, burst: pick(&[0u64, 1, 100]), hits: 0, fired: 0, armed: true, scoped: false };
    let r = call(|| {
        if how == 0 {
            dev.set_num_threads(n);
            None
        } else {
            Some(Dev::new(n))
        }
    });
    simcore::sim().faults[F_SPAWN].armed = false;
    let fired = simcore::sim().faults[F_SPAWN].fired > 0;
    let mut cur = st;
    match r {
        Ok(d) => {
            if fired {
                fail!("spawn-failure-swallowed", "creating a worker thread failed and no panic or error told the caller");
                return;
            }
            match d {
                Some(d) => {
                    if d.get_num_threads() != n {
                        fail!("thread-count", "a device made for {n} threads reports {}", d.get_num_threads());
                    }
                },
                None => cur = (n, state(&dev).1),
            }
            probe("creation not affected");
        },
        Err(e) => {
            if !fired {
                fail!("unexpected-failure", "nothing was injected, but: {e}");
                return;
            }
            probe("thread creation failed");
        },
    }
    check_state("after failed thread creation", &keep, st);
    check_state("after failed thread creation", &dev, cur);
    if failed() {
        return;
    }
    // usable, and reconfigurable
    let ctx = ctx_of(dev.clone(), cur.0, col);
    suite::any_body(&ctx)(&quiet_guard(&ctx));
    let m = gen_nt();
    dev.set_num_threads(m);
    if dev.get_num_threads() != m || dev.get_pool().current_num_threads() != m {
        fail!("thread-count", "a device set to {m} threads reports {} threads, its pool has {}", dev.get_num_threads(), dev.get_pool().current_num_threads());
    }
    let ctx = ctx_of(dev, m, col);
    suite::any_body(&ctx)(&quiet_guard(&ctx));
}
/// operations called by the element functions of other operations
fn nested() {
    let ctx = Ctx::gen(true);
    let n = pick(&[5usize, 40, 300, 4200]);
    let inner_n = logrange(1, 5000);
    let every = (n / 6).max(1);
    let oi = Opnd::<Y>::gen(gen_spec(&[inner_n], true), Vals::Small(20));
    let other_dev = new_dev(gen_nt(), ctx.col);
    desc!("map over {n} elements calling operations on {inner_n} elements, inner device {} threads", other_dev.get_num_threads());
    let same = coin(1, 2);
    let d2 = if same { ctx.dev.clone() } else { other_dev };
    let b: Tsr<Y> = mk(&oi, &d2);
    let want_sum: i64 = oi.logical().iter().sum();
    let a: Tsr<Y> = rt::asarray(((0..n as i64).map(Y).collect::<Vec<_>>(), vec![n].c(), &ctx.dev));
    let f = |v: &Y| -> Y {
        site();
        if v.0 as usize % every == 0 {
            let s: Y = rt::sum_all(&b);
            let c: Tsr<Y> = rt::add(&b, Y(1));
            let s2: Y = rt::sum_all(&c);
            if s.0 != want_sum || s2.0 != want_sum + inner_n as i64 {
                fail!("wrong-value", "nested sums are {} and {}, expected {want_sum} and {}", s.0, s2.0, want_sum + inner_n as i64);
            }
            return Y(v.0 + s.0);
        }
        Y(v.0)
    };
    let f = Send1(f);
    let f = &f;
    let want: Vec<Y> = (0..n as i64).map(|v| if v as usize % every == 0 { Y(v + want_sum) } else { Y(v) }).collect();
    if let Some(c) = ctx.enter(|| must_f("map calling other operations", || a.map_f(|v: &Y| (f.get())(v)))) {
        expect_tensor("map calling other operations", &c, &[n], &want);
    }
    oi.unchanged(b.raw(), "operand of the inner operations");
}
pub fn run() {
    match weighted(&[5, 4, 2, 2]) {
        0 => concurrent(),
        1 => exclusive(),
        2 => spawn_fails(),
        _ => nested(),
    }
}
