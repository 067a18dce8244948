//! C13: formatting into sinks that fail.
use super::util::*;
use crate::fw::*;
use rstsr_common::prelude::{Ix2, Ix3};
use rstsr_core::format::format_tensor::{MAX_PRINT, MIN_PRINT};
use rstsr_core::prelude::*;
use std::fmt::{self, Debug, Display, LowerExp, UpperExp, Write as _};
use std::sync::atomic::Ordering;
use std::sync::Arc;

/// element whose formatting is a sequence of scheduling points, writes in pieces, and can fail by itself
#[derive(Clone, Copy, PartialEq)]
pub struct P(i64);
/// the value whose formatting fails
const BROKEN: i64 = 424_242;
static mut BROKEN_FAILS: bool = true;
impl Elem for P {
    const NAME: &'static str = "P";
    fn mk(h: u64) -> P {
        P(h as i64)
    }
    fn key(&self) -> (u64, u64) {
        (self.0 as u64, 0)
    }
    fn show(&self) -> String {
        format!("{}", self.0)
    }
}
macro_rules! p_fmt {
    ($($Tr:ident),*) => {$(impl $Tr for P {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            site();
            f.write_str("<")?;
            if self.0 == BROKEN && unsafe { BROKEN_FAILS } {
                return Err(fmt::Error);
            }
            $Tr::fmt(&self.0, f)?;
            site();
            f.write_str(">")
        }
    })*};
}
p_fmt!(Display, Debug, LowerExp, UpperExp);

/// what the sink does and what it saw
struct Sink {
    text: String,
    writes: usize,
    /// fail at this write call, after this many bytes of it were taken
    fail_at: Option<(usize, usize)>,
    /// all writes after the failing one fail as well
    stay: bool,
    failed: bool,
    after: usize,
    yields: bool,
}
impl Sink {
    fn new(fail_at: Option<(usize, usize)>, stay: bool) -> Sink {
        Sink { text: String::new(), writes: 0, fail_at, stay, failed: false, after: 0, yields: true }
    }
}
impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.yields {
            simcore::yield_point();
        }
        simcore::sim().faults[simcore::F_SINK].hits += 1;
        let k = self.writes;
        self.writes += 1;
        if self.failed {
            if !s.is_empty() {
                self.after += 1;
            }
            if self.stay {
                return Err(fmt::Error);
            }
            simcore::quiet(|| self.text.push_str(s));
            return Ok(());
        }
        if let Some((at, part)) = self.fail_at {
            if k == at {
                let mut p = part.min(s.len());
                while !s.is_char_boundary(p) {
                    p -= 1;
                }
                simcore::quiet(|| self.text.push_str(&s[..p]));
                self.failed = true;
                simcore::sim().faults[simcore::F_SINK].fired += 1;
                return Err(fmt::Error);
            }
        }
        simcore::quiet(|| self.text.push_str(s));
        Ok(())
    }
}
/// byte stream with short writes, interruptions, and failures
struct IoSink {
    bytes: Vec<u8>,
    chunk: usize,
    capacity: usize,
    kind: std::io::ErrorKind,
    calls: usize,
    failed: bool,
    after: usize,
}
impl std::io::Write for IoSink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        simcore::yield_point();
        simcore::sim().faults[simcore::F_SINK].hits += 1;
        self.calls += 1;
        if self.failed {
            if !b.is_empty() {
                self.after += 1;
            }
            return Err(self.kind.into());
        }
        if self.calls % 5 == 0 {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let room = self.capacity - self.bytes.len();
        let n = b.len().min(self.chunk).min(room);
        if n == 0 && !b.is_empty() {
            self.failed = true;
            simcore::sim().faults[simcore::F_SINK].fired += 1;
            return if self.kind == std::io::ErrorKind::WriteZero { Ok(0) } else { Err(self.kind.into()) };
        }
        simcore::quiet(|| self.bytes.extend_from_slice(&b[..n]));
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

const FORMS: usize = 12;
macro_rules! write_form {
    ($w:expr, $t:expr, $form:expr, $width:expr, $prec:expr) => {{
        let (w, t, width, prec) = ($w, $t, $width, $prec);
        match $form {
            0 => write!(w, "{t}"),
            1 => write!(w, "{t:>width$}"),
            2 => write!(w, "{t:<width$}"),
            3 => write!(w, "{t:+}"),
            4 => write!(w, "{t:width$.prec$}"),
            5 => write!(w, "{t:e}"),
            6 => write!(w, "{t:width$.prec$e}"),
            7 => write!(w, "{t:E}"),
            8 => write!(w, "{t:?}"),
            9 => write!(w, "{t:#?}"),
            10 => write!(w, "[{t:^width$}] and {t}"),
            _ => write!(w, "{t:*>width$}"),
        }
    }};
}
trait All: Display + Debug + LowerExp + UpperExp {}
impl<T: Display + Debug + LowerExp + UpperExp> All for T {}

#[derive(Clone, Copy)]
struct How {
    form: usize,
    width: usize,
    prec: usize,
}
fn emit(w: &mut dyn fmt::Write, t: &dyn All, h: How) -> fmt::Result {
    write_form!(w, t, h.form, h.width, h.prec)
}
fn emit_io(w: &mut dyn std::io::Write, t: &dyn All, h: How) -> std::io::Result<()> {
    write_form!(w, t, h.form, h.width, h.prec)
}

/// one tensor printed into several sinks, some of them failing
fn exercise(t: &dyn All, h: How, full: &str, broken_at: Option<&str>, seed: u64) {
    let mut r = rng(seed);
    // what the text must be, and whether printing ends by itself
    let limit = broken_at.unwrap_or(full);
    let good = |what: &str| -> usize {
        let mut s = Sink::new(None, true);
        let got = call(|| emit(&mut s, t, h));
        match got {
            Err(e) => fail!("panicked", "{what}: formatting panicked: {e}"),
            Ok(res) => {
                if res.is_err() != broken_at.is_some() {
                    fail!("wrong-status", "{what}: formatting returned {res:?} into a working sink{}", if broken_at.is_some() { " although an element failed" } else { "" });
                } else if s.text != limit {
                    fail!("wrong-text", "{what}: text is {:?}, expected {:?}", clip(&s.text), clip(limit));
                }
            },
        }
        let n = s.writes;
        drop_quiet(s);
        n
    };
    let writes = good("first print");
    if failed() {
        return;
    }
    let mut points: Vec<usize> = vec![];
    if writes <= 24 {
        points.extend(0..writes);
    } else {
        for _ in 0..12 {
            points.push(r.below(writes as u64) as usize);
        }
        points.push(writes - 1);
    }
    for at in points {
        let part = [0usize, 0, 1, 3][r.below(4) as usize];
        let stay = r.below(3) != 0;
        let mut s = Sink::new(Some((at, part)), stay);
        let got = call(|| emit(&mut s, t, h));
        match got {
            Err(e) => fail!("panicked", "formatting panicked when write {at} of {writes} failed: {e}"),
            Ok(res) => {
                if !s.failed {
                    // fewer writes than the first time
                    fail!("wrong-text", "printing again made {} writes instead of {writes}: {:?}", s.writes, clip(&s.text));
                } else if res.is_ok() {
                    fail!("failure-lost", "write {at} of {writes} failed but formatting returned success; written: {:?}", clip(&s.text));
                } else if s.after > 0 {
                    fail!("written-after-failure", "write {at} of {writes} failed and {} more writes followed", s.after);
                } else if !full.starts_with(&s.text) {
                    fail!("wrong-text", "what was written before write {at} failed is no prefix of the full text: {:?} of {:?}", clip(&s.text), clip(full));
                }
            },
        }
        drop_quiet(s);
        if failed() {
            return;
        }
    }
    // byte streams
    for _ in 0..2 {
        let capacity = if r.below(3) == 0 { usize::MAX } else { r.below(full.len() as u64 + 1) as usize };
        let kind = [std::io::ErrorKind::StorageFull, std::io::ErrorKind::BrokenPipe, std::io::ErrorKind::WriteZero, std::io::ErrorKind::WouldBlock][r.below(4) as usize];
        let mut s = IoSink { bytes: vec![], chunk: 1 + r.below(9) as usize, capacity, kind, calls: 0, failed: false, after: 0 };
        match call(|| emit_io(&mut s, t, h)) {
            // (the standard library panics when an element fails by itself under a working stream)
            Err(e) => {
                if broken_at.is_none() || s.failed {
                    fail!("panicked", "formatting into a byte stream panicked: {e}")
                }
            },
            Ok(res) => {
                let text = String::from_utf8_lossy(&s.bytes).to_string();
                match (&res, s.failed) {
                    (Ok(()), false) => {
                        if text != full || broken_at.is_some() {
                            fail!("wrong-text", "byte stream got {:?}, expected {:?}", clip(&text), clip(full));
                        }
                    },
                    (Ok(()), true) => fail!("failure-lost", "the byte stream failed after {} bytes but formatting returned success", s.bytes.len()),
                    (Err(e), true) => {
                        if e.kind() != kind {
                            fail!("wrong-status", "byte stream failed with {kind:?}, reported {:?}", e.kind());
                        }
                        if s.after > 0 {
                            fail!("written-after-failure", "the byte stream failed and {} more writes followed", s.after);
                        }
                        if !full.as_bytes().starts_with(&s.bytes) {
                            fail!("wrong-text", "what the byte stream took is no prefix of the full text: {:?} of {:?}", clip(&text), clip(full));
                        }
                    },
                    (Err(e), false) => {
                        if broken_at.is_none() {
                            fail!("wrong-status", "formatting failed with {e:?} under a working byte stream")
                        } else if text != limit {
                            fail!("wrong-text", "byte stream got {:?}, expected {:?}", clip(&text), clip(limit));
                        }
                    },
                }
            },
        }
        drop_quiet(s);
        if failed() {
            return;
        }
    }
    good("print after failed prints");
}
fn clip(s: &str) -> String {
    if s.len() <= 300 { s.to_string() } else { format!("{}…({} bytes)", s.chars().take(300).collect::<String>(), s.len()) }
}

fn case<T: Elem + All + PartialEq>(ctx: &Ctx) -> Case
where
    Dev: rstsr_core::prelude_dev::DeviceAPI<T, Raw = Vec<T>>,
{
    let ctx = ctx.clone();
    let nd = pick(&[1usize, 2, 3, 2, 0, 4, 5]);
    let mut shape = gen_shape(nd, if coin(1, 3) { logrange(1, 40) } else { logrange(1, 3000) });
    if nd > 0 && coin(1, 12) {
        let k = below(nd);
        shape[k] = 0;
    }
    let spec = gen_spec(&shape, true);
    let mut o = Opnd::<T>::gen(spec, pick(&[Vals::Small(9), Vals::Small(100000), Vals::Distinct]));
    let broken = T::NAME == "P" && coin(1, 4) && numel(&shape) > 0;
    if broken {
        let pos = o.spec.positions();
        let p = pos[below(pos.len())];
        o.keys[p] = BROKEN;
    }
    let h = How { form: below(FORMS), width: pick(&[0usize, 4, 9, 1, 30]), prec: pick(&[0usize, 3, 6, 17]) };
    let own = pick(&[0usize, 0, 1, 2, 3, 4, 5]);
    let printers = pick(&[1usize, 1, 1, 2, 3]);
    let seeds: Vec<u64> = (0..printers).map(|_| seed32()).collect();
    desc!(
        "{} print form {} width {} precision {} as {} t[{}]{} by {printers}",
        T::NAME,
        h.form,
        h.width,
        h.prec,
        ["tensor", "view", "mutable view", "shared", "copy-on-write", "static dimensions"][own],
        show_spec(&o.spec),
        if broken { " with a failing element" } else { "" }
    );
    Box::new(move || {
        let mut t = mk(&o, &ctx.dev);
        macro_rules! go {
            ($x:expr) => {{
                let x = $x;
                // the full text, taken alone into a plain string; shown text depends on the logical contents only
                let (full, limit) = simcore::quiet(|| {
                    let mut full = String::new();
                    unsafe { BROKEN_FAILS = false }
                    let r = emit(&mut full, &x, h);
                    unsafe { BROKEN_FAILS = true }
                    if r.is_err() {
                        fail!("wrong-status", "formatting into a string failed");
                    }
                    if h.form != 8 && h.form != 9 {
                        let sh = o.spec.shape.clone();
                        let c: Tensor<T, DeviceCpuSerial, IxD> =
                            rt::asarray((vals::<T>(&o.logical()), rstsr_common::prelude::Layout::<IxD>::new(sh.clone(), Spec::contig(&sh).stride, 0).unwrap(), &DeviceCpuSerial::default()));
                        let mut s = String::new();
                        unsafe { BROKEN_FAILS = false }
                        let _ = emit(&mut s, &c, h);
                        unsafe { BROKEN_FAILS = true }
                        if s != full {
                            fail!("wrong-text", "text {:?} differs from that of an equal plain tensor {:?}", clip(&full), clip(&s));
                        }
                    }
                    // when an element fails, what precedes it is written; an abbreviated print may not reach it
                    let mut cut = String::new();
                    let r = emit(&mut cut, &x, h);
                    (full, if r.is_err() { Some(cut) } else { None })
                });
                if limit.is_some() && !broken {
                    fail!("wrong-status", "formatting into a string failed");
                }
                if let Some(c) = &limit {
                    if !full.starts_with(c.as_str()) {
                        fail!("wrong-text", "text before a failing element is no prefix: {:?} of {:?}", clip(c), clip(&full));
                    }
                }
                if !failed() {
                    if printers == 1 {
                        ctx.enter(|| exercise(&x, h, &full, limit.as_deref(), seeds[0]));
                    } else {
                        probe("concurrent printers of one tensor");
                        let shared = Arc::new((AssertShare(unsafe { std::mem::transmute::<&dyn All, *const (dyn All + 'static)>(&x) }), full.clone(), limit.clone()));
                        let hs: Vec<_> = seeds
                            .iter()
                            .map(|&sd| {
                                let s = shared.clone();
                                simcore::thread_spawn(move || {
                                    let t: &dyn All = unsafe { &*s.0.get() };
                                    exercise(t, h, &s.1, s.2.as_deref(), sd)
                                })
                            })
                            .collect();
                        for j in hs {
                            if j.join().is_err() {
                                fail!("escaped", "panic escaped a printer: {}", simcore::sim().last_panic);
                            }
                        }
                    }
                }
            }};
        }
        match own {
            1 => go!(t.view()),
            2 => go!(t.view_mut()),
            3 => go!(t.clone().into_shared()),
            4 => go!(t.view().into_cow()),
            5 if t.ndim() == 2 => go!(t.view().into_dim::<Ix2>()),
            5 if t.ndim() == 3 => go!(t.view().into_dim::<Ix3>()),
            _ => go!(t.view()),
        }
        o.unchanged(t.raw(), "printed tensor");
    })
}
struct AssertShare(*const (dyn All + 'static));
unsafe impl Send for AssertShare {}
unsafe impl Sync for AssertShare {}
impl AssertShare {
    fn get(&self) -> *const (dyn All + 'static) {
        self.0
    }
}

/// layouts and devices print as well
fn case_parts(ctx: &Ctx) -> Case {
    let ctx = ctx.clone();
    let nd = below(5);
    let shape = gen_shape(nd, logrange(1, 300));
    let spec = gen_spec(&shape, true);
    let form = 8 + below(2);
    let which = coin(1, 2);
    let seed = seed32();
    desc!("debug print of a {} [{}]", if which { "layout" } else { "device" }, show_spec(&spec));
    Box::new(move || {
        struct Wrap<X: Debug>(X);
        macro_rules! only_debug {
            ($($Tr:ident),*) => {$(impl<X: Debug> $Tr for Wrap<X> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { Debug::fmt(&self.0, f) } })*};
        }
        only_debug!(Display, Debug, LowerExp, UpperExp);
        let h = How { form, width: 0, prec: 0 };
        macro_rules! go {
            ($x:expr) => {{
                let x = Wrap($x);
                let full = simcore::quiet(|| {
                    let mut s = String::new();
                    let _ = emit(&mut s, &x, h);
                    s
                });
                exercise(&x, h, &full, None, seed);
            }};
        }
        if which {
            go!(spec.layout())
        } else {
            go!(ctx.dev.clone())
        }
    })
}

pub fn run() {
    let (min, max) = match weighted(&[6, 4, 1, 1, 1]) {
        0 => (3usize, 8usize),
        1 => (below(6), below(24)),
        2 => (3, usize::MAX),
        3 => (usize::MAX, usize::MAX),
        _ => (0, 0),
    };
    MIN_PRINT.store(min, Ordering::Relaxed);
    MAX_PRINT.store(max, Ordering::Relaxed);
    desc!("abbreviation limits {min}/{max}");
    let ctx = Ctx::gen(true);
    run_cases(&ctx, &|ctx| match weighted(&[5, 2, 1, 1, 1, 1]) {
        0 => case::<P>(ctx),
        1 => case::<f64>(ctx),
        2 => case::<i32>(ctx),
        3 => case::<u8>(ctx),
        4 => case::<f32>(ctx),
        _ => case_parts(ctx),
    });
}
