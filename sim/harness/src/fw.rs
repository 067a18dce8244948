//! Generator stream, violation reporting, element types with fault sites, tensor specs and the independent model.
#![allow(static_mut_refs)]
use simcore::{Rng, Stream};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub static mut GEN: Option<Stream> = None;
static mut DESC: String = String::new();
static mut PROBES: BTreeMap<&'static str, u64> = BTreeMap::new();
static mut KIND: String = String::new();

/// a choice that is fixed for the whole worker process (0 or 1), recorded like any other
pub static mut PARITY: u32 = 0;
pub fn parity() -> u32 {
    unsafe { GEN.as_mut().expect("no generator stream").choose_with(2, |_| PARITY) }
}
pub fn gen_start(s: Stream) {
    unsafe {
        GEN = Some(s);
        DESC.clear();
        KIND.clear();
    }
}
pub fn gen_stop() -> Vec<u32> {
    unsafe { GEN.take().map(|s| s.rec).unwrap_or_default() }
}
pub fn gen_rec() -> &'static [u32] {
    unsafe { GEN.as_ref().map(|s| &s.rec[..]).unwrap_or(&[]) }
}
fn g() -> &'static mut Stream {
    unsafe { GEN.as_mut().expect("no generator stream") }
}
/// 0..n
pub fn below(n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    simcore::quiet(|| g().choose(n as u32) as usize)
}
/// lo..=hi
pub fn range(lo: usize, hi: usize) -> usize {
    lo + below(hi - lo + 1)
}
/// lo..=hi, log-uniform in the distance from lo
pub fn logrange(lo: usize, hi: usize) -> usize {
    let n = (hi - lo + 1) as u32;
    if n <= 1 {
        return lo;
    }
    lo + simcore::quiet(|| g().choose_with(n, |r| (r.loguni(n as u64) - 1) as u32)) as usize
}
pub fn coin(num: u64, den: u64) -> bool {
    simcore::quiet(|| g().choose_with(2, |r| r.chance(num, den) as u32)) != 0
}
pub fn pick<T: Clone>(s: &[T]) -> T {
    s[below(s.len())].clone()
}
/// weighted choice, returns the index
pub fn weighted(w: &[u32]) -> usize {
    let tot: u32 = w.iter().sum();
    simcore::quiet(|| {
        g().choose_with(w.len() as u32, |r| {
            let mut x = r.below(tot as u64) as u32;
            for (i, &v) in w.iter().enumerate() {
                if x < v {
                    return i as u32;
                }
                x -= v;
            }
            0
        }) as usize
    })
}
pub fn seed32() -> u64 {
    simcore::quiet(|| g().choose(1 << 30)) as u64
}

pub fn describe(s: String) {
    simcore::quiet(|| unsafe {
        if DESC.len() < 4000 {
            if !DESC.is_empty() {
                DESC.push_str("; ");
            }
            DESC.push_str(&s);
        }
    });
    drop_quiet(s);
}
#[macro_export]
macro_rules! desc {
    ($($t:tt)*) => { simcore::quiet(|| $crate::fw::describe(format!($($t)*))) };
}
pub fn desc() -> &'static str {
    unsafe { &DESC }
}
pub fn drop_quiet<T>(t: T) {
    simcore::quiet(|| drop(t))
}
pub fn probe(name: &'static str) {
    simcore::quiet(|| unsafe {
        *PROBES.entry(name).or_insert(0) += 1;
    })
}
pub fn probes() -> &'static BTreeMap<&'static str, u64> {
    unsafe { &PROBES }
}
pub fn violation_kind() -> &'static str {
    unsafe { &KIND }
}
static mut ONLY: &str = "";
/// ignore what the workloads report, except this kind
pub fn only_kind(k: &'static str) {
    unsafe { ONLY = k }
}
pub fn report(kind: &str, msg: String) {
    simcore::quiet(|| unsafe {
        if !ONLY.is_empty() && kind != ONLY {
            return;
        }
        if KIND.is_empty() && !simcore::has_violation() {
            KIND.push_str(kind);
            simcore::violation(format!("[{kind}] {msg}"));
        }
    })
}
/// report a violation: kind (stable class used for shrinking and known findings), then the details
#[macro_export]
macro_rules! fail {
    ($kind:expr, $($t:tt)*) => { simcore::quiet(|| $crate::fw::report(&$kind, format!($($t)*))) };
}
pub fn failed() -> bool {
    simcore::has_violation()
}

/// run code under test, turning a panic into Err(message)
pub fn call<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(e) => {
            let injected = e.is::<Injected>();
            let oom = e.is::<simcore::alloc::OomPanic>();
            let m = simcore::quiet(|| {
                if injected {
                    "injected".to_string()
                } else if oom {
                    "oom".to_string()
                } else {
                    simcore::sim().last_panic.clone()
                }
            });
            drop(e);
            Err(m)
        },
    }
}

// ------------------------------------------------------------------ element types
/// panic payload of an injected element fault
pub struct Injected;

static mut RETIRED: bool = false;
/// while set, no element operation may run: the call that could have started it has ended
pub fn retired(b: bool) {
    unsafe { RETIRED = b }
}
#[inline]
pub fn site() {
    if unsafe { RETIRED } {
        fail!("work-after-return", "an element operation runs although the operation that started it has ended");
    }
    simcore::yield_point();
    if simcore::fault(simcore::F_PANIC) {
        if std::thread::panicking() {
            return;
        }
        std::panic::panic_any(Injected);
    }
}

/// Copy integer whose every operation is a scheduling point and a possible panic site
#[derive(Clone, Copy, PartialEq, Debug, Default)]
pub struct Y(pub i64);
macro_rules! y_ops {
    ($($tr:ident $f:ident $tra:ident $fa:ident |$a:ident,$b:ident| $e:expr;)*) => {$(
        impl std::ops::$tr for Y { type Output = Y;
            #[inline] fn $f(self, o: Y) -> Y { site(); let ($a,$b)=(self.0,o.0); Y($e) } }
        impl std::ops::$tra for Y {
            #[inline] fn $fa(&mut self, o: Y) { let v = *self; site(); let ($a,$b)=(v.0,o.0); *self = Y($e) } }
    )*};
}
pub fn sdiv(a: i64, b: i64) -> i64 {
    if b == 0 { a ^ 0x55 } else { a.wrapping_div(b) }
}
pub fn srem(a: i64, b: i64) -> i64 {
    if b == 0 { a ^ 0x33 } else { a.wrapping_rem(b) }
}
y_ops! {
    Add add AddAssign add_assign |a,b| a.wrapping_add(b);
    Sub sub SubAssign sub_assign |a,b| a.wrapping_sub(b);
    Mul mul MulAssign mul_assign |a,b| a.wrapping_mul(b);
    Div div DivAssign div_assign |a,b| sdiv(a,b);
    Rem rem RemAssign rem_assign |a,b| srem(a,b);
    BitOr bitor BitOrAssign bitor_assign |a,b| a|b;
    BitAnd bitand BitAndAssign bitand_assign |a,b| a&b;
    BitXor bitxor BitXorAssign bitxor_assign |a,b| a^b;
    Shl shl ShlAssign shl_assign |a,b| a.wrapping_shl((b & 63) as u32);
    Shr shr ShrAssign shr_assign |a,b| a.wrapping_shr((b & 63) as u32);
}
impl std::ops::Neg for Y {
    type Output = Y;
    fn neg(self) -> Y {
        site();
        Y(self.0.wrapping_neg())
    }
}
impl std::ops::Not for Y {
    type Output = Y;
    fn not(self) -> Y {
        site();
        Y(!self.0)
    }
}
impl PartialOrd for Y {
    fn partial_cmp(&self, o: &Y) -> Option<std::cmp::Ordering> {
        site();
        self.0.partial_cmp(&o.0)
    }
}
impl num::Zero for Y {
    fn zero() -> Y {
        Y(0)
    }
    fn is_zero(&self) -> bool {
        site();
        self.0 == 0
    }
}
impl num::One for Y {
    fn one() -> Y {
        Y(1)
    }
}
impl num::Num for Y {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<Y, ()> {
        Err(())
    }
}

/// Tracked element: identity registry, magic, scheduling point and panic site in every operation
pub struct Tk {
    pub v: i64,
    id: u64,
    magic: u64,
}
const MAGIC: u64 = 0x5EED_CAFE_F00D_BEEF;
const DEAD: u64 = 0xDEAD_DEAD_DEAD_DEAD;
static mut REG: Vec<u8> = Vec::new(); // 1 alive, 2 dropped
static mut LIVE: i64 = 0;
pub static mut TK_LEAK_OK: bool = false;

pub fn tk_reset() {
    simcore::quiet(|| unsafe {
        REG.clear();
        TK_LEAK_OK = false;
        RETIRED = false;
        LIVE = 0;
    })
}
pub fn tk_live() -> i64 {
    unsafe { LIVE }
}
/// identities of all elements alive
pub fn tk_ids_alive() -> Vec<usize> {
    simcore::quiet(|| unsafe { (0..REG.len()).filter(|&i| REG[i] == 1).collect() })
}
/// does this memory hold a live element?
pub fn tk_valid(e: &Tk) -> bool {
    unsafe { e.magic == MAGIC ^ e.id && (e.id as usize) < REG.len() && REG[e.id as usize] == 1 }
}
pub fn tk_created() -> usize {
    unsafe { REG.len() }
}
impl Default for Tk {
    fn default() -> Tk {
        Tk::new(0)
    }
}
impl Tk {
    pub fn new(v: i64) -> Tk {
        simcore::quiet(|| unsafe {
            REG.push(1);
            LIVE += 1;
            let id = REG.len() as u64 - 1;
            Tk { v, id, magic: MAGIC ^ id }
        })
    }
    #[inline]
    fn check(&self, what: &str) -> bool {
        unsafe {
            if self.magic == MAGIC ^ self.id && (self.id as usize) < REG.len() && REG[self.id as usize] == 1 {
                return true;
            }
        }
        self.bad(what);
        false
    }
    #[cold]
    fn bad(&self, what: &str) {
        let st = unsafe { REG.get(self.id as usize).copied().unwrap_or(0) };
        if self.magic == DEAD || (self.magic == MAGIC ^ self.id && st == 2) {
            fail!(format!("element-{what}-after-drop"), "element #{} is {what} after it was dropped", self.id);
        } else {
            fail!(
                format!("element-{what}-uninit"),
                "memory that never held an element is {what} (magic {:#x})",
                self.magic
            );
        }
    }
    #[inline]
    pub fn get(&self) -> i64 {
        self.check("read");
        self.v
    }
}
impl Drop for Tk {
    fn drop(&mut self) {
        if self.check("dropped") {
            unsafe {
                REG[self.id as usize] = 2;
                LIVE -= 1;
                std::ptr::write_volatile(&mut self.magic, DEAD);
            }
        }
        simcore::yield_point();
    }
}
impl Clone for Tk {
    fn clone(&self) -> Tk {
        self.check("cloned");
        site();
        Tk::new(self.v)
    }
}
impl std::fmt::Debug for Tk {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.v)
    }
}
impl PartialEq for Tk {
    fn eq(&self, o: &Tk) -> bool {
        site();
        self.get() == o.get()
    }
}
impl PartialOrd for Tk {
    fn partial_cmp(&self, o: &Tk) -> Option<std::cmp::Ordering> {
        site();
        self.get().partial_cmp(&o.get())
    }
}
macro_rules! tk_ops {
    ($($tr:ident $f:ident $tra:ident $fa:ident |$a:ident,$b:ident| $e:expr;)*) => {$(
        impl std::ops::$tr for Tk { type Output = Tk;
            fn $f(self, o: Tk) -> Tk { site(); let ($a,$b)=(self.get(),o.get()); Tk::new($e) } }
        impl std::ops::$tra for Tk {
            fn $fa(&mut self, o: Tk) { site(); let ($a,$b)=(self.get(),o.get()); *self = Tk::new($e) } }
    )*};
}
tk_ops! {
    Add add AddAssign add_assign |a,b| a.wrapping_add(b);
    Sub sub SubAssign sub_assign |a,b| a.wrapping_sub(b);
    Mul mul MulAssign mul_assign |a,b| a.wrapping_mul(b);
    Div div DivAssign div_assign |a,b| sdiv(a,b);
    Rem rem RemAssign rem_assign |a,b| srem(a,b);
    BitOr bitor BitOrAssign bitor_assign |a,b| a|b;
    BitAnd bitand BitAndAssign bitand_assign |a,b| a&b;
    BitXor bitxor BitXorAssign bitxor_assign |a,b| a^b;
    Shl shl ShlAssign shl_assign |a,b| a.wrapping_shl((b & 63) as u32);
    Shr shr ShrAssign shr_assign |a,b| a.wrapping_shr((b & 63) as u32);
}
impl std::ops::Neg for Tk {
    type Output = Tk;
    fn neg(self) -> Tk {
        site();
        Tk::new(self.get().wrapping_neg())
    }
}
impl std::ops::Not for Tk {
    type Output = Tk;
    fn not(self) -> Tk {
        site();
        Tk::new(!self.get())
    }
}
impl num::Zero for Tk {
    fn zero() -> Tk {
        Tk::new(0)
    }
    fn is_zero(&self) -> bool {
        site();
        self.get() == 0
    }
}
impl num::One for Tk {
    fn one() -> Tk {
        Tk::new(1)
    }
}
impl num::Num for Tk {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<Tk, ()> {
        Err(())
    }
}

use rstsr_dtype_traits::*;
macro_rules! dtype_impls {
    ($T:ty, $mk:expr, $get:expr) => {
        impl ExtNum for $T {
            type AbsOut = $T;
            const ABS_UNCHANGED: bool = false;
            const ABS_SAME_TYPE: bool = true;
            fn ext_real(self) -> $T {
                site();
                self
            }
            fn ext_imag(self) -> $T {
                site();
                $mk(0)
            }
            fn ext_abs(self) -> $T {
                site();
                $mk($get(&self).wrapping_abs())
            }
            fn ext_abs_diff(self, o: $T) -> $T {
                site();
                $mk($get(&self).wrapping_sub($get(&o)).wrapping_abs())
            }
            fn ext_sign(self) -> $T {
                site();
                $mk($get(&self).signum())
            }
            fn ext_conj(self) -> $T {
                site();
                self
            }
        }
    };
}
macro_rules! real_impls {
    ($T:ty, $mk:expr, $get:expr) => {
        impl ExtReal for $T {
            fn ext_floor_divide(self, o: $T) -> $T {
                site();
                let (a, b) = ($get(&self), $get(&o));
                $mk(fdiv(a, b))
            }
            fn ext_min(self, o: $T) -> $T {
                site();
                if $get(&o) < $get(&self) { o } else { self }
            }
            fn ext_min_value() -> $T {
                $mk(i64::MIN)
            }
            fn ext_max(self, o: $T) -> $T {
                site();
                if $get(&o) > $get(&self) { o } else { self }
            }
            fn ext_max_value() -> $T {
                $mk(i64::MAX)
            }
        }
        impl From<i64> for $T {
            fn from(v: i64) -> $T {
                $mk(v)
            }
        }
        impl From<i32> for $T {
            fn from(v: i32) -> $T {
                $mk(v as i64)
            }
        }
    };
}
pub fn fdiv(a: i64, b: i64) -> i64 {
    if b == 0 { a ^ 0x77 } else { a.wrapping_div_euclid(b) }
}
real_impls!(Y, Y, |y: &Y| y.0);
real_impls!(Tk, Tk::new, |y: &Tk| y.get());
dtype_impls!(Y, Y, |y: &Y| y.0);
dtype_impls!(Tk, Tk::new, |y: &Tk| y.get());

/// common face of the element types used by the workloads
pub trait Elem: Clone + Send + Sync + 'static {
    const NAME: &'static str;
    fn mk(h: u64) -> Self;
    /// bit-level identity for comparisons against the model
    fn key(&self) -> (u64, u64);
    fn same(&self, o: &Self) -> bool {
        self.key() == o.key()
    }
    fn show(&self) -> String;
}
impl Elem for Y {
    const NAME: &'static str = "Y";
    fn mk(h: u64) -> Y {
        Y(h as i64)
    }
    fn key(&self) -> (u64, u64) {
        (self.0 as u64, 0)
    }
    fn show(&self) -> String {
        format!("{}", self.0)
    }
}
impl Elem for Tk {
    const NAME: &'static str = "Tk";
    fn mk(h: u64) -> Tk {
        Tk::new(h as i64)
    }
    fn key(&self) -> (u64, u64) {
        (self.get() as u64, 0)
    }
    fn show(&self) -> String {
        format!("{}", self.v)
    }
}
macro_rules! elem_int {
    ($($t:ty),*) => {$(impl Elem for $t {
        const NAME: &'static str = stringify!($t);
        fn mk(h: u64) -> $t { h as $t }
        fn key(&self) -> (u64, u64) { (*self as i64 as u64, 0) }
        fn show(&self) -> String { format!("{self}") }
    })*};
}
elem_int!(i8, i16, i32, i64, u8, u16, u32, u64, usize, isize);
impl Elem for bool {
    const NAME: &'static str = "bool";
    fn mk(h: u64) -> bool {
        h & 1 == 1
    }
    fn key(&self) -> (u64, u64) {
        (*self as u8 as u64, 0)
    }
    fn show(&self) -> String {
        format!("{self}")
    }
}
macro_rules! elem_float {
    ($($t:ty),*) => {$(impl Elem for $t {
        const NAME: &'static str = stringify!($t);
        fn mk(h: u64) -> $t { (h as i64) as $t }
        fn key(&self) -> (u64, u64) { if self.is_nan() { (u64::MAX, 1) } else if *self == 0.0 { (0, 0) } else { (self.to_bits() as u64, 0) } }
        fn show(&self) -> String { format!("{self:?}") }
    })*};
}
elem_float!(f32, f64);
macro_rules! elem_cplx {
    ($($t:ty),*) => {$(impl Elem for num::Complex<$t> {
        const NAME: &'static str = concat!("c", stringify!($t));
        fn mk(h: u64) -> Self { num::Complex::new((h as i64) as $t, ((h as i64).wrapping_mul(7) % 11) as $t) }
        fn key(&self) -> (u64, u64) { (self.re.key().0, self.im.key().0) }
        fn show(&self) -> String { format!("{self:?}") }
    })*};
}
elem_cplx!(f32, f64);

// ------------------------------------------------------------------ value generation
#[derive(Clone, Copy, Debug)]
pub enum Vals {
    /// values in -m..=m
    Small(i64),
    /// distinct: position
    Distinct,
    /// full 62-bit hash
    Wide,
    Const(i64),
}
pub fn val(mode: Vals, seed: u64, i: usize) -> i64 {
    let h = simcore::rng::mix(&[seed, i as u64]);
    match mode {
        Vals::Small(m) => (h % (2 * m as u64 + 1)) as i64 - m,
        Vals::Distinct => i as i64 + 1,
        Vals::Wide => (h >> 2) as i64 - (1 << 61),
        Vals::Const(c) => c,
    }
}
pub fn rng(seed: u64) -> Rng {
    Rng::new(seed)
}

// ------------------------------------------------------------------ tensor specs and the stride model
#[derive(Clone, Debug)]
pub struct Spec {
    pub shape: Vec<usize>,
    pub stride: Vec<isize>,
    pub offset: usize,
    pub len: usize,
}
impl Spec {
    pub fn size(&self) -> usize {
        self.shape.iter().product()
    }
    pub fn ndim(&self) -> usize {
        self.shape.len()
    }
    pub fn contig(shape: &[usize]) -> Spec {
        let mut stride = vec![0isize; shape.len()];
        let mut acc = 1isize;
        for i in (0..shape.len()).rev() {
            stride[i] = acc;
            acc *= shape[i] as isize; // as RSTSR lays out empty tensors: strides may be 0
        }
        Spec { shape: shape.to_vec(), stride, offset: 0, len: shape.iter().product() }
    }
    pub fn contig_f(shape: &[usize]) -> Spec {
        let mut stride = vec![0isize; shape.len()];
        let mut acc = 1isize;
        for i in 0..shape.len() {
            stride[i] = acc;
            acc *= shape[i] as isize; // as RSTSR lays out empty tensors: strides may be 0
        }
        Spec { shape: shape.to_vec(), stride, offset: 0, len: shape.iter().product() }
    }
    pub fn at(&self, ix: &[usize]) -> usize {
        let mut p = self.offset as isize;
        for (k, &i) in ix.iter().enumerate() {
            p += self.stride[k] * i as isize;
        }
        p as usize
    }
    /// buffer positions in row-major logical order
    pub fn positions(&self) -> Vec<usize> {
        positions(&self.shape, &self.stride, self.offset)
    }
    /// buffer positions of this operand broadcast (row-major rules) to `shape`
    pub fn bpositions(&self, shape: &[usize]) -> Vec<usize> {
        self.bpositions_o(shape, false)
    }
    /// ... aligned at the last axis (row-major default order) or at the first (column-major default order)
    pub fn bpositions_o(&self, shape: &[usize], colmajor: bool) -> Vec<usize> {
        let d = if colmajor { 0 } else { shape.len() - self.shape.len() };
        let mut st = vec![0isize; shape.len()];
        for k in 0..self.shape.len() {
            st[d + k] = if self.shape[k] == 1 && shape[d + k] != 1 { 0 } else { self.stride[k] };
        }
        positions(shape, &st, self.offset)
    }
    pub fn layout(&self) -> rstsr_common::prelude::Layout<rstsr_common::prelude::IxD> {
        unsafe {
            rstsr_common::prelude::Layout::new_unchecked(self.shape.clone(), self.stride.clone(), self.offset)
        }
    }
    pub fn is_bcast(&self) -> bool {
        self.shape.iter().zip(&self.stride).any(|(&n, &s)| s == 0 && n > 1)
    }
}
pub fn positions(shape: &[usize], stride: &[isize], offset: usize) -> Vec<usize> {
    let n: usize = shape.iter().product();
    let mut out = Vec::with_capacity(n);
    if n == 0 {
        return out;
    }
    let nd = shape.len();
    let mut ix = vec![0usize; nd];
    let mut p = offset as isize;
    loop {
        out.push(p as usize);
        let mut k = nd;
        loop {
            if k == 0 {
                return out;
            }
            k -= 1;
            ix[k] += 1;
            p += stride[k];
            if ix[k] < shape[k] {
                break;
            }
            p -= stride[k] * shape[k] as isize;
            ix[k] = 0;
        }
    }
}
pub fn unravel(mut i: usize, shape: &[usize]) -> Vec<usize> {
    let mut ix = vec![0; shape.len()];
    for k in (0..shape.len()).rev() {
        ix[k] = i % shape[k];
        i /= shape[k];
    }
    ix
}
pub fn ravel(ix: &[usize], shape: &[usize]) -> usize {
    ix.iter().zip(shape).fold(0, |a, (&i, &n)| a * n + i)
}

/// a shape of roughly `target` elements with `nd` axes
pub fn gen_shape(nd: usize, target: usize) -> Vec<usize> {
    let mut shape = vec![1usize; nd];
    if nd == 0 {
        return shape;
    }
    let mut rest = target.max(1);
    // distribute: for each axis but one draw a divisor-ish extent
    let big = below(nd);
    for k in 0..nd {
        if k == big {
            continue;
        }
        let lim = rest.min(200);
        let e = logrange(1, lim.max(1));
        shape[k] = e;
        rest = (rest / e).max(1);
    }
    shape[big] = rest + if coin(1, 3) { below(5) } else { 0 };
    shape
}
/// memory order and strides for a shape
pub fn gen_spec(shape: &[usize], allow_bcast: bool) -> Spec {
    let nd = shape.len();
    let kind = weighted(&[5, 3, 3, 3, 3, 2]);
    // 0 c-contig, 1 f-contig, 2 permuted, 3 permuted with gaps, 4 gaps+negative+offset, 5 c-contig with offset
    let mut sp = match kind {
        0 => Spec::contig(shape),
        1 => Spec::contig_f(shape),
        5 => {
            let mut s = Spec::contig(shape);
            s.offset = 1 + below(9);
            s.len += s.offset + below(9);
            s
        },
        _ => {
            let mut perm: Vec<usize> = (0..nd).collect();
            for i in (1..nd).rev() {
                let j = i - below(i + 1);
                perm.swap(i, j);
            }
            let mut stride = vec![0isize; nd];
            let mut acc = 1isize;
            for &a in perm.iter().rev() {
                let mut s = acc;
                if kind >= 3 && coin(1, 3) {
                    s += range(1, 3) as isize * if coin(1, 2) { acc } else { 1 };
                }
                stride[a] = s;
                acc = s * shape[a].max(1) as isize;
            }
            let mut off = 0usize;
            let mut tail = 0usize;
            if kind == 4 {
                for k in 0..nd {
                    if coin(1, 2) {
                        off += stride[k] as usize * shape[k].saturating_sub(1);
                        stride[k] = -stride[k];
                    }
                }
                off += below(7);
                tail = below(7);
            }
            let hi: isize =
                off as isize + (0..nd).filter(|&k| stride[k] > 0).map(|k| stride[k] * (shape[k].max(1) as isize - 1)).sum::<isize>();
            let len = if shape.iter().any(|&n| n == 0) { off + tail } else { hi as usize + 1 + tail };
            Spec { shape: shape.to_vec(), stride, offset: off, len }
        },
    };
    if allow_bcast && nd > 0 && coin(1, 5) {
        // make one axis a broadcast one
        let k = below(nd);
        if shape[k] > 1 {
            if sp.stride[k] < 0 {
                sp.offset -= (-sp.stride[k]) as usize * (shape[k] - 1);
            }
            sp.stride[k] = 0;
        }
    }
    // axes of length one may carry arbitrary strides
    if nd > 0 && coin(1, 6) {
        for k in 0..nd {
            if shape[k] == 1 {
                // never 0: the documented mark of a broadcast axis
                sp.stride[k] = pick(&[1isize, -6, -3, 3, 6, 9]);
            }
        }
    }
    if sp.len == 0 && coin(1, 2) {
        sp.len = 1;
    }
    sp
}
/// derive an operand shape that broadcasts to `shape`
pub fn gen_bshape(shape: &[usize], colmajor: bool) -> Vec<usize> {
    let mut s = shape.to_vec();
    match weighted(&[6, 3, 3]) {
        0 => {},
        1 => {
            for k in 0..s.len() {
                if coin(1, 3) {
                    s[k] = 1;
                }
            }
        },
        _ => {
            let d = below(s.len() + 1);
            if colmajor {
                let n = s.len() - d;
                s.truncate(n);
            } else {
                s.drain(0..d);
            }
            for k in 0..s.len() {
                if coin(1, 4) {
                    s[k] = 1;
                }
            }
        },
    }
    s
}

/// operand: spec, model copy of the buffer (as plain data), and the element buffer
pub struct Opnd<T: Elem> {
    pub spec: Spec,
    pub keys: Vec<i64>,
    pub _p: std::marker::PhantomData<T>,
}
impl<T: Elem> Opnd<T> {
    pub fn gen(spec: Spec, mode: Vals) -> Opnd<T> {
        simcore::quiet(|| {
            let seed = seed32();
            let keys = (0..spec.len).map(|i| val(mode, seed, i)).collect();
            Opnd { spec, keys, _p: std::marker::PhantomData }
        })
    }
    pub fn vec(&self) -> Vec<T> {
        // allocated while accounted for: the code under test will free it
        let mut v = Vec::with_capacity(self.keys.len());
        for &k in &self.keys {
            v.push(T::mk(k as u64));
        }
        v
    }
    /// logical values in row-major order
    pub fn logical(&self) -> Vec<i64> {
        self.spec.positions().into_iter().map(|p| self.keys[p]).collect()
    }
    pub fn blogical(&self, shape: &[usize], colmajor: bool) -> Vec<i64> {
        self.spec.bpositions_o(shape, colmajor).into_iter().map(|p| self.keys[p]).collect()
    }
    pub fn unchanged(&self, raw: &[T], what: &str) {
        if raw.len() != self.keys.len() {
            fail!("operand-buffer-length", "{what}: buffer length changed {} -> {}", self.keys.len(), raw.len());
            return;
        }
        for (i, (r, &k)) in raw.iter().zip(&self.keys).enumerate() {
            let same = simcore::quiet(|| r.same(&T::mk(k as u64)));
            if !same {
                fail!("operand-changed", "{what}: element at buffer position {i} changed to {}", r.show());
                return;
            }
        }
    }
}
pub fn numel(shape: &[usize]) -> usize {
    shape.iter().product()
}
