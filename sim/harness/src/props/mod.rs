//! Workloads, one module per property (or group of properties).
/// a workload on one of the devices that use a BLAS library
#[cfg(all(feature = "c20", not(feature = "c20full")))]
macro_rules! on_blas {
    ($m:ident) => {
        crate::props::$m::run()
    };
}
#[cfg(all(feature = "blas", any(not(feature = "c20"), feature = "c20full")))]
macro_rules! on_blas {
    ($m:ident) => {{
        #[allow(unused_imports)]
        use crate::fw::*;
        use crate::blas::{self, Lib};
        let lib = blas::pick_lib(&[3, 2, 2, 2, 2]);
        blas::start(lib, blas::Settings { global: range(1, 9) as i32, local: Default::default(), service: range(1, 9) as i32 });
        match lib {
            Lib::OpenBlasThread | Lib::OpenBlasOmp => $crate::props::dev_openblas::$m::run(),
            Lib::Mkl => $crate::props::dev_mkl::$m::run(),
            Lib::Blis => $crate::props::dev_blis::$m::run(),
            Lib::Aocl => $crate::props::dev_aocl::$m::run(),
            Lib::Kml => $crate::props::dev_kml::$m::run(),
        }
        blas::reset();
    }};
}
#[cfg(feature = "c01")]
pub mod c01;
#[cfg(feature = "c02")]
pub mod c02;
#[cfg(feature = "c03")]
pub mod c03;
#[cfg(feature = "c05")]
pub mod c05;
#[cfg(feature = "c06")]
pub mod c06;
#[cfg(feature = "c07")]
pub mod c07;
#[cfg(feature = "c08")]
pub mod c08;
#[cfg(feature = "c09")]
pub mod c09;
#[cfg(any(feature = "c07", feature = "c08", feature = "c09", feature = "c10", feature = "c11"))]
pub mod guard;
#[cfg(any(feature = "c07", feature = "c08", feature = "c09", feature = "c10", feature = "c11"))]
pub mod suite;
#[cfg(feature = "c20")]
pub mod c20;
#[cfg(feature = "c10")]
pub mod c10;
#[cfg(feature = "c11")]
pub mod c11;
#[cfg(feature = "c04")]
pub mod c04;
#[cfg(feature = "c13")]
pub mod c13;
#[cfg(feature = "c14")]
pub mod c14;
#[cfg(feature = "c15")]
pub mod c15;
pub type DevT = rstsr_core::prelude::DeviceFaer;
pub const DEVNAME: &str = "DeviceFaer";
#[cfg(feature = "c12")]
pub mod c12;
pub mod util;
#[cfg(feature = "blas")]
pub mod dev_openblas;
#[cfg(feature = "blas")]
pub mod dev_mkl;
#[cfg(feature = "blas")]
pub mod dev_blis;
#[cfg(feature = "blas")]
pub mod dev_aocl;
#[cfg(feature = "blas")]
pub mod dev_kml;

#[allow(unused_imports)]
use crate::fw::*;

pub struct Plan {
    pub quick_runs: u64,
    pub thorough_runs: u64,
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
}
static mut THOROUGH: bool = false;
pub fn set_thorough(t: bool) {
    unsafe { THOROUGH = t }
}
pub fn thorough() -> bool {
    unsafe { THOROUGH }
}
const REAL: &str = "rstsr-core, rstsr-native-impl, rstsr-common, rstsr-dtype-traits (from /repo's working tree), rayon 1.x iterators, faer/gemm";
const REAL_BLAS: &str = "rstsr-core, rstsr-native-impl, rstsr-common, rstsr-dtype-traits, rstsr-blas-traits, rstsr-linalg-traits, rstsr-{openblas,mkl,blis,aocl,kml} (from /repo's working tree), rayon 1.x iterators, faer/gemm; the compute routines of an OpenBLAS build stand behind all five back ends";
const STUB_BLAS: &str = "rayon-core (thread pool, registry, deques, latches: simulated on fibers with the same API), OS threads, global allocator (poisoning and failing), the BLAS libraries' thread-control routines (models of OpenBLAS pthread/OpenMP, MKL, BLIS, AOCL and KML settings)";
const STUB: &str = "rayon-core (thread pool, registry, deques, latches: simulated on fibers with the same API), OS threads, global allocator (poisoning and failing)";

pub const ALL: &[&str] = &["C01", "C02", "C03", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C04", "C13", "C14", "C15", "C12", "C20"];

pub fn plan(p: &str) -> Option<Plan> {
    Some(match p {
        "C01" => Plan {
            quick_runs: 24_000,
            thorough_runs: 600_000,
            rule: "Cases: a random elementwise operation family, operation, element type, operand shapes/strides/offsets/broadcasting and calling context, compared element by element with an independent stride model.",
            real: REAL,
            stub: STUB,
        },
        "C02" => Plan {
            quick_runs: 150_000,
            thorough_runs: 4_000_000,
            rule: "Cases: a random reduction (or closeness test), element type, subset of axes, operand shape/strides/offset/broadcasting and calling context, compared with a direct fold over the selected elements.",
            real: REAL,
            stub: STUB,
        },
        "C03" => Plan {
            quick_runs: 100_000,
            thorough_runs: 3_000_000,
            rule: "Cases: argmin/argmax in flat, unraveled, all-element and axes forms over views with many ties, compared with the first extremum of a direct scan in row-major order of the axes given.",
            real: REAL,
            stub: STUB,
        },
        "C05" => Plan {
            quick_runs: 500_000,
            thorough_runs: 15_000_000,
            rule: "Cases: an element, axes or layout iterator (by reference or mutable, with or without index, any order) over a random view, walked from both ends with splits, split onto threads, or driven through rayon adaptors; each visited item identified by its memory position.",
            real: REAL,
            stub: STUB,
        },
        "C06" => Plan {
            quick_runs: 30_000,
            thorough_runs: 3000000,
            rule: "Cases: layout conversions, reshapes with and without copy, transposition, concatenation and stacking, index/boolean selection, unstacking, triangle packing/unpacking/extraction, diagonals, grids, ranges and fills over random views (and invalid indices, which must be refused), compared with an index-by-index model.",
            real: REAL,
            stub: STUB,
        },
        "C07" => Plan {
            quick_runs: 60000,
            thorough_runs: 1000000,
            rule: "Cases: an operation of the suite on instrumented elements, the panic placed at a chosen element operation, afterwards the operands, target, element ownership, the repeated call and a concurrent caller are judged.",
            real: REAL,
            stub: STUB,
        },
        "C08" => Plan {
            quick_runs: 80000,
            thorough_runs: 1000000,
            rule: "Cases: an operation of the suite with a chosen memory request (and following ones) failing; outcome, operands, ownership, memory growth and the repeated call are judged.",
            real: REAL,
            stub: STUB,
        },
        "C09" => Plan {
            quick_runs: 60000,
            thorough_runs: 1000000,
            rule: "Cases: sequences of operations on tracked elements and plain numbers with poisoned memory; values, reads of missing elements, drops and leaks are judged.",
            real: REAL,
            stub: STUB,
        },
        "C10" => Plan {
            quick_runs: 100000,
            thorough_runs: 2000000,
            rule: "Cases: handles (shared, owned, copy-on-write) on one buffer with different views, dealt to concurrent simulated threads that read, modify, convert, hand over and drop them under a random schedule, each handle compared with its own value model after every step; plus a tensor every thread operates on; panics and failing requests in a part of the runs.",
            real: REAL,
            stub: STUB,
        },
        "C11" => Plan {
            quick_runs: 50000,
            thorough_runs: 1000000,
            rule: "Cases: the operation suite called from every position (plain threads, the device's, another or the global pool, joins, scopes, parallel iterators and pools nested in pools, element functions of other operations) while clones of the device are reconfigured and dropped, with failing thread creation, and with the jobs executed per pool counted.",
            real: REAL,
            stub: STUB,
        },
        "C04" => Plan {
            quick_runs: 30000,
            thorough_runs: 600000,
            rule: "Cases: a random matrix product (vector, matrix, batched and broadcast operands, self products, scaling, accumulation, stale outputs) or dot product over arbitrary axes, element type, layouts, device order and calling context, compared with the defining sum of products in exact arithmetic.",
            real: REAL_BLAS,
            stub: STUB_BLAS,
        },
        "C13" => Plan {
            quick_runs: 60000,
            thorough_runs: 600000,
            rule: "Cases: a random tensor (element type, layout, device, ownership, format flags, abbreviation limits) printed by one or more concurrent printers into string sinks failing at each or at sampled write calls (whole or partial, transient or lasting) and byte streams with short writes, interruptions and a full device; also tensors holding an element whose own formatting fails.",
            real: REAL,
            stub: STUB,
        },
        "C14" => Plan {
            quick_runs: 12_000,
            thorough_runs: 400000,
            rule: "Cases: a random metric (all built-in metrics, or a user's metric that counts evaluations and may panic at one pair or in its initialisation), input type, point counts, dimension, operand and weight layouts, device order and calling context, compared with the metric's definition evaluated directly.",
            real: REAL,
            stub: STUB,
        },
        "C20" => Plan {
            quick_runs: 32_000,
            thorough_runs: 3_000_000,
            rule: "Cases: the workloads of C01-C06, C10, C11, C13-C15 without faults, each plain memory access of the instrumented crates checked against vector clocks that follow fork/join of pool jobs, threads, atomic operations and blocking primitives.",
            real: REAL_BLAS,
            stub: STUB_BLAS,
        },
        "C15" => Plan {
            quick_runs: 24000,
            thorough_runs: 600000,
            rule: "Cases: the faer device or one of the five BLAS devices, a random routine (Cholesky, triangular, general, symmetric solve, inverse, determinants, (generalised) eigenproblems and singular values with every driver, pseudo-inverse, the level 3 builders with transposition, scaling, sides, triangles and outputs), element type, operand layout, way of passing the operands and calling context; one to three concurrent callers. Results are judged by their defining equations.",
            real: REAL_BLAS,
            stub: STUB_BLAS,
        },
        "C12" => Plan {
            quick_runs: 150000,
            thorough_runs: 3000000,
            rule: "Cases: one of the BLAS libraries with random initial thread settings; one to three concurrent callers on their own or shared devices run products (plain, batched on both sides of the outer-parallel switch, element types without a library routine), factorisations and solvers (also without a solution), ill-shaped products and nested scoped settings, with panics and failing memory at chosen points; the library's settings are compared whenever no operation is in flight and at every library call.",
            real: REAL_BLAS,
            stub: STUB_BLAS,
        },
        _ => return None,
    })
}
pub fn dispatch(p: &str) {
    match p {
        #[cfg(feature = "c01")]
        "C01" => c01::run(),
        #[cfg(feature = "c02")]
        "C02" => c02::run(),
        #[cfg(feature = "c03")]
        "C03" => c03::run(),
        #[cfg(feature = "c05")]
        "C05" => c05::run(),
        #[cfg(feature = "c06")]
        "C06" => c06::run(),
        #[cfg(feature = "c07")]
        "C07" => c07::run(),
        #[cfg(feature = "c08")]
        "C08" => c08::run(),
        #[cfg(feature = "c09")]
        "C09" => c09::run(),
        #[cfg(feature = "c10")]
        "C10" => c10::run(),
        #[cfg(feature = "c11")]
        "C11" => {
            if coin(4, 5) {
                c11::run();
            } else {
                on_blas!(c11);
            }
        },
        #[cfg(feature = "c04")]
        "C04" => {
            if coin(1, 2) {
                c04::run();
            } else {
                on_blas!(c04);
            }
        },
        #[cfg(feature = "c13")]
        "C13" => c13::run(),
        #[cfg(feature = "c14")]
        "C14" => c14::run(),
        #[cfg(feature = "c15")]
        "C15" => c15::run(),
        #[cfg(feature = "c12")]
        "C12" => c12::run(),
        #[cfg(feature = "c20")]
        "C20" => c20::run(),
        _ => panic!("no workload"),
    }
    if !crate::fw::failed() && crate::fw::tk_live() != 0 {
        // concurrent panics are excluded by the workloads that inject them
        if !unsafe { crate::fw::TK_LEAK_OK } {
            fail!("element-leak", "{} elements were created but never dropped", crate::fw::tk_live());
        }
    }
}
