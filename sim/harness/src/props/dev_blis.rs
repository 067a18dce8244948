//! The workloads that are compiled for several devices, on this one.
pub type DevT = rstsr_blis::DeviceBLIS;
pub const DEVNAME: &str = "DeviceBLIS";
#[cfg(all(feature = "c04", any(not(feature = "c20"), feature = "c20full")))]
#[path = "c04.rs"]
pub mod c04;
#[cfg(feature = "c12")]
#[path = "c12_body.rs"]
pub mod c12;
#[cfg(all(feature = "c15", any(not(feature = "c20"), feature = "c20full")))]
pub mod c15 {
    use super::util::*;
    use crate::fw::*;
    use crate::props::c15::*;
    c15_instance!(of_f64, f64, f64, "c15_body.rs", "c15_blas.rs");
    c15_instance!(of_c64, C64, f64, "c15_body.rs", "c15_blas.rs");
    pub fn run() {
        let ctx = Ctx::gen(true);
        run_cases(&ctx, &|ctx| match weighted(&[1, 1]) {
            0 => of_f64::gen_more(ctx),
            _ => of_c64::gen_more(ctx),
        });
    }
}
#[path = "util.rs"]
pub mod util;
#[cfg(all(feature = "c11", any(not(feature = "c20"), feature = "c20full")))]
#[path = "guard.rs"]
pub mod guard;
#[cfg(all(feature = "c11", any(not(feature = "c20"), feature = "c20full")))]
#[path = "suite_lite.rs"]
pub mod suite;
#[cfg(all(feature = "c11", any(not(feature = "c20"), feature = "c20full")))]
#[path = "c11.rs"]
pub mod c11;
