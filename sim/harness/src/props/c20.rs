//! C20: data-race freedom. The workloads of the other properties (without faults) run under the happens-before race
//! detector (simcore/src/race.rs); only its reports count here.
use crate::fw::*;

pub fn run() {
    #[cfg(feature = "c20full")]
    if coin(1, 5) {
        let p = if coin(1, 2) { "C11" } else { "C15" };
        desc!("workload of {p}");
        return super::dispatch(p);
    }
    let list = ["C01", "C02", "C03", "C04", "C05", "C06", "C10", "C13", "C14"];
    let p = list[weighted(&[4, 3, 2, 2, 4, 4, 4, 1, 2])];
    desc!("workload of {p}");
    super::dispatch(p);
}
