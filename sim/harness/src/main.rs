//! rsim: deterministic simulation of RSTSR. Sub-commands: check, worker, one, replay.
#![allow(static_mut_refs, clippy::all)]
#![allow(dead_code)]

mod driver;
#[macro_use]
mod fw;
mod props;
#[cfg(feature = "blas")]
mod blas;

#[global_allocator]
static ALLOC: simcore::alloc::SimAlloc = simcore::alloc::SimAlloc;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let code = driver::main(&args[1..]);
    std::process::exit(code);
}
