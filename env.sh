# toolchain and offline settings for everything under /verif
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="${RSIM_TARGET:-/verif/sim/target}"
unset RSTSR_DEV RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
# atomic operations of the crates under test become yield points of the simulator
export RUSTC_WRAPPER="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)/sim/rustc-wrap.sh"
