#!/bin/bash
# usage: mkseed.sh <id> <core|native|...>  (developer tool)
# Writes demo.sh, Cargo.toml and Cargo.lock of a planted change; main.rs, patch.diff and meta.json are written by hand.
set -eu
d=/verif/seeded/$1
mkdir -p "$d"
cp /repo/Cargo.lock "$d/Cargo.lock"
case "$2" in
  core) deps='rstsr-core = { path = "/repo/rstsr-core", default-features = false, features = ["row_major", "aligned_alloc", "faer", "faer_as_default"] }
rstsr-common = { path = "/repo/rstsr-common" }
rayon = "1"
num = "0.4"' ;;
  serial|miri) deps='rstsr-core = { path = "/repo/rstsr-core", default-features = false, features = ["row_major", "aligned_alloc"] }
rstsr-common = { path = "/repo/rstsr-common" }' ;;
  native) deps='rstsr-native-impl = { path = "/repo/rstsr-native-impl", features = ["rayon"] }
rstsr-common = { path = "/repo/rstsr-common", features = ["rayon", "row_major"] }
rstsr-dtype-traits = { path = "/repo/rstsr-dtype-traits" }
rayon = "1"
num = "0.4"' ;;
  linalg) deps='rstsr-core = { path = "/repo/rstsr-core", default-features = false, features = ["row_major", "aligned_alloc", "faer", "faer_as_default"] }
rstsr-linalg-traits = { path = "/repo/rstsr-linalg-traits", features = ["faer"] }
rstsr-common = { path = "/repo/rstsr-common" }
rayon = "1"
num = "0.4"' ;;
  openblas) deps='rstsr-core = { path = "/repo/rstsr-core", default-features = false, features = ["row_major", "aligned_alloc"] }
rstsr-openblas = { path = "/repo/crates-device/rstsr-openblas" }
rstsr-linalg-traits = { path = "/repo/rstsr-linalg-traits" }
rstsr-common = { path = "/repo/rstsr-common" }
num = "0.4"' ;;
  sci) deps='rstsr-core = { path = "/repo/rstsr-core", default-features = false, features = ["row_major", "aligned_alloc", "faer", "faer_as_default"] }
rstsr-sci-traits = { path = "/repo/rstsr-sci-traits", features = ["faer"] }
rstsr-common = { path = "/repo/rstsr-common" }
rayon = "1"
num = "0.4"' ;;
esac
cat > "$d/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[[bin]]
name = "demo"
path = "main.rs"
[dependencies]
$deps
[profile.dev]
opt-level = 0
debug = false
incremental = false
[workspace]
X
cat > "$d/demo.sh" <<'X'
#!/bin/bash
# builds main.rs against /repo in a scratch folder and runs it: exit 0 when the property holds
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d /tmp/demo.XXXXXX)" || exit 3
trap 'rm -rf "$t"' EXIT
cp "$here/main.rs" "$here/Cargo.toml" "$here/Cargo.lock" "$t/"
export RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target" CARGO_TERM_COLOR=never
unset RSTSR_DEV RUSTFLAGS
@FLAGS@
cd "$t" && cargo build --offline -q 2>"$t/log" || { tail -30 "$t/log"; exit 3; }
timeout 120 "$t/target/debug/demo"
X
if [ "$2" = openblas ]; then f='export RUSTFLAGS="-C link-arg=-Wl,--unresolved-symbols=ignore-all -C relro-level=off -C link-arg=-Wl,-z,lazy"'; else f=; fi
sed -i "s|^@FLAGS@\$|$f|;/^\$/d" "$d/demo.sh"
if [ "$2" = miri ]; then
  sed -i 's|^cd "$t" && cargo build.*$|cd "$t" \&\& MIRIFLAGS="-Zmiri-many-seeds=0..16 -Zmiri-ignore-leaks" timeout 280 cargo miri run --offline -q 2>\&1 \| tail -40; exit "${PIPESTATUS[0]}"|; /^timeout 120/d' "$d/demo.sh"
fi
chmod +x "$d/demo.sh"
