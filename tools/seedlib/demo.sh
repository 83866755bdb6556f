#!/bin/bash
# Run with cwd = the repository. Builds main.rs (beside this script) against it and runs it in a scratch directory.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
export HOME=/root CARGO_HOME=/root/.cargo RUSTUP_HOME=/root/.rustup RUSTUP_TOOLCHAIN=nightly-2025-03-27
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin CARGO_NET_OFFLINE=true RUSTC_WRAPPER= PROTOC=/usr/bin/protoc
unset RUSTFLAGS CARGO_BUILD_TARGET
work="$(mktemp -d /tmp/demo.XXXXXX)" || exit 9
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src" "$work/scratch"
cp "$here/main.rs" "$work/src/main.rs"
cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
jstprove-io = { path = "$repo/rust/jstprove_io" }
jstprove-onnx = { path = "$repo/rust/jstprove_onnx" }
serde = { version = "1", features = ["derive"] }
rmp-serde = "1.3"
zstd = "0.13"
anyhow = "1"
prost = "0.13"
[profile.dev]
debug = false
incremental = false
T
(cd "$work" && CARGO_TARGET_DIR="$work/t" cargo build --offline -q 2>"$work/log") || { tail -20 "$work/log"; exit 9; }
cd "$work/scratch" && timeout 120 "$work/t/debug/demo"
