#!/bin/bash
# Builds demo.rs against the crate in the current directory (/repo) and runs it: 0 if the behaviour is right.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
export HV_REPO=$(pwd)
export PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=1.77.2-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
rm -rf /tmp/hv_demo_@ID@
mkdir -p /tmp/hv_demo_@ID@/demo/src
trap 'rm -rf /tmp/hv_demo_@ID@' EXIT
export CARGO_TARGET_DIR=${DEMO_TARGET:-/tmp/hv_demo_@ID@/target}
python3 "$HERE/make_view.py" /tmp/hv_demo_@ID@/view || exit 9
cp "$HERE/Cargo.lock" /tmp/hv_demo_@ID@/demo/Cargo.lock
cp "$HERE/demo.rs" /tmp/hv_demo_@ID@/demo/src/main.rs
cat > /tmp/hv_demo_@ID@/demo/Cargo.toml <<'TOML'
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
hun_law = { path = "../view" }
anyhow = "*"
chrono = { version = "0.4", default-features = false }
libc = "0.2"
log = "*"
serde_json = "*"
tempfile = "*"
TOML
cd /tmp/hv_demo_@ID@/demo && cargo run --offline --quiet
