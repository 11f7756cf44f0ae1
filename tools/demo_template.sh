#!/bin/bash
# Run with cwd = the repository. Builds demo.rs (beside this file) against it for each CPU named in CPUS and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
tmp="$(mktemp -d)"
trap 'cd /; find "$tmp" -delete' EXIT
unset RUSTC_WRAPPER CARGO_TARGET_DIR
export HOME=/root RUSTUP_TOOLCHAIN=nightly-2020-07-01 CARGO_HOME="$tmp/cargo-home" CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
export PATH=/root/.cargo/bin:$PATH
mkdir -p "$tmp/src" "$tmp/cargo-home"
printf '[source.crates-io]\nreplace-with = "vendored-sources"\n[source.vendored-sources]\ndirectory = "/opt/vp/vendor"\n' > "$tmp/cargo-home/config"
cp "$here/demo.rs" "$tmp/src/main.rs"
cat > "$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
faster = { path = "$repo" }
[profile.release]
debug-assertions = false
T
cd "$tmp"
rc=0
for cpu in ${CPUS:-x86-64 nehalem haswell}; do
  RUSTFLAGS="-C target-cpu=$cpu --cap-lints allow" CARGO_TARGET_DIR="$tmp/t-$cpu" cargo build --release --offline -q 2>"$tmp/log" || { tail -20 "$tmp/log"; exit 99; }
  timeout 60 "$tmp/t-$cpu/release/demo" || { echo "demo failed on $cpu"; rc=1; }
done
exit $rc
