#!/bin/bash
# Builds main.rs against the repository in the current directory and runs it in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH=/usr/local/bin:/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=nightly-2022-05-20-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset CARGO_TARGET_DIR RUSTFLAGS
w=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src" "$w/.cargo" "$w/scratch"
cp "$here/main.rs" "$w/src/main.rs"
cp "$repo/Cargo.lock" "$w/Cargo.lock" 2>/dev/null || cp /opt/vp/ws/Cargo.lock "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
dochy_json5 = { path = "$repo/dochy_json5" }
dochy_compaction = { path = "$repo/dochy_compaction" }
dochy_archiver2 = { path = "$repo/dochy_archiver2" }
dochy_core = { path = "$repo/dochy_core" }
dochy_diff = { path = "$repo/dochy_diff" }
dochy_fs = { path = "$repo/dochy_fs" }
dochy_intf = { path = "$repo/dochy_intf" }
[patch.crates-io]
regex = { path = "/opt/vp/ws/vendor/regex-1.9.6" }
T
cat > "$w/.cargo/config.toml" <<T
[source.crates-io]
replace-with = "vendored-sources"
[source.vendored-sources]
directory = "/opt/vp/ws/vendor"
[net]
offline = true
T
cd "$w" || exit 3
if ! cargo build --offline > build.log 2>&1; then
    tail -40 build.log
    exit 4
fi
cd "$w/scratch" || exit 3
timeout 120 "$w/target/debug/demo"
