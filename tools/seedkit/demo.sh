#!/bin/bash
# Run in the root of the repository.  Builds a small host around the library,
# runs case.txt on it and compares the transcript with expect.txt.
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 9
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src" "$d/run"
cp "$here/main.rs" "$here/shell.rs" "$d/src/"
cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
[workspace]
[dependencies]
rtforth = { path = "$repo" }
T
export REPO=$repo CARGO_TARGET_DIR=$d/target CARGO_PROFILE_DEV_DEBUG=0
(cd "$d" && cargo build --offline --quiet 2> build.log) || { tail -20 "$d/build.log"; exit 8; }
cp "$here/case.txt" "$d/case.txt"
cd "$d/run" || exit 9
ulimit -v 8000000
timeout 60 "$d/target/debug/demo" "$d/case.txt" > "$d/got.txt" 2> "$d/err.txt" || { tail -5 "$d/err.txt"; exit 1; }
if [ -n "$REBASE" ]; then cp "$d/got.txt" "$here/expect.txt"; fi
diff "$here/expect.txt" "$d/got.txt"
