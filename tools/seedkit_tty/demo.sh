#!/bin/bash
# Run in the root of the repository.  Builds the interactive program with the
# repository's library, types case.txt into it on a pseudo terminal and compares
# what the terminal receives with expect.txt.
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 9
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/b" "$d/home/run"
cp "$repo/Cargo.lock" "$d/b/Cargo.lock"
cat > "$d/b/Cargo.toml" <<T
[package]
name = "demo"
version = "0.6.8"
autobins = false
[[bin]]
name = "rtf"
path = "$repo/rtf/src/main.rs"
[workspace]
[dependencies]
rtforth = { path = "$repo" }
crossterm = "0.25"
unicode-width = "0.1"
getopts = "0.2.21"
lazy_static = "1.4.0"
directories = "4.0"
T
export CARGO_TARGET_DIR=$d/target CARGO_PROFILE_DEV_DEBUG=0
(cd "$d/b" && cargo build --offline --quiet 2> build.log) || { tail -20 "$d/b/build.log"; exit 8; }
timeout 100 python3 "$here/play.py" "$d/target/debug/rtf" "$d/home" "$here/case.txt" > "$d/got.txt" || { tail -5 "$d/got.txt"; exit 1; }
if [ -n "$REBASE" ]; then cp "$d/got.txt" "$here/expect.txt"; fi
diff "$here/expect.txt" "$d/got.txt"
