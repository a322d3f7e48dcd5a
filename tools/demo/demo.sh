#!/bin/bash
# Builds demo.rs against the repository in the current directory and runs it:
# exit 0 when the behaviour is right, non-zero when it is not.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src" "$t/scratch"
cp -r "$here/vendor" "$here/Cargo.lock" "$t/"
mkdir -p "$t/.cargo" && cp "$here/config.toml" "$t/.cargo/config.toml"
sed "s#@REPO@#$repo#g" "$here/Cargo.toml.in" > "$t/Cargo.toml"
cp "$here/demo.rs" "$t/src/main.rs"
[ -f "$here/util.rs" ] && cp "$here/util.rs" "$t/src/util.rs"
cd "$t" || exit 2
export CARGO_TARGET_DIR="$t/target" CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 DEMO_TMP="$t/scratch"
cargo build --offline -q 2> "$t/build.log" || { tail -30 "$t/build.log"; exit 2; }
timeout 120 ./target/debug/demo
