#!/bin/bash
# builds the demonstration beside this script against the crate in the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d /tmp/p2t-demo-XXXXXX)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
printf '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\npoly2tri-rs = { path = "%s" }\n[features]\nf32 = ["poly2tri-rs/f32"]\n' "$repo" > "$d/Cargo.toml"
cd "$d" || exit 2
export CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true
b="$d/target/release/demo"
cargo build --offline --release -q 2>"$d/err" || { tail -20 "$d/err"; exit 2; }
RUN
