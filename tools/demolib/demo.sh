#!/bin/bash
# Builds the small program beside this script against the husk in the current directory and runs it.
# Exit 0: the property holds in the demonstrated situation; otherwise it is broken.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" && cp "$here"/*.rs "$d/src/" || exit 3
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
husk = { path = "$repo" }
rand = "0.8"
[profile.release]
debug-assertions = true
overflow-checks = true
T
if [ -f "$here/entropy.rs" ]; then
  # the program decides what the operating system's entropy source answers
  mkdir -p "$d/getrandom/src" && mv "$d/src/entropy.rs" "$d/getrandom/src/lib.rs" || exit 3
  printf '[package]\nname = "getrandom"\nversion = "0.2.17"\nedition = "2021"\n[features]\nstd = []\n' > "$d/getrandom/Cargo.toml"
  sed -i 's|^rand = .*|&\ngetrandom = "0.2"|' "$d/Cargo.toml"
  printf '[patch.crates-io]\ngetrandom = { path = "getrandom" }\n' >> "$d/Cargo.toml"
fi
cd "$d" || exit 3
CARGO_TARGET_DIR="$d/target" cargo build --release --offline > build.log 2>&1 || { tail -40 build.log; exit 3; }
timeout 200 ./target/release/demo
