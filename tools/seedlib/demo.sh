#!/bin/bash
# cwd is the repository; builds main.rs (beside this file) against it in a scratch directory and runs it
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
w=$(mktemp -d); trap 'rm -rf "$w"' EXIT
mkdir "$w/src"; cp "$here/main.rs" "$w/src/main.rs"; cp "$repo/Cargo.lock" "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
hybridcvrp = { path = "$repo" }
[profile.dev]
opt-level = 1
T
cd "$w" && RUSTFLAGS="--cfg hybridcvrp_verif -Awarnings" CARGO_TARGET_DIR="$w/target" timeout 280 cargo run --offline -q
