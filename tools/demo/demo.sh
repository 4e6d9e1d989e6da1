#!/bin/bash
# Run with cwd /repo: builds main.rs (beside this script) against the crates of the current directory and runs it.
# exit 0: behaviour is right; nonzero: it is not.
here=$(cd "$(dirname "$0")" && pwd) repo=$PWD
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=nightly-2025-04-06 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTC_WRAPPER CARGO_TARGET_DIR
w=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/demo/src" && ln -s "$repo/crates" "$w/crates" && cp "$here/main.rs" "$w/demo/src/main.rs" && cp "$repo/Cargo.lock" "$w/Cargo.lock" || exit 3
python3 - "$repo/Cargo.toml" >"$w/Cargo.toml" <<'P'
import re, sys
text = open(sys.argv[1]).read()
# the real workspace manifest, without its members and its [patch] tables (they name what is not here)
tables = re.split(r"(?m)^(?=\[[^\n]*\]\s*(?:#.*)?$)", text)
keep = "".join(t for t in tables if t.startswith("[workspace.dependencies") or t.startswith("[workspace.package"))
print('[workspace]\nmembers = ["demo"]\nresolver = "2"\n' + keep)
P
cat >"$w/demo/Cargo.toml" <<'P'
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
cairo-m-compiler-parser = { workspace = true, features = ["type-erased-parser"] }
cairo-m-compiler-diagnostics = { workspace = true }
cairo-m-compiler-semantic = { workspace = true }
cairo-m-formatter = { workspace = true }
cairo-m-project = { workspace = true }
salsa = "0.22"
tempfile = { workspace = true }
P
cd "$w" && CARGO_TARGET_DIR="$w/target" cargo build --offline -q -p demo 2>"$w/log" || { tail -20 "$w/log"; exit 3; }
ulimit -s unlimited 2>/dev/null
timeout 120 "$w/target/debug/demo"
