#!/bin/bash
# Run with cwd /repo: builds main.rs (beside this script) against the crates of the current directory and runs it.
# The crates that are not to be had offline are replaced by the small ones beside this script (shims).
# exit 0: behaviour is right; nonzero: it is not.
here=$(cd "$(dirname "$0")" && pwd) repo=$PWD
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=nightly-2025-04-06 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTC_WRAPPER CARGO_TARGET_DIR
w=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/demo/src" && ln -s "$repo/crates" "$w/crates" && cp "$here/main.rs" "$w/demo/src/main.rs" && cp -r "$here/shims" "$w/shims" && cp "$here/lock" "$w/Cargo.lock" || exit 3
cat >"$w/Cargo.toml" <<'P'
[workspace]
members = ["demo"]
resolver = "2"
P
cat "$here/ws.toml" >>"$w/Cargo.toml"
cp "$here/demo.toml" "$w/demo/Cargo.toml"
cd "$w" && CARGO_TARGET_DIR="$w/target" cargo build --offline -q -p demo 2>"$w/log" || { grep -A9 '^error' "$w/log" | tail -30; exit 3; }
ulimit -s unlimited 2>/dev/null
timeout 120 "$w/target/debug/demo"
