export RUSTUP_TOOLCHAIN=nightly-2025-04-06 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTC_WRAPPER RUSTFLAGS
