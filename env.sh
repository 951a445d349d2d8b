# Toolchain settings shared by every check.
export RUSTUP_TOOLCHAIN=nightly-2024-09-05 CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR=/verif/target
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER CARGO_BUILD_TARGET
