# environment for building with the pinned toolchain, offline
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=nightly-2019-01-15 CARGO_NET_OFFLINE=true CARGO_HOME=/verif/cargo-home
unset RUSTC RUSTFLAGS RUSTC_WRAPPER CARGO_TARGET_DIR
