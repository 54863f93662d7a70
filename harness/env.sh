export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= PROTOC=/usr/bin/protoc
export CARGO_TARGET_DIR=/verif/target
export RUSTFLAGS="${RUSTFLAGS:-} -Awarnings"
