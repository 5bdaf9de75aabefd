# sourced by run.sh: the toolchain the repository builds with, offline
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
unset CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET RUSTC_WRAPPER RUSTC
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR=/verif/build
# /repo/.cargo/config.toml says target-cpu=native; products built on one CPU can SIGILL on another
export RUSTFLAGS=-Ctarget-cpu=x86-64
export RUST_BACKTRACE=0
