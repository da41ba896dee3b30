# sourced by everything here: the same toolchain settings as /repo's own build
export HOME=${HOME:-/root}
export PATH=/usr/lib/llvm-14/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/root/.cargo/bin
export LLVM_SYS_110_PREFIX=/usr/lib/llvm-14
export LLVM_SYS_110_FFI_WORKAROUND=YES
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_TERM_COLOR=never
export RUSTC_WRAPPER=
unset MAKEFLAGS RUSTFLAGS CARGO_TARGET_DIR
