# Sourced by every command of /verif. Same toolchain and libtorch as /opt/vp/env.sh.
export PATH="$PATH:/root/.cargo/bin:/usr/local/bin"
export RUSTUP_TOOLCHAIN=stable
export RUSTC_WRAPPER=
export CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never
export LIBTORCH=/opt/vp/pytorch/torch
export LIBTORCH_CXX11_ABI=0
export LD_LIBRARY_PATH="$LIBTORCH/lib"
# optimised, but with debug assertions and overflow checks as run-time monitors
export CARGO_PROFILE_DEV_OPT_LEVEL=2
export CARGO_PROFILE_DEV_DEBUG=line-tables-only
export CARGO_PROFILE_DEV_DEBUG_ASSERTIONS=true
export CARGO_PROFILE_DEV_OVERFLOW_CHECKS=true
export CARGO_PROFILE_DEV_INCREMENTAL=false
export CARGO_INCREMENTAL=0
# the hooks of /repo/src/verif_hooks.rs
export RUSTFLAGS="--cfg die_e_verif -Awarnings"
export CARGO_TARGET_DIR="${VERIF_TARGET:-/verif/target}"
export RUST_BACKTRACE=0
export OMP_NUM_THREADS="${OMP_NUM_THREADS:-4}"
