# Sourced by every check: offline toolchain settings, build output under /verif/target.
export HOME=${HOME:-/root}
export PATH="/usr/local/cargo/bin:$HOME/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin${PATH:+:$PATH}"
export RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-stable} CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= LANG=C.UTF-8
export CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_INCREMENTAL=1
export LLVM_SYS_140_PREFIX=/usr/lib/llvm-14 PYTHONDONTWRITEBYTECODE=1
export CARGO_TARGET_DIR=/verif/target/native
