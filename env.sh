# toolchain and offline settings of the checks; nothing is written under /opt/vp
export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export RUSTUP_TOOLCHAIN=nightly-2023-11-04
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS=
export VERIF_DIR="${VERIF_DIR:-/verif}" VERIF_REPO=/repo
export CARGO_TARGET_DIR="${MC_TARGET_DIR:-$VERIF_DIR/target}"
unset CARGO_BUILD_TARGET CARGO_INCREMENTAL
