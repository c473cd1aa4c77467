# Sourced by the build steps.
. /opt/vp/env.sh
V=${V:-$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)}
B=${VERIF_BUILD:-$V/.build}
mkdir -p $B
export CARGO_TARGET_DIR=$B/target CARGO_INCREMENTAL=0 RUSTFLAGS="-C embed-bitcode=yes"
unset CARGO_PROFILE_DEV_DEBUG
LB=$(rustc +nightly --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu/bin
