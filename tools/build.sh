#!/bin/bash
# build.sh <harness-cfg> : compile /repo + one harness module to a native binary and to LLVM bitcode
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
. $V/tools/env.sh
H=$1
python3 $V/tools/overlay.py $B/overlay
[ -f $B/stub.o -a $B/stub.o -nt $V/harness/stub.c ] || gcc -O1 -c $V/harness/stub.c -o $B/stub.o
cd $B/overlay
rm -f $B/target/release/deps/vh-* $B/target/release/vh
EXTRA=""
if [ -n "$VH_FEATURES" ]; then EXTRA="--features $VH_FEATURES"; fi
cargo rustc --offline --release --bin vh $EXTRA -- --cfg "vh=\"$H\"" --cfg verif_hooks $VH_CFG --emit=llvm-bc,link \
  -C no-prepopulate-passes -C link-arg=$B/stub.o --print link-args >$B/link-args.txt 2>$B/build.log \
  || { tail -60 $B/build.log >&2; exit 2; }
