#!/bin/bash
# deps.sh : link the bitcode of std and of the dependencies' rlibs into one deps.bc (done once, at setup)
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
. $V/tools/env.sh
key=$(tr ' ' '\n' <$B/link-args.txt | tr -d '"' | grep '\.rlib$' | sort -u | sha1sum | cut -c1-16)
[ -f $B/deps-$key.bc ] && { ln -sf deps-$key.bc $B/deps.bc; exit 0; }
rm -rf $B/bc && mkdir $B/bc
export LB B
one() {
  r=$1; n=$(basename $r .rlib); d=$B/bc/$n; mkdir -p $d; cd $d
  $LB/llvm-ar x $r
  for o in *.o; do
    [ -f "$o" ] || continue
    $LB/llvm-objcopy --dump-section .llvmbc=${o%.o}.bc $o /dev/null 2>/dev/null || true
    rm -f $o
  done
  rm -f lib.rmeta
  f=$(ls *.bc 2>/dev/null || true)
  if [ -n "$f" ]; then $LB/llvm-link *.bc -o $B/bc/$n.bc 2>/dev/null || echo "skip $n"; fi
  cd $B; rm -rf $d
}
export -f one
tr ' ' '\n' <$B/link-args.txt | tr -d '"' | grep '\.rlib$' | sort -u | xargs -P 8 -I{} bash -c 'one {}'
$LB/llvm-link $B/bc/*.bc -o $B/deps-$key.bc
rm -rf $B/bc
ln -sf deps-$key.bc $B/deps.bc
