#!/bin/bash
# ir.sh <out.ll> <entry>... : link the crate's and the dependencies' bitcode, keep what the entries reach
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
. $V/tools/env.sh
out=$1; shift
api=$(echo "$@" | tr ' ' ',')
$LB/llvm-link $B/target/release/deps/vh-*.rcgu.bc -o $B/crate.bc 2>$B/link.log
$LB/opt -passes='internalize,globaldce' -internalize-public-api-list=$api $B/crate.bc -o $B/crate2.bc
$LB/llvm-link $B/crate2.bc --only-needed $B/deps.bc -o $B/all0.bc 2>>$B/link.log
$LB/opt -strip-debug -passes='internalize,globaldce' -internalize-public-api-list=$api $B/all0.bc -o $B/all.bc
$B/symex/release/symex prep $B/all.bc $out $VH_MERGE "$@"
