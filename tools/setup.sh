#!/bin/bash
# Build symex, compile /repo's dependencies once, and link their bitcode.
set -e
V=$(cd "$(dirname "$0")/.." && pwd)
. $V/tools/env.sh
$V/symex/build.sh
$V/tools/build.sh k07
$V/tools/deps.sh
