#!/bin/bash
cd "$(dirname "$0")" && . ../tools/env.sh && unset RUSTFLAGS && CARGO_TARGET_DIR=$B/symex cargo build --offline --release "$@"
