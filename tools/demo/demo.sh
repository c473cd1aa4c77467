#!/bin/bash
# Compiles the acorn crate from the working tree of /repo (sources symlinked into a scratch directory) with
# the test in demo.rs next to this script added as a module, and runs that test. Exit 0: it passes.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0 CARGO_PROFILE_TEST_DEBUG=0
repo=/repo
d=$(mktemp -d /tmp/acorn-demo.XXXXXX) || exit 3
trap 'find "$d" -delete' EXIT
mkdir -p "$d/src"
python3 - "$repo" "$d" <<'P'
import os, re, sys
repo, d = sys.argv[1:]
t = open(repo + "/Cargo.toml").read()
t = re.sub(r"^default-run = .*\n", "", t, flags=re.M)
t = re.sub(r'^\[\[bin\]\]\nname = "[^"]*"\n(?:[^\[\n].*\n)*', "", t, flags=re.M)
t = t.replace("[package]\n", "[package]\nbuild = false\nautobins = false\n", 1)
open(d + "/Cargo.toml", "w").write(t)
open(d + "/Cargo.lock", "w").write(open(repo + "/Cargo.lock").read())
for n in os.listdir(repo + "/src"):
    if n not in ("lib.rs", "bin", "main.rs"):
        os.symlink(repo + "/src/" + n, d + "/src/" + n)
for n in os.listdir(repo):
    if n not in ("src", "target", ".git", "Cargo.toml", "Cargo.lock", ".cargo", "tests"):
        os.symlink(repo + "/" + n, d + "/" + n)
l = open(repo + "/src/lib.rs").read()
l = re.sub(r"^(?:pub(?:\([a-z]+\))? )?mod (?:packaged_acornlib|server);\n", "", l, flags=re.M)
l = re.sub(r"#\[cfg\(test\)\]\nmod tests;\n", "", l)
l += "\n#[cfg(test)]\nmod planted_demo;\n"
open(d + "/src/lib.rs", "w").write(l)
P
cp "$here/demo.rs" "$d/src/planted_demo.rs"
mkdir -p "$d/target/debug/deps"
if [ -d "$repo/target/debug/deps" ]; then
  find "$repo/target/debug/deps" -maxdepth 1 \( -name '*.rlib' -o -name '*.rmeta' -o -name '*.so' -o -name '*.d' \) \
    -exec cp -a -t "$d/target/debug/deps" {} +
  cp -a "$repo/target/debug/.fingerprint" "$repo/target/debug/build" "$d/target/debug/"
fi
export CARGO_TARGET_DIR="$d/target"
cd "$d" && timeout 280 cargo test --offline --lib -- planted_demo 2>"$d/err" | tee "$d/out"
rc=${PIPESTATUS[0]}
[ $rc = 0 ] || tail -30 "$d/err"
grep -q "test result: ok. [1-9]" "$d/out" || rc=1
exit $rc
