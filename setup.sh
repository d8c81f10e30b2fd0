#!/bin/bash
# Builds the framework from the committed files (offline): the executor, the bitcode of the
# standard library, and the dependency builds that every check reuses.
set -e
cd "$(dirname "$0")"
V=$PWD
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
mkdir -p build/std evidence
(cd engine && cargo build --release --offline --target-dir "$V/build/engine")
SYS=$(rustc --print sysroot)
HOST=$(rustc -vV | sed -n 's/^host: //p')
OBJCOPY=$SYS/lib/rustlib/$HOST/bin/llvm-objcopy
AR=$SYS/lib/rustlib/$HOST/bin/llvm-ar
for c in std core alloc hashbrown; do
  rlib=$(ls "$SYS/lib/rustlib/$HOST/lib/lib$c-"*.rlib)
  d=$(mktemp -d)
  (cd "$d" && "$AR" x "$rlib" && n=0 && for o in *.rcgu.o; do "$OBJCOPY" --dump-section .llvmbc="$d/out.bc" "$o" /dev/null && n=$((n+1)); done; test $n = 1)
  mv "$d/out.bc" "$V/build/std/$c.bc"
  rm -r "$d"
done
python3 check.py --prebuild
