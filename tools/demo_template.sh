#!/bin/bash
# Compiles demo.rs against the libraries build.sh has just built, and runs it.
HERE=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d); trap 'rm -r "$W"' EXIT
T=/repo/target/debug; D=$T/deps
LS=$(cat $T/build/*/output | sed -n 's/^cargo:rustc-link-search=\(native=\)\?/-L native=/p' | sort -u | tr '\n' ' ')
export RUSTUP_TOOLCHAIN=stable
# several builds of a dependency may lie around: take the one the library was built with
ok=
for J in $(ls -t $D/libtket_json_rs-*.rlib); do for S in $(ls -t $D/libserde_json-*.rlib); do
  rustc --edition 2021 -A warnings "$HERE/demo.rs" -o "$W/demo" -L dependency=$D $LS \
    --extern tket=$T/libtket.rlib --extern tket_qsystem=$T/libtket_qsystem.rlib --extern tket_json_rs=$J --extern serde_json=$S 2>"$W/err" && { ok=1; break 2; }
done; done
[ $ok ] || { cat "$W/err"; exit 2; }
cd "$W" && timeout 250 ./demo
