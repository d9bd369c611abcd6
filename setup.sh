#!/bin/sh
# Build what the checks use, from the committed files and /repo's working tree.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence
cargo build --release --offline --quiet --manifest-path harness/Cargo.toml || exit 2
cargo build --release --offline --quiet --manifest-path /repo/Cargo.toml --target-dir harness/target/cli || exit 2
gcc -O2 -shared -fPIC -o harness/target/shim.so shim/shim.c -ldl -lpthread || exit 2
RUSTC_WRAPPER="$PWD/wasmmc/rustc-wrapper.sh" cargo build --release --offline --quiet --manifest-path wasmmc/Cargo.toml || exit 2
