#!/bin/bash
# tools/build.sh [std|noalloc]: builds engine, symbolic IR and the native replay binary from /repo's current tree
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= CARGO_TERM_COLOR=never
unset CARGO_TARGET_DIR; export RUSTFLAGS=-Awarnings
set -e
cd "$(dirname "$0")/.."
V=${1:-std}
F=(); [ "$V" = noalloc ] && F=(--no-default-features)
(cd engine && cargo build --release --offline -q)
rm -f sym/target/$V/release/deps/sym-*.ll
(cd sym && touch src/lib.rs && cargo rustc --release --offline -q --target-dir target/$V "${F[@]}" -- --emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp) &
P=$!
(cd replay && cargo build --release --offline -q --target-dir target/$V "${F[@]}")
wait $P
