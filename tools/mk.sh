#!/bin/bash
# development: rebuild the executor, the IR and the native replay
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
(cd /verif/symx && CARGO_TARGET_DIR=/verif/.build/symx cargo build --release --offline 2>&1 | grep -E "^error|-->|Finished" )
(cd /verif/harness/sym && RUSTFLAGS=--cfg=tiny_spice_verif CARGO_TARGET_DIR=/verif/.build/sym cargo rustc --release --offline -- --emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp 2>&1 | grep -E "^error|-->|Finished" | grep -v /repo)
(cd /verif/harness/native && RUSTFLAGS=--cfg=tiny_spice_verif CARGO_TARGET_DIR=/verif/.build/native cargo build --offline 2>&1 | grep -E "^error|-->|Finished"| grep -v /repo)
