#!/bin/bash
# Builds the engine and the harness program (from /repo's current tree) and emits the harness's LLVM IR.
set -e
cd /verif
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET RUSTC
mkdir -p build
exec 9>build/lock
flock 9
(cd engine && RUSTFLAGS=-Awarnings RUSTUP_TOOLCHAIN=stable cargo build --release --offline -q 9>&-) & eng=$!
cd harness
export RUSTUP_TOOLCHAIN=1.77.2
export RUSTFLAGS="-Awarnings -Csave-temps -Ccodegen-units=1 -Cno-vectorize-loops -Cno-vectorize-slp -Cllvm-args=-inline-threshold=30 -Cllvm-args=-inlinehint-threshold=40"
cargo build --release --offline -q "$@" 9>&-
bc=$(ls -t target/release/deps/h-*.lto.after-restriction.bc | head -1)
if [ ! -f ../build/h.ll ] || [ "$bc" -nt ../build/h.ll ]; then
  opt-18 -strip-debug -passes='globaldce,lowerinvoke,simplifycfg,globaldce' "$bc" -o ../build/h.bc
  llvm-dis-18 ../build/h.bc -o ../build/h.ll.tmp
  mv ../build/h.ll.tmp ../build/h.ll
fi
wait $eng
