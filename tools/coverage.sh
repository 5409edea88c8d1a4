#!/bin/bash
# coverage.sh [SESSIONS]: which lines of the library do recorded random sessions of each focus never run?  (a development aid)
cd "$(dirname "$0")/.." || exit 2
n=${1:-1500}; d=$(mktemp -d); . /opt/vp/env.sh 2>/dev/null
L=$(rustc --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu/bin
(cd harness && LLVM_PROFILE_FILE=$d/build-%p.raw RUSTFLAGS="-Cinstrument-coverage" cargo build --offline --quiet --target-dir "$d/t") || exit 2
b=$d/t/debug/vharness; i=0
for p in $(seq -f 'P%02g' 1 27); do
  LLVM_PROFILE_FILE=$d/c-$p.profraw timeout 300 $b gen --focus "$p" --seed 77 --sessions "$n" --from 0 --out "$d/all.nd" >/dev/null 2>&1
done
LLVM_PROFILE_FILE=$d/c-tables.profraw timeout 300 $b tables --out "$d/all.nd" >/dev/null 2>&1
LLVM_PROFILE_FILE=$d/c-arch.profraw timeout 300 $b arch --seed 1 --out "$d/all.nd" >/dev/null 2>&1
"$L"/llvm-profdata merge -sparse "$d"/c-*.profraw -o "$d/p"
"$L"/llvm-cov report "$b" -instr-profile="$d/p" --ignore-filename-regex='(\.cargo|rustc|harness)' | awk '{print $1,$8,$9,$10}'
"$L"/llvm-cov show "$b" -instr-profile="$d/p" --ignore-filename-regex='(\.cargo|rustc|harness)' > "${OUT:-/tmp/coverage.txt}"
rm -r "$d"
