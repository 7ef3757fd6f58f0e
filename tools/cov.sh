#!/bin/bash
# which lines of the repository the quick workloads execute: tools/cov.sh OUTDIR [driver...]
cd "$(dirname "$0")/.."
out=${1:-/tmp/cov}; shift
export VF_BUILD=$out VERIF_SEED=1 VERIF_TIER=quick
drivers=${*:-$(python3 -c 'from specs import *; print(*DRIVERS)')}
mkdir -p $out/prof
for d in $drivers; do
  python3 run.py --build $d cov >$out/$d.build 2>&1 || { echo "build $d failed"; continue; }
  VF_OUT=$out/$d.json LLVM_PROFILE_FILE=$out/prof/$d-%p.raw timeout 900 $out/bin/cov/$d >$out/$d.log 2>&1
  llvm-profdata merge -sparse $out/prof/$d-*.raw -o $out/prof/$d.prof && find $out/prof -name "$d-*.raw" -delete
  llvm-cov export -format=lcov -instr-profile=$out/prof/$d.prof $out/bin/cov/$d >$out/$d.lcov 2>/dev/null
  echo "$d done"
done
python3 tools/cov_sum.py $out/*.lcov
