#!/bin/bash
# build one driver and run it: try.sh driver [san] [seed] [tier]
cd "$(dirname "$0")/.."
d=$1; san=${2:-asan}; export VERIF_SEED=${3:-1} VERIF_TIER=${4:-quick} VF_OUT=/tmp/try-$1.json
python3 run.py --build $d $san 2>&1 | tail -40 || exit 1
rm -f $VF_OUT
cd "${VF_BUILD:-build}"
time ASAN_OPTIONS=detect_leaks=0:exitcode=66:malloc_context_size=12 UBSAN_OPTIONS=print_stacktrace=1:halt_on_error=1:exitcode=66 TSAN_OPTIONS=halt_on_error=1:exitcode=66:second_deadlock_stack=1 timeout 3000 ./bin/$san/$d 2>/tmp/try-$d.err >/dev/null; echo rc=$?
tail -c ${TAIL:-3500} /tmp/try-$d.err
python3 - <<P
import json
try: d=json.load(open("$VF_OUT"))
except Exception as e: print("no out",e); raise SystemExit
for v in d["violations"][:12]: print("VIOL",v["key"],v["detail"][:400])
print(len(d["violations"]),"violations", {k:d[k] for k in ("evaluations","distinct","complete","counters")})
P
