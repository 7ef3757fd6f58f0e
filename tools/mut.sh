#!/bin/bash
# run drivers against the tree in /tmp/rv: mut.sh [san:]driver...
cd "$(dirname "$0")/.."
for x in "$@"; do san=asan; d=$x; case $x in *:*) san=${x%%:*}; d=${x##*:};; esac
VF_REPO=/tmp/rv VF_BUILD=/tmp/rvb timeout 600 python3 run.py --build $d $san >/tmp/rvlog 2>&1 || tail -15 /tmp/rvlog
(cd /tmp/rvb; ASAN_OPTIONS=detect_leaks=0 VERIF_SEED=${SEED:-1} VERIF_TIER=quick VF_OUT=/tmp/rv.json timeout 300 ./bin/$san/$d >/tmp/rv.log 2>&1; echo "$d rc=$?"; grep -a "VF-FAIL\|ERROR\|hang\|runtime error" /tmp/rv.log | cut -c1-220 | head -${N:-4}); done
