#!/bin/bash
# check.sh build | check.sh <PROPERTY> quick|thorough
# Builds the simulator from /repo's current working tree (incrementally) and runs the seeded search.
set -u
V=$(cd "$(dirname "$0")" && pwd)
cd "$V"
mkdir -p build evidence
log=build/build.log
build() {
  exec 9>build/.lock; flock 9
  {
    cmake -Wno-dev -S /repo -B "$V/build/europa" -G "Unix Makefiles" -DCMAKE_BUILD_TYPE=Release \
      -DCMAKE_CXX_FLAGS_RELEASE="-O1 -g0 -w" -DCMAKE_C_FLAGS_RELEASE="-O1 -g0 -w" &&
    make -C "$V/build/europa" -j8 System_g &&
    make -C "$V/sim" -j8 EB="$V/build/europa" OUT="$V/build/sim" &&
    make -C "$V/sim/threads" -j8 EB="$V/build/europa" OUT="$V/build/simt"
  } >"$log" 2>&1
  local rc=$?
  flock -u 9
  if [ $rc -ne 0 ]; then echo "build failed (see $V/$log)"; tail -15 "$log"; fi
  return $rc
}
id=${1:-}
build || exit 4
[ "$id" = build ] && exit 0
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
if [ "$tier" = thorough ]; then secs=${SIM_SECONDS:-600}; min=60; else secs=${SIM_SECONDS:-42}; min=20; fi
out="$V/build/out/$id-$tier"
mkdir -p "$out"
sim="$V/build/sim/sim"; [ "$id" = C18 ] && sim="$V/build/simt/simt"
exec "$sim" search --prop "$id" --tier "$tier" --seed "$seed" --seconds "$secs" --minimise "$min" \
  --outdir "$out" --known "$V/known_findings.txt" --verif "$V" --evidence "$V/evidence/$id.json" --workers "${SIM_WORKERS:-8}"
