#!/bin/bash
# check.sh PROPERTY : build the simulator from /repo's working tree and decide one property.
# VERIF_SEED seeds every choice, VERIF_TIER is quick or thorough.
# (DST_REPO / DST_BUILD point it at a scratch copy instead, for planted-bug work.)
cd "$(dirname "$0")" || exit 2
B=${DST_BUILD:-$PWD/build}
case "$1" in T*) export DST_TTL=1; B=$B-ttl;; esac   # properties of the build with TTL support
mkdir -p "$B" out evidence
if ! ./build.sh "${DST_REPO:-/repo}" "$B" >"$B/build.out" 2>&1; then
  echo "ERROR: the simulator did not build from ${DST_REPO:-/repo}"; tail -20 "$B/build.out"; exit 2
fi
DST_VERIF="${DST_VERIF:-$PWD}" exec "$B/dst" run "$1" --tier "${2:-${VERIF_TIER:-quick}}" --seed "${VERIF_SEED:-1}"
