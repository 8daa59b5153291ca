#!/bin/bash
# check.sh <property id> [quick|thorough]   run one check
# check.sh --replay FILE                    re-run a recorded violation
cd "$(dirname "$(realpath "$0")")" || exit 3
export LC_ALL=C
unset MAKEFLAGS
B=$PWD/build
if [ "$1" = --replay ]; then
  id=$(awk '$1=="check"{print $2; exit}' "$2") || exit 3
  make -s -C sim -j8 B="$B" "$B/libp0.so" "$B/sim-$id" >&2 || exit 3
  exec "$B/sim-$id" --libs "$B" --replay "$2" ${3:+$3}
fi
id=$1
tier=${2:-${VERIF_TIER:-quick}}
mkdir -p "$B/replays" evidence
if ! make -s -C sim -j8 B="$B" "$B/libp0.so" "$B/sim-$id" >"$B/make-$id.log" 2>&1; then
  cat "$B/make-$id.log"; echo "ERROR: build failed"; exit 3
fi
exec "$B/sim-$id" --check "$id" --tier "$tier" --seed "${VERIF_SEED:-1}" --libs "$B" \
  --evidence "evidence/$id.json" --replays "$B/replays" --known known_findings.txt
