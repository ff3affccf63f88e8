#!/bin/bash
# check.sh ID [quick|thorough]: rebuilds against /repo's working tree and decides property ID.
# exit 0: held on everything explored; 1: VIOLATION line printed; 2: no verdict (build or harness error).
cd "$(dirname "$0")" || exit 2
id="$1"
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}" VERIF_SEED="${VERIF_SEED:-1}"
if ! out=$(./build.sh 2>&1); then
  printf '%s\n' "$out" | tail -n 40
  echo "ERROR property=$id the harness does not build against /repo"
  exit 2
fi
exec ./target/release/kv check "$id"
