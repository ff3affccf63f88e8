#!/bin/bash
# Runs every check (or the given ones) and copies the shrunk failing input of each violation
# into regress/<ID>/ so that later runs replay it first. Maintenance tool, not used by checks.
cd "$(dirname "$0")/.."
./build.sh || exit 2
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(target/release/kv list | cut -d' ' -f1 | sort -u))
for id in "${ids[@]}"; do
  out=$(target/release/kv check "$id" 2>&1); rc=$?
  r=$(grep -o 'replay=.*' <<<"$out" | head -1 | cut -d= -f2)
  if [ $rc = 1 ]; then
    echo "$id VIOLATION: $(head -1 <<<"$out" | cut -c1-220)"
    case "$r" in *regress*) ;; *) mkdir -p regress/$id; cp "$r" regress/$id/$(basename "$r");; esac
  else echo "$id rc=$rc"; fi
done
