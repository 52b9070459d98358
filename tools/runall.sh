#!/bin/sh
# run every check one after another: tools/runall.sh [tier] [ids...]
cd "$(dirname "$0")/.." || exit 3
tier=${1:-quick}
[ $# -gt 0 ] && shift
[ $# -eq 0 ] && set -- $(sed -n 's/.*"id": "\(C[0-9]*\)".*/\1/p' properties.jsonl)
for id in "$@"; do
    ./check "$id" "$tier" > /tmp/runall.$id.out 2>&1
    rc=$?
    echo "$id rc=$rc $(grep -m1 "$tier:" /tmp/runall.$id.out)"
done
