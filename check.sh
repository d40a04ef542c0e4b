#!/bin/bash
# check.sh PROPERTY: builds the monitors from /repo's working tree and runs one.
cd "$(dirname "$0")" || exit 2
. ./env.sh
export VERIF_DIR=$PWD
id=$1
[ "$2" = thorough ] && export VERIF_TIER=thorough
bin=$(awk -v id="$id" '$1==id{print $2}' harness/checks.txt)
[ -n "$bin" ] || { echo "unknown property $id"; exit 2; }
log=$(mktemp)
if ! { ./prep.sh && cd harness && cargo build --offline --bin "$bin"; } >"$log" 2>&1; then
    tail -40 "$log"; rm -f "$log"; echo "build failed"; exit 2
fi
rm -f "$log"
"$CARGO_TARGET_DIR/debug/$bin" "$id"
rc=$?
case $rc in
132|134|136|139)
    # The monitored code took the whole process down: stack overflow, abort, ...
    mkdir -p replays
    echo "{\"property\": \"$id\", \"signature\": \"process-died\", \"exit\": $rc, \"seed\": \"$VERIF_SEED\"}" >"replays/$id-died.json"
    echo "VIOLATION property=$id replay=$PWD/replays/$id-died.json process-died exit=$rc"
    exit 1 ;;
esac
exit $rc
