#!/bin/bash
# Builds all monitors.
cd "$(dirname "$0")" || exit 2
. ./env.sh
./prep.sh || exit 2
cd harness && cargo build --offline --bins 2>&1 | tail -5
exit "${PIPESTATUS[0]}"
