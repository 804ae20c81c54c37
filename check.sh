#!/bin/bash
# check.sh <property> <quick|thorough>: rebuilds the simulator from /repo's working tree and searches.
cd /verif || exit 2
log=$(mktemp) || exit 2
if ! ./build.sh >"$log" 2>&1; then
  cat "$log"; rm -f "$log"
  echo "the simulator does not build against /repo"
  exit 2
fi
rm -f "$log"
export VERIF_DIR=/verif
exec /verif/target/debug/chsim check "$1" "${2:-quick}"
