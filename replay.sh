#!/bin/bash
# replay.sh <file>: repeats the run of a replay file against /repo's working tree.
cd /verif && ./build.sh >/dev/null 2>&1 || { echo "the simulator does not build against /repo"; exit 2; }
exec /verif/target/debug/chsim replay "$1"
