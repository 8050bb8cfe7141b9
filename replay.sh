#!/bin/bash
# usage: bash replay.sh FILE
# Runs one recorded execution against /repo's current working tree: exit 1 if it (still) violates the property.
here=$(cd "$(dirname "$0")" && pwd)
bash "$here/build.sh" || exit 3
export SIM_ROOT=$here
exec "$here/sim/target/release/sim" replay "$@"
