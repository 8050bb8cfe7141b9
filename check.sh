#!/bin/bash
# usage: bash check.sh PROPERTY [quick|thorough]
# Builds the simulator against /repo's current working tree and searches for a violation of the property.
here=$(cd "$(dirname "$0")" && pwd)
bash "$here/build.sh" || exit 3
export SIM_ROOT=$here
exec "$here/sim/target/release/sim" check "$@"
